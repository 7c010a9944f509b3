"""C28: the memory limit handed to the backend is the fraction asked for."""

import os

import appletree as apt

VAR = "XLA_PYTHON_CLIENT_MEM_FRACTION"


def run(r):
    r.rule = "one case per fraction; non-trivial when the setting is read back and compared"
    n = 10000 if r.thorough else 2000
    grid = [i / n for i in range(1, n + 1)]
    grid += [1e-5, 1e-4, 1e-3, 0.0099, 0.0101, 0.099999, 0.1, 0.100001, 0.9899, 0.99, 0.9999, 1 - 1e-9]
    grid += [1, 1.0]
    old = os.environ.get(VAR)
    try:
        for f in grid:
            os.environ[VAR] = "unset"
            with r.guard("accepted-fraction", f):
                apt.set_gpu_memory_usage(f)
                v = float(os.environ[VAR])
                r.case(f)
                r.expect(0 < v <= 1, "limit-is-a-fraction", f, value=v)
                r.expect(abs(v - f) <= 0.0100001, "limit-is-the-fraction-asked-for", f, value=v)
        for f in [1.0001, 1.5, 2, 10, 100, 1e6]:
            os.environ[VAR] = "unset"
            with r.guard("large-fraction", f):
                apt.set_gpu_memory_usage(f)
                v = float(os.environ[VAR])
                r.case(f)
                r.expect(0.9 <= v < 1, "larger-values-limited-below-one", f, value=v)
        for f in [0, 0.0, -0.0, -1e-9, -0.3, -1, -5]:
            os.environ[VAR] = "unset"
            r.case(f)
            r.raises(Exception, "non-positive-refused", lambda: apt.set_gpu_memory_usage(f), f)
            r.expect(os.environ[VAR] == "unset", "refused-leaves-setting", f, value=os.environ[VAR])
        os.environ[VAR] = "unset"
        with r.guard("default"):
            apt.set_gpu_memory_usage()
            r.expect(0 < float(os.environ[VAR]) < 1, "default-is-a-fraction", None)
    finally:
        if old is None:
            os.environ.pop(VAR, None)
        else:
            os.environ[VAR] = old
    r.part("fractions", grid=len(grid))
