"""A monitor of every use of a random key, by value, while code runs without jit."""

import contextlib
import sys

import jax
import jax.random
import numpy as np

NAMES = [
    n
    for n in dir(jax.random)
    if not n.startswith("_")
    and callable(getattr(jax.random, n))
    and n not in ("PRNGKey", "key", "key_data", "wrap_key_data", "key_impl", "default_prng_impl", "clone", "Optional", "PRNGKeyArray", "random_gamma_p")
]


def rows(key):
    """The keys in an argument as hashable values (several, if the key is batched by vmap)."""
    for _ in range(4):
        if hasattr(key, "val") and isinstance(key, jax.core.Tracer):
            key = key.val
    if isinstance(key, jax.core.Tracer):
        return None
    if jax.dtypes.issubdtype(getattr(key, "dtype", None), jax.dtypes.prng_key):
        key = jax.random.key_data(key)
    a = np.asarray(key)
    if a.dtype != np.uint32 or a.shape[-1:] != (2,):
        return None
    return [tuple(int(v) for v in r) for r in a.reshape(-1, 2)]


class Monitor:
    def __init__(self):
        self.reset()

    def reset(self):
        self.used = {}  # key -> function that consumed it
        self.events = []
        self.reused = []
        self.blind = 0

    def consume(self, name, key):
        ks = rows(key)
        if ks is None:
            self.blind += 1
            return
        for k in ks:
            if k in self.used:
                self.reused.append((self.used[k], name, k))
            self.used[k] = name
            self.events.append((name, k))


MON = Monitor()


@contextlib.contextmanager
def monitored():
    depth = [0]

    def wrap(name, orig):
        def f(*args, **kw):
            if depth[0] == 0:
                key = kw["key"] if "key" in kw else (args[0] if args else None)
                MON.consume(name, key)
            depth[0] += 1
            try:
                with jax.disable_jit(False):
                    return orig(*args, **kw)
            finally:
                depth[0] -= 1

        return f

    saved = []
    originals = {n: getattr(jax.random, n) for n in NAMES}
    wrappers = {n: wrap(n, o) for n, o in originals.items()}
    byid = {id(o): wrappers[n] for n, o in originals.items()}
    for mod in [jax.random] + [m for n, m in list(sys.modules.items()) if n.startswith("appletree") and m]:
        for attr, v in list(vars(mod).items()):
            if id(v) in byid:
                saved.append((mod, attr, v))
                setattr(mod, attr, byid[id(v)])
    try:
        with jax.disable_jit():
            yield MON
    finally:
        for mod, attr, v in saved:
            setattr(mod, attr, v)
