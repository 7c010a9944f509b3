"""Stand-in plugins, components, maps and files shared by the checks."""

import contextlib
import itertools
import json
import os

import numpy as np

import appletree as apt
import appletree.share as share


def reset():
    """Fresh global state."""
    share._cached_configs.clear()
    share._cached_functions.clear()


def clear_functions():
    share._cached_functions.clear()


def simulate_method(depends_on, func):
    """A method simulate(self, key, parameters, <dep>, ...) that calls func with the same arguments."""
    args = ", ".join(depends_on)
    ns = {"_func": func}
    exec(
        f"def simulate(self, key, parameters, {args}):\n"
        f"    return _func(self, key, parameters, {args})\n",
        ns,
    )
    return ns["simulate"]


def plugin(name, depends_on, provides, func, parameters=(), configs=(), register=True):
    """A Plugin subclass, available to generated code as appletree.plugins.<name>."""
    cls = type(
        name,
        (apt.Plugin,),
        dict(
            depends_on=list(depends_on),
            provides=list(provides),
            parameters=tuple(parameters),
            simulate=simulate_method(depends_on, func),
            __module__="mc.toys",
        ),
    )
    if configs:
        cls = apt.takes_config(*configs)(cls)
    if register:
        setattr(apt.plugins, name, cls)
    return cls


def floor_of(eps):
    """None: nothing is declared."""
    return {} if eps is None else {"add_eps_to_hist": eps}


def component_cls(name, plugins=(), norm_type="on_pdf", eps=False, base=None, register=True, **attrs):
    """A component class which registers plugins, available as appletree.components.<name>."""
    base = base or apt.ComponentSim

    def __init__(self, *args, **kwargs):
        base.__init__(self, *args, **kwargs)
        for p in plugins:
            self.register(p)

    cls = type(
        name,
        (base,),
        dict(
            __init__=__init__,
            norm_type=norm_type,
            **floor_of(eps),
            __module__="mc.toys",
            **attrs,
        ),
    )
    if register:
        setattr(apt.components, name, cls)
    return cls


def fixed_cls(name, norm_type="on_pdf", eps=False):
    cls = type(
        name,
        (apt.ComponentFixed,),
        dict(norm_type=norm_type, **floor_of(eps), __module__="mc.toys"),
    )
    setattr(apt.components, name, cls)
    return cls


def sample_plugin(name, provides, columns, parameters=()):
    """A plugin without inputs that returns the given columns whatever the key."""
    import jax.numpy as jnp

    cols = [np.asarray(c) for c in columns]

    def func(self, key, parameters, batch_size):
        return (key, *[jnp.asarray(c) for c in cols])

    return plugin(name, ["batch_size"], provides, func, parameters)


def write_csv(path, columns):
    """columns: dict name -> values."""
    names = list(columns)
    rows = zip(*[columns[n] for n in names]) if names else []
    with open(path, "w") as f:
        f.write(",".join(names) + "\n")
        for row in rows:
            f.write(",".join(repr(float(v)) for v in row) + "\n")
    return path


def write_json(path, obj):
    with open(path, "w") as f:
        json.dump(obj, f)
    return path


def point_map(path, xs, vals, kind="point", name="x"):
    return write_json(
        path,
        {"coordinate_type": kind, "coordinate_name": name, "coordinate_system": list(xs),
         "map": list(vals)},
    )


def regbin_map(path, lowers, uppers, vals, kind="regbin", names=None):
    return write_json(
        path,
        {
            "coordinate_type": kind,
            "coordinate_name": names or [f"x{i}" for i in range(len(lowers))],
            "coordinate_lowers": list(lowers),
            "coordinate_uppers": list(uppers),
            "map": np.asarray(vals).tolist(),
        },
    )


def par(prior_type="fixed", **kw):
    """An entry of a parameter configuration."""
    d = {
        "prior_type": prior_type,
        "prior_args": {},
        "allowed_range": [-1e6, 1e6],
        "init_mean": 1.0,
        "init_std": 0.1,
        "unit": "1",
        "doc": "toy",
    }
    if prior_type == "fixed":
        d["prior_args"] = {"val": kw.pop("val", 1.0)}
        d["allowed_range"] = None
        d["init_mean"] = None
        d["init_std"] = None
    d.update(kw)
    return d


def subsets(seq, lo=0, hi=None):
    seq = list(seq)
    hi = len(seq) if hi is None else hi
    for k in range(lo, hi + 1):
        yield from itertools.combinations(seq, k)


def ordered(seq, lo=0, hi=None):
    seq = list(seq)
    hi = len(seq) if hi is None else hi
    for k in range(lo, hi + 1):
        yield from itertools.permutations(seq, k)


@contextlib.contextmanager
def chdir(path):
    old = os.getcwd()
    os.chdir(path)
    try:
        yield
    finally:
        os.chdir(old)


def table_plugin(name, column_of):
    """A plugin whose outputs are arrays handed in through the parameters: data name -> key."""
    import jax.numpy as jnp

    names = list(column_of)

    def func(self, key, parameters, batch_size):
        return (key, *[jnp.asarray(parameters[column_of[n]]) for n in names])

    return plugin(name, ["batch_size"], names, func)


def bins_of(llh, path):
    """The edges of a likelihood; path is a file with its data columns."""
    try:
        return llh._bins
    except AttributeError:
        llh.register_component(fixed_cls("McBinsOf"), "mc_bins_of", file_name=path)
        return llh["mc_bins_of"].bins
