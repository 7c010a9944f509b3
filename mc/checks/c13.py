"""C13: lineage is reproducible, complete and specific to each object."""

import contextlib
import copy
import itertools
import json
import os
import shutil
import subprocess
import sys
import warnings

import numpy as np

import appletree as apt
from appletree import utils
from appletree.share import set_global_config
from mc import core, toys


# ---------------------------------------------------------------------------------------- ingredients
# Every file name exists in two directories with the same content. Files differ only in content where
# the content is the ingredient, i.e. the content is swapped below one and the same name.
class Files:
    def __init__(self, root):
        self.dirs = [os.path.join(root, d) for d in ("one", "two/deeper")]
        # not searched, only reached by its full path
        self.elsewhere = os.path.join(root, "elsewhere")
        for d in self.dirs + [self.elsewhere]:
            os.makedirs(os.path.join(d, "sub"), exist_ok=True)
        self.written = {}

    def write(self, name, content):
        if self.written.get(name) == content:
            return
        for d in self.dirs + [self.elsewhere]:
            with open(os.path.join(d, name), "w") as f:
                f.write(content)
        self.written[name] = content


# the files are longer than any block a checksum may read: contents 0 and 1 only differ near the end,
# contents 0 and 2 only near the beginning
PAD = 70001


def map_content(i):
    return (
        '{"coordinate_type": "point", "coordinate_name": "x", "coordinate_system": [0.0, 1.0, 2.0], "map": ['
        + f"{1.5 if i == 2 else 1.0}, " + " " * PAD + f"{3.0 if i == 1 else 2.0}, 3.0]}}"
    )


def data_content(i):
    rows = [(0.5, 1.5, 0.25), (1.5, 0.5, 1.75), (0.75, 1.25, 0.5), (1.25, 0.75, 1.5)]
    if i:
        rows[0 if i == 2 else 3] = (1.75, 0.75, 1.5)
    lines = [",".join(map(str, x)) + "\n" for x in rows]
    return "ca,cb,cc\n" + lines[0] + "\n" * PAD + "".join(lines[1:])


def make_plugins():
    import jax.numpy as jnp

    def src(self, key, parameters, batch_size):
        return key, jnp.ones(batch_size), jnp.ones(batch_size)

    def one(self, key, parameters, ca):
        return key, ca

    conf = lambda: [
        apt.Constant(name="c13_a", default=1.0), apt.Constant(name="c13_b", default=1.0),
        apt.ConstantSet(name="c13_set", default=[["u", "v"], [[1.0, 2.0], [3.0, 4.0]]]),
        apt.Map(name="c13_map", default="map.json"),
    ]
    toys.plugin("C13Src", ["batch_size"], ["ca", "cb"], src, ("p",), conf())
    toys.plugin("C13Src2", ["batch_size"], ["ca", "cb"], src, ("p",), conf())
    toys.plugin("C13Sig", ["ca"], ["cc"], one, (), [
        apt.SigmaMap(name="c13_sig", default=["med.json", "low.json", "up.json", "s_par"]),
    ])
    eff = lambda self, key, parameters, cc: (key, cc)
    toys.plugin("C13Eff", ["cc"], ["eff"], eff)
    toys.plugin("C13Eff2", ["cc"], ["eff"], eff)
    # variants of one plugin: the same but for one declared thing
    toys.plugin("C13Par", ["batch_size"], ["ca", "cb"], src, ("p2",), conf())
    # methods are declared with the option
    for m in ("NN", "LERP", "IDW"):
        toys.plugin("C13M" + m, ["batch_size"], ["ca"], lambda self, key, parameters, batch_size: (key, jnp.ones(batch_size)), (), [
            apt.Map(name="c13_mm", default="map.json", method=m)])
        toys.plugin("C13S" + m, ["ca"], ["cc"], one, (), [
            apt.SigmaMap(name="c13_ss", default=["med.json", "low.json", "up.json"], method=m)])


BASE = dict(
    map=0, med=0, low=0, up=0, data=0, fix=0, a=None, b=None, set=None, other=None, scaler=None,
    dir=0, llh="L", src="C13Src", eff="C13Eff", data_names=("ca",), edges=0, bins_type="irreg", norm="on_pdf",
    rate="er_rate", eps=False, name="er", full=False, mm="NN", ss="NN", force=False, where="",
)
OPTS = {"a": "c13_a", "b": "c13_b", "set": "c13_set", "other": "c13_unrelated"}
LATE = [0.5 * i for i in range(1200)]
SETS = {4: [["u", "v"], [[1.0, 2.0], [3.0, 4.000001]]], 5: [["u", "v"], [LATE, LATE]], 6: [["u", "v"], [LATE, LATE[:600] + [0.25] + LATE[601:]]], 7: [["u", "v"], [LATE, LATE[:-1] + [0.0]]],
        1: [["u", "v"], [[1.0, 2.0], [3.0, 5.0]]], 2: [["u", "w"], [[1.0, 2.0], [3.0, 4.0]]], 3: [["u", "v"], [[3.0, 4.0], [1.0, 2.0]]]}
EDGES = [[0.0, 1.0, 2.0], [0.0, 1.125, 2.0], [0.0, 2.0], [0.0, 1.0, 3.0]]
# long binnings that differ a little, or only in the middle
LONG = [0.002 * i for i in range(1001)]
EDGES += [LONG, LONG[:500] + [1.0005] + LONG[501:], LONG[:-1] + [2.001], [0.0, 1.125000001, 2.0], [1e-9, 1.125, 2.0]]
EDGES2 = [[[0.0, 1.0, 2.0]] * 2, [[0.0, 1.0, 2.0], [0.0, 1.25, 2.0]]]


def at(g, name):
    """The name under which a file is used."""
    return os.path.join(g.get("where", ""), name)


def prepare(f, g, clear=True):
    """Write the files and set the options."""
    contents = {k + ".json": map_content(g[k]) for k in ("map", "med", "low", "up")}
    contents["data.csv"] = data_content(g["data"])
    contents["fix.csv"] = data_content(g["fix"])
    if clear:
        toys.reset()
    conf = {"url_base": f.dirs[g["dir"]]}
    if not g["where"]:
        for name, content in contents.items():
            f.write(name, content)
    else:
        # the files used are not the ones of the same name which the search finds
        for name, content in contents.items():
            f.write(name, map_content(0) if name.endswith("json") else data_content(0))
            f.write("sub/" + name, content)
        conf.update({"c13_map": at(g, "map.json"), "c13_mm": at(g, "map.json")})
        conf.update({k: [at(g, n) for n in ("med.json", "low.json", "up.json")] for k in ("c13_sig", "c13_ss")})
    for k, o in OPTS.items():
        if g[k] is not None:
            conf[o] = SETS[g[k]] if k == "set" else copy.deepcopy(g[k])
    if g["scaler"]:
        conf["c13_sig"] = ["med.json", "low.json", "up.json", g["scaler"]]
    set_global_config(conf)


def bins_of(g):
    n = len(g["data_names"])
    if n == 1:
        return (np.array(EDGES[g["edges"]]),)
    if g["bins_type"] == "meshgrid":
        return (np.array(EDGES[0]), np.array(EDGES[g["edges"]]))
    return (np.array(EDGES[0]), np.array(EDGES2[g["edges"]]))


def build(kind, g):
    g = {**BASE, **g}
    if kind == "plugin":
        return getattr(apt.plugins, g["src"])(llh_name=g["llh"])
    if kind == "method":
        return getattr(apt.plugins, "C13M" + g["mm"])(llh_name=g["llh"])
    if kind == "sigmamethod":
        return getattr(apt.plugins, "C13S" + g["ss"])(llh_name=g["llh"])
    if kind == "sigma":
        return apt.plugins.C13Sig(llh_name=g["llh"])
    if kind == "sim":
        cls = toys.component_cls("C13Comp", [getattr(apt.plugins, g["src"]), getattr(apt.plugins, g["eff"]), apt.plugins.C13Sig], g["norm"], g["eps"])
        c = cls(name=g["name"], llh_name=g["llh"], bins=bins_of(g), bins_type=g["bins_type"])
        c.rate_name = g["rate"]
        c.deduce(data_names=list(g["data_names"]), func_name="f_" + g["name"], force_no_eff=g["force"])
        c.compile()
        return c
    if kind == "fixed":
        cls = toys.fixed_cls("C13Fixed", g["norm"], g["eps"])
        c = cls(name=g["name"], llh_name=g["llh"], bins=bins_of(g), bins_type=g["bins_type"], file_name=at(g, "fix.csv"))
        c.rate_name = g["rate"]
        c.deduce(data_names=list(g["data_names"]))
        return c
    if kind in ("likelihood", "lit"):
        toys.component_cls("C13Comp", [getattr(apt.plugins, g["src"]), getattr(apt.plugins, g["eff"]), apt.plugins.C13Sig], g["norm"], g["eps"])
        conf = llh_config(kind, g)
        llh = (apt.Likelihood if kind == "likelihood" else apt.LikelihoodLit)(name=g["llh"], **conf)
        llh.register_component(apt.components.C13Comp, g["name"])
        if g.get("second") and kind == "likelihood":
            llh.register_component(toys.fixed_cls("C13Fixed", g["norm"], g["eps"]), "fx", at(g, "fix.csv"))
        return llh
    if kind == "context":
        toys.component_cls("C13Comp", [getattr(apt.plugins, g["src"]), getattr(apt.plugins, g["eff"]), apt.plugins.C13Sig], g["norm"], g["eps"])
        toys.fixed_cls("C13Fixed", g["norm"], g["eps"])
        return apt.Context(instruct(g), par_config=par_config(g))
    raise KeyError(kind)


def llh_config(kind, g):
    if kind == "lit":
        return {
            "variable_type": g.get("vt", "norm"), "bins_on": ["ca", "cb"], "logpdf_args": [["loc", "scale"], [[1.0, 2.0], [1.0 + g.get("arg", 0), 1.0]]]
            if g.get("vt", "norm") == "norm" else [["mu", "sigma_pos", "sigma_neg"], [[1.0], [1.0 + g.get("arg", 0)], [1.0]]],
        }
    n = len(g["data_names"])
    conf = {
        "data_file_name": at(g, "data.csv"), "bins_type": g["bins_type"], "bins_on": list(g["data_names"]) if n > 1 else g["data_names"][0],
        "bins": [b.tolist() for b in bins_of(g)],
    }
    conf.update({"clip": [0.0, 2.0]} if n == 1 else {"x_clip": [0.0, 2.0], "y_clip": [0.0, 2.0]})
    if g.get("alias"):
        conf["parameter_alias"] = {"p_l": "p"}
    return conf


def par_config(g):
    pc = {k: toys.par("uniform", prior_args={"lower": 0.0, "upper": 5.0}, allowed_range=[0.0, 5.0]) for k in ("p", "p2", "er_rate", "fx_rate", "nr_rate")}
    if g.get("prior"):
        pc["p"]["allowed_range"] = [0.0, 4.0]
    return pc


def instruct(g):
    comps = {g["name"]: "C13Comp"}
    if g.get("second"):
        comps["fx"] = {"component_cls": "C13Fixed", "file_name": at(g, "fix.csv")}
    one = {**llh_config("likelihood", g), "components": comps, "copy_parameters": {}}
    two = {**llh_config("likelihood", {**g, "data_names": ("cb",), "edges": 0, "bins_type": "irreg"}), "components": {"nr": "C13Comp"}, "copy_parameters": {}}
    llhs = {g["llh"]: one}
    if g.get("third"):
        llhs["T"] = two
    return {"likelihoods": llhs, "configs": {"c13_in": 1}}


def lineage_hash(f, kind, g, before=()):
    g = {**BASE, **g}
    prepare(f, g)
    utils.FULL_PATH_LINEAGE = g["full"]
    try:
        return build(kind, g).lineage_hash
    finally:
        utils.FULL_PATH_LINEAGE = False


# ---------------------------------------------------------------------------------------- must change
MUST = {
    "plugin": dict(map=[0, 1, 2], a=[1.0, 2.0, 3.0], b=[1.0, 2.0, 3.0], set=[None, 1, 2, 3], src=["C13Src", "C13Par"]),
    "sigma": dict(med=[0, 1, 2], low=[0, 1, 2], up=[0, 1, 2], scaler=[None, "t_par"]),
    "method": dict(mm=["NN", "LERP", "IDW"], map=[0, 1, 2]),
    "sigmamethod": dict(ss=["NN", "LERP", "IDW"], up=[0, 1]),
    "sim": dict(
        map=[0, 1, 2], a=[1.0, 2.0], b=[1.0, 2.0], up=[0, 1], src=["C13Src", "C13Src2"], eff=["C13Eff", "C13Eff2"],
        data_names=[("ca",), ("cb",), ("cc",), ("ca", "cb"), ("cb", "ca")], edges=[0, 1], bins_type=["irreg", "meshgrid"],
        norm=["on_pdf", "on_sim"], rate=["er_rate", "nr_rate"], eps=[False, True], force=[False, True],
    ),
    "fixed": dict(
        fix=[0, 1, 2], data_names=[("ca",), ("cb",), ("cc",), ("ca", "cb"), ("cb", "ca")], edges=[0, 1], bins_type=["irreg", "meshgrid"],
        norm=["on_pdf", "on_sim"], rate=["er_rate", "nr_rate"], eps=[False, True],
    ),
    "likelihood": dict(
        map=[0, 1, 2], a=[1.0, 2.0], up=[0, 1], data=[0, 1, 2], fix=[0, 1, 2], src=["C13Src", "C13Src2"], data_names=[("ca",), ("cb",), ("ca", "cb")],
        edges=[0, 1], bins_type=["irreg", "meshgrid"], norm=["on_pdf", "on_sim"], name=["er", "nr"], second=[True], alias=[False, True],
    ),
    "lit": dict(map=[0, 1, 2], a=[1.0, 2.0], b=[1.0, 2.0], src=["C13Src", "C13Src2"], vt=["norm", "twohalfnorm"], arg=[0, 1], name=["er", "nr"]),
    "context": dict(
        map=[0, 1, 2], a=[1.0, 2.0], low=[0, 1], data=[0, 1, 2], fix=[0, 1, 2], src=["C13Src", "C13Src2"], data_names=[("ca",), ("ca", "cb")],
        edges=[0, 1], norm=["on_pdf", "on_sim"], name=["er", "nr"], second=[True], third=[False, True], prior=[False, True],
    ),
}


def grid(kind, thorough):
    """All single and pairs of changes (thorough: three changes) of the ingredients of a kind."""
    menu = MUST[kind]
    keys = list(menu)
    seen = {}
    total = 1
    for v in menu.values():
        total *= len(v)
    full = total <= (3000 if thorough else 300)
    base = {k: v[0] for k, v in menu.items()}
    if full:
        for vals in itertools.product(*menu.values()):
            yield dict(zip(keys, vals))
        return
    for n in range(0, 4 if thorough else 3):
        for ks in itertools.combinations(keys, n):
            for vals in itertools.product(*[menu[k][1:] for k in ks]):
                yield {**base, **dict(zip(ks, vals))}


def irrelevant(g):
    """Ingredients that do not take part in what is simulated."""
    if not g.get("force"):
        return []
    return ["eff"] + (["up"] if "cc" not in g["data_names"] else [])


def check_must_change(r, f):
    for kind in MUST:
        seen = {}
        n = 0
        base = {k: v[0] for k, v in MUST[kind].items()}
        for g in grid(kind, r.thorough):
            if any(g[k] != base[k] for k in irrelevant(g)):
                continue
            case = (kind, g)
            r.case(case)
            n += 1
            with r.guard("lineage", case):
                h = lineage_hash(f, kind, g)
                if h in seen:
                    diff = {k: (seen[h][k], g[k]) for k in g if seen[h][k] != g[k]}
                    r.fail(f"changes-with-what-affects-the-result/{kind}", case, differs_in=diff, hash=h)
                seen[h] = g
        r.part("must-change-" + kind, configurations=n, distinct_hashes=len(seen))


CLOSE = {
    "a": [1.0, 2.0, 1.000000001, 1.0000000001, -1.0, 1e-30, 2e-30, 1e30, 123456789.0, 123456790.0, 0.30000000000000004, 0.3],
    "set": [None, 4, 5, 6, 7],
    "edges": [0, 1, 2, 3, 4, 5, 6, 7, 8],
    "rate": ["er_rate", "er_rat", "er_rate_", "ER_rate"],
    "name": ["er", "er_", "Er", "er2"],
}
CLOSE_OF = {
    "plugin": ["a", "set"], "sim": ["a", "set", "edges", "rate"], "fixed": ["edges", "rate"], "likelihood": ["a", "set", "edges", "name"],
    "lit": ["a", "set", "name"], "context": ["a", "edges"],
}


def check_close(r, f):
    """Values that differ in a late digit, or in one of very many entries."""
    n = 0
    for kind, keys in CLOSE_OF.items():
        for key in keys:
            seen = {}
            for v in CLOSE[key]:
                g = {**({"second": True} if kind in ("likelihood", "context") else {}), key: v}
                case = ("close", kind, key, v)
                r.case(case)
                n += 1
                with r.guard("lineage", case):
                    h = lineage_hash(f, kind, g)
                    if h in seen:
                        r.fail(f"changes-with-what-affects-the-result/{kind}", case, same_as=seen[h], hash=h)
                    seen[h] = v
    r.part("close-values", configurations=n)


FILES_OF = {
    "plugin": ["map"], "sigma": ["med", "low", "up"], "method": ["map"], "sigmamethod": ["med", "low", "up"], "sim": ["map", "med", "low", "up"],
    "fixed": ["fix"], "likelihood": ["map", "up", "data", "fix"], "lit": ["map", "med"], "context": ["map", "low", "data", "fix"],
}


def check_named(r, f):
    """Files named by a full path, or by one below a directory, next to others with the same last part."""
    for kind, names in FILES_OF.items():
        for where in ("sub", os.path.join(f.elsewhere, "sub")):
            seen = {}
            base = {"where": where, "second": kind in ("likelihood", "context")}
            for g in [{}] + [{n: i} for n in names for i in (1, 2)]:
                case = (kind, "named", where == "sub", g)
                r.case(case)
                with r.guard("lineage", case):
                    h = lineage_hash(f, kind, {**base, **g})
                    r.expect(h not in seen, f"changes-with-what-affects-the-result/{kind}", case, same_as=seen.get(h))
                    seen[h] = g
                    again = lineage_hash(f, kind, {**base, **g, "dir": 1})
                    r.expect(h == again, "unchanged-by-directory", case, got=again, want=h)


# ---------------------------------------------------------------------------------------- must not change
def check_same(r, f):
    """Unrelated options, entries of other likelihoods, the directory, and asking late or twice."""
    for kind in MUST:
        for base in ({}, {"a": 2.0, "map": 1}):
            if kind == "context":
                base = {**base, "second": True, "third": True}
            case = (kind, "unchanged", base)
            with r.guard("lineage", case):
                h0 = lineage_hash(f, kind, base)
                neutral = {
                    "again": {}, "unrelated-option": {"other": 3.0}, "unrelated-option-per-likelihood": {"other": {"X": 1}}, "directory": {"dir": 1},
                }
                if kind in ("plugin", "sim", "likelihood", "lit"):
                    mine = base.get("a", 1.0)
                    for other in (1.0, 5.0):
                        neutral[f"entry-of-another-likelihood-{other}"] = {"a": {"L": mine, "M": other}}
                        neutral[f"entry-of-another-likelihood-{other}-first"] = {"a": {"M": other, "L": mine}}
                if kind in ("plugin", "method"):
                    neutral["map-it-does-not-use"] = {"up": 1, "data": 1}
                if kind in ("sigma", "sigmamethod"):
                    neutral["map-it-does-not-use"] = {"map": 1, "a": 7.0}
                if kind == "fixed":
                    neutral["what-it-does-not-use"] = {"map": 1, "a": 7.0, "data": 1, "up": 1}
                for what, g in neutral.items():
                    g = {**base, **g}
                    c = (kind, what, base)
                    r.case(c)
                    h = lineage_hash(f, kind, g)
                    r.expect(h == h0, "unchanged-by-" + what.split("-1.0")[0].split("-5.0")[0], c, got=h, want=h0)
                # full paths only when asked for
                a = lineage_hash(f, kind, {**base, "full": True})
                b = lineage_hash(f, kind, {**base, "full": True, "dir": 1})
                again = lineage_hash(f, kind, {**base, "full": True})
                r.case((kind, "full-path", base))
                r.expect(a != b, "full-paths-when-asked-for", case)
                r.expect(a == again, "full-paths-reproducible", case)
    # a later change of the options or of the caches does not change what was built
    for kind in MUST:
        base = {"second": True, "third": True} if kind == "context" else {}
        g = {**BASE, **base}
        case = (kind, "asked-late")
        r.case(case)
        with r.guard("lineage", case):
            prepare(f, g)
            obj = build(kind, g)
            h0 = obj.lineage_hash
            l0 = json.dumps(obj.lineage, **utils.JSON_OPTIONS)
            set_global_config({"c13_a": 9.0, "c13_b": 9.0, "c13_set": SETS[1], "c13_sig": ["up.json", "low.json", "med.json", "z_par"], "c13_unrelated": 1})
            r.expect(obj.lineage_hash == h0, "unchanged-by-options-set-later", case, got=obj.lineage_hash, want=h0)
            r.expect(json.dumps(obj.lineage, **utils.JSON_OPTIONS) == l0, "lineage-unchanged-by-options-set-later", case)


# ------------------------------------------------------------------------------------ objects that are changed
ALIVE = {
    "names": dict(data_names=("ca", "cb")), "option": dict(a=2.0), "map": dict(map=1), "rate": dict(rate="nr_rate"), "norm": dict(norm="on_sim"), "source": dict(src="C13Src2"),
    "force": dict(force=True), "bins": dict(edges=1), "eps": dict(eps=True), "file": dict(fix=1),
}
ALIVE_OF = {"sim": [k for k in ALIVE if k != "file"], "fixed": ["names", "rate", "norm", "bins", "eps", "file"]}


def alter(f, kind, c, g):
    """Bring a component to these ingredients and deduce it again."""
    prepare(f, g, clear=False)
    c.rate_name, c.norm_type, c.add_eps_to_hist = g["rate"], g["norm"], g["eps"]
    c.set_binning(bins=bins_of(g), bins_type=g["bins_type"])
    if kind == "sim":
        toys.clear_functions()
        c.register(getattr(apt.plugins, g["src"]))
        c.deduce(data_names=list(g["data_names"]), func_name="f_" + g["name"], force_no_eff=g["force"])
    else:
        c.deduce(data_names=list(g["data_names"]))
    c.compile()


def check_alive(r, f):
    """Components, likelihoods and contexts that go on being changed after their hash was asked for."""
    n = 0
    for kind, ops in ALIVE_OF.items():
        fresh = {}
        for h in [(x,) for x in ops] + list(itertools.permutations(ops, 2)):
            for reads in (False, True):
                case = ("alive", kind, h, reads)
                r.case(case)
                n += 1
                with r.guard("lineage", case):
                    g = dict(BASE)
                    for op in h:
                        g.update(ALIVE[op])
                    key = tuple(sorted(h))
                    if key not in fresh:
                        fresh[key] = lineage_hash(f, kind, g)
                    g = dict(BASE)
                    prepare(f, g)
                    c = build(kind, g)
                    seen = [c.lineage_hash] if reads else []
                    for op in h:
                        g.update(ALIVE[op])
                        alter(f, kind, c, g)
                        if reads:
                            seen.append(c.lineage_hash)
                    got = c.lineage_hash
                    r.expect(got == fresh[key], "lineage-of-the-object-as-it-is", case, got=got, want=fresh[key])
                    r.expect(len(set(seen)) == len(seen), f"changes-with-what-affects-the-result/{kind}", case, seen=seen)
    # likelihoods that get a further component, contexts that get a further likelihood or component
    g = dict(BASE)
    for kind in ("likelihood", "context"):
        ends = set()
        for reads in (False, True):
            case = ("alive", kind, reads)
            r.case(case)
            with r.guard("lineage", case):
                prepare(f, g)
                toys.fixed_cls("C13Fixed", g["norm"], g["eps"])
                obj = build(kind, g)
                llh = obj if kind == "likelihood" else obj["L"]
                seen = [obj.lineage_hash] if reads else []
                if kind == "likelihood":
                    llh.register_component(apt.components.C13Fixed, "fx", "fix.csv")
                else:
                    obj.register_component("L", apt.components.C13Fixed, "fx", "fix.csv")
                    seen += [obj.lineage_hash] if reads else []
                    obj.register_likelihood("T", llh_config("likelihood", {**g, "data_names": ("cb",)}))
                    seen += [obj.lineage_hash] if reads else []
                    obj.register_component("T", apt.components.C13Comp, "nr")
                end = obj.lineage_hash
                seen.append(end)
                ends.add(end)
                r.expect(len(set(seen)) == len(seen), f"changes-with-what-affects-the-result/{kind}", case, seen=seen)
                r.expect(len(ends) == 1, "asking-does-not-change-it", case, got=sorted(ends))
                n += 1
    r.part("objects-changed-later", histories=n)


def check_order(r, f):
    """Objects built together, in every order, have the hashes they have alone."""
    names = ["A", "B", "C"]
    per = {"c13_a": {"A": 1.0, "B": 2.0, "C": 1.0}, "c13_b": {"C": 5.0, "A": 4.0, "B": 4.0}}
    g = lambda n: {**BASE, "llh": n, "edges": names.index(n) % 2, "name": "er" if n != "B" else "nr", "second": n == "C"}

    def start():
        prepare(f, BASE)
        set_global_config(copy.deepcopy(per))

    def unit(n, kind):
        return build(kind, g(n))

    for kind in ("plugin", "sim", "fixed", "likelihood", "lit"):
        alone = {}
        with r.guard("order", (kind, "alone")):
            for n in names:
                start()
                alone[n] = unit(n, kind).lineage_hash
            # plugins carry the name of the likelihood they were built for only through their options
            for order in itertools.permutations(names):
                for late in (False, True):
                    case = (kind, "order", order, late)
                    r.case(case)
                    start()
                    objs, got = {}, {}
                    for n in order:
                        objs[n] = unit(n, kind)
                        if not late:
                            got[n] = objs[n].lineage_hash
                    for n in reversed(order):
                        if late:
                            got[n] = objs[n].lineage_hash
                    r.expect(got == alone, "independent-of-the-order-of-building", case, got=got, want=alone)
    # components registered to several likelihoods in turn
    toys.fixed_cls("C13Fixed")
    seqs = [[("A", "sim"), ("A", "fx"), ("B", "sim"), ("B", "fx")]]
    ref = {}
    for order in itertools.permutations(seqs[0]):
        # the order within one likelihood is part of what it is
        if order.index(("A", "sim")) > order.index(("A", "fx")) or order.index(("B", "sim")) > order.index(("B", "fx")):
            continue
        case = ("interleaved", order)
        r.case(case)
        with r.guard("order", case):
            start()
            toys.component_cls("C13Comp", [apt.plugins.C13Src, apt.plugins.C13Eff, apt.plugins.C13Sig])
            llhs = {n: apt.Likelihood(name=n, **llh_config("likelihood", g(n))) for n in "AB"}
            for n, what in order:
                if what == "sim":
                    llhs[n].register_component(apt.components.C13Comp, "er")
                else:
                    llhs[n].register_component(apt.components.C13Fixed, "fx", "fix.csv")
            for n in "AB":
                h = llhs[n].lineage_hash
                r.expect(ref.setdefault(n, h) == h, "independent-of-the-order-of-registration", case, got=h, want=ref[n])
    # the lineage of one likelihood is not changed by its neighbours in a context
    for third, second in itertools.product((False, True), repeat=2):
        case = ("neighbours", third, second)
        r.case(case)
        with r.guard("order", case):
            prepare(f, BASE)
            ctx = build("context", {**BASE, "second": second, "third": third})
            h = ctx["L"].lineage_hash
            hc = ctx["L"]["er"].lineage_hash
            r.expect(ref.setdefault(("L", second), h) == h, "independent-of-other-likelihoods", case, got=h)
            r.expect(ref.setdefault("er", hc) == hc, "independent-of-other-components", case, got=hc)


def check_dump(r, f):
    path = os.path.join(r.scratch, "lineage.json")
    for kind in MUST:
        for g in ({}, {"set": 1, "data_names": ("ca", "cb"), "second": True, "third": True, "scaler": "t_par"}):
            g = {**BASE, **g}
            case = ("dump", kind, g["set"])
            r.case(case)
            with r.guard("dump", case):
                prepare(f, g)
                obj = build(kind, g)
                utils.dump_lineage(path, obj)
                with open(path) as fp:
                    got = json.load(fp)
                want = json.loads(json.dumps(obj.lineage, **utils.JSON_OPTIONS))
                r.expect(got == want and set(got) == set(obj.lineage), "dumped-lineage", case)
                h = obj.lineage_hash
                r.expect(isinstance(h, str) and len(h) > 0, "hash-is-a-name", case, got=h)
    # the built-in packages as well
    prepare(f, BASE)


def hashes(root):
    """Hashes of one object per kind."""
    f = Files(root)
    make_plugins()
    out = {}
    warnings.simplefilter("ignore")
    with core.quiet():
        for kind in MUST:
            for i, g in enumerate(({}, {"set": 1, "a": 2.0, "second": True, "third": True, "data_names": ("ca", "cb"), "scaler": "t_par"})):
                out[f"{kind}{i}"] = lineage_hash(f, kind, g)
    return out


def check_processes(r, f):
    """The same in another process, whatever the order of sets there."""
    want = hashes(os.path.join(r.scratch, "here"))
    for seed in ("0", "1", "2", "77"):
        case = ("process", seed)
        r.case(case)
        env = {**os.environ, "PYTHONHASHSEED": seed}
        code = f"import sys, json; from mc.checks import c13; print('HASHES ' + json.dumps(c13.hashes({os.path.join(r.scratch, 'p' + seed)!r})))"
        p = subprocess.run([sys.executable, "-W", "ignore", "-c", code], env=env, capture_output=True, text=True, timeout=300)
        got = next((json.loads(x[7:]) for x in p.stdout.splitlines() if x.startswith("HASHES ")), None)
        if not r.expect(got is not None, "lineage-in-another-process/raises", case, stderr=p.stderr[-1500:]):
            return
        r.expect(got == want, "same-in-another-process", case, differ=[k for k in want if got.get(k) != want[k]])


def run(r):
    r.rule = "one case per entity x set of changed ingredients; hashes of all of them have to be pairwise distinct, and equal under neutral changes"
    r.assumptions = ["the source code of plugins is not an ingredient", "lineage is asked before the function cache is cleared"]
    warnings.simplefilter("ignore")
    f = Files(r.scratch)
    make_plugins()
    check_must_change(r, f)
    check_close(r, f)
    check_named(r, f)
    check_same(r, f)
    check_alive(r, f)
    check_order(r, f)
    check_dump(r, f)
    check_processes(r, f)
    r.transitions += r.evaluations
