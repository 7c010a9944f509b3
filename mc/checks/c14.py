"""C14: a file name resolves by the documented order of places, or raises.

The places are part of the environment. A copy of the package (links to the modules, own resource
folders) together with stand-ins of the auxiliary package and of the remote store lives in the
scratch directory; a worker process imports that copy and is driven through every combination.
"""

import itertools
import json
import os
import subprocess
import sys

WORKER = r'''
import json, os, sys, itertools, warnings, pickle, pandas
warnings.simplefilter("ignore")
root = sys.argv[1]
import appletree as apt
import appletree.utils as u
import appletree.share as share
import ntauxfiles, utilix
assert apt.__file__.startswith(root), apt.__file__
jobs = json.load(open(os.path.join(root, "jobs.json")))
out = []
def put(path, tag):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(tag)
for job in jobs:
    made = []
    try:
        for path, tag in job["files"]:
            if not os.path.exists(path):
                put(path, tag); made.append(path)
        os.chdir(job["cwd"])
        apt.clear_cache()
        if job["url_base"] is not None:
            share._cached_configs["url_base"] = job["url_base"]
        u.NT_AUX_INSTALLED = job["aux_installed"]
        u.SKIP_MONGO_DB = job["skip_remote"]
        ntauxfiles.FILES = dict(job["aux"])
        utilix.FILES = dict(job["remote"])
        utilix.ERROR = job["remote_error"]
        utilix.ASKED.clear()
        res = {}
        try:
            p = apt.get_file_path(job["name"])
            res["path"] = os.path.abspath(str(p))
            res["text"] = open(p).read()
        except BaseException as e:
            res["error"] = type(e).__name__
        res["asked"] = list(utilix.ASKED)
        for kind in job["load"]:
            try:
                if kind == "json":
                    res["json"] = u.load_json(job["name"])
                elif kind == "data":
                    res["data"] = u.load_data(job["name"])["a"].tolist()
                elif kind == "option":
                    share.set_global_config({"opt": job["name"], "per": {"L": job["name"], "M": 3}})
                    res["option"] = os.path.abspath(str(share._cached_configs["opt"]))
                    res["per"] = [os.path.abspath(str(share._cached_configs["per"]["L"])), share._cached_configs["per"]["M"]]
            except BaseException as e:
                res[kind + "_error"] = type(e).__name__
        out.append(res)
    finally:
        os.chdir(root)
        for p in made:
            os.unlink(p)
json.dump(out, open(os.path.join(root, "results.json"), "w"))

def put2(path, v):
    put(path, "a\n%d\n" % v)
    put(path[:-4] + ".json", json.dumps({"a": [v]}))
    with open(path[:-4] + ".pkl", "wb") as f:
        pickle.dump(pandas.DataFrame({"a": [v]}), f)
def drop2(path):
    for ext in (".csv", ".json", ".pkl"):
        os.unlink(path[:-4] + ext)
# histories: the places change between one question and the next
hist = json.load(open(os.path.join(root, "histories.json")))
u.NT_AUX_INSTALLED, u.SKIP_MONGO_DB = True, True
os.chdir(hist["cwd"])
context = apt.Context({"url_base": hist["bases"][0], "likelihoods": {}}, par_config={})
out = []
for ops in hist["histories"]:
    present, version, answers = {}, 0, []
    ntauxfiles.FILES = dict()
    apt.clear_cache()
    share._cached_configs["url_base"] = base = hist["bases"][0]
    for op in ops:
        version += 1
        if op == "other-base":
            base = hist["bases"][1 - hist["bases"].index(base)]
            # through a context, as users do
            context.update_url_base(base)
        elif op == "rewrite":
            for p in present:
                put2(p, version); present[p] = version
        else:
            path = hist["paths"][op]
            if path in present:
                drop2(path); present.pop(path)
                if op == "aux":
                    ntauxfiles.FILES = dict()
            else:
                put2(path, version); present[path] = version
                if op == "aux":
                    ntauxfiles.FILES = {hist["name"][:-4] + x: path[:-4] + x for x in (".csv", ".json", ".pkl")}
        res = {"base": base, "present": dict(present)}
        try:
            res["path"] = os.path.abspath(str(u.get_file_path(hist["name"])))
            res["data"] = u.load_data(hist["name"])["a"].tolist()
            for ext in ("json", "pkl"):
                got = (u.load_json if ext == "json" else u.load_data)(hist["name"][:-3] + ext)
                res[ext] = [int(x) for x in got["a"]]
                # what is done with it is the user's business
                got["a"][0] = -1
            share.set_global_config({"opt": hist["name"]})
            res["option"] = os.path.abspath(str(share._cached_configs["opt"]))
        except BaseException as e:
            res["error"] = type(e).__name__
        answers.append(res)
    for p in present:
        drop2(p)
    out.append(answers)
os.chdir(root)
json.dump(out, open(os.path.join(root, "answers.json"), "w"))
'''

AUX = '''
FILES = {}
def list_private_files():
    return list(FILES)
def get_abspath(name):
    return FILES[name]
'''
REMOTE = '''
FILES = {}
ERROR = None
ASKED = []
class MongoDownloader:
    def download_single(self, name, *a, **k):
        ASKED.append(name)
        if name in FILES:
            return FILES[name]
        raise {"FileNotFoundError": FileNotFoundError, "ValueError": ValueError, None: FileNotFoundError}[ERROR](name)
class mongo_storage:
    pass
mongo_storage.MongoDownloader = MongoDownloader
'''

PLACES = ["given", "base", "maps", "data", "parameters", "instructs", "aux", "remote"]


def setup(r):
    root = os.path.join(os.path.realpath(r.scratch), "w")
    pkg = os.path.join(root, "appletree")
    src = os.path.join(os.environ["APT_REPO"], "appletree")
    os.makedirs(pkg)
    for name in sorted(os.listdir(src)):
        if name.endswith(".py") or name in ("plugins", "components", "contexts"):
            os.symlink(os.path.join(src, name), os.path.join(pkg, name))
    for d in ("maps", "data", "parameters", "instructs"):
        os.makedirs(os.path.join(pkg, d))
    for d in ("cwd", "base", "aux", "remote"):
        os.makedirs(os.path.join(root, d))
    # built-in plugins name their default files; they only have to exist
    for f, text in (("ntauxfiles.py", AUX), ("utilix.py", REMOTE), ("worker.py", WORKER)):
        with open(os.path.join(root, f), "w") as fh:
            fh.write(text)
    # real resource files under their own name, read only when something asks for them
    for d in ("maps", "data", "parameters", "instructs"):
        for f in os.listdir(os.path.join(src, d)):
            os.symlink(os.path.join(src, d, f), os.path.join(pkg, d, f))
    return root, pkg


def where(root, pkg, place, name):
    if place == "given":
        return os.path.join(root, "cwd", name)
    if place in ("base", "aux", "remote"):
        return os.path.join(root, place, name)
    return os.path.join(pkg, place, name)


def make_jobs(r, root, pkg):
    jobs = []

    def job(present, name, url="base", aux=True, skip=False, err=None, content="plain", load=(), absolute=False):
        files = []
        for p in present:
            text = {"plain": p, "json": json.dumps({"place": p}), "csv": f"a\n{PLACES.index(p)}\n"}[content]
            files.append([where(root, pkg, p, name), text])
        ask = where(root, pkg, "given", name) if absolute else name
        base = {"base": os.path.join(root, "base"), "slash": os.path.join(root, "base") + "/", "relative": "base", "relative-existing": os.path.join("..", "base"), "none": None, "absent": os.path.join(root, "nothere")}[url]
        jobs.append(
            dict(
                files=files,
                cwd=os.path.join(root, "cwd"),
                url_base=base,
                aux_installed=aux,
                skip_remote=skip,
                aux=[[name, where(root, pkg, "aux", name)]] if "aux" in present else [],
                remote=[[name, where(root, pkg, "remote", name)]] if "remote" in present else [],
                remote_error=err,
                name=ask,
                load=list(load),
                present=list(present),
                url=url,
                content=content,
                absolute=absolute,
                short=name,
            )
        )

    def powerset(places):
        for k in range(len(places) + 1):
            yield from itertools.combinations(places, k)

    for present in powerset(PLACES):
        for url in ("base", "none", "relative", "relative-existing", "absent", "slash"):
            for aux, skip in ((True, False), (True, True), (False, False), (False, True)):
                if not r.thorough and url in ("absent", "slash", "relative-existing") and (aux, skip) != (True, False):
                    continue
                job(present, "mc_file.txt", url, aux, skip)
    for err in ("ValueError", "FileNotFoundError"):
        for present in powerset(["base", "maps", "aux", "remote"]):
            job(present, "mc_file.txt", "base", True, False, err)
    # absolute names: only the given path (and stores that know that very name) can match
    for present in powerset(["given", "base", "maps", "aux"]):
        job(present, "mc_abs.txt", "base", False, True, absolute=True)
    for present in powerset(PLACES):
        job(present, "mc_file.json", "base", True, False, content="json", load=("json", "option", "data"))
        if r.thorough or len(present) < 4:
            job(present, "mc_file.csv", "base", True, False, content="csv", load=("data", "option"))
    for ext in ("txt", "json", "h5", "CSV", "csv.gz", "", "tsv", "npz"):
        job(["base"], "mc_file" + ("." + ext if ext else ""), "base", content="csv", load=("data",))
    job(["maps"], "sub/mc_file.txt", "base")
    job(["base"], "sub/mc_file.txt", "base")
    return jobs


def expected(root, pkg, j):
    for p in PLACES:
        if p not in j["present"]:
            continue
        if j["absolute"] and p != "given":
            continue
        if p == "base" and j["url"] not in ("base", "slash"):
            continue
        if p == "aux" and not j["aux_installed"]:
            continue
        if p == "remote" and j["skip_remote"]:
            continue
        return p
    return None


def make_histories(r, root, pkg):
    name = "mc_hist.csv"
    bases = [os.path.join(root, "base"), os.path.join(root, "base2")]
    os.makedirs(bases[1])
    paths = {p: where(root, pkg, p, name) for p in ("given", "base", "maps", "aux")}
    paths["base2"] = os.path.join(bases[1], name)
    ops = list(paths) + ["other-base", "rewrite"]
    depth = 5 if r.thorough else 4
    hist = [h for d in range(1, depth + 1) for h in itertools.product(ops, repeat=d)]
    # a history ends where another goes on, only the longest are needed
    hist = [h for h in hist if len(h) == depth]
    return dict(name=name, bases=bases, paths=paths, cwd=os.path.join(root, "cwd"), histories=hist, ops=ops, depth=depth)


def judge_histories(r, h, answers):
    r.expect(len(answers) == len(h["histories"]), "all-histories-ran", None)
    n = 0
    for ops, steps in zip(h["histories"], answers):
        for i, res in enumerate(steps):
            case = {"history": list(ops[: i + 1])}
            n += 1
            r.case(json.dumps(case))
            order = [h["paths"]["given"], os.path.join(res["base"], h["name"]), h["paths"]["maps"], h["paths"]["aux"]]
            want = next((p for p in order if p in res["present"]), None)
            if want is None:
                r.expect("error" in res, "nowhere-raises", case, got=res)
                continue
            r.expect(res.get("path") == want, "first-place-wins-now", case, got=res.get("path", res.get("error")), want=want)
            r.expect(res.get("data") == [res["present"][want]], "table-as-it-is-now", case, got=res.get("data"), want=res["present"][want])
            for ext in ("json", "pkl"):
                r.expect(res.get(ext) == [res["present"][want]], f"{ext}-as-it-is-now", case, got=res.get(ext), want=res["present"][want])
            r.expect(res.get("option") == want, "options-through-the-search-now", case, got=res.get("option"), want=want)
    r.states += 2 ** len(h["paths"]) * 2
    r.transitions += n
    r.traces += len(answers)
    r.part("histories", histories=len(answers), depth=h["depth"], alphabet=len(h["ops"]))


def run(r):
    r.rule = "one case per combination of places x settings; path, content, tables, JSON and options are compared; and one per question in a history of changes of the places"
    r.assumptions = ["auxiliary package and remote store are stand-ins with the interface the code uses"]
    root, pkg = setup(r)
    jobs = make_jobs(r, root, pkg)
    with open(os.path.join(root, "jobs.json"), "w") as f:
        json.dump(jobs, f)
    h = make_histories(r, root, pkg)
    with open(os.path.join(root, "histories.json"), "w") as f:
        json.dump(h, f)
    env = dict(os.environ, PYTHONPATH=root)
    p = subprocess.run(
        [sys.executable, "-W", "ignore", os.path.join(root, "worker.py"), root],
        env=env, cwd=root, capture_output=True, text=True, timeout=800,
    )
    if not os.path.exists(os.path.join(root, "answers.json")):
        r.fail("worker-failed", None, err=p.stderr[-1500:], code=p.returncode)
        return
    judge_histories(r, h, json.load(open(os.path.join(root, "answers.json"))))
    results = json.load(open(os.path.join(root, "results.json")))
    r.expect(len(results) == len(jobs), "all-cases-ran", None)
    for j, res in zip(jobs, results):
        case = {k: j[k] for k in ("present", "url", "aux_installed", "skip_remote", "short", "absolute", "remote_error")}
        want = expected(root, pkg, j)
        r.case(json.dumps(case, sort_keys=True), sample=case)
        if want is None:
            r.expect("error" in res, "nowhere-raises", case, got=res)
            for k in j["load"]:
                r.expect(k + "_error" in res, "nowhere-raises", (case, k), got=res)
            continue
        path = os.path.join(pkg, want, j["short"]) if want not in ("given", "base", "aux", "remote") else where(root, pkg, want, j["short"])
        r.expect(
            "path" in res and os.path.realpath(res["path"]) == os.path.realpath(path), "first-place-wins", case,
            got=res.get("path", res.get("error")), want=path,
        )
        if "json" in j["load"]:
            r.expect(res.get("json") == {"place": want}, "json-through-the-search", case, got=res)
            r.expect("data_error" in res, "unsupported-table-raises", case, got=res)
        if j["short"].endswith(".csv"):
            r.expect(res.get("data") == [PLACES.index(want)], "table-through-the-search", case, got=res)
        elif "data" in j["load"]:
            r.expect("data_error" in res, "unsupported-table-raises", case, got=res)
        if "option" in j["load"]:
            ok = os.path.realpath(res.get("option", "")) == os.path.realpath(path)
            ok = ok and os.path.realpath(res.get("per", [""])[0]) == os.path.realpath(path) and res["per"][1] == 3
            r.expect(ok, "options-through-the-search", case, got=res, want=path)
    r.states += len(jobs)
    r.transitions += len(jobs)
    r.traces += len(jobs)
    r.part("environments", cases=len(jobs), places=len(PLACES))
