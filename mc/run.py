"""Entry point: python -m mc.run <property> [tier] | --replay <file>"""

import contextlib
import importlib
import io
import json
import os
import subprocess
import sys
import tempfile
import traceback
import warnings

from mc import core

warnings.simplefilter("ignore")

# checks whose exploration is divided over processes
SHARDS = {"C05": 8, "C09": 8, "C16": 8, "C17": 8, "C21": 8, "C22": 8, "C24": 8, "C31": 8}


def divide(run, argv, n):
    """Run n processes, each with its own part, and merge what they found."""
    with tempfile.TemporaryDirectory(prefix=f"mc_{run.pid}_") as d:
        procs = []
        for i in range(n):
            env = dict(os.environ, MC_SHARD=f"{i}/{n}", MC_SHARD_OUT=os.path.join(d, f"{i}.json"))
            procs.append(subprocess.Popen([sys.executable, "-W", "ignore", "-m", "mc.run", *argv], env=env))
        codes = [p.wait() for p in procs]
        for i, code in enumerate(codes):
            path = os.path.join(d, f"{i}.json")
            if not os.path.exists(path):
                print(f"ERROR property={run.pid} process {i} of {n} ended with {code} and left no result")
                sys.stdout.flush()
                os._exit(2)
            with open(path) as f:
                run.merge(json.load(f))


def main(argv):
    replay = None
    if argv and argv[0] == "--replay":
        replay = json.load(open(argv[1]))
        pid, tier = replay["property"], replay.get("tier", "quick")
    else:
        pid = argv[0]
        tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)

    out = sys.stdout
    sink = io.StringIO()
    show = bool(os.environ.get("MC_DEBUG"))
    run = None
    level = "other"
    try:
        with contextlib.ExitStack() as st:
            if not show:
                st.enter_context(contextlib.redirect_stdout(sink))
                st.enter_context(contextlib.redirect_stderr(sink))
            try:
                manifest = json.load(open(os.path.join(core.VERIF, "MANIFEST.json")))
                level = next(
                    (c["level"] for c in manifest["checks"] if c["property"] == pid), "exploration"
                )
            except FileNotFoundError:
                level = "exploration"
            run = core.Run(pid, tier, seed, level)
            if replay:
                run.replay_sig = replay["clause"]
            shard = os.environ.get("MC_SHARD")
            n = min(SHARDS.get(pid, 1), os.cpu_count() or 1, int(os.environ.get("MC_PROCS", "8")))
            if shard:
                run.shard = tuple(int(x) for x in shard.split("/"))
            try:
                if n > 1 and not shard:
                    st.pop_all().close()
                    divide(run, argv, n)
                    raise core.Done
                module = importlib.import_module(f"mc.checks.{pid.lower()}")
                module.run(run)
            except core.Done:
                pass
            except core.Stop:
                run.exhaustive = False
            except Exception as e:
                run.exhaustive = False
                if run.replay_sig is None or run.replay_sig == "uncaught-exception":
                    with contextlib.suppress(core.Stop):
                        run.fail(
                            "uncaught-exception",
                            None,
                            exception=f"{type(e).__name__}: {e}"[:600],
                            traceback=traceback.format_exc()[-3000:],
                        )
    finally:
        if run is not None:
            run.cleanup()
    if os.environ.get("MC_SHARD"):
        with open(os.environ["MC_SHARD_OUT"], "w") as f:
            json.dump(run.state(), f)
        return 0
    run.write_evidence()

    for key, what in sorted(run.known_seen.items()):
        print(f"KNOWN-FINDING: property={pid} {what}", file=out)
    if not run.violations:
        cov = run.coverage()
        short = {k: v for k, v in cov.items() if isinstance(v, (int, bool))}
        print(f"OK property={pid} tier={tier} {json.dumps(short)}", file=out)
        return 0
    os.makedirs(os.path.join(core.VERIF, "replay"), exist_ok=True)
    for i, v in enumerate(run.violations):
        path = os.path.join(core.VERIF, "replay", f"{pid}-{i}.json")
        v["tier"] = tier
        v["rerun"] = f"./check.sh --replay {path}"
        with open(path, "w") as f:
            json.dump(v, f, indent=1)
        print(f"VIOLATION property={pid} replay={path}", file=out)
        print(f"  clause: {v['clause']}", file=out)
        print(f"  case:   {json.dumps(v['case'])[:400]}", file=out)
        print(f"  detail: {json.dumps(v['detail'])[:700]}", file=out)
    return 1


if __name__ == "__main__":
    code = main(sys.argv[1:])
    sys.stdout.flush()
    os._exit(code)
