"""Shared machinery of the checks: bookkeeping of a run, violations, known findings, evidence,
and the two exploration engines (breadth-first over histories, exhaustive products)."""

import collections
import contextlib
import hashlib
import io
import itertools
import json
import os
import shutil
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "known_findings.json")


class Stop(Exception):
    """Enough violations were found."""


class Done(Exception):
    """The processes started for this check have finished."""


def jsonable(x, depth=0):
    if depth > 8:
        return repr(x)[:200]
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in x.items()}
    if isinstance(x, (list, tuple, set, frozenset)):
        seq = sorted(x, key=repr) if isinstance(x, (set, frozenset)) else x
        return [jsonable(v, depth + 1) for v in seq]
    if isinstance(x, (str, int, bool)) or x is None:
        return x
    if isinstance(x, float):
        return x
    if hasattr(x, "tolist"):
        return jsonable(x.tolist(), depth + 1)
    return repr(x)[:400]


class Run:
    """One execution of one check."""

    max_violations = 5

    def __init__(self, pid, tier, seed, level):
        self.pid, self.tier, self.seed, self.level = pid, tier, seed, level
        self.t0 = time.time()
        self.max_violations = int(os.environ.get("MC_MAX_VIOLATIONS", self.max_violations))
        self.violations = []
        self.sigs = set()
        self.known_seen = {}
        self.evaluations = 0
        self.nontrivial = set()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.parts = collections.OrderedDict()
        self.rule = ""
        self.assumptions = []
        self.exhaustive = True
        self.replay_sig = None
        self._scratch = None
        self.shard = (0, 1)
        self._turn = 0
        with open(KNOWN) as f:
            entries = json.load(f)["findings"]
        self.known = {e["key"]: e for e in entries if e["property"] == pid}

    # ---------------------------------------------------------------- division over processes
    def turn(self):
        """Whether the next part of the exploration is this process' own."""
        self._turn += 1
        return (self._turn - 1) % self.shard[1] == self.shard[0]

    def mine(self, items):
        """The items that are this process' own; all processes together have each once."""
        return [x for x in items if self.turn()]

    def state(self):
        """What a process found, to be merged by the one that started it."""
        return {
            "violations": self.violations,
            "known_seen": self.known_seen,
            "evaluations": self.evaluations,
            "nontrivial": [x.hex() for x in self.nontrivial],
            "states": self.states,
            "transitions": self.transitions,
            "traces": self.traces,
            "samples": self.samples,
            "parts": self.parts,
            "rule": self.rule,
            "assumptions": self.assumptions,
            "exhaustive": self.exhaustive,
        }

    def merge(self, d):
        for v in d["violations"]:
            if v["clause"] not in self.sigs and len(self.violations) < self.max_violations:
                self.sigs.add(v["clause"])
                self.violations.append(v)
        self.known_seen.update(d["known_seen"])
        self.nontrivial |= {bytes.fromhex(x) for x in d["nontrivial"]}
        for k in ("evaluations", "states", "transitions", "traces"):
            setattr(self, k, getattr(self, k) + d[k])
        self.samples = (self.samples + d["samples"])[:4]
        for name, kw in d["parts"].items():
            mine = self.parts.setdefault(name, {})
            for k, v in kw.items():
                if k not in mine:
                    mine[k] = v
                elif isinstance(v, list):
                    mine[k] = [x for x in mine[k] if x in v]
                elif isinstance(v, (int, float)) and not isinstance(v, bool) and k not in self.not_additive:
                    mine[k] += v
        self.rule, self.assumptions = d["rule"], d["assumptions"]
        self.exhaustive = self.exhaustive and d["exhaustive"]

    not_additive = ("depth", "alphabet", "keys", "classes", "maps_given", "plugins")

    # ---------------------------------------------------------------- bookkeeping
    @property
    def thorough(self):
        return self.tier == "thorough"

    @property
    def scratch(self):
        if self._scratch is None:
            self._scratch = tempfile.mkdtemp(prefix=f"mc_{self.pid}_")
        return self._scratch

    def cleanup(self):
        if self._scratch and os.path.isdir(self._scratch):
            shutil.rmtree(self._scratch, ignore_errors=True)

    def part(self, name, **kw):
        """Record the size of a finished sub-exploration."""
        self.parts[name] = jsonable(kw)

    def case(self, key, nontrivial=True, sample=None):
        """Count one executed case."""
        self.evaluations += 1
        if nontrivial:
            self.nontrivial.add(hashlib.md5(repr(key).encode()).digest()[:8])
        if len(self.samples) < 4 and (sample is not None or self.evaluations in (1, 7, 50)):
            self.samples.append(jsonable(sample if sample is not None else key))

    def expect(self, cond, sig, case=None, **detail):
        """Check one condition.

        sig names the clause of the property, case the concrete input/history.
        A known finding is matched by sig + ':' + case key exactly as listed.

        """
        if cond:
            return True
        self.fail(sig, case, **detail)
        return False

    def fail(self, sig, case=None, **detail):
        key = f"{sig}"
        if key in self.known:
            self.known_seen[key] = self.known[key]["what"]
            return
        if self.replay_sig is not None and sig != self.replay_sig:
            return
        if sig in self.sigs:
            return  # one (the first, simplest) counterexample per clause
        self.sigs.add(sig)
        self.violations.append(
            {
                "property": self.pid,
                "clause": sig,
                "case": jsonable(case),
                "detail": {k: jsonable(v) for k, v in detail.items()},
            }
        )
        if len(self.violations) >= self.max_violations:
            raise Stop

    @contextlib.contextmanager
    def guard(self, sig, case=None):
        """The code under test is not expected to raise in this block."""
        try:
            yield
        except Stop:
            raise
        except Exception as e:
            self.fail(
                sig + "/raises",
                case,
                exception=f"{type(e).__name__}: {e}"[:600],
                traceback=traceback.format_exc()[-1500:],
            )

    def raises(self, exc, sig, fn, case=None):
        """fn has to raise exc (a class or tuple)."""
        try:
            fn()
        except exc:
            return True
        except Exception as e:
            self.fail(sig + "/wrong-exception", case, got=f"{type(e).__name__}: {e}"[:300])
            return False
        self.fail(sig + "/no-exception", case)
        return False

    # ---------------------------------------------------------------- exploration
    def bfs(self, name, init, ops, run_history, canon, depth, max_states=None):
        """Explicit-state search. States are identified by canon(model state); every transition is
        executed on the real code by replaying the whole history from a fresh object.

        init: initial model state
        ops(model): list of (label, next_model) that are enabled
        run_history(history, models): executes history on the real code and checks it; models[i]
            is the reference state after i operations.

        """
        frontier = collections.deque([((), (init,))])
        seen = {canon(init)}
        n_trans = 0
        dmax = 0
        capped = False
        while frontier:
            hist, models = frontier.popleft()
            if len(hist) >= depth:
                continue
            for label, nxt in ops(models[-1]):
                h = hist + (label,)
                ms = models + (nxt,)
                n_trans += 1
                run_history(h, ms)
                self.traces += 1
                dmax = max(dmax, len(h))
                k = canon(nxt)
                if k not in seen:
                    if max_states and len(seen) >= max_states:
                        capped = True
                        continue
                    seen.add(k)
                    frontier.append((h, ms))
        self.states += len(seen)
        self.transitions += n_trans
        if capped:
            self.exhaustive = False
        self.part(name, states=len(seen), transitions=n_trans, depth=dmax, capped=capped)

    def sequences(self, name, alphabet, depth, run_history):
        """All operation sequences up to depth (no merging)."""
        n = 0
        for d in range(1, depth + 1):
            for h in itertools.product(alphabet, repeat=d):
                run_history(h)
                n += 1
        self.traces += n
        self.part(name, sequences=n, depth=depth, alphabet=len(alphabet))
        return n

    # ---------------------------------------------------------------- result
    def coverage(self):
        common = {
            "samples": self.samples or ["(none)"],
            "parts": self.parts,
            "exhaustive": bool(self.exhaustive),
        }
        if self.level == "model_checking":
            return {
                "states": self.states,
                "transitions": self.transitions,
                "traces_validated_against_impl": self.traces,
                "evaluations": self.evaluations,
                "rule": self.rule,
                **common,
            }
        return {
            "evaluations": self.evaluations,
            "distinct_nontrivial": len(self.nontrivial),
            "rule": self.rule,
            **common,
        }

    def write_evidence(self):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{self.pid}.json"), "w") as f:
            json.dump(
                {
                    "property": self.pid,
                    "tier": self.tier,
                    "seed": self.seed,
                    "level": self.level,
                    "coverage": self.coverage(),
                    "assumptions": self.assumptions,
                    "wall_s": round(time.time() - self.t0, 2),
                    "violations": len(self.violations),
                },
                f,
                indent=1,
            )


@contextlib.contextmanager
def quiet():
    """Swallow what the code under test prints."""
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        yield
