"""Common machinery of the checks.

A check is a module with

    PID      property id
    cases(tier)            -> iterable of JSON-able dicts (the enumerated space,
                              split into independently runnable slices)
    run_case(t, case)      -> explores that slice on the REAL code, reporting to
                              the recorder ``t``

``main`` runs every slice (in worker processes), merges what was covered, and
decides the exit code.  Nothing is sampled: a slice is either completely
explored or reported as a violation (crash / non termination of real code).
"""
import argparse
import contextlib
import hashlib
import io
import itertools
import json
import os
import signal
import sys
import time
import traceback
from concurrent.futures import ProcessPoolExecutor
from concurrent.futures.process import BrokenProcessPool
import multiprocessing as mp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)

MAX_PROBLEMS_PER_CASE = 4


def digest(obj) -> int:
    """Canonical 64-bit fingerprint of a state (tensors/arrays by value)."""
    h = hashlib.blake2b(digest_size=8)

    def feed(o):
        tn = type(o).__name__
        if hasattr(o, "detach") and hasattr(o, "cpu"):
            o = o.detach().cpu().contiguous()
            h.update(("T%s%s" % (tuple(o.shape), o.dtype)).encode())
            h.update(o.numpy().tobytes())
        elif tn == "ndarray":
            h.update(("A%s%s" % (o.shape, o.dtype)).encode())
            h.update(o.tobytes())
        elif isinstance(o, (list, tuple)):
            h.update(b"(")
            for x in o:
                feed(x)
            h.update(b")")
        elif isinstance(o, dict):
            h.update(b"{")
            for k in sorted(o, key=repr):
                feed(k)
                feed(o[k])
            h.update(b"}")
        elif isinstance(o, (set, frozenset)):
            h.update(b"<")
            for k in sorted(o, key=repr):
                feed(k)
            h.update(b">")
        else:
            h.update(tn.encode() + repr(o).encode())
            h.update(b";")

    feed(obj)
    return int.from_bytes(h.digest(), "big")


class CaseTimeout(BaseException):
    pass


class Recorder:
    """What one slice of the exploration did."""

    def __init__(self, case=None, only=None):
        self.case = case
        self.states = set()
        self.transitions = 0
        self.evaluations = 0
        self.traces = 0
        self.problems = []
        self.samples = []
        self.outcomes = set()

    # -- coverage ---------------------------------------------------------
    def state(self, *key):
        d = digest(key)
        new = d not in self.states
        self.states.add(d)
        return new

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def outcome(self, *key):
        self.outcomes.add(digest(key))

    def sample(self, obj):
        if len(self.samples) < 2:
            self.samples.append(_jsonable(obj))

    # -- oracle -----------------------------------------------------------
    def check(self, cond, msg, key=None, **info):
        """Record an oracle evaluation; a false ``cond`` is a violation."""
        self.evaluations += 1
        if not cond:
            self.fail(msg, key=key, **info)
        return bool(cond)

    def fail(self, msg, key=None, **info):
        self.problems.append(
            {"msg": str(msg), "key": key, "info": _jsonable(info)}
        )

    def attempt(self, msg, fn, *a, key=None, info=None, **kw):
        """Run real code that must not raise. Returns (ok, value)."""
        self.transitions += 1
        try:
            return True, fn(*a, **kw)
        except CaseTimeout:
            raise
        except Exception as e:  # noqa: BLE001 - a crash of the code under test
            self.evaluations += 1
            self.fail(
                f"{msg}: raised {type(e).__name__}: {str(e)[:300]}",
                key=key,
                tb=traceback.format_exc()[-1500:],
                **(info or {}),
            )
            return False, None

    def must_raise(self, msg, exc, fn, *a, key=None, info=None, **kw):
        self.transitions += 1
        self.evaluations += 1
        try:
            fn(*a, **kw)
        except CaseTimeout:
            raise
        except exc:
            return True
        except Exception as e:  # noqa: BLE001
            self.fail(
                f"{msg}: raised {type(e).__name__} ({str(e)[:200]}) instead of {exc}",
                key=key, **(info or {}))
            return False
        self.fail(f"{msg}: accepted silently", key=key, **(info or {}))
        return False


def _jsonable(o, depth=0):
    if depth > 6:
        return repr(o)[:200]
    if isinstance(o, (str, int, float, bool)) or o is None:
        return o
    if isinstance(o, dict):
        return {str(k): _jsonable(v, depth + 1) for k, v in list(o.items())[:60]}
    if isinstance(o, (list, tuple, set, frozenset)):
        return [_jsonable(v, depth + 1) for v in list(o)[:60]]
    if hasattr(o, "tolist"):
        try:
            v = o.tolist()
            s = json.dumps(v)
            return v if len(s) < 2000 else repr(o)[:400]
        except Exception:
            return repr(o)[:400]
    return repr(o)[:400]


_MOD = None


def _alarm(signum, frame):
    raise CaseTimeout()


def _run_one(args):
    idx, case, limit = args
    t = Recorder(case)
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    buf = io.StringIO()
    try:
        with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf):
            _MOD.run_case(t, case)
    except CaseTimeout:
        t.fail(f"exploration of this slice did not terminate within {limit}s "
               "(non-terminating call of the code under test)")
    except Exception as e:  # noqa: BLE001
        t.fail(f"unexpected {type(e).__name__}: {str(e)[:400]}",
               tb=traceback.format_exc()[-2500:])
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    return dict(idx=idx, states=t.states, transitions=t.transitions,
                evaluations=t.evaluations, traces=t.traces, nprob=len(t.problems),
                problems=t.problems[:200], samples=t.samples, outcomes=t.outcomes)


def load_known(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [e for e in json.load(f)["findings"]
                if e["property"] == pid and e.get("status") == "known"]


def main(mod):
    global _MOD
    _MOD = mod
    pid = mod.PID
    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"),
                    choices=["quick", "thorough"])
    ap.add_argument("--replay", default=None, help="replay file of a violation")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "8")))
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()

    replay_case = None
    if a.replay:
        with open(a.replay) as f:
            rp = json.load(f)
        replay_case = rp["case"]
        a.tier = rp.get("tier", a.tier)

    known = load_known(pid)
    known_hit = {}
    limit = getattr(mod, "CASE_LIMIT", 300)
    if a.tier == "thorough":
        limit *= 20

    setup_problem = None
    allcases = []
    try:
        if hasattr(mod, "setup"):
            mod.setup(a.tier)
        allcases = list(mod.cases(a.tier))
    except Exception as e:  # the library itself cannot be brought up
        setup_problem = {"msg": f"setting up the exploration raised {type(e).__name__}: {e}",
                         "key": None, "info": {"tb": traceback.format_exc()[-2500:]}}
    if replay_case is not None:
        allcases = [c for c in allcases if _jsonable(c) == replay_case] or [replay_case]

    states, outcomes = set(), set()
    transitions = evaluations = traces = 0
    samples, violations = [], []
    done = 0
    if setup_problem:
        violations.append((None, setup_problem))

    todo = [(i, c, limit) for i, c in enumerate(allcases)]

    def absorb(r):
        nonlocal transitions, evaluations, traces, done
        done += 1
        states.update(r["states"])
        outcomes.update(r["outcomes"])
        transitions += r["transitions"]
        evaluations += r["evaluations"]
        traces += r["traces"]
        if len(samples) < 4:
            for s in r["samples"][:1]:
                samples.append({"slice": _jsonable(allcases[r["idx"]]), "case": s})
        for p in r["problems"]:
            hit = None
            for e in known:
                if p["key"] is not None and p["key"] in e["keys"]:
                    hit = e
            if hit is not None:
                known_hit.setdefault(hit["id"], []).append(p["key"])
            else:
                violations.append((r["idx"], p))

    jobs = min(a.jobs, getattr(mod, "MAX_JOBS", 8), max(1, len(todo)))
    if jobs <= 1:
        for x in todo:
            absorb(_run_one(x))
            if violations and os.environ.get("VERIF_FAILFAST"):
                break
    elif todo:
        ctx = mp.get_context("fork")
        with ProcessPoolExecutor(jobs, mp_context=ctx) as ex:
            futs = [(x, ex.submit(_run_one, x)) for x in todo]
            broken = []
            for x, fu in futs:
                try:
                    absorb(fu.result())
                except BrokenProcessPool:
                    broken.append(x)
        # a worker died (segfault/abort in native code): find the slice
        for grp in chunks(broken, jobs):
            pools = [(x, ProcessPoolExecutor(1, mp_context=ctx)) for x in grp]
            futs = [(x, ex1, ex1.submit(_run_one, x)) for x, ex1 in pools]
            for x, ex1, fu in futs:
                try:
                    absorb(fu.result())
                except BrokenProcessPool:
                    violations.append((x[0], {
                        "msg": "the process running this slice died (native crash)",
                        "key": None, "info": {}}))
                ex1.shutdown()

    wall = time.time() - t0
    evdir = os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "evidence")
    os.makedirs(os.path.join(evdir, "replays"), exist_ok=True)
    cov = {
        "states": len(states),
        "transitions": transitions,
        "traces_validated_against_impl": traces,
        "evaluations": evaluations,
        "slices": done,
        "distinct_outcomes": len(outcomes),
        "bounds": mod.bounds(a.tier) if hasattr(mod, "bounds") else "",
        "samples": samples or [_jsonable(c) for c in allcases[:2]],
        "exhaustive": setup_problem is None and replay_case is None and done == len(allcases),
    }
    ev = {
        "property": pid, "tier": a.tier, "seed": seed,
        "level": getattr(mod, "LEVEL", "model_checking"),
        "coverage": cov,
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": len(violations),
        "known_findings": {k: len(v) for k, v in known_hit.items()},
    }
    if replay_case is None:
        with open(os.path.join(evdir, f"{pid}.json"), "w") as f:
            json.dump(ev, f, indent=1)

    for e in known:
        if e["id"] in known_hit:
            print(f"KNOWN-FINDING: property={pid} {e['what']}")
    print(f"[{pid}] tier={a.tier} slices={done}/{len(allcases)} states={len(states)} "
          f"transitions={transitions} evaluations={evaluations} traces={traces} "
          f"outcomes={len(outcomes)} wall={wall:.1f}s violations={len(violations)}")
    if violations:
        for n, (idx, p) in enumerate(violations[:20]):
            path = os.path.join(evdir, "replays", f"{pid}-{n}.json")
            with open(path, "w") as f:
                json.dump({"property": pid, "tier": a.tier,
                           "case": _jsonable(allcases[idx]) if idx is not None else None,
                           "problem": p,
                           "replay_cmd": f"cd {VERIF} && ./run.sh {pid} --replay {path}"},
                          f, indent=1)
            print(f"VIOLATION property={pid} replay={path}")
            print(f"   {p['msg'][:600]}")
            if a.v and p["info"]:
                print("   ", json.dumps(p["info"])[:3000])
        if len(violations) > 20:
            print(f"   ... {len(violations)-20} more")
        sys.stdout.flush()
        sys.exit(1)
    sys.stdout.flush()
    sys.exit(0)


# ---------------------------------------------------------------------------
# explicit-state search over a real object by replaying operation histories
# ---------------------------------------------------------------------------

def explore(t, fresh, ops, apply, canon, invariant, depth, ignore_dead=False):
    """Breadth-first search over every operation sequence up to ``depth``.

    fresh()              -> (impl, model) in the initial state
    ops(model)           -> enabled operations (small, finite, ordered)
    apply(impl, model, op) -> performs op on both, comparing (via t)
    canon(impl, model)   -> canonical key; equal keys must have equal futures
    invariant(impl, model, hist)
    """
    frontier = [()]
    impl, model = fresh()
    invariant(impl, model, ())
    seen = {digest(canon(impl, model))}
    t.state(canon(impl, model))
    for _ in range(depth):
        nxt = []
        for hist in frontier:
            impl, model = fresh()
            for op in hist:
                apply(impl, model, op, False)
            menu = list(ops(model))
            for i, op in enumerate(menu):
                if i > 0:
                    impl, model = fresh()
                    for o in hist:
                        apply(impl, model, o, False)
                apply(impl, model, op, True)
                t.step()
                invariant(impl, model, hist + (op,))
                k = canon(impl, model)
                t.state(k)
                d = digest(k)
                if d not in seen:
                    seen.add(d)
                    nxt.append(hist + (op,))
                t.trace()
                if len(t.problems) > 20:
                    return
        frontier = nxt
        if not frontier:
            break


def product(**domains):
    """All combinations of named finite domains, simplest first."""
    names = list(domains)
    for vals in itertools.product(*domains.values()):
        yield dict(zip(names, vals))


def chunks(seq, n):
    seq = list(seq)
    for i in range(0, len(seq), n):
        yield seq[i:i + n]
