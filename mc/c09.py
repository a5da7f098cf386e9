"""C09: memoised functions, BFS over all call histories against a no-cache reference."""
import gc
import itertools
import sys
import torch
from . import core

PID = "C09"
ASSUMPTIONS = ["arguments are not modified in place between calls; arguments that compare equal (1, 1.0, True; list and tuple) are the same argument",
               "single thread"]


def bounds(tier):
    return "every call history of length <= %d over 2 functions x 2 caches x 3 bindings x 9 argument lists (tensors created/released in between); all sequences of %d short-lived tensors" % (
        (3, 60) if tier == "quick" else (4, 400))


def mem():
    from projects.torch_vct.utils import memoize
    return memoize


# argument lists: name -> (args, kwargs); T0/T1/T2 are tensors (T0 and T1 equal values)
def arglists(T):
    return {
        "ints": ((1, 2), {}), "ints2": ((2, 1), {}), "kw": ((1,), {"y": 2}), "kw2": ((1,), {"y": 3}),
        "t0": ((T[0],), {}), "t1": ((T[1],), {}), "t0kw": ((5,), {"y": T[0]}), "t1kw": ((5,), {"y": T[1]}),
        "nest": (([T[0], (1, 2)], {"a": T[1]}), {}), "nest2": (([T[1], (1, 2)], {"a": T[1]}), {}), "nest3": (([T[0], (1, 3)], {"a": T[1]}), {}),
        "hash0": ((hash(T[0]),), {}), "none": ((None,), {}), "str": (("1",), {}),
    }


QUICK = ["ints", "kw", "t0", "t1", "t0kw", "nest", "nest2", "hash0", "none"]


def describe(x):
    if isinstance(x, torch.Tensor):
        return ("T", x.tolist(), id(x))
    if isinstance(x, (list, tuple)):
        return tuple(describe(v) for v in x)
    if isinstance(x, dict):
        return tuple((k, describe(v)) for k, v in x.items())
    return x


def cases(tier):
    names = QUICK if tier == "quick" else None
    T = [torch.zeros(1)] * 3
    alln = names or list(arglists(T))
    for f in (0, 1):
        for b in BIND:
            for a in alln:
                yield {"kind": "hist", "first": [f, b, a], "depth": 3 if tier == "quick" else 4, "names": QUICK if tier == "quick" else alln[:8] + ["nest2"]}
    yield {"kind": "gc", "n": 60 if tier == "quick" else 400}
    yield {"kind": "values"}
    yield {"kind": "nested"}
    yield {"kind": "expect"}
    yield {"kind": "method"}
    yield {"kind": "errors"}
    for k in range(8):
        yield {"kind": "keys", "k": k}


BIND = ["A", "B", "none", "plain"]


def run_case(t, case):
    m = mem()
    if case["kind"] == "hist":
        hist(t, m, case)
    elif case["kind"] == "gc":
        # short-lived tensors: ids are reused by the allocator
        for keep in (0, 1, 2):
            calls = [0]

            @m.memoize
            def f(x, y=0):
                calls[0] += 1
                return float(x.sum()) + y
            cache = m.create_cache()
            g = m.bind(f, cache)
            alive = []
            for i in range(case["n"]):
                x = torch.full((3,), float(i))
                got = g(x) if i % 2 else g(x, y=1000)
                want = 3.0 * i + (0 if i % 2 else 1000)
                t.step()
                t.check(got == want, f"short-lived tensor number {i} (every {keep} kept alive): memoised {got}, plain function {want}")
                t.check(calls[0] == i + 1, f"evaluated {calls[0]} times for {i + 1} distinct tensors")
                t.state("gc", keep, i)
                if keep and i % keep == 0:
                    alive.append(x)
                del x
                gc.collect() if i % 16 == 0 else None
            t.check(f.get_total_cache_hits(cache) == 0, "hits counted for distinct tensors")
            for i, x in enumerate(alive):
                before = calls[0]
                idx = int(x[0])
                want = 3.0 * idx + (0 if idx % 2 else 1000)
                got = g(x) if idx % 2 else g(x, y=1000)
                t.check(got == want and calls[0] == before, f"tensor {idx} still alive: not answered from the cache")
    elif case["kind"] == "keys":
        T = [torch.tensor([1.0]), torch.tensor([1.0])]
        atoms = [1, 2, "a", None, T[0], T[1], (1, 2), (T[0], 1), {"a": 1}, {"a": 2}, {"b": 1}, {"a": T[1]}]
        names = ["a", "b", "c"]
        forms = []
        for n in range(3):
            for pa in itertools.product(range(len(atoms)), repeat=n):
                forms.append((pa, ()))
        for n in range(2):
            for pa in itertools.product(range(len(atoms)), repeat=n):
                for r in (1, 2, 3):
                    for ns in itertools.combinations(names, r):
                        pool = range(len(atoms)) if r + n <= 2 else (0, 1, 4)
                        for vs in itertools.product(pool, repeat=r):
                            forms.append((pa, tuple(zip(ns, vs))))
        # the k-th eighth of the call forms goes first, then all the others: every pair shares a cache
        forms = forms[case["k"]::8] + [f for i, f in enumerate(forms) if i % 8 != case["k"]]
        calls = [0]

        @m.memoize
        def f(*a, **k):
            calls[0] += 1
            return (describe(a), describe(k), object())
        c = m.create_cache()
        g = m.bind(f, c)
        seen = {}
        for rnd in (0, 1):
            for n, (pa, kw) in enumerate(forms):
                args = tuple(atoms[i] for i in pa)
                kws = {n_: atoms[i] for n_, i in (kw if rnd == 0 else kw[::-1])}
                got = g(*args, **kws)
                t.step()
                want = (describe(args), tuple(sorted(describe(kws))))
                t.check((got[0], tuple(sorted(got[1]))) == want, f"call {args} {kws}: memoised {got[:2]}, plain {want}")
                if rnd == 0:
                    t.check(calls[0] == n + 1, f"call {args} {kws}: {calls[0]} evaluations after {n + 1} distinct argument lists")
                    seen[(pa, kw)] = got
                    t.state("keys", pa, kw)
                else:
                    t.check(got is seen[(pa, kw)] and calls[0] == len(forms), f"call {args} {kws}: repeated call evaluated again")
            if len(t.problems) > 5:
                return
        t.check(f.get_total_cache_hits(c) == len(forms), "number of hits")
        t.trace(len(forms))
    elif case["kind"] == "values":
        rets = [None, 0, False, "", [], torch.zeros(0), (), {}]
        for i, r in enumerate(rets):
            calls = [0]

            @m.memoize
            def f(*a, **k):
                calls[0] += 1
                return r
            c = m.create_cache()
            g = m.bind(f, c)
            for n in range(3):
                t.step()
                t.check(g(1) is r and calls[0] == 1, f"result {r!r}: call {n} evaluated again or changed")
            t.check(f.get_total_cache_hits(c) == 2, f"hits for result {r!r}")
            t.check(f.__name__ == "f" and g.__name__ == "f", "name not preserved")
            t.state("values", i)
    elif case["kind"] == "nested":
        nested(t, m)
    elif case["kind"] == "expect":
        @m.memoize
        def f(x):
            return x + 1
        c = m.create_cache()
        t.check(m.bind(f, c, expect_cache_hit=False)(1) == 2, "expected miss")
        t.check(m.bind(f, c, expect_cache_hit=True)(1) == 2, "expected hit")
        t.must_raise("expected hit on a miss", AssertionError, m.bind(f, c, expect_cache_hit=True), 2)
        t.must_raise("expected miss on a hit", AssertionError, m.bind(f, c, expect_cache_hit=False), 1)
        t.must_raise("expected hit without cache", AssertionError, m.bind(f, None, expect_cache_hit=True), 1)
        t.check(m.bind(f, None)(1) == 2 and f(1) == 2, "no cache")
        t.check(f.get_total_cache_hits(c) >= 1, "hits")
        t.state("expect")
    elif case["kind"] == "method":
        class K:
            def __init__(self, k):
                self.k, self.calls = k, 0

            @m.memoize
            def f(self, x):
                self.calls += 1
                return self.k + x
        a, b = K(1), K(100)
        c = m.create_cache()
        for _ in range(3):
            t.check(m.bind(a.f, c)(1) == 2 and m.bind(b.f, c)(1) == 101, "methods of different objects share results")
            t.step(2)
        t.check(a.calls == 1 and b.calls == 1, "methods evaluated more than once")
        t.state("method")
    elif case["kind"] == "errors":
        calls = [0]

        @m.memoize
        def f(x):
            calls[0] += 1
            if calls[0] == 1:
                raise KeyError("first")
            return x
        c = m.create_cache()
        g = m.bind(f, c)
        t.must_raise("error propagates", KeyError, g, 4)
        ok, v = t.attempt("after an error the function is evaluated again", g, 4)
        t.check(ok and v == 4 and calls[0] == 2, "error was cached")
        t.check(g(4) == 4 and calls[0] == 2, "not cached after recovery")
        t.state("errors")


def nested(t, m):
    log = []

    @m.memoize
    def inner(x, cache):
        log.append("i")
        return x * 2

    @m.memoize
    def outer(x, cache):
        log.append("o")
        return m.bind(inner, cache)(x, cache) + 1
    for kind in ("pos", "kw"):
        c = m.create_cache()
        log.clear()
        x = torch.ones(1) * 3
        for n in range(3):
            r = m.bind(outer, c)(x, c) if kind == "pos" else m.bind(outer, c)(x=x, cache=c)
            t.step()
            t.check(float(r) == 7.0, "nested result")
            t.check(log == ["o", "i"], f"nested functions evaluated {log}")
        r = m.bind(inner, c)(x, c)
        t.check(float(r) == 6.0 and log == ["o", "i"], "inner result not shared")
        c2 = m.create_cache()
        m.bind(outer, c2)(x, c2)
        t.check(log == ["o", "i", "o", "i"], "second cache not independent")
        t.state("nested", kind)


def hist(t, m, case):
    depth = case["depth"]

    def fresh():
        T = [torch.tensor([1.0, 2.0]), torch.tensor([1.0, 2.0]), torch.tensor([9.0])]
        calls = [0, 0]
        fs = []
        for k in (0, 1):
            def body(x, y=None, _k=k):
                calls[_k] += 1
                return (_k, describe(x), describe(y), object())
            fs.append(m.memoize(body))
        impl = dict(T=T, calls=calls, fs=fs, caches={"A": m.create_cache(), "B": m.create_cache()})
        model = dict(seen={}, calls=[0, 0], hits={"A": [0, 0], "B": [0, 0]}, hist=[])
        return impl, model

    ops_all = [(f, b, a) for f in (0, 1) for b in BIND for a in case["names"]]
    first = tuple(case["first"])

    def ops(model):
        return [first] if not model["hist"] else ops_all

    def apply(impl, model, op, last):
        f, b, a = op
        args, kw = arglists(impl["T"])[a]
        fn = impl["fs"][f]
        g = fn if b == "plain" else m.bind(fn, None if b == "none" else impl["caches"][b])
        model["hist"].append(op)
        try:
            got = g(*args, **kw)
        except Exception as e:  # noqa: BLE001
            t.fail(f"history {model['hist']}: raised {type(e).__name__}: {e}")
            return
        want = (f, describe(args[0]), describe(kw.get("y", args[1] if len(args) > 1 else None)))
        t.check(got[:3] == want, f"history {model['hist']}: returned {got[:3]}, plain function returns {want}")
        if b in ("A", "B"):
            k = (b, f, a)
            if k in model["seen"]:
                model["hits"][b][f] += 1
                t.check(got[3] is model["seen"][k], f"history {model['hist']}: cached value not reused")
            else:
                model["calls"][f] += 1
                model["seen"][k] = got[3]
        else:
            model["calls"][f] += 1

    def canon(impl, model):
        return (sorted(k for k in model["seen"]), model["hits"], model["calls"])

    def invariant(impl, model, h):
        t.check(impl["calls"] == model["calls"], f"after {h}: evaluated {impl['calls']} times, expected {model['calls']}")
        for b, c in impl["caches"].items():
            for f in (0, 1):
                got = impl["fs"][f].get_total_cache_hits(c)
                t.check(got == model["hits"][b][f], f"after {h}: {got} hits in cache {b} for function {f}, expected {model['hits'][b][f]}")

    core.explore(t, fresh, ops, apply, canon, invariant, depth)


if __name__ == "__main__":
    core.main(sys.modules[__name__])
