"""C26: the vectorised arithmetic coder - every message up to a length over a family of frequency tables, on a numpy stand-in for jax."""
import importlib
import itertools
import math
import os
import sys
from . import core, fakejax

PID = "C26"
ASSUMPTIONS = ["jax is not installed: the module runs on mc/fakejax.py (numpy with jax's immutability, weak typing, promotion, clamped gathers and dropped scatters); all 26 cases of the project's own tests pass on it",
               "tables give every coded symbol a non-zero integer frequency and sum to 2^16; symbols fit the coder's uint8 messages; messages have at least one symbol"]
S = 65536
# cumulative tables: balanced, skewed to either side, one-count symbols at each place, symbols straddling each quarter point
T2 = [[1, S - 1], [S - 1, 1], [S // 2, S // 2], [S // 2 - 1, S // 2 + 1], [S // 4, 3 * S // 4], [21845, 43691], [2, S - 2], [257, S - 257]]
T3 = [[1, 1, S - 2], [1, S - 2, 1], [S - 2, 1, 1], [S // 2 - 1, 2, S // 2 - 1], [S // 2, 1, S // 2 - 1], [S // 2 - 1, 1, S // 2], [S // 4, S // 2, S // 4], [S // 4 - 1, S // 2 + 2, S // 4 - 1], [21845, 21846, 21845], [3 * S // 4 - 1, 2, S // 4 - 1], [S // 4 - 1, 2, 3 * S // 4 - 1]]
T4 = [[S // 4] * 4, [1, S // 2 - 1, S // 2 - 1, 1], [S - 3, 1, 1, 1], [32766, 1, 2, 32767], [10, 1000, 30000, S - 31010]]


def bounds(tier):
    q = tier == "quick"
    return ("%d two-symbol tables x all messages of length 1..%d, %d three-symbol tables x 1..%d, %d four-symbol tables x 1..%d; straddling-symbol runs of every length 1..%d followed by every tail of length <= 2; all 256 symbols of a full alphabet in every ordered pair with the extremes; "
            "adaptive and two-state context models x all messages; every batch pair and ragged decode; every buffer size around the need" % (len(T2), 6 if q else 11, len(T3), 4 if q else 7, len(T4), 3 if q else 5, 30 if q else 300))


def cases(tier):
    q = tier == "quick"
    for tabs, L in ((T2, 6 if q else 11), (T3, 4 if q else 7), (T4, 3 if q else 5)):
        for tab in tabs:
            for n in range(1, L + 1):
                k = len(tab)
                for first in range(k) if k ** n > 30 else (None,):
                    yield {"kind": "all", "tab": tab, "n": n, "first": first}
    for tab in T3[3:6] + [T3[7], T3[9], T3[10], [16383, 2, 49151]]:
        for lo in range(1, 31 if q else 301, 10 if q else 20):
            yield {"kind": "straddle", "tab": tab, "lo": lo, "hi": lo + (10 if q else 20), "tails": 1 if q else 2}
    for i in range(8 if q else 16):
        yield {"kind": "bytes", "part": i, "of": 8 if q else 16, "full": not q}
    for model in ("adaptive", "context"):
        for n in range(1, (6 if q else 9)):
            yield {"kind": "stateful", "model": model, "n": n}
    for n in range(1, 4 if q else 5):
        yield {"kind": "batch", "n": n}
        yield {"kind": "ragged", "n": n}
    for tab in ([1, S - 1], [S // 2, S // 2], [S // 2 - 1, 2, S // 2 - 1], [S - 2, 1, 1], [1] * 255 + [S - 255]):
        for n in (1, 2, 3, 4) if q else range(1, 8):
            yield {"kind": "buffer", "tab": tab, "n": n}


_mods = {}


def load():
    if "jac" not in _mods:
        fakejax.install()
        d = os.path.join(core.REPO, "projects", "jax_entropy_coders")
        if d not in sys.path:
            sys.path.insert(0, d)
        _mods["jac"] = importlib.import_module("jax_arithmetic_coder")
    return _mods["jac"]


def setup(tier=None):
    load()


def tables(t, tab):
    """(cdf_fun, inverse_cdf_fun, state) of a fixed table."""
    import jax.numpy as jnp
    cdf = [0]
    for f in tab:
        cdf.append(cdf[-1] + f)
    assert cdf[-1] == S
    arr = jnp.array(cdf, dtype=jnp.uint32)

    def cdf_fun(s, st):
        s = int(s)
        return st[0][s], st[0][s + 1], st

    def inv(v, st):
        import bisect
        v = int(v)
        s = bisect.bisect_right(cdf, v) - 1
        if not 0 <= s < len(tab):
            t.fail(f"the decoder asked for the symbol at {v}, outside the table")
            s = 0
        return st[0][s], st[0][s + 1], jnp.array(s), st
    return cdf_fun, inv, arr


def info(tab, msg):
    return sum(-math.log2(tab[s] / S) for s in msg)


def enc(jac, msgs, fun, states, **kw):
    import jax.numpy as jnp
    return jac.encode(jnp.array(msgs, dtype=jnp.uint8), fun, states, **kw)


def tile(arr, n):
    import jax.numpy as jnp
    return (jnp.stack([arr] * n),)


def oversize(bits, n):
    return (bits / 8 + 8 + n) / n


def roundtrip(t, jac, tab, msg, how="", key=None):
    import jax.numpy as jnp
    fun, inv, arr = tables(t, tab)
    n = len(msg)
    bits = info(tab, msg)
    name = f"table {tab if len(tab) < 9 else '%d..' % len(tab)} message {list(msg) if n < 20 else '%d..%s' % (n, list(msg)[-4:])}{how}"
    ok, out = t.attempt(f"encode {name}", enc, jac, [list(msg)], fun, tile(arr, 1), buffer_oversize=oversize(bits, n))
    if not ok:
        return None
    b = bytes(out[0])
    slack = 2 + 1e-3 * n
    t.check(len(b) * 8 <= bits + slack + 8, f"{name}: {len(b)} bytes for {bits:.3f} bits of information")
    ok, dec = t.attempt(f"decode {name}", jac.decode, [b], jnp.array([n]), inv, tile(arr, 1))
    if ok:
        got = [int(v) for v in dec[0]]
        t.check(got == list(msg), f"{name}: decoded {got if n < 20 else '...'}", key=key)
    t.trace()
    t.state(tuple(tab[:8]), len(tab), tuple(msg))
    t.step(2 * n)
    return b


def run_all(t, case):
    jac = load()
    k, n, tab = len(case["tab"]), case["n"], case["tab"]
    seen = {}
    for rest in itertools.product(range(k), repeat=n if case["first"] is None else n - 1):
        msg = rest if case["first"] is None else (case["first"],) + rest
        b = roundtrip(t, jac, tab, msg)
        if b is not None:
            if b in seen:
                t.fail(f"table {tab}: messages {seen[b]} and {msg} have the same code")
            seen[b] = msg


def run_straddle(t, case):
    """Long runs of a symbol that straddles a quarter point keep bits pending."""
    jac = load()
    tab = case["tab"]
    mid = tab.index(2) if 2 in tab else (tab.index(1) if 1 in tab else 1)
    for r in range(case["lo"], case["hi"]):
        for n in range(0, case["tails"] + 1):
            for tail in itertools.product(range(3), repeat=n):
                roundtrip(t, jac, tab, (mid,) * r + tail)
        if r <= 16:
            for head in range(3):
                roundtrip(t, jac, tab, (head,) + (mid,) * r)


def run_bytes(t, case):
    jac = load()
    tabs = [[256] * 256, [1] * 255 + [S - 255], [S - 255] + [1] * 255]
    for s in range(256):
        if s % case["of"] != case["part"]:
            continue
        for tab in tabs:
            for o in (range(256) if case["full"] else (0, 127, 128, 255)):
                roundtrip(t, jac, tab, (s, o))
            roundtrip(t, jac, tab, (o, s, s))


def run_stateful(t, case):
    """Models whose table depends on what was coded before."""
    import jax.numpy as jnp
    jac = load()
    n = case["n"]

    def cdf_of(w):
        tot = sum(w)
        c = [0]
        acc = 0
        for f in w:
            acc += f
            c.append(acc * S // tot)
        return c

    if case["model"] == "adaptive":
        def weights(st):
            return [int(v) for v in st[0]]

        def upd(st, s):
            return (st[0].at[s].add(3),)
        inits = [[1, 1], [1, 40], [40, 1], [1, 1, 1], [9, 1, 9]]
    else:
        def weights(st):
            return [[1, 60], [60, 1], [1, 1]][int(st[0][0])]

        def upd(st, s):
            return (jnp.array([s]),)
        inits = [[0], [1], [2]]

    for init in inits:
        k = len(init) if case["model"] == "adaptive" else 2
        if k ** n > 400:
            continue

        def cdf_fun(s, st):
            c = cdf_of(weights(st))
            s = int(s)
            return jnp.array(c[s], dtype=jnp.uint32), jnp.array(c[s + 1], dtype=jnp.uint32), upd(st, s)

        def inv(v, st):
            c = cdf_of(weights(st))
            s = max(i for i in range(len(c) - 1) if c[i] <= int(v))
            return jnp.array(c[s], dtype=jnp.uint32), jnp.array(c[s + 1], dtype=jnp.uint32), jnp.array(s), upd(st, s)
        msgs = list(itertools.product(range(k), repeat=n))
        st = (jnp.array([init] * len(msgs)),)
        ok, out = t.attempt(f"{case['model']} {init} n={n}: encode", enc, jac, [list(m) for m in msgs], cdf_fun, st, buffer_oversize=10.0)
        if not ok:
            continue
        ok, dec = t.attempt(f"{case['model']} {init} n={n}: decode", jac.decode, [bytes(b) for b in out], jnp.array([n] * len(msgs)), inv, st)
        if ok:
            for m, d in zip(msgs, dec):
                got = [int(v) for v in d]
                t.check(got == list(m), f"{case['model']} {init}: message {m} decoded as {got}")
                t.state(case["model"], str(init), m)
                t.trace()


def run_batch(t, case):
    """Every pair of messages in one batch: each member codes as it does alone, with its own table."""
    import jax.numpy as jnp
    jac = load()
    n = case["n"]
    tabs = [[S // 2 - 1, 2, S // 2 - 1], [S - 2, 1, 1], [1, S - 2, 1]]
    arrs = [tables(t, tab)[2] for tab in tabs]

    def cdf_fun(s, st):
        s = int(s)
        return st[0][s], st[0][s + 1], st

    def inv(v, st):
        c = [int(x) for x in st[0]]
        s = max(i for i in range(3) if c[i] <= int(v))
        return st[0][s], st[0][s + 1], jnp.array(s), st
    msgs = [m for m in itertools.product(range(3), repeat=n)][: 9 if n > 2 else 27]
    alone = {}
    for a, tab in enumerate(tabs):
        for m in msgs:
            alone[a, m] = bytes(enc(jac, [list(m)], cdf_fun, (jnp.stack([arrs[a]]),), buffer_oversize=10.0)[0])
    for (a, m), (b, p) in itertools.product(alone, repeat=2):
        if a == b and m >= p or (n > 2 and m == p):
            continue
        st = (jnp.stack([arrs[a], arrs[b]]),)
        name = f"batch {m} with table {a}, {p} with table {b}"
        ok, out = t.attempt(name, enc, jac, [list(m), list(p)], cdf_fun, st, buffer_oversize=10.0)
        if not ok:
            continue
        t.check([bytes(o) for o in out] == [alone[a, m], alone[b, p]], f"{name}: codes differ from those of the single messages")
        ok, dec = t.attempt(name, jac.decode, [bytes(o) for o in out], jnp.array([n, n]), inv, st)
        if ok:
            t.check([[int(v) for v in d] for d in dec] == [list(m), list(p)], f"{name}: decoded {[[int(v) for v in d] for d in dec]}")
        t.state(a, m, b, p)
        t.trace()


def run_ragged(t, case):
    """Messages of different lengths, coded alone, decode together."""
    import jax.numpy as jnp
    jac = load()
    for tab in ([S // 2 - 1, 2, S // 2 - 1], [S // 4, S // 2, S // 4], [1, S - 2, 1]):
        fun, inv, arr = tables(t, tab)
        ms = [m for n in range(1, case["n"] + 1) for m in itertools.product(range(3), repeat=n)]
        if case["n"] > 2:
            ms = [m for m in ms if len(m) == case["n"] and m[0] == 1] + [m for m in ms if len(m) == 1]
        code = {m: bytes(enc(jac, [list(m)], fun, tile(arr, 1), buffer_oversize=12.0)[0]) for m in ms}
        for a, b in itertools.product(ms, repeat=2):
            name = f"table {tab}: {a} and {b}"
            ok, dec = t.attempt(name, jac.decode, [code[a], code[b]], jnp.array([len(a), len(b)]), inv, tile(arr, 2))
            if ok:
                t.check([[int(v) for v in d] for d in dec] == [list(a), list(b)], f"{name}: decoded {[[int(v) for v in d] for d in dec]}")
            t.state(str(tab), a, b)
            t.trace()


def run_buffer(t, case):
    """At every buffer size the coder decodes correctly or says that the buffer is too small."""
    import jax.numpy as jnp
    jac = load()
    tab, n = case["tab"], case["n"]
    fun, inv, arr = tables(t, tab)
    k = min(len(tab), 3)
    pool = list(range(len(tab))) if len(tab) <= 3 else [0, 254, 255]
    for msg in itertools.product(pool, repeat=n):
        need = int((info(tab, msg) + 2) / 8) + 3
        raised = False
        for size in range(need, 0, -1):
            over = (size + 0.5) / n
            name = f"table {tab if len(tab) < 9 else len(tab)} message {msg} buffer {size}"
            t.state(str(tab[:3]), len(tab), msg, size)
            t.trace()
            try:
                b = bytes(enc(jac, [list(msg)], fun, tile(arr, 1), buffer_oversize=over)[0])
            except RuntimeError:
                raised = True
                t.outcome("overrun reported")
                continue
            t.outcome("fits")
            t.check(not raised, f"{name}: accepted although a larger buffer was too small")
            ok, dec = t.attempt(name, jac.decode, [b], jnp.array([n]), inv, tile(arr, 1))
            if ok:
                got = [int(v) for v in dec[0]]
                t.check(got == list(msg), f"{name}: no error, but decodes to {got}")
        t.check(need > 2 or True, "")


def run_case(t, case):
    globals()["run_" + case["kind"]](t, case)


if __name__ == "__main__":
    core.main(sys.modules[__name__])
