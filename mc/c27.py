"""C27: the stack-based rANS coder - exact inverses over a lattice of states, all push/pop histories, the encode/decode API and bits-back, on a numpy stand-in for jax."""
import importlib
import itertools
import os
import sys
import numpy as np
from . import core, fakejax

PID = "C27"
ASSUMPTIONS = ["jax is not installed: the package runs on mc/fakejax.py (numpy with jax's immutability, weak typing, promotion, stable sorts and clamped dynamic slices); all 26 cases of the project's own tests pass on it",
               "tables give every coded symbol a non-zero frequency and sum to 2^precision; the tail has room for the message (the documentation says that coding fails silently otherwise)",
               "precisions up to 24 bits (head of 32 bits, renormalised to at least 2^24)"]
MIN = 1 << 24
MAX = (1 << 32) - 1


def bounds(tier):
    q = tier == "quick"
    return ("single steps: %d head values (every renormalisation boundary and both neighbours) x 1..3 lanes x 7 precisions x tables with one-count, balanced and certain symbols x all symbols, push-pop and pop-push; "
            "all push/pop histories of length <= %d over 3 codecs x all symbols; flatten/unflatten of every lattice state; encode/decode of all messages up to %d symbols x 1..3 lanes x batches, chained encodes, two fills of the unused tail; bits-back over all messages and latents incl. on an empty and nearly empty stack" % (len(heads(16, [1])), 4 if q else 6, 4 if q else 6))


def tabs(p):
    one = 1 << p
    out = [[one]]
    if p >= 1:
        out += [[1] * 2] if p == 1 else [[1, one - 1], [one - 1, 1], [one // 2, one // 2]]
    if p >= 3:
        out += [[one // 2 - 1, 2, one // 2 - 1], [1, one - 2, 1]]
    if p == 8:
        out += [[1] * 256]
    if p == 12:
        out += [[16] * 256]
    return out


def heads(p, freqs):
    hs = {MIN, MIN + 1, MIN + 255, MIN + 256, 1 << 25, (1 << 25) - 1, 0x01FFFFFF, 0x7FFFFFFF, 1 << 31, 0x80000001, MAX, MAX - 1, MAX - 255, 0xFF000000, 0x01010101, 0xDEADBEEF}
    for f in freqs:
        for k in (32 - p, 40 - p, 48 - p, 24 - p):
            if k >= 0:
                b = f << k
                hs |= {b - 1, b, b + 1}
    return sorted(h for h in hs if MIN <= h <= MAX)


def cases(tier):
    q = tier == "quick"
    for p in (1, 4, 8, 12, 16, 20, 24):
        for i in range(len(tabs(p))):
            yield {"kind": "step", "p": p, "tab": i, "lanes": 1, "fill": 0}
            yield {"kind": "step", "p": p, "tab": i, "lanes": 2, "fill": 1}
            yield {"kind": "step", "p": p, "tab": i, "lanes": 3, "fill": 2}
    for first in range(len(hist_ops(1))):
        yield {"kind": "hist", "lanes": 1, "first": first, "depth": 4 if q else 6}
    for first in range(len(hist_ops(2))):
        yield {"kind": "hist", "lanes": 2, "first": first, "depth": 3 if q else 4}
    for lanes in (1, 2, 3):
        yield {"kind": "flat", "lanes": lanes}
    for fill in ("random", "zeros", "ones"):
        for lanes in (1, 2, 3):
            for n in range(1, (5 if q else 7)):
                if lanes * n <= (6 if q else 8):
                    yield {"kind": "api", "lanes": lanes, "n": n, "fill": fill, "cut": 40 if q else 400}
    for dt in ("uint8", "int32", "int64"):
        yield {"kind": "symbols", "dt": dt}
    for a in range(3):
        for depth in (2, 3) if q else (2, 3, 4):
            yield {"kind": "chain", "first": a, "depth": depth}
    yield {"kind": "model"}
    for la, lb in itertools.product((1, 2, 3), repeat=2):
        for mix in (0, 1):
            yield {"kind": "lanes", "la": la, "lb": lb, "mix": mix}
    for lanes in (1, 2, 3):
        for m in range(4):
            for fill in ("random", "zeros"):
                yield {"kind": "bitsback", "lanes": lanes, "model": m, "n": (4, 2, 2)[lanes - 1] if q else (6, 3, 2)[lanes - 1], "fill": fill}
    for m in range(4):
        yield {"kind": "bbstate", "model": m}
        for lanes in (2, 3):
            for head in (MIN, 0x0FFFFFFF, MAX):
                yield {"kind": "bbmixed", "model": m, "lanes": lanes, "n": 8 if q else 16, "head": head}


_mods = {}


def load():
    if "c" not in _mods:
        fakejax.install()
        d = os.path.join(core.REPO, "projects", "jax_entropy_coders")
        if d not in sys.path:
            sys.path.insert(0, d)
        _mods["c"] = importlib.import_module("craystack")
        import jax.numpy as jnp
        _mods["jnp"] = jnp
    return _mods["c"], _mods["jnp"]


def setup(tier=None):
    load()


def cdf(tab):
    return np.concatenate([[0], np.cumsum(tab)]).astype(np.uint32)


def codec(cs, jnp, rows, p, **kw):
    """A fixed-table codec, one table per lane."""
    c = np.stack([cdf(r) for r in rows])
    return cs.fixed_array_cdf_codec(jnp.array(c, dtype=jnp.uint32), p, **kw)


def message(cs, jnp, head, tail, cap=24):
    """A coder state with the given live tail bytes."""
    from craystack._backend import CrayTail
    data = np.full(cap, 0xA5, dtype=np.uint8)
    if tail:
        data[cap - len(tail):] = list(tail)
    return cs.CrayCompressedMessage(jnp.array(np.array(head, dtype=np.uint32)), CrayTail(jnp.array([cap - len(tail)]), jnp.array(data)))


def view(m):
    head, (ptr, data) = m
    ptr = int(np.asarray(ptr).ravel()[0])
    return tuple(int(h) for h in np.asarray(head).ravel()), ptr, bytes(np.asarray(data)[max(ptr, 0):].tolist())


def push(cs, jnp, c, m, sym, state=None):
    return c.push(jnp.array(np.array(sym)), m, c.cdf_state if state is None else state)


def pop(cs, jnp, c, m, lanes, **kw):
    out = jnp.zeros((1, lanes), dtype=c.message_dtype)
    m, out, st = c.pop(jnp.array(0), m, out, c.cdf_state, **kw)
    return m, tuple(int(s) for s in np.asarray(out)[0]), st


TAILS = [b"", bytes(range(1, 10)), bytes([255, 0, 255, 0, 128, 127, 1, 254, 3])]


def syms(tab):
    k = len(tab)
    return list(range(k)) if k <= 4 else [0, 1, 127, 128, k - 2, k - 1]


def run_step(t, case):
    cs, jnp = load()
    p, lanes = case["p"], case["lanes"]
    T = tabs(p)
    tab = T[case["tab"]]
    # other lanes use other tables of the same length
    same = [x for x in T if len(x) == len(tab)]
    rows = [tab] + [same[(T.index(tab) + j) % len(same)] for j in range(1, lanes)]
    c = codec(cs, jnp, rows, p)
    hs = heads(p, sorted({f for r in rows for f in r}))
    if lanes == 1:
        hv = [(h,) for h in hs]
        sv = [(s,) for s in (range(len(tab)) if len(tab) > 4 else syms(tab))]
    else:
        step = max(1, len(hs) // (7 if lanes == 2 else 4))
        sub = sorted(set(hs[::step]) | {MIN, MAX})
        hv = list(itertools.product(sub, repeat=lanes))
        sv = list(itertools.product(syms(tab)[:4] if lanes == 2 else syms(tab)[:2], repeat=lanes))
    tail = TAILS[case["fill"]]
    for h in hv:
        m0 = message(cs, jnp, h, tail)
        v0 = view(m0)
        for s in (sv if lanes == 1 and len(sv) < 10 or h in (hv[0], hv[-1]) or lanes > 1 else sv[:: 17]):
            name = f"precision {p} tables {[r if len(r) < 5 else len(r) for r in rows]} heads {[hex(x) for x in h]} symbols {s}"
            ok, r = t.attempt(f"push {name}", push, cs, jnp, c, m0, s)
            if not ok:
                continue
            m1 = r[0]
            v1 = view(m1)
            t.check(all(MIN <= x <= MAX for x in v1[0]), f"push {name}: head {[hex(x) for x in v1[0]]} outside the coder's range")
            t.check(len(v1[2]) == len(v0[2]) + (v0[1] - v1[1]) and v1[2].endswith(v0[2]), f"push {name}: bytes already on the stack changed")
            ok, r = t.attempt(f"pop {name}", pop, cs, jnp, c, m1, lanes)
            if ok:
                t.check(r[1] == tuple(s), f"{name}: popped {r[1]}")
                t.check(view(r[0]) == v0, f"{name}: state after push and pop {view(r[0])}, before {v0}")
            t.check(view(m0) == v0, f"{name}: the pushed-to state itself changed")
            t.state(p, tuple(map(str, rows)), h, s)
            t.step(2)
        if tail:
            ok, r = t.attempt(f"pop from heads {h}", pop, cs, jnp, c, m0, lanes)
            if ok and len(view(r[0])[2]) + 0 <= len(tail):
                m1, s, _ = r
                t.check(all(0 <= x < len(tab) for x in s), f"precision {p} heads {h}: popped {s}, not in the table")
                t.check(all(MIN <= x <= MAX for x in view(m1)[0]), f"precision {p} heads {h}: head {view(m1)[0]} after a pop outside the range")
                ok, r = t.attempt(f"push back on heads {h}", push, cs, jnp, c, m1, s)
                if ok:
                    t.check(view(r[0]) == v0, f"precision {p} tables {rows} heads {[hex(x) for x in h]}: pop and push back gives {view(r[0])}, before {v0}")
                t.state("pop", p, tuple(map(str, rows)), h)
                t.step(2)
    t.trace()


HT = {1: [(8, [1, 255]), (16, [(1 << 16) - 3, 1, 2]), (24, [1 << 23, 1 << 23])], 2: [(8, [1, 255]), (16, [(1 << 16) - 3, 1, 2])]}


def hist_ops(lanes):
    ops = []
    for i, (p, tab) in enumerate(HT[lanes]):
        for s in itertools.product(range(len(tab)), repeat=lanes):
            if lanes == 1 or s[0] <= s[1]:
                ops.append(("push", i, s))
    return ops + [("pop",)]


def run_hist(t, case):
    """All push/pop histories: a model stack predicts every pop and every restored state."""
    cs, jnp = load()
    lanes = case["lanes"]
    cods = [codec(cs, jnp, [tab] * lanes, p) for p, tab in HT[lanes]]
    ops = hist_ops(lanes)
    base = cs.empty_message((lanes,), 64)

    def go(m, stack, path, depth):
        t.trace()
        if depth == 0:
            # unwind completely
            for i, s, v in reversed(stack):
                m, got, _ = pop(cs, jnp, cods[i], m, lanes)
                t.check(got == s, f"history {path}: unwinding popped {got}, pushed {s}")
                t.check(view(m) == v, f"history {path}: unwinding did not restore the state")
                t.step()
            return
        for op in ops if path else [ops[case["first"]]]:
            if op[0] == "push":
                v = view(m)
                m2, _ = push(cs, jnp, cods[op[1]], m, op[2])
                t.state(view(m2))
                t.step()
                go(m2, stack + [(op[1], op[2], v)], path + [op], depth - 1)
            elif stack:
                i, s, v = stack[-1]
                m2, got, _ = pop(cs, jnp, cods[i], m, lanes)
                t.check(got == s, f"history {path}: popped {got}, pushed {s}")
                t.check(view(m2) == v, f"history {path}: pop did not restore the state")
                t.step()
                go(m2, stack[:-1], path + [op], depth - 1)
    go(base, [], [], case["depth"])


def run_flat(t, case):
    cs, jnp = load()
    lanes = case["lanes"]
    hs = heads(16, [1, 255, 65535])
    for h in itertools.product(hs if lanes == 1 else hs[:: 5 if lanes == 2 else 9] + [MAX], repeat=lanes):
        for tail in TAILS:
            for cap in (9, 10, 24):
                m = message(cs, jnp, h, tail, cap)
                ok, r = t.attempt(f"flatten {h}", cs.craymessage_to_array, m)
                if not ok:
                    continue
                arr, lim = r
                t.check(np.asarray(arr).dtype == np.uint8 and len(arr) == 4 * lanes + cap and int(lim) == 4 * lanes + cap - len(tail), f"flatten {h} cap {cap}: length {len(arr)}, limit {int(lim)}")
                ok, m2 = t.attempt(f"unflatten {h}", cs.array_to_craymessage, arr, (lanes,), int(lim) - 4 * lanes)
                if ok:
                    t.check(view(m2) == view(m), f"flatten and unflatten of heads {h}, tail {len(tail)}/{cap}: {view(m2)}")
                    t.check(np.asarray(m2[0]).dtype == np.uint32 and bytes(np.asarray(m2[1][1])) == bytes(np.asarray(m[1][1])), f"flatten and unflatten of heads {h} changed types or unused bytes")
                t.state(h, len(tail), cap)
                t.step(2)
    t.trace()


def api(t, cs, jnp, name, msgs, cods, cap, dt="int64"):
    """encode then decode through the public functions."""
    arr = jnp.array(np.array(msgs, dtype=dt))
    ok, r = t.attempt(f"encode {name}", cs.encode, arr, cods, tail_capacity=cap)
    if not ok:
        return None
    comp, _ = r
    t.check(len(comp) == len(msgs) and all(np.asarray(c).dtype == np.uint8 for c in comp), f"{name}: result is not one byte array per message")
    ok, r = t.attempt(f"decode {name}", cs.decode, comp, arr.shape[1], arr.shape[2:], cods, tail_capacity=cap)
    if ok:
        dec = np.asarray(r[0])
        t.check(dec.shape == arr.shape and (dec == np.asarray(arr)).all(), f"{name}: decoded {dec.tolist()}")
    t.trace()
    return comp


def run_api(t, case):
    cs, jnp = load()
    fakejax.FILL = case["fill"]
    lanes, n = case["lanes"], case["n"]
    for tab, p in (([1, 65535], 16), ([65534, 1, 1], 16), ([32768, 32768], 16), ([1, 254, 1], 8)):
        k = len(tab)
        row = cdf(tab)
        other = cdf(list(reversed(tab)))
        sp = list(itertools.product(range(k), repeat=lanes * n))
        if len(sp) > case["cut"]:
            # complete over the constant, single-change and alternating messages
            keep = {(a,) * (lanes * n) for a in range(k)} | {tuple(b if j == i else a for j in range(lanes * n)) for a in range(k) for b in range(k) for i in range(lanes * n)} | {tuple((a, b)[j % 2] for j in range(lanes * n)) for a in range(k) for b in range(k)}
            sp = sorted(keep)
        msgs = np.array(sp).reshape(len(sp), n, lanes)
        B = len(sp)
        # alternate batch members use different tables; every member must decode to itself
        tables = np.stack([np.stack([row if (b + l) % 2 == 0 else other for l in range(lanes)]) for b in range(B)])
        c = cs.fixed_array_cdf_codec(jnp.array(tables, dtype=jnp.uint32), p)
        comp = api(t, cs, jnp, f"{B} messages of {n} x {lanes} lanes, table {tab}", msgs, c, 3 * n * lanes + 16)
        for s in sp:
            t.state(tuple(tab), lanes, n, s)
        if comp is None:
            continue
        # a batch member codes as it does alone
        for b in {0, 1 % B, B - 1}:
            cb = cs.fixed_array_cdf_codec(jnp.array(tables[b:b + 1], dtype=jnp.uint32), p)
            ok, r = t.attempt(f"encode {sp[b]} alone", cs.encode, jnp.array(msgs[b:b + 1]), cb, tail_capacity=3 * n * lanes + 16)
            if ok:
                a, z = np.asarray(r[0][0]), np.asarray(comp[b])
                h = 4 * lanes
                t.check(a.shape == z.shape and (a[:h] == z[:h]).all() and (a[h + 1:] == z[h + 1:]).all(), f"message {sp[b]} codes differently in a batch of {B}")
        # the code does not depend on the capacity
        ok, r = t.attempt("encode with a larger tail", cs.encode, jnp.array(msgs), c, tail_capacity=6 * n * lanes + 40)
        if ok:
            h = 4 * lanes
            t.check(all(len(a) == len(b) and (np.asarray(a)[:h] == np.asarray(b)[:h]).all() and (np.asarray(a)[h + 1:] == np.asarray(b)[h + 1:]).all() for a, b in zip(r[0], comp)), f"table {tab} {n}x{lanes}: the code depends on the tail capacity")
        # ideal length: the state grows by the information content
        for s, z in zip(sp, comp):
            b = sp.index(s)
            bits = sum(-np.log2(tables_freq(tables, b, j % lanes, v) / (1 << p)) for j, v in enumerate(s))
            t.check(len(z) * 8 <= bits + 40 * lanes + 8 + 0.02 * n * lanes, f"table {tab} message {s}: {len(z)} bytes for {bits:.2f} bits")
    fakejax.FILL = "random"


def tables_freq(tables, b, l, v):
    return float(tables[b, l, v + 1]) - float(tables[b, l, v])


def run_symbols(t, case):
    """Every symbol of a full byte alphabet, in messages of the given type."""
    cs, jnp = load()
    dt = case["dt"]
    for tab in ([256] * 256, [1] * 255 + [65536 - 255], [65536 - 255] + [1] * 255):
        msgs = np.array([[[s], [255 - s], [s]] for s in range(256)])
        c = cs.fixed_array_cdf_codec(jnp.array(np.tile(cdf(tab), (256, 1, 1)), dtype=jnp.uint32), 16, message_dtype=dt)
        api(t, cs, jnp, f"bytes as {dt} ({tab[0]}..{tab[-1]})", msgs, c, 64, dt=dt)
        for s in range(256):
            t.state(dt, tab[0], s)
            ok, r = t.attempt(f"byte {s} as {dt}", one, t, cs, jnp, tab, s, dt)
            t.step(2)


def one(t, cs, jnp, tab, s, dt):
    arr = jnp.array(np.array([[[s]]], dtype=dt))
    c = cs.fixed_array_cdf_codec(jnp.array(cdf(tab)[None, None], dtype=jnp.uint32), 16, message_dtype=dt)
    comp, _ = cs.encode(arr, c, tail_capacity=16)
    dec, _, _ = cs.decode(comp, 1, (1,), c, tail_capacity=16)
    t.check(int(dec[0, 0, 0]) == s and np.asarray(dec).dtype == np.dtype(dt), f"symbol {s} of {dt} messages, table {tab[0]}..{tab[-1]}: decoded {int(dec[0, 0, 0])} ({np.asarray(dec).dtype})")


def run_chain(t, case):
    """Histories of encode and decode on the same buffers: last in, first out, each decode restores the buffers."""
    cs, jnp = load()
    B, lanes = 2, 2
    opts = [([1, 65535], 1), ([65534, 1, 1], 2), ([32768, 32768], 3)]
    cods = [cs.fixed_array_cdf_codec(jnp.array(np.tile(cdf(tab), (B, lanes, 1)), dtype=jnp.uint32), 16) for tab, _ in opts]
    cap = 96

    def variants(i):
        k, n = len(opts[i][0]), opts[i][1]
        z = np.zeros((B, n, lanes), dtype=np.int64)
        e = z + k - 1
        a = np.arange(B * n * lanes).reshape(B, n, lanes) % k
        return [z, e, a]

    def go(buf, stack, path, depth):
        t.state(tuple(bytes(np.asarray(b)[: 4 * lanes]) + b"|" + bytes(np.asarray(b)[4 * lanes + 1:]) for b in buf) if buf is not None else None, len(stack))
        if depth == 0:
            cur = buf
            for i, m, before in reversed(stack):
                ok, r = t.attempt(f"decode in history {path}", cs.decode, cur, m.shape[1], m.shape[2:], cods[i], tail_capacity=cap)
                if not ok:
                    return
                dec, cur, _ = r
                t.check((np.asarray(dec) == m).all(), f"history {path}: decoded {np.asarray(dec).tolist()}, encoded {m.tolist()}")
                if before is not None:
                    h = 4 * lanes
                    # the byte between head and tail is a spacer
                    t.check(all(len(x) == len(y) and (np.asarray(x)[:h] == np.asarray(y)[:h]).all() and (np.asarray(x)[h + 1:] == np.asarray(y)[h + 1:]).all() for x, y in zip(cur, before)), f"history {path}: decoding did not restore the buffers")
                t.step()
            t.trace()
            return
        for i in range(3) if path else [case["first"]]:
            for j, m in enumerate(variants(i)):
                ok, r = t.attempt(f"encode in history {path}", cs.encode, jnp.array(m), cods[i], start_buffers=buf, tail_capacity=cap)
                if ok:
                    t.step()
                    go(r[0], stack + [(i, m, buf)], path + [(i, j)], depth - 1)
                    if depth > 1:
                        ok, r2 = t.attempt(f"decode in history {path}", cs.decode, r[0], m.shape[1], m.shape[2:], cods[i], tail_capacity=cap)
                        if ok:
                            t.check((np.asarray(r2[0]) == m).all(), f"history {path}: decoded {np.asarray(r2[0]).tolist()}, encoded {m.tolist()}")
                            t.step()
                            if buf is not None:
                                go(r2[1], stack, path + [(i, j), "pop"], depth - 2)
    go(None, [], [], case["depth"])


def run_lanes(t, case):
    """Appending with another interleave level: exact, or refused."""
    cs, jnp = load()
    la, lb = case["la"], case["lb"]
    tab = [65534, 1, 1]

    def cod(k):
        return cs.fixed_array_cdf_codec(jnp.array(np.tile(cdf(tab), (1, k, 1)), dtype=jnp.uint32))
    ca, cb = cod(la), cod(lb)
    for n in range(0, 4):
        for m1 in itertools.product(range(3), repeat=n):
            a = np.array([[[(s + l) % 3 if case["mix"] else s for l in range(la)] for s in m1]]).reshape(1, n, la)
            if n == 0:
                continue
            c1, _ = cs.encode(jnp.array(a), ca, tail_capacity=60)
            for m2 in itertools.product(range(3), repeat=2):
                b = np.array([[[s] * lb for s in m2]])
                name = f"{m1} x {la} lanes, then {m2} x {lb} lanes"
                t.state(la, lb, m1, m2)
                t.trace()
                try:
                    c2, _ = cs.encode(jnp.array(b), cb, tail_capacity=60, start_buffers=c1)
                except ValueError:
                    t.outcome("refused")
                    t.check(lb > la, f"{name}: refused although the interleave level does not grow")
                    continue
                t.outcome("appended")
                ok, r = t.attempt(f"decode {name}", cs.decode, c2, 2, (lb,), cb, tail_capacity=60)
                if not ok:
                    continue
                t.check((np.asarray(r[0]) == b).all(), f"{name}: second message decoded as {np.asarray(r[0]).tolist()}")
                ok, r = t.attempt(f"decode {name}", cs.decode, r[1], n, (la,), ca, tail_capacity=60)
                if ok:
                    t.check((np.asarray(r[0]) == a).all(), f"{name}: first message decoded as {np.asarray(r[0]).tolist()}")
                t.step(4)


def run_model(t, case):
    """Functional codecs with a state: the table depends on the position."""
    cs, jnp = load()
    T = np.stack([cdf([1, 65534, 1]), cdf([30000, 5536, 30000]), cdf([65534, 1, 1])])
    Tj = jnp.array(T, dtype=jnp.uint32)

    def cdf_fun(s, st):
        row = Tj[st[0][0] % 3]
        return row[s], row[s + 1], (st[0] + 1,)

    def inv(v, st):
        row = Tj[(st[0][0] - 1) % 3]
        s = jnp.argmin(jnp.expand_dims(v, -1) >= row, axis=-1) - 1
        return row[s], row[s + 1], s, (st[0] - 1,)
    for lanes in (1, 2):
        for n in (1, 2, 3):
            sp = list(itertools.product(range(3), repeat=n * lanes))
            if len(sp) > 100:
                sp = sp[::7] + [sp[-1]]
            msgs = np.array(sp).reshape(len(sp), n, lanes)
            for start in (0, 1, 2):
                st = (jnp.array(np.full((len(sp), 1), start)),)
                c = cs.default_rans_codec(cdf_fun, inv, st)
                ok, r = t.attempt(f"stateful encode {n}x{lanes}", cs.encode, jnp.array(msgs), c, tail_capacity=64)
                if not ok:
                    continue
                comp, st2 = r
                t.check(np.asarray(st2[0]).ravel().tolist() == [start + n] * len(sp), f"stateful {n}x{lanes}: final state {np.asarray(st2[0]).ravel()[:3]}")
                ok, r = t.attempt(f"stateful decode {n}x{lanes}", cs.decode, comp, n, (lanes,), cs.default_rans_codec(cdf_fun, inv, st2), tail_capacity=64)
                if ok:
                    t.check((np.asarray(r[0]) == msgs).all(), f"stateful {n}x{lanes} from {start}: messages differ")
                    t.check(np.asarray(r[2][0]).ravel().tolist() == [start] * len(sp), f"stateful {n}x{lanes}: state not restored")
                for s in sp:
                    t.state(lanes, n, start, s)
                t.trace()


# latent models: (prior, posterior given each observation, likelihood given each latent), precision 16
def models():
    o = 65536
    return [
        ([o // 2, o // 2], [[o // 2, o // 2], [o // 2, o // 2]], [[o // 2, o // 2], [o // 2, o // 2]]),
        ([o - 1, 1], [[1, o - 1], [o // 2, o // 2]], [[1, o - 1], [o - 1, 1]]),
        ([1, o - 1], [[1, o - 1], [1, o - 1]], [[o - 256, 256], [o - 3, 3]]),
        ([o - 256, 256], [[256, o - 256], [o - 256, 256]], [[o - 2, 2], [o // 4, 3 * o // 4]]),
    ]


def bb(cs, jnp, model, lanes):
    pr, po, li = model
    prior = np.tile(cdf(pr), (lanes, 1))
    post = np.stack([cdf(r) for r in po])
    like = np.stack([cdf(r) for r in li])
    postj, likej = jnp.array(post, dtype=jnp.uint32), jnp.array(like, dtype=jnp.uint32)
    return cs.bitsback_ans_codec(
        cs.fixed_array_cdf_codec(jnp.array(prior, dtype=jnp.uint32)),
        lambda x: cs.fixed_array_cdf_codec(postj[x], allow_empty_pops=True),
        lambda z: cs.fixed_array_cdf_codec(likej[z]),
        (lanes,), "int64")


def run_bitsback(t, case):
    """Messages coded with latents, the first ones on an empty stack."""
    cs, jnp = load()
    fakejax.FILL = case["fill"]
    lanes = case["lanes"]
    c = bb(cs, jnp, models()[case["model"]], lanes)
    for n in range(1, case["n"] + 1):
        for s in itertools.product(range(2), repeat=n * lanes):
            msgs = np.array(s).reshape(1, n, lanes)
            api(t, cs, jnp, f"bits-back model {case['model']} {lanes} lanes message {s}", msgs, c, 64)
            t.state(case["model"], lanes, s)
            t.step(2)
    fakejax.FILL = "random"


def run_bbstate(t, case):
    """Bits-back on a filled stack restores the whole state."""
    cs, jnp = load()
    for lanes in (1, 2, 3):
        c = bb(cs, jnp, models()[case["model"]], lanes)
        hs = [MIN, MIN + 1, 0x01FFFFFF, 0x80000001, MAX, 0xDEADBEEF]
        for h in itertools.product(hs if lanes < 3 else hs[::2], repeat=lanes):
            for tail in (TAILS[1] * 2, TAILS[2] * 2):
                for s in itertools.product(range(2), repeat=lanes):
                    m0 = message(cs, jnp, h, tail, 48)
                    v0 = view(m0)
                    name = f"bits-back model {case['model']} heads {[hex(x) for x in h]} symbols {s}"
                    ok, r = t.attempt(f"push {name}", c.push, jnp.array(np.array(s)), m0, None)
                    if not ok:
                        continue
                    ok, r = t.attempt(f"pop {name}", c.pop, jnp.array(0), r[0], jnp.zeros((1, lanes), dtype="int64"), None)
                    if ok:
                        t.check(tuple(np.asarray(r[1])[0].tolist()) == s, f"{name}: popped {np.asarray(r[1])[0].tolist()}")
                        t.check(view(r[0]) == v0, f"{name}: state not restored: {view(r[0])} from {v0}")
                    t.state(case["model"], h, s, tail[0])
                    t.step(2)
                    t.trace()


def run_bbmixed(t, case):
    """Bits-back on a stack holding fewer bytes than its latents take: what was there before comes back first."""
    cs, jnp = load()
    lanes = case["lanes"]
    plain = codec(cs, jnp, [[1 << 15, 1 << 15]] * lanes, 16)
    c = bb(cs, jnp, models()[case["model"]], lanes)
    for n in range(0, case["n"] + 1):
        # n plain pushes leave a partly filled tail
        for word in itertools.product(range(2), repeat=min(n, 4)):
            m = message(cs, jnp, ([case["head"], 0x01FFFFFF, 0xF0000000])[:lanes], b"", 64)
            under = []
            for j in range(n):
                v = tuple(word[(j + l) % len(word)] for l in range(lanes))
                under.append((v, view(m)))
                m, _ = push(cs, jnp, plain, m, v)
            have = len(view(m)[2])
            for s in itertools.product(range(2), repeat=lanes):
                name = f"model {case['model']} {lanes} lanes on a tail of {have} bytes after {n} pushes, symbols {s}"
                ok, r = t.attempt(f"push {name}", c.push, jnp.array(np.array(s)), m, None)
                if not ok:
                    continue
                ok, r = t.attempt(f"pop {name}", c.pop, jnp.array(0), r[0], jnp.zeros((1, lanes), dtype="int64"), None)
                if not ok:
                    continue
                m2 = r[0]
                t.check(tuple(np.asarray(r[1])[0].tolist()) == s, f"{name}: popped {np.asarray(r[1])[0].tolist()}")
                t.check(view(m2)[0] == view(m)[0] and view(m2)[2].startswith(view(m)[2]), f"{name}: the stack below is not restored: {view(m2)}, was {view(m)}")
                for v, before in reversed(under):
                    m2, got, _ = pop(cs, jnp, plain, m2, lanes)
                    t.check(got == v, f"{name}: earlier symbols {v} popped as {got}")
                t.state(case["model"], lanes, n, word, s)
                t.trace()
                t.step(2 + n)


def run_case(t, case):
    globals()["run_" + case["kind"]](t, case)


if __name__ == "__main__":
    core.main(sys.modules[__name__])
