"""A small numpy stand-in for the part of jax the entropy-coder project uses.

jax is not installed here, so the project's modules are executed on this
stand-in.  It keeps the semantics of jax that the coders depend on:
immutability (``x += 1`` rebinds), weakly typed Python scalars, jax's dtype
promotion (x64 enabled), wrap-around of unsigned integers, shifts by at least
the width giving zero, gathers that clamp and scatters that drop out-of-range
indices, dynamic slices that wrap a negative start once and then clamp, stable
sorts, and structured control flow (cond, switch, while_loop, fori_loop, vmap)
executed lane by lane.  Anything the stand-in does not define itself is taken
from numpy, with the results wrapped again.
"""

import sys
import types

import numpy as np

F = np.float64


def _dt(x):
    return np.asarray(x).dtype


def _promote(a, b):
    if a == b:
        return a
    af, bf = np.issubdtype(a, np.inexact), np.issubdtype(b, np.inexact)
    if af and not bf:
        return a
    if bf and not af:
        return b
    return np.promote_types(a, b)


_WEAK = frozenset((int, float, bool))
_I64, _F64 = np.dtype(np.int64), np.dtype(F)
_MASK = {n: (1 << (8 * n)) - 1 for n in (1, 2, 4, 8)}


def _weak(x):
    return type(x) in _WEAK


def _common(a, b):
    """jax's promotion of two operands, Python scalars being weakly typed."""
    wa, wb = _weak(a), _weak(b)
    if wa and wb:
        return np.asarray(a).view(), np.asarray(b).view()
    if wa or wb:
        s, v = (a, b) if wa else (b, a)
        v = np.asarray(v)
        d = v.dtype
        if type(s) is int:
            if d.kind == "b":
                d = _I64
        elif type(s) is float and d.kind not in "fc":
            d = _F64
        if d.kind == "u" and type(s) is int:
            s = np.array(s & _MASK[d.itemsize], dtype=d)
        else:
            s = np.array(s).astype(d)
        if v.dtype != d:
            v = v.astype(d)
        return (s, v) if wa else (v, s)
    a, b = np.asarray(a), np.asarray(b)
    if a.dtype == b.dtype:
        return a, b
    d = _promote(a.dtype, b.dtype)
    return a.astype(d), b.astype(d)


def _shift(op, a, b):
    width = 8 * a.dtype.itemsize
    if b.ndim == 0 and 0 <= int(b) < width:
        return op(a, b)
    a, b = np.broadcast_arrays(a, b)
    big = (b.astype(np.int64) >= width) if b.dtype != np.uint64 else (b >= width)
    out = op(a, np.where(big, 0, b).astype(a.dtype))
    if op is np.right_shift and np.issubdtype(a.dtype, np.signedinteger):
        fill = np.where(a < 0, -1, 0).astype(a.dtype)
    else:
        fill = np.zeros_like(a)
    return np.where(big, fill, out)


def wrap(x):
    if type(x) is Arr:
        return x
    if isinstance(x, np.ndarray):
        return x.view(Arr)
    if isinstance(x, np.generic):
        return np.asarray(x).view(Arr)
    if isinstance(x, tuple):
        return tuple(wrap(e) for e in x) if not hasattr(x, "_fields") else type(x)(*(wrap(e) for e in x))
    if isinstance(x, list):
        return [wrap(e) for e in x]
    return x


def raw(x):
    if type(x) is Arr:
        return x.view(np.ndarray)
    if isinstance(x, tuple) and not hasattr(x, "_fields"):
        return tuple(raw(e) for e in x)
    if isinstance(x, list):
        return [raw(e) for e in x]
    return x


class _At:
    def __init__(self, a):
        self.a = a

    def __getitem__(self, idx):
        return _AtIdx(self.a, idx)


class _AtIdx:
    def __init__(self, a, idx):
        self.a, self.idx = a, idx

    def _do(self, fn, v):
        return _scatter(self.a, self.idx, v, fn)

    def set(self, v, **k):
        return self._do("set", v)

    def add(self, v, **k):
        return self._do("add", v)

    def get(self, **k):
        return self.a[self.idx]


def _scatter(a, idx, v, how):
    out = np.array(raw(a))
    idx = raw(idx)
    if isinstance(idx, (list, tuple)) and len(idx) == 1:
        idx = idx[0]
    v = np.asarray(raw(v)).astype(out.dtype)
    if isinstance(idx, (int, np.integer)) or (isinstance(idx, np.ndarray) and idx.ndim == 0 and idx.dtype != bool):
        i = int(idx)
        if i < 0:
            i += out.shape[0]
        if 0 <= i < out.shape[0]:
            out[i] = v if how == "set" else out[i] + v
        return out.view(Arr)
    if isinstance(idx, np.ndarray) and idx.dtype != bool:
        flat = idx.ravel().astype(np.int64)
        flat = np.where(flat < 0, flat + out.shape[0], flat)
        vals = np.broadcast_to(v, idx.shape + out.shape[1:]).reshape((-1,) + out.shape[1:])
        for i, e in zip(flat, vals):
            if 0 <= i < out.shape[0]:
                out[i] = e if how == "set" else out[i] + e
        return out.view(Arr)
    if how == "set":
        out[idx] = v
    else:
        out[idx] = out[idx] + v
    return out.view(Arr)


def _clampidx(i, n):
    """An index as a jax gather sees it: wrap one negative turn, then clamp."""
    if isinstance(i, (int, np.integer)):
        i = int(i)
        i = i + n if i < 0 else i
        return min(max(i, 0), n - 1)
    i = i.astype(np.int64)
    return np.clip(np.where(i < 0, i + n, i), 0, n - 1)


class Arr(np.ndarray):
    __array_priority__ = 1000

    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        if method == "__call__" and ufunc.nin == 2 and out is None and ufunc.nout in (1, 2):
            a, b = inputs
            if type(a) is Arr:
                a = a.view(np.ndarray)
            if type(b) is Arr:
                b = b.view(np.ndarray)
            a, b = _common(a, b)
            if ufunc is np.left_shift or ufunc is np.right_shift:
                return wrap(_shift(ufunc, a, b))
            if ufunc is np.true_divide and a.dtype.kind not in "fc":
                a, b = a.astype(F), b.astype(F)
            return wrap(ufunc(a, b, **kw))
        ins = [raw(x) for x in inputs]
        if out is not None:
            raise TypeError("jax arrays are immutable")
        return wrap(getattr(ufunc, method)(*ins, **kw))

    def __setitem__(self, k, v):
        raise TypeError("jax arrays are immutable")

    def __getitem__(self, k):
        a = self.view(np.ndarray)
        ks = k if isinstance(k, tuple) else (k,)
        n_ax = sum(1 for e in ks if e is not None and e is not Ellipsis)
        new, ax = [], 0
        for e in ks:
            if e is Ellipsis:
                ax = a.ndim - sum(1 for f in ks[ks.index(e) + 1 :] if f is not None) if n_ax else ax
                new.append(e)
            elif e is None:
                new.append(e)
            elif isinstance(e, slice):
                new.append(slice(*(None if q is None else int(q) for q in (e.start, e.stop, e.step))))
                ax += 1
            else:
                r = raw(e)
                if isinstance(r, bool) or (isinstance(r, np.ndarray) and r.dtype == bool):
                    new.append(r)
                    ax += getattr(r, "ndim", 1) or 1
                else:
                    if not isinstance(r, (int, np.integer)):
                        r = np.asarray(r)
                    if a.shape[ax] == 0:
                        raise IndexError("index into an empty axis")
                    new.append(_clampidx(r, a.shape[ax]))
                    ax += 1
        out = a[tuple(new)]
        return np.asarray(out).view(Arr)

    def __iter__(self):
        for i in range(self.shape[0]):
            yield self[i]

    @property
    def at(self):
        return _At(self)

    def astype(self, d, **k):
        a = self.view(np.ndarray)
        if np.issubdtype(a.dtype, np.inexact) and np.issubdtype(np.dtype(d), np.integer):
            with np.errstate(invalid="ignore"):
                return np.trunc(a).astype(np.int64).astype(d).view(Arr)
        return a.astype(d).view(Arr)

    def __bytes__(self):
        return self.view(np.ndarray).tobytes()

    def _wrapm(name):  # noqa: N805
        def f(self, *a, **k):
            return wrap(np.asarray(getattr(self.view(np.ndarray), name)(*[raw(x) for x in a], **{q: raw(v) for q, v in k.items()})))

        f.__name__ = name
        return f

    for _n in ("sum", "prod", "cumsum", "max", "min", "argmax", "argmin", "any", "all", "mean", "reshape", "ravel", "transpose", "squeeze", "flatten", "repeat"):
        locals()[_n] = _wrapm(_n)
    del _n

    def block_until_ready(self):
        return self


def _inplace(op):
    def f(self, other):
        return getattr(self, op)(other)

    return f


for _op in ("add", "sub", "mul", "truediv", "floordiv", "mod", "lshift", "rshift", "and", "or", "xor", "pow"):
    setattr(Arr, f"__i{_op}__", _inplace(f"__{_op}__"))


def _conv(d):
    def f(x=0):
        if _weak(x) and type(x) is int and np.issubdtype(d, np.unsignedinteger):
            return np.array(x & ((1 << (8 * np.dtype(d).itemsize)) - 1), dtype=d).view(Arr)
        return asarr(x).astype(d)

    f.dtype = np.dtype(d)
    f.__name__ = np.dtype(d).name
    return f


class _DT:
    """jnp.uint8 and friends: callable, and usable as a dtype."""

    def __init__(self, d):
        self.dtype = np.dtype(d)
        self._c = _conv(d)

    def __call__(self, x=0):
        return self._c(x)


def _d(d):
    return d.dtype if isinstance(d, _DT) else d


def asarr(x, dtype=None):
    if dtype is None and type(x) is Arr:
        return x
    x = raw(x)
    if isinstance(x, (list, tuple)):
        x = np.asarray([raw(e) for e in x]) if len(x) else np.zeros(0, dtype=F)
    a = np.array(x) if not isinstance(x, (bytes, bytearray)) else np.array(list(x), dtype=np.int64)
    if dtype is not None:
        return a.view(Arr).astype(_d(dtype)) if a.ndim or True else a
    return a.view(Arr)


def tree(f, *ts):
    t = ts[0]
    if t is None:
        return None
    if isinstance(t, tuple) and hasattr(t, "_fields"):
        return type(t)(*(tree(f, *es) for es in zip(*ts)))
    if isinstance(t, (tuple, list)):
        return type(t)(tree(f, *es) for es in zip(*ts))
    if isinstance(t, dict):
        return {k: tree(f, *(q[k] for q in ts)) for k in t}
    return f(*ts)


def leaves(t):
    out = []
    tree(lambda x: out.append(x), t)
    return out


def vmap(fun, in_axes=0, out_axes=0, **kw):
    def mapped(*args):
        axes = in_axes if isinstance(in_axes, (tuple, list)) else (in_axes,) * len(args)
        sizes = {asarr(l).shape[0] for a, x in zip(args, axes) if x is not None for l in leaves(a)}
        if len(sizes) != 1:
            raise ValueError(f"vmap got inconsistent sizes for array axes to be mapped: {sorted(sizes)}")
        (n,) = sizes
        outs = []
        for i in range(n):
            outs.append(fun(*(a if x is None else tree(lambda l: asarr(l)[i], a) for a, x in zip(args, axes))))
        return tree(lambda *es: np.stack([np.asarray(raw(asarr(e))) for e in es]).view(Arr), *outs)

    return mapped


def _arrs(v):
    return tree(lambda l: asarr(l), v)


def cond(pred, t, f, *ops):
    return t(*ops) if bool(pred) else f(*ops)


def switch(i, branches, *ops):
    return branches[min(max(int(i), 0), len(branches) - 1)](*ops)


MAX_ITER = 1_000_000


def while_loop(c, body, v):
    v = _arrs(v)
    n = 0
    while bool(c(v)):
        v = _arrs(body(v))
        n += 1
        if n > MAX_ITER:
            raise RuntimeError("while_loop does not terminate")
    return v


def fori_loop(lo, hi, body, v):
    v = _arrs(v)
    for i in range(int(lo), int(hi)):
        v = _arrs(body(np.array(i, dtype=np.int64).view(Arr), v))
    return v


def scan(f, init, xs, length=None, reverse=False, **kw):
    n = length if xs is None else asarr(leaves(xs)[0]).shape[0]
    carry, ys = _arrs(init), []
    order = range(n - 1, -1, -1) if reverse else range(n)
    for i in order:
        carry, y = f(carry, None if xs is None else tree(lambda l: asarr(l)[i], xs))
        carry = _arrs(carry)
        ys.append(y)
    if reverse:
        ys.reverse()
    return carry, tree(lambda *es: np.stack([np.asarray(raw(asarr(e))) for e in es]).view(Arr), *ys) if ys else None


def _starts(starts, sizes, dims):
    s = raw(starts)
    if isinstance(s, np.ndarray):
        s = list(np.atleast_1d(s))
    elif isinstance(s, (int, np.integer)):
        s = [s]
    out = []
    for i, size, d in zip(s, sizes, dims):
        i = int(i)
        i = i + d if i < 0 else i
        out.append(min(max(i, 0), d - size))
    return out


def dynamic_slice(x, starts, sizes):
    a = raw(asarr(x))
    sizes = tuple(int(q) for q in sizes)
    s = _starts(starts, sizes, a.shape)
    return np.array(a[tuple(slice(i, i + q) for i, q in zip(s, sizes))]).view(Arr)


def dynamic_update_slice(x, upd, starts):
    a = np.array(raw(asarr(x)))
    u = raw(asarr(upd))
    if u.dtype != a.dtype:
        raise TypeError(f"dynamic_update_slice requires same dtypes, got {a.dtype} and {u.dtype}")
    s = _starts(starts, u.shape, a.shape)
    a[tuple(slice(i, i + q) for i, q in zip(s, u.shape))] = u
    return a.view(Arr)


def dynamic_update_index_in_dim(x, upd, index, axis):
    x, upd = asarr(x), asarr(upd)
    if upd.ndim != x.ndim:
        upd = np.expand_dims(raw(upd), axis)
    starts = [0] * x.ndim
    starts[axis] = int(index)
    return dynamic_update_slice(x, upd, starts)


def dynamic_index_in_dim(x, index, axis=0, keepdims=True):
    x = asarr(x)
    starts = [0] * x.ndim
    starts[axis] = int(index)
    sizes = list(x.shape)
    sizes[axis] = 1
    out = dynamic_slice(x, starts, sizes)
    return out if keepdims else wrap(np.squeeze(raw(out), axis))


def sort_key_val(keys, values, dimension=-1, is_stable=True):
    k, v = raw(asarr(keys)), raw(asarr(values))
    if k.shape != v.shape:
        raise ValueError("sort_key_val: keys and values must have the same shape")
    o = np.argsort(k, axis=dimension, kind="stable")
    return wrap(np.take_along_axis(k, o, dimension)), wrap(np.take_along_axis(v, o, dimension))


def lax_argmax(x, axis, index_dtype=np.int32):
    return wrap(np.asarray(np.argmax(raw(asarr(x)), axis=axis)).astype(_d(index_dtype)))


def take_along_axis(a, idx, axis, **kw):
    a, i = raw(asarr(a)), raw(asarr(idx))
    i = _clampidx(np.asarray(i), a.shape[axis])
    nd = max(a.ndim, i.ndim)
    shp = list(np.broadcast_shapes(tuple(1 if d == axis % nd else s for d, s in enumerate(a.shape)), tuple(1 if d == axis % nd else s for d, s in enumerate(i.shape))))
    sa, si = list(shp), list(shp)
    sa[axis], si[axis] = a.shape[axis], i.shape[axis]
    return wrap(np.take_along_axis(np.broadcast_to(a, sa), np.broadcast_to(i, si), axis))


def split(a, where, axis=0):
    a = raw(asarr(a))
    if not isinstance(where, (int, np.integer)):
        where = [int(w) for w in where]
    return [wrap(np.array(p)) for p in np.split(a, where, axis)]


def where(c, a, b):
    a2, b2 = (x if _weak(x) else raw(x) for x in (a, b))
    a2, b2 = _common(a2, b2)
    return wrap(np.where(raw(asarr(c)).astype(bool), a2, b2))


def append(a, b, axis=None):
    a, b = _common(raw(asarr(a)), raw(asarr(b)))
    return wrap(np.append(a, b, axis))


def concatenate(xs, axis=0, **kw):
    xs = [raw(asarr(x)) for x in xs]
    d = xs[0].dtype
    for x in xs[1:]:
        d = _promote(d, x.dtype)
    return wrap(np.concatenate([x.astype(d) for x in xs], axis))


def index_update(x, idx, y, **kw):
    return _scatter(asarr(x), idx, y, "set")


def index_add(x, idx, y, **kw):
    return _scatter(asarr(x), idx, y, "add")


def _np_fallback(name):
    f = getattr(np, name)
    if not callable(f) or isinstance(f, type):
        return f

    def g(*a, **k):
        k = {q: _d(raw(v)) for q, v in k.items()}
        return wrap(f(*[_d(raw(x)) if not isinstance(x, (list, tuple)) else [raw(e) for e in x] if isinstance(x, list) else tuple(raw(e) for e in x) for x in a], **k))

    g.__name__ = name
    return g


# the initial contents of an empty tail; the coders must not depend on them
FILL = "random"


def randint(key, shape, lo, hi, dtype=np.int64):
    shape = tuple(int(s) for s in shape)
    if FILL == "zeros":
        return np.zeros(shape, dtype=_d(dtype)).view(Arr)
    if FILL == "ones":
        return np.full(shape, int(hi) - 1).astype(_d(dtype)).view(Arr)
    return np.random.RandomState(int(raw(key)[-1]) % 2**31).randint(int(lo), int(hi), size=shape).astype(_d(dtype)).view(Arr)


def prngkey(seed):
    return np.array([0, seed], dtype=np.uint32).view(Arr)


def _ufunc(name):
    u = getattr(np, name)

    def g(*a, **k):
        a = [x if _weak(x) else asarr(x) for x in a]
        if all(_weak(x) for x in a):
            a[0] = asarr(a[0])
        return u(*a, **k)

    g.__name__ = name
    return g


def build():
    jax = types.ModuleType("jax")
    lax = types.ModuleType("jax.lax")
    jnp = types.ModuleType("jax.numpy")
    rnd = types.ModuleType("jax.random")
    ops = types.ModuleType("jax.ops")
    tu = types.ModuleType("jax.tree_util")

    for n in ("uint8", "uint16", "uint32", "uint64", "int8", "int16", "int32", "int64", "float32", "float64", "bool_"):
        setattr(jnp, n, _DT(getattr(np, n)))
    jnp.ndarray = Arr
    jnp.array = jnp.asarray = asarr
    jnp.zeros = lambda s, dtype=F: np.zeros(_shape(s), _d(dtype)).view(Arr)
    jnp.ones = lambda s, dtype=F: np.ones(_shape(s), _d(dtype)).view(Arr)
    jnp.full = lambda s, v, dtype=None: wrap(np.full(_shape(s), raw(asarr(v)), _d(dtype)))
    jnp.take_along_axis = take_along_axis
    jnp.split, jnp.where, jnp.append, jnp.concatenate = split, where, append, concatenate
    jnp.stack = lambda xs, axis=0: wrap(np.stack([raw(asarr(x)) for x in xs], axis))
    jnp.max = lambda x, *a, **k: asarr(x).max(*a, **k)
    for n in ("add", "subtract", "multiply", "floor_divide", "mod", "remainder", "divmod", "less", "less_equal", "greater", "greater_equal", "equal", "not_equal", "maximum", "minimum", "left_shift", "right_shift", "bitwise_and", "bitwise_or", "bitwise_xor", "logical_not", "logical_and", "logical_or", "true_divide"):
        setattr(jnp, n, _ufunc(n))
    jnp.__getattr__ = _np_fallback

    lax.cond, lax.switch, lax.while_loop, lax.fori_loop, lax.scan = cond, switch, while_loop, fori_loop, scan
    lax.argmax = lax_argmax
    lax.sort_key_val = sort_key_val
    lax.dynamic_slice, lax.dynamic_update_slice = dynamic_slice, dynamic_update_slice
    lax.dynamic_update_index_in_dim, lax.dynamic_index_in_dim = dynamic_update_index_in_dim, dynamic_index_in_dim
    lax.dynamic_slice_in_dim = lambda x, s, n, axis=0: dynamic_slice(x, [int(s) if d == axis else 0 for d in range(asarr(x).ndim)], [n if d == axis else q for d, q in enumerate(asarr(x).shape)])
    lax.select = where
    lax.shift_right_logical = jnp.right_shift
    lax.shift_left = jnp.left_shift
    lax.lt, lax.le, lax.gt, lax.ge, lax.eq, lax.ne = jnp.less, jnp.less_equal, jnp.greater, jnp.greater_equal, jnp.equal, jnp.not_equal
    lax.add, lax.sub, lax.mul, lax.rem = jnp.add, jnp.subtract, jnp.multiply, jnp.mod
    lax.bitwise_or, lax.bitwise_and, lax.bitwise_xor = jnp.bitwise_or, jnp.bitwise_and, jnp.bitwise_xor
    lax.max, lax.min = jnp.maximum, jnp.minimum
    lax.clamp = lambda lo, x, hi: wrap(np.clip(raw(asarr(x)), raw(lo), raw(hi)))
    lax.stop_gradient = lambda x: x

    rnd.PRNGKey, rnd.randint = prngkey, randint
    ops.index_update, ops.index_add = index_update, index_add
    ops.index = types.SimpleNamespace(__getitem__=lambda self, k: k)
    tu.tree_map = jax_tree_map = lambda f, *t: tree(f, *t)
    tu.tree_leaves = leaves

    class Config:
        def update(self, k, v):
            setattr(self, k, v)

    jax.config = Config()
    cfg = types.ModuleType("jax.config")
    cfg.config = jax.config
    jax.lax, jax.numpy, jax.random, jax.ops, jax.tree_util = lax, jnp, rnd, ops, tu
    jax.vmap = vmap
    jax.jit = lambda f=None, **k: f if f is not None else (lambda g: g)
    jax.tree_map = jax_tree_map
    return {"jax": jax, "jax.lax": lax, "jax.numpy": jnp, "jax.random": rnd, "jax.ops": ops, "jax.tree_util": tu, "jax.config": cfg}


def _shape(s):
    s = raw(s)
    if isinstance(s, (int, np.integer)):
        return (int(s),)
    if isinstance(s, np.ndarray):
        return tuple(int(q) for q in np.atleast_1d(s))
    return tuple(int(raw(q)) for q in s)


def install():
    np.seterr(over="ignore", divide="ignore", invalid="ignore")
    if "jax" not in sys.modules:
        sys.modules.update(build())
    return sys.modules["jax"]
