"""Contracts of the library functions the code calls (numpy, scipy, builtins): trusted base."""
import builtins
import collections
import copy
import itertools
import math
import numpy as np
import scipy.linalg
from .terms import *
from . import terms as T
from . import prove as PV
from .core import *
from .interp import MODELS, model, Interp, Obj, Closure, Bound, symbolic, ClassModel, SSeq

TRUSTED = {}


def note(name, text):
    TRUSTED[name] = text


def shape_of(s):
    if isinstance(s, (tuple, list)):
        return [dim(x) for x in s]
    return [dim(s)]


def unary(np_f, name):
    @model(np_f)
    def m(I, x, out=None, **kw):
        if isinstance(x, (list, tuple)):
            x = asarr(x)
        if isinstance(x, Arr):
            return to_out(x.map(lambda p: fn(name, p), "f8"), out)
        return S(fn(name, to_p(x)), np64=True)


for f, n in ((np.exp, "exp"), (np.sinh, "sinh"), (np.cosh, "cosh"), (np.tanh, "tanh"), (np.sqrt, "sqrt"),
             (np.log, "log"), (np.abs, "abs"), (np.sin, "sin"), (np.cos, "cos"), (math.exp, "exp"),
             (math.sqrt, "sqrt"), (math.log, "log"), (math.sinh, "sinh"), (math.tanh, "tanh"), (math.cosh, "cosh"), (np.fabs, "abs")):
    unary(f, n)


@model(np.square)
def _(I, x, out=None):
    r = x.map(lambda p: mul(p, p)) if isinstance(x, Arr) else S(mul(to_p(x), to_p(x)))
    return to_out(r, out)


@model(np.reciprocal)
def _(I, x, out=None):
    return to_out(1.0 / x, out)


def binary(np_f, f, dtype=None):
    @model(np_f)
    def m(I, a, b, out=None, **kw):
        if isinstance(a, (Arr, list, tuple)) or isinstance(b, (Arr, list, tuple)):
            return to_out(elementwise(f, a, b, dtype=dtype), out)
        return S(f(to_p(a), to_p(b)), np64=True)


for f, g in ((np.add, add), (np.subtract, sub), (np.multiply, mul), (np.divide, div), (np.power, power),
             (np.maximum, max2), (np.minimum, min2), (np.float_power, power)):
    binary(f, g)
binary(np.equal, lambda a, b: ind(eq(a, b)), "b1")


@model(np.zeros, always=True)
def _(I, shape, dtype=None, order=None):
    return Arr.make(shape_of(shape), lambda i: num(0), dtype_of(dtype), "zeros")


@model(np.ones, always=True)
def _(I, shape, dtype=None, order=None):
    return Arr.make(shape_of(shape), lambda i: num(1), dtype_of(dtype), "ones")


@model(np.empty, always=True)
def _(I, shape, dtype=None, order=None):
    return Arr.symbol(fresh("uninit"), shape_of(shape), dtype_of(dtype))


@model(np.full, always=True)
def _(I, shape, fill_value, dtype=None, order=None):
    v = fill_value
    if isinstance(v, Arr):
        a = Arr.make(shape_of(shape), lambda i: num(0), dtype_of(dtype))
        a._assign(v)
        return a
    p = to_p(v)
    d = dtype_of(dtype) if dtype is not None else ("i8" if isinstance(v, int) else "f8")
    return Arr.make(shape_of(shape), lambda i: p, d, "full")


@model(np.zeros_like, always=True)
def _(I, a, dtype=None):
    a = asarr(a)
    return Arr.make(a._shape, lambda i: num(0), dtype_of(dtype) if dtype is not None else a.buf.dtype)


@model(np.ones_like, always=True)
def _(I, a, dtype=None):
    a = asarr(a)
    return Arr.make(a._shape, lambda i: num(1), dtype_of(dtype) if dtype is not None else a.buf.dtype)


@model(np.empty_like, always=True)
def _(I, a, dtype=None):
    a = asarr(a)
    return Arr.symbol(fresh("uninit"), a._shape, dtype_of(dtype) if dtype is not None else a.buf.dtype)


@model(np.full_like, always=True)
def _(I, a, fill_value, dtype=None):
    v = fill_value
    a = asarr(a)
    p = cast(to_p(v), a.buf.dtype)
    return Arr.make(a._shape, lambda i: p, a.buf.dtype)


@model(np.identity, np.eye, always=True)
def _(I, n, dtype=None):
    n = dim(n)
    return Arr.make([n, n], lambda i: ind(eq(i[0], i[1])), dtype_of(dtype), "identity")


@model(np.arange, always=True)
def _(I, *a, dtype=None):
    if not symbolic(a) and len(a) == 1 and isinstance(a[0], int) or len(a) == 1:
        return Arr.make([dim(a[0])], lambda i: i[0], "i8")
    if len(a) == 2:
        lo = to_p(a[0])
        return Arr.make([sub(to_p(a[1]), lo)], lambda i: add(lo, i[0]), "i8")
    return from_numpy(np.arange(*a))


@model(np.array, np.asarray, np.ascontiguousarray, np.asanyarray, always=True)
def _(I, x, dtype=None, copy=True, order=None, ndmin=0):
    if isinstance(x, SSeq):
        n, el = x.n, x.elem
        probe = el(ivar(fresh("p")))
        if isinstance(probe, Arr):
            return Arr.make([n] + list(probe._shape), lambda i: el(i[0]).at(i[1:]), probe.buf.dtype)
        isint = isinstance(probe, int) or (isinstance(probe, S) and probe.is_int)
        return Arr.make([n], lambda i: to_p(el(i[0])), dtype_of(dtype) if dtype is not None else ("i8" if isint else "f8"))
    if hasattr(x, "to_array"):
        x = x.to_array()
    a = asarr(x)
    d = dtype_of(dtype) if dtype is not None else a.buf.dtype
    r = a.reader()
    return Arr.make(a._shape, lambda i: cast(r(i), d), d)


@model(np.copy, copy.copy, copy.deepcopy)
def _(I, x, *a, **k):
    return deep(x, {})


def deep(x, memo):
    if id(x) in memo:
        return memo[id(x)]
    if isinstance(x, Arr):
        r = x.copy()
    elif isinstance(x, dict):
        r = {k: deep(v, memo) for k, v in x.items()}
        ENG.track.append(r)
    elif isinstance(x, list):
        r = [deep(v, memo) for v in x]
        ENG.track.append(r)
    elif isinstance(x, tuple):
        r = tuple(deep(v, memo) for v in x)
    elif isinstance(x, Obj):
        raise Unsupported("copy of an object")
    else:
        r = x
    memo[id(x)] = r
    return r


@model(copy.copy)
def _(I, x):
    if isinstance(x, Arr):
        return x.copy()
    if isinstance(x, dict):
        r = dict(x)
        ENG.track.append(r)
        return r
    if isinstance(x, list):
        r = list(x)
        ENG.track.append(r)
        return r
    if isinstance(x, Obj):
        o = Obj(x.cls)
        o.attrs = dict(x.attrs)
        return o
    return x


@model(np.copyto)
def _(I, dst, src, where=True):
    if where is not True:
        raise Unsupported("copyto where")
    dst._assign(src)


@model(np.broadcast_to)
def _(I, a, shape, subok=False):
    shp = shape_of(shape)
    a = asarr(a)
    r = broadcast_reader(a, shp)
    v = Arr.make(shp, r, a.buf.dtype)
    v.readonly = True
    return v


@model(np.sum)
def _(I, a, axis=None, dtype=None, out=None, keepdims=False):
    return _arr(a).sum(axis=axis, out=out, keepdims=keepdims)


def _arr(a):
    if isinstance(a, S):
        return asarr(a)
    if isinstance(a, SSeq):
        return Arr.make([a.n], lambda i: to_p(a.elem(i[0])))
    return asarr(a)


@model(np.prod)
def _(I, a, axis=None, dtype=None, out=None, keepdims=False):
    return _arr(a).prod(axis=axis, out=out, keepdims=keepdims)


@model(np.mean)
def _(I, a, axis=None, dtype=None, out=None, keepdims=False):
    return _arr(a).mean(axis=axis, out=out, keepdims=keepdims)


@model(np.average)
def _(I, a, axis=None):
    return _arr(a).mean(axis=axis)


@model(np.var)
def _(I, a, axis=None, ddof=0, keepdims=False):
    return _arr(a).var(axis=axis, ddof=ddof, keepdims=keepdims)


@model(np.std)
def _(I, a, axis=None, ddof=0, keepdims=False):
    return _arr(a).std(axis=axis, ddof=ddof, keepdims=keepdims)


@model(np.amax, np.max, np.nanmax)
def _(I, a, axis=None, out=None, keepdims=False):
    return _arr(a).max(axis=axis, out=out, keepdims=keepdims)


@model(np.amin, np.min, np.nanmin)
def _(I, a, axis=None, out=None, keepdims=False):
    if ascending(a) and out is None and not keepdims:
        return a[0]
    return _arr(a).min(axis=axis, out=out, keepdims=keepdims)


@model(np.all)
def _(I, a, axis=None):
    if isinstance(a, (SB, bool)):
        return a
    if isinstance(a, S):
        return mkbool(b_not(eq(a.p, num(0))))
    return _arr(a).all(axis)


@model(np.any)
def _(I, a, axis=None):
    if isinstance(a, (SB, bool)):
        return a
    if isinstance(a, S):
        return mkbool(b_not(eq(a.p, num(0))))
    return _arr(a).any(axis)


@model(np.array_equal)
def _(I, a, b):
    a, b = asarr(a), asarr(b)
    if a.ndim != b.ndim:
        return False
    for x, y in zip(a._shape, b._shape):
        if not same(x, y) and not ENG.branch(eq(x, y)):
            return False
    return forall(a == b)


@model(np.allclose)
def _(I, a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    """true whenever the two are equal; otherwise undetermined"""
    d = elementwise(lambda x, y: ind(eq(x, y)), _arr(a), _arr(b), dtype="b1")
    close = "close{" if (rtol, atol, bool(equal_nan)) == (1e-05, 1e-08, False) else f"close[{rtol},{atol},{equal_nan}]{{"
    if not isinstance(d, Arr):
        r = mkbool(eq(to_p(a), to_p(b)))
        if r is True:
            return True
        closed(to_p(a), to_p(b))
        return SB(b_or(to_b(r), bvar(close + show(sub(to_p(a), to_p(b))) + "}")))
    r = forall(d)
    if r is True:
        return True
    if r is False:
        return SB(bvar(fresh("allclose")))
    key = r.b.args[0][1] if r.b.op == "atom" else " and ".join(str(x) for a in atoms_b(r.b) for x in a[1:2])
    return SB(b_or(r.b, bvar(close + key + "}"))) if isinstance(r, SB) else r


@model(np.isclose)
def _(I, a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    name = "isclose" if (rtol, atol, bool(equal_nan)) == (1e-05, 1e-08, False) else f"isclose[{rtol},{atol},{equal_nan}]"
    f = lambda x, y: b_or(eq(x, y), bvar(name, [x, y]))
    d = elementwise(lambda x, y: ind(f(x, y)), _arr(a), _arr(b), dtype="b1")
    if isinstance(d, Arr):
        return d
    return mkbool(f(to_p(a), to_p(b)))


@model(np.tri)
def _(I, N, M=None, k=0, dtype=float):
    return Arr.make([dim(N), dim(N if M is None else M)], lambda i: ind(le(i[1], add(i[0], to_p(k)))), dtype_of(dtype))


@model(np.tril)
def _(I, m, k=0):
    m = asarr(m)
    r = m.reader()
    return Arr.make(m._shape, lambda i: mul(ind(le(i[-1], add(i[-2], to_p(k)))), r(i)), m.buf.dtype)


@model(np.triu)
def _(I, m, k=0):
    m = asarr(m)
    r = m.reader()
    return Arr.make(m._shape, lambda i: mul(ind(le(add(i[-2], to_p(k)), i[-1])), r(i)), m.buf.dtype)


@model(scipy.linalg.expm)
def _(I, a):
    """an opaque function of the matrix; orthonormal if the matrix is skew symmetric"""
    a = asarr(a)
    if a.ndim != 2:
        raise Unsupported("expm of a stack")
    if not (same(*a._shape) or ENG.branch(eq(*a._shape))):
        raise SymRaise(ValueError, "expected a square matrix")
    xs = [ivar(fresh("x")), ivar(fresh("x"))]
    hyps = list(ENG.hyps) + PV.ranges_of(xs, a._shape)
    r = a.reader()
    content = PV.simp(r(xs), hyps)
    canon = substitute(content, {vname(x): ivar(f"$m{i}") for i, x in enumerate(xs)})
    closed(canon)
    name = f"expm<{show(canon)}>"
    e = Arr.make(a._shape, lambda i: app(name, list(i)), "f8", name)
    if PV.prove_eq(add(r(xs), r(xs[::-1])), num(0), hyps):
        t = MODELS[np.allclose](I, e.dot(e.T), MODELS[np.eye](I, S(a._shape[0])))
        if isinstance(t, SB):
            ENG.assume(t.b)
    return e


@model(np.roll)
def _(I, a, shift, axis=None):
    if axis is None:
        if a.ndim != 1:
            raise Unsupported("roll of a flattened array")
        axis = 0
    axis = axis % a.ndim
    n = a._shape[axis]
    s = to_p(shift)
    r = a.reader()

    def f(idx):
        j = list(idx)
        j[axis] = mod(sub(idx[axis], s), n)
        return r(j)
    return Arr.make(a._shape, f, a.buf.dtype)


@model(np.swapaxes)
def _(I, a, x, y):
    return a.swapaxes(x, y)


@model(np.transpose)
def _(I, a, axes=None):
    return a.transpose(*(axes or ()))


@model(np.moveaxis)
def _(I, a, s, d):
    nd = a.ndim
    s, d = s % nd, d % nd
    order = [i for i in range(nd) if i != s]
    order.insert(d, s)
    return a.transpose(*order)


@model(np.reshape)
def _(I, a, shape):
    return a.reshape(shape)


@model(np.expand_dims)
def _(I, a, axis):
    nd = a.ndim + 1
    shp = list(a._shape)
    shp.insert(axis % nd, num(1))
    return a.reshape(*shp)


@model(np.squeeze)
def _(I, a, axis=None):
    return a.squeeze(axis)


@model(np.trace)
def _(I, a, offset=0, axis1=0, axis2=1, dtype=None, out=None):
    return to_out(a.trace(offset, axis1, axis2), out)


@model(np.diagonal)
def _(I, a, offset=0, axis1=0, axis2=1):
    return a.diagonal(offset, axis1, axis2)


@model(np.diag)
def _(I, a, k=0):
    if k != 0:
        raise Unsupported("diag offset")
    if a.ndim == 2:
        return a.diagonal()
    r = a.reader()
    n = a._shape[0]
    return Arr.make([n, n], lambda i: ite(eq(i[0], i[1]), r([i[0]]), num(0)), a.buf.dtype)


@model(np.fill_diagonal)
def _(I, a, v, wrap=False):
    if a.ndim != 2:
        raise Unsupported("fill_diagonal")
    if not same(a._shape[0], a._shape[1]):
        raise Unsupported("fill_diagonal of a non square array")
    old = a.reader()
    if isinstance(v, (Arr, list)):
        r = broadcast_reader(asarr(v), [a._shape[0]])
        a.write(lambda i: ite(eq(i[0], i[1]), r([i[0]]), old(i)))
    else:
        p = to_p(v)
        a.write(lambda i: ite(eq(i[0], i[1]), p, old(i)))


@model(np.diag_indices)
def _(I, n, ndim=2):
    n = dim(n)
    return tuple(Arr.make([n], lambda i: i[0], "i8") for _ in range(ndim))


@model(np.dot)
def _(I, a, b, out=None):
    return to_out(dot(asarr(a), asarr(b)), out)


@model(np.matmul)
def _(I, a, b, out=None):
    return to_out(matmul(asarr(a), asarr(b)), out)


@model(np.outer)
def _(I, a, b):
    return a[:, None] * b[None, :]


@model(np.linalg.multi_dot)
def _(I, xs):
    r = xs[0]
    for x in xs[1:]:
        r = dot(r, x)
    return r


@model(np.where)
def _(I, c, *ab):
    if not ab:
        raise Unsupported("where with one argument")
    a, b = ab
    if isinstance(c, SB):
        return elementwise(lambda x, y: ite(c.b, x, y), a, b)
    return elementwise(lambda cc, x, y: ite(b_not(eq(cc, num(0))), x, y) if not cc.is_int else add(y, mul(cc, sub(x, y))), c, a, b, dtype="f8")


@model(np.concatenate, np.append)
def _(I, xs, *rest, axis=0, **kw):
    if not isinstance(xs, (list, tuple)):
        xs = [xs, rest[0]]
        rest = rest[1:]
    if rest:
        axis = rest[0]
    xs = [asarr(x) for x in xs]
    axis = axis % xs[0].ndim
    rs = [x.reader() for x in xs]
    ns = [x._shape[axis] for x in xs]
    shp = list(xs[0]._shape)
    shp[axis] = add(*ns)

    def f(idx):
        off = num(0)
        pieces = []
        for r, n in zip(rs, ns):
            j = list(idx)
            j[axis] = sub(idx[axis], off)
            off = add(off, n)
            pieces.append((lt(idx[axis], off), r, j))
        t = pieces[-1][1](pieces[-1][2])
        for c, r, j in reversed(pieces[:-1]):
            t = ite(c, r(j), t)
        return t
    return Arr.make(shp, f, xs[0].buf.dtype)


@model(np.stack)
def _(I, xs, axis=0):
    return asarr(list(xs)) if axis == 0 else _unsup("stack axis")


def _unsup(x):
    raise Unsupported(x)


@model(np.delete)
def _(I, a, i, axis=None):
    if a.ndim != 1:
        raise Unsupported("delete")
    p = to_p(i)
    n = a._shape[0]
    r = a.reader()
    return Arr.make([sub(n, num(1))], lambda j: ite(lt(j[0], p), r(j), r([add(j[0], num(1))])), a.buf.dtype)


@model(np.einsum)
def _(I, sub_, *ops, out=None, optimize=None, **kw):
    s = sub_.replace(" ", "")
    ops = [asarr(o) for o in ops]
    if "->" in s:
        lhs, rhs = s.split("->")
    else:
        lhs = s
        letters = sorted(set(lhs.replace(",", "")))
        rhs = "".join(c for c in letters if lhs.count(c) == 1)
    ins = lhs.split(",")
    if "." in s:
        # give every ellipsis dimension its own letter
        pool = [c for c in "ABCDEFGHIJKLMNOPQRSTUVWXYZ" if c not in s]
        nd = max(o.ndim - len(i.replace("...", "")) for i, o in zip(ins, ops) if "..." in i)
        el = "".join(pool[:nd])
        ins = [i.replace("...", el[len(el) - (o.ndim - len(i.replace("...", ""))):] if o.ndim > len(i.replace("...", "")) else "") for i, o in zip(ins, ops)]
        rhs = rhs.replace("...", el)
    if len(ins) != len(ops):
        raise SymRaise(ValueError, "einsum operand count")
    ext = {}
    for i, o in zip(ins, ops):
        if len(i) != o.ndim:
            raise SymRaise(ValueError, "einsum subscripts do not match operand")
        for c, n in zip(i, o._shape):
            if c in ext and ext[c].const != 1:
                if n.const == 1:
                    continue
                if not same(ext[c], n):
                    if not ENG.branch(eq(ext[c], n)):
                        raise SymRaise(ValueError, f"einsum dimension mismatch {c}: {ext[c]} {n}", maybe=True)
            else:
                ext[c] = n
    for c in rhs:
        if c not in ext:
            raise SymRaise(ValueError, "einsum output")
    rs = [o.reader() for o in ops]
    shapes = [o._shape for o in ops]
    contracted = [c for c in ext if c not in rhs]

    def f(idx):
        env = dict(zip(rhs, idx))
        bs = []
        for c in contracted:
            env[c] = ivar(fresh("e"))
            bs.append(env[c])
        t = num(1)
        for i, r, sh in zip(ins, rs, shapes):
            t = mul(t, r([num(0) if n.const == 1 and ext[c].const != 1 else env[c] for c, n in zip(i, sh)]))
        return sum_over(bs, [ext[c] for c in contracted], t)
    shp = [ext[c] for c in rhs]
    if not shp:
        return mkscalar(f([]))
    res = Arr.make(shp, f)
    if out is not None:
        # evaluated before the output is overwritten
        return to_out(res, out)
    return res


@model(np.linalg.eigh)
def _(I, a, UPLO="L"):
    """eigen-decomposition: functions of the matrix content (and batch index)"""
    note("numpy.linalg.eigh", "returns ascending eigenvalues and an orthonormal eigenvector matrix of each symmetric matrix in the stack")
    if not same(a._shape[-1], a._shape[-2]):
        raise SymRaise(np.linalg.LinAlgError, "Last 2 dimensions of the array must be square", maybe=True)
    nd = a.ndim
    xs = [ivar(f"$e{i}") for i in range(nd)]
    hyps = list(ENG.hyps) + PV.ranges_of(xs, a._shape)
    content = PV.simp(a.reader()(xs), hyps)
    own = [vname(x) for x in xs]
    frees, canon = T.canonical(content, own)
    key = show(canon)
    lam, vec = f"eigval<{key}>", f"eigvec<{key}>"
    from . import contract as CT
    lead = [ivar(f[0]) for f in frees]
    shp = list(a._shape)

    def both(env, fixed):
        """eigen-decomposition for given values of the leading (loop) variables"""
        k = ("eigh", key, fixed)
        memo = env.__dict__.setdefault("eigh", {})
        if k not in memo:
            bd = {f"$f{i}": v for i, v in enumerate(fixed)}
            dims = [int(evaluate(d, env)) for d in shp]
            m = np.zeros(dims)
            mp, T.MP = T.MP, False
            try:
                for idx in itertools.product(*[range(d) for d in dims]):
                    m[idx] = float(evaluate(canon, env, dict(bd, **{o[0]: v for o, v in zip(own, idx)})))
            finally:
                T.MP = mp
            memo[k] = np.linalg.eigh(m)
        return memo[k]
    nl = len(lead)
    CT.DERIVED[lam] = lambda env: (lambda *i: CT.Cell(both(env, tuple(int(x) for x in i[:nl]))[0])(*i[nl:]))
    CT.DERIVED[vec] = lambda env: (lambda *i: CT.Cell(both(env, tuple(int(x) for x in i[:nl]))[1])(*i[nl:]))
    w = Arr.make(shp[:-1], lambda idx: app(lam, lead + list(idx)), "f8", lam)
    v = Arr.make(shp, lambda idx: app(vec, lead + list(idx)), "f8", vec)
    return (w, v)


@model(np.linalg.eigvalsh)
def _(I, a, UPLO="L"):
    return MODELS[np.linalg.eigh](I, a, UPLO)[0]


def ascending(a):
    """eigenvalues are in ascending order"""
    return isinstance(a, Arr) and a.ndim == 1 and str(a.buf.name or "").startswith("eigval<") and same(a._shape[0], a.buf.shape[0])


@model(scipy.linalg.circulant)
def _(I, c):
    c = asarr(c)
    r = c.reader()
    n = c._shape[0]
    return Arr.make([n, n], lambda i: r([mod(sub(i[0], i[1]), n)]), c.buf.dtype)


@model(np.isnan)
def _(I, a):
    if isinstance(a, Arr):
        return a.map(lambda p: ind(bvar("isnan", [p])), "b1")
    return SB(bvar("isnan", [to_p(a)]))


@model(np.set_printoptions, always=True)
def _(I, *a, **k):
    return None


@model(print, always=True)
def _(I, *a, sep=" ", end="\n", file=None, flush=False):
    if isinstance(file, ClassModel) and hasattr(file, "write"):
        from .strings import SStr, wrap, text_of
        if not all(isinstance(x, (str, SStr)) for x in a):
            raise Unsupported("printing values into a file")
        sep, end = (" " if sep is None else sep), ("\n" if end is None else end)
        t = text_of("")
        for j, x in enumerate(a):
            t = t + text_of(sep) + text_of(x) if j else text_of(x)
        file.write(wrap(t + text_of(end)))
    return None


@model(collections.Counter)
def _(I, *a):
    return None


@model(len)
def _(I, x):
    if isinstance(x, Arr):
        if not x._shape:
            raise SymRaise(TypeError, "len() of unsized object")
        return mkS(x._shape[0])
    if isinstance(x, (SSeq, SRange)):
        return mkS(x.n)
    if hasattr(x, "length"):
        return x.length()
    if isinstance(x, Obj):
        raise Unsupported("len(object)")
    try:
        return len(x)
    except TypeError as e:
        raise SymRaise(TypeError, str(e))


@model(abs)
def _(I, x):
    return abs(x)


@model(pow)
def _(I, a, b, m=None):
    if m is not None:
        raise Unsupported("modular power")
    return a ** b


@model(divmod)
def _(I, a, b):
    return (a // b, a % b)


@model(min)
def _(I, *a, **k):
    if len(a) == 1 and not k and ascending(a[0]):
        return a[0][0]
    return _mm(I, a, k, min2, lambda x: x.min())


@model(max)
def _(I, *a, **k):
    return _mm(I, a, k, max2, lambda x: x.max())


def _mm(I, a, k, f, g):
    if k:
        raise Unsupported("min/max key")
    if len(a) == 1:
        if isinstance(a[0], Arr):
            return g(a[0])
        a = I.iterate(a[0])
    p = to_p(a[0])
    for x in a[1:]:
        p = f(p, to_p(x))
    return mkS(p) if p.is_int else S(p)


@model(sum)
def _(I, x, start=0):
    if I.lazy(x):
        n, el = I.seq_view(x)
        j = ivar(fresh("s"))
        v = el(j)
        if isinstance(v, Arr):
            return Arr.make(v._shape, lambda i: add(Sum([(j, n)], v.at(i)), to_p(start)), v.buf.dtype)
        return S(add(Sum([(j, n)], to_p(v)), to_p(start)))
    r = start
    for v in I.iterate(x):
        r = r + v
    return r


@model(any)
def _(I, x):
    if isinstance(x, Arr):
        return x.any()
    if I.lazy(x):
        raise Unsupported("any over a symbolic sequence")
    return any(I.truth(v) for v in I.iterate(x))


@model(all)
def _(I, x):
    if isinstance(x, Arr):
        return x.all()
    if I.lazy(x):
        n, el = I.seq_view(x)
        return forall(Arr.make([n], lambda i: ind(to_b(el(i[0]))), "b1"))
    return all(I.truth(v) for v in I.iterate(x))


@model(isinstance)
def _(I, x, t):
    ts = t if isinstance(t, tuple) else (t,)
    if isinstance(x, Obj):
        return x.cls is not None and any(issubclass(x.cls, k) for k in ts if isinstance(k, type))
    if isinstance(x, Arr):
        return np.ndarray in ts
    if isinstance(x, S):
        if x.is_int:
            return any(k in (int, object) for k in ts)
        return any(k in (float, object) for k in ts)
    if hasattr(x, "isinstance_"):
        return x.isinstance_(ts)
    if isinstance(x, SB):
        return bool in ts
    return isinstance(x, t)


@model(hasattr)
def _(I, x, n):
    if isinstance(x, Obj):
        if n in x.attrs:
            return True
        return x.cls is not None and hasattr(x.cls, n)
    return hasattr(x, n)


@model(getattr)
def _(I, x, n, *d):
    try:
        return I.getattr(x, n)
    except SymRaise:
        if d:
            return d[0]
        raise


@model(setattr)
def _(I, x, n, v):
    I.setattr(x, n, v)


@model(delattr)
def _(I, x, n):
    I.delattr(x, n)


@model(round)
def _(I, x, n=0):
    raise Unsupported("round")


@model(np.float64, float, always=False)
def _(I, x=0.0):
    return I.builtin_type(float, [x], {})


@model(callable)
def _(I, x):
    return isinstance(x, (Closure, Bound)) or callable(x)


@model(itertools.starmap)
def _(I, f, it):
    return [I.call(f, tuple(a)) for a in I.iterate(it)]




# ---------------------------------------------------------------- randomness
# every call returns fresh standard draws, numbered in program order; the concrete counterpart
# (class Draws) replays the same numbering on the real code
def _draw(kind, shape, dtype="f8"):
    """the n-th draw of the program; inside loops one family of draws indexed by the iteration"""
    n = ENG.ghost.get("draws", 0)
    ENG.ghost = dict(ENG.ghost, draws=n + 1)
    ENG.draw_high = max(ENG.draw_high, n + 1)
    nm = f"{kind}#{n}"
    if dtype == "i8":
        T.INTAPP.add(nm)
    lv = list(ENG.loopvars)
    return nm, Arr.make([dim(x) for x in shape], lambda idx: app(nm, lv + list(idx)), dtype, nm)


@model(np.random.normal, always=True)
def _(I, loc=0.0, scale=1.0, size=None):
    note("numpy.random.normal", "independent draws loc + scale*Z with Z standard normal")
    shp = shape_of(size) if size is not None else broadcast_shapes([x._shape for x in (loc, scale) if isinstance(x, Arr)])
    for x in (loc, scale):
        if isinstance(x, Arr):
            full = broadcast_shapes([x._shape, shp])
            if len(full) != len(shp) or not all(same(a, b) for a, b in zip(full, shp)):
                raise SymRaise(ValueError, "shape mismatch in np.random.normal", maybe=True)
    _, z = _draw("Z", shp)
    r1 = broadcast_reader(asarr(loc), shp)
    r2 = broadcast_reader(asarr(scale), shp)
    rz = z.reader()
    return Arr.make(shp, lambda i: add(r1(i), mul(r2(i), rz(i))))


@model(np.random.standard_normal, np.random.randn, always=True)
def _(I, *size, **kw):
    size = kw.get("size", size[0] if len(size) == 1 else size)
    return _draw("Z", shape_of(size))[1]


@model(np.random.random, np.random.random_sample, np.random.rand, always=True)
def _(I, *size, **kw):
    note("numpy.random.random", "independent uniform draws")
    size = kw.get("size", size[0] if len(size) == 1 else size)
    return _draw("U", shape_of(size))[1]


@model(np.random.uniform, always=True)
def _(I, low=0.0, high=1.0, size=None):
    u = _draw("U", shape_of(size))[1]
    return u * (high - low) + low


@model(np.random.choice, always=True)
def _(I, a, size=None, replace=True, p=None):
    note("numpy.random.choice", "independent draws from the given range with the given probabilities")
    nm, arr = _draw("K", shape_of(size), "i8")
    n = a.n if isinstance(a, (SRange,)) else (to_p(a) if isinstance(a, (int, S)) else num(len(a)))
    if isinstance(a, SRange) and not same(a.elem(num(0)) if isinstance(a.elem(num(0)), P) else to_p(a.elem(num(0))), num(0)):
        raise Unsupported("choice from a range that does not start at 0")
    T.BOUNDS[nm] = (num(0), n)
    CHOICES[nm] = (n, p.copy() if isinstance(p, Arr) else p, replace)
    h = ENG.ghost.get("choices", ())
    ENG.ghost = dict(ENG.ghost, choices=h + ((nm, n, p.copy() if isinstance(p, Arr) else p, replace),))
    return arr


CHOICES = {}


@model(np.savez, always=True)
def _(I, path, *a, **kw):
    note("numpy.savez", "stores copies of exactly the given arrays under the given keys at the given path")
    if a:
        raise Unsupported("positional arrays in savez")
    rec = (path, {k: v.copy() if isinstance(v, Arr) else v for k, v in kw.items()})
    ENG.ghost = dict(ENG.ghost, saved=ENG.ghost.get("saved", ()) + (rec,))


@model(np.random.seed, always=True)
def _(I, *a):
    if any(x is not None for x in a):
        raise Failure("draws are independent", "the generator is restarted with a fixed seed")
    return None
