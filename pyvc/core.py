"""Symbolic values and the exploration engine."""
from fractions import Fraction
import numpy as np
import itertools
from .terms import *
from . import terms as T
from . import prove as PV


Unsupported = T.Unsupported      # the construct is outside the verifier's reach (never an alarm by itself)


class SymRaise(Exception):
    """the interpreted program raises"""
    def __init__(self, exc, msg="", maybe=False):
        super().__init__(f"{getattr(exc, '__name__', exc)}: {msg}")
        self.exc, self.msg, self.maybe = exc, msg, maybe


class Infeasible(Exception):
    """the current path contradicts the assumptions"""


class Failure(Exception):
    """an obligation inside the execution failed"""
    def __init__(self, name, detail=""):
        super().__init__(f"{name}: {detail}")
        self.name, self.detail = name, detail


class Engine:
    def __init__(self):
        self.reset()
        self.contracts = {}          # function key -> Contract (used at call sites)
        self.obligations = []        # dicts
        self.max_paths = 200

    loopvars = []
    draw_high = 0

    pristine = {}

    def reset(self):
        for t, s in self.pristine.values():
            _native_restore(t, s)
        self.pristine = {}
        self.loopvars, self.draw_high = [], 0
        self.hyps = []
        self.track = []              # mutable things
        self.frames = []
        self.prefix = None
        self.pos = 0
        self.taken = []
        self.ghost = {}
        self.steps = 0
        self.nondet = 0

    # ---------------- assumptions and decisions
    def assume(self, b):
        if b.op == "false":
            raise Infeasible()
        if b.op != "true":
            self.hyps.append(b)

    def entails(self, b):
        return PV.entails(self.hyps, b)

    def branch(self, b):
        """decide a symbolic condition, forking when both outcomes are possible"""
        d = PV.decide(self.hyps, b)
        if d == "T":
            return True
        if d == "F":
            return False
        b2 = PV.map_b(b, lambda c: PV.simp_cond(c, self.hyps, {}))
        if b2 != b:
            d = PV.decide(self.hyps, b2)
            if d:
                return d == "T"
        if self.prefix is None:
            raise Unsupported(f"undecided condition outside an exploration: {b}")
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
        else:
            v = True
            self.prefix.append(v)
        self.pos += 1
        self.taken.append((b, v))
        self.assume(b if v else b_not(b))
        return v

    def snapshot(self):
        return ([(t, t.get_state() if hasattr(t, "get_state") else _native_state(t)) for t in self.track],
                list(self.hyps), [dict(f) for f in self.frames], len(self.track), dict(self.ghost))

    def restore(self, snap):
        tr, hyps, frames, n, ghost = snap
        for t, s in tr:
            if hasattr(t, "set_state"):
                t.set_state(s)
            else:
                _native_restore(t, s)
        self.hyps = list(hyps)
        for f, old in zip(self.frames, frames):
            f.clear()
            f.update(old)
        self.ghost = dict(ghost)
        if self.pristine:
            have = {id(t) for t, _ in tr}
            for t, s in self.pristine.values():
                if id(t) not in have:
                    _native_restore(t, s)

    def keep_pristine(self, v):
        """mutable state of a class or module: changes are tracked and undone when a path is left"""
        if id(v) in self.pristine:
            if not any(t is v for t in self.track):
                self.track.append(v)
            return
        self.pristine[id(v)] = (v, _native_state(v))
        self.track.append(v)
        for x in (v.values() if isinstance(v, dict) else v):
            if type(x) in (dict, list, set):
                self.keep_pristine(x)

    def explore(self, thunk):
        """run thunk on every feasible path from the current state.
        yields (path condition list, outcome, snapshot, hyps); leaves the state as it was"""
        saved = (self.prefix, self.pos, self.taken)
        snap = self.snapshot()
        base = len(self.hyps)
        out = []
        prefix = []
        try:
            while True:
                self.prefix, self.pos, self.taken = list(prefix), 0, []
                self.restore(snap)
                try:
                    res = ("ok", thunk())
                except SymRaise as e:
                    res = ("raise", e)
                except Infeasible:
                    res = None
                except Failure as e:
                    res = ("fail", e)
                if res is not None:
                    out.append((list(self.taken), res, self.snapshot(), list(self.hyps[base:])))
                if len(out) > self.max_paths:
                    raise Unsupported("too many paths")
                full = self.prefix
                # next prefix
                while full and full[-1] is False:
                    full.pop()
                if not full:
                    break
                full[-1] = False
                prefix = full
        finally:
            self.prefix, self.pos, self.taken = saved
            self.restore(snap)
        return out


def _native_state(t):
    if isinstance(t, list):
        return list(t)
    if isinstance(t, dict):
        return dict(t)
    if isinstance(t, set):
        return set(t)
    raise Unsupported("state of " + str(type(t)))


def _native_restore(t, s):
    if isinstance(t, list):
        t[:] = s
    else:
        t.clear()
        t.update(s)


ENG = Engine()


# ---------------------------------------------------------------- scalars
class S:
    """symbolic number"""
    __slots__ = ("p", "np64")
    __array_priority__ = 1000

    def __init__(self, p, np64=False):
        self.p = num(p)
        self.np64 = np64

    @property
    def is_int(self):
        return self.p.is_int

    def __repr__(self):
        return f"S({self.p})"

    def _c(self, o):
        if isinstance(o, S):
            return o.p
        if isinstance(o, SB):
            return ind(o.b)
        if isinstance(o, (bool, int, float, Fraction, np.integer, np.floating)):
            return to_p(o)
        return None

    def _bin(self, o, f):
        x = self._c(o)
        if x is None:
            return NotImplemented
        return S(f(self.p, x))

    def __add__(self, o): return self._bin(o, add)
    __radd__ = __add__
    def __sub__(self, o): return self._bin(o, sub)
    def __rsub__(self, o): return self._bin(o, lambda a, b: sub(b, a))
    def __mul__(self, o): return self._bin(o, mul)
    __rmul__ = __mul__

    def __truediv__(self, o): return self._bin(o, div)
    def __rtruediv__(self, o): return self._bin(o, lambda a, b: div(b, a))
    def __pow__(self, o): return self._bin(o, power)
    def __rpow__(self, o): return self._bin(o, lambda a, b: power(b, a))
    def __floordiv__(self, o): return self._bin(o, fdiv)
    def __rfloordiv__(self, o): return self._bin(o, lambda a, b: fdiv(b, a))
    def __mod__(self, o): return self._bin(o, mod)
    def __rmod__(self, o): return self._bin(o, lambda a, b: mod(b, a))
    def __neg__(self): return S(neg(self.p))
    def __pos__(self): return self
    def __abs__(self): return S(fn("abs", self.p))

    def _cmp(self, o, f):
        x = self._c(o)
        if x is None:
            return NotImplemented
        return mkbool(f(self.p, x))

    def __lt__(self, o): return self._cmp(o, lt)
    def __le__(self, o): return self._cmp(o, le)
    def __gt__(self, o): return self._cmp(o, lambda a, b: lt(b, a))
    def __ge__(self, o): return self._cmp(o, lambda a, b: le(b, a))

    def __eq__(self, o):
        x = self._c(o)
        if x is None:
            return False
        return mkbool(eq(self.p, x))

    def __ne__(self, o):
        x = self._c(o)
        if x is None:
            return True
        return mkbool(b_not(eq(self.p, x)))

    def __hash__(self):
        return hash(self.p)

    def __bool__(self):
        return ENG.branch(b_not(eq(self.p, num(0))))

    def __index__(self):
        c = self.p.const
        if c is None or c.denominator != 1:
            raise Unsupported(f"symbolic integer used where a concrete one is needed: {self.p}")
        return int(c)

    # ndarray-scalar like
    def copy(self): return self
    def item(self): return self
    def sum(self, axis=None): return self
    @property
    def shape(self): return ()
    @property
    def real(self): return self


def to_p(x):
    if isinstance(x, S):
        return x.p
    if isinstance(x, SB):
        return ind(x.b)
    if isinstance(x, P):
        return x
    if isinstance(x, (bool, np.bool_)):
        return num(int(x))
    if isinstance(x, (int, np.integer)):
        return num(int(x))
    if isinstance(x, Fraction):
        return num(x)
    if isinstance(x, (float, np.floating)):
        if x != x:
            return var("NaN")
        if x in (float("inf"), float("-inf")):
            return var("Inf") if x > 0 else neg(var("Inf"))
        return num(float(x))
    if isinstance(x, Arr) and not x._shape:
        return x.at([])
    raise Unsupported(f"not a number: {type(x)}")


def mkS(p):
    """concrete ints stay Python ints"""
    p = num(p)
    c = p.const
    if c is not None and c.denominator == 1:
        return int(c)
    return S(p)


class SB:
    """symbolic boolean"""
    __slots__ = ("b",)

    def __init__(self, b):
        self.b = b

    def __bool__(self):
        return ENG.branch(self.b)

    def __and__(self, o): return mkbool(b_and(self.b, to_b(o)))
    __rand__ = __and__
    def __or__(self, o): return mkbool(b_or(self.b, to_b(o)))
    __ror__ = __or__
    def __invert__(self): return mkbool(b_not(self.b))
    def __eq__(self, o):
        if isinstance(o, (bool, np.bool_)):
            return self if o else mkbool(b_not(self.b))
        return False
    def __ne__(self, o):
        r = self.__eq__(o)
        return ~r if isinstance(r, SB) else not r
    def __hash__(self): return hash(self.b)
    def __repr__(self): return f"SB({self.b})"
    def all(self, *a): return self
    def any(self, *a): return self


def mkbool(b):
    if b.op == "true":
        return True
    if b.op == "false":
        return False
    return SB(b)


def to_b(x):
    if isinstance(x, SB):
        return x.b
    if isinstance(x, (bool, np.bool_)):
        return TRUE if x else FALSE
    if isinstance(x, S):
        return b_not(eq(x.p, num(0)))
    return TRUE if x else FALSE


def dim(x):
    return to_p(x)


def same(a, b):
    """dimension equality under the current hypotheses"""
    return a is b or ENG.entails(eq(a, b))


# ---------------------------------------------------------------- arrays
class Buf:
    """storage of an array: content is a function from index terms to a term"""
    def __init__(self, shape, fn, dtype="f8", name=None):
        self.shape = tuple(dim(s) for s in shape)
        self.fn = fn
        self.dtype = dtype
        self.name = name or "buf"
        self.writes = 0
        self.log = None
        ENG.track.append(self)

    def get_state(self):
        return (self.fn, self.writes)

    def set_state(self, s):
        self.fn, self.writes = s


def cast(p, dtype):
    if dtype == "i8" and not p.is_int:
        return fn("trunc", p)
    if dtype == "f4":
        c = p.const
        if c is not None and c.denominator in (1, 2, 4, 8):
            return p
        return fn("f32", p)
    return p


class Arr:
    """numpy-like array: a view on a Buf"""
    __array_priority__ = 2000

    def __init__(self, buf, shape=None, fwd=None, inv=None, readonly=False):
        self.buf = buf
        self._shape = tuple(shape) if shape is not None else buf.shape
        self.fwd = fwd or (lambda idx: idx)
        # inv: buffer index -> (condition, view index)
        self.inv = inv or (lambda b: (TRUE, b))
        self.readonly = readonly

    # ------- construction
    @staticmethod
    def make(shape, fn, dtype="f8", name=None):
        memo = {}

        def f(idx):
            k = tuple(idx)
            r = memo.get(k)
            if r is None:
                r = memo[k] = num(fn(list(idx)))
            return r
        return Arr(Buf(shape, f, dtype, name))

    @staticmethod
    def symbol(name, shape, dtype="f8"):
        if dtype == "i8":
            T.INTAPP.add(name)
        return Arr.make(shape, lambda idx: app(name, idx), dtype, name)

    @property
    def dtype(self):
        return DType(self.buf.dtype)

    @property
    def shape(self):
        return tuple(mkS(s) for s in self._shape)

    @property
    def ndim(self):
        return len(self._shape)

    @property
    def size(self):
        return mkS(mul(*self._shape)) if self._shape else 1

    @property
    def T(self):
        return self.transpose()

    @property
    def real(self):
        return self

    @property
    def flat(self):
        raise Unsupported("flat")

    def __len__(self):
        c = self._shape[0].const
        if c is None:
            raise Unsupported("len() of a symbolic dimension through native code")
        return int(c)

    def __bool__(self):
        if not self._shape:
            return bool(S(self.at([])))
        raise Unsupported("truth value of an array")

    def __iter__(self):
        c = self._shape[0].const
        if c is None:
            raise Unsupported("iteration over a symbolic dimension")
        return iter([self[i] for i in range(int(c))])

    def at(self, idx):
        """term at view index (list of P), reading the current content"""
        return self.buf.fn(tuple(self.fwd([num(i) for i in idx])))

    def reader(self):
        """snapshot of the content"""
        f, fwd = self.buf.fn, self.fwd
        return lambda idx: f(tuple(fwd([num(i) for i in idx])))

    def write(self, valuefn, where=None):
        """overwrite the viewed cells: valuefn(view index) -> term"""
        if self.readonly:
            raise SymRaise(ValueError, "assignment destination is read-only")
        old, inv, dt = self.buf.fn, self.inv, self.buf.dtype
        memo = {}

        def f(b):
            b = tuple(b)
            r = memo.get(b)
            if r is None:
                c, idx = inv(list(b))
                if c.op == "false":
                    r = old(b)
                else:
                    v = cast(num(valuefn(idx)), dt)
                    r = v if c.op == "true" else ite(c, v, old(b))
                memo[b] = r
            return r
        self.buf.fn = f
        self.buf.writes += 1
        if self.buf.log is not None:
            self.buf.log.append(inv)

    # ------- views
    def __getitem__(self, key):
        v, scalar = self._view(key)
        if scalar:
            return mkscalar(v.at([]))
        return v

    def __setitem__(self, key, value):
        v, scalar = self._view(key)
        v._assign(value)

    def _assign(self, value):
        if isinstance(value, (list, tuple)):
            value = asarr(value)
        if isinstance(value, Arr):
            r = broadcast_reader(value, self._shape)
            self.write(r)
        else:
            if hasattr(value, "to_float") and getattr(value, "py_type", None) is str:
                value = value.to_float()        # numpy reads the number a text denotes
            p = to_p(value)
            self.write(lambda idx: p)

    def _view(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        nspec = sum(1 for k in key if k is not None and k is not Ellipsis)
        if not any(k is Ellipsis for k in key):
            key = key + (Ellipsis,)
        full = []
        for k in key:
            if k is Ellipsis:
                full += [slice(None)] * (self.ndim - nspec)
            else:
                full.append(k)
        if any(isinstance(k, Arr) for k in full):
            return self._fancy(full)
        if any(isinstance(k, (list, np.ndarray)) for k in full):
            full = [asarr(k) if isinstance(k, (list, np.ndarray)) else k for k in full]
            return self._fancy(full)
        axis = 0
        spec = []    # per output / input axis
        newshape = []
        for k in full:
            if k is None:
                spec.append(("new",))
                newshape.append(num(1))
                continue
            if axis >= self.ndim:
                raise SymRaise(IndexError, "too many indices for array")
            n = self._shape[axis]
            if isinstance(k, slice):
                st, ln, step = norm_slice(k, n)
                spec.append(("slice", axis, st, step, ln))
                newshape.append(ln)
            else:
                i = norm_index(k, n)
                spec.append(("fix", axis, i))
            axis += 1
        fwd0, inv0 = self.fwd, self.inv

        def fwd(idx):
            out, j = [], 0
            for s in spec:
                if s[0] == "new":
                    j += 1
                elif s[0] == "fix":
                    out.append(s[2])
                else:
                    out.append(add(s[2], mul(num(s[3]), idx[j])))
                    j += 1
            return fwd0(out)

        def inv(b):
            c, idx = inv0(b)
            out, conds = [], [c]
            for s in spec:
                if s[0] == "new":
                    out.append(num(0))
                elif s[0] == "fix":
                    conds.append(eq(idx[s[1]], s[2]))
                else:
                    _, ax, st, step, ln = s
                    if step == 1:
                        e = sub(idx[ax], st)
                        if not (st.const == 0 and ln is self._shape[ax]):
                            conds.append(le(num(0), e))
                            conds.append(lt(e, ln))
                        out.append(e)
                    elif step == -1:
                        e = sub(st, idx[ax])
                        if not ln is self._shape[ax]:
                            conds.append(le(num(0), e))
                            conds.append(lt(e, ln))
                        out.append(e)
                    else:
                        raise Unsupported("strided write")
            return b_and(*conds), out
        v = Arr(self.buf, newshape, fwd, inv, self.readonly)
        return v, (not newshape)

    def _fancy(self, full):
        arrs = [(j, k) for j, k in enumerate(full) if isinstance(k, Arr)]
        if len(arrs) != 1 or any(k is None for k in full[:arrs[0][0]]):
            # allow several only when all are 1-d of equal length and adjacent
            if len(arrs) == 2 and all(k.ndim == 1 for _, k in arrs) and arrs[1][0] == arrs[0][0] + 1 and not any(k is None for k in full):
                (j0, k0), (j1, k1) = arrs
                n = k0._shape[0]
                if not same(n, k1._shape[0]):
                    raise SymRaise(IndexError, "shape mismatch")
                rest = [slice(None) if i in (j0, j1) else k for i, k in enumerate(full)]
                if any(rest[i] != slice(None) for i in range(len(rest)) if i not in (j0, j1)):
                    raise Unsupported("mixed fancy indexing")
                r0, r1 = k0.reader(), k1.reader()
                if k0.buf.dtype == "b1" or k1.buf.dtype == "b1":
                    raise Unsupported("boolean masks")
                src = self
                shp = list(self._shape[:j0]) + [n] + list(self._shape[j1 + 1:])
                fwd0, inv0 = self.fwd, self.inv

                def fwd(idx):
                    return fwd0(list(idx[:j0]) + [r0([idx[j0]]), r1([idx[j0]])] + list(idx[j0 + 1:]))
                diag = None
                # np.arange style index arrays: invertible
                probe = ivar(fresh("pr"))
                if r0([probe]) is probe and r1([probe]) is probe:
                    def inv(b):
                        c, idx = inv0(b)
                        return b_and(c, eq(idx[j0], idx[j1])), list(idx[:j0]) + [idx[j0]] + list(idx[j1 + 1:])
                else:
                    def inv(b):
                        raise Unsupported("fancy assignment")
                return Arr(self.buf, shp, fwd, inv, self.readonly), False
            raise Unsupported("fancy indexing")
        j, k = arrs[0]
        if k.buf.dtype == "b1":
            raise Unsupported("boolean masks")
        base, _ = self._view(tuple(slice(None) if isinstance(x, Arr) else x for x in full))
        # position of the axis in base
        pos = sum(1 for x in full[:j] if x is None or isinstance(x, slice))
        kr = k.reader()
        nd = k.ndim
        n = base._shape[pos]
        src = base.reader()
        shp = list(base._shape[:pos]) + list(k._shape) + list(base._shape[pos + 1:])

        def f(idx):
            e = kr(idx[pos:pos + nd])
            return src(list(idx[:pos]) + [e] + list(idx[pos + nd:]))
        return Arr.make(shp, f, self.buf.dtype), False

    def view(self, *a):
        return Arr(self.buf, self._shape, self.fwd, self.inv, self.readonly)

    def copy(self, order=None):
        return Arr.make(self._shape, self.reader(), self.buf.dtype)

    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def astype(self, dt, copy=True):
        d = dtype_of(dt)
        r = self.reader()
        return Arr.make(self._shape, lambda i: cast(r(i), d), d)

    def transpose(self, *axes):
        if len(axes) == 1 and isinstance(axes[0], (tuple, list)):
            axes = tuple(axes[0])
        if not axes or axes == (None,):
            axes = tuple(reversed(range(self.ndim)))
        axes = tuple(a % self.ndim for a in axes)
        fwd0, inv0 = self.fwd, self.inv

        def fwd(idx):
            out = [None] * len(axes)
            for i, a in enumerate(axes):
                out[a] = idx[i]
            return fwd0(out)

        def inv(b):
            c, idx = inv0(b)
            return c, [idx[a] for a in axes]
        return Arr(self.buf, [self._shape[a] for a in axes], fwd, inv, self.readonly)

    def swapaxes(self, a, b):
        ax = list(range(self.ndim))
        ax[a], ax[b] = ax[b], ax[a]
        return self.transpose(*ax)

    def reshape(self, *shape, order=None):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        shape = [dim(s) for s in shape]
        # only insertion / removal of unit dimensions
        a = [s for s in self._shape if s.const != 1]
        if any(s.const == -1 for s in shape):
            k = [s for s in shape if s.const != 1]
            if len(k) == len(a) and sum(1 for s in shape if s.const == -1) == 1:
                known = [x for x in k if x.const != -1]
                i = [j for j, x in enumerate(k) if x.const == -1][0]
                shape = [a[i] if s.const == -1 else s for s in shape]
            elif len(k) == 1 and len(a) == 1:
                shape = [a[0] if s.const == -1 else s for s in shape]
        b = [s for s in shape if s.const != 1]
        if len(a) != len(b) or not all(same(x, y) for x, y in zip(a, b)):
            raise Unsupported("general reshape")
        src_pos = [i for i, s in enumerate(self._shape) if s.const != 1]
        dst_pos = [i for i, s in enumerate(shape) if s.const != 1]
        nd = self.ndim
        fwd0, inv0 = self.fwd, self.inv

        def fwd(idx):
            out = [num(0)] * nd
            for i, j in zip(src_pos, dst_pos):
                out[i] = idx[j]
            return fwd0(out)

        def inv(bb):
            c, idx = inv0(bb)
            out = [num(0)] * len(shape)
            for i, j in zip(src_pos, dst_pos):
                out[j] = idx[i]
            return c, out
        return Arr(self.buf, shape, fwd, inv, self.readonly)

    def ravel(self):
        return self.reshape(-1)
    flatten = ravel

    def squeeze(self, axis=None):
        return self.reshape(*[s for s in self._shape if s.const != 1])

    def diagonal(self, offset=0, axis1=0, axis2=1):
        if offset != 0:
            raise Unsupported("diagonal offset")
        axis1 %= self.ndim
        axis2 %= self.ndim
        n = self._shape[axis1]
        if not same(n, self._shape[axis2]):
            raise Unsupported("non square diagonal")
        rest = [i for i in range(self.ndim) if i not in (axis1, axis2)]
        r = self.reader()

        def f(idx):
            out = [None] * (len(rest) + 2)
            for j, i in enumerate(rest):
                out[i] = idx[j]
            out[axis1] = out[axis2] = idx[-1]
            return r(out)
        return Arr.make([self._shape[i] for i in rest] + [n], f, self.buf.dtype)

    def trace(self, offset=0, axis1=0, axis2=1, dtype=None, out=None):
        return self.diagonal(offset, axis1, axis2).sum(axis=-1)

    def fill(self, v):
        self._assign(v)

    def tolist(self):
        raise Unsupported("tolist")

    def item(self):
        if all(s.const == 1 for s in self._shape):
            return mkscalar(self.at([num(0)] * self.ndim))
        raise Unsupported("item")

    # ------- reductions
    def _reduce(self, axis, keepdims, f, dtype=None):
        if axis is None:
            axes = list(range(self.ndim))
        elif isinstance(axis, (tuple, list)):
            axes = [a % self.ndim for a in axis]
        else:
            a = axis.__index__()
            if not -self.ndim <= a < self.ndim:
                raise SymRaise(ValueError, "axis out of bounds")
            axes = [a % self.ndim]
        axes = sorted(axes)
        r = self.reader()
        keep = [i for i in range(self.ndim) if i not in axes]
        ns = [self._shape[a] for a in axes]

        def g(idx):
            bs = [ivar(fresh("s")) for _ in axes]
            full = [None] * (len(axes) + len(keep))
            for a, b in zip(axes, bs):
                full[a] = b
            if keepdims:
                for i in keep:
                    full[i] = idx[i]
            else:
                for j, i in enumerate(keep):
                    full[i] = idx[j]
            # concrete extents are expanded
            return f(bs, ns, r(full))
        if keepdims:
            shp = [num(1) if i in axes else s for i, s in enumerate(self._shape)]
        else:
            shp = [self._shape[i] for i in keep]
        if not shp:
            return mkscalar(g([]))
        return Arr.make(shp, g, dtype or self.buf.dtype)

    def sum(self, axis=None, dtype=None, out=None, keepdims=False):
        return to_out(self._reduce(axis, keepdims, lambda bs, ns, t: sum_over(bs, ns, t)), out)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False):
        return to_out(self._reduce(axis, keepdims, prod_over), out)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False):
        return to_out(self._reduce(axis, keepdims, lambda bs, ns, t: div(sum_over(bs, ns, t), mul(*ns))), out)

    def max(self, axis=None, out=None, keepdims=False):
        return to_out(self._reduce(axis, keepdims, lambda bs, ns, t: max_over(bs, ns, t)), out)

    def min(self, axis=None, out=None, keepdims=False):
        if out is None and not keepdims and self.ndim == 1 and str(self.buf.name or "").startswith("eigval<") and same(self._shape[0], self.buf.shape[0]):
            return self[0]          # eigenvalues are in ascending order
        return to_out(self._reduce(axis, keepdims, lambda bs, ns, t: neg(max_over(bs, ns, neg(t)))), out)

    def var(self, axis=None, ddof=0, keepdims=False):
        d = self - self.mean(axis=axis, keepdims=True)
        dd = d * d
        return dd._reduce(axis, keepdims, lambda bs, ns, t: div(sum_over(bs, ns, t), sub(mul(*ns), num(ddof))))

    def std(self, axis=None, ddof=0, keepdims=False):
        v = self.var(axis, ddof, keepdims)
        return v.map(lambda p: fn("sqrt", p)) if isinstance(v, Arr) else S(fn("sqrt", to_p(v)))

    def all(self, axis=None):
        if axis is not None:
            raise Unsupported("all(axis)")
        return forall(self)

    def any(self, axis=None):
        if axis is not None:
            raise Unsupported("any(axis)")
        r = self.reader()
        x = forall(Arr.make(self._shape, lambda i: ind(eq(r(i), num(0))), "b1"))
        return (not x) if isinstance(x, bool) else ~x

    def dot(self, o, out=None):
        return to_out(dot(self, o), out)

    def __matmul__(self, o):
        return matmul(self, asarr(o))

    def __rmatmul__(self, o):
        return matmul(asarr(o), self)

    # ------- elementwise
    def map(self, f, dtype=None):
        r = self.reader()
        return Arr.make(self._shape, lambda i: f(r(i)), dtype or self.buf.dtype)

    def _bin(self, o, f, dtype=None):
        return elementwise(f, self, o, dtype=dtype)

    def __add__(self, o): return self._bin(o, add)
    def __radd__(self, o): return self._bin(o, add)
    def __sub__(self, o): return self._bin(o, sub)
    def __rsub__(self, o): return self._bin(o, lambda a, b: sub(b, a))
    def __mul__(self, o): return self._bin(o, mul)
    __rmul__ = __mul__
    def __truediv__(self, o): return self._bin(o, div, "f8")
    def __rtruediv__(self, o): return self._bin(o, lambda a, b: div(b, a), "f8")
    def __pow__(self, o): return self._bin(o, power)
    def __rpow__(self, o): return self._bin(o, lambda a, b: power(b, a))
    def __floordiv__(self, o): return self._bin(o, fdiv)
    def __mod__(self, o): return self._bin(o, mod)
    def __neg__(self): return self.map(neg)
    def __pos__(self): return self.copy()
    def __abs__(self): return self.map(lambda p: fn("abs", p))
    def __invert__(self): return self.map(lambda p: sub(num(1), p))
    def __and__(self, o): return self._bin(o, mul, "b1")
    def __or__(self, o): return self._bin(o, lambda a, b: sub(add(a, b), mul(a, b)), "b1")
    def __lt__(self, o): return self._bin(o, lambda a, b: ind(lt(a, b)), "b1")
    def __le__(self, o): return self._bin(o, lambda a, b: ind(le(a, b)), "b1")
    def __gt__(self, o): return self._bin(o, lambda a, b: ind(lt(b, a)), "b1")
    def __ge__(self, o): return self._bin(o, lambda a, b: ind(le(b, a)), "b1")

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        return self._bin(o, lambda a, b: ind(eq(a, b)), "b1")

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return True
        return self._bin(o, lambda a, b: sub(num(1), ind(eq(a, b))), "b1")

    __hash__ = object.__hash__

    def _inplace(self, o, f):
        r = self.reader()
        if isinstance(o, (Arr, list, tuple)):
            b = broadcast_reader(asarr(o), self._shape)
            self.write(lambda i: f(r(i), b(i)))
        else:
            p = to_p(o)
            self.write(lambda i: f(r(i), p))
        return self

    def __iadd__(self, o): return self._inplace(o, add)
    def __isub__(self, o): return self._inplace(o, sub)
    def __imul__(self, o): return self._inplace(o, mul)

    def __itruediv__(self, o):
        if self.buf.dtype == "i8":
            raise SymRaise(TypeError, "ufunc 'divide' output cast")
        return self._inplace(o, div)

    def __ipow__(self, o): return self._inplace(o, power)

    def __repr__(self):
        return f"Arr{tuple(self._shape)}<{self.buf.name}>"


class DType:
    def __init__(self, n):
        self.n = n

    def __eq__(self, o):
        try:
            return self.n == dtype_of(o)
        except Unsupported:
            return False

    def __hash__(self):
        return hash(self.n)


def dtype_of(d):
    if d is None:
        return "f8"
    if isinstance(d, DType):
        return d.n
    if d is float or d is np.float64 or d == "float64":
        return "f8"
    if d in (int, np.int64, np.int32, np.intp):
        return "i8"
    if d in (bool, np.bool_):
        return "b1"
    if d in (np.float32, np.float16):
        return "f4"
    if d is complex or d is np.complex128:
        raise Unsupported("complex")
    if d is object:
        raise Unsupported("object arrays")
    try:
        k = np.dtype(d)
        return {"f": "f8" if k.itemsize == 8 else "f4", "i": "i8", "b": "b1"}[k.kind]
    except Exception:
        raise Unsupported(f"dtype {d}")


def to_out(v, out):
    if out is None:
        return v
    if isinstance(out, tuple):
        out, = out
    out._assign(v if isinstance(v, Arr) else v)
    return out


def mkscalar(p):
    return S(p, np64=True)


def sum_over(bs, ns, t):
    conc = [(b, n) for b, n in zip(bs, ns) if n.const is not None and n.const <= 16]
    symb = [(b, n) for b, n in zip(bs, ns) if not (n.const is not None and n.const <= 16)]
    t = Sum(symb, t)
    for b, n in conc:
        t = add(*[substitute(t, {vname(b): num(i)}) for i in range(int(n.const))])
    return t


def prod_over(bs, ns, t):
    for b, n in zip(bs, ns):
        if n.const is not None and n.const <= 16:
            t = mul(*[substitute(t, {vname(b): num(i)}) for i in range(int(n.const))])
        else:
            t = Prod(b, n, t)
    return t


def max_over(bs, ns, t):
    return Max(list(zip(bs, ns)), t)


def closed(*ps):
    """an opaque predicate named after these terms may not depend on a loop variable"""
    lv = {vname(v) for v in ENG.loopvars}
    if lv and any(p.free & lv if isinstance(p.free, (set, frozenset)) else lv & set(p.free) for p in ps):
        raise Unsupported("an opaque condition that depends on a loop variable")


def atoms_b(b):
    if b.op == "atom":
        yield b.args[0]
    elif b.op in ("not", "and", "or"):
        for x in b.args:
            yield from atoms_b(x)


def forall(arr):
    """universally quantified truth of a boolean array"""
    r = arr.reader()
    if ENG.ghost.get("split_small") and any(n.const is not None for n in arr._shape) and not all(n.const is not None for n in arr._shape):
        # one statement for every index along an axis of known length
        parts = []
        for at in itertools.product(*[[None] if n.const is None else [num(i) for i in range(int(n.const))] for n in arr._shape]):
            def f(i, at=at):
                i = list(i)
                return r([i.pop(0) if x is None else x for x in at])
            b = forall(Arr.make([n for n in arr._shape if n.const is None], f, "b1"))
            if b is False:
                return False
            if b is not True:
                parts.append(to_b(b))
        return mkbool(b_and(*parts))
    idx = [ivar(fresh("q")) for _ in arr._shape]
    hyps = list(ENG.hyps) + PV.ranges_of(idx, arr._shape)
    t = r(idx)
    if PV.prove_eq(t, num(1), hyps):
        return True
    if PV.check(hyps) != "unsat" and PV.prove_eq(t, num(0), hyps):
        ne = b_and(*[lt(num(0), n) for n in arr._shape])
        if ENG.entails(ne):
            return False
    # keep as an opaque predicate keyed by its normal form
    t = PV.simp(t, hyps)
    canon = substitute(t, {vname(v): ivar(f"$q{i}") for i, v in enumerate(idx)})
    shape = [PV.simp(n, ENG.hyps) for n in arr._shape]
    closed(canon, *shape)
    key = "forall{" + show(canon) + " : " + ",".join(show(n) for n in shape) + "}"
    for h in ENG.hyps:
        for k2 in [a[1] for a in atoms_b(h) if a[0] == "bvar" and a[1] != key and a[1] in T.FORALL]:
            # the same statement over the same, or over fewer elements
            c2, s2 = T.FORALL[k2]
            if show(c2) == show(canon) and len(s2) == len(shape):
                s2 = [PV.simp(n, ENG.hyps) for n in s2]
                if ENG.entails(b_and(*[eq(m, n) for m, n in zip(s2, shape)])):
                    return SB(bvar(k2))
                if ENG.entails(b_and(b_not(bvar(k2)), *[le(m, n) for m, n in zip(s2, shape)])):
                    return False
    T.FORALL[key] = (canon, shape)
    return SB(bvar(key))


def norm_index(k, n):
    if isinstance(k, (SB, bool, np.bool_)):
        raise Unsupported("boolean index")
    p = to_p(k)
    if not p.is_int:
        if isinstance(k, float):
            raise SymRaise(IndexError, "float index")
        raise Unsupported(f"non integer index {p}")
    c = p.const
    if c is not None and c < 0:
        q = add(n, p)
        if not ENG.entails(le(num(0), q)):
            raise SymRaise(IndexError, f"index {p} out of bounds for axis of size {n}", maybe=True)
        return q
    if ENG.entails(b_and(le(num(0), p), lt(p, n))):
        return p
    if ENG.entails(b_and(lt(p, num(0)), le(neg(n), p))):
        return add(p, n)
    inb = b_and(le(neg(n), p), lt(p, n))
    if not ENG.branch(inb):
        raise SymRaise(IndexError, f"index {p} out of bounds for axis of size {n}", maybe=True)
    if ENG.branch(le(num(0), p)):
        return p
    return add(p, n)


def norm_slice(k, n):
    step = 1 if k.step is None else k.step
    if isinstance(step, S):
        step = step.__index__()
    if step == -1 and k.start is None and k.stop is None:
        return sub(n, num(1)), n, -1

    if step < 0:
        raise Unsupported("slice step")

    def clamp(x, default):
        if x is None:
            return default
        p = to_p(x)
        c = p.const
        if (c is not None and c < 0) or (c is None and ENG.entails(lt(p, num(0)))):
            p = add(n, p)
            if ENG.entails(le(num(0), p)):
                return p
            return ite(le(num(0), p), p, num(0))
        if c is None and not ENG.entails(le(num(0), p)):
            neg_ = add(n, p)
            p = ite(le(num(0), p), p, ite(le(num(0), neg_), neg_, num(0)))
        if ENG.entails(le(p, n)):
            return p
        return ite(le(p, n), p, n)
    st = clamp(k.start, num(0))
    en = clamp(k.stop, n)
    ln = sub(en, st)
    if step != 1:
        if ln.const is not None:
            ln = num(max(0, -(-int(ln.const) // step)))
        elif ENG.entails(le(num(0), ln)):
            ln = fdiv(add(ln, num(step - 1)), num(step))
        else:
            raise Unsupported("strided slice")
        return st, ln, step
    if not ENG.entails(le(num(0), ln)):
        ln = ite(le(num(0), ln), ln, num(0))
    return st, ln, 1


def repeated(xs, n):
    """[x] * n with a symbolic count"""
    if len(xs) != 1 or not n.is_int or not isinstance(xs[0], (int, float, S)):
        raise Unsupported("repetition of a list")
    if not PV.prove_b(le(num(0), n.p), list(ENG.hyps)):
        raise Unsupported("repetition count of either sign")
    return SSeq(n.p, lambda k: xs[0], "repeated")


def joined(a, b):
    """concatenation where at least one part has symbolic length (numbers only)"""
    def part(x):
        if isinstance(x, list):
            if not all(isinstance(v, (int, float, S)) for v in x):
                raise Unsupported("concatenation of lists")
            ps = [to_p(v) for v in x]
            return num(len(ps)), lambda k: select(k, ps)
        return x.n, lambda k: to_p(x.elem(k))
    (n, f), (m, g) = part(a), part(b)
    def elem(k):
        if n.const == 0:
            return mkS(g(k))
        if m.const == 0:
            return mkS(f(k))
        if k.const is not None and n.const is not None:
            return mkS(f(k) if k.const < n.const else g(sub(k, n)))
        return mkS(ite(lt(k, n), f(k), g(sub(k, n))))
    return SSeq(add(n, m), elem, "joined")


def asarr(x, dtype=None):
    if isinstance(x, Arr):
        return x
    if isinstance(x, SSeq):
        return Arr.make([x.n], lambda i: to_p(x.elem(i[0])))
    if isinstance(x, np.ndarray):
        return from_numpy(x)
    if isinstance(x, (list, tuple)):
        items = [asarr(i) if isinstance(i, (list, tuple, Arr, np.ndarray)) else i for i in x]
        if not items:
            return Arr.make([0], lambda i: num(0))
        if isinstance(items[0], Arr):
            shp = items[0]._shape
            rs = [i.reader() for i in items]
            return Arr.make([num(len(items))] + list(shp),
                            lambda idx: select(idx[0], [r(idx[1:]) for r in rs]), items[0].buf.dtype)
        ps = [to_p(i) for i in items]
        dt = "i8" if all(isinstance(i, (int, np.integer)) and not isinstance(i, bool) or (isinstance(i, S) and i.is_int) for i in items) else "f8"
        return Arr.make([num(len(ps))], lambda idx: select(idx[0], ps), dt)
    p = to_p(x)
    return Arr.make([], lambda idx: p)


def select(i, ps):
    c = i.const
    if c is not None:
        return ps[int(c)]
    r = ps[-1]
    for k in range(len(ps) - 2, -1, -1):
        r = ite(eq(i, num(k)), ps[k], r)
    return r


def from_numpy(x):
    if x.dtype.kind not in "fib":
        raise Unsupported("ndarray dtype")
    dt = {"f": "f8", "i": "i8", "b": "b1"}[x.dtype.kind]
    if x.size > 64:
        raise Unsupported("large concrete array")

    def f(idx):
        if all(i.const is not None for i in idx):
            return to_p(x[tuple(int(i.const) for i in idx)])
        i = [k for k in range(len(idx)) if idx[k].const is None][0]
        return select(idx[i], [f(list(idx[:i]) + [num(v)] + list(idx[i + 1:])) for v in range(x.shape[i])])
    return Arr.make(x.shape, f, dt)


def broadcast_shapes(shapes):
    nd = max((len(s) for s in shapes), default=0)
    out = []
    for i in range(nd):
        d = None
        for s in shapes:
            j = i - (nd - len(s))
            if j < 0:
                continue
            x = s[j]
            if x.const == 1:
                continue
            if d is None:
                d = x
            elif not same(d, x):
                if ENG.entails(b_not(eq(d, x))) and ENG.entails(b_and(b_not(eq(d, num(1))), b_not(eq(x, num(1))))):
                    raise SymRaise(ValueError, f"operands could not be broadcast together {d} {x}")
                if not ENG.branch(eq(d, x)):
                    # either a genuine mismatch or a unit dimension
                    if ENG.branch(eq(x, num(1))):
                        raise Unsupported("data dependent broadcasting")
                    if ENG.branch(eq(d, num(1))):
                        raise Unsupported("data dependent broadcasting")
                    raise SymRaise(ValueError, f"operands could not be broadcast together: {d} and {x}", maybe=True)
        out.append(d if d is not None else num(1))
    return out


def broadcast_reader(a, shape):
    """reader of a on the index space `shape` (numpy rules, a must fit)"""
    a = asarr(a)
    nd = len(shape)
    if a.ndim > nd:
        extra = a._shape[:a.ndim - nd]
        if any(s.const != 1 for s in extra):
            raise SymRaise(ValueError, "could not broadcast input array")
        a = a.reshape(*a._shape[a.ndim - nd:])
    res = broadcast_shapes([a._shape, shape])
    for r, s in zip(res, shape):
        if s.const == 1 and r.const != 1:
            raise SymRaise(ValueError, "could not broadcast input array into shape")
    r = a.reader()
    off = nd - a.ndim
    ash = a._shape

    def f(idx):
        return r([num(0) if ash[i].const == 1 else idx[off + i] for i in range(len(ash))])
    return f


def elementwise(f, *xs, dtype=None):
    arrs = [x if isinstance(x, Arr) else (asarr(x) if isinstance(x, (list, tuple, np.ndarray)) else None) for x in xs]
    shapes = [a._shape for a in arrs if a is not None]
    shp = broadcast_shapes(shapes)
    rs = []
    dts = []
    for x, a in zip(xs, arrs):
        if a is None:
            p = to_p(x)
            rs.append(lambda idx, p=p: p)
            dts.append("i8" if isinstance(x, (int, bool)) or (isinstance(x, S) and x.is_int) else "f8")
        else:
            rs.append(broadcast_reader(a, shp))
            dts.append(a.buf.dtype)
    dt = dtype or ("f8" if "f8" in dts else ("f4" if "f4" in dts else ("i8" if "i8" in dts else "b1")))
    if not shp and not any(a is not None for a in arrs):
        return mkscalar(f(*[r([]) for r in rs]))
    out = Arr.make(shp, lambda idx: f(*[r(idx) for r in rs]), dt)
    if not shp:
        return mkscalar(out.at([]))
    return out


def dot(a, b):
    if not isinstance(b, Arr) or not isinstance(a, Arr):
        return a * b
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    ra, rb = a.reader(), b.reader()
    n = a._shape[-1]
    m = b._shape[-1] if b.ndim == 1 else b._shape[-2]
    if not same(n, m):
        if ENG.branch(eq(n, m)) is False:
            raise SymRaise(ValueError, f"shapes not aligned {n} {m}", maybe=True)
    shp = list(a._shape[:-1]) + (list(b._shape[:-2]) + [b._shape[-1]] if b.ndim > 1 else [])
    na = a.ndim - 1

    def f(idx):
        k = ivar(fresh("k"))
        ia, ib = idx[:na], idx[na:]
        bi = list(ib[:-1]) + [k] + [ib[-1]] if b.ndim > 1 else [k]
        return sum_over([k], [n], mul(ra(list(ia) + [k]), rb(bi)))
    if not shp:
        return mkscalar(f([]))
    return Arr.make(shp, f)


def matmul(a, b):
    if a.ndim <= 2 and b.ndim <= 2:
        return dot(a, b)
    ra, rb = a.reader(), b.reader()
    n = a._shape[-1]
    if not same(n, b._shape[-2]):
        raise SymRaise(ValueError, "matmul shapes", maybe=True)
    batch = broadcast_shapes([a._shape[:-2], b._shape[:-2]])
    nb = len(batch)
    oa, ob = nb - (a.ndim - 2), nb - (b.ndim - 2)

    def f(idx):
        k = ivar(fresh("k"))
        bi = idx[:nb]
        ia = [num(0) if s.const == 1 else bi[oa + i] for i, s in enumerate(a._shape[:-2])]
        ib = [num(0) if s.const == 1 else bi[ob + i] for i, s in enumerate(b._shape[:-2])]
        return sum_over([k], [n], mul(ra(ia + [idx[nb], k]), rb(ib + [k, idx[nb + 1]])))
    return Arr.make(list(batch) + [a._shape[-2], b._shape[-1]], f)


# ---------------------------------------------------------------- objects
class Obj:
    """symbolic instance of a repository class (or an anonymous record when cls is None)"""
    def __init__(self, cls=None, **attrs):
        self.cls = cls
        self.attrs = dict(attrs)
        ENG.track.append(self)

    def get_state(self):
        return dict(self.attrs)

    def set_state(self, s):
        self.attrs = dict(s)

    def __repr__(self):
        return f"<Obj {getattr(self.cls, '__name__', '')} {sorted(self.attrs)}>"


class SRange:
    """range with symbolic bounds (step 1 or -1)"""
    def __init__(self, lo, hi, step=1):
        self.lo, self.hi, self.step = to_p(lo), to_p(hi), step

    @property
    def n(self):
        d = sub(self.hi, self.lo) if self.step == 1 else sub(self.lo, self.hi)
        if self.step not in (1, -1):
            raise Unsupported("range step")
        if ENG.entails(le(num(0), d)):
            return d
        return ite(le(num(0), d), d, num(0))

    def elem(self, k):
        return S(add(self.lo, mul(num(self.step), k)))

    def __iter__(self):
        lo, hi = self.lo.const, self.hi.const
        if lo is None or hi is None:
            raise Unsupported("native iteration over a symbolic range")
        return iter(range(int(lo), int(hi), self.step))

    def __len__(self):
        raise Unsupported("len of symbolic range")


class SSeq:
    """sequence of symbolic length: elem(k) -> value"""
    def __init__(self, n, elem, name="seq"):
        self.n, self.elem, self.name = to_p(n), elem, name

    def __iter__(self):
        if self.n.const is None:
            raise Unsupported("native iteration over a symbolic sequence")
        return iter([self.elem(num(i)) for i in range(int(self.n.const))])

    def __len__(self):
        if self.n.const is None:
            raise Unsupported("len of symbolic sequence through native code")
        return int(self.n.const)
