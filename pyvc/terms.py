"""Scalar term language of the verifier.

A term is a polynomial (with rational coefficients) over hash-consed atoms.  The
constructor keeps terms in normal form, so that most arithmetic identities hold by
construction; what is left (conditions on indices, inequalities, case splits) goes to
an SMT solver, see prove.py.

Atoms
  var   free variable                         ('var', name, sort)
  app   uninterpreted function application    ('app', fname, args)
  fn    interpreted real function             ('fn', name, arg)     exp, tanh, sinh, ...
  poly  a polynomial used as a base of a non natural power           ('poly', P)
  ind   Iverson bracket of an atomic condition                       ('ind', cond)
  SUM   finite sum over several binders of a connected monomial      ('SUM', ns, body)
  PROD  finite product over one binder                               ('PROD', n, body)
  MAX   maximum over binders                                         ('MAX', ns, body)
  rec   R(n)(args) with R(0)=init, R(k+1)=step(k, R(k))              ('rec', ...)
  mod, fdiv  integer remainder and floor division
Conditions are ('le0', P), ('eq0', P) or ('bvar', name, args).
"""
from fractions import Fraction
from itertools import permutations, count
import math

ZERO = Fraction(0)
ONE = Fraction(1)

_fresh = count()


def fresh(prefix):
    return f"{prefix}!{next(_fresh)}"


class Unsupported(Exception):
    pass


class Atom:
    __slots__ = ("kind", "args", "id", "sort", "free", "height")
    table = {}

    def __new__(cls, kind, args, sort="R"):
        key = (kind, args)
        a = cls.table.get(key)
        if a is None:
            a = object.__new__(cls)
            a.kind, a.args, a.sort = kind, args, sort
            a.id = len(cls.table)
            a.free, a.height = _free_height(kind, args)
            cls.table[key] = a
        return a

    def __repr__(self):
        return show_atom(self)

    def __lt__(self, o):
        return self.id < o.id


def _free_height(kind, args):
    if kind == "var":
        name = args[0]
        h = int(name[1:].split(".")[0]) + 1 if name[0] == "#" else 0
        return frozenset([(args[0], args[1])]), h
    free, h = set(), 0
    binders = ()
    for x in _subs(kind, args):
        if isinstance(x, P):
            free |= x.free
            h = max(h, x.height)
    if kind in ("SUM", "PROD", "MAX"):
        binders = {(b, "I") for b in args[0]}
    elif kind == "rec":
        own = {(b, "I") for b in args[0]}
        free = set(args[1].free) | (set(args[2].free | args[3].free) - own)
        for x in args[5]:
            free |= x.free
    return frozenset(free - set(binders)), h


def _subs(kind, args):
    """immediate polynomial children"""
    if kind == "var":
        return ()
    if kind == "app":
        return args[1]
    if kind == "fn":
        return (args[1],)
    if kind == "poly":
        return (args[0],)
    if kind == "ind":
        return cond_polys(args[0])
    if kind in ("SUM", "MAX"):
        return tuple(args[1]) + (args[2],)
    if kind == "PROD":
        return tuple(args[1]) + (args[2],)
    if kind == "rec":
        # (binders, n, init, step, prevname, args)
        return (args[1], args[2], args[3]) + tuple(args[5])
    if kind in ("mod", "fdiv"):
        return args
    raise KeyError(kind)


def cond_polys(c):
    if c[0] in ("le0", "eq0"):
        return (c[1],)
    return c[2]


# functions known to be positive / symmetric in some argument positions / integer valued
POSITIVE = set()
BOUNDS = {}         # integer valued function -> (lower bound, exclusive upper bound)
SYMMETRIC = {}   # name -> list of (i, j) swaps generating a group of order 2 each
INTAPP = set()
FORALL = {}          # opaque universally quantified statement -> (0/1 valued body over $q0, $q1, .., shape)


def mono_key(m):
    return tuple((a.id, repr(e) if isinstance(e, P) else (e.numerator, e.denominator)) for a, e in m)


class P:
    """polynomial: mapping monomial -> Fraction; monomial = tuple of (atom, exponent) sorted by id"""
    __slots__ = ("d", "_h", "free", "height")
    table = {}

    def __new__(cls, d):
        key = frozenset(d.items())
        p = cls.table.get(key)
        if p is None:
            p = object.__new__(cls)
            p.d = d
            p._h = hash(key)
            free, h = set(), 0
            for m in d:
                for a, e in m:
                    free |= a.free
                    h = max(h, a.height)
                    if isinstance(e, P):
                        free |= e.free
                        h = max(h, e.height)
            p.free, p.height = frozenset(free), h
            cls.table[key] = p
        return p

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o

    # --- helpers
    @property
    def const(self):
        """the rational value, or None"""
        if not self.d:
            return ZERO
        if len(self.d) == 1 and () in self.d:
            return self.d[()]
        return None

    @property
    def is_int(self):
        for m, c in self.d.items():
            if c.denominator != 1:
                return False
            for a, e in m:
                if a.sort != "I" or isinstance(e, P) or e.denominator != 1 or e < 0:
                    return False
        return True

    def atoms(self):
        s = set()
        for m in self.d:
            for a, e in m:
                s.add(a)
        return s

    def __repr__(self):
        return show(self)


def num(x):
    if isinstance(x, P):
        return x
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, float):
        x = Fraction(repr(x))
    x = Fraction(x)
    return P({(): x}) if x else P({})


C0, C1 = None, None


def atomP(a, e=ONE):
    return P({((a, e),): ONE})


def var(name, sort="R"):
    return atomP(Atom("var", (name, sort), sort))


def ivar(name):
    return var(name, "I")


def app(name, args, sort=None):
    args = tuple(num(a) for a in args)
    sw = SYMMETRIC.get(name)
    if sw:
        cands = {args}
        changed = True
        while changed:
            changed = False
            for t in list(cands):
                for (i, j) in sw:
                    u = list(t)
                    if isinstance(i, tuple):
                        for x, y in zip(i, j):
                            u[x], u[y] = u[y], u[x]
                    else:
                        u[i], u[j] = u[j], u[i]
                    u = tuple(u)
                    if u not in cands:
                        cands.add(u)
                        changed = True
        args = min(cands, key=lambda t: tuple(show(x) for x in t))
    sort = sort or ("I" if name in INTAPP else "R")
    return atomP(Atom("app", (name, args), sort))


def add(*ps):
    d = {}
    for p in ps:
        for m, c in num(p).d.items():
            v = d.get(m, ZERO) + c
            if v:
                d[m] = v
            else:
                d.pop(m, None)
    return P(d)


def scale(p, c):
    if c == 0:
        return P({})
    return P({m: v * c for m, v in p.d.items()})


def neg(p):
    return scale(num(p), -ONE)


def sub(a, b):
    return add(a, neg(b))


def _mono_mul(m1, m2):
    """product of two monomials; returns a P (exp merging and expansions may be needed)"""
    d = {}
    exps = []
    for a, e in m1 + m2:
        if a.kind == "fn" and a.args[0] == "exp":
            exps.append((a, e))
        elif a in d:
            s = d[a]
            if isinstance(s, P) or isinstance(e, P):
                v = add(num(s), num(e))
                v = v.const if v.const is not None else v
            else:
                v = s + e
            d[a] = v
        else:
            d[a] = e
    if exps:
        if len(exps) == 1 and exps[0][1] == 1:
            d[exps[0][0]] = ONE
        else:
            arg = add(*[mul(a.args[1], num(e)) for a, e in exps])
            ex = fn("exp", arg)
            for m, c in ex.d.items():   # a single monomial
                for a, e in m:
                    d[a] = e
    extra = []
    out = []
    for a, e in d.items():
        if not isinstance(e, P) and e == 0:
            continue
        if a.kind == "ind":
            out.append((a, ONE))
        elif a.kind == "poly" and not isinstance(e, P) and e.denominator == 1 and e > 0:
            extra.append((a.args[0], int(e)))
        else:
            out.append((a, e))
    out.sort(key=lambda t: t[0].id)
    res = P({tuple(out): ONE})
    for b, e in extra:
        for _ in range(e):
            res = mul(res, b)
    return res


_mulcache = {}


def mul(*ps):
    if not ps:
        return num(1)
    r = num(ps[0])
    for p in ps[1:]:
        r = _mul2(r, num(p))
    return r


def _mul2(a, b):
    ca, cb = a.const, b.const
    if ca is not None:
        return scale(b, ca)
    if cb is not None:
        return scale(a, cb)
    key = (a, b)
    r = _mulcache.get(key)
    if r is not None:
        return r
    d = {}
    for m1, c1 in a.d.items():
        for m2, c2 in b.d.items():
            pr = _mono_mul(m1, m2)
            for m, c in pr.d.items():
                v = d.get(m, ZERO) + c * c1 * c2
                if v:
                    d[m] = v
                else:
                    d.pop(m, None)
    r = P(d)
    _mulcache[key] = r
    return r


def atom_positive(a):
    if a.kind == "fn" and a.args[0] in ("exp", "cosh"):
        return True
    if a.kind == "fn" and a.args[0] in ("sinh", "tanh", "sqrt"):
        return poly_positive(a.args[1])
    if a.kind in ("app", "var"):
        return a.args[0] in POSITIVE
    if a.kind in ("SUM", "PROD", "MAX"):
        return poly_positive(a.args[2])
    if a.kind == "poly":
        return poly_positive(a.args[0])
    return False


def poly_positive(p):
    """every monomial has a positive coefficient and positive factors (and there is one)"""
    if not p.d:
        return False
    for m, c in p.d.items():
        if c <= 0:
            return False
        for a, e in m:
            if not isinstance(e, P) and e.denominator == 1 and e.numerator % 2 == 0 and a.kind != "ind":
                continue   # even power; treated as positive (division by zero excluded separately)
            if not atom_positive(a):
                return False
    return True


def power(p, e):
    """p ** e for a rational or term exponent"""
    p = num(p)
    if isinstance(e, P):
        c = e.const
        if c is not None:
            e = c
    if isinstance(e, (int, float)):
        e = num(e).const
    if not isinstance(e, P):
        if e == 0:
            return num(1)
        if e == 1:
            return p
        if e.denominator == 1 and 0 < e <= 12 and len(p.d) <= 6:
            r = num(1)
            for _ in range(int(e)):
                r = mul(r, p)
            return r
    c = p.const
    if c is not None:
        if not isinstance(e, P):
            if e.denominator == 1:
                if c != 0:
                    return num(c ** int(e))
            elif c > 0:
                # exact roots only
                n, dd = c.numerator, c.denominator
                q = e.denominator
                rn, rd = round(n ** (1 / q)), round(dd ** (1 / q))
                if rn ** q == n and rd ** q == dd:
                    return num(Fraction(rn, rd) ** e.numerator)
            elif c == 0 and e > 0:
                return num(0)
        elif c == 1:
            return num(1)
        return atomP(Atom("poly", (p,), "R"), e)
    if len(p.d) == 1:
        (m, c), = p.d.items()
        integer = not isinstance(e, P) and e.denominator == 1
        rest = []
        res = num(1)
        for a, k in m:
            if a.kind == "fn" and a.args[0] == "exp":
                res = mul(res, fn("exp", mul(a.args[1], num(k), num(e))))
            elif a.kind == "ind" and not isinstance(e, P) and e > 0:
                res = mul(res, atomP(a))
            elif a.kind == "ind":
                rest.append((a, k))
            elif integer or atom_positive(a) or (isinstance(e, P) and e.is_int):
                kk = mul(num(k), num(e))
                kk = kk.const if kk.const is not None else kk
                res = mul(res, atomP(a, kk) if kk != 0 else num(1))
            else:
                rest.append((a, k))
        if rest and not integer:
            base = P({tuple(rest): c})
            return mul(res, atomP(Atom("poly", (base,), "R"), e))
        if rest:
            base = P({tuple(rest): ONE})
            res = mul(res, atomP(Atom("poly", (base,), "R"), e))
        return mul(res, power(num(c), e))
    # polynomial base: make it primitive
    lead = min(p.d, key=mono_key)
    c = p.d[lead]
    integer = not isinstance(e, P) and e.denominator == 1
    if not integer:
        c = abs(c)
    if c != 1:
        return mul(power(num(c), e), power(scale(p, ONE / c), e))
    return atomP(Atom("poly", (p,), "R"), e)


def div(a, b):
    return mul(num(a), power(b, Fraction(-1)))


ODD = {"sinh", "tanh", "sin", "tan", "arctan"}
EVEN = {"cosh", "cos", "abs"}


def fn(name, arg):
    arg = num(arg)
    c = arg.const
    if name == "sqrt":
        return power(arg, Fraction(1, 2))
    if name == "exp" and c == 0:
        return num(1)
    if name in ODD | {"abs"} and c == 0:
        return num(0)
    if name == "cosh" and c == 0:
        return num(1)
    if name == "log" and c == 1:
        return num(0)
    if name == "abs":
        if c is not None:
            return num(abs(c))
        if poly_positive(arg):
            return arg
    if name == "log" and len(arg.d) == 1:
        (m, cc), = arg.d.items()
        if cc == 1 and len(m) == 1 and m[0][0].kind == "fn" and m[0][0].args[0] == "exp":
            return m[0][0].args[1]
    if name in ODD | EVEN and arg.d:
        lead = min(arg.d, key=mono_key)
        if arg.d[lead] < 0:
            r = fn(name, neg(arg))
            return r if name in EVEN else neg(r)
    if name == "trunc" and arg.is_int:
        return arg
    if name == "float":
        return arg
    return atomP(Atom("fn", (name, arg), "I" if name == "trunc" else "R"))


# ---------------------------------------------------------------- conditions
class B:
    """boolean term: ('true',) ('false',) ('atom', cond) ('not', b) ('and', ..) ('or', ..)"""
    __slots__ = ("op", "args", "_key")

    def __init__(self, op, *args):
        self.op, self.args, self._key = op, args, None

    def __repr__(self):
        return show_b(self)

    def key(self):
        if self._key is None:
            self._key = (self.op,) + tuple(a.key() if isinstance(a, B) else a for a in self.args)
        return self._key

    def __hash__(self):
        return hash(self.key())

    def __eq__(self, o):
        return isinstance(o, B) and self.key() == o.key()


TRUE, FALSE = B("true"), B("false")


def b_not(b):
    if b is TRUE or b.op == "true":
        return FALSE
    if b.op == "false":
        return TRUE
    if b.op == "not":
        return b.args[0]
    return B("not", b)


def b_and(*bs):
    out = []
    for b in bs:
        if b.op == "true":
            continue
        if b.op == "false":
            return FALSE
        out.extend(b.args if b.op == "and" else [b])
    if not out:
        return TRUE
    return out[0] if len(out) == 1 else B("and", *out)


def b_or(*bs):
    out = []
    for b in bs:
        if b.op == "false":
            continue
        if b.op == "true":
            return TRUE
        out.extend(b.args if b.op == "or" else [b])
    if not out:
        return FALSE
    return out[0] if len(out) == 1 else B("or", *out)


def b_implies(a, b):
    return b_or(b_not(a), b)


def le(a, b):
    d = sub(a, b)
    c = d.const
    if c is not None:
        return TRUE if c <= 0 else FALSE
    if d.is_int:
        # canonical orientation: positive leading coefficient
        lead = min((m for m in d.d if m != ()), key=mono_key)
        if d.d[lead] < 0:
            return b_not(B("atom", ("le0", add(neg(d), num(1)))))
    return B("atom", ("le0", d))


def lt(a, b):
    d = sub(a, b)
    if d.is_int:
        return le(add(a, num(1)), b)
    return b_not(le(b, a))


def eq(a, b):
    d = sub(a, b)
    c = d.const
    if c is not None:
        return TRUE if c == 0 else FALSE
    lead = min((m for m in d.d), key=mono_key)
    d = scale(d, ONE / abs(d.d[lead]))
    if d.d[lead] < 0:
        d = neg(d)
    if not d.is_int:
        # keep integrality where possible
        den = 1
        for v in d.d.values():
            den = den * v.denominator // math.gcd(den, v.denominator)
        d = scale(d, Fraction(den))
    return B("atom", ("eq0", d))


def bvar(name, args=()):
    return B("atom", ("bvar", name, tuple(num(a) for a in args)))


def ind(b):
    """Iverson bracket as a polynomial in atomic brackets"""
    if b.op == "true":
        return num(1)
    if b.op == "false":
        return num(0)
    if b.op == "atom":
        return atomP(Atom("ind", (b.args[0],), "I"))
    if b.op == "not":
        return sub(num(1), ind(b.args[0]))
    if b.op == "and":
        return mul(*[ind(x) for x in b.args])
    if b.op == "or":
        return sub(num(1), mul(*[sub(num(1), ind(x)) for x in b.args]))
    raise KeyError(b.op)


def ite(c, a, b):
    a, b = num(a), num(b)
    if a is b or c.op == "true":
        return a
    if c.op == "false":
        return b
    i = ind(c)
    return add(b, mul(i, sub(a, b)))


# ---------------------------------------------------------------- integers
def mod(a, n):
    a, n = num(a), num(n)
    if a.const is not None and n.const is not None:
        return num(int(a.const) % int(n.const))
    if EXPAND_MOD[0]:
        return sub(a, mul(n, fdiv(a, n)))
    return atomP(Atom("mod", (a, n), "I"))


EXPAND_MOD = [False]


def expand_mod(p):
    """p with every remainder a % n written as a - n * (a // n)"""
    EXPAND_MOD[0] = True
    try:
        return map_app(p, None, None)
    finally:
        EXPAND_MOD[0] = False


def fdiv(a, n):
    a, n = num(a), num(n)
    if a.const is not None and n.const is not None:
        return num(a.const // n.const)
    if n.const == 1:
        return a
    # (q*n + r) // n  with r a variable known to lie in [0, n)
    q, r = {}, {}
    if len(n.d) == 1:
        (nm, nc), = n.d.items()
        if nc == 1 and len(nm) == 1:
            na = nm[0][0]
            for m, c in a.d.items():
                md = dict(m)
                if na in md and md[na] >= 1:
                    md[na] -= 1
                    key = tuple((x, e) for x, e in m if x is not na or e > 1)
                    key = tuple((x, (e - 1 if x is na else e)) for x, e in key)
                    q[key] = c
                else:
                    r[m] = c
            if q:
                rp = P(r)
                if not rp.d:
                    return P(q)
                if rp in REMAINDER and REMAINDER[rp] is n:
                    return P(q)
    return atomP(Atom("fdiv", (a, n), "I"))


REMAINDER = {}   # remainder variable -> divisor, 0 <= r < n is a standing hypothesis


# ---------------------------------------------------------------- binders
def substitute(p, s, memo=None):
    """replace free variables: s maps (name, sort) -> P"""
    if memo is None:
        memo = {}
    s = {k: v for k, v in s.items()}
    return _subst(p, s, memo)


def _subst(p, s, memo):
    if not any(k in p.free for k in s):
        return p
    r = memo.get(p)
    if r is not None:
        return r
    tot = []
    for m, c in p.d.items():
        t = num(c)
        for a, e in m:
            ee = _subst(e, s, memo) if isinstance(e, P) else e
            t = mul(t, power(_subst_atom(a, s, memo), ee))
        tot.append(t)
    r = add(*tot)
    memo[p] = r
    return r


def subst_cond(c, s, memo):
    if c[0] == "le0":
        return le(_subst(c[1], s, memo), num(0))
    if c[0] == "eq0":
        return eq(_subst(c[1], s, memo), num(0))
    return B("atom", (c[0], c[1], tuple(_subst(x, s, memo) for x in c[2])))


def _subst_atom(a, s, memo):
    if not any(k in a.free for k in s):
        return atomP(a)
    k = a.kind
    if k == "var":
        return s.get((a.args[0], a.args[1]), atomP(a))
    if k == "app":
        return app(a.args[0], [_subst(x, s, memo) for x in a.args[1]], a.sort)
    if k == "fn":
        return fn(a.args[0], _subst(a.args[1], s, memo))
    if k == "poly":
        return _subst(a.args[0], s, memo)
    if k == "ind":
        return ind(subst_cond(a.args[0], s, memo))
    if k == "SUM":
        bs, ns, body = open_binders(a)
        ns = [_subst(n, s, memo) for n in ns]
        return Sum(list(zip(bs, ns)), substitute(body, s))
    if k == "MAX":
        bs, ns, body = open_binders(a)
        ns = [_subst(n, s, memo) for n in ns]
        return Max(list(zip(bs, ns)), substitute(body, s))
    if k == "PROD":
        bs, ns, body = open_binders(a)
        ns = [_subst(n, s, memo) for n in ns]
        return Prod(bs[0], ns[0], substitute(body, s))
    if k == "rec":
        names, n, init, step, prev, args = a.args
        own = {(b, "I") for b in names}
        inner = {k: v for k, v in s.items() if k not in own and (k in init.free or k in step.free)}
        if any(b in v.free for v in inner.values() for b in own):
            raise Unsupported("nested recurrences")
        if any(k in own for k in s) or len(inner) != len(s):
            ini, stp = substitute(init, inner), substitute(step, inner)
        else:
            ini, stp = _subst(init, s, memo), _subst(step, s, memo)
        return atomP(Atom("rec", (names, _subst(n, s, memo), ini, stp, prev, tuple(_subst(x, s, memo) for x in args))))
    if k == "mod":
        return mod(_subst(a.args[0], s, memo), _subst(a.args[1], s, memo))
    if k == "fdiv":
        return fdiv(_subst(a.args[0], s, memo), _subst(a.args[1], s, memo))
    raise KeyError(k)


def open_binders(a):
    names, ns, body = a.args
    new = [ivar(fresh("j")) for _ in names]
    sub_ = {(n, "I"): v for n, v in zip(names, new)}
    return new, list(ns), substitute(body, sub_)


def vname(v):
    (m, c), = v.d.items()
    return m[0][0].args


def peel(n):
    """k for n = k + 1 with k a loop counter (which is never negative)"""
    if len(n.d) == 2 and n.d.get(()) == 1:
        for m, c in n.d.items():
            if m and c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "var" and m[0][0].args[0].startswith("k!"):
                return atomP(m[0][0])
    return None


def Sum(binders, body):
    """binders: list of (variable, upper bound); sum over 0 <= v < n"""
    body = num(body)
    binders = [(v, num(n)) for v, n in binders]
    if not binders:
        return body
    for i, (v, n) in enumerate(binders):
        rest = binders[:i] + binders[i + 1:]
        c = n.const
        if c is not None and 0 <= c <= 4:
            return add(num(0), *[Sum(rest, substitute(body, {vname(v): num(j)})) for j in range(int(c))])
        k = peel(n)
        if k is not None:
            return add(Sum(rest + [(v, k)], body), Sum(rest, substitute(body, {vname(v): k})))
    total = []
    for m, c in body.d.items():
        total.append(scale(_sum_mono(list(binders), m), c))
    return add(*total)


def _sum_mono(binders, m):
    # flatten nested sums (only those that mention a binder)
    bnames = {vname(v) for v, n in binders}
    factors = []
    todo = list(m)
    while todo:
        a, e = todo.pop()
        if a.kind == "SUM" and not isinstance(e, P) and e.denominator == 1 and 0 < e <= 4 and any(b in a.free for b in bnames):
            for _ in range(int(e)):
                bs, ns, body = open_binders(a)
                binders = binders + list(zip(bs, ns))
                bnames |= {vname(v) for v in bs}
                if len(body.d) != 1:
                    r = num(1)
                    for x, k in factors + todo:
                        r = mul(r, atomP(x, k))
                    return Sum(binders, mul(r, body))
                (bm, bc), = body.d.items()
                assert bc == 1
                todo.extend(bm)
        else:
            factors.append((a, e))
    # re-multiply (merges repeated atoms)
    t = num(1)
    for a, e in factors:
        t = mul(t, atomP(a, e))
    if len(t.d) != 1 or list(t.d.values())[0] != 1:
        return Sum(binders, t)
    (m, _), = t.d.items()
    # eliminate deltas [i == t]
    for a, e in m:
        if a.kind == "ind" and a.args[0][0] == "eq0":
            pol = a.args[0][1]
            for k, (v, n) in enumerate(binders):
                vn = vname(v)
                if vn not in pol.free:
                    continue
                va = list(v.d)[0]
                co = pol.d.get(va)
                if co not in (1, -1):
                    continue
                rest = add(pol, scale(v, -co))
                if vn in rest.free:
                    continue
                sol = scale(rest, -ONE / co)
                if not sol.is_int:
                    continue
                others = binders[:k] + binders[k + 1:]
                if any(vname(o) in n.free for o, _ in others):
                    continue
                left = P({tuple(x for x in m if x[0] is not a): ONE})
                left = substitute(left, {vn: sol})
                rng = mul(ind(le(num(0), sol)), ind(lt(sol, n)))
                others = [(o, substitute(nn, {vn: sol})) for o, nn in others]
                return Sum(others, mul(left, rng))
    # split into connected components
    comp = []   # (set of binder names, factors)
    const = num(1)
    bmap = {vname(v): (v, n) for v, n in binders}
    fac = []
    for a, e in m:
        fr = set(a.free) | (set(e.free) if isinstance(e, P) else set())
        bs = {b for b in bmap if b in fr}
        if bs and a.kind == "fn" and a.args[0] == "exp" and not isinstance(e, P):
            # exp(c + f(i)) = exp(c) exp(f(i))
            apart = {}
            for mm, cc in a.args[1].d.items():
                t = P({mm: cc})
                apart.setdefault(frozenset(b for b in bmap if b in t.free), []).append(t)
            if len(apart) > 1:
                xs = [(bb, fn("exp", scale(add(*ts), e))) for bb, ts in apart.items()]
                if all(not bb or len(x.d) == 1 and list(x.d.values())[0] == 1 for bb, x in xs):
                    for bb, x in xs:
                        if not bb:
                            const = mul(const, x)
                        else:
                            fac.append((set(bb), list(list(x.d)[0])))
                    continue
        if not bs:
            const = mul(const, atomP(a, e))
        else:
            fac.append((bs, [(a, e)]))
    used = set()
    for bs, fs in fac:
        bs, fs = set(bs), list(fs)
        keep = []
        for obs, ofs in comp:
            if obs & bs:
                bs |= obs
                fs = ofs + fs
            else:
                keep.append((obs, ofs))
        comp = keep + [(bs, fs)]
    res = const
    for bs, fs in comp:
        used |= bs
        res = mul(res, _sum_component([bmap[b] for b in bs], fs))
    for b, (v, n) in bmap.items():
        if b not in used:
            res = mul(res, n)
    return res


def _sum_component(binders, fs):
    body = num(1)
    for a, e in fs:
        body = mul(body, atomP(a, e))
    # dependent bounds are not produced by the engine
    h = max([body.height] + [n.height for _, n in binders])
    best = None
    k = len(binders)
    names = [f"#{h}.{i}" for i in range(k)]
    vs = [ivar(n) for n in names]
    for perm in permutations(range(k)):
        s = {vname(binders[j][0]): vs[i] for i, j in enumerate(perm)}
        b = substitute(body, s)
        ns = tuple(substitute(binders[j][1], s) for j in perm)
        key = (show(b), tuple(show(n) for n in ns))
        if best is None or key < best[0]:
            best = (key, ns, b)
    _, ns, b = best
    return atomP(Atom("SUM", (tuple(names), ns, b), b_sort(b)))


def b_sort(p):
    return "I" if p.is_int else "R"


def Prod(v, n, body):
    body, n = num(body), num(n)
    vn = vname(v)
    if vn not in body.free:
        return power(body, n)
    if n.const is not None and 0 <= n.const <= 4:
        return mul(num(1), *[substitute(body, {vn: num(j)}) for j in range(int(n.const))])
    k = peel(n)
    if k is not None:
        return mul(Prod(v, k, body), substitute(body, {vn: k}))
    if len(body.d) == 1:
        (m, c), = body.d.items()
        res = power(num(c), n)
        for a, e in m:
            efree = vn in e.free if isinstance(e, P) else False
            if vn not in a.free and not efree:
                res = mul(res, power(atomP(a, e), n))
            elif a.kind == "fn" and a.args[0] == "exp":
                res = mul(res, fn("exp", Sum([(v, n)], mul(a.args[1], num(e)))))
            elif efree or isinstance(e, P):
                res = mul(res, _prod_atom(v, n, atomP(a, e)))
            elif e == 1:
                res = mul(res, _prod_atom(v, n, atomP(a)))
            elif e.denominator == 1 or atom_positive(a):
                res = mul(res, power(_prod_atom(v, n, power(atomP(a), 1)), e))
            else:
                res = mul(res, _prod_atom(v, n, atomP(a, e)))
        return res
    return _prod_atom(v, n, body)


def _prod_atom(v, n, body):
    if len(body.d) == 1:
        (m, c), = body.d.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "poly":
            pass
    h = max(body.height, n.height)
    w = ivar(f"#{h}.0")
    b = substitute(body, {vname(v): w})
    return atomP(Atom("PROD", ((f"#{h}.0",), (n,), b), b_sort(b)))


def Max(binders, body):
    body = num(body)
    binders = [(v, num(n)) for v, n in binders if vname(v) in body.free]
    # (ranges are non empty by the shape assumptions)
    if not binders:
        return body
    k = len(binders)
    h = max([body.height] + [n.height for _, n in binders])
    names = [f"#{h}.{i}" for i in range(k)]
    vs = [ivar(n) for n in names]
    best = None
    for perm in permutations(range(k)):
        s = {vname(binders[j][0]): vs[i] for i, j in enumerate(perm)}
        b = substitute(body, s)
        ns = tuple(substitute(binders[j][1], s) for j in perm)
        key = (show(b), tuple(show(n) for n in ns))
        if best is None or key < best[0]:
            best = (key, ns, b)
    _, ns, b = best
    return atomP(Atom("MAX", (tuple(names), ns, b), b_sort(b)))


def max2(a, b):
    return ite(le(a, b), b, a)


def min2(a, b):
    return ite(le(a, b), a, b)


def Rec_raw(names, n, ini, stp, prev, args):
    return atomP(Atom("rec", (names, n, ini, stp, prev, tuple(num(a) for a in args))))


def _degree(p, name):
    """degree of homogeneity of p in applications of `name` (0 or 1), None if neither"""
    degs = set()
    for m in p.d:
        t = 0
        for a, e in m:
            if isinstance(e, P) and _degree(e, name) != 0:
                return None
            d = _adeg(a, name)
            if d is None:
                return None
            if d:
                if isinstance(e, P) or e != 1:
                    return None
                t += d
        degs.add(t)
    if not degs:
        return 0
    return degs.pop() if len(degs) == 1 and max(degs) <= 1 else None


def _adeg(a, name):
    if a.kind == "app":
        if a.args[0] == name:
            return 1
        return 0 if all(_degree(x, name) == 0 for x in a.args[1]) else None
    if a.kind == "SUM":
        return _degree(open_binders(a)[2], name)
    if a.kind == "poly":
        return _degree(a.args[0], name)
    return 0 if all(_degree(x, name) == 0 for x in _subs(a.kind, a.args)) else None


def rec_factor(stp, prev, names):
    """step = f(k) * step' with f independent of the matrix indices and step linear in the previous value"""
    if not stp.d:
        return None, stp
    common = None
    for m in stp.d:
        here = {}
        for a, e in m:
            if isinstance(e, P) or any((nm, "I") in a.free for nm in names[:-1]) or _adeg(a, prev) != 0:
                continue
            here[a] = e
        common = here if common is None else {a: e for a, e in common.items() if here.get(a) == e}
        if not common:
            return None, stp
    if _degree(stp, prev) != 1:
        return None, stp
    f = num(1)
    for a, e in common.items():
        f = mul(f, atomP(a, e))
    inv = num(1)
    for a, e in common.items():
        inv = mul(inv, atomP(a, -e))
    return f, mul(stp, inv)


def app_args(p, name, out, seen=None):
    """argument lists of the applications of `name` in p"""
    seen = set() if seen is None else seen
    for m in p.d:
        for a, e in m:
            if isinstance(e, P):
                app_args(e, name, out, seen)
            if a in seen:
                continue
            seen.add(a)
            if a.kind == "app" and a.args[0] == name:
                out.append(a.args[1])
            for x in _subs(a.kind, a.args):
                app_args(x, name, out, seen)


def map_app(p, name, f):
    """p with every application of `name` replaced by f(arguments)"""
    memo = {}

    def rp(p):
        r = memo.get(p)
        if r is None:
            tot = []
            for m, c in p.d.items():
                t = num(c)
                for a, e in m:
                    t = mul(t, power(ra(a), rp(e) if isinstance(e, P) else e))
                tot.append(t)
            r = memo[p] = add(*tot)
        return r

    def ra(a):
        k = a.kind
        if k == "var":
            return atomP(a)
        if k == "app":
            args = [rp(x) for x in a.args[1]]
            return f(args) if a.args[0] == name else app(a.args[0], args, a.sort)
        if k == "fn":
            return fn(a.args[0], rp(a.args[1]))
        if k == "poly":
            return rp(a.args[0])
        if k == "ind":
            c = a.args[0]
            if c[0] == "le0":
                return ind(le(rp(c[1]), num(0)))
            if c[0] == "eq0":
                return ind(eq(rp(c[1]), num(0)))
            return ind(B("atom", (c[0], c[1], tuple(rp(x) for x in c[2]))))
        if k in ("SUM", "MAX", "PROD"):
            bs, ns, body = open_binders(a)
            ns = [rp(x) for x in ns]
            body = rp(body)
            return Prod(bs[0], ns[0], body) if k == "PROD" else (Sum if k == "SUM" else Max)(list(zip(bs, ns)), body)
        if k == "rec":
            names, n, ini, stp, prev, args = a.args
            out = []
            for x in (ini, stp):
                app_args(x, name, out)
            if out:
                raise Unsupported("nested recurrences")
            return Rec_raw(names, rp(n), ini, stp, prev, [rp(x) for x in args])
        return (mod if k == "mod" else fdiv)(rp(a.args[0]), rp(a.args[1]))
    return rp(p)


def Rec(n, init, step, args):
    """init(args)->P, step(k, prev, args)->P with prev(args)->P ; the value R(n)(args).
    Arguments that every recursive call passes on unchanged are no arguments of the recurrence."""
    n = num(n)
    args = [num(a) for a in args]
    if n.const is not None and n.const == 0:
        return num(init(args))
    marks = [ivar(fresh("rec")) for _ in args]
    kv, mp = ivar(fresh("rec")), fresh("$rec")
    ini = num(init(marks))
    stp = num(step(kv, lambda a: app(mp, a), marks))
    calls = []
    app_args(stp, mp, calls)
    keep = [d for d in range(len(args)) if not calls or any(c[d] is not marks[d] for c in calls)]
    names = tuple(f"$r{i}" for i in range(len(keep))) + ("$k",)
    prev = "$prev%d" % len(keep)
    own = {(x, "I") for x in names}
    gone = {vname(marks[d]): args[d] for d in range(len(args)) if d not in keep}
    if gone:
        ini, stp = substitute(ini, gone), substitute(stp, gone)
    clash = []
    for x in (ini, stp):
        app_args(x, prev, clash)
    if clash or any(b in x.free for x in (ini, stp) for b in own):
        raise Unsupported("nested recurrences")
    ren = {vname(marks[d]): ivar(names[i]) for i, d in enumerate(keep)}
    ren[vname(kv)] = ivar("$k")
    ini = substitute(ini, ren)
    stp = map_app(substitute(stp, ren), mp, lambda a: app(prev, [a[d] for d in keep]))
    left = [args[d] for d in keep]
    f, stp = rec_factor(stp, prev, names)
    if f is not None:
        return mul(Prod(ivar("$k"), n, f), Rec_raw(names, n, ini, stp, prev, left))
    return Rec_raw(names, n, ini, stp, prev, left)


# ---------------------------------------------------------------- named definitions
OPAQUE = {}     # name -> (parameter names, content)
OKEY = {}       # (prefix, printed content) -> name


def canonical(content, own):
    """(free generated variables, content with them renamed canonically)"""
    frees = sorted(k for k in content.free if k not in own and k[1] == "I" and ("!" in k[0] or k[0].startswith("$")))
    ren = {k: ivar(f"$f{i}") for i, k in enumerate(frees)}
    return frees, substitute(content, ren)


def define(prefix, content, own):
    """a name for the function own |-> content (equal contents get equal names).
    returns (name, extra arguments)"""
    frees, c = canonical(content, own)
    key = (prefix, len(own), show(c))
    name = OKEY.get(key)
    if name is None:
        name = OKEY[key] = f"{prefix}~{len(OKEY)}"
        OPAQUE[name] = ([f"$f{i}" for i in range(len(frees))] + [k[0] for k in own], c)
    return name, [ivar(k[0]) for k in frees]


def unfold(p, memo=None):
    """replace named functions by their definitions"""
    memo = {} if memo is None else memo
    if p in memo:
        return memo[p]
    tot = []
    for m, c in p.d.items():
        t = num(c)
        for a, e in m:
            t = mul(t, power(_unfold_atom(a, memo), unfold(e, memo) if isinstance(e, P) else e))
        tot.append(t)
    r = memo[p] = add(*tot)
    return r


def mentions_opaque(p, seen=None):
    seen = set() if seen is None else seen
    for a in p.atoms():
        if a in seen:
            continue
        seen.add(a)
        if a.kind == "app" and a.args[0] in OPAQUE:
            return True
        if any(mentions_opaque(x, seen) for x in _subs(a.kind, a.args)):
            return True
    return any(isinstance(e, P) and mentions_opaque(e, seen) for m in p.d for a, e in m)


def _unfold_atom(a, memo):
    k = a.kind
    if k == "var":
        return atomP(a)
    if k == "app":
        args = [unfold(x, memo) for x in a.args[1]]
        if a.args[0] in OPAQUE:
            ps, c = OPAQUE[a.args[0]]
            return unfold(substitute(c, {(n, "I"): v for n, v in zip(ps, args)}), memo)
        return app(a.args[0], args, a.sort)
    if k == "fn":
        return fn(a.args[0], unfold(a.args[1], memo))
    if k == "poly":
        return unfold(a.args[0], memo)
    if k == "ind":
        c = a.args[0]
        if c[0] == "le0":
            return ind(le(unfold(c[1], memo), num(0)))
        if c[0] == "eq0":
            return ind(eq(unfold(c[1], memo), num(0)))
        return atomP(a)
    if k in ("SUM", "MAX", "PROD"):
        bs, ns, body = open_binders(a)
        ns = [unfold(n, memo) for n in ns]
        body = unfold(body)
        if k == "SUM":
            return Sum(list(zip(bs, ns)), body)
        if k == "MAX":
            return Max(list(zip(bs, ns)), body)
        return Prod(bs[0], ns[0], body)
    if k == "rec":
        names, n, init, step, prev, args = a.args
        return Rec_raw(names, unfold(n, memo), unfold(init), unfold(step), prev, [unfold(x, memo) for x in args])
    if k == "mod":
        return mod(unfold(a.args[0], memo), unfold(a.args[1], memo))
    if k == "fdiv":
        return fdiv(unfold(a.args[0], memo), unfold(a.args[1], memo))
    raise KeyError(k)


# ---------------------------------------------------------------- printing
_show_cache = {}


def show(p):
    r = _show_cache.get(p)
    if r is None:
        parts = []
        for m, c in p.d.items():
            f = []
            for a, e in m:
                s = show_atom(a)
                if isinstance(e, P):
                    s += "^(" + show(e) + ")"
                elif e != 1:
                    s += "^" + (str(e) if e.denominator == 1 else "(" + str(e) + ")")
                f.append(s)
            f.sort()
            if c == 1 and f:
                parts.append("*".join(f))
            elif c == -1 and f:
                parts.append("-" + "*".join(f))
            else:
                parts.append("*".join([str(c)] + f))
        parts.sort()
        r = " + ".join(parts).replace("+ -", "- ") if parts else "0"
        _show_cache[p] = r
    return r


_show_atom = {}


def show_atom(a):
    s = _show_atom.get(a)
    if s is None:
        s = _show_atom[a] = _sa(a)
    return s


def _sa(a):
    k = a.kind
    if k == "var":
        return a.args[0]
    if k == "app":
        return f"{a.args[0]}({', '.join(show(x) for x in a.args[1])})"
    if k == "fn":
        return f"{a.args[0]}({show(a.args[1])})"
    if k == "poly":
        return f"({show(a.args[0])})"
    if k == "ind":
        return f"[{show_cond(a.args[0])}]"
    if k in ("SUM", "PROD", "MAX"):
        return f"{k}[{', '.join(f'{b}<{show(n)}' for b, n in zip(a.args[0], a.args[1]))}]({show(a.args[2])})"
    if k == "rec":
        return f"rec[{show(a.args[1])}; {show(a.args[2])}; {show(a.args[3])}]({', '.join(show(x) for x in a.args[5])})"
    if k == "mod":
        return f"mod({show(a.args[0])}, {show(a.args[1])})"
    return f"{k}({', '.join(show(x) for x in a.args)})"


def show_cond(c):
    if c[0] == "le0":
        return f"{show(c[1])} <= 0"
    if c[0] == "eq0":
        return f"{show(c[1])} == 0"
    return f"{c[1]}({', '.join(show(x) for x in c[2])})" if c[2] else c[1]


def show_b(b):
    if b.op == "atom":
        return show_cond(b.args[0])
    if b.op == "not":
        return f"not({show_b(b.args[0])})"
    if b.op in ("and", "or"):
        return "(" + f" {b.op} ".join(show_b(x) for x in b.args) + ")"
    return b.op


# ---------------------------------------------------------------- numeric evaluation
class EvalError(Exception):
    pass


MP = False      # evaluate with 50 digits (used to confirm a mismatch)


def evaluate(p, env, bound=None):
    """numeric value. env: name -> number, or for apps name -> callable/ndarray"""
    if MP:
        return _evaluate(p, env, bound)
    import numpy as np
    return _evaluate(p, env, bound)


def _evaluate(p, env, bound=None):
    import numpy as np
    if MP:
        import mpmath
        mpmath.mp.dps = 50

        def lift(x):
            return mpmath.mpf(float(x)) if isinstance(x, (float, np.floating)) else x
    else:
        def lift(x):
            return x
    bound = bound or {}
    cache = {}

    def ev(p, bd):
        key = (p, tuple(sorted((k, v) for k, v in bd.items() if (k, "I") in p.free)))
        if key in cache:
            return cache[key]
        tot = 0
        for m, c in p.d.items():
            # indicators first: 0 * undefined = 0
            t = c if c.denominator != 1 else int(c)
            z = False
            for a, e in m:
                if a.kind == "ind":
                    if not evc(a.args[0], bd):
                        z = True
                        break
            if z:
                continue
            if isinstance(t, Fraction):
                t = mpmath.mpf(t.numerator) / t.denominator if MP else float(t)
            for a, e in m:
                if a.kind == "ind":
                    continue
                if t == 0:
                    break           # 0 * anything (possibly undefined outside its guard) = 0
                x = eva(a, bd)
                if MP and not isinstance(x, int) or MP and (isinstance(e, P) or e != 1):
                    x = mpmath.mpf(x)
                    y = ev(e, bd) if isinstance(e, P) else (int(e) if e.denominator == 1 else mpmath.mpf(e.numerator) / e.denominator)
                    if y != 1:
                        try:
                            if x < 0 and abs(x) < mpmath.mpf(10) ** -25 and y != int(y):
                                x = mpmath.mpf(0)
                            x = x ** y
                        except ZeroDivisionError:
                            x = mpmath.nan
                        if isinstance(x, mpmath.mpc):
                            x = mpmath.nan
                elif isinstance(e, P):
                    x = x ** ev(e, bd)
                elif e != 1:
                    if e.denominator == 1:
                        x = np.float64(x) ** int(e) if e < 0 else x ** int(e)
                    else:
                        x = np.float64(x) ** float(e)
                t = t * x
            tot = tot + t
        cache[key] = tot
        return tot

    def evc(c, bd):
        if c[0] == "le0":
            return ev(c[1], bd) <= 0
        if c[0] == "eq0":
            return ev(c[1], bd) == 0
        v = env[c[1]]
        return v(*[ev(x, bd) for x in c[2]]) if callable(v) else bool(v)

    def eva(a, bd):
        k = a.kind
        if k == "var":
            n = a.args[0]
            if n in bd:
                return lift(bd[n])
            if n in env:
                return lift(env[n])
            raise EvalError(n)
        if k == "app":
            args = [ev(x, bd) for x in a.args[1]]
            if a.args[0] in OPAQUE:
                ps, c = OPAQUE[a.args[0]]
                return ev(c, dict(zip(ps, args)))
            f = bd.get(a.args[0]) or env.get(a.args[0])
            if f is None:
                raise EvalError(a.args[0])
            return lift(f(*args))
        if k == "fn":
            x = ev(a.args[1], bd)
            name = a.args[0]
            if name == "trunc":
                return int(x)
            if MP:
                if name == "f32":
                    return mpmath.mpf(float(np.float32(float(x))))
                if name == "abs":
                    return abs(x)
                if name == "round2":
                    return mpmath.mpf(float(format(float(x), ".2f")))
                if name == "sqrt" and x < 0 and abs(x) < mpmath.mpf(10) ** -25:
                    x = mpmath.mpf(0)
                y = getattr(mpmath, {"log": "ln"}.get(name, name))(x)
                return y if isinstance(y, mpmath.mpf) else mpmath.nan
            if name == "round2":
                return float(format(float(x), ".2f"))
            f = {"abs": np.abs, "f32": np.float32}.get(name) or getattr(np, name)
            return f(x)
        if k == "poly":
            return ev(a.args[0], bd)
        if k == "ind":
            return int(evc(a.args[0], bd))
        if k in ("SUM", "MAX", "PROD"):
            names, ns, body = a.args
            vals = []

            def loop(i, bd):
                if i == len(names):
                    vals.append(ev(body, bd))
                    return
                for v in range(int(ev(ns[i], bd))):
                    b2 = dict(bd)
                    b2[names[i]] = v
                    loop(i + 1, b2)
            loop(0, bd)
            if k == "SUM":
                return sum(vals) if vals else 0
            if k == "MAX":
                return max(vals)
            r = 1
            for v in vals:
                r = r * v
            return r
        if k == "rec":
            names, n, init, step, prev, args = a.args
            n = int(ev(n, bd))
            memo = {}

            def R(k, args):
                if (k, args) in memo:
                    return memo[(k, args)]
                b2 = dict(bd)
                for nm, v in zip(names[:-1], args):
                    b2[nm] = v
                if k == 0:
                    r = ev(init, b2)
                else:
                    b2["$k"] = k - 1
                    b2[prev] = lambda *x: R(k - 1, tuple(int(y) for y in x))
                    r = evn(step, b2)
                memo[(k, args)] = r
                return r

            def evn(p, b2):
                return evaluate(p, env, b2)
            return R(n, tuple(int(ev(x, bd)) for x in args))
        if k == "mod":
            return ev(a.args[0], bd) % ev(a.args[1], bd)
        if k == "fdiv":
            return ev(a.args[0], bd) // ev(a.args[1], bd)
        raise EvalError(k)

    return ev(p, dict(bound))
