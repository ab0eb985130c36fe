"""Discharging obligations: conditions go to z3 (cvc5 re-checks), equalities of terms are
reduced by the normal form of terms.py, index-condition resolution, case splits and
clearing of denominators, and the remainder goes to z3."""
import time
import itertools
from fractions import Fraction
import z3
from .terms import *
from . import terms as T

STATS = {"z3_calls": 0, "z3_time": 0.0, "normaliser": 0, "z3": 0, "cvc5": 0, "cvc5_time": 0.0}
TIMEOUT_MS = 4000


class Translator:
    def __init__(self):
        self.memo = {}
        self.side = []

    def poly(self, p, want=None):
        isint = p.is_int
        r = self.memo.get(p)
        if r is None:
            terms = []
            for m, c in p.d.items():
                fs = []
                for a, e in m:
                    x = self.atom(a)
                    if not isint and a.sort == "I":
                        x = z3.ToReal(x) if z3.is_int(x) else x
                    if isinstance(e, P) or e.denominator != 1:
                        x = z3.Real(f"pow!{a.id}!{show(e) if isinstance(e, P) else e}")
                        if isinstance(e, Fraction) and e.denominator == 2 and e > 0:
                            pass
                    elif e < 0:
                        x0 = x
                        y = z3.Real(f"inv!{a.id}")
                        self.side.append(z3.Implies(x0 != 0, y * x0 == 1))
                        x = y
                        k = -int(e)
                        x = y
                        for _ in range(k - 1):
                            x = x * y
                    elif e != 1:
                        b = x
                        for _ in range(int(e) - 1):
                            x = x * b
                    fs.append(x)
                cc = z3.IntVal(int(c)) if isint else z3.RealVal(f"{c.numerator}/{c.denominator}")
                if not fs:
                    t = cc
                else:
                    t = fs[0]
                    for f in fs[1:]:
                        t = t * f
                    if c != 1:
                        t = cc * t
                terms.append(t)
            r = z3.Sum(terms) if len(terms) > 1 else (terms[0] if terms else (z3.IntVal(0) if isint else z3.RealVal(0)))
            self.memo[p] = r
        if want == "R" and z3.is_int(r):
            return z3.ToReal(r)
        return r

    def atom(self, a):
        r = self.memo.get(a)
        if r is not None:
            return r
        k = a.kind
        if k == "var":
            r = z3.Int(a.args[0]) if a.sort == "I" else z3.Real(a.args[0])
        elif k == "app":
            args = [self.poly(x) for x in a.args[1]]
            sig = "".join("i" if z3.is_int(x) else "r" for x in args)
            rs = z3.IntSort() if a.sort == "I" else z3.RealSort()
            if args:
                f = z3.Function(f"{a.args[0]}!{sig}", *[x.sort() for x in args], rs)
                r = f(*args)
            else:
                r = z3.Const(a.args[0], rs)
            if a.args[0] in T.POSITIVE:
                self.side.append(r > 0)
            if a.args[0] in T.BOUNDS:
                lo, hi = T.BOUNDS[a.args[0]]
                self.side.append(z3.And(r >= self.poly(lo), r < self.poly(hi)))
        elif k == "ind":
            r = z3.If(self.cond(a.args[0]), z3.IntVal(1), z3.IntVal(0))
        elif k == "fn":
            x = self.poly(a.args[1], "R")
            f = z3.Function(f"fn!{a.args[0]}", z3.RealSort(), z3.IntSort() if a.sort == "I" else z3.RealSort())
            r = f(x)
            if a.args[0] in ("exp", "cosh"):
                self.side.append(r > 0)
            elif a.args[0] in ("sinh", "tanh"):
                self.side.append((r > 0) == (x > 0))
                self.side.append((r < 0) == (x < 0))
            elif a.args[0] == "abs":
                self.side.append(r == z3.If(x >= 0, x, -x))
        elif k == "poly":
            r = self.poly(a.args[0], "R")
        elif k == "mod":
            x, n = self.poly(a.args[0]), self.poly(a.args[1])
            r = z3.Int(f"mod!{a.id}")
            q = z3.Int(f"modq!{a.id}")
            self.side.append(z3.Implies(n > 0, z3.And(r >= 0, r < n, x == q * n + r)))
            self.side.append(z3.Implies(z3.And(x >= 0, x < n), r == x))
        elif k == "fdiv":
            x, n = self.poly(a.args[0]), self.poly(a.args[1])
            r = z3.Int(f"fdiv!{a.id}")
            self.side.append(z3.Implies(n > 0, z3.And(r * n <= x, x < r * n + n)))
        else:
            r = z3.Int(f"at!{a.id}") if a.sort == "I" else z3.Real(f"at!{a.id}")
            if atom_positive(a):
                self.side.append(r > 0)
        self.memo[a] = r
        return r

    def cond(self, c):
        if c[0] == "le0":
            return self.poly(c[1]) <= 0
        if c[0] == "eq0":
            return self.poly(c[1]) == 0
        if c[2]:
            args = [self.poly(x) for x in c[2]]
            f = z3.Function(c[1], *[x.sort() for x in args], z3.BoolSort())
            return f(*args)
        return z3.Bool(c[1])

    def b(self, b):
        if b.op == "true":
            return z3.BoolVal(True)
        if b.op == "false":
            return z3.BoolVal(False)
        if b.op == "atom":
            return self.cond(b.args[0])
        if b.op == "not":
            return z3.Not(self.b(b.args[0]))
        if b.op == "and":
            return z3.And(*[self.b(x) for x in b.args])
        return z3.Or(*[self.b(x) for x in b.args])


_cache = {}
_trans = {}


def translated(h):
    """one hypothesis for z3, with its side conditions (translations are kept, the names are canonical)"""
    r = _trans.get(h)
    if r is None:
        tr = Translator()
        e = tr.b(h)
        r = _trans[h] = (e, tr.side)
    return r


def check(hyps, timeout=TIMEOUT_MS, want_model=False):
    """satisfiability of the conjunction of B's: 'sat' / 'unsat' / 'unknown' (and a model)"""
    key = (tuple(h.key() for h in hyps), want_model)
    if key in _cache and not want_model:
        return _cache[key]
    t = time.time()
    s = z3.Solver()
    s.set("timeout", timeout)
    for h in hyps:
        e, side = translated(h)
        s.add(e, *side)
    r = str(s.check())
    STATS["z3_calls"] += 1
    STATS["z3_time"] += time.time() - t
    if want_model:
        return r, (s.model() if r == "sat" else None), Translator()
    _cache[key] = r
    return r


def cvc5_confirm(hyps):
    """independent check of an unsat answer; returns the answer as text"""
    import cvc5
    t = time.time()
    tr = Translator()
    s = z3.Solver()
    for h in hyps:
        s.add(tr.b(h))
    for x in tr.side:
        s.add(x)
    txt = s.to_smt2()
    try:
        slv = cvc5.Solver()
        slv.setOption("tlimit-per", "4000")
        slv.setLogic("ALL")
        parser = cvc5.InputParser(slv)
        parser.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, "vc")
        sm = parser.getSymbolManager()
        out = ""
        while True:
            cmd = parser.nextCommand()
            if cmd.isNull():
                break
            out = cmd.invoke(slv, sm) or out
        STATS["cvc5_time"] += time.time() - t
        return out.strip().split("\n")[-1]
    except Exception as e:  # pragma: no cover
        STATS["cvc5_time"] += time.time() - t
        return f"error {e}"


def entails(hyps, b):
    """True when hyps |= b is proved"""
    if b.op == "true":
        return True
    nb = b_not(b)
    if b.op == "false":
        return check(list(hyps)) == "unsat"
    return check(list(hyps) + [nb]) == "unsat"


def decide(hyps, b):
    """'T' if hyps |= b, 'F' if hyps |= not b, None otherwise"""
    if b.op == "true":
        return "T"
    if b.op == "false":
        return "F"
    if entails(hyps, b):
        return "T"
    if entails(hyps, b_not(b)):
        return "F"
    return None


def relevant(hyps):
    return [h for h in hyps if h.op != "true"]


def ranges_of(vs, ns):
    out = []
    for v, n in zip(vs, ns):
        out.append(le(num(0), v))
        out.append(lt(v, n))
    return out


def simp(p, hyps, memo=None):
    """resolve Iverson brackets (also below binders) and bounded remainders under the hypotheses"""
    if memo is None:
        memo = {}
    if p in memo:
        return memo[p]
    if not needs_simp(p):
        memo[p] = p
        return p
    tot = []
    for m, c in p.d.items():
        t = num(c)
        for a, e in m:
            ee = simp(e, hyps, memo) if isinstance(e, P) else e
            t = mul(t, power(simp_atom(a, hyps, memo), ee))
        tot.append(t)
    r = add(*tot)
    memo[p] = r
    return r


_ns = {}


def needs_simp(p):
    r = _ns.get(p)
    if r is None:
        r = any(_atom_needs(a) for a in p.atoms()) or any(isinstance(e, P) and needs_simp(e) for m in p.d for a, e in m)
        _ns[p] = r
    return r


def _atom_needs(a):
    if a.kind in ("ind", "mod", "fdiv"):
        return True
    return any(needs_simp(x) for x in T._subs(a.kind, a.args))


def drop_contradictions(p, hyps):
    """without the monomials whose conditions exclude one another"""
    out = {}
    for m, c in p.d.items():
        cs = [B("atom", a.args[0]) for a, e in m if a.kind == "ind"]
        if len(cs) < 2 or not entails(hyps, b_not(b_and(*cs))):
            out[m] = c
    return P(out) if len(out) < len(p.d) else p


def simp_cond(c, hyps, memo):
    if c[0] == "le0":
        return le(simp(c[1], hyps, memo), num(0))
    if c[0] == "eq0":
        return eq(simp(c[1], hyps, memo), num(0))
    return B("atom", (c[0], c[1], tuple(simp(x, hyps, memo) for x in c[2])))


def simp_atom(a, hyps, memo):
    if not _atom_needs(a):
        return atomP(a)
    k = a.kind
    if k == "ind":
        b = simp_cond(a.args[0], hyps, memo)
        d = decide(hyps, b)
        if d == "T":
            return num(1)
        if d == "F":
            return num(0)
        return ind(b)
    if k == "app":
        return app(a.args[0], [simp(x, hyps, memo) for x in a.args[1]], a.sort)
    if k == "fn":
        return fn(a.args[0], simp(a.args[1], hyps, memo))
    if k == "poly":
        return simp(a.args[0], hyps, memo)
    if k == "mod":
        x, n = simp(a.args[0], hyps, memo), simp(a.args[1], hyps, memo)
        if x.const is not None and n.const is not None:
            return mod(x, n)
        if entails(hyps, b_and(le(num(0), x), lt(x, n))):
            return x
        if entails(hyps, b_and(le(n, x), lt(x, add(n, n)))):
            return sub(x, n)
        if entails(hyps, b_and(lt(x, num(0)), le(neg(n), x))):
            return add(x, n)
        if entails(hyps, b_and(le(num(0), x), lt(x, add(n, n)))):
            return ite(lt(x, n), x, sub(x, n))
        if entails(hyps, b_and(le(neg(n), x), lt(x, n))):
            return ite(le(num(0), x), x, add(x, n))
        return mod(x, n)
    if k == "fdiv":
        return fdiv(simp(a.args[0], hyps, memo), simp(a.args[1], hyps, memo))
    if k in ("SUM", "MAX", "PROD"):
        ns0 = [simp(n, hyps, memo) for n in a.args[1]]
        bs, _, body = T.open_binders(a)
        h2 = list(hyps) + ranges_of(bs, ns0)
        body = simp(body, h2, {})
        if k == "PROD":
            body = drop_contradictions(body, h2)
        if k == "SUM":
            return Sum(list(zip(bs, ns0)), body)
        if k == "MAX":
            return Max(list(zip(bs, ns0)), body)
        return Prod(bs[0], ns0[0], body)
    if k == "rec":
        names, n, init, step, prev, args = a.args
        return atomP(Atom("rec", (names, simp(n, hyps, memo), simp(init, hyps, {}), simp(step, hyps, {}),
                                  prev, tuple(simp(x, hyps, memo) for x in args))))
    raise KeyError(k)


def find_indicators(p, out, bound=frozenset()):
    """atomic conditions without bound variables, outermost first"""
    for a in p.atoms():
        _fi_atom(a, out, bound)
    for m in p.d:
        for a, e in m:
            if isinstance(e, P):
                find_indicators(e, out, bound)


def _fi_atom(a, out, bound):
    if a.kind == "ind":
        if not any(b in a.free for b in bound):
            if a not in out:
                out.append(a)
    if a.kind in ("SUM", "MAX", "PROD"):
        bound = bound | {(b, "I") for b in a.args[0]}
    if a.kind == "rec":
        bound = bound | {(b, "I") for b in a.args[0]}
    for x in T._subs(a.kind, a.args):
        find_indicators(x, out, bound)


def clear_denominators(p, limit=12):
    for _ in range(limit):
        worst = None
        for m in p.d:
            for a, e in m:
                if a.kind == "poly" and not isinstance(e, P) and e < 0 and e.denominator == 1:
                    if worst is None or e < worst[1]:
                        worst = (a, e)
        if worst is None:
            return p
        a, e = worst
        p = mul(p, atomP(a, -e))
    return p


class Verdict:
    def __init__(self, ok, backend="", detail="", model=None, cond=()):
        self.ok, self.backend, self.detail, self.model, self.cond = ok, backend, detail, model, tuple(cond)

    def __bool__(self):
        return self.ok


def solve_eq(p):
    """a free variable of an equation p == 0 that can be eliminated: (name, solution)"""
    best = None
    for m, c in p.d.items():
        if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "var" and c in (1, -1):
            v = m[0][0]
            rest = P({k: x for k, x in p.d.items() if k != m})
            if v.args in rest.free:
                continue
            sol = scale(rest, -Fraction(1) / c)
            if v.sort == "I" and not sol.is_int:
                continue
            # prefer eliminating generated names
            rank = (0 if "!" in v.args[0] else 1, v.args[0])
            if best is None or rank < best[0]:
                best = (rank, v.args, sol)
    return best and best[1:]


def eliminate(p, hyps):
    """use equations among the hypotheses to eliminate variables"""
    hyps = list(hyps)
    for _ in range(12):
        for i, h in enumerate(hyps):
            if h.op == "atom" and h.args[0][0] == "eq0":
                s = solve_eq(h.args[0][1])
                if s:
                    sub_ = {s[0]: s[1]}
                    hyps = [map_b(x, lambda c: T.subst_cond(c, sub_, {})) for j, x in enumerate(hyps) if j != i]
                    p = substitute(p, sub_)
                    break
        else:
            break
    out = []
    for h in hyps:
        out.extend(h.args if h.op == "and" else [h])
    return p, [h for h in out if h.op != "true"]


def root_tactic(d, hyps, depth):
    """x - y = 0 for non-negative monomials x, y with square roots: from x^2 = y^2"""
    if len(d.d) != 2:
        return False
    (m1, c1), (m2, c2) = d.d.items()
    if c1 * c2 > 0:
        return False
    half = lambda m: any(not isinstance(e, P) and e.denominator == 2 for a, e in m)
    if not (half(m1) or half(m2)):
        return False
    sides = []
    common = dict(m1)
    for m, c in ((m1, abs(c1)), (m2, abs(c2))):
        other = dict(m2 if m is m1 else m1)
        rest = [(a, e) for a, e in m if other.get(a) != e]
        for a, e in rest:
            if isinstance(e, P):
                return False
            if e.denominator == 2 or e.numerator % 2 == 0:
                continue
            if not T.atom_positive(a) and not entails(hyps, T.lt(num(0), atomP(a))):
                return False
        sq = num(c * c)
        for a, e in rest:
            sq = mul(sq, T.power(a.args[0] if a.kind == "poly" else atomP(a), 2 * e))
        sides.append(sq)
    return bool(prove_eq(sides[0], sides[1], hyps, depth + 2))


def implied_equality(d, hyps):
    """{variable: value} for an integer variable of d that the hypotheses force to equal another one (plus a constant)"""
    vs = sorted(k for k in d.free if k[1] == "I")
    if not 1 <= len(vs) <= 9:
        return None
    r, m, tr = check(hyps, want_model=True)
    if r != "sat":
        return None
    val = {}
    for k in vs:
        try:
            val[k] = m.eval(tr.poly(ivar(k[0])), model_completion=True).as_long()
        except Exception:
            try:
                val[k] = int(str(m.eval(tr.poly(ivar(k[0])), model_completion=True)))
            except Exception:
                return None
    order = sorted(vs, key=lambda k: ("!" in k[0], k))
    for i, k in enumerate(order):
        for j in order[:i]:
            v = add(ivar(j[0]), num(val[k] - val[j]))
            if entails(hyps, eq(ivar(k[0]), v)):
                return {k: v}
    for k in order:
        if entails(hyps, eq(ivar(k[0]), num(val[k]))):
            return {k: num(val[k])}
    return None


def positive_parts(hyps):
    for h in hyps:
        if h.op == "and":
            yield from positive_parts(h.args)
        else:
            yield h


def apps_of(p, out, seen):
    """applications without bound variables"""
    if p in seen:
        return
    seen.add(p)
    for m in p.d:
        for a, e in m:
            _apps_atom(a, out, seen)


def _apps_atom(a, out, seen):
    if a.kind == "app":
        out.setdefault(a.args[0], set()).add(a.args[1])
    if a.kind in ("SUM", "MAX", "PROD", "rec"):
        return
    for x in T._subs(a.kind, a.args):
        if isinstance(x, P):
            apps_of(x, out, seen)


def places_of(p, out, seen):
    """(function, argument position) -> arguments without bound variables, also inside sums"""
    if p in seen:
        return
    seen.add(p)
    for m in p.d:
        for a, e in m:
            _places_atom(a, out, seen)


def _places_atom(a, out, seen):
    if a.kind == "app":
        for i, x in enumerate(a.args[1]):
            if not any(str(n[0]).startswith("#") for n in x.free):
                out.setdefault((a.args[0], i), {})[x] = True
    for x in T._subs(a.kind, a.args):
        if isinstance(x, P):
            places_of(x, out, seen)


def summed_instances(canon, shape, qs, used, d):
    """assignments of the quantified variables under which a sum of the pattern becomes one of d"""
    sums = [a for m in d.d for a, e in m if a.kind == "SUM"]
    if not sums:
        return
    pat, got = {}, {}
    places_of(canon, pat, set())
    places_of(d, got, set())
    cands = []
    for q in used:
        c = None
        for place, args in pat.items():
            if q in args:
                g = set(got.get(place, {}))
                c = g if c is None else c & g
        if not c:
            return
        cands.append(sorted(c, key=T.show))
    total = 1
    for c in cands:
        total *= len(c)
    if total > 200:
        return
    want = set(sums)
    for vals in itertools.product(*cands):
        s = dict(zip(used, vals))
        body = T.substitute(canon, {T.vname(q): v for q, v in s.items()})
        inst = set()
        for m in body.d:
            for a, e in m:
                if a.kind == "SUM":
                    inst.add(a)
                elif a.kind == "ind":
                    for x in T._subs(a.kind, a.args):
                        if isinstance(x, P):
                            inst |= {b for mm in x.d for b, _ in mm if b.kind == "SUM"}
        if inst & want:
            yield s


def solve_for(x, qs):
    """x = q + rest for exactly one of the variables"""
    fr = [q for q in qs if T.vname(q) in x.free]
    if len(fr) != 1:
        return None
    rest = T.sub(x, fr[0])
    return None if T.vname(fr[0]) in rest.free else (fr[0], rest)


def vanishing_product(d, hyps):
    """(a product in d, a condition under which one of its factors is zero), or None"""
    for a in d.atoms():
        if a.kind == "PROD":
            for c in zero_factor(a, hyps):
                return a, c
    return None


def zero_factor(a, hyps, depth=0):
    (n,) = [simp(x, hyps) for x in a.args[1]]
    (v,), _, body = T.open_binders(a)
    inds, seen = [], set()
    find_indicators(body, inds)
    for i in inds:
        if i.args[0][0] != "eq0":
            continue
        o = solve_eq_for(i.args[0][1], v)
        if o is None or o in seen:
            continue
        seen.add(o)
        rng = b_and(le(num(0), o), lt(o, n))
        if check(hyps + [rng]) == "unsat":
            continue
        yield from zero_cases(substitute(body, {T.vname(v): o}), hyps, [rng], depth)


def zero_cases(b, hyps, cs, depth):
    b = simp(b, list(hyps) + cs)
    if not b.d:
        yield b_and(*cs)
        return
    top = [x for x in b.atoms() if x.kind == "ind"]
    if top and len(cs) < 4:
        c = B("atom", top[0].args[0])
        for q in (c, b_not(c)):
            if check(list(hyps) + cs + [q]) != "unsat":
                yield from zero_cases(b, hyps, cs + [q], depth)
    elif len(b.d) == 1 and depth < 3:
        (m, _), = b.d.items()
        for x, e in m:
            if x.kind == "PROD":
                for c in zero_factor(x, list(hyps) + cs, depth + 1):
                    yield b_and(*cs, c)


def solve_eq_for(p, v):
    """the value of v, free of bound variables, that makes p zero"""
    one = T.substitute(p, {T.vname(v): num(1)})
    zero = T.substitute(p, {T.vname(v): num(0)})
    k = T.sub(one, zero).const
    if k not in (1, -1) or T.sub(p, T.add(zero, T.scale(v, k))).d:
        return None
    o = T.scale(zero, -k)
    return None if any(str(f[0]).startswith("#") for f in o.free) else o


def contradictory(hyps, depth=0):
    """the hypotheses, the universally quantified ones included, cannot all hold"""
    if check(list(hyps)) == "unsat":
        return True
    if not T.FORALL:
        return False
    for h in positive_parts(hyps):
        if not (h.op == "not" and h.args[0].op == "atom"):
            continue
        a = h.args[0].args[0]
        if a[0] != "bvar" or a[1] not in T.FORALL:
            continue
        canon, shape = T.FORALL[a[1]]
        ws = [T.ivar(f"$w{i}") for i in range(len(shape))]     # a counterexample of the negated statement
        body = T.substitute(canon, {(T.vname(T.ivar(f"$q{i}"))): w for i, w in enumerate(ws)})
        if refuted(list(hyps) + ranges_of(ws, shape), body):
            return True
    return False


def refuted(hyps, body, depth=3):
    body = simp(body, hyps)
    b = as_b(body)
    hy = hyps + [b_not(b)]
    if check(hy) == "unsat":
        return True
    inst = instances(hy, body)
    if inst and check(hy + inst) == "unsat":
        return True
    if depth:
        conds = []
        open_conditions(body, conds, set())
        for c in conds:
            c = B("atom", c)
            if decide(hyps, c) is None:
                return refuted(hyps + [c], body, depth - 1) and refuted(hyps + [b_not(c)], body, depth - 1)
    return False


def open_conditions(p, out, seen):
    if p in seen:
        return
    seen.add(p)
    for m in p.d:
        for a, e in m:
            if a.kind in ("SUM", "MAX", "PROD", "rec"):
                continue
            if a.kind == "ind" and a.args[0][0] == "le0":
                out.append(a.args[0])
            for x in T._subs(a.kind, a.args):
                if isinstance(x, P):
                    open_conditions(x, out, seen)


def instances(hyps, d):
    """instances of the universally quantified hypotheses at the applications in d"""
    if not T.FORALL:
        return []
    todo = [h.args[0][1] for h in positive_parts(hyps) if h.op == "atom" and h.args[0][0] == "bvar" and h.args[0][1] in T.FORALL]
    out, have = [], set()
    if not todo:
        return out
    apps = {}
    apps_of(d, apps, set())
    for key in todo:
        canon, shape = T.FORALL[key]
        shape = [simp(x, hyps) for x in shape]
        n = len(shape)
        trig = {}
        apps_of(canon, trig, set())
        qs = [T.ivar(f"$q{i}") for i in range(n)]
        used = [q for q in qs if T.vname(q) in canon.free]
        for name, argss in trig.items():
            for pat in argss:
                sol = [solve_for(x, qs) for x in pat]
                if not all(any(o is not None and o[0] is q for o in sol) for q in used):
                    continue
                for got in apps.get(name, ()):
                    s, ok = {}, True
                    for x, o, y in zip(pat, sol, got):
                        if o is not None:
                            y = T.sub(y, o[1])
                            ok = ok and s.setdefault(o[0], y) is y
                        else:
                            ok = ok and x is y
                    if not ok:
                        continue
                    take(canon, shape, qs, s, hyps, out, have)
        for s in summed_instances(canon, shape, qs, used, d):
            take(canon, shape, qs, s, hyps, out, have)
    return out


def take(canon, shape, qs, s, hyps, out, have):
    at = [s.get(q, T.num(0)) for q in qs]
    if not entails(hyps, b_and(*ranges_of(at, shape))):
        return
    body = T.substitute(canon, {T.vname(q): v for q, v in s.items()})
    b = as_b(body)
    if b is not None and b not in have:
        have.add(b)
        out.append(b)


def as_b(t):
    """the condition of a 0/1 valued term"""
    if len(t.d) == 1:
        (m, c), = t.d.items()
        if c == 1 and m and all(a.kind == "ind" for a, e in m):
            return b_and(*[B("atom", a.args[0]) for a, e in m])
    if len(t.d) == 2 and t.d.get(()) == 1:
        (m, c), = [x for x in t.d.items() if x[0] != ()]
        if c == -1 and len(m) == 1 and m[0][0].kind == "ind":
            return b_not(B("atom", m[0][0].args[0]))
    return eq(t, T.num(1))


def rewrite(d, eqs):
    """replace applications by what the equations say"""
    for b in positive_parts(eqs):
        if b.op == "atom" and b.args[0][0] == "eq0":
            p = b.args[0][1]
            for m, c in p.d.items():
                if len(m) == 1 and m[0][1] == 1 and m[0][0].kind in ("app", "SUM"):
                    rest = P({k: x for k, x in p.d.items() if k != m})
                    d = replace_atom(d, m[0][0], T.scale(rest, -Fraction(1) / c))
                    break
    return d


def replace_atom(d, a, v):
    out = T.num(0)
    for m, c in d.d.items():
        t = T.num(c)
        for x, e in m:
            f = v if x is a else T.atomP(x)
            t = T.mul(t, T.power(f, e) if not isinstance(e, P) and e != 1 or isinstance(e, P) else f)
        out = T.add(out, t)
    return out


def mentions_mod(p):
    return any(a.kind == "mod" or any(mentions_mod(x) for x in T._subs(a.kind, a.args)) for a in p.atoms())


def prove_eq(lhs, rhs, hyps, depth=0):
    v = _prove_eq(lhs, rhs, hyps, depth)
    if not v and depth == 0:
        d = sub(lhs, rhs)
        if T.mentions_opaque(d):
            v = _prove_eq(T.unfold(lhs), T.unfold(rhs), hyps, 0)
        if not v and mentions_mod(d):
            e = T.expand_mod(d)
            if e is not d and _prove_eq(e, num(0), hyps, 0):
                return Verdict(True, "normaliser+z3")
        if not v:
            more = instances(hyps, d)
            if more:
                w = _prove_eq(rewrite(d, more), num(0), hyps + more, 0)
                return w if w else v
    return v


def _prove_eq(lhs, rhs, hyps, depth=0):
    hyps = relevant(hyps)
    d = sub(lhs, rhs)
    if d.d:
        d, hyps = eliminate(d, hyps)
        if any(h.op == "false" for h in hyps):
            return Verdict(True, "normaliser")
    if not d.d:
        STATS["normaliser"] += 1
        return Verdict(True, "normaliser")
    d = simp(d, hyps)
    d = clear_denominators(d)
    if not d.d:
        STATS["normaliser"] += 1
        return Verdict(True, "normaliser+z3")
    inds = []
    find_indicators(d, inds)
    if inds and depth < 10:
        a = inds[0]
        c = B("atom", a.args[0])
        for pos in (c, b_not(c)):
            h2 = hyps + [pos]
            if check(h2) == "unsat":
                continue
            v = prove_eq(d, num(0), h2, depth + 1)
            if not v:
                return v
        return Verdict(True, "normaliser+z3")
    z = vanishing_product(d, hyps) if depth < 10 else None
    if z:
        a, c = z
        v = prove_eq(replace_atom(d, a, num(0)), num(0), hyps + [c], depth + 1)
        if not v or entails(hyps, c):
            return v
        return prove_eq(d, num(0), hyps + [b_not(c)], depth + 1)
    if depth < 3 and root_tactic(d, hyps, depth):
        STATS["normaliser"] += 1
        return Verdict(True, "normaliser+z3")
    # equalities between index variables that the inequalities imply
    imp = implied_equality(d, hyps) if depth < 12 else None
    if imp:
        return prove_eq(substitute(d, imp), num(0), hyps + [eq(ivar(k[0]), v) for k, v in imp.items()], depth + 1)
    # last resort: arithmetic with atoms abstracted
    if check(hyps) == "unsat":
        return Verdict(True, "z3")
    ne = b_not(eq(d, num(0)))
    r = check(hyps + [ne])
    if r == "unsat":
        STATS["z3"] += 1
        return Verdict(True, "z3")
    return Verdict(False, "z3", f"difference not provably zero ({r}): {show(d)[:6000]}", cond=hyps)


def prove_b(b, hyps):
    hyps = relevant(hyps)
    if b.op == "true":
        return Verdict(True, "normaliser")
    if b.op == "and":
        for x in b.args:
            v = prove_b(x, hyps)
            if not v:
                return v
        return Verdict(True, "z3")
    if b.op == "atom" and b.args[0][0] == "eq0":
        v = prove_eq(b.args[0][1], num(0), hyps)
        if v:
            return v
    r = check(hyps + [b_not(b)])
    if r == "unsat":
        STATS["z3"] += 1
        return Verdict(True, "z3")
    # try with resolved brackets
    nb = map_b(b, lambda c: simp_cond(c, hyps, {}))
    if nb != b:
        r = check(hyps + [b_not(nb)])
        if r == "unsat":
            STATS["z3"] += 1
            return Verdict(True, "z3")
    return Verdict(False, "z3", f"{r}: cannot show {show_b(b)[:400]}", cond=hyps + [b_not(b)])


def map_b(b, f):
    if b.op == "atom":
        return f(b.args[0])
    if b.op == "not":
        return b_not(map_b(b.args[0], f))
    if b.op == "and":
        return b_and(*[map_b(x, f) for x in b.args])
    if b.op == "or":
        return b_or(*[map_b(x, f) for x in b.args])
    return b
