"""Loops of symbolic length: the engine proposes a loop invariant (closed form of every location
the body changes, as a function of the number of completed iterations) and then *proves* it by
induction: the initial state satisfies it at 0 by construction, and running the body once from the
invariant at a generic k must give the invariant at k+1, location by location."""
from .terms import *
from . import terms as T
from . import prove as PV
from .core import *
from .interp import Poison, Ret, Brk, Cont, symbolic


class Loc:
    """a mutable location; .get() / .set(v)"""
    def __init__(self, kind, obj, key=None):
        self.kind, self.obj, self.key = kind, obj, key

    def ident(self):
        return (self.kind, id(self.obj), self.key)

    def __repr__(self):
        return f"{self.kind}:{self.key if self.key is not None else getattr(self.obj, 'name', '')}"


MISSING = object()


def flat_state(snap):
    """location identity -> (Loc, value)"""
    tr, hyps, frames, n, ghost = snap
    out = {}
    for t, s in tr:
        if isinstance(t, Buf):
            out[("buf", id(t), None)] = (Loc("buf", t), s[0])
        elif isinstance(t, Obj):
            for k, v in s.items():
                out[("attr", id(t), k)] = (Loc("attr", t, k), v)
        elif isinstance(t, dict):
            for k, v in s.items():
                out[("item", id(t), k)] = (Loc("item", t, k), v)
        elif isinstance(t, (list, set)):
            out[("list", id(t), None)] = (Loc("list", t), s)
        else:
            out[("model", id(t), None)] = (Loc("model", t), s)
    return out


def frame_state(frames, frame_objs):
    out = {}
    for f, s in zip(frame_objs, frames):
        for k, v in s.items():
            out[("local", id(f), k)] = (Loc("local", f, k), v)
    return out


def set_loc(loc, v):
    if loc.kind == "buf":
        loc.obj.fn = v
    elif loc.kind == "attr":
        if v is MISSING:
            loc.obj.attrs.pop(loc.key, None)
        else:
            loc.obj.attrs[loc.key] = v
    elif loc.kind in ("item", "local"):
        if v is MISSING:
            loc.obj.pop(loc.key, None)
        else:
            loc.obj[loc.key] = v
    elif loc.kind == "list":
        raise Unsupported("list changed by a symbolic loop")
    else:
        loc.obj.set_state(v)


def same_value(a, b):
    if a is b:
        return True
    if isinstance(a, S) and isinstance(b, S):
        return a.p is b.p
    if type(a) in (int, float, str, bool, type(None)) and type(a) is type(b):
        return a == b
    if isinstance(a, slice) and isinstance(b, slice):
        return all(same_value(x, y) for x, y in ((a.start, b.start), (a.stop, b.stop), (a.step, b.step)))
    if isinstance(a, (tuple,)) and isinstance(b, tuple) and len(a) == len(b):
        return all(same_value(x, y) for x, y in zip(a, b))
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        return all(same_value(x, y) for x, y in zip(a, b))
    return False


def numeric(v):
    return isinstance(v, (S, int, float)) and not isinstance(v, bool)


def subst_value(v, s):
    if isinstance(v, S):
        return S(substitute(v.p, s))
    if isinstance(v, SB):
        return v
    if isinstance(v, Arr):
        r = v.reader()
        return Arr.make([substitute(x, s) for x in v._shape], lambda i: substitute(r(i), s), v.buf.dtype)
    if isinstance(v, tuple):
        return tuple(subst_value(x, s) for x in v)
    if isinstance(v, list):
        return [subst_value(x, s) for x in v]
    if isinstance(v, slice):
        g = lambda x: subst_value(x, s) if x is not None else None
        return slice(g(v.start), g(v.stop), g(v.step))
    if v is None or isinstance(v, (str, int, float, bool)):
        return v
    return Poison("object created in the last iteration of a symbolic loop")


def run_once(interp, body, k, exits=None, ignore_raise=False):
    """execute the body at k on all paths, merge the resulting states.
    returns {ident: (Loc, merged value)} of changed locations; the conditions under which the loop is
    left early (break, return, exception) are added to `exits`"""
    base = ENG.snapshot()
    before = flat_state(base)
    before.update(frame_state(base[2], ENG.frames))

    def thunk():
        try:
            body(k)
        except Cont:
            return "next"
        except Brk:
            return "break"
        except Ret:
            return "return"
        return "next"
    outs = ENG.explore(thunk)
    states = []
    ghosts = ENG.loop_ghosts = []
    stays = any(res[0] not in ("raise", "fail") and res[1] == "next" for _, res, _, _ in outs)
    for taken, res, snap, hyps in outs:
        if res[0] == "raise":
            if PV.check(ENG.hyps + hyps) == "unsat":
                continue
            e = res[1]
            e.path = list(hyps)
            if not stays or not (ignore_raise or exits is not None):
                raise LoopRaise(e, hyps)
            if exits is not None:
                exits.append(b_and(*[b if v else b_not(b) for b, v in taken]))
            continue
        if res[0] == "fail":
            raise res[1]
        if res[1] != "next":
            if PV.check(ENG.hyps + hyps) == "unsat":
                continue
            if not stays:
                raise Unsupported(f"'{res[1]}' in the first iteration of a loop of symbolic length")
            if exits is not None:
                exits.append(b_and(*[b if v else b_not(b) for b, v in taken]))
            continue
        ghosts.append(snap[4])
        st = flat_state(snap)
        st.update(frame_state(snap[2], ENG.frames))
        cond = b_and(*[b if v else b_not(b) for b, v in taken])
        states.append((cond, st))
    changed = {}
    idents = set()
    for _, st in states:
        idents |= set(st)
    for ident in idents:
        vals = []
        loc = None
        for cond, st in states:
            if ident in st:
                loc, v = st[ident]
            elif ident in before:
                loc, v = before[ident][0], MISSING
            else:
                v = MISSING
            vals.append((cond, v))
        old = before.get(ident, (None, MISSING))[1]
        if all(same_value(v, old) for _, v in vals):
            continue
        if ident not in before and loc.kind in ("buf", "list", "item", "model"):
            continue            # created inside the body
        if ident not in before and loc.kind == "attr" and not any(t is loc.obj for t, _ in base[0]):
            continue
        changed[ident] = (loc, merge(loc, vals), old)
    return changed


class LoopRaise(Exception):
    def __init__(self, e, hyps):
        self.e, self.hyps = e, hyps


def merge(loc, vals):
    if len(vals) == 1:
        return vals[0][1]
    first = vals[0][1]
    if all(same_value(v, first) for _, v in vals):
        return first
    if loc.kind == "buf":
        def f(b):
            r = vals[-1][1](b)
            for c, v in reversed(vals[:-1]):
                r = ite(c, v(b), r)
            return r
        return f
    if all(numeric(v) for _, v in vals):
        r = to_p(vals[-1][1])
        for c, v in reversed(vals[:-1]):
            r = ite(c, to_p(v), r)
        return S(r)
    if all(isinstance(v, Arr) for _, v in vals):
        shp = first._shape
        if all(len(v._shape) == len(shp) and all(same(x, y) for x, y in zip(v._shape, shp)) for _, v in vals):
            rs = [(c, v.reader()) for c, v in vals]

            def g(i):
                r = rs[-1][1](i)
                for c, h in reversed(rs[:-1]):
                    r = ite(c, h(i), r)
                return r
            return Arr.make(shp, g, first.buf.dtype)
    if all(v is MISSING or v is None or isinstance(v, (S, int, float, str, tuple, slice, Arr, list, bool)) for _, v in vals):
        return Poison("value depends on the path taken in a loop body")
    if loc.kind in ("local", "item"):
        return Poison("value depends on the path taken in a loop body")
    raise Unsupported(f"cannot merge {loc}")


def conj(b):
    return list(b.args) if b.op == "and" else ([] if b.op == "true" else [b])


def solve_index(inv, buf, k):
    """from a write's inverse map find kappa with: cell written in iteration k  =>  k == kappa(cell)
    returns (kappa function or None)"""
    kn = vname(k)
    xs = [ivar(fresh("x")) for _ in buf.shape]
    cond, idx = inv(list(xs))
    for c in conj(cond):
        if c.op == "atom" and c.args[0][0] == "eq0" and kn in c.args[0][1].free:
            p = c.args[0][1]
            co = p.d.get(list(k.d)[0])
            if co not in (1, -1):
                continue
            rest = add(p, scale(k, -co))
            if kn in rest.free:
                continue
            sol = scale(rest, -Fraction(1) / co)
            if not sol.is_int or not any(vname(x) in sol.free for x in xs):
                continue
            if any(f[0].startswith("k!") for f in sol.free):
                continue        # depends on the variable of an inner loop
            names = [vname(x) for x in xs]
            return ("idx", lambda b, sol=sol, names=names: substitute(sol, dict(zip(names, [num(y) for y in b]))))
    # block writes: view index = x_d - k*L - c
    for d, e in enumerate(idx):
        if kn in e.free:
            co = {}
            rest = {}
            ok = True
            for m, c in e.d.items():
                md = dict(m)
                ka = list(k.d)[0][0][0]
                if ka in md:
                    if md[ka] != 1:
                        ok = False
                    co[tuple(t for t in m if t[0] is not ka)] = c
                else:
                    rest[m] = c
            L = neg(P(co))
            base = P(rest)
            if ok and kn not in L.free and L.is_int and not any(f[0].startswith("k!") for f in L.free | base.free):
                names = [vname(x) for x in xs]
                return ("blk", lambda b, base=base, L=L, names=names:
                        fdiv(substitute(base, dict(zip(names, [num(y) for y in b]))), L), L, base, xs)
    return None


def symbolic_loop(interp, n, body, fr, node):
    """execute `for k in range(n): body(k)` with n symbolic"""
    if not ENG.entails(lt(num(0), n)):
        if not ENG.branch(lt(num(0), n)):
            return
    inv = interp.invariant_for(node, fr) if hasattr(interp, "invariant_for") else None
    k = ivar(fresh("k"))
    kn = vname(k)
    snap0 = ENG.snapshot()
    ENG.draw_high = ENG.ghost.get("draws", 0)
    hyp = [le(num(0), k), lt(k, n)]

    def attempt(state_setter=None, logs=False, exits=None, ignore_raise=False):
        ENG.restore(snap0)
        for h in hyp:
            ENG.assume(h)
        if state_setter:
            state_setter()
        bufs = [t for t, _ in snap0[0] if isinstance(t, Buf)]
        outer = {id(b): b.log for b in bufs}
        if logs:
            for b in bufs:
                b.log = []
        ENG.loopvars = ENG.loopvars + [k]
        nob = len(ENG.obligations)
        try:
            ch = run_once(interp, body, k, exits, ignore_raise)
        except Exception:
            del ENG.obligations[nob:]       # an abandoned attempt decides nothing
            raise
        finally:
            ENG.loopvars = ENG.loopvars[:-1]
            lg = {}
            for b in bufs:
                lg[id(b)] = b.log
                b.log = outer[id(b)]
        return ch, lg

    try:
        # ---- phase 1: what changes?
        ch1, logs = attempt(logs=True, ignore_raise=True)
        # ---- phase 2: candidate closed forms
        cand = {}       # ident -> (Loc, f(kterm) -> value, old)
        pending = []
        for ident, (loc, v, old) in ch1.items():
            if loc.kind == "buf":
                lg = logs.get(ident[1]) or []
                sols = [solve_index(i, loc.obj, k) for i in lg]
                cf = None
                if sols and all(s is not None for s in sols):
                    kinds = {s[0] for s in sols}
                    probe = [ivar(f"$b{i}") for i in range(len(loc.obj.shape))]
                    kap = {s[1](probe) for s in sols}
                    if len(kap) == 1:
                        kappa = sols[0][1]
                        cf = indexed_candidate(v, old, kappa, kn)
                if cf is None:
                    pending.append((ident, loc, v, old))
                else:
                    cand[ident] = (loc, cf, old, sols[0])
            elif loc.kind == "list":
                pending.append((ident, loc, v, old))
            elif loc.kind in ("local", "attr", "item", "model"):
                pending.append((ident, loc, v, old))
            else:
                raise Unsupported("loop changes " + loc.kind)
        # placeholders
        ph = {}
        carried = {}            # arrays rebound in every iteration: ident -> (shape, element type, first content, content after the first iteration)

        def find_carried():
            ENG.restore(snap0)
            before = {id(t) for t, _ in snap0[0]}
            for ident, loc, v, old in pending:
                if loc.kind in ("local", "attr", "item") and isinstance(v, Arr) and id(v.buf) not in before \
                        and not any(kn in x.free for x in v._shape):
                    if numeric(old):
                        o = to_p(old)
                        first = lambda b, o=o: o
                    elif isinstance(old, Arr) and len(old._shape) == len(v._shape) and all(same(x, y) for x, y in zip(old._shape, v._shape)):
                        first = old.reader()
                    else:
                        continue
                    carried[ident] = (v._shape, v.buf.dtype, first, v.reader(), v.buf)
            return len({id(c[4]) for c in carried.values()}) == len(carried) and bool(carried)

        def placeholders():
            ph.clear()
            for ident, loc, v, old in pending:
                if loc.kind == "buf":
                    lg = logs.get(ident[1]) or []
                    fixed = common_fixed(lg, loc.obj, kn)
                    ph[ident] = ("buf", fresh("prev"), fixed)
                elif loc.kind in ("local", "attr", "item") and numeric(old) and not isinstance(v, Arr):
                    isint = to_p(old).is_int and numeric(v) and to_p(v).is_int
                    ph[ident] = ("num", var(fresh("sig"), "I" if isint else "R"))
                elif loc.kind == "list":
                    ph[ident] = ("list",)
                elif ident in carried:
                    ph[ident] = ("arr", fresh("prev"))
                else:
                    ph[ident] = ("temp",)
        placeholders()

        def install():
            for ident, (loc, cf, old, sol) in cand.items():
                set_loc(loc, cf(k))
            for ident, loc, v, old in pending:
                p = ph[ident]
                if p[0] == "buf":
                    set_loc(loc, placeholder_fn(p[1], p[2], old))
                elif p[0] == "num":
                    set_loc(loc, S(p[1]))
                elif p[0] == "arr":
                    set_loc(loc, Arr.make(carried[ident][0], lambda i, p=p: app(p[1], i), carried[ident][1]))
                elif p[0] == "temp" and old is not MISSING:
                    set_loc(loc, Poison("loop carried value"))
        if pending:
            try:
                ch2, _ = attempt(install)
            except (Unsupported, Failure, LoopRaise, SymRaise):
                # the body relies on what earlier iterations left: arrays that are built anew from the last one,
                # or buffers that are rewritten in every iteration
                ch2 = None
                if find_carried():
                    placeholders()
                    try:
                        ch2, _ = attempt(install)
                    except (Unsupported, Failure, LoopRaise, SymRaise):
                        carried.clear()
                        placeholders()
                else:
                    carried.clear()
                bufs_p = [x for x in pending if x[1].kind == "buf"] if ch2 is None else []
                won = last_wins(bufs_p, pending, cand, k, n, attempt, hyp, snap0) if bufs_p else {}
                if not won and ch2 is None:
                    ch2, _ = attempt(install, ignore_raise=True)
                for ident, loc, v, old in bufs_p:
                    if ident in won:
                        cand[ident] = (loc, won[ident], old, None)
                if won:
                    pending = [x for x in pending if x[0] not in won]
                    placeholders()
                    ch2, _ = attempt(install, ignore_raise=True)
            for ident, loc, v, old in pending:
                p = ph[ident]
                v2 = ch2[ident][1] if ident in ch2 else None
                if p[0] == "num":
                    cf = scalar_candidate(p[1], v2, old, k, n) if v2 is not None else None
                    if ident not in ch2:
                        cf = (lambda kk, old=old: old)
                    cand[ident] = (loc, cf, old, None)
                elif p[0] == "buf":
                    if ident not in ch2:
                        raise Unsupported("loop body")
                    cand[ident] = (loc, array_candidate(p, v2, old, k, loc.obj), old, None)
                elif p[0] == "list":
                    cand[ident] = (loc, list_candidate(v2, old, k, kn), old, None)
                elif p[0] == "arr":
                    shape, dt, first, after, _ = carried[ident]
                    if not (isinstance(v2, Arr) and len(v2._shape) == len(shape) and all(same(x, y) for x, y in zip(v2._shape, shape))
                            and v2.buf.dtype == dt):
                        raise Unsupported("loop carried array")
                    shim = Buf(shape, first, dt)
                    g = array_candidate(("buf", p[1], {}), v2.reader(), first, k, shim)
                    ENG.restore(snap0)
                    xs = [ivar(fresh("g")) for _ in shape]
                    rng = [h for x, m in zip(xs, shape) for h in (le(num(0), x), lt(x, m))]
                    ok = PV.prove_eq(substitute(after(xs), {kn: num(0)}), g(num(1))(tuple(xs)), list(ENG.hyps) + rng)
                    if not ok:
                        raise Unsupported(f"no inductive loop invariant found for {loc}")
                    cand[ident] = (loc, (lambda kk, g=g, shape=shape, dt=dt: Arr.make(shape, memo_fn(g(kk)), dt)), old, "arr")
                else:
                    cand[ident] = (loc, temp_candidate(v2 if v2 is not None else v, old, kn), old, "temp")

        # ---- phase 3: induction step
        def install_k():
            for ident, (loc, cf, old, tag) in cand.items():
                if tag == "temp":
                    if old is not MISSING:
                        set_loc(loc, Poison("loop carried value"))
                elif loc.kind == "list":
                    pass
                else:
                    set_loc(loc, cf(k))
        exits = []
        ch3, _ = attempt(install_k, exits=exits)
        issued = loop_ghost(snap0[4], ENG.loop_ghosts, k, n)
        # hypotheses available for the comparison
        ENG.restore(snap0)
        leave = b_or(*exits) if exits else None
        hyps = list(ENG.hyps) + hyp + ([b_not(leave)] if exits else [])
        k1 = add(k, num(1))
        for ident, (loc, v3, _) in ch3.items():
            if ident not in cand:
                raise Unsupported(f"loop body changes {loc} only in later iterations")
        nobl = 0
        for ident, (loc, cf, old, tag) in cand.items():
            if tag == "temp" or loc.kind == "list":
                continue
            goal = cf(k1)
            now = ch3[ident][1] if ident in ch3 else cf(k)
            if loc.kind == "buf":
                b = generic_index(loc.obj, tag, hyps, k)
                b, extra = b
                lhs, rhs = now(tuple(b)), goal(tuple(b))
                ok = PV.prove_eq(lhs, rhs, hyps + extra)
            elif tag == "arr":
                if not (isinstance(now, Arr) and len(now._shape) == len(goal._shape)
                        and all(same(x, y) for x, y in zip(now._shape, goal._shape))):
                    raise Unsupported("loop carried array")
                xs = [ivar(fresh("g")) for _ in goal._shape]
                rng = [h for x, m in zip(xs, goal._shape) for h in (le(num(0), x), lt(x, m))]
                ok = PV.prove_eq(now.reader()(xs), goal.reader()(xs), hyps + rng)
            else:
                ok = PV.prove_eq(to_p(now), to_p(goal), hyps)
            nobl += 1
            if not ok:
                raise Unsupported(f"no inductive loop invariant found for {loc} (line {getattr(node, 'lineno', '?')}): {ok.detail[:3000]}")
        interp.loops.append({"line": getattr(node, "lineno", None), "locations": nobl})
        # writes of this loop count as writes of an enclosing one
        for t, _ in snap0[0]:
            if isinstance(t, Buf) and t.log is not None:
                t.log.extend(logs.get(id(t)) or [])
        # ---- leaving early: in the first iteration whose condition holds, from the state the invariant gives
        if exits:
            k0 = first_index(n, leave, k)
            if k0 is not None:
                for ident, (loc, cf, old, tag) in cand.items():
                    if loc.kind == "list":
                        raise Unsupported("a list grows in a loop that is left early")
                    set_loc(loc, Poison("loop carried value") if tag == "temp" and old is not MISSING else
                            (memo_fn(cf(k0)) if loc.kind == "buf" else cf(k0))) if tag != "temp" or old is not MISSING else None
                if issued:
                    raise Unsupported("effects in a loop that is left early")
                try:
                    body(k0)
                except Cont:
                    pass
                raise Unsupported("a loop is not left where it has to be")
        # ---- exit state
        for ident, (loc, cf, old, tag) in cand.items():
            if loc.kind == "list":
                replace_list(loc.obj, cf(n), fr)
            else:
                val = cf(n)
                if loc.kind == "buf":
                    val = memo_fn(val)
                set_loc(loc, val)
        if ENG.draw_high > ENG.ghost.get("draws", 0):
            ENG.ghost = dict(ENG.ghost, draws=ENG.draw_high)
        if issued:
            ENG.ghost = dict(ENG.ghost, **issued)
    except LoopRaise as e:
        ENG.restore(snap0)
        for h in hyp + list(e.hyps):
            ENG.assume(h)
        raise e.e
    except Exception:
        raise


def first_index(n, cond, k):
    """None where the condition on k holds for no k in range(n), otherwise the first such k"""
    from .core import forall, closed
    kn = vname(k)
    at = lambda b, t: PV.map_b(b, lambda c: T.subst_cond(c, {kn: t}, {}))
    none = forall(Arr.make([n], lambda i: ind(b_not(at(cond, i[0]))), "b1"))
    if none is True or (none is not False and ENG.branch(to_b(none))):
        return None
    canon = PV.simp(ind(at(cond, ivar("$q0"))), list(ENG.hyps))
    closed(canon, n)
    k0 = ivar("first{" + show(canon) + " : " + show(n) + "}")
    for h in (le(num(0), k0), lt(k0, n), at(cond, k0)):
        ENG.assume(h)
    before = forall(Arr.make([k0], lambda i: ind(b_not(at(cond, i[0]))), "b1"))
    if before is not True:
        ENG.assume(to_b(before))
    return k0


def loop_ghost(before, after, k, n):
    """effects outside the program state: files and directories may not change in a loop of symbolic
    length; the issued commands become one family of commands"""
    out = {}
    for g in after:
        for key in ("dirs", "plain", "fs"):
            if g.get(key) is not before.get(key) and g.get(key) != before.get(key):
                raise Unsupported("files change inside a loop of symbolic length")
    old = before.get("commands", ())
    if any(g.get("commands", ()) != old for g in after):
        if len(after) != 1:
            raise Unsupported("commands depend on the path taken in a loop of symbolic length")
        out["commands"] = old + (("for", k, n, after[0]["commands"][len(old):]),)
    return out


def last_wins(bufs_p, pending, cand, k, n, attempt, hyp, snap0):
    """{ident: closed form} of the buffers whose content after an iteration does not depend on earlier ones"""
    kn = vname(k)
    won = {}
    for ident, loc, v, old in bufs_p:
        xs = [ivar(f"$w{i}") for i in range(len(loc.obj.shape))]

        def cf(kk, v=v, old=old):
            def f(b):
                b = tuple(b)
                if kk.const == 0:
                    return old(b)
                val = substitute(v(b), {kn: sub(kk, num(1))})
                c = lt(num(0), kk)
                return val if ENG.entails(c) else ite(c, val, old(b))
            return memo_fn(f)
        won[ident] = cf
    sigs = {}

    def install():
        for ident, (loc, cf, old, sol) in cand.items():
            set_loc(loc, cf(k))
        for ident, loc, v, old in pending:
            if ident in won:
                set_loc(loc, won[ident](k))
            elif loc.kind in ("local", "attr", "item") and numeric(old):
                isint = to_p(old).is_int and numeric(v) and to_p(v).is_int
                set_loc(loc, S(var(fresh("sig"), "I" if isint else "R")))
            elif loc.kind != "list" and old is not MISSING:
                set_loc(loc, Poison("loop carried value"))
    while won:
        try:
            ch, _ = attempt(install)
        except (Unsupported, Failure, LoopRaise, SymRaise):
            return {}
        ENG.restore(snap0)
        hyps = list(ENG.hyps) + hyp
        bad = []
        for ident, loc, v, old in bufs_p:
            if ident not in won:
                continue
            b, extra = generic_index(loc.obj, None, hyps, k)
            now = ch[ident][1] if ident in ch else won[ident](k)
            if not PV.prove_eq(now(tuple(b)), won[ident](add(k, num(1)))(tuple(b)), hyps + extra):
                bad.append(ident)
        if not bad:
            return won
        for i in bad:
            del won[i]
        # the others may have relied on the dropped ones
        if won:
            for i in list(won):
                pass
            return {} if len(bad) == len(bufs_p) else retry(won, bad, bufs_p, pending, cand, k, attempt, hyp, snap0)
    return won


def retry(won, bad, bufs_p, pending, cand, k, attempt, hyp, snap0):
    rest = [x for x in bufs_p if x[0] in won]
    names = {}

    def install():
        for ident, (loc, cf, old, sol) in cand.items():
            set_loc(loc, cf(k))
        for ident, loc, v, old in pending:
            if ident in won:
                set_loc(loc, won[ident](k))
            elif loc.kind == "buf":
                set_loc(loc, placeholder_fn(names.setdefault(ident, fresh("prev")), {}, old))
            elif loc.kind in ("local", "attr", "item") and numeric(old):
                isint = to_p(old).is_int and numeric(v) and to_p(v).is_int
                set_loc(loc, S(var(fresh("sig"), "I" if isint else "R")))
            elif loc.kind != "list" and old is not MISSING:
                set_loc(loc, Poison("loop carried value"))
    try:
        ch, _ = attempt(install)
    except (Unsupported, Failure, LoopRaise, SymRaise):
        return {}
    ENG.restore(snap0)
    hyps = list(ENG.hyps) + hyp
    for ident, loc, v, old in rest:
        b, extra = generic_index(loc.obj, None, hyps, k)
        now = ch[ident][1] if ident in ch else won[ident](k)
        if not PV.prove_eq(now(tuple(b)), won[ident](add(k, num(1)))(tuple(b)), hyps + extra):
            return {}
    return won


def memo_fn(f):
    memo = {}

    def g(b):
        b = tuple(b)
        r = memo.get(b)
        if r is None:
            r = memo[b] = f(b)
        return r
    return g


def indexed_candidate(f1, f0, kappa, kn):
    def cf(kk):
        def f(b):
            x = kappa(list(b))
            v = substitute(f1(tuple(b)), {kn: x})
            return ite(b_and(le(num(0), x), lt(x, kk)), v, f0(tuple(b)))
        return f
    return cf


def common_fixed(logs, buf, kn):
    """indices fixed to the same (k independent) term by every write: {dim: term}"""
    res = None
    for inv in logs:
        xs = [ivar(f"$x{i}") for i in range(len(buf.shape))]
        cond, _ = inv(list(xs))
        here = {}
        for c in conj(cond):
            if c.op == "atom" and c.args[0][0] == "eq0":
                p = c.args[0][1]
                for d, x in enumerate(xs):
                    if vname(x) in p.free and kn not in p.free:
                        co = p.d.get(list(x.d)[0])
                        rest = add(p, scale(x, -co)) if co else None
                        if co in (1, -1) and not any(vname(y) in rest.free for y in xs):
                            here[d] = scale(rest, -Fraction(1) / co)
        res = here if res is None else {d: t for d, t in res.items() if d in here and here[d] is t}
    return res or {}


def placeholder_fn(name, fixed, old):
    def f(b):
        b = tuple(b)
        free = [x for i, x in enumerate(b) if i not in fixed]
        v = app(name, free)
        c = b_and(*[eq(b[d], t) for d, t in fixed.items()])
        return v if c.op == "true" else ite(c, v, old(b))
    return f


def mentions_app(p, name, seen=None):
    seen = set() if seen is None else seen
    for a in p.atoms():
        if a in seen:
            continue
        seen.add(a)
        if a.kind == "app" and a.args[0] == name:
            return True
        if any(mentions_app(x, name, seen) for x in T._subs(a.kind, a.args)):
            return True
    for m in p.d:
        for a, e in m:
            if isinstance(e, P) and mentions_app(e, name, seen):
                return True
    return False


def array_candidate(ph, f2, old, k, buf):
    _, name, fixed = ph
    nd = len(buf.shape)
    free_dims = [i for i in range(nd) if i not in fixed]
    xs = [ivar(f"$c{i}") for i in range(nd)]
    full = [fixed.get(i, xs[i]) for i in range(nd)]
    hyps = list(ENG.hyps) + [le(num(0), k)] + PV.ranges_of([xs[i] for i in free_dims], [buf.shape[i] for i in free_dims])
    val = PV.simp(f2(tuple(full)), hyps)
    fxs = [xs[i] for i in free_dims]
    prev = app(name, fxs)
    d = sub(val, prev)
    fnames = [vname(x) for x in fxs]

    def at(p, b):
        return substitute(p, dict(zip(fnames, [num(b[i]) for i in free_dims])))

    def outside(b, inner):
        c = b_and(*[eq(num(b[dd]), t) for dd, t in fixed.items()])
        return inner if c.op == "true" else ite(c, inner, old(tuple(b)))

    def old_inner(b):
        return old(tuple(fixed.get(i, num(b[i])) for i in range(nd)))

    if not mentions_app(val, name):
        def cf(kk):
            def f(b):
                if kk.const == 0:
                    return old(tuple(b))
                t = substitute(at(val, b), {vname(k): sub(kk, num(1))})
                c = lt(num(0), kk)
                return outside(b, t if ENG.entails(c) else ite(c, t, old_inner(b)))
            return f
        return cf
    if not mentions_app(d, name):
        def cf(kk):
            def f(b):
                j = ivar(fresh("a"))
                t = substitute(at(d, b), {vname(k): j})
                return outside(b, add(old_inner(b), Sum([(j, kk)], t)))
            return f
        return cf
    q = mul(val, power(prev, Fraction(-1)))
    if not mentions_app(q, name):
        def cf(kk):
            def f(b):
                j = ivar(fresh("a"))
                t = substitute(at(q, b), {vname(k): j})
                return outside(b, mul(old_inner(b), Prod(j, kk, t)))
            return f
        return cf

    def cf(kk):
        def f(b):
            def init(args):
                bb = [None] * nd
                for i, a in zip(free_dims, args):
                    bb[i] = a
                for i, t in fixed.items():
                    bb[i] = t
                return old(tuple(bb))

            def step(kv, prevf, args):
                t = substitute(val, dict(zip(fnames, args)))
                t = substitute(t, {vname(k): kv})
                return map_app(t, name, prevf)
            return outside(b, RecK(kk, init, step, [num(b[i]) for i in free_dims]))
        return f
    return cf


def RecK(kk, init, step, args):
    """rec(kk); unfolds one step when kk = k + 1 with k a variable, or kk = 1"""
    if kk.const == 1:
        return step(num(0), init, args)
    if () in kk.d and kk.d[()] == 1 and len(kk.d) == 2:
        k0 = sub(kk, num(1))
        if len(k0.d) == 1 and list(k0.d.values())[0] == 1:
            (m, c), = k0.d.items()
            if len(m) == 1 and m[0][0].kind == "var" and m[0][0].args[0].startswith("k!"):
                return step(k0, lambda a: Rec(k0, init, step, a), args)
    return Rec(kk, init, step, args)


def scalar_candidate(sig, v2, old, k, n):
    if not numeric(v2):
        return lambda kk: Poison("loop carried value")
    val = to_p(v2)
    sn = vname(sig)
    o = to_p(old)
    if sn not in val.free:
        # last value wins
        def cf(kk):
            c = kk.const
            if c == 0:
                return old
            prevk = sub(kk, num(1))
            v = substitute(val, {vname(k): prevk})
            if ENG.entails(lt(num(0), kk)):
                return S(v)
            return S(ite(lt(num(0), kk), v, o))
        return cf
    d = sub(val, sig)
    if sn not in d.free:
        def cf(kk):
            j = ivar(fresh("a"))
            return S(add(o, Sum([(j, kk)], substitute(d, {vname(k): j}))))
        return cf
    q = mul(val, power(sig, Fraction(-1)))
    if sn not in q.free:
        def cf(kk):
            j = ivar(fresh("a"))
            return S(mul(o, Prod(j, kk, substitute(q, {vname(k): j}))))
        return cf

    def cf(kk):
        def init(args):
            return o

        def step(kv, prevf, args):
            return substitute(val, {vname(k): kv, sn: prevf([])})
        return S(RecK(kk, init, step, []))
    return cf


def temp_candidate(v, old, kn):
    def cf(kk):
        return subst_value(v, {kn: sub(kk, num(1))})
    return cf


def list_candidate(v2, old, k, kn):
    if v2 is None or not isinstance(v2, list) or len(v2) != len(old) + 1 or old:
        raise Unsupported("list changed by a symbolic loop")
    item = v2[-1]

    def cf(n):
        return SSeq(n, lambda i: subst_value(item, {kn: i}))
    return cf


def replace_list(lst, seq, fr):
    for f in ENG.frames:
        for k, v in list(f.items()):
            if v is lst:
                f[k] = seq
    for t in ENG.track:
        if isinstance(t, Obj):
            for k, v in list(t.attrs.items()):
                if v is lst:
                    t.attrs[k] = seq


def generic_index(buf, tag, hyps, k):
    """a generic cell of the buffer; for block writes it is decomposed as kappa*L + r"""
    xs = []
    extra = []
    blk = tag if isinstance(tag, tuple) and tag[0] == "blk" else None
    for d, n in enumerate(buf.shape):
        x = ivar(fresh("g"))
        if blk is not None and vname(blk[4][d]) in blk[3].free:
            L = blk[2]
            q, r = ivar(fresh("gq")), ivar(fresh("gr"))
            T.REMAINDER[r] = L
            extra += [le(num(0), r), lt(r, L), le(num(0), q)]
            x = add(mul(q, L), r)
            # instances of the order facts the nonlinear solver needs
            from itertools import product as _p
            one = num(1)
            for a, b in ((q, k), (k, q)):
                extra.append(b_implies(lt(a, b), le(mul(add(a, one), L), mul(b, L))))
        extra += [le(num(0), x), lt(x, n)]
        xs.append(x)
    return xs, extra


def scatter(interp, fam, run_item, node):
    """execute the body for the lines of a family where every line sets cells of its own: the cell tells the
    line, and what is stored depends on nothing an other line sets.  The result is the same for every order
    of the lines.  Raises Unsupported where this cannot be shown."""
    ks = [ivar(fresh("k")) for _ in fam.dims]
    kns = [vname(k) for k in ks]
    snap0 = ENG.snapshot()
    ENG.draw_high = ENG.ghost.get("draws", 0)
    hyp = PV.ranges_of(ks, fam.dims) + ([fam.cond(ks)] if fam.cond is not None else [])
    nob = len(ENG.obligations)

    def attempt(setter=None):
        ENG.restore(snap0)
        for h in hyp:
            ENG.assume(h)
        if setter:
            setter()
        bufs = [t for t, _ in snap0[0] if isinstance(t, Buf)]
        outer = {id(b): b.log for b in bufs}
        for b in bufs:
            b.log = []
        ENG.loopvars = ENG.loopvars + ks
        exits = []
        try:
            ch = run_once(interp, lambda k: run_item(fam.item(ks)), None, exits)
        finally:
            ENG.loopvars = ENG.loopvars[:-len(ks)]
            logs = {id(b): b.log for b in bufs}
            for b in bufs:
                b.log = outer[id(b)]
        if exits:
            raise Unsupported("leaving a loop over lines")
        return ch, logs

    try:
        ch1, _ = attempt()
        del ENG.obligations[nob:]
        names = {}
        for ident, (loc, v, old) in ch1.items():
            if loc.kind == "buf":
                if loc.obj.dtype[0] != "f":
                    raise Unsupported("scattered integers")
                names[ident] = fresh("prev")
            elif loc.kind != "local":
                raise Unsupported("a loop over lines changes more than arrays")

        def install():
            for ident, (loc, v, old) in ch1.items():
                if loc.kind == "buf":
                    set_loc(loc, lambda b, n=names[ident]: app(n, list(b)))
                elif old is not MISSING:
                    set_loc(loc, Poison("loop carried value"))
        ch2, logs = attempt(install)
        loop_ghost(snap0[4], ENG.loop_ghosts, ks[0], num(0))
        if any(g.get("commands", ()) != snap0[4].get("commands", ()) for g in ENG.loop_ghosts):
            raise Unsupported("commands in a loop over lines")
        ENG.restore(snap0)
        hyps = list(ENG.hyps)
        final = {}
        for ident, (loc, v, _) in ch2.items():
            if loc.kind == "local":
                continue
            if ident not in names:
                raise Unsupported("a loop over lines changes more than arrays")
            old = ch1[ident][2]
            nd = len(loc.obj.shape)
            xs = [ivar(fresh("g")) for _ in range(nd)]
            kappa = None
            for inv in logs.get(ident[1]) or [None]:
                sol = solve_all(inv, nd, xs, ks) if inv is not None else None
                if sol is None or kappa is not None and any(a is not b for a, b in zip(sol, kappa)):
                    raise Unsupported("the cell does not tell the line")
                kappa = sol
            val = v(tuple(xs))
            ext = hyps + PV.ranges_of(xs, loc.obj.shape)
            prev = app(names[ident], xs)
            others = b_or(*[b_not(eq(k, s)) for k, s in zip(ks, kappa)])
            if not PV.prove_eq(val, prev, ext + hyp + [others]):
                raise Unsupported("lines set the same cell")
            here = substitute(val, dict(zip(kns, kappa)))
            for n in names.values():
                if mentions_app(T.map_app(here, names[ident], lambda a: need_same(a, xs, prev)) if n == names[ident] else here, n):
                    if n != names[ident]:
                        raise Unsupported("lines depend on each other")
            xn = [vname(x) for x in xs]
            inside = b_and(*[substitute_b(h, dict(zip(kns, kappa))) for h in hyp])

            def fn(b, here=here, inside=inside, xn=xn, old=old, name=names[ident]):
                b = [num(y) for y in b]
                s = dict(zip(xn, b))
                o = old(tuple(b))
                return ite(substitute_b(inside, s), T.map_app(substitute(here, s), name, lambda a: o), o)
            final[ident] = (loc, memo_fn(fn))
        interp.loops.append({"line": getattr(node, "lineno", None), "locations": len(final)})
        for t, _ in snap0[0]:
            if isinstance(t, Buf) and t.log is not None:
                t.log.extend(logs.get(id(t)) or [])
        for ident, (loc, v, old) in list(ch2.items()):
            if loc.kind == "local":
                set_loc(loc, Poison("loop carried value"))
        for loc, f in final.values():
            set_loc(loc, f)
    except (Unsupported, LoopRaise, Failure, SymRaise) as e:
        del ENG.obligations[nob:]
        ENG.restore(snap0)
        raise Unsupported(str(e)) from e


def need_same(args, xs, prev):
    if len(args) != len(xs) or any(a is not x for a, x in zip(args, xs)):
        raise Unsupported("lines depend on each other")
    return num(0)


def substitute_b(b, s):
    return PV.map_b(b, lambda c: T.subst_cond(c, s, {}))


def solve_all(inv, nd, xs, ks):
    """the index tuple of the line from the index of the cell it writes, or None"""
    cond, _ = inv(list(xs))
    kns = [vname(k) for k in ks]
    out = []
    for k, kn in zip(ks, kns):
        found = None
        for c in conj(cond):
            if found is not None or not (c.op == "atom" and c.args[0][0] == "eq0" and kn in c.args[0][1].free):
                continue
            p = c.args[0][1]
            co = p.d.get(list(k.d)[0])
            if co not in (1, -1):
                continue
            rest = add(p, scale(k, -co))
            if any(n in rest.free for n in kns):
                continue
            sol = scale(rest, -Fraction(1) / co)
            if sol.is_int and any(vname(x) in sol.free for x in xs):
                found = sol
        if found is None:
            return None
        out.append(found)
    return out
