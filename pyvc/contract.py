"""Contracts and their verification.

A contract names a function of /repo and gives
  setup(c)            the symbolic pre-state (requires): returns the argument list
  effect(c, *args)    the specified state change and result, written with the same symbolic values;
                      everything the effect does not touch must be left alone (frame condition)
  requires(...)       optional conditions checked where the contract is used at a call site
The body taken from /repo is executed symbolically from the same pre-state on every path, and for
every location one obligation `body value == specified value` (for a generic index) is discharged.
The same symbolic state is concretised to replay a failed obligation against the real function.
"""
import ast
import functools
import importlib
import itertools
import math
import random
import time
import traceback
import types
import numpy as np
from .terms import *
from . import terms as T
from . import prove as PV
from .core import *
from . import core
from . import npmodel  # noqa  (registers the library contracts)
from . import strings  # noqa
from .interp import Interp, Poison, Bound, function_node, module_ast, ClassModel, symbolic, Closure
from . import interp as IN


class DontCare:
    def __repr__(self):
        return "<any>"


ANY = DontCare()


def resolve(target):
    mod, qual = target.split(":")
    o = importlib.import_module(mod)
    for part in qual.split("."):
        o = o.__dict__[part] if isinstance(o, type) and part in o.__dict__ else getattr(o, part)
    if isinstance(o, (classmethod, staticmethod)):
        o = o.__func__
    return o


class Ctx:
    """builder of symbolic pre-states, remembers how to make them concrete"""
    def __init__(self):
        self.dims = {}
        self.scalars = {}
        self.arrays = {}
        self.bools = {}
        self.notes = []
        self.texts = {}
        self.recipes = {}      # app name -> function(env) -> callable, for derived symbols

    def dim(self, name, lo=1, hi=None, choices=None):
        """hi: only limits the concrete sizes used in replays, the proof is for every size"""
        v = ivar(name)
        ENG.assume(le(num(lo), v))
        self.dims[name] = (lo, hi, choices)
        return S(v)

    def int(self, name, lo=None, hi=None, choices=None):
        v = ivar(name)
        if lo is not None:
            ENG.assume(le(to_p(lo), v))
        if hi is not None:
            ENG.assume(lt(v, to_p(hi)) if isinstance(hi, (S, P)) else le(v, num(hi)))
        self.dims[name] = (lo if isinstance(lo, int) else 0, hi, choices)
        return S(v)

    def real(self, name, positive=False, gen=None):
        v = var(name)
        if positive:
            T.POSITIVE.add(name)
            ENG.assume(lt(num(0), v))
        self.scalars[name] = (positive, gen)
        return S(v)

    def arr(self, name, shape, dtype="f8", positive=False, symmetric=None, gen=None):
        if positive:
            T.POSITIVE.add(name)
        if symmetric:
            T.SYMMETRIC[name] = symmetric
        shp = [dim(s) for s in shape]
        self.arrays[name] = (shp, dtype, positive, symmetric, gen)
        return Arr.symbol(name, shp, dtype)

    def uninit(self, name, shape, dtype="f8"):
        """content irrelevant (still symbolic, so reads of it are caught)"""
        return self.arr(name, shape, dtype)

    def bool(self, name):
        self.bools[name] = True
        return SB(bvar(name))

    def obj(self, cls=None, **attrs):
        return Obj(cls, **attrs)

    def text(self, name, excl="", gen=None, nonempty=True, last_excl="", first=None, args=(), arity=0):
        """unknown text without the characters excl; gen(rng, env, *index) makes a concrete one"""
        from .strings import Hole, hole, SStr
        self.texts[name] = (gen, arity)
        mk = lambda *a: SStr(hole(Hole("var", name=name, excl=excl, nonempty=nonempty, last_excl=last_excl, first=first, args=[to_p(x) for x in a])))
        return mk if arity else mk()

    # ---------------------------------------------------------- concretisation
    def sample(self, rng, fixed=None, cells=None, consts=(), small=True):
        fixed = fixed or {}
        env = {}
        for n, (lo, hi, choices) in self.dims.items():
            if n in fixed:
                env[n] = int(fixed[n])
            elif choices:
                env[n] = int(rng.choice(list(choices)))
            else:
                l = lo or 0
                h = l + 3 if hi is None or isinstance(hi, (S, P)) else hi
                cand = [rng.randint(l, min(h, l + 3))] * 6
                cand += [k + d for k in consts for d in (-1, 0, 1) if isinstance(k, int) and l <= k + d <= (40 if hi is None or rng.random() < 0.3 else h)]
                env[n] = int(rng.choice(cand))
        for n, (pos, gen) in self.scalars.items():
            if n in fixed:
                env[n] = float(fixed[n])
            elif gen:
                env[n] = gen(rng, env)
            else:
                base = [rng.uniform(0.2, 2.0) if pos else rng.uniform(-2, 2)] * 3
                base += [k * f for k in consts for f in (0.9, 1.0, 1.1) if isinstance(k, (int, float)) and abs(k) < 50 and (k > 0 or not pos)]
                env[n] = float(rng.choice(base))
        for n in self.bools:
            env[n] = fixed.get(n, rng.random() < 0.5)
        for n, (shp, dt, pos, sym, gen) in self.arrays.items():
            shape = tuple(int(evaluate(s, env)) for s in shp)
            if gen:
                a = np.asarray(gen(rng, env, shape))
            elif dt == "i8":
                a = np.array([rng.randint(0, 3) for _ in range(int(np.prod(shape)))]).reshape(shape)
            else:
                a = np.array([rng.uniform(0.3, 1.5) if pos else rng.uniform(-1.2, 1.2) for _ in range(int(np.prod(shape)))], dtype=float).reshape(shape)
            for idx, v in (cells or {}).get(n, []):
                if len(idx) == len(shape) and all(0 <= i < s for i, s in zip(idx, shape)):
                    a[tuple(idx)] = v
            if sym:
                for sw in sym:
                    ax = list(range(len(shape)))
                    i, j = sw
                    for x, y in (zip(i, j) if isinstance(i, tuple) else [(i, j)]):
                        ax[x], ax[y] = ax[y], ax[x]
                    a = (a + a.transpose(ax)) / 2 if dt == "f8" else np.maximum(a, a.transpose(ax))
            env["@" + n] = a
            env[n] = Cell(a)
        env["$text"] = tx = {}
        for n, (gen, arity) in self.texts.items():
            if arity:
                memo = {}

                def get(*i, memo=memo, gen=gen):
                    if i not in memo:
                        memo[i] = gen(rng, env, *i)
                    return memo[i]
                tx[n] = get
            else:
                tx[n] = gen(rng, env)
        return env

    def hyps_hold(self, env, hyps):
        for h in hyps:
            try:
                if not eval_b(h, env):
                    return False
            except (EvalError, KeyError):
                continue
        return True


class Cell:
    def __init__(self, a):
        self.a = a

    def __call__(self, *i):
        idx = tuple(int(x) for x in i)
        # terms are total functions: outside the array any value will do (such parts cancel)
        if not self.a.size:
            return 0.0
        idx = tuple(min(max(k, 0), n - 1) for k, n in zip(idx, self.a.shape))
        return self.a[idx].item() if idx or self.a.shape == () else self.a


def eval_b(b, env):
    if b.op == "true":
        return True
    if b.op == "false":
        return False
    if b.op == "not":
        return not eval_b(b.args[0], env)
    if b.op == "and":
        return all(eval_b(x, env) for x in b.args)
    if b.op == "or":
        return any(eval_b(x, env) for x in b.args)
    c = b.args[0]
    if c[0] == "le0":
        return evaluate(c[1], env) <= 0
    if c[0] == "eq0":
        return abs(evaluate(c[1], env)) == 0
    if c[1] in env:
        v = env[c[1]]
        return v(*[evaluate(x, env) for x in c[2]]) if callable(v) else bool(v)
    raise EvalError(c[1])


class Obligation:
    def __init__(self, name, status, backend="", detail="", hyps=(), t=0.0):
        self.name, self.status, self.backend, self.detail, self.hyps, self.t = name, status, backend, detail, list(hyps), t

    def asdict(self):
        return {"name": self.name, "status": self.status, "backend": self.backend, "detail": self.detail[:300], "time_s": round(self.t, 3)}


class Contract:
    target = None           # 'pibronic.pimc.pimc:build_o_matrix'
    name = None
    ignore = ()             # (attribute names) left unspecified
    replayable = True
    atol = 1e-9
    rtol = 1e-7
    uses = ()               # contracts used at call sites
    inline_note = ""
    trials = 6
    frame_on_raise = False  # the state when an exception is raised is specified as well

    def setup(self, c):
        raise NotImplementedError

    def effect(self, c, *args):
        raise NotImplementedError

    def requires(self, *args):
        return []

    def label(self):
        return self.name or self.target.split(":")[1]

    # invocation: how the function is called in the real code
    def invoke_symbolic(self, I, args):
        return I.call(self.function(), args)

    def invoke_real(self, args):
        return self.function()(*args)

    def function(self):
        return resolve(self.target)

    def check_signature(self, args):
        """a helper whose signature changed is outside this contract (not a violation)"""
        node = function_node(self.function())
        a = node.args
        if a.vararg:
            return
        n = len(a.posonlyargs) + len(a.args)
        need = n - len(a.defaults)
        if not need <= len(args) <= n or any(d is None for d in a.kw_defaults):
            raise Unsupported(f"signature of {self.target} changed")

    def patches(self, env):
        """context manager factory used while running the real code"""
        import contextlib
        return contextlib.nullcontext()

    def compare_hook(self, path, got, want, env):
        """return True/False to override a comparison in replays, None for the default"""
        return None

    # ---------------------------------------------------------- call site use
    def at_call(self, I, args, kwargs):
        fn_ = self.function()
        node = function_node(fn_)
        frame = I.bind(node, fn_.__defaults__ or (), fn_.__kwdefaults__ or {}, args, kwargs, fn_.__name__)
        vals = [frame[a.arg] for a in node.args.args]
        for nm, b in self.requires(*vals):
            if isinstance(b, Forall):
                idx = [ivar(fresh("q")) for _ in b.shape]
                hy = list(ENG.hyps) + PV.ranges_of(idx, b.shape)
                goal = b.f(idx)
            else:
                hy, goal = list(ENG.hyps), b
            t = time.time()
            if PV.check(hy) == "unsat":
                continue
            v = PV.prove_b(goal, hy)
            ENG.obligations.append(Obligation(f"requires[{self.label()}] {nm}", "proved" if v else "failed", v.backend, v.detail, hy, time.time() - t))
            if not v:
                raise Failure(f"requires[{self.label()}] {nm}", v.detail)
        I.contracts_used.add(self.label())
        return self.effect(None, *vals)


class Forall:
    def __init__(self, shape, f):
        self.shape, self.f = [dim(s) for s in shape], f


def reset_all():
    ENG.reset()
    ENG.obligations = []
    T.POSITIVE.clear()
    T.SYMMETRIC.clear()
    T.INTAPP.clear()
    T.BOUNDS.clear()
    T.REMAINDER.clear()
    T.OPAQUE.clear()
    T.OKEY.clear()
    T.FORALL.clear()
    from . import strings
    strings.reset()
    PV._cache.clear()
    PV._trans.clear()
    PV._ns.clear()


class Result:
    def __init__(self, contract):
        self.contract = contract
        self.obligations = []
        self.unsupported = None
        self.paths = 0
        self.functions = set()
        self.contracts_used = set()
        self.loops = 0
        self.vacuous = None
        self.time = 0.0
        self.replays = 0
        self.cex = None
        self.natives = set()

    @property
    def failed(self):
        return [o for o in self.obligations if o.status == "failed"]

    @property
    def proved(self):
        return not self.unsupported and not self.failed and self.obligations and not self.vacuous


def compare_values(name, got, want, hyps, out, seen):
    """emit obligations got == want"""
    t = time.time()

    def emit(nm, v, hy=None):
        out.append(Obligation(nm, "proved" if v else "failed", v.backend, v.detail, hy if hy is not None else hyps, time.time() - t))
    if want is ANY:
        return
    if isinstance(got, Poison) or isinstance(want, Poison):
        raise Unsupported(f"{name}: value left by a loop")
    if hasattr(want, "vc_compare"):
        return want.vc_compare(name, got, hyps, out, emit)
    if hasattr(got, "vc_compare"):
        return got.vc_compare(name, want, hyps, out, emit)
    if isinstance(want, Arr):
        if not isinstance(got, Arr):
            if isinstance(got, np.ndarray):
                got = from_numpy(got)
            elif isinstance(got, S) and not want._shape:
                pass
            else:
                emit(name, PV.Verdict(False, "", f"not an array: {type(got).__name__}"))
                return
        if len(got._shape) != len(want._shape):
            emit(name + ".shape", PV.Verdict(False, "", f"rank {len(got._shape)} instead of {len(want._shape)}"))
            return
        for i, (x, y) in enumerate(zip(got._shape, want._shape)):
            if x is not y:
                emit(f"{name}.shape[{i}]", PV.prove_eq(x, y, hyps))
        key = (id(got.buf), id(want.buf))
        idx = [ivar(fresh("i")) for _ in want._shape]
        if getattr(want.buf, "remainder", None):
            for d, L in want.buf.remainder.items():
                T.REMAINDER[idx[d]] = L
        hy = list(hyps) + PV.ranges_of(idx, want._shape)
        v = PV.prove_eq(got.at(idx), want.at(idx), hy)
        emit(name, v, hy)
        return
    if isinstance(want, (S, SB)) or (isinstance(want, (int, float)) and not isinstance(want, bool) and isinstance(got, (S, SB))):
        if isinstance(got, Arr) and not got._shape:
            got = S(got.at([]))
        if got is None or isinstance(got, (str, list, dict, Obj, Arr)):
            emit(name, PV.Verdict(False, "", f"value {got!r} instead of {want!r}"))
            return
        emit(name, PV.prove_eq(to_p(got), to_p(want), hyps))
        return
    if isinstance(want, bool) and isinstance(got, SB):
        emit(name, PV.prove_b(got.b if want else b_not(got.b), hyps))
        return
    if isinstance(want, (list, tuple)):
        if isinstance(got, SSeq) or not isinstance(got, (list, tuple)) or len(got) != len(want):
            emit(name, PV.Verdict(False, "", f"{got!r} instead of {want!r}"))
            return
        for i, (x, y) in enumerate(zip(got, want)):
            compare_values(f"{name}[{i}]", x, y, hyps, out, seen)
        return
    if isinstance(want, SSeq):
        if isinstance(got, list) and want.n.const is None:
            emit(name, PV.Verdict(False, "", "length"))
            return
        n2 = got.n if isinstance(got, SSeq) else num(len(got))
        emit(name + ".length", PV.prove_eq(n2, want.n, hyps))
        i = ivar(fresh("i"))
        hy = list(hyps) + PV.ranges_of([i], [want.n])
        if isinstance(got, SSeq):
            compare_values(name + "[i]", got.elem(i), want.elem(i), hy, out, seen)
        return
    if isinstance(want, dict):
        if not isinstance(got, dict):
            emit(name, PV.Verdict(False, "", f"{got!r} instead of a dictionary"))
            return
        ks = lambda d: sorted(map(repr, d))
        emit(name + ".keys", PV.Verdict(set(got) == set(want), "equality", f"keys {ks(got)} instead of {ks(want)}"))
        for k in want:
            if k in got:
                compare_values(f"{name}[{k!r}]", got[k], want[k], hyps, out, seen)
        return
    if isinstance(want, Obj):
        if got is want:
            return
        if not isinstance(got, Obj) or got.cls is not want.cls:
            emit(name, PV.Verdict(False, "", f"{got!r} instead of {want!r}"))
            return
        if (id(got), id(want)) in seen:
            return
        seen.add((id(got), id(want)))
        for k in want.attrs:
            compare_values(f"{name}.{k}", got.attrs.get(k, Missing), want.attrs[k], hyps, out, seen)
        return
    if isinstance(want, functools.partial):
        ok = isinstance(got, functools.partial) and got.func == want.func
        emit(name, PV.Verdict(bool(ok), "equality", "partial"))
        if ok:
            compare_values(name + ".args", tuple(got.args), tuple(want.args), hyps, out, seen)
            compare_values(name + ".kw", got.keywords, want.keywords, hyps, out, seen)
        return
    if isinstance(want, (types.FunctionType, type, types.ModuleType, Closure, Bound)) or want is None or isinstance(want, (str, bool)):
        emit(name, PV.Verdict(got is want or (type(got) is type(want) and got == want), "equality", f"{got!r} instead of {want!r}"))
        return
    if isinstance(want, (int, float, Fraction)):
        try:
            emit(name, PV.prove_eq(to_p(got), to_p(want), hyps))
        except Unsupported:
            emit(name, PV.Verdict(False, "", f"{got!r} instead of {want!r}"))
        return
    if isinstance(want, slice):
        for f in ("start", "stop", "step"):
            compare_values(f"{name}.{f}", getattr(got, f, Missing), getattr(want, f), hyps, out, seen)
        return
    emit(name, PV.Verdict(got is want or got == want, "equality", f"{got!r} instead of {want!r}"))


class _Missing:
    def __repr__(self):
        return "<missing>"


Missing = _Missing()


def snapshot_objects(snap):
    return {id(t): s for t, s in snap[0]}


class View:
    """read access to a snapshot: temporarily restores it"""


def verify(contract, tier="quick", seed=1, use_contracts=None):
    """use_contracts: labels of contracts that must not be relied upon (their functions are inlined)"""
    """symbolic verification of one contract"""
    t0 = time.time()
    reset_all()
    r = Result(contract)
    I = Interp()
    I.contracts_used = set()
    c = Ctx()
    r.ctx = c
    try:
        excluded = use_contracts if use_contracts is not None else ()
        for u in contract.uses:
            u = u() if isinstance(u, type) else u
            if u.label() in excluded:
                continue
            try:
                I.overrides[u.function()] = u.at_call
            except (AttributeError, KeyError, ModuleNotFoundError):
                continue            # gone: whatever replaced it is executed in place
        for f, m in getattr(contract, "overrides", lambda c: {})(c).items():
            I.overrides[f] = m
        args = contract.setup(c)
        r.args = args
        contract.check_signature(args)
        if PV.check(ENG.hyps) == "unsat":
            r.vacuous = "precondition unsatisfiable"
            return r
        r.pre_hyps = list(ENG.hyps)
        snap0 = r.snap0 = ENG.snapshot()
        tracked = list(ENG.track)
        # expected state
        names = label_locations(args, contract)
        want = ENG.explore(lambda: contract.effect(c, *args))
        want = [w for w in want]
        for w in want:
            if w[1][0] == "fail":
                raise w[1][1]
        r.want = want
        ENG.restore(snap0)
        outs = ENG.explore(lambda: contract.invoke_symbolic(I, args))
        r.paths = len(outs)
        for taken, res, snap, hyps in outs:
            tag = "" if len(outs) == 1 else " @path(" + ",".join(("" if v else "!") + str(b)[:40] for b, v in taken) + ")"
            for wtaken, wres, wsnap, whyps in want:
                # guard against infeasible combination of specification case and path
                ENG.restore(snap0)
                allh = list(ENG.hyps) + list(hyps) + list(whyps)
                if PV.contradictory(allh):
                    continue
                compare_paths(contract, r, tag, res, snap, wres, wsnap, tracked, names, allh, snap0)
        ENG.restore(snap0)
        r.obligations = list(ENG.obligations) + r.obligations
    except Unsupported as e:
        r.unsupported = str(e)[:500]
        r.trace = traceback.format_exc()
        r.obligations = list(ENG.obligations) + r.obligations
    except Failure as e:
        r.obligations = list(ENG.obligations) + r.obligations
        if not r.failed:
            r.obligations.append(Obligation(e.name, "failed", "", e.detail))
    except SymRaise as e:
        r.unsupported = f"specification raised {e}"
        r.trace = traceback.format_exc()
    except (AttributeError, KeyError) as e:
        # the function named by the contract is gone or has another shape
        r.unsupported = f"{type(e).__name__}: {e}"[:500]
        r.trace = traceback.format_exc()
    except RecursionError as e:
        r.unsupported = "recursion limit"
    except Exception as e:
        r.unsupported = f"engine error {type(e).__name__}: {e}"[:500]
        r.trace = traceback.format_exc()
    finally:
        r.functions = set(I.functions_seen)
        r.natives = set(I.native_calls)
        r.contracts_used = set(I.contracts_used)
        r.loops = len(I.loops)
        r.time = time.time() - t0
    if not r.unsupported and not r.obligations and not r.vacuous:
        r.vacuous = "no obligations were generated"
    return r


def label_locations(args, contract):
    """readable names of the objects and buffers of the pre-state"""
    names = {}

    def walk(x, nm, depth=0):
        if id(x) in names or depth > 6:
            return
        if isinstance(x, Obj):
            names[id(x)] = nm
            for k, v in x.attrs.items():
                walk(v, f"{nm}.{k}", depth + 1)
        elif isinstance(x, Arr):
            names.setdefault(id(x.buf), nm)
        elif isinstance(x, dict):
            names[id(x)] = nm
            for k, v in x.items():
                walk(v, f"{nm}[{k!r}]", depth + 1)
        elif isinstance(x, (list, tuple)):
            names[id(x)] = nm
            for i, v in enumerate(x):
                walk(v, f"{nm}[{i}]", depth + 1)
    try:
        node = function_node(contract.function())
        an = [a.arg for a in node.args.args]
    except Exception:
        an = [f"arg{i}" for i in range(len(args))]
    for i, a in enumerate(args):
        walk(a, an[i] if i < len(an) else f"arg{i}")
    return names


def compare_paths(contract, r, tag, res, snap, wres, wsnap, tracked, names, hyps, snap0):
    out = r.obligations
    seen = set()
    lab = contract.label()
    if res[0] == "fail":
        out.append(Obligation(f"{lab}: {res[1].name}{tag}", "failed", "", res[1].detail, hyps))
        return
    if wres[0] == "raise":
        ok = res[0] == "raise" and isinstance(res[1].exc, type) and issubclass(res[1].exc, wres[1].exc)
        out.append(Obligation(f"{lab}: raises {wres[1].exc.__name__}{tag}", "proved" if ok else "failed", "paths", str(res[1]), hyps))
        if not ok or not contract.frame_on_raise:
            return
    elif res[0] == "raise":
        out.append(Obligation(f"{lab}: no exception{tag}", "failed", "paths", str(res[1]), hyps))
        return
    else:
        out.append(Obligation(f"{lab}: no exception{tag}", "proved", "paths", "", hyps))
    got_state, want_state = snapshot_objects(snap), snapshot_objects(wsnap)
    # buffers reachable in both worlds must be read in their own world: build frozen readers
    def freeze(v, snapx, memo):
        if isinstance(v, Arr):
            st = snapx.get(id(v.buf))
            f = st[0] if st is not None else v.buf.fn
            fwd = v.fwd
            b = object.__new__(Buf)
            b.remainder = getattr(v.buf, "remainder", None)
            b.shape, b.fn, b.dtype, b.name, b.writes, b.log = v._shape, (lambda idx, f=f, fwd=fwd: f(tuple(fwd(list(idx))))), v.buf.dtype, v.buf.name, 0, None
            return Arr(b)
        if isinstance(v, tuple):
            return tuple(freeze(x, snapx, memo) for x in v)
        if isinstance(v, list):
            return [freeze(x, snapx, memo) for x in snapx.get(id(v), v)]
        if isinstance(v, dict):
            return {k: freeze(x, snapx, memo) for k, x in snapx.get(id(v), v).items()}
        if isinstance(v, Obj) and id(v) not in pre_ids:
            if id(v) in memo:
                return memo[id(v)]
            o = object.__new__(Obj)
            o.cls = v.cls
            o.attrs = {}
            memo[id(v)] = o
            o.attrs.update({k: freeze(x, snapx, memo) for k, x in snapx.get(id(v), v.attrs).items()})
            return o
        if hasattr(v, "vc_freeze"):
            return v.vc_freeze(snapx, lambda x: freeze(x, snapx, memo))
        return v
    pre_ids = {id(t) for t in tracked}
    gm, wm = {}, {}
    for t in tracked:
        if id(t) not in names and not isinstance(t, ClassModel):
            continue
        nm = names.get(id(t), type(t).__name__)
        g, w = got_state.get(id(t)), want_state.get(id(t))
        if isinstance(t, Buf):
            if g[0] is w[0]:
                continue
            if nm.split(".")[-1] in contract.ignore:
                continue
            idx = [ivar(fresh("i")) for _ in t.shape]
            hy = list(hyps) + PV.ranges_of(idx, t.shape)
            t1 = time.time()
            v = PV.prove_eq(g[0](tuple(idx)), w[0](tuple(idx)), hy)
            out.append(Obligation(f"{lab}: {nm}{tag}", "proved" if v else "failed", v.backend, v.detail, hy, time.time() - t1))
        elif isinstance(t, (Obj, dict)):
            for k in sorted(set(g) | set(w), key=str):
                if k in contract.ignore:
                    continue
                gv, wv = g.get(k, Missing), w.get(k, Missing)
                if gv is wv or wv is ANY:
                    continue
                if wv is Missing:
                    if k not in snapshot_objects(snap0).get(id(t), {}):
                        # an extra attribute the specification does not mention: harmless bookkeeping
                        continue
                compare_values(f"{lab}: {nm}.{k}{tag}" if isinstance(t, Obj) else f"{lab}: {nm}[{k!r}]{tag}",
                               freeze(gv, got_state, gm), freeze(wv, want_state, wm), hyps, out, seen)
        elif isinstance(t, (list, set)):
            if g != w or symbolic(list(g)):
                compare_values(f"{lab}: {nm}{tag}", freeze(list(g), got_state, gm), freeze(list(w), want_state, wm), hyps, out, seen)
        elif hasattr(t, "vc_compare_state"):
            t.vc_compare_state(f"{lab}: {nm}{tag}", g, w, hyps, out, lambda x: freeze(x, got_state, gm), lambda x: freeze(x, want_state, wm))
    for gk in ("choices", "saved"):
        wch, gch = wsnap[4].get(gk, ()), snap[4].get(gk, ())
        if wch:
            compare_values(f"{lab}: {gk}{tag}", freeze(list(gch), got_state, gm), freeze(list(wch), want_state, wm), hyps, out, seen)
    if "fs" in wsnap[4]:
        gfs, wfs = snap[4].get("fs", {}), wsnap[4]["fs"]
        for p in sorted(set(gfs) | set(wfs)):
            if gfs.get(p) is wfs.get(p, Missing):
                continue
            if p not in wfs or p not in gfs:
                out.append(Obligation(f"{lab}: file {p}{tag}", "failed", "equality", "written although it must not be" if p not in wfs else "not written", hyps))
                continue
            compare_values(f"{lab}: file {p}{tag}", gfs[p], wfs[p], hyps, out, seen)
    if res[0] == "raise":
        return
    compare_values(f"{lab}: result{tag}", freeze(res[1], got_state, gm), freeze(wres[1], want_state, wm), hyps, out, seen)


# ---------------------------------------------------------------- replay on the real code
def harvest_constants(contract, functions):
    """numeric literals in the functions that ran"""
    out = set()
    for q in functions:
        try:
            node = function_node(resolve(q))
        except Exception:
            continue
        for n in ast.walk(node):
            if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
                out.add(n.value)
    return sorted(out)


def model_to_fixed(hyps, c):
    """values of scalars and array cells from an SMT model of the hypotheses"""
    res, m, tr = PV.check(list(hyps), want_model=True)
    if res != "sat":
        return None, None
    fixed, cells = {}, {}

    def val(x):
        try:
            if isinstance(x, PV.z3.IntNumRef):
                return x.as_long()
            if isinstance(x, PV.z3.RatNumRef):
                return float(x.as_fraction())
            if isinstance(x, PV.z3.AlgebraicNumRef):
                return float(x.approx(10).as_fraction())
            if PV.z3.is_true(x):
                return True
            if PV.z3.is_false(x):
                return False
        except Exception:
            pass
        return None
    for d in m.decls():
        n = d.name()
        if d.arity() == 0:
            v = val(m[d])
            if v is not None:
                fixed[n] = v
        else:
            n = n.split("!")[0]
            fi = m[d]
            if isinstance(fi, PV.z3.FuncInterp):
                for i in range(fi.num_entries()):
                    e = fi.entry(i)
                    idx = [val(e.arg_value(j)) for j in range(e.num_args())]
                    v = val(e.value())
                    if v is not None and all(isinstance(x, int) for x in idx):
                        cells.setdefault(n, []).append((idx, v))
    return fixed, cells


def concretise(x, env, memo):
    """symbolic value -> real Python value"""
    if id(x) in memo:
        return memo[id(x)]
    memo.setdefault("keep", []).append(x)       # ids stay unique while the memo lives
    if isinstance(x, S):
        v = evaluate(x.p, env)
        return int(v) if x.is_int else float(v)
    if isinstance(x, SB):
        return eval_b(x.b, env)
    if isinstance(x, Arr):
        a = arr_value(x, env)
        # views on the same buffer must alias
        key = ("buf", id(x.buf))
        if key in memo and memo[key].shape == a.shape:
            return memo[key]
        memo[key] = a
        return a
    if isinstance(x, Obj):
        if x.cls is None:
            o = types.SimpleNamespace()
        else:
            o = object.__new__(x.cls)
        memo[id(x)] = o
        for k, v in x.attrs.items():
            object.__setattr__(o, k, concretise(v, env, memo))
        return o
    if isinstance(x, dict):
        d = {}
        memo[id(x)] = d
        for k, v in x.items():
            d[k] = concretise(v, env, memo)
        return d
    if isinstance(x, list):
        return [concretise(v, env, memo) for v in x]
    if isinstance(x, tuple):
        return tuple(concretise(v, env, memo) for v in x)
    if isinstance(x, slice):
        g = lambda y: concretise(y, env, memo) if y is not None else None
        return slice(g(x.start), g(x.stop), g(x.step))
    if isinstance(x, SSeq):
        n = int(evaluate(x.n, env))
        return [concretise(x.elem(num(i)), env, memo) for i in range(n)]
    if isinstance(x, functools.partial):
        return functools.partial(x.func, *concretise(tuple(x.args), env, memo), **concretise(dict(x.keywords), env, memo))
    if hasattr(x, "concrete"):
        r = x.concrete(env, lambda y: concretise(y, env, memo))
        memo[id(x)] = r
        return r
    if isinstance(x, Bound):
        raise Unsupported("bound method in a pre-state")
    return x


def arr_value(x, env, fnover=None):
    shape = tuple(int(evaluate(s, env)) for s in x._shape)
    dt = {"f8": float, "i8": int, "b1": bool, "f4": np.float32}[x.buf.dtype]
    a = np.zeros(shape, dtype=dt)
    rd = x.reader() if fnover is None else fnover
    vs = [ivar(f"$v{i}") for i in range(len(shape))]
    t = rd(vs)
    for idx in itertools.product(*[range(n) for n in shape]):
        v = evaluate(t, env, {f"$v{i}": v for i, v in enumerate(idx)})
        a[idx] = float(v) if dt is float else v
    return a


class Mismatch(Exception):
    pass


SENS = {}       # path -> how much the value moves under a tiny change of the input


def tol_of(path, contract):
    """round-off allowance: (absolute array or number)"""
    return contract.atol + 5 * SENS.get(path, 0.0)


def flat_numbers(path, x, out, depth=0, seen=None):
    seen = set() if seen is None else seen
    if depth > 5 or id(x) in seen:
        return out
    if isinstance(x, (float, np.floating)):
        out[path] = float(x)
    elif isinstance(x, np.ndarray) and x.dtype.kind == "f":
        out[path] = x.astype(float).copy()
    elif isinstance(x, (list, tuple)):
        seen.add(id(x))
        for i, y in enumerate(x):
            flat_numbers(f"{path}[{i}]", y, out, depth + 1, seen)
    elif isinstance(x, dict):
        seen.add(id(x))
        for k, y in x.items():
            flat_numbers(f"{path}[{k!r}]", y, out, depth + 1, seen)
    elif hasattr(x, "__dict__") and not isinstance(x, (type, types.ModuleType, types.FunctionType)):
        seen.add(id(x))
        for k, y in vars(x).items():
            flat_numbers(f"{path}.{k}", y, out, depth + 1, seen)
    return out


def compare_concrete(contract, path, got, want, env, problems, memo, seen):
    """want is a symbolic (frozen) value"""
    if want is ANY or path.split(".")[-1] in contract.ignore:
        return
    h = contract.compare_hook(path, got, want, env)
    if h is True:
        return
    if h is False:
        problems.append(f"{path}: {short(got)}")
        return
    if isinstance(want, Arr):
        w = arr_value(want, env)
        try:
            g = np.asarray(got)
        except Exception:
            problems.append(f"{path}: not an array: {short(got)}")
            return
        if g.shape != w.shape:
            problems.append(f"{path}: shape {g.shape} instead of {w.shape}")
        elif not (np.isclose(np.asarray(g, dtype=float), np.asarray(w, dtype=float), rtol=contract.rtol, atol=tol_of(path, contract), equal_nan=True)
                  | (~np.isfinite(np.asarray(g, dtype=float)) & ~np.isfinite(np.asarray(w, dtype=float)))).all():
            d = np.unravel_index(np.nanargmax(np.abs(np.asarray(g, float) - np.asarray(w, float))) if not np.isnan(np.asarray(g, float) - np.asarray(w, float)).all() else 0, w.shape) if w.size else ()
            problems.append(f"{path}{list(map(int, d))}: real code gives {g[d]!r}, specification {w[d]!r}")
        elif w.dtype.kind == "f" and g.dtype.kind == "f" and g.dtype.itemsize < 8:
            problems.append(f"{path}: precision {g.dtype} instead of float64")
        return
    if isinstance(want, (S, SB)) or (isinstance(want, (int, float)) and not isinstance(want, bool)):
        w = concretise(want, env, {})
        try:
            ok = np.isclose(float(got), float(w), rtol=contract.rtol, atol=tol_of(path, contract), equal_nan=True) \
                or not (math.isfinite(float(got)) or math.isfinite(float(w)))
        except Exception:
            ok = False
        if not ok:
            problems.append(f"{path}: real code gives {short(got)}, specification {w!r}")
        return
    if isinstance(want, (list, tuple)):
        if not isinstance(got, (list, tuple)) or len(got) != len(want):
            problems.append(f"{path}: {short(got)} instead of {short(want)}")
            return
        for i, (g, w) in enumerate(zip(got, want)):
            compare_concrete(contract, f"{path}[{i}]", g, w, env, problems, memo, seen)
        return
    if isinstance(want, SSeq):
        w = concretise(want, env, {})
        if len(got) != len(w):
            problems.append(f"{path}: length {len(got)} instead of {len(w)}")
            return
        for i in range(len(w)):
            compare_concrete(contract, f"{path}[{i}]", got[i], want.elem(num(i)), env, problems, memo, seen)
        return
    if isinstance(want, dict):
        if not isinstance(got, dict) or set(got) != set(want):
            problems.append(f"{path}: keys {short(list(got) if isinstance(got, dict) else got)} instead of {short(list(want))}")
            return
        for k in want:
            compare_concrete(contract, f"{path}[{k!r}]", got[k], want[k], env, problems, memo, seen)
        return
    if isinstance(want, Obj):
        if id(want) in seen:
            return
        seen.add(id(want))
        for k, w in want.attrs.items():
            if not hasattr(got, k):
                problems.append(f"{path}.{k}: missing")
                continue
            compare_concrete(contract, f"{path}.{k}", getattr(got, k), w, env, problems, memo, seen)
        return
    if isinstance(want, slice):
        w = concretise(want, env, {})
        if got != w:
            problems.append(f"{path}: {got} instead of {w}")
        return
    if isinstance(want, functools.partial):
        return
    if hasattr(want, "compare_concrete"):
        want.compare_concrete(path, got, env, problems)
        return
    if isinstance(want, (ClassModel,)):
        return
    try:
        ok = got is want or bool(got == want)
    except Exception:
        ok = False
    if not ok:
        problems.append(f"{path}: real code gives {short(got)}, specification {short(want)}")


def short(x):
    s = repr(x)
    return s if len(s) < 160 else s[:157] + "..."


def extend_env(env, c):
    """derived symbols (eigen decompositions, ...)"""
    e = Env(env)
    e.recipes = c.recipes
    return e


class Env(dict):
    recipes = {}

    def get(self, k, d=None):
        if k in self:
            return self[k]
        f = derived(k, self)
        return f if f is not None else d


DERIVED = {}


def derived(name, env):
    m = DERIVED.get(name)
    if m is None:
        return None
    v = m(env)
    env[name] = v
    return v


def replay(contract, r, rng, fixed=None, cells=None, consts=(), extra_hyps=()):
    """one concrete run of the real function against the evaluated specification.
    returns None (agreement), a list of differences, or 'skip'"""
    c, args = r.ctx, r.args
    env = None
    for _ in range(60):
        e = c.sample(rng, fixed, cells, consts)
        if c.hyps_hold(e, list(r.pre_hyps) + list(extra_hyps)):
            env = e
            break
    if env is None:
        return "skip"
    env = extend_env(env, c)
    r.last_env = env
    memo = {}
    reset_snap = r.snap0
    ENG.restore(reset_snap)
    real_args = [concretise(a, env, memo) for a in args]
    r.last_args = [short(a) for a in real_args]
    # choose the specification case
    case = None
    for wtaken, wres, wsnap, whyps in r.want:
        try:
            if all(eval_b(b if v else b_not(b), env) for b, v in wtaken):
                case = (wres, wsnap)
                break
        except Exception:
            continue
    if case is None:
        return "skip"
    wres, wsnap = case
    try:
        an = [a.arg for a in function_node(contract.function()).args.args]
    except Exception:
        an = []
    names = [an[i] if i < len(an) else f"arg{i}" for i in range(len(real_args))]
    outcome = run_real(contract, env, real_args)
    r.replays += 1
    if wres[0] == "raise":
        if outcome[0] != "raise" or not isinstance(outcome[1], wres[1].exc):
            return [f"expected {wres[1].exc.__name__}, got {short(outcome[1])}"]
        return None
    if outcome[0] == "raise":
        return [f"real code raises {type(outcome[1]).__name__}: {str(outcome[1])[:200]}"]

    def compare():
        problems = []
        ENG.restore(wsnap)
        try:
            seen = set()
            for nm, g, w in zip(names, real_args, args):
                compare_concrete(contract, nm, g, w, env, problems, memo, seen)
            compare_concrete(contract, "result", outcome[1], wres[1], env, problems, memo, seen)
        finally:
            ENG.restore(reset_snap)
        return problems
    SENS.clear()
    problems = compare()
    if not problems:
        return None
    # confirm: is the difference more than round-off?
    base = flat_numbers("result", outcome[1], {})
    for nm, g in zip(names, real_args):
        flat_numbers(nm, g, base)
    big = max([float(np.nanmax(np.abs(v))) for v in base.values() if np.size(v) and np.isfinite(v).any()] + [0.0])
    for path in base:
        SENS[path] = 1e-14 * big
    for k in range(2):
        env2 = perturbed(env, c, random.Random(k))
        ENG.restore(reset_snap)
        try:
            args2 = [concretise(a, env2, {}) for a in args]
            out2 = run_real(contract, env2, args2)
        except Exception:
            continue
        if out2[0] != "ok":
            continue
        other = flat_numbers("result", out2[1], {})
        for nm, g in zip(names, args2):
            flat_numbers(nm, g, other)
        for path, v in base.items():
            w = other.get(path)
            if w is not None and np.shape(v) == np.shape(w):
                d = np.abs(np.asarray(v) - np.asarray(w))
                d = float(np.nanmax(d)) if d.size and not np.isnan(d).all() else 0.0
                SENS[path] = max(SENS.get(path, 0.0), d)
    T.MP = True
    try:
        problems = compare()
    except Exception as e:
        problems = [p for p in problems if "nan" not in p]
    finally:
        T.MP = False
        SENS.clear()
    return problems or None


def perturbed(env, c, rng):
    e = {}
    for k in list(c.dims) + list(c.bools):
        e[k] = env[k]
    e["$text"] = env.get("$text", {})
    for k in c.scalars:
        e[k] = env[k] * (1 + 1e-13 * rng.uniform(-1, 1))
    for n, (shp, dt, pos, sym, gen) in c.arrays.items():
        a = env["@" + n]
        if dt == "f8" and not gen:
            nz = np.array([rng.uniform(-1, 1) for _ in range(a.size)]).reshape(a.shape)
            if sym:
                nz = nz * 0 + rng.uniform(-1, 1)
            a = a * (1 + 1e-13 * nz)
        e["@" + n] = a
        e[n] = Cell(a)
    return extend_env(e, c)


def run_real(contract, env, real_args):
    import io, contextlib, warnings
    try:
        with contract.patches(env), contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            return ("ok", contract.invoke_real(real_args))
    except Exception as ex:
        return ("raise", ex)


def describe_env(env):
    out = {}
    for k, v in env.items():
        if isinstance(v, (int, float, bool, str)):
            out[k] = v
        elif k == "$text":
            out[k] = {n: t for n, t in v.items() if isinstance(t, str)}
        elif k.startswith("@"):
            out[k[1:]] = np.asarray(v).tolist() if np.asarray(v).size <= 64 else f"array{np.asarray(v).shape}"
    return out
