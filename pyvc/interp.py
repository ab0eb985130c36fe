"""AST interpreter of the real functions over symbolic values."""
import sys
import ast
import builtins
import enum
import functools
import inspect
import itertools
import operator
import os
import types
import numpy as np
from .terms import *
from . import terms as T
from . import prove as PV
from .core import *
from . import core

REPO = os.environ.get("PYVC_REPO", "/repo")

_modast = {}


def module_ast(filename):
    if filename not in _modast:
        with open(filename, encoding="utf8") as f:
            src = f.read()
        tree = ast.parse(src, filename)
        table = {}
        for node in ast.walk(tree):
            if isinstance(node, (ast.FunctionDef, ast.Lambda)):
                line = node.lineno
                if isinstance(node, ast.FunctionDef) and node.decorator_list:
                    line = min([line] + [d.lineno for d in node.decorator_list])
                table.setdefault((line, getattr(node, "name", "<lambda>")), node)
        _modast[filename] = (tree, table, src)
    return _modast[filename]


def function_node(f):
    code = f.__code__
    tree, table, _ = module_ast(code.co_filename)
    node = table.get((code.co_firstlineno, code.co_name))
    if node is None:
        raise Unsupported(f"no source for {f}")
    return node


def in_repo(f):
    code = getattr(f, "__code__", None)
    return code is not None and os.path.realpath(code.co_filename).startswith(os.path.realpath(REPO) + os.sep)


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class Poison:
    """value left behind by a loop that may not have run"""
    def __init__(self, why):
        self.why = why


class Bound:
    """bound repository method"""
    def __init__(self, fn, self_):
        self.fn, self.self_ = fn, self_

    def __repr__(self):
        return f"<bound {self.fn}>"


class Super:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class Closure:
    """function defined inside interpreted code"""
    def __init__(self, node, frame, glob, interp):
        self.node, self.frame, self.glob, self.interp = node, frame, glob, interp

    def __call__(self, *a, **k):
        return self.interp.call_closure(self, a, k)


MODELS = {}          # callable -> model(interp, *args, **kwargs)
ALWAYS = set()       # models used even for concrete arguments


def model(*fs, always=False):
    def deco(m):
        for f in fs:
            MODELS[f] = m
            if always:
                ALWAYS.add(f)
        return m
    return deco


class ClassModel:
    """hook for values implemented natively by the verifier; calls and attributes go to Python"""
    __vc_model__ = True


def symbolic(x, depth=3):
    if isinstance(x, (S, SB, Arr, Obj, SRange, SSeq, Bound, Closure, Poison, ClassModel)):
        return True
    if depth and isinstance(x, (list, tuple, set)):
        return any(symbolic(i, depth - 1) for i in x)
    if depth and isinstance(x, dict):
        return any(symbolic(i, depth - 1) for i in x.values()) or any(symbolic(i, depth - 1) for i in x.keys())
    if isinstance(x, slice):
        return symbolic(x.start) or symbolic(x.stop)
    if isinstance(x, functools.partial):
        return symbolic(x.args) or symbolic(x.keywords)
    return False


NATIVE_OK = {
    "builtins", "itertools", "math", "operator", "functools", "json", "json.encoder", "posixpath", "genericpath",
    "copy", "re", "collections", "string", "fractions", "enum", "os.path", "numpy", "types", "_functools", "_operator",
    "hashlib", "_hashlib", "ntpath", "parse", "copyreg",
}


class MaybeDict(ClassModel):
    """a dictionary that holds each entry under a condition (only compared, never read)"""
    py_type = dict

    def __init__(self, entries):
        self.entries = entries

    def isinstance_(self, ts):
        return dict in ts or object in ts

    def vc_freeze(self, snap, freeze):
        return self


class Interp:
    def __init__(self, overrides=None):
        self.depth = 0
        self.overrides = overrides or {}     # real callable -> replacement(interp, args, kwargs)
        self.functions_seen = set()
        self.native_calls = set()
        self.loops = []                      # induction records

    # ------------------------------------------------------------------ calls
    def call(self, f, args=(), kwargs=None):
        kwargs = kwargs or {}
        if isinstance(f, Poison):
            raise Unsupported(f.why)
        if isinstance(f, Bound):
            key = f.fn
            if key in self.overrides:
                return self.overrides[key](self, (f.self_,) + tuple(args), kwargs)
            return self.call(f.fn, (f.self_,) + tuple(args), kwargs)
        try:
            hashable = hash(f) is not None
        except TypeError:
            hashable = False
        if hashable and f in self.overrides:
            return self.overrides[f](self, tuple(args), kwargs)
        if isinstance(f, Closure):
            return self.call_closure(f, args, kwargs)
        if isinstance(f, functools.partial):
            kw = dict(f.keywords)
            kw.update(kwargs)
            return self.call(f.func, tuple(f.args) + tuple(args), kw)
        if isinstance(f, types.MethodType):
            if hashable and f.__func__ in self.overrides:
                return self.overrides[f.__func__](self, (f.__self__,) + tuple(args), kwargs)
            if in_repo(f.__func__):
                return self.call(f.__func__, (f.__self__,) + tuple(args), kwargs)
            s = f.__self__
            if is_log(s):
                return None
        if hashable and f in MODELS and (f in ALWAYS or symbolic(args) or symbolic(kwargs)):
            return self.run_model(MODELS[f], args, kwargs)
        if isinstance(f, type):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, types.FunctionType) and in_repo(f):
            return self.call_function(f, args, kwargs)
        if getattr(f, "__vc_model__", False) or getattr(getattr(f, "__self__", None), "__vc_model__", False):
            return f(*args, **kwargs)
        s = getattr(f, "__self__", None)
        if isinstance(s, (S, SB, Arr, SSeq)):
            return f(*args, **kwargs)
        if isinstance(s, (list, dict, set)) and not isinstance(s, type):
            return self.container_method(s, f, args, kwargs)
        if is_log(s):
            return None
        if not symbolic(args) and not symbolic(kwargs):
            return self.native(f, args, kwargs)
        if isinstance(s, str) and f.__name__ == "join":
            return self.str_join(s, args[0])
        if isinstance(s, str) and f.__name__ == "format":
            return self.str_format(s, args, kwargs)
        raise Unsupported(f"call of {f} with symbolic arguments")

    def run_model(self, m, args, kwargs):
        try:
            inspect.signature(m).bind(self, *args, **kwargs)
        except TypeError as e:
            raise Unsupported(f"library call outside its contract: {e}")
        return m(self, *args, **kwargs)

    def str_join(self, s, it):
        from .strings import SStr
        return SStr.join(s, list(self.iterate(it)))

    def str_format(self, s, args, kwargs):
        from .strings import fmt
        return fmt(s, args, kwargs)

    def native(self, f, args, kwargs):
        mod = getattr(f, "__module__", None) or type(getattr(f, "__self__", None)).__module__
        root = (mod or "").split(".")[0]
        if mod not in NATIVE_OK and root not in ("numpy", "pibronic", "collections", "json", "re", "parse"):
            if not isinstance(getattr(f, "__self__", None), (str, bytes, int, float, tuple, dict, list, set, enum.Enum)):
                raise Unsupported(f"native call of {mod}.{getattr(f, '__name__', f)}")
        if root == "pibronic" and isinstance(f, types.FunctionType):
            return self.call_function(f, args, kwargs)
        name = getattr(f, "__name__", "")
        if f in (open, exec, eval, builtins.input):
            raise Unsupported(f"native call of {name}")
        if (mod or "").startswith("numpy.random"):
            raise Unsupported("unmodelled randomness")
        self.native_calls.add(f"{mod}.{name}")
        try:
            r = f(*args, **kwargs)
        except (Unsupported, SymRaise, Infeasible, Failure):
            raise
        except Exception as e:
            raise SymRaise(type(e), str(e))
        if isinstance(r, np.ndarray):
            return from_numpy(r)
        if type(r) in (list, dict, set):
            ENG.track.append(r)
        return r

    def container_method(self, s, f, args, kwargs):
        name = f.__name__
        if isinstance(s, (list, set)) and name in ("append", "extend", "add", "insert", "pop", "remove", "clear", "copy", "update", "discard",
                                                   "index", "count", "reverse"):
            if name in ("index", "count", "remove") and (symbolic(s) or symbolic(args)):
                raise Unsupported(f"list.{name} on symbolic values")
            if name == "extend":
                args = (list(self.iterate(args[0])),)
            try:
                r = f(*args)
            except Exception as e:
                raise SymRaise(type(e), str(e))
            if name == "copy":
                ENG.track.append(r)
            return r
        if isinstance(s, dict):
            if name in ("update",):
                for a in args:
                    for k in a:
                        s[k] = a[k]
                s.update(kwargs)
                return None
            if name in ("get", "keys", "values", "items", "pop", "copy", "setdefault", "clear"):
                try:
                    r = f(*args, **kwargs)
                except Exception as e:
                    raise SymRaise(type(e), str(e))
                if name == "copy":
                    ENG.track.append(r)
                return r
        if not symbolic(args) and not symbolic(kwargs):
            return self.native(f, args, kwargs)
        raise Unsupported(f"{type(s).__name__}.{name}")

    def instantiate(self, cls, args, kwargs):
        if cls is range:
            a = list(args)
            if not symbolic(a):
                return range(*a)
            if len(a) == 1:
                return SRange(0, a[0])
            step = a[2] if len(a) > 2 else 1
            if isinstance(step, S):
                # range(0, n*L, L): counted as blocks
                n = to_p(a[1])
                q = fdiv(sub(n, to_p(a[0])), step.p)
                ENG.track  # noqa
                if T.fdiv(sub(n, to_p(a[0])), step.p).is_int and not any(x.kind == "fdiv" for x in q.atoms()):
                    lo = to_p(a[0])
                    return SSeq(q, lambda k: mkS(add(lo, mul(k, step.p))))
                raise Unsupported("symbolic range step")
            return SRange(a[0], a[1], step)
        if cls is super:
            return Super(*args)
        if cls in (list, tuple, set, dict, str, int, float, bool, enumerate, zip, map, filter, reversed, slice, type,
                   itertools.product, itertools.chain, itertools.permutations, itertools.combinations, itertools.combinations_with_replacement, itertools.repeat, frozenset, object):
            return self.builtin_type(cls, args, kwargs)
        if isinstance(cls, type) and issubclass(cls, BaseException):
            return ("exc", cls, args)
        if issubclass(cls, enum.Enum):
            return self.native(cls, args, kwargs)
        if getattr(cls, "__vc_model__", False):
            return cls(*args, **kwargs)
        if cls in MODELS:
            return self.run_model(MODELS[cls], args, kwargs)
        if issubclass(cls, tuple) and hasattr(cls, "_fields") and "__init__" not in cls.__dict__:
            try:
                return cls(*args, **kwargs)         # namedtuple
            except TypeError as e:
                raise SymRaise(TypeError, str(e))
        if cls.__module__.startswith("pibronic"):
            o = Obj(cls)
            init = cls.__init__
            if isinstance(init, types.FunctionType):
                self.call(init, (o,) + tuple(args), kwargs)
            return o
        if cls is functools.partial:
            return functools.partial(*args, **kwargs)
        if not symbolic(args) and not symbolic(kwargs):
            return self.native(cls, args, kwargs)
        raise Unsupported(f"instantiation of {cls}")

    def builtin_type(self, cls, args, kwargs):
        a = list(args)
        if cls is slice:
            return slice(*a)
        if cls is type:
            x = a[0]
            if isinstance(x, Obj):
                return x.cls
            if isinstance(x, S):
                return int if x.is_int else (np.float64 if x.np64 else float)
            if isinstance(x, Arr):
                return np.ndarray
            return getattr(x, "py_type", None) or type(x)
        if cls is object:
            return Obj(None)
        if cls is float:
            x = a[0] if a else 0.0
            if isinstance(x, S):
                return x
            if isinstance(x, Arr):
                return x.item()
            if hasattr(x, "to_float"):
                return x.to_float()
            return self.native(float, a, kwargs)
        if cls is int:
            x = a[0] if a else 0
            if isinstance(x, Arr):
                x = x.item()
            if isinstance(x, S):
                return x if x.is_int else S(fn("trunc", x.p))
            if isinstance(x, SB):
                return S(ind(x.b))
            if hasattr(x, "to_int"):
                return x.to_int()
            return self.native(int, a, kwargs)
        if cls is bool:
            x = a[0] if a else False
            return self.truth_value(x)
        if cls is str:
            from .strings import to_sstr
            x = a[0] if a else ""
            if symbolic(x):
                return to_sstr(x)
            return self.native(str, a, kwargs)
        if cls is map:
            f = a[0]
            seqs = a[1:]
            if any(self.lazy(s) for s in seqs):
                if len(seqs) == 1:
                    n, el = self.seq_view(seqs[0])
                    return SSeq(n, lambda k: self.call(f, (el(k),)))
                raise Unsupported("map over several symbolic sequences")
            return [self.call(f, t) for t in zip(*[list(self.iterate(s)) for s in seqs])]
        if cls is filter:
            f = a[0]
            return [x for x in self.iterate(a[1]) if self.truth(self.call(f, (x,)) if f is not None else x)]
        if cls is enumerate:
            st = a[1] if len(a) > 1 else kwargs.get("start", 0)
            if self.lazy(a[0]):
                n, el = self.seq_view(a[0])
                return SSeq(n, lambda k: (mkS(add(k, to_p(st))), el(k)))
            return list(enumerate(list(self.iterate(a[0])), st))
        if cls is zip:
            if any(self.lazy(s) for s in a):
                vs = [self.seq_view(s) for s in a]
                n = vs[0][0]
                for m, _ in vs[1:]:
                    if not same(n, m):
                        raise Unsupported("zip of different symbolic lengths")
                return SSeq(n, lambda k: tuple(el(k) for _, el in vs))
            return list(zip(*[list(self.iterate(s)) for s in a]))
        if cls is reversed:
            if self.lazy(a[0]):
                n, el = self.seq_view(a[0])
                return SSeq(n, lambda k: el(sub(sub(n, num(1)), k)))
            return list(reversed(list(self.iterate(a[0]))))
        if cls is itertools.repeat and len(args) == 2 and not isinstance(args[1], int):
            raise Unsupported("repeat a symbolic number of times")
        if cls is itertools.repeat:
            return [args[0]] * (args[1] if len(args) > 1 else kwargs["times"])
        if cls in (itertools.permutations, itertools.combinations, itertools.combinations_with_replacement):
            if not self.lazy(args[0]):
                return self.native(cls, (list(self.iterate(args[0])),) + tuple(args[1:]), kwargs)
            r = args[1] if len(args) > 1 else kwargs.get("r")
            if r != 2:
                raise Unsupported("permutations")
            v = self.seq_view(args[0])
            ps = ProductSeq([v, v])
            ps.cond = {itertools.permutations: lambda a, b: b_not(eq(a, b)), itertools.combinations: lambda a, b: lt(a, b)}.get(cls, lambda a, b: le(a, b))
            return ps
        if cls is itertools.product:
            rep = kwargs.get("repeat", 1)
            a = a * rep
            if any(self.lazy(s) for s in a):
                return ProductSeq([self.seq_view(s) for s in a])
            return list(itertools.product(*[list(self.iterate(s)) for s in a]))
        if cls is itertools.chain:
            out = []
            for s in a:
                out.extend(self.iterate(s))
            return out
        if cls is dict:
            d = {}
            if a:
                src = a[0]
                if isinstance(src, dict):
                    d.update(src)
                else:
                    for k, v in self.iterate(src):
                        d[k] = v
            d.update(kwargs)
            ENG.track.append(d)
            return d
        if not a:
            r = cls()
            if cls is not tuple:
                ENG.track.append(r)
            return r
        x = a[0]
        if type(x).__name__ in ("SymSet", "SymList"):
            from .strings import SymSet, SymList
            return SymSet(x.e) if cls in (set, frozenset) else SymList(x.e, isinstance(x, SymList) and x.sorted_)
        if self.lazy(x):
            if cls in (list, tuple):
                n, el = self.seq_view(x)
                return SSeq(n, el)
            if cls in (set, frozenset):
                from .strings import SymSet
                n, el = self.seq_view(x)
                return SymSet(("of", n, el))
            raise Unsupported(f"{cls.__name__} of a symbolic sequence")
        items = list(self.iterate(x))
        if cls in (set, frozenset) and symbolic(items):
            raise Unsupported("set of symbolic values")
        r = cls(items)
        if cls is not tuple and cls is not frozenset:
            ENG.track.append(r)
        return r

    def lazy(self, x):
        """sequence of symbolic length"""
        if isinstance(x, SRange):
            return x.n.const is None
        if isinstance(x, SSeq):
            return x.n.const is None
        if isinstance(x, ProductSeq):
            return True
        if isinstance(x, Arr):
            return x.ndim > 0 and x._shape[0].const is None
        if hasattr(x, "seq_view"):
            return x.seq_view()[0].const is None
        return False

    def seq_view(self, x):
        if isinstance(x, SRange):
            return x.n, x.elem
        if isinstance(x, SSeq):
            return x.n, x.elem
        if isinstance(x, Arr):
            return x._shape[0], (lambda k: x[S(k)] if k.const is None else x[int(k.const)])
        if isinstance(x, range):
            return num(len(x)), (lambda k: S(add(num(x.start), mul(num(x.step), k))))
        if isinstance(x, (list, tuple)):
            def el(k):
                if k.const is not None:
                    return x[int(k.const)]
                raise Unsupported("symbolic position in a concrete sequence")
            return num(len(x)), el
        if hasattr(x, "seq_view"):
            return x.seq_view()
        raise Unsupported(f"sequence view of {type(x)}")

    def iterate(self, x):
        if isinstance(x, Poison):
            raise Unsupported(x.why)
        if isinstance(x, (SRange, SSeq, Arr)):
            n, el = self.seq_view(x)
            if n.const is None:
                raise Unsupported("iteration over a sequence of symbolic length")
            return [el(num(i)) for i in range(int(n.const))]
        if isinstance(x, Obj):
            raise Unsupported("iteration over an object")
        if isinstance(x, type) and issubclass(x, enum.Enum):
            return list(x)
        try:
            return list(x)
        except TypeError as e:
            raise SymRaise(TypeError, str(e))

    # ------------------------------------------------------------------ functions
    def bind(self, node, defaults, kwdefaults, args, kwargs, name):
        a = node.args
        frame = {}
        pos = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        kwargs = dict(kwargs)
        if len(args) > len(pos) and not a.vararg:
            raise SymRaise(TypeError, f"{name}() takes {len(pos)} positional arguments but {len(args)} were given")
        for p, v in zip(pos, args):
            frame[p] = v
        if a.vararg:
            frame[a.vararg.arg] = tuple(args[len(pos):])
        nd = len(defaults)
        for i, p in enumerate(pos):
            if p in frame:
                if p in kwargs:
                    raise SymRaise(TypeError, f"{name}() got multiple values for argument '{p}'")
                continue
            if p in kwargs:
                frame[p] = kwargs.pop(p)
            elif i >= len(pos) - nd:
                frame[p] = defaults[i - (len(pos) - nd)]
            else:
                raise SymRaise(TypeError, f"{name}() missing argument '{p}'")
        for x in a.kwonlyargs:
            if x.arg in kwargs:
                frame[x.arg] = kwargs.pop(x.arg)
            elif x.arg in kwdefaults:
                frame[x.arg] = kwdefaults[x.arg]
            else:
                raise SymRaise(TypeError, f"{name}() missing argument '{x.arg}'")
        if a.kwarg:
            frame[a.kwarg.arg] = kwargs
            ENG.track.append(kwargs)
        elif kwargs:
            raise SymRaise(TypeError, f"{name}() got an unexpected keyword argument {list(kwargs)[0]!r}")
        return frame

    def call_function(self, f, args, kwargs):
        if inspect.isgeneratorfunction(f):
            raise Unsupported("generator")
        node = function_node(f)
        self.functions_seen.add(f"{f.__module__}:{f.__qualname__}")
        frame = self.bind(node, f.__defaults__ or (), f.__kwdefaults__ or {}, args, kwargs, f.__name__)
        clo = {}
        if f.__closure__:
            for n, c in zip(f.__code__.co_freevars, f.__closure__):
                clo[n] = c.cell_contents
        return self.run_body(node, frame, f.__globals__, [clo], f)

    def call_closure(self, c, args, kwargs):
        node = c.node
        dflt = c.defaults
        kwd = c.kwdefaults
        frame = self.bind(node, dflt, kwd, args, kwargs, getattr(node, "name", "<lambda>"))
        return self.run_body(node, frame, c.glob, [c.frame] + c.outer, None)

    def run_body(self, node, frame, glob, outer, f):
        self.depth += 1
        if self.depth > 40:
            self.depth -= 1
            raise Unsupported("recursion")
        ENG.frames.append(frame)
        fr = Frame(frame, glob, outer, f)
        try:
            if isinstance(node, ast.Lambda):
                return self.expr(node.body, fr)
            try:
                self.block(node.body, fr)
            except Ret as r:
                return r.v
            return None
        finally:
            self.depth -= 1
            ENG.frames.pop()

    # ------------------------------------------------------------------ statements
    def block(self, stmts, fr):
        for s in stmts:
            self.stmt(s, fr)

    def stmt(self, s, fr):
        ENG.steps += 1
        if ENG.steps > 200000:
            raise Unsupported("too many steps")
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(s).__name__} line {s.lineno}")
        m(s, fr)

    def s_Pass(self, s, fr):
        pass

    def s_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return
        self.expr(s.value, fr)

    def s_Return(self, s, fr):
        raise Ret(self.expr(s.value, fr) if s.value is not None else None)

    def s_Break(self, s, fr):
        raise Brk()

    def s_Continue(self, s, fr):
        raise Cont()

    def s_Assign(self, s, fr):
        v = self.expr(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.expr(s.value, fr), fr)

    def s_AugAssign(self, s, fr):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.name(t.id, fr)
            store = lambda v: fr.set(t.id, v)
        elif isinstance(t, ast.Attribute):
            o = self.expr(t.value, fr)
            cur = self.getattr(o, t.attr)
            store = lambda v: self.setattr(o, t.attr, v)
        else:
            o = self.expr(t.value, fr)
            k = self.index(t.slice, fr)
            cur = self.getitem(o, k)
            store = lambda v: self.setitem(o, k, v)
        v = self.expr(s.value, fr)
        store(self.binop(s.op, cur, v, inplace=True))

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            fr.set(t.id, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.expr(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.expr(t.value, fr), self.index(t.slice, fr), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = list(self.iterate(v))
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if star:
                i = star[0]
                after = len(t.elts) - i - 1
                if len(items) < len(t.elts) - 1:
                    raise SymRaise(ValueError, "not enough values to unpack")
                for x, y in zip(t.elts[:i], items[:i]):
                    self.assign(x, y, fr)
                self.assign(t.elts[i].value, items[i:len(items) - after], fr)
                for x, y in zip(t.elts[i + 1:], items[len(items) - after:]):
                    self.assign(x, y, fr)
                return
            if len(items) != len(t.elts):
                raise SymRaise(ValueError, "unpack mismatch")
            for x, y in zip(t.elts, items):
                self.assign(x, y, fr)
        elif isinstance(t, ast.Starred):
            raise Unsupported("starred")
        else:
            raise Unsupported("assignment target")

    def s_If(self, s, fr):
        if self.truth(self.expr(s.test, fr)):
            self.block(s.body, fr)
        else:
            self.block(s.orelse, fr)

    def s_Assert(self, s, fr):
        if not self.truth(self.expr(s.test, fr)):
            raise SymRaise(AssertionError, f"assert line {s.lineno}")

    def s_Raise(self, s, fr):
        if s.exc is None:
            if getattr(fr, "current_exc", None) is not None:
                raise fr.current_exc
            raise Unsupported("bare raise")
        e = self.expr(s.exc, fr)
        if isinstance(e, tuple) and e and e[0] == "exc":
            raise SymRaise(e[1], str(e[2])[:200])
        if isinstance(e, type) and issubclass(e, BaseException):
            raise SymRaise(e)
        if isinstance(e, SymRaise):
            raise e
        raise Unsupported("raise")

    def s_Try(self, s, fr):
        try:
            try:
                self.block(s.body, fr)
            except SymRaise as e:
                for h in s.handlers:
                    types_ = None
                    if h.type is not None:
                        types_ = self.expr(h.type, fr)
                        types_ = types_ if isinstance(types_, tuple) else (types_,)
                    if types_ is None or any(isinstance(x, type) and isinstance(e.exc, type) and issubclass(e.exc, x) for x in types_):
                        if h.name:
                            fr.set(h.name, e)
                        old = getattr(fr, "current_exc", None)
                        fr.current_exc = e
                        try:
                            self.block(h.body, fr)
                        finally:
                            fr.current_exc = old
                        break
                else:
                    raise
            else:
                self.block(s.orelse, fr)
        finally:
            if s.finalbody:
                self.block(s.finalbody, fr)

    def s_With(self, s, fr):
        mgrs = []
        for it in s.items:
            m = self.expr(it.context_expr, fr)
            if isinstance(m, Obj) or not hasattr(m, "__enter__") or not getattr(m, "__vc_model__", False):
                raise Unsupported("context manager")
            v = m.__enter__()
            mgrs.append(m)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, fr)
        try:
            self.block(s.body, fr)
        finally:
            for m in reversed(mgrs):
                m.__exit__(None, None, None)

    def s_FunctionDef(self, s, fr):
        fr.set(s.name, self.make_closure(s, fr))

    def make_closure(self, node, fr):
        c = Closure(node, fr.locals, fr.glob, self)
        c.outer = fr.outer
        c.defaults = [self.expr(d, fr) for d in node.args.defaults]
        c.kwdefaults = {a.arg: self.expr(d, fr) for a, d in zip(node.args.kwonlyargs, node.args.kw_defaults) if d is not None}
        return c

    def s_Import(self, s, fr):
        import importlib
        for a in s.names:
            m = importlib.import_module(a.name)
            fr.set(a.asname or a.name.split(".")[0], m if a.asname else importlib.import_module(a.name.split(".")[0]))

    def s_ImportFrom(self, s, fr):
        import importlib
        pkg = fr.glob.get("__package__")
        m = importlib.import_module("." * s.level + (s.module or ""), pkg)
        for a in s.names:
            v = getattr(m, a.name, None)
            if v is None:
                v = importlib.import_module(m.__name__ + "." + a.name)
            fr.set(a.asname or a.name, v)

    def s_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                fr.locals.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.expr(t.value, fr)
                k = self.index(t.slice, fr)
                if isinstance(o, (dict, list)):
                    try:
                        del o[k]
                    except Exception as e:
                        raise SymRaise(type(e), str(e))
                else:
                    raise Unsupported("del")
            elif isinstance(t, ast.Attribute):
                self.delattr(self.expr(t.value, fr), t.attr)
            else:
                raise Unsupported("del")

    def s_Global(self, s, fr):
        fr.globals |= set(s.names)

    def s_Nonlocal(self, s, fr):
        fr.nonlocals.update(s.names)

    def s_While(self, s, fr):
        n = 0
        while self.truth(self.expr(s.test, fr)):
            n += 1
            if n > 64:
                raise Unsupported("while loop without a bound")
            try:
                self.block(s.body, fr)
            except Cont:
                continue
            except Brk:
                return
        self.block(s.orelse, fr)

    def s_For(self, s, fr):
        it = self.expr(s.iter, fr)
        if isinstance(it, Poison):
            raise Unsupported(it.why)
        if isinstance(it, ProductSeq):
            def nest(i, vals, at=()):
                if i == len(it.views):
                    if it.cond is not None and not ENG.branch(it.cond(*at)):
                        return
                    self.assign(s.target, tuple(vals), fr)
                    self.block(s.body, fr)
                    return
                n, el = it.views[i]
                if n.const is not None:
                    for j in range(int(n.const)):
                        try:
                            nest(i + 1, vals + [el(num(j))], at + (num(j),))
                        except Cont:
                            pass
                else:
                    from .loops import symbolic_loop
                    symbolic_loop(self, n, lambda k: nest(i + 1, vals + [el(k)], at + (k,)), fr, s)
            try:
                nest(0, [])
            except Brk:
                return
            self.block(s.orelse, fr)
            return
        if hasattr(it, "comprehend"):
            def run_item(x):
                self.assign(s.target, x, fr)
                self.block(s.body, fr)
            try:
                for x in list(it.items):
                    if isinstance(x, (str, tuple, list)) or not hasattr(x, "dims"):
                        try:
                            run_item(x)
                        except Cont:
                            pass
                        continue
                    try:
                        from .loops import scatter
                        scatter(self, x, run_item, s)
                    except Unsupported:
                        self.nest_loops(x, [], run_item, fr, s)
            except Brk:
                return
            self.block(s.orelse, fr)
            return
        if self.lazy(it):
            from .loops import symbolic_loop
            n, el = self.seq_view(it)

            def run(k):
                self.assign(s.target, el(k), fr)
                self.block(s.body, fr)
            try:
                symbolic_loop(self, n, run, fr, s)
            except Brk:
                return
            self.block(s.orelse, fr)
            return
        for v in list(self.iterate(it)):
            self.assign(s.target, v, fr)
            try:
                self.block(s.body, fr)
            except Cont:
                continue
            except Brk:
                return
        self.block(s.orelse, fr)

    def nest_loops(self, fam, at, run_item, fr, node):
        """one loop per index of a family of lines"""
        if len(at) == len(fam.dims):
            if fam.cond is not None and not ENG.branch(fam.cond(at)):
                return
            run_item(fam.item(at))
            return
        n = fam.dims[len(at)]
        if n.const is not None:
            for j in range(int(n.const)):
                try:
                    self.nest_loops(fam, at + [num(j)], run_item, fr, node)
                except Cont:
                    pass
        else:
            from .loops import symbolic_loop
            symbolic_loop(self, n, lambda k: self.nest_loops(fam, at + [k], run_item, fr, node), fr, node)

    # ------------------------------------------------------------------ expressions
    def truth_value(self, v):
        if isinstance(v, SB):
            return v
        if isinstance(v, S):
            return mkbool(b_not(eq(v.p, num(0))))
        if isinstance(v, SSeq):
            return mkbool(lt(num(0), v.n))
        if isinstance(v, SRange):
            return mkbool(lt(num(0), v.n))
        if hasattr(v, "truth_b"):
            return mkbool(v.truth_b())
        if isinstance(v, Poison):
            raise Unsupported(v.why)
        if isinstance(v, (Obj, Bound, Closure)):
            return True
        return bool(v)

    def truth(self, v):
        return bool(self.truth_value(v))

    def expr(self, e, fr):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__} line {e.lineno}")
        return m(e, fr)

    def e_Constant(self, e, fr):
        if isinstance(e.value, str) and e.value.isidentifier():
            return sys.intern(e.value)      # as the compiler does
        return e.value

    def e_Name(self, e, fr):
        return self.name(e.id, fr)

    def name(self, n, fr):
        v = fr.get(n)
        if isinstance(v, Poison):
            raise Unsupported(v.why)
        return v

    def e_Attribute(self, e, fr):
        return self.getattr(self.expr(e.value, fr), e.attr)

    def e_Subscript(self, e, fr):
        return self.getitem(self.expr(e.value, fr), self.index(e.slice, fr))

    def index(self, s, fr):
        if isinstance(s, ast.Slice):
            return self.e_Slice(s, fr)
        if isinstance(s, ast.Tuple):
            return tuple(self.index(x, fr) for x in s.elts)
        return self.expr(s, fr)

    def e_Slice(self, s, fr):
        g = lambda x: self.expr(x, fr) if x is not None else None
        return slice(g(s.lower), g(s.upper), g(s.step))

    def e_Tuple(self, e, fr):
        return tuple(self.elts(e.elts, fr))

    def e_List(self, e, fr):
        r = list(self.elts(e.elts, fr))
        ENG.track.append(r)
        return r

    def e_Set(self, e, fr):
        r = set(self.elts(e.elts, fr))
        ENG.track.append(r)
        return r

    def elts(self, xs, fr):
        out = []
        for x in xs:
            if isinstance(x, ast.Starred):
                out.extend(self.iterate(self.expr(x.value, fr)))
            else:
                out.append(self.expr(x, fr))
        return out

    def e_Dict(self, e, fr):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                d.update(self.expr(v, fr))
            else:
                d[self.expr(k, fr)] = self.expr(v, fr)
        ENG.track.append(d)
        return d

    def e_UnaryOp(self, e, fr):
        v = self.expr(e.operand, fr)
        if isinstance(e.op, ast.Not):
            t = self.truth_value(v)
            return (not t) if isinstance(t, bool) else ~t
        return self.pyop({ast.USub: operator.neg, ast.UAdd: operator.pos, ast.Invert: operator.invert}[type(e.op)], v)

    def e_BinOp(self, e, fr):
        return self.binop(e.op, self.expr(e.left, fr), self.expr(e.right, fr))

    OPS = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Div: operator.truediv,
           ast.Pow: operator.pow, ast.FloorDiv: operator.floordiv, ast.Mod: operator.mod, ast.MatMult: operator.matmul,
           ast.BitAnd: operator.and_, ast.BitOr: operator.or_, ast.BitXor: operator.xor,
           ast.LShift: operator.lshift, ast.RShift: operator.rshift}
    IOPS = {ast.Add: operator.iadd, ast.Sub: operator.isub, ast.Mult: operator.imul, ast.Div: operator.itruediv,
            ast.Pow: operator.ipow}

    def pyop(self, f, *a):
        for x in a:
            if isinstance(x, Poison):
                raise Unsupported(x.why)
        try:
            return f(*a)
        except (Unsupported, SymRaise, Infeasible, Failure):
            raise
        except Exception as ex:
            if any(symbolic(x) for x in a) and not isinstance(ex, (ZeroDivisionError, KeyError, IndexError)):
                if isinstance(ex, TypeError) and any(isinstance(x, (str, type(None))) for x in a) and any(isinstance(x, (S, Arr)) for x in a):
                    raise SymRaise(TypeError, str(ex))
                raise Unsupported(f"{f.__name__}: {ex}")
            raise SymRaise(type(ex), str(ex))

    def binop(self, op, a, b, inplace=False):
        t = type(op)
        if inplace and t in self.IOPS and isinstance(a, (Arr, list)):
            if isinstance(a, list) and not isinstance(b, (list, tuple)):
                b = list(self.iterate(b))
            return self.pyop(self.IOPS[t], a, b)
        if t is ast.Mod and isinstance(a, str):
            if symbolic(b):
                from .strings import percent
                return percent(a, b)
        if t is ast.Mult and isinstance(b, list) and isinstance(a, S):
            a, b = b, a
        if t is ast.Mult and isinstance(a, list) and isinstance(b, S) and b.p.const is None:
            return core.repeated(a, b)
        if t is ast.Add and (isinstance(a, SSeq) and isinstance(b, (SSeq, list)) or isinstance(b, SSeq) and isinstance(a, list)):
            return core.joined(a, b)
        r = self.pyop(self.OPS[t], a, b)
        if type(r) in (list, dict, set):
            ENG.track.append(r)
        if isinstance(r, float) and isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return exact(t, a, b, r)
        return r

    def e_BoolOp(self, e, fr):
        v = None
        for i, x in enumerate(e.values):
            v = self.expr(x, fr)
            if i == len(e.values) - 1:
                return v
            t = self.truth(v)
            if isinstance(e.op, ast.And) and not t:
                return v if not isinstance(v, SB) else False
            if isinstance(e.op, ast.Or) and t:
                return v if not isinstance(v, SB) else True
        return v

    def e_Compare(self, e, fr):
        left = self.expr(e.left, fr)
        res = True
        for i, (op, c) in enumerate(zip(e.ops, e.comparators)):
            right = self.expr(c, fr)
            r = self.compare(op, left, right)
            if i == len(e.ops) - 1 and res is True:
                return r
            if isinstance(r, (Arr,)):
                raise Unsupported("chained array comparison")
            res = r if res is True else (res & r)
            if res is False:
                return False
            left = right
        return res

    def compare(self, op, a, b):
        for x in (a, b):
            if isinstance(x, Poison):
                raise Unsupported(x.why)
        t = type(op)
        if t in (ast.Is, ast.IsNot):
            r = self.identical(a, b)
            return r if t is ast.Is else (not r if isinstance(r, bool) else ~r)
        if t in (ast.In, ast.NotIn):
            r = self.contains(b, a)
            return r if t is ast.In else (not r if isinstance(r, bool) else ~r)
        f = {ast.Eq: operator.eq, ast.NotEq: operator.ne, ast.Lt: operator.lt, ast.LtE: operator.le,
             ast.Gt: operator.gt, ast.GtE: operator.ge}[t]
        if t in (ast.Eq, ast.NotEq) and isinstance(a, (tuple, list)) and type(a) is type(b) and (symbolic(a) or symbolic(b)):
            if len(a) != len(b):
                return t is ast.NotEq
            bs = []
            for x, y in zip(a, b):
                bs.append(to_b(self.compare(ast.Eq(), x, y)))
            r = b_and(*bs)
            return mkbool(r if t is ast.Eq else b_not(r))
        if isinstance(a, Obj) or isinstance(b, Obj):
            if t is ast.Eq:
                return a is b
            if t is ast.NotEq:
                return a is not b
        return self.pyop(f, a, b)

    def identical(self, a, b):
        if a is None or b is None or isinstance(a, (bool, type)) or isinstance(b, (bool, type)):
            if isinstance(a, SB) and isinstance(b, bool):
                return a == b
            return a is b
        if isinstance(a, (Obj, Arr, dict, list)) or isinstance(b, (Obj, Arr, dict, list)):
            return a is b
        if isinstance(a, (S, int, float, np.integer)) and isinstance(b, (S, int, float, np.integer)):
            # identity of numbers: CPython keeps one object per small int; symbolic numbers are never
            # known to be the same object
            if isinstance(a, S) or isinstance(b, S):
                if isinstance(a, S) and a.np64 or isinstance(b, S) and b.np64:
                    return False
                o, k = (a, b) if isinstance(a, S) else (b, a)
                kc = to_p(k).const
                if o.is_int and kc is not None and kc.denominator == 1 and -5 <= kc <= 256:
                    return self.compare(ast.Eq(), a, b)      # CPython keeps one object per small int
                return mkbool(b_and(to_b(self.compare(ast.Eq(), a, b)), bvar("same_object")))
        return a is b

    def contains(self, box, x):
        if hasattr(box, "contains_b"):
            return mkbool(box.contains_b(x))
        if isinstance(box, SRange):
            p = to_p(x)
            return mkbool(b_and(le(box.lo, p), lt(p, box.hi)))
        if isinstance(box, (list, tuple)) and (symbolic(box) or symbolic(x)):
            bs = [to_b(self.compare(ast.Eq(), y, x)) for y in box]
            return mkbool(b_or(*bs))
        if isinstance(box, range) and isinstance(x, S):
            return mkbool(b_and(le(num(box.start), x.p), lt(x.p, num(box.stop))))
        if isinstance(box, str) and symbolic(x):
            raise Unsupported("substring test")
        if isinstance(box, Arr):
            raise Unsupported("in array")
        return self.pyop(operator.contains, box, x)

    def e_IfExp(self, e, fr):
        return self.expr(e.body if self.truth(self.expr(e.test, fr)) else e.orelse, fr)

    def e_Lambda(self, e, fr):
        return self.make_closure(e, fr)

    def e_NamedExpr(self, e, fr):
        v = self.expr(e.value, fr)
        self.assign(e.target, v, fr)
        return v

    def e_JoinedStr(self, e, fr):
        from .strings import SStr, fmt_value
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                val = self.expr(v.value, fr)
                spec = ""
                if v.format_spec is not None:
                    spec = self.e_JoinedStr(v.format_spec, fr)
                if v.conversion not in (-1, 115) :
                    val = repr(val) if not symbolic(val) else val
                parts.append(fmt_value(val, spec))
        return SStr.concat(parts)

    def e_Starred(self, e, fr):
        raise Unsupported("starred")

    def e_Call(self, e, fr):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args and fr.get("super") is super:
            f = fr.function
            first = list(fr.locals.values())[0]
            return Super(f.__globals__ and self.owner(f, first), first)
        f = self.expr(e.func, fr)
        if f is dict and ENG.ghost.get("merge_filters") and len(e.args) == 1 and not e.keywords and \
                isinstance(e.args[0], (ast.GeneratorExp, ast.ListComp)) and isinstance(e.args[0].elt, ast.Tuple) and len(e.args[0].elt.elts) == 2:
            return self.conditional_dict(e.args[0].generators, *e.args[0].elt.elts, fr)
        args = self.elts(e.args, fr)
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                kwargs.update(self.expr(k.value, fr))
            else:
                kwargs[k.arg] = self.expr(k.value, fr)
        return self.call(f, args, kwargs)

    def owner(self, f, obj):
        cls = obj.cls if isinstance(obj, Obj) else (obj if isinstance(obj, type) else type(obj))
        for k in cls.__mro__:
            for v in k.__dict__.values():
                g = v.__func__ if isinstance(v, (classmethod, staticmethod)) else v
                if g is f:
                    return k
        raise Unsupported("super()")

    def conditional_dict(self, gens, key, value, fr):
        """a dictionary comprehension whose filter is not decided: the entries with their conditions"""
        if len(gens) != 1:
            raise Unsupported("nested comprehension with conditional entries")
        inner = fr.child()
        ENG.frames.append(inner.locals)
        out, g = {}, gens[0]
        try:
            for v in self.iterate(self.expr(g.iter, fr)):
                self.assign(g.target, v, inner)
                conds = []
                for c in g.ifs:
                    b = self.truth_value(self.expr(c, inner))
                    if b is False:
                        break
                    if b is not True:
                        conds.append(to_b(b))
                else:
                    k = self.expr(key, inner)
                    if k in out or symbolic(k):
                        raise Unsupported("repeated key")
                    out[k] = (b_and(*conds), self.expr(value, inner))
        finally:
            ENG.frames.pop()
        if all(c.op == "true" for c, _ in out.values()):
            out = {k: v for k, (_, v) in out.items()}
            ENG.track.append(out)
            return out
        return MaybeDict(out)

    def comp(self, gens, fr, emit, first=None):
        def rec(i):
            if i == len(gens):
                emit()
                return
            g = gens[i]
            it = self.expr(g.iter, fr) if i or first is None else first[0]
            for v in self.iterate(it):
                self.assign(g.target, v, fr)
                if all(self.truth(self.expr(c, fr)) for c in g.ifs):
                    rec(i + 1)
        rec(0)

    def e_ListComp(self, e, fr):
        inner = fr.child()
        ENG.frames.append(inner.locals)
        try:
            first = None
            if len(e.generators) == 1:
                it = self.expr(e.generators[0].iter, fr)
                first = [it]
                if hasattr(it, "comprehend"):
                    return self.comprehend(it, e.generators[0], e.elt, inner)
                if not e.generators[0].ifs and self.lazy(it):
                    n, el = self.seq_view(it)
                    g = e.generators[0]

                    def elem(k, inner=inner):
                        f2 = inner.child()
                        ENG.frames.append(f2.locals)
                        try:
                            self.assign(g.target, el(k), f2)
                            return self.expr(e.elt, f2)
                        finally:
                            ENG.frames.pop()
                    return SSeq(n, elem)
            out = []
            self.comp(e.generators, inner, lambda: out.append(self.expr(e.elt, inner)), first)
        finally:
            ENG.frames.pop()
        ENG.track.append(out)
        return out

    def comprehend(self, it, g, elt, inner):
        def at(x, f):
            f2 = inner.child()
            ENG.frames.append(f2.locals)
            try:
                self.assign(g.target, x, f2)
                return f(f2)
            finally:
                ENG.frames.pop()

        def keep(f2):
            for c in g.ifs:
                v = self.truth_value(self.expr(c, f2))
                if v is False:
                    return False
                if v is not True:
                    raise Unsupported("condition on symbolic elements")
            return True
        return it.comprehend(lambda x: at(x, lambda f2: self.expr(elt, f2)), lambda x: at(x, keep))

    def e_GeneratorExp(self, e, fr):
        return self.e_ListComp(e, fr)

    def e_SetComp(self, e, fr):
        r = self.e_ListComp(e, fr)
        if symbolic(r):
            raise Unsupported("set of symbolic values")
        return set(r)

    def e_DictComp(self, e, fr):
        if ENG.ghost.get("merge_filters"):
            return self.conditional_dict(e.generators, e.key, e.value, fr)
        inner = fr.child()
        ENG.frames.append(inner.locals)
        out = {}
        try:
            def emit():
                k = self.expr(e.key, inner)
                out[k] = self.expr(e.value, inner)
            self.comp(e.generators, inner, emit)
        finally:
            ENG.frames.pop()
        ENG.track.append(out)
        return out

    # ------------------------------------------------------------------ attributes and items
    def getattr(self, o, name):
        if isinstance(o, Poison):
            raise Unsupported(o.why)
        if isinstance(o, Obj):
            if name == "__class__":
                return o.cls
            if name == "__dict__":
                return o.attrs
            if name in o.attrs:
                v = o.attrs[name]
                if isinstance(v, Poison):
                    raise Unsupported(v.why)
                return v
            if o.cls is None:
                raise SymRaise(AttributeError, name)
            return self.class_attr(o.cls, name, o)
        if isinstance(o, Super):
            obj = o.obj
            cls = obj.cls if isinstance(obj, Obj) else obj
            mro = cls.__mro__
            i = mro.index(o.cls)
            for k in mro[i + 1:]:
                if name in k.__dict__:
                    return self.descr(k.__dict__[name], obj, cls)
            raise SymRaise(AttributeError, name)
        if isinstance(o, type) and o.__module__.startswith("pibronic") and not issubclass(o, enum.Enum):
            return self.class_attr(o, name, None)
        if isinstance(o, SymRaise):
            raise Unsupported("exception attribute")
        try:
            return getattr(o, name)
        except AttributeError as e:
            if isinstance(o, (S, SB, Arr, SSeq, ClassModel)):
                raise Unsupported(f"attribute {name} of {type(o).__name__}")
            raise SymRaise(AttributeError, str(e))

    def class_attr(self, cls, name, obj):
        ov = ENG.ghost.get("class_attrs", {}).get((cls, name))
        if ov is not None:
            return ov
        for k in cls.__mro__:
            if name in k.__dict__:
                return self.descr(k.__dict__[name], obj, cls)
        if name == "__name__":
            return cls.__name__
        raise SymRaise(AttributeError, f"{cls.__name__}.{name}")

    def descr(self, v, obj, cls):
        if isinstance(v, classmethod):
            return Bound(v.__func__, obj.cls if isinstance(obj, Obj) else cls)
        if isinstance(v, staticmethod):
            return v.__func__
        if isinstance(v, property):
            if obj is None:
                return v
            return self.call(v.fget, (obj,))
        if isinstance(v, types.FunctionType):
            if obj is None:
                return v
            return Bound(v, obj)
        if isinstance(v, (dict, list)) and not getattr(v, "__vc_tracked__", False):
            # class level mutable state: reads go to the real object, writes are tracked and undone
            ENG.keep_pristine(v)
        return v

    def setattr(self, o, name, v):
        if isinstance(o, Obj):
            if o.cls is not None:
                for k in o.cls.__mro__:
                    d = k.__dict__.get(name)
                    if isinstance(d, property):
                        if d.fset is None:
                            raise SymRaise(AttributeError, "can't set attribute")
                        self.call(d.fset, (o, v))
                        return
            o.attrs[name] = v
            return
        if isinstance(o, ClassModel):
            setattr(o, name, v)
            return
        raise Unsupported(f"attribute assignment on {type(o).__name__}")

    def getitem(self, o, k):
        if isinstance(o, Poison):
            raise Unsupported(o.why)
        if isinstance(o, SSeq):
            if isinstance(k, slice):
                raise Unsupported("slice of a symbolic sequence")
            p = to_p(k)
            c = p.const
            if c is not None and c < 0:
                p = add(o.n, p)
            if not ENG.entails(b_and(le(num(0), p), lt(p, o.n))):
                if not ENG.branch(b_and(le(num(0), p), lt(p, o.n))):
                    raise SymRaise(IndexError, "sequence index", maybe=True)
            return o.elem(p)
        if isinstance(o, (list, tuple)) and isinstance(k, S):
            c = k.p.const
            if c is not None:
                k = int(c)
            elif all(isinstance(x, (int, float, S)) for x in o):
                return S(select(k.p, [to_p(x) for x in o]))
            else:
                # fork on the position
                for i in range(len(o)):
                    if ENG.branch(eq(k.p, num(i))):
                        return o[i]
                raise SymRaise(IndexError, "list index", maybe=True)
        if isinstance(o, (list, tuple)) and isinstance(k, slice) and symbolic(k):
            raise Unsupported("symbolic slice of a list")
        if isinstance(o, Obj):
            gi = self.getattr(o, "__getitem__")
            return self.call(gi, (k,))
        if isinstance(o, dict) and symbolic(k):
            raise Unsupported("symbolic dictionary key")
        if isinstance(o, dict) and k not in o and hasattr(type(o), "__missing__"):
            return o[k]
        return self.pyop(operator.getitem, o, k)

    def delattr(self, o, name):
        if not isinstance(o, Obj):
            raise Unsupported("del")
        if name not in o.attrs:
            raise SymRaise(AttributeError, name)
        del o.attrs[name]

    def setitem(self, o, k, v):
        if isinstance(o, (dict,)) and symbolic(k):
            raise Unsupported("symbolic dictionary key")
        if isinstance(o, list) and isinstance(k, S):
            k = k.__index__()
        if isinstance(o, Obj):
            return self.call(self.getattr(o, "__setitem__"), (k, v))
        if isinstance(v, SSeq) and isinstance(o, Arr):
            n, el = v.n, v.elem
            v = Arr.make([n], lambda i: to_p(el(i[0])))
        try:
            o[k] = v
        except (Unsupported, SymRaise, Infeasible, Failure):
            raise
        except Exception as e:
            raise SymRaise(type(e), str(e))


def _copy(v):
    return v.copy()


def exact(t, a, b, r):
    """keep quotients of concrete numbers exact"""
    if t is ast.Div and isinstance(a, (int,)) and isinstance(b, (int,)) and b != 0:
        q = Fraction(a, b)
        if float(q) == r and q.denominator in (1, 2, 4, 5, 8, 10, 16):
            return r
        return S(num(q))
    return r


def is_log(x):
    import logging
    return isinstance(x, (logging.Logger, logging.LoggerAdapter)) or type(x).__name__ in ("MyLogger",)


class ProductSeq:
    cond = None             # condition on the (two) positions

    def __init__(self, views):
        self.views = views


class Frame:
    def __init__(self, locals_, glob, outer, function):
        self.locals, self.glob, self.outer, self.function = locals_, glob, outer, function
        self.nonlocals = set()
        self.globals = set()
        self.current_exc = None

    def get(self, n):
        if n in self.locals:
            return self.locals[n]
        for o in self.outer:
            if n in o:
                return o[n]
        g = ENG.ghost.get("globals")
        if g and (id(self.glob), n) in g:
            return g[(id(self.glob), n)]
        if n in self.glob:
            return self.glob[n]
        if hasattr(builtins, n):
            return getattr(builtins, n)
        raise SymRaise(NameError, n)

    def set(self, n, v):
        if n in self.globals:
            ENG.ghost = dict(ENG.ghost, globals={**ENG.ghost.get("globals", {}), (id(self.glob), n): v})
            return
        if n in self.nonlocals:
            for o in self.outer:
                if n in o:
                    o[n] = v
                    return
        self.locals[n] = v

    def child(self):
        f = Frame({}, self.glob, [self.locals] + self.outer, self.function)
        f.globals = self.globals
        return f
