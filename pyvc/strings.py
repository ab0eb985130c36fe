"""Symbolic text.

An SStr is ordinary text in which private-use characters stand for holes: the decimal rendering of
a symbolic integer, a symbolic number printed with two decimals, or an unknown piece of text whose
alphabet is restricted.  An operation is only carried out when its result is the same for every
value of the holes (a separator that might occur inside a hole is refused: Unsupported).
Texts are compared by aligning them from the left; every hole is delimited by a character it cannot
contain, so equality of the texts is equality of the holes.
"""
import json
import os
import posixpath
import string as _string
from .core import *
from . import terms as T
from . import prove as PV
from .terms import *
from .interp import ClassModel, MODELS, ALWAYS, model, symbolic, Interp
from . import npmodel

PUA = 0xE000
HOLES = []           # Hole objects, index = char - PUA
KEYS = {}
ALPHABETS = {}       # charset name -> excluded characters
DIG = set("0123456789-")


class Hole:
    """kind: int | fix | repr | var | junk"""
    def __init__(self, kind, p=None, spec="", name=None, args=(), excl="", nonempty=True, last_excl="", first=None, hom=None):
        self.kind, self.p, self.spec, self.name, self.args = kind, p, spec, name, tuple(args)
        self.compute = None
        self.hom = hom          # every character of the text replaced by its image (Hom)
        self.excl, self.nonempty, self.last_excl, self.first = set(excl), nonempty, set(last_excl), first

    def may(self, ch):
        """can the character occur in the hole"""
        if self.kind == "int":
            return ch in DIG
        if self.kind == "fix":
            return ch in "0123456789-."
        if self.kind == "repr":
            return ch in "0123456789-.e+infa"
        if self.kind == "seq":
            return ch in "0123456789-.e+infa" or ch in self.spec
        if self.kind == "var":
            return ch not in self.excl if self.hom is None else ch in self.hom.letters(self.excl)
        return True

    def may_end(self, ch):
        if self.hom is not None:
            return self.hom.touches(ch, self.excl, -1)
        return self.may(ch) and ch not in self.last_excl

    def may_start(self, ch):
        if self.hom is not None:
            return self.hom.touches(ch, self.excl, 0)
        return self.may(ch) and (self.first is None or ch == self.first)

    def mapped(self, f, key):
        if self.kind == "seq":
            h = Hole("seq", self.p, f(self.spec), name=self.name, nonempty=False)
            h.elem = self.elem
            return h
        h = (self.hom or IDENTITY).then(f, key)
        r = Hole("var", self.p, self.spec, self.name, self.args, self.excl, self.nonempty and h.nonempty(self.excl), self.last_excl, self.first, None if h.is_identity(self.excl) else h)
        r.compute = self.compute
        return r

    def text(self, env):
        if self.kind == "int":
            v = evaluate(self.p, env)
            return format(int(v), self.spec or "d")
        if self.kind == "fix":
            return format(float(evaluate(self.p, env)), self.spec)
        if self.kind == "repr":
            return repr(float(evaluate(self.p, env)))
        if self.kind == "seq":
            out = []
            for i in range(int(evaluate(self.p, env))):
                e = self.elem(num(i))
                v = evaluate(e.p, env)
                out.append(str(int(v)) if e.is_int else repr(float(v)))
            return self.spec.join(out)
        if self.kind == "var":
            v = env["$text"][self.name] if self.compute is None else self.compute(env)
            v = v(*[int(evaluate(a, env)) for a in self.args]) if callable(v) else v
            return v if self.hom is None else "".join(self.hom(x) for x in v)
        raise EvalError("text")

    def show(self):
        if self.kind in ("int", "fix", "repr"):
            return "{%s:%s}" % (show(self.p), self.spec if self.kind == "fix" else self.kind[0])
        return "{%s%s%s}" % (self.name, "(" + ",".join(show(a) for a in self.args) + ")" if self.args else "", "~" + self.hom.key[:60] if self.hom else "")


# every character up to U+3000 and samples of the others (json and single character replacements treat those alike)
CHARS = [chr(i) for i in range(0x3000)] + [chr(i) for i in range(0x3000, 0x110000, 509) if not 0xD800 <= i <= 0xDFFF] + [chr(0x10FFFF)]


class Hom:
    """text transformed character by character: the image of every character"""
    made = {}

    def __init__(self, images, key):
        self.images, self.key, self.memo = images, key, {}

    def __call__(self, c):
        return self.images.get(c, c)

    def then(self, f, key):
        k = self.key + ">" + key
        if k not in Hom.made:
            im = {}
            for c in CHARS:
                r = f(self(c))
                if r != c:
                    im[c] = r
            Hom.made[k] = Hom(im, k)
        return Hom.made[k]

    def _of(self, excl, what):
        k = (frozenset(excl), what)
        if k not in self.memo:
            pieces = {self(c) for c in CHARS if c not in excl}
            self.memo[k] = {"letters": set("".join(pieces)), 0: {p[0] for p in pieces if p}, -1: {p[-1] for p in pieces if p}, "ne": "" not in pieces,
                            "id": all(self(c) == c for c in CHARS if c not in excl)}[what] if what != "pieces" else pieces
        return self.memo[k]

    def letters(self, excl):
        return self._of(excl, "letters")

    def touches(self, ch, excl, end):
        return ch in self._of(excl, end)

    def nonempty(self, excl):
        return self._of(excl, "ne")

    def is_identity(self, excl):
        return self._of(excl, "id")

    def pieces(self, excl):
        return self._of(excl, "pieces")


IDENTITY = Hom({}, "")


def hole(h):
    k = (h.kind, h.spec, show(h.p) if h.p is not None else "", h.name, tuple(show(a) for a in h.args), h.hom.key if h.hom else "")
    if h.kind == "junk":
        k = (k, len(HOLES))
    if k not in KEYS:
        KEYS[k] = len(HOLES)
        HOLES.append(h)
        if len(HOLES) > 6000:
            raise Unsupported("too many symbolic pieces of text")
    return chr(PUA + KEYS[k])


def reset():
    HOLES.clear()
    KEYS.clear()


def hole_of(ch):
    i = ord(ch) - PUA
    return HOLES[i] if 0 <= i < 6400 and i < len(HOLES) else None


def fixed_value(p, spec):
    return fn("round2", p) if spec == ".2f" else fn("fix" + spec, p)


def occurrences(t, sub):
    """positions of sub in t, provided it cannot occur in any other way"""
    if not sub:
        raise Unsupported("empty separator")
    check_no_straddle(t, sub)
    out, i = [], 0
    while True:
        i = t.find(sub, i)
        if i < 0:
            return out
        out.append(i)
        i += len(sub)


def check_no_straddle(t, sub):
    """no occurrence of sub may use a character of a hole"""
    if hole_of(sub[0]) or any(hole_of(c) for c in sub):
        # symbolic separator: only handled when it is found verbatim and starts with a delimiter
        raise Unsupported("symbolic separator")
    n = len(t)

    def go(i, j, used, entered):
        """match sub[j:] from token i; used: some hole char consumed. entered: holes already entered at i"""
        if j == len(sub):
            return used
        if i >= n:
            return False
        h = hole_of(t[i])
        if h is None:
            return t[i] == sub[j] and go(i + 1, j + 1, used, False)
        # consume further characters of the hole
        if h.may(sub[j]):
            if go(i, j + 1, True, True):
                return True
        # leave the hole (a hole entered from the left that is empty)
        if entered or not h.nonempty or j == 0:
            # at j == 0 nothing has been matched yet: starting after the hole is another start
            if j > 0 and go(i + 1, j, used, False):
                return True
        return False
    for i in range(n):
        if go(i, 0, False, False):
            raise Unsupported(f"separator {sub!r} may occur inside a symbolic piece of text")


class SStr(ClassModel):
    def __init__(self, t):
        self.t = t

    # ------------------------------------------------------------ building
    @staticmethod
    def concat(parts):
        t = "".join(x if isinstance(x, str) else text_of(x) for x in parts)
        return wrap(t)

    @staticmethod
    def join(sep, items):
        for x in items:
            if not isinstance(x, (str, SStr)):
                raise SymRaise(TypeError, "join of non text")
        return wrap(text_of(sep).join(text_of(x) for x in items))

    def __add__(self, o):
        if not isinstance(o, (str, SStr)):
            raise SymRaise(TypeError, "text + non text")
        return wrap(self.t + text_of(o))

    def __radd__(self, o):
        if not isinstance(o, (str, SStr)):
            raise SymRaise(TypeError, "non text + text")
        return wrap(text_of(o) + self.t)

    def __mod__(self, o):
        return percent(self, o)

    def format(self, *a, **k):
        return fmt(self.t, a, k)

    def format_map(self, d):
        return fmt(self.t, (), d)

    def join_(self, it):
        return SStr.join(self, it)

    # ------------------------------------------------------------ taking apart
    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            if maxsplit != -1 or any(hole_of(c) and any(hole_of(c).may(w) for w in " \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f\x85\xa0") for c in self.t) or any(hole_of(c) and not hole_of(c).nonempty for c in self.t):
                raise Unsupported("split at white space")
            r = [wrap(x) for x in self.t.split()]
            ENG.track.append(r)
            return r
        occ = occurrences(self.t, text_of(sep))
        r = [wrap(x) for x in self.t.split(text_of(sep), maxsplit)]
        ENG.track.append(r)
        return r

    def rsplit(self, sep=None, maxsplit=-1):
        if sep is None:
            raise Unsupported("split at white space")
        if maxsplit == 1:
            i = self._last(text_of(sep))
            r = [wrap(self.t)] if i < 0 else [wrap(self.t[:i]), wrap(self.t[i + len(text_of(sep)):])]
        else:
            occurrences(self.t, text_of(sep))
            r = [wrap(x) for x in self.t.rsplit(text_of(sep), maxsplit)]
        ENG.track.append(r)
        return r

    def _last(self, sub):
        """position of the last occurrence, only what follows it has to be free of others"""
        i = self.t.rfind(sub)
        if i < 0:
            check_no_straddle(self.t, sub)
            return -1
        # an occurrence starting later than i would have to use a hole behind i
        check_no_straddle(self.t[i + 1:], sub)
        return i

    def _first(self, sub):
        i = self.t.find(sub)
        if i < 0:
            check_no_straddle(self.t, sub)
            return -1
        check_no_straddle(self.t[:i + len(sub) - 1], sub)
        return i

    def partition(self, sep):
        i = self._first(sep)
        return (self, "", "") if i < 0 else (wrap(self.t[:i]), sep, wrap(self.t[i + len(sep):]))

    def rpartition(self, sep):
        i = self._last(sep)
        return ("", "", self) if i < 0 else (wrap(self.t[:i]), sep, wrap(self.t[i + len(sep):]))

    def replace(self, a, b, count=-1):
        if count != -1:
            raise Unsupported("replace with a count")
        a, b = text_of(a), text_of(b)
        if len(a) == 1 and hole_of(a) is None and not any(hole_of(c) for c in b):
            return wrap("".join(replace_in_hole(c, a, b) if hole_of(c) else (b if c == a else c) for c in self.t))
        try:
            occurrences(self.t, a)
        except Unsupported:
            if any(hole_of(c) for c in a + b) or not b:
                raise
            # an unknown function of the text, spelt with the characters of the text and of b
            excl = [c for c in map(chr, range(128)) if c not in b and not any((hole_of(x).may(c) if hole_of(x) else x == c) for x in self.t)]
            first = self.t[0] if hole_of(self.t[0]) is None else hole_of(self.t[0]).first
            h = Hole("var", name=f"{self.show()}.replace({a!r},{b!r})", excl=excl, first=first if first not in (None, a[0]) else None)
            h.compute = lambda env: self.concrete(env).replace(a, b)
            return wrap(hole(h))
        return wrap(self.t.replace(a, b))

    def contains_b(self, sub):
        sub = text_of(sub)
        if any(hole_of(c) for c in sub):
            if sub in self.t:
                return TRUE
            raise Unsupported("symbolic substring")
        if sub == "" or sub in self.t:
            return TRUE
        check_no_straddle(self.t, sub)
        return FALSE

    def startswith(self, pre):
        if isinstance(pre, tuple):
            return any(bool(self.startswith(x)) for x in pre)
        pre = text_of(pre)
        if self.t.startswith(pre):
            return True
        i = 0
        for c in pre:
            if i >= len(self.t):
                return False
            h = hole_of(self.t[i])
            if h is not None:
                if h.nonempty and not h.may_start(c):
                    return False
                raise Unsupported("startswith into a symbolic piece of text")
            if hole_of(c) is not None:
                raise Unsupported("symbolic prefix")
            if self.t[i] != c:
                return False
            i += 1
        return True

    def endswith(self, suf):
        if isinstance(suf, tuple):
            return any(bool(self.endswith(x)) for x in suf)
        suf = text_of(suf)
        if self.t.endswith(suf):
            return True
        i = len(self.t) - 1
        for c in reversed(suf):
            if i < 0:
                return False
            h = hole_of(self.t[i])
            if h is not None:
                if h.nonempty and not h.may_end(c):
                    return False
                raise Unsupported("endswith into a symbolic piece of text")
            if hole_of(c) is not None:
                raise Unsupported("symbolic suffix")
            if self.t[i] != c:
                return False
            i -= 1
        return True

    def find(self, sub, *a):
        raise Unsupported("position in symbolic text")

    index = rfind = rindex = find

    def __getitem__(self, k):
        if isinstance(k, slice):
            if k.step not in (None, 1):
                raise Unsupported("slice step of text")
            a, b = k.start, k.stop
            if isinstance(a, S) or isinstance(b, S):
                raise Unsupported("symbolic slice of text")
            t = self.t
            lit = lambda s: all(hole_of(c) is None for c in s)
            # positions counted from an end must only pass literal characters
            def pos(x, default):
                if x is None:
                    return default
                if x >= 0:
                    if not lit(t[:x]) or x > len(t):
                        raise Unsupported("slice through symbolic text")
                    return x
                if not lit(t[x:]) or -x > len(t):
                    raise Unsupported("slice through symbolic text")
                return len(t) + x
            i, j = pos(a, 0), pos(b, len(t))
            return wrap(t[i:j]) if i <= j else ""
        if isinstance(k, int):
            c = self.t[k]
            seg = self.t[:k + 1] if k >= 0 else self.t[k:]
            if any(hole_of(x) for x in seg):
                raise Unsupported("character of symbolic text")
            return c
        raise Unsupported("index of text")

    def _strip(self, chars, left, right):
        chars = text_of(chars) if chars is not None else " \t\n\r"
        t = self.t
        if left:
            while t and t[0] in chars:
                t = t[1:]
            if t and hole_of(t[0]) and (not hole_of(t[0]).nonempty or any(hole_of(t[0]).may_start(c) for c in chars)):
                raise Unsupported("strip of symbolic text")
        if right:
            while t and t[-1] in chars:
                t = t[:-1]
            if t and hole_of(t[-1]) and (not hole_of(t[-1]).nonempty or any(hole_of(t[-1]).may_end(c) for c in chars)):
                raise Unsupported("strip of symbolic text")
        return wrap(t)

    def strip(self, chars=None): return self._strip(chars, True, True)
    def lstrip(self, chars=None): return self._strip(chars, True, False)
    def rstrip(self, chars=None): return self._strip(chars, False, True)

    def removeprefix(self, p):
        return wrap(self.t[len(p):]) if self.startswith(p) else self

    def removesuffix(self, p):
        return wrap(self.t[:-len(p)]) if p and self.endswith(p) else self

    def encode(self, *a, **k):
        return SBytes(self)

    def truth_b(self):
        if not self.t:
            return FALSE
        if any(hole_of(c) is None or hole_of(c).nonempty for c in self.t):
            return TRUE
        raise Unsupported("truth of symbolic text")

    def __str__(self):
        return self.show()

    def __repr__(self):
        return "text'" + self.show() + "'"

    def show(self):
        return "".join(hole_of(c).show() if hole_of(c) else c for c in self.t)

    # ------------------------------------------------------------ comparison
    def __eq__(self, o):
        if not isinstance(o, (str, SStr)):
            return False
        return mkbool(str_eq(self, o))

    def __ne__(self, o):
        if not isinstance(o, (str, SStr)):
            return True
        return mkbool(b_not(str_eq(self, o)))

    def __hash__(self):
        return hash(self.t)

    def __lt__(self, o):
        raise Unsupported("order of symbolic text")

    __le__ = __gt__ = __ge__ = __lt__

    def __len__(self):
        raise Unsupported("length of symbolic text")

    def length(self):
        """literal characters are counted, each unknown part has a length of its own"""
        n, r = 0, num(0)
        for ch in self.t:
            h = hole_of(ch)
            if h is None:
                n += 1
                continue
            v = ivar(f"len({wrap(ch).show()})")
            ENG.assume(le(num(0 if h.kind in ("var", "seq") and not h.nonempty else 1), v))
            r = add(r, v)
        return S(add(r, num(n)))

    def __iter__(self):
        raise Unsupported("characters of symbolic text")

    def isinstance_(self, ts):
        return str in ts or object in ts

    py_type = str

    # ------------------------------------------------------------ numbers
    def to_int(self):
        h = hole_of(self.t) if len(self.t) == 1 else None
        if h is not None and h.kind == "int":
            return mkS(h.p)
        if h is not None and h.kind == "fix":
            raise SymRaise(ValueError, "int of a decimal number")
        self._reject("0123456789_+- ")
        raise Unsupported("int of symbolic text")

    def to_float(self):
        h = hole_of(self.t) if len(self.t) == 1 else None
        if h is not None and h.kind == "int":
            return S(h.p)
        if h is not None and h.kind == "fix":
            return S(fixed_value(h.p, h.spec))
        if h is not None and h.kind == "repr":
            return S(h.p)
        self._reject("0123456789_+-. eEinfaINFA")
        raise Unsupported("float of symbolic text")

    def _reject(self, ok):
        for c in self.t:
            if hole_of(c) is None and c not in ok:
                raise SymRaise(ValueError, "text is not a number")

    # ------------------------------------------------------------ verification hooks
    def vc_compare(self, name, other, hyps, out, emit):
        if not isinstance(other, (str, SStr)):
            emit(name, PV.Verdict(False, "", f"{other!r} instead of {self!r}"))
            return
        b = str_eq(self, other)
        if b.op == "true":
            emit(name, PV.Verdict(True, "text alignment", ""))
            return
        v = PV.prove_b(b, hyps)
        if not v:
            v.detail = f"{show_text(other)!r} and {self.show()!r} differ: {v.detail}"
        emit(name, v)

    def vc_freeze(self, snap, rec):
        return self

    def concrete(self, env, f=None):
        return "".join(hole_of(c).text(env) if hole_of(c) else c for c in self.t)

    def compare_concrete(self, path, got, env, problems):
        w = self.concrete(env)
        if got != w:
            problems.append(f"{path}: real code gives {got!r}, specification {w!r}")


def replace_in_hole(c, a, b):
    h = hole_of(c)
    if not h.may(a):
        return c
    if h.kind not in ("var", "seq") or h.kind == "seq" and not all(x in h.spec or not h.may(x) for x in a):
        raise Unsupported("replacement inside a symbolic number")
    return hole(h.mapped(lambda x: x.replace(a, b), f"{a!r}->{b!r}"))


class SBytes(ClassModel):
    """UTF-8 encoding of a text"""
    def __init__(self, s):
        self.s = s

    def decode(self, *a, **k):
        return self.s

    def __eq__(self, o):
        raise Unsupported("comparison of bytes")

    __hash__ = None


def show_text(x):
    return x.show() if isinstance(x, SStr) else str(x)


def symbolic_text(t):
    return any(hole_of(c) for c in t)


def wrap(t):
    return SStr(t) if any(hole_of(c) for c in t) else t


def text_of(x):
    if isinstance(x, SStr):
        return x.t
    if isinstance(x, str):
        return x
    raise Unsupported(f"text expected, not {type(x).__name__}")


def junk():
    return hole(Hole("junk", name=fresh("text"), nonempty=False))


def to_sstr(x):
    if isinstance(x, (str, SStr)):
        return x
    if isinstance(x, S):
        c = x.p.const
        if c is not None and x.is_int:
            return str(int(c))
        return SStr(hole(Hole("int", x.p, "d"))) if x.is_int else SStr(hole(Hole("repr", x.p)))
    return SStr(junk())


def fmt_value(v, spec):
    """format(v, spec) as text"""
    if isinstance(spec, SStr):
        raise Unsupported("symbolic format specification")
    if isinstance(v, SStr):
        if spec in ("", "s"):
            return v
        if spec[-1:] in "dfeg":
            raise SymRaise(ValueError, f"format {spec} of text")
        raise Unsupported("format of text")
    if isinstance(v, S):
        c = v.p.const
        if v.is_int:
            if spec.isdigit() and spec[0] == "0":
                spec += "d"
            if c is not None:
                v = int(c)
            elif spec in ("", "d"):
                return SStr(hole(Hole("int", v.p, "d")))
            elif spec[-1:] == "f":
                return SStr(hole(Hole("fix", v.p, spec))) if spec[0] == "." else SStr(junk())
            elif spec[-1:] == "s":
                raise SymRaise(ValueError, "format s of a number")
            elif spec[-1:] == "d" and spec[0] == "0":
                return SStr(hole(Hole("int", v.p, spec)))
            else:
                return SStr(junk())
        else:
            if spec[-1:] in ("d", "s", "x"):
                raise SymRaise(ValueError, f"format {spec} of a real number")
            if spec == "":
                return SStr(hole(Hole("repr", v.p)))
            if spec[-1:] == "f" and spec[0] == ".":
                return SStr(hole(Hole("fix", v.p, spec)))
            return SStr(junk())
    if symbolic(v):
        return SStr(junk())
    try:
        return format(v, spec)
    except Exception as e:
        raise SymRaise(type(e), str(e))


def fmt(t, args, kwargs):
    t = text_of(t) if not isinstance(t, str) else t
    for ch in t:
        h = hole_of(ch)
        if h is not None and (h.may("{") or h.may("}")):
            raise Unsupported("format of a template with unknown text")
    parts, auto = [], 0
    try:
        pieces = list(_string.Formatter().parse(t))
    except ValueError as e:
        raise SymRaise(ValueError, str(e))
    for lit, field, spec, conv in pieces:
        if lit:
            parts.append(lit)
        if field is None:
            continue
        first, rest = _string.Formatter().get_field if False else (field, "")
        base = field
        acc = []
        import _string as us
        head, tail = us.formatter_field_name_split(field)
        if head == "":
            key, auto = auto, auto + 1
        else:
            key = head
        try:
            v = args[key] if isinstance(key, int) else kwargs[key]
        except IndexError as e:
            raise SymRaise(IndexError, str(e))
        except KeyError as e:
            raise SymRaise(KeyError, str(e))
        for is_attr, nm in tail:
            if is_attr:
                v = v.attrs[nm] if isinstance(v, Obj) and nm in v.attrs else getattr(v, nm)
            else:
                v = v[nm]
        if spec and "{" in spec:
            spec = text_of(fmt(spec, args, kwargs))
        if conv == "s":
            v = to_sstr(v) if symbolic(v) else str(v)
        elif conv:
            v = SStr(junk()) if symbolic(v) else repr(v)
        parts.append(fmt_value(v, spec or ""))
    return SStr.concat(parts)


def percent(a, b):
    t = text_of(a)
    vals = list(b) if isinstance(b, tuple) else [b]
    if isinstance(b, dict):
        raise Unsupported("% with a dictionary")
    out, i = [], 0
    while i < len(t):
        if t[i] != "%":
            out.append(t[i])
            i += 1
            continue
        j = i + 1
        if j < len(t) and t[j] == "%":
            out.append("%")
            i = j + 1
            continue
        while j < len(t) and t[j] in "0123456789.-+ #":
            j += 1
        spec, kind = t[i + 1:j], t[j] if j < len(t) else ""
        if not vals:
            raise SymRaise(TypeError, "not enough arguments for format string")
        v = vals.pop(0)
        if kind in "sr" and not spec:
            out.append(text_of(to_sstr(v) if symbolic(v) else str(v)))
        elif kind in "di":
            if isinstance(v, S) and not v.is_int:
                v = S(fn("trunc", v.p))
            if isinstance(v, (str, SStr)):
                raise SymRaise(TypeError, "%d of text")
            out.append(text_of(fmt_value(v, spec + "d" if spec else "d")))
        elif kind == "f":
            out.append(text_of(fmt_value(v, (spec or ".6") + "f")))
        else:
            raise Unsupported("% format")
        i = j + 1
    if vals:
        raise SymRaise(TypeError, "not all arguments converted")
    return wrap("".join(out))


# ---------------------------------------------------------------- equality
def str_eq(a, b):
    a, b = text_of(a), text_of(b)
    return _eq(a, b)


def _eq(a, b):
    while a and b and a[0] == b[0]:
        a, b = a[1:], b[1:]
    while a and b and a[-1] == b[-1]:
        a, b = a[:-1], b[:-1]
    if not a and not b:
        return TRUE
    if not a or not b:
        r = a or b
        if any(hole_of(c) is None or hole_of(c).nonempty for c in r):
            return FALSE
        raise Unsupported("comparison with a possibly empty piece of text")
    # different literal characters at an end
    ha, hb = hole_of(a[0]), hole_of(b[0])
    if ha is None and hb is None:
        return FALSE
    la, lb = hole_of(a[-1]), hole_of(b[-1])
    if la is None and lb is None:
        return FALSE
    for h, o, oh in ((ha, b, hb), (hb, a, ha)):
        if h is not None and h.nonempty and oh is None and not h.may_start(o[0]):
            return FALSE
    for h, o, oh in ((la, b, lb), (lb, a, la)):
        if h is not None and h.nonempty and oh is None and not h.may_end(o[-1]):
            return FALSE

    def ended(s, h):
        """the hole at the head of s extends exactly to the next character"""
        if len(s) == 1:
            return True
        n = hole_of(s[1])
        return n is None and not h.may(s[1])
    if ha is not None and hb is not None:
        if ha.kind == hb.kind == "int" and ha.spec == hb.spec and ended(a, ha) and ended(b, hb):
            return b_and(eq(ha.p, hb.p), _eq(a[1:], b[1:]))
        if ha.kind == hb.kind == "fix" and ha.spec == hb.spec and ended(a, ha) and ended(b, hb):
            return b_and(eq(fixed_value(ha.p, ha.spec), fixed_value(hb.p, hb.spec)), _eq(a[1:], b[1:]))
        if ha.kind == hb.kind == "repr" and ended(a, ha) and ended(b, hb):
            return b_and(eq(ha.p, hb.p), _eq(a[1:], b[1:]))
        if ha.kind == hb.kind == "var" and ended(a, ha) and ended(b, hb) and ha.excl == hb.excl and (ha.name != hb.name or ha.args != hb.args or ha.hom is not hb.hom):
            n = "streq{" + "|".join(sorted([ha.show(), hb.show()])) + "}"
            return b_and(bvar(n), _eq(a[1:], b[1:]))
    # an integer against literal digits
    for h, s, o in ((ha, a, b), (hb, b, a)):
        if h is not None and h.kind == "int" and h.spec == "d" and ended(s, h):
            k = 0
            while k < len(o) and hole_of(o[k]) is None and o[k] in DIG:
                k += 1
            if k == len(o) or hole_of(o[k]) is None:
                w = o[:k]
                try:
                    v = int(w)
                except ValueError:
                    return FALSE
                if str(v) != w:
                    return FALSE
                return b_and(eq(h.p, num(v)), _eq(s[1:], o[k:]))
    raise Unsupported(f"comparison of {wrap(a)!r} with {wrap(b)!r}")


# ---------------------------------------------------------------- paths (POSIX)
def _join(a, *rest):
    npmodel.note("os.path.join", "POSIX path joining")
    r = text_of(a)
    for b in rest:
        b = text_of(b)
        sb, sr = wrap(b), wrap(r)
        if isinstance(sb, SStr) and sb.startswith("/") or isinstance(sb, str) and sb.startswith("/"):
            r = b
        elif r == "" or (sr.endswith("/")):
            r = r + b
        else:
            r = r + "/" + b
    return wrap(r)


@model(os.path.join)
def _(I, a, *rest):
    return _join(a, *rest)


@model(os.path.basename)
def _(I, p):
    i = SStr(text_of(p))._last("/")
    return wrap(text_of(p)[i + 1:])


@model(os.path.dirname)
def _(I, p):
    i = SStr(text_of(p))._last("/")
    h = text_of(p)[:i + 1]
    if h and h != "/" * len(h):
        h = text_of(SStr(h).rstrip("/"))
    return wrap(h)


@model(os.path.split)
def _(I, p):
    return (MODELS[os.path.dirname](I, p), MODELS[os.path.basename](I, p))


@model(os.path.splitext)
def _(I, p):
    s = SStr(text_of(p))
    b = text_of(MODELS[os.path.basename](I, p))
    i = SStr(b)._last(".")
    if i <= 0:
        raise Unsupported("splitext")
    n = len(text_of(p)) - len(b)
    return (wrap(text_of(p)[:n + i]), wrap(text_of(p)[n + i:]))


@model(os.path.abspath, os.path.realpath)
def _(I, p):
    t = text_of(p)
    npmodel.note("os.path.abspath", "a function of the path; an absolute normalised path is its own absolute path")
    h = hole_of(t[0]) if t else None
    if h is not None and h.kind == "var" and h.name.startswith("abs_"):
        r = t.replace("//", "/")
        if any(x in (".", "..") for x in r.split("/")):
            raise Unsupported("abspath")
        return wrap(r.rstrip("/"))
    if h is not None and h.kind == "var" and h.name.startswith("rel_"):
        a = hole(Hole("var", name="abs_" + h.name, excl=h.excl, last_excl="/", first="/"))
        ABS_OF[a] = t[0]
        return MODELS[os.path.abspath](I, wrap(a + t[1:]))
    raise Unsupported("abspath of symbolic text")


ABS_OF = {}


@model(os.path.isabs)
def _(I, p):
    return SStr(text_of(p)).startswith("/")


@model(os.fspath)
def _(I, p):
    return p


# ---------------------------------------------------------------- collections of symbolic values
class SymSet(ClassModel):
    """set of the values of symbolic sequences (union / intersection of such sets)"""
    def __init__(self, e):
        self.e = e              # ("of", n, elem) | ("and"|"or", e1, e2)

    def __and__(self, o):
        return SymSet(("and", self.e, set_expr(o)))

    def __rand__(self, o):
        return SymSet(("and", set_expr(o), self.e))

    def __or__(self, o):
        return SymSet(("or", self.e, set_expr(o)))

    def intersection(self, *os):
        r = self
        for o in os:
            r = r & o
        return r

    def union(self, *os):
        r = self
        for o in os:
            r = r | o
        return r

    def truth_b(self):
        raise Unsupported("truth of a symbolic set")

    def __iter__(self):
        raise Unsupported("iteration over a symbolic set")

    def __len__(self):
        raise Unsupported("size of a symbolic set")

    def __eq__(self, o):
        raise Unsupported("equality of symbolic sets")

    __hash__ = None


def set_expr(o):
    if isinstance(o, SymSet):
        return o.e
    if isinstance(o, SymList):
        return o.e
    if isinstance(o, (SSeq, SRange)):
        return ("of", o.n, o.elem)
    if isinstance(o, (list, tuple, set)):
        return ("items", tuple(o))
    raise Unsupported("set operation")


class SymList(ClassModel):
    """the values of a set as a list: in some order, or in increasing order"""
    def __init__(self, e, sorted_=False):
        self.e, self.sorted_ = e, sorted_
        ENG.track.append(self)

    def get_state(self):
        return self.sorted_

    def set_state(self, s):
        self.sorted_ = s

    def sort(self, key=None, reverse=False):
        if key is not None or reverse:
            raise Unsupported("sort order")
        self.sorted_ = True

    def vc_compare(self, name, other, hyps, out, emit):
        if not isinstance(other, SymList):
            emit(name, PV.Verdict(False, "", f"{other!r} instead of the sorted distinct values"))
            return
        if other.sorted_ != self.sorted_:
            emit(name, PV.Verdict(False, "", "not in increasing order" if self.sorted_ else "sorted"))
            return
        self._cmp(name, other.e, self.e, hyps, emit)

    def _cmp(self, name, g, w, hyps, emit):
        def flat(e, op):
            return flat(e[1], op) + flat(e[2], op) if e[0] == op else [e]
        if g[0] != w[0]:
            emit(name, PV.Verdict(False, "", f"set built by {g[0]} instead of {w[0]}"))
            return
        if g[0] in ("and", "or"):
            G, W = flat(g, g[0]), flat(w, w[0])
            if len(G) != len(W):
                emit(name, PV.Verdict(False, "", "different sets"))
                return
            # order does not matter: try the orders
            import itertools
            best = None
            for perm in itertools.permutations(G):
                rec = []
                for i, (x, y) in enumerate(zip(perm, W)):
                    self._cmp(f"{name}[{i}]", x, y, hyps, lambda nm, v, hy=None: rec.append((nm, v, hy)))
                if best is None or all(v for _, v, _ in rec):
                    best = rec
                if all(v for _, v, _ in rec):
                    break
            for nm, v, hy in best:
                emit(nm, v, hy)
            return
        if g[0] == "of":
            emit(name + ".count", PV.prove_eq(g[1], w[1], hyps))
            i = ivar(fresh("i"))
            hy = list(hyps) + PV.ranges_of([i], [w[1]])
            emit(name + "[i]", PV.prove_eq(to_p(g[2](i)), to_p(w[2](i)), hy), hy)
            return
        raise Unsupported("comparison of sets")

    def vc_freeze(self, snap, rec):
        o = object.__new__(SymList)
        o.e, o.sorted_ = self.e, snap.get(id(self), self.sorted_)
        return o

    def concrete(self, env, f=None):
        def val(e):
            if e[0] == "and":
                return val(e[1]) & val(e[2])
            if e[0] == "or":
                return val(e[1]) | val(e[2])
            out = set()
            for i in range(int(evaluate(e[1], env))):
                p = to_p(e[2](num(i)))
                v = evaluate(p, env)
                out.add(int(v) if p.is_int else float(v))
            return out
        return sorted(val(self.e))

    def compare_concrete(self, path, got, env, problems):
        w = self.concrete(env)
        if list(got) != w:
            problems.append(f"{path}: real code gives {got!r}, specification {w!r}")

    def __iter__(self):
        raise Unsupported("iteration over symbolic values")

    def __len__(self):
        raise Unsupported("number of distinct symbolic values")

    def isinstance_(self, ts):
        return list in ts or object in ts


@model(sorted)
def _(I, x, key=None, reverse=False):
    if key is not None or reverse:
        if symbolic(x):
            raise Unsupported("sort order")
    if isinstance(x, (SymSet, SymList)):
        return SymList(x.e, True)
    if symbolic(x):
        raise Unsupported("sorting of symbolic values")
    r = sorted(I.iterate(x), key=key, reverse=reverse)
    ENG.track.append(r)
    return r


# ---------------------------------------------------------------- JSON
def json_text(x, ascii_, item, key, sort, depth=0):
    if depth > 12:
        raise SymRaise(ValueError, "Circular reference detected")
    rec = lambda y: json_text(y, ascii_, item, key, sort, depth + 1)
    if x is None or isinstance(x, bool):
        return {None: "null", True: "true", False: "false"}[x]
    if isinstance(x, S):
        c = x.p.const
        if x.is_int:
            return str(int(c)) if c is not None else hole(Hole("int", x.p, "d"))
        return repr(float(c)) if c is not None and Fraction(float(c)) == c else hole(Hole("repr", x.p))
    if isinstance(x, SB):
        return "true" if ENG.branch(x.b) else "false"
    if isinstance(x, (str, SStr)):
        esc = lambda t: json.dumps(t, ensure_ascii=ascii_)[1:-1]
        out = []
        for c in text_of(x):
            h = hole_of(c)
            if h is None:
                out.append(esc(c))
            elif h.kind == "var":
                out.append(hole(h.mapped(lambda t: "".join(esc(k) for k in t), "json" + "a" * ascii_)))
            elif h.kind in ("int", "fix", "repr"):
                out.append(c)
            else:
                raise Unsupported("json of unknown text")
        return '"' + "".join(out) + '"'
    if isinstance(x, dict):
        items = list(x.items())
        if any(isinstance(k, SStr) for k, _ in items):
            raise Unsupported("json of symbolic keys")
        for k, _ in items:
            if not isinstance(k, (str, int, float, bool, type(None))):
                raise SymRaise(TypeError, f"keys must be str, int, float, bool or None, not {type(k).__name__}")
        if sort:
            items.sort(key=lambda kv: kv[0])
        names = [k if isinstance(k, str) else json.loads(json.dumps({k: 0}).split(":")[0][1:]) for k, _ in items]
        return "{" + item.join(rec(n) + key + rec(v) for n, (_, v) in zip(names, items)) + "}"
    if isinstance(x, (list, tuple)):
        return "[" + item.join(rec(v) for v in x) + "]"
    if isinstance(x, (int, float)):
        return json.dumps(x)
    if isinstance(x, SSeq):
        e = x.elem(ivar("$e"))
        if not isinstance(e, S) or not same_elems(x):
            raise Unsupported("json of a sequence")
        h = Hole("seq", x.n, item, name="seq:" + show(e.p), nonempty=False)
        h.elem = x.elem
        return "[" + hole(h) + "]"
    if hasattr(x, "json_text"):
        return x.json_text(rec)
    raise SymRaise(TypeError, f"Object of type {type(x).__name__} is not JSON serializable")


@model(json.dumps)
def _(I, obj, *, skipkeys=False, ensure_ascii=True, check_circular=True, allow_nan=True, cls=None, indent=None, separators=None, default=None, sort_keys=False):
    if cls is not None or default is not None or skipkeys or indent is not None:
        raise Unsupported("options of json.dumps")
    npmodel.note("json.dumps", "prints numbers so that they are read back unchanged, escapes text character by character")
    item, key = (", ", ": ") if separators is None else separators
    return wrap(json_text(obj, bool(ensure_ascii), item, key, bool(sort_keys)))


def same_elems(x):
    return x.elem(num(0)).is_int == x.elem(ivar("$e")).is_int


def subst_text(x, s):
    """the text for other values of the free variables"""
    if not isinstance(x, SStr):
        return x
    out = []
    for c in x.t:
        h = hole_of(c)
        if h is not None and (h.p is not None or h.args):
            if h.kind == "seq":
                if any(k in h.p.free or k in h.elem(ivar("$e")).p.free for k in s):
                    raise Unsupported("sequence inside a family of texts")
            else:
                g = Hole(h.kind, substitute(h.p, s) if h.p is not None else None, h.spec, h.name, [substitute(a, s) for a in h.args], h.excl, h.nonempty, h.last_excl, h.first, h.hom)
                g.compute = h.compute
                c = hole(g)
        out.append(c)
    return wrap("".join(out))


class _Json:
    def __init__(self, t):
        self.t, self.i = t, 0

    def err(self):
        raise SymRaise(json.JSONDecodeError, "symbolic text is not JSON")

    def ws(self):
        while self.i < len(self.t) and self.t[self.i] in " \t\n\r":
            self.i += 1
        if self.i < len(self.t) and hole_of(self.t[self.i]) is not None and not hole_of(self.t[self.i]).nonempty:
            raise Unsupported("JSON with a possibly empty piece")

    def value(self):
        self.ws()
        if self.i >= len(self.t):
            self.err()
        c = self.t[self.i]
        h = hole_of(c)
        if c == "{":
            d = {}
            ENG.track.append(d)
            self.i += 1
            self.ws()
            if self.peek() == "}":
                self.i += 1
                return d
            while True:
                self.ws()
                if self.peek() != '"':
                    self.err()
                k = self.string()
                if not isinstance(k, str):
                    raise Unsupported("symbolic JSON key")
                self.ws()
                self.eat(":")
                d[k] = self.value()
                self.ws()
                if self.peek() == "}":
                    self.i += 1
                    return d
                self.eat(",")
        if c == "[":
            r = []
            ENG.track.append(r)
            self.i += 1
            h = hole_of(self.t[self.i]) if self.i < len(self.t) else None
            if h is not None and h.kind == "seq":
                if h.spec.strip() != "," or self.t[self.i + 1:self.i + 2] != "]":
                    raise Unsupported("JSON of a sequence")
                self.i += 2
                return SSeq(h.p, h.elem)
            self.ws()
            if hole_of(self.t[self.i]) is None and self.peek() == "]":
                self.i += 1
                return r
            while True:
                r.append(self.value())
                self.ws()
                if self.peek() == "]":
                    self.i += 1
                    return r
                self.eat(",")
        if c == '"':
            return self.string()
        # number or word: up to the next delimiter
        j = self.i
        while j < len(self.t) and self.t[j] not in ",]} \t\n\r":
            j += 1
        w = self.t[self.i:j]
        if h is not None and len(w) == 1 and h.kind == "arr":
            self.i = j
            from .files import NList
            return NList(h.arr.copy())
        if h is not None and len(w) == 1 and h.kind in ("int", "fix", "repr") and h.spec in ("", "d", ".2f", ".1f", ".3f", ".6f"):
            self.i = j
            return wrap(w).to_int() if h.kind == "int" else wrap(w).to_float()
        if any(hole_of(x) for x in w):
            raise Unsupported("JSON value with symbolic text")
        try:
            v = json.loads(w)
        except ValueError:
            self.err()
        self.i = j
        return v

    def peek(self):
        if self.i >= len(self.t):
            self.err()
        if hole_of(self.t[self.i]) is not None:
            raise Unsupported("JSON structure in symbolic text")
        return self.t[self.i]

    def eat(self, c):
        if self.peek() != c:
            self.err()
        self.i += 1

    def string(self):
        self.i += 1
        out = []
        lit = ""

        def flush(lit):
            try:
                out.append(json.loads('"' + lit + '"'))
            except ValueError:
                self.err()
        while True:
            if self.i >= len(self.t):
                self.err()
            c = self.t[self.i]
            h = hole_of(c)
            if h is not None:
                if lit:
                    flush(lit)
                lit = ""
                if h.kind == "var":
                    hm = h.hom or IDENTITY
                    for p in hm.pieces(h.excl):
                        if not _complete(p):
                            raise Unsupported("unknown text is not escaped for JSON")
                    out.append(hole(h.mapped(_unescape, "unjson")))
                elif h.kind in ("int", "fix", "repr"):
                    out.append(c)
                else:
                    raise Unsupported("JSON text")
                self.i += 1
                continue
            if c == '"':
                self.i += 1
                if lit:
                    flush(lit)
                return wrap("".join(out))
            if c == "\\":
                n = 6 if self.t[self.i + 1:self.i + 2] == "u" else 2
                seg = self.t[self.i:self.i + n]
                if len(seg) < n or any(hole_of(x) for x in seg):
                    raise Unsupported("escape of symbolic text")
                # surrogate pairs are decoded together
                lit += seg
                self.i += n
                continue
            lit += c
            self.i += 1


def _unescape(p):
    return json.loads('"' + p + '"')


def _complete(p):
    try:
        json.loads('"' + p + '"')
        return True
    except ValueError:
        return False


@model(json.loads)
def _(I, t, **k):
    if k:
        raise Unsupported("options of json.loads")
    if isinstance(t, SBytes):
        t = t.s
    npmodel.note("json.loads", "reads the text printed by json.dumps back")
    p = _Json(text_of(t))
    v = p.value()
    p.ws()
    if p.i != len(p.t):
        p.err()
    return v
