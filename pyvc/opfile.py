"""Text files of a known layout, read through a memory map: literal text around families of lines.

A family is a set of lines, one for every index tuple of a box that satisfies a condition; the lines
are enumerated in the lexicographic order of their indices.  Reading positions are kept as (part,
offset); a search that would have to look inside a symbolic value is refused (Unsupported)."""
import mmap
import os
import re
import string as _string
import tempfile
import parse
from .core import *
from .terms import *
from . import terms as T
from . import strings as ST
from .strings import SStr, SBytes, hole_of, text_of, wrap, check_no_straddle
from .interp import ClassModel, MODELS, model, Interp, symbolic
from .npmodel import note


class Family:
    """lines item(idx) for idx in the box `dims` with cond(idx) (None: all of them)"""
    def __init__(self, dims, item, cond=None):
        self.dims, self.item, self.cond, self._generic = [to_p(d) for d in dims], item, cond, None

    def mapped(self, f):
        return Family(self.dims, lambda idx: f(self.item(idx)), self.cond)

    def generic(self):
        """the line of some index tuple"""
        if self._generic is None:
            self._generic = self.item([ivar(f"line{i}") for i in range(len(self.dims))])
        return self._generic

    def concrete(self, env):
        import itertools
        out = []
        for idx in itertools.product(*[range(int(evaluate(d, env))) for d in self.dims]):
            at = [num(i) for i in idx]
            if self.cond is None or evaluate(ind(self.cond(at)), env):
                x = self.item(at)
                out.append(x.concrete(env) if isinstance(x, SStr) else x)
        return out


def concrete_text(parts, env):
    """the file itself: families are separated from what follows by the line break of their last line"""
    out = []
    for p in parts:
        out.append("".join(l + "\n" for l in p.concrete(env)) if isinstance(p, Family) else p)
    return "".join(out)


class Pos(ClassModel):
    def __init__(self, part, off):
        self.part, self.off = part, off

    def key(self):
        return (self.part, self.off)

    def _cmp(self, o, f):
        if isinstance(o, int):
            if o <= 0 and self.key() > (0, 0):
                return f(1, 0)
            raise Unsupported("position in a file compared with a number")
        return f(self.key(), o.key())

    def __eq__(self, o): return self._cmp(o, lambda a, b: a == b)
    def __ne__(self, o): return self._cmp(o, lambda a, b: a != b)
    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)
    __hash__ = None

    def __sub__(self, o):
        if isinstance(o, Pos):
            return Span(o, self)
        return self + (-o) if isinstance(o, int) else NotImplemented

    def __add__(self, o):
        if isinstance(o, int):
            return Shifted(self, o)
        if isinstance(o, Span) and o.a.key() == self.key():
            return o.b
        return NotImplemented

    def __radd__(self, o):
        return self + o

    def isinstance_(self, ts):
        return int in ts or object in ts


def Shifted(p, n):
    """only within the literal part"""
    return Pos(p.part, p.off + n) if n >= -p.off else unsup("position before the literal text")


def unsup(why):
    raise Unsupported(why)


class Span(ClassModel):
    """distance of two positions"""
    def __init__(self, a, b):
        self.a, self.b = a, b

    def isinstance_(self, ts):
        return int in ts or object in ts


class Content(ClassModel):
    """contents of such a file"""
    def __init__(self, parts):
        self.parts = [p for p in parts if p != ""]

    def concrete(self, env, f=None):
        return concrete_text(self.parts, env)


class Mmap(ClassModel):
    def __init__(self, parts):
        self.parts, self.pos, self.closed = [p for p in parts if p != ""], Pos(0, 0), False
        ENG.track.append(self)

    def get_state(self):
        return (self.pos, self.closed)

    def set_state(self, s):
        self.pos, self.closed = s

    def vc_compare_state(self, *a):
        pass

    def vc_freeze(self, snap, rec):
        return self

    def vc_compare(self, name, other, hyps, out, emit):
        pass

    def concrete(self, env, f=None):
        t = tempfile.TemporaryFile()
        t.write(concrete_text(self.parts, env).encode())
        t.flush()
        m = mmap.mmap(t.fileno(), 0, prot=mmap.PROT_READ)
        t.close()
        return m

    def compare_concrete(self, *a):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.closed = True

    def close(self):
        self.closed = True

    def at(self, p):
        if isinstance(p, Pos):
            return p
        if isinstance(p, int) and p == 0:
            return Pos(0, 0)
        if isinstance(p, int) and p > 0 and isinstance(self.parts[0], str) and p <= len(self.parts[0]):
            return Pos(0, p)
        raise Unsupported("position in a file")

    def tell(self):
        return self.pos

    def seek(self, p, whence=0):
        if whence == 2 and p == 0:
            self.pos = self.end()
        elif whence == 1:
            self.pos = self.pos + p
        elif whence == 0:
            self.pos = self.at(p)
        else:
            raise Unsupported("seek")
        return None

    def end(self):
        return Pos(len(self.parts), 0)

    def size(self):
        return self.end() - Pos(0, 0)

    __len__ = None

    def length(self):
        return self.size()

    def sub(self, a, b):
        """the parts between two positions"""
        out = []
        for i, p in enumerate(self.parts):
            if i < a.part or i > b.part:
                continue
            if isinstance(p, Family):
                if i == b.part and b.off or i == a.part and a.off:
                    raise Unsupported("position inside symbolic lines")
                if i < b.part:
                    out.append(p)
            else:
                s = p[a.off if i == a.part else 0: b.off if i == b.part else len(p)]
                if s:
                    out.append(s)
        return out

    def read(self, n=None):
        if n is None or isinstance(n, int) and n == -1:
            b = self.end()
        elif isinstance(n, Span) and n.a.key() == self.pos.key():
            b = n.b
            if b < self.pos:
                raise Unsupported("negative size")
        else:
            raise Unsupported("read this many bytes")
        r = self.sub(self.pos, b)
        self.pos = b
        return SBytes(Block(r))

    def __getitem__(self, k):
        if isinstance(k, slice) and k.step is None:
            return SBytes(Block(self.sub(self.at(k.start or 0), self.end() if k.stop is None else self.at(k.stop))))
        raise Unsupported("byte of a file")

    def readline(self):
        i = self.pos.part
        if i >= len(self.parts):
            return b""
        p = self.parts[i]
        if isinstance(p, Family):
            raise Unsupported("single line out of symbolic lines")
        j = p.find("\n", self.pos.off)
        if j < 0:
            if i + 1 < len(self.parts):
                raise Unsupported("line break in the middle of literal text")
            j = len(p) - 1
        r = p[self.pos.off:j + 1]
        self.pos = Pos(i, j + 1) if j + 1 < len(p) else Pos(i + 1, 0)
        return r.encode()

    def _find(self, sub, start, end, last):
        if isinstance(sub, SBytes):
            raise Unsupported("symbolic search")
        sub = sub.decode()
        a = self.pos if start is None and not last else self.at(start if start is not None else 0)
        b = self.end() if end is None else self.at(end)
        hits = []
        for i, p in enumerate(self.parts):
            if i < a.part or i > b.part:
                continue
            if isinstance(p, Family):
                t = text_of(p.generic())
                if "\n" in sub:
                    raise Unsupported("line break searched")
                check_no_straddle(t, sub)
                if sub in t:
                    raise Unsupported("found in symbolic lines")
                continue
            lo, hi = a.off if i == a.part else 0, b.off if i == b.part else len(p)
            j = p.find(sub, lo, hi)
            while j >= 0:
                hits.append(Pos(i, j))
                j = p.find(sub, j + 1, hi)
        return -1 if not hits else hits[-1] if last else hits[0]

    def find(self, sub, start=None, end=None):
        return self._find(sub, start, end, False)

    def rfind(self, sub, start=None, end=None):
        return self._find(sub, start, end, True)


class Block(ClassModel):
    """a stretch of such a file"""
    py_type = str

    def __init__(self, parts):
        self.parts = [p for p in parts if not isinstance(p, str) or p]

    def isinstance_(self, ts):
        return str in ts or object in ts

    def _strip(self, left, right, chars):
        """stops at a family of lines (taken as not empty)"""
        ps = list(self.parts)
        for go, i, f in ((left, 0, str.lstrip), (right, -1, str.rstrip)):
            while go and ps and isinstance(ps[i], str):
                ps[i] = f(ps[i], chars)
                if ps[i]:
                    break
                ps.pop(i)
            if go and ps and isinstance(ps[i], Family):
                x = ps[i].generic()
                y = x.lstrip(chars) if i == 0 else x.rstrip(chars)
                if text_of(y) != text_of(x):
                    raise Unsupported("strip of symbolic lines")
        return Block(ps)

    def strip(self, chars=None): return self._strip(True, True, chars)
    def lstrip(self, chars=None): return self._strip(True, False, chars)
    def rstrip(self, chars=None): return self._strip(False, True, chars)

    def replace(self, a, b, count=-1):
        if count != -1 or "\n" in a or "\n" in b:
            raise Unsupported("replacement of line breaks")
        return Block([p.mapped(lambda x: x.replace(a, b)) if isinstance(p, Family) else p.replace(a, b) for p in self.parts])

    def decode(self, *a, **k):
        return self

    def contains_b(self, sub):
        hit = False
        for p in self.parts:
            if isinstance(p, Family):
                b = p.generic().contains_b(sub) if isinstance(p.generic(), SStr) else (TRUE if sub in p.generic() else FALSE)
                if b.op != "false":
                    raise Unsupported("occurrence in symbolic lines")
            else:
                hit |= sub in p
        return TRUE if hit else FALSE

    def splitlines(self, keepends=False):
        if keepends:
            raise Unsupported("splitlines(True)")
        return self._lines(str.splitlines)

    def split(self, sep=None, maxsplit=-1):
        if sep != "\n" or maxsplit != -1:
            raise Unsupported("split of lines")
        ls = self._lines(lambda s: s.split("\n")[:-1] if s.endswith("\n") else s.split("\n"))
        if self.parts and (isinstance(self.parts[-1], Family) or self.parts[-1].endswith("\n")):
            ls.items.append("")
        return ls

    def _lines(self, f):
        out = []
        for i, p in enumerate(self.parts):
            if isinstance(p, Family):
                if i and not (isinstance(self.parts[i - 1], Family) or self.parts[i - 1].endswith("\n")):
                    raise Unsupported("text in front of symbolic lines")
                out.append(p)
            else:
                out.extend(f(p))
        return LineSeq(out)


class LineSeq(ClassModel):
    """list of lines (or of what was made of each of them)"""
    py_type = list

    def __init__(self, items):
        self.items = items

    def isinstance_(self, ts):
        return list in ts or object in ts

    def get_state(self):
        return list(self.items)

    def set_state(self, s):
        self.items = s

    def comprehend(self, elem, keep):
        """[elem(x) for x in self if keep(x)]"""
        out = []
        for x in self.items:
            if isinstance(x, Family):
                k = keep(x.generic())
                if k is True:
                    out.append(x.mapped(elem))
                elif k is not False:
                    raise Unsupported("choice among symbolic lines")
            elif keep(x) is True:
                out.append(elem(x))
        return LineSeq(out).simple()

    def simple(self):
        items = []
        for x in self.items:
            if isinstance(x, Family) and x.cond is None and all(d.const is not None for d in x.dims):
                import itertools
                items += [x.item([num(i) for i in idx]) for idx in itertools.product(*[range(int(d.const)) for d in x.dims])]
            else:
                items.append(x)
        fam = [x for x in items if isinstance(x, Family)]
        if not fam:
            ENG.track.append(items)
            return items
        if len(items) == 1 and fam[0].cond is None and len(fam[0].dims) == 1:
            return SSeq(fam[0].dims[0], lambda k: fam[0].item([k]))
        return LineSeq(items)

    def __iter__(self):
        raise Unsupported("native iteration over symbolic lines")

    def truth_b(self):
        if any(not isinstance(x, Family) for x in self.items):
            return TRUE
        raise Unsupported("truth of symbolic lines")


@model(filter, always=True)
def _(I, f, it):
    if isinstance(it, LineSeq):
        return it.comprehend(lambda x: x, lambda x: const_truth(I, I.call(f, (x,)) if f is not None else x))
    if symbolic(it) and not isinstance(it, (list, tuple)):
        raise Unsupported("filter of a symbolic sequence")
    out = [x for x in I.iterate(it) if I.truth(I.call(f, (x,)) if f is not None else x)]
    return iter(out)


def const_truth(I, v):
    r = I.truth_value(v)
    if r is True or r is False:
        return r
    raise Unsupported("choice among symbolic lines")


# ---------------------------------------------------------------- the parse library
class Pattern(ClassModel):
    def __init__(self, fmt):
        self.fmt, self.real = fmt, parse.compile(fmt)

    def parse(self, t, *a, **k):
        if isinstance(t, str):
            r = self.real.parse(t)
            return None if r is None else dict(r.named)
        if a or k:
            raise Unsupported("parse options")
        s = text_of(t)
        named, i = {}, 0
        pieces = list(_string.Formatter().parse(self.fmt))
        for n, (lit, field, spec, conv) in enumerate(pieces):
            for ch in lit:
                if i >= len(s):
                    return None
                if hole_of(s[i]) is not None:
                    h = hole_of(s[i])
                    if h.nonempty and not h.may(ch) and not h.may(ch.swapcase()):
                        return None
                    raise Unsupported("literal text of the pattern meets a symbolic value")
                if s[i].lower() != ch.lower():
                    return None
                i += 1
            if field is None:
                continue
            if spec != "d" or conv or not field.isidentifier():
                raise Unsupported(f"pattern {self.fmt}")
            h = hole_of(s[i]) if i < len(s) else None
            if h is None:
                m = re.match(r"[0-9]+", s[i:])
                if not m or i + m.end() < len(s) and hole_of(s[i + m.end()]):
                    raise Unsupported("number of the pattern")
                named[field], i = int(m.group()), i + m.end()
            elif h.kind == "int":
                if i + 1 < len(s) and (hole_of(s[i + 1]) is not None or s[i + 1] in "0123456789_.eE+-xob" and not (s[i + 1] == "_")):
                    raise Unsupported("text behind the number of the pattern")
                if n + 1 == len(pieces) and i + 1 != len(s):
                    return None
                named[field], i = mkS(h.p), i + 1
            else:
                raise Unsupported("number of the pattern")
        if i != len(s):
            return None
        ENG.track.append(named)
        return named

    def match(self, *a):
        return self.parse(*a)


@model(parse.compile, always=True)
def _(I, fmt, extra_types=None, case_sensitive=False):
    if not isinstance(fmt, str) or extra_types:
        raise Unsupported("pattern")
    note("parse", "a pattern of literal text and {name:d} matches exactly its own texts, up to upper/lower case")
    return Pattern(fmt)


@model(parse.parse, always=True)
def _(I, fmt, text, *a, **k):
    return Pattern(fmt).parse(text, *a, **k)


@model(mmap.mmap, always=True)
def _(I, fileno, length, *a, **k):
    if not isinstance(fileno, Content) or length != 0:
        raise Unsupported("memory map")
    return Mmap(fileno.parts)
