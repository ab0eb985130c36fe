"""Ghost file system: contents of files.  ENG.ghost["fs"] maps absolute paths to contents:
text (str/SStr), Npy(array) or Npz(dict).  Without this ghost none of the models below applies."""
import builtins
import fnmatch
import glob
import hashlib
import json
import os
import os.path
import shutil
import numpy as np
from .core import *
from . import core, npmodel, fsmodel, strings as ST
from . import prove as PV
from . import terms as T
from .interp import ClassModel, MODELS
from .npmodel import model, note
from .strings import SStr, Hole, hole, wrap, text_of, SBytes


def fs():
    f = ENG.ghost.get("fs")
    if f is None:
        raise Unsupported("file access")
    return f


def have_fs():
    return "fs" in ENG.ghost


def put(path, content):
    d = dict(fs())
    d.pop(path, None)
    if content is not None:
        d[path] = content
    ENG.ghost = dict(ENG.ghost, fs=d)


def concrete_path(p):
    if isinstance(p, FileH):
        return p.path
    if not isinstance(p, str) or ST.symbolic_text(p):
        raise Unsupported("file with a symbolic path")
    return os.path.abspath(p)


# ---------------------------------------------------------------- nested lists
class NList(ClassModel):
    """nested lists with the elements of an array"""
    py_type = list

    def __init__(self, arr):
        self.arr = arr

    def isinstance_(self, ts):
        return list in ts or object in ts

    def to_array(self):
        return self.arr.copy()

    def length(self):
        return mkS(self.arr._shape[0])

    def truth_b(self):
        return lt(num(0), self.arr._shape[0])

    def __getitem__(self, k):
        v = self.arr[k]
        return NList(v) if isinstance(v, Arr) else v

    def __setitem__(self, k, v):
        raise Unsupported("assignment to a nested list")

    def seq_view(self):
        return self.arr._shape[0], (lambda k: self[S(k)] if k.const is None else self[int(k.const)])

    def __iter__(self):
        n = self.arr._shape[0].const
        if n is None:
            raise Unsupported("iteration over a nested list")
        return iter([self[i] for i in range(int(n))])

    def __repr__(self):
        return "list of an array"

    def vc_freeze(self, snap, freeze):
        return NList(freeze(self.arr))

    def vc_compare(self, name, other, hyps, out, emit):
        from .contract import compare_values
        if isinstance(other, list):
            other = asarr(other)
        if isinstance(other, NList):
            other = other.arr
        if not isinstance(other, Arr):
            emit(name, PV.Verdict(False, "", f"{other!r} instead of a list"))
            return
        compare_values(name, other, self.arr, hyps, out, set())

    def json_text(self, rec):
        a = self.arr.copy()
        xs = [ivar(f"$a{i}") for i in range(a.ndim)]
        h = Hole("arr", None, "", name="[" + ",".join(show(s) for s in a._shape) + "]" + show(a.at(xs)) + ("i" if a.buf.dtype == "i8" else ""))
        h.arr = a
        return hole(h)


def tolist(self):
    if not self._shape:
        return mkscalar(self.at([]))
    return NList(self.copy())


Arr.tolist = tolist


def shape_of_nested(x):
    if isinstance(x, NList):
        return tuple(mkS(s) for s in x.arr._shape)
    if isinstance(x, Arr):
        return x.shape
    if isinstance(x, (S, SB, int, float)):
        return ()
    return asarr(x).shape


@model(np.shape)
def _(I, x):
    return shape_of_nested(x)


@model(np.ndim)
def _(I, x):
    return len(shape_of_nested(x))


@model(np.size)
def _(I, x, axis=None):
    s = shape_of_nested(x)
    if axis is not None:
        return s[axis]
    r = 1
    for k in s:
        r = r * k
    return r


class Count(ClassModel):
    """number of elements different from zero"""
    def __init__(self, a):
        self.a = a

    def zero(self):
        x = self.a.any()
        return (not x) if isinstance(x, bool) else ~x

    def num(self):
        r = self.a.reader()
        bs = [ivar(fresh("c")) for _ in self.a._shape]
        return S(Sum(list(zip(bs, self.a._shape)), sub(num(1), ind(eq(r(bs), num(0))))))

    def isinstance_(self, ts):
        return int in ts or object in ts

    def truth_b(self):
        return to_b(flip(self.zero()))

    def __bool__(self):
        return ENG.branch(self.truth_b())

    def _at(self, o, at0, f):
        if isinstance(o, int) and o == 0:
            return at0()
        return f(self.num(), o)

    def __eq__(self, o): return self._at(o, self.zero, lambda a, b: a == b)
    def __ne__(self, o): return self._at(o, lambda: flip(self.zero()), lambda a, b: a != b)
    def __gt__(self, o): return self._at(o, lambda: flip(self.zero()), lambda a, b: a > b)
    def __le__(self, o): return self._at(o, self.zero, lambda a, b: a <= b)
    def __ge__(self, o): return flip(self.zero()) if o == 1 else self._at(o, lambda: True, lambda a, b: a >= b)
    def __lt__(self, o): return self.zero() if o == 1 else self._at(o, lambda: False, lambda a, b: a < b)
    __hash__ = None


def flip(b):
    return (not b) if isinstance(b, bool) else ~b


@model(np.count_nonzero)
def _(I, a, axis=None, keepdims=False):
    if axis is not None or keepdims:
        raise Unsupported("count_nonzero(axis)")
    return Count(asarr(a) if not isinstance(a, Arr) else a)


# ---------------------------------------------------------------- files
class FileH(ClassModel):
    def __init__(self, path, mode):
        self.path, self.mode, self.pos, self.closed = path, mode, 0, False
        ENG.track.append(self)

    def get_state(self):
        return (self.pos, self.closed)

    def set_state(self, s):
        self.pos, self.closed = s

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.closed = True

    def close(self):
        self.closed = True

    def flush(self):
        return None

    def fileno(self):
        from .opfile import Content
        c = fs().get(self.path)
        if self.closed or not isinstance(c, Content):
            raise Unsupported("fileno")
        return c

    def _check(self, w):
        if self.closed:
            raise SymRaise(ValueError, "I/O operation on closed file")
        if ("r" in self.mode) == w and "+" not in self.mode:
            raise SymRaise(OSError, "not " + ("writable" if w else "readable"))

    def read(self, n=-1):
        self._check(False)
        if n not in (-1, None):
            raise Unsupported("partial read")
        c = fs().get(self.path)
        if self.pos:
            return ""
        self.pos = 1
        from .opfile import Content, Block
        if isinstance(c, Content):
            c = Block(c.parts)
            return SBytes(c) if "b" in self.mode else c
        if not isinstance(c, (str, SStr)):
            raise Unsupported("text of a binary file")
        return SBytes(c) if "b" in self.mode else c

    def write(self, t):
        self._check(True)
        if "b" in self.mode:
            if not isinstance(t, SBytes):
                raise Unsupported("bytes written")
            t = t.s
        if not isinstance(t, (str, SStr)):
            raise SymRaise(TypeError, "write() argument must be str")
        put(self.path, wrap(text_of(fs().get(self.path, "")) + text_of(t)))
        return None

    def readlines(self):
        raise Unsupported("lines of a file")

    def __iter__(self):
        raise Unsupported("lines of a file")


@model(open, always=True)
def _(I, path, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    fs()
    path = concrete_path(path)
    note("open", "'w' truncates, 'a' appends, 'r' reads what was written last; nothing else writes the files meanwhile; the text of a file is what was written to it")
    m = mode.replace("t", "")
    from .opfile import Content
    if m.replace("b", "") == "r+" and isinstance(fs().get(path), Content):
        m = m.replace("+", "")          # only read through a memory map
    if m.replace("b", "") not in ("r", "w", "a", "x"):
        raise Unsupported(f"open mode {mode}")
    if "r" in m and path not in fs():
        raise SymRaise(FileNotFoundError, path)
    if "x" in m and path in fs():
        raise SymRaise(FileExistsError, path)
    if "w" in m or ("a" in m or "x" in m) and path not in fs():
        put(path, "")
    return FileH(path, m)


_exists = MODELS[os.path.exists]


@model(os.path.isfile, always=True)
def _(I, p):
    return concrete_path(p) in fs()


def _exists2(I, p):
    if have_fs() and isinstance(p, str) and not ST.symbolic_text(p):
        p = concrete_path(p)
        if p in fs() or any(k.startswith(p.rstrip("/") + "/") for k in fs()):
            return True
    return _exists(I, p)


MODELS[os.path.exists] = _exists2


@model(shutil.copyfile, shutil.copy, shutil.copy2, always=True)
def _(I, src, dst, *, follow_symlinks=True):
    src, dst = concrete_path(src), concrete_path(dst)
    if src not in fs():
        raise SymRaise(FileNotFoundError, src)
    if src == dst:
        raise SymRaise(shutil.SameFileError, src)
    note("shutil.copyfile", "the destination gets the contents of the source, the source is unchanged")
    put(dst, fs()[src])
    return dst


@model(os.replace, os.rename, shutil.move, always=True)
def _(I, src, dst, **k):
    src, dst = concrete_path(src), concrete_path(dst)
    if src not in fs():
        raise SymRaise(FileNotFoundError, src)
    c = fs()[src]
    put(src, None)
    put(dst, c)


@model(os.remove, os.unlink, always=True)
def _(I, p, **k):
    p = concrete_path(p)
    if p not in fs():
        raise SymRaise(FileNotFoundError, p)
    put(p, None)


@model(glob.glob, always=True)
def _(I, pattern, *, recursive=False, **k):
    if k or recursive or not isinstance(pattern, str) or ST.symbolic_text(pattern):
        raise Unsupported("glob pattern")
    note("glob.glob", "returns exactly the existing paths matching the pattern (in an unspecified order)")
    p = os.path.abspath(pattern)
    r = [f for f in fs() if fnmatch.fnmatchcase(os.path.basename(f), os.path.basename(p)) and os.path.dirname(f) == os.path.dirname(p)]
    if glob.has_magic(os.path.dirname(p)):
        raise Unsupported("glob pattern in a directory")
    ENG.track.append(r)
    return r


@model(json.load)
def _(I, f, **k):
    return MODELS[json.loads](I, f.read(), **k)


@model(json.dump)
def _(I, obj, f, **k):
    f.write(MODELS[json.dumps](I, obj, **k))


# ---------------------------------------------------------------- numpy files
class Npy(ClassModel):
    def __init__(self, a):
        self.a = a

    def vc_compare(self, name, other, hyps, out, emit):
        from .contract import compare_values
        compare_values(name, other.a if isinstance(other, Npy) else other, self.a, hyps, out, set())


class Npz(ClassModel):
    """contents of a .npz file: each value under the condition that it is there"""
    def __init__(self, d):
        self.d = d

    def vc_compare(self, name, other, hyps, out, emit):
        from .contract import compare_values
        if not isinstance(other, Npz):
            emit(name, PV.Verdict(False, "", f"{other!r} instead of stored arrays"))
            return
        compare_values(name, other.d, self.d, hyps, out, set())


class NpzFile(ClassModel):
    """an opened .npz file"""
    def __init__(self, d):
        self.d = d
        self.open = True
        ENG.track.append(self)

    def get_state(self):
        return self.open

    def set_state(self, s):
        self.open = s

    @property
    def files(self):
        r = list(self.d)
        ENG.track.append(r)
        return r

    def keys(self):
        return self.files

    def __iter__(self):
        return iter(list(self.d))

    def __contains__(self, k):
        return k in self.d

    def contains_b(self, k):
        if not isinstance(k, str):
            raise Unsupported("key of stored arrays")
        return T.TRUE if k in self.d else T.FALSE

    def items(self):
        return [(k, self[k]) for k in self.d]

    def values(self):
        return [self[k] for k in self.d]

    def length(self):
        return len(self.d)

    def get(self, k, default=None):
        return self[k] if k in self.d else default

    def __getitem__(self, k):
        if not self.open:
            raise SymRaise(ValueError, "file is closed")
        if k not in self.d:
            raise SymRaise(KeyError, k)
        v = self.d[k]
        if isinstance(v, Arr):
            return v.copy()
        if isinstance(v, (S, int, float)):
            return Arr.make([], lambda i: to_p(v), "i8" if isinstance(v, int) or isinstance(v, S) and v.is_int else "f8")
        return StrArr(v)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.open = False

    def close(self):
        self.open = False


class StrArr(ClassModel):
    """a zero dimensional array of text"""
    def __init__(self, v):
        self.v = v

    shape = ()
    ndim = 0

    def item(self):
        return self.v

    def to_sstr(self):
        return self.v

    def __getitem__(self, k):
        if k == () or k is Ellipsis:
            return self.v
        raise Unsupported("index of a text array")

    def __eq__(self, o):
        o = o.v if isinstance(o, StrArr) else o
        return self.v == o

    def __ne__(self, o):
        return flip(self == o)

    __hash__ = None

    def tolist(self):
        return self.v

    def vc_compare(self, name, other, hyps, out, emit):
        from .contract import compare_values
        compare_values(name, other.v if isinstance(other, StrArr) else other, self.v, hyps, out, set())


def named(path, ext):
    path = concrete_path(path)
    return path if path.endswith(ext) else path + ext


@model(np.load, always=True)
def _(I, path, mmap_mode=None, **k):
    path = concrete_path(path)
    if path not in fs():
        raise SymRaise(FileNotFoundError, path)
    c = fs()[path]
    note("numpy.load", "gives the stored arrays unchanged, a .npz file under the keys they were stored with")
    if isinstance(c, Npy):
        return c.a.copy()
    if isinstance(c, Npz):
        return NpzFile(dict(c.d))
    raise SymRaise(ValueError, "not a numpy file")


@model(np.save, always=True)
def _(I, path, a, **k):
    note("numpy.save", "stores a copy of exactly the given array at the given path")
    put(named(path, ".npy"), Npy((a if isinstance(a, Arr) else asarr(a)).copy()))


_savez = MODELS[np.savez]


def savez(I, path, *a, **kw):
    if have_fs():
        if a:
            raise Unsupported("positional arrays in savez")
        note("numpy.savez", "stores copies of exactly the given arrays under the given keys at the given path")
        put(named(path, ".npz"), Npz({k: v.copy() if isinstance(v, Arr) else v.v if isinstance(v, StrArr) else v for k, v in kw.items()}))
        return
    return _savez(I, path, *a, **kw)


MODELS[np.savez] = savez


# ---------------------------------------------------------------- hashes
class Hash(ClassModel):
    def __init__(self, name):
        self.name, self.t = name, ""
        ENG.track.append(self)

    def get_state(self):
        return self.t

    def set_state(self, s):
        self.t = s

    def update(self, b):
        if isinstance(b, SBytes):
            self.t += text_of(b.s)
        elif isinstance(b, bytes):
            self.t += b.decode("latin1")
        else:
            raise SymRaise(TypeError, "Strings must be encoded before hashing")

    def copy(self):
        h = Hash(self.name)
        h.t = self.t
        return h

    def hexdigest(self):
        if not any(ST.hole_of(c) for c in self.t):
            return hashlib.new(self.name, self.t.encode("latin1")).hexdigest()
        note("hashlib", f"{self.name} is a function of the given bytes; different texts are assumed to have different digests")
        return wrap(hole(Hole("var", None, "", name=f"{self.name}({wrap(self.t).show()})")))

    def digest(self):
        raise Unsupported("digest")


def _hash(name):
    def f(I, data=None, **k):
        h = Hash(name)
        if data is not None:
            h.update(data)
        return h
    return f


for _n in ("sha512", "sha256", "md5", "sha1", "sha384"):
    _f = getattr(hashlib, _n)
    MODELS[_f] = (lambda g: (lambda I, data=b"", **k: g(I, data or None)))(_hash(_n))
    ST.ALWAYS.add(_f)


def _new(I, name, data=b"", **k):
    if not isinstance(name, str):
        raise Unsupported("hash name")
    return _hash(name)(I, data or None)


MODELS[hashlib.new] = _new
ST.ALWAYS.add(hashlib.new)
