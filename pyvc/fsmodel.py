"""Ghost file system: directories that exist (with their conditions)."""
import contextlib
import os
import os.path
from unittest import mock
from .core import *
from . import core
from .npmodel import model
from .strings import *
from . import strings as ST

REAL = {"dirs": set(), "files": set()}


def norm(p):
    from .interp import MODELS
    if isinstance(p, str) and not ST.symbolic_text(p):
        return os.path.abspath(p)
    return MODELS[os.path.abspath](None, p)


def set_dirs(l, files=(), real=False):
    """the directories (and other files) that exist, each under a condition"""
    if real:
        REAL["dirs"] = {os.path.abspath(p) for p, f in l if f}
        REAL["files"] = {os.path.abspath(p) for p, f in files if f} - REAL["dirs"]
    else:
        ENG.ghost = dict(ENG.ghost, dirs=tuple((norm(p), to_b(f)) for p, f in l), plain=tuple((norm(p), to_b(f)) for p, f in files))


def isdir(p, also=()):
    p = norm(p)
    alts = []
    for q, cond in ENG.ghost.get("dirs", ()) + also:
        e = to_b(p == q)
        alts.append(b_and(e, cond))
    return mkbool(b_or(*alts)) if alts else False


def ghost():
    return "dirs" in ENG.ghost


REAL_CALLS = os.path.isdir, os.path.exists, os.makedirs


@model(os.path.isdir, always=True)
def _(I, p):
    if not ghost() and isinstance(p, str) and not ST.symbolic_text(p):
        return REAL_CALLS[0](p)
    return isdir(p)


@model(os.path.exists, always=True)
def _(I, p):
    if not ghost() and isinstance(p, str) and not ST.symbolic_text(p):
        return REAL_CALLS[1](p)
    return isdir(p, ENG.ghost.get("plain", ()))


@model(os.makedirs, always=True)
def _(I, p, mode=0o777, exist_ok=False):
    if not ghost():
        raise Unsupported("creation of a directory")
    p = norm(p)
    if not truth(exist_ok) and truth(isdir(p)):
        raise SymRaise(FileExistsError)
    new = [(p, to_b(True))]
    for _ in range(2):
        try:
            p = norm(os_dirname(p))
            new.append((p, to_b(True)))
        except Unsupported:
            break
    ENG.ghost = dict(ENG.ghost, dirs=ENG.ghost.get("dirs", ()) + tuple(new))


def truth(b):
    return b if isinstance(b, bool) else ENG.branch(to_b(b))


def os_dirname(p):
    from .interp import MODELS
    return MODELS[os.path.dirname](None, p) if isinstance(p, ST.SStr) else os.path.dirname(p)


@contextlib.contextmanager
def fake_directories(initial):
    """stand-ins for the calls that look at or create directories: they only record"""
    old = dict(REAL)
    REAL["files"] = set()
    REAL["dirs"] = {os.path.abspath(x) for x in initial}

    def makedirs(p, mode=0o777, exist_ok=False):
        p = os.path.abspath(p)
        if not exist_ok and p in REAL["dirs"]:
            raise FileExistsError(p)
        while p != "/":
            REAL["dirs"].add(p)
            p = os.path.dirname(p)
    have = lambda p: os.path.abspath(p) in REAL["dirs"]
    try:
        with mock.patch.object(os, "makedirs", makedirs), mock.patch.object(os.path, "isdir", have), mock.patch.object(os.path, "exists", lambda p: have(p) or os.path.abspath(p) in REAL["files"]):
            yield
    finally:
        REAL.update(old)


@model(dir)
def _(I, o=None):
    if not isinstance(o, Obj):
        raise Unsupported("dir")
    names = set(o.attrs)
    for k in (o.cls.__mro__ if o.cls else ()):
        names |= set(k.__dict__)
    r = sorted(names)
    ENG.track.append(r)
    return r


@model(vars)
def _(I, o=None):
    if not isinstance(o, Obj):
        raise Unsupported("vars")
    return o.attrs
