"""Contracts of the model files (pibronic/vibronic/vibronic_model_io.py)."""
import itertools
import json
from pyvc.contract import *
from pyvc.contract import compare_values
from pyvc.core import *
from pyvc import files as F
from pyvc import prove as PV
from pyvc.interp import ClassModel, MODELS
from pibronic.vibronic import vIO, VMK
from .c06 import Lemma

MOD = "pibronic.vibronic.vibronic_model_io:"
NAMES = {"E": "energies", "w": "frequencies", "G1": "linear couplings", "G2": "quadratic couplings", "G3": "cubic couplings", "G4": "quartic couplings"}
ORDER = {"E": 0, "G1": 1, "G2": 2, "G3": 3, "G4": 4}
KEYS = list(NAMES)


def shape(k, A, N, diagonal):
    if k == "w":
        return [N]
    return [N] * ORDER[k] + ([A] if diagonal else [A, A])


def patterns(tier_full=False):
    """which parameters are there"""
    if tier_full:
        return ["".join(p) for p in itertools.product("01", repeat=6)]
    out = ["111111", "000000"]
    for i in range(6):
        out.append("".join("1" if j == i else "0" for j in range(6)))
    for i in range(6):
        out.append("".join("0" if j == i else "1" for j in range(6)))
    return out


def have(pat):
    return [k for k, b in zip(KEYS, pat) if b == "1"]


def sym_model(c, keys, A, N, diagonal, tag=""):
    return {k: c.arr(tag + k, shape(k, A, N, diagonal)) for k in keys}


def as_dict(c, m, A, N, order=None):
    d = {VMK.N: N, VMK.A: A}
    for k, v in m.items():
        d[VMK[k]] = v
    ENG.track.append(d)
    return d


def text_of_model(m, A, N):
    """JSON text of a model"""
    d = {"number of modes": N, "number of surfaces": A}
    for k, v in m.items():
        d[NAMES[k]] = F.NList(v.copy())
    return MODELS[json.dumps](None, d)


class ModelFile(ClassModel):
    """a file stating this model: a parameter that is not stated is zero"""
    def __init__(self, A, N, m, diagonal):
        self.A, self.N, self.diagonal = A, N, diagonal
        self.m = {k: v.copy() for k, v in m.items()}

    def vc_compare(self, name, other, hyps, out, emit):
        if type(other) is ModelFile:
            for nm, v, w in (("modes", other.N, self.N), ("surfaces", other.A, self.A)):
                compare_values(f"{name}[{nm}]", v, w, hyps, out, set())
            emit(name + ".kind", PV.Verdict(self.diagonal == other.diagonal, "equality", "coupled or diagonal"))
            self.arrays(name, other.m, hyps, out, emit)
            return
        if not isinstance(other, (str, F.SStr)):
            emit(name, PV.Verdict(False, "", f"{other!r} instead of a model"))
            return
        try:
            d = MODELS[json.loads](None, other)
        except SymRaise as e:
            emit(name, PV.Verdict(False, "", f"not JSON: {e}"))
            return
        d = dict(d)
        names = {v: k for k, v in NAMES.items()}
        for nm, v in (("number of modes", self.N), ("number of surfaces", self.A)):
            compare_values(f"{name}[{nm}]", d.pop(nm, Missing), v, hyps, out, set())
        extra = set(d) - set(names)
        emit(name + ".keys", PV.Verdict(not extra, "equality", f"{extra}"))
        self.arrays(name, {names[k]: v for k, v in d.items() if k in names}, hyps, out, emit)

    def arrays(self, name, d, hyps, out, emit):
        self.arrays_of(name, KEYS, d, hyps, out, emit)

    def arrays_of(self, name, keys, d, hyps, out, emit):
        for k in keys:
            want = self.m.get(k)
            if want is None:
                want = Arr.make([dim(s) for s in shape(k, self.A, self.N, self.diagonal)], lambda i: num(0))
            g = d.get(k)
            if isinstance(g, F.NList):
                g = g.arr
            if g is None:
                g = Arr.make(want._shape, lambda i: num(0))
            compare_values(f"{name}[{NAMES[k]}]", g, want, hyps, out, set())


class ModelDict(ModelFile):
    """a dictionary holding this model in arrays"""
    need = ("E",)

    def vc_freeze(self, snap, freeze):
        return self

    def vc_compare(self, name, other, hyps, out, emit):
        if not isinstance(other, dict):
            emit(name, PV.Verdict(False, "", f"{other!r} instead of a model"))
            return
        d = dict(other)
        for nm, v in ((VMK.N, self.N), (VMK.A, self.A)):
            compare_values(f"{name}[{nm.name}]", d.pop(nm, Missing), v, hyps, out, set())
        extra = set(d) - {VMK[k] for k in KEYS}
        emit(name + ".keys", PV.Verdict(not extra, "equality", f"{extra}"))
        for k in self.need:
            emit(f"{name}.{k} is there", PV.Verdict(VMK[k] in d, "equality", "missing"))
        for k in KEYS:
            if VMK[k] in d and not isinstance(d[VMK[k]], Arr):
                emit(f"{name}[{NAMES[k]}]", PV.Verdict(False, "", "not an array"))
                return
        self.arrays(name, {k: d[VMK[k]] for k in KEYS if VMK[k] in d}, hyps, out, emit)


def saved_by_contract(kind):
    """the contract of the function that saves a model, as its callers see it"""
    def f(I, args, kwargs, path=None, dictionary=None):
        path, d = (list(args) + [kwargs[k] for k in ("path", "dictionary") if k in kwargs])
        diag = kind == "diagonal"
        if not isinstance(d, dict) or set(d) - {VMK.A, VMK.N} - {VMK[k] for k in KEYS}:
            raise Unsupported("unknown model")
        if VMK.A not in d or VMK.N not in d:
            raise SymRaise(AssertionError)
        m = {}
        for k in KEYS:
            if VMK[k] in d:
                v = m[k] = d[VMK[k]]
                if not isinstance(v, Arr):
                    raise Unsupported("model array")
                if not ENG.branch(fits([S(x) for x in v._shape], k, d[VMK.A], d[VMK.N], diag)):
                    raise SymRaise(AssertionError)
        F.put(path, ModelFile(d[VMK.A], d[VMK.N], m, diag))
        return None
    return f


def set_fs(d):
    ENG.ghost = dict(ENG.ghost, fs=dict(d))


class FileContract(Contract):
    replayable = False

    def dims(self, c):
        return c.dim("A"), c.dim("N")


def fn(kind, what):
    return MOD + {"coupled": {"save": "save_model_to_JSON", "load": "load_model_from_JSON", "verify": "verify_model_parameters", "same": "_same_model"},
                  "diagonal": {"save": "save_diagonal_model_to_JSON", "load": "load_diagonal_model_from_JSON", "verify": "verify_diagonal_model_parameters", "same": "_same_diagonal_model"}}[kind][what]


class Save(FileContract):
    """writes exactly this model, leaves the caller's dictionary as it was"""
    def __init__(self, kind, pat):
        self.kind, self.pat, self.target = kind, pat, fn(kind, "save")
        self.name = f"save {kind} {pat}"

    def setup(self, c):
        A, N = self.dims(c)
        self.m = sym_model(c, have(self.pat), A, N, self.kind == "diagonal")
        set_fs({"/vp/other.json": c.text("other"), **({"/vp/m.json": c.text("old")} if self.pat.count("1") % 2 else {})})
        return ["/vp/m.json", as_dict(c, self.m, A, N)]

    def effect(self, c, path, d):
        F.put(path, ModelFile(d[VMK.A], d[VMK.N], self.m, self.kind == "diagonal"))
        return None


class Load(FileContract):
    """reads exactly the model the file states"""
    def __init__(self, kind, pat):
        self.kind, self.pat, self.target = kind, pat, fn(kind, "load")
        self.name = f"load {kind} {pat}"

    def setup(self, c):
        A, N = self.A, self.N = self.dims(c)
        self.m = sym_model(c, have(self.pat), A, N, self.kind == "diagonal")
        set_fs({"/vp/m.json": text_of_model(self.m, A, N), "/vp/other.json": c.text("other")})
        return ["/vp/m.json"]

    def effect(self, c, path):
        return ModelDict(self.A, self.N, self.m, self.kind == "diagonal")


class RoundTrip(FileContract, Lemma):
    """what was saved is loaded again"""
    def __init__(self, kind, pat, thorough_only=False):
        self.kind, self.pat, self.target, self.thorough_only = kind, pat, fn(kind, "save"), thorough_only
        self.name = f"lemma save and load {kind} {pat}"

    def setup(self, c):
        A, N = self.dims(c)
        self.m = sym_model(c, have(self.pat), A, N, self.kind == "diagonal")
        set_fs({"/vp/m.json": c.text("old")})
        return ["/vp/m.json", as_dict(c, self.m, A, N)]

    def build(self, call, path, d):
        call(resolve(fn(self.kind, "save")), [path, d])
        r = call(resolve(fn(self.kind, "load")), [path])
        dims = call(getattr(vIO, "extract_dimensions_of_model" if self.kind == "coupled" else "extract_dimensions_of_diagonal_model"), [None, path])
        return [r, dims]

    def effect(self, c, path, d):
        F.put(path, ModelFile(d[VMK.A], d[VMK.N], self.m, self.kind == "diagonal"))
        return [ModelDict(d[VMK.A], d[VMK.N], self.m, self.kind == "diagonal"), (d[VMK.A], d[VMK.N])]


def any_shape(c, k, diagonal, tag, rank=0):
    n = len(shape(k, 1, 1, diagonal)) + rank
    return [c.dim(f"{tag}{k}_{i}") for i in range(n)]


def fits(shp, k, A, N, diagonal):
    want = shape(k, A, N, diagonal)
    if len(want) != len(shp):
        return FALSE
    return b_and(*[eq(dim(x), dim(y)) for x, y in zip(shp, want)])


class Shapes(FileContract):
    """arrays of any size: refused exactly when one of them does not fit; nothing is written or changed then"""
    frame_on_raise = True

    def __init__(self, what, kind, pat, rank=None, thorough_only=False):
        self.what, self.kind, self.pat, self.rank, self.thorough_only = what, kind, pat, rank, thorough_only
        self.target = fn(kind, what)
        self.name = f"{what} {kind} {pat} any shape" + (f" ({rank[0]} with {rank[1]:+d} indices)" if rank else "")

    def setup(self, c):
        A, N = self.A, self.N = self.dims(c)
        diag = self.kind == "diagonal"
        shp = {k: any_shape(c, k, diag, "n", self.rank[1] if self.rank and self.rank[0] == k else 0) if not self.rank or self.rank[0] == k else shape(k, A, N, diag) for k in have(self.pat)}
        self.m = {k: c.arr(k, s) for k, s in shp.items()}
        self.ok = b_and(*[fits(s, k, A, N, diag) for k, s in shp.items()])
        if self.what == "load":
            set_fs({"/vp/m.json": text_of_model(self.m, A, N)})
            return ["/vp/m.json"]
        if self.what == "verify":
            return [as_dict(c, self.m, A, N)]
        set_fs({"/vp/m.json": c.text("old")})
        return ["/vp/m.json", as_dict(c, self.m, A, N)]

    def effect(self, c, *args):
        if not ENG.branch(self.ok):
            raise SymRaise(AssertionError)
        diag = self.kind == "diagonal"
        if self.what == "load":
            return ModelDict(self.A, self.N, self.m, diag)
        if self.what == "save":
            F.put(args[0], ModelFile(self.A, self.N, self.m, diag))
        return None


class InPlace(FileContract):
    """the arrays supplied by the caller are overwritten by what the file states, with zeros where it states nothing"""
    def __init__(self, kind, file, caller, thorough_only=False):
        self.kind, self.file, self.caller, self.thorough_only = kind, file, caller, thorough_only
        self.target = fn(kind, "load")
        self.name = f"load {kind} {file} in place {caller}"

    def setup(self, c):
        A, N = self.dims(c)
        diag = self.kind == "diagonal"
        self.m = sym_model(c, have(self.file), A, N, diag, "new")
        self.old = sym_model(c, have(self.caller), A, N, diag, "old")
        set_fs({"/vp/m.json": text_of_model(self.m, A, N)})
        return ["/vp/m.json", as_dict(c, self.old, A, N)]

    def effect(self, c, path, d):
        for k in have(self.caller):
            if k in self.m:
                d[VMK[k]][...] = self.m[k]
            else:
                d[VMK[k]][...] = 0.0
        return None


class InPlaceShapes(FileContract):
    """a file that does not fit into the caller's arrays is refused before any of them is changed"""
    frame_on_raise = True

    def __init__(self, kind, pat):
        self.kind, self.pat, self.target = kind, pat, fn(kind, "load")
        self.name = f"load {kind} {pat} in place, any shape"

    def setup(self, c):
        A, N = self.dims(c)
        A2, N2 = c.dim("A2"), c.dim("N2")
        diag = self.kind == "diagonal"
        shp = {k: any_shape(c, k, diag, "n") for k in have(self.pat)}
        self.m = {k: c.arr("new" + k, s) for k, s in shp.items()}
        self.old = sym_model(c, KEYS, A, N, diag, "old")
        self.ok = b_and(eq(dim(A), dim(A2)), eq(dim(N), dim(N2)), *[fits(s, k, A, N, diag) for k, s in shp.items()])
        set_fs({"/vp/m.json": text_of_model(self.m, A2, N2)})
        return ["/vp/m.json", as_dict(c, self.old, A, N)]

    def effect(self, c, path, d):
        if not ENG.branch(self.ok):
            raise SymRaise(AssertionError)
        for k in KEYS:
            if k in self.m:
                r = self.m[k].reader()
                d[VMK[k]][...] = Arr.make(d[VMK[k]]._shape, r)
            else:
                d[VMK[k]][...] = 0.0
        return None


def close(a, b):
    return to_b(MODELS[np.allclose](None, a, b))


def zeros(k, A, N, diag):
    return Arr.make([dim(s) for s in shape(k, A, N, diag)], lambda i: num(0))


class Undimensioned(FileContract):
    """a model that does not state its surfaces and modes is refused"""
    def __init__(self, kind, missing):
        self.kind, self.missing, self.target = kind, missing, fn(kind, "verify")
        self.name = f"verify {kind} without {missing}"

    def setup(self, c):
        A, N = self.dims(c)
        d = as_dict(c, sym_model(c, KEYS, A, N, self.kind == "diagonal"), A, N)
        for k in self.missing:
            del d[VMK[k]]
        return [d]

    def effect(self, c, d):
        raise SymRaise(AssertionError)


class Same(FileContract):
    """the same exactly when the dimensions agree and every parameter agrees, a missing one being zeros"""
    def __init__(self, kind, p1, p2, thorough_only=False):
        self.kind, self.p1, self.p2, self.target, self.thorough_only = kind, p1, p2, fn(kind, "same"), thorough_only
        self.name = f"same {kind} {p1} {p2}"

    def setup(self, c):
        A1, N1, A2, N2 = c.dim("A1"), c.dim("N1"), c.dim("A2"), c.dim("N2")
        diag = self.kind == "diagonal"
        self.a = sym_model(c, have(self.p1), A1, N1, diag, "a")
        self.b = sym_model(c, have(self.p2), A2, N2, diag, "b")
        return [as_dict(c, self.a, A1, N1), as_dict(c, self.b, A2, N2)]

    def effect(self, c, d1, d2):
        A, N = d1[VMK.A], d1[VMK.N]
        if not ENG.branch(b_and(eq(dim(A), dim(d2[VMK.A])), eq(dim(N), dim(d2[VMK.N])))):
            return False
        diag = self.kind == "diagonal"
        parts = []
        for k in KEYS:
            x, y = self.a.get(k), self.b.get(k)
            if x is None and y is None:
                continue
            z = zeros(k, A, N, diag)
            parts.append(close(z if x is None else x, z if y is None else y))
        return True if ENG.branch(b_and(*parts)) else False


class SameShapes(FileContract):
    """an invalid model is refused by the comparison, whichever of the two it is"""
    def __init__(self, kind, which):
        self.kind, self.which, self.target = kind, which, fn(kind, "same")
        self.name = f"same {kind} invalid argument {which + 1}"

    def setup(self, c):
        A, N = self.dims(c)
        diag = self.kind == "diagonal"
        m = [sym_model(c, ["E", "G2"], A, N, diag, t) for t in "ab"]
        s = any_shape(c, "G2", diag, "n")
        m[self.which]["G2"] = c.arr("x", s)
        self.assume_bad(fits(s, "G2", A, N, diag))
        return [as_dict(c, x, A, N) for x in m]

    def assume_bad(self, ok):
        ENG.assume(b_not(ok))

    def effect(self, c, d1, d2):
        raise SymRaise(AssertionError)


class SymmetricSurfaces(FileContract):
    target = MOD + "model_parameters_are_symmetric_in_surfaces"

    def __init__(self, pat):
        self.pat = pat
        self.name = f"symmetric in surfaces {pat}"

    def setup(self, c):
        A, N = self.dims(c)
        self.m = sym_model(c, have(self.pat), A, N, False)
        return [as_dict(c, self.m, A, N)]

    def pairs(self):
        for k, v in self.m.items():
            if k != "w":
                yield v, v.swapaxes(-1, -2)

    def effect(self, c, d):
        return True if ENG.branch(b_and(*[close(x, y) for x, y in self.pairs()])) else False


class SymmetricModes(SymmetricSurfaces):
    target = MOD + "model_parameters_are_symmetric_in_modes"

    def __init__(self, pat):
        self.pat = pat
        self.name = f"symmetric in modes {pat}"

    def pairs(self):
        if "G2" in self.m:
            yield self.m["G2"], self.m["G2"].swapaxes(0, 1)
        if "G4" in self.m:
            yield self.m["G4"], self.m["G4"].transpose([1, 0, 3, 2, 4, 5])


def complement(p):
    return "".join("1" if x == "0" else "0" for x in p)


# ---------------------------------------------------------------- decoupling
def diagonal_part(k, v):
    if k == "w":
        return v.copy()
    r = v.reader()
    return Arr.make(v._shape[:-1], lambda i: r(list(i) + [i[-1]]))


class Decoupled(FileContract):
    """the destination states exactly the coefficients that are diagonal in the surfaces; nothing else is written"""
    def __init__(self, what, pat, thorough_only=False):
        self.what, self.pat, self.thorough_only = what, pat, thorough_only
        self.target = MOD + what
        self.name = f"{what} {pat}"

    def setup(self, c):
        A, N = self.A, self.N = self.dims(c)
        self.m = sym_model(c, have(self.pat), A, N, False)
        self.src = text_of_model(self.m, A, N)
        f = {"/vp/vib.json": self.src, "/vp/other.json": c.text("other")}
        if self.pat.count("1") % 2:
            f.update({"/vp/har.json": c.text("old"), "/vp/rho.json": c.text("old2")})
        set_fs(f)
        if self.what == "remove_coupling_from_model":
            return ["/vp/vib.json", "/vp/har.json"]
        return [c.obj(None, path_vib_model="/vp/vib.json", path_har_model="/vp/har.json", path_rho_model="/vp/rho.json")]

    def effect(self, c, *args):
        d = ModelFile(self.A, self.N, {k: diagonal_part(k, v) for k, v in self.m.items()}, True)
        F.put("/vp/har.json", d)
        if self.what == "remove_coupling_from_model":
            return None
        if self.what == "create_harmonic_model":
            return "/vp/har.json"
        F.put("/vp/rho.json", d)
        return "/vp/rho.json"


class FillOffdiagonal(FileContract):
    target = MOD + "fill_offdiagonal_of_model_with_zeros"

    def __init__(self, pat, thorough_only=False):
        self.pat, self.thorough_only = pat, thorough_only
        self.name = f"fill_offdiagonal_of_model_with_zeros {pat}"

    def setup(self, c):
        A, N = self.dims(c)
        self.m = sym_model(c, have(self.pat), A, N, False)
        return [as_dict(c, self.m, A, N)]

    def effect(self, c, d):
        for k in have(self.pat):
            if k != "w":
                a = d[VMK[k]]
                r = a.reader()
                a[...] = Arr.make(a._shape, lambda i, r=r: ite(eq(i[-2], i[-1]), r(i), num(0)))
        return None


class SinglePoint(FileContract):
    """lowest eigenvalue of the coupled potential at the minimum of every oscillator"""
    target = MOD + "simple_single_point_energy_calculation"

    def __init__(self, rho, vib, what="single", thorough_only=False):
        self.thorough_only = thorough_only
        self.rho, self.vib, self.what = rho, vib, what
        if what != "single":
            self.target = MOD + "recalculate_energy_values_of_diagonal_model"
        self.name = f"{self.target.split(':')[1]} {rho} {vib}"

    def setup(self, c):
        A, R, N = c.dim("A"), c.dim("R"), c.dim("N")
        self.A, self.R, self.N = A, R, N
        self.d = sym_model(c, have(self.rho), R, N, True, "r")
        self.m = sym_model(c, have(self.vib), A, N, False, "v")
        for n, x in (("r", self.d), ("v", self.m)):
            if "w" in x:
                x["w"] = c.arr(n + "w", [N], positive=True)
        set_fs({"/vp/vib.json": text_of_model(self.m, A, N), "/vp/x.json": text_of_model(self.d, R, N), "/vp/rho.json": c.text("other")})
        return [c.obj(None, path_vib_model="/vp/vib.json", path_rho_model="/vp/rho.json"), "/vp/x.json"]

    def energies(self):
        call = lambda f, *a: MODELS[f](None, *a)
        d, m, A, R, N = self.d, self.m, self.A, self.R, self.N
        for x, diag in ((d, True), (m, False)):
            for k in ("G2", "G3", "G4"):
                if k in x and not ENG.branch(close(x[k], 0.0)):
                    raise SymRaise(Exception)
        lin = m["G1"].reader() if "G1" in m else (lambda i: num(0))
        E = m["E"].reader() if "E" in m else (lambda i: num(0))
        x = d["G1"].reader() if "G1" in d else (lambda i: num(0))
        wr, wv = d["w"].reader() if "G1" in d else (lambda i: num(1)), m["w"].reader()
        self.lin = x
        j = [ivar(fresh("m")) for _ in range(2)]

        def q(n, a):
            return neg(div(x([n, a]), wr([n]))) if "G1" in d else num(0)

        def V(a):
            def f(i):
                h = scale(Sum([(j[0], dim(N))], mul(wv([j[0]]), q(j[0], a), q(j[0], a))), Fraction(1, 2))
                return add(E(i), ite(eq(i[0], i[1]), h, num(0)), Sum([(j[1], dim(N))], mul(lin([j[1], i[0], i[1]]), q(j[1], a))))
            return Arr.make([dim(A), dim(A)], f)
        a = ivar(fresh("a"))
        e = call(np.linalg.eigvalsh, V(a)).at([num(0)])
        return lambda i: substitute(e, {vname(a): i})

    def effect(self, c, FS, path):
        e = self.energies()
        if self.what == "single":
            return Arr.make([dim(self.R)], lambda i: e(i[0]))
        x, wr = self.lin, self.d["w"].reader()
        n = ivar(fresh("n"))
        new = dict(self.d)
        new["E"] = Arr.make([dim(self.R)], lambda i: add(e(i[0]), scale(Sum([(n, dim(self.N))], div(power(x([n, i[0]]), num(2)), wr([n]))), Fraction(1, 2))))
        F.put(path, ModelFile(self.R, self.N, new, True))
        return None
