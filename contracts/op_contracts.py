"""Contracts of the operator file reader (pibronic/vibronic/model_op.py)."""
from pyvc.contract import *
from pyvc.core import *
from pyvc import files as F
from pyvc import opfile as OP
from pyvc import strings as ST
from pyvc.interp import MaybeDict
from pyvc.core import forall
from pyvc.terms import *
from pibronic.vibronic import VMK, vIO
import pibronic.vibronic.model_op as MO
from .model_contracts import FileContract, ModelDict, ModelFile, set_fs, KEYS as MKEYS, NAMES, saved_by_contract, sym_model

MOD = "pibronic.vibronic.model_op:"
RULE = "# --------------------------\n\n"
HEAD = "OP_DEFINE-SECTION\ntitle\nIP\nend-title\nend-op_define-section\n\n\nPARAMETER-SECTION\n\n# harmonic parts of ammonia\n\n"
# index of the arrays a line sets, as positions in the index tuple (modes..., surface, surface)
SECTIONS = {
    "C1": ("linear", "C1_s{a}_s{b}_v{j}", "NAA", "jab"),
    "C2d": ("quadratic", "C2_s{a}s{b}_v{j}v{j}", "NAA", "jjab"),
    "C2": ("quadratic", "C2_s{a}s{b}_v{j}v{k}", "NNAA", "jkab"),
    "C3": ("cubic", "C3_s{a}_s{b}_v{j}", "NAA", "jjjab"),
    "B3": ("cubic", "B3_s{a}s{b}_v{j}v{k}", "NNAA", "jkkab"),
    "C4": ("quartic", "C4_s{a}_s{b}_v{j}", "NAA", "jjjjab"),
    "B4": ("quartic", "B4_s{a}s{b}_v{j}v{k}", "NNAA", "jkkkab"),
    "A4": ("quartic", "A4_s{a}s{b}_v{j}v{k}", "NNAA", "jjkkab"),
}


def index_text(i):
    return ST.fmt_value(mkS(add(i, num(1))), "02d")


def line(name, value):
    return ST.SStr.concat([name, "           =      ", ST.to_sstr(S(value)) if value.const is None else repr(float(value.const)), "    , ev"])


def repr_text(v):
    return ST.SStr(ST.hole(ST.Hole("repr", v)))


class OpFile:
    """an operator file with every section header; the couplings stated are those of an arbitrary set"""
    def __init__(self, c, A, N, ordered=False):
        self.c, self.A, self.N, self.ordered = c, A, N, ordered
        real = lambda r, e, s: np.round(np.array([r.choice([r.uniform(-2, 2), r.uniform(-2e-5, 2e-5), 0.0, 12.5]) for _ in range(int(np.prod(s)))]).reshape(s), 9)
        self.w = c.arr("w", [N], gen=real)
        self.E = c.arr("E", [A], gen=real)
        self.on, self.v = {}, {}
        for k, (what, pat, letters, at) in SECTIONS.items():
            shp = [{"N": N, "A": A}[x] for x in letters]
            self.on[k] = c.arr("has" + k, shp, "i8")
            self.v[k] = c.arr("v" + k, shp, gen=real)

    def cond(self, k):
        """which lines may be there: every unordered pair of surfaces and of modes is written once"""
        on = self.on[k]

        def f(idx):
            bs = [ne0(on.at(list(idx)))]
            if self.ordered:
                bs.append(le(idx[-2], idx[-1]))
            if k in ("C2", "A4"):
                bs.append(lt(idx[1], idx[0]))
            if k in ("B3", "B4"):
                bs.append(b_not(eq(idx[0], idx[1])))
            return b_and(*bs)
        return f

    def family(self, k):
        what, pat, letters, at = SECTIONS[k]
        names = "jkab" if len(letters) == 4 else "jab"

        def item(idx):
            sub = dict(zip(names, idx))
            parts, i = [], 0
            import string
            for lit, field, _, _ in string.Formatter().parse(pat):
                parts.append(lit)
                if field:
                    parts.append(index_text(sub[field]))
            return ST.SStr.concat(parts + ["           =      ", repr_text(self.v[k].at(list(idx))), "    , ev"])
        return OP.Family([to_p({"N": self.N, "A": self.A}[x]) for x in letters], item, self.cond(k))

    def one(self, dim_, name, arr):
        return OP.Family([to_p(dim_)], lambda i: ST.SStr.concat(name(index_text(i[0])) + ["             =      ", repr_text(arr.at([i[0]])), "    , ev"]))

    def parts(self):
        f = self.family
        return [HEAD + "#        Frequencies\n" + RULE, self.one(self.N, lambda t: ["w", t], self.w),
                "\n#        Zeropoint energy     1.3144241232\n\n#   Electronic Hamitonian\n#   Vertical energies - Zeropoint\n" + RULE,
                self.one(self.A, lambda t: ["EH_s", t, "_s", t], self.E),
                "\n#     Electronic transition moments\n# ------\n#     Magnetic transition moments\n# ------\n#  Linear Coupling Constants\n" + RULE,
                f("C1"), "\n\n#  Diagonal Quadratic Coupling Constants\n" + RULE, f("C2d"),
                "\n# Off_diagonal Quadratic Coupling Constants\n" + RULE, f("C2"), "\n#  Cubic Coupling Constants\n" + RULE, f("C3"),
                "\n#  Quartic Coupling Constants\n" + RULE, f("C4"), "\n#  Bi-Cubic Constants\n" + RULE, f("B3"),
                "\n#  Bi-Quartic Constants\n" + RULE, f("B4"), f("A4"), "\n\nend-parameter-section\n\n"]

    def term(self, k, idx):
        """what the lines of kind k state for the element idx of their array: value, else 0"""
        what, pat, letters, at = SECTIONS[k]
        sub, same_ = {}, []
        for ch, i in zip(at, idx):
            if ch in sub:
                same_.append(eq(sub[ch], i))
            else:
                sub[ch] = i
        at_ = [sub[ch] for ch in ("jkab" if len(letters) == 4 else "jab")]
        return ite(b_and(self.cond(k)(at_), *same_), self.v[k].at(at_), num(0)), b_and(self.cond(k)(at_), *same_)

    def stored(self, ks, old):
        """array after the lines of these kinds were stored"""
        def f(idx):
            r = old(idx)
            for k in ks:
                t, b = self.term(k, idx)
                r = ite(b, t, r)
            return r
        return f


def ne0(p):
    return b_not(eq(p, num(0)))


class Extract(Contract):
    """a line sets exactly the element it names, the elements without a line stay as they were; for every number of surfaces and modes"""
    def __init__(self, fn, ks, rank):
        self.fnname, self.ks, self.rank = fn, ks, rank
        self.target = MOD + fn

    def setup(self, c):
        A, N = c.dim("A"), c.dim("N")
        self.f = OpFile(c, A, N)
        self.arr = c.arr("terms", [N] * self.rank + [A, A])
        return ["/vp/m.op", OP.Mmap(self.f.parts()), self.arr]

    def effect(self, c, path, mm, arr):
        r = arr.copy().reader()
        arr[...] = Arr.make(arr._shape, self.f.stored(self.ks, r))
        return None


class Frequencies(Contract):
    target = MOD + "extract_normal_mode_frequencies"

    def setup(self, c):
        self.f = OpFile(c, c.dim("A"), c.dim("N"))
        return ["/vp/m.op", OP.Mmap(self.f.parts())]

    def effect(self, c, path, mm):
        return self.f.w.copy()


class Energies(Contract):
    target = MOD + "extract_energies"

    def setup(self, c):
        self.f = OpFile(c, c.dim("A"), c.dim("N"))
        return ["/vp/m.op", OP.Mmap(self.f.parts())]

    def effect(self, c, path, mm):
        r = self.f.E.reader()
        A = to_p(self.f.A)
        return Arr.make([A, A], lambda i: ite(eq(i[0], i[1]), r([i[0]]), num(0)))


def model_of(f):
    """the model the file states"""
    A, N = to_p(f.A), to_p(f.N)
    e, w = f.E.reader(), f.w.reader()

    def sym(ks, modes):
        def g(idx):
            m, (a, b) = list(idx[:-2]), idx[-2:]
            total = num(0)
            for k in ks:
                orders = [m]
                if modes and k == "C2":
                    orders = [m, m[::-1]]
                for o in orders:
                    x, y = f.term(k, o + [a, b])[0], f.term(k, o + [b, a])[0]
                    total = add(total, ite(eq(a, b), x, add(x, y)))
            return total
        return g
    arr = lambda n, g: Arr.make([N] * n + [A, A], g)
    return {"E": arr(0, lambda i: ite(eq(i[0], i[1]), e([i[0]]), num(0))), "w": Arr.make([N], w),
            "G1": arr(1, sym(["C1"], False)), "G2": arr(2, sym(["C2d", "C2"], True)),
            "G3": arr(3, sym(["C3", "B3"], False)), "G4": arr(4, sym(["C4", "B4", "A4"], False))}


class ReadOp(FileContract):
    """the model read is the one the file states"""
    target = MOD + "read_model_op_file"

    def __init__(self, A):
        self.A = A
        self.name = f"read_model_op_file, {A} surfaces"
        self.thorough_only = A > 2
        self.bounded_note = f"{A} surfaces; every number of modes, every set of couplings and every value"

    def setup(self, c):
        N = c.dim("N")
        self.f = OpFile(c, self.A, N, True)
        set_fs({"/vp/m.op": OP.Content(self.f.parts())})
        ENG.ghost = dict(ENG.ghost, merge_filters=True, split_small=True)
        return ["/vp/m.op"]

    def effect(self, c, path):
        return NeedNothing(self.A, self.f.N, model_of(self.f), False)


class NeedNothing(ModelDict):
    """a parameter that is zero throughout need not be there"""
    need = ()

    def vc_compare(self, name, other, hyps, out, emit):
        if not isinstance(other, MaybeDict):
            return super().vc_compare(name, other, hyps, out, emit)
        d = {}
        for k, (c, v) in other.entries.items():
            d[k] = v
            if c.op == "true":
                continue
            nm = k.name if hasattr(k, "name") else str(k)
            if not isinstance(v, Arr):
                emit(f"{name}.{nm} is there", PV.prove_b(c, hyps))
                continue
            # where the entry is missing all its elements are zero
            zero = forall(Arr.make(v._shape, (lambda r: lambda i: ind(eq(r(i), num(0))))(v.reader()), "b1"))
            emit(f"{name}.{nm} is only left out where it is zero", PV.prove_b(b_or(c, to_b(zero)), hyps))
        ENG.track.append(d)
        super().vc_compare(name, d, hyps, out, emit)

    def arrays(self, name, d, hyps, out, emit):
        """surface by surface"""
        A = to_p(self.A).const
        for k in MKEYS:
            if k == "w" or k not in d:
                super().arrays_of(name, [k], d, hyps, out, emit)
                continue
            g, want = d[k], self.m[k]
            if len(g._shape) != len(want._shape) or not all(same(x, y) for x, y in zip(g._shape, want._shape)):
                emit(f"{name}[{NAMES[k]}]", PV.Verdict(False, "", "shape"))
                continue
            r, w = g.reader(), want.reader()
            for a in range(int(A)):
                for b in range(int(A)):
                    at = [num(a), num(b)]
                    compare_values(f"{name}[{NAMES[k]}] of surfaces {a}, {b}", Arr.make(g._shape[:-2], lambda i: r(list(i) + at)),
                                   Arr.make(want._shape[:-2], lambda i: w(list(i) + at)), hyps, out, set())


class CreateFromOp(FileContract):
    """the model of the data set is then the one the file states"""
    target = "pibronic.vibronic.vibronic_model_io:create_coupling_from_op_file"

    def overrides(self, c):
        def read(I, args, kwargs, path_file_op=None):
            p = (list(args) + list(kwargs.values()))[0]
            if p != "/vp/m.op":
                raise SymRaise(FileNotFoundError)
            d = {VMK.A: self.A, VMK.N: self.N}
            for k, v in self.m.items():
                zero = forall(v == 0)
                if not ENG.branch(b_and(to_b(zero), self.left[k])):
                    d[VMK[k]] = v
            ENG.track.append(d)
            return d
        return {vIO.save_model_to_JSON: saved_by_contract("coupled"), vIO.read_model_op_file: read, MO.read_model_op_file: read}

    def setup(self, c):
        A, N = self.A, self.N = self.dims(c)
        self.m = sym_model(c, list(MKEYS), A, N, False)
        # where a parameter is zero it may, or may not, be left out
        self.left = {k: to_b(c.bool("leaves out " + k)) for k in MKEYS}
        set_fs({"/vp/m.op": c.text("op"), "/vp/vib.json": c.text("old")})
        return [c.obj(None, path_vib_model="/vp/vib.json"), "/vp/m.op"]

    def effect(self, c, fs, path):
        F.put("/vp/vib.json", ModelFile(self.A, self.N, self.m, False))
        return "/vp/vib.json"
