"""C04: artificial models"""
import json
import os
import numpy as np
import scipy.linalg
from pyvc.runner import Prop
from pyvc.loops import first_index
from pibronic.vibronic import orthonormal
from pibronic.vibronic.orthonormal import sequences as seq
from .io_oracle import Rotate as Oracle
from .model_contracts import *

ORTHO = "pibronic.vibronic.orthonormal."


def skew(i):
    """the fixed skew-symmetric matrix: +1 above, -1 below the diagonal"""
    return sub(ind(lt(i[0], i[1])), ind(lt(i[1], i[0])))


def matmul(U, old):
    """U . old . U^T on the last two indices"""
    u, r = U.reader(), old.reader()
    A = old._shape[-1]
    j, k = ivar(fresh("j")), ivar(fresh("k"))
    return Arr.make(old._shape, lambda i: Sum([(j, A), (k, A)], mul(u([i[-2], j]), r(list(i[:-2]) + [j, k]), u([i[-1], k]))))


class BuildSKSM(FileContract):
    target = ORTHO + "sequences:build_SKSM_and_identity"

    def setup(self, c):
        return [c.dim("A")]

    def effect(self, c, A):
        n = dim(A)
        return (Arr.make([n, n], skew), Arr.make([n, n], lambda i: ind(eq(i[0], i[1]))))


class SelectPair(FileContract):
    """the entry of the sequence selected by the tuning value: the last one for 1, otherwise the first one that is
    (numerically) equal to the wanted distance or else the last one before the distances exceed it"""
    target = ORTHO + "sequences:select_pair"

    def setup(self, c):
        s = c.arr("seq", [c.dim("M"), 2])
        t = c.real("t")
        # a stored sequence starts at the identity and ends away from it (see StoredSequences)
        ENG.assume(eq(s.at([num(0), num(0)]), num(0)))
        ENG.assume(lt(num(0), s.at([sub(s._shape[0], num(1)), num(0)])))
        return [F.NList(s), t]

    def effect(self, c, sequence, t):
        t = to_p(t)
        if not ENG.branch(b_and(le(num(0), t), le(t, num(1)))):
            raise SymRaise(AssertionError)
        if ENG.branch(eq(t, num(0))):
            return seq.Pair(x=0.0, y=0.0)
        r, M = sequence.arr.reader(), sequence.arr._shape[0]
        pair = lambda i: seq.Pair(x=S(r([i, num(1)])), y=S(r([i, num(0)])))
        last = sub(M, num(1))
        if ENG.branch(eq(t, num(1))):
            return pair(last)
        y = mul(r([last, num(0)]), t)
        k = ivar(fresh("k"))
        close = lambda i: to_b(MODELS[np.isclose](None, S(r([i, num(0)])), S(y)))
        i = first_index(M, b_or(close(k), lt(y, r([k, num(0)]))), k)
        if i is None:
            raise SymRaise(Exception)
        if ENG.branch(close(i)):
            return pair(i)
        return pair(sub(i, num(1)))


class LoadSequence(FileContract):
    """the stored sequence of this order (used as an arbitrary sequence by the callers)"""
    target = ORTHO + "sequences:load_sequence"

    def setup(self, c):
        return [c.dim("A")]

    def effect(self, c, order, delimiter=","):
        A = to_p(order)
        s = ENG.ghost.get("sequence")
        if s is None:
            raise Unsupported("no sequence given")
        return F.NList(s)


class Listed(ClassModel):
    """exactly these numbers, starting at the identity with growing distances"""
    def __init__(self, rows):
        self.rows = rows

    def vc_freeze(self, snap, freeze):
        return self

    def vc_compare(self, name, other, hyps, out, emit):
        ok = isinstance(other, list) and [list(x) for x in other] == self.rows
        emit(name, PV.Verdict(ok, "evaluation", "not the numbers stored in the file"))
        y = [r[0] for r in self.rows]
        emit(name + ".starts at the identity", PV.Verdict(self.rows[0] == [0.0, 0.0], "evaluation", str(self.rows[0])))
        emit(name + ".distances grow", PV.Verdict(len(y) >= 50 and all(a < b for a, b in zip(y, y[1:])), "evaluation", ""))


class StoredSequence(FileContract):
    """what callers assume about the stored sequence of an order holds for the file, and it is what is loaded"""
    target = ORTHO + "sequences:load_sequence"

    def __init__(self, order):
        self.order = order
        self.name = f"stored sequence of order {order}"

    def file(self):
        return os.path.join(os.path.dirname(os.path.realpath(orthonormal.__file__)), f"sequence_{self.order}.data")

    def overrides(self, c):
        return {os.path.isfile: lambda I, a, k: os.path.isfile(*a, **k), os.path.exists: lambda I, a, k: os.path.exists(*a, **k),
                os.path.realpath: lambda I, a, k: os.path.realpath(*a, **k), np.loadtxt: lambda I, a, k: np.loadtxt(*a, **k)}

    def setup(self, c):
        return [self.order]

    def effect(self, c, order, delimiter=","):
        if not os.path.isfile(self.file()):
            raise SymRaise(AssertionError)
        with open(self.file()) as f:
            return Listed([[float(x) for x in line.split(",")] for line in f if line.strip()])


class Generate(FileContract):
    """identity for tuning 0, otherwise the exponential of the selected multiple of the skew-symmetric matrix"""
    target = ORTHO + "create:create_orthonormal_matrix_lambda_close_to_identity"
    uses = [BuildSKSM, SelectPair, LoadSequence]

    def setup(self, c):
        s = c.arr("seq", [c.dim("M"), 2])
        ENG.assume(eq(s.at([num(0), num(0)]), num(0)))
        ENG.assume(lt(num(0), s.at([sub(s._shape[0], num(1)), num(0)])))
        ENG.ghost = dict(ENG.ghost, sequence=s)
        return [c.dim("A"), c.real("t")]

    def effect(self, c, A, t):
        p = SelectPair().effect(c, F.NList(ENG.ghost["sequence"]), t)
        n = dim(A)
        if ENG.branch(eq(to_p(t), num(0))):
            return Arr.make([n, n], lambda i: ind(eq(i[0], i[1])))
        return MODELS[scipy.linalg.expm](None, Arr.make([n, n], lambda i: mul(to_p(p.x), skew(i))))


class Wrapper(Generate):
    target = MOD + "create_orthonormal_matrix_lambda_close_to_identity"
    name = "vIO.create_orthonormal_matrix_lambda_close_to_identity"
    uses = [Generate]


class Rotate(FileContract):
    """every coefficient array that is present is rotated by the matrix; backup and matrix are stored"""
    target = MOD + "create_fake_coupled_model"
    frame_on_raise = True

    def __init__(self, pat, how, thorough_only=False):
        self.pat, self.how, self.thorough_only = pat, how, thorough_only
        self.name = f"create_fake_coupled_model {pat} {how} matrix"

    def generated(self, A, t):
        """an orthonormal matrix, a function of the order and the tuning value (contract of the generating function)"""
        t = to_p(t)
        if not ENG.branch(b_and(le(num(0), t), le(t, num(1)))):
            raise SymRaise(AssertionError)
        n = dim(A)
        U = Arr.make([n, n], lambda i: app("Ugen", [n, t] + list(i)), "f8")
        x = close(U.dot(U.T), MODELS[np.eye](None, S(n)))
        ENG.assume(x)
        return U

    def overrides(self, c):
        return {vIO.save_model_to_JSON: saved_by_contract("coupled"),
                vIO.create_orthonormal_matrix_lambda_close_to_identity: lambda I, a, k: self.generated(*a, **k),
                orthonormal.create.create_orthonormal_matrix_lambda_close_to_identity: lambda I, a, k: self.generated(*a, **k)}

    def setup(self, c):
        A, N = self.A, self.N = self.dims(c)
        self.m = sym_model(c, have(self.pat), A, N, False)
        self.src = text_of_model(self.m, A, N)
        f = {"/vp/vib.json": self.src, "/vp/other.json": c.text("other")}
        if self.pat.count("1") % 2:
            f["/vp/orig.json"] = c.text("old")
        self.U = None
        if self.how in ("given", "re-use"):
            self.U = c.arr("U", [A, A])
        if self.how == "re-use" or self.pat.count("1") % 2:
            f["/vp/ortho.npy"] = F.Npy(self.U if self.how == "re-use" else c.arr("oldU", [c.dim("B"), c.dim("B")]))
        set_fs(f)
        fs = c.obj(None, path_vib_model="/vp/vib.json", path_orig_model="/vp/orig.json", path_ortho_mat="/vp/ortho.npy")
        t = c.real("t")
        if self.how == "generated":
            return [fs, t]
        if self.how == "wrong":
            return [fs, t, "reuse"]
        return [fs, t, self.U if self.how == "given" else "re-use"]

    def effect(self, c, fs, t, U=None):
        if self.how == "wrong":
            raise SymRaise(Exception)
        if self.how == "generated":
            U = self.generated(self.A, t)
        elif self.how == "re-use":
            U = self.U
        elif not ENG.branch(close(U.dot(U.T), MODELS[np.eye](None, self.A))):
            raise SymRaise(AssertionError)
        m = self.m
        for k, v in m.items():
            if k != "w" and not ENG.branch(close(v, v.swapaxes(-1, -2))):
                raise SymRaise(AssertionError)
        for k, p in (("G2", [1, 0, 2, 3]), ("G4", [1, 0, 3, 2, 4, 5])):
            if k in m and not ENG.branch(close(m[k], m[k].transpose(p))):
                raise SymRaise(AssertionError)
        F.put("/vp/orig.json", self.src)
        F.put("/vp/vib.json", ModelFile(self.A, self.N, {k: v if k == "w" else matmul(U, v) for k, v in m.items()}, False))
        F.put("/vp/ortho.npy", F.Npy(U))
        return None


QUICK = patterns()
CONTRACTS = [BuildSKSM(), SelectPair(), Generate(), Wrapper()] + [StoredSequence(k) for k in range(1, 12)]
CONTRACTS += [Rotate(p, h, p not in QUICK or (h != "given" and p not in QUICK[:8])) for h in ("given", "re-use", "generated") for p in patterns(True)]
CONTRACTS += [Rotate("111000", "wrong")]
PROPERTY = Prop("C04", CONTRACTS, [x.label() for x in CONTRACTS], Oracle())
