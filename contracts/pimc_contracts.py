"""Contracts of pibronic/pimc/pimc.py"""
import contextlib
from unittest import mock
from pyvc.contract import *
from pyvc.contract import Contract as _C
from pyvc import core
from pyvc import npmodel as NM
import pibronic.pimc.pimc as pm
import pibronic.constants as K

PM = "pibronic.pimc.pimc:"
HALF = num(Fraction(1, 2))


def A_(shape, f, dtype="f8"):
    return Arr.make([dim(s) for s in shape], f, dtype)


def named(prefix, shape, f, dtype="f8"):
    """an array given by a named definition (the prover unfolds the name only when needed)"""
    shape = [dim(x) for x in shape]
    xs = [ivar(f"$o{i}") for i in range(len(shape))]
    content = PV.simp(num(f(xs)), list(ENG.hyps) + PV.ranges_of(xs, shape))
    name, lead = T.define(prefix, content, [T.vname(x) for x in xs])
    return Arr.make(shape, lambda i: app(name, lead + list(i)), dtype)


def two_states(c, same):
    """(A, R): number of surfaces of the coupled model and of the sampling model"""
    A = c.dim("A", hi=3)
    if same:
        return A, A
    R = c.dim("R", hi=3)
    ENG.assume(b_not(eq(A.p, R.p)))
    return A, R


def tdc(c, tag, B, P_, A, N, omatrix=None):
    """a TemperatureDependentClass object: constants of one model at one time step"""
    return Obj(pm.TemperatureDependentClass,
               tau=c.real("tau" + tag, positive=True),
               cothBANP=c.arr("coth" + tag, [1, A, N, 1], positive=True), cschBANP=c.arr("csch" + tag, [1, A, N, 1], positive=True),
               cothANP=c.arr("cothANP" + tag, [A, N, 1], positive=True), cschANP=c.arr("cschANP" + tag, [A, N, 1], positive=True),
               omatrix_prefactor=A_([B, P_, A], lambda i: app("pre" + tag, [i[2]])) if c.arr("pre" + tag, [A], positive=True) is not None else None,
               omatrix=omatrix if omatrix is not None else A_([B, P_, A, A], lambda i: ite(eq(i[2], i[3]), app("om" + tag, i[:3]), num(0))) if c.arr("om" + tag, [B, P_, A]) is not None else None,
               omatrix_scaling=c.uninit("scal" + tag, [B, P_]))


def o_term(model, shift, q, b, p, a, P_):
    """diagonal propagator of surface a from bead p to the next one: q(b, n, p) -> coordinate"""
    n = ivar(fresh("n"))
    nxt = ite(lt(add(p, num(1)), P_), add(p, num(1)), num(0))
    s = shift.at([a, n])
    x, y = sub(q(b, a, n, p), s), sub(q(b, a, n, nxt), s)
    co, cs = model.cothBANP.at([0, a, n, 0]), model.cschBANP.at([0, a, n, 0])
    N = shift._shape[1]
    e = Sum([(n, N)], sub(mul(co, add(mul(x, x), mul(y, y))), mul(num(2), cs, x, y)))
    return mul(model.omatrix_prefactor.at([b, p, a]), fn("exp", mul(num(Fraction(-1, 2)), e)))


def q_reader(arr):
    r = arr.reader()
    return lambda b, a, n, p: r([b, a, n, p])


class Fake:
    """attribute access on Obj for specifications"""
    def __init__(self, o):
        self.__dict__["_o"] = o

    def __getattr__(self, k):
        v = self._o.attrs[k]
        return Fake(v) if isinstance(v, Obj) else v

    def __setattr__(self, k, v):
        self._o.attrs[k] = v._o if isinstance(v, Fake) else v


def off_diagonal_zero(om):
    return Forall(om._shape, lambda i: b_or(eq(i[2], i[3]), eq(om.at(i), num(0))))


class BuildO(_C):
    target = PM + "build_o_matrix"
    same = True
    which = "qTensor"

    def setup(self, c):
        B, N, P_ = c.dim("B"), c.dim("N"), c.dim("P", lo=2)
        A, R = two_states(c, self.same)
        data = Obj(pm.BoxData, qTensor=c.arr("q", [B, A, N, P_]), qTempTensor=c.arr("qt", [B, R, N, P_]), states=A, beads=P_, modes=N, block_size=B)
        return [data, tdc(c, "", B, P_, R, N), c.arr("shift", [R, N])]

    def requires(self, data, model, shift):
        return [("off-diagonal elements of the O matrix are zero", off_diagonal_zero(model.attrs["omatrix"]))]

    def effect(self, c, data, model, shift):
        d, m = Fake(data), Fake(model)
        P_ = d.qTensor._shape[3]
        same_ = mkS(shift._shape[0]) == mkS(d.qTensor._shape[1])
        q = q_reader(d.qTensor if same_ else d.qTempTensor)
        sh, old = shift.copy(), m.omatrix
        frozen = Obj(None, cothBANP=m.cothBANP.copy(), cschBANP=m.cschBANP.copy(), omatrix_prefactor=m.omatrix_prefactor.copy())
        f = Fake(frozen)
        o = named("O", old._shape[:3], lambda i: o_term(f, sh, q, i[0], i[1], i[2], P_)).reader()
        m.omatrix[:] = A_(old._shape, lambda i: mul(ind(eq(i[2], i[3])), o(i[:3])))


class BuildOTemp(BuildO):
    name = "build_o_matrix (sampling model with its own number of surfaces)"
    same = False


class Scaling(_C):
    target = PM + "build_scaling_factors"

    def setup(self, c):
        B, N, P_ = c.dim("B"), c.dim("N"), c.dim("P", lo=2)
        A, R = c.dim("A"), c.dim("R")
        return [c.uninit("S12", [B, P_]), tdc(c, "1", B, P_, A, N), tdc(c, "2", B, P_, R, N)]

    def effect(self, c, S12, one, two):
        a, b = Fake(one), Fake(two)
        for m in (a, b):
            m.omatrix_scaling[:] = m.omatrix.max(axis=(2, 3))
        x, y = a.omatrix_scaling.reader(), b.omatrix_scaling.reader()
        S12[:] = A_(S12._shape, lambda i: max2(x(i), y(i)))


def rescale(m, factor, f):
    r, o = factor.reader(), m.omatrix.reader()
    m.omatrix[:] = A_(m.omatrix._shape, lambda i: f(o(i), r(i[:2])))


class Scale(_C):
    target = PM + "scale_o_matrices"
    op = staticmethod(div)

    def setup(self, c):
        B, N, P_ = c.dim("B"), c.dim("N"), c.dim("P", lo=2)
        A, R = c.dim("A"), c.dim("R")
        return [c.arr("S12", [B, P_], positive=True), tdc(c, "1", B, P_, A, N), tdc(c, "2", B, P_, R, N)]

    def effect(self, c, S12, one, two):
        for m in (one, two):
            rescale(Fake(m), S12, self.op)


class UnScale(Scale):
    target = PM + "un_scale_o_matrices"
    op = staticmethod(mul)


def denominator(om, P_, R, b):
    a, p = ivar(fresh("a")), ivar(fresh("p"))
    return Sum([(a, R)], Prod(p, P_, om([b, p, a, a])))


class Denominator(_C):
    target = PM + "build_denominator"

    def setup(self, c):
        B, N, P_, R, X = c.dim("B"), c.dim("N"), c.dim("P", lo=2), c.dim("R"), c.dim("X")
        s = c.int("start", lo=0, hi=None)
        ENG.assume(le(add(s.p, B.p), X.p))
        return [tdc(c, "", B, P_, R, N), c.uninit("out", [X]), slice(s, s + B)]

    def effect(self, c, model, out, idx):
        m = Fake(model)
        B, P_, R, _ = m.omatrix._shape
        om = m.omatrix.reader()
        out[idx] = A_([B], lambda i: denominator(om, P_, R, i[0]))


def coupling(vib, q, N):
    """the potential between surfaces at bead p of sample b"""
    quad, lin, en = vib.quadratic.reader(), vib.linear.reader(), vib.energy.reader()

    def f(b, p, x, y):
        d, e = ivar(fresh("d")), ivar(fresh("e"))
        t2 = Sum([(d, N), (e, N)], mul(HALF, quad([d, e, x, y]), q(b, y, e, p), q(b, x, d, p)))
        t1 = Sum([(d, N)], mul(lin([d, x, y]), q(b, x, d, p)))
        return add(t2, t1, en([x, y]))
    return f


def vib_obj(c, A, N):
    sw2 = [(2, 3), ((0, 2), (1, 3))]
    return dict(quadratic=c.arr("quad", [N, N, A, A], symmetric=[(2, 3), (0, 1)]), linear=c.arr("lin", [N, A, A], symmetric=[(1, 2)]), energy=c.arr("en", [A, A], symmetric=[(0, 1)]))


class Diagonalize(_C):
    target = PM + "diagonalize_coupling_matrix"
    """requires: every surface sees the same coordinates (see transform_sampled_coordinates)"""

    def setup(self, c):
        B, N, P_, A = c.dim("B"), c.dim("N"), c.dim("P", lo=2), c.dim("A", hi=3)
        c.arr("q", [B, N, P_])
        data = Obj(pm.BoxData, qTensor=A_([B, A, N, P_], lambda i: app("q", [i[0], i[2], i[3]])), coupling_matrix=c.uninit("cm", [B, P_, A, A]),
                   coupling_eigvals=c.uninit("cv", [B, P_, A]), coupling_eigvects=c.uninit("ce", [B, P_, A, A]),
                   vib=Obj(pm.ModelVibronic, **vib_obj(c, A, N)), states=A, beads=P_, modes=N, block_size=B)
        return [data]

    def requires(self, data):
        q = data.attrs["qTensor"]
        return [("all surfaces hold the same coordinates", Forall(q._shape, lambda i: eq(q.at(i), q.at([i[0], num(0), i[2], i[3]]))))]

    def effect(self, c, data):
        d = Fake(data)
        f = coupling(d.vib, q_reader(d.qTensor), d.qTensor._shape[2])
        d.coupling_matrix[:] = A_(d.coupling_matrix._shape, lambda i: f(*i))
        w, v = NM_eigh(d.coupling_matrix.copy())
        d.coupling_eigvals, d.coupling_eigvects = w, v


def NM_eigh(a):
    from pyvc.interp import MODELS
    return MODELS[np.linalg.eigh][0](None, a) if isinstance(MODELS[np.linalg.eigh], tuple) else MODELS[np.linalg.eigh](None, a)


def exp_m(w, v, tau, A):
    """exp(-tau V) through the eigen-decomposition"""
    def f(b, p, x, y):
        d = ivar(fresh("d"))
        return Sum([(d, A)], mul(v([b, p, x, d]), fn("exp", neg(mul(tau, w([b, p, d])))), v([b, p, y, d])))
    return f


def bead_product(Mf, of, A, P_, b, p=None):
    """trace of prod_p M_p O_p (ordered)"""
    def init(xy):
        return ind(eq(xy[0], xy[1]))

    def step(k, prev, xy):
        e = ivar(fresh("e"))
        return Sum([(e, A)], mul(prev([xy[0], e]), Mf(b, k, e, xy[1]), of(b, k, xy[1])))
    a = ivar(fresh("a"))
    return Sum([(a, A)], Rec(P_, init, step, [a, a]))


class Numerator(_C):
    target = PM + "build_numerator"
    ignore = ("M_matrix", "numerator")

    def setup(self, c):
        B, N, P_, A, X = c.dim("B"), c.dim("N"), c.dim("P", lo=2), c.dim("A", hi=3), c.dim("X")
        s = c.int("start", lo=0)
        ENG.assume(le(add(s.p, B.p), X.p))
        data = Obj(pm.BoxData, coupling_eigvals=c.arr("w", [B, P_, A]), coupling_eigvects=c.arr("v", [B, P_, A, A]),
                   M_matrix=c.uninit("M", [B, P_, A, A]), numerator=c.uninit("num", [B, A, A]), size={"BAA": (B, A, A)}, states=A, beads=P_, block_size=B, modes=N)
        return [data, tdc(c, "", B, P_, A, N), c.uninit("out", [X]), slice(s, s + B)]

    def requires(self, data, vib, out, idx):
        return [("off-diagonal elements of the O matrix are zero", off_diagonal_zero(vib.attrs["omatrix"]))]

    def effect(self, c, data, vib, out, idx):
        d, m = Fake(data), Fake(vib)
        B, P_, A, _ = m.omatrix._shape
        om = m.omatrix.reader()
        Mf = exp_m(d.coupling_eigvals.reader(), d.coupling_eigvects.reader(), to_p(m.tau), A)
        of = lambda b, p, x: om([b, p, x, x])
        out[idx] = A_([B], lambda i: bead_product(Mf, of, A, P_, i[0]))
        d.numerator = ANY
        d.M_matrix = ANY


# ---------------------------------------------------------------- sampling and coordinates
class Replayed:
    """the random generator of the real code, returning the draws of the symbolic run"""
    def __init__(self, env):
        self.env, self.count = env, {"Z": 0, "U": 0, "K": 0}

    def arrays(self, kind):
        return sorted(k for k in self.env if k.startswith(f"@{kind}#"))

    def next(self, kind, shape):
        a = self.env[self.arrays(kind)[0]]
        j = self.count[kind]
        self.count[kind] += 1
        shape = tuple(np.atleast_1d(shape)) if not isinstance(shape, tuple) else shape
        if a.shape == shape:
            return a.copy()
        return a[j].copy()

    def normal(self, loc=0.0, scale=1.0, size=None):
        return loc + scale * self.next("Z", size)

    def standard_normal(self, size=None):
        return self.next("Z", size)

    def randn(self, *size):
        return self.next("Z", size)

    def random(self, size=None):
        return self.next("U", size)

    def choice(self, a, size=None, replace=True, p=None):
        return self.next("K", size)

    @contextlib.contextmanager
    def active(self):
        with contextlib.ExitStack() as st:
            for n in ("normal", "standard_normal", "randn", "random", "choice"):
                st.enter_context(mock.patch.object(np.random, n, getattr(self, n)))
            yield


class _R(_C):
    def patches(self, env):
        return Replayed(env).active()


def size_dict(X, A, N, P_, B):
    d = {"X": X, "A": A, "N": N, "P": P_, "B": B}
    keys = ['X', 'P', 'N', 'A', 'B', 'XP', 'BP', 'AN', 'NA', 'AA', 'BNP', 'BPA', 'BAA', 'XNP', 'NAA', 'NNA', 'ANP', 'BANP', 'BPAA', 'NNAA', 'BPAN']
    return {k: tuple(d[x] for x in k) for k in keys}, d, keys


def sampling_obj(c, X, R, N, P_, B):
    size, pd, keys = size_dict(X, R, N, P_, B)
    return Obj(pm.ModelSampling, size=size, param_dict=pd, size_list=list(keys), states=R, modes=N, beta=c.real("beta", positive=True), tau=c.real("tau", positive=True),
               sample_means=A_([B, N, P_], lambda i: num(0)), standard_deviation=c.arr("std", [X, N, P_], positive=True),
               sample_shift=c.arr("sshift", [X, N]), cc_samples=c.uninit("cc", [B, N, P_]),
               state_shift=c.arr("rshift", [R, N]))


class DrawSample(_R):
    target = PM + "ModelSampling.draw_sample"

    def setup(self, c):
        X, R, N, P_, B = c.dim("X", lo=8), c.dim("R"), c.dim("N"), c.dim("P", lo=3), c.dim("B")
        s = c.int("start", lo=0)
        ENG.assume(le(add(s.p, B.p), X.p))
        c.arr("Z#0", [B, N, P_])
        return [sampling_obj(c, X, R, N, P_, B), slice(s, s + B)]

    def effect(self, c, rho, view):
        r = Fake(rho)
        sd, mean_ = r.standard_deviation[view].reader(), r.sample_means.reader()
        B, N, P_ = [dim(x) for x in r.size["BNP"]]
        z = NM._draw("Z", [B, N, P_])[1].reader()
        r.cc_samples = A_([B, N, P_], lambda i: add(mean_(i), mul(sd(i), z(i))))


def run_data(c, same=True, cls=None, blocks=False, consts=True):
    """a BoxData object as preprocess leaves it (only what the run reads)"""
    cls = cls or pm.BoxData
    B, N, P_ = c.dim("B", hi=4), c.dim("N", hi=3), c.dim("P", lo=3, hi=5)
    A, R = two_states(c, same)
    if blocks:
        Kb = c.dim("K", hi=4)
        X = B * Kb
    else:
        Kb, X = None, c.dim("X", lo=8)
    rho = sampling_obj(c, X, R, N, P_, B)
    vib = Obj(pm.ModelVibronicPM if cls is pm.BoxDataPM else pm.ModelVibronic, **vib_obj(c, A, N), state_shift=c.arr("vshift", [A, N]), states=A, modes=N)
    if consts:
        zero = lambda n: A_([B, P_, n, n], lambda i: num(0))
        rho.attrs["const"] = tdc(c, "r", B, P_, R, N, zero(R))
        vib.attrs["const"] = tdc(c, "v", B, P_, A, N, zero(A))
        if cls is pm.BoxDataPM:
            vib.attrs["const_plus"] = tdc(c, "p", B, P_, A, N, zero(A))
            vib.attrs["const_minus"] = tdc(c, "m", B, P_, A, N, zero(A))
    size, pd, keys = size_dict(X, A, N, P_, B)
    data = Obj(cls, rho=rho, vib=vib, size=size, param_dict=pd, size_list=list(keys), states=A, modes=N, beads=P_, block_size=B, samples=X,
               circulant_eigvects=c.arr("cev", [P_, P_]), circulant_eigvals=c.arr("cel", [P_]),
               qTensor=c.uninit("q", [B, A, N, P_]), qTempTensor=c.uninit("qt", [B, R, N, P_]),
               coupling_matrix=c.uninit("cm", [B, P_, A, A]), coupling_eigvals=c.uninit("cv", [B, P_, A]), coupling_eigvects=c.uninit("ce", [B, P_, A, A]),
               M_matrix=c.uninit("M", [B, P_, A, A]), numerator=c.uninit("num", [B, A, A]))
    if blocks:
        data.attrs["blocks"] = Kb
    return data


class DataDraw(_R):
    target = PM + "BoxData.draw_sample"
    uses = (DrawSample,)

    def setup(self, c):
        data = run_data(c, consts=False)
        d = Fake(data)
        s = c.int("start", lo=0)
        ENG.assume(le(add(s.p, d.block_size.p), d.samples.p))
        c.arr("Z#0", [d.block_size, d.modes, d.beads])
        return [data, slice(s, s + d.block_size)]

    def effect(self, c, data, view):
        DrawSample().effect(None, data.attrs["rho"], view)


def physical(ev, cc, shift, P_):
    """configuration of a sample: bead coordinates from normal mode samples plus the displacement of its oscillator"""
    def f(b, n, p, s):
        j = ivar(fresh("j"))
        return add(Sum([(j, P_)], mul(ev([p, j]), cc([b, n, j]))), shift([s, n]))
    return f


class Transform(_C):
    target = PM + "BoxData.transform_sampled_coordinates"

    def setup(self, c):
        data = run_data(c, same=False, consts=False)
        d = Fake(data)
        s = c.int("start", lo=0)
        ENG.assume(le(add(s.p, d.block_size.p), d.samples.p))
        return [data, slice(s, s + d.block_size)]

    def effect(self, c, data, view):
        d = Fake(data)
        P_ = d.qTensor._shape[3]
        st = to_p(view.start)
        f = physical(d.circulant_eigvects.reader(), d.rho.cc_samples.reader(), d.rho.sample_shift.reader(), P_)
        B, _, N, _ = d.qTensor._shape
        r = named("R", [B, N, P_], lambda i: f(i[0], i[1], i[2], add(st, i[0]))).reader()
        for q in (d.qTensor, d.qTempTensor):
            q[:] = A_(q._shape, lambda i: r([i[0], i[2], i[3]]))


class TransformSame(Transform):
    name = "BoxData.transform_sampled_coordinates (same number of surfaces)"

    def setup(self, c):
        data = run_data(c, same=True, consts=False)
        d = Fake(data)
        s = c.int("start", lo=0)
        ENG.assume(le(add(s.p, d.block_size.p), d.samples.p))
        return [data, slice(s, s + d.block_size)]


class RandomR(_R):
    target = PM + "BoxData.generate_random_R_values"

    def setup(self, c):
        data = run_data(c, same=True, consts=False)
        d = Fake(data)
        s = c.int("start", lo=0)
        ENG.assume(le(add(s.p, d.block_size.p), d.samples.p))
        c.arr("U#0", [d.block_size, d.modes, d.beads])
        return [data, None, c.uninit("store", [d.samples, d.modes, d.beads]), slice(s, s + d.block_size)]

    def effect(self, c, data, result, store, view):
        d = Fake(data)
        B, A, N, P_ = d.qTensor._shape
        u = NM._draw("U", [B, N, P_])[1]
        store[view] = u
        r = u.reader()
        d.qTensor[:] = A_([B, A, N, P_], lambda i: r([i[0], i[2], i[3]]))


# ---------------------------------------------------------------- results
PATH = "<path of the result file>"


class PathOf(_C):
    """assumed here; its own check is the end-to-end oracle"""
    target = PM + "BoxResult.compute_path_to_file"

    def effect(self, c, result):
        return PATH


def result_obj(c, cls, X):
    o = Obj(cls, samples=X, hash_vib="hash of the coupled model", hash_rho="hash of the sampling model", id_job=None,
            scaled_g=c.uninit("yg", [X]), scaled_rho=c.uninit("yrho", [X]))
    if cls is pm.BoxResultPM:
        o.attrs["scaled_gofr_plus"] = c.uninit("ygp", [X])
        o.attrs["scaled_gofr_minus"] = c.uninit("ygm", [X])
    return o


class SaveResults(_C):
    target = PM + "BoxResult.save_results"
    uses = (PathOf,)
    cls = pm.BoxResult
    replayable = False
    keys = {"s_rho": "scaled_rho", "s_g": "scaled_g"}

    def setup(self, c):
        X = c.dim("X")
        return [result_obj(c, self.cls, X), X]

    def effect(self, c, result, n):
        r = Fake(result)
        rec = dict(hash_vib=r.hash_vib, hash_rho=r.hash_rho, number_of_samples=r.samples, **{k: getattr(r, v).copy() for k, v in self.keys.items()})
        ENG.ghost = dict(ENG.ghost, saved=ENG.ghost.get("saved", ()) + ((PATH, rec),))


class SaveResultsPM(SaveResults):
    target = PM + "BoxResultPM.save_results"
    cls = pm.BoxResultPM
    keys = {"s_rho": "scaled_rho", "s_g": "scaled_g", "s_gP": "scaled_gofr_plus", "s_gM": "scaled_gofr_minus"}


# ---------------------------------------------------------------- whole runs
def blocked(K_, B, f):
    a = A_([K_, B], lambda i: f(i[0], i[1]))
    a.buf.remainder = {1: dim(B)}
    return a


def draw_config(d, name="Z#0"):
    """(k, b) -> coordinates R(n, p) of sample k*B+b from its own draws"""
    B, N, P_ = dim(d.block_size), dim(d.modes), dim(d.beads)
    ev, sd, mean_, sh = d.circulant_eigvects.reader(), d.rho.standard_deviation.reader(), d.rho.sample_means.reader(), d.rho.sample_shift.reader()

    def R0(k, b, n, p):
        s = add(mul(k, B), b)
        j = ivar(fresh("j"))
        return add(Sum([(j, P_)], mul(ev([p, j]), add(mean_([b, n, j]), mul(sd([s, n, j]), app(name, [k, b, n, j]))))), sh([s, n]))
    memo = {}

    def R(k, b, n, p):
        if k not in memo:
            memo[k] = named("R", [B, N, P_], lambda i: R0(k, *i)).reader()
        return memo[k]([b, n, p])
    return R


class M0:
    """constants of one model at one time step, without the sample axis"""
    def __init__(self, m):
        self.cothBANP, self.cschBANP, self.omatrix_prefactor, self.tau = m.cothBANP.copy(), m.cschBANP.copy(), m.omatrix_prefactor.copy(), to_p(m.tau)


def spec_D(d, R):
    """sampling weight of a configuration"""
    m, sh, P_, n, B = M0(d.rho.const), d.rho.state_shift.copy(), dim(d.beads), dim(d.rho.states), dim(d.block_size)

    def f(k, b):
        a, p = ivar(fresh("a")), ivar(fresh("p"))
        q = lambda b_, a_, n_, p_: R(k, b_, n_, p_)
        o = named("O", [B, P_, n], lambda i: o_term(m, sh, q, i[0], i[1], i[2], P_)).reader()
        return Sum([(a, n)], Prod(p, P_, o([b, p, a])))
    return f


def spec_G(d, m, R):
    """trace of the ordered bead product at the time step of the constants m"""
    vib, sh, P_, A, N, B = d.vib, d.vib.state_shift.copy(), dim(d.beads), dim(d.states), dim(d.modes), dim(d.block_size)
    m = M0(m)

    def f(k, b):
        q = lambda b_, a_, n_, p_: R(k, b_, n_, p_)
        cf = coupling(vib, q, N)
        W = A_([B, P_, A, A], lambda i: cf(*i))
        w, v = NM_eigh(W)
        Mf = exp_m(w.reader(), v.reader(), m.tau, A)
        o = named("O", [B, P_, A], lambda i: o_term(m, sh, q, i[0], i[1], i[2], P_)).reader()
        of = lambda b_, p_, x: o([b_, p_, x])
        return bead_product(Mf, of, A, P_, b)
    return f


SCRATCH = ("qTensor", "qTempTensor", "coupling_matrix", "coupling_eigvals", "coupling_eigvects", "M_matrix", "numerator", "cc_samples", "omatrix", "omatrix_scaling",
           "scaled_g", "scaled_rho", "scaled_gofr_plus", "scaled_gofr_minus")
STEPS = (BuildO, Scaling, Scale, Denominator, Diagonalize, Numerator, DrawSample, DataDraw, Transform, SaveResults, SaveResultsPM)


class BlockCompute(_R):
    """ratio of stored numerator and denominator, and what is saved"""
    target = PM + "block_compute"
    name = "block_compute"
    uses = STEPS
    ignore = SCRATCH
    same = True
    data_cls, result_cls = pm.BoxData, pm.BoxResult

    def setup(self, c):
        data = run_data(c, self.same, self.data_cls, blocks=True)
        d = Fake(data)
        c.arr("Z#0", [d.blocks, d.block_size, d.modes, d.beads])
        return [data, result_obj(c, self.result_cls, d.samples)]

    def observe(self, data, result):
        """what the result file holds, as ratios"""
        d = Fake(data)
        B, K_ = dim(d.block_size), dim(d.blocks)
        if not ENG.ghost.get("saved"):
            return {"saved": False}
        rec = ENG.ghost["saved"][-1][1]
        at = lambda a: (lambda r_: lambda k, b: r_([add(mul(k, B), b)]))(core.asarr(a).reader())
        rho = at(rec["s_rho"])
        out = {n: blocked(K_, B, (lambda f: lambda k, b: div(f(k, b), rho(k, b)))(at(rec[n]))) for n in ("s_g", "s_gP", "s_gM") if n in rec}
        return dict(out, samples=rec["number_of_samples"], length=mkS(core.asarr(rec["s_rho"])._shape[0]))

    def invoke_symbolic(self, I, args):
        I.call(self.function(), args)
        return self.observe(*args)

    def effect(self, c, data, result):
        d = Fake(data)
        R = draw_config(d)
        D = spec_D(d, R)
        K_, B = dim(d.blocks), dim(d.block_size)
        out = {"samples": d.samples, "length": d.samples}
        for n, m, nm in (("s_g", "const", "scaled_g"), ("s_gP", "const_plus", "scaled_gofr_plus"), ("s_gM", "const_minus", "scaled_gofr_minus")):
            if nm in result.attrs:
                G = spec_G(d, getattr(d.vib, m), R)
                out[n] = blocked(K_, B, (lambda G: lambda k, b: div(G(k, b), D(k, b)))(G))
        return out

    def invoke_real(self, args):
        data, result = args
        rec = run_saved(self.function(), data, result)
        out = {n: (rec[n] / rec["s_rho"]).reshape(data.blocks, data.block_size) for n in ("s_g", "s_gP", "s_gM") if n in rec}
        return dict(out, samples=rec["number_of_samples"], length=len(rec["s_rho"]))


def run_saved(f, *args):
    """run the real code and return what it hands to numpy.savez"""
    got = []
    with mock.patch.object(np, "savez", lambda path, **kw: got.append({k: np.array(v) for k, v in kw.items()})), \
            mock.patch.object(pm.BoxResult, "compute_path_to_file", lambda self: "unused"):
        f(*args)
    out = {}
    for g in got:
        out.update(g)
    return out


class BlockComputeOwn(BlockCompute):
    name = "block_compute (sampling model with its own number of surfaces)"
    same = False


class BlockComputePM(BlockCompute):
    target = PM + "block_compute_pm"
    name = "block_compute_pm"
    data_cls, result_cls = pm.BoxDataPM, pm.BoxResultPM


class BlockComputePMOwn(BlockComputePM):
    name = "block_compute_pm (sampling model with its own number of surfaces)"
    same = False


class BlockComputeGR(BlockCompute):
    """g(R) alone is stored without any rescaling"""
    target = PM + "block_compute_gR"
    name = "block_compute_gR"

    def observe(self, data, result):
        d = Fake(data)
        B, K_ = dim(d.block_size), dim(d.blocks)
        rd = ENG.ghost["saved"][-1][1]["s_g"].reader() if ENG.ghost.get("saved") else (lambda i: app("nothing saved", i))
        return blocked(K_, B, lambda k, b: rd([add(mul(k, B), b)]))

    def effect(self, c, data, result):
        d = Fake(data)
        return blocked(d.blocks, d.block_size, spec_G(d, d.vib.const, draw_config(d)))

    def invoke_real(self, args):
        data, result = args
        return run_saved(self.function(), data, result)["s_g"].reshape(data.blocks, data.block_size)


class SaveGR(_C):
    """the training set: configurations and values of g, each under its own file name"""
    target = PM + "save_gR_with_samples"
    uses = (PathOf,)
    ignore = ("partial_name",)
    replayable = False

    def setup(self, c):
        data = run_data(c, True, pm.BoxData, blocks=True)
        d = Fake(data)
        data.attrs["temperature"] = 300.0
        return [data, result_obj(c, pm.BoxResult, d.samples), c.arr("values", [d.samples, d.modes, d.beads])]

    def effect(self, c, data, result, values):
        n = result.attrs["samples"]
        recs = ((PATH, {"number_of_samples": n, "g": result.attrs["scaled_g"].copy()}), (PATH, {"number_of_samples": n, "input_R_values": values.copy()}))
        ENG.ghost = dict(ENG.ghost, saved=ENG.ghost.get("saved", ()) + recs)
        result.attrs["partial_name"] = ANY


class GRRaw(BlockComputeGR):
    """g of uniformly generated configurations, stored together with those configurations"""
    target = PM + "block_compute_gR_from_raw_samples"
    name = "block_compute_gR_from_raw_samples"
    uses = STEPS + (RandomR, SaveGR)

    def setup(self, c):
        data = run_data(c, self.same, self.data_cls, blocks=True)
        d = Fake(data)
        c.arr("U#0", [d.blocks, d.block_size, d.modes, d.beads])
        return [data, result_obj(c, self.result_cls, d.samples)]

    def invoke_symbolic(self, I, args):
        I.call(self.function(), args)
        d = Fake(args[0])
        B, K_, N, P_ = [dim(x) for x in (d.block_size, d.blocks, d.modes, d.beads)]
        rec = {}
        for _, r_ in ENG.ghost.get("saved", ()):
            rec.update(r_)
        g, x = rec["g"].reader(), rec["input_R_values"].reader()
        conf = A_([K_, B, N, P_], lambda i: x([add(mul(i[0], B), i[1]), i[2], i[3]]))
        conf.buf.remainder = {1: B}
        return {"g": blocked(K_, B, lambda k, b: g([add(mul(k, B), b)])), "R": conf, "n": rec["number_of_samples"]}

    def effect(self, c, data, result):
        d = Fake(data)
        B, K_, N, P_ = [dim(x) for x in (d.block_size, d.blocks, d.modes, d.beads)]
        conf = A_([K_, B, N, P_], lambda i: app("U#0", i))
        conf.buf.remainder = {1: B}
        return {"g": blocked(K_, B, spec_G(d, d.vib.const, lambda k, b, n, p: app("U#0", [k, b, n, p]))), "R": conf, "n": result.attrs["samples"]}

    def invoke_real(self, args):
        data, result = args
        data.temperature = 300.0
        got = run_saved(self.function(), data, result)
        return {"g": got["g"].reshape(data.blocks, -1), "R": got["input_R_values"].reshape(data.blocks, data.block_size, data.modes, data.beads), "n": int(got["number_of_samples"])}


class RhoR(_C):
    """rho of given configurations"""
    target = PM + "block_compute_rhoR_from_input_samples"
    name = "block_compute_rhoR_from_input_samples"
    uses = STEPS
    ignore = SCRATCH
    same = True

    def setup(self, c):
        data = run_data(c, self.same, pm.BoxData, blocks=True)
        d = Fake(data)
        return [data, result_obj(c, pm.BoxResult, d.samples), c.arr("input", [d.samples, d.modes, d.beads])]

    def invoke_symbolic(self, I, args):
        I.call(self.function(), args)
        d, r = Fake(args[0]), Fake(args[1])
        B, K_ = dim(d.block_size), dim(d.blocks)
        rd = r.scaled_rho.reader()
        return blocked(K_, B, lambda k, b: rd([add(mul(k, B), b)]))

    def effect(self, c, data, result, values):
        d = Fake(data)
        B = dim(d.block_size)
        x = values.reader()
        return blocked(d.blocks, B, spec_D(d, lambda k, b, n, p: x([add(mul(k, B), b), n, p])))

    def invoke_real(self, args):
        self.function()(*args)
        return args[1].scaled_rho.reshape(args[0].blocks, -1)


class RhoROwn(RhoR):
    name = "block_compute_rhoR_from_input_samples (sampling model with its own number of surfaces)"
    same = False
