"""Contracts of the preparation of a whole run (BoxData.preprocess): the constants of the requested temperature and
number of beads reach both models, and the collective coordinates are those of the ring of beads"""
from .prep_contracts import *
from .prep_contracts import _C
from .stats_contracts import Beta, kb
import pibronic.vibronic.vibronic_model_io as vIO
from pibronic.vibronic import VMK

VIB, RHO = "/vp/vib.json", "/vp/rho.json"
FIELDS = (("E", "energy"), ("w", "omega"), ("G1", "linear"), ("G2", "quadratic"))


class Preprocess(_C):
    target = PM + "BoxData.preprocess"
    uses = (Beta, Prepare, PrepareSampling)
    cls, vib_cls = pm.BoxData, pm.ModelVibronic
    ignore = ("energy", "cc_samples", "inverse_covariance", "coupling_eigvals", "coupling_eigvects", "M_matrix")
    replayable = False          # the end-to-end oracle prepares runs from real model files
    same = True

    def setup(self, c):
        X, A, R, N, P_, B = model_sizes(c, self.same)
        T_ = c.real("T", positive=True)
        self.d = X, A, R, N, P_, B
        self.stored = {VIB: dict(E=c.arr("E", [A, A], symmetric=[(0, 1)]), w=c.arr("omega", [N], positive=True),
                                 G1=c.arr("lin", [N, A, A], symmetric=[(1, 2)]), G2=c.arr("quad", [N, N, A, A], symmetric=[(2, 3), (0, 1)])),
                       RHO: dict(E=c.arr("rE", [R]), w=c.arr("romega", [N], positive=True), G1=c.arr("rlin", [N, R]), G2=c.arr("rquad", [N, N, R]))}
        self.ring = c.arr("cel", [P_]), c.arr("cev", [P_, P_])
        T.INTAPP.add("K#0")
        c.arr("K#0", [X], dtype="i8")
        more = {"delta_beta": c.real("dB", positive=True)} if self.cls is pm.BoxDataPM else {}
        return [Obj(self.cls, samples=X, states=A, modes=N, beads=P_, block_size=B, temperature=T_, path_vib_model=VIB, path_rho_model=RHO, **more)]

    # the models are read from their files by contract (C07)
    def loaded(self, path, kwargs):
        X, A, R, N, P_, B = self.d
        want = VIB if kwargs["coupled"] else RHO
        if path != want:
            raise Failure("the model is read from its own file", f"{path!r} instead of {want!r}")
        d = kwargs["d"]
        if d is None:
            d = {VMK.A: A if want == VIB else R, VMK.N: N}
            d.update({VMK[k]: v.copy() for k, v in self.stored[want].items()})
            ENG.track.append(d)
            return d
        for k, v in self.stored[want].items():
            if VMK[k] not in d:
                continue
            t = d[VMK[k]]
            if len(t._shape) != len(v._shape) or not all(same(x, y) for x, y in zip(t._shape, v._shape)):
                raise Failure("a model is read into arrays of its dimensions", k)
            t[:] = v
        return None

    def overrides(self, c):
        def load(coupled):
            def f(I, args, kwargs):
                a = list(args) + [kwargs[k] for k in ("path", "kwargs", "dictionary") if k in kwargs]
                return self.loaded(a[0], {"coupled": coupled, "d": a[1] if len(a) > 1 else None})
            return f

        def dims(I, args, kwargs):
            p = (list(args) + list(kwargs.values()))
            if RHO not in p:
                raise Failure("the model is read from its own file", repr(p))
            return self.d[2], self.d[3]

        def eigh(I, args, kwargs):
            a = args[0]
            P_ = dim(self.d[4])
            if not isinstance(a, Arr) or len(a._shape) != 2 or not all(same(x, P_) for x in a._shape):
                raise Unsupported("eigen-decomposition of something else")
            i, j = ivar(fresh("i")), ivar(fresh("j"))
            hy = list(ENG.hyps) + PV.ranges_of([i, j], [P_, P_])
            last = sub(P_, num(1))
            near = b_or(eq(sub(i, j), num(1)), eq(sub(j, i), num(1)), eq(sub(i, j), last), eq(sub(j, i), last))
            v = PV.prove_eq(a.at([i, j]), ind(near), hy)
            if not v:
                raise Failure("the collective coordinates are those of the ring of beads", v.detail)
            ENG.obligations.append(Obligation("requires[numpy.linalg.eigh] the ring of beads", "proved", v.backend, v.detail, hy, 0.))
            return tuple(x.copy() for x in self.ring)
        return {vIO.load_model_from_JSON: load(True), vIO.load_diagonal_model_from_JSON: load(False),
                vIO.extract_dimensions_of_diagonal_model: dims, np.linalg.eigh: eigh}

    def effect(self, c, data):
        d = Fake(data)
        X, A, R, N, P_, B = self.d
        z = lambda *s: A_(s, lambda i: num(0))
        d.size, d.param_dict, d.size_list = size_dict(X, A, N, P_, B)
        d.beta = 1 / (kb() * d.temperature)
        d.tau = d.beta / P_
        d.qTensor, d.coupling_matrix, d.numerator = z(B, A, N, P_), z(B, P_, A, A), z(B, A, A)
        d.coupling_eigvals = d.coupling_eigvects = d.M_matrix = d.circulant_matrix = ANY
        d.circulant_eigvals, d.circulant_eigvects = [x.copy() for x in self.ring]
        s = {k: v.copy() for k, v in self.stored[VIB].items()}
        more = {"delta_beta": d.delta_beta} if self.cls is pm.BoxDataPM else {}
        vib = Obj(self.vib_cls, size=d.size, states=A, modes=N, state_range=ANY, mode_range=ANY, beta=d.beta, tau=d.tau,
                  delta_weight=z(A), state_shift=z(A, N), **{n: s[k] for k, n in FIELDS}, **more)
        (PreparePM if more else Prepare)().effect(c, vib, data)
        d.vib = vib
        s = {k: v.copy() for k, v in self.stored[RHO].items()}
        size, pd, keys = size_dict(X, R, N, P_, B)
        rho = Obj(pm.ModelSampling, size=size, param_dict=pd, size_list=keys, states=R, modes=N, beta=d.beta, tau=d.tau,
                  delta_weight=z(R), state_weight=z(R), state_shift=z(R, N), cc_samples=ANY, **{n: s[k] for k, n in FIELDS})
        PrepareSampling().effect(c, rho, data)
        d.rho = rho
        d.qTempTensor = z(B, R, N, P_)
        if more:
            d.beta_plus, d.beta_minus = d.beta + d.delta_beta, d.beta - d.delta_beta
            d.tau_plus, d.tau_minus = d.beta_plus / P_, d.beta_minus / P_


class PreprocessOther(Preprocess):
    name = "BoxData.preprocess (other number of sampling surfaces)"
    same = False


class PreprocessPM(Preprocess):
    target = PM + "BoxDataPM.preprocess"
    uses = (Beta, PreparePM, PrepareSampling)
    cls, vib_cls = pm.BoxDataPM, pm.ModelVibronicPM
