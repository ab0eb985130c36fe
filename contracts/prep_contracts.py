"""Contracts of the preparation of models (pibronic/pimc/pimc.py)"""
from .pimc_contracts import *
from .pimc_contracts import _C, _R


def model_sizes(c, same=True):
    X, N, P_, B = c.dim("X", hi=6), c.dim("N", hi=3), c.dim("P", lo=3, hi=5), c.dim("B", hi=3)
    A, R = two_states(c, same)
    return X, A, R, N, P_, B


def coupled_model(c, cls, X, A, N, P_, B, **more):
    size, pd, keys = size_dict(X, A, N, P_, B)
    z = lambda *s: A_(s, lambda i: num(0))
    return Obj(cls, size=size, states=A, modes=N, state_range=IN_range(A), mode_range=IN_range(N), beta=c.real("beta", positive=True), tau=c.real("tau", positive=True),
               omega=c.arr("omega", [N], positive=True), energy=c.arr("E", [A, A], symmetric=[(0, 1)]),
               linear=c.arr("lin", [N, A, A], symmetric=[(1, 2)]), quadratic=c.arr("quad", [N, N, A, A], symmetric=[(2, 3), (0, 1)]),
               delta_weight=z(A), state_shift=z(A, N), **more)


def IN_range(n):
    return core.SRange(0, n, 1)


def sampling_model(c, X, R, N, P_, B):
    size, pd, keys = size_dict(X, R, N, P_, B)
    z = lambda *s: A_(s, lambda i: num(0))
    return Obj(pm.ModelSampling, size=size, param_dict=pd, size_list=list(keys), states=R, modes=N, beta=c.real("beta", positive=True), tau=c.real("tau", positive=True),
               omega=c.arr("romega", [N], positive=True), energy=c.arr("rE", [R]),
               linear=c.arr("rlin", [N, R]), quadratic=c.arr("rquad", [N, N, R]),
               delta_weight=z(R), state_weight=z(R), state_shift=z(R, N), cc_samples=z(B, N, P_))


def fill_constants(o, model, tau):
    """the bead propagator constants of a model at one time step (hbar = 1)"""
    m = Fake(model)
    B, P_, A, N = [dim(x) for x in m.size["BPAN"]]
    w, dl = m.omega.reader(), m.delta_weight.reader()
    t = to_p(tau)
    en = m.energy.reader()
    diag = (lambda a: en([a, a])) if len(m.energy._shape) == 2 else (lambda a: en([a]))
    coth = lambda n: div(fn("cosh", mul(t, w([n]))), fn("sinh", mul(t, w([n])))) if COSH else div(num(1), fn("tanh", mul(t, w([n]))))
    csch = lambda n: div(num(1), fn("sinh", mul(t, w([n]))))
    o.attrs.update(
        tau=tau,
        cothAN=A_([A, N], lambda i: coth(i[1])), cschAN=A_([A, N], lambda i: csch(i[1])),
        cothANP=A_([A, N, 1], lambda i: coth(i[1])), cschANP=A_([A, N, 1], lambda i: csch(i[1])),
        cothBANP=A_([1, A, N, 1], lambda i: coth(i[2])), cschBANP=A_([1, A, N, 1], lambda i: csch(i[2])),
        omatrix_prefactor=A_([B, P_, A], lambda i: prefactor(diag, dl, csch, t, N, i[2])),
        omatrix=A_([B, P_, A, A], lambda i: num(0)), omatrix_scaling=ANY)


COSH = False


def prefactor(diag, dl, csch, t, N, a):
    n = ivar(fresh("n"))
    return mul(fn("exp", neg(mul(t, add(diag(a), dl([a]))))), T.power(Prod(n, N, csch(n)), Fraction(1, 2)))


class Constants(_C):
    target = PM + "TemperatureDependentClass.__init__"
    name = "TemperatureDependentClass (coupled model)"
    coupled = True

    def setup(self, c):
        X, A, R, N, P_, B = model_sizes(c)
        m = coupled_model(c, pm.ModelVibronic, X, A, N, P_, B) if self.coupled else sampling_model(c, X, R, N, P_, B)
        m.attrs["delta_weight"] = c.arr("delta", [A])
        return [Obj(pm.TemperatureDependentClass), m, c.real("t", positive=True)]

    def effect(self, c, o, model, tau):
        fill_constants(o, model, tau)


class ConstantsDiag(Constants):
    name = "TemperatureDependentClass (sampling model)"
    coupled = False


def displacement_energy(lin, w, N, a):
    n = ivar(fresh("n"))
    return mul(num(Fraction(-1, 2)), Sum([(n, N)], div(mul(lin(n, a), lin(n, a)), w([n]))))


class Prepare(_C):
    """precompute of a coupled model"""
    target = PM + "ModelVibronic.precompute"
    uses = (Constants,)
    cls = pm.ModelVibronic

    def setup(self, c):
        X, A, R, N, P_, B = model_sizes(c)
        more = {"delta_beta": c.real("dB", positive=True)} if self.cls is pm.ModelVibronicPM else {}
        m = coupled_model(c, self.cls, X, A, N, P_, B, **more)
        return [m, Obj(pm.BoxData, states=A, modes=N, beads=P_, block_size=B, samples=X)]

    def effect(self, c, model, data):
        m = Fake(model)
        N, A, _ = m.linear._shape
        lin, w, en = m.linear.reader(), m.omega.reader(), m.energy.reader()
        diag = lambda n, a: lin([n, a, a])
        if self.cls is pm.ModelVibronicPM:
            m.beta_plus, m.beta_minus = m.beta + m.delta_beta, m.beta - m.delta_beta
            m.tau_plus, m.tau_minus = m.beta_plus / data.attrs["beads"], m.beta_minus / data.attrs["beads"]
        m.delta_weight[:] = A_([A], lambda i: displacement_energy(diag, w, N, i[0]))
        for nm, tn in (("const", "tau"), ("const_plus", "tau_plus"), ("const_minus", "tau_minus")):
            if nm == "const" or self.cls is pm.ModelVibronicPM:
                o = Obj(pm.TemperatureDependentClass)
                fill_constants(o, model, model.attrs[tn])
                model.attrs[nm] = o
        m.state_shift[:] = A_([A, N], lambda i: neg(div(diag(i[1], i[0]), w([i[1]]))))
        off = lambda x, y, v: mul(ind(b_not(eq(x, y))), v)
        m.linear[:] = A_([N, A, A], lambda i: sub(lin(i), mul(ind(eq(i[1], i[2])), lin(i))))
        m.energy[:] = A_([A, A], lambda i: sub(en(i), mul(ind(eq(i[0], i[1])), en(i))))


class PreparePM(Prepare):
    target = PM + "ModelVibronicPM.precompute"
    cls = pm.ModelVibronicPM


class Weights(_C):
    target = PM + "ModelSampling.compute_weight_for_each_state"

    def setup(self, c):
        X, A, R, N, P_, B = model_sizes(c)
        m = sampling_model(c, X, R, N, P_, B)
        m.attrs["delta_weight"] = c.arr("delta", [R])
        return [m]

    def effect(self, c, model):
        m = Fake(model)
        model.attrs["state_weight"] = weights(m, m.delta_weight.reader())


def weights(m, dl):
    """oscillator a is chosen proportionally to its partition function exp(-beta(E_a + delta_a)) / prod 2 sinh(beta omega / 2),
    the product being common to all"""
    R = m.energy._shape[0]
    en, b = m.energy.reader(), to_p(m.beta)
    x = lambda a: fn("exp", neg(mul(b, add(en([a]), dl([a])))))
    s = ivar(fresh("s"))
    tot = Sum([(s, R)], x(s))
    return A_([R], lambda i: div(x(i[0]), tot))


class PrepareSampling(_R):
    """precompute of a sampling model"""
    target = PM + "ModelSampling.precompute"
    uses = (ConstantsDiag, Weights)
    ignore = ("energy", "cc_samples", "inverse_covariance")

    def setup(self, c):
        X, A, R, N, P_, B = model_sizes(c)
        m = sampling_model(c, X, R, N, P_, B)
        T.INTAPP.add("K#0")
        c.arr("K#0", [X], dtype="i8", gen=lambda rng, env, shape: np.array([rng.randrange(env["R"] if "R" in env else env["A"]) for _ in range(shape[0])]))
        x = ivar(fresh("x"))
        return [m, Obj(pm.BoxData, states=A, modes=N, beads=P_, block_size=B, samples=X, circulant_eigvals=c.arr("cel", [P_]))]

    def effect(self, c, model, data):
        m = Fake(model)
        N, R = m.linear._shape
        lin, w = m.linear.copy().reader(), m.omega.reader()
        diag = lambda n, a: lin([n, a])
        delta = A_([R], lambda i: displacement_energy(diag, w, N, i[0]))
        model.attrs["delta_weight"] = delta
        model.attrs["state_weight"] = sw = weights(m, delta.reader())
        o = Obj(pm.TemperatureDependentClass)
        fill_constants(o, model, m.tau)
        m.const = o
        m.state_shift[:] = A_([R, N], lambda i: neg(div(diag(i[1], i[0]), w([i[1]]))))
        m.linear[:] = A_([N, R], lambda i: num(0))
        B, N_, P_ = [dim(x) for x in m.size["BNP"]]
        X = dim(m.size["X"][0])
        nm, src = NM._draw("K", [X], "i8")
        ENG.ghost = dict(ENG.ghost, choices=ENG.ghost.get("choices", ()) + ((nm, R, sw, True),))
        T.BOUNDS[nm] = (num(0), to_p(R))
        k, sh, ev = src.reader(), m.state_shift.copy().reader(), data.attrs["circulant_eigvals"].reader()
        co, cs = o.attrs["cothAN"].reader(), o.attrs["cschAN"].reader()
        m.sample_sources = src
        m.sample_shift = A_([X, N], lambda i: sh([k([i[0]]), i[1]]))
        m.standard_deviation = A_([X, N, P_], lambda i: T.power(sub(mul(num(2), co([k([i[0]]), i[1]])), mul(cs([k([i[0]]), i[1]]), ev([i[2]]))), Fraction(-1, 2)))
        m.sample_means = A_([B, N, P_], lambda i: num(0))
