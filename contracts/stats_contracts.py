"""Contracts of pibronic/stats (and the temperature conversions in constants.py)."""
from pyvc.contract import *
from pyvc.contract import Contract as _C
from pyvc import core
import numpy as np
import pibronic.constants as K

ST = "pibronic.stats.stats:"
JK = "pibronic.stats.jackknife:"


def mean(a):
    return core.asarr(a).mean()


def sq(x):
    return x * x


def sqrt(x):
    return S(fn("sqrt", to_p(x)))


def kb():
    return S(num(float(K.boltzman)))


class Beta(_C):
    target = "pibronic.constants:beta"

    def setup(self, c):
        return [c.real("T", positive=True, gen=lambda r, e: r.uniform(5., 900.))]

    def effect(self, c, T_):
        return 1 / (kb() * T_)


class TfromBeta(_C):
    target = "pibronic.constants:extract_T_from_beta"

    def setup(self, c):
        return [c.real("b", positive=True, gen=lambda r, e: r.uniform(5., 900.))]

    def effect(self, c, b):
        return 1 / (kb() * b)


class RoundTrip(_C):
    """lemma over the two contracts: T -> beta -> T is the identity"""
    target = "pibronic.constants:extract_T_from_beta"
    name = "lemma extract_T_from_beta(beta(T)) == T"
    uses = (Beta, TfromBeta)

    def setup(self, c):
        return [c.real("T", positive=True, gen=lambda r, e: r.uniform(5., 900.))]

    def effect(self, c, T_):
        return T_

    def invoke_symbolic(self, I, args):
        return I.call(resolve(self.target), [I.call(resolve("pibronic.constants:beta"), args)])

    def invoke_real(self, args):
        return resolve(self.target)(resolve("pibronic.constants:beta")(*args))


def basic_terms(dB, rho, g, gp, gm):
    return [g / rho, (gp - gm) / rho / (2 * dB), (gp - 2 * g + gm) / rho / (dB * dB)]


class BasicTerms(_C):
    target = ST + "calculate_basic_property_terms"

    def setup(self, c):
        X = c.dim("X")
        return [c.real("dB", positive=True)] + [c.arr(n, [X], positive=(n == "rho")) for n in ("rho", "g", "gp", "gm")]

    def effect(self, c, *a):
        return basic_terms(*a)

    def at_call(self, I, args, kwargs):
        I.contracts_used.add(self.label())
        return self.effect(None, *args)


def alpha_terms(dB, rho, g, gp, gm, ap, am):
    r, rp, rm = g / rho, gp / rho, gm / rho
    d1 = (mean(rp) * mean(ap) - mean(rm) * mean(am)) / (2 * dB)
    d2 = (mean(rp) * mean(ap) - 2 * mean(r) + mean(rm) * mean(am)) / (dB * dB)
    return [r, d1, d2, rp, ap, rm, am]


class AlphaTerms(BasicTerms):
    target = ST + "calculate_alpha_terms"

    def setup(self, c):
        return BasicTerms.setup(self, c) + [c.real("alpha_plus"), c.real("alpha_minus")]

    def effect(self, c, *a):
        return alpha_terms(*a)


class EstZ(_C):
    target = ST + "basic_estimate_Z_monte_carlo"

    def setup(self, c):
        X = c.dim("X", lo=2)
        return [c.arr("r", [X]), X]

    def effect(self, c, r, X):
        r = core.asarr(r)
        return mean(r), r.std() / sqrt(X - 1)


class EstE(_C):
    target = ST + "basic_estimate_internal_energy"

    def setup(self, c):
        X = c.dim("X", lo=2)
        return [c.arr("s1", [X]), c.real("Z", positive=True)]

    def effect(self, c, s1, Z):
        return -mean(s1) / Z, 0.0


class EstC(_C):
    target = ST + "basic_estimate_heat_capacity"

    def setup(self, c):
        X = c.dim("X", lo=2)
        return [c.arr("s2", [X]), c.real("Z", positive=True), c.real("E"), c.real("T", positive=True)]

    def effect(self, c, s2, Z, E, T_):
        return (mean(s2) / Z - sq(E)) / (kb() * sq(T_)), 0.0


def basic_properties(X, T_, r, s1, s2):
    r = core.asarr(r)
    Z = mean(r)
    E = -mean(s1) / Z
    Cv = (mean(s2) / Z - sq(E)) / (kb() * sq(T_))
    return {"Z": Z, "Z error": r.std() / sqrt(X - 1), "E": E, "E error": 0.0, "Cv": Cv, "Cv error": 0.0}


class EstAll(BasicTerms):
    target = ST + "estimate_basic_properties"
    uses = (EstZ, EstE, EstC)

    def setup(self, c):
        X = c.dim("X", lo=2)
        return [X, c.real("T", positive=True), c.arr("r", [X], positive=True), c.arr("s1", [X]), c.arr("s2", [X])]

    def effect(self, c, *a):
        return basic_properties(*a)


class AddHarmonic(_C):
    target = ST + "add_harmonic_contribution"

    def setup(self, c):
        d = {"Z": c.real("Z"), "E": c.real("E"), "Cv": c.real("Cv"), "E error": c.real("Ee"), "Cv error": c.real("Ce")}
        ENG.track.append(d)
        return [d, c.real("E0"), c.real("C0")]

    def effect(self, c, d, E0, C0):
        d["E"] = d["E"] + E0
        d["Cv"] = d["Cv"] + C0


# ---------------------------------------------------------------- whole analyses
class Analysis(_C):
    lo = 2
    alpha = False

    def setup(self, c):
        from pibronic.pimc import BoxResultPM
        X = c.dim("X", lo=self.lo)
        pr = c.obj(BoxResultPM, samples=X, **{n: c.arr(m, [X], positive=True) for n, m in
                                                (("scaled_rho", "rho"), ("scaled_g", "g"), ("scaled_gofr_plus", "gp"), ("scaled_gofr_minus", "gm"))})
        d = {"E": c.real("E0"), "Cv": c.real("C0"), "alpha_plus": c.real("alpha_plus"), "alpha_minus": c.real("alpha_minus"), "Z": c.real("Z0")}
        ENG.track.append(d)
        return [c.real("T", positive=True, gen=lambda r, e: r.uniform(50., 600.)), pr, d]

    def parts(self, pr, d):
        dB = S(num(float(K.delta_beta)))
        X = pr.attrs["samples"]
        rho, g, gp, gm = (pr.attrs[k] for k in ("scaled_rho", "scaled_g", "scaled_gofr_plus", "scaled_gofr_minus"))
        return dB, X, rho, g, gp, gm


class BasicAnalysis(Analysis):
    target = ST + "basic_statistical_analysis"
    uses = (BasicTerms, EstAll, AddHarmonic)

    def effect(self, c, T_, pr, d):
        dB, X, rho, g, gp, gm = self.parts(pr, d)
        out = basic_properties(X, T_, *basic_terms(dB, rho, g, gp, gm))
        out["E"] = out["E"] + d["E"]
        out["Cv"] = out["Cv"] + d["Cv"]
        return out


class AlphaAnalysis(Analysis):
    target = ST + "alpha_statistical_analysis"
    uses = (AlphaTerms, EstAll, AddHarmonic)

    def effect(self, c, T_, pr, d):
        dB, X, rho, g, gp, gm = self.parts(pr, d)
        out = basic_properties(X, T_, *alpha_terms(dB, rho, g, gp, gm, d["alpha_plus"], d["alpha_minus"])[:3])
        out["E"] = out["E"] + d["E"]
        out["Cv"] = out["Cv"] + d["Cv"]
        return out


# ---------------------------------------------------------------- jackknife
def loo(a):
    """leave one out means, stated as a sum over the other samples"""
    a = core.asarr(a)
    X = a._shape[0]
    r = a.reader()

    def f(i):
        j = fresh("j")
        jv = ivar(j)
        tot = Sum([(jv, X)], mul(ind(b_not(eq(jv, i[0]))), r([jv])))
        return div(tot, sub(X, num(1)))
    return Arr.make([X], f)


class JackTerm(_C):
    target = JK + "calculate_jackknife_term"

    def setup(self, c):
        X = c.dim("X", lo=2)
        return [X, c.arr("a", [X])]

    def effect(self, c, X, a):
        return loo(a)


class JackTerms(_C):
    target = JK + "calculate_jackknife_terms"
    uses = (JackTerm,)

    def setup(self, c):
        X = c.dim("X", lo=2)
        return [X, [c.arr("a", [X]), c.arr("b", [X]), c.arr("d", [X])]]

    def effect(self, c, X, l):
        return [loo(a) for a in l]


def alpha_jack(X, dB, r, LN, ap, RN, am):
    jr, jl, jn = loo(r), loo(LN), loo(RN)
    return [jr, (jl * ap - jn * am) / (2 * dB), (jl * ap - 2 * jr + jn * am) / (dB * dB)]


class AlphaJackTerms(BasicTerms):
    target = JK + "calculate_alpha_jackknife_terms"

    def setup(self, c):
        X = c.dim("X", lo=2)
        return [X, c.real("dB", positive=True), c.arr("r", [X]), c.arr("LN", [X]), c.real("ap"), c.arr("RN", [X]), c.real("am")]

    def effect(self, c, *a):
        return alpha_jack(*a)


def jack_estimate(X, T_, E, Cv, jr, js1, js2):
    fE = -js1 / jr
    fC = (js2 / jr - fE * fE) / (kb() * sq(T_))
    return {"E": X * E - (X - 1) * mean(fE), "E error": sqrt(X - 1) * fE.std(ddof=1),
            "Cv": X * Cv - (X - 1) * mean(fC), "Cv error": sqrt(X - 1) * fC.std(ddof=1)}


class EstJack(BasicTerms):
    target = JK + "estimate_jackknife"

    def setup(self, c):
        X = c.dim("X", lo=2)
        d = {"Z": c.real("Z"), "E": c.real("E"), "Cv": c.real("Cv"), "E error": 0.0, "Cv error": 0.0}
        ENG.track.append(d)
        return [X, c.real("T", positive=True), c.real("dB", positive=True), d, c.arr("jr", [X], positive=True), c.arr("js1", [X]), c.arr("js2", [X])]

    def effect(self, c, X, T_, dB, d, jr, js1, js2):
        return jack_estimate(X, T_, d["E"], d["Cv"], jr, js1, js2)


def jack_output(X, T_, d, terms, jterms):
    b = basic_properties(X, T_, *terms)
    j = jack_estimate(X, T_, b["E"], b["Cv"], *jterms)
    out = {}
    for k, v in b.items():
        out[k] = v + d[k] if k in ("E", "Cv") else v
    for k, v in j.items():
        out["jk_" + k] = v + d[k] if k in ("E", "Cv") else v
    return out


class BasicJack(Analysis):
    target = ST + "basic_jackknife_analysis"
    uses = (BasicTerms, EstAll, AddHarmonic, JackTerms, EstJack)

    def effect(self, c, T_, pr, d):
        dB, X, rho, g, gp, gm = self.parts(pr, d)
        t = basic_terms(dB, rho, g, gp, gm)
        return jack_output(X, T_, d, t, [loo(a) for a in t])


class AlphaJack(Analysis):
    target = ST + "alpha_jackknife_analysis"
    uses = (AlphaTerms, EstAll, AddHarmonic, AlphaJackTerms, EstJack)

    def effect(self, c, T_, pr, d):
        dB, X, rho, g, gp, gm = self.parts(pr, d)
        t = alpha_terms(dB, rho, g, gp, gm, d["alpha_plus"], d["alpha_minus"])
        return jack_output(X, T_, d, t[:3], alpha_jack(X, dB, t[0], t[3], t[4], t[5], t[6]))
