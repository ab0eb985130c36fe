"""C12: reported Z, E, Cv"""
from .stats_contracts import *
from . import dispatch
from pyvc.runner import Prop, E2E
import math
import types


def formulas(case):
    """independent evaluation with exact summation"""
    k = 1.38064852e-23 / 1.6021766208e-19
    rho, g, gp, gm = (case[n] for n in ("rho", "g", "gp", "gm"))
    X, dB, T_ = len(rho), 2.0e-4, case["T"]
    r = [a / b for a, b in zip(g, rho)]
    mean = lambda v: math.fsum(v) / len(v)
    Z = mean(r)
    Zerr = math.sqrt(mean([(x - Z) ** 2 for x in r])) / math.sqrt(X - 1)
    if case["alpha"]:
        p = mean([a / b for a, b in zip(gp, rho)]) * case["ap"]
        m = mean([a / b for a, b in zip(gm, rho)]) * case["am"]
    else:
        p, m = mean([a / b for a, b in zip(gp, rho)]), mean([a / b for a, b in zip(gm, rho)])
    d1, d2 = (p - m) / (2 * dB), (p - 2 * Z + m) / dB ** 2
    E = -d1 / Z
    Cv = (d2 / Z - E * E) / (k * T_ ** 2)
    return {"Z": Z, "Z error": Zerr, "E": E + case["E0"], "E error": 0.0, "Cv": Cv + case["C0"], "Cv error": 0.0}


def make(case, order=None, scale=None):
    from pibronic.pimc import BoxResultPM
    res = BoxResultPM(X=len(case["rho"]))
    order = order or range(len(case["rho"]))
    scale = scale or [1.0] * len(case["rho"])
    for n, m in (("scaled_rho", "rho"), ("scaled_g", "g"), ("scaled_gofr_plus", "gp"), ("scaled_gofr_minus", "gm")):
        setattr(res, n, np.array([case[m][i] * scale[i] for i in order]))
    res.samples = len(case["rho"])
    return res


def close(a, b, scale=0.0, rtol=1e-6):
    return abs(a - b) <= rtol * max(abs(a), abs(b), scale, 1e-12)


def stats_case(rng, hints, top=3001):
    X = rng.choice([2, 2, 3, 4, 5, 7, 9, 12, 33, 100, 257])
    u = rng.random()
    known = hints.get("consts", []) + hints.get("bigs", [])
    if known and u < 0.4:
        X = min(max(rng.choice(known) + rng.choice([-1, 0, 1, 1]), 2), top)
    elif u > 0.97:
        X = rng.randint(258, top)
    rho = [rng.uniform(0.1, 3.0) for _ in range(X)]
    g = [rng.uniform(0.2, 2.0) * r for r in rho]
    dB = 2e-4
    gp = [a * (1 + dB * rng.uniform(-3, 3) + dB * dB * rng.uniform(0, 20)) for a in g]
    gm = [a * (1 + dB * rng.uniform(-3, 3) + dB * dB * rng.uniform(0, 20)) for a in g]
    T_ = rng.choice([10., 77., 250., 300.0, 301.5, 999.])
    near = [abs(x) for x in hints.get("floats", []) + known if 1 < abs(x) < 2000]
    if near and rng.random() < 0.4:
        T_ = rng.choice(near) * rng.choice([0.9, 1.0, 1.1])
    return {"rho": rho, "g": g, "gp": gp, "gm": gm, "T": T_, "E0": rng.uniform(-2, 2), "C0": rng.uniform(-2, 2),
            "ap": 1 + dB * rng.uniform(-2, 2), "am": 1 + dB * rng.uniform(-2, 2), "alpha": rng.random() < 0.5, "perm": rng.sample(range(X), X),
            "scale": [rng.choice([1.0, 0.5, 2.0, 1e-3, 7.5]) for _ in range(X)]}


def scales(case):
    """magnitudes before cancellation, for the tolerance"""
    Z = 1.0
    return {"Z": Z, "Z error": Z, "E": 1 / 2e-4, "Cv": 1 / 4e-8 / (8.6e-5 * case["T"] ** 2)}


class Oracle(E2E):
    quick, deep = 40, 400

    def case(self, rng, hints):
        return stats_case(rng, hints)

    def run(self, case):
        import pibronic.stats.stats as st
        import pibronic.constants as K_
        want = formulas(case)
        ana = {"E": case["E0"], "Cv": case["C0"], "alpha_plus": case["ap"], "alpha_minus": case["am"], "Z": 3.0}
        f = st.alpha_statistical_analysis if case["alpha"] else st.basic_statistical_analysis
        runs = [("", make(case)), ("reordered ", make(case, order=case["perm"])), ("rescaled ", make(case, scale=case["scale"]))]
        sc = scales(case)
        for tag, res in runs:
            got = f(case["T"], res, dict(ana))
            if set(got) != set(want):
                return f"keys {sorted(got)}"
            for k in want:
                tol = 1e-9
                if not abs(float(got[k]) - want[k]) <= 1e-6 * abs(want[k]) + tol * sc.get(k.replace(" error", ""), 1.0):
                    return f"{tag}{k}: {float(got[k])} instead of {want[k]}"
        T_ = case["T"]
        k = 1.38064852e-23 / 1.6021766208e-19
        b = float(K_.beta(T_))
        if not close(b, 1 / (k * T_)):
            return f"beta({T_}) = {b}"
        if not close(float(K_.extract_T_from_beta(b)), T_):
            return f"T(beta({T_})) = {float(K_.extract_T_from_beta(b))}"
        return None


PROPERTY = Prop("C12", [Beta, TfromBeta, RoundTrip, BasicTerms, AlphaTerms, EstZ, EstE, EstC, EstAll, AddHarmonic, BasicAnalysis, AlphaAnalysis] + dispatch.CONTRACTS["statistical"],
                ["basic_statistical_analysis", "alpha_statistical_analysis", "beta", "extract_T_from_beta", RoundTrip.name] + [d.label() for d in dispatch.CONTRACTS["statistical"]], Oracle())
