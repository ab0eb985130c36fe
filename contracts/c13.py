"""C13: jackknife"""
from .stats_contracts import *
from . import dispatch
from .c12 import formulas, make, stats_case, scales
from pyvc.runner import Prop, E2E
import math


def jack_formulas(case):
    k = 1.38064852e-23 / 1.6021766208e-19
    X, dB, T_ = len(case["rho"]), 2.0e-4, case["T"]
    full = formulas(dict(case, E0=0.0, C0=0.0))
    fE, fC = [], []
    ap, am = (case["ap"], case["am"]) if case["alpha"] else (1.0, 1.0)
    for i in range(X):
        m = lambda v: math.fsum(a / b for j, (a, b) in enumerate(zip(v, case["rho"])) if j != i) / (X - 1)
        Z, p, q = m(case["g"]), m(case["gp"]) * ap, m(case["gm"]) * am
        e = -(p - q) / (2 * dB) / Z
        fE.append(e)
        fC.append(((p - 2 * Z + q) / dB ** 2 / Z - e * e) / (k * T_ ** 2))
    mean = lambda v: math.fsum(v) / len(v)
    std = lambda v: math.sqrt(math.fsum((x - mean(v)) ** 2 for x in v) / (len(v) - 1))
    out = dict(formulas(case))
    out["jk_E"] = X * full["E"] - (X - 1) * mean(fE) + case["E0"]
    out["jk_E error"] = math.sqrt(X - 1) * std(fE)
    out["jk_Cv"] = X * full["Cv"] - (X - 1) * mean(fC) + case["C0"]
    out["jk_Cv error"] = math.sqrt(X - 1) * std(fC)
    return out


class Oracle(E2E):
    quick, deep = 30, 300

    def case(self, rng, hints):
        return stats_case(rng, hints, 600 if rng.random() < 0.9 else 1500)

    def run(self, case):
        import pibronic.stats.stats as st
        want = jack_formulas(case)
        ana = {"E": case["E0"], "Cv": case["C0"], "alpha_plus": case["ap"], "alpha_minus": case["am"], "Z": 3.0}
        f = st.alpha_jackknife_analysis if case["alpha"] else st.basic_jackknife_analysis
        got = f(case["T"], make(case), ana)
        sc = scales(case)
        if set(got) != set(want):
            return f"keys {sorted(got)}"
        X = len(case["rho"])
        for k in want:
            tol = 1e-9 * (X if k.startswith("jk_") else 1)
            if not abs(float(got[k]) - want[k]) <= 1e-6 * abs(want[k]) + tol * sc.get(k.replace("jk_", "").replace(" error", ""), 1.0):
                return f"{k}: {float(got[k])} instead of {want[k]}"
        import pibronic.stats.jackknife as jk
        a = np.array(case["g"])
        w = np.array([math.fsum(x for j, x in enumerate(case["g"]) if j != i) / (X - 1) for i in range(X)])
        g = jk.calculate_jackknife_term(X, a)
        if g.shape != w.shape or not np.allclose(g, w, rtol=1e-9, atol=1e-9):
            return "calculate_jackknife_term is not the leave-one-out mean"
        return None


PROPERTY = Prop("C13", [BasicTerms, AlphaTerms, EstZ, EstE, EstC, EstAll, AddHarmonic, JackTerm, JackTerms, AlphaJackTerms, EstJack, BasicJack, AlphaJack] + dispatch.CONTRACTS["jackknife"],
                ["basic_jackknife_analysis", "alpha_jackknife_analysis"] + [d.label() for d in dispatch.CONTRACTS["jackknife"]], Oracle())
