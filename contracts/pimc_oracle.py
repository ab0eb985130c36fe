"""Independent evaluation of a run of the sampler (bounded end-to-end oracle of C08 - C11).

Models are written as JSON files, the real preprocess/block_compute* run with a replayed random stream,
and everything that is stored is compared with a separate evaluation from the model files."""
import contextlib
import glob
import io
import json
import os
import shutil
import tempfile
import warnings
from unittest import mock
import numpy as np
import scipy.linalg
from pyvc.runner import E2E

KB = 1.38064852e-23 / 1.6021766208e-19


def restarted(*a, **k):
    if [x for x in list(a) + list(k.values()) if x is not None]:
        raise RuntimeError("the random generator is restarted with a fixed seed: draws repeat")


class Stream:
    """the random numbers of one run, consumed in order"""
    def __init__(self, seed, X, N, P):
        r = np.random.RandomState(seed)
        self.z, self.u, self.k = r.standard_normal(X * N * P), r.random_sample(X * N * P), r.random_sample(X)
        self.shape = (X, N, P)
        self.pos = {"z": 0, "u": 0, "k": 0}
        self.choices = []

    def take(self, which, size):
        size = () if size is None else tuple(np.atleast_1d(size))
        n = int(np.prod(size)) if size else 1
        a = getattr(self, which)
        p = self.pos[which]
        self.pos[which] += n
        if p + n > len(a):
            raise RuntimeError("more random numbers drawn than the run has coordinates")
        return a[p:p + n].reshape(size)

    def normal(self, loc=0.0, scale=1.0, size=None):
        if size is None:
            size = np.broadcast(np.asarray(loc), np.asarray(scale)).shape
        return loc + scale * self.take("z", size)

    def standard_normal(self, size=None):
        return self.take("z", size)

    def randn(self, *size):
        return self.take("z", size)

    def random(self, size=None):
        return self.take("u", size)

    def rand(self, *size):
        return self.take("u", size)

    def choice(self, a, size=None, replace=True, p=None):
        n = a if isinstance(a, (int, np.integer)) else len(a)
        p = np.full(n, 1.0 / n) if p is None else np.asarray(p, float)
        i = np.minimum(np.searchsorted(np.cumsum(p), self.take("k", size)), n - 1)
        self.choices.append((p.copy(), np.array(i)))
        return np.asarray(i if isinstance(a, (int, np.integer)) else np.asarray(list(a))[i])

    @contextlib.contextmanager
    def active(self):
        with contextlib.ExitStack() as st:
            for n in ("normal", "standard_normal", "randn", "random", "random_sample", "rand", "choice"):
                st.enter_context(mock.patch.object(np.random, n, getattr(self, n if n != "random_sample" else "random")))
            st.enter_context(mock.patch.object(np.random, "default_rng", lambda *a, **k: self))
            st.enter_context(mock.patch.object(np.random, "seed", restarted))
            yield self


def models(case):
    """parameters of the coupled and of the sampling model"""
    r = np.random.RandomState(case["seed"])
    A, R, N = case["A"], case["R"], case["N"]
    w = r.uniform(0.03, 0.4, N)
    sym = lambda x, i, j: (x + np.swapaxes(x, i, j)) / 2
    g = case["g"]
    E = sym(r.uniform(-0.1, 0.3, (A, A)), 0, 1)
    lin = sym(r.uniform(-0.2, 0.2, (N, A, A)), 1, 2) * g
    quad = sym(sym(r.uniform(-0.05, 0.05, (N, N, A, A)), 2, 3), 0, 1) * g
    if "lin" in case["absent"]:
        lin = lin * 0
    if "quad" in case["absent"]:
        quad = quad * 0
    rE, rlin = r.uniform(-0.1, 0.3, R), r.uniform(-0.2, 0.2, (N, R)) * g
    # unusual magnitudes: a few tiny linear couplings, energies far from zero, low frequencies
    if case.get("tiny"):
        pick = lambda x: np.where(r.random_sample(x.shape) < 0.5, x, x * (case["tiny"] / 0.2))
        lin, rlin = sym(pick(lin), 1, 2), pick(rlin)
    if case.get("soft"):
        w[r.randint(N)] *= case["soft"]
    if case.get("off"):   # (in units of kT per bead)
        e = np.clip(case["off"] * case["P"], -400, 600) * KB * case["T"]     # (exp(-beta e) must be a double)
        E[range(A), range(A)] += e
        rE += e
    if case["flat"]:      # a degenerate sampling model: one oscillator dominates
        rE[0] -= 0.5
    return {"w": w, "E": E, "lin": lin, "quad": quad, "rE": rE, "rlin": rlin}


def write(case, m, d):
    A, R, N = case["A"], case["R"], case["N"]
    co = {"number of modes": N, "number of surfaces": A, "energies": m["E"].tolist(), "frequencies": m["w"].tolist()}
    if "lin" not in case["absent"]:
        co["linear couplings"] = m["lin"].tolist()
    if "quad" not in case["absent"]:
        co["quadratic couplings"] = m["quad"].tolist()
    sa = {"number of modes": N, "number of surfaces": R, "energies": m["rE"].tolist(), "frequencies": m["w"].tolist(), "linear couplings": m["rlin"].tolist()}
    out = []
    for n, x in (("coupled.json", co), ("sampling.json", sa)):
        p = os.path.join(d, n)
        with open(p, "w") as f:
            json.dump(x, f)
        out.append(p)
    return out


def beta_of(T):
    return 1.0 / (KB * T)


class Setup:
    """the real objects of one run"""
    def __init__(self, case, d, K=None, B=None, pm=True):
        from pibronic.pimc import pimc as M
        self.case, self.M, self.d = case, M, d
        self.m = models(case)
        self.K, self.B = K or case["K"], B or case["B"]
        self.X = self.K * self.B
        vib, rho = write(case, self.m, d)
        self.stream = Stream(case["seed"] + 1, self.X, case["N"], case["P"])
        data = M.BoxDataPM(case["dB"]) if pm else M.BoxData()
        data.id_data, data.id_rho, data.path_root = 0, 0, d
        data.path_vib_model, data.path_rho_model = vib, rho
        data.states, data.modes = case["A"], case["N"]
        data.samples, data.beads, data.temperature, data.blocks, data.block_size = self.X, case["P"], case["T"], self.K, self.B
        data.hash_vib, data.hash_rho = "hash-v", "hash-r"
        self.data = data
        with self.stream.active(), quiet():
            data.preprocess()
        self.R = []

    def result(self, pm=True):
        r = (self.M.BoxResultPM if pm else self.M.BoxResult)(data=self.data)
        r.path_root = self.d
        r.id_job = 3
        return r

    def run(self, name, pm=True, watch=True):
        """call a run function, return what is in the files it wrote"""
        for p in glob.glob(os.path.join(self.d, "*.npz")):
            os.remove(p)
        data, res = self.data, self.result(pm)
        if watch:
            orig = data.transform_sampled_coordinates

            def wrapped(view):
                orig(view)
                self.R.append(data.qTensor.copy())
            data.transform_sampled_coordinates = wrapped
        with self.stream.active(), quiet():
            getattr(self.M, name)(data, res)
        if watch:
            del data.transform_sampled_coordinates
        out = {}
        for p in sorted(glob.glob(os.path.join(self.d, "*.npz"))):
            with np.load(p) as f:
                for k in f.files:
                    out[k] = f[k]
        return out

    # ------------------------------------------------ independent formulas
    def log_o(self, which, R, tau):
        """logarithm of the oscillator propagators: (surface, bead)"""
        m = self.m
        if which == "rho":
            E, lin = m["rE"], m["rlin"]
        else:
            E, lin = np.diag(m["E"]), np.array([np.diag(x) for x in m["lin"]])
        w = m["w"]
        n_s, P = len(E), R.shape[1]
        out = np.zeros((n_s, P))
        for a in range(n_s):
            d = np.array([-lin[n, a] / w[n] for n in range(len(w))])
            shift_e = -0.5 * sum(lin[n, a] ** 2 / w[n] for n in range(len(w)))
            for p in range(P):
                x, y = R[:, p] - d, R[:, (p + 1) % P] - d
                e = 0.0
                for n in range(len(w)):
                    t = tau * w[n]
                    e += (x[n] ** 2 + y[n] ** 2) / np.tanh(t) - 2 * x[n] * y[n] / np.sinh(t) + np.log(np.sinh(t))
                out[a, p] = -0.5 * e - tau * (E[a] + shift_e)
        return out

    def log_rho(self, R):
        lo = self.log_o("rho", R, self.tau()).sum(axis=1)
        mx = lo.max()
        return mx + np.log(np.exp(lo - mx).sum()), lo

    def log_g(self, R, tau):
        """(mantissa, logarithm) of the trace of the ordered bead product"""
        m = self.m
        A, P, N = len(m["E"]), R.shape[1], len(m["w"])
        lo = self.log_o("vib", R, tau)
        prod, lg = np.eye(A), 0.0
        for p in range(P):
            V = np.zeros((A, A))
            for a in range(A):
                for b in range(A):
                    v = 0.5 * sum(m["quad"][i, j, a, b] * R[i, p] * R[j, p] for i in range(N) for j in range(N))
                    if a != b:
                        v += m["E"][a, b] + sum(m["lin"][i, a, b] * R[i, p] for i in range(N))
                    V[a, b] = v
            mx = lo[:, p].max()
            prod = prod @ scipy.linalg.expm(-tau * V) @ np.diag(np.exp(lo[:, p] - mx))
            s = np.abs(prod).max()
            prod, lg = prod / s, lg + mx + np.log(s)
        return np.trace(prod), lg

    def beta(self):
        return beta_of(self.case["T"])

    def tau(self):
        return self.beta() / self.case["P"]

    def ratios(self, R, keys=("s_g", "s_gP", "s_gM")):
        P = self.case["P"]
        taus = {"s_g": self.tau(), "s_gP": (self.beta() + self.case["dB"]) / P, "s_gM": (self.beta() - self.case["dB"]) / P}
        lr, _ = self.log_rho(R)
        out = {}
        for k in keys:
            mant, lg = self.log_g(R, taus[k])
            out[k] = mant * np.exp(lg - lr)
        return out


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        yield


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="pyvc_")
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def near(a, b, scale=0.0, rtol=2e-7):
    if not abs(b) < 1e250:
        return True          # outside the range of doubles: nothing can be compared
    return bool(np.isfinite(a) and abs(a - b) <= rtol * max(abs(b), 1e-300) + 1e-11 * scale)


def draw_case(rng, hints, **over):
    case = {"A": rng.choice([1, 2, 2, 2, 3, 3, 4]), "N": rng.choice([1, 1, 2, 2, 3]), "P": rng.choice([3, 3, 4, 5, 6, 9]), "K": rng.choice([1, 2, 2, 3, 4]), "B": rng.choice([1, 1, 2, 2, 3, 5]),
            "T": rng.choice([300.0, 250.0, 310.5, 450.0, 1000.0, 298.15, 137.2573]), "dB": rng.choice([2.0e-4, 1e-3, 0.01]), "seed": rng.randrange(10 ** 6), "g": rng.choice([1.0, 1.0, 0.3, 0.0]),
            "absent": rng.choice([[], [], [], ["lin"], ["quad"], ["lin", "quad"]]), "flat": rng.random() < 0.2}
    case["R"] = rng.choice([case["A"], case["A"], 1, 2, 3, 4])
    if hints.get("scalars") and rng.random() < 0.5:
        s = rng.choice(hints["scalars"])
        for k, lo, hi in (("A", 1, 12), ("R", 1, 12), ("N", 1, 12), ("P", 3, 400), ("B", 1, 80), ("K", 1, 60)):
            if k in s and lo <= s[k] <= hi:
                case[k] = int(s[k])
        while case["P"] * case["B"] * case["K"] * case["A"] ** 2 * case["N"] > 6000:
            k = max(("B", "K", "A", "N"), key=lambda k: case[k] if k not in s or case["P"] > 60 else 1)
            if case[k] == 1:
                break
            case[k] = max(1, case[k] // 2)
    if rng.random() < 0.15:
        case.update(rng.choice([{"P": 30, "B": 2, "K": 1}, {"B": 11, "K": 1}, {"B": 1, "K": 7}, {"N": 5, "A": 2}, {"K": 11, "B": 2, "P": 3}, {"P": 64, "B": 1, "K": 1}]))
    if rng.random() < 0.4:
        case["tiny"] = rng.choice([1e-2, 1e-3, 1e-5])
        case["soft"] = rng.choice([1.0, 0.1, 0.02])
    if rng.random() < 0.3:
        case["off"] = rng.choice([-45.0, -8.0, 8.0, 30.0, 90.0])
    fl = [abs(x) for x in hints.get("floats", []) if x and abs(x) < 1e3]
    if fl and rng.random() < 0.6:
        f = rng.choice(fl)
        if f < 1e-8:
            case["off"] = -np.log(f) * rng.choice([0.95, 1.05, 1.3])
            case["P"] = 3
        elif f < 0.3:
            case["tiny"], case["g"], case["soft"] = f * rng.choice([0.3, 1.0, 3.0]), 1.0, rng.choice([1.0, 0.1, 0.02])
        if 0.5 < f < 150:
            case["off"] = rng.choice([-1, 1, 1]) * f * rng.choice([0.9, 1.1, 1.5])
    if hints.get("consts") and rng.random() < 0.6:
        c = rng.choice(hints["consts"]) + rng.choice([-1, 0, 1, 1])
        k = rng.choice(["P", "B", "K", "N", "A", "R"])
        if {"P": 3, "B": 1, "K": 1, "N": 1, "A": 1, "R": 1}[k] <= c <= {"P": 400, "B": 80, "K": 60, "N": 30, "A": 14, "R": 14}[k]:
            case[k] = c
            for o in "KBNA":
                if o != k and c > 12:
                    case[o] = min(case[o], 2)
    case.update(over)
    return case


class Base(E2E):
    quick, deep = 40, 600

    extreme = False

    def case(self, rng, hints):
        c = draw_case(rng, hints)
        if not self.extreme:
            c.pop("soft", None)     # (a soft mode with strong couplings overflows the bead product)
        return c

    def run(self, case):
        with scratch() as d:
            return self.check(case, d)


def configurations(s):
    return np.concatenate(s.R, axis=0)


def check_run(s, name, pm, keys):
    """stored ratios of a run against the independent evaluation on its own configurations"""
    out = s.run(name, pm)
    X = s.X
    for k in ("s_rho",) + keys:
        if k not in out:
            return None, f"{k} was not saved"
        if out[k].shape != (X,):
            return None, f"{k} has shape {out[k].shape} instead of {(X,)}"
    if int(out["number_of_samples"]) != X:
        return None, f"number_of_samples {out['number_of_samples']} instead of {X}"
    R = configurations(s)
    if R.shape[0] != X:
        return None, f"{R.shape[0]} configurations were drawn for {X} samples"
    for x in range(X):
        want = s.ratios(R[x, 0], keys)
        sc = max(abs(v) for v in want.values())
        for k in keys:
            got = out[k][x] / out["s_rho"][x]
            if not near(got, want[k], sc):
                return None, f"{name}: sample {x} (block {x // s.B}): {k}/s_rho = {got!r}, bead product gives {want[k]!r}"
    return out, None


class Numerators(Base):
    """C10"""
    def check(self, case, d):
        for name, pm, keys in (("block_compute_pm", True, ("s_g", "s_gP", "s_gM")), ("block_compute", False, ("s_g",))):
            out, err = check_run(Setup(case, d, pm=pm), name, pm, keys)
            if err:
                return err
        if case["R"] == case["A"]:
            s = Setup(case, d, pm=False)
            out = s.run("block_compute_gR_from_raw_samples", False, watch=False)
            R = out["input_R_values"]
            for x in range(s.X):
                mant, lg = s.log_g(R[x], s.tau())
                if not near(out["g"][x], mant * np.exp(lg), abs(np.exp(lg))):
                    return f"gR_from_raw_samples: sample {x}: g = {out['g'][x]!r} instead of {mant * np.exp(lg)!r}"
        return None


class Density(Base):
    """C09"""
    def check(self, case, d):
        s = Setup(case, d, pm=False)
        P, N = case["P"], case["N"]
        # weight of each oscillator
        m, b = s.m, s.beta()
        part = np.array([-b * (m["rE"][a] - 0.5 * sum(m["rlin"][n, a] ** 2 / m["w"][n] for n in range(N))) for a in range(case["R"])])
        part = np.exp(part - part.max())
        part /= part.sum()
        if s.stream.choices:
            p, src = s.stream.choices[-1]
            if p.shape != part.shape or not np.allclose(p, part, rtol=1e-8, atol=1e-12):
                return f"oscillators are chosen with probabilities {p} instead of {part}"
            src = src.ravel()
        else:
            src = np.asarray(s.data.rho.sample_sources).ravel()
            if not np.allclose(s.data.rho.state_weight, part, rtol=1e-8, atol=1e-12):
                return f"weights {s.data.rho.state_weight} instead of {part}"
        if src.shape != (s.X,):
            return f"sources have shape {src.shape}"
        out = s.run("block_compute", False)
        R = configurations(s)
        for a in range(R.shape[1]):
            if not np.array_equal(R[:, a], R[:, 0]):
                return f"surface {a} sees another configuration than surface 0"
        z = s.stream.z.reshape(s.X, N * P)
        ref = None
        for x in range(s.X):
            lr, lo = s.log_rho(R[x, 0])
            L = lo[src[x]] + 0.5 * float((z[x] ** 2).sum()) - np.log(part[src[x]])
            if ref is None:
                ref = L
            if not abs(L - ref) <= 1e-7 * max(1.0, abs(ref), abs(lo[src[x]])):
                return f"sample {x} of oscillator {src[x]}: sampling density and evaluated weight differ by a factor exp({L - ref!r}) from sample 0"
        # the denominator that is stored (unscaled evaluation)
        res = s.result(False)
        with quiet():
            s.M.block_compute_rhoR_from_input_samples(s.data, res, R[:, 0].copy())
        for x in range(s.X):
            lr, _ = s.log_rho(R[x, 0])
            if not near(res.scaled_rho[x], np.exp(lr)):
                return f"sample {x}: denominator {res.scaled_rho[x]!r} instead of {np.exp(lr)!r}"
        # and the scaled one: same ratio to the numerator
        for x in range(s.X):
            want = s.ratios(R[x, 0], ("s_g",))["s_g"]
            if not near(out["s_g"][x] / out["s_rho"][x], want, abs(want)):
                return f"sample {x}: scaled denominator belongs to another weight ({out['s_g'][x] / out['s_rho'][x]!r} instead of {want!r})"
        return None


class Blocking(Base):
    """C11"""
    quick = 14

    def check(self, case, d):
        keys = ("s_g", "s_gP", "s_gM")
        X = case["K"] * case["B"]
        ref = None
        for B in sorted({b for b in (1, case["B"], X) if X % b == 0}, reverse=True):
            s = Setup(case, d, K=X // B, B=B)
            out, err = check_run(s, "block_compute_pm", True, keys)
            if err:
                return err
            if not (s.data.qTensor == s.R[-1]).all() and not np.allclose(s.data.qTensor, s.R[-1], rtol=0, atol=1e-10):
                return "the configuration is changed by its evaluation"
            got = {k: out[k] / out["s_rho"] for k in keys}
            if ref is None:
                ref = (B, got)
            for k in keys:
                if not np.allclose(got[k], ref[1][k], rtol=1e-7, atol=1e-11 * np.abs(ref[1][k]).max()):
                    i = int(np.argmax(np.abs(got[k] - ref[1][k])))
                    return f"{k}/s_rho of sample {i}: {got[k][i]!r} with blocks of {B}, {ref[1][k][i]!r} with blocks of {ref[0]}"
        s = Setup(case, d, pm=False)
        out, err = check_run(s, "block_compute", False, ("s_g",))
        if err:
            return err
        s = Setup(case, d, pm=False)
        out = s.run("block_compute_gR", False)
        R = configurations(s)
        for x in range(s.X):
            mant, lg = s.log_g(R[x, 0], s.tau())
            if out["s_g"].shape != (s.X,) or not near(out["s_g"][x], mant * np.exp(lg), abs(np.exp(lg))):
                return f"block_compute_gR: sample {x}: {out['s_g'][x]!r} instead of {mant * np.exp(lg)!r}"
        return None


class Preparation(Base):
    """C08"""
    extreme = True

    def check(self, case, d):
        s = Setup(case, d)
        m, v, r = s.m, s.data.vib, s.data.rho
        rng = np.random.RandomState(case["seed"] + 5)
        A, N, P, Rn = case["A"], case["N"], case["P"], case["R"]
        w = m["w"]
        if not np.array_equal(v.omega, w) or not np.array_equal(r.omega, w):
            return "frequencies changed"
        for _ in range(3):
            q = rng.uniform(-3, 3, N)
            for a in range(A):
                left = 0.5 * sum(w[n] * (q[n] - v.state_shift[a, n]) ** 2 for n in range(N)) + m["E"][a, a] + v.delta_weight[a]
                right = 0.5 * sum(w[n] * q[n] ** 2 for n in range(N)) + m["E"][a, a] + sum(m["lin"][n, a, a] * q[n] for n in range(N))
                if not near(left, right, 10.0):
                    return f"surface {a}: displaced oscillator {left!r}, loaded model {right!r} at q={q.tolist()}"
            for a in range(Rn):
                left = 0.5 * sum(w[n] * (q[n] - r.state_shift[a, n]) ** 2 for n in range(N)) + m["rE"][a] + r.delta_weight[a]
                right = 0.5 * sum(w[n] * q[n] ** 2 for n in range(N)) + m["rE"][a] + sum(m["rlin"][n, a] * q[n] for n in range(N))
                if not near(left, right, 10.0):
                    return f"sampling surface {a}: displaced oscillator {left!r}, loaded model {right!r}"
        ev, vec = np.asarray(s.data.circulant_eigvals), np.asarray(s.data.circulant_eigvects)
        ring = np.roll(np.eye(P), 1, 0) + np.roll(np.eye(P), -1, 0)
        if vec.shape != (P, P) or ev.shape != (P,) or not np.allclose(vec.T @ vec, np.eye(P), atol=1e-9) or not np.allclose(ring @ vec, vec * ev, atol=1e-9):
            return f"the collective coordinates are not those of the ring of {P} beads"
        off = 1 - np.eye(A)
        if not np.array_equal(v.energy, m["E"] * off):
            return "energies between surfaces changed (or own energies kept twice)"
        if not np.array_equal(v.linear, m["lin"] * off):
            return "linear terms between surfaces changed (or own terms kept twice)"
        if not np.array_equal(v.quadratic, m["quad"]):
            return "quadratic terms changed"
        if np.any(r.linear != 0):
            return "linear terms of the sampling model are kept twice"
        dE = lambda lin, a: -0.5 * sum(lin[n] ** 2 / w[n] for n in range(N))
        b, dB = s.beta(), case["dB"]
        sets = [("const", v, "vib", b), ("const_plus", v, "vib", b + dB), ("const_minus", v, "vib", b - dB), ("const", r, "rho", b)]
        for nm, obj, kind, be in sets:
            if not hasattr(obj, nm):
                return f"{kind}.{nm} is missing"
            c, t = getattr(obj, nm), be / P
            if not near(c.tau, t):
                return f"{kind}.{nm}.tau = {c.tau!r} instead of {t!r}"
            n_s = A if kind == "vib" else Rn
            for a in range(n_s):
                lin = [m["lin"][n, a, a] if kind == "vib" else m["rlin"][n, a] for n in range(N)]
                e = (m["E"][a, a] if kind == "vib" else m["rE"][a]) + dE(lin, a)
                pre = np.exp(-t * e) * np.prod([np.sinh(t * x) ** -0.5 for x in w])
                # (intermediate arrays: only where the code keeps them under these names)
                for arr, want in (("cothBANP", 1 / np.tanh(t * w)), ("cschBANP", 1 / np.sinh(t * w)), ("cothANP", 1 / np.tanh(t * w)), ("cschANP", 1 / np.sinh(t * w))):
                    if not hasattr(c, arr):
                        continue
                    g = getattr(c, arr)
                    g = (g[0] if g.ndim == 4 else g)[a, :, 0]
                    if not np.allclose(g, want, rtol=1e-9):
                        return f"{kind}.{nm}.{arr}[surface {a}] = {g.tolist()} instead of {want.tolist()}"
                if c.omatrix_prefactor.shape != (s.B, P, n_s) or not np.allclose(c.omatrix_prefactor[:, :, a], pre, rtol=1e-9, atol=0):
                    return f"{kind}.{nm}.omatrix_prefactor[surface {a}] is not {pre!r}"
        return None
