"""Bounded oracles on real model and result files (each run in a temporary directory of its own)."""
import contextlib
import copy
import glob
import hashlib
import json
import os
import shutil
import tempfile
from unittest import mock
import numpy as np
from pyvc.runner import E2E
from pibronic.vibronic import vIO, VMK
from pibronic.vibronic import orthonormal
import pibronic.data.file_structure as FSM
import pibronic.data.postprocessing as PP
import pibronic.data.file_name as FN
import pibronic.pimc.pimc as PIMC

KEYS = {"E": ("energies", 0), "w": ("frequencies", None), "G1": ("linear couplings", 1), "G2": ("quadratic couplings", 2), "G3": ("cubic couplings", 3), "G4": ("quartic couplings", 4)}


def shape(k, A, N, diagonal):
    if k == "w":
        return (N,)
    return (N,) * KEYS[k][1] + ((A,) if diagonal else (A, A))


def values(rng, shp, kind):
    n = int(np.prod(shp))
    r = np.random.RandomState(rng.randrange(2 ** 31))
    if kind == "zero":
        return np.zeros(shp)
    if kind == "one":
        v = np.zeros(n)
        v[rng.randrange(n)] = rng.choice([1.0, -2.5, 1e-12, 5e-324, -1e-7])
        return v.reshape(shp)
    if kind == "sparse":
        return r.normal(size=shp) * (r.uniform(size=shp) < 0.3)
    if kind == "tiny":
        return r.normal(size=shp) * 10.0 ** rng.choice([-300, -30, -12, -9])
    if kind == "int":
        return r.randint(-3, 4, size=shp)
    if kind == "f4":
        return r.normal(size=shp).astype(np.float32)
    return r.normal(size=shp) * 10.0 ** rng.choice([0, 0, 3, -3, 20])


KINDS = ["zero", "one", "sparse", "tiny", "int", "f4", "normal", "normal"]


def dims(rng):
    A, N = rng.choice([(1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 2), (3, 3), (4, 2), (2, 4)])
    return A, N


def symmetric(v, key, modes=True):
    """symmetric in the surfaces (and in the modes, for quadratic and quartic terms)"""
    if key == "w":
        return v
    v = (v + np.swapaxes(v, -1, -2)) / 2
    if modes and key == "G2":
        v = (v + np.swapaxes(v, 0, 1)) / 2
    if modes and key == "G4":
        v = (v + v.transpose(1, 0, 3, 2, 4, 5)) / 2
    return v


def subset(rng):
    return [k for k in KEYS if rng.random() < 0.6]


def make(rng, A, N, keys, diagonal, kinds=KINDS, sym=False):
    d = {"N": N, "A": A}
    for k in keys:
        v = values(rng, shape(k, A, N, diagonal), rng.choice(kinds))
        d[k] = symmetric(v, k) if sym else v
    return d


def real(d):
    return {VMK[k]: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in d.items()}


def same(a, b):
    """same keys, types of value, shapes and values"""
    if set(a) != set(b):
        return f"keys {sorted(map(str, set(a) ^ set(b)))}"
    for k in a:
        x, y = np.asarray(a[k]), np.asarray(b[k])
        if x.shape != y.shape or x.dtype != y.dtype or not np.array_equal(x, y, equal_nan=True):
            return f"{k}: {x!r} and {y!r}"[:400]
    return None


def check_loaded(got, d, A, N, diagonal, exact=True):
    """loaded dictionary against the model that was stored"""
    if got.get(VMK.N) != N or got.get(VMK.A) != A:
        return f"dimensions {got.get(VMK.A)}, {got.get(VMK.N)} instead of {A}, {N}"
    if set(got) - {VMK[k] for k in KEYS} - {VMK.N, VMK.A}:
        return f"additional parameters {set(got)}"
    for k in KEYS:
        want = np.asarray(d.get(k, np.zeros(shape(k, A, N, diagonal))), dtype=float)
        if VMK[k] not in got:
            if k == "E":
                return "no energies"
            if np.any(want != 0):
                return f"{KEYS[k][0]} are missing"
            continue
        g = got[VMK[k]]
        if not isinstance(g, np.ndarray) or g.shape != want.shape:
            return f"{KEYS[k][0]} have shape {np.shape(g)} instead of {want.shape}"
        if not (np.array_equal(g, want) if exact else np.allclose(g, want, rtol=1e-9, atol=1e-12)):
            return f"{KEYS[k][0]} are {g.tolist()} instead of {want.tolist()}"[:600]
    return None


@contextlib.contextmanager
def tmpdir():
    tmp = tempfile.mkdtemp(prefix="vcio")
    try:
        yield tmp
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def reference_load(path):
    """what the file states, read independently"""
    with open(path, encoding="UTF8") as f:
        d = json.load(f)
    names = {v[0]: k for k, v in KEYS.items()}
    out = {}
    for k, v in d.items():
        out[{"number of modes": "N", "number of surfaces": "A"}.get(k) or names[k]] = np.array(v, dtype=float) if k in names else v
    return out


def write_model(path, d):
    names = dict({k: v[0] for k, v in KEYS.items()}, N="number of modes", A="number of surfaces")
    with open(path, "w", encoding="UTF8") as f:
        json.dump({names[k]: (v.tolist() if isinstance(v, np.ndarray) else v) for k, v in d.items()}, f)


def seeded(case):
    import random
    return random.Random(case["seed"])


class Base(E2E):
    def case(self, rng, hints):
        return {"seed": rng.randrange(2 ** 40)}


class SaveLoad(Base):
    quick, deep = 120, 1500

    def run(self, case):
        rng = seeded(case)
        A, N = dims(rng)
        diag = rng.random() < 0.5
        save, load = (vIO.save_diagonal_model_to_JSON, vIO.load_diagonal_model_from_JSON) if diag else (vIO.save_model_to_JSON, vIO.load_model_from_JSON)
        d = make(rng, A, N, subset(rng), diag)
        if rng.random() < 0.2:
            d["N"], d["A"] = np.int64(N), np.int32(A)
        with tmpdir() as tmp:
            os.mkdir(os.path.join(tmp, "x"))
            names = sorted({os.path.basename(v) for v in vars(FSM.FileStructure(os.path.join(tmp, "x"), 0, 0)).values() if isinstance(v, str) and v.endswith(".json")})
            path = os.path.join(tmp, rng.choice(["m.json", "model", "original_coupled_model.json", "harmonic_model.json"] + names))
            model = real(d)
            if rng.random() < 0.3:
                with open(path, "w") as f:
                    f.write("x" * rng.randrange(10 ** 4))
            keep = copy.deepcopy(model)
            save(path, model)
            err = same(keep, model)
            if err:
                return f"saving changed the model: {err}"
            err = check_loaded(load(path), d, A, N, diag)
            if err:
                return f"loaded: {err}"
            ref = vIO.extract_dimensions_of_model(path=path)
            if tuple(ref) != (A, N):
                return f"dimensions of the file {ref}"
            # caller supplied arrays with other contents
            mine = {VMK.N: N, VMK.A: A}
            arrays = {}
            for k in subset(rng) or ["E"]:
                buf = np.full(shape(k, A, N, diag), np.nan) if rng.random() < 0.5 else rng.random() + np.ones(shape(k, A, N, diag))
                if rng.random() < 0.3:
                    buf = np.asfortranarray(buf)
                mine[VMK[k]] = arrays[k] = buf
            if load(path, mine) is not None:
                return "loading into caller supplied arrays returns something"
            for k, b in arrays.items():
                want = np.asarray(d.get(k, np.zeros(shape(k, A, N, diag))), dtype=float)
                if mine[VMK[k]] is not b or not np.array_equal(b, want):
                    return f"{KEYS[k][0]} in the caller's array: {b.tolist()} instead of {want.tolist()}"[:600]
            if set(mine) != {VMK[k] for k in arrays} | {VMK.N, VMK.A} or (mine[VMK.N], mine[VMK.A]) != (N, A):
                return "the caller's dictionary changed"
            return self.refused(rng, tmp, A, N, diag, save, load)

    def refused(self, rng, tmp, A, N, diag, save, load):
        d = make(rng, A, N, subset(rng), diag, ["normal"])
        k = rng.choice(list(KEYS))
        s = list(shape(k, A, N, diag))
        how = rng.randrange(5)
        if how == 0:
            s[rng.randrange(len(s))] += rng.choice([1, 2, -1])
        elif how == 1:
            s = list(shape(k, A, N, not diag)) if k != "w" else s + [1]
        elif how == 2:
            s = s + [1]
        elif how == 3:
            s = [1] + s
        else:
            s = [x + 1 for x in s]
        if min(s) < 1:
            s[0] += 3
        d[k] = values(rng, tuple(s), "normal")
        if d[k].shape == shape(k, A, N, diag):
            return None
        path = os.path.join(tmp, "bad.json")
        keep = rng.random() < 0.5
        if keep:
            with open(path, "w") as f:
                f.write("previous")
        model = real(d)
        try:
            save(path, model)
            return f"{k} of shape {s} is saved for A={A}, N={N}"
        except AssertionError:
            pass
        if keep and open(path).read() != "previous" or not keep and os.path.exists(path):
            return "an invalid model is refused but the file was written"
        write_model(path, d)
        try:
            load(path)
            return f"{k} of shape {s} is loaded for A={A}, N={N}"
        except AssertionError:
            pass
        # into the caller's arrays
        mine = {VMK.N: N, VMK.A: A}
        mine.update({VMK[x]: np.full(shape(x, A, N, diag), 7.5) for x in subset(rng) + [k]})
        before = copy.deepcopy(mine)
        try:
            load(path, mine)
            return f"{k} of shape {s} is loaded in place for A={A}, N={N}"
        except (AssertionError, ValueError):
            pass
        if same(before, mine):
            return "an invalid file is refused after the caller's arrays were changed"
        # invalid arrays of the caller
        good = make(rng, A, N, subset(rng), diag, ["normal"])
        write_model(path, good)
        mine = dict(real(make(rng, A, N, subset(rng), diag, ["normal"])))
        mine[VMK[k]] = np.full(tuple(s), 7.5)
        before = copy.deepcopy(mine)
        try:
            load(path, mine)
            return f"loads into {k} of shape {s} for A={A}, N={N}"
        except AssertionError:
            pass
        if same(before, mine):
            return "an invalid dictionary is refused after its arrays were changed"
        # a file of other dimensions does not fit into the caller's arrays
        A2, N2 = rng.choice([(1, 1), (A + 1, N), (A, N + 1), (1, N), (A, 1)])
        if (A2, N2) != (A, N):
            write_model(path, make(rng, A2, N2, subset(rng), diag, ["normal"]))
            mine = dict(real(make(rng, A, N, subset(rng) + ["E"], diag, ["normal"])))
            before = copy.deepcopy(mine)
            try:
                load(path, mine)
                return f"a file with A={A2}, N={N2} is loaded into arrays for A={A}, N={N}"
            except (AssertionError, ValueError):
                pass
            if same(before, mine):
                return "a file of other dimensions is refused after the caller's arrays were changed"
        return None


class Validate(Base):
    quick, deep = 200, 3000

    def run(self, case):
        rng = seeded(case)
        A, N = dims(rng)
        diag = rng.random() < 0.5
        verify, same_ = (vIO.verify_diagonal_model_parameters, vIO._same_diagonal_model) if diag else (vIO.verify_model_parameters, vIO._same_model)
        d = make(rng, A, N, subset(rng), diag, ["normal", "zero", "sparse", "one"])
        m = real(d)
        keep = copy.deepcopy(m)
        if self.asserts(verify, m):
            return f"a valid model is refused: {sorted(d)}"
        if same(keep, m):
            return "validation changed the model"
        # every way to be invalid
        for _ in range(4):
            bad = dict(real(d))
            how = rng.randrange(4)
            k = rng.choice(list(KEYS))
            if how == 0:
                del bad[rng.choice([VMK.N, VMK.A])]
            elif how == 1:
                bad[rng.choice([VMK.N, VMK.A])] += rng.choice([1, 5])
                if not any(v.shape != shape(self.short(x), int(bad[VMK.A]), int(bad[VMK.N]), diag) for x, v in bad.items() if x not in (VMK.A, VMK.N)):
                    continue
            else:
                s = list(shape(k, A, N, diag))
                if how == 2:
                    s[rng.randrange(len(s))] += rng.choice([1, 3])
                else:
                    s = rng.choice([s + [1], [1] + s, s[:-1], [N] + s, s + [A], list(shape(k, A, N, not diag))])
                if tuple(s) == shape(k, A, N, diag):
                    continue
                bad[VMK[k]] = np.ones(tuple(s))
            if not self.asserts(verify, bad):
                return f"an invalid model is accepted: A={A} N={N} { {str(x): np.shape(v) for x, v in bad.items()} }"
        err = self.equality(rng, d, A, N, diag, same_)
        if err or diag:
            return err
        return self.symmetry(rng, A, N)

    @staticmethod
    def short(k):
        return next(x for x in KEYS if VMK[x] is k)

    @staticmethod
    def asserts(f, *a):
        try:
            f(*a)
            return False
        except AssertionError:
            return True

    def equality(self, rng, d, A, N, diag, same_):
        e = copy.deepcopy(d)
        expect = True
        how = rng.randrange(6)
        if how == 0:
            # zeros spelled out or left out
            for k in KEYS:
                if k not in e and rng.random() < 0.5:
                    e[k] = np.zeros(shape(k, A, N, diag))
                elif k in e and not np.any(e[k]) and rng.random() < 0.5:
                    del e[k]
        elif how == 1:
            for k in list(e):
                if k in KEYS:
                    e[k] = e[k] * (1 + 1e-13)
        elif how in (2, 3):
            k = rng.choice(list(KEYS))
            v = np.array(e.get(k, np.zeros(shape(k, A, N, diag))), dtype=float)
            i = tuple(rng.randrange(x) for x in v.shape)
            v[i] += rng.choice([1e-3, 0.01, -1.0, 3.0, 1e3]) * (1 + abs(v[i]))
            e[k] = v
            expect = False
        elif how == 4:
            ks = [k for k in e if k in KEYS and np.any(np.abs(e[k]) > 1e-3)]
            if ks:
                del e[rng.choice(ks)]
                expect = False
        else:
            A2, N2 = rng.choice([(A + 1, N), (A, N + 1), (N, A), (A + 2, N + 3)])
            if (A2, N2) != (A, N):
                e = make(rng, A2, N2, subset(rng), diag, ["normal", "zero"])
                expect = False
        a, b = real(d), real(e)
        ka, kb = copy.deepcopy(a), copy.deepcopy(b)
        for x, y in ((a, b), (b, a)):
            g = same_(x, y)
            if bool(g) != expect:
                return f"models are {'the same' if g else 'different'} (change {how}): A={A} N={N} {sorted(d)} and {sorted(e)}"
        if same(ka, a) or same(kb, b):
            return "the comparison changed a model"
        return None

    def symmetry(self, rng, A, N):
        d = make(rng, A, N, subset(rng), False, ["normal", "sparse", "zero"], sym=True)
        surf = modes = True
        for _ in range(rng.choice([0, 1, 1, 2])):
            k = rng.choice([x for x in d if x in KEYS and x != "w"] or [None])
            if k is None:
                break
            v = d[k]
            i = [rng.randrange(x) for x in v.shape]
            if A > 1 and rng.random() < 0.5:
                a, b = rng.sample(range(A), 2)
                i[-2:] = [a, b]
                v[tuple(i)] += 1.0 + abs(v[tuple(i)])
            else:
                # symmetric in the surfaces, not (always) in the modes
                j = i[:-2] + [i[-1], i[-2]]
                v[tuple(i)] += 1.0
                if i != j:
                    v[tuple(j)] += 1.0
        for k, v in d.items():
            if k in KEYS and k != "w":
                surf = surf and np.allclose(v, np.swapaxes(v, -1, -2))
        if "G2" in d:
            modes = modes and all(np.allclose(d["G2"][i, j], d["G2"][j, i]) for i in range(N) for j in range(N))
        if "G4" in d:
            modes = modes and all(np.allclose(d["G4"][i, j, k, l], d["G4"][j, i, l, k]) for i in range(N) for j in range(N) for k in range(N) for l in range(N))
        m = real(d)
        keep = copy.deepcopy(m)
        g = bool(vIO.model_parameters_are_symmetric_in_surfaces(m))
        if g != surf:
            return f"symmetric in the surfaces: {g} for {d}"[:600]
        g = bool(vIO.model_parameters_are_symmetric_in_modes(m))
        if g != modes:
            return f"symmetric in the modes: {g} for {d}"[:600]
        if same(keep, m):
            return "a symmetry check changed the model"
        return None


def diagonal_of(d):
    out = dict(d)
    for k in d:
        if k in KEYS and k != "w":
            out[k] = np.einsum("...aa->...a", d[k]).copy()
    return out


class Decouple(Base):
    quick, deep = 100, 1500

    def run(self, case):
        rng = seeded(case)
        A, N = dims(rng)
        d = make(rng, A, N, subset(rng), False, ["normal", "sparse", "zero", "one", "tiny"])
        with tmpdir() as tmp:
            fs = FSM.FileStructure(tmp, rng.randrange(3), rng.randrange(3))
            write_model(fs.path_vib_model, d)
            src = open(fs.path_vib_model, "rb").read()
            how = rng.randrange(3)
            if how == 0:
                dst = [os.path.join(tmp, "x.json")]
                vIO.remove_coupling_from_model(fs.path_vib_model, dst[0])
            elif how == 1:
                dst = [fs.path_har_model]
                if vIO.create_harmonic_model(fs) != dst[0]:
                    return "path of the harmonic model"
            else:
                before = rng.random()
                if before < 0.3:
                    with open(fs.path_rho_model, "w") as f:
                        f.write("{}" * 5000)
                elif before < 0.7:  # the sampling model of an earlier model of the same size
                    write_model(fs.path_vib_model, {k: v[..., ::-1, ::-1] if k in KEYS and k != "w" else v for k, v in d.items()})
                    vIO.create_basic_diagonal_model(fs)
                    write_model(fs.path_vib_model, d)
                dst = [fs.path_har_model, fs.path_rho_model]
                if vIO.create_basic_diagonal_model(fs) != dst[1]:
                    return "path of the sampling model"
            if open(fs.path_vib_model, "rb").read() != src:
                return "the source file changed"
            for p in dst:
                err = check_loaded(real(reference_load(p)) | {VMK.E: reference_load(p).get("E", np.zeros(A))}, diagonal_of(d), A, N, True)
                if err:
                    return f"{p}: {err}"
            # in memory
            m = real(d)
            vIO.fill_offdiagonal_of_model_with_zeros(m)
            want = copy.deepcopy(d)
            for k in want:
                if k in KEYS and k != "w":
                    want[k] = want[k] * np.eye(A)
            err = same({str(k): v for k, v in real(want).items()}, {str(k): v for k, v in m.items()})
            if err:
                return f"off-diagonal zeroed in memory: {err}"
            return self.weights(rng, fs, A, N)

    def weights(self, rng, fs, A, N):
        keys = lambda: ["w"] + [k for k in ("E", "G1") if rng.random() < 0.7]
        num = lambda: ["normal"]
        d = {k: (np.abs(v) + 0.05 if k == "w" else v) if k in KEYS else v for k, v in self.scaled(make(rng, A, N, keys(), False, num(), sym=True)).items()}
        R = rng.choice([A, A, 1, A + 1])
        r = {k: (np.abs(v) + 0.05 if k == "w" else v) if k in KEYS else v for k, v in self.scaled(make(rng, R, N, keys(), True, num())).items()}
        for x in (d, r):
            for k in ("G2", "G3", "G4"):
                if rng.random() < 0.2:
                    x[k] = np.zeros(shape(k, x["A"], N, x is r))
        high = None
        if rng.random() < 0.15:
            high = rng.choice([(d, "G2"), (r, "G2"), (d, "G3"), (r, "G3"), (d, "G4"), (r, "G4")])
            x, k = high
            x[k] = np.ones(shape(k, x["A"], N, x is r))
        write_model(fs.path_vib_model, d)
        path = rng.choice([fs.path_iter_model, fs.path_rho_model, fs.path_har_model])
        write_model(path, r)
        src, old = open(fs.path_vib_model, "rb").read(), open(path, "rb").read()
        try:
            vIO.recalculate_energy_values_of_diagonal_model(fs, path)
        except Exception:
            if high is None:
                raise
            return None if open(path, "rb").read() == old else "refused after the model was changed"
        if open(fs.path_vib_model, "rb").read() != src:
            return "re-weighting changed the coupled model"
        if high is not None:
            return f"{high[1]} is ignored by the re-weighting"
        lin, E = d.get("G1", np.zeros((N, A, A))), d.get("E", np.zeros((A, A)))
        x = r.get("G1", np.zeros((N, R)))
        new = np.zeros(R)
        for a in range(R):
            q = -x[:, a] / r["w"]
            V = E + np.einsum("n,nab->ab", q, lin) + np.eye(A) * 0.5 * (d["w"] * q * q).sum()
            new[a] = np.linalg.eigvalsh(V)[0] + 0.5 * (x[:, a] ** 2 / r["w"]).sum()
        got = reference_load(path)
        e = got.pop("E", np.zeros(R))
        if e.shape != (R,) or not np.allclose(e, new, rtol=1e-8, atol=1e-9):
            return f"energies {e} instead of {new}"
        err = check_loaded(real(dict(got, E=np.zeros(R))), {k: v for k, v in r.items() if k != "E"}, R, N, True)
        return f"re-weighted model: {err}" if err else None

    @staticmethod
    def scaled(d):
        return {k: (v / max(1.0, np.abs(v).max()) if k in KEYS else v) for k, v in d.items()}


class Rotate(Base):
    quick, deep = 60, 600

    def run(self, case):
        rng = seeded(case)
        A, N = dims(rng)
        if N > 3:
            N = 3
        if rng.random() < 0.3:
            a, t = rng.randrange(2, 11), rng.choice([0.0, 1.0, 1e-4, 1e-3, rng.random(), rng.random()])
            err = self.matrix(a, t, vIO.create_orthonormal_matrix_lambda_close_to_identity(a, t))
            if err:
                return f"order {a}: {err}"
        keys = subset(rng)
        d = Decouple.scaled(make(rng, A, N, keys, False, ["normal", "sparse"], sym=True))
        for k in d:
            if k in KEYS:
                d[k] = d[k] * rng.choice([1.0, 1.0, 100.0, 1e-3])
        with tmpdir() as tmp:
            fs = FSM.FileStructure(tmp, 0, 0)
            cur = d
            write_model(fs.path_vib_model, cur)
            saved = None
            for _ in range(rng.choice([1, 1, 2, 3])):
                src = open(fs.path_vib_model, "rb").read()
                how = rng.choice(["tuning", "given", "re-use"] if saved is not None else ["tuning", "given"])
                t = rng.choice([0.0, 1.0, 0.01, 0.5, 1e-3, 1e-6, 0.999, rng.random(), rng.random()])
                if how == "given" or (A == 1 and how == "tuning" and t > 0):
                    how = "given"
                    U = np.linalg.qr(np.random.RandomState(rng.randrange(2 ** 31)).normal(size=(A, A)))[0]
                    if rng.random() < 0.3:
                        U = np.eye(A)[rng.sample(range(A), A)]
                    given = U.copy()
                    vIO.create_fake_coupled_model(fs, rng.random(), given)
                    if not np.array_equal(given, U):
                        return "the given matrix changed"
                elif how == "re-use":
                    U = saved
                    vIO.create_fake_coupled_model(fs, transformation_matrix="re-use")
                else:
                    U = None
                    vIO.create_fake_coupled_model(fs, t)
                V = np.load(fs.path_ortho_mat)
                if V.shape != (A, A) or not np.allclose(V @ V.T, np.eye(A), atol=1e-8):
                    return f"saved matrix {V}"
                if U is not None and not np.array_equal(U, V):
                    return f"saved matrix {V} instead of {U}"
                if U is None:
                    err = self.matrix(A, t, V)
                    if err:
                        return err
                if open(fs.path_orig_model, "rb").read() != src:
                    return "the backup differs from the original model"
                new = {}
                for k, v in cur.items():
                    new[k] = np.einsum("bj,...jk,ck->...bc", V, v, V) if k in KEYS and k != "w" else v
                got = reference_load(fs.path_vib_model)
                err = check_loaded(real(dict({"E": np.zeros((A, A))}, **got)), new, A, N, False, exact=False)
                if err:
                    return f"rotated model ({how}): {err}"
                if "w" in got and not np.array_equal(got["w"], cur["w"]):
                    return "frequencies changed"
                cur, saved = got, V
            return self.refused(rng, fs, A, N)

    @staticmethod
    def matrix(A, t, V):
        if t == 0.0:
            return None if np.array_equal(V, np.eye(A)) else f"tuning 0 gives {V}"
        s = np.loadtxt(os.path.join(os.path.dirname(orthonormal.__file__), f"sequence_{A}.data"), delimiter=",")
        y = s[-1, 0] * t
        below = np.nonzero(s[:, 0] <= y)[0]
        i = len(s) - 1 if t == 1.0 else below[-1]
        K = np.triu(np.ones((A, A))) - np.tril(np.ones((A, A)))
        # the entry whose distance is selected by the tuning value: the last one not above it (up to rounding)
        w, Q = np.linalg.eigh(1j * K)
        U = lambda x: ((Q * np.exp(-1j * w * x)) @ Q.conj().T).real
        near = [j for j in range(max(0, i - 1), min(len(s), i + 2)) if j == i or abs(s[j, 0] - y) <= 1.1e-8 + 1.1e-5 * abs(y)]
        if not any(np.allclose(V, U(s[j, 1]), rtol=0, atol=1e-9) for j in near):
            return f"matrix of tuning {t} is not the exponential selected by the sequence: {V}"
        return None

    def refused(self, rng, fs, A, N):
        if rng.random() < 0.7:
            return None
        src = open(fs.path_vib_model, "rb").read()
        bad = np.eye(A) * rng.choice([1.5, 0.0]) if rng.random() < 0.6 else "reuse"
        if rng.random() < 0.5 and A > 1:
            # rows of length one which are not orthogonal
            bad = np.random.RandomState(rng.randrange(2 ** 31)).normal(size=(A, A))
            bad[1] = bad[0] + 0.1 * bad[1]
            bad /= np.linalg.norm(bad, axis=1)[:, np.newaxis]
        try:
            vIO.create_fake_coupled_model(fs, 0.1, bad)
        except Exception:
            return None if open(fs.path_vib_model, "rb").read() == src else "refused after the model was written"
        return f"the matrix {bad} is used"


def digest(path):
    return hashlib.sha512(open(path, "rb").read()).hexdigest()


class Prints(Base):
    """fingerprints: histories of model changes, sampling ids and stored results"""
    quick, deep = 40, 400

    def run(self, case):
        rng = seeded(case)
        with tmpdir() as tmp:
            ids = (rng.randrange(3), 0)
            fs = FSM.FileStructure(tmp, *ids)
            models = ["a", "b" * 100, '{"x": 1}', '{"x": 1} ', "é", "", "y" * 70000, "y" * 70000 + "z", "z" + "y" * 70000, "A", "\n", "{\n 1\n}", "{\n 2\n}", "{\n 2\n}\n",
                      "0" * 2500000, "0" * 2500000 + "1", "1" + "0" * 2500000]

            def write(p, text=None):
                with open(p, "w", encoding="UTF8") as f:
                    f.write(rng.choice(models) if text is None else text)
            vib, rho = (lambda: digest(fs.path_vib_model)), (lambda: digest(fs.path_rho_model))
            write(fs.path_vib_model)
            for i in range(3):
                fs.make_rho_directories(i)
                write(os.path.join(fs.path_data, f"rho_{i}", "parameters", os.path.basename(fs.path_rho_model)))
            if vIO.create_model_hash(FS=fs) != vib() or vIO.create_model_hash(path=fs.path_rho_model) != rho() or vIO.create_diagonal_model_hash(FS=fs) != rho() or vIO.create_diagonal_model_hash(path=fs.path_vib_model) != vib():
                return "fingerprint of a file"
            fs.generate_model_hashes()
            known = (vib(), rho())          # what the fingerprints have to be
            for _ in range(rng.randrange(8)):
                op = rng.randrange(6)
                if op == 0:
                    write(fs.path_vib_model)
                elif op == 1:
                    write(fs.path_rho_model)
                elif op == 2:
                    new = rng.randrange(3)
                    changed = new != fs.id_rho
                    fs.change_rho(new)
                    if changed:
                        fs.generate_model_hashes()
                        known = (vib(), rho())
                elif op == 3:
                    fs.generate_model_hashes(force_flag=True)
                    known = (vib(), rho())
                elif op == 4:
                    fs.generate_model_hashes()
                else:
                    fs = FSM.FileStructure(tmp, ids[0], rng.randrange(3))
                    fs.generate_model_hashes()
                    known = (vib(), rho())
                if (fs.hash_vib, fs.hash_rho) != known:
                    return f"fingerprints after operation {op}"
            fs.generate_model_hashes(force_flag=True)
            known = (vib(), rho())
            if (fs.hash_vib, fs.hash_rho) != known:
                return "fingerprints after a forced recomputation"
            return self.results(rng, fs, known) or self.analytic(rng, fs, known)

    def results(self, rng, fs, known):
        other = ["0" * 128, known[0][:-1] + ("0" if known[0][-1] != "0" else "1"), known[0].upper() + "x", "", known[1] + " "]
        P, T = rng.choice([3, 12]), rng.choice([10.0, 300.0])
        good, names, want = [], [], []
        # saved by a run with the current models
        res = PIMC.BoxResultPM(X=3) if rng.random() < 0.5 else PIMC.BoxResult(X=3)
        for i in range(rng.randrange(1, 6)):
            h = [rng.choice([known[0], known[0], known[0], rng.choice(other), None, known[1]]), rng.choice([known[1], known[1], known[1], rng.choice(other), None, known[0]])]
            n = rng.randrange(1, 4)
            a = np.arange(1, n + 1) * 1.0 + 10 * i
            p = fs.template_pimc.format(P=P, T=T, J=str(i))
            d = {"number_of_samples": n, "s_g": a, "s_rho": a + 0.25, "s_gP": a + 0.5, "s_gM": a + 0.75}
            d.update({k: v for k, v in zip(("hash_vib", "hash_rho"), h) if v is not None})
            if rng.random() < 0.3 and None not in h:
                x = type(res)(X=n)
                x.hash_vib, x.hash_rho, x.path_root, x.id_job = h[0], h[1], fs.path_rho_results, i
                x.partial_name = PIMC.partial(FN.pimc().format, P=P, T=T)
                x.scaled_g, x.scaled_rho = a, a + 0.25
                if isinstance(x, PIMC.BoxResultPM):
                    x.scaled_gofr_plus, x.scaled_gofr_minus = a + 0.5, a + 0.75
                x.save_results(n)
                if not os.path.isfile(p):
                    return f"results were not saved to {p}"
            else:
                np.savez(p, **d)
            names.append(p)
            if h == list(known):
                good.append(p)
                want += (a + 0.25).tolist()
        # other parameters, not read
        np.savez(fs.template_pimc.format(P=P + 1, T=T, J="0"), hash_vib=known[0], hash_rho=known[1], number_of_samples=1, s_g=[1e9], s_rho=[1e9], s_gP=[1.0], s_gM=[1.0])
        got = PP.prune_results_using_hashes(fs, list(names))
        if got != good:
            return f"of the results {[os.path.basename(x) for x in names]} only {[os.path.basename(x) for x in good]} match, used: {[os.path.basename(x) for x in got]}"
        thermo, ok = [], []
        for i in range(rng.randrange(4)):
            h = [rng.choice([known[0], known[0], rng.choice(other), None]), rng.choice([known[1], known[1], rng.choice(other), None])]
            p = fs.template_jackknife.format(P=P, T=T, X=i + 1)
            with open(p, "w") as f:
                json.dump({k: v for k, v in zip(("hash_vib", "hash_rho"), h) if v is not None}, f)
            thermo.append(p)
            if h == list(known):
                ok.append(p)
        if PP.prune_results_using_hashes(fs, list(thermo)) != ok:
            return "thermo files with another fingerprint are used"
        # the analysis
        res = type(res)()
        for k in rng.choice([(), (), ("hash_vib", "hash_rho"), ("hash_vib",), ("hash_rho",)]):
            delattr(fs, k)
        try:
            PP.load_pimc_data(fs, P, T, res)
        except AssertionError:
            return "no result is used although some match" if good else None
        if not good:
            return f"results of other models are used: {res.scaled_rho}"
        if sorted(res.scaled_rho.tolist()) != sorted(want):
            return f"samples {res.scaled_rho.tolist()} instead of those of the current models {want}"
        return None

    def analytic(self, rng, fs, known):
        import pibronic.julia_wrapper as JW
        other = ["0" * 128, known[0][:-1], ""]
        h = [rng.choice([known[0], known[0], rng.choice(other), known[1], None]), rng.choice([known[1], known[1], rng.choice(other), known[0], None])]
        T = rng.choice([10.0, 300.0, 77.25])
        entry = {"Z_sampling": 2.0, "E_sampling": 3.0, "Cv_sampling": 5.0, "Z_sampling+beta": 4.0, "Z_sampling-beta": 8.0}
        data = {k: v for k, v in zip(("hash_vib", "hash_rho"), h) if v is not None}
        data[f"{T:.2f}"] = entry
        with open(fs.path_analytic_rho, "w") as f:
            json.dump(data, f)
        fs.generate_model_hashes(force_flag=True)
        out = {}
        try:
            PP.load_analytic_data(fs, T, out)
            if h != list(known):
                return f"analytic data with the fingerprints of other models is used"
            if out != {"Z": 2.0, "E": 3.0, "Cv": 5.0, "alpha_plus": 0.5, "alpha_minus": 0.25}:
                return f"analytic data {out}"
        except (AssertionError, KeyError):
            if h == list(known):
                return "analytic data of the current models is refused"
            if out:
                return "analytic data is refused after it was used"
        for validate, use in ((JW.validate_old_rho_data, ("hash_vib", "hash_rho")), (JW.validate_old_model_data, ("hash_vib",))):
            old = copy.deepcopy(data)
            validate(old, fs)
            keep = all(data.get(k) == dict(zip(("hash_vib", "hash_rho"), known))[k] for k in use)
            want = dict(data) if keep else {}
            want.update({k: dict(zip(("hash_vib", "hash_rho"), known))[k] for k in use})
            if old != want:
                return f"cached analytic data {data} becomes {old}"
        # an update of the cached data
        src = {"path_analytic_rho": (JW.validate_old_rho_data, ("hash_vib", "hash_rho")), "path_analytic_orig": (JW.validate_old_model_data, ("hash_vib",))}
        for n, (validate, use) in src.items():
            p = getattr(fs, n)
            with open(p, "w") as f:
                json.dump(data, f)

            def compute(command, path_src, old_dict, beta):
                old_dict.update({"99.00": {"Z_rho": 1.5}})
                return True
            with mock.patch.object(JW, "compute", compute):
                JW.base_func(fs, 0.5, path_dst=p, path_src="x", validate=validate, command="c")
            keep = all(data.get(k) == dict(zip(("hash_vib", "hash_rho"), known))[k] for k in use)
            want = dict(data) if keep else {}
            want.update({k: dict(zip(("hash_vib", "hash_rho"), known))[k] for k in use})
            want["99.00"] = {"Z_rho": 1.5}
            if json.load(open(p)) != want:
                return f"updated analytic data {json.load(open(p))} instead of {want}"[:500]
        return self.wrappers(rng, fs, known, data, compute) or self.valid(rng, fs, known, other)

    def wrappers(self, rng, fs, known, data, compute):
        import pibronic.julia_wrapper as JW
        fs.generate_model_hashes(force_flag=True)
        commands = {k: "run {F:} {T:}" for k in ("analytical coupled", "analytical uncoupled", "sos", "trotter")}
        for f, a, p, use in ((JW.analytic_of_sampling_model, (), fs.path_analytic_rho, ("hash_vib", "hash_rho")), (JW.analytic_of_original_coupled_model, (), fs.path_analytic_orig, ("hash_vib",)),
                             (JW.sos_of_coupled_model, (7,), fs.template_sos_vib.format(B=7), ("hash_vib",)), (JW.trotter_of_coupled_model, (4, 7), fs.template_trotter_vib.format(P=4, B=7), ("hash_vib",))):
            old = rng.random() < 0.8
            if os.path.isfile(p):
                os.remove(p)
            if old:
                with open(p, "w") as g:
                    json.dump(data, g)
            keep = old and all(data.get(k) == dict(zip(("hash_vib", "hash_rho"), known))[k] for k in use)
            want = dict(data) if keep else {}
            want.update({k: dict(zip(("hash_vib", "hash_rho"), known))[k] for k in use})
            want["99.00"] = {"Z_rho": 1.5}
            with mock.patch.object(JW, "compute", compute), mock.patch.object(JW, "construct_command_dictionary", lambda: dict(commands)):
                f(fs, *a, 0.5)
            got = json.load(open(p))
            if got != want:
                return f"{f.__name__}: cached data {data if old else None} becomes {got}"[:500]
        return None

    def valid(self, rng, fs, known, other):
        d = {"hash_vib": rng.choice([known[0], known[1]] + other), "hash_rho": rng.choice([known[0], known[1]] + other)}
        ok = [d["hash_vib"] == known[0], d["hash_rho"] == known[1]]
        got = [fs.valid_vib_hash(d), fs.valid_rho_hash(d), fs.valid_vib_and_rho_hashes(d)]
        if got != ok + [all(ok)]:
            return f"validity {got} of {d}"[:400]
        return None


class Merge(Base):
    quick, deep = 150, 2000

    def run(self, case):
        rng = seeded(case)
        pm = rng.random() < 0.5
        cls = PIMC.BoxResultPM if pm else PIMC.BoxResult
        keys = {"s_g": "scaled_g", "s_rho": "scaled_rho"}
        if pm:
            keys.update({"s_gP": "scaled_gofr_plus", "s_gM": "scaled_gofr_minus"})
        with tmpdir() as tmp:
            paths, parts = [], []
            for i in range(rng.randrange(1, 6)):
                n = rng.choice([1, 1, 2, 3, 5, 8])
                d = {"number_of_samples": n}
                for k in ("s_g", "s_rho", "s_gP", "s_gM"):
                    d[k] = np.random.RandomState(rng.randrange(2 ** 31)).uniform(-1, 1, n)
                    d[k][d[k] == 0] = 0.5
                if rng.random() < 0.12:
                    d["s_rho"][rng.randrange(n)] = rng.choice([0.0, -0.0])
                if rng.random() < 0.1:
                    d["s_rho"][rng.randrange(n)] = rng.choice([5e-324, -1e-300])
                if rng.random() < 0.1:
                    d["s_g"][rng.randrange(n)] = 0.0
                for k in list(d):
                    if rng.random() < 0.08:
                        del d[k]
                d.update({"hash_vib": "x", "other": 3})
                p = os.path.join(tmp, f"{rng.randrange(10 ** 6)}_{i}.npz")
                np.savez(p, **d)
                paths.append(p)
                if all(k in d for k in list(keys) + ["number_of_samples"]):
                    parts.append(d)
            total = sum(int(d["number_of_samples"]) for d in parts)
            bounds = np.cumsum([0] + [int(d["number_of_samples"]) for d in parts]).tolist()
            limit = rng.choice([None, None, rng.choice(bounds), rng.choice(bounds) + rng.choice([-1, 1]), rng.randint(1, total + 3), total, total + 1])
            if limit is not None and limit < 1:
                limit = 1
            n = total if limit is None else min(limit, total)
            cat = {k: np.concatenate([d[k] for d in parts])[:n] if parts else np.zeros(0) for k in keys}
            zero = bool(np.any(cat["s_rho"] == 0))
            res = cls() if rng.random() < 0.7 else cls(X=rng.randrange(1, 9))
            order = list(paths)
            try:
                with contextlib.redirect_stdout(None):
                    res.load_multiple_results(paths) if limit is None else res.load_multiple_results(paths, limit)
            except AssertionError:
                return None if zero or not parts else f"refused: {[d['number_of_samples'] for d in parts]}, limit {limit}"
            if zero:
                return f"a zero denominator is used, limit {limit}"
            if not parts:
                return "merged although no file has the required quantities"
            if paths != order:
                return "the list of files changed"
            err = self.compare(res, cat, keys, n)
            if err:
                return f"files with {[d['number_of_samples'] for d in parts]} of {len(paths)}, limit {limit}: {err}"
            return self.single(rng, cls, keys, tmp)

    def compare(self, res, cat, keys, n):
        if int(res.samples) != n:
            return f"samples is {res.samples} instead of {n}"
        for k, a in keys.items():
            g = getattr(res, a)
            if g.shape != (n,) or not np.array_equal(g, cat[k]):
                return f"{a} = {g.tolist()} instead of {cat[k].tolist()}"
        return None

    def single(self, rng, cls, keys, tmp):
        """one file is saved and loaded again"""
        n = rng.choice([1, 2, 7])
        a = cls(X=n)
        cat = {}
        for k, name in keys.items():
            cat[k] = np.random.RandomState(rng.randrange(2 ** 31)).uniform(0.1, 1, n)
            setattr(a, name, cat[k].copy())
        a.hash_vib, a.hash_rho, a.path_root = "v", "r", tmp
        a.id_job = rng.choice([None, 0, 3, "4"])
        a.partial_name = PIMC.partial(FN.pimc().format, P=4, T=10.0)
        a.save_results(n)
        p = os.path.join(tmp, FN.pimc().format(P=4, T=10.0, J=int(a.id_job or 0)))
        b = cls() if rng.random() < 0.5 else cls(X=n)
        b.load_results(p)
        err = self.compare(b, cat, keys, n)
        if err:
            return f"saved and loaded: {err}"
        for m in (n + 1, n - 1, n + 3):
            if m:
                try:
                    cls(X=m).load_results(p)
                    return f"a file with {n} samples is loaded into a result of {m}"
                except AssertionError:
                    pass
        with np.load(p) as d:
            if str(d["hash_vib"]) != "v" or str(d["hash_rho"]) != "r":
                return "fingerprints of the saved results"
            d = {k: d[k] for k in d}
        del d[rng.choice(list(keys) + ["number_of_samples"])]
        np.savez(p, **d)
        try:
            cls().load_results(p)
            return "a file lacking a required quantity is loaded"
        except AssertionError:
            return None
