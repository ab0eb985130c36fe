"""C16: operator files"""
import os
import numpy as np
from pyvc.runner import Prop
from .io_oracle import Base, tmpdir, seeded, reference_load, KEYS as IKEYS, FSM
from .op_contracts import *


def write_op(rng, A, N, dens, digits, order):
    """an operator file and the model it states"""
    head = ["OP_DEFINE-SECTION", "title", "IP", "end-title", "end-op_define-section", "", "", "PARAMETER-SECTION", "", "# parameters", "#        Frequencies", "# ----------", ""]
    L = list(head)

    def value():
        v = rng.choice([rng.uniform(-1, 1), rng.uniform(-1, 1), rng.uniform(-1e-7, 1e-7), rng.uniform(-90, 90), 1.0, -0.25])
        t = rng.choice([repr(v), f"{v:.6f}", f"{v:.8E}", f"{v:+.5f}"])
        return t, float(t)

    def put(out, name, cells, arr):
        t, v = value()
        for c in cells:
            arr[c] = v
        out.append(name + " " * rng.randrange(1, 16) + "=" + " " * rng.randrange(1, 12) + t + " " * rng.randrange(1, 6) + ", ev")

    def section(out):
        if order:
            rng.shuffle(out)
        L.extend(out)
        L.append("")
    s = lambda i: f"{i + 1:0{digits}d}"
    dims = (A, A)
    m = {"w": np.zeros(N), "E": np.zeros(dims), "G1": np.zeros((N,) + dims), "G2": np.zeros((N,) * 2 + dims), "G3": np.zeros((N,) * 3 + dims), "G4": np.zeros((N,) * 4 + dims)}
    for j in range(N):
        put(L, f"w{j + 1:02}", [(j,)], m["w"])
    L += ["", "#        Zeropoint energy     1.3", "", "#   Electronic Hamitonian", "#   Vertical energies - Zeropoint", "# -----", ""]
    for a in range(A):
        put(L, f"EH_s{a + 1:02}_s{a + 1:02}", [(a, a)], m["E"])
    L += ["", "#     Electronic transition moments", "# -----", "#     Magnetic transition moments", "# ------", "#  Linear Coupling Constants", "# ----", ""]
    out = {k: [] for k in SECTIONS}
    sure = dens == 1
    for a in range(A):
        for b in range(a, A):
            x, y = (a, b) if rng.random() < 0.5 else (b, a)
            on = lambda: sure or rng.random() < dens
            sym = lambda mm: [tuple(q) + t for q in mm for t in ((a, b), (b, a))]
            for j in range(N):
                if on():
                    put(out["C1"], f"C1_s{s(x)}_s{s(y)}_v{s(j)}", sym([(j,)]), m["G1"])
                if on():
                    put(out["C2d"], f"C2_s{s(a)}s{s(b)}_v{s(j)}v{s(j)}", sym([(j, j)]), m["G2"])
                if on():
                    put(out["C3"], f"C3_s{s(a)}_s{s(b)}_v{s(j)}", sym([(j, j, j)]), m["G3"])
                if on():
                    put(out["C4"], f"C4_s{s(a)}_s{s(b)}_v{s(j)}", sym([(j, j, j, j)]), m["G4"])
                for k in range(N):
                    if k < j and on():
                        put(out["C2"], f"C2_s{s(a)}s{s(b)}_v{s(j)}v{s(k)}", sym([(j, k), (k, j)]), m["G2"])
                    if k != j and on():
                        put(out["B3"], f"B3_s{s(a)}s{s(b)}_v{s(j)}v{s(k)}", sym([(j, k, k)]), m["G3"])
                    if k != j and on():
                        put(out["B4"], f"B4_s{s(a)}s{s(b)}_v{s(j)}v{s(k)}", sym([(j, k, k, k)]), m["G4"])
                    if k < j and on():
                        put(out["A4"], f"A4_s{s(a)}s{s(b)}_v{s(j)}v{s(k)}", sym([(j, j, k, k)]), m["G4"])
    section(out["C1"])
    for h, ks in (("#  Diagonal Quadratic Coupling Constants", ["C2d"]), ("# Off_diagonal Quadratic Coupling Constants", ["C2"]), ("#  Cubic Coupling Constants", ["C3"]),
                  ("#  Quartic Coupling Constants", ["C4"]), ("#  Bi-Cubic Constants", ["B3"]), ("#  Bi-Quartic Constants", ["B4", "A4"])):
        L += [h, "# -----", ""]
        section([x for k in ks for x in out[k]])
    L += ["", "", "end-parameter-section", "", ""]
    return "\n".join(L), m


class Import(Base):
    """random operator files, lines of a section in any order"""
    quick, deep = 60, 800

    def run(self, case):
        rng = seeded(case)
        A = rng.choice([1, 2, 2, 3, 3, 4, 11])
        N = rng.choice([1, 2, 3, 4, 5, 12]) if A < 4 else rng.choice([1, 2])
        if N == 12:
            A = min(A, 2)
        text, m = write_op(rng, A, N, rng.choice([0, 0.1, 0.4, 1, 1]), 2, rng.random() < 0.8)
        with tmpdir() as tmp:
            p = os.path.join(tmp, "m.op")
            with open(p, "w") as f:
                f.write(text)
            os.mkdir(os.path.join(tmp, "x"))
            got = vIO.read_model_op_file(p)
            err = self.differs(got, m, A, N, {VMK.N: "N", VMK.A: "A"}, lambda k: VMK[k])
            if err:
                return f"{A} surfaces, {N} modes: read {err}"
            fs = FSM.FileStructure(os.path.join(tmp, "x"), 0, 0)
            if rng.random() < 0.5:      # an older model is replaced
                with open(fs.path_vib_model, "w") as f:
                    f.write(rng.choice(["", '{"number of modes": 1, "number of surfaces": 1, "energies": [[0.0]]}', "x" * 100000]))
            r = vIO.create_coupling_from_op_file(fs, p)
            if r != fs.path_vib_model:
                return f"returned {r}"
            err = self.differs(reference_load(r), m, A, N, {"N": "N", "A": "A"}, lambda k: k)
            if err:
                return f"{A} surfaces, {N} modes: saved {err}"
            with open(p) as f:
                if f.read() != text:
                    return "the operator file was changed"
        return None

    def differs(self, got, m, A, N, names, key):
        for k, nm in names.items():
            if got.get(k) != {"N": N, "A": A}[nm]:
                return f"{nm} = {got.get(k)}"
        if set(got) - set(names) - {key(k) for k in m}:
            return f"unknown parameters {set(got)}"
        for k, want in m.items():
            g = np.asarray(got.get(key(k), np.zeros_like(want)))
            if g.shape != want.shape:
                return f"{k} of shape {g.shape}"
            if not np.array_equal(g, want):
                i = tuple(np.argwhere(g != want)[0])
                return f"{k}[{', '.join(map(str, i))}] = {g[i]} instead of {want[i]}"
        return None


CONTRACTS = [Frequencies(), Energies(), Extract("extract_linear_couplings", ["C1"], 1), Extract("extract_quadratic_couplings", ["C2d", "C2"], 2),
             Extract("extract_cubic_couplings", ["C3"], 3), Extract("extract_quartic_couplings", ["C4"], 4), Extract("extract_bicubic_couplings", ["B3"], 3),
             Extract("extract_biquartic_couplings", ["B4", "A4"], 4), ReadOp(1), ReadOp(2), ReadOp(3), CreateFromOp()]
PROPERTY = Prop("C16", CONTRACTS, [x.label() for x in CONTRACTS], Import())
