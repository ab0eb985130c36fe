"""C06: run parameters are recovered exactly from result file names"""
import os
import shutil
import tempfile
import types
from pyvc.contract import *
from pyvc.contract import Contract as _C
from pyvc import strings as ST_
from pyvc.runner import Prop, E2E
import pibronic.data.file_name as FN
import pibronic.data.postprocessing as PP
import pibronic.pimc.pimc as PIMC

POST = "pibronic.data.postprocessing:"
NUMS = [0, 1, 2, 7, 10, 12, 64, 100, 999, 12345, 10 ** 7]
DIRS = ["/a", "/data_set_3/rho_4/results", "/P7_T12.50_J3_data_points.npz/x", "/trotter_P3_B9.json/P5", "/w_B3/_X4_thermo/_J9_data_/s", "/_T1_B2_P3_X5", "rel/P8"]


def directory(c, name="dir", arity=0):
    return c.text(name, excl="", last_excl="/", gen=lambda r, e, *i: r.choice(DIRS), arity=arity)


def number(c, name):
    return c.int(name, lo=0, choices=NUMS)


def temp(c, name="T"):
    return c.real(name, positive=True, gen=lambda r, e: r.choice([0.5, 1.0, 10.25, 77.125, 299.996, 300.0, 301.005, 1234.567, r.uniform(1, 900)]))


def round2(x):
    return S(fn("round2", to_p(x)))


class Lemma(_C):
    """real name building followed by the real extraction"""
    parts = ()

    def function(self):
        return resolve(self.target)

    def check_signature(self, args):
        pass

    def build(self, call, *args):
        raise NotImplementedError

    def invoke_symbolic(self, I, args):
        return self.build(I.call, *args)

    def invoke_real(self, args):
        return self.build(lambda f, a=(), k=None: f(*a, **(k or {})), *args)

    def both(self, call, d, name, f):
        """in a directory given without and with the trailing slash"""
        join = lambda a, b: call(os.path.join, [a, b])
        return [call(f, [join(d, name)]), call(f, [join(d + "/", name)])]


class PimcName(Lemma):
    target = POST + "extract_bead_value_from_pimc_file_path"
    name = "lemma pimc name -> beads, temperature, job"

    def setup(self, c):
        data = c.obj(None, beads=number(c, "P"), temperature=temp(c), samples=c.dim("X"), hash_vib="v", hash_rho="r")
        return [data, number(c, "J"), directory(c)]

    def build(self, call, data, J, d):
        out = []
        for cls in (PIMC.BoxResult, PIMC.BoxResultPM):
            for dd in (d, d + "/"):
                r = call(cls, [data])
                for k, v in (("path_root", dd), ("id_job", J)):
                    if isinstance(r, Obj):
                        r.attrs[k] = v
                    else:
                        setattr(r, k, v)
                p = call(resolve("pibronic.pimc.pimc:BoxResult.compute_path_to_file"), [r])
                out += [call(getattr(PP, f), [p]) for f in ("extract_bead_value_from_pimc_file_path", "extract_temperature_value_from_pimc_file_path", "extract_job_value_from_pimc_file_path")]
        return out

    def effect(self, c, data, J, d):
        return [data.attrs["beads"], round2(data.attrs["temperature"]), J] * 4


class ThermoName(Lemma):
    target = POST + "extract_sample_value_from_thermo_file_path"
    name = "lemma jackknife name -> beads, temperature, samples"

    def setup(self, c):
        return [number(c, "P"), temp(c), number(c, "X"), directory(c)]

    def build(self, call, P, T_, X, d):
        n = call(call(FN.jackknife).format, [], dict(P=P, T=T_, X=X))
        return [self.both(call, d, n, getattr(PP, f)) for f in ("extract_bead_value_from_thermo_file_path", "extract_temperature_value_from_thermo_file_path", "extract_sample_value_from_thermo_file_path")]

    def effect(self, c, P, T_, X, d):
        return [[P] * 2, [round2(T_)] * 2, [X] * 2]


class SosName(Lemma):
    target = POST + "extract_basis_value_from_sos_file_path"
    name = "lemma sos name -> basis size"

    def setup(self, c):
        return [number(c, "B"), directory(c)]

    def build(self, call, B, d):
        n = call(call(FN.sos).format, [], dict(B=B))
        return self.both(call, d, n, PP.extract_basis_value_from_sos_file_path)

    def effect(self, c, B, d):
        return [B, B]


class TrotterName(Lemma):
    target = POST + "extract_bead_value_from_trotter_file_path"
    name = "lemma trotter name -> beads, basis size"

    def setup(self, c):
        return [number(c, "P"), number(c, "B"), directory(c)]

    def build(self, call, P, B, d):
        n = call(call(FN.trotter).format, [], dict(P=P, B=B))
        return self.both(call, d, n, PP.extract_bead_value_from_trotter_file_path) + self.both(call, d, n, PP.extract_basis_value_from_trotter_file_path)

    def effect(self, c, P, B, d):
        return [P, P, B, B]


class Pattern(Lemma):
    """the search patterns match the names: a pattern is the name with * for the value"""
    target = "pibronic.data.file_name:pimc"
    name = "lemma search patterns are the names with * for every value"

    def setup(self, c):
        return []

    def build(self, call):
        return [call(FN.pimc, [], dict(P="*", T="*", J="*")), call(FN.jackknife, [], dict(P="*", T="*", X="*")), call(FN.sos, ["*"]),
                call(FN.trotter, [], dict(P="*", B="*"))]

    def effect(self, c):
        return [call_with(FN.pimc, P="*", T="*", J="*"), call_with(FN.jackknife, P="*", T="*", X="*"), call_with(FN.sos, B="*"), call_with(FN.trotter, P="*", B="*")]


def call_with(f, **kw):
    """the default template with every replacement field replaced"""
    import string
    out = ""
    for lit, field, spec, conv in string.Formatter().parse(f()):
        out += lit + (kw[field] if field is not None else "")
    return out


def families(c, tag=""):
    """an arbitrary list of pimc paths: each file has its own values and its own directory"""
    n = c.dim("n" + tag, lo=0)
    P = c.arr("P" + tag, [n], "i8")
    T_ = c.arr("T" + tag, [n], positive=True, gen=lambda r, e, s: np.array([r.choice([10.0, 10.004, 77.125, 300.0, 9.5, 100.25]) for _ in range(s[0])]))
    J = c.arr("J" + tag, [n], "i8")
    B = c.arr("B" + tag, [n], "i8")
    d = directory(c, "dirs" + tag, arity=1)
    pimc = SSeq(n.p, lambda k: d(S(k)) + "/" + ST_.fmt(FN.pimc(), (), dict(P=S(P.at([k])), T=S(T_.at([k])), J=S(J.at([k])))))
    sos = SSeq(n.p, lambda k: d(S(k)) + "/" + ST_.fmt(FN.sos(), (), dict(B=S(B.at([k])))))
    return types.SimpleNamespace(n=n, P=P, T=T_, J=J, B=B, pimc=pimc, sos=sos)


def values(f, a, r=False):
    return ("of", f.n.p, lambda k: S(fn("round2", a.at([k]))) if r else S(a.at([k])))


class BeadList(_C):
    target = POST + "extract_bead_paramater_list"

    def setup(self, c):
        self.f = families(c)
        return [self.f.pimc]

    def effect(self, c, l):
        return ST_.SymList(values(self.f, self.f.P), True)


class TempList(_C):
    target = POST + "extract_temperature_paramater_list"

    def setup(self, c):
        self.f = families(c)
        return [self.f.pimc]

    def effect(self, c, l):
        return ST_.SymList(values(self.f, self.f.T, True), True)


class SosList(_C):
    target = POST + "extract_sos_basis_paramater_list"

    def setup(self, c):
        self.f, self.g = families(c), families(c, "2")
        return [self.f.sos, self.g.sos]

    def effect(self, c, a, b):
        return ST_.SymList(("and", values(self.f, self.f.B), values(self.g, self.g.B)), True)


class Lists(_C):
    target = POST + "extract_parameter_lists"

    def setup(self, c):
        self.f, self.g, self.h = families(c), families(c, "2"), families(c, "3")
        return [self.f.pimc, self.g.sos, self.h.sos]

    def effect(self, c, *a):
        return (ST_.SymList(values(self.f, self.f.P), True), ST_.SymList(values(self.f, self.f.T, True), True),
                ST_.SymList(("and", values(self.g, self.g.B), values(self.h, self.h.B)), True))


class Oracle(E2E):
    quick, deep = 40, 400

    def case(self, rng, hints):
        num_ = lambda: rng.choice([0, 1, 2, 3, 5, 9, 10, 12, 16, 20, 64, 100, 101, 128, 999, 1000, 5000, 10 ** 6, rng.randint(0, 10 ** 7)])
        tmp = lambda: rng.choice([1.0, 5.5, 9.99, 10.0, 77.25, 100.0, 299.996, 300.0, 301.005, 1000.5, round(rng.uniform(1, 2000), 4)])
        n = rng.choice([1, 2, 3, 6, 12])
        return {"pimc": [[num_(), tmp(), num_(), num_()] for _ in range(n)], "sos": [num_() for _ in range(rng.choice([1, 2, 5]))],
                "rho": [num_() for _ in range(rng.choice([1, 2, 5]))], "trotter": [[num_(), num_()] for _ in range(n)],
                "dup": rng.random() < 0.5, "id": [rng.randint(0, 30), rng.randint(0, 30)],
                "dir": rng.choice(["plain", "P7_T12.50_J3_data_points.npz", "trotter_P3_B9.json", "x_B3_X4_thermo_J9_data_", "_T5_J6_P1_B0"])}

    def run(self, case):
        from pibronic.data.file_structure import FileStructure
        tmp = tempfile.mkdtemp(prefix="vc06")
        try:
            root = os.path.join(tmp, case["dir"])
            os.makedirs(root)
            FS = FileStructure(root, *case["id"])
            touch = lambda p: open(p, "w").close()
            pim, thermo = [], []
            for P, T_, J, X in case["pimc"]:
                for cls in (PIMC.BoxResult, PIMC.BoxResultPM):
                    r = cls(data=types.SimpleNamespace(beads=P, temperature=T_, samples=1, hash_vib="a", hash_rho="b"))
                    r.path_root, r.id_job = FS.path_rho_results, J
                    p = r.compute_path_to_file()
                    want = [P, float(f"{T_:.2f}"), J]
                    got = [PP.extract_bead_value_from_pimc_file_path(p), PP.extract_temperature_value_from_pimc_file_path(p), PP.extract_job_value_from_pimc_file_path(p)]
                    if got != want:
                        return f"{p}: extracted {got} instead of {want}"
                    rel = os.path.basename(p)
                    if PP.extract_bead_value_from_pimc_file_path(rel) != P:
                        return f"{rel}: beads"
                if os.path.dirname(os.path.abspath(p)) != os.path.abspath(FS.path_rho_results):
                    return f"{p} is not stored in {FS.path_rho_results}"
                touch(p)
                q = FS.template_jackknife.format(P=P, T=T_, X=X)
                got = [PP.extract_bead_value_from_thermo_file_path(q), PP.extract_temperature_value_from_thermo_file_path(q), PP.extract_sample_value_from_thermo_file_path(q)]
                if got != [P, float(f"{T_:.2f}"), X]:
                    return f"{q}: extracted {got} instead of {[P, float(f'{T_:.2f}'), X]}"
                touch(q)
            for B in case["sos"]:
                q = FS.template_sos_vib.format(B=B)
                if PP.extract_basis_value_from_sos_file_path(q) != B:
                    return f"{q}: basis"
                touch(q)
            for B in case["rho"]:
                q = FS.template_sos_rho.format(B=B)
                if PP.extract_basis_value_from_sos_file_path(q) != B:
                    return f"{q}: basis"
                touch(q)
            tro = {}
            tl = []
            for P, B in case["trotter"]:
                q = FS.template_trotter_vib.format(P=P, B=B)
                got = [PP.extract_bead_value_from_trotter_file_path(q), PP.extract_basis_value_from_trotter_file_path(q)]
                if got != [P, B]:
                    return f"{q}: extracted {got} instead of {[P, B]}"
                tl.append(q)
                tro.setdefault(B, []).append(P)
            got = {k: list(v) for k, v in PP.extract_trotter_paramater_list(tl).items()}
            if got != tro:
                return f"trotter parameters {got} instead of {tro}"
            lp, lj, lv, lr = PP.retrive_all_file_paths(FS)
            wp = sorted({P for P, _, _, _ in case["pimc"]})
            wt = sorted({float(f"{t:.2f}") for _, t, _, _ in case["pimc"]})
            wb = sorted(set(case["sos"]) & set(case["rho"]))
            for lst in ([lp, lp + lp] if case["dup"] else [lp]):
                if PP.extract_bead_paramater_list(lst) != wp:
                    return f"beads {PP.extract_bead_paramater_list(lst)} instead of {wp}"
                if PP.extract_temperature_paramater_list(lst) != wt:
                    return f"temperatures {PP.extract_temperature_paramater_list(lst)} instead of {wt}"
                if PP.extract_sos_basis_paramater_list(lv, lr) != wb:
                    return f"basis sizes {PP.extract_sos_basis_paramater_list(lv, lr)} instead of {wb}"
                if tuple(map(list, PP.extract_parameter_lists(lst, lv, lr))) != (wp, wt, wb):
                    return f"parameter lists {PP.extract_parameter_lists(lst, lv, lr)} instead of {(wp, wt, wb)}"
            if sorted(PP.extract_sample_value_from_thermo_file_path(x) for x in lj) != sorted(X for _, _, X in {(P, f"{t:.2f}", X) for P, t, J, X in case["pimc"]}):
                return "thermo files found"
            return None
        finally:
            shutil.rmtree(tmp, ignore_errors=True)


PROPERTY = Prop("C06", [PimcName, ThermoName, SosName, TrotterName, Pattern, BeadList, TempList, SosList, Lists],
                [PimcName.name, ThermoName.name, SosName.name, TrotterName.name, "extract_bead_paramater_list", "extract_temperature_paramater_list",
                 "extract_sos_basis_paramater_list", "extract_parameter_lists", Pattern.name], Oracle())
