"""C05: fingerprints of the models, and what is used with them.

Models, results and analytic data are files of the ghost file system with symbolic texts,
symbolic fingerprints and symbolic numbers."""
import hashlib
import itertools
import json
import os
from pyvc.contract import *
from pyvc.contract import compare_values
from pyvc.core import *
from pyvc import files as F, fsmodel as FM
from pyvc import prove as PV
from pyvc.interp import ClassModel, MODELS
from pyvc.runner import Prop
import pibronic.data.file_structure as FSM
import pibronic.data.postprocessing as PP
import pibronic.julia_wrapper as JW
import pibronic.pimc.pimc as pm
from pibronic.vibronic import vIO
from .c06 import Lemma
from .io_oracle import Prints
from .model_contracts import FileContract, set_fs

IO, FST, POST, JUL = "pibronic.vibronic.vibronic_model_io:", "pibronic.data.file_structure:FileStructure", "pibronic.data.postprocessing:", "pibronic.julia_wrapper:"
VIB, RHO = "/vp/data_set_3/parameters/coupled_model.json", "/vp/data_set_3/rho_1/parameters/sampling_model.json"


def digest(text):
    """the fingerprint of a text"""
    return MODELS[hashlib.sha512](None, F.SBytes(text)).hexdigest()


class JsonFile(ClassModel):
    """a file whose text states this dictionary (the order of the keys is free)"""
    def __init__(self, d):
        self.d = d

    def vc_compare(self, name, other, hyps, out, emit):
        if not isinstance(other, (str, F.SStr)):
            emit(name, PV.Verdict(False, "", f"{other!r} instead of a text"))
            return
        try:
            d = MODELS[json.loads](None, other)
        except SymRaise as e:
            emit(name, PV.Verdict(False, "", f"not JSON: {e}"))
            return
        compare_values(name, d, self.d, hyps, out, set())


def fs_object(c, have="vr", **more):
    """what a FileStructure carries: the paths of both models and perhaps fingerprints"""
    o = c.obj(FSM.FileStructure, id_data=3, id_rho=1, path_vib_model=VIB, path_rho_model=RHO, path_root="/vp", **more)
    for k, n in (("v", "hash_vib"), ("r", "hash_rho")):
        if k in have:
            o.attrs[n] = c.text("fs_" + n)
    return o


# ------------------------------------------------------------------ fingerprints of files
class Print(FileContract):
    """the fingerprint is that of the whole text of the file; without a file it is refused"""
    def __init__(self, what, how, there):
        self.what, self.how, self.there = what, how, there
        self.target = IO + ("create_model_hash" if what == "vib" else "create_diagonal_model_hash")
        self.name = f"{self.target.split(':')[1]} {how} {'' if there else 'no file'}"

    def setup(self, c):
        self.texts = {VIB: c.text("vib"), RHO: c.text("rho")}
        mine = {"vib": VIB, "rho": RHO}[self.what]
        set_fs({p: t for p, t in self.texts.items() if self.there or p != mine})
        return {"structure": [fs_object(c)], "path": [None, mine], "other path": [None, RHO if mine == VIB else VIB], "both": [fs_object(c), "/vp/none"], "nothing": []}[self.how]

    def effect(self, c, FS=None, path=None):
        if self.how == "nothing":
            raise SymRaise(AssertionError)
        p = {"vib": VIB, "rho": RHO}[self.what] if FS is not None else path
        if p not in F.fs():
            raise SymRaise(AssertionError)
        return digest(self.texts[p])


class Generate(FileContract):
    """missing fingerprints are computed, all of them if forced"""
    def __init__(self, have, force):
        self.have, self.force = have, force
        self.target = FST + ".generate_model_hashes"
        self.name = f"generate_model_hashes having '{have}' {'forced' if force else ''}"

    def setup(self, c):
        self.texts = {VIB: c.text("vib"), RHO: c.text("rho")}
        set_fs(dict(self.texts, **{"/vp/else": c.text("else")}))
        return [fs_object(c, self.have)] + ([True] if self.force else [])

    def effect(self, c, FS, force=False):
        if self.have == "vr" and not force:
            return None
        FS.attrs["hash_vib"], FS.attrs["hash_rho"] = digest(self.texts[VIB]), digest(self.texts[RHO])
        return None


class Valid(FileContract):
    """a dictionary is valid exactly when the fingerprint it states is the current one"""
    def __init__(self, what, have, keys):
        self.what, self.have, self.keys = what, have, keys
        self.target = FST + {"v": ".valid_vib_hash", "r": ".valid_rho_hash", "vr": ".valid_vib_and_rho_hashes"}[what]
        self.name = f"{self.target.split('.')[-1]} having '{have}' given '{keys}'"

    def setup(self, c):
        d = {n: c.text("given_" + n) for k, n in (("v", "hash_vib"), ("r", "hash_rho")) if k in self.keys}
        d["300.00"] = 1.5
        ENG.track.append(d)
        return [fs_object(c, self.have), d]

    def effect(self, c, FS, d):
        r = []
        for k, n in (("r", "hash_rho"), ("v", "hash_vib")):
            if k in self.what:
                if k not in self.have:
                    raise SymRaise(AssertionError)
                if k not in self.keys:
                    raise SymRaise(Exception)
                r.append(to_b(d[n] == FS.attrs[n]))
                if not ENG.branch(r[-1]):
                    return False
        return mkbool(b_and(*r))


# ------------------------------------------------------------------ histories
class History(FileContract, Lemma):
    """a history of changes of the models; at its end the fingerprints are those of the current models"""
    bounded_note = "a fixed list of histories of up to five steps; texts unbounded"
    steps = ()

    def __init__(self, name, steps):
        self.name, self.steps = "lemma " + name, steps
        self.target = FST + ".generate_model_hashes"

    def label(self):
        return self.name

    def setup(self, c):
        FM.set_dirs([("/vp", True)])
        texts = {VIB: c.text("vib")}
        for i in range(3):
            texts[RHO.replace("rho_1", f"rho_{i}")] = c.text(f"rho{i}")
        set_fs(texts)
        self.new = {s: c.text(s) for s in ("new vib", "new rho")}
        return []

    def build(self, call):
        FS = call(FSM.FileStructure, ["/vp", 3, 1])
        M = FSM.FileStructure
        for s in self.steps:
            if s == "generate":
                call(M.generate_model_hashes, [FS])
            elif s == "force":
                call(M.generate_model_hashes, [FS], {"force_flag": True})
            elif s in self.new:
                F.put(call(getattr, [FS, "path_vib_model" if s == "new vib" else "path_rho_model"]), self.new[s])
            elif s == "start":
                FS = call(FSM.FileStructure, ["/vp", 3, call(getattr, [FS, "id_rho"])])
            else:
                call(M.change_rho, [FS, int(s)])
        ENG.ghost = {k: v for k, v in ENG.ghost.items() if k not in ("fs", "dirs")}
        return [call(getattr, [FS, n]) for n in ("hash_vib", "hash_rho")]

    def effect(self, c):
        rho, vib, new = 1, F.fs()[VIB], {}
        for i in range(3):
            new[i] = F.fs()[RHO.replace("rho_1", f"rho_{i}")]
        for s in self.steps:
            if s == "new vib":
                vib = self.new[s]
            elif s == "new rho":
                new[rho] = self.new[s]
            elif s.isdigit():
                rho = int(s)
        ENG.ghost = {k: v for k, v in ENG.ghost.items() if k not in ("fs", "dirs")}
        return [digest(vib), digest(new[rho])]


HISTORIES = {
    "a first computation": "generate", "a forced one after the coupled model changed": "generate,new vib,force",
    "a forced one after the sampling model changed": "generate,new rho,force",
    "another sampling model": "generate,2,generate", "another sampling model twice": "generate,2,generate,0,generate",
    "another sampling model and back": "generate,2,generate,1,generate", "another sampling model at once and back": "generate,2,1,generate",
    "the same sampling id again": "generate,1,generate", "both models": "generate,new vib,2,generate", "a changed other sampling model": "generate,2,new rho,generate",
    "a new start": "generate,new vib,new rho,start,generate", "a change before the computation": "2,new vib,generate", "forced at first": "force",
    "changed behind another id": "generate,new rho,2,generate,1,generate",
}


# ------------------------------------------------------------------ stored results
STATES = ["ok", "vib", "rho", "both", "-v", "-r", "-vr"]
# ok: both fingerprints are there and free; the others: which of them is missing


class Prune(FileContract):
    """a file is left in exactly when both of its fingerprints are there and equal the current ones"""
    bounded_note = "at most 4 files; fingerprints and sizes unbounded"
    target = POST + "prune_results_using_hashes"

    def __init__(self, files, thorough=False):
        self.files, self.thorough_only = files, thorough      # (kind, which fingerprints it has)
        self.name = "prune " + " ".join(f"{k}[{h}]" for k, h in files)

    def setup(self, c):
        FS = fs_object(c)
        self.d, fs, paths = [], {}, []
        for i, (kind, h) in enumerate(self.files):
            d = {n: c.text(f"{n}{i}") for k, n in (("v", "hash_vib"), ("r", "hash_rho")) if k in h}
            n = c.dim(f"n{i}")
            p = {"npz": f"/vp/r/P4_J{i}.npz", "thermo": f"/vp/r/P4_X{i}_thermo", "other": f"/vp/r/P4_X{i}.dat"}[kind]
            if kind == "npz":
                fs[p] = F.Npz(dict(d, number_of_samples=n, s_rho=c.arr(f"s_rho{i}", [n])))
            else:
                x = dict(d, E=c.real(f"E{i}"))
                fs[p] = MODELS[json.dumps](None, x)
            self.d.append(d)
            paths.append(p)
        set_fs(fs)
        ENG.track.append(paths)
        return [FS, paths]

    def effect(self, c, FS, paths):
        out = []
        for p, d, (kind, h) in zip(paths, self.d, self.files):
            if kind == "other":
                raise SymRaise(Exception)
            if h == "vr" and ENG.branch(b_and(*[to_b(d[n] == FS.attrs[n]) for n in ("hash_vib", "hash_rho")])):
                out.append(p)
        return out


class Recorder:
    """stands in for results: records the files it is asked to read"""
    def load_multiple_results(self, list_of_paths, desired_number_of_samples=None):
        raise NotImplementedError


def record_files(I, args, kwargs):
    o, paths = args[0], (list(args) + list(kwargs.values()))[1]
    o.attrs["used"] = sorted(paths)


class LoadPimc(FileContract):
    """only the results of these parameters which have the fingerprints of the current models are read"""
    bounded_note = "at most 4 files; fingerprints and sizes unbounded"
    target = POST + "load_pimc_data"

    def __init__(self, files, have, name, thorough=False):
        self.files, self.have, self.thorough_only = files, have, thorough      # (file name, which fingerprints it has)
        self.name = "load_pimc_data " + name

    def overrides(self, c):
        return {Recorder.load_multiple_results: record_files}

    def setup(self, c):
        FM.set_dirs([("/vp", True)])
        self.texts = {VIB: c.text("vib"), RHO: c.text("rho")}
        fs, self.d = dict(self.texts), {}
        d0 = "/vp/data_set_3/rho_1/results/"
        for i, (name, h) in enumerate(self.files):
            p = name if name.startswith("/") else d0 + name
            d = self.d[p] = {n: c.text(f"{n}{i}") for k, n in (("v", "hash_vib"), ("r", "hash_rho")) if k in h}
            fs[p] = F.Npz(dict(d, number_of_samples=c.dim(f"n{i}")))
        set_fs(fs)
        return [fs_object(c, self.have, template_pimc=d0 + "P{P:d}_T{T:.2f}_J{J:s}_data_points.npz", path_rho_results=d0), 4, 300.0, c.obj(Recorder)]

    def effect(self, c, FS, P, T, results):
        if self.have != "vr":
            FS.attrs["hash_vib"], FS.attrs["hash_rho"] = digest(self.texts[VIB]), digest(self.texts[RHO])
        used = []
        for p in sorted(self.d):
            d = self.d[p]
            if p.startswith("/vp/data_set_3/rho_1/results/P4_T300.00_J") and len(d) == 2:
                if ENG.branch(b_and(*[to_b(d[n] == FS.attrs[n]) for n in d])):
                    used.append(p)
        results.attrs["used"] = used
        return None


# ------------------------------------------------------------------ analytic data
ENTRY = ["Z_sampling", "E_sampling", "Cv_sampling", "Z_sampling+beta", "Z_sampling-beta"]
ANA = "/vp/data_set_3/rho_1/parameters/analytic_results.json"


class LoadAnalytic(FileContract):
    """used only with both fingerprints right; a refusal leaves the caller's dictionary alone"""
    target = POST + "load_analytic_data"
    frame_on_raise = True

    def __init__(self, keys, temps=("300.00",), there=True):
        self.keys, self.temps, self.there = keys, temps, there
        self.name = f"load_analytic_data having '{keys}' at {list(temps)} {'' if there else 'no file'}"

    def setup(self, c):
        self.d = {n: c.text("stored_" + n) for k, n in (("v", "hash_vib"), ("r", "hash_rho")) if k in self.keys}
        for t in self.temps:
            self.d[t] = {k: c.real(f"{k}{t}", positive=True) for k in ENTRY}
        set_fs({ANA: MODELS[json.dumps](None, self.d)} if self.there else {"/vp/else": "{}"})
        analytic = {"old": c.real("old")}
        ENG.track.append(analytic)
        return [fs_object(c, path_analytic_rho=ANA), 300.0, analytic]

    def effect(self, c, FS, T, analytic):
        if not self.there:
            raise SymRaise(Exception)
        for k, n in (("v", "hash_vib"), ("r", "hash_rho")):
            if k not in self.keys or not ENG.branch(to_b(self.d[n] == FS.attrs[n])):
                raise SymRaise(Exception)
        if "300.00" not in self.temps:
            raise SymRaise(Exception)
        e = self.d["300.00"]
        analytic.update(Z=e["Z_sampling"], E=e["E_sampling"], Cv=e["Cv_sampling"],
                        alpha_plus=e["Z_sampling"] / e["Z_sampling+beta"], alpha_minus=e["Z_sampling"] / e["Z_sampling-beta"])
        return None


class Cache(FileContract):
    """old analytic data survives exactly when the fingerprints it carries are the current ones"""
    def __init__(self, what, keys):
        self.what, self.keys = what, keys
        self.target = JUL + ("validate_old_rho_data" if what == "vr" else "validate_old_model_data")
        self.name = f"{self.target.split(':')[1]} having '{keys}'"

    def setup(self, c):
        d = {n: c.text("stored_" + n) for k, n in (("v", "hash_vib"), ("r", "hash_rho")) if k in self.keys}
        d["300.00"] = {"Z_rho": c.real("Z")}
        ENG.track.append(d)
        return [d, fs_object(c)]

    def effect(self, c, d, FS):
        validated(d, FS, self.what)
        return None


def validated(d, FS, what):
    names = [n for k, n in (("v", "hash_vib"), ("r", "hash_rho")) if k in what]
    if any(n not in d for n in names) or not ENG.branch(b_and(*[to_b(d[n] == FS.attrs[n]) for n in names])):
        d.clear()
    for n in names:
        d[n] = FS.attrs[n]


class Update(FileContract):
    """an update of cached data: stale entries are gone, the new one is stored with the current fingerprints"""
    def __init__(self, func, what, old, works=True):
        self.func, self.what, self.old, self.works = func, what, old, works
        self.target = JUL + func
        self.name = f"{func} old '{old}' {'' if works else 'failing'}"

    def overrides(self, c):
        def compute(I, args, kwargs):
            a = dict(zip(("command", "path_src", "old_dict", "input_beta"), args), **kwargs)
            if not self.works:
                return False
            a["old_dict"]["77.00"] = {"Z_rho": self.z}
            return True
        return {JW.compute: compute,
                JW.construct_command_dictionary: lambda I, a, k: {k: "run {F:} {T:}" for k in ("analytical coupled", "analytical uncoupled", "sos", "trotter")}}

    def setup(self, c):
        v = "/vp/data_set_3/parameters/"
        dst = {"analytic_of_sampling_model": ANA, "analytic_of_original_coupled_model": v + "original_analytic_results.json",
               "sos_of_coupled_model": v + "sos_B7.json", "trotter_of_coupled_model": v + "trotter_P4_B7.json"}[self.func]
        self.dst = dst
        self.z = c.real("Znew")
        self.d = None
        fs = {"/vp/else": c.text("else")}
        if self.old == "empty":
            fs[dst] = ""
        elif self.old != "none":
            self.d = {n: c.text("stored_" + n) for k, n in (("v", "hash_vib"), ("r", "hash_rho")) if k in self.old}
            self.d["300.00"] = {"Z_rho": c.real("Zold")}
            fs[dst] = MODELS[json.dumps](None, self.d)
        set_fs(fs)
        FS = fs_object(c, path_analytic_rho=ANA, path_analytic_orig=v + "original_analytic_results.json", path_orig_model=v + "original.json",
                       template_sos_vib=v + "sos_B{B:d}.json", template_trotter_vib=v + "trotter_P{P:d}_B{B:d}.json")
        beta = c.real("beta", positive=True)
        return [FS] + {"sos_of_coupled_model": [7], "trotter_of_coupled_model": [4, 7]}.get(self.func, []) + [beta]

    def effect(self, c, FS, *a):
        if not self.works:
            raise SymRaise(Exception)
        d = {} if self.d is None else dict(self.d)
        validated(d, FS, self.what)
        d["77.00"] = {"Z_rho": self.z}
        F.put(self.dst, JsonFile(d))
        return None


# ------------------------------------------------------------------ from a run to its analysis
class RunToAnalysis(FileContract, Lemma):
    """results carry the fingerprints of the run that made them, and only its models use them"""
    def __init__(self, cls):
        self.cls = cls
        self.target = "pibronic.pimc.pimc:" + cls + ".__init__"
        self.name = f"lemma results of a run ({cls}) and their use"

    def label(self):
        return self.name

    def setup(self, c):
        set_fs({})
        data = c.obj(None, beads=4, temperature=300.0, samples=c.dim("X"), hash_vib=c.text("run_vib"), hash_rho=c.text("run_rho"))
        return [data, fs_object(c)]

    ignore = ("data",)

    def build(self, call, data, FS):
        C = getattr(pm, self.cls)
        r = call(C, [data])
        for k, v in (("path_root", "/vp/r"), ("id_job", 7)):
            call(setattr, [r, k, v])
        call(C.save_results, [r, data.attrs["samples"]])
        names = sorted(F.fs())
        ENG.ghost = {k: v for k, v in ENG.ghost.items() if k != "fs"} | {"fs": F.fs()}
        out = call(PP.prune_results_using_hashes, [FS, list(names)])
        set_fs({})
        return names, out

    def effect(self, c, data, FS):
        p = "/vp/r/P4_T300.00_J7_data_points.npz"
        ok = all([ENG.branch(to_b(data.attrs[n] == FS.attrs[n])) for n in ("hash_vib", "hash_rho")])
        return [p], [p] if ok else []


class Analysis(FileContract):
    """the analysis of one temperature: what it stores carries the fingerprints its input was checked against"""
    target = "pibronic.stats.stats:starmap_wrapper"

    def __init__(self, samples):
        self.samples = samples
        self.name = f"starmap_wrapper {'results' if samples else 'nothing'}"

    def overrides(self, c):
        def pimc(I, args, kwargs):
            FS, P, T, r = args
            FS.attrs["hash_vib"], FS.attrs["hash_rho"] = self.h
            r.attrs["samples"] = self.samples
            self.seen.append(("pimc", P, T))

        def analytic(I, args, kwargs):
            FS, T, d = args
            d["Z"] = 1.5
            self.seen.append(("analytic", T))
        return {PP.load_pimc_data: pimc, PP.load_analytic_data: analytic, operation: lambda I, a, k: {"E": self.E, "used": a[2]["Z"], "T": a[0], "samples": a[1].attrs["samples"]}}

    def setup(self, c):
        self.seen = []
        ENG.track.append(self.seen)
        self.h = c.text("vib"), c.text("rho")
        self.E = c.real("E")
        set_fs({})
        return [fs_object(c, "", template_jackknife="/vp/r/P{P:d}_T{T:.2f}_X{X:d}_thermo"), 4, 300.0, operation]

    def effect(self, c, FS, P, T, op):
        FS.attrs["hash_vib"], FS.attrs["hash_rho"] = self.h
        F.put(f"/vp/r/P4_T300.00_X{self.samples}_thermo", JsonFile({"E": self.E, "used": 1.5, "T": 300.0, "samples": self.samples, "hash_vib": self.h[0], "hash_rho": self.h[1]}))
        return None


def operation(T, results, rho):
    raise NotImplementedError


HAVE = ["vr", "v", "r", ""]
CONTRACTS = [Print(w, h, t) for w in ("vib", "rho") for h in ("structure", "path", "other path", "both", "nothing") for t in (True, False) if t or h in ("structure", "path")]
CONTRACTS += [Generate(h, f) for h in HAVE for f in (False, True)]
CONTRACTS += [Valid(w, h, k) for w in ("v", "r", "vr") for h in HAVE for k in ("vr", "v", "r")]
CONTRACTS += [History(n, s.split(",")) for n, s in HISTORIES.items()]
F1 = [(k, h) for k in ("npz", "thermo") for h in HAVE]
CONTRACTS += [Prune([])] + [Prune([f]) for f in F1] + [Prune([("other", "")]), Prune([("npz", "vr"), ("other", "vr")])]
CONTRACTS += [Prune([a, b]) for a in F1 for b in F1 if "vr" in (a[1], b[1])]
CONTRACTS += [Prune([("npz", "vr")] * 3), Prune([("thermo", "vr")] * 3), Prune([("npz", "v"), ("npz", "vr"), ("npz", "r"), ("npz", "vr")])]
CONTRACTS += [Prune([("npz", a), ("npz", b), ("npz", c_)], True) for a, b, c_ in itertools.product(HAVE, repeat=3) if (a, b, c_) != ("vr",) * 3]
ONE, TWO = "P4_T300.00_J0_data_points.npz", "P4_T300.00_J12_data_points.npz"
MORE = [("P5_T300.00_J0_data_points.npz", "vr"), ("P4_T301.00_J0_data_points.npz", "vr"), ("/vp/data_set_3/rho_2/results/P4_T300.00_J1_data_points.npz", "vr")]
CONTRACTS += [LoadPimc([], "", "no result"), LoadPimc(MORE, "", "results of other parameters")]
CONTRACTS += [LoadPimc([(ONE, a)] + MORE[:1], h, f"one '{a}' having '{h}'") for a in HAVE for h in HAVE]
CONTRACTS += [LoadPimc([(ONE, a), (TWO, b)], "", f"two '{a}' '{b}'") for a in HAVE for b in HAVE]
CONTRACTS += [LoadAnalytic(k) for k in HAVE] + [LoadAnalytic("vr", ()), LoadAnalytic("vr", ("299.99", "300.00")), LoadAnalytic("vr", ("3.00",)), LoadAnalytic("vr", there=False)]
CONTRACTS += [Cache(w, k) for w in ("vr", "v") for k in HAVE]
CONTRACTS += [Update(f, w, o) for f, w in (("analytic_of_sampling_model", "vr"), ("analytic_of_original_coupled_model", "v"), ("sos_of_coupled_model", "v"), ("trotter_of_coupled_model", "v"))
              for o in ["none", "empty", "x"] + HAVE[:3]]
CONTRACTS += [Update("analytic_of_sampling_model", "vr", o, False) for o in ("none", "vr")]
CONTRACTS += [RunToAnalysis(x) for x in ("BoxResult", "BoxResultPM")] + [Analysis(12)]
PROPERTY = Prop("C05", CONTRACTS, [x.label() for x in CONTRACTS], Prints())
