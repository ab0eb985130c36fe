"""Which analyses a call of statistical_analysis_of_pimc / jackknife_analysis_of_pimc starts.

The process pool is replaced by one that runs its tasks at once, the analysis of one
(bead number, temperature) by a recorder; its own contract is in c05.py.  The stored
files are a fixed list, so these contracts are bounded."""
import contextlib
import inspect
import multiprocessing as mp
from unittest import mock
from pyvc.contract import *
from pyvc.interp import ClassModel
import pibronic.stats.stats as ST
import pibronic.data.postprocessing as PP
import pibronic.data.file_structure as FSM
from .c06 import Lemma

OPERATIONS = {("statistical", "basic"): ST.basic_statistical_analysis, ("statistical", "alpha"): ST.alpha_statistical_analysis,
              ("jackknife", "basic"): ST.basic_jackknife_analysis, ("jackknife", "alpha"): ST.alpha_jackknife_analysis}
SIGNATURE = inspect.signature(ST.starmap_wrapper)
BEADS, TEMPERATURES = (4, 12, 100), (10.5, 300.0)
FILES = [f"/vp/data_set_3/rho_1/results/P{P}_T{T:.2f}_J{J}_data_points.npz" for J in (1, 0) for P in reversed(BEADS) for T in TEMPERATURES]


class Pool(ClassModel):
    """runs the tasks in the calling process, in their order"""
    def __init__(self, call):
        self.call = call

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass

    join = terminate = close

    def starmap(self, f, tasks, chunksize=None):
        return [self.call(f, list(t)) for t in tasks]

    def map(self, f, tasks, chunksize=None):
        return [self.call(f, [t]) for t in tasks]

    def apply(self, f, args=(), kwds=None):
        return self.call(f, list(args), dict(kwds or {}))

    def apply_async(self, f, args=(), kwds=None):
        return Done(self.call(f, list(args), dict(kwds or {})))

    def starmap_async(self, f, tasks, chunksize=None):
        return Done(self.starmap(f, tasks))

    def map_async(self, f, tasks, chunksize=None):
        return Done(self.map(f, tasks))

    imap = imap_unordered = map


class Done(ClassModel):
    def __init__(self, value):
        self.value = value

    def get(self, timeout=None):
        return self.value

    def wait(self, timeout=None):
        pass


class Dispatch(Lemma):
    """every bead number and temperature for which there are results is analysed with the chosen method"""
    bounded_note = f"one list of {len(FILES)} files, {len(BEADS)} bead numbers and {len(TEMPERATURES)} temperatures"

    def __init__(self, what, method):
        self.what, self.method = what, method
        self.target = f"pibronic.stats.stats:{what}_analysis_of_pimc"
        self.name = f"{what}_analysis_of_pimc {method}"

    def record(self, args, kwargs):
        b = SIGNATURE.bind(*args, **kwargs).arguments
        self.seen.append((b["FS"], b["P"], b["T"], b["statistical_operation"]))

    def overrides(self, c):
        return {ST.starmap_wrapper: lambda I, a, k: self.record(a, k), PP.retrive_pimc_file_list: lambda I, a, k: list(FILES),
                mp.Pool: lambda I, a, k: Pool(I.call), mp.get_context: lambda I, a, k: mp,
                FSM.FileStructure.generate_model_hashes: lambda I, a, k: None}

    @contextlib.contextmanager
    def patches(self, env):
        run = lambda f, a=(), k=None: f(*a, **(k or {}))
        with mock.patch.object(mp, "Pool", lambda *a, **k: Pool(run)), mock.patch.object(mp, "get_context", lambda *a: mp), \
             mock.patch.object(ST, "starmap_wrapper", lambda *a, **k: self.record(a, k)), \
             mock.patch.object(PP, "retrive_pimc_file_list", lambda FS: list(FILES)), \
             mock.patch.object(FSM.FileStructure, "generate_model_hashes", lambda *a, **k: None):
            yield

    def setup(self, c):
        return [c.obj(FSM.FileStructure, id_data=3, id_rho=1, path_root="/vp")]

    def build(self, call, FS):
        self.seen = []
        call(getattr(ST, self.what + "_analysis_of_pimc"), [FS], {"method": self.method})
        want = OPERATIONS[self.what, self.method]
        return [sorted({(P, T) for _, P, T, _ in self.seen}), all(o is want for *_, o in self.seen), all(f is FS for f, *_ in self.seen)]

    def effect(self, c, FS):
        return [[(P, T) for P in BEADS for T in TEMPERATURES], True, True]


CONTRACTS = {w: [Dispatch(w, m) for m in ("basic", "alpha")] for w in ("statistical", "jackknife")}
