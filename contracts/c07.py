"""C07: result files.

Files live in the ghost file system; each one has its own symbolic number of samples and
symbolic arrays.  All sizes, values and limits are unbounded; the number of files of the
functions which merge files is bounded (see FILES)."""
import itertools
import numpy as np
from pyvc.contract import *
from pyvc.core import *
from pyvc import files as F
from pyvc import prove as PV
from pyvc.interp import ClassModel
from pyvc.runner import Prop
import pibronic.pimc.pimc as pm
from .io_oracle import Merge
from .model_contracts import FileContract, set_fs
from .pimc_contracts import Fake

PM = "pibronic.pimc.pimc:"
ARRAYS = {"BoxResult": {"s_rho": "scaled_rho", "s_g": "scaled_g"}}
ARRAYS["BoxResultPM"] = dict(ARRAYS["BoxResult"], s_gP="scaled_gofr_plus", s_gM="scaled_gofr_minus")
EXTRA = {"BoxResult": ["s_gP", "s_gM"], "BoxResultPM": []}
FULL = ["number_of_samples", "s_rho", "s_g", "s_gP", "s_gM"]


def need(cls):
    return ["number_of_samples"] + list(ARRAYS[cls])


def stored(c, k, lack=(), more=()):
    """file k: its arrays have n_k samples each"""
    n = c.dim(f"n{k}")
    d = {"hash_vib": c.text(f"hv{k}"), "hash_rho": c.text(f"hr{k}"), "number_of_samples": n}
    d.update({x: c.arr(f"{x}{k}", [n]) for x in FULL[1:]})
    return {x: v for x, v in d.items() if x not in lack}


def path(k):
    return f"/vp/f{k}.npz"


def any_zero(a, stop=None):
    r = a.reader()
    n = a._shape[0] if stop is None else stop
    return to_b(Arr.make([n], lambda i: r(i)).__eq__(0.0).any())


class Result(FileContract):
    cls = "BoxResult"

    def result(self, c, samples):
        r = c.obj(getattr(pm, self.cls), samples=samples)
        for a in ARRAYS[self.cls].values():
            r.attrs[a] = (c.arr("old_" + a, [samples]) if not isinstance(samples, int) else Arr.make([num(samples)], lambda i: num(0)))
        return r


class LoadMany(Result):
    """the samples of the complete files in the given order, up to the limit"""
    bounded_note = "at most 4 files; sample counts, values and limits unbounded"
    def __init__(self, cls, lacks, limit, thorough=False, fresh_=True):
        self.cls, self.lacks, self.limit, self.fresh, self.thorough_only = cls, lacks, limit, fresh_, thorough
        self.target = PM + cls + ".load_multiple_results"
        self.name = f"merge {cls} {'limit' if limit else 'all'} [{'; '.join('-' + '-'.join(l) if l else 'complete' for l in lacks)}]" + ("" if fresh_ else " again")

    def setup(self, c):
        self.files = [stored(c, k, l) for k, l in enumerate(self.lacks)]
        set_fs({path(k): F.Npz(f) for k, f in enumerate(self.files)})
        paths = [path(k) for k in range(len(self.lacks))]
        ENG.track.append(paths)
        a = [self.result(c, 0 if self.fresh else c.dim("X")), paths]
        return a + ([c.int("limit", lo=1)] if self.limit else [])

    def effect(self, c, result, paths, limit=None):
        good = [f for f, l in zip(self.files, self.lacks) if not set(l) & set(need(self.cls))]
        if not good:
            raise SymRaise(AssertionError)
        starts = [num(0)]
        for f in good:
            starts.append(add(starts[-1], to_p(f["number_of_samples"])))
        total = starts[-1]
        if limit is not None and ENG.branch(le(to_p(limit), total)):
            total = to_p(limit)
        out = {k: Arr.make([total], lambda i: num(0)) for k in ARRAYS[self.cls]}
        parts = []
        for f, s, e in zip(good, starts, starts[1:]):
            if ENG.branch(le(total, s)):
                break
            n = sub(e, s) if ENG.branch(le(e, total)) else sub(total, s)
            if ENG.branch(any_zero(f["s_rho"], n)):
                raise SymRaise(AssertionError)
            parts.append((f, s, n))

        def cell(k):
            def at(i):
                v = parts[-1][0][k].reader()([sub(i[0], parts[-1][1])])
                for f, s, n in reversed(parts[:-1]):
                    v = ite(lt(i[0], add(s, n)), f[k].reader()([sub(i[0], s)]), v)
                return v
            return at
        result = Fake(result)
        result.samples = mkS(total)
        for k, a in ARRAYS[self.cls].items():
            setattr(result, a, Arr.make([total], cell(k)))


class LoadOne(Result):
    """one file"""
    def __init__(self, cls, lack, fresh_):
        self.cls, self.lack, self.fresh = cls, lack, fresh_
        self.target = PM + cls + ".load_results"
        self.name = f"load {cls} {'new' if fresh_ else 'sized'} -{lack}"

    def setup(self, c):
        self.f = stored(c, 0, self.lack)
        set_fs({path(0): F.Npz(self.f)})
        return [self.result(c, 0 if self.fresh else c.dim("X")), path(0)]

    def effect(self, c, result, p):
        f, result = self.f, Fake(result)
        if any(k not in f for k in need(self.cls)):
            raise SymRaise(AssertionError)
        if not self.fresh and not ENG.branch(eq(to_p(result.samples), to_p(f["number_of_samples"]))):
            raise SymRaise(AssertionError)
        result.samples = f["number_of_samples"]
        for k, a in ARRAYS[self.cls].items():
            setattr(result, a, f[k].copy())


class SaveOne(Result):
    """everything of the result is stored under the keys it is read with"""
    def __init__(self, cls, job):
        self.cls, self.job = cls, job
        self.target = PM + cls + ".save_results"
        self.name = f"save {cls} job {job}"

    def setup(self, c):
        X = c.dim("X")
        o = self.result(c, X)
        r = Fake(o)
        r.hash_vib, r.hash_rho = c.text("hv"), c.text("hr")
        r.id_job, r.path_root = self.job, "/vp/results"
        r.partial_name = pm.partial("P4_T300.00_J{J:d}.npz".format)
        set_fs({"/vp/results/old.npz": F.Npz({"x": 1})})
        return [o, X]

    def effect(self, c, r, n):
        o, r = r, Fake(r)
        d = {"hash_vib": r.hash_vib, "hash_rho": r.hash_rho, "number_of_samples": r.samples}
        d.update({k: getattr(r, a).copy() for k, a in ARRAYS[self.cls].items()})
        name = r.partial_name(J=int(self.job) if self.job is not None else 0)
        F.put("/vp/results/" + name, F.Npz(d))


class SaveLoad(Result):
    """lemma: what was saved is loaded again at the same positions"""
    def __init__(self, cls, many):
        self.cls, self.many = cls, many
        self.target = PM + cls + (".load_multiple_results" if many else ".load_results")
        self.name = f"lemma {cls} saved and {'merged' if many else 'loaded'}"

    def setup(self, c):
        X = c.dim("X")
        o = self.result(c, X)
        r = Fake(o)
        r.hash_vib, r.hash_rho, r.id_job, r.path_root = c.text("hv"), c.text("hr"), 7, "/vp/results"
        r.partial_name = pm.partial("P4_T300.00_J{J:d}.npz".format)
        set_fs({})
        self.want = {a: getattr(r, a).copy() for a in ARRAYS[self.cls].values()}
        self.X = X
        return [o, self.result(c, 0)]

    def invoke_symbolic(self, I, args):
        r, new = args
        I.call(getattr(pm, self.cls).save_results, [r, self.X])
        p = "/vp/results/P4_T300.00_J7.npz"
        C = getattr(pm, self.cls)
        I.call(C.load_multiple_results if self.many else C.load_results, [new, [p] if self.many else p])
        ENG.ghost = {k: v for k, v in ENG.ghost.items() if k != "fs"}
        return [new.attrs[a] for a in ARRAYS[self.cls].values()] + [new.attrs['samples']]

    ignore = ("new",)

    def effect(self, c, r, new):
        ENG.ghost = {k: v for k, v in ENG.ghost.items() if k != "fs"}
        if self.many and ENG.branch(any_zero(self.want["scaled_rho"])):
            raise SymRaise(AssertionError)
        for a in ARRAYS[self.cls].values():
            new.attrs[a] = self.want[a].copy()
        new.attrs["samples"] = self.X
        return [self.want[a] for a in ARRAYS[self.cls].values()] + [self.X]


class ClassMethod(Result):
    def check_signature(self, args):
        pass


class Keys(ClassMethod):
    """complete: yes exactly when every required key is there"""
    def __init__(self, cls, lack, check):
        self.cls, self.lack, self.check = cls, lack, check
        self.target = PM + cls + (".verify_result_keys_are_present" if check else ".result_keys_are_present_in")
        self.name = f"{'verify' if check else 'have'} {cls} keys -{'-'.join(lack)}"

    def setup(self, c):
        f = stored(c, 0, self.lack)
        return [F.NpzFile(f)]

    def invoke_symbolic(self, I, args):
        C = getattr(pm, self.cls)
        return I.call(C.verify_result_keys_are_present, [path(0), args[0]]) if self.check else I.call(C.result_keys_are_present_in, [args[0]])

    def effect(self, c, f):
        ok = not set(self.lack) & set(need(self.cls))
        if self.check:
            if not ok:
                raise SymRaise(AssertionError)
            return None
        return ok


class Number(ClassMethod):
    target = PM + "BoxResult.read_number_of_samples"
    name = "read_number_of_samples"

    def setup(self, c):
        self.f = stored(c, 0)
        set_fs({path(0): F.Npz(self.f)})
        return [path(0)]

    def invoke_symbolic(self, I, args):
        return I.call(pm.BoxResult.read_number_of_samples, args)

    def effect(self, c, p):
        return self.f["number_of_samples"]


class Empty(Result):
    def __init__(self, cls):
        self.cls, self.target = cls, PM + cls + ".load_multiple_results"
        self.name = f"merge {cls} nothing"

    def setup(self, c):
        set_fs({})
        return [self.result(c, 0), []]

    def effect(self, c, result, paths):
        raise SymRaise(AssertionError)


class Sized(ClassModel):
    """an array of this length"""
    def __init__(self, n):
        self.n = n

    def vc_freeze(self, snap, freeze):
        return self

    def vc_compare(self, name, other, hyps, out, emit):
        if not isinstance(other, Arr) or len(other._shape) != 1:
            emit(name, PV.Verdict(False, "", f"{other!r} instead of a one dimensional array"))
        else:
            emit(name + ".shape", PV.prove_eq(other._shape[0], self.n, hyps))


class Start(Result):
    """all arrays have as many entries as there are samples"""
    def __init__(self, cls):
        self.cls, self.target = cls, PM + cls + ".initialize_arrays"
        self.name = f"initialize_arrays {cls}"

    def setup(self, c):
        return [c.obj(getattr(pm, self.cls), samples=c.dim("X"))]

    def effect(self, c, r):
        for a in ARRAYS[self.cls].values():
            r.attrs[a] = Sized(dim(r.attrs["samples"]))


def merges(cls):
    keys = need(cls)
    one = [(x,) for x in keys]
    out = []
    for lim in (False, True):
        out += [LoadMany(cls, [()], lim), LoadMany(cls, [(), ()], lim), LoadMany(cls, [()], lim, fresh_=False)]
        out += [LoadMany(cls, [l], lim) for l in one] + [LoadMany(cls, [(), l], lim) for l in one[:2]] + [LoadMany(cls, [l, ()], lim) for l in one[1:]]
        out += [LoadMany(cls, [("s_rho",), (), ("s_g", "number_of_samples"), ()], lim), LoadMany(cls, [tuple(EXTRA[cls]), ()], lim)] + [LoadMany(cls, [(), ("s_g",), ()], lim)]
        out += [LoadMany(cls, [(), (), ()], lim)]
        out += [LoadMany(cls, [(), (), (), ()], lim, True)]
        out += [LoadMany(cls, list(p), lim, True) for p in itertools.product([(), ("s_g",), ("s_rho",), ("number_of_samples",)], repeat=3)]
    seen, r = set(), []
    for x in out:
        if x.name not in seen:
            seen.add(x.name)
            r.append(x)
    return r


CONTRACTS = []
for cls in ARRAYS:
    CONTRACTS += merges(cls)
    CONTRACTS += [LoadOne(cls, l, f) for l in [()] + [(x,) for x in FULL] for f in (True, False)]
    CONTRACTS += [SaveOne(cls, j) for j in (None, 0, 12, "3")]
    CONTRACTS += [SaveLoad(cls, m) for m in (False, True)]
    CONTRACTS += [Keys(cls, l, k) for l in [()] + [(x,) for x in FULL] + [("s_rho", "s_g")] for k in (True, False)]
    CONTRACTS += [Empty(cls), Start(cls)]
CONTRACTS.append(Number())
PROPERTY = Prop("C07", CONTRACTS, [x.label() for x in CONTRACTS], Merge())
