"""C14: job plans cover the requested samples and carry their parameters intact"""
import contextlib
import copy
import json
import os
import re
import shlex
import shutil
import subprocess
import sys
import tempfile
import types
from unittest import mock
from pyvc.contract import *
from pyvc import fsmodel as FM
from pyvc.interp import ClassModel
from pyvc.runner import Prop, E2E
from .c06 import Lemma
from .c15 import root as abs_root, ident
import pibronic.server.job_boss as JB
import pibronic.pimc.pimc as PIMC
import pibronic.constants as CONST
import pibronic.data.file_structure as FSM
from pibronic.vibronic import vIO
from pibronic.server.server import ServerExecutionParameters as SEP

JBT = "pibronic.server.job_boss:"
HASHES = {"create_model_hash": "hash of the coupled model", "create_diagonal_model_hash": "hash of the sampling model"}
TEXTS = ["plain", "a,b", "a;b", 'quo"te', "back\\slash", "é;,\n\t", "{", "x\\u003b;", "😀;"]
ROOTS = ["/a", "/x;y", "/x,y z", '/q"r', "/é;", "/b\\s", "/it's"]


def nonneg(c, n, choices):
    return c.int(n, lo=0, choices=choices)


class Plan(Lemma):
    """sizes after planning; MAX stands for any permitted number of samples per job"""
    target = JBT + "PimcSubmissionClass.setup_blocks_and_jobs"
    name = "plan of a submission"

    def setup(self, c):
        n = c.int("n", lo=0, choices=[0, 1, 5, 10, 99, 100, 101, 1000, 12345, 10 ** 5, 10 ** 5 + 1, 250000])
        b = c.int("b", lo=1, choices=[1, 2, 3, 7, 10, 33, 100, 999, 1000, 10 ** 5])
        t = c.int("t", lo=0, choices=[0, 1, 10, 99, 100, 101, 1000, 123456, 10 ** 6])
        m = c.int("MAX", lo=1, choices=[10, 100, 1000, 10 ** 4, 10 ** 5])
        d = {"number_of_samples": n, "block_size": b, "number_of_samples_overall": t, "number_of_blocks": 0, "number_of_samples_per_job": 0}
        ENG.track.append(d)
        return [c.obj(JB.PimcSubmissionClass, param_dict=d, MAX_SAMPLES_PER_JOB=m)]

    def build(self, call, o):
        d = call(getattr, [o, "param_dict"])
        n, b, t = d["number_of_samples"], d["block_size"], d["number_of_samples_overall"]
        m = call(getattr, [o, "MAX_SAMPLES_PER_JOB"])
        call(JB.PimcSubmissionClass.setup_blocks_and_jobs, [o])
        p = call(getattr, [o, "param_dict"])
        S_, B, J = p["number_of_samples"], p["number_of_blocks"], call(getattr, [o, "n_jobs"])
        return self.sizes(n, b, t, m, S_, B, J) + [p["number_of_samples_per_job"] == S_, p["block_size"] == b, p["number_of_samples_overall"] - t, p is d]

    @staticmethod
    def sizes(n, b, t, m, S_, B, J):
        return [S_ == B * b, S_ <= m, B >= 1, J >= 1, Plan.covers(J, S_, t, n), Plan.needed(J, S_, t, n)]

    @staticmethod
    def total(t, n):
        if isinstance(t, S) or isinstance(n, S):
            return n if ENG.branch(eq(to_p(t), num(0))) else t
        return n if t == 0 else t

    @staticmethod
    def covers(J, S_, t, n):
        return J * S_ >= Plan.total(t, n)

    @staticmethod
    def needed(J, S_, t, n):
        r, one = (J - 1) * S_ < Plan.total(t, n), J == 1
        return mkbool(b_or(to_b(r), to_b(one))) if isinstance(r, SB) or isinstance(one, SB) else bool(r or one)

    def effect(self, c, o):
        d = o.attrs["param_dict"]
        n, b, m, t = d["number_of_samples"], d["block_size"], o.attrs["MAX_SAMPLES_PER_JOB"], d["number_of_samples_overall"]
        if ENG.branch(b_or(lt(n.p, b.p), lt(m.p, b.p))):
            raise SymRaise(AssertionError)
        for k in ("number_of_samples", "number_of_blocks", "number_of_samples_per_job", "number_of_samples_overall"):
            d[k] = ANY
        o.attrs["n_jobs"] = ANY
        return [True] * 6 + [True, True, (n if ENG.branch(eq(t.p, num(0))) else S(num(0))), True]


def value(c, n, kind):
    if kind == "int":
        return c.int(n, lo=0, choices=[0, 1, 2, 17, 1000])
    return c.real(n, gen=lambda r, e: r.choice([0.1, 300.0, 1e-7, 2.5e10, 1 / 3, r.uniform(0, 999)]))


FIELDS = [("samples", SEP.X, "int"), ("blocks", SEP.nBlk, "int"), ("states", SEP.A, "int"), ("beads", SEP.P, "int"), ("modes", SEP.N, "int"),
          ("temperature", SEP.T, "real"), ("block_size", SEP.BlkS, "int"), ("id_data", SEP.D, "int"), ("id_rho", SEP.R, "int"),
          ("beta", SEP.beta, "real"), ("tau", SEP.tau, "real"), ("delta_beta", SEP.dB, "real")]


class Decode(Lemma):
    """decode(encode(x)) == x"""
    target = "pibronic.pimc.pimc:BoxData.load_json_string"

    def __init__(self, cls, how, kinds="real"):
        self.cls, self.how, self.kinds = cls, how, kinds

    def label(self):
        return f"lemma execution parameters decode to themselves ({self.cls.__name__}, {self.how}, {self.kinds} numbers)"

    def overrides(self, c):
        return {getattr(vIO, n): (lambda I, a, k, v=v: v) for n, v in HASHES.items()}

    @contextlib.contextmanager
    def patches(self, env):
        with contextlib.ExitStack() as st:
            for n, v in HASHES.items():
                st.enter_context(mock.patch.object(vIO, n, lambda *a, v=v, **k: v))
            st.enter_context(FM.fake_directories([str(concretise(self.r, env, {}))]))
            yield

    def setup(self, c):
        self.r = c.text("abs_root", excl="{}", first="/", last_excl="/", gen=lambda r, e, *i: r.choice(ROOTS))
        FM.set_dirs([(self.r, True)])
        v = {f: value(c, f, "int" if self.kinds == "int" else k) for f, _, k in FIELDS}
        # beads divide the inverse temperature
        for n in ("beads", "temperature"):
            ENG.assume(lt(num(0), to_p(v[n])))
            if n == "beads":
                c.dims[n] = (1, None, [1, 3, 64])
            elif n in c.dims:
                c.dims[n] = (1, None, [1, 300])
        if self.how != "encode_self":
            v["note"] = c.text("note", gen=lambda r, e, *i: r.choice(TEXTS))
            v["t2"] = value(c, "t2", "real")
        ENG.track.append(v)
        return [self.r, v]

    def build(self, call, root, v):
        cls = self.cls
        if self.how == "encode_self":
            o = call(cls)
            for k, x in v.items():
                o.attrs.__setitem__(k, x) if isinstance(o, Obj) else setattr(o, k, x)
            o.attrs.__setitem__("path_root", root) if isinstance(o, Obj) else setattr(o, "path_root", root)
            text = call(getattr(cls, "encode_self"), [o])
        else:
            d = {k.value: v[f] for f, k, _ in FIELDS if f not in self.absent()}
            d.update(path_root=root, path_scratch=root + "/scratch;,", wait_param="", partition=None, job_name=v["note"],
                     temperature_list=[v["temperature"], v["t2"]], bead_list=[v["beads"]], hostname="nlogn", note=["a,b;c", v["note"]])
            d[v_key()] = v["note"]
            text = call(resolve("pibronic.pimc.pimc:BoxData.json_serialize"), [cls, d])
        n_commas = "," in text if isinstance(text, str) else bool(text.contains_b(",").op == "true")
        b = call(resolve("pibronic.pimc.pimc:BoxData.from_json_string"), [cls, text])
        g = lambda n: call(getattr, [b, n])
        return [n_commas] + [g(f) for f, _, _ in FIELDS] + [g("path_root"), g("path_vib_model"), g("path_rho_model"), g("hash_vib"), g("hash_rho")]

    def absent(self):
        return {"no beta": ("beta", "tau"), "no delta": ("delta_beta",)}.get(self.how, ())

    def effect(self, c, root, v):
        w = {f: v[f] for f, _, _ in FIELDS}
        if "beta" in self.absent():
            w["beta"] = S(div(num(1), mul(const_p("boltzman"), to_p(v["temperature"]))))
            w["tau"] = w["beta"] / v["beads"]
        if "delta_beta" in self.absent():
            w["delta_beta"] = CONST.delta_beta if self.cls is PIMC.BoxDataPM else 0.0
        p = root + "/data_set_" + ST(v["id_data"]) + "/"
        q = p + "rho_" + ST(v["id_rho"]) + "/"
        from pibronic.data import file_name as FN
        return [False] + [w[f] for f, _, _ in FIELDS] + [root, p + "parameters/" + FN.coupled_model, q + "parameters/" + FN.sampling_model] + list(HASHES.values())


def v_key():
    return "comma, and ; key"


def ST(x):
    from pyvc.strings import to_sstr
    return to_sstr(x)


def const_p(n):
    return to_p(getattr(CONST, n))


class Succeeded(ClassModel):
    def __call__(self):
        return None


class Host:
    """stands in for the cluster: every command is recorded, nothing is executed"""
    def __init__(self, host):
        self.host, self.commands = host, []

    def run(self, cmd, **kw):
        if isinstance(cmd, str):
            self.commands.append(cmd)
        return types.SimpleNamespace(stdout=f"Submitted batch job {len(self.commands)}" if isinstance(cmd, str) else f"ClusterName = {self.host}\nhighmem serial debug", stderr="", returncode=0, check_returncode=lambda: None)


def family(entries, decode):
    """the recorded commands as nested sequences of what they carry"""
    from pyvc.strings import subst_text
    from pyvc.terms import vname, substitute

    def value(e, s):
        if isinstance(e, tuple):
            _, k, n, body = e
            return SSeq(substitute(n, s), lambda j: values(body, {**s, vname(k): num(j)}))
        return decode(subst_text(e, s))

    def values(es, s):
        r = [value(e, s) for e in es]
        return r[0] if len(r) == 1 else r
    return [value(e, {}) for e in entries]


def seq(c, name, n, kind):
    a = c.arr(name, [n], "i8" if kind == "int" else "f8", positive=kind != "int",
              gen=lambda r, e, s: np.array([r.choice([3, 4, 12, 64]) if kind == "int" else r.choice([300.0, 10.0, 77.25, 0.5]) for _ in range(s[0])], dtype=int if kind == "int" else float))
    return SSeq(n.p, lambda k: S(a.at([k])))


class Submit(Lemma):
    """which commands are issued, and what the parameters in them decode to; any temperatures, bead numbers and numbers of jobs"""
    target = JBT + "PimcSubmissionClass.submit_jobs"

    def __init__(self, host):
        self.host = host

    def label(self):
        return f"submitted commands ({self.host})"

    def overrides(self, c):
        def run(I, a, k):
            cmd = a[0]
            if isinstance(cmd, list):
                return Obj(None, stdout="highmem serial debug", stderr="")
            ENG.ghost = dict(ENG.ghost, commands=ENG.ghost.get("commands", ()) + (cmd,))
            return Obj(None, stdout="Submitted batch job 12", stderr="", check_returncode=Succeeded())
        return {JB.subprocess_run_wrapper: run, JB.get_hostname: lambda I, a, k: self.host}

    @contextlib.contextmanager
    def patches(self, env):
        self.real = h = Host(self.host)
        with mock.patch.object(JB, "subprocess_run_wrapper", h.run), mock.patch.object(JB, "get_hostname", lambda: self.host), FM.fake_directories([str(concretise(self.r, env, {}))]):
            yield

    def setup(self, c):
        # characters which the shell or the list of exported variables treat specially are outside this property
        self.r = c.text("abs_root", excl="{}',;\"", first="/", last_excl="/", gen=lambda r, e, *i: r.choice(["/a", "/b x", "/work/é"]))
        FM.set_dirs([(self.r, True)])
        n = c.int("n", lo=1, choices=[100, 1000])
        b = c.int("b", lo=1, choices=[10, 25, 33])
        t = c.int("t", lo=0, choices=[0, 100, 199, 450])
        ENG.assume(le(b.p, n.p))
        ENG.assume(le(b.p, num(JB.PimcSubmissionClass.MAX_SAMPLES_PER_JOB)))
        D, R = ident(c, "D"), ident(c, "R")
        d = {"number_of_samples": n, "block_size": b, "number_of_samples_overall": t, "number_of_states": c.int("A", lo=1, choices=[1, 2, 5]),
             "number_of_modes": c.int("N", lo=1, choices=[1, 3, 40]), "id_data": D, "id_rho": R,
             "temperature_list": seq(c, "T", c.dim("nT", lo=0), "real"), "bead_list": seq(c, "P", c.dim("nP", lo=0), "int")}
        ENG.track.append(d)
        return [self.r, D, R, d]

    def invoke_symbolic(self, I, args):
        ENG.ghost = dict(ENG.ghost, commands=())
        root, D, R, d = args
        ENG.branch(lt(num(0), d["bead_list"].n))       # decided before the loops, so that their bodies have one path
        o, before = self.start(I.call, root, D, R, d)
        got = family(ENG.ghost["commands"], lambda cmd: self.decode(I.call, cmd))
        o = o.attrs["param_dict"], o.attrs["n_jobs"]
        self.plan = o
        # commands of one (temperature, bead number) are counted
        return [got, self.kept(o[0])]

    def start(self, call, root, D, R, d):
        fs = call(FSM.FileStructure, [root, D, R])
        o = call(JB.PimcSubmissionClass, [fs, d])
        before = call(copy.deepcopy, [call(getattr, [o, "param_dict"])])
        call(JB.PimcSubmissionClass.submit_jobs, [o])
        return o, before

    def invoke_real(self, args):
        call = lambda f, a=(), k=None: f(*a, **(k or {}))
        root, D, R, d = args
        o, before = self.start(call, root, D, R, d)
        got = [self.decode(call, cmd) for cmd in self.real.commands]
        nT, nP = len(d["temperature_list"]), len(d["bead_list"])
        J = len(got) // (nT * nP) if nT * nP else 0
        if nT * nP and len(got) == nT * nP * J:
            got = [[[[got[(i * nP + j) * J + k] for k in range(J)] for j in range(nP)] for i in range(nT)]]
        return [got, self.kept(o.param_dict)]

    def kept(self, after):
        return [after[k] for k in ("temperature_list", "bead_list", "block_size", "number_of_states", "number_of_modes", "id_data", "id_rho", "path_root")]

    def decode(self, call, cmd):
        head, _, rest = cmd.partition("EXECUTION_PARAMETERS='")
        code, _, tail = rest.rpartition("'")
        dec = call(json.loads, [code.replace(";", ",")])
        return [dec[k] for k in (SEP.T.value, SEP.P.value, SEP.X.value, SEP.nBlk.value, SEP.BlkS.value, SEP.D.value, SEP.R.value, SEP.A.value, SEP.N.value, "path_root", "temperature_list", "bead_list")]

    def effect(self, c, root, D, R, d):
        n, b, t = d["number_of_samples"], d["block_size"], d["number_of_samples_overall"]
        A, N, Ts, Ps = d["number_of_states"], d["number_of_modes"], d["temperature_list"], d["bead_list"]
        m = num(JB.PimcSubmissionClass.MAX_SAMPLES_PER_JOB)
        q = fdiv(n.p, b.p) if ENG.branch(le(n.p, m)) else fdiv(m, b.p)
        ENG.branch(eq(t.p, num(0)))
        S_ = mul(q, b.p)
        total = t.p if ENG.entails(b_not(eq(t.p, num(0)))) else n.p
        J = neg(fdiv(neg(total), S_))
        J = J if ENG.branch(le(num(1), J)) else num(1)
        own = lambda i, j: [Ts.elem(i), Ps.elem(j), S(S_), S(q), b, D, R, A, N, root, Ts, Ps]
        cmds = SSeq(Ts.n, lambda i: SSeq(Ps.n, lambda j: SSeq(J, lambda k: own(i, j))))
        any_ = ENG.branch(lt(num(0), Ps.n)) and ENG.branch(lt(num(0), Ts.n))
        return [[cmds] if any_ else [], [Ts, Ps, b, A, N, D, R, root]]


class Isolation(Submit):
    """two submissions in one process"""
    def __init__(self, host="nlogn"):
        super().__init__(host)

    def label(self):
        return "lemma a submission does not change another one or the defaults"

    def build(self, call, root, D, R, d):
        cls = JB.PimcSubmissionClass
        fs = call(FSM.FileStructure, [root, D, R])
        fs2 = call(FSM.FileStructure, [root, R, D], {"no_makedir": True})
        d0 = call(copy.deepcopy, [cls.param_dict])
        first = call(cls, [fs, {"number_of_samples": 77, "block_size": 7, "temperature_list": [5.0]}])
        a0 = call(copy.deepcopy, [call(getattr, [first, "param_dict"])])
        second = call(cls, [fs2, d])
        call(cls.submit_jobs, [second])
        call(cls.setup_blocks_and_jobs, [second])
        third = call(cls, [fs])
        a1 = call(getattr, [first, "param_dict"])
        t = call(getattr, [third, "param_dict"])
        new = set(PATHS) | {"hostname"}
        return [[a1[k] for k in sorted(a0)], [a0[k] for k in sorted(a0)], len(a1) - len(a0), [t[k] for k in sorted(d0) if k not in new], [d0[k] for k in sorted(d0) if k not in new], sorted(set(t) - set(d0) - new),
                [cls.param_dict[k] for k in sorted(d0)], [d0[k] for k in sorted(d0)], sorted(set(cls.param_dict) - set(d0))]

    def invoke_symbolic(self, I, args):
        ENG.branch(lt(num(0), args[3]["bead_list"].n))
        r = self.build(I.call, *args)
        return self.pair(r, lambda a, b: compare_all(a, b))

    def invoke_real(self, args):
        return self.pair(self.build(lambda f, a=(), k=None: f(*a, **(k or {})), *args), lambda a, b: [x == y for x, y in zip(a, b)])

    @staticmethod
    def pair(r, f):
        return [f(r[0], r[1]), r[2], f(r[3], r[4]), r[5], f(r[6], r[7]), r[8]]

    def effect(self, c, root, D, R, d):
        n0 = len(JB.PimcSubmissionClass.param_dict)
        new = set(PATHS) | {"hostname"}
        own = len(set(JB.PimcSubmissionClass.param_dict) | new)
        return [[True] * own, 0, [True] * len(set(JB.PimcSubmissionClass.param_dict) - new), [], [True] * n0, []]


def compare_all(a, b):
    out = []
    for x, y in zip(a, b):
        if isinstance(x, list) and isinstance(y, list):
            out.append(len(x) == len(y) and all(p is q or truth_of(p == q) for p, q in zip(x, y)))
        else:
            out.append(x is y or (x == y))
    return out


def truth_of(x):
    return ENG.branch(to_b(x)) if isinstance(x, SB) else bool(x)


PATHS = ["path_scratch", "path_root", "path_data", "path_rho", "path_vib_model", "path_rho_model"]
HOSTS = ["nlogn", "feynman", "graham", "orca"]
CONTRACTS = [Plan] + [Decode(c, h) for c in (PIMC.BoxData, PIMC.BoxDataPM) for h in ("encode_self", "json_serialize", "no beta", "no delta")] \
    + [Decode(PIMC.BoxDataPM, "json_serialize", "int")] + [Submit(h) for h in HOSTS] + [Isolation()]


class Oracle(E2E):
    quick, deep = 30, 300

    def case(self, rng, hints):
        size = lambda: rng.choice([1, 2, 3, 5, 7, 10, 33, 99, 100, 101, 999, 1000, 1001, 10 ** 4, 10 ** 5 - 1, 10 ** 5, 10 ** 5 + 1, rng.randint(1, 3 * 10 ** 5)] + [int(x) for x in hints.get("consts", []) if isinstance(x, int) and 0 < x < 10 ** 6])
        subs = []
        for _ in range(rng.choice([1, 2, 3])):
            b = size()
            n = max(size(), rng.choice([0, b]))
            p = {"number_of_samples": n, "block_size": b, "temperature_list": [rng.choice([0.5, 10.0, 77.25, 300.0, 300.0004, 299.99, 299.994, 5]) for _ in range(rng.choice([0, 1, 1, 2, 3]))],
                 "bead_list": [rng.choice([3, 4, 12, 64, 100]) for _ in range(rng.choice([1, 1, 2, 3]))], "number_of_states": rng.randint(1, 5), "number_of_modes": rng.randint(1, 40)}
            if rng.random() < 0.7:
                # a few jobs at most
                k = max(1, min(n, 10 ** 5) // b) * b
                p["number_of_samples_overall"] = max(1, rng.choice([k, k + 1, k - 1, 2 * k, 2 * k + 1, 2 * k - 1, 3 * k, 1, n]))
            if rng.random() < 0.3:
                p["partition"] = rng.choice(["highmem", "debug"])
            if rng.random() < 0.4:
                p["delta_beta"] = rng.choice([2e-4, 1e-3, 2, 1.0])
            for k in ("note", "wait_param"):
                if rng.random() < 0.3:
                    p[k] = rng.choice(["", "--dependency=afterok:12", "-W"]) if k == "wait_param" else rng.choice(["plain", "a;b", "é", "x y", "\\", "a,b"])
            subs.append([p, rng.randint(0, 12), rng.randint(0, 12)])
        tx = rng.choice(TEXTS + ["".join(rng.choice(';,:"\\ué{}\'x 0') for _ in range(rng.randint(0, 12)))])
        enc = {"samples": rng.randint(0, 10 ** 6), "blocks": rng.randint(0, 99), "states": rng.randint(1, 9), "beads": rng.randint(3, 999), "modes": rng.randint(1, 99),
               "temperature": rng.choice([0.1, 300.0, 299.996, 1 / 3, 300]), "block_size": rng.randint(1, 10 ** 4), "delta_beta": rng.choice([2e-4, 1, 1e-9, 0.1]), "id_data": rng.randint(0, 30), "id_rho": rng.randint(0, 30),
               "beta": rng.uniform(0.1, 90), "tau": rng.uniform(0.001, 2)}
        grow = []
        for p, _, _ in subs:
            g = {}
            for k, v in (("temperature_list", 123.5), ("bead_list", 7)):
                if rng.random() < 0.3:
                    g[k] = v
            if rng.random() < 0.3:
                p.pop(rng.choice(["temperature_list", "bead_list"]))
            grow.append(g)
        return {"subs": subs, "grow": grow, "host": rng.choice(HOSTS), "text": tx, "enc": enc, "dir": rng.choice(["d", "x;y", "a,b", "é", 'q"r', "work"]), "order": rng.random()}

    def run(self, case):
        tmp = tempfile.mkdtemp(prefix="vc14")
        saved = {c: copy.deepcopy(c.param_dict) for c in (JB.SubmissionClass, JB.PimcSubmissionClass)}
        real = {c: c.param_dict for c in saved}
        host = Host(case["host"])

        def run(cmd, **k):
            if not isinstance(cmd, str):
                return Host(case["host"]).run(cmd)
            return host.run(cmd, **k)
        try:
            with mock.patch.object(JB, "subprocess_run_wrapper", run), mock.patch.object(subprocess, "run", run), mock.patch.object(subprocess, "Popen", None), \
                    mock.patch.object(vIO, "create_model_hash", lambda *a, **k: "hv"), mock.patch.object(vIO, "create_diagonal_model_hash", lambda *a, **k: "hr"):
                return self.codec(case, tmp) or self.submissions(case, tmp, host) or self.defaults(saved)
        finally:
            for c, d in real.items():
                c.param_dict = d
                d.clear()
                d.update(saved[c])
            shutil.rmtree(tmp, ignore_errors=True)

    def defaults(self, saved):
        for c, d in saved.items():
            if c.param_dict != d:
                return f"the default parameters of {c.__name__} changed: {[k for k in set(d) | set(c.param_dict) if d.get(k) != c.param_dict.get(k)]}"
        return None

    def codec(self, case, tmp):
        r = os.path.join(tmp, case["dir"])
        os.makedirs(r, exist_ok=True)
        e = case["enc"]
        for cls in (PIMC.BoxData, PIMC.BoxDataPM):
            o = cls()
            for k, v in e.items():
                setattr(o, k, v)
            o.path_root = r
            full = dict({k.value: e[f] for f, k, _ in FIELDS}, path_root=r, note=case["text"], **{"key " + case["text"]: [case["text"], {"x": None}]})
            part = {k: v for k, v in full.items() if k not in ("beta", "tau")}
            for how, text, want in (("encode_self()", o.encode_self(), e), ("encode_self(params)", o.encode_self(full), e), ("json_serialize", cls.json_serialize(part), None), ("job_boss", JB.serialize_BoxData_dictionary(full), e)):
                if "," in text:
                    return f"{how}: {text!r} is not a single environment variable"
                d = cls.from_json_string(text)
                path = os.path.join(tmp, "params.json")
                with open(path, "w", encoding="UTF8") as f:
                    f.write(text)
                for d in (d, cls.from_json_file(path)):
                    w = dict(e)
                    if want is None:
                        w["beta"] = 1.0 / (CONST.boltzman * e["temperature"])
                        w["tau"] = w["beta"] / e["beads"]
                    for k in w:
                        g = getattr(d, k)
                        if type(g) is not type(w[k]) or not (g == w[k] or abs(g - w[k]) <= 1e-12 * abs(w[k])):
                            return f"{cls.__name__} {how}: {k} = {w[k]!r} decodes to {g!r}"
                    if d.path_root != r:
                        return f"{how}: root {r!r} decodes to {d.path_root!r}"
                    fs = FSM.FileStructure(r, e["id_data"], e["id_rho"])
                    if os.path.abspath(d.path_vib_model) != os.path.abspath(fs.path_vib_model) or os.path.abspath(d.path_rho_model) != os.path.abspath(fs.path_rho_model):
                        return f"{how}: model paths {d.path_vib_model}, {d.path_rho_model}"
                    if (d.hash_vib, d.hash_rho) != ("hv", "hr"):
                        return f"{how}: fingerprints {d.hash_vib}, {d.hash_rho}"
            # any dictionary, as long as the receiver undoes the replacement
            back = json.loads(cls.json_serialize(full).replace(cls._COMMA_REPLACEMENT, ","))
            if back != full:
                return f"{cls.__name__}: {full} decodes to {back}"
        return None

    def submissions(self, case, tmp, host):
        cls = JB.PimcSubmissionClass
        made = []
        for i, (p, D, R) in enumerate(case["subs"]):
            r = os.path.join(tmp, f"root{i}")
            os.makedirs(r)
            fs = FSM.FileStructure(r, D, R)
            o = cls(fs, copy.deepcopy(dict(p, id_data=D, id_rho=R)))
            for k, v in case["grow"][i].items():
                # the owner of this submission changes its own parameters
                o.param_dict[k].append(v)
                p = dict(p, **{k: p.get(k, list(saved_default(cls, k))) + [v]})
            made.append((o, p, D, R, r))
            if case["order"] < 0.5:
                err = self.submit(case, host, *made[-1])
                if err:
                    return f"submission {i}: {err}"
        snaps = [copy.deepcopy(m[0].param_dict) for m in made]
        if case["order"] >= 0.5:
            for i, m in reversed(list(enumerate(made))):
                err = self.submit(case, host, *m)
                if err:
                    return f"submission {i}: {err}"
                for j in range(i):
                    if made[j][0].param_dict != snaps[j]:
                        return f"submission {i} changed the parameters of submission {j}: {[k for k in snaps[j] if snaps[j][k] != made[j][0].param_dict.get(k)]}"
        return None

    def submit(self, case, host, o, p, D, R, r):
        n, b, t = p["number_of_samples"], p["block_size"], p.get("number_of_samples_overall", 0)
        m = type(o).MAX_SAMPLES_PER_JOB
        host.commands.clear()
        try:
            o.submit_jobs()
        except AssertionError:
            if b > n or b > m:
                return None
            raise
        if b > n or b > m:
            return f"block size {b} accepted for {n} samples, at most {m} per job"
        d = o.param_dict
        S_, B, J = d["number_of_samples"], d["number_of_blocks"], o.n_jobs
        flags = Plan.sizes(n, b, t, m, S_, B, J)
        if not all(flags) or d["number_of_samples_per_job"] != S_:
            return f"{J} jobs of {B} blocks, {S_} samples each for {t or n} samples, block size {b}, at most {m} per job"
        p = dict({k: saved_default(type(o), k) for k in ("temperature_list", "bead_list")}, **p)
        want = [(T_, P) for T_ in p["temperature_list"] for P in p["bead_list"] for _ in range(J)]
        got = []
        for cmd in host.commands:
            # what the shell and sbatch make of the command
            words = shlex.split(cmd)
            text = [v[len("EXECUTION_PARAMETERS="):] for w in words if w.startswith("--export=") for v in w[len("--export="):].split(",") if v.startswith("EXECUTION_PARAMETERS=")]
            if words[0] != "sbatch" or len(text) != 1:
                return f"command {cmd!r}"
            text = text[0]
            try:
                x = json.loads(text.replace(";", ","))
            except ValueError as err:
                return f"the parameters {text[:300]!r} of the command do not decode: {err}"
            got.append((x["temperature"], x["number_of_beads"]))
            exp = {"number_of_samples": S_, "number_of_blocks": B, "block_size": b, "id_data": D, "id_rho": R, "path_root": r, "number_of_states": p["number_of_states"], "number_of_modes": p["number_of_modes"]}
            exp.update({k: p[k] for k in ("note", "delta_beta", "temperature_list", "bead_list") if k in p})
            for k, v in exp.items():
                if x[k] != v:
                    return f"{k}: {x[k]!r} in the command instead of {v!r}"
            name = f"D{D}_R{R}_P{x['number_of_beads']}_T{x['temperature']:.2f}"
            if f"--job-name={name} " not in cmd:
                return f"job name of {name} in {cmd!r}"
            y = PIMC.BoxDataPM.from_json_string(text)
            if (y.samples, y.blocks, y.block_size, y.beads, y.temperature, y.states, y.modes, y.id_data, y.id_rho) != (S_, B, b, x["number_of_beads"], x["temperature"], p["number_of_states"], p["number_of_modes"], D, R):
                return f"the job runs with {vars(y)}"
            if y.delta_beta != p.get("delta_beta", CONST.delta_beta):
                return f"the job runs with delta_beta {y.delta_beta}"
        if got != want and sorted(got) != sorted(want):
            return f"submitted pairs {got[:8]}.. ({len(got)}) instead of {want[:8]}.. ({len(want)})"
        for k in ("temperature_list", "bead_list"):
            if d[k] != p[k]:
                return f"{k} became {d[k]}"
        return None


def saved_default(cls, k):
    return {"temperature_list": [0.0], "bead_list": [0]}[k]


PROPERTY = Prop("C14", CONTRACTS, [c.label() if not isinstance(c, type) else c.name for c in CONTRACTS], Oracle())
