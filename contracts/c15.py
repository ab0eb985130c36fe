"""C15: every path of a data set belongs to its root, data id and sampling id"""
import os
import shutil
import tempfile
from pyvc.contract import *
from pyvc import fsmodel as FM
from pyvc.runner import Prop, E2E
from .c06 import Lemma
import pibronic.data.file_structure as FSM

T_ = "pibronic.data.file_structure:FileStructure"
VIB_DIRS = ["path_vib_params", "path_vib_results", "path_vib_output", "path_vib_plots", "path_es"]
RHO_DIRS = ["path_rho_params", "path_rho_results", "path_rho_output", "path_rho_plots"]
ALL_DIRS = ["path_root", "path_data", "path_rho"] + VIB_DIRS + RHO_DIRS
VIB_FILES = ["path_vib_model", "path_har_model", "path_iter_model", "path_iter_mat", "path_analytic_vib", "path_analytic_orig", "path_orig_model", "path_ortho_mat",
             "template_sos_vib", "template_trotter_vib"]
RHO_FILES = ["path_rho_model", "path_analytic_rho", "template_pimc", "template_jackknife", "template_sos_rho"]
ROOTS = ["/a", "/scratch/x_1/rho_2", "/data_set_3/rho_4", "/P7_T1.50"]
RELS = ["a", "x/data_set_1", "rho_0/b"]


def root(c, kind):
    if kind == "absolute":
        return c.text("abs_root", excl="{}", first="/", last_excl="/", gen=lambda r, e, *i: r.choice(ROOTS))
    if kind == "absolute with slash":
        return root(c, "absolute") + "/"
    if kind == "relative":
        return c.text("rel_root", excl="{}", last_excl="/", gen=lambda r, e, *i: r.choice(RELS))
    return root(c, "relative") + "/"


def ident(c, n):
    return c.int(n, lo=0, choices=[0, 1, 2, 9, 10, 11, 100, 101])


class Paths(Lemma):
    """a lemma over file structures; the directories are those of a ghost file system"""
    target = T_ + ".__init__"
    kind = "absolute"

    def __init__(self, kind=None):
        self.kind = kind or self.kind

    def label(self):
        return f"{self.name} ({self.kind} root)"

    def setup(self, c):
        self.r = root(c, self.kind)
        FM.set_dirs([(self.r, True)])
        a = [self.r] + [ident(c, n) for n in self.ids]
        self.given(*a)
        return a

    def given(self, *a):
        pass

    def patches(self, env):
        return FM.fake_directories([str(concretise(self.r, env, {}))])

    def invoke_symbolic(self, I, args):
        self.sym = True
        return self.build(I.call, *args)

    def invoke_real(self, args):
        self.sym = False
        return self.build(lambda f, a=(), k=None: f(*a, **(k or {})), *args)


def get(call, fs, n):
    return call(getattr, [fs, n])


def absolute(call, p):
    return call(os.path.abspath, [p])


def inside(call, p, d):
    """location p lies below directory d"""
    return absolute(call, p).startswith(absolute(call, d) + "/")


class Layout(Paths):
    name = "lemma all locations lie in the folders of their ids"
    ids = ("D", "R")

    def build(self, call, root, D, R):
        fs = call(FSM.FileStructure, [root, D, R])
        g = lambda n: get(call, fs, n)
        out = [inside(call, g("path_data"), root), inside(call, g("path_rho"), g("path_data"))]
        out += [inside(call, g(n), g("path_data")) for n in VIB_DIRS + VIB_FILES]
        out += [inside(call, g(n), g("path_rho")) for n in RHO_DIRS + RHO_FILES]
        out += [absolute(call, g("path_root")) == absolute(call, root)]
        return out + [g("id_data"), g("id_rho")]

    def effect(self, c, root, D, R):
        return [True] * (2 + len(VIB_DIRS + VIB_FILES + RHO_DIRS + RHO_FILES) + 1) + [D, R]


class Distinct(Paths):
    name = "lemma locations of different ids are never shared"
    ids = ("D", "R", "D2", "R2")

    def given(self, root, D, R, D2, R2):
        ENG.hyps.append(b_not(b_and(eq(to_p(D), to_p(D2)), eq(to_p(R), to_p(R2)))))

    def build(self, call, root, D, R, D2, R2):
        a, b = call(FSM.FileStructure, [root, D, R]), call(FSM.FileStructure, [root, D2, R2])
        up = lambda p: call(os.path.dirname, [absolute(call, p)])
        out = [up(get(call, a, "path_data")) == up(get(call, b, "path_data")),
               up(get(call, a, "path_rho")) == absolute(call, get(call, a, "path_data"))]
        out += [get(call, a, "path_data") == get(call, b, "path_data")]
        return out + [absolute(call, get(call, a, n)) == absolute(call, get(call, b, n)) for n in ["path_rho"] + RHO_DIRS + RHO_FILES]

    def effect(self, c, root, D, R, D2, R2):
        return [True, True, mkbool(eq(to_p(D), to_p(D2)))] + [False] * (1 + len(RHO_DIRS + RHO_FILES))


class Switch(Paths):
    """change_rho against a fresh start; also twice in a row"""
    target = T_ + ".change_rho"
    name = "lemma switching the sampling id equals a fresh start"
    ids = ("D", "R", "R2", "R3")

    def build(self, call, root, D, R, R2, R3):
        fs = call(FSM.FileStructure, [root, D, R])
        before = [get(call, fs, n) for n in VIB_DIRS + VIB_FILES]
        out = []
        for new in (R2, R3):
            call(getattr(FSM.FileStructure, "change_rho"), [fs, new])
            dirs = [call(os.path.isdir, [get(call, fs, n)]) for n in ALL_DIRS] + [call(FSM.FileStructure.directories_exist, [fs])]
            fresh_ = call(FSM.FileStructure, [root, D, new], {"no_makedir": True})
            same_ = [absolute(call, get(call, fs, n)) == absolute(call, get(call, fresh_, n)) for n in ALL_DIRS + RHO_FILES + VIB_FILES]
            after = [get(call, fs, n) for n in VIB_DIRS + VIB_FILES]
            out += [dirs, same_, [x == y for x, y in zip(before, after)], get(call, fs, "id_rho"), get(call, fs, "id_data")]
        return out

    def effect(self, c, root, D, R, R2, R3):
        out = []
        for new in (R2, R3):
            out += [[True] * (len(ALL_DIRS) + 1), [True] * len(ALL_DIRS + RHO_FILES + VIB_FILES), [True] * len(VIB_DIRS + VIB_FILES), new, D]
        return out


class Created(Paths):
    name = "lemma a fresh start creates all its directories"
    ids = ("D", "R")

    def build(self, call, root, D, R):
        fs = call(FSM.FileStructure, [root, D, R])
        return [call(os.path.isdir, [get(call, fs, n)]) for n in ALL_DIRS] + [call(FSM.FileStructure.directories_exist, [fs])]

    def effect(self, c, root, D, R):
        return [True] * (len(ALL_DIRS) + 1)


class Partial(Paths):
    """some of the directories exist already, from an earlier and incomplete start"""
    target = T_ + ".change_rho"
    name = "lemma missing directories are created next to existing ones"
    ids = ("D", "R", "R2")
    NAMES = RHO_DIRS + VIB_DIRS

    def setup(self, c):
        return super().setup(c) + [[c.bool("is_" + n) for n in self.NAMES]]

    def have(self, call, root, D, R, flags):
        fs = call(FSM.FileStructure, [root, D, R], {"no_makedir": True})
        l = [(root, True)]
        for n, f in zip(self.NAMES, flags):
            l += [(get(call, fs, n), f), (get(call, fs, "path_data"), f)] + ([(get(call, fs, "path_rho"), f)] if n in RHO_DIRS else [])
        FM.set_dirs(l, real=not self.sym)

    def build(self, call, root, D, R, R2, flags):
        look = lambda fs: [call(os.path.isdir, [get(call, fs, n)]) for n in ALL_DIRS] + [call(FSM.FileStructure.directories_exist, [fs])]
        self.have(call, root, D, R2, flags)
        out = [look(call(FSM.FileStructure, [root, D, R2]))]
        self.have(call, root, D, R2, flags)
        fs = call(FSM.FileStructure, [root, D, R])
        call(getattr(FSM.FileStructure, "change_rho"), [fs, R2])
        out.append(look(fs))
        self.have(call, root, D, R2, flags)
        fs = call(FSM.FileStructure, [root, D, R2], {"no_makedir": True})
        call(FSM.FileStructure.make_directories, [fs])
        return out + [look(fs)]

    def effect(self, c, root, D, R, R2, flags):
        return [[True] * (len(ALL_DIRS) + 1) for _ in range(3)]


class Exist(Paths):
    """directories_exist: yes exactly when all directories handed out exist"""
    target = T_ + ".directories_exist"
    name = "directories_exist"
    ids = ("D", "R")

    def setup(self, c):
        a = super().setup(c)
        return a + [[c.bool("is_" + n) for n in ALL_DIRS[1:]], [c.bool("file_" + n) for n in ALL_DIRS[1:]]]

    def build(self, call, root, D, R, flags, files):
        fs = call(FSM.FileStructure, [root, D, R], {"no_makedir": True})
        FM.set_dirs([(root, True)] + [(get(call, fs, n), f) for n, f in zip(ALL_DIRS[1:], flags)],
                    [(get(call, fs, n), f) for n, f in zip(ALL_DIRS[1:], files)], real=not self.sym)
        return call(FSM.FileStructure.directories_exist, [fs])

    def effect(self, c, root, D, R, flags, files):
        return mkbool(b_and(*[to_b(f) for f in flags]))


KINDS = ["absolute", "absolute with slash", "relative", "relative with slash"]
CONTRACTS = [cls(k) for cls in (Layout, Distinct, Created, Partial, Exist, Switch) for k in KINDS]


class Oracle(E2E):
    quick, deep = 30, 300

    def case(self, rng, hints):
        i = lambda: rng.choice([0, 1, 2, 3, 10, 11, 12, 21, 100, rng.randrange(1000)])
        ids, switch = [i(), i()], [i() for _ in range(rng.randrange(5))]
        have = [[rng.choice([ids[1]] + switch), rng.choice(["", "parameters", "results", "execution_output", "plots"])] for _ in range(rng.choice([0, 0, 1, 2]))]
        return {"ids": ids, "switch": switch, "have": have, "relative": rng.random() < 0.5, "slash": rng.random() < 0.4,
                "sub": rng.choice(["", "rho_0", "data_set_1/rho_1", "x y"]), "drop": rng.random(), "hash": rng.random() < 0.5, "other": [i(), i()]}

    def run(self, case):
        tmp = tempfile.mkdtemp(prefix="vc15")
        cwd = os.getcwd()
        try:
            os.chdir(tmp)
            top = os.path.join(os.path.realpath(tmp), "top", case["sub"]).rstrip("/")
            os.makedirs(top)
            r = os.path.relpath(top) if case["relative"] else top
            r += "/" if case["slash"] else ""
            D, R = case["ids"]
            if os.path.realpath(os.getcwd()) != os.path.realpath(tmp):
                return "working directory changed"
            for i, x in case["have"]:
                # left over from an earlier start
                os.makedirs(os.path.join(top, f"data_set_{D}", f"rho_{i}" if x else "", x or "results"), exist_ok=True)
            fs = FSM.FileStructure(r, D, R)
            err = self.state(fs, top, D, R, case)
            if err:
                return err
            keep = {n: getattr(fs, n) for n in VIB_DIRS + VIB_FILES}
            for new in case["switch"]:
                if case["hash"]:
                    fs.hash_rho = fs.hash_vib = "x"
                fs.change_rho(new)
                err = self.state(fs, top, D, new, case)
                if err:
                    return f"after change_rho({new}): {err}"
                if {n: getattr(fs, n) for n in VIB_DIRS + VIB_FILES} != keep:
                    return "locations of the coupled model changed by change_rho"
                R = new
            # existence is answered for every single directory
            dirs = [getattr(fs, n) for n in ALL_DIRS[1:]]
            leaf = [d for d in dirs if not any(o != d and os.path.abspath(o).startswith(os.path.abspath(d) + "/") for o in dirs)]
            d = leaf[int(case["drop"] * len(leaf))]
            os.rmdir(d)
            if fs.directories_exist():
                return f"directories_exist although {d} is missing"
            open(d.rstrip("/"), "w").close()
            if fs.directories_exist():
                return f"directories_exist although {d} is a file"
            os.remove(d.rstrip("/"))
            fs.make_directories()
            if not fs.directories_exist():
                return "directories_exist is false although all were made"
            D2, R2 = case["other"]
            if (D2, R2) != (D, R):
                o = FSM.FileStructure(r, D2, R2)
                for a in ["path_rho"] + RHO_DIRS + RHO_FILES:
                    for b in ["path_rho"] + RHO_DIRS + RHO_FILES:
                        x, y = os.path.abspath(getattr(fs, a)), os.path.abspath(getattr(o, b))
                        if x == y or (a == "path_rho" and y.startswith(x + "/")):
                            return f"{a} of ids {(D, R)} and {b} of ids {(D2, R2)} share {y}"
            return None
        finally:
            os.chdir(cwd)
            shutil.rmtree(tmp, ignore_errors=True)

    def state(self, fs, top, D, R, case):
        if (fs.id_data, fs.id_rho) != (D, R):
            return f"ids {(fs.id_data, fs.id_rho)} instead of {(D, R)}"
        a = os.path.abspath
        if a(fs.path_root) != top:
            return f"root {fs.path_root}"
        if os.path.dirname(a(fs.path_data)) != top or os.path.dirname(a(fs.path_rho)) != a(fs.path_data):
            return "folders of the ids"
        for n in VIB_DIRS + VIB_FILES:
            if not a(getattr(fs, n)).startswith(a(fs.path_data) + "/"):
                return f"{n} = {getattr(fs, n)} is outside {fs.path_data}"
        for n in RHO_DIRS + RHO_FILES:
            if not a(getattr(fs, n)).startswith(a(fs.path_rho) + "/"):
                return f"{n} = {getattr(fs, n)} is outside {fs.path_rho}"
        for n in ALL_DIRS:
            if not os.path.isdir(getattr(fs, n)):
                return f"{n} was not created"
        if not fs.directories_exist():
            return "directories_exist is false although all exist"
        o = FSM.FileStructure(top, D, R, no_makedir=True)
        for n in ALL_DIRS + VIB_FILES + RHO_FILES:
            if a(getattr(o, n)) != a(getattr(fs, n)):
                return f"{n}: {getattr(fs, n)}, a fresh start gives {getattr(o, n)}"
        if not os.path.isdir(os.path.dirname(a(fs.template_pimc))):
            return "results directory"
        return None


PROPERTY = Prop("C15", CONTRACTS, [c.label() for c in CONTRACTS], Oracle())
