"""Regeneration histories: edits, reruns, interrupted runs, cleaning."""
import os, random, shutil
from vf import core, capworld, caprun, gentree
from vf.capworld import World
from vf.core import Violation, Inconclusive, Check
from .c12 import run_cases

RULE = ("a case is one history of edits to host, scheme and suite inputs, disturbances of the output directory (deleted, "
        "edited, foreign files, runs interrupted at a random file operation, failing runs) and reruns of the generator into "
        "the same directory; after every run that succeeds the directory is compared with a run into an empty one, "
        "modification times with those before, and at the end cleaning is observed; all runs as an unprivileged user on "
        "a private copy of the framework; non-trivial when a populated directory was regenerated")
CRASH = os.path.join(core.VERIF, "pyhooks", "crash")
NOBODY = dict(user=65534, group=65534, extra_groups=[]) if os.getuid() == 0 else {}


if NOBODY:
    import subprocess
    try:
        if subprocess.run([core.PYTHON, "-c", "pass"], **NOBODY).returncode:
            NOBODY = {}
    except (OSError, subprocess.SubprocessError):
        NOBODY = {}


def own(path):
    if not NOBODY:
        return
    os.chown(path, 65534, 65534)
    for r, ds, fs in os.walk(path):
        for x in ds + fs:
            os.lchown(os.path.join(r, x), 65534, 65534)


def run_as(cmd, cwd, env, timeout=120):
    import subprocess
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, stdin=subprocess.DEVNULL, capture_output=True, text=True,
                           errors="replace", timeout=timeout, **NOBODY)
        return core.Proc(p.returncode, p.stdout, p.stderr)
    except subprocess.TimeoutExpired as e:
        return core.Proc(-9, "", "timeout", True)


class Hist:
    def __init__(self, seed, prof, tag, root):
        self.r = core.rng("c11", tag, seed)
        self.seed, self.prof, self.tag = seed, prof, tag
        self.top = os.path.join(root, "h%s%d" % (tag, seed))
        self.fw = os.path.join(self.top, "framework")
        self.d = os.path.join(self.top, "work")
        os.makedirs(self.d)
        for x in ("scripts", "src", "schema"):
            if os.path.isdir(os.path.join(core.REPO, x)):
                shutil.copytree(os.path.join(core.REPO, x), os.path.join(self.fw, x),
                                ignore=shutil.ignore_patterns("__pycache__"))
        own(self.top)
        self.fwtree = gentree.tree(self.fw)
        self.out = os.path.join(self.d, "out")
        self.edits = []
        self.flags = dict(debug=False, kind="REAL64", order=None, host=None, comments=0, broken=None, drop=None)
        self.foreign = {}
        self.stats = {}
        self.log = []

    def stat(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    # -- inputs
    def world(self):
        w = World(self.seed, self.prof, self.tag)
        for kind, arg in self.edits:
            r = core.rng("edit", kind, arg, self.seed)
            s = r.choice(w.suites)
            k = r.randrange(len(s.groups))
            g, items = s.groups[k]
            if kind == "drop_item" and len(items) > 1:
                items = list(items)
                items.pop(r.randrange(len(items)))
                s.groups[k] = (g, items)
            elif kind == "add_item":
                s.groups[k] = (g, list(items) + [("scheme", r.choice(w.schemes).name)])
            elif kind == "drop_suite" and len(w.suites) > 1:
                w.suites.remove(s)
            elif kind == "rename_suite":
                s.name = "renamed_%d" % arg
            elif kind == "rename_group":
                s.groups[k] = ("part_%d" % arg, items)
            elif kind == "units":
                c = [v for v in w.hvars if v.type == "real"]
                if c:
                    r.choice(c).units = r.choice(["K", "m s-1", "Pa", "1"])
            elif kind == "swap_suites":
                w.suites.reverse()
            elif kind == "drop_group" and len(s.groups) > 1:
                s.groups.pop(k)
        w.debug = self.flags["debug"]
        w.kinds["kind_phys"] = self.flags["kind"]
        return w

    def edit(self):
        r = self.r
        k = r.choice(["drop_item", "add_item", "drop_suite", "rename_suite", "rename_group", "units", "swap_suites",
                      "drop_group", "debug", "kind", "undo", "comment", "broken", "none"])
        if k == "debug":
            self.flags["debug"] = not self.flags["debug"]
        elif k == "kind":
            self.flags["kind"] = {"REAL64": "REAL32", "REAL32": "REAL64"}[self.flags["kind"]]
        elif k == "undo":
            if self.edits:
                self.edits.pop(r.randrange(len(self.edits)))
        elif k == "comment":
            self.flags["comments"] += 1
        elif k == "broken":
            self.flags["broken"] = r.randint(1, 1000)
        elif k != "none":
            self.edits.append((k, r.randint(1, 10 ** 6)))
        self.log.append("edit:" + k)

    def put(self):
        self.w = self.world()
        files = dict(self.w.files())
        for k in list(files):
            if k.endswith(".meta"):
                files[k] = "# comment\n" * self.flags["comments"] + files[k]
        if self.flags["broken"]:
            r = random.Random(self.flags["broken"])
            k = r.choice(sorted(x for x in files if x.endswith((".meta", ".xml"))))
            ls = files[k].splitlines()
            ls.pop(r.randrange(len(ls)))
            files[k] = "\n".join(ls) + "\n"
        for f in os.listdir(self.d):
            p = os.path.join(self.d, f)
            if os.path.isfile(p) and f not in files:
                os.remove(p)
        for k, v in files.items():
            with open(os.path.join(self.d, k), "w") as f:
                f.write(v)
        own(self.d)
        self.inputs = {k: v.encode() for k, v in files.items()}

    # -- runs
    def gen(self, extra=(), crash=0):
        env = core.tool_env(str(self.r.randint(0, 1000)))
        sc = os.path.join(self.fw, "scripts")
        env["PYTHONPATH"] = sc + ":" + os.path.join(sc, "parse_tools")
        if crash:
            env["PYTHONPATH"] = CRASH + ":" + env["PYTHONPATH"]
            env["VF_CRASH"] = str(crash)
        return run_as([core.PYTHON, os.path.join(sc, "ccpp_capgen.py")] + self.w.capgen_args("out") + list(extra), self.d, env)

    def outside(self, what):
        t = {k: v for k, v in gentree.tree(self.d).items() if not k.startswith(("out" + os.sep, "keep" + os.sep))}
        if t != self.inputs:
            n, txt = gentree.diff(t, self.inputs)
            raise Violation("inputs-changed", "%s changed files outside the output directory: %s %s" % (what, n, txt))
        t = gentree.tree(self.fw)
        if t != self.fwtree:
            n, txt = gentree.diff(t, self.fwtree)
            raise Violation("framework-changed", "%s changed files of the framework: %s" % (what, n[:5]))

    def fresh(self):
        """Tree a run into an empty directory gives (None: the run fails)"""
        keep = os.path.join(self.d, "keep")
        had = os.path.isdir(self.out)
        if had:
            os.rename(self.out, keep)
        p = self.gen()
        t = gentree.tree(self.out) if os.path.isdir(self.out) else {}
        shutil.rmtree(self.out, ignore_errors=True)
        if had:
            os.rename(keep, self.out)
        return (t if p.rc == 0 else None), p

    def disturb(self):
        r = self.r
        fs = [f for f in (os.listdir(self.out) if os.path.isdir(self.out) else []) if f not in self.foreign
              and os.path.isfile(os.path.join(self.out, f))]
        k = r.choice(["none", "delete", "edit", "foreign", "crash", "crash", "scratch", "fail"])
        self.log.append("disturb:" + k)
        if k == "delete" and fs:
            os.remove(os.path.join(self.out, r.choice(sorted(fs))))
        elif k == "edit" and fs:
            with open(os.path.join(self.out, r.choice(sorted(fs))), r.choice("aw")) as f:
                f.write("! edited\n")
        elif k == "foreign" and os.path.isdir(self.out):
            n = r.choice(["user_%d.F90", "ccpp_mine_%d_cap.F90", "notes%d.txt"]) % r.randint(1, 99)
            self.foreign[n] = b"! mine\n"
            with open(os.path.join(self.out, n), "wb") as f:
                f.write(self.foreign[n])
        elif k == "scratch" and os.path.isdir(self.out):
            x = os.path.join(self.out, "ccpp_temp_scratch_dir")
            os.makedirs(x, exist_ok=True)
            with open(os.path.join(x, r.choice(["old_file.F90", "ccpp_kinds.F90"])), "w") as f:
                f.write("! left over\n")
        elif k == "crash":
            p = self.gen(crash=r.randint(1, 400))
            if p.rc == 79:
                self.stat("interrupted_runs")
        elif k == "fail":
            keep, self.flags["broken"] = self.flags["broken"], r.randint(1, 1000)
            self.put()
            if self.gen().rc:
                self.stat("failed_runs")
            self.flags["broken"] = keep
            self.put()
        if os.path.isdir(self.out):
            own(self.out)

    def step(self, first):
        self.put()
        self.disturb()
        exp, pf = self.fresh()
        populated = os.path.isdir(self.out) and os.listdir(self.out)
        before = gentree.tree(self.out) if os.path.isdir(self.out) else {}
        tb = gentree.times(self.out) if os.path.isdir(self.out) else {}
        force = self.r.random() < 0.1
        p = self.gen(["--force-overwrite"] if force else [])
        if (p.rc == 0) != (exp is not None):
            raise Violation("verdict", "history %s: the run into the existing directory %s, a run into an empty one %s: %s" % (
                self.log, "succeeds" if p.rc == 0 else "fails", "succeeds" if exp is not None else "fails",
                caprun.last_error(p if p.rc else pf)))
        self.outside("a run")
        got, ta = gentree.tree(self.out), gentree.times(self.out)
        for n, v in self.foreign.items():
            if got.get(n) != v and (exp is None or n not in exp):
                raise Violation("foreign-file", "history %s: file %s of the user was changed or removed" % (self.log, n))
        if exp is None:
            self.stat("rejected_inputs")
            self.flags["broken"] = None
            return
        # F90 files of the user with the name of a generated file belong to the generator
        for n in exp:
            self.foreign.pop(n, None)
        for n in exp:
            if got.get(n) != exp[n]:
                a, b = gentree.diff({n: got.get(n, b"(missing)")}, {n: exp[n]})
                raise Violation("content:" + ("datatable" if n.endswith("xml") else "missing" if n not in got else "cap"),
                                "history %s: %s differs from a run into an empty directory: %s" % (self.log, n, b))
        if any("ccpp_temp_scratch_dir" in n for n in got) or os.path.isdir(os.path.join(self.out, "ccpp_temp_scratch_dir")):
            raise Violation("scratch-left", "history %s: the staging directory was left behind: %s" % (self.log, sorted(got)))
        extra = set(got) - set(exp) - set(before)
        if extra:
            raise Violation("extra-files", "history %s: files appeared which a run into an empty directory does not give: %s" % (
                self.log, sorted(extra)))
        lost = {n for n in set(before) - set(got) if n in exp}
        if lost:
            raise Violation("lost-files", "history %s: files %s are lost" % (self.log, sorted(lost)))
        same = 0
        for n in got:
            if before.get(n) == got[n] and not n.endswith("datatable.xml"):
                if force and n in exp:
                    continue
                if ta[n] != tb[n]:
                    raise Violation("rewritten", "history %s: %s was rewritten although its content did not change" % (
                        self.log, n))
                same += 1
        self.exp = exp
        self.stat("runs")
        self.stat("unchanged_files", same)
        self.stat("changed_files", sum(1 for n in exp if n in before and before[n] != exp[n]))
        if populated:
            self.stat("populated_runs")
        self.log.append("run")

    def clean(self):
        if not getattr(self, "exp", None) or not os.path.exists(os.path.join(self.out, "datatable.xml")):
            return
        exp, pf = self.fresh()
        if exp is None:
            return
        if self.gen().rc:
            return
        before = gentree.tree(self.out)
        p = self.gen(["--clean"])
        if p.rc:
            raise Violation("clean-fails", "cleaning failed: " + caprun.last_error(p))
        self.outside("cleaning")
        after = gentree.tree(self.out) if os.path.isdir(self.out) else {}
        left = [n for n in exp if n in after]
        gone = [n for n in before if n not in after and n not in exp and n in self.foreign]
        if left:
            raise Violation("clean-left", "cleaning left generated files %s" % left)
        if gone:
            raise Violation("clean-removed", "cleaning removed %s, which were not generated" % gone)
        if any(after[n] != before[n] for n in after):
            raise Violation("clean-changed", "cleaning changed files")
        self.stat("cleans")
        # the directory is usable again
        if self.gen().rc:
            raise Violation("after-clean", "generation fails after cleaning")
        t = gentree.tree(self.out)
        for n in exp:
            if t.get(n) != exp[n]:
                raise Violation("after-clean", "%s differs after cleaning and regenerating" % n)


def case(item):
    prof, tag, seed, root, steps = item
    h = Hist(seed, prof, tag, root)
    try:
        h.step(True)
        for _ in range(steps):
            for _ in range(h.r.choice([0, 1, 1, 1, 2])):
                h.edit()
            h.step(False)
        h.clean()
        return ("ok", h.stats, "%s%d" % (tag, seed))
    except Violation as v:
        return ("violation", v.key, v.msg)
    finally:
        shutil.rmtree(h.top, ignore_errors=True)


def main():
    chk = Check("C11", RULE, assumptions=["files are compared by content, modification time and inode"])
    prof = dict(n_vars=(4, 8), n_suites=(1, 3), n_schemes=(2, 5), p_inter=0.7, p_active=0.2, p_unitdiff=0.2, p_elem=0.2)
    q = core.QUICK
    root = core.scratch_root()
    os.chmod(root, 0o755)
    try:
        run_cases(chk, case, [(prof, "c11_s%d_" % core.SEED, i, root, 4 if q else 9) for i in range(24 if q else 300)],
                  45 if q else 600)
    finally:
        core.rmtree(root)
    chk.finish(min_evals=10, require=["runs", "populated_runs", "unchanged_files", "changed_files", "interrupted_runs", "cleans",
                                      "rejected_inputs"])
