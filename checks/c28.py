"""Regeneration histories and determinism of ccpp_prebuild."""
import copy, os, re, shutil
from vf import core, gentree, prerun, preworld
from vf import units as U
from vf.core import Violation, Inconclusive, Check
from vf.preworld import STAGES
from .c11 import own, run_as
from .c12 import run_cases

RULE = ("a case is one history: edits of host, scheme, suite and configuration inputs, disturbances of the build directory "
        "(deleted generated files, runs interrupted at a random file operation, failing runs, --clean) and reruns of "
        "ccpp_prebuild in the same directory; after every successful run every generated file is compared with a run into an "
        "empty directory, modification times with those before, the lists in the make, cmake and shell snippets with the "
        "world; some runs are repeated under other hash seeds and directory enumeration orders; non-trivial when a "
        "populated directory was regenerated after an edit which changed the outputs")
ASSUME = ["rewriting the suite cap when one of its group caps changed, and the interface and its snippets when a suite cap "
          "changed, is documented in the source and accepted as not leaving them untouched"]
CRASH = os.path.join(core.VERIF, "pyhooks", "crash")
SHUFFLE = os.path.join(core.VERIF, "pyhooks", "shuffle")


class Hist:
    def __init__(self, seed, prof, tag, root):
        self.r = core.rng("c28", tag, seed)
        self.top = os.path.join(root, "h%s%d" % (tag, seed))
        self.d = os.path.join(self.top, "work")
        os.makedirs(os.path.join(self.d, "build", "caps"))
        self.w = preworld.PWorld(seed, prof, tag)
        self.w.debug = False
        self.deps = {}                  # scheme or module -> extra dependency files
        self.ns = self.r.choice([None, None, None, "ns1", "other"])
        self.allsuites = self.r.random() < 0.4
        self.cfg = None
        self.comments = 0
        self.broken = False
        self.stats = {}
        self.log = []

    def stat(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    # -- inputs
    def edit(self):
        r, w = self.r, self.w
        kinds = ["loop", "items", "swapgroup", "dropgroup", "renamegroup", "addsuite", "dropsuite", "swapsuites", "entry", "intent",
                 "args", "droparg", "units", "cond", "rename", "deps", "deps", "hostdeps", "cfgorder", "debug", "none", "comment",
                 "moduledeps"]
        k = r.choice(kinds)
        s = r.choice(w.suites)
        gi = r.randrange(len(s.groups))
        es = [(x, st, e) for x in w.schemes for st, e in x.entries.items() if e.args]
        if k == "loop":
            g, subs = s.groups[gi]
            subs = list(subs)
            i = r.randrange(len(subs))
            subs[i] = (r.randint(1, 4), subs[i][1])
            s.groups[gi] = (g, subs)
        elif k == "items":
            g, subs = s.groups[gi]
            subs = [(n, list(its)) for n, its in subs]
            its = r.choice(subs)[1]
            x = r.random()
            if x < 0.4:
                its.insert(r.randrange(len(its) + 1), r.choice(w.schemes).name)
            elif x < 0.7 and len(its) > 1:
                its.pop(r.randrange(len(its)))
            else:
                r.shuffle(its)
            s.groups[gi] = (g, subs)
        elif k == "swapgroup":
            r.shuffle(s.groups)
        elif k == "dropgroup" and len(s.groups) > 1:
            s.groups.pop(gi)
        elif k == "renamegroup":
            s.groups[gi] = ("grp%d" % r.randint(1, 999), s.groups[gi][1])
        elif k == "addsuite":
            n = copy.deepcopy(s)
            n.name = "new%d" % r.randint(1, 999)
            n.file = n.name + ".xml"
            r.shuffle(n.groups)
            if n.name not in [x.name for x in w.suites]:
                w.suites.insert(r.randrange(len(w.suites) + 1), n)
        elif k == "dropsuite" and len(w.suites) > 1:
            w.suites.remove(s)
        elif k == "swapsuites":
            r.shuffle(w.suites)
        elif k == "entry":
            x = r.choice(w.schemes)
            if len(x.entries) > 1:
                st = r.choice(list(x.entries))
                del x.entries[st]
                x.order.remove(st)
        elif k in ("intent", "args", "droparg") and es:
            x, st, e = r.choice(es)
            a = r.choice(e.args)
            if k == "intent" and not a.special:
                a.intent = r.choice(["in", "inout", "out"])
            elif k == "args":
                r.shuffle(e.args)
            elif k == "droparg":
                e.args.remove(a)
            for b in e.args:
                b.explicit = False
        elif k == "units" and es:
            c = [a for _, _, e in es for a in e.args if a.src is not None and a.type == "real" and U.family_of(a.src.units)]
            if c:
                a = r.choice(c)
                a.units = r.choice([a.src.units] + list(U.partners(U.family_of(a.src.units), a.src.units)))
        elif k == "cond":
            c = [v for v in w.vars if v.cond is not None]
            if c:
                v = r.choice(c)
                v.cond, v.unalloc = None, False
        elif k == "rename":
            c = [v for v in w.vars if v.elem_of is None and not any(x.elem_of is v for x in w.vars)]
            if c:
                r.choice(c).local = "renamed_%d" % r.randint(1, 999)
        elif k == "deps":
            x = r.choice(w.schemes).name
            self.deps[x] = r.sample(["util_a.F90", "util_b.f90", "old.f", "older.F", "sub/util_c.F90"], r.randint(0, 3))
        elif k == "hostdeps":
            self.deps[r.choice(w.modules)] = r.sample(["hutil_a.F90", "hutil_b.F90", "sub/hutil.f90"], r.randint(0, 2))
        elif k == "cfgorder":
            self.cfg = r.randint(1, 10 ** 6)
        elif k == "debug":
            w.debug = not w.debug
        elif k == "comment":
            self.comments += 1
        self.log.append("edit:" + k)

    def put(self):
        w = copy.deepcopy(self.w)
        files = dict(w.files())
        del files["vdriver.F90"]
        for x, fs in self.deps.items():
            if x in w.scheme:
                n = "schemes/%s.meta" % x
                assert "dependencies = ../ccpp_kinds.F90\n" in files[n]
                files[n] = files[n].replace("dependencies = ../ccpp_kinds.F90\n", "dependencies = ../ccpp_kinds.F90%s\n" %
                                            "".join(", " + f for f in fs))
            else:
                n = x + ".meta"
                files[n] = files[n].replace("dependencies =\n", "dependencies = %s\n" % ",".join(fs)) if fs else files[n]
            for f in fs:
                files[os.path.normpath(os.path.join(os.path.dirname(n), f))] = "! %s\n" % f
        for n in list(files):
            if n.endswith(".meta"):
                files[n] = "# comment\n" * self.comments + files[n]
            elif n.endswith(".F90"):
                files[n] += "! comment\n" * self.comments
        c = files["ccpp_prebuild_config.py"]
        if self.cfg:
            r = core.rng("cfg", self.cfg)
            vs = w.var_files()
            ss = ["schemes/%s.F90" % s.name for s in w.schemes]
            r.shuffle(ss)
            c = c.replace("SCHEME_FILES = ", "SCHEME_FILES = %r\n_UNUSED = " % ss)
            if r.random() < 0.5:
                vs = vs[:1] + [os.path.join(self.d, v) for v in vs[1:]]
            c = c.replace("VARIABLE_DEFINITION_FILES = ", "VARIABLE_DEFINITION_FILES = %r\n_UNUSED2 = " % vs)
        if self.broken:
            c = c.replace("SUITES_DIR = 'suites'", "SUITES_DIR = 'nosuites'")
        files["ccpp_prebuild_config.py"] = c
        for base, _, fs in os.walk(self.d):
            if os.path.relpath(base, self.d).split(os.sep)[0] == "build":
                continue
            for f in fs:
                p = os.path.join(base, f)
                if os.path.relpath(p, self.d) not in files:
                    os.remove(p)
        for k, v in files.items():
            p = os.path.join(self.d, k)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w") as f:
                f.write(v)

    # -- running
    def args(self):
        a = [prerun.PREBUILD, "--config=ccpp_prebuild_config.py", "--builddir=build"]
        if self.w.debug:
            a.append("--debug")
        if self.ns:
            a.append("--namespace=" + self.ns)
        if not self.allsuites:
            a.append("--suites=" + ",".join(s.file[:-4] for s in self.w.suites))
        return a

    def run(self, hs="0", env=None, hook=None):
        if hs == "0" and hook is None:
            from vf import pysrv
            return pysrv.run(self.args(), self.d)
        e = core.tool_env(hs, env)
        if hook:
            e["PYTHONPATH"] = hook + ":" + e["PYTHONPATH"]
        return core.run([core.PYTHON] + self.args(), self.d, 120, e)

    def fresh(self, **kw):
        """run into an empty build directory of the same name"""
        b = os.path.join(self.d, "build")
        os.rename(b, self.top + "/held")
        try:
            os.makedirs(os.path.join(b, "caps"))
            p = self.run(**kw)
            return p, gentree.tree(b)
        finally:
            shutil.rmtree(b, ignore_errors=True)
            os.rename(self.top + "/held", b)

    # -- oracles
    def lists(self):
        w, d = self.w, self.d
        b = os.path.join(d, "build")
        caps, apis = [], []
        for s in w.suites:
            caps += ["build/caps/ccpp_%s_cap.F90" % s.name] + ["build/caps/ccpp_%s_%s_cap.F90" % (s.name, g) for g, _ in s.groups]
        used = {n for s in w.suites for _, subs in s.groups for _, its in subs for n in its}
        sch = ["schemes/%s.F90" % n for n in used] + ["ccpp_kinds.F90"] + [m + ".F90" for m in w.modules]
        for x, fs in self.deps.items():
            if x in used:
                sch += ["schemes/" + f for f in fs]
            elif x in w.modules:
                sch += fs
        want = {"CAPS": {os.path.join(d, c) for c in caps},
                "SCHEMES": {os.path.normpath(os.path.join(d, c)) for c in sch} | {os.path.join(core.REPO, "src", "ccpp_types.F90")}}
        for kind in ("CAPS", "SCHEMES"):
            for ext in ("mk", "cmake", "sh"):
                got = prerun.snippet(os.path.join(b, "CCPP_%s.%s" % (kind, ext)))
                # (make snippets of schemes: absolute paths with one or no repetition)
                if set(got) != want[kind]:
                    raise Violation("list:%s" % kind, "CCPP_%s.%s lists %s, missing %s" % (
                        kind, ext, sorted(set(got) - want[kind]), sorted(want[kind] - set(got))))
                self.stat("lists_checked")
        types = {h.module for h in w.homes if h.kind != "mod"} | {"ccpp_kinds"}
        for ext in ("mk", "cmake", "sh"):
            t = open(os.path.join(b, "CCPP_TYPEDEFS." + ext)).read()
            got = {x[:-4] for x in re.findall(r"[\w.]+\.mod\b", t)} - {"ccpp_types"}
            if got != types:
                raise Violation("list:TYPEDEFS", "CCPP_TYPEDEFS.%s lists modules %s, expected %s" % (ext, sorted(got), sorted(types)))
            self.stat("lists_checked")
        api = os.path.join(b, "api", "ccpp_static_api%s.F90" % ("_" + self.ns if self.ns else ""))
        for ext in ("sh", "cmake"):
            got = prerun.snippet(os.path.join(b, "CCPP_API." + ext))
            if got != [api]:
                raise Violation("list:API", "CCPP_API.%s names %s, expected %s" % (ext, got, api))
        if not os.path.exists(api):
            raise Violation("list:API", "%s does not exist" % api)

    def rerun(self, history):
        b = os.path.join(self.d, "build")
        before, tb = gentree.tree(b), gentree.times(b)
        p = self.run()
        pf, want = self.fresh()
        if p.rc != pf.rc:
            raise Violation("rc", "after %s the rerun exits with %s, a run into an empty directory with %s: %s" % (
                history, p.rc, pf.rc, prerun.last_error(p if p.rc else pf)))
        if p.rc:
            raise Inconclusive("prebuild fails after edits %s: %s" % (history, prerun.last_error(p)))
        got, ta = gentree.tree(b), gentree.times(b)
        bad, txt = gentree.diff({k: got[k] for k in want if k in got}, want)
        if bad:
            raise Violation("stale:" + re.sub(r"_\w+_cap|_ns1|_other", "_*", os.path.basename(bad[0])),
                            "after %s, %s differ from a fresh run: %s" % (history, bad, txt))
        self.stat("files_compared", len(want))
        left = [k for k in set(got) - set(want) - set(before)]
        if left:
            raise Violation("leftover", "after %s the rerun left %s" % (history, left))
        changed = [k for k in want if before.get(k) != want[k]]
        caps = [k for k in want if k.startswith("caps/")]
        suitecap = {"caps/ccpp_%s_cap.F90" % s.name: ["caps/ccpp_%s_%s_cap.F90" % (s.name, g) for g, _ in s.groups]
                    for s in self.w.suites}
        anycap = any(k in changed for k in caps)
        if changed and before:
            self.stat("regenerations_with_changes")
        for k in want:
            if k in changed or k not in tb or k.endswith((".html", ".tex")):
                continue
            if k in suitecap and any(x in changed for x in suitecap[k]):
                continue
            if (k.startswith("api/") or k.startswith("CCPP_API")) and (anycap or any(x.startswith("api/") for x in changed)):
                continue
            if ta[k] != tb[k]:
                raise Violation("touched:" + re.sub(r"_\w+_cap|_ns1|_other", "_*", os.path.basename(k)),
                                "%s has unchanged content but was rewritten after %s" % (k, history))
            self.stat("untouched_files")
        self.lists()
        self.want = want
        return want

    def disturb(self):
        r = self.r
        b = os.path.join(self.d, "build")
        fs = sorted(gentree.tree(b))
        k = r.choice(["delete", "delete", "crash", "crash", "crash", "fail", "clean", "emptycaps"])
        if k == "delete" and fs:
            n = r.choice(fs)
            os.remove(os.path.join(b, n))
            k = "delete " + n
        elif k == "crash":
            p = self.run("0", {"VF_CRASH": str(r.randint(1, r.choice([60, 120, 200])))}, CRASH)
            if p.rc == 79:
                self.stat("interrupted_runs")
        elif k == "fail":
            self.broken = True
            self.put()
            p = self.run()
            self.broken = False
            self.put()
            if p.rc == 0:
                raise Violation("missing-suites-accepted", "a configuration with a suites directory that does not exist was accepted")
        elif k == "clean":
            keep = os.path.join(self.top, "foreign.txt")
            foreign = ["build/mine.txt", "build/caps/mine.F90", "build/api/mine.F90"]
            for f in foreign:
                os.makedirs(os.path.dirname(os.path.join(self.d, f)), exist_ok=True)
                open(os.path.join(self.d, f), "w").write("x")
            inputs = {x: y for x, y in gentree.tree(self.d).items() if not x.startswith("build/")}
            own(self.top)
            p = run_as([core.PYTHON] + self.args() + ["--clean"], self.d, core.tool_env("0"))
            if p.rc:
                raise Violation("clean-rc", "--clean exits with %s: %s" % (p.rc, prerun.last_error(p)))
            if inputs != {x: y for x, y in gentree.tree(self.d).items() if not x.startswith("build/")}:
                raise Violation("clean-inputs", "--clean changed files outside the build directory")
            left = [x for x in self.want if x in gentree.tree(b)]
            if left:
                raise Violation("clean-left", "--clean left generated files %s" % left)
            for f in foreign:
                if not os.path.exists(os.path.join(self.d, f)):
                    raise Violation("clean-foreign", "--clean removed %s" % f)
                os.remove(os.path.join(self.d, f))
            self.stat("cleans")
        elif k == "emptycaps":
            shutil.rmtree(os.path.join(b, "caps"), ignore_errors=True)
            os.makedirs(os.path.join(b, "caps"))
        self.log.append(k)

    def determinism(self, want):
        r = self.r
        hs = str(r.randint(1, 4 * 10 ** 9))
        p, got = self.fresh(hs=hs, env={"VF_SHUFFLE": str(r.randint(1, 10 ** 6)), "LC_ALL": r.choice(["C", "C.UTF-8"])},
                            hook=SHUFFLE)
        if p.rc:
            raise Violation("variant-fails", "prebuild succeeds with hash seed 0 and fails with hash seed %s: %s" % (
                hs, prerun.last_error(p)))
        bad, txt = gentree.diff(got, want)
        if bad:
            raise Violation("nondeterministic:" + re.sub(r"_\w+_cap|_ns1|_other", "_*", os.path.basename(bad[0])),
                            "%s differ under hash seed %s and another directory order: %s" % (bad, hs, txt))
        self.stat("variants_compared")


def case(item):
    prof, tag, seed, root, nsteps = item
    h = Hist(seed, prof, tag, root)
    try:
        h.put()
        want = h.rerun("the first run")
        h.determinism(want)
        for i in range(nsteps):
            x = h.r.random()
            n = len(h.log)
            if x < 0.85:
                for _ in range(h.r.choice([1, 1, 2])):
                    h.edit()
                h.put()
            if x > 0.55:
                h.disturb()
            want = h.rerun(h.log[n:])
            if h.r.random() < 0.3:
                h.determinism(want)
        return ("ok", h.stats, "%s%d" % (tag, seed) if h.stats.get("regenerations_with_changes") else None)
    except Violation as v:
        return ("violation", v.key, v.msg + "\nhistory: %s" % h.log)
    except Inconclusive as v:
        return ("inconclusive", str(v)[:1500])
    finally:
        shutil.rmtree(h.top, ignore_errors=True)


def main():
    chk = Check("C28", RULE, assumptions=ASSUME)
    prof = dict(n_vars=(5, 12), n_schemes=(3, 6), n_suites=(1, 3), p_ddt=0.8, p_nested=0.4, p_unitdiff=0.3, p_active=0.3)
    root = core.scratch_root()
    os.chmod(root, 0o755)
    q = core.QUICK
    try:
        run_cases(chk, case, [(prof, "c28_s%d_" % core.SEED, i, root, 6 if q else 14) for i in range(70 if q else 900)],
                  32 if q else 780)
    finally:
        core.rmtree(root)
    chk.finish(min_evals=30, require=["files_compared", "regenerations_with_changes", "variants_compared", "untouched_files",
                                      "interrupted_runs", "lists_checked", "cleans"])
