"""Capgen rejects inconsistent inputs and accepts consistent ones."""
import os, shutil, hashlib, re
from vf import core, capworld, caprun, reject, pysrv, constworld
from vf.core import Violation, Inconclusive, Check
from .c12 import run_cases
from .capworlds import ASSUME

RULE = ("a case is one run of capgen on a generated world: unchanged, with an edit that keeps it consistent, or with one "
        "conflict planted by a mutation (missing provider, use before production, type/kind/length/units/rank/dimension/"
        "intent conflict, conditional provider, malformed or wrong suite file, missing file); it is decided from exit "
        "status, diagnostic and datatable; non-trivial: a conflict planted in an entry or file the run uses")
PROFS = [
    ("plain", dict(p_elem=0, p_nested=0.3)),
    ("cond", dict(p_active=0.3, p_nested=0.3, n_suites=(1, 2))),
    ("conv", dict(p_unitdiff=0.3, p_kinddiff=0.3, p_flip=0.2, p_inter=0.9, n_suites=(2, 2), p_suitetag=0.3)),
    ("sub", dict(p_subcycle=0.3, p_tsplit=0.4, n_modules=(1, 3), p_two_in_file=0.6, n_suites=(1, 3), p_hostorder=0.5)),
    ("big", dict(n_schemes=(5, 8), n_suites=(2, 3), n_vars=(12, 20), p_active=0.1, p_elem=0.3, p_inter=0.9)),
]
INTERNAL = re.compile(r"^(AttributeError|TypeError|KeyError|IndexError|NameError|UnboundLocalError|AssertionError|"
                      r"RecursionError|ZeroDivisionError|StopIteration|UnicodeDecodeError)\b", re.M)


def write(w, d):
    os.makedirs(d)
    files = w.files()
    for fn, f in getattr(w, "extra_files", {}).items():
        files[fn] = f(files)
    for fn, t in files.items():
        for f in w.edits.get(fn, []):
            t2 = f(t) if t is not None else None
            if t2 == t:
                raise Inconclusive("edit of %s had no effect" % fn)
            t = t2
        if t is not None:
            with open(os.path.join(d, fn), "w") as fh:
                fh.write(t)


def judge(p, d, expect, what, key):
    """expect: True accepted, False rejected"""
    out = p.text()
    if p.timeout:
        raise Violation("hang", "capgen does not terminate on %s" % what)
    if expect:
        if p.rc:
            raise Violation("accept:%s:%s" % (key, caprun.norm_error(out)), "consistent inputs (%s) are rejected: %s" % (
                what, caprun.last_error(p)))
        return
    if p.rc == 0:
        raise Violation("reject:" + key, "capgen accepts inconsistent inputs: " + what)
    if os.path.exists(os.path.join(d, "out", "datatable.xml")):
        raise Violation("reject-late:" + key, "capgen fails after completing the generated tree: " + what)
    if not out.strip():
        raise Violation("silent:" + key, "capgen exits with status %d and no diagnostic: %s" % (p.rc, what))
    m = INTERNAL.search(out)
    if m:
        raise Violation("internal:%s:%s" % (key, m.group(1)), "capgen ends with an internal %s instead of a diagnostic: %s\n%s" % (
            m.group(1), what, caprun.last_error(p)))


def conscase(item):
    """a world of constituents and conflicts around them"""
    prof, tag, seed, root, nmut, only = item
    stats, vios, sigs = {}, [], []
    try:
        for name, fn, _ in [("cbase", None, 1)] + reject.CMUT:
            if only not in (None, name):
                continue
            w = constworld.CWorld(seed, {}, tag)
            files = w.files()
            what = fn(files, w, core.rng("c09", tag, seed, name)) if fn else "the world as generated"
            if what is None:
                continue
            d = os.path.join(root, "%s%d_%s" % (tag, seed, name))
            os.makedirs(d)
            for k, t in files.items():
                with open(os.path.join(d, k), "w") as fh:
                    fh.write(t)
            p = pysrv.capgen(w, d)
            k = "accepted" if p.rc == 0 else "rejected"
            stats[k] = stats.get(k, 0) + 1
            stats["runs:" + name] = stats.get("runs:" + name, 0) + 1
            try:
                judge(p, d, fn is None, what, name)
            except Violation as v:
                vios.append((v.key, v.msg, name))
                if fn is None:
                    break
            if fn:
                sigs.append(hashlib.sha256((name + what + "".join(sorted(files.values()))).encode()).hexdigest()[:12])
            shutil.rmtree(d, ignore_errors=True)
        return ("done", stats, sigs, vios)
    except Inconclusive as v:
        return ("done", stats, sigs, vios)


def case(item):
    if item[1].startswith("const"):
        return conscase(item)
    prof, tag, seed, root, nmut, only = item
    d0 = os.path.join(root, "%s%d" % (tag, seed))
    stats, vios, sigs = {}, [], []
    def one(name, fn, expect):
        w = capworld.World(seed, prof, tag)
        w.edits = {}
        what = "the world as generated"
        if fn:
            what = fn(w, core.rng("c09", tag, seed, name))
            if what is None:
                return None
        d = os.path.join(d0, name)
        shutil.rmtree(d, ignore_errors=True)
        try:
            write(w, d)
        except Inconclusive:
            shutil.rmtree(d)
            return None
        p = pysrv.capgen(w, d)
        stats["runs:%s" % name] = stats.get("runs:%s" % name, 0) + 1
        stats["accepted" if p.rc == 0 else "rejected"] = stats.get("accepted" if p.rc == 0 else "rejected", 0) + 1
        try:
            judge(p, d, expect, what, name)
        except Violation as v:
            vios.append((v.key, v.msg, name))
        if not expect:
            sigs.append(hashlib.sha256((name + what + "".join(sorted(w.files().values()))).encode()).hexdigest()[:12])
        shutil.rmtree(d, ignore_errors=True)
        return True
    try:
        r = core.rng("c09", tag, seed)
        if only in (None, "base"):
            one("base", None, True)
            if vios:
                return ("done", stats, sigs, vios)     # C01's business too; the conflicts could not be attributed
        muts = reject.MUT if not only else [m for m in reject.MUT if m[0] == only]
        k = 0
        if not only:
            pool = [m for m in muts for _ in range(m[2])]
            r.shuffle(pool)
        else:
            pool = muts
        seen = set()
        for name, fn, _ in pool:
            if name in seen or k >= nmut:
                continue
            seen.add(name)
            k += one(name, fn, False) or 0
        keeps = reject.KEEP if not only else [m for m in reject.KEEP if m[0] == only]
        keeps = list(keeps)
        r.shuffle(keeps)
        k = 0
        for name, fn, _ in keeps:
            if k >= max(1, nmut // 3):
                break
            k += one(name, fn, True) or 0
        return ("done", stats, sigs, vios)
    finally:
        shutil.rmtree(d0, ignore_errors=True)


def main():
    chk = Check("C09", RULE, assumptions=ASSUME[:1] + ["xmllint is installed, as in this environment"])
    root = core.scratch_root()
    n = 60 if core.QUICK else 1200
    items = []
    for i in range(n):
        tag, prof = PROFS[i % len(PROFS)]
        items.append((prof, "%s_s%d_" % (tag, core.SEED), i, root, 10 if core.QUICK else 18, None))
        if i % 5 == 0:
            items.append(({}, "const_s%d_" % core.SEED, i, root, 0, None))
    try:
        for st, it, r in core.pmap(case, items, 75 if core.QUICK else 850):
            if st == "error":
                chk.inconclusive.append(r)
                continue
            _, stats, sigs, vios = r
            for k, v in stats.items():
                chk.count(k, v)
            for s in sigs:
                chk.case(s)
            if sigs:
                chk.sample(dict(profile=it[1], world=it[2], runs=stats), 2)
            for key, msg, name in vios:
                chk.violation(key, msg, dict(kind="c09", item=[it[0], it[1], it[2], it[4], name]))
    finally:
        core.rmtree(root)
    chk.finish(min_evals=100, require=["accepted", "rejected"])


def replay(data):
    root = core.scratch_root()
    prof, tag, seed, nmut, name = data["item"]
    r = case((prof, tag, seed, root, nmut, name))
    for v in r[3]:
        print(v[0], v[1])
    core.rmtree(root)
    return bool(r[3])
