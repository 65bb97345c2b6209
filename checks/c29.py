"""ccpp_prebuild rejects inconsistent inputs with an error."""
import os, re, shutil
from vf import core, prereject, prerun, preworld, pysrv
from vf.core import Violation, Check
from .c12 import run_cases

RULE = ("a case is one run of ccpp_prebuild on a generated host, its schemes and suites with one planted inconsistency (missing "
        "provider, file, suite, scheme, table or configuration entry; conflict of type, kind, length, rank, units, dimension "
        "or stage; malformed hook, property or suite file), or unchanged; decided from the exit status and the diagnostic; "
        "non-trivial: an inconsistency in something the run uses")
ASSUME = ["a diagnostic names the offending variable, table or file in an error line or the final exception"]
PROFS = [
    ("a", dict(p_ddt=0.8, p_nested=0.4, p_active=0.3)),
    ("b", dict(n_vars=(10, 18), n_schemes=(4, 7), n_suites=(1, 3), p_active=0.3, p_unitdiff=0.2)),
    ("c", dict(n_modules=(2, 3), n_args=(4, 9), p_active=0.4, p_noargs=0.0, p_ddt=0.9, p_nested=0.6)),
]
INTERNAL = re.compile(r"^(AttributeError|TypeError|IndexError|NameError|UnboundLocalError|AssertionError|"
                      r"RecursionError|ZeroDivisionError|StopIteration|UnicodeDecodeError)\b", re.M)


def diagnostic(p):
    """error lines and the final exception"""
    t = p.text()
    res = [l for l in t.splitlines() if l.startswith(("ERROR", "CRITICAL"))]
    i = t.rfind("Traceback (most recent call last)")
    if i >= 0:
        tail = [l for l in t[i:].splitlines() if l and not l.startswith((" ", "Traceback", "INFO", "DEBUG", "WARNING"))]
        res += tail
        # messages of several lines
        res += re.findall(r"^\w*(?:Error|Exception): (.*)\Z", t[i:], re.S | re.M)
    # continuation lines of logged messages
    for m in re.finditer(r"^(?:ERROR|CRITICAL): .*(?:\n(?!INFO|DEBUG|WARNING|ERROR|CRITICAL|Traceback).*)*", t, re.M):
        res.append(m.group(0))
    return "\n".join(res)


def run(w, files, d):
    for n, t in files.items():
        if t is None or n == "vdriver.F90":
            continue
        p = os.path.join(d, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as f:
            f.write(t)
    os.makedirs(os.path.join(d, "build", "caps"))
    a = [prerun.PREBUILD, "--config=ccpp_prebuild_config.py", "--builddir=build"]
    if w.debug:
        a.append("--debug")
    if not getattr(w, "nosuites", False):
        m = getattr(w, "suitearg", {})
        a.append("--suites=" + ",".join(m.get(s.file, s.file[:-4]) for s in w.suites))
    return pysrv.run(a, d, 120)


def case(item):
    pn, prof, tag, seed, root, muts = item
    stats, vios, sigs = {}, [], []

    def one(name, fn):
        w = preworld.PWorld(seed, prof, tag + pn)
        files = dict(w.files())
        what, word = "the inputs as generated", None
        if fn:
            x = fn(w, files, core.rng("c29", tag, seed, pn, name))
            if x is None:
                return
            what, word = x
        d = os.path.join(root, "%s%s%d_%s" % (tag, pn, seed, name if fn else "none_" + muts[0][0]))
        try:
            p = run(w, files, d)
            stats["run:" + name] = 1
            if p.timeout:
                raise Violation("hang", "ccpp_prebuild does not terminate: " + what)
            if fn is None:
                if p.rc:
                    raise Violation("accept:" + prerun.norm_error(p.text()), "consistent inputs are rejected: " + prerun.last_error(p))
                stats["accepted"] = 1
                return
            if p.rc == 0:
                raise Violation("reject:" + name, "ccpp_prebuild accepts inconsistent inputs: " + what)
            stats["rejected"] = stats.get("rejected", 0) + 1
            if p.rc < 0:
                raise Violation("signal:" + name, "ccpp_prebuild ends with signal %d: %s" % (-p.rc, what))
            dg = diagnostic(p)
            if not dg.strip():
                raise Violation("silent:" + name, "ccpp_prebuild exits with %d and no diagnostic: %s" % (p.rc, what))
            if word and word not in dg:
                raise Violation("vague:" + name, "the diagnostic does not mention %s: %s\n%s" % (word, what, dg[-600:]))
            t = p.text()
            m = INTERNAL.search(t[t.rfind("Traceback (most recent call last)"):])
            if m and not re.search(r"^(ERROR|CRITICAL)", t, re.M) and name not in SYNTAX:
                raise Violation("internal:%s:%s" % (name, m.group(1)), "ccpp_prebuild ends with an internal %s: %s\n%s" % (
                    m.group(1), what, prerun.last_error(p)))
            sigs.append("%s%d:%s" % (pn, seed, name))
        except Violation as v:
            vios.append((v.key, v.msg))
        finally:
            shutil.rmtree(d, ignore_errors=True)
    one("none", None)
    for name, fn in muts:
        one(name, fn)
    if vios:
        return ("violation",) + vios[0]
    return ("ok", stats, sigs)


SYNTAX = {"suite_syntax", "config_lost"}      # errors of the XML parser, of int() or of the imported configuration


def main():
    chk = Check("C29", RULE, assumptions=ASSUME)
    root = core.scratch_root()
    q = core.QUICK
    try:
        items = []
        for i in range(60 if q else 1200):
            pn, prof = PROFS[i % len(PROFS)]
            r = core.rng("c29m", i, core.SEED)
            items.append((pn, prof, "c29_s%d_" % core.SEED, i, root, prereject.MUT if not q else prereject.MUT))
        run_cases(chk, case, items, 30 if q else 780)
    finally:
        core.rmtree(root)
    chk.finish(min_evals=30, require=["accepted", "rejected"])
