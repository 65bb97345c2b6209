"""Unit strings are compared and converted consistently."""
import os, json, re, shutil
from vf import core, pysrv, units, caprun
from vf.core import Check, Inconclusive
from .c12 import run_cases
from .c15 import base_files

RULE = ("a case is a batch of questions to the real code about unit strings (is it valid, are two the same, how is one converted "
        "to the other in given kinds); the Fortran statements it answers with are compiled and executed on sample values, and the "
        "results compared with the physical definition of the units; tiny worlds with unit pairs are run through the real "
        "generator; non-trivial: at least one conversion executed or string judged")
READ = os.path.join(core.VERIF, "vf", "unitread.py")
META = os.path.join(core.VERIF, "vf", "metaread.py")
WCMD = [caprun.CAPGEN, "--host-files", "tiny_data.meta,tiny_host.meta", "--scheme-files", "tiny_scheme.meta", "--suites", "suite_tiny.xml",
        "--host-name", "tiny_host", "--output-root", "out"]
KINDS = ["kind_phys", "kind_dyn", "kind_host", "REAL64", "REAL32"]
DOUBLE = {"kind_phys", "kind_host", "REAL64"}
VALUES = [0.0, 1.0, -1.0, 273.15, 0.00123, 98765.4321, -40.0, 5.0e6]
ALL = [u for f in units.FAMILIES.values() for u in f] + units.UNITS_ONLY + ["NONE", "None", "NonE", "M", "S", "PA", "k", "c", "count", "degree_C", "m-1", "s-1", "kg",
                                                                             "radians", "m2", "index", "flag", "hPa s-1", "g", "kg-1", "km h", "mm s-1"]
PAIR = {(a, b) for f in units.PAIRS.values() for x in f for a, b in (x, x[::-1])}


def ident(u):
    u = u.replace(" ", "_").replace("-", "_minus_")
    return "one" if u == "1" else u


def unident(s):
    s = re.sub(r"_minus_(\d)", r"-\1", s)
    s = s if s.startswith("degree_") else s.replace("_", " ")
    return "1" if s == "one" else s


def relation(a, b):
    """same / convertible / None"""
    a, b = ["none" if u.lower() == "none" else u for u in (a, b)]
    return "same" if a == b else "convert" if (a, b) in PAIR else None


def ask(d, **req):
    q = dict(names=[], pairs=[], tend=[], pre=[])
    q.update(req)
    f = os.path.join(d, "req.json")
    with open(f, "w") as o:
        json.dump(q, o)
    p = core.run_py([READ, f], d, 120)
    if p.rc != 0 or not p.out.startswith("{"):
        raise Inconclusive("the unit reader failed: %s %s" % (p.rc, p.err[-400:]))
    return json.loads(p.out)


def program(d, tests):
    """tests: (kind of va, statement va->vb, kind of vb, statement vb->va, rank); prints vb and va for every value"""
    L = []
    for n, (k1, s1, k2, s2, rank) in enumerate(tests):
        dim = ", dimension(%s)" % ",".join(["1"] * rank) if rank else ""
        L += ["subroutine t%d()" % n, "real(%s)%s :: va" % (k1, dim), "real(%s)%s :: vb" % (k2, dim), "integer :: i, k, n", "i = 1", "k = 1",
              "do n = 1, size(vals)", "va = real(vals(n), %s)" % k1, "vb = -1", s1, "va = -1", s2,
              "write(*, '(2es27.18e3)') real(vb, REAL64), real(va, REAL64)", "end do", "end subroutine"]
    src = ["module m", "use iso_fortran_env, only: REAL32, REAL64", "implicit none",
           "integer, parameter :: kind_phys = REAL64, kind_dyn = REAL32, kind_host = REAL64",
           "real(REAL64), parameter :: vals(%d) = [%s]" % (len(VALUES), ", ".join("%r_REAL64" % v for v in VALUES)), "contains"] + L
    src += ["end module", "program p", "use m"] + ["call t%d()" % n for n in range(len(tests))] + ["end program"]
    with open(os.path.join(d, "p.F90"), "w") as f:
        f.write("\n".join(src) + "\n")
    c = core.run(["gfortran", "-O0", "-ffree-line-length-none", "-w", "p.F90", "-o", "p"], d, 180)
    if c.rc != 0:
        return None, c.err
    x = core.run(["./p"], d, 60)
    rows = [[float(y) for y in ln.split()] for ln in x.out.split("\n") if ln.strip()]
    if x.rc != 0 or len(rows) != len(tests) * len(VALUES):
        return None, "the program failed: %s %s" % (x.rc, x.err[-300:])
    return [rows[i * len(VALUES):(i + 1) * len(VALUES)] for i in range(len(tests))], ""


def close(x, y, double, scale):
    return abs(x - y) <= (1e-11 if double else 3e-6) * max(abs(y), scale)


def scale_of(u):
    return 300.0 if units.family_of(u) == "temp" else 0.0


def err(key, msg):
    return ("violation", key, msg)


# ------------------------------------------------------------------ cases
def library(item):
    """every conversion function: inverse, chains, physics, in two precisions"""
    _, root = item
    d = os.path.join(root, "lib")
    os.makedirs(d)
    try:
        want = ["%s__to__%s" % (ident(a), ident(b)) for a, b in PAIR]
        a = ask(d, names=want)["functions"]
        for n in want:
            if a[n] is None:
                return err("missing:" + n, "no conversion %s" % n)
        fn = {tuple(n.split("__to__")): s for n, s in a.items()}
        for (x, y) in fn:
            if (y, x) not in fn:
                return err("inverse:%s" % x, "%s is converted to %s but not back" % (x, y))
        tests, keys = [], []
        for (x, y), s in sorted(fn.items()):
            for k in ("kind_phys", "kind_dyn"):
                tests.append((k, "vb = " + s.format(var="va", kind="_" + k), k, "va = " + fn[(y, x)].format(var="vb", kind="_" + k), 0))
                keys.append((x, y, k))
        rows, e = program(d, tests)
        if rows is None:
            return err("compile", "conversions do not compile or run: " + e[-1500:])
        val = dict(zip(keys, rows))
        st = dict(functions=len(fn), executed=len(tests) * len(VALUES), chains=0)
        for (x, y, k), rs in val.items():
            dbl = k in DOUBLE
            ux, uy = unident(x), unident(y)
            known = units.family_of(ux) and units.family_of(ux) == units.family_of(uy)
            for v, (w, back) in zip(VALUES, rs):
                sc = max(scale_of(ux), 1e-300)
                if not close(back, v if dbl else float(v), dbl, sc):
                    return err("roundtrip:%s:%s" % (x, y), "%r %s to %s and back gives %r (%s)" % (v, ux, uy, back, k))
                if known and not close(w, units.convert(v, ux, uy), dbl, max(scale_of(uy), 1e-300)):
                    return err("value:%s:%s" % (x, y), "%r %s converted to %s gives %r, not %r (%s)" % (v, ux, uy, w, units.convert(v, ux, uy), k))
        # chains: x->y->z against x->z, evaluated by composing the formulas in Fortran
        ch = [(x, y, z) for (x, y) in fn for (y2, z) in fn if y == y2 and (x, z) in fn]
        tests = [("kind_phys", "vb = " + fn[(y, z)].format(var="(%s)" % fn[(x, y)].format(var="va", kind="_kind_phys"), kind="_kind_phys"), "kind_phys",
                  "va = vb", 0) for x, y, z in ch]
        rows, e = program(d, tests) if tests else ([], "")
        if rows is None:
            return err("compile", "chained conversions do not compile: " + e[-1500:])
        for (x, y, z), rs in zip(ch, rows):
            for (w, _), (direct, _) in zip(rs, val[(x, z, "kind_phys")]):
                if not close(w, direct, True, max(scale_of(unident(z)), 1e-300)):
                    return err("chain:%s:%s:%s" % (x, y, z), "%s to %s by way of %s gives %r, directly %r" % (x, z, y, w, direct))
        st["chains"] = len(ch)
        return ("ok", st, "library")
    finally:
        shutil.rmtree(d, ignore_errors=True)


def pairs(item):
    """comparisons and transformations of variables with given units and kinds"""
    tag, i, root, n = item
    d = os.path.join(root, "p%d" % i)
    os.makedirs(d)
    try:
        r = core.rng("c24p", tag, i)
        qs = []
        conv = sorted(PAIR)
        for _ in range(n):
            k = r.random()
            a, b = r.choice(conv) if k < 0.45 else (r.choice(ALL), r.choice(ALL))
            if k > 0.85:
                b = a
            elif k > 0.8:
                a, b = [r.choice(["none", "NONE", "None", "nONE"]) for _ in range(2)]
            k1 = r.choice(KINDS)
            k2 = k1 if r.random() < 0.5 else r.choice(KINDS)
            qs.append([a, k1, b, k2, r.choice([0, 0, 1, 2])])
        tq, pq = [], []
        for _ in range(n // 4):
            u = r.choice([x for x in ALL if x.lower() != "none" and x != "1" and "_" not in x])
            k = r.randrange(5)
            t = u + " s-1" if k < 2 else u if k == 2 else r.choice(ALL) if k == 3 else u + " " + r.choice(["h-1", "s-2", "s", "s-1 m-1", "s-1 s-1", "d-1", "s-10"])
            tq.append([t, u])
        for _ in range(n // 4):
            pq.append(list(r.choice(conv)) if r.random() < 0.6 else [r.choice(ALL), r.choice(ALL)])
        pq = [p for p in pq if p[0] != p[1]]
        a = ask(d, pairs=qs, tend=tq, pre=pq)
        st = dict(pairs_judged=len(qs), tendencies_judged=len(tq), prebuild_judged=len(pq), executed=0, refused=0)
        tests, meta = [], []
        for q, x in zip(qs, a["pairs"]):
            u1, k1, u2, k2, rank = q
            rel = relation(u1, u2)
            if "crash" in x:
                return err("crash", "%s: %s" % (q, x))
            if rel is None:
                if "error" not in x:
                    return err("accepted", "'%s' and '%s' are taken for compatible: %s" % (u1, u2, x))
                if u1 not in x["error"] and u2 not in x["error"]:
                    return err("message", "the error for '%s' and '%s' names neither: %s" % (u1, u2, x["error"]))
                st["refused"] += 1
                continue
            if "error" in x:
                return err("rejected:" + rel, "'%s' and '%s' are rejected: %s" % (u1, u2, x["error"]))
            if rel == "same" and x["units"] or rel == "convert" and (not x["units"] or x["equiv"]):
                return err("kind-of-relation", "%s: %s" % (q, x))
            if rel == "same" and (k1 in DOUBLE) == (k2 in DOUBLE) and not x["equiv"]:
                return err("equiv", "%s: %s" % (q, x))
            tests.append((k1, x["fwd"], k2, x["rev"], rank))
            meta.append(q)
        for (t, u), x in zip(tq, a["tend"]):
            if "crash" in x:
                return err("crash", "tendency %s of %s: %s" % (t, u, x))
            if ("error" not in x) != (t == u + " s-1"):
                return err("tendency", "tendency in '%s' of a variable in '%s': %s" % (t, u, x.get("error", "accepted")))
        for (u, o), x in zip(pq, a["pre"]):
            rel = relation(u, o)
            if rel == "same":
                continue
            if ("error" in x) != (rel is None):
                return err("prebuild", "prebuild, '%s' from and to '%s': %s" % (u, o, x))
            if rel:
                tests.append(("kind_phys", "vb = " + x["out"].format(var="va", kind="_kind_phys"), "kind_phys",
                              "va = " + x["in"].format(var="vb", kind="_kind_phys"), 0))
                meta.append([u, "kind_phys", o, "kind_phys", 0])
            else:
                st["refused"] += 1
        rows, e = program(d, tests)
        if rows is None:
            return err("compile", "transformations do not compile or run: %s" % e[-1500:])
        for (u1, k1, u2, k2, rank), rs in zip(meta, rows):
            for v, (w, back) in zip(VALUES, rs):
                u1, u2 = ["none" if u.lower() == "none" else u for u in (u1, u2)]
                exp = v if u1 == u2 else units.convert(v, u1, u2)
                dbl = k1 in DOUBLE and k2 in DOUBLE
                if not close(w, exp, dbl, max(scale_of(u2), 1e-300)):
                    return err("transform", "%r in %s (%s) becomes %r in %s (%s), not %r" % (v, u1, k1, w, u2, k2, exp))
                if not close(back, v, dbl, max(scale_of(u1), 1e-300)):
                    return err("transform-back", "%r in %s (%s) to %s (%s) and back gives %r" % (v, u1, k1, u2, k2, back))
            st["executed"] += len(rs)
        return ("ok", st, "pairs%d" % i)
    finally:
        shutil.rmtree(d, ignore_errors=True)


UNIT = r"[a-zA-Z]+(-?[1-9][0-9]*)?"
VALID = re.compile(r"(1|[a-zA-Z]+_[a-zA-Z]+|%s( %s)*)\Z" % (UNIT, UNIT))


def unit_string(r):
    k = r.random()
    if k < 0.1:
        return r.choice(["1", "none", "degree_north", "degree_C", "mole_fraction", "count"])
    s = " ".join("".join(r.choice("mskgKPaJWhdAZ") for _ in range(r.randint(1, 5))) + r.choice(["", "", "2", "-1", "-2", "3", "-10", "12"])
                 for _ in range(r.randint(1, 4)))
    if k < 0.5:
        return s
    k = r.randrange(12)
    p = r.randrange(len(s) + 1)
    if k < 4:
        s = s[:p] + r.choice(["^", "/", "*", "-", "+", ".", "0", "(", ")", ",", "%", "@", "--", "'", "é", "_", "0m", "-0", "1"]) + s[p:]
    elif k == 4:
        s = s.replace(" ", "  ", 1) if " " in s else s + "-"
    elif k == 5:
        s = r.choice(["", "2", "0", "-1", "10", "1.0", "1 m", "m 1", "1e-3", "-", "m -1", "s- 1", "m s -1", "m/s", "m s^-1", "W/m2", "m**2", "kg kg**-1",
                      "m-01", "m0", "s-0", "m 2", "2 m", "11", "1 1", "_m", "m_", "degree_", "_", "m_2", "%", "m--1", "m-", "(m)", "m s-1.", "1m"])
    elif k == 6:
        s = s + r.choice([" 1", " -1", " 2", "-", "_", ".", "/s"])
    elif k == 7:
        s = r.choice(["-", "2", "1 ", "0"]) + s
    return s


def strings(item):
    """unit strings in metadata: well-formed ones are read as written, others are errors"""
    tag, i, root, n = item
    d = os.path.join(root, "s%d" % i)
    os.makedirs(d)
    try:
        r = core.rng("c24s", tag, i)
        cs = []
        for j in range(n):
            u = unit_string(r)
            if u.count("_") > 1 or not u.strip() and u:
                continue
            f = "f%d.meta" % j
            with open(os.path.join(d, f), "w", encoding="utf-8") as o:
                o.write("[ccpp-table-properties]\n  name = t\n  type = scheme\n[ccpp-arg-table]\n  name = t_run\n  type = scheme\n[ v ]\n"
                        "  standard_name = some_name\n  units = %s\n  dimensions = ()\n  type = real | kind = kind_phys\n  intent = in\n"
                        "[ errmsg ]\n  standard_name = ccpp_error_message\n  units = none\n  dimensions = ()\n  type = character | kind = len=512\n  intent = out\n"
                        "[ errflg ]\n  standard_name = ccpp_error_code\n  units = 1\n  dimensions = ()\n  type = integer\n  intent = out\n" % u)
            cs.append((f, u))
        q = pysrv.run([META, json.dumps([[f, False] for f, _ in cs])], d, 120)
        res = [json.loads(x) for x in q.out.split("\n") if x.strip()]
        if len(res) != len(cs):
            return ("inconclusive", "metadata reader: %d answers for %d files: %s" % (len(res), len(cs), q.err[-300:]), "")
        st = dict(strings_valid=0, strings_invalid=0)
        for (f, u), x in zip(cs, res):
            if VALID.match(u.strip()):
                st["strings_valid"] += 1
                if "tables" not in x:
                    return err("valid-refused", "units '%s' are refused: %s" % (u, x))
                got = [v["units"] for t in x["tables"] for s in t["secs"] for v in s["vars"] if v["local_name"] == "v"]
                if got != [u.strip()]:
                    return err("misread", "units '%s' are read as %s" % (u, got))
            else:
                st["strings_invalid"] += 1
                if "error" not in x:
                    return err("invalid-accepted", "units '%s': %s" % (u, json.dumps(x)[:300]))
                if f not in x["error"] or (u and u.strip() not in x["error"]):
                    return err("invalid-message", "units '%s': the message does not name the file and the units: %s" % (u, x["error"]))
        return ("ok", st, "strings%d" % i)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def world(item):
    """two variables in a tiny world through the real generator"""
    tag, i, root = item
    d = os.path.join(root, "w%d" % i)
    os.makedirs(d)
    try:
        r = core.rng("c24w", tag, i)
        base_files(d)
        k = r.random()
        a, b = r.choice(sorted(PAIR)) if k < 0.35 else (r.choice(ALL), r.choice(ALL))
        if k > 0.85:
            a, b = [r.choice(["none", "NONE", "None"]) for _ in range(2)]
        sub = {"tiny_data.meta": [("units = 1\n  dimensions = ()\n  type = integer", "units = %s\n  dimensions = ()\n  type = real\n  kind = kind_phys" % a)],
               "tiny_scheme.meta": [("units = 1\n  dimensions = ()\n  type = integer\n  intent = in\n",
                                     "units = %s\n  dimensions = ()\n  type = real\n  kind = kind_phys\n  intent = inout\n" % b)],
               "tiny_data.F90": [("integer :: tiny_n = 3", "real(kind_phys) :: tiny_n = 3"), ("implicit none", "use ccpp_kinds, only: kind_phys\n  implicit none")],
               "tiny_scheme.F90": [("integer, intent(in) :: n", "real(kind_phys), intent(inout) :: n"),
                                   ("implicit none", "use ccpp_kinds, only: kind_phys\n  implicit none")]}
        for f, ch in sub.items():
            with open(os.path.join(d, f)) as o:
                t = o.read()
            for x, y in ch:
                if x not in t:
                    raise Inconclusive("base world changed")
                t = t.replace(x, y, 1)
            with open(os.path.join(d, f), "w") as o:
                o.write(t)
        p = pysrv.run(WCMD, d, 120)
        rel = relation(a, b)
        if (p.rc == 0) != (rel is not None):
            return err("capgen:%s" % rel, "host units '%s', scheme units '%s': exit %s %s" % (a, b, p.rc, (p.err or p.out)[-500:]))
        if rel is None and ("'" + a not in p.err + p.out and "'" + b not in p.err + p.out):
            return err("capgen-message", "host units '%s', scheme units '%s': the message names neither: %s" % (a, b, (p.err + p.out)[-500:]))
        return ("ok", dict(worlds_accepted=int(p.rc == 0), worlds_refused=int(p.rc != 0)), "world%d" % i)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    chk = Check("C24", RULE, assumptions=[
        "gfortran's arithmetic is trusted; values are compared within 1e-11 (double) and 3e-6 (single) relative, of 300 K for temperatures",
        "units made of several words joined by underscores are not judged",
        "the physical definitions are those of vf/units.py; conversions it does not know are checked for an inverse and for chains only"])
    root = core.scratch_root()
    q = core.QUICK
    t = "s%d_" % core.SEED
    try:
        run_cases(chk, library, [("", root)], 300)
        run_cases(chk, pairs, [(t, i, root, 60) for i in range(48 if q else 600)], 40 if q else 300)
        run_cases(chk, strings, [(t, i, root, 40) for i in range(24 if q else 300)], 30 if q else 200)
        run_cases(chk, world, [(t, i, root) for i in range(80 if q else 1200)], 40 if q else 300)
    finally:
        core.rmtree(root)
    chk.finish(min_evals=60, require=["functions", "chains", "pairs_judged", "tendencies_judged", "prebuild_judged", "refused", "strings_valid", "strings_invalid",
                                      "worlds_accepted", "worlds_refused"])
