"""Determinism of the code generators."""
import os, shutil
from vf import core, capworld, caprun, gentree
from vf.core import Violation, Inconclusive, Check
from vf.worldcheck import run_worlds
from .capworlds import ASSUME

RULE = ("a case is one set of inputs: the generator runs on it several times with other hash seeds, directory "
        "enumeration orders (os.listdir/os.scandir permuted by a hook), environments, verbosity, locations of inputs and "
        "output, and the generated trees are compared byte by byte; or one world built and executed with a permuted "
        "order of the host files, judged by the reference model; non-trivial when all variants ran")
HOOK = os.path.join(core.VERIF, "pyhooks", "shuffle")


def variants(r, n):
    vs = []
    for i in range(n):
        e = {"VF_SHUFFLE": str(r.randint(1, 10 ** 6)), "TZ": r.choice(["UTC", "Asia/Tokyo"]),
             "LC_ALL": r.choice(["C", "C.UTF-8", "POSIX"]), "COLUMNS": r.choice(["20", "200"]),
             "USER": r.choice(["a", "b"]), "HOME": "/nonexistent"}
        vs.append((str(r.randint(1, 4 * 10 ** 9)), e, r.choice([None, "moved", "moved", "abs"]), r.random() < 0.3))
    return vs


def run_variant(args, cwd, hs, env, hook=True):
    e = core.tool_env(hs, env)
    if hook:
        e["PYTHONPATH"] = HOOK + ":" + e["PYTHONPATH"]
    return core.run([core.PYTHON] + args, cwd, 120, e)


def capgen_case(item):
    prof, tag, seed, root, nvar = item
    d = os.path.join(root, "g%s%d" % (tag, seed))
    try:
        w = capworld.World(seed, prof, tag)
        r = core.rng("c12", tag, seed)
        w.write(d)
        p = caprun.capgen(w, d)
        if p.rc:
            raise Inconclusive("capgen rejected the world (C01): " + caprun.last_error(p))
        base = gentree.tree(os.path.join(d, "out"))
        n = 0
        for hs, env, loc, verb in variants(r, nvar):
            d2 = d if loc != "moved" else os.path.join(root, "another_place", "of_%s%d_%d" % (tag, seed, n))
            if loc == "moved":
                w.write(d2)
            out = "out%d" % n if loc != "abs" else os.path.join(d2, "deep", "er", "o%d" % n)
            args = [caprun.CAPGEN] + w.capgen_args(out)
            if verb:
                args += ["--verbose"] * r.randint(1, 2)
            p = run_variant(args, d2, hs, env)
            if p.rc:
                raise Violation("capgen-fails", "capgen succeeds with hash seed 0 and fails with hash seed %s, "
                                "environment %s: %s" % (hs, env, caprun.last_error(p)))
            t = gentree.tree(os.path.join(d2, out))
            a, b = dict(base), dict(t)
            if set(a) != set(b):
                raise Violation("capgen-files", "different sets of files: %s / %s" % (sorted(a), sorted(b)))
            # the datatable holds absolute paths of the inputs and outputs
            for x, dd, oo in ((a, d, "out"), (b, d2, out)):
                k = "datatable.xml"
                x[k] = x[k].replace(os.path.realpath(os.path.join(dd, oo)).encode(), b"@OUT@")
                x[k] = x[k].replace(os.path.realpath(dd).encode(), b"@IN@").replace(
                    os.path.realpath(os.path.dirname(dd)).encode(), b"@UP@")
                if loc == "moved":          # paths may sort differently elsewhere
                    ls = x[k].split(b"\n")
                    x[k] = b"\n".join([y for y in ls if b"<dependency>" not in y] + sorted(
                        y for y in ls if b"<dependency>" in y))
            names, txt = gentree.diff(a, b)
            if names:
                what = {os.path.splitext(x)[1] for x in names}
                raise Violation("capgen-differs:" + ("caps" if ".F90" in what else "datatable"),
                                "generated %s differ between hash seed 0 and hash seed %s, environment %s: %s" % (
                                    names, hs, env, txt))
            n += 1
            if d2 != d:
                shutil.rmtree(d2, ignore_errors=True)
        return ("ok", dict(capgen_worlds=1, capgen_variants=n, files_compared=n * len(base)), "g%s%d" % (tag, seed))
    except Violation as v:
        return ("violation", v.key, v.msg)
    except Inconclusive as v:
        return ("inconclusive", str(v), "")
    finally:
        shutil.rmtree(d, ignore_errors=True)


def listed_case(item):
    """inputs given as directories and wildcards"""
    prof, tag, seed, root, nvar = item
    d = os.path.join(root, "l%s%d" % (tag, seed))
    try:
        w = capworld.World(seed, prof, tag)
        r = core.rng("c12l", tag, seed)
        for fn, t in w.files().items():
            stem = os.path.splitext(fn)[0]
            sub = "sdf" if fn.endswith(".xml") else "host" if stem + ".meta" in w.host_meta() + ["hddt.meta"] else "phys"
            os.makedirs(os.path.join(d, sub), exist_ok=True)
            with open(os.path.join(d, sub, fn), "w") as f:
                f.write(t)
        args = w.capgen_args("OUT")
        form = {k: r.choice(v) for k, v in (("--host-files", ["host", "host/*.meta"]), ("--scheme-files", ["phys", "phys/*.meta", "phys/s*.meta,phys"]),
                                            ("--suites", ["sdf", "sdf/*.xml"]))}
        if r.random() < 0.4:
            form["--scheme-files"] = "phys/list*.txt"
            names = w.files()["schemes.txt"].split()
            n = r.randint(2, 4)
            for k in range(n):
                with open(os.path.join(d, "phys", "list_%s.txt" % "abcd"[k]), "w") as f:
                    f.write("".join(x + "\n" for x in names[k * len(names) // n:(k + 1) * len(names) // n]))
        for k, v in form.items():
            args[args.index(k) + 1] = v
        base = None
        for n in range(nvar + 1):
            out = "o%d" % n
            a = [caprun.CAPGEN] + [out if x == "OUT" else x for x in args]
            p = run_variant(a, d, "0", {"VF_SHUFFLE": str(r.randint(1, 10 ** 6))} if n else {}, True)
            if n == 0 and p.rc:
                raise Inconclusive("capgen rejected the world: " + caprun.last_error(p))
            if p.rc:
                raise Violation("listing-fails", "capgen (%s) fails with another order of the directory entries: %s" % (
                    form, caprun.last_error(p)))
            t = gentree.tree(os.path.join(d, out))
            t = {k: v.replace(os.path.realpath(os.path.join(d, out)).encode(), b"@OUT@") for k, v in t.items()}
            if base is None:
                base = t
                continue
            if set(t) != set(base):
                raise Violation("listing-files", "different sets of files: %s / %s" % (sorted(base), sorted(t)))
            names, txt = gentree.diff(base, t)
            if names:
                what = {os.path.splitext(x)[1] for x in names}
                raise Violation("listing-differs:" + ("caps" if ".F90" in what else "datatable"),
                                "generated %s depend on the order of the directory entries (%s): %s" % (names, form, txt))
        return ("ok", dict(listed_worlds=1, listed_variants=nvar), "l%s%d" % (tag, seed))
    except Violation as v:
        return ("violation", v.key, v.msg)
    except Inconclusive as v:
        return ("inconclusive", str(v), "")
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run_cases(chk, fn, items, budget):
    for st, it, r in core.pmap(fn, items, budget):
        if st == "error":
            chk.inconclusive.append(r)
        elif r[0] == "ok":
            for k, v in r[1].items():
                chk.count(k, v)
            chk.case(r[2])
            chk.sample(dict(case=[x for x in it if isinstance(x, (int, str)) and not str(x).startswith("/")], observed=r[1]), 2)
        elif r[0] == "finding":          # a listed finding met on the way
            for k, v in r[3].items():
                chk.count(k, v)
            chk.case(r[4])
            chk.violation(r[1], r[2], dict(case=[x for x in it if not isinstance(x, str) or not x.startswith("/")]))
        elif r[0] == "violation":
            chk.case(None)
            chk.violation(r[1], r[2], dict(case=[x for x in it if not isinstance(x, str) or not x.startswith("/")]))
        else:
            chk.inconclusive.append(r[1])


def main():
    chk = Check("C12", RULE, assumptions=ASSUME)
    rich = dict(n_vars=(6, 14), n_suites=(1, 3), p_active=0.3, p_unitdiff=0.2, p_inter=0.9, p_subcycle=0.2, p_suitetag=0.2,
                p_kinddiff=0.2, p_flip=0.2, n_schemes=(3, 8), p_ddt=0.8, p_nested=0.5, p_elem=0.4, p_deps=0.7, p_debug=0.3,
                p_inter_diff=0.3)
    root = core.scratch_root()
    q = core.QUICK
    try:
        run_cases(chk, capgen_case, [(dict(rich, p_box=0.6), "c12_s%d_" % core.SEED, i, root, 3 if q else 6) for i in range(40 if q else 500)],
                  40 if q else 400)
        run_cases(chk, listed_case, [(rich, "c12l_s%d_" % core.SEED, i, root, 2 if q else 4) for i in range(24 if q else 300)],
                  20 if q else 200)
    finally:
        core.rmtree(root)
    run_worlds(chk, [("c12h", dict(rich, p_hostorder=1.0, steps=(1, 1)))], 24, 200,
               lambda s: s.get("args_checked", 0) > 0, (30, 200))
    chk.finish(min_evals=30, require=["capgen_worlds", "capgen_variants", "files_compared", "args_checked", "listed_variants"])
