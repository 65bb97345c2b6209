"""The variable tracker lists exactly the users of a variable, in call order."""
import os, re, shutil
from vf import core, preworld, pysrv
from vf.core import Violation, Inconclusive, Check
from vf.preworld import HD, HE
from .c12 import run_cases

RULE = ("a case is one generated set of schemes, metadata files and suites together with requested standard names (used, used "
        "only by schemes outside the suite, parts and extensions of used names, unknown ones); the groups, entry points, "
        "intents and their order, or the offered partial matches, are compared with the generating model; non-trivial: at least "
        "one request with users in the suite")
ASSUME = ["within one call of a scheme its entry points are listed in the order of its metadata file",
          "the order of the offered partial matches is not prescribed"]
TRACK = os.path.join(core.SCRIPTS, "ccpp_track_variables.py")
PROFS = [
    ("a", dict(n_schemes=(3, 7), n_suites=(1, 3), n_groups=(1, 4), n_sub=(1, 3), n_items=(1, 4), p_repeat=0.5, p_loop=0.5)),
    ("b", dict(n_schemes=(2, 5), n_vars=(3, 6), n_args=(2, 5), n_groups=(2, 4), p_special=0.8, p_noargs=0.2, p_loop=0.3)),
    ("c", dict(n_schemes=(5, 9), n_vars=(12, 20), n_args=(3, 8), p_unitdiff=0.0, p_optional=0.3, p_active=0.3, p_repeat=0.6)),
]


def write(w, d, r):
    """metadata files of the schemes may hold several schemes, with tables of other types between them; returns the entry
    points of each scheme in file order: {scheme: [(entry, [(standard name, intent)])]}"""
    files = dict(w.files())
    model = {}
    for s in w.schemes:
        rows = []
        for st in s.order:
            e = s.entries[st]
            if e.empty:
                continue
            uses = [(a.std, a.intent) for a in e.args] + [("ccpp_error_message", "out"), ("ccpp_error_code", "out")]
            if st != "run" and r.random() < 0.2:      # an object of a host type
                h = [h for h in w.homes if h.kind == "ddt" and h.parent is None]
                if h:
                    h = r.choice(h)
                    k = r.choice(["in", "inout"])
                    uses.append((h.std, k))
                    t = files["schemes/%s.meta" % s.name]
                    m = re.search(r"  name = %s_%s\n  type = scheme\n" % (s.name, st), t)
                    files["schemes/%s.meta" % s.name] = t[:m.end()] + "\n".join(
                        ["[zz_ddt]", "  standard_name = " + h.std, "  long_name = planted", "  units = DDT", "  dimensions = ()",
                         "  type = " + h.type, "  intent = " + k, ""]) + t[m.end():]
            rows.append(("%s_%s" % (s.name, st), uses))
        model[s.name] = rows
    names = [s.name for s in w.schemes]
    r.shuffle(names)
    while len(names) > 1 and r.random() < 0.5:
        a, b = names.pop(), names[0]
        extra = ""
        if r.random() < 0.3:
            extra = ("[ccpp-table-properties]\n  name = zz_type_%s\n  type = ddt\n\n[ccpp-arg-table]\n  name = zz_type_%s\n  type = ddt\n"
                     "[zz]\n  standard_name = %s\n  units = K\n  dimensions = ()\n  type = real\n\n" % (a, a, r.choice(w.vars).std))
        # scheme <a> moves into the file of <b>
        x = [files["schemes/%s.meta" % b], files.pop("schemes/%s.meta" % a)]
        r.shuffle(x)
        files["schemes/%s.meta" % b] = ("\n" + "#" * 40 + "\n").join([x[0], extra + x[1]])
    for n, t in files.items():
        if n == "vdriver.F90":
            continue
        p = os.path.join(d, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as f:
            f.write(t)
    return model


def expected(w, suite, model, name):
    res, parts = [], {}
    for g, subs in suite.groups:
        lst = []
        for n, its in subs:
            for _ in range(n):
                for s in its:
                    for entry, uses in model[s]:
                        hit = [i for std, i in uses if std == name]
                        if hit:
                            lst.append((entry, hit[0]))
                        else:
                            p = {std for std, _ in uses if name in std}
                            if p:
                                parts[entry] = p
        if lst:
            res.append((g, lst))
    return res, parts


def parse(out):
    res, parts = [], {}
    for l in out.splitlines():
        m = re.match(r"In group (\S+)$", l)
        if m:
            res.append((m.group(1), []))
            continue
        m = re.match(r"  (\w+) \(intent (\w+)\)$", l)
        if m and res:
            res[-1][1].append((m.group(1), m.group(2)))
            continue
        m = re.match(r"In (\w+) found variable\(s\) \[(.*)\]$", l)
        if m:
            parts[m.group(1)] = set(re.findall(r"'([^']*)'", m.group(2)))
    return res, parts


def requests(w, model, r, n):
    every = sorted({std for rows in model.values() for _, uses in rows for std, _ in uses})
    req = r.sample(every, min(len(every), n))
    for _ in range(n // 2):
        x = r.choice(every)
        k = r.random()
        if k < 0.3:
            ws = x.split("_")
            i = r.randrange(len(ws))
            req.append("_".join(ws[i:i + r.randint(1, 2)]))
        elif k < 0.5:
            req.append(x[:-1] if len(x) > 3 else x + "x")
        elif k < 0.7:
            req.append(x + "_x")
        elif k < 0.85:
            req.append(r.choice([v.std for v in w.vars] + [HD, HE, "ccpp_t_instance"]))
        else:
            req.append("no_such_name")
    return req


def case(item):
    pn, prof, tag, seed, root, nreq = item
    stats = {}
    w = preworld.PWorld(seed, prof, tag + pn)
    r = core.rng("c30", tag, pn, seed)
    d = os.path.join(root, "%s%s%d" % (tag, pn, seed))
    os.makedirs(d)
    try:
        model = write(w, d, r)
        for s in w.suites:
            for name in requests(w, model, r, nreq):
                a = [TRACK, "-s", "suites/" + s.file, "-m", r.choice(["schemes", "schemes/", os.path.join(d, "schemes")]), "-c",
                     r.choice(["ccpp_prebuild_config.py", "./ccpp_prebuild_config.py"]), "-v", name]
                if r.random() < 0.1:
                    a.append("--debug")
                p = pysrv.run(a, d, 120)
                what = "request %s, suite %s" % (name, s.name)
                if p.timeout:
                    raise Violation("hang", "the tracker does not terminate: " + what)
                if "Traceback" in p.text() or (p.rc and expected(w, s, model, name)[0]):
                    raise Violation("fails", "the tracker ends with status %d: %s\n%s" % (p.rc, what, p.text()[-600:]))
                want, parts = expected(w, s, model, name)
                got, gparts = parse(p.out)
                if want != got:
                    raise Violation("users", "%s: reported %s, the suite has %s" % (what, got, want))
                if want:
                    stats["found"] = stats.get("found", 0) + 1
                    stats["entries"] = stats.get("entries", 0) + sum(len(x) for _, x in want)
                    for _, x in want:
                        for _, i in x:
                            stats["intent_" + i] = stats.get("intent_" + i, 0) + 1
                    if s.file not in p.out or name not in p.out:
                        raise Violation("heading", "the report names neither the suite nor the variable: " + what)
                    if gparts:
                        raise Violation("parts", "partial matches %s offered although there are users: %s" % (gparts, what))
                else:
                    stats["not_found"] = stats.get("not_found", 0) + 1
                    if "not found" not in p.text() or name not in p.text():
                        raise Violation("unsaid", "no message that the variable is not found: %s\n%s" % (what, p.text()[-300:]))
                    if parts != gparts:
                        raise Violation("parts", "%s: offered partial matches %s, in use are %s" % (what, gparts, parts))
                    if parts:
                        stats["partial"] = stats.get("partial", 0) + 1
        return ("ok", stats, "%s%s%d" % (tag, pn, seed) if stats.get("found") else None)
    except Violation as v:
        return ("violation", v.key, v.msg)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    chk = Check("C30", RULE, assumptions=ASSUME)
    root = core.scratch_root()
    q = core.QUICK
    try:
        run_cases(chk, case, [(PROFS[i % 3][0], PROFS[i % 3][1], "c30_s%d_" % core.SEED, i, root, 4 if q else 12)
                              for i in range(80 if q else 3000)], 28 if q else 700)
    finally:
        core.rmtree(root)
    chk.finish(min_evals=30, require=["found", "not_found", "partial", "entries", "intent_in", "intent_out", "intent_inout"])
