"""The reports of ccpp_datafile.py against a model of the inputs."""
import json, os, re
import xml.etree.ElementTree as ET
from vf import core
from vf.core import Violation
from vf.caprun import DATAFILE, last_error
from vf.fbuild import FRAMEWORK
from vf.capworld import World
from .capworlds import go
from .c14 import loopvars, leaks


def use(w, suite):
    """(read, written, protected ones among them, optional extras) of a suite"""
    reads, writes, prot, extra = set(), set(), set(), set()
    for g, items in suite.groups:
        extra.update(loopvars(items))
    for ph in {ph for s in w.schemes for ph in s.entries}:
        for n in set(w.phase_trace(suite, ph)):
            for a in w.scheme[n].entries[ph].args:
                if a.special == "default":
                    extra.update(a.alldims)
                    continue
                if a.special == "dim":
                    if a.std.startswith("horizontal_loop"):
                        extra.add(a.std)
                    else:
                        reads.add(a.std)
                        if w.dims[a.std].parameter:
                            prot.add(a.std)
                    continue
                if a.special == "cond":
                    reads.add(a.std)
                    continue
                v = a.src
                extra.update(v.dims)
                if getattr(v, "inter", False):
                    continue
                extra.update(x for x in (getattr(v, "lower", None) or []) if x)
                if v.elem_of is not None:
                    extra.update([v.elem_of.std, v.idx.std])
                if getattr(v, "cond", None) is not None:
                    extra.update(c.std for c in World.cond_vars(v.cond))
                if a.intent in ("in", "inout"):
                    reads.add(a.std)
                if a.intent in ("out", "inout"):
                    writes.add(a.std)
                if getattr(v, "protected", False):
                    prot.add(a.std)
    extra.update(["horizontal_loop_begin", "horizontal_loop_end", "horizontal_loop_extent", "suite_name", "suite_part"])
    return reads, writes, prot, extra


def post(w, d, ev, m, stats):
    table = os.path.join("out", "datatable.xml")
    sep = w.r.choice([";", ",", "|", " : "])

    # all reports by the Python interface, some also by the command line
    req = [(o, "") for o in ("ccpp-files", "suite-files", "host-files", "utility-files", "suite-list", "dependencies",
                             "module-list", "process-list", "host-variables")]
    req += [(o + "-variables", s.name) for s in w.suites for o in ("required", "input", "output")]
    req.append(("required-variables", "nosuchsuite"))
    req = [(o, v, ex) for o, v in req for ex in ((False, True) if o.endswith("variables") else (False,))]
    script = os.path.join(d, "reports.py")
    with open(script, "w") as f:
        f.write("import json, sys\nsys.path.insert(0, %r)\nfrom ccpp_datafile import datatable_report, DatatableReport\n"
                "for o, v, ex in json.loads(sys.argv[1]):\n"
                "    print(json.dumps([o, v, ex, datatable_report(%r, DatatableReport(o.replace('-', '_'), v or True), %r, ex)]))\n"
                % (core.SCRIPTS, table, sep))
    p = core.run_py([script, json.dumps(req)], d)
    if p.rc:
        raise Violation("report-failed", "a report failed: %s" % last_error(p))
    have = {}
    for line in p.out.splitlines():
        o, v, ex, r = json.loads(line)
        have[("--" + o, v, ex)] = [x for x in r.split(sep) if x]
        stats["reports"] = stats.get("reports", 0) + 1
    cli = set(w.r.sample(sorted(have), 2))

    def report(*a):
        k = (a[0], a[1] if len(a) > 1 and a[1][0] != "-" else "", "--exclude-protected" in a)
        if k in cli:
            p = core.run_py([DATAFILE, table] + list(a) + ["--separator", sep], d)
            if p.rc:
                raise Violation("report-failed:" + a[0], "report %s failed: %s" % (a, last_error(p)))
            got = [x for x in p.out.strip("\n").split(sep) if x]
            if got != have[k]:
                raise Violation("report-interfaces", "report %s: command line gives %s, datatable_report %s" % (
                    a, got, have[k]))
            stats["cli_reports"] = stats.get("cli_reports", 0) + 1
        return have[k]

    def same(rep, got, exp, dup=True):
        if dup and len(set(got)) != len(got):
            raise Violation("duplicate:" + rep, "report %s repeats entries: %s" % (rep, got))
        if set(got) != set(exp):
            raise Violation("report:" + rep, "report %s: not listed %s, wrongly listed %s" % (
                rep, sorted(set(exp) - set(got)), sorted(set(got) - set(exp))))

    ab = lambda x: os.path.realpath(os.path.join(d, x))
    gen = {os.path.realpath(os.path.join(r, f)) for r, _, fs in os.walk(os.path.join(d, "out")) for f in fs}
    gen = {f for f in gen if f.endswith((".F90", ".f90", ".inc"))}
    src = {os.path.realpath(os.path.join(core.REPO, "src", f)) for f in FRAMEWORK}
    allf = [ab(x) for x in report("--ccpp-files")]
    suites = [ab(x) for x in report("--suite-files")]
    hosts = [ab(x) for x in report("--host-files")]
    utils = [ab(x) for x in report("--utility-files")]
    for x in allf:
        if not os.path.isfile(x):
            raise Violation("no-such-file", "reported file %s does not exist" % x)
    same("--ccpp-files", [x for x in allf if x in gen or x.startswith(os.path.realpath(d))], gen)
    if set(allf) != set(suites) | set(hosts) | set(utils) or len(allf) != len(suites) + len(hosts) + len(utils):
        raise Violation("file-groups", "all files %s are not the union of suite %s, host %s and utility files %s" % (
            allf, suites, hosts, utils))
    same("--suite-files", [os.path.basename(x) for x in suites], ["ccpp_%s_cap.F90" % s.name for s in w.suites])
    same("--host-files", [os.path.basename(x) for x in hosts], ["%s_ccpp_cap.F90" % w.host])
    miss = ({os.path.join(os.path.realpath(os.path.join(d, "out")), "ccpp_kinds.F90")} | src) - set(utils)
    if miss:
        raise Violation("report:--utility-files", "utility files do not list %s" % sorted(miss))
    same("--suite-list", report("--suite-list"), [s.name for s in w.suites])
    same("--dependencies", [os.path.normpath(x) for x in report("--dependencies")],
         w.dependencies(os.path.realpath(d)) if os.path.isabs(d) else set())
    mods, proc = set(), set()
    for s in w.suites:
        for n in w.suite_schemes(s):
            ents = [ph for ph in w.scheme[n].entries if n in w.phase_trace(s, ph)]
            if ents:
                mods.add(w.module_of(w.scheme[n]))
                if w.process[n]:
                    proc.add("%s=%s" % (w.process[n], n))
    same("--module-list", report("--module-list"), mods)
    # a scheme used in several groups may be listed more than once
    same("--process-list", report("--process-list"), proc, dup=False)
    err = {"ccpp_error_message", "ccpp_error_code"}
    inter = set()
    for s in w.suites:
        reads, writes, prot, extra = use(w, s)
        names = w.scheme and any(w.scheme[n].entries for n in w.suite_schemes(s))
        e = err if names else set()
        for opt, must in (("--required-variables", reads | writes | e), ("--input-variables", reads),
                          ("--output-variables", writes | e)):
            can = must | err | (set() if opt.startswith("--output") else extra)
            for ex in (False, True):
                a = [opt, s.name] + (["--exclude-protected"] if ex else [])
                got = report(*a)
                key = opt + ("+excl" if ex else "")
                if len(set(got)) != len(got):
                    raise Violation("duplicate:" + key, "report %s repeats entries: %s" % (a, got))
                got, mu = set(got), (must - prot if ex else must)
                if mu - got:
                    raise Violation("missing:" + key, "report %s does not list %s" % (a, sorted(mu - got)))
                more = got - (can - prot if ex else can)
                lr, lw = leaks(w, s)
                leaked = more & ((set() if opt.startswith("--out") else lr) | (set() if opt.startswith("--inp") else lw))
                more -= leaked
                if leaked:
                    stats["known:intent-leak"] = stats.get("known:intent-leak", 0) + len(leaked)
                    if "intent-leak" not in core.load_findings().get("C13", {}):
                        raise Violation("intent-leak", "report %s lists %s with the intent of another suite" % (
                            a, sorted(leaked)))
                if more:
                    raise Violation("extra:" + key, "report %s wrongly lists %s" % (a, sorted(more)))
                stats["names"] = stats.get("names", 0) + len(got)
        got = report("--required-variables", "nosuchsuite")
        if got:
            raise Violation("unknown-suite", "variables %s listed for a suite that does not exist" % got)
    # host variables
    must = {v.std for v in w.hvars} | {i.std for i in w.insts} | {x.std for x in w.conds + w.elems + w.loopvars}
    # components of derived types may be listed besides the variables holding them
    top = {v.std for v in w.hvars if v.inst is None} | {x.std for x in w.conds + w.elems + w.loopvars} | set(w.dims)
    must |= set(w.dims) | err | {"horizontal_loop_begin", "horizontal_loop_end"}
    prot = {v.std for v in w.hvars if v.protected} | {k for k, v in w.dims.items() if v.parameter}
    prot |= {"horizontal_loop_begin", "horizontal_loop_end"}
    for ex in (False, True):
        got = report(*(["--host-variables"] + (["--exclude-protected"] if ex else [])))
        key = "--host-variables" + ("+excl" if ex else "")
        got, mu = set(got), top - prot if ex else top
        more = {x for x in got if not x.startswith("ccpp_")} - (must - prot if ex else must)
        if mu - got or more:
            raise Violation("report:" + key, "report %s: not listed %s, wrongly listed %s" % (
                key, sorted(mu - got), sorted(more)))
    root = ET.parse(os.path.join(d, table)).getroot()
    contents(w, root, stats)
    hostvars(w, root, stats)
    # pretty printing
    wrap, ind = w.r.choice([(-1, 2), (0, 1), (w.r.randint(20, 60), 2), (w.r.randint(60, 140), w.r.choice([0, 1, 3, 4]))])
    p = core.run_py([DATAFILE, table, "--show"] + (["--line-wrap", str(wrap), "--indent", str(ind)]
                                                   if (wrap, ind) != (-1, 2) else []), d)
    if p.rc:
        raise Violation("report-failed:--show", "show failed: " + last_error(p))
    got, exp = p.out.split(), " ".join(serial(root)).split()
    if got != exp:
        k = next((i for i, (x, y) in enumerate(zip(got, exp)) if x != y), min(len(got), len(exp)))
        raise Violation("show", "pretty printed datatable differs from its contents at word %d: printed %s, contents %s" % (
            k, got[max(0, k - 3):k + 5], exp[max(0, k - 3):k + 5]))
    for line in p.out.splitlines():
        if 0 < wrap < len(line) and " " in re.sub(r"'[^']*'|\"[^\"]*\"", "", line.strip()):
            raise Violation("show-wrap", "line of %d characters with --line-wrap %d: %s" % (len(line), wrap, line))
        if 0 < wrap < len(line):
            stats["show_unwrappable"] = stats.get("show_unwrappable", 0) + 1
    if wrap <= 0:
        depth = []
        for line in p.out.splitlines():
            t = line.strip()
            if t.startswith("</"):
                depth.pop()
            if t.startswith("<") and len(line) - len(t) != ind * len(depth):
                raise Violation("show-indent", "--indent %d: %r at depth %d" % (ind, line, len(depth)))
            if t.startswith("<") and not t.startswith("</") and not t.endswith("/>"):
                depth.append(t)
    stats["shown"] = stats.get("shown", 0) + len(exp)


def serial(e):
    """words of the pretty printed form of an element"""
    t = "<%s%s" % (e.tag, "".join(" %s=%s" % kv for kv in e.attrib.items()))
    text = (e.text or "").strip()
    if not len(e) and not e.text:
        return [t + " />"]
    out = [t + ">"]
    for c in e:
        out += serial(c)
    return out + ([text] if text else []) + ["</%s>" % e.tag]


def hostvars(w, root, stats):
    """the variables of host modules, as written in the metadata"""
    hd = [x for x in root.find("var_dictionaries") if x.get("type") == "host"][0]
    have = {v.get("name"): v for v in hd.find("variables")}
    files = w.host_files()
    for m in w.host_meta():
        tab, typ, cur, vs = None, None, None, []
        for line in files[m].splitlines():
            line = line.split("#")[0].strip()
            if line.startswith("["):
                n = line.strip("[] ")
                cur = None if n.startswith("ccpp-") else dict(local_name=n, tab=tab, ttyp=typ)
                if cur:
                    vs.append(cur)
            for x in line.split("|") if "=" in line else []:
                k, v = [y.strip() for y in x.split("=", 1)]
                if cur is not None:
                    cur[k] = v
                elif k == "name":
                    tab = v
                elif k == "type":
                    typ = v
        for v in vs:
            if v["ttyp"] == "ddt" or v["type"] in ("ddt",):
                continue
            e = have.get(v["standard_name"].lower())
            if e is None or v.get("intent"):
                continue                          # judged by the report of host variables
            dims = [d.strip().lower() for d in v["dimensions"].strip("()").split(",") if d.strip()]
            dims = [d if ":" in d else "1:" + d for d in dims]
            got = [d.replace("ccpp_constant_one", "1") for d in (e.findtext("dimensions") or "").split()]
            if v["type"].lower() not in ("real", "integer", "logical", "character", "complex"):
                v["kind"] = v["type"] = v["type"].lower()          # a derived type is recorded as its kind
            elif v["type"].lower() == "real":
                v.setdefault("kind", "kind_phys")
            for k, x, y in (("local_name", e.get("local_name").lower().replace(" ", ""), v["local_name"].lower().replace(" ", "")),
                            ("units", e.get("units"), v["units"]), ("type", e.get("type"), v["type"].lower()),
                            ("kind", e.get("kind"), v.get("kind")), ("dimensions", got, dims),
                            ("protected", e.get("protected", "False"),
                             "True" if v.get("protected", "").strip(".").lower() in ("t", "true") else "False"),
                            ("source", e.findtext("source_name"), v["tab"].lower())):
                if x != y and (x or y):
                    raise Violation("host-property:" + k, "host variable %s is recorded with %s %s, it is %s" % (
                        v["standard_name"], k, x, y))
            stats["host_props"] = stats.get("host_props", 0) + 1


def contents(w, root, stats):
    """the suites and scheme call lists held in the table"""
    calls = {}
    for sch in root.find("schemes"):
        for ph in sch:
            cl = [(v.get("name"), v.get("intent"), v.get("local_name").lower()) for v in ph.find("call_list")]
            calls.setdefault((sch.get("name"), ph.tag), []).append((ph.get("subroutine_name"), ph.get("module"), cl))
    loopname = lambda l: str(l) if isinstance(l, int) else l.local.lower()

    def expand(e):
        out = []
        for x in e:
            if x.tag == "scheme":
                out.append(x.get("name"))
            elif x.tag == "subcycle":
                out.append((x.get("loop").lower(), expand(x)))
            else:
                out += expand(x)
        return out

    def model(items):
        out = []
        for it in items:
            if it[0] == "scheme":
                out.append(it[1])
            else:
                out.append((loopname(it[1]), model(it[2])))
        return out

    def prune(t):
        return [x for x in ((y if isinstance(y, str) else (y[0], prune(y[1]))) for y in t) if isinstance(x, str) or x[1]]
    FULL = {"register": "register", "init": "initialize", "timestep_init": "timestep_initial",
            "timestep_final": "timestep_final", "final": "finalize"}
    got = {s.get("name"): s for s in root.find("api").find("suites")}
    for s in w.suites:
        e = got[s.name]
        if os.path.basename(e.get("filename")) != "suite_%s.xml" % s.name:
            raise Violation("suite-file", "suite %s is recorded with the definition file %s" % (s.name, e.get("filename")))
        groups = [g for g in e if g.tag == "group"]
        runs = [(g.get("name"), prune(expand(g))) for g in groups if g.get("phase") == "run"]
        exp = [("%s_%s" % (s.name, g), prune(model(items))) for g, items in s.groups]
        runs, exp = [x for x in runs if x[1]], [x for x in exp if x[1]]
        if runs != exp:
            raise Violation("suite-contents", "suite %s is recorded as %s, defined as %s" % (s.name, runs, exp))
        for ph, full in FULL.items():
            l = [x for g in groups if g.get("phase") == full for x in expand(g)]
            e1 = w.phase_trace(s, ph)
            if sorted(l) != sorted(e1):
                raise Violation("suite-phase", "suite %s phase %s is recorded with %s, has %s" % (s.name, full, l, e1))
        users = [("run", "%s_%s" % (s.name, g), n) for g, items in s.groups for n in World.static_schemes(items)]
        users += [(ph, FULL[ph], n) for ph in FULL for n in w.phase_trace(s, ph)]
        for ph, tag, n in users:
            ent = w.scheme[n].entries.get(ph)
            if ent is None:
                continue
            if not calls.get((n, tag)):
                raise Violation("scheme-missing", "no call of scheme %s in %s is recorded" % (n, tag))
            want = sorted((a.std, a.intent, a.local.lower()) for a in ent.args)
            err = [("ccpp_error_message", "out", "errmsg"), ("ccpp_error_code", "out", "errflg")]
            for sub, mod, cl in calls[(n, tag)]:
                if (sub or "").lower() != ("%s_%s" % (n, ent.suffix)).lower() or (mod or "").lower() != w.module_of(w.scheme[n]).lower():
                    raise Violation("scheme-name", "call of %s in %s is recorded as subroutine %s of %s" % (n, tag, sub, mod))
                have = sorted(x for x in cl if not x[0].startswith("ccpp_error_"))
                if have != want:
                    raise Violation("call-list", "scheme %s in %s: the recorded arguments %s are not the arguments %s" % (
                        n, tag, [x for x in have if x not in want], [x for x in want if x not in have]))
                stats["call_args"] = stats.get("call_args", 0) + len(cl)


def main():
    base = dict(n_vars=(5, 10), n_suites=(1, 3), p_debug=0.1, steps=(1, 1), p_reinit=0.0, p_elem=0.3, p_deps=0.6)
    go("C13", [("c13a", dict(base)), ("c13b", dict(base, p_active=0.3, p_unitdiff=0.2, p_inter=0.9)),
               ("c13c", dict(base, n_schemes=(4, 7), p_suitetag=0.3, p_subcycle=0.2, p_two_in_file=0.5))],
       60, 700, "the executable built from the reported files ran and all reports were obtained",
       lambda s: s.get("reports", 0) > 0, ["reports", "names", "shown"], 24, post="checks.c13:post")
