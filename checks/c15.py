"""Differences between Fortran interfaces and metadata are detected; agreement is accepted."""
import os, hashlib, re, shutil
from vf import core, ftngen, pysrv, caprun
from vf.core import Check, Violation, Inconclusive
from .c12 import run_cases
from .c09 import INTERNAL
from .c21 import source

RULE = ("a case is one generated Fortran module (random source styles) with metadata which agrees with it or differs from it "
        "in exactly one planted way (argument or table missing or added, order, name, type, kind, rank, intent, optional); "
        "the real offline checker, and capgen with the file as scheme or host file, must accept or reject it; non-trivial: a "
        "planted difference in a table with at least two variables")
OFF = os.path.join(core.SCRIPTS, "fortran_tools", "offline_check_fortran_vs_metadata.py")

HOST = ("""module tiny_data
  implicit none
  !> \\section arg_table_tiny_data
  !! \\htmlinclude tiny_data.html
  integer :: tiny_n = 3
contains
end module tiny_data
""", """[ccpp-table-properties]
  name = tiny_data
  type = module
[ccpp-arg-table]
  name = tiny_data
  type = module
[ tiny_n ]
  standard_name = tiny_count
  units = 1
  dimensions = ()
  type = integer
""", """module tiny_host
  implicit none
contains
  !> \\section arg_table_tiny_host
  !! \\htmlinclude tiny_host.html
  subroutine tiny_host(errmsg, errflg)
    character(len=512), intent(out) :: errmsg
    integer, intent(out) :: errflg
    errmsg = ''
    errflg = 0
  end subroutine tiny_host
end module tiny_host
""", """[ccpp-table-properties]
  name = tiny_host
  type = host
[ccpp-arg-table]
  name = tiny_host
  type = host
[ errmsg ]
  standard_name = ccpp_error_message
  units = none
  dimensions = ()
  type = character
  kind = len=512
[ errflg ]
  standard_name = ccpp_error_code
  units = 1
  dimensions = ()
  type = integer
""")
SCHEME = ("""module tiny_scheme
  implicit none
contains
  !> \\section arg_table_tiny_scheme_run
  !! \\htmlinclude tiny_scheme_run.html
  subroutine tiny_scheme_run(n, errmsg, errflg)
    integer, intent(in) :: n
    character(len=512), intent(out) :: errmsg
    integer, intent(out) :: errflg
    errmsg = ''
    errflg = 0
  end subroutine tiny_scheme_run
end module tiny_scheme
""", """[ccpp-table-properties]
  name = tiny_scheme
  type = scheme
[ccpp-arg-table]
  name = tiny_scheme_run
  type = scheme
[ n ]
  standard_name = tiny_count
  units = 1
  dimensions = ()
  type = integer
  intent = in
[ errmsg ]
  standard_name = ccpp_error_message
  units = none
  dimensions = ()
  type = character
  kind = len=512
  intent = out
[ errflg ]
  standard_name = ccpp_error_code
  units = 1
  dimensions = ()
  type = integer
  intent = out
""")
SUITE = """<?xml version="1.0" encoding="UTF-8"?>
<suite name="tiny" version="1.0">
  <group name="phys"><scheme>tiny_scheme</scheme></group>
</suite>
"""


def base_files(d):
    for n, t in (("tiny_data.F90", HOST[0]), ("tiny_data.meta", HOST[1]), ("tiny_host.F90", HOST[2]), ("tiny_host.meta", HOST[3]),
                 ("tiny_scheme.F90", SCHEME[0]), ("tiny_scheme.meta", SCHEME[1]), ("suite_tiny.xml", SUITE)):
        with open(os.path.join(d, n), "w") as f:
            f.write(t)


# --------------------------------------------------------------- differences
def m_drop(r, tabs, s):
    """metadata lacks an argument"""
    c = [(t, v) for t in tabs if t[1] == "scheme" for v in t[2] if not v.optional]
    t, v = r.choice(c)
    t[2].remove(v)
    return "%s of %s missing in the metadata" % (v.name, t[0])


def m_extra(r, tabs, s):
    c = [t for t in tabs if t[2] and t[1] != "host"]
    t = r.choice(c)
    v = r.choice(t[2]).clone()
    v.name, v.std = "not_in_fortran", "std_not_in_fortran"
    t[2].insert(r.randrange(len(t[2]) + 1), v)
    return "additional metadata variable in %s" % t[0]


def m_order(r, tabs, s):
    c = [t for t in tabs if t[1] == "scheme" and len(t[2]) > 1]
    t = r.choice(c)
    i, j = r.sample(range(len(t[2])), 2)
    t[2][i], t[2][j] = t[2][j], t[2][i]
    return "%s and %s exchanged in %s" % (t[2][i].name, t[2][j].name, t[0])


def m_rotate(r, tabs, s):
    c = [t for t in tabs if t[1] == "scheme" and len(t[2]) > 2]
    t = r.choice(c)
    t[2].append(t[2].pop(0))
    return "arguments of %s rotated" % t[0]


def pick(r, tabs, ok=lambda t, v: True):
    c = [(t, v) for t in tabs if t[1] != "host" for v in t[2] if ok(t, v)]
    return r.choice(c)


def m_name(r, tabs, s):
    t, v = pick(r, tabs)
    old = v.name
    v.name = r.choice([old + "x", "z" + old, old[:-1] + "_" + old[-1:]])
    return "%s of %s renamed to %s" % (old, t[0], v.name)


def m_type(r, tabs, s):
    t, v = pick(r, tabs)
    old = v.type
    new = r.choice([x for x in ("real", "integer", "logical", "complex", "character") if x != old and not (
        x == "real" and old == "double precision")])
    v.type = new
    v.kind = v.shown = None
    if new == "character":
        v.kind = "len=16"
    elif new in ("real", "complex"):
        v.kind = "kind_phys"
    if old == "character" and new == "character":
        return None
    return "%s of %s declared %s in the metadata, %s in the source" % (v.name, t[0], new, old)


def m_ddt(r, tabs, s):
    t, v = pick(r, tabs, lambda t, v: v.type == "ddt" and any(n != v.ddt and n != t[0] for n, _ in s.ddts))
    v.ddt = r.choice([n for n, _ in s.ddts if n != v.ddt and n != t[0]])
    return "%s of %s has another type in the metadata" % (v.name, t[0])


def m_kind(r, tabs, s):
    t, v = pick(r, tabs, lambda t, v: v.type in ("real", "integer", "logical", "character") and not getattr(v, "shown", None))
    old = v.kind
    if v.type == "character":
        new = r.choice([k for k in ("len=*", "len=16", "len=17", "len=clen") if k != old])
    elif v.type == "real":
        new = "kind_sp" if old in (None, "kind_phys") else r.choice(["kind_phys", "kind_q", None])
    else:
        new = r.choice([k for k in (None, "ik", "lk", "other_kind") if k != old])
    v.kind = new
    return "%s of %s has kind %s in the metadata, %s in the source" % (v.name, t[0], new, old)


def m_rank(r, tabs, s):
    t, v = pick(r, tabs)
    if v.dims and r.random() < 0.6:
        v.dims.pop()
    elif len(v.dims) < 7:
        v.dims.append(":")
    else:
        v.dims.pop()
    return "%s of %s has rank %d in the metadata" % (v.name, t[0], len(v.dims))


def m_intent(r, tabs, s):
    t, v = pick(r, tabs, lambda t, v: t[1] == "scheme" and v.std not in ("ccpp_error_message", "ccpp_error_code"))
    old = v.intent
    v.intent = r.choice([x for x in ("in", "out", "inout") if x != old])
    return "%s of %s has intent %s in the metadata, %s in the source" % (v.name, t[0], v.intent, old)


def m_optional(r, tabs, s):
    t, v = pick(r, tabs, lambda t, v: t[1] == "scheme" and v.std not in ("ccpp_error_message", "ccpp_error_code"))
    v.optional = not v.optional
    return "%s of %s is %soptional in the metadata only" % (v.name, t[0], "" if v.optional else "not ")


def m_optional1(r, tabs, s):
    c = [t for t in tabs if t[1] == "scheme" and t[2][0].std not in ("ccpp_error_message", "ccpp_error_code")]
    t = r.choice(c)
    v = t[2][0]
    v.optional = not v.optional
    return "first argument %s of %s is %soptional in the metadata only" % (v.name, t[0], "" if v.optional else "not ")


def m_notable(r, tabs, s):
    c = [t for t in tabs if t[2] and not (t[1] == "ddt" and any(v.ddt == t[0] for u in tabs for v in u[2])) and t[1] != "host"]
    if len(tabs) < 2:
        return None
    t = r.choice(c)
    tabs.remove(t)
    return "table %s is marked in the source but not in the metadata" % t[0]


def m_addtable(r, tabs, s):
    c = [t for t in tabs if t[1] == "scheme"]
    t = r.choice(c)
    used = [x[0].rsplit("_", 1)[-1] for x in tabs] + [x[0].replace(s.base + "_", "") for x in tabs]
    ph = r.choice([p for p in ("run", "init", "finalize", "timestep_init", "timestep_finalize", "register") if p not in used])
    tabs.insert(tabs.index(t) + 1, (s.base + "_" + ph, "scheme", [v.clone() for v in t[2]]))
    return "table %s_%s is not in the source" % (s.base, ph)


def m_tabname(r, tabs, s):
    i = r.randrange(len(tabs))
    n, t, vs = tabs[i]
    if t == "ddt" and any(v.ddt == n for u in tabs for v in u[2]):
        return None
    if t == "scheme":
        ph = [p for p in ("run", "init", "finalize", "timestep_init", "timestep_finalize", "register")
              if s.base + "_" + p not in [x[0] for x in tabs]]
        new = s.base + "_" + r.choice(ph)
    else:
        new = n + "z"
    tabs[i] = (new, t, vs)
    return "table %s is called %s in the metadata" % (n, new)


DIFF = [m_drop, m_extra, m_order, m_rotate, m_name, m_type, m_ddt, m_kind, m_rank, m_intent, m_optional, m_optional1, m_notable,
        m_addtable, m_tabname]


def k_extra_module(r, tabs, s):
    """a module or type may have variables without metadata"""
    c = [t for t in tabs if t[1] in ("module", "ddt") and len(t[2]) > 1]
    t = r.choice(c)
    v = t[2].pop(r.randrange(len(t[2])))
    return "%s of %s has no metadata" % (v.name, t[0])


def k_module_order(r, tabs, s):
    c = [t for t in tabs if t[1] in ("module", "ddt") and len(t[2]) > 1]
    t = r.choice(c)
    r.shuffle(t[2])
    return "metadata of %s in another order" % t[0]


def k_section(r, tabs, s):
    """two references into one array in the metadata of a module"""
    c = [(t, v) for t in tabs if t[1] == "module" for v in t[2] if v.dims and v.type != "ddt" and t[2]]
    t, v = r.choice(c)
    k = t[2].index(v)
    for i in range(r.randint(1, 3)):
        w = v.clone()
        w.name = "%s(%s)" % (v.name, ",".join(["%d" % (i + 1)] + [":"] * (len(v.dims) - 1)))
        w.std = v.std + "_part%d" % i
        w.dims = v.dims[1:]
        t[2].insert(k, w)
    return "references to parts of %s in the metadata of %s" % (v.name, t[0])


KEEP = [k_extra_module, k_module_order, k_section]


def m_after_section(r, tabs, s):
    """a difference in the last variable of a table with references to array parts"""
    c = [t for t in tabs if t[1] == "module" and len(t[2]) > 1]
    t = r.choice(c)
    last = t[2][-1]
    if k_section(r, [t], s) is None:
        return None
    t[2].remove(last)
    t[2].append(last)
    return r.choice([m_type, m_kind, m_rank])(r, [(t[0], t[1], [last])], s)


DIFF.append(m_after_section)


def judge(p, what, expect, name, tool, feats):
    out = p.text()
    if p.timeout:
        raise Violation("hang", "%s does not terminate (%s; styles %s)" % (tool, what, ",".join(feats)))
    if expect:
        if p.rc:
            raise Violation("accept:%s:%s" % (name, caprun.norm_error(out)[:60]), "%s rejects a source which agrees with its metadata "
                            "(%s; styles %s): %s" % (tool, what, ",".join(feats), out.strip()[-400:]))
        return
    if p.rc == 0:
        raise Violation("missed:%s" % name, "%s does not report: %s (styles %s)" % (tool, what, ",".join(feats)))
    if not out.strip():
        raise Violation("silent:%s" % name, "%s exits with status %d and no diagnostic: %s" % (tool, p.rc, what))
    m = INTERNAL.search(out)
    if m:
        raise Violation("internal:%s:%s" % (name, m.group(1)), "%s ends with an internal %s: %s" % (tool, m.group(1), what))


def case(item):
    tag, seed, root, nmut, cap = item
    d = os.path.join(root, "%s%d" % (tag, seed))
    stats = {}
    r = core.rng("c15", tag, seed)
    try:
        s, feats = source(seed, "c15" + tag)
        text = s.text()
        if s.fixed:
            stats["fixed_form"] = 1
        base = s.tables()
        variants = [("agree", None, True)]
        if r.random() < 0.4:
            variants += [(f.__name__, f, True) for f in r.sample(KEEP, 1)]
        variants += [(f.__name__, f, False) for f in r.sample(DIFF, nmut)]
        os.makedirs(d)
        src = os.path.join(d, "src")
        n = 0
        for name, fn, expect in variants:
            tabs = [(a, b, [v.clone() for v in c]) for a, b, c in base]
            what = "as generated"
            if fn:
                try:
                    what = fn(r, tabs, s)
                except (IndexError, ValueError):
                    continue                      # nothing to plant it in
                if what is None:
                    continue
            shutil.rmtree(src, ignore_errors=True)
            os.makedirs(src)
            for fn2, t in ((s.base + r.choice([".F", ".f"] if s.fixed else [".F90", ".F90", ".f90"]), text), (s.base + ".meta", s.meta(tabs))):
                with open(os.path.join(src, fn2), "w") as f:
                    f.write(t)
            tools = [("offline checker", lambda: pysrv.run([OFF, "--directory", src], d, 60))]
            if cap and (s.kind == "scheme" or not any(v.type == "ddt" for t in base for v in t[2])):
                base_files(d)
                host = "tiny_data.meta,tiny_host.meta" + (",src/%s.meta" % s.base if s.kind != "scheme" else "")
                sch = "tiny_scheme.meta" + (",src/%s.meta" % s.base if s.kind == "scheme" else "")
                tools.append(("capgen", lambda: pysrv.run(
                    [caprun.CAPGEN, "--host-files", host, "--scheme-files", sch, "--suites", "suite_tiny.xml",
                     "--host-name", "tiny_host", "--output-root", os.path.join(d, "out")], d, 60)))
            for tool, run in tools:
                p = run()
                key = "%s:%s" % (tool.split()[0], name)
                stats[key] = stats.get(key, 0) + 1
                try:
                    judge(p, what, expect, name, tool, feats)
                except Violation as v:
                    return ("violation", v.key, "%s\nsource %s:\n%s\nmetadata:\n%s" % (v.msg, s.base, text[:1200], s.meta(tabs)[:1200]))
                stats["accepted" if expect else "rejected"] = stats.get("accepted" if expect else "rejected", 0) + 1
                n += not expect
        return ("ok", stats, hashlib.sha256(text.encode()).hexdigest()[:12] if n and any(len(t[2]) > 1 for t in base) else None)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    chk = Check("C15", RULE, assumptions=[
        "order is significant for scheme arguments; modules and types may hold further variables, and schemes optional arguments, without metadata",
        "tables of type host are compared only for their presence, as the tool documents (its variables may live elsewhere)"])
    root = core.scratch_root()
    q = core.QUICK
    try:
        run_cases(chk, case, [("s%d_" % core.SEED, i, root, 5, i % 3 == 0) for i in range(640 if q else 20000)], 45 if q else 850)
    finally:
        core.rmtree(root)
    chk.finish(min_evals=100, require=["accepted", "rejected", "capgen:agree", "fixed_form"] + (["offline:" + f.__name__ for f in DIFF + KEEP] if q else []))
