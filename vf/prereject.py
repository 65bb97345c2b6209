"""Single inconsistencies planted into the inputs of ccpp_prebuild.

Every mutation takes (world, files, rng), changes the dictionary of files (None: the file does not exist) and
returns (description, name the diagnostic has to mention or None), or None when the world has no place for it."""
import re
from . import units as U
from .preworld import HD, HE, VD

MUT = []


def mut(f):
    MUT.append((f.__name__, f))
    return f


# ------------------------------------------------------------------ metadata text
def blocks(text):
    """[(table, type of table, first line, line behind, standard name)] of the variables of a metadata file"""
    lines = text.split("\n")
    res, table, ttype, start, sect = [], None, None, None, None
    props = {}

    def close(i):
        if start is not None:
            std = [re.sub(r".*=\s*", "", l).strip() for l in lines[start:i] if l.strip().startswith("standard_name")]
            res.append((table, ttype, start, i, std[0] if std else None))
    for i, l in enumerate(lines):
        s = l.strip()
        if s.startswith("[") or s.startswith("####") or (s == "" and start is not None):
            close(i)
            start = None
            if s in ("[ccpp-table-properties]", "[ccpp-arg-table]"):
                sect = s
            elif s.startswith("["):
                start = i
        elif start is None and "=" in s:
            k, v = [x.strip() for x in s.split("=", 1)]
            if sect == "[ccpp-arg-table]" and k == "name":
                table = v
            elif sect == "[ccpp-arg-table]" and k == "type":
                ttype = v
    close(len(lines))
    return lines, res


def edit(files, fn, table, std, f):
    """apply f(list of lines) -> list of lines to one variable of one table"""
    lines, bl = blocks(files[fn])
    for t, _, a, b, s in bl:
        if t == table and s == std:
            new = f(list(lines[a:b]))
            if new == lines[a:b]:
                return False
            files[fn] = "\n".join(lines[:a] + new + lines[b:])
            return True
    return False


def setp(name, value):
    """set (value None: remove) a property of a variable"""
    def f(ls):
        out, done = [], False
        for l in ls:
            if re.match(r"\s*%s\s*=" % name, l):
                done = True
                if value is not None:
                    out.append("  %s = %s" % (name, value))
            else:
                out.append(l)
        if not done and value is not None:
            out.append("  %s = %s" % (name, value))
        return out
    return f


def hostfile(w, files, std):
    """(file, table) of a variable of the host"""
    for m in w.modules:
        for t, _, a, b, s in blocks(files[m + ".meta"])[1]:
            if s == std:
                return m + ".meta", t
    return None


def used_args(w, want=lambda a, st: True):
    """(scheme, stage, entry, argument) of entries called by a suite"""
    return [(s, st, e, a) for s in w.schemes if s.name in w.uses for st, e in s.entries.items() for a in e.args if want(a, st)]


def data(a, st):
    return a.src is not None


def pick(w, r, want=data):
    c = used_args(w, want)
    return r.choice(c) if c else None


def sfile(s):
    return "schemes/%s.meta" % s.name


def add_var(files, fn, table, ls):
    """append a variable at the end of a table"""
    lines, bl = blocks(files[fn])
    c = [b for t, _, a, b, s in bl if t == table]
    if not c:
        return False
    files[fn] = "\n".join(lines[:c[-1]] + ls + lines[c[-1]:])
    return True


def var(local, std, typ="real", kind="kind_phys", units="K", dims="()", intent="in"):
    return ["[%s]" % local, "  standard_name = %s" % std, "  long_name = planted", "  units = %s" % units,
            "  dimensions = %s" % dims, "  type = %s" % typ] + (["  kind = %s" % kind] if kind else []) + (
                ["  intent = %s" % intent] if intent else [])


# ------------------------------------------------------------------ providers
@mut
def host_lacks(w, files, r):
    c = pick(w, r)
    if not c:
        return None
    s, st, e, a = c
    h = hostfile(w, files, a.std)
    if not edit(files, *h, a.std, lambda ls: [l for l in ls if False]):
        return None
    return "%s_%s uses %s, removed from %s" % (s.name, st, a.std, h[0]), a.std


@mut
def host_renames(w, files, r):
    c = pick(w, r)
    if not c:
        return None
    s, st, e, a = c
    if a.std in [x for v in w.vars for x in v.dims]:
        return None
    if not edit(files, *hostfile(w, files, a.std), a.std, setp("standard_name", a.std + "_x")):
        return None
    return "%s_%s uses %s, renamed in the host" % (s.name, st, a.std), a.std


@mut
def extra_arg(w, files, r):
    c = [(s, st) for s in w.schemes if s.name in w.uses for st, e in s.entries.items() if not e.empty]
    if not c:
        return None
    s, st = r.choice(c)
    std = "no_such_quantity_%d" % r.randint(1, 99)
    typ = r.choice(["real", "integer", "logical"])
    dims = r.choice(["()", "(%s)" % (HE if st == "run" else HD), "(%s)" % VD])
    if not add_var(files, sfile(s), "%s_%s" % (s.name, st),
                   var("zz_x", std, typ, "kind_phys" if typ == "real" else "", dict(real="K", integer="count", logical="flag")[typ],
                       dims, r.choice(["in", "inout", "out"]))):
        return None
    return "%s_%s requests %s" % (s.name, st, std), std


@mut
def host_twice(w, files, r):
    c = pick(w, r)
    if not c:
        return None
    s, st, e, a = c
    fn, t = hostfile(w, files, a.std)
    lines, bl = blocks(files[fn])
    txt = [lines[x:y] for tt, _, x, y, sn in bl if tt == t and sn == a.std][0]
    others = [(m + ".meta", tt) for m in w.modules for tt in [m] if (m + ".meta", tt) != (fn, t)]
    others += [(h.module + ".meta", h.type) for h in w.homes if h.kind == "ddt" and (h.module + ".meta", h.type) != (fn, t)]
    others = [(f, tt) for f, tt in others if any(q[0] == tt for q in blocks(files[f])[1])]
    if not others:
        return None
    f2, t2 = r.choice(others)
    txt = ["[zz_copy]"] + txt[1:]
    add_var(files, f2, t2, txt)
    return "%s is defined twice by the host, in %s and %s" % (a.std, t, t2), a.std


# ------------------------------------------------------------------ disagreement between host and scheme
def both(w, files, r, a, s, st, prop, val):
    """set a property on one side: the scheme's argument or the host's variable"""
    if r.random() < 0.6:
        return edit(files, sfile(s), "%s_%s" % (s.name, st), a.std, setp(prop, val))
    return edit(files, *hostfile(w, files, a.std), a.std, setp(prop, val))


@mut
def type_differs(w, files, r):
    c = pick(w, r, lambda a, st: a.src is not None and a.type != "character")
    if not c:
        return None
    s, st, e, a = c
    new = {"real": ["integer", "logical", "complex"], "integer": ["logical", "real"], "logical": ["integer"]}[a.type]
    t = r.choice(new)
    if a.type == "real" and not edit(files, sfile(s), "%s_%s" % (s.name, st), a.std, setp("type", t)):
        return None
    if a.type == "real":
        edit(files, sfile(s), "%s_%s" % (s.name, st), a.std, setp("kind", None))
    elif not both(w, files, r, a, s, st, "type", t):
        return None
    return "%s_%s: %s is %s on one side" % (s.name, st, a.std, t), a.std


@mut
def kind_differs(w, files, r):
    c = pick(w, r, lambda a, st: a.src is not None and a.type == "real")
    if not c:
        return None
    s, st, e, a = c
    if not both(w, files, r, a, s, st, "kind", {"kind_phys": "kind_sp"}.get(a.kind, "kind_phys")):
        return None
    return "%s_%s: %s has another kind" % (s.name, st, a.std), a.std


@mut
def length_differs(w, files, r):
    c = pick(w, r, lambda a, st: a.src is not None and a.type == "character")
    if not c:
        return None
    s, st, e, a = c
    n = a.src.kind.split("=")[1]
    if not edit(files, sfile(s), "%s_%s" % (s.name, st), a.std, setp("kind", "len=%d" % (int(n) + r.choice([-1, 1, 7])))):
        return None
    return "%s_%s: %s has another length" % (s.name, st, a.std), a.std


@mut
def rank_differs(w, files, r):
    c = pick(w, r)
    if not c:
        return None
    s, st, e, a = c
    h = HE if st == "run" else HD
    ds = [w.sdim(d, st) for d in a.dims]
    if ds and r.random() < 0.5:
        ds.pop(r.randrange(len(ds)))
    else:
        ds.append(r.choice([VD] if h in ds else [VD, h]))
    if not edit(files, sfile(s), "%s_%s" % (s.name, st), a.std, setp("dimensions", "(%s)" % ",".join(ds))):
        return None
    return "%s_%s: %s has rank %d" % (s.name, st, a.std, len(ds)), a.std


@mut
def units_differ(w, files, r):
    c = pick(w, r, lambda a, st: a.src is not None and a.type == "real")
    if not c:
        return None
    s, st, e, a = c
    f = U.family_of(a.src.units)
    bad = [u for fam, us in U.FAMILIES.items() if fam != f for u in us if u not in U.FAMILIES.get(f, ())]
    u = r.choice(sorted(bad) + ["kg2 m-7", "mol m-9"])
    if not edit(files, sfile(s), "%s_%s" % (s.name, st), a.std, setp("units", u)):
        return None
    return "%s_%s: %s in units %s, host %s" % (s.name, st, a.std, u, a.src.units), a.std


@mut
def schemes_disagree(w, files, r):
    c = used_args(w, lambda a, st: a.src is not None and a.type != "character")
    by = {}
    for x in c:
        by.setdefault(x[3].std, []).append(x)
    by = [v for k, v in sorted(by.items()) if len({(x[0].name, x[1]) for x in v}) > 1]
    if not by:
        return None
    s, st, e, a = r.choice(r.choice(by)[1:])
    if r.random() < 0.5 and a.type == "real":
        p, v = "kind", {"kind_phys": "kind_sp"}.get(a.kind, "kind_phys")
    else:
        h = HE if st == "run" else HD
        p, v = "dimensions", "(%s)" % ",".join([w.sdim(d, st) for d in a.dims] + [VD]) if a.dims else "(%s)" % h
    if not edit(files, sfile(s), "%s_%s" % (s.name, st), a.std, setp(p, v)):
        return None
    return "%s_%s: %s of %s is %s, elsewhere not" % (s.name, st, p, a.std, v), a.std


@mut
def length_second(w, files, r):
    """one entry takes any length, another one a length the host does not have"""
    c = used_args(w, lambda a, st: a.src is not None and a.type == "character")
    by = {}
    for x in c:
        by.setdefault(x[3].std, []).append(x)
    by = [v for k, v in sorted(by.items()) if len({(x[0].name, x[1]) for x in v}) > 1]
    if not by:
        return None
    v = r.choice(by)
    k = r.randrange(len(v))
    n = int(v[k][3].src.kind.split("=")[1])
    for i, (s, st, e, a) in enumerate(v):
        edit(files, sfile(s), "%s_%s" % (s.name, st), a.std, setp("kind", "len=%d" % (n + 5) if i == k else "len=*"))
    s, st, e, a = v[k]
    return "%s_%s: %s has length %d, the host %d, other entries take any length" % (s.name, st, a.std, n + 5, n), a.std


# ------------------------------------------------------------------ dimensions and conditions
@mut
def unknown_dimension(w, files, r):
    c = pick(w, r, lambda a, st: a.src is not None and any(d not in (HD, HE) for d in a.dims) and a.type != "character")
    if not c:
        return None
    s, st, e, a = c
    ds = [w.sdim(d, st) for d in a.dims]
    k = r.choice([i for i, d in enumerate(a.dims) if d not in (HD, HE)])
    ds[k] = "number_of_nothing"
    if not edit(files, sfile(s), "%s_%s" % (s.name, st), a.std, setp("dimensions", "(%s)" % ",".join(ds))):
        return None
    return "%s_%s: unknown dimension %s of %s" % (s.name, st, ds[k], a.std), "number_of_nothing"


@mut
def dimension_removed(w, files, r):
    """the host defines a variable but not one of its dimensions"""
    c = pick(w, r, lambda a, st: a.src is not None and any(d in w.xdims for d in a.dims))
    if not c:
        return None
    s, st, e, a = c
    d = r.choice([x for x in a.dims if x in w.xdims])
    if not edit(files, *hostfile(w, files, d), d, lambda ls: []):
        return None
    return "dimension %s of %s is not defined" % (d, a.std), d


@mut
def condition_unknown(w, files, r):
    c = pick(w, r, lambda a, st: a.src is not None and a.src.cond is not None)
    if not c:
        return None
    s, st, e, a = c
    if not edit(files, *hostfile(w, files, a.std), a.std, setp("active", "(flag_for_nothing)")):
        return None
    return "%s depends on flag_for_nothing" % a.std, "flag_for_nothing"


@mut
def condition_removed(w, files, r):
    c = pick(w, r, lambda a, st: a.src is not None and a.src.cond is not None)
    if not c:
        return None
    s, st, e, a = c
    x = a.src.cond
    while x[0] in ("and", "or"):
        x = x[1]
    d = x[1].std
    if not edit(files, *hostfile(w, files, d), d, lambda ls: []):
        return None
    return "%s depends on %s, which is not defined" % (a.std, d), d


@mut
def horizontal_stage(w, files, r):
    """the horizontal dimension of the wrong stage"""
    c = pick(w, r, lambda a, st: a.src is not None and (HD in a.dims or HE in a.dims))
    if not c:
        return None
    s, st, e, a = c
    right, wrong = (HE, HD) if st == "run" else (HD, HE)
    ds = [w.sdim(d, st) for d in a.dims]
    ds = [wrong if d == right else d for d in ds]
    if not edit(files, sfile(s), "%s_%s" % (s.name, st), a.std, setp("dimensions", "(%s)" % ",".join(ds))):
        return None
    return "%s_%s: %s has dimension %s" % (s.name, st, a.std, wrong), a.std


@mut
def horizontal_scalar(w, files, r):
    c = [(s, st) for s in w.schemes if s.name in w.uses for st, e in s.entries.items() if not e.empty]
    if not c:
        return None
    s, st = r.choice(c)
    add_var(files, sfile(s), "%s_%s" % (s.name, st), var("zz_n", HD if st == "run" else HE, "integer", "", "count"))
    return "%s_%s requests the horizontal extent of another stage" % (s.name, st), "%s_%s" % (s.name, st)


def _nonrun(w, r):
    c = [(s, st) for s in w.schemes if s.name in w.uses for st, e in s.entries.items() if not e.empty and st != "run"]
    return r.choice(c) if c else None


@mut
def block_scalar_elsewhere(w, files, r):
    """data of a block without columns, in a stage that processes all blocks"""
    c = [v for v in w.vars if v.home.kind == "blk" and v.elem_of is None]
    x = _nonrun(w, r)
    if not c or not x:
        return None
    s, st = x
    h = hostfile(w, files, r.choice(c).std)
    dims = r.choice(["()", "()", "(%s)" % VD])
    if not h or not add_var(files, *h, var("zz_s", "zz_planted_in_block", dims=dims, intent=None)):
        return None
    add_var(files, sfile(s), "%s_%s" % (s.name, st), var("zz_x", "zz_planted_in_block", dims=dims, intent=r.choice(["in", "inout"])))
    return "%s_%s uses a variable of a block without columns" % (s.name, st), "zz_planted_in_block"


@mut
def thread_data_elsewhere(w, files, r):
    c = [v for v in w.vars if v.home.kind == "thr" and v.elem_of is None]
    x = _nonrun(w, r)
    if not c or not x:
        return None
    s, st = x
    v = r.choice(c)
    dims = ",".join(w.sdim(d, st) for d in v.dims)
    add_var(files, sfile(s), "%s_%s" % (s.name, st), var("zz_x", v.std, v.type, v.kind, v.units, "(%s)" % dims, r.choice(["in", "inout"])))
    if v.std in [a.std for a in s.entries[st].args]:
        return None
    return "%s_%s uses data of a thread" % (s.name, st), v.std


# ------------------------------------------------------------------ tables
@mut
def no_errors(w, files, r):
    c = [(s, st) for s in w.schemes for st, e in s.entries.items() if not e.empty]
    if not c:
        return None
    s, st = r.choice(c)
    x = r.choice(["ccpp_error_message", "ccpp_error_code"])
    if not edit(files, sfile(s), "%s_%s" % (s.name, st), x, lambda ls: []):
        return None
    if not [1 for t, _, _, _, _ in blocks(files[sfile(s)])[1] if t == "%s_%s" % (s.name, st)]:
        return None
    return "%s_%s has no %s" % (s.name, st, x), x


@mut
def twice_in_table(w, files, r):
    c = pick(w, r)
    if not c:
        return None
    s, st, e, a = c
    lines, bl = blocks(files[sfile(s)])
    txt = [lines[x:y] for t, _, x, y, sn in bl if t == "%s_%s" % (s.name, st) and sn == a.std][0]
    add_var(files, sfile(s), "%s_%s" % (s.name, st), ["[zz_copy]"] + txt[1:])
    return "%s twice in the table of %s_%s" % (a.std, s.name, st), a.std


@mut
def table_lost(w, files, r):
    """the Fortran refers to an argument table which the metadata file does not have"""
    c = [(s, st) for s in w.schemes if s.name in w.uses for st, e in s.entries.items() if e.args and len(
        [x for x in s.entries.values() if not x.empty]) > 1]
    if not c:
        return None
    s, st = r.choice(c)
    t = files[sfile(s)]
    parts = t.split("[ccpp-arg-table]")
    new = "[ccpp-arg-table]".join(x for x in parts if "  name = %s_%s\n" % (s.name, st) not in x)
    if new == t:
        return None
    files[sfile(s)] = new
    return "no table %s_%s in %s" % (s.name, st, sfile(s)), "%s_%s" % (s.name, st)


@mut
def meta_lost(w, files, r):
    if r.random() < 0.5:
        c = sorted(s.name for s in w.schemes if any(not e.empty for e in s.entries.values()))
        if not c:
            return None
        n = "schemes/%s.meta" % r.choice(c)
    else:
        n = r.choice(w.modules) + ".meta"
    files[n] = None
    return "no file " + n, n.split("/")[-1]


@mut
def bad_hook(w, files, r):
    c = [(s, st) for s in w.schemes for st, e in s.entries.items() if not e.empty]
    if not c:
        return None
    s, st = r.choice(c)
    fn = "schemes/%s.F90" % s.name
    a = "!! \\htmlinclude %s_%s.html" % (s.name, st)
    b = r.choice(["! \\htmlinclude %s_%s.html", "!!\\htmlinclude %s_%s.html", "!! htmlincluded %s_%s.html"]) % (s.name, st)
    t = files[fn].replace(a + "\n", b + "\n")
    if t == files[fn]:
        return None
    files[fn] = t
    return "hook %r in %s" % (b, fn), None


@mut
def bad_property(w, files, r):
    c = pick(w, r)
    if not c:
        return None
    s, st, e, a = c
    tb = "%s_%s" % (s.name, st)
    p, v = r.choice([("intent", "inandout"), ("intent", None), ("units", None), ("type", None), ("dimensions", None),
                     ("optional", "maybe"), ("colour", "red"), ("units", "m s^-1"), ("dimensions", "%s" % VD), ("active", "(%s)" % VD)])
    if p == "kind" and a.type != "real":
        return None
    if not edit(files, sfile(s), tb, a.std, setp(p, v)):
        return None
    return "%s: property %s of %s is %s" % (tb, p, a.std, v), None


@mut
def host_optional(w, files, r):
    c = pick(w, r)
    if not c:
        return None
    s, st, e, a = c
    if not edit(files, *hostfile(w, files, a.std), a.std, setp("optional", "True")):
        return None
    return "%s is optional in the host" % a.std, a.std


# ------------------------------------------------------------------ files and configuration
def conf(files, a, b):
    t = files["ccpp_prebuild_config.py"]
    n = t.replace(a, b)
    files["ccpp_prebuild_config.py"] = n
    return n != t


@mut
def scheme_not_listed(w, files, r):
    s = r.choice(sorted(w.uses))
    if len(w.schemes) < 2 or not conf(files, "'schemes/%s.F90'" % s, "") :
        return None
    files["ccpp_prebuild_config.py"] = files["ccpp_prebuild_config.py"].replace("[, ", "[").replace(", , ", ", ").replace(", ]", "]")
    return "scheme %s is not in SCHEME_FILES" % s, s


@mut
def scheme_unknown(w, files, r):
    s = r.choice(w.suites)
    fn = "suites/" + s.file
    n = r.choice(sorted(w.uses))
    new = r.choice([n + "x", n[:-1], n.swapcase(), "no_such_scheme", n + "_run"])
    k = files[fn].count("<scheme>%s</scheme>" % n)
    if not k or new in w.scheme:
        return None
    files[fn] = files[fn].replace("<scheme>%s</scheme>" % n, "<scheme>%s</scheme>" % new, r.choice([1, k]))
    return "suite %s calls %s" % (s.name, new), new


@mut
def file_lost(w, files, r):
    n = r.choice(["schemes/%s.F90" % s.name for s in w.schemes] + [m + ".F90" for m in w.modules] + ["ccpp_kinds.F90"])
    files[n] = None
    return "no file " + n, n.split("/")[-1]


@mut
def suite_lost(w, files, r):
    s = r.choice(w.suites)
    files["suites/" + s.file] = None
    return "no suite definition file " + s.file, s.file[:-4]


@mut
def suite_name(w, files, r):
    s = r.choice(w.suites)
    fn = "suites/" + s.file
    files[fn] = files[fn].replace('<suite name="%s"' % s.name, '<suite name="%s"' % (s.name + "_b"))
    return "suite %s_b in file %s" % (s.name, s.file), s.name


@mut
def suite_long(w, files, r):
    s = r.choice(w.suites)
    fn = "suites/" + s.file
    n = s.name + "_" + "x" * (38 + r.randint(0, 3) - len(s.name) - 1)
    t = files.pop(fn)
    files["suites/%s.xml" % n] = t.replace('<suite name="%s"' % s.name, '<suite name="%s"' % n)
    w.suitearg = {s.file: n}
    return "suite name of %d characters" % len(n), n


@mut
def suite_syntax(w, files, r):
    s = r.choice(w.suites)
    fn = "suites/" + s.file
    t = files[fn]
    files[fn] = r.choice([t.replace("</subcycle>", "", 1), t.replace("</suite>", ""), t.replace("<group", "<group <", 1),
                          t.replace('loop="', 'loop="many', 1), t.replace(' loop="', ' looop="', 1), t[:len(t) // 2], ""])
    return "malformed suite definition file " + s.file, None


@mut
def suites_dir(w, files, r):
    conf(files, "SUITES_DIR = 'suites'", "SUITES_DIR = 'nothing'")
    w.nosuites = r.random() < 0.5
    return "no suites directory", None


@mut
def dependency_lost(w, files, r):
    if r.random() < 0.5:
        s = r.choice(sorted(w.uses))
        if not any(not e.empty for e in w.scheme[s].entries.values()):
            return None
        fn = "schemes/%s.meta" % s
        new = r.choice(["../ccpp_kinds.F90,no_such_file.F90", "no_such_file.F90", "../no_such_file.F90,../ccpp_kinds.F90"])
        files[fn] = files[fn].replace("dependencies = ../ccpp_kinds.F90", "dependencies = " + new)
    else:
        fn = r.choice(w.modules) + ".meta"
        i = files[fn].rindex("dependencies =")
        files[fn] = files[fn][:i] + "dependencies = no_such_file.F90" + files[fn][i + len("dependencies ="):]
    return "%s depends on no_such_file.F90" % fn, "no_such_file.F90"


@mut
def typedef_lost(w, files, r):
    """module or type with tables is missing from TYPEDEFS_NEW_METADATA"""
    c = [h for h in w.homes if h.kind != "mod" and ([v for v in w.vars if v.home is h] or [o for o in w.scal.values() if o.home is h])]
    if not c:
        return None
    h = r.choice(c)
    t = w.typedefs()
    del t[h.module][h.type]
    conf(files, "TYPEDEFS_NEW_METADATA = %r" % w.typedefs(), "TYPEDEFS_NEW_METADATA = %r" % t)
    return "type %s is not configured" % h.type, h.type


@mut
def config_lost(w, files, r):
    if r.random() < 0.5:
        files["ccpp_prebuild_config.py"] = None
        return "no configuration file", "ccpp_prebuild_config.py"
    k = r.choice(["CAPS_DIR", "SUITES_DIR", "SCHEME_FILES", "VARIABLE_DEFINITION_FILES", "STATIC_API_DIR", "TYPEDEFS_MAKEFILE",
                  "HOST_MODEL_IDENTIFIER"])
    conf(files, k + " = ", "X_%s = " % k)
    return "no %s in the configuration" % k, k


@mut
def no_handle(w, files, r):
    fn = w.modules[-1] + ".meta"
    if not edit(files, fn, w.modules[-1], "ccpp_t_instance", lambda ls: []):
        return None
    return "no variable of type ccpp_t", "ccpp_t"


@mut
def kind_undefined(w, files, r):
    # members of derived types are not declared in the caps: their kind is not needed there
    c = used_args(w, lambda a, st: a.src is not None and a.type == "real" and a.src.home.kind == "mod" and a.src.elem_of is None)
    if not c:
        return None
    k = r.choice(c)[3].kind
    if not edit(files, "ccpp_kinds.meta", "ccpp_kinds", k, lambda ls: []):
        return None
    return "the host does not define " + k, k


@mut
def module_mismatch(w, files, r):
    s = w.scheme[r.choice(sorted(w.uses))]
    fn = "schemes/%s.F90" % s.name
    t = files[fn]
    st = r.choice(s.order)
    how = r.randrange(3)
    if how == 0:
        files[fn] = t.replace("module %s\n" % s.name, "module %s_mod\n" % s.name)
    elif how == 1:
        files[fn] = t.replace("\nend module %s\n" % s.name, "\nend module %s_x\n" % s.name)
    else:
        files[fn] = t.replace("  end subroutine %s_%s\n" % (s.name, st), "  end subroutine %s_%sx\n" % (s.name, st))
    if files[fn] == t:
        return None
    return "%s: names of module or subroutine do not match (%d)" % (fn, how), None
