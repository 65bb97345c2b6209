"""Mutations of valid capgen worlds that make the inputs inconsistent.

Every mutation takes (world, rng) and returns a description (None when the
world offers no place for it).  It changes the world object (metadata and
Fortran stay consistent with each other) or registers a change of one of the
emitted files in w.edits (file name -> function(text))."""
import re
from .capworld import Obj, World, PHASES, HDIM, HEXT, VDIM, VINT
from . import units as U

MUT = []


def mut(weight=1):
    def deco(f):
        MUT.append((f.__name__, f, weight))
        return f
    return deco


def used_entries(w, phase=None):
    """(suite, scheme, phase, entry) of the entries some suite calls"""
    out = []
    for s in w.suites:
        for ph in PHASES:
            if phase and ph != phase:
                continue
            for n in dict.fromkeys(w.phase_trace(s, ph)):
                out.append((s, w.scheme[n], ph, w.scheme[n].entries[ph]))
    return out


def new_arg(w, r, ph, intent, std=None, **kw):
    t = kw.get("type") or r.choice(["real", "real", "integer", "logical"])
    dims = kw.get("dims")
    if dims is None:
        dims = r.choice([[], [HEXT if ph == "run" else HDIM], [HEXT if ph == "run" else HDIM, VDIM], [VDIM]])
    return Obj(std=std or w.stdname("lost"), local="zz_%d" % r.randint(100, 999), type=t,
               kind=kw.get("kind", "kind_phys" if t == "real" else ""), dims=list(dims),
               units=kw.get("units") or {"real": "kg m-3", "integer": "count", "logical": "flag"}[t], intent=intent,
               optional=False, top=False, src=None, special=None, explicit=False)


def host_args(w, r, want=lambda a, ph: True, inter=None):
    """shuffled (suite, scheme, phase, entry, arg) with a host (or suite-held) provider"""
    out = []
    for s, sch, ph, e in used_entries(w):
        for a in e.args:
            if a.special is not None or a.src is None or getattr(a, "wrap", None) is not None:
                continue
            held = bool(getattr(a.src, "inter", False))
            if inter is not None and held != inter:
                continue
            if held and not second_user(w, s, a, sch, ph):
                continue
            if want(a, ph):
                out.append((s, sch, ph, e, a))
    r.shuffle(out)
    return out


def second_user(w, suite, a, sch, ph):
    """is a suite-held argument here used after another entry produced it, in this suite"""
    for p2 in PHASES:
        for n in w.phase_trace(suite, p2):
            for b in w.scheme[n].entries[p2].args:
                if b.src is a.src:
                    return (n, p2) != (sch.name, ph)
    return False


def where(sch, ph, a):
    return "%s_%s argument %s (%s)" % (sch.name, ph, a.local, a.std)


# ---- missing providers
@mut(2)
def missing_input(w, r):
    s, sch, ph, e = r.choice(used_entries(w))
    a = new_arg(w, r, ph, r.choice(["in", "inout"]))
    e.args.append(a)
    return "%s requires %s, which nobody provides" % (where(sch, ph, a), a.std)


@mut(2)
def removed_host_var(w, r):
    for s, sch, ph, e, a in host_args(w, r, lambda a, ph: a.intent != "out" and a.src.elem_of is None
                                      and not a.src.has_elem, inter=False):
        hv = a.src
        # the first use in some suite must not produce it
        for su in w.suites:
            first = None
            for p2 in PHASES:
                for n in w.phase_trace(su, p2):
                    for b in w.scheme[n].entries[p2].args:
                        if b.src is hv and first is None:
                            first = b
            if first is not None and first.intent != "out":
                w.hvars.remove(hv)
                return "host variable %s removed, used by %s" % (hv.std, where(sch, ph, a))
    return None


@mut(2)
def use_before_produced(w, r):
    ents = used_entries(w)
    for _ in range(30):
        s, sch, ph, e = r.choice(ents)
        seq = []
        for p2 in PHASES:
            seq += [(n, p2) for n in w.phase_trace(s, p2)]
        k = [i for i, u in enumerate(seq) if u == (sch.name, ph)][0]
        later = [u for u in seq[k + 1:] if u not in seq[:k + 1]]
        later = [u for u in later if u[1] != "register"]
        if not later or ph == "register":
            continue
        n2, p2 = r.choice(later)
        dims = r.choice([[], [VDIM]])
        a = new_arg(w, r, ph, r.choice(["in", "inout"]), type="real", dims=dims)
        b = new_arg(w, r, p2, "out", std=a.std, type="real", dims=dims)
        e.args.append(a)
        w.scheme[n2].entries[p2].args.append(b)
        return "%s used in suite %s before %s_%s produces it" % (where(sch, ph, a), s.name, n2, p2)
    return None


@mut(2)
def produced_in_other_suite(w, r):
    if len(w.suites) < 2:
        return None
    sa, sb = r.sample(w.suites, 2)
    ea = [x for x in used_entries(w) if x[0] is sa and x[2] != "register" and x[1].name not in w.suite_schemes(sb)]
    eb = [x for x in used_entries(w) if x[0] is sb and x[2] != "register"]
    if not ea or not eb:
        return None
    _, s1, p1, e1 = r.choice(ea)
    _, s2, p2, e2 = r.choice(eb)
    dims = r.choice([[], [VDIM]])
    a = new_arg(w, r, p1, "out", type="real", dims=dims)
    b = new_arg(w, r, p2, r.choice(["in", "inout"]), std=a.std, type="real", dims=dims)
    e1.args.append(a)
    e2.args.append(b)
    return "%s of suite %s is only produced in suite %s" % (where(s2, p2, b), sb.name, sa.name)


@mut(1)
def unknown_dimension(w, r):
    s, sch, ph, e = r.choice([x for x in used_entries(w) if x[2] != "register"] or used_entries(w))
    d = w.stdname("number_of_lost")
    a = new_arg(w, r, ph, "out", type="real", dims=r.choice([[d], [HEXT if ph == "run" else HDIM, d]]))
    e.args.append(a)
    return "%s has dimension %s, which nobody provides" % (where(sch, ph, a), d)


@mut(1)
def unknown_loop_variable(w, r):
    s = r.choice(w.suites)
    g, items = r.choice(s.groups)
    i = r.randrange(len(items))
    items[i] = ("subcycle", Obj(std="lost_number_of_subcycles", local="x", value=2), [items[i]])
    return "subcycle of suite %s loops over an unknown variable" % s.name


@mut(1)
def unknown_flag(w, r):
    for s, sch, ph, e, a in host_args(w, r, lambda a, ph: a.src.elem_of is None and not a.src.hostarg, inter=False):
        hv = a.src
        flag = Obj(std=w.stdname("flag_for_lost"), local="lostflag", module=None, type="logical", value=True)
        hv.cond = ("l", flag) if hv.cond is None or r.random() < 0.5 else ("and", hv.cond, ("l", flag))
        for x in w.schemes:
            for e2 in x.entries.values():
                for b in e2.args:
                    if b.src is hv:
                        b.optional = True
        return "%s is active under %s, which nobody provides" % (where(sch, ph, a), flag.std)
    return None


# ---- providers that do not fit
@mut(2)
def wrong_type(w, r):
    for s, sch, ph, e, a in host_args(w, r):
        new = r.choice([t for t in ("real", "integer", "logical", "character") if t != a.type])
        a.type, a.explicit, old = new, False, a.type
        a.kind = {"real": "kind_phys", "character": "len=16"}.get(new, "")
        if r.random() < 0.5:
            a.units = {"real": "1", "integer": "count", "logical": "flag", "character": "none"}[new]
        return "%s is %s, its provider %s" % (where(sch, ph, a), new, old)
    return None


@mut(1)
def wrong_length(w, r):
    for s, sch, ph, e, a in host_args(w, r, lambda a, ph: a.type == "character"):
        old = a.src.kind
        a.kind = "len=%d" % (int(old.split("=")[1]) + r.choice([-1, 1, 5]))
        return "%s has %s, its provider %s" % (where(sch, ph, a), a.kind, old)
    return None


@mut(2)
def wrong_units(w, r):
    def ok(a, ph):
        return a.type == "real"
    for s, sch, ph, e, a in host_args(w, r, ok):
        f = U.family_of(a.src.units)
        cand = [u for g, us in U.FAMILIES.items() if g != f for u in us] + [u for u in U.UNITS_ONLY if u != a.src.units]
        cand = [u for u in cand if not {u, a.src.units} <= {"1", "none", "frac"}]
        a.units = r.choice(cand)
        return "%s has units %s, its provider %s" % (where(sch, ph, a), a.units, a.src.units)
    return None


@mut(1)
def wrong_units_scalar(w, r):
    for s, sch, ph, e, a in host_args(w, r, lambda a, ph: a.type in ("integer", "logical", "character")):
        old = a.src.units
        a.units = r.choice([u for u in ("m", "K", "s", "kg m-3", "Pa") if u != old])
        return "%s has units %s, its provider %s" % (where(sch, ph, a), a.units, old)
    return None


def _hv(ph):
    return HEXT if ph == "run" else HDIM


@mut(2)
def dropped_dimension(w, r):
    def ok(a, ph):
        return [d for d in a.dims if d.split(":")[-1] not in (VDIM, VINT)] != []
    for s, sch, ph, e, a in host_args(w, r, ok):
        old = list(a.dims)
        k = r.choice([i for i, d in enumerate(a.dims) if d.split(":")[-1] not in (VDIM, VINT)])
        del a.dims[k]
        a.explicit = False
        return "%s has dimensions %s, its provider %s" % (where(sch, ph, a), a.dims, old)
    return None


@mut(1)
def all_dimensions_dropped(w, r):
    def ok(a, ph):
        return len(a.dims) > 1 or [d for d in a.dims if d.split(":")[-1] not in (VDIM, VINT)] != []
    for s, sch, ph, e, a in host_args(w, r, ok):
        old = list(a.dims)
        a.dims = []
        a.explicit = False
        return "%s is a scalar, its provider has dimensions %s" % (where(sch, ph, a), old)
    return None


@mut(2)
def added_dimension(w, r):
    for s, sch, ph, e, a in host_args(w, r, lambda a, ph: a.type != "character"):
        old = list(a.dims)
        have = [d.split(":")[-1] for d in old]
        cand = [d for d in [_hv(ph), VDIM] + w.xdims if d not in have and not (d == VDIM and VINT in have)
                and not (sliced(a) and d == a.src.dims[a.drop])]
        if not cand:
            continue
        d = r.choice(cand)
        if d == _hv(ph):
            a.dims.insert(0, d)
        else:
            a.dims.append(d)
        a.explicit = False
        return "%s has dimensions %s, its provider %s" % (where(sch, ph, a), a.dims, old)
    return None


@mut(2)
def other_dimension(w, r):
    for s, sch, ph, e, a in host_args(w, r, lambda a, ph: a.dims):
        old = list(a.dims)
        k = r.randrange(len(old))
        have = [d.split(":")[-1] for d in old]
        if have[k] in (VDIM, VINT):
            cand = [{VDIM: VINT, VINT: VDIM}[have[k]]] * 2 + [x for x in w.xdims if x not in have]
        elif have[k] in (HDIM, HEXT):
            cand = [x for x in w.xdims if x not in have]
        else:
            cand = [x for x in w.xdims if x not in have] + [d for d in (VDIM, _hv(ph)) if d not in have]
        if not cand:
            continue
        a.dims[k] = r.choice(cand)
        a.explicit = False
        return "%s has dimensions %s, its provider %s" % (where(sch, ph, a), a.dims, old)
    return None


def sliced(a):
    """does the argument lack the vertical dimension of its provider"""
    return getattr(a, "drop", None) is not None


def _slice(a, r, vds=(VDIM, VINT)):
    """drop the vertical dimension of a"""
    k = [i for i, d in enumerate(a.dims) if d.split(":")[-1] in vds]
    if sliced(a) or not k or len(a.dims) < 2:
        return False
    a.drop = k[0]
    del a.dims[k[0]]
    a.explicit = False
    return True


@mut(2)
def vertical_loop_converted(w, r):
    for s, sch, ph, e, a in host_args(w, r, lambda a, ph: a.type == "real" and not a.optional, inter=False):
        if a.kind == a.src.kind and a.units == a.src.units:
            fam = U.family_of(a.src.units)
            if fam and U.partners(fam, a.src.units) and r.random() < 0.7:
                units, kind = r.choice(U.partners(fam, a.src.units)), a.kind
            else:
                units, kind = a.units, "kind_sp" if a.src.kind == "kind_phys" else "kind_phys"
        else:
            units, kind = a.units, a.kind
        if not sliced(a) and not _slice(a, r):
            continue
        a.units, a.kind = units, kind
        return "%s lacks the vertical dimension of its provider and needs a conversion (%s %s from %s %s)" % (
            where(sch, ph, a), a.units, a.kind, a.src.units, a.src.kind)
    return None


@mut(2)
def two_vertical_loops(w, r):
    def vd(a):
        return [d for d in a.src.dims if d in (VDIM, VINT)]
    for s, sch, ph, e, a in host_args(w, r, lambda a, ph: a.type != "character" and len(a.src.dims) > 1 and vd(a), inter=False):
        others = [b for b in e.args if b.special is None and b.src is not None and not getattr(b.src, "inter", False)
                  and b.type != "character" and len(b.src.dims) > 1 and vd(b) and vd(b) != vd(a)]
        if others:
            b = r.choice(others)
            for x in (a, b):
                if not sliced(x):
                    _slice(x, r)
                    x.units, x.kind, x.top = x.src.units, x.src.kind, x.src.top
            return "%s and %s need loops over different vertical dimensions" % (where(sch, ph, a), b.std)
    return None


@mut(1)
def swapped_dimensions(w, r):
    for s, sch, ph, e, a in host_args(w, r, lambda a, ph: len(a.dims) > 1):
        old = list(a.dims)
        i, j = r.sample(range(len(old)), 2)
        a.dims[i], a.dims[j] = a.dims[j], a.dims[i]
        a.explicit = False
        return "%s has dimensions %s, its provider %s" % (where(sch, ph, a), a.dims, old)
    return None


@mut(2)
def protected_write(w, r):
    for s, sch, ph, e, a in host_args(w, r, lambda a, ph: a.src.elem_of is None and a.src.cond is None
                                      and not a.src.has_elem, inter=False):
        if a.src.protected or a.intent in ("out", "inout"):
            a.src.protected = True
            if a.intent == "in":
                a.intent = r.choice(["out", "inout"])
            return "%s has intent %s, the host variable is protected" % (where(sch, ph, a), a.intent)
    return None


@mut(1)
def protected_instance_write(w, r):
    """components of a protected derived type variable are protected"""
    for s, sch, ph, e, a in host_args(w, r, lambda a, ph: a.src.inst is not None and a.src.elem_of is None
                                      and a.intent != "in", inter=False):
        i = a.src.inst
        while i.parent is not None and r.random() < 0.5:
            i = i.parent
        fn = (i.module if i.module else w.ddt_file()) + ".meta"
        def f(t):
            return t.replace("  standard_name = %s\n" % i.std, "  standard_name = %s\n  protected = True\n" % i.std, 1)
        edit(w, fn, f)
        return "%s has intent %s, its parent %s is protected" % (where(sch, ph, a), a.intent, i.std)
    return None


@mut(1)
def protected_loop_write(w, r):
    ents = used_entries(w, "run")
    if not ents:
        return None
    s, sch, ph, e = r.choice(ents)
    e.args = [a for a in e.args if a.std not in ("horizontal_loop_begin", "horizontal_loop_end")]
    a = new_arg(w, r, ph, r.choice(["out", "inout"]), std=r.choice(["horizontal_loop_begin", "horizontal_loop_end"]),
                type="integer", dims=[], units="count")
    e.args.append(a)
    return "%s has intent %s, the host variable is protected" % (where(sch, ph, a), a.intent)


@mut(2)
def mandatory_on_conditional(w, r):
    for s, sch, ph, e, a in host_args(w, r, lambda a, ph: a.src.elem_of is None and not a.src.hostarg, inter=False):
        hv = a.src
        if hv.cond is None:
            if not w.conds or hv.protected or hv.has_elem:
                continue
            hv.cond = w._condition()
        a.optional = False
        return "%s is mandatory, the host variable is active under %s" % (where(sch, ph, a), World.cond_text(hv.cond))
    return None


@mut(1)
def duplicate_host_name(w, r):
    for s, sch, ph, e, a in host_args(w, r, lambda a, ph: a.src.elem_of is None, inter=False):
        hv = a.src
        import copy
        h2 = copy.copy(hv)
        h2.local = w.locname()
        if not hv.hostarg and hv.inst is None:
            h2.module = r.choice(w.modules)
        h2.has_elem = False
        w.hvars.append(h2)
        return "two host variables are called %s, used by %s" % (hv.std, where(sch, ph, a))
    return None


# ---- suite definition files
def edit(w, fn, f):
    w.edits.setdefault(fn, []).append(f)


def sdf(w, s):
    return "suite_%s.xml" % s.name


def _nth(text, pat, k):
    return list(re.finditer(pat, text))[k]


@mut(2)
def unknown_scheme(w, r):
    s = r.choice(w.suites)
    k = r.random()
    tag = "scheme"
    names = [sch for _, it in s.groups for sch in World.static_schemes(it)]
    pos = r.randrange(len(names))
    old = names[pos]
    new = r.choice([old + "x", old[:-1], "x" + old, old + "_run", old + "_init", "nosuch", old + " " + old])
    if new in w.scheme:
        new = "nosuch"
    def f(t):
        m = _nth(t, r"<scheme>([^<]*)</scheme>", pos)
        return t[:m.start(1)] + new + t[m.end(1):]
    edit(w, sdf(w, s), f)
    return "suite %s names the unknown scheme '%s' instead of %s" % (s.name, new, old)


@mut(1)
def unknown_tag_scheme(w, r):
    s = r.choice(w.suites)
    if r.random() < 0.5:
        if s.itag:
            return None
        edit(w, sdf(w, s), lambda t: t.replace("  <group", "  <init>nosuch</init>\n  <group", 1))
    else:
        if s.ftag:
            return None
        edit(w, sdf(w, s), lambda t: t.replace("</suite>", "  <final>nosuch</final>\n</suite>", 1))
    return "suite %s names the unknown scheme 'nosuch' in an init or final element" % s.name


@mut(2)
def repeated_group(w, r):
    s = r.choice(w.suites)
    g, items = r.choice(s.groups)
    other = r.choice(s.groups)[1]
    pos = r.randrange(len(s.groups) + 1)
    s.groups.insert(pos, (g, other if r.random() < 0.5 else items))
    return "suite %s has two groups named %s" % (s.name, g)


@mut(3)
def malformed_xml(w, r):
    s = r.choice(w.suites)
    k = r.choice(["cut", "unclosed", "mismatch", "quote", "empty", "two", "amp", "lt", "dupattr"])
    def f(t):
        if k == "cut":
            return t[:r.randint(t.index("<suite") + 8, len(t.rstrip()) - 2)]
        if k == "unclosed":
            return t.replace("</group>", "", 1)
        if k == "mismatch":
            return t.replace("</scheme>", "</schema>", 1)
        if k == "quote":
            return t.replace('version="1.0">', 'version="1.0>', 1)
        if k == "empty":
            return ""
        if k == "two":
            return t + "<suite/>\n"
        if k == "amp":
            return t.replace("<scheme>", "<scheme>& ", 1)
        if k == "lt":
            return t.replace("<scheme>", "<<scheme>", 1)
        return t.replace("<group name=", '<group name="qq" name=', 1)
    edit(w, sdf(w, s), f)
    return "suite file of %s is malformed (%s)" % (s.name, k)


@mut(4)
def invalid_sdf(w, r):
    s = r.choice(w.suites)
    opts = {
        "no suite name": lambda t: t.replace('<suite name="%s"' % s.name, "<suite", 1),
        "no group name": lambda t: re.sub(r'<group name="[^"]*"', "<group", t, count=1),
        "no version": lambda t: re.sub(r'(<suite[^>]*) version="1.0"', r"\1", t, count=1),
        "version abc": lambda t: re.sub(r'(<suite[^>]*) version="1.0"', r'\1 version="abc"', t, count=1),
        "version 1": lambda t: re.sub(r'(<suite[^>]*) version="1.0"', r'\1 version="1"', t, count=1),
        "version 7.3": lambda t: re.sub(r'(<suite[^>]*) version="1.0"', r'\1 version="7.3"', t, count=1),
        "root element": lambda t: t.replace("<suite ", "<sweet ").replace("</suite>", "</sweet>"),
        "group in group": lambda t: t.replace("<scheme>", '<group name="inner"><scheme>', 1).replace("</scheme>", "</scheme></group>", 1),
        "scheme outside group": lambda t: t.replace("  <group", "  <scheme>%s</scheme>\n  <group" % w.schemes[0].name, 1),
        "unknown element": lambda t: t.replace("<scheme>", "<skeme>", 1).replace("</scheme>", "</skeme>", 1),
        "unknown element in suite": lambda t: t.replace("  <group", "  <gruop/>\n  <group", 1),
        "unknown suite attribute": lambda t: t.replace("<suite ", '<suite nme="x" ', 1),
        "unknown group attribute": lambda t: t.replace("<group ", '<group nme="x" ', 1),
        "no group": lambda t: re.sub(r"<group.*</group>", "", t, flags=re.S),
        "empty scheme name": lambda t: re.sub(r"<scheme>[^<]*</scheme>", "<scheme></scheme>", t, count=1),
        "loop 0": lambda t: t.replace("<scheme>", '<subcycle loop="0"><scheme>', 1).replace("</scheme>", "</scheme></subcycle>", 1),
        "loop -2": lambda t: t.replace("<scheme>", '<subcycle loop="-2"><scheme>', 1).replace("</scheme>", "</scheme></subcycle>", 1),
        "loop 2.5": lambda t: t.replace("<scheme>", '<subcycle loop="2.5"><scheme>', 1).replace("</scheme>", "</scheme></subcycle>", 1),
        "init after group": lambda t: t.replace("</suite>", "  <init>%s</init>\n</suite>" % w.schemes[0].name, 1),
    }
    k = r.choice(sorted(opts))
    edit(w, sdf(w, s), opts[k])
    return "suite file of %s: %s" % (s.name, k)


@mut(1)
def repeated_suite(w, r):
    import copy
    s = r.choice(w.suites)
    w.suites.append(copy.copy(s))
    w.suites[-1].name = s.name + "_again"
    edit(w, sdf(w, w.suites[-1]), lambda t: t.replace('name="%s_again"' % s.name, 'name="%s"' % s.name, 1))
    return "two suite files define suite %s" % s.name


@mut(1)
def reserved_group(w, r):
    s = r.choice(w.suites)
    k = r.randrange(len(s.groups))
    s.groups[k] = (r.choice(["register", "initialize", "finalize", "timestep_initial", "timestep_final"]), s.groups[k][1])
    return "suite %s has a group called %s, the name of a phase" % (s.name, s.groups[k][0])


@mut(1)
def missing_file(w, r):
    k = r.choice(["suite", "host", "scheme", "fortran"])
    if k == "suite":
        fn = sdf(w, r.choice(w.suites))
    elif k == "host":
        fn = r.choice(w.host_meta())
    elif k == "scheme":
        fn = w.scheme[r.choice(w.suite_schemes(r.choice(w.suites)))].file + ".meta"
    else:
        fn = w.scheme[r.choice(w.suite_schemes(r.choice(w.suites)))].file + ".F90"
    edit(w, fn, lambda t: None)
    return "file %s does not exist" % fn


# ---- the same thing defined twice, or not at all
def _extra(w, fn, f):
    if not hasattr(w, "extra_files"):
        w.extra_files, w.extra_host = {}, []
    w.extra_files[fn] = f


@mut(1)
def duplicate_scheme_file(w, r):
    """two pairs of files define the same schemes"""
    used = [n for s in w.suites for n in w.suite_schemes(s)]
    sch = w.scheme[r.choice(used)]
    old, new = sch.file, "again_" + sch.file
    for ext in (".meta", ".F90"):
        _extra(w, new + ext, lambda files, ext=ext: files[old + ext])
    if r.random() < 0.5:
        edit(w, "schemes.txt", lambda t: t + new + ".meta\n")
    else:
        edit(w, "schemes.txt", lambda t: new + ".meta\n" + t)
    return "scheme %s is defined in %s and in %s" % (sch.name, old, new)


@mut(1)
def duplicate_scheme_table(w, r):
    """a second argument table for an entry in the same metadata file"""
    s, sch, ph, e = r.choice(used_entries(w))
    name = "%s_%s" % (sch.name, e.suffix)
    def f(t):
        parts = re.split(r"(?m)^(?=\[ccpp-)", t)
        k = [i for i, x in enumerate(parts) if re.search(r"(?mi)^\s*name\s*=\s*%s\s*$" % re.escape(name), x)
             and x.startswith("[ccpp-arg-table]")]
        if len(k) != 1:
            return t
        parts.insert(k[0] + 1, parts[k[0]] if parts[k[0]].endswith("\n") else parts[k[0]] + "\n")
        return "".join(parts)
    edit(w, sch.file + ".meta", f)
    return "entry %s has two argument tables" % name


@mut(1)
def duplicate_host_file(w, r):
    m = r.choice(w.modules)
    for ext in (".meta", ".F90"):
        _extra(w, "again_" + m + ext, lambda files, ext=ext: files[m + ext])
    w.extra_host.append("again_" + m + ".meta")
    return "host module %s is defined in two files" % m


@mut(1)
def unknown_type(w, r):
    """a host variable of a derived type nobody defines"""
    if not w.ddts:
        return None
    name = r.choice(w.ddts).name
    fn = r.choice([x for x in w.host_meta()])
    def f(t):
        vs = re.split(r"(?m)^(?=\[)", t)
        for i, x in enumerate(vs):
            if not x.startswith("[ccpp-") and re.search(r"(?mi)^\s*type\s*=\s*%s\s*$" % re.escape(name), x):
                vs[i] = re.sub(r"(?mi)^(\s*type\s*=\s*)%s\s*$" % re.escape(name), r"\1%sx" % name, x)
                return "".join(vs)
        return t
    edit(w, fn, f)
    return "a host variable in %s has the undefined type %sx" % (fn, name)


@mut(1)
def no_error_variable(w, r):
    std = r.choice(["ccpp_error_message", "ccpp_error_code"])
    def f(t):
        vs = re.split(r"(?m)^(?=\[)", t)
        return "".join(x for x in vs if not re.search(r"(?m)^\s*standard_name\s*=\s*%s\s*$" % std, x))
    edit(w, w.host + ".meta", f)
    return "the host does not provide %s" % std


@mut(1)
def duplicate_loop_variable(w, r):
    """a second host argument with the same standard name"""
    std = r.choice(["horizontal_loop_begin", "horizontal_loop_end"])
    def f(t):
        vs = re.split(r"(?m)^(?=\[)", t)
        for i, x in enumerate(vs):
            if re.search(r"(?m)^\s*standard_name\s*=\s*%s\s*$" % std, x):
                vs.append(re.sub(r"^\[\s*(\w+)\s*\]", r"[ \1_too ]", x if x.endswith("\n") else x + "\n"))
                if not vs[-2].endswith("\n"):
                    vs[-2] += "\n"
                return "".join(vs)
        return t
    edit(w, w.host + ".meta", f)
    return "the host has two variables for %s" % std


@mut(1)
def loop_variable_elsewhere(w, r):
    """loop bounds exist in the run phase only"""
    es = [x for x in used_entries(w) if x[2] != "run"]
    if not es:
        return None
    s, sch, ph, e = r.choice(es)
    std = r.choice(["horizontal_loop_begin", "horizontal_loop_end", "horizontal_loop_extent"])
    a = Obj(std=std, local="zz_lp", type="integer", kind="", dims=[], units="count", intent="in", optional=False,
            top=False, src=None, special=None, explicit=False)
    e.args.append(a)
    return "%s asks for %s outside of the run phase" % (where(sch, ph, a), std)


@mut(1)
def loop_dimension_elsewhere(w, r):
    for s, sch, ph, e, a in host_args(w, r, lambda a, ph: ph != "run" and a.dims and a.dims[0] == HDIM and not a.explicit
                                      and len(a.dims) == len(a.src.dims), inter=False):     # within a vertical loop it is taken
        a.dims = [HEXT] + list(a.dims[1:])
        return "%s has the loop extent outside of the run phase" % where(sch, ph, a)
    return None


@mut(1)
def process_split(w, r):
    s = r.choice(w.suites)
    edit(w, sdf(w, s), lambda t: t.replace("<scheme>", "<process_split><scheme>", 1).replace("</scheme>", "</scheme></process_split>", 1))
    return "suite %s uses the unsupported process_split element" % s.name


# ---- edits that leave the inputs consistent
KEEP = []


def keep(f):
    KEEP.append((f.__name__, f, 1))
    return f


@keep
def unused_scheme(w, r):
    """a scheme in no suite may require anything"""
    ents = {}
    for ph in r.sample(PHASES, 2):
        a = new_arg(w, r, ph, r.choice(["in", "inout", "out"]))
        ents[ph] = Obj(suffix=ph, args=[a])
    n = "unused_one"
    s = Obj(name=n, module=n, entries=ents, order=list(ents), file=n)
    pos = r.randrange(len(w.schemes) + 1)
    w.schemes.insert(pos, s)
    w.scheme[n] = s
    w.process[n] = None
    return "scheme %s of no suite requires unknown data" % n


@keep
def unused_host_variable(w, r):
    hv = w._hvar(len(w.hvars) + 1)
    hv.protected = r.random() < 0.5 and hv.cond is None
    w.hvars.append(hv)
    return "unused host variable %s" % hv.std


@keep
def default_value(w, r):
    s, sch, ph, e = r.choice([x for x in used_entries(w) if x[2] != "register"] or used_entries(w))
    a = new_arg(w, r, ph, "in", type="real", dims=[], kind="kind_sp")
    a.default = "1.5_kind_sp"
    e.args.append(a)
    return "%s has a default value" % where(sch, ph, a)


@keep
def produced_output(w, r):
    s, sch, ph, e = r.choice([x for x in used_entries(w) if x[2] != "register"] or used_entries(w))
    if ph == "register":
        return None
    a = new_arg(w, r, ph, "out", type="real")
    e.args.append(a)
    return "%s is an output nobody reads" % where(sch, ph, a)


@keep
def protected_read(w, r):
    for s, sch, ph, e, a in host_args(w, r, lambda a, ph: a.src.elem_of is None and a.src.cond is None and not a.src.has_elem, inter=False):
        for x in w.schemes:
            for e2 in x.entries.values():
                for b in e2.args:
                    if b.src is a.src:
                        b.intent = "in"
        a.src.protected = True
        return "host variable %s is protected and only read" % a.std
    return None


@keep
def convertible_units(w, r):
    for s, sch, ph, e, a in host_args(w, r, lambda a, ph: a.type == "real" and not sliced(a) and U.family_of(a.src.units)
                                      and U.partners(U.family_of(a.src.units), a.src.units), inter=False):
        a.units = r.choice(U.partners(U.family_of(a.src.units), a.src.units))
        return "%s has units %s, its provider %s" % (where(sch, ph, a), a.units, a.src.units)
    return None


@keep
def other_real_kind(w, r):
    for s, sch, ph, e, a in host_args(w, r, lambda a, ph: a.type == "real" and not sliced(a), inter=False):
        a.kind = "kind_sp" if a.src.kind == "kind_phys" else "kind_phys"
        return "%s has kind %s, its provider %s" % (where(sch, ph, a), a.kind, a.src.kind)
    return None


@keep
def optional_everywhere(w, r):
    for s, sch, ph, e, a in host_args(w, r, lambda a, ph: not a.optional, inter=False):
        a.optional = True
        return "%s is optional, the host always provides it" % where(sch, ph, a)
    return None


@keep
def sdf_comments(w, r):
    s = r.choice(w.suites)
    k = r.random()
    def f(t):
        if k < 0.4:
            return t.replace("<scheme>", "<!-- <scheme>nosuch</scheme> & < -->\n<scheme>", 1)
        if k < 0.7:
            return t.replace("</group>", "<!-- </group> -->\n</group>", 1)
        head, rest = t.split("\n", 1)
        return head + "\n" + rest.replace(">\n", "\n >\n\n\t")
    edit(w, sdf(w, s), f)
    return "suite file of %s written in another layout" % s.name


@keep
def more_schemes_attrs(w, r):
    s = r.choice(w.suites)
    edit(w, sdf(w, s), lambda t: t.replace("<scheme>", '<scheme lib="mylib" version="2.1">', 1))
    return "scheme element with lib and version"


# ---- conflicts around constituents: the texts of a constworld.CWorld are edited
CMUT = []


def cmut(f):
    CMUT.append((f.__name__, f, 1))
    return f


def _vars(files, want, phases=None):
    """(file, table, standard name, span) of the scheme variables"""
    out = []
    for fn in sorted(files):
        if not fn.endswith(".meta"):
            continue
        t, table = files[fn], None
        heads = [m for m in re.finditer(r"(?m)^\[[^\n]*\n", t)] + [None]
        for m, m2 in zip(heads, heads[1:]):
            b = t[m.start():m2.start() if m2 else len(t)]
            if m.group(0).startswith("[ccpp-"):
                n = re.search(r"(?m)^\s*name\s*=\s*(\S+)", b)
                table = (n.group(1), "scheme" in b)
                continue
            n = re.search(r"standard_name = (\S+)", b)
            if n and table and table[1] and want(n.group(1), b):
                out.append((fn, table[0], n.group(1), m.start(), m.start() + len(b)))
    return out


def _sub(files, hits, f):
    """apply f to the blocks; False when nothing changes"""
    any_ = False
    for fn, tb, std, a, b in sorted(hits, key=lambda x: (x[0], -x[3])):
        new = f(files[fn][a:b])
        any_ |= new != files[fn][a:b]
        files[fn] = files[fn][:a] + new + files[fn][b:]
    return any_


def _in_suites(w, hits):
    used = {i for n, groups in w.suites for g, items in groups for i in items}
    return [h for h in hits if any(re.match(re.escape(u) + r"_(register|init|timestep_init|run|timestep_final|final)$", h[1]) for u in used)]


def _const(n, b):
    return re.search(r"(?mi)^\s*(advected|constituent) = (True|\.true\.)", b)


@cmut
def tendency_without_state(files, w, r):
    h = _in_suites(w, _vars(files, lambda n, b: n.startswith("tendency_of_")))
    if not h:
        return None
    std = r.choice(h)[2]
    h = [x for x in h if x[2] == std]
    _sub(files, h, lambda b: b.replace("tendency_of_", "tendency_of_other_"))
    return "%s has no constituent" % std.replace("tendency_of_", "tendency_of_other_")


@cmut
def tendency_units(files, w, r):
    h = _in_suites(w, _vars(files, lambda n, b: n.startswith("tendency_of_")))
    if not h:
        return None
    std = r.choice(h)[2]
    u = r.choice(["K s-1", "W m-2", "none", "kg m-2"])
    _sub(files, [x for x in _vars(files, lambda n, b: n == std)], lambda b: re.sub(r"(?m)(units = ).*$", r"\g<1>" + u, b, count=1))
    return "%s has units %s" % (std, u)


@cmut
def constituent_dimensions(files, w, r):
    h = _in_suites(w, _vars(files, lambda n, b: _const(n, b) and not n.startswith("tendency_of_")))
    if not h:
        return None
    std = r.choice(h)[2]
    k = r.choice(["interface", "surface", "transposed", "column", "three"])
    def f(b):
        m = re.search(r"dimensions = \((\w+), (\w+)\)", b)
        if not m:
            return b
        hd, vd = m.groups()
        new = {"interface": hd + ", vertical_interface_dimension", "surface": hd, "column": vd,
               "transposed": vd + ", " + hd, "three": "%s, %s, number_of_ccpp_constituents" % (hd, vd)}[k]
        return b.replace(m.group(0), "dimensions = (%s)" % new)
    if not _sub(files, _vars(files, lambda n, b: n == std), f):
        return None
    return "constituent %s has unsupported dimensions (%s)" % (std, k)


@cmut
def properties_outside_register(files, w, r):
    used = {i for n, groups in w.suites for g, items in groups for i in items}
    c = [s for s in w.schemes if "register" in s["entries"] and s["name"] in used]
    if not c:
        return None
    s = r.choice(c)
    n = s["name"]
    ph = r.choice([x for x in ("init", "timestep_init", "run", "timestep_final", "final") if x not in s["entries"]] or [None])
    if ph is None:
        return None
    for ext in (".meta", ".F90"):
        files[n + ext] = re.sub(r"(\b|(?<=arg_table_))%s_register\b" % re.escape(n), "%s_%s" % (n, ph), files[n + ext])
    return "%s_%s returns constituent properties" % (n, ph)


@cmut
def constituent_units_differ(files, w, r):
    """two uses of a constituent which cannot be converted into each other"""
    h = _in_suites(w, _vars(files, lambda n, b: _const(n, b) and not n.startswith("tendency_of_")))
    by = {}
    for s in w.suites:
        names = {i for g, items in s[1] for i in items}
        for x in h:
            if any(re.match(re.escape(u) + r"_(init|timestep_init|run|timestep_final|final)$", x[1]) for u in names):
                by.setdefault((s[0], x[2]), []).append(x)
    c = [k for k in sorted(by) if len(by[k]) > 1]
    if not c:
        return None
    k = r.choice(c)
    _sub(files, [r.choice(by[k])], lambda b: re.sub(r"(?m)(units = ).*$", r"\g<1>K", b, count=1))
    return "constituent %s of suite %s has units K for one scheme" % (k[1], k[0])
