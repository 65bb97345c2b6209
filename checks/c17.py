"""Constituent properties and the model constituents object: operation scripts
run by the real Fortran module under AddressSanitizer, UBSan and gfortran's
checks; every logged result is compared with a reference model."""
from vf import core
from vf.core import Check, Violation, Inconclusive
from vf.fortran import build_driver, run_driver

NP, NM = 40, 3
LAYER, IFACE = "vertical_layer_dimension", "vertical_interface_dimension"
SRC = ["ccpp_hashable.F90", "ccpp_hash_table.F90", "ccpp_constituent_prop_mod.F90"]


def real(v):
    if v is None:
        return "none"
    m, e = ("%.16E" % v).split("E")
    return ("%sE%s%03d" % (m, e[0], int(e[1:]))).rjust(25)


def tf(b):
    return "T" if b else "F"


class Prop:
    """Instantiated properties"""

    def __init__(self, std, long, units, vdim, adv, dflt, mn, mol, wat, mix):
        self.std, self.long, self.units, self.vdim = std, long, units, vdim
        self.adv, self.dflt, self.min = adv == "T", dflt, mn if mn is not None else 0.0
        self.mol, self.water, self.thermo, self.idx = mol, wat == "T", False, -1
        if mix != "-":
            self.cw = mix
        elif "wrt_moist_air_and_condensed_water" in std:
            self.cw = "wet"
        elif "wrt_moist_air" in std:
            self.cw = "moist"
        else:
            self.cw = "dry"
        self.type = "vol" if "volume_mixing_ratio" in std else "num" if "number_concentration" in std else "mass"

    def copy(self):
        o = Prop.__new__(Prop)
        o.__dict__.update(self.__dict__)
        return o

    def eqkey(self):
        return tuple(v for k, v in sorted(self.__dict__.items()) if k != "idx")


def matchkey(p):
    return (p.adv, p.thermo, p.water, p.units) if p else (False, False, False, "")


def text(p, null=False):
    """The line the driver writes for the properties"""
    c = "/0F " if p else "/1T "
    v = p or None
    s = "".join("%s<%s>%s" % (a, getattr(v, b) if v else "", c)
                for a, b in (("std", "std"), ("long", "long"), ("unit", "units"), ("vdim", "vdim")))
    if null:
        s += "kind=FFF"
    else:
        d = v.vdim if v else ""
        s += "kind=" + tf(d == LAYER) + tf(d == IFACE) + tf(d == "")
    s += " index=%d%s" % (v.idx if v else -1, c)
    for k, b in (("adv", v and v.adv), ("therm", v and v.thermo), ("water", v and v.water),
                 ("mass", v and v.type == "mass"), ("vol", v and v.type == "vol"), ("numb", v and v.type == "num"),
                 ("dry", v and v.cw == "dry"), ("moist", v and v.cw == "moist"), ("wet", v and v.cw == "wet"),
                 ("has", v and v.dflt is not None)):
        s += "%s=%s%s" % (k, tf(b), c)
    for k, b in (("min", v.min if v else None), ("mol", v.mol if v else None), ("def", v.dflt if v else None)):
        s += "%s=%s%s" % (k, real(b), c)
    return s


class Model:
    """State of one ccpp_model_constituents_t"""

    def __init__(self):
        self.clear()

    def clear(self):
        self.init = self.locked = self.data = False
        self.tab, self.order = {}, []
        self.nlay = self.nadv = 0
        self.arr = []                                  # per index: list of values, column first
        self.mins = []
        self.nc = self.nl = 0

    def lock_order(self):
        """An admissible order, used when the real one is not known"""
        return sorted(n for n in self.tab if self.tab[n].adv) + sorted(n for n in self.tab if not self.tab[n].adv)

    def sel(self, pat):
        return [i for i, n in enumerate(self.order) if all(
            w == "-" or (w == "T") == b for w, b in zip(pat, (self.tab[n].adv, self.tab[n].thermo, self.tab[n].water)))]


class State:
    def __init__(self):
        self.p = [None] * (NP + 1)
        self.m = [None] + [Model() for _ in range(NM)]


class Reader:
    def __init__(self, lines):
        self.lines, self.pos = lines, 0

    def next(self, op):
        if self.lines is None:
            return None
        if self.pos >= len(self.lines):
            raise Violation("stopped", "no result for operation '%s'" % " ".join(map(str, op)))
        self.pos += 1
        return self.lines[self.pos - 1]


def step(st, op, rd, stats):
    """Apply one operation to the model and compare with the log (rd.lines None: only apply)"""
    name, mode = op[0], op[1]
    a = op[2:]
    stats[name] = stats.get(name, 0) + 1

    def bad(what, msg):
        raise Violation(name + ":" + what, "operation '%s': %s" % (" ".join(map(str, op)), msg))

    def expect(s, what="result"):
        w = rd.next(op)
        if w is not None and w.strip() != s.strip():
            bad(what, "gave\n   %s\nexpected\n   %s" % (w.strip(), s.strip()))

    def status(kind, prefix):
        """kind: ok, err or any"""
        w = rd.next(op)
        if w is None:
            return
        stats["status_" + kind] = stats.get("status_" + kind, 0) + 1
        t = w.split()
        if t[:len(prefix.split())] != prefix.split() or len(t) != len(prefix.split()) + 3:
            bad("result", "gave '%s', expected '%s' and %s" % (w, prefix, kind))
        code, msg = t[-2:]
        if mode == 4:
            if code != "-" and kind != "any" and (code == "0") != (kind == "ok"):
                bad("status", "error code %s, expected %s" % (code, kind))
            return
        if code != "-" and (int(code) < 0 or kind == "ok" and code != "0" or kind == "err" and code == "0"):
            bad("status", "error code %s, expected %s" % (code, kind))
        if msg != "-" and kind == "err" and msg != "T":
            bad("status", "no error message (%s)" % msg)
        if msg == "T" and kind == "ok" and code in ("0", "-"):
            bad("status", "an error message without an error")

    P, M = st.p, st.m
    if name == "inst":
        i, std, long, units, vdim, adv, dflt, mn, mol, wat, mix = a
        if P[i] is not None or mix not in ("-", "wet", "moist", "dry"):
            w = rd.next(op)
            if w is not None and (w.split()[1] in ("0", "-1") or w.split()[2] != "T"):
                bad("status", "gave '%s', expected an error" % w)
            P[i] = None
            return
        P[i] = Prop(std, long.strip("'"), units.strip("'"), vdim.strip("' "), adv, *[None if x == "-" else float(x) for x in (
            dflt, mn, mol)], wat, mix)
        expect("inst 0 F")
    elif name in ("dealloc", "free"):
        P[a[0]] = None
        expect(name)
    elif name == "copy":
        P[a[0]] = P[a[1]].copy()
        expect("copy")
    elif name == "props":
        p = P[a[0]]
        expect("props " + tf(p) + ("/0F " if p else "/1T ") + text(p))
    elif name == "set":
        setprop(P[a[0]], a[1], a[2], lambda k: status(k, "set"))
    elif name == "equiv":
        p, q = P[a[0]], P[a[1]]
        expect("equiv %s %s" % (tf(p and q and p.eqkey() == q.eqkey()), tf(matchkey(p) == matchkey(q))))
    elif name == "null":
        expect("prop " + text(None, True))
        status("err", "null")
    elif name == "minit":
        M[a[0]].clear()
        M[a[0]].init = True
        expect("minit")
    elif name == "mreset":
        M[a[0]].clear()
        expect("mreset")
    elif name == "madd":
        m, p = M[a[0]], P[a[1]]
        if not m.init or m.locked or p is None:
            status("err", "madd")
        elif p.std in m.tab:
            if matchkey(p) == matchkey(m.tab[p.std]):
                status("ok", "madd")
            else:
                status("err", "madd")
        else:
            m.tab[p.std] = p.copy()
            m.tab[p.std].idx = -1
            m.nlay += p.vdim == LAYER
            status("ok", "madd")
    elif name == "mlock":
        m = M[a[0]]
        if m.locked or any(p.vdim != LAYER for p in m.tab.values()):
            status("err", "mlock")
            return
        status("ok", "mlock")
        m.locked = True
        m.nadv = sum(p.adv for p in m.tab.values())
        m.order = None
    elif name == "mprops":
        m = M[a[0]]
        if not m.locked:
            expect("mprops -1")
            return
        if rd.lines is None:
            m.order = m.lock_order()
            return
        expect("mprops %d" % len(m.tab))
        got = [rd.next(op) for _ in m.tab]
        if m.order is None:
            # Learn the order: any permutation with the advected ones first
            m.order = []
            for w in got:
                n = w.split("std<")[1].split(">")[0]
                if n not in m.tab or n in m.order:
                    bad("index", "constituent '%s' at index %d is not registered or listed twice" % (n, len(m.order) + 1))
                m.order.append(n)
                m.tab[n].idx = len(m.order)
                if m.tab[n].adv and len(m.order) > m.nadv:
                    bad("index", "advected constituent '%s' has index %d, %d are advected" % (n, len(m.order), m.nadv))
            stats["locked_tables"] = stats.get("locked_tables", 0) + 1
            stats["constituents"] = stats.get("constituents", 0) + len(got)
        for w, n in zip(got, m.order):
            if w.strip() != ("prop " + text(m.tab[n])).strip():
                bad("properties", "gave\n   %s\nexpected\n   %s" % (w, "prop " + text(m.tab[n])))
    elif name == "mlocked":
        m = M[a[0]]
        status("any" if m.init else "err", "mlocked %s %s %s" % (tf(m.locked and m.data), tf(m.locked), tf(m.data)))
    elif name == "mnum":
        m = M[a[0]]
        n = len(m.sel(a[1:4])) if m.locked else 0
        status("ok" if m.locked else "any" if m.init else "err", "mnum %d" % n)
    elif name == "midx":
        m = M[a[0]]
        if m.locked and a[1] in m.tab:
            status("ok", "midx %d" % m.tab[a[1]].idx)
        else:
            status("any" if m.init else "err", "midx -1")
    elif name == "mmeta":
        m = M[a[0]]
        p = m.tab.get(a[1]) if m.locked else None
        status("ok" if p else "err" if m.locked or not m.init else "any", "mmeta")
        expect("props " + tf(p) + ("/0F " if p else "/1T ") + text(p), "properties")
    elif name == "mpub":
        m = M[a[0]]
        if m.locked:
            expect("mpub %d %d" % (m.nlay, m.nadv))
        else:
            rd.next(op)
    elif name == "mset":
        m = M[a[0]]
        setprop(m.tab[m.order[a[1] - 1]], a[2], a[3], lambda k: status(k, "mset"))
    elif name == "mdata":
        m = M[a[0]]
        if not m.locked or m.data:
            status("err", "mdata")
            return
        m.data, m.nc, m.nl = True, a[1], a[2]
        status("ok", "mdata")
        m.arr = [[m.tab[n].dflt] * (m.nc * m.nl) for n in m.order]
        m.mins = [m.tab[n].min for n in m.order]
    elif name == "marr":
        m = M[a[0]]
        if m.locked and m.data:
            expect("arr %d %d %d" % (m.nc, m.nl, len(m.tab)))
            expect("adv %d %d %d" % (m.nc, m.nl, m.nadv))
            expect("tend %d %d %d %s" % (m.nc, m.nl, len(m.tab), real(0.0)))
            expect("min %d%s" % (len(m.mins), "".join(" " + real(v) for v in m.mins)))
        else:
            expect("arr none")
            expect("adv none")
            expect("tend none")
            expect("min none")
    elif name == "mpoke":
        m = M[a[0]]
        m.arr[a[1] - 1] = [a[2] + 100 * (k + 1) + (j + 1) for k in range(m.nl) for j in range(m.nc)]
        expect("mpoke")
    elif name == "mpeek":
        m = M[a[0]]
        expect("mpeek" + "".join(" " + real(HUGE if v is None else v) for v in m.arr[a[1] - 1]), "data")
    elif name in ("mcopyin", "mcopyout"):
        m = M[a[0]]
        nc, nl, n = a[4:7]
        kind = "ok" if m.data else "any" if m.init else "err"
        buf = [[-7.0] * (nc * nl) for _ in range(n)]
        if m.data:
            for c, i in enumerate(m.sel(a[1:4])):
                if c >= n or nl != m.nl:
                    kind = "err"
                    break
                if name == "mcopyin":
                    buf[c] = m.arr[i]
                else:
                    m.arr[i] = [a[7] + 10000 * (c + 1) + 100 * (k + 1) + (j + 1) for k in range(nl) for j in range(nc)]
        if name == "mcopyin":
            expect("mcopyin" + "".join(" " + real(HUGE if v is None else v) for b in buf for v in b), "data")
        status(kind, name)
    else:
        raise AssertionError(name)


HUGE = 1.7976931348623157e308


def setprop(p, what, v, status):
    if p is None:
        status("err")
        return
    if what == "index":
        if p.idx != -1:
            status("err")
            return
        p.idx = int(v)
    elif what in ("thermo", "water"):
        setattr(p, what, v > 0)
    else:
        setattr(p, {"min": "min", "molar": "mol"}[what], v)
    status("ok")


def script(seed):
    r = core.rng("C17", core.SEED, seed)
    st, rd = State(), Reader(None)
    ops = []
    stats = {}
    base = ["specific_humidity", "cloud_ice_mixing_ratio_wrt_moist_air", "o3_volume_mixing_ratio",
            "rain_mixing_ratio_wrt_moist_air_and_condensed_water", "cloud_droplet_number_concentration", "a",
            "dust_" + "x" * r.choice([3, 60, 180])]
    names = base + ["tracer_%d" % i for i in range(r.choice([2, 10, 40]))]
    unknown = ["not_there", "tracer", "tracer_1_", "SPECIFIC_HUMIDITY_", "index_of_a"]
    pdim = r.choice([0, 0, 0, 0.06])
    values = [0.0, 1.0, -2.5, 1e-30, 3.25e20, 0.001]

    def do(*op):
        ops.append(op)
        step(st, op, rd, stats)

    def rmode():
        return r.choice([1, 1, 1, 2, 3, 4])

    def inst(i):
        std = r.choice(names)
        bad = r.random() < 0.04
        do("inst", 1, i, std, "'%s'" % r.choice(["long name", "a much longer name of " + std[:100], "x"]),
           r.choice(["'kg kg-1'", "'kg kg-1'", "'kg kg-1'", "'mol mol-1'", "1"]),
           LAYER if r.random() >= pdim else r.choice([IFACE, "' '", "vertical_layer_dimension_of_soil"]),
           r.choice("TF-"), r.choice(["-", "-", "0.0", "1.5", "-3.0e-5"]), r.choice(["-", "0.0", "1.0e-12", "-4.0"]),
           r.choice(["-", "18.02", "0.5"]), r.choice("TF-"),
           r.choice(["frozen", "Wet", "wett"]) if bad else r.choice(["-", "-", "wet", "moist", "dry"]))

    def setup(m):
        """Bring an object to use"""
        want = r.randrange(0, 14)
        do("minit", 1, m, r.choice([0, 1, want, 2 * want, 40]))
        for _ in range(want):
            i = r.randrange(1, NP + 1)
            if st.p[i] is None:
                inst(i)
            do("madd", rmode(), m, i)
        if r.random() < 0.9:
            do("mlock", rmode(), m)
            do("mprops", 1, m)
            if st.m[m].locked and r.random() < 0.9:
                do("mdata", rmode(), m, r.choice([1, 2, 3]), r.choice([1, 2, 4]))

    nops = r.choice([30, 120, 250])
    while len(ops) < nops:
        x = r.random()
        i, j, m = r.randrange(1, NP + 1), r.randrange(1, NP + 1), r.randrange(1, NM + 1)
        mo = st.m[m]
        pat = [r.choice("TF---") for _ in range(3)]
        if x < 0.03:
            do(r.choice(["dealloc", "free"]), 1, i)
        elif x < 0.09:
            if st.p[i] is None:
                inst(i)
            elif r.random() < 0.2:
                inst(i)
                do("dealloc", 1, i)
        elif x < 0.14:
            do("props", 1, i)
        elif x < 0.20:
            do("set", rmode(), i, r.choice(["thermo", "water", "min", "molar", "index"]), r.choice([0.0, 1.0, 7.0]))
        elif x < 0.23:
            if i != j and st.p[j] is not None:
                do("copy", 1, i, j)
                if r.random() < 0.5:
                    do("set", 1, i, r.choice(["thermo", "water", "min", "molar"]), r.choice([0.0, 1.0, 7.0]))
        elif x < 0.26:
            do("equiv", rmode(), i, j)
        elif x < 0.265:
            do("null", rmode(), r.choice(["thermo", "water", "min", "molar", "index"]), 1.0)
        elif x < 0.31:
            if r.random() < 0.4 or not mo.init:
                setup(m)
        elif x < 0.33:
            do("mreset", 1, m)
        elif x < 0.40:
            do("madd", rmode(), m, i)
        elif x < 0.44:
            if mo.init:
                do("mlock", rmode(), m)
                do("mprops", 1, m)
        elif x < 0.48:
            do("mdata", rmode(), m, r.choice([1, 2, 3]), r.choice([1, 2, 4]))
        elif x < 0.50:
            do("mprops", 1, m)
        elif x < 0.52:
            do("mlocked", rmode(), m)
        elif x < 0.56:
            do("mnum", rmode(), m, *pat)
        elif x < 0.62:
            do("midx", rmode(), m, r.choice(names if r.random() < 0.8 else unknown))
        elif x < 0.66:
            do("mmeta", rmode(), m, r.choice(names if r.random() < 0.8 else unknown))
        elif x < 0.67:
            do("mpub", 1, m)
        elif x < 0.71:
            if mo.locked and mo.tab:
                do("mset", rmode(), m, r.randrange(1, len(mo.tab) + 1),
                   r.choice(["thermo", "water", "min", "molar", "index"]), r.choice([0.0, 1.0, 3.0]))
                if r.random() < 0.5:
                    do("mprops", 1, m)
        elif x < 0.75:
            do("marr", 1, m)
        elif x < 0.86:
            if mo.data and mo.tab:
                if r.random() < 0.5:
                    viaadv = mo.nadv > 0 and r.random() < 0.4
                    do("mpoke", 1, m, r.randrange(1, (mo.nadv if viaadv else len(mo.tab)) + 1), r.choice(values[:3]), int(viaadv))
                do("mpeek", 1, m, r.randrange(1, len(mo.tab) + 1))
        else:
            nc, nl = (mo.nc, mo.nl) if mo.data else (2, 2)
            n = len(mo.tab)
            if r.random() < 0.15:
                nl = nl + r.choice([1, -1])
            n = max(0, n + r.choice([0, 0, 0, 1, -1, -3]))
            if r.random() < 0.5:
                do("mcopyin", rmode(), m, *pat, nc, nl, n)
            else:
                do("mcopyout", rmode(), m, *pat, nc, nl, n, r.choice([0.0, 0.5, -3.0]))
                if mo.data and mo.tab:
                    for i in range(1, len(mo.tab) + 1):
                        do("mpeek", 1, m, i)
    return ops


def one(item):
    exe, d, seed = item
    ops = script(seed)
    p, out = run_driver(exe, d, "k%d" % seed, [" ".join(map(str, o)) for o in ops])
    stats = {}
    try:
        st, rd = State(), Reader(out)
        for o in ops:
            step(st, o, rd, stats)
        if p.rc or rd.next(("end",)) != "end":
            raise Violation("crash", "exit %s: %s" % (p.rc, p.text()[-1500:]))
        return None, stats, ops
    except Violation as v:
        if p.rc:
            v = Violation("crash", "%s; exit %s: %s" % (v.msg, p.rc, p.text()[-1500:]))
        return (v.key, v.msg), stats, ops


def main():
    chk = Check("C17", "a case is one random operation script on 40 constituent property objects and 3 model constituents "
                "objects executed by the real modules compiled with AddressSanitizer, UBSan and gfortran's checks; every "
                "result is compared with a reference model, the index order is learned once per locked table and checked "
                "to be a permutation with the advected ones first; non-trivial when a table was locked and its data used",
                assumptions=["the memory of properties handed to new_field may be released by the caller afterwards"])
    root = core.scratch_root()
    try:
        exe = build_driver(root, "const_driver.F90", SRC)
        n = 700 if core.QUICK else 15000
        for s, it, r in core.pmap(one, ((exe, root, i) for i in range(n)), 60 if core.QUICK else 700):
            if s == "error":
                raise Inconclusive(r)
            bad, stats, ops = r
            for k, v in stats.items():
                chk.count(k, v)
            chk.case("|".join(" ".join(map(str, o)) for o in ops)[:400] if stats.get("locked_tables") and stats.get("mpeek") else None)
            chk.sample([" ".join(map(str, o)) for o in ops[:12]], 2)
            if bad:
                chk.violation(bad[0], bad[1], dict(kind="script", ops=ops))
    finally:
        core.rmtree(root)
    chk.finish(min_evals=100, require=["locked_tables", "status_err", "mcopyin", "mcopyout", "mpeek", "midx"])
