"""Random worlds around host-level constituents: host constituents, constituents
declared in scheme metadata, constituents registered at run time, and the
interfaces capgen writes for them."""
import os, re
import numpy as np
from . import core, caprun, fbuild
from .core import Violation, Inconclusive

HD, HL, VL, NC = "horizontal_dimension", "horizontal_loop_extent", "vertical_layer_dimension", "number_of_ccpp_constituents"
PH = ["register", "init", "timestep_init", "run", "timestep_final", "final"]
HOSTPH = {"register": "register", "init": "initialize", "timestep_init": "timestep_initial", "run": "run",
          "timestep_final": "timestep_final", "final": "finalize"}
UNITS = ["kg kg-1", "g kg-1", "m-3", "mol mol-1"]
# procedures are recursive by default in Fortran 2018, the finalizer of the hash table relies on it
RECUR = ("-fcheck=no-recursion",)
CLOG = """module clog
  use ccpp_kinds, only: kind_phys
  use ccpp_constituent_prop_mod, only: ccpp_constituent_properties_t, ccpp_constituent_prop_ptr_t
  implicit none
  public
  integer :: u = 11
  integer :: seq = 0
  integer :: cycle_no = 0
contains
  subroutine enter(n)
    character(len=*), intent(in) :: n
    seq = seq + 1
    write(u, '(a,i0,1x,a)') 'E ', seq, n
    flush(u)
  end subroutine
  subroutine lr(n, lo, v)
    character(len=*), intent(in) :: n
    integer, intent(in) :: lo(:)
    real(kind_phys), intent(in) :: v(:)
    write(u, '(3a,*(1x,i0))') 'A ', n, ' :', lo
    write(u, '(*(es26.17e3))') v
    flush(u)
  end subroutine
  subroutine l3(n, x)
    character(len=*), intent(in) :: n
    real(kind_phys), intent(in) :: x(:,:,:)
    call lr(n, shape(x), reshape(x, (/ size(x) /)))
  end subroutine
  subroutine l2(n, x)
    character(len=*), intent(in) :: n
    real(kind_phys), intent(in) :: x(:,:)
    call lr(n, shape(x), reshape(x, (/ size(x) /)))
  end subroutine
  subroutine l1(n, x)
    character(len=*), intent(in) :: n
    real(kind_phys), intent(in) :: x(:)
    call lr(n, shape(x), x)
  end subroutine
  subroutine l0(n, x)
    character(len=*), intent(in) :: n
    integer, intent(in) :: x
    write(u, '(3a,i0)') 'I ', n, ' ', x
  end subroutine
  subroutine w3(x, k, keep)
    real(kind_phys), intent(inout) :: x(:,:,:)
    integer, intent(in) :: k
    real(kind_phys), intent(in) :: keep
    integer :: i, j, l
    do l = 1, size(x, 3)
      do j = 1, size(x, 2)
        do i = 1, size(x, 1)
          if (keep == 0) x(i,j,l) = 0
          x(i,j,l) = keep*x(i,j,l) + real(mod(seq*8, 1024) + k + i*64 + l*512, kind_phys) + j*0.25_kind_phys
        end do
      end do
    end do
  end subroutine
  subroutine w2(x, k, keep)
    real(kind_phys), intent(inout) :: x(:,:)
    integer, intent(in) :: k
    real(kind_phys), intent(in) :: keep
    integer :: i, j
    do j = 1, size(x, 2)
      do i = 1, size(x, 1)
        if (keep == 0) x(i,j) = 0
        x(i,j) = keep*x(i,j) + real(mod(seq*8, 1024) + k + i*64 + 512, kind_phys) + j*0.25_kind_phys
      end do
    end do
  end subroutine
  subroutine names(n, p)
    character(len=*), intent(in) :: n
    type(ccpp_constituent_prop_ptr_t), intent(in) :: p(:)
    character(len=256) :: s
    integer :: i, e
    character(len=512) :: m
    write(u, '(3a,i0)') 'N ', n, ' ', size(p)
    do i = 1, size(p)
      call p(i)%standard_name(s, e, m)
      write(u, '(i0,1x,a)') e, trim(s)
    end do
    flush(u)
  end subroutine
  subroutine props(p)
    type(ccpp_constituent_prop_ptr_t), intent(in) :: p(:)
    character(len=512) :: s, l, un, v, m
    logical :: a, t, w, ma, dr, mo, we, hd
    real(kind_phys) :: mn, mm, df
    integer :: i, e(14), x
    write(u, '(a,i0)') 'P ', size(p)
    do i = 1, size(p)
      call p(i)%standard_name(s, e(1), m)
      call p(i)%long_name(l, e(2), m)
      call p(i)%units(un, e(3), m)
      call p(i)%vertical_dimension(v, e(4), m)
      call p(i)%is_advected(a, e(5), m)
      call p(i)%is_thermo_active(t, e(6), m)
      call p(i)%is_water_species(w, e(7), m)
      call p(i)%is_mass_mixing_ratio(ma, e(8), m)
      call p(i)%is_dry(dr, e(9), m)
      call p(i)%is_moist(mo, e(10), m)
      call p(i)%is_wet(we, e(11), m)
      call p(i)%minimum(mn, e(12), m)
      call p(i)%molar_mass(mm, e(13), m)
      call p(i)%has_default(hd, e(14), m)
      df = 0
      if (hd) call p(i)%default_value(df, x, m)
      write(u, '(9a,8l1,1x,i0,3es26.17e3)') trim(s), '|', trim(l), '|', trim(un), '|', trim(v), '|', '', a, t, w, ma, dr, mo, we, &
           hd, sum(abs(e)), mn, mm, df
    end do
    flush(u)
  end subroutine
end module clog
"""


class Const:
    """A definition of a constituent"""

    def __init__(self, r, std, static=False):
        self.std, self.units = std, r.choice(UNITS)
        self.long = r.choice(["", "Long name", "a, b (c)", "Long name of %s" % std])
        self.adv = r.random() < 0.5
        self.default = None if r.random() < 0.4 else r.choice([0.0, 1.0, -2.5, 1e-3, 3e5])
        self.min = self.mol = self.water = self.mix = None
        self.static = static
        if not static:
            if r.random() < 0.4:
                self.min = r.choice([0.0, 1e-12, -3.0])
            if r.random() < 0.4:
                self.mol = r.choice([18.016, 2000.0])
            if r.random() < 0.5:
                self.water = r.random() < 0.5
            if r.random() < 0.5:
                self.mix = r.choice(["dry", "moist", "wet"])

    def variant(self, r, compatible):
        c = Const.__new__(Const)
        c.__dict__.update(self.__dict__)
        c.static = False
        if compatible:
            c.long = r.choice([c.long, "another long name"])
            c.default = r.choice([c.default, 7.0])
            c.min = r.choice([None, 0.5])
            c.mol = r.choice([None, 44.0])
            c.water = c.water if c.water else r.choice([None, False])
        else:
            x = r.randrange(3)
            if x == 0:
                c.units = r.choice([q for q in UNITS + ["J kg-1"] if q != c.units])
            elif x == 1:
                c.adv = not c.adv
            else:
                c.water = not c.water
        return c

    def match(self):
        return (self.adv, bool(self.water), self.units)

    def dry(self):
        if self.mix:
            return self.mix
        return "wet" if "wrt_moist_air_and_condensed_water" in self.std else "moist" if "wrt_moist_air" in self.std else "dry"

    def call(self, obj, e, m):
        a = ["std_name='%s'" % self.std, "long_name='%s'" % self.long, "units='%s'" % self.units, "vertical_dim='%s'" % VL]
        a.append("advected=%s" % (".true." if self.adv else ".false."))
        for k, v in (("default_value", self.default), ("min_value", self.min), ("molar_mass", self.mol)):
            if v is not None:
                a.append("%s=%r_kind_phys" % (k, v))
        if self.water is not None:
            a.append("water_species=%s" % (".true." if self.water else ".false."))
        if self.mix:
            a.append("mixing_ratio_type='%s'" % self.mix)
        return "call %s%%instantiate(%s, &\n      errcode=%s, errmsg=%s)" % (obj, ", &\n      ".join(a), e, m)


class Arg:
    def __init__(self, kind, local, intent, const=None, units=None):
        self.kind, self.local, self.intent, self.const, self.units = kind, local, intent, const, units


class CWorld:
    def __init__(self, seed, prof=None, tag="c16"):
        r = self.r = core.rng("constworld", tag, seed)
        p = dict(n_static=(0, 5), n_schemes=(2, 5), n_suites=(1, 3), n_dyn=(0, 3), n_host=(0, 3), p_conflict=0.3, p_overlap=0.3,
                 p_whole=0.4, p_units=0.25, p_tend=0.4, cycles=(1, 3))
        p.update(prof or {})
        self.p = p
        ri = lambda k: r.randint(*p[k])
        self.tag = re.sub(r"\W", "", tag)[:6] + str(seed)
        self.host = "h" + r.choice(["ost", "m_", "Ab"]).lower() + str(seed % 10)
        self.ncol, self.nlev = r.randint(2, 6), r.randint(1, 4)
        self.real = r.choice(["REAL64", "REAL64", "REAL32"])
        self.eps = 1e-12 if self.real == "REAL64" else 1e-5
        self.static = []
        for i in range(ri("n_static")):
            n = r.choice(["cloud_liquid_dry_mixing_ratio", "qx", "rain_number_concentration", "ozone_volume_mixing_ratio",
                          "snow_wrt_moist_air", "hail_wrt_moist_air_and_condensed_water", "a", "dust_%d" % i, "water_vapor"])
            if any(c.std == n for c in self.static):
                n = "%s_%d" % (n, i)
            self.static.append(Const(r, n, True))
        # schemes
        self.schemes = []
        for i in range(ri("n_schemes")):
            name = r.choice(["sch", "cld", "mix_it", "z"]) + "_%s%d" % (r.choice(["a", "bc", "liq"]), i)
            self.schemes.append(self.scheme(name, i))
        # suites
        self.suites = []
        for i in range(ri("n_suites")):
            groups = []
            for g in range(r.randint(1, 2)):
                groups.append(("grp_%s%d" % (r.choice(["a", "x"]), g),
                               [r.choice(self.schemes)["name"] for _ in range(r.randint(1, 3))]))
            self.suites.append((r.choice(["suite", "s", "phys"]) + "_%d" % i, groups))
        self.byname = {s["name"]: s for s in self.schemes}
        self.fix_tendencies()
        self.fix_units()
        self.order = [s["name"] for s in self.schemes]
        r.shuffle(self.order)
        self.plan()

    # -- library
    def scheme(self, name, i):
        r, p = self.r, self.p
        s = dict(name=name, entries={}, dyn=[])
        phases = [ph for ph in PH[1:] if r.random() < (0.85 if ph == "run" else 0.45)]
        nd = r.randint(*p["n_dyn"]) if r.random() < 0.55 else None
        if nd is not None:
            # definitions by cycle: what is registered may change when the interfaces are set up again
            base = []
            for k in range(nd):
                x = r.random()
                if x < p["p_overlap"] and self.static:
                    base.append(r.choice(self.static).variant(r, True))
                else:
                    base.append(Const(r, "dyn_%d_%d%s" % (i, k, r.choice(["", "_wrt_moist_air", "_number_concentration"]))))
            s["dyn"] = base
            s["dyn_extra"] = Const(r, "extra_dyn_%d" % i) if r.random() < 0.4 else None
            s["entries"]["register"] = []
        if not phases:
            phases = ["run"]
        for ph in phases:
            args, used = [], set()
            loc = lambda: self.local(used)
            whole = r.random() < p["p_whole"]
            if whole:
                if r.random() < 0.8:
                    args.append(Arg("whole", loc(), r.choice(["in", "inout"])))
                if r.random() < 0.6:
                    args.append(Arg("wtend", loc(), r.choice(["in", "inout"])))
            else:
                for c in r.sample(self.static, r.randint(0, min(3, len(self.static)))):
                    it = r.choice(["in", "inout", "inout"] + (["out"] if ph == "init" else []))
                    args.append(Arg("const", loc(), it, c, c.units))
                for c in r.sample(self.static, r.randint(0, min(2, len(self.static)))):
                    if r.random() < p["p_tend"]:
                        args.append(Arg("tend", loc(), r.choice(["in", "inout"]), c, None))
            if r.random() < 0.3:
                args.append(Arg("num", loc(), "in"))
            if r.random() < 0.2:
                args.append(Arg("nadv", loc(), "in"))
            if r.random() < 0.25:
                args.append(Arg("props", loc(), "in"))
            if r.random() < 0.2:
                args.append(Arg("mins", loc(), "in"))
            if r.random() < 0.5:
                args.append(Arg("temp", loc(), r.choice(["in", "inout"])))
            r.shuffle(args)
            s["entries"][ph] = args
        return s

    def local(self, used):
        r = self.r
        for _ in range(100):
            n = r.choice(["q", "Const", "x1", "tend", "cld_liq_array", "qarr", "TEMP", "var", "c"]) + r.choice(["", "_a", "2", "3", "_b"])
            if n.lower() not in used:
                used.add(n.lower())
                return n
        raise Inconclusive("no local name")

    def used_in(self, suite):
        """static constituents of a suite in no particular order"""
        out = {}
        for g, items in suite[1]:
            for n in items:
                for ph, args in self.byname[n]["entries"].items():
                    for a in args:
                        if a.kind == "const":
                            out[a.const.std] = a.const
        return out

    def fix_tendencies(self):
        """a tendency needs its state variable in one of the suites"""
        have = {}
        for s in self.suites:
            have.update(self.used_in(s))
        self.declared = have
        for s in self.schemes:
            for ph in s["entries"]:
                s["entries"][ph] = [a for a in s["entries"][ph] if a.kind != "tend" or a.const.std in have]

    def fix_units(self):
        """some schemes use a constituent in other units than others of the one suite using it"""
        r = self.r
        tend = {a.const.std for s in self.schemes for ar in s["entries"].values() for a in ar if a.kind == "tend"}
        self.mixed = {}
        dyn = {c.std for s in self.schemes for c in s["dyn"]}
        for c in self.static:
            suites = [s for s in self.suites if c.std in self.used_in(s)]
            if c.units not in ("kg kg-1", "g kg-1") or c.std in tend or c.std in dyn or len(suites) != 1 or r.random() > self.p["p_units"]:
                continue
            for s in self.schemes:
                for ar in s["entries"].values():
                    for a in ar:
                        if a.kind == "const" and a.const is c and r.random() < 0.5:
                            a.units = "g kg-1" if a.units == "kg kg-1" else "kg kg-1"
            self.mixed[c.std] = {a.units for g, items in suites[0][1] for n in items for ar in self.byname[n]["entries"].values()
                                 for a in ar if a.kind == "const" and a.const is c}

    def dyn_of(self, suite, cyc):
        """definitions a register call of the suite yields"""
        out, seen = [], set()
        for g, items in suite[1]:
            for n in items:
                s = self.byname[n]
                if n in seen or "register" not in s["entries"]:
                    continue
                seen.add(n)
                out += s["dyn"]
                if s["dyn_extra"] is not None and cyc % 2 == 1:
                    out.append(s["dyn_extra"])
        return out

    # -- history
    def plan(self):
        r, p = self.r, self.p
        ops = []
        allnames = lambda: [c.std for c in self.static] + ["no_such_constituent", "temperature"] + [
            c.std for s in self.schemes for c in s["dyn"]]
        for cyc in range(r.randint(*p["cycles"])):
            ops.append(("cycle", cyc))
            for n in r.sample(allnames(), min(2, len(allnames()))):
                ops.append(("isconst", n))
            skip = set()
            for s in self.suites:
                if r.random() < 0.12:
                    skip.add(s[0])
                else:
                    ops.append(("phase", "register", s[0]))
                    if r.random() < 0.15:
                        ops.append(("phase", "register", s[0]))
            defs = [c for s in self.suites if s[0] not in skip for c in self.dyn_of(s, cyc)]
            host = []
            free = [c for c in self.declared.values() if c.std not in self.mixed]
            for k in range(r.randint(*p["n_host"])):
                pool = free + defs + host
                if r.random() < p["p_overlap"] and pool:
                    host.append(r.choice(pool).variant(r, True))
                else:
                    host.append(Const(r, "host_%d%s" % (k, r.choice(["", "_wrt_moist_air", "_volume_mixing_ratio"]))))
            pool = free + defs + host
            if r.random() < p["p_conflict"] and pool:
                bad = list(host)
                bad.insert(r.randrange(len(bad) + 1), r.choice(pool).variant(r, False))
                ops.append(("regconst", bad))
                if r.random() < 0.7:
                    ops.append(("dealloc",))
                    skip = set(s[0] for s in self.suites if r.random() < 0.1)
                    for s in self.suites:
                        if s[0] not in skip:
                            ops.append(("phase", "register", s[0]))
            elif r.random() < 0.2:
                ops.append(("regconst", host))
                if r.random() < 0.5:
                    ops.append(("numconst", None))
            ops.append(("regconst", host))
            for adv in r.sample([None, True, False], r.randint(0, 3)):
                ops.append(("numconst", adv))
            ops.append(("initconst",))
            ops.append(("props",))
            for n in allnames() + [c.std for c in host]:
                ops.append(("getindex", n))
            for n in r.sample(allnames(), 1):
                ops.append(("isconst", n))
            ops.append(("dump",))
            if r.random() < 0.7:
                ops += [("hostwrite",), ("dump",)]
            for s in self.suites:
                ops.append(("phase", "init", s[0]))
            ops.append(("dump",))
            for ts in range(r.randint(1, 2)):
                for s in self.suites:
                    ops.append(("phase", "timestep_init", s[0]))
                if r.random() < 0.5:
                    ops += [r.choice([("hostwrite",), ("advwrite",), ("update",)]), ("dump",)]
                for s in self.suites:
                    for g, items in s[1]:
                        cut = sorted(r.sample(range(1, self.ncol), r.randint(0, min(2, self.ncol - 1))))
                        ch = list(zip([1] + [c + 1 for c in cut], cut + [self.ncol]))
                        r.shuffle(ch)
                        for a, b in ch:
                            ops.append(("run", s[0], g, a, b))
                            if r.random() < 0.3:
                                ops.append(("dump",))
                ops.append(("dump",))
                if r.random() < 0.6:
                    ops += [("gather", 0), ("update",), ("dump",)]
                if r.random() < 0.2:
                    ops.append(("gather", r.choice([1, -1])))
                for s in self.suites:
                    ops.append(("phase", "timestep_final", s[0]))
            for s in self.suites:
                ops.append(("phase", "final", s[0]))
            ops.append(("dump",))
            if r.random() < 0.9:
                ops.append(("dealloc",))
        ops.append(("dealloc",)) if r.random() < 0.5 else None
        self.ops = ops

    # -- files
    def meta(self, m, local, std, typ, kind, units, dims, extra=()):
        r = self.r
        m.append("[ %s ]" % local)
        m.append("  standard_name = %s" % std)
        lines = ["units = %s" % units, "type = %s" % typ + (" | kind = %s" % kind if kind else ""),
                 "dimensions = (%s)" % ", ".join(dims)] + ["%s = %s" % x for x in extra]
        r.shuffle(lines)
        m += ["  " + x for x in lines]

    def files(self):
        self.r = core.rng("constworld-files", self.tag)
        r = self.r
        f = {"clog.F90": CLOG}
        h = self.host
        mod = "%s_mod" % h
        m = ["[ccpp-table-properties]", "  name = %s" % mod, "  type = module", "[ccpp-arg-table]", "  name = %s" % mod, "  type = module"]
        self.meta(m, "ncols", HD, "integer", "", "count", [], [("protected", "True")])
        self.meta(m, "pver", VL, "integer", "", "count", [], [("protected", "True")])
        self.meta(m, "temp_h", "temperature", "real", "kind_phys", "K", [HD, VL])
        f[mod + ".meta"] = "\n".join(m) + "\n"
        f[mod + ".F90"] = """module %s
  use ccpp_kinds, only: kind_phys
  implicit none
  public
  !> \\section arg_table_%s Argument Table
  !! \\htmlinclude arg_table_%s.html
  integer, parameter :: ncols = %d
  integer, parameter :: pver = %d
  real(kind_phys) :: temp_h(ncols, pver) = 1.0_kind_phys
end module %s
""" % (mod, mod, mod, self.ncol, self.nlev, mod)
        m = ["[ccpp-table-properties]", "  name = %s" % h, "  type = host", "[ccpp-arg-table]", "  name = %s" % h, "  type = host"]
        self.meta(m, "col_start", "horizontal_loop_begin", "integer", "", "count", [], [("protected", "True")])
        self.meta(m, "col_end", "horizontal_loop_end", "integer", "", "count", [], [("protected", "True")])
        self.meta(m, "errmsg", "ccpp_error_message", "character", "len=512", "none", [])
        self.meta(m, "errflg", "ccpp_error_code", "integer", "", "1", [])
        f[h + ".meta"] = "\n".join(m) + "\n"
        f[h + ".F90"] = ("module %s_prog\n  implicit none\ncontains\n  !> \\section arg_table_%s  Argument Table\n"
                         "  !! \\htmlinclude arg_table_%s.html\n  !!\n  subroutine %s(x)\n    integer, intent(in) :: x\n"
                         "  end subroutine %s\nend module %s_prog\n" % ((h,) * 6))
        for s in self.schemes:
            self.scheme_files(f, s)
        f["schemes.txt"] = "".join(n + ".meta\n" for n in self.order)
        for n, groups in self.suites:
            x = ['<?xml version="1.0" encoding="UTF-8"?>', '<suite name="%s" version="1.0">' % n]
            for g, items in groups:
                x += ['  <group name="%s">' % g] + ["    <scheme>%s</scheme>" % i for i in items] + ["  </group>"]
            f["suite_%s.xml" % n] = "\n".join(x + ["</suite>"]) + "\n"
        f["vdriver.F90"] = self.driver()
        return f

    def scheme_files(self, f, s):
        r = self.r
        n = s["name"]
        m = ["[ccpp-table-properties]", "  name = %s" % n, "  type = scheme"]
        o = ["module %s" % n, "  use ccpp_kinds, only: kind_phys",
             "  use ccpp_constituent_prop_mod, only: ccpp_constituent_properties_t, ccpp_constituent_prop_ptr_t",
             "  use clog", "  implicit none", "  private"]
        o += ["  public :: %s_%s" % (n, ph) for ph in s["entries"]] + ["contains"]
        phs = list(s["entries"])
        r.shuffle(phs)
        for ph in phs:
            args = s["entries"][ph]
            t = "%s_%s" % (n, ph)
            m += ["[ccpp-arg-table]", "  name = %s" % t, "  type = scheme"]
            decl, body = [], []
            hd = HL if ph == "run" else HD
            names = []
            if ph == "register":
                names.append("dyn")
                self.meta(m, "dyn", "dynamic_constituents_for_%s" % n, "ccpp_constituent_properties_t", "", "none", [":"],
                          [("intent", "out"), ("allocatable", "True")])
                decl.append("type(ccpp_constituent_properties_t), allocatable, intent(out) :: dyn(:)")
                ex = s["dyn_extra"]
                body.append("nd = %d" % len(s["dyn"]))
                if ex is not None:
                    body.append("if (mod(cycle_no, 2) == 1) nd = nd + 1")
                body.append("allocate(dyn(nd))")
                for k, c in enumerate(s["dyn"]):
                    body.append("if (errflg == 0) " + c.call("dyn(%d)" % (k + 1), "errflg", "errmsg"))
                if ex is not None:
                    body += ["if (mod(cycle_no, 2) == 1) then", ex.call("dyn(nd)", "errflg", "errmsg"), "end if"]
                decl.append("integer :: nd")
            for k, a in enumerate(args):
                names.append(a.local)
                nm = "%d" % k
                ex = [("intent", a.intent)]
                if a.kind in ("const", "tend"):
                    c = a.const
                    std = c.std if a.kind == "const" else "tendency_of_" + c.std
                    if a.kind == "const":
                        if c.adv:
                            ex.append(("advected", r.choice(["True", ".true."])))
                        if not c.adv or r.random() < 0.2:
                            ex.append(("constituent", "True"))
                        if c.default is not None:
                            ex.append(("default_value", "%r_kind_phys" % c.default))
                        if c.long:
                            ex.append(("long_name", c.long))
                    else:
                        ex.append(("constituent", "True"))
                    self.meta(m, a.local, std, "real", "kind_phys", a.units if a.kind == "const" else c.units + " s-1", [hd, VL], ex)
                    decl.append("real(kind_phys), intent(%s) :: %s(:,:)" % (a.intent, a.local))
                    if a.intent != "out":
                        body.append("call l2('%s', %s)" % (nm, a.local))
                    if a.intent != "in":
                        body.append("call w2(%s, %d, %s)" % (a.local, k, "0.5_kind_phys" if a.intent == "inout" else "0.0_kind_phys"))
                elif a.kind in ("whole", "wtend"):
                    self.meta(m, a.local, "ccpp_constituents" if a.kind == "whole" else "ccpp_constituent_tendencies", "real",
                              "kind_phys", "none", [hd, VL, NC], ex)
                    decl.append("real(kind_phys), intent(%s) :: %s(:,:,:)" % (a.intent, a.local))
                    body.append("call l3('%s', %s)" % (nm, a.local))
                    if a.intent != "in":
                        body.append("call w3(%s, %d, 0.5_kind_phys)" % (a.local, k))
                elif a.kind in ("num", "nadv"):
                    self.meta(m, a.local, NC if a.kind == "num" else "number_of_ccpp_advected_constituents", "integer", "", "count", [], ex)
                    decl.append("integer, intent(in) :: %s" % a.local)
                    body.append("call l0('%s', %s)" % (nm, a.local))
                elif a.kind == "props":
                    self.meta(m, a.local, "ccpp_constituent_properties", "ccpp_constituent_prop_ptr_t", "", "None", [NC], ex)
                    decl.append("type(ccpp_constituent_prop_ptr_t), intent(in) :: %s(:)" % a.local)
                    body.append("call names('%s', %s)" % (nm, a.local))
                elif a.kind == "mins":
                    self.meta(m, a.local, "ccpp_constituent_minimum_values", "real", "kind_phys", "kg kg-1", [NC], ex)
                    decl.append("real(kind_phys), intent(in) :: %s(:)" % a.local)
                    body.append("call l1('%s', %s)" % (nm, a.local))
                elif a.kind == "temp":
                    self.meta(m, a.local, "temperature", "real", "kind_phys", "K", [hd, VL], ex)
                    decl.append("real(kind_phys), intent(%s) :: %s(:,:)" % (a.intent, a.local))
                    body.append("call l2('%s', %s)" % (nm, a.local))
                    if a.intent != "in":
                        body.append("call w2(%s, %d, 0.5_kind_phys)" % (a.local, k))
            for e in r.sample([0, 1], 2):
                if e:
                    names.append("errmsg")
                    self.meta(m, "errmsg", "ccpp_error_message", "character", "len=512", "none", [], [("intent", "out")])
                else:
                    names.append("errflg")
                    self.meta(m, "errflg", "ccpp_error_code", "integer", "", "1", [], [("intent", "out")])
            decl += ["character(len=512), intent(out) :: errmsg", "integer, intent(out) :: errflg"]
            o += ["  !> \\section arg_table_%s Argument Table" % t, "  !! \\htmlinclude arg_table_%s.html" % t, "  !!",
                  "  subroutine %s(%s)" % (t, ", ".join(names))]
            o += ["    " + x for x in decl] + ["    errmsg = ''", "    errflg = 0", "    call enter('%s')" % t]
            o += ["    " + x for x in body] + ["  end subroutine %s" % t]
        o.append("end module %s" % n)
        f[n + ".F90"] = "\n".join(o) + "\n"
        f[n + ".meta"] = "\n".join(m) + "\n"

    def capgen_args(self, outdir="out", debug=None):
        r = core.rng("constworld-args", self.tag)
        hm = ["%s_mod.meta" % self.host, "%s.meta" % self.host]
        return ["--host-files", ",".join(hm), "--scheme-files", "schemes.txt", "--suites",
                ",".join("suite_%s.xml" % n for n, _ in self.suites), "--host-name", self.host, "--output-root", outdir,
                "--kind-type", "kind_phys=%s" % self.real]

    def driver(self):
        h = self.host
        o = ["program vdriver", "  use clog", "  use ccpp_kinds, only: kind_phys", "  use %s_mod" % h]
        for x in ("ccpp_register_constituents", "ccpp_initialize_constituents", "ccpp_number_constituents", "ccpp_is_scheme_constituent",
                  "ccpp_gather_constituents", "ccpp_update_constituents", "ccpp_deallocate_dynamic_constituents",
                  "constituents_array", "advected_constituents_array", "model_const_properties", "const_get_index"):
            o.append("  use %s_ccpp_cap, only: %s_%s" % (h, h, x))
        for ph in PH:
            o.append("  use %s_ccpp_cap, only: %s_ccpp_physics_%s" % (h, h, HOSTPH[ph]))
        o += ["  implicit none", "  integer :: errflg, i", "  logical :: flag", "  character(len=512) :: errmsg",
              "  real(kind_phys), pointer :: q(:,:,:)", "  real(kind_phys), allocatable :: g(:,:,:)",
              "  type(ccpp_constituent_prop_ptr_t), pointer :: pp(:)",
              "  type(ccpp_constituent_properties_t), allocatable, target :: hc(:)",
              "  open(u, file='vlog.txt', status='replace', recl=1000000)"]
        for k, op in enumerate(self.ops):
            o.append("  call op%d()" % k)
        o += ["  write(u, '(a)') 'END'", "contains",
              "  subroutine st()", "    write(u, '(a,i0,1x,a)') 'S ', errflg, trim(errmsg)", "    flush(u)", "  end subroutine"]
        kw = "errflg=errflg, errmsg=errmsg"
        for k, op in enumerate(self.ops):
            o += ["  subroutine op%d()" % k, "    errflg = -7", "    errmsg = 'unset'", "    write(u, '(a)') 'O %d'" % k, "    flush(u)"]
            w = lambda x: o.append("    " + x)
            t = op[0]
            if t == "cycle":
                w("cycle_no = %d" % op[1])
            elif t == "isconst":
                w("call %s_ccpp_is_scheme_constituent('%s', flag, %s)" % (h, op[1], kw))
                w("call st()")
                w("write(u, '(l1)') flag")
            elif t == "phase":
                w("call %s_ccpp_physics_%s('%s', %s)" % (h, HOSTPH[op[1]], op[2], kw))
                w("call st()")
            elif t == "run":
                w("call %s_ccpp_physics_run('%s', '%s', %d, %d, %s)" % (h, op[1], op[2], op[3], op[4], kw))
                w("call st()")
            elif t == "regconst":
                w("if (allocated(hc)) deallocate(hc)")
                w("allocate(hc(%d))" % len(op[1]))
                for i, c in enumerate(op[1]):
                    w(c.call("hc(%d)" % (i + 1), "errflg", "errmsg"))
                    w("if (errflg /= 0) stop 3")
                w("call %s_ccpp_register_constituents(hc, %s)" % (h, kw))
                w("call st()")
            elif t == "numconst":
                w("call %s_ccpp_number_constituents(i, %s%s)" % (h, kw, "" if op[1] is None else ", advected=.%s." % str(op[1]).lower()))
                w("call st()")
                w("write(u, '(i0)') i")
            elif t == "initconst":
                w("call %s_ccpp_initialize_constituents(ncols, pver, %s)" % (h, kw))
                w("call st()")
            elif t == "getindex":
                w("call %s_const_get_index('%s', i, %s)" % (h, op[1], kw))
                w("call st()")
                w("write(u, '(i0)') i")
            elif t == "props":
                w("pp => %s_model_const_properties()" % h)
                w("call props(pp)")
            elif t == "dump":
                w("q => %s_constituents_array()" % h)
                w("call l3('all', q)")
                w("q => %s_advected_constituents_array()" % h)
                w("call l3('adv', q)")
                w("call l2('temp', temp_h)")
            elif t in ("hostwrite", "advwrite"):
                w("q => %s_%sconstituents_array()" % (h, "advected_" if t == "advwrite" else ""))
                w("seq = seq + 1")
                w("call w3(q, 0, 0.5_kind_phys)")
            elif t == "gather":
                w("q => %s_constituents_array()" % h)
                w("if (allocated(g)) deallocate(g)")
                w("allocate(g(ncols, pver, max(0, size(q, 3)%s)))" % ("%+d" % op[1] if op[1] else ""))
                w("g = -1")
                w("call %s_ccpp_gather_constituents(g, %s)" % (h, kw))
                w("call st()")
                w("call l3('g', g)")
            elif t == "update":
                w("q => %s_constituents_array()" % h)
                w("if (allocated(g)) deallocate(g)")
                w("allocate(g(ncols, pver, size(q, 3)))")
                w("seq = seq + 1")
                w("call w3(g, 1, 0.0_kind_phys)")
                w("call %s_ccpp_update_constituents(g, %s)" % (h, kw))
                w("call st()")
            elif t == "dealloc":
                w("call %s_ccpp_deallocate_dynamic_constituents()" % h)
            o.append("  end subroutine")
        o.append("end program vdriver")
        return "\n".join(o) + "\n"

    def write(self, d):
        os.makedirs(d, exist_ok=True)
        for n, t in self.files().items():
            with open(os.path.join(d, n), "w") as f:
                f.write(t)


# ---------------------------------------------------------------------------
def wrule(shape, seq, k, dtype, old=None):
    """what the writing routines do; rank 2 or 3"""
    s3 = tuple(shape) + (1,) * (3 - len(shape))
    i, j, l = np.meshgrid(*[np.arange(1, n + 1) for n in s3], indexing="ij")
    new = ((seq * 8 % 1024) + k + i * 64 + l * 512).astype(dtype) + (j * dtype(0.25))
    new = new.reshape(shape).astype(dtype)
    return new if old is None else (dtype(0.5) * old + new).astype(dtype)


class Log:
    def __init__(self, text):
        self.l = text.split("\n")
        self.i = 0

    def peek(self):
        return self.l[self.i] if self.i < len(self.l) else ""

    def next(self):
        self.i += 1
        return self.l[self.i - 1] if self.i <= len(self.l) else ""


class Oracle:
    def __init__(self, w, log, stats):
        self.w, self.log, self.stats = w, log, stats
        self.dt = np.float64 if w.real == "REAL64" else np.float32
        self.suites = dict(w.suites)
        self.dyn = {}                          # suite -> definitions of its last registration
        self.cyc = 0
        self.seq = 0
        self.temp = np.ones((w.ncol, w.nlev), self.dt)
        self.reset()

    def reset(self):
        self.locked = self.data = False
        self.table = {}                        # std -> [admissible definitions]
        self.index = None
        self.q = self.t = None

    def count(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def bad(self, key, msg):
        raise Violation(key, "%s (operation %d: %s)" % (msg, self.opno, str(self.op)[:200]))

    def status(self):
        l = self.log.next()
        if not l.startswith("S "):
            self.bad("log", "expected a status, the log has %r" % l)
        x = l[2:].split(" ", 1)
        return int(x[0]), x[1] if len(x) > 1 else ""

    def ok(self, what):
        e, m = self.status()
        if e != 0:
            self.bad("error:" + what, "%s fails: %s" % (what, m))

    def array(self, name=None):
        l = self.log.next().split()
        if len(l) < 3 or l[0] != "A" or (name is not None and l[1] != name):
            self.bad("log", "expected array %s, the log has %s" % (name, l))
        shape = tuple(int(x) for x in l[3:])
        v = [float(x) for x in self.log.next().split()]
        return np.array(v, np.float64).reshape(shape, order="F")

    def same(self, got, want, key, what):
        want = np.asarray(want)
        if got.shape != want.shape:
            self.bad(key + ":shape", "%s has shape %s, expected %s" % (what, got.shape, want.shape))
        self.count("values", got.size)
        tol = self.w.eps * np.maximum(1e-30, np.maximum(np.abs(want), np.abs(got)))
        d = ~(np.abs(got - want.astype(np.float64)) <= tol)
        if d.any():
            x = tuple(int(k[0]) for k in np.nonzero(d))
            self.bad(key, "%s is %r at %s, expected %r" % (what, float(got[x]), tuple(k + 1 for k in x), float(want[x])))

    def declared(self):
        """suite -> {std: [definitions]}"""
        return self.w.declared

    def union(self, host):
        """the table a registration yields, or the name in conflict"""
        tab = {}
        groups = [host] + [self.dyn[s] for s, _ in self.w.suites if s in self.dyn] + [list(self.w.declared.values())]
        clash = set()
        for g in groups:
            for c in g:
                tab.setdefault(c.std, []).append(c)
        for n, cs in tab.items():
            if n in self.w.mixed:
                continue
            if len({c.match() for c in cs}) > 1:
                clash.add(n)
        return tab, clash

    def run(self):
        for k, op in enumerate(self.w.ops):
            self.opno, self.op = k, op
            l = self.log.next()
            if l != "O %d" % k:
                self.bad("log", "expected operation %d, the log has %r" % (k, l))
            getattr(self, "o_" + op[0])(*op[1:])
            self.count("op_" + op[0])

    def o_cycle(self, c):
        self.cyc = c
        if c:
            self.count("set_up_again")

    def o_isconst(self, n):
        self.ok("is_scheme_constituent")
        f = self.log.next().strip() == "T"
        if f != (n in self.w.declared):
            self.bad("isconst", "%s is %sreported as a scheme constituent" % (n, "" if f else "not "))

    def o_dealloc(self):
        self.dyn = {}
        self.reset()

    def o_regconst(self, host):
        self.reset()
        tab, clash = self.union(host)
        e, m = self.status()
        if clash:
            self.count("conflicts")
            if e == 0:
                self.bad("conflict-accepted", "conflicting definitions of %s are accepted" % sorted(clash))
            if not any(n in m for n in clash):
                self.bad("conflict-message", "conflicting definitions of %s give the message %r" % (sorted(clash), m))
            return
        if e:
            self.bad("error:register", "registering the constituents fails: %s" % m)
        self.table, self.locked = tab, True
        self.count("constituents", len(tab))

    def o_numconst(self, adv):
        self.ok("number_constituents")
        n = int(self.log.next())
        want = sum(1 for c in self.table.values() if adv is None or c[0].adv == adv)
        if n != want:
            self.bad("number", "number of constituents (advected=%s) is %d, expected %d" % (adv, n, want))

    def o_initconst(self):
        self.ok("initialize_constituents")
        self.data = True

    def o_props(self):
        l = self.log.next().split()
        n = int(l[1])
        if n != len(self.table):
            self.bad("props-number", "%d properties for %d constituents" % (n, len(self.table)))
        self.names, seen = [], False
        self.used = {}
        for i in range(n):
            l = self.log.next()
            std, lng, un, vd, rest = l.split("|")
            if std not in self.table:
                self.bad("props-name", "property %d has standard name %r, registered are %s" % (i + 1, std, sorted(self.table)))
            if std in self.names:
                self.bad("props-twice", "%s has two sets of properties" % std)
            fl, e, mn, mm, df = rest.split()
            if e != "0":
                self.bad("props-error", "a property query of %s fails" % std)
            self.names.append(std)
            adv = fl[0] == "T"
            if adv and seen:
                self.bad("props-order", "advected %s comes after constituents which are not" % std)
            seen = seen or not adv
            for c in self.table[std]:
                units = self.w.mixed[std] if std in self.w.mixed else {c.units}
                longs = {c.long} if c.long else {"", lng}    # (a default text is written for missing ones)
                dry = c.dry()
                mass = not ("volume_mixing_ratio" in std or "number_concentration" in std)
                want = [c.adv, False, bool(c.water), mass, dry == "dry", dry == "moist", dry == "wet", c.default is not None]
                if (un in units and lng in longs and vd == VL and [x == "T" for x in fl] == want
                        and self.close(mn, c.min or 0.0) and (c.mol is None or self.close(mm, c.mol))
                        and (c.default is None or self.close(df, c.default))):
                    self.used[std] = (c, un, float(df) if c.default is not None else None)
                    break
            else:
                self.bad("props", "properties of %s are %s, declared is %s" % (
                    std, l, "; ".join(str({k: v for k, v in c.__dict__.items()}) for c in self.table[std])))
            self.count("properties")
        self.index = {n: i for i, n in enumerate(self.names)}
        self.q = np.zeros((self.w.ncol, self.w.nlev, n), self.dt)
        self.unset = set()
        for s, i in self.index.items():
            if self.used[s][2] is None:
                self.unset.add(s)
                self.q[:, :, i] = np.nan
            else:
                self.q[:, :, i] = self.used[s][2]
        self.t = np.zeros_like(self.q)

    def close(self, a, b):
        a = float(a)
        return abs(a - b) <= self.w.eps * max(abs(a), abs(b))

    def o_getindex(self, n):
        e, m = self.status()
        i = int(self.log.next())
        if n in self.index:
            if e:
                self.bad("error:getindex", "index of %s: %s" % (n, m))
            if i != self.index[n] + 1:
                self.bad("index", "index of %s is %d, its properties have %d" % (n, i, self.index[n] + 1))
        elif e == 0 and i > 0:
            self.bad("index-unknown", "unknown %s has index %d" % (n, i))
        self.count("indices")

    def adopt(self, got):
        """constituents without a default hold the unassigned value until they are written"""
        for s in list(self.unset):
            i = self.index[s]
            self.q[:, :, i] = got[:, :, i]
            if not (got[:, :, i] == got[0, 0, i]).all():
                self.bad("unset", "values of %s, which nobody has written, differ" % s)
            self.unset.discard(s)

    def o_dump(self):
        got = self.array("all")
        if got.shape == self.q.shape:
            self.adopt(got)
        self.same(got, self.q, "array", "the constituents array")
        na = sum(1 for c in self.table.values() if c[0].adv)
        self.same(self.array("adv"), self.q[:, :, :na], "advected", "the advected constituents array")
        self.same(self.array("temp"), self.temp, "temp", "temperature")

    def o_hostwrite(self):
        self.seq += 1
        self.q = wrule(self.q.shape, self.seq, 0, self.dt, self.q)

    def o_advwrite(self):
        self.seq += 1
        na = sum(1 for c in self.table.values() if c[0].adv)
        if na:
            self.q[:, :, :na] = wrule(self.q.shape[:2] + (na,), self.seq, 0, self.dt, self.q[:, :, :na])

    def o_gather(self, extra):
        e, m = self.status()
        n = self.q.shape[2]
        g = self.array("g")
        if extra < 0 and n:
            if e == 0:
                self.bad("gather-small", "gathering %d constituents into an array for %d gives no error" % (n, max(0, n + extra)))
            return
        if e:
            self.bad("error:gather", "gather fails: %s" % m)
        self.same(g[:, :, :n], self.q, "gather", "gathered constituents")

    def o_update(self):
        e, m = self.status()
        self.seq += 1
        if e:
            self.bad("error:update", "update fails: %s" % m)
        self.q = wrule(self.q.shape, self.seq, 1, self.dt)

    def o_phase(self, ph, suite):
        self.schemes(suite, ph, None, 1, self.w.ncol)
        if ph == "register":
            self.dyn[suite] = self.w.dyn_of((suite, self.suites[suite]), self.cyc)

    def o_run(self, suite, part, a, b):
        self.schemes(suite, "run", part, a, b)

    def schemes(self, suite, ph, part, a, b):
        w = self.w
        if ph == "run":
            want = [n for g, items in self.suites[suite] if g == part for n in items if "run" in w.byname[n]["entries"]]
        else:
            used = {n for g, items in self.suites[suite] for n in items}
            want = [n for n in w.order if n in used and ph in w.byname[n]["entries"]]
        got = []
        while self.log.peek().startswith("E "):
            _, q, name = self.log.next().split()
            self.seq += 1
            n = name[:-len(ph) - 1]
            if not name.endswith("_" + ph) or n not in w.byname or int(q) != self.seq:
                self.bad("log", "unexpected scheme entry %s" % name)
            got.append(n)
            for k, x in enumerate(w.byname[n]["entries"][ph]):
                self.arg(n, ph, k, x, slice(a - 1, b))
            self.count("calls")
        self.ok("physics_" + ph)
        if sorted(got) != sorted(want) or (ph == "run" and got != want):
            self.bad("sequence", "suite %s phase %s runs %s, expected %s" % (suite, ph, got, want))

    def arg(self, n, ph, k, x, cols):
        what = "argument %s (%s%s) of %s_%s" % (x.local, x.kind, " " + x.const.std if x.const else "", n, ph)
        key = "arg-" + x.kind
        self.count(key)
        if x.kind in ("const", "tend", "whole", "wtend", "temp"):
            if x.kind == "temp":
                data = self.temp
            elif x.kind in ("const", "tend"):
                if x.const.std not in self.index:
                    self.bad("log", "no index of %s" % x.const.std)
                data = (self.q if x.kind == "const" else self.t)[:, :, self.index[x.const.std]]
            else:
                data = self.q if x.kind == "whole" else self.t
            f = 1.0
            if x.kind == "const":
                have = self.used[x.const.std][1]
                if have != x.units:
                    f = 1000.0 if x.units == "g kg-1" else 0.001
                    self.count("converted")
            cur = data[cols]
            if x.intent != "out":
                got = self.array(str(k))
                if x.kind == "whole" and got.shape == cur.shape and cols == slice(0, self.w.ncol):
                    self.adopt(got)
                elif x.kind == "const" and x.const.std in self.unset and got.shape == cur.shape:
                    if not np.allclose(got, got[0, 0]):
                        self.bad("unset", "%s, which nobody has written: values differ" % what)
                    self.q[:, :, self.index[x.const.std]] = got[0, 0] / f
                    self.unset.discard(x.const.std)
                elif x.kind == "whole" and got.shape == cur.shape:
                    for s in list(self.unset):
                        self.q[:, :, self.index[s]] = got[0, 0, self.index[s]]
                        self.unset.discard(s)
                cur = data[cols]
                self.same(got, cur * self.dt(f), key, what)
            if x.intent != "in":
                old = cur * self.dt(f) if x.intent == "inout" else None
                data[cols] = wrule(cur.shape, self.seq, k, self.dt, old) / self.dt(f)
                if x.kind == "const":
                    self.unset.discard(x.const.std)
        elif x.kind in ("num", "nadv"):
            l = self.log.next().split()
            want = len(self.table) if x.kind == "num" else sum(1 for c in self.table.values() if c[0].adv)
            if l[0] != "I" or int(l[2]) != want:
                self.bad(key, "%s is %s, expected %d" % (what, l, want))
        elif x.kind == "mins":
            self.same(self.array(str(k)), np.array([self.used[s][0].min or 0.0 for s in self.names]), key, what)
        elif x.kind == "props":
            l = self.log.next().split()
            if l[0] != "N" or int(l[2]) != len(self.names):
                self.bad(key, "%s has %s elements, expected %d" % (what, l, len(self.names)))
            for s in self.names:
                got = self.log.next().split()
                if got != ["0", s]:
                    self.bad(key, "%s: element of %s is %s" % (what, s, got))


def build(w, d, objroot, san=False):
    files = caprun.cap_files(w, d)
    kinds = [f for f in files if os.path.basename(f) == "ccpp_kinds.F90"]
    caps = [f for f in files if os.path.basename(f) not in ("ccpp_kinds.F90",) + tuple(fbuild.FRAMEWORK)]
    if len(kinds) != 1:
        raise Violation("no-kinds-file", "ccpp_kinds.F90 not listed exactly once: %s" % files)
    od = fbuild.object_cache(objroot, open(os.path.join(d, kinds[0])).read(), san, RECUR)
    if not os.path.exists(os.path.join(od, "ok")):
        raise Violation("framework-compile", "framework sources or ccpp_kinds do not compile: " +
                        open(os.path.join(od, "failed")).read()[-1500:])
    caps.sort(key=lambda f: (os.path.basename(f).startswith(w.host + "_ccpp_cap"), f))
    pre = ["clog.F90", w.host + "_mod.F90"] + [s["name"] + ".F90" for s in w.schemes]
    ok, stage, txt = fbuild.compile_world(d, caps, (pre, "vdriver.F90"), od, "prog", san, RECUR)
    if not ok:
        if stage == "harness":
            raise Inconclusive("harness sources do not compile: " + txt[:3000])
        errs = [x for x in txt.splitlines() if "Error" in x]
        msg = re.sub(r"‘[^’]*’|'[^']*'", "*", errs[0] if errs else txt[:200])
        raise Violation("compile:%s:%s" % (stage, re.sub(r"\d+", "#", msg)[:90]), "generated code does not compile: " + txt[:2500])


def run_world(w, d, objroot, san=False, stats=None):
    stats = {} if stats is None else stats
    w.write(d)
    p = caprun.capgen(w, d)
    if p.rc:
        raise Violation("capgen:" + caprun.norm_error(p.text()), "capgen rejects a consistent world: " + caprun.last_error(p))
    build(w, d, objroot, san)
    p = core.run([os.path.join(d, "prog")], d, 60, env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0"))
    log = ""
    if os.path.exists(os.path.join(d, "vlog.txt")):
        log = open(os.path.join(d, "vlog.txt"), errors="replace").read()
    if p.rc != 0:
        t = p.err + p.out
        if p.rc == -9 and not p.timeout:
            raise Inconclusive("the program was killed")
        m = re.search(r"(Fortran runtime error: [^\n]*|SIG[A-Z]+|AddressSanitizer: [\w-]+|runtime error: [^\n]*)", t)
        key = re.sub(r"\d+", "#", re.sub(r"'[^']*'", "*", m.group(1))) if m else "rc%d" % p.rc
        raise Violation("runtime:" + key[:80], "the program fails (rc %s): %s\nlast log: %s" % (p.rc, t[:1500], log[-300:]))
    Oracle(w, Log(log), stats).run()
    return stats
