"""Random host/scheme/suite worlds for capgen: generation and emission."""
import os, zlib
from . import units as U
from .core import rng

DIRNAME = "ccpp"
RUN = "run"
PHASES = ["register", "init", "timestep_init", "run", "timestep_final", "final"]
# metadata suffixes accepted for each phase
SUFFIX = {"register": ["register"], "init": ["init", "initialize"],
          "timestep_init": ["timestep_init", "timestep_initialize"],
          "run": ["run"], "timestep_final": ["timestep_final", "timestep_finalize"],
          "final": ["final", "finalize"]}
HOSTPHASE = {"register": "register", "init": "initialize", "timestep_init": "timestep_initial",
             "run": "run", "timestep_final": "timestep_final", "final": "finalize"}
HDIM, HEXT = "horizontal_dimension", "horizontal_loop_extent"
VDIM, VINT = "vertical_layer_dimension", "vertical_interface_dimension"
LOCALPOOL = ["a", "b", "c", "temp", "q", "x1", "work", "flux", "tmp", "Zed", "phi", "U", "v", "foo", "bar", "dat",
             "ptend", "Rho", "alpha", "e_s", "w0", "cnd", "theta", "gz", "ql", "arr", "fld", "var1", "var2", "tau"]
WORDS = ["air", "cloud", "snow", "surface", "flux", "tendency", "fraction", "upward", "of", "water", "ice", "heat",
         "number", "area", "mixing", "due", "to", "convection", "ozone", "aerosol", "soil", "wind", "at"]

DEFAULT = dict(
    n_modules=(1, 2), n_vars=(6, 12), n_schemes=(2, 5), n_suites=(1, 2), n_groups=(1, 3), n_items=(1, 4),
    n_args=(2, 6), n_extra_dims=(0, 2), p_ddt=0.5, p_nested=0.0, p_elem=0.15, p_active=0.0, p_optional=0.5,
    p_unitdiff=0.0, p_kinddiff=0.0, p_flip=0.0, p_inter=0.6, p_repeat=0.3, p_subcycle=0.0, p_hostarg=0.3,
    p_entry=dict(register=0.15, init=0.5, timestep_init=0.4, run=0.92, timestep_final=0.4, final=0.4),
    p_types=dict(real=0.7, integer=0.15, logical=0.08, character=0.07), p_r4=0.1, p_lowbound=0.0, p_explicit=0.4,
    p_dimarg=0.4, p_debug=0.3, p_unalloc=0.0, p_local_clash=0.4, p_two_in_file=0.2, p_case=0.3, p_onecol=0.2,
    p_scalar_inter=0.3, p_inter_diff=0.0, p_kindphys32=0.0, steps=(1, 3), p_fail=0.0, p_illegal=0.0, p_reinit=0.2,
    p_noargs=0.05, p_units_only=0.3, p_rank3=0.3, p_allocatable=0.3, p_explicit_one=0.2, p_inter_unique=0.3, p_suitetag=0.0, p_tsplit=0.0,
    p_deps=0.3, p_hostorder=0.2, p_vloop=0.15, p_box=0.2, p_default=0.12, p_intkind=0.12,
    par=0)


class Obj:
    def __init__(self, **kw):
        self.__dict__.update(kw)

    def __repr__(self):
        return "Obj(%s)" % ", ".join("%s=%r" % kv for kv in sorted(self.__dict__.items()))


def base_type(v):
    """Log type of a variable-like object with .type/.kind"""
    if v.type == "real":
        return "r4" if v.kind in ("kind_sp",) else "r8"
    return {"integer": "i4", "logical": "lg", "character": "ch"}[v.type]


class World:
    """All the inputs of one capgen run plus the actions of the driver."""

    def __init__(self, seed, prof=None, tag="w"):
        self.p = dict(DEFAULT)
        self.p.update(prof or {})
        self.r = rng("capworld", tag, seed)
        self.seed = seed
        self.tag = tag
        self.used_std = set()
        self.used_loc = set()
        self.resize = False              # driver can reallocate a host array with a wrong size (C19)
        self._gen()

    # -- helpers
    def chance(self, name):
        return self.r.random() < self.p[name]

    def num(self, name):
        lo, hi = self.p[name]
        return self.r.randint(lo, hi)

    def stdname(self, prefix=None):
        while True:
            k = self.r.randint(1, 5)
            ws = [self.r.choice(WORDS) for _ in range(k)]
            nm = "_".join(ws)
            if prefix:
                nm = prefix + "_" + nm
            if self.r.random() < 0.3 and self.used_std and not prefix:
                nm = self.r.choice(sorted(self.used_std)) + "_" + self.r.choice(WORDS)
            if len(nm) > 62 or nm in self.used_std:
                nm = nm[:50].rstrip("_") + "_%d" % len(self.used_std)
            if nm in self.used_std or nm in ("at", "of", "to") or not nm[0].isalpha():
                continue
            self.used_std.add(nm)
            return nm

    def locname(self, base=None):
        i = 0
        while True:
            nm = base or self.r.choice(LOCALPOOL)
            if i or (base is None and self.r.random() < 0.5):
                nm = "%s_%d" % (nm, self.r.randint(0, 99))
            i += 1
            if nm.lower() not in self.used_loc:
                self.used_loc.add(nm.lower())
                return nm

    # -- generation
    def _gen(self):
        r, p = self.r, self.p
        self.host = r.choice(["vhost", "test_host", "hm"])
        self.kinds = {"kind_phys": "REAL64", "kind_sp": "REAL32"}
        self.modules = ["hmod_%s" % "abc"[i] for i in range(self.num("n_modules"))]
        self.debug = self.chance("p_debug")
        self.locals_reserved = {"errmsg", "errflg"}
        self.used_loc |= {"errmsg", "errflg", "col_start", "col_end", "suite_name", "suite_part", "i", "ncol_loop"}
        ncols, nlev = r.randint(1, 6), r.randint(1, 4)
        if r.random() < 0.8:
            ncols = max(ncols, 3)
        if p["par"]:
            ncols = r.randint(4, 12)
        self.dims = {}           # std -> Obj(std, local, module, value, parameter)
        self.lowers = {}
        self.hvars = []
        def adddim(std, base, value):
            d = Obj(std=std, local=self.locname(base), module=r.choice(self.modules), value=value,
                    parameter=r.random() < 0.4)
            self.dims[std] = d
            self.used_std.add(std)
        adddim(HDIM, r.choice(["ncols", "im", "nCol"]), ncols)
        adddim(VDIM, r.choice(["pver", "nlev", "Levs"]), nlev)
        adddim(VINT, r.choice(["pverp", "nlevp1"]), nlev + 1)
        self.xdims = []
        for _ in range(self.num("n_extra_dims")):
            std = self.stdname("number_of")
            adddim(std, None, r.randint(1, 3))
            self.xdims.append(std)
        self.lown = None
        if self.chance("p_lowbound"):
            std = self.stdname("first_index_of")
            adddim(std, None, r.randint(0, 2))
            self.lown = std
        self.conds = []         # Obj(std, local, module, kind: 'logical'|'integer', value)
        if p["p_active"] > 0:
            for _ in range(r.randint(1, 3)):
                t = r.choice(["logical", "logical", "integer"])
                self.conds.append(Obj(std=self.stdname("flag_for" if t == "logical" else "control_for"),
                                      local=self.locname(), module=r.choice(self.modules), type=t,
                                      value=(r.random() < 0.5) if t == "logical" else r.randint(0, 3)))
        # DDTs
        self.ddts, self.insts = [], []
        if self.chance("p_ddt"):
            for k in range(r.randint(1, 2)):
                self.ddts.append(Obj(name="ddt_%s" % "xy"[k], comps=[], module="hddt", children=[]))
                self.insts.append(Obj(std=self.stdname("state"), local=self.locname(), module=r.choice(self.modules),
                                      ddt=self.ddts[k], parent=None))
            if self.chance("p_nested"):
                d = Obj(name="ddt_in", comps=[], module="hddt", children=[])
                inst = Obj(std=self.stdname("substate"), local=self.locname(), module=None, ddt=d, parent=self.insts[0])
                self.ddts.insert(0, d)
                self.insts.insert(0, inst)
        for i in range(self.num("n_vars")):
            self.hvars.append(self._hvar(i))
        # array element references
        self.elems = []
        for hv in list(self.hvars):
            if (hv.type == "real" and hv.dims and hv.dims[-1] in self.xdims and len(hv.dims) > 1 and hv.cond is None
                    and not hv.protected and self.chance("p_elem") and not hv.top):
                n = self.dims[hv.dims[-1]].value
                idx = Obj(std=self.stdname("index_of"), local=self.locname(), module=r.choice(self.modules),
                          value=r.randint(1, n))
                self.elems.append(idx)
                self.hvars.append(Obj(std=self.stdname(), local="%s(%s,%s)" % (
                    hv.local, ",".join([":"] * (len(hv.dims) - 1)), idx.std if True else idx.local),
                    fref=None, module=hv.module, inst=hv.inst, type=hv.type, kind=hv.kind, dims=hv.dims[:-1],
                    units=hv.units, cond=None, top=False, protected=False, elem_of=hv, idx=idx, hostarg=False,
                    key=hv.key, alloc=False, lower=hv.lower[:-1], unalloc=False))
                hv.has_elem = True
        self._schemes()
        self._suites()
        self._args()
        self._vloops()
        self._intkinds()
        self._boxes()
        self._defaults()
        self._actions()
        self._meta_extras()

    def _meta_extras(self):
        """Properties of the metadata that only the datatable reports; own random stream"""
        r = rng("capworld-meta", self.tag, self.seed)
        def deps():
            if r.random() > self.p["p_deps"]:
                return None
            if r.random() < 0.1:
                return ("none", None)
            lst = ["%sdep_%s.F90" % (r.choice(["", "", "sub/", "../up/"]), r.choice("abcdefgh")) for _ in range(r.randint(1, 4))]
            return (lst, r.choice([None, None, "rel", "../other", "./x"]), r.random() < 0.3)
        self.deps = {}
        for n in [s.name for s in self.schemes] + self.modules + [self.host]:
            self.deps[n] = deps()
        self.process = {s.name: r.choice(["microphysics", "Radiation", "pbl_2"]) if r.random() < self.p["p_deps"] / 2 else None
                        for s in self.schemes}

        self.hostorder = self.modules + [self.host]
        if r.random() < self.p["p_hostorder"]:
            r.shuffle(self.hostorder)

    def _depmeta(self, name):
        d = self.deps.get(name)
        if d is None:
            return []
        if d[0] == "none":
            return ["  dependencies = none"]
        out = ["  relative_path = %s" % d[1]] if d[1] else []
        if d[2]:
            out += ["  dependencies = %s" % x for x in d[0]]
        else:
            out.append("  dependencies = %s" % ", ".join(d[0]))
        return out

    def dependencies(self, d):
        """absolute paths of all dependencies of a world in directory d"""
        out = set()
        for v in self.deps.values():
            if v and v[0] != "none":
                out.update(os.path.abspath(os.path.join(d, v[1] or "", x)) for x in v[0])
        return out

    def _hvar(self, i):
        r, p = self.r, self.p
        t = r.choices(list(p["p_types"]), list(p["p_types"].values()))[0]
        kind = {"real": "kind_phys", "character": "len=%d" % r.choice([8, 16, 32]), "integer": "", "logical": ""}[t]
        if t == "real" and self.chance("p_r4"):
            kind = "kind_sp"
        shapes = [[], [HDIM], [HDIM, VDIM], [HDIM, VDIM], [HDIM, VINT], [VDIM]]
        for x in self.xdims:
            shapes += [[x], [HDIM, x]]
            if self.chance("p_rank3"):
                shapes += [[HDIM, VDIM, x], [HDIM, VDIM, x]]
        if len(self.xdims) > 1:
            shapes.append(list(self.xdims))
        dims = r.choice(shapes) if t != "character" else r.choice([[], [], shapes[-1] if self.xdims else []])
        if t == "character" and len(dims) > 1:
            dims = []
        fam = None
        if t == "real" and not self.chance("p_units_only"):
            fam = r.choice(sorted(U.FAMILIES))
            unit = r.choice(sorted(U.FAMILIES[fam]))
        elif t == "real":
            unit = r.choice(U.UNITS_ONLY)
        else:
            unit = {"integer": r.choice(["count", "1", "index"]), "logical": "flag", "character": "none"}[t]
        hv = Obj(std=self.stdname(), local=self.locname(), module=r.choice(self.modules), inst=None, type=t, kind=kind,
                 dims=list(dims), units=unit, cond=None, top=False, protected=False, elem_of=None, idx=None,
                 hostarg=False, key=i + 1, alloc=False, lower=[None] * len(dims), has_elem=False, unalloc=False)
        if self.insts and r.random() < 0.5:
            hv.inst = r.choice(self.insts)
            hv.module = None
        elif not dims and t in ("real", "integer") and self.chance("p_hostarg"):
            hv.hostarg = True
            hv.module = None
        if self.conds and self.chance("p_active") and not hv.hostarg:
            hv.cond = self._condition()
        if (VDIM in dims or VINT in dims) and t == "real" and r.random() < p["p_flip"]:
            hv.top = True
        if hv.cond is None and r.random() < 0.1 and not hv.hostarg:
            hv.protected = True
        if self.lown and dims and r.random() < 0.4 and hv.cond is None:
            d = r.randrange(len(dims))
            if dims[d] != HDIM or True:
                pass
        if dims and self.chance("p_allocatable"):
            hv.alloc = True
        if hv.cond is not None and dims and self.chance("p_unalloc"):
            hv.alloc = True
            hv.unalloc = True
        return hv

    def _condition(self):
        r = self.r
        def atom():
            c = r.choice(self.conds)
            if c.type == "logical":
                return r.choice([("l", c), ("l", c), ("nl", c)])
            op, k = r.choice([(">", 1), ("==", 2), ("<", 2), (">=", 1), ("/=", 0), ("<=", 1)])
            return ("i", c, op, k)
        a = atom()
        if r.random() < 0.4:
            return (r.choice(["and", "or"]), a, atom())
        return a

    @staticmethod
    def cond_text(c, name=lambda o: o.std):
        k = c[0]
        if k == "l":
            return name(c[1])
        if k == "nl":
            return ".not. " + name(c[1])
        if k == "i":
            return "%s %s %d" % (name(c[1]), c[2], c[3])
        return "%s .%s. %s" % (World.cond_text(c[1], name), k, World.cond_text(c[2], name))

    @staticmethod
    def cond_eval(c, env):
        k = c[0]
        if k == "l":
            return bool(env[c[1].std])
        if k == "nl":
            return not env[c[1].std]
        if k == "i":
            v = env[c[1].std]
            return {">": v > c[3], "==": v == c[3], "<": v < c[3], ">=": v >= c[3], "/=": v != c[3],
                    "<=": v <= c[3]}[c[2]]
        a, b = World.cond_eval(c[1], env), World.cond_eval(c[2], env)
        return (a and b) if k == "and" else (a or b)

    @staticmethod
    def cond_vars(c):
        if c[0] in ("and", "or"):
            return World.cond_vars(c[1]) + World.cond_vars(c[2])
        return [c[1]]

    def _schemes(self):
        r, p = self.r, self.p
        self.schemes = []
        n = self.num("n_schemes")
        for i in range(n):
            nm = "sch_%s" % r.choice(["mp", "rad", "pbl", "gwd", "cu", "sfc", "adj"]) + "_%d" % i
            if r.random() < 0.15:
                nm = "s%d" % i
            phases = [ph for ph in PHASES if r.random() < p["p_entry"][ph]] or ["run"]
            ents = {ph: Obj(suffix=r.choice(SUFFIX[ph]), args=[]) for ph in phases}
            order = list(phases)
            r.shuffle(order)
            self.schemes.append(Obj(name=nm, module=nm, entries=ents, order=order, file=nm))
        # some files carry two schemes
        i = 0
        while i + 1 < n:
            if self.chance("p_two_in_file"):
                self.schemes[i + 1].file = self.schemes[i].file
                i += 1
            i += 1
        self.scheme = {s.name: s for s in self.schemes}

    def _items(self, names, depth=0):
        r = self.r
        items = []
        for _ in range(self.num("n_items")):
            if depth < 2 and self.chance("p_subcycle"):
                if self.loopvars and r.random() < 0.5:
                    loop = r.choice(self.loopvars)
                else:
                    loop = r.randint(1, 3)
                items.append(("subcycle", loop, self._items(names, depth + 1)))
            else:
                items.append(("scheme", r.choice(names)))
        return items

    @staticmethod
    def flatten(items, loopval):
        out = []
        for it in items:
            if it[0] == "scheme":
                out.append(it[1])
            else:
                n = it[1] if isinstance(it[1], int) else loopval(it[1])
                out += World.flatten(it[2], loopval) * n
        return out

    @staticmethod
    def static_schemes(items):
        out = []
        for it in items:
            if it[0] == "scheme":
                out.append(it[1])
            else:
                out += World.static_schemes(it[2])
        return out

    def _suites(self):
        r = self.r
        self.loopvars = []
        if self.p["p_subcycle"] > 0:
            v = Obj(std=self.stdname("number_of_subcycles"), local=self.locname("nsub"), module=r.choice(self.modules),
                    value=r.randint(1, 3))
            self.loopvars.append(v)
        self.suites = []
        names = [s.name for s in self.schemes]
        for i in range(self.num("n_suites")):
            pool = names if r.random() < 0.5 else r.sample(names, max(1, len(names) - 1))
            groups = []
            left = list(pool)
            for g in range(self.num("n_groups")):
                items = self._items(pool)
                if not self.chance("p_repeat"):
                    seen = set()
                    def dedup(its):
                        out = []
                        for it in its:
                            if it[0] == "scheme":
                                if it[1] not in seen:
                                    seen.add(it[1])
                                    out.append(it)
                            else:
                                sub = dedup(it[2])
                                if sub:
                                    out.append((it[0], it[1], sub))
                        return out
                    items = dedup(items) or [("scheme", r.choice(pool))]
                groups.append((r.choice(["physics", "grp", "rad", "part"]) + "%d" % (g + 1), items))
            self.suites.append(Obj(name=["suite_a", "suite_b", "sx"][i] if r.random() < 0.7 else "phys%d" % i,
                                   groups=groups, version="1.0", itag=None, ftag=None, tsplit=set(), ftagname=r.choice(["final", "finalize"])))
            s = self.suites[-1]
            if self.chance("p_suitetag"):
                c = [n for n in names if "init" in self.scheme[n].entries]
                if c:
                    s.itag = r.choice(c)
            if self.chance("p_suitetag"):
                c = [n for n in names if "final" in self.scheme[n].entries]
                if c:
                    s.ftag = r.choice(c)
            s.tsplit = {g for g, _ in groups if self.chance("p_tsplit")}

    def suite_schemes(self, s):
        out = []
        for n in [x for _, items in s.groups for x in World.static_schemes(items)] + [s.itag, s.ftag]:
            if n and n not in out:
                out.append(n)
        return out

    def lib_order(self):
        """scheme names in the order the scheme files are given to capgen"""
        return [s.name for s in self.schemes]

    def phase_trace(self, suite, phase):
        """Entry order assumed by capgen for definedness of suite-held data"""
        if phase == "run":
            out = []
            for _, items in suite.groups:
                out += World.static_schemes(items)
            return [n for n in out if "run" in self.scheme[n].entries]
        inn = self.suite_schemes(suite)
        tag = {"init": suite.itag, "final": suite.ftag}.get(phase)
        return ([tag] if tag else []) + [n for n in self.lib_order() if n in inn and phase in self.scheme[n].entries and n != tag]

    # -- arguments
    def _arg_for(self, hv, phase, intent, entry):
        r, p = self.r, self.p
        dims = []
        for d in hv.dims:
            if d == HDIM:
                d = HEXT if phase == "run" else HDIM
                if self.chance("p_explicit_one"):
                    d = "ccpp_constant_one:" + d
            elif self.chance("p_explicit_one"):
                d = "ccpp_constant_one:" + d
            dims.append(d)
        a = Obj(std=hv.std, local=None, type=hv.type, kind=hv.kind, dims=dims, units=hv.units, intent=intent,
                optional=False, top=hv.top, src=hv, special=None, explicit=False)
        cond = getattr(hv, "cond", None)
        if cond is not None:
            a.optional = True
        elif self.chance("p_optional") and p["p_active"] > 0 and r.random() < 0.4:
            a.optional = True
        if hv.type == "real":
            fam = U.family_of(hv.units)
            if fam and self.chance("p_unitdiff"):
                a.units = r.choice(U.partners(fam, hv.units))
            if self.chance("p_kinddiff"):
                a.kind = r.choice([k for k in ("kind_phys", "kind_sp") if k != hv.kind])
            if (VDIM in hv.dims or VINT in hv.dims) and self.chance("p_flip"):
                a.top = not hv.top
        elif hv.type == "character" and r.random() < 0.4:
            a.kind = "len=*"
        return a

    def _args(self):
        r, p = self.r, self.p
        for s in self.schemes:
            for ph, e in s.entries.items():
                if self.chance("p_noargs"):
                    continue
                usable = [h for h in self.hvars if not (h.hostarg and False)]
                n = min(self.num("n_args"), len(usable))
                for hv in r.sample(usable, n):
                    if self.elems:
                        # never alias an array and one of its elements in one call
                        root = hv.elem_of or hv
                        if any((getattr(x.src, "elem_of", None) or x.src) is root for x in e.args):
                            continue
                    intent = r.choice(["in", "inout", "out"])
                    if hv.protected or (p["par"] and ph == "run" and HDIM not in hv.dims):
                        intent = "in"
                    e.args.append(self._arg_for(hv, ph, intent, e))
                # dimension and loop scalars
                if self.chance("p_dimarg"):
                    std = r.choice([HEXT if ph == "run" else HDIM, VDIM, VINT] + self.xdims)
                    self._dimarg(e, std)
                if ph == "run" and r.random() < 0.1:
                    for std in ("horizontal_loop_begin", "horizontal_loop_end"):
                        self._dimarg(e, std)
                for c in self.conds:
                    if r.random() < 0.2:
                        e.args.append(Obj(std=c.std, local=None, type=c.type, kind="", dims=[], units="flag" if c.type == "logical" else "1",
                                          intent="in", optional=False, top=False, src=c, special="cond", explicit=False))
        self._interstitials()
        for s in self.schemes:
            for ph, e in s.entries.items():
                # explicit-shape declarations
                for a in e.args:
                    if a.dims and a.special is None and self.chance("p_explicit"):
                        need = [d.split(":")[-1] for d in a.dims]
                        have = {x.std for x in e.args if x.special == "dim"}
                        miss = [d for d in need if d not in have]
                        if len(miss) <= 1:
                            for d in miss:
                                self._dimarg(e, d)
                            a.explicit = True
                r.shuffle(e.args)
                # local names
                used = {"errmsg", "errflg", "vl_seq"}
                for a in e.args:
                    if getattr(a.src, "inter", False) and self.chance("p_inter_unique"):
                        # local names of suite-held data are not allowed to clash (see known findings)
                        a.local = "%s_sv%d" % (r.choice(LOCALPOOL), self.inters.index(a.src))
                        used.add(a.local.lower())
                        continue
                    while True:
                        if self.chance("p_local_clash"):
                            nm = r.choice(LOCALPOOL)
                        elif a.special is None and getattr(a.src, "local", None) and "(" not in a.src.local and r.random() < 0.5:
                            nm = a.src.local
                        else:
                            nm = "%s_%d" % (r.choice(LOCALPOOL), r.randint(0, 99))
                        if nm.lower() not in used and not nm.lower().startswith("vl_"):
                            break
                        if r.random() < 0.1:
                            nm = nm + "_z%d" % r.randint(0, 999)
                            if nm.lower() not in used:
                                break
                    used.add(nm.lower())
                    a.local = nm
                e.err_first = r.random() < 0.2
                # Fortran dimension dummies must be declared before they are used: fine (declaration order free)

    def _vloops(self):
        """Schemes without the vertical dimension of some host variables; own random stream"""
        r = rng("capworld-vloop", self.tag, self.seed)
        for s in self.schemes:
            for ph, e in s.entries.items():
                if r.random() >= self.p["p_vloop"] or ph == "register":
                    continue
                vd = r.choice([VDIM, VDIM, VINT])
                cand = [a for a in e.args if a.special is None and a.type != "character" and vd in a.src.dims
                        and len(a.src.dims) > 1 and getattr(a.src, "prod", None) != (s.name, ph)]
                if not cand:
                    continue
                e.vloop = vd
                for a in r.sample(cand, r.randint(1, len(cand))):
                    a.drop = a.src.dims.index(vd)
                    del a.dims[a.drop]
                    a.units, a.kind, a.top = a.src.units, a.src.kind, a.src.top

    def _boxes(self):
        """Whole derived-type variables (scalars and arrays) as arguments; own random stream"""
        r = rng("capworld-box", self.tag, self.seed)
        p = self.p
        self.boxes = []
        if r.random() >= p["p_box"]:
            return
        for k in range(r.randint(1, 2)):
            t = r.choice(["real", "real", "integer"])
            # capgen knows a type in the tables after its own: the first scheme file, or a file of its own listed first
            self.boxes.append(Obj(name="box_%s_t" % "ab"[k], type=t, kind="kind_phys" if t == "real" else "",
                                  scheme=self.schemes[0] if r.random() < 0.4 else None, comp="box_val_%s" % "ab"[k], std=None))
        entries = [(s.name, ph) for s in self.schemes for ph in s.entries if ph != "register"]
        if not entries:
            return
        for k in range(r.randint(1, 3)):
            b = r.choice(self.boxes)
            dims = r.choice([[], [], [], [HDIM], [HDIM, VDIM]] + [[x] for x in self.xdims])
            v = Obj(std=self.stdname("box"), local="hbox_%d" % k, type=b.type, kind=b.kind, dims=dims, units="none", cond=None,
                    top=False, protected=False, elem_of=None, key=200 + k, wrap=b)
            if r.random() < 0.5:
                v.inter = True
                v.prod = prod = r.choice(entries)
                users = [prod]
                allowed = {"timestep_init": ("timestep_init", "run", "timestep_final"), "timestep_final": ("timestep_final",)}
                if p["par"] and prod[1] == "run" and HDIM not in dims and not self._local_only(users):
                    continue
                for c in r.sample(entries, len(entries))[:3]:
                    if c == prod or prod[1] in allowed and c[1] not in allowed[prod[1]]:
                        continue
                    if p["par"] and prod[1] == "run" and HDIM not in dims and not self._local_only(users + [c]):
                        continue
                    if self._ok_users(users + [c]):
                        users.append(c)
                if not self._ok_users(users):
                    continue
                v.persist = "timestep" if prod[1] in ("timestep_init", "timestep_final") else "run"
                self.inters.append(v)
            else:
                v.inst = v.idx = None
                v.module = r.choice(self.modules)
                v.hostarg = v.has_elem = v.unalloc = False
                v.alloc = bool(dims)
                v.lower = [None] * len(dims)
                if b.scheme is not None:
                    continue
                if self.conds and r.random() < p["p_active"]:
                    v.cond = self._box_condition(r)
                self.hvars.append(v)
                users = r.sample(entries, min(len(entries), r.randint(1, 3)))
            for j, u in enumerate(users):
                e = self.scheme[u[0]].entries[u[1]]
                intent = "out" if hasattr(v, "prod") and j == 0 else r.choice(["in", "inout", "in", "inout", "out"])
                if p["par"] and u[1] == "run" and HDIM not in dims and not (hasattr(v, "prod") and v.prod[1] == "run"):
                    intent = "in"
                names = {x.local.lower() for x in e.args} | {"errmsg", "errflg", "vl_seq"}
                loc = r.choice([n for n in LOCALPOOL + ["box_%d" % i for i in range(9)] if n.lower() not in names])
                a = Obj(std=v.std, local=loc, type=v.type, kind=v.kind, intent=intent, units=v.units, top=False, src=v, special=None,
                        dims=[HEXT if d == HDIM and u[1] == "run" else d for d in dims], explicit=False, wrap=v.wrap,
                        optional=v.cond is not None or not hasattr(v, "prod") and p["p_active"] > 0 and r.random() < 0.1)
                e.args.insert(r.randint(0, len(e.args)), a)

        for b in self.boxes:
            n = [v for v in self.hvars if getattr(v, "wrap", None) is b]
            if len(n) == 1 and r.random() < 0.5:
                b.std = self.stdname("box_content")

    def _intkinds(self):
        """Kinds and vertical order of integer and logical variables; own random stream"""
        r = rng("capworld-intkind", self.tag, self.seed)
        if r.random() >= self.p["p_intkind"]:
            return
        kinds = {"integer": ["", "kind_i8"], "logical": ["", "kind_l1"]}
        for v in self.hvars + self.inters:
            if v.type in kinds and getattr(v, "elem_of", None) is None and not getattr(v, "hostarg", False):
                v.kind = r.choice(kinds[v.type])
                if not hasattr(v, "prod") and not v.has_elem and {VDIM, VINT} & set(v.dims) and r.random() < 0.3:
                    v.top = True
        for v in self.hvars:
            if v.elem_of is not None:
                v.kind = v.elem_of.kind
        for s in self.schemes:
            for ph, e in s.entries.items():
                for a in e.args:
                    if a.special is None and a.type in kinds:
                        a.kind, a.top = a.src.kind, a.src.top
                        if getattr(a, "drop", None) is None and getattr(a.src, "prod", None) != (s.name, ph) and r.random() < 0.5:
                            a.kind = r.choice(kinds[a.type])
                        if getattr(a, "drop", None) is not None or getattr(a.src, "prod", None) == (s.name, ph):
                            continue
                        if {VDIM, VINT} & set(a.src.dims) and r.random() < 0.3:
                            a.top = not a.top

    def _defaults(self):
        """Input variables which only have a default value; own random stream"""
        r = rng("capworld-default", self.tag, self.seed)
        if r.random() >= self.p["p_default"]:
            return
        entries = [(s.name, ph) for s in self.schemes for ph, e in s.entries.items()
                   if ph != "register" and not getattr(e, "vloop", None)]
        for k in range(r.randint(1, 3)):
            t, kd, lit, val = r.choice([
                ("real", "kind_phys", "%d.5_kind_phys", 0.5), ("real", "kind_phys", "-%d.25_kind_phys", -0.25),
                ("real", "kind_sp", "%d.0_kind_sp", 0.0), ("integer", "", "%d", 0), ("integer", "", "-%d", 0),
                ("logical", "", ".true.", True), ("logical", "", ".false.", False)])
            if "%" in lit:
                n = r.randint(1, 99)
                val = val + (-n if lit[0] == "-" else n)
                lit = lit % n
            dims = r.choice([[], [], [HDIM], [HDIM, VDIM], [VDIM]] + [[x] for x in self.xdims])
            users = []
            for u in r.sample(entries, len(entries))[:r.randint(1, 4)]:
                if all(self._default_users(s, users + [u]) for s in self.suites):
                    users.append(u)
            std = self.stdname("given")
            for u in users:
                e = self.scheme[u[0]].entries[u[1]]
                names = {x.local.lower() for x in e.args} | {"errmsg", "errflg", "vl_seq"}
                loc = r.choice([n for n in LOCALPOOL + ["given_%d" % i for i in range(9)] if n.lower() not in names])
                e.args.insert(r.randint(0, len(e.args)), Obj(
                    std=std, local=loc, type=t, kind=kd, intent="in", units="flag" if t == "logical" else "1", optional=False,
                    top=False, src=None, special="default", default=lit, value=val, explicit=False,
                    dims=[HEXT if d == HDIM and u[1] == "run" else d for d in dims], alldims=dims))

    @staticmethod
    def _first_phase(ph):
        return ("init", "timestep_init", "run", "timestep_final", "final").index(ph)

    def _default_users(self, suite, users):
        """A variable first used in a time step phase does not live longer than the time step"""
        ph = sorted({u[1] for u in users if u[0] in self.suite_schemes(suite)}, key=self._first_phase)
        return not ph or not ph[0].startswith("timestep") or set(ph) <= {"timestep_init", "run", "timestep_final"}

    def _box_condition(self, r):
        c = r.choice(self.conds)
        return ("l" if r.random() < 0.7 else "nl", c) if c.type == "logical" else ("i", c, ">", r.randint(0, 2))

    def box_types(self, sch=None):
        """Fortran and metadata of the types defined in a scheme file (or by the host)"""
        f, m = [], []
        for b in self.boxes:
            if b.scheme is not sch:
                continue
            f += ["  !> \\section arg_table_%s  Argument Table" % b.name, "  !! \\htmlinclude %s.html" % b.name, "  !!",
                  "  type, public :: %s" % b.name, "    %s :: %s" % (self._ftype(b.type, b.kind), b.comp), "  end type %s" % b.name]
            m += ["[ccpp-table-properties]", "  name = %s" % b.name, "  type = ddt", "[ccpp-arg-table]", "  name = %s" % b.name,
                  "  type = ddt"]
            if sch is not None and self.module_of(sch) != sch.file:
                m.append("  module = %s" % self.module_of(sch))
            if b.std:
                self._meta_var(m, b.comp, b.std, b.type, b.kind, "none", [])
        return f, m

    def box_module(self, b):
        return "hbox" if b.scheme is None else self.module_of(b.scheme)

    def box_uses(self, bs, skip=None):
        return ["  use %s, only: %s" % (self.box_module(b), b.name) for b in self.boxes if b in bs and self.box_module(b) != skip]

    def calls(self, names, phase):
        """routine names in the order they are called when these schemes are called"""
        out = []
        for n in names:
            e = self.scheme[n].entries.get(phase)
            if e is not None:
                out += ["%s_%s" % (n, e.suffix)] * (self.dims[e.vloop].value if getattr(e, "vloop", None) else 1)
        return out

    def _dimarg(self, e, std):
        if any(x.std == std for x in e.args):
            return
        e.args.append(Obj(std=std, local=None, type="integer", kind="", dims=[], units="count", intent="in", optional=False,
                          top=False, src=self.dims.get(std), special="dim", explicit=False))

    def _interstitials(self):
        """Variables held by the suite: one producer, then consumers."""
        r, p = self.r, self.p
        self.inters = []
        entries = [(s.name, ph) for s in self.schemes for ph in s.entries if ph != "register"]
        tries = 0
        while tries < 12:
            tries += 1
            if not self.chance("p_inter") or not entries:
                continue
            prod = r.choice(entries)
            if any(a.src in self.inters and a.intent == "out" for a in self.scheme[prod[0]].entries[prod[1]].args) and r.random() < 0.5:
                continue
            t = r.choices(["real", "integer", "logical"], [0.8, 0.15, 0.05])[0]
            shapes = [[], [HDIM], [HDIM, VDIM], [HDIM, VINT], [VDIM]] + [[x] for x in self.xdims] + \
                     [[HDIM, VDIM, x] for x in self.xdims]
            dims = [] if self.chance("p_scalar_inter") else r.choice(shapes)
            fam = r.choice(sorted(U.FAMILIES))
            unit = r.choice(sorted(U.FAMILIES[fam])) if t == "real" else {"integer": "1", "logical": "flag"}[t]
            kind = ("kind_sp" if self.chance("p_r4") else "kind_phys") if t == "real" else ""
            iv = Obj(std=self.stdname("suite_var"), local=None, type=t, kind=kind, dims=dims, units=unit, cond=None,
                     top=r.random() < p["p_flip"] and t == "real" and (VDIM in dims or VINT in dims), protected=False,
                     elem_of=None, inter=True, key=0, prod=prod)
            users = [prod]
            if p["par"] and prod[1] == "run" and HDIM not in dims and not self._local_only(users):
                continue
            cands = [e for e in entries if e != prod]
            r.shuffle(cands)
            allowed = {"timestep_init": ("timestep_init", "run", "timestep_final"), "timestep_final": ("timestep_final",)}
            for c in cands[:3]:
                if prod[1] in allowed and c[1] not in allowed[prod[1]]:
                    continue
                if p["par"] and prod[1] == "run" and HDIM not in dims and not self._local_only(users + [c]):
                    continue
                if self._defined_before(iv, users, c):
                    users.append(c)
            # the producer must be first wherever any user appears
            if not self._ok_users(users):
                continue
            if len(users) == 1 and r.random() < 0.7:
                continue
            self.inters.append(iv)
            iv.persist = "timestep" if prod[1] in ("timestep_init", "timestep_final") else "run"
            for k, u in enumerate(users):
                e = self.scheme[u[0]].entries[u[1]]
                # capgen needs the dimensions of suite-held arrays in the group's call list
                for dn in dims if r.random() < 0.4 else ():
                    self._dimarg(e, HEXT if dn == HDIM and u[1] == "run" else dn)
                intent = "out" if k == 0 else r.choice(["in", "in", "inout", "out"])
                if intent == "out" and k > 0 and r.random() < 0.7:
                    intent = "in"
                if p["par"] and u[1] == "run" and HDIM not in dims and prod[1] != "run":
                    intent = "in"
                save = {kk: p[kk] for kk in ("p_unitdiff", "p_kinddiff", "p_flip", "p_optional")}
                if k == 0 or not self.chance("p_inter_diff"):
                    p.update(p_unitdiff=0, p_kinddiff=0, p_flip=0)
                p["p_optional"] = 0
                a = self._arg_for(iv, u[1], intent, e)
                p.update(save)
                e.args.append(a)

    def _trace(self, suite):
        out = []
        for ph in PHASES:
            out += [(n, ph) for n in self.phase_trace(suite, ph)]
        return out

    def _ok_users(self, users):
        for s in self.suites:
            tr = [u for u in self._trace(s) if u in users]
            if tr and tr[0] != users[0]:
                return False
        return True

    def _local_only(self, users):
        """Whether the storage of a variable with these users is local to one suite part"""
        if any(u[1] != "run" for u in users):
            return False
        for s in self.suites:
            if len([g for g, items in s.groups if {u[0] for u in users} & set(self.static_schemes(items))]) > 1:
                return False
        return True

    def _defined_before(self, iv, users, c):
        return self._ok_users(users + [c])

    # -- driver actions
    def _actions(self):
        r, p = self.r, self.p
        acts = []
        order = list(self.suites)
        for s in order:
            s.sub = None
        def call(suite, phase, part=None, cs=None, ce=None, fail=None, sname=None):
            acts.append(dict(op="call", suite=sname or suite.name, phase=phase, part=part, cs=cs, ce=ce, fail=fail))
        n = self.dims[HDIM].value
        def chunks():
            k = r.random()
            if p["par"]:
                cuts = sorted(r.sample(range(1, n), min(n - 1, r.randint(1, 7))))
                b = [0] + cuts + [n]
                return [(b[i] + 1, b[i + 1]) for i in range(len(b) - 1)]
            if k < 0.3:
                return [(1, n)]
            if self.chance("p_onecol"):
                return [(i, i) for i in range(1, n + 1)]
            cuts = sorted(r.sample(range(1, n), min(n - 1, r.randint(1, 2)))) if n > 1 else []
            b = [0] + cuts + [n]
            ch = [(b[i] + 1, b[i + 1]) for i in range(len(b) - 1)]
            if r.random() < 0.2:
                r.shuffle(ch)
            return ch
        def setconds():
            for c in self.conds:
                if r.random() < 0.5:
                    c2 = (r.random() < 0.5) if c.type == "logical" else r.randint(0, 3)
                    if self.p["p_unalloc"] == 0:
                        acts.append(dict(op="set", std=c.std, value=c2))
        def illegal():
            if self.chance("p_illegal"):
                s = r.choice(order)
                ph = r.choice(PHASES)
                g = r.choice(s.groups)[0] if ph == "run" else None
                call(s, ph, g, 1, n)
            if self.chance("p_illegal") and r.random() < 0.4:
                s = r.choice(order)
                if r.random() < 0.5:
                    call(s, r.choice(PHASES), r.choice(s.groups)[0], 1, n, sname=r.choice(
                        ["nosuch", s.name + "x", s.name[:-1], s.name.upper() + "_", ""]))
                else:
                    call(s, "run", r.choice(["nopart", s.groups[0][0] + "z", s.groups[0][0][:-1], ""]), 1, n)
        def threaded(suite):
            """a call of a phase which threads may not call, from a parallel region"""
            if p["par"] and r.random() < 0.3:
                call(suite, r.choice([x for x in PHASES if x != "run"]))
                acts[-1]["omp"] = 1
        def region(s, ch):
            """run calls made by several threads at once"""
            parts = [[g for g, _ in s.groups]] if r.random() < 0.5 else [[g] for g, _ in s.groups]
            for gs in parts:
                nt = r.randint(2, 8)
                lists = [[] for _ in range(nt)]
                for k, c in enumerate(ch):
                    lists[k % nt].append(c)
                lists = [x for x in lists if x]
                self.regions.append(lists)
                for t, mine in enumerate(lists):
                    for cs, ce in mine:
                        for g in gs:
                            call(s, "run", g, cs, ce, fail=fail())
                            acts[-1].update(region=len(self.regions) - 1, thread=t)
                            if r.random() < 0.05:
                                call(s, "run", "nopart", cs, ce)
                                acts[-1].update(region=len(self.regions) - 1, thread=t)
        self.regions = []
        def fail():
            return r.randint(1, 6) if self.chance("p_fail") else None
        ncycles = 2 if self.chance("p_reinit") else 1
        if not all(True for _ in order):
            pass
        illegal()
        for s in order:
            call(s, "register", fail=None if r.random() < .5 else fail())
        for cyc in range(ncycles):
            setconds()
            illegal()
            for s in order:
                threaded(s)
                call(s, "init", fail=fail() if r.random() < .3 else None)
            illegal()
            for step in range(self.num("steps")):
                setconds()
                for s in order:
                    threaded(s)
                    call(s, "timestep_init", fail=fail() if r.random() < .3 else None)
                illegal()
                for s in (order if r.random() < 0.5 else reversed(order)):
                    threaded(s)
                    if p["par"]:
                        region(s, chunks())
                        threaded(s)
                        illegal()
                        continue
                    for cs, ce in chunks():
                        setconds() if r.random() < 0.2 else None
                        for g, _ in s.groups:
                            call(s, "run", g, cs, ce, fail=fail())
                    illegal()
                for s in order:
                    threaded(s)
                    call(s, "timestep_final", fail=fail() if r.random() < .3 else None)
                illegal()
            for s in order:
                threaded(s)
                call(s, "final", fail=fail() if r.random() < .3 else None)
            illegal()
        self.actions = acts

    # -- naming
    def fexpr(self, v):
        """Fortran reference of a host variable, as seen by the driver"""
        loc = v.local
        if v.elem_of is not None:
            loc = "%s(%s,%s)" % (v.elem_of.local, ",".join([":"] * len(v.dims)), v.idx.local)
        path = []
        inst = v.inst
        while inst is not None:
            path.insert(0, inst.local)
            inst = inst.parent
        if getattr(v, "wrap", None) is not None:
            loc += "%" + v.wrap.comp
        return "%".join(path + [loc])

    def bare(self, v):
        ex = self.fexpr(v)
        return ex[:-1 - len(v.wrap.comp)] if getattr(v, "wrap", None) is not None else ex

    # ================= emission =================
    def mlocal(self, v):
        """local_name as written in the metadata"""
        if v.elem_of is not None:
            return "%s(%s,%s)" % (v.elem_of.local, ",".join([":"] * len(v.dims)), v.idx.std)
        return v.local

    @staticmethod
    def _meta_var(o, local, std, typ, kind, units, dims, extra=()):
        o.append("[ %s ]" % local)
        o.append("  standard_name = %s" % std)
        o.append("  units = %s" % units)
        o.append("  dimensions = (%s)" % ", ".join(dims))
        o.append("  type = %s" % typ)
        # the default kind of real variables is kind_phys
        if kind and not (kind == "kind_phys" and "default_value" not in dict(extra) and zlib.crc32((local + std).encode()) % 12 == 0):
            o.append("  kind = %s" % kind)
        for k, v in extra:
            o.append("  %s = %s" % (k, v))

    @staticmethod
    def _ftype(typ, kind):
        if typ == "real":
            return "real(%s)" % kind if kind else "real"
        if typ == "character":
            return "character(len=%s)" % kind.split("=")[1]
        return "%s(%s)" % (typ, kind) if kind else typ

    def vtype(self, v):
        return "type(%s)" % v.wrap.name if getattr(v, "wrap", None) is not None else self._ftype(v.type, v.kind)

    def hostdims(self, v):
        return [("%s:%s" % (lo, d)) if lo else d for d, lo in zip(v.dims, v.lower)]

    def _hv_meta(self, o, v):
        extra = []
        if v.cond is not None:
            extra.append(("active", "(%s)" % self.cond_text(v.cond)))
        if v.top:
            extra.append(("top_at_one", "True"))
        if v.protected:
            extra.append(("protected", "True"))
        if v.alloc and not v.elem_of and self.r.random() < 0:
            extra.append(("allocatable", "True"))
        wrap = getattr(v, "wrap", None)
        self._meta_var(o, self.mlocal(v), v.std, wrap.name if wrap else v.type, "" if wrap else v.kind, v.units, self.hostdims(v), extra)

    def _dimlocal(self, v, i):
        d = self.dims[v.dims[i]].local
        lo = self.dims[v.lower[i]].local if v.lower[i] else None
        return d, lo

    def ddt_file(self):
        """the file with the derived types: their own, or that of the first module"""
        if self.ddts and self.hostorder[0] == self.modules[0] and rng("capworld-ddtfile", self.tag, self.seed).random() < 0.25:
            return self.modules[0]
        return "hddt"

    def host_files(self):
        files = {}
        # DDT definitions
        if self.ddts:
            f, m = [], []
            f.append("module hddt")
            f.append("  use ccpp_kinds, only: kind_phys, kind_sp, kind_i8, kind_l1")
            f.append("  implicit none")
            f.append("  private")
            for d in self.ddts:
                f.append("  !> \\section arg_table_%s  Argument Table" % d.name)
                f.append("  !! \\htmlinclude arg_table_%s.html" % d.name)
                f.append("  type, public :: %s" % d.name)
                m += ["[ccpp-table-properties]", "  name = %s" % d.name, "  type = ddt", "[ccpp-arg-table]",
                      "  name = %s" % d.name, "  type = ddt"]
                if self.ddt_file() != "hddt":
                    m.append("  module = hddt")
                n = 0
                for inst in self.insts:
                    if inst.parent is not None and inst.parent.ddt is d:
                        f.append("    type(%s) :: %s" % (inst.ddt.name, inst.local))
                        m += ["[ %s ]" % inst.local, "  standard_name = %s" % inst.std, "  type = %s" % inst.ddt.name,
                              "  units = none", "  dimensions = ()"]
                for v in self.hvars:
                    if v.inst is not None and v.inst.ddt is d:
                        if v.elem_of is None:
                            rank = len(v.dims)
                            dim = ("(" + ",".join([":"] * rank) + ")") if rank else ""
                            f.append("    %s%s :: %s%s" % (self._ftype(v.type, v.kind), ", allocatable" if rank else "",
                                                           v.local, dim))
                            n += 1
                        self._hv_meta(m, v)
                f.append("    integer :: pad_%s = 0" % d.name)
                f.append("  end type %s" % d.name)
            f.append("end module hddt")
            files[self.ddt_file() + ".F90"] = "\n".join(f) + "\n"
            files[self.ddt_file() + ".meta"] = "\n".join(m) + "\n"
        for mod in self.modules:
            f, m = [], []
            f.append("module %s" % mod)
            f.append("  use ccpp_kinds, only: kind_phys, kind_sp, kind_i8, kind_l1")
            used = [i for i in self.insts if i.module == mod]
            for dn in sorted({i.ddt.name for i in used}):
                f.append("  use hddt, only: %s" % dn)
            f += self.box_uses([v.wrap for v in self.hvars if v.module == mod and getattr(v, "wrap", None) is not None])
            f.append("  implicit none")
            f.append("  public")
            f.append("  !> \\section arg_table_%s  Argument Table" % mod)
            f.append("  !! \\htmlinclude arg_table_%s.html" % mod)
            m += ["[ccpp-table-properties]", "  name = %s" % mod, "  type = module"] + self._depmeta(mod) + ["[ccpp-arg-table]",
                  "  name = %s" % mod, "  type = module"]
            for d in self.dims.values():
                if d.module == mod:
                    if d.parameter:
                        f.append("  integer, parameter :: %s = %d" % (d.local, d.value))
                    else:
                        f.append("  integer :: %s = %d" % (d.local, d.value))
                    self._meta_var(m, d.local, d.std, "integer", "", "count", [],
                                   [("protected", "True")] if d.parameter else [])
            for c in list(self.conds):
                if c.module == mod:
                    init = (".true." if c.value else ".false.") if c.type == "logical" else "%d" % c.value
                    f.append("  %s :: %s = %s" % (c.type, c.local, init))
                    self._meta_var(m, c.local, c.std, c.type, "", "flag" if c.type == "logical" else "1", [])
            for c in self.loopvars:
                if c.module == mod:
                    f.append("  integer :: %s = %d" % (c.local, c.value))
                    self._meta_var(m, c.local, c.std, "integer", "", "count", [])
            for c in self.elems:
                if c.module == mod:
                    f.append("  integer :: %s = %d" % (c.local, c.value))
                    self._meta_var(m, c.local, c.std, "integer", "", "index", [])
            for i in used:
                f.append("  type(%s) :: %s" % (i.ddt.name, i.local))
                self.m_inst(m, i)
            for v in self.hvars:
                if v.module == mod and v.inst is None:
                    if v.elem_of is None:
                        rank = len(v.dims)
                        if rank:
                            dim = "(" + ",".join([":"] * rank) + ")"
                            f.append("  %s, allocatable, target :: %s%s" % (self.vtype(v), v.local, dim))
                        else:
                            f.append("  %s :: %s" % (self.vtype(v), v.local))
                    self._hv_meta(m, v)
            f.append("")
            f.append("end module %s" % mod)
            files[mod + ".F90"] = files.get(mod + ".F90", "") + "\n".join(f) + "\n"
            files[mod + ".meta"] = files.get(mod + ".meta", "") + "\n".join(m) + "\n"
        f, m = self.box_types()
        if f:
            files["hbox.F90"] = "\n".join(["module hbox", "  use ccpp_kinds, only: kind_phys, kind_sp, kind_i8, kind_l1", "  implicit none", "  private"] + f
                                          + ["end module hbox"]) + "\n"
            files["hbox.meta"] = "\n".join(m) + "\n"
        # host table
        m = ["[ccpp-table-properties]", "  name = %s" % self.host, "  type = host"] + self._depmeta(self.host) + ["[ccpp-arg-table]",
             "  name = %s" % self.host, "  type = host"]
        self._meta_var(m, "col_start", "horizontal_loop_begin", "integer", "", "count", [], [("protected", "True")])
        self._meta_var(m, "col_end", "horizontal_loop_end", "integer", "", "count", [], [("protected", "True")])
        for v in self.hvars:
            if v.hostarg:
                self._hv_meta(m, v)
        self._meta_var(m, "errmsg", "ccpp_error_message", "character", "len=512", "none", [])
        self._meta_var(m, "errflg", "ccpp_error_code", "integer", "", "1", [])
        files[self.host + ".meta"] = "\n".join(m) + "\n"
        files[self.host + ".F90"] = (
            "program {h}\n  implicit none\n  !> \\section arg_table_{h}  Argument Table\n"
            "  !! \\htmlinclude arg_table_{h}.html\n  !!\n  integer :: unused\n  unused = 1\nend program {h}\n".format(h=self.host)
            if rng("capworld-hostunit", self.tag, self.seed).random() < 0.3 else
            "module %s_prog\n  implicit none\ncontains\n  !> \\section arg_table_%s  Argument Table\n"
            "  !! \\htmlinclude arg_table_%s.html\n  !!\n  subroutine %s(x)\n    integer, intent(in) :: x\n"
            "  end subroutine %s\nend module %s_prog\n" % ((self.host,) * 6))
        return files

    def m_inst(self, m, i):
        m += ["[ %s ]" % i.local, "  standard_name = %s" % i.std, "  type = %s" % i.ddt.name,
              "  units = none", "  dimensions = ()"]

    def scheme_files(self):
        files = {}
        mods = {}
        for s in self.schemes:
            mods.setdefault(s.file, []).append(s)
        for fn, ss in mods.items():
            f, m = [], []
            # a file may hold several schemes, in one module or one module each
            for ms in [[s] for s in ss] if self.split_modules(fn) else [ss]:
                f.append("module %s" % self.module_of(ms[0]))
                f.append("  use ccpp_kinds, only: kind_phys, kind_sp, kind_i8, kind_l1")
                f.append("  use vlog")
                f += self.box_uses([a.wrap for s in ms for e in s.entries.values() for a in e.args if getattr(a, "wrap", None) is not None],
                                   self.module_of(ms[0]))
                f.append("  implicit none")
                f.append("  private")
                for s in ms:
                    bf, bm = self.box_types(s)
                    f += bf
                    m += bm
                for s in ms:
                    for ph in s.order:
                        f.append("  public :: %s_%s" % (s.name, s.entries[ph].suffix))
                f.append("contains")
                for s in ms:
                    m += ["[ccpp-table-properties]", "  name = %s" % s.name, "  type = scheme"] + self._depmeta(s.name)
                    for ph in s.order:
                        self._entry(s, ph, f, m)
                f.append("end module %s" % self.module_of(ms[0]))
                f.append("")
            files[fn + ".F90"] = "\n".join(f) + "\n"
            files[fn + ".meta"] = "\n".join(m) + "\n"
        return files

    def split_modules(self, fn):
        return rng("capworld-modules", self.tag, self.seed, fn).random() < 0.4

    def module_of(self, s):
        """the Fortran module of scheme s"""
        m = s.name if self.split_modules(s.file) else s.file
        return m + "_mod" if rng("capworld-modname", self.tag, self.seed, m).random() < 0.2 else m

    def _entry(self, s, ph, f, m):
        e = s.entries[ph]
        nm = "%s_%s" % (s.name, e.suffix)
        m += ["[ccpp-arg-table]", "  name = %s" % nm, "  type = scheme"]
        mod = self.module_of(s)
        if mod != s.file:
            m.append("  module = %s" % mod)
        if self.process[s.name]:
            m.append("  process = %s" % self.process[s.name])
        args = list(e.args)
        errs = [Obj(err=1), Obj(err=2)]
        seq = errs + args if getattr(e, "err_first", False) else args + errs
        names = []
        decl = []
        for a in seq:
            if hasattr(a, "err"):
                if a.err == 1:
                    names.append("errmsg")
                    self._meta_var(m, "errmsg", "ccpp_error_message", "character", "len=512" if not e.suffix == "run" else "len=*", "none", [], [("intent", "out")])
                    decl.append("    character(len=%s), intent(out) :: errmsg" % ("512" if not e.suffix == "run" else "*"))
                else:
                    names.append("errflg")
                    self._meta_var(m, "errflg", "ccpp_error_code", "integer", "", "1", [], [("intent", "out")])
                    decl.append("    integer, intent(out) :: errflg")
                continue
            names.append(a.local)
            extra = [("intent", a.intent)]
            if a.optional:
                extra.append(("optional", "True"))
            if a.top:
                extra.append(("top_at_one", "True"))
            if getattr(a, "default", None):
                extra.append(("default_value", a.default))
            wrap = getattr(a, "wrap", None)
            self._meta_var(m, a.local, a.std, wrap.name if wrap else a.type, "" if wrap else a.kind, a.units, a.dims, extra)
            dim = ""
            if a.dims:
                if a.explicit:
                    ds = []
                    for d in a.dims:
                        dn = d.split(":")[-1]
                        ds.append([x.local for x in args if x.std == dn][0])
                    dim = "(" + ",".join(ds) + ")"
                else:
                    dim = "(" + ",".join([":"] * len(a.dims)) + ")"
            line = "    %s, intent(%s)%s :: %s%s" % (self.vtype(a), a.intent,
                                                  ", optional" if a.optional else "", a.local, dim)
            if a.special == "dim":
                decl.insert(0, line)
            else:
                decl.append(line)
        f.append("  !> \\section arg_table_%s  Argument Table" % nm)
        f.append("  !! \\htmlinclude %s.html" % nm)
        f.append("  !!")
        f.append("  subroutine %s(%s)" % (nm, ", &\n      ".join(names)))
        f += decl
        f.append("    errmsg = ''")
        f.append("    errflg = 0")
        f.append("    call vl_enter('%s')" % nm)
        for k, a in enumerate(args):
            log = "vl_shape" if a.intent == "out" else "vl_arg"
            ref = a.local + ("%" + a.wrap.comp if getattr(a, "wrap", None) is not None else "")
            if a.optional:
                f.append("    if (present(%s)) then" % a.local)
                f.append("      call %s('%s', %s)" % (log, a.local, ref))
                f.append("    else")
                f.append("      call vl_absent('%s')" % a.local)
                f.append("    end if")
            else:
                f.append("    call %s('%s', %s)" % (log, a.local, ref))
        for k, a in enumerate(args):
            if a.intent == "in":
                continue
            ref = a.local + ("%" + a.wrap.comp if getattr(a, "wrap", None) is not None else "")
            up = "call vl_%s(%s, %d)" % ("set" if a.intent == "out" else "upd", ref, k)
            f.append("    if (present(%s)) then; %s; end if" % (a.local, up) if a.optional else "    " + up)
        f.append("    if (vl_fails()) then")
        f.append("      errflg = vl_fail_code")
        f.append("      errmsg = 'failure in %s'" % nm)
        f.append("    end if")
        f.append("    call vl_leave()")
        f.append("  end subroutine %s" % nm)
        f.append("")

    def suite_xml(self, s):
        o = ['<?xml version="1.0" encoding="UTF-8"?>', "", '<suite name="%s" version="%s">' % (s.name, s.version)]
        def items(its, ind):
            for it in its:
                if it[0] == "scheme":
                    o.append("%s<scheme>%s</scheme>" % (ind, it[1]))
                else:
                    loop = it[1] if isinstance(it[1], int) else it[1].std
                    o.append('%s<subcycle loop="%s">' % (ind, loop))
                    items(it[2], ind + "  ")
                    o.append("%s</subcycle>" % ind)
        if s.itag:
            o.append("  <init>%s</init>" % s.itag)
        for g, its in s.groups:
            o.append('  <group name="%s">' % g)
            if g in s.tsplit:
                o.append("    <time_split>")
            items(its, "    ")
            if g in s.tsplit:
                o.append("    </time_split>")
            o.append("  </group>")
        if s.ftag:
            o.append("  <%s>%s</%s>" % (s.ftagname, s.ftag, s.ftagname))
        o.append("</suite>")
        return "\n".join(o) + "\n"

    def files(self):
        fl = {}
        fl.update(self.host_files())
        fl.update(self.scheme_files())
        for s in self.suites:
            fl["suite_%s.xml" % s.name] = self.suite_xml(s)
        order = []
        for s in self.schemes:
            if s.file not in order:
                order.append(s.file)
        if any(b.scheme is None for b in self.boxes):
            order.insert(0, "hbox")
        fl["schemes.txt"] = "".join("%s.meta\n" % x for x in order)
        return fl

    def host_meta(self):
        hm = (["hddt.meta"] if self.ddts and self.ddt_file() == "hddt" else []) + [m + ".meta" for m in self.hostorder]
        if any(b.scheme is None for b in self.boxes):
            hm.insert(0, "hbox.meta")
        return hm + getattr(self, "extra_host", [])

    def compile_order(self):
        """our Fortran files, modules before their users"""
        out = (["hbox.F90"] if any(b.scheme is None for b in self.boxes) else []) + \
            (["hddt.F90"] if self.ddts and self.ddt_file() == "hddt" else []) + [m + ".F90" for m in self.modules]
        for s in [b.scheme for b in self.boxes if b.scheme is not None] + self.schemes:
            if s.file + ".F90" not in out:
                out.append(s.file + ".F90")
        return out

    def capgen_args(self, outdir="out", debug=None):
        a = ["--host-files", ",".join(self.host_meta()), "--scheme-files", "schemes.txt", "--suites",
             ",".join("suite_%s.xml" % s.name for s in self.suites), "--host-name", self.host, "--output-root", outdir,
             "--kind-type", "kind_phys=%s" % self.kinds["kind_phys"], "--kind-type", "kind_sp=REAL32",
             "--kind-type", "kind_i8=INT64", "--kind-type", "kind_l1=INT8"]
        if self.debug if debug is None else debug:
            a.append("--debug")
        return a

    # ---- driver
    def driver(self):
        o = []
        w = o.append
        h = self.host
        par = self.p["par"]
        w("module vdmod" if par else "program vdriver")
        w("  use vlog")
        w("  use ccpp_kinds, only: kind_phys, kind_sp, kind_i8, kind_l1")
        if self.ddts:
            w("  use hddt")
        for m in self.modules:
            w("  use %s" % m)
        for ph in PHASES:
            w("  use %s_ccpp_cap, only: %s_ccpp_physics_%s" % (h, h, HOSTPHASE[ph]))
        w("  use %s_ccpp_cap, only: ccpp_physics_suite_list, ccpp_physics_suite_part_list" % h)
        w("  use %s_ccpp_cap, only: ccpp_physics_suite_variables, ccpp_physics_suite_schemes" % h)
        w("  implicit none")
        w("  character(len=512) :: errmsg")
        w("  integer :: errflg")
        hargs = [v for v in self.hvars if v.hostarg]
        for v in hargs:
            w("  %s :: %s" % (self._ftype(v.type, v.kind), v.local))
        if par:
            w("  integer, save :: sbase")
            w("contains")
            w("  subroutine vdmain()")
            w("    interface")
            w("      subroutine vt_run(region, n) bind(c, name='vt_run')")
            w("        use iso_c_binding, only: c_int")
            w("        integer(c_int), value :: region, n")
            w("      end subroutine")
            w("    end interface")
        if self.resize:
            w("  integer :: rz(5), rk")
            w("  character(len=16) :: rarg")
            w("  rz = -1")
            w("  do rk = 1, min(5, command_argument_count())")
            w("    call get_command_argument(rk, rarg)")
            w("    read(rarg, *) rz(rk)")
            w("  end do")
        w("  call vl_open('vlog.txt')")
        for v in self.hvars:
            if v.elem_of is not None:
                continue
            ex = self.fexpr(v)
            if v.dims:
                ds = []
                for i in range(len(v.dims)):
                    d, lo = self._dimlocal(v, i)
                    ds.append("%s:%s" % (lo, d) if lo else d)
                al = "allocate(%s(%s))" % (self.bare(v), ",".join(ds))
                if v.unalloc:
                    w("  if (%s) then" % self._fcond(v.cond))
                    w("    " + al)
                    w("    call vl_init(%s, %d)" % (ex, v.key))
                    w("  end if")
                else:
                    w("  " + al)
                    w("  call vl_init(%s, %d)" % (ex, v.key))
            else:
                w("  call vl_init(%s, %d)" % (ex, v.key))
        w("  call dump()")
        for i, a in enumerate(self.actions):
            if a["op"] == "set":
                c = [c for c in self.conds if c.std == a["std"]][0]
                val = (".true." if a["value"] else ".false.") if c.type == "logical" else "%d" % a["value"]
                w("  %s = %s" % (c.local, val))
                continue
            if "region" in a:
                if a["thread"] == 0 and self.actions[i - 1].get("region") != a["region"]:
                    nt = len(self.regions[a["region"]])
                    w("  sbase = vl_seq")
                    w("  call vt_run(%d, %d)" % (a["region"], nt))
                    for t in range(nt):
                        w("  call vl_include('vlog.%d.%d')" % (a["region"], t + 1))
                    w("  vl_seq = sbase + %d" % (1000 * (nt + 1)))
                    w("  call dump()")
                continue
            if self.resize:
                w("  if (rz(1) == %d) call resize()" % i)
            w("  call a%d()" % i)
            if self.resize:
                w("  if (rz(5) == %d) stop" % i)
        w("  call intro()")
        w("  end subroutine" if par else "contains")
        if par:
            w("  recursive subroutine vt_body(region, thread) bind(c, name='vt_body')")
            w("    use iso_c_binding, only: c_int")
            w("    integer(c_int), intent(in) :: region, thread")
            w("    character(len=32) :: fn")
            w("    write(fn, '(a,i0,a,i0)') 'vlog.', region, '.', thread")
            w("    call vl_tbegin(fn, 100 + thread, sbase + 1000*thread, 7*region + 131*thread)")
            w("    select case(100*region + thread)")
            last = None
            for i, a in enumerate(self.actions):
                if "region" in a:
                    if last != (a["region"], a["thread"]):
                        last = (a["region"], a["thread"])
                        w("    case(%d)" % (100 * a["region"] + a["thread"] + 1))
                    w("      call a%d()" % i)
            w("    end select")
            w("    call vl_tend()")
            w("  end subroutine")
        if self.resize:
            w("  subroutine resize()")
            w("  select case(rz(2))")
            for k, v in enumerate(self.hvars):
                if v.elem_of is not None or not v.dims or v.unalloc:
                    continue
                ex = self.fexpr(v)
                w("  case(%d)" % k)
                w("    deallocate(%s)" % self.bare(v))
                ds = []
                for i in range(len(v.dims)):
                    d, lo = self._dimlocal(v, i)
                    ds.append("%s%s + merge(rz(4), 0, rz(3) == %d)" % (lo + ":" if lo else "", d, i))
                w("    allocate(%s(%s))" % (self.bare(v), ", &\n      ".join(ds)))
                w("    call vl_init(%s, %d)" % (ex, v.key))
            for k, x in enumerate(self.dims.values()):
                if not x.parameter:
                    w("  case(%d)" % (1000 + k))
                    w("    %s = %s + rz(4)" % (x.local, x.local))
            w("  end select")
            w("  end subroutine")
        for i, a in enumerate(self.actions):
            if a["op"] == "set":
                continue
            w("  %ssubroutine a%d()" % ("recursive " if par else "", i))
            if par:
                w("  character(len=512) :: errmsg")
                w("  integer :: errflg")
            w("  call vl_call('%d')" % i)
            w("  vl_fail_code = %d" % (3 + i % 5))
            if a["fail"]:
                w("  vl_fail_at = vl_seq + %d" % a["fail"])
            else:
                w("  vl_fail_at = -1")
            w("  errflg = -77; errmsg = 'unset'")
            args = ["'%s'" % a["suite"]]
            if a["phase"] == "run":
                args.append("'%s'" % a["part"])
                args += ["col_start=%d" % a["cs"], "col_end=%d" % a["ce"]]
            args += ["%s=%s" % (v.local, v.local) for v in hargs]
            args += ["errmsg=errmsg", "errflg=errflg"]
            if a.get("omp"):
                # in the first of two threads, so that all memory is used by the same thread as before
                w("  !$omp parallel num_threads(2) default(shared)")
                w("  !$omp master")
            w("  call %s_ccpp_physics_%s(%s)" % (h, HOSTPHASE[a["phase"]], ", &\n      ".join(args)))
            if a.get("omp"):
                w("  !$omp end master")
                w("  !$omp end parallel")
            w("  call vl_ret(errflg, errmsg)")
            if "region" not in a:
                w("  call dump()")
            w("  end subroutine")
        w("  subroutine dump()")
        for v in self.hvars:
            if v.elem_of is not None:
                continue
            ex = self.fexpr(v)
            st = "call vl_dump('%s', %s)" % (v.std, ex)
            if v.unalloc:
                w("    if (allocated(%s)) %s" % (ex, st))
            else:
                w("    " + st)
        for d in list(self.dims.values()) + self.conds + self.elems + self.loopvars:
            w("    call vl_dump('%s', %s)" % (d.std, d.local))
        w("  end subroutine")
        w("  subroutine intro()")
        w("    character(len=128), allocatable :: lst(:)")
        w("    integer :: k")
        w("    call ccpp_physics_suite_list(lst)")
        w("    call plist('suites', lst)")
        names = [s.name for s in self.suites] + ["nosuchsuite"]
        for n in names:
            for nm, rt in (("parts", "part_list"), ("schemes", "schemes")):
                w("    call ccpp_physics_suite_%s('%s', lst, errmsg, errflg)" % (rt, n))
                w("    call pres('%s:%s')" % (nm, n))
                w("    if (errflg == 0) call plist('%s:%s', lst)" % (nm, n))
                w("    if (allocated(lst)) deallocate(lst)")
            for iv in (None, True, False):
                for ov in (None, True, False):
                    for se in (None, True, False):
                        kw = []
                        key = ""
                        for k, x in (("input_vars", iv), ("output_vars", ov), ("struct_elements", se)):
                            key += "-" if x is None else ("T" if x else "F")
                            if x is not None:
                                kw.append("%s=.%s." % (k, str(x).lower()))
                        w("    call ccpp_physics_suite_variables(%s)" % ", ".join(["'%s'" % n, "lst", "errmsg", "errflg"] + kw))
                        w("    call pres('vars:%s:%s')" % (n, key))
                        w("    if (errflg == 0) call plist('vars:%s:%s', lst)" % (n, key))
                        w("    if (allocated(lst)) deallocate(lst)")
        w("  end subroutine")
        w("  subroutine pres(k)")
        w("    character(len=*), intent(in) :: k")
        w("    character(len=16) :: b")
        w("    write(b, '(i0)') errflg")
        w("    call vl_note('IE '//k//' '//trim(b)//' '//trim(errmsg))")
        w("  end subroutine")
        w("  subroutine plist(k, l)")
        w("    character(len=*), intent(in) :: k")
        w("    character(len=*), intent(in) :: l(:)")
        w("    integer :: i")
        w("    do i = 1, size(l)")
        w("      call vl_note('IL '//k//' '//trim(l(i)))")
        w("    end do")
        w("  end subroutine")
        if par:
            w("end module vdmod")
            w("program vdriver")
            w("  use vdmod, only: vdmain")
            w("  call vdmain()")
        w("end program vdriver")
        return "\n".join(o) + "\n"

    def _fcond(self, c):
        return self.cond_text(c, lambda o: o.local)

    def write(self, d):
        os.makedirs(d, exist_ok=True)
        for fn, tx in self.files().items():
            with open(os.path.join(d, fn), "w") as f:
                f.write(tx)
        with open(os.path.join(d, "vdriver.F90"), "w") as f:
            f.write(self.driver())
