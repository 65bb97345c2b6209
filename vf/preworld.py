"""Random host/scheme/suite worlds for ccpp_prebuild: generation and emission."""
import os
from . import units as U
from . import core
from .core import rng
from .capworld import Obj, WORDS, LOCALPOOL, World as CapWorld

STAGES = ["init", "timestep_init", "run", "timestep_finalize", "finalize"]
HD, HE = "horizontal_dimension", "horizontal_loop_extent"
HB, HN = "horizontal_loop_begin", "horizontal_loop_end"
VD = "vertical_dimension"
ONE = "ccpp_constant_one"
RESERVED = {"cdata", "ierr", "ib", "nb", "cnt", "one", "errmsg", "errflg", "ccpp_t", "b", "t", "i", "cd", "suite_name",
            "group_name", "p", "x", "e", "v"}

DEFAULT = dict(
    layouts=["chunked", "blocked", "mixed", "simple"], n_modules=(1, 3), n_vars=(6, 13), n_schemes=(2, 5), n_suites=(1, 2),
    n_groups=(1, 3), n_sub=(1, 2), n_items=(1, 3), n_args=(2, 6), p_loop=0.35, p_ddt=0.6, p_nested=0.3, p_elem=0.25,
    p_active=0.25, p_unitdiff=0.25, p_optional=0.08, p_explicit=0.3, p_low=0.15, p_thread=0.3, p_debug=0.3, p_unalloc=0.4,
    p_perm=0.15, p_setcond=0.5, p_fail=0.1, p_illegal=0.15, p_inst=0.3, p_unknown=0.1, p_again=0.15, p_groupcall=0.4,
    p_entry=dict(init=0.5, timestep_init=0.4, run=0.9, timestep_finalize=0.35, finalize=0.35), p_repeat=0.25,
    p_special=0.4, steps=(1, 2), p_noargs=0.08, p_partial=0.2, p_styles=0.3, p_split=0.4, p_ctl=0.5, par=0)


class PWorld:
    def __init__(self, seed, prof=None, tag="p"):
        self.p = dict(DEFAULT)
        self.p.update(prof or {})
        self.r = rng("preworld", tag, seed)
        self.used_std, self.used_loc = set(), set(RESERVED)
        self._gen()

    def ch(self, n):
        return self.r.random() < self.p[n]

    def num(self, n):
        return self.r.randint(*self.p[n])

    def std(self, prefix=""):
        while True:
            nm = prefix + "_".join(self.r.choice(WORDS) for _ in range(self.r.randint(1, 4)))
            if self.r.random() < 0.3 and self.used_std:
                nm = (self.r.choice(sorted(self.used_std)) + "_" + self.r.choice(WORDS))[:55].rstrip("_")
            if nm not in self.used_std and nm not in ("at", "of", "to", "in"):
                self.used_std.add(nm)
                return nm

    def loc(self, base=None):
        k = 0
        while True:
            nm = base or self.r.choice(LOCALPOOL)
            if k or (base is None and self.r.random() < 0.4):
                nm += "_%d" % self.r.randint(0, 99)
            k += 1
            if nm.lower() not in self.used_loc:
                self.used_loc.add(nm.lower())
                return nm

    # ------------------------------------------------------------------ generation
    def _gen(self):
        r, p = self.r, self.p
        self.layout = r.choice(p["layouts"])
        self.debug = self.ch("p_debug")
        self.modules = ["hdat_%s" % "abc"[i] for i in range(self.num("n_modules"))]
        nb = r.randint(1, 4) if self.layout != "simple" else 1
        self.blk = [r.randint(1, 4) for _ in range(nb)]
        if self.layout == "simple":
            self.blk = [r.randint(1, 6)]
        if p["par"]:
            self.blk = [r.randint(1, 4) for _ in range(r.randint(2, 8))]
        self.ncols = sum(self.blk)
        self.nthr = r.randint(2, 6) if p["par"] else r.randint(1, 3)
        self.homes = [Obj(kind="mod", type=None, module=m, prefix="", drv="", imod=m, parent=None) for m in self.modules]
        self.chunks = self.layout in ("chunked", "mixed")
        self.blocks = self.layout in ("blocked", "mixed")
        last = self.modules[-1]

        def ddt(kind, base, parent=None):
            tm = r.choice(self.modules)
            im = r.choice(self.modules[self.modules.index(tm):])
            h = Obj(kind=kind, type=self.loc(base + "_type").lower(), module=tm, imod=im, parent=parent, inst=self.loc(base),
                    std=self.std("instance_of_"))
            if parent is not None:
                # the member's type must be known where the parent's type is defined
                h.module = r.choice(self.modules[:self.modules.index(parent.module) + 1])
                h.kind = parent.kind
                h.prefix = parent.prefix + "%" + h.inst
                h.drv = parent.drv + "%" + h.inst
            elif kind == "blk":
                h.prefix, h.drv = h.inst + "(cdata%blk_no)", h.inst + "(@)"
            elif kind == "thr":
                h.prefix, h.drv = h.inst + "(cdata%thrd_no)", h.inst + "(@)"
            else:
                h.prefix = h.drv = h.inst
            self.homes.append(h)
            return h
        self.ctl = None
        if self.ch("p_ctl"):
            self.ctl = ddt("ddt", "ctl")
        if self.ch("p_ddt"):
            for _ in range(r.randint(1, 2)):
                ddt("ddt", r.choice(["phys", "sfc", "state"]))
        if self.blocks:
            ddt("blk", "bdata")
            if r.random() < 0.3:
                ddt("blk", "bmore")
        if self.blocks and self.ch("p_thread"):
            ddt("thr", "inters")
        for h in list(self.homes):
            if h.kind in ("ddt", "blk", "thr") and self.ch("p_nested"):
                ddt(h.kind, r.choice(["sub", "part", "grid"]), h)
        # scalars: dimensions, conditions, indices
        self.scal = {}

        def scalar(std, base, value, type_="integer", units="count"):
            home = r.choice([h for h in self.homes if h.kind == "mod"])
            if self.ctl and r.random() < 0.6 and std not in (HE,):
                home = self.ctl
            o = Obj(std=std, local=self.loc(base), home=home, value=value, type=type_, units=units)
            self.scal[std] = o
            self.used_std.add(std)
            return o
        scalar(HD, r.choice(["ncols", "im_all", "nCol"]), self.ncols)
        scalar(VD, r.choice(["levs", "km"]), r.randint(1, 3))
        self.xdims = [VD]
        for _ in range(r.randint(0, 2)):
            s = self.std("number_of_")
            scalar(s, None, r.randint(1, 3))
            self.xdims.append(s)
        if self.layout == "simple":
            scalar(HE, "im", self.ncols)
        self.lown = None
        if self.ch("p_low"):
            self.lown = self.std("first_index_of_")
            scalar(self.lown, None, r.randint(0, 1), units="index")
        self.conds = []
        if p["p_active"] > 0:
            for _ in range(r.randint(1, 3)):
                if r.random() < 0.7:
                    o = scalar(self.std("flag_for_"), None, r.random() < 0.5, "logical", "flag")
                else:
                    o = scalar(self.std("control_for_"), None, r.randint(0, 3), units="1")
                self.conds.append(o)
        self.setcond = self.conds and self.ch("p_setcond")
        # arrays and scalars with data
        self.vars = []
        for i in range(self.num("n_vars")):
            self._var(i)
        self._schemes()
        self._suites()
        self._args()
        self._actions()

    def _condition(self):
        r = self.r

        def atom():
            c = r.choice(self.conds)
            if c.type == "logical":
                return r.choice([("l", c), ("l", c), ("nl", c)])
            return ("i", c) + r.choice([(">", 1), ("==", 2), ("<", 2), (">=", 1), ("/=", 0), ("<=", 1)])
        a = atom()
        if r.random() < 0.35:
            return (r.choice(["and", "or"]), a, atom())
        return a

    def _var(self, i):
        r, p = self.r, self.p
        home = r.choice(self.homes)
        if r.random() < 0.3 and home.kind == "mod":
            home = r.choice(self.homes)
        typ = r.choices(["real", "integer", "logical", "character"], [0.7, 0.15, 0.08, 0.07])[0]
        kind, units = "", "1"
        if typ == "real":
            kind = r.choices(["kind_phys", "kind_sp"], [0.85, 0.15])[0]
            fam = r.choice(sorted(U.FAMILIES))
            units = r.choice(sorted(U.FAMILIES[fam])) if r.random() < 0.75 else r.choice(U.UNITS_ONLY)
        elif typ == "character":
            kind = "len=%d" % r.choice([8, 16, 33])
            units = "none"
        elif typ == "logical":
            units = "flag"
        blkish = home.kind in ("blk", "thr")
        hor = r.random() < (0.85 if blkish else 0.6)
        if blkish and not hor and home.kind == "blk":
            hor = True                    # without a horizontal dimension only usable in run: kept for threads
        dims = []
        if hor:
            dims.append(HE if blkish or (self.layout == "simple" and r.random() < 0.3) else HD)
        if typ != "character" or r.random() < 0.3:
            for _ in range(r.choice([0, 0, 1, 1, 2]) if hor else r.choice([0, 0, 1, 2])):
                dims.append(r.choice(self.xdims))
        if typ == "character" and home.kind == "thr":
            hor, dims = False, []        # character arrays are passed whole
        if hor and len(dims) > 1 and self.ch("p_perm"):
            k = r.randrange(len(dims))
            dims[0], dims[k] = dims[k], dims[0]
        low = [None] * len(dims)
        for k, d in enumerate(dims):
            if d not in (HD, HE) and self.ch("p_low"):
                low[k] = r.choice(["0", "-1", self.lown or "0"])
        v = Obj(std=self.std(), local=self.loc(), home=home, type=typ, kind=kind, units=units, dims=dims, low=low,
                cond=None, unalloc=False, key=i, elem_of=None, idx=None,
                ptr=bool(dims) and r.random() < 0.3)
        if self.conds and self.ch("p_active"):
            v.cond = self._condition()
            v.unalloc = bool(dims) and not self.setcond and self.ch("p_unalloc")
        self.vars.append(v)
        # an element of the last dimension as a variable of its own
        if len(dims) >= 2 and dims[-1] not in (HD, HE) and low[-1] is None and v.cond is None and self.ch("p_elem"):
            n = self.scal[dims[-1]].value
            for k in r.sample(range(1, n + 1), r.randint(1, min(2, n))):
                if r.random() < 0.3:
                    idx, txt = None, str(k)
                else:
                    s = self.std("index_of_")
                    idx = Obj(std=s, local=self.loc(), home=r.choice([h for h in self.homes if h.kind == "mod"]), value=k,
                              type="integer", units="index")
                    if self.ctl and r.random() < 0.5:
                        idx.home = self.ctl
                    self.scal[s] = idx
                    txt = s
                self.vars.append(Obj(std=self.std(), local="%s(%s)" % (v.local, ",".join([":"] * (len(dims) - 1) + [txt])),
                                     home=home, type=typ, kind=kind, units=units, dims=dims[:-1], low=low[:-1], cond=None,
                                     unalloc=False, key=i, elem_of=v, idx=k, ptr=False))

    def _schemes(self):
        r, p = self.r, self.p
        self.schemes = []
        names = ["rad_pre", "GFS_pbl", "micro", "sfc_drv", "cu_deep", "gwd", "Noah_lsm", "ozphys", "finalize_sums",
                 "my_init_mod", "rrtmg", "timestep_init_helper", "run_stats", "x1"]
        r.shuffle(names)
        for i in range(self.num("n_schemes")):
            s = Obj(name=names[i], entries={})
            for st in STAGES:
                if r.random() < p["p_entry"][st]:
                    s.entries[st] = Obj(args=[], empty=False)
            if not s.entries:
                s.entries["run"] = Obj(args=[], empty=False)
            s.order = list(s.entries)
            r.shuffle(s.order)
            for e in s.entries.values():
                if self.ch("p_noargs"):
                    e.empty = True
            self.schemes.append(s)
        self.scheme = {s.name: s for s in self.schemes}

    def _suites(self):
        r = self.r
        self.suites = []
        names = ["suite_a", "FV3_test", "s2", "simple_phys", "Z"]
        r.shuffle(names)
        gnames = ["radiation", "physics", "stochastics", "fast_phys", "g1"]
        free = [s.name for s in self.schemes]
        for i in range(self.num("n_suites")):
            r.shuffle(gnames)
            groups = []
            for g in range(self.num("n_groups")):
                subs = []
                for _ in range(self.num("n_sub")):
                    n = self.num("n_items")
                    pool = free if r.random() < 0.5 else r.sample(free, min(len(free), n))
                    its = [r.choice(pool) for _ in range(n)] if self.ch("p_repeat") else r.sample(free, min(n, len(free)))
                    subs.append((r.randint(2, 3) if self.ch("p_loop") else 1, its))
                groups.append((gnames[g], subs))
            self.suites.append(Obj(name=names[i], groups=groups, file=r.choice(["%s.xml", "suite_%s.xml"]) % names[i]))
        self.uses = {n for s in self.suites for _, subs in s.groups for _, its in subs for n in its}

    def usable(self, v, st):
        k = v.home.kind
        if st != "run":
            if k == "thr":
                return False
            if k == "blk" and HE not in v.dims:
                return False
            if k in ("mod", "ddt") and HE in v.dims:
                return False
        elif self.layout == "blocked" and HD in v.dims:
            return False
        return True

    def _args(self):
        r, p = self.r, self.p
        for s in self.schemes:
            for st, e in s.entries.items():
                if e.empty:
                    continue
                pool = [v for v in self.vars if self.usable(v, st)]
                r.shuffle(pool)
                used = set()
                roots = {}
                for v in pool[:self.num("n_args")]:
                    intent = r.choices(["in", "inout", "out"], [0.4, 0.4, 0.2])[0]
                    if p["par"] and st == "run" and v.home.kind not in ("blk", "thr") and HD not in v.dims:
                        intent = "in"
                    root = (v.elem_of or v).std
                    # overlapping storage only when it is only read
                    if root in roots:
                        if intent != "in" or any(x.intent != "in" for x in roots[root]):
                            if not (v.elem_of and all(x.elem_of and x.elem_idx != v.idx for x in roots[root])):
                                continue
                    units = v.units
                    if v.type == "real" and self.ch("p_unitdiff") and U.family_of(v.units):
                        c = U.partners(U.family_of(v.units), v.units)
                        if c:
                            units = r.choice(c)
                    kind = v.kind
                    if v.type == "character" and r.random() < 0.6:
                        kind = "len=*"
                    a = Obj(std=v.std, src=v, type=v.type, kind=kind, units=units, intent=intent, dims=list(v.dims),
                            optional=v.cond is not None or self.ch("p_optional"), special=None, local=None, explicit=False,
                            elem_of=v.elem_of, elem_idx=v.idx)
                    roots.setdefault(root, []).append(a)
                    e.args.append(a)
                # specials
                def special(std, typ="integer", units="count"):
                    if std in [a.std for a in e.args]:
                        return
                    e.args.insert(r.randrange(len(e.args) + 1), Obj(
                        std=std, src=None, type=typ, kind="", units=units, intent="in", dims=[], optional=False, special=std,
                        local=None, explicit=False))
                if self.ch("p_special"):
                    c = [d for d in self.xdims] + [o.std for o in self.conds]
                    if st == "run":
                        c += ["ccpp_loop_counter", "ccpp_loop_extent", "ccpp_loop_counter"]
                        if self.blocks:
                            c += ["ccpp_block_number"]
                        if self.layout != "chunked":
                            c += [HE]
                    else:
                        c += [HD, "ccpp_loop_counter", "ccpp_loop_extent"]
                    c += ["ccpp_instance", "ccpp_thread_count", "ccpp_chunk_number"] + (["ccpp_thread_number"] if st == "run" else [])
                    for x in r.sample(c, min(len(c), r.randint(1, 3))):
                        o = self.scal.get(x)
                        special(x, o.type if o else "integer", o.units if o else
                                {"ccpp_loop_counter": "index", "ccpp_block_number": "index", "ccpp_instance": "index",
                                 "ccpp_thread_number": "index", "ccpp_chunk_number": "index", "ccpp_thread_count": "index"}.get(x, "count"))
                for a in e.args:
                    base = a.local
                    while base is None or base.lower() in used:
                        base = r.choice(LOCALPOOL) + ("" if r.random() < 0.5 else str(r.randint(0, 9)))
                        if base.lower() in RESERVED:
                            base = None
                    if a.src is not None and r.random() < 0.3 and "(" not in a.src.local and a.src.local.lower() not in used:
                        base = a.src.local
                    a.local = base
                    used.add(base.lower())
                # explicit shapes need their dimensions as arguments
                stds = {a.std for a in e.args}
                for a in e.args:
                    if a.src is not None and a.dims and self.ch("p_explicit") and not any(a.src.low):
                        need = [self.sdim(d, st) for d in a.dims]
                        if set(need) <= stds:
                            a.explicit = True

    @staticmethod
    def sdim(d, st):
        if d in (HD, HE):
            return HE if st == "run" else HD
        return d

    # ------------------------------------------------------------------ driver actions
    def _actions(self):
        r, p = self.r, self.p
        acts = self.actions = []

        def call(st, suite, group=None, b=1, t=1, inst=1, fail=0):
            acts.append(dict(op="call", st=st, suite=suite, group=group, b=b, t=t, inst=inst, fail=fail))

        def conds():
            if self.setcond and r.random() < 0.6:
                c = r.choice(self.conds)
                acts.append(dict(op="set", std=c.std, value=(r.random() < 0.5) if c.type == "logical" else r.randint(0, 3)))

        def stage(st, s, inst):
            fail = r.randint(1, 4) if self.ch("p_fail") else 0
            gs = [g for g, _ in s.groups]
            if st == "run":
                bs = list(range(1, len(self.blk) + 1))
                if r.random() < 0.4:
                    r.shuffle(bs)
                if self.ch("p_partial"):
                    bs = bs[:r.randint(1, len(bs))]
                split = self.ch("p_groupcall")
                if p["par"]:
                    # each thread has its own control structure and works on some of the blocks or chunks
                    for part in ([[g] for g in gs] if split and r.random() < 0.5 else [gs if split else [None]]):
                        nt = min(len(bs), r.randint(2, self.nthr))
                        self.regions.append(nt)
                        for t in range(nt):
                            for b in bs[t::nt]:
                                for g in part:
                                    call(st, s.name, g, b, t + 1, inst, r.randint(1, 4) if self.ch("p_fail") else 0)
                                    acts[-1].update(region=len(self.regions) - 1)
                    conds()
                    return
                for b in bs:
                    t = r.randint(1, self.nthr)
                    if split:
                        for g in gs:
                            call(st, s.name, g, b, t, inst, fail)
                    else:
                        call(st, s.name, None, b, t, inst, fail)
                    fail = 0
                    if r.random() < 0.3:
                        conds()
            elif self.ch("p_groupcall"):
                for g in (gs if r.random() < 0.7 else r.sample(gs, len(gs))):
                    call(st, s.name, g, 1, 1, inst, fail)
                    fail = 0
            else:
                call(st, s.name, None, 1, 1, inst, fail)
            conds()

        def noise():
            s = r.choice(self.suites)
            inst = r.choice(self.insts)
            x = r.random()
            if self.ch("p_illegal"):
                call(r.choice(STAGES[1:]), s.name, r.choice([None, r.choice(s.groups)[0]]), r.randint(1, len(self.blk)), 1,
                     r.choice([inst, inst, 7]))
            if self.ch("p_again"):
                call("init", s.name, r.choice([None, r.choice(s.groups)[0]]), 1, 1, inst)
            if self.ch("p_unknown"):
                if x < 0.5:
                    call(r.choice(STAGES), r.choice([s.name + "x", "none", s.name[:-1] or "q", "sui"]))
                else:
                    call(r.choice(STAGES), s.name, r.choice(["nogroup", s.groups[0][0] + "_x", "init"]))
        self.regions = []
        self.insts = [1]
        if self.ch("p_inst"):
            self.insts = r.sample([1, 2, 3, 199, 200], r.randint(2, 3))
        for cyc in range(1 if r.random() < 0.7 else 2):
            noise()
            for s in self.suites:
                for inst in self.insts:
                    stage("init", s, inst)
                    if r.random() < 0.3:
                        noise()
            for step in range(self.num("steps")):
                for s in self.suites:
                    for inst in self.insts:
                        stage("timestep_init", s, inst)
                        stage("run", s, inst)
                        stage("timestep_finalize", s, inst)
                noise()
            for s in self.suites:
                for inst in self.insts:
                    if r.random() < 0.9:
                        stage("finalize", s, inst)
                    noise()
                    if len(self.insts) > 1 and r.random() < 0.4:
                        stage("run", s, r.choice(self.insts))

    # ------------------------------------------------------------------ emission
    @staticmethod
    def mvar(o, local, std, typ, kind, units, dims, extra=()):
        o += ["[%s]" % local, "  standard_name = %s" % std, "  long_name = some text about %s" % std.replace("_", " "),
              "  units = %s" % units, "  dimensions = (%s)" % ",".join(dims), "  type = %s" % typ]
        if kind and not (kind == "kind_phys" and len(local) % 5 == 1):
            o.append("  kind = %s" % kind)       # kind_phys is the default kind
        o += ["  %s = %s" % kv for kv in extra]

    @staticmethod
    def ftype(typ, kind):
        if typ == "real":
            return "real(kind=%s)" % kind if kind else "real"
        if typ == "character":
            return "character(len=%s)" % kind.split("=")[1]
        return typ

    def mdims(self, v):
        res = []
        for d, lo in zip(v.dims, v.low):
            if lo is not None:
                res.append("%s:%s" % (lo, d))
            else:
                res.append(("%s:%s" % (ONE, d)) if self.r.random() < self.p["p_styles"] else d)
        return res

    def host_files(self):
        files = {}
        files["ccpp_kinds.F90"] = "\n".join([
            "module ccpp_kinds", "!! \\section arg_table_ccpp_kinds", "!! \\htmlinclude ccpp_kinds.html", "!!",
            "  use iso_fortran_env, only: real32, real64", "  implicit none", "  integer, parameter :: kind_phys = real64",
            "  integer, parameter :: kind_sp = real32", "end module ccpp_kinds", ""])
        o = ["[ccpp-table-properties]", "  name = ccpp_kinds", "  type = module", "  dependencies =", "",
             "[ccpp-arg-table]", "  name = ccpp_kinds", "  type = module"]
        for k in ("kind_phys", "kind_sp"):
            self.mvar(o, k, k, "integer", "", "none", [])
        files["ccpp_kinds.meta"] = "\n".join(o) + "\n"
        for m in self.modules:
            f = ["module %s" % m, "!! \\section arg_table_%s Argument Table" % m, "!! \\htmlinclude %s.html" % m, "!!",
                 "  use ccpp_kinds, only: kind_phys, kind_sp"]
            need = sorted({h.module for h in self.homes if h.kind != "mod" and
                           ((h.parent is None and h.imod == m) or (h.parent is not None and h.parent.module == m))} - {m})
            f += ["  use %s" % x for x in need]
            f += ["  implicit none", "  public"]
            mt = []
            # types, members' types first
            th = [h for h in self.homes if h.kind != "mod" and h.module == m]
            th.sort(key=lambda h: -self._depth(h))
            for h in th:
                f += ["!! \\section arg_table_%s" % h.type, "!! \\htmlinclude %s.html" % h.type, "!!", "  type %s" % h.type]
                t = ["[ccpp-table-properties]", "  name = %s" % h.type, "  type = ddt", "  dependencies =", "",
                     "[ccpp-arg-table]", "  name = %s" % h.type, "  type = ddt"]
                n0 = len(f)
                self._members(h, f, t)
                if len(f) == n0:
                    f.append("    integer :: unused_member = 0")
                f.append("  end type %s" % h.type)
                mt += t
            t = ["[ccpp-table-properties]", "  name = %s" % m, "  type = module", "  dependencies =", "",
                 "[ccpp-arg-table]", "  name = %s" % m, "  type = module"]
            for h in th:
                self.mvar(t, h.type, h.type, h.type, "", "DDT", [])
            if m == self.modules[-1]:
                self.mvar(t, "cdata", "ccpp_t_instance", "ccpp_t", "", "DDT", [])
            for h in self.homes:
                if h.kind != "mod" and h.parent is None and h.imod == m:
                    if h.kind == "ddt":
                        f.append("  type(%s), target :: %s" % (h.type, h.inst))
                        self.mvar(t, h.inst, h.std, h.type, "", "DDT", [])
                    else:
                        n = len(self.blk) if h.kind == "blk" else self.nthr
                        no, cnt = (("ccpp_block_number", "ccpp_block_count") if h.kind == "blk" else
                                   ("ccpp_thread_number", "ccpp_thread_count"))
                        f.append("  type(%s), dimension(%d), target :: %s" % (h.type, n, h.inst))
                        self.mvar(t, "%s(%s)" % (h.inst, no), h.std, h.type, "", "DDT", [])
                        self.mvar(t, h.inst, h.std + "_all", h.type, "", "DDT", [cnt])
            self._members(next(h for h in self.homes if h.kind == "mod" and h.module == m), f, t)
            if m == self.modules[0]:
                nbk = len(self.blk)
                beg = [1 + sum(self.blk[:k]) for k in range(nbk)]
                end = [sum(self.blk[:k + 1]) for k in range(nbk)]
                if self.chunks:
                    f += ["  integer :: nchunks = %d" % nbk, "  integer :: chunk_beg(%d) = (/%s/)" % (nbk, ",".join(map(str, beg))),
                          "  integer :: chunk_end(%d) = (/%s/)" % (nbk, ",".join(map(str, end)))]
                    self.mvar(t, "nchunks", "ccpp_chunk_extent", "integer", "", "count", [])
                    for nm, sn in (("chunk_beg", HB), ("chunk_end", HN)):
                        self.mvar(t, nm, sn + "_all_chunks", "integer", "", "index", ["ccpp_chunk_extent"])
                        self.mvar(t, nm + "(ccpp_chunk_number)", sn, "integer", "", "index", [])
                if self.blocks:
                    f += ["  integer :: nblks = %d" % nbk, "  integer :: blksz(%d) = (/%s/)" % (nbk, ",".join(map(str, self.blk)))]
                    self.mvar(t, "nblks", "ccpp_block_count", "integer", "", "count", [])
                    self.mvar(t, "blksz", "ccpp_block_sizes", "integer", "", "count", ["ccpp_block_count"])
                    self.mvar(t, "blksz(ccpp_block_number)", HE, "integer", "", "count", [])
            mt += t
            f += ["end module %s" % m, ""]
            files[m + ".F90"] = "\n".join(f)
            files[m + ".meta"] = "\n".join(mt) + "\n"
        return files

    def _depth(self, h):
        d = 0
        while h.parent is not None:
            h, d = h.parent, d + 1
        return d

    def _members(self, h, f, t):
        tgt = ", target" if h.kind == "mod" else ""
        for c in self.homes:
            if c.parent is h:
                f.append("    type(%s) :: %s" % (c.type, c.inst))
                self.mvar(t, c.inst, c.std, c.type, "", "DDT", [])
        for o in self.scal.values():
            if o.home is h:
                val = (".true." if o.value else ".false.") if o.type == "logical" else str(o.value)
                f.append("    %s :: %s = %s" % (o.type, o.local, val))
                self.mvar(t, o.local, o.std, o.type, "", o.units, [])
        for v in self.vars:
            if v.home is not h:
                continue
            extra = [("active", "(%s)" % CapWorld.cond_text(v.cond))] if v.cond is not None else []
            self.mvar(t, v.local, v.std, v.type, v.kind, v.units, self.mdims(v), extra)
            if v.elem_of is None:
                if v.dims:
                    f.append("    %s, %s%s :: %s(%s)%s" % (self.ftype(v.type, v.kind), "pointer" if v.ptr else "allocatable",
                             "" if v.ptr else tgt, v.local, ",".join([":"] * len(v.dims)), " => null()" if v.ptr else ""))
                else:
                    f.append("    %s%s :: %s" % (self.ftype(v.type, v.kind), tgt, v.local))

    def scheme_files(self):
        files = {}
        for s in self.schemes:
            f = ["module %s" % s.name, "  use ccpp_kinds, only: kind_phys, kind_sp", "  use vlog", "  implicit none", "  private"]
            f += ["  public :: %s_%s" % (s.name, st) for st in s.order] + ["contains"]
            m = ["[ccpp-table-properties]", "  name = %s" % s.name, "  type = scheme", "  dependencies = ccpp_kinds.F90"]
            for st in s.order:
                self._entry(s, st, s.entries[st], f, m)
            f += ["end module %s" % s.name, ""]
            files[s.name + ".F90"] = "\n".join(f)
            files[s.name + ".meta"] = "\n".join(m) + "\n"
        return files

    def _entry(self, s, st, e, f, m):
        nm = "%s_%s" % (s.name, st)
        if e.empty:
            f += ["!> \\section arg_table_%s Argument Table" % nm, "!!", "  subroutine %s()" % nm, "  end subroutine %s" % nm, ""] \
                if self.r.random() < 0.5 else ["  subroutine %s()" % nm, "  end subroutine %s" % nm, ""]
            return
        m += ["", "#" * 72, "[ccpp-arg-table]", "  name = %s" % nm, "  type = scheme"]
        names, decl, errs = [], [], []
        err = [("errmsg", "ccpp_error_message", "character", "len=*", "none"), ("errflg", "ccpp_error_code", "integer", "", "1")]
        first = self.r.random() < 0.4
        rows = ([("E", x) for x in err] if first else []) + [("A", a) for a in e.args] + ([] if first else [("E", x) for x in err])
        byst = {a.std: a for a in e.args}
        for k, a in rows:
            if k == "E":
                names.append(a[0])
                self.mvar(m, a[0], a[1], a[2], a[3], a[4], [], [("intent", "out")])
                decl.append("    %s, intent(out) :: %s" % (self.ftype(a[2], a[3]), a[0]))
                continue
            names.append(a.local)
            dims = []
            if a.src is not None:
                for d, lo in zip(a.dims, a.src.low):
                    sd = self.sdim(d, st)
                    dims.append("%s:%s" % (lo, sd) if lo is not None else
                                ("%s:%s" % (ONE, sd) if self.r.random() < self.p["p_styles"] else sd))
            self.mvar(m, a.local, a.std, a.type, a.kind, a.units, dims,
                      [("intent", a.intent)] + ([("optional", "True")] if a.optional else []))
            dim = ""
            if a.dims:
                dim = "(%s)" % ",".join(byst[self.sdim(d, st)].local for d in a.dims) if a.explicit else \
                    "(%s)" % ",".join([":"] * len(a.dims))
            line = "    %s, intent(%s)%s :: %s%s" % (self.ftype(a.type, a.kind), a.intent, ", optional" if a.optional else "",
                                                  a.local, dim)
            decl.insert(0, line) if a.special else decl.append(line)
        f += ["!> \\section arg_table_%s Argument Table" % nm, "!! \\htmlinclude %s.html" % nm, "!!"]
        f.append("  subroutine %s(%s)" % (nm, ", &\n      ".join(names)))
        f += decl + ["    errmsg = ''", "    errflg = 0", "    call vl_enter('%s')" % nm]
        for a in e.args:
            log = "vl_shape" if a.intent == "out" else "vl_arg"
            if a.optional:
                f += ["    if (present(%s)) then" % a.local, "      call %s('%s', %s)" % (log, a.local, a.local), "    else",
                      "      call vl_absent('%s')" % a.local, "    end if"]
            else:
                f.append("    call %s('%s', %s)" % (log, a.local, a.local))
        for k, a in enumerate(e.args):
            if a.intent != "in":
                up = "call vl_%s(%s, %d)" % ("set" if a.intent == "out" else "upd", a.local, k)
                f += ["    if (present(%s)) then" % a.local, "      " + up, "    end if"] if a.optional else ["    " + up]
        f += ["    if (vl_fails()) then", "      errflg = vl_fail_code", "      errmsg = 'failure in %s'" % nm, "    end if",
              "    call vl_leave()", "  end subroutine %s" % nm, ""]

    def suite_files(self):
        res = {}
        for s in self.suites:
            o = ['<?xml version="1.0" encoding="UTF-8"?>', '<suite name="%s" version="1">' % s.name]
            for g, subs in s.groups:
                o.append('  <group name="%s">' % g)
                for n, its in subs:
                    o.append('    <subcycle loop="%d">' % n)
                    o += ["      <scheme>%s</scheme>" % x for x in its]
                    o.append("    </subcycle>")
                o.append("  </group>")
            o.append("</suite>")
            res[s.file] = "\n".join(o) + "\n"
        return res

    def typedefs(self):
        t = {"ccpp_types": {"ccpp_t": "cdata", "MPI_Comm": "", "ccpp_types": ""}}
        for m in self.modules:
            t[m] = {m: ""}
            for h in self.homes:
                if h.kind != "mod" and h.module == m:
                    t[m][h.type] = h.prefix
        return t

    def var_files(self):
        return [os.path.join(core.REPO, "src", "ccpp_types.F90"), "ccpp_kinds.F90"] + [m + ".F90" for m in self.modules]

    def config(self):
        o = ["HOST_MODEL_IDENTIFIER = 'VF'", "VARIABLE_DEFINITION_FILES = %r" % self.var_files(),
             "TYPEDEFS_NEW_METADATA = %r" % self.typedefs(),
             "SCHEME_FILES = %r" % ["schemes/%s.F90" % s.name for s in self.schemes], "DEFAULT_BUILD_DIR = 'build'"]
        for a, b in (("TYPEDEFS", "TYPEDEFS"), ("SCHEMES", "SCHEMES"), ("CAPS", "CAPS")):
            o += ["%s_MAKEFILE = '{build_dir}/CCPP_%s.mk'" % (a, b), "%s_CMAKEFILE = '{build_dir}/CCPP_%s.cmake'" % (a, b),
                  "%s_SOURCEFILE = '{build_dir}/CCPP_%s.sh'" % (a, b)]
        o += ["CAPS_DIR = '{build_dir}/caps'", "SUITES_DIR = 'suites'", "OPTIONAL_ARGUMENTS = {}",
              "STATIC_API_DIR = '{build_dir}/api'", "STATIC_API_CMAKEFILE = '{build_dir}/CCPP_API.cmake'",
              "STATIC_API_SOURCEFILE = '{build_dir}/CCPP_API.sh'", "METADATA_HTML_OUTPUT_DIR = '{build_dir}'",
              "HTML_VARTABLE_FILE = '{build_dir}/CCPP_VARIABLES.html'", "LATEX_VARTABLE_FILE = '{build_dir}/CCPP_VARIABLES.tex'"]
        return "\n".join(o) + "\n"

    def files(self):
        if not hasattr(self, "_files"):
            f = dict(self.host_files())
            # schemes live in their own directory next to a file they depend on
            for k, x in self.scheme_files().items():
                f["schemes/" + k] = x.replace("dependencies = ccpp_kinds.F90", "dependencies = ../ccpp_kinds.F90")
            for k, x in self.suite_files().items():
                f["suites/" + k] = x
            f["ccpp_prebuild_config.py"] = self.config()
            f["vdriver.F90"] = self.driver()
            self._files = f
        return self._files

    def write(self, d):
        for k, x in self.files().items():
            fn = os.path.join(d, k)
            os.makedirs(os.path.dirname(fn), exist_ok=True)
            with open(fn, "w") as f:
                f.write(x)

    # ------------------------------------------------------------------ driver
    def expr(self, o, k=None):
        e = o.local
        if o.home.kind != "mod":
            e = o.home.drv + "%" + e
        return e.replace("@", str(k)) if k is not None else e

    def copies(self, v):
        return {"blk": list(range(1, len(self.blk) + 1)), "thr": list(range(1, self.nthr + 1))}.get(v.home.kind, [None])

    def fshape(self, v, k):
        """extents of copy <k> of host variable <v>"""
        res = []
        for d, lo in zip(v.dims, v.low):
            if d == HD or (d == HE and v.home.kind not in ("blk", "thr")):
                n = self.ncols
            elif d == HE:
                n = self.blk[k - 1] if v.home.kind == "blk" else max(self.blk)
            else:
                n = self.scal[d].value
            l = 1
            if lo is not None:
                l = self.scal[lo].value if lo in self.scal else int(lo)
            res.append((l, n))
        return res

    def driver(self):
        par = self.p["par"]
        o = ["module vdmod" if par else "program vdriver", "  use ccpp_types, only: ccpp_t", "  use ccpp_kinds"]
        o += ["  use %s" % m for m in self.modules]
        o += ["  use ccpp_static_api", "  use vlog", "  implicit none", "  type(ccpp_t), target :: cd", "  integer :: ierr"]
        if par:
            o += ["  integer, save :: sbase", "contains", "  subroutine vdmain()", "    interface",
                  "      subroutine vt_run(region, n) bind(c, name='vt_run')", "        use iso_c_binding, only: c_int",
                  "        integer(c_int), value :: region, n", "      end subroutine", "    end interface"]
        o.append("  call vl_open('vlog.txt')")
        body = []
        env = {s.std: s.value for s in self.scal.values()}
        dump = []
        for v in self.vars:
            if v.elem_of is not None:
                continue
            for k in self.copies(v):
                x = self.expr(v, k)
                if v.dims:
                    if v.unalloc and not CapWorld.cond_eval(v.cond, env):
                        continue
                    o.append("  allocate(%s(%s))" % (x, ",".join("%d:%d" % q for q in self.fshape(v, k))))
                o.append("  call vl_init(%s, %d)" % (x, v.key + (k or 0)))
                dump.append("    call vl_dump('%s%s', %s)" % (v.std, "#%d" % k if k else "", x))
        for s in self.scal.values():
            dump.append("    call vl_dump('%s', %s)" % (s.std, self.expr(s)))
        o.append("  call dump()")
        for i, a in enumerate(self.actions):
            if a["op"] == "set":
                val = a["value"]
                o.append("  %s = %s" % (self.expr(self.scal[a["std"]]),
                                       (".true." if val else ".false.") if isinstance(val, bool) else val))
                continue
            if "region" in a:
                if a["region"] != self.actions[i - 1].get("region"):
                    nt = self.regions[a["region"]]
                    o += ["  sbase = vl_seq", "  call vt_run(%d, %d)" % (a["region"], nt)]
                    o += ["  call vl_include('vlog.%d.%d')" % (a["region"], t + 1) for t in range(nt)]
                    o += ["  vl_seq = sbase + %d" % (1000 * (nt + 1)), "  call dump()"]
                    t0 = 0
                if a["t"] != t0:
                    body.append("    case(%d)" % (100 * a["region"] + a["t"]))
                    t0 = a["t"]
                o, keep = body, o
            o.append("  cd%%blk_no = %d; cd%%chunk_no = %d; cd%%thrd_no = %d; cd%%thrd_cnt = %d; cd%%ccpp_instance = %d" % (
                a["b"], a["b"], a["t"], self.nthr, a["inst"]))
            o.append("  cd%errmsg = ''; cd%errflg = 0; ierr = -77")
            o.append("  vl_fail_at = %s; vl_fail_code = %d" % ("vl_seq + %d" % a["fail"] if a["fail"] else "-1", 3 + i % 5))
            o.append("  call vl_call('%d')" % i)
            o.append("  call ccpp_physics_%s(cd, suite_name='%s'%s, ierr=ierr)" % (
                a["st"], a["suite"], ", group_name='%s'" % a["group"] if a["group"] else ""))
            o.append("  call vl_ret(ierr, cd%errmsg)")
            if par:
                o.append("  call cddump(cd)")
            if "region" in a:
                o = keep
            else:
                o.append("  call dump()")
        if par:
            o += ["  end subroutine vdmain", "  recursive subroutine vt_body(region, thread) bind(c, name='vt_body')",
                  "    use iso_c_binding, only: c_int", "    integer(c_int), intent(in) :: region, thread",
                  "    character(len=32) :: fn", "    type(ccpp_t), target :: cd", "    integer :: ierr",
                  "    write(fn, '(a,i0,a,i0)') 'vlog.', region, '.', thread",
                  "    call vl_tbegin(fn, 100 + thread, sbase + 1000*thread, 7*region + 131*thread)",
                  "    select case(100*region + thread)"] + body + ["    end select", "    call vl_tend()", "  end subroutine vt_body"]
            o += ["  subroutine dump()"] + dump + ["  end subroutine dump", "  recursive subroutine cddump(cd)",
                                                   "    type(ccpp_t), intent(in) :: cd"]
        else:
            o += ["contains", "  subroutine dump()"] + dump
        for x in ("blk_no", "chunk_no", "thrd_no", "thrd_cnt", "ccpp_instance", "errflg"):
            o.append("    call vl_dump('cd_%s', cd%%%s)" % (x, x))
        if par:
            o += ["  end subroutine cddump", "end module vdmod", "program vdriver", "  use vdmod, only: vdmain", "  call vdmain()",
                  "end program vdriver", ""]
        else:
            o += ["  end subroutine dump", "end program vdriver", ""]
        return "\n".join(o)
