"""Run ccpp_prebuild on a world, build and execute it, and check the event log
against the reference model."""
import hashlib, os, re, time
import numpy as np
from . import core, fbuild, pysrv
from . import units as U
from .capworld import World as CapWorld
from .caprun import Model as CapModel, execute, last_error, norm_error
from .preworld import PWorld, STAGES, HD, HE
from .vlog import parse_log, parse_vals, rule_upd, rule_set, rule_init, vlog_source
from .core import Violation, Inconclusive

PREBUILD = os.path.join(core.SCRIPTS, "ccpp_prebuild.py")
MPIMOD = None


def mpi_flags():
    """include path of the mpi_f08 module"""
    global MPIMOD
    if MPIMOD is None:
        p = core.run(["mpif90", "-show"], "/", 60)
        MPIMOD = [x for x in p.out.split() if x.startswith("-I")]
    return MPIMOD


def prebuild(w, d, hashseed="0", debug=None, extra=(), cold=False, timeout=120):
    """one run of ccpp_prebuild.py in directory <d>"""
    args = [PREBUILD, "--config=ccpp_prebuild_config.py", "--builddir=build"] + list(extra)
    if w.debug if debug is None else debug:
        args.append("--debug")
    args.append("--suites=" + ",".join(s.file[:-4] for s in w.suites))
    os.makedirs(os.path.join(d, "build", "caps"), exist_ok=True)
    if cold or hashseed != "0":
        return core.run_py(args, d, timeout, hashseed)
    return pysrv.run(args, d, timeout)


def snippet(fn):
    """file names listed in a make/cmake/shell snippet"""
    try:
        with open(fn) as f:
            t = f.read()
    except OSError:
        raise Violation("snippet-missing", "%s was not generated" % os.path.basename(fn))
    return re.findall(r"[^\s\\;\"'()]+\.(?:F90|f90|F|f)\b", t)


def cap_list(d):
    caps = snippet(os.path.join(d, "build", "CCPP_CAPS.mk"))
    api = snippet(os.path.join(d, "build", "CCPP_API.sh"))
    return caps, api


def by_use(files):
    """order Fortran sources such that used modules come first"""
    mods, uses = {}, {}
    for f in files:
        try:
            t = open(f).read()
        except OSError:
            raise Violation("cap-missing", "listed generated file %s does not exist" % f)
        for m in re.findall(r"(?im)^\s*module\s+(\w+)\s*$", t):
            mods[m.lower()] = f
        uses[f] = [x.lower() for x in re.findall(r"(?im)^\s*use\s+(\w+)", t)]
    res = []

    def add(f, path):
        if f in res or f in path:
            return
        for u in uses[f]:
            if u in mods and mods[u] != f:
                add(mods[u], path + (f,))
        res.append(f)
    for f in files:
        add(f, ())
    return res


def object_cache(root, san=False):
    """objects and modules of ccpp_types (from the repository) and vlog"""
    h = hashlib.sha256()
    src = os.path.join(core.REPO, "src", "ccpp_types.F90")
    h.update(open(src, "rb").read())
    h.update(vlog_source().encode())
    h.update(repr(san).encode())
    d = os.path.join(root, "pobjs_" + h.hexdigest()[:16])
    if os.path.exists(os.path.join(d, "ok")):
        return d
    try:
        os.mkdir(d + ".lock")
    except FileExistsError:
        for _ in range(1200):
            if os.path.exists(os.path.join(d, "ok")) or os.path.exists(os.path.join(d, "failed")):
                return d
            time.sleep(0.1)
        return d
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, "vlog.F90"), "w") as f:
        f.write(vlog_source())
    p = core.run(["gfortran", "-c"] + fbuild.CAPFLAGS + fbuild.SAN[san] + mpi_flags() +
                 ["-ffree-line-length-none", src, "vlog.F90"], d, 300)
    if san in ("tsan", "omp") and p.rc == 0:
        p = core.run(["gcc", "-c", "-O1", "-g1"] + (["-fsanitize=thread"] if san == "tsan" else []) + [fbuild.THREADS], d, 60)
    with open(os.path.join(d, "ok" if p.rc == 0 else "failed"), "w") as f:
        f.write(p.text())
    return d


def build(w, d, objroot, exe="prog", san=False):
    od = object_cache(objroot, san)
    if not os.path.exists(os.path.join(od, "ok")):
        raise Violation("framework-compile", "ccpp_types.F90 does not compile: " + open(os.path.join(od, "failed")).read()[-1500:])
    caps, api = cap_list(d)
    gen = by_use(caps + [a for a in api if a not in caps])
    base = ["gfortran"] + fbuild.CAPFLAGS + fbuild.SAN[san] + mpi_flags() + ["-I", od, "-J", d, "-ffree-line-length-none"]
    pre = ["ccpp_kinds.F90"] + [m + ".F90" for m in w.modules]
    p = core.run(base + ["-c"] + pre + ["schemes/%s.F90" % s.name for s in w.schemes], d, 300)
    if p.rc:
        raise Inconclusive("harness sources do not compile: " + p.text()[:3000])
    p = core.run(base + ["-c"] + gen, d, 300)
    if p.rc == 0:
        names = [os.path.splitext(os.path.basename(x))[0] + ".o" for x in pre + gen] + [s.name + ".o" for s in w.schemes]
        p2 = core.run(base + ["vdriver.F90"] + names + [os.path.join(od, x) for x in sorted(os.listdir(od)) if x.endswith(".o")] +
                      ["-o", exe], d, 300)
        if p2.rc == 0:
            return gen
        p, stage = p2, "driver"
    else:
        stage = "caps"
    errs = [x for x in p.text().splitlines() if "Error" in x]
    msg = errs[0] if errs else p.text()[:200]
    key = re.sub(r"\d+", "#", re.sub(r"‘[^’]*’|'[^']*'", "*", msg))
    raise Violation("compile:%s:%s" % (stage, key[:90]), "generated code does not compile: " + p.text()[:2500])


# ---------------------------------------------------------------------------
def bt(x):
    if x.type == "real":
        return "r8" if x.kind == "kind_phys" else "r4"
    return {"integer": "i4", "logical": "lg", "character": "ch"}[x.type]


def clen(x, v=None):
    if x.type != "character":
        return 32
    return clen(v) if x.kind == "len=*" else int(x.kind.split("=")[1])


class Model:
    """Reference model of a prebuild world, driven by the observed event log."""

    def __init__(self, w, stats=None):
        self.w = w
        self.stats = stats if stats is not None else {}
        self.env = {s.std: s.value for s in w.scal.values()}
        self.host = {}
        self.byname = {v.std: v for v in w.vars}
        for v in w.vars:
            if v.elem_of is None:
                for k in w.copies(v):
                    if v.unalloc and not CapWorld.cond_eval(v.cond, self.env):
                        self.host[v.std, k] = None
                    else:
                        sh = tuple(n - lo + 1 for lo, n in w.fshape(v, k))
                        self.host[v.std, k] = rule_init(sh, bt(v), v.key + (k or 0), clen(v))
        self.entry = {"%s_%s" % (s.name, st): (s, st, e) for s in w.schemes for st, e in s.entries.items()}
        self.flags = set()
        self.resync = set()
        self.cd = None
        self.where = "start"
        self.done = 0

    def stat(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def check(self, events):
        i, n = 0, len(events)
        seen = -1
        while i < n:
            ev = events[i]
            if ev[0] == "C":
                seen = int(ev[1])
                for a in self.w.actions[self.done:seen]:
                    if a["op"] == "set":
                        self.env[a["std"]] = a["value"]
                self.done = seen
                j = i + 1
                calls = []
                while events[j][0] != "R":
                    if events[j][0] == "E":
                        calls.append(events[j])
                    j += 1
                self.index = seen
                self.call(self.w.actions[seen], calls, events[j])
                i = j + 1
                # settings made after the last call show in the next dump only when executed before it
                continue
            if ev[0] == "D":
                self.dump(ev)
            if ev[0] == "I":
                CapModel._threads(self, events, i)
            i += 1
        if seen != max([k for k, a in enumerate(self.w.actions) if a["op"] == "call"]):
            raise Inconclusive("driver log incomplete")

    # -- one API call
    def called(self, groups, st):
        """[(entry name, loop counter, loop extent)] per group"""
        w = self.w
        res = []
        for g, subs in groups:
            seq = []
            for n, its in subs:
                for c in range(1, (n if st == "run" else 1) + 1):
                    for x in its:
                        e = w.scheme[x].entries.get(st)
                        if e is not None and not e.empty:
                            seq.append(("%s_%s" % (x, st), c, n if st == "run" else 1))
            res.append((g, seq))
        return res

    def call(self, act, calls, ret):
        w = self.w
        code, msg = ret[1], ret[2]
        st = act["st"]
        self.where = "ccpp_physics_%s(%s%s block/chunk %d thread %d instance %d)" % (
            st, act["suite"], "/" + act["group"] if act["group"] else "", act["b"], act["t"], act["inst"])
        self.stat("api_calls")
        self.cd = dict(blk_no=act["b"], chunk_no=act["b"], thrd_no=act["t"], thrd_cnt=w.nthr, ccpp_instance=act["inst"], errflg=code)
        suite = next((s for s in w.suites if s.name == act["suite"]), None)
        groups = None
        if suite is not None:
            groups = [g for g in suite.groups if act["group"] in (None, g[0])]
        if not groups:
            self.stat("unknown_name_calls")
            if calls:
                raise Violation("unknown-name-ran", "%s: unknown suite or group ran %s" % (self.where, calls[0][1]))
            if code == 0 or not msg.strip():
                raise Violation("unknown-name-accepted", "%s: unknown suite or group returned %d %r" % (self.where, code, msg))
            return
        got = [c[1] for c in calls]
        exp, err = [], None
        for g, seq in self.called(groups, st):
            key = (suite.name, g, act["inst"])
            isset = key in self.flags
            if st == "init":
                if isset:
                    self.stat("repeated_inits")
                    continue
            elif not isset and st == "finalize":
                self.stat("idle_finalizes")
                continue
            elif not isset:
                if not seq:
                    # nothing to call in this group and stage
                    continue
                err = g
                break
            k = len(exp)
            exp += seq
            if act["fail"] and k < act["fail"] <= len(exp):
                exp = exp[:act["fail"]]
                err = ""
                break
            if st == "init":
                self.flags.add(key)
            elif st == "finalize":
                self.flags.discard(key)
        names = [x[0] for x in exp]
        if got != names:
            if err and got[:len(names)] == names:
                raise Violation("uninitialized-ran", "%s: group %s is not initialized, but %s ran" % (self.where, err, got[len(names):]))
            if err == "" and got[:len(names)] == names:
                raise Violation("error-continued", "%s: scheme call %d set an error; %s ran after it" % (self.where, act["fail"], got[len(names):]))
            raise Violation("order:" + ("run" if st == "run" else "other"), "%s ran %s, suite definition gives %s" % (self.where, got, names))
        if err == "":
            self.stat("failing_calls")
            fcode = 3 + self.index % 5
            if code != fcode:
                raise Violation("error-code-lost", "%s: scheme error %d reported as %d (%r)" % (self.where, fcode, code, msg))
            if "failure in " + names[-1] not in msg:
                raise Violation("error-message-lost", "%s: scheme message not returned: %r" % (self.where, msg))
        elif err:
            self.stat("uninitialized_calls")
            if code == 0:
                raise Violation("uninitialized-accepted", "%s: group %s was not initialized, returned 0 (message %r)" % (self.where, err, msg))
            if not msg.strip():
                raise Violation("uninitialized-no-message", "%s: group %s was not initialized, no message" % (self.where, err))
        else:
            self.stat("good_calls")
            if code != 0:
                raise Violation("spurious-error", "%s returned %d: %r" % (self.where, code, msg))
        for k, (c, x) in enumerate(zip(calls, exp)):
            self.one(act, c, x, err == "" and k == len(calls) - 1)

    # -- storage of a variable as seen by a call
    def view(self, v, act, st):
        """(parts, axis): list of ((std, copy), index) whose concatenation along axis is what the scheme sees"""
        w = self.w
        root = v.elem_of or v
        el = (Ellipsis, self.env_index(v) - 1) if v.elem_of is not None else None
        k = v.home.kind
        hor = [i for i, d in enumerate(v.dims) if d in (HD, HE)]
        ax = hor[0] if hor else 0

        def idx(sl):
            t = [slice(None)] * len(v.dims)
            if hor and sl is not None:
                t[ax] = sl
            t = tuple(t)
            return t + (el[1],) if el else t
        if k == "blk":
            ks = [act["b"]] if st == "run" else w.copies(v)
            return [((root.std, b), idx(None)) for b in ks], ax
        if k == "thr":
            return [((root.std, act["t"]), idx(slice(0, w.blk[act["b"] - 1])))], ax
        sl = None
        if st == "run" and w.layout in ("chunked", "mixed"):
            lo = sum(w.blk[:act["b"] - 1])
            sl = slice(lo, lo + w.blk[act["b"] - 1])
        return [((root.std, None), idx(sl))], ax

    def env_index(self, v):
        return v.idx

    def special(self, a, st, act, cnt, ext):
        w = self.w
        s = a.special
        if s == HE:
            return w.ncols if w.layout == "simple" else w.blk[act["b"] - 1]
        if s == "ccpp_loop_counter":
            return cnt
        if s == "ccpp_loop_extent":
            return ext
        if s in ("ccpp_block_number", "ccpp_chunk_number"):
            return act["b"]
        if s in ("ccpp_instance", "ccpp_thread_number"):
            return act["inst" if s == "ccpp_instance" else "t"]
        if s == "ccpp_thread_count":
            return w.nthr
        return self.env[s]

    def one(self, act, ev, x, failed):
        w = self.w
        s, st, e = self.entry[ev[1]]
        seq = ev[2]
        if [a.local for a in e.args] != [r[0] for r in ev[3]]:
            raise Inconclusive("argument log mismatch in %s" % ev[1])
        self.stat("scheme_calls")
        writes = []
        for k, (a, rec) in enumerate(zip(e.args, ev[3])):
            self.stat("args_checked")
            tag = "%s: %s argument %s (%s)" % (self.where, ev[1], a.local, a.std)
            t = bt(a)
            if a.special:
                got = parse_vals(t, rec[3], [])
                exp = self.special(a, st, act, x[1], x[2])
                if got != exp:
                    raise Violation("value:special", "%s received %s, expected %s" % (tag, got, exp))
                self.stat("special_checked")
                continue
            v = a.src
            active = v.cond is None or bool(CapWorld.cond_eval(v.cond, self.env))
            if a.optional:
                self.stat("optional_present" if active else "optional_absent")
            if rec[1] != active:
                raise Violation("presence" + (":units" if a.units != v.units else ""), "%s is %s but the host condition %s is %s" % (
                    tag, "present" if rec[1] else "absent", CapWorld.cond_text(v.cond) if v.cond else ".true.", active))
            if not active:
                continue
            parts, ax = self.view(v, act, st)
            if any(self.host[p[0]] is None for p in parts):
                raise Inconclusive("active but unallocated")
            arrs = [self.host[p][ix] if v.dims or v.elem_of is not None else self.host[p] for p, ix in parts]
            part = np.concatenate(arrs, axis=ax) if len(arrs) > 1 else np.array(arrs[0])
            if tuple(rec[2]) != part.shape:
                raise Violation("shape", "%s has shape %s, expected %s" % (tag, rec[2], list(part.shape)))
            if len(arrs) > 1:
                self.stat("blocked_gathers")
            if st == "run" and v.home.kind in ("blk", "thr"):
                self.stat("block_views")
            if st == "run" and w.layout in ("chunked", "mixed") and HD in v.dims:
                self.stat("chunk_views")
            conv = a.type == "real" and a.units != v.units
            cur = part
            if a.intent != "out":
                got = parse_vals(t, rec[3], rec[2])
                exp = U.convert(np.asarray(part, dtype=np.float64), v.units, a.units) if conv else part
                if not CapModel.same(t, got, exp, np.max(np.abs(part)) if conv and part.size else None):
                    raise Violation("value-in" + (":units" if conv else ""), "%s received\n%s\nexpected\n%s (units %s->%s kind %s)" % (
                        tag, got, exp, v.units, a.units, v.kind))
                if conv:
                    self.stat("unit_converted_in")
                cur = got if t in ("r4", "r8") else exp
            if a.intent == "out":
                new = rule_set(part.shape, t, seq, k, clen(a, v))
            elif a.intent == "inout":
                new = rule_upd(cur, t, seq, k, clen(a, v))
            else:
                continue
            if conv:
                new = U.convert(np.asarray(new, dtype=np.float64), a.units, v.units)
                self.stat("unit_converted_out")
            writes.append((v, parts, ax, arrs, new))
        for v, parts, ax, arrs, new in writes:
            pos = 0
            for (p, ix), old in zip(parts, arrs):
                if v.dims:
                    n = old.shape[ax]
                    t = [slice(None)] * len(v.dims)
                    t[ax] = slice(pos, pos + n)
                    pos += n
                    self.host[p][ix] = new[tuple(t)]
                elif v.elem_of is not None:
                    self.host[p][ix] = new
                else:
                    self.host[p] = np.array(new, dtype=self.host[p].dtype)
                if failed:
                    self.resync.add(p)

    def dump(self, ev):
        std = ev[1]
        if std.startswith("cd_"):
            if self.cd is None:
                return
            got = int(parse_vals("i4", ev[3], []))
            if got != self.cd[std[3:]]:
                raise Violation("cdata-changed:" + std[3:], "cdata%%%s is %s after %s, expected %s" % (
                    std[3:], got, self.where, self.cd[std[3:]]))
            return
        if std in self.env:
            o = self.w.scal[std]
            got = parse_vals("lg" if o.type == "logical" else "i4", ev[3], [])
            if got != self.env[std]:
                raise Violation("host-control-changed", "host variable %s is %s after %s, expected %s" % (
                    std, got, self.where, self.env[std]))
            return
        nm, _, k = std.partition("#")
        key = (nm, int(k) if k else None)
        v = self.byname[nm]
        t = bt(v)
        got = parse_vals(t, ev[3], ev[2])
        exp = self.host[key]
        if exp is None:
            raise Inconclusive("dump of unallocated host variable")
        if key in self.resync:
            self.resync.discard(key)
            self.host[key] = np.array(got, dtype=exp.dtype)
            return
        self.stat("host_dumps")
        if not CapModel.same(t, got, exp, np.max(np.abs(exp)) if t in ("r8", "r4") and exp.size else None):
            raise Violation("host-after", "host variable %s after %s is\n%s\nexpected\n%s" % (std, self.where, got, exp))
        self.host[key] = np.array(got, dtype=exp.dtype)


def run_world(w, d, objroot, san=False, stats=None):
    w.write(d)
    p = prebuild(w, d)
    if p.rc != 0:
        raise Violation("rejected:" + norm_error(p.text()), "ccpp_prebuild rejected a valid configuration: " + last_error(p))
    build(w, d, objroot, san=san)
    ev = execute(d)
    m = Model(w, stats)
    m.check(ev)
    return ev, m
