"""Run capgen on a world, build and execute it, and check the event log
against the reference model."""
import os, re
from collections import Counter
import numpy as np
from . import core, fbuild
from . import units as U
from .capworld import World, PHASES, HOSTPHASE, HDIM, HEXT, VDIM, VINT, base_type
from .vlog import parse_log, parse_vals, rule_upd, rule_set, rule_init
from .core import Violation, Inconclusive

CAPGEN = os.path.join(core.SCRIPTS, "ccpp_capgen.py")
DATAFILE = os.path.join(core.SCRIPTS, "ccpp_datafile.py")


def capgen(w, d, outdir="out", hashseed="0", debug=None, timeout=120):
    return core.run_py([CAPGEN] + w.capgen_args(outdir, debug), d, timeout, hashseed)


def last_error(p):
    lines = [x for x in p.text().splitlines() if x.strip()]
    return "\n".join(lines[-6:])


def norm_error(text):
    """mechanism key from an error text: strip names and numbers"""
    line = ""
    for x in reversed([x for x in text.splitlines() if x.strip()]):
        if re.match(r"^[\w.]+(Error|Exception|Warning)\b", x.strip()) or "Error:" in x:
            line = x.strip()
            break
    line = line or (text.strip().splitlines() or [""])[-1]
    line = re.sub(r"'[^']*'", "'*'", line)
    line = re.sub(r"\d+", "#", line)
    return line[:100]


def cap_files(w, d, outdir="out"):
    p = core.run_py([DATAFILE, os.path.join(outdir, "datatable.xml"), "--ccpp-files", "--separator", ";"], d)
    if p.rc:
        raise Violation("datafile-failed", "ccpp_datafile failed: " + last_error(p))
    return [x for x in p.out.strip().split(";") if x]


def build(w, d, objroot, outdir="out", exe="prog", san=False, extra=()):
    files = cap_files(w, d, outdir)
    kinds = [f for f in files if os.path.basename(f) == "ccpp_kinds.F90"]
    caps = [f for f in files if os.path.basename(f) not in ("ccpp_kinds.F90",) + tuple(fbuild.FRAMEWORK)]
    if len(kinds) != 1:
        raise Violation("no-kinds-file", "ccpp_kinds.F90 not listed exactly once: %s" % files)
    kt = open(os.path.join(d, kinds[0])).read()
    od = fbuild.object_cache(objroot, kt, san, tuple(extra))
    if not os.path.exists(os.path.join(od, "ok")):
        raise Violation("framework-compile", "framework sources or ccpp_kinds do not compile: " +
                        open(os.path.join(od, "failed")).read()[-1500:])
    # host cap last
    caps.sort(key=lambda f: (os.path.basename(f).startswith(w.host + "_ccpp_cap"), f))
    pre = w.compile_order()
    ok, stage, txt = fbuild.compile_world(d, caps, (pre, "vdriver.F90"), od, exe, san, extra)
    if not ok:
        if stage == "harness":
            raise Inconclusive("harness sources do not compile: " + txt[:3000])
        errs = [x for x in txt.splitlines() if "Error" in x]
        msg = errs[0] if errs else txt[:200]
        key = re.sub(r"‘[^’]*’|'[^']*'", "*", msg)
        key = re.sub(r"\d+", "#", key)
        raise Violation("compile:%s:%s" % (stage, key[:90]), "generated code does not compile: " + txt[:2500])


def execute(d, exe="prog", timeout=60):
    p = core.run([os.path.join(d, exe)], d, timeout, env=dict(
        os.environ, ASAN_OPTIONS="detect_leaks=0", TSAN_OPTIONS=fbuild.TSAN_OPTIONS, OMP_NUM_THREADS="4"))
    if "ThreadSanitizer: data race" in p.err:
        rep = p.err[p.err.index("WARNING: ThreadSanitizer: data race"):]
        m = re.search(r"SUMMARY: ThreadSanitizer: data race \S*?([\w.]+):\d+ in (\w+)", rep)
        raise Violation("data-race:" + (re.sub(r"\d+", "#", m.group(2)) if m else ""),
                        "threads in the run phase race:\n" + rep[:3000])
    if p.rc != 0:
        last = ""
        try:
            last = open(os.path.join(d, "vlog.txt")).read()[-300:]
        except OSError:
            pass
        t = p.err + p.out
        m = re.search(r"(Fortran runtime error: [^\n]*|SIG[A-Z]+|AddressSanitizer: [\w-]+|runtime error: [^\n]*)", t)
        key = re.sub(r"'[^']*'", "*", m.group(1)) if m else "rc%d" % p.rc
        key = re.sub(r"\d+", "#", key)
        raise Violation("runtime:" + key[:80], "generated executable failed (rc %s): %s\nlast log: %s" % (
            p.rc, t[:1800], last))
    return parse_log(os.path.join(d, "vlog.txt"))


# ---------------------------------------------------------------------------
class Model:
    """Reference model of a capgen world driven by the observed event log."""

    def __init__(self, w, stats=None):
        self.w = w
        self.stats = stats if stats is not None else {}
        self.host = {}       # std -> array (scalars are 0-d)
        self.env = {}        # scalar std names -> python value
        for d in list(w.dims.values()) + w.conds + w.elems + w.loopvars:
            self.env[d.std] = d.value
        for v in w.hvars:
            if v.elem_of is None:
                if v.unalloc and not World.cond_eval(v.cond, self.env):
                    self.host[v.std] = None
                else:
                    self.host[v.std] = rule_init(self.shape(v), base_type(v), v.key, self.clen(v))
        self.byname = {v.std: v for v in w.hvars}
        self.inter = {s.name: {} for s in w.suites}
        self.state = {s.name: {"uninitialized"} for s in w.suites}
        self.taint = set()
        self.entry = {}
        for s in w.schemes:
            for ph, e in s.entries.items():
                self.entry["%s_%s" % (s.name, e.suffix)] = (s, ph, e)

    def stat(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def clen(self, v):
        if v.type == "character":
            return int(v.kind.split("=")[1]) if v.kind != "len=*" else 512
        return 32

    def shape(self, v):
        return tuple(self.env[d] - ((self.env[lo] - 1) if lo else 0)
                     for d, lo in zip(v.dims, getattr(v, "lower", None) or [None] * len(v.dims)))

    # -- access to the holder's storage
    def holder(self, suite, a):
        """(array view, spec) of the holder of argument <a>; None if undefined"""
        v = a.src
        if getattr(v, "inter", False):
            st = self.inter[suite]
            if a.std not in st:
                st[a.std] = np.empty(self.shape(v), dtype={"r8": float, "r4": np.float32, "i4": np.int64,
                                                         "lg": bool}[base_type(v)])
                if base_type(v) in ("r8", "r4"):
                    st[a.std][...] = np.nan
                self.taint.add((suite, a.std))
            return st[a.std]
        if v.elem_of is not None:
            arr = self.host[v.elem_of.std]
            if arr is None:
                return None
            return arr[..., self.env[v.idx.std] - 1]
        return self.host[v.std]

    def store(self, suite, a, sub, val):
        v = a.src
        if getattr(v, "inter", False):
            self.inter[suite][a.std][sub] = val
        elif v.elem_of is not None:
            arr = self.host[v.elem_of.std]
            k = self.env[v.idx.std] - 1
            view = arr[..., k]
            view[sub] = val
        else:
            arr = self.host[v.std]
            if arr.ndim == 0:
                self.host[v.std] = np.array(val, dtype=arr.dtype)
            else:
                arr[sub] = val

    @staticmethod
    def flip(v, x):
        for i, d in enumerate(v.dims):
            if d in (VDIM, VINT):
                return np.flip(x, axis=i)
        return x

    def to_scheme(self, a, x):
        v = a.src
        t, th = base_type(a), base_type(v)
        if v.type == "real":
            if a.units != v.units:
                x = U.convert(np.asarray(x, dtype=np.float64), v.units, a.units)
            if bool(a.top) != bool(v.top):
                x = self.flip(v, x)
            x = np.asarray(x, dtype=np.float32 if "r4" in (t, th) else np.float64)
        elif bool(a.top) != bool(v.top):
            x = self.flip(v, x)
        return x

    def to_holder(self, a, x):
        v = a.src
        t, th = base_type(a), base_type(v)
        if v.type == "real":
            x = np.asarray(x, dtype=np.float32 if t == "r4" else np.float64)
            if a.units != v.units:
                x = U.convert(np.asarray(x, dtype=np.float64), a.units, v.units)
            if bool(a.top) != bool(v.top):
                x = self.flip(v, x)
            x = np.asarray(x, dtype=np.float32 if "r4" in (t, th) else np.float64)
        elif v.type == "character":
            n = self.clen(v)
            x = np.vectorize(lambda q: q[:n], otypes=[object])(x) if np.size(x) else x
        elif bool(a.top) != bool(v.top):
            x = self.flip(v, x)
        return x

    @staticmethod
    def same(t, got, exp, scale=None):
        if got.shape != np.shape(exp):
            return False
        if t in ("r8", "r4"):
            rel = 3e-6 if t == "r4" else 1e-10
            exp = np.asarray(exp, dtype=np.float64)
            mag = np.maximum(np.abs(exp), np.abs(np.asarray(scale, dtype=np.float64)) if scale is not None else 0)
            with np.errstate(invalid="ignore"):
                ok = np.abs(got - exp) <= rel * np.maximum(mag, 1e-12)
            return bool(np.all(ok | (np.isnan(got) & np.isnan(exp))))
        return bool(np.all(got == np.asarray(exp)))

    # -- log replay
    def check(self, events):
        w = self.w
        i = 0
        self.cur = None
        n = len(events)
        self.dump_expect = True
        while i < n:
            ev = events[i]
            if ev[0] == "C":
                idx = int(ev[1])
                # apply preceding set actions
                self._sets(idx)
                j = i + 1
                calls = []
                while events[j][0] != "R":
                    if events[j][0] == "E":
                        calls.append(events[j])
                    j += 1
                self.act_index = idx
                self._call(w.actions[idx], calls, events[j])
                i = j + 1
                continue
            if ev[0] == "D":
                self._dump(ev)
            if ev[0] == "I":
                self._threads(events, i)
            i += 1
        last = max([k for k, a in enumerate(w.actions) if a["op"] == "call"])
        seen = [int(e[1]) for e in events if e[0] == "C"]
        if not seen or seen[-1] != last:
            raise Inconclusive("driver log incomplete")

    def _threads(self, events, i):
        """Count the threads of a parallel region and how their scheme calls interleaved"""
        if i and events[i - 1][0] == "J":
            return
        ticks, t = [], 0
        while i < len(events) and events[i][0] in "ICREXJ" or events[i][0] == "D" and events[i][1].startswith("cd_"):
            if events[i][0] == "I":
                t += 1
            elif events[i][0] == "E":
                ticks += [(x, t) for x in events[i][4:]]
            i += 1
        ticks.sort()
        self.stat("regions")
        self.stat("threads", t)
        order = [b for _, b in ticks]
        sw = sum(1 for a, b in zip(order, order[1:]) if a != b)
        self.stat("thread_switches", sw)
        if sw >= t:
            self.stat("interleaved_regions")

    def _sets(self, idx):
        if not hasattr(self, "_done"):
            self._done = 0
        for k in range(self._done, idx):
            a = self.w.actions[k]
            if a["op"] == "set":
                self.env[a["std"]] = a["value"]
        self._done = idx

    def _call(self, act, calls, ret):
        w = self.w
        code, msg = ret[1], ret[2]
        where = "%s(%s%s%s)" % (HOSTPHASE[act["phase"]], act["suite"], "/" + act["part"] if act["part"] and act["phase"] == "run" else "",
                                " cols %s:%s" % (act["cs"], act["ce"]) if act["phase"] == "run" else "")
        self.where = where
        self.stat("cap_calls")
        suite = next((s for s in w.suites if s.name == act["suite"]), None)
        part = None
        if suite is not None and act["phase"] == "run":
            part = next((g for g in suite.groups if g[0] == act["part"]), None)
        if suite is None or (act["phase"] == "run" and part is None):
            self.stat("unknown_name_calls")
            if code == 0 or not msg.strip() or msg.strip() == "unset":
                raise Violation("unknown-name-accepted", "%s: unknown suite or part returned code %d message %r" % (where, code, msg))
            if calls:
                raise Violation("unknown-name-ran", "%s: unknown suite or part ran %s" % (where, calls[0][1]))
            return
        if act.get("omp"):
            self.stat("calls_in_parallel_region")
            if code == 0 or not msg.strip() or msg.strip() == "unset":
                raise Violation("threaded-accepted", "%s called from a threaded region returned code %d message %r" % (where, code, msg))
            if calls:
                raise Violation("threaded-ran", "%s called from a threaded region ran %s" % (where, [c[1] for c in calls]))
            return
        need = {"register": "uninitialized", "init": "uninitialized", "timestep_init": "initialized",
                "run": "in_time_step", "timestep_final": "in_time_step", "final": "initialized"}[act["phase"]]
        nxt = {"register": "uninitialized", "init": "initialized", "timestep_init": "in_time_step",
               "run": "in_time_step", "timestep_final": "initialized", "final": "uninitialized"}[act["phase"]]
        st = self.state[suite.name]
        legal = need in st
        forced_illegal = need not in st
        if not forced_illegal and st != {need}:
            # state uncertain after an earlier scheme error: decide from the observation
            if code != 0 and not calls and "state" in msg.lower():
                self.state[suite.name] = st - {need}
                return
            self.state[suite.name] = {need}
        if forced_illegal:
            self.stat("illegal_calls")
            if code == 0:
                raise Violation("illegal-accepted", "%s in state %s returned success" % (where, sorted(st)))
            if not msg.strip() or msg.strip() == "unset":
                raise Violation("illegal-no-message", "%s in state %s: no message" % (where, sorted(st)))
            if calls:
                raise Violation("illegal-ran", "%s in state %s ran %s" % (where, sorted(st), [c[1] for c in calls]))
            return
        self.stat("legal_calls")
        # expected entries
        if act["phase"] == "run":
            seq = World.flatten(part[1], lambda lv: self.env[lv.std])
            exp = w.calls(seq, "run")
        else:
            exp = w.calls(w.suite_schemes(suite), act["phase"])
        got = [c[1] for c in calls]
        if act["phase"] == "run" and (act["cs"] > 1 or act["ce"] < self.env[HDIM]):
            self.stat("partial_runs")
        failing = act["fail"] and act["fail"] <= len(exp)
        if failing:
            self.stat("failing_calls")
            k = act["fail"]
            okk = (got == exp[:k]) if act["phase"] == "run" else (len(got) == k and not Counter(got) - Counter(exp))
            if not okk:
                raise Violation("error-continued", "%s: scheme call %d set an error; expected calls %s, ran %s" % (where, k, exp[:k], got))
            fcode = 3 + self.act_index % 5
            if code != fcode:
                raise Violation("error-code-lost", "%s: scheme error %d reported as %d (%r)" % (where, fcode, code, msg))
            if "failure in " + got[-1] not in msg:
                raise Violation("error-message-lost", "%s: scheme message not returned: %r" % (where, msg))
        else:
            if act["phase"] == "run":
                if got != exp:
                    raise Violation("order:run", "%s: schemes run %s, suite definition says %s" % (where, got, exp))
            else:
                if sorted(got) != sorted(exp):
                    raise Violation("order:" + act["phase"], "%s: schemes run %s, expected each once: %s" % (where, got, exp))
            if code != 0:
                raise Violation("spurious-error", "%s returned %d: %r" % (where, code, msg))
        if act["phase"] == "init":
            self.inter[suite.name] = {}
            self.taint = {t for t in self.taint if t[0] != suite.name}
            self._cols = {k: v for k, v in getattr(self, "_cols", {}).items() if k[0] != suite.name}
        done = Counter()
        for k, c in enumerate(calls):
            self._scheme(suite.name, act, c, failing and k == len(calls) - 1, done[c[1]])
            done[c[1]] += 1
        if failing:
            # what skipped schemes would have produced is unknown now
            ran = set(got)
            for nm in exp:
                s, ph, e = self.entry[nm]
                for a in e.args:
                    if getattr(a.src, "inter", False) and a.intent != "in":
                        self.taint.add((suite.name, a.std))
                        getattr(self, "_cols", {}).pop((suite.name, a.std), None)
            self.state[suite.name] = {need, nxt}
            if act["phase"] in ("register",):
                self.state[suite.name] = {need}
        else:
            self.state[suite.name] = {nxt}

    def _scheme(self, suite, act, ev, failed, count):
        s, ph, e = self.entry[ev[1]]
        if getattr(e, "vloop", None):
            self.stat("vertical_loop_calls")
            level = count % self.env[e.vloop]
        seq = ev[2]
        args = e.args
        if [a.local for a in args] != [r[0] for r in ev[3]]:
            raise Inconclusive("argument log mismatch in %s" % ev[1])
        self.stat("scheme_calls")
        n = self.env[HDIM]
        writes = []
        for k, (a, rec) in enumerate(zip(args, ev[3])):
            self.stat("args_checked")
            tag = "%s: %s argument %s (%s)" % (self.where, ev[1], a.local, a.std)
            t = base_type(a)
            if a.special == "dim":
                got = parse_vals("i4", rec[3], [])
                exp = {HEXT: (act["ce"] - act["cs"] + 1) if ph == "run" else n, "horizontal_loop_begin": act["cs"],
                       "horizontal_loop_end": act["ce"]}.get(a.std)
                if exp is None:
                    exp = self.env[a.std]
                if int(got) != exp:
                    raise Violation("dim-value", "%s received %s, expected %s" % (tag, got, exp))
                continue
            if a.special == "cond":
                got = parse_vals(t, rec[3], [])
                if got != self.env[a.std]:
                    raise Violation("value:cond", "%s received %s, expected %s" % (tag, got, self.env[a.std]))
                continue
            if a.special == "default":
                got = parse_vals(t, rec[3], rec[2])
                shp = tuple(self.env[d] if d != HDIM or ph != "run" else act["ce"] - act["cs"] + 1 for d in a.alldims)
                self.stat("default_values")
                if not rec[1] or tuple(rec[2]) != shp:
                    raise Violation("shape", "%s has shape %s, expected %s" % (tag, rec[2], shp))
                if not self.same(t, got, np.full(shp, a.value) if shp else np.asarray(a.value)):
                    raise Violation("default-value", "%s received\n%s\nexpected its default value %s" % (tag, got, a.default))
                continue
            v = a.src
            active = True
            if getattr(v, "cond", None) is not None:
                active = World.cond_eval(v.cond, self.env)
            if a.optional:
                self.stat("optional_present" if active else "optional_absent")
            if rec[1] != active:
                raise Violation("presence", "%s is %s but the host condition %s is %s" % (
                    tag, "present" if rec[1] else "absent", World.cond_text(v.cond) if v.cond else ".true.", active))
            if not active:
                continue
            if getattr(a, "wrap", None) is not None:
                self.stat("derived_type_arguments")
            hold = self.holder(suite, a)
            sub = tuple(slice(act["cs"] - 1, act["ce"]) if d == HDIM and ph == "run" else slice(None) for d in v.dims)
            if getattr(a, "drop", None) is not None:
                self.stat("vertical_slices")
                if getattr(v, "inter", False):
                    self.stat("vertical_slices_of_suite_variables")
                if a.optional and v.cond is not None:
                    self.stat("vertical_slices_conditional")
                sub = sub[:a.drop] + (level,) + sub[a.drop + 1:]
            part = hold[sub] if v.dims else hold
            expshape = np.shape(part)
            if tuple(rec[2]) != tuple(expshape):
                raise Violation("shape", "%s has shape %s, expected %s" % (tag, rec[2], list(expshape)))
            conv = self.to_scheme(a, part)
            if a.intent != "out":
                got = parse_vals(t, rec[3], rec[2])
                if (suite, a.std) in self.taint:
                    cur = got
                else:
                    tt = "r4" if "r4" in (t, base_type(v)) or self._any_r4(getattr(v, "elem_of", None) or v) else t
                    exp = conv
                    if t == "ch":
                        pass
                    if not self.same(tt, got, exp, np.max(np.abs(part)) if v.type == "real" and part.size and a.units != v.units else None):
                        feats = []
                        if v.type == "real" and a.units != v.units:
                            feats.append("units")
                        if v.type == "real" and a.kind != v.kind:
                            feats.append("kind")
                        if bool(a.top) != bool(v.top):
                            feats.append("flip")
                        raise Violation("value-in:" + "+".join(feats), "%s received\n%s\nexpected\n%s (units %s->%s kind %s->%s)" % (
                            tag, got, exp, v.units, a.units, v.kind, a.kind))
                    if getattr(v, "inter", False):
                        self.stat("inter_reads")
                        if getattr(v, "prod", (None, ph))[1] != ph:
                            self.stat("inter_cross_phase_reads")
                    cur = got if tt == "r4" else (exp if t not in ("r8",) else np.asarray(exp))
                    if v.type == "real" and (a.units != v.units):
                        self.stat("unit_converted_in")
                    if v.type == "real" and (a.kind != v.kind):
                        self.stat("kind_converted_in")
                    if v.type in ("integer", "logical") and (a.kind != v.kind):
                        self.stat("integer_kind_converted_in")
                    if bool(a.top) != bool(v.top):
                        self.stat("flipped_in")
            if a.intent == "out":
                new = rule_set(expshape, t, seq, k, self.clen(a) if a.kind != "len=*" else self.clen(v))
            elif a.intent == "inout":
                new = rule_upd(cur, t, seq, k, self.clen(a) if a.kind != "len=*" else self.clen(v))
            else:
                continue
            writes.append((a, sub, new, hold))
            if getattr(v, "inter", False):
                self.stat("inter_writes")
        for a, sub, new, hold in writes:
            back = self.to_holder(a, new)
            self.store(suite, a, sub, back)
            if getattr(a.src, "inter", False) and a.intent == "out" and not failed and getattr(a, "drop", None) is None:
                # with partial columns the rest may still be unknown
                if HDIM not in a.src.dims or ph != "run" or (act["cs"] == 1 and act["ce"] == n):
                    self.taint.discard((suite, a.std))
                elif (suite, a.std) in self.taint:
                    self._partial(suite, a, act)
            if failed:
                self.resync = getattr(self, "resync", set())
                root = getattr(a.src, "elem_of", None) or a.src
                self.resync.add(root.std)
                if getattr(a.src, "inter", False):
                    self.taint.add((suite, a.std))
                    getattr(self, "_cols", {}).pop((suite, a.std), None)

    def _partial(self, suite, a, act):
        # columns written so far; all columns known -> no longer tainted
        self._cols = getattr(self, "_cols", {})
        key = (suite, a.std)
        cols = self._cols.setdefault(key, set())
        cols.update(range(act["cs"], act["ce"] + 1))
        if len(cols) == self.env[HDIM]:
            self.taint.discard(key)
            del self._cols[key]

    def _dump(self, ev):
        std = ev[1]
        if std in self.env:
            t = "lg" if isinstance(self.env[std], bool) else "i4"
            got = parse_vals(t, ev[3], [])
            if got != self.env[std]:
                raise Violation("host-control-changed", "host variable %s is %s after %s, expected %s" % (
                    std, got, getattr(self, "where", "start"), self.env[std]))
            return
        v = self.byname[std]
        t = base_type(v)
        got = parse_vals(t, ev[3], ev[2])
        exp = self.host[std]
        if exp is None:
            raise Inconclusive("dump of unallocated host variable")
        if std in getattr(self, "resync", set()):
            self.resync.discard(std)
            self.host[std] = np.array(got, dtype=exp.dtype)
            return
        self.stat("host_dumps")
        tol_t = t
        if t == "r8" and getattr(v, "_lossy", False):
            tol_t = "r4"
        if not self.same(tol_t if not self._any_r4(v) else "r4", got, exp, np.max(np.abs(exp)) if t in ("r8", "r4") and exp.size else None):
            raise Violation("host-after", "host variable %s after %s is\n%s\nexpected\n%s" % (
                std, getattr(self, "where", "start"), got, exp))
        self.host[std] = np.array(got, dtype=exp.dtype)

    def _any_r4(self, v):
        if not hasattr(self, "_r4set"):
            self._r4set = set()
            for s, ph, e in self.entry.values():
                for a in e.args:
                    if a.special is None and a.type == "real" and "kind_sp" in (a.kind, a.src.kind):
                        root = getattr(a.src, "elem_of", None) or a.src
                        self._r4set.add(root.std)
        return v.std in self._r4set


def run_world(w, d, objroot, san=False, stats=None, extra=(), debug=None):
    w.write(d)
    p = capgen(w, d, debug=debug)
    if p.rc != 0:
        raise Violation("rejected:" + norm_error(p.text()), "capgen rejected a valid world: " + last_error(p))
    build(w, d, objroot, san=san, extra=extra)
    ev = execute(d)
    m = Model(w, stats)
    m.check(ev)
    return ev, m
