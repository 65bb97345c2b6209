"""Debug checks catch mis-sized host data and never disturb correct runs."""
import os, re, hashlib, shutil
from vf import core, capworld, caprun
from vf.core import Check, Violation, Inconclusive
from vf.vlog import parse_log
from .capworlds import ASSUME, MIX
from .c12 import run_cases

RULE = ("a case is one random world generated with --debug, compiled and executed: with host arrays of the sizes the metadata "
        "promise it is judged by the reference model and its log compared with that of the caps without --debug; then the "
        "driver reallocates one host array with another extent before one of its calls, and the run has to go on as before up "
        "to the first scheme using that array, which must not be called and whose call must return an error; non-trivial: at "
        "least one wrong size was planted in front of a use")


def calls_of(path):
    """the log without the introspection queries (debug caps need more dimension variables)"""
    return [x for x in open(path, errors="replace").read().split("\n") if not x.startswith("N")]


def actions_of(events):
    """action index -> (entries called, code, message)"""
    out, cur = {}, None
    for e in events:
        if e[0] == "C":
            cur = int(e[1])
            out[cur] = [[], None, ""]
        elif e[0] == "E":
            out[cur][0].append(e)
        elif e[0] == "R":
            out[cur][1:] = [e[1], e[2]]
    return out


def first_use(w, m, acts, i, v):
    """first scheme entry of an action >= i with an argument stored in <v>: (action, position, argument)"""
    for k in sorted(acts):
        if k < i:
            continue
        for pos, ev in enumerate(acts[k][0]):
            e = m.entry[ev[1]][2]
            for a, rec in zip(e.args, ev[3]):
                src = getattr(a, "src", None)
                if a.special in ("dim", "cond", "default") or src is None or getattr(src, "inter", False):
                    continue
                if (src is v or getattr(src, "elem_of", None) is v) and rec[1]:
                    return k, pos, a
    return None


def judge(what, got, base, stop, u, either):
    for x in sorted(got):
        ge, be = [e[1] for e in got[x][0]], [e[1] for e in base[x][0]]
        if u is None or x < stop or (either and ge == be):
            if ge != be or got[x][1] != base[x][1]:
                raise Violation("spurious", "%s: no scheme up to call %d uses it, but that call ran %s with result %s (%s), not %s with %s" % (
                    what, x, ge, got[x][1], got[x][2], be, base[x][1]))
            continue
        use = be[u[1]]
        if ge != be[:u[1]]:
            raise Violation("not-caught", "%s: %s uses it, but call %d ran %s (without it: %s), result %s %r" % (
                what, use, x, ge, be, got[x][1], got[x][2]))
        if got[x][1] == 0:
            raise Violation("no-error", "%s: call %d does not run %s but returns no error" % (what, x, use))
        if not got[x][2].strip() or got[x][2].strip() == "unset":
            raise Violation("no-message", "%s: call %d returns %s without a message" % (what, x, got[x][1]))


def dim_changes(w, m, acts, calls, r):
    """(call, dimension, first use): decreasing the dimension before the call leaves the suite-held data of the use too large"""
    out = []
    for dk, D in enumerate(w.dims.values()):
        if D.parameter or D.value < 2 or D.std == capworld.HDIM:
            continue
        for k in calls:
            held = {}                    # suite variable -> written in a call before k
            res = None
            for x in sorted(acts):
                act = w.actions[x]
                if x >= k and act["phase"] in ("init", "timestep_init") or res == "unsure":
                    if x >= k:
                        break
                if act["phase"] in ("init", "timestep_init") and x < k:
                    held = {}
                for pos, ev in enumerate(acts[x][0]):
                    e = m.entry[ev[1]][2]
                    sure = unsure = None
                    for a, rec in zip(e.args, ev[3]):
                        src = getattr(a, "src", None)
                        if a.special == "default" and D.std in a.alldims and x >= k:
                            unsure = a
                        if src is None or a.special in ("dim", "cond", "default") or D.std not in list(getattr(src, "dims", ())) + list(getattr(src, "lower", None) or []):
                            continue
                        if getattr(src, "inter", False):
                            key = (act["suite"], a.std)
                            if x < k:
                                if a.intent != "in":
                                    held[key] = x
                            elif key in held and a.intent != "out" and rec[1]:
                                sure = a
                            else:
                                unsure = a
                        elif x >= k and act["phase"] != "run":
                            unsure = a
                    if x >= k and res is None and (sure or unsure):
                        res = (x, pos, sure) if sure else "unsure"
                        break
            if res and res != "unsure":
                out.append((k, dk, res))
    r.shuffle(out)
    return out


def case(item):
    prof, tag, i, root, ntests, both = item
    d = os.path.join(root, "%s%d" % (tag, i))
    st = {}
    try:
        w = capworld.World(i, prof, tag)
        w.resize = True
        w.debug = True
        ev, m = caprun.run_world(w, d, root, stats=st)
        st = {"args_checked": st.get("args_checked", 0), "worlds": 1}
        base = actions_of(ev)
        if both:
            a = calls_of(os.path.join(d, "vlog.txt"))
            p = caprun.capgen(w, d, outdir="nodebug", debug=False)
            if p.rc != 0:
                raise Violation("rejected-nodebug", "without --debug: " + caprun.last_error(p))
            caprun.build(w, d, root, outdir="nodebug", exe="prog2")
            os.rename(os.path.join(d, "vlog.txt"), os.path.join(d, "debug.txt"))
            caprun.execute(d, exe="prog2")
            b = calls_of(os.path.join(d, "vlog.txt"))
            if a != b:
                k = next((k for k, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
                raise Violation("debug-differs", "with and without --debug, log line %d: %r / %r" % (k, a[k:k + 1], b[k:k + 1]))
            st["debug_compared"] = 1
        finding = [None]
        r = core.rng("c19", tag, i)
        calls = [k for k, a in enumerate(w.actions) if a["op"] == "call"]
        todo = []
        for n, v in enumerate(w.hvars):
            if v.elem_of is not None or not v.dims or v.unalloc:
                continue
            for k in calls:
                u = first_use(w, m, base, k, v)
                if u is None:
                    if r.random() < 0.1:
                        todo.append((k, n, r.randrange(len(v.dims)), 1, calls[-1], v, None))
                    continue
                src = u[2].src
                for q in range(len(v.dims)):
                    if v.dims[q] not in src.dims:
                        continue                     # a fixed index of the argument
                    if v.dims[q] == capworld.HDIM and w.actions[u[0]]["phase"] == "run":
                        continue                     # the caller's column range says what is passed
                    todo.append((k, n, q, 0, u[0], v, u))
        r.shuffle(todo)
        seen = set()
        for k, n, q, delta, stop, v, u in todo:
            if len(seen) >= ntests:
                break
            if (n, q, stop) in seen:
                continue
            seen.add((n, q, stop))
            ext = w.dims[v.dims[q]].value - ((w.dims[v.lower[q]].value - 1) if v.lower[q] else 0)
            if u is None:
                if v.dims[q] == capworld.HDIM:
                    continue
                deltas = [1]
            else:
                deltas = [r.choice([1, 2, 7])] + ([-r.randint(1, ext)] if ext > 0 else [])
            for delta in deltas:
                shutil.copy(os.path.join(d, "prog"), os.path.join(d, "progx")) if not os.path.exists(os.path.join(d, "progx")) else None
                p = core.run([os.path.join(d, "progx")] + [str(x) for x in (k, n, q, delta, stop)], d, 60)
                what = "%s dimension %d (%s) of %s allocated with extent %d instead of %d before call %d" % (
                    v.std, q + 1, v.dims[q], v.local, ext + delta, ext, k)
                run_section = u is not None and w.actions[stop]["phase"] == "run"
                inrun = any(w.actions[x].get("phase") == "run" for x in range(k, stop + 1))
                if p.rc != 0 and inrun and delta < 0 and re.search(
                        r"/%s_ccpp_cap\.F90\s+Fortran runtime error: (Index|Array|Bounds|Out)[^\n]*(bound|range)" % w.host, p.err):
                    if not finding[0]:
                        finding[0] = "%s: the host cap takes a section with the promised extent before the check: %s" % (
                            what, [x for x in p.err.split("\n") if "Fortran runtime error" in x][:1])
                    st["run_sections_out_of_bounds"] = st.get("run_sections_out_of_bounds", 0) + 1
                    continue
                if p.rc != 0:
                    raise Violation("crash", "%s: the program failed (%s): %s" % (what, p.rc, (p.err + p.out)[-800:]))
                got = actions_of(parse_log(os.path.join(d, "vlog.txt")))
                judge(what, got, base, stop, u, run_section and delta > 0)
                if stop not in got:
                    raise Inconclusive("the driver did not reach call %d" % stop)
                key = "wrong_sizes" if u is not None else "unused_wrong_sizes"
                st[key] = st.get(key, 0) + 1
                if u is not None:
                    key = "phase:" + w.actions[stop]["phase"]
                    st[key] = st.get(key, 0) + 1
                    st["smaller" if delta < 0 else "larger"] = st.get("smaller" if delta < 0 else "larger", 0) + 1
        ndim = 0
        for k, dk, u in dim_changes(w, m, base, calls, r):
            if ndim >= ntests // 3:
                break
            ndim += 1
            D = list(w.dims.values())[dk]
            p = core.run([os.path.join(d, "progx")] + [str(x) for x in (k, 1000 + dk, 0, -1, u[0])], d, 60)
            what = "%s (%s) changed from %d to %d before call %d" % (D.std, D.local, D.value, D.value - 1, k)
            if p.rc != 0:
                raise Violation("crash", "%s: the program failed (%s): %s" % (what, p.rc, (p.err + p.out)[-800:]))
            judge(what, actions_of(parse_log(os.path.join(d, "vlog.txt"))), base, u[0], u, False)
            st["extent_changes"] = st.get("extent_changes", 0) + 1
            q = "phase:" + w.actions[u[0]]["phase"]
            st[q] = st.get(q, 0) + 1
        h = hashlib.sha256("".join(x for _, x in sorted(w.files().items())).encode()).hexdigest()[:12]
        if finding[0]:
            return ("finding", "run-section", finding[0], st, h)
        return ("ok", st, h if st.get("wrong_sizes") else None)
    except Violation as v:
        return ("violation", v.key, v.msg)
    except Inconclusive as v:
        return ("inconclusive", str(v)[:1500], "")
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    chk = Check("C19", RULE, assumptions=ASSUME + [
        "the horizontal extent is not changed for arrays used in the run phase, whose columns the caller selects"])
    base = dict(MIX, p_debug=1.0, steps=(1, 1), p_fail=0.0, p_illegal=0.0, n_extra_dims=(1, 2))
    profs = [dict(base, p_active=0.4, p_optional=0.7), dict(base, p_unitdiff=0.4, p_kinddiff=0.3, p_flip=0.3),
             dict(base, p_lowbound=0.6, p_explicit=0.8, p_ddt=0.9, p_nested=0.6), dict(base, p_inter=0.95, p_inter_diff=0.4, p_elem=0.5)]
    root = core.scratch_root()
    q = core.QUICK
    try:
        run_cases(chk, case, [(profs[i % 4], "c19_s%d_" % core.SEED, i, root, 12 if q else 40, i % 2 == 0) for i in range(72 if q else 900)],
                  60 if q else 700)
    finally:
        core.rmtree(root)
    chk.finish(min_evals=30, require=["worlds", "debug_compared", "wrong_sizes", "smaller", "larger", "unused_wrong_sizes", "phase:run", "phase:init"])
