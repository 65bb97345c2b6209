"""Hash table: operation scripts run by the real Fortran module under
AddressSanitizer, UBSan and gfortran's checks; every logged result is compared
with a dictionary."""
import os
from vf import core
from vf.core import Check, Violation, Inconclusive
from vf.fortran import build_driver, run_driver, hexs


def keys(r):
    """A pool of keys of one flavour, chosen to collide"""
    kind = r.randrange(7)
    n = r.choice([3, 8, 20, 60])
    out = []
    for _ in range(n):
        if kind == 0:
            k = "".join(r.choice("ab") for _ in range(r.randrange(1, 6)))
        elif kind == 1:                                # permutations: same characters
            k = list("abcdefgh_ijklmnopqrstuvw"[:r.choice([4, 17, 24])])
            r.shuffle(k)
            k = "".join(k)
        elif kind == 2:
            k = r.choice(["air_", "water_", ""]) + r.choice(["temperature", "pressure", "mixing_ratio"]) + \
                r.choice(["", "_of_x", "_wrt_moist_air_and_condensed_water"]) + str(r.randrange(12))
        elif kind == 3:
            k = "x" * r.choice([1, 14, 15, 16, 29, 30, 31, 120, 300]) + r.choice(["", "y", " z"])
        elif kind == 4:
            k = " " * r.randrange(4) + r.choice("aAbB1") + " " * r.randrange(3) + r.choice(["", "c", "C"])
        elif kind == 5:
            k = "".join(chr(r.randrange(1, 256)) for _ in range(r.randrange(1, 20)))
        else:
            k = "".join(r.choice("0123456789-") for _ in range(r.randrange(1, 4)))
        out.append(k)
    return out


def script(seed):
    r = core.rng("C18", core.SEED, seed)
    ops, exp = [], []
    tabs = {i: None for i in (1, 2, 3)}                # None or dict key -> id
    its = {}                                           # iterator -> [table, remaining ids] of a traversal
    pool = []                                          # (id, key)
    ks = keys(r)
    sizes = r.choice([[0, 1], [0, 1, 2, 3], [3, 5, 8], [10, 12]])
    nid = 0
    unin = r.random() < 0.3
    if not unin:
        for t in tabs:
            ops.append("init %d %d" % (t, r.choice(sizes)))
            exp.append(("init",))
            tabs[t] = {}
    for _ in range(r.choice([20, 80, 300])):
        t = r.choice([1, 1, 1, 2, 3])
        x = r.random()
        if x < 0.42:
            if not pool or r.random() < 0.7:
                nid += 1
                if r.random() < 0.15:
                    v = r.choice([0, 1, -1, 2147483647, -2147483647, r.randrange(-50, 50)])
                    k = str(v)
                    ops.append("newi %d %d" % (nid, v))
                else:
                    k = r.choice(ks)
                    ops.append("newc %d %d %s" % (nid, len(k), hexs(k)))
                exp.append(("new", "." + hexs(k).upper()))
                pool.append((nid, k))
                i, k = nid, k
            else:
                i, k = r.choice(pool)
            kk = k.rstrip(" ")
            if tabs[t] is None:
                ops.append("add %d %d" % (t, i))
                exp.append(("add", "T"))
            else:
                dup = kk in tabs[t]
                if r.random() < 0.8:
                    ops.append("add %d %d" % (t, i))
                    exp.append(("add", "T" if dup else "F"))
                else:
                    ops.append("addq %d %d" % (t, i))
                    exp.append(("addq",))
                if not dup:
                    tabs[t][kk] = i
                    its = {a: b for a, b in its.items() if b[0] != t}
        elif x < 0.66:
            k = r.choice(ks)
            if r.random() < 0.2:
                k = k + " " * r.randrange(1, 4)
            if r.random() < 0.1:
                k = "".join(c.swapcase() if ord(c) < 128 else c for c in k)
            got = tabs[t].get(k.rstrip(" "), 0) if tabs[t] is not None else 0
            if tabs[t] is None or r.random() < 0.7:
                ops.append("get %d %d %s" % (t, len(k), hexs(k)))
                exp.append(("get", str(got), "F" if got else "T"))
            else:
                ops.append("getq %d %d %s" % (t, len(k), hexs(k)))
                exp.append(("getq", str(got)))
        elif x < 0.72:
            ops.append("num %d" % t)
            exp.append(("num", str(len(tabs[t] or {}))))
        elif x < 0.75:
            ops.append("isinit %d" % t)
            exp.append(("isinit", "F" if tabs[t] is None else "T"))
        elif x < 0.81:
            ii = r.choice([1, 2])
            n = len(tabs[t] or {})
            ops.append("walk %d %d %d" % (ii, t, n + 3))
            exp.append(("walk", dict((i, k) for k, i in (tabs[t] or {}).items())))
            its.pop(ii, None)
        elif x < 0.86:
            ii = r.choice([1, 2])
            ops.append("iinit %d %d" % (ii, t))
            exp.append(("istep", ii, "start", dict((i, k) for k, i in (tabs[t] or {}).items())))
            its[ii] = [t]
        elif x < 0.95:
            if its:
                ii = r.choice(sorted(its))
                if r.random() < 0.85:
                    ops.append("inext %d" % ii)
                    exp.append(("istep", ii, "next", None))
                else:
                    ops.append("ishow %d" % ii)
                    exp.append(("istep", ii, "show", None))
        elif x < 0.97:
            ops.append("clear %d" % t)
            exp.append(("clear",))
            tabs[t] = None
            its = {a: b for a, b in its.items() if b[0] != t}
        else:
            if r.random() < 0.5:
                ops.append("init %d %d" % (t, r.choice(sizes)))
            else:
                ops.append("initk %d %d %d" % (t, r.choice(sizes), r.choice([0, 1, -1, 12345, 2147483647, -2147483647])))
            exp.append(("init",))
            tabs[t] = {}
            its = {a: b for a, b in its.items() if b[0] != t}
    return ops, exp


def judge(ops, exp, out, stats):
    """Compare the log with the model"""
    pos = 0
    state = {}

    def nextline(o):
        nonlocal pos
        if pos >= len(out):
            raise Violation("stopped", "no result for operation '%s'" % o)
        pos += 1
        return out[pos - 1].split()
    for o, e in zip(ops, exp):
        stats["ops"] = stats.get("ops", 0) + 1
        if e[0] == "walk":
            left = dict(e[1])
            stats["walks"] = stats.get("walks", 0) + 1
            while True:
                w = nextline(o)
                if w == ["walked"]:
                    raise Violation("iteration", "%s: the iteration did not end, %d values" % (o, len(e[1])))
                check_item(o, w, left, stats)
                if w[1] == "F":
                    break
            w = nextline(o)
            if w != ["walked"]:
                raise Violation("iteration", "%s: unexpected %s" % (o, w))
        elif e[0] == "istep":
            w = nextline(o)
            ii = e[1]
            if e[2] == "start":
                state[ii] = [dict(e[3]), None]
                check_item(o, w, state[ii][0], stats)
            elif e[2] == "next":
                check_item(o, w, state[ii][0], stats)
            elif w != state[ii][1]:
                raise Violation("iteration", "%s: %s, but was %s before" % (o, w, state[ii][1]))
            state[ii][1] = w
        else:
            w = nextline(o)
            stats[e[0]] = stats.get(e[0], 0) + 1
            if e == ("add", "T"):
                stats["rejected_adds"] = stats.get("rejected_adds", 0) + 1
            if w != list(e):
                raise Violation("result:" + e[0], "operation '%s' gave %s, expected %s" % (o, w, list(e)))


def check_item(o, w, left, stats):
    if w[0] != "it":
        raise Violation("iteration", "%s: %s" % (o, w))
    if w[1] == "F":
        if left:
            raise Violation("iteration", "%s: ended with %d values not visited" % (o, len(left)))
        if w[2] != "0" or w[3] != ".":
            raise Violation("iteration", "%s: value at the end %s" % (o, w))
        return
    i = int(w[2])
    if i not in left:
        raise Violation("iteration", "%s: value %d is visited twice or not in the table" % (o, i))
    k = left.pop(i)
    stats["visited"] = stats.get("visited", 0) + 1
    got = bytes.fromhex(w[3][1:]).decode("latin1").rstrip(" ")
    if got != k:
        raise Violation("iteration", "%s: key %r of value %d, expected %r" % (o, got, i, k))


def one(item):
    exe, d, seed = item
    ops, exp = script(seed)
    p, out = run_driver(exe, d, "h%d" % seed, ops)
    stats = {}
    try:
        judge(ops, exp, out, stats)
        if p.rc:
            raise Violation("crash", "exit %s: %s" % (p.rc, p.text()[-1500:]))
        return None, stats, ops
    except Violation as v:
        if p.rc:
            v = Violation("crash", "%s; exit %s: %s" % (v.msg, p.rc, p.text()[-1500:]))
        return (v.key, v.msg), stats, ops


def main():
    chk = Check("C18", "a case is one random operation script (tables of 1 to 4096 slots, keys chosen to collide, iterators, "
                "clear and re-initialization) executed by the real module compiled with AddressSanitizer, UBSan and "
                "-fcheck=all; every result is compared with a dictionary; non-trivial when it stored values and "
                "visited some by iteration", assumptions=["objects stay allocated while they are in a table"])
    root = core.scratch_root()
    try:
        exe = build_driver(root, "hash_driver.F90", ["ccpp_hashable.F90", "ccpp_hash_table.F90"])
        n = 800 if core.QUICK else 20000
        for st, it, r in core.pmap(one, ((exe, root, i) for i in range(n)), 60 if core.QUICK else 700):
            if st == "error":
                raise Inconclusive(r)
            bad, stats, ops = r
            for k, v in stats.items():
                chk.count(k, v)
            chk.case("|".join(ops)[:400] if stats.get("visited") else None)
            chk.sample(ops[:12], 2)
            if bad:
                chk.violation(bad[0], bad[1], dict(kind="script", ops=ops))
    finally:
        core.rmtree(root)
    chk.finish(min_evals=100, require=["visited", "rejected_adds", "get", "getq", "walks"])
