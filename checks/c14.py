from vf.core import Violation, load_findings
from vf.capworld import World, HDIM
from .capworlds import go, MIX


def model(w, suite):
    """(input names, output names, optional extra input names) of one suite"""
    reads, writes, extra, may = set(), set(), set(), set()
    for g, items in suite.groups:
        for lv in loopvars(items):
            extra.add(lv)
    phases = {ph for s in w.schemes for ph in s.entries}
    for ph in phases:
        for n in set(w.phase_trace(suite, ph)):
            for a in w.scheme[n].entries[ph].args:
                if a.special == "default":
                    extra.update(a.alldims)
                    continue
                if a.special == "dim":
                    may_only = a.std.startswith("horizontal_loop") or w.dims[a.std].parameter
                    (extra if may_only else reads).add(a.std)
                    continue
                if a.special == "cond":
                    reads.add(a.std)
                    continue
                v = a.src
                extra.update(v.dims)
                if getattr(v, "inter", False):
                    continue
                extra.update(x for x in (getattr(v, "lower", None) or []) if x)
                if v.elem_of is not None:
                    extra.update([v.elem_of.std, v.idx.std])
                if getattr(v, "cond", None) is not None:
                    extra.update(c.std for c in World.cond_vars(v.cond))
                if a.intent in ("in", "inout"):
                    (may if getattr(v, "protected", False) else reads).add(a.std)
                if a.intent in ("out", "inout"):
                    writes.add(a.std)
                if a.intent == "in" and a.std in ("ccpp_error_code",):
                    reads.add(a.std)
    return reads, writes, extra


def leaks(w, suite):
    """Known finding: while the arguments of all suites are collected, the intent of a variable in the call list of the
    first group using it in a phase is overwritten when a group of another suite has a different one (the stable
    tests of the repository expect such a list). Returns the (input, output) names of <suite> this adds."""
    rd, wr = set(), set()
    for ph in {ph for s in w.schemes for ph in s.entries}:
        groups = []
        for s in w.suites:
            if ph == "run":
                groups += [(s, World.static_schemes(items)) for _, items in s.groups]
            else:
                groups.append((s, w.phase_trace(s, ph)))
        first, use = {}, {}
        for k, (s, names) in enumerate(groups):
            for n in set(names):
                if ph not in w.scheme[n].entries:
                    continue
                for a in w.scheme[n].entries[ph].args:
                    first.setdefault(a.std, k)
                    use.setdefault(a.std, {}).setdefault(k, set()).add(a.intent)
        for std, k in first.items():
            if groups[k][0] is not suite:
                continue
            later = set().union(*[i for j, i in use[std].items() if groups[j][0] is not suite] or [set()])
            own = use[std][k]
            if own == {"in"} and later & {"out", "inout"}:
                wr.add(std)
            if own == {"out"} and later & {"in", "inout"}:
                rd.add(std)
    return rd, wr


def loopvars(items):
    for it in items:
        if isinstance(it, (list, tuple)) and len(it) >= 3 and it[0] == "subcycle":
            if hasattr(it[1], "std"):
                yield it[1].std
            yield from loopvars(it[2])


def post(w, d, ev, m, stats):
    lists, codes = {}, {}
    for e in ev:
        if e[0] != "N":
            continue
        t = e[1].split(" ", 3)
        if t[0] == "IE":
            codes[t[1]] = (int(t[2]), t[3] if len(t) > 3 else "")
            lists.setdefault(t[1], [])
        elif t[0] == "IL":
            lists.setdefault(t[1], []).append(t[2])

    def q(key):
        """The list of a query; an error and a missing answer are reported"""
        code, msg = codes[key]
        stats["queries"] = stats.get("queries", 0) + 1
        if code != 0:
            raise Violation("query-error:" + key.split(":")[0], "query %s returned error %d %s" % (key, code, msg))
        got = lists[key]
        if len(set(x.lower() for x in got)) != len(got):
            raise Violation("duplicate:" + key.split(":")[0], "query %s lists a name twice: %s" % (key, sorted(got)))
        stats["names"] = stats.get("names", 0) + len(got)
        return got

    got = lists.get("suites", [])
    if sorted(got) != sorted(s.name for s in w.suites):
        raise Violation("suites", "suite list is %s, suites are %s" % (got, [s.name for s in w.suites]))
    for k, (code, msg) in codes.items():
        if k.split(":")[1] == "nosuchsuite":
            stats["unknown_queries"] = stats.get("unknown_queries", 0) + 1
            if code == 0 or not msg.strip():
                raise Violation("unknown-suite:" + k.split(":")[0], "query %s returned %d %r" % (k, code, msg))
    for s in w.suites:
        got = q("parts:" + s.name)
        if sorted(got) != sorted(g[0] for g in s.groups):
            raise Violation("parts", "parts of %s are %s, expected %s" % (s.name, got, [g[0] for g in s.groups]))
        got = q("schemes:" + s.name)
        exp = set(w.suite_schemes(s))
        if set(got) != exp:
            raise Violation("schemes", "schemes of %s are %s, expected %s" % (s.name, sorted(got), sorted(exp)))
        reads, writes, extra = model(w, s)
        elems = {v.std: v.elem_of.std for v in w.hvars if v.elem_of is not None}
        arrays = set(elems.values())
        for key in codes:
            t = key.split(":")
            if t[0] != "vars" or t[1] != s.name:
                continue
            iv, ov, se = [x != "F" for x in t[2]]
            got = set(q(key))
            must, can = set(), set()
            if iv:
                must |= reads
                can |= reads | extra
            if ov:
                must |= writes | {"ccpp_error_message", "ccpp_error_code"}
                can |= must
            if se:
                # an array with elements is represented by them
                for x in list(must):
                    if x in arrays:
                        must.discard(x)
                        must |= {k for k, v in elems.items() if v == x}
                for x in list(can):
                    if x in arrays:
                        can |= {k for k, v in elems.items() if v == x}
            miss, more = must - got, got - can
            if miss:
                raise Violation("missing:" + t[2], "query %s does not list %s" % (key, sorted(miss)))
            lr, lw = leaks(w, s)
            if se:
                lr |= {k for k, v in elems.items() if v in lr}
                lw |= {k for k, v in elems.items() if v in lw}
            leaked = more & ((lr if iv else set()) | (lw if ov else set()))
            more -= leaked
            if leaked:
                stats["known:intent-leak"] = stats.get("known:intent-leak", 0) + len(leaked)
                if "intent-leak" not in load_findings().get("C14", {}):
                    raise Violation("intent-leak", "query %s lists %s with the intent of another suite" % (
                        key, sorted(leaked)))
            if more:
                raise Violation("extra:" + t[2], "query %s lists %s, which the suite does not %s" % (
                    key, sorted(more), "use" if iv and ov else "read" if iv else "write"))


def main():
    base = dict(n_vars=(6, 12), n_suites=(1, 3), p_debug=0.1, steps=(1, 1), p_reinit=0.0, p_elem=0.3)
    go("C14", [("c14a", dict(base)), ("c14b", dict(base, p_active=0.3, p_unitdiff=0.2, p_inter=0.9)),
               ("c14c", dict(base, n_schemes=(4, 8), p_suitetag=0.3, p_subcycle=0.2, p_elem=0.6))],
       120, 1200, "the executable answered the queries of every suite with all option combinations",
       lambda s: s.get("queries", 0) > 0, ["queries", "unknown_queries", "names"], 40, post="checks.c14:post")
