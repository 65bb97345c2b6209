"""Generic driver of the checks that build, execute and monitor random capgen
worlds."""
import hashlib, json, os, shutil
from . import core, capworld, caprun, preworld, prerun
from .core import Violation, Inconclusive


def _one(item):
    prof, tag, seed, root, opts = item
    d = os.path.join(root, "%s%d" % (tag, seed))
    stats = {}
    try:
        pre = opts.get("engine") == "pre"
        w = preworld.PWorld(seed, prof, tag) if pre else capworld.World(seed, prof, tag)
        post = opts.get("post")
        ev, m = (prerun if pre else caprun).run_world(w, d, root, san=opts.get("san", False), stats=stats)
        if post:
            from importlib import import_module
            mod, fn = post.split(":")
            getattr(import_module(mod), fn)(w, d, ev, m, stats)
        h = hashlib.sha256("".join(v for k, v in sorted(w.files().items())).encode()).hexdigest()[:12]
        if pre:
            desc = dict(seed=seed, layout=w.layout, blocks=w.blk, schemes=len(w.schemes), host_vars=len(w.vars),
                        suites={s.name: s.groups for s in w.suites}, calls=len(w.actions), observed=stats)
        else:
            desc = dict(seed=seed, schemes=len(w.schemes), host_vars=len(w.hvars), suites={
                s.name: [[g, capworld.World.static_schemes(i)] for g, i in s.groups] for s in w.suites},
                calls=len(w.actions), observed=stats)
        return ("ok", stats, h, desc)
    except Violation as v:
        return ("violation", stats, v.key, v.msg)
    except Inconclusive as v:
        return ("inconclusive", stats, "", str(v)[:3000])
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run_worlds(chk, profiles, nquick, nthorough, nontrivial, budget=(60, 600), opts=None, start=0):
    """profiles: list of (tag, profile); worlds are dealt round robin.
    <nontrivial>(stats) tells if a world exercised the property."""
    n = nquick if core.QUICK else nthorough
    root = core.scratch_root()
    opts = opts or {}
    items = []
    for i in range(n):
        tag, prof = profiles[i % len(profiles)]
        items.append((prof, "%s_s%d_" % (tag, core.SEED), start + i, root, opts))
    try:
        for st, it, r in core.pmap(_one, items, budget[0] if core.QUICK else budget[1]):
            if st == "error":
                chk.inconclusive.append(r)
                continue
            kind, stats, a, b = r
            for k, v in stats.items():
                chk.count(k, v)
            if kind == "ok":
                chk.case("%s" % a if nontrivial(stats) else None)
                if nontrivial(stats):
                    chk.sample(b, 2)
            elif kind == "violation":
                chk.case(None)
                chk.violation(a, b, dict(kind="preworld" if opts.get("engine") == "pre" else "capworld", profile=it[0], tag=it[1],
                                          world=it[2]))
            else:
                chk.inconclusive.append(b)
                chk.count("inconclusive_worlds")
    finally:
        core.rmtree(root)
