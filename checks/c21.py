"""Fortran declarations are read as the standard says, whatever their style."""
import os, json, hashlib, re, shutil
from vf import core, ftngen, pysrv
from vf.core import Check, Violation, Inconclusive
from .c12 import run_cases

RULE = ("a case is one generated Fortran module with marked argument tables, written in a random mix of source styles; "
        "the tables the real parser reads (names, order, types, kinds, bounds, intents, optional, allocatable) are compared "
        "with those the generator declared; a sample is compiled by gfortran to confirm the generator; non-trivial: at "
        "least one table with arguments")
READ = os.path.join(core.VERIF, "vf", "ftnread.py")
NOEXPR = [f for f in ftngen.FEATS if f != "expr"]


def norm(s):
    return re.sub(r"\s+", "", str(s)).lower()


def bounds(s):
    s = norm(s)[1:-1]
    return s.split(",") if s else []


def expected(v):
    typ = v.ddt if v.type == "ddt" else v.type
    kind = getattr(v, "shown", None) or v.kind or ""
    return dict(name=v.name.lower(), type=norm(typ), kind=norm(kind), dims=[norm(d) for d in v.dims], intent=v.intent or "",
                optional=bool(v.optional), allocatable="allocatable" in v.attrs)


def got(x):
    name, typ, kind, dims, intent, opt, alloc = x
    return dict(name=norm(name), type=norm(typ), kind=norm(kind or ""), dims=bounds(dims), intent=norm(intent or ""),
                optional=str(opt) == "True", allocatable=str(alloc) == "True")


def same(e, g):
    for k in e:
        if e[k] != g[k]:
            if k == "kind":
                if e["type"] in ("real", "complex") and not e[k] and g[k] == "kind_phys":
                    continue                  # documented default
                if g["type"] not in ("real", "integer", "logical", "complex", "character"):
                    continue                  # types have no kind
                if sorted(e[k].split(",")) == sorted(g[k].split(",")):
                    continue
                if e["type"] == "character" and e[k] == "len=1" and g[k] == "":
                    continue
            return k
    return None


def source(seed, tag):
    r = core.rng("c21", tag, seed)
    p = r.choice([0.05, 0.15, 0.3, 0.5])
    feats = [x for x in NOEXPR if r.random() < p]
    kind = r.choice(["scheme", "scheme", "module", "host", "program"])
    base = "m%d%s" % (seed, r.choice(["_abc", "_Module", "_end", "x"]))
    fixed = core.rng("c21fix", tag, seed).random() < 0.2
    if fixed:
        feats = feats + (["seqnum"] if core.rng("c21seq", tag, seed).random() < 0.3 else [])
    return ftngen.Source(r, feats, base, kind, fixed=fixed), feats


class Pair:
    """two program units in one file"""

    def __init__(self, a, b):
        self.a, self.b, self.base, self.fixed = a, b, a.base, a.fixed
        self.ddts = a.ddts + b.ddts

    def text(self):
        return self.a.text() + self.b.text()

    def tables(self):
        return self.a.tables() + self.b.tables()


def unit(seed, tag):
    s, feats = source(seed, tag)
    if core.rng("c21pair", tag, seed).random() < 0.2:
        o, more = source(seed + 500, tag)
        names = [n for x in (s, o) for n, _, _ in x.tables()]
        if s.fixed == o.fixed and not (s.kind == "program" and o.kind == "program") and len(set(names)) == len(names):
            return Pair(s, o), sorted(set(feats) | set(more)), True
    return s, feats, False


def compare(s, feats, res):
    if "error" in res:
        msg = res["error"]
        raise Violation("error:" + re.sub(r"\W*\d+\W*|'[^']*'|/\S+", "#", msg)[:60],
                        "valid Fortran source (styles %s) is not read: %s" % (",".join(feats), msg[:300]))
    want = s.tables()
    have = res["tables"]
    index = {}
    for title, typ, vs in have:
        if title.lower() in index:
            raise Violation("twice", "table %s is read twice" % title)
        index[title.lower()] = (typ, vs)
    names = [n.lower() for n, _, _ in want]
    for t, (typ, vs) in index.items():
        if t not in names and vs:
            raise Violation("ghost", "table %s with variables %s is read, which is no argument table of the source" % (t, [v[0] for v in vs]))
    nvar = 0
    for n, t, vs in want:
        if n.lower() not in index:
            raise Violation("missing:" + t, "argument table %s (%s) is not read (styles %s)" % (n, t, ",".join(feats)))
        typ, hv = index[n.lower()]
        if typ != ("module" if t == "host" else t):
            raise Violation("tabletype", "table %s is read as %s" % (n, typ))
        ev, gv = [expected(v) for v in vs], [got(x) for x in hv]
        if [e["name"] for e in ev] != [g["name"] for g in gv]:
            if sorted(e["name"] for e in ev) == sorted(g["name"] for g in gv) and t != "scheme":
                gv.sort(key=lambda g: [e["name"] for e in ev].index(g["name"]))
                if t != "scheme" and "multi" not in feats:
                    raise Violation("order:" + t, "variables of %s are read in the order %s, declared as %s" % (
                        n, [x[0] for x in hv], [e["name"] for e in ev]))
            else:
                raise Violation("names:" + t, "table %s: variables %s are read, declared are %s (styles %s)" % (
                    n, [g["name"] for g in gv], [e["name"] for e in ev], ",".join(feats)))
        for e, g in zip(ev, gv):
            k = same(e, g)
            if k:
                raise Violation("%s:%s" % (k, e["type"] if k in ("type", "kind") else ""),
                                "table %s: %s of %s is read as %r, the source declares %r (styles %s)" % (
                                    n, k, e["name"], g[k], e[k], ",".join(feats)))
            nvar += 1
    return nvar


def case(item):
    tag, seed, root, n, gf = item
    d = os.path.join(root, "%s%d" % (tag, seed))
    os.makedirs(d)
    try:
        batch = []
        stats = {}
        for i in range(n):
            s, feats, pair = unit(seed * 1000 + i, tag)
            p = os.path.join(d, s.base + ((".F" if i % 2 else ".f") if s.fixed else (".F90" if i % 3 else ".f90")))
            with open(p, "w") as f:
                f.write(s.text())
            batch.append((s, feats, p))
            if pair:
                stats["two_units_in_a_file"] = stats.get("two_units_in_a_file", 0) + 1
            elif s.fixed:
                stats["fixed_form"] = stats.get("fixed_form", 0) + 1
            elif s.kind == "program":
                stats["main_programs"] = stats.get("main_programs", 0) + 1
            if i < gf:
                q = core.run(["gfortran", "-fsyntax-only", "-cpp", "-std=gnu", "-J", d, p], d, timeout=60)
                stats["gfortran_accepted"] = stats.get("gfortran_accepted", 0) + 1
                if q.rc:
                    return ("inconclusive", "gfortran rejects a generated source (styles %s): %s" % (feats, q.err[-300:]), "")
        p = pysrv.run([READ, json.dumps([[p, [n for n, _ in s.ddts]] for s, _, p in batch])], d, 60)
        docs = [json.loads(x) for x in p.out.splitlines() if x.startswith("{")]
        for k, (s, feats, path) in enumerate(batch):
            try:
                if k >= len(docs):
                    if p.timeout:
                        raise Violation("hang", "the parser does not terminate on a valid source (styles %s)" % ",".join(feats))
                    raise Violation("crash:" + (p.out.strip().splitlines() or ["?"])[-1].split(":")[0],
                                    "the parser ends with %s on a valid source (styles %s)" % (p.out.strip()[-300:], ",".join(feats)))
                nv = compare(s, feats, docs[k])
            except Violation as v:
                return ("violation", v.key, "%s\nsource %s/%s:\n%s" % (v.msg, tag, s.base, open(path).read()[:1500]))
            stats["sources"] = stats.get("sources", 0) + 1
            stats["tables"] = stats.get("tables", 0) + len(s.tables())
            stats["variables"] = stats.get("variables", 0) + nv
            for f in feats:
                stats["style:" + f] = stats.get("style:" + f, 0) + 1
        return ("ok", stats, hashlib.sha256("".join(open(b[2]).read() for b in batch).encode()).hexdigest()[:12])
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    chk = Check("C21", RULE, assumptions=["bounds which are expressions and attribute statements are not generated (documented as not supported)",
                                          "the tables are read through parse_fortran_file, as capgen and the offline checker do"])
    root = core.scratch_root()
    q = core.QUICK
    try:
        run_cases(chk, case, [("s%d_" % core.SEED, i, root, 12, 2 if q else 1) for i in range(1600 if q else 60000)], 40 if q else 800)
    finally:
        core.rmtree(root)
    chk.finish(min_evals=60, require=["sources", "tables", "variables", "gfortran_accepted", "two_units_in_a_file", "main_programs", "fixed_form"] +
               (["style:" + f for f in NOEXPR] if q else []))

