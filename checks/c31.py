"""Metadata written from Fortran sources describes them and is accepted."""
import os, re, shutil, hashlib
from vf import core, pysrv
from vf.core import Check, Violation, Inconclusive
from .c12 import run_cases
from .c21 import source, expected, norm

RULE = ("a case is a set of generated Fortran modules (random source styles) given to ccpp_fortran_to_metadata; the tables, "
        "variables, types, kinds, ranks, intents and optional attributes in the files it writes are compared with the "
        "generating model, then the placeholders are filled in and the real offline checker has to accept the metadata; "
        "non-trivial: at least one table with variables")
ASSUME = ["bounds which are expressions and attribute statements are not generated (documented as not supported)",
          "standard names, units and dimension names are placeholders except where a dimension is an earlier variable of the table "
          "or the constant 1"]
CONV = os.path.join(core.SCRIPTS, "ccpp_fortran_to_metadata.py")
OFF = os.path.join(core.SCRIPTS, "fortran_tools", "offline_check_fortran_vs_metadata.py")


def sections(text):
    """[(header, [(key, value)])] of a metadata file"""
    res = []
    for l in text.splitlines():
        s = l.strip()
        if not s or s[0] in "#;":
            continue
        m = re.match(r"\[\s*(.*?)\s*\]$", s)
        if m:
            res.append((m.group(1), []))
            continue
        for p in s.split("|"):
            if "=" not in p or not res:
                raise Violation("syntax", "line %r in the written metadata" % l)
            res[-1][1].append(tuple(x.strip() for x in p.split("=", 1)))
    return res


def tables(text):
    """[(properties name, properties type, table name, table type, [(local name, properties)])]"""
    res, props = [], None
    for h, kv in sections(text):
        keys = [k for k, _ in kv]
        if len(set(keys)) != len(keys):
            raise Violation("property-twice", "section [%s] has properties %s" % (h, keys))
        kv = dict(kv)
        if h == "ccpp-table-properties":
            props = kv
        elif h == "ccpp-arg-table":
            if props is None:
                raise Violation("no-properties", "table %s without table properties" % kv.get("name"))
            res.append((props.get("name"), props.get("type"), kv.get("name"), kv.get("type"), []))
        else:
            if not res:
                raise Violation("no-table", "variable %s outside of a table" % h)
            res[-1][4].append((h, kv))
    return res


def compare(s, feats, text):
    have = tables(text)
    want = s.tables()
    index = {}
    for pn, pt, n, t, vs in have:
        if n.lower() in index:
            raise Violation("twice", "table %s is written twice" % n)
        index[n.lower()] = (pn, pt, t, vs)
        if pt != t:
            raise Violation("table-type", "table %s of type %s in properties of type %s" % (n, t, pt))
    ghosts = [n for n in index if n not in [x[0].lower() for x in want] and index[n][3]]
    if ghosts:
        raise Violation("ghost", "tables %s are written, the source has no such argument tables" % ghosts)
    nvar = 0
    # an argument of one routine means nothing in the table of another
    owner = {kv.get("standard_name"): n for n in index for _, kv in index[n][3] if index[n][2] == "scheme"}
    for n, t, vs in want:
        if n.lower() not in index:
            raise Violation("missing:" + t, "argument table %s (%s) is not written (styles %s)" % (n, t, ",".join(feats)))
        pn, pt, typ, hv = index[n.lower()]
        if typ != ("module" if t == "host" else t):
            raise Violation("table-type", "table %s is written with type %s, it is %s" % (n, typ, t))
        names, got = [v.name.lower() for v in vs], [x.lower() for x, _ in hv]
        if names != got and (t == "scheme" or sorted(names) != sorted(got) or "multi" not in feats):
            raise Violation("names:" + t, "table %s: variables %s are written, declared are %s (styles %s)" % (
                n, got, names, ",".join(feats)))
        earlier = {}
        for x, kv in hv:
            v = vs[names.index(x.lower())]
            e = expected(v)
            what = "table %s, variable %s (styles %s): " % (n, v.name, ",".join(feats))
            if norm(kv.get("type", "")) != e["type"]:
                raise Violation("type", what + "type %r, declared is %r" % (kv.get("type"), e["type"]))
            k = norm(kv.get("kind", ""))
            if k != e["kind"] and not (e["type"] in ("real", "complex") and not e["kind"] and k == "kind_phys") and not (
                    e["type"] == "character" and e["kind"] == "len=1" and not k) and sorted(k.split(",")) != sorted(e["kind"].split(",")):
                if e["type"] in ("real", "complex", "integer", "logical", "character"):
                    raise Violation("kind:" + e["type"], what + "kind %r, declared is %r" % (kv.get("kind"), e["kind"]))
            m = re.match(r"\((.*)\)$", kv.get("dimensions", ""))
            if not m:
                raise Violation("dimensions", what + "dimensions %r" % kv.get("dimensions"))
            ds = [q.strip() for q in m.group(1).split(",")] if m.group(1).strip() else []
            if len(ds) != len(e["dims"]):
                raise Violation("rank", what + "dimensions %s, declared are %s" % (ds, e["dims"]))
            for d, f in zip(ds, e["dims"]):
                for a, b in zip(d.split(":")[::-1], f.split(":")[::-1]):
                    # (compared from the upper bound: a lower bound of 1 may be left away)
                    if b in earlier and a != earlier[b]:
                        raise Violation("dimension-name", what + "dimension %s is written as %s, the variable %s as %s" % (
                            f, d, b, earlier[b]))
                    if owner.get(a, n.lower()) != n.lower():
                        raise Violation("dimension-name", what + "dimension %s is written as %s, which is an argument of %s" % (
                            f, d, owner[a]))
            if t == "scheme" and norm(kv.get("intent", "")) != e["intent"]:
                raise Violation("intent", what + "intent %r, declared is %r" % (kv.get("intent"), e["intent"]))
            if kv.get("optional", "False").lower() not in (("true", ".true.") if e["optional"] else ("false", ".false.")):
                raise Violation("optional", what + "optional %r, declared is %s" % (kv.get("optional"), e["optional"]))
            std = kv.get("standard_name")
            if not std or std in earlier.values():
                raise Violation("standard-name", what + "standard name %r" % std)
            earlier[v.name.lower()] = std
            nvar += 1
    return nvar


def fill(text):
    """replace the placeholders by names and units, and write the table names in one case"""
    t = re.sub(r"enter_standard_name_(\d+)", r"planted_name_\1", text)
    t = re.sub(r"^(\s*units\s*=\s*)enter_units\s*$", r"\g<1>m s-1", t, flags=re.M)
    return re.sub(r"^\s*name\s*=.*$", lambda m: m.group(0).lower(), t, flags=re.M)


def case(item):
    tag, seed, root, n = item
    d = os.path.join(root, "%s%d" % (tag, seed))
    os.makedirs(os.path.join(d, "out"))
    try:
        r = core.rng("c31", tag, seed)
        batch, stats = [], {}
        for i in range(n):
            s, feats = source(seed * 1000 + i, tag)
            p = os.path.join(d, s.base + ((".F" if i % 2 else ".f") if s.fixed else (".f90" if i % 5 == 4 else ".F90")))
            with open(p, "w") as f:
                f.write(s.text())
            batch.append((s, feats, p))
        for k, (s, feats, path) in enumerate(batch):
            try:
                a = [CONV, os.path.basename(path), "--output-root", "out"]
                if r.random() < 0.3:
                    a += ["--section-separator", r.choice(["#", "########", ";-----", "# separator"])]
                p = pysrv.run(a, d, 60)
                if p.timeout:
                    raise Violation("hang", "the conversion does not terminate (styles %s)" % ",".join(feats))
                if p.rc:
                    raise Violation("fails:" + re.sub(r"\W*\d+\W*|'[^']*'|/\S+", "#", (p.text().strip().splitlines() or ["?"])[-1])[:60],
                                    "valid Fortran source (styles %s) is not converted: %s" % (",".join(feats), p.text()[-400:]))
                m = os.path.join(d, "out", s.base + ".meta")
                if not os.path.exists(m):
                    raise Violation("no-file", "no metadata file is written for %s" % s.base)
                text = open(m).read()
                nv = compare(s, feats, text)
                # the completed metadata is accepted together with the source
                w = os.path.join(d, "w%d" % k)
                os.makedirs(w)
                shutil.copy(path, w)
                with open(os.path.join(w, s.base + ".meta"), "w") as f:
                    f.write(fill(text))
                p = pysrv.run([OFF, "--directory", w], d, 60)
                if p.rc or p.timeout:
                    raise Violation("rejected:" + re.sub(r"\W*\d+\W*|'[^']*'|/\S+", "#", (p.text().strip().splitlines() or ["?"])[-1])[:60],
                                    "the completed metadata is rejected with its source: %s" % p.text()[-500:])
            except Violation as v:
                m = os.path.join(d, "out", s.base + ".meta")
                return ("violation", v.key, "%s\nsource %s/%s:\n%s\nmetadata:\n%s" % (
                    v.msg, tag, s.base, open(path).read()[:1500], open(m).read()[:1000] if os.path.exists(m) else "none"))
            stats["sources"] = stats.get("sources", 0) + 1
            stats["tables"] = stats.get("tables", 0) + len(s.tables())
            stats["variables"] = stats.get("variables", 0) + nv
            stats["accepted"] = stats.get("accepted", 0) + 1
            if s.fixed:
                stats["fixed_form"] = stats.get("fixed_form", 0) + 1
            for f in feats:
                stats["style:" + f] = stats.get("style:" + f, 0) + 1
        return ("ok", stats, hashlib.sha256("".join(open(b[2]).read() for b in batch).encode()).hexdigest()[:12])
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    chk = Check("C31", RULE, assumptions=ASSUME)
    root = core.scratch_root()
    q = core.QUICK
    try:
        run_cases(chk, case, [("c31_s%d_" % core.SEED, i, root, 6) for i in range(600 if q else 30000)], 30 if q else 700)
    finally:
        core.rmtree(root)
    chk.finish(min_evals=60, require=["fixed_form", "sources", "tables", "variables", "accepted"])
