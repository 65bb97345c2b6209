"""Metadata files are read to exactly what they say; faulty ones are rejected."""
import os, json, re, hashlib, shutil
from vf import core, pysrv
from vf.core import Check, Violation, Inconclusive
from .c12 import run_cases

RULE = ("a case is a batch of generated metadata files in random layouts (spacing, blank lines, comments, '|' and backslash "
        "joins, case and order of properties); what the real parser returns for every table, section and variable property is "
        "compared with the generating model; in part of the files one fault is planted, which must give an error naming the "
        "file; non-trivial: at least one accepted file with variables")
READ = os.path.join(core.VERIF, "vf", "metaread.py")
PHASES = ["register", "init", "timestep_init", "run", "timestep_final", "finalize", "timestep_finalize", "initialize", "timestep_initial"]
WORDS = "air temperature flux mass mixing ratio of water vapor cloud liquid at surface tendency due to radiation layer level number index flag for the momentum x y z p2 1p5 10m".split()
UNITS = ["K", "m s-1", "kg kg-1", "1", "none", "count", "index", "W m-2", "J kg-1 K-1", "Pa", "flag", "m2 s-2", "degree_C", "s", "kg m-3", "mm h-1"]
BOOLS = {True: ["T", "t", "true", "True", "TRUE", ".true.", ".True.", ".TRUE."], False: ["F", "f", "false", "False", "FALSE", ".false.", ".FALSE."]}
BOOLP = ["state_variable", "protected", "allocatable", "polymorphic", "top_at_one", "optional", "target", "advected", "constituent"]
DEFAULT = dict(state_variable=False, protected=False, allocatable=False, diagnostic_name="", diagnostic_name_fixed="", default_value="",
               persistence="timestep", active=".true.", polymorphic=False, top_at_one=False, optional=False, target=False, advected=False,
               molar_mass=0.0, constituent=False, intent=None)


def ident(r, n=0):
    return r.choice("abcdefghijklmnopqrstuvwxyzABCQ") + "".join(r.choice("abcdefgxyz_0123456789AZ") for _ in range(r.randint(0, 10))) + ("q%d" % n if n else "")


def mixcase(r, s):
    k = r.randrange(5)
    return s if k < 3 else s.upper() if k == 3 else "".join(c.upper() if r.random() < 0.4 else c for c in s)


def sp(r):
    return r.choice(["", "", " ", " ", "  ", "\t", "    "])


class Var:
    def __init__(s, r, n, kind, ddts, heavy):
        s.n = n
        s.raw = {}                       # as written
        s.exp = dict(DEFAULT)
        stdn = "_".join(r.choice(WORDS) for _ in range(r.randint(1, 6)))
        if not stdn[0].isalpha():
            stdn = "a_" + stdn
        stdn += "_v%d" % n
        p = dict(standard_name=mixcase(r, stdn))
        s.exp["standard_name"] = stdn.lower()
        ln = s.exp["standard_name"]
        ln = ln[0].upper() + ln[1:].replace("_", " ")
        s.exp["long_name"] = re.sub(r"(?<=\d)p(?=\d)", ".", ln)
        if r.random() < 0.6:
            p["long_name"] = " ".join(r.choice(WORDS + ["a=b", "(x)", "[y]", "100%", "don't", '"q"', "k = 3", "#1", "; end", "!", "Größe"])
                                      for _ in range(r.randint(1, 7))).strip()
            s.exp["long_name"] = p["long_name"]
        dims = []
        rank = r.choice([0, 0, 1, 1, 2, 3, 5])
        for _ in range(rank):
            a, b = [r.choice([ident(r), "_".join(r.choice("xyz") + ident(r) for _ in range(3)), str(r.randint(0, 40))]) for _ in range(2)]
            if r.random() < 0.3:
                w, q = r.choice([("", ""), ("", ""), (" ", " "), ("", " "), (" ", "")])
                dims.append((a + w + ":" + q + b, a + ":" + b))
            else:
                dims.append((b, "ccpp_constant_one:" + b))
        sep = r.choice([",", ", ", " , "])
        p["dimensions"] = "(" + sp(r).strip("\t") + sep.join(x[0] for x in dims) + r.choice(["", " "]) + ")"
        s.exp["dimensions"] = [x[1] for x in dims]
        s.name = ident(r, n)
        s.exp["local_name"] = s.name
        if dims and r.random() < 0.15:
            refs = [":"] * rank
            for _ in range(r.randint(1, min(2, 7 - rank))):
                refs.insert(r.randint(0, len(refs)), r.choice([ident(r), "index_of_" + ident(r), str(r.randint(1, 9))]))
            base = s.name
            s.name = base + r.choice(["", " "]) + "(" + r.choice(["", " "]) + r.choice([",", ", ", " , "]).join(refs) + r.choice(["", " "]) + ")"
            s.exp["local_name"] = "%s(%s)" % (base, ", ".join(refs))
        ddt = ddts and r.random() < 0.3
        typ = r.choice(ddts) if ddt else r.choice(["real", "integer", "logical", "character", "complex", "double precision", "real", "real"])
        p["type"] = typ if ddt else mixcase(r, typ)
        s.exp["type"] = p["type"]
        s.exp["kind"] = "kind_phys" if typ in ("real", "complex", "double precision") else ""
        if ddt:
            s.exp["kind"] = typ
        elif r.random() < 0.5:
            p["kind"] = (r.choice(["len=*", "len=%d" % r.randint(1, 512), "len=:", "len = 12"]) if typ == "character" else
                         r.choice(["kind_phys", "kp", "8", "dp", "REAL32", "kind_dyn"]))
            s.exp["kind"] = p["kind"]
        if not ddt or r.random() < 0.6:
            p["units"] = r.choice(UNITS)
            s.exp["units"] = p["units"]
        else:
            s.exp["units"] = ""
        if kind == "scheme":
            p["intent"] = r.choice(["in", "out", "inout"])
            s.exp["intent"] = p["intent"]
        for b in BOOLP:
            if r.random() < heavy:
                v = r.random() < 0.7
                if b == "protected" and p.get("intent", "in") != "in":
                    v = False
                p[b] = r.choice(BOOLS[v])
                s.exp[b] = v
        if r.random() < heavy:
            d = r.choice(["diagnostic_name", "diagnostic_name_fixed"])
            p[d] = ident(r)
            if d == "diagnostic_name" and r.random() < 0.5:
                p[d] = r.choice(["", p[d]]) + r.choice(["${process}", "${scheme_name}"]) + r.choice(["", "_" + ident(r)])
            s.exp[d] = p[d]
        if not ddt and r.random() < heavy and ("kind" not in p or typ == "character" or re.fullmatch("\\w+", p["kind"])):
            k = "_" + r.choice([p["kind"], p["kind"].upper()]) if "kind" in p and typ != "character" else ""
            v = dict(real=["3.5", "0.0", "-1.25e3", "1.e-9", ".5"], integer=["0", "-7", "123"], logical=[".true.", ".FALSE."],
                     character=["'abc'", '"x y"', "'with_underscore'", "''", "'it''s_a'", '"_"'], complex=["(1.0,2.5)", "(1,-2)"], **{"double precision": ["2.5", "1.0e3"]})[typ]
            v = r.choice(v)
            if not (k and typ == "complex"):
                p["default_value"] = v + k
                s.exp["default_value"] = v + k
        if r.random() < heavy:
            p["persistence"] = r.choice(["timestep", "run"])
            s.exp["persistence"] = p["persistence"]
        if r.random() < heavy:
            p["active"] = r.choice(["(flag_for_x > 3 .and. do_it)", ".false.", "(a == b)", "flag_x", "(n >= 2 .or. .not. l)", "(index /= 4)"])
            s.exp["active"] = p["active"]
        if r.random() < heavy:
            m = r.choice(["28.97", "18", "0", "10000", "1.2e1", "0.5"])
            p["molar_mass"] = m
            s.exp["molar_mass"] = float(m)
        s.props = list(p.items())
        if r.random() < 0.5:
            r.shuffle(s.props)

    def lines(s, r, style):
        out = [(sp(r) if r.random() < style["case"] else "") + "[%s%s%s]" % (sp(r), s.name, sp(r))]
        i = 0
        while i < len(s.props):
            n = 1
            while i + n < len(s.props) and r.random() < style["join"]:
                n += 1
            parts = ["%s%s=%s%s" % (mixcase(r, k) if r.random() < style["case"] else k, sp(r), sp(r), v) for k, v in s.props[i:i + n]]
            t = sp(r) + r.choice(["|", " | ", "  |\t"]).join(parts) + sp(r)
            if r.random() < style["cont"]:
                spots = [m.end() for m in re.finditer(r"[=|,]", t)]
                if spots:
                    k = r.choice(spots)
                    out += [t[:k] + "\\", t[k:]]
                    t = None
            if t is not None:
                out.append(t)
            i += n
        return out


class File:
    def __init__(s, r, base):
        s.r, s.base, s.ddts = r, base, []
        heavy = r.choice([0.02, 0.1, 0.3])
        s.style = dict(join=r.choice([0, 0.1, 0.5]), case=r.choice([0, 0, 0.5]), cont=r.choice([0, 0, 0.1]), blank=r.choice([0, 0.1, 0.4]))
        s.tables, n = [], 0
        for i in range(r.choice([1, 1, 2, 3, 4])):
            kind = r.choice(["scheme", "scheme", "ddt", "module", "host"])
            name = ident(r, i + 1) + "_t%d" % i
            t = dict(name=name, type=kind, deps=[], path=None, secs=[], draw=[])
            if r.random() < 0.3:
                t["path"] = r.choice(["..", "../up", "sub/dir", "."])
            for _ in range(r.choice([0, 0, 1, 2])):
                ds = [r.choice(["", "x/", "../"]) + ident(r) + ".F90" for _ in range(r.randint(1, 3))]
                t["deps"] += ds
                t["draw"].append(r.choice([",", ", ", " ,  "]).join(ds) + r.choice(["", "", ","]))
            if not t["deps"] and r.random() < 0.2:
                t["draw"] = [r.choice(["none", "None", "NONE"])]
            titles = r.sample([x for x in PHASES], r.randint(1, 4)) if kind == "scheme" else [""]
            for ph in titles:
                vs = []
                for _ in range(r.choice([0, 1, 2, 4, 8, 12])):
                    n += 1
                    vs.append(Var(r, n, kind, s.ddts, heavy))
                t["secs"].append(dict(title=name + ("_" + ph if ph else ""), type=kind, module=r.choice([None, None, ident(r) + "_mod"]),
                                      process=r.choice([None, None, "microphysics", "radiation"]) if kind == "scheme" else None, vars=vs))
            if kind == "ddt":
                s.ddts.append(name)
            s.tables.append(t)

    def head(s, word):
        r = s.r
        return "%s[%s%s%s]%s" % (r.choice(["", "", "  "]), sp(r), mixcase(r, word) if r.random() < s.style["case"] else word, sp(r), sp(r))

    def props(s, ps, fixed=False):
        r = s.r
        deps = [x for x in ps if x[0] == "dependencies"]
        if not fixed and r.random() < 0.5:
            r.shuffle(ps)
            dep = iter([d for d in deps])
            ps = [next(dep) if k[0] == "dependencies" else k for k in ps]
        out, i = [], 0
        while i < len(ps):
            n = 2 if r.random() < s.style["join"] else 1
            out.append(sp(r) + " | ".join("%s%s=%s%s" % (mixcase(r, k) if r.random() < s.style["case"] else k, sp(r), sp(r), v)
                                          for k, v in ps[i:i + n]) + sp(r))
            i += n
        return out

    def blocks(s):
        """list of [kind, where, lines]"""
        out = []
        for ti, t in enumerate(s.tables):
            ps = [("name", t["name"]), ("type", t["type"])] + [("dependencies", d) for d in t["draw"]]
            if t["path"]:
                ps.append(("relative_path", t["path"]))
            out.append(["table", (ti,), [s.head("ccpp-table-properties")] + s.props(ps)])
            for si, c in enumerate(t["secs"]):
                ps = [("name", c["title"]), ("type", c["type"])]
                if c["module"]:
                    ps.append(("module", c["module"]))
                if c["process"]:
                    ps.append(("process", c["process"]))
                out.append(["section", (ti, si), [s.head("ccpp-arg-table")] + s.props(ps)])
                for v in c["vars"]:
                    out.append(["var", (ti, si, v), v.lines(s.r, s.style)])
        return out

    def filler(s, lines):
        r, out = s.r, []
        for i, x in enumerate(lines):
            cont = i and lines[i - 1].rstrip().endswith("\\")
            while not cont and r.random() < s.style["blank"]:
                out.append(r.choice(["", "", "   ", "\t", "#" * 40, "# comment", "  ; other comment", "#[ old ]", "# units = K", ";", "  # [ccpp-arg-table]"]))
            out.append(x)
        return out + r.choice([[], [], [""], ["# end", "  "]])

    def expected(s, d):
        out = []
        for t in s.tables:
            secs = [dict(title=c["title"], type=c["type"], module=c["module"] or s.base, process=c["process"] or "UNKNOWN",
                         vars=[v.exp for v in c["vars"]]) for c in t["secs"]]
            out.append(dict(name=t["name"], type=t["type"], deps=[os.path.abspath(os.path.join(d, t["path"] or "", x)) for x in t["deps"]],
                            path=t["path"], secs=secs))
        return out


def put(b, i, line):
    b[2].insert(i, line)


def joinprops(v, r):
    """write the properties of a variable anew, one on each line"""
    return ["[ %s ]" % v.name] + ["  %s = %s" % x for x in v.props]


def fault(r, f, blocks):
    """plant one fault; -> its name or None when it does not apply"""
    vb = [b for b in blocks if b[0] == "var"]
    tb = [b for b in blocks if b[0] == "table"]
    sb = [b for b in blocks if b[0] == "section"]
    kind = r.choice(FAULTS)
    kind, _, arg = kind.partition(":")
    if kind in ("value", "drop", "unknown", "dupstd", "duplocal", "varname", "baremid", "both"):
        if not vb:
            return None
        b = r.choice(vb)
        v = b[1][2]
        sec = f.tables[b[1][0]]["secs"][b[1][1]]
        if kind == "unknown":
            b[2] = joinprops(v, r)
            put(b, r.randint(1, len(b[2])), "  %s = %s" % (arg, r.choice(["1", "abc", ".true."])))
        elif kind == "value":
            prop, _, val = arg.partition("=")
            if prop == "intent" and f.tables[b[1][0]]["type"] != "scheme" or prop == "units" and not val and v.exp["type"] in f.ddts:
                return None
            if prop == "default_value" and (v.exp["type"] in f.ddts or v.exp["type"].lower() == val.split("/")[0]):
                return None
            val = val.split("/")[-1] if prop == "default_value" else val
            b[2] = joinprops(v, r)
            ls = [i for i, x in enumerate(b[2]) if x.split("=")[0].strip() == prop]
            if ls:
                b[2][ls[0]] = "  %s = %s" % (prop, val)
            else:
                put(b, r.randint(1, len(b[2])), "  %s = %s" % (prop, val))
        elif kind == "drop":
            if arg == "intent" and f.tables[b[1][0]]["type"] != "scheme" or arg == "units" and v.exp["type"] in f.ddts:
                return None
            b[2] = [x for x in joinprops(v, r) if x.split("=")[0].strip() != arg]
            if arg == "dimensions" and "(" in v.name:
                return None                      # refused as an array reference
        elif kind == "both":
            x, y = arg.split(";")
            if "intent" in x and f.tables[b[1][0]]["type"] != "scheme":
                return None
            b[2] = [z for z in joinprops(v, r) if z.split("=")[0].strip() not in (x.split("=")[0], y.split("=")[0])]
            for z in (x, y):
                put(b, r.randint(1, len(b[2])), z)
        elif kind == "varname":
            b[2] = joinprops(v, r)
            b[2][0] = arg
        elif kind == "baremid":
            b[2] = joinprops(v, r)
            put(b, r.randint(1, len(b[2])), arg)
        else:
            o = [x for x in sec["vars"] if x is not v]
            if not o:
                return None
            o = r.choice(o)
            b[2] = joinprops(v, r)
            if kind == "dupstd":
                i = [i for i, x in enumerate(b[2]) if x.split("=")[0].strip() == "standard_name"][0]
                b[2][i] = "  standard_name = " + mixcase(r, o.exp["standard_name"])
            else:
                if "(" in o.name or "(" in v.name:
                    return None
                b[2][0] = "[ %s ]" % o.name
        return kind + ":" + arg
    if kind == "bare":                            # a line which belongs nowhere
        b = r.choice(blocks)
        i = r.randint(0, len(b[2]))
        if i and b[2][i - 1].rstrip().endswith("\\"):
            return None
        put(b, i, arg)
        return "bare"
    if kind == "tdup":
        if len(tb) < 2:
            return None
        b, o = r.sample(tb, 2)
        i, j = f.tables[b[1][0]], f.tables[o[1][0]]
        if i["type"] != j["type"]:
            return None
        old, new = i["name"], j["name"]
        for x in blocks:
            if x[1][0] == b[1][0] and x[0] != "var":
                x[2] = [re.sub(r"(=\s*)%s(?=\s|_|$|\|)" % re.escape(old), r"\g<1>" + new, y) for y in x[2]]
        return "tdup"
    b = r.choice(tb if kind[0] == "t" else sb)
    t = f.tables[b[1][0]]
    key = lambda y: y.split("=")[0].strip().lower()
    if kind in ("tdrop", "sdrop", "tset", "sset", "sprop", "tprop"):
        if "|" in "".join(b[2]):
            return None
        if kind[1:] == "drop":
            b[2] = [x for x in b[2] if key(x) != arg]
            if kind == "tdrop" and arg == "name" and not t["secs"]:
                return None
        elif kind[1:] == "set":
            k, _, v = arg.partition("=")
            if v in ("scheme", "ddt", "module", "host") and v == t["type"]:
                return None
            b[2] = [x if key(x) != k else " %s = %s" % (k, v) for x in b[2]]
            if not any(key(x) == k for x in b[2]):
                put(b, 1, " %s = %s" % (k, v))
        else:
            if arg.startswith("process") and t["type"] == "scheme":
                return None
            if arg.startswith("dependencies"):
                b[2] = [x for x in b[2] if key(x) != "dependencies"]
                p = ["dependencies = none", "dependencies = a.F90"]
                r.shuffle(p)
                for x in p:
                    put(b, r.randint(1, len(b[2])), x)
            else:
                put(b, r.randint(1, len(b[2])), arg)
        return kind + ":" + arg
    if kind == "ssecond":
        if t["type"] == "scheme":
            return None
        blocks.insert(blocks.index(b) + 1, ["section", b[1], ["[ccpp-arg-table]", "name = " + t["name"], "type = " + t["type"]]])
        return kind
    return None


FAULTS = (["unknown:%s" % x for x in ("foo_bar", "unit", "standardname", "len", "dimension", "default", "valid_values")] +
          ["value:%s" % x for x in ("units=??", "units=m/s", "units=", "units=m s-01", "dimensions=x", "dimensions=(3y)", "dimensions=(a,,b)", "dimensions=(a",
                                    "dimensions=(a:b:c:d)", "dimensions=", "dimensions=a, b", "type=reel", "type=", "type=type(foo", "optional=maybe",
                                    "protected=1", "advected=yes", "allocatable=", "top_at_one=.t.", "intent=ino", "intent=", "intent=in out",
                                    "persistence=forever", "persistence=", "molar_mass=abc", "molar_mass=-1", "molar_mass=20000", "molar_mass=nan",
                                    "molar_mass=", "standard_name=1abc", "standard_name=a b", "standard_name=a-b", "standard_name=",
                                    "diagnostic_name=2foo", "diagnostic_name_fixed=a b", "default_value=integer/12_xx9", "default_value=character/'a")] +
          ["drop:%s" % x for x in ("standard_name", "units", "dimensions", "type", "intent")] +
          ["varname:%s" % x for x in ("[ 2x ]", "[ a b ]", "[ ]", "[ a", "a ]", "[ a(b ]", "[ a() ]", "[ a-b ]")] +
          ["baremid:%s" % x for x in ("standard_name", "just text", "[ccpp-nothing]")] +
          ["both:diagnostic_name=abc;diagnostic_name_fixed=abd", "both:intent=out;protected=true", "both:intent=inout;protected=T"] +
          ["dupstd", "duplocal", "dupstd", "duplocal", "tdup", "tdup", "tdup", "bare:subroutine foo()", "bare:some text", "bare:end", "bare:!comment"] +
          ["tdrop:name", "tdrop:type", "sdrop:name", "sdrop:type", "tset:type=schema", "tset:type=Scheme", "sset:type=reel", "sset:type=scheme", "sset:type=host",
           "tset:type=scheme", "tset:type=host", "tset:name=other_name", "sset:name=other_name", "sset:name=other_name_run", "sset:module=None",
           "sprop:process = radiation", "tprop:dependencies", "tprop:color = red", "sprop:color = red", "sprop:standard_name = abc", "ssecond"])


def differ(e, g, path=""):
    if isinstance(e, dict):
        for k in e:
            if k not in g:
                return path + "/" + k, e[k], "missing"
            d = differ(e[k], g[k], path + "/" + k)
            if d:
                return d
        return None
    if isinstance(e, list):
        if len(e) != len(g):
            return path + "#", [x.get("title", x.get("name", x.get("local_name"))) if isinstance(x, dict) else x for x in e], \
                [x.get("title", x.get("name", x.get("local_name"))) if isinstance(x, dict) else x for x in g]
        for i, (a, b) in enumerate(zip(e, g)):
            d = differ(a, b, path)
            if d:
                return d
        return None
    return None if e == g and type(e) == type(g) else (path, e, g)


def case(item):
    tag, seed, root, nfile = item
    r = core.rng("c20", tag, seed)
    d = os.path.join(root, "f%s%d" % (tag, seed))
    os.makedirs(d, exist_ok=True)
    stats, batch = {}, []

    def count(k, n=1):
        stats[k] = stats.get(k, 0) + n
    try:
        while len(batch) < nfile:
            base = ident(r) + "_f%d" % len(batch)
            f = File(r, base)
            blocks = f.blocks()
            bad = None
            if r.random() < 0.5:
                bad = fault(r, f, blocks)
                if bad is None:
                    continue
            lines = f.filler([x for b in blocks for x in b[2]])
            p = os.path.join(d, base + ".meta")
            eol = r.choice(["\n", "\n", "\n", "\r\n"])
            text = eol.join(lines) + r.choice([eol, eol, ""])
            with open(p, "w", newline="") as h:
                h.write(text)
            batch.append((p, f, bad, text))
        q = pysrv.run([READ, json.dumps([[b[0], False] for b in batch])], d, 60)
        docs = [json.loads(x) for x in q.out.splitlines() if x.startswith("{")]
        nvar = 0
        for k, (p, f, bad, text) in enumerate(batch):
            show = "\n" + text[:1800]
            if k >= len(docs):
                raise Violation("crash", "the reader ends with %s%s" % (q.out.strip()[-300:], show))
            g = docs[k]
            if "crash" in g:
                raise Violation("crash:%s:%s" % (bad, g["crash"].split(":")[0]), "fault %s: the parser ends with %s%s" % (bad, g["crash"], show))
            if bad:
                count("fault:" + bad.split(":")[0])
                if "error" not in g:
                    raise Violation("accepted:" + bad, "a file with a fault (%s) is accepted%s" % (bad, show))
                if os.path.basename(p) not in g["error"]:
                    raise Violation("noname:" + bad, "the error does not name the file (%s): %s%s" % (bad, g["error"][:300], show))
                continue
            if "error" in g:
                raise Violation("rejected:" + re.sub(r"\d+|'[^']*'|/\S+", "#", g["error"])[:50], "a valid file is rejected: %s%s" % (g["error"][:300], show))
            e = f.expected(d)
            x = differ(e, g["tables"])
            if x:
                raise Violation("differs:" + x[0], "%s is read as %r, the file says %r%s" % (x[0], x[2], x[1], show))
            if g["names"] != [t["name"] for t in e]:
                raise Violation("names", "find_scheme_names returns %s for %s%s" % (g["names"], [t["name"] for t in e], show))
            count("files")
            for t in e:
                for c in t["secs"]:
                    count("tables:" + t["type"])
                    nvar += len(c["vars"])
        count("variables", nvar)
        return ("ok", stats, hashlib.sha256("".join(b[3] for b in batch).encode()).hexdigest()[:12] if nvar else None)
    except Violation as v:
        return ("violation", v.key, v.msg)
    except Inconclusive as e:
        return ("inconclusive", str(e), "")
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    chk = Check("C20", RULE, assumptions=["repeated properties of one variable are not judged",
                                          "array references in local names whose rank disagrees with the dimensions are not planted"])
    root = core.scratch_root()
    q = core.QUICK
    try:
        run_cases(chk, case, [("s%d_" % core.SEED, i, root, 24) for i in range(700 if q else 20000)], 40 if q else 800)
    finally:
        core.rmtree(root)
    chk.finish(min_evals=100, require=["files", "variables", "tables:scheme", "tables:ddt", "tables:module", "tables:host"] +
               ["fault:" + x for x in sorted(set(f.split(":")[0] for f in FAULTS))])
