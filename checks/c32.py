"""The documents generated from metadata list exactly the variables with what the metadata says about them."""
import os, re, html, hashlib, shutil
from html.parser import HTMLParser
from vf import core, preworld, prerun, pysrv
from vf.core import Violation, Inconclusive, Check
from . import c20
from .c12 import run_cases

RULE = ("a case is either a batch of generated metadata files in random layouts turned into pages by metadata2html, or a generated host "
        "with schemes and suites for which ccpp_prebuild writes its HTML and LaTeX variable tables (in part of them a host variable is "
        "missing, so that the build fails after the tables) and metadata2html --config its pages; every row, cell and list of users is "
        "read back and compared with the metadata text; non-trivial: at least one document with variables")
ASSUME = ["the order of the rows of the prebuild tables is not prescribed; the rows of a page follow the metadata",
          "users of the variables the framework itself requests are not judged",
          "characters which are special in HTML or LaTeX may be written in any of the usual escaped forms"]
TOOL = os.path.join(core.SCRIPTS, "metadata2html.py")
COLS = ["local_name", "standard_name", "long_name", "units", "type", "dimensions", "kind", "intent"]
PROFS = [
    ("a", dict()),
    ("b", dict(n_schemes=(3, 7), n_suites=(1, 3), n_groups=(1, 3), n_vars=(8, 16), p_repeat=0.3)),
    ("c", dict(n_vars=(10, 20), n_args=(3, 8), p_unitdiff=0.3, p_optional=0.3, p_active=0.3)),
]
ODD = ["x < y", "a & b", "p > 0", "set {i}", "{}", "50 %", "a_b", "no. #4", "5 $", '"quoted"', "it's", "&lt; as such", "A/B", "[m]", "k = 2"]


class Rows(HTMLParser):
    """the rows of all tables of a document"""
    def __init__(s):
        super().__init__(convert_charrefs=True)
        s.rows, s.cell, s.text, s.open = [], None, "", []

    def handle_starttag(s, tag, attrs):
        if tag == "tr":
            s.rows.append([])
        elif tag in ("td", "th"):
            s.cell = ""
        elif tag not in ("html", "head", "title", "body", "table", "meta", "h1"):
            s.open.append(tag)

    def handle_data(s, d):
        s.text += d
        if s.cell is not None:
            s.cell += d

    def handle_endtag(s, tag):
        if tag in ("td", "th") and s.cell is not None:
            s.rows[-1].append(s.cell.strip())
            s.cell = None


def table(fn):
    with open(fn) as f:
        t = f.read()
    p = Rows()
    p.feed(t)
    p.close()
    if p.open:
        raise Violation("markup", "%s: the text of a cell becomes markup: %s" % (os.path.basename(fn), p.open[:3]))
    return p.rows


def page(fn, want, show):
    """compare a page of metadata2html; <want>: rows as lists in the order of COLS"""
    rows = table(fn)
    nm = os.path.basename(fn)
    if not rows or rows[0] != COLS:
        raise Violation("page-header", "%s: columns %s%s" % (nm, rows[:1], show))
    if len(rows) - 1 != len(want):
        raise Violation("page-rows", "%s lists %s, the metadata has %s%s" % (nm, [x[0] for x in rows[1:]], [x[0] for x in want], show))
    for g, e in zip(rows[1:], want):
        for c, a, b in zip(COLS, g + [None] * 8, e):
            if a != b:
                raise Violation("page-cell:" + c, "%s: %s of %s is %r, the metadata says %r%s" % (nm, c, e[0], a, b, show))


def tool(args, d, what):
    p = pysrv.run([TOOL] + args, d, 60)
    if p.rc != 0:
        raise Violation("tool:" + re.sub(r"\d+|'[^']*'|/\S+", "#", p.out.strip()[-200:])[-60:], "metadata2html fails on valid metadata (%s): %s" % (what, p.out[-700:]))


def pages(item):
    tag, seed, root, nfile = item
    r = core.rng("c32p", tag, seed)
    d = os.path.join(root, "p%s%d" % (tag, seed))
    os.makedirs(d)
    stats, sig = {}, ""
    try:
        for k in range(nfile):
            f = c20.File(r, "base_f%d" % k)
            for t in f.tables:
                for c in t["secs"]:
                    for v in c["vars"]:
                        if r.random() < 0.2:
                            ln = " ".join(["text"] + r.sample(ODD, r.randint(1, 3)) + ["end"])
                            v.props = [x for x in v.props if x[0] != "long_name"] + [("long_name", ln)]
                            v.exp["long_name"] = ln
                            stats["special"] = stats.get("special", 0) + 1
            lines = f.filler([x for b in f.blocks() for x in b[2]])
            text = "\n".join(lines) + "\n"
            src, out = os.path.join(d, "base_f%d.meta" % k), os.path.join(d, "out%d" % k)
            os.makedirs(out)
            with open(src, "w") as h:
                h.write(text)
            show = "\n" + text[:1500]
            r.choice([lambda: tool(["-m", src, "-o", out], d, "file"), lambda: tool(["--metafile", os.path.basename(src), "--outputdir", "out%d" % k], d, "file")])()
            want = {}
            for t in f.tables:
                for c in t["secs"]:
                    if c["vars"]:
                        want[c["title"] + ".html"] = [
                            [str(v.exp[x]) if x != "dimensions" else "(%s)" % ", ".join(v.exp[x]) for x in COLS[:-1]] +
                            [v.exp["intent"] or "n/a"] for v in c["vars"]]
            got = sorted(os.listdir(out))
            if got != sorted(want):
                raise Violation("pages", "pages %s for tables %s%s" % (got, sorted(want), show))
            for n in want:
                page(os.path.join(out, n), want[n], show)
                stats["pages"] = stats.get("pages", 0) + 1
                stats["page_rows"] = stats.get("page_rows", 0) + len(want[n])
            sig += text
        return ("ok", stats, hashlib.sha256(sig.encode()).hexdigest()[:12])
    except Violation as v:
        return ("violation", v.key, v.msg)
    except Inconclusive as e:
        return ("inconclusive", str(e), "")
    finally:
        shutil.rmtree(d, ignore_errors=True)


def read_meta(text):
    """[(table, table type, section, [(local name, {property: value})])] of plainly written metadata"""
    out, tab, ttype, cur, var, mode = [], None, None, None, None, None
    for line in text.split("\n"):
        x = line.strip()
        if not x or x[0] in "#;":
            continue
        if x == "[ccpp-table-properties]":
            mode = "t"
        elif x == "[ccpp-arg-table]":
            mode = "s"
        elif x[0] == "[" and x[-1] == "]":
            var = {}
            cur.append((x[1:-1].strip(), var))
            mode = "v"
        else:
            k, v = [y.strip() for y in x.split("=", 1)]
            if mode == "t":
                tab, ttype = (v if k == "name" else tab), (v if k == "type" else ttype)
            elif mode == "s":
                if k == "name":
                    cur = []
                    out.append((tab, ttype, v, cur))
            else:
                var[k] = v.lower() if k == "standard_name" else v
    return out


def long_default(std):
    ln = std[0].upper() + std[1:].replace("_", " ")
    return re.sub(r"(?<=\d)p(?=\d)", ".", ln)


def cells(local, p):
    dims = [x.strip() for x in p["dimensions"].strip()[1:-1].split(",") if x.strip()]
    dims = [x if ":" in x else "ccpp_constant_one:" + x for x in dims]
    kind = p.get("kind", "kind_phys" if p["type"] == "real" else "")
    if p["type"] not in ("real", "integer", "logical", "character"):
        kind = p["type"]
    return [re.sub(r"\s*,\s*", ", ", local), p["standard_name"], p.get("long_name") or long_default(p["standard_name"]), p.get("units", ""), p["type"],
            "(%s)" % ", ".join(dims), kind, p.get("intent") or "n/a"]


TEX = [("\\textbackslash{}", "\\"), ("\\textbackslash ", "\\"), ("\\textasciitilde{}", "~"), ("\\textasciicircum{}", "^"), ("\\~{}", "~"),
       ("\\^{}", "^"), ("\\textless{}", "<"), ("\\textgreater{}", ">"), ("{\\textless}", "<"), ("{\\textgreater}", ">")]


def untex(s, fn):
    out, i = "", 0
    while i < len(s):
        for a, b in TEX:
            if s.startswith(a, i):
                out += b
                i += len(a)
                break
        else:
            if s[i] == "\\" and i + 1 < len(s) and s[i + 1] in "%_&#${}":
                out += s[i + 1]
                i += 2
            elif s[i] in "\\%_&#${}":
                raise Violation("tex-special", "%s: %r is not escaped in %r" % (fn, s[i], s))
            else:
                out += s[i]
                i += 1
    return out


def tex(fn):
    """{standard name: {field: text}} and the names of the list of a LaTeX document"""
    with open(fn) as f:
        t = f.read()
    nm = os.path.basename(fn)
    top, _, body = t.partition("\\end{longtable}")
    names = []
    for ref, txt in re.findall(r"\\hyperlink\{([^}]*)\}\{\\blue\\underline\{\\execout\{(.*?)\}\}\} \\\\", top):
        if untex(txt, nm) != ref:
            raise Violation("tex-link", "%s: the entry %s refers to %s" % (nm, txt, ref))
        names.append(ref)
    res = {}
    for blk in re.findall(r"\\begin\{samepage\}(.*?)\\end\{samepage\}", body, re.S):
        m = re.search(r"\\hypertarget\{([^}]*)\}\{\\blue\\exec\{(.*?)\}\}\}", blk)
        if not m or untex(m.group(2), nm) != m.group(1):
            raise Violation("tex-link", "%s: unreadable entry %s" % (nm, blk[:300]))
        if m.group(1) in res:
            raise Violation("tex-twice", "%s describes %s twice" % (nm, m.group(1)))
        d = {}
        for a, b in re.findall(r"^\\execout\{(.*?)\} & \\execout\{(.*)\} \\\\$", blk, re.M):
            a = untex(a.strip(), nm)
            if a == "requested":
                b = re.match(r"\\vtop\{(.*)\}$", b.strip()).group(1)
                d[a] = [untex(x.strip(), nm) for x in b.split("\\newline ")]
            else:
                d[a] = untex(b, nm).strip()
        res[m.group(1)] = d
    return names, res


def tables(item):
    tag, seed, prof, root = item
    r = core.rng("c32t", tag, seed)
    w = preworld.PWorld(seed, prof, tag="c32" + tag)
    d = os.path.join(root, "t%s%d" % (tag, seed))
    stats = {}

    def count(k, n=1):
        stats[k] = stats.get(k, 0) + n
    try:
        files = dict(w.files())
        for n in sorted(files):
            if n.endswith(".meta"):
                def sub(m):
                    x = r.random()
                    return "" if x < 0.05 else ("  long_name = text %s end\n" % " ".join(r.sample(ODD, r.randint(1, 2))) if x < 0.3 else m.group(0))
                files[n] = re.sub(r"  long_name = some text .*\n", sub, files[n])
        gone = None
        host = [n for n in sorted(files) if n.endswith(".meta") and not n.startswith("schemes/")]
        if r.random() < 0.25:                     # a requested variable which the host does not have
            req = sorted({a.std for s in w.schemes for e in s.entries.values() for a in e.args})
            cand = [v for v in w.vars if v.elem_of is None and v.std in req and not any(o.elem_of is v for o in w.vars)]
            if cand:
                v = r.choice(cand)
                n = next((n for n in host if re.search(r"standard_name = %s$" % v.std, files[n], re.M)), None)
                if n:
                    m = [m for m in re.finditer(r"^\[[^\]\n]*\]\n(?:  .*\n)*", files[n], re.M) if re.search(r"standard_name = %s$" % v.std, m.group(0), re.M)]
                    if len(m) == 1:
                        files[n] = files[n][:m[0].start()] + files[n][m[0].end():]
                        gone = v.std
        w._files = files
        w.write(d)
        p = prerun.prebuild(w, d)
        if p.rc != 0 and gone is None:
            raise Inconclusive("prebuild ends with %d (removed %s): %s" % (p.rc, gone, p.text()[-500:]))
        used = {x for s in w.suites for _, subs in s.groups for _, its in subs for x in its}
        # what the metadata says
        host_rows, req, pool = {}, {}, {}    # <req>: variables of the suites' schemes, with all their users in the pool
        defs = [(n[:-5], files[n]) for n in host] + [("ccpp_types", open(os.path.join(core.REPO, "src", "ccpp_types.meta")).read())]
        tdefs = w.typedefs()
        tdefs.update({"ccpp_kinds": {"ccpp_kinds": ""}})
        every = [(mod, tab, tt, loc, v) for mod, text in defs for tab, tt, sec, vs in read_meta(text) for loc, v in vs]
        full = {}

        def name(std):
            if std not in full:
                mod, tab, tt, loc, v = next(x for x in every if x[4]["standard_name"] == std)
                base, _, idx = loc.partition("(")
                if idx:
                    idx = "(" + ",".join(x.strip() if x.strip() == ":" or x.strip().isdigit() else name(x.strip()) for x in idx[:-1].split(",")) + ")"
                pre = tdefs[mod].get(tab, "")
                full[std] = (pre + "%" if pre else "") + base + idx
            return full[std]
        for mod, tab, tt, loc, v in every:
            c = cells(loc, v)
            host_rows[v["standard_name"]] = [c[1], c[2], c[3], str(c[5].count(":")), c[4], "" if c[6] == c[4] else c[6],
                                             "MODULE %s" % mod + (" TYPE %s" % tab if tt == "ddt" else ""), name(v["standard_name"])]
        schemes = [(n, tab, sec, vs) for n in sorted(files) if n.startswith("schemes/") and n.endswith(".meta")
                   for tab, tt, sec, vs in read_meta(files[n]) if tt == "scheme"]
        first = {}
        for n, tab, sec, vs in schemes:
            for loc, v in vs:
                pool.setdefault(v["standard_name"], []).append(sec)
                first.setdefault(v["standard_name"], []).append(cells(loc, v))
                if tab in used:
                    req[v["standard_name"]] = pool[v["standard_name"]]
        # the HTML table
        fn = os.path.join(d, "build", "CCPP_VARIABLES.html")
        if not os.path.exists(fn):
            raise Violation("no-html", "CCPP_VARIABLES.html is not written")
        rows = table(fn)
        if rows[0] != ["standard_name", "long_name", "units", "rank", "type", "kind", "source", "VF name"]:
            raise Violation("html-header", "columns %s" % rows[0])
        got = sorted(x[0] for x in rows[1:])
        if got != sorted(host_rows):
            raise Violation("html-rows", "the HTML table has rows too many %s, or too few %s" % (
                sorted(x for x in got if x not in host_rows or got.count(x) > 1)[:6], sorted(set(host_rows) - set(got))[:6]))
        for row in rows[1:]:
            for c, a, b in zip(rows[0], row, host_rows[row[0]]):
                if re.sub(r",\s+", ",", a) != re.sub(r",\s+", ",", b) and (c != "type" or a.lower() != b.lower()):
                    raise Violation("html-cell:" + c, "HTML table: %s of %s is %r, the metadata says %r" % (c, row[0], a, b))
        count("html_rows", len(rows) - 1)
        # the LaTeX table
        fn = os.path.join(d, "build", "CCPP_VARIABLES.tex")
        if not os.path.exists(fn):
            raise Violation("no-tex", "CCPP_VARIABLES.tex is not written")
        names, desc = tex(fn)
        own = {"ccpp_error_code", "ccpp_error_message", "ccpp_loop_counter", "ccpp_loop_extent", "ccpp_block_number", "ccpp_thread_number",
               "ccpp_thread_count", "ccpp_chunk_number", "ccpp_instance", "mpi_rank", "mpi_root", "mpi_communicator"}
        want = set(host_rows) | set(req)
        for k, lst in (("list", names), ("description", list(desc))):
            bad = [x for x in set(lst) ^ want if x not in own] + [x for x in set(lst) if lst.count(x) > 1]
            if bad:
                raise Violation("tex-" + k, "LaTeX %s: %s listed but neither provided nor requested, missing, or twice" % (k, sorted(bad)[:6]))
        for std, f in desc.items():
            if std not in want:
                continue
            if std in host_rows:
                h = host_rows[std]
                e = dict(long_name=[h[1]], units=[h[2]], rank=[h[3]], type=[h[4]], kind=[h[5]], source=[h[6]], local_name=[h[7]])
                count("tex_provided")
            else:
                h = first[std]
                e = dict(long_name=[c[2] for c in h], units=[c[3] for c in h], rank=[str(c[5].count(":")) for c in h], type=[c[4] for c in h],
                         kind=["" if c[6] == c[4] else c[6] for c in h], source=["MISSING"], local_name=["MISSING"])
                count("tex_missing")
            for k in e:
                g = re.sub(r",\s+", ",", f.get(k, "(none)"))
                if g.lower() not in [x.lower() for x in e[k]] if k == "type" else g not in [re.sub(r",\s+", ",", x) for x in e[k]]:
                    raise Violation("tex-cell:" + k, "LaTeX table: %s of %s is %r, the metadata says %r" % (k, std, f.get(k), e[k][:3]))
            if std in req:
                if sorted(f["requested"]) != sorted(req[std]):
                    raise Violation("tex-users", "LaTeX table: %s is requested by %s, according to the metadata by %s" % (std, sorted(f["requested"]), sorted(req[std])))
                count("users", len(req[std]))
            elif std not in own and f["requested"] != ["NOT REQUESTED"]:
                raise Violation("tex-users", "LaTeX table: %s is requested by %s, according to the metadata by no scheme of the suites" % (std, f["requested"]))
        # pages of all files
        for x in os.listdir(d):
            if x.endswith(".html"):
                os.remove(os.path.join(d, x))
        with open(os.path.join(d, "ccpp_prebuild_config.py"), "a") as f:
            f.write("METADATA_HTML_OUTPUT_DIR = '{build_dir}/pages'\n")
        os.makedirs(os.path.join(d, "pages"))
        tool(["-c", "ccpp_prebuild_config.py"], d, "config")
        want = {}
        for n, text in [(n, files[n]) for n in sorted(files) if n.endswith(".meta")] + [defs[-1]]:
            for tab, tt, sec, vs in read_meta(text):
                if vs:
                    want[sec + ".html"] = [cells(loc, v) for loc, v in vs]
        got = sorted(os.listdir(os.path.join(d, "pages")))
        if got != sorted(want):
            raise Violation("pages", "--config: pages %s for tables %s" % (got, sorted(want)))
        for n in want:
            page(os.path.join(d, "pages", n), want[n], "")
            count("config_pages")
        return ("ok", stats, "t" + hashlib.sha256(repr(sorted(files.items())).encode()).hexdigest()[:12])
    except Violation as v:
        return ("violation", v.key, v.msg + " [%s]" % d)
    except Inconclusive as e:
        return ("inconclusive", str(e), "")
    finally:
        if not os.environ.get("VF_KEEP"):
            shutil.rmtree(d, ignore_errors=True)


def one(item):
    return pages(item[1:]) if item[0] == "p" else tables(item[1:])


def main():
    chk = Check("C32", RULE, assumptions=ASSUME)
    root = core.scratch_root()
    q = core.QUICK
    n = 400 if q else 6000
    try:
        run_cases(chk, one, [x for i in range(n) for x in
                             [("t", "%s_s%d_" % (PROFS[i % 3][0], core.SEED), i, PROFS[i % 3][1], root),
                              ("p", "s%d_" % core.SEED, i, root, 6)]], 28 if q else 700)
    finally:
        core.rmtree(root)
    chk.finish(min_evals=60, require=["pages", "page_rows", "special", "html_rows", "tex_provided", "tex_missing", "users", "config_pages"])
