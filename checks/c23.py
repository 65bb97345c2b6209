"""Lines of generated files stay within the limit and keep their meaning."""
import os, json, re, hashlib, shutil
from vf import core, pysrv
from vf.core import Check, Violation, Inconclusive
from .c12 import run_cases

RULE = ("a case is a batch of files written by the real FortranWriter from generated statements, comments and character "
        "literals of all lengths; every line is measured, the continuation lines are joined as the Fortran standard says and "
        "the tokens compared with the statement; some batches are compiled, executed and the character values printed; "
        "non-trivial: statements which had to be broken and literals among them")
WRITE = os.path.join(core.VERIF, "vf", "ftnwrite.py")
LIMIT = 132


def ident(r, lo=1, hi=20):
    n = r.choice([r.randint(lo, hi), r.randint(lo, hi), r.randint(1, 63)])
    return "".join([r.choice("abcdefghxyzABC")] + [r.choice("abcdefxyz_019") for _ in range(n - 1)])


def literal(r, n=None):
    q = r.choice("'\"")
    n = r.choice([0, 3, 10, 30, 60, 100, 130, 200, 300]) if n is None else n
    n = r.randint(n // 2, n + 3)
    al = r.choice(["abcdef ", "abc ,.;:!&'\"()%=_/ ", "abcdefghij", "a b", "ab,", "x&", "don't ", "// !!  "])
    s = "".join(r.choice(al) for _ in range(n)).replace("\\", "")
    return q + s.replace(q, q + q) + q


def expr(r, depth=0):
    k = r.randrange(9 if depth < 3 else 5)
    if k < 3:
        return ident(r)
    if k == 3:
        return r.choice(["1", "12345", "1.0_kind_phys", "1.25E-3_kind_phys", ".true.", "3.0E+08_kp", "int_unassigned"])
    if k == 4:
        return literal(r, r.choice([0, 5, 20])) if r.random() < 0.5 else ident(r) + "%" + ident(r)
    if k == 5:
        return expr(r, depth + 1) + r.choice([" + ", "*", " - ", "/", " // ", "//", " .and. ", " == ", " /= ", "**", " >= "]) + expr(r, depth + 1)
    if k == 6:
        return "(" + expr(r, depth + 1) + ")"
    return ident(r) + "(" + r.choice([",", ", "]).join(expr(r, depth + 1) for _ in range(r.randint(0, 6))) + ")"


def statement(r):
    k = r.randrange(9)
    n = r.choice([1, 3, 8, 20, 40])
    sep = r.choice([",", ", ", ", "])
    if k == 0:
        return "call " + ident(r) + "(" + sep.join(r.choice([ident(r), ident(r) + "=" + expr(r), ident(r) + "(1:" + ident(r) + ")"]) for _ in range(n)) + ")"
    if k == 1:
        return "use " + ident(r) + ", only: " + sep.join(r.choice([ident(r), ident(r) + " => " + ident(r)]) for _ in range(n))
    if k == 2:
        return r.choice(["real(kind=kind_phys), ", "type(%s), " % ident(r), "character(len=512), "]) + r.choice(["", "pointer, ", "intent(inout), "]) + \
            "target :: " + sep.join(ident(r) + r.choice(["", "(:,:)", " = " + literal(r)]) for _ in range(n))
    if k == 3:
        return "if (" + r.choice([" .and. ", " .or. "]).join(expr(r) for _ in range(max(1, n // 3))) + ") then"
    if k == 4:
        return ident(r) + " = " + r.choice([" // ", "//"]).join(r.choice([literal(r), ident(r)]) for _ in range(max(1, n // 3)))
    if k == 5:
        return "errmsg = " + literal(r)
    if k == 6:
        return "write(errmsg, '(a,i0,a)') " + sep.join([literal(r, 40), ident(r), literal(r)])
    if k == 7:
        return "subroutine " + ident(r) + "(" + sep.join(ident(r) for _ in range(n)) + ")"
    return ident(r) + " = " + " + ".join(expr(r) for _ in range(n))


def comment(r):
    n = r.choice([1, 5, 20, 60])
    words = ["".join(r.choice("abcdefghi") for _ in range(r.choice([1, 4, 7, 9, 14]))) for _ in range(n)]
    if r.random() < 0.4:
        words = [r.choice([w, w, "don't", '"quoted', "a,b", "x!y", "&", "!", "http://" + "x" * 40, "(see", "y" * r.choice([60, 140, 300])]) for w in words]
    return " ".join(words)


def split_comment(line, quote):
    """-> code, rest (comment) and the open quote at the end of the code"""
    i = 0
    while i < len(line):
        c = line[i]
        if quote:
            if c == quote:
                quote = None
        elif c in "'\"":
            quote = c
        elif c == "!":
            return line[:i], line[i:], None
        i += 1
    return line, "", quote


def join(lines):
    """the statements of free-form lines: list of (statement, comment texts)"""
    out, cur, quote, com = [], None, None, []
    for ln in lines:
        if cur is None:
            code, c, quote = split_comment(ln, None)
        else:
            s = ln.lstrip()
            if not quote and s.startswith("!"):
                com.append(s)
                continue
            if not s:
                continue
            if s.startswith("&"):
                glue, rest = "", s[1:]
            else:
                if quote:
                    return None, "a character literal goes on in a line without a leading '&': " + ln
                glue, rest = " ", s
            code, c, quote = split_comment(rest, quote)
            code = cur + glue + code
            cur = None
        if c:
            com.append(c)
        t = code.rstrip() if not c else code.rstrip()
        if t.endswith("&"):
            # in a character context the '&' must be the last character
            cur = t[:-1]
            continue
        if quote:
            return None, "a character literal ends with its line: " + code[-400:]
        out.append((code.strip(), com))
        com, cur, quote = [], None, None
    if cur is not None:
        return None, "the file ends in a continued statement"
    return out, None


TOK = re.compile(r"'(?:[^']|'')*'|\"(?:[^\"]|\"\")*\"|[A-Za-z0-9_]+|\S")


def tokens(s):
    return TOK.findall(s)


def bare(s):
    return re.sub(r"[!\s]", "", s)


def program(r):
    """a module with a routine printing its character values -> statements, the values"""
    st, vals = [["write", "subroutine show()", 1], ["write", "character(len=2000) :: txt", 2], ["write", "integer :: n", 2]], []
    for i in range(r.randint(2, 5)):
        ls = [literal(r) for _ in range(r.randint(1, 4))]
        st.append(["write", "txt = " + r.choice([" // ", "//"]).join(ls), r.randint(1, 6)])
        vals.append("".join(x[1:-1].replace(x[0] * 2, x[0]) for x in ls))
        if r.random() < 0.5:
            st.append(["write", "! " + comment(r), r.randint(1, 6)])
        st.append(["write", "write(*, '(i0,1x,3a)') len_trim(txt), '<', trim(txt), '>'", 2])
    st.append(["write", "end subroutine show", 1])
    return st, vals


def case(item):
    tag, seed, root, nfile, comp = item
    r = core.rng("c23", tag, seed)
    d = os.path.join(root, "w%s%d" % (tag, seed))
    os.makedirs(d, exist_ok=True)
    stats = {}

    def count(k, n=1):
        stats[k] = stats.get(k, 0) + n
    try:
        jobs, vals = [], None
        for k in range(nfile):
            stmts = []
            if comp and not k:
                stmts, vals = program(r)
                opts = {}
            else:
                for _ in range(r.randint(4, 14)):
                    lv = r.choice([0, 1, 1, 2, 3, 4, 6, 10])
                    x = r.randrange(10)
                    if x < 6:
                        stmts.append(["write", statement(r), lv])
                    elif x == 6:
                        stmts.append(["write", r.choice(["! ", "!! ", "!> ", "!"]) + comment(r), lv])
                    elif x == 7:
                        stmts.append(["comment", comment(r), lv])
                    elif x == 8:
                        stmts.append(["write", statement(r) + "  ! " + comment(r), lv])
                    else:
                        stmts.append(["write", r.choice(["", [statement(r), statement(r)], statement(r) + "\n" + statement(r) + "\n"]), lv])
                opts = {}
                if r.random() < 0.2:
                    opts = r.choice([dict(line_fill=80, line_max=120), dict(line_fill=60), dict(indent=2, continue_indent=4), dict(line_max=110)])
            jobs.append(dict(file=os.path.join(d, "f%d.F90" % k), desc=r.choice(["test", "caps for x", "two\nlines"]), module="mod_%d" % k, opts=opts, stmts=stmts, pre=[["public :: show", 1]] if comp and not k else []))
        with open(os.path.join(d, "jobs.json"), "w") as f:
            json.dump(jobs, f)
        q = pysrv.run([WRITE, os.path.join(d, "jobs.json")], d, 60)
        docs = [json.loads(x) for x in q.out.splitlines() if x.startswith("{")]
        if len(docs) != len(jobs):
            raise Violation("crash", "the writer ends with %s" % q.out.strip()[-300:])
        broken = lits = 0
        for job, doc in zip(jobs, docs):
            if "error" in doc:
                raise Violation("error:" + doc["error"].split(":")[0], "the writer fails: %s\n%s" % (doc["error"][:300], json.dumps(job["stmts"])[:1500]))
            with open(job["file"]) as f:
                lines = f.read().split("\n")
            show = "\n" + "\n".join(lines)[:2500]
            lim = LIMIT
            for n, ln in enumerate(lines):
                if len(ln) > lim:
                    raise Violation("long", "line %d has %d characters:\n%s" % (n + 1, len(ln), ln))
            got, err = join(lines)
            if err:
                raise Violation("join:" + err[:40], err + show)
            exp = []
            for kind, text, lv in job["stmts"]:
                for t in ([text] if isinstance(text, str) else text):
                    for s in ([("! " + t).replace("\n", "\n! ")] if kind == "comment" else [t]):
                        for u in s.split("\n"):
                            c, com, _ = split_comment(u, None)
                            exp.append((c.strip(), com))
            # skip the module boilerplate
            code = [g for g in got if g[0]]
            k = [i for i, g in enumerate(code) if g[0].lower() == "contains"]
            if not k or not code[-1][0].startswith("end module"):
                raise Violation("frame", "module frame missing" + show)
            head = " ".join(g[0] for g in code[:k[0]])
            if tokens(head) != tokens(" ".join(["module %s implicit none private" % job["module"]] + [x[0] for x in job["pre"]])):
                raise Violation("head", "module header is read as %r" % head + show)
            code = code[k[0] + 1:-1]
            want = [e for e in exp if e[0]]
            for i in range(max(len(code), len(want))):
                a = want[i][0] if i < len(want) else ""
                b = code[i][0] if i < len(code) else ""
                if tokens(a) != tokens(b):
                    ta, tb = tokens(a), tokens(b)
                    j = [x for x in range(max(len(ta), len(tb))) if ta[x:x + 1] != tb[x:x + 1]][0]
                    what = "literal" if "".join(ta[j:j + 1])[:1] in ("'", '"') else "code"
                    raise Violation("meaning:" + what, "the statement\n%s\nis written so that a compiler reads\n%s\n(first difference: %r / %r)" % (
                        a[:900], b[:900], ta[j:j + 1], tb[j:j + 1]))
                lits += any(x[0] in "'\"" and len(x) > 60 for x in tokens(a))
            start = [i for i, ln in enumerate(lines) if ln.strip().lower() == "contains"][0]
            allc = []
            quote = None
            for ln in lines[start + 1:]:
                cont = quote
                s = ln.lstrip() if cont else ln
                c, com, quote = split_comment(s[1:] if cont and s.startswith("&") else s, cont)
                if quote and not c.rstrip().endswith("&"):
                    quote = None
                allc.append(com)
            if bare("".join(allc)) != bare("".join(e[1] for e in exp)):
                a, b = bare("".join(e[1] for e in exp)), bare("".join(allc))
                j = [x for x in range(max(len(a), len(b))) if a[x:x + 1] != b[x:x + 1]][0]
                raise Violation("comment", "comment text changes at %r / %r%s" % (a[j:j + 60], b[j:j + 60], show))
            broken += sum(1 for ln in lines if ln.rstrip().endswith("&"))
            count("statements", len(want))
            count("comments", sum(1 for e in exp if e[1]))
            count("files")
        count("continued_lines", broken)
        count("long_literals", lits)
        if comp:
            with open(os.path.join(d, "main.F90"), "w") as f:
                f.write("program main\n use mod_0, only: show\n call show()\nend program main\n")
            p = core.run(["gfortran", "-O0", "-fno-backslash", "-o", "prog", "f0.F90", "main.F90"], d, 60)
            if p.rc:
                raise Violation("compile", "gfortran rejects the file: %s\n%s" % (p.text()[:900], open(jobs[0]["file"]).read()[:2500]))
            p = core.run(["./prog"], d, 20)
            want = "".join("%d <%s>\n" % (len(v.rstrip()), v.rstrip()) for v in vals)
            if p.out != want:
                raise Violation("executed", "character values differ: expected\n%s\ngot\n%s" % (want[:900], p.out[:900]))
            count("executed", len(vals))
        return ("ok", stats, hashlib.sha256(json.dumps(jobs).encode()).hexdigest()[:12] if broken and lits else None)
    except Violation as v:
        return ("violation", v.key, v.msg)
    except Inconclusive as e:
        return ("inconclusive", str(e), "")
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    chk = Check("C23", RULE, assumptions=["the limit is the 132 characters of the Fortran standard"])
    root = core.scratch_root()
    q = core.QUICK
    try:
        run_cases(chk, case, [("s%d_" % core.SEED, i, root, 12, i % 6 == 0) for i in range(600 if q else 20000)], 30 if q else 600)
    finally:
        core.rmtree(root)
    chk.finish(min_evals=80, require=["files", "statements", "comments", "continued_lines", "long_literals", "executed"])
