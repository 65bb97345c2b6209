"""Preprocessor conditionals are resolved as cpp would."""
import os, json, hashlib, re, shutil
from vf import core, pysrv, caprun
from vf.core import Check, Violation, Inconclusive
from .c12 import run_cases
from .c15 import base_files
from .c09 import INTERNAL

RULE = ("a case is a set of generated Fortran files with nested preprocessor conditionals, definitions and undefinitions read with one set of "
        "predefined macros; the statements the real reader keeps are compared with those the system's cpp keeps; files with unbalanced "
        "conditionals must be rejected; non-trivial: at least one conditional with both kept and dropped lines")
READ = os.path.join(core.VERIF, "vf", "ftnread.py")
JUNK = ["don't & \"unbalanced", "end module not_this", "subroutine broken(a,", "type :: nothing", "& & &", "integer, intent(in :: x",
        "use", "contains", "end type", "'", "character(len=3) :: c = 'it'' &", "end subroutine", "module other"]


class Gen:
    """list of lines: ('d', directive text) or ('m', number)"""

    def __init__(self, r, defs=True, size=14):
        self.r, self.defs = r, defs
        self.D = ["CCPP", "STUBS", "NOT_HERE", "A_b1", "GFSphys"]           # defined, perhaps empty
        self.V = ["WITH_X", "DEBUGLEV", "_OPTX", "MPI", "notdef"]           # defined with a value, or undefined
        self.K = ["NLEV", "VERSION", "dim2"]                                 # always integers
        self.pre = {}
        for n in self.D + self.V:
            if r.random() < 0.4:
                self.pre[n] = None if r.random() < 0.5 else str(r.choice([0, 1, 2, 10]))
        for n in self.K:
            self.pre[n] = str(r.choice([0, 1, 2, 3, 10, 64]))
        self.n = 0
        self.out = []
        self.size = size
        self.block(0, r.randint(1, 6))

    def mark(self):
        for _ in range(self.r.randint(1, 2)):
            self.n += 1
            self.out.append(("m", self.n))

    def directive(self, word, rest=""):
        r = self.r
        sp = r.choice(["", "", "", " ", "  "])
        tail = r.choice(["", "", "", "", " ", " /* note */"])
        if word in ("endif", "else") and r.random() < 0.2:
            tail = " /* %s */" % r.choice(self.D)
        gap = " " if rest else ""
        if word in ("if", "elif") and rest[:1] in "(!" and r.random() < 0.5:
            gap = ""
        elif rest and r.random() < 0.15:
            gap = "  "
        self.out.append(("d", "#%s%s%s%s%s" % (sp, word, gap, rest, tail)))

    def atom(self):
        r = self.r
        k = r.random()
        if k < 0.35:
            n = r.choice(self.D + self.V + self.K)
            return r.choice(["defined(%s)", "defined (%s)", "defined %s", "defined( %s )"]) % n
        if k < 0.5:
            return r.choice(self.V + self.K)
        if k < 0.6:
            return r.choice(["0", "1", "2"])
        a = r.choice(self.K)
        b = r.choice(self.K + ["0", "1", "2", "3", "10", "64"])
        op = r.choice(["==", "!=", "<", ">", "<=", ">="])
        return r.choice(["%s %s %s", "%s%s%s"]) % ((a, op, b) if r.random() < 0.8 else (b, op, a))

    def expr(self, depth=0):
        r = self.r
        k = r.random()
        if depth > 1 or k < 0.4:
            a = self.atom()
            if r.random() < 0.25:
                if re.search("[=<>]", a):
                    a = "!(%s)" % a
                else:
                    a = r.choice(["!", "! "]) + a
            return a
        if k < 0.5:
            return r.choice(["(%s)", "( %s )", "!(%s)", "! ( %s )"]) % self.expr(depth + 1)
        n = r.choice([2, 2, 3, 4] if depth == 0 else [2, 2, 3])
        parts = [self.expr(depth + 1) for _ in range(n)]
        out = parts[0]
        mixed = r.random() < 0.5
        op = r.choice(["&&", "||"])
        for p in parts[1:]:
            out += r.choice([" %s ", " %s ", "%s"]) % op + p
            if mixed:
                op = r.choice(["&&", "||"])
        return out if r.random() < 0.5 and depth == 0 else "(%s)" % out

    def block(self, depth, n):
        r = self.r
        for _ in range(n):
            k = r.random()
            if k < 0.35 or depth > 3 or len(self.out) > 60:
                self.mark()
            elif k < 0.5 and self.defs:
                self.define()
            else:
                self.cond(depth)
        if r.random() < 0.8:
            self.mark()

    def define(self):
        r = self.r
        k = r.random()
        if k < 0.35:
            self.directive("undef", r.choice(self.D + self.V))
        elif k < 0.55:
            n = r.choice(self.D)
            self.out.append(("d", "#define " + n + r.choice(["", "", " ", " 1", " something"])))
        elif k < 0.8:
            self.out.append(("d", "#define %s %d" % (r.choice(self.V), r.choice([0, 1, 2, 5]))))
        elif k < 0.9:
            self.out.append(("d", "#define %s %s" % (r.choice(self.V), r.choice(self.K))))
        else:
            n = r.choice(self.K)
            self.out.append(("d", "#undef " + n))
            self.out.append(("d", "#define %s %d" % (n, r.choice([0, 1, 2, 3, 10]))))

    def cond(self, depth):
        r = self.r
        k = r.random()
        if k < 0.25:
            self.directive("ifdef", r.choice(self.D + self.V))
        elif k < 0.45:
            self.directive("ifndef", r.choice(self.D + self.V))
        else:
            self.directive("if", self.expr())
        self.block(depth + 1, r.choice([0, 1, 1, 2, 3]))
        for _ in range(r.choice([0, 0, 0, 1, 1, 2, 3])):
            self.directive("elif", self.expr())
            self.block(depth + 1, r.choice([0, 1, 1, 2]))
        if r.random() < 0.6:
            self.directive("else")
            self.block(depth + 1, r.choice([0, 1, 1, 2]))
        self.directive("endif")

    def flags(self):
        return ["-D" + k + ("" if v is None else "=" + v) for k, v in self.pre.items()]

    def option(self):
        r = self.r
        items = [k + ("" if v is None else "=" + v) for k, v in self.pre.items()]
        k = r.random()
        if k < 0.4:
            return ",".join(items)
        if k < 0.7:
            return ",".join("-D" + x if r.random() < 0.7 else x for x in items)
        return " ".join("-D" + x for x in items)


def cpp(lines, flags, d, name):
    p = os.path.join(d, name)
    with open(p, "w") as f:
        for k, v in lines:
            f.write((v if k == "d" else "m_%d" % v) + "\n")
    q = core.run(["cpp", "-traditional-cpp", "-undef", "-P", "-w"] + flags + [p], d, timeout=60)
    os.unlink(p)
    return q.rc, [int(x[2:]) for x in q.out.split() if x.startswith("m_")], q.err


def unbalance(r, lines):
    lines = list(lines)
    idx = [i for i, l in enumerate(lines) if l[0] == "d" and re.match(r"#\s*endif", l[1])]
    els = [i for i, l in enumerate(lines) if l[0] == "d" and re.match(r"#\s*else", l[1])]
    k = r.choice(["noend", "extraend", "extraelse", "twoelse", "elifafter", "extraelif", "noif"])
    if k == "noend" and idx:
        del lines[r.choice(idx)]
    elif k == "noif" and idx:
        ifs = [i for i, l in enumerate(lines) if l[0] == "d" and re.match(r"#\s*if", l[1])]
        del lines[r.choice(ifs)]
    elif k == "extraend":
        lines.insert(r.choice([0, len(lines)]), ("d", "#endif"))
    elif k == "extraelse":
        lines.insert(r.choice([0, len(lines)]), ("d", "#else"))
    elif k == "extraelif":
        lines.insert(r.choice([0, len(lines)]), ("d", "#elif defined(CCPP)"))
    elif k == "twoelse" and els:
        lines.insert(r.choice(els) + 1, ("d", "#else"))
    elif k == "elifafter" and els:
        lines.insert(r.choice(els) + 1, ("d", "#elif 1"))
    else:
        k = "extraend"
        lines.append(("d", "#endif"))
    return k, lines


def text(r, base, lines, active, mode):
    """the Fortran file the tool reads"""
    body = []
    for k, v in lines:
        if k == "d":
            body.append(v)
        elif v in active or r.random() < 0.4:
            body.append({"module": "  integer :: m_%d" % v, "args": "    m_%d, &" % v, "cargs": "    m_%d, &  ! don't" % v}[mode])
        elif mode == "module":
            body.append(r.choice(JUNK))
        else:
            body.append(r.choice(JUNK + ["    m_%d, &" % v] * 6))
    if mode == "module":
        return "\n".join(["module " + base, "  implicit none", "  !> \\section arg_table_" + base, "  !! \\htmlinclude %s.html" % base] +
                         body + ["contains", "end module " + base]) + "\n"
    decl = []
    for k, v in lines:
        decl.append(v if k == "d" else "    integer, intent(in) :: m_%d" % v)
    return "\n".join(["module " + base, "  implicit none", "contains", "  !> \\section arg_table_%s_run" % base,
                      "  !! \\htmlinclude %s_run.html" % base, "  subroutine %s_run( &" % base] + body +
                     ["    errmsg, errflg)"] + decl +
                     ["    character(len=512), intent(out) :: errmsg", "    integer, intent(out) :: errflg", "    errmsg = ''", "    errflg = 0",
                      "  end subroutine %s_run" % base, "end module " + base]) + "\n"


def meta(base, active):
    out = ["[ccpp-table-properties]", "  name = " + base, "  type = module", "[ccpp-arg-table]", "  name = " + base, "  type = module"]
    for n in active:
        out += ["[ m_%d ]" % n, "  standard_name = std_%s_m_%d" % (base, n), "  units = 1", "  dimensions = ()", "  type = integer"]
    return "\n".join(out) + "\n"


def case(item):
    tag, seed, root, nfiles, tool = item
    d = os.path.join(root, "%s%d" % (tag, seed))
    os.makedirs(d)
    r = core.rng("c22", tag, seed)
    stats = {}

    def count(k, n=1):
        stats[k] = stats.get(k, 0) + n
    try:
        g0 = Gen(r)
        opt = g0.option()
        flags = g0.flags()
        batch = []
        both = False
        for i in range(nfiles):
            mode = r.choice(["module", "module", "args", "cargs"])
            g = Gen(r, defs=mode == "module")
            base = "f%d_%d" % (seed, i)
            lines, bad = g.out, None
            if mode == "module" and r.random() < 0.2:
                bad, lines = unbalance(r, lines)
            rc, active, err = cpp(lines, flags, d, base + ".cpp")
            if bad is None and rc:
                raise Inconclusive("cpp rejects a generated file: " + err[:300])
            if bad and not rc:
                bad = None                      # e.g. the else of an outer conditional took the place
            t = text(r, base, lines, active, mode)
            p = os.path.join(d, base + ".F90")
            with open(p, "w") as f:
                f.write(t)
            batch.append((p, mode, bad, active, t, g.n))
            both = both or (0 < len(active) < g.n)
        q = pysrv.run([READ, json.dumps([[b[0], [], opt] for b in batch])], d, 60)
        docs = [json.loads(x) for x in q.out.splitlines() if x.startswith("{")]
        for k, (p, mode, bad, active, t, n) in enumerate(batch):
            show = "\nmacros %s\n%s" % (opt, t[:1500])
            if k >= len(docs):
                raise Violation("crash" + (":unbalanced" if bad else ""), "the reader ends with %s%s" % (q.out.strip()[-300:], show))
            if bad:
                count("unbalanced:" + bad)
                if "error" not in docs[k]:
                    raise Violation("unbalanced:" + bad, "unbalanced conditionals (%s) are accepted%s" % (bad, show))
                continue
            if "error" in docs[k]:
                raise Violation("error:" + re.sub(r"\d+|'[^']*'|/\S+", "#", docs[k]["error"])[:60], "a valid file is rejected: %s%s" % (
                    docs[k]["error"][:300], show))
            vs = [v[0] for tab in docs[k]["tables"] for v in tab[2] if v[0].startswith("m_")]
            if vs != ["m_%d" % a for a in active]:
                a, b = set(vs), set("m_%d" % x for x in active)
                raise Violation("active:" + mode, "lines kept differ from cpp: kept by the tool only: %s, by cpp only: %s%s" % (
                    sorted(a - b)[:9], sorted(b - a)[:9], show))
            count("files:" + mode)
            count("lines_kept", len(active))
            count("lines_dropped", n - len(active))
        good = [b for b in batch if b[1] == "module" and not b[2]]
        if tool and good:
            base_files(d)
            b = r.choice(good)
            base = os.path.basename(b[0])[:-4]
            act = list(b[3])
            missing = [x for x in range(1, b[5] + 1) if x not in act]
            wrong = missing and r.random() < 0.5
            if wrong:
                act.insert(r.randint(0, len(act)), r.choice(missing))
            with open(os.path.join(d, base + ".meta"), "w") as f:
                f.write(meta(base, act))
            q = pysrv.run([caprun.CAPGEN, "--host-files", "tiny_data.meta,tiny_host.meta,%s.meta" % base, "--scheme-files",
                           "tiny_scheme.meta", "--suites", "suite_tiny.xml", "--host-name", "tiny_host", "--output-root",
                           os.path.join(d, "out"), "--preproc-directives=" + opt], d, 60)
            if wrong:
                if q.rc == 0:
                    raise Violation("capgen:missed", "capgen accepts metadata for a variable which is not in the preprocessed source (macros %s)\n%s" % (
                        opt, b[4][:1500]))
                if INTERNAL.search(q.text()):
                    raise Violation("capgen:internal", "capgen ends with an internal error: " + caprun.last_error(q))
            elif q.rc:
                raise Violation("capgen:accept", "capgen rejects metadata which agrees with the preprocessed source: %s (macros %s)\n%s" % (
                    caprun.last_error(q), opt, b[4][:1500]))
            count("capgen_wrong" if wrong else "capgen_agree")
        return ("ok", stats, hashlib.sha256("".join(b[4] for b in batch).encode()).hexdigest()[:12] if both else None)
    except Violation as v:
        return ("violation", v.key, v.msg)
    except Inconclusive as e:
        return ("inconclusive", str(e), "")
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    chk = Check("C22", RULE, assumptions=[
        "arithmetic in conditions, function-like macros and directives split over lines are not generated (the reader rejects or does not know them)",
        "comparisons with an undefined macro are only covered by the recorded finding (the tool's documentation defines them as false)"])
    root = core.scratch_root()
    q = core.QUICK
    try:
        run_cases(chk, case, [("s%d_" % core.SEED, i, root, 8, i % 3 == 0) for i in range(700 if q else 20000)], 40 if q else 800)
        undefined_compare(chk, root)
    finally:
        core.rmtree(root)
    chk.finish(min_evals=60, require=["files:module", "files:args", "files:cargs", "lines_kept", "lines_dropped", "unbalanced:noend",
                                      "unbalanced:extraend", "unbalanced:twoelse", "capgen_agree", "capgen_wrong"])


def undefined_compare(chk, root):
    """the documented deviation: an undefined macro compares unequal to 0"""
    lines = [("m", 1), ("d", "#if UNKNOWN_MACRO == 0"), ("m", 2), ("d", "#endif")]
    p = os.path.join(root, "undef_cmp.F90")
    with open(p, "w") as f:
        f.write(text(core.rng("c22u"), "undef_cmp", lines, [1, 2], "module"))
    q = pysrv.run([READ, json.dumps([[p, [], ""]])], root, 60)
    docs = [json.loads(x) for x in q.out.splitlines() if x.startswith("{")]
    chk.count("undefined_compare")
    vs = [v[0] for tab in docs[0].get("tables", []) for v in tab[2]] if docs else None
    if vs != ["m_1", "m_2"]:
        chk.violation("undefined-compare", "'#if UNKNOWN_MACRO == 0' with an undefined macro is false (cpp: true)", dict(kind="probe"))
