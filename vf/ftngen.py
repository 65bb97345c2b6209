"""Generated Fortran modules with CCPP argument tables, written in varied source
styles, together with what the Fortran standard says they declare and the
metadata that agrees with them.

A statement is a list of tokens (names, operators, string literals); the layout
engine decides about case, spacing, continuation, comments and statement
separators, which never change what is declared."""
import re

TYPES = ["real", "real", "real", "integer", "integer", "logical", "character", "ddt", "complex"]
STRS = ["plain", "a!b", "it''s", "semi;colon", "and & more", "x = (1, 2", ") :: y", "subroutine foo(bar)", "end module",
        "contains", "!> arg_table_zzz", "real, intent(in) :: q", "say \"\"hi\"\"", "type(foo)", "&", "", "  ", "a,b,c"]
COMMENTS = ["! comment", "!", "! don't stop", "! a \"quoted", "! x & y", "! end subroutine; end module", "!< doxygen",
            "! real, intent(in) :: ghost(:)", "! contains", "! a = b ; c = (d", "!$omp parallel", "!---------------",
            "! type(foo) :: x", "! &", "!don't", "!\"half", "!a & b", "!&", "!;x = 1", "!!twice don't", "!\ttab 'q"]
IDENT = re.compile(r"[A-Za-z0-9_.]$")
IDENT0 = re.compile(r"[A-Za-z0-9_.]")

FEATS = ["upper", "mixed", "loose", "tight", "cont", "contamp", "contcomment", "contblank", "midtoken", "strcont", "semi",
         "trail", "between", "indent", "entdims", "attrorder", "inout_sp", "oldchar", "posarg", "multi", "init", "explicit",
         "lobound", "expr", "noattrcolon", "clutter", "innersub", "iface", "func", "oddnames", "endplain", "endspace", "use",
         "kindform", "classarg", "typedefs", "tb", "cpp", "argcont", "extravars", "docs", "markers", "prefix", "tabs", "blockwords",
         "charkind", "deferlen", "doubleprec"]


def is_id(t):
    return bool(re.match(r"[A-Za-z]\w*$", t))


class Layout:
    def __init__(self, r, f):
        self.r, self.f = r, f
        self.lines = []
        self.pending = None

    def name(self, t):
        if t[:1] in "'\"":
            return t
        if "upper" in self.f and "mixed" not in self.f:
            return t.upper()
        if "mixed" in self.f:
            k = self.r.random()
            return t.upper() if k < 0.3 else t.capitalize() if k < 0.5 else t.lower() if k < 0.8 else \
                "".join(c.upper() if self.r.random() < 0.5 else c for c in t)
        return t

    def glue(self, a, b):
        """space between two tokens"""
        need = IDENT.search(a) and IDENT0.match(b) and a[:1] not in "'\""
        if a[:1] in "'\"" and b[:1] in "'\"":
            need = True
        if a in ("%", "(/", "=>", "::", "**", "/)") or b in ("%",):
            if not ("loose" in self.f and self.r.random() < 0.3):
                return "" if ("tight" in self.f or a == "%" or b == "%") else " "
        if "loose" in self.f and self.r.random() < 0.5:
            return " " * self.r.randint(1, 3) + ("\t" if "tabs" in self.f and self.r.random() < 0.2 else "")
        if need:
            return " "
        if "tight" in self.f:
            return ""
        if a in (",", "::", "=", "=>") or b in ("::", "=", "=>"):
            return " "
        return ""

    def comment(self):
        return self.r.choice(COMMENTS)

    def stmt(self, *toks, nobreak=False, own=False, indent=None, keepcase=False):
        r, f = self.r, self.f
        ts = [t if keepcase else self.name(t) for t in toks]
        n = indent if indent is not None else (r.choice([0, 2, 4, 7]) if "indent" in f else 2)
        cur = " " * n
        out = []
        cont = "cont" in f and not nobreak
        prev = None
        for t in ts:
            g = self.glue(prev, t) if prev is not None else ""
            piece = g + t
            brk = cont and prev is not None and (r.random() < 0.15 or len(cur) > 90)
            if not brk and len(cur) + len(piece) > 118 and prev is not None:
                brk = True
            if brk:
                cur += " &"
                if "contcomment" in f and r.random() < 0.4:
                    cur += " " + self.comment()
                out.append(cur)
                self.midlines(out)
                cur = " " * (n + r.choice([2, 5]))
                if "contamp" in f and r.random() < 0.5:
                    cur += "& "
                piece = t
            elif cont and "midtoken" in f and is_id(t) and len(t) > 3 and r.random() < 0.06:
                k = r.randint(1, len(t) - 1)
                out.append(cur + g + t[:k] + "&")
                self.midlines(out)
                cur = " " * n + "&"
                piece = t[k:]
            elif cont and "strcont" in f and t[:1] in "'\"" and len(t) > 4 and r.random() < 0.3:
                k = r.randint(2, len(t) - 2)
                if t[k - 1] != t[0] and t[k] != t[0]:
                    out.append(cur + g + t[:k] + "&")
                    cur = " " * n + "&"
                    piece = t[k:]
            cur += piece
            prev = t
        if "trail" in f and not nobreak and r.random() < 0.25:
            cur += "  " + self.comment()
            own_end = True
        else:
            own_end = False
        if "semi" in f and not own and not nobreak and self.lines and self.joinable and not out and r.random() < 0.25 \
                and len(self.lines[-1]) + len(cur) < 125:
            self.lines[-1] += r.choice([";", "; ", " ; "]) + cur.strip()
        else:
            self.lines.extend(out + [cur])
        self.joinable = not own and not own_end and not nobreak
        if "between" in f and r.random() < 0.15:
            self.lines.append(" " * r.choice([0, 2, 6]) + self.comment())
            self.joinable = False
        elif "between" in f and r.random() < 0.1:
            self.lines.append("")
            self.joinable = False

    joinable = False

    def midlines(self, out):
        if "contblank" in self.f and self.r.random() < 0.3:
            out.append(self.r.choice(["", "   ", "      " + self.comment(), "! full line"]))

    def raw(self, line):
        self.lines.append(line)
        self.joinable = False


class Fixed(Layout):
    """fixed source form: statements in columns 7 to 72"""

    def comment_line(self):
        return self.r.choice(["C", "c", "*", "!", "C ", "!  "]) + self.comment()[1:]

    def stmt(self, *toks, nobreak=False, own=False, indent=None, keepcase=False):
        r, f = self.r, self.f
        ts = [t if keepcase else self.name(t) for t in toks]
        start = " " * (6 + (r.choice([0, 0, 2, 5]) if "indent" in f else 0))
        cont = "cont" in f and not nobreak
        mark = lambda: r.choice("&&&$+>*1x:@#!") if "contamp" in f else "&"
        cur, out, prev = start, [], None

        def brk(cur):
            if "contcomment" in f and r.random() < 0.4 and len(cur) < 66:
                cur += " " + self.comment()
            out.append(cur)
            if "contblank" in f and r.random() < 0.3:
                out.append(r.choice(["", "   ", "         " + self.comment(), self.comment_line()]))
            return "     " + mark() + " " * (r.choice([0, 1, 3]) if "indent" in f else 1)
        for t in ts:
            g = self.glue(prev, t).replace("\t", " ") if prev is not None else ""
            if cont and prev is not None and r.random() < 0.15:
                cur, g = brk(cur), ""
            while len(cur) + len(g + t) > 72:
                long = len(t) > 50
                room = 72 - len(cur) - len(g)
                ok = room > 0 and (is_id(t) or t[:1] in "'\"") and room < len(t)
                if ok and t[:1] in "'\"":
                    ok = room > 1 and t[room - 1] not in "'\" " and t[room] not in "'\" "
                if ok and (long or "midtoken" in f and r.random() < 0.5):
                    out.append(cur + g + t[:room])        # the statement goes on in column 7 of the next line
                    cur, g, t = "     " + mark(), "", t[room:]
                else:
                    cur, g = brk(cur), ""
            cur += g + t
            prev = t
        own_end = "trail" in f and not nobreak and r.random() < 0.25 and len(cur) < 60
        if own_end:
            cur += "  " + self.comment()
        if "semi" in f and not own and not nobreak and self.lines and self.joinable and not out and r.random() < 0.25 \
                and len(self.lines[-1]) + len(cur.strip()) < 69:
            self.lines[-1] += r.choice([";", "; ", " ; "]) + cur.strip()
        else:
            if "seqnum" in f and not own_end and len(out) == 0 and r.random() < 0.1:
                cur = cur.ljust(72) + "SEQ%05d" % len(self.lines)
                own_end = True
            self.lines.extend(out + [cur])
        self.joinable = not own and not own_end and not nobreak
        if "between" in f and r.random() < 0.25:
            self.lines.append(r.choice(["", self.comment_line(), " " * 8 + self.comment(), " " + self.comment()]))
            self.joinable = False

    def raw(self, line):
        if line[:1] not in ("!", "#"):
            line = "      " + line
        Layout.raw(self, line)


class V:
    """one declared entity: what the standard says about it"""
    ddt = shown = None

    def __init__(self, **kw):
        self.__dict__.update(kw)

    def clone(self):
        return V(**dict(self.__dict__, dims=list(self.dims)))


class Source:
    """A generated module."""

    def __init__(self, r, feats, base, kind="scheme", nproc=(1, 3), fixed=False):
        self.r, self.f, self.base = r, set(feats), base
        self.fixed = fixed
        self.kind = kind                      # scheme, module, host, program
        self.n = 0
        self.ddts = []
        self.mvars = None
        self.procs = []
        if r.random() < (0.4 if kind == "scheme" else 0.5):
            for _ in range(r.randint(1, 2)):
                self.ddts.append((self.new("ty"), [self.var("ddt", i) for i in range(r.randint(1, 5))]))
        if kind != "scheme":
            self.mvars = [self.var("module", i) for i in range(r.randint(1, 6))]
        else:
            phases = r.sample(["run", "init", "finalize", "timestep_init", "timestep_finalize", "register"], r.randint(*nproc))
            for ph in phases:
                args = [self.var("scheme", i) for i in range(r.randint(0, 8))]
                args += [V(name="errmsg", type="character", kind="len=" + r.choice(["*", "512"]), dims=[], intent="out",
                           optional=False, attrs=[], std="ccpp_error_message", units="none", init=None),
                         V(name="errflg", type="integer", kind=None, dims=[], intent="out", optional=False, attrs=[],
                           std="ccpp_error_code", units="1", init=None)]
                if r.random() < 0.3:
                    r.shuffle(args)
                used = [x for x in ("ni", "nk", "ns") if any(x in self.toks(d) for a in args for d in a.dims)]
                args = [V(name=x, type="integer", kind=None, dims=[], intent="in", optional=False, attrs=[], init=None,
                          std="std_%s_%s" % (x, base), units="count") for x in used] + args
                if used and r.random() < 0.3:
                    dim, args = args[:len(used)], args[len(used):]
                    for x in dim:
                        args.insert(r.randint(0, len(args)), x)
                self.procs.append((self.base + "_" + ph, args))
        self.extra = [self.new("xtra") for _ in range(2)]

    def new(self, stem):
        self.n += 1
        return "%s_%s%d" % (stem, self.base[-4:], self.n)

    ODD = ["type_index", "contains_x", "end_module_flag", "subroutine_id", "real_part", "integer_n", "intentx", "optionalv",
           "dimension_a", "use_it", "kindness", "len_trim2", "t", "e", "i", "character_set", "module_name_v", "end_subroutine_n",
           "program_x", "moduleid", "programme", "typeset", "realm", "endtype_v", "contained", "classy", "in", "out", "inout"]

    def var(self, where, i):
        r = self.r
        while True:
            name = "%s%d" % (r.choice(["va", "x_", "Temp", "q"]).lower(), self.n + 1)
            self.n += 1
            if "oddnames" in self.f and r.random() < 0.4:
                name = r.choice(self.ODD)
                if name in ("in", "out", "inout", "t", "e", "i"):
                    name = name + "_%d" % self.n if where != "scheme" else name
                else:
                    name += str(self.n)
            if not getattr(self, "_names", None):
                self._names = set()
            if name not in self._names:
                self._names.add(name)
                break
        t = r.choice(TYPES)
        if t == "complex" and r.random() < 0.6:
            t = "real"
        if t == "ddt" and not self.ddts:
            t = "real"
        kind = None
        if t == "real":
            kind = r.choice(["kind_phys", "kind_phys", "kind_sp", None])
        elif t == "integer":
            kind = r.choice([None, None, "ik"])
        elif t == "logical":
            kind = r.choice([None, None, None, "lk"])
        elif t == "complex":
            kind = r.choice([None, "kind_phys"])
        elif t == "character":
            kind = "len=" + (r.choice(["*", "16", "clen", "1"]) if where == "scheme" else r.choice(["16", "32", "clen", "1"]))
        if "doubleprec" in self.f and t == "real" and r.random() < 0.3:
            t, kind = "double precision", None
        rank = r.choice([0, 0, 0, 1, 1, 2, 2, 3, 4, 7] if "explicit" in self.f else [0, 0, 1, 2, 3])
        attrs = []
        dims = [":"] * rank
        intent = None
        optional = False
        init = None
        ddt = None
        if t == "ddt":
            ddt = r.choice(self.ddts)[0]
        if where == "scheme":
            intent = r.choice(["in", "out", "inout"])
            optional = r.random() < 0.25
            if rank and "explicit" in self.f and r.random() < 0.5:
                dims = [self.extent() for _ in dims]
            elif rank and "lobound" in self.f and r.random() < 0.4:
                dims = [r.choice(["0:", "1:", "ns:", "-1:", ":"]) for _ in dims]
                if "expr" not in self.f:
                    dims = [d.replace("-1", "1") for d in dims]
            if rank and r.random() < 0.2 and all(d == ":" for d in dims):
                attrs.append(r.choice(["pointer", "allocatable"]))
            elif r.random() < 0.2:
                attrs.append("target")
            if intent == "in" and not attrs and not optional and rank == 0 and t not in ("character",) and r.random() < 0.1:
                attrs.append("value")
        else:
            if rank:
                if r.random() < 0.5 or (where == "ddt" and t == "ddt"):
                    attrs.append(r.choice(["allocatable", "pointer"]))
                else:
                    dims = [self.extent(const=True) for _ in dims]
            elif where == "module" and r.random() < 0.2:
                attrs.append(r.choice(["target", "save"]))
            if r.random() < 0.2 and self.kind != "program":
                attrs.append(r.choice(["public", "private"]) if where == "module" else r.choice(["public", "private"]))
            if where == "module" and "init" in self.f and r.random() < 0.4 and self.kind != "program":
                attrs.append("protected")
            if "deferlen" in self.f and t == "character" and rank == 0 and r.random() < 0.3:
                kind = "len=:"
                attrs = [a for a in attrs if a not in ("target", "save")] + ["allocatable"]
            if "init" in self.f and r.random() < 0.5:
                init = self.initial(t, kind, dims, attrs)
        v = V(name=name, type=t, kind=kind, dims=dims, intent=intent, optional=optional, attrs=attrs, init=init, ddt=ddt,
              std="std_%s" % name, units={"character": "none", "logical": "flag", "integer": "count", "ddt": "mixed"}.get(t, "m s-1"))
        v.std = "std_%s_%s" % (name, self.base)
        return v

    def extent(self, const=False):
        r = self.r
        c = ["5", "nparam", "mparam"] if const else ["5", "nparam", "ni", "nk"]
        k = r.random()
        e = r.choice(c)
        if "expr" in self.f and k < 0.35:
            e = r.choice([e + " + 1", "2 * " + e, e + " - 1", "( " + e + " )", "max ( 1 , " + e + " )", "nparam / 2 + " + e])
        if "lobound" in self.f and r.random() < 0.3:
            e = r.choice(["0", "1", "nparam" if const else "ns"] + (["-1", "- nparam"] if "expr" in self.f else [])) + " : " + e
        return e

    def initial(self, t, kind, dims, attrs):
        r = self.r
        if "pointer" in attrs:
            return ["=>", "null", "(", ")"]
        if "allocatable" in attrs:
            return None
        if dims and (len(dims) != 1 or dims[0] != "5"):
            val = None
            if t in ("integer",) and not kind:
                return ["=", "0"]
            if t == "real":
                return ["=", "0.0"]
            return None
        one = {"real": ["1.0e-3"], "integer": ["-", "7"], "logical": [".true."], "complex": ["(", "1.0", ",", "2.0", ")"],
               "double precision": ["1.0d0"], "ddt": None}.get(t)
        if t == "character":
            q = r.choice("'\"")
            s = r.choice(STRS)
            if q == '"':
                s = s.replace("''", "'")
            else:
                s = s.replace('""', '"')
            one = [q + s + q]
        if one is None:
            return None
        if not dims:
            return ["="] + one
        if t == "character":
            return None
        op, cl = r.choice([("[", "]"), ("(/", "/)")])
        vals = []
        for i in range(5):
            vals += ([","] if i else []) + list(one)
        return ["=", op] + vals + [cl]

    # ------------------------------------------------------------- Fortran
    def kindtoks(self, v):
        r = self.r
        t, k = v.type, v.kind
        if t == "ddt":
            return [("class" if "classarg" in self.f and v.intent and "value" not in v.attrs and r.random() < 0.4 else "type"), "(", v.ddt, ")"]
        if t == "double precision":
            return r.choice([["double", "precision"], ["doubleprecision"]])
        if t == "character":
            n = k.split("=")[1]
            form = r.random()
            if n == "1" and form < 0.5:
                return ["character"]
            if "charkind" in self.f and form < 0.2:
                v.shown = "%s, kind=ck" % k
                return r.choice([["character", "(", "len", "=", n, ",", "kind", "=", "ck", ")"], ["character", "(", n, ",", "ck", ")"],
                                 ["character", "(", "kind", "=", "ck", ",", "len", "=", n, ")"]])
            if "oldchar" in self.f and form < 0.5:
                return ["character", "(", n, ")"]
            if "oldchar" in self.f and n.isdigit() and form < 0.75:
                return ["character", "*", n]
            if "oldchar" in self.f and form < 0.85 and not n.isdigit() and n != ":":
                return ["character", "*", "(", n, ")"]
            return ["character", "(", "len", "=", n, ")"]
        if k is None:
            return [t]
        if "kindform" in self.f and r.random() < 0.6:
            return [t, "(", k, ")"]
        return [t, "(", "kind", "=", k, ")"]

    @staticmethod
    def toks(e):
        return [x for x in re.split(r"\s+|([:,()+*/-])", e) if x]

    def dimtoks(self, dims):
        out = ["("]
        for i, d in enumerate(dims):
            out += ([","] if i else []) + self.toks(d)
        return out + [")"]

    def declare(self, lay, vs):
        """declarations of vs, in order"""
        r, f = self.r, self.f
        i = 0
        while i < len(vs):
            group = [vs[i]]
            def key(v):
                return (v.type, v.kind, v.ddt, v.intent, v.optional, tuple(sorted(v.attrs)))
            if "multi" in f:
                while i + len(group) < len(vs) and key(vs[i + len(group)]) == key(vs[i]) and r.random() < 0.8:
                    group.append(vs[i + len(group)])
            i += len(group)
            v = group[0]
            ty = self.kindtoks(v)
            for g in group[1:]:
                g.shown = getattr(v, "shown", None)
            attrs = [[a] for a in v.attrs]
            if v.intent:
                it = {"in": ["in"], "out": ["out"], "inout": ["inout"]}[v.intent]
                if v.intent == "inout" and "inout_sp" in f and r.random() < 0.5:
                    it = ["in", "out"]
                attrs.append(["intent", "("] + it + [")"])
            if v.optional:
                attrs.append(["optional"])
            needdim = any(x in y for y in v.attrs for x in ())
            ent = {}
            dimattr = None
            arrays = [g for g in group if g.dims]
            if arrays and ("entdims" not in f or r.random() < 0.5) and (len(group) == 1 or all(g.dims for g in group)):
                dimattr = r.choice(arrays).dims
                attrs.append(["dimension"] + self.dimtoks(dimattr))
            if "attrorder" in f:
                r.shuffle(attrs)
            toks = list(ty)
            for a in attrs:
                toks += [","] + a
            bare = "noattrcolon" in f and not attrs and not any(g.init for g in group) and r.random() < 0.6
            if not bare:
                toks.append("::")
            for k, g in enumerate(group):
                if k:
                    toks.append(",")
                toks.append(g.name)
                if g.dims and (dimattr is None or g.dims != dimattr or ("entdims" in f and r.random() < 0.3)):
                    toks += self.dimtoks(g.dims)
                if g.init:
                    toks += g.init
            lay.stmt(*toks)

    def marker(self, lay, name):
        r = self.r
        if "markers" in self.f:
            a = r.choice(["!> \\section arg_table_%s Argument Table", "!! \\section arg_table_%s  Argument table", "!> \\section arg_table_%s",
                          "!>\\section arg_table_%s"]) % name
            b = r.choice(["!! \\htmlinclude %s.html", "!! \\htmlinclude arg_table_%s.html", "!!\\htmlinclude %s.html"]) % name
        else:
            a, b = "!> \\section arg_table_%s Argument Table" % name, "!! \\htmlinclude arg_table_%s.html" % name
        lay.raw(a)
        lay.raw(b)
        if "docs" in self.f and r.random() < 0.5:
            lay.raw("!!")
        if "docs" in self.f and r.random() < 0.3:
            lay.raw("!> @{ more documentation")

    def end(self, lay, what, name, own=True):
        r = self.r
        form = r.random()
        if "endbare" in self.f and what == "subroutine" and form < 0.3:
            lay.stmt("end", own=own, nobreak=True)
        elif "endspace" in self.f and form < 0.5:
            lay.stmt("end" + what, name, own=own, nobreak=True)
        elif "endplain" in self.f and form < 0.8:
            lay.stmt("end", what, own=own, nobreak=True)
        else:
            lay.stmt("end", what, name, own=own, nobreak=True)

    def text(self):
        r, f = self.r, self.f
        lay = (Fixed if self.fixed else Layout)(r, f)
        mod = self.base
        if "docs" in f:
            lay.raw("!> \\file %s.F90" % mod)
            lay.raw("!! This file doesn't do \"much")
        if "cpp" in f:
            lay.raw("#ifdef NOT_DEFINED_ANYWHERE")
            lay.raw("module wrong")
            lay.raw("#else")
        unit = "program" if self.kind == "program" else "module"
        lay.stmt(unit, mod, own=True, nobreak=True)
        if "cpp" in f:
            lay.raw("#endif")
        lay.stmt("use", ",", "intrinsic", "::", "iso_fortran_env", ",", "only", ":", "kind_phys", "=>", "real64", ",", "kind_sp", "=>", "real32", own=True)
        if "use" in f:
            lay.stmt("use", "iso_c_binding", own=True)
            lay.stmt("use", "iso_c_binding", ",", "only", ":", "cint", "=>", "c_int", ",", "c_double", own=True)
        lay.stmt("implicit", "none", own=True)
        if "clutter" in f and unit == "module":
            lay.stmt(r.choice(["public", "private"]), own=True)
            lay.stmt("public", "::", self.extra[0], own=True)
        lay.stmt("integer", ",", "parameter", "::", "ik", "=", "8", ",", "lk", "=", "4", ",", "ck", "=", "1")
        lay.stmt("integer", ",", "parameter", "::", "clen", "=", "24", ",", "nparam", "=", "6", ",", "mparam", "=", "4")
        if "clutter" in f:
            q = r.choice(STRS).replace("''", "'").replace('""', '"').replace('"', '""')
            lay.stmt("character", "(", "len", "=", "*", ")", ",", "parameter", "::", "ctxt", "=", '"' + q + '"')
        if "extravars" in f:
            lay.stmt("real", "::", self.extra[1], "=", "3.0", own=True)
        order = ["ddt"] * len(self.ddts)
        ddts = list(self.ddts)
        if "typedefs" in f:
            order.insert(r.randrange(len(order) + 1), "plain")
        for o in order:
            if o == "plain":
                lay.stmt("type", *r.choice([["::"], []]), "plain_" + self.base[-4:], own=True, nobreak=True)
                lay.stmt("integer", "::", "hidden", own=True)
                lay.stmt("real", ",", "dimension", "(", "3", ")", "::", "hid2", own=True)
                self.end(lay, "type", "plain_" + self.base[-4:])
                continue
            name, comps = ddts.pop(0)
            self.marker(lay, name)
            form = r.random()
            if form < 0.4:
                lay.stmt("type", name, own=True, nobreak=True)
            elif form < 0.7 or "clutter" not in f or unit == "program":
                lay.stmt("type", "::", name, own=True, nobreak=True)
            else:
                lay.stmt("type", ",", "public", "::", name, own=True, nobreak=True)
            if "tb" in f and r.random() < 0.5 and unit == "module":
                lay.stmt(r.choice(["private", "sequence", "private"]) if "tb" not in f else "private", own=True, nobreak=True)
            self.declare(lay, comps)
            if "tb" in f and unit == "module":
                lay.stmt("contains", own=True, nobreak=True)
                lay.stmt("procedure", ",", "nopass", "::", "tbp", "=>", self.extra[0], own=True)
            self.end(lay, "type", name)
        if self.mvars is not None:
            self.marker(lay, mod)
            self.declare(lay, self.mvars)
        if "iface" in f and self.mvars is None and unit == "module":
            lay.stmt("interface", "gen_" + self.base[-4:], own=True, nobreak=True)
            lay.stmt("module", "procedure", self.extra[0], own=True, nobreak=True)
            lay.stmt("end", "interface", own=True, nobreak=True)
        if unit == "program":
            self.body(lay)
            self.end(lay, "program", mod)
            return "\n".join(lay.lines) + "\n"
        procs = list(self.procs)
        if procs or "clutter" in f or "tb" in f or ("iface" in f and self.mvars is None):
            lay.stmt("contains", own=True, nobreak=True)
            if "clutter" in f or "tb" in f or ("iface" in f and self.mvars is None):
                self.clutter(lay, self.extra[0])
            for name, args in procs:
                self.proc(lay, name, args)
                if "func" in f and r.random() < 0.4:
                    self.func(lay, self.new("fun"))
        self.end(lay, "module", mod)
        return "\n".join(lay.lines) + "\n"

    def body(self, lay):
        """executable part of a program"""
        r, f = self.r, self.f
        for v in self.mvars:
            if not v.dims and v.type in ("integer", "real") and "pointer" not in v.attrs and r.random() < 0.4:
                lay.stmt(v.name, "=", "1", own=True)
        lay.stmt("write", "(", "*", ",", "*", ")", "'%s'" % r.choice([s.replace('""', '"') for s in STRS]), own=True)
        if "blockwords" in f:
            lay.stmt("if", "(", ".true.", ")", "then", own=True, nobreak=True)
            lay.stmt("end", "if", own=True, nobreak=True)
        if "clutter" in f or "innersub" in f or "iface" in f:
            lay.stmt("contains", own=True, nobreak=True)
            self.clutter(lay, self.extra[0])

    def clutter(self, lay, name):
        lay.stmt("subroutine", name, "(", "a", ",", "b", ")", own=True)
        lay.stmt("real", ",", "intent", "(", "in", ")", "::", "a")
        lay.stmt("real", ",", "intent", "(", "out", ")", "::", "b", own=True)
        lay.stmt("b", "=", "a", own=True)
        self.end(lay, "subroutine", name)

    def func(self, lay, name):
        lay.stmt("function", name, "(", "a", ")", "result", "(", "b", ")", own=True)
        lay.stmt("real", ",", "intent", "(", "in", ")", "::", "a", own=True)
        lay.stmt("real", "::", "b", own=True)
        lay.stmt("b", "=", "a", "*", "2.0", own=True)
        self.end(lay, "function", name)

    def proc(self, lay, name, args):
        r, f = self.r, self.f
        self.marker(lay, name)
        toks = ["subroutine", name]
        if "prefix" in f and r.random() < 0.3 and not any(a.attrs for a in args) and False:
            toks = ["recursive"] + toks
        elif "prefix" in f and r.random() < 0.5:
            toks = ["recursive"] + toks
        if args:
            toks += ["("]
            for i, a in enumerate(args):
                toks += ([","] if i else []) + [a.name]
            toks += [")"]
        elif r.random() < 0.5:
            toks += ["(", ")"]
        lay.stmt(*toks, own=True, nobreak=not ("argcont" in f or "cont" in f))
        if "use" in f and r.random() < 0.5:
            lay.stmt("use", "iso_fortran_env", ",", "only", ":", "int64", ",", "ifoo", "=>", "int32", own=True)
        if "multi" in f and "posarg" in f:
            decl = list(args)
            r.shuffle(decl)                       # declarations in another order than the arguments
        else:
            decl = list(args)
        decl.sort(key=lambda a: a.name not in ("ni", "nk", "ns"))
        self.declare(lay, decl)
        if "between" in f:
            lay.stmt("integer", "::", "loc1", ",", "loc2", own=True)
            lay.stmt("character", "(", "len", "=", "20", ")", "::", "locs", own=True)
        for a in args:
            if a.name == "errflg":
                lay.stmt("errflg", "=", "0", own=True)
            elif a.name == "errmsg":
                lay.stmt("errmsg", "=", "'%s'" % r.choice([s.replace('""', '"') for s in STRS]), own=True)
        if "blockwords" in f:
            lay.stmt("call", self.extra_call(lay), own=True) if False else None
            lay.stmt("if", "(", ".true.", ")", "then", own=True, nobreak=True)
            lay.stmt("end", "if", own=True, nobreak=True)
        if "innersub" in f and r.random() < 0.6:
            lay.stmt("contains", own=True, nobreak=True)
            inner = self.new("inner")
            lay.stmt("subroutine", inner, "(", "za", ")", own=True)
            lay.stmt("integer", ",", "intent", "(", "in", ")", "::", "za", own=True)
            self.end(lay, "subroutine", inner)
        self.end(lay, "subroutine", name)

    # ------------------------------------------------------------ expected
    def tables(self):
        """[(table name, type, [V])]"""
        out = [(n, "ddt", vs) for n, vs in self.ddts]
        if self.mvars is not None:
            out.append((self.base, "host" if self.kind == "program" else self.kind, self.mvars))
        out += [(n, "scheme", vs) for n, vs in self.procs]
        return out

    # ------------------------------------------------------------ metadata
    def meta(self, tables=None):
        out = []
        groups = []
        for n, t, vs in (tables or self.tables()):
            key = n if t != "scheme" else self.base
            if t == "scheme" and groups and groups[-1][1] == "scheme":
                groups[-1][2].append((n, vs))
            else:
                groups.append((key, t, [(n, vs)]))
        for key, t, secs in groups:
            out += ["[ccpp-table-properties]", "  name = %s" % key, "  type = %s" % t, ""]
            for n, vs in secs:
                out += ["[ccpp-arg-table]", "  name = %s" % n, "  type = %s" % t]
                for v in vs:
                    out += ["[ %s ]" % v.name, "  standard_name = %s" % v.std, "  units = %s" % v.units,
                            "  dimensions = (%s)" % ", ".join("dim_of_rank_%d" % i for i in range(len(v.dims))),
                            "  type = %s" % (v.ddt if v.type == "ddt" else v.type)]
                    k = getattr(v, "shown", None) or v.kind
                    if k:
                        out.append("  kind = %s" % k)
                    if v.intent:
                        out.append("  intent = %s" % v.intent)
                    if v.optional:
                        out.append("  optional = True")
                out.append("")
        return "\n".join(out) + "\n"
