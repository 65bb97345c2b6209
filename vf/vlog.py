"""Generates the Fortran event-log module linked into every generated executable.

Log lines (unit 77):
  C <what...>                 driver: about to make a cap call
  R <errcode> |<errmsg>       driver: the call returned
  E <entry point> <seq>       instrumented scheme entered
  A <arg> <present> <rank> <n1..> : values     argument as received
  X                           scheme leaves
  D <name> <rank> <n1..> : values              driver dump of one host variable
"""
import os
TYPES = {"r8": "real(real64)", "r4": "real(real32)", "i4": "integer", "lg": "logical", "ch": "character(len=*)", "i8": "integer(int64)",
         "l1": "logical(int8)"}


def _loops(rank, body, ind):
    ivs = ["i1", "i2", "i3", "i4"][:rank]
    out = []
    p = ind
    for d in range(rank, 0, -1):
        out.append("%sdo i%d = 1, size(x,%d)" % (p, d, d))
        p += "  "
    idx = "(" + ",".join(ivs) + ")" if rank else ""
    for b in body:
        out.append(p + b.replace("@", idx))
    for d in range(rank):
        p = p[:-2]
        out.append(p + "end do")
    return out


def vlog_source():
    o = []
    w = o.append
    w("module vlog")
    w("  use iso_fortran_env, only: real32, real64, int8, int64")
    w("  implicit none")
    w("  private")
    w("  integer, public, save :: vl_seq = 0")
    w("  integer, save :: argno = 0")
    w("  integer, public, save :: vl_fail_at = -1, vl_fail_code = 0")
    w("  integer, save :: lu = 77, rnd = 0")
    w("  integer, save :: tick = 0")
    w("  !$omp threadprivate(vl_seq, argno, vl_fail_at, vl_fail_code, lu, rnd)")
    w("  public :: vl_open, vl_enter, vl_leave, vl_arg, vl_upd, vl_set, vl_init, vl_dump, vl_call, vl_ret, vl_absent, vl_shape, vl_note, vl_fails, vl_setval, vl_tbegin, vl_tend, vl_include")
    for nm in ("vl_arg", "vl_upd", "vl_set", "vl_init", "vl_dump", "vl_shape"):
        w("  interface %s" % nm)
        for t in TYPES:
            for r in range(5):
                w("    module procedure %s_%s_%d" % (nm, t, r))
        w("  end interface")
    w("contains")
    w("  subroutine vl_open(fn)")
    w("    character(len=*), intent(in) :: fn")
    w("    open(unit=77, file=fn, status='replace', action='write', recl=200000)")
    w("  end subroutine")
    # threads: own log file, own sequence numbers, random delays at scheme entry and exit
    w("  subroutine vl_tbegin(fn, u, base, seed)")
    w("    character(len=*), intent(in) :: fn")
    w("    integer, intent(in) :: u, base, seed")
    w("    lu = u")
    w("    vl_seq = base")
    w("    vl_fail_at = -1")
    w("    rnd = seed")
    w("    open(unit=lu, file=fn, status='replace', action='write', recl=200000)")
    w("  end subroutine")
    w("  subroutine vl_tend()")
    w("    close(lu)")
    w("    lu = 77")
    w("  end subroutine")
    w("  subroutine vl_include(fn)")
    w("    character(len=*), intent(in) :: fn")
    w("    write(77,'(a,a)') 'I ', fn")
    w("  end subroutine")
    w("  subroutine pace()")
    w("    interface")
    w("      subroutine vt_pause(us) bind(c, name='vt_pause')")
    w("        use iso_c_binding, only: c_int")
    w("        integer(c_int), value :: us")
    w("      end subroutine")
    w("    end interface")
    w("    integer :: t")
    w("    !$omp atomic capture")
    w("    tick = tick + 1")
    w("    t = tick")
    w("    !$omp end atomic")
    w("    write(lu,'(a,i0)') 'T ', t")
    w("    rnd = mod(rnd*1103 + 12345, 65536)")
    w("#ifdef _OPENMP")
    w("    call vt_pause(merge(mod(rnd, 300), 0, mod(rnd/64, 3) == 0))")
    w("#endif")
    w("  end subroutine")
    w("  subroutine vl_enter(nm)")
    w("    character(len=*), intent(in) :: nm")
    w("    vl_seq = vl_seq + 1")
    w("    argno = 0")
    w("    write(lu,'(a,a,1x,i0)') 'E ', nm, vl_seq")
    w("    flush(lu)")
    w("    if (lu /= 77) call pace()")
    w("  end subroutine")
    w("  subroutine vl_leave()")
    w("    if (lu /= 77) call pace()")
    w("    write(lu,'(a)') 'X'")
    w("    flush(lu)")
    w("  end subroutine")
    w("  logical function vl_fails()")
    w("    vl_fails = (vl_seq == vl_fail_at)")
    w("  end function")
    w("  subroutine vl_setval(i, v)")
    w("    integer, intent(inout) :: i")
    w("    integer, intent(in) :: v")
    w("    i = v")
    w("  end subroutine")
    w("  subroutine vl_call(s)")
    w("    character(len=*), intent(in) :: s")
    w("    write(lu,'(a,a)') 'C ', s")
    w("    flush(lu)")
    w("  end subroutine")
    w("  subroutine vl_note(s)")
    w("    character(len=*), intent(in) :: s")
    w("    write(lu,'(a,a)') 'N ', s")
    w("    flush(lu)")
    w("  end subroutine")
    w("  subroutine vl_ret(e, m)")
    w("    integer, intent(in) :: e")
    w("    character(len=*), intent(in) :: m")
    w("    write(lu,'(a,i0,a,a)') 'R ', e, ' |', trim(m)")
    w("    flush(lu)")
    w("  end subroutine")
    w("  subroutine vl_absent(nm)")
    w("    character(len=*), intent(in) :: nm")
    w("    argno = argno + 1")
    w("    write(lu,'(a,a,a)') 'A ', nm, ' 0 0 :'")
    w("  end subroutine")
    for t, ft in TYPES.items():
        name, t = t, {"i8": "i4", "l1": "lg"}.get(t, t)      # logged alike
        for r in range(5):
            dim = "(" + ",".join([":"] * r) + ")" if r else ""
            decl_i = "    integer :: i1, i2, i3, i4"
            pre = "i1 = 1; i2 = 1; i3 = 1; i4 = 1"
            fmt = {"r8": "'(1x,es24.16e3)'", "r4": "'(1x,es16.8e3)'", "i4": "'(1x,i0)'", "lg": "'(1x,l1)'",
                   "ch": "'(1x,3a)'"}[t]
            val = "'[', trim(x@), ']'" if t == "ch" else "x@"
            shape = "".join(", size(x,%d)" % d for d in range(1, r + 1))
            shp = "(1x,i0)" if not r else ""
            # generic writer
            for nm, head in (("vl_arg", "'A ', nm, ' 1 '"), ("vl_dump", "'D ', nm, ' '"), ("vl_shape", "'A ', nm, ' 1 '")):
                w("  subroutine %s_%s_%d(nm, x)" % (nm, name, r))
                w("    character(len=*), intent(in) :: nm")
                w("    %s, intent(in) :: x%s" % (ft, dim))
                w(decl_i)
                if nm != "vl_dump":
                    w("    argno = argno + 1")
                w("    write(lu,'(3a,i0%s,a)',advance='no') %s, %d%s, ' :'" % (",1x,i0" * r, head, r, shape))
                if nm != "vl_shape":
                    for ln in _loops(r, ["write(lu,%s,advance='no') %s" % (fmt, val)], "    "):
                        w(ln)
                w("    write(lu,'(a)') ''")
                w("  end subroutine")
            w("  subroutine vl_upd_%s_%d(x, k)" % (name, r))
            w("    %s, intent(inout) :: x%s" % (ft, dim))
            w("    integer, intent(in) :: k")
            w(decl_i)
            w("    integer :: s")
            w("    " + pre)
            w("    s = mod(vl_seq*5 + k*3, 16)")
            body = {"r8": "x@ = x@ + (0.125_real64*s + 0.5_real64*i1 + 0.25_real64*i2 + 0.0625_real64*i3 + 0.03125_real64*i4)",
                    "r4": "x@ = x@ + real(0.125_real64*s + 0.5_real64*i1 + 0.25_real64*i2 + 0.0625_real64*i3 + 0.03125_real64*i4, real32)",
                    "i4": "x@ = mod(x@ + s + i1 + 3*i2 + 5*i3 + 7*i4, %s)" % ("1000_int64" if name == "i8" else "1000"),
                    "lg": "x@ = x@ .neqv. (mod(s + i1 + i2 + i3 + i4, 2) == 0)",
                    "ch": "write(x@,'(a,i0,a,i0)') 'u', mod(vl_seq,100), 'k', k + 10*i1 + 100*i2"}[t]
            for ln in _loops(r, [body], "    "):
                w(ln)
            w("  end subroutine")
            for nm, sq in (("vl_set", "mod(vl_seq*7 + k*3, 32)"), ("vl_init", "k")):
                w("  subroutine %s_%s_%d(x, k)" % (nm, name, r))
                w("    %s, intent(%s) :: x%s" % (ft, "out" if t != "ch" else "inout", dim))
                w("    integer, intent(in) :: k")
                w(decl_i)
                w("    integer :: s")
                w("    " + pre)
                w("    s = %s" % sq)
                third = "1.0_real64/3.0_real64"
                body = {"r8": "x@ = real(s + i1 + 10*i2 + 100*i3 + 1000*i4, real64) + %s" % third,
                        "r4": "x@ = real(real(s + i1 + 10*i2 + 100*i3 + 1000*i4, real64) + %s, real32)" % third,
                        "i4": "x@ = s + i1 + 10*i2 + 100*i3 + 1000*i4",
                        "lg": "x@ = mod(s + i1 + i2 + i3 + i4, 2) == 0",
                        "ch": "write(x@,'(a,i0,a,i0)') '%s', s, 'k', k + 10*i1 + 100*i2" % ("s" if nm == "vl_set" else "h")}[t]
                for ln in _loops(r, [body], "    "):
                    w(ln)
                w("  end subroutine")
    w("end module vlog")
    return "\n".join(o) + "\n"


# ---- the same rules in python (numpy) -------------------------------------
import numpy as np
THIRD = np.float64(1.0) / np.float64(3.0)


def _grid(shape):
    g = [np.ones(shape, dtype=np.float64) for _ in range(4)]
    for d in range(len(shape)):
        ar = np.arange(1, shape[d] + 1, dtype=np.float64)
        g[d] = np.broadcast_to(ar.reshape([-1 if i == d else 1 for i in range(len(shape))]), shape)
    return g


def _charval(prefix, s, k, shape, clen):
    i1, i2, _, _ = _grid(shape)
    res = np.empty(shape, dtype=object)
    it = np.ndindex(*shape) if shape else [()]
    for ix in it:
        v = "%s%dk%d" % (prefix, s, k + 10 * int(i1[ix] if shape else 1) + 100 * int(i2[ix] if shape else 1))
        res[ix] = v[:clen]
    return res


def rule_upd(x, t, seq, k, clen=32):
    x = np.array(x)
    s = (seq * 5 + k * 3) % 16
    i1, i2, i3, i4 = _grid(x.shape)
    inc = 0.125 * s + 0.5 * i1 + 0.25 * i2 + 0.0625 * i3 + 0.03125 * i4
    if t == "r8":
        return x + inc
    if t == "r4":
        return (x.astype(np.float32) + inc.astype(np.float32)).astype(np.float32)
    if t == "i4":
        return np.fmod(x + s + i1 + 3 * i2 + 5 * i3 + 7 * i4, 1000).astype(np.int64)
    if t == "lg":
        return np.logical_xor(x, (s + i1 + i2 + i3 + i4) % 2 == 0)
    return _charval("u", seq % 100, k, x.shape, clen)


def _fill(s, t, k, shape, prefix, clen):
    i1, i2, i3, i4 = _grid(shape)
    v = s + i1 + 10 * i2 + 100 * i3 + 1000 * i4
    if t == "r8":
        return v + THIRD
    if t == "r4":
        return (v + THIRD).astype(np.float32)
    if t == "i4":
        return v.astype(np.int64)
    if t == "lg":
        return (s + i1 + i2 + i3 + i4) % 2 == 0
    return _charval(prefix, s, k, shape, clen)


def rule_set(shape, t, seq, k, clen=32):
    return _fill((seq * 7 + k * 3) % 32, t, k, tuple(shape), "s", clen)


def rule_init(shape, t, k, clen=32):
    return _fill(k, t, k, tuple(shape), "h", clen)


# ---- log parsing ------------------------------------------------------------
def parse_vals(t, text, shape):
    if t == "ch":
        vals = [v[1:-1] for v in text.split()]
    elif t == "lg":
        vals = [v == "T" for v in text.split()]
    elif t == "i4":
        vals = [int(v) for v in text.split()]
    else:
        vals = [float(v.replace("Infinity", "inf")) if v.lower() != "nan" else float("nan") for v in text.split()]
    n = 1
    for d in shape:
        n *= d
    if len(vals) != n:
        raise ValueError("value count %d for shape %s" % (len(vals), shape))
    arr = np.array(vals, dtype=object if t == "ch" else None)
    if n == 0:
        return arr.reshape(tuple(shape))
    return arr.reshape(tuple(shape), order="F")


def parse_log(path):
    ev = []
    with open(path, errors="replace") as f:
        for line in f:
            line = line.rstrip("\n")
            if not line:
                continue
            c, rest = line[0], line[2:]
            if c == "E":
                nm, seq = rest.rsplit(" ", 1)
                ev.append(["E", nm, int(seq), []])
            elif c == "A":
                head, _, vals = rest.partition(":")
                tk = head.split()
                rec = (tk[0], tk[1] == "1", [int(x) for x in tk[3:]], vals)
                ev[-1][3].append(rec)
            elif c == "X":
                ev.append(["X"])
            elif c == "D":
                head, _, vals = rest.partition(":")
                tk = head.split()
                ev.append(["D", tk[0], [int(x) for x in tk[2:]], vals])
            elif c == "R":
                code, _, msg = rest.partition(" |")
                ev.append(["R", int(code), msg])
            elif c == "C":
                ev.append(["C", rest])
            elif c == "I":
                ev += [["I", rest]] + parse_log(os.path.join(os.path.dirname(path), rest)) + [["J"]]
            elif c == "T":
                ev[-1].append(int(rest))
            elif c == "N":
                ev.append(["N", rest])
    return ev
