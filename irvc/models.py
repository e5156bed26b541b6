"""Harness intrinsics, external (C/C++ runtime) functions and LLVM intrinsics."""
import math
import re
import struct
import hashlib
from fractions import Fraction
from . import term as tm, ir, solve, poly
from .term import T, is_c, M
from .ir import FInf
from .exec import (Ptr, UNDEF, CONTROL, PathEnd, Unsupported, MemFault, ForkN, bl, Fork)

MODELS = {}
PATTERNS = []
INTRINSICS = []


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


def pattern(rx):
    def d(f):
        PATTERNS.append((re.compile(rx), f))
        return f
    return d


def intr(*names):
    def d(f):
        for n in names:
            INTRINSICS.append((n, f))
        return f
    return d


def cstr(e, st, p):
    if not isinstance(p, Ptr):
        return "?"
    out = bytearray()
    o = st.mem[p.o]
    i = p.f
    while True:
        b = e.byte(st, p.o, i)
        if isinstance(b, (tuple, T)) or b is UNDEF:
            out += b"?"
        elif b == 0:
            break
        else:
            out.append(b)
        i += 1
        if o.size is not None and i >= o.size:
            break
    return out.decode("latin1")


# ------------------------------------------------------------ harness intrinsics
def nondet(sort, lo=None):
    def f(e, st, fr, ins, a):
        nm = cstr(e, st, a[0])
        v = tm.fresh("in." + nm, sort)
        st.inputs.append((nm, v))
        return v
    return f


for _n, _s in (("vp_u64", 64), ("vp_i64", 64), ("vp_u32", 32), ("vp_i32", 32), ("vp_u16", 16), ("vp_u8", 8), ("vp_double", "R"),
               ("vp_bool", "B")):
    MODELS[_n] = nondet(_s)


def feasible(e, st):
    r, _ = solve.check(st.pcs[:-1], [st.pcs[-1]] if st.pcs else [], e.o["qtimeout"])
    return r != "unsat"


@model("vp_assume")
def vp_assume(e, st, fr, ins, a):
    c = bl(a[0])
    e.assumes += 1
    if a[0] is UNDEF:
        raise MemFault("assumption on uninitialised value")
    if isinstance(c, T):
        c2 = tm.subst(c, st.subst) if st.subst else c
        if is_c(c2):
            if not c2:
                raise PathEnd("assume")
            return None
        if not e.assume(st, c) or solve.check(st.pcs, [c], e.o["qtimeout"])[0] == "unsat":
            raise PathEnd("assume")
    elif not c:
        raise PathEnd("assume")
    return None


@model("vp_assume_nc")
def vp_assume_nc(e, st, fr, ins, a):
    """assumption whose consistency is not checked on the spot"""
    c = bl(a[0])
    e.assumes += 1
    if a[0] is UNDEF:
        raise MemFault("assumption on uninitialised value")
    if isinstance(c, T):
        if not e.assume(st, c):
            raise PathEnd("assume")
    elif not c:
        raise PathEnd("assume")
    return None


@model("vp_known")
def vp_known(e, st, fr, ins, a):
    """is the condition true already by term normalisation (no solver, no fork)?"""
    c = bl(a[0])
    if isinstance(c, T):
        return e.lookup(st, c) is True
    return bool(c) if c is not UNDEF else False


@model("vp_assume_eq")
def vp_assume_eq(e, st, fr, ins, a):
    x, y = a
    c = tm.r_eq(x, y)
    e.assumes += 1
    if is_c(c):
        if not c:
            raise PathEnd("assume")
        return None
    st.rules.append((x, y))
    st.pcset.add(c.id)
    st.pcs.append(c)
    return None


@model("vp_assert")
def vp_assert(e, st, fr, ins, a):
    lab = cstr(e, st, a[1])
    c = a[0]
    if c is UNDEF:
        raise MemFault("assertion on uninitialised value: " + lab)
    c = bl(c)
    e.record(st, lab, c)
    if isinstance(c, T):
        e.assume(st, c)
    elif not c:
        raise PathEnd("assert")
    return None


@model("vp_assert_eq")
def vp_assert_eq(e, st, fr, ins, a):
    lab = cstr(e, st, a[2])
    x, y = a[0], a[1]
    if x is UNDEF or y is UNDEF:
        raise MemFault("assertion on uninitialised value: " + lab)
    if isinstance(x, FInf) or isinstance(y, FInf):
        e.record(st, lab, isinstance(x, FInf) and isinstance(y, FInf) and x.s == y.s)
        return None
    e.record(st, lab, tm.r_eq(x, y))
    return None


@model("vp_cover")
def vp_cover(e, st, fr, ins, a):
    lab = cstr(e, st, a[0])
    if e.covers.get(lab) != "reached":
        r, _ = solve.check(st.pcs, [], e.o["qtimeout"] * 2, slice_=False)
        if r == "sat":
            e.covers[lab] = "reached"
        elif lab not in e.covers:
            e.covers[lab] = r
    return None


@model("vp_stop")
def vp_stop(e, st, fr, ins, a):
    raise PathEnd("done")


@model("vp_symbolic")
def vp_symbolic(e, st, fr, ins, a):
    return True


@model("vp_native")
def vp_native(e, st, fr, ins, a):
    return False


@model("vp_choose")
def vp_choose(e, st, fr, ins, a):
    nm = cstr(e, st, a[0])
    n = a[1]
    k = ("pend", len(st.frames), fr.ip)
    v = st.ghost.get(k)
    if v is None:
        v = tm.fresh("in." + nm, 32)
        st.inputs.append((nm, v))
        e.assume(st, tm.ult(v, n, 32))
        st.ghost[k] = v
    for i in range(n - 1):
        if e.decide(st, tm.eq(v, i, 32)):
            st.ghost.pop(k)
            return i
    st.ghost.pop(k)
    return n - 1


@model("vp_concretize")
def vp_concretize(e, st, fr, ins, a):
    """fork until the 64-bit value is concrete"""
    v = e.toint(st, a[0])
    if is_c(v):
        return v
    c = e.concretize(st, v)
    return c if c is not None else e.enum_value(st, v)


@model("vp_decide")
def vp_decide(e, st, fr, ins, a):
    c = bl(a[0])
    return e.decide(st, c) if isinstance(c, T) else c


def i64(e, st, v):
    v = e.toint(st, v)
    return v


def uf_model(nints, nreals, sort):
    def f(e, st, fr, ins, a):
        nm = cstr(e, st, a[0])
        args = []
        for x in a[1:1 + nints]:
            x = i64(e, st, x)
            # wrap constants so that z3 sees a 64-bit sort
            args.append(x)
        for x in a[1 + nints:1 + nints + nreals]:
            args.append(Fraction(x) if is_c(x) else x)
        return tm.uf(nm, sort, *args)
    return f


for _i in range(0, 5):
    for _r in range(0, 5):
        MODELS["vp_ufr_%d_%d" % (_i, _r)] = uf_model(_i, _r, "R")
        MODELS["vp_ufu_%d_%d" % (_i, _r)] = uf_model(_i, _r, 64)


@model("vp_lazy")
def vp_lazy(e, st, fr, ins, a):
    """an arbitrary valid object; objects of the same class may alias"""
    cls, nm = cstr(e, st, a[0]), cstr(e, st, a[1])
    size = a[2]
    o = e.new_obj(st, nm, size if size else None, "lazy", "sym")
    o.cls = cls
    return Ptr(o.id, 0)


@model("vp_alloc_sym")
def vp_alloc_sym(e, st, fr, ins, a):
    nm = cstr(e, st, a[1])
    o = e.new_obj(st, nm, a[0], "heap", "sym")
    return Ptr(o.id, 0)


@model("vp_havoc")
def vp_havoc(e, st, fr, ins, a):
    p, n = a
    oid, off = e.deref(st, p, n, "havoc")
    o = e.w_obj(st, oid)
    if not is_c(off):
        raise Unsupported("havoc at symbolic offset")
    for k in e.overlaps_big(o, off, n):
        e.split(st, o, k, off, n)
    if o.default != "sym":
        if off == 0 and o.size == n:
            o.default = "sym"
        else:
            for i in range(0, n, 8):
                w = min(8, n - i)
                o.cells[off + i] = (w, "i", tm.fresh("havoc", 8 * w))
    return None


@model("vp_replace")
def vp_replace(e, st, fr, ins, a):
    rx = cstr(e, st, a[0])
    tgt = a[1]
    pat = re.compile(rx)
    stub = st.mem[tgt.o].name
    n = 0
    for mangled, d in e.dm.items():
        if pat.search(d) and not e.is_harness(e.m.funcs[mangled]) and mangled != stub:
            st.repl[mangled] = stub
            n += 1
    if n == 0:
        raise Unsupported("contract target not found: " + rx)
    return None


@model("vp_replace_opt")
def vp_replace_opt(e, st, fr, ins, a):
    try:
        return vp_replace(e, st, fr, ins, a)
    except Unsupported:
        return None


@model("vp_unreplace")
def vp_unreplace(e, st, fr, ins, a):
    pat = re.compile(cstr(e, st, a[0]))
    for k in list(st.repl):
        if pat.search(e.dm.get(k, k)):
            del st.repl[k]
    return None


@model("vp_bounded")
def vp_bounded(e, st, fr, ins, a):
    e.bounded_reasons.add(cstr(e, st, a[0]))
    return None


@model("vp_trust")
def vp_trust(e, st, fr, ins, a):
    e.trusted.add(cstr(e, st, a[0]))
    return None


@model("vp_is_live")
def vp_is_live(e, st, fr, ins, a):
    p = a[0]
    return isinstance(p, Ptr) and st.mem[p.o].live


@model("vp_same_obj")
def vp_same_obj(e, st, fr, ins, a):
    p, q = a
    return isinstance(p, Ptr) and isinstance(q, Ptr) and p.o == q.o


@model("vp_print")
def vp_print(e, st, fr, ins, a):
    print("VP", cstr(e, st, a[0]), tm.show(a[1])[:300] if isinstance(a[1], T) else a[1])
    return None


@model("vp_printd")
def vp_printd(e, st, fr, ins, a):
    print("VP", cstr(e, st, a[0]), tm.show(a[1])[:600] if isinstance(a[1], T) else a[1])
    return None


# ------------------------------------------------------------ allocation
def alloc(e, st, n, name, default="undef"):
    if not is_c(n):
        c = e.concretize(st, n)
        if c is None:
            c = e.enum_value(st, n)
        n = c
    if n > 1 << 40:
        return None
    o = e.new_obj(st, name + "(%d)" % n, n, "heap", default)
    return Ptr(o.id, 0)


def op_new(e, st, fr, ins, a):
    p = alloc(e, st, a[0], "new")
    if p is None:
        throw_std(e, st, "_ZTISt9bad_alloc")
        return CONTROL
    return p


for _n in ("_Znwm", "_Znam", "_ZnwmSt11align_val_t", "_ZnamSt11align_val_t", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t"):
    MODELS[_n] = op_new


@model("malloc")
def m_malloc(e, st, fr, ins, a):
    return alloc(e, st, a[0], "malloc")


@model("calloc")
def m_calloc(e, st, fr, ins, a):
    return alloc(e, st, tm.mul(a[0], a[1], 64), "calloc", "zero")


@model("free", "_ZdlPv", "_ZdlPvm", "_ZdaPv", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t",
       "_ZdaPvSt11align_val_t", "_ZdaPvmSt11align_val_t")
def m_free(e, st, fr, ins, a):
    p = a[0]
    if is_c(p) and not isinstance(p, Ptr):
        if p == 0:
            return None
        if p is UNDEF:
            raise MemFault("free of uninitialised pointer")
        raise MemFault("free of wild pointer")
    if isinstance(p, T):
        p2 = e.term_ptr(st, p)
        if isinstance(p2, T):
            raise Unsupported("free of unresolved pointer")
        p = p2
    o = st.mem[p.o]
    if not o.live:
        raise MemFault("double free of " + o.name)
    if o.kind not in ("heap", "lazy") or not (is_c(p.f) and p.f == 0):
        raise MemFault("free of non-heap pointer into " + o.name)
    w = e.w_obj(st, p.o)
    w.live = False
    w.cells = {}
    w.rows = None
    return None


# ------------------------------------------------------------ memory functions
@model("memcpy", "memmove")
def m_memcpy(e, st, fr, ins, a):
    e.memcpy(st, a[0], a[1], a[2])
    return a[0]


@model("memset")
def m_memset(e, st, fr, ins, a):
    v = a[1]
    v = tm.extract(v, 7, 0, 32) if not is_c(v) else v & 255
    e.memset(st, a[0], v, a[2])
    return a[0]


@intr("llvm.memcpy", "llvm.memmove")
def i_memcpy(e, st, fr, ins, a):
    e.memcpy(st, a[0], a[1], a[2])
    return None


@intr("llvm.memset")
def i_memset(e, st, fr, ins, a):
    e.memset(st, a[0], a[1], a[2])
    return None


def conc(e, st, n):
    if is_c(n):
        return n
    c = e.concretize(st, n)
    return c if c is not None else e.enum_value(st, n)


@model("memcmp", "bcmp", "__builtin_memcmp")
def m_memcmp(e, st, fr, ins, a):
    n = conc(e, st, a[2])
    if n == 0:
        return 0
    ao, af = e.locate(st, a[0], n, "read")
    bo, bf = e.locate(st, a[1], n, "read")
    r = 0
    for i in range(n - 1, -1, -1):
        x, y = e.byte(st, ao, af + i), e.byte(st, bo, bf + i)
        if x is UNDEF or y is UNDEF or isinstance(x, tuple) or isinstance(y, tuple):
            raise Unsupported("memcmp of undefined/pointer bytes")
        r = tm.ite(tm.eq(x, y, 8), r, tm.ite(tm.ult(x, y, 8), M(32), 1, 32), 32)
    return r


@model("strlen")
def m_strlen(e, st, fr, ins, a):
    p = a[0]
    if not isinstance(p, Ptr):
        raise MemFault("strlen of null")
    i = 0
    while True:
        oid, off = e.deref(st, Ptr(p.o, tm.add(p.f, i, 64)), 1, "read")
        b = e.byte(st, oid, off)
        if isinstance(b, T):
            if e.decide(st, tm.eq(b, 0, 8)):
                return i
        elif b == 0:
            return i
        i += 1


@model("strcmp")
def m_strcmp(e, st, fr, ins, a):
    x, y = cstr(e, st, a[0]), cstr(e, st, a[1])
    return 0 if x == y else (M(32) if x < y else 1)


@model("memchr")
def m_memchr(e, st, fr, ins, a):
    n = conc(e, st, a[2])
    for i in range(n):
        oid, off = e.deref(st, Ptr(a[0].o, tm.add(a[0].f, i, 64)), 1, "read")
        b = e.byte(st, oid, off)
        v = a[1] & 255 if is_c(a[1]) else tm.extract(a[1], 7, 0, 32)
        if e.decide(st, tm.eq(b, v, 8)):
            return Ptr(a[0].o, tm.add(a[0].f, i, 64))
    return 0


# ------------------------------------------------------------ exceptions
def throw_std(e, st, ti, what=None):
    o = e.new_obj(st, "exception " + ti, 64, "heap", "zero")
    t = e.glob(st, ti)
    st.ghost[("exc", o.id)] = t
    e.throw(st, (Ptr(o.id, 0), t))


@model("__cxa_allocate_exception")
def cxa_alloc(e, st, fr, ins, a):
    o = e.new_obj(st, "exception", a[0], "heap", "undef")
    return Ptr(o.id, 0)


@model("__cxa_free_exception")
def cxa_free(e, st, fr, ins, a):
    return None


@model("__cxa_throw")
def cxa_throw(e, st, fr, ins, a):
    st.ghost[("exc", a[0].o)] = a[1]
    e.throw(st, (a[0], a[1]))
    return CONTROL


@model("__cxa_begin_catch")
def cxa_begin(e, st, fr, ins, a):
    st.caught = st.caught + [a[0]]
    return a[0]


@model("__cxa_get_exception_ptr")
def cxa_gep(e, st, fr, ins, a):
    return a[0]


@model("__cxa_end_catch")
def cxa_end(e, st, fr, ins, a):
    st.caught = st.caught[:-1]
    return None


@model("__cxa_rethrow", "_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE")
def cxa_rethrow(e, st, fr, ins, a):
    x = st.caught[-1]
    st.caught = st.caught[:-1]
    e.throw(st, (x, st.ghost[("exc", x.o)]))
    return CONTROL


@model("__cxa_throw_bad_array_new_length", "_ZSt28__throw_bad_array_new_lengthv")
def cxa_bad_arr(e, st, fr, ins, a):
    throw_std(e, st, "_ZTISt20bad_array_new_length")
    return CONTROL


@model("_ZSt9terminatev", "abort", "__clang_call_terminate", "exit", "_exit", "__cxa_pure_virtual", "__assert_fail",
       "_ZSt21__glibcxx_assert_failPKciS0_S0_")
def m_terminate(e, st, fr, ins, a):
    raise MemFault("program terminates (std::terminate/abort)")


@model("__cxa_guard_acquire")
def guard_acq(e, st, fr, ins, a):
    oid, off = e.deref(st, a[0], 1, "read")
    v = e.read(st, oid, off, 1, "i")
    return 0 if is_c(v) and v else 1


@model("__cxa_guard_release")
def guard_rel(e, st, fr, ins, a):
    e.store(st, a[0], ir.INT(8), 1)
    return None


@model("__cxa_guard_abort", "__cxa_atexit", "atexit", "__cxa_thread_atexit")
def noop0(e, st, fr, ins, a):
    return 0


@intr("llvm.eh.typeid.for")
def i_typeid(e, st, fr, ins, a):
    return e.typeid(a[0])


STDTHROW = {
    "_ZSt20__throw_out_of_rangePKc": "_ZTISt12out_of_range", "_ZSt24__throw_out_of_range_fmtPKcz": "_ZTISt12out_of_range",
    "_ZSt20__throw_length_errorPKc": "_ZTISt12length_error", "_ZSt19__throw_logic_errorPKc": "_ZTISt11logic_error",
    "_ZSt24__throw_invalid_argumentPKc": "_ZTISt16invalid_argument", "_ZSt17__throw_bad_allocv": "_ZTISt9bad_alloc",
    "_ZSt16__throw_bad_castv": "_ZTISt8bad_cast", "_ZSt25__throw_bad_function_callv": "_ZTISt17bad_function_call",
    "_ZSt26__throw_bad_variant_accessPKc": "_ZTISt18bad_variant_access", "_ZSt26__throw_bad_variant_accessb": "_ZTISt18bad_variant_access",
    "_ZSt27__throw_bad_optional_accessv": "_ZTISt19bad_optional_access", "_ZSt21__throw_runtime_errorPKc": "_ZTISt13runtime_error",
    "_ZSt20__throw_domain_errorPKc": "_ZTISt12domain_error",
}
for _k, _v in STDTHROW.items():
    MODELS[_k] = (lambda ti: lambda e, st, fr, ins, a: (throw_std(e, st, ti), CONTROL)[1])(_v)


@pattern(r"^std::(out_of_range|invalid_argument|length_error|domain_error|logic_error|runtime_error|overflow_error|range_error|underflow_error|exception|bad_alloc|bad_cast|bad_variant_access|bad_optional_access|bad_function_call)::(~)?(out_of_range|invalid_argument|length_error|domain_error|logic_error|runtime_error|overflow_error|range_error|underflow_error|exception|bad_alloc|bad_cast)\(")
def std_exc(e, st, fr, ins, a):
    return a[0]


@pattern(r"^std::\w+::what\(\) const")
def std_what(e, st, fr, ins, a):
    o = e.new_obj(st, "what", 1, "global", "zero")
    return Ptr(o.id, 0)


@pattern(r"^std::uncaught_exceptions?\(\)")
def unc(e, st, fr, ins, a):
    return 0


@model("__dynamic_cast")
def dyncast(e, st, fr, ins, a):
    src, sty, dty, hint = a
    if not isinstance(src, Ptr):
        if is_c(src) and src == 0:
            return 0
        raise Unsupported("dynamic_cast of unresolved pointer")
    vp = e.load(st, src, ir.PTR)
    if not isinstance(vp, Ptr):
        raise Unsupported("dynamic_cast: unresolved vtable")
    ti = e.load(st, Ptr(vp.o, tm.add(vp.f, M(64) - 7, 64)), ir.PTR)
    top = e.load(st, Ptr(vp.o, tm.add(vp.f, M(64) - 15, 64)), ir.INT(64))
    if not isinstance(ti, Ptr):
        raise Unsupported("dynamic_cast: no typeinfo")
    dn = st.mem[dty.o].name
    off = e.base_offset(st, st.mem[ti.o].name, dn)
    if off is None:
        return 0
    return Ptr(src.o, tm.add(tm.add(src.f, top, 64), off & M(64), 64))


# ------------------------------------------------------------ math
def isq(n):
    r = math.isqrt(n)
    return r if r * r == n else None


def rsqrt(e, st, x):
    if isinstance(x, FInf):
        return x
    if is_c(x):
        if x < 0:
            return tm.fresh("sqrtneg", "R")
        a, b = isq(x.numerator), isq(x.denominator)
        if a is not None and b is not None:
            return Fraction(a, b)
        # normalise sqrt(p/q) = sqrt(p*q)/q, pull squares of small primes
        n, d = x.numerator * x.denominator, x.denominator
        if n < 10 ** 12:
            k = 1
            p = 2
            m = n
            while p * p <= m:
                while m % (p * p) == 0:
                    m //= p * p
                    k *= p
                p += 1
            return tm.r_mul(tm.mk("rsqrt", "R", Fraction(m)), Fraction(k, d))
        return tm.mk("rsqrt", "R", x)
    # square of something?
    if x.op == "rmul" and x.args[0] is x.args[1]:
        return tm.r_abs(x.args[0])
    if not e.decide(st, tm.r_le(tm.ZERO, x)):
        return tm.fresh("sqrtneg", "R")
    return tm.mk("rsqrt", "R", x)


def m1(f):
    def g(e, st, fr, ins, a):
        if a[0] is UNDEF or isinstance(a[0], FInf) and f not in (rabs, rsqrt) and f.__name__ != "<lambda>":
            return ir.NAN if a[0] is not UNDEF else UNDEF
        return f(e, st, a[0])
    return g


def rsin(e, st, x):
    if is_c(x) and x == 0:
        return Fraction(0)
    return tm.uf("sin", "R", x)


def rcos(e, st, x):
    if is_c(x) and x == 0:
        return Fraction(1)
    return tm.uf("cos", "R", x)


def rfloor(e, st, x):
    if is_c(x):
        return Fraction(math.floor(x))
    return tm.mk("floor", "R", x)


def rceil(e, st, x):
    return tm.r_neg(rfloor(e, st, tm.r_neg(x)))


def rround(e, st, x):
    if is_c(x):
        return Fraction(math.floor(abs(x) + Fraction(1, 2))) * (1 if x >= 0 else -1)
    h = Fraction(1, 2)
    return tm.r_ite(tm.r_le(tm.ZERO, x), rfloor(e, st, tm.r_add(x, h)), tm.r_neg(rfloor(e, st, tm.r_add(tm.r_neg(x), h))))


def rnear(x):
    if isinstance(x, FInf):
        return x
    if is_c(x):
        return Fraction(round(x))
    return tm.uf("nearbyint", "R", x)


def rlog2(e, st, x):
    """exact for powers of two; otherwise the nearest double (the glibc result up to rounding)"""
    if is_c(x) and x > 0:
        x = Fraction(x)
        if x.denominator == 1 and x.numerator & (x.numerator - 1) == 0:
            return Fraction(x.numerator.bit_length() - 1)
        return Fraction(math.log2(x))
    return tm.uf("log2", "R", x)


def ufr(name):
    return lambda e, st, *x: tm.uf(name, "R", *[Fraction(v) if is_c(v) else v for v in x])


def rabs(e, st, x):
    if isinstance(x, FInf):
        return FInf("inf") if x.s != "nan" else x
    return tm.r_abs(x)


MATH1 = {"sqrt": rsqrt, "fabs": rabs, "sin": rsin, "cos": rcos, "floor": rfloor, "ceil": rceil, "round": rround,
         "tan": lambda e, st, x: tm.r_div(rsin(e, st, x), rcos(e, st, x)), "exp": ufr("exp"), "log": ufr("log"),
         "acos": ufr("acos"), "asin": ufr("asin"), "atan": ufr("atan"), "log2": rlog2, "log10": ufr("log10"),
         "exp2": ufr("exp2"), "nearbyint": lambda e, st, x: rnear(x), "rint": lambda e, st, x: rnear(x), "roundeven": lambda e, st, x: rnear(x)}
for _k, _f in MATH1.items():
    MODELS[_k] = m1(_f)
    MODELS[_k + "f"] = m1(_f)
    INTRINSICS.append(("llvm." + _k + ".f", m1(_f)))


@model("atan2")
def m_atan2(e, st, fr, ins, a):
    if is_c(a[0]) and a[0] == 0 and is_c(a[1]) and a[1] > 0:
        return Fraction(0)
    return tm.uf("atan2", "R", a[0], a[1])


@model("hypot", "hypotf")
def m_hypot(e, st, fr, ins, a):
    return rsqrt(e, st, tm.r_add(tm.r_mul(a[0], a[0]), tm.r_mul(a[1], a[1])))


@model("cabs")
def m_cabs(e, st, fr, ins, a):
    return rsqrt(e, st, tm.r_add(tm.r_mul(a[0], a[0]), tm.r_mul(a[1], a[1])))


def do_pow(e, st, x, y):
    if is_c(y) and y.denominator == 1 and abs(y) <= 16:
        n = int(abs(y))
        r = Fraction(1)
        for _ in range(n):
            r = tm.r_mul(r, x)
        return r if y >= 0 else tm.r_div(Fraction(1), r)
    if is_c(y) and y == Fraction(1, 2):
        return rsqrt(e, st, x)
    return tm.uf("pow", "R", x, y)


@model("pow")
def m_pow(e, st, fr, ins, a):
    return do_pow(e, st, a[0], a[1])


@intr("llvm.pow.f")
def i_pow(e, st, fr, ins, a):
    return do_pow(e, st, a[0], a[1])


@intr("llvm.powi")
def i_powi(e, st, fr, ins, a):
    return do_pow(e, st, a[0], Fraction(tm.sgn(a[1], 32)))


@model("fmod")
def m_fmod(e, st, fr, ins, a):
    return e.fbin(st, "frem", a[0], a[1])


@model("remainder")
def m_rem(e, st, fr, ins, a):
    return tm.uf("remainder", "R", a[0], a[1])


@model("fmin")
def m_fmin(e, st, fr, ins, a):
    return tm.r_ite(tm.r_lt(a[1], a[0]), a[1], a[0])


@model("fmax")
def m_fmax(e, st, fr, ins, a):
    return tm.r_ite(tm.r_lt(a[0], a[1]), a[1], a[0])


@intr("llvm.minnum", "llvm.minimum")
def i_fmin(e, st, fr, ins, a):
    return tm.r_ite(tm.r_lt(a[1], a[0]), a[1], a[0])


@intr("llvm.maxnum", "llvm.maximum")
def i_fmax(e, st, fr, ins, a):
    return tm.r_ite(tm.r_lt(a[0], a[1]), a[1], a[0])


@intr("llvm.fmuladd", "llvm.fma")
def i_fma(e, st, fr, ins, a):
    if any(x is UNDEF for x in a):
        return UNDEF
    return e.fbin(st, "fadd", e.fbin(st, "fmul", a[0], a[1]), a[2])


@intr("llvm.copysign")
def i_copysign(e, st, fr, ins, a):
    neg = tm.r_lt(a[1], tm.ZERO)
    m_ = tm.r_abs(a[0])
    return tm.r_ite(neg, tm.r_neg(m_), m_)


@model("__muldc3")
def muldc3(e, st, fr, ins, a):
    p, q, r, s = a
    return [tm.r_sub(tm.r_mul(p, r), tm.r_mul(q, s)), tm.r_add(tm.r_mul(p, s), tm.r_mul(q, r))]


@model("__divdc3")
def divdc3(e, st, fr, ins, a):
    p, q, r, s = a
    d = tm.r_add(tm.r_mul(r, r), tm.r_mul(s, s))
    return [e.fbin(st, "fdiv", tm.r_add(tm.r_mul(p, r), tm.r_mul(q, s)), d),
            e.fbin(st, "fdiv", tm.r_sub(tm.r_mul(q, r), tm.r_mul(p, s)), d)]


@model("nextafter")
def m_nextafter(e, st, fr, ins, a):
    if is_c(a[0]) and is_c(a[1]):
        return Fraction(math.nextafter(float(a[0]), float(a[1])))
    raise Unsupported("nextafter")


# ------------------------------------------------------------ llvm intrinsics
@intr("llvm.lifetime", "llvm.dbg", "llvm.assume", "llvm.invariant", "llvm.experimental.noalias", "llvm.var.annotation",
      "llvm.prefetch", "llvm.donothing", "llvm.stackrestore", "llvm.va_")
def i_nop(e, st, fr, ins, a):
    return None


@intr("llvm.stacksave")
def i_ss(e, st, fr, ins, a):
    return 0


@intr("llvm.trap", "llvm.ubsantrap", "llvm.debugtrap")
def i_trap(e, st, fr, ins, a):
    raise MemFault("trap")


@intr("llvm.expect", "llvm.launder", "llvm.strip", "llvm.ssa.copy")
def i_first(e, st, fr, ins, a):
    return a[0]


@intr("llvm.ptrmask")
def i_ptrmask(e, st, fr, ins, a):
    return e.binop(st, "and", ir.INT(64), a[0], a[1])


@intr("llvm.is.constant")
def i_isc(e, st, fr, ins, a):
    return False


@intr("llvm.objectsize")
def i_objsize(e, st, fr, ins, a):
    return M(64)


@intr("llvm.is.fpclass")
def i_fpclass(e, st, fr, ins, a):
    x, mask = a
    if x is UNDEF:
        return UNDEF
    if isinstance(x, FInf):
        b = {"inf": 0x200, "-inf": 0x4, "nan": 0x3}[x.s]
        return bool(mask & b)
    fin = mask & 0x1f8
    if fin == 0:
        return False
    if fin == 0x1f8:
        return True
    zero = (mask & 0x60) == 0x60
    pos = (mask & 0x180) == 0x180
    neg = (mask & 0x18) == 0x18
    r = False
    if zero:
        r = tm.b_or(r, tm.r_eq(x, tm.ZERO))
    if pos:
        r = tm.b_or(r, tm.r_lt(tm.ZERO, x))
    if neg:
        r = tm.b_or(r, tm.r_lt(x, tm.ZERO))
    return r


def wof(ins):
    return ins.ty.w


def iw(name_w):
    return name_w


def mm(fn):
    def g(e, st, fr, ins, a):
        if a[0] is UNDEF or a[1] is UNDEF:
            return UNDEF
        x, y = e.toint(st, a[0]), e.toint(st, a[1])
        return fn(x, y, ins.ty.w)
    return g


INTRINSICS += [("llvm.umin", mm(lambda a, b, w: tm.ite(tm.ult(a, b, w), a, b, w))),
               ("llvm.umax", mm(lambda a, b, w: tm.ite(tm.ult(a, b, w), b, a, w))),
               ("llvm.smin", mm(lambda a, b, w: tm.ite(tm.slt(a, b, w), a, b, w))),
               ("llvm.smax", mm(lambda a, b, w: tm.ite(tm.slt(a, b, w), b, a, w))),
               ("llvm.usub.sat", mm(lambda a, b, w: tm.ite(tm.ult(a, b, w), 0, tm.sub(a, b, w), w))),
               ("llvm.uadd.sat", mm(lambda a, b, w: tm.ite(tm.ult(tm.add(a, b, w), a, w), M(w), tm.add(a, b, w), w)))]


@intr("llvm.abs")
def i_abs(e, st, fr, ins, a):
    w = ins.ty.w
    return tm.ite(tm.slt(a[0], 0, w), tm.neg(a[0], w), a[0], w)


def ovf(name):
    def g(e, st, fr, ins, a):
        x, y = e.toint(st, a[0]), e.toint(st, a[1])
        w = e.m.resolve(ins.ty).el[0].w
        if name == "uadd":
            r = tm.add(x, y, w)
            o = tm.ult(r, x, w)
        elif name == "usub":
            r = tm.sub(x, y, w)
            o = tm.ult(x, y, w)
        elif name == "umul":
            r = tm.mul(x, y, w)
            p = tm.mul(tm.zext(x, w, 2 * w), tm.zext(y, w, 2 * w), 2 * w)
            o = tm.b_not(tm.eq(p, tm.zext(r, w, 2 * w), 2 * w))
        else:
            op = {"sadd": tm.add, "ssub": tm.sub, "smul": tm.mul}[name]
            r = op(x, y, w)
            p = op(tm.sext(x, w, 2 * w), tm.sext(y, w, 2 * w), 2 * w)
            o = tm.b_not(tm.eq(p, tm.sext(r, w, 2 * w), 2 * w))
        return [r, o]
    return g


for _k in ("uadd", "usub", "umul", "sadd", "ssub", "smul"):
    INTRINSICS.append(("llvm." + _k + ".with.overflow", ovf(_k)))


@intr("llvm.ctpop")
def i_ctpop(e, st, fr, ins, a):
    w = ins.ty.w
    x = e.toint(st, a[0])
    if is_c(x):
        return bin(x).count("1")
    r = 0
    for i in range(w):
        r = tm.add(r, tm.zext(tm.extract(x, i, i, w), 1, w), w)
    return r


@intr("llvm.ctlz")
def i_ctlz(e, st, fr, ins, a):
    w = ins.ty.w
    x = e.toint(st, a[0])
    if is_c(x):
        return w - x.bit_length()
    r = w
    for i in range(w):
        r = tm.ite(tm.eq(tm.extract(x, i, i, w), 1, 1), w - 1 - i, r, w)
    return r


@intr("llvm.cttz")
def i_cttz(e, st, fr, ins, a):
    w = ins.ty.w
    x = e.toint(st, a[0])
    if is_c(x):
        return (x & -x).bit_length() - 1 if x else w
    r = w
    for i in range(w - 1, -1, -1):
        r = tm.ite(tm.eq(tm.extract(x, i, i, w), 1, 1), i, r, w)
    return r


@intr("llvm.bswap")
def i_bswap(e, st, fr, ins, a):
    w = ins.ty.w
    if is_c(a[0]):
        return int.from_bytes(a[0].to_bytes(w // 8, "little"), "big")
    raise Unsupported("bswap")


@intr("llvm.fshl")
def i_fshl(e, st, fr, ins, a):
    w = ins.ty.w
    s = a[2]
    if not is_c(s):
        raise Unsupported("fshl")
    s %= w
    if s == 0:
        return a[0]
    return tm.bor(tm.shl(a[0], s, w), tm.lshr(a[1], w - s, w), w)


@intr("llvm.fshr")
def i_fshr(e, st, fr, ins, a):
    w = ins.ty.w
    s = a[2]
    if not is_c(s):
        raise Unsupported("fshr")
    s %= w
    if s == 0:
        return a[1]
    return tm.bor(tm.shl(a[0], w - s, w), tm.lshr(a[1], s, w), w)


# ------------------------------------------------------------ library: hashing
@model("_ZSt11_Hash_bytesPKvmm", "_ZSt15_Fnv_hash_bytesPKvmm")
def hash_bytes(e, st, fr, ins, a):
    n = conc(e, st, a[1])
    bs = []
    oid, off = e.locate(st, a[0], n, "read") if n else (None, 0)
    symb = False
    for i in range(n):
        b = e.byte(st, oid, off + i)
        if b is UNDEF:
            raise Unsupported("hash of undefined bytes")
        if isinstance(b, (T, tuple)):
            symb = True
        bs.append(b)
    if not symb:
        return int.from_bytes(hashlib.md5(bytes(bs)).digest()[:8], "little")
    if n == 8:
        c = st.mem[oid].cells.get(off)
        v = e.read(st, oid, off, 8, "i")
        v = e.toint(st, v)
        return tm.uf("hash8", 64, v)
    w = bs[0]
    k = 8
    for b in bs[1:]:
        w = tm.concat(b, w, 8, k)
        k += 8
    return tm.uf("hashN%d" % n, 64, w)


PRIMES = [2, 3, 5, 7, 11, 13, 17, 23, 29, 37, 47, 59, 73, 97, 127, 151, 197, 251, 313, 397, 499, 631, 797, 1009, 1259, 1597, 2011,
          2539, 3203, 4027, 5087, 6421, 8089, 10193, 12853, 16193, 20399, 25717, 32401, 40823]


@model("_ZNKSt8__detail20_Prime_rehash_policy11_M_next_bktEm")
def next_bkt(e, st, fr, ins, a):
    n = conc(e, st, a[1])
    if n == 0:
        return 1
    for p in PRIMES:
        if p >= n:
            e.store(st, e.padd(st, a[0], 8), ir.INT(64), p)
            return p
    raise Unsupported("hash table too big")


@model("_ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm")
def need_rehash(e, st, fr, ins, a):
    nb, ne, ni = conc(e, st, a[1]), conc(e, st, a[2]), conc(e, st, a[3])
    if ne + ni > nb or (nb == 1 and ne + ni >= 1 and ne == 0):
        for p in PRIMES:
            if p >= max(ne + ni, 2 * nb, 11):
                return [1 if e.m.resolve(ins.ty).el[0].w > 1 else True, p]
        raise Unsupported("hash table too big")
    return [0 if e.m.resolve(ins.ty).el[0].w > 1 else False, 0]


# ------------------------------------------------------------ streams etc. (no effect)
def empty_string(e, st, p):
    e.store(st, p, ir.PTR, Ptr(p.o, tm.add(p.f, 16, 64)))
    e.store(st, e.padd(st, p, 8), ir.INT(64), 0)
    e.store(st, e.padd(st, p, 16), ir.INT(8), 0)


@pattern(r"basic_(o|i|)stringstream<.*>::str\(\) const")
def ss_str(e, st, fr, ins, a):
    empty_string(e, st, a[0])
    return None


@pattern(r"^(std::basic_ostream<.*>& )?std::(__cxx11::)?(basic_ostream|basic_ostringstream|basic_stringstream|basic_ofstream|basic_ios|ios_base|locale)\b.*(::|\()")
def stream_nop(e, st, fr, ins, a):
    if "stream" not in e.dm.get("", "") and len(a) == 0:
        return 0
    return a[0] if a else 0


@pattern(r"^(std::basic_ostream<.*>& )?std::(operator<<|endl|flush|__ostream_insert|ends)")
def stream_out(e, st, fr, ins, a):
    return a[0]


# the state of a random engine is left as it is: reading from one is not supported, so nothing depends on it
@pattern(r"^(void )?std::mersenne_twister_engine<.*>::(seed\(unsigned long\)|mersenne_twister_engine\()")
def rnd_seed(e, st, fr, ins, a):
    return None


@pattern(r"^std::(random_device|mersenne_twister_engine)")
def rnd(e, st, fr, ins, a):
    raise Unsupported("random engine")


@model("_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev")
def ios_init(e, st, fr, ins, a):
    return None


@model("_ZNSt6chrono3_V212system_clock3nowEv", "_ZNSt6chrono3_V212steady_clock3nowEv")
def clock_now(e, st, fr, ins, a):
    return tm.fresh("clock", 64)


@pattern(r"^std::_V2::(generic|system)_category")
def cat(e, st, fr, ins, a):
    return 0
