"""z3 back end: translation, incremental solver with independence slicing."""
import time
import z3
from fractions import Fraction
from . import term as tm
from .term import T, is_c

_memo = {}
_ufs = {}
STATS = {"queries": 0, "time": 0.0, "sat": 0, "unsat": 0, "unknown": 0, "cache": 0}


def zsort(s):
    if s == "B":
        return z3.BoolSort()
    if s == "R":
        return z3.RealSort()
    return z3.BitVecSort(s)


def zc(v, s):
    if s == "B":
        return z3.BoolVal(bool(v))
    if s == "R":
        v = Fraction(v)
        return z3.RealVal("%d/%d" % (v.numerator, v.denominator))
    return z3.BitVecVal(v, s)


def argsort(t, i):
    a = t.args[i]
    if isinstance(a, T):
        return a.sort
    if isinstance(a, bool):
        return "B"
    if isinstance(a, Fraction):
        return "R"
    return None


def to_z3(t, s=None):
    if is_c(t):
        return zc(t, s)
    r = _memo.get(t.id)
    if r is not None:
        return r
    st = [t]
    while st:
        u = st[-1]
        if u.id in _memo:
            st.pop()
            continue
        todo = [a for a in u.args if isinstance(a, T) and a.id not in _memo]
        if todo:
            st.extend(todo)
            continue
        _memo[u.id] = _tr(u)
        st.pop()
    return _memo[t.id]


def _g(u, i, s):
    a = u.args[i]
    return _memo[a.id] if isinstance(a, T) else zc(a, s)


def _tr(u):
    o, s = u.op, u.sort
    if o == "sym":
        return z3.Const(u.args[0], zsort(s))
    if s == "B" and o in ("not", "and", "or", "xor"):
        a = [_g(u, i, "B") for i in range(len(u.args))]
        if o == "not": return z3.Not(a[0])
        if o == "and": return z3.And(*a)
        if o == "or": return z3.Or(*a)
        return z3.Xor(*a)
    if o in ("eq", "ult", "ule", "slt", "sle"):
        w = tm.width_of(u.args[0], u.args[1])
        a, b = _g(u, 0, w), _g(u, 1, w)
        if o == "eq": return a == b
        if o == "ult": return z3.ULT(a, b)
        if o == "ule": return z3.ULE(a, b)
        if o == "slt": return a < b
        return a <= b
    if o in ("req", "rlt", "rle"):
        a, b = _g(u, 0, "R"), _g(u, 1, "R")
        return {"req": lambda: a == b, "rlt": lambda: a < b, "rle": lambda: a <= b}[o]()
    if o == "zext":
        a = _memo[u.args[0].id]
        return z3.ZeroExt(s - u.args[0].sort, a)
    if o == "sext":
        return z3.SignExt(s - u.args[0].sort, _memo[u.args[0].id])
    if o == "extract":
        return z3.Extract(u.args[1], u.args[2], _memo[u.args[0].id])
    if o == "concat":
        wh = u.args[0].sort if isinstance(u.args[0], T) else s - u.args[1].sort
        return z3.Concat(_g(u, 0, wh), _g(u, 1, s - wh))
    if o == "ite" or o == "rite":
        return z3.If(_g(u, 0, "B"), _g(u, 1, s), _g(u, 2, s))
    if isinstance(s, int) and o in ("add", "mul", "udiv", "urem", "sdiv", "srem", "and", "or", "bxor", "shl", "lshr", "ashr"):
        a, b = _g(u, 0, s), _g(u, 1, s)
        if o == "add": return a + b
        if o == "mul": return a * b
        if o == "udiv": return z3.UDiv(a, b)
        if o == "urem": return z3.URem(a, b)
        if o == "sdiv": return a / b
        if o == "srem": return z3.SRem(a, b)
        if o == "and": return a & b
        if o == "or": return a | b
        if o == "bxor": return a ^ b
        if o == "shl": return a << b
        if o == "lshr": return z3.LShR(a, b)
        return a >> b
    if o == "radd": return _g(u, 0, "R") + _g(u, 1, "R")
    if o == "rmul": return _g(u, 0, "R") * _g(u, 1, "R")
    if o == "rdiv": return _g(u, 0, "R") / _g(u, 1, "R")
    if o == "rabs":
        a = _g(u, 0, "R")
        return z3.If(a >= 0, a, -a)
    if o == "u2r":
        return z3.ToReal(z3.BV2Int(_memo[u.args[0].id], False))
    if o == "s2r":
        return z3.ToReal(z3.BV2Int(_memo[u.args[0].id], True))
    if o == "floor":
        return z3.ToReal(z3.ToInt(_g(u, 0, "R")))
    # uninterpreted
    sorts = []
    args = []
    for i, a in enumerate(u.args):
        if isinstance(a, T):
            sorts.append(zsort(a.sort)); args.append(_memo[a.id])
        elif isinstance(a, bool):
            sorts.append(z3.BoolSort()); args.append(z3.BoolVal(a))
        elif isinstance(a, Fraction):
            sorts.append(z3.RealSort()); args.append(zc(a, "R"))
        else:
            # width given by convention: 64
            sorts.append(z3.BitVecSort(64)); args.append(z3.BitVecVal(a, 64))
    key = (o, tuple(str(x) for x in sorts), str(s))
    f = _ufs.get(key)
    if f is None:
        f = z3.Function(o + "#" + str(len(_ufs)), *sorts, zsort(s))
        _ufs[key] = f
    return f(*args)


def side_axioms(ts):
    """axioms for interpreted atoms: sqrt, PI, bounded trig"""
    out = []
    seen = set()
    st = [t for t in ts if isinstance(t, T)]
    near, toint = [], {}
    addrs = []
    while st:
        u = st.pop()
        if u.id in seen:
            continue
        seen.add(u.id)
        if u.op == "uf:nearbyint":
            near.append(u)
        elif u.op in ("uf:fptosi", "uf:fptoui"):
            toint.setdefault((u.op, u.sort), []).append(u)
        if u.op == "rsqrt":
            x = to_z3(u)
            a = to_z3(u.args[0], "R")
            out.append(z3.Implies(a >= 0, z3.And(x >= 0, x * x == a)))
        elif u.op == "sym" and u.args[0] == "PI":
            p = to_z3(u)
            out.append(z3.And(p > z3.RealVal("31415926535897932/10000000000000000"),
                              p < z3.RealVal("31415926535897933/10000000000000000")))
        elif u.op == "uf:sin":
            c = tm.uf("cos", "R", u.args[0])
            x, y = to_z3(u), to_z3(c)
            out.append(x * x + y * y == 1)
        elif u.op == "uf:cos":
            c = tm.uf("sin", "R", u.args[0])
            x, y = to_z3(c), to_z3(u)
            out.append(x * x + y * y == 1)
        elif u.op == "sym" and u.args[0].startswith("addr"):
            addrs.append(u)
        for a in u.args:
            if isinstance(a, T):
                st.append(a)
    # objects: aligned, non-null, disjoint
    for i, u in enumerate(addrs):
        x = to_z3(u)
        out.append(z3.And(z3.Extract(3, 0, x) == 0, z3.UGE(x, 4096), z3.ULT(x, 1 << 56)))
        if u.args[0].startswith("addrC") and i < 8:
            for v in addrs[:i]:
                if v.args[0].startswith("addrC"):
                    y = to_z3(v)
                    su, sv = int(u.args[0].split("!")[2]), int(v.args[0].split("!")[2])
                    out.append(z3.Or(z3.UGE(y, x + su), z3.UGE(x, y + sv)))
    # rounding: an integer at distance <= 1/2, monotone
    for u in near:
        x, n = to_z3(u.args[0], "R"), to_z3(u)
        out.append(z3.And(n - x <= z3.RealVal("1/2"), x - n <= z3.RealVal("1/2"), z3.IsInt(n)))
    for i, u in enumerate(near[:14]):
        for v in near[:i]:
            x, y, n, m = to_z3(u.args[0], "R"), to_z3(v.args[0], "R"), to_z3(u), to_z3(v)
            out.append(z3.And(z3.Implies(x <= y, n <= m), z3.Implies(y <= x, m <= n)))
    # float -> int conversion inside the representable range: monotone, truncating towards zero
    for (op, w), us in toint.items():
        if not isinstance(w, int):
            continue
        sg = op == "uf:fptosi"
        lim = z3.RealVal(2 ** (w - 1) if sg else 2 ** w)
        rng = lambda x: z3.And(x > -lim if sg else x > -1, x < lim)
        for u in us:
            x, n = to_z3(u.args[0], "R"), to_z3(u)
            out.append(z3.Implies(z3.And(x >= 0, rng(x)), n >= 0 if sg else z3.BoolVal(True)))
            out.append(z3.Implies(z3.And(x > -1, x < 1), n == 0))
        for i, u in enumerate(us[:14]):
            for v in us[:i]:
                x, y, n, m = to_z3(u.args[0], "R"), to_z3(v.args[0], "R"), to_z3(u), to_z3(v)
                le = (lambda p, q: p <= q) if sg else z3.ULE
                out.append(z3.Implies(z3.And(x <= y, rng(x), rng(y)), le(n, m)))
                out.append(z3.Implies(z3.And(y <= x, rng(x), rng(y)), le(m, n)))
    return out


def relevant(pcs, goals):
    """independence slicing: constraints transitively sharing symbols with goals"""
    need = set()
    for g in goals:
        need |= tm.syms(g)
    pending = [(p, tm.syms(p)) for p in pcs if isinstance(p, T)]
    out = []
    changed = True
    while changed and pending:
        changed = False
        rest = []
        for p, s in pending:
            if s & need:
                out.append(p)
                if not s <= need:
                    need |= s
                changed = True
            else:
                rest.append((p, s))
        pending = rest
    return out


_cache = {}


def check(pcs, extra=(), timeout=4000, want_model=False, slice_=True, solver="z3"):
    """satisfiability of pcs + extra. returns ('sat'|'unsat'|'unknown', model)"""
    for e in list(extra) + list(pcs):
        if is_c(e) and not e:
            return "unsat", None
    extra = [e for e in extra if isinstance(e, T)]
    if slice_ and extra:
        cs = relevant(pcs, extra)
    else:
        cs = [p for p in pcs if isinstance(p, T)]
    allc = cs + extra
    if not allc:
        return "sat", None
    key = (frozenset(c.id for c in allc), timeout)
    if not want_model and key in _cache:
        STATS["cache"] += 1
        return _cache[key], None
    t0 = time.time()
    STATS["queries"] += 1
    s = z3.Solver()
    s.set("timeout", timeout)
    for c in allc:
        s.add(to_z3(c))
    for a in side_axioms(allc):
        s.add(a)
    r = s.check()
    STATS["time"] += time.time() - t0
    res = "sat" if r == z3.sat else ("unsat" if r == z3.unsat else "unknown")
    STATS[res] += 1
    _cache[key] = res
    m = None
    if res == "sat" and want_model:
        m = s.model()
    return res, m


def smt2(pcs, extra):
    s = z3.Solver()
    cs = [p for p in list(pcs) + list(extra) if isinstance(p, T)]
    for c in cs:
        s.add(to_z3(c))
    for a in side_axioms(cs):
        s.add(a)
    return s.to_smt2()
