"""Hash-consed terms with local simplification.

Sorts: 'B' (bool), 'R' (real), int n (bit vector of width n).
Constants are represented by Python values: bool for 'B', int (unsigned,
already truncated) for bit vectors and fractions.Fraction for reals.
Everything else is a T node.
"""
from fractions import Fraction

_tab = {}
_cnt = [0]


class T:
    __slots__ = ("op", "args", "sort", "id", "_h", "_lin", "_poly", "_syms")

    def __repr__(self):
        return show(self)


def show(t, d=0):
    if not isinstance(t, T):
        return str(t)
    if t.op == "sym":
        return t.args[0]
    if d > 6:
        return "..."
    return "(" + t.op + " " + " ".join(show(a, d + 1) for a in t.args) + ")"


def _key(a):
    if isinstance(a, T):
        return ("t", a.id)
    return (type(a).__name__, a)


def mk(op, sort, *args):
    k = (op, sort, tuple([a.id if isinstance(a, T) else ("c", type(a), a) for a in args]))
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.sort = sort
        t._lin = None
        t._poly = None
        t._syms = None
        _cnt[0] += 1
        t.id = _cnt[0]
        _tab[k] = t
    return t


_fresh = [0]


def sym(name, sort):
    return mk("sym", sort, name)


def fresh(name, sort):
    _fresh[0] += 1
    return mk("sym", sort, "%s!%d" % (name, _fresh[0]))


def is_c(x):
    return not isinstance(x, T)


def M(w):
    return (1 << w) - 1


def sgn(x, w):
    return x - (1 << w) if x >> (w - 1) else x


# ---------------------------------------------------------------- booleans
def b_not(a):
    if is_c(a):
        return not a
    if a.op == "not":
        return a.args[0]
    # NB: comparison flips keep reals total
    if a.op == "rlt":
        return r_le(a.args[1], a.args[0])
    if a.op == "rle":
        return r_lt(a.args[1], a.args[0])
    if a.op == "ult":
        return mk("ule", "B", a.args[1], a.args[0])
    if a.op == "ule":
        return mk("ult", "B", a.args[1], a.args[0])
    if a.op == "slt":
        return mk("sle", "B", a.args[1], a.args[0])
    if a.op == "sle":
        return mk("slt", "B", a.args[1], a.args[0])
    return mk("not", "B", a)


def b_and(a, b):
    if is_c(a):
        return b if a else False
    if is_c(b):
        return a if b else False
    if a is b:
        return a
    if b_not(a) is b:
        return False
    if a.id > b.id:
        a, b = b, a
    return mk("and", "B", a, b)


def b_or(a, b):
    if is_c(a):
        return True if a else b
    if is_c(b):
        return True if b else a
    if a is b:
        return a
    if b_not(a) is b:
        return True
    if a.id > b.id:
        a, b = b, a
    return mk("or", "B", a, b)


def b_xor(a, b):
    if is_c(a):
        return b_not(b) if a else b
    if is_c(b):
        return b_not(a) if b else a
    if a is b:
        return False
    return mk("xor", "B", *sorted((a, b), key=lambda t: t.id))


def b_eq(a, b):
    return b_not(b_xor(a, b))


def b_ite(c, a, b):
    return b_or(b_and(c, a), b_and(b_not(c), b))


def implies(a, b):
    return b_or(b_not(a), b)


# ---------------------------------------------------------------- bitvectors
def width_of(a, b=None):
    if isinstance(a, T):
        return a.sort
    if isinstance(b, T):
        return b.sort
    return None


# linear form: (const, {term: coef}) modulo 2^w
def lin(t, w):
    if is_c(t):
        return (t, {})
    if t._lin is not None:
        return t._lin
    o = t.op
    if o == "add":
        c1, m1 = lin(t.args[0], w)
        c2, m2 = lin(t.args[1], w)
        m = dict(m1)
        for k, v in m2.items():
            nv = (m.get(k, 0) + v) & M(w)
            if nv:
                m[k] = nv
            else:
                m.pop(k, None)
        r = ((c1 + c2) & M(w), m)
    elif o == "mul" and is_c(t.args[1]):
        c1, m1 = lin(t.args[0], w)
        k0 = t.args[1]
        m = {}
        for k, v in m1.items():
            nv = (v * k0) & M(w)
            if nv:
                m[k] = nv
        r = ((c1 * k0) & M(w), m)
    else:
        r = (0, {t: 1})
    t._lin = r
    return r


def from_lin(c, m, w):
    r = None
    for k in sorted(m, key=lambda t: t.id):
        v = m[k]
        term = k if v == 1 else mk("mul", w, k, v)
        r = term if r is None else mk("add", w, r, term)
    if r is None:
        return c
    if c:
        r = mk("add", w, r, c)
    r._lin = (c, m)
    return r


def add(a, b, w):
    if is_c(a) and is_c(b):
        return (a + b) & M(w)
    if is_c(b) and b == 0:
        return a
    if is_c(a) and a == 0:
        return b
    c1, m1 = lin(a, w)
    c2, m2 = lin(b, w)
    m = dict(m1)
    for k, v in m2.items():
        nv = (m.get(k, 0) + v) & M(w)
        if nv:
            m[k] = nv
        else:
            m.pop(k, None)
    return from_lin((c1 + c2) & M(w), m, w)


def neg(a, w):
    return mul(a, M(w), w)


def sub(a, b, w):
    if is_c(a) and is_c(b):
        return (a - b) & M(w)
    return add(a, neg(b, w), w)


def mul(a, b, w):
    if is_c(a) and is_c(b):
        return (a * b) & M(w)
    if is_c(a):
        a, b = b, a
    if is_c(b):
        if b == 0:
            return 0
        if b == 1:
            return a
        c1, m1 = lin(a, w)
        m = {}
        for k, v in m1.items():
            nv = (v * b) & M(w)
            if nv:
                m[k] = nv
        return from_lin((c1 * b) & M(w), m, w)
    if a.id > b.id:
        a, b = b, a
    return mk("mul", w, a, b)


def udiv(a, b, w):
    if is_c(a) and is_c(b) and b:
        return a // b
    if is_c(b):
        if b == 1:
            return a
        if b and b & (b - 1) == 0:
            return lshr(a, b.bit_length() - 1, w)
    return mk("udiv", w, a, b)


def urem(a, b, w):
    if is_c(a) and is_c(b) and b:
        return a % b
    if is_c(b) and b and b & (b - 1) == 0:
        return band(a, b - 1, w)
    return mk("urem", w, a, b)


def sdiv(a, b, w):
    if is_c(a) and is_c(b) and b:
        x, y = sgn(a, w), sgn(b, w)
        q = abs(x) // abs(y)
        return (q if (x < 0) == (y < 0) else -q) & M(w)
    if is_c(b) and b == 1:
        return a
    return mk("sdiv", w, a, b)


def srem(a, b, w):
    if is_c(a) and is_c(b) and b:
        x, y = sgn(a, w), sgn(b, w)
        r = abs(x) % abs(y)
        return (-r if x < 0 else r) & M(w)
    return mk("srem", w, a, b)


def known_zero(t, w):
    """mask of bits known to be zero"""
    if is_c(t):
        return M(w) & ~t
    o = t.op
    if o == "zext":
        iw = t.args[0].sort
        return (M(w) & ~M(iw)) | known_zero(t.args[0], iw)
    if o == "ite":
        return known_zero(t.args[1], w) & known_zero(t.args[2], w)
    if o == "and":
        return known_zero(t.args[0], w) | known_zero(t.args[1], w)
    if o == "or" or o == "bxor":
        return known_zero(t.args[0], w) & known_zero(t.args[1], w)
    if o == "shl" and is_c(t.args[1]):
        s = t.args[1]
        return ((known_zero(t.args[0], w) << s) | M(min(s, w))) & M(w)
    if o == "lshr" and is_c(t.args[1]):
        s = min(t.args[1], w)
        return (known_zero(t.args[0], w) >> s) | (M(w) & ~(M(w) >> s))
    if o == "sym" and t.args[0].startswith("addr"):
        return 15
    if o in ("add", "mul"):
        # low zero bits only
        c, m = lin(t, w)
        tz = w
        if c:
            tz = (c & -c).bit_length() - 1
        for k, v in m.items():
            z = (v & -v).bit_length() - 1
            if not (k.op == t.op and k is t):
                kz = known_zero(k, w) if k is not t else 0
                n = 0
                while n < w and (kz >> n) & 1:
                    n += 1
                z += n
            tz = min(tz, z)
        return M(tz) if tz > 0 else 0
    return 0


def _flag(t):
    """t as a boolean if it is ite(c, 1, 0) / ite(c, 0, 1)"""
    if isinstance(t, T) and t.op == "ite" and is_c(t.args[1]) and is_c(t.args[2]):
        if (t.args[1], t.args[2]) == (1, 0):
            return t.args[0]
        if (t.args[1], t.args[2]) == (0, 1):
            return b_not(t.args[0])
    return None


def band(a, b, w):
    if w == 1:
        raise ValueError
    fa, fb = _flag(a), _flag(b)
    if fa is not None and fb is not None:
        return ite(b_and(fa, fb), 1, 0, w)
    if is_c(a) and is_c(b):
        return a & b
    if is_c(a):
        a, b = b, a
    if is_c(b):
        if b == 0:
            return 0
        kz = known_zero(a, w)
        if (M(w) & ~b) & ~kz == 0:
            return a
        if b & ~kz & M(w) == 0:
            return 0
        if a.op == "and" and is_c(a.args[1]):
            return band(a.args[0], a.args[1] & b, w)
        if a.op == "ite" and (is_c(a.args[1]) or is_c(a.args[2])):
            return ite(a.args[0], band(a.args[1], b, w), band(a.args[2], b, w), w)
        return mk("and", w, a, b)
    if a is b:
        return a
    if a.id > b.id:
        a, b = b, a
    return mk("and", w, a, b)


def bor(a, b, w):
    fa, fb = _flag(a), _flag(b)
    if fa is not None and fb is not None:
        return ite(b_or(fa, fb), 1, 0, w)
    if is_c(a) and is_c(b):
        return a | b
    if is_c(a):
        a, b = b, a
    if is_c(b):
        if b == 0:
            return a
        if b == M(w):
            return b
        if known_zero(a, w) & b == b and b:
            # disjoint constant: keep as or
            pass
        return mk("or", w, a, b)
    if a is b:
        return a
    if a.id > b.id:
        a, b = b, a
    return mk("or", w, a, b)


def bxor(a, b, w):
    if is_c(a) and is_c(b):
        return a ^ b
    if is_c(a):
        a, b = b, a
    if is_c(b):
        if b == 0:
            return a
        if a.op == "bxor" and is_c(a.args[1]):
            return bxor(a.args[0], a.args[1] ^ b, w)
        return mk("bxor", w, a, b)
    if a is b:
        return 0
    if a.id > b.id:
        a, b = b, a
    return mk("bxor", w, a, b)


def shl(a, b, w):
    if is_c(b):
        if b >= w:
            return 0
        if is_c(a):
            return (a << b) & M(w)
        if b == 0:
            return a
        return mul(a, 1 << b, w)
    if is_c(a) and a == 0:
        return 0
    return mk("shl", w, a, b)


def lshr(a, b, w):
    if is_c(b):
        if b >= w:
            return 0
        if is_c(a):
            return a >> b
        if b == 0:
            return a
        if a.op == "lshr" and is_c(a.args[1]):
            return lshr(a.args[0], a.args[1] + b, w)
        if a.op == "zext" and b >= a.args[0].sort:
            return 0
        if a.op == "ite" and is_c(a.args[1]) and is_c(a.args[2]):
            return ite(a.args[0], lshr(a.args[1], b, w), lshr(a.args[2], b, w), w)
    if is_c(a) and a == 0:
        return 0
    return mk("lshr", w, a, b)


def ashr(a, b, w):
    if is_c(b):
        if is_c(a):
            return (sgn(a, w) >> min(b, w - 1)) & M(w)
        if b == 0:
            return a
    return mk("ashr", w, a, b)


def zext(a, w0, w1):
    if w0 == w1:
        return a
    if is_c(a):
        return a
    if a.op == "zext":
        return mk("zext", w1, a.args[0])
    if a.op == "ite" and is_c(a.args[1]) and is_c(a.args[2]):
        return ite(a.args[0], a.args[1], a.args[2], w1)
    return mk("zext", w1, a)


def sext(a, w0, w1):
    if w0 == w1:
        return a
    if is_c(a):
        return sgn(a, w0) & M(w1)
    if a.op == "zext":
        return mk("zext", w1, a.args[0])
    if a.op == "ite" and is_c(a.args[1]) and is_c(a.args[2]):
        return ite(a.args[0], sext(a.args[1], w0, w1), sext(a.args[2], w0, w1), w1)
    return mk("sext", w1, a)


def extract(a, hi, lo, w):
    """bits hi..lo of a (width w)"""
    if is_c(a):
        return (a >> lo) & M(hi - lo + 1)
    n = hi - lo + 1
    if n == w:
        return a
    o = a.op
    if o in ("zext", "sext"):
        iw = a.args[0].sort
        if hi < iw:
            return extract(a.args[0], hi, lo, iw)
        if o == "zext" and lo >= iw:
            return 0
        if lo == 0 and hi >= iw:
            return (zext if o == "zext" else sext)(a.args[0], iw, n)
    if o == "extract":
        return extract(a.args[0], hi + a.args[2], lo + a.args[2], a.args[0].sort)
    if o == "concat":
        lw = width_of(a.args[1]) or a_lowwidth(a)
        if hi < lw:
            return extract(a.args[1], hi, lo, lw)
        if lo >= lw:
            return extract(a.args[0], hi - lw, lo - lw, w - lw)
    if o == "ite" and (is_c(a.args[1]) or is_c(a.args[2])):
        return ite(a.args[0], extract(a.args[1], hi, lo, w), extract(a.args[2], hi, lo, w), n)
    if lo == 0 and o in ("add",):
        c, m = lin(a, w)
        r = c & M(n)
        for k, v in m.items():
            r = add(r, mul(extract(k, hi, 0, w), v & M(n), n), n)
        return r
    if o in ("add", "mul"):  # monomials that only influence the bits above hi
        c, m = lin(a, w)
        if all(v & M(hi + 1) == 0 for v in m.values()):
            return (c & M(hi + 1)) >> lo
    return mk("extract", n, a, hi, lo)


def a_lowwidth(a):
    # concat(hi, lo) where lo is a constant: width = total - width(hi)
    return a.sort - a.args[0].sort


def concat(h, l, wh, wl):
    if is_c(h) and is_c(l):
        return (h << wl) | l
    if is_c(h) and h == 0:
        return zext(l, wl, wh + wl)
    if isinstance(h, T) and isinstance(l, T) and h.op == "extract" and l.op == "extract" \
            and h.args[0] is l.args[0] and h.args[2] == l.args[1] + 1:
        return extract(h.args[0], h.args[1], l.args[2], h.args[0].sort)
    if isinstance(h, T) and h.op == "extract" and h.args[0] is l and h.args[2] == wl:
        pass
    if is_c(l) and is_c(h):
        return (h << wl) | l
    if is_c(l):
        return add(mul(zext(h, wh, wh + wl), 1 << wl, wh + wl), l, wh + wl)
    if is_c(h):
        return bor(zext(l, wl, wh + wl), h << wl, wh + wl)
    return mk("concat", wh + wl, h, l)


def ite(c, a, b, w):
    if is_c(c):
        return a if c else b
    if a is b or (is_c(a) and is_c(b) and a == b):
        return a
    if c.op == "not":
        return ite(c.args[0], b, a, w)
    return mk("ite", w, c, a, b)


def eq(a, b, w):
    if is_c(a) and is_c(b):
        return a == b
    if a is b:
        return True
    if is_c(a):
        a, b = b, a
    if is_c(b):
        if a.op == "ite":
            x, y = a.args[1], a.args[2]
            if is_c(x) and is_c(y):
                if x == b:
                    return True if y == b else a.args[0]
                return b_not(a.args[0]) if y == b else False
            if is_c(x) or is_c(y):
                return b_ite(a.args[0], eq(x, b, w), eq(y, b, w))
        if a.op == "zext":
            iw = a.args[0].sort
            if b >> iw:
                return False
            return eq(a.args[0], b, iw)
        if a.op == "sext":
            iw = a.args[0].sort
            lo = b & M(iw)
            if (sgn(lo, iw) & M(w)) != b:
                return False
            return eq(a.args[0], lo, iw)
        if b & known_zero(a, w):
            return False
        if a.op == "bxor" and is_c(a.args[1]):
            return eq(a.args[0], a.args[1] ^ b, w)
    c1, m1 = lin(a, w)
    c2, m2 = lin(b, w)
    if m1 == m2:
        return c1 == c2
    # move everything to a canonical form: keep const on right
    m = dict(m1)
    for k, v in m2.items():
        nv = (m.get(k, 0) - v) & M(w)
        if nv:
            m[k] = nv
        else:
            m.pop(k, None)
    c = (c2 - c1) & M(w)
    if len(m) == 1:
        (k, v), = m.items()
        if v == 1:
            if is_c(b) and k is a and c == b:
                return mk("eq", "B", k, c)
            return eq(k, c, w) if k is not a else mk("eq", "B", k, c)
        if v == M(w):
            c = (-c) & M(w)
            return mk("eq", "B", k, c) if k.op not in ("zext", "ite", "sext", "bxor") else eq(k, c, w)
        # odd coefficient is invertible
        if v & 1:
            inv = pow(v, -1, 1 << w)
            return eq(k, (c * inv) & M(w), w)
    if not is_c(b) and len(m) == 2 and c == 0:
        if a.id > b.id:
            a, b = b, a
        return mk("eq", "B", a, b)
    pos = from_lin(0, m, w)
    # canonical orientation: leading coefficient in lower half
    lead = m[min(m, key=lambda t: t.id)]
    if lead > M(w) // 2:
        pos = neg(pos, w)
        c = (-c) & M(w)
    return mk("eq", "B", pos, c)


def ult(a, b, w):
    if is_c(a) and is_c(b):
        return a < b
    if a is b:
        return False
    if is_c(b) and b == 0:
        return False
    if is_c(a) and a == M(w):
        return False
    if is_c(b) and b == 1:
        return eq(a, 0, w)
    if is_c(a) and a == 0:
        return b_not(eq(b, 0, w))
    if is_c(b) and isinstance(a, T):
        mx = M(w) & ~known_zero(a, w)
        if mx < b:
            return True
    if is_c(a) and isinstance(b, T):
        mx = M(w) & ~known_zero(b, w)
        if a >= mx:
            return False
    if isinstance(a, T) and a.op == "zext" and (isinstance(b, T) and b.op == "zext") and a.args[0].sort == b.args[0].sort:
        return ult(a.args[0], b.args[0], a.args[0].sort)
    return mk("ult", "B", a, b)


def ule(a, b, w):
    return b_not(ult(b, a, w))


def slt(a, b, w):
    if is_c(a) and is_c(b):
        return sgn(a, w) < sgn(b, w)
    if a is b:
        return False
    if is_c(b) and b == 0 and a.op == "uf:bits":
        return r_lt(a.args[0], ZERO)
    if all(is_c(x) and x <= M(w - 1) or isinstance(x, T) and x.op == "zext" for x in (a, b)):
        return ult(a, b, w)
    return mk("slt", "B", a, b)


def sle(a, b, w):
    return b_not(slt(b, a, w))


# ---------------------------------------------------------------- reals
ZERO = Fraction(0)
ONE = Fraction(1)


def r_c(x):
    return is_c(x)


def r_add(a, b):
    if is_c(a) and is_c(b):
        return a + b
    if is_c(a) and a == 0:
        return b
    if is_c(b) and b == 0:
        return a
    if is_c(a):
        a, b = b, a
    if is_c(b) and a.op == "radd" and is_c(a.args[1]):
        return r_add(a.args[0], a.args[1] + b)
    if not is_c(b) and a.id > b.id:
        a, b = b, a
    return mk("radd", "R", a, b)


def r_neg(a):
    return r_mul(a, Fraction(-1))


def r_sub(a, b):
    if a is b and isinstance(a, T):
        return ZERO
    return r_add(a, r_neg(b))


def r_mul(a, b):
    if is_c(a) and is_c(b):
        return a * b
    if is_c(a):
        a, b = b, a
    if is_c(b):
        if b == 0:
            return ZERO
        if b == 1:
            return a
        if a.op == "rmul" and is_c(a.args[1]):
            return r_mul(a.args[0], a.args[1] * b)
        return mk("rmul", "R", a, b)
    if a.id > b.id:
        a, b = b, a
    return mk("rmul", "R", a, b)


def r_div(a, b):
    if is_c(b) and b != 0:
        return r_mul(a, 1 / b)
    if is_c(a) and a == 0:
        return ZERO
    if a is b:
        return ONE
    if isinstance(b, T) and b.op == "rdiv" and b.args[0] is a and isinstance(a, T) and a.op == "sym" and a.args[0] == "PI":
        return b.args[1]
    return mk("rdiv", "R", a, b)


def r_eq(a, b):
    if is_c(a) and is_c(b):
        return a == b
    if a is b:
        return True
    if is_c(a):
        a, b = b, a
    if is_c(b):
        if a.op == "rmul" and is_c(a.args[1]):
            return r_eq(a.args[0], b / a.args[1])
        if a.op == "radd" and is_c(a.args[1]):
            return r_eq(a.args[0], b - a.args[1])
        if a.op == "rite" and is_c(a.args[1]) and is_c(a.args[2]):
            return b_ite(a.args[0], r_eq(a.args[1], b), r_eq(a.args[2], b))
        if a.op == "rabs" and b == 0:
            return r_eq(a.args[0], b)
    elif a.id > b.id:
        a, b = b, a
    return mk("req", "B", a, b)


def _rmono(a, b):
    """normalise scaling by constants: return simplified pair"""
    if is_c(b) and isinstance(a, T):
        if a.op == "rmul" and is_c(a.args[1]):
            k = a.args[1]
            return (a.args[0], b / k, k < 0)
        if a.op == "radd" and is_c(a.args[1]):
            return (a.args[0], b - a.args[1], False)
    return None


def r_lt(a, b):
    if is_c(a) and is_c(b):
        return a < b
    if a is b:
        return False
    r = _rmono(a, b)
    if r:
        return r_lt(r[1], r[0]) if r[2] else r_lt(r[0], r[1])
    r = _rmono(b, a)
    if r:
        return r_lt(r[0], r[1]) if r[2] else r_lt(r[1], r[0])
    if isinstance(a, T) and a.op == "rabs" and is_c(b) and b <= 0:
        return False
    if isinstance(b, T) and b.op == "rabs" and is_c(a):
        if a < 0:
            return True
        if a == 0:
            return b_not(r_eq(b.args[0], ZERO))
    return mk("rlt", "B", a, b)


def r_le(a, b):
    if is_c(a) and is_c(b):
        return a <= b
    if a is b:
        return True
    r = _rmono(a, b)
    if r:
        return r_le(r[1], r[0]) if r[2] else r_le(r[0], r[1])
    r = _rmono(b, a)
    if r:
        return r_le(r[0], r[1]) if r[2] else r_le(r[1], r[0])
    if isinstance(a, T) and a.op == "rabs" and is_c(b):
        if b < 0:
            return False
        if b == 0:
            return r_eq(a.args[0], ZERO)
    if isinstance(b, T) and b.op == "rabs" and is_c(a) and a <= 0:
        return True
    return mk("rle", "B", a, b)


def r_ite(c, a, b):
    if is_c(c):
        return a if c else b
    if a is b or (is_c(a) and is_c(b) and a == b):
        return a
    return mk("rite", "R", c, a, b)


def r_abs(a):
    if is_c(a):
        return abs(a)
    if a.op in ("rabs", "rsqrt"):
        return a
    if a.op == "rmul" and is_c(a.args[1]):
        return r_mul(r_abs(a.args[0]), abs(a.args[1]))
    return mk("rabs", "R", a)


def uf(name, sort, *args):
    return mk("uf:" + name, sort, *args)


_real = {}


def has_real(t):
    """does the term mention the reals (or a function between reals and bit vectors)?"""
    if is_c(t):
        return isinstance(t, Fraction)
    r = _real.get(t.id)
    if r is not None:
        return r
    st = [t]
    while st:
        u = st[-1]
        if u.id in _real:
            st.pop()
            continue
        if u.sort == "R":
            _real[u.id] = True
            continue
        todo = [a for a in u.args if isinstance(a, T) and a.id not in _real]
        if todo:
            st.extend(todo)
            continue
        _real[u.id] = any(_real[a.id] if isinstance(a, T) else isinstance(a, Fraction) for a in u.args)
        st.pop()
    return _real[t.id]


def syms(t):
    """free symbols + uf applications' names (for independence slicing)"""
    if is_c(t):
        return frozenset()
    if t._syms is not None:
        return t._syms
    # iterative post-order
    st = [t]
    while st:
        u = st[-1]
        if u._syms is not None:
            st.pop()
            continue
        todo = [a for a in u.args if isinstance(a, T) and a._syms is None]
        if todo:
            st.extend(todo)
            continue
        s = set()
        if u.op == "sym":
            s.add(u.id)
        else:
            if u.op.startswith("uf:"):
                s.add(u.op)
            for a in u.args:
                if isinstance(a, T):
                    s |= a._syms
        u._syms = frozenset(s)
        st.pop()
    return t._syms


def subst(t, mp, memo=None):
    """rebuild t replacing terms (dict term->value)"""
    if is_c(t):
        return t
    if memo is None:
        memo = {}
    if t in mp:
        return mp[t]
    if t.id in memo:
        return memo[t.id]
    args = [subst(a, mp, memo) if isinstance(a, T) else a for a in t.args]
    r = rebuild(t, args)
    memo[t.id] = r
    return r


def rebuild(t, a):
    o, s = t.op, t.sort
    w = s
    if all(x is y for x, y in zip(a, t.args)):
        return t
    if o == "not": return b_not(a[0])
    if o == "and": return b_and(*a) if s == "B" else band(a[0], a[1], w)
    if o == "or": return b_or(*a) if s == "B" else bor(a[0], a[1], w)
    if o == "xor": return b_xor(*a)
    if o == "add": return add(a[0], a[1], w)
    if o == "mul": return mul(a[0], a[1], w)
    if o == "udiv": return udiv(a[0], a[1], w)
    if o == "urem": return urem(a[0], a[1], w)
    if o == "sdiv": return sdiv(a[0], a[1], w)
    if o == "srem": return srem(a[0], a[1], w)
    if o == "bxor": return bxor(a[0], a[1], w)
    if o == "shl": return shl(a[0], a[1], w)
    if o == "lshr": return lshr(a[0], a[1], w)
    if o == "ashr": return ashr(a[0], a[1], w)
    if o == "zext": return zext(a[0], t.args[0].sort, w)
    if o == "sext": return sext(a[0], t.args[0].sort, w)
    if o == "extract": return extract(a[0], a[1], a[2], t.args[0].sort)
    if o == "concat":
        wh = t.args[0].sort if isinstance(t.args[0], T) else w - t.args[1].sort
        return concat(a[0], a[1], wh, w - wh)
    if o == "ite": return ite(a[0], a[1], a[2], w)
    if o in ("eq", "ult", "ule", "slt", "sle"):
        w = width_of(t.args[0], t.args[1])
        return {"eq": eq, "ult": ult, "ule": ule, "slt": slt, "sle": sle}[o](a[0], a[1], w)
    if o == "radd": return r_add(*a)
    if o == "rmul": return r_mul(*a)
    if o == "rdiv": return r_div(*a)
    if o == "req": return r_eq(*a)
    if o == "rlt": return r_lt(*a)
    if o == "rle": return r_le(*a)
    if o == "rite": return r_ite(*a)
    if o == "rabs": return r_abs(*a)
    return mk(o, s, *a)
