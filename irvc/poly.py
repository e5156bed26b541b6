"""Normal forms for real terms: rational functions over atoms, with
sqrt, sin/cos (Pythagorean + angle addition) reduction and oriented rewrite
rules.  Used to discharge equality obligations; sound (only ring axioms,
s*s = x for s = sqrt(x) with x >= 0, sin^2+cos^2 = 1, angle addition,
sin(pi/2)=1 etc.)."""
from fractions import Fraction
from math import gcd
from . import term as tm
from .term import T, is_c

PI = tm.sym("PI", "R")
SQRT2 = tm.mk("rsqrt", "R", Fraction(2))

# polynomial: dict monomial -> Fraction ; monomial: tuple of (atom_id, exp) sorted
ATOMS = {}


class TooBig(Exception):
    pass


LIMIT = 40000


def const(c):
    return {(): Fraction(c)} if c else {}


def atom(t):
    ATOMS[t.id] = t
    return {((t.id, 1),): Fraction(1)}


def padd(a, b, k=1):
    if not a:
        return {m: c * k for m, c in b.items()} if k != 1 else dict(b)
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + c * k
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def mmul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(d.items()))


def pmul(a, b):
    if not a or not b:
        return {}
    if len(a) == 1 and () in a:
        c = a[()]
        return {m: x * c for m, x in b.items()} if c != 1 else b
    if len(b) == 1 and () in b:
        c = b[()]
        return {m: x * c for m, x in a.items()} if c != 1 else a
    if len(a) * len(b) > LIMIT * 20:
        raise TooBig()
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = mmul(m1, m2)
            v = r.get(m, 0) + c1 * c2
            if v:
                r[m] = v
            else:
                del r[m]
    if len(r) > LIMIT:
        raise TooBig()
    return r


def ppow(a, n):
    r = const(1)
    for _ in range(n):
        r = pmul(r, a)
    return r


class Ctx:
    """Normalisation context: trig units and rewrite rules."""

    def __init__(self, rules=()):
        self.units = {}        # atom-monomial -> unit Fraction
        self.memo = {}
        self.rules = []        # (monomial dict atom->exp, (num, den))
        self.rawrules = rules
        self.sqrt_args = {}    # atom id -> rf
        self.trig = {}         # cos atom id / sin atom id -> ('s'|'c', base)
        self._collected = set()

    # -- trig units
    def collect(self, t):
        st = [t]
        while st:
            u = st.pop()
            if is_c(u) or u.id in self._collected:
                continue
            self._collected.add(u.id)
            if u.op in ("uf:sin", "uf:cos"):
                lp = self.linear(u.args[0])
                if lp is not None:
                    for a, c in lp.items():
                        if a == () or a == ((PI.id, 1),):
                            continue
                        old = self.units.get(a)
                        c = abs(c)
                        self.units[a] = c if old is None else fgcd(old, c)
            for a in u.args:
                if isinstance(a, T):
                    st.append(a)

    def linear(self, t):
        """argument of sin/cos as a polynomial (any monomials), or None"""
        n, d = self.rf(t)
        if d == const(1):
            return n
        if len(d) == 1 and () in d:
            return {m: c / d[()] for m, c in n.items()}
        return None

    # -- rational form
    def rf(self, t):
        if is_c(t):
            return (const(t), const(1))
        r = self.memo.get(t.id)
        if r is not None:
            return r
        # iterative to avoid deep recursion
        st = [t]
        while st:
            u = st[-1]
            if u.id in self.memo:
                st.pop()
                continue
            if u.op in ("radd", "rmul", "rdiv"):
                todo = [a for a in u.args if isinstance(a, T) and a.id not in self.memo]
                if todo:
                    st.extend(todo)
                    continue
            self.memo[u.id] = self._rf1(u)
            st.pop()
        return self.memo[t.id]

    def _get(self, a):
        return (const(a), const(1)) if is_c(a) else self.memo[a.id]

    def _rf1(self, u):
        o = u.op
        if o == "radd":
            (n1, d1), (n2, d2) = self._get(u.args[0]), self._get(u.args[1])
            if d1 == d2:
                return (self.red(padd(n1, n2)), d1)
            if d1 == const(1):
                return (self.red(padd(pmul(n1, d2), n2)), d2)
            if d2 == const(1):
                return (self.red(padd(n1, pmul(n2, d1))), d1)
            return (self.red(padd(pmul(n1, d2), pmul(n2, d1))), self.red(pmul(d1, d2)))
        if o == "rmul":
            (n1, d1), (n2, d2) = self._get(u.args[0]), self._get(u.args[1])
            if n1 == d2 and n1:
                return (n2, d1)
            if n2 == d1 and n2:
                return (n1, d2)
            return (self.red(pmul(n1, n2)), self.red(pmul(d1, d2)))
        if o == "rdiv":
            (n1, d1), (n2, d2) = self._get(u.args[0]), self._get(u.args[1])
            if not n2:
                return (atom(u), const(1))
            n, d = self.red(pmul(n1, d2)), self.red(pmul(d1, n2))
            return self.cancel(n, d)
        if o == "rsqrt":
            a = u.args[0]
            n, d = self.rf(a)
            if d == const(1) and len(n) <= 1 and (not n or () in n):
                v = n.get((), Fraction(0))
                from math import isqrt
                p, q = v.numerator, v.denominator
                if p >= 0 and isqrt(p) ** 2 == p and isqrt(q) ** 2 == q:
                    return (const(Fraction(isqrt(p), isqrt(q))), const(1))
            canon = self.canon_sqrt(n, d, u)
            return canon
        if o in ("uf:sin", "uf:cos"):
            r = self.trig_expand(u)
            if r is not None:
                return (r, const(1))
            return (atom(u), const(1))
        return (atom(u), const(1))

    def canon_sqrt(self, n, d, u):
        key = (frozenset(n.items()), frozenset(d.items()))
        for k2, (aid, _) in self.sqrt_args.items():
            if k2 == key:
                return ({((aid, 1),): Fraction(1)}, const(1))
        self.sqrt_args[key] = (u.id, (n, d))
        self._sq = {aid: rf for (aid, rf) in self.sqrt_args.values()}
        ATOMS[u.id] = u
        return (atom(u), const(1))

    def cancel(self, n, d):
        if n == d:
            return (const(1), const(1))
        if len(d) == 1:
            (m, c), = d.items()
            if m == ():
                return ({k: v / c for k, v in n.items()}, const(1))
        return (n, d)

    def trig_expand(self, u):
        lp = self.linear(u.args[0])
        if lp is None:
            return None
        c, s = const(1), {}
        for m, k in lp.items():
            if m == ():
                return None  # rational constant in argument: leave as atom
            if m == ((PI.id, 1),):
                pc = pi_cs(k)
                if pc is None:
                    return None
                cc, ss = pc
            else:
                unit = self.units.get(m)
                if unit is None or (k / unit).denominator != 1:
                    self.units[m] = unit = abs(k)
                n = k / unit
                n = n.numerator
                base = mono_term(m, unit)
                ca, sa = tm.uf("cos", "R", base), tm.uf("sin", "R", base)
                self.trig[sa.id] = ca.id
                C, S = atom(ca), atom(sa)
                cc, ss = const(1), {}
                for _ in range(abs(n)):
                    cc, ss = (self.red(padd(pmul(cc, C), pmul(ss, S), -1)),
                              self.red(padd(pmul(cc, S), pmul(ss, C))))
                if n < 0:
                    ss = {q: -v for q, v in ss.items()}
            c, s = (self.red(padd(pmul(c, cc), pmul(s, ss), -1)),
                    self.red(padd(pmul(c, ss), pmul(s, cc))))
        return c if u.op == "uf:cos" else s

    # -- reduction of sin^2 and sqrt^2
    def red(self, p):
        trig = self.trig
        sq = getattr(self, "_sq", {})
        if not trig and not sq:
            return p
        for _ in range(50):
            hit = None
            for m in p:
                for a, e in m:
                    if e >= 2 and (a in trig or a in sq):
                        if a in sq and sq[a][1] != const(1):
                            continue
                        hit = True
                        break
                if hit:
                    break
            if not hit:
                return p
            r = {}
            for m, c in p.items():
                q = {(): c}
                rest = []
                for a, e in m:
                    if e >= 2 and a in trig:
                        q = pmul(q, ppow({(): Fraction(1), ((trig[a], 2),): Fraction(-1)}, e // 2))
                        if e % 2:
                            rest.append((a, 1))
                    elif e >= 2 and a in sq and sq[a][1] == const(1):
                        q = pmul(q, ppow(sq[a][0], e // 2))
                        if e % 2:
                            rest.append((a, 1))
                    else:
                        rest.append((a, e))
                if rest:
                    q = pmul(q, {tuple(rest): Fraction(1)})
                r = padd(r, q)
            p = r
        return p

    def apply_rules(self, n):
        """rewrite monomials with rules (lhs monomial -> (num, den)); returns numerator
        of the rewritten rational function."""
        den = const(1)
        for _ in range(200):
            done = True
            for lhs, (rn, rd) in self.rules:
                ld = dict(lhs)
                hits = {m: c for m, c in n.items() if all(dict(m).get(a, 0) >= e for a, e in ld.items())}
                if not hits:
                    continue
                done = False
                rest = {m: c for m, c in n.items() if m not in hits}
                q = {}
                for m, c in hits.items():
                    d = dict(m)
                    for a, e in ld.items():
                        d[a] -= e
                        if not d[a]:
                            del d[a]
                    q = padd(q, {tuple(sorted(d.items())): c})
                n = padd(pmul(q, rn), pmul(rest, rd)) if rd != const(1) else padd(pmul(q, rn), rest)
                n = self.red(n)
            if done:
                return n
        return n

    def add_rule(self, lhs, rhs):
        ln, ld = self.rf(lhs)
        rn, rd = self.rf(rhs)
        # ln/ld = rn/rd  ->  ln*rd - rn*ld = 0 ; lhs must be a single monomial
        if len(ln) == 1 and ld == const(1):
            (m, c), = ln.items()
            if m == ():
                return False
            rn = {k: v / c for k, v in rn.items()}
            self.rules.append((m, (rn, rd)))
            return True
        if rd == const(1) and ld == const(1):
            p = padd(ln, rn, -1)
            return self.add_poly(p)
        return False

    def add_poly(self, p):
        """p = 0; orient a single-atom linear monomial if possible"""
        for m, c in sorted(p.items(), key=lambda x: -len(x[0])):
            if len(m) == 1 and m[0][1] == 1:
                a = m[0][0]
                if all(a not in dict(k) for k in p if k != m):
                    if ATOMS[a].op == "sym" and ATOMS[a] is not PI:
                        rest = {k: -v / c for k, v in p.items() if k != m}
                        self.rules.append((m, (rest, const(1))))
                        return True
        return False


def fgcd(a, b):
    d = a.denominator * b.denominator // gcd(a.denominator, b.denominator)
    return Fraction(gcd(int(a * d), int(b * d)), d)


def mono_term(m, k):
    r = Fraction(1)
    for a, e in m:
        for _ in range(e):
            r = ATOMS[a] if is_c(r) and r == 1 else tm.r_mul(r, ATOMS[a])
    return tm.r_mul(r, k)


def pi_cs(k):
    """cos(k pi), sin(k pi) for k multiple of 1/4"""
    k = k % 2
    q = k * 4
    if q.denominator != 1:
        return None
    q = int(q)
    h = {((SQRT2.id, 1),): Fraction(1, 2)}
    ATOMS[SQRT2.id] = SQRT2
    nh = {((SQRT2.id, 1),): Fraction(-1, 2)}
    tab = [(const(1), {}), (h, h), ({}, const(1)), (nh, h), (const(-1), {}), (nh, nh), ({}, const(-1)), (h, nh)]
    c, s = tab[q]
    return dict(c), dict(s)


def prove_eq(a, b, rules=(), subst=None):
    """Try to prove a = b (real terms). rules: list of (lhs, rhs) terms known equal,
    oriented. Returns True if the normal forms coincide."""
    try:
        if subst:
            memo = {}
            a = tm.subst(a, subst, memo)
            b = tm.subst(b, subst, memo)
            rules = [(tm.subst(l, subst, memo), tm.subst(r, subst, memo)) for l, r in rules]
        if tm.r_eq(a, b) is True:
            return True
        cx = Ctx()
        cx.sqrt_args = {}
        # register sqrt(2)
        cx.canon_sqrt(const(2), const(1), SQRT2)
        d = tm.r_sub(a, b)
        if is_c(d):
            return d == 0
        cx.collect(d)
        for l, r in rules:
            for x in (l, r):
                if isinstance(x, T):
                    cx.collect(x)
        cx.memo = {}
        for l, r in rules:
            cx.add_rule(l, r)
        n, den = cx.rf(d)
        n = cx.red(n)
        if not n:
            return True
        if cx.rules:
            n = cx.apply_rules(n)
            if not n:
                return True
        # clear sqrt of rationals: s^2 = n/d with d != 1
        return False
    except TooBig:
        return False
