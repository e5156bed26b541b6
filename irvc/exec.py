"""Symbolic executor / VC generator over LLVM IR."""
import re
import struct
import subprocess
import time
from fractions import Fraction
from . import term as tm, ir, solve, poly
from .term import T, is_c, M
from .ir import FInf, INF, NINF, NAN


class Ptr:
    __slots__ = ("o", "f")

    def __init__(self, o, f):
        self.o = o
        self.f = f

    def __repr__(self):
        return "&%s+%s" % (self.o, self.f)

    def __eq__(self, x):
        return isinstance(x, Ptr) and x.o == self.o and (x.f is self.f or (is_c(x.f) and is_c(self.f) and x.f == self.f))

    def __hash__(self):
        return hash((self.o, self.f if is_c(self.f) else self.f.id))


class _Undef:
    def __repr__(self):
        return "undef"


UNDEF = _Undef()


class Obj:
    __slots__ = ("id", "name", "size", "cells", "default", "kind", "live", "owner", "align", "rows", "stride", "rowdef", "cls")

    def __init__(self, id, name, size, kind, default, align=16):
        self.id = id
        self.name = name
        self.size = size
        self.cells = {}
        self.default = default
        self.kind = kind
        self.live = True
        self.owner = None
        self.align = align
        self.rows = None
        self.stride = None
        self.rowdef = None
        self.cls = None

    def clone(self):
        o = Obj.__new__(Obj)
        o.id, o.name, o.size, o.kind, o.default, o.align = self.id, self.name, self.size, self.kind, self.default, self.align
        o.cells = dict(self.cells)
        o.live = self.live
        o.owner = None
        o.rows = list(self.rows) if self.rows is not None else None
        o.stride = self.stride
        o.rowdef = self.rowdef
        o.cls = self.cls
        return o


class Frame:
    __slots__ = ("fn", "blk", "ip", "regs", "prev", "allocas", "ins", "ret_to", "harness", "depth_key", "code")

    def clone(self):
        f = Frame()
        f.fn, f.blk, f.ip, f.prev, f.ins, f.ret_to, f.harness = self.fn, self.blk, self.ip, self.prev, self.ins, self.ret_to, self.harness
        f.regs = dict(self.regs)
        f.allocas = list(self.allocas)
        f.code = self.code
        return f


class Fork(Exception):
    def __init__(self, cond):
        self.cond = cond


class ForkN(Exception):
    """fork over an explicit list of (conds)"""
    def __init__(self, conds):
        self.conds = conds


class PathEnd(Exception):
    def __init__(self, why):
        self.why = why


class Unsupported(Exception):
    pass


class MemFault(Exception):
    """memory-safety obligation failed on this path"""
    def __init__(self, what):
        self.what = what


class Mem(dict):
    """heap map of a path; globals fall back to the engine's pristine copies"""
    __slots__ = ("base",)

    def __missing__(self, k):
        return self.base[k]

    def cp(self):
        m = Mem(self)
        m.base = self.base
        return m


class State:
    def __init__(self, base):
        self.frames = []
        self.mem = Mem()
        self.mem.base = base
        self.pcs = []
        self.pcset = set()
        self.known = {}
        self.rules = []
        self.subst = {}
        self.repl = {}
        self.token = object()
        self.caught = []
        self.alias = {}
        self.lazyseen = []
        self.ghost = {}
        self.steps = 0
        self.nforks = 0
        self.inputs = []
        self.unwinding = None
        self.trail = []
        self.bounded = False

    def clone(self):
        s = State.__new__(State)
        s.frames = [f.clone() for f in self.frames]
        s.mem = self.mem.cp()
        s.pcs = list(self.pcs)
        s.pcset = set(self.pcset)
        s.known = dict(self.known)
        s.rules = list(self.rules)
        s.subst = dict(self.subst)
        s.repl = dict(self.repl)
        s.token = object()
        self.token = object()
        s.caught = list(self.caught)
        s.alias = dict(self.alias)
        s.lazyseen = list(self.lazyseen)
        s.ghost = dict(self.ghost)
        s.steps = self.steps
        s.nforks = self.nforks
        s.inputs = list(self.inputs)
        s.unwinding = self.unwinding
        s.trail = list(self.trail)
        s.bounded = self.bounded
        return s


class Obligation:
    __slots__ = ("label", "status", "method", "detail", "loc", "model", "inputs", "time", "path")

    def __init__(self, label, status, method, detail="", loc="", model=None, inputs=None, t=0.0, path=0):
        self.label, self.status, self.method, self.detail, self.loc = label, status, method, detail, loc
        self.model, self.inputs, self.time, self.path = model, inputs, t, path


def demangle(names):
    names = list(names)
    p = subprocess.run(["c++filt"], input="\n".join(names), capture_output=True, text=True)
    return dict(zip(names, p.stdout.split("\n")))


TINY_LIM = Fraction(1, 10 ** 8)
TINY = Fraction(1, 10 ** 400)

STD_BASES = {
    "_ZTISt12out_of_range": "_ZTISt11logic_error", "_ZTISt16invalid_argument": "_ZTISt11logic_error",
    "_ZTISt12length_error": "_ZTISt11logic_error", "_ZTISt12domain_error": "_ZTISt11logic_error",
    "_ZTISt11logic_error": "_ZTISt9exception", "_ZTISt13runtime_error": "_ZTISt9exception",
    "_ZTISt14overflow_error": "_ZTISt13runtime_error", "_ZTISt15underflow_error": "_ZTISt13runtime_error",
    "_ZTISt11range_error": "_ZTISt13runtime_error",
    "_ZTISt9bad_alloc": "_ZTISt9exception", "_ZTISt8bad_cast": "_ZTISt9exception",
    "_ZTISt18bad_variant_access": "_ZTISt9exception", "_ZTISt19bad_optional_access": "_ZTISt9exception",
    "_ZTISt17bad_function_call": "_ZTISt9exception", "_ZTISt20bad_array_new_length": "_ZTISt9bad_alloc",
}


class Engine:
    def __init__(self, module, opts=None):
        self.m = module
        self.o = {"max_steps": 3000000, "max_paths": 4000, "timeout": 600, "qtimeout": 4000, "dtimeout": 800, "ideal": True,
                  "max_depth": 220, "loop_limit": 40000, "max_forks": 400, "verbose": False}
        if opts:
            self.o.update(opts)
        self.oid = 0
        self.gobjs = {}
        self.base = {}
        self.obls = []
        self.covers = {}
        self.funcs_executed = {}
        self.replaced_used = {}
        self.externals_used = {}
        self.unsupported = []
        self.paths = 0
        self.ended = {}
        self.steps = 0
        self.dm = demangle(module.funcs.keys())
        self.assumes = 0
        self.trusted = set()
        self.t0 = time.time()
        self.harness_sp = {}
        from . import models
        self.models = models.MODELS
        self.patmodels = models.PATTERNS
        self.pmcache = {}
        self.blockcache = {}
        self.bounded_reasons = set()
        self.ideal_consts = set()

    # ------------------------------------------------------------ objects
    def new_obj(self, st, name, size, kind, default, align=16):
        self.oid += 1
        o = Obj(self.oid, name, size, kind, default, align)
        o.owner = st.token
        st.mem[o.id] = o
        return o

    def w_obj(self, st, oid):
        o = st.mem[oid]
        if o.owner is not st.token:
            o = o.clone()
            o.owner = st.token
            st.mem[oid] = o
        return o

    def addr(self, st, oid):
        o = st.mem[oid]
        if o.kind == "lazy":
            return tm.sym("addrL!%d" % oid, 64)
        return tm.sym("addrC!%d!%d" % (oid, o.size if is_c(o.size) and o.size else 1), 64)

    def ptr_term(self, st, p):
        if isinstance(p, Ptr):
            return tm.add(self.addr(st, p.o), p.f, 64)
        return p

    def term_ptr(self, st, t):
        """try to turn a 64-bit term into a Ptr"""
        if isinstance(t, T) and st.subst:
            t = tm.subst(t, st.subst)
        if is_c(t):
            return t
        c, mm = tm.lin(t, 64)
        for k, v in mm.items():
            if v == 1 and k.op == "sym" and k.args[0].startswith("addr"):
                oid = int(k.args[0].split("!")[1])
                if oid in st.mem or oid in self.base:
                    rest = dict(mm)
                    del rest[k]
                    return Ptr(oid, tm.from_lin(c, rest, 64))
        return t

    def glob(self, st, name):
        """address of a global or function"""
        p = self.gobjs.get(name)
        if p is not None:
            if p.o not in st.mem:
                st.mem[p.o] = self.base[p.o]
            return p
        if name in self.m.aliases:
            v = self.const(st, self.m.aliases[name], ir.PTR)
            self.gobjs[name] = v
            return v
        if name in self.m.funcs:
            self.oid += 1
            o = Obj(self.oid, name, 1, "func", "undef")
            self.base[o.id] = o
            st.mem[o.id] = o
            p = Ptr(o.id, 0)
            self.gobjs[name] = p
            return p
        g = self.m.globals.get(name)
        if g is None:
            # pseudo global (e.g. typeinfo)
            self.oid += 1
            o = Obj(self.oid, name, None, "global", "zero")
            self.base[o.id] = o
            st.mem[o.id] = o
            p = Ptr(o.id, 0)
            self.gobjs[name] = p
            return p
        size = self.m.size(g.ty)
        self.oid += 1
        o = Obj(self.oid, name, size, "global", "zero" if not g.external else "undef", 16)
        if g.external:
            o.size = None
            o.default = "zero"
        p = Ptr(o.id, 0)
        self.gobjs[name] = p
        self.base[o.id] = o
        st.mem[o.id] = o
        if g.init is not None and g.init[0] != "zero":
            self.init_const(st, o, 0, g.ty, g.init)
        return p

    def init_const(self, st, o, off, ty, v):
        ty0 = self.m.resolve(ty)
        k = v[0]
        if k == "zero" or k == "undef":
            return
        if k == "str":
            for i, b in enumerate(v[1]):
                o.cells[off + i] = (1, "i", b)
            return
        if k == "agg":
            if ty0.k == "arr" or ty0.k == "vec":
                es = self.m.size(ty0.el)
                for i, (t, e) in enumerate(v[1]):
                    self.init_const(st, o, off + i * es, t, e)
            else:
                offs = self.m.offsets(ty0)
                for i, (t, e) in enumerate(v[1]):
                    self.init_const(st, o, off + offs[i], t, e)
            return
        val = self.const(st, v, ty0)
        n = self.m.size(ty0)
        o.cells[off] = (n, kind_of(ty0), val)

    def const(self, st, v, ty):
        k = v[0]
        if k == "c":
            return v[1]
        if k == "f":
            return self.fconst(v[1])
        if k == "g":
            return self.glob(st, v[1][1:])
        if k == "undef":
            return UNDEF
        if k == "zero":
            return self.zero(ty)
        if k == "gep":
            return self.gep(st, v[1], self.const(st, v[2], ir.PTR), [(t, self.const(st, x, t)) for t, x in v[3]])
        if k == "cast":
            x = self.const(st, v[3], v[2])
            if v[1] in ("bitcast", "ptrtoint", "inttoptr"):
                return x
            if v[1] == "trunc":
                return self.trunc(st, x, v[2].w, v[4].w)
            raise Unsupported("const cast " + v[1])
        if k == "bin":
            return self.binop(st, v[1], v[2], self.const(st, v[3], v[2]), self.const(st, v[4], v[2]))
        if k == "agg":
            return [self.const(st, x, t) for t, x in v[1]]
        if k == "md":
            return None
        raise Unsupported("const " + repr(v))

    def fconst(self, f):
        if isinstance(f, FInf):
            return f
        if self.o["ideal"]:
            if f and abs(f) < TINY_LIM:
                self.ideal_consts.add(float(f))
                return TINY if f > 0 else -TINY
            r = IDEAL.get(f)
            if r is not None:
                return r
        return f

    def zero(self, ty):
        ty = self.m.resolve(ty)
        if ty.k in ("double", "float", "x86_fp80"):
            return Fraction(0)
        if ty.k == "struct":
            return [self.zero(e) for e in ty.el]
        if ty.k == "arr":
            return [self.zero(ty.el) for _ in range(ty.n)]
        return 0

    # ------------------------------------------------------------ memory
    def canon(self, st, oid):
        o = st.mem[oid]
        if o.kind != "lazy":
            return oid
        a = st.alias.get(oid)
        if a is not None:
            return a
        me = self.addr(st, oid)
        for r in st.lazyseen:
            ro = st.mem[r]
            if ro.cls != o.cls:
                continue
            if self.decide(st, tm.eq(me, self.addr(st, r), 64)):
                st.alias[oid] = r
                return r
        st.alias[oid] = oid
        st.lazyseen = st.lazyseen + [oid]
        return oid

    def deref(self, st, p, n, what):
        """resolve pointer for an access of n bytes -> (obj id, off)"""
        if isinstance(p, T):
            p = self.term_ptr(st, p)
            if isinstance(p, T):
                # maybe it is provably null
                raise Unsupported("dereference of unresolved pointer %s" % tm.show(p)[:80])
        if p is UNDEF:
            raise MemFault("%s through uninitialised pointer" % what)
        if not isinstance(p, Ptr):
            if is_c(p) and p < 4096:
                raise MemFault("%s through null pointer" % what)
            raise MemFault("%s through wild pointer %r" % (what, p))
        oid = self.canon(st, p.o)
        o = st.mem[oid]
        if not o.live:
            raise MemFault("%s after lifetime of %s ended" % (what, o.name))
        if o.kind == "func":
            raise MemFault("%s of function memory" % what)
        off = p.f
        if not is_c(off):
            v = self.concretize(st, off)
            if v is not None:
                off = v
        if not is_c(off):
            off = self.split_ite(st, off)
        if is_c(off):
            so = tm.sgn(off, 64)
            if o.size is not None and is_c(o.size):
                if so < 0 or so + n > o.size:
                    raise MemFault("%s out of bounds of %s (offset %d, size %d of %d)" % (what, o.name, so, n, o.size))
            return oid, so
        # symbolic offset: bounds
        if o.size is not None and is_c(o.size):
            ok = tm.ule(off, o.size - n, 64) if o.size >= n else False
            if not self.decide(st, ok):
                raise MemFault("%s out of bounds of %s (symbolic offset)" % (what, o.name))
        return oid, off

    def split_ite(self, st, t):
        """decide conditions that select between constant offsets"""
        c, mm = tm.lin(t, 64)
        for k in list(mm):
            # a widened small linear form over such selections
            if k.op == "zext":
                c2, m2 = tm.lin(k.args[0], k.args[0].sort)
                if m2 and all(j.op == "ite" and is_c(j.args[1]) and is_c(j.args[2]) for j in m2):
                    v = c2
                    for j, co in m2.items():
                        v += co * (j.args[1] if self.decide(st, j.args[0]) else j.args[2])
                    v &= M(k.args[0].sort)
                    r = c
                    for j, co in mm.items():
                        r = tm.add(r, tm.mul(v if j is k else j, co, 64), 64)
                    return r if is_c(r) else self.split_ite(st, r)
        if not any(k.op == "ite" and is_c(k.args[1]) and is_c(k.args[2]) for k in mm):
            return t
        r = c
        for k, co in mm.items():
            if k.op == "ite" and is_c(k.args[1]) and is_c(k.args[2]):
                k = k.args[1] if self.decide(st, k.args[0]) else k.args[2]
                r = tm.add(r, (k * co) & M(64), 64)
            else:
                r = tm.add(r, tm.mul(k, co, 64), 64)
        return r

    def concretize(self, st, t):
        """if pcs force a unique value that is cheap to see, return it"""
        if is_c(t):
            return t
        v = st.known.get(t.id)
        if v is not None:
            return v
        c, mm = tm.lin(t, t.sort)
        if mm and all(k.id in st.known for k in mm):
            r = c
            for k, co in mm.items():
                r += st.known[k.id] * co
            return r & M(t.sort)
        if st.known:
            sub = {}
            hit = False
            for s in tm.syms(t):
                if s in st.known and not isinstance(s, str):
                    hit = True
            if hit:
                mp = {k: v for k, v in st.subst.items()}
                r = tm.subst(t, mp)
                if is_c(r):
                    return r
        return None

    # symbolic rows -----------------------------------------------------
    def row_for(self, st, oid, off, n, write):
        """map symbolic offset to a row object id and inner offset"""
        o = st.mem[oid]
        c, mm = tm.lin(off, 64)
        g = 0
        from math import gcd
        for k, v in mm.items():
            g = gcd(g, v if v < 1 << 63 else (1 << 64) - v)
        stride = o.stride or g
        if g % stride:
            raise Unsupported("symbolic offset stride %d not multiple of %d in %s" % (g, stride, o.name))
        inner = c % stride if c < 1 << 63 else (c - (1 << 64)) % stride
        base = ((c - inner) & M(64))
        q = {}
        for k, v in mm.items():
            sv = v if v < 1 << 63 else v - (1 << 64)
            q[k] = (sv // stride) & M(64)
        cb = base if base < 1 << 63 else base - (1 << 64)
        idx = tm.from_lin((cb // stride) & M(64), q, 64)
        if inner + n > stride:
            raise Unsupported("access crosses symbolic row in %s at %s" % (o.name, tm.show(off)))
        if o.rows is None:
            self.rowify(st, oid, stride)
            o = st.mem[oid]
        if is_c(idx):
            return self.row_const(st, oid, idx), inner
        for (ri, rid) in o.rows:
            if not is_c(ri) and ri is idx:
                return rid, inner
        nsym = 0
        for (ri, rid) in o.rows:
            if self.decide(st, tm.eq(ri, idx, 64)):
                return rid, inner
        if o.rowdef is None:
            # all rows explicit: infeasible to be elsewhere (bounds already checked)
            raise PathEnd("infeasible-row")
        rid = self.fresh_row(st, o, idx)
        w = self.w_obj(st, oid)
        w.rows.append((idx, rid))
        return rid, inner

    def fresh_row(self, st, o, idx):
        self.oid += 1
        r = Obj(self.oid, "%s[%s]" % (o.name, tm.show(idx) if isinstance(idx, T) else idx), o.stride, "row", o.default)
        r.owner = st.token
        if callable(o.rowdef):
            o.rowdef(self, st, r, idx)
        else:
            r.cells = dict(o.rowdef)
        st.mem[r.id] = r
        return r.id

    def row_const(self, st, oid, idx):
        o = st.mem[oid]
        for (ri, rid) in o.rows:
            if is_c(ri) and ri == idx:
                return rid
        for (ri, rid) in o.rows:
            if not is_c(ri) and self.decide(st, tm.eq(ri, idx, 64)):
                return rid
        if o.rowdef is None:
            raise Unsupported("row %d of %s" % (idx, o.name))
        rid = self.fresh_row(st, o, idx)
        w = self.w_obj(st, oid)
        w.rows.append((idx, rid))
        return rid

    def rowify(self, st, oid, stride):
        w = self.w_obj(st, oid)
        if w.size is None or not is_c(w.size):
            raise Unsupported("rowify unsized object " + w.name)
        nrows = (w.size + stride - 1) // stride
        groups = {}
        for off, cell in w.cells.items():
            r = off // stride
            if off % stride + cell[0] > stride:
                raise Unsupported("cell crosses row in " + w.name)
            groups.setdefault(r, {})[off % stride] = cell
        w.stride = stride
        # find the most common content as template
        keyf = lambda d: tuple(sorted((o, c[0], c[1], c[2] if not isinstance(c[2], T) else ("t", c[2].id)) for o, c in d.items())) if d else ()
        counts = {}
        sample = {}
        for r, d in groups.items():
            try:
                k = keyf(d)
            except TypeError:
                k = ("u", r)
            counts[k] = counts.get(k, 0) + 1
            sample[k] = d
        empty = nrows - len(groups)
        if empty:
            counts[()] = counts.get((), 0) + empty
            sample[()] = {}
        best = max(counts, key=lambda k: counts[k])
        explicit = [r for r in groups if self._safe_key(keyf, groups[r], r) != best]
        if best != ():
            explicit += [r for r in range(nrows) if r not in groups] if empty and nrows < 100000 else []
        if len(explicit) > 600:
            raise Unsupported("too many distinct rows in %s" % w.name)
        w.rowdef = sample[best] if counts[best] + len(explicit) >= nrows else sample[best]
        if len(explicit) == nrows:
            w.rowdef = None
        w.rows = []
        for r in explicit:
            self.oid += 1
            ro = Obj(self.oid, "%s[%d]" % (w.name, r), stride, "row", w.default)
            ro.cells = groups.get(r, {})
            ro.owner = st.token
            st.mem[ro.id] = ro
            w.rows.append((r, ro.id))
        w.cells = {}

    def _safe_key(self, f, d, r):
        try:
            return f(d)
        except TypeError:
            return ("u", r)

    def locate(self, st, p, n, what, write=False):
        oid, off = self.deref(st, p, n, what)
        o = st.mem[oid]
        if o.rows is not None and is_c(off):
            rid = self.row_const(st, oid, off // o.stride)
            if off % o.stride + n > o.stride:
                raise Unsupported("access crosses row boundary of " + o.name)
            return rid, off % o.stride
        if not is_c(off):
            # small concrete objects: try enumeration through stride decomposition
            return self.row_for(st, oid, off, n, write)
        return oid, off

    def load(self, st, p, ty):
        ty = self.m.resolve(ty)
        if ty.k in ("struct", "arr"):
            if ty.k == "struct":
                offs = self.m.offsets(ty)
                return [self.load(st, self.padd(st, p, offs[i]), e) for i, e in enumerate(ty.el)]
            es = self.m.size(ty.el)
            return [self.load(st, self.padd(st, p, i * es), ty.el) for i in range(ty.n)]
        n = self.m.size(ty)
        oid, off = self.locate(st, p, n, "read")
        return self.read(st, oid, off, n, kind_of(ty), ty)

    def padd(self, st, p, k):
        if k == 0:
            return p
        if isinstance(p, Ptr):
            return Ptr(p.o, tm.add(p.f, k & M(64), 64))
        return tm.add(p, k & M(64), 64)

    def read(self, st, oid, off, n, kind, ty=None):
        o = st.mem[oid]
        cell = o.cells.get(off)
        if cell is not None and cell[0] == n:
            v = self.conv(st, cell[2], cell[1], kind, n)
            if ty is not None and ty.k == "int" and ty.w < 8 * n:
                v = self.trunc(st, v, 8 * n, ty.w)
            return v
        # overlapping?
        ov = self.overlaps(o, off, n)
        if not ov:
            d = o.default
            if d == "zero":
                return Fraction(0) if kind in ("f", "F") else 0
            if d == "sym":
                v = self.fresh_val(st, "%s.%d" % (o.name, off), kind, n)
                self.w_obj(st, oid).cells[off] = (n, kind, v)
                if ty is not None and ty.k == "int" and ty.w < 8 * n:
                    v = self.trunc(st, v, 8 * n, ty.w)
                return v
            return UNDEF
        bs = [self.byte(st, oid, off + i) for i in range(n)]
        if any(b is UNDEF for b in bs):
            if kind != "i" or all(b is UNDEF for b in bs) or any(isinstance(b, tuple) for b in bs):
                return UNDEF
            # a structure passed in a register: its padding is arbitrary
            bs = [tm.fresh("padding", 8) if b is UNDEF else b for b in bs]
        if all(isinstance(b, tuple) for b in bs) and len({(id(b[0]), b[1]) for b in bs}) >= 1:
            raise Unsupported("split pointer read in " + o.name)
        if any(isinstance(b, tuple) for b in bs):
            raise Unsupported("partial pointer read in " + o.name)
        v = bs[0]
        w = 8
        for b in bs[1:]:
            v = tm.concat(b, v, 8, w)
            w += 8
        v = self.conv(st, v, "i", kind, n)
        if ty is not None and ty.k == "int" and ty.w < 8 * n:
            v = self.trunc(st, v, 8 * n, ty.w)
        return v

    def overlaps(self, o, off, n):
        r = []
        cells = o.cells
        if len(cells) < 24 + n:
            for k, c in cells.items():
                if k < off + n and k + c[0] > off:
                    r.append(k)
            return r
        for k in range(off - 15, off + n):
            c = cells.get(k)
            if c is not None and k + c[0] > off:
                r.append(k)
        return r

    def byte(self, st, oid, off):
        o = st.mem[oid]
        for k in range(off, off - 16, -1):
            c = o.cells.get(k)
            if c is not None:
                if k + c[0] > off:
                    v = c[2]
                    if v is UNDEF:
                        return UNDEF
                    if isinstance(v, Ptr):
                        return (v, off - k)
                    if c[1] in ("f", "F"):
                        v = self.conv(st, v, c[1], "i", c[0])
                    i = off - k
                    return tm.extract(v, 8 * i + 7, 8 * i, 8 * c[0])
                break
        if o.default == "zero":
            return 0
        if o.default == "sym":
            v = tm.fresh("%s.%d" % (o.name, off), 8)
            self.w_obj(st, oid).cells[off] = (1, "i", v)
            return v
        return UNDEF

    def fresh_val(self, st, name, kind, n):
        if kind in ("f", "F"):
            v = tm.fresh(name, "R")
        else:
            v = tm.fresh(name, 8 * n)
        return v

    def conv(self, st, v, k0, k1, n):
        if k0 == k1 or v is UNDEF:
            return v
        f0, f1 = k0 in ("f", "F", "X"), k1 in ("f", "F", "X")
        if f0 == f1:
            return v
        if f0:
            if isinstance(v, FInf):
                d = {"inf": float("inf"), "-inf": float("-inf"), "nan": float("nan")}[v.s]
                return struct.unpack("<Q", struct.pack("<d", d))[0]
            if is_c(v):
                try:
                    d = float(v)
                    return struct.unpack("<Q" if n == 8 else "<I", struct.pack("<d" if n == 8 else "<f", d))[0]
                except OverflowError:
                    raise Unsupported("real to bits")
            return tm.uf("bits", 8 * n, v)
        # int -> float
        if is_c(v):
            d = struct.unpack("<d" if n == 8 else "<f", struct.pack("<Q" if n == 8 else "<I", v))[0]
            return self.fconst(ir.fl2const(d))
        if isinstance(v, T) and v.op == "uf:bits":
            return v.args[0]
        if isinstance(v, T):
            return tm.uf("frombits", "R", v)
        raise Unsupported("pointer as float")

    def store(self, st, p, ty, v):
        ty = self.m.resolve(ty)
        if ty.k in ("struct", "arr"):
            if v is UNDEF:
                return
            if ty.k == "struct":
                offs = self.m.offsets(ty)
                for i, e in enumerate(ty.el):
                    self.store(st, self.padd(st, p, offs[i]), e, v[i])
                return
            es = self.m.size(ty.el)
            for i in range(ty.n):
                self.store(st, self.padd(st, p, i * es), ty.el, v[i])
            return
        n = self.m.size(ty)
        oid, off = self.locate(st, p, n, "write", True)
        if ty.k == "int" and ty.w == 1 and isinstance(v, T):
            v = tm.ite(v, 1, 0, 8)
        elif ty.k == "int" and ty.w == 1:
            v = int(v) if v is not UNDEF else v
        elif ty.k == "int" and ty.w < 8 * n and isinstance(v, T):
            v = tm.zext(v, ty.w, 8 * n)
        self.write(st, oid, off, n, kind_of(ty), v)

    def write(self, st, oid, off, n, kind, v):
        o = self.w_obj(st, oid)
        c = o.cells.get(off)
        if c is None or c[0] != n:
            for k in self.overlaps(o, off, n):
                self.split(st, o, k, off, n)
        o.cells[off] = (n, kind, v)

    def split(self, st, o, k, off, n):
        """remove cell at k, keeping the bytes outside [off, off+n)"""
        cn, ck, cv = o.cells[k]
        keep = [i for i in range(cn) if not (off <= k + i < off + n)]
        if keep and cv is not UNDEF:
            if isinstance(cv, Ptr):
                # losing parts of a pointer: make the remainder undefined
                del o.cells[k]
                for i in keep:
                    o.cells[k + i] = (1, "i", UNDEF)
                return
            iv = self.conv(st, cv, ck, "i", cn)
            del o.cells[k]
            for i in keep:
                o.cells[k + i] = (1, "i", tm.extract(iv, 8 * i + 7, 8 * i, 8 * cn))
        elif keep:
            del o.cells[k]
            for i in keep:
                o.cells[k + i] = (1, "i", UNDEF)
        else:
            del o.cells[k]

    def memcpy(self, st, d, s, n):
        if not is_c(n):
            v = self.concretize(st, n)
            if v is None:
                n = self.enum_value(st, n)
            else:
                n = v
        if n == 0:
            return
        if isinstance(s, Ptr) or isinstance(s, T):
            pass
        soid, soff = self.locate(st, s, n, "read") if self._rowfit(st, s, n) else (None, None)
        if soid is None:
            return self.memcpy_rows(st, d, s, n)
        if not self._rowfit(st, d, n):
            return self.memcpy_rows(st, d, s, n)
        doid, doff = self.locate(st, d, n, "write", True)
        so = st.mem[soid]
        # gather
        cells = []
        covered = 0
        if len(so.cells) <= n + 16:
            items = [(k, c) for k, c in so.cells.items() if k < soff + n and k + c[0] > soff]
        else:
            items = []
            for k in range(soff - 15, soff + n):
                c = so.cells.get(k)
                if c is not None and k + c[0] > soff:
                    items.append((k, c))
        edges = False
        for k, c in items:
            if k < soff or k + c[0] > soff + n:
                edges = True
            else:
                cells.append((k - soff, c))
                covered += c[0]
        if edges:
            have = {k for k, c in cells}
            for k, c in items:
                if k < soff or k + c[0] > soff + n:
                    for i in range(c[0]):
                        if soff <= k + i < soff + n:
                            b = self.byte(st, soid, k + i)
                            if isinstance(b, tuple):
                                b = UNDEF
                            cells.append((k + i - soff, (1, "i", b)))
                            covered += 1
        gaps = []
        if covered < n:
            pos = 0
            for k, c in sorted(cells, key=lambda x: x[0]):
                if k > pos:
                    gaps.append((pos, k))
                pos = k + c[0]
            if pos < n:
                gaps.append((pos, n))
        do = self.w_obj(st, doid)
        if doff == 0 and do.size == n:
            do.cells = {}
        else:
            for k in self.overlaps_big(do, doff, n):
                self.split(st, do, k, doff, n)
        for a, b in gaps:
            dflt = so.default
            if dflt == "undef":
                if do.default != "undef":
                    for i in chunks(a, b):
                        do.cells[doff + i[0]] = (i[1], "i", UNDEF)
            elif dflt == "zero":
                if do.default != "zero":
                    for i in chunks(a, b):
                        do.cells[doff + i[0]] = (i[1], "i", 0)
            else:
                # lazily symbolic source: materialise in 8-byte ints
                for i in chunks(a, b):
                    v = tm.fresh("%s.%d" % (so.name, soff + i[0]), 8 * i[1])
                    self.w_obj(st, soid).cells[soff + i[0]] = (i[1], "i", v)
                    do.cells[doff + i[0]] = (i[1], "i", v)
        for k, c in cells:
            do.cells[doff + k] = c

    def overlaps_big(self, o, off, n):
        return [k for k, c in o.cells.items() if k < off + n and k + c[0] > off]

    def _rowfit(self, st, p, n):
        if not isinstance(p, Ptr):
            return True
        o = st.mem[self.canon(st, p.o)]
        if o.rows is None:
            return True
        if is_c(p.f):
            return p.f % o.stride + n <= o.stride
        return True

    def memcpy_rows(self, st, d, s, n):
        # copy in 8-byte steps through the generic path
        i = 0
        vals = []
        while i < n:
            k = 8 if n - i >= 8 else 1
            oid, off = self.locate(st, self.padd(st, s, i), k, "read")
            o = st.mem[oid]
            c = o.cells.get(off)
            if c is not None and c[0] == k:
                vals.append((i, k, c[1], c[2]))
            else:
                vals.append((i, k, "i", self.read(st, oid, off, k, "i")))
            i += k
        for i, k, kd, v in vals:
            oid, off = self.locate(st, self.padd(st, d, i), k, "write", True)
            self.write(st, oid, off, k, kd, v)

    def memset(self, st, p, v, n):
        if not is_c(n):
            c = self.concretize(st, n)
            n = c if c is not None else self.enum_value(st, n)
        if n == 0:
            return
        oid, off = self.deref(st, p, n, "write")
        o = self.w_obj(st, oid)
        if o.rows is not None:
            if not is_c(off) or v != 0:
                raise Unsupported("memset on row object")
            if off == 0 and n == o.size:
                o.rows = []
                o.cells = {}
                o.default = "zero"
                o.rowdef = {}
                return
            for i in range(0, n, 8):
                self.store(st, self.padd(st, p, i), ir.INT(64), 0)
            return
        if not is_c(off):
            raise Unsupported("symbolic memset")
        if off == 0 and o.size == n and is_c(v) and v == 0:
            o.cells = {}
            o.default = "zero"
            return
        for k in self.overlaps_big(o, off, n):
            self.split(st, o, k, off, n)
        if is_c(v) and v == 0:
            if o.default != "zero":
                for a, b in chunks(0, n, off):
                    o.cells[off + a] = (b, "i", 0)
            return
        for i in range(n):
            o.cells[off + i] = (1, "i", v)

    def enum_value(self, st, t, limit=40):
        """fork so that t becomes concrete"""
        vals = self.feasible_values(st, t, limit)
        if vals is None:
            raise Unsupported("cannot enumerate %s" % tm.show(t)[:100])
        if len(vals) == 1:
            st.known[t.id] = vals[0]
            return vals[0]
        self.decide(st, tm.eq(t, vals[0], t.sort))
        # decide returned without forking: the value is determined by the path condition
        return vals[0]

    def feasible_values(self, st, t, limit):
        import z3
        vals = []
        cs = solve.relevant(st.pcs, [t])
        s = z3.Solver()
        s.set("timeout", self.o["qtimeout"])
        for c in cs:
            s.add(solve.to_z3(c))
        for a in solve.side_axioms(cs + [t]):
            s.add(a)
        z = solve.to_z3(t)
        while len(vals) <= limit:
            r = s.check()
            if r == z3.unsat:
                return vals or [0]
            if r != z3.sat:
                return None
            v = s.model().eval(z, model_completion=True).as_long()
            vals.append(v)
            s.add(z != v)
            if len(vals) == 1:
                # quick exit: we only need to know whether more than one value exists
                if s.check() == z3.unsat:
                    return vals
                return vals + [None]
        return None

    # ------------------------------------------------------------ path condition
    def assume(self, st, c):
        """add c to the path condition; returns False if trivially false"""
        if is_c(c):
            return bool(c)
        if c.id in st.pcset:
            return True
        if c.op == "and" and c.sort == "B":
            return self.assume(st, c.args[0]) and self.assume(st, c.args[1])
        if c.op == "not" and c.args[0].op == "or":
            o = c.args[0]
            return self.assume(st, tm.b_not(o.args[0])) and self.assume(st, tm.b_not(o.args[1]))
        st.pcset.add(c.id)
        st.pcs.append(c)
        if c.op == "eq":
            a, b = c.args
            if is_c(b) and isinstance(a, T):
                st.known[a.id] = b
                if a.op == "sym":
                    st.subst[a] = b
            elif isinstance(a, T) and isinstance(b, T) and a.op == "sym" and b.op == "sym":
                ia, ib = a.args[0].startswith("addr"), b.args[0].startswith("addr")
                if not ia and (ib or a.id > b.id):
                    st.subst[a] = st.subst.get(b, b)
                elif not ib:
                    st.subst[b] = st.subst.get(a, a)
        elif c.op == "req" and self.solve_req(st, c):
            pass
        elif c.op == "req":
            a, b = c.args
            if isinstance(a, T) and is_c(b):
                if a.op == "sym":
                    st.subst[a] = b
                else:
                    st.rules.append((a, b))
            elif isinstance(a, T) and isinstance(b, T):
                if a.op == "sym" and a.id not in tm.syms(b):
                    st.rules.append((a, b))
                elif b.op == "sym" and b.id not in tm.syms(a):
                    st.rules.append((b, a))
                else:
                    st.rules.append((a, b))
        elif c.op == "sym" and c.sort == "B":
            st.subst[c] = True
        elif c.op == "not" and c.args[0].op == "sym":
            st.subst[c.args[0]] = False
        return True

    def solve_req(self, st, c):
        """linear real equation: eliminate a free symbol by substitution"""
        mp = {}

        def walk(t, k):
            if is_c(t):
                mp[None] = mp.get(None, 0) + Fraction(t) * k
            elif t.op == "radd":
                walk(t.args[0], k)
                walk(t.args[1], k)
            elif t.op == "rmul" and is_c(t.args[1]):
                walk(t.args[0], k * t.args[1])
            else:
                mp[t] = mp.get(t, 0) + k
        memo = {}
        a, b = (tm.subst(x, st.subst, memo) if isinstance(x, T) else x for x in c.args)
        walk(a, Fraction(1))
        walk(b, Fraction(-1))
        cands = [t for t in mp if t is not None and t.op == "sym" and t is not poly.PI and mp[t] and
                 all(t.id not in tm.syms(u) for u in mp if u is not None and u is not t)]
        if not cands:
            cands = [t for t in mp if t is not None and t.op == "uf:nearbyint" and mp[t] and
                     all(not occurs(t, u) for u in mp if u is not None and u is not t)]
        if not cands:
            return False
        x = max(cands, key=lambda t: t.id)
        k = mp.pop(x)
        r = Fraction(mp.pop(None, 0)) * (-1 / k)
        for t, q in mp.items():
            if q:
                r = tm.r_add(r, tm.r_mul(t, -q / k))
        one = {x: r}
        memo = {}
        for y in list(st.subst):
            v = st.subst[y]
            if isinstance(v, T) and (x.op != "sym" or x.id in tm.syms(v)):
                st.subst[y] = tm.subst(v, one, memo)
        st.subst[x] = r
        return True

    def lookup(self, st, c):
        if c.id in st.pcset:
            return True
        n = tm.b_not(c)
        if isinstance(n, T) and n.id in st.pcset:
            return False
        if c.op == "eq" and is_c(c.args[1]) and isinstance(c.args[0], T):
            v = st.known.get(c.args[0].id)
            if v is not None:
                return v == c.args[1]
        return None

    def decide(self, st, c):
        if is_c(c):
            return bool(c)
        r = self.lookup(st, c)
        if r is not None:
            return r
        if st.subst:
            c2 = tm.subst(c, st.subst)
            if is_c(c2):
                return bool(c2)
        if c.op == "req" or (c.op == "not" and c.args[0].op == "req"):
            q = c if c.op == "req" else c.args[0]
            if poly.prove_eq(q.args[0], q.args[1], st.rules, st.subst):
                st.pcset.add(q.id)
                return c.op == "req"
        n = tm.b_not(c)
        # a bit-vector condition is decided by the bit-vector part of the path (exploring an
        # infeasible path is harmless: its obligations are judged under the whole path)
        pcs = st.pcs if not self.o.get("bvsplit") or tm.has_real(c) else [p for p in st.pcs if not tm.has_real(p)]
        r1, _ = solve.check(pcs, [c], self.o["dtimeout"])
        if r1 == "unsat":
            self.learn(st, n)
            return False
        r2, _ = solve.check(pcs, [n], self.o["dtimeout"])
        if r2 == "unsat":
            self.learn(st, c)
            return True
        raise Fork(c)

    def learn(self, st, c):
        if isinstance(c, T):
            st.pcset.add(c.id)
            if c.op == "eq" and is_c(c.args[1]) and isinstance(c.args[0], T):
                st.known[c.args[0].id] = c.args[1]

    def prove(self, st, c, timeout=None):
        """(status, method, model)"""
        if is_c(c):
            return ("proved", "const", None) if c else ("refuted", "const", None)
        r = self.lookup(st, c)
        if r is True:
            return "proved", "path", None
        timeout = timeout or self.o["qtimeout"] * 3
        if st.subst:
            c2 = tm.subst(c, st.subst)
            if is_c(c2) and c2:
                return "proved", "const", None
        if c.op == "req":
            if poly.prove_eq(c.args[0], c.args[1], st.rules, st.subst):
                return "proved", "normal-form", None
            if self.prove_abs(st, c):
                return "proved", "normal-form", None
        r, m = solve.check(st.pcs, [tm.b_not(c)], timeout, want_model=True)
        if r == "unsat":
            return "proved", "z3", None
        if r == "sat":
            return "refuted", "z3", m
        # split boolean structure
        if c.op == "and":
            a = self.prove(st, c.args[0], timeout)
            if a[0] != "proved":
                return a
            return self.prove(st, c.args[1], timeout)
        return "unknown", "z3", None

    def prove_abs(self, st, c):
        """case split on the signs of absolute values occurring in the equations"""
        atoms = {}

        def walk(t, seen):
            if not isinstance(t, T) or t.id in seen:
                return
            seen.add(t.id)
            if t.op == "rabs":
                atoms[t.id] = t
            elif t.op == "rite":
                return
            for a in t.args:
                walk(a, seen)
        seen = set()
        for l, r in st.rules:
            walk(l, seen)
            walk(r, seen)
        for p in st.pcs:
            if p.op == "req":
                walk(p, seen)
        walk(c, seen)
        al = list(atoms.values())
        if not al or len(al) > 4:
            return False
        for k in range(1 << len(al)):
            cs, mp = [], {}
            for i, t in enumerate(al):
                x = t.args[0]
                if k >> i & 1:
                    cs.append(tm.r_lt(x, tm.ZERO))
                    mp[t] = tm.r_neg(x)
                else:
                    cs.append(tm.r_le(tm.ZERO, x))
                    mp[t] = x
            if solve.check(st.pcs, cs, self.o["qtimeout"])[0] == "unsat":
                continue
            s2 = State(self.base)
            s2.subst = dict(st.subst)
            memo = {}
            for t in list(s2.subst):
                if isinstance(s2.subst[t], T):
                    s2.subst[t] = tm.subst(s2.subst[t], mp, memo)
            for p in st.pcs:
                if p.op == "req":
                    q = tm.subst(p, mp, memo)
                    if isinstance(q, T) and q is not p:
                        self.assume(s2, q)
            for l, r in st.rules:
                s2.rules.append((tm.subst(l, mp, memo) if isinstance(l, T) else l, tm.subst(r, mp, memo) if isinstance(r, T) else r))
            if not poly.prove_eq(tm.subst(c.args[0], mp, memo) if isinstance(c.args[0], T) else c.args[0],
                                 tm.subst(c.args[1], mp, memo) if isinstance(c.args[1], T) else c.args[1], s2.rules, s2.subst):
                return False
        return True

    # ------------------------------------------------------------ value helpers
    def toint(self, st, v):
        return self.ptr_term(st, v) if isinstance(v, Ptr) else v

    def trunc(self, st, x, w0, w1):
        if x is UNDEF:
            return x
        if w0 == w1:
            return x
        x = self.toint(st, x)
        r = tm.extract(x, w1 - 1, 0, w0)
        if w1 == 1:
            return bool(r) if is_c(r) else tm.eq(r, 1, 1)
        return r

    def gep(self, st, bt, p, idx):
        off = 0
        ty = bt
        first = True
        for t, v in idx:
            if v is UNDEF:
                return UNDEF
            if first:
                es = self.m.size(ty)
                first = False
                v = self.sx(st, v, t.w)
                off = tm.add(off, tm.mul(v, es, 64), 64)
                continue
            rt = self.m.resolve(ty)
            if rt.k == "struct":
                off = tm.add(off, self.m.offsets(rt)[v], 64)
                ty = rt.el[v]
            else:
                ty = rt.el
                es = self.m.size(ty)
                v = self.sx(st, v, t.w)
                off = tm.add(off, tm.mul(v, es, 64), 64)
        if p is UNDEF:
            return UNDEF
        if isinstance(p, Ptr):
            return Ptr(p.o, tm.add(p.f, off, 64))
        return tm.add(p, off, 64)

    def sx(self, st, v, w):
        v = self.toint(st, v)
        if w < 64:
            return tm.sext(v, w, 64)
        return v

    def ev(self, st, fr, v, ty):
        k = v[0]
        if k == "l":
            try:
                return fr.regs[v[1]]
            except KeyError:
                raise Unsupported("internal: register %s undefined in %s" % (v[1], fr.fn.name)) from None
        if k == "c":
            return v[1]
        return self.const(st, v, ty)

    def binop(self, st, op, ty, a, b):
        w = ty.w
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if w == 1:
            if op in ("and", "mul"):
                return tm.b_and(bl(a), bl(b))
            if op == "or":
                return tm.b_or(bl(a), bl(b))
            if op in ("xor", "add", "sub"):
                return tm.b_xor(bl(a), bl(b))
            raise Unsupported("i1 " + op)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            r = self.ptrop(st, op, a, b)
            if r is not None:
                return r
            a, b = self.toint(st, a), self.toint(st, b)
        f = BIN[op]
        if op in ("udiv", "urem", "sdiv", "srem"):
            if not self.decide(st, tm.b_not(tm.eq(b, 0, w))):
                raise MemFault("integer division by zero")
            if op in ("sdiv", "srem"):
                ovf = tm.b_and(tm.eq(b, M(w), w), tm.eq(a, 1 << (w - 1), w))
                if self.decide(st, ovf):
                    raise MemFault("signed division overflow")
        r = f(a, b, w)
        if w == 64 and isinstance(r, T) and r.op in ("add", "sym", "and"):
            q = self.term_ptr(st, r)
            return q
        return r

    def ptrop(self, st, op, a, b):
        if op == "add":
            if isinstance(a, Ptr) and not isinstance(b, Ptr):
                return Ptr(a.o, tm.add(a.f, b, 64))
            if isinstance(b, Ptr) and not isinstance(a, Ptr):
                return Ptr(b.o, tm.add(b.f, a, 64))
            return None
        if op == "sub":
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.o == b.o:
                    return tm.sub(a.f, b.f, 64)
                return None
            if isinstance(a, Ptr):
                return Ptr(a.o, tm.sub(a.f, b, 64))
            return None
        if isinstance(b, Ptr):
            a, b = b, a
            if isinstance(b, Ptr):
                return None
        if is_c(b) and is_c(a.f):
            al = st.mem[a.o].align - 1
            if op == "and":
                if b & ~al & M(64) == M(64) & ~al:
                    return Ptr(a.o, (a.f & ~(~b & al)) & M(64) if (a.f & al) == a.f & (al) else None)
                if b <= al:
                    return a.f & b
            if op in ("or", "xor") and b <= al:
                if op == "or":
                    return Ptr(a.o, a.f | b)
                return Ptr(a.o, a.f ^ b)
        return None

    def icmp(self, st, pred, ty, a, b):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if ty.k == "int" and ty.w == 1:
            a, b = bl(a), bl(b)
            if pred == "eq":
                return tm.b_eq(a, b)
            if pred == "ne":
                return tm.b_xor(a, b)
            if pred == "ult":
                return tm.b_and(tm.b_not(a), b)
            if pred == "ugt":
                return tm.b_and(a, tm.b_not(b))
            if pred == "ule":
                return tm.b_or(tm.b_not(a), b)
            if pred == "uge":
                return tm.b_or(a, tm.b_not(b))
            raise Unsupported("icmp i1 " + pred)
        w = ty.w if ty.k == "int" else 64
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if pred in ("eq", "ne"):
                r = self.ptr_eq(st, a, b)
                return r if pred == "eq" else tm.b_not(r)
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.o == b.o:
                a, b = a.f, b.f
                # offsets compare as signed distances are fine for in-bounds pointers
                if pred[0] == "u":
                    a, b = tm.add(a, 1 << 63, 64), tm.add(b, 1 << 63, 64)
                    if is_c(a) and is_c(b):
                        pass
            else:
                a, b = self.toint(st, a), self.toint(st, b)
        if pred == "eq":
            return tm.eq(a, b, w)
        if pred == "ne":
            return tm.b_not(tm.eq(a, b, w))
        if pred == "ult":
            return tm.ult(a, b, w)
        if pred == "ugt":
            return tm.ult(b, a, w)
        if pred == "ule":
            return tm.ule(a, b, w)
        if pred == "uge":
            return tm.ule(b, a, w)
        if pred == "slt":
            return tm.slt(a, b, w)
        if pred == "sgt":
            return tm.slt(b, a, w)
        if pred == "sle":
            return tm.sle(a, b, w)
        return tm.sle(b, a, w)

    def ptr_eq(self, st, a, b):
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            oa, ob = st.alias.get(a.o, a.o), st.alias.get(b.o, b.o)
            if oa == ob:
                return tm.eq(a.f, b.f, 64)
            la, lb = st.mem[a.o].kind == "lazy", st.mem[b.o].kind == "lazy"
            if la and lb:
                return tm.eq(self.ptr_term(st, a), self.ptr_term(st, b), 64)
            return False
        if isinstance(b, Ptr):
            a, b = b, a
        if is_c(b):
            if b == 0 or b < 4096:
                return False
            if st.mem[a.o].kind == "lazy":
                return tm.eq(self.ptr_term(st, a), b, 64)
            return False
        return tm.eq(self.ptr_term(st, a), b, 64)

    def fcmp(self, st, pred, a, b):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if isinstance(a, FInf) or isinstance(b, FInf):
            return self.fcmp_inf(pred, a, b)
        if pred == "uno":
            return False
        if pred == "ord":
            return True
        p = pred[1:]
        # idealised tolerances: strictness against TINY
        if is_c(b) and not is_c(a) and abs(b) == TINY:
            if b > 0:
                if p in ("lt", "le"):
                    return tm.r_le(a, tm.ZERO)
                if p in ("gt", "ge"):
                    return tm.r_lt(tm.ZERO, a)
            else:
                if p in ("lt", "le"):
                    return tm.r_lt(a, tm.ZERO)
                if p in ("gt", "ge"):
                    return tm.r_le(tm.ZERO, a)
        elif is_c(a) and not is_c(b) and abs(a) == TINY:
            return self.fcmp(st, pred[0] + {"lt": "gt", "gt": "lt", "le": "ge", "ge": "le", "eq": "eq", "ne": "ne"}[p], b, a)
        if p == "eq":
            return tm.r_eq(a, b)
        if p == "ne":
            return tm.b_not(tm.r_eq(a, b))
        if p == "lt":
            return tm.r_lt(a, b)
        if p == "gt":
            return tm.r_lt(b, a)
        if p == "le":
            return tm.r_le(a, b)
        if p == "ge":
            return tm.r_le(b, a)
        raise Unsupported("fcmp " + pred)

    def fcmp_inf(self, pred, a, b):
        def f(x):
            if isinstance(x, FInf):
                return float(x.s)
            if is_c(x):
                return 0.0
            return 0.0
        x, y = f(a), f(b)
        un = x != x or y != y
        p = pred[1:]
        if pred == "uno":
            return un
        if pred == "ord":
            return not un
        if un:
            return pred[0] == "u"
        return {"eq": x == y, "ne": x != y, "lt": x < y, "gt": x > y, "le": x <= y, "ge": x >= y}[p]

    def fbin(self, st, op, a, b):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if isinstance(a, FInf) or isinstance(b, FInf):
            return self.fbin_inf(st, op, a, b)
        if is_c(a) and a and abs(a) == TINY or is_c(b) and b and abs(b) == TINY:
            return self.tinyop(st, op, a, b)
        if op == "fadd":
            return tm.r_add(a, b)
        if op == "fsub":
            return tm.r_sub(a, b)
        if op == "fmul":
            return tm.r_mul(a, b)
        if op == "fdiv":
            nz = tm.b_not(tm.r_eq(b, tm.ZERO))
            if not self.decide(st, nz):
                # IEEE: inf or nan (the sign of a zero divisor is idealised to +)
                if self.decide(st, tm.r_eq(a, tm.ZERO)):
                    return NAN
                return INF if self.decide(st, tm.r_lt(tm.ZERO, a)) else NINF
            return tm.r_div(a, b)
        if op == "frem":
            if is_c(a) and is_c(b) and b:
                q = abs(a) // abs(b)
                r = abs(a) - q * abs(b)
                return r if a >= 0 else -r
            return tm.uf("fmod", "R", a, b)
        raise Unsupported(op)

    def fbin_inf(self, st, op, a, b):
        def s(x):
            if isinstance(x, FInf):
                return {"inf": 1, "-inf": -1, "nan": None}[x.s]
            return 0
        if (isinstance(a, FInf) and a.s == "nan") or (isinstance(b, FInf) and b.s == "nan"):
            return NAN
        if op in ("fadd", "fsub"):
            x, y = s(a), s(b) * (1 if op == "fadd" else -1)
            if x and y:
                return (INF if x > 0 else NINF) if x == y else NAN
            return INF if (x or y) > 0 else NINF
        if op == "fmul":
            def sg(x):
                if isinstance(x, FInf):
                    return s(x)
                if is_c(x):
                    return (x > 0) - (x < 0)
                if self.decide(st, tm.r_eq(x, tm.ZERO)):
                    return 0
                return 1 if self.decide(st, tm.r_lt(tm.ZERO, x)) else -1
            k = sg(a) * sg(b)
            return NAN if k == 0 else (INF if k > 0 else NINF)
        if op == "fdiv":
            if isinstance(a, FInf) and isinstance(b, FInf):
                return NAN
            if isinstance(b, FInf):
                return tm.ZERO
            k = s(a)
            if not (is_c(b)):
                neg = self.decide(st, tm.r_lt(b, tm.ZERO))
            else:
                neg = b < 0
            return (NINF if k > 0 else INF) if neg else (INF if k > 0 else NINF)
        raise Unsupported("arithmetic on non-finite value")

    def tinyop(self, st, op, a, b):
        ta = is_c(a) and a and abs(a) == TINY
        if op in ("fadd", "fsub"):
            if ta and is_c(b) and b == 0:
                return a
            if ta:
                return b if op == "fadd" else tm.r_neg(b)
            if is_c(a) and a == 0:
                return b if op == "fadd" else -b
            return a
        if op == "fmul":
            x = b if ta else a
            s = a if ta else b
            if is_c(x):
                return s if x > 0 else (-s if x < 0 else tm.ZERO)
            return tm.fresh("tinyprod", "R")
        if op == "fdiv" and ta and is_c(b) and b:
            return a if b > 0 else -a
        raise Unsupported("tolerance arithmetic " + op)

    # ------------------------------------------------------------ running
    def code(self, fn, blk):
        return fn.blocks[blk]

    def call_fn(self, st, fn, args, ins, harness=None):
        if fn.blocks is None:
            ir.parse_body(self.m, fn)
        if len(st.frames) > self.o["max_depth"]:
            raise Unsupported("call depth exceeded in " + self.dm.get(fn.name, fn.name))
        fr = Frame()
        fr.fn = fn
        fr.regs = {}
        fr.allocas = []
        fr.prev = None
        fr.ins = ins
        fr.blk = fn.entry
        fr.code = fn.blocks[fn.entry]
        fr.ip = 0
        fr.harness = self.is_harness(fn)
        fr.ret_to = None
        for (t, nm, bv, sr), a in zip(fn.params, args):
            if bv is not None:
                n = self.m.size(bv)
                o = self.new_obj(st, "byval", n, "stack", "undef")
                fr.allocas.append(o.id)
                self.memcpy(st, Ptr(o.id, 0), a, n)
                a = Ptr(o.id, 0)
            fr.regs[nm] = a
        self.funcs_executed[fn.name] = self.funcs_executed.get(fn.name, 0) + 1
        st.frames.append(fr)

    def is_harness(self, fn):
        r = self.harness_sp.get(fn.name)
        if r is None:
            s = self.m.md.get(fn.sp or "", "")
            fl = re.search(r'file: !(\d+)', s)
            ff = self.m.md.get(fl.group(1), "") if fl else ""
            r = re.search(r"filename: \"(?:[^\"]*/)?contracts/", ff) is not None
            self.harness_sp[fn.name] = r
        return r

    def run(self, entry, setup=None):
        st = State(self.base)
        fn = self.m.funcs[entry]
        self.call_fn(st, fn, [], None)
        if setup:
            setup(self, st)
        work = [st]
        self.t0 = time.time()
        while work:
            st = work.pop()
            try:
                self.run_path(st, work)
            except PathEnd as e:
                self.ended[e.why] = self.ended.get(e.why, 0) + 1
                if e.why != "infeasible-row":
                    self.paths += 1
            except Unsupported as e:
                self.paths += 1
                self.ended["unsupported"] = self.ended.get("unsupported", 0) + 1
                self.unsupported.append((str(e), self.where(st)))
            if self.paths > self.o["max_paths"]:
                self.unsupported.append(("path limit %d" % self.o["max_paths"], ""))
                break
            if time.time() - self.t0 > self.o["timeout"]:
                self.unsupported.append(("time limit %ds" % self.o["timeout"], ""))
                break

    def where(self, st):
        out = []
        for fr in reversed(st.frames[-8:]):
            ins = fr.code[fr.ip] if fr.ip < len(fr.code) else None
            out.append("%s (%s)" % (short(self.dm.get(fr.fn.name, fr.fn.name)), ir.dbg_loc(self.m, fr.fn, ins.dbg if ins else None)))
        return " <- ".join(out)

    def loc(self, st):
        """innermost non-library location"""
        for fr in reversed(st.frames):
            ins = fr.code[fr.ip] if fr.ip < len(fr.code) else None
            l = ir.dbg_loc(self.m, fr.fn, ins.dbg if ins else None)
            if "/usr/" not in l and "bits/" not in l and l != "?:?":
                return l
        return "?"

    def run_path(self, st, work):
        while True:
            try:
                while True:
                    fr = st.frames[-1]
                    ins = fr.code[fr.ip]
                    self.steps += 1
                    st.steps += 1
                    if st.steps > self.o["max_steps"]:
                        raise Unsupported("step limit")
                    if (st.steps & 0x3fff) == 0 and time.time() - self.t0 > self.o["timeout"]:
                        raise Unsupported("time limit")
                    DISPATCH[ins.op](self, st, fr, ins)
            except Fork as f:
                st.nforks += 1
                if st.nforks > self.o["max_forks"]:
                    raise Unsupported("fork limit")
                s2 = st.clone()
                c = f.cond
                if self.o["verbose"]:
                    print("FORK", tm.show(c)[:150], "@", self.loc(st))
                st.trail.append(c)
                s2.trail.append(tm.b_not(c))
                self.assume(st, c)
                self.assume(s2, tm.b_not(c))
                work.append(s2)
            except ForkN as f:
                st.nforks += 1
                for c in f.conds[1:]:
                    s2 = st.clone()
                    s2.trail.append(c)
                    if self.assume(s2, c):
                        work.append(s2)
                st.trail.append(f.conds[0])
                if not self.assume(st, f.conds[0]):
                    raise PathEnd("infeasible")
            except MemFault as e:
                self.record(st, "memory-safety/UB: " + e.what, False)
                raise PathEnd("fault")

    def record(self, st, label, cond):
        t = time.time()
        status, method, model = self.prove(st, cond)
        if status != "proved":
            # make sure the path itself is feasible
            if is_c(cond):
                r, model = solve.check(st.pcs, [], self.o["qtimeout"] * 3, want_model=True, slice_=False)
                if r == "unsat":
                    self.obls.append(Obligation(label, "proved", "unreachable", "", self.loc(st), t=time.time() - t, path=self.paths))
                    return
                if r == "unknown":
                    status = "unknown"
            else:
                r, model = solve.check(st.pcs, [tm.b_not(cond)], self.o["qtimeout"] * 3, want_model=True, slice_=False)
                if r == "unsat":
                    status, method = "proved", "z3"
                elif r == "unknown":
                    status = "unknown"
        d = ""
        inputs = None
        if status != "proved":
            d = "goal: %s\npath: %s\nat: %s" % (tm.show(cond)[:2000] if isinstance(cond, T) else cond,
                                                "; ".join(tm.show(c)[:300] for c in st.trail[-40:]), self.where(st))
            inputs = self.model_inputs(st, model)
        self.obls.append(Obligation(label, status, method, d, self.loc(st), None, inputs, time.time() - t, self.paths))
        if self.o["verbose"] and status != "proved":
            print("OBL", label, status, d[:1500], inputs)

    def model_inputs(self, st, model):
        if model is None:
            return None
        out = []
        for name, val in st.inputs:
            if is_c(val):
                out.append((name, str(val)))
                continue
            try:
                z = model.eval(solve.to_z3(val), model_completion=True)
                if val.sort == "R":
                    out.append((name, str(frac(z))))
                elif val.sort == "B":
                    out.append((name, "1" if str(z) == "True" else "0"))
                else:
                    out.append((name, str(z.as_long())))
            except Exception:
                out.append((name, "?"))
        return out

    # ------------------------------------------------------------ control
    def goto(self, st, fr, label):
        code = fr.fn.blocks[label]
        prev = fr.blk
        # phis in parallel
        i = 0
        vals = None
        while i < len(code) and code[i].op == "phi":
            p = code[i]
            v = self.ev(st, fr, p.x[prev], p.ty)
            if vals is None:
                vals = []
            vals.append((p.res, v))
            i += 1
        if vals:
            for r, v in vals:
                fr.regs[r] = v
        fr.prev = prev
        fr.blk = label
        fr.code = code
        fr.ip = i

    def do_ret(self, st, v):
        fr = st.frames.pop()
        for a in fr.allocas:
            o = self.w_obj(st, a)
            o.live = False
            o.cells = {}
        if not st.frames:
            raise PathEnd("done")
        ins = fr.ins
        cf = st.frames[-1]
        if fr.ret_to is not None:
            fr.ret_to(self, st, v)
            return
        self.finish_call(st, cf, ins, v)

    def finish_call(self, st, fr, ins, v):
        if ins.res is not None:
            fr.regs[ins.res] = v
        if ins.op == "invoke":
            self.goto(st, fr, ins.x[0])
        else:
            fr.ip += 1

    def throw(self, st, exc):
        """unwind: exc = (exception object ptr, typeinfo ptr)"""
        # the throwing call instruction is current in the top frame
        while st.frames:
            fr = st.frames[-1]
            ins = fr.code[fr.ip]
            if ins.op == "invoke":
                # landing pad
                lp = ins.x[1]
                code = fr.fn.blocks[lp]
                k = 0
                while code[k].op == "phi":
                    k += 1
                sel = self.match_clauses(st, code[k], exc)
                if sel is not None:
                    st.unwinding = (exc, sel)
                    self.goto(st, fr, lp)
                    return
            elif fr.fn.nounwind and False:
                pass
            st.frames.pop()
            for a in fr.allocas:
                o = self.w_obj(st, a)
                o.live = False
            if fr.ret_to is not None and getattr(fr.ret_to, "on_throw", None):
                fr.ret_to.on_throw(self, st, exc)
                return
        self.frames_empty(st, exc)

    def frames_empty(self, st, exc):
        st2 = st
        name = st.mem[exc[1].o].name if isinstance(exc[1], Ptr) else "?"
        fr = Frame()
        fr.fn = self.m.funcs[self.entry] if hasattr(self, "entry") else None
        self.record_raw(st, "no exception escapes: uncaught " + name)
        raise PathEnd("uncaught")

    def record_raw(self, st, label):
        r, model = solve.check(st.pcs, [], self.o["qtimeout"] * 3, want_model=True, slice_=False)
        stt = "proved" if r == "unsat" else ("refuted" if r == "sat" else "unknown")
        self.obls.append(Obligation(label, stt, "z3", "path: %s" % "; ".join(tm.show(c)[:300] for c in st.trail[-40:]), "", None, self.model_inputs(st, model), 0, self.paths))

    def match_clauses(self, st, lpi, exc):
        cleanup = False
        for c in lpi.a:
            if c[0] == "cleanup":
                cleanup = True
            elif c[0] == "catch":
                v = self.const(st, c[1], ir.PTR)
                if not isinstance(v, Ptr):
                    return self.typeid(v)  # catch (...)
                if self.derives(st, exc[1], v):
                    return self.typeid(v)
            elif c[0] == "filter":
                raise Unsupported("exception filter")
        return 0 if cleanup else None

    def typeid(self, v):
        if isinstance(v, Ptr):
            return 1000 + v.o
        return 999

    def derives(self, st, a, b):
        """typeinfo a derives from (or equals) b"""
        na, nb = st.mem[a.o].name, st.mem[b.o].name
        return nb in self.bases(st, na)

    def bases(self, st, name):
        out = [name]
        x = name
        for b in self.direct_bases(st, name):
            out += self.bases(st, b[0])
        return out

    def direct_bases(self, st, name):
        if name in STD_BASES:
            return [(STD_BASES[name], 0)]
        g = self.m.globals.get(name)
        if g is None or g.init is None:
            return []
        p = self.glob(st, name)
        el = g.init[1]
        vt = el[0][1]
        vts = repr(vt)
        if "si_class_type_info" in vts:
            b = self.const(st, el[2][1], ir.PTR)
            return [(st.mem[b.o].name, 0)]
        if "vmi_class_type_info" in vts:
            n = el[3][1][1]
            r = []
            for i in range(n):
                b = self.const(st, el[4 + 2 * i][1], ir.PTR)
                fl = el[5 + 2 * i][1][1]
                r.append((st.mem[b.o].name, tm.sgn(fl, 64) >> 8))
            return r
        return []

    def base_offset(self, st, frm, to):
        """offset of base class `to` within class `frm` (non-virtual), or None"""
        if frm == to:
            return 0
        for b, off in self.direct_bases(st, frm):
            r = self.base_offset(st, b, to)
            if r is not None:
                return off + r
        return None


def occurs(t, u):
    st = [u]
    seen = set()
    while st:
        x = st.pop()
        if x is t:
            return True
        if isinstance(x, T) and x.id not in seen:
            seen.add(x.id)
            st.extend(x.args)
    return False


def chunks(a, b, base=0):
    out = []
    i = a
    while i < b:
        n = 8
        while n > 1 and ((base + i) % n or i + n > b):
            n //= 2
        out.append((i, n))
        i += n
    return out


def frac(z):
    import z3
    if z3.is_rational_value(z):
        return Fraction(z.numerator_as_long(), z.denominator_as_long())
    if z3.is_algebraic_value(z):
        a = z.approx(20)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    return str(z)


def kind_of(ty):
    k = ty.k
    if k == "double":
        return "f"
    if k == "float":
        return "F"
    if k == "x86_fp80":
        return "X"
    if k == "ptr":
        return "p"
    return "i"


def bl(x):
    if isinstance(x, T):
        return x
    return bool(x)


def short(s):
    return s if len(s) < 140 else s[:140] + "..."


BIN = {"add": tm.add, "sub": tm.sub, "mul": tm.mul, "udiv": tm.udiv, "sdiv": tm.sdiv, "urem": tm.urem, "srem": tm.srem,
       "and": tm.band, "or": tm.bor, "xor": tm.bxor, "shl": tm.shl, "lshr": tm.lshr, "ashr": tm.ashr}


def _mk_ideal():
    import math
    d = {}
    pi = poly.PI
    h = poly.SQRT2
    for k, q in ((1, Fraction(1)), (2, Fraction(2)), (0.5, Fraction(1, 2)), (0.25, Fraction(1, 4)), (0.75, Fraction(3, 4)),
                 (1.5, Fraction(3, 2)), (4, Fraction(4)), (0.125, Fraction(1, 8))):
        d[Fraction(math.pi * k)] = tm.r_mul(pi, q)
        d[-Fraction(math.pi * k)] = tm.r_mul(pi, -q)
    for v, q in ((math.sqrt(2), Fraction(1)), (1 / math.sqrt(2), Fraction(1, 2)), (0.5 * math.sqrt(2), Fraction(1, 2)),
                 (0.70710678118654752440, Fraction(1, 2)), (math.sqrt(0.5), Fraction(1, 2))):
        d[Fraction(v)] = tm.r_mul(h, q)
        d[-Fraction(v)] = tm.r_mul(h, -q)
    return d


IDEAL = _mk_ideal()


# ---------------------------------------------------------------- instructions
def i_bin(e, st, fr, ins):
    a = e.ev(st, fr, ins.a[0], ins.ty)
    b = e.ev(st, fr, ins.a[1], ins.ty)
    fr.regs[ins.res] = e.binop(st, ins.op, ins.ty, a, b)
    fr.ip += 1


def i_fbin(e, st, fr, ins):
    a = e.ev(st, fr, ins.a[0], ins.ty)
    b = e.ev(st, fr, ins.a[1], ins.ty)
    fr.regs[ins.res] = e.fbin(st, ins.op, a, b)
    fr.ip += 1


def i_fneg(e, st, fr, ins):
    a = e.ev(st, fr, ins.a[0], ins.ty)
    fr.regs[ins.res] = a if a is UNDEF else ({"inf": NINF, "-inf": INF, "nan": NAN}[a.s] if isinstance(a, FInf) else tm.r_neg(a))
    fr.ip += 1


def i_icmp(e, st, fr, ins):
    a = e.ev(st, fr, ins.a[0], ins.ty)
    b = e.ev(st, fr, ins.a[1], ins.ty)
    fr.regs[ins.res] = e.icmp(st, ins.x, ins.ty, a, b)
    fr.ip += 1


def i_fcmp(e, st, fr, ins):
    a = e.ev(st, fr, ins.a[0], ins.ty)
    b = e.ev(st, fr, ins.a[1], ins.ty)
    fr.regs[ins.res] = e.fcmp(st, ins.x, a, b)
    fr.ip += 1


def i_alloca(e, st, fr, ins):
    n = e.ev(st, fr, ins.a[0], ir.INT(64))
    if not is_c(n):
        n = e.enum_value(st, n)
    o = e.new_obj(st, "%s:%s" % (short(e.dm.get(fr.fn.name, fr.fn.name))[:40], ins.res), e.m.size(ins.ty) * n, "stack", "undef")
    fr.allocas.append(o.id)
    fr.regs[ins.res] = Ptr(o.id, 0)
    fr.ip += 1


def i_load(e, st, fr, ins):
    p = e.ev(st, fr, ins.a[0], ir.PTR)
    v = e.load(st, p, ins.ty)
    if ins.ty.k == "ptr" and isinstance(v, T):
        v = e.term_ptr(st, v)
    fr.regs[ins.res] = v
    fr.ip += 1


def i_store(e, st, fr, ins):
    v = e.ev(st, fr, ins.a[0], ins.ty)
    p = e.ev(st, fr, ins.a[1], ir.PTR)
    e.store(st, p, ins.ty, v)
    fr.ip += 1


def i_gep(e, st, fr, ins):
    p = e.ev(st, fr, ins.a[0], ir.PTR)
    idx = [(t, e.ev(st, fr, v, t)) for t, v in ins.x]
    fr.regs[ins.res] = e.gep(st, ins.ty, p, idx)
    fr.ip += 1


def i_cast(e, st, fr, ins):
    op = ins.op
    t0, t1 = ins.x, ins.ty
    v = e.ev(st, fr, ins.a[0], t0)
    fr.regs[ins.res] = cast(e, st, op, v, t0, t1)
    fr.ip += 1


def cast(e, st, op, v, t0, t1):
    if v is UNDEF:
        return v
    if op == "zext":
        if t0.w == 1:
            return tm.ite(v, 1, 0, t1.w) if isinstance(v, T) else int(v)
        return tm.zext(e.toint(st, v), t0.w, t1.w)
    if op == "sext":
        if t0.w == 1:
            return tm.ite(v, M(t1.w), 0, t1.w) if isinstance(v, T) else (M(t1.w) if v else 0)
        return tm.sext(e.toint(st, v), t0.w, t1.w)
    if op == "trunc":
        return e.trunc(st, v, t0.w, t1.w)
    if op == "ptrtoint":
        if t1.w < 64:
            return e.trunc(st, v, 64, t1.w)
        return v
    if op == "inttoptr":
        if isinstance(v, T):
            return e.term_ptr(st, v)
        return v
    if op == "bitcast":
        return e.conv(st, v, kind_of(t0), kind_of(t1), e.m.size(t1))
    if op in ("sitofp", "uitofp"):
        if t0.w == 1:
            return tm.r_ite(v, Fraction(1), Fraction(0)) if isinstance(v, T) else Fraction(int(v))
        v = e.toint(st, v)
        if is_c(v):
            return Fraction(tm.sgn(v, t0.w) if op == "sitofp" else v)
        if op == "uitofp" and v.op == "zext":
            return tm.mk("u2r", "R", v.args[0])
        if v.op == "ite" and is_c(v.args[1]) and is_c(v.args[2]):
            f = (lambda x: Fraction(tm.sgn(x, t0.w))) if op == "sitofp" else (lambda x: Fraction(x))
            return tm.r_ite(v.args[0], f(v.args[1]), f(v.args[2]))
        return tm.mk("s2r" if op == "sitofp" else "u2r", "R", v)
    if op in ("fptosi", "fptoui"):
        if isinstance(v, FInf):
            raise MemFault("float to int of non-finite value")
        if is_c(v):
            q = abs(v.numerator) // v.denominator
            q = q if v >= 0 else -q
            return q & M(t1.w)
        if v.op in ("u2r", "s2r"):
            a = v.args[0]
            return tm.zext(a, a.sort, t1.w) if v.op == "u2r" and a.sort <= t1.w else tm.sext(a, a.sort, t1.w) if a.sort <= t1.w else tm.extract(a, t1.w - 1, 0, a.sort)
        if v.op == "rite":
            return tm.ite(v.args[0], cast(e, st, op, v.args[1], t0, t1), cast(e, st, op, v.args[2], t0, t1), t1.w)
        return tm.uf(op, t1.w, v)
    if op in ("fpext", "fptrunc", "addrspacecast"):
        return v
    raise Unsupported(op)


def i_br(e, st, fr, ins):
    if len(ins.a) == 1:
        e.goto(st, fr, ins.a[0])
        return
    c = e.ev(st, fr, ins.a[0], ir.INT(1))
    if c is UNDEF:
        raise MemFault("branch on uninitialised value")
    if isinstance(c, T):
        c = e.decide(st, c)
    e.goto(st, fr, ins.a[1] if c else ins.a[2])


def i_switch(e, st, fr, ins):
    v = e.ev(st, fr, ins.a[0], ins.ty)
    if v is UNDEF:
        raise MemFault("switch on uninitialised value")
    v = e.toint(st, v)
    if not is_c(v):
        k = e.concretize(st, v)
        if k is not None:
            v = k
    if is_c(v):
        for c, l in ins.x:
            if c == v:
                e.goto(st, fr, l)
                return
        e.goto(st, fr, ins.a[1])
        return
    w = ins.ty.w
    for c, l in ins.x:
        if e.decide(st, tm.eq(v, c, w) if w > 1 else (v if c else tm.b_not(v))):
            e.goto(st, fr, l)
            return
    e.goto(st, fr, ins.a[1])


def i_ret(e, st, fr, ins):
    v = e.ev(st, fr, ins.a[0], ins.ty) if ins.a else None
    e.do_ret(st, v)


def i_unreachable(e, st, fr, ins):
    raise MemFault("unreachable code reached")


def i_phi(e, st, fr, ins):
    raise Unsupported("stray phi")


def i_select(e, st, fr, ins):
    c = e.ev(st, fr, ins.a[0], ins.x)
    if c is UNDEF:
        fr.regs[ins.res] = UNDEF
        fr.ip += 1
        return
    a = e.ev(st, fr, ins.a[1], ins.ty)
    b = e.ev(st, fr, ins.a[2], ins.ty)
    if isinstance(c, T):
        k = ins.ty.k
        if a is UNDEF or b is UNDEF or isinstance(a, (Ptr, FInf)) or isinstance(b, (Ptr, FInf)) or k not in ("int", "double", "float"):
            c = e.decide(st, c)
        else:
            q = e.lookup(st, c)
            if q is not None:
                c = q
    if isinstance(c, T):
        if ins.ty.k == "int":
            r = tm.b_ite(c, bl(a), bl(b)) if ins.ty.w == 1 else tm.ite(c, a, b, ins.ty.w)
        else:
            r = tm.r_ite(c, a, b)
    else:
        r = a if c else b
    fr.regs[ins.res] = r
    fr.ip += 1


def i_extractvalue(e, st, fr, ins):
    v = e.ev(st, fr, ins.a[0], ins.ty)
    for i in ins.x:
        v = UNDEF if v is UNDEF else v[i]
    fr.regs[ins.res] = v
    fr.ip += 1


def i_insertvalue(e, st, fr, ins):
    v = e.ev(st, fr, ins.a[0], ins.ty)
    x = e.ev(st, fr, ins.a[1][1], ins.a[1][0])

    def put(ty, v, idx):
        ty = e.m.resolve(ty)
        if not idx:
            return x
        n = len(ty.el) if ty.k == "struct" else ty.n
        v = [UNDEF] * n if v is UNDEF else list(v)
        i = idx[0]
        v[i] = put(ty.el[i] if ty.k == "struct" else ty.el, v[i], idx[1:])
        return v
    fr.regs[ins.res] = put(ins.ty, v, ins.x)
    fr.ip += 1


def i_freeze(e, st, fr, ins):
    v = e.ev(st, fr, ins.a[0], ins.ty)
    if v is UNDEF:
        v = e.zero(ins.ty)
    fr.regs[ins.res] = v
    fr.ip += 1


def i_landingpad(e, st, fr, ins):
    exc, sel = st.unwinding
    st.unwinding = None
    st.ghost["inflight"] = exc
    fr.regs[ins.res] = [exc[0], sel]
    fr.ip += 1


def i_resume(e, st, fr, ins):
    v = e.ev(st, fr, ins.a[0], ins.ty)
    # find the exception's type
    ti = st.ghost.get(("exc", v[0].o))
    e.pop_throw(st, (v[0], ti))


def _pop_throw(self, st, exc):
    fr = st.frames.pop()
    for a in fr.allocas:
        self.w_obj(st, a).live = False
    if not st.frames:
        self.frames_empty(st, exc)
    self.throw(st, exc)


Engine.pop_throw = _pop_throw


def i_atomicrmw(e, st, fr, ins):
    p = e.ev(st, fr, ins.a[0], ir.PTR)
    v = e.ev(st, fr, ins.a[1], ins.ty)
    old = e.load(st, p, ins.ty)
    op = ins.x
    if op == "xchg":
        new = v
    elif op in ("add", "sub", "and", "or", "xor"):
        new = e.binop(st, op, ins.ty, old, v)
    else:
        raise Unsupported("atomicrmw " + op)
    e.store(st, p, ins.ty, new)
    fr.regs[ins.res] = old
    fr.ip += 1


def i_cmpxchg(e, st, fr, ins):
    p = e.ev(st, fr, ins.a[0], ir.PTR)
    c = e.ev(st, fr, ins.a[1], ins.ty)
    n = e.ev(st, fr, ins.a[2], ins.ty)
    old = e.load(st, p, ins.ty)
    ok = e.decide(st, e.icmp(st, "eq", ins.ty, old, c))
    if ok:
        e.store(st, p, ins.ty, n)
    fr.regs[ins.res] = [old, 1 if ok else 0]
    fr.ip += 1


def i_fence(e, st, fr, ins):
    fr.ip += 1


def i_call(e, st, fr, ins):
    if ins.a is None:
        raise Unsupported("inline asm")
    cal, args = ins.a
    if cal[0] == "g":
        name = cal[1][1:]
        if name in e.m.aliases:
            p = e.glob(st, name)
            name = st.mem[p.o].name
    else:
        f = e.ev(st, fr, cal, ir.PTR)
        if isinstance(f, T):
            f = e.term_ptr(st, f)
        if not isinstance(f, Ptr) or st.mem[f.o].kind != "func" or not is_c(f.f) or f.f != 0:
            raise MemFault("call through invalid function pointer %r" % (f,))
        name = st.mem[f.o].name
    fn = e.m.funcs.get(name)
    if name.startswith("llvm."):
        h = e.intrinsic(name)
        if h is None:
            fr.ip += 1
            return
        av = [e.ev(st, fr, v, t) for t, v, _ in args if t.k != "metadata"]
        r = h(e, st, fr, ins, av)
        if r is not CONTROL:
            e.finish_call(st, fr, ins, r)
        return
    av = [e.ev(st, fr, v, t) for t, v, _ in args]
    e.call_name(st, fr, ins, name, av)


class _Control:
    pass


CONTROL = _Control()


def _call_name(e, st, fr, ins, name, av):
    fn = e.m.funcs.get(name)
    if st.repl and not fr.harness:
        r = st.repl.get(name)
        if r is not None:
            e.replaced_used[name] = e.replaced_used.get(name, 0) + 1
            e.call_fn(st, e.m.funcs[r], av, ins)
            return
    h = e.models.get(name)
    if h is None:
        h = e.pmcache.get(name, 0)
        if h == 0:
            h = None
            d = e.dm.get(name, name)
            for pat, f in e.patmodels:
                if pat.search(d):
                    h = f
                    break
            e.pmcache[name] = h
    if h is not None:
        if not name.startswith("vp_"):
            e.externals_used[name] = e.externals_used.get(name, 0) + 1
        r = h(e, st, fr, ins, av)
        if r is not CONTROL:
            e.finish_call(st, fr, ins, r)
        return
    if fn is not None and (fn.lines is not None or fn.blocks is not None):
        e.call_fn(st, fn, av, ins)
        return
    raise Unsupported("external function " + e.dm.get(name, name))


Engine.call_name = _call_name


def _intrinsic(e, name):
    from . import models
    base = name
    for k, h in models.INTRINSICS:
        if name.startswith(k):
            return h
    raise Unsupported("intrinsic " + name)


Engine.intrinsic = _intrinsic

DISPATCH = {"alloca": i_alloca, "load": i_load, "store": i_store, "getelementptr": i_gep, "br": i_br, "switch": i_switch,
            "ret": i_ret, "unreachable": i_unreachable, "phi": i_phi, "select": i_select, "extractvalue": i_extractvalue,
            "insertvalue": i_insertvalue, "freeze": i_freeze, "landingpad": i_landingpad, "resume": i_resume,
            "atomicrmw": i_atomicrmw, "cmpxchg": i_cmpxchg, "fence": i_fence, "call": i_call, "invoke": i_call,
            "icmp": i_icmp, "fcmp": i_fcmp, "fneg": i_fneg}
for _o in ("add", "sub", "mul", "shl", "lshr", "ashr", "udiv", "sdiv", "urem", "srem", "and", "or", "xor"):
    DISPATCH[_o] = i_bin
for _o in ("fadd", "fsub", "fmul", "fdiv", "frem"):
    DISPATCH[_o] = i_fbin
for _o in ("zext", "sext", "trunc", "bitcast", "ptrtoint", "inttoptr", "fptosi", "fptoui", "sitofp", "uitofp", "fpext",
           "fptrunc", "addrspacecast"):
    DISPATCH[_o] = i_cast
