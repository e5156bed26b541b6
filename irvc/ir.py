"""Parser for the textual LLVM 18 IR subset emitted by clang (opaque pointers)."""
import re
import struct
from fractions import Fraction

TOK = re.compile(r'''
  (?P<str>c?"(?:[^"\\]|\\.)*")
 |(?P<gid>@"(?:[^"\\]|\\.)*"|@[-a-zA-Z$._0-9]+)
 |(?P<lid>%"(?:[^"\\]|\\.)*"|%[-a-zA-Z$._0-9]+)
 |(?P<md>!(?:[-a-zA-Z$._0-9]+|"(?:[^"\\]|\\.)*")?)
 |(?P<attr>\#\d+)
 |(?P<num>-?\d+\.\d*(?:[eE][-+]?\d+)?|0x[KLMHR]?[0-9A-Fa-f]+|-?\d+)
 |(?P<id>[a-zA-Z$._][-a-zA-Z$._0-9]*)
 |(?P<dots>\.\.\.)
 |(?P<p>[(){}\[\]<>,=*:|])
 |(?P<ws>\s+|;.*)
''', re.X)


def lex(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            raise SyntaxError("lex error at %r" % s[i:i + 40])
        k = m.lastgroup
        if k != "ws":
            out.append(m.group())
        i = m.end()
    return out


# ------------------------------------------------------------------ types
class Ty:
    __slots__ = ("k", "w", "el", "n", "name", "packed", "_size", "_align", "_offs")

    def __init__(self, k, w=0, el=None, n=0, name=None, packed=False):
        self.k = k
        self.w = w
        self.el = el
        self.n = n
        self.name = name
        self.packed = packed
        self._size = None

    def __repr__(self):
        if self.k == "int":
            return "i%d" % self.w
        if self.k == "arr":
            return "[%d x %r]" % (self.n, self.el)
        if self.k == "struct":
            return "{%s}" % ", ".join(map(repr, self.el))
        if self.k == "named":
            return self.name
        return self.k


VOID = Ty("void")
PTR = Ty("ptr")
DOUBLE = Ty("double")
FLOAT = Ty("float")
X80 = Ty("x86_fp80")
LABEL = Ty("label")
META = Ty("metadata")
_ints = {}


def INT(w):
    t = _ints.get(w)
    if t is None:
        t = _ints[w] = Ty("int", w)
    return t


class Instr:
    __slots__ = ("op", "res", "ty", "a", "dbg", "x")

    def __repr__(self):
        return "%s = %s %s" % (self.res, self.op, self.a)


class Func:
    def __init__(self):
        self.name = None
        self.ret = None
        self.params = []   # list of (ty, name, byvalty, sretty)
        self.blocks = None  # dict label -> list of Instr
        self.entry = None
        self.lines = None
        self.vararg = False
        self.nounwind = False
        self.sp = None


class Module:
    def __init__(self):
        self.types = {}
        self.funcs = {}
        self.globals = {}
        self.aliases = {}
        self.md = {}
        self.attrs = {}

    # ---------------- sizes
    def resolve(self, t):
        while t.k == "named":
            t = self.types[t.name]
        return t

    def size(self, t):
        if t._size is not None:
            return t._size
        self._layout(t)
        return t._size

    def align(self, t):
        self.size(t)
        return t._align

    def _layout(self, t):
        k = t.k
        if k == "named":
            r = self.resolve(t)
            t._size, t._align = self.size(r), self.align(r)
        elif k == "int":
            b = (t.w + 7) // 8
            s = 1
            while s < b:
                s *= 2
            t._align = min(s, 16)
            t._size = s if t.w <= 64 else ((b + 7) // 8 * 8 if t.w != 128 else 16)
        elif k == "ptr" or k == "double":
            t._size = t._align = 8
        elif k == "float":
            t._size = t._align = 4
        elif k == "x86_fp80":
            t._size = t._align = 16
        elif k == "arr" or k == "vec":
            t._align = self.align(t.el)
            t._size = self.size(t.el) * t.n
        elif k == "struct":
            off = 0
            al = 1
            offs = []
            for e in t.el:
                a = 1 if t.packed else self.align(e)
                al = max(al, a)
                off = (off + a - 1) // a * a
                offs.append(off)
                off += self.size(e)
            off = (off + al - 1) // al * al
            t._offs = offs
            t._size = off
            t._align = al
        elif k == "opaque":
            t._size, t._align = 0, 1
        else:
            raise TypeError("size of " + k)

    def offsets(self, t):
        t = self.resolve(t)
        self.size(t)
        return t._offs


PARAM_ATTRS = {"noundef", "nonnull", "zeroext", "signext", "nocapture", "readonly", "writeonly", "noalias",
               "returned", "dead_on_unwind", "writable", "readnone", "immarg", "inreg", "nofree", "swiftself",
               "nest", "allocptr", "inalloca", "noext", "initializes", "captures"}
FN_SKIP = {"dso_local", "private", "internal", "linkonce_odr", "weak_odr", "linkonce", "weak", "external",
           "available_externally", "hidden", "protected", "default", "unnamed_addr", "local_unnamed_addr",
           "fastcc", "ccc", "coldcc", "common", "appending", "extern_weak", "thread_local", "tail", "musttail", "notail",
           "dso_preemptable", "addrspace"}
FMF = {"nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "fast"}


class P:
    """token stream parser"""

    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.m = mod

    def peek(self, o=0):
        j = self.i + o
        return self.t[j] if j < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def eat(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        y = self.next()
        if y != x:
            raise SyntaxError("expected %r got %r in %s" % (x, y, " ".join(self.t)))

    def type(self):
        x = self.next()
        t = None
        if x == "ptr":
            t = PTR
            if self.peek() == "addrspace":
                self.i += 4
        elif x[0] == "i" and x[1:].isdigit():
            t = INT(int(x[1:]))
        elif x == "void":
            t = VOID
        elif x == "double":
            t = DOUBLE
        elif x == "float":
            t = FLOAT
        elif x == "x86_fp80":
            t = X80
        elif x == "label":
            t = LABEL
        elif x == "metadata":
            t = META
        elif x == "opaque":
            t = Ty("opaque")
        elif x[0] == "%":
            t = Ty("named", name=x)
        elif x == "[":
            n = int(self.next())
            self.expect("x")
            e = self.type()
            self.expect("]")
            t = Ty("arr", el=e, n=n)
        elif x == "<":
            if self.peek() == "{":
                t = self.type()
                t.packed = True
                self.expect(">")
            else:
                n = int(self.next())
                self.expect("x")
                e = self.type()
                self.expect(">")
                t = Ty("vec", el=e, n=n)
        elif x == "{":
            el = []
            if not self.eat("}"):
                while True:
                    el.append(self.type())
                    if self.eat("}"):
                        break
                    self.expect(",")
            t = Ty("struct", el=el)
        else:
            raise SyntaxError("type? %r in %s" % (x, " ".join(self.t[:30])))
        # function type suffix: ret (args)
        if self.peek() == "(" and self._is_fnty():
            depth = 0
            while True:
                y = self.next()
                if y == "(":
                    depth += 1
                elif y == ")":
                    depth -= 1
                    if depth == 0:
                        break
            t = Ty("fn", el=t)
        return t

    def _is_fnty(self):
        # a "(" following a type inside a call: function type when the matching ")" is followed by @/%/...
        j = self.i
        d = 0
        while j < len(self.t):
            if self.t[j] == "(":
                d += 1
            elif self.t[j] == ")":
                d -= 1
                if d == 0:
                    nx = self.t[j + 1] if j + 1 < len(self.t) else None
                    return nx is not None and (nx[0] in "@%") and self.fnty_ok
            j += 1
        return False

    fnty_ok = False

    def skip_param_attrs(self):
        info = {}
        while True:
            x = self.peek()
            if x in PARAM_ATTRS:
                self.i += 1
                if self.peek() == "(" and x in ("initializes", "captures"):
                    self.paren()
            elif x in ("byval", "sret", "elementtype", "preallocated", "byref"):
                self.i += 1
                self.expect("(")
                info[x] = self.type()
                self.expect(")")
            elif x == "align":
                self.i += 1
                if self.eat("("):
                    self.i += 2
                else:
                    self.i += 1
            elif x in ("dereferenceable", "dereferenceable_or_null", "range", "nofpclass"):
                self.i += 1
                self.paren()
            elif x is not None and x[0] == '"':
                self.i += 1
                if self.eat("="):
                    self.i += 1
            else:
                return info

    def paren(self):
        self.expect("(")
        d = 1
        while d:
            x = self.next()
            if x == "(":
                d += 1
            elif x == ")":
                d -= 1

    # -------- values: represented as tuples
    #  ('l', name) local ; ('g', name) ; ('c', pyvalue) ; ('undef',) ; ('zero',) ; ('agg',[ (ty,val) ]) ;
    #  ('str', bytes); ('gep', basety, ptrval, idx list) ; ('cast', op, ty, val, toty) ; ('bin', op, ty, a, b)
    def value(self, ty):
        x = self.next()
        c = x[0]
        if c == "%":
            return ("l", x)
        if c == "@":
            return ("g", unq(x))
        if x in ("undef", "poison"):
            return ("undef",)
        if x == "null":
            return ("c", 0)
        if x == "none":
            return ("c", 0)
        if x == "true":
            return ("c", 1)
        if x == "false":
            return ("c", 0)
        if x == "zeroinitializer":
            return ("zero",)
        if x[:2] == 'c"':
            return ("str", cbytes(x[2:-1]))
        if c in "-0123456789":
            k = ty.k
            if k == "int":
                return ("c", int(x) & ((1 << ty.w) - 1))
            if k in ("double", "float"):
                return ("f", fconst(x))
            if k == "x86_fp80":
                return ("f", x80(x))
            raise SyntaxError("number of type %r" % ty)
        if c == "[" or c == "{" or x == "<":
            if x == "<" and self.peek() == "{":
                self.next()
                r = self.agg("}")
                self.expect(">")
                return r
            return self.agg({"[": "]", "{": "}", "<": ">"}[x])
        if x == "getelementptr":
            while self.peek() in ("inbounds", "nuw", "nusw") or (self.peek() == "inrange"):
                if self.next() == "inrange":
                    if self.peek() == "(":
                        self.paren()
            self.expect("(")
            bt = self.type()
            self.expect(",")
            pt = self.type()
            pv = self.value(pt)
            idx = []
            while self.eat(","):
                self.eat("inrange")
                it = self.type()
                idx.append((it, self.value(it)))
            self.expect(")")
            return ("gep", bt, pv, idx)
        if x in ("bitcast", "ptrtoint", "inttoptr", "trunc", "zext", "sext", "addrspacecast"):
            self.expect("(")
            t = self.type()
            v = self.value(t)
            self.expect("to")
            t2 = self.type()
            self.expect(")")
            return ("cast", x, t, v, t2)
        if x in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr"):
            while self.peek() in ("nuw", "nsw"):
                self.next()
            self.expect("(")
            t = self.type()
            a = self.value(t)
            self.expect(",")
            t = self.type()
            b = self.value(t)
            self.expect(")")
            return ("bin", x, t, a, b)
        if x == "blockaddress" or x == "dso_local_equivalent" or x == "no_cfi":
            raise SyntaxError(x)
        if c == "!" or x == "metadata":
            return ("md",)
        raise SyntaxError("value? %r in %s" % (x, " ".join(self.t[:40])))

    def agg(self, close):
        el = []
        if self.eat(close):
            return ("agg", el)
        while True:
            t = self.type()
            el.append((t, self.value(t)))
            if self.eat(close):
                return ("agg", el)
            self.expect(",")

    def tv(self):
        t = self.type()
        self.skip_param_attrs()
        return t, self.value(t)


def unq(x):
    if len(x) > 1 and x[1] == '"':
        return x[0] + x[2:-1]
    return x


def cbytes(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == "\\":
            if s[i + 1] == "\\":
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


class FInf:
    """non-finite float constants"""
    def __init__(self, s):
        self.s = s

    def __repr__(self):
        return self.s


INF, NINF, NAN = FInf("inf"), FInf("-inf"), FInf("nan")


def fl2const(d):
    import math
    if math.isnan(d):
        return NAN
    if math.isinf(d):
        return INF if d > 0 else NINF
    return Fraction(d)


def fconst(x):
    if x.startswith("0x"):
        return fl2const(struct.unpack(">d", bytes.fromhex(x[2:].rjust(16, "0")))[0])
    return fl2const(float(x))


def x80(x):
    if not x.startswith("0xK"):
        return fl2const(float(x))
    v = int(x[3:], 16)
    s = v >> 79
    e = (v >> 64) & 0x7FFF
    m = v & ((1 << 64) - 1)
    if e == 0x7FFF:
        return NAN
    if m == 0:
        return Fraction(0)
    r = Fraction(m) * (Fraction(2) ** (e - 16383 - 63))
    return -r if s else r


class GVar:
    __slots__ = ("name", "ty", "init", "const", "external", "align")


class Alias:
    pass


DBG = re.compile(r', !dbg !(\d+)')


def parse_module(text):
    m = Module()
    lines = text.split("\n")
    i = 0
    n = len(lines)
    while i < n:
        ln = lines[i]
        if not ln:
            i += 1
            continue
        c = ln[0]
        if c == "%":
            name, rest = ln.split(" = type ", 1)
            p = P(lex(rest), m)
            m.types[name] = p.type()
        elif c == "@":
            parse_global(m, ln)
        elif ln.startswith("define "):
            j = i + 1
            while lines[j] != "}":
                j += 1
            f = parse_fhead(m, ln)
            f.lines = lines[i + 1:j]
            m.funcs[f.name] = f
            i = j
        elif ln.startswith("declare "):
            f = parse_fhead(m, ln)
            if f.name not in m.funcs:
                m.funcs[f.name] = f
        elif c == "!":
            k = ln.find(" = ")
            m.md[ln[1:k]] = ln[k + 3:]
        elif ln.startswith("attributes "):
            mm = re.match(r"attributes (#\d+) = \{(.*)\}", ln)
            m.attrs[mm.group(1)] = mm.group(2)
        i += 1
    for f in m.funcs.values():
        if f.attr and "nounwind" in m.attrs.get(f.attr, "").split():
            f.nounwind = True
    return m


def parse_global(m, ln):
    ln = re.sub(r', !dbg !\d+', '', ln)
    toks = lex(ln)
    p = P(toks, m)
    name = unq(p.next())[1:]
    p.expect("=")
    g = GVar()
    g.name = name
    g.external = False
    g.const = False
    g.init = None
    while True:
        x = p.peek()
        if x in ("external", "extern_weak"):
            g.external = True
            p.next()
        elif x == "thread_local":
            p.next()
            if p.peek() == "(":
                p.paren()
        elif x in FN_SKIP:
            p.next()
        elif x == "constant":
            g.const = True
            p.next()
            break
        elif x == "global":
            p.next()
            break
        elif x == "alias":
            p.next()
            t = p.type()
            if p.peek() == "(":
                p.paren()
            p.expect(",")
            t2 = p.type()
            v = p.value(t2)
            m.aliases[name] = v
            return
        elif x in ("ifunc",):
            return
        else:
            p.next()
    g.ty = p.type()
    if not g.external and p.peek() not in (None, ","):
        g.init = p.value(g.ty)
    m.globals[name] = g


def parse_fhead(m, ln):
    f = Func()
    d = re.search(r'!dbg !(\d+)', ln)
    f.sp = d.group(1) if d else None
    body = ln[ln.index(" ") + 1:]
    body = re.sub(r'!dbg !\d+', '', body)
    body = body.rstrip()
    if body.endswith("{"):
        body = body[:-1]
    p = P(lex(body), m)
    while p.peek() in FN_SKIP or p.peek() in PARAM_ATTRS or p.peek() in ("dereferenceable", "align", "range", "noundef", "dereferenceable_or_null"):
        if p.peek() in FN_SKIP:
            p.next()
        else:
            p.skip_param_attrs()
    f.ret = p.type()
    f.name = unq(p.next())[1:]
    p.expect("(")
    if not p.eat(")"):
        while True:
            if p.eat("..."):
                f.vararg = True
                p.expect(")")
                break
            t = p.type()
            info = p.skip_param_attrs()
            nm = None
            if p.peek() and p.peek()[0] == "%":
                nm = p.next()
            f.params.append((t, nm, info.get("byval"), info.get("sret")))
            if p.eat(")"):
                break
            p.expect(",")
    f.attr = None
    while p.peek() is not None:
        x = p.next()
        if x[0] == "#":
            f.attr = x
    return f


def parse_body(m, f):
    if f.blocks is not None or f.lines is None:
        return
    blocks = {}
    # entry label: number following params if unnamed
    cnt = 0
    for (t, nm, _, _) in f.params:
        if nm is None:
            cnt += 1
        elif nm[1:].isdigit():
            cnt = max(cnt, int(nm[1:]) + 1)
    for k, (t, nm, a, b) in enumerate(f.params):
        if nm is None:
            f.params[k] = (t, "%" + str(k), a, b)
    cur = None
    lines = f.lines
    # join continuation lines (switch, landingpad clauses, invoke)
    joined = []
    i = 0
    n = len(lines)
    while i < n:
        ln = lines[i]
        s = ln.strip()
        if not s or s[0] == ";":
            i += 1
            continue
        if s.startswith("switch") and s.endswith("["):
            while not lines[i].strip().startswith("]"):
                i += 1
                s += " " + lines[i].strip()
        elif " = landingpad " in s or s.startswith("landingpad"):
            while i + 1 < n and re.match(r"\s+(cleanup|catch |filter )", lines[i + 1]):
                i += 1
                s += " " + lines[i].strip()
        elif re.match(r"(%\S+ = )?invoke ", s):
            i += 1
            s += " " + lines[i].strip()
        joined.append((ln[0] != " ", s))
        i += 1
    for islabel, s in joined:
        if islabel:
            lab = s.split(":")[0]
            if lab[0] == '"':
                lab = lab[1:-1]
            cur = blocks.setdefault(lab, [])
            continue
        if cur is None:
            lab = str(cnt)
            cur = blocks.setdefault(lab, [])
            f.entry = lab
        if f.entry is None:
            f.entry = next(iter(blocks))
        cur.append(parse_instr(m, s))
    if f.entry is None:
        f.entry = next(iter(blocks))
    f.blocks = blocks


def parse_instr(m, s):
    ins = Instr()
    d = DBG.search(s)
    ins.dbg = d.group(1) if d else None
    k = s.find(", !")
    if k >= 0:
        # strip metadata attachments (all at the end)
        s = re.sub(r', ![a-zA-Z_.]+ !\d+', '', s)
    ins.res = None
    ins.x = None
    ins.ty = None
    p = P(lex(s), m)
    if p.peek()[0] == "%" and p.peek(1) == "=":
        ins.res = p.next()
        p.next()
    op = p.next()
    ins.op = op
    if op in ("tail", "musttail", "notail"):
        op = ins.op = p.next()
    if op in ("add", "sub", "mul", "shl", "lshr", "ashr", "udiv", "sdiv", "urem", "srem", "and", "or", "xor"):
        fl = set()
        while p.peek() in ("nuw", "nsw", "exact", "disjoint"):
            fl.add(p.next())
        t = p.type()
        a = p.value(t)
        p.expect(",")
        b = p.value(t)
        ins.ty, ins.a, ins.x = t, (a, b), fl
    elif op in ("fadd", "fsub", "fmul", "fdiv", "frem"):
        while p.peek() in FMF:
            p.next()
        t = p.type()
        a = p.value(t)
        p.expect(",")
        b = p.value(t)
        ins.ty, ins.a = t, (a, b)
    elif op == "fneg":
        while p.peek() in FMF:
            p.next()
        t = p.type()
        ins.ty, ins.a = t, (p.value(t),)
    elif op in ("icmp", "fcmp"):
        while p.peek() in FMF or p.peek() == "samesign":
            p.next()
        ins.x = p.next()
        t = p.type()
        a = p.value(t)
        p.expect(",")
        b = p.value(t)
        ins.ty, ins.a = t, (a, b)
    elif op == "alloca":
        p.eat("inalloca")
        t = p.type()
        n = ("c", 1)
        if p.eat(","):
            if p.peek() != "align":
                nt = p.type()
                n = p.value(nt)
        ins.ty, ins.a = t, (n,)
    elif op == "load":
        p.eat("atomic")
        p.eat("volatile")
        t = p.type()
        p.expect(",")
        pt = p.type()
        ins.ty, ins.a = t, (p.value(pt),)
    elif op == "store":
        p.eat("atomic")
        p.eat("volatile")
        t = p.type()
        v = p.value(t)
        p.expect(",")
        pt = p.type()
        ins.ty, ins.a = t, (v, p.value(pt))
    elif op == "getelementptr":
        while p.peek() in ("inbounds", "nuw", "nusw"):
            p.next()
        bt = p.type()
        p.expect(",")
        pt = p.type()
        pv = p.value(pt)
        idx = []
        while p.eat(","):
            it = p.type()
            idx.append((it, p.value(it)))
        ins.ty, ins.a, ins.x = bt, (pv,), idx
    elif op in ("zext", "sext", "trunc", "bitcast", "ptrtoint", "inttoptr", "fptosi", "fptoui", "sitofp", "uitofp",
                "fpext", "fptrunc", "addrspacecast"):
        while p.peek() in ("nneg", "nuw", "nsw"):
            p.next()
        t = p.type()
        v = p.value(t)
        p.expect("to")
        t2 = p.type()
        ins.ty, ins.a, ins.x = t2, (v,), t
    elif op == "br":
        if p.peek() == "label":
            p.next()
            ins.a = (lab(p.next()),)
        else:
            p.type()
            c = p.value(INT(1))
            p.expect(",")
            p.next()
            l1 = lab(p.next())
            p.expect(",")
            p.next()
            l2 = lab(p.next())
            ins.a = (c, l1, l2)
    elif op == "switch":
        t = p.type()
        v = p.value(t)
        p.expect(",")
        p.next()
        d = lab(p.next())
        p.expect("[")
        cases = []
        while not p.eat("]"):
            ct = p.type()
            cv = p.value(ct)
            p.expect(",")
            p.next()
            cases.append((cv[1], lab(p.next())))
        ins.ty, ins.a, ins.x = t, (v, d), cases
    elif op == "ret":
        t = p.type()
        ins.ty = t
        ins.a = () if t.k == "void" else (p.value(t),)
    elif op == "unreachable":
        ins.a = ()
    elif op == "phi":
        while p.peek() in FMF:
            p.next()
        t = p.type()
        inc = {}
        while True:
            p.expect("[")
            v = p.value(t)
            p.expect(",")
            l = lab(p.next())
            p.expect("]")
            inc[l] = v
            if not p.eat(","):
                break
        ins.ty, ins.x, ins.a = t, inc, ()
    elif op == "select":
        while p.peek() in FMF:
            p.next()
        ct = p.type()
        c = p.value(ct)
        p.expect(",")
        t = p.type()
        a = p.value(t)
        p.expect(",")
        p.type()
        b = p.value(t)
        ins.ty, ins.a, ins.x = t, (c, a, b), ct
    elif op in ("call", "invoke"):
        while p.peek() in FMF or p.peek() in FN_SKIP:
            p.next()
        p.skip_param_attrs()
        p.fnty_ok = True
        rt = p.type()
        p.fnty_ok = False
        if rt.k == "fn":
            rt = rt.el
        if p.peek() == "asm":
            ins.ty, ins.a, ins.x = rt, None, ("asm", s)
            return ins
        cal = p.value(PTR)
        p.expect("(")
        args = []
        if not p.eat(")"):
            while True:
                t = p.type()
                if t.k == "metadata":
                    # skip metadata operand
                    d = 0
                    while not (d == 0 and p.peek() in (",", ")")):
                        y = p.next()
                        if y in "([{":
                            d += 1
                        elif y in ")]}":
                            d -= 1
                    args.append((t, ("md",), None))
                else:
                    info = p.skip_param_attrs()
                    args.append((t, p.value(t), info.get("byval")))
                if p.eat(")"):
                    break
                p.expect(",")
        ins.ty, ins.a = rt, (cal, args)
        attrs = set()
        while p.peek() is not None and p.peek() != "to":
            attrs.add(p.next())
        ins.x = None
        if op == "invoke":
            p.expect("to")
            p.next()
            l1 = lab(p.next())
            p.expect("unwind")
            p.next()
            l2 = lab(p.next())
            ins.x = (l1, l2)
    elif op == "landingpad":
        t = p.type()
        cl = []
        while p.peek() is not None:
            x = p.next()
            if x == "cleanup":
                cl.append(("cleanup",))
            elif x == "catch":
                ct = p.type()
                cl.append(("catch", p.value(ct)))
            elif x == "filter":
                ct = p.type()
                cl.append(("filter", p.value(ct)))
        ins.ty, ins.a = t, cl
    elif op == "resume":
        t = p.type()
        ins.ty, ins.a = t, (p.value(t),)
    elif op in ("extractvalue", "insertvalue"):
        t = p.type()
        v = p.value(t)
        e = None
        if op == "insertvalue":
            p.expect(",")
            et = p.type()
            e = (et, p.value(et))
        idx = []
        while p.eat(","):
            idx.append(int(p.next()))
        ins.ty, ins.a, ins.x = t, (v, e), idx
    elif op == "freeze":
        t = p.type()
        ins.ty, ins.a = t, (p.value(t),)
    elif op == "atomicrmw":
        p.eat("volatile")
        o = p.next()
        pt = p.type()
        pv = p.value(pt)
        p.expect(",")
        t = p.type()
        ins.ty, ins.a, ins.x = t, (pv, p.value(t)), o
    elif op == "cmpxchg":
        p.eat("weak")
        p.eat("volatile")
        pt = p.type()
        pv = p.value(pt)
        p.expect(",")
        t = p.type()
        c = p.value(t)
        p.expect(",")
        p.type()
        nv = p.value(t)
        ins.ty, ins.a = t, (pv, c, nv)
    elif op == "fence":
        ins.a = ()
    elif op in ("extractelement", "insertelement", "shufflevector"):
        ins.a = ()
        ins.x = s
    else:
        raise SyntaxError("instr? " + s)
    return ins


def lab(x):
    return unq(x)[1:]


def dbg_loc(m, f, num):
    """source location string for a !dbg id"""
    if num is None:
        return "?"
    s = m.md.get(num, "")
    mm = re.search(r'line: (\d+)', s)
    line = mm.group(1) if mm else "?"
    sc = re.search(r'scope: !(\d+)', s)
    fn = "?"
    guard = 0
    while sc and guard < 20:
        guard += 1
        t = m.md.get(sc.group(1), "")
        fl = re.search(r'file: !(\d+)', t)
        if fl:
            ff = re.search(r'filename: "([^"]*)"', m.md.get(fl.group(1), ""))
            if ff:
                fn = ff.group(1)
                break
        sc = re.search(r'scope: !(\d+)', t)
    return "%s:%s" % (fn, line)
