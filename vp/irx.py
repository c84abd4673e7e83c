"""Symbolic execution of LLVM IR with real-valued symbolic floats.

The C sources of /repo (and a harness) are compiled to LLVM IR (clang -O1, no vectorisation); every IR
function is translated to a Python function that runs over integers, concrete floats and symbolic
reals.  A symbolic real is an affine form over the harness's symbolic inputs, or a polynomial where
the code multiplies symbolic values.  Branches on symbolic values fork (decided by z3 under the path
condition).  Addresses are concrete; every access is checked against the objects that exist.
Arithmetic is real arithmetic (no rounding): claims carry a tolerance."""
import bisect, math, os, re, struct, sys
for _v in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS"):
    os.environ.setdefault(_v, "1")
from fractions import Fraction
import numpy as np
import z3

M64 = (1 << 64) - 1
sys.setrecursionlimit(20000)


class IRError(Exception):
    pass


class MemError(IRError):
    pass


class LongJmp(Exception):
    pass


class Infeasible(Exception):
    pass


# ------------------------------------------------------------------------------------------- values
class Sym:
    """affine form: v (numpy vector over variables) and constant c; or polynomial p {monomial: coef}"""
    __slots__ = ("v", "c", "p")
    __hash__ = None

    def __init__(self, v, c=0.0, p=None):
        self.v, self.c, self.p = v, c, p

    def poly(self):
        if self.p is not None:
            return self.p
        d = {(int(i),): float(self.v[i]) for i in np.nonzero(self.v)[0]}
        if self.c:
            d[()] = self.c
        return d

    def __add__(a, b):
        if type(b) is not Sym:
            if not isinstance(b, float):
                return NotImplemented
            if a.p is None:
                return Sym(a.v, a.c + b)
            d = dict(a.p)
            d[()] = d.get((), 0.0) + b
            return Sym(None, 0.0, d)
        if a.p is None and b.p is None:
            x, y = a.v, b.v
            if len(x) == len(y):
                return Sym(x + y, a.c + b.c)
            if len(x) < len(y):
                x, y = y, x
            z = x.copy()
            z[:len(y)] += y
            return Sym(z, a.c + b.c)
        d = dict(a.poly())
        for k, w in b.poly().items():
            t = d.get(k, 0.0) + w
            if t == 0.0:
                d.pop(k, None)
            else:
                d[k] = t
        return Sym(None, 0.0, d)
    __radd__ = __add__

    def __neg__(a):
        if a.p is None:
            return Sym(-a.v, -a.c)
        return Sym(None, 0.0, {k: -w for k, w in a.p.items()})

    def __sub__(a, b):
        if type(b) is Sym:
            if a.p is None and b.p is None and len(a.v) == len(b.v):
                return Sym(a.v - b.v, a.c - b.c)
            return a + (-b)
        if not isinstance(b, float):
            return NotImplemented
        return a + (-b)

    def __rsub__(a, b):
        return (-a) + b

    def __mul__(a, b):
        if type(b) is not Sym:
            if not isinstance(b, float):
                return NotImplemented
            if b == 0.0:
                return 0.0
            if a.p is None:
                return Sym(a.v * b, a.c * b)
            return Sym(None, 0.0, {k: w * b for k, w in a.p.items()})
        p, q = a.poly(), b.poly()
        d = {}
        for k, w in p.items():
            for l, x in q.items():
                m = tuple(sorted(k + l))
                t = d.get(m, 0.0) + w * x
                d[m] = t
        return Sym(None, 0.0, d)
    __rmul__ = __mul__

    def _no(self, *a):
        raise IRError("symbolic float used as an integer")
    __eq__ = __and__ = __or__ = __xor__ = __rand__ = __ror__ = __lshift__ = __rshift__ = __lt__ = __gt__ = __le__ = __ge__ = __mod__ = __floordiv__ = __index__ = __bool__ = _no

    def at(self, x):
        """value at the point x (list of floats by variable)"""
        if self.p is None:
            n = len(self.v)
            return float(self.v @ x[:n]) + self.c
        s = 0.0
        for k, w in self.p.items():
            t = w
            for i in k:
                t *= x[i]
            s += t
        return s


class Pair:
    """eight raw bytes made of two four-byte cells"""
    __slots__ = ("a", "b")

    def __init__(self, a, b):
        self.a, self.b = a, b


class SBool:
    """undecided comparison d `op` 0, op in < <= = != > >="""
    __slots__ = ("d", "op", "m")

    def __init__(self, d, op, m):
        self.d, self.op, self.m = d, op, m

    def __bool__(self):
        return self.m.decide(self.d, self.op)

    def __and__(self, o):
        return int(bool(self)) & int(bool(o))
    __rand__ = __and__

    def __or__(self, o):
        return int(bool(self)) | int(bool(o))
    __ror__ = __or__

    def __xor__(self, o):
        return int(bool(self)) ^ int(bool(o))
    __rxor__ = __xor__

    def __int__(self):
        return int(bool(self))
    __index__ = __int__

    def __mul__(self, o):
        return int(self) * o

    def __lshift__(self, o):
        return int(self) << o

    def __add__(self, o):
        return int(self) + o

    def __eq__(self, o):
        return int(self) == o
    __hash__ = None


NEG = {"<": ">=", "<=": ">", ">": "<=", ">=": "<", "=": "!=", "!=": "="}

# ------------------------------------------------------------------------------------------- parser
TOK = re.compile(r'''%"[^"]*"|%[-\w.$]+|@"[^"]*"|@[-\w.$]+|c"[^"]*"|"[^"]*"|![-\w.]*|\#\d+|0x[KLMHR]?[0-9A-Fa-f]+|-?\d+\.\d*(?:e[+-]?\d+)?|-?\d+|\.\.\.|\$[\w."]+|[A-Za-z_][\w.]*|[()\[\]{}<>,=*:|]''')


class P:
    def __init__(self, s, mod):
        self.t = TOK.findall(s)
        self.i = 0
        self.mod = mod

    def pk(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else ""

    def nx(self):
        self.i += 1
        return self.t[self.i - 1]

    def ac(self, x):
        if self.pk() == x:
            self.i += 1
            return True
        return False

    def ex(self, x):
        if self.nx() != x:
            raise IRError("parse: expected %s in %s" % (x, " ".join(self.t)[:200]))

    def type(self):
        t = self.nx()
        if t == "ptr":
            r = ("p",)
        elif t == "void":
            r = ("void",)
        elif t == "float":
            r = ("f", 4)
        elif t == "double":
            r = ("f", 8)
        elif t == "half":
            r = ("f", 2)
        elif re.match(r"^i\d+$", t):
            r = ("i", int(t[1:]))
        elif t == "[":
            n = int(self.nx())
            self.ex("x")
            r = ("a", n, self.type())
            self.ex("]")
        elif t == "{":
            l = []
            while not self.ac("}"):
                l.append(self.type())
                self.ac(",")
            r = ("s", 0, tuple(l))
        elif t == "<":
            if self.ac("{"):
                l = []
                while not self.ac("}"):
                    l.append(self.type())
                    self.ac(",")
                self.ex(">")
                r = ("s", 1, tuple(l))
            else:
                n = int(self.nx())
                self.ex("x")
                r = ("v", n, self.type())
                self.ex(">")
        elif t[0] == "%":
            r = self.mod.named(t)
        elif t == "opaque":
            r = ("s", 0, ())
        elif t == "metadata":
            r = ("m",)
        elif t == "label":
            r = ("l",)
        else:
            raise IRError("type? %s in %s" % (t, " ".join(self.t)[:200]))
        while self.pk() == "(" and r == ("void",) or (self.pk() == "(" and self._isfn()):
            self._skip()
            r = ("fn", r)
        return r

    def _isfn(self):
        # a function type follows (only in call sites of variadic functions)
        return self.pk(1) == "..." or (self.pk(1) in ("ptr", "i32", "i64", "float", "double", "i16", "i8") and self.pk(2) in (",", ")"))

    def _skip(self):
        d = 0
        while True:
            t = self.nx()
            if t == "(":
                d += 1
            elif t == ")":
                d -= 1
                if d == 0:
                    return

    def attrs(self):
        """skip parameter/return attributes"""
        while True:
            t = self.pk()
            if t in ATTR or t.startswith('"') or t.startswith("#"):
                self.nx()
                if t in ("align",) and re.match(r"^\d+$", self.pk()):
                    self.nx()
                elif self.pk() == "(":
                    self._skip()
                if t.startswith('"') and self.pk() == "=":
                    self.nx()
                    self.nx()
            else:
                return


ATTR = set("noundef nocapture readonly readnone writeonly signext zeroext inreg nonnull noalias returned immarg dereferenceable dereferenceable_or_null align nofree nest swiftself noreturn nounwind local_unnamed_addr unnamed_addr dso_local range writable dead_on_unwind captures initializes nnan ninf nsz arcp contract afn reassoc fast inbounds nuw nsw exact disjoint nneg fastcc ccc coldcc samesign".split())


def sizeof(t):
    k = t[0]
    if k == "i":
        return 1 if t[1] <= 8 else 2 if t[1] <= 16 else 4 if t[1] <= 32 else 8 if t[1] <= 64 else 16
    if k == "f":
        return t[1]
    if k == "p":
        return 8
    if k == "a":
        return t[1] * sizeof(t[2])
    if k == "v":
        return t[1] * sizeof(t[2])
    if k == "s":
        return layout(t)[0]
    raise IRError("sizeof %s" % (t,))


def alignof(t):
    k = t[0]
    if k == "a":
        return alignof(t[2])
    if k == "s":
        return 1 if t[1] else max([alignof(x) for x in t[2]] + [1])
    return sizeof(t)


LAY = {}


def layout(t):
    r = LAY.get(t)
    if r is None:
        o, offs = 0, []
        for x in t[2]:
            if not t[1]:
                a = alignof(x)
                o = (o + a - 1) // a * a
            offs.append(o)
            o += sizeof(x)
        a = alignof(t)
        r = LAY[t] = ((o + a - 1) // a * a, offs)
    return r


class Module:
    def __init__(self, text, name):
        self.name = name
        self.tdefs, self.tcache = {}, {}
        self.fdefs, self.gdefs = {}, {}
        lines = text.splitlines()
        i = 0
        while i < len(lines):
            l = lines[i]
            if l.startswith("define"):
                j = i
                while lines[j] != "}":
                    j += 1
                nm = re.search(r"@([-\w.$]+|\"[^\"]*\")\(", l).group(1)
                self.fdefs[nm] = (l, lines[i + 1:j], "internal " in l.split("@")[0])
                i = j
            elif l.startswith("%"):
                m = re.match(r"^(%\S+) = type (.*)$", l)
                if m:
                    self.tdefs[m.group(1)] = m.group(2)
            elif l.startswith("@"):
                m = re.match(r"^@([-\w.$]+) = (.*)$", l)
                if m:
                    self.gdefs[m.group(1)] = m.group(2)
            i += 1

    def named(self, n):
        if n not in self.tcache:
            self.tcache[n] = P(self.tdefs[n], self).type()
        return self.tcache[n]


def fbits(s, ty):
    """IR float literal"""
    if s.startswith("0x"):
        return struct.unpack("<d", struct.pack("<Q", int(s[2:], 16)))[0]
    return float(s)


# ------------------------------------------------------------------------------------------ machine
class Machine:
    def __init__(self, mods, overrides=None, params=(), eps=1e-9, ite=False, max_paths=64):
        self.mods = mods
        self.over = overrides or {}
        self.params = list(params)
        self.ite = ite
        self.max_paths = max_paths
        self.fidx = {}
        for m in mods:
            for f, (h, b, internal) in m.fdefs.items():
                if not internal:
                    self.fidx.setdefault(f, m)
        self.gidx = {}
        for m in mods:
            for g, d in m.gdefs.items():
                if not re.match(r"^(external|extern_weak)\b", re.sub(r"^(dso_local|local_unnamed_addr|unnamed_addr)\s+", "", d)) and not re.match(r"^(private|internal)\b", d):
                    self.gidx.setdefault(g, m)
        self.code = {}           # (module, fn) -> python function
        self.used = set()
        self.src = {}
        self.zs = None
        self.steps = 0

    # per path -----------------------------------------------------------------------------
    def reset(self):
        self.mem = {}
        self.bases, self.ends, self.zero = [], [], []
        self.top = 0x100000
        self.gaddr = {}
        self.faddr, self.fname = {}, {}
        self.vars = []           # (lo, hi, group, index)
        self.defs = []           # constraints of auxiliary variables (z3 builders)
        self.atoms = {}
        self.pc = []
        self.npos = 0
        self.outs = {}
        self.ins = {}
        self.fails = []
        self.freed = set()

    def alloc(self, n, zero=False):
        a = (self.top + 31) & ~15
        self.top = a + n + 32
        self.bases.append(a)
        self.ends.append(a + n)
        self.zero.append(zero)
        return a

    def obj(self, a, n):
        i = bisect.bisect_right(self.bases, a) - 1
        if i < 0 or a + n > self.ends[i] or a < self.bases[i] or self.bases[i] in self.freed:
            raise MemError("access of %d bytes outside every object (0x%x; nearest object of %d bytes, offset %d)" % (n, a, self.ends[i] - self.bases[i] if i >= 0 else 0, a - self.bases[i] if i >= 0 else -1))
        return i

    def st(self, a, n, v):
        mem = self.mem
        c = mem.get(a)
        if c is not None and c[0] == n:
            mem[a] = (n, v)
            return
        if type(v) is Pair:
            self.st(a, 4, v.a)
            self.st(a + 4, 4, v.b)
            return
        self.obj(a, n)
        for b in range(a - 7, a + n):
            c = mem.get(b)
            if c is not None and b + c[0] > a:
                del mem[b]
                if b < a or b + c[0] > a + n:      # partial overlap: keep the rest as bytes
                    raw = self.raw(c[0], c[1])
                    for k in range(c[0]):
                        if not a <= b + k < a + n:
                            mem[b + k] = (1, raw[k])
        mem[a] = (n, v)

    def raw(self, n, v):
        if isinstance(v, (Sym, Pair, SBool)):
            raise IRError("bytes of a symbolic value")
        if isinstance(v, float):
            return struct.pack("<f" if n == 4 else "<d", v)
        return int(v).to_bytes(n, "little")

    def ld(self, a, n, fl):
        c = self.mem.get(a)
        if c is not None and c[0] == n:
            v = c[1]
            if fl:
                if type(v) is int:
                    if v == 0:
                        return 0.0
                    return struct.unpack("<f" if n == 4 else "<d", v.to_bytes(n, "little"))[0]
                return v
            if type(v) is float:
                return int.from_bytes(self.raw(n, v), "little")
            return v
        return self.slow(a, n, fl)

    def slow(self, a, n, fl):
        i = self.obj(a, n)
        mem = self.mem
        if n == 8 and (a in mem or a + 4 in mem):
            c, d = mem.get(a), mem.get(a + 4)
            if (c is None or c[0] == 4) and (d is None or d[0] == 4):
                if (c and isinstance(c[1], Sym)) or (d and isinstance(d[1], Sym)):
                    return Pair(self.ld(a, 4, c is not None and not isinstance(c[1], int)), self.ld(a + 4, 4, d is not None and not isinstance(d[1], int)))
        out = bytearray(n)
        got = bytearray(n)
        for b in range(a - 7, a + n):
            c = mem.get(b)
            if c is not None and b + c[0] > a:
                raw = self.raw(c[0], c[1])
                for k in range(c[0]):
                    if a <= b + k < a + n:
                        out[b + k - a] = raw[k]
                        got[b + k - a] = 1
        if not all(got) and not self.zero[i]:
            self.uninit = getattr(self, "uninit", 0) + 1
            return self.garbage(fl, n)
        v = int.from_bytes(out, "little")
        if fl:
            return struct.unpack("<f" if n == 4 else "<d", bytes(out))[0]
        return v

    def garbage(self, fl, n):
        if fl:
            return self.newvar(-1.0e3, 1.0e3, "uninit", 0)
        return 0xA5A5A5A5A5A5A5A5 & ((1 << (8 * n)) - 1)

    def memcpy(self, d, s, n):
        if n == 0:
            return
        self.obj(s, n)
        self.obj(d, n)
        if d == s:
            return
        cells = []
        mem = self.mem
        a = s
        i = self.obj(s, n)
        z = self.zero[i]
        # cells that straddle the start
        for b in range(s - 7, s):
            c = mem.get(b)
            if c is not None and b + c[0] > s:
                raw = self.raw(c[0], c[1])
                for k in range(c[0]):
                    if s <= b + k < s + n:
                        cells.append((b + k - s, 1, raw[k]))
        while a < s + n:
            c = mem.get(a)
            if c is None:
                a += 1
                continue
            if a + c[0] > s + n:
                raw = self.raw(c[0], c[1])
                for k in range(s + n - a):
                    cells.append((a - s + k, 1, raw[k]))
            else:
                cells.append((a - s, c[0], c[1]))
            a += c[0]
        self.clear(d, n, z)
        j = self.obj(d, n)
        for o, k, v in cells:
            mem[d + o] = (k, v)
        if z and not self.zero[j]:
            self.fillzero(d, n)

    def fillzero(self, d, n):
        mem = self.mem
        a = d
        while a < d + n:
            c = mem.get(a)
            if c is not None:
                a += c[0]
                continue
            if a % 4 == 0 and a + 4 <= d + n and not any((a + k) in mem for k in (1, 2, 3)):
                mem[a] = (4, 0)
                a += 4
            else:
                mem[a] = (1, 0)
                a += 1

    def clear(self, d, n, z=True):
        mem = self.mem
        for b in range(d - 7, d):
            c = mem.get(b)
            if c is not None and b + c[0] > d:
                del mem[b]
                raw = self.raw(c[0], c[1])
                for k in range(c[0]):
                    if not d <= b + k < d + n:
                        mem[b + k] = (1, raw[k])
        b = d
        e = d + n
        if n > 4 * len(mem):
            for x in [x for x in mem if d <= x < e]:
                b = x
                c = mem.pop(b)
                if b + c[0] > e:
                    raw = self.raw(c[0], c[1])
                    for k in range(e - b, c[0]):
                        mem[b + k] = (1, raw[k])
            return
        while b < e:
            c = mem.pop(b, None)
            if c is None:
                b += 1
                continue
            if b + c[0] > e:
                raw = self.raw(c[0], c[1])
                for k in range(e - b, c[0]):
                    mem[b + k] = (1, raw[k])
            b += c[0]

    def memset(self, d, v, n):
        if n == 0:
            return
        i = self.obj(d, n)
        self.clear(d, n)
        if v == 0 and self.zero[i]:
            return
        if v == 0:
            self.fillzero(d, n)
        else:
            for k in range(n):
                self.mem[d + k] = (1, v & 255)

    def cstr(self, a):
        s = b""
        while True:
            c = self.ld(a, 1, 0)
            if c == 0:
                return s.decode("latin1")
            s += bytes([c])
            a += 1

    # globals, functions ---------------------------------------------------------------------
    def addr(self, mod, name):
        if name in mod.gdefs:
            d = mod.gdefs[name]
            m = mod
            loc = re.match(r"^(private|internal)\b", d)
            if not loc:
                m = self.gidx.get(name)
                if m is None:
                    raise IRError("no definition of data " + name)
            key = (m.name if loc else "", name)
            a = self.gaddr.get(key)
            if a is None:
                a = self.ginit(m, name, key)
            return a
        m = mod if name in mod.fdefs else self.fidx.get(name)
        key = (m.name if m else "", name)
        if key not in self.faddr:
            a = 0x1000 + 16 * len(self.faddr)
            self.faddr[key] = a
            self.fname[a] = (m or mod, name)
        return self.faddr[key]

    def ginit(self, m, name, key):
        d = re.sub(r"^((private|internal|dso_local|local_unnamed_addr|unnamed_addr|common|hidden)\s+)*", "", m.gdefs[name])
        p = P(d, m)
        if p.nx() not in ("global", "constant"):
            raise IRError("global " + name)
        t = p.type()
        a = self.gaddr[key] = self.alloc(sizeof(t), True)
        self.cinit(p, t, a, m)
        return a

    def cinit(self, p, t, a, m):
        k = p.pk()
        if k in ("zeroinitializer", "undef", "poison", "null"):
            p.nx()
            return
        if t[0] == "a" and k.startswith('c"'):
            s = p.nx()[2:-1]
            i = o = 0
            while i < len(s):
                if s[i] == "\\":
                    if s[i + 1] == "\\":
                        b = 92
                        i += 2
                    else:
                        b = int(s[i + 1:i + 3], 16)
                        i += 3
                else:
                    b = ord(s[i])
                    i += 1
                if b:
                    self.mem[a + o] = (1, b)
                o += 1
            return
        if t[0] == "a":
            p.ex("[")
            n, sz = 0, sizeof(t[2])
            while not p.ac("]"):
                et = p.type()
                self.cinit(p, et, a + n * sz, m)
                n += 1
                p.ac(",")
            return
        if t[0] == "s":
            if p.ac("<"):
                p.ex("{")
                n = 0
                while not p.ac("}"):
                    et = p.type()
                    self.cinit(p, et, a + layout(t)[1][n], m)
                    n += 1
                    p.ac(",")
                p.ex(">")
                return
            p.ex("{")
            n = 0
            while not p.ac("}"):
                et = p.type()
                self.cinit(p, et, a + layout(t)[1][n], m)
                n += 1
                p.ac(",")
            return
        v = self.const(p, t, m)
        if v != 0:
            self.mem[a] = (sizeof(t), v)

    def const(self, p, t, m):
        """evaluate a scalar constant"""
        k = p.nx()
        if k in ("null", "zeroinitializer", "undef", "poison"):
            return 0.0 if t[0] == "f" else 0
        if k == "true":
            return 1
        if k == "false":
            return 0
        if k[0] == "@":
            return self.addr(m, k[1:])
        if k == "getelementptr":
            while p.pk() in ATTR:
                p.nx()
            p.ex("(")
            bt = p.type()
            p.ex(",")
            pt = p.type()
            a = self.const(p, pt, m)
            first, cur = True, bt
            while p.ac(","):
                it = p.type()
                n = self.const(p, it, m)
                if n >> (it[1] - 1) & 1:
                    n -= 1 << it[1]
                if first:
                    a += n * sizeof(cur)
                    first = False
                elif cur[0] == "s":
                    a += layout(cur)[1][n]
                    cur = cur[2][n]
                else:
                    cur = cur[2]
                    a += n * sizeof(cur)
            p.ex(")")
            return a & M64
        if k in ("ptrtoint", "inttoptr", "bitcast"):
            p.ex("(")
            v = self.const(p, p.type(), m)
            p.ex("to")
            p.type()
            p.ex(")")
            return v
        if t[0] == "f":
            return fbits(k, t)
        if t[0] in ("i", "p"):
            return int(k) & ((1 << (t[1] if t[0] == "i" else 64)) - 1)
        raise IRError("const %s" % k)

    def call(self, mod, name, args):
        o = self.over.get(name)
        if o is not None:
            return o(self, *args)
        m = mod if name in mod.fdefs else self.fidx.get(name)
        if m is not None:
            key = (m.name, name)
            f = self.code.get(key)
            if f is None:
                f = self.code[key] = compile_fn(self, m, name)
                self.used.add(name)
            return f(self, *args)
        b = BUILTIN.get(name)
        if b is None:
            raise IRError("no body for " + name)
        return b(self, *args)

    def icall(self, a, args):
        if a not in self.fname:
            raise MemError("call through a bad pointer 0x%x" % a)
        m, n = self.fname[a]
        return self.call(m, n, args)

    # symbolic values -------------------------------------------------------------------------
    def newvar(self, lo, hi, group, idx):
        n = len(self.vars)
        self.vars.append((lo, hi, group, idx))
        v = np.zeros(n + 1)
        v[n] = 1.0
        return Sym(v)

    def key(self, s):
        if not isinstance(s, Sym):
            return ("c", s)
        return tuple(sorted((k, round(w, 12)) for k, w in s.poly().items()))

    def atom(self, fn, args, lo, hi, cons):
        k = (fn,) + tuple(self.key(a) for a in args)
        if k not in self.atoms:
            s = self.newvar(lo, hi, fn, len(self.atoms))
            self.atoms[k] = s
            self.defs.append((s, cons, args, fn))
        return self.atoms[k]

    def fdiv(self, a, b):
        if type(b) is not Sym:
            if b == 0.0:
                if isinstance(a, Sym):
                    raise IRError("symbolic / 0")
                return float("nan") if a == 0.0 or a != a else math.copysign(float("inf"), a) * math.copysign(1.0, b)
            if type(a) is Sym:
                return a * (1.0 / b)
            return a / b
        l, h = self.tight(b)
        lo, hi = (-1e30, 1e30) if l <= 0 <= h else (1 / h, 1 / l)
        inv = self.atom("inv", (b,), lo, hi, lambda z, x: z * x == 1)
        return inv * a

    def fcmp(self, op, a, b):
        sa, sb = type(a) is Sym, type(b) is Sym
        if not sa and not sb:
            if a != a or b != b:
                return 1 if op[0] == "u" else 0
            if op == "uno":
                return 0
            if op == "ord":
                return 1
            o = op[1:]
            return int({"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[o])
        if op == "uno":
            return 0
        if op == "ord":
            return 1
        o = {"eq": "=", "ne": "!=", "lt": "<", "le": "<=", "gt": ">", "ge": ">="}[op[1:]]
        for x, y, s in ((a, b, 1), (b, a, -1)):
            if not isinstance(x, Sym) and (x in (float("inf"), float("-inf")) or x != x):
                r = {"<": x < 0, "<=": x < 0, ">": x > 0, ">=": x > 0, "=": False, "!=": True}[o]
                if s < 0:
                    r = {"<": x > 0, "<=": x > 0, ">": x < 0, ">=": x < 0, "=": False, "!=": True}[o]
                return int(r)
        d = a - b if sa else (-b) + a
        if not isinstance(d, Sym):
            return int({"=": d == 0, "!=": d != 0, "<": d < 0, "<=": d <= 0, ">": d > 0, ">=": d >= 0}[o])
        # bounds decide many comparisons without the solver
        lo, hi = self.range(d)
        if lo > 0:
            return int(o in (">", ">=", "!="))
        if hi < 0:
            return int(o in ("<", "<=", "!="))
        return SBool(d, o, self)

    def range(self, s):
        if s.p is None:
            n = len(s.v)
            nz = np.nonzero(s.v)[0]
            lo = hi = s.c
            for i in nz:
                w = s.v[i]
                l, h = self.vars[i][0], self.vars[i][1]
                lo += w * (l if w > 0 else h)
                hi += w * (h if w > 0 else l)
            return lo, hi
        lo = hi = 0.0
        for k, w in s.p.items():
            l = h = w
            j = 0
            while j < len(k):
                i, e = k[j], 1
                while j + e < len(k) and k[j + e] == i:
                    e += 1
                a, b = self.vars[i][0] ** e, self.vars[i][1] ** e
                if e % 2 == 0:
                    a, b = (0.0 if self.vars[i][0] <= 0 <= self.vars[i][1] else min(a, b)), max(a, b)
                c = (l * a, l * b, h * a, h * b)
                l, h = min(c), max(c)
                j += e
            lo += l
            hi += h
        return lo, hi

    def tight(self, s):
        """bounds of a polynomial of one or two inputs (and auxiliary variables), by dividing the inputs' box
        into cells and leaving out those the path condition excludes"""
        lo, hi = self.range(s)
        if s.p is None:
            return lo, hi
        aux = {int(np.nonzero(d[0].v)[0][0]) for d in self.defs}
        base = sorted({i for k in s.p for i in k} - aux)
        if not base or len(base) > 2 or lo > 0.5 * hi > 0:
            return lo, hi
        n = 256 if len(base) == 1 else 48
        ax = [np.linspace(self.vars[i][0], self.vars[i][1], n + 1) for i in base]
        L = np.meshgrid(*[a[:-1] for a in ax], indexing="ij")
        H = np.meshgrid(*[a[1:] for a in ax], indexing="ij")

        def over(poly):
            l = h = 0.0
            for k, w in poly.items():
                a = b = np.full(L[0].shape, float(w))
                for i in k:
                    x, y = L[base.index(i)], H[base.index(i)]
                    c = (a * x, a * y, b * x, b * y)
                    a, b = np.minimum.reduce(c), np.maximum.reduce(c)
                l, h = l + a, h + b
            return l, h
        ok = np.ones(L[0].shape, bool)
        for d, op in self.pc:
            if isinstance(d, Sym) and d.p is None and op in ("<", "<=", ">", ">=") and all(int(i) in base for i in np.nonzero(d.v)[0]):
                l, h = over(d.poly())
                ok &= (l <= 1e-9) if op[0] == "<" else (h >= -1e-9)
        if not ok.any():
            return lo, hi
        grp = {}
        for k, w in s.p.items():
            grp.setdefault(tuple(i for i in k if i in aux), {})[tuple(i for i in k if i not in aux)] = w
        tl = th = 0.0
        for k, poly in grp.items():
            l, h = over(poly)
            a, b = self.range(Sym(None, 0.0, {k: 1.0})) if k else (1.0, 1.0)
            c = (l * a, l * b, h * a, h * b)
            tl, th = tl + np.minimum.reduce(c), th + np.maximum.reduce(c)
        return max(lo, float(tl[ok].min()) - 1e-12), min(hi, float(th[ok].max()) + 1e-12)

    def select(self, c, a, b):
        if type(c) is SBool:
            if self.ite and isinstance(a, (float, Sym)) and isinstance(b, (float, Sym)):
                return self.itev(c, a, b)
            c = bool(c)
        return a if c else b

    def itev(self, c, a, b):
        ra = self.range(a) if isinstance(a, Sym) else (a, a)
        rb = self.range(b) if isinstance(b, Sym) else (b, b)
        d, op = c.d, c.op
        return self.atom("ite" + op, (d, a, b), min(ra[0], rb[0]), max(ra[1], rb[1]),
                         lambda z, x, p, q: z == z3.If(zop(x, op), p, q))

    def fmax(self, a, b, mx=True):
        if not isinstance(a, Sym) and not isinstance(b, Sym):
            return max(a, b) if mx else min(a, b)
        c = self.fcmp("ogt" if mx else "olt", a, b)
        return self.select(c, a, b)

    def fabs(self, a):
        if type(a) is not Sym:
            return abs(a)
        lo, hi = self.range(a)
        if lo >= 0:
            return a
        if hi <= 0:
            return -a
        if self.ite:
            return self.itev(SBool(a, ">=", self), a, -a)
        return a if self.decide(a, ">=") else -a

    def zvar(self, i):
        while len(self.zv) <= i:
            self.zv.append(z3.Real("x%d" % len(self.zv)))
        return self.zv[i]

    def zexpr(self, s, slack=None):
        """z3 term; terms whose whole contribution is below the slack are bounded instead"""
        if not isinstance(s, Sym):
            return z3.RealVal(Fraction(s))
        items = list(s.poly().items())
        terms, err = [], 0.0
        if slack:
            mags = []
            for k, w in items:
                b = abs(w)
                for i in k:
                    b *= max(abs(self.vars[i][0]), abs(self.vars[i][1]))
                mags.append((b, k, w))
            mags.sort(key=lambda x: x[0])
            keep = []
            for b, k, w in mags:
                if err + b <= slack:
                    err += b
                else:
                    keep.append((k, w))
            items = keep
        if slack is not None:
            self.kept = Sym(None, 0.0, dict(items))
        for k, w in items:
            t = z3.RealVal(Fraction(w))
            for i in k:
                t = t * self.zvar(i)
            terms.append(t)
        e = z3.Sum(terms) if terms else z3.RealVal(0)
        if err:
            sl = z3.Real("s%d" % self.nslack)
            self.nslack += 1
            self.slackc.append(z3.And(sl >= -Fraction(err), sl <= Fraction(err)))
            e = e + sl
        return e

    def base(self, which=None):
        """bounds, definitions of auxiliary values, path condition"""
        cs = []
        for i, (lo, hi, g, n) in enumerate(self.vars):
            if which is None or i in which:
                cs += [self.zvar(i) >= Fraction(lo), self.zvar(i) <= Fraction(hi)]
        for s, cons, args, fn in self.defs:
            i = int(np.nonzero(s.v)[0][0])
            if which is None or i in which:
                if cons is not None:
                    cs.append(cons(self.zvar(i), *[self.zexpr(a) for a in args]))
        for d, op in self.pc:
            cs.append(zop(self.zexpr(d), op))
        return cs

    def cone(self, syms):
        w = set()
        todo = list(syms) + [d for d, _ in self.pc]
        dv = {int(np.nonzero(s.v)[0][0]): a for s, c, a, f in self.defs}
        while todo:
            s = todo.pop()
            if not isinstance(s, Sym):
                continue
            vs = set(int(i) for i in np.nonzero(s.v)[0]) if s.p is None else {i for k in s.p for i in k}
            for i in vs - w:
                w.add(i)
                if i in dv:
                    todo += list(dv[i])
        return w

    def sat(self, extra, syms, timeout=20000):
        s = z3.Solver()
        s.set("timeout", timeout)
        w = self.cone(syms)
        s.add(*self.base(w))
        s.add(*extra)
        self.queries += 1
        import time
        t = time.time()
        r = s.check()
        self.solver_s += time.time() - t
        return r, s

    def decide(self, d, op):
        if self.npos < len(self.choice):
            c = self.choice[self.npos]
        else:
            self.zv = getattr(self, "zv", [])
            poss = []
            for c in (True, False):
                o = op if c else NEG[op]
                r, _ = self.sat([zop(self.zexpr(d), o)], [d])
                if r != z3.unsat:
                    poss.append(c)
            if not poss:
                raise Infeasible()
            if len(poss) == 2:
                self.pending.append(self.choice[:self.npos] + [not poss[0]])
            self.choice.append(poss[0])
            c = poss[0]
        self.npos += 1
        self.pc.append((d, op if c else NEG[op]))
        return c

    def fptosi(self, a, bits, signed=True):
        if type(a) is Sym:
            raise IRError("conversion of a symbolic float to an integer")
        if a != a or a in (float("inf"), float("-inf")):
            raise IRError("conversion of inf/nan to an integer")
        return int(a) & ((1 << bits) - 1)

    def fn1(self, name, f, a, lo=-1e30, hi=1e30, cons=None):
        if type(a) is Sym:
            return self.atom(name, (a,), lo, hi, cons)
        try:
            return float(f(a))
        except (ValueError, OverflowError):
            return float("nan")

    # running -----------------------------------------------------------------------------------
    def paths(self, entry):
        """run every feasible path of entry; yields after each"""
        self.pending = [[]]
        self.queries, self.solver_s = 0, 0.0
        n = 0
        while self.pending:
            self.choice = self.pending.pop()
            self.reset()
            self.zv, self.nslack, self.slackc = [], 0, []
            n += 1
            if n > self.max_paths:
                raise IRError("more than %d paths" % self.max_paths)
            try:
                m = self.fidx[entry]
                self.call(m, entry, [])
                self.jumped = False
            except Infeasible:
                continue
            except LongJmp:
                self.jumped = True
            yield n

    def check(self, claims, tolfac=0.5):
        """claims: list of (name, difference Sym/float, tol).  Returns None or (name, point, value)"""
        worst = None
        for name, d, tol in claims:
            if not isinstance(d, Sym):
                if not abs(d) <= tol:
                    return name, self.model_any(), d
                continue
            self.slackc = []
            e = self.zexpr(d, tol * tolfac)
            t = Fraction(tol)
            r, s = self.sat([z3.Or(e > t, e < -t)] + self.slackc, [self.kept], 60000)
            if r == z3.unknown:
                return name, None, "unknown"
            if r == z3.sat:
                mo = s.model()
                x = []
                for i, (l, h, g, k) in enumerate(self.vars):
                    v = mo.eval(self.zvar(i))
                    try:
                        v = v.approx(20) if z3.is_algebraic_value(v) else v
                        f = float(v.as_fraction())
                    except Exception:
                        f = min(max(0.0, l), h)
                    x.append(f)
                return name, np.array(x), d.at(np.array(x))
        return None

    def model_any(self):
        r, s = self.sat([], [])
        x = []
        for i, (l, h, g, k) in enumerate(self.vars):
            f = min(max(0.0, l), h)
            if r == z3.sat:
                v = s.model().eval(self.zvar(i))
                try:
                    f = float((v.approx(20) if z3.is_algebraic_value(v) else v).as_fraction())
                except Exception:
                    pass
            x.append(f)
        return np.array(x)


def zop(e, op):
    return {"<": e < 0, "<=": e <= 0, ">": e > 0, ">=": e >= 0, "=": e == 0, "!=": e != 0}[op]


# ----------------------------------------------------------------------------------------- builtins
def b_sym(size):
    def f(m, p, n, gid, lo, hi):
        n = sx(n, 32)
        g = m.ins.setdefault(gid, [])
        for i in range(n):
            v = m.newvar(lo, hi, gid, len(g))
            g.append(v)
            m.st(p + i * size, size, v)
    return f


def b_out(size):
    def f(m, p, n, gid):
        g = m.outs.setdefault(gid, [])
        for i in range(sx(n, 32)):
            g.append(m.ld(p + i * size, size, 1))
    return f


def b_outi(m, v, gid):
    m.outs.setdefault(gid, []).append(sx(v, 32) if not isinstance(v, (Sym,)) else v)


def b_fail(m, c, s):
    if not c:
        m.fails.append(m.cstr(s))


def sx(v, n):
    return v - (1 << n) if v >> (n - 1) & 1 else v


def b_alloc(m, n, z=False):
    return m.alloc(n, z)


def b_realsqrt(m, a):
    if type(a) is Sym:
        lo, hi = m.tight(a)
        return m.atom("sqrt", (a,), math.sqrt(max(lo, 0.0)), math.sqrt(max(hi, 0.0)), lambda z, x: z3.And(z * z == x, z >= 0))
    return math.sqrt(a) if a >= 0 else float("nan")


def b_ljmp(m, *a):
    raise LongJmp()


def mf(name, f, lo=-1e30, hi=1e30):
    return lambda m, a: m.fn1(name, f, a, lo, hi)


def mf2(name, f):
    def g(m, a, b):
        if isinstance(a, Sym) or isinstance(b, Sym):
            return m.atom(name, (a, b), -1e30, 1e30, None)
        try:
            return float(f(a, b))
        except (ValueError, OverflowError, ZeroDivisionError):
            return float("nan")
    return g


def b_memcmp(m, a, b, n):
    for i in range(n):
        x, y = m.ld(a + i, 1, 0), m.ld(b + i, 1, 0)
        if x != y:
            return 1 if x > y else (1 << 32) - 1
    return 0


def b_assume(m, c):
    if not c:
        raise Infeasible()


def b_junk(m, p, n):
    """what earlier frames left in a scratch buffer"""
    n = sx(n, 32) if isinstance(n, int) else n
    for i in range(n):
        m.st(p + 4 * i, 4, ((i * 7919) % 1009 - 504) / 64.0)


BUILTIN = {
    "vx_junk_f32": b_junk,
    "vx_sym_f32": b_sym(4), "vx_sym_f64": b_sym(8), "vx_out_f32": b_out(4), "vx_out_f64": b_out(8), "vx_out_i32": b_outi,
    "vx_param": lambda m, i: int(m.params[i]) & 0xffffffff,
    "vx_paramf": lambda m, i: float(m.params[i]),
    "vx_assert": b_fail, "vx_assume": b_assume,
    "malloc": lambda m, n: m.alloc(n), "calloc": lambda m, a, b: m.alloc(a * b, True), "free": lambda m, p: m.freed.add(p) if p else None,
    "sqrt": b_realsqrt, "sqrtf": b_realsqrt,
    "sin": mf("sin", math.sin, -1.0, 1.0), "cos": mf("cos", math.cos, -1.0, 1.0), "tan": mf("tan", math.tan), "acos": mf("acos", math.acos), "asin": mf("asin", math.asin), "atan": mf("atan", math.atan),
    "exp": mf("exp", math.exp), "exp2": mf("exp2", lambda x: 2.0 ** x), "log": mf("log", math.log), "log10": mf("log10", math.log10), "floor": mf("floor", math.floor), "ceil": mf("ceil", math.ceil),
    "sinf": mf("sin", math.sin, -1.0, 1.0), "cosf": mf("cos", math.cos, -1.0, 1.0), "floorf": mf("floor", math.floor), "ceilf": mf("ceil", math.ceil),
    "pow": mf2("pow", math.pow), "powf": mf2("pow", math.pow), "atan2": mf2("atan2", math.atan2), "atan2f": mf2("atan2", math.atan2), "fmod": mf2("fmod", math.fmod),
    "fabs": lambda m, a: m.fabs(a), "fabsf": lambda m, a: m.fabs(a),
    "fmin": lambda m, a, b: m.fmax(a, b, False), "fminf": lambda m, a, b: m.fmax(a, b, False), "fmax": lambda m, a, b: m.fmax(a, b, True), "fmaxf": lambda m, a, b: m.fmax(a, b, True),
    "round": mf("round", lambda x: math.floor(abs(x) + .5) * (1 if x >= 0 else -1)), "trunc": mf("trunc", math.trunc), "rint": mf("rint", round), "abs": lambda m, a: abs(sx(a, 32)) & 0xffffffff,
    "ldexp": lambda m, a, e: a * (2.0 ** sx(e, 32)),
    "_setjmp": lambda m, *a: 0, "setjmp": lambda m, *a: 0, "longjmp": b_ljmp,
    "bcmp": b_memcmp, "memcmp": b_memcmp,
    "memmove": lambda m, d, s, n: (m.memcpy(d, s, n), d)[1], "memcpy": lambda m, d, s, n: (m.memcpy(d, s, n), d)[1], "memset": lambda m, d, v, n: (m.memset(d, v, n), d)[1],
    "printf": lambda m, *a: 0, "puts": lambda m, *a: 0, "fprintf": lambda m, *a: 0,
}


# ----------------------------------------------------------------------------------- code generation
def mask(t):
    return (1 << (64 if t[0] == "p" else t[1])) - 1


class Gen:
    def __init__(self, mach, mod, name):
        self.m, self.mod, self.name = mach, mod, name
        self.consts = {}

    def reg(self, t):
        return "r" + re.sub(r"\W", "_", t[1:].strip('"'))

    def val(self, p, t):
        k = p.pk()
        if k[0] == "%":
            p.nx()
            return self.reg(k)
        if k[0] == "@":
            p.nx()
            return "A(%r)" % k[1:]
        if k in ("getelementptr", "ptrtoint", "inttoptr", "bitcast"):
            j = p.i
            p.nx()
            while p.pk() in ATTR:
                p.nx()
            p._skip()
            s = " ".join(p.t[j:p.i])
            return "K(%r,%r)" % (s, t)
        p.nx()
        if k in ("null", "undef", "poison", "zeroinitializer"):
            if t[0] == "v":
                return "(%s,)*%d" % ("0.0" if t[2][0] == "f" else "0", t[1])
            if t[0] == "s":
                return "[%s]" % ",".join("0.0" if x[0] == "f" else "0" for x in t[2])
            return "0.0" if t[0] == "f" else "0"
        if k == "true":
            return "1"
        if k == "false":
            return "0"
        if t[0] == "f":
            v = fbits(k, t)
            if v != v:
                return 'float("nan")'
            if v in (float("inf"), float("-inf")):
                return 'float("%s")' % v
            return repr(v)
        if k == "<" and t[0] == "v":
            l = []
            while not p.ac(">"):
                et = p.type()
                l.append(self.val(p, et))
                p.ac(",")
            return "(%s,)" % ",".join(l)
        return str(int(k) & mask(t))

    def tval(self, p):
        t = p.type()
        p.attrs()
        return t, self.val(p, t)

    def sx(self, v, n):
        if re.match(r"^\d+$", v):
            return str(sx(int(v), n))
        return "(((%s)^%d)-%d)" % (v, 1 << (n - 1), 1 << (n - 1))

    def fn(self):
        hdr, body, _ = self.mod.fdefs[self.name]
        # parameters
        i = hdr.index("@" + self.name) + len(self.name) + 1
        p = P(hdr[i:], self.mod)
        p.ex("(")
        args, n, byv = [], 0, []
        while not p.ac(")"):
            if p.ac("..."):
                continue
            t = p.type()
            if p.pk() == "byval" or "byval" in p.t[p.i:p.i + 4]:
                pass
            while p.pk() not in (",", ")") and p.pk()[0] != "%":
                if p.pk() == "byval":
                    p.nx()
                    p.ex("(")
                    bt = p.type()
                    p.ex(")")
                    byv.append((n, sizeof(bt)))
                    continue
                p.nx()
                if p.pk() == "(":
                    p._skip()
            if p.pk()[0] == "%":
                args.append(self.reg(p.nx()))
            else:
                args.append("r%d" % n)
            n += 1
            p.ac(",")
        # blocks
        blocks, cur, label = [], [], None
        for l in body:
            s = l.split(" ; ")[0].split(", !")[0].rstrip()
            if not s.strip():
                continue
            m = re.match(r'^([-\w.$]+|"[^"]*"):', s)
            if m:
                if cur or label is not None:
                    blocks.append((label, cur))
                label, cur = m.group(1).strip('"'), []
            else:
                if label is None:
                    label = "ENTRY"
                if re.match(r"^\s+\]", s) or (cur and cur[-1].startswith("switch") and "]" not in cur[-1]):
                    cur[-1] += " " + s.strip()
                else:
                    cur.append(s.strip())
        blocks.append((label, cur))
        first = blocks[0][0]
        self.bid = {b[0]: k for k, b in enumerate(blocks)}
        if first == "ENTRY":   # numbered entry block: its label is the number after the parameters
            self.bid[str(n)] = 0
        self.phis = {}
        parsed = {}
        for lab, ins in blocks:
            ph, rest = [], []
            for s in ins:
                m = re.match(r"^(%\S+) = phi ", s)
                if m:
                    q = P(s[m.end():], self.mod)
                    while q.pk() in ATTR:
                        q.nx()
                    t = q.type()
                    inc = {}
                    while q.ac("["):
                        v = self.val(q, t)
                        q.ex(",")
                        b = q.nx()[1:].strip('"')
                        q.ex("]")
                        inc[b] = v
                        q.ac(",")
                    ph.append((self.reg(m.group(1)), inc))
                else:
                    rest.append(s)
            self.phis[lab] = ph
            parsed[lab] = rest
        self.entrylabel = str(n) if first == "ENTRY" else first
        out = []
        w = out.append
        w("def F(M,%s):" % ",".join(args) if args else "def F(M):")
        w(" ld=M.ld;st=M.st;mem=M.mem;G=M.mem.get;fcmp=M.fcmp;sel=M.select;fdiv=M.fdiv;call=M.call")
        w(" def A(n): return M.addr(MOD,n)")
        w(" def K(s,t): return M.const(PP(s,MOD),t,MOD)")
        for k, sz in byv:
            w(" t_=M.alloc(%d);M.memcpy(t_,%s,%d);%s=t_" % (sz, args[k], sz, args[k]))
        w(" bb=0")
        w(" while True:")
        code = []
        for k, (lab, _) in enumerate(blocks):
            real = self.entrylabel if lab == "ENTRY" else lab
            selfloop = any(re.search(r"label %%\"?%s\"?(,|$|\s)" % re.escape(real), s) for s in parsed[lab][-1:])
            lines = []
            for s in parsed[lab][:-1]:
                lines += self.ins(s)
            lines += self.term(parsed[lab][-1], real, selfloop)
            if selfloop:
                lines = ["while True:"] + [" " + x for x in lines]
            code.append(lines)

        def emit(lo, hi, ind):
            if hi - lo == 1:
                for x in code[lo]:
                    w(ind + x)
                return
            mid = (lo + hi) // 2
            w(ind + "if bb<%d:" % mid)
            emit(lo, mid, ind + " ")
            w(ind + "else:")
            emit(mid, hi, ind + " ")
        emit(0, len(code), "  ")
        return "\n".join(out)

    def goto(self, frm, to, selfloop):
        """assignments of the phis of `to` on the edge from `frm`, then the jump"""
        l = []
        ph = self.phis[to if to in self.phis else ("ENTRY" if to == self.entrylabel else to)]
        if ph:
            lhs = ",".join(r for r, _ in ph)
            rhs = ",".join(inc[frm] for _, inc in ph)
            if lhs != rhs:
                l.append("%s=%s" % (lhs, rhs))
        if selfloop and to == frm:
            l.append("continue")
        elif selfloop:
            l += ["bb=%d" % self.bid[to], "break"]
        else:
            l += ["bb=%d" % self.bid[to], "continue"]
        return l

    def term(self, s, lab, sl):
        p = P(s, self.mod)
        op = p.nx()
        if op == "ret":
            t = p.type()
            if t == ("void",):
                return ["return None"]
            return ["return " + self.val(p, t)]
        if op == "br":
            if p.ac("label"):
                return self.goto(lab, p.nx()[1:].strip('"'), sl)
            t = p.type()
            c = self.val(p, t)
            p.ex(",")
            p.ex("label")
            a = p.nx()[1:].strip('"')
            p.ex(",")
            p.ex("label")
            b = p.nx()[1:].strip('"')
            return ["if %s:" % c] + [" " + x for x in self.goto(lab, a, sl)] + ["else:"] + [" " + x for x in self.goto(lab, b, sl)]
        if op == "switch":
            t = p.type()
            c = self.val(p, t)
            p.ex(",")
            p.ex("label")
            d = p.nx()[1:].strip('"')
            p.ex("[")
            l = []
            kw = "if"
            while not p.ac("]"):
                t2 = p.type()
                v = self.val(p, t2)
                p.ex(",")
                p.ex("label")
                b = p.nx()[1:].strip('"')
                l += ["%s %s==%s:" % (kw, c, v)] + [" " + x for x in self.goto(lab, b, sl)]
                kw = "elif"
            if kw == "if":
                return self.goto(lab, d, sl)
            return l + ["else:"] + [" " + x for x in self.goto(lab, d, sl)]
        if op == "unreachable":
            return ["raise IRError('unreachable')"]
        raise IRError("terminator " + s)

    def ins(self, s):
        m = re.match(r"^(%\S+) = (.*)$", s)
        dst = None
        if m:
            dst, s = self.reg(m.group(1)), m.group(2)
        p = P(s, self.mod)
        op = p.nx()
        if op in ("tail", "notail", "musttail"):
            op = p.nx()
        r = self.expr(op, p, dst)
        if isinstance(r, list):
            return r
        return ["%s=%s" % (dst, r)] if dst else [r]

    def expr(self, op, p, dst):
        if op in ("add", "sub", "mul", "shl", "lshr", "ashr", "and", "or", "xor", "sdiv", "udiv", "srem", "urem"):
            while p.pk() in ATTR:
                p.nx()
            t = p.type()
            a = self.val(p, t)
            p.ex(",")
            b = self.val(p, t)
            n, M = t[1], mask(t)
            if op == "add":
                return "(%s+%s)&%d" % (a, b, M)
            if op == "sub":
                return "(%s-%s)&%d" % (a, b, M)
            if op == "mul":
                return "(%s*%s)&%d" % (a, b, M)
            if op == "shl":
                return "(%s<<%s)&%d if %s<%d else UB()" % (a, b, M, b, n)
            if op == "lshr":
                return "%s>>%s" % (a, b)
            if op == "ashr":
                return "(%s>>%s)&%d" % (self.sx(a, n), b, M)
            if op in ("and", "or", "xor"):
                return "%s%s%s" % (a, {"and": "&", "or": "|", "xor": "^"}[op], b)
            if op == "udiv":
                return "%s//%s" % (a, b)
            if op == "urem":
                return "%s%%%s" % (a, b)
            return "%s(%s,%s)&%d" % (op, self.sx(a, n), self.sx(b, n), M)
        if op in ("fadd", "fsub", "fmul", "fdiv"):
            while p.pk() in ATTR:
                p.nx()
            t = p.type()
            a = self.val(p, t)
            p.ex(",")
            b = self.val(p, t)
            if op == "fdiv":
                return "fdiv(%s,%s)" % (a, b)
            return "%s%s%s" % (a, {"fadd": "+", "fsub": "-", "fmul": "*"}[op], b if b[0] != "-" else "(%s)" % b)
        if op == "fneg":
            while p.pk() in ATTR:
                p.nx()
            t = p.type()
            return "-%s" % self.val(p, t)
        if op == "icmp":
            if p.pk() == "samesign":
                p.nx()
            c = p.nx()
            t = p.type()
            a = self.val(p, t)
            p.ex(",")
            b = self.val(p, t)
            n = 64 if t[0] == "p" else t[1]
            o = {"eq": "==", "ne": "!=", "ugt": ">", "uge": ">=", "ult": "<", "ule": "<=", "sgt": ">", "sge": ">=", "slt": "<", "sle": "<="}[c]
            if c[0] == "s":
                # signed order on unsigned representation: flip the sign bit
                h = 1 << (n - 1)
                fa = str(int(a) ^ h) if a.isdigit() else "(%s^%d)" % (a, h)
                fb = str(int(b) ^ h) if b.isdigit() else "(%s^%d)" % (b, h)
                return "1 if %s%s%s else 0" % (fa, o, fb)
            return "1 if %s%s%s else 0" % (a, o, b)
        if op == "fcmp":
            while p.pk() in ATTR:
                p.nx()
            c = p.nx()
            t = p.type()
            a = self.val(p, t)
            p.ex(",")
            b = self.val(p, t)
            if c in ("true", "false"):
                return "1" if c == "true" else "0"
            return "fcmp(%r,%s,%s)" % (c, a, b)
        if op == "select":
            while p.pk() in ATTR:
                p.nx()
            t, c = self.tval(p)
            p.ex(",")
            _, a = self.tval(p)
            p.ex(",")
            _, b = self.tval(p)
            return "sel(%s,%s,%s)" % (c, a, b)
        if op in ("zext", "sext", "trunc", "sitofp", "uitofp", "fptosi", "fptoui", "fpext", "fptrunc", "bitcast", "ptrtoint", "inttoptr"):
            while p.pk() in ATTR:
                p.nx()
            t, v = self.tval(p)
            p.ex("to")
            u = p.type()
            if op == "zext":
                return "int(%s)" % v if t[1] == 1 else v
            if op == "trunc":
                return "%s&%d" % (v, mask(u))
            if op == "sext":
                if t[1] == 1:
                    return "%d if %s else 0" % (mask(u), v)
                return "%s&%d" % (self.sx(v, t[1]), mask(u))
            if op == "sitofp":
                return "float(%s)" % self.sx(v, t[1])
            if op == "uitofp":
                return "float(int(%s))" % v
            if op in ("fptosi", "fptoui"):
                return "M.fptosi(%s,%d)" % (v, u[1])
            if op == "fptrunc":
                return "f32(%s)" % v
            if op == "bitcast":
                if t[0] == u[0]:
                    return v
                return "bcast(%s,%r,%d)" % (v, u[0], sizeof(u))
            return v
        if op == "freeze":
            t = p.type()
            return self.val(p, t)
        if op == "alloca":
            t = p.type()
            n = "1"
            if p.ac(",") and p.pk() != "align":
                _, n = self.tval(p)
            return "M.alloc(%d*%s)" % (sizeof(t), n)
        if op == "load":
            p.ac("volatile")
            t = p.type()
            p.ex(",")
            p.type()
            a = self.val(p, ("p",))
            if t[0] == "v":
                return "tuple(ld(%s+i_*%d,%d,%d) for i_ in range(%d))" % (a, sizeof(t[2]), sizeof(t[2]), t[2][0] == "f", t[1])
            if t[0] in ("s", "a"):
                raise IRError("aggregate load")
            n, fl = sizeof(t), int(t[0] == "f")
            return "ld(%s,%d,%d)" % (a, n, fl)
        if op == "store":
            p.ac("volatile")
            t, v = self.tval(p)
            p.ex(",")
            p.type()
            a = self.val(p, ("p",))
            if t[0] == "v":
                return "[st(%s+i_*%d,%d,(%s)[i_]) for i_ in range(%d)]" % (a, sizeof(t[2]), sizeof(t[2]), v, t[1])
            return "st(%s,%d,%s)" % (a, sizeof(t), v)
        if op == "getelementptr":
            while p.pk() in ATTR:
                p.nx()
            bt = p.type()
            p.ex(",")
            p.type()
            base = self.val(p, ("p",))
            off, parts, first, cur = 0, [], True, bt
            while p.ac(","):
                it, v = self.tval(p)
                if first:
                    sz = sizeof(cur)
                    first = False
                elif cur[0] == "s":
                    k = int(v)
                    off += layout(cur)[1][k]
                    cur = cur[2][k]
                    continue
                else:
                    cur = cur[2]
                    sz = sizeof(cur)
                if v.isdigit():
                    off += sx(int(v), it[1]) * sz
                elif it[1] == 64:
                    parts.append("%s*%d" % (v, sz) if sz != 1 else v)
                else:
                    parts.append("%s*%d" % (self.sx(v, it[1]), sz))
            e = base
            if off:
                e += "+%d" % off if off > 0 else "-%d" % -off
            if parts or off < 0:
                e = "(%s)&%d" % ("+".join([e] + parts), M64)
            return e
        if op == "call":
            return self.callx(p, dst)
        if op == "extractvalue":
            t, v = self.tval(p)
            p.ex(",")
            return "%s[%s]" % (v, p.nx())
        if op == "insertvalue":
            t, v = self.tval(p)
            p.ex(",")
            _, e = self.tval(p)
            p.ex(",")
            return "inserted(%s,%s,%s)" % (v, e, p.nx())
        if op == "insertelement":
            t, v = self.tval(p)
            p.ex(",")
            _, e = self.tval(p)
            p.ex(",")
            _, k = self.tval(p)
            return "tuple(inserted(%s,%s,%s))" % (v, e, k)
        if op == "extractelement":
            t, v = self.tval(p)
            p.ex(",")
            _, k = self.tval(p)
            return "%s[%s]" % (v, k)
        raise IRError("instruction " + op)

    def callx(self, p, dst):
        p.attrs()
        rt = p.type()
        callee = p.nx()
        while callee in ATTR:
            callee = p.nx()
        p.ex("(")
        args, tys = [], []
        while not p.ac(")"):
            t = p.type()
            if t[0] == "m":
                p.nx()
                p.ac(",")
                continue
            while p.pk() in ATTR or p.pk() in ("byval", "sret"):
                k = p.nx()
                if k == "align":
                    p.nx()
                elif p.pk() == "(":
                    p._skip()
            args.append(self.val(p, t))
            tys.append(t)
            p.ac(",")
        a = ",".join(args)
        if callee[0] == "%":
            return "M.icall(%s,[%s])" % (self.reg(callee), a)
        n = callee[1:]
        if n.startswith("llvm."):
            return self.intr(n, args, tys)
        return "call(MOD,%r,[%s])" % (n, a)

    def intr(self, n, a, tys):
        if n.startswith(("llvm.lifetime", "llvm.assume", "llvm.dbg", "llvm.experimental", "llvm.stacks", "llvm.stackr", "llvm.prefetch")):
            return "0"
        if n.startswith("llvm.memcpy") or n.startswith("llvm.memmove"):
            return "M.memcpy(%s,%s,%s)" % tuple(a[:3])
        if n.startswith("llvm.memset"):
            return "M.memset(%s,%s,%s)" % tuple(a[:3])
        b = n.split(".")[1]
        if b == "fabs":
            return "M.fabs(%s)" % a[0]
        if b in ("maxnum", "minnum", "maximum", "minimum"):
            return "M.fmax(%s,%s,%s)" % (a[0], a[1], b.startswith("max"))
        if b in ("fmuladd", "fma"):
            return "%s*%s+%s" % (a[0], a[1], a[2])
        if b in ("floor", "ceil", "sqrt", "sin", "cos", "exp", "log", "log10", "exp2", "trunc", "rint", "round"):
            return "BI[%r](M,%s)" % (b, a[0])
        if b == "pow":
            return "BI['pow'](M,%s,%s)" % (a[0], a[1])
        if b == "copysign":
            return "math.copysign(%s,%s)" % (a[0], a[1])
        t = tys[0]
        if b in ("smax", "smin"):
            w = t[1]
            return "%s(%s,%s)&%d" % (b[1:], self.sx(a[0], w), self.sx(a[1], w), mask(t))
        if b in ("umax", "umin"):
            return "%s(%s,%s)" % (b[1:], a[0], a[1])
        if b == "abs":
            return "abs(%s)&%d" % (self.sx(a[0], t[1]), mask(t))
        if b == "fshl":
            w = t[1]
            return "fshl(%s,%s,%s,%d)" % (a[0], a[1], a[2], w)
        if b == "fshr":
            w = t[1]
            return "fshl(%s,%s,%d-%s%%%d,%d)" % (a[0], a[1], w, a[2], w, w)
        if b == "bswap":
            return "int.from_bytes((%s).to_bytes(%d,'little'),'big')" % (a[0], t[1] // 8)
        if b == "ctlz":
            return "%d-(%s).bit_length()" % (t[1], a[0])
        if b == "usub" and ".sat" in n:
            return "max(%s-%s,0)" % (a[0], a[1])
        if b == "trap":
            return "UB()"
        raise IRError("intrinsic " + n)


def sdiv(a, b):
    if b == 0:
        raise IRError("division by zero")
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def srem(a, b):
    return a - sdiv(a, b) * b


def f32(v):
    if type(v) is Sym:
        return v
    try:
        return struct.unpack("<f", struct.pack("<f", v))[0]
    except OverflowError:
        return math.copysign(float("inf"), v)


def bcast(v, k, n):
    if isinstance(v, (Sym, Pair)):
        return v
    if k == "f":
        return struct.unpack("<f" if n == 4 else "<d", int(v).to_bytes(n, "little"))[0] if not isinstance(v, float) else v
    return int.from_bytes(struct.pack("<f" if n == 4 else "<d", v), "little") if isinstance(v, float) else v


def inserted(v, e, k):
    l = list(v)
    l[k] = e
    return l


def fshl(a, b, s, w):
    s %= w
    return ((a << s) | (b >> (w - s))) & ((1 << w) - 1)


def UB():
    raise IRError("undefined shift")


BUILTIN["trunc"] = mf("trunc", math.trunc)
BUILTIN["rint"] = mf("rint", round)


def compile_fn(mach, mod, name):
    src = mach.src.get((mod.name, name))
    if src is None:
        src = mach.src[(mod.name, name)] = Gen(mach, mod, name).fn()
    env = {"MOD": mod, "PP": P, "BI": BUILTIN, "sdiv": sdiv, "srem": srem, "f32": f32, "bcast": bcast, "inserted": inserted, "fshl": fshl, "UB": UB, "IRError": IRError, "math": math}
    try:
        exec(compile(src, "<%s>" % name, "exec"), env)
    except SyntaxError as e:
        raise IRError("codegen %s: %s\n%s" % (name, e, src.splitlines()[e.lineno - 1]))
    return env["F"]
