"""Abstract interpreter over LLVM IR.

Numeric values live in a polyhedra domain (poly.py), data bytes in a bit-level function domain
(BDDs over the bytes of the input stream, bdd.py).  States are joined at every control-flow merge,
partitioned by constants and monitor status; loops are solved by widening and narrowing."""
import itertools, heapq, time
from fractions import Fraction as Fr
from . import bdd
from .poly import Lin, Poly, sym, const, integral, forms, setrank, project, join as pjoin, widen as pwiden, entails as pentails, INF, NAMES


class Unsupported(Exception):
    pass


class Num:
    __slots__ = ("l", "w")
    def __init__(self, l, w):
        self.l = l if isinstance(l, Lin) else Lin({}, l); self.w = w
    def __repr__(self):
        return "Num(%r:%d)" % (self.l, self.w)


class Bits:
    __slots__ = ("b",)
    def __init__(self, b):
        self.b = b
    @property
    def w(self):
        return len(self.b)
    def __repr__(self):
        return "Bits(%d%s)" % (len(self.b), "=%d" % bdd.value(self.b) if bdd.is_const(self.b) else "")


class Ptr:
    __slots__ = ("reg", "off")
    def __init__(self, reg, off):
        self.reg = reg; self.off = off if isinstance(off, Lin) else Lin({}, off)
    def __repr__(self):
        return "Ptr(%s+%r)" % (self.reg, self.off)


class Cnd:
    __slots__ = ("c",)
    w = 1
    def __init__(self, c):
        self.c = c
    def __repr__(self):
        return "Cnd%r" % (self.c,)


class Agg:
    __slots__ = ("v",)
    def __init__(self, v):
        self.v = list(v)


class Unk:
    """value of unknown kind (e.g. undefined pointer)"""
    __slots__ = ()


UNK = Unk()
NULLREG = "null"
BIG = 1 << 24
TRUE = ("b", 1)
FALSE = ("b", 0)


def cnot(c):
    if c[0] == "b":
        return ("b", bdd.not_(c[1]))
    if c[0] == "not":
        return c[1]
    return ("not", c)


def cand(a, b):
    if a[0] == "b" and b[0] == "b":
        return ("b", bdd.and_(a[1], b[1]))
    if a == FALSE or b == FALSE:
        return FALSE
    if a == TRUE:
        return b
    if b == TRUE:
        return a
    return ("and", a, b)


def cor(a, b):
    return cnot(cand(cnot(a), cnot(b)))


class State:
    __slots__ = ("poly", "vals", "mem", "pc", "g", "cve", "cvi", "cvn", "divs", "trail")

    def __init__(self):
        self.poly = Poly(); self.vals = {}; self.mem = {}; self.pc = 1; self.g = {}; self.cve = {}; self.cvi = None; self.cvn = -1
        self.divs = {}; self.trail = None

    def copy(self):
        s = State()
        s.poly = self.poly.copy(); s.vals = dict(self.vals); s.mem = dict(self.mem); s.pc = self.pc; s.g = dict(self.g)
        s.cve = dict(self.cve); s.cvi = self.cvi; s.cvn = self.cvn; s.divs = dict(self.divs); s.trail = self.trail
        return s

    @property
    def bad(self):
        return self.poly.bad or self.pc == 0


class Region:
    """a memory object.  kind: cells (tracked), const (table), content (input stream), sink (monitored output), opaque"""
    def __init__(self, name, kind, size=None, **kw):
        self.name = name; self.kind = kind; self.size = size
        self.__dict__.update(kw)


class Ctx:
    """shared by all runs in this process: content variables"""
    def __init__(self):
        self.reset()

    def reset(self):
        bdd.reset()
        self.vars = {}        # key -> base
        self.nv = 0
        self.vinfo = {}       # base -> key

    def var(self, key, n=8):
        v = self.vars.get(key)
        if v is None:
            v = self.nv
            self.vars[key] = v
            self.vinfo[v] = (key, n)
            self.nv += n
        return v

    def bits(self, key, n=8):
        v = self.var(key, n)
        return tuple(bdd.var(v + i) for i in range(n))

    def base_of(self, var):
        # variables are allocated in groups; find the group
        import bisect
        if len(getattr(self, "_bl", ())) != len(self.vinfo):
            self._bl = sorted(self.vinfo)
        return self._bl[bisect.bisect_right(self._bl, var) - 1]


CTX = Ctx()


class Report:
    """collects obligations of the reporting pass"""
    def __init__(self):
        self.n = {}
        self.fail = {}

    def ob(self, kind, ok, ins, text, detail=""):
        self.n[kind] = self.n.get(kind, 0) + 1
        if not ok:
            loc = ins.loc() if hasattr(ins, "loc") else str(ins)
            self.fail.setdefault((kind, loc, text), detail() if callable(detail) else detail)
        return ok


class Engine:
    MAXPART = 8

    def __init__(self, mod, spec, name=""):
        self.mod = mod
        self.spec = spec
        self.name = name
        self.regions = {}
        self.W = mod.ptrbits
        self.reporting = False
        self.rep = Report()
        self.globals_sym = set()
        self.stats = dict(blocks=0, joins=0, iters=0)
        self.visited = set()
        self.tabcache = {}
        self.facts = []             # inequalities over globals_sym that hold in every state
        spec.attach(self)

    # ---------- report -------------------------------------------------
    def ob(self, kind, ok, ins, text, detail=""):
        if self.reporting:
            self.rep.ob(kind, ok, ins, text, detail)
        return ok

    # ---------- values -------------------------------------------------
    def fresh(self, st, name, lo=None, hi=None):
        s = sym(name)
        # the symbol must not be in use with an older meaning
        if name in st.poly.eq or any(name in g.t for g in st.poly.ge) or any(name in e.t for e in st.poly.eq.values()):
            k = 1
            while True:
                n2 = "%s'%d" % (name, k)
                if not (n2 in st.poly.eq or any(n2 in g.t for g in st.poly.ge) or any(n2 in e.t for e in st.poly.eq.values())):
                    break
                k += 1
            s = sym(n2)
        if lo is not None:
            st.poly.add_ge(s - lo)
        if hi is not None:
            st.poly.add_ge(hi - s)
        return s

    def unknown_bits(self, key, n):
        return Bits(CTX.bits(("U",) + key, n))

    def isconst(self, v):
        return (isinstance(v, Num) and not v.l.t) or (isinstance(v, Bits) and bdd.is_const(v.b))

    def cval(self, v):
        """unsigned value of a constant"""
        if isinstance(v, Num):
            return v.l.c % (1 << v.w)
        return bdd.value(v.b)

    def simp(self, st, v):
        if isinstance(v, Num) and v.l.t:
            l = st.poly.norm(v.l)
            if not l.t:
                return Num(l, v.w)
        return v

    def canon(self, st, v, ins, signed=False):
        """Lin equal to the (un)signed value of a Num in its canonical range"""
        l = st.poly.norm(v.l)
        w = v.w
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
        if not l.t:
            x = l.c % (1 << w)
            if signed and x >> (w - 1):
                x -= 1 << w
            return const(x)
        mn = st.poly.vmin(l); mx = st.poly.vmax(l)
        if st.poly.bad:
            return const(0)
        if mn >= lo and mx <= hi:
            return l
        if mn > -INF and mx < INF:
            k = (mn - lo) // (1 << w)
            k2 = (mx - lo) // (1 << w)
            if k == k2:
                return l - int(k) * (1 << w)
        k = self.fresh(st, "%s.wrap%s%d" % (ins.name, "s" if signed else "u", len(l.t)))
        r = l - k * (1 << w)
        st.poly.add_ge(r - lo); st.poly.add_ge(hi - r)
        return r

    def tonum(self, st, v, ins, tag="n"):
        if isinstance(v, Num):
            return v
        if isinstance(v, Bits):
            if bdd.is_const(v.b):
                return Num(bdd.value(v.b), v.w)
            # strip bits that are constant under the path condition
            top = v.w
            while top > 0 and v.b[top - 1] == 0:
                top -= 1
            key = ("bn",) + v.b
            s = st.divs.get(key)
            if s is None:
                s = self.fresh(st, "%s.%s" % (ins.name, tag), 0, (1 << top) - 1)
                st.divs[key] = s
            return Num(s, v.w)
        if isinstance(v, Cnd):
            raise Unsupported("condition used as number")
        raise Unsupported("number expected: %r" % (v,))

    def tobits(self, st, v, ins, tag="b"):
        if isinstance(v, Bits):
            return v
        if isinstance(v, Num):
            v = self.simp(st, v)
            if not v.l.t:
                return Bits(bdd.const(v.l.c % (1 << v.w), v.w))
            key = ("nb", v.l.key(), v.w)
            r = st.divs.get(key)
            if r is None:
                r = self.unknown_bits((ins.name, tag), v.w)
                st.divs[key] = r
            return r
        if isinstance(v, Unk):
            raise Unsupported("bits of unknown")
        raise Unsupported("bits expected: %r" % (v,))

    def cond(self, v):
        if isinstance(v, Cnd):
            return v.c
        if isinstance(v, Bits):
            return ("b", v.b[0])
        if isinstance(v, Num):
            return ("b", v.l.c & 1)
        raise Unsupported("condition expected")

    def mkcond(self, c):
        if c[0] == "b":
            return Bits((c[1],))
        return Cnd(c)

    # ---------- conditions ----------------------------------------------
    def assume(self, st, c, truth=True):
        """list of states in which the condition has the given truth; st is consumed"""
        k = c[0]
        if k == "b":
            n = c[1] if truth else bdd.not_(c[1])
            if n == 1:
                return [st]
            pc = bdd.and_(st.pc, n)
            if pc == 0:
                return []
            if pc != st.pc:
                st.pc = pc
                self.spec.on_content(self, st)
            return [] if st.bad else [st]
        if k == "not":
            return self.assume(st, c[1], not truth)
        if k == "ge":
            st.poly.add_ge(c[1] if truth else -c[1] - 1)
            return [] if st.bad else [st]
        if k == "eq":
            l = c[1]
            if truth:
                st.poly.add_eq(l)
                return [] if st.bad else [st]
            n = st.poly.norm(l)
            if not n.t:
                return [] if n.c == 0 else [st]
            if st.poly.ent_ge(n):
                st.poly.add_ge(n - 1)
                return [] if st.bad else [st]
            if st.poly.ent_ge(-n):
                st.poly.add_ge(-n - 1)
                return [] if st.bad else [st]
            s2 = st.copy()
            st.poly.add_ge(n - 1); s2.poly.add_ge(-n - 1)
            return [s for s in (st, s2) if not s.bad]
        if k == "and":
            if truth:
                return [t for s in self.assume(st, c[1], True) for t in self.assume(s, c[2], True)]
            s2 = st.copy()
            a = self.assume(st, c[1], False)
            b = [t for s in self.assume(s2, c[1], True) for t in self.assume(s, c[2], False)]
            return a + b
        raise Unsupported("condition %r" % (c,))

    def split(self, st, c):
        """(states where true, states where false)"""
        if c == TRUE:
            return [st], []
        if c == FALSE:
            return [], [st]
        s2 = st.copy()
        return self.assume(st, c, True), self.assume(s2, c, False)

    # ---------- content -------------------------------------------------
    def in_byte(self, st, stream, l):
        """eight nodes for byte l of the named input stream"""
        if st.cvn != len(st.poly.eq):
            self.rebuild_cv(st)
        n = st.poly.norm(l)
        k = (stream,) + n.key()
        v = st.cvi.get(k)
        if v is None:
            v = CTX.var(("IN",) + k)
            i = 0
            while v in st.cve:
                i += 1
                v = CTX.var(("IN", i) + k)
            st.cve[v] = (stream, n)
            st.cvi = dict(st.cvi)
            st.cvi[k] = v
        return tuple(bdd.var(v + i) for i in range(8))

    def rebuild_cv(self, st):
        st.cvn = len(st.poly.eq)
        idx = {}
        ren = {}
        for v in sorted(st.cve):
            stream, l = st.cve[v]
            l = st.poly.norm(l)
            st.cve[v] = (stream, l)
            k = (stream,) + l.key()
            if k in idx:
                ren[v] = idx[k]
            else:
                idx[k] = v
        st.cvi = idx
        if ren:
            m = {}
            for a, b in ren.items():
                for i in range(8):
                    m[a + i] = b + i
                del st.cve[a]
            self.rename(st, m)

    def rename(self, st, m):
        nv = CTX.nv
        def rv(v):
            if isinstance(v, Bits):
                return Bits(bdd.permute(v.b, m, nv))
            if isinstance(v, Agg):
                return Agg([rv(x) for x in v.v])
            return v
        for k in list(st.vals):
            v = st.vals[k]
            if isinstance(v, (Bits, Agg)):
                st.vals[k] = rv(v)
        for k in list(st.mem):
            n, v = st.mem[k]
            if isinstance(v, (Bits, Agg)):
                st.mem[k] = (n, rv(v))
        st.pc = bdd.permute((st.pc,), m, nv)[0]
        st.divs = {}

    # ---------- operands ------------------------------------------------
    def val(self, st, o, ins=None):
        k = o[0]
        if k == "v":
            v = st.vals.get(o[1])
            if v is None:
                return UNK
            return v
        if k == "c":
            return Num(Lin({}, o[1]), o[2].w)
        if k == "g":
            self.gregion(o[1])
            return Ptr(o[1], o[2])
        if k == "f":
            return Ptr("fn:" + o[1], 0)
        if k == "null":
            return Ptr(NULLREG, 0)
        if k == "cv":
            if o[2].k == "v":
                b = ()
                for e in o[1]:
                    b += self.tobits(st, self.val(st, e, ins), ins).b if e[0] != "u" else (0,) * o[2].e.w
                return Bits(b)
            return Agg([self.val(st, e, ins) for e in o[1]])
        if k == "z":
            t = o[1]
            return self.zero(t)
        if k == "u":
            t = o[1]
            return self.undef(t, ins)
        raise Unsupported("operand %r" % (o[:2],))

    def zero(self, t):
        if t.k == "i":
            return Num(0, t.w)
        if t.k == "v":
            return Bits((0,) * t.w)
        if t.k == "p":
            return Ptr(NULLREG, 0)
        if t.k == "a":
            return Agg([self.zero(t.e)] * t.n)
        if t.k == "s":
            return Agg([self.zero(e) for e in t.els])
        raise Unsupported("zero of " + t.k)

    def undef(self, t, ins):
        if t.k in "iv":
            return self.unknown_bits(("undef", ins.name if ins else ""), t.w)
        if t.k == "a":
            return Agg([self.undef(t.e, ins)] * t.n)
        if t.k == "s":
            return Agg([self.undef(e, ins) for e in t.els])
        return UNK

    def gregion(self, name):
        r = self.regions.get(name)
        if r is None:
            G = self.mod.globals.get(name)
            if G is None:
                raise Unsupported("global " + name)
            r = self.spec.global_region(self, G)
            if r is None:
                if G.const and G.init is not None:
                    r = Region(name, "const", G.ty.size, G=G)
                else:
                    r = Region(name, "global", G.ty.size, G=G)
            self.regions[name] = r
        return r

    def table(self, name):
        """flat bytes (or non-integer items) of a constant global: {offset: (size, operand)}"""
        if name in self.tabcache:
            return self.tabcache[name]
        G = self.mod.globals[name]
        out = {}
        def walk(o, t, off):
            if o[0] in ("z",):
                if t.k == "i":
                    out[off] = (t.store, ("c", 0, t))
                elif t.k == "a":
                    for i in range(t.n):
                        walk(("z", t.e), t.e, off + i * t.e.size)
                elif t.k == "s":
                    for i, e in enumerate(t.els):
                        walk(("z", e), e, off + t.offs[i])
                elif t.k == "v":
                    for i in range(t.n):
                        walk(("z", t.e), t.e, off + i * t.e.size)
                else:
                    out[off] = (t.size, ("null", t))
            elif o[0] == "cv":
                for i, e in enumerate(o[1]):
                    if t.k in "av":
                        walk(e, t.e, off + i * t.e.size)
                    else:
                        walk(e, t.els[i], off + t.offs[i])
            else:
                out[off] = (t.store, o)
        walk(G.init, G.ty, 0)
        self.tabcache[name] = out
        return out

    def tabbytes(self, name):
        """bytes of an integer-only constant global, or None"""
        k = ("bytes", name)
        if k not in self.tabcache:
            t = self.table(name)
            size = self.mod.globals[name].ty.size
            b = [0] * size
            ok = True
            for off, (n, o) in t.items():
                if o[0] != "c":
                    ok = o[0] == "u"
                    if not ok:
                        break
                    continue
                x = o[1].to_bytes(n, "little" if self.mod.little else "big")
                b[off:off + n] = x
            self.tabcache[k] = bytes(b) if ok else None
        return self.tabcache[k]

    # ---------- memory ----------------------------------------------------
    def load(self, st, p, ty, ins):
        if not isinstance(p, Ptr):
            self.ob("mem", False, ins, "load through an unknown pointer")
            return self.havoc(st, ty, ins)
        if p.reg == NULLREG or p.reg.startswith("fn:"):
            self.ob("mem", False, ins, "load through a null or function pointer")
            return self.havoc(st, ty, ins)
        r = self.regions.get(p.reg) or self.gregion(p.reg)
        off = st.poly.norm(p.off)
        n = ty.store
        k = r.kind
        if k == "const":
            return self.load_table(st, r, off, ty, ins)
        if k == "content":
            return self.spec.load(self, st, r, off, n, ty, ins)
        if k == "cells" or k == "global":
            self.spec.on_cell_load(self, st, r, off, n, ins)
            if off.t:
                return self.spec.load_symbolic(self, st, r, off, ty, ins)
            return self.load_cells(st, r, off.c, ty, ins)
        return self.spec.load(self, st, r, off, n, ty, ins)

    def havoc(self, st, ty, ins, tag="h"):
        if ty.k in "iv" or ty.k == "f":
            return self.unknown_bits((ins.name, tag), ty.w)
        if ty.k == "s":
            return Agg([self.havoc(st, e, ins, tag + str(i)) for i, e in enumerate(ty.els)])
        if ty.k == "a":
            return Agg([self.havoc(st, ty.e, ins, tag + str(i)) for i in range(ty.n)])
        return UNK

    def from_bytes(self, bs, ty):
        """list of bytes (tuples of 8 nodes) in memory order -> value"""
        if ty.k == "v":
            es = ty.e.store
            b = ()
            for i in range(ty.n):
                x = bs[i * es:(i + 1) * es]
                if not self.mod.little:
                    x = x[::-1]
                b += sum(x, ())[:ty.e.w]
            return Bits(b)
        if not self.mod.little:
            bs = bs[::-1]
        b = sum(bs, ())
        return Bits(b[:ty.w])

    def to_bytes(self, st, v, ty, ins):
        b = self.tobits(st, v, ins, "sb").b
        n = ty.store
        if ty.k == "v":
            es = ty.e.store; w = ty.e.w
            out = []
            for i in range(ty.n):
                x = b[i * w:(i + 1) * w]
                x = x + (0,) * (es * 8 - w)
                x = [x[j * 8:j * 8 + 8] for j in range(es)]
                out += x if self.mod.little else x[::-1]
            return out
        b = b + (0,) * (n * 8 - len(b))
        x = [b[j * 8:j * 8 + 8] for j in range(n)]
        return x if self.mod.little else x[::-1]

    def load_table(self, st, r, off, ty, ins):
        n = ty.store
        inb = st.poly.ent_ge(off) and st.poly.ent_ge(r.size - n - off)
        self.ob("read", inb, ins, "read of constant table %s within its bounds" % r.name,
                lambda: "offset %r, %d bytes, table has %d; %s" % (off, n, r.size, self.describe(st)))
        if not inb:
            return self.havoc(st, ty, ins)
        tb = self.tabbytes(r.name)
        if not off.t:
            if tb is not None and ty.k in "iv":
                bs = [bdd.const(x, 8) for x in tb[off.c:off.c + n]]
                v = self.from_bytes(bs, ty)
                return Num(bdd.value(v.b), ty.w) if ty.k == "i" else v
            t = self.table(r.name).get(off.c)
            if t and t[0] == n:
                return self.val(st, t[1], ins)
            return self.havoc(st, ty, ins)
        # index = content-derived symbol?
        ib = self.index_bits(st, off)
        if ib is None or tb is None or ty.k not in "iv":
            return self.havoc(st, ty, ins)
        bits, scale, base = ib
        ne = min(1 << len(bits), (r.size - n - base) // scale + 1)
        ent = []
        key = ("mux", r.name, base, scale, ne, n)
        e = self.tabcache.get(key)
        if e is None:
            for i in range(ne):
                for x in tb[base + i * scale: base + i * scale + n]:
                    ent += bdd.const(x, 8)
            e = bdd.arr(ent)
            self.tabcache[key] = e
        o = bdd.mux(e, n * 8, bits)
        bs = [o[i * 8:i * 8 + 8] for i in range(n)]
        return self.from_bytes(bs, ty)

    def index_bits(self, st, off):
        """off = scale * (content value) + base ?"""
        if len(off.t) != 1:
            return None
        (s, k), = off.t.items()
        for key, v in st.divs.items():
            if key[0] == "bn" and isinstance(v, Lin) and v.t == {s: 1} and v.c == 0:
                if isinstance(k, int) and k > 0 and isinstance(off.c, int) and off.c >= 0:
                    b = key[1:]
                    while b and b[-1] == 0:
                        b = b[:-1]
                    return b, k, off.c
        return None

    def load_cells(self, st, r, off, ty, ins):
        n = ty.store
        size = r.size
        if size is not None:
            ok = 0 <= off and off + n <= size
            self.ob("cell", ok, ins, "access inside object %s" % r.name, "offset %d size %d" % (off, n))
            if not ok:
                return self.havoc(st, ty, ins)
        c = st.mem.get((r.name, off))
        if c is not None and c[0] == n:
            v = c[1]
            if ty.k == "p":
                if isinstance(v, Ptr):
                    return v
                if isinstance(v, (Num, Bits)) and self.isconst(v) and self.cval(v) == 0:
                    return Ptr(NULLREG, 0)
                return UNK
            if ty.k in "iv":
                if isinstance(v, Num):
                    return v if ty.k == "i" and v.w == ty.w else (Bits(self.tobits(st, v, ins).b) if v.w == ty.w else Num(v.l, ty.w) if ty.w < v.w else v)
                if isinstance(v, Bits):
                    if len(v.b) >= ty.w:
                        return Bits(v.b[:ty.w])
                    return v
                if isinstance(v, Cnd):
                    return v
            if isinstance(v, Agg):
                return v
            return self.havoc(st, ty, ins)
        if ty.k in ("s",) and ty.els:
            return Agg([self.load_cells(st, r, off + o, e, ins) for o, e in zip(ty.offs, ty.els)])
        if ty.k == "a":
            return Agg([self.load_cells(st, r, off + i * ty.e.size, ty.e, ins) for i in range(ty.n)])
        if ty.k not in "iv":
            return self.spec.load_unset(self, st, r, off, ty, ins)
        # assemble bytes
        bs = []
        found = False
        for i in range(n):
            b = self.cell_byte(st, r, off + i, ins)
            if b is None:
                b = CTX.bits(("U", "cell", r.name, off + i, ins.name))
            else:
                found = True
            bs.append(b)
        if not found:
            return self.spec.load_unset(self, st, r, off, ty, ins)
        v = self.from_bytes(bs, ty)
        return v

    def cell_byte(self, st, r, off, ins):
        for o in range(off, off - 65, -1):
            c = st.mem.get((r.name, o))
            if c is not None and o + c[0] > off:
                if isinstance(c[1], (Num, Bits)):
                    n = c[0]
                    b = self.tobits(st, c[1], ins, "cb%d" % o).b
                    b = b + (0,) * (n * 8 - len(b))
                    k = off - o if self.mod.little else n - 1 - (off - o)
                    return b[k * 8:k * 8 + 8]
                return None
        return None

    def store(self, st, p, v, ty, ins):
        if not isinstance(p, Ptr):
            self.ob("mem", False, ins, "store through an unknown pointer")
            return
        if p.reg == NULLREG or p.reg.startswith("fn:"):
            self.ob("mem", False, ins, "store through a null or function pointer")
            return
        r = self.regions.get(p.reg) or self.gregion(p.reg)
        off = st.poly.norm(p.off)
        if r.kind in ("const", "content"):
            self.ob("write", False, ins, "write to read-only memory %s" % r.name)
            return
        if r.kind in ("cells", "global"):
            self.spec.on_cell_store(self, st, r, off, ty.store, v, ins)
            if off.t:
                return self.spec.store_symbolic(self, st, r, off, v, ty, ins)
            return self.store_cells(st, r, off.c, v, ty, ins)
        return self.spec.store(self, st, r, off, v, ty, ins)

    def kill_cells(self, st, r, off, n, ins):
        for o in range(off - 64, off + n):
            c = st.mem.get((r.name, o))
            if c is None or o + c[0] <= off:
                continue
            # partially overlapped cells are split into bytes
            if (o < off or o + c[0] > off + n) and isinstance(c[1], (Num, Bits)):
                b = self.tobits(st, c[1], ins, "kc%d" % o).b
                b = b + (0,) * (c[0] * 8 - len(b))
                for i in range(c[0]):
                    if not off <= o + i < off + n:
                        k = i if self.mod.little else c[0] - 1 - i
                        st.mem[(r.name, o + i)] = (1, Bits(b[k * 8:k * 8 + 8]))
                if off <= o:
                    del st.mem[(r.name, o)]
                elif c[0] > 1 and st.mem[(r.name, o)][0] != 1:
                    del st.mem[(r.name, o)]
            else:
                del st.mem[(r.name, o)]

    def store_cells(self, st, r, off, v, ty, ins):
        n = ty.store
        if r.size is not None:
            ok = 0 <= off and off + n <= r.size
            self.ob("cell", ok, ins, "write inside object %s" % r.name, "offset %d size %d of %s" % (off, n, r.size))
            if not ok:
                return
        if isinstance(v, Agg) and ty.k in "sa":
            for i, x in enumerate(v.v):
                o, t = (ty.offs[i], ty.els[i]) if ty.k == "s" else (i * ty.e.size, ty.e)
                self.store_cells(st, r, off + o, x, t, ins)
            return
        self.kill_cells(st, r, off, n, ins)
        st.mem[(r.name, off)] = (n, v)

    # ---------- describe --------------------------------------------------
    def describe(self, st):
        return "state: %r ghosts: %s" % (st.poly, {k: v for k, v in st.g.items() if not callable(v)})

    # ---------- instruction semantics --------------------------------------
    def exec(self, st, ins):
        """returns list of successor states (usually [st])"""
        m = getattr(self, "i_" + ins.op, None)
        if m is None:
            raise Unsupported("instruction %s at %s" % (ins.op, ins.loc()))
        r = m(st, ins)
        return [st] if r is None else r

    def set(self, st, ins, v):
        st.vals[ins.name] = v

    def i_binary(self, st, ins):
        ty = ins.ty
        a = self.val(st, ins.ops[0], ins); b = self.val(st, ins.ops[1], ins)
        op = ins.op
        if ty.k == "v":
            return self.set(st, ins, self.vecbin(st, op, ty.e.w, a, b, ins))
        if ty.k == "f":
            return self.set(st, ins, UNK)
        w = ty.w
        if w == 1:
            ca, cb = self.cond(a), self.cond(b)
            if op == "and":
                c = cand(ca, cb)
            elif op == "or":
                c = cor(ca, cb)
            elif op in ("xor", "add", "sub"):
                if ca[0] == "b" and cb[0] == "b":
                    c = ("b", bdd.xor(ca[1], cb[1]))
                elif cb == TRUE:
                    c = cnot(ca)
                elif ca == TRUE:
                    c = cnot(cb)
                else:
                    c = cor(cand(ca, cnot(cb)), cand(cnot(ca), cb))
            else:
                raise Unsupported("i1 " + op)
            return self.set(st, ins, self.mkcond(c))
        # a condition fed into arithmetic is split before (zext does that)
        if isinstance(a, Unk) or isinstance(b, Unk) or isinstance(a, Ptr) or isinstance(b, Ptr):
            if op == "sub" and isinstance(a, Ptr) and isinstance(b, Ptr) and a.reg == b.reg:
                return self.set(st, ins, Num(a.off - b.off, w))
            if op == "add" and isinstance(a, Ptr) and isinstance(b, (Num, Bits)):
                return self.set(st, ins, Ptr(a.reg, a.off + self.soff(st, self.tonum(st, b, ins), ins)))
            return self.set(st, ins, self.havoc(st, ty, ins))
        a = self.simp(st, a); b = self.simp(st, b)
        if isinstance(a, Bits) and bdd.is_const(a.b):
            a = Num(bdd.value(a.b), w)
        if isinstance(b, Bits) and bdd.is_const(b.b):
            b = Num(bdd.value(b.b), w)
        if isinstance(a, Num) and isinstance(b, Num):
            return self.set(st, ins, self.numbin(st, op, a, b, w, ins))
        # at least one content operand
        an = isinstance(a, Num) and a.l.t
        bn = isinstance(b, Num) and b.l.t
        if an or bn:
            if op in ("add", "sub", "mul", "udiv", "urem", "shl", "lshr"):
                return self.set(st, ins, self.numbin(st, op, self.tonum(st, a, ins, "na"), self.tonum(st, b, ins, "nb"), w, ins))
            if op == "or" and isinstance(a, Num) and self.lowzero(st, a, b):
                return self.set(st, ins, self.numbin(st, "add", a, self.tonum(st, b, ins, "nb"), w, ins))
        if op in ("udiv", "urem", "sdiv", "srem") and isinstance(b, Num):
            d = b.l.c
            if d > 0 and d & (d - 1) == 0 and op in ("udiv", "urem"):
                k = d.bit_length() - 1
                bb = a.b
                return self.set(st, ins, Bits(bb[k:] + (0,) * k if op == "udiv" else bb[:k] + (0,) * (w - k)))
            if op in ("udiv", "urem"):
                return self.set(st, ins, self.numbin(st, op, self.tonum(st, a, ins, "na"), b, w, ins))
        x = self.tobits(st, a, ins, "x"); y = self.tobits(st, b, ins, "y")
        self.set(st, ins, self.vecbin(st, op, w, x, y, ins))

    i_add = i_sub = i_mul = i_udiv = i_urem = i_sdiv = i_srem = i_and = i_or = i_xor = i_shl = i_lshr = i_ashr = i_binary
    i_fadd = i_fsub = i_fmul = i_fdiv = i_binary

    def lowzero(self, st, a, b):
        """bits of content b fit below the known zero low bits of number a"""
        l = st.poly.norm(a.l)
        top = len(b.b)
        while top and b.b[top - 1] == 0:
            top -= 1
        m = 1 << top
        return all(isinstance(k, int) and k % m == 0 for k in l.t.values()) and isinstance(l.c, int) and l.c % m == 0

    def vecbin(self, st, op, w, a, b, ins):
        x = self.tobits(st, a, ins, "x").b; y = self.tobits(st, b, ins, "y").b
        if op in ("add", "sub", "mul", "and", "or", "xor"):
            if op == "mul" and not bdd.is_const(y) and bdd.is_const(x):
                x, y = y, x
            return Bits(bdd.op(op.upper(), w, x, y))
        n = len(x) // w
        if op in ("shl", "lshr", "ashr"):
            out = ()
            for i in range(n):
                e = x[i * w:(i + 1) * w]; s = y[i * w:(i + 1) * w]
                out += self.shift(op, e, s, w)
            return Bits(out)
        return self.unknown_bits((ins.name, op), len(x))

    def shift(self, op, e, s, w):
        def sh(e, k):
            if k >= w:
                return (e[w - 1],) * w if op == "ashr" else (0,) * w
            if op == "shl":
                return (0,) * k + e[:w - k]
            return e[k:] + ((e[w - 1],) * k if op == "ashr" else (0,) * k)
        if bdd.is_const(s):
            return sh(e, bdd.value(s))
        r = e
        for j in range(len(s)):
            if s[j] == 0:
                continue
            k = 1 << j
            r = bdd.vite(w, (s[j],), sh(r, k), r)
        return r

    def numbin(self, st, op, a, b, w, ins):
        al, bl = st.poly.norm(a.l), st.poly.norm(b.l)
        if op == "add":
            return Num(al + (bl if bl.t else self.scoef(bl.c, w)) if al.t else bl + self.scoef(al.c, w), w)
        if op == "sub":
            return Num(al - (bl if bl.t else self.scoef(bl.c, w)), w)
        if op == "mul":
            if not bl.t:
                return Num(al * self.scoef(bl.c, w), w)
            if not al.t:
                return Num(bl * self.scoef(al.c, w), w)
            return self.spec.nonlinear(self, st, al, bl, w, ins)
        if not al.t and not bl.t:
            M = 1 << w
            x, y = al.c % M, bl.c % M
            sx = x - M if x >> (w - 1) else x
            sy = y - M if y >> (w - 1) else y
            if op == "and": return Num(x & y, w)
            if op == "or": return Num(x | y, w)
            if op == "xor": return Num(x ^ y, w)
            if op == "shl": return Num((x << y) % M if y < w else 0, w)
            if op == "lshr": return Num(x >> y if y < w else 0, w)
            if op == "ashr": return Num((sx >> min(y, w - 1)) % M, w)
            if op == "udiv" and y: return Num(x // y, w)
            if op == "urem" and y: return Num(x % y, w)
            if op == "sdiv" and y: return Num(int(Fr(abs(sx), abs(sy)).__floor__()) * (1 if (sx < 0) == (sy < 0) else -1), w)
            if op == "srem" and y:
                qq = (abs(sx) // abs(sy)) * (1 if (sx < 0) == (sy < 0) else -1)
                return Num(sx - qq * sy, w)
        if not bl.t:
            y = bl.c % (1 << w)
            if op == "shl" and y < w:
                return Num(al * (1 << y), w)
            if op in ("udiv", "urem") and y > 0:
                qv, rv = self.divmod(st, a, y, ins)
                return Num(qv if op == "udiv" else rv, w)
            if op == "lshr" and y < w:
                return Num(self.divmod(st, a, 1 << y, ins)[0], w)
            if op == "ashr" and y < w:
                return Num(self.divmod(st, a, 1 << y, ins, signed=True)[0], w)
            if op in ("sdiv", "srem") and 0 < y < 1 << (w - 1):
                c = self.canon(st, a, ins, signed=True)
                if st.poly.ent_ge(c):
                    qv, rv = self.divmod(st, Num(c, w), y, ins)
                    return Num(qv if op == "sdiv" else rv, w)
            if op == "and":
                if y == 0:
                    return Num(0, w)
                k = (y + 1).bit_length() - 1
                if y & (y + 1) == 0:
                    return Num(self.divmod(st, a, y + 1, ins)[1], w)
                low = y & -y
                if y == (1 << w) - low:           # mask of high bits
                    r = self.divmod(st, a, low, ins)[1]
                    return Num(al - r, w)
                if y & (y - 1) == 0:               # a single bit
                    q1, r1 = self.divmod(st, a, y, ins)
                    q2, r2 = self.divmod(st, Num(q1, w), 2, ins)
                    return Num(r2 * y, w)
                s = self.fresh(st, ins.name + ".and", 0, y)
                return Num(s, w)
            if op == "xor" and y == (1 << w) - 1:
                return Num(-al - 1, w)
            if op == "or":
                top = y.bit_length()
                if all(isinstance(k, int) and k % (1 << top) == 0 for k in al.t.values()) and al.c % (1 << top) == 0:
                    return Num(al + y, w)
        elif not al.t and op in ("and", "or", "xor"):
            return self.numbin(st, op, b, a, w, ins)
        r = self.spec.numbin(self, st, op, a, b, w, ins)
        if r is not None:
            return r
        return Num(self.fresh(st, "%s.%s" % (ins.name, op), 0, (1 << w) - 1), w)

    def scoef(self, c, w):
        c %= 1 << w
        return c - (1 << w) if c >> (w - 1) else c

    def divmod(self, st, a, d, ins, signed=False):
        c = self.canon(st, a, ins, signed)
        c = st.poly.norm(c)
        if not c.t:
            return const(c.c // d), const(c.c % d)
        if d == 1:
            return c, const(0)
        # exact division of every coefficient
        if all(isinstance(k, int) and k % d == 0 for k in c.t.values()) and isinstance(c.c, int):
            r = c.c % d
            return (c - r) * Fr(1, d), const(r)
        key = ("div", c.key(), d)
        v = st.divs.get(key)
        if v is None:
            qs = self.fresh(st, "%s.q%d" % (ins.name, d))
            rs = c - qs * d
            mn, mx = st.poly.vmin(c), st.poly.vmax(c)
            if st.poly.bad:
                return const(0), const(0)
            st.poly.add_ge(rs); st.poly.add_ge(d - 1 - rs)
            if mn > -INF:
                st.poly.add_ge(qs - mn // d)
            if mx < INF:
                st.poly.add_ge(const(mx // d) - qs)
            v = (qs, rs)
            st.divs[key] = v
        return v

    def i_icmp(self, st, ins):
        a = self.val(st, ins.ops[0], ins); b = self.val(st, ins.ops[1], ins)
        p = ins.a["pred"]; ty = ins.a["oty"]
        self.set(st, ins, self.icmp(st, p, a, b, ty, ins))

    def icmp(self, st, p, a, b, ty, ins):
        if ty.k == "v":
            w = ty.e.w
            x = self.tobits(st, a, ins, "x").b; y = self.tobits(st, b, ins, "y").b
            return Bits(self.vcmp(p, w, x, y))
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.reg == b.reg:
                return self.mkcond(self.lincmp(p, st.poly.norm(a.off), st.poly.norm(b.off)))
            if NULLREG in (a.reg, b.reg) or a.reg.startswith("fn:") or b.reg.startswith("fn:"):
                if p == "eq":
                    return Bits((0,))
                if p == "ne":
                    return Bits((1,))
            r = self.spec.ptrcmp(self, st, p, a, b, ins)
            if r is not None:
                return r
            return self.unknown_bits((ins.name, "pc"), 1)
        if isinstance(a, (Unk, Ptr)) or isinstance(b, (Unk, Ptr)):
            r = self.spec.ptrcmp(self, st, p, a, b, ins)
            if r is not None:
                return r
            return self.unknown_bits((ins.name, "pc"), 1)
        if ty.w == 1:
            ca, cb = self.cond(a), self.cond(b)
            x = cor(cand(ca, cnot(cb)), cand(cnot(ca), cb))
            if p == "eq":
                return self.mkcond(cnot(x))
            if p == "ne":
                return self.mkcond(x)
            raise Unsupported("i1 icmp")
        a = self.simp(st, a); b = self.simp(st, b)
        na = isinstance(a, Num) and a.l.t; nb = isinstance(b, Num) and b.l.t
        if (isinstance(a, Num) and isinstance(b, Num)) or na or nb:
            a = self.tonum(st, a, ins, "ca"); b = self.tonum(st, b, ins, "cb")
            if p in ("eq", "ne"):
                d = st.poly.norm(a.l - b.l)
                M = 1 << a.w
                if not d.t:
                    r = (d.c % M == 0) == (p == "eq")
                    return Bits((1 if r else 0,))
                mn, mx = st.poly.vmin(d), st.poly.vmax(d)
                if mn > -M and mx < M:
                    c = ("eq", d)
                else:
                    x = self.canon(st, a, ins); y = self.canon(st, b, ins)
                    c = ("eq", x - y)
                return self.mkcond(self.decide(st, c if p == "eq" else cnot(c)))
            sg = p[0] == "s"
            x = self.canon(st, a, ins, sg); y = self.canon(st, b, ins, sg)
            return self.mkcond(self.decide(st, self.lincmp(p, x, y)))
        w = ty.w
        x = self.tobits(st, a, ins, "x").b; y = self.tobits(st, b, ins, "y").b
        n = self.vcmp(p, w, x, y)
        return Bits(n)

    def lincmp(self, p, x, y):
        p = p.lstrip("us") if p not in ("eq", "ne") else p
        if p == "eq":
            return ("eq", x - y)
        if p == "ne":
            return cnot(("eq", x - y))
        if p == "gt":
            return ("ge", x - y - 1)
        if p == "ge":
            return ("ge", x - y)
        if p == "lt":
            return ("ge", y - x - 1)
        if p == "le":
            return ("ge", y - x)

    def decide(self, st, c):
        if c[0] == "ge":
            l = st.poly.norm(c[1])
            if not l.t:
                return TRUE if l.c >= 0 else FALSE
        if c[0] == "eq":
            l = st.poly.norm(c[1])
            if not l.t:
                return TRUE if l.c == 0 else FALSE
        if c[0] == "not":
            return cnot(self.decide(st, c[1]))
        return c

    def vcmp(self, p, w, x, y):
        if p == "eq":
            return bdd.op("EQ", w, x, y)
        if p == "ne":
            return bdd.vnot(bdd.op("EQ", w, x, y))
        if p == "ult":
            return bdd.op("ULT", w, x, y)
        if p == "ugt":
            return bdd.op("ULT", w, y, x)
        if p == "ule":
            return bdd.vnot(bdd.op("ULT", w, y, x))
        if p == "uge":
            return bdd.vnot(bdd.op("ULT", w, x, y))
        if p == "slt":
            return bdd.op("SLT", w, x, y)
        if p == "sgt":
            return bdd.op("SLT", w, y, x)
        if p == "sle":
            return bdd.vnot(bdd.op("SLT", w, y, x))
        if p == "sge":
            return bdd.vnot(bdd.op("SLT", w, x, y))

    def fork_const(self, st, v, ins, setter):
        """value v is a condition: fork on it and let setter store 0/1"""
        t, f = self.split(st, v.c)
        for s in t:
            setter(s, 1)
        for s in f:
            setter(s, 0)
        return t + f

    def i_zext(self, st, ins):
        v = self.val(st, ins.ops[0], ins); w = ins.ty.w
        if isinstance(v, Cnd):
            return self.fork_const(st, v, ins, lambda s, x: self.set(s, ins, Num(x, w)))
        if ins.ty.k == "v":
            ew = ins.ty.e.w; ow = ins.a["oty"].e.w
            b = ()
            for i in range(ins.ty.n):
                b += v.b[i * ow:(i + 1) * ow] + (0,) * (ew - ow)
            return self.set(st, ins, Bits(b))
        if isinstance(v, Bits):
            return self.set(st, ins, Bits(v.b + (0,) * (w - len(v.b))))
        if isinstance(v, Num):
            return self.set(st, ins, Num(self.canon(st, v, ins), w))
        self.set(st, ins, self.havoc(st, ins.ty, ins))

    def i_sext(self, st, ins):
        v = self.val(st, ins.ops[0], ins); w = ins.ty.w
        if isinstance(v, Cnd):
            return self.fork_const(st, v, ins, lambda s, x: self.set(s, ins, Num(((1 << w) - 1) if x else 0, w)))
        if ins.ty.k == "v":
            ew = ins.ty.e.w; ow = ins.a["oty"].e.w
            b = ()
            for i in range(ins.ty.n):
                e = v.b[i * ow:(i + 1) * ow]
                b += e + (e[-1],) * (ew - ow)
            return self.set(st, ins, Bits(b))
        if isinstance(v, Bits):
            return self.set(st, ins, Bits(v.b + (v.b[-1],) * (w - len(v.b))))
        if isinstance(v, Num):
            return self.set(st, ins, Num(self.canon(st, v, ins, signed=True), w))
        self.set(st, ins, self.havoc(st, ins.ty, ins))

    def i_trunc(self, st, ins):
        v = self.val(st, ins.ops[0], ins); w = ins.ty.w
        if ins.ty.k == "v":
            ew = ins.ty.e.w; ow = ins.a["oty"].e.w
            b = ()
            for i in range(ins.ty.n):
                b += v.b[i * ow:i * ow + ew]
            return self.set(st, ins, Bits(b))
        if isinstance(v, Bits):
            return self.set(st, ins, Bits(v.b[:w]))
        if isinstance(v, Num):
            v = self.simp(st, v)
            if w == 1:
                if not v.l.t:
                    return self.set(st, ins, Bits((v.l.c & 1,)))
                r = self.divmod(st, v, 2, ins)[1]
                return self.set(st, ins, self.mkcond(self.decide(st, ("ge", r - 1))))
            return self.set(st, ins, Num(v.l, w))
        self.set(st, ins, self.havoc(st, ins.ty, ins))

    def i_bitcast(self, st, ins):
        v = self.val(st, ins.ops[0], ins)
        if isinstance(v, Ptr) or isinstance(v, Unk):
            return self.set(st, ins, v)
        if ins.ty.k == "i" and isinstance(v, Num):
            return self.set(st, ins, v)
        b = self.tobits(st, v, ins)
        ot = ins.a["oty"]
        if not self.mod.little and (ot.k == "v" or ins.ty.k == "v"):
            ow = ot.e.w if ot.k == "v" else ot.w
            nw = ins.ty.e.w if ins.ty.k == "v" else ins.ty.w
            if ow != nw:
                raise Unsupported("big-endian vector bitcast")
        self.set(st, ins, b)

    def i_freeze(self, st, ins):
        self.set(st, ins, self.val(st, ins.ops[0], ins))

    def i_ptrtoint(self, st, ins):
        v = self.val(st, ins.ops[0], ins)
        if isinstance(v, Ptr) and v.reg == NULLREG:
            return self.set(st, ins, Num(v.off, ins.ty.w))
        self.set(st, ins, v)

    def i_inttoptr(self, st, ins):
        v = self.val(st, ins.ops[0], ins)
        if isinstance(v, Ptr):
            return self.set(st, ins, v)
        if isinstance(v, (Num, Bits)) and self.isconst(v) and self.cval(v) == 0:
            return self.set(st, ins, Ptr(NULLREG, 0))
        self.set(st, ins, UNK)

    def i_select(self, st, ins):
        c = self.val(st, ins.ops[0], ins)
        a = self.val(st, ins.ops[1], ins); b = self.val(st, ins.ops[2], ins)
        if isinstance(c, Bits) and len(c.b) > 1:
            x = self.tobits(st, a, ins).b; y = self.tobits(st, b, ins).b
            return self.set(st, ins, Bits(bdd.vite(len(x) // len(c.b), c.b, x, y)))
        cc = self.cond(c)
        if cc == TRUE:
            return self.set(st, ins, a)
        if cc == FALSE:
            return self.set(st, ins, b)
        if ins.ty.w == 1 and ins.ty.k == "i":
            ca, cb = self.cond(a), self.cond(b)
            return self.set(st, ins, self.mkcond(cor(cand(cc, ca), cand(cnot(cc), cb))))
        if cc[0] == "b":
            def small(v):
                return isinstance(v, Bits) or (isinstance(v, Num) and not self.simp(st, v).l.t)
            if small(a) and small(b) and not (isinstance(a, Num) and isinstance(b, Num) and self.spec.fork_selects):
                x = self.tobits(st, a, ins).b; y = self.tobits(st, b, ins).b
                return self.set(st, ins, Bits(bdd.vite(len(x), (cc[1],), x, y)))
        t, f = self.split(st, cc)
        for s in t:
            self.set(s, ins, a)
        for s in f:
            self.set(s, ins, b)
        return t + f

    def i_extractelement(self, st, ins):
        v = self.val(st, ins.ops[0], ins); i = self.val(st, ins.ops[1], ins)
        w = ins.ty.w
        if not self.isconst(i):
            raise Unsupported("variable extractelement")
        k = self.cval(i)
        self.set(st, ins, Bits(v.b[k * w:(k + 1) * w]))

    def i_insertelement(self, st, ins):
        v = self.val(st, ins.ops[0], ins); x = self.val(st, ins.ops[1], ins); i = self.val(st, ins.ops[2], ins)
        if not self.isconst(i):
            raise Unsupported("variable insertelement")
        w = ins.ty.e.w; k = self.cval(i)
        v = self.tobits(st, v, ins).b
        self.set(st, ins, Bits(v[:k * w] + self.tobits(st, x, ins, "ie").b + v[(k + 1) * w:]))

    def i_shufflevector(self, st, ins):
        a = self.tobits(st, self.val(st, ins.ops[0], ins), ins).b; b = self.tobits(st, self.val(st, ins.ops[1], ins), ins).b
        w = ins.ty.e.w; n = len(a) // w
        out = ()
        ab = a + b
        for m in ins.a["mask"]:
            out += ab[m * w:(m + 1) * w] if m >= 0 else (0,) * w
        self.set(st, ins, Bits(out))

    def i_extractvalue(self, st, ins):
        v = self.val(st, ins.ops[0], ins)
        for i in ins.a["idx"]:
            v = v.v[i] if isinstance(v, Agg) else UNK
        if isinstance(v, Unk) and ins.ty.k in "iv":
            v = self.havoc(st, ins.ty, ins)
        self.set(st, ins, v)

    def i_insertvalue(self, st, ins):
        v = self.val(st, ins.ops[0], ins); x = self.val(st, ins.ops[1], ins)
        def put(v, idx):
            if not idx:
                return x
            n = Agg(v.v); n.v[idx[0]] = put(n.v[idx[0]], idx[1:]); return n
        self.set(st, ins, put(v, ins.a["idx"]))

    def i_alloca(self, st, ins):
        n = self.val(st, ins.ops[0], ins) if ins.ops else Num(1, 32)
        name = "alloca:" + ins.name
        size = ins.a["ty"].size * (self.cval(n) if self.isconst(n) else 0)
        r = self.regions.get(name)
        if r is None:
            r = self.spec.alloca_region(self, name, size, ins)
            self.regions[name] = r
        for k in [k for k in st.mem if k[0] == name]:
            del st.mem[k]
        self.spec.on_alloca(self, st, r)
        self.set(st, ins, Ptr(name, 0))

    def soff(self, st, v, ins):
        return self.canon(st, v, ins, signed=True) if v.l.t else const(self.scoef(v.l.c, v.w))

    def i_getelementptr(self, st, ins):
        p = self.val(st, ins.ops[0], ins)
        t = ins.a["ty"]
        off = const(0)
        first = True
        for o in ins.ops[1:]:
            v = self.val(st, o, ins)
            if isinstance(v, Unk) or isinstance(v, Ptr):
                self.set(st, ins, UNK); return
            if first:
                sz = t.size; first = False
            elif t.k in ("a", "v"):
                sz = t.e.size; t = t.e
            else:
                k = self.cval(v)
                off = off + t.offs[k]; t = t.els[k]
                continue
            n = self.tonum(st, v, ins, "gi")
            if not n.l.t:
                off = off + self.scoef(n.l.c, n.w) * sz
            elif n.w == self.W:
                # index arithmetic is modulo the address width: use a representative that fits
                l = st.poly.norm(n.l)
                off = off + self.gepidx(st, l, n.w, ins) * sz
            else:
                off = off + self.canon(st, n, ins, signed=True) * sz
        if isinstance(p, Ptr):
            self.set(st, ins, Ptr(p.reg, p.off + off))
        else:
            self.set(st, ins, UNK)

    def gepidx(self, st, l, w, ins):
        mn, mx = st.poly.vmin(l), st.poly.vmax(l)
        if mn >= -(1 << (w - 1)) and mx < (1 << (w - 1)):
            return l
        return self.canon(st, Num(l, w), ins, signed=True)

    def i_load(self, st, ins):
        p = self.val(st, ins.ops[0], ins)
        r = self.load(st, p, ins.ty, ins)
        if isinstance(r, list):
            return r
        self.set(st, ins, r)

    def i_store(self, st, ins):
        v = self.val(st, ins.ops[0], ins); p = self.val(st, ins.ops[1], ins)
        if isinstance(v, Cnd):
            t, f = self.split(st, v.c)
            out = []
            for x, ss in ((1, t), (0, f)):
                for s in ss:
                    r = self.store(s, p, Num(x, 1), ins.a["oty"], ins)
                    out += r if isinstance(r, list) else [s]
            return out
        return self.store(st, p, v, ins.a["oty"], ins)

    def i_fence(self, st, ins):
        pass

    def i_call(self, st, ins):
        c = ins.a["callee"]
        from . import intr
        if c[0] == "f":
            nm = c[1]
            if nm.startswith("llvm."):
                return intr.call(self, st, nm, ins)
            return self.spec.call(self, st, nm, ins)
        if c[0] == "asm":
            return self.spec.asm_call(self, st, ins)
        return self.spec.call_indirect(self, st, self.val(st, c, ins), ins)

    def i_asm(self, st, ins):
        return ins.a["fn"](self, st, ins)

    # ---------- control ----------------------------------------------------
    def factors(self, F):
        """value -> the values a multiple of which it contains: kept with it, so that it stays known to be a multiple"""
        d = {i.name: i for B in F.blocks for i in B.ins}
        memo = {}

        def f(v):
            if v in memo:
                return memo[v]
            memo[v] = set()
            i = d.get(v)
            r = set()
            if i is not None and i.op in ("mul", "shl") and i.ops[0][0] == "v" and i.ops[1][0] == "c":
                r = {i.ops[0][1]}
            elif i is not None and i.op in ("getelementptr", "add", "sub", "zext", "sext"):
                r = set().union(*[f(o[1]) for o in i.ops if o[0] == "v"])
                if i.op == "getelementptr":
                    r |= {o[1] for o in i.ops[1:] if o[0] == "v"}
            memo[v] = r
            return r
        for v in d:
            f(v)
        return {v: r for v, r in memo.items() if r}

    def liveness(self, F):
        use = {}; dfn = {}
        phiuse = {}
        for B in F.blocks:
            u = set(); d = set()
            for i in B.ins:
                if i.op == "phi":
                    for o, fb in zip(i.ops, i.a["from"]):
                        if o[0] == "v":
                            phiuse.setdefault((fb.name, B.name), set()).add(o[1])
                    d.add(i.name)
                    continue
                def walk(o):
                    if o[0] == "v" and o[1] not in d:
                        u.add(o[1])
                    elif o[0] == "cv":
                        for e in o[1]:
                            walk(e)
                for o in i.ops:
                    walk(o)
                if i.op == "call" and i.a["callee"][0] == "v":
                    walk(i.a["callee"])
                for r in i.a.get("uses", ()):
                    if r not in d:
                        u.add(r)
                d.add(i.name)
                for r in i.a.get("defs", ()):
                    d.add(r)
            use[B.name] = u; dfn[B.name] = d
        live = {B.name: set() for B in F.blocks}
        phidef = {B.name: {i.name for i in B.ins if i.op == "phi"} for B in F.blocks}
        fac = self.factors(F) if self.counters else None
        ch = True
        while ch:
            ch = False
            for B in reversed(F.blocks):
                out = set()
                for s in B.succ:
                    out |= (live[s.name] - phidef[s.name]) | phiuse.get((B.name, s.name), set())
                n = use[B.name] | (out - dfn[B.name]) | phidef[B.name]
                for v in [v for v in n if v in fac and v not in phidef[B.name]] if fac else ():
                    n |= fac[v]
                if n != live[B.name]:
                    live[B.name] = n; ch = True
        return live

    def rpo(self, F):
        seen = set(); order = []
        stack = [(F.blocks[0], iter(F.blocks[0].succ))]
        seen.add(F.blocks[0].name)
        while stack:
            b, it = stack[-1]
            nxt = next(it, None)
            if nxt is None:
                order.append(b); stack.pop()
            elif nxt.name not in seen:
                seen.add(nxt.name)
                stack.append((nxt, iter(nxt.succ)))
        order.reverse()
        return order

    def run(self, F, init):
        """analyse function F from the initial states; returns list of (state, ret value, ins)"""
        self.F = F
        self.counters = getattr(self, "counters", False)
        self.live = self.liveness(F)
        order = self.rpo(F)
        self.pos = {b.name: i for i, b in enumerate(order)}
        preds = {b.name: set() for b in order}
        back = set()
        for b in order:
            for s in b.succ:
                preds[s.name].add(b.name)
                if self.pos[b.name] >= self.pos[s.name]:
                    back.add(s.name)
        self.isjoin = {b.name: len(preds[b.name]) > 1 or b.name in back for b in order}
        self.back = back
        self.loops = self.findloops(order)
        self.blocks = {b.name: b for b in order}
        self.instates = {}          # bname -> {key: State}
        self.outs = {}              # (bname,key) -> list of (target, State)
        self.cnt = {}
        self.black = {}
        self.harvest = {}
        self.exits = []
        entry = F.blocks[0]
        if self.isjoin[entry.name]:
            raise Unsupported("entry block is a loop head")
        self.outs[("init", 0)] = []
        # initial
        work = []
        self.inq = set()
        def push(bn):
            if bn not in self.inq:
                self.inq.add(bn); heapq.heappush(work, (self.pos[bn], bn))
        self.init_exits = {}
        outs = []
        self.exits_by = {}
        for k, st in enumerate(init):
            self.cur = ("init", k)
            self.exits_by[self.cur] = []
            outs += self.execute(entry, st.copy())
        self.outs[("init", 0)] = outs
        for t in sorted({t for t, _ in outs}):
            push(t)
        it = 0
        t0 = time.time()
        while work:
            _, bn = heapq.heappop(work)
            self.inq.discard(bn)
            it += 1
            if it > 6000 or time.time() - t0 > self.spec.time_limit:
                raise Unsupported("no fixpoint in %s (%s)" % (F.name, self.name))
            for t in self.update(bn, widen=True):
                push(t)
        self.stats["iters"] += it
        # narrowing
        for rnd in range(2):
            for b in order:
                if self.isjoin[b.name] and b.name in self.instates:
                    self.update(b.name, narrow=True)
        # final pass: reporting, with verification that the solution is inductive
        for rnd in range(12):
            self.reporting = True
            saved = (dict(self.rep.n), dict(self.rep.fail))
            self.exits_by = {}
            outs = []
            for k, st in enumerate(init):
                self.cur = ("init", k)
                self.exits_by[self.cur] = []
                outs += self.execute(entry, st.copy())
            self.outs[("init", 0)] = outs
            for b in order:
                if b.name in self.instates:
                    for key in list(self.instates[b.name]):
                        self.process(b.name, key)
            bad = []
            if self.debug:
                print("--- round", rnd)
            for b in order:
                if b.name in self.instates or any(t == b.name for o in self.outs.values() for t, _ in o):
                    if not self.check_inductive(b.name):
                        bad.append(b.name)
            self.reporting = False
            if not bad:
                break
            # narrowing (which is not monotone here) went below a fixpoint: go up again, with widening
            self.rep.n, self.rep.fail = saved
            for t in bad:
                push(t)
            while work:
                _, bn = heapq.heappop(work)
                self.inq.discard(bn)
                it += 1
                if it > 9000 or time.time() - t0 > self.spec.time_limit:
                    raise Unsupported("no fixpoint in %s (%s)" % (F.name, self.name))
                for t in self.update(bn, widen=True):
                    push(t)
        else:
            raise Unsupported("internal: solution not inductive in %s" % F.name)
        r = []
        for v in self.exits_by.values():
            r += v
        return r

    def process(self, bn, key):
        st = self.instates[bn][key].copy()
        self.cur = (bn, key)
        self.exits_by[self.cur] = []
        self.stats["blocks"] += 1
        self.outs[(bn, key)] = self.execute(self.blocks[bn], st)

    subset = None

    def execute_in(self, block, st, S):
        """execute, staying inside the blocks of S"""
        self.subset = S
        try:
            return self.execute(block, st)
        finally:
            self.subset = None

    def execute(self, block, st):
        """run from the start of block until joins or returns; returns [(target, state)]"""
        out = []
        stack = [(block, 0, st)]
        while stack:
            b, i, st = stack.pop()
            self.visited.add(b.name)
            n = len(b.ins)
            alive = True
            while i < n:
                ins = b.ins[i]
                op = ins.op
                if op == "phi":
                    i += 1
                    continue
                if op in ("br", "switch", "ret", "unreachable", "asmbr"):
                    self.terminator(b, ins, st, stack, out)
                    alive = False
                    break
                rs = self.exec(st, ins)
                i += 1
                rs = [s for s in rs if not s.bad]
                if not rs:
                    alive = False
                    break
                for s in rs[1:]:
                    stack.append((b, i, s))
                st = rs[0]
            if alive and i >= n:
                raise Unsupported("block without terminator")
        return out

    def terminator(self, b, ins, st, stack, out):
        def go(t, s):
            if self.subset is not None and t.name not in self.subset:
                return
            for s2 in self.edge(b, t, s):
                if self.isjoin[t.name]:
                    out.append((t.name, s2))
                else:
                    stack.append((t, 0, s2))
        op = ins.op
        if op == "br":
            if not ins.ops:
                return go(ins.a["succ"][0], st)
            v = self.val(st, ins.ops[0], ins)
            if isinstance(v, Unk):
                v = self.unknown_bits((ins.name, "br"), 1)
            t, f = self.split(st, self.cond(v))
            for s in t:
                go(ins.a["succ"][0], s)
            for s in f:
                go(ins.a["succ"][1], s)
        elif op == "asmbr":
            for t, s in ins.a["fn"](self, st, ins):
                go(t, s)
        elif op == "switch":
            v = self.val(st, ins.ops[0], ins)
            v = self.simp(st, v)
            rest = [st]
            from .llvmir import Ty
            for cval, t in ins.a["cases"]:
                nrest = []
                for s in rest:
                    c = self.cond(self.icmp(s, "eq", v, Num(cval, v.w), _ity(v.w), ins))
                    a, f = self.split(s, c)
                    for x in a:
                        go(t, x)
                    nrest += f
                rest = nrest
            for s in rest:
                go(ins.a["default"], s)
        elif op == "ret":
            v = self.val(st, ins.ops[0], ins) if ins.ops else None
            rs = [(st, v)]
            if isinstance(v, Cnd):
                t, f = self.split(st, v.c)
                rs = [(s, Num(1, 1)) for s in t] + [(s, Num(0, 1)) for s in f]
            for s, v in rs:
                self.exits_by[self.cur].append((s, v, ins))
        elif op == "unreachable":
            self.spec.unreachable(self, st, ins)

    def edge(self, b, t, st):
        """apply phi assignments for edge b->t; fork conditions into constants"""
        phis = [i for i in t.ins if i.op == "phi"]
        res = [st]
        if phis:
            new = []
            for i in phis:
                k = next(k for k, fb in enumerate(i.a["from"]) if fb is b)
                o = i.ops[k]
                v = self.val(st, o, i) if o[0] != "u" else self.undef(o[1], i)
                new.append((i.name, v))
            for n, v in new:
                st.vals[n] = v
        lv = self.live[t.name]
        for k in [k for k in st.vals if k not in lv]:
            del st.vals[k]
        if self.counters:
            # rounds made by the loops around: ghosts, 0 on the way in
            for h, body in self.loophead.items():
                g = ("#", h)
                if t.name not in body:
                    st.g.pop(g, None)
                elif t.name == h:
                    st.g[g] = st.g[g] + 1 if b.name in body and g in st.g else const(0)
        if self.isjoin[t.name]:
            for k in list(st.vals):
                nres = []
                for s in res:
                    v = s.vals.get(k)
                    if isinstance(v, Cnd):
                        tt, ff = self.split(s, v.c)
                        for x in tt:
                            x.vals[k] = Num(1, 1)
                        for x in ff:
                            x.vals[k] = Num(0, 1)
                        nres += tt + ff
                    else:
                        nres.append(s)
                res = nres
        return res

    # ---------- joins --------------------------------------------------------
    def slots(self, st):
        """all mergeable components: name -> value"""
        r = {}
        for k, v in st.vals.items():
            r[("v", k)] = v
        for k, (n, v) in st.mem.items():
            r[("m",) + k + (n,)] = v
        for k, v in st.g.items():
            if isinstance(v, Lin):
                r[("g", k)] = Num(v, 0)
        return r

    def partkey(self, bn, st):
        black = self.black.get(bn, ())
        ks = [self.spec.partkey(st)]
        cs = []
        for k, v in self.slots(st).items():
            if k in black:
                continue
            if isinstance(v, Ptr):
                cs.append((k, v.reg))
            elif isinstance(v, (Num, Bits)) and v.w and (v.w <= 32 and v.w != self.W or (isinstance(v, Num) and v.w == 32) or self.spec.choose_at_joins and v.w <= 64 and bn not in self.back):
                v = self.simp(st, v)
                if self.isconst(v):
                    cs.append((k, self.cval(v)))
            elif isinstance(v, (Num,)) and k in self.spec.key_slots:
                v = self.simp(st, v)
                if self.isconst(v):
                    cs.append((k, self.cval(v)))
        cs.sort(key=str)
        return (ks[0], tuple(cs))

    def reset_block(self, bn):
        for k in list(self.instates.get(bn, {})):
            self.outs.pop((bn, k), None)
            self.exits_by.pop((bn, k), None)
        self.instates[bn] = {}

    def update(self, bn, widen=False, narrow=False):
        """recompute the in-states of a join block; returns the join blocks to revisit"""
        edges = [s for o in list(self.outs.values()) for t, s in o if t == bn]
        black = self.black.setdefault(bn, set())
        n = len(black)
        for s in edges:
            for k, v in self.slots(s).items():
                if k not in black and isinstance(v, Num) and v.l.t and self.simp(s, v).l.t:
                    black.add(k)        # a quantity, not a finite-valued control variable
        if len(black) != n:
            self.reset_block(bn)
        while True:
            groups = {}
            for s in edges:
                groups.setdefault(self.partkey(bn, s), []).append(s)
            # too many partitions caused by one slot: give that slot up
            vals = {}
            for k in groups:
                for sl, c in k[1]:
                    if not isinstance(c, str):
                        vals.setdefault(sl, set()).add(c)
            big = [sl for sl, v in vals.items() if len(v) > (64 if self.spec.choose_at_joins else self.MAXPART)]
            hist = self.black.setdefault(("hist", bn), {})
            for sl, v in vals.items():
                hist.setdefault(sl, set()).update(v)
            big = [sl for sl, v in hist.items() if len(v) > (64 if self.spec.choose_at_joins else self.MAXPART) and sl not in self.black.get(bn, ())]
            if not big:
                break
            self.black.setdefault(bn, set()).update(big)
            self.reset_block(bn)
        cur = self.instates.setdefault(bn, {})
        dirty = set()
        for k in list(cur):
            if k not in groups:
                del cur[k]
                for t, _ in self.outs.pop((bn, k), ()):
                    dirty.add(t)
                self.exits_by.pop((bn, k), None)
        for k, sts in groups.items():
            old = cur.get(k)
            c = self.cnt.get((bn, k), 0)
            if narrow:
                new = self.joinstates(bn, sts, None)
                if old is not None and not self.leq(new, old):
                    continue
            else:
                if old is not None and self.included(bn, sts, old):
                    continue
                new = self.joinstates(bn, sts, None if self.spec.choose_at_joins and bn not in self.back and c < 8 else old, (k, c))
                if old is not None:
                    if widen and bn in self.back and c >= 3:
                        new = self.widenstates(bn, old, new, k)
            if new.bad:
                continue
            self.cnt[(bn, k)] = c + 1
            if c > 60:
                raise Unsupported("diverging at %s" % bn)
            cur[k] = new
            prev = {t for t, _ in self.outs.get((bn, k), ())}
            self.process(bn, k)
            dirty |= prev | {t for t, _ in self.outs[(bn, k)]}
        return dirty

    def trim(self, p):
        """drop bounds that only restate the size of the address space (the facts say that)"""
        if any(abs(g.c) > BIG for g in p.ge):
            p.ge = [g for g in p.ge if abs(g.c) <= BIG]
            p._mc = {}
        for g in self.facts:
            p.add_ge(g)

    def joinstates(self, bn, sts, old, key=None):
        self.stats["joins"] += 1
        alls = list(sts) + ([old] if old is not None else [])
        sl = [self.slots(s) for s in alls]
        names = set(sl[0])
        for x in sl[1:]:
            names &= set(x)
        out = State()
        bits = []
        syms = {}
        ghosts_const = {}
        for nm in sorted(names, key=str):
            vs = [x[nm] for x in sl]
            v0 = vs[0]
            if all(isinstance(v, Ptr) for v in vs):
                if all(v.reg == v0.reg for v in vs):
                    offs = [s.poly.norm(v.off) for s, v in zip(alls, vs)]
                    if all(not o.t for o in offs) and all(o.c == offs[0].c for o in offs):
                        self.setslot(out, nm, Ptr(v0.reg, offs[0]))
                    else:
                        y = self.slotsym(bn, nm)
                        syms[y] = offs
                        self.setslot(out, nm, Ptr(v0.reg, sym(y)))
                continue
            if any(isinstance(v, (Ptr, Unk)) for v in vs):
                continue
            if any(isinstance(v, Agg) for v in vs):
                if all(isinstance(v, Agg) for v in vs) and all(len(v.v) == len(v0.v) for v in vs):
                    bits.append((nm, vs))
                continue
            vs = [self.simp(s, v) for s, v in zip(alls, vs)]
            if all(self.isconst(v) for v in vs):
                c0 = [self.cval(v) if v.w else v.l.c for v in vs]
                if all(c == c0[0] for c in c0):
                    self.setslot(out, nm, vs[0] if vs[0].w == 0 or isinstance(vs[0], Num) else Num(c0[0], vs[0].w))
                    continue
            if any(isinstance(v, Num) and v.l.t for v in vs) or (all(isinstance(v, Num) for v in vs)):
                if any(isinstance(v, Bits) and not self.isconst(v) for v in vs):
                    w = vs[0].w
                    self.setslot(out, nm, Bits(CTX.bits(("US", bn, nm), w)))
                    continue
                y = self.slotsym(bn, nm)
                w = vs[0].w
                syms[y] = [s.poly.norm(v.l if isinstance(v, Num) else const(bdd.value(v.b))) for s, v in zip(alls, vs)]
                if w:
                    # constants are taken modulo 2^w; use the canonical representative
                    syms[y] = [const(e.c % (1 << w)) if not e.t and not (-(1 << (w - 1)) <= e.c < (1 << w)) else e for e in syms[y]]
                self.setslot(out, nm, Num(sym(y), w))
                continue
            bits.append((nm, vs))
        # merge ghosts that are not linear
        self.spec.join_ghosts(self, alls, out)
        # numeric part
        keep = self.globals_sym
        projs = []
        exts = []
        for k, s in enumerate(alls):
            pr = {"%" + y: e[k] for y, e in syms.items()}
            p = project(s.poly, pr, keep)
            p = renamepoly(p)
            self.trim(p)
            projs.append(p)
            e = s.poly.copy()
            for y, l in pr.items():
                e.eq[y] = s.poly.norm(l)
            exts.append(e)
        out.poly = pjoin(projs, rich=2 if self.counters else False)
        self.trim(out.poly)
        if key is not None and key[1] < 4 and bn in self.back:
            M = self.harvest.setdefault((bn, key[0]), {})
            for p in projs + [out.poly]:
                for g in forms(p):
                    M[g.key()] = g
                for y, e in p.eq.items():
                    for g in (sym(y) - e, e - sym(y)):
                        g = integral(g)[0]
                        M[g.key()] = g
        self.spec.assume_ghosts(self, out)
        if out.poly.bad:
            return out
        # content part
        self.joincontent(bn, alls, exts, out, bits, syms)
        return out

    def joincontent(self, bn, alls, exts, out, bits, syms):
        # candidate keys: index expressions in terms of the slot symbols
        nv = CTX.nv
        roots = self.spec.content_roots(self, out)      # [(stream, Lin over slot symbols)]
        pr = {y: sym("%" + y) for y in syms}
        cands = []
        seen = set()
        def addc(stream, l):
            k = (stream,) + out.poly.norm(l).key()
            if k not in seen:
                seen.add(k); cands.append((stream, out.poly.norm(l)))
        for stream, l in roots:
            addc(stream, l)
        need = []
        for k, s in enumerate(alls):
            fs = []
            for nm, vs in bits:
                v = vs[k]
                fs += self.allbits(v)
            need.append(set(CTX.base_of(x) for x in bdd.support(tuple(fs), nv)) if fs else set())
        # express each needed variable over slot symbols
        for k, s in enumerate(alls):
            if not need[k] and not roots:
                continue
            sub = self.invert(s.poly, {y: e[k] for y, e in syms.items()})
            for v in sorted(need[k]):
                if v in s.cve:
                    stream, l = s.cve[v]
                    l2 = s.poly.norm(l).subst(sub)
                    if all(x in syms or x in self.globals_sym for x in l2.t):
                        addc(stream, l2)
        # match
        maps = []
        full = None
        for k, s in enumerate(alls):
            m = {}
            at = {}
            for ci, (cs, cl) in enumerate(cands):
                at.setdefault((cs,) + exts[k].norm(cl.subst(pr)).key(), []).append(ci)
            memo = {}
            for v in s.cve:
                stream, l = s.cve[v]
                lk = (stream,) + l.key()
                if lk not in memo:
                    memo[lk] = at.get((stream,) + exts[k].norm(l).key())
                if memo[lk]:
                    m[v] = list(memo[lk])
            maps.append(m)
        common = None
        for k, s in enumerate(alls):
            have = {ci for l in maps[k].values() for ci in l}
            common = have if common is None else common & have
        # choose
        target = {}
        outvar = {}
        for ci in range(len(cands)):
            stream, l = cands[ci]
            key = ("IN", stream) + l.key()
            outvar[ci] = key
        # several candidates may denote the same byte of one state: try the moving ones first, then the others
        orders = [lambda ci: (not cands[ci][1].t, ci), lambda ci: (bool(cands[ci][1].t), ci), lambda ci: (not cands[ci][1].t, -ci)]
        permss = []
        used = set()
        for k, s in enumerate(alls):
            ps = []
            for o in orders:
                p = {}
                for v, cl in maps[k].items():
                    c = [x for x in cl if x in common] or cl
                    ci = min(c, key=o)
                    b = CTX.var(outvar[ci])
                    used.add(ci)
                    for i in range(8):
                        p[v + i] = b + i
                if p not in ps:
                    ps.append(p)
            permss.append(ps)
        perms = [ps[0] for ps in permss]
        nv = CTX.nv
        gl = set()
        for base, (key, n) in CTX.vinfo.items():
            if key[0] == "G":
                gl.update(range(base, base + n))
        okvars = set(gl)
        varcand = {}
        for ci in used:
            b = CTX.var(outvar[ci])
            varcand[b] = ci
        # pc
        def live_ok(k, fs):
            """all variables of fs are mapped or global"""
            p = perms[k]
            for x in bdd.support(tuple(fs), nv):
                if x not in p and x not in gl:
                    return False
            return True
        finals = []
        for nm, vs in bits:
            opts = None
            for k, v in enumerate(vs):
                fs = self.allbits(v)
                if not live_ok(k, fs):
                    opts = None
                    break
                rs = []
                for p in permss[k]:
                    r = bdd.permute(fs, p, nv)
                    if r not in rs:
                        rs.append(r)
                opts = rs if opts is None else [r for r in opts if r in rs]
                if not opts:
                    opts = None
                    break
            finals.append((nm, vs, opts[0] if opts else None))
        keepv = set()
        rootvars = set()
        for stream, l in roots:
            key = ("IN", stream) + out.poly.norm(l).key()
            if key in CTX.vars:
                b = CTX.vars[key]
                rootvars.update(range(b, b + 8))
        # values that agree in no simple way: try equality under the path conditions, else unknown
        for nm, vs, res in finals:
            if res is None:
                self.setslot(out, nm, self.unkbits(vs[0], ("US", bn, nm)))
            else:
                self.setslot(out, nm, self.rebuild(vs[0], list(res)))
                keepv |= set(bdd.support(res, nv))
        keepv |= rootvars | gl
        pc = 0
        pcs = []
        for k, s in enumerate(alls):
            # forget variables that are not kept (in terms of the source variables)
            f = 1
            for p in permss[k]:
                kp = {a for a in bdd.support((s.pc,), nv) if (a in p and p[a] in keepv) or a in gl}
                f = bdd.and_(f, bdd.permute((bdd.keep(s.pc, kp, nv),), p, nv)[0])
            pcs.append(f)
            pc = bdd.or_(pc, f)
        out.pc = pc
        if self.spec.choose_at_joins and all(bdd.and_(a, b) == 0 for i, a in enumerate(pcs) for b in pcs[:i]):
            # the way taken follows from the path condition: so does the value
            for nm, vs, res in finals:
                if res is None and not any(isinstance(v, Agg) for v in vs):
                    fs = [self.allbits(v) for v in vs]
                    if all(x in gl for f in fs for x in bdd.support(tuple(f), nv)):
                        self.setslot(out, nm, Bits(tuple(bdd.disj(bdd.and_(p, f[i]) for p, f in zip(pcs, fs)) for i in range(len(fs[0])))))
        for ci in used:
            b = CTX.var(outvar[ci])
            if any((b + i) in keepv for i in range(8)):
                out.cve[b] = cands[ci]
        out.cvn = -1

    def allbits(self, v):
        if isinstance(v, Bits):
            return v.b
        if isinstance(v, Num):
            return bdd.const(v.l.c % (1 << v.w), v.w)
        if isinstance(v, Agg):
            r = ()
            for x in v.v:
                r += self.allbits(x)
            return r
        return ()

    def rebuild(self, v, nodes):
        if isinstance(v, Agg):
            return Agg([self.rebuild(x, nodes) for x in v.v])
        if isinstance(v, (Bits, Num)):
            r = tuple(nodes[:v.w]); del nodes[:v.w]
            return Bits(r)
        return v

    def unkbits(self, v, key, n=[0]):
        if isinstance(v, Agg):
            return Agg([self.unkbits(x, key + (i,)) for i, x in enumerate(v.v)])
        if isinstance(v, (Bits, Num)):
            return Bits(CTX.bits(key, v.w))
        return UNK

    def invert(self, poly, slots):
        """substitution old symbol -> Lin over slot symbols, where determined"""
        rows = [sym(y) - e for y, e in slots.items()]
        sub = {}
        keep = set(slots) | self.globals_sym
        for r in rows:
            r = r.subst(sub)
            olds = [x for x in r.t if x not in keep]
            if not olds:
                continue
            s = min(olds, key=lambda x: (abs(r.t[x]) != 1, str(x)))
            k = r.t[s]
            e = Lin({a: Fr(-v) / k for a, v in r.t.items() if a != s}, Fr(-r.c) / k)
            from .poly import q
            e = Lin({a: q(Fr(v)) for a, v in e.t.items()}, q(Fr(e.c)))
            for a in sub:
                if s in sub[a].t:
                    sub[a] = sub[a].subst({s: e})
            sub[s] = e
        return sub

    def slotsym(self, bn, nm):
        y = "%s.%s" % (bn, self.sname(nm))
        setrank(y, 1 + self.depth(bn, nm[1]) if nm[0] == "v" else 50)
        return y

    def depth(self, bn, v):
        """number of loops that contain block bn and the definition of v"""
        d = self.defblock.get(v)
        if d is None:
            return 0
        return sum(1 for l in self.loops if bn in l and d in l)

    def findloops(self, order):
        """natural loops as sets of block names"""
        preds = {b.name: [] for b in order}
        for b in order:
            for s in b.succ:
                preds[s.name].append(b.name)
        loops = {}
        for b in order:
            for s in b.succ:
                if self.pos[b.name] >= self.pos[s.name]:
                    body = loops.setdefault(s.name, {s.name})
                    st = [b.name]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x); st += [y for y in preds[x] if self.pos[y] > self.pos[s.name]]
        self.loophead = loops
        self.defblock = {}
        for b in order:
            for i in b.ins:
                self.defblock[i.name] = b.name
                for d in i.a.get("defs", ()):
                    self.defblock[d] = b.name
        return list(loops.values())

    def sname(self, nm):
        return ":".join(str(x) for x in nm[1:])

    def setslot(self, st, nm, v):
        if nm[0] == "v":
            st.vals[nm[1]] = v
        elif nm[0] == "m":
            st.mem[(nm[1], nm[2])] = (nm[3], v)
        else:
            st.g[nm[1]] = v.l

    def leq(self, a, b):
        """a is described by b (same block)"""
        if a.bad:
            return True
        sa, sb = self.slots(a), self.slots(b)
        p = a.poly.copy()
        def lin(v):
            if isinstance(v, Ptr):
                return v.off
            if isinstance(v, Num):
                return v.l
            if isinstance(v, Bits) and bdd.is_const(v.b):
                return const(bdd.value(v.b))
            return None
        pend = []
        for nm, vb in sb.items():
            va = sa.get(nm)
            if va is None:
                return self.no(1)
            if isinstance(vb, Ptr):
                if not isinstance(va, Ptr) or va.reg != vb.reg:
                    return self.no(2)
            lb = lin(vb)
            if lb is None or (isinstance(vb, Bits)):
                continue
            la = lin(va)
            if la is None:
                return self.no(3)
            if lb.t:
                if la != lb:
                    p.add_eq(lb - la)
            elif la != lb:
                w = vb.w if isinstance(vb, Num) else 0
                d = p.norm(la - lb)
                if not d.t and w and isinstance(d.c, int) and d.c % (1 << w) == 0:
                    continue
                pend.append(d)
        if p.bad:
            return True
        for d in pend:
            if not p.ent_eq(d):
                return self.no(4)
        # content variables of b under the names the same bytes have in a
        idx = {}
        for v, (stream, l) in a.cve.items():
            idx.setdefault((stream,) + p.norm(l).key(), v)
        mm = {}
        for w, (stream, l) in b.cve.items():
            v = idx.get((stream,) + p.norm(l).key())
            if v is None:
                v = CTX.var(("IN", "none", w))
            if v != w:
                for i in range(8):
                    mm[w + i] = v + i
        nv = CTX.nv
        def rb(v):
            if isinstance(v, Bits):
                return Bits(bdd.permute(v.b, mm, nv))
            return Agg([rb(x) for x in v.v]) if isinstance(v, Agg) else v
        for nm, vb in sb.items():
            if isinstance(vb, (Bits, Agg)) and not self.sameval(sa[nm], rb(vb) if mm else vb):
                return self.no(5)
        if not self.spec.leq_ghosts(a, b):
            return self.no(6)
        if not bdd.implies(a.pc, bdd.permute((b.pc,), mm, nv)[0] if mm else b.pc):
            return self.no(7)
        return pentails(p, b.poly) or self.no(99, p, b.poly)

    def no(self, n, p=None, q=None):
        if self.debug:
            print("not below: step", n, [g for g in q.ge if not p.ent_ge(g)] if q else "", [(s, e) for s, e in q.eq.items() if not p.ent_eq(sym(s) - e)] if q else "")
        return False

    def istop(self, v):
        """is v the unknown value of its slot?"""
        if v.b[0] < 2:
            return False
        base = CTX.base_of(bdd.top(v.b[0]))
        return CTX.vinfo[base][0][0] == "US" and all(x == bdd.var(base + i) for i, x in enumerate(v.b))

    def sameval(self, va, vb):
        if isinstance(vb, Num):
            return self.isconst(va) and self.isconst(vb) and self.cval(va) == self.cval(vb)
        if isinstance(vb, Bits):
            if not bdd.is_const(vb.b) and isinstance(va, (Num, Bits)) and self.istop(vb):
                return True
            return isinstance(va, Bits) and va.b == vb.b or (isinstance(va, (Num, Bits)) and self.isconst(va) and self.isconst(vb) and self.cval(va) == self.cval(vb))
        if isinstance(vb, Agg):
            return isinstance(va, Agg) and len(va.v) == len(vb.v) and all(self.sameval(x, y) for x, y in zip(va.v, vb.v))
        return True

    def widenstates(self, bn, old, new, key):
        # only the polyhedron widens; the other components have finite height
        # slots that were constant in old appear as symbols in new: add their equalities
        p = old.poly.copy()
        so, sn = self.slots(old), self.slots(new)
        for nm, v in sn.items():
            o = so.get(nm)
            if isinstance(v, Num) and v.l.t and isinstance(o, (Num,)) and o.l != v.l:
                p.add_eq(v.l - o.l)
            if isinstance(v, Ptr) and isinstance(o, Ptr) and v.off != o.off:
                p.add_eq(v.off - o.off)
        if not p.bad:
            new.poly = pwiden(p, new.poly, self.harvest.get((bn, key), {}).values())
            self.trim(new.poly)
        new.cvn = -1
        return new

    def check_inductive(self, bn):
        edges = [s for o in list(self.outs.values()) for t, s in o if t == bn]
        groups = {}
        for s in edges:
            groups.setdefault(self.partkey(bn, s), []).append(s)
        for k, sts in groups.items():
            old = self.instates.get(bn, {}).get(k)
            if old is None:
                if any(not self.joinstates(bn, [x], None).bad for x in sts):
                    return False
                continue
            if not self.included(bn, sts, old, self.debug):
                return False
        return True

    def included(self, bn, sts, old, debug=False):
        for x in sts:
            new = self.joinstates(bn, [x], None)
            # below old, or joined with old no more than old
            if not self.leq(new, old) and not self.leq(self.joinstates(bn, [x], old), old):
                if debug:
                    print("NOT INDUCTIVE", bn)
                return False
        return True

    debug = False


_itys = {}


def _ity(w):
    from .llvmir import Ty
    if w not in _itys:
        t = Ty(); t.k = "i"; t.w = w; t.store = t.size = (w + 7) // 8; t.n = 0; t.e = None; t.els = None; t.offs = None
        _itys[w] = t
    return _itys[w]


def renamepoly(p):
    """strip the % prefix of slot symbols"""
    def r(l):
        if any(s[0] == "%" for s in l.t):
            return Lin({(s[1:] if s[0] == "%" else s): k for s, k in l.t.items()}, l.c)
        return l
    o = Poly()
    o.bad = p.bad
    o.eq = {(s[1:] if s[0] == "%" else s): r(e) for s, e in p.eq.items()}
    o.ge = [r(g) for g in p.ge]
    return o


class Spec:
    """default hooks"""
    fork_selects = False
    time_limit = 300
    key_slots = ()

    choose_at_joins = False
    def attach(self, eng): pass
    def on_content(self, eng, st): pass
    def global_region(self, eng, G): return None
    def alloca_region(self, eng, name, size, ins): return Region(name, "cells", size)
    def on_alloca(self, eng, st, r): pass
    def on_cell_load(self, eng, st, r, off, n, ins): pass
    def on_cell_store(self, eng, st, r, off, n, v, ins): pass
    def load(self, eng, st, r, off, n, ty, ins): raise Unsupported("load from %s" % r.name)
    def store(self, eng, st, r, off, v, ty, ins): raise Unsupported("store to %s" % r.name)
    def load_symbolic(self, eng, st, r, off, ty, ins): return eng.havoc(st, ty, ins)
    def store_symbolic(self, eng, st, r, off, v, ty, ins):
        for k in [k for k in st.mem if k[0] == r.name]:
            del st.mem[k]
    def load_unset(self, eng, st, r, off, ty, ins): return eng.havoc(st, ty, ins)
    def nonlinear(self, eng, st, a, b, w, ins): return Num(eng.fresh(st, ins.name + ".mul", 0, (1 << w) - 1), w)
    def numbin(self, eng, st, op, a, b, w, ins): return None
    def ptrcmp(self, eng, st, p, a, b, ins): return None
    def call(self, eng, st, nm, ins): raise Unsupported("call of %s at %s" % (nm, ins.loc()))
    def call_indirect(self, eng, st, f, ins): raise Unsupported("indirect call at %s" % ins.loc())
    def asm_call(self, eng, st, ins): raise Unsupported("inline asm not lowered: %s" % ins.loc())
    def partkey(self, st): return st.g.get("mon")
    def assume_ghosts(self, eng, st): pass
    def join_ghosts(self, eng, alls, out):
        for k, v in alls[0].g.items():
            if not isinstance(v, Lin) and all(s.g.get(k) == v for s in alls):
                out.g[k] = v
    def leq_ghosts(self, a, b):
        for k, v in b.g.items():
            if not isinstance(v, Lin) and a.g.get(k) != v:
                return False
        return True
    def content_roots(self, eng, out): return []
    def unreachable(self, eng, st, ins): pass
    def memcpy(self, eng, st, d, s, n, ins): return NotImplemented
    def memset(self, eng, st, d, v, n, ins): return NotImplemented
    def on_memset(self, eng, st, r, off, k, b, ins): pass
    def x86_intrinsic(self, eng, st, n, ins): return NotImplemented
