"""Abstract interpreter for the command-line tool: everything reachable from main() after inlining, over models of the C library.

The state pairs the program's variables (linear expressions over symbols, constrained by a polyhedron) with ghost variables that
record what the outside world has seen so far: bytes read, bytes given to the codec, text delivered by it, bytes written, column.
The models of the library calls carry the obligations; nothing refers to names of functions or variables of the program."""
from fractions import Fraction as Fr
from . import poly
from .poly import Lin, Poly, sym, const, ZERO


class Unsupported(Exception):
    pass


ALPHA = frozenset(b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/=")
ALL = frozenset(range(256))
ID = tuple(range(256))
EINTR = 4; ERANGE = 34
IOV_MAX = 1024
TOP = ("t",)
NULL = ("n",)
INTMAX = (1 << 31) - 1

# option -> (long name, takes an argument)
DOC = {"d": ("decode", False), "h": ("help", False), "i": ("ignore-garbage", False), "n": ("no-strip-newlines", False), "w": ("wrap", True)}


class St:
    __slots__ = ("env", "mem", "P", "n", "d")

    def copy(self):
        s = St(); s.env = dict(self.env); s.mem = dict(self.mem); s.P = self.P.copy(); s.n = dict(self.n); s.d = dict(self.d)
        return s

    def ge(self, l):
        self.P.add_ge(l)
        return not self.P.bad

    def eq(self, l):
        self.P.add_eq(l)
        return not self.P.bad


def I(l):
    return ("i", l if isinstance(l, Lin) else const(l))


def PT(r, o=0):
    return ("p", r, o if isinstance(o, Lin) else const(o))


class Cli:
    def __init__(self, mod, decoder_null=False):
        self.m = mod
        self.F = mod.functions["main"]
        self.ptr = mod.ptrbits
        self.cnt = 0
        self.rec = None
        self.sizes = {}           # region -> Lin or None
        self.regty = {}           # region -> Ty
        self.hyp = {}
        self.prep()

    # ---------------------------------------------------------------- preparation
    def prep(self):
        F = self.F
        for g in self.m.globals.values():
            self.sizes["g:" + g.name] = const(g.ty.size); self.regty["g:" + g.name] = g.ty
        # every edge into a block with several predecessors is a place to join; loop heads are places to widen
        order = []; seen = set(); onst = set(); self.heads = set()

        def dfs(b):
            st = [(b, iter(b.succ))]; seen.add(b); onst.add(b)
            while st:
                x, it = st[-1]
                for s in it:
                    if s in onst:
                        self.heads.add(s)
                    if s not in seen:
                        seen.add(s); onst.add(s); st.append((s, iter(s.succ)))
                        break
                else:
                    st.pop(); onst.discard(x); order.append(x)
        dfs(F.blocks[0])
        self.rpo = {b: i for i, b in enumerate(reversed(order))}
        self.joins = {b for b in self.rpo if len([p for p in b.pred if p in self.rpo]) > 1}
        # places that only choose where to go next ("a && b") are passed by every path on its own
        for b in list(self.joins):
            if b in self.heads or len(b.ins) > 5 or len(b.ins[-1].a.get("succ", ())) != 2 or b.ins[-1].op != "br":
                continue
            if all(i.op in ("phi", "icmp", "xor", "zext", "trunc", "br") for i in b.ins) and b.ins[-1].ops[0][0] == "v" \
               and any(i.op == "phi" and i.ty.k == "i" and i.ty.w == 1 for i in b.ins):
                self.joins.discard(b)
        self.live = self.liveness()
        self.sel = self.selectors()
        self.thresholds = sorted({self.s(o[1], o[2].w) for b in F.blocks for i in b.ins if i.op == "icmp" for o in i.ops if o[0] == "c" and o[2].w >= 16} | {1 << 31, 1 << 63, 1 << 64})
        self.celllive = self.cell_liveness()

    @staticmethod
    def s(v, w):
        return v - (1 << w) if v >> (w - 1) else v

    def liveness(self):
        F = self.F
        use = {}; de = {}; phiuse = {}
        for b in F.blocks:
            u = set(); d = set()
            for i in b.ins:
                if i.op == "phi":
                    d.add(i.name)
                    for o, f in zip(i.ops, i.a["from"]):
                        if o[0] == "v":
                            phiuse.setdefault((f, b), set()).add(o[1])
                    continue
                for o in i.ops:
                    if o[0] == "v" and o[1] not in d:
                        u.add(o[1])
                d.add(i.name)
            use[b] = u; de[b] = d
        live = {b: set() for b in F.blocks}      # live at entry, phi results included where used
        ch = True
        phis = {b: {i.name for i in b.ins if i.op == "phi"} for b in F.blocks}
        while ch:
            ch = False
            for b in reversed(F.blocks):
                out = set()
                for s in b.succ:
                    out |= (live[s] - phis[s]) | phiuse.get((b, s), set())
                n = use[b] | (out - (de[b] - phis[b])) | (phis[b] & self._usedphi(b, out))
                n = use[b] | (out - de[b]) | {p for p in phis[b] if p in self._uses(b) or p in out}
                if n != live[b]:
                    live[b] = n; ch = True
        return live

    def _usedphi(self, b, out):
        return out

    def _uses(self, b):
        k = "_u%s" % b.name
        c = self.__dict__.setdefault("_ucache", {})
        if k not in c:
            c[k] = {o[1] for i in b.ins if i.op != "phi" for o in i.ops if o[0] == "v"}
        return c[k]

    def selectors(self):
        """integers that only ever carry constants and truth values"""
        bits = {i.name for b in self.F.blocks for i in b.ins if i.ty.k == "i" and i.ty.w == 1}
        phis = {i.name: i for b in self.F.blocks for i in b.ins if i.op in ("phi", "select", "zext", "sext", "trunc") and i.ty.k == "i"}
        sel = set(phis)
        ch = True
        while ch:
            ch = False
            for n in list(sel):
                i = phis[n]
                if not all(o[0] in ("c", "u") or (o[0] == "v" and (o[1] in sel or o[1] in bits)) for o in (i.ops[1:] if i.op == "select" else i.ops)):
                    sel.discard(n); ch = True
        return sel

    def allocas(self):
        return {i.name: i for b in self.F.blocks for i in b.ins if i.op == "alloca"}

    def cell_liveness(self):
        """for each block, the local objects some later instruction mentions"""
        al = set(self.allocas())
        der = {a: {a} for a in al}
        ch = True
        while ch:
            ch = False
            for b in self.F.blocks:
                for i in b.ins:
                    if i.op in ("getelementptr", "phi", "select", "bitcast", "freeze"):
                        r = set()
                        for o in i.ops:
                            if o[0] == "v":
                                r |= der.get(o[1], set())
                        if not r <= der.get(i.name, set()):
                            der[i.name] = der.get(i.name, set()) | r; ch = True
        men = {}
        for b in self.F.blocks:
            u = set()
            for i in b.ins:
                if i.op == "call" and i.a["callee"][0] == "f" and i.a["callee"][1].startswith("llvm.lifetime"):
                    continue
                for o in i.ops:
                    if o[0] == "v":
                        u |= der.get(o[1], set())
            men[b] = u
        reach = {b: set(men[b]) for b in self.F.blocks}
        ch = True
        while ch:
            ch = False
            for b in reversed(self.F.blocks):
                n = set(reach[b])
                for s in b.succ:
                    n |= reach[s]
                if n != reach[b]:
                    reach[b] = n; ch = True
        # cells of the option parser that no reachable block mentions
        self.greach = {}
        gm = {}
        def gl(o, u):
            if o[0] == "g":
                u.add("g:" + o[1])
        for b in self.F.blocks:
            u = set()
            for i in b.ins:
                for o in i.ops:
                    gl(o, u)
            gm[b] = u
        self.greach = {b: set(gm[b]) for b in self.F.blocks}
        ch = True
        while ch:
            ch = False
            for b in reversed(self.F.blocks):
                n = set(self.greach[b])
                for s in b.succ:
                    n |= self.greach[s]
                if n != self.greach[b]:
                    self.greach[b] = n; ch = True
        # escaped into memory: always live
        esc = set()
        for b in self.F.blocks:
            for i in b.ins:
                if i.op == "store" and i.ops[0][0] == "v":
                    esc |= der.get(i.ops[0][1], set())
        for b in reach:
            reach[b] |= esc
        return reach

    # ---------------------------------------------------------------- helpers
    def fresh(self, tag="s"):
        self.cnt += 1
        return sym("%s%d" % (tag, self.cnt))

    def freshr(self, st, lo, hi, tag="s"):
        x = self.fresh(tag)
        if lo is not None:
            st.ge(x - lo)
        if hi is not None:
            st.ge((hi if isinstance(hi, Lin) else const(hi)) - x)
        return x

    def ob(self, kind, ok, ins, st, msg):
        if kind not in self.SAFETY and st.d.get("failed"):
            return True                 # what else is done after a failure that will be reported is left open
        if self.rec is not None:
            self.rec(kind, ok, ins, st, msg)
        return ok

    def brk(self, st):
        """an obligation does not hold and what follows on this path is not looked at -- but after a failure, where the obligation was left
        open, the path goes on: how it ends still matters"""
        if not st.d.get("failed"):
            st.d["broken"] = True

    def rng(self, st, l, w, signed):
        """[(state, expression)] with the value of the w-bit integer in its (un)signed range"""
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
        P = st.P
        if l.isconst():
            v = (l.c - lo) % (1 << w) + lo
            return [(st, const(v))]
        if P.ent_ge(l - lo) and P.ent_ge(hi - l):
            return [(st, l)]
        M = 1 << w
        a, b = P.vmin(l), P.vmax(l)
        if a in (poly.INF, -poly.INF) or b in (poly.INF, -poly.INF):
            return [(st, self.freshr(st, lo, hi))]
        k0 = int((Fr(a) - lo) // M); k1 = int((Fr(b) - lo) // M)
        if k1 - k0 > 3:
            return [(st, self.freshr(st, lo, hi))]
        out = []
        for k in range(k0, k1 + 1):
            t = st.copy() if k < k1 else st
            x = l - k * M
            if t.ge(x - lo) and t.ge(hi - x):
                out.append((t, x))
        return out

    def lin(self, st, v, w):
        """integer value as a linear expression"""
        if v[0] == "i":
            return v[1]
        if v[0] == "fb":
            tab = v[2]
            fx = self.fbset(st, v[1])
            vals = [tab[x] for x in fx]
            if len(set(vals)) == 1:
                return const(vals[0])
            return self.freshr(st, min(vals), max(vals))
        if v[0] == "t":
            return self.freshr(st, 0, (1 << w) - 1)
        if v == NULL:
            return const(0)
        return self.freshr(st, 0, (1 << w) - 1)

    # -------- facts about input bytes
    def skipset(self, st):
        d = st.d
        if not d.get("opt_d"):
            return frozenset()
        if d.get("opt_i"):
            return ALL - ALPHA
        if d.get("opt_n"):
            return frozenset()
        return frozenset([10])

    def fbset(self, st, q):
        n = st.n
        if "E" not in n:
            return ALL
        T = st.d.get("T")
        if T is not None and st.P.ent_eq(q - n["E"]):
            return T
        if st.P.ent_ge(q - n["d"]) and st.P.ent_ge(n["E"] - q - 1):
            return st.d.get("S", frozenset()) or ALL
        return ALL

    def refine(self, st, q, A):
        """the input byte at position q is in A; returns feasibility"""
        n = st.n
        if "E" in n:
            self.skipto(st, q)
        cur = self.fbset(st, q) & A
        if not cur:
            return False
        if "E" in n and st.P.ent_eq(q - n["E"]):
            st.d["T"] = cur if cur != ALL else None
            self.advance(st)
        return True

    def advance(self, st):
        n = st.n; T = st.d.get("T")
        if T is None:
            return
        SK = self.skipset(st)
        if not (T & SK):
            n["E"] = n["E"] + 1; st.d["S"] = st.d.get("S", frozenset()) | T; st.d["T"] = None

    def skipto(self, st, q):
        """the byte at d may be skipped and the program goes on at q, right after it"""
        n = st.n; T = st.d.get("T")
        if T is not None and T <= self.skipset(st) and st.P.ent_eq(q - n["d"] - 1) and st.P.ent_eq(n["E"] - n["d"]):
            n["d"] = n["d"] + 1; n["E"] = n["d"]; st.d["S"] = frozenset(); st.d["T"] = None

    # -------- conditions
    def decide(self, st, v, want_w=1):
        """[(state, 0/1)] for an i1 value"""
        if v[0] == "i":
            if v[1].isconst():
                return [(st, int(v[1].c) & 1)]
            out = []
            for t, x in self.rng(st, v[1], 1, False):
                if x.isconst():
                    out.append((t, int(x.c))); continue
                if t.P.ent_eq(x):
                    out.append((t, 0)); continue
                if t.P.ent_eq(x - 1):
                    out.append((t, 1)); continue
                u = t.copy()
                if u.eq(x):
                    out.append((u, 0))
                if t.eq(x - 1):
                    out.append((t, 1))
            return out
        if v[0] == "c":
            return self.compare(st, v[1], v[2], v[3], v[4])
        if v[0] == "fb":
            return self.splitfb(st, v, lambda x: x & 1)
        u = st.copy()
        return [(u, 0), (st, 1)]

    def splitfb(self, st, v, f):
        q, tab = v[1], v[2]
        yes = frozenset(x for x in range(256) if f(tab[x]))
        cur = self.fbset(st, q)
        if cur <= yes:
            return [(st, 1)]
        if not (cur & yes):
            return [(st, 0)]
        u = st.copy()
        out = []
        if self.refine(u, q, ALL - yes):
            out.append((u, 0))
        if self.refine(st, q, yes):
            out.append((st, 1))
        return out

    def compare(self, st, pred, a, b, w):
        isp = lambda x: x[0] in ("p", "n", "f", "pf")
        if isp(a) or isp(b):
            return self.comparep(st, pred, a, b)
        signed = pred[0] == "s"
        import operator as op
        if a[0] == "fb" or b[0] == "fb":
            if b[0] == "fb" and a[0] != "fb":
                sw = {"eq": "eq", "ne": "ne", "ugt": "ult", "uge": "ule", "ult": "ugt", "ule": "uge", "sgt": "slt", "sge": "sle", "slt": "sgt", "sle": "sge"}
                return self.compare(st, sw[pred], b, a, w)
            if b[0] == "i" and b[1].isconst():
                M = 1 << w
                can = (lambda x: (int(x) % M)) if not signed else (lambda x: self.s(int(x) % M, w))
                c = can(b[1].c)
                rel = {"eq": op.eq, "ne": op.ne, "gt": op.gt, "ge": op.ge, "lt": op.lt, "le": op.le}[pred if pred in ("eq", "ne") else pred[1:]]
                return self.splitfb(st, a, lambda x: rel(can(x), c))
        la = self.lin(st, a, w); lb = self.lin(st, b, w)
        out = []
        for s1, x in self.rng(st, la, w, signed):
            for s2, y in self.rng(s1, lb, w, signed):
                out += self.cmplin(s2, pred if pred in ("eq", "ne") else pred[1:], x, y)
        return out

    def cmplin(self, st, rel, x, y):
        if rel == "gt":
            return self.cmplin(st, "lt", y, x)
        if rel == "ge":
            return self.cmplin(st, "le", y, x)
        P = st.P
        if rel in ("lt", "le"):
            dlt = y - x if rel == "le" else y - x - 1      # >= 0 iff true
            if P.ent_ge(dlt):
                return [(st, 1)]
            if P.ent_ge(-dlt - 1):
                return [(st, 0)]
            u = st.copy(); out = []
            if u.ge(-dlt - 1):
                out.append((u, 0))
            if st.ge(dlt):
                out.append((st, 1))
            return out
        d = x - y
        T, N = (1, 0) if rel == "eq" else (0, 1)
        if P.ent_eq(d):
            return [(st, T)]
        if P.ent_ne(d):
            return [(st, N)]
        out = []
        u = st.copy()
        if u.eq(d):
            out.append((u, T))
        u = st.copy()
        if u.ge(d - 1):
            out.append((u, N))
        if st.ge(-d - 1):
            out.append((st, N))
        return out

    def comparep(self, st, pred, a, b):
        def both(s):
            u = s.copy()
            return [(u, 0), (s, 1)]
        if a[0] == "i" and a[1].isconst() and a[1].c == 0:
            a = NULL
        if b[0] == "i" and b[1].isconst() and b[1].c == 0:
            b = NULL
        if a == NULL and b == NULL:
            return [(st, 1 if pred in ("eq", "uge", "ule") else 0)]
        if b == NULL and a[0] in ("p", "f", "pf"):
            return [(st, {"eq": 0, "ne": 1, "ugt": 1, "uge": 1, "ult": 0, "ule": 0}[pred])]
        if a == NULL and b[0] in ("p", "f", "pf"):
            return [(st, {"eq": 0, "ne": 1, "ugt": 0, "uge": 0, "ult": 1, "ule": 1}[pred])]
        if pred in ("eq", "ne") and "f" in (a[0], b[0]) and a[0] in ("f", "p") and b[0] in ("f", "p"):
            return [(st, int((a == b) == (pred == "eq")))]
        if a[0] == "p" and b[0] == "p":
            if {a[1], b[1]} == {"S:end", "S:optarg"}:
                same = st.d.get("oa") in ("none", "empty")
                if pred in ("eq", "ne"):
                    return [(st, int(same == (pred == "eq")))]
                return both(st)
            if a[1] == b[1]:
                return self.cmplin(st, pred if pred in ("eq", "ne") else pred[1:], a[2], b[2])
            if pred in ("eq", "ne"):
                return [(st, int(pred == "ne"))]
        return both(st)

    # ---------------------------------------------------------------- operands
    def val(self, st, o):
        k = o[0]
        if k == "v":
            return st.env.get(o[1], TOP)
        if k == "c":
            w = o[2].w
            return I(self.s(o[1], w) if w > 1 else o[1])
        if k == "g":
            return PT("g:" + o[1], o[2])
        if k == "null":
            return NULL
        if k == "f":
            return ("f", o[1])
        if k == "z":
            return NULL if o[1].k == "p" else I(0)
        return TOP

    # ---------------------------------------------------------------- memory
    def isvec(self, r):
        """a list of I/O vectors: an array of {pointer, length}"""
        t = self.regty.get(r)
        return t is not None and t.k == "a" and t.e.k == "s" and len(t.e.els) == 2 and t.e.els[0].k == "p" and t.e.els[1].k == "i" and t.n > 1 \
            and not (r.startswith("g:") and self.m.globals[r[2:]].const)

    def live_ok(self, st, r, ins, what):
        if st.d.get(("freed", r)):
            self.ob("free", False, ins, st, "%s of released memory %s" % (what, r))
            return False
        return True

    def bounds(self, st, p, n, ins, what, kind="bounds"):
        """obligation: the n bytes at p are inside a live object; False if it does not hold"""
        if isinstance(n, int):
            n = const(n)
        if p[0] != "p":
            if st.P.ent_eq(n):
                return True
            self.ob("deref", False, ins, st, "%s through %s pointer" % (what, {"n": "a null", "t": "an unknown"}.get(p[0], "a non-object")))
            return False
        r = p[1]
        if not self.live_ok(st, r, ins, what):
            return False
        if r.startswith("S:") or r.startswith("FILE:"):
            return True
        if r == "OS":
            return True
        sz = self.size(st, r)
        if sz is None:
            self.ob(kind, False, ins, st, "%s of an object of unknown size %s" % (what, r))
            return False
        ok = st.P.ent_ge(p[2]) and st.P.ent_ge(sz - p[2] - n)
        self.ob(kind, ok, ins, st, "%s of %r bytes at %s+%r, size %r" % (what, n, r, p[2], sz))
        return ok

    def size(self, st, r):
        if ("sz", r) in st.n:
            return st.n[("sz", r)]
        return self.sizes.get(r)

    def globconst(self, r):
        return r.startswith("g:") and self.m.globals[r[2:]].const and self.m.globals[r[2:]].init is not None

    def initval(self, c, ty, off, size):
        """the constant at byte offset off of an initialiser"""
        if c[0] == "z":
            t, o = ty, off
            while t.k in ("a", "s", "v"):
                if t.k in ("a", "v"):
                    o %= t.e.size; t = t.e
                else:
                    i = max(j for j in range(len(t.els)) if t.offs[j] <= o)
                    o -= t.offs[i]; t = t.els[i]
            return NULL if t.k == "p" else I(0)
        if c[0] == "cv":
            if ty.k in ("a", "v"):
                i, o = divmod(off, ty.e.size)
                return self.initval(c[1][i], ty.e, o, size) if i < len(c[1]) else TOP
            i = max(j for j in range(len(ty.els)) if ty.offs[j] <= off)
            return self.initval(c[1][i], ty.els[i], off - ty.offs[i], size)
        if off != 0:
            return TOP
        return self.val(None, c)

    def cbytes(self, r):
        """bytes of a constant character array"""
        g = self.m.globals.get(r[2:]) if r.startswith("g:") else None
        if g is None or not g.const or g.init is None:
            return None
        c = self.__dict__.setdefault("_cb", {})
        if r not in c:
            out = []
            for i in range(g.ty.size):
                v = self.initval(g.init, g.ty, i, 1)
                if v[0] != "i" or not v[1].isconst():
                    out = None
                    break
                out.append(int(v[1].c) & 255)
            c[r] = bytes(out) if out is not None else None
        return c[r]

    def cstr(self, p):
        if p[0] == "p" and p[2].isconst():
            b = self.cbytes(p[1])
            if b is not None and 0 in b[int(p[2].c):]:
                return b[int(p[2].c):b.index(0, int(p[2].c))].decode("latin1")
        return None

    def load(self, st, p, ty, ins):
        """[(state, value)]"""
        n = ty.store
        if p[0] == "pf":
            r, q, tab = p[1], p[2], p[3]
            g = self.m.globals.get(r[2:])
            if not self.globconst(r):
                raise Unsupported("table lookup in %s" % r)
            cur = self.fbset(st, q)
            ok = all(0 <= tab[x] and tab[x] + n <= g.ty.size for x in cur)
            self.ob("bounds", ok, ins, st, "lookup in table %s" % r)
            if not ok:
                return [(st, I(self.freshr(st, 0, (1 << ty.w) - 1)))]
            res = []
            for x in range(256):
                if x not in cur:
                    res.append(0); continue
                v = self.initval(g.init, g.ty, tab[x], n)
                if v[0] != "i" or not v[1].isconst():
                    raise Unsupported("table of non-integers")
                res.append(int(v[1].c) % (1 << ty.w))
            return [(st, ("fb", q, tuple(res)))]
        if p[0] == "p" and p[1].startswith("S:"):
            return self.loadstr(st, p, ty, ins)
        if not self.bounds(st, p, n, ins, "read"):
            return [(st, self.unknown(st, ty))]
        r, off = p[1], p[2]
        if r == "OS":
            return [(st, self.unknown(st, ty))]
        if r == "argv":
            return self.loadargv(st, off, ins)
        if self.isvec(r):
            return self.loadvec(st, r, off, ty, ins)
        if off.isconst():
            key = (r, int(off.c))
            if key in st.mem and st.mem[key][0] == n:
                return [(st, st.mem[key][1])]
            if st.d.get(("zero", r)) and not any(k[0] == r and k[1] < off.c + n and k[1] + v[0] > off.c for k, v in st.mem.items()):
                return [(st, NULL if ty.k == "p" else I(0))]
            if self.globconst(r):
                return [(st, self.initval(self.m.globals[r[2:]].init, self.regty[r], int(off.c), n))]
            ext = {"stdin": "FILE:stdin", "stdout": "FILE:stdout", "stderr": "FILE:stderr"}
            if r[2:] in ext and r.startswith("g:"):
                return [(st, PT(ext[r[2:]]))]
        if n == 1 and ("c", r) in st.d:
            kind = st.d[("c", r)]
            if kind == "in":
                lo, hi, k = st.n[("c", r, "lo")], st.n[("c", r, "hi")], st.n[("c", r, "k")]
                if st.P.ent_ge(off - lo) and st.P.ent_ge(hi - off - 1):
                    return [(st, ("fb", off - lo + k, ID))]
                self.ob("stale", False, ins, st, "reads byte %r of the buffer, outside the block just read [%r, %r)" % (off, lo, hi))
        if self.globconst(r):
            b = self.cbytes(r)
            if b is not None and n == 1:
                return [(st, I(self.freshr(st, min(b), max(b))))]
        return [(st, self.unknown(st, ty))]

    def unknown(self, st, ty):
        if ty.k == "i" and ty.w <= 64:
            return I(self.freshr(st, 0, (1 << ty.w) - 1))
        return TOP

    def loadstr(self, st, p, ty, ins):
        r, off = p[1], p[2]
        z = off.isconst()
        o = int(off.c) if z else None
        if r == "S:optarg" and o == 0:
            cls = st.d.get("oa")
            if cls == "empty":
                return [(st, I(0))]
            return [(st, I(self.freshr(st, 1, 255)))]
        if r == "S:end" and o == 0:
            if st.d.get("oa") in ("num", "over", "neg", "under", "empty"):
                return [(st, I(0))]
            return [(st, I(self.freshr(st, 1, 255)))]
        if r == "S:file" and z:
            out = []
            for cls in (["dash", "nodash0", "nodash1"] if st.d.get("dash") is None else [st.d["dash"]]):
                t = st.copy(); t.d["dash"] = cls
                if cls == "dash":
                    v = I([45, 0][o]) if o < 2 else None
                elif cls == "nodash1":
                    v = I(45) if o == 0 else I(self.freshr(t, 1, 255)) if o == 1 else I(self.freshr(t, 0, 255))
                else:
                    if o == 0:
                        u = t.copy(); x = self.freshr(u, 46, 255); out.append((u, I(x)))
                        v = I(self.freshr(t, 0, 44))
                    else:
                        v = I(self.freshr(t, 0, 255))
                if v is not None:
                    out.append((t, v))
            return out
        return [(st, self.unknown(st, ty))]

    def loadargv(self, st, off, ins):
        ps = self.ptr // 8
        if off.isconst() and off.c == 0:
            return [(st, PT("S:argv0"))]
        oi = st.mem.get(("g:optind", 0))
        if oi is not None and oi[1][0] == "i" and st.P.ent_eq(off - oi[1][1] * ps):
            # argv[optind]: a file name if there is one, else the final null
            if st.d.get("nf") in ("1", "2"):
                return [(st, PT("S:file"))]
            if st.d.get("nf") == "0":
                return [(st, NULL)]
        return [(st, PT("S:arg"))]

    # -------- I/O vector lists
    def vecidx(self, st, off, r):
        e = self.regty[r].e
        q = off * Fr(1, e.size)
        q = Lin({s: poly.q(k) for s, k in q.t.items()}, poly.q(q.c))
        if any(isinstance(k, Fr) for k in q.t.values()):
            raise Unsupported("irregular index into vector list: %r" % off)
        c = int(off.c) // e.size
        f = int(off.c) - c * e.size
        q = Lin(q.t, c)
        if f not in (0, e.offs[1]):
            raise Unsupported("misaligned access to a vector list")
        return q, 0 if f == 0 else 1

    def mark(self, st, idx):
        """output position of the first byte of vector idx, if known"""
        for i, (a, b) in enumerate(st.d.get("mk", ())):
            A, B = st.n[("mk", a, "i")], st.n[("mk", a, "p")]
            if A == idx or st.P.ent_eq(A - idx):
                return a
        return None

    def addmark(self, st, idx, pos):
        m = self.mark(st, idx)
        if m is not None:
            return m
        self.cnt += 1
        a = "k%d" % self.cnt
        st.d["mk"] = st.d.get("mk", ()) + ((a, 0),)
        st.n[("mk", a, "i")] = idx; st.n[("mk", a, "p")] = pos
        return a

    def delmark(self, st, a):
        st.d["mk"] = tuple(x for x in st.d.get("mk", ()) if x[0] != a)
        st.n.pop(("mk", a, "i")); st.n.pop(("mk", a, "p"))

    def clearvec(self, st):
        for a, _ in st.d.get("mk", ()):
            st.n.pop(("mk", a, "i")); st.n.pop(("mk", a, "p"))
        st.d["mk"] = (); st.d["qr"] = None
        st.n.pop("qhi", None)
        st.d["mod"] = None; st.d["open"] = None
        for k in ("mod0", "mod1", "modi"):
            st.n.pop(k, None)
        for k in ("@mod0", "@mod1", "@open0", "@open1"):
            st.env.pop(k, None)

    def next_(self, st, a, ins):
        """[(state, marker of the following vector)]"""
        idx, pos = st.n[("mk", a, "i")], st.n[("mk", a, "p")]
        m = self.mark(st, idx + 1)
        if m is not None:
            st.ge(const((1 << self.ptr) - 1) - st.n[("mk", m, "p")] + pos)     # a length is a size_t
            return [(st, m)]
        out = []
        t = st.copy()
        if t.eq(idx + 1 - t.n["qhi"]):
            t.ge(const((1 << self.ptr) - 1) - t.n["O"] + pos)
            out.append((t, self.addmark(t, t.n["qhi"], t.n["O"])))
        if st.ge(st.n["qhi"] - idx - 2):
            x = self.fresh("p")
            st.ge(x - pos); st.ge(st.n["O"] - x); st.ge(const((1 << self.ptr) - 1) - x + pos)
            out.append((st, self.addmark(st, idx + 1, x)))
        return out

    def loadvec(self, st, r, off, ty, ins):
        idx, f = self.vecidx(st, off, r)
        if st.d.get("open") and st.d["open"][0] == r and f in st.d["open"][1] and st.P.ent_eq(idx - st.n["qhi"]):
            return [(st, st.env["@open%d" % f])]
        if st.d.get("qr") != r:
            return [(st, self.unknown(st, ty))]
        if st.d.get("mod") and st.P.ent_eq(st.n["modi"] - idx) and f in st.d["mod"]:
            return [(st, st.env["@mod%d" % f])]
        a = self.mark(st, idx)
        if a is None or not st.P.ent_ge(st.n["qhi"] - idx - 1):
            return [(st, self.unknown(st, ty))]
        if f == 0:
            return [(st, PT("OS", st.n[("mk", a, "p")]))]
        out = []
        for t, b in self.next_(st, a, ins):
            out.append((t, I(t.n[("mk", b, "p")] - t.n[("mk", a, "p")])))
        return out

    def storevec(self, st, r, off, v, ins):
        idx, f = self.vecidx(st, off, r)
        n = st.n
        flushed = st.P.ent_eq(n["O"] - n["W"])
        if st.d.get("qr") == r and not (st.d.get("mod") is not None):
            if st.P.ent_eq(idx - n["qhi"]) and not (flushed and st.d.get("open") is None and False):
                return self.append(st, r, idx, f, v, ins)
        a = self.mark(st, idx) if st.d.get("qr") == r else None
        if a is not None and st.P.ent_ge(n["qhi"] - idx - 1) and st.d.get("open") is None and not (flushed and self.isdata(st, v, f)):
            return self.modify(st, a, idx, f, v, ins)
        if flushed and st.d.get("open") is None:
            self.clearvec(st)
            st.d["qr"] = r; n["qhi"] = idx
            self.addmark(st, idx, n["O"])
            return self.append(st, r, idx, f, v, ins)
        self.ob("order", False, ins, st, "stores to entry %r of the vector list while entries up to %r are not written yet" % (idx, n.get("qhi")))
        self.brk(st)
        return [st]

    def isdata(self, st, v, f):
        return not (v[0] == "p" and v[1] == "OS")

    def append(self, st, r, idx, f, v, ins):
        o = set(st.d["open"][1]) if st.d.get("open") else set()
        o.add(f)
        st.env["@open%d" % f] = v; st.d["open"] = (r, tuple(sorted(o)))
        if len(o) == 2:
            p, l = st.env.pop("@open0"), self.lin(st, st.env.pop("@open1"), self.ptr)
            st.d["open"] = None
            res = []
            for t, x in self.rng(st, l, self.ptr, False):
                for u in self.emit(t, p, x, ins, None):
                    u.n["qhi"] = idx + 1
                    res.append(u)
            return res
        return [st]

    def modify(self, st, a, idx, f, v, ins):
        out = []
        for t, b in self.next_(st, a, ins):
            m = set(t.d["mod"]) if t.d.get("mod") else set()
            m.add(f)
            t.env["@mod%d" % f] = v; t.d["mod"] = tuple(sorted(m)); t.n["modi"] = idx
            if len(m) == 2:
                self.commit(t, ins)
            out.append(t)
        return out

    def commit(self, st, ins):
        """a rewritten vector entry must still end where it ended"""
        if not st.d.get("mod"):
            return
        m = {f: st.env.pop("@mod%d" % f) for f in st.d["mod"]}; idx = st.n["modi"]
        a = self.mark(st, idx); b = self.mark(st, idx + 1)
        ok = a is not None and b is not None
        if ok:
            pos, end = st.n[("mk", a, "p")], st.n[("mk", b, "p")]
            p = m.get(0, PT("OS", pos))
            l = self.lin(st, m[1], self.ptr) if 1 in m else end - pos
            ok = p[0] == "p" and p[1] == "OS" and st.P.ent_eq(p[2] + l - end) and st.P.ent_ge(l)
        self.ob("order", ok, ins, st, "the vector entry changed after a partial write still covers exactly the bytes up to its end (%s)"
                % ("starts %r, length %r, end %r" % (p[2] if p[0] == "p" else p[0], l, end) if a is not None and b is not None else "position not known"))
        if ok:
            for x, _ in list(st.d["mk"]):
                if x != a and not st.P.ent_ge(st.n[("mk", x, "i")] - idx - 1):
                    self.delmark(st, x)
            st.n[("mk", a, "p")] = p[2]
        else:
            self.brk(st)
        st.d["mod"] = None; st.n.pop("modi", None)

    # -------- output
    def content(self, st, p, n):
        """('text', stream position) / ('nl',) / ('os', position) / None"""
        if p[0] != "p":
            return None
        r, off = p[1], p[2]
        if r == "OS":
            return ("os", off)
        if st.d.get(("c", r)) == "text":
            lo, hi, k = st.n[("c", r, "lo")], st.n[("c", r, "hi")], st.n[("c", r, "k")]
            if st.P.ent_ge(off - lo) and st.P.ent_ge(hi - off - n):
                return ("text", off - lo + k)
            return None
        if off.isconst() and n.isconst():
            b = self.cbytes(r)
            if b is not None and b[int(off.c):int(off.c) + int(n.c)] == b"\n":
                return ("nl",)
            c = st.mem.get((r, int(off.c)))
            if n.c == 1 and c is not None and c[0] == 1 and c[1][0] == "i" and c[1][1].isconst() and c[1][1].c == 10:
                return ("nl",)
        return None

    def emit(self, st, p, n, ins, part):
        """n bytes at p join the output; part: how many of them really do (None: all).  Returns states."""
        N = st.n
        if st.P.ent_eq(n):
            return [st]
        c = self.content(st, p, n)
        amount = n if part is None else part
        enc = not st.d.get("opt_d")
        if c is None:
            what = st.d.get(("c", p[1])) if p[0] == "p" else None
            self.ob("order" if what else "text", False, ins, st, "%r bytes at %s+%r are not text delivered by the library (known content: %s)"
                    % (n, p[1] if p[0] == "p" else p[0], p[2] if p[0] == "p" else "", self.cdesc(st, p)))
            self.brk(st)
        elif c[0] == "os":
            self.ob("order", False, ins, st, "bytes already queued for output are queued again")
            self.brk(st)
        elif c[0] == "nl":
            ok = enc and not st.d.get("wz") and (st.P.ent_eq(N["col"] - N["gw"]) or
                                                 (st.d.get("final") and st.P.ent_eq(N["Tq"] - N["T"]) and st.P.ent_ge(N["col"] - 1)))
            self.ob("newline", bool(ok), ins, st, "newline only after a full line, or after the last partial line (column %r of %r)" % (N["col"], N["gw"]))
            if part is not None:
                t = st.copy(); out = []
                if t.eq(part):
                    out.append(t)
                if st.eq(part - 1):
                    N["col"] = ZERO; N["O"] = N["O"] + 1; out.append(st)
                return out
            N["col"] = ZERO
        else:
            ok = st.P.ent_eq(c[1] - N["Tq"])
            self.ob("order", ok, ins, st, "output continues where it stopped: offset %r of the text, expected %r" % (c[1], N["Tq"]))
            if enc and not st.d.get("wz"):
                self.ob("line", st.P.ent_ge(N["gw"] - N["col"] - n), ins, st, "line of %r characters at column %r fits the width %r" % (n, N["col"], N["gw"]))
                N["col"] = N["col"] + amount
            N["Tq"] = N["Tq"] + amount
            if not ok:
                self.brk(st)
        N["O"] = N["O"] + amount
        return [st]

    def cdesc(self, st, p):
        if p[0] != "p" or ("c", p[1]) not in st.d:
            return "none"
        r = p[1]
        return "%s [%r,%r) is position %r" % (st.d[("c", r)], st.n[("c", r, "lo")], st.n[("c", r, "hi")], st.n[("c", r, "k")])

    def clobber(self, st, r, ins, why):
        """the library or the system is about to overwrite (part of) region r"""
        if st.d.get(("c", r)) == "text":
            ok = st.P.ent_eq(st.n["Tq"] - st.n["T"]) and st.P.ent_eq(st.n["O"] - st.n["W"])
            self.ob("order", ok, ins, st, "%s only after everything in the buffer was written" % why)
            if not ok:
                self.brk(st)

    def setcontent(self, st, r, kind, lo, hi, k):
        st.d[("c", r)] = kind
        st.n[("c", r, "lo")] = lo; st.n[("c", r, "hi")] = hi; st.n[("c", r, "k")] = k

    def delcontent(self, st, r):
        if st.d.pop(("c", r), None) is not None:
            for x in ("lo", "hi", "k"):
                st.n.pop(("c", r, x), None)

    # -------- stores
    def killcells(self, st, r, off, n):
        if off is None or not off.isconst():
            for k in [k for k in st.mem if k[0] == r]:
                del st.mem[k]
            st.d.pop(("zero", r), None)
            return
        a = int(off.c); b = a + n
        for k in [k for k, v in st.mem.items() if k[0] == r and k[1] < b and k[1] + v[0] > a]:
            del st.mem[k]

    def store(self, st, p, v, ty, ins):
        n = ty.store
        if not self.bounds(st, p, n, ins, "write"):
            return [st]
        r, off = p[1], p[2]
        if self.globconst(r) or r in ("argv", "OS") or r.startswith(("S:", "FILE:")):
            self.ob("bounds", False, ins, st, "write to constant or foreign memory %s" % r)
            return [st]
        if self.isvec(r):
            return self.storevec(st, r, off, v, ins)
        if ("c", r) in st.d:
            if st.d[("c", r)] == "text":
                self.clobber(st, r, ins, "buffer changed")
            self.delcontent(st, r)
        self.killcells(st, r, off, n)
        if off.isconst():
            if v[0] == "t" and ty.k == "i":
                v = self.unknown(st, ty)
            st.mem[(r, int(off.c))] = (n, v)
        return [st]

    # ---------------------------------------------------------------- instructions
    def step(self, st, i):
        """[(state)] after a non-terminator, non-phi instruction"""
        o = i.op
        E = st.env
        if o == "alloca":
            r = "a:" + i.name
            t = i.a["ty"]
            if i.ops and i.ops[0][0] == "c" and i.ops[0][1] != 1:
                raise Unsupported("array alloca")
            self.sizes[r] = const(t.size); self.regty[r] = t
            self.leaves(st, r, t, 0)
            E[i.name] = PT(r)
            return [st]
        if o in ("add", "sub", "mul", "shl"):
            return self.arith(st, i, o)
        if o in ("and", "or", "xor", "lshr", "ashr", "udiv", "urem", "sdiv", "srem"):
            return self.bitop(st, i, o)
        if o == "icmp":
            E[i.name] = ("c", i.a["pred"], self.val(st, i.ops[0]), self.val(st, i.ops[1]), i.a["oty"].w if i.a["oty"].k == "i" else self.ptr)
            return [st]
        if o in ("zext", "sext", "trunc"):
            return self.cast(st, i, o)
        if o in ("bitcast", "freeze", "inttoptr", "ptrtoint"):
            E[i.name] = self.val(st, i.ops[0])
            return [st]
        if o == "getelementptr":
            return self.gep(st, i)
        if o == "load":
            out = []
            for t, v in self.load(st, self.val(st, i.ops[0]), i.ty, i):
                t.env[i.name] = v; out.append(t)
            return out
        if o == "store":
            return self.store(st, self.val(st, i.ops[1]), self.val(st, i.ops[0]), i.a["oty"], i)
        if o == "select":
            out = []
            for t, b in self.decide(st, self.val(st, i.ops[0])):
                t.env[i.name] = self.val(t, i.ops[1] if b else i.ops[2]); out.append(t)
            return out
        if o == "call":
            return self.call(st, i)
        if o in ("extractvalue", "insertvalue"):
            E[i.name] = TOP
            return [st]
        raise Unsupported("instruction %s at %s" % (o, i.loc()))

    def leaves(self, st, r, t, off, depth=0):
        if t.k == "i" and t.w <= 64:
            st.mem[(r, off)] = (t.store, I(self.freshr(st, 0, (1 << t.w) - 1)))
        elif t.k == "p":
            st.mem[(r, off)] = (t.store, TOP)
        elif t.k == "s" and depth < 3:
            for e, x in zip(t.els, t.offs):
                self.leaves(st, r, e, off + x, depth + 1)

    def fbop(self, v, f):
        return ("fb", v[1], tuple(f(x) for x in v[2]))

    def isc(self, v):
        return v[0] == "i" and v[1].isconst()

    def arith(self, st, i, o):
        a, b = self.val(st, i.ops[0]), self.val(st, i.ops[1])
        w = i.ty.w
        M = 1 << w
        if a[0] == "p" and b[0] == "p" and o == "sub" and a[1] == b[1]:
            st.env[i.name] = I(a[2] - b[2])
            return [st]
        if a[0] == "p" and b[0] in ("i",) and o in ("add", "sub"):
            st.env[i.name] = PT(a[1], a[2] + b[1] if o == "add" else a[2] - b[1])
            return [st]
        f = {"add": lambda x, y: x + y, "sub": lambda x, y: x - y, "mul": lambda x, y: x * y, "shl": lambda x, y: x << (y & (w - 1))}[o]
        if a[0] == "fb" and self.isc(b):
            k = int(b[1].c); st.env[i.name] = self.fbop(a, lambda x: f(x, k) % M)
            return [st]
        if b[0] == "fb" and self.isc(a):
            k = int(a[1].c); st.env[i.name] = self.fbop(b, lambda x: f(k, x) % M)
            return [st]
        x, y = self.lin(st, a, w), self.lin(st, b, w)
        if o == "add":
            r = x + y
        elif o == "sub":
            r = x - y
        elif o == "mul" and (x.isconst() or y.isconst()):
            r = y * x.c if x.isconst() else x * y.c
        elif o == "shl" and y.isconst():
            r = x * (1 << int(y.c))
        else:
            r = self.freshr(st, 0, M - 1)
        st.env[i.name] = I(r)
        return [st]

    def bitop(self, st, i, o):
        a, b = self.val(st, i.ops[0]), self.val(st, i.ops[1])
        w = i.ty.w; M = 1 << w
        if w == 1 and o in ("and", "or", "xor"):
            out = []
            for t, x in self.decide(st, a):
                if (o == "and" and not x) or (o == "or" and x):
                    t.env[i.name] = I(x); out.append(t)
                    continue
                for u, y in self.decide(t, b):
                    u.env[i.name] = I({"and": x & y, "or": x | y, "xor": x ^ y}[o]); out.append(u)
            return out
        import operator as op
        fs = {"and": op.and_, "or": op.or_, "xor": op.xor, "lshr": lambda x, y: x >> y if y < w else 0,
              "udiv": lambda x, y: x // y if y else 0, "urem": lambda x, y: x % y if y else 0}
        if o in fs and ((a[0] == "fb" and self.isc(b)) or (b[0] == "fb" and self.isc(a))):
            f = fs[o]
            if a[0] == "fb":
                k = int(b[1].c) % M; st.env[i.name] = self.fbop(a, lambda x: f(x % M, k))
            else:
                k = int(a[1].c) % M; st.env[i.name] = self.fbop(b, lambda x: f(k, x % M))
            return [st]
        if a[0] == "fb" and b[0] == "fb" and a[1] == b[1] and o in fs:
            f = fs[o]
            st.env[i.name] = ("fb", a[1], tuple(f(x % M, y % M) for x, y in zip(a[2], b[2])))
            return [st]
        x, y = self.lin(st, a, w), self.lin(st, b, w)
        out = []
        for t, x in self.rng(st, x, w, o in ("sdiv", "srem", "ashr")):
            if x.isconst() and y.isconst() and o in fs:
                t.env[i.name] = I(fs[o](int(x.c) % M, int(y.c) % M)); out.append(t)
                continue
            k = int(y.c) % M if y.isconst() else None
            if o in ("udiv", "urem", "lshr") and k is not None or (o == "and" and k is not None and (k & (k + 1)) == 0):
                dv = 1 << k if o == "lshr" else k + 1 if o == "and" else k
                if dv == 0:
                    raise Unsupported("division by zero at %s" % i.loc())
                qq = self.fresh("q")
                t.ge(x - qq * dv); t.ge(qq * dv + (dv - 1) - x)
                r = qq if o in ("udiv", "lshr") else x - qq * dv
            elif o in ("sdiv", "srem") and k is not None and 0 < k < M // 2 and t.P.ent_ge(x):
                qq = self.fresh("q")
                t.ge(x - qq * k); t.ge(qq * k + (k - 1) - x)
                r = qq if o == "sdiv" else x - qq * k
            elif o == "and":
                r = self.freshr(t, 0, M - 1)
                if k is not None:
                    t.ge(k - r)
            elif o == "xor" and k == M - 1:
                r = (M - 1) - x
            else:
                r = self.freshr(t, 0, M - 1)
            t.env[i.name] = I(r); out.append(t)
        return out

    def cast(self, st, i, o):
        v = self.val(st, i.ops[0])
        w0 = i.a["oty"].w; w1 = i.ty.w
        if v[0] == "fb":
            if o == "trunc":
                st.env[i.name] = self.fbop(v, lambda x: x % (1 << w1))
            elif o == "zext":
                st.env[i.name] = self.fbop(v, lambda x: x % (1 << w0))
            else:
                st.env[i.name] = self.fbop(v, lambda x: self.s(x % (1 << w0), w0))
            return [st]
        if v[0] == "c":
            out = []
            for t, b in self.decide(st, v):
                t.env[i.name] = I(b if o == "zext" else -b); out.append(t)
            return out
        if v[0] in ("p", "n"):
            st.env[i.name] = v if o != "trunc" else TOP
            return [st]
        x = self.lin(st, v, w0)
        if o == "trunc":
            if w1 == 1:
                out = []
                for t, y in self.rng(st, x, w0, False):
                    if y.isconst():
                        t.env[i.name] = I(int(y.c) & 1)
                    elif t.P.ent_ge(1 - y):
                        t.env[i.name] = I(y)
                    else:
                        t.env[i.name] = I(self.freshr(t, 0, 1))
                    out.append(t)
                return out
            st.env[i.name] = I(x)
            return [st]
        out = []
        for t, y in self.rng(st, x, w0, o == "sext"):
            t.env[i.name] = I(y); out.append(t)
        return out

    def gep(self, st, i):
        b = self.val(st, i.ops[0])
        t = i.a["ty"]
        cur = t
        states = [(st, ZERO, None)]
        first = True
        for op_ in i.ops[1:]:
            nxt = []
            for s, off, fb in states:
                v = self.val(s, op_)
                if first:
                    scale = t.size
                elif cur.k in ("a", "v"):
                    scale = cur.e.size
                else:
                    k = int(v[1].c)
                    nxt.append((s, off + cur.offs[k], fb))
                    continue
                if v[0] == "fb":
                    if fb is not None:
                        raise Unsupported("two byte-dependent indices")
                    nxt.append((s, off, (v[1], tuple(x * scale for x in v[2]))))
                    continue
                w = self.ptr
                x = self.lin(s, v, w)
                if x.isconst():
                    nxt.append((s, off + self.s(int(x.c) % (1 << w), w) * scale, fb))
                    continue
                if v[0] == "t":
                    nxt.append((s, off + x * scale, fb))
                    continue
                for u, y in self.rng(s, x, w, True):
                    nxt.append((u, off + y * scale, fb))
            states = nxt
            if first:
                first = False
            elif cur.k in ("a", "v"):
                cur = cur.e
            else:
                cur = cur.els[int(self.val(st, op_)[1].c)]
        out = []
        for s, off, fb in states:
            if b[0] == "p":
                if fb is not None:
                    tot = b[2] + off
                    if not tot.isconst():
                        raise Unsupported("table pointer with symbolic base")
                    s.env[i.name] = ("pf", b[1], fb[0], tuple(x + int(tot.c) for x in fb[1]))
                else:
                    s.env[i.name] = PT(b[1], b[2] + off)
            elif b[0] == "n" and off.isconst() and off.c == 0 and fb is None:
                s.env[i.name] = NULL
            else:
                s.env[i.name] = TOP
            out.append(s)
        return out

    # ---------------------------------------------------------------- library models
    def call(self, st, i):
        c = i.a["callee"]
        if c[0] != "f":
            raise Unsupported("indirect call at %s" % i.loc())
        name = c[1]
        if name.startswith("llvm."):
            return self.intrinsic(st, i, name)
        f = getattr(self, "m_" + {"__isoc99_strtol": "strtol", "__isoc23_strtol": "strtol", "__isoc23_strtoul": "strtoul", "___errno_location": "__errno_location"}.get(name, name), None)
        if f is None:
            raise Unsupported("no model of %s (called at %s)" % (name, i.loc()))
        if st.d.get("broken"):
            pass
        args = [self.val(st, o) for o in i.ops]
        out = []
        for t, v in f(st, i, args):
            if t.P.bad:
                continue
            if v is not None:
                t.env[i.name] = v
            out.append(t)
        return out

    SAFETY = frozenset(("exit", "again", "bounds", "deref", "free", "fit", "pending", "full", "optable"))

    def intrinsic(self, st, i, name):
        if name.startswith("llvm.lifetime"):
            p = self.val(st, i.ops[-1])
            if p[0] == "p" and p[1].startswith("a:") and p[2] == ZERO and not self.isvec(p[1]):
                self.killcells(st, p[1], None, 0); self.delcontent(st, p[1])
                self.leaves(st, p[1], self.regty[p[1]], 0)
            return [st]
        if name.startswith(("llvm.dbg", "llvm.assume", "llvm.experimental.noalias")):
            return [st]
        if name.startswith(("llvm.memcpy", "llvm.memmove")):
            d, s, n = (self.val(st, o) for o in i.ops[:3])
            return [t for t, _ in self.m_memcpy(st, i, [d, s, n])]
        if name.startswith("llvm.memset"):
            return [t for t, _ in self.m_memset(st, i, [self.val(st, o) for o in i.ops[:3]])]
        if name.startswith(("llvm.umin", "llvm.umax", "llvm.smin", "llvm.smax")):
            a, b = self.val(st, i.ops[0]), self.val(st, i.ops[1])
            mn = "min" in name
            out = []
            for t, x in self.compare(st, ("s" if name[5] == "s" else "u") + "le", a, b, i.ty.w):
                t.env[i.name] = a if bool(x) == mn else b
                out.append(t)
            return out
        if name.startswith("llvm.stack"):
            st.env[i.name] = TOP
            return [st]
        raise Unsupported("intrinsic %s" % name)

    def m_memcpy(self, st, i, a):
        d, s, n = a
        l = self.lin(st, n, self.ptr)
        if not l.isconst():
            raise Unsupported("copy of variable size at %s" % i.loc())
        n = int(l.c)
        if not self.bounds(st, d, n, i, "write") or not self.bounds(st, s, n, i, "read"):
            return [(st, d)]
        if not (d[2].isconst() and s[2].isconst()) or self.isvec(d[1]) or ("c", d[1]) in st.d:
            raise Unsupported("copy at %s" % i.loc())
        self.killcells(st, d[1], d[2], n)
        do, so = int(d[2].c), int(s[2].c)
        if self.globconst(s[1]):
            g = self.m.globals[s[1][2:]]

            def leaf(c, t, off):
                if t.k in ("i", "p"):
                    if so <= off and off + t.store <= so + n:
                        st.mem[(d[1], do + off - so)] = (t.store, self.initval(g.init, g.ty, off, t.store))
                elif t.k == "s":
                    for e, x in zip(t.els, t.offs):
                        leaf(c, e, off + x)
                elif t.k == "a" and t.n <= 64:
                    for k in range(t.n):
                        leaf(c, t.e, off + k * t.e.size)
            leaf(g.init, g.ty, 0)
        else:
            for (r, o), v in list(st.mem.items()):
                if r == s[1] and so <= o and o + v[0] <= so + n:
                    st.mem[(d[1], do + o - so)] = v
        return [(st, d)]

    def m_memset(self, st, i, a):
        d, v, n = a
        l = self.lin(st, n, self.ptr)
        if not self.bounds(st, d, l, i, "write"):
            return [(st, d)]
        r = d[1]
        if ("c", r) in st.d or self.isvec(r) or not self.isc(v) or not l.isconst() or not d[2].isconst():
            raise Unsupported("memset at %s" % i.loc())
        self.killcells(st, r, d[2], int(l.c))
        t = self.regty.get(r)
        if int(v[1].c) != 0:
            return [(st, d)]
        lo, hi = int(d[2].c), int(d[2].c) + int(l.c)

        def leaf(t, off):
            if t.k in ("i", "p"):
                if lo <= off and off + t.store <= hi:
                    st.mem[(r, off)] = (t.store, NULL if t.k == "p" else I(0))
            elif t.k == "s":
                for e, x in zip(t.els, t.offs):
                    leaf(e, off + x)
            elif t.k == "a" and t.n <= 64:
                for k in range(t.n):
                    leaf(t.e, off + k * t.e.size)
        if t is not None:
            leaf(t, 0)
        return [(st, d)]

    def seterrno(self, st, v=None):
        if v is None:
            v = I(self.freshr(st, 0, 4095))
        st.mem[("errno", 0)] = (4, v)

    def m___errno_location(self, st, i, a):
        self.sizes["errno"] = const(4)
        return [(st, PT("errno"))]

    def isfile(self, v, n):
        return v[0] == "p" and v[1] == "FILE:" + n

    # output through stdio: to stderr it is a message; to stdout only the help text may go there
    def stdio_out(self, st, i, fp):
        if fp[0] != "p" or not fp[1].startswith("FILE:"):
            self.ob("deref", False, i, st, "output to an invalid stream")
            return [(st, I(self.freshr(st, -1, 1 << 20)))]
        if fp[1] != "FILE:stdout":
            self.seterrno(st)
            return [(st, I(self.freshr(st, -1, 1 << 20)))]
        self.ob("mode", bool(st.d.get("help")), i, st, "buffered text goes to standard output only for the help option")
        t = st.copy()
        t.d["failed"] = True; t.d["outerr"] = True; t.d["why"] = "output"; self.seterrno(t)
        st.d["pend"] = True; st.d["printed"] = True
        self.seterrno(st)
        return [(t, I(self.freshr(t, -INTMAX, -1))), (st, I(self.freshr(st, 0, 1 << 20)))]

    def m_fprintf(self, st, i, a):
        return self.stdio_out(st, i, a[0])

    m_vfprintf = m_fprintf

    def m_fputs(self, st, i, a):
        return self.stdio_out(st, i, a[1])

    m_fputc = m_putc = m_fputs

    def m_fwrite(self, st, i, a):
        if self.isfile(a[3], "stdout") and not st.d.get("help"):
            raise Unsupported("fwrite to stdout")
        r = []
        for t, v in self.stdio_out(st, i, a[3]):
            r.append((t, I(self.freshr(t, 0, 1 << 20))))
        return r

    def m_printf(self, st, i, a):
        return self.stdio_out(st, i, PT("FILE:stdout"))

    m_puts = m_putchar = m_printf

    def m_perror(self, st, i, a):
        self.seterrno(st)
        return [(st, None)]

    def m_strerror(self, st, i, a):
        self.seterrno(st)
        return [(st, PT("S:msg"))]

    def m_fflush(self, st, i, a):
        if a[0] == NULL or self.isfile(a[0], "stdout"):
            return self.flush(st)
        return [(st, I(self.freshr(st, -1, 0)))]

    def flush(self, st):
        t = st.copy()
        if st.d.get("pend"):
            t.d["failed"] = True; t.d["why"] = "output"; t.d["outerr"] = True
        else:
            t.d["soft"] = True
        t.d["pend"] = False; st.d["pend"] = False
        self.seterrno(t)
        return [(t, I(-1)), (st, I(0))]

    def m_fclose(self, st, i, a):
        p = a[0]
        if p[0] != "p" or not p[1].startswith("FILE:"):
            self.ob("deref", False, i, st, "fclose of an invalid stream")
            return [(st, I(0))]
        ok = not st.d.get(("freed", p[1]))
        self.ob("free", ok, i, st, "stream %s is closed once" % p[1])
        st.d[("freed", p[1])] = True
        if p[1] == "FILE:stdout":
            return self.flush(st)
        t = st.copy(); t.d["soft"] = True; self.seterrno(t)
        return [(t, I(-1)), (st, I(0))]

    def m_malloc(self, st, i, a, zero=False):
        n = self.lin(st, a[0], self.ptr)
        r = "m:%s" % i.name
        if ("sz", r) in st.n or r in st.d.get("alloced", ()):
            raise Unsupported("allocation in a loop at %s" % i.loc())
        t = st.copy()
        t.d["failed"] = True; t.d["why"] = "malloc"; t.d["nomem"] = True
        self.seterrno(t, I(12))
        st.d["alloced"] = st.d.get("alloced", ()) + (r,)
        out = [(t, NULL)]
        for s, x in self.rng(st, n, self.ptr, False):
            s.n[("sz", r)] = x
            self.seterrno(s)
            out.append((s, PT(r)))
        return out

    def m_calloc(self, st, i, a):
        x, y = self.lin(st, a[0], self.ptr), self.lin(st, a[1], self.ptr)
        if x.isconst():
            return self.m_malloc(st, i, [I(y * x.c)])
        if y.isconst():
            return self.m_malloc(st, i, [I(x * y.c)])
        raise Unsupported("calloc")

    def m_free(self, st, i, a):
        p = a[0]
        if p == NULL:
            return [(st, None)]
        ok = p[0] == "p" and p[1].startswith("m:") and st.P.ent_eq(p[2]) and not st.d.get(("freed", p[1]))
        self.ob("free", ok, i, st, "free of an allocated buffer, once (%s)" % (p[1] if p[0] == "p" else p[0]))
        if ok:
            if st.d.get(("c", p[1])) == "text":
                good = st.d.get("failed") or (st.P.ent_eq(st.n["Tq"] - st.n["T"]) and st.P.ent_eq(st.n["O"] - st.n["W"]))
                self.ob("order", bool(good), i, st, "buffer released only after its text was written")
            self.delcontent(st, p[1])
            st.d[("freed", p[1])] = True
        return [(st, None)]

    # -------- options
    def m_getopt_long(self, st, i, a):
        short = self.cstr(a[2])
        tabp = a[3]
        if short is None or tabp[0] != "p" or not self.globconst(tabp[1]) or not tabp[2].isconst() or tabp[2].c != 0:
            raise Unsupported("getopt_long with tables that are not constant")
        g = self.m.globals[tabp[1][2:]]
        n = g.ty.n
        longs = {}
        e = g.ty.e
        closed = False
        for k in range(n):
            nm = self.initval(g.init, g.ty, k * e.size + e.offs[0], self.ptr // 8)
            if nm == NULL:
                closed = True
                break
            ha = self.initval(g.init, g.ty, k * e.size + e.offs[1], 4); fl = self.initval(g.init, g.ty, k * e.size + e.offs[2], 0); vl = self.initval(g.init, g.ty, k * e.size + e.offs[3], 4)
            longs[self.cstr(nm)] = (int(ha[1].c), fl, int(vl[1].c))
        self.ob("optable", closed, i, st, "the table of long options ends with a null entry")
        self.ob("optable", a[4] == NULL or a[4][0] == "p", i, st, "index argument is null or valid")
        sp = short
        order = sp[:1] in ("+", "-")
        if order:
            sp = sp[1:]
        colon = sp[:1] == ":"
        if colon:
            sp = sp[1:]
        shorts = {}
        k = 0
        while k < len(sp):
            c = sp[k]; k += 1; na = 0
            while k < len(sp) and sp[k] == ":":
                na += 1; k += 1
            shorts[c] = na
        self.ob("optable", not order, i, st, "options may follow file names: the option string does not start with + or -")
        self.ob("input", a[1] == PT("argv") and st.P.ent_eq(self.lin(st, a[0], 32) - st.n["argc"]), i, st, "the program's own argument list is parsed")
        out = []
        base = st

        def mk():
            t = base.copy()
            self.sizes["g:optarg"] = const(self.ptr // 8)
            t.mem[("g:optarg", 0)] = (self.ptr // 8, NULL)
            t.mem[("g:optopt", 0)] = (4, I(self.freshr(t, 0, 255)))
            t.mem[("g:optind", 0)] = (4, I(self.freshr(t, 1, None)))
            t.d["oa"] = None
            return t

        def bad(val, why):
            t = mk(); t.d["failed"] = True; t.d["why"] = why
            out.append((t, I(val)))

        # the list is exhausted
        t = mk()
        oi = self.fresh("oi")
        t.ge(oi - 1); t.ge(t.n["argc"] - oi)
        t.mem[("g:optind", 0)] = (4, I(oi))
        t.d["parsed"] = True
        for nf in ("0", "1", "2"):
            u = t.copy(); x = u.n["argc"] - oi
            u.d["nf"] = nf
            if (u.eq(x) if nf == "0" else u.eq(x - 1) if nf == "1" else u.ge(x - 2)):
                if nf == "2":
                    u.d["failed"] = True; u.d["why"] = "surplus file name"
                out.append((u, I(-1)))
        # documented options
        for c, (ln, arg) in DOC.items():
            forms = []
            if c in shorts:
                forms.append(("-" + c, shorts[c], NULL, ord(c)))
            else:
                self.ob("optable", False, i, st, "short option -%s is not accepted" % c)
            if ln in longs:
                forms.append(("--" + ln,) + longs[ln])
            else:
                self.ob("optable", False, i, st, "long option --%s is not accepted" % ln)
            for nm, na, flag, val in forms:
                self.ob("optable", (na == 1) == arg and na != 2, i, st, "%s takes %s argument" % (nm, "an" if arg else "no"))
                if (na == 1) != arg or na == 2:
                    continue
                if flag != NULL:
                    if flag[0] != "p":
                        raise Unsupported("option flag pointer")
                classes = ("empty", "num0", "num1", "over", "neg", "under", "partial", "none") if arg else (None,)
                for cl in classes:
                    t = mk()
                    ret = val
                    if flag != NULL:
                        self.store(t, flag, I(val), _I32, i); ret = 0
                    if c == "d":
                        t.d["opt_d"] = True
                    elif c == "i":
                        t.d["opt_i"] = True
                    elif c == "n":
                        t.d["opt_n"] = True
                    elif c == "h":
                        t.d["help"] = True
                    else:
                        t.mem[("g:optarg", 0)] = (self.ptr // 8, PT("S:optarg"))
                        t.d["oa"] = {"num0": "num", "num1": "num"}.get(cl, cl)
                        if cl in ("num0", "num1"):
                            v = self.fresh("w")
                            t.ge(((1 << (self.ptr - 1)) - 1) - v)
                            if cl == "num0":
                                v = ZERO
                            else:
                                t.ge(v - 1)
                            t.n["gw"] = v; t.d["wz"] = cl == "num0"
                        else:
                            t.d["failed"] = True; t.d["why"] = "wrap value: " + cl
                    key = (ret, c, cl)
                    if any(x[2] == key for x in out if len(x) == 3):
                        continue
                    out.append((t, I(ret), key))
        for c, na in shorts.items():
            if c not in DOC:
                bad(ord(c), "undocumented option -%s" % c)
        for ln, (ha, fl, vl) in longs.items():
            if ln not in [x[0] for x in DOC.values()]:
                bad(vl if fl == NULL else 0, "undocumented option --%s" % ln)
        bad(ord("?"), "unknown option")
        bad(ord(":") if colon else ord("?"), "missing argument")
        return [x[:2] for x in out]

    def m_strtol(self, st, i, a, lo=None, hi=None):
        if not (a[0][0] == "p" and a[0][1] == "S:optarg" and st.P.ent_eq(a[0][2])):
            raise Unsupported("strtol of another string")
        base = self.lin(st, a[2], 32)
        self.ob("wrapval", st.P.ent_eq(base - 10), i, st, "the wrap width is a decimal number")
        w = i.ty.w
        cls = st.d.get("oa")
        LO, HI = -(1 << (w - 1)), (1 << (w - 1)) - 1
        if lo is not None:
            LO, HI = lo, hi
        if a[1] != NULL:
            for s in self.store(st, a[1], PT("S:end"), _PTR(self.ptr), i):
                pass
        if cls == "num":
            v = st.n["gw"]
        elif cls == "over":
            v = const(HI); self.seterrno(st, I(ERANGE))
        elif cls == "under":
            v = const(LO); self.seterrno(st, I(ERANGE))
        elif cls == "neg":
            v = self.freshr(st, LO, -1)
        elif cls == "partial":
            v = self.freshr(st, LO, HI)
        else:
            v = const(0)
        return [(st, I(v))]

    def m_strtoul(self, st, i, a):
        w = i.ty.w
        if st.d.get("oa") in ("neg", "under"):       # negative numbers are accepted and wrap around
            if a[1] != NULL:
                self.store(st, a[1], PT("S:end"), _PTR(self.ptr), i)
            return [(st, I(self.freshr(st, 1, (1 << w) - 1)))]
        return self.m_strtol(st, i, a, 0, (1 << w) - 1)

    m_strtoull = m_strtoumax = m_strtoul
    m_strtoll = m_strtoimax = m_strtol

    def m_atoi(self, st, i, a):
        return self.m_strtol(st, i, [a[0], NULL, I(10)])

    m_atol = m_atoll = m_atoi

    def m_strcmp(self, st, i, a):
        x, y = a[0], a[1]
        s = self.cstr(y)
        if s is None:
            x, y = y, x; s = self.cstr(y)
        if s is not None and x[0] == "p" and x[1] == "S:file" and x[2].isconst() and x[2].c == 0:
            if s == "-":
                return self.dashcase(st)
            r = self.freshr(st, -255, 255)
            return [(st, I(r))]
        return [(st, I(self.freshr(st, -255, 255)))]

    def dashcase(self, st):
        out = []
        if st.d.get("dash") in (None, "dash"):
            t = st.copy(); t.d["dash"] = "dash"; out.append((t, I(0)))
        if st.d.get("dash") != "dash":
            t = st.copy(); t.d["dash"] = t.d.get("dash") or "nodash0"; out.append((t, I(self.freshr(t, 1, 255))))
            t = st.copy(); t.d["dash"] = t.d.get("dash") or "nodash0"; out.append((t, I(self.freshr(t, -255, -1))))
        return out

    def m_strncmp(self, st, i, a):
        n = self.lin(st, a[2], self.ptr)
        if n.isconst() and n.c >= 2:
            return self.m_strcmp(st, i, a)
        return [(st, I(self.freshr(st, -255, 255)))]

    def m_strlen(self, st, i, a):
        s = self.cstr(a[0])
        if s is not None:
            return [(st, I(len(s)))]
        return [(st, I(self.freshr(st, 0, (1 << (self.ptr - 1)) - 1)))]

    def m_strrchr(self, st, i, a):
        t = st.copy()
        return [(t, NULL), (st, PT("S:arg"))]

    m_strchr = m_strrchr

    # -------- input
    def wantfile(self, st):
        """the stream the documentation says is read"""
        if st.d.get("src"):
            return st.d["src"]
        if st.d.get("nf") == "0" or st.d.get("dash") == "dash":
            return "FILE:stdin"
        if st.d.get("nf") == "1":
            return "FILE:opened"
        return None

    def m_fopen(self, st, i, a):
        mode = self.cstr(a[1])
        ok = a[0][0] == "p" and a[0][1] == "S:file" and a[0][2] == ZERO and st.d.get("nf") == "1" and st.d.get("dash") not in (None, "dash")
        self.ob("input", ok or bool(st.d.get("failed")), i, st, "the file opened is the one named on the command line, and its name is not -")
        self.ob("input", mode in ("r", "rb"), i, st, "the file is opened for reading only")
        t = st.copy()
        t.d["failed"] = True; t.d["why"] = "open"; self.seterrno(t)
        st.d[("freed", "FILE:opened")] = False
        return [(t, NULL), (st, PT("FILE:opened"))]

    def m_setvbuf(self, st, i, a):
        return [(st, I(self.freshr(st, -1, 0)))]

    def m_posix_fadvise(self, st, i, a):
        return [(st, I(self.freshr(st, 0, 100)))]

    def m_fileno(self, st, i, a):
        n = {"FILE:stdin": 0, "FILE:stdout": 1, "FILE:stderr": 2}.get(a[0][1] if a[0][0] == "p" else None)
        return [(st, I(n if n is not None else self.freshr(st, 3, 1 << 20)))]

    def m_fread(self, st, i, a):
        sz, cnt = self.lin(st, a[1], self.ptr), self.lin(st, a[2], self.ptr)
        fp = a[3]
        n = st.n
        if not sz.isconst():
            sz, cnt = cnt, sz
        if not sz.isconst():
            raise Unsupported("fread of variable items")
        self.ob("feed", sz.c == 1, i, st, "the input is read in items of one byte, so that none is dropped")
        total = cnt * sz.c
        if not self.bounds(st, a[0], total, i, "read into buffer"):
            return [(st, I(self.freshr(st, 0, (1 << self.ptr) - 1)))]
        if not self.live_ok(st, fp[1] if fp[0] == "p" else "", i, "reading"):
            pass
        failed = bool(st.d.get("failed"))
        self.ob("input", failed or (fp[0] == "p" and fp[1] == self.wantfile(st)), i, st, "input comes from %s" % self.wantfile(st))
        self.ob("mode", failed or not st.d.get("help"), i, st, "the help option processes no input")
        mode = st.d.get("mode")
        self.ob("mode", mode is not None, i, st, "a codec stream has been set up")
        r = a[0][1]
        if st.d.get("perr"):
            st.d["perr"] = False; st.d["perr0"] = True      # the reading before this one may have failed
        if mode is not None and not failed:
            self.skipto(st, n["R"])
            ok = st.P.ent_eq(n["d"] - n["R"])
            self.ob("feed", ok, i, st, "everything read so far went to the codec (or may be skipped) before more is read: handled up to %r of %r" % (n["d"], n["R"]))
            if mode == "dec":
                ok = st.P.ent_eq(n["Tq"] - n["T"]) and st.P.ent_eq(n["O"] - n["W"])
                self.ob("deliver", ok, i, st, "everything decoded was written before more input is read (%r of %r)" % (n["W"], n["T"]))
            self.clobber(st, r, i, "input read into the buffer")
        self.delcontent(st, r)
        self.killcells(st, r, None, 0)
        out = []
        for k in ("full", "short"):
            t = st.copy()
            x = self.fresh("r")
            t.ge(x); t.ge(cnt - x)
            if k == "full":
                if not t.eq(x - cnt):
                    continue
                t.d["eof"] = False
            else:
                if not t.ge(cnt - x - 1):
                    continue
                # the end of the input, or an error: which of them shows when the program asks
                t.d["eof"] = True; t.d["perr"] = not t.d.get("rderr")
            if mode is not None:
                self.setcontent(t, r, "in", a[0][2], a[0][2] + x * sz.c, t.n["R"])
                t.n["R"] = t.n["R"] + x * sz.c
                if self.skipset(t) == frozenset():
                    pass
                t.n["d"] = t.n["d"] if mode else t.n["d"]
                t.n["E"] = t.n["d"]; t.d["S"] = frozenset(); t.d["T"] = None
            self.seterrno(t)
            out.append((t, I(x)))
        return out

    def m_ferror(self, st, i, a):
        if a[0][0] == "p" and a[0][1] == "FILE:stdout":
            v = bool(st.d.get("outerr"))
        elif a[0][0] == "p" and a[0][1] == self.wantfile(st):
            v = bool(st.d.get("rderr"))
            if not v and (st.d.get("perr") or st.d.get("perr0")):
                e = st.copy(); self.readerr(e)
                st.d["perr"] = st.d["perr0"] = False
                return [(e, I(self.freshr(e, 1, INTMAX))), (st, I(0))]
        else:
            self.ob("input", a[0][0] == "p", i, st, "error state of a valid stream")
            v = False
        return [(st, I(self.freshr(st, 1, INTMAX) if v else 0))]

    def m_feof(self, st, i, a):
        v = bool(st.d.get("eof"))
        if st.d.get("perr"):
            e = st.copy(); self.readerr(e)
            st.d["perr"] = False
            return [(e, I(0)), (st, I(self.freshr(st, 1, INTMAX)))]
        return [(st, I(self.freshr(st, 1, INTMAX) if v else 0))]

    def readerr(self, st):
        st.d["perr"] = st.d["perr0"] = False
        st.d["rderr"] = True; st.d["failed"] = True; st.d["why"] = "read"; st.d["eof"] = False

    def m_memchr(self, st, i, a):
        """finds a byte in the block just read"""
        p, c, nn = a[0], self.lin(st, a[1], 32), self.lin(st, a[2], self.ptr)
        if not self.bounds(st, p, nn, i, "read"):
            return [(st, TOP)]
        if not c.isconst():
            raise Unsupported("memchr of a variable byte")
        c = int(c.c) & 255
        r = p[1]
        out = []
        t = st.copy()
        x = self.fresh("f")
        if t.ge(x) and t.ge(nn - x - 1):
            self.scan(t, r, p[2], x, frozenset([c]), True)
            out.append((t, PT(r, p[2] + x)))
        self.scan(st, r, p[2], nn, frozenset([c]), False)
        out.append((st, NULL))
        return out

    def scan(self, st, r, off, n, stop, found):
        """the n bytes at off are outside `stop`; if found, the next one is inside"""
        if st.d.get(("c", r)) != "in":
            return
        q = off - st.n[("c", r, "lo")] + st.n[("c", r, "k")]
        if "E" in st.n:
            self.skipto(st, q)
        if "E" in st.n and st.P.ent_eq(q - st.n["E"]) and st.d.get("T") is None:
            SK = self.skipset(st)
            rest = ALL - stop
            if not (rest & SK):
                st.n["E"] = q + n
                if not st.P.ent_eq(n):
                    st.d["S"] = st.d.get("S", frozenset()) | rest
                if found:
                    st.d["T"] = stop
                    self.advance(st)

    # -------- the library
    def m_base64_stream_encode_init(self, st, i, a):
        return self.init(st, i, a, "enc")

    def m_base64_stream_decode_init(self, st, i, a):
        return self.init(st, i, a, "dec")

    def init(self, st, i, a, mode):
        if not self.bounds(st, a[0], 12, i, "codec state"):
            return [(st, None)]
        failed = bool(st.d.get("failed"))
        self.ob("mode", failed or bool(st.d.get("opt_d")) == (mode == "dec"), i, st, "decoding is done exactly with the decode option")
        self.ob("mode", failed or not st.d.get("help"), i, st, "the help option processes no input")
        self.ob("mode", st.d.get("mode") is None, i, st, "the codec stream is set up once")
        self.ob("mode", bool(st.d.get("parsed")) or failed, i, st, "options were parsed")
        fl = self.lin(st, a[1], 32)
        st.d["forced"] = not st.P.ent_eq(fl)
        r = a[0][1]
        st.d["mode"] = mode; st.d["sr"] = r
        st.n["st"] = a[0][2]
        for k in ("R", "d", "E", "T", "Tq", "O", "W", "col", "b", "rr"):
            st.n[k] = ZERO
        st.d["S"] = frozenset(); st.d["T"] = None; st.d["final"] = False; st.d["eof"] = False
        st.d["mk"] = (); st.d["qr"] = None; st.d["mod"] = None; st.d["open"] = None
        st.d["src"] = self.wantfile(st)
        st.d["nf"] = st.d["dash"] = st.d["oa"] = None
        if mode == "enc":
            st.d["opt_i"] = st.d["opt_n"] = False
        else:
            st.d["wz"] = False; st.n["gw"] = ZERO
            if st.d.get("opt_i"):
                st.d["opt_n"] = False
        self.setstate(st, a[0], ZERO)
        return [(st, None)]

    def setstate(self, st, p, b):
        off = p[2]
        self.killcells(st, p[1], off if off.isconst() else None, 16)
        if off.isconst():
            o = int(off.c)
            st.mem[(p[1], o)] = (4, I(self.freshr(st, 0, 2)))
            st.mem[(p[1], o + 4)] = (4, I(b))
            st.mem[(p[1], o + 8)] = (4, I(self.freshr(st, 0, (1 << 32) - 1)))
            st.mem[(p[1], o + 12)] = (1, I(self.freshr(st, 0, 255)))

    def stateok(self, st, p, i):
        ok = p[0] == "p" and st.d.get("sr") == p[1] and st.P.ent_eq(p[2] - st.n.get("st", ZERO))
        if ok and p[2].isconst():
            c = st.mem.get((p[1], int(p[2].c) + 4))
            ok = c is not None and c[1][0] == "i" and st.P.ent_eq(c[1][1] - st.n["b"])
        self.ob("feed", ok, i, st, "the codec gets the state of the stream, unchanged since the last call")
        return ok

    def source(self, st, p, n, i):
        """obligation: the n bytes at p are the next input bytes; returns ok"""
        N = st.n
        r = p[1] if p[0] == "p" else None
        if not self.bounds(st, p, n, i, "input of the codec"):
            return False
        if st.d.get(("c", r)) != "in":
            ok = st.P.ent_eq(n)
            self.ob("feed", ok, i, st, "the codec is given bytes that were read from the input")
            return ok
        lo, hi, k = N[("c", r, "lo")], N[("c", r, "hi")], N[("c", r, "k")]
        inside = st.P.ent_ge(p[2] - lo) and st.P.ent_ge(hi - p[2] - n)
        self.ob("feed", inside, i, st, "the codec is given only bytes of the block just read: [%r, +%r) of [%r, %r)" % (p[2], n, lo, hi))
        q = p[2] - lo + k
        self.skipto(st, q)
        seq = st.P.ent_eq(q - N["d"])
        self.ob("feed" if st.d.get("mode") == "enc" else "skip", seq, i, st, "the codec continues exactly where it stopped, or after bytes that may be skipped: position %r, expected %r" % (q, N["d"]))
        return inside and seq

    def target(self, st, p, need, exact, i):
        """obligation: what the codec may write (4*size or 3*size form given as a proof goal) fits"""
        if p[0] != "p":
            self.ob("deref", False, i, st, "codec output goes to an invalid pointer")
            return False
        if not self.live_ok(st, p[1], i, "codec output"):
            return False
        sz = self.size(st, p[1])
        if sz is None:
            self.ob("bounds", False, i, st, "codec output goes to an object of unknown size")
            return False
        ok = st.P.ent_ge(p[2]) and need(sz - p[2])
        self.ob("fit", ok, i, st, "the codec's output fits: %s at %s+%r, size %r" % (exact, p[1], p[2], sz))
        return ok

    def produce(self, st, p, o, i):
        """o bytes of text were delivered at p"""
        N = st.n; r = p[1]
        if st.d.get(("c", r)) == "text" and not (st.P.ent_eq(N["Tq"] - N["T"]) and st.P.ent_eq(N["O"] - N["W"])):
            hi, lo, k = N[("c", r, "hi")], N[("c", r, "lo")], N[("c", r, "k")]
            ok = st.P.ent_eq(p[2] - hi) and st.P.ent_eq(hi - lo + k - N["T"])
            if not ok and st.P.ent_eq(hi - lo):
                self.setcontent(st, r, "text", p[2], p[2] + o, N["T"]); ok = True
            else:
                self.ob("order", ok, i, st, "new text goes right behind the text still waiting: %s+%r, waiting up to %r" % (r, p[2], hi))
                if ok:
                    N[("c", r, "hi")] = hi + o
                else:
                    self.setcontent(st, r, "text", p[2], p[2] + o, N["T"]); self.brk(st)
        else:
            if not (st.P.ent_eq(N["Tq"] - N["T"]) and st.P.ent_eq(N["O"] - N["W"])):
                self.ob("order", False, i, st, "earlier text waits in another buffer")
            if st.d.get(("c", r)) == "in" and not st.P.ent_eq(N["d"] - N["R"]):
                self.ob("feed", False, i, st, "codec output overwrites input not handled yet")
            self.killcells(st, r, None, 0)
            self.setcontent(st, r, "text", p[2], p[2] + o, N["T"])
        N["T"] = N["T"] + o

    def m_base64_stream_encode(self, st, i, a):
        sp, src, n, out, ol = a
        n = self.lin(st, n, self.ptr)
        if not self.stateok(st, sp, i) or not self.source(st, src, n, i) or st.d.get("mode") != "enc":
            if st.d.get("mode") != "enc":
                self.ob("mode", False, i, st, "the stream was set up for encoding")
                return self.dead(st, i, ol)
            self.brk(st)
        N = st.n
        self.ob("feed", not st.d.get("final"), i, st, "no input after the end of the text")
        b = N["b"]
        if not self.target(st, out, lambda room: st.P.ent_ge(room * 3 + 2 - n * 4 - b), "encoding of %r bytes" % n, i):
            return self.dead(st, i, ol)
        if src[0] == "p" and out[0] == "p" and src[1] == out[1]:
            self.ob("fit", False, i, st, "input and output overlap")
        o = self.fresh("o"); b2 = self.freshr(st, 0, 2)
        st.ge(o); st.ge(n * 4 + b - o * 3 - b2)
        N["d"] = N["d"] + n; N["E"] = N["d"]; st.d["S"] = frozenset(); st.d["T"] = None
        N["b"] = b2
        self.produce(st, out, o, i)
        self.setstate(st, sp, b2)
        return [(t, None) for t in self.store(st, ol, I(o), _INT(self.ptr), i)]

    def dead(self, st, i, ol):
        self.brk(st)
        return [(t, I(self.freshr(t, -1, 1)) if i.ty.k == "i" else None) for t in self.store(st, ol, I(self.freshr(st, 0, None)), _INT(self.ptr), i)]

    def m_base64_stream_encode_final(self, st, i, a):
        sp, out, ol = a
        if st.d.get("mode") != "enc" or not self.stateok(st, sp, i):
            self.ob("mode", st.d.get("mode") == "enc", i, st, "the stream was set up for encoding")
            return self.dead(st, i, ol)
        N = st.n
        self.ob("final", not st.d.get("final"), i, st, "the text is finished once")
        self.ob("final", bool(st.d.get("failed")) or (bool(st.d.get("eof")) and st.P.ent_eq(N["d"] - N["R"])), i, st, "the text is finished after all input was encoded")
        st.d["final"] = True
        if not self.target(st, out, lambda room: st.P.ent_ge(room - 3), "up to 3 characters", i):
            return self.dead(st, i, ol)
        o = self.freshr(st, 0, 3, "o")
        self.produce(st, out, o, i)
        return [(t, None) for t in self.store(st, ol, I(o), _INT(self.ptr), i)]

    def m_base64_stream_decode(self, st, i, a):
        sp, src, n, out, ol = a
        n = self.lin(st, n, self.ptr)
        if st.d.get("mode") != "dec" or not self.stateok(st, sp, i):
            self.ob("mode", st.d.get("mode") == "dec", i, st, "the stream was set up for decoding")
            return self.dead(st, i, ol)
        N = st.n
        if not self.source(st, src, n, i):
            self.brk(st)
        SK = self.skipset(st)
        if SK:
            ok = st.P.ent_ge(N["E"] - N["d"] - n) and not (st.d.get("S", frozenset()) & SK)
            self.ob("skip", ok or st.P.ent_eq(n), i, st, "no byte that is to be skipped is given to the decoder (known up to %r of %r)" % (N["E"], N["d"] + n))
        rr = N["rr"]
        if not self.target(st, out, lambda room: st.P.ent_ge(room * 4 + 3 - n * 3 - rr), "decoding of %r characters" % n, i):
            return self.dead(st, i, ol)
        if src[0] == "p" and out[0] == "p" and src[1] == out[1]:
            self.ob("fit", False, i, st, "input and output overlap")
        res = []
        # failure
        t = st.copy()
        t.d["failed"] = True; t.d["why"] = "decode"; t.d["baddata"] = True
        o = self.fresh("o"); t.ge(o); t.ge(n * 3 + rr - o * 4)
        t.n["d"] = t.n["d"] + n; t.n["E"] = t.n["d"]; t.d["S"] = frozenset(); t.d["T"] = None
        t.n["b"] = self.freshr(t, 0, 3)
        self.produce(t, out, o, i)
        self.setstate(t, sp, t.n["b"])
        for u in self.store(t, ol, I(o), _INT(self.ptr), i):
            res.append((u, I(0)))
        if st.d.get("forced"):
            t = st.copy(); t.d["failed"] = True; t.d["why"] = "codec missing"
            for u in self.store(t, ol, I(0), _INT(self.ptr), i):
                res.append((u, I(-1)))
        # success
        o = self.fresh("o"); b2 = self.freshr(st, 0, 3); r2 = self.freshr(st, 0, 3)
        st.ge(o); st.ge(n * 3 + rr - o * 4 - r2)
        N["d"] = N["d"] + n
        if not SK or not st.P.ent_ge(N["E"] - N["d"]):
            N["E"] = N["d"]; st.d["T"] = None
        if st.P.ent_eq(N["E"] - N["d"]):
            st.d["S"] = frozenset()
        N["b"] = b2; N["rr"] = r2
        self.produce(st, out, o, i)
        self.setstate(st, sp, b2)
        self.advance(st)
        for u in self.store(st, ol, I(o), _INT(self.ptr), i):
            res.append((u, I(1)))
        return res

    def m_base64_encode(self, st, i, a):
        raise Unsupported("one-shot call")

    # -------- output
    def m_write(self, st, i, a):
        fd = self.lin(st, a[0], 32)
        n = self.lin(st, a[2], self.ptr)
        if not fd.isconst():
            raise Unsupported("write to a variable descriptor")
        if fd.c == 2:
            return [(st, I(self.freshr(st, -1, None)))]
        out = []
        for t, x in self.rng(st, n, self.ptr, False):
            out += self.write1(t, i, a[1], x, fd)
        return out

    def write1(self, st, i, p, n, fd):
        self.ob("order", fd.c == 1, i, st, "output goes to standard output")
        self.outpre(st, i)
        if not self.bounds(st, p, n, i, "output"):
            return [(st, I(self.freshr(st, -1, None)))]
        N = st.n
        res = []
        t = st.copy(); self.seterrno(t, I(EINTR)); res.append((t, I(-1)))
        res += self.outfail(st)
        x = self.fresh("n"); st.ge(x); st.ge(n - x)
        if p[0] == "p" and p[1] == "OS":
            # bytes of a queued vector written one by one
            ok = st.P.ent_eq(p[2] - N["W"]) and st.P.ent_ge(N["O"] - p[2] - n)
            self.ob("order", ok, i, st, "queued bytes are written in order: position %r, expected %r" % (p[2], N["W"]))
            N["W"] = N["W"] + x
            res.append((st, I(x)))
            return res
        ok = st.P.ent_eq(N["O"] - N["W"]) and st.d.get("open") is None
        self.ob("order", ok, i, st, "nothing queued earlier is still waiting")
        starts = [(st, x)]
        if st.P.norm(n) == const(1):
            t = st.copy(); t.eq(x); st.eq(x - 1)
            starts = [(t, ZERO), (st, const(1))]
        for s, y in starts:
            for u in self.emit(s, p, n, i, y):
                u.n["W"] = u.n["O"] if ok else u.n["W"] + y
                res.append((u, I(y)))
        return res

    def outpre(self, st, i):
        self.ob("again", not st.d.get("outerr"), i, st, "no further write after a permanent error")
        self.ob("mode", st.d.get("mode") is not None, i, st, "data is written only while encoding or decoding")
        if st.d.get("mode") is None:
            for k in ("R", "d", "E", "T", "Tq", "O", "W", "col", "b", "rr"):
                st.n.setdefault(k, ZERO)
        if st.d.get("mod"):
            self.commit(st, i)

    def outfail(self, st):
        t = st.copy()
        t.d["failed"] = True; t.d["why"] = "write"; t.d["outerr"] = True
        res = []
        for lo, hi in ((1, 3), (5, 4095)):
            u = t.copy(); self.seterrno(u, I(self.freshr(u, lo, hi))); res.append((u, I(-1)))
        return res

    def m_writev(self, st, i, a):
        fd, n = self.lin(st, a[0], 32), self.lin(st, a[2], 32)
        p = a[1]
        N = st.n
        self.ob("order", st.P.ent_eq(fd - 1), i, st, "output goes to standard output")
        self.outpre(st, i)
        good = st.P.ent_ge(n) and st.P.ent_ge(IOV_MAX - n)
        self.ob("full", good, i, st, "at most IOV_MAX vectors are written at once: %r" % n)
        if p[0] != "p" or not self.isvec(p[1]):
            self.ob("deref", False, i, st, "not a vector list")
            self.brk(st)
            return [(st, I(self.freshr(st, -1, None)))]
        if not self.bounds(st, p, n * self.regty[p[1]].e.size, i, "vector list"):
            return [(st, I(self.freshr(st, -1, None)))]
        idx, f = self.vecidx(st, p[2], p[1])
        a_ = self.mark(st, idx) if st.d.get("qr") == p[1] and f == 0 else None
        ok = a_ is not None and st.d.get("open") is None and st.P.ent_eq(N[("mk", a_, "p")] - N["W"]) and st.P.ent_ge(N["qhi"] - idx - n)
        self.ob("order", ok, i, st, "the vectors passed start at the first byte not written yet and are all filled in (entry %r, %r entries, filled up to %r)" % (idx, n, N.get("qhi")))
        res = []
        if not ok:
            self.brk(st)
        t = st.copy(); self.seterrno(t, I(EINTR)); res.append((t, I(-1)))
        res += self.outfail(st)
        x = self.fresh("n"); st.ge(x); st.ge(const((1 << (self.ptr - 1)) - 1) - x)      # a ssize_t
        if ok and st.P.ent_eq(N["qhi"] - idx - n):
            st.ge(N["O"] - N["W"] - x)
        else:
            # fewer vectors than are queued
            y = self.fresh("p")
            st.ge(N["O"] - y); st.ge(y - N["W"] - x)
            if ok:
                self.addmark(st, idx + n, y)
        N["W"] = N["W"] + x
        res.append((st, I(x)))
        return res

    # -------- leaving
    def finish(self, st, i, v):
        d = st.d; N = st.n
        x = self.lin(st, v, 32)
        if not x.isconst():
            if st.P.ent_eq(x):
                x = ZERO
            elif st.P.ent_ge(x - 1) and st.P.ent_ge(255 - x):
                x = const(1)
            else:
                self.ob("exit", False, i, st, "exit status %r" % x)
                return
        status = int(x.c) & 255
        failed = bool(d.get("failed"))
        if (d.get("perr") or d.get("perr0")) and not failed:
            self.ob("exit", status != 0, i, st, "a failure (read) gives a non-zero exit status")
        if failed:
            self.ob("exit", status != 0, i, st, "a failure (%s) gives a non-zero exit status" % d.get("why"))
            return
        self.ob("pending", not d.get("pend") or status != 0, i, st, "buffered output is flushed and checked before success is reported")
        if d.get("help"):
            self.ob("exit", status == 0 or bool(d.get("soft")), i, st, "help succeeds")
            self.ob("mode", bool(d.get("printed")) and d.get("mode") is None, i, st, "the help option prints the help text and does nothing else")
            return
        mode = d.get("mode")
        if mode is None:
            self.ob("exit", False, i, st, "exit with status %d without having done anything, nothing having failed" % status)
            return
        if status != 0:
            inside = mode == "dec" and d.get("eof") and st.P.ent_ge(N["b"] - 1)
            self.ob("exit", bool(inside) or bool(d.get("soft")), i, st, "exit status %d although nothing failed" % status)
            return
        self.ob("feed", bool(d.get("eof")), i, st, "success is reported only after the end of the input was reached")
        self.skipto(st, N["R"])
        self.ob("feed", st.P.ent_eq(N["d"] - N["R"]), i, st, "all input was given to the codec (or may be skipped): %r of %r" % (N["d"], N["R"]))
        done = st.P.ent_eq(N["Tq"] - N["T"]) and st.P.ent_eq(N["O"] - N["W"])
        self.ob("deliver", done, i, st, "all text was written: queued %r of %r, written %r of %r" % (N["Tq"], N["T"], N["W"], N["O"]))
        if mode == "enc":
            self.ob("final", bool(d.get("final")), i, st, "the text was finished")
            self.ob("newline", bool(d.get("wz")) or st.P.ent_eq(N["col"]), i, st, "the last line ends with a newline (column %r)" % N["col"])
        else:
            self.ob("exit", st.P.ent_eq(N["b"]), i, st, "input that ends inside a group is a failure")

    def m_exit(self, st, i, a):
        self.finish(st, i, a[0])
        return []

    m__exit = m_exit

    def m_abort(self, st, i, a):
        return []


class _T:
    pass


def _mkty(k, w):
    t = _T(); t.k = k; t.w = w; t.store = t.size = w // 8; t.e = None; t.els = None
    return t


_I32 = _mkty("i", 32)


def _INT(w):
    return _mkty("i", w)


def _PTR(w):
    return _mkty("p", w)
