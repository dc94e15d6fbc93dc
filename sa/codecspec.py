"""Specification of the stream codecs: what one call of an encoder or decoder has to do, for every input.

Everything is relative to the call: input byte i of the block is content byte ("S", i), bytes of earlier
blocks have negative indices.  Ghosts of the encoder: P = length of the output prefix proven equal to the
RFC 4648 text.  Ghosts of the decoder: P, and V = number of leading input bytes proven to be alphabet
characters on this path."""
from . import bdd
from .poly import Lin, Poly, sym, const, INF
from .engine import (Engine, Spec, State, Region, Num, Bits, Ptr, Cnd, Agg, Unk, UNK, Unsupported, CTX, Report)

ALPHA = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
_tabs = {}


def _tab(name):
    if name not in _tabs:
        if name == "enc":
            b = ALPHA; w = 8
        elif name == "dec":
            b = bytes(ALPHA.index(c) if c in ALPHA else 0 for c in range(256)); w = 8
        elif name == "valid":
            b = bytes(1 if c in ALPHA else 0 for c in range(256)); w = 8
        e = ()
        for x in b:
            e += bdd.const(x, 8)
        _tabs[name] = bdd.arr(e)
    return _tabs[name]


_fc = {}


def alpha(bits):
    """character (8 nodes) of a 6-bit group"""
    k = ("a", bits)
    if k not in _fc:
        _fc[k] = bdd.mux(_tab("enc"), 8, bits)
    return _fc[k]


def decval(c):
    k = ("d", c)
    if k not in _fc:
        _fc[k] = bdd.mux(_tab("dec"), 8, c)[:6]
    return _fc[k]


def valid(c):
    k = ("v", c)
    if k not in _fc:
        _fc[k] = bdd.mux(_tab("valid"), 8, c)[0]
    return _fc[k]


def is_eq(c):
    return bdd.conj(c[i] if (0x3D >> i) & 1 else bdd.not_(c[i]) for i in range(8))


def eqv(pc, a, b):
    """are the two bytes equal under pc?"""
    if a == b:
        return True
    for x, y in zip(a, b):
        if x != y and bdd.and_(pc, bdd.xor(x, y)) != 0:
            return False
    return True


def residues(st, l, m):
    """[(r, state, k)] for the feasible remainders of l modulo m (l = m*k + r); states are copies"""
    l = st.poly.norm(l)
    if not l.t:
        return [(l.c % m, st, const(l.c // m))]
    if all(isinstance(k, int) and k % m == 0 for k in l.t.values()) and isinstance(l.c, int):
        r = l.c % m
        return [(r, st, (l - r) * __import__("fractions").Fraction(1, m))]
    out = []
    for r in range(m):
        s = st.copy()
        n = 0
        while True:
            nm = "res%d.%d" % (m, n)
            if nm not in s.poly.eq and not any(nm in g.t for g in s.poly.ge) and not any(nm in e.t for e in s.poly.eq.values()):
                break
            n += 1
        k = sym(nm)
        s.poly.add_eq(l - k * m - r)
        if not s.bad:
            out.append((r, s, s.poly.norm(k)))
    return out


NORETURN = ("__assert_fail", "abort", "__assert", "__builtin_trap")
NPEND = {"enc": (0, 1, 2), "dec": (0, 0, 1, 2)}


class CodecSpec(Spec):
    def __init__(self, mode, name, entry):
        self.mode = mode
        self.cname = name
        self.entry = entry       # (status, b, cells)
        self.status, self.b = entry[0], entry[1]
        self.time_limit = 600

    # ---- setup -----------------------------------------------------------
    def attach(self, eng):
        W = eng.W
        CTX.eng = eng
        eng.globals_sym = {"srclen", "m"}
        self.n = sym("srclen")
        R = eng.regions
        R["STATE"] = Region("STATE", "cells", 16)
        R["SRC"] = Region("SRC", "content", None)
        R["OUT"] = Region("OUT", "sink", None)
        R["OUTLEN"] = Region("OUTLEN", "cells", W // 8)

    def initial(self, eng, F):
        st = State()
        W = eng.W
        p = st.poly
        n = self.n
        p.add_ge(n)
        if self.mode == "enc":
            p.add_ge(const((1 << (W - 1)) - 1) - n * 2)         # 4/3 n + margin is an object size
            m = sym("m")
            p.add_ge(m * 3 - n - self.b); p.add_ge(n + self.b + 2 - m * 3)
        else:
            p.add_ge(const((1 << (W - 1)) - 1) - n)
        eng.facts = list(p.ge)
        for (a, ty, nm), v in zip(F.params, (Ptr("STATE", 0), Ptr("SRC", 0), Num(n, W), Ptr("OUT", 0), Ptr("OUTLEN", 0))):
            st.vals[a] = v
        st.g["P"] = const(0)
        st.g["pend"] = ()
        if self.mode == "dec":
            st.g["V"] = const(0)
        for off, sz, v in self.entry[2]:
            st.mem[("STATE", off)] = (sz, self.cellvalue(eng, st, v))
        return st

    def cellvalue(self, eng, st, v):
        """v: int, or ('f', nodes template) built by export()"""
        if v[0] == "c":
            return Num(v[1], v[2])
        if v[0] == "u":
            return Bits(CTX.bits(("U", "entry") + v[1], v[2]))
        if v[0] == "G":
            return Bits(CTX.bits(("G",) + v[1], v[2]))
        # content function: register the variables of earlier blocks
        for stream, idx in v[2]:
            eng.in_byte(st, stream, const(idx))
        return Bits(v[1])

    # ---- content ---------------------------------------------------------
    def byte(self, eng, st, l):
        return eng.in_byte(st, "S", l)

    def load(self, eng, st, r, off, n, ty, ins):
        if r.name == "SRC":
            ok = st.poly.ent_ge(off) and st.poly.ent_ge(self.n - off - n)
            eng.ob("read", ok, ins, "read of %d input byte(s) inside the block" % n,
                   lambda: "offset %r of %r; %s" % (off, self.n, eng.describe(st)))
            if not ok:
                st.poly.add_ge(off); st.poly.add_ge(self.n - off - n)
                if st.bad:
                    return eng.havoc(st, ty, ins)
            return eng.from_bytes([self.byte(eng, st, off + i) for i in range(n)], ty)
        eng.ob("outread", False, ins, "the output buffer is only written", "offset %r" % off)
        return eng.havoc(st, ty, ins)

    def on_content(self, eng, st):
        if self.mode != "dec" or "V" not in st.g:
            return
        if st.cvn != len(st.poly.eq):
            eng.rebuild_cv(st)
        for _ in range(256):
            V = st.poly.norm(st.g["V"])
            v = st.cvi.get(("S",) + V.key())
            if v is None:
                return
            c = tuple(bdd.var(v + i) for i in range(8))
            if not bdd.implies(st.pc, valid(c)):
                return
            st.g["V"] = V + 1

    def content_roots(self, eng, out):
        if self.mode == "dec":
            V = out.g["V"]
            return [("S", V), ("S", V + 1)]
        return []

    # ---- output ----------------------------------------------------------
    def bound_ok(self, st, end):
        """absolute end position of a write inside the documented output size"""
        p = st.poly
        if self.mode == "enc":
            Y = end + self.b
            return p.ent_ge((self.n + self.b) * 4 - Y * 3) or p.ent_ge(sym("m") * 4 - Y)
        b = self.b
        e = NPEND["dec"][b]
        Y = end + e
        return p.ent_ge((self.n + b) * 3 - Y * 4)

    def expected(self, eng, st, r, k, j):
        """byte j of a store whose absolute position is group k, offset r: (nodes, validity)"""
        if self.mode == "enc":
            g, q = divmod(r + j, 4)
            base = (k + g) * 3 - self.b
            B = lambda i: self.byte(eng, st, base + i)
            if q == 0:
                s = B(0)[2:8]
            elif q == 1:
                s = B(1)[4:8] + B(0)[0:2]
            elif q == 2:
                s = B(2)[6:8] + B(1)[0:4]
            else:
                s = B(2)[0:6]
            return alpha(s), 1
        g, q = divmod(r + j, 3)
        base = (k + g) * 4 - self.b
        c0 = self.byte(eng, st, base + q); c1 = self.byte(eng, st, base + q + 1)
        x, y = decval(c0), decval(c1)
        if q == 0:
            o = y[4:6] + x[0:6]
        elif q == 1:
            o = y[2:6] + x[0:4]
        else:
            o = y[0:6] + x[0:2]
        return o, bdd.and_(valid(c0), valid(c1))

    def match(self, eng, st, off, bs):
        """number of leading bytes that are what they must be; yields (state, m)"""
        m4 = 4 if self.mode == "enc" else 3
        e = self.b if self.mode == "enc" else NPEND["dec"][self.b]
        out = []
        for r, s, k in residues(st, off + e, m4):
            m = 0
            for j, b in enumerate(bs):
                x, ok = self.expected(eng, s, r, k, j)
                pc = bdd.and_(s.pc, ok)
                if not eqv(pc, b, x):
                    break
                m += 1
            out.append((s, m))
        return out

    def store(self, eng, st, r, off, v, ty, ins):
        n = ty.store
        if not (isinstance(v, (Num, Bits))):
            eng.ob("write", False, ins, "only text is written to the output")
            return
        ok = st.poly.ent_ge(off) and self.bound_ok(st, off + n)
        eng.ob("write", ok, ins, "write of %d output byte(s) inside the documented output size" % n,
               lambda: "offset %r, input %r, pending %d; %s" % (off, self.n, self.b, eng.describe(st)))
        bs = eng.to_bytes(st, v, ty, ins)
        return [s for s in self.put(eng, st, off, bs, n, ins)]

    def put(self, eng, st, off, bs, n, ins):
        res = []
        for s, m in self.match(eng, st, off, bs):
            P = s.poly.norm(s.g["P"])
            o = s.poly.norm(off)
            d = P - o
            if s.poly.ent_ge(d):                        # starts inside the proven prefix
                if s.poly.ent_ge(o + m - P):
                    if m == n or s.poly.ent_eq(d):
                        s.g["P"] = o + m
                    elif s.poly.ent_ge(o + m - P):
                        s.g["P"] = o + m
                elif m < n:
                    s.g["P"] = o + m                    # proven bytes are overwritten by other ones
            elif s.poly.ent_ge(-d):
                if m:
                    s.g["pend"] = tuple((a, c) for a, c in s.g["pend"] if s.poly.ent_ge(o - a - c) or s.poly.ent_ge(a - o - n)) + ((o, m),)
                else:
                    s.g["pend"] = tuple((a, c) for a, c in s.g["pend"] if s.poly.ent_ge(o - a - c) or s.poly.ent_ge(a - o - n))
            else:
                # position relative to the prefix unknown: everything from there on is unproven
                k = eng.fresh(s, "P.lost", 0)
                s.poly.add_ge(P - k); s.poly.add_ge(o - k)
                s.g["P"] = k
            ch = True
            while ch and s.g["pend"]:
                ch = False
                for a, c in s.g["pend"]:
                    if s.poly.ent_eq(s.g["P"] - a):
                        s.g["P"] = s.g["P"] + c
                        s.g["pend"] = tuple(x for x in s.g["pend"] if x != (a, c))
                        ch = True
                        break
            res.append(s)
        return res

    def partkey(self, st):
        """states whose progress differs in kind are kept apart: P against V, and the end of the block"""
        if self.mode != "dec":
            return None
        V, P = st.g["V"], st.g["P"]
        c = st.poly.norm(P * 4 - V * 3)
        d = st.poly.norm(self.n - V)
        # what is known of the byte that ends the valid prefix, and of the one after it
        cl = []
        if st.cvn != len(st.poly.eq):
            CTX.eng.rebuild_cv(st)
        for k in (0, 1):
            v = st.cvi.get(("S",) + st.poly.norm(V + k).key())
            x = None
            if v is not None:
                b = tuple(bdd.var(v + i) for i in range(8))
                e = is_eq(b)
                if bdd.implies(st.pc, e):
                    x = "="
                elif bdd.and_(st.pc, e) == 0 and (k or bdd.and_(st.pc, valid(b)) == 0):
                    x = "x"
            cl.append(x)
            if x != "=":
                break
        return (c.c if not c.t and abs(c.c) <= 8 else None, d.c if not d.t and 0 <= d.c <= 2 else None, tuple(cl))

    def assume_ghosts(self, eng, st):
        st.poly.add_ge(st.g["P"])
        if "V" in st.g:
            st.poly.add_ge(st.g["V"])
            st.poly.add_ge(self.n - st.g["V"])

    def join_ghosts(self, eng, alls, out):
        out.g["pend"] = ()

    def leq_ghosts(self, a, b):
        return True

    def on_cell_store(self, eng, st, r, off, n, v, ins):
        if r.kind == "global":
            eng.ob("shared", False, ins, "encoding and decoding write no shared data")

    def on_cell_load(self, eng, st, r, off, n, ins):
        if r.kind == "global":
            eng.ob("shared", False, ins, "encoding and decoding depend on no shared variable data")

    def call(self, eng, st, nm, ins):
        if nm in NORETURN:
            eng.ob("effects", False, ins, "%s is never reached" % nm)
            return []
        raise Unsupported("call of %s at %s" % (nm, ins.loc()))

    # ---- exits -------------------------------------------------------------
    def finish(self, eng, F, exits):
        """checks the exit obligations; returns the set of (ret, next entry) outcomes"""
        outcomes = {}
        for st, rv, ins in exits:
            if self.mode == "enc":
                self.finish_enc(eng, st, ins, outcomes)
            else:
                self.finish_dec(eng, st, rv, ins, outcomes)
        return outcomes

    def get_outlen(self, eng, st, ins):
        c = st.mem.get(("OUTLEN", 0))
        ok = c is not None and c[0] == eng.W // 8 and isinstance(c[1], (Num, Bits))
        eng.ob("outlen-set", ok, ins, "the output length is stored before the call returns", lambda: eng.describe(st))
        if not ok:
            return None
        v = eng.tonum(st, c[1], ins)
        return eng.canon(st, v, ins)

    def finish_enc(self, eng, st0, ins, outcomes):
        for r, st, k in residues(st0, self.n + self.b, 3):
            T = self.n + self.b
            N = k * 4 + r - self.b
            ol = self.get_outlen(eng, st, ins)
            if st.bad:
                continue
            if ol is not None:
                eng.ob("outlen", st.poly.ent_eq(ol - N), ins, "the reported length is the number of characters this block completes",
                       lambda: "reported %r, expected %r; %s" % (st.poly.norm(ol), st.poly.norm(N), eng.describe(st)))
            eng.ob("text", st.poly.ent_ge(st.g["P"] - N), ins, "every delivered character is the RFC 4648 character of the input",
                   lambda: "proven prefix %r of %r; %s" % (st.poly.norm(st.g["P"]), st.poly.norm(N), eng.describe(st)))
            self.outcome(eng, st, ins, outcomes, None, ("run", r))

    def outcome(self, eng, st, ins, outcomes, ret, status):
        cells = []
        for off, sz in ((0, 4), (4, 4), (8, 4), (12, 1)):
            c = st.mem.get(("STATE", off))
            if c is None or c[0] != sz:
                # assembled from bytes
                cells.append((off, sz, ("u", ("cell", off), sz * 8)))
                continue
            v = c[1]
            w = sz * 8
            if isinstance(v, Num):
                v = eng.simp(st, v)
                if not v.l.t:
                    cells.append((off, sz, ("c", v.l.c % (1 << w), w)))
                else:
                    cells.append((off, sz, ("u", ("num", off), w)))
                continue
            cells.append((off, sz, self.export(eng, st, v, off)))
        key = (ret, status)
        outcomes.setdefault(key, set()).add(tuple(cells))

    def export(self, eng, st, v, off):
        b = v.b
        if bdd.is_const(b):
            return ("c", bdd.value(b), len(b))
        if st.cvn != len(st.poly.eq):
            eng.rebuild_cv(st)
        m = {}
        srcs = set()
        for x in bdd.support(b, CTX.nv):
            base = CTX.base_of(x)
            if base in st.cve:
                stream, l = st.cve[base]
                d = st.poly.norm(l - self.n)
                if d.t or not isinstance(d.c, int):
                    return ("u", ("opaque", off), len(b))
                nb = CTX.var(("IN", stream) + const(d.c).key())
                srcs.add((stream, d.c))
                for i in range(8):
                    m[base + i] = nb + i
            elif CTX.vinfo[base][0][0] == "G":
                pass
            else:
                return ("u", ("opaque", off), len(b))
        b = bdd.permute(b, m, CTX.nv)
        if all(CTX.vinfo[CTX.base_of(x)][0] == ("G", "flags") for x in bdd.support(b, CTX.nv)) and b == CTX.bits(("G", "flags"), 32):
            return ("G", ("flags",), 32)
        return ("f", b, tuple(sorted(srcs)))

    # decoder ----------------------------------------------------------------
    def finish_dec(self, eng, st0, rv, ins, outcomes):
        rv = eng.simp(st0, rv) if isinstance(rv, Num) else rv
        sts = []
        if isinstance(rv, Num) and not rv.l.t:
            sts = [(st0, rv.l.c % (1 << 32))]
        elif isinstance(rv, Bits) and bdd.is_const(rv.b):
            sts = [(st0, bdd.value(rv.b))]
        elif isinstance(rv, Bits) and all(x == 0 for x in rv.b[1:]):
            for t, val in ((rv.b[0], 1), (bdd.not_(rv.b[0]), 0)):
                s = st0.copy()
                for s in eng.assume(s, ("b", t)):
                    sts.append((s, val))
        else:
            eng.ob("verdict", False, ins, "the return value is 0 or 1", repr(rv))
            return
        for st, ret in sts:
            eng.ob("verdict01", ret in (0, 1), ins, "the return value is 0 or 1", str(ret))
            for s, verdict, N, status in self.verdicts(eng, st, ins):
                ol = self.get_outlen(eng, s, ins)
                if s.bad:
                    continue
                if verdict is not None:
                    eng.ob("accept" if verdict == 1 else "reject", ret == verdict, ins,
                           "the block is %s" % ("accepted: it continues a well-formed text" if verdict else "rejected: the text cannot be well-formed"),
                           lambda: "returns %d, must return %d; %s" % (ret, verdict, eng.describe(s)))
                if ol is None:
                    pass
                elif ret == 1:
                    eng.ob("outlen", s.poly.ent_eq(ol - N), ins, "the reported length is the number of bytes this block completes",
                           lambda: "reported %r, expected %r; %s" % (s.poly.norm(ol), s.poly.norm(N), eng.describe(s)))
                    eng.ob("bytes", s.poly.ent_ge(s.g["P"] - N), ins, "every delivered byte is the byte the text represents",
                           lambda: "proven prefix %r of %r; %s" % (s.poly.norm(s.g["P"]), s.poly.norm(N), eng.describe(s)))
                else:
                    eng.ob("outlen-err", s.poly.ent_ge(N - ol) and s.poly.ent_ge(s.g["P"] - ol), ins, "after an error no more bytes are reported than were produced",
                           lambda: "reported %r, produced %r; %s" % (s.poly.norm(ol), s.poly.norm(s.g["P"]), eng.describe(s)))
                if verdict is None:
                    continue
                self.outcome(eng, s, ins, outcomes, ret, status)

    def verdicts(self, eng, st, ins):
        """splits the exit state until the specification is decided: (state, verdict or None, N, next status)"""
        n = self.n
        out = []
        def split(s, c):
            return eng.split(s, c)
        if self.status != "run":
            a, b = split(st, ("eq", n))
            for s in a:
                out.append((s, None, const(0), None))
            for s in b:
                if self.status in ("E", "D"):
                    out.append((s, 0, const(0), "D"))
                    continue
                c = self.byte(eng, s, const(0))
                one, more = split(s, ("eq", n - 1))
                for t in one:
                    y, no = split(t, ("b", is_eq(c)))
                    for u in y:
                        out.append((u, 1, const(0), "E"))
                    for u in no:
                        out.append((u, 0, const(0), "D"))
                for t in more:
                    out.append((t, 0, const(0), "D"))
            return out
        work = [(st, 0)]
        while work:
            s, depth = work.pop()
            V = s.poly.norm(s.g["V"])
            end, rest = split(s, ("ge", V - n))
            for t in end:
                t.poly.add_eq(V - n)
                if t.bad:
                    continue
                for r, u, k in residues(t, n + self.b, 4):
                    out.append((u, 1, k * 3 + (0, 0, 1, 2)[r] - NPEND["dec"][self.b], ("run", r)))
            for t in rest:
                c = self.byte(eng, t, V)
                va, inv = split(t, ("b", valid(c)))
                for u in va:
                    if depth >= 6:
                        out.append((u, 2, const(0), "D"))        # cannot be decided: reported as a failure
                        continue
                    if u.poly.norm(u.g["V"]) == V:
                        u.g["V"] = V + 1
                        self.on_content(eng, u)
                    work.append((u, depth + 1))
                for u in inv:
                    for r, x, k in residues(u, V + self.b, 4):
                        N = k * 3 + (0, 0, 1, 2)[r] - NPEND["dec"][self.b]
                        if r < 2:
                            out.append((x, 0, N, "D")); continue
                        eq, ne = split(x, ("b", is_eq(c)))
                        for y in ne:
                            out.append((y, 0, N, "D"))
                        for y in eq:
                            last, more = split(y, ("eq", n - V - 1))
                            for z in last:
                                out.append((z, 1, N, "E" if r == 3 else "A"))
                            for z in more:
                                if r == 3:
                                    out.append((z, 0, N, "D")); continue
                                two, much = split(z, ("eq", n - V - 2))
                                for q in much:
                                    out.append((q, 0, N, "D"))
                                for q in two:
                                    c2 = self.byte(eng, q, V + 1)
                                    e2, n2 = split(q, ("b", is_eq(c2)))
                                    for w in e2:
                                        out.append((w, 1, N, "E"))
                                    for w in n2:
                                        out.append((w, 0, N, "D"))
        return out


INIT = ("run", 0, ((0, 4, ("c", 0, 32)), (4, 4, ("c", 0, 32)), (8, 4, ("G", ("flags",), 32)), (12, 1, ("c", 0, 8))))


def status_entry(status, cells):
    if isinstance(status, tuple):
        return (status[0], status[1], cells)
    return (status, 0, cells)


def canon_cells(cells):
    """a form of the cells that can be compared between analyses"""
    out = []
    for off, sz, v in cells:
        if v[0] in ("c", "G"):
            out.append((off, sz, v[0], v[1]))
        elif v[0] == "u":
            out.append((off, sz, "u"))
        else:
            sup = bdd.support(v[1], CTX.nv)
            names = []
            for x in sup:
                base = CTX.base_of(x)
                names.append((CTX.vinfo[base][0], x - base))
            order = sorted(range(len(sup)), key=lambda i: str(names[i]))
            if len(sup) > 10:
                out.append((off, sz, "u")); continue
            tt = []
            for k in range(1 << len(sup)):
                val = {}
                for j, i in enumerate(order):
                    val[sup[i]] = (k >> j) & 1
                cube = bdd.conj(bdd.var(x) if b else bdd.not_(bdd.var(x)) for x, b in val.items())
                tt.append(sum((1 << i) for i, n in enumerate(v[1]) if bdd.and_(n, cube) != 0))
            out.append((off, sz, "f", tuple(str(names[i]) for i in order), tuple(tt)))
    return tuple(out)


def canon_table(table, init):
    """(exits, entries): status -> canonical cells"""
    exits, entries = {}, {}
    entries.setdefault(str(("run", 0)), set()).add(canon_cells(init[2]))
    for (s, b), outs in table.items():
        for (ret, status), cs in outs.items():
            for c in cs:
                exits.setdefault(str(status), set()).add(canon_cells(c))
    for k, v in exits.items():
        entries.setdefault(k, set()).update(v)
    return exits, entries


def covered(cells, entries):
    def one(e):
        for a, b in zip(cells, e):
            if b[2] != "u" and a != b:
                return False
        return True
    return any(one(e) for e in entries)


def check_codec(mod, F, mode, name, init=INIT, maxentries=60, rank=False):
    """the analysis, and where it leaves something unproven, again with the rounds of the loops counted (which makes strides visible)"""
    r = check_codec_(mod, F, mode, name, init, maxentries, rank, False)
    if r[0].fail:
        try:
            r2 = check_codec_(mod, F, mode, name, init, maxentries, rank, True)
        except Unsupported:
            return r
        if len(r2[0].fail) < len(r[0].fail):
            return r2
    return r


def check_codec_(mod, F, mode, name, init, maxentries, rank, counters):
    """analyses all calls reachable from the initial stream state.  Returns (report, outcome table, stats)"""
    rep = Report()
    table = {}
    work = [init]
    done = set()
    stats = dict(entries=0, blocks=0, iters=0)
    while work:
        e = work.pop()
        if e in done:
            continue
        done.add(e)
        stats["entries"] += 1
        if len(done) > maxentries:
            rep.ob("states", False, F.name, "the stream state has finitely many forms")
            break
        spec = CodecSpec(mode, name, e)
        eng = Engine(mod, spec, name)
        eng.counters = counters
        exits = eng.run(F, [spec.initial(eng, F)])
        if rank:
            from . import rank as rk
            stats["loops"] = stats.get("loops", 0) + rk.check(eng, F, eng.rep)
        eng.reporting = True
        outs = spec.finish(eng, F, exits)
        for k, v in eng.rep.n.items():
            rep.n[k] = rep.n.get(k, 0) + v
        ctx = "%s, %s" % (name, "phase %d" % e[1] if e[0] == "run" else {"A": "after a first '='", "E": "after the padding", "D": "after an error"}[e[0]])
        for (kind, loc, text), d in eng.rep.fail.items():
            rep.fail.setdefault((kind, loc, text), "[%s] %s" % (ctx, d))
        for (ret, status), cs in outs.items():
            table.setdefault((e[0], e[1]), {}).setdefault((ret, status), set()).update(cs)
            for c in cs:
                if status is None:
                    continue
                if status == "D":
                    c = tuple((o, s, v if v[0] in ("c", "G") else ("u", ("dead", o), s * 8)) for o, s, v in c)
                work.append(status_entry(status, c))
        for k in ("blocks", "iters"):
            stats[k] += eng.stats[k]
    return rep, table, stats
