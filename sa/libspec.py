"""Specification of the library around the codecs (lib.c, codec_choose.c): initialisation and codec choice, the stream
functions, finalisation, and the one-shot functions on top of a codec whose behaviour has been established."""
import re
from . import bdd, build
from .poly import Lin, sym, const
from .codecspec import CodecSpec, residues, alpha, valid, eqv, NPEND
from .engine import Engine, Spec, State, Region, Num, Bits, Ptr, Agg, Unk, UNK, Unsupported, CTX, Report, NULLREG

FN = re.compile(r"^fn:base64_stream_(en|de)code_(\w+)$")
CELLS = ((0, 4), (4, 4), (8, 4), (12, 1))


def globals_of(mod):
    """initial contents of the mutable objects: {(name, off): (size, value)}"""
    eng = Engine.__new__(Engine)
    r = {}
    for n, g in mod.globals.items():
        if g.const or g.init is None:
            continue
        def walk(o, t, off):
            if t.k == "a":
                for i in range(t.n):
                    walk(o[1][i] if o[0] == "cv" else ("z", t.e), t.e, off + i * t.e.size)
            elif t.k == "s":
                for i, e in enumerate(t.els):
                    walk(o[1][i] if o[0] == "cv" else ("z", e), e, off + t.offs[i])
            elif t.k == "p":
                r[(n, off)] = (t.size, Ptr("fn:" + o[1], 0) if o[0] == "f" else Ptr(o[1], o[2]) if o[0] == "g" else Ptr(NULLREG, 0))
            elif t.k == "i":
                r[(n, off)] = (t.store, Num(o[1] if o[0] == "c" else 0, t.w))
        walk(g.init, g.ty, 0)
    return r


def gkey(st, mod):
    """the contents of the mutable globals as a hashable key"""
    out = []
    for (n, off), (sz, v) in sorted(st.mem.items(), key=lambda x: (str(x[0][0]), x[0][1])):
        g = mod.globals.get(n)
        if g is None or g.const:
            continue
        if isinstance(v, Ptr):
            x = ("p", v.reg, v.off.c if hasattr(v.off, "c") else v.off)
        elif isinstance(v, Num) and not st.poly.norm(v.l).t:
            x = ("c", st.poly.norm(v.l).c % (1 << v.w), v.w)
        elif isinstance(v, Bits):
            x = ("b", v.b)
        else:
            x = ("u",)
        out.append((n, off, sz, x))
    return tuple(out)


def gload(st, key, W):
    for n, off, sz, x in key:
        if x[0] == "p":
            v = Ptr(x[1], x[2])
        elif x[0] == "c":
            v = Num(x[1], x[2])
        elif x[0] == "b":
            v = Bits(x[1])
        else:
            continue
        st.mem[(n, off)] = (sz, v)


def gtext(key):
    return ", ".join("%s+%d=%s" % (n, off, x[1] if len(x) > 1 else "?") for n, off, sz, x in key)


# ---- processor features -------------------------------------------------------------------------------------------
def cpuid(leaf, sub, reg):
    return CTX.bits(("G", "cpuid", leaf, sub, reg), 32)


def bit(leaf, reg, n):
    return cpuid(leaf, 0, reg)[n]


def requirement(arch, have, target):
    """condition on the processor under which the codec may be selected unasked"""
    if arch == "plain":
        return 1
    if arch.upper() not in have:
        return 0
    if arch == "neon64":
        return 1 if target.startswith("aarch64") else 0
    if arch == "neon32":
        return 1 if target.startswith("arm") else 0
    xcr = CTX.bits(("G", "xcr", 0), 32)
    ymm = bdd.and_(xcr[1], xcr[2])
    if arch == "avx512":
        return bdd.conj([bit(7, "b", 31), bit(7, "c", 1), ymm, xcr[5], xcr[6], xcr[7], bit(1, "c", 27)])
    if arch == "avx2":
        return bdd.conj([bit(7, "b", 5), ymm, bit(1, "c", 27)])
    if arch == "avx":
        return bdd.conj([bit(1, "c", 28), ymm, bit(1, "c", 27)])
    return {"sse42": bit(1, "c", 20), "sse41": bit(1, "c", 19), "ssse3": bit(1, "c", 9)}.get(arch, 0)


def ult_const(bits, k):
    """bits < k"""
    return bdd.op("ULT", len(bits), bits, bdd.const(k, len(bits)))[0]


class CpuMixin:
    """inline assembly of the library: the processor queries"""
    def asm_call(self, eng, st, ins):
        from . import asm
        _, text, cons, _ = ins.a["callee"]
        outs, inp, clob = asm.parse_cons(cons)
        t = re.sub(r"\s+", " ", text)
        reg = lambda c: re.sub(r"[{}=&]", "", c)
        opv = {}
        for (tied, c), o in zip(inp, ins.ops):
            v = eng.val(st, o, ins)
            r = reg(outs[tied][1]) if tied is not None else reg(c)
            opv[r] = v
        regs = [reg(c) for _, c in outs]
        def cv(r):
            v = opv.get(r)
            if isinstance(v, Num):
                v = eng.simp(st, v)
            return eng.cval(v) if v is not None and not isinstance(v, (Unk, Ptr)) and eng.isconst(v) else None
        if "cpuid" in t:
            leaf = cv("ax"); sub = cv("cx")
            if leaf is None:
                raise Unsupported("cpuid of an unknown leaf at %s" % ins.loc())
            if sub is None:
                sub = 0 if leaf in (0, 1, 0x80000000) else "?"
            self.cpuq = getattr(self, "cpuq", 0) + 1
            base = 0x80000000 if leaf >= 0x80000000 else 0
            if leaf != base:
                bad = bdd.and_(st.pc, ult_const(cpuid(base, 0, "a"), leaf))
                eng.ob("cpuleaf", bad == 0, ins, "CPUID leaf %#x is queried only if the processor has it" % leaf)
            names = {"ax": "a", "bx": "b", "cx": "c", "dx": "d"}
            vals = []
            left = [x for x in ("a", "b", "c", "d") if x not in [names.get(r) for r in regs]]
            for r in regs:
                n = names.get(r)
                if n is None:
                    n = "b"                      # the exchanged register of position independent code
                vals.append(Bits(cpuid(leaf, sub, n)))
        elif "xgetbv" in t:
            idx = cv("cx")
            ok = bdd.implies(st.pc, bit(1, "c", 27))
            eng.ob("cpuleaf", ok, ins, "XGETBV is executed only if the operating system has enabled it (OSXSAVE)")
            names = {"ax": "lo", "dx": "hi"}
            vals = []
            for r in regs:
                if names.get(r) == "lo" and idx is not None:
                    vals.append(Bits(CTX.bits(("G", "xcr", idx), 32)))
                else:
                    vals.append(Bits(CTX.bits(("G", "xcrhi", idx), 32)))
        elif "pushf" in t and not re.search(r"[^%\w](call|int|syscall|in|out)\b", t):
            vals = [eng.unknown_bits((ins.name, "flags", i), 32) for i in range(len(regs))]
        else:
            raise Unsupported("inline assembly %r at %s" % (t[:60], ins.loc()))
        if len(regs) == 1:
            return eng.set(st, ins, vals[0])
        if regs:
            eng.set(st, ins, Agg(vals))


class InitSpec(CpuMixin, Spec):
    """base64_stream_{en,de}code_init from one contents of the library's variables"""
    choose_at_joins = True
    def __init__(self, mod, g, gpc, have, target, forced):
        self.mod, self.g, self.gpc, self.have, self.target, self.forced = mod, g, gpc, have, target, forced
        self.inter = {}

    def attach(self, eng):
        CTX.eng = eng
        eng.regions["STATE"] = Region("STATE", "cells", 16)
        self.flags = CTX.bits(("G", "flags"), 32)
        self.nf = bdd.not_(bdd.disj(self.flags[b] for b in self.forced.values()))

    def initial(self, eng, F):
        st = State()
        for (a, ty, nm), v in zip(F.params, (Ptr("STATE", 0), Bits(self.flags))):
            st.vals[a] = v
        gload(st, self.g, eng.W)
        st.pc = self.gpc
        return st

    def on_cell_store(self, eng, st, r, off, n, v, ins):
        if r.kind != "global":
            return
        eng.ob("shared-write", True, ins, "")
        if off.t:
            return
        vals = [v]
        if isinstance(v, Ptr):
            eng.ob("publish", v.reg != NULLREG, ins, "a codec pointer other threads may be using is never reset")
            m = FN.match(v.reg)
            if m:
                rq = requirement(m.group(2), self.have, self.target)
                eng.ob("usable", bdd.and_(bdd.and_(st.pc, self.nf), bdd.not_(rq)) == 0, ins,
                       "codec %s is selected unasked only if the processor and the system support it" % m.group(2),
                       lambda: "selected although e.g. %s" % model(bdd.and_(bdd.and_(st.pc, self.nf), bdd.not_(rq))))
        if v is not None:
            s = st.copy()
            s.mem[(r.name, off.c)] = (n, v)
            if eng.reporting:
                k = gkey(s, self.mod)
                self.inter[k] = bdd.or_(self.inter.get(k, 0), st.pc)


class OpaqueStream(CodecSpec):
    """base64_stream_{en,de}code: which function do they call, and do they pass everything through?"""
    def __init__(self, mod, dirn, st0):
        self.mod, self.dirn, self.st0 = mod, dirn, st0
        self.calls = []
        self.mode = "enc"; self.b = 0; self.entry = ("run", 0, ()); self.status = "run"

    def attach(self, eng):
        CTX.eng = eng
        R = eng.regions
        R["STATE"] = Region("STATE", "cells", 16)
        R["SRC"] = Region("SRC", "opaque"); R["OUT"] = Region("OUT", "opaque"); R["OUTLEN"] = Region("OUTLEN", "cells", eng.W // 8)
        eng.globals_sym = {"srclen"}

    def initial(self, eng, F):
        st = self.st0.copy()
        st.vals = {}
        st.g = {"calls": 0}
        st.poly.add_ge(sym("srclen")); st.poly.add_ge(const((1 << eng.W) - 1) - sym("srclen"))
        eng.facts = list(st.poly.ge)
        for (a, ty, nm), v in zip(F.params, (Ptr("STATE", 0), Ptr("SRC", 0), Num(sym("srclen"), eng.W), Ptr("OUT", 0), Ptr("OUTLEN", 0))):
            st.vals[a] = v
        for off, sz in CELLS:
            st.mem[("STATE", off)] = (sz, Bits(CTX.bits(("G", "st", off), sz * 8)))
        return st

    def load(self, eng, st, r, off, n, ty, ins):
        eng.ob("pass", False, ins, "the stream functions touch the data only through the codec")
        return eng.havoc(st, ty, ins)

    def store(self, eng, st, r, off, v, ty, ins):
        eng.ob("pass", False, ins, "the stream functions touch the data only through the codec")

    def on_cell_store(self, eng, st, r, off, n, v, ins):
        if r.kind == "global":
            eng.ob("shared", False, ins, "encoding and decoding write no shared data")

    def on_cell_load(self, eng, st, r, off, n, ins): pass
    def partkey(self, st): return st.g.get("calls")
    def content_roots(self, eng, out): return []
    def on_content(self, eng, st): pass
    def assume_ghosts(self, eng, st): pass
    def join_ghosts(self, eng, alls, out): Spec.join_ghosts(self, eng, alls, out)
    def leq_ghosts(self, a, b): return Spec.leq_ghosts(self, a, b)

    def call_indirect(self, eng, st, f, ins):
        ok = isinstance(f, Ptr) and FN.match(f.reg) and f.reg.startswith("fn:base64_stream_%scode_" % self.dirn)
        eng.ob("chosen", bool(ok), ins, "the stream calls %s codec that has been chosen" % ("an encoding" if self.dirn == "en" else "a decoding"),
               lambda: "calls %s; library variables: %s" % (f, gtext(gkey(st, self.mod))))
        name = FN.match(f.reg).group(2) if ok else None
        if eng.reporting:
            self.calls.append((name, st.pc, ins))
        a = [eng.val(st, o, ins) for o in ins.ops]
        same = len(a) == 5 and all(isinstance(x, Ptr) and x.reg == r and st.poly.ent_eq(x.off) for x, r in ((a[0], "STATE"), (a[1], "SRC"), (a[3], "OUT"), (a[4], "OUTLEN"))) \
            and isinstance(a[2], (Num, Bits)) and st.poly.ent_eq(eng.tonum(st, a[2], ins).l - sym("srclen"))
        eng.ob("pass", same, ins, "the codec gets exactly the caller's arguments", lambda: repr(a))
        eng.ob("pass", st.g["calls"] == 0, ins, "the codec is called once")
        eng.ob("pass", all(st.mem.get(("STATE", o), (0, UNK))[1] == Bits(CTX.bits(("G", "st", o), s * 8)) or
                           getattr(st.mem.get(("STATE", o), (0, UNK))[1], "b", None) == CTX.bits(("G", "st", o), s * 8) for o, s in CELLS), ins,
               "the stream state reaches the codec unchanged")
        st.g["calls"] = st.g["calls"] + 1
        for off, sz in CELLS:
            st.mem[("STATE", off)] = (sz, Bits(CTX.bits(("G", "st'", off), sz * 8)))
        st.mem[("OUTLEN", 0)] = (eng.W // 8, Bits(CTX.bits(("G", "outlen'"), eng.W)))
        if ins.ty.k == "i":
            eng.set(st, ins, Bits(CTX.bits(("G", "ret'"), ins.ty.w)))

    def finish(self, eng, F, exits):
        for st, rv, ins in exits:
            if st.g["calls"] == 0:
                # an empty block may be short-cut
                c = st.mem.get(("OUTLEN", 0))
                ok = st.poly.ent_eq(sym("srclen")) and c is not None and eng.isconst(eng.simp(st, c[1])) and eng.cval(eng.simp(st, c[1])) == 0
                if ok and self.dirn == "de":
                    ok = rv is not None and eng.isconst(eng.simp(st, rv)) and eng.cval(eng.simp(st, rv)) == 1
                ok = ok and all(getattr(st.mem.get(("STATE", o), (0, UNK))[1], "b", None) == CTX.bits(("G", "st", o), s * 8) for o, s in CELLS)
                eng.ob("pass", ok, ins, "every non-empty block reaches the codec")
                continue
            b = lambda k: getattr(st.mem.get(k, (0, UNK))[1], "b", None)
            ok = all(b(("STATE", o)) == CTX.bits(("G", "st'", o), s * 8) for o, s in CELLS)
            eng.ob("pass", ok, ins, "the stream state the codec leaves is kept")
            eng.ob("passlen", b(("OUTLEN", 0)) == CTX.bits(("G", "outlen'"), eng.W), ins, "the output length the codec reports is returned")
            if self.dirn == "de":
                eng.ob("passret", getattr(rv, "b", None) == CTX.bits(("G", "ret'"), 32), ins, "the codec's verdict is returned")


def model(n):
    m = bdd.sat(n, CTX.nv) or {}
    out = []
    for v, x in sorted(m.items()):
        k, w = CTX.vinfo[CTX.base_of(v)]
        out.append("%s[%d]=%d" % (".".join(str(i) for i in k[1:]), v - CTX.base_of(v), x))
    return " ".join(out[:12])


def force_bits():
    """{codec: bit number} of the BASE64_FORCE_* flags of the public header"""
    import subprocess
    hdr = open(build.REPO + "/include/libbase64.h").read()
    names = re.findall(r"#\s*define\s+BASE64_FORCE_(\w+)", hdr)
    src = '#include "%s/include/libbase64.h"\n' % build.REPO + "".join("int v_%s = BASE64_FORCE_%s;\n" % (n, n) for n in names)
    p = subprocess.run([build.CLANG, "-x", "c", "-", "-S", "-emit-llvm", "-o", "-"], input=src, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if p.returncode:
        raise build.BuildError("cannot read the flags: " + p.stderr[:500])
    vals = {a.lower(): int(b) for a, b in re.findall(r"@v_(\w+) = .*global i32 (-?\d+)", p.stdout)}
    out = {}
    for n, v in vals.items():
        if v <= 0 or v & (v - 1):
            raise build.BuildError("flag BASE64_FORCE_%s is not a single bit" % n.upper())
        out[n] = v.bit_length() - 1
    if len(set(out.values())) != len(out) or len(out) < 9:
        raise build.BuildError("the BASE64_FORCE flags are not distinct bits")
    return out


def check_choice(mod, have, target, name):
    """initialisation and choice of the codec, from every reachable contents of the library's variables"""
    rep = Report()
    forced = force_bits()
    st = State()
    for k, v in globals_of(mod).items():
        st.mem[k] = v
    g0 = gkey(st, mod)
    reach = {g0: 1}
    work = [g0]
    stats = dict(contents=0, paths=0, streams=0, codecs=set())
    keepv = lambda: [v + i for v, (k, w) in CTX.vinfo.items() if k[0] == "G" and k[1] in ("cpuid", "xcr", "xcrhi") for i in range(w)]
    direct = {}
    def merge(eng, ctx):
        for k, v in eng.rep.n.items():
            rep.n[k] = rep.n.get(k, 0) + v
        for k, d in eng.rep.fail.items():
            rep.fail.setdefault(k, "[%s] %s" % (ctx, d))
    memo = {}
    def stream(dirn, st, k, ctx):
        simple = all(x[3][0] in "pc" for x in k)
        if simple and (dirn, k) in memo:
            return memo[(dirn, k)]
        sp = OpaqueStream(mod, dirn, st)
        e = Engine(mod, sp, name)
        F = mod.functions["base64_stream_%scode" % dirn]
        ex = e.run(F, [sp.initial(e, F)])
        e.reporting = True
        sp.finish(e, F, ex)
        merge(e, ctx)
        stats["streams"] += 1
        if simple:
            memo[(dirn, k)] = sp.calls
        return sp.calls
    n = 0
    while work:
        g = work.pop()
        n += 1
        if n > 200:
            raise Unsupported("too many contents of the library's variables")
        stats["contents"] = len(reach)
        for dirn in ("en", "de"):
            F = mod.functions["base64_stream_%scode_init" % dirn]
            sp = InitSpec(mod, g, reach[g], have, target, forced)
            eng = Engine(mod, sp, name)
            exits = eng.run(F, [sp.initial(eng, F)])
            eng.reporting = True
            new = dict(sp.inter)
            if not exits:
                eng.ob("init", False, F.name, "initialisation returns")
            for st, rv, ins in exits:
                stats["paths"] += 1
                for (off, sz), want in zip(CELLS, (0, 0, None, 0)):
                    c = st.mem.get(("STATE", off))
                    ok = c is not None and c[0] == sz
                    if ok:
                        v = c[1]
                        if want is None:
                            # the flags word, or that word under the path condition
                            b = eng.tobits(st, v, ins).b
                            ok = all(bdd.and_(st.pc, bdd.xor(x, y)) == 0 for x, y in zip(b, sp.flags))
                        else:
                            ok = eng.isconst(eng.simp(st, v)) and eng.cval(eng.simp(st, v)) == want
                    eng.ob("init", ok, ins, "initialisation sets the stream state's field at offset %d to %s" % (off, "the flags" if want is None else want))
                k = gkey(st, mod)
                new[k] = bdd.or_(new.get(k, 0), st.pc)
                kept = k == g
                s2 = State()
                s2.pc = 1 if all(x[3][0] in "pc" for x in k) else st.pc
                gload(s2, k, eng.W)
                ctx = "%s, library variables before: %s" % (F.name, gtext(g))
                for arch, pc, cins in stream(dirn, s2, k, ctx):
                    if arch is None:
                        continue
                    pc = bdd.and_(pc, st.pc)
                    stats["codecs"].add(arch)
                    for f, b in forced.items():
                        one = bdd.and_(pc, bdd.conj([sp.flags[b]] + [bdd.not_(sp.flags[x]) for x in forced.values() if x != b]))
                        if one != 0:
                            eng.ob("forced", arch == f, ins, "%scoding with BASE64_FORCE_%s uses codec %s" % (dirn, f.upper(), f), "uses %s; %s" % (arch, ctx))
                    un = bdd.and_(pc, sp.nf)
                    if un != 0 and not kept:
                        rq = requirement(arch, have, target)
                        x = bdd.and_(un, bdd.not_(rq))
                        eng.ob("usable", x == 0, ins, "%scoding selects codec %s unasked only if the processor and the system support it" % (dirn, arch),
                               lambda: "selected although %s; %s" % (model(x), ctx))
            merge(eng, F.name)
            for k, pc in new.items():
                if any(x[3][0] == "u" for x in k):
                    raise Unsupported("contents of a library variable not tracked: " + gtext(k))
                pc = bdd.keep(pc, keepv(), CTX.nv)
                old = reach.get(k, 0)
                p2 = bdd.or_(old, pc)
                if p2 != old:
                    reach[k] = p2
                    if k not in work:
                        work.append(k)
    stats["contents"] = len(reach)
    stats["codecs"] = sorted(stats["codecs"])
    return rep, stats, reach


# ---- finalisation and one-shot functions on top of an established codec ---------------------------------------------
class TextSpec(CpuMixin, CodecSpec):
    """encoding including finalisation: n input bytes in all (b of them in earlier blocks), padded text"""
    def __init__(self, name, entry, table, have, total):
        CodecSpec.__init__(self, "enc", name, entry)
        self.table, self.have, self.total = table, have, total

    def attach(self, eng):
        CodecSpec.attach(self, eng)
        if not self.total:
            self.n = const(0)
            eng.regions["SRC"] = Region("SRC", "content", None)
        self.m = sym("m") if self.total else const(1 if self.b else 0)

    def start(self, eng, F, args, mem=()):
        st = State()
        p = st.poly
        if self.total:
            n, m = self.n, self.m
            p.add_ge(n); p.add_ge(const((1 << (eng.W - 1)) - 1) - n * 2)
            p.add_ge(m * 3 - n); p.add_ge(n + 2 - m * 3)
        eng.facts = list(p.ge)
        for (a, ty, nm), v in zip(F.params, args):
            st.vals[a] = v
        st.g["P"] = const(0); st.g["pend"] = (); st.g["calls"] = 0; st.g["stub"] = 0
        for off, sz, v in self.entry[2]:
            st.mem[("STATE", off)] = (sz, self.cellvalue(eng, st, v))
        gload(st, mem, eng.W)
        return st

    def on_cell_store(self, eng, st, r, off, n, v, ins):
        if r.kind == "global" and not self.total:
            eng.ob("shared", False, ins, "finalising writes no shared data")

    def on_cell_load(self, eng, st, r, off, n, ins):
        pass

    def bound_ok(self, st, end):
        return st.poly.ent_ge(self.m * 4 - end - self.b)

    def present(self, st, l):
        if st.poly.ent_ge(self.n - 1 - l):
            return True
        if st.poly.ent_ge(l - self.n):
            return False
        return None

    def expected(self, eng, st, r, k, j):
        g, q = divmod(r + j, 4)
        base = (k + g) * 3 - self.b
        pr = [self.present(st, base + i) for i in range(3)]
        B = lambda i: self.byte(eng, st, base + i) if pr[i] else (0,) * 8
        bad = ((CTX.bits(("U", "nochar"), 8)), 1)
        EQ = bdd.const(0x3D, 8)
        if not pr[0]:
            return bad
        if q == 0:
            return alpha(B(0)[2:8]), 1
        if q == 1:
            return (alpha(B(1)[4:8] + B(0)[0:2]), 1) if pr[1] is not None else bad
        if q == 2:
            if pr[1] is None:
                return bad
            return (alpha(B(2)[6:8] + B(1)[0:4]), 1) if pr[1] and pr[2] is not None else (EQ, 1) if not pr[1] else bad
        if pr[2] is None:
            return bad
        return (alpha(B(2)[0:6]) if pr[2] else EQ), 1

    def partkey(self, st):
        return (st.g.get("calls"), st.g.get("stub"))

    def join_ghosts(self, eng, alls, out):
        out.g["pend"] = ()
        for k in ("calls", "stub"):
            out.g[k] = alls[0].g.get(k)

    def call_indirect(self, eng, st, f, ins):
        m = FN.match(f.reg) if isinstance(f, Ptr) else None
        eng.ob("chosen", bool(m) and m.group(1) == "en", ins, "encoding calls an encoding codec that has been chosen", lambda: "calls %s" % f)
        if not m or m.group(1) != "en":
            return []
        a = [eng.val(st, o, ins) for o in ins.ops]
        good = len(a) == 5 and isinstance(a[0], Ptr) and not a[0].off.t and isinstance(a[4], Ptr) and not st.poly.norm(a[4].off).t
        if not good:
            raise Unsupported("codec arguments at %s" % ins.loc())
        same = isinstance(a[1], Ptr) and a[1].reg == "SRC" and st.poly.ent_eq(a[1].off) and isinstance(a[3], Ptr) and a[3].reg == "OUT" and st.poly.ent_eq(a[3].off) \
            and isinstance(a[2], (Num, Bits)) and st.poly.ent_eq(eng.tonum(st, a[2], ins).l - self.n)
        eng.ob("pass", same and st.g["calls"] == 0, ins, "the codec gets the whole input and the whole output exactly once", lambda: repr(a[1:4]))
        s0 = a[0].reg; so = a[0].off.c
        self.need_init(eng, st, s0, so, ins)
        st.g["calls"] = 1
        o = (a[4].reg, st.poly.norm(a[4].off).c)
        if m.group(2) not in self.have and m.group(2) != "plain":
            st.g["stub"] = 1
            st.mem[o] = (eng.W // 8, Num(0, eng.W))
            return [st]
        res = []
        for (ret, status), cs in self.table.get(("run", 0), {}).items():
            r = status[1]
            for rr, s, k in residues(st, self.n, 3):
                if rr != r:
                    continue
                for cells in cs:
                    t = s.copy()
                    N = k * 4 + r
                    t.g["P"] = N
                    t.mem[o] = (eng.W // 8, Num(N, eng.W))
                    self.setstate(eng, t, s0, so, cells)
                    res.append(t)
        return res

    def need_init(self, eng, st, reg, so, ins):
        for off, sz in ((0, 4), (4, 4), (12, 1)):
            c = st.mem.get((reg, so + off))
            ok = c is not None and c[0] == sz and isinstance(c[1], (Num, Bits)) and eng.isconst(eng.simp(st, c[1])) and eng.cval(eng.simp(st, c[1])) == 0
            eng.ob("init", ok, ins, "the codec starts from an initialised stream state (field at offset %d)" % off)

    def setstate(self, eng, st, reg, so, cells):
        for off, sz, v in cells:
            if v[0] == "f":
                m = {}
                for stream, idx in v[2]:
                    src = CTX.var(("IN", stream) + const(idx).key())
                    b = eng.in_byte(st, stream, self.n + idx)
                    d = CTX.nv
                    base = bdd.top(b[0])
                    for i in range(8):
                        m[src + i] = base + i
                x = Bits(bdd.permute(v[1], m, CTX.nv))
            else:
                x = self.cellvalue(eng, st, v)
            st.mem[(reg, so + off)] = (sz, x)

    def finish(self, eng, F, exits):
        for st, rv, ins in exits:
            ol = self.get_outlen(eng, st, ins)
            if st.bad:
                continue
            if st.g["stub"]:
                if ol is not None:
                    eng.ob("outlen", st.poly.ent_eq(ol), ins, "a codec that is not compiled in delivers nothing", lambda: repr(st.poly.norm(ol)))
                continue
            N = self.m * 4 - self.b if self.total or self.b else const(0)
            if self.total:
                eng.ob("pass", st.g["calls"] == 1, ins, "the input reaches the codec")
            if ol is not None:
                eng.ob("outlen", st.poly.ent_eq(ol - N), ins, "the reported length is the number of characters delivered",
                       lambda: "reported %r, expected %r; %s" % (st.poly.norm(ol), st.poly.norm(N), eng.describe(st)))
            eng.ob("text", st.poly.ent_ge(st.g["P"] - N), ins, "every delivered character is the RFC 4648 character of the input, with its padding",
                   lambda: "proven prefix %r of %r; %s" % (st.poly.norm(st.g["P"]), st.poly.norm(N), eng.describe(st)))


class OneShotDec(TextSpec):
    def __init__(self, name, entry, table, have):
        CodecSpec.__init__(self, "dec", name, entry)
        self.table, self.have, self.total = table, have, True

    def attach(self, eng):
        CodecSpec.attach(self, eng)
        self.m = sym("m")

    def start(self, eng, F, args, mem=()):
        st = State()
        st.poly.add_ge(self.n); st.poly.add_ge(const((1 << (eng.W - 1)) - 1) - self.n)
        eng.facts = list(st.poly.ge)
        for (a, ty, nm), v in zip(F.params, args):
            st.vals[a] = v
        st.g.update(P=const(0), V=const(0), pend=(), calls=0, stub=0, out=None)
        gload(st, mem, eng.W)
        return st

    bound_ok = CodecSpec.bound_ok
    def expected(self, eng, st, r, k, j):
        return CodecSpec.expected(self, eng, st, r, k, j)

    def partkey(self, st):
        return (st.g.get("calls"), st.g.get("stub"), str(st.g.get("out")))

    def join_ghosts(self, eng, alls, out):
        TextSpec.join_ghosts(self, eng, alls, out)
        out.g["out"] = alls[0].g.get("out")

    def call_indirect(self, eng, st, f, ins):
        m = FN.match(f.reg) if isinstance(f, Ptr) else None
        eng.ob("chosen", bool(m) and m.group(1) == "de", ins, "decoding calls a decoding codec that has been chosen", lambda: "calls %s" % f)
        if not m or m.group(1) != "de":
            return []
        a = [eng.val(st, o, ins) for o in ins.ops]
        good = len(a) == 5 and isinstance(a[0], Ptr) and not a[0].off.t and isinstance(a[4], Ptr) and not st.poly.norm(a[4].off).t
        if not good:
            raise Unsupported("codec arguments at %s" % ins.loc())
        same = isinstance(a[1], Ptr) and a[1].reg == "SRC" and st.poly.ent_eq(a[1].off) and isinstance(a[3], Ptr) and a[3].reg == "OUT" and st.poly.ent_eq(a[3].off) \
            and isinstance(a[2], (Num, Bits)) and st.poly.ent_eq(eng.tonum(st, a[2], ins).l - self.n)
        eng.ob("pass", same and st.g["calls"] == 0, ins, "the codec gets the whole input and the whole output exactly once", lambda: repr(a[1:4]))
        s0 = a[0].reg; so = a[0].off.c
        self.need_init(eng, st, s0, so, ins)
        st.g["calls"] = 1
        o = (a[4].reg, st.poly.norm(a[4].off).c)
        if m.group(2) not in self.have and m.group(2) != "plain":
            st.g["stub"] = 1
            st.g["out"] = ("stub",)
            st.mem[o] = (eng.W // 8, Num(0, eng.W))
            eng.set(st, ins, Num((1 << ins.ty.w) - 1, ins.ty.w))
            return [st]
        res = []
        for (ret, status), cs in self.table.get(("run", 0), {}).items():
            for cells in cs:
                t = st.copy()
                N = eng.fresh(t, "N", 0)
                t.poly.add_ge(self.n * 3 - N * 4)
                if isinstance(status, tuple):
                    ss = [(s, k) for rr, s, k in residues(t, self.n, 4) if rr == status[1]]
                    for s, k in ss:
                        s.poly.add_eq(N - k * 3 - (0, 0, 1, 2)[status[1]])
                    ss = [s for s, k in ss]
                else:
                    t.poly.add_ge(self.n - 1)
                    ss = [t]
                for s in ss:
                    if s.bad:
                        continue
                    s.g["P"] = N; s.g["V"] = const(0)
                    s.g["out"] = (ret, status)
                    s.mem[o] = (eng.W // 8, Num(N, eng.W))
                    s.g["N"] = N
                    self.setstate(eng, s, s0, so, cells)
                    eng.set(s, ins, Num(ret, ins.ty.w))
                    res.append(s)
        return res

    def finish(self, eng, F, exits):
        for st, rv, ins in exits:
            ol = self.get_outlen(eng, st, ins)
            if st.bad:
                continue
            rv = eng.simp(st, rv)
            if not eng.isconst(rv):
                eng.ob("verdict01", False, ins, "the return value is -1, 0 or 1", repr(rv))
                continue
            ret = eng.cval(rv)
            out = st.g["out"]
            if st.g["stub"]:
                eng.ob("stubret", ret == (1 << rv.w) - 1 if isinstance(rv, Num) else ret == 0xffffffff, ins, "decoding with a codec that is not compiled in returns -1", str(ret))
                if ol is not None:
                    eng.ob("outlen", st.poly.ent_eq(ol), ins, "a codec that is not compiled in delivers nothing", lambda: repr(st.poly.norm(ol)))
                continue
            if out is None:
                ok = st.poly.ent_eq(self.n)
                eng.ob("pass", ok, ins, "the input reaches the codec")
                want, N = 1, const(0)
            else:
                want = 1 if out[0] == 1 and out[1] in (("run", 0), "E") else 0
                N = st.g["N"]
            eng.ob("accept" if want else "reject", ret == want, ins, "decoding a whole text %s" % ("accepts it: it is well-formed" if want else "rejects it: it is not well-formed"),
                   lambda: "returns %d after the codec returned %s with the stream %s" % (ret, out and out[0], out and out[1]))
            if ol is None:
                continue
            if ret == 1:
                eng.ob("outlen", st.poly.ent_eq(ol - N), ins, "the reported length is the number of bytes delivered", lambda: "%r of %r" % (st.poly.norm(ol), N))
                eng.ob("bytes", st.poly.ent_ge(st.g["P"] - N), ins, "every delivered byte is the byte the text represents")
            else:
                eng.ob("outlen-err", st.poly.ent_ge(N - ol), ins, "after an error no more bytes are reported than were produced", lambda: "%r of %r" % (st.poly.norm(ol), N))


class StubSpec(CodecSpec):
    """a codec that is not compiled in"""
    def __init__(self, mode, name):
        CodecSpec.__init__(self, mode, name, ("run", 0, ()))
    def load(self, eng, st, r, off, n, ty, ins):
        eng.ob("stub", False, ins, "a codec that is not compiled in leaves the data alone")
        return eng.havoc(st, ty, ins)
    def store(self, eng, st, r, off, v, ty, ins):
        eng.ob("stub", False, ins, "a codec that is not compiled in leaves the data alone")
    def on_cell_store(self, eng, st, r, off, n, v, ins):
        if r.name != "OUTLEN" and not r.name.startswith("alloca"):
            eng.ob("stub", False, ins, "a codec that is not compiled in leaves the stream alone")
    def finish(self, eng, F, exits):
        eng.ob("stub", bool(exits), F.name, "the function returns")
        for st, rv, ins in exits:
            ol = self.get_outlen(eng, st, ins)
            if ol is not None:
                eng.ob("outlen", st.poly.ent_eq(ol), ins, "a codec that is not compiled in delivers nothing", lambda: repr(ol))
            if self.mode == "dec":
                ok = rv is not None and eng.isconst(eng.simp(st, rv)) and eng.cval(eng.simp(st, rv)) == 0xffffffff
                eng.ob("stubret", ok, ins, "decoding with a codec that is not compiled in returns -1", repr(rv))


def check_stub(mod, F, mode, name):
    rep = Report()
    sp = StubSpec(mode, name)
    e = Engine(mod, sp, name)
    ex = e.run(F, [sp.initial(e, F)])
    e.reporting = True
    sp.finish(e, F, ex)
    rep.n.update(e.rep.n)
    for k, d in e.rep.fail.items():
        rep.fail[k] = "[%s, not compiled in] %s" % (name, d)
    return rep


def patterns(mod, have, target, name):
    """representative contents of the library's variables: before any call, half chosen, chosen"""
    st = State()
    for k, v in globals_of(mod).items():
        st.mem[k] = v
    g0 = gkey(st, mod)
    seen = {}
    def pat(g):
        return tuple((n, off, x[0], x[0] == "p" and x[1] == NULLREG) for n, off, sz, x in g)
    forced = force_bits()
    work = [g0]
    while work:
        g = work.pop()
        if pat(g) in seen:
            continue
        seen[pat(g)] = g
        for dirn in ("en", "de"):
            F = mod.functions["base64_stream_%scode_init" % dirn]
            sp = InitSpec(mod, g, 1, have, target, forced)
            eng = Engine(mod, sp, name)
            ex = eng.run(F, [sp.initial(eng, F)])
            for k in list(sp.inter) + [gkey(s, mod) for s, _, _ in ex]:
                if pat(k) not in seen:
                    work.append(k)
    return list(seen.values())


def check_above(mod, mode, table, have, target, name):
    """finalisation and one-shot functions above one codec, given its table of outcomes"""
    rep = Report()
    hv = {h.lower() for h in have}
    def go(sp, fn, args, mem, ctx):
        F = mod.functions[fn]
        e = Engine(mod, sp, name)
        ex = e.run(F, [sp.start(e, F, args(e), mem)])
        e.reporting = True
        if not ex:
            e.ob("pass", False, fn, "the function returns")
        sp.finish(e, F, ex)
        for k, v in e.rep.n.items():
            rep.n[k] = rep.n.get(k, 0) + v
        for k, d in e.rep.fail.items():
            rep.fail.setdefault(k, "[%s, %s] %s" % (name, ctx, d))
    W = mod.ptrbits
    if mode == "enc":
        for src, outs in table.items():
            for (ret, status), cs in outs.items():
                for cells in sorted(cs, key=str):
                    sp = TextSpec(name, ("run", status[1], cells), table, hv, False)
                    go(sp, "base64_stream_encode_final", lambda e: (Ptr("STATE", 0), Ptr("OUT", 0), Ptr("OUTLEN", 0)), (), "finalising with %d pending" % status[1])
    for g in patterns(mod, have, target, name):
        fl = lambda: Bits(CTX.bits(("G", "flags"), 32))
        entry = ("run", 0, ())
        if mode == "enc":
            sp = TextSpec(name, entry, table, hv, True)
        else:
            sp = OneShotDec(name, entry, table, hv)
        go(sp, "base64_%scode" % mode[:2], lambda e: (Ptr("SRC", 0), Num(sym("srclen"), W), Ptr("OUT", 0), Ptr("OUTLEN", 0), fl()), g, "one-shot; library variables %s" % gtext(g))
    return rep
