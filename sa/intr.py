"""Transfer functions of the LLVM intrinsics (including target SIMD intrinsics) on the bit-level domain."""
import re
from . import bdd
from .poly import Lin, const
from .llvmir import Ty


def ity(w):
    from .engine import _ity
    return _ity(w)


_vtys = {}


def pty(n):
    t = Ty(); t.k = "p"; t.size = t.store = n
    return t


def vty(n, w):
    k = (n, w)
    if k not in _vtys:
        t = Ty(); t.k = "v"; t.n = n; t.e = ity(w); t.w = n * w; t.store = t.size = n * w // 8; t.els = None; t.offs = None
        _vtys[k] = t
    return _vtys[k]


def els(b, w):
    return [b[i:i + w] for i in range(0, len(b), w)]


def cat(l):
    r = []
    for x in l:
        r.extend(x)
    return tuple(r)


def sext(e, w):
    return tuple(e) + (e[-1],) * (w - len(e))


def zext(e, w):
    return tuple(e) + (0,) * (w - len(e))


def mulc(w, x, y):
    if bdd.is_const(x) and not bdd.is_const(y):
        x, y = y, x
    return bdd.op("MUL", w, x, y)


def add(w, x, y):
    return bdd.op("ADD", w, x, y)


def satu(x, w):
    """signed wide value saturated to unsigned w bits"""
    neg = x[-1]
    big = bdd.and_(bdd.not_(neg), bdd.disj(x[w:-1]))
    r = bdd.vite(w, (big,), (1,) * w, tuple(x[:w]))
    return bdd.vite(w, (neg,), (0,) * w, r)


def sats(x, w):
    """signed wide value saturated to signed w bits"""
    neg = x[-1]
    hi = x[w - 1:-1]
    over = bdd.and_(bdd.not_(neg), bdd.disj(hi))
    under = bdd.and_(neg, bdd.not_(bdd.conj(hi)))
    mx = (1,) * (w - 1) + (0,)
    mn = (0,) * (w - 1) + (1,)
    r = bdd.vite(w, (over,), mx, tuple(x[:w]))
    return bdd.vite(w, (under,), mn, r)


def tbl(tab, w, idx, dflt=0):
    """tab: list of elements; idx: tuple of node bits"""
    if bdd.is_const(idx):
        i = bdd.value(idx)
        return tab[i] if i < len(tab) else (dflt,) * w
    return bdd.mux(cat(tab), w, idx, dflt)


def pshufb(a, m):
    out = []
    for lane in range(0, len(a), 128):
        t = els(a[lane:lane + 128], 8)
        for x in els(m[lane:lane + 128], 8):
            z = x[7]
            if z == 1:
                out.append((0,) * 8); continue
            r = tbl(t, 8, x[:4])
            if z != 0:
                r = bdd.vite(8, (z,), (0,) * 8, r)
            out.append(r)
    return cat(out)


def ntbl(tabs, idx, dflt):
    """ARM table lookup: index out of range gives dflt (vector) or zero"""
    t = cat(tabs)
    te = els(t, 8)
    out = []
    de = els(dflt, 8) if dflt is not None else None
    n = len(te)
    assert n & (n - 1) == 0 or True
    for k, x in enumerate(els(idx, 8)):
        d = de[k] if de else (0,) * 8
        if bdd.is_const(x):
            i = bdd.value(x)
            out.append(te[i] if i < n else d)
            continue
        r = bdd.mux(cat(te), 8, x, 0)
        inr = bdd.op("ULT", 8, x, bdd.const(n, 8))[0] if n < 256 else 1
        out.append(bdd.vite(8, (inr,), r, d))
    return cat(out)


def shiftel(op, e, k):
    w = len(e)
    if k >= w:
        return (e[-1],) * w if op == "sra" else (0,) * w
    if op == "sll":
        return (0,) * k + tuple(e[:w - k])
    return tuple(e[k:]) + ((e[-1],) * k if op == "sra" else (0,) * k)


def pmaddwd(a, b):
    out = []
    x, y = els(a, 16), els(b, 16)
    for i in range(0, len(x), 2):
        p = mulc(32, sext(x[i], 32), sext(y[i], 32)); q = mulc(32, sext(x[i + 1], 32), sext(y[i + 1], 32))
        out.append(add(32, p, q))
    return cat(out)


def pmaddubsw(a, b):
    out = []
    x, y = els(a, 8), els(b, 8)
    for i in range(0, len(x), 2):
        p = mulc(20, zext(x[i], 20), sext(y[i], 20)); q = mulc(20, zext(x[i + 1], 20), sext(y[i + 1], 20))
        out.append(sats(add(20, p, q), 16))
    return cat(out)


def call(eng, st, nm, ins):
    from .engine import Bits, Num, Ptr, Agg, Unk, Unsupported
    ops = ins.ops

    def V(i):
        return eng.tobits(st, eng.val(st, ops[i], ins), ins, "ic%d" % i).b

    def C(i):
        v = eng.val(st, ops[i], ins)
        if isinstance(v, Num):
            v = eng.simp(st, v)
        if not isinstance(v, (Num, Bits)) or not eng.isconst(v):
            raise Unsupported("%s with a variable operand at %s" % (nm, ins.loc()))
        return eng.cval(v)

    def R(b):
        eng.set(st, ins, Bits(tuple(b)))

    base = nm[5:]
    if base.startswith(("lifetime.", "dbg.", "assume", "experimental.noalias", "donothing", "prefetch", "invariant.", "stacksave", "stackrestore")):
        if ins.ty is not None and ins.ty.k != "void" and ins.ty.k in "p":
            eng.set(st, ins, Unk())
        return
    if base.startswith("expect"):
        return eng.set(st, ins, eng.val(st, ops[0], ins))
    if base.startswith("objectsize"):
        return eng.set(st, ins, Num(-1, ins.ty.w))
    if base.startswith("is.constant"):
        return eng.set(st, ins, Bits((0,)))
    if base.startswith(("memcpy.", "memmove.")):
        return memcpy(eng, st, ins)
    if base.startswith("memset."):
        return memset(eng, st, ins)
    if base.startswith("bswap"):
        v = eng.val(st, ops[0], ins)
        b = eng.tobits(st, v, ins).b
        w = ins.ty.e.w if ins.ty.k == "v" else ins.ty.w
        return R(cat(cat(els(e, 8)[::-1]) for e in els(b, w)))
    if base.startswith("bitreverse"):
        b = V(0); w = ins.ty.e.w if ins.ty.k == "v" else ins.ty.w
        return R(cat(e[::-1] for e in els(b, w)))
    m = re.match(r"(umin|umax|smin|smax|uadd\.sat|usub\.sat|sadd\.sat|ssub\.sat|abs|fshl|fshr|ctpop|ctlz|cttz)\.", base)
    if m:
        return generic(eng, st, m.group(1), ins, V, C, R)
    m = re.match(r"vector\.reduce\.(or|and|add|umax|umin|xor)\.", base)
    if m:
        w = ins.ty.w
        e = els(V(0), w); op = m.group(1)
        r = e[0]
        for x in e[1:]:
            r = bdd.op(op.upper(), w, r, x)
        return R(r)
    m = re.match(r"(u|s)(add|sub|mul)\.with\.overflow\.i(\d+)", base)
    if m:
        return overflow(eng, st, m, ins)
    if base.startswith("x86."):
        return x86(eng, st, base[4:], ins, V, C, R)
    if base.startswith("aarch64.neon."):
        return neon(eng, st, base[13:], ins, V, C, R, True)
    if base.startswith("arm.neon."):
        return neon(eng, st, base[9:], ins, V, C, R, False)
    raise Unsupported("intrinsic %s at %s" % (nm, ins.loc()))


def overflow(eng, st, m, ins):
    from .engine import Num, Agg, Unsupported, cnot, cand
    sg, op, w = m.group(1), m.group(2), int(m.group(3))
    a = eng.val(st, ins.ops[0], ins); b = eng.val(st, ins.ops[1], ins)
    a = eng.tonum(st, a, ins, "oa"); b = eng.tonum(st, b, ins, "ob")
    x = eng.canon(st, a, ins, sg == "s"); y = eng.canon(st, b, ins, sg == "s")
    if op == "add":
        r = x + y
    elif op == "sub":
        r = x - y
    elif not y.t:
        r = x * y.c
    elif not x.t:
        r = y * x.c
    else:
        raise Unsupported("non-linear overflow check")
    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg == "s" else (0, (1 << w) - 1)
    c = cand(("ge", r - lo), ("ge", -r + hi))
    out = []
    t, f = eng.split(st, c)
    for s in t:
        eng.set(s, ins, Agg([Num(r, w), Num(0, 1)])); out.append(s)
    for s in f:
        eng.set(s, ins, Agg([Num(r, w), Num(1, 1)])); out.append(s)
    return out


def generic(eng, st, op, ins, V, C, R):
    from .engine import Num, Bits, Unsupported
    w = ins.ty.e.w if ins.ty.k == "v" else ins.ty.w
    if ins.ty.k == "i":
        a = eng.val(st, ins.ops[0], ins)
        if op in ("umin", "umax", "smin", "smax"):
            b = eng.val(st, ins.ops[1], ins)
            if not (isinstance(a, Bits) and isinstance(b, Bits)):
                c = eng.cond(eng.icmp(st, "ult" if op[0] == "u" else "slt", a, b, ins.ty, ins))
                t, f = eng.split(st, c)
                lo, hi = (a, b) if op[1:] == "min" else (b, a)
                for s in t:
                    eng.set(s, ins, lo)
                for s in f:
                    eng.set(s, ins, hi)
                return t + f
        if op == "usub.sat" and isinstance(a, Num) and eng.simp(st, a).l.t:
            b = eng.val(st, ins.ops[1], ins)
            t, f = eng.split(st, eng.cond(eng.icmp(st, "uge", a, b, ins.ty, ins)))
            for s in t:
                eng.set(s, ins, Num(a.l - eng.tonum(s, b, ins).l, w))
            for s in f:
                eng.set(s, ins, Num(0, w))
            return t + f
    x = els(V(0), w)
    if op in ("fshl", "fshr"):
        y = els(V(1), w); k = C(2) if ins.ty.k == "i" else None
        if k is None:
            raise Unsupported("vector funnel shift")
        k %= w
        out = []
        for p, q in zip(x, y):
            z = tuple(q) + tuple(p)
            out.append(z[w - k:2 * w - k] if op == "fshl" else z[k:k + w])
        return R(cat(out))
    if op == "abs":
        return R(cat(bdd.vite(w, (e[-1],), bdd.op("SUB", w, (0,) * w, e), e) for e in x))
    if op == "ctpop":
        out = []
        for e in x:
            s = (0,) * w
            for b in e:
                s = add(w, s, (b,) + (0,) * (w - 1))
            out.append(s)
        return R(cat(out))
    if op in ("ctlz", "cttz"):
        out = []
        for e in x:
            r = bdd.const(w, w)
            seq = list(range(w))
            # result is decided by the first set bit
            order = seq if op == "ctlz" else seq[::-1]
            for i in order:
                pos = (w - 1 - i) if op == "ctlz" else i
                r = bdd.vite(w, (e[i],), bdd.const(pos, w), r)
            out.append(r)
        return R(cat(out))
    y = els(V(1), w)
    out = []
    for p, q in zip(x, y):
        if op in ("umin", "umax"):
            c = bdd.op("ULT", w, p, q)
            out.append(bdd.vite(w, c, p, q) if op == "umin" else bdd.vite(w, c, q, p))
        elif op in ("smin", "smax"):
            c = bdd.op("SLT", w, p, q)
            out.append(bdd.vite(w, c, p, q) if op == "smin" else bdd.vite(w, c, q, p))
        elif op == "usub.sat":
            out.append(bdd.op("USUBSAT", w, p, q))
        elif op == "uadd.sat":
            out.append(bdd.op("UADDSAT", w, p, q))
        else:
            o = "ADD" if op == "sadd.sat" else "SUB"
            out.append(sats(bdd.op(o, w + 2, sext(p, w + 2), sext(q, w + 2)), w))
    R(cat(out))


def x86(eng, st, n, ins, V, C, R):
    from .engine import Num, Bits, Unsupported
    if n in ("ssse3.pshuf.b.128", "avx2.pshuf.b", "avx512.pshuf.b.512"):
        return R(pshufb(V(0), V(1)))
    if n in ("sse2.pmadd.wd", "avx2.pmadd.wd", "avx512.pmaddw.d.512"):
        return R(pmaddwd(V(0), V(1)))
    if n in ("ssse3.pmadd.ub.sw.128", "avx2.pmadd.ub.sw", "avx512.pmaddubs.w.512"):
        return R(pmaddubsw(V(0), V(1)))
    m = re.match(r"(sse2|avx2|avx512)\.(psrli|pslli|psrai)\.([wdq])(\.512)?$", n)
    if m:
        w = dict(w=16, d=32, q=64)[m.group(3)]
        k = C(1)
        return R(cat(shiftel(m.group(2)[1:4], e, k) for e in els(V(0), w)))
    m = re.match(r"(sse2|avx2|avx512)\.(psrl|psll|psra)\.([wdq])(\.512)?$", n)
    if m:
        w = dict(w=16, d=32, q=64)[m.group(3)]
        c = V(1)[:64]
        if not bdd.is_const(c):
            raise Unsupported("variable shift")
        k = bdd.value(c)
        return R(cat(shiftel(m.group(2)[1:], e, k) for e in els(V(0), w)))
    if n in ("sse2.pmovmskb.128", "avx2.pmovmskb"):
        b = [e[7] for e in els(V(0), 8)]
        return R(tuple(b) + (0,) * (32 - len(b)))
    if n in ("sse2.pmulhu.w", "avx2.pmulhu.w", "avx512.pmulhu.w.512"):
        return R(cat(mulc(32, zext(p, 32), zext(q, 32))[16:32] for p, q in zip(els(V(0), 16), els(V(1), 16))))
    if n in ("sse2.pmulh.w", "avx2.pmulh.w", "avx512.pmulh.w.512"):
        return R(cat(mulc(32, sext(p, 32), sext(q, 32))[16:32] for p, q in zip(els(V(0), 16), els(V(1), 16))))
    if n in ("avx2.permd",):
        t = els(V(0), 32)
        return R(cat(tbl(t, 32, x[:3]) for x in els(V(1), 32)))
    if n in ("avx512.permvar.si.512", "avx512.permvar.si.256"):
        t = els(V(0), 32); k = len(t).bit_length() - 1
        return R(cat(tbl(t, 32, x[:k]) for x in els(V(1), 32)))
    if n in ("avx512.permvar.qi.512", "avx512.permvar.qi.256", "avx512.permvar.qi.128"):
        t = els(V(0), 8); k = len(t).bit_length() - 1
        return R(cat(tbl(t, 8, x[:k]) for x in els(V(1), 8)))
    if n.startswith("avx512.pmultishift.qb."):
        ctl, dat = els(V(0), 64), els(V(1), 64)
        out = []
        for c, d in zip(ctl, dat):
            for x in els(c, 8):
                if bdd.is_const(x[:6]):
                    k = bdd.value(x[:6])
                    out.append(tuple(d[(k + j) % 64] for j in range(8)))
                else:
                    t = [tuple(d[(k + j) % 64] for j in range(8)) for k in range(64)]
                    out.append(tbl(t, 8, x[:6]))
        return R(cat(out))
    m = re.match(r"(sse41|avx)\.ptest(z|c|nzc)(\.256)?$", n)
    if m:
        a, b = V(0), V(1)
        z = bdd.not_(bdd.disj(bdd.op("AND", 1, a, b)))
        c = bdd.not_(bdd.disj(bdd.op("AND", 1, bdd.vnot(a), b)))
        r = z if m.group(2) == "z" else c if m.group(2) == "c" else bdd.and_(bdd.not_(z), bdd.not_(c))
        return R((r,) + (0,) * 31)
    m = re.match(r"(sse2|avx2|sse41|avx512)\.pack(us|ss)(wb|dw)(\.128|\.512)?$", n) or re.match(r"(sse2|avx2|avx512)\.pack(us|ss)(wb|dw)\.(128|512)$", n)
    if not m and n == "sse41.packusdw":
        m = re.match(r"(sse41)\.pack(us)(dw)()", n)
    if m:
        w = 16 if m.group(3) == "wb" else 32
        f = satu if m.group(2) == "us" else sats
        a, b = V(0), V(1); out = []
        for l in range(0, len(a), 128):
            for v in (a, b):
                out += [f(e, w // 2) for e in els(v[l:l + 128], w)]
        return R(cat(out))
    if n in ("sse41.pblendvb", "avx2.pblendvb"):
        a, b, c = V(0), V(1), V(2)
        return R(cat(bdd.vite(8, (z[7],), y, x) for x, y, z in zip(els(a, 8), els(b, 8), els(c, 8))))
    if n in ("sse2.pavg.b", "avx2.pavg.b"):
        return R(cat(add(9, add(9, zext(p, 9), zext(q, 9)), bdd.const(1, 9))[1:9] for p, q in zip(els(V(0), 8), els(V(1), 8))))
    if n == "sse42.crc32.32.8":
        pass
    if n in ("avx.vzeroupper", "avx.vzeroall", "sse2.pause", "sse2.lfence", "sse2.mfence", "sse.sfence"):
        return
    r = eng.spec.x86_intrinsic(eng, st, n, ins)
    if r is not NotImplemented:
        return r
    raise Unsupported("intrinsic x86.%s at %s" % (n, ins.loc()))


def neon(eng, st, n, ins, V, C, R, a64):
    from .engine import Num, Bits, Ptr, Agg, Unsupported
    ops = ins.ops
    m = re.match(r"(?:v?ld)([1234])(?:x([234]))?\.v(\d+)i(\d+)\.p0$", n)
    if m and a64 == (not n.startswith("v")):
        k = int(m.group(1)); ne = int(m.group(3)); w = int(m.group(4))
        xk = int(m.group(2)) if m.group(2) else None
        tot = (xk or k)
        t = vty(ne * tot, w)
        v = eng.load(st, eng.val(st, ops[0], ins), t, ins)
        res = []
        vs = v if isinstance(v, list) else [v]
        if len(vs) != 1 or isinstance(v, list):
            raise Unsupported("forking load in " + n)
        e = els(eng.tobits(st, v, ins).b, w)
        if xk:
            parts = [e[i * ne:(i + 1) * ne] for i in range(tot)]
        else:
            parts = [e[i::k] for i in range(k)]
        o = [Bits(cat(p)) for p in parts]
        return eng.set(st, ins, o[0] if tot == 1 else Agg(o))
    m = re.match(r"st([1234])(?:x([234]))?\.v(\d+)i(\d+)\.p0$", n) if a64 else re.match(r"vst([1234])()\.p0\.v(\d+)i(\d+)$", n)
    if m:
        k = int(m.group(1)); ne = int(m.group(3)); w = int(m.group(4))
        xk = int(m.group(2)) if m.group(2) else None
        tot = xk or k
        o0 = 0 if a64 else 1
        vs = [els(V(o0 + i), w) for i in range(tot)]
        p = eng.val(st, ops[tot if a64 else 0], ins)
        if xk:
            b = cat(cat(v) for v in vs)
        else:
            b = cat(vs[i][j] for j in range(ne) for i in range(tot))
        return eng.store(st, p, Bits(b), vty(ne * tot, w), ins)
    m = re.match(r"v?tb([lx])([1234])(\.v(8|16)i8)?$", n)
    if m:
        k = int(m.group(2))
        if m.group(1) == "x":
            return R(ntbl([V(1 + i) for i in range(k)], V(1 + k), V(0)))
        return R(ntbl([V(i) for i in range(k)], V(k), None))
    if re.match(r"(uqsub|vqsubu)\.v(\d+)i(\d+)$", n):
        w = ins.ty.e.w
        return R(bdd.op("USUBSAT", w, V(0), V(1)))
    if re.match(r"(uqadd|vqaddu)\.", n):
        return R(bdd.op("UADDSAT", ins.ty.e.w, V(0), V(1)))
    m = re.match(r"(u|s)(max|min)v\.i32\.v(\d+)i(\d+)$", n)
    if m:
        w = int(m.group(4)); e = els(V(0), w)
        if m.group(1) == "u":
            r = e[0]
            for x in e[1:]:
                r = bdd.op("UMAX" if m.group(2) == "max" else "UMIN", w, r, x)
            return R(zext(r, 32))
        r = e[0]
        for x in e[1:]:
            c = bdd.op("SLT", w, r, x)
            r = bdd.vite(w, c, x, r) if m.group(2) == "max" else bdd.vite(w, c, r, x)
        return R(sext(r, 32))
    m = re.match(r"v?(u|s)?(max|min)(u|s)?\.v(\d+)i(\d+)$", n)
    if m:
        w = int(m.group(5)); sg = (m.group(1) or m.group(3)) == "s"
        out = []
        for p, q in zip(els(V(0), w), els(V(1), w)):
            c = bdd.op("SLT" if sg else "ULT", w, p, q)
            out.append(bdd.vite(w, c, q, p) if m.group(2) == "max" else bdd.vite(w, c, p, q))
        return R(cat(out))
    m = re.match(r"v?(u|s)?(max|min)p(u|s)?\.v(\d+)i(\d+)", n)
    if m or re.match(r"vpmaxu|vpminu", n):
        w = ins.ty.e.w
        op = "max" if "max" in n else "min"
        if "maxs" in n or "mins" in n or n.startswith(("smax", "smin")):
            raise Unsupported(n)
        e = els(V(0), w) + els(V(1), w)
        return R(cat(bdd.op("UMAX" if op == "max" else "UMIN", w, e[i], e[i + 1]) for i in range(0, len(e), 2)))
    if re.match(r"(vqmovnu|uqxtn)\.", n):
        w = ins.ty.e.w; out = []
        for e in els(V(0), 2 * w):
            big = bdd.disj(e[w:])
            out.append(bdd.vite(w, (big,), (1,) * w, tuple(e[:w])))
        return R(cat(out))
    if n.startswith("addv") or n.startswith("uaddv"):
        e = els(V(0), ins.ops and len(V(0)) and 8)
        raise Unsupported(n)
    raise Unsupported("intrinsic neon.%s at %s" % (n, ins.loc()))


def memcpy(eng, st, ins):
    from .engine import Num, Bits, Ptr, Unsupported
    d = eng.val(st, ins.ops[0], ins); s = eng.val(st, ins.ops[1], ins); n = eng.val(st, ins.ops[2], ins)
    if isinstance(n, (Num, Bits)):
        if isinstance(n, Num):
            n = eng.simp(st, n)
        if eng.isconst(n):
            k = eng.cval(n)
            if k == 0:
                return
            r = eng.spec.memcpy(eng, st, d, s, const(k), ins)
            if r is not NotImplemented:
                return r
            # cells to cells: copy the cells themselves
            if isinstance(d, Ptr) and isinstance(s, Ptr):
                rd, rs = eng.regions.get(d.reg), eng.regions.get(s.reg)
                do, so = st.poly.norm(d.off), st.poly.norm(s.off)
                if rd and rs and rd.kind in ("cells", "global") and rs.kind in ("cells", "global") and not do.t and not so.t:
                    return copycells(eng, st, rd, do.c, rs, so.c, k, ins)
                if rd and rs and rd.kind in ("cells", "global") and rs.kind == "const" and not do.t and not so.t and eng.tabbytes(s.reg) is None:
                    # a constant object with pointers in it: item by item
                    items = sorted((o, n, x) for o, (n, x) in eng.table(s.reg).items() if so.c <= o and o + n <= so.c + k)
                    for o, n, x in items:
                        if x[0] != "u":
                            eng.store(st, Ptr(d.reg, do + const(o - so.c)), eng.val(st, x, ins), ity(8 * n) if x[0] == "c" else pty(n), ins)
                    return
            t = ity(8 * k) if k in (1, 2, 4, 8, 16, 32, 64) else vty(k, 8)
            if k > 8:
                t = vty(k, 8)
            v = eng.load(st, s, t, ins)
            if isinstance(v, list):
                raise Unsupported("forking load in memcpy")
            return eng.store(st, d, v, t, ins)
        if not (isinstance(n, Num)):
            n = eng.tonum(st, n, ins)
        r = eng.spec.memcpy(eng, st, d, s, eng.canon(st, n, ins), ins)
        if r is not NotImplemented:
            return r
    raise Unsupported("memcpy of variable size at %s" % ins.loc())


def copycells(eng, st, rd, do, rs, so, k, ins):
    ok = 0 <= do and (rd.size is None or do + k <= rd.size) and 0 <= so and (rs.size is None or so + k <= rs.size)
    eng.ob("cell", ok, ins, "copy inside objects %s and %s" % (rd.name, rs.name))
    if not ok:
        return
    eng.spec.on_cell_load(eng, st, rs, const(so), k, ins)
    eng.spec.on_cell_store(eng, st, rd, const(do), k, None, ins)
    new = {}
    o = so
    cells = {kk[1]: v for kk, v in st.mem.items() if kk[0] == rs.name}
    for o, (n, v) in cells.items():
        if so <= o and o + n <= so + k:
            new[o] = (n, v)
        elif o < so + k and o + n > so:
            for i in range(max(o, so), min(o + n, so + k)):
                b = eng.cell_byte(st, rs, i, ins)
                if b is not None:
                    from .engine import Bits
                    new[i] = (1, Bits(b))
    eng.kill_cells(st, rd, do, k, ins)
    for o, c in new.items():
        st.mem[(rd.name, do + o - so)] = c


def memset(eng, st, ins):
    from .engine import Num, Bits, Ptr, Unsupported
    d = eng.val(st, ins.ops[0], ins); v = eng.val(st, ins.ops[1], ins); n = eng.val(st, ins.ops[2], ins)
    n = eng.simp(st, n) if isinstance(n, Num) else n
    if not eng.isconst(n):
        r = eng.spec.memset(eng, st, d, v, n, ins)
        if r is not NotImplemented:
            return r
        raise Unsupported("memset of variable size at %s" % ins.loc())
    k = eng.cval(n)
    if k == 0:
        return
    b = eng.tobits(st, v, ins).b
    if k <= 64:
        return eng.store(st, d, Bits(b * k), vty(k, 8), ins)
    if isinstance(d, Ptr) and eng.regions.get(d.reg) is not None and eng.regions[d.reg].kind in ("cells", "global"):
        r = eng.regions[d.reg]; off = st.poly.norm(d.off)
        if not off.t:
            eng.kill_cells(st, r, off.c, k, ins)
            eng.spec.on_memset(eng, st, r, off.c, k, b, ins)
            return
    raise Unsupported("memset at %s" % ins.loc())
