"""Inline assembly: parsing of GNU asm statements and their semantics on the analysis domain.

lower(F) replaces every inline assembly call of a function by a control-flow graph of pseudo instructions whose
semantics are given here, instruction by instruction (x86 AT&T, AArch64, 32-bit Arm)."""
import re
from . import bdd
from .poly import Lin, const
from .llvmir import Instr, Block, finish_cfg
from .intr import els, cat, zext, sext, mulc, pshufb, ntbl, shiftel, pmaddwd, pmaddubsw, satu, sats, vty, ity, tbl as tblsel


def U(msg):
    from .engine import Unsupported
    return Unsupported(msg)


class Stmt:
    """one parsed inline assembly statement"""
    __slots__ = ("text", "cons", "outs", "ins", "clob", "nout", "lines", "volatile", "ndata", "tied")


def parse_cons(cons):
    """LLVM constraint string -> (outputs, inputs, clobbers); output: (early, constraint); input: (tied index|None, constraint)"""
    outs, ins, clob = [], [], []
    depth = 0; cur = ""; parts = []
    for c in cons:
        if c == "{": depth += 1
        if c == "}": depth -= 1
        if c == "," and depth == 0:
            parts.append(cur); cur = ""
        else:
            cur += c
    if cur:
        parts.append(cur)
    for p in parts:
        if p.startswith("~"):
            clob.append(p[2:-1])
        elif p.startswith("="):
            e = p[1:]; early = "&" in e
            outs.append((early, e.replace("&", "").replace("%", "")))
        elif p.startswith("!"):
            raise U("asm goto")
        else:
            ins.append((int(p), p) if p.isdigit() else (None, p))
    return outs, ins, clob


def clean(text):
    text = re.sub(r"/\*.*?\*/", " ", text, flags=re.S)
    out = []
    for raw in re.split(r"[\n;]", text):
        out.append(raw)
    return out


def split_lines(text, x86):
    """-> list of ("label", name) / ("ins", mnemonic, [operand strings], text)"""
    r = []
    for raw in clean(text):
        s = re.sub(r"(//|@).*$", "", raw)
        if x86:
            s = re.sub(r"(?<!\$)#.*$", "", s)
        s = s.strip()
        while True:
            m = re.match(r"^([.\w$]+):\s*", s)
            if not m:
                break
            r.append(("label", m.group(1))); s = s[m.end():]
        if not s:
            continue
        if s.startswith("."):
            if re.match(r"\.(balign|align|p2align|cfi\w*|loc|fpu|arch|syntax)\b", s):
                continue
            raise U("assembler directive %s" % s)
        m = re.match(r"^([\w.]+)\s*(.*)$", s)
        if not m:
            raise U("asm line %r" % s)
        ops = []; d = 0; cur = ""
        for c in m.group(2):
            if c in "([{": d += 1
            if c in ")]}": d -= 1
            if c == "," and d == 0:
                ops.append(cur.strip()); cur = ""
            else:
                cur += c
        if cur.strip():
            ops.append(cur.strip())
        r.append(("ins", m.group(1).lower(), ops, re.sub(r"\s+", " ", s)))
    return r


def parse(callee):
    s = Stmt()
    _, s.text, s.cons, s.volatile = callee[:4]
    s.outs, s.ins, s.clob = parse_cons(s.cons)
    s.nout = len(s.outs)
    s.tied = {o: len(s.outs) + k for k, (o, c) in enumerate(s.ins) if o is not None}
    return s


def expr(e):
    e = e.strip()
    if not re.match(r"^[\d\sa-fA-Fx+\-*/()<>|&~]*$", e):
        raise U("assembler expression %r" % e)
    if not e:
        return 0
    try:
        return int(eval(e.replace("/", "//"), {"__builtins__": {}}))
    except Exception:
        raise U("assembler expression %r" % e)


# ---- registers ----------------------------------------------------------
class Env:
    """register file of one asm statement; registers are named values of the analysis state"""
    def __init__(self, pre, arch, stmt, loc):
        self.p = pre; self.arch = arch; self.s = stmt; self.loc = loc
        self.W = 64 if arch in ("x64", "a64") else 32

    def opname(self, n):
        """register name of operand n: a tied input shares its output's register"""
        if n >= self.s.nout:
            t = self.s.ins[n - self.s.nout][0]
            if t is not None:
                n = t
        if n < self.s.nout:
            m = re.match(r"^\{(.*)\}$", self.s.outs[n][1])
        else:
            m = re.match(r"^\{(.*)\}$", self.s.ins[n - self.s.nout][1])
        if m:
            return self.phys(m.group(1))
        return self.p + ".%d" % n

    def phys(self, r):
        r = r.lower()
        if self.arch == "a64":
            m = re.match(r"^[vqd](\d+)$", r)
            if m:
                return self.p + ".v" + m.group(1)
            m = re.match(r"^[xw](\d+)$", r)
            if m:
                return self.p + ".x" + m.group(1)
        if self.arch == "x64":
            m = re.match(r"^[xyz]mm(\d+)$", r)
            if m:
                return self.p + ".xmm" + m.group(1)
        return self.p + "." + r

    def reg(self, tok):
        """-> (name, kind) ; kind: 'op','phys' plus modifier"""
        tok = tok.strip()
        m = re.match(r"^\$\{(\d+)(?::(\w+))?\}$", tok) or re.match(r"^\$(\d+)()$", tok)
        if m:
            return self.opname(int(m.group(1))), m.group(2) or ""
        return None

    # vector access
    def vget(self, eng, st, name, w, ins):
        v = st.vals.get(name)
        if v is None:
            return eng.unknown_bits(("asmu", name, ins.name), w).b
        b = eng.tobits(st, v, ins, "va").b
        if len(b) < w:
            b = tuple(b) + eng.unknown_bits(("asmx", name, ins.name), w - len(b)).b
        return tuple(b[:w])

    def get(self, eng, st, name, ins):
        v = st.vals.get(name)
        if v is None:
            from .engine import Num
            return Num(eng.fresh(st, "asm" + name, 0, (1 << self.W) - 1), self.W)
        return v


def padd(eng, st, p, k):
    from .engine import Ptr, Num, UNK
    if isinstance(p, Ptr):
        return Ptr(p.reg, p.off + k)
    return UNK


def gadd(eng, st, a, b, ins, w):
    """integer or pointer addition"""
    from .engine import Ptr, Num, UNK, Unk
    if isinstance(a, Ptr) or isinstance(b, Ptr):
        if isinstance(b, Ptr):
            a, b = b, a
        if isinstance(b, (Ptr, Unk)):
            return UNK
        b = eng.tonum(st, b, ins, "ga")
        l = const(eng.scoef(b.l.c, w)) if not b.l.t else eng.gepidx(st, st.poly.norm(b.l), w, ins)
        return Ptr(a.reg, a.off + l)
    if isinstance(a, Unk) or isinstance(b, Unk):
        return UNK
    return eng.numbin(st, "add", eng.tonum(st, a, ins, "ga"), eng.tonum(st, b, ins, "gb"), w, ins)


def gsub(eng, st, a, b, ins, w):
    from .engine import Ptr, Num, UNK, Unk
    if isinstance(a, Ptr):
        if isinstance(b, Ptr):
            return Num(a.off - b.off, w) if a.reg == b.reg else UNK
        b = eng.tonum(st, b, ins, "ga")
        l = const(eng.scoef(b.l.c, w)) if not b.l.t else eng.gepidx(st, st.poly.norm(b.l), w, ins)
        return Ptr(a.reg, a.off - l)
    if isinstance(a, Unk) or isinstance(b, (Ptr, Unk)):
        return UNK
    return eng.numbin(st, "sub", eng.tonum(st, a, ins, "ga"), eng.tonum(st, b, ins, "gb"), w, ins)


def L(w, f):
    return lambda a, b: cat(f(x, y) for x, y in zip(els(a, w), els(b, w)))


def sub_(w, a, b): return bdd.op("SUB", w, a, b)
def gt_(a, b, w):
    return cat(((c,) * w) for c in bdd.op("SLT", w, b, a))
def eq_(a, b, w):
    return cat(((c,) * w) for c in bdd.op("EQ", w, a, b))
def lane(f):
    """apply f to 128-bit lanes"""
    return lambda a, b: cat(f(a[i:i + 128], b[i:i + 128]) for i in range(0, len(a), 128))
def unpack(w, hi):
    def f(a, b):
        x, y = els(a, w), els(b, w); n = len(x) // 2
        r = []
        for k in range(n):
            r += [x[k + (n if hi else 0)], y[k + (n if hi else 0)]]
        return cat(r)
    return lane(f)
def pack(w, us):
    def f(a, b):
        g = satu if us else sats
        return cat([g(e, w // 2) for e in els(a, w) + els(b, w)])
    return lane(f)
def smaxmin(w, mx):
    def f(x, y):
        c = bdd.op("SLT", w, x, y)
        return bdd.vite(w, c, y, x) if mx else bdd.vite(w, c, x, y)
    return L(w, f)


# x86 packed operations: f(first source / destination, second source)
PACKED = {
    "pand": lambda a, b: bdd.op("AND", 1, a, b), "por": lambda a, b: bdd.op("OR", 1, a, b), "pxor": lambda a, b: bdd.op("XOR", 1, a, b),
    "pandn": lambda a, b: bdd.op("AND", 1, bdd.vnot(a), b),
    "andps": lambda a, b: bdd.op("AND", 1, a, b), "orps": lambda a, b: bdd.op("OR", 1, a, b), "xorps": lambda a, b: bdd.op("XOR", 1, a, b),
    "pmulhuw": L(16, lambda x, y: mulc(32, zext(x, 32), zext(y, 32))[16:32]),
    "pmulhw": L(16, lambda x, y: mulc(32, sext(x, 32), sext(y, 32))[16:32]),
    "pmullw": L(16, lambda x, y: mulc(16, x, y)), "pmulld": L(32, lambda x, y: mulc(32, x, y)),
    "psubusb": lambda a, b: bdd.op("USUBSAT", 8, a, b), "psubusw": lambda a, b: bdd.op("USUBSAT", 16, a, b),
    "paddusb": lambda a, b: bdd.op("UADDSAT", 8, a, b), "paddusw": lambda a, b: bdd.op("UADDSAT", 16, a, b),
    "pmaxub": lambda a, b: bdd.op("UMAX", 8, a, b), "pminub": lambda a, b: bdd.op("UMIN", 8, a, b),
    "pmaxsb": smaxmin(8, True), "pminsb": smaxmin(8, False), "pmaxsw": smaxmin(16, True), "pminsw": smaxmin(16, False),
    "pmaddwd": pmaddwd, "pmaddubsw": pmaddubsw, "pshufb": pshufb,
    "packuswb": pack(16, True), "packsswb": pack(16, False), "packssdw": pack(32, False), "packusdw": pack(32, True),
}
for _s, _w in (("b", 8), ("w", 16), ("d", 32), ("q", 64)):
    PACKED["padd" + _s] = lambda a, b, w=_w: bdd.op("ADD", w, a, b)
    PACKED["psub" + _s] = lambda a, b, w=_w: bdd.op("SUB", w, a, b)
    PACKED["pcmpgt" + _s] = lambda a, b, w=_w: gt_(a, b, w)
    PACKED["pcmpeq" + _s] = lambda a, b, w=_w: eq_(a, b, w)
for _n, _w, _h in (("punpcklbw", 8, 0), ("punpckhbw", 8, 1), ("punpcklwd", 16, 0), ("punpckhwd", 16, 1),
                   ("punpckldq", 32, 0), ("punpckhdq", 32, 1), ("punpcklqdq", 64, 0), ("punpckhqdq", 64, 1)):
    PACKED[_n] = unpack(_w, _h)
SHIFTS = {a + b: (c, w) for a, c in (("psll", "sll"), ("psrl", "srl"), ("psra", "sra")) for b, w in (("w", 16), ("d", 32), ("q", 64)) if a + b != "psraq"}
MOVES = {"movdqa", "movdqu", "lddqu", "movups", "movaps", "movupd", "movapd"}
XJCC = {"jz": "eq", "je": "eq", "jnz": "ne", "jne": "ne", "jl": "slt", "jnge": "slt", "jle": "sle", "jng": "sle", "jg": "sgt", "jnle": "sgt",
        "jge": "sge", "jnl": "sge", "jb": "ult", "jc": "ult", "jnae": "ult", "jae": "uge", "jnc": "uge", "jnb": "uge", "ja": "ugt", "jnbe": "ugt",
        "jbe": "ule", "jna": "ule"}
ACC = {"eq": "eq", "ne": "ne", "lt": "slt", "le": "sle", "gt": "sgt", "ge": "sge", "lo": "ult", "cc": "ult", "hs": "uge", "cs": "uge", "hi": "ugt", "ls": "ule"}


class Op:
    """one asm instruction: reads, writes (register names), fn(eng, st, ins)"""
    __slots__ = ("uses", "defs", "fn", "text", "flags_set", "flags_use", "mem_read", "mem_write", "jump", "cond", "order")
    def __init__(self, text):
        self.uses = []; self.defs = []; self.fn = None; self.text = text; self.flags_set = False; self.flags_use = False
        self.mem_read = False; self.mem_write = False; self.jump = None; self.cond = None


def flags(env, a, b):
    """sets the condition flags as a comparison of a with b"""
    def f(st):
        st.vals[env.p + ".fa"] = a; st.vals[env.p + ".fb"] = b
    return f


# ---- x86 -----------------------------------------------------------------
def x86_operand(env, t):
    """-> ("imm", k) | ("reg", name, mod) | ("mem", disp, base name, index name|None, scale)"""
    t = t.strip()
    r = env.reg(t)
    if r:
        return ("reg",) + r
    if t.startswith("$$"):
        return ("imm", expr(t[2:]))
    if t.startswith("%"):
        n = t.lstrip("%").lower()
        return ("reg", env.phys(n), "" if n.startswith(("r", "x", "y", "z")) else "k")
    m = re.match(r"^(.*)\(([^()]*)\)$", t)
    if m:
        parts = [x.strip() for x in m.group(2).split(",")]
        def rn(x):
            y = env.reg(x)
            if y:
                return y[0]
            if x.startswith("%"):
                return env.phys(x.lstrip("%"))
            raise U("address operand %s" % t)
        base = rn(parts[0]) if parts[0] else None
        idx = rn(parts[1]) if len(parts) > 1 and parts[1] else None
        return ("mem", expr(m.group(1)), base, idx, expr(parts[2]) if len(parts) > 2 else 1)
    raise U("asm operand %s" % t)


def x86_addr(env, o, eng, st, ins):
    _, d, base, idx, sc = o
    p = env.get(eng, st, base, ins)
    if idx:
        v = eng.tonum(st, env.get(eng, st, idx, ins), ins, "ix")
        p = gadd(eng, st, p, eng.numbin(st, "mul", v, eng_num(sc, env.W), env.W, ins), ins, env.W)
    return padd(eng, st, p, d)


def eng_num(k, w):
    from .engine import Num
    return Num(k % (1 << w), w)


def regs_of(o):
    if o[0] == "reg":
        return [o[1]]
    if o[0] == "mem":
        return [x for x in o[2:4] if x]
    return []


def x86_ins(env, mn, ops, text, vec):
    """vec: width of the vector operands by register name"""
    o = Op(text)
    P = [x86_operand(env, t) for t in ops] if not (mn.startswith("j")) else []
    isvec = lambda x: x[0] == "reg" and x[1] in vec
    if mn in ("nop", "pause", "endbr64"):
        o.fn = lambda eng, st, ins: None
        return o
    if mn == "jmp":
        o.jump = ops[0]
        return o
    if mn in XJCC:
        o.jump = ops[0]; o.cond = XJCC[mn]; o.flags_use = True
        return o
    v = mn[1:] if mn.startswith("v") and mn not in ("verr",) else None
    base = v or mn
    # vector instructions
    def vw():
        ws = [vec[x[1]] for x in P if isvec(x)]
        return max(ws) if ws else 128
    def vread(x, eng, st, ins, w):
        if x[0] == "mem":
            return eng.tobits(st, load(eng, st, x86_addr(env, x, eng, st, ins), w, ins), ins).b
        return env.vget(eng, st, x[1], w, ins)
    def load(eng, st, p, w, ins):
        r = eng.load(st, p, vty(w // 8, 8), ins)
        if isinstance(r, list):
            raise U("forking load in asm at %s" % ins.loc())
        return r
    def setv(eng, st, x, b):
        from .engine import Bits
        st.vals[x[1]] = Bits(tuple(b))
    if any(isvec(x) for x in P):
        w = vw()
        for x in P:
            o.mem_read |= x[0] == "mem"
        if base in MOVES and len(P) == 2:
            if P[1][0] == "mem":
                o.mem_read = False; o.mem_write = True
                o.uses = regs_of(P[0]) + regs_of(P[1])
                def fn(eng, st, ins):
                    from .engine import Bits
                    return eng.store(st, x86_addr(env, P[1], eng, st, ins), Bits(vread(P[0], eng, st, ins, w)), vty(w // 8, 8), ins)
                o.fn = fn
                return o
            o.uses = regs_of(P[0]); o.defs = [P[1][1]]
            def fn(eng, st, ins):
                setv(eng, st, P[1], vread(P[0], eng, st, ins, w))
            o.fn = fn
            return o
        if base in PACKED:
            f = PACKED[base]
            if v and len(P) == 3:
                s2, s1, d = P
            elif not v and len(P) == 2:
                s2, s1, d = P[0], P[1], P[1]
            else:
                raise U("asm: %s" % text)
            o.uses = regs_of(s1) + regs_of(s2); o.defs = [d[1]]
            # x ^ x and x - x do not depend on x
            if s1 == s2 and base in ("pxor", "xorps", "psubb", "psubd"):
                o.uses = []
                def fn(eng, st, ins):
                    setv(eng, st, d, (0,) * w)
                o.fn = fn
                return o
            def fn(eng, st, ins):
                setv(eng, st, d, f(vread(s1, eng, st, ins, w), vread(s2, eng, st, ins, w)))
            o.fn = fn
            return o
        if base in SHIFTS and P[0][0] == "imm":
            c, ew = SHIFTS[base]; k = P[0][1]; d = P[-1]; s1 = P[1]
            o.uses = regs_of(s1); o.defs = [d[1]]
            def fn(eng, st, ins):
                setv(eng, st, d, cat(shiftel(c, e, k) for e in els(vread(s1, eng, st, ins, w), ew)))
            o.fn = fn
            return o
        if base == "permd" and v and len(P) == 3:
            s2, s1, d = P
            o.uses = regs_of(s1) + regs_of(s2); o.defs = [d[1]]
            def fn(eng, st, ins):
                t = els(vread(s2, eng, st, ins, w), 32)
                setv(eng, st, d, cat(tblsel(t, 32, x[:3]) for x in els(vread(s1, eng, st, ins, w), 32)))
            o.fn = fn
            return o
        if base in ("pshufd", "permq") and P[0][0] == "imm":
            k = P[0][1]; s1 = P[1]; d = P[2]; ew = 32 if base == "pshufd" else 64
            o.uses = regs_of(s1); o.defs = [d[1]]
            def fn(eng, st, ins):
                b = vread(s1, eng, st, ins, w); out = []
                step = 128 if ew == 32 else 256
                for l in range(0, len(b), step):
                    e = els(b[l:l + step], ew)
                    out += [e[(k >> (2 * j)) & 3] for j in range(4)]
                setv(eng, st, d, cat(out))
            o.fn = fn
            return o
        raise U("asm instruction %s at %s" % (text, env.loc))
    # general registers
    suffix = None
    g = base if not v else mn
    m = re.match(r"^(add|sub|cmp|test|mov|lea|inc|dec|and|or|xor|shl|sal|shr|neg|not)([qlwb]?)$", g)
    if not m:
        raise U("asm instruction %s at %s" % (text, env.loc))
    g = m.group(1); sz = m.group(2)
    W = env.W
    if sz in ("w", "b") or any(x[0] == "reg" and x[2] in ("w", "b", "h") for x in P):
        raise U("sub-word asm instruction %s at %s" % (text, env.loc))
    w = 32 if sz == "l" or any(x[0] == "reg" and x[2] == "k" for x in P) else W
    def rd(x, eng, st, ins):
        from .engine import Num, Ptr
        if x[0] == "imm":
            return eng_num(x[1], w)
        if x[0] == "mem":
            r = eng.load(st, x86_addr(env, x, eng, st, ins), ity(w), ins)
            if isinstance(r, list):
                raise U("forking load in asm")
            return r
        r = env.get(eng, st, x[1], ins)
        if w < W and not isinstance(r, Ptr):
            n = eng.tonum(st, r, ins, "k")
            if n.w > w:
                return Num(eng.divmod(st, n, 1 << w, ins)[1], w)
        return r
    def wr(x, val, eng, st, ins):
        from .engine import Num, Ptr
        if x[0] != "reg":
            raise U("asm store by %s" % text)
        if w < W and isinstance(val, Num):
            val = Num(eng.canon(st, val, ins), W)
        st.vals[x[1]] = val
    def setf(st, a, b):
        st.vals[env.p + ".fa"] = a; st.vals[env.p + ".fb"] = b
    zero = eng_num(0, w)
    o.mem_read = any(x[0] == "mem" for x in P) and g != "lea"
    if g in ("cmp", "test"):
        o.uses = regs_of(P[0]) + regs_of(P[1]); o.flags_set = True
        if g == "test" and P[0] != P[1]:
            raise U("asm: %s" % text)
        def fn(eng, st, ins):
            a = rd(P[1], eng, st, ins)
            setf(st, a, rd(P[0], eng, st, ins) if g == "cmp" else zero)
        o.fn = fn
        return o
    if g in ("add", "sub", "inc", "dec"):
        d = P[-1]
        o.flags_set = True; o.defs = [d[1]] if d[0] == "reg" else []
        one = ("imm", 1)
        s = P[0] if len(P) == 2 else one
        o.uses = regs_of(s) + regs_of(d)
        neg = g in ("sub", "dec")
        def fn(eng, st, ins):
            a = rd(d, eng, st, ins); b = rd(s, eng, st, ins)
            if neg:
                setf(st, a, b)
                wr(d, gsub(eng, st, a, b, ins, w), eng, st, ins)
            else:
                if s[0] == "imm":
                    setf(st, a, eng_num(-s[1], w))
                else:
                    setf(st, None, None)
                wr(d, gadd(eng, st, a, b, ins, w), eng, st, ins)
        o.fn = fn
        return o
    if g == "mov":
        d = P[1]; o.uses = regs_of(P[0])
        if d[0] != "reg":
            raise U("asm store by %s" % text)
        o.defs = [d[1]]
        o.fn = lambda eng, st, ins: wr(d, rd(P[0], eng, st, ins), eng, st, ins)
        return o
    if g == "lea":
        d = P[1]; o.uses = regs_of(P[0]); o.defs = [d[1]]
        o.fn = lambda eng, st, ins: wr(d, x86_addr(env, P[0], eng, st, ins), eng, st, ins)
        return o
    if g in ("and", "or", "xor", "shl", "sal", "shr"):
        d = P[-1]; s = P[0] if len(P) == 2 else ("imm", 1)
        o.uses = regs_of(s) + regs_of(d); o.defs = [d[1]]; o.flags_set = True
        if g == "xor" and s == d:
            o.uses = []
            def fn(eng, st, ins):
                wr(d, zero, eng, st, ins); setf(st, zero, zero)
            o.fn = fn
            return o
        nm = dict(shl="shl", sal="shl", shr="lshr").get(g, g)
        def fn(eng, st, ins):
            a = eng.tonum(st, rd(d, eng, st, ins), ins, "a"); b = eng.tonum(st, rd(s, eng, st, ins), ins, "b")
            r = eng.numbin(st, nm, a, b, w, ins)
            wr(d, r, eng, st, ins); setf(st, r, zero)
        o.fn = fn
        return o
    raise U("asm instruction %s at %s" % (text, env.loc))


# ---- AArch64 ---------------------------------------------------------------
def a64_list(env, t):
    """{v8.16b-v11.16b} -> list of (name, arrangement)"""
    t = t.strip()
    if t.startswith("{") and t.endswith("}"):
        t = t[1:-1]
    out = []
    for p in t.split(","):
        p = p.strip()
        m = re.match(r"^v(\d+)\.(\w+)\s*-\s*v(\d+)\.(\w+)$", p)
        if m:
            a, b = int(m.group(1)), int(m.group(3))
            k = a
            while True:
                out.append((env.p + ".v%d" % (k % 32), m.group(2)))
                if k % 32 == b:
                    break
                k += 1
            continue
        out.append(a64_v(env, p))
    return out


def a64_v(env, p):
    p = p.strip()
    m = re.match(r"^(\$\d+|\$\{\d+(?::\w+)?\}|v\d+)\.(\w+)$", p)
    if not m:
        raise U("asm operand %s" % p)
    r = env.reg(m.group(1))
    return (r[0] if r else env.phys(m.group(1)), m.group(2).lower())


ARR = {"16b": (16, 8), "8b": (8, 8), "8h": (8, 16), "4h": (4, 16), "4s": (4, 32), "2s": (2, 32), "2d": (2, 64)}


def a64_gpr(env, t):
    t = t.strip()
    r = env.reg(t)
    if r:
        return r[0], (32 if r[1] == "w" else 64)
    m = re.match(r"^([xw])(\d+)$", t.lower())
    if m:
        return env.p + ".x" + m.group(2), 64 if m.group(1) == "x" else 32
    raise U("asm operand %s" % t)


def imm_(t):
    t = t.strip()
    return expr(t.lstrip("#")) if t.startswith("#") or re.match(r"^[\d(-]", t) else None


def a64_ins(env, mn, ops, text, vec):
    from .engine import Num, Bits
    o = Op(text)
    def setb(st, n, b):
        st.vals[n] = Bits(tuple(b) + (0,) * (128 - len(b)))
    if mn == "nop":
        o.fn = lambda eng, st, ins: None
        return o
    if mn == "b":
        o.jump = ops[0]; return o
    m = re.match(r"^b\.?(\w\w)$", mn)
    if m and m.group(1) in ACC:
        o.jump = ops[0]; o.cond = ACC[m.group(1)]; o.flags_use = True
        return o
    if mn in ("cbz", "cbnz"):
        r, w = a64_gpr(env, ops[0])
        o.uses = [r]; o.jump = ops[1]; o.cond = ("z", r, "eq" if mn == "cbz" else "ne", w)
        return o
    m = re.match(r"^(ld|st)([1234])$", mn)
    if m:
        k = int(m.group(2)); regs = a64_list(env, ops[0]); n = len(regs)
        am = re.match(r"^\[\s*(\S+?)\s*\]$", ops[1])
        if not am:
            raise U("asm address %s" % text)
        base, _ = a64_gpr(env, am.group(1))
        post = None
        if len(ops) > 2:
            post = imm_(ops[2])
            if post is None:
                raise U("register post-index %s" % text)
        if k > 1 and n != k:
            raise U("asm: %s" % text)
        ne, w = ARR[regs[0][1]]
        t = vty(ne * n, w)
        names = [r[0] for r in regs]
        if post is not None and post != ne * n * w // 8:
            raise U("post-index increment differs from the size accessed: %s" % text)
        if m.group(1) == "ld":
            o.mem_read = True; o.uses = [base]; o.defs = names + ([base] if post is not None else [])
            def fn(eng, st, ins):
                p = env.get(eng, st, base, ins)
                r = eng.load(st, p, t, ins)
                if isinstance(r, list):
                    raise U("forking load in asm")
                e = els(eng.tobits(st, r, ins).b, w)
                for i, nm in enumerate(names):
                    setb(st, nm, cat(e[i * ne:(i + 1) * ne]) if k == 1 else cat(e[i::k]))
                if post is not None:
                    st.vals[base] = padd(eng, st, p, post)
        else:
            o.mem_write = True; o.uses = names + [base]; o.defs = [base] if post is not None else []
            def fn(eng, st, ins):
                p = env.get(eng, st, base, ins)
                vs = [els(env.vget(eng, st, nm, ne * w, ins), w) for nm in names]
                b = cat(cat(v) for v in vs) if k == 1 else cat(vs[i][j] for j in range(ne) for i in range(n))
                r = eng.store(st, p, Bits(b), t, ins)
                for x in r if isinstance(r, list) else [st]:
                    if post is not None:
                        x.vals[base] = padd(eng, x, p, post)
                return r
        o.fn = fn
        return o
    if mn == "tbl" or mn == "tbx":
        d = a64_v(env, ops[0]); tl = [x[0] for x in a64_list(env, ops[1])]; ix = a64_v(env, ops[2])
        W = 8 * ARR[d[1]][0]
        o.uses = tl + [ix[0]] + ([d[0]] if mn == "tbx" else []); o.defs = [d[0]]
        def fn(eng, st, ins):
            tabs = [env.vget(eng, st, t, 128, ins) for t in tl]
            dv = env.vget(eng, st, d[0], W, ins) if mn == "tbx" else None
            setb(st, d[0], ntbl(tabs, env.vget(eng, st, ix[0], W, ins), dv))
        o.fn = fn
        return o
    isv = bool(ops) and re.match(r"^(\$\d+|\$\{\d+(?::\w+)?\}|v\d+)\.\w+$", ops[0].strip())
    if isv:
        d = a64_v(env, ops[0]); ne, w = ARR[d[1]]; W = ne * w
        if mn in ("ushr", "sshr", "shl", "sli", "sri", "usra"):
            s = a64_v(env, ops[1]); k = imm_(ops[2])
            o.uses = [s[0]] + ([d[0]] if mn in ("sli", "sri", "usra") else []); o.defs = [d[0]]
            def fn(eng, st, ins):
                x = els(env.vget(eng, st, s[0], W, ins), w)
                if mn == "ushr": r = [shiftel("srl", e, k) for e in x]
                elif mn == "sshr": r = [shiftel("sra", e, k) for e in x]
                elif mn == "shl": r = [shiftel("sll", e, k) for e in x]
                else:
                    y = els(env.vget(eng, st, d[0], W, ins), w)
                    if mn == "sli": r = [tuple(q[:k]) + tuple(e[:w - k]) for e, q in zip(x, y)]
                    elif mn == "sri": r = [tuple(e[k:]) + tuple(q[w - k:]) for e, q in zip(x, y)]
                    else: r = [bdd.op("ADD", w, q, shiftel("srl", e, k)) for e, q in zip(x, y)]
                setb(st, d[0], cat(r))
            o.fn = fn
            return o
        if mn in ("mov", "not", "mvn", "neg"):
            s = a64_v(env, ops[1]); o.uses = [s[0]]; o.defs = [d[0]]
            def fn(eng, st, ins):
                x = env.vget(eng, st, s[0], W, ins)
                setb(st, d[0], x if mn == "mov" else bdd.vnot(x) if mn != "neg" else bdd.op("SUB", w, (0,) * W, x))
            o.fn = fn
            return o
        if mn == "movi":
            k = imm_(ops[1]); o.defs = [d[0]]
            if len(ops) > 2 or k is None:
                raise U("asm: %s" % text)
            def fn(eng, st, ins):
                setb(st, d[0], cat(bdd.const(k % (1 << w), w) for _ in range(ne)))
            o.fn = fn
            return o
        B = {"and": lambda a, b: bdd.op("AND", 1, a, b), "orr": lambda a, b: bdd.op("OR", 1, a, b), "eor": lambda a, b: bdd.op("XOR", 1, a, b),
             "bic": lambda a, b: bdd.op("AND", 1, a, bdd.vnot(b)),
             "add": lambda a, b: bdd.op("ADD", w, a, b), "sub": lambda a, b: bdd.op("SUB", w, a, b),
             "uqsub": lambda a, b: bdd.op("USUBSAT", w, a, b), "uqadd": lambda a, b: bdd.op("UADDSAT", w, a, b),
             "umax": lambda a, b: bdd.op("UMAX", w, a, b), "umin": lambda a, b: bdd.op("UMIN", w, a, b),
             "cmgt": lambda a, b: gt_(a, b, w), "cmeq": lambda a, b: eq_(a, b, w),
             "cmhi": lambda a, b: cat(((c,) * w) for c in bdd.op("ULT", w, b, a)),
             "cmhs": lambda a, b: cat(((bdd.not_(c),) * w) for c in bdd.op("ULT", w, a, b)),
             "cmge": lambda a, b: cat(((bdd.not_(c),) * w) for c in bdd.op("SLT", w, a, b)),
             "zip1": lambda a, b: cat(x for p in list(zip(els(a, w), els(b, w)))[:ne // 2] for x in p),
             "zip2": lambda a, b: cat(x for p in list(zip(els(a, w), els(b, w)))[ne // 2:] for x in p)}
        if mn in B and len(ops) == 3:
            a = a64_v(env, ops[1]); b = a64_v(env, ops[2])
            o.uses = [a[0], b[0]]; o.defs = [d[0]]
            if mn in ("eor", "sub") and a == b:
                o.uses = []
            def fn(eng, st, ins):
                setb(st, d[0], B[mn](env.vget(eng, st, a[0], W, ins), env.vget(eng, st, b[0], W, ins)))
            o.fn = fn
            return o
        raise U("asm instruction %s at %s" % (text, env.loc))
    m = re.match(r"^(add|sub|cmp|mov)(s?)$", mn)
    if not m:
        raise U("asm instruction %s at %s" % (text, env.loc))
    g = m.group(1); fl = bool(m.group(2)) or g == "cmp"
    d, w = a64_gpr(env, ops[0])
    rest = ops[1:]
    srcs = []
    for t in rest:
        k = imm_(t)
        if k is None and not (env.reg(t.strip()) or re.match(r"^[xw]\d+$", t.strip().lower())):
            raise U("asm: %s" % text)
        srcs.append(("imm", k) if k is not None else ("reg", a64_gpr(env, t)[0]))
    if g == "cmp":
        srcs = [("reg", d)] + srcs
    if w != 64:
        raise U("32-bit asm register in %s" % text)
    def rd(x, eng, st, ins):
        return eng_num(x[1], w) if x[0] == "imm" else env.get(eng, st, x[1], ins)
    o.uses = [x[1] for x in srcs if x[0] == "reg"]; o.flags_set = fl
    if g != "cmp":
        o.defs = [d]
    if g == "mov":
        o.fn = lambda eng, st, ins: st.vals.__setitem__(d, rd(srcs[0], eng, st, ins))
        return o
    if len(srcs) != 2 or (fl and g == "add"):
        raise U("asm: %s" % text)
    def fn(eng, st, ins):
        a, b = rd(srcs[0], eng, st, ins), rd(srcs[1], eng, st, ins)
        if fl:
            st.vals[env.p + ".fa"] = a; st.vals[env.p + ".fb"] = b
        if g != "cmp":
            st.vals[d] = (gadd if g == "add" else gsub)(eng, st, a, b, ins, w)
    o.fn = fn
    return o


# ---- 32-bit Arm ------------------------------------------------------------
def a32_v(env, t):
    """-> (list of (name, lo, n) pieces low to high, width)"""
    t = t.strip()
    r = env.reg(t)
    if r:
        n, mod = r
        if mod == "q": return [(n, 0, 128)], 128
        if mod == "e": return [(n, 0, 64)], 64
        if mod == "f": return [(n, 64, 64)], 64
        if mod == "P" or mod == "": return [(n, 0, 64)], 64
        raise U("asm operand %s" % t)
    m = re.match(r"^([qd])(\d+)$", t.lower())
    if not m:
        raise U("asm operand %s" % t)
    k = int(m.group(2))
    if m.group(1) == "q":
        return [(env.p + ".d%d" % (2 * k), 0, 64), (env.p + ".d%d" % (2 * k + 1), 0, 64)], 128
    return [(env.p + ".d%d" % k, 0, 64)], 64


def a32_list(env, t):
    t = t.strip()
    if t.startswith("{") and t.endswith("}"):
        t = t[1:-1]
    out = []
    for p in t.split(","):
        p = p.strip()
        m = re.match(r"^d(\d+)\s*-\s*d(\d+)$", p.lower())
        if m:
            for k in range(int(m.group(1)), int(m.group(2)) + 1):
                out.append([(env.p + ".d%d" % k, 0, 64)])
            continue
        pc, w = a32_v(env, p)
        if w == 128:
            if len(pc) == 1:
                out += [[(pc[0][0], 0, 64)], [(pc[0][0], 64, 64)]]
            else:
                out += [[x] for x in pc]
        else:
            out.append(pc)
    return out


def a32_ins(env, mn, ops, text, vec):
    from .engine import Bits
    o = Op(text)
    opw = lambda n: 128 if re.match(r".*\.\d+$", n) else 64
    def get(pc, eng, st, ins):
        r = ()
        for n, lo, k in pc:
            r += tuple(env.vget(eng, st, n, 128 if lo + k > 64 else lo + k, ins)[lo:lo + k])
        return r
    def put(pc, b, eng, st, ins):
        i = 0
        for n, lo, k in pc:
            if lo == 0 and (n not in vec or vec[n] == k):
                st.vals[n] = Bits(tuple(b[i:i + k]))
            else:
                old = list(env.vget(eng, st, n, 128, ins)); old[lo:lo + k] = b[i:i + k]
                st.vals[n] = Bits(tuple(old))
            i += k
    def names(pc):
        return [x[0] for x in pc]
    def partial(pc):
        return [n for n, lo, k in pc if not (lo == 0 and (n not in vec or vec[n] == k))]
    if mn == "nop":
        o.fn = lambda eng, st, ins: None
        return o
    m = re.match(r"^v(ld|st)([1234])\.(\d+)$", mn)
    if m:
        k = int(m.group(2)); w = int(m.group(3)); regs = a32_list(env, ops[0]); n = len(regs)
        am = re.match(r"^\[\s*(\$\w+|\$\{\w+(?::\w+)?\}|r\d+)\s*(?::\d+)?\](!?)$", ops[1])
        if not am or len(ops) > 2 or (k > 1 and n != k):
            raise U("asm address %s" % text)
        r = env.reg(am.group(1)); base = r[0] if r else env.phys(am.group(1)); wb = bool(am.group(2))
        ne = 64 // w; t = vty(ne * n, w); nm = [x for p in regs for x in names(p)]
        part = [x for p in regs for x in partial(p)]
        if m.group(1) == "ld":
            o.mem_read = True; o.uses = [base] + part; o.defs = nm + ([base] if wb else [])
            def fn(eng, st, ins):
                p = env.get(eng, st, base, ins)
                v = eng.load(st, p, t, ins)
                if isinstance(v, list):
                    raise U("forking load in asm")
                e = els(eng.tobits(st, v, ins).b, w)
                for i, pc in enumerate(regs):
                    put(pc, cat(e[i * ne:(i + 1) * ne]) if k == 1 else cat(e[i::k]), eng, st, ins)
                if wb:
                    st.vals[base] = padd(eng, st, p, n * 8)
        else:
            o.mem_write = True; o.uses = nm + [base]; o.defs = [base] if wb else []
            def fn(eng, st, ins):
                p = env.get(eng, st, base, ins)
                vs = [els(get(pc, eng, st, ins), w) for pc in regs]
                b = cat(cat(v) for v in vs) if k == 1 else cat(vs[i][j] for j in range(ne) for i in range(n))
                r = eng.store(st, p, Bits(b), t, ins)
                for x in r if isinstance(r, list) else [st]:
                    if wb:
                        x.vals[base] = padd(eng, x, p, n * 8)
                return r
        o.fn = fn
        return o
    m = re.match(r"^v(shr|shl|sli|sri)(?:\.([usi]?)(\d+))$", mn)
    if m:
        g = m.group(1); w = int(m.group(3))
        k = imm_(ops[-1])
        if k is None:
            raise U("asm: %s" % text)
        d, W = a32_v(env, ops[0]); s, _ = a32_v(env, ops[1] if len(ops) == 3 else ops[0])
        o.uses = names(s) + (names(d) if g in ("sli", "sri") else partial(d)); o.defs = names(d)
        def fn(eng, st, ins):
            x = els(get(s, eng, st, ins), w)
            if g == "shr": r = [shiftel("sra" if m.group(2) == "s" else "srl", e, k) for e in x]
            elif g == "shl": r = [shiftel("sll", e, k) for e in x]
            else:
                y = els(get(d, eng, st, ins), w)
                r = [tuple(q[:k]) + tuple(e[:w - k]) if g == "sli" else tuple(e[k:]) + tuple(q[w - k:]) for e, q in zip(x, y)]
            put(d, cat(r), eng, st, ins)
        o.fn = fn
        return o
    m = re.match(r"^vtb([lx])\.\w+$", mn)
    if m:
        d, _ = a32_v(env, ops[0]); tl = a32_list(env, ops[1]); ix, _ = a32_v(env, ops[2])
        o.uses = [x for p in tl for x in names(p)] + names(ix) + (names(d) if m.group(1) == "x" else partial(d)); o.defs = names(d)
        def fn(eng, st, ins):
            tabs = [get(p, eng, st, ins) for p in tl]
            dv = get(d, eng, st, ins) if m.group(1) == "x" else None
            put(d, ntbl(tabs, get(ix, eng, st, ins), dv), eng, st, ins)
        o.fn = fn
        return o
    m = re.match(r"^v(mov|mvn)(?:\.\w+)?$", mn)
    if m and len(ops) == 2 and imm_(ops[1]) is None:
        d, _ = a32_v(env, ops[0]); s, _ = a32_v(env, ops[1])
        o.uses = names(s) + partial(d); o.defs = names(d)
        def fn(eng, st, ins):
            x = get(s, eng, st, ins)
            put(d, x if m.group(1) == "mov" else bdd.vnot(x), eng, st, ins)
        o.fn = fn
        return o
    m = re.match(r"^v(and|orr|eor|bic|add|sub|qsub|qadd|max|min|cgt|cge|ceq|clt|cle)(?:\.([usif]?)(\d+))?$", mn)
    if m:
        g = m.group(1); w = int(m.group(3) or 8); sg = m.group(2)
        d, W = a32_v(env, ops[0])
        a, _ = a32_v(env, ops[1] if len(ops) == 3 else ops[0]); b, _ = a32_v(env, ops[-1])
        o.uses = names(a) + names(b) + partial(d); o.defs = names(d)
        if sg == "f":
            raise U("asm: %s" % text)
        LT = "SLT" if sg == "s" else "ULT"
        F = {"and": lambda x, y: bdd.op("AND", 1, x, y), "orr": lambda x, y: bdd.op("OR", 1, x, y), "eor": lambda x, y: bdd.op("XOR", 1, x, y),
             "bic": lambda x, y: bdd.op("AND", 1, x, bdd.vnot(y)), "add": lambda x, y: bdd.op("ADD", w, x, y), "sub": lambda x, y: bdd.op("SUB", w, x, y),
             "cgt": lambda x, y: cat(((c,) * w) for c in bdd.op(LT, w, y, x)), "clt": lambda x, y: cat(((c,) * w) for c in bdd.op(LT, w, x, y)),
             "cge": lambda x, y: cat(((bdd.not_(c),) * w) for c in bdd.op(LT, w, x, y)), "cle": lambda x, y: cat(((bdd.not_(c),) * w) for c in bdd.op(LT, w, y, x)),
             "ceq": lambda x, y: eq_(x, y, w)}
        if sg == "u":
            F.update({"qsub": lambda x, y: bdd.op("USUBSAT", w, x, y), "qadd": lambda x, y: bdd.op("UADDSAT", w, x, y),
                      "max": lambda x, y: bdd.op("UMAX", w, x, y), "min": lambda x, y: bdd.op("UMIN", w, x, y)})
        if g not in F:
            raise U("asm: %s" % text)
        def fn(eng, st, ins):
            put(d, F[g](get(a, eng, st, ins), get(b, eng, st, ins)), eng, st, ins)
        o.fn = fn
        return o
    raise U("asm instruction %s at %s" % (text, env.loc))


ISA = {"x64": x86_ins, "a64": a64_ins, "a32": a32_ins}


def arch_of(cfg):
    return {"native": "x64", "noasm": "x64", "aarch64": "a64", "armhf": "a32"}.get(cfg)


def operand_types(call):
    """types of the asm's operands by operand number"""
    s = parse(call.a["callee"])
    ts = []
    if s.nout == 1:
        ts.append(call.ty)
    elif s.nout > 1:
        ts += call.ty.els if call.ty.els else []
    return s, ts


def program(call, arch, pre):
    """-> (Stmt, Env, [("label", n) | ("op", Op)])"""
    s, outt = operand_types(call)
    if any("*" in c for _, c in s.outs) or any("*" in c for _, c in s.ins):
        raise U("asm memory operand at %s" % call.loc())
    env = Env(pre, arch, s, call.loc())
    vec = {}
    for n, t in enumerate(outt):
        if t.k == "v":
            vec[env.opname(n)] = t.n * t.e.w
    for k, (o, t) in enumerate(zip(call.ops, call.a.get("optys", []))):
        if t.k == "v":
            vec[env.opname(s.nout + k)] = t.n * t.e.w
    class V(dict):
        pass
    if arch == "x64":
        vec = _X86Vec(vec)
    prog = []
    for l in split_lines(s.text, arch == "x64"):
        if l[0] == "label":
            prog.append(l)
        else:
            prog.append(("op", ISA[arch](env, l[1], l[2], l[3], vec)))
    return s, env, prog


class _X86Vec(dict):
    def __contains__(self, k):
        return dict.__contains__(self, k) or bool(re.search(r"\.[xyz]mm\d+$", k))
    def __missing__(self, k):
        return 128


def lower(F, arch):
    """replaces the inline assembly calls of F by pseudo instructions; returns the number lowered"""
    n = 0
    while True:
        hit = None
        for B in F.blocks:
            for k, i in enumerate(B.ins):
                if i.op == "call" and i.a["callee"][0] == "asm":
                    if not i.a["callee"][1].strip() and not i.ops and i.ty.k == "void":
                        B.ins[k] = pseudo(i, "asmnop%d" % n, lambda eng, st, ins: None, [], [], "")
                        hit = True
                        break
                    hit = (B, k, i); break
            if hit:
                break
        if hit is True:
            n += 1
            continue
        if not hit:
            break
        B, k, call = hit
        lower_one(F, B, k, call, arch, "asm%d" % n)
        n += 1
    finish_cfg(F)
    return n


def pseudo(call, name, fn, uses, defs, text):
    X = Instr(); X.op = "asm"; X.name = name; X.ty = call.ty; X.ops = []; X.line = call.line; X.file = call.file; X.fn = call.fn
    X.a = dict(fn=fn, uses=list(uses), defs=list(defs), text=text)
    return X


def lower_one(F, B, k, call, arch, pre):
    s, env, prog = program(call, arch, pre)
    cnt = [0]
    def nm():
        cnt[0] += 1
        return "%s.i%d" % (pre, cnt[0])
    head = []
    # operands into registers
    for j, o in enumerate(call.ops):
        r = env.opname(s.nout + j)
        def fn(eng, st, ins, o=o, r=r):
            st.vals[r] = eng.val(st, o, ins)
        X = pseudo(call, nm(), fn, [], [r], "")
        X.ops = [o]
        head.append(X)
    # results
    outregs = [env.opname(n) for n in range(s.nout)]
    def res(eng, st, ins):
        from .engine import Agg, UNK
        vs = []
        for n in range(s.nout):
            v = st.vals.get(outregs[n])
            if v is None:
                t = call.ty if s.nout == 1 else call.ty.els[n]
                v = eng.undef(t, ins)
            vs.append(v)
        if s.nout == 1:
            eng.set(st, ins, vs[0])
        elif s.nout:
            eng.set(st, ins, Agg(vs))
    tail = pseudo(call, call.name, res, outregs, [], "")
    rest = [tail] + B.ins[k + 1:]
    hasflow = any(p[0] == "label" or p[1].jump for p in prog)
    FL = [pre + ".fa", pre + ".fb"]
    def mk(op):
        X = pseudo(call, nm(), op.fn, op.uses, op.defs + (FL if op.flags_set else []), op.text)
        return X
    if not hasflow:
        B.ins = B.ins[:k] + head + [mk(p[1]) for p in prog] + rest
        return
    # basic blocks
    C = Block("%s_%s_end" % (B.name, pre)); C.ins = rest
    for X in F.blocks:
        for i in X.ins:
            if i.op == "phi":
                i.a["from"] = [C if f is B else f for f in i.a["from"]]
    for n, p in enumerate(prog):
        # the flags kept are those of a comparison: an unsigned branch must follow one directly
        if p[0] == "op" and isinstance(p[1].cond, str) and p[1].cond[0] == "u":
            k2 = n - 1
            while k2 >= 0 and prog[k2][0] == "op" and not prog[k2][1].flags_set:
                k2 -= 1
            if k2 < 0 or prog[k2][0] != "op" or not re.match(r"(cmp|sub)", prog[k2][1].text):
                raise U("unsigned branch after non-compare flags at %s" % call.loc())
    segs = []           # (labels, ops)
    cur = ([], [])
    pos = 0
    labels = []         # (name, segment index)
    for p in prog:
        if p[0] == "label":
            if cur[1]:
                segs.append(cur); cur = ([], [])
            cur[0].append(p[1])
        else:
            cur[1].append(p[1])
            if p[1].jump:
                segs.append(cur); cur = ([], [])
    segs.append(cur)
    blocks = [Block("%s_%s_%d" % (B.name, pre, i)) for i in range(len(segs))]
    where = [(l, i) for i, sg in enumerate(segs) for l in sg[0]]
    def target(t, i):
        m = re.match(r"^(\d+)([fb])$", t)
        if m:
            c = [j for l, j in where if l == m.group(1)]
            if m.group(2) == "f":
                c = [j for j in c if j > i]
                return blocks[c[0]] if c else fail(t)
            c = [j for j in c if j <= i]
            return blocks[c[-1]] if c else fail(t)
        c = [j for l, j in where if l == t]
        return blocks[c[0]] if c else fail(t)
    def fail(t):
        raise U("asm label %s at %s" % (t, call.loc()))
    def br(to):
        X = pseudo(call, nm(), None, [], [], ""); X.op = "br"; X.a = dict(succ=[to])
        return X
    for i, sg in enumerate(segs):
        b = blocks[i]
        nxt = blocks[i + 1] if i + 1 < len(blocks) else C
        for op in sg[1]:
            if not op.jump:
                b.ins.append(mk(op))
                continue
            to = target(op.jump, i)
            if op.cond is None:
                b.ins.append(br(to))
                continue
            def fn(eng, st, ins, op=op, to=to, nxt=nxt):
                if isinstance(op.cond, tuple):
                    a = env.get(eng, st, op.cond[1], ins); c = eng_num(0, op.cond[3]); pr = op.cond[2]
                else:
                    a, c, pr = st.vals.get(FL[0]), st.vals.get(FL[1]), op.cond
                if a is None or c is None:
                    v = eng.unknown_bits((ins.name, "fl"), 1)
                else:
                    w = getattr(a, "w", None) or env.W
                    v = eng.icmp(st, pr, a, c, ity(w), ins)
                t, f = eng.split(st, eng.cond(v))
                return [(to, x) for x in t] + [(nxt, x) for x in f]
            X = pseudo(call, nm(), fn, op.uses + (FL if op.flags_use else []), [], op.text)
            X.op = "asmbr"; X.a["succ"] = [to, nxt]
            b.ins.append(X)
        if not b.ins or b.ins[-1].op not in ("br", "asmbr"):
            b.ins.append(br(nxt))
    B.ins = B.ins[:k] + head + [br(blocks[0])]
    at = F.blocks.index(B)
    F.blocks[at + 1:at + 1] = blocks + [C]
