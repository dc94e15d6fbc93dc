"""C14: do the operands and clobbers of every inline assembly statement cover what its instructions read and change?

The register uses and definitions of each instruction are those of the semantic model in asm.py (the one the codecs are analysed
with); this file compares them with the constraints, by dataflow over the statement's own control flow."""
import re
from . import asm, llvmir
from .asm import Op

X86REG = {}
for _r, _n in (("a", "al ah ax eax rax"), ("b", "bl bh bx ebx rbx"), ("c", "cl ch cx ecx rcx"), ("d", "dl dh dx edx rdx"),
               ("si", "sil si esi rsi"), ("di", "dil di edi rdi"), ("bp", "bpl bp ebp rbp"), ("sp", "spl sp esp rsp")):
    for _x in _n.split():
        X86REG[_x] = "r" + _r + ("x" if len(_r) == 1 else "")
for _k in range(8, 32):
    for _s in ("", "d", "w", "b"):
        X86REG["r%d%s" % (_k, _s)] = "r%d" % _k
KEEP = ("cc", "memory", "flags", "fpsr", "dirflag", "fpcr", "mxcsr", "redzone")


def canon(env, r):
    """one name for all aliases of a register; r as the model names it ('prefix.reg')"""
    p, n = r.split(".", 1)
    if n.isdigit():
        return r
    if env.arch in ("x64", "x86"):
        n = re.sub(r"^[xyz]mm", "xmm", n)
        n = X86REG.get(n, n)
    elif env.arch == "a64":
        n = re.sub(r"^[bhsdqv](\d+)$", r"v\1", n); n = re.sub(r"^w(\d+)$", r"x\1", n)
    elif env.arch == "a32":
        m = re.match(r"^q(\d+)$", n)
        if m:
            n = "d%d" % (2 * int(m.group(1)))       # the caller expands quads
    return p + "." + n


def expand(env, r):
    """registers of r (a quad register is two doubles)"""
    p, n = r.split(".", 1)
    if env.arch == "a32":
        m = re.match(r"^q(\d+)$", n)
        if m:
            return [p + ".d%d" % (2 * int(m.group(1)) + k) for k in (0, 1)]
    return [canon(env, r)]


def sysops(env, mn, ops, text):
    """instructions only codec_choose uses"""
    o = Op(text)
    R = lambda *x: [env.p + "." + y for y in x]
    if mn == "cpuid":
        o.uses, o.defs = R("rax"), R("rax", "rbx", "rcx", "rdx")
    elif mn == "xgetbv":
        o.uses, o.defs = R("rcx"), R("rax", "rdx")
    elif mn in ("xchg", "xchgl", "xchgq") and env.arch in ("x64", "x86") and len(ops) == 2:
        rs = []
        for t in ops:
            y = asm.x86_operand(env, t)
            if y[0] != "reg":
                raise asm.U("xchg with memory")
            rs.append(y[1])
        o.defs = list(rs); o.order = ("swap", rs)
    elif mn in ("pushf", "pushfl", "pushfq", "popf", "popfl", "popfq") and env.arch in ("x64", "x86"):
        o.uses = R("rsp"); o.defs = R("rsp"); o.flags_set = mn.startswith("popf")
    elif mn in ("fence", "lfence", "mfence", "sfence", "dmb", "isb", "dsb"):
        pass
    else:
        return None
    return o


def program(call, arch, pre):
    s, outt = asm.operand_types(call)
    env = asm.Env(pre, "x64" if arch in ("x64", "x86") else arch, s, call.loc())
    vec = {}
    for n, t in enumerate(outt):
        if t.k == "v":
            vec[env.opname(n)] = t.n * t.e.w
    for k, (o, t) in enumerate(zip(call.ops, call.a.get("optys", []))):
        if t.k == "v":
            vec[env.opname(s.nout + k)] = t.n * t.e.w
    if env.arch == "x64":
        vec = asm._X86Vec(vec)
    prog = []
    for l in asm.split_lines(s.text, env.arch == "x64"):
        if l[0] == "label":
            prog.append(l)
        else:
            o = sysops(env, l[1], l[2], l[3])
            prog.append(("op", o or asm.ISA[env.arch](env, l[1], l[2], l[3], vec)))
    return s, env, prog


def successors(prog):
    """indices each instruction continues with; len(prog) is the end"""
    where = [(p[1], k) for k, p in enumerate(prog) if p[0] == "label"]
    out = []
    for k, p in enumerate(prog):
        nx = [k + 1]
        if p[0] == "op" and p[1].jump:
            t = p[1].jump
            m = re.match(r"^(\d+)([fb])$", t)
            if m:
                c = [j for l, j in where if l == m.group(1) and ((j > k) if m.group(2) == "f" else (j <= k))]
                to = c[0] if m.group(2) == "f" and c else c[-1] if c else None
            else:
                c = [j for l, j in where if l == t]
                to = c[0] if c else None
            if to is None:
                raise asm.U("asm label %s" % t)
            nx = [to] + (nx if p[1].cond is not None else [])
        out.append(nx)
    return out


def defs_of(F):
    return {i.name: i for B in F.blocks for i in B.ins if i.name is not None}


def constant_memory(m, F, v, depth=0):
    """is the value an address inside a constant global?"""
    if depth > 20:
        return False
    if v[0] == "g":
        g = m.globals.get(v[1]) if isinstance(m.globals, dict) else None
        return v[1] in getattr(m, "const_names", ()) or (g is not None and getattr(g, "const", False))
    if v[0] == "v":
        d = defs_of(F).get(v[1])
        if d is not None and d.op in ("gep", "getelementptr", "bitcast", "inttoptr", "ptrtoint"):
            return constant_memory(m, F, d.ops[0], depth + 1)
    return False


def used_outputs(F, call, nout):
    """output operands whose value the surrounding code uses"""
    users = lambda n: [i for B in F.blocks for i in B.ins if any(n in repr(o) and ("v", n) in flat(o) for o in i.ops)]
    us = users(call.name) if call.name is not None else []
    if nout <= 1:
        return {0} if us else set()
    live = set()
    for u in us:
        if u.op == "extractvalue":
            if users(u.name):
                live.add(u.a["idx"][0] if isinstance(u.a["idx"], (list, tuple)) else u.a["idx"])
        else:
            live |= set(range(nout))
    return live


def flat(o):
    if isinstance(o, tuple) and len(o) == 2 and o[0] == "v":
        return [o]
    if isinstance(o, (tuple, list)):
        return [y for x in o for y in flat(x)]
    return []


def check_stmt(m, F, call, arch, rep):
    """rep(kind, ok, call, text, detail)"""
    s, env, prog = program(call, arch, "s")
    loc = call
    def regs(o):
        return expand(env, o)
    outs = [regs(env.opname(n)) for n in range(s.nout)]
    ins_ = [(k, tied, cons, regs(env.opname(s.nout + k)), call.ops[k]) for k, (tied, cons) in enumerate(s.ins)]
    declared = {r for o in outs for r in o}
    roin = {}
    for k, tied, cons, rs, v in ins_:
        if tied is None:
            for r in rs:
                if r not in declared:
                    roin[r] = k
    clob = set()
    flagsok = env.arch == "x64"             # every x86 compiler takes the flags as changed by any statement
    memory = False
    for c in s.clob:
        c = c.lower()
        if c == "memory":
            memory = True
        elif c in ("cc", "flags"):
            flagsok = True
        elif c not in KEEP:
            clob |= set(regs(env.phys(c)))
    if env.arch == "a32":
        for c in list(clob):
            pass
    n = len(prog)
    succ = successors(prog)
    # registers a straight-line statement provably leaves as they were
    kept = set()
    if all(p[0] == "op" and not p[1].jump for p in prog):
        val = {}
        for k, p in enumerate(prog):
            sw = getattr(p[1], "order", None)
            if sw:
                a, b = [regs(x)[0] for x in sw[1]]
                val[a], val[b] = val.get(b, b), val.get(a, a)
            else:
                for d in p[1].defs:
                    for r in regs(d):
                        val[r] = k
        kept = {r for r, v in val.items() if v == r}
    for k, p in enumerate(prog):
        if p[0] == "label":
            rep("asmlabel", bool(re.match(r"^\d+$", p[1])) or "uid" in p[1], call, "label %s is local, so that the statement may be emitted more than once" % p[1], "")
            continue
        o = p[1]
        for d in o.defs:
            for r in regs(d):
                if r in kept:
                    rep("asmreg", True, call, "every register changed is an output or a clobber", "")
                elif r in roin:
                    rep("asmro", False, call, "an input-only operand is not modified", "%s changes input operand %d (\"%s\")" % (o.text, roin[r], s.ins[roin[r]][1]))
                elif r not in declared and r not in clob:
                    rep("asmreg", False, call, "every register changed is an output or a clobber", "%s changes %s" % (o.text, r.split(".", 1)[1]))
                else:
                    rep("asmreg", True, call, "every register changed is an output or a clobber", "")
        if o.flags_set:
            rep("asmcc", flagsok, call, "changed condition flags are declared", o.text)
        if o.mem_write:
            rep("asmmem", memory, call, "written memory is declared", o.text)
        if o.mem_read:
            ok = memory
            if not ok:
                gpr = [x for u in o.uses for x in regs(u)]
                vals = [v for k2, tied, cons, rs, v in ins_ if set(rs) & set(gpr) and not re.search(r"[xwv]", cons if tied is None else s.outs[tied][1])]
                ok = bool(vals) and all(constant_memory(m, F, v) for v in vals)
            rep("asmmem", ok, call, "memory that is read is declared, unless constant", o.text)
    # definitely written registers: forward must-analysis from the inputs
    init = {r for k, tied, cons, rs, v in ins_ for r in rs}
    full = None
    IN = {0: frozenset(init)}
    work = [0]
    while work:
        k = work.pop()
        if k >= n:
            continue
        cur = set(IN[k])
        if prog[k][0] == "op":
            cur |= {r for d in prog[k][1].defs for r in regs(d)}
        for t in succ[k]:
            new = frozenset(cur) if t not in IN else IN[t] & frozenset(cur)
            if t not in IN or new != IN[t]:
                IN[t] = new; work.append(t)
    for k, p in enumerate(prog):
        if p[0] == "op" and k in IN:
            o = p[1]
            idiom = not o.uses
            for u in o.uses:
                for r in regs(u):
                    if r.split(".", 1)[1] in ("rsp", "sp", "xzr", "wzr"):
                        continue
                    ok = r in IN[k]
                    if not ok and env.arch == "a32" and u in o.defs:
                        ok = True           # merging write of part of a register pair
                    rep("asmuse", ok, call, "every register read is an operand or has been written", "%s reads %s" % (o.text, r))
    live = used_outputs(F, call, s.nout)
    for j, o in enumerate(outs):
        for r in o if j in live else ():
            rep("asmout", n not in IN or r in IN[n], call, "every output has been written at the end", "output %d" % j)
    # early clobber: an output written while an input that may share its register is still to be read
    reach = {}
    for k in range(n):
        seen = set(); todo = list(succ[k])
        while todo:
            t = todo.pop()
            if t < n and t not in seen:
                seen.add(t); todo += succ[t]
        reach[k] = seen
    used = {}
    for k, p in enumerate(prog):
        if p[0] == "op":
            for u in p[1].uses:
                for r in regs(u):
                    used.setdefault(r, set()).add(k)
    written = {}
    for k, p in enumerate(prog):
        if p[0] == "op" and k in IN:
            for d in p[1].defs:
                for r in regs(d):
                    written.setdefault(r, set()).add(k)
    cls = lambda c: "v" if re.search(r"[xwvY]", c) and not c.startswith("{") else "m" if c in ("m", "i", "n", "I") else "r"
    tiedto = {t: v for k, t, c, rs, v in ins_ if t is not None}
    for j, (early, oc) in enumerate(s.outs):
        if early:
            rep("asmearly", True, call, "outputs written before the last input is read are early-clobbered", "")
            continue
        for k, tied, cons, rs, v in ins_:
            if tied is not None or cls(cons) == "m":
                continue
            fo, fi = oc.startswith("{"), cons.startswith("{")
            if fo and fi:
                if not set(outs[j]) & set(rs):
                    continue
            elif (fo or fi):
                name = env.arch
                fixed = outs[j][0] if fo else rs[0]
                vecreg = bool(re.search(r"\.(v|xmm|d|q)\d+$", fixed))
                other = cons if fo else oc
                if (cls(other) == "v") != vecreg:
                    continue
            elif cls(oc) != cls(cons):
                continue
            if j in tiedto:
                t = tiedto[j]
                # a read-write operand shares a register with an input only if both hold the same value
                if t != v:
                    continue
            bad = None
            for w in {x for r in outs[j] for x in written.get(r, ())}:
                for r in rs:
                    for u in used.get(r, ()):
                        if u in reach[w]:
                            bad = (w, u)
            rep("asmearly", bad is None, call, "outputs written before the last input is read are early-clobbered",
                "output %d (\"=%s\") is written by '%s' and input %d (\"%s\"), which may share its register, is read later by '%s'" %
                (j, oc, prog[bad[0]][1].text, k, cons, prog[bad[1]][1].text) if bad else "")
    return len(prog)


def arch_of(cfg):
    return {"native": "x64", "noasm": "x64", "i686": "x64", "aarch64": "a64", "armhf": "a32", "s390x": None}[cfg]


def check_module(m, cfg, rep):
    """all statements of a module; returns (statements, instructions)"""
    seen = {}
    arch = arch_of(cfg)
    for F in m.functions.values():
        for B in F.blocks:
            for i in B.ins:
                if i.op == "call" and i.a["callee"][0] == "asm":
                    if not i.a["callee"][1].strip() and not i.ops and i.ty.k == "void":
                        continue
                    if not str(i.file or "").startswith(("/repo", __import__("os").environ.get("B64_REPO", "/repo"))):
                        continue        # the compiler's own headers
                    k = (i.file, i.line, i.a["callee"][1:3], tuple(map(repr, i.ops)))
                    if k in seen:
                        continue
                    if arch is None:
                        raise asm.U("inline assembly for %s at %s" % (cfg, i.loc()))
                    seen[k] = check_stmt(m, F, i, arch, rep)
    return len(seen), sum(seen.values())
