"""C10/C11: what the library's code can do besides computing: calls, assembly, globals, start-up code, on the call graph from the API."""
import os, re
from . import asm, llvmir
from .codecspec import NORETURN

PURE = {"memcpy", "memmove", "memset", "memcmp", "bcmp", "__aeabi_memcpy", "__aeabi_memcpy4", "__aeabi_memcpy8", "__aeabi_memmove", "__aeabi_memset",
        "__aeabi_memclr", "__memcpy_chk", "__memset_chk", "__aeabi_uldivmod", "__aeabi_uidiv", "__aeabi_uidivmod", "__aeabi_idiv", "__udivdi3", "__umoddi3", "__divdi3", "__stack_chk_fail"}
# intrinsics that read a clock or the machine, or change its mode; all the others compute or mark
BADINTR = re.compile(r"^llvm\.(read(cyclecounter|steadycounter|_register|_volatile_register)|write_register|thread\.pointer|set\.rounding|get\.rounding|reset\.fpenv|set\.fp|"
                     r"clear_cache|va_|vacopy|eh\.|coro\.|returnaddress|addressofreturnaddress|frameaddress|sponentry|init\.trampoline|adjust\.trampoline|"
                     r"x86\.(rd|wr|xsave|xrstor|sse\.ldmxcsr|sse\.stmxcsr|xbegin|xend|xabort|clflush|clwb|cldemote|monitor|mwait|tpause|umwait|umonitor|flags\.write|int|enqcmd|slwpcb|lwp|sgx|incssp|pkru|ptwrite)|"
                     r"aarch64\.(isb|crc|get\.fpcr|set\.fpcr|space|rndr|tstart|tcommit|hint|break|dmb|dsb)|arm\.(mrc|mcr|cdp|ldc|stc|get\.fpscr|set\.fpscr|hint|undefined|dmb|dsb))")
# instructions that reach outside the registers and ordinary memory of the caller
BADASM = re.compile(r"^(syscall|sysenter|sysexit|sysret|int\d*|into|iret.*|in[bwl]?|out[bwl]?|ins[bwlq]?|outs[bwlq]?|rdtscp?|rdrand|rdseed|rdpmc|rdmsr|wrmsr|rdpid|rdfsbase|rdgsbase|wrfsbase|wrgsbase|"
                    r"hlt|cli|sti|lgdt|lidt|lmsw|invd|wbinvd|clflush.*|xsetbv|ldmxcsr|vldmxcsr|fldcw|fninit|finit|emms|call[lq]?|ljmp|lcall|ud2|xbegin|vmcall|mwait|monitor|"
                    r"svc|swi|hvc|smc|brk|bkpt|bl|blr|blx|br|bx|ret|mrs|msr|mcr|mrc|mcrr|mrrc|cdp|sys|sysl|dc|ic|wfi|wfe|sev|cps.*|eret|udf|hlt)$")


def roots(F, o, der, depth=0, seen=None):
    """objects an address may point into: set of ('g',name) | ('arg',k) | ('alloca',) | ('load',instr) | ('const',) | ('?',)"""
    seen = set() if seen is None else seen
    k = o[0]
    if k == "g":
        return {("g", o[1])}
    if k == "f":
        return {("f", o[1])}
    if k in ("null", "u", "z", "c"):
        return {("const",)}
    if k == "v":
        if o[1] in seen:
            return set()
        seen.add(o[1])
        if o[1] not in der:
            return {("arg", o[1])}
        i = der[o[1]]
        if i.op in ("getelementptr", "bitcast", "addrspacecast", "freeze", "inttoptr", "ptrtoint"):
            return roots(F, i.ops[0], der, depth, seen)
        if i.op == "phi":
            return set().union(*[roots(F, x, der, depth, seen) for x in i.ops])
        if i.op == "select":
            return roots(F, i.ops[1], der, depth, seen) | roots(F, i.ops[2], der, depth, seen)
        if i.op in ("add", "sub", "and", "or"):
            return roots(F, i.ops[0], der, depth, seen) | roots(F, i.ops[1], der, depth, seen)
        if i.op == "alloca":
            return {("alloca",)}
        if i.op == "load":
            return {("load", i)}
        if i.op in ("call", "extractvalue"):
            return {("call", i)}
        return {("?", i)}
    if k == "cx":
        return {("?", None)}
    return {("?", None)}


class At:
    def __init__(self, where):
        self.w = where
    def loc(self):
        return self.w


def check(mods, entries, cfg, rep, unreachable=()):
    """mods: list of (name, Module); entries: names the API consists of; returns statistics"""
    fns, globs, decls = {}, {}, {}
    for mn, m in mods:
        for n, F in m.functions.items():
            fns.setdefault(n, (mn, m, F))
        for n, g in m.globals.items():
            if g.linkage in (8, 9):
                globs[(mn, n)] = g              # internal: one per module
            else:
                o = globs.get(n)
                if o is None or (o.init is None and g.init is not None):
                    globs[n] = g
    seen, todo = set(), [e for e in entries if e in fns]
    st = dict(functions=0, calls=0, asm=0, stores=0)
    mutable = {}
    wparam = {}         # function -> {parameter it writes through: (function, store)}
    sites = []
    edges = {}
    while todo:
        fn = todo.pop()
        if fn in seen:
            continue
        seen.add(fn)
        mn, m, F = fns[fn]
        st["functions"] += 1
        der = {i.name: i for B in F.blocks for i in B.ins if i.name is not None}
        G = lambda n: globs.get((mn, n)) or globs.get(n)
        for B in F.blocks:
            for i in B.ins:
                for o in i.ops:
                    for x in flatf(o):
                        if x[0] == "f" and x[1] in fns:
                            todo.append(x[1])
                        if x[0] == "g":
                            g = G(x[1])
                            rep("external", g is not None and g.init is not None, i, "only the library's own variables and tables are used", "external variable %s" % x[1])
                            rep("tls", g is None or not g.tls, i, "no per-thread data", str(x[1]))
                if i.op in ("call", "invoke") and i.a["callee"][0] == "f" and re.match(r"(llvm\.)?(__aeabi_)?mem(cpy|move|set|clr)", i.a["callee"][1]):
                    for r in roots(F, i.ops[0], der):
                        if r[0] == "arg":
                            wparam.setdefault(fn, {}).setdefault(r[1], (fn, i))
                        if r[0] == "g":
                            mutable.setdefault((mn if (mn, r[1]) in globs else "", r[1]), []).append((fn, i))
                if i.op in ("call", "invoke"):
                    c = i.a["callee"]
                    if c[0] == "asm":
                        st["asm"] += 1
                        arch = {"aarch64": "a64", "armhf": "a32"}.get(cfg, "x64")
                        for l in asm.split_lines(c[1], arch == "x64"):
                            if l[0] == "ins":
                                rep("asmeffect", not BADASM.match(l[1]), i, "assembly touches only the caller's registers and memory", l[3])
                    elif c[0] == "f":
                        st["calls"] += 1
                        n = c[1]
                        if n.startswith("llvm."):
                            rep("call", not BADINTR.match(n), i, "only calls without effects outside the library", n)
                        elif n in fns:
                            todo.append(n)
                            sites.append((fn, der, i, n)); edges.setdefault(fn, set()).add(n)
                            rep("call", True, i, "", "")
                        elif n in NORETURN:
                            rep("call", n in unreachable or (mn in unreachable), i, "a failing assertion is not reachable", n)
                        else:
                            rep("call", n in PURE, i, "only calls without effects outside the library", "call of external function %s" % n)
                    else:
                        st["calls"] += 1
                        for r in roots(F, c, der):
                            ok = r[0] == "f" and r[1] in fns
                            if r[0] == "load":
                                ok = all(x[0] == "g" and G(x[1]) is not None and G(x[1]).init is not None for x in roots(F, r[1].ops[0], der))
                            if r[0] == "const":
                                continue
                            rep("callback", ok, i, "calls through pointers go to the library's own functions", "callee comes from %s" % (r[:1],))
                elif i.op in ("store", "atomicrmw", "cmpxchg"):
                    st["stores"] += 1
                    for r in roots(F, i.ops[1] if i.op == "store" else i.ops[0], der):
                        if r[0] == "arg":
                            wparam.setdefault(fn, {}).setdefault(r[1], (fn, i))
                        if r[0] == "g":
                            mutable.setdefault((mn if (mn, r[1]) in globs else "", r[1]), []).append((fn, i))
                elif i.op in ("fence",):
                    pass
    # writes through parameters, at the call sites that pass library variables
    ch = True
    while ch:
        ch = False
        for fn, der, i, n in sites:
            mn, m, F = fns[fn]
            for a, w in list(wparam.get(n, {}).items()):
                k = int(a[1:]) if a[1:].isdigit() else None
                if k is None or k >= len(i.ops):
                    continue
                for r in roots(F, i.ops[k], der):
                    if r[0] == "arg" and r[1] not in wparam.setdefault(fn, {}):
                        wparam[fn][r[1]] = w; ch = True
                    elif r[0] == "g":
                        l = mutable.setdefault((mn if (mn, r[1]) in globs else "", r[1]), [])
                        if w not in l:
                            l.append(w); ch = True
    init, todo = set(), [f for f in ("base64_stream_encode_init", "base64_stream_decode_init") if f in fns]
    while todo:
        f = todo.pop()
        if f not in init:
            init.add(f); todo += edges.get(f, ())
    st["initfns"] = init
    # function pointers in initialised data
    for mn, m in mods:
        for n, g in m.globals.items():
            if n in ("llvm.global_ctors", "llvm.global_dtors"):
                rep("startup", False, At(mn), "no code runs at program start or exit", n)
            else:
                rep("startup", True, At(mn), "no code runs at program start or exit", "")
        for n in getattr(m, "ifuncs", ()):
            rep("startup", False, At(mn), "no code runs at load time", n)
    st["reached"] = len(seen)
    return st, mutable, seen


def flatf(o):
    if isinstance(o, tuple):
        if len(o) >= 2 and o[0] in ("f", "g"):
            return [o]
        return [y for x in o if isinstance(x, (tuple, list)) for y in flatf(x)]
    if isinstance(o, list):
        return [y for x in o for y in flatf(x)]
    return []
