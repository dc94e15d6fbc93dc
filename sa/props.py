"""What each property's check analyses, and which proof obligations decide it."""
import os
from . import build

RULES = {
    "text": "delivered characters equal the RFC 4648 text", "bytes": "delivered bytes equal the bytes the text represents",
    "outlen": "reported length is exact", "outlen-set": "output length stored on every return", "outlen-err": "length after an error not larger than what was produced",
    "accept": "accepted where the text is (a prefix of) well-formed base64", "reject": "rejected where it is not", "verdict01": "return value is 0 or 1",
    "read": "reads inside the input block and the tables", "write": "writes inside the documented output size", "outread": "output is never read",
    "cell": "accesses inside local objects, state and length", "mem": "no access through null or unknown pointers", "states": "finitely many stream states, all analysed",
    "pass": "arguments and data pass unchanged through the wrappers", "passlen": "length passes through", "passret": "verdict passes through",
    "init": "stream state initialised", "chosen": "a chosen codec of the right direction is called", "shared": "no shared data touched by encoding/decoding",
    "shared-write": "stores to library variables, all examined", "publish": "published codec pointers never reset", "usable": "codec chosen unasked only if usable",
    "forced": "forced flag gives that codec", "cpuleaf": "processor queried only for what exists", "stub": "absent codec leaves data alone", "stubret": "absent codec returns -1",
    "rank": "ranking function for every loop", "cross": "every codec continues every other codec's stream states", "effects": "no external effect",
}

XENC = [("native", c) for c in ("plain", "ssse3", "sse41", "sse42", "avx", "avx2", "avx512")] + [("noasm", c) for c in ("ssse3", "sse41", "sse42", "avx", "avx2")] + \
    [("i686", "plain"), ("s390x", "plain"), ("aarch64", "neon64"), ("armhf", "neon32")]
XDEC = [("native", c) for c in ("plain", "ssse3", "sse41", "sse42", "avx", "avx2", "avx512")] + [("i686", "plain"), ("s390x", "plain"), ("aarch64", "neon64"), ("armhf", "neon32")]
TENC = [("i686", c) for c in ("ssse3", "sse41", "sse42", "avx", "avx2", "avx512")] + [("noasm", "avx512"), ("aarch64", "plain"), ("armhf", "plain")]
TDEC = [("noasm", c) for c in ("ssse3", "sse41", "sse42", "avx", "avx2", "avx512")] + [("i686", c) for c in ("ssse3", "sse41", "sse42", "avx", "avx2", "avx512")] + [("aarch64", "plain"), ("armhf", "plain")]
COST = {"avx2": 9, "avx512": 8, "avx": 5, "sse42": 5, "sse41": 4, "ssse3": 4, "neon64": 4, "neon32": 4, "plain": 2}


def enc_jobs(tier):
    return [("codec", c, k, "enc") for c, k in XENC + (TENC if tier == "thorough" else [])]


def dec_jobs(tier):
    return [("codec", c, k, "dec") for c, k in XDEC + (TDEC if tier == "thorough" else [])]


def order(jobs):
    return sorted(jobs, key=lambda j: -(COST.get(j[2], 3) + (2 if j[-1] == "dec" else 0) + (3 if j[1] == "native" else 0)) if len(j) > 3 else 0)


STUBS = [("native", c) for c in ("neon32", "neon64")] + [("s390x", c) for c in ("ssse3", "sse41", "sse42", "avx", "avx2", "avx512", "neon32", "neon64")]


def stub_jobs(tier):
    return [("stub", cfg, c, m) for cfg, c in STUBS for m in ("enc", "dec")]


def choice_jobs(tier):
    return [("choice", c) for c in ("native", "aarch64", "armhf", "s390x")] + [("choice", "i686")]


def have_jobs(tier):
    """builds with some of the codecs left out: none, one, all but one (thorough: every selection)"""
    X = build.XH
    if tier == "thorough":
        import itertools
        return [("choice", "native", s) for n in range(len(X)) for s in itertools.combinations(X, n)] + \
               [("choice", "i686", s) for n in (0, 1, len(X) - 1) for s in itertools.combinations(X, n)] + [("choice", c, ()) for c in ("aarch64", "armhf")]
    return [("choice", "native", tuple(s)) for s in [[]] + [[x] for x in X]] + [("choice", "native", tuple(y for y in X if y != x)) for x in ("AVX512", "AVX2")]


def target(cfg):
    return build.CONFIGS[cfg][0][0].split("=")[1]


SAME = {}       # job -> the job whose function is the same code


def prepare(jobs):
    """compiles what the workers will load; returns the jobs left when functions that are the same code are analysed once"""
    from . import bdd            # builds the core library before the workers fork
    from concurrent.futures import ThreadPoolExecutor
    work = jobs[0][0]
    for cfg in {j[2] for j in jobs if len(j) > 2 and j[2] in build.CONFIGS}:
        build.config_h(work, cfg)
    cj = [j for j in jobs if j[1] in ("codec", "rank", "stub")]
    with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        def quiet(f, *a, **k):
            try:
                return f(*a, **k)
            except Exception:
                return None         # the worker meets the error again and reports it
        fs = [ex.submit(quiet, build.codec_ir, work, c, k) for c, k in dict.fromkeys(j[2:4] for j in cj)]
        fs += [ex.submit(quiet, build.lib_ir_for, work, c) for c in dict.fromkeys(j[2] for j in jobs if j[1] in ("codec", "choice"))]
        [f.result() for f in fs]
        fp = {j: ex.submit(quiet, build.fingerprint, work, j[2], j[3], fname(j)) for j in cj}
        fp = {j: f.result() for j, f in fp.items()}
    out, first = [], {}
    for j in jobs:
        k = (j[1], j[2], j[4], fp[j]) if fp.get(j) and j[1] != "stub" else None
        if k is not None and k in first:
            SAME.setdefault(first[k], []).append(j)
            continue
        if k is not None:
            first[k] = j
        out.append(j)
    return out


def fname(j):
    return "base64_stream_%scode_%s" % (j[4][:2], j[3])


def pack(rep, **kw):
    return dict(n=dict(rep.n), fail=[(k[0], k[1], k[2], str(d)[:1500]) for k, d in rep.fail.items()], **kw)


def merge(a, b):
    for k, v in b.n.items():
        a.n[k] = a.n.get(k, 0) + v
    for k, d in b.fail.items():
        a.fail.setdefault(k, d)


def run_job(job):
    from . import codecspec, libspec, engine
    work, kind = job[0], job[1]
    if kind == "codec" or kind == "rank":
        cfg, codec, mode = job[2:5]
        m = build.load_codec(work, cfg, codec)
        fn = "base64_stream_%scode_%s" % (mode[:2], codec)
        if fn not in m.functions:
            raise engine.Unsupported("function %s is gone" % fn)
        rep, table, stats = codecspec.check_codec(m, m.functions[fn], mode, "%s/%s" % (cfg, codec), rank=kind == "rank")
        exits, entries = codecspec.canon_table(table, codecspec.INIT)
        if kind == "codec" and not rep.fail:
            L = build.load_lib(work, cfg)
            r2 = libspec.check_above(L, mode, table, build.CONFIGS[cfg][1], target(cfg), "%s/%s" % (cfg, codec))
            merge(rep, r2)
        return pack(rep, mode=mode, stats=dict(stats, blocks_of_function=len(m.functions[fn].blocks)), exits=exits, entries=entries, kind="codec")
    if kind == "stub":
        cfg, codec, mode = job[2:5]
        m = build.load_codec(work, cfg, codec)
        rep = libspec.check_stub(m, m.functions["base64_stream_%scode_%s" % (mode[:2], codec)], mode, "%s/%s" % (cfg, codec))
        return pack(rep, mode=mode, kind="stub")
    if kind == "choice":
        cfg = job[2]
        have = build.CONFIGS[cfg][1] if len(job) < 4 else list(job[3])
        L = build.load_lib(work, cfg, have=have)
        rep, stats, reach = libspec.check_choice(L, have, target(cfg), cfg + ("" if len(job) < 4 else " with " + (",".join(have) or "no SIMD codec")))
        return pack(rep, mode="lib", stats=stats, kind="choice")
    if kind == "effects":
        from . import effects, llvmir
        cfg = job[2]
        rep = engine.Report()
        mods = [("lib", llvmir.load(build.lib_plain_ir(work, cfg)))]
        entries = list(build.API)
        unreachable = set()
        codecs = list(build.CONFIGS[cfg][2])
        every = ["plain", "ssse3", "sse41", "sse42", "avx", "avx2", "avx512", "neon32", "neon64"]
        for c in every:
            m = llvmir.load(build.codec_ir(work, cfg, c))
            if any(i.op == "call" and i.a["callee"][0] == "f" and i.a["callee"][1] in codecspec.NORETURN for F in m.functions.values() for B in F.blocks for i in B.ins):
                bad = False
                for mode in ("enc", "dec"):
                    r2, _, _ = codecspec.check_codec(*(lambda m_: (m_, m_.functions["base64_stream_%scode_%s" % (mode[:2], c)]))(build.load_codec(work, cfg, c)), mode, "%s/%s" % (cfg, c))
                    bad |= any(k[0] == "effects" for k in r2.fail)
                if not bad:
                    unreachable.add(c)
            mods.append((c, m))
            entries += ["base64_stream_encode_" + c, "base64_stream_decode_" + c]
        for e in entries:
            rep.ob("entry", any(e in m.functions for _, m in mods), effects.At("lib/"), "the function %s exists" % e)
        st, mut, seen = effects.check(mods, entries, cfg, rep.ob, unreachable)
        for (mn, g), ws in mut.items():
            for fn, i in ws:
                rep.ob("mutable", fn in st["initfns"], i, "library variables are written only by the initialisation and what it calls", "%s writes %s" % (fn, g))
        st["initfns"] = sorted(st["initfns"])
        return pack(rep, mode="lib", stats=dict(st, written_globals=sorted(g for _, g in mut)), kind="effects")
    if kind == "cli":
        from . import cli, clirun, llvmir
        cfg = job[2]
        rep = engine.Report()
        c = cli.Cli(llvmir.load(build.cli_ir(work, cfg)))
        r = clirun.Run(c)
        obs = r.run(os.cpu_count() or 4)
        for (k, mode, loc, fn, name), (good, bad, ex) in sorted(obs.items()):
            kk = "%s:%s" % (mode[:3], k)
            rep.n[kk] = rep.n.get(kk, 0) + good + bad
            if bad:
                rep.fail.setdefault((kk, loc, ex[0]), "in function %s; %s" % (fn, ex[1]))
        return pack(rep, mode="cli", kind="cli", stats=dict(blocks=len(c.F.blocks), joins=len(c.joins), loops=len(c.heads), places=len(obs),
                    kinds_of_runs={" ".join(k): dict(steps=v[0], abstract_states=v[1]) for k, v in sorted(r.classes.items())}))
    if kind == "omp":
        from . import omp, llvmir
        cfg = job[2]
        rep = engine.Report()
        st = omp.check(llvmir.load(build.omp_ir(work, cfg)), cfg, rep)
        return pack(rep, mode="lib", stats=st, kind="omp")
    if kind == "asm":
        from . import asmlint, llvmir
        cfg = job[2]
        rep = engine.Report()
        mods = 0; st = ins = 0
        for m in [llvmir.load(build.codec_ir(work, cfg, c)) for c in build.CONFIGS[cfg][2]] + [build.load_lib(work, cfg)]:
            llvmir.mark_const(m)
            a, b = asmlint.check_module(m, cfg, rep.ob)
            mods += 1; st += a; ins += b
        return pack(rep, mode="lib", stats=dict(modules=mods, statements=st, instructions=ins), kind="asm")
    raise ValueError(kind)


def effects_jobs(tier):
    return [("effects", c) for c in ("native", "noasm", "i686", "aarch64", "armhf", "s390x")]


RULES.update(call="only calls without outside effects", callback="indirect calls stay inside the library", asmeffect="assembly without outside effects", external="no external variables",
             tls="no per-thread data", startup="no start-up code", entry="API and codec functions exist", mutable="variables written only by codec choice")
ASMK = ("asmro", "asmreg", "asmcc", "asmmem", "asmuse", "asmout", "asmearly", "asmlabel")
RULES.update(asmro="input-only operands are not modified", asmreg="registers changed are outputs or clobbers", asmcc="changed flags are declared",
             asmmem="memory read or written is declared", asmuse="registers read hold an operand or a written value", asmout="outputs are written",
             asmearly="early-clobber marks", asmlabel="labels are local")


CLIK = dict(line="no line grows beyond the wrap width", newline="newlines only after full lines and after the last partial one",
            feed="all input reaches the codec once, in order, in the state the last call left", final="the text is finished once, after all input", deliver="all output is written before success is reported",
            order="bytes are written in order, none twice, none left out", skip="the decoder gets no byte that is to be skipped, and no other byte is skipped", exit="exit status tells failure from success",
            pending="buffered output is flushed and checked", again="no write after a permanent error, interrupted writes are retried", bounds="accesses stay inside objects", deref="accesses through valid pointers only",
            free="memory and streams are released once and not used afterwards", fit="the codec's output fits and does not overlap its input", full="vector lists stay within the limit",
            stale="only bytes of the block just read are used", mode="direction, set-up and help as the options say", optable="every documented option is accepted, with its argument",
            input="input comes from the named file or standard input", wrapval="wrap widths are decimal numbers within range")
RULES.update({m + ":" + k: v for k, v in CLIK.items() for m in ("opt", "enc", "dec")})


def cli_jobs(tier):
    return [("cli", c) for c in (("native",) if tier != "thorough" else ("native", "i686", "aarch64", "armhf", "s390x"))]


def omp_jobs(tier):
    return [("omp", c) for c in ("native", "i686", "aarch64", "armhf", "s390x")]


OMPK = ("part", "race", "ompstate", "omplen", "ompret", "ompwrap", "ompentry")
RULES.update(part="the parts are whole groups that cover input and output without gap or overlap", race="no shared variable is changed while another thread uses it",
             ompstate="every part has a fresh stream state of its own, the rest continues at a group boundary", omplen="the length reported is the sum of the parts",
             ompret="the verdict is that of the serial code for every combination of verdicts of the parts", ompwrap="lengths and positions computed without overflow",
             ompentry="all code that starts threads is analysed")


def ck(enc="", dec="", opt=""):
    return [m + ":" + k for m, ks in (("enc", enc), ("dec", dec), ("opt", opt)) for k in ks.split()]


class Prop:
    level = "proof"
    trusted = ["clang 18 front end and LLVM 18 sroa/instsimplify/inline passes (the IR analysed is what they produce)",
               "the analysis engine in sa/ (abstract interpreter, BDD core, polyhedral constraints, instruction semantics)"]
    assumptions = ["buffers the caller passes are as large as documented, do not overlap and are smaller than half the address space",
                   "the caller passes a stream state that was initialised and otherwise only changed by the library"]

    technique = "abstract interpretation of LLVM IR and inline assembly"
    note = "every input, length and stream state, for the configurations listed in the evidence (x86-64 with and without inline assembly, i686, AArch64, Arm32, s390x)"

    def __init__(self, jobs, enc=(), dec=(), lib=(), stub=(), cli=(), trusted=None, assumptions=None, method="", cross=(), need=(), technique=None, note=None, level=None):
        if technique: self.technique = technique
        if note: self.note = note
        if level: self.level = level
        self._jobs, self.k = jobs, dict(enc=set(enc), dec=set(dec), lib=set(lib), cli=set(cli))
        if trusted: self.trusted = trusted
        if assumptions: self.assumptions = assumptions
        self.stubk = set(stub); self.method = method; self.crossm = cross; self.need = need

    def jobs(self, tier):
        js = []
        for f in self._jobs:
            js += f(tier)
        return order(list(dict.fromkeys(js)))

    def want(self, r, k):
        if r.get("kind") == "stub":
            return k in self.stubk
        return k in self.k.get(r.get("mode"), ())

    def fails(self, r):
        return [f for f in r.get("fail", ()) if self.want(r, f[0])]

    def cross(self, results):
        from . import codecspec
        self.ncross = 0
        by = {}
        for r in results:
            if r.get("kind") == "codec" and r["mode"] in self.crossm:
                by.setdefault((r["mode"], r["job"].split()[1].replace("noasm", "native")), []).append(r)
        for (mode, cfg), rs in by.items():
            for a in rs:
                for b in rs:
                    if a is b:
                        continue
                    for st, cs in a["exits"].items():
                        if st == "D":
                            continue
                        for c in cs:
                            self.ncross += 1
                            if not codecspec.covered(c, b["entries"].get(st, ())):
                                yield ("cross", "%s -> %s" % (a["job"], b["job"]), "the stream state one codec leaves (status %s) is one the other codec has been analysed for" % st, str(c)[:500])

    def vacuous(self, n, results):
        out = [k for k in self.need if not n.get(k)]
        for r in results:
            if r.get("kind") == "codec" and not any(self.want(r, k) for k in r.get("n", ())):
                out.append(r["job"])
        return out


CODEC = "abstract interpretation of the LLVM IR (inline assembly included) of every codec: symbolic linear offsets, Boolean functions (BDDs) of the input bytes, inductive loop invariants; every call from every reachable stream state"
LIB = "; finalisation and one-shot functions analysed on top of the table of codec outcomes this yields"

NOT_APPLICABLE = {}

ALLM = "bounds deref free stale"        # a state whose memory is broken is not followed any further
CLIM = "abstract interpretation of main() with everything inlined, over the models of the C library and system calls in sa/cli.py: relational (polyhedral) invariants between input read, handed to the codec, text queued and text written, partitioned by options, stream state and pending errors; every result the calls can have is followed"
CLITRUST = ["clang 18 front end and LLVM 18 sroa/instsimplify/inline passes (the IR analysed is what they produce)", "the abstract interpreter and the models of libc and POSIX functions in sa/cli.py, sa/clirun.py, sa/poly.py"]
CLIASSUME = ["the library functions behave as C01-C08 and C12 state (checked there)", "libc and POSIX functions behave as specified; every result they may return is considered, EINTR, short counts and failures included", "MinGW's emulation of writev is not part of the build analysed"]
CLIKW = dict(method=CLIM, trusted=CLITRUST, assumptions=CLIASSUME, technique="abstract interpretation of the LLVM IR of the command-line tool (relational numeric domain with typestate)",
             note="every input, option combination and result of system calls; x86-64 (quick), and i686, AArch64, Arm32, s390x (thorough)")

PROPS = {
    "C15": Prop([cli_jobs], cli=ck("line newline feed final deliver order again fit full " + ALLM), need=["enc:line", "enc:newline", "enc:feed", "enc:deliver", "enc:order"], **CLIKW),
    "C16": Prop([cli_jobs], cli=ck("", "skip feed deliver order again fit full " + ALLM), need=["dec:skip", "dec:feed", "dec:deliver", "dec:order"], **CLIKW),
    "C17": Prop([cli_jobs], cli=ck("exit pending " + ALLM, "exit pending " + ALLM, "exit pending " + ALLM), need=["enc:exit", "dec:exit", "opt:exit"], **CLIKW),
    "C18": Prop([cli_jobs], cli=ck("order again deliver full " + ALLM, "order again deliver " + ALLM), need=["enc:order", "enc:again", "dec:order", "dec:again"], **CLIKW),
    "C19": Prop([cli_jobs], cli=ck("bounds deref free fit full stale", "bounds deref free fit full stale", "bounds deref free"), need=["enc:bounds", "dec:bounds", "enc:fit", "dec:fit", "enc:full"], **CLIKW),
    "C20": Prop([cli_jobs], cli=ck("mode input wrapval line newline exit", "mode input skip exit", "mode optable input wrapval exit bounds deref"), need=["opt:mode", "opt:optable", "enc:mode", "dec:mode", "opt:wrapval"], **CLIKW),
    "C13": Prop([omp_jobs], lib=OMPK, need=["part", "race", "ompstate", "omplen", "ompret", "ompwrap"],
                method="the OpenMP build's LLVM IR (outlined parallel regions) interpreted for one thread t of N over polynomials in t, N, the length and the quotients formed from it: partition, ownership of variables between barriers, reductions for every combination of the parts' verdicts",
                technique="abstract interpretation of the outlined parallel regions (polynomial value domain, per-phase ownership analysis, reduction summaries)",
                trusted=["clang 18 front end and its OpenMP lowering", "the OpenMP runtime", "the abstract interpreter in sa/omp.py"],
                assumptions=["the stream functions behave as C01-C07 state (checked there)", "fewer than 2^24 threads", "buffers are smaller than half the address space (2^60 bytes on 64-bit systems)"],
                note="every length, thread count and schedule; x86-64, i686, AArch64, Arm32, s390x, as lowered by clang"),
    "C01": Prop([enc_jobs], enc=["text", "outlen", "outlen-set", "states", "pass", "init", "chosen"], method=CODEC + LIB, need=["text", "outlen", "pass"]),
    "C02": Prop([dec_jobs], dec=["bytes", "outlen", "outlen-set", "states", "pass", "init", "chosen", "accept"], method=CODEC + LIB, need=["bytes", "outlen", "accept"]),
    "C03": Prop([dec_jobs], dec=["accept", "reject", "verdict01", "states", "pass", "init", "chosen"], method=CODEC + LIB, need=["accept", "reject"]),
    "C04": Prop([enc_jobs], enc=["text", "outlen", "outlen-set", "states", "shared", "init", "pass"], method=CODEC + LIB, cross=("enc",), need=["text", "outlen", "cross"]),
    "C05": Prop([dec_jobs], dec=["bytes", "accept", "reject", "verdict01", "outlen", "outlen-set", "states", "shared", "init", "pass"], method=CODEC + LIB, cross=("dec",), need=["bytes", "reject", "accept", "cross"]),
    "C06": Prop([enc_jobs, dec_jobs], enc=["read", "cell", "mem"], dec=["read", "cell", "mem"], method=CODEC, need=["read"]),
    "C07": Prop([enc_jobs, dec_jobs], enc=["write", "outread", "cell", "mem", "shared"], dec=["write", "outread", "cell", "mem", "shared"], method=CODEC, need=["write"]),
    "C08": Prop([enc_jobs, dec_jobs, stub_jobs, lambda t: [("choice", "s390x")]], enc=["outlen", "outlen-set", "outlen-err"], dec=["outlen", "outlen-set", "outlen-err"], lib=["passlen", "pass"],
                stub=["outlen", "outlen-set"], method=CODEC + LIB, need=["outlen", "outlen-set", "outlen-err", "passlen"]),
    "C09": Prop([choice_jobs, have_jobs, stub_jobs], lib=["usable", "forced", "cpuleaf", "init", "chosen", "publish"], stub=["stub", "stubret", "outlen", "outlen-set"],
                method="abstract interpretation of initialisation and codec choice with the CPUID/XGETBV results and the flags as symbolic bits, over all reachable contents of the library's variables (half-chosen ones of concurrent threads included); the stream functions are run on the result to see which codec they call",
                need=["usable", "forced", "cpuleaf", "stubret"]),
    "C14": Prop([lambda t: [("asm", c) for c in ("native", "noasm", "i686", "aarch64", "armhf", "s390x")]], lib=ASMK,
                method="every inline assembly statement of every configuration: uses and definitions of each instruction against constraints and clobbers, by dataflow (must-written, reachable-later-use) over the statement's own control flow",
                need=["asmreg", "asmcc", "asmmem", "asmuse", "asmout", "asmearly"], technique="dataflow over inline assembly"),
    "C10": Prop([enc_jobs, dec_jobs, choice_jobs, effects_jobs], enc=["shared", "text"], dec=["shared", "bytes"], lib=["publish", "shared", "shared-write", "chosen", "mutable", "external", "tls"], cross=("enc", "dec"),
                method=CODEC + "; the library's variables are followed over all reachable contents, half-chosen ones included; every codec is analysed from every other codec's stream states", need=["publish", "cross", "shared-write", "mutable", "text", "bytes"]),
    "C11": Prop([effects_jobs], lib=["call", "callback", "asmeffect", "external", "tls", "startup", "entry", "mutable"],
                method="call graph from the API over the IR of every codec and the library: callees, intrinsics, instructions of inline assembly, globals, start-up code",
                need=["call", "callback", "asmeffect", "external", "startup"], technique="effect analysis on the call graph of the LLVM IR"),
    "C12": Prop([lambda t: [("rank",) + j[1:] for j in enc_jobs(t) + dec_jobs(t)], choice_jobs], enc=["rank", "states"], dec=["rank", "states"], lib=["init", "chosen"],
                method="ranking functions over the abstract states of every loop head: some offset or counter provably moves towards a bound on every way round the loop, recursively for nested loops; the functions above the codecs must have no loop or a ranked one", need=["rank"]),
}
