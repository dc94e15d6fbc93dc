"""Compiles /repo's current sources to LLVM IR in the configurations the repository is built in."""
import os, re, subprocess, shutil, tempfile, glob
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("B64_REPO", "/repo")
CLANG = "/usr/bin/clang-18"; OPT = "/usr/bin/opt-18"; LINK = "/usr/bin/llvm-link-18"; DIS = "/usr/bin/llvm-dis-18"
HAVE = ["AVX512", "AVX2", "NEON32", "NEON64", "SSSE3", "SSE41", "SSE42", "AVX"]
X86 = dict(plain="", ssse3="-mssse3", sse41="-msse4.1", sse42="-msse4.2", avx="-mavx", avx2="-mavx2", avx512="-mavx512vl -mavx512vbmi")
NOASM = ["-DBASE64_%s_USE_ASM=0" % c for c in ("SSSE3", "SSE41", "SSE42", "AVX", "AVX2")]
XH = ["SSSE3", "SSE41", "SSE42", "AVX", "AVX2", "AVX512"]
CONFIGS = {
    # name: (base flags, HAVE_* set, {codec dir: extra flags})
    "native": (["--target=x86_64-linux-gnu"], XH, X86),
    "noasm": (["--target=x86_64-linux-gnu"] + NOASM, XH, X86),
    "i686": (["--target=i686-linux-gnu"], XH, X86),
    "aarch64": (["--target=aarch64-linux-gnu"], ["NEON64"], dict(plain="", neon64="")),
    "armhf": (["--target=arm-linux-gnueabihf"], ["NEON32"], dict(plain="", neon32="-mfpu=neon")),
    "s390x": (["--target=s390x-linux-gnu"], [], dict(plain="")),
}


class BuildError(Exception):
    pass


class Workdir:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="b64sa-")
        return self.d
    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


API = ["base64_encode", "base64_decode", "base64_stream_encode_init", "base64_stream_encode", "base64_stream_encode_final",
       "base64_stream_decode_init", "base64_stream_decode"]


def config_h(work, cfg, have=None):
    d = os.path.join(work, "cfg-" + cfg + ("" if have is None else "-" + "".join("1" if h in have else "0" for h in HAVE)))
    if not os.path.isdir(d):
        tmp = tempfile.mkdtemp(dir=work)
        have = CONFIGS[cfg][1] if have is None else have
        with open(os.path.join(tmp, "config.h"), "w") as f:
            for h in HAVE:
                f.write("#define HAVE_%s %d\n" % (h, 1 if h in have else 0))
        try:
            os.rename(tmp, d)
        except OSError:
            pass
    return d


def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), p.stdout[-3000:]))
    return p.stdout


PASSES = "function(sroa,instsimplify),cgscc(inline),function(sroa,instsimplify),globaldce"

# loops over a constant table (a fixed number of rounds) are written out
UNROLL = "function(loop-simplify,lcssa,loop(loop-rotate,indvars,loop-unroll-full),sroa,instsimplify)"


def compile_ir(work, cfg, src, extra=(), name=None, inline=True, passes=None, have=None):
    """compile one source file of the repository; returns the path of the bitcode"""
    base, _, codecs = CONFIGS[cfg]
    out = os.path.join(work, "%d-%s-%s.bc" % (os.getpid(), cfg, name or src.replace("/", "_")))
    run([CLANG, "-O1", "-funroll-loops", "-Xclang", "-disable-llvm-passes", "-fno-strict-aliasing", "-gline-tables-only", "-std=c99", "-w", "-DBASE64_STATIC_DEFINE",
         "-I" + config_h(work, cfg, have)] + base + list(extra) + ["-emit-llvm", "-c", os.path.join(REPO, src), "-o", out + ".0"])
    if passes == "none":
        os.rename(out + ".0", out)
        return out
    run([OPT, "-passes=" + (passes or PASSES), "-inline-threshold=100000000", out + ".0", "-o", out])
    return out


def lib_sources():
    """the library's own source files, apart from those other files include"""
    fs = sorted(glob.glob(os.path.join(REPO, "lib", "*.c")))
    texts = {f: open(f, errors="replace").read() for f in fs}
    inc = {os.path.basename(x) for t in texts.values() for x in re.findall(r'#\s*include\s*"([^"]+)"', t)}
    return ["lib/" + os.path.basename(f) for f in fs if os.path.basename(f) not in inc] + ["lib/tables/tables.c"]


def lib_plain_ir(work, cfg, extra=()):
    """lib.c, codec_choose.c and the like linked, not inlined"""
    def f():
        bcs = [compile_ir(work, cfg, s, extra, name="P-%s" % s.replace("/", "_"), passes="none") for s in lib_sources()]
        out = os.path.join(work, "%d-%s-plainlib.bc" % (os.getpid(), cfg))
        run([LINK] + bcs + ["-o", out + ".0"])
        run([OPT, "-passes=function(sroa,instsimplify)", out + ".0", "-o", out])
        return out
    return cached(("plainlib", work, cfg, tuple(extra)), f)


def load_lib(work, cfg, have=None, extra=(), tag=""):
    """the library without its codecs: one module, everything inlined into the public functions"""
    from . import llvmir
    key = ("lib", work, cfg, tuple(sorted(have)) if have is not None else None, tuple(extra))
    m = llvmir.load(cached(key, lambda: lib_ir(work, cfg, have, extra, tag)))
    llvmir.mark_const(m)
    return m


def lib_ir_for(work, cfg):
    return cached(("lib", work, cfg, None, ()), lambda: lib_ir(work, cfg))


def lib_ir(work, cfg, have=None, extra=(), tag=""):
    tag += "" if have is None else "".join("1" if h in have else "0" for h in HAVE)
    bcs = [compile_ir(work, cfg, s, extra, name="L%s-%s" % (tag, s.replace("/", "_")), passes="none", have=have) for s in lib_sources()]
    out = os.path.join(work, "%d-%s-lib%s.bc" % (os.getpid(), cfg, tag))
    run([LINK] + bcs + ["-o", out + ".0"])
    run([OPT, "-passes=internalize," + PASSES + "," + UNROLL, "-internalize-public-api-list=" + ",".join(API),
         "-inline-threshold=100000000", "-unroll-threshold=100000", "-unroll-full-max-count=64", "-unroll-allow-partial=0", out + ".0", "-o", out])
    return out


OMP_H = """int omp_get_num_threads(void); int omp_get_thread_num(void); int omp_get_max_threads(void); int omp_get_num_procs(void);
int omp_get_thread_limit(void); int omp_in_parallel(void); int omp_get_dynamic(void); int omp_get_nested(void); int omp_get_level(void); int omp_get_active_level(void);
void omp_set_num_threads(int); void omp_set_dynamic(int); void omp_set_nested(int);
"""


def omp_ir(work, cfg):
    """the library without its codecs as an OpenMP build compiles it"""
    def f():
        inc = os.path.join(work, "omp-inc-%d-%s" % (os.getpid(), cfg))
        os.makedirs(inc, exist_ok=True)
        with open(os.path.join(inc, "omp.h"), "w") as h:
            h.write(OMP_H)
        bcs = [compile_ir(work, cfg, s, ["-fopenmp", "-I" + inc], name="O-%s" % s.replace("/", "_"), passes="none") for s in lib_sources()]
        out = os.path.join(work, "%d-%s-omp.bc" % (os.getpid(), cfg))
        run([LINK] + bcs + ["-o", out + ".0"])
        run([OPT, "-passes=function(sroa,instsimplify)", out + ".0", "-o", out])
        return out
    return cached(("omp", work, cfg), f)


def cli_ir(work, cfg):
    """the command-line tool: one module, everything inlined into main; the library is left out"""
    def f():
        fs = sorted(glob.glob(os.path.join(REPO, "bin", "*.c")))
        texts = {f: open(f, errors="replace").read() for f in fs}
        inc = {os.path.basename(x) for t in texts.values() for x in re.findall(r'#\s*include\s*"([^"]+)"', t)}
        bcs = [compile_ir(work, cfg, "bin/" + os.path.basename(f), ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "lib")], name="B-" + os.path.basename(f), passes="none")
               for f in fs if os.path.basename(f) not in inc]
        out = os.path.join(work, "%d-%s-cli.bc" % (os.getpid(), cfg))
        run([LINK] + bcs + ["-o", out + ".0"])
        run([OPT, "-passes=internalize," + PASSES, "-internalize-public-api-list=main", "-inline-threshold=100000000", out + ".0", "-o", out])
        run([DIS, out, "-o", out + ".ll"])
        if re.search(r"\bcall\b[^@\n]*%[\w.]+\(", open(out + ".ll", errors="replace").read()):
            # calls through pointers become comparisons with the functions that may be meant, and direct calls
            run([OPT, "-passes=attributor," + PASSES, "-inline-threshold=100000000", out, "-o", out])
        return out
    return cached(("cli", work, cfg), f)


CACHE = {}      # what the parent process compiled before the workers were forked


def cached(key, f):
    if key not in CACHE:
        CACHE[key] = f()
    return CACHE[key]


def codec_ir(work, cfg, codec):
    return cached(("codec", work, cfg, codec), lambda: codec_ir_(work, cfg, codec))


def codec_ir_(work, cfg, codec):
    src = "lib/arch/%s/codec.c" % ("generic" if codec == "plain" else codec)
    f = compile_ir(work, cfg, src, CONFIGS[cfg][2].get(codec, "").split())
    # loops with a constant number of rounds are written out; a function without one is left as it is
    ps = "function(loop-simplify,lcssa,loop(loop-rotate,indvars%s))"
    for k, x in enumerate(("", ",loop-unroll-full")):
        run([OPT, "-passes=" + ps % x, "-unroll-threshold=100000", "-unroll-full-max-count=64", "-unroll-allow-partial=0", f, "-o", f + ".u%d" % k])
    if open(f + ".u0", "rb").read() != open(f + ".u1", "rb").read():
        run([OPT, "-passes=" + UNROLL, "-unroll-threshold=100000", "-unroll-full-max-count=64", "-unroll-allow-partial=0", f, "-o", f])
    return f


def load_codec(work, cfg, codec):
    """the codec's module together with the lookup tables of lib/tables"""
    from . import llvmir, asm
    m = llvmir.load(codec_ir(work, cfg, codec))
    t = llvmir.load(cached(("tables", work, cfg), lambda: compile_ir(work, cfg, "lib/tables/tables.c", passes="globalopt")))
    m.absorb(t)
    llvmir.mark_const(m)
    arch = asm.arch_of(cfg)
    if arch:
        for F in m.functions.values():
            asm.lower(F, arch)
    return m


def fingerprint(work, cfg, codec, fn):
    """hash of the IR of one function and of the globals it names, with its own name left out"""
    import hashlib
    t = run([DIS, "-o", "-", codec_ir(work, cfg, codec)])
    lines = t.splitlines()
    glob = {}
    body = None
    md = {}
    for i, l in enumerate(lines):
        if l.startswith("@"):
            glob[l.split(" ", 1)[0]] = l
        elif l.startswith("define ") and re.search(r"@%s\(" % re.escape(fn), l):
            e = next(k for k in range(i, len(lines)) if lines[k] == "}")
            body = lines[i:e]
        elif l.startswith("!"):
            md[l.split(" ", 1)[0]] = l
        elif l.startswith("target "):
            glob.setdefault("", "")
            glob[""] += l
    if body is None:
        return None
    out = "\n".join(re.sub(r",? ![a-z.]+ !\d+", "", re.sub(r" #\d+", "", l)) for l in body).replace(fn, "X")
    seen, todo = {}, re.findall(r"@[\w.$]+", out)
    while todo:
        g = todo.pop()
        if g in seen or g not in glob:
            continue
        seen[g] = re.sub(r",? ![a-z.]+ !\d+", "", glob[g])
        todo += re.findall(r"@[\w.$]+", glob[g])
    return hashlib.sha256((out + repr(sorted(seen.items())) + glob.get("", "")).encode()).hexdigest()
