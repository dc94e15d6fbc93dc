"""ctypes wrapper for core.c: BDDs and bit-vector transfer functions."""
import ctypes, os, subprocess, hashlib, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))

def _build():
    src = os.path.join(HERE, "core.c")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    for d in (os.path.join(HERE, "_cache"), os.path.join(tempfile.gettempdir(), "b64sa-core")):
        so = os.path.join(d, "core-%s.so" % h)
        if os.path.exists(so):
            return so
        try:
            os.makedirs(d, exist_ok=True)
            tmp = so + ".%d" % os.getpid()
            subprocess.run(["/usr/bin/gcc", "-O2", "-w", "-shared", "-fPIC", "-o", tmp, src], check=True)
            os.replace(tmp, so)
            return so
        except OSError:
            continue
    raise RuntimeError("cannot build core.c")

_l = ctypes.CDLL(_build())
_i = ctypes.c_int32
for name, n in (("bdd_ite", 3), ("bdd_and", 2), ("bdd_or", 2), ("bdd_xor", 2), ("bdd_not", 1), ("bdd_var", 1),
                ("bdd_implies", 2), ("bdd_top", 1), ("bdd_lo", 1), ("bdd_hi", 1)):
    f = getattr(_l, name); f.argtypes = [_i] * n; f.restype = _i
_l.bdd_count.restype = ctypes.c_int64
_l.bdd_init()
ite, and_, or_, xor, not_, var = _l.bdd_ite, _l.bdd_and, _l.bdd_or, _l.bdd_xor, _l.bdd_not, _l.bdd_var
implies = _l.bdd_implies
top, lo, hi, count = _l.bdd_top, _l.bdd_lo, _l.bdd_hi, _l.bdd_count

def reset():
    _l.bdd_init()

def arr(t):
    return (_i * len(t))(*t)

OPS = dict(AND=0, OR=1, XOR=2, ADD=3, SUB=4, MUL=5, USUBSAT=6, UADDSAT=8, EQ=10, ULT=11, SLT=12, UMAX=13, UMIN=14)
CMP = (10, 11, 12)

def op(name, w, a, b):
    """element-wise operation on equal-length tuples of nodes, elements w bits wide"""
    o = OPS[name]; n = len(a)
    assert n == len(b) and n % w == 0, (name, w, n, len(b))
    out = (_i * n)()
    if _l.bv_op(o, n, w, arr(a), arr(b), out) != 0:
        raise RuntimeError("bv_op")
    return tuple(out[:n // w]) if o in CMP else tuple(out)

def vite(w, c, a, b):
    n = len(a); out = (_i * n)()
    _l.bv_ite(n, w, arr(c), arr(a), arr(b), out)
    return tuple(out)

def vnot(a):
    out = (_i * len(a))(); _l.bv_not(len(a), arr(a), out); return tuple(out)

def mux(entries, w, idx, dflt=0):
    """entries: flat tuple of nodes (ne*w) or a ready array; idx: tuple of nodes, least significant first"""
    e = entries if not isinstance(entries, (tuple, list)) else arr(entries)
    out = (_i * w)()
    _l.bv_mux(e, len(entries) // w, w, arr(idx), len(idx), dflt, out)
    return tuple(out)

def const(v, w):
    return tuple((v >> i) & 1 for i in range(w))

def is_const(t):
    return all(x < 2 for x in t)

def value(t):
    v = 0
    for i, x in enumerate(t):
        v |= x << i
    return v

def support(fs, nvars=None):
    n = _l.bdd_support(arr(fs), len(fs))
    if not n:
        return []
    o = (_i * n)()
    _l.bdd_support_get(o)
    return o[:]

def keep(f, keepset, nvars=None):
    return _l.bdd_keep_list(f, arr(tuple(keepset)), len(keepset))

def permute(fs, mapping, nvars=None):
    if not fs:
        return ()
    out = (_i * len(fs))()
    a = tuple(mapping)
    _l.bdd_permute_pairs(arr(fs), len(fs), arr(a), arr(tuple(mapping.values())), len(a), out)
    return tuple(out)

def conj(fs):
    r = 1
    for f in fs:
        r = and_(r, f)
    return r

def disj(fs):
    r = 0
    for f in fs:
        r = or_(r, f)
    return r

def sat(f, nvars):
    out = (ctypes.c_int8 * (nvars + 1))(*([-1] * (nvars + 1)))
    if not _l.bdd_sat(f, out):
        return None
    return {v: out[v] for v in range(nvars) if out[v] >= 0}
