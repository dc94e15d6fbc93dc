"""C13: the OpenMP code of the one-shot functions.

The team of threads is analysed through one thread of unknown number t among an unknown number N: its code runs on polynomials over t, N, the
input length and the quotients the code forms, with facts (inequalities) gathered at branches.  What each thread stores to shared variables is
sorted by phase (the code between two barriers) and by who executes it (all threads, the one of a `single', the reduction), the parts given to the
stream functions are compared as polynomials in the iteration number, and the reductions are followed for every combination of outcomes of the
parts (all good, none available, at least one bad)."""
from . import engine, poly

API = {"base64_stream_encode_init", "base64_stream_encode", "base64_stream_encode_final", "base64_stream_decode_init", "base64_stream_decode"}
MAXN = 1 << 24
LIMIT = 20000


class Unproven(Exception):
    def __init__(self, ins, what):
        Exception.__init__(self, what)
        self.ins, self.what = ins, what


class Pl:
    """polynomial with integer coefficients"""
    __slots__ = ("t",)

    def __init__(self, t=None):
        self.t = t or {}

    def __add__(self, o):
        o = pl(o); t = dict(self.t)
        for m, c in o.t.items():
            v = t.get(m, 0) + c
            if v: t[m] = v
            else: t.pop(m, None)
        return Pl(t)
    __radd__ = __add__

    def __neg__(self):
        return Pl({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-pl(o))

    def __rsub__(self, o):
        return pl(o) - self

    def __mul__(self, o):
        o = pl(o); t = {}
        for a, x in self.t.items():
            for b, y in o.t.items():
                m = tuple(sorted(a + b)); v = t.get(m, 0) + x * y
                if v: t[m] = v
                else: t.pop(m, None)
        return Pl(t)
    __rmul__ = __mul__

    def __eq__(self, o):
        return isinstance(o, (Pl, int)) and self.t == pl(o).t

    def __hash__(self):
        return hash(frozenset(self.t.items()))

    def const(self):
        if not self.t:
            return 0
        return self.t[()] if len(self.t) == 1 and () in self.t else None

    def syms(self):
        return {s for m in self.t for s in m}

    def subst(self, s, p):
        if not any(s in m for m in self.t):
            return self
        r = Pl()
        for m, c in self.t.items():
            k = m.count(s)
            x = Pl({tuple(y for y in m if y != s): c})
            for _ in range(k):
                x = x * p
            r = r + x
        return r

    def divides(self, k):
        return all(c % k == 0 for c in self.t.values())

    def over(self, k):
        return Pl({m: c // k for m, c in self.t.items()})

    def lin(self):
        return poly.Lin({m: c for m, c in self.t.items() if m}, self.t.get((), 0))

    def __repr__(self):
        if not self.t:
            return "0"
        return " + ".join(("%d" % c if not m else ("" if c == 1 else "%d*" % c) + "*".join(m)) for m, c in sorted(self.t.items(), key=lambda z: (-len(z[0]), z[0]))).replace("+ -", "- ")


def pl(x):
    return x if isinstance(x, Pl) else Pl({(): x} if x else {})


def sy(s):
    return Pl({(s,): 1})


class Frame:
    __slots__ = ("F", "b", "k", "prev", "env", "ret", "id")

    def copy(self):
        f = Frame(); f.F, f.b, f.k, f.prev, f.env, f.ret, f.id = self.F, self.b, self.k, self.prev, dict(self.env), self.ret, self.id
        return f


class St:
    def __init__(self):
        self.fr = []; self.mem = {}; self.facts = []; self.n = sy("n"); self.log = []; self.acc = []; self.phase = 0; self.who = "team"
        self.team = None; self.iter = None; self.inloop = False; self.one = True; self.hav = {}; self.snaps = []; self.contrib = {}; self.ended = False
        self.sums = {}; self.nexts = 0; self.used = {}; self.crit = {}; self.mute = False

    def copy(self):
        s = St(); s.__dict__.update(self.__dict__)
        s.fr = [f.copy() for f in self.fr]; s.mem = {o: dict(m) for o, m in self.mem.items()}; s.facts = list(self.facts)
        s.log = list(self.log); s.acc = list(self.acc); s.hav = dict(self.hav); s.snaps = [x.copy() for x in self.snaps]; s.contrib = dict(self.contrib); s.sums = dict(self.sums); s.used = dict(self.used); s.crit = dict(self.crit)
        return s

    def subst(self, s, p):
        def v(x):
            if isinstance(x, Pl):
                return x.subst(s, p)
            if isinstance(x, tuple):
                return tuple(v(y) for y in x)
            if isinstance(x, dict):
                return {k: v(y) for k, y in x.items()}
            return x
        for f in self.fr:
            for k, x in list(f.env.items()):
                f.env[k] = v(x)
        for o in self.mem:
            self.mem[o] = {v(k): v(x) for k, x in self.mem[o].items()}
        self.facts = [f.subst(s, p) for f in self.facts]
        self.n = self.n.subst(s, p)
        self.log = [v(x) for x in self.log]; self.iter = v(self.iter); self.hav = v(self.hav); self.contrib = v(self.contrib); self.team = v(self.team)
        self.sums = v(self.sums)
        for x in self.snaps:
            x.subst(s, p)

    # facts
    def fact(self, p):
        if p.const() is None and p not in self.facts:
            self.facts.append(p)

    def feasible(self):
        return not self.ge(pl(-1))

    def rows(self, deg):
        r = [f.lin() for f in self.facts]
        if deg:
            fs = [f for f in self.facts if max(len(m) for m in f.t) == 1 and len(f.t) <= 6]
            for i, a in enumerate(fs):
                for b in fs[i:]:
                    r.append((a * b).lin())
        return r

    def ge(self, p):
        """p >= 0 follows from the facts"""
        p = pl(p)
        c = p.const()
        if c is not None and c >= 0:
            return True
        for d in (0, 1):
            if d and c is None and all(len(m) < 2 for m in p.t) and not any(len(m) > 1 for f in self.facts for m in f.t):
                return False
            m = poly.lp_min(poly.Lin(p.lin().t, 0), self.rows(d))
            if m is None:
                return True             # contradictory facts
            if m not in (poly.INF, -poly.INF) and m + p.t.get((), 0) > -1:
                return True
        return False

    def eq(self, p):
        return p.const() == 0 if p.const() is not None else self.ge(p) and self.ge(-p)


class Omp:
    def __init__(self, mod, rep, case):
        self.m, self.rep = mod, rep
        self.W = mod.ptrbits
        self.case = case
        self.fresh = 0
        self.at = None, None
        self.steps = 0
        self.mod_cells = set()
        self.totals = None
        self.ids = 0
        self.seen = set()

    def new(self, p):
        """a new unknown, named after the instruction that makes it so that runs under different cases agree on the names"""
        st, i = self.at
        if st is None:
            self.fresh += 1
            return sy("%s#%d" % (p, self.fresh))
        k = "%s.%s.%s" % (p, "f%d" % len(st.fr), i.name)
        c = st.used.get(k, 0); st.used[k] = c + 1
        return sy(k + ("" if not c else "#%d" % c))

    # -- values ------------------------------------------------------------------------------------------------------
    def val(self, st, o):
        k = o[0]
        if k == "v":
            return st.fr[-1].env[o[1]]
        if k == "c":
            w = o[2].w; c = o[1]
            return pl(c if w == 1 or c < 1 << (w - 1) else c - (1 << w))
        if k == "g":
            return ("p", "G:" + o[1], pl(o[2]))
        if k == "f":
            return ("f", o[1])
        if k == "null":
            return ("null",)
        if k in ("u", "z"):
            return pl(0) if k == "z" else self.new("undef")
        return self.new("const")

    def urange(self, st, x, w):
        """the value as an unsigned number, or None if it may have wrapped"""
        if st.ge(x) and st.ge(pl((1 << w) - 1) - x):
            return x
        if st.ge(-x - 1) and st.ge(x + (1 << w)):
            return x + (1 << w)
        return None

    def srange(self, st, x, w):
        h = 1 << (w - 1)
        if st.ge(x + h) and st.ge(pl(h - 1) - x):
            return x
        y = x - (1 << w)
        if st.ge(y + h) and st.ge(pl(h - 1) - y):
            return y
        return None

    def nowrap(self, st, ins, x, w, signed=False):
        r = (self.srange if signed else self.urange)(st, x, w)
        if r is None and st.mute:
            return x
        self.rep.ob("ompwrap", r is not None, ins, "lengths and positions are computed without overflow", lambda: "%r in %d bits, with %r" % (x, w, st.facts))
        return x if r is None else r

    def div(self, st, a, b):
        """floor(a / b) and the remainder; both unsigned, b > 0"""
        c = b.const()
        if c is not None and c > 0:
            if a.divides(c):
                return a.over(c), pl(0)
            hi = Pl({m: x - x % c for m, x in a.t.items() if x - x % c}); lo = a - hi
            if st.ge(lo) and st.ge(pl(c - 1) - lo):
                return hi.over(c), lo
        if a.const() is not None and c:
            return pl(a.const() // c), pl(a.const() % c)
        if st.ge(a) and st.ge(b - 1 - a):
            return pl(0), a
        # a = b*q + r with r < b found by matching a multiple of b
        for m, x in a.t.items():
            for m2, y in b.t.items():
                if len(m2) and set(m2) <= set(m) and x % y == 0:
                    rest = list(m)
                    ok = True
                    for s in m2:
                        if s in rest: rest.remove(s)
                        else: ok = False
                    if not ok:
                        continue
                    qq = Pl({tuple(rest): x // y}); r = a - qq * b
                    if len(r.t) < len(a.t) and st.ge(r) and st.ge(b - 1 - r):
                        return qq, r
        q, r = self.new("q"), self.new("r")
        body = b * q + r
        for s in sorted(a.syms(), key=lambda s: (s != "n", s)):
            if a.t.get((s,), 0) == 1 and sum(1 for m in a.t if s in m) == 1 and s not in b.syms() and not s.startswith("N"):
                st.subst(s, body - (a - sy(s)))
                break
        else:
            st.fact(a - body); st.fact(body - a)
        st.fact(q); st.fact(r); st.fact(b - 1 - r)
        return q, r

    def update(self, st, ins, obj, off, size, d, who):
        """every thread adds d to a shared variable, one after the other"""
        save, st.who = st.who, who
        self.access(st, ins, obj, off, size, "w")
        st.who = save
        k = ("at", obj, off.const(), size, bool(st.inloop or st.one and st.iter is not None))
        st.contrib[k] = st.contrib.get(k, pl(0)) + d

    # -- memory ------------------------------------------------------------------------------------------------------
    def shared(self, st, obj):
        return st.team is not None and not obj.startswith("T%d:" % st.team[1])

    def access(self, st, ins, obj, off, size, rw):
        if self.shared(st, obj) and not obj.startswith("G:"):
            st.acc.append((obj, off.const(), size, rw, st.who, st.phase, ins))

    def ptr(self, st, ins, v):
        if not (isinstance(v, tuple) and v[0] == "p"):
            raise Unproven(ins, "access through an unknown pointer")
        return v[1], v[2]

    def load(self, st, ins, v, size, ptr=False):
        obj, off = self.ptr(st, ins, v)
        if obj in ("src", "out"):
            return self.new("data")
        self.access(st, ins, obj, off, size, "r")
        c = off.const()
        if c is None:
            return self.new("elem")
        if st.who.startswith("lock") and self.shared(st, obj) and not ptr:
            if (obj, c) not in st.crit:
                if isinstance(st.mem.get(obj, {}).get(c, (0, None))[1], Pl):
                    st.crit[obj, c] = (size, self.new("crit"), None)
            if (obj, c) in st.crit:
                return st.crit[obj, c][2] or st.crit[obj, c][1]
        m = st.mem.get(obj, {})
        if c in m and m[c][0] == size:
            return m[c][1]
        for o, (sz, x) in m.items():
            if o <= c and c + size <= o + sz and isinstance(x, tuple) and x[0] == "tok":
                return self.field(st, x, c - o)
        x = self.new("mem")
        if not any(o < c + size and c < o + sz for o, (sz, _) in m.items()):
            st.mem.setdefault(obj, {})[c] = (size, x)
        return x

    def field(self, st, tok, off):
        kind = tok[1]
        if kind == "init" and off in (0, 4):
            return pl(0)
        if kind == "after" and off in (0, 4):
            return tok[3] if off == 0 else tok[4]
        return self.new("field")

    def store(self, st, ins, v, size, x, note=True):
        obj, off = self.ptr(st, ins, v)
        if obj in ("src", "out"):
            self.rep.ob("part", False, ins, "the input and output are touched by the stream functions only", "")
            return
        if note:
            self.access(st, ins, obj, off, size, "w")
        c = off.const()
        if st.who.startswith("lock") and self.shared(st, obj):
            if (obj, c) not in st.crit or not isinstance(x, Pl):
                raise Unproven(ins, "a shared variable set, not updated, under a lock")
            st.crit[obj, c] = (st.crit[obj, c][0], st.crit[obj, c][1], x)
            return
        m = st.mem.setdefault(obj, {})
        if c is None:
            m.clear()
            return
        for o in [o for o, (sz, _) in m.items() if o < c + size and c < o + sz and (o, sz) != (c, size)]:
            sz, x0 = m.pop(o)
            if isinstance(x0, tuple) and x0[0] == "tok":
                m[o] = (sz, ("tok", "changed"))
                return
        m[c] = (size, x)

    def memcpy(self, st, ins, d, s, n):
        (do, df), (so, sf) = self.ptr(st, ins, d), self.ptr(st, ins, s)
        n = n.const()
        if n is None or df.const() is None or sf.const() is None or do in ("src", "out") or so in ("src", "out"):
            raise Unproven(ins, "copy of unknown extent")
        df, sf = df.const(), sf.const()
        self.access(st, ins, so, pl(sf), n, "r"); self.access(st, ins, do, pl(df), n, "w")
        got = {o - sf: x for o, x in st.mem.get(so, {}).items() if sf <= o and o + x[0] <= sf + n}
        m = st.mem.setdefault(do, {})
        for o in [o for o, (sz, _) in m.items() if o < df + n and df < o + sz]:
            m.pop(o)
        for o, x in got.items():
            m[df + o] = x

    # -- machine -----------------------------------------------------------------------------------------------------
    def enter(self, st, F, args, ret, ins):
        f = Frame(); f.F, f.b, f.k, f.prev, f.ret = F, F.blocks[0], 0, None, ret
        self.seen.add(F.name)
        self.ids += 1; f.id = self.ids
        if len(st.fr) > 40:
            raise Unproven(ins, "recursion")
        f.env = {p[0]: a for p, a in zip(F.params, args)}
        st.fr.append(f)

    def go(self, st, depth):
        """runs until the frame count falls below depth; returns the final states with their return values"""
        out, work = [], [st]
        while work:
            st = work.pop()
            while True:
                self.steps += 1
                if self.steps > LIMIT:
                    raise Unproven(st.fr[-1].b.ins[-1], "the analysis does not end")
                f = st.fr[-1]
                i = f.b.ins[f.k]
                if i.op == "phi":
                    vals = []
                    heads = self.heads(f.F)
                    while i.op == "phi":
                        x = None
                        for o, b in zip(i.ops, i.a["from"]):
                            if b is f.prev:
                                x = self.val(st, o)
                        if st.inloop and not st.one and f.b in heads and isinstance(x, Pl) and x != st.iter[0] and f.prev not in heads[f.b]:
                            x = self.new("carried")
                        vals.append((i.name, x)); f.k += 1
                        i = f.b.ins[f.k]
                    f.env.update(vals)
                    continue
                f.k += 1
                self.at = st, i
                r = self.step(st, i)
                if r is None:
                    continue
                if r == "ret":
                    if len(st.fr) < depth:
                        out.append((st, self.retv))
                        break
                    continue
                work.extend(r)
                break
        return out

    def heads(self, F):
        if not hasattr(F, "omp_heads"):
            h = {}
            order, seen, stack = [], set(), [(F.blocks[0], iter(F.blocks[0].succ))]
            on = {F.blocks[0]}; seen.add(F.blocks[0])
            while stack:
                b, it = stack[-1]
                for s in it:
                    if s in on:
                        h.setdefault(s, set()).add(b)
                    elif s not in seen:
                        seen.add(s); on.add(s); stack.append((s, iter(s.succ)))
                        break
                else:
                    on.discard(b); stack.pop()
            F.omp_heads = h
        return F.omp_heads

    def jump(self, st, b):
        f = st.fr[-1]
        f.prev, f.b, f.k = f.b, b, 0

    def step(self, st, i):
        f = st.fr[-1]; env = f.env; op = i.op
        if op in ("add", "sub", "mul", "shl", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "lshr", "ashr"):
            env[i.name] = self.arith(st, i)
        elif op in ("zext", "sext", "trunc"):
            x = self.val(st, i.ops[0]); w = i.a["oty"].w
            if not isinstance(x, Pl):
                env[i.name] = self.new("x")
            elif op == "zext":
                env[i.name] = x if w == 1 else self.nowrap(st, i, x, w)
            elif op == "sext":
                env[i.name] = -x if w == 1 else self.nowrap(st, i, x, w, True)
            else:
                env[i.name] = x if i.ty.w > 1 else self.arith_and1(st, x)
        elif op in ("bitcast", "freeze", "ptrtoint", "inttoptr", "addrspacecast"):
            env[i.name] = self.val(st, i.ops[0])
        elif op == "icmp":
            return self.icmp(st, i)
        elif op == "select":
            c = self.val(st, i.ops[0])
            if not isinstance(c, Pl):
                raise Unproven(i, "condition on a pointer")
            if c.const() is None:
                return self.fork(st, i, c, lambda s, b: s.fr[-1].env.__setitem__(i.name, self.val(s, i.ops[1 if b else 2])))
            env[i.name] = self.val(st, i.ops[1 if c.const() & 1 else 2])
        elif op == "alloca":
            self.ids += 1
            o = ("T%d:" % st.team[1] if st.team is not None else "P:") + "%s.%d" % (i.name, self.ids)
            st.mem[o] = {}
            env[i.name] = ("p", o, pl(0))
        elif op == "load":
            env[i.name] = self.load(st, i, self.val(st, i.ops[0]), i.ty.store or i.ty.size)
        elif op == "store":
            self.store(st, i, self.val(st, i.ops[1]), i.a["oty"].store or i.a["oty"].size, self.val(st, i.ops[0]))
        elif op == "getelementptr":
            env[i.name] = self.gep(st, i)
        elif op == "atomicrmw":
            v, x = self.val(st, i.ops[0]), self.val(st, i.ops[1])
            obj, off = self.ptr(st, i, v)
            if i.a["rmw"] not in (1, 2) or not isinstance(x, Pl) or off.const() is None or st.team is None or not self.shared(st, obj):
                raise Unproven(i, "atomic update of this kind")
            self.update(st, i, obj, off, i.ty.store or i.ty.size, x if i.a["rmw"] == 1 else -x, "atomic")
            env[i.name] = self.new("old")
        elif op == "br":
            if not i.ops:
                self.jump(st, i.a["succ"][0])
            else:
                c = self.val(st, i.ops[0])
                if not isinstance(c, Pl):
                    raise Unproven(i, "condition on a pointer")
                if c.const() is None:
                    return self.fork(st, i, c, lambda s, b: self.jump(s, i.a["succ"][0 if b else 1]))
                self.jump(st, i.a["succ"][0 if c.const() & 1 else 1])
        elif op == "switch":
            x = self.val(st, i.ops[0])
            if not isinstance(x, Pl):
                raise Unproven(i, "switch on a pointer")
            if x.const() is not None:
                d = dict(i.a["cases"])
                self.jump(st, d.get(x.const(), i.a["default"]))
            else:
                out = []
                for c, b in i.a["cases"]:
                    s = st.copy()
                    if self.assume_eq(s, x - c):
                        self.jump(s, b); out.append(s)
                s = st.copy(); self.jump(s, i.a["default"]); out.append(s)
                return out
        elif op == "ret":
            self.retv = self.val(st, i.ops[0]) if i.ops else None
            st.fr.pop()
            if st.fr and f.ret is not None:
                st.fr[-1].env[f.ret] = self.retv
            return "ret"
        elif op == "call":
            return self.call(st, i)
        elif op == "unreachable":
            return []
        elif op in ("fence",):
            pass
        else:
            raise Unproven(i, "instruction %s" % op)
        return None

    def arith_and1(self, st, x):
        c = x.const()
        return pl(c & 1) if c is not None else self.div(st, x, pl(2))[1]

    def arith(self, st, i):
        a, b = self.val(st, i.ops[0]), self.val(st, i.ops[1]); w = i.ty.w; op = i.op
        if not (isinstance(a, Pl) and isinstance(b, Pl)):
            if op in ("add", "sub") and isinstance(a, tuple) and a[0] == "p" and isinstance(b, Pl):
                return ("p", a[1], a[2] + (b if op == "add" else -b))
            if op == "sub" and isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] == "p" and a[1] == b[1]:
                return a[2] - b[2]
            return self.new("x")
        ca, cb = a.const(), b.const()
        M = (1 << w) - 1
        if w == 1:
            if op == "xor" and 1 in (ca, cb):
                return 1 - (b if ca == 1 else a)
            if op in ("and", "mul") and 1 in (ca, cb):
                return b if ca == 1 else a
            if op in ("and", "mul") and 0 in (ca, cb):
                return pl(0)
            if op == "or" and 0 in (ca, cb):
                return b if ca == 0 else a
            if op == "or" and 1 in (ca, cb):
                return pl(1)
            if op == "and":
                return a * b
            if op == "or":
                return a + b - a * b
            return self.new("b")
        if op == "add": return a + b
        if op == "sub": return a - b
        if op == "mul": return a * b
        if op == "shl" and cb is not None: return a * (1 << cb)
        if op == "or" and ca is not None and cb is not None: return pl(self.sign((ca & M) | (cb & M), w))
        if op == "and" and ca is not None and cb is not None: return pl(self.sign((ca & M) & (cb & M), w))
        if op == "xor" and ca is not None and cb is not None: return pl(self.sign((ca & M) ^ (cb & M), w))
        if op == "xor" and cb == -1: return -a - 1
        if op == "and" and (cb is not None or ca is not None):
            x, c = (a, cb) if cb is not None else (b, ca)
            if c >= 0 and c & (c + 1) == 0:
                return self.div(st, self.nowrap(st, i, x, w), pl(c + 1))[1]
            if c < 0 and (-c) & (-c - 1) == 0:
                x = self.nowrap(st, i, x, w)
                return x - self.div(st, x, pl(-c))[1]
        if op == "or" and a != b:
            if (cb == 0): return a
            if (ca == 0): return b
        if op in ("udiv", "urem", "lshr"):
            if op == "lshr":
                if cb is None:
                    return self.new("x")
                b = pl(1 << cb)
            a, b = self.nowrap(st, i, a, w), self.nowrap(st, i, b, w)
            if not st.ge(b - 1):
                self.rep.ob("ompwrap", False, i, "no division by zero", repr(b))
                return self.new("x")
            q, r = self.div(st, a, b)
            return r if op == "urem" else q
        if op in ("sdiv", "srem", "ashr"):
            if op == "ashr":
                if cb is None:
                    return self.new("x")
                b = pl(1 << cb)
            a, b = self.nowrap(st, i, a, w, True), self.nowrap(st, i, b, w, True)
            if b.const() == 1:
                return a if op != "srem" else pl(0)
            if st.ge(a) and st.ge(b - 1):
                q, r = self.div(st, a, b)
                return r if op == "srem" else q
            return self.new("x")
        return self.new("x")

    def sign(self, c, w):
        return c if c < 1 << (w - 1) else c - (1 << w)

    def gep(self, st, i):
        b = self.val(st, i.ops[0])
        if not (isinstance(b, tuple) and b[0] == "p"):
            return self.new("ptr")
        off = b[2]; t = i.a["ty"]; first = True
        for o in i.ops[1:]:
            x = self.val(st, o)
            if not isinstance(x, Pl):
                return self.new("ptr")
            if first:
                off = off + x * t.size; first = False
            elif t.k in ("a", "v"):
                t = t.e; off = off + x * t.size
            else:
                off = off + t.offs[x.const()]; t = t.els[x.const()]
        return ("p", b[1], off)

    def assume_eq(self, st, p):
        """assume p == 0; False if impossible"""
        c = p.const()
        if c is not None:
            return c == 0
        for s in sorted(p.syms(), key=lambda s: (s.startswith("N"), s in ("n", "t", "i"), s)):
            if abs(p.t.get((s,), 0)) == 1 and sum(1 for m in p.t if s in m) == 1 and not s.startswith("N"):
                k = p.t[(s,)]
                e = -(p - k * sy(s)) * k
                st.subst(s, e)
                st.facts = [f for f in st.facts if f.const() is None or f.const() < 0]
                if any(f.const() is not None for f in st.facts):
                    return False
                return st.feasible()
        st.fact(p); st.fact(-p)
        return st.feasible()

    def assume_ge(self, st, p):
        c = p.const()
        if c is not None:
            return c >= 0
        if st.ge(-p - 1):
            return False
        if st.ge(-p):
            return self.assume_eq(st, p)
        st.fact(p)
        return st.feasible()

    def fork(self, st, i, c, act):
        """on an undecided boolean of value 0 or 1"""
        out = []
        for b in (1, 0):
            s = st.copy()
            if self.assume_eq(s, c - b):
                act(s, b); out.append(s)
        return out

    def icmp(self, st, i):
        a, b = self.val(st, i.ops[0]), self.val(st, i.ops[1]); w = i.a["oty"].w; p = i.a["pred"]
        env = st.fr[-1].env
        if not (isinstance(a, Pl) and isinstance(b, Pl)):
            if isinstance(a, tuple) and isinstance(b, tuple):
                if "null" in (a[0], b[0]) and p in ("eq", "ne"):
                    env[i.name] = pl(int((a[0] == b[0]) == (p == "eq")))
                    return None
                if a[0] == b[0] == "p" and a[1] == b[1] and p in ("eq", "ne"):
                    a, b = a[2], b[2]
                else:
                    raise Unproven(i, "comparison of pointers")
            else:
                raise Unproven(i, "comparison of pointers")
        if p in ("eq", "ne"):
            x = self.urange(st, a, w), self.urange(st, b, w)
            if None in x:
                x = self.srange(st, a, w), self.srange(st, b, w)
            if None in x:
                x = self.nowrap(st, i, a, w), self.nowrap(st, i, b, w)
            d = x[0] - x[1]
        else:
            a, b = self.nowrap(st, i, a, w, p[0] == "s"), self.nowrap(st, i, b, w, p[0] == "s")
            d = {"gt": a - b - 1, "ge": a - b, "lt": b - a - 1, "le": b - a}[p[1:]]
        if p in ("eq", "ne"):
            yes, no = (1, 0) if p == "eq" else (0, 1)
            if st.eq(d):
                env[i.name] = pl(yes); return None
            if st.ge(d - 1) or st.ge(-d - 1):
                env[i.name] = pl(no); return None
            out = []
            s = st.copy()
            if self.assume_eq(s, d):
                s.fr[-1].env[i.name] = pl(yes); out.append(s)
            for e in (d - 1, -d - 1):
                s = st.copy()
                if self.assume_ge(s, e):
                    s.fr[-1].env[i.name] = pl(no); out.append(s)
            return out
        if st.ge(d):
            env[i.name] = pl(1); return None
        if st.ge(-d - 1):
            env[i.name] = pl(0); return None
        out = []
        for e, r in ((d, 1), (-d - 1, 0)):
            s = st.copy()
            if self.assume_ge(s, e):
                s.fr[-1].env[i.name] = pl(r); out.append(s)
        return out

    # -- calls -------------------------------------------------------------------------------------------------------
    def call(self, st, i):
        c = i.a["callee"]; env = st.fr[-1].env
        if c[0] != "f":
            raise Unproven(i, "indirect call")
        n = c[1]
        a = [None if o[0] == "md" else self.val(st, o) for o in i.ops]
        if n.startswith(("llvm.dbg", "llvm.lifetime", "llvm.assume", "llvm.experimental.noalias")):
            return None
        if n.startswith(("llvm.memcpy", "llvm.memmove")):
            self.memcpy(st, i, a[0], a[1], a[2]); return None
        if n.startswith("llvm.memset"):
            o, off = self.ptr(st, i, a[0])
            if off.const() is None or a[2].const() is None:
                raise Unproven(i, "memset of unknown extent")
            self.access(st, i, o, off, a[2].const(), "w")
            st.mem[o] = {k: v for k, v in st.mem.get(o, {}).items() if not (k < off.const() + a[2].const() and off.const() < k + v[0])}
            return None
        mm = {"llvm.umin": ("ult", 0), "llvm.umax": ("ult", 1), "llvm.smin": ("slt", 0), "llvm.smax": ("slt", 1)}.get(n.rsplit(".", 1)[0])
        if mm:
            w = i.ty.w
            x, y = (self.nowrap(st, i, v, w, mm[0][0] == "s") for v in a[:2])
            out = []
            for e, r in ((y - x, x if not mm[1] else y), (x - y - 1, y if not mm[1] else x)):
                s = st.copy()
                s.fr[-1].env["#mm"] = r
                if self.assume_ge(s, e):
                    s.fr[-1].env[i.name] = s.fr[-1].env.pop("#mm"); out.append(s)
            return out
        if n == "omp_get_num_threads":
            env[i.name] = st.team[0] if st.team is not None else pl(1); return None
        if n == "omp_get_thread_num":
            env[i.name] = st.team[2] if st.team is not None else pl(0); return None
        if n in ("omp_get_max_threads", "omp_get_num_procs", "omp_get_thread_limit"):
            x = self.new("cpus"); st.fact(x - 1); st.fact(pl(MAXN) - x)
            env[i.name] = x; return None
        if n.startswith("omp_") and n not in self.m.functions or n in ("__kmpc_global_thread_num",):
            if i.ty.k == "i":
                env[i.name] = self.new("omp")
            return None
        if n in ("__kmpc_push_num_threads", "__kmpc_push_proc_bind", "__kmpc_serialized_parallel", "__kmpc_end_serialized_parallel"):
            return None
        if n == "__kmpc_fork_call":
            return self.team(st, i, self.m.functions[a[2][1]], a[3:])
        if n == "__kmpc_barrier":
            st.phase += 1; return None
        if n in ("__kmpc_single", "__kmpc_master", "__kmpc_masked"):
            snap = st.copy(); snap.snaps = []
            snap.fr[-1].env[i.name] = pl(0)
            st.snaps.append(snap)
            env[i.name] = pl(1); st.who = "single"
            return None
        if n in ("__kmpc_end_single", "__kmpc_end_master", "__kmpc_end_masked"):
            st.who = "team"
            if not st.snaps:
                return None
            o = st.snaps.pop()
            pre = "T%d:" % st.team[1]
            for k, m in st.mem.items():
                if not k.startswith(pre):
                    o.mem[k] = dict(m)
            o.facts = list(st.facts); o.n = st.n; o.acc = list(st.acc); o.log = list(st.log)
            return [st, o]
        if n.startswith("__kmpc_for_static_init_"):
            return self.ws_begin(st, i, a[2].const(), a[4], a[5], a[6], a[7], a[8], a[3], 8 if "_8" in n else 4)
        if n == "__kmpc_for_static_fini":
            self.ws_end(st, i); return None
        if n.startswith("__kmpc_dispatch_init_"):
            st.iter = (a[3], a[4]); st.nexts = 0; st.one = False
            return None
        if n.startswith("__kmpc_dispatch_next_"):
            sz = 8 if "_8" in n else 4
            st.nexts += 1
            if st.nexts > 1:
                self.ws_end(st, i); env[i.name] = pl(0)
                return None
            lo, hi = st.iter[-2:]
            self.ws_iter(st, i, lo, hi, False)
            for k, x in ((3, st.iter[0]), (4, st.iter[0]), (5, pl(1)), (2, self.new("last"))):
                self.store(st, i, a[k], sz if k != 2 else 4, x)
            env[i.name] = pl(1)
            return None
        if n.startswith("__kmpc_dispatch_"):
            return None
        if n in ("__kmpc_critical", "__kmpc_critical_with_hint"):
            st.who = "lock " + str(a[2]); st.crit = {}
            return None
        if n == "__kmpc_end_critical":
            st.who = "team"
            for (o, c), (sz, h, x) in st.crit.items():
                if x is not None:
                    d = x - h
                    if d.syms() & h.syms():
                        raise Unproven(i, "a shared variable changed otherwise than by adding to it under a lock")
                    self.update(st, i, o, pl(c), sz, d, "team")
                    st.acc.pop()
            st.crit = {}
            return None
        if n in ("__kmpc_reduce", "__kmpc_reduce_nowait"):
            return self.reduce(st, i, a)
        if n in ("__kmpc_end_reduce", "__kmpc_end_reduce_nowait"):
            st.who = "team"; return None
        if n in API:
            return self.api(st, i, n, a)
        if n in self.m.functions:
            self.enter(st, self.m.functions[n], a, i.name if i.ty.k != "void" else None, i)
            return None
        raise Unproven(i, "call of %s" % n)

    # -- worksharing loops -------------------------------------------------------------------------------------------
    def ws_begin(self, st, i, sched, plo, phi, pst, incr, chunk, plast, sz):
        lo, hi = self.load(st, i, plo, sz), self.load(st, i, phi, sz)
        if incr.const() != 1:
            raise Unproven(i, "loop with a step other than 1")
        sched &= 0xffff
        trip = hi - lo + 1
        one = st.eq(trip - st.team[0]) and (sched == 34 or sched == 33 and chunk.const() == 1)
        self.ws_iter(st, i, lo, hi, one)
        for p, x in ((plo, st.iter[0]), (phi, st.iter[0]), (pst, trip)):
            self.store(st, i, p, sz, x, note=False)
        self.store(st, i, plast, 4, self.new("last"), note=False)
        return None

    def ws_iter(self, st, i, lo, hi, one):
        k = st.team[2] + lo if one else sy("i")
        st.iter = (k, lo, hi); st.inloop = True; st.one = one
        st.fact(k - lo); st.fact(hi - k)
        pre = "T%d:" % st.team[1]
        st.hav = {}
        for o, m in st.mem.items():
            if not o.startswith(pre):
                continue
            for c, (sz, x) in list(m.items()):
                st.hav[o, c] = (x, None)
                if not one and (o.split(".")[0], c) in self.mod_cells:
                    if isinstance(x, Pl):
                        h = self.new("acc"); m[c] = (sz, h); st.hav[o, c] = (x, h)
                    elif isinstance(x, tuple) and x[0] == "tok" and self.case.get("carried") and x[1] == "init" and x[2] == "dec":
                        m[c] = (sz, ("tok", "after", "dec", pl(2), pl(0), x[5] if len(x) > 5 else x[3]))

    def ws_end(self, st, i):
        st.inloop = False
        pre = "T%d:" % st.team[1]
        for o, m in st.mem.items():
            if not o.startswith(pre):
                continue
            for c, (sz, x) in list(m.items()):
                x0, h = st.hav.get((o, c), (None, None))
                if not st.one:
                    if (o, c) in st.hav and x != (h if h is not None else x0):
                        self.mod_cells.add((o.split(".")[0], c))
                    if h is not None:
                        d = x - h if isinstance(x, Pl) else None
                        if d is None or any(s.startswith("acc") for s in d.syms()):
                            m[c] = (sz, self.new("left"))
                        elif d == 0:
                            m[c] = (sz, x0)
                        else:
                            s = self.new("S")
                            st.sums[next(iter(s.syms()))] = d
                            m[c] = (sz, x0 + s)

    # -- reductions --------------------------------------------------------------------------------------------------
    def reduce(self, st, i, a):
        o, off = self.ptr(st, i, a[4])
        cells = []
        for k in range(a[2].const()):
            x = st.mem[o].get(off.const() + k * (self.W // 8))
            if x is None or not (isinstance(x[1], tuple) and x[1][0] == "p"):
                raise Unproven(i, "reduction list")
            cells.append((x[1][1], x[1][2].const()))
        vals = []
        for ob, c in cells:
            sz, x = st.mem[ob].get(c, (None, None))
            if sz is None or not isinstance(x, Pl):
                raise Unproven(i, "reduction of a value that is not a number")
            vals.append((x, sz))
        if self.totals is None:
            st.contrib.update(enumerate(v for v, _ in vals))
            self.redfn = a[5][1]; self.redn = len(vals); self.redsz = [s for _, s in vals]
            for (ob, c), (x, sz) in zip(cells, vals):
                st.mem[ob][c] = (sz, self.new("total"))
            st.fr[-1].env[i.name] = pl(1); st.who = "red"; st.mute = True
            return None
        for (ob, c), (x, sz), t in zip(cells, vals, self.totals(st, [v for v, _ in vals], i)):
            st.mem[ob][c] = (sz, t)
        st.fr[-1].env[i.name] = pl(1)
        st.who = "red"
        return None

    def combine(self, k, x, y):
        """what the reduction function makes of the k-th values x and y; None if it depends on more than them"""
        F = self.m.functions[self.redfn]
        st = St()
        st.mem = {}
        ps = self.W // 8
        for nm, v in (("L", x), ("R", y)):
            st.mem[nm] = {}
            for j in range(self.redn):
                st.mem[nm][j * ps] = (ps, ("p", "%s%d" % (nm, j), pl(0)))
                st.mem["%s%d" % (nm, j)] = {0: (self.redsz[j], v if j == k else pl(0))}
        save, at, rep = self.steps, self.at, self.rep
        self.rep = engine.Report()
        try:
            self.enter(st, F, [("p", "L", pl(0)), ("p", "R", pl(0))], None, None)
            rs = {r.mem["L%d" % k][0][1] for r, _ in self.go(st, 1)}
        except Unproven:
            rs = set()
        self.steps, self.at, self.rep = save, at, rep
        return rs.pop() if len(rs) == 1 else None

    # -- the library's functions -------------------------------------------------------------------------------------
    def tok(self, st, i, v):
        o, off = self.ptr(st, i, v)
        self.access(st, i, o, off, 16, "r"); self.access(st, i, o, off, 16, "w")
        c = off.const()
        x = st.mem.get(o, {}).get(c)
        return o, c, (x[1] if x and isinstance(x[1], tuple) and x[1][0] == "tok" else None)

    def settok(self, st, o, c, t):
        m = st.mem.setdefault(o, {})
        for k in [k for k, (sz, _) in m.items() if k < c + 16 and c < k + sz]:
            m.pop(k)
        m[c] = (16, t)

    def api(self, st, i, n, a):
        env = st.fr[-1].env
        o, c, t = self.tok(st, i, a[0])
        if c is None:
            raise Unproven(i, "stream state at an unknown place")
        if n.endswith("_init"):
            mode = "enc" if "encode" in n else "dec"
            ok = isinstance(a[1], Pl) and a[1] == sy("flags")
            self.rep.ob("ompstate", ok, i, "streams are initialised with the caller's flags", repr(a[1]))
            self.settok(st, o, c, ("tok", "init", mode, 0))
            return None
        part = st.team is not None
        if part and not st.inloop and st.iter is None:
            st.iter = (st.team[2], pl(0), st.team[0] - 1); st.one = True
        if n.endswith("_final"):
            x = self.new("f")
            st.fact(x); st.fact(pl(4) - x)
            self.store(st, i, a[2], self.W // 8, x)
            st.log.append(("final", t, a[1], x, part, (i,)))
            self.settok(st, o, c, ("tok", "done", "enc", 0))
            return None
        mode = "enc" if "encode" in n else "dec"
        self.ids += 1
        case = self.case
        if part:
            if mode == "enc":
                if a[2].divides(3):
                    s = a[2].over(3) * 4
                else:
                    s = self.new("s")
                new = ("tok", "init", "enc", 0) if a[2].divides(3) else ("tok", "after", "enc", pl(0), self.new("bytes"), self.ids)
                self.part(st, i, mode, t, a)
                self.settok(st, o, c, new)
                self.store(st, i, a[4], self.W // 8, s)
                return None
            s = sy("s")
            st.fact(s)
            v, e = pl(case["v"]), pl(case["e"])
            if case["e"] and isinstance(a[2], Pl):
                st.fact(a[2] - 1)           # an empty part does not end the text
            self.part(st, i, mode, t, a)
            self.settok(st, o, c, ("tok", "after", "dec", e, pl(0), self.ids))
            if case["v"] == -1:
                s = pl(0)
            self.store(st, i, a[4], self.W // 8, s)
            env[i.name] = v
            return None
        s = self.new("s")
        st.fact(s)
        if mode == "enc":
            st.log.append(("call", mode, t, a[1], a[2], a[3], s, (i,), self.ids, None, None))
            self.settok(st, o, c, ("tok", "after", "enc", pl(0), self.new("bytes"), self.ids))
            self.store(st, i, a[4], self.W // 8, s)
            return None
        v, b = case["rest"]
        bb = pl(b)
        if b:
            bb = self.new("bytes"); st.fact(bb - 1); st.fact(pl(3) - bb)
        ee = self.new("eof"); st.fact(ee); st.fact(pl(2) - ee)
        st.log.append(("call", mode, t, a[1], a[2], a[3], s, (i,), self.ids, v, bool(b)))
        self.settok(st, o, c, ("tok", "after", "dec", ee, bb, self.ids))
        self.store(st, i, a[4], self.W // 8, s)
        env[i.name] = pl(v)
        return None

    def part(self, st, i, mode, t, a):
        """one thread hands one part to the library: parts are compared by the number of the iteration"""
        src, ln, out = a[1:4]
        ob = self.rep.ob
        k, lo, hi = st.iter
        good = ob("ompstate", t is not None and (t[1] == "init" and t[2] == mode or t[1] == "after" and bool(self.case.get("carried"))), i, "every part starts with a fresh state of its own", repr(t))
        unit, prod = (3, 4) if mode == "enc" else (4, 3)
        good &= ob("part", ln.divides(unit), i, "parts are whole groups", repr(ln))
        good &= ob("part", isinstance(src, tuple) and src[0] == "p" and src[1] == "src" and isinstance(out, tuple) and out[0] == "p" and out[1] == "out", i,
                   "parts lie in the input and the output", "%r %r" % (src, out))
        good &= ob("part", not any(x[0] in ("call", "part", "final") for x in st.log), i, "each thread processes its parts before anything else is processed")
        var = [z for z in k.syms() if k == sy(z) + lo or k == sy(z)]
        good &= ob("part", bool(var) and not (var[0] in lo.syms() | hi.syms()), i, "parts are numbered by the iteration", repr(k))
        if not good:
            st.log.append(("part", pl(0), pl(0), pl(0)))
            return
        z = var[0]
        step = ln.over(unit) * prod
        shift = lambda p: p.subst(z, sy(z) + 1)
        at = lambda p, n: p.subst(z, n - (k - sy(z)))
        f, g = src[2], out[2]
        back = st.eq(f - shift(f) - shift(ln)) and not st.eq(shift(f) - f - ln)      # a loop that counts down
        if back:
            ob("part", st.eq(f - shift(f) - shift(ln)), i, "each part of the input begins where the one before ends", "%r, length %r" % (f, ln))
            ob("part", st.eq(g - shift(g) - shift(step)), i, "each part of the output begins where the one before ends", "%r, length %r" % (g, step))
        else:
            ob("part", st.eq(shift(f) - f - ln), i, "each part of the input begins where the one before ends", "%r, length %r" % (f, ln))
            ob("part", st.eq(shift(g) - g - step), i, "each part of the output begins where the one before ends", "%r, length %r" % (g, step))
        e1, e2 = (hi, lo) if back else (lo, hi)
        ob("part", st.eq(at(f, e1)) and st.eq(at(g, e1)), i, "the first part begins at the beginning", "%r %r" % (at(f, e1), at(g, e1)))
        st.log.append(("part", at(f + ln, e2), at(g + step, e2), f + ln, mode))

    # -- a team of threads -------------------------------------------------------------------------------------------
    def team(self, st, ins, F, args):
        if st.team is not None:
            raise Unproven(ins, "nested teams")
        self.ids += 1
        tid = self.ids
        N, t = self.new("N"), self.new("t")
        rep = self.rep
        base = st.copy()
        base.facts += [N - 1, pl(MAXN) - N, t, N - 1 - t]
        base.team = (N, tid, t); base.acc = []; base.phase = 0; base.who = "team"; base.iter = None
        G = "T%d:gtid" % tid
        base.mem[G] = {0: (4, self.new("gtid"))}
        depth = len(base.fr) + 1
        pargs = [("p", G, pl(0)), ("p", G, pl(0))] + args
        save = self.case, self.totals

        def thread(case, totals=None, extra=None):
            """final states of one thread when its part turns out as the case says"""
            for _ in range(4):
                known = len(self.mod_cells)
                self.case, self.totals = dict(save[0], **case), totals
                s = base.copy()
                self.enter(s, F, pargs, None, ins)
                rs = [r for r, _ in self.go(s, depth)]
                self.case, self.totals = save
                if len(self.mod_cells) == known:
                    return rs
            raise Unproven(ins, "private variables do not settle")

        good = thread(dict(v=1, e=0))
        cases = {"good": good}
        if any(x[0] == "part" and x[-1] == "dec" for r in good for x in r.log):
            cases["na"] = thread(dict(v=-1, e=0))
            cases["bad"] = thread(dict(v=0, e=0)) + thread(dict(v=0, e=2))
            eof = thread(dict(v=1, e=2))
            cases["eof"] = eof
            if any(not r.one for r in good):
                cases["bad"] = cases["bad"] + thread(dict(v=0, e=2, carried=1))
                cases["other"] = thread(dict(v=1, e=2, carried=1))
        # what the threads do with shared variables, whatever becomes of their parts
        acc = [x for rs in cases.values() for r in rs for x in r.acc]

        # what a thread contributes to each reduction, by the outcome of its part
        con = {}
        for nm, rs in cases.items():
            for r in rs:
                kind = nm
                if nm == "eof":
                    kind = self.eofkind(r)
                for j, v in r.contrib.items():
                    for kd in (("good", "bad") if kind == "?" else (kind,)):
                        con.setdefault(j, {}).setdefault(kd, set()).add((v, tuple(sorted(r.sums.items()))))
        out = []
        scen = ["A"] + (["B", "C"] if "na" in cases else [])
        for sc in scen:
            def totals(s, vals, i, sc=sc):
                return [self.total(s, j, con.get(j, {}), sc, i) for j in range(len(vals))]
            for r in thread(dict(v=1, e=0), totals):
                acc += r.acc
                for key in {k for k in con if isinstance(k, tuple)} | {k for k in r.contrib if isinstance(k, tuple)}:
                    _, ob, c, sz, inl = key
                    T = self.total(r, key, con.get(key, {}), sc, ins)
                    m = r.mem.setdefault(ob, {})
                    x = m.get(c)
                    m[c] = (sz, x[1] + T if x and x[0] == sz and isinstance(x[1], Pl) else self.new("x"))
                r.contrib = {}
                r.log = [x for x in r.log if x[0] != "scenario"] + [("scenario", sc)]
                tid_ = "T%d:" % tid
                r.mem = {o: m for o, m in r.mem.items() if not o.startswith(tid_)}
                r.team = None; r.inloop = False; r.snaps = []
                # the number of this thread means nothing afterwards
                for o in r.mem:
                    for c, (sz, x) in list(r.mem[o].items()):
                        if isinstance(x, Pl) and next(iter(t.syms())) in x.syms():
                            r.mem[o][c] = (sz, self.new("x"))
                r.acc = []
                out.append(r)
        self.races(acc)
        return out

    def eofkind(self, r):
        """an accepted part that ends the text: fine as the last part of all, otherwise data follows the padding"""
        p = [x for x in r.log if x[0] == "part"]
        if not p:
            return "?"
        end = p[-1][3]
        if r.ge(r.n - end - 1):
            return "bad"
        if r.eq(r.n - end):
            return "good"
        return "?"

    def total(self, st, j, con, sc, ins):
        N = st.team[0]
        k, lo, hi = st.iter if st.iter is not None else (pl(0), pl(0), N - 1)
        M = hi - lo + 1
        if isinstance(j, tuple) and not j[4]:
            M = N

        def per(v, sums, what):
            """(constant per part, factor of the part's output length)"""
            if any(x in dict(sums) for x in v.syms()):
                rest = v
                add = pl(0)
                for s, d in sums:
                    if s in v.syms():
                        if v.t.get((s,)) != 1:
                            return None
                        rest = rest - sy(s); add = add + d
                if rest != 0:
                    return None
                v = add
            return v
        got = {}
        for kd, vs in con.items():
            got[kd] = [per(v, s, kd) for v, s in vs]
        unknown = lambda: self.new("total")
        for kd in got:
            if any(v is None for v in got[kd]):
                return unknown()
        x, y = sy("X"), sy("Y")
        add = isinstance(j, tuple) or self.combine(j, x, y)
        add = add is True or add is not None and add == x + y
        allv = [v for vs in got.values() for v in vs]
        hasS = [v for v in allv if "s" in v.syms()]
        bad = lambda v: bool(v.syms() & ({"s"} | {z for z in k.syms() if z[0] in "ti"} | {z for z in v.syms() if z.startswith(("acc", "undef", "mem", "left", "carried"))}))
        if sc in "AB":
            vs = got.get("good" if sc == "A" else "na", [])
            if not vs:
                return unknown()
            if all(v == sy("s") for v in vs) and add:
                return sy("sum_s")
            if any(v != vs[0] for v in vs) and not all(v.const() is not None for v in vs) or any(bad(v) for v in vs):
                return unknown()
            if add:
                return vs[0] * M if all(v == vs[0] for v in vs) else unknown()
            c = self.closure(j, {v.const() for v in vs})
            return pl(next(iter(c))) if c is not None and len(c) == 1 else unknown()
        if all(v == sy("s") for v in got.get("good", [])) and add and got.get("good"):
            return unknown()
        vb = [v for kd in ("bad",) for v in got.get(kd, [])]
        va = vb + [v for kd in ("good", "other") for v in got.get(kd, [])]
        if not vb or any(v.const() is None for v in va):
            return unknown()
        cb, ca = {v.const() for v in vb}, {v.const() for v in va}
        if add:
            T = self.new("total")
            st.fact(T - min(cb) - (M - 1) * min(ca)); st.fact(max(cb) + (M - 1) * max(ca) - T)
            return T
        C = self.closure(j, ca)
        r = set(cb)
        if C is None:
            return unknown()
        for p in cb:
            for q in C:
                for z in (self.combine(j, pl(p), pl(q)), self.combine(j, pl(q), pl(p))):
                    if z is None or z.const() is None:
                        return unknown()
                    r.add(z.const())
        if len(r) == 1:
            return pl(next(iter(r)))
        T = self.new("total")
        st.fact(T - min(r)); st.fact(max(r) - T)
        return T

    def closure(self, j, cs):
        cs = set(cs)
        if None in cs:
            return None
        while True:
            n = {self.combine(j, pl(a), pl(b)) for a in cs for b in cs}
            if any(x is None or x.const() is None for x in n):
                return None
            n = {x.const() for x in n} - cs
            if not n:
                return cs
            cs |= n
            if len(cs) > 12:
                return None

    def races(self, acc):
        cells = {}
        for obj, off, size, rw, who, ph, ins in dict.fromkeys(acc):
            if obj in ("src", "out"):
                continue
            cells.setdefault((obj, ph), []).append((off, size, rw, who, ins))
        for (obj, ph), xs in cells.items():
            ok, ex, at = True, "", xs[0][4]
            for off, size, rw, who, ins in xs:
                if rw != "w":
                    continue
                for o2, s2, rw2, who2, ins2 in xs:
                    if off is not None and o2 is not None and not (off < o2 + s2 and o2 < off + size):
                        continue
                    if who == "team" or who != who2 and not (who.startswith("lock") and who2.startswith("lock") and who == who2):
                        ok = False; at = ins
                        ex = "written at line %s (by %s) and %s at line %s (by %s) with no barrier in between" % (
                            ins.line, WHO[who], "written" if rw2 == "w" else "read", ins2.line, WHO[who2])
                        break
                if not ok:
                    break
            self.rep.ob("race", ok, at, "no thread touches a shared variable another thread changes in the same phase", ex)


class Who(dict):
    def __missing__(self, k):
        return "every thread under a lock"


WHO = Who(team="every thread", single="one thread", red="the reduction", atomic="every thread, atomically")


def check(mod, cfg, rep):
    """analyses base64_encode and base64_decode of an OpenMP build; returns statistics"""
    stats = dict(paths=0, teams=0, steps=0)
    rest = [(1, 0), (1, 1), (0, 0), (-1, 0)]
    seen = set()
    for mode, fn in (("enc", "base64_encode"), ("dec", "base64_decode")):
        F = mod.functions.get(fn)
        rep.ob("ompentry", F is not None, cfg, "the function %s exists" % fn)
        if F is None:
            continue
        for rc in (rest if mode == "dec" else rest[:1]):
            o = Omp(mod, rep, dict(rest=rc))
            st = St()
            W = mod.ptrbits
            n = sy("n")
            st.facts = [n]
            if mode == "enc":
                st.facts.append(pl(3 * ((1 << W) - 5)) - 4 * n)
            st.facts.append(pl((1 << (60 if W == 64 else W - 1)) - 1) - n)
            st.mem["outlen"] = {}
            try:
                o.enter(st, F, [("p", "src", pl(0)), n, ("p", "out", pl(0)), ("p", "outlen", pl(0)), sy("flags")], None, None)
                ends = o.go(st, 1)
            except Unproven as e:
                seen |= o.seen
                rep.ob("part", False, e.ins if e.ins is not None else cfg, "the code can be followed: %s" % e.what)
                continue
            rep.ob("ompentry", bool(ends), F.blocks[0].ins[0], "the function returns")
            for s, rv in ends:
                stats["paths"] += 1
                if any(x[0] == "part" for x in s.log):
                    stats["teams"] += 1
                judge(o, s, rv, mode, rc, rep, F, cfg)
            stats["steps"] += o.steps
            seen |= o.seen
    stats["functions"] = sorted(seen)
    for F in mod.functions.values():
        for b in F.blocks:
            for i in b.ins:
                if i.op == "call" and i.a["callee"][0] == "f" and (i.a["callee"][1].startswith("__kmpc_fork") or i.a["callee"][1].startswith("__kmpc_omp_task")):
                    rep.ob("ompentry", F.name in seen, i, "threads are started by the one-shot functions only, by code analysed here", F.name)
    return stats


def judge(o, s, rv, mode, rc, rep, F, cfg):
    n = s.n
    at = ([F.blocks[-1].ins[-1]] + [x for b in F.blocks for x in b.ins if x.line])[-1]
    pos, opos, chain, calls, rests, sc, fin, parts = pl(0), pl(0), None, 0, [], "A", None, False
    sc = next((x[1] for x in s.log if x[0] == "scenario"), None)
    for x in s.log:
        if x[0] == "part":
            parts = True
            pos, opos, chain = x[1], x[2], None
        elif x[0] == "call":
            _, md, t, src, ln, out, sv, (i,), cid, v, b = x
            calls += 1
            ok = t is not None and (t[1] == "init" and t[2] == mode if chain is None else t[1] == "after" and t[-1] == chain)
            rep.ob("ompstate", md == mode and ok, i, "the remaining input is processed with a state at a group boundary", repr(t))
            ok = isinstance(src, tuple) and src[0] == "p" and src[1] == "src" and isinstance(out, tuple) and out[0] == "p" and out[1] == "out"
            rep.ob("part", ok and s.eq(src[2] - pos), i, "the remaining input begins where the parts end", "%r instead of %r" % (src, pos))
            if ok and not (mode == "dec" and s.eq(ln)):
                rep.ob("part", s.eq(out[2] - opos), i, "its output begins where the output of the parts ends", "%r instead of %r" % (out, opos))
            pos = pos + ln; opos = opos + sv; chain = cid
            rests.append((sv, v, b))
        elif x[0] == "final":
            _, t, out, sv, part, (i,) = x
            rep.ob("part", not part, i, "the text is finished once, after all parts")
            ok = t is not None and (t[1] == "after" and t[-1] == chain or chain is None and t[1] == "init" and t[2] == "enc")
            rep.ob("ompstate", ok and fin is None, i, "the text is finished once, in the state the last call left", repr(t))
            ok = isinstance(out, tuple) and out[0] == "p" and out[1] == "out" and s.eq(out[2] - opos)
            rep.ob("part", ok, i, "the end of the text goes right behind it", "%r instead of %r" % (out, opos))
            opos = opos + sv; fin = sv
    cell = s.mem.get("outlen", {}).get(0)
    ol = cell[1] if cell and cell[0] == o.W // 8 else None
    if mode == "enc":
        rep.ob("part", s.eq(pos - n), at, "the parts and the rest are the whole input", "processed %r of %r" % (pos, n))
        rep.ob("ompstate", fin is not None, at, "the text is finished")
        rep.ob("omplen", isinstance(ol, Pl) and s.eq(ol - opos), at, "the length reported is the sum of the parts", lambda: "%r, expected %r" % (ol, opos))
        return
    if not isinstance(rv, Pl):
        rep.ob("ompret", False, at, "the return value is known"); return
    if sc in ("B", "C"):
        want = -1 if sc == "B" else 0
        if rests:
            if sc == "B":
                # every part found no codec; so does the rest
                if rests[-1][1] != -1:
                    return
            else:
                pass
        rep.ob("ompret", s.eq(rv - want), at, "-1 is returned where no codec is available" if sc == "B" else "0 is returned where any part is invalid or goes on after the end of the text",
               lambda: "returns %r with %r" % (rv, s.facts))
        return
    if sc == "A" and rests and rests[-1][1] == -1:
        return                      # the codec of the parts is the codec of the rest
    rep.ob("part", s.eq(pos - n) or any(v != 1 for _, v, _ in rests), at, "the parts and the rest are the whole input", "processed %r of %r" % (pos, n))
    v = 1; wb = False
    for sv, vv, b in rests:
        v = vv; wb = b
    want = v if v != 1 else (0 if wb else 1)
    if sc is None and not rests:
        rep.ob("ompret", False, at, "the input is decoded"); return
    rep.ob("ompret", s.eq(rv - want), at, "the return value is that of the serial code", lambda: "returns %r instead of %d with %r" % (rv, want, s.facts))
    if want == 1:
        exp = pl(0)
        if parts:
            exp = sy("sum_s")
        for sv, _, _ in rests:
            exp = exp + sv
        rep.ob("omplen", isinstance(ol, Pl) and s.eq(ol - exp), at, "the length reported is the sum of the parts", lambda: "%r, expected %r" % (ol, exp))
