"""Exact rational polyhedra over integer symbols: Gauss-reduced equalities plus inequalities.

A Lin is an affine expression; a Poly is a conjunction of  pivot = Lin  rows and  Lin >= 0  rows."""
import ctypes
from array import array
from fractions import Fraction as Fr
from math import gcd
from . import bdd as core

INF = float("inf")


def div(a, b):
    """a / b, as an int where possible"""
    if type(a) is int and type(b) is int and a % b == 0:
        return a // b
    return q(Fr(a) / b)


def q(x):
    if type(x) is int:
        return x
    if type(x) is Fr and x.denominator == 1:
        return x.numerator
    return x


class Lin:
    __slots__ = ("t", "c", "_k", "_h")

    def __init__(self, t=None, c=0):
        self.t = t if t is not None else {}
        self.c = c
        self._k = None

    def key(self):
        if self._k is None:
            self._k = (tuple(sorted(self.t.items())), self.c)
        return self._k

    def tkey(self):
        return tuple(sorted(self.t.items()))

    def __hash__(self):
        return hash(self.key())

    def __eq__(self, o):
        return isinstance(o, Lin) and self.c == o.c and self.t == o.t

    def __add__(self, o):
        if not isinstance(o, Lin):
            return Lin(self.t, q(self.c + o))
        if not o.t:
            return Lin(self.t, q(self.c + o.c))
        t = dict(self.t)
        for s, k in o.t.items():
            v = t.get(s, 0) + k
            if v == 0:
                t.pop(s, None)
            else:
                t[s] = q(v)
        return Lin(t, q(self.c + o.c))

    def __neg__(self):
        return Lin({s: -k for s, k in self.t.items()}, -self.c)

    def __sub__(self, o):
        if not isinstance(o, Lin):
            return Lin(self.t, q(self.c - o))
        return self + (-o)

    def __mul__(self, k):
        if k == 0:
            return Lin()
        if k == 1:
            return self
        return Lin({s: q(v * k) for s, v in self.t.items()}, q(self.c * k))

    def __rsub__(self, o):
        return (-self) + o

    __radd__ = __add__
    __rmul__ = __mul__

    def isconst(self):
        return not self.t

    def subst(self, m):
        """replace symbols by Lins"""
        r = None
        for s, k in self.t.items():
            if s in m:
                if r is None:
                    r = Lin({a: b for a, b in self.t.items() if a not in m}, self.c)
                r = r + m[s] * k
        return self if r is None else r

    def __repr__(self):
        if not self.t:
            return str(self.c)
        s = " + ".join("%s%s" % ("" if k == 1 else "%s*" % k, symname(x)) for x, k in sorted(self.t.items(), key=lambda z: str(z[0])))
        if self.c:
            s += " + %s" % self.c if self.c > 0 else " - %s" % -self.c
        return s


def symname(x):
    return NAMES.get(x, str(x))


NAMES = {}


def sym(s):
    return Lin({s: 1}, 0)


def const(c):
    return Lin({}, c)


ZERO = Lin({}, 0)


ONE = Fr(1)


def integral(l):
    """scale to coprime integer coefficients; returns (Lin, factor>0)"""
    g = 0
    for v in l.t.values():
        if type(v) is not int:
            break
        if v == 1 or v == -1:
            g = 1
        elif g != 1:
            g = gcd(g, v)
    else:
        if g <= 1:
            return l, ONE
    den = 1
    for v in l.t.values():
        if type(v) is Fr:
            den = den * v.denominator // gcd(den, v.denominator)
    if den != 1:
        l = l * den
    g = 0
    for v in l.t.values():
        g = gcd(g, v)
    if g > 1:
        l = Lin({s: v // g for s, v in l.t.items()}, q(Fr(l.c) / g) if l.c % g else l.c // g if not type(l.c) is Fr else q(l.c / g))
    else:
        g = 1
    return l, Fr(den, g)


def tighten(l):
    """integer tightening of l >= 0"""
    l, _ = integral(l)
    c = l.c
    if type(c) is Fr:
        c = c.numerator // c.denominator
        l = Lin(l.t, c)
    return l


_sid = {}                   # symbol -> index
_gen = [0]
_buf = (ctypes.c_int64 * 4)()
_ad = ctypes.addressof(_buf)
_lprow, _lpsolve = core._l.lp_row, core._l.lp_solve
_lprow.argtypes = [ctypes.c_int32, ctypes.c_void_p, ctypes.c_void_p, ctypes.c_int64, ctypes.c_uint64]
_lpsolve.argtypes = [ctypes.c_int32, ctypes.c_int32, ctypes.c_void_p, ctypes.c_int32, ctypes.c_void_p]
core._l.lp_used.restype = ctypes.c_int64
M62 = (1 << 62) - 1


def handle(l):
    """index of the row in the arena of the C solver, -1 if its numbers do not fit"""
    try:
        g, h = l._h
        if g == _gen[0]:
            return h
    except AttributeError:
        pass
    h = -1
    c = l.c
    if type(c) is int and -(1 << 120) < c < (1 << 120):
        ids = []
        for s in l.t:
            k = _sid.get(s)
            if k is None:
                k = _sid[s] = len(_sid)
            ids.append(k)
        try:
            a = array("i", ids); b = array("q", l.t.values())
            h = _lprow(len(ids), a.buffer_info()[0], b.buffer_info()[0], c >> 62, c & M62)
        except (OverflowError, TypeError):
            h = -1
    l._h = (_gen[0], h)
    return h


def lp_min(obj, rows):
    if not obj.t:
        return obj.c
    o, f = obj, 1
    for v in obj.t.values():
        if type(v) is not int:
            o, f = integral(obj)
            break
    else:
        if type(obj.c) is not int:
            o = Lin(obj.t, 0)
    if len(_sid) > 200000 or core._l.lp_used() > 20000000:
        _sid.clear(); _gen[0] += 1; core._l.lp_reset()
    h = handle(o)
    hs = array("i", [handle(r) for r in rows])
    if h >= 0 and (not hs or min(hs) >= 0):
        rc = _lpsolve(h, len(hs), hs.buffer_info()[0], len(_sid), _ad)
        if rc == 0:
            n = (_buf[0] << 62) + _buf[1]; d = (_buf[2] << 62) + _buf[3]
            if d != 1:
                n = Fr(n, d)
            if f != 1:
                n = Fr(n) / f
            return q(obj.c + n)
        if rc == 1:
            return -INF
        if rc == 2:
            return None
    return lp_py(obj, rows)


def lp_py(obj, rows):
    """minimum of obj subject to rows >= 0 (free rational variables).  Returns a number, -INF, or None if infeasible.

    Solved through the dual: obj = sum(lam_i * row_i) + mu, lam >= 0, maximise mu; fraction-free simplex."""
    # restrict to the connected component of the objective (feasibility is maintained separately)
    syms = set(obj.t)
    if not syms:
        return obj.c
    todo = True
    comp = set()
    rest = list(range(len(rows)))
    while todo:
        todo = False
        nrest = []
        for i in rest:
            if any(s in syms for s in rows[i].t):
                comp.add(i)
                for s in rows[i].t:
                    if s not in syms:
                        syms.add(s); todo = True
            else:
                nrest.append(i)
        rest = nrest
    comp = sorted(comp)
    sl = sorted(syms, key=str)
    si = {s: i for i, s in enumerate(sl)}
    m = len(sl); n = len(comp)
    obj_i, f = integral(obj)
    # tableau rows: sum_i A_ji lam_i + artificial_j = c_j >= 0
    T = [[0] * (n + 1) for _ in range(m)]
    cost = []
    for k, i in enumerate(comp):
        r = rows[i]
        for s, v in r.t.items():
            T[si[s]][k] = v
        cost.append(r.c)
    for s, v in obj_i.t.items():
        T[si[s]][n] = v
    for j in range(m):
        if T[j][n] < 0:
            T[j] = [-x for x in T[j]]
    # phase 1: minimise sum of artificials; basis index >= n are artificials
    basis = [n + j for j in range(m)]
    z1 = [sum(T[j][k] for j in range(m)) for k in range(n + 1)]
    z2 = list(cost) + [0]      # maximise -sum cost*lam  <=> minimise sum cost*lam ; reduced costs
    D = 1
    it = 0

    def pivot(r, c):
        nonlocal D, z1, z2
        p = T[r][c]
        Tr = T[r]
        for j in range(m):
            if j != r:
                Tj = T[j]; x = Tj[c]
                if x:
                    T[j] = [(p * a - x * b) // D for a, b in zip(Tj, Tr)]
                else:
                    T[j] = [(p * a) // D for a in Tj]
        x = z1[c]; z1 = [(p * a - x * b) // D for a, b in zip(z1, Tr)]
        x = z2[c]; z2 = [(p * a - x * b) // D for a, b in zip(z2, Tr)]
        D = p
        basis[r] = c

    # all entries are kept multiplied by D
    while True:
        it += 1
        if it > 400:
            return -INF
        # phase-1 entering column (Bland)
        c = next((k for k in range(n) if z1[k] > 0), None)
        if c is None:
            break
        best = None
        for j in range(m):
            if T[j][c] > 0:
                key = (Fr(T[j][n], T[j][c]), basis[j])
                if best is None or key < best[0]:
                    best = (key, j)
        if best is None:
            break
        pivot(best[1], c)
    if any(basis[j] >= n and T[j][n] != 0 for j in range(m)):
        return -INF
    # drive artificials out
    for j in range(m):
        if basis[j] >= n:
            c = next((k for k in range(n) if T[j][k] != 0), None)
            if c is not None:
                if T[j][c] < 0:
                    T[j] = [-x for x in T[j]]
                pivot(j, c)
    while True:
        it += 1
        if it > 800:
            return -INF
        c = next((k for k in range(n) if z2[k] < 0), None)
        if c is None:
            break
        best = None
        for j in range(m):
            if basis[j] >= n:
                continue
            if T[j][c] > 0:
                key = (Fr(T[j][n], T[j][c]), basis[j])
                if best is None or key < best[0]:
                    best = (key, j)
        if best is None:
            return None          # dual unbounded: rows are infeasible
        pivot(best[1], c)
    # z2 rhs = -(sum cost*lam) scaled by D, starting from 0
    mu = Fr(z2[n], D)
    # min(obj_i) = obj_i.c + mu
    return q((obj_i.c + mu) / f)


class Poly:
    __slots__ = ("eq", "ge", "bad", "_mc")

    def __init__(self):
        self.eq = {}      # pivot -> Lin over non-pivots
        self.ge = []      # list of Lin (over non-pivots), integer, tightened
        self.bad = False
        self._mc = {}

    def copy(self):
        p = Poly(); p.eq = dict(self.eq); p.ge = list(self.ge); p.bad = self.bad; p._mc = dict(self._mc)
        return p

    def norm(self, l):
        eq = self.eq
        for s in l.t:
            if s in eq:
                return l.subst(eq)
        return l

    def vmin(self, l):
        l = self.norm(l)
        if not l.t:
            return l.c
        tk = l.tkey()
        if tk in self._mc:
            m = self._mc[tk]
        else:
            m = lp_min(Lin(l.t, 0), self.ge)
            if m is None:
                self.bad = True
                m = INF
            self._mc[tk] = m
        return m if m in (INF, -INF) else q(m + l.c)

    def vmax(self, l):
        m = self.vmin(-l)
        return -m

    def ent_ge(self, l):
        """entails l >= 0"""
        l0 = l
        l = self.norm(l)
        if not l.t:
            return l.c >= 0
        m = self.vmin(l)
        if m >= 0:
            return True
        if m > -1:
            # integrality: l takes integer values when its coefficients are integers
            li, f = integral(l)
            if not type(li.c) is Fr and -1 < m * f:
                return True
            if l0 is not l:
                li, f = integral(l0)
                if not type(li.c) is Fr and -1 < m * f:
                    return True
        return False

    def ent_eq(self, l):
        l = self.norm(l)
        if not l.t:
            return l.c == 0
        return self.ent_ge(l) and self.ent_ge(-l)

    def ent_ne(self, l):
        l = self.norm(l)
        if not l.t:
            return l.c != 0
        if self.ent_ge(l - 1) or self.ent_ge(-l - 1):
            return True
        li, f = integral(l)
        return type(li.c) is Fr

    def add_ge(self, l):
        """assume l >= 0"""
        if self.bad:
            return
        l = self.norm(l)
        if not l.t:
            if l.c < 0:
                self.bad = True
            return
        l = tighten(l)
        mx = self.vmax(l)
        if self.bad or mx < 0:
            self.bad = True
            return
        if mx == 0:
            self.add_eq(l)
            return
        if self.vmin(l) >= 0:
            return
        # drop a parallel weaker constraint
        tk = l.t
        self.ge = [g for g in self.ge if g.t != tk] + [l]
        self._mc = {}
        if mx < 1 and mx != INF:
            pass

    def add_eq(self, l):
        """assume l == 0"""
        if self.bad:
            return
        l = self.norm(l)
        if not l.t:
            if l.c != 0:
                self.bad = True
            return
        l, _ = integral(l)
        if type(l.c) is Fr:
            self.bad = True       # no integer solution
            return
        # prefer a pivot with coefficient +-1, latest symbol first
        best = None
        for s, k in l.t.items():
            r = (abs(k) != 1, -rank(s))
            if best is None or r < best[0]:
                best = (r, s)
        p = best[1]
        k = l.t[p]
        e = Lin({s: div(-v, k) for s, v in l.t.items() if s != p}, div(-l.c, k))
        m = {p: e}
        for s in list(self.eq):
            if p in self.eq[s].t:
                self.eq[s] = self.eq[s].subst(m)
        self.eq[p] = e
        old = self.ge
        self.ge = []
        self._mc = {}
        newc = []
        for g in old:
            if p in g.t:
                g = g.subst(m)
                if not g.t:
                    if g.c < 0:
                        self.bad = True
                        return
                    continue
                newc.append(tighten(g))
            else:
                self.ge.append(g)
        for g in newc:
            self.add_ge(g)
            if self.bad:
                return
        self.check_int()

    def check_int(self):
        """rows  pivot = lin  with integer coefficients and fractional constant have no integer solution"""
        for s, e in self.eq.items():
            if not isinstance(e.c, Fr):
                continue
            li, f = integral(e - sym(s))
            if type(li.c) is Fr:
                self.bad = True
                return

    def feasible(self):
        return not self.bad

    def syms(self):
        r = set(self.eq)
        for e in self.eq.values():
            r.update(e.t)
        for g in self.ge:
            r.update(g.t)
        return r

    def rows(self):
        return [(sym(s) - e) for s, e in self.eq.items()]

    def __repr__(self):
        return "{" + ", ".join("%s = %r" % (symname(s), e) for s, e in self.eq.items()) + " | " + ", ".join("%r>=0" % g for g in self.ge) + "}" + (" BAD" if self.bad else "")


_rank = {}


def rank(s):
    """preference as a pivot: higher rank is eliminated first"""
    return _rank.get(s, 0)


def setrank(s, r):
    _rank[s] = r


def project(p, slots, keep, fm_limit=60, fast=False):
    """p: Poly; slots: {newsym: Lin over p's symbols}; keep: symbols kept as they are.
    Returns a Poly over newsyms and keep."""
    # rows: newsym - expr = 0, with expr normalised
    rows = []
    for s, e in slots.items():
        rows.append(sym(s) - p.norm(e))
    for s, e in p.eq.items():
        rows.append(sym(s) - e)
    new = set(slots)
    sub = {}                  # old symbol -> Lin
    out = []
    pend = rows
    # eliminate old symbols
    work = list(rows)
    res = []
    while work:
        r = work.pop()
        r = r.subst(sub) if sub else r
        olds = [s for s in r.t if s not in new and s not in keep]
        if not olds:
            res.append(r)
            continue
        s = min(olds, key=lambda x: (abs(r.t[x]) != 1, str(x)))
        k = r.t[s]
        e = Lin({a: div(-v, k) for a, v in r.t.items() if a != s}, div(-r.c, k))
        m = {s: e}
        for a in sub:
            if s in sub[a].t:
                sub[a] = sub[a].subst(m)
        sub[s] = e
        res = [x.subst(m) if s in x.t else x for x in res]
    out = Poly()
    ineqs = []
    for g in p.ge:
        g2 = g.subst(sub)
        ineqs.append(g2)
    # Fourier-Motzkin on the remaining old symbols
    def olds_of(g):
        return [s for s in g.t if s not in new and s not in keep]
    while True:
        cnt = {}
        for g in ineqs:
            for s in olds_of(g):
                a = cnt.setdefault(s, [0, 0])
                a[0 if g.t[s] > 0 else 1] += 1
        if not cnt:
            break
        s = min(cnt, key=lambda x: (cnt[x][0] * cnt[x][1] - cnt[x][0] - cnt[x][1], str(x)))
        pos = [g for g in ineqs if g.t.get(s, 0) > 0]
        neg = [g for g in ineqs if g.t.get(s, 0) < 0]
        oth = [g for g in ineqs if s not in g.t]
        if len(pos) * len(neg) <= fm_limit:
            for a in pos:
                for b in neg:
                    c = a * (-b.t[s]) + b * a.t[s]
                    if c.t:
                        oth.append(integral(c)[0])
        seen = {}
        for g in oth:
            if g.t:
                g = integral(g)[0]
                k = g.tkey()
                if k not in seen or seen[k].c > g.c:
                    seen[k] = g
        ineqs = list(seen.values())
    for r in res:
        if out.bad:
            break
        out.add_eq(r)
    if fast and not out.bad:
        # p is feasible and its equalities are explicit
        best = {}
        for g in ineqs:
            g = out.norm(g)
            if not g.t:
                if g.c < 0:
                    out.bad = True
                continue
            g = tighten(g)
            k = g.tkey()
            if k not in best or best[k].c > g.c:
                best[k] = g
        out.ge = list(best.values())
        out._mc = {}
        if not out.bad:
            minimise(out)
        return out
    for g in ineqs:
        if out.bad:
            break
        out.add_ge(g)
    if not out.bad:
        minimise(out)
    return out


def minimise(p):
    """remove inequalities implied by the others"""
    i = 0
    ge = list(p.ge)
    while i < len(ge):
        rest = ge[:i] + ge[i + 1:]
        m = lp_min(ge[i], rest)
        if m is not None and m >= 0:
            ge = rest
        else:
            i += 1
    if len(ge) != len(p.ge):
        p.ge = ge
        p._mc = {}


def affine_hull(polys):
    """list of Lin (== 0) holding in all polys (Karr's join)"""
    allsyms = set()
    for p in polys:
        allsyms |= p.syms()
    sl = sorted(allsyms, key=lambda s: (rank(s), str(s)))
    base = None
    dirs = []             # list of dict sym->Fr
    for p in polys:
        # parametric point: free symbols
        pt = {}
        free = [s for s in sl if s not in p.eq]
        for s in p.eq:
            pt[s] = p.eq[s].c
        ds = []
        for f in free:
            d = {f: 1}
            for s, e in p.eq.items():
                k = e.t.get(f)
                if k:
                    d[s] = k
            ds.append(d)
        if base is None:
            base = pt
            dirs = ds
        else:
            diff = {}
            for s in sl:
                v = pt.get(s, 0) - base.get(s, 0)
                if v:
                    diff[s] = v
            if diff:
                dirs = dirs + [diff]
            dirs = dirs + ds
    # reduce dirs to echelon form (columns ordered)
    ech = {}
    order = {s: i for i, s in enumerate(sl)}
    for d in dirs:
        d = dict(d)
        while d:
            lead = min(d, key=lambda s: order[s])
            if lead not in ech:
                k = d[lead]
                ech[lead] = {s: div(v, k) for s, v in d.items()}
                break
            e = ech[lead]; k = d[lead]
            for s, v in e.items():
                nv = d.get(s, 0) - k * v
                if nv == 0:
                    d.pop(s, None)
                else:
                    d[s] = q(nv)
    # full reduction
    leads = sorted(ech, key=lambda s: order[s], reverse=True)
    for i, l in enumerate(leads):
        for m in leads[i + 1:]:
            k = ech[m].get(l)
            if k:
                d = ech[m]
                for s, v in ech[l].items():
                    nv = d.get(s, 0) - k * v
                    if nv == 0:
                        d.pop(s, None)
                    else:
                        d[s] = q(nv)
    # every non-lead symbol is an affine function of the leads
    out = []
    for s in sl:
        if s in ech:
            continue
        t = {}
        c = base.get(s, 0)
        for l in ech:
            k = ech[l].get(s)
            if k:
                t[l] = k
                c = c - k * base.get(l, 0)
        out.append(sym(s) - Lin({a: q(b) for a, b in t.items()}, q(c)))
    return out


def echelon(rows, key):
    """Gauss elimination choosing as pivot of each row the symbol with the greatest key; returns {pivot: Lin}"""
    ech = {}
    for r in rows:
        r = r.subst(ech)
        if not r.t:
            continue
        s = max(r.t, key=key)
        k = r.t[s]
        e = Lin({a: div(-v, k) for a, v in r.t.items() if a != s}, div(-r.c, k))
        m = {s: e}
        for a in ech:
            if s in ech[a].t:
                ech[a] = ech[a].subst(m)
        ech[s] = e
    return ech


def forms(p):
    """the inequalities of p, each also with the loop-varying (high rank) symbols eliminated through the equalities"""
    out = list(p.ge)
    if p.eq:
        ech = echelon([sym(s) - e for s, e in p.eq.items()], lambda s: (rank(s), str(s)))
        for g in p.ge:
            h = g.subst(ech)
            if h is not g and h.t:
                out.append(integral(h)[0])
        for a, e in ech.items():
            r = integral(sym(a) - e)[0]
            out.append(r); out.append(-r)
    return out


def join(polys, extra=(), relax=True, rich=False):
    """convex-hull approximation: affine hull plus every inequality of one side that the others (after relaxing its constant) satisfy"""
    polys = [p for p in polys if not p.bad]
    if not polys:
        r = Poly(); r.bad = True
        return r
    if len(polys) == 1:
        return polys[0].copy()
    out = Poly()
    for r in affine_hull(polys):
        out.add_eq(r)
    cands = {}

    def cand(g):
        g = out.norm(g)
        if g.t:
            g = integral(g)[0]
            cands.setdefault(g.tkey(), g)
    for p in polys:
        for g in forms(p):
            cand(g)
        for s, e in p.eq.items():
            r = sym(s) - e
            rn = out.norm(r)
            if rn.t:
                cand(rn); cand(-rn)
    if rich:
        # intervals
        for p in polys:
            for g in p.ge:
                for x in g.t:
                    if x not in out.eq:
                        cand(sym(x)); cand(-sym(x))
        # rewrite the inequalities with the equalities the join loses
        for p in polys:
            lost = []
            for s, e in p.eq.items():
                r = out.norm(sym(s) - e)
                if r.t:
                    lost.append(r)
            for g in p.ge:
                g = out.norm(g)
                for r in lost:
                    for s, k in r.t.items():
                        v = g.t.get(s)
                        if v:
                            cand(g - r * Fr(v, k) if v % k else g - r * (v // k))
                # tilt an inequality the others do not satisfy along a lost equality
                if lost:
                    for o in polys:
                        if o is p:
                            continue
                        m = o.vmin(g)
                        if m == -INF or m == 0 or m > 0 and rich != 2:
                            continue
                        for r in lost:
                            c = o.norm(r)
                            if c.isconst() and c.c:
                                k = -div(m, c.c)
                                cand(g + r * k)
    for g in extra:
        cand(g)
    for g in cands.values():
        lo = INF
        base = Lin(g.t, 0)
        for p in polys:
            m = p.vmin(base)
            lo = min(lo, m)
            if lo == -INF:
                break
            if not relax and lo < -g.c:
                break
        if lo == -INF or (not relax and lo < -g.c):
            continue
        if not relax:
            lo = -g.c if not type(g.c) is Fr else lo
        out.add_ge(base - lo)
    minimise(out)
    return out


def entails(p, r):
    """p is included in r"""
    if p.bad:
        return True
    if r.bad:
        return False
    for s, e in r.eq.items():
        if not p.ent_eq(sym(s) - e):
            return False
    return all(p.ent_ge(g) for g in r.ge)


def widen(old, new, upto=(), relaxed=None, often=1):
    """standard widening: constraints of old (and of the fixed set upto) that new satisfies; equalities by affine hull.
    With `relaxed` (counts per shape, kept by the caller) the constant of a constraint may be weakened `often` times."""
    out = Poly()
    for r in affine_hull([old, new]):
        out.add_eq(r)
    cands = list(old.ge)
    for s, e in old.eq.items():
        r = sym(s) - e
        if out.norm(r).t:
            cands += [integral(r)[0], integral(-r)[0]]
    # constraints of new that are constraints of old up to old's equalities
    ok = {g.tkey(): g.c for g in old.ge}
    for g in forms(new):
        h = old.norm(g)
        if h.t:
            h = integral(h)[0]
            if ok.get(h.tkey()) == h.c:
                cands.append(g)
    for g in cands + list(upto):
        if new.ent_ge(g):
            out.add_ge(g)
        elif relaxed is not None:
            g = out.norm(g)
            if g.t:
                g = integral(g)[0]
                k = g.tkey()
                if relaxed.get(k, 0) < often:
                    base = Lin(g.t, 0)
                    m = new.vmin(base)
                    if m not in (INF, -INF):
                        relaxed[k] = relaxed.get(k, 0) + 1
                        out.add_ge(base - m)
    minimise(out)
    return out
