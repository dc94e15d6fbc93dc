"""Fixpoint of the command-line tool's abstract states; obligations are judged on the result."""
import heapq, os
import multiprocessing as mp, multiprocessing.connection
from . import poly
from .poly import Lin, Poly, sym, const, ZERO
from .cli import Cli, St, Unsupported, TOP, NULL, I, PT

EARLY = ("opt_d", "opt_i", "opt_n", "wz", "nf", "dash", "parsed", "help", "soft", "printed")
OPTG = ("g:optarg", "g:optind", "g:optopt", "g:opterr")
GH = ("R", "d", "E", "T", "Tq", "O", "W", "col", "b", "rr")
NOKEY = ("S", "T", "why", "mk", "perr", "perr0")


def rename(P, f):
    m = {}

    def L(l):
        return Lin({f(s): k for s, k in l.t.items()}, l.c)
    r = Poly()
    r.eq = {f(s): L(e) for s, e in P.eq.items()}
    r.ge = [L(g) for g in P.ge]
    r.bad = P.bad
    return r


class Run:
    def __init__(self, cli, limit=60000):
        self.c = cli
        self.states = {}        # (block, shape) -> [Poly, S, T, template, count]
        self.work = []; self.queued = set()
        self.limit = limit; self.steps = 0
        self.inrec = False
        self.relaxed = {}
        self.split = None

    # ---------------------------------------------------------------- blocks
    def edge(self, st, b, s):
        vals = []
        for i in s.ins:
            if i.op != "phi":
                break
            k = i.a["from"].index(b)
            o = i.ops[k]
            v = TOP if o[0] == "u" else self.c.val(st, o)
            vals.append((i, v))
        for i, v in vals:
            if v[0] == "t" and i.ty.k == "i" and i.ty.w > 8:
                v = self.c.unknown(st, i.ty)
            st.env[i.name] = v
        return st

    def exec(self, st, b):
        """runs block b; [(successor, state)]"""
        states = [st]
        for i in b.ins[:-1]:
            if i.op == "phi":
                continue
            nxt = []
            for s in states:
                if s.P.bad or s.d.get("broken"):
                    continue
                nxt += self.c.step(s, i)
            states = nxt
        t = b.ins[-1]
        out = []
        for s in states:
            if s.P.bad or s.d.get("broken"):
                continue                # a violation was reported there
            if t.op == "ret":
                self.c.finish(s, t, self.c.val(s, t.ops[0]) if t.ops else TOP)
            elif t.op == "unreachable":
                pass
            elif t.op == "br":
                su = t.a["succ"]
                if len(su) == 1:
                    out.append((su[0], s))
                else:
                    for u, x in self.c.decide(s, self.c.val(s, t.ops[0])):
                        if not u.P.bad:
                            out.append((su[0] if x else su[1], u))
            elif t.op == "switch":
                v = self.c.val(s, t.ops[0]); w = t.ops[0][2].w if t.ops[0][0] == "c" else 32
                cur = s; alive = True
                pend = [s]
                for cv, blk in t.a["cases"]:
                    nx = []
                    for u in pend:
                        for x, r in self.c.compare(u, "eq", v, I(self.c.s(cv & ((1 << w) - 1), w)), w):
                            if x.P.bad:
                                continue
                            if r:
                                out.append((blk, x))
                            else:
                                nx.append(x)
                    pend = nx
                out += [(t.a["default"], u) for u in pend]
            else:
                raise Unsupported("terminator %s" % t.op)
        return [(x, self.edge(u, b, x)) for x, u in out]

    def flow(self, st, b):
        """from the start of block b to the next places of joining"""
        stack = [(b, st)]
        n = 0
        while stack:
            x, s = stack.pop()
            n += 1
            if n > 20000:
                raise Unsupported("too many paths between joins")
            for y, u in self.exec(s, x):
                if y in self.c.joins:
                    self.arrive(y, u)
                else:
                    stack.append((y, u))

    # ---------------------------------------------------------------- joining
    def arrive(self, b, st):
        if self.inrec:
            return
        c = self.c
        live = c.live[b]
        todo = [st]
        for n in sorted(live):
            nx = []
            for s in todo:
                v = s.env.get(n)
                if v is not None and v[0] == "c":
                    for u, x in c.decide(s, v):
                        u.env[n] = I(x); nx.append(u)
                elif v is not None and n in c.sel and v[0] == "i" and not v[1].isconst() and False:
                    nx.append(s)
                else:
                    nx.append(s)
            todo = nx
        # states that take different branches at the end of this block are kept apart
        lc = self.loopcond(b)
        if lc is not None:
            nx = []
            for s in todo:
                v = s.env.get(lc[1])
                if v is None or v[0] != "i":
                    nx.append(s)
                    continue
                for u, x in c.compare(s, lc[0], v, I(lc[2]), lc[3]):
                    u.d["lc"] = 1 + x
                    nx.append(u)
            todo = nx
        for s in todo:
            if not s.P.bad:
                self.merge(b, s)
                s.d["lc"] = None

    def loopcond(self, b):
        """comparison of a value set at this place of joining with a constant that decides its branch"""
        m = self.__dict__.setdefault("_lc", {})
        if b not in m:
            m[b] = None
            if b in self.c.joins and b.ins[-1].op == "br" and len(b.ins[-1].a["succ"]) == 2:
                o = b.ins[-1].ops[0]
                q = [i for i in b.ins if o[0] == "v" and i.name == o[1]]
                if q and q[0].op == "icmp" and q[0].ops[1][0] == "c" and q[0].ops[0][0] == "v":
                    n = q[0].ops[0][1]
                    if any(i.name == n and i.op == "phi" for i in b.ins):
                        w = q[0].ops[1][2].w
                        m[b] = (q[0].a["pred"], n, self.c.s(q[0].ops[1][1], w), w)
        return m[b]

    def canon(self, b, st):
        if st.d.get("failed") and st.d.get("mode") is not None:
            # nothing but the exit status and memory safety matters any more
            st = st.copy()
            self.c.clearvec(st)
            for k in GH:
                st.n[k] = ZERO
            st.n["gw"] = ZERO
            for k in [k for k in st.d if isinstance(k, tuple) and k[0] == "c"]:
                self.c.delcontent(st, k[1])
            st.d["S"] = frozenset(); st.d["T"] = None
            for k in ("opt_d", "opt_i", "opt_n", "wz", "src", "final", "eof", "soft", "forced", "nf", "dash", "parsed", "baddata"):
                st.d[k] = None
        if "T" in st.n and st.P.ent_eq(st.n["Tq"] - st.n["T"]) and st.P.ent_eq(st.n["O"] - st.n["W"]):
            # all text is written: what the buffers still hold of it is of no interest
            old = [k[1] for k in st.d if isinstance(k, tuple) and k[0] == "c" and st.d[k] == "text"]
            if old:
                st = st.copy()
                for r in old:
                    self.c.delcontent(st, r)
        c = self.c; live = c.live[b]; cl = c.celllive[b]
        slots = []; shape = []; tmpl = {}
        P = st.P

        def put(loc, v, key):
            k = v[0]
            if k == "i":
                x = P.norm(v[1])
                if x.isconst() and key:
                    shape.append((loc, "=", x.c)); tmpl[loc] = ("=", x.c)
                else:
                    shape.append((loc, "i")); tmpl[loc] = ("i",); slots.append((loc, x))
            elif k == "p" and c.isvec(v[1]):
                q, f = c.vecidx(st, P.norm(v[2]), v[1])
                o = 0 if f == 0 else c.regty[v[1]].e.offs[1]
                shape.append((loc, "vp", v[1], o)); tmpl[loc] = ("vp", v[1], c.regty[v[1]].e.size, o); slots.append((loc, q))
            elif k == "p":
                shape.append((loc, "p", v[1])); tmpl[loc] = ("p", v[1]); slots.append((loc, P.norm(v[2])))
            elif k == "fb":
                shape.append((loc, "fb", hash(v[2]))); tmpl[loc] = ("fb", v[2]); slots.append((loc, P.norm(v[1])))
            elif k == "pf":
                shape.append((loc, "pf", v[1], hash(v[3]))); tmpl[loc] = ("pf", v[1], v[3]); slots.append((loc, P.norm(v[2])))
            else:
                shape.append((loc,) + tuple(v)); tmpl[loc] = ("v", v)
        early = bool(st.d.get("failed")) and st.d.get("mode") is None       # refused before anything was processed
        names = [n for n in st.env if n in live or n[0] == "@"]
        for n in sorted(names):
            ty = None
            put(("e", n), st.env[n], n in c.sel or self.width(n) == 1 or self.width(n) <= 8 and not early)
        for k in sorted(st.mem, key=str):
            if k[0].startswith("a:") and k[0][2:] not in cl:
                continue
            if k[0] in OPTG and k[0] not in c.greach[b]:
                continue
            sz, v = st.mem[k]
            put(("m", k, sz), v, sz == 1)
        # vectors: keep the entries live variables point at
        marks = []
        mk = st.d.get("mk", ())
        if mk:
            qr = st.d.get("qr")
            es = c.regty[qr].e.size if qr else 16
            have = []
            for a, _ in mk:
                have.append((st.n[("mk", a, "i")], st.n[("mk", a, "p")]))
            for idx, pos in have:
                if P.norm(idx).isconst() and P.norm(idx).c == 0:
                    marks.append(("C0", idx, pos))
                    break
            for n in sorted(names):
                v = st.env[n]
                if v[0] == "p" and v[1] == qr:
                    for idx, pos in have:
                        if P.ent_eq(v[2] - idx * es):
                            marks.append(("L" + n, idx, pos))
                            break
                elif v[0] == "i" and self.width(n) >= 32 and not P.norm(v[1]).isconst():
                    for idx, pos in have:
                        if P.norm(v[1] - idx) == ZERO:
                            marks.append(("L" + n, idx, pos))
                            break
            onlyc = all(m[0] == "C0" for m in marks)
            ptrs = any(st.env[n][0] == "p" and st.env[n][1] == qr for n in names)
            if onlyc and not ptrs and not st.d.get("mod") and not st.d.get("open") and P.ent_eq(st.n["O"] - st.n["W"]):
                marks = []
                st = st.copy(); c.clearvec(st)
        c0 = [m for m in marks if m[0] == "C0"]
        if c0:
            keep = []
            for m in marks:
                if m[0] != "C0" and P.ent_eq(m[1]) and P.ent_eq(m[2] - c0[0][2]):
                    shape.append(("mk", m[0], "C0"))        # the first entry itself: kept apart from later ones
                else:
                    keep.append(m)
            marks = keep
        for a, idx, pos in marks:
            shape.append(("mk", a)); tmpl[("mk", a)] = ("mk",)
            slots.append((("mk", a, "i"), P.norm(idx))); slots.append((("mk", a, "p"), P.norm(pos)))
        for k in sorted(st.n, key=str):
            if isinstance(k, tuple) and k[0] == "mk":
                continue
            shape.append(("n", k, k == "col" and P.norm(st.n[k]) == ZERO)); tmpl[("n", k)] = ("n",); slots.append((("n", k), P.norm(st.n[k])))
        d = {k: v for k, v in st.d.items() if k not in NOKEY and v not in (None, False, ()) and not (early and k in EARLY)}
        for k in sorted(d, key=str):
            shape.append(("d", k, d[k]))
        tmpl["d"] = d
        T = st.d.get("T")
        shape.append(("T", T is not None, T is not None and T <= c.skipset(st)))
        tmpl["why"] = st.d.get("why"); tmpl["mk"] = tuple(a for a, _, _ in marks)
        return tuple(shape), slots, tmpl, st

    def width(self, n):
        w = self.__dict__.setdefault("_w", {})
        if not w:
            for b in self.c.F.blocks:
                for i in b.ins:
                    w[i.name] = i.ty.w if i.ty.k == "i" else 64
            for p in self.c.F.params:
                w[p[0]] = p[1].w
        return w.get(n, 64)

    def merge(self, b, st):
        if self.split is not None and st.d.get("mode") is not None:
            # from here on the runs of different kinds never meet: each kind is analysed on its own
            k = tuple(str(st.d.get(x)) for x in ("mode", "wz", "opt_i", "opt_n", "src"))
            self.split.setdefault(k, []).append((b, st.copy()))
            return
        shape, slots, tmpl, st = self.canon(b, st)
        key = (b, shape)
        old = self.states.get(key)
        S, T = st.d.get("S", frozenset()), st.d.get("T")
        S |= {k for k in ("perr", "perr0") if st.d.get(k)}      # "possible" only: joins like the set
        if old is not None:
            # covered already?
            oS, oT = old[1], old[2]
            if S <= oS and (oT is None or T is not None and T <= oT):
                m = {repr(loc): l for loc, l in slots}
                oP = old[0]
                if all(st.P.ent_eq(m[a] - e.subst(m)) for a, e in oP.eq.items()) and all(st.P.ent_ge(g.subst(m)) for g in oP.ge):
                    return
        new = {}
        for loc, l in slots:
            new["N|" + repr(loc)] = l
        P = poly.project(st.P, new, frozenset(), fast=True)
        if P.bad:
            return
        P = rename(P, lambda s: s[2:])
        if old is None:
            self.states[key] = [P, S, T, tmpl, 0, slots]
            self.push(key)
            return
        oP, oS, oT = old[0], old[1], old[2]
        nS = oS | S
        nT = None if oT is None or T is None else oT | T
        if nS == oS and nT == oT and poly.entails(P, oP):
            return
        old[4] += 1
        if b in self.c.heads and old[4] > 3:
            j = poly.join([oP, P], rich=True)
            up = []
            # thresholds: constants the program compares with, the limits of the types and the sizes of the buffers
            ths = set(self.c.thresholds)
            for loc, l in slots:
                if loc[0] == "n" and isinstance(loc[1], tuple) and loc[1][0] == "sz" and l.isconst():
                    ths.add(l.c)
            ths |= {int(e.c) for e in j.eq.values() if e.isconst() and e.c > 1 and e.c == int(e.c)}
            ths = sorted(ths)
            for loc, _ in slots:
                if loc[0] == "e" or loc[0] == "m" or loc == ("n", "qhi") or loc[0] == "n" and isinstance(loc[1], tuple) and loc[1][-1] == "hi":
                    x = sym(repr(loc))
                    v = j.vmin(x)
                    for c in (2, 1, 0, -1):
                        if c <= v:
                            up.append(x - c)
                            break
                    v = j.vmax(x)
                    for th in ths:
                        hit = False
                        for c in (th - 1, th):
                            if c >= v:
                                up.append(const(c) - x); hit = True
                                break
                        if hit:
                            break
            J = poly.widen(oP, j, up, self.relaxed.setdefault(key, {}))
        else:
            J = poly.join([oP, P], rich=True)
        if old[4] > 200:
            raise Unsupported("no fixpoint at %s" % b.ins[0].loc())
        old[0] = J; old[1] = nS; old[2] = nT
        self.push(key)

    def push(self, key):
        if key not in self.queued:
            self.queued.add(key)
            self.cnt = getattr(self, "cnt", 0) + 1
            heapq.heappush(self.work, (self.c.rpo[key[0]], self.cnt, key))

    def restore(self, key):
        P, S, T, tmpl = self.states[key][:4]
        st = St()
        st.P = P.copy(); st.env = {}; st.mem = {}; st.n = {}; st.d = dict(tmpl["d"])

        def s(loc):
            return P.norm(sym(repr(loc)))
        for loc, t in tmpl.items():
            if not isinstance(loc, tuple):
                continue
            if loc[0] in ("e", "m"):
                if t[0] == "=":
                    v = ("i", const(t[1]))
                elif t[0] == "i":
                    v = ("i", s(loc))
                elif t[0] == "p":
                    v = ("p", t[1], s(loc))
                elif t[0] == "vp":
                    v = ("p", t[1], s(loc) * t[2] + t[3])
                elif t[0] == "fb":
                    v = ("fb", s(loc), t[1])
                elif t[0] == "pf":
                    v = ("pf", t[1], s(loc), t[2])
                else:
                    v = t[1]
                if loc[0] == "e":
                    st.env[loc[1]] = v
                else:
                    st.mem[loc[1]] = (loc[2], v)
            elif loc[0] == "n":
                st.n[loc[1]] = s(loc)
        for a in tmpl["mk"]:
            st.n[("mk", a, "i")] = s(("mk", a, "i")); st.n[("mk", a, "p")] = s(("mk", a, "p"))
        st.d["mk"] = tuple((a, 0) for a in tmpl["mk"])
        if T is not None:
            st.ge(st.n["R"] - st.n["E"] - 1)        # the byte at E has been looked at, hence read
        st.d["perr"], st.d["perr0"] = "perr" in S, "perr0" in S
        st.d["S"] = S - {"perr", "perr0"}; st.d["T"] = T; st.d["why"] = tmpl["why"]; st.d["lc"] = None
        return st

    def start(self):
        c = self.c
        st = St(); st.env = {}; st.mem = {}; st.P = Poly(); st.n = {}; st.d = {}
        argc = sym("argc")
        st.ge(argc - 1); st.ge(const((1 << 31) - 1) - argc)
        st.n["argc"] = argc
        c.sizes["argv"] = (argc + 1) * (c.ptr // 8)
        ps = c.F.params
        if len(ps) > 0:
            st.env[ps[0][0]] = ("i", argc)
        if len(ps) > 1:
            st.env[ps[1][0]] = PT("argv")
        st.n["gw"] = const(76); st.d["wz"] = False
        c.sizes["errno"] = const(4); c.seterrno(st)
        for g in c.m.globals.values():
            r = "g:" + g.name
            if g.const or g.init is None or c.isvec(r) or g.ty.size > 256:
                continue
            self.ginit(st, r, g, g.ty, 0)
        c.sizes["argv"] = None
        return st

    def ginit(self, st, r, g, t, off):
        if t.k in ("i", "p"):
            st.mem[(r, off)] = (t.store, self.c.initval(g.init, g.ty, off, t.store))
        elif t.k == "s":
            for e, x in zip(t.els, t.offs):
                self.ginit(st, r, g, e, off + x)
        elif t.k == "a" and t.n <= 16:
            for k in range(t.n):
                self.ginit(st, r, g, t.e, off + k * t.e.size)

    def solve(self):
        while self.work:
            _, _, key = heapq.heappop(self.work)
            self.queued.discard(key)
            self.steps += 1
            if self.steps > self.limit:
                raise Unsupported("no fixpoint in %d steps" % self.limit)
            self.flow(self.restore(key), key[0])

    def judge(self, first):
        self.inrec = True
        obs = {}

        def rec(kind, ok, ins, st, msg):
            k = (kind, st.d.get("mode") or "options", ins.loc() if ins is not None else "?", ins.fn.name if ins is not None else "", ins.name if ins is not None else "")
            o = obs.setdefault(k, [0, 0, None])
            o[0 if ok else 1] += 1
            if not ok and o[2] is None:
                o[2] = (msg, {x: str(y) for x, y in st.d.items() if y not in (None, False, ()) and isinstance(x, str)})
        self.c.rec = rec
        if first:
            self.begin()
        for key in list(self.states):
            self.flow(self.restore(key), key[0])
        self.c.rec = None
        self.inrec = False
        return obs

    def begin(self):
        c = self.c
        st = self.start()
        st.n[("sz", "argv")] = (st.n["argc"] + 1) * (c.ptr // 8)
        self.flow(st, c.F.blocks[0])

    def run(self, procs=1):
        """obligations: (kind, mode, place, function, instruction) -> [held, did not, example]"""
        if procs > 1:
            self.split = {}
        self.begin()
        self.solve()
        kids = []
        todo = sorted((self.split or {}).items(), key=lambda x: ("opt" in str(x), x[0][0] != "enc", x[0][1] != "None", x[0]))
        self.split = None if self.split is None else dict(self.split)
        split = self.split
        self.classes = {}
        ctx = mp.get_context("fork")
        running = []

        def kid(k, sts, wr):
            try:
                self.split = None; self.states = {}; self.steps = 0
                for b, st in sts:
                    self.merge(b, st)
                self.solve()
                r = (self.judge(False), self.steps, len(self.states), None)
            except BaseException as e:
                import traceback
                r = ({}, 0, 0, (type(e).__name__, "%s [%s]" % (e, traceback.format_exc()[-700:])))
            wr.send(r); wr.close()
            os._exit(0)
        obs = None
        err = None
        while todo or running or obs is None:
            while todo and len(running) < procs:
                k, sts = todo.pop(0)
                rd, wr = ctx.Pipe(False)
                p = ctx.Process(target=kid, args=(k, sts, wr))
                p.start(); wr.close()
                running.append((k, p, rd))
            if obs is None:
                obs = self.judge(True)
                self.classes[("options",)] = (self.steps, len(self.states))
                continue
            mp.connection.wait([x[2] for x in running], timeout=5)
            for x in list(running):
                if x[2].poll():
                    try:
                        o, n, m, e = x[2].recv()
                    except EOFError:
                        o, n, m, e = {}, 0, 0, ("Died", "analysis process ended without a result")
                    x[1].join(); running.remove(x)
                    if e:
                        err = err or e
                    self.classes[x[0]] = (n, m)
                    for kk, v in o.items():
                        t = obs.setdefault(kk, [0, 0, None])
                        t[0] += v[0]; t[1] += v[1]; t[2] = t[2] or v[2]
        if err is not None and not any(v[1] for v in obs.values()):
            raise Unsupported("%s: %s" % err)
        self.obs = obs
        return obs
