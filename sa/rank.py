"""Termination: every cycle of a function gets a ranking function, found and proved on the abstract states."""
import heapq, time
from .poly import Lin, INF
from .engine import Num, Bits, Ptr, Unsupported, State


def sccs(nodes, succ):
    """strongly connected components with a cycle (Tarjan, iterative)"""
    idx, low, on, st, out = {}, {}, set(), [], []
    c = [0]
    for root in nodes:
        if root in idx:
            continue
        work = [(root, iter(succ(root)))]
        idx[root] = low[root] = c[0]; c[0] += 1; st.append(root); on.add(root)
        while work:
            v, it = work[-1]
            for w in it:
                if w not in idx:
                    idx[w] = low[w] = c[0]; c[0] += 1; st.append(w); on.add(w)
                    work.append((w, iter(succ(w)))); break
                elif w in on:
                    low[v] = min(low[v], idx[w])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == idx[v]:
                    comp = []
                    while True:
                        w = st.pop(); on.discard(w); comp.append(w)
                        if w == v:
                            break
                    if len(comp) > 1 or v in succ(v):
                        out.append(comp)
    return out


def candidates(st):
    r = {}
    for k, v in st.vals.items():
        if isinstance(v, Num) and v.w > 1:
            r[("v", k)] = v.l
        elif isinstance(v, Ptr):
            r[("p", k)] = v.off
    for k, (n, v) in st.mem.items():
        if isinstance(v, Num):
            r[("m", k)] = v.l
        elif isinstance(v, Ptr):
            r[("mp", k)] = v.off
    return r


def subrun(eng, h, S, inits):
    """all states in which the head is reached again, from its states, through the blocks of S"""
    keep = (eng.instates, eng.outs, eng.cnt, eng.exits_by, {k: set(v) if isinstance(v, set) else {a: set(b) for a, b in v.items()} for k, v in eng.black.items()})
    eng.instates, eng.outs, eng.cnt, eng.exits_by = {}, {}, {}, {}
    rep = eng.reporting
    eng.reporting = False
    try:
        work, inq = [], set()
        def push(b):
            if b != h and b in S and b not in inq:
                inq.add(b); heapq.heappush(work, (eng.pos[b], b))
        for i, st in enumerate(inits):
            eng.cur = ("sub", i)
            eng.exits_by[eng.cur] = []
            o = [(t, s) for t, s in eng.execute_in(eng.blocks[h], st, S)]
            eng.outs[eng.cur] = o
            for t, _ in o:
                push(t)
        t0 = time.time(); n = 0
        eng.subset = S
        while work:
            _, b = heapq.heappop(work); inq.discard(b)
            n += 1
            if n > 3000 or time.time() - t0 > eng.spec.time_limit:
                raise Unsupported("no fixpoint in the ranking of %s" % eng.F.name)
            for t in eng.update(b, widen=True):
                push(t)
        return [s for o in eng.outs.values() for t, s in o if t == h]
    finally:
        eng.subset = None
        eng.instates, eng.outs, eng.cnt, eng.exits_by, eng.black = keep
        eng.reporting = rep


def check(eng, F, rep, ctx=""):
    """obligations 'rank': one per loop head needed to cut all cycles"""
    vis = eng.visited
    succ = lambda S: (lambda b: [s.name for s in eng.blocks[b].succ if s.name in S])
    def rank(S):
        S = set(S)
        heads = sorted([b for b in S if b in eng.back and eng.instates.get(b)], key=lambda b: eng.pos[b])
        why = []
        for h in heads:
            inits = []
            for key, st in eng.instates[h].items():
                st = st.copy()
                for c, l in candidates(st).items():
                    l = st.poly.norm(l)
                    if l.t:
                        st.g["rk:%s:%s" % c] = l
                st.g["rk0"] = 1
                inits.append(st)
            arr = subrun(eng, h, S, inits)
            arr = [s for s in arr if not s.bad]
            cand = None
            for s in arr:
                good = set()
                now = candidates(s)
                for k, v in s.g.items():
                    if not (isinstance(k, str) and k.startswith("rk:")):
                        continue
                    _, kind, nm = k.split(":", 2)
                    l = next((l for c, l in now.items() if c[0] == kind and str(c[1]) == nm), None)
                    if l is None:
                        continue
                    if s.poly.ent_ge(v - l - 1) and s.poly.vmin(v) > -INF:
                        good.add((k, "decreases"))
                    elif s.poly.ent_ge(l - v - 1) and s.poly.vmax(v) < INF:
                        good.add((k, "increases"))
                cand = good if cand is None else cand & good
                if not cand:
                    break
            if arr and not cand:
                why.append("%s: %d arrivals" % (h, len(arr)))
                continue
            t = eng.blocks[h].ins[-1]
            rep.ob("rank", True, t, "")
            for sub in sccs(sorted(S - {h}), succ(S - {h})):
                rank(sub)
            return
        b = min(S, key=lambda b: eng.pos.get(b, 0))
        loc = next((i for i in eng.blocks[b].ins if i.line), eng.blocks[b].ins[-1])
        lines = sorted({i.line for x in S for i in eng.blocks[x].ins if i.line and i.file == loc.file})
        rep.ob("rank", False, loc, "the loop terminates: some quantity counts down or up to a bound on every iteration",
               "no ranking function for the loop over lines %s (heads %s) %s" % (lines[:12], ", ".join(why), ctx))
    S = {b for b in vis}
    comps = sccs(sorted(S), succ(S))
    for c in comps:
        rank(c)
    return len(comps)
