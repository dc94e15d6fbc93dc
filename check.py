#!/usr/bin/env python3
"""check.py <property id> [tier]: decides one property of properties.jsonl on /repo's current sources."""
import os, sys, time, json, traceback, multiprocessing as mp, multiprocessing.connection
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
T0 = time.time()
LIMIT = 840


def load_findings():
    r = []
    try:
        for l in open(os.path.join(HERE, "known_findings.txt")):
            l = l.strip()
            if l.startswith("finding:"):
                parts = dict(x.split("=", 1) for x in l.split(" ", 3)[1:3])
                r.append((parts["property"], parts["key"], l.split(" ", 3)[3] if l.count(" ") >= 3 else ""))
    except FileNotFoundError:
        pass
    return r


def worker(job):
    from sa import props
    t = time.time()
    try:
        r = props.run_job(job)
    except Exception as e:
        r = dict(error="%s: %s" % (type(e).__name__, e), trace=traceback.format_exc()[-1500:])
    r["job"] = " ".join(str(x) for x in job[1:]) if isinstance(job, tuple) else str(job)
    r["wall"] = round(time.time() - t, 1)
    return r


def child(job, wr):
    os.setpgid(0, 0)            # processes it starts are ended with it
    wr.send(worker(job))
    wr.close()
    os._exit(0)


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    from sa import props, bdd, build
    P = props.PROPS[pid]
    with build.Workdir() as work:
        jobs = [(work,) + j for j in P.jobs(tier)]
        jobs = props.prepare(jobs)
        results = []
        early = False
        ctx = mp.get_context("fork")
        queue = list(jobs)
        running = []
        N = int(os.environ.get("B64_JOBS", "0")) or os.cpu_count() or 4
        while queue or running:
            while queue and len(running) < N:
                j = queue.pop(0)
                rd, wr = ctx.Pipe(False)
                p = ctx.Process(target=child, args=(j, wr))
                p.start()
                wr.close()
                running.append((j, p, rd))
            mp.connection.wait([r for _, _, r in running], timeout=1)
            for x in list(running):
                j, p, rd = x
                if rd.poll():
                    try:
                        r = rd.recv()
                    except EOFError:
                        r = dict(error="analysis process ended without a result (out of memory?)", job=" ".join(map(str, j[1:])), wall=0)
                    p.join()
                    running.remove(x)
                    r["same"] = [" ".join(map(str, x[1:])) for x in props.SAME.get(j, ())]
                    results.append(r)
                    if P.fails(r):
                        early = True
            if early or (tier == "quick" and time.time() - T0 > LIMIT):
                break
        for j, p, rd in running:
            p.kill()
            try:
                os.killpg(p.pid, 9)
            except OSError:
                pass
        for j, p, rd in running:
            p.join()
        left = [(x[0], None) for x in running] + [(j, None) for j in queue]
        unfinished = [" ".join(map(str, j[1:])) for j, _ in left]
    fails = []
    n = {}
    errors = []
    for r in results:
        if r.get("error"):
            errors.append("%s: %s" % (r["job"], r["error"]))
            continue
        for k, c in r.get("n", {}).items():
            if P.want(r, k):
                n[k] = n.get(k, 0) + c
        fails += [(k, loc, text, d, r["job"]) for k, loc, text, d in P.fails(r)]
    if not early:
        for k, loc, text, d in P.cross(results) if not errors and not unfinished else ():
            fails.append((k, loc, text, d, "all"))
        n["cross"] = P.ncross if getattr(P, "ncross", 0) else 0
        if not n["cross"]:
            del n["cross"]
    known = load_findings()
    viol = []
    for f in fails:
        key = "%s@%s" % (f[0], f[1].replace(" ", "_"))
        hit = [x for x in known if x[0] == pid and x[1] == key]
        if hit:
            print("KNOWN-FINDING: property=%s %s" % (pid, hit[0][2] or f[2]))
        else:
            viol.append(f)
    missing = [] if (early or errors or unfinished) else P.vacuous(n, results)
    total = sum(n.values())
    cov = dict(obligations=total, discharged=total - len(fails), checker_cmd="python3 check.py %s" % pid,
               trusted_base=P.trusted, by_rule={k: dict(obligations=v, rule=props.RULES.get(k, k)) for k, v in sorted(n.items())},
               analyses=[dict(job=r["job"], same_code=r.get("same", []), seconds=r["wall"], **({"error": r["error"]} if r.get("error") else dict(stats=r.get("stats", {})))) for r in sorted(results, key=lambda r: r["job"])])
    if P.level != "proof":
        cov["explanation"] = P.method
    else:
        cov["method"] = P.method
    if unfinished:
        cov["unfinished"] = unfinished
    if viol:
        cov["violations_found"] = [dict(rule=f[0], at=f[1], what=f[2], detail=str(f[3])[:600], analysis=f[4]) for f in viol[:40]]
    ev = dict(property=pid, tier=tier if tier in ("quick", "thorough") else "quick", seed=seed, level=P.level, coverage=cov,
              assumptions=P.assumptions, wall_s=round(time.time() - T0, 1), violations=len(viol))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for e in errors:
        print("ERROR " + e[:600])
    if viol:
        path = os.path.join(HERE, "evidence", pid + "-violation.txt")
        with open(path, "w") as f:
            for k, loc, text, d, job in viol:
                f.write("%s\n  rule: %s (%s)\n  analysis: %s\n  detail: %s\n\n" % (loc, k, text, job, d))
        seen = set()
        for k, loc, text, d, job in viol:
            if (loc, text) in seen or len(seen) > 8:
                continue
            seen.add((loc, text))
            print("%s: [%s] does not hold: %s (%s) %s" % (loc, k, text, job, str(d)[:200].replace("\n", " ")))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if errors or unfinished or missing:
        for m in missing:
            print("ERROR nothing analysed for: " + m)
        for u in unfinished:
            print("ERROR not finished: " + u)
        return 2
    print("property=%s holds: %d obligations in %d analyses, %.0f s" % (pid, total, len(results), time.time() - T0))
    return 0


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
