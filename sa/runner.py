"""Runs the analysis on /repo's current source and gives the verdict for one property."""
import fcntl, hashlib, json, os, re, subprocess, sys, time, traceback

SA = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(SA)
B = os.path.join(V, ".build")
sys.path.insert(0, SA)


def digest(facts):
    h = hashlib.sha256()
    fs = [os.path.join(facts, f) for f in sorted(os.listdir(facts)) if f.endswith(".json")]
    fs += [os.path.join(SA, f) for f in sorted(os.listdir(SA)) if f.endswith(".py") and f != "runner.py"]
    for f in fs:
        h.update(f.encode())
        with open(f, "rb") as x:
            h.update(x.read())
    return h.hexdigest()[:24]


def analyse(facts):
    import check
    t = time.time()
    E, M, outs = check.run(facts)
    fns = sorted({E.ctxkey(i) for i in range(len(E.ctxs))})
    res = {
        "wall": time.time() - t,
        "found": [[k[0], k[1], k[2], m, w] for k, (m, w) in sorted(M.found.items())],
        "obs": {p: sorted("/".join(show(x) for x in (k if isinstance(k, tuple) else (k,))) for k in d) for p, d in M.obs.items()},
        "functions": len({f for f in fns}), "contexts": len(E.ctxs), "events": len(E.events), "sites": len(E.sites),
        "exits": len(outs), "warn": E.warn[:5], "names": fns,
    }
    return res


def show(x):
    return x if isinstance(x, str) else json.dumps(x, default=str)


def results(force):
    os.makedirs(B, exist_ok=True)
    with open(os.path.join(B, "run.lock"), "w") as l:
        fcntl.flock(l, fcntl.LOCK_EX)
        facts = os.path.join(B, "facts")
        env = dict(os.environ)
        r = subprocess.run([os.path.join(V, "build_facts.sh"), facts], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
        if r.returncode:
            print(r.stdout[-3000:])
            print("no verdict: /repo does not build for the analysis")
            sys.exit(2)
        d = digest(facts)
        cache = os.path.join(B, "result-%s.json" % d)
        if not force and os.path.exists(cache):
            with open(cache) as f:
                return json.load(f)
        res = analyse(facts)
        for f in os.listdir(B):
            if f.startswith("result-"):
                os.unlink(os.path.join(B, f))
        with open(cache + ".new", "w") as f:
            json.dump(res, f)
        os.replace(cache + ".new", cache)
        return res


def known():
    """lines `known: property=<id> rule=<rule> fn=<function> <what fails>`; `fixed:` lines suppress nothing"""
    out = {}
    p = os.path.join(V, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) rule=(\S+) fn=(\S+)\s*(.*)", line)
            if m:
                out[m.groups()[:3]] = m.group(4)
    return out


def main():
    pid, tier = sys.argv[1], sys.argv[2]
    t0 = time.time()
    sys.setrecursionlimit(20000)
    from rules import RULES
    rule = RULES[pid]
    try:
        res = results(tier == "thorough")
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc(limit=-6, file=sys.stdout)
        print("no verdict: the analysis failed on this tree")
        sys.exit(2)
    if any("convergence" in w or "recursion" in w or "overflow" in w for w in res["warn"]):
        print("no verdict: the analysis is incomplete on this tree: %s" % res["warn"])
        sys.exit(2)
    obs = res["obs"].get(pid, [])
    vio = [f for f in res["found"] if f[0] == pid]
    for pat, n, what in rule["floors"]:
        c = sum(1 for o in obs if re.search(pat, o))
        if c < n:
            vio.append([pid, "anchor-missing", pat, "%s: %d found where at least %d are expected; the rule would hold vacuously" % (what, c, n), []])
    k = known()
    new = []
    for f in vio:
        w = k.get((f[0], f[1], f[2]))
        if w is not None:
            print("KNOWN-FINDING: property=%s %s" % (pid, w or f[3]))
        else:
            new.append(f)
    ev = {
        "property": pid, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
        "coverage": {
            "explanation": "Whole-program abstract interpretation of the MIR of /repo's current source, from main, with every workspace function inlined in its calling context. Rule: " + rule["rule"],
            "functions_analysed": res["functions"], "calling_contexts": res["contexts"], "library_call_events": res["events"],
            "iteration_sites": res["sites"], "program_exits": res["exits"], "obligations": len(obs), "obligation_list": obs[:60],
            "samples": obs[:5], "analysis_warnings": res["warn"],
        },
        "assumptions": rule["assume"],
        "wall_s": round(time.time() - t0, 2), "violations": len(new),
    }
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    with open(os.path.join(V, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d obligations over %d functions in %d contexts, %d library-call events" % (pid, len(obs), res["functions"], res["contexts"], res["events"]))
    if new:
        rp = os.path.join(V, "evidence", pid + ".violation.txt")
        with open(rp, "w") as f:
            for v in new:
                f.write("rule %s\n  function %s\n  %s\n" % (v[1], v[2], v[3]))
                for w in v[4]:
                    f.write("  at %s\n" % w)
        for v in new:
            print("  [%s] %s: %s%s" % (v[1], v[2], v[3], "".join("\n      at " + str(w) for w in v[4])))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        sys.exit(1)
    sys.exit(0)


main()
