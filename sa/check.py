import sys, time
sys.path.insert(0, __file__.rsplit("/", 1)[0])
from engine import *
import monitor, names, cover, final, package, route, panics, tags, listing, picks, sinks, asked, parsers, ends


def run(facts="/verif/.build/facts"):
    p = Program(facts)
    E = Engine(p)
    args = mk("sym", "args")
    local = mk("fld", args, "local_store", None)
    inner = mk("fld", mk("fld", args, "remote_store", None), "inner", None)
    nm = names.Names(local, mk("fld", inner, "0", "Filesystem"), mk("fld", inner, "0", "S3"))
    M = monitor.Mon(E, nm, mk("fld", args, "cmd", None))
    C = cover.Cover(E, M)
    R = route.Route(E, M, C)
    F = final.Final(E, M, C)
    asked.Asked(E, M, C, R, F)
    T = tags.Tags(E, M, C, F)
    L = listing.Listing(E, M, C)
    P = panics.Panics(E, M, R)
    P.arguments()
    Q = parsers.Requests(E, M)
    E.monitors = [M, C, package.Package(E, M, C), R, P, T, L, picks.Picks(E, M, C), Q]
    key = "artefacta_bin::main"
    st = S()
    outs = E.exec_body(p.body(key), E.ctx(0, key, -1, ""), st, [])
    for s, v in outs:
        w = v.a[1] if v.op == "agg" else "?"
        M.leftovers(s, "return " + w, [], key)
        if w == "Ok":
            F.ok(s)
            T.ok(s)
            L.ok(s, F.inner(s))
        else:
            T.failed(s)
            if M.cmd(s) == "Install" and v.op == "agg":
                R.failed(s, v.a[3][0])
    for kind, code, s, ctx, bb in E.exits:
        if kind == "exit" and not (code is not None and code.op == "c" and code.a[1] not in (0, None)):
            # the status may say success
            F.ok(s)
            T.ok(s)
            L.ok(s, F.inner(s))
        else:
            T.failed(s)
    L.done()
    R.done()
    sinks.check(p, M)
    ends.Ends(E, M).run(p)
    M.versions(p)
    parsers.Parsers(M, P, Q).run(p)
    return E, M, outs


if __name__ == "__main__":
    t = time.time()
    E, M, outs = run()
    print("time %.1f events %d warn %s" % (time.time() - t, len(E.events), E.warn[:3]))
    for k, (m, w) in sorted(M.found.items()):
        print(k, m, w[:4])
    for k, v in sorted(M.obs.items()):
        print(k, len(v))
