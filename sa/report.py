"""Development aid: all reports for a directory of facts."""
import sys, re, time
sys.path.insert(0, __file__.rsplit("/", 1)[0])
sys.setrecursionlimit(20000)
import check
from rules import RULES
t = time.time()
E, M, outs = check.run(sys.argv[1])
n = 0
for k, (m, w) in sorted(M.found.items()):
    n += 1
    print(k, m[:150], w[:3])
for pid, r in RULES.items():
    obs = ["/".join(str(x) if not isinstance(x, tuple) else "(%s)" % ",".join(map(str, x)) for x in (k if isinstance(k, tuple) else (k,))) for k in M.obs.get(pid, ())]
    for pat, c, what in r["floors"]:
        if sum(1 for o in obs if re.search(pat, o)) < c:
            n += 1
            print((pid, "anchor-missing", pat), what)
print("reports %d, warnings %s, %.0f s" % (n, E.warn[:3], time.time() - t))
