"""Install by patches: the path, its order, its price, and what may make install fail (C06, C08, C09, C27)."""
from terms import *
from names import np, CANON
from cover import elems
import natives as nat

SHUFFLE = {"rev", "sort", "sortx", "set", "hash", "swap", "rotate_left", "rotate_right", "insert", "step_by", "take", "skip", "take_while",
           "map_while", "filter_entry", "truncate", "pop", "remove", "swap_remove", "dedup", "drain", "split_off"}
LOCALFAIL = {"std::path::Path::exists", "std::path::Path::is_file", "std::path::Path::try_exists", "std::path::Path::metadata", "std::fs::metadata",
             "std::path::Path::symlink_metadata", "std::fs::symlink_metadata", "std::fs::File::open", "std::fs::OpenOptions::open", CANON, "std::fs::canonicalize",
             "std::fs::exists", "Path::to_str"}

PARTS = {"windows", "iter", "into_iter", "as_slice", "deref", "to_vec", "clone", "split_first", "split_last", "chunks", "first", "last", "get", "as_ref",
         "split_at", "zip", "skip"}


DIRECT = ("direct",)
OK = frozenset(["ok"])
NONE = frozenset()


def isastar(x):
    return x.op == "app" and x.a[0].rsplit("::", 1)[-1] in ("astar", "dijkstra", "bidirectional_dijkstra", "k_shortest_path", "bellman_ford", "all_simple_paths")


class Route:
    def __init__(self, E, M, C):
        self.E, self.M, self.C, self.nm = E, M, C, M.nm
        self.skipbad = {}
        self.fetched = {}
        self.search = {}
        self.direct = []        # fetches of the complete build, with what is known about paths to it
        self.tried = set()      # passes over the path in which its patches are used
        self.sc = {}
        M.consecutive = self.consecutive

    # ---- elements of the path that was found
    def steps(self, t):
        r = self.sc.get(t)
        if r is None:
            r = self.sc[t] = any(self.onpath(l.a[0], set()) for l in elems(t))
        return r

    def onpath(self, s, seen):
        """a sequence made of (neighbours on) the path"""
        if s in seen:
            return False
        seen.add(s)
        if isastar(s):
            return True
        if s.op == "fld":
            return self.onpath(s.a[0], seen)
        if s.op == "phi":
            return any(self.onpath(m, seen) for m in s.a[0])
        if s.op == "seq":
            return any(self.steps(i.a[0]) for i in s.a[1])
        if s.op == "elem":
            return self.onpath(s.a[0], seen)
        if s.op == "agg" and s.a[0].endswith("range::Range"):
            # its positions
            return any(x.op == "app" and x.a[0] == "len" and self.onpath(x.a[1][0], seen) for x in subterms(fld(s, "end")))
        if s.op == "app" and s.a[1] and (s.a[0] == "index" or s.a[0].rsplit("::", 1)[-1] in PARTS):
            return self.onpath(s.a[1][0], seen)
        return False

    def is_source(self, l):
        return any(isastar(x) for x in subterms(l))

    def searchof(self, t):
        return {x for x in subterms(t) if isastar(x)}

    # ---- C08: passes over the steps
    def on_next(self, E, st, site, terms, x):
        if E.cur_array:
            return              # texts written side by side in the program
        if self.M.cmd(st) != "Install":
            return
        if x is None and DIRECT in st.ts and any(isastar(y) for t in terms for y in subterms(t)):
            # none of the steps was (or is still) needed
            st.ts[DIRECT] = frozenset(d if d == "ok" else d | {self.C.canon(site)} for d in st.ts[DIRECT])
        if not any(self.steps(t) for t in terms):
            return
        site = self.C.canon(site)
        k = ("stp", site)
        s = st.ts.pop(k, frozenset())
        if "new" in s:
            st.ts[("stpdrop", site)] = frozenset("y")
        if x is not None and self.steps(x):
            st.ts[k] = frozenset(["new"])
        elif x is None and E.cur_items is not None:
            pass

    def mark(self, st, val, t=None):
        for k in [k for k in st.ts if isinstance(k, tuple) and k[0] == "stp" and "new" in st.ts[k]]:
            st.ts[k] = frozenset(val if y == "new" else y for y in st.ts[k])
            if val in ("done", "kept"):
                st.ts[("stpuse",) + k[1:]] = frozenset("y")

    def on_keep(self, E, st, i):
        if self.steps(i.a[0]):
            self.mark(st, "kept")

    def on_trunc(self, E, st, kind, site, e):
        if self.steps(e) and self.M.cmd(st) == "Install" and kind != "skip_while":
            st.ts[("stpdrop", self.C.canon(site))] = frozenset("y")

    def islocal(self, st, t):
        """the build the step leads to is in the local store"""
        to = None
        if t.op == "agg" and "to" in t.a[2]:
            to = fld(t, "to")
            to = fld(to, "data") if to.op == "agg" else to
        for k, v in st.facts.items():
            if v == "Some" and k.op == "fld" and k.a[1] == "local" and (to is None or to in set(subterms(k)) or mk("agg", "x", None, (), ()) is to):
                if to is not None and any(y is to for y in subterms(k)):
                    return True
            if v is True and k.op == "app" and k.a[0] == "have" and k.a[1][0] is const("build") and (to is None or k.a[1][1] is to or k.a[1][1] is fld(to, "data")):
                return True
        return False

    # ---- events
    def on_event(self, E, st, e):
        n = e.name
        if n == "skip":
            x = e.args[0]
            if self.steps(x) and self.M.cmd(st) == "Install":
                if (e.extra or {}).get("kind") != "skip_while" or not self.islocal(st, x):
                    self.skipbad[(e.ctx, e.bb)] = e
        elif n == "iterate":
            r = e.args[0]
            if self.M.cmd(st) == "Install" and self.pathlike(r):
                st.ts[("stporder",)] = frozenset(e.extra["tags"]) or frozenset([""])
        elif n == "search":
            self.check_search(st, e)
        elif isastar_name(n):
            if n != "petgraph::algo::astar::astar":
                self.M.bad("C09", "search", "the upgrade path is searched by an unclassified algorithm (%s)" % n, e)
        if n in LOCALFAIL and e.args:
            p = e.args[1] if n.endswith("OpenOptions::open") else e.args[0]
            if self.nm.side(st, p) == "local" and e.t is not None:
                self.fetched[e.t] = self.fetched.get(e.t, True) and bool(st.facts.get(app("fetched", const("x"))))
            if self.M.cmd(st) == "Install":
                c = self.nm.pathcomps(st, p)
                if c[0] == "patch" and any(isastar(y) for x in c[1:] for y in subterms(x)):
                    self.tries(st, c)
        self.remote_read(E, st, e)

    def tries(self, st, c):
        st.ts[DIRECT] = OK
        self.tried |= {k[1] for k in st.ts if isinstance(k, tuple) and k[0] == "stp"}

    def pathlike(self, r):
        for s in self.E.iter_srcs(r):
            ts = [i.a[0] for i in s.a[1]] if s.op == "seq" else [mk("elem", s, -1)]
            if any(self.steps(t) for t in ts):
                return True
        return False

    def remote_read(self, E, st, e):
        """C27: what is read from the remote store"""
        M = self.M
        n = e.name
        c = None
        if n.endswith("::get_object") and n.startswith("rusoto_s3::"):
            key = M.s3key(e.t)
            if key is not None:
                c = self.nm.comps(self.nm.base(st, key))
        elif n in ("std::fs::File::open", "std::fs::read", "std::fs::OpenOptions::open", "std::fs::copy"):
            p = e.args[1] if n.endswith("OpenOptions::open") else e.args[0]
            if n.endswith("OpenOptions::open"):
                from monitor import openflags, flag
                f = openflags(e.args[0])
                if any(flag(f, x) for x in ("write", "append", "create", "create_new", "truncate")):
                    return
            if self.nm.side(st, p) != "remote":
                return
            # checking what this run has just put there is not a download
            if st.ts.get(("wrote", np(p))):
                return
            c = self.nm.pathcomps(st, p)
        if c is None:
            return
        st.facts[app("fetched", const("x"))] = True
        M.ob("C27", (e.key, M.cmd(st), c[0]), None)
        if M.cmd(st) == "Install" and c[0] == "build" and len(c) > 1 and c[1] is M.wanted():
            M.ob("C31", ("fetch", e.key), None)
            self.direct.append((st.ts.get(DIRECT, frozenset([NONE])), e))
        if c[0] not in ("build", "patch"):
            M.bad("C27", "unknown-fetch", "a remote file of unclear name is read: %s" % show(c[1], 4)[:100], e)
        elif not st.facts.get(app("absent", const(c[0]), *c[1:])):
            M.bad("C27", "needless-fetch", "a %s is fetched from the remote store without having found its local copy missing or empty" % c[0], e)

    def absent(self, st, p):
        if self.nm.side(st, p) == "local":
            c = self.nm.pathcomps(st, p)
            st.facts[app("absent", const(c[0]), *c[1:])] = True

    def on_assume(self, E, st, t, v):
        if t.op == "phi":
            return
        if t is self.M.cmdt and v == "Install":
            st.ts[DIRECT] = frozenset([NONE])
        if self.noway(st, t, v):
            st.ts[DIRECT] = OK
        if t.op == "app":
            n = t.a[0]
            if n in LOCALFAIL and (v is False or v in ("Err", "None")):
                p = t.a[1][1] if n.endswith("OpenOptions::open") else t.a[1][0]
                self.absent(st, p)
            elif n in ("lt", "eq") and t.a[1][0] is const(0) and v is (n == "eq"):
                for y in subterms(t.a[1][1]):
                    if y.op == "app" and y.a[0] in LOCALFAIL and y.a[1]:
                        self.absent(st, y.a[1][0])
            if n == "std::fs::rename" and v == "Ok":
                st.ts[("wrote", np(t.a[1][1]))] = frozenset("y")
            if n == "lt" and v is True:
                self.cheaper(st, t.a[1][0], t.a[1][1])
        if v in ("Some",) and t.op == "fld" and t.a[1] == "local" or v is True and t.op == "app" and t.a[0] == "have":
            # a step whose build is already there
            if any(isinstance(k, tuple) and k[0] == "stp" and "new" in s for k, s in st.ts.items()) and any(isastar(x) for x in subterms(t)):
                self.mark(st, "exempt")

    # ---- C31
    def on_agg(self, E, st, t, ctx, bb):
        """a function of the link alone fails: it is no link to a build"""
        if t.a[1] != "Err" or st.ts.get(DIRECT, OK) == OK or self.M.cmd(st) != "Install":
            return
        ps = E.given.get(ctx)
        if ps and all(self.fromlink(x) for x in ps):
            st.ts[DIRECT] = OK

    def noway(self, st, t, v):
        """there is nothing to upgrade from, no path, or it does not pay"""
        if self.M.cmd(st) != "Install":
            return False
        neg = v in ("Err", "None") or v is False
        if isastar(t):
            return neg
        if t.op == "fld" and t.a[1] == "local":
            return v == "Some" and self.node_wanted(t.a[0])
        if t.op != "app":
            return False
        n = t.a[0]
        a = t.a[1]
        if n in ("lt", "le") and len(a) == 2:
            x, y = a if v is False else (a[1], a[0])
            return (n == "lt" or v is True) and isinstance(v, bool) and self.total(x) and self.sizeof(y)
        if n == "eq" and v is True:
            return any(self.total(x) and self.sizeof(y) for x, y in (a, a[::-1])) or any(self.is_wanted(x) and self.fromlink(y) for x, y in (a, a[::-1]))
        if not a:
            return False
        if n in ("std::fs::read_link", "std::fs::symlink_metadata", "std::path::Path::read_link", "std::path::Path::symlink_metadata"):
            return neg and np(a[0]) is self.M.current
        if n.endswith(("HashMap::get", "HashMap::contains_key")) and neg and len(a) > 1 and any(isastar(y) for y in subterms(a[1])):
            # the patch is none any more
            self.tries(st, None)
            return True
        if n.endswith(("HashMap::get", "HashMap::contains_key")):
            return neg and len(a) > 1 and (self.fromlink(a[1]) or self.is_wanted(a[1]))
        s = n.rsplit("::", 1)[-1]
        if s in ("split_once", "rsplit_once", "find", "rfind") and len(a) > 1 and a[1].op == "c" and a[1].a[-1] in ("---", "/", "\\"):
            # what no version contains
            return v == "Some" and self.fromlink(a[0])
        if s in ("strip_suffix", "strip_prefix", "to_str", "file_name", "file_stem", "extension", "ends_with", "split_once", "rsplit_once", "utf8"):
            return neg and self.fromlink(a[0])
        if s in ("contains", "is_empty", "find", "rfind"):
            return v in (True, "Some") and self.fromlink(a[0])
        return False

    def done(self):
        for w, e in self.direct:
            if not all(d == "ok" or d & self.tried for d in w):
                self.M.bad("C31", "direct", "install may fetch the complete build although patches that are smaller lead to it from the current one", e)

    def fromlink(self, t):
        r = False
        for x in subterms(t):
            if isastar(x):
                return False
            r = r or x.op == "app" and x.a[0] in ("std::fs::read_link", "std::path::Path::read_link") and np(x.a[1][0]) is self.M.current
        return r

    def total(self, a):
        return a.op == "fld" and a.a[1] == "0" and a.a[0].op == "fld" and isastar(a.a[0].a[0])

    # ---- C09
    def sizeof(self, t):
        """size of the build install was asked for"""
        ms = t.a[0] if t.op == "phi" else (t,)
        for m in ms:
            if m.op == "moved":
                continue
            if not (m.op == "fld" and m.a[1] == "size"):
                return False
            b = m.a[0]
            if b.op == "fld" and b.a[1] == "0" and b.a[0].op == "fld" and b.a[0].a[1] in ("local", "remote"):
                if not self.node_wanted(b.a[0].a[0]):
                    return False
            elif not self.node_wanted(b):
                return False
        return True

    def node_wanted(self, t):
        """a node of the graph that was looked up by the requested version"""
        ks = [x for x in subterms(t) if x.op == "app" and x.a[0].endswith("HashMap::get") or x.op == "app" and x.a[0] == "index" and "HashMap" in show(x.a[1][0], 2)]
        return bool(ks) and all(self.is_wanted(x.a[1][1]) for x in ks)

    def is_wanted(self, v):
        w = self.M.wanted()
        return v is w or v is w.a[0] or v.op == "agg" and "data" in v.a[2] and fld(v, "data") is w

    def cheaper(self, st, a, b):
        while b.op == "app" and b.a[0] in ("div", "Div", "shr", "Shr"):
            b = b.a[1][0]
        s = a
        while s.op == "fld":
            s = s.a[0]
        if isastar(s) and a.op == "fld" and a.a[1] == "0" and a.a[0].op == "fld" and a.a[0].a[0] is s and self.sizeof(b):
            st.facts[app("cheaper", const(s.n))] = True

    def check_search(self, st, e):
        M = self.M
        x = e.extra
        M.ob("C09", ("search", e.key, M.cmd(st)), None)
        if M.cmd(st) != "Install":
            return
        n, ed = x["node"], x["edge"]
        for g in x["goal"]:
            okg = False
            if g.op == "app" and g.a[0] == "eq" and n in g.a[1]:
                o = g.a[1][1] if g.a[1][0] is n else g.a[1][0]
                okg = self.node_wanted(o)
            if not okg:
                M.bad("C09", "goal", "the search does not end at the requested build", e)
        for c in x["estimate"]:
            if c is not const(0):
                M.bad("C09", "estimate", "the search estimates the remaining cost by something other than 0, which may exceed the real cost", e)
        for c in x["cost"]:
            ms = c.a[0] if c.op == "phi" else (c,)
            for m in ms:
                if m.op == "moved":
                    continue
                w = m
                okc = w.op == "fld" and w.a[1] == "size"
                w = w.a[0] if okc else w
                if okc and w.op == "fld" and w.a[1] == "0" and w.a[0].op == "fld" and w.a[0].a[1] in ("local", "remote"):
                    w = w.a[0].a[0]
                else:
                    okc = False
                if not okc or ed not in set(subterms(w)):
                    M.bad("C09", "cost", "the cost of a step is not the size of its patch: %s" % show(m, 4)[:100], e)
        if not x["goal"] or not x["estimate"] or not x["cost"]:
            M.bad("C09", "search-empty", "goal, cost or estimate of the search are unknown", e)

    # ---- a patch is applied
    def node(self, t):
        if t.op == "fld" and t.a[1] == "data":
            t = t.a[0]
        if t.op == "fld" and t.a[1] == "version":
            g = t.a[0]
            while g.op == "fld" and g.a[1] == "0":
                g = g.a[0]
            if g.op == "app" and (g.a[0] == "index" or g.a[0].endswith("Graph::node_weight")):
                return g.a[1][1]
        return None

    def position(self, t):
        """(path, position) of a node in the path: position is (element, offset)"""
        if t is None:
            return None
        if t.op == "app" and t.a[0] == "index":
            s, i = t.a[1]
            if s.op == "elem" and i.op == "c":
                w = s.a[0]
                if w.op == "app" and w.a[0].rsplit("::", 1)[-1] == "windows" and w.a[1][1] is const(2):
                    return w.a[1][0], (s, i.a[1])
                return None
            if any(isastar(x) for x in subterms(s)):
                b, o = offset(i)
                return s, (b, o)
        return None

    def consecutive(self, st, e, pc):
        M = self.M
        M.ob("C08", ("apply", e.key, M.cmd(st)), None)
        if M.cmd(st) != "Install":
            return
        if len(pc) < 3:
            M.bad("C08", "unknown-step", "cannot tell which patch is applied: %s" % show(pc[1], 4)[:100], e)
            return
        f, t = self.position(self.node(pc[1])), self.position(self.node(pc[2]))
        if not f or not t or f[0] is not t[0] or f[1][0] is not t[1][0] or t[1][1] != f[1][1] + 1:
            M.bad("C08", "not-neighbours", "the applied patch does not join two neighbouring builds of the upgrade path", e)
            return
        i = f[1][0]
        if i.op == "elem" and i.a[0].op == "agg" and i.a[0].a[0].endswith("range::Range"):
            a, z = fld(i.a[0], "start"), fld(i.a[0], "end")
            if not (a.op == "c" and a.a[1] + f[1][1] == 0 and offset(z) == (app("len", f[0]), -t[1][1])):
                M.bad("C08", "part", "a step of the upgrade path may be left out although the build it leads to is not in the local store", e)
        M.ob("C09", ("apply", e.key), None)
        ss = self.searchof(f[0])
        if not ss or not all(st.facts.get(app("cheaper", const(s.n))) for s in ss):
            M.bad("C09", "not-cheaper", "patches may be used although they are not smaller than the complete build", e)
        tags = st.ts.get(("stporder",), frozenset())
        if tags & SHUFFLE:
            M.bad("C08", "order", "the patches are not applied one after another along the path (%s)" % ", ".join(sorted(tags & SHUFFLE)), e)
        for k, v in st.ts.items():
            if isinstance(k, tuple) and k[0] == "stpdrop":
                if ("stpuse",) + k[1:] in st.ts or ("stp",) + k[1:] in st.ts:
                    M.bad("C08", "dropped", "a step of the upgrade path may be left out although the build it leads to is not in the local store", e)
        for ce in self.skipbad.values():
            M.bad("C08", "skipped", "a step of the upgrade path may be left out although the build it leads to is not in the local store", ce)
        self.mark(st, "done")


    # ---- C06: what made install fail
    def origins(self, t, d=0):
        if t.op == "phi":
            for m in t.a[0]:
                if m.op != "moved":
                    yield from self.origins(m, d + 1)
        else:
            yield t

    def failed(self, st, v):
        """an `Err` return of main under install"""
        M = self.M
        for o in self.origins(v):
            ops = [o] if o.op != "adhoc" else [x for x, _ in o.a[1]]
            M.ob("C06", (show(o, 3)[:120],), None)
            if not ops:
                continue
            bad = [self.unfit(st, x) for x in ops]
            if bad and all(bad):
                M.bad("C06", bad[0][0], "install may fail although the build could be fetched directly: %s" % bad[0][1], fn="artefacta::install",
                      where=[show(ops[0], 5)[:200]])

    def unfit(self, st, x):
        """reason why this failure is none of fetching the requested build and switching to it"""
        w = self.M.wanted()
        for y in subterms(x):
            if y.op != "app":
                continue
            n = y.a[0]
            if n == "std::fs::read_link" and np(y.a[1][0]) is self.M.current:
                return ("current", "the previous `current` decides")
            if n.rsplit("::", 1)[-1] == "is_symlink" and any(z.op == "app" and z.a[0].rsplit("::", 1)[-1] in ("symlink_metadata", "is_symlink") and np(z.a[1][0]) is self.M.current for z in subterms(y)):
                return ("current", "the previous `current` decides")
            if isastar(y) or y.op == "elem":
                return ("path", "the upgrade path decides")
            if n.startswith(("bipatch::", "zstd::")) and ("new" in n or "decode" in n.lower()):
                return ("patch", "a patch that cannot be used decides")
        t = x
        while t.op == "fld":
            t = t.a[0]
        for y in subterms(t):
            if y.op == "app" and y.a[0] in LOCALFAIL | {"std::fs::rename"} and y in self.fetched and not self.fetched[y]:
                p = y.a[1][1] if y.a[0].endswith("OpenOptions::open") else y.a[1][0]
                if self.nm.pathcomps(st, p) == ("build", w) and self.nm.side(st, p) == "local":
                    return ("local", "the local copy decides before the remote one was tried")
        return None


def isastar_name(n):
    return n.startswith("petgraph::algo") and n.rsplit("::", 1)[-1] not in ("search",)


def offset(i):
    if i.op == "app" and i.a[0] in ("add", "Add", "sub", "Sub"):
        a, b = i.a[1]
        s = 1 if i.a[0].lower() == "add" else -1
        if b.op == "c":
            x, o = offset(a)
            return x, o + s * b.a[1]
        if a.op == "c" and s == 1:
            x, o = offset(b)
            return x, o + a.a[1]
    return i, 0
