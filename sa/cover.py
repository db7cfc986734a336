"""Coverage: every element of a source collection reaches its sink, unless a stated reason exempts it.

Sources ("tracks") are recognised by what produces their elements: a directory listing, an
object listing, the nodes or edges of the index, a directory walk.  An element is `new` when a
loop takes it, `kept` when it is stored in a collection, `done` when it reaches the sink of the
track, `exempt` when a branch proves one of the reasons stated below.  The fact `exh(track)`
holds where a loop over the elements ended and none was lost.
"""
from terms import *
from terms import _kids
from names import np, istmp, splitpiece, derived
import collections
import re

LISTS = {"std::fs::read_dir", "std::path::Path::read_dir"}
TRUNC = {"take", "skip", "step_by", "truncate", "pop", "pop_front", "pop_back", "remove", "swap_remove", "dedup", "dedup_by", "dedup_by_key",
         "drain", "split_off", "clear"}
THROUGH = {"iter", "iter_mut", "into_iter", "as_slice", "to_vec", "unwrap_or_default", "unwrap_or", "unwrap_or_else", "deref", "as_ref", "cloned",
           "clone", "into_boxed_slice", "into_vec", "collect", "rev", "drain", "chunks", "to_owned", "as_deref"}


FORGET = {"remove_node", "remove_edge", "retain_nodes", "retain_edges", "clear", "clear_edges", "filter_map", "filter_map_owned", "map", "map_owned"}
WEIGHT = {"node_weight", "edge_weight", "node_weight_mut", "edge_weight_mut", "node_weights_mut", "edge_weights_mut", "index", "index_mut"}


def elems(t):
    """the loop elements a value is made of (not those its loop element was computed from)"""
    out = set()
    seen = set()
    work = [t]
    while work:
        x = work.pop()
        if x in seen or not x.leaves:
            continue
        seen.add(x)
        if x.op == "elem":
            out.add(x)
            continue
        work.extend(_kids(x.a))
    return out


def exh(k):
    return app("exh", const(":".join(k)))


class Cover:
    def __init__(self, E, M):
        self.E = E
        self.M = M
        self.nm = M.nm
        self.cache = {}
        self.lostat = collections.defaultdict(dict)
        self.skiplost = set()
        self.objlost = {}
        self.walked = collections.defaultdict(set)
        self.appends = {}
        self.groups = {}
        self.lcache = {}
        M.publish_hooks = [self.published]

    # ---- which source an element comes from
    def source(self, t, d=0):
        if d > 30:
            return None
        if t.op == "fld" or t.op in ("mut", "upd"):
            return self.source(t.a[0], d + 1)
        if t.op == "phi":
            for m in t.a[0]:
                r = self.source(m, d + 1)
                if r:
                    return r
            return None
        if t.op == "it":
            return self.source(t.a[1], d + 1)
        if t.op == "app":
            n = t.a[0]
            if n in LISTS:
                p = np(t.a[1][0])
                if p is self.nm.local:
                    return "list-local"
                if p is self.nm.remote:
                    return "list-fs"
                return None
            if "rusoto_s3" in n and "list_objects" in n:
                return "list-s3"
            if n.startswith("petgraph::") and "astar" not in n:
                l = n.rsplit("::", 1)[1]
                if l in ("raw_nodes", "node_weights", "node_indices", "node_references", "into_nodes_edges"):
                    return "nodes"
                if l in ("raw_edges", "edge_weights", "edge_indices", "edge_references"):
                    return "edges"
                return None
            if n.startswith("walkdir::"):
                return "walk"
            if t.a[1] and (n.rsplit("::", 1)[-1] in THROUGH or n.startswith("reordered:")):
                return self.source(t.a[1][0], d + 1)
        return None

    def tracks(self, t):
        r = self.cache.get(t)
        if r is None:
            r = set()
            for l in elems(t):
                    s = self.source(l.a[0])
                    if s is None:
                        continue
                    if s.startswith("list-"):
                        r.add((s, "b"))
                        r.add((s, "p"))
                    else:
                        r.add((s,))
            r = self.cache[t] = frozenset(r)
        return r

    # ---- reasons for leaving an element out
    def exempt(self, k, t, v):
        s = k[0]
        l = short(t.a[0]).split("::")[-1] if t.op == "app" else None
        if s in ("nodes", "edges"):
            if t.op == "fld":
                return (t.a[1] == "remote" and v == "Some") or (t.a[1] == "local" and v == "None")
            return False
        if l == "is_file":
            return v is False
        if l in ("is_dir", "is_symlink"):
            return v is True
        if s == "walk":
            return False
        if l == "lt":
            a, b = t.a[1]
            return (a is const(0) and v is False and self.size(b)) or (b is const(1) and v is True and self.size(a))
        if l == "eq" and v is True:
            a, b = t.a[1]
            return (a is const(0) and self.size(b)) or (b is const(0) and self.size(a))
        if l in ("ends_with", "strip_suffix") and len(t.a[1]) == 2 and t.a[1][1].op == "c":
            yes = v is True or v == "Some"
            suf = str(t.a[1][1].a[1])
            if suf == "/":
                return yes
            own = ".tar.zst" if k[1] == "b" else ".patch.zst"
            if own.endswith(suf):
                return not yes
            return yes and not suf.endswith(own)
        return False

    def ltracks(self, t):
        """as `tracks`, of everything the value was computed from"""
        r = self.lcache.get(t)
        if r is None:
            r = set()
            for x in subterms(t):
                if x.op == "elem":
                    r |= self.tracks(x)
            r = self.lcache[t] = frozenset(r)
        return r

    def size(self, t):
        return t.op == "fld" and t.a[1] == "size" or any(
            x.op == "app" and x.a[0].endswith("Metadata::len") or x.op == "fld" and x.a[1] in ("size", "content_length") for x in subterms(t))

    def canon(self, site):
        """the alternatives of one iterator count as one pass"""
        ctx, bb, tag = self.E.sites[site]
        return self.groups.setdefault((ctx, bb, re.sub(r"(p\d+)+$", "", tag)), site)

    # ---- element life cycle
    #
    # A pass S over the elements of track k:
    #   ("pend", k, S)  what has become of the current element: new, kept, done, exempt
    #   ("cur", k, S)   alternatives of what it has been kept as in this iteration (sets of items)
    #   ("kp", k, S)    the same for the iterations so far
    #   ("lost", k, S)  some element was dropped
    # A finished pass without loss that kept elements is open: ("open", k, S) holds what was
    # kept and not yet handed to a finished pass, ("par", k, S) what it settles itself once it
    # is closed; a closed pass over the source itself gives exh(k).
    def on_next(self, E, st, site, terms, x):
        site = self.canon(site)
        tr = set()
        for t in terms:
            tr |= self.tracks(t)
        items = E.cur_items
        tags = E.cur_tags or ()
        for k in tr:
            key = ("pend", k, site)
            s = st.ts.get(key)
            self.walked[k].add(site)
            if s and "new" in s or set(tags) & TRUNC:
                st.ts[("lost", k, site)] = frozenset("y")
                self.lostat[k].setdefault(site, None)
                self.object(k, site, terms)
            if s and "kept" in s:
                g = frozenset(c for c in st.ts.get(("cur", k, site), ()) if c)
                st.ts[("kp", k, site)] = st.ts.get(("kp", k, site), frozenset()) | g
            st.ts.pop(("cur", k, site), None)
            if x is None:
                st.ts.pop(key, None)
                self.end(st, k, site, items)
            elif k in self.tracks(x):
                st.ts[key] = frozenset(["new"])
                st.ts[("cur", k, site)] = frozenset([frozenset()])

    def end(self, st, k, S, items):
        lost = st.ts.pop(("lost", k, S), None)
        kp = st.ts.pop(("kp", k, S), frozenset())
        if lost or (k, S) in self.skiplost:
            return
        par = set()
        if items is None:
            par.add(None)
        else:
            items = frozenset(items)
            for key, gs in st.ts.items():
                if isinstance(key, tuple) and len(key) == 3 and key[0] == "open" and key[1] == k and key[2] != S:
                    par.update((key[2], g) for g in gs if g & items)
        before = st.ts.get(("open", k, S), frozenset())
        if kp or before:
            # (an earlier execution of the same pass may still be open)
            st.ts[("open", k, S)] = before | kp
            st.ts[("par", k, S)] = st.ts.get(("par", k, S), frozenset()) | par
            if None in par and st.ts.get(("via", k), frozenset()) & {None, S}:
                # so far only earlier rounds of the same loop were complete
                st.facts.pop(exh(k), None)
        else:
            self.close(st, k, par, S)

    def close(self, st, k, par, S):
        for x in par:
            if x is None:
                st.facts[exh(k)] = True
                st.ts[("via", k)] = st.ts.get(("via", k), frozenset()) | {S}
                continue
            u, g = x
            gs = st.ts.get(("open", k, u))
            if gs is None:
                continue
            gs = gs - {g}
            if gs:
                st.ts[("open", k, u)] = gs
            else:
                st.ts.pop(("open", k, u))
                self.close(st, k, st.ts.pop(("par", k, u), ()), u)

    def on_trunc(self, E, st, kind, site, e):
        site = self.canon(site)
        at = E.sites[site][:2]
        for k in self.tracks(e):
            # (the pass may be over a part of what is cut short: one of two chained iterators)
            for s in {site} | {x[2] for x in st.ts if isinstance(x, tuple) and x[0] == "pend" and x[1] == k and E.sites[x[2]][:2] == at}:
                st.ts[("lost", k, s)] = frozenset("y")
                self.lostat[k].setdefault(s, kind)
                self.object(k, s, [e])

    def object(self, k, site, terms):
        """what was lost are the objects of a listing themselves, not what was made of them"""
        if k[0] == "list-s3" and all(t.op == "elem" for t in terms):
            self.objlost.setdefault(site, set()).add(k[1])

    def on_keep(self, E, st, i):
        for k in self.tracks(i.a[0]):
            self.mark(st, k, "kept", ("new",))
            for key in [x for x in st.ts if isinstance(x, tuple) and x[0] == "cur" and x[1] == k]:
                st.ts[key] = frozenset(g | {i} for g in st.ts[key])

    def mark(self, st, k, val, only):
        for key in [x for x in st.ts if isinstance(x, tuple) and x[0] == "pend" and len(x) == 3 and x[1] == k]:
            s = st.ts[key]
            if any(o in s for o in only):
                st.ts[key] = frozenset(val if y in only else y for y in s)
                if val == "done":
                    st.ts[("cur",) + key[1:]] = frozenset()

    def on_assume(self, E, st, t, v):
        if t.op == "phi":
            if v == "None" and all(m.op == "fld" and m.a[1] == "contents" or m.op == "moved" or m is NONE for m in t.a[0]):
                self.nopage(st, t)
            return
        for k in self.tracks(t):
            if self.exempt(k, t, v):
                self.mark(st, k, "exempt", ("new",))
        if v == "None" and t.op == "app" and (t.a[0].endswith("HashMap::get") or t.a[0].endswith("edge_weight")):
            # a patch whose builds are unknown, after those of both stores were added, cannot be used (and an edge the map knows is in the graph)
            for k in self.ltracks(t.a[1][1]):
                if k[1:] == ("p",) and (not t.a[0].endswith("HashMap::get") or self.allbuilds(st)):
                    self.mark(st, k, "exempt", ("new",))
        if v == "None" and t.op == "fld" and t.a[1] == "contents":
            self.nopage(st, t)
        if v == "Ok":
            for x in self.appends.get(t, ()):
                for k in self.tracks(x):
                    if k[0] == "walk":
                        self.mark(st, k, "done", ("new", "kept"))

    def allbuilds(self, st):
        return st.facts.get(exh(("list-local", "b"))) is True and any(st.facts.get(exh((l, "b"))) is True for l in ("list-fs", "list-s3"))

    def nopage(self, st, t):
        """a page without contents: an empty pass"""
        if self.source(t) == "list-s3":
            for c in "bp":
                k = ("list-s3", c)
                if not any(isinstance(x, tuple) and x[:2] == ("open", k) for x in st.ts):
                    st.facts[exh(k)] = True
                    st.ts[("via", k)] = st.ts.get(("via", k), frozenset()) | {None}

    def on_agg(self, *a):
        pass

    # ---- sinks
    def on_event(self, E, st, e):
        n = e.name
        if n == "skip":
            for k in self.tracks(e.args[0]):
                for key in [x for x in st.ts if isinstance(x, tuple) and x[0] == "pend" and x[1] == k]:
                    c = E.sites[key[2]]
                    if ("new" in st.ts[key] or (e.extra or {}).get("kind") == "filter_entry") and c[:2] == (e.ctx, e.bb):
                        self.skiplost.add(key[1:])
                        self.lostat[k].setdefault(key[2], "skip")
                        self.object(k, key[2], [e.args[0]])
        elif n == "store":
            self.forgotten(e)
            f = self.fieldof(e.args[0])
            if f:
                self.register(st, e, f, e.args[1], e.args[0])
            else:
                self.whole(st, e, e.args[1])
        elif n.startswith("petgraph::") and n.rsplit("::", 1)[1] in FORGET:
            self.M.bad("C18", "forgotten", "builds or patches are taken out of the index", e)
        elif n.startswith("petgraph::") and n.rsplit("::", 1)[1] in ("add_node", "add_edge", "update_edge", "try_add_node", "try_add_edge"):
            w = e.args[-1]
            self.drop(st)
            if n.endswith(("add_node", "add_edge")):
                self.duplicate(st, e, w)
            self.whole(st, e, w)
        elif n.startswith("tar::builder::Builder::append"):
            self.appends.setdefault(e.t, set()).update(e.args[1:])

    def known(self, t):
        """an entry of the index that may have been there before"""
        if t.op == "phi":
            return any(self.known(m) for m in t.a[0])
        while t.op == "fld" and t.a[1] == "0":
            t = t.a[0]
        return t.op == "app" and t.a[0].rsplit("::", 1)[-1] in WEIGHT and not any(
            y.op == "app" and y.a[0].rsplit("::", 1)[-1] in ("add_node", "add_edge") for y in [t.a[1][-1]])

    def forgotten(self, e):
        p, v = e.args[0], e.args[1]
        M = self.M
        f = self.fieldof(p)
        bad = False
        if f:
            ws = [m.a[0] for m in (p.a[0] if p.op == "phi" else (p,)) if m.op == "fld"]
            M.ob("C18", ("known", f, e.key), None)
            bad = any(self.known(w) for w in ws) and self.nothing(v)
        elif self.known(p):
            M.ob("C18", ("known", "both", e.key), None)
            for m in v.a[0] if v.op == "phi" else (v,):
                if m.op == "agg" and "local" in m.a[2] and "remote" in m.a[2]:
                    bad = bad or any(self.nothing(fld(m, x)) for x in ("local", "remote"))
        if bad:
            M.bad("C18", "forgotten", "the index forgets in which store a build or patch is", e)

    def nothing(self, v):
        if v.op == "phi":
            return any(self.nothing(m) for m in v.a[0])
        return v.op == "agg" and v.a[1] == "None"

    def duplicate(self, st, e, w):
        """a build or patch is added although the index may know it already"""
        if w.op != "agg":
            return
        vs = [fld(w, x) for x in ("version", "from", "to") if x in w.a[2]]
        if not vs:
            return
        self.M.ob("C18", ("new", e.key), None)
        for t, v in st.facts.items():
            if v not in ("Vacant", "None", False) or t.op != "app" or len(t.a[1]) < 2:
                continue
            if t.a[0].endswith(("HashMap::entry", "BTreeMap::entry")) and v == "Vacant" or t.a[0].endswith(("Map::get", "Map::get_mut", "find_edge", "edge_weight", "Map::get_key_value")) and v == "None" \
                    or t.a[0].endswith("contains_key") and v is False:
                k = t.a[1][1]
                parts = list(k.a[3]) if k.op == "agg" and len(vs) > 1 else [k]
                if [self.vdata(x) for x in parts] == [self.vdata(x) for x in vs]:
                    return
        self.M.bad("C18", "duplicate", "a build or patch is added to the index although it may be there already", e)

    def vdata(self, t):
        return fld(t, "data") if t.op != "agg" or "data" in t.a[2] else t

    def fieldof(self, b):
        ms = b.a[0] if b.op == "phi" else (b,)
        fs = {m.a[1] for m in ms if m.op == "fld" and m.a[1] in ("local", "remote")}
        for m in ms:
            if m.op == "agg":
                pass
        return fs.pop() if len(fs) == 1 else None

    # ---- under which versions a file is known
    def keys(self, w, d=0):
        """the versions of an entry of the index"""
        if d > 12:
            return set()
        if w.op == "phi":
            return {k for m in w.a[0] for k in self.keys(m, d + 1)}
        if w.op == "agg":
            vs = [fld(w, x) for x in ("version", "from", "to") if x in w.a[2]]
            if len(vs) not in (1, 2):
                return set()
            # an entry made anew from another one
            ns = [x for x in ("version", "from", "to") if x in w.a[2]]
            alts = [[m for m in (v.a[0] if v.op == "phi" else (v,)) if m.op != "moved"] for v in vs]
            olds = []
            for ms, x in zip(alts, ns):
                o = []
                for m in ms:
                    m = m.a[0] if m.op == "fld" and m.a[1] == "data" else m
                    o.append(m.a[0] if m.op == "fld" and m.a[1] == x else None)
                olds.append(o)
            if None not in olds[0] and all(o == olds[0] for o in olds):
                r = [self.keys(o, d + 1) for o in olds[0]]
                if all(r):
                    return set().union(*r)
            return {tuple(self.vdata(v) for v in vs)}
        if w.op == "fld":
            return self.keys(w.a[0], d + 1)
        if w.op != "app" or not w.a[1]:
            return set()
        l = w.a[0].rsplit("::", 1)[-1]
        if l in WEIGHT:
            return self.keys(w.a[1][-1], d + 1)
        if l == "find_edge" or l in ("add_edge", "update_edge"):
            a, b = self.keys(w.a[1][1], d + 1), self.keys(w.a[1][2], d + 1)
            r = {x + y for x in a for y in b if len(x) == len(y) == 1} if len(a) == len(b) == 1 else set()
            return r if l == "find_edge" else r | self.keys(w.a[1][-1], d + 1)
        if l == "add_node":
            return self.keys(w.a[1][-1], d + 1)
        if w.a[0].endswith("OccupiedEntry::get"):
            return self.keys(w.a[1][0], d + 1)
        if w.a[0].endswith(("Map::get", "Map::get_mut", "Map::entry")):
            k = w.a[1][1]
            parts = k.a[3] if k.op == "agg" and len(k.a[3]) == 2 else (k,)
            return {tuple(self.vdata(x) for x in parts)}
        return set()

    def ownname(self, st, e, w, p):
        """a file is registered under the versions its name is made of"""
        c = self.nm.pathcomps(st, p)
        for k in self.keys(w):
            self.M.ob("C18", ("own", len(k), e.key), None)
            if c[0] == "build":
                ok = len(k) == 1 and (k[0] is c[1] or derived(k[0], c[1]) or derived(c[1], k[0]))
            elif c[0] == "patch":
                ok = len(k) == 2 and k == self.whole_names(c[1:]) or self.whole_names(k) == self.whole_names(c[1:])
            else:
                ok = True
                ep = elems(p)
                for i, x in enumerate(k):
                    q = splitpiece(x)
                    if q and len(k) == 2 and q[0] != i:
                        ok = False
                    ex = {y for z in (q[1] if q else [x]) for y in elems(z)}
                    if ep and ex and not ex & ep:
                        ok = False
            if not ok:
                self.M.bad("C18", "other-name", "a file is registered under other versions than those of its name: %s" % "-".join(show(x, 4)[:60] for x in k), e)
                return

    def whole_names(self, vs):
        """two versions a name was split into -> the versions the name was made of"""
        q = [splitpiece(v) for v in vs]
        if len(q) == 2 and all(q) and (q[0][0], q[1][0]) == (0, 1) and set(q[0][1]) == set(q[1][1]):
            r = {self.nm.comps(cat([z, const(".patch.zst")])) for z in q[0][1]}
            if len(r) == 1:
                c = r.pop()
                if c[0] == "patch":
                    return tuple(c[1:])
        return tuple(vs)

    def whole(self, st, e, w):
        if w.op == "agg":
            for f in ("local", "remote"):
                if f in w.a[2]:
                    self.register(st, e, f, fld(w, f), w)

    def drop(self, st):
        for k in ((("nodes"),), (("edges"),)):
            st.facts.pop(exh(k), None)
            for x in [x for x in st.ts if isinstance(x, tuple) and x[0] in ("open", "par") and x[1] == k]:
                st.ts.pop(x)

    def register(self, st, e, f, v, w):
        if v.op == "agg" and v.a[1] == "Some":
            v = v.a[3][0]
        if v.op != "agg" or "path" not in v.a[2]:
            return
        p = fld(v, "path")
        self.ownname(st, e, w, p)
        self.drop(st)
        for k in self.tracks(p):
            if k[0].startswith("list-") and f == ("local" if k[0] == "list-local" else "remote"):
                self.mark(st, k, "done", ("new", "kept"))
        if f == "local":
            st.ts.pop(("unreg", self.nm.pathcomps(st, p)), None)

    def published(self, st, x):
        if x[0] == "put":
            c = x[1]
            if c and c[0] == "file":
                self.sent(st, c[1])
        elif x[0] == "renamed":
            side = self.nm.side(st, x[2])
            S_ = np(x[1])
            if side == "remote":
                for o in st.ts.get(("path", S_), ()):
                    for op in st.ts.get(("ops", o), ()):
                        for s in op.a[1]:
                            self.sent(st, s)
            elif side == "local":
                self.drop(st)
                if not self.fetched(st, S_):
                    st.ts[("unreg", self.nm.pathcomps(st, x[2]))] = frozenset("y")

    def fetched(self, st, S_):
        """the content was read from the remote store, where it need not be sent again"""
        ops = [op for o in st.ts.get(("path", S_), ()) for op in st.ts.get(("ops", o), ())]
        return bool(ops) and all(any(y is self.nm.remote or y.op == "app" and y.a[0].endswith("get_object") for y in subterms(op)) for op in ops)

    def sent(self, st, p):
        for k in self.tracks(p):
            if k[0] in ("nodes", "edges"):
                self.mark(st, k, "done", ("new", "kept"))

    # ---- what must hold when the program ends with success
    def require(self, st, prop, k, msg, fn="artefacta_bin::main"):
        self.M.ob(prop, (":".join(k), self.M.cmd(st)), None)
        if st.facts.get(exh(k)) is True:
            return
        E = self.E
        where = []
        for s in sorted(self.lostat.get(k, ()), key=repr) or sorted(self.walked.get(k, ()), key=repr):
            try:
                cb = E.sites[s][:2]
                where += E.where(*cb)[:3]
                fn = E.ctxkey(cb[0])
            except Exception:
                pass
        self.M.bad(prop, "lost-" + "-".join(k), msg, where=where[:6], fn=fn)
        if k[0] == "list-s3":
            for s, c in self.objlost.items():
                if len(c) == 2:
                    cb = E.sites[s][:2]
                    self.M.bad("C24", "objects-left", "objects of a bucket are left out of its list", where=E.where(*cb)[:3], fn=E.ctxkey(cb[0]))
