"""Auto-patch: every selected tag got its patch, or the command fails (C19)."""
from terms import *
from names import *
from cover import elems
from terms import _kids

TRUNC = {"take", "skip", "step_by", "truncate", "pop", "pop_front", "pop_back", "remove", "swap_remove", "split_off"}


def gittag(t):
    return any(any(y.op == "app" and y.a[0].startswith("git2::") for y in subterms(x.a[0]))
               and not any(y.op == "app" and y.a[0].startswith("str::") for y in subterms(x.a[0])) for x in elems(t))


class Tags:
    """A pass over tags is one during which a patch to the current build was seen in the local
    store while one of its elements was being handled.

    ("tag", S)      what has become of the current element of pass S: new, done
    ("tagmiss", S)  an element of the pass went without patch (`open`: the pass goes on)
    ("tagkept", S)  failures that were put aside as elements of another sequence
    fact `tagsdone` the pass took all its elements
    """
    def __init__(self, E, M, C, F):
        self.E, self.M, self.C, self.F = E, M, C, F
        self.passes = {}
        self.cache = {}
        M.use_hooks = [self.have]

    on_event = on_assume = on_agg = lambda self, *a: None

    def on_keep(self, E, st, item):
        t = item.a[0]
        if any(y.op == "agg" and y.a[1] == "Err" for y in [t] + list(_kids(t.a))):
            for s in st.ts.get(("tagcur",), ()):
                if "new" in st.ts.get(("tag", s), ()):
                    st.ts[("tag", s)] = frozenset(["kept"])
                    k = ("tagkept", s)
                    st.ts[k] = st.ts.get(k, frozenset()) | {t}

    def on_trunc(self, E, st, kind, site, e):
        if self.M.cmd(st) == "AutoPatch" and self.istag(e) and not any(k.startswith("artefacta::git::") for k in E.stackkeys(E.sites[site][0])):
            st.ts[("tagmiss", self.C.canon(site))] = frozenset(["open"])

    def istag(self, t):
        r = self.cache.get(t)
        if r is None:
            r = self.cache[t] = gittag(t)
        return r

    def have(self, st, h):
        if self.M.cmd(st) != "AutoPatch" or h[0] != "patch":
            return
        w = cat([self.F.cmdfld("AutoPatch", "prefix"), self.F.cmdfld("AutoPatch", "current", "data")])
        if h[2] is not w or not any(x.op == "elem" for x in subterms(h[1])):
            return
        for s in st.ts.get(("tagcur",), ()):
            if ("tag", s) in st.ts:
                st.ts[("tag", s)] = frozenset(["done"])
                self.passes[s] = True

    def on_next(self, E, st, site, terms, x):
        if E.cur_array:
            return              # texts written side by side in the program
        if self.M.cmd(st) != "AutoPatch" or not any(self.istag(t) for t in terms):
            if not (x is None and E.cur_items is not None):
                return
        site = self.C.canon(site)
        for k, v in list(st.ts.items()):
            if isinstance(k, tuple) and k[0] == "tagkept":
                if x is None and E.cur_items is not None and v <= {i.a[0] for i in E.cur_items}:
                    del st.ts[k]
                elif x in v:
                    st.ts[("tagmiss", k[1])] = frozenset(["closed"])
        k = ("tag", site)
        if "new" in st.ts.pop(k, ()) or set(E.cur_tags or ()) & TRUNC:
            st.ts[("tagmiss", site)] = frozenset(["open"])
        if x is None:
            if ("tagmiss", site) in st.ts:
                st.ts[("tagmiss", site)] = frozenset(["closed"])
            st.facts[app("tagsdone", const(site))] = True
        elif self.istag(x):
            st.ts[k] = frozenset(["new"])
            st.ts[("tagcur",)] = frozenset([site])

    def ok(self, st):
        if self.M.cmd(st) != "AutoPatch":
            return
        M = self.M
        for s in self.passes:
            ctx, bb, _ = self.E.sites[s]
            fn = self.E.ctxkey(ctx)
            M.ob("C19", ("pass", fn), None)
            if ("tagmiss", s) in st.ts or ("tagkept", s) in st.ts or "new" in st.ts.get(("tag", s), ()):
                M.bad("C19", "tag-failed", "`auto-patch` may report success although the patch from one of the tags was not made", fn=fn)
        if not any(st.facts.get(app("tagsdone", const(s))) for s in self.passes):
            M.bad("C19", "tags-left", "`auto-patch` may report success before it has handled all tags", fn="artefacta_bin::main")

    def failed(self, st):
        if self.M.cmd(st) != "AutoPatch":
            return
        for s in self.passes:
            if "new" in st.ts.get(("tag", s), ()) or "open" in st.ts.get(("tagmiss", s), ()):
                self.M.bad("C19", "tags-left", "`auto-patch` gives up at the first tag that fails", fn=self.E.ctxkey(self.E.sites[s][0]))
