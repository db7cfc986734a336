"""Bucket listings: all pages, and the objects of this store only (C24)."""
from terms import *
from names import *
from terms import _kids
from cover import THROUGH

TOKENS = {"next_continuation_token", "next_marker"}


def listed(t):
    return t.op == "app" and t.a[0].startswith("rusoto_s3") and t.a[0].rsplit("::", 1)[-1].startswith("list_objects")


def alts(t):
    if t.op == "phi":
        return [y for m in t.a[0] if m.op != "moved" for y in alts(m)]
    return [t]


def flat(t):
    """the alternatives of a source, also below what was called on it"""
    if t.op == "phi":
        return [y for m in t.a[0] if m.op != "moved" for y in flat(m)]
    if t.op == "app" and t.a[1] and t.a[0].rsplit("::", 1)[-1] in THROUGH:
        return flat(t.a[1][0])
    return [t]


def resps(t, seen=None):
    """the responses a value was taken from (not those that led to the request)"""
    seen = set() if seen is None else seen
    if t in seen or not t.leaves:
        return set()
    seen.add(t)
    if listed(t):
        return {t}
    return set().union(*[resps(x, seen) for x in _kids(t.a)])


def unset(t):
    return t.op == "agg" and t.a[1] == "None" or t.op == "fld" and t.a[0].op == "app" and t.a[0].a[0] == "default"


def token(t):
    return any(x.op == "fld" and x.a[1] in TOKENS and any(listed(y) for y in subterms(x.a[0])) for x in subterms(t))


def inner(t):
    return fld(t, "0", "Some") if t.op != "agg" else t.a[3][0] if t.a[1] == "Some" else None


class Listing:
    """("page",)   a page was listed;  fact `lastpage`: the latest one says that it is the last"""
    def __init__(self, E, M, C):
        self.E, self.M, self.C = E, M, C
        self.prefixes = {}
        self.keys = {}
        self.second = {}

    on_trunc = on_agg = lambda self, *a: None

    # ---- every page is looked at: ("resp",) is the latest response until a pass over its objects ended,
    # ("late",) holds those after which another page was requested before that (the objects have to be in
    # what is passed over then)
    def on_next(self, E, st, site, terms, x):
        if x is not None:
            return
        src = [E.cur_src] if E.cur_src is not None else [t.a[0] if t.op == "elem" else t for t in terms]
        new, late = st.ts.get(("resp",)), st.ts.get(("late",))
        if new and any(new & resps(t) for t in src):
            del st.ts[("resp",)]
        if late and src:
            there = {r for r in late if any(r in resps(t) for t in src)}
            part = {r for r in there if not any(all(r in resps(y) for y in flat(t)) for t in src)}
            if part:
                st.ts[("late",)] = late | {None}      # not in all that may be passed over
            elif there >= late:
                del st.ts[("late",)]
            else:
                st.ts[("late",)] = late - there

    on_keep = lambda self, *a: None

    def on_event(self, E, st, e):
        if not e.name.startswith("rusoto_s3") or not e.args:
            return
        l = e.name.rsplit("::", 1)[-1]
        r = e.args[-1]
        if l.startswith("list_objects"):
            self.request(st, e, r)
        elif l in ("put_object", "get_object"):
            self.keys.setdefault((fld(r, "bucket"), fld(r, "key")), e)

    def request(self, st, e, r):
        M = self.M
        M.ob("C24", ("list", e.key), None)
        if l_bad(r):
            M.bad("C24", "listing-bounds", "the listing is restricted by `%s`" % l_bad(r), e)
        tk = [a for n in ("continuation_token", "marker") for a in alts(fld(r, n)) if r.op != "agg" or n in r.a[2]]
        tk = [a for a in tk if not unset(a)]
        for a in tk:
            if not token(a):
                M.bad("C24", "token", "a page is requested with a token other than the one of the page before: %s" % show(a, 4)[:120], e)
            elif any(x.op == "app" and x.a[0] == "oldtoken" for x in subterms(a)):
                M.bad("C24", "old-token", "a page may be requested again with the token of an earlier page", e)
        self.age(st)
        if ("page",) in st.ts:
            self.second[(e.ctx, e.bb)] = e
            if not tk:
                M.bad("C24", "same-page", "the next page is requested without the token of the page before", e)
        left = st.ts.pop(("resp",), None)
        if left:
            st.ts[("late",)] = st.ts.get(("late",), frozenset()) | left
        if e.t is not None:
            st.ts[("resp",)] = frozenset([e.t])
        st.ts[("page",)] = frozenset([e.t]) if e.t is not None else frozenset("y")
        st.facts.pop(app("lastpage"), None)
        for p in alts(fld(r, "prefix")):
            self.prefixes.setdefault((fld(r, "bucket"), None if unset(p) else inner(p)), e)
        d = [inner(a) for a in alts(fld(r, "delimiter")) if not unset(a)]
        if not d or any(x is not const("/") for x in d) or any(unset(a) for a in alts(fld(r, "delimiter"))):
            M.bad("C24", "nested", "objects of stores below this one are listed as its own", e)

    def age(self, st):
        """tokens that are kept beyond the next request"""
        def old(m):
            if m.op == "fld" and m.a[1] in TOKENS or m.op == "fld" and m.a[0].op == "fld" and m.a[0].a[1] in TOKENS:
                return app("oldtoken", m)
            if m.op == "agg" and m.a[1] == "Some":
                i = old(m.a[3][0])
                return m if i is m.a[3][0] else agg(m.a[0], m.a[1], m.a[2], (i,))
            return m
        for c, m in list(st.mem.items()):
            for l, v in list(m.items()):
                if v.op in ("fld", "phi", "agg") and v.leaves:
                    n = phi([old(x) for x in v.a[0]]) if v.op == "phi" else old(v)
                    if n is not v:
                        st.put((c, l), n)

    def on_assume(self, E, st, t, v):
        new = st.ts.get(("resp",))
        if new and v == "None" and any(m.op == "fld" and m.a[1] == "contents" and resps(m) & new for m in alts(t)):
            del st.ts[("resp",)]
        f = t
        while f.op == "fld" and f.a[1] not in TOKENS and f.a[1] != "is_truncated":
            f = f.a[0]
        if f.op == "fld" and any(listed(y) for y in subterms(f.a[0])):
            if f.a[1] in TOKENS and f is t and v == "None":
                st.facts[app("lastpage")] = True
            if f.a[1] == "is_truncated" and (f is t and v == "None" or f is not t and v is False):
                st.facts[app("lastpage")] = True
        if t.op == "app" and t.a[0] == "eq" and v is False and any(x.op == "fld" and x.a[1] == "is_truncated" for x in t.a[1]) and \
                any(x.op == "agg" and x.a[1] == "Some" and x.a[3][0] is TRUE for x in t.a[1]):
            st.facts[app("lastpage")] = True

    def ok(self, st, inner_):
        if inner_ == "Filesystem":
            return
        if ("page",) in st.ts and not st.facts.get(app("lastpage")):
            self.M.bad("C24", "pages-left", "a listing may end before its last page", fn="artefacta_bin::main")
        if st.ts.get(("late",)):
            for p in ("C24", "C18"):
                self.M.bad(p, "page-lost", "the objects of a page are replaced by those of the next one", fn="artefacta_bin::main")

    def done(self):
        """the prefix of the listing is the one of the objects' keys"""
        M = self.M
        for (b, k), e in self.keys.items():
            for x in alts(k):
                M.ob("C24", ("key", e.key), None)
                for (b2, p), e2 in self.prefixes.items():
                    if b2 is not b:
                        M.bad("C24", "bucket", "objects are read or written in another bucket than the one listed", e)
                    elif p is None or not self.starts(x, p):
                        M.bad("C24", "prefix", "objects are read or written under %s but listed under %s" % (show(x, 4)[:80], show(p, 4)[:80] if p is not None else "no prefix"), e)

    def starts(self, k, p):
        a = list(k.a[0]) if k.op == "cat" else [k]
        b = list(p.a[0]) if p.op == "cat" else [p]
        for i, y in enumerate(b):
            if i >= len(a):
                return False
            if a[i] is y:
                continue
            return i == len(b) - 1 and y.op == "c" and a[i].op == "c" and str(a[i].a[1]).startswith(str(y.a[1])) and str(y.a[1]).endswith("/")
        return b[-1].op == "c" and str(b[-1].a[1]).endswith("/")


def l_bad(r):
    for n in ("start_after",):
        if r.op == "agg" and n in r.a[2] and not all(unset(a) for a in alts(fld(r, n))):
            return n
    return None
