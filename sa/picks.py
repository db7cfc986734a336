"""What depends on hash order, the clock or the process (C25)."""
from terms import *
from names import *
from terms import _kids
from natives import is_hash
from engine import sccs
from monitor import FS_MUT, OPENOPT, short

VOLATILE = ("SystemTime::", "Instant::", "process::id", "thread::", "Utc::", "Local::", "rand::", "ThreadId::", "RandomState::")
READS = {"std::fs::File::open", "std::fs::read", "std::fs::read_to_string"}
PICKED = ("slice::", "index")


def volatile(t):
    for x in subterms(t):
        if x.op == "app" and any(("::" + x.a[0]).find("::" + v) >= 0 for v in VOLATILE):
            return x
    return None


class Picks:
    """("hp", elem)  where an element in hash order was handed out: the site, `sorted` when the order was a total one, `cut` when
                     only a part of the elements is taken
    """
    def __init__(self, E, M, C):
        self.E, self.M, self.C = E, M, C
        self.loop = {}
        self.compared = set()
        self.memo = {}
        self.todo = {}

    on_agg = lambda self, *a: None
    on_keep = lambda self, *a: None

    def hashed(self, t):
        """the elements in hash order this one is or is made of"""
        r = self.memo.get(t)
        if r is None:
            r, seen, st = set(), set(), [t]
            while st:
                x = st.pop()
                if x in seen or not x.leaves:
                    continue
                seen.add(x)
                if x.op != "elem":
                    st.extend(_kids(x.a))
                elif is_hash(x.a[0]):
                    r.add(x)
            self.memo[t] = r = tuple(r)
        return r

    def on_next(self, E, st, site, terms, x):
        if x is None or not self.hashed(x):
            return
        tags = E.cur_tags
        m = "sorted" if tags is not None and "hash" not in tags else site
        for l in self.hashed(x):
            st.ts[("hp", l)] = frozenset([m])

    def on_trunc(self, E, st, kind, site, e):
        for l in self.hashed(e):
            m = st.ts.get(("hp", l), frozenset())
            if m != {"sorted"}:
                st.ts[("hp", l)] = m | {"cut"}

    def on_assume(self, E, st, t, v):
        if t.op == "app" and len(t.a[1]) == 2 and (t.a[0] == "lt" or t.a[0].rsplit("::", 1)[-1] in ("cmp", "partial_cmp")):
            a, b = (self.plain(x) for x in t.a[1])
            self.compared |= a & b

    def plain(self, t, d=0):
        """elements in hash order which are compared as they are"""
        if d > 8:
            return set()
        if t.op == "elem":
            return {self.now(t)} if is_hash(t.a[0]) else set()
        if t.op == "phi":
            return set().union(*[self.plain(m, d + 1) for m in t.a[0]])
        if t.op == "fld" and (t.a[1] in ("0", "data") or t.a[0].op == "elem"):
            return self.plain(t.a[0], d + 1)
        if t.op == "app" and t.a[0] in ("Path::to_str", "display", "str::to_lowercase"):
            return self.plain(t.a[1][0], d + 1)
        return set()

    def now(self, t):
        """of an earlier element of a pass: the element of that pass"""
        ctx, bb, tag = self.E.sites[t.a[1]]
        return mk("elem", t.a[0], self.E.site(ctx, bb, tag[:-1])) if tag.endswith("~") else t

    def chosen(self, st, t, e, seen=None):
        """an element of a hash table which is the one because of its position"""
        if not t.leaves and t.op not in ("app", "fld", "phi", "cat", "agg", "seq"):
            return None
        seen = set() if seen is None else seen
        if t in seen:
            return None
        seen.add(t)
        if t.op == "app":
            if t.a[0].startswith("pick:"):
                return None if t.a[0] in ("pick:min", "pick:max") else self.inseq(st, t.a[1][0])
            if t.a[0].startswith(PICKED) and t.a[1][0].op == "seq":
                return self.inseq(st, t.a[1][0])
        if t.op == "elem" and is_hash(t.a[0]):
            if self.now(t) in self.compared:
                return None
            ms = st.ts.get(("hp", t))
            if ms is None:
                return t
            for m in ms:
                if m == "cut" or m != "sorted" and not self.within(m, e):
                    return t
            return None
        for k in _kids(t.a):
            r = self.chosen(st, k, e, seen)
            if r is not None:
                return r
        return None

    def inseq(self, st, s):
        if s.op == "seq" and "hash" not in s.a[0]:
            return None
        h = [l for l in s.leaves if l.op == "elem" and is_hash(l.a[0])]
        return h[0] if h else None

    def within(self, site, e):
        """the event happens while the element of this pass is being handled"""
        ctx, bb, _ = self.E.sites[site]
        at = {p: b for _, b, p in self.E.stack(e.ctx)}
        at[e.ctx] = e.bb
        if ctx not in at:
            return False
        return at[ctx] == bb or at[ctx] in self.body_of(ctx, bb)

    def body_of(self, ctx, bb):
        k = (self.E.ctxkey(ctx), bb)
        r = self.loop.get(k)
        if r is None:
            b = self.E.p.body(k[0])
            r, nodes = frozenset(), list(b.order)
            while len(nodes) > 1 and bb in nodes:
                ns = set(nodes)
                comp = next(c for c in sccs(nodes, lambda x: [y for y in b.succ(x) if y in ns]) if bb in c)
                if len(comp) == 1:
                    break
                r = frozenset(comp)
                h = min(comp, key=b.rpo.get)
                if h == bb:
                    break
                nodes = [x for x in comp if x != h]
            self.loop[k] = r
        return r

    def on_event(self, E, st, e):
        nm = e.name
        if nm in FS_MUT:
            ts, final = list(e.args[:2]), True
        elif nm == OPENOPT:
            ts, final = [e.args[1]], False
        elif nm in READS:
            ts, final = [e.args[0]], False
        elif nm.startswith("rusoto_s3::") and short(nm).rsplit("::", 1)[-1] in ("put_object", "get_object"):
            ts, final = [fld(e.args[-1], n) for n in ("key", "bucket")], short(nm).endswith("put_object")
        else:
            return
        M = self.M
        M.ob("C25", ("effect", e.key), None)
        for t in ts:
            x = self.chosen(st, t, e)
            if x is not None:
                M.bad("C25", "hash-order", "which file is used here depends on the order of a hash table: %s" % show(t, 4)[:140], e)
        out = None
        if nm == "std::fs::rename":
            out = e.args[1]
        elif final and nm.startswith("rusoto_s3::"):
            out = ts[0]
        if out is not None:
            x = volatile(out)
            if x is not None:
                M.bad("C25", "volatile-name", "the name of an artefact depends on %s" % x.a[0], e)
            for f, v in st.facts.items():
                if isinstance(v, bool) and f.op == "app" and f.a[0] in ("lt", "eq") and volatile(f) is not None:
                    M.bad("C25", "volatile-choice", "whether this artefact is written depends on %s" % volatile(f).a[0], e)

