"""What a command stores and sends: only what it was asked for (C23), nothing the remote store has (C28), auto-patch only from builds of the tags (C29)."""
from terms import *
from names import *
from names import splitpiece
from cover import elems
from tags import gittag

RENAMING = {"to_lowercase", "to_uppercase", "to_ascii_lowercase", "to_ascii_uppercase", "replace", "as_str", "into", "from", "clone", "to_string", "to_owned", "as_ref"}
PIECES = {"split", "split_terminator", "chars", "bytes"}


def separators(p):
    """a text or pattern of which nothing is a letter or digit"""
    if p.op == "c":
        return not any(ch.isalnum() for ch in str(p.a[1]))
    if p.op == "app" and p.a[0] == "index" and p.a[1][1].op == "agg" and p.a[1][1].a[0].endswith("RangeFull"):
        return separators(p.a[1][0])
    if p.op == "app" and p.a[0] == "anyof" or p.op == "agg" and p.a[0] == "array":
        return all(separators(x) for x in (p.a[1] if p.op == "app" else p.a[3]))
    return False


def step(t):
    """what a name was made from by changing only letter case and separators, or by taking it apart at these"""
    if t.op == "seq" and not t.a[0] and len(t.a[1]) == 1:
        return t.a[1][0].a[0], ("seq",)
    if t.op == "elem" and t.a[0].op == "app" and t.a[0].a[0].rsplit("::", 1)[-1] in PIECES and all(separators(x) for x in t.a[0].a[1][1:]):
        return t.a[0].a[1][0], ("pieces", t.a[0].a[0], tuple(t.a[0].a[1][1:]))
    if t.op == "app" and t.a[1] and t.a[0].rsplit("::", 1)[-1] in RENAMING and all(separators(x) for x in t.a[1][1:]):
        return t.a[1][0], (t.a[0], tuple(t.a[1][1:]))
    return None, ()


class Asked:
    def __init__(self, E, M, C, R, F):
        self.E, self.M, self.C, self.R, self.F, self.nm = E, M, C, R, F, M.nm
        M.content_hooks = [self.stored]
        M.publish_hooks.append(self.published)
        F.asked = self

    def canon(self, st, d):
        """the versions of a patch whose name was taken apart are those the name was made of"""
        if d[0] == "patch":
            a, b = splitpiece(d[1]), splitpiece(d[2])
            if a and b and (a[0], b[0]) == (0, 1) and set(a[1]) == set(b[1]):
                r = {self.nm.comps(cat([z, const(".patch.zst")])) for z in a[1]}
                if len(r) == 1:
                    return r.pop()
        return d

    # ---- C23
    def stored(self, st, e, dst, side, d):
        if side != "local" or d[0] not in ("build", "patch"):
            return
        M, F = self.M, self.F
        cmd = M.cmd(st)
        d = self.canon(st, d)
        M.ob("C23", (cmd, d[0], e.key), None)
        why = None
        own = None
        if cmd == "AddPackage":
            v = F.cmdfld(cmd, "version", "data")
            own = lambda x: x is v
        elif cmd == "Add":
            p = F.cmdfld(cmd, "0", "path")
            own = lambda x: derived(x, np(p)) or derived(x, p)
        if own:
            c = F.cpf(st)
            f = fld(fld(c[1], "0", "Some"), "data") if c and c[0] == "Some" else None
            if d[0] == "build":
                good = own(d[1]) or d[1] is f
            else:
                good = d[1] is f and own(d[2])
        elif cmd == "CreatePatch":
            a, b = F.cmdfld(cmd, "from", "data"), F.cmdfld(cmd, "to", "data")
            good = d[1:] == (a, b) if d[0] == "patch" else d[1] in (a, b)
        elif cmd == "AutoPatch":
            w = cat([F.cmdfld(cmd, "prefix"), F.cmdfld(cmd, "current", "data")])
            old = d[1]
            good = d == ("build", w) or (d[0] == "build" or len(d) > 2 and d[2] is w) and any(x.op == "elem" for x in subterms(old)) and old is not w
            if good and d != ("build", w):
                M.ob("C29", ("stored", d[0], e.key), None)
                if not self.oftag(st, old):
                    M.bad("C29", "not-of-tag", "auto-patch stores a %s from a build that was not seen to belong to the tag: %s" % (d[0], show(old, 4)[:100]), e)
        elif cmd == "Install":
            w = F.cmdfld(cmd, "version", "data")
            good = all(x is w or self.R.is_source(x) for x in d[1:])
        else:
            good = False
        if not good:
            M.bad("C23", "unasked-%s" % d[0], "`%s` stores a %s it was not asked for: %s" % (cmd, d[0], "-".join(show(x, 4)[:80] for x in d[1:])), e)

    # ---- C29
    def oftag(self, st, f):
        """the name of build `f` equals prefix and tag, up to letter case and separators"""
        pre = self.F.cmdfld("AutoPatch", "prefix")
        for t, v in st.facts.items():
            if v is True and t.op == "app" and t.a[0] == "eq" and len(t.a[1]) == 2:
                for a, b in (t.a[1], t.a[1][::-1]):
                    if self.root(a, lambda x: x is f or x is fld(f, "data")) and self.root(b, lambda x: self.named(x, pre)):
                        if self.form(a) == self.form(b):
                            return True
        return False

    def named(self, x, pre):
        if x.op != "cat" or x.a[0][0] is not pre or len(x.a[0]) != 2:
            return False
        return self.istag(x.a[0][1])

    def istag(self, t):
        return any(x.op == "elem" and gittag(x) for x in subterms(t)) or gittag(t)

    def form(self, t):
        """what was done to the string before it was compared"""
        r = ()
        while t is not None:
            t, x = step(t)
            r += x
        return r

    def root(self, t, ok):
        while t is not None:
            if ok(t):
                return True
            t = step(t)[0]
        return False

    # ---- C28
    def published(self, st, x):
        if x[0] == "put":
            c, e = x[1], x[2]
            srcs = [c[1]] if c and c[0] == "file" else []
            dst = None
        elif x[0] == "renamed" and self.nm.side(st, x[2]) == "remote":
            e = x[3]
            dst = x[2]
            srcs = [s for o in st.ts.get(("path", np(x[1])), ()) for op in st.ts.get(("ops", o), ()) for s in op.a[1]]
        else:
            return
        M = self.M
        M.ob("C28", (M.cmd(st), x[0], e.key), None)
        if dst is not None and self.absent(st, dst):
            return
        ws = set()
        for s in srcs:
            for y in subterms(s):
                if y.op == "fld" and y.a[1] == "local" and self.C.tracks(y.a[0]) & {("nodes",), ("edges",)}:
                    ws.add(y.a[0])
        if not ws:
            M.bad("C28", "unknown-upload", "a file is uploaded without its being looked up in the index: the remote store may have it already", e)
        for w in ws:
            if st.facts.get(mk("fld", w, "remote", None)) != "None":
                M.bad("C28", "replaced", "a file is uploaded although the remote store may have it already", e)

    def absent(self, st, dst):
        c = self.nm.pathcomps(st, dst)
        for t, v in st.facts.items():
            if v is False and t.op == "app" and t.a[0].rsplit("::", 1)[-1] in ("exists", "try_exists", "is_file") and t.a[1]:
                if self.nm.side(st, t.a[1][0]) == "remote" and self.nm.pathcomps(st, t.a[1][0]) == c:
                    return True
        return False
