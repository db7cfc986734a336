"""What reads the command line (clap calls it, before `main` sees any of it): it does not panic (C20) and finds the stores that were named (C30)."""
from terms import *
from names import splitpiece
from panics import last


class Only:
    """one rule of a monitor, during the run of a parser"""
    on_event = on_assume = on_agg = on_next = on_keep = on_trunc = lambda self, *a: None

    def __init__(self, **k):
        self.__dict__.update(k)


def roots(p):
    """functions of this program that the parsers of the command line call"""
    out = {}
    for k, b in p.bodies.items():
        if not any("StructOpt" in str(o.get("impltrait")) for o in [b] + [p.bodies[x] for x in prefixes(k) if x in p.bodies]):
            continue
        for bl in b["blocks"]:
            t = bl["term"]
            f = t.get("f")
            if t.get("t") != "call" or not isinstance(f, dict):
                continue
            cn = f.get("cn", "")
            if "structopt" in cn or "clap::" in cn or last(cn) in ("deref", "get"):
                continue
            r = f.get("rkey") or cn
            if r in p.bodies:
                out[r] = k
            if cn.endswith("ToString::to_string"):
                for h in f.get("args", [])[:1]:
                    for x, y in p.bodies.items():
                        if y.get("implself") == h.replace("artefacta::", "") and str(y.get("impltrait")).endswith("fmt::Display"):
                            out[x] = k
    return out


def prefixes(k):
    ps = k.split("::")
    return ["::".join(ps[:i]) for i in range(2, len(ps))]


class Parsers:
    def __init__(self, M, P, S):
        self.M, self.P, self.S = M, P, S

    def run(self, p):
        M, P = self.M, self.P
        E0 = M.E
        rs = roots(p)
        M.ob("C20", ("parsers", len(rs)), None)
        for key in sorted(rs):
            b = p.bodies[key]
            E = type(E0)(p, [Only(on_event=P.on_event, on_assume=P.on_assume)])
            E.maypanics = P.documented
            M.E = P.E = E
            try:
                args = [mk("sym", "text:%d" % i) for i in range(b["args"])]
                M.ob("C20", ("parser", key), None)
                outs = E.exec_body(p.body(key), E.ctx(0, key, -1, ""), E.newstate(), args, purge=False, quiet=True)
                self.store(E, key, args, outs)
            finally:
                M.E = P.E = E0

    # ---- C30: what the text of the remote store becomes
    def store(self, E, key, args, outs):
        M, S = self.M, self.S
        if not args:
            return
        text = args[0]
        for st, v in outs:
            v = E.resolve(st, v)
            for x in subterms(v):
                if x.op != "agg" or x.a[1] not in ("Filesystem", "S3") or not x.a[3]:
                    continue
                M.ob("C30", ("named", x.a[1], key), None)
                y = x.a[3][0]
                why = None
                if x.a[1] == "Filesystem":
                    if not all(self.same(m, text) for m in alts(y)):
                        why = "the directory used is not the one named: %s" % show(y, 4)[:100]
                    elif self.there(st, text) is not True:
                        why = "a text which names no existing path is taken for a directory"
                else:
                    why = self.url(st, y, text)
                    if why is None and self.there(st, text) is not False:
                        why = "an existing path is not used as the remote store"
                if why:
                    M.bad("C30", "named-" + x.a[1], why, fn=key)

    def same(self, t, text):
        while t.op == "fld" and t.a[1] == "0" and t.a[2] == "Ok" or t.op == "app" and (last(t.a[0]) in ("canonicalize", "absolute") or last(t.a[0]) == "join" and here(t.a[1][0])):
            if t.op == "app" and last(t.a[0]) == "join":
                t = t.a[1][1]
                continue
            t = t.a[0] if t.op == "fld" else t.a[1][0]
        return t is text

    def there(self, st, text):
        for t, v in st.facts.items():
            if t.op == "app" and t.a[1] and self.same(t.a[1][0], text):
                l = last(t.a[0])
                if l in ("exists", "is_dir") and isinstance(v, bool):
                    return v
                if l in ("canonicalize", "metadata"):
                    return v == "Ok"
        return None

    def url(self, st, b, text):
        u = None
        for x in subterms(b):
            if x.op == "app" and short(x.a[0]).startswith("Url::"):
                w = x.a[1][0]
                while w.op == "fld":
                    w = w.a[0]
                if not (w.op == "app" and last(w.a[0]) in ("parse", "from_str") and text in w.a[1]) or u is not None and u is not x.a[1][0]:
                    return "the object store is not made from the text of the argument"
                u = x.a[1][0]
        if u is None:
            return "the object store is not made from the text of the argument"
        if not any(t.op == "app" and t.a[0] == "eq" and v is True and const("s3") in t.a[1] and any(ofurl(y, u, ("Url::scheme",)) for y in t.a[1]) for t, v in st.facts.items()):
            return "a URL with another scheme than `s3` is taken for an object store"
        for f, i, what in ((self.S.bucket, 0, "bucket"), (self.S.endpoint, 1, "endpoint")):
            for n in f:
                for m in alts(fld(b, n)):
                    p = splitpiece(m)
                    if not p or p[0] != i or not all(self.host(h, u) for h in p[1]) or not dotted(m):
                        return "the %s is not the %s of the host name: %s" % (what, "first part" if i == 0 else "rest", show(m, 5)[:120])
        for n in self.S.path:
            if any(not ofurl(m, u, ("Url::path",)) for m in (trimmed(m) for m in alts(fld(b, n)))):
                return "the folder within the bucket is not the path of the URL: %s" % show(fld(b, n), 5)[:120]
        return None

    def host(self, h, u):
        while h.op == "fld":
            h = h.a[0]
        return ofurl(h, u, ("Url::host_str", "Url::domain"))


def ofurl(t, u, names):
    return t.op == "app" and short(t.a[0]) in names and t.a[1][0] is u


def here(t):
    while t.op == "fld":
        t = t.a[0]
    return t.op == "app" and t.a[0].endswith("env::current_dir")


TRIM = {"str::trim_start_matches", "str::trim_end_matches", "str::trim_matches"}


def trimmed(t):
    while t.op == "app" and t.a[0] in TRIM and t.a[1][1] is const("/"):
        t = t.a[1][0]
    return t


def alts(t):
    return [m for m in t.a[0] if m.op != "moved"] if t.op == "phi" else [t]


def dotted(t):
    """the string was split at the first dot"""
    for x in subterms(t):
        if x.op == "app" and short(x.a[0]) in ("str::splitn", "str::split_once", "str::find"):
            return x.a[1][-1] is const(".") and (x.a[0] != "str::splitn" or x.a[1][1] is const(2))
    return False


class Requests:
    """C30: requests go to the endpoint, the bucket and the folder the store was given with"""
    on_assume = on_agg = on_next = on_keep = on_trunc = lambda self, *a: None

    def __init__(self, E, M):
        self.E, self.M = E, M
        self.s3 = M.nm.s3
        self.bucket, self.endpoint, self.path = set(), set(), set()

    def own(self, t):
        return t.a[1] if t.op == "fld" and t.a[0] is self.s3 else None

    def on_event(self, E, st, e):
        if not e.name.startswith("rusoto_s3::") or len(e.args) < 2:
            return
        M, r = self.M, e.args[-1]
        if r.op != "agg":
            return
        l = last(e.name)
        M.ob("C30", (l, e.key), None)
        es = [fld(x, "endpoint") for x in subterms(e.args[0]) if x.op == "agg" and x.a[1] == "Custom" and "endpoint" in x.a[2]]
        for t, f, what in [(m, self.endpoint, "endpoint") for x in es for m in alts(x)] + [(m, self.bucket, "bucket") for m in alts(fld(r, "bucket"))]:
            n = self.own(t)
            if n is None:
                M.bad("C30", what, "a request goes to another %s than the one of the remote store: %s" % (what, show(t, 5)[:120]), e)
            else:
                f.add(n)
        if not es:
            M.bad("C30", "endpoint", "a request goes to another endpoint than the one of the remote store", e)
        for f in ("key", "prefix"):
            if f not in r.a[2]:
                continue
            for m in alts(fld(r, f)):
                if m.op == "agg" and m.a[1] == "Some":
                    m = m.a[3][0]
                for x in alts(m):
                    ps = x.a[0] if x.op == "cat" else (x,)
                    n = self.own(trimmed(ps[0]))
                    if n is None or len(ps) < 2 or ps[1].op != "c" or not str(ps[1].a[1]).startswith("/") or n in self.bucket | self.endpoint:
                        M.bad("C30", "folder", "a request is for objects outside of the folder of the remote store: %s" % show(x, 5)[:120], e)
                    else:
                        self.path.add(n)
