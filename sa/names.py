"""What a path or an object key denotes: which store it lies in, which artefact it names."""
from terms import *
import natives as nat

CANON = "std::path::Path::canonicalize"


def np(t):
    """the path without canonicalisation (the store directories are the same before and after)"""
    n = 0
    while n < 12:
        n += 1
        if t.op == "fld" and t.a[1] == "0" and t.a[2] == "Ok" and t.a[0].op == "app" and t.a[0].a[0] == CANON:
            t = t.a[0].a[1][0]
            continue
        if t.op == "fld" and t.a[1] == "0" and t.a[0].op == "app" and t.a[0].a[0] in PASS:
            t = t.a[0].a[1][0]
            continue
        break
    if t.op == "app" and t.a[0] == "join":
        b = t.a[1][1]
        if nat.abspath(b):
            return np(b)
        a = np(t.a[1][0])
        if a is not t.a[1][0]:
            return app("join", a, b)
    if t.op == "app" and t.a[0] in ("with_file_name", "with_extension"):
        a = np(t.a[1][0])
        if a is not t.a[1][0]:
            return app(t.a[0], a, t.a[1][1])
    if t.op == "phi":
        return phi([np(m) for m in t.a[0] if m.op != "moved"] or [t])
    return t


def entry_side(t):
    """`entry.path` of an index node or edge: which side it was registered for"""
    if t.op == "fld" and t.a[1] == "path":
        b = t.a[0]
        if b.op == "fld" and b.a[1] == "0" and b.a[2] == "Some" and b.a[0].op == "fld" and b.a[0].a[1] in ("local", "remote"):
            g = b.a[0].a[0]
            if any(x.op == "app" and x.a[0].startswith("petgraph::") for x in subterms(g)):
                return b.a[0].a[1]
    return None


class Names:
    def __init__(self, local, remote_fs, remote_s3):
        self.local = local            # term: local store directory
        self.remote = remote_fs       # term: directory of a remote store kept in the file system
        self.s3 = remote_s3           # term: bucket description

    def dirof(self, st, p, d=0):
        """directory of the file a path term denotes, as a term; None when unknown"""
        if d > 12:
            return None
        p = np(p)
        if p.op == "phi":
            r = {self.dirof(st, m, d + 1) for m in p.a[0]}
            return r.pop() if len(r) == 1 else None
        if p.op == "app":
            if p.a[0] == "join":
                b = p.a[1][1]
                if nat.sepfree(st, b):
                    return np(p.a[1][0])
                if b.op == "phi" and all(nat.sepfree(st, m) for m in b.a[0]):
                    return np(p.a[1][0])
                return None
            if p.a[0] in ("with_file_name", "with_extension"):
                return self.dirof(st, p.a[1][0], d + 1) if nat.sepfree(st, p.a[1][1]) else None
        s = entry_side(p)
        if s == "local":
            return self.local
        if s == "remote":
            return self.remote
        return None

    def side(self, st, p):
        """'local' | 'remote' | 'tmp' | None"""
        d = self.dirof(st, p)
        if d is None:
            return None
        if d is self.local:
            return "local"
        if d is self.remote:
            return "remote"
        if istmp(d):
            return "tmp"
        return None

    def within(self, p, d=0):
        """the store the path starts in ('local', 'remote', 'tmp'), whatever the rest of it is"""
        if d > 12:
            return None
        p = np(p)
        if p is self.local:
            return "local"
        if p is self.remote:
            return "remote"
        if istmp(p):
            return "tmp"
        if p.op == "phi":
            r = {self.within(m, d + 1) for m in p.a[0]}
            return r.pop() if len(r) == 1 else None
        if p.op == "app" and p.a[0] in ("join", "with_file_name", "with_extension", "parent"):
            return self.within(p.a[1][0], d + 1)
        if p.op == "fld" and p.a[0].op == "app" and p.a[0].a[0] == "parent":
            return self.within(p.a[0].a[1][0], d + 1)
        if p.op == "cat" and p.a[0]:
            return self.within(p.a[0][0], d + 1)
        return entry_side(p)

    def base(self, st, p, d=0):
        """file name of a path term (a term)"""
        p = np(p)
        if p.op == "phi" and d < 4:
            r = [self.base(st, m, d + 1) for m in p.a[0]]
            if all(r):
                return phi(r)
        if p.op == "app" and p.a[0] == "with_extension":
            return app("basename", p)
        b = nat.basename(st, p)
        if b is not None:
            return self.normbase(b)
        if p.op == "cat":      # prefix + name, as in object keys
            i = len(p.a[0])
            while i > 0 and nat.sepfree(st, p.a[0][i - 1]):
                i -= 1
            if i < len(p.a[0]) and i > 0:
                q = p.a[0][i - 1]
                if q.op == "c" and "/" in str(q.a[1]):
                    return cat([const(q.a[1].rsplit("/", 1)[1])] + list(p.a[0][i:]))
                return cat(p.a[0][i:])
            if i == 0:
                return p
        return app("basename", p)

    def normbase(self, b):
        if b.op == "fld" and b.a[0].op == "app" and b.a[0].a[0] == "file_name":
            return app("basename", np(b.a[0].a[1][0]))
        if b.op == "app" and b.a[0] == "basename":
            return app("basename", np(b.a[1][0]))
        return b

    # ---- artefact names
    def comps(self, n, d=0):
        """('build', version) | ('patch', from, to) | ('name', term)"""
        if d > 6:
            return ("name", n)
        if n.op == "phi":
            r = {self.comps(m, d + 1) for m in n.a[0]}
            if len(r) == 1:
                return r.pop()
            return ("name", n)
        parts = list(n.a[0]) if n.op == "cat" else [n]
        last = parts[-1]
        if last.op == "c" and last.a[0] == "str":
            s = last.a[1]
            if s in (".zst", ".patch.zst") and len(parts) == 2 and parts[0].op == "phi":
                r = {self.comps(cat([m, last]), d + 1) for m in parts[0].a[0]}
                if len(r) == 1:
                    return r.pop()
                return ("name", n)
            if s.endswith(".tar.zst"):
                v = cat(parts[:-1] + [const(s[:-8])])
                return ("build", v)
            if s.endswith(".patch.zst"):
                rest = parts[:-1] + ([const(s[:-10])] if s[:-10] else [])
                for sep in ("---", "-"):
                    ix = [i for i, x in enumerate(rest) if x.op == "c" and x.a[0] == "str" and x.a[1] == sep]
                    if len(ix) == 1 and 0 < ix[0] < len(rest) - 1:
                        return ("patch", cat(rest[:ix[0]]), cat(rest[ix[0] + 1:]))
        return ("name", n)

    def pathcomps(self, st, p):
        return self.comps(self.base(st, p))

    def staging(self, st, p):
        """the file name can never be taken for a build or patch: it ends in a constant that is no tail of `.zst`"""
        b = self.base(st, p)
        p2 = np(p)
        if p2.op == "app" and p2.a[0] == "with_extension":
            b = cat([const("."), p2.a[1][1]])
        return nonzst(b)


def nonzst(b):
    if b.op == "phi":
        return all(nonzst(m) for m in b.a[0])
    last = b.a[0][-1] if b.op == "cat" else b
    if last.op == "c" and last.a[0] == "str" and last.a[1]:
        s = last.a[1]
        return not s.endswith(".zst") and not ".zst".endswith(s)
    return False


def istmp(d):
    return d.op == "fld" and d.a[1] == "0" and d.a[2] == "Ok" and d.a[0].op == "app" and "tempdir" in d.a[0].a[0].lower()


DER = {"str::strip_suffix", "str::strip_prefix", "file_stem", "file_name", "basename", "str::trim_end_matches", "str::trim_start_matches",
       "str::trim", "Path::to_str", "display", "strtail", "to_string_lossy"}


def derived(t, src, d=0):
    """t is the path `src`, its file name, or what is left of that after cutting suffixes"""
    if d > 20:
        return False
    a = np(t)
    if a is src or t is src:
        return True
    if a.op == "phi":
        return all(derived(m, src, d + 1) for m in a.a[0])
    if a.op == "fld" and a.a[1] == "0" and a.a[0].op == "app":
        return derived(a.a[0], src, d + 1)
    if a.op == "app" and (a.a[0] in DER or a.a[0] == CANON):
        return derived(a.a[1][0], src, d + 1)
    if a.op == "fld" and a.a[1] == "data":
        return derived(a.a[0], src, d + 1)
    return False


def splitpiece(t):
    """-> (index, string split) when t is one piece of a split string"""
    if t.op == "phi":
        r = [splitpiece(m) for m in t.a[0]]
        if any(x is None for x in r) or len({x[0] for x in r}) != 1:
            return None
        return (r[0][0], [y for x in r for y in x[1]])
    if t.op == "app" and t.a[0] == "index" and t.a[1][1].op == "c":
        s = t.a[1][0]
        out = []
        if s.op == "seq":
            for i in s.a[1]:
                e = i.a[0]
                if e.op == "elem" and e.a[0].op == "app" and "split" in e.a[0].a[0] and "rsplit" not in e.a[0].a[0]:
                    out.append(e.a[0].a[1][0])
                else:
                    return None
            return (t.a[1][1].a[1], out)
    if t.op == "app" and t.a[0] == "pick:nth" and t.a[1][0].op == "app" and t.a[1][0].a[0] == "str::splitn":
        return (t.a[1][1].a[1], [t.a[1][0].a[1][0]])
    if t.op == "app" and t.a[0] == "index" and t.a[1][1].op == "agg" and t.a[1][1].a[0].endswith(("RangeTo", "RangeFrom")):
        # before and behind what was looked for
        s, r = t.a[1][0], t.a[1][1].a[3][0]
        n = 0
        if r.op == "app" and r.a[0] == "add" and r.a[1][1].op == "c":
            r, n = r.a[1][0], r.a[1][1].a[1]
        f = r.a[0] if r.op == "fld" and r.a[1] == "0" else r
        if f.op == "app" and short(f.a[0]) == "str::find" and f.a[1][0] is s and f.a[1][1].op == "c":
            end = t.a[1][1].a[0].endswith("RangeTo")
            if n == (0 if end else len(str(f.a[1][1].a[1]).encode())):
                return (0 if end else 1, [s])
        return None
    # `split_once` and friends
    if t.op == "fld" and t.a[1] in ("0", "1") and t.a[2] is None and t.a[0].op == "fld" and t.a[0].a[0].op == "app" \
            and "split_once" in t.a[0].a[0].a[0]:
        return (int(t.a[1]), [t.a[0].a[0].a[1][0]])
    return None
