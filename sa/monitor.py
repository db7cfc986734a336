"""Typestate and effect rules, evaluated while the engine walks the program.

Everything is keyed by provenance terms, never by source text: which file a handle writes
(`O`), which artefact a path names, which library result an operation produced.
"""
import collections
from terms import *
from names import *
import natives as nat

T_ = True
FS_READ = {"read", "read_dir", "read_link", "read_to_string", "metadata", "symlink_metadata", "canonicalize", "exists", "try_exists"}
# name -> (roles of the arguments)
FS_MUT = {
    "std::fs::rename": ("src", "dst"),
    "std::fs::remove_file": ("del",), "std::fs::remove_dir": ("del",), "std::fs::remove_dir_all": ("del",),
    "std::fs::copy": ("rd", "new"), "std::fs::write": ("new", "data"), "std::fs::hard_link": ("rd", "new"),
    "std::fs::soft_link": ("data", "link"), "std::os::unix::fs::symlink": ("data", "link"),
    "std::fs::File::create": ("new",), "std::fs::File::create_new": ("new",),
    "std::fs::create_dir": ("mkdir",), "std::fs::create_dir_all": ("mkdir",), "std::fs::set_permissions": ("chmod",),
}
OPENOPT = "std::fs::OpenOptions::open"
WRITERS = {"copy::copy": 1, "Write::write_all": 0, "Write::write": 0, "Write::write_vectored": 0, "Write::write_fmt": 0, "Write::write_all_vectored": 0}
ENC_NEW = ("zstd::stream::write::Encoder::new", "zstd::stream::write::Encoder::with_dictionary", "tar::builder::Builder::new",
           "bufwriter")
FINISH = ("finish", "try_finish", "do_finish", "into_inner")
S3_READ = {"get_object", "list_objects_v2", "list_objects", "head_object", "head_bucket"}
UNSAFE_EXT = ("tokio::fs", "async_std", "std::process::Command", "std::process::Child", "libc::", "nix::", "fs2::", "std::net::", "fs_extra::")


HEXFMT = {"new_lower_hex", "new_upper_hex", "display", "str::to_lowercase", "str::to_uppercase", "hex::encode", "to_string", "into",
          "as_ref", "from", "lower", "upper", "to_ascii_lowercase", "str::to_ascii_lowercase"}
TAGFMT = {"str::trim_start_matches", "str::trim_end_matches", "str::trim_matches", "str::trim", "str::strip_prefix", "str::strip_suffix",
          "str::to_lowercase", "str::to_uppercase", "str::replace", "display", "to_string", "into", "as_ref", "str::to_ascii_lowercase"}


def openflags(opts):
    f = {}
    t = opts
    while t.op in ("app", "mut"):
        if t.op == "mut":
            for o in t.a[1]:
                if o.op == "app" and len(o.a[1]) >= 1:
                    f.setdefault(short(o.a[0]).split("::")[1], o.a[1][-1])
            t = t.a[0]
            continue
        n = short(t.a[0]).split("::")[-1]
        if n == "new" or not t.a[1]:
            break
        if len(t.a[1]) > 1:
            f.setdefault(n, t.a[1][1])
        t = t.a[1][0]
    return f


def flag(f, n):
    v = f.get(n)
    return v is not None and v is not FALSE


SUBSTR = {"str::strip_suffix", "str::strip_prefix", "str::trim", "str::trim_end_matches", "str::trim_start_matches", "str::trim_matches", "str::trim_start",
          "str::trim_end", "str::split", "str::rsplit", "str::splitn", "str::rsplitn", "str::split_once", "str::rsplit_once", "index", "display", "Path::to_str"}


def dashfree(st, t, d=0):
    """the string cannot contain `---`"""
    if d > 20:
        return False
    if t.op == "c":
        return "---" not in str(t.a[1])
    if t.op == "phi" and all(m.op == "moved" or dashfree(st, m, d + 1) for m in t.a[0]):
        return True
    if t.op == "fld" and t.a[1] == "data":
        return True
    for k, v in st.facts.items():
        if k.op == "app" and (v is False and k.a[0] == "str::contains" or v == "None" and k.a[0] in ("str::split_once", "str::rsplit_once", "str::rfind")) and k.a[1][0] is t:
            p = k.a[1][1]
            cs = [x.a[1] for x in p.a[1]] if p.op == "app" and p.a[0] == "anyof" else [p.a[1]] if p.op == "c" else []
            if {"-", "--", "---"} & set(cs):
                return True
    if t.op == "app" and t.a[0] in SUBSTR:
        return dashfree(st, t.a[1][0], d + 1)
    if t.op == "elem" and t.a[0].op == "app" and t.a[0].a[0] in SUBSTR:
        return dashfree(st, t.a[0].a[1][0], d + 1)
    if t.op == "fld" and t.a[1] in ("0", "1"):
        return dashfree(st, t.a[0], d + 1)
    return False


def wholepatch(t, d=0):
    """the bytes were read to their end before"""
    if d > 20:
        return False
    if t.op == "phi":
        return all(m.op == "moved" or wholepatch(m, d + 1) for m in t.a[0])
    if t.op == "mut":
        return wholepatch(t.a[0], d + 1)
    if t.op == "fld" and t.a[1] == "0" and t.a[2] in ("Ok", None) and t.a[0].op == "app":
        n = t.a[0].a[0]
        return n == "std::fs::read" or n.startswith("zstd::") and n.rsplit("::", 1)[1] in ("decode_all", "decompress")
    if t.op == "app":
        if t.a[0] == "content":
            return True
        return t.a[0].endswith(("Cursor::new", "BufReader::new")) and wholepatch(t.a[1][0], d + 1)
    return False


def ofmeta(y):
    """metadata of the file itself, not of a link to it"""
    if y.op != "app" or not y.a[0].endswith("metadata") or not y.a[1]:
        return False
    return not y.a[0].endswith("symlink_metadata") or any(x.op == "app" and x.a[0] in (CANON, "std::fs::canonicalize") for x in subterms(y.a[1][0]))


def isversion(adt):
    return isinstance(adt, str) and adt.startswith("artefacta") and adt.endswith("::Version")


class VersionOnly:
    """only the rule about versions"""
    def __init__(self, M):
        self.on_agg = M.on_agg
    on_event = on_assume = on_next = on_keep = on_trunc = lambda self, *a: None


# what may be done to a file or buffer before its content is taken
NOT_READING = {"metadata", "by_ref", "rewind", "fill_buf", "buffer", "get_ref", "reserve", "shrink_to_fit", "sync_all", "sync_data", "flush", "capacity"}


class Mon:
    def __init__(self, E, nm, cmd):
        self.E = E
        E.lingers, E.vacuous = self.lingers, self.vacuous
        self.nm = nm
        self.cmdt = cmd
        self.found = {}
        self.obs = collections.defaultdict(dict)
        self.eff = {}
        self.opres = collections.defaultdict(set)     # op app -> resource apps it belongs to
        self.openers = {}                             # open app -> (path, flags)
        self.current = app("join", nm.local, const("current"))
        self.rescache = {}

    # ---------------------------------------------------------------- reporting
    def ob(self, prop, key, what=None):
        self.obs[prop][key] = what

    def bad(self, prop, rule, msg, e=None, where=None, fn=None):
        if e is not None:
            where = self.E.where(e.ctx, e.bb)
            fn = e.key
        k = (prop, rule, fn or "?")
        if k not in self.found:
            self.found[k] = (msg, where or [])

    # ---------------------------------------------------------------- helpers
    def cmd(self, st):
        v = st.facts.get(self.cmdt)
        return v if isinstance(v, str) else None

    def have(self, c):
        return app("have", const(c[0]), *[x for x in c[1:]])

    def full(self, c):
        return app("nonempty", const(c[0]), *[x for x in c[1:]])

    def resources(self, t):
        """library handles a value was read from or writes to"""
        r = self.rescache.get(t)
        if r is None:
            r = frozenset(x for x in subterms(t) if x.op == "app" and (
                x.a[0] in (OPENOPT, "std::fs::File::open", "std::fs::File::create", "std::fs::File::create_new", "std::fs::read")
                or x.a[0].endswith("::get_object")))
            self.rescache[t] = r
        return r

    def lingers(self, st, ts, other):
        """what could not be read is of no more interest where nothing refers to it"""
        gone = [k for k, v in ts.items() if v and isinstance(k, tuple) and k[0] == "pend" and len(k) == 2 and not other.get(k)
                and (k[1].a[0] == "std::fs::File::open" or k[1].a[0].endswith("::get_object"))]
        if gone:
            live = frozenset().union(*(self.resources(v) for m in st.mem.values() for v in m.values()))
            gone = [k for k in gone if k[1] not in live]
            if gone:
                ts = {k: v for k, v in ts.items() if k not in gone}
        return ts

    def vacuous(self, st, k):
        """known of a download that this state has nothing of"""
        if k.op != "app" or k.a[0] != "integrity":
            return False
        r = self.resources(k)
        return not any(r & self.resources(v) for m in st.mem.values() for v in m.values())

    def handle(self, t):
        """the file this writer writes to: the innermost destination, not files named inside paths"""
        n = 0
        work = [t]
        out = set()
        seen = set()
        while work:
            x = work.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op == "app":
                if x.a[0] in (OPENOPT, "std::fs::File::create", "std::fs::File::create_new", "std::fs::File::open"):
                    out.add(x)
                    continue
                if x.a[0] in ("join", "with_file_name", "with_extension", CANON):
                    continue
                work.extend(x.a[1])
                continue
            work.extend(y for y in kids(x))
        return out

    # ---------------------------------------------------------------- events
    def on_event(self, E, st, e):
        nm = e.name
        sh = short(nm)
        last = sh.split("::")[-1]
        a = e.args
        if nm in FS_MUT:
            self.fsmut(st, e, nm, last)
        elif nm == OPENOPT:
            f = openflags(a[0])
            if any(flag(f, x) for x in ("write", "append", "create", "create_new", "truncate")):
                self.create(st, e, a[1], f, e.t)
            else:
                self.openread(st, e, a[1])
        elif nm in ("std::fs::File::open", "std::fs::read", "std::fs::read_to_string"):
            self.openread(st, e, a[0])
        elif nm.startswith("std::fs::File::") and last in ("set_len", "set_permissions", "set_modified", "set_times"):
            self.bad("C01", "direct-" + last, "a file of the store is changed in place (%s)" % last, e)
        elif nm.startswith("std::fs::") and last not in FS_READ and not nm.startswith(("std::fs::DirEntry", "std::fs::File::", "std::fs::Metadata", "std::fs::ReadDir", "std::fs::FileType", "std::fs::OpenOptions", "std::fs::Permissions")):
            self.bad("C12", "unknown-fs-" + last, "unclassified file-system operation %s" % nm, e)
        elif nm.startswith(UNSAFE_EXT):
            self.bad("C12", "unknown-effect-" + last, "effect outside the modelled file-system interface: %s" % nm, e)
        if sh in WRITERS:
            d = a[WRITERS[sh]]
            self.write(st, e, d, [x for i, x in enumerate(a) if i != WRITERS[sh]], "short" if last in ("write", "write_vectored") else last)
        elif nm.startswith("bidiff::simple_diff") and len(a) >= 3:
            self.write(st, e, a[2], [a[0], a[1]], "diff")
        elif nm.startswith("tar::builder::Builder::append"):
            self.write(st, e, a[0], list(a[1:]), "tar")
        elif sh == "Write::flush" or last in ("sync_all", "sync_data") and nm.startswith("std::fs::File"):
            self.flush(st, e, a[0])
        elif nm in ENC_NEW:
            self.encnew(st, e)
        elif last in FINISH and a:
            self.finish(st, e, a[0])
        elif last in ("read_to_end", "read_to_string", "read_exact", "read") and a and e.t is not None:
            for r in self.resources(a[0]):
                self.pend(st, e.t, r)
        if nm.startswith("rusoto_s3::") and nm.startswith("rusoto_s3::generated::S3::"):
            self.s3(st, e, last)
        if nm.startswith("tempfile::") and last in ("tempdir", "new", "tempdir_in", "new_in"):
            self.eff[e.t] = [("tmpdir", e)]
        elif nm.startswith("tempfile::dir::TempDir::") and last == "close":
            st.ts[("tmp", self.tmpof(a[0]))] = frozenset(["gone"])
        elif nm.startswith("tempfile::") and last in ("into_path", "keep", "persist", "leak"):
            self.bad("C02", "tmp-kept", "temporary directory is kept", e)
        elif nm == "drop" and a:
            st.ts[("tmp", self.tmpof(a[0]))] = frozenset(["gone"])
        elif nm == "forget":
            self.bad("C02", "forget", "a value with clean-up is forgotten", e)
        if nm == "exit":
            self.on_exit(st, e)

    def tmpof(self, t):
        for x in subterms(t):
            if x.op == "app" and x.a[0].startswith("tempfile::") and x.a[2] is not None:
                return x
        return t

    # ---------------------------------------------------------------- handles
    def pend(self, st, op, res):
        k = ("pend", res)
        s = st.ts.get(k, frozenset())
        if op in s:
            st.ts[("bad", res)] = st.ts.get(("bad", res), frozenset()) | {"ignored"}
        st.ts[k] = s | {op}
        self.opres[op].add(res)

    def write(self, st, e, dst, src, kind):
        hs = self.handle(dst)
        for o in hs:
            st.ts[("ops", o)] = st.ts.get(("ops", o), frozenset()) | {mk("op", kind, tuple(src))}
            st.ts[("dirty", o)] = frozenset("y")
            if e.t is not None:
                self.pend(st, e.t, o)
            if kind == "short":
                st.ts[("bad", o)] = st.ts.get(("bad", o), frozenset()) | {"short"}
        for s in src:
            # a source which is consumed here: its read errors surface in this result
            for r in self.resources(s):
                if e.t is not None and kind in ("copy", "tar"):
                    self.pend(st, e.t, r)

    def flush(self, st, e, dst):
        for o in self.handle(dst):
            st.ts[("dirty", o)] = frozenset()
            if e.t is not None:
                self.pend(st, e.t, o)

    def encnew(self, st, e):
        if e.name == "bufwriter":
            for o in self.handle(e.args[0]):
                st.ts[("buf", o)] = frozenset("y")
            return
        for o in self.handle(e.args[0]):
            k = ("enc", o)
            st.ts[k] = st.ts.get(k, frozenset()) | {e.t}
            if e.name.startswith("zstd"):
                st.ts[("z", o)] = frozenset("y")
                self.pend(st, e.t, o)

    def finish(self, st, e, enc):
        # the encoder being finished is the outermost one
        es = [x for x in subterms(enc) if x.op == "app" and x.a[0] in ENC_NEW]
        if not es:
            if e.name.startswith("std::io") or "bufwriter" in e.name.lower():
                self.flush(st, e, enc)
            return
        top = self.outermost(enc) or {max(es, key=lambda x: x.depth)}
        for o in self.handle(enc):
            k = ("enc", o)
            if k in st.ts:
                st.ts[k] = st.ts[k] - top
            st.ts[("dirty", o)] = frozenset("y")
            if e.t is not None:
                self.pend(st, e.t, o)

    def outermost(self, t):
        """the alternatives of an encoder"""
        if t.op == "phi":
            return frozenset().union(*(self.outermost(m) for m in t.a[0]))
        if t.op in ("mut", "fld", "upd"):
            return self.outermost(t.a[0])
        if t.op == "app" and t.a[0] in ENC_NEW:
            return frozenset([t])
        return frozenset()

    def incomplete(self, st, o):
        """why the content written through handle `o` may be incomplete; None if it is complete"""
        b = st.ts.get(("bad", o), frozenset())
        if "short" in b:
            return "a short write is not noticed"
        if "ignored" in b:
            return "the result of an earlier write is ignored"
        p = st.ts.get(("pend", o), frozenset())
        if p:
            x = sorted(p, key=lambda t: t.n)[0]
            return "the result of `%s` is not checked" % (short(x.a[0]))
        if st.ts.get(("enc", o)):
            x = sorted(st.ts[("enc", o)], key=lambda t: t.n)[0]
            return "`%s` is not finished" % short(x.a[0])
        if st.ts.get(("buf", o)) and st.ts.get(("dirty", o)):
            return "buffered data is not flushed"
        if not st.ts.get(("ops", o)):
            return "nothing was written"
        for op in st.ts[("ops", o)]:
            for s in op.a[1]:
                for r in self.resources(s):
                    if st.ts.get(("pend", r)):
                        x = sorted(st.ts[("pend", r)], key=lambda t: t.n)[0]
                        return "the source is used although `%s` may have failed" % short(x.a[0])
        return None

    # ---------------------------------------------------------------- file system
    def mutate(self, st, e, p, what, name_any=False):
        """containment (C12) and permission (C13) of a change at path p; -> side"""
        nm = self.nm
        side = nm.side(st, p)
        self.ob("C12", (e.key, e.bb, what, side), None)
        if side is None:
            self.bad("C12", "outside-" + what, "%s of a path that is not provably a direct child of a store directory: %s" % (what, show(np(p), 6)[:160]), e)
            side = nm.within(p)
        c = self.cmd(st)
        if side == "remote":
            self.remote_change(st, e, what)
        elif side in ("local", None):
            self.ob("C13", (e.key, e.bb, "local"), None)
            if c in (None, "Debug", "Sync"):
                self.bad("C13", "local-change-" + str(c), "%s of a local file by a command that must not change the local store (%s)" % (what, c or "before dispatch"), e)
        if np(p) is self.current and what not in ("rename-onto",):
            self.bad("C05", "current-" + what, "`current` is changed by %s, not by one atomic rename" % what, e)
        return side

    def remote_change(self, st, e, what):
        c = self.cmd(st)
        self.ob("C13", (e.key, e.bb, "remote"), None)
        okk = c == "Sync"
        if c in ("Add", "AddPackage"):
            okk = any(v is True and t.op == "fld" and t.a[1] == "upload" for t, v in st.facts.items())
        if not okk:
            self.bad("C13", "remote-change-" + str(c), "%s in the remote store without `sync` or `--upload` (command %s)" % (what, c), e)

    def fsmut(self, st, e, nm, last):
        roles = FS_MUT[nm]
        a = e.args
        for r, x in zip(roles, a):
            if r == "new":
                if last in ("create", "create_new"):
                    self.create(st, e, x, {"create_new": TRUE if last == "create_new" else FALSE}, e.t)
                else:
                    self.create(st, e, x, {"copy": TRUE}, None)
            elif r == "rd":
                self.openread(st, e, x)
            elif r == "del":
                self.remove(st, e, x)
            elif r == "link":
                self.link(st, e, x, a[0])
            elif r == "mkdir":
                self.bad("C12", "mkdir", "directory is created", e)
            elif r == "chmod":
                self.bad("C12", "chmod", "permissions are changed", e)
        if last == "rename":
            self.rename(st, e)

    def create(self, st, e, p, f, t):
        side = self.mutate(st, e, p, "creation")
        P = np(p)
        k = ("file", P)
        stag = self.nm.staging(st, p)
        if t is None:                       # whole-file helpers write straight to the name
            if not stag and side != "tmp":
                self.bad("C01", "direct-write", "%s writes directly to a name under which the file is already visible" % short(e.name), e)
            self.eff.setdefault(e.t, []).append(("copied", p, e))
            return
        if not stag and side != "tmp":
            self.bad("C01", "direct-create", "file is created under its final name: %s" % show(self.nm.base(st, p), 6)[:120], e)
        self.ob("C01", ("create", e.key, side), None)
        if "live" in st.ts.get(k, ()) and t.a[2] is not None:
            self.bad("C02", "leak-recreate", "staging file of an earlier round is left behind", e)
        st.ts[k] = frozenset(["maybe"])
        st.ts[("path", P)] = frozenset([t])
        for x in ("ops", "dirty", "buf", "enc", "z", "pend", "bad"):
            st.ts.pop((x, t), None)
        self.openers[t] = (p, e)
        self.eff[t] = [("created", p, e)]
        # C26
        self.ob("C26", (e.key, side), None)
        excl = f.get("create_new") is TRUE
        if not excl and not self.ownname(p):
            self.bad("C26", "shared-staging", "staging file is opened without `create_new` and its name is not unique to this process", e)

    def ownname(self, p):
        return any(x.op == "app" and (x.a[0].endswith("process::id") or x.a[0].startswith("tempfile::")) for x in subterms(p))

    def displaced(self, st, e, p, what):
        """a staging file that another run may have created is taken away"""
        P = np(p)
        if P is self.current:
            return
        self.ob("C26", (e.key, what), None)
        if self.nm.staging(st, p) and ("file", P) not in st.ts and ("link", P) not in st.ts and not self.ownname(p):
            self.bad("C26", "displaced-staging", "%s a staging file that another run may be writing" % what, e)

    def openread(self, st, e, p):
        P = np(p)
        for src in (P,):
            fs = st.ts.get(("path", src))
            if fs and st.ts.get(("file", src), frozenset()) & {"live", "maybe"}:
                for o in fs:
                    r = self.incomplete(st, o)
                    if r:
                        self.bad("C01", "read-incomplete", "file is read although %s" % r, e)
        self.eff.setdefault(e.t, []).append(("have", p))

    def remove(self, st, e, p):
        self.mutate(st, e, p, "removal")
        self.displaced(st, e, p, "removes")
        P = np(p)
        k = ("file", P)
        mine = k in st.ts or ("link", P) in st.ts or self.nm.staging(st, p)
        if not mine or "published" in st.ts.get(k, ()):
            self.bad("C12", "removes-artefact", "removes a file this run has not staged: %s" % show(P, 6)[:140], e)
        if P is self.current:
            self.bad("C05", "current-removed", "`current` is removed", e)
        if k in st.ts:
            st.ts[k] = frozenset(["removed"])
        if ("link", P) in st.ts:
            st.ts[("link", P)] = frozenset(["removed"])
        self.gone(st, p)

    def gone(self, st, p):
        c = self.nm.pathcomps(st, p)
        for x in (self.have(c), self.full(c), app("usable", const(c[0]), *c[1:])):
            st.facts.pop(x, None)

    def link(self, st, e, p, target):
        self.mutate(st, e, p, "link")
        if not self.nm.staging(st, p) and np(p) is not self.current:
            self.bad("C01", "direct-link", "a link is created under a name that may be taken for an artefact", e)
        P = np(p)
        st.ts[("link", P)] = frozenset(["maybe"])
        st.ts[("target", P)] = frozenset([target])
        self.eff[e.t] = [("linked", p, e)]

    def rename(self, st, e):
        src, dst = e.args[0], e.args[1]
        S_, D = np(src), np(dst)
        nm = self.nm
        self.mutate(st, e, src, "rename")
        side = self.mutate(st, e, dst, "rename-onto")
        self.eff[e.t] = [("renamed", src, dst, e)]
        if D is self.current or (side == "local" and nm.base(st, dst) is const("current")):
            self.rename_current(st, e, S_, src)
            return
        self.displaced(st, e, dst, "replaces")
        self.ob("C01", ("publish", e.key, side), None)
        f = st.ts.get(("file", S_))
        if not f:
            self.bad("C01", "rename-foreign", "a file that was not staged by this run is moved to %s" % show(nm.base(st, dst), 5)[:100], e)
            return
        if not f <= {"live", "maybe"} or "maybe" in f:
            self.bad("C01", "rename-unsure", "the staged file may not exist (its creation was not checked)", e)
        ds, dd = nm.dirof(st, src), nm.dirof(st, dst)
        if ds is None or ds is not dd:
            self.bad("C01", "rename-across", "the staged file is in another directory than its final name, the move is not atomic", e)
        for o in st.ts.get(("path", S_), ()):
            why = self.incomplete(st, o)
            if why:
                self.bad("C01", "publish-incomplete", "file gets its final name although %s" % why, e)
            self.content(st, e, o, dst, side)

    def rename_current(self, st, e, S_, src):
        self.ob("C05", (e.key, self.cmd(st)), None)
        if self.cmd(st) != "Install":
            self.bad("C05", "current-by-" + str(self.cmd(st)), "`current` is replaced by a command other than install", e)
        l = st.ts.get(("link", S_))
        if not l or not l <= {"made"}:
            self.bad("C05", "current-source", "`current` is replaced by something that is not a link made by this run", e)
        if self.nm.dirof(st, src) is not self.nm.local:
            self.bad("C05", "current-across", "the new link is not in the same directory as `current`", e)
        self.ob("C04", ("switch", e.key), None)
        for tgt in st.ts.get(("target", S_), ()):
            self.check_target(st, e, tgt)

    def wanted(self):
        """the version `install` was asked for"""
        return mk("fld", mk("fld", self.cmdt, "version", "Install"), "data", None)

    def check_target(self, st, e, tgt):
        c = self.nm.pathcomps(st, tgt)
        if c != ("build", self.wanted()):
            self.bad("C04", "wrong-target", "`current` is pointed at %s, not at the build that was asked for" % show(self.nm.base(st, tgt), 5)[:120], e)
            return
        # (a bare name leads to the directory of the link, which is the local store)
        if self.nm.side(st, tgt) != "local" and not nat.sepfree(st, tgt):
            self.bad("C04", "target-elsewhere", "`current` is pointed at a file outside the local store", e)
        if self.nm.within(tgt) == "local" and tgt.op == "app" and not nat.abspath(tgt):
            self.bad("C04", "target-relative", "the link target is a relative path that may not resolve", e)
        if not st.facts.get(self.have(c)):
            self.bad("C04", "target-missing", "`current` is pointed at a build that was not checked to be present", e)
        if not st.facts.get(self.full(c)):
            self.bad("C04", "target-empty", "`current` is pointed at a build that was not checked to be non-empty", e)

    # ---------------------------------------------------------------- content (C07, C08, C10, C22)
    def contof(self, t, d=0):
        """-> ('file', path) | ('s3', app) | ('z', x) | ('patched', patch, old) | None"""
        if d > 12:
            return None
        if t.op == "fld" and t.a[1] == "0" and t.a[2] in ("Ok", None) and t.a[0].op == "app":
            f = t.a[0]
            n = f.a[0]
            if n in ("std::fs::File::open", "std::fs::read"):
                return ("file", f.a[1][0])
            if n == OPENOPT:
                return ("file", f.a[1][1])
            if n.startswith("zstd::") and ("decode" in n.lower()):
                x = self.contof(f.a[1][0], d + 1)
                return ("z", x) if x else None
            if n.startswith("bipatch::") and n.endswith("::new"):
                a, b = self.contof(f.a[1][0], d + 1), self.contof(f.a[1][1], d + 1)
                return ("patched", a, b) if a and b else None
        if t.op == "app":
            n = t.a[0]
            if n == "content" or n.endswith(("Cursor::new", "BufReader::new")):
                return self.contof(t.a[1][0], d + 1)
            if n.endswith("::get_object"):
                return ("s3", t)
        if t.op == "mut":
            if t.a[0].op in ("app", "fld") and all(o.op == "app" and o.a[0].rsplit("::", 1)[-1] in NOT_READING for o in t.a[1]):
                return self.contof(t.a[0], d + 1)
        if t.op == "fld":
            return self.contof(t.a[0], d + 1) if any(x.op == "app" and x.a[0].endswith("::get_object") for x in subterms(t.a[0])) else None
        if t.op == "phi":
            r = {self.contof(m, d + 1) for m in t.a[0]}
            if len({(x[0], x[1].a[:2]) if x and x[0] == "s3" else x for x in r}) == 1:
                # if more than one, the same object, asked for again
                return min(r, key=lambda x: x[1].n) if None not in r and len(r) > 1 else r.pop()
        return None

    def s3key(self, t):
        for a in t.a[1]:
            if a.op == "agg" and "key" in a.a[2]:
                k = fld(a, "key")
                return fld(k, "0", "Some") if k.op == "agg" and k.a[0] == OPTION else k
        return None

    def samefile(self, st, dst, p, kind):
        """does the file at path/key `p` carry the name (up to canonical spelling) that dst is given"""
        nm = self.nm
        d = nm.pathcomps(st, dst)
        b = nm.base(st, p)
        s = nm.comps(b)
        if d == s:
            return True
        if d[0] == "build" and (s[0] == "build" or s[0] == "name"):
            return derived(d[1], np(p)) or derived(d[1], b)
        if d[0] == "patch":
            x, y = splitpiece(d[1]), splitpiece(d[2])
            if x and y and x[0] == 0 and y[0] == 1:
                return all(self.stemof(st, z, p, b, s) for z in x[1] + y[1])
        return False

    def stemof(self, st, z, p, b, s):
        """z: string that was cut into versions; is it the file name of p without its suffixes"""
        if derived(z, np(p)) or derived(z, b):
            return True
        if z.op == "phi":
            return all(self.stemof(st, m, p, b, s) for m in z.a[0])
        # name already folded: from---to
        for suf in (".patch.zst", ".zst"):
            q = cat([z, const(suf)])
            if q is b:
                return True
            if s[0] == "patch" and self.nm.comps(q) == s:
                return True
        return False

    def content(self, st, e, o, dst, side):
        nm = self.nm
        d = nm.pathcomps(st, dst)
        ops = st.ts.get(("ops", o), frozenset())
        cs = []
        for op in ops:
            k = op.a[0]
            if k in ("copy", "write_all"):
                cs.append((k, self.contof(op.a[1][0]), op))
            elif k == "diff":
                cs.append((k, (self.contof(op.a[1][0]), self.contof(op.a[1][1])), op))
            else:
                cs.append((k, None, op))
        kinds = {c[0] for c in cs}
        self.ob("C07", (e.key, self.cmd(st), side, d[0], tuple(sorted(kinds))), None)
        for h in getattr(self, "content_hooks", ()):
            h(st, e, dst, side, d)
        z = bool(st.ts.get(("z", o)))

        def no(rule, msg):
            self.bad("C07", rule, msg + " (stored as %s)" % show(nm.base(st, dst), 5)[:120], e)
        if kinds == {"tar"}:
            if not z:
                no("tar-uncompressed", "the archive is stored without compression")
            return
        if len(ops) != 1:
            no("mixed", "content comes from %d different sources" % len(ops))
            return
        k, c, op = cs[0]
        if k == "diff":
            if not z:
                no("diff-uncompressed", "the patch is stored without compression")
            if d[0] != "patch":
                no("diff-name", "a binary diff is not stored under a patch name")
                return
            for i, w in ((0, "old"), (1, "new")):
                x = c[i]
                if not x or x[0] != "z" or x[1][0] != "file":
                    no("diff-%s" % w, "the %s side of the diff is not the decompressed build" % w)
                elif nm.pathcomps(st, x[1][1]) != ("build", d[1 + i]) or nm.side(st, x[1][1]) != "local":
                    no("diff-%s" % w, "the %s side of the diff is %s" % (w, show(nm.base(st, x[1][1]), 4)[:80]))
            self.selfpatch(st, e, d)
            self.readback(st, e, d)
            return
        if c is None:
            no("unknown", "content has an unrecognised origin: %s" % show(op.a[1][0], 5)[:120])
            return
        if c[0] == "patched":
            if not z:
                no("patched-uncompressed", "the patched build is stored without compression")
            pt, old = c[1], c[2]
            if pt[0] != "z" or pt[1][0] != "file" or old[0] != "z" or old[1][0] != "file":
                no("patched-raw", "patch or old build are not decompressed before patching")
                return
            pc, oc = nm.pathcomps(st, pt[1][1]), nm.pathcomps(st, old[1][1])
            if pc[0] != "patch" or d[0] != "build" or pc[2] is not d[1]:
                no("patched-to", "the applied patch %s does not lead to the build" % show(nm.base(st, pt[1][1]), 4)[:80])
            elif oc != ("build", pc[1]):
                no("patched-from", "the patch is applied to %s" % show(nm.base(st, old[1][1]), 4)[:80])
            f = op.a[1][0]
            for y in subterms(f):
                if y.op == "app" and y.a[0].startswith("bipatch::") and y.a[0].endswith("::new") and not wholepatch(y.a[1][0]):
                    no("patch-stream", "the patch is read while it is applied, and the patch library takes an early end of it for its end: the build may be cut short")
            self.consecutive(st, e, pc)
            return
        if z:
            no("recompressed", "content is compressed once more")
        if c[0] == "z":
            no("decompressed", "content is stored decompressed")
            return
        src = c[1] if c[0] == "file" else self.s3key(c[1])
        if src is None or not self.samefile(st, dst, src, c[0]):
            no("copy-name", "content of %s" % (show(nm.base(st, src), 5)[:100] if src is not None else "?"))
        if c[0] == "s3":
            self.ob("C15", ("store", e.key, self.cmd(st)), None)
            if not all(st.facts.get(app("integrity", x)) for x in self.resources(op.a[1][0]) | {c[1]} if x.a[0].endswith("::get_object")):
                self.bad("C15", "unchecked-download", "a download is stored although its checksum was not compared", e)
        if d[0] == "build" or (c[0] == "file" and side == "local" and d[0] != "patch"):
            self.nonempty_source(st, e, c, src, dst, side)

    def nonempty_source(self, st, e, c, src, dst, side):
        if side != "local":
            return
        self.ob("C22", (e.key, self.cmd(st), c[0]), None)
        P = np(src)
        for t, v in st.facts.items():
            if v is True and t.op == "app" and t.a[0] == "lt" and t.a[1][0] is const(0):
                x = t.a[1][1]
                if c[0] == "s3" and x.op == "app" and x.a[0] == "len" and c[1] in set(subterms(x)):
                    return
                if c[0] == "s3" and x.op == "fld" and any(y is c[1] for y in subterms(x)):
                    return
                if c[0] == "file":
                    for y in subterms(x):
                        if ofmeta(y) and np(y.a[1][0]) is P:
                            return
                    if x.op == "app" and x.a[0] == "len" and self.contof(x.a[1][0]) == c:
                        return
                    if x.op == "fld" and x.a[1] == "size" and P.op == "fld" and x.a[0] is P.a[0]:
                        return
        self.bad("C22", "empty-source", "a build may be replaced by an empty file: the size of the source was not checked", e)

    def selfpatch(self, st, e, d):
        self.ob("C10", (e.key, self.cmd(st)), None)
        a, b = d[1], d[2]
        if a is b:
            self.bad("C10", "self", "a patch from a version to itself is written", e)
            return
        eq = self.E.compare("Eq", a, b)
        if self.E.boolval(st, eq) is not False:
            self.bad("C10", "maybe-self", "a patch is written without having checked that the two versions differ", e)

    def readback(self, st, e, d):
        """C11: parsing the name of the written patch gives the two versions it was computed from"""
        self.ob("C11", ("patch-name", e.key, self.cmd(st)), None)
        got = set()
        for t, v in st.facts.items():
            if v is True and t.op == "app" and t.a[0] == "eq":
                x, y = t.a[1]
                for a, b in ((x, y), (y, x)):
                    p = splitpiece(b)
                    if p is None:
                        continue
                    if not all(self.nm.comps(cat([z, const(".patch.zst")])) == d for z in p[1]):
                        continue
                    if a is d[1] and p[0] == 0:
                        got.add(0)
                    if a is d[2] and p[0] == 1:
                        got.add(1)
        if got != {0, 1}:
            self.bad("C11", "ambiguous-patch", "a patch is written without having checked that its file name reads back as the same two versions", e)

    def consecutive(self, st, e, pc):
        """C08: the applied patch joins neighbours of the path that was found"""
        self.ob("C08", ("apply", e.key, self.cmd(st)), None)
        def node(t):
            if t.op == "fld" and t.a[1] == "data":
                t = t.a[0]
            if t.op == "fld" and t.a[1] == "version" and t.a[0].op == "app" and t.a[0].a[0] == "index":
                t = t.a[0].a[1][1]
                if t.op == "app" and t.a[0] == "index" and t.a[1][1].op == "c":
                    return t.a[1][0], t.a[1][1].a[1]
            return None
        f, t = node(pc[1]), node(pc[2])
        if self.cmd(st) != "Install":
            return
        if not f or not t or f[0] is not t[0] or (f[1], t[1]) != (0, 1) or f[0].op != "elem" or "windows" not in show(f[0], 3):
            self.bad("C08", "not-neighbours", "the applied patch does not join two neighbouring builds of the upgrade path", e)

    # ---------------------------------------------------------------- object store
    def s3(self, st, e, last):
        if last in S3_READ:
            return
        self.remote_change(st, e, last)
        if last != "put_object":
            self.bad("C13", "s3-" + last, "objects of the remote store are changed by %s" % last, e)
            return
        req = e.args[1] if len(e.args) > 1 else None
        if req is None or req.op != "agg":
            self.bad("C15", "put-unknown", "upload request has an unrecognised form", e)
            return
        body = fld(req, "body")
        body = fld(body, "0", "Some") if body.op == "agg" and body.a[1] == "Some" else body
        md5 = fld(req, "content_md5")
        self.ob("C15", ("upload", e.key, self.cmd(st)), None)
        okm = False
        if md5.op == "agg" and md5.a[1] == "Some":
            m = md5.a[3][0]
            if m.op == "app" and "base64" in m.a[0] or m.op == "app" and "encode" in m.a[0]:
                for x in subterms(m):
                    if x.op == "app" and x.a[0] == "md5::compute" and strip(x.a[1][0]) is strip(body):
                        okm = True
        if not okm:
            self.bad("C15", "upload-md5", "an upload does not carry the checksum of its own body", e)
        key = self.s3key(e.t)
        c = self.contof(strip(body))
        self.ob("C14", ("put", e.key, self.cmd(st)), None)
        self.ob("C07", (e.key, self.cmd(st), "s3", "put"), None)
        if c is None or c[0] != "file" or key is None:
            self.bad("C07", "upload-unknown", "uploaded body has an unrecognised origin", e)
        elif self.nm.base(st, key) is not self.nm.base(st, c[1]) and self.nm.pathcomps(st, key) != self.nm.pathcomps(st, c[1]):
            self.bad("C07", "upload-name", "content of %s is uploaded as %s" % (show(self.nm.base(st, c[1]), 4)[:80], show(self.nm.base(st, key), 4)[:80]), e)
        for r in self.resources(body):
            if st.ts.get(("pend", r)) or "?" in st.st.get(r, ()) or "Err" in st.st.get(r, ()):
                self.bad("C15", "upload-partial", "uploaded body may be incomplete: a read error is not checked", e)
        self.eff.setdefault(e.t, []).append(("put", c, e))

    # ---------------------------------------------------------------- consequences of results
    def on_assume(self, E, st, t, v):
        if v == "Ok":
            for r in self.opres.get(t, ()):
                k = ("pend", r)
                s = st.ts.get(k)
                if s and t in s:
                    st.ts[k] = s - {t}
            for x in self.eff.get(t, ()):
                self.effect(st, x, t)
            if t.op == "app" and t.a[0] in (CANON, "std::path::Path::metadata", "std::fs::metadata", "std::fs::canonicalize"):
                self.present(st, t.a[1][0])
        elif v == "Err":
            for x in self.eff.get(t, ()):
                if x[0] == "created":
                    st.ts.pop(("file", np(x[1])), None)
                elif x[0] == "linked":
                    st.ts.pop(("link", np(x[1])), None)
        elif v is True and t.op == "app":
            f = t.a[0]
            if f in ("std::path::Path::exists", "std::path::Path::is_file", "std::path::Path::try_exists"):
                self.present(st, t.a[1][0])
            elif f == "lt" and t.a[1][0] is const(0):
                self.sized(st, t.a[1][1])
            if f in ("eq", "std::path::Path::exists"):
                self.already(st)
            if f == "eq":
                self.sumeq(st, t.a[1])
            elif f == "str::contains" and t.a[1][1] is const("-"):
                # multipart entity tags are no checksum of the content
                for g in self.tagof(t.a[1][0]):
                    st.facts[app("integrity", g)] = True

    def tagof(self, t):
        """downloads whose entity tag (and nothing of the content) the value is"""
        r = set()
        for x in subterms(t):
            if x.op == "app" and x.a[0] in ("content", "md5::compute"):
                return set()
            if x.op == "fld" and x.a[1] == "e_tag":
                r |= {y for y in subterms(x.a[0]) if y.op == "app" and y.a[0].endswith("::get_object")}
        return r

    def sumeq(self, st, ab):
        for x, y in (ab, ab[::-1]):
            for g in self.tagof(x):
                z = y
                while z.op == "app" and z.a[0] in HEXFMT:
                    z = z.a[1][0]
                w = x
                while w.op == "app" and w.a[0] in TAGFMT:
                    w = w.a[1][0]
                if w.op == "app" or any(k.op == "app" and k.a[0] in ("index", "slice") for k in subterms(w) if g in set(subterms(k))):
                    continue
                if z.op == "app" and z.a[0] == "md5::compute" and self.contof(z.a[1][0]) == ("s3", g):
                    st.facts[app("integrity", g)] = True

    def effect(self, st, x, t):
        k = x[0]
        if k == "created":
            st.ts[("file", np(x[1]))] = frozenset(["live"])
        elif k == "linked":
            st.ts[("link", np(x[1]))] = frozenset(["made"])
        elif k == "have":
            self.present(st, x[1])
        elif k == "tmpdir":
            st.ts[("tmp", t)] = frozenset(["live"])
        elif k == "renamed":
            src, dst = x[1], x[2]
            S_ = np(src)
            if ("file", S_) in st.ts:
                st.ts[("file", S_)] = frozenset(["published"])
            if np(dst) is self.current:
                if ("link", S_) in st.ts:
                    st.ts[("link", S_)] = frozenset(["used"])
                st.facts[app("installed")] = True
                return
            c = self.nm.pathcomps(st, dst)
            if self.nm.side(st, dst) == "local":
                st.facts.pop(self.full(c), None)
                self.present(st, dst)
                self.usable(st, c)
            for h in getattr(self, "publish_hooks", ()):
                h(st, x)
        elif k == "put":
            for h in getattr(self, "publish_hooks", ()):
                h(st, x)

    def present(self, st, p):
        if self.nm.side(st, p) == "local":
            c = self.nm.pathcomps(st, p)
            st.facts[self.have(c)] = True

    def sized(self, st, x):
        for y in subterms(x):
            if ofmeta(y):
                p = y.a[1][0]
                if self.nm.side(st, p) == "local":
                    c = self.nm.pathcomps(st, p)
                    if st.facts.get(self.have(c)):
                        st.facts[self.full(c)] = True
                        self.usable(st, c)

    def usable(self, st, c):
        """made by this run, or found there and not empty"""
        st.facts[app("usable", const(c[0]), *c[1:])] = True
        for h in getattr(self, "use_hooks", ()):
            h(st, c)

    def linkof(self, t):
        """the path `current` leads to"""
        t = np(t)
        if t.op == "fld" and t.a[1] == "0" and t.a[0].op == "app" and t.a[0].a[0] in ("std::fs::read_link", "std::path::Path::read_link"):
            return np(t.a[0].a[1][0]) is self.current
        return False

    def already(self, st):
        """install: `current` leads to the requested build in the local store, which is there and not empty"""
        version = place = size = False
        w = self.wanted()
        for t, v in st.facts.items():
            if v is not True or t.op != "app":
                continue
            if t.a[0] == "eq":
                for o, q in (t.a[1], t.a[1][::-1]):
                    if q is w:
                        version = version or any(self.linkof(s) and derived(o, s) for s in subterms(o) if s.op == "fld")
                    elif self.linkof(o) or np(o) is self.current:
                        c = self.nm.pathcomps(st, q)
                        if c == ("build", w) and self.nm.side(st, q) == "local" and st.facts.get(self.have(c)) and st.facts.get(self.full(c)):
                            st.facts[app("installed")] = True
                            return
                    elif o.op == "fld" and o.a[0].op == "app" and o.a[0].a[0].endswith("Path::parent") and self.linkof(o.a[0].a[1][0]):
                        place = place or np(q) is self.nm.local or np(q) is np(self.nm.local)
            elif t.a[0] == "lt" and t.a[1][0] is const(0):
                for s in subterms(t.a[1][1]):
                    if s.op == "app" and s.a[0].endswith("::metadata") and s.a[1] and (np(s.a[1][0]) is self.current or self.linkof(s.a[1][0])):
                        size = True
        if version and place and size:
            st.facts[app("installed")] = True

    # ---------------------------------------------------------------- unused hooks
    def on_agg(self, E, st, t, ctx, bb):
        """C11: no version is made of a string with a separator in it; C09: sizes are kept in full"""
        if "size" in t.a[2] and "path" in t.a[2]:
            fn = E.ctxkey(ctx)
            self.ob("C09", ("entry", fn, bb), None)
            if any(x.op == "app" and x.a[0] == "narrow" for x in subterms(fld(t, "size"))):
                self.bad("C09", "size-cut", "the size of a file is cut off to a smaller number: what is large looks cheap", where=E.where(ctx, bb)[:3], fn=fn)
        if not isversion(t.a[0]) or t.a[1]:
            return
        fn = E.ctxkey(ctx)
        self.ob("C11", ("version", fn, bb), None)
        for v in t.a[3]:
            if not dashfree(st, v):
                self.bad("C11", "version-dashes", "a version is made without having checked that it does not contain `---`", where=E.where(ctx, bb)[:3], fn=fn)
            if not nat.sepfree(st, v):
                self.bad("C11", "version-separator", "a version is made without having checked that it does not contain a path separator", where=E.where(ctx, bb)[:3], fn=fn)

    def versions(self, p):
        """what makes versions without having been seen in the run of `main` (parsers of arguments, unused conversions)"""
        done = {o[1] for o in self.obs.get("C11", {}) if o[0] == "version"}
        for key, b in p.bodies.items():
            if key in done or not any(s["s"] == "=" and s["r"].get("t") == "agg" and isversion(s["r"].get("adt"))
                                      for k in b["blocks"] for s in k["st"]):
                continue
            E = type(self.E)(p, [VersionOnly(self)])
            ctx = E.ctx(0, key, -1, "")
            E.exec_body(p.body(key), ctx, self.E.newstate(), [mk("sym", "p%d" % i) for i in range(b["args"])], purge=False, quiet=True)

    def on_next(self, E, st, site, terms, elem):
        pass

    def on_keep(self, E, st, v):
        pass

    def on_trunc(self, E, st, kind, site, e):
        pass

    # ---------------------------------------------------------------- end of a run
    def on_exit(self, st, e):
        self.leftovers(st, "exit", self.E.where(e.ctx, e.bb), e.key)

    def leftovers(self, st, kind, where, fn):
        for (k, p), v in [(k, v) for k, v in st.ts.items() if isinstance(k, tuple) and len(k) == 2]:
            if k == "file" and v & {"live", "maybe"} and self.nm.side(st, p) != "tmp":
                o = sorted(st.ts.get(("path", p), ()), key=lambda t: t.n)
                w = self.openers[o[0]][1] if o and o[0] in self.openers else None
                self.bad("C02", "leftover-" + kind, "a staging file may be left behind when the program ends (%s)" % kind,
                         where=(self.E.where(w.ctx, w.bb) if w else []) + where, fn=(self.E.ctxkey(self.E.ctxs[w.ctx][0]) if w else fn))
            elif k == "link" and v & {"made", "maybe"} and p is not self.current:
                self.bad("C02", "leftover-link-" + kind, "a staged link may be left behind when the program ends (%s)" % kind, where=where, fn=fn)
            elif k == "tmp" and "live" in v:
                self.bad("C02", "leftover-tmp-" + kind, "a temporary directory may be left behind when the program ends (%s)" % kind, where=where, fn=fn)


def kids(x):
    from terms import _kids
    return _kids(x.a)


def strip(t):
    """value without conversions that keep the bytes"""
    while t.op == "app" and t.a[0] in ("into", "from", "to_vec", "as_ref", "content_of") and t.a[1]:
        t = t.a[1][0]
    return t
