"""Packages: what reaches the archive and in which order (C16, C17)."""
from terms import *
from names import np

META_OK = {"len", "size", "permissions", "mode", "file_type", "is_file", "is_dir", "is_symlink", "readonly"}
VOLATILE = ("SystemTime::", "Instant::", "process::", "env::", "thread::", "Utc::", "Local::", "rand::", "random", "ThreadId::", "RandomState::",
            "TempDir::", "tempdir")
SETTERS = {"set_size", "set_mode", "set_cksum", "set_device_major", "set_device_minor", "set_path", "set_link_name", "set_link_name_literal",
           "set_entry_type", "set_mtime", "set_uid", "set_gid", "set_username", "set_groupname", "set_metadata", "set_metadata_in_mode"}
GETTERS = {"new_gnu", "new_ustar", "new_old", "size", "mode", "path", "path_bytes", "entry_type", "clone", "as_bytes", "as_gnu", "as_ustar", "as_old",
           "cksum", "mtime", "uid", "gid", "link_name", "username", "groupname", "entry_size"}


class Package:
    def __init__(self, E, M, C):
        self.E, self.M, self.C = E, M, C
        self.src = mk("fld", mk("fld", mk("fld", mk("sym", "args"), "cmd", None), "build", "AddPackage"), "path", None)

    def bad(self, prop, key, msg, e):
        self.M.bad(prop, key, msg, e)

    # ---- order
    def sorted_src(self, t):
        n = 0
        while n < 20:
            n += 1
            if t.op in ("fld", "mut", "it"):
                t = t.a[1] if t.op == "it" else t.a[0]
            elif t.op == "phi":
                ms = [m for m in t.a[0] if m.op != "moved"]
                return bool(ms) and all(self.sorted_src(m) for m in ms)
            elif t.op == "app" and t.a[0] == "walkdir::WalkDir::sorted":
                return True
            elif t.op == "app" and t.a[1] and t.a[0].startswith(("walkdir::", "reordered:")):
                if t.a[0].startswith("reordered:sortx") or t.a[0] == "walkdir::WalkDir::sort_by":
                    return False
                t = t.a[1][0]
            else:
                return False
        return False

    def on_next(self, E, st, site, terms, x):
        if x is None:
            return
        for k in self.C.tracks(x):
            if k == ("walk",):
                if E.cur_items is None:
                    ok = any(self.sorted_src(l.a[0]) for l in x.leaves if l.op == "elem") and not set(E.cur_tags or ()) & {"sortx"}
                    st.ts[("order",)] = frozenset([ok])
                else:
                    tags = set(E.cur_tags or ())
                    if "sortx" in tags or "hash" in tags:
                        st.ts[("order",)] = frozenset([False])
                    elif "sort" in tags or "set" in tags:
                        st.ts[("order",)] = frozenset([True])

    # ---- values
    def volatile(self, t):
        for x in subterms(t):
            if x.op != "app":
                continue
            l = x.a[0].rsplit("::", 1)[-1]
            s = short(x.a[0])
            if ("Metadata::" in s or "MetadataExt::" in x.a[0]) and l not in META_OK:
                return s
            if s.startswith(VOLATILE):
                return s
        return None

    def elem(self, t):
        """the directory entries a value was computed from"""
        return {x for x in subterms(t) if x.op == "elem" and self.C.tracks(x)}

    def on_event(self, E, st, e):
        nm = e.name
        l = nm.rsplit("::", 1)[-1]
        M = self.M
        if nm.startswith("walkdir::"):
            a = e.args
            if nm == "walkdir::WalkDir::new":
                M.ob("C17", ("root", e.span), None)
                if np(a[0]) is not self.src:
                    self.bad("C17", "root", "the packaged directory is not the one that was asked for", e)
            elif l in ("max_depth", "skip_current_dir") or l == "min_depth" and a[1] is not const(0) or l == "same_file_system" and a[1] is not FALSE:
                self.bad("C17", "limit-" + l, "part of the packaged directory is left out (%s)" % l, e)
        elif nm.startswith("tar::header::Header::"):
            M.ob("C16", (l, e.span), None)
            if l not in SETTERS | GETTERS:
                self.bad("C16", "header-" + l, "unclassified operation on an archive header (%s)" % l, e)
            elif l in ("set_mtime", "set_uid", "set_gid", "set_username", "set_groupname", "set_entry_type", "set_device_major", "set_device_minor") and e.args[1].op != "c" \
                    and not (e.args[1].op == "agg" and not e.args[1].a[3]):
                self.bad("C16", "header-" + l, "the archive header depends on more than names, contents and permissions (%s)" % l, e)
            elif l == "set_metadata" or l == "set_metadata_in_mode" and "Deterministic" not in show(e.args[2], 2):
                self.bad("C16", "header-" + l, "time stamps and owners of the file reach the archive header (%s)" % l, e)
            elif l in SETTERS:
                for x in e.args[1:]:
                    v = self.volatile(x)
                    if v:
                        self.bad("C16", "header-" + l, "the archive header depends on %s" % v, e)
            if l == "set_size":
                st.ts[("hdrsize",)] = frozenset([e.args[1]])
        elif nm == "tar::builder::Builder::mode":
            st.ts[("tarmode",)] = frozenset(["Deterministic" in show(e.args[1], 2)])
        elif nm.startswith("tar::builder::Builder::append"):
            self.append(st, e, l)

    def append(self, st, e, l):
        M = self.M
        a = e.args
        M.ob("C16", ("order", e.span), None)
        M.ob("C17", ("content", e.span), None)
        if l in ("append_dir_all", "append_dir"):
            self.bad("C16", "order-" + l, "entries are archived in the order in which the file system lists them (%s)" % l, e)
            return
        if False in st.ts.get(("order",), frozenset([False])):
            self.bad("C16", "order", "entries may be archived in the order in which the file system lists them", e)
        for x in a[1:]:
            v = self.volatile(x)
            if v:
                self.bad("C16", "entry-" + l, "the archive entry depends on %s" % v, e)
        if l not in ("append_data", "append_writer") and False in st.ts.get(("tarmode",), frozenset([False])):
            self.bad("C16", "mode", "time stamps and owners of the file reach the archive (%s without deterministic mode)" % l, e)
        if l == "append_data":
            path, data = a[2], a[3]
        elif l == "append_file":
            path, data = a[1], a[2]
        elif l == "append_path_with_name":
            path, data = a[2], None
            self.same(st, e, a[1], path)
        else:
            self.bad("C17", "unknown-" + l, "unclassified way to add an archive entry (%s)" % l, e)
            return
        es = self.relpath(e, path)
        if data is not None:
            f = self.datafile(data)
            if f is None:
                self.bad("C17", "content", "the content of an archive entry is not the complete content of the file", e)
            else:
                self.same(st, e, f, path)
            if l == "append_data":
                for s in st.ts.get(("hdrsize",), ()):
                    if not self.sizeof(s, es):
                        self.bad("C17", "size", "the size of an archive entry is not the size of the file", e)

    def entry_path(self, t):
        """the element whose path this is"""
        n = 0
        while n < 10:
            n += 1
            if t.op == "app" and t.a[0].rsplit("::", 1)[-1] in ("path", "into_path", "to_path_buf", "as_path", "canonicalize", "to_owned", "as_ref", "clone") and t.a[1]:
                t = t.a[1][0]
            elif t.op == "fld" and t.a[0].op in ("app", "elem"):
                t = t.a[0]
            elif t.op == "phi" and len({self.entry_path(m) for m in t.a[0] if m.op != "moved"}) == 1:
                return self.entry_path([m for m in t.a[0] if m.op != "moved"][0])
            elif t.op == "elem":
                return t if ("walk",) in self.C.tracks(t) else None
            else:
                return None
        return None

    def relpath(self, e, p):
        """the entry's path below the packaged directory (or its own name)"""
        t = p
        while t.op == "fld" and t.a[1] == "0":
            t = t.a[0]
        ms = t.a[0] if t.op == "phi" else (t,)
        r = None
        for m in ms:
            while m.op == "fld" and m.a[1] == "0":
                m = m.a[0]
            if m.op == "moved":
                continue
            if m.op == "app" and m.a[0].endswith("Path::strip_prefix"):
                x = self.entry_path(m.a[1][0])
                roots = m.a[1][1].a[0] if m.a[1][1].op == "phi" else (m.a[1][1],)
                for q in roots:
                    if not self.isroot(q):
                        self.bad("C17", "path", "the path of an archive entry is not relative to the packaged directory", e)
            elif m.op == "app" and m.a[0].endswith("file_name") or m.op == "fld" and m.a[0].op == "app" and m.a[0].a[0].endswith("file_name"):
                # the only entry when a file is packaged
                x = None
                if not any(k.op == "app" and k.a[0].endswith("is_file") and v is True and any(y is self.src for y in subterms(k)) for k, v in e.facts.items()) \
                        if getattr(e, "facts", None) else True:
                    self.bad("C17", "path", "the path of an archive entry is not its path in the packaged directory", e)
                continue
            else:
                x = None
            if x is None:
                self.bad("C17", "path", "the path of an archive entry is not its path in the packaged directory", e)
            r = x
        return r

    def isroot(self, q):
        q = np(q)
        n = 0
        while n < 6:
            n += 1
            if q is self.src:
                return True
            if q.op == "fld":
                q = np(q.a[0])
            elif q.op == "app" and (q.a[0] == "parent" or q.a[0].endswith("Path::parent") or q.a[0].rsplit("::", 1)[-1] in ("to_path_buf", "clone", "as_path", "to_owned", "unwrap_or")):
                q = np(q.a[1][0])
            else:
                return False
        return False

    def datafile(self, t):
        """path of the file whose complete content this is"""
        n = 0
        while n < 12:
            n += 1
            if t.op == "fld":
                t = t.a[0]
            elif t.op == "agg" and len(t.a[3]) == 1:
                t = t.a[3][0]
            elif t.op == "mut" and all(x.op == "app" and x.a[0].rsplit("::", 1)[-1] in ("by_ref", "metadata", "rewind") for x in t.a[1]):
                t = t.a[0]
            elif t.op == "app":
                l = t.a[0].rsplit("::", 1)[-1]
                s = short(t.a[0])
                if t.a[0] in ("std::fs::File::open", "std::fs::read"):
                    return t.a[1][0]
                if s in ("BufReader::new", "BufReader::with_capacity", "Cursor::new") or l in ("as_slice", "as_ref", "deref", "clone", "by_ref", "get_ref"):
                    t = t.a[1][-1 if l == "with_capacity" else 0]
                else:
                    return None
            else:
                return None
        return None

    def same(self, st, e, f, p):
        a = self.entry_path(f)
        b = {x for x in self.elem(p)}
        if a is None or b and a not in b:
            self.bad("C17", "content-other", "the content of an archive entry is not that of the file whose name it has", e)

    def sizeof(self, s, x):
        if s.op == "app" and s.a[0].rsplit("::", 1)[-1] in ("len", "size", "into", "from", "cast"):
            es = self.elem(s)
            return x is None or x in es
        if s.op == "cast":
            return self.sizeof(s.a[0], x)
        return False

    def on_assume(self, *a):
        pass

    on_agg = on_keep = on_trunc = on_assume
