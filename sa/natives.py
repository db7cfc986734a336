"""Models of library functions that only move values around.

Everything not listed here becomes an opaque application term (see Engine.external):
no behaviour is assumed for it beyond "may mutate what it gets by &mut and may run the
closures it gets".
"""
import collections
from terms import *

SKIP_BODIES = set()


class Call:
    __slots__ = ("E", "st", "info", "cn", "args", "at", "dt", "dh", "ctx", "bb", "tag", "diverges")

    def __init__(self, E, st, info, cn, args, at, dt, dh, ctx, bb, tag, diverges):
        self.E, self.st, self.info, self.cn, self.args = E, st, info, cn, args
        self.at, self.dt, self.dh, self.ctx, self.bb, self.tag, self.diverges = at, dt, dh, ctx, bb, tag, diverges

    def v(self, i):
        return self.E.V(self.st, self.args[i])

    def r(self, i):
        return self.E.resolve(self.st, self.args[i])

    def heads(self):
        return self.info.get("heads", [])

    def selfhead(self):
        return self.info.get("selfhead", "")


# ---------------------------------------------------------------- classification
PURE_CRATES = {"core", "alloc", "smol_str", "url", "humansize", "human_sort", "chrono", "petgraph", "md5",
               "base64", "clap", "structopt", "eyre", "color_eyre", "log", "lazy_static", "erreur", "rusoto_signature",
               "bytes", "once_cell", "itertools"}
PURE_STD = ("std::path::", "std::collections::", "std::ffi::", "std::time::SystemTime::duration_since", "std::fs::Metadata::",
            "std::fs::FileType::", "std::fs::DirEntry::path", "std::fs::DirEntry::file_name", "std::os::unix::fs::PermissionsExt::mode",
            "std::os::unix::fs::PermissionsExt::from_mode", "std::fs::Permissions::", "std::fs::OpenOptions::new",
            "std::fs::OpenOptions::write", "std::fs::OpenOptions::read", "std::fs::OpenOptions::create",
            "std::fs::OpenOptions::create_new", "std::fs::OpenOptions::truncate", "std::fs::OpenOptions::append",
            "std::time::Duration", "std::time::Instant", "std::sync::", "std::thread::sleep",
            "std::os::unix::ffi::", "std::os::unix::fs::MetadataExt", "std::os::unix::fs::OpenOptionsExt", "std::process::ExitCode",
            "std::process::id", "std::hash::", "std::num::", "std::str::", "std::string::", "std::ascii::", "std::any::")
FS_PATH = {"exists", "try_exists", "is_file", "is_dir", "is_symlink", "metadata", "symlink_metadata", "canonicalize",
           "read_link", "read_dir"}
PURE_EXT = {"Cursor::new", "BufReader::new", "BufWriter::new", "BufReader::with_capacity", "BufWriter::with_capacity",
            "DirEntry::path", "DirEntry::file_type", "DirEntry::file_name", "DirEntry::depth", "WalkDir::new", "WalkDir::sort_by",
            "WalkDir::sort_by_key", "WalkDir::sort_by_file_name", "WalkDir::max_depth", "WalkDir::min_depth", "WalkDir::follow_links",
            "WalkDir::contents_first", "WalkDir::same_file_system", "WalkDir::max_open", "IntoIter::filter_entry", "DirEntry::path_is_symlink",
            "TempDir::path", "NamedTempFile::path", "DiffParams::new", "S3Client::new", "Header::new_gnu", "Header::new_ustar", "Header::new_old",
            "Reference::is_tag", "Reference::name", "Reference::shorthand", "Reference::shorthand_bytes",
            "Commit::id", "Commit::time", "Time::seconds", "log_enabled", "runtime::Builder::new_multi_thread"}


def effectful(cn):
    cr = cn.split("::", 1)[0]
    sh = short(cn)
    if sh in PURE_EXT:
        return False
    if cn.startswith("std::path::Path::") and sh.split("::")[1] in FS_PATH:
        return True
    if cn.startswith(("core::io", "alloc::io")):
        return True
    if cr in ("core", "alloc") or cr not in ("std",) and cr in PURE_CRATES:
        return cn.endswith("StructOpt::from_args")
    if cr in ("str", "[T]") or cn.startswith("<") or cr in ("u8", "u16", "u32", "u64", "usize", "i32", "i64", "f64", "char", "bool", "i8", "u128", "slice"):
        return False
    if cr == "std":
        return not cn.startswith(PURE_STD)
    return True


INTERESTING = {"HashMap::contains_key", "HashMap::get", "HashMap::entry", "VacantEntry::insert", "Graph::add_node", "Graph::add_edge",
               "HashMap::insert", "Graph::node_weight_mut", "Graph::edge_weight_mut", "Graph::raw_nodes", "Graph::raw_edges",
               "astar::astar", "dijkstra::dijkstra", "Header::new_gnu", "WalkDir::new", "WalkDir::sort_by", "WalkDir::follow_links",
               "WalkDir::sort_by_file_name", "WalkDir::sort_by_key", "WalkDir::max_depth", "WalkDir::min_depth", "IntoIter::filter_entry",
               "WalkDir::same_file_system", "WalkDir::max_open",
               "WalkDir::contents_first", "md5::compute", "base64::encode::encode", "encode::encode", "Region::Custom",
               "OpenOptions::create_new", "OpenOptions::truncate", "HashMap::remove", "Graph::remove_node", "Graph::remove_edge",
               "HashMap::clear", "HashMap::retain"}


def interesting(cn):
    return short(cn) in INTERESTING


class _Any:
    def __contains__(self, x):
        return x.split("::", 1)[0] in PURE_CRATES or x.startswith(("str::", "[T]::", "u", "i", "f", "char")) or x.startswith("std::")


KNOWN_PURE = _Any()


NOMUT = {"Write::flush", "BufWriter::get_ref", "TempDir::path"}


def nomut(cn):
    return short(cn) in NOMUT


# ---------------------------------------------------------------- helpers
def one(st, t):
    return [(st, t)]


def length(E, st, t):
    t = E.V(st, t)
    if t.op == "agg" and t.a[0] == "array":
        return const(len(t.a[3]))
    if t.op == "c" and t.a[0] == "str":
        return const(len(t.a[1].encode()))
    if t.op == "c" and t.a[0] == "bytes":
        return const(len(t.a[1]))
    if t.op == "seq" and not t.a[1]:
        return const(0)
    return app("len", E.resolve(st, t))


def boolres(E, outs, st0):
    """[(state, python bool)] -> [(state, term)]"""
    return [(s, TRUE if b else FALSE) for s, b in outs]


def run_msg(c, s, clo):
    """lazily built messages: run for their events only"""
    f = c.E.V(s, clo)
    if f.op in ("clo", "fn"):
        s2 = s.copy()
        s2.dec = s.dec
        c.E.call_value(s2, f, [], c.ctx, c.bb, "msg")


def decs(st):
    return tuple(sorted(((t, v) for t, v in st.dec), key=lambda x: (x[0].n, str(x[1]))))


def adhoc(c, st, *parts):
    return mk("app", "adhoc", tuple(parts), None) if False else mk("adhoc", tuple(parts), decs(st))


# ---------------------------------------------------------------- formatting
def unpack_template(bs):
    """core::fmt::rt template -> list of str | int(arg index) | None"""
    out = []
    i = 0
    nxt = 0
    while i < len(bs):
        b = bs[i]
        i += 1
        if b == 0:
            break
        if b < 0x80:
            out.append(bytes(bs[i:i + b]).decode("utf8", "replace"))
            i += b
        elif b == 0x80:
            n = bs[i] | (bs[i + 1] << 8)
            i += 2
            out.append(bytes(bs[i:i + n]).decode("utf8", "replace"))
            i += n
        else:
            if b & 1:
                i += 4
            if b & 2:
                i += 2
            if b & 4:
                i += 2
            idx = nxt
            if b & 8:
                idx = bs[i] | (bs[i + 1] << 8)
                i += 2
            nxt = idx + 1
            out.append(("arg", idx, b & 7))
    return out


STRINGY = {"str", "&str", "alloc::string::String", "std::path::Display", "smol_str::SmolStr", "char", "&&str", "std::path::PathBuf",
           "alloc::borrow::Cow", "alloc::boxed::Box"}


def display(E, st, v, head, ctx, bb, tag):
    """-> [(state, string term)] of `{}`"""
    v = E.V(st, v)
    if v.op == "phi" and all(m.op in ("c",) for m in v.a[0]):
        return [(st, v)]
    if v.op == "c":
        if v.a[0] == "int":
            return [(st, const(str(v.a[1])))]
        if v.a[0] in ("str",):
            return [(st, v)]
    h = E.head_of(st, v) or head.lstrip("&")
    k = E.p.find_impl("core::fmt::Display", "fmt", h)
    if k and k in E.p.bodies:
        cell = (E.ctx(ctx, "fmtcell", bb, tag), 0)
        st.put(cell, const(""))
        a = v
        outs = E.inline(st, k, [a, mk("ref", cell, ())], ctx, bb, tag)
        res = []
        for s, _ in outs:
            t = s.get(cell) or unk("fmt")
            s.delete(cell)
            res.append((s, E.resolve(s, t)))
        return res
    if v.op in ("fargs",):
        return format_args(E, st, v, ctx, bb, tag)
    return [(st, E.resolve(st, v) if h in STRINGY or h.lstrip("&") in STRINGY or h.startswith("?") else app("display", E.resolve(st, v)))]


def format_args(E, st, fa, ctx, bb, tag):
    """-> [(state, string term)]"""
    fa = E.V(st, fa)
    if fa.op == "phi":
        out = []
        for i, m in enumerate(fa.a[0]):
            if m.op != "moved":
                out += format_args(E, st.copy(), m, ctx, bb, tag + "q%d" % i)
        return out
    if fa.op == "c":
        return [(st, fa)]
    if fa.op != "fargs":
        return [(st, app("format", E.resolve(st, fa)))]
    tpl, arr = fa.a
    arr = E.V(st, arr)
    args = list(arr.a[3]) if arr.op == "agg" else []
    work = [(st, [])]
    for n, p in enumerate(unpack_template(list(tpl))):
        nxt = []
        for s, parts in work:
            if isinstance(p, str):
                nxt.append((s, parts + [const(p)]))
                continue
            _, idx, fl = p
            if idx >= len(args):
                nxt.append((s, parts + [unk("fmtarg")]))
                continue
            a = E.V(s, args[idx])
            if a.op != "farg":
                nxt.append((s, parts + [app("fmt", E.resolve(s, a))]))
                continue
            kind, head, val = a.a
            if kind == "new_display" and not fl:
                for s2, t in display(E, s, val, head, ctx, bb, tag + "d%d" % n):
                    nxt.append((s2, parts + [t]))
            else:
                nxt.append((s, parts + [app(kind, E.resolve(s, val))]))
        work = nxt
    return [(s, cat(parts)) for s, parts in work]


# ---------------------------------------------------------------- handlers
H = {}


def reg(*names):
    def d(f):
        for n in names:
            H[n] = f
        return f
    return d


IDENT = """Deref::deref DerefMut::deref_mut Borrow::borrow BorrowMut::borrow_mut AsRef::as_ref AsMut::as_mut
String::as_str String::as_mut_str SmolStr::as_str PathBuf::as_path Path::as_os_str OsString::as_os_str OsStr::as_ref Path::new
Path::display Path::to_path_buf String::into_boxed_str Box::leak Box::new Rc::new Arc::new Pin::new_unchecked Pin::new Pin::as_mut Box::pin
IntoFuture::into_future hint::must_use core::hint::must_use String::as_bytes str::as_bytes Vec::as_slice Vec::as_mut_slice
ToOwned::to_owned OsStr::to_os_string String::from_utf8_lossy [T]::to_vec [T]::into_vec Vec::into_boxed_slice Vec::from str::to_owned
Path::into_path_buf PathBuf::into_os_string OsString::into_string_lossy str::to_string Path::to_string_lossy OsStr::to_string_lossy
Cow::into_owned Arc::clone Rc::clone StreamExt::boxed FutureExt::boxed convert::identity BufReader::new Cursor::new
BufWriter::get_mut BufWriter::get_ref Read::by_ref Write::by_ref Iterator::by_ref Option::as_ref Option::as_mut Option::as_deref
Result::as_ref Result::as_mut Result::as_deref Option::copied Option::cloned Option::as_deref_mut Iterator::fuse Arc::as_ref TempDir::path NamedTempFile::path
black_box hint::black_box ByteStream::into_async_read TReportReadProgress::report_progress Vec::into_iter Vec::drain Iterator::cloned Iterator::copied Iterator::peekable
TryStreamExt::into_stream StreamExt::fuse String::from String::into_bytes char::from String::into_string str::into_string
PathBuf::into_boxed_path Box::into_string SmolStr::to_string SmolStr::new smol_str::SmolStr::from str::as_ptr""".split()


def own(c, i=0):
    """the value of argument i; a call that turns a borrow into an owned value copies it"""
    a = c.args[i]
    if "&" in c.dt or not c.dt:
        return a
    return c.v(i)


def h_ident(c):
    return one(c.st, own(c)) if c.args else None


for _n in IDENT:
    H[_n] = h_ident


@reg("Deref::deref", "DerefMut::deref_mut")
def h_deref(c):
    return one(c.st, c.args[0])


@reg("BufReader::with_capacity")
def h_bufreader(c):
    return one(c.st, own(c, 1))


@reg("BufWriter::new", "BufWriter::with_capacity", "LineWriter::new")
def h_bufwriter(c):
    c.E.event(c.st, "bufwriter", (c.r(len(c.args) - 1),), None, c.ctx, c.bb, {})
    return one(c.st, c.args[-1])


@reg("ToOwned::to_owned", "Clone::clone")
def h_clone(c):
    return one(c.st, c.v(0))


@reg("Clone::clone_from")
def h_clone_from(c):
    a = c.args[0]
    if a.op == "ref":
        c.E.writeref(c.st, a.a[0], a.a[1], c.v(1))
        return one(c.st, UNIT)
    return None


@reg("ManuallyDrop::new", "mem::forget")
def h_forget(c):
    c.E.event(c.st, "forget", (c.r(0),), None, c.ctx, c.bb, {})
    return one(c.st, UNIT if c.cn.endswith("forget") else c.args[0])


@reg("mem::drop")
def h_drop(c):
    ty = c.at[0] if c.at else ""
    outs = c.E.drop_value(c.st, c.args[0], None, c.ctx, c.bb, ty)
    return [(s, UNIT) for s in outs]


@reg("mem::replace", "mem::take")
def h_memreplace(c):
    a = c.args[0]
    if a.op != "ref":
        h_symstore(c, c.args[1] if len(c.args) > 1 else NONE if c.dh.endswith("Option") else app("default", const(c.dh)))
        return None
    old = c.E.readref(c.st, a.a[0], a.a[1])
    new = c.args[1] if len(c.args) > 1 else app("default", const(c.dh))
    c.E.writeref(c.st, a.a[0], a.a[1], new)
    return one(c.st, old)


@reg("mem::swap")
def h_swap(c):
    a, b = c.args
    if a.op == "ref" and b.op == "ref":
        x = c.E.readref(c.st, a.a[0], a.a[1])
        y = c.E.readref(c.st, b.a[0], b.a[1])
        c.E.writeref(c.st, a.a[0], a.a[1], y)
        c.E.writeref(c.st, b.a[0], b.a[1], x)
        return one(c.st, UNIT)
    for p, q in ((a, b), (b, a)):
        if p.op != "ref":
            v = c.E.readref(c.st, q.a[0], q.a[1]) if q.op == "ref" else q
            c.E.event(c.st, "store", (c.E.resolve(c.st, p), c.E.resolve(c.st, v)), None, c.ctx, c.bb)
    return None


# --- conversions
STRLIKE = STRINGY | {"std::path::Path", "std::ffi::os_str::OsStr", "std::ffi::os_str::OsString", "&std::path::Path", "&std::ffi::os_str::OsStr",
                     "&alloc::string::String", "&std::path::PathBuf", "alloc::vec::Vec", "alloc::rcs::arc::Arc", "alloc::rcs::rc::Rc",
                     "rusoto_signature::stream::ByteStream", "eyre::Report", "bytes::bytes::Bytes", "alloc::sync::Arc"}


@reg("From::from", "Into::into")
def h_into(c):
    hs = c.heads()
    if c.cn.endswith("Into::into"):
        src, dst = (hs + ["", ""])[:2]
    else:
        dst, src = (hs + ["", ""])[:2]
        if not src and c.at:
            src = c.at[0]
    k = None
    for h, ta, key in c.E.p.implfn.get(("core::convert::From", "from"), ()):
        if h == dst and (not ta or ta[0] == src):
            k = key
    if k:
        return c.E.inline(c.st, k, [c.args[0]], c.ctx, c.bb, "into")
    k = None
    for h, ta, key in c.E.p.implfn.get(("core::convert::Into", "into"), ()):
        if h == src:
            k = key
    if k:
        return c.E.inline(c.st, k, [c.args[0]], c.ctx, c.bb, "into")
    if dst in ("core::option::Option",) and src != dst:
        return one(c.st, some(own(c)))
    if dst == "eyre::Report":
        return one(c.st, mk("adhoc", (c.r(0),), decs(c.st)))
    return one(c.st, own(c))


@reg("str::parse", "FromStr::from_str")
def h_parse(c):
    hs = c.heads()
    dst = c.selfhead() if c.cn.endswith("from_str") else (hs[0] if hs else "")
    k = c.E.p.find_impl("core::str::traits::FromStr", "from_str", dst)
    if k and k in c.E.p.bodies:
        return c.E.inline(c.st, k, [c.args[0]], c.ctx, c.bb, "parse")
    if dst in STRLIKE:
        return one(c.st, ok(own(c)))
    return one(c.st, app("parse", const(dst), c.r(0)))


@reg("TryInto::try_into", "TryFrom::try_from")
def h_tryinto(c):
    hs = c.heads()
    if c.cn.endswith("try_into"):
        src, dst = (hs + ["", ""])[:2]
    else:
        dst, src = (hs + ["", ""])[:2]
    cands = c.E.p.implfn.get(("core::convert::TryFrom", "try_from"), ())
    for h, ta, key in cands:
        if h == dst and (not ta or ta[0] == src) and key in c.E.p.bodies:
            return c.E.inline(c.st, key, [c.args[0]], c.ctx, c.bb, "tryinto")
    for h, ta, key in c.E.p.implfn.get(("core::convert::From", "from"), ()):
        if h == dst and (not ta or ta[0] == src) and key in c.E.p.bodies:
            return [(s, ok(v)) for s, v in c.E.inline(c.st, key, [c.args[0]], c.ctx, c.bb, "tryinto")]
    if dst in STRLIKE and src.lstrip("&") in STRLIKE:
        return one(c.st, ok(own(c)))
    return one(c.st, app("try_into", const(dst), c.r(0)))


@reg("ToString::to_string")
def h_to_string(c):
    h = c.selfhead()
    return display(c.E, c.st, c.args[0], h, c.ctx, c.bb, "ts")


# --- comparison
def cmp_terms(c, op):
    a, b = c.v(0), c.v(1)
    # workspace equality
    h = c.E.head_of(c.st, a) or c.E.head_of(c.st, b) or c.selfhead().lstrip("&")
    k = c.E.p.find_impl("core::cmp::PartialEq", "eq", h)
    if k and k in c.E.p.bodies:
        outs = c.E.inline(c.st, k, [a, b], c.ctx, c.bb, "eq")
        if op == "Ne":
            res = []
            for s, v in outs:
                v = c.E.V(s, v)
                if v.op == "phi":
                    v = phi([c.E.neg(m) for m in v.a[0]])
                else:
                    v = c.E.neg(v)
                res.append((s, v))
            return res
        return outs
    if a.op == "agg" and a.a[0] in (OPTION, RESULT) or b.op == "agg" and b.a[0] in (OPTION, RESULT):
        en = a.a[0] if a.op == "agg" else b.a[0]
        out = []
        for s, va, pa in c.E.split(c.st.copy(), a, en):
            for s2, vb, pb in c.E.split(s.copy(), b, en):
                if va != vb:
                    out.append((s2, FALSE if op == "Eq" else TRUE))
                elif pa is None or pb is None:
                    out.append((s2, TRUE if op == "Eq" else FALSE))
                else:
                    inner = Call(c.E, s2, dict(c.info, selfhead=""), c.cn, [pa, pb], ["", ""], "bool", "bool", c.ctx, c.bb, c.tag + "o", False)
                    out += cmp_terms(inner, op)
        return out
    ra, rb = c.E.resolve(c.st, a), c.E.resolve(c.st, b)
    if ra.op == "agg" and rb.op == "agg" and ra.a[0] == "tuple" and rb.a[0] == "tuple" and len(ra.a[3]) == len(rb.a[3]):
        ts = [c.E.compare("Eq", strip_data(x), strip_data(y)) for x, y in zip(ra.a[3], rb.a[3])]
        if any(t is FALSE for t in ts):
            r = FALSE
        else:
            ts = [t for t in ts if t is not TRUE]
            r = TRUE if not ts else ts[0] if len(ts) == 1 else app("and", *ts)
        return one(c.st, r if op == "Eq" else c.E.neg(r))
    return one(c.st, c.E.compare(op, ra, rb))


def strip_data(t):
    if t.op == "agg" and len(t.a[3]) == 1 and t.a[2] == ("data",):
        return t.a[3][0]
    return t


@reg("PartialEq::eq", "Ord::eq")
def h_eq(c):
    return cmp_terms(c, "Eq")


@reg("PartialEq::ne")
def h_ne(c):
    return cmp_terms(c, "Ne")


@reg("PartialOrd::lt", "PartialOrd::le", "PartialOrd::gt", "PartialOrd::ge")
def h_ord(c):
    if "log::Level" in (c.at[0] if c.at else ""):
        return one(c.st, app("log_enabled", const(str(c.E.site(c.ctx, c.bb)))))
    op = {"lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge"}[c.cn.rsplit("::", 1)[1]]
    return one(c.st, c.E.compare(op, c.r(0), c.r(1)))


@reg("log::max_level")
def h_maxlevel(c):
    return one(c.st, mk("sym", "log::max_level"))


@reg("intrinsics::discriminant_value", "mem::discriminant")
def h_discr(c):
    v = c.v(0)
    ad = None
    h = v.a[0] if v.op == "agg" else (c.heads() or [""])[0]
    if v.op == "agg":
        a = c.E.p.adts.get(v.a[0])
        if a:
            names = [x["name"] for x in a["vars"]]
            if v.a[1] in names:
                return one(c.st, const(names.index(v.a[1])))
    return one(c.st, app("discriminant", c.r(0)))


@reg("bool::then", "bool::then_some")
def h_then(c):
    b = c.v(0)
    k = c.E.boolval(c.st, b)
    out = []
    for want in (True, False):
        if k is not None and k != want:
            continue
        s = c.st.copy()
        if k is None and b.op != "phi":
            c.E.assume_bool(s, b, want)
        if not want:
            out.append((s, NONE))
        elif c.cn.endswith("then_some"):
            out.append((s, some(c.args[1])))
        else:
            out += [(s2, some(v)) for s2, v in c.E.call_value(s, c.args[1], [], c.ctx, c.bb, "then")]
    return out


# --- Option / Result
def enum_of(c):
    return RESULT if "result::Result" in c.cn else OPTION


GOOD = {"Some", "Ok"}


def comb(c, good, bad, recv=0):
    """split the receiver; good(s, payload) / bad(s, payload) -> [(s, term)]"""
    en = enum_of(c)
    out = []
    for s, v, p in c.E.split(c.st, c.args[recv], en):
        if v in GOOD:
            out += good(s, p)
        else:
            out += bad(s, p)
    return out


def wrapg(c):
    return (lambda p: ok(p)) if enum_of(c) == RESULT else (lambda p: some(p))


def rebuild_bad(c):
    return (lambda s, p: [(s, err(p))]) if enum_of(c) == RESULT else (lambda s, p: [(s, NONE)])


@reg("Option::map", "Result::map")
def h_map(c):
    w = wrapg(c)
    return comb(c, lambda s, p: [(s2, w(v)) for s2, v in c.E.call_value(s, c.args[1], [p], c.ctx, c.bb, "map")], rebuild_bad(c))


@reg("Option::and_then", "Result::and_then")
def h_and_then(c):
    return comb(c, lambda s, p: c.E.call_value(s, c.args[1], [p], c.ctx, c.bb, "at"), rebuild_bad(c))


@reg("Option::or_else", "Result::or_else")
def h_or_else(c):
    w = wrapg(c)
    args = (lambda p: [p]) if enum_of(c) == RESULT else (lambda p: [])
    return comb(c, lambda s, p: [(s, w(p))], lambda s, p: c.E.call_value(s, c.args[1], args(p), c.ctx, c.bb, "oe"))


@reg("Option::or", "Result::or")
def h_or(c):
    w = wrapg(c)
    return comb(c, lambda s, p: [(s, w(p))], lambda s, p: [(s, c.args[1])])


@reg("Option::and", "Result::and")
def h_and(c):
    return comb(c, lambda s, p: [(s, c.args[1])], rebuild_bad(c))


@reg("Option::xor")
def h_xor(c):
    return one(c.st, app("Option::xor", c.r(0), c.r(1)))


@reg("Option::zip")
def h_optzip(c):
    out = []
    for s, v, p in c.E.split(c.st, c.args[0], OPTION):
        if v == "None":
            out.append((s, NONE))
            continue
        for s2, v2, p2 in c.E.split(s, c.args[1], OPTION):
            out.append((s2, NONE if v2 == "None" else some(tup(p, p2))))
    return out


@reg("Result::map_err")
def h_map_err(c):
    def bad(s, p):
        d = s.dec
        out = []
        for s2, v in c.E.call_value(s, c.args[1], [p], c.ctx, c.bb, "me"):
            v = c.E.V(s2, v)
            # an error converted by a closure keeps its origin
            if p is not None and v is not p and not any(x is p for x in subterms(v)):
                v = mk("adhoc", (v, p), tuple())
            s2.dec = d
            out.append((s2, err(v)))
        return out
    return comb(c, lambda s, p: [(s, ok(p))], bad)


@reg("Option::ok_or_else", "Option::ok_or")
def h_ok_or(c):
    def bad(s, p):
        if c.cn.endswith("ok_or"):
            return [(s, err(c.args[1]))]
        d = s.dec
        out = []
        for s2, v in c.E.call_value(s, c.args[1], [], c.ctx, c.bb, "oo"):
            s2.dec = d
            out.append((s2, err(v)))
        return out
    return comb(c, lambda s, p: [(s, ok(p))], bad)


@reg("Result::ok")
def h_ok(c):
    return comb(c, lambda s, p: [(s, some(p))], lambda s, p: [(s, NONE)])


@reg("Result::err")
def h_err(c):
    return comb(c, lambda s, p: [(s, NONE)], lambda s, p: [(s, some(p))])


@reg("Option::is_some", "Result::is_ok")
def h_is_good(c):
    return comb(c, lambda s, p: [(s, TRUE)], lambda s, p: [(s, FALSE)])


@reg("Option::is_none", "Result::is_err")
def h_is_bad(c):
    return comb(c, lambda s, p: [(s, FALSE)], lambda s, p: [(s, TRUE)])


@reg("Option::is_some_and", "Result::is_ok_and")
def h_is_and(c):
    return comb(c, lambda s, p: c.E.call_value(s, c.args[1], [p], c.ctx, c.bb, "ia"), lambda s, p: [(s, FALSE)])


@reg("Option::is_none_or")
def h_is_none_or(c):
    return comb(c, lambda s, p: c.E.call_value(s, c.args[1], [p], c.ctx, c.bb, "ia"), lambda s, p: [(s, TRUE)])


@reg("Result::is_err_and")
def h_is_err_and(c):
    return comb(c, lambda s, p: [(s, FALSE)], lambda s, p: c.E.call_value(s, c.args[1], [p], c.ctx, c.bb, "ia"))


@reg("Option::unwrap_or_default", "Result::unwrap_or_default")
def h_uod(c):
    d = {"bool": FALSE, "u64": const(0), "usize": const(0), "u32": const(0), "i64": const(0), "i32": const(0),
         "alloc::string::String": const(""), "alloc::vec::Vec": seq((), ())}.get(c.dh)
    if d is None:
        d = app("default", const(c.dh))
    return comb(c, lambda s, p: [(s, p)], lambda s, p: [(s, d)])


@reg("Option::unwrap_or", "Result::unwrap_or")
def h_uo(c):
    return comb(c, lambda s, p: [(s, p)], lambda s, p: [(s, c.args[1])])


@reg("Option::unwrap_or_else", "Result::unwrap_or_else")
def h_uoe(c):
    args = (lambda p: [p]) if enum_of(c) == RESULT else (lambda p: [])
    return comb(c, lambda s, p: [(s, p)], lambda s, p: c.E.call_value(s, c.args[1], args(p), c.ctx, c.bb, "uoe"))


@reg("Option::map_or", "Result::map_or")
def h_mapor(c):
    return comb(c, lambda s, p: c.E.call_value(s, c.args[2], [p], c.ctx, c.bb, "mo"), lambda s, p: [(s, c.args[1])])


@reg("Option::map_or_else", "Result::map_or_else")
def h_mapore(c):
    args = (lambda p: [p]) if enum_of(c) == RESULT else (lambda p: [])
    return comb(c, lambda s, p: c.E.call_value(s, c.args[2], [p], c.ctx, c.bb, "mo"),
                lambda s, p: c.E.call_value(s, c.args[1], args(p), c.ctx, c.bb, "me"))


@reg("Option::filter")
def h_ofilter(c):
    def good(s, p):
        out = []
        for s2, v in c.E.call_value(s, c.args[1], [p], c.ctx, c.bb, "of"):
            v = c.E.V(s2, v)
            b = c.E.boolval(s2, v)
            for want in (True, False):
                if b is not None and b != want:
                    continue
                s3 = s2.copy()
                if b is None and v.op != "phi":
                    c.E.assume_bool(s3, v, want)
                out.append((s3, some(p) if want else NONE))
        return out
    return comb(c, good, lambda s, p: [(s, NONE)])


@reg("Option::transpose", "Result::transpose")
def h_transpose(c):
    if enum_of(c) == OPTION:
        def good(s, p):
            return [(s2, ok(some(x)) if v == "Ok" else err(x)) for s2, v, x in c.E.split(s, p, RESULT)]
        return comb(c, good, lambda s, p: [(s, ok(NONE))])

    def good(s, p):
        return [(s2, some(ok(x)) if v == "Some" else NONE) for s2, v, x in c.E.split(s, p, OPTION)]
    return comb(c, good, lambda s, p: [(s, some(err(p)))])


@reg("Option::flatten", "Result::flatten")
def h_oflatten(c):
    return comb(c, lambda s, p: [(s, p)], rebuild_bad(c))


@reg("Option::inspect", "Result::inspect", "Result::inspect_err")
def h_inspect(c):
    w = wrapg(c)
    ie = c.cn.endswith("inspect_err")

    def run(s, p):
        return [s2 for s2, _ in c.E.call_value(s, c.args[1], [p], c.ctx, c.bb, "in")]
    return comb(c, lambda s, p: [(s2, w(p)) for s2 in ([s] if ie else run(s, p))],
                lambda s, p: [(s2, err(p) if enum_of(c) == RESULT else NONE) for s2 in (run(s, p) if ie else [s])])


def h_symstore(c, v):
    """into a place known by its value only"""
    c.E.event(c.st, "store", (c.E.resolve(c.st, c.args[0]), c.E.resolve(c.st, v)), None, c.ctx, c.bb)


@reg("Option::insert", "Option::get_or_insert")
def h_oinsert(c):
    if c.args[0].op != "ref":
        h_symstore(c, some(c.args[1]))
    return None


@reg("Entry::or_insert_with", "Entry::or_insert_with_key")
def h_orinsert(c):
    e = c.r(0)
    out = []
    if c.E.variant_of(c.st, e) != "Vacant":
        s = c.st.copy()
        c.E.assume_variant(s, e, "Occupied")
        out.append((s, app(c.cn, e)))
    if c.E.variant_of(c.st, e) != "Occupied":
        s = c.st.copy()
        c.E.assume_variant(s, e, "Vacant")
        for s2, v in c.E.call_value(s, c.args[1], [fld(e, "key")] if c.cn.endswith("key") else [], c.ctx, c.bb, "oi"):
            v = c.E.V(s2, v)
            out.append((s2, v if v.op == "app" else app(c.cn, e)))
    return out


@reg("HashMap::insert", "BTreeMap::insert")
def h_mapinsert(c):
    outs = c.E.external(c)
    for s, _ in outs:
        a = c.args[0]
        if a.op == "ref":
            s.facts[app(c.cn.replace("::insert", "::contains_key"), c.E.resolve(s, a), c.E.resolve(s, c.args[1]))] = True
    return outs


@reg("HashMap::contains_key", "BTreeMap::contains_key")
def h_contains(c):
    m = c.r(0)
    if not (m.op == "app" and m.a[0] == "default"):
        return None
    c.st.facts[app(c.cn, m, c.r(1))] = False
    return one(c.st, FALSE)


@reg("Iterator::eq", "Iterator::ne")
def h_itereq(c):
    a, b = c.r(0), c.r(1)
    if not (a.op == b.op == "seq" and not a.a[0] and not b.a[0]):
        return None
    return one(c.st, c.E.compare(c.cn.rsplit("::", 1)[1].capitalize(), a, b))


@reg("Option::take", "Option::replace")
def h_otake(c):
    a = c.args[0]
    if a.op != "ref":
        h_symstore(c, NONE if c.cn.endswith("take") else some(c.args[1]))
        return None
    old = c.E.readref(c.st, a.a[0], a.a[1])
    c.E.writeref(c.st, a.a[0], a.a[1], NONE if c.cn.endswith("take") else some(c.args[1]))
    return one(c.st, old)


@reg("Option::unwrap", "Option::expect", "Result::unwrap", "Result::expect", "Result::unwrap_err", "Result::expect_err",
     "Option::unwrap_unchecked")
def h_unwrap(c):
    inv = c.cn.endswith("_err")
    recv = c.r(0)

    def pan(s, p):
        c.E.event(s, "panic", (recv,), None, c.ctx, c.bb, {"what": short(c.cn), "err": p})
        return []
    if inv:
        return comb(c, pan, lambda s, p: [(s, p)])
    return comb(c, lambda s, p: [(s, p)], pan)


@reg("Try::branch")
def h_branch(c):
    sh = c.selfhead()
    v = c.v(0)
    en = RESULT if "Result" in sh else OPTION if "Option" in sh else None
    if en is None:
        if v.op == "agg" and v.a[0] == POLL:
            return None
        if "ControlFlow" in sh:
            return one(c.st, v)
        return None
    out = []
    for s, vr, p in c.E.split(c.st, c.args[0], en):
        if vr in GOOD:
            out.append((s, agg(CF, "Continue", ("0",), (p,))))
        else:
            out.append((s, agg(CF, "Break", ("0",), (err(p) if en == RESULT else NONE,))))
    return out


@reg("FromResidual::from_residual")
def h_residual(c):
    return one(c.st, c.v(0))


@reg("Try::from_output")
def h_from_output(c):
    if "Option" in c.dh:
        return one(c.st, some(c.args[0]))
    return one(c.st, ok(c.args[0]))


# --- errors
@reg("WrapErr::wrap_err", "WrapErr::context", "WrapErr::wrap_err_with", "WrapErr::with_context", "Section::note", "Section::suggestion",
     "Section::warning", "Section::with_suggestion", "Section::with_note", "Section::with_warning", "Section::section",
     "Section::with_section", "Section::error", "Section::with_error", "Section::suppress_backtrace", "Context::context", "Context::with_context")
def h_wrap(c):
    if "Report" in (c.at[0] if c.at else "") and "Result" not in (c.at[0] if c.at else ""):
        return one(c.st, c.args[0])
    out = []
    en = OPTION if "Option" in c.selfhead() else RESULT
    for s, v, p in c.E.split(c.st, c.args[0], en):
        if v in GOOD:
            out.append((s, ok(p)))
        else:
            if len(c.args) > 1 and "with" in c.cn.rsplit("::", 1)[1]:
                run_msg(c, s, c.args[1])
            if p is None:
                p = mk("adhoc", (const("none"),), decs(s))
            out.append((s, err(p)))
    return out


@reg("Report::wrap_err")
def h_rwrap(c):
    return one(c.st, c.args[0])


@reg("Report::new", "Report::msg", "private::new_adhoc", "private::format_err", "eyre::eyre")
def h_adhoc(c):
    v = c.v(0) if c.args else UNIT
    if v.op == "fargs":
        outs = format_args(c.E, c.st, v, c.ctx, c.bb, "fe")
        return [(s, mk("adhoc", (t,), decs(s))) for s, t in outs]
    return one(c.st, mk("adhoc", (c.r(0),), decs(c.st)))


# --- formatting
@reg("Arguments::new", "Arguments::from_str", "Arguments::new_const", "Arguments::new_v1")
def h_args(c):
    v = c.v(0)
    if c.cn.endswith("from_str"):
        return one(c.st, v)
    if v.op == "c" and v.a[0] == "bytes":
        return one(c.st, mk("fargs", v.a[1], c.E.resolve(c.st, c.args[1])))
    return None


def h_argument(c):
    kind = c.cn.rsplit("::", 1)[1]
    return one(c.st, mk("farg", kind, (c.heads() or [""])[0], c.args[0]))


for _k in ("new_display", "new_debug", "new_lower_hex", "new_upper_hex", "new_octal", "new_binary", "new_pointer", "new_lower_exp", "from_usize"):
    H["Argument::" + _k] = h_argument


@reg("fmt::format", "alloc::fmt::format")
def h_format(c):
    return format_args(c.E, c.st, c.args[0], c.ctx, c.bb, "f")


def append_cell(c, s, ref, t):
    """append to String/OsString/formatter cell"""
    ms = ref
    n = 0
    while ms.op == "ref":
        v = c.E.readref(s, ms.a[0], ms.a[1])
        if v.op == "ref" and n < 10:
            ms = v
            n += 1
            continue
        c.E.writeref(s, ms.a[0], ms.a[1], cat([v, t]) if v.op not in ("unk",) else v)
        return True
    return False


@reg("Formatter::write_fmt", "Formatter::write_str", "Formatter::pad", "fmt::Write::write_str", "fmt::Write::write_fmt", "fmt::Write::write_char", "Formatter::write_char")
def h_fwrite(c):
    out = []
    if c.cn.endswith("write_fmt"):
        outs = format_args(c.E, c.st, c.args[1], c.ctx, c.bb, "wf")
    else:
        outs = [(c.st, c.r(1))]
    for s, t in outs:
        if not append_cell(c, s, c.args[0], t):
            return None
        out.append((s, ok(UNIT)))
    return out


@reg("Write::write_str", "Write::write_fmt", "Write::write_char")
def h_tw(c):
    if c.cn.startswith("core::fmt"):
        return h_fwrite(c)
    if c.cn.endswith("write_fmt"):      # io::Write::write_fmt
        # resolves to write_all on the receiver
        for s, t in format_args(c.E, c.st, c.args[1], c.ctx, c.bb, "wf")[:1]:
            c2 = Call(c.E, s, c.info, c.cn.replace("write_fmt", "write_all"), [c.args[0], t], c.at, c.dt, c.dh, c.ctx, c.bb, c.tag, False)
            h = c.E.head_of(s, c.args[0])
            k = h and c.E.p.find_impl("core::io::write::Write", "write_all", h)
            if k:
                return c.E.inline(s, k, [c.args[0], t], c.ctx, c.bb, "wfmt")
            return c.E.external(c2)
    return None


@reg("Formatter::debug_tuple", "Formatter::debug_struct", "Formatter::debug_list", "DebugTuple::field", "DebugStruct::field", "DebugTuple::finish", "DebugStruct::finish",
     "Formatter::debug_struct_field1_finish", "Formatter::debug_struct_field2_finish", "Formatter::debug_struct_field3_finish",
     "Formatter::debug_struct_field4_finish", "Formatter::debug_tuple_field1_finish")
def h_dbg(c):
    return one(c.st, ok(UNIT) if "finish" in c.cn else UNIT)


# --- strings and paths
@reg("String::push", "String::push_str", "OsString::push")
def h_push_str(c):
    t = c.r(1)
    if append_cell(c, c.st, c.args[0], t):
        return one(c.st, UNIT)
    return None


@reg("PathBuf::push")
def h_path_push(c):
    a = c.args[0]
    while a.op == "ref":
        v = c.E.readref(c.st, a.a[0], a.a[1])
        if v.op == "ref":
            a = v
            continue
        c.E.writeref(c.st, a.a[0], a.a[1], app("join", c.E.resolve(c.st, v), c.r(1)))
        return one(c.st, UNIT)
    return None


@reg("PathBuf::set_file_name", "PathBuf::set_extension", "PathBuf::pop")
def h_path_setfn(c):
    a = c.args[0]
    while a.op == "ref":
        v = c.E.readref(c.st, a.a[0], a.a[1])
        if v.op == "ref":
            a = v
            continue
        op = {"set_file_name": "with_file_name", "set_extension": "with_extension", "pop": "parent"}[c.cn.rsplit("::", 1)[1]]
        c.E.writeref(c.st, a.a[0], a.a[1], app(op, c.E.resolve(c.st, v), *[c.r(i) for i in range(1, len(c.args))]))
        return one(c.st, UNIT if not c.dh == "bool" else app("popped"))
    return None


@reg("Path::join")
def h_join(c):
    return one(c.st, app("join", c.r(0), c.r(1)))


@reg("Path::with_file_name", "Path::with_extension")
def h_wfn(c):
    return one(c.st, app(c.cn.rsplit("::", 1)[1], c.r(0), c.r(1)))


NUMERIC = ("as_nanos", "as_millis", "as_micros", "as_secs", "process::id", "subsec_nanos", "thread::id", "as_raw")


def sepfree(st, t, d=0):
    """the string cannot contain a path separator (relies on facts, and on `data` of a version being checked: rule C11)"""
    if d > 30:
        return False
    o = t.op
    if o == "c":
        return "/" not in str(t.a[1])
    if o == "phi":
        return all(m.op == "moved" or sepfree(st, m, d + 1) for m in t.a[0])
    if o == "cat":
        return nosep_fact(st, t) or sepfree_parts(st, t.a[0], d)
    if o == "fld" and t.a[1] == "data":
        return True
    if o == "app":
        f = t.a[0]
        if f in ("file_name", "file_stem", "extension", "basename", "strtail"):
            return True
        if f == "display" or f.startswith("new_"):
            x = t.a[1][0]
            return x.op == "app" and x.a[0].endswith(NUMERIC) or x.op == "c" or sepfree(st, x, d + 1)
        if f.endswith(NUMERIC):
            return True
        if f in ("index",):
            return sepfree(st, t.a[1][0], d + 1)
        if f in ("str::trim_end_matches", "str::trim_start_matches", "str::trim", "str::to_lowercase", "str::to_uppercase", "str::trim_end", "str::trim_start", "str::trim_matches",
                 "str::split", "str::rsplit", "str::splitn", "str::rsplitn", "Path::to_str"):
            if "split" in f and "/" in [x.a[1] for x in t.a[1] if x.op == "c"]:
                return f in ("str::split", "str::rsplit")
            return sepfree(st, t.a[1][0], d + 1)
    if o == "seq":
        return bool(t.a[1]) and all(sepfree(st, i.a[0], d + 1) for i in t.a[1])
    if o == "elem":
        if t.a[0].op == "app" and t.a[0].a[0] in ("str::rsplit", "str::split", "str::splitn", "str::rsplitn"):
            return sepfree(st, t.a[0], d + 1)
    if o == "fld" and t.a[1] == "0":
        b = t.a[0]
        if b.op == "app" and b.a[0] in ("file_name", "file_stem", "extension"):
            return True
        if b.op == "app" and b.a[0] in ("str::strip_suffix", "str::strip_prefix", "Path::to_str"):
            return sepfree(st, b.a[1][0], d + 1)
        if b.op == "app" and b.a[0].startswith("pick:") and b.a[1] and sepfree(st, b.a[1][0], d + 1):
            return True
    return nosep_fact(st, t)


def nosep_fact(st, t):
    for k, v in st.facts.items():
        if v is False and k.op == "app" and k.a[0] == "str::contains" and k.a[1][0] is t:
            p = k.a[1][1]
            cs = [x.a[1] for x in p.a[1]] if p.op == "app" and p.a[0] == "anyof" else [p.a[1]] if p.op == "c" else []
            if "/" in cs:
                return True
    return False


def sepfree_parts(st, ps, d=0):
    i = 0
    while i < len(ps):
        if sepfree(st, ps[i], d + 1):
            i += 1
            continue
        for j in range(len(ps), i + 1, -1):
            if nosep_fact(st, cat(list(ps[i:j]))):
                i = j
                break
        else:
            return False
    return True


def basename(st, t):
    """last component of a path term, or None when the term does not show it"""
    if t.op == "fld" and t.a[1] == "0" and t.a[2] == "Ok" and t.a[0].op == "app" and t.a[0].a[0] == "std::path::Path::canonicalize":
        # files named *.zst that we put into a store are no symlinks
        b = basename(st, t.a[0].a[1][0])
        if b is not None and fold_str("ends_with", b, const(".zst")):
            return b
        return None
    if t.op == "app" and t.a[0] == "with_file_name":
        return t.a[1][1] if sepfree(st, t.a[1][1]) else None
    if t.op == "app" and t.a[0] == "join":
        return basename(st, t.a[1][1])
    if sepfree(st, t):
        return t
    if t.op == "cat":
        ps = t.a[0]
        for i in range(len(ps) - 1, -1, -1):
            q = ps[i]
            if q.op == "c" and "/" in q.a[1]:
                last = q.a[1].rsplit("/", 1)[1]
                tail = list(ps[i + 1:])
                if (last or tail) and sepfree_parts(st, tail):
                    return cat([const(last)] + tail)
                return None
    return None


def split_ext(n):
    """(stem, extension) of a file name whose constant tail contains the last dot"""
    if n.op == "c" and n.a[0] == "str":
        x = n.a[1]
        i = x.rfind(".")
        if i <= 0:
            return n, None
        return const(x[:i]), const(x[i + 1:])
    if n.op == "cat" and n.a[0][-1].op == "c":
        x = n.a[0][-1].a[1]
        i = x.rfind(".")
        if i >= 0:
            return cat(list(n.a[0][:-1]) + [const(x[:i])]), const(x[i + 1:])
    return None


def localpath(t):
    """the path of a file that was found in or put into the local store, as a string"""
    if t.op != "fld" or t.a[1] != "path":
        return False
    while t.op == "fld":
        t = t.a[0]
        if t.op == "fld" and t.a[1] == "local":
            return True
    return False


@reg("Path::parent", "Path::file_name", "Path::file_stem", "Path::extension")
def h_pathpart(c):
    m = c.cn.rsplit("::", 1)[1]
    p = c.r(0)

    def part(x):
        if m in ("file_stem", "extension", "file_name"):
            b = basename(c.st, x)
            if b is not None and (b.op == "c" and b.a[1] not in ("", ".", "..") or b.op == "cat" and any(q.op == "c" and q.a[1].strip(".") for q in b.a[0])):
                if m == "file_name":
                    return some(b)
                se = split_ext(b)
                if se is not None:
                    r = se[0] if m == "file_stem" else se[1]
                    return NONE if r is None else some(r)
            if m == "file_name" and localpath(x):
                return some(app("basename", x))
        return app(m, x)
    if p.op == "phi":
        return one(c.st, phi([part(x) for x in p.a[0] if x.op != "moved"]))
    return one(c.st, part(p))


def strip(m, x, p):
    f = fold_str("ends_with" if m == "strip_suffix" else "starts_with", x, p)
    if f is False:
        return NONE
    if f is True:
        n = len(p.a[1])
        if x.op == "c":
            return some(const(x.a[1][:len(x.a[1]) - n] if m == "strip_suffix" else x.a[1][n:]))
        ps = list(x.a[0])
        if m == "strip_suffix":
            ps[-1] = const(ps[-1].a[1][:len(ps[-1].a[1]) - n])
        else:
            ps[0] = const(ps[0].a[1][n:])
        return some(cat(ps))
    return app("str::" + m, x, p)


@reg("str::strip_suffix", "str::strip_prefix")
def h_strip(c):
    m = c.cn.rsplit("::", 1)[1]
    a, p = c.r(0), c.r(1)
    if a.op == "phi":
        return one(c.st, phi([strip(m, x, p) for x in a.a[0] if x.op != "moved"]))
    return one(c.st, strip(m, a, p))


@reg("Path::to_str", "OsStr::to_str", "OsString::into_string", "String::from_utf8", "str::from_utf8", "OsStr::into_string", "PathBuf::to_str")
def h_to_str(c):
    t = c.r(0)
    if t.op == "app" and t.a[0] == "basename" and localpath(t.a[1][0]) and c.cn.endswith("to_str"):
        return one(c.st, some(t))
    return one(c.st, app("Path::to_str", t))


def abspath(t, d=0):
    """True / False / None: is the path absolute"""
    if d > 20:
        return None
    if t.op == "c":
        return t.a[1].startswith("/")
    if t.op == "app":
        if t.a[0] == "join":
            b = abspath(t.a[1][1], d + 1)
            if b:
                return True
            return abspath(t.a[1][0], d + 1)
        if t.a[0] in ("with_file_name", "with_extension", "parent"):
            return abspath(t.a[1][0], d + 1)
        if t.a[0] in ("file_name", "file_stem", "basename", "strtail"):
            return False
    if t.op == "cat" and t.a[0][0].op == "c":
        return t.a[0][0].a[1].startswith("/")
    if t.op == "fld" and t.a[1] == "0" and t.a[0].op == "app":
        f = t.a[0].a[0]
        if f == "std::path::Path::canonicalize" and t.a[2] == "Ok":
            return True
        if f in ("file_name", "file_stem"):
            return False
        if f == "tempfile::dir::tempdir":
            return True
    if t.op == "elem" and t.a[0].op == "app" and t.a[0].a[0] in ("str::rsplit", "str::split") and t.a[0].a[1][1] is const("/"):
        return False
    return None


@reg("Path::is_absolute")
def h_isabs(c):
    p = c.r(0)
    if sepfree(c.st, p):
        return one(c.st, FALSE)
    if p.op == "phi":
        rs = {abspath(m) for m in p.a[0] if m.op != "moved"}
        if len(rs) == 1 and None not in rs:
            return one(c.st, const(rs.pop()))
        return one(c.st, app("is_absolute", p))
    b = abspath(p)
    if b is not None:
        return one(c.st, const(b))
    while p.op == "app" and p.a[0] in ("join", "with_file_name"):
        p = p.a[1][0]
    return one(c.st, app("is_absolute", p))


def under(p, root, d=0):
    while d < 20:
        if p is root:
            return True
        if p.op == "app" and p.a[0] == "join" and not abspath(p.a[1][1]):
            p = p.a[1][0]
        else:
            return False
        d += 1
    return False


@reg("Path::starts_with")
def h_pstarts(c):
    a, b = c.r(0), c.r(1)
    if b.op == "c" and b.a[0] == "str" and a.op == "c":
        pass
    # `join(root, x)` starts with root unless x is absolute
    if under(a, b) and (a is b or a.a[1][1].op in ("c", "cat") or sepfree(c.st, a.a[1][1])):
        return one(c.st, TRUE)
    return one(c.st, app("Path::starts_with", a, b))


@reg("Path::is_relative")
def h_isrel(c):
    return [(s, c.E.neg(t)) for s, t in h_isabs(c)]


def charset(c, pv):
    """the characters a char pattern matches, or None; '/' stands for `is_separator`"""
    E = c.E
    if pv.op == "c" and pv.a[0] == "str":
        return {pv.a[1]}
    if pv.op == "fn":
        return {"/"} if pv.a[0].endswith("::is_separator") else None
    if pv.op == "agg" and pv.a[0] == "array":
        r = set()
        for x in pv.a[3]:
            x = E.V(c.st, x)
            if x.op != "c" or x.a[0] != "str" or len(x.a[1]) != 1:
                return None
            r.add(x.a[1])
        return r
    if pv.op == "app" and pv.a[0] == "index" and pv.a[1][1].op == "agg" and pv.a[1][1].a[0].endswith("RangeFull"):
        return charset(c, pv.a[1][0])
    if pv.op == "clo":
        ch = mk("sym", "ch")
        r = set()

        def outcomes(st):
            out = []
            for s2, v in E.call_value(st, pv, [ch], c.ctx, c.bb, "pred"):
                v = E.V(s2, v)
                out += [(s2, m) for m in (v.a[0] if v.op == "phi" else (v,))]
            return out

        def isch(k):
            return k.op == "app" and k.a[0] == "eq" and ch in k.a[1] and any(x.op == "c" for x in k.a[1])

        outs = outcomes(c.st.copy())
        for s2, m in outs:
            if m is FALSE:
                continue
            if m is TRUE:
                got = [k for k, f in s2.facts.items() if f is True and k not in c.st.facts and any(x is ch for x in subterms(k))]
                if not got:
                    # a choice of several: those for which it does not fail, if it does for all others
                    cand = {k for s3, _ in outs for k in s3.facts if isch(k) and k not in c.st.facts}
                    other = c.st.copy()
                    other.facts.update({k: False for k in cand})
                    if not cand or any(x is not FALSE for _, x in outcomes(other)):
                        return None
                    got = list(cand)
            else:
                got = [m]
            for k in got:
                if k.op == "app" and k.a[0].endswith("::is_separator"):
                    r.add("/")
                elif k.op == "app" and k.a[0] == "not" and k.a[1][0].op == "app" and k.a[1][0].a[0].endswith("::is_alphanumeric"):
                    r.add("\0")      # stands for all other characters
                elif k.op == "app" and k.a[0] == "[T]::contains" and k.a[1][1] is ch:
                    cs = charset(c, k.a[1][0])
                    if cs is None:
                        return None
                    r |= cs
                elif isch(k):
                    q = [x for x in k.a[1] if x.op == "c"][0]
                    r.add(chr(q.a[1]) if isinstance(q.a[1], int) else q.a[1])
                else:
                    return None
        return r
    return None


def anyof(c, pv, r):
    cs = charset(c, pv)
    if cs is None:
        return app("pred", const(pv.a[0])) if pv.op == "clo" else r
    if len(cs) == 1:
        return const(next(iter(cs)))
    return app("anyof", *[const(x) for x in sorted(cs)])


TRIMMED = {"ends_with": ("str::trim_matches", "str::trim_end_matches"), "starts_with": ("str::trim_matches", "str::trim_start_matches")}


def fold_str(m, a, p):
    """constant answer of contains/starts_with/ends_with, or None"""
    if p.op != "c":
        return None
    y = p.a[1]
    if a.op == "app" and a.a[0] in TRIMMED.get(m, ()) and len(y) == 1 and a.a[1][1] is p:
        return False
    if a.op == "c" and a.a[0] == "str":
        x = a.a[1]
        return {"contains": y in x, "starts_with": x.startswith(y), "ends_with": x.endswith(y)}[m]
    if a.op == "cat":
        if m == "ends_with" and a.a[0][-1].op == "c":
            last = a.a[0][-1].a[1]
            if len(last) >= len(y) or not y.endswith(last):
                return last.endswith(y)
        if m == "starts_with" and a.a[0][0].op == "c":
            fst = a.a[0][0].a[1]
            if len(fst) >= len(y) or not y.startswith(fst):
                return fst.startswith(y)
        if m == "contains" and any(q.op == "c" and y in q.a[1] for q in a.a[0]):
            return True
    return None


@reg("str::contains", "str::starts_with", "str::ends_with", "String::contains", "str::find")
def h_contains(c):
    m = c.cn.rsplit("::", 1)[1]
    a, p = c.r(0), c.r(1)
    p = anyof(c, c.v(1), p)
    if m == "find":
        t = app("str::contains", a, p)
        k = c.E.boolval(c.st, t)
        out = []
        for want in (True, False):
            if k is not None and k != want:
                continue
            s = c.st.copy()
            if k is None:
                c.E.assume_bool(s, t, want)
            out.append((s, some(app("str::find", a, p)) if want else NONE))
        return out
    fs = {fold_str(m, x, p) for x in (a.a[0] if a.op == "phi" else (a,)) if x.op != "moved"}
    if len(fs) == 1 and None not in fs:
        return one(c.st, const(fs.pop()))
    return one(c.st, app("str::" + m, a, p))


@reg("str::is_empty", "String::is_empty", "Vec::is_empty", "[T]::is_empty", "HashMap::is_empty", "OsStr::is_empty")
def h_is_empty(c):
    return one(c.st, c.E.compare("Eq", length(c.E, c.st, c.args[0]), const(0)))


@reg("str::len", "String::len", "Vec::len", "[T]::len", "ExactSizeIterator::len", "HashMap::len", "OsStr::len")
def h_len(c):
    return one(c.st, length(c.E, c.st, c.args[0]))


@reg("Add::add")
def h_add(c):
    if "String" in (c.at[0] if c.at else "") or "String" in c.dt:
        return one(c.st, cat([c.r(0), c.r(1)]))
    return one(c.st, app("add", c.r(0), c.r(1)))


@reg("AddAssign::add_assign")
def h_addassign(c):
    if "String" in (c.at[0] if c.at else ""):
        return h_push_str(c)
    return None


@reg("[T]::concat", "[T]::join")
def h_concat(c):
    v = c.v(0)
    if v.op == "agg" and v.a[0] == "array":
        parts = []
        for i, x in enumerate(v.a[3]):
            if i and len(c.args) > 1:
                parts.append(c.r(1))
            parts.append(c.E.resolve(c.st, x))
        return one(c.st, cat(parts))
    return one(c.st, app("concat", c.r(0)))


def slashed(t):
    """the path of an entry, a path in a store: there is a slash in it"""
    if t.op == "phi":
        ms = [m for m in t.a[0] if m.op != "moved"]
        return bool(ms) and all(slashed(m) for m in ms)
    if t.op == "fld":
        return t.a[1] == "path" or t.a[1] == "0" and t.a[2] == "Ok" and t.a[0].op == "app" and t.a[0].a[0] == "std::path::Path::canonicalize"
    return t.op == "app" and t.a[0] in ("join", "with_file_name")


@reg("str::rfind", "str::rsplit_once")
def h_lastslash(c):
    s, p = c.r(0), c.r(1)
    if p is not const("/") or not slashed(s):
        return h_pure(c)
    if c.cn.endswith("rfind"):
        return one(c.st, some(app("slashpos", s)))
    b = basename(c.st, s)
    return one(c.st, some(agg("tuple", "", ("0", "1"), (app("str::rsplit_once", s, p), b if b is not None else app("basename", s)))))


@reg("str::split", "str::rsplit", "str::splitn", "str::rsplitn", "str::lines", "str::chars", "str::char_indices", "str::bytes", "str::split_whitespace",
     "str::split_terminator", "Path::components", "Path::ancestors", "Path::iter", "str::split_once",
     "Path::strip_prefix", "str::trim_end_matches", "str::trim_start_matches", "str::trim_matches", "str::trim", "str::trim_end",
     "str::trim_start", "str::to_lowercase", "str::to_uppercase", "str::replace", "str::replacen", "Path::ends_with", "[T]::starts_with",
     "[T]::ends_with", "[T]::contains", "[T]::windows", "[T]::chunks", "str::matches", "str::repeat", "str::eq_ignore_ascii_case")
def h_pure(c):
    rs = []
    for i in range(len(c.args)):
        v = c.v(i)
        rs.append(anyof(c, v, c.r(i)) if v.op in ("clo", "fn") and i else c.r(i))
    return one(c.st, app(short(c.cn), *rs))


# --- vectors
@reg("boxed::box_assume_init_into_vec_unsafe")
def h_vec_macro(c):
    v = fld(fld(c.v(0), "1", None), "value", None)
    return one(c.st, v) if v.op == "agg" else None


@reg("Vec::new", "Vec::with_capacity", "VecDeque::new", "HashSet::new", "BTreeSet::new", "BTreeMap::new", "BinaryHeap::new", "VecDeque::with_capacity")
def h_vecnew(c):
    return one(c.st, seq((), ()))


@reg("String::new", "OsString::new", "String::with_capacity", "PathBuf::new", "OsString::with_capacity")
def h_strnew(c):
    return one(c.st, const(""))


@reg("Default::default")
def h_default(c):
    d = {"bool": FALSE, "u64": const(0), "usize": const(0), "u32": const(0), "i64": const(0), "i32": const(0),
         "alloc::string::String": const(""), "alloc::vec::Vec": seq((), ()), "core::option::Option": NONE, "()": UNIT}.get(c.selfhead())
    if d is None:
        d = app("default", const(c.info.get("self", c.selfhead())))
    return one(c.st, d)


@reg("HashMap::new", "Graph::new", "HashMap::with_capacity")
def h_mapnew(c):
    return one(c.st, app("default", const(c.dt)))


def cell_of(c, a):
    n = 0
    while a.op == "ref" and n < 10:
        v = c.E.readref(c.st, a.a[0], a.a[1])
        if v.op != "ref":
            return a, v
        a = v
        n += 1
    return None, None


def set_cell(c, cell, v):
    c.E.writeref(c.st, cell.a[0], cell.a[1], v)
    if v.op == "seq":
        c.E.kill(c.st, v)


@reg("Vec::push", "VecDeque::push_back", "VecDeque::push_front", "HashSet::insert", "BTreeSet::insert", "Vec::insert", "BinaryHeap::push")
def h_vecpush(c):
    cell, v = cell_of(c, c.args[0])
    if cell is None:
        return None
    x = c.args[-1]
    m = c.cn.rsplit("::", 1)[1]
    tags = {"push_front": {"rev"}, "insert": {"insert"} if "Vec" in c.cn else {"set", "hash"} if "Hash" in c.cn else {"set"}}.get(m, set())
    if v.op == "phi" and any(q.op == "seq" for q in v.a[0]):
        ss = [q for q in v.a[0] if q.op == "seq"]
        v = seq(set().union(*[set(q.a[0]) for q in ss]), set().union(*[set(q.a[1]) for q in ss]))
    if v.op != "seq" and c.cn in ("Vec::push", "Vec::insert"):
        v = opened(c, v)
    if v.op == "seq":
        x = c.E.item(c.st, x)
        c.E.keep(c.st, x)
        tags = tags | {"ne"}
        set_cell(c, cell, seq(set(v.a[0]) | tags, set(v.a[1]) | {x}))
        return one(c.st, UNIT if c.dh == "()" else app("inserted"))
    return None


def opened(c, v):
    """a list that was made elsewhere, as the sequence of its elements"""
    v = c.E.resolve(c.st, v)
    if v.op not in ("app", "fld", "phi") or v.op == "phi" and any(m.op not in ("app", "fld", "seq") for m in v.a[0]):
        return v
    items = set()

    def f(s, e):
        i = c.E.item(s, e)
        items.add(i)
        c.E.keep(s, i)
        return [(s, "go", None)]
    c.st, _ = c.E.run_iter(c.st, v, c.ctx, c.bb, f, "op")
    return seq(seq_of(c, c.st, v, ()).a[0], items)


@reg("Vec::extend_from_slice", "Vec::append", "Extend::extend", "Vec::extend")
def h_extend(c):
    cell, v = cell_of(c, c.args[0])
    if cell is None:
        return None
    if v.op != "seq" and (c.cn.startswith("Vec::") or c.selfhead() == "alloc::vec::Vec"):
        v = opened(c, v)
    if v.op != "seq":
        return None
    src = c.E.V(c.st, c.args[1])
    items = set()

    def f(s, e):
        i = c.E.item(s, e)
        items.add(i)
        c.E.keep(s, i)
        return [(s, "go", None)]
    fin, _ = c.E.run_iter(c.st, src, c.ctx, c.bb, f, "ex")
    c.st = fin
    set_cell(c, cell, seq(set(v.a[0]) | set(seq_of(c, fin, src, ()).a[0]), set(v.a[1]) | items))
    return one(c.st, UNIT)


LOSSLESS = {"path", "into_path", "to_owned", "as_path", "as_os_str", "to_path_buf", "as_ref", "deref", "clone", "as_encoded_bytes", "as_bytes",
            "as_str", "to_os_string", "into_os_string", "components", "borrow", "key_for", "from", "into", "as_slice", "as_mut_os_str"}


def plainly(t, x, extra=()):
    """t is x, or determines x (a conversion without loss)"""
    n = 0
    while n < 12:
        n += 1
        if t is x:
            return True
        if t.op == "agg":
            return any(plainly(m, x, extra) for m in t.a[3])
        if t.op == "fld":
            t = t.a[0]
        elif t.op == "app" and t.a[1] and (t.a[0].rsplit("::", 1)[-1] in LOSSLESS or t.a[0].rsplit("::", 1)[-1] in extra):
            t = t.a[1][0]
        else:
            return False
    return False


def compared(c, clo, key):
    E = c.E
    a, b = mk("sym", "cmp.a"), mk("sym", "cmp.b")
    return a, b, [(s, E.resolve(s, v)) for s, v in E.call_value(c.st.copy(), clo, [a] if key else [a, b], c.ctx, c.bb, "cmp")]


@reg("Ordering::then_with")
def h_then_with(c):
    x = c.r(0)
    return [(s, app("Ordering::then_with", x, c.E.resolve(s, v))) for s, v in c.E.call_value(c.st, c.args[1], [], c.ctx, c.bb, "then")]


def inconsistent(c, clo):
    """why the comparison may not be one of the same property of both elements (sorting may panic then)"""
    a, b, rs = compared(c, clo, False)
    pairs = collections.defaultdict(lambda: (set(), set()))
    why = []

    def sig(t, x):
        return {(y.op, y.a[0] if y.op == "app" else y.a[1] if y.op in ("fld", "c") else "") for y in subterms(t) if y is not x and not (y.op == "phi" or y.op == "seq" or y.op == "elem")}

    def walk(t, pos):
        if t.op == "phi":
            for m in t.a[0]:
                if m.op != "moved":
                    walk(m, pos)
        elif t.op == "fld":
            walk(t.a[0], pos)
        elif t.op == "agg" and "Ordering" in t.a[0] or t.op == "agg" and t.a[1] in ("Less", "Equal", "Greater"):
            pairs[pos, "const"][0].add(t.a[1])
        elif t.op == "app" and "::" in t.a[0]:
            l = t.a[0].rsplit("::", 1)[1]
            xs = t.a[1]
            if l in ("reverse", "unwrap", "expect", "unwrap_or", "unwrap_or_else"):
                walk(xs[0], pos)
            elif l in ("then", "then_with"):
                walk(xs[0], pos + (0,))
                walk(xs[1], pos + (1,))
            elif l in ("cmp", "partial_cmp", "total_cmp") and len(xs) == 2 and not t.a[0].startswith("human"):
                x, y = xs
                ia = [any(z is a for z in subterms(w)) for w in xs]
                ib = [any(z is b for z in subterms(w)) for w in xs]
                if ia[0] and ib[0] or ia[1] and ib[1]:
                    why.append("%s compares what depends on both elements" % show(t, 3)[:80])
                elif ia[1] or ib[0]:
                    x, y = y, x
                pairs[pos, "cmp"][0].update(sig(x, a))
                pairs[pos, "cmp"][1].update(sig(y, b))
            else:
                why.append("`%s` is not known to be a total order" % t.a[0])
        else:
            why.append("%s is not known to be a total order" % show(t, 3)[:60])
    for s, t in rs:
        walk(t, ())
    for (pos, k), (x, y) in sorted(pairs.items()):
        if k == "const" and len(x & {"Less", "Greater"}) == 1:
            why.append("the comparison may say `%s` but never the opposite" % sorted(x)[0])
        if k == "cmp" and x != y:
            why.append("different properties of the two elements are compared (%s)" % ", ".join(str(z[1])[:60] for z in sorted(x ^ y, key=str)[:3]))
    return why[0] if why else None


def total_order(c, clo, key=False, extra=()):
    """the comparison (or key) closure never leaves two different elements in an order that depends on where they came from"""
    a, b, rs = compared(c, clo, key)
    rs = [t for _, t in rs]

    def cmp_ok(t):
        if t.op == "phi":
            # decided by an earlier comparison
            return any(cmp_ok(m) for m in t.a[0])
        if t.op != "app":
            return False
        l = t.a[0].rsplit("::", 1)[-1]
        xs = t.a[1]
        if l in ("reverse", "unwrap", "expect", "unwrap_or"):
            return cmp_ok(xs[0])
        if l in ("then", "then_with"):
            return any(cmp_ok(x) for x in xs)
        if l in ("cmp", "partial_cmp"):
            return plainly(xs[0], a, extra) and plainly(xs[1], b, extra) or plainly(xs[0], b, extra) and plainly(xs[1], a, extra)
        return False
    if key:
        return bool(rs) and all(plainly(r, a, extra) for r in rs)
    return bool(rs) and any(cmp_ok(r.a[0] if r.op == "fld" else r) for r in rs)


@reg("petgraph::algo::astar::astar")
def h_astar(c):
    E = c.E
    n, ed = mk("sym", "astar.node"), mk("sym", "astar.edge")

    def run(f, x, t):
        return tuple(E.resolve(s, v) for s, v in E.call_value(c.st.copy(), f, [x], c.ctx, c.bb, t))
    E.event(c.st, "search", (c.r(0), c.r(1)), None, c.ctx, c.bb,
            {"goal": run(c.args[2], n, "goal"), "cost": run(c.args[3], ed, "cost"), "estimate": run(c.args[4], n, "est"), "node": n, "edge": ed})
    return None


@reg("walkdir::WalkDir::sort_by", "walkdir::WalkDir::sort_by_key", "walkdir::WalkDir::sort_by_file_name")
def h_walksort(c):
    m = c.cn.rsplit("::", 1)[1]
    # siblings have different file names
    good = m == "sort_by_file_name" or total_order(c, c.args[1], m == "sort_by_key", ("file_name",))
    t = app("walkdir::WalkDir::sorted" if good else "walkdir::WalkDir::sort_by", c.r(0))
    c.E.event(c.st, c.cn, tuple(c.r(i) for i in range(len(c.args))), t, c.ctx, c.bb, {"total": good})
    return one(c.st, t)


@reg("walkdir::IntoIter::filter_entry")
def h_filter_entry(c):
    c.E.event(c.st, c.cn, (c.r(0),), None, c.ctx, c.bb)
    return one(c.st, mk("it", "filter_entry", c.v(0), c.args[1], None))


@reg("[T]::sort", "[T]::sort_by", "[T]::sort_by_key", "[T]::sort_unstable", "[T]::sort_unstable_by", "[T]::sort_unstable_by_key", "[T]::reverse",
     "[T]::swap", "Vec::truncate", "Vec::dedup", "Vec::dedup_by_key", "Vec::dedup_by", "Vec::retain", "Vec::remove", "Vec::swap_remove", "Vec::pop", "Vec::clear",
     "[T]::rotate_left", "[T]::rotate_right", "VecDeque::pop_front", "VecDeque::pop_back", "Vec::split_off", "Vec::drain", "[T]::sort_by_cached_key")
def h_reorder(c):
    cell, v = cell_of(c, c.args[0])
    m = c.cn.rsplit("::", 1)[1]
    tag = "sort" if m.startswith("sort") else "rev" if m == "reverse" else m
    if tag == "sort" and len(c.args) > 1:
        if not total_order(c, c.args[1], "key" in m):
            tag = "sortx"
        w = None if "key" in m else inconsistent(c, c.args[1])
        if w:
            c.E.event(c.st, "maypanic", (), None, c.ctx, c.bb, {"fn": c.cn, "why": w})
    if cell is None:
        return None
    if v.op == "seq":
        items = v.a[1]
        if m == "retain":
            ni = set()

            def g(s, e):
                i = c.E.item(s, e)
                ni.add(i)
                c.E.keep(s, i)
                return [(s, "go", None)]
            c.st, _ = c.E.run_iter(c.st, mk("it", "filter", v, c.args[1], None), c.ctx, c.bb, g, "ret")
            items = ni
        if m == "clear":
            items = ()
        tg = set(v.a[0]) | {tag}
        if tag in ("sort", "sortx", "rev", "swap", "rotate_left", "rotate_right"):
            if tag == "sort":
                tg.discard("hash")
        else:
            tg.discard("ne")
        nv = seq(tg, items)
        if tag in ("sort", "sortx", "rev", "swap", "rotate_left", "rotate_right") and nv is not v:
            c.E.lenof[c.E.resolve(c.st, nv)] = c.E.resolve(c.st, v)
        set_cell(c, cell, nv)
        if m in ("pop", "pop_front", "pop_back", "remove", "swap_remove"):
            out = []
            rest = seq(set(v.a[0]) - {"pop", "pop_front", "pop_back"}, v.a[1]) if m.startswith("pop") else v
            for s, e in c.E.iter_next(c.st, rest, c.ctx, c.bb, "pop"):
                if m in ("remove", "swap_remove"):
                    if e is not None:
                        out.append((s, e))
                else:
                    out.append((s, NONE if e is None else some(e)))
            return out
        if m in ("drain", "split_off"):
            return one(c.st, v)
        return one(c.st, UNIT)
    nv = app("reordered:" + tag, c.E.resolve(c.st, v))
    c.E.writeref(c.st, cell.a[0], cell.a[1], nv)
    if c.dh in ("()",):
        return one(c.st, UNIT)
    return one(c.st, app(m, c.E.resolve(c.st, v)))


def affix(c, s, rg):
    """the text without a suffix or prefix it is known to have"""
    def ln(p):
        return {app("len", p)} | ({const(len(p.a[1].encode()))} if p.op == "c" and isinstance(p.a[1], str) else set())
    k = rg.a[0].rsplit("::", 1)[1]
    if k == "RangeFrom" and fld(rg, "start") in (app("add", app("slashpos", s), const(1)), app("add", const(1), app("slashpos", s))):
        b = basename(c.st, s)
        return b if b is not None else app("basename", s)
    n = fld(rg, "end") if k == "RangeTo" else fld(rg, "start") if k == "RangeFrom" else None
    if k == "RangeTo":
        n = n.a[1][1] if n.op == "app" and n.a[0] == "sub" and n.a[1][0] is app("len", s) else None
    if n is not None and n.op == "c":
        xs = []
        for y in s.a[0] if s.op == "phi" else (s,):
            if y.op == "moved":
                continue
            x = (y.a[0][-1] if k == "RangeTo" else y.a[0][0]) if y.op == "cat" else y
            if not (x.op == "c" and isinstance(x.a[1], str) and x.a[1].isascii() and len(x.a[1]) >= n.a[1]):
                xs = []
                break
            z = const(x.a[1][:len(x.a[1]) - n.a[1]] if k == "RangeTo" else x.a[1][n.a[1]:])
            ps = list(y.a[0]) if y.op == "cat" else [z]
            ps[-1 if k == "RangeTo" else 0] = z
            xs.append(cat(ps))
        if xs:
            return phi(xs)
    for t, v in c.st.facts.items():
        if v is not True or t.op != "app" or len(t.a[1]) != 2 or t.a[1][0] is not s:
            continue
        p = t.a[1][1]
        if k == "RangeTo" and t.a[0] == "str::ends_with":
            n = fld(rg, "end")
            if not (n.op == "app" and n.a[0] == "sub" and n.a[1][0] is app("len", s) and n.a[1][1] in ln(p)):
                continue
            m = "strip_suffix"
        elif k == "RangeFrom" and t.a[0] == "str::starts_with":
            if fld(rg, "start") not in ln(p):
                continue
            m = "strip_prefix"
        else:
            continue
        xs = []
        for x in s.a[0] if s.op == "phi" else (s,):
            if x.op == "moved":
                continue
            r = strip(m, x, p)
            if r is NONE:
                continue
            xs.append(r.a[3][0] if r.op == "agg" else fld(r, "0", "Some"))
            if r.op != "agg" and s.op != "phi":
                c.st.facts[r] = "Some"
        if xs:
            return phi(xs)
    return None


@reg("Index::index", "IndexMut::index_mut")
def h_index(c):
    a, v, i = c.args[0], c.v(0), c.v(1)
    if "IndexMut" in c.cn and a.op == "ref":
        cell, _ = cell_of(c, a)
        if cell is not None and v.op == "agg" and v.a[0] == "array" and i.op == "c":
            return one(c.st, mk("ref", cell.a[0], cell.a[1] + (("i", i),)))
    r = c.r(0)
    if i.op == "app" and i.a[0] == "at" and i.a[1][0] is r:
        return one(c.st, i.a[1][1])
    if i.op == "agg" and "range::Range" in i.a[0] and c.selfhead().lstrip("&") in ("str", "alloc::string::String"):
        x = affix(c, r, c.r(1))
        if x is not None:
            return one(c.st, x)
    c.E.event(c.st, "index", (r, c.r(1)), None, c.ctx, c.bb, {"self": c.selfhead(), "at": c.at})
    if v.op == "seq" and i.op == "c" and "IndexMut" not in c.cn and v.a[1] and not any(pieces(x.a[0]) for x in v.a[1]):
        return [(s, e) for s, e in c.E.iter_next(c.st, v, c.ctx, c.bb, "gt") if e is not None]
    if v.op == "seq" and i.op == "agg" and i.a[0].endswith("range::RangeFrom"):
        n = c.E.resolve(c.st, fld(i, "start"))
        if n is const(0):
            return one(c.st, v)
        x = it("skip", v, n, 0)
        for m in n.a[0] if n.op == "phi" else (n,):
            if m in c.E.leading and c.E.leading[m][0] is r:
                x = c.E.leading[m][1]
            elif not (n.op == "phi" and m is app("len", r)):
                x = it("skip", v, n, 0)
                break
        return do_collect(c, x, "", "")
    kind = "array" if ("Vec" in c.selfhead() or c.selfhead().startswith("[") or "slice" in c.selfhead() or "array" in c.selfhead()) else ""
    return one(c.st, c.E.index(v, i) if v.op == "agg" else app("index", r, c.r(1)))


def pieces(t):
    """part of a string"""
    return t.op == "elem" and t.a[0].op == "app" and t.a[0].a[0].startswith("str::")


@reg("[T]::get", "[T]::first", "[T]::last", "Vec::get", "Vec::first", "Vec::last", "[T]::first_mut", "[T]::last_mut", "[T]::get_mut")
def h_get(c):
    m = c.cn.rsplit("::", 1)[1]
    v = c.v(0)
    if m == "get" and len(c.args) > 1 and c.E.counts.get(c.v(1), ("",))[0] == c.ctx and c.E.counts[c.v(1)][1] == 0:
        return [(s, some(e) if e is not None else NONE) for s, e in c.E.advance(c.st, c.v(1), c.r(0), c.ctx, c.bb)]
    if v.op == "seq" and (len(c.args) == 1 or c.v(1).op == "c") and not any(pieces(i.a[0]) for i in v.a[1]):
        return [(s, NONE if e is None else some(e)) for s, e in c.E.iter_next(c.st, v, c.ctx, c.bb, "gt") if e is not None or "ne" not in v.a[0] or len(c.args) > 1]
    return one(c.st, app("slice::" + m, c.r(0), *[c.r(i) for i in range(1, len(c.args))]))


# --- iterators
def it(kind, src, clo=None, ctx=0):
    return mk("it", kind, src, clo, ctx)


@reg("IntoIterator::into_iter", "[T]::iter", "[T]::iter_mut", "Vec::iter", "HashMap::keys", "HashMap::values", "HashMap::iter", "HashSet::iter", "BTreeMap::iter",
     "BTreeMap::keys", "HashMap::values_mut", "HashMap::into_iter", "stream::iter", "Option::iter", "Option::into_iter", "Result::into_iter", "Result::iter", "iter::iter")
def h_iter(c):
    m = c.cn.rsplit("::", 1)[1]
    v = c.v(0)
    if m in ("into_iter", "iter"):
        h = c.selfhead() or c.cn
        if "result::Result" in h or "Result::" in c.cn:
            return one(c.st, it("opt", v, RESULT))
        if "option::Option" in h or "Option::" in c.cn:
            return one(c.st, it("opt", v, OPTION))
        if "Range" in h:
            return one(c.st, v)
        return one(c.st, v)
    if m in ("keys", "values", "values_mut"):
        return one(c.st, app("map_" + m, c.E.resolve(c.st, v)))
    return one(c.st, v)


@reg("Iterator::map", "StreamExt::map", "Iterator::filter", "Iterator::filter_map", "Iterator::skip_while", "Iterator::take_while", "Iterator::map_while",
     "Iterator::inspect", "Iterator::flat_map", "StreamExt::filter_map")
def h_adapt(c):
    m = c.cn.rsplit("::", 1)[1]
    return one(c.st, it(m, c.v(0), c.args[1], 0))


@reg("Iterator::enumerate", "Iterator::flatten", "Iterator::skip", "Iterator::take", "Iterator::step_by", "DoubleEndedIterator::rev", "Iterator::rev", "StreamExt::skip",
     "StreamExt::take", "Iterator::cycle", "StreamExt::enumerate")
def h_adapt0(c):
    m = c.cn.rsplit("::", 1)[1]
    return one(c.st, it(m, c.v(0), c.r(1) if m == "skip" and len(c.args) > 1 else None, 0))


@reg("Iterator::zip", "Iterator::chain", "StreamExt::chain", "iter::zip", "StreamExt::zip")
def h_zip(c):
    m = c.cn.rsplit("::", 1)[1]
    b = c.v(1)
    hs = c.heads()
    if m == "zip" and len(hs) > 1:
        if "result::Result" in hs[1]:
            b = it("opt", b, RESULT)
        elif "option::Option" in hs[1]:
            b = it("opt", b, OPTION)
    elif m == "chain" and len(hs) > 1:
        if hs[1].endswith("option::Option"):
            b = it("opt", b, OPTION)
    return one(c.st, it(m, c.v(0), b, 0))


@reg("iter::once", "sources::once::once", "once::once")
def h_once(c):
    return one(c.st, agg("array", "", ("0",), (c.args[0],)))


@reg("Iterator::next", "DoubleEndedIterator::next_back", "StreamExt::next", "TryStreamExt::try_next")
def h_next(c):
    v = c.v(0)
    if c.cn.endswith("StreamExt::next"):
        return None
    if v.op == "app" and (v.a[0] == "str::rsplit" and not c.cn.endswith("back") or v.a[0] == "str::split" and c.cn.endswith("back")) and v.a[1][1] is const("/"):
        cell, _ = cell_of(c, c.args[0])
        if cell is not None:
            set_cell(c, cell, mk("mut", v, (app("next"),)))
            b = basename(c.st, v.a[1][0])
            return one(c.st, some(b if b is not None else app("basename", v.a[1][0])))
    out = occurrence(c, v)
    if out is None:
        out = piece(c, v)
    if out is not None:
        return out
    out = []
    c.E.iterate_event(c.st, v, c.ctx, c.bb)
    for s, e in c.E.iter_next(c.st, v, c.ctx, c.bb, "n"):
        out.append((s, NONE if e is None else some(e)))
    return out


def contained(c, a, p, x):
    """forks on whether `a` contains `p`: Some(x) or None"""
    t = app("str::contains", a, p)
    k = c.E.boolval(c.st, t)
    out = []
    for want in (True, False):
        if k is not None and k != want:
            continue
        s = c.st.copy()
        if k is None:
            c.E.assume_bool(s, t, want)
        out.append((s, some(x) if want else NONE))
    return out


def piece(c, v):
    """the pieces of a string that is split into at most n, one after the other"""
    pos, b = 0, v
    if v.op == "mut" and all(o.op == "app" and o.a[0].startswith("next:") for o in v.a[1]):
        b, pos = v.a[0], len(v.a[1])
    if b.op != "app" or b.a[0] not in ("str::splitn", "str::rsplitn") or b.a[1][1].op != "c":
        return None
    n = b.a[1][1].a[1]
    cell, _ = cell_of(c, c.args[0])
    if cell is None or n > 8:
        return None
    if pos >= n:
        return one(c.st, NONE)
    set_cell(c, cell, mutate(v, app("next:%d" % pos)))
    x = app("pick:nth", b, const(pos))
    if pos == 0:
        return one(c.st, some(x))
    if pos == 1:
        return contained(c, b.a[1][0], b.a[1][2], x)
    return [(c.st.copy(), some(x)), (c.st.copy(), NONE)]


OCCURRENCES = {"str::matches": 0, "str::rmatches": 0, "str::match_indices": 0, "str::rmatch_indices": 0, "str::split": 1, "str::rsplit": 1}


def occurrence(c, v, n=0):
    """the first of the occurrences, or the second of the pieces, of a string is there if the string contains the other"""
    if v.op == "it" and v.a[0] == "skip" and n == 0 and v.a[2] is const(1):
        v, n = v.a[1], 1
    if v.op == "app" and OCCURRENCES.get(v.a[0]) == n and len(v.a[1]) == 2:
        cell, _ = cell_of(c, c.args[0])
        if cell is not None:
            set_cell(c, cell, mk("mut", v, (app("next"),)))
        return contained(c, v.a[1][0], v.a[1][1], app("pick:nth", v, const(n)))
    return None


def extremum(c, v, m):
    """depends on the set of elements only, not on their order"""
    def f(s, e):
        e = c.E.resolve(s, e)
        if e.op == "elem":
            p = app("pick:" + m, e)
            for k, fv in list(s.facts.items()):
                if e in k.leaves:
                    s.facts[subst(k, e, p)] = fv
            e = p
        return [(s, "stop", some(e)), (s.copy(), "go", None)]
    fin, stops = c.E.run_iter(c.st, v, c.ctx, c.bb, f, "pk")
    return [(fin, NONE)] + stops


@reg("Iterator::last", "Iterator::nth", "Iterator::max", "Iterator::min", "Iterator::max_by_key", "Iterator::min_by_key", "Iterator::max_by", "Iterator::min_by", "Iterator::reduce")
def h_pick(c):
    v = c.v(0)
    m = c.cn.rsplit("::", 1)[1]
    out = []
    if m == "nth" and c.r(1).op == "c":
        k = occurrence(c, v, c.r(1).a[1])
        if k is not None:
            return k
    srcs = c.E.iter_srcs(v) if v.op == "it" else [v]
    if any(is_hash(x) for x in srcs):
        srcs = []
    plain = srcs and v.op not in ("it", "seq") and not (v.op == "agg")
    if plain or srcs and all(s.op not in ("seq", "it") for s in srcs) and v.op == "it" and c.E.iter_tags(v) <= {"rev", "skip", "take"}:
        return one(c.st, app("pick:" + m, c.E.resolve(c.st, v), *[c.r(i) for i in range(1, len(c.args)) if c.v(i).op != "clo"]))
    if m in ("min", "max") and not any(a.op == "clo" for a in c.args[1:]):
        return extremum(c, v, m)
    if m in ("min", "max", "min_by", "max_by", "min_by_key", "max_by_key") and len(c.args) == 2 and c.v(1).op in ("clo", "fn") and total_order(c, c.args[1], "key" in m):
        return extremum(c, v, m[:3])
    c.E.event(c.st, "choose", (c.r(0),), None, c.ctx, c.bb, {"how": m})
    for s, e in c.E.iter_next(c.st, v, c.ctx, c.bb, "pk"):
        out.append((s, NONE if e is None else some(e)))
    return out


@reg("Iterator::count", "Iterator::sum", "Iterator::size_hint", "Iterator::product")
def h_count(c):
    v = c.v(0)
    c.E.dry += 1
    fin, _ = c.E.run_iter(c.st, v, c.ctx, c.bb, lambda s, e: [(s, "go", None)], "ct")
    c.E.dry -= 1
    t = app(c.cn.rsplit("::", 1)[1], c.E.resolve(fin, v))
    if v.op == "it" and v.a[0] == "take_while" and t.a[0] == "count":
        c.E.leading[t] = (c.E.resolve(fin, v.a[1]), it("skip_while", v.a[1], v.a[2], v.a[3]))
    return one(fin, t)


def is_hash(x):
    """iterates in the order of a hash table"""
    if x.op == "app" and x.a[0] in ("map_keys", "map_values", "map_values_mut", "map_iter"):
        return True
    while x.op == "mut":
        x = x.a[0]
    return x.op == "app" and x.a[0] == "default" and str(x.a[1][0].a[1]).startswith(("std::collections::hash::", "hashbrown"))


def seq_of(c, s, v, items):
    tags = c.E.iter_tags(v) - {"map", "inspect", "okmap", "opt"}
    tags.discard("ne")
    if v.op == "it" or any(is_hash(x) for x in [v]):
        for x in c.E.iter_srcs(v) if v.op == "it" else [v]:
            if is_hash(x):
                tags.add("hash")
    if v.op == "app" and v.a[0].startswith("reordered:"):
        tags.add(v.a[0].split(":")[1])
    for x in c.E.iter_srcs(v) if v.op == "it" else [v]:
        while x.op == "app" and x.a[0].startswith("reordered:"):
            tags.add(x.a[0].split(":")[1])
            x = x.a[1][0]
    return seq(tags, items)


@reg("Iterator::collect", "TryStreamExt::try_collect", "StreamExt::collect", "FromIterator::from_iter", "Iterator::partition")
def h_collect(c):
    if "Stream" in c.cn:
        return one(c.st, mk("fut", c.cn, tuple(c.args), (c.dh, c.dt, tuple(c.heads()))))
    return do_collect(c, c.v(0), c.dh, c.dt)


def ordered(v, ty):
    """the order that the container gives to its elements"""
    if v.op == "seq" and ("BTreeSet" in ty or "BTreeMap" in ty):
        return seq(set(v.a[0]) - {"hash"}, v.a[1])
    if v.op == "seq" and ("HashSet" in ty or "HashMap" in ty):
        return seq(set(v.a[0]) | {"hash"}, v.a[1])
    return v


def do_collect(c, v, dh, dt):
    items = set()
    if dh == RESULT or dh == OPTION:
        good = "Ok" if dh == RESULT else "Some"

        def f(s, e):
            out = []
            for s2, vr, p in c.E.split(s, e, dh):
                if vr == good:
                    i = c.E.item(s2, p)
                    items.add(i)
                    c.E.keep(s2, i)
                    out.append((s2, "go", None))
                else:
                    out.append((s2, "stop", err(p) if dh == RESULT else NONE))
            return out
        fin, stops = c.E.run_iter(c.st, v, c.ctx, c.bb, f, "cl")
        w = ok if dh == RESULT else some
        if not items and v.op != "seq" and False:
            pass
        return [(fin, w(ordered(seq_of(c, fin, v, items), dt)))] + stops

    def g(s, e):
        i = c.E.item(s, e)
        items.add(i)
        c.E.keep(s, i)
        return [(s, "go", None)]
    fin, _ = c.E.run_iter(c.st, v, c.ctx, c.bb, g, "cl")
    r = ordered(seq_of(c, fin, v, items), dt)
    src = v
    while src.op == "it" and src.a[0] in ("map", "inspect", "enumerate", "rev"):
        src = c.E.V(c.st, src.a[1])
    if src.op != "it":
        a, b = c.E.resolve(fin, r), c.E.resolve(fin, src)
        if a is not b:
            c.E.lenof[a] = b
    if dh in ("alloc::string::String", "std::path::PathBuf"):
        r = app("collect_string", c.E.resolve(fin, r))
    return one(fin, r)


@reg("Iterator::any", "Iterator::all", "Iterator::position", "Iterator::rposition")
def h_any(c):
    m = c.cn.rsplit("::", 1)[1]
    res = {True: TRUE, False: FALSE}
    src = c.E.resolve(c.st, c.v(0))
    boolsites = []

    def f(s, e):
        out = []
        for s2, v in c.E.call_value(s, c.args[1], [e], c.ctx, c.bb, "any"):
            v = c.E.V(s2, v)
            b = c.E.boolval(s2, v)
            for want in (True, False):
                if b is not None and b != want:
                    continue
                s3 = s2.copy()
                if b is None and v.op != "phi":
                    c.E.assume_bool(s3, v, want)
                stop = want if m != "all" else not want
                out.append((s3, "stop" if stop else "go", None))
        return out
    v0 = c.v(0)
    if m == "any" and v0.op == "app" and v0.a[0] in ("str::chars", "str::bytes"):
        cs = charset(c, c.v(1))
        if cs is not None:
            p = const(next(iter(cs))) if len(cs) == 1 else app("anyof", *[const(x) for x in sorted(cs)])
            return one(c.st, app("str::contains", v0.a[1][0], p))
    fin, stops = c.E.run_iter(c.st, v0, c.ctx, c.bb, f, "an")
    if m == "rposition":
        t = app("rposition", src, app("pred", const(c.v(1).a[0]) if c.v(1).op == "clo" else c.r(1)))
        return [(fin, NONE)] + [(s, some(t)) for s, _ in stops]
    if m == "position":
        t = app("position", src, app("pred", const(c.v(1).a[0]) if c.v(1).op == "clo" else c.r(1)))
        c.E.leading[t] = (src, it("skip_until", v0, c.args[1], 0))
        return [(fin, NONE)] + [(s, some(t)) for s, _ in stops]
    return [(fin, FALSE if m == "any" else TRUE)] + [(s, TRUE if m == "any" else FALSE) for s, _ in stops]


@reg("Iterator::find", "Iterator::find_map")
def h_find(c):
    c.E.event(c.st, "choose", (c.r(0),), None, c.ctx, c.bb, {"how": c.cn.rsplit("::", 1)[1]})
    fm = c.cn.endswith("find_map")

    def f(s, e):
        out = []
        for s2, v in c.E.call_value(s, c.args[1], [e], c.ctx, c.bb, "fd"):
            v = c.E.V(s2, v)
            if fm:
                for s3, vr, p in c.E.split(s2, v, OPTION):
                    out.append((s3, "stop" if vr == "Some" else "go", some(p) if vr == "Some" else None))
                continue
            b = c.E.boolval(s2, v)
            for want in (True, False):
                if b is not None and b != want:
                    continue
                s3 = s2.copy()
                if b is None and v.op != "phi":
                    c.E.assume_bool(s3, v, want)
                out.append((s3, "stop" if want else "go", some(e) if want else None))
        return out
    fin, stops = c.E.run_iter(c.st, c.v(0), c.ctx, c.bb, f, "fd")
    return [(fin, NONE)] + stops


@reg("Iterator::for_each")
def h_foreach(c):
    def f(s, e):
        return [(s2, "go", None) for s2, _ in c.E.call_value(s, c.args[1], [e], c.ctx, c.bb, "fe")]
    fin, _ = c.E.run_iter(c.st, c.v(0), c.ctx, c.bb, f, "fe")
    return one(fin, UNIT)


@reg("Iterator::try_for_each")
def h_tryforeach(c):
    def f(s, e):
        out = []
        for s2, v in c.E.call_value(s, c.args[1], [e], c.ctx, c.bb, "tf"):
            for s3, vr, p in c.E.split(s2, v, RESULT):
                out.append((s3, "go" if vr == "Ok" else "stop", None if vr == "Ok" else err(p)))
        return out
    fin, stops = c.E.run_iter(c.st, c.v(0), c.ctx, c.bb, f, "tf")
    return [(fin, ok(UNIT))] + stops


@reg("Iterator::fold", "Iterator::try_fold")
def h_fold(c):
    tr = "try" in c.cn

    def f(s, acc, e):
        out = []
        for s2, v in c.E.call_value(s, c.args[2], [acc, e], c.ctx, c.bb, "fo"):
            if tr:
                for s3, vr, p in c.E.split(s2, v, RESULT if "Result" in c.dh else OPTION):
                    out.append((s3, "go", p) if vr in GOOD else (s3, "stop", err(p) if vr == "Err" else NONE))
            else:
                out.append((s2, "go", v))
        return out
    fins, stops = c.E.run_fold(c.st, c.v(0), c.args[1], c.ctx, c.bb, f)
    if tr:
        fins = [(s, ok(a) if "Result" in c.dh else some(a)) for s, a in fins]
    return fins + stops


@reg("TryStreamExt::try_for_each_concurrent", "TryStreamExt::try_for_each", "StreamExt::for_each_concurrent", "StreamExt::for_each", "TryStreamExt::try_fold")
def h_tfec(c):
    return one(c.st, mk("fut", c.cn, tuple(c.args), (c.dh, c.dt, ())))


def poll_fut(E, st, f, ctx, bb, tag):
    """run a library future to completion -> [(state, output)]"""
    cn, args, (dh, dt, hs) = f.a
    sh = short(cn)
    if sh in ("TryStreamExt::try_for_each_concurrent", "TryStreamExt::try_for_each", "StreamExt::for_each_concurrent", "StreamExt::for_each"):
        tr = "Try" in sh
        clo = args[-1]

        def body(s, e):
            if tr:
                out = []
                for s2, vr, p in E.split(s, e, RESULT):
                    if vr == "Err":
                        out.append((s2, "stop", err(p)))
                        continue
                    for s3, fut in E.call_value(s2, clo, [p], ctx, bb, tag + "tfe"):
                        for s4, r in E.await_value(s3, fut, ctx, bb, tag + "tfa"):
                            for s5, vr2, p2 in E.split(s4, r, RESULT):
                                out.append((s5, "go" if vr2 == "Ok" else "stop", None if vr2 == "Ok" else err(p2)))
                return out
            return [(s3, "go", None) for s2, fut in E.call_value(s, clo, [e], ctx, bb, tag + "fe") for s3, r in E.await_value(s2, fut, ctx, bb, tag + "fa")]
        fin, stops = E.run_iter(st, E.V(st, args[0]), ctx, bb, body, tag + "st")
        return [(fin, ok(UNIT) if tr else UNIT)] + stops
    if sh in ("TryStreamExt::try_collect", "StreamExt::collect"):
        c = Call(E, st, {"cn": cn, "heads": list(hs)}, cn, list(args), [], "", RESULT if "try" in sh else "alloc::vec::Vec", ctx, bb, tag, False)
        return do_collect(c, E.V(st, args[0]), RESULT if "try_" in sh else "alloc::vec::Vec", "")
    # effectful library future: the effect happens when polled
    c = Call(E, st, {"cn": cn, "heads": list(hs)}, cn, list(args), list(f.a[2][2]) if False else [], dt, dh, ctx, bb, tag, False)
    if cn.endswith("read_to_end"):
        return read_to_end(c)
    return E.external(c)


@reg("S3::put_object", "S3::get_object", "S3::list_objects_v2", "AsyncReadExt::read_to_end", "S3::list_objects", "S3::head_object", "S3::delete_object",
     "S3::copy_object", "S3::create_multipart_upload", "S3::upload_part", "AsyncReadExt::read_exact", "AsyncReadExt::read", "time::sleep", "S3::delete_objects")
def h_fut(c):
    return one(c.st, mk("fut", c.cn, tuple(c.args), (c.dh, c.dt, ())))


def read_to_end(c):
    """appends everything the reader yields to the buffer"""
    st = c.st
    rd = c.E.resolve(st, c.args[0])
    site = c.E.site(c.ctx, c.bb, c.tag)
    t = mk("app", c.cn, (rd,), site)
    c.E.kill(st, t)
    for k in [k for k in st.st if t in k.leaves]:
        del st.st[k]
    st.st[t] = frozenset("?")
    c.E.event(st, c.cn, (rd,), t, c.ctx, c.bb, {"at": c.at, "dt": c.dt})
    cell, v = cell_of(c, c.args[1])
    if cell is not None:
        nv = app("content", rd)
        if not (v.op == "seq" and not v.a[1]) and not (v.op == "c" and v.a[1] == ""):
            nv = cat([v, nv])
        c.E.writeref(st, cell.a[0], cell.a[1], nv)
    return one(st, t)


@reg("Seek::seek", "Seek::rewind")
def h_seek(c):
    """back to the start: what was read from the file before does not matter"""
    cell, v = cell_of(c, c.args[0])
    if cell is None or v.op != "mut" or not (v.a[0].op == "fld" and v.a[0].a[0].op == "app" and v.a[0].a[0].a[0] == "std::fs::File::open"):
        return None
    if c.cn.endswith("seek"):
        p = c.r(1)
        if not (p.op == "agg" and p.a[1] == "Start" and p.a[3][0] is const(0)):
            return None
    c.E.writeref(c.st, cell.a[0], cell.a[1], v.a[0])
    t = app(c.cn, v.a[0], site=c.E.site(c.ctx, c.bb))
    c.st.st[t] = frozenset("?")
    c.E.event(c.st, c.cn, (v.a[0],), t, c.ctx, c.bb, {"at": c.at, "dt": c.dt})
    return one(c.st, t)


@reg("Read::read_to_end", "Read::read_to_string")
def h_rte(c):
    h = c.E.head_of(c.st, c.args[0])
    return read_to_end(c)


@reg("copy::copy", "io::copy", "functions::copy_decode")
def h_copy(c):
    """into a buffer in memory this is reading to the end"""
    cell, v = cell_of(c, c.args[1])
    if cell is None or not (v.op == "seq" or v.op == "app" and v.a[0] in ("content", "cat")):
        return None
    if c.cn.endswith("copy_decode"):
        c.args[0] = mk("fld", app("zstd::stream::functions::decode_all", c.args[0]), "0", "Ok")
    c.cn = "std::io::Read::read_to_end"
    return read_to_end(c)


# --- async plumbing
@reg("Future::poll")
def h_poll(c):
    f = c.args[0]
    out = []
    for s, v in c.E.await_value(c.st, f, c.ctx, c.bb):
        out.append((s, agg(POLL, "Ready", ("0",), (v,))))
    return out


@reg("future::get_context", "core::future::get_context")
def h_getctx(c):
    return one(c.st, mk("sym", "cx"))


@reg("Runtime::block_on", "executor::block_on", "Handle::block_on")
def h_block_on(c):
    return c.E.await_value(c.st, c.args[-1], c.ctx, c.bb, "block")


# --- calls through traits
@reg("FnOnce::call_once", "FnMut::call_mut", "Fn::call")
def h_fncall(c):
    f = c.v(0)
    a = c.v(1)
    args = list(a.a[3]) if a.op == "agg" else []
    return c.E.call_value(c.st, f, args, c.ctx, c.bb, "fn")


# --- process, panics
@reg("process::exit", "process::abort")
def h_exit(c):
    code = c.r(0) if c.args else const(134)
    c.E.event(c.st, "exit", (code,), None, c.ctx, c.bb, {})
    c.E.exits.append(("exit", code, c.st.copy(), c.ctx, c.bb))
    return []


def h_panic(c):
    c.E.event(c.st, "panic", tuple(c.r(i) for i in range(len(c.args))), None, c.ctx, c.bb, {"what": short(c.cn), "err": None})
    return []


for _n in ("panic_fmt", "panic", "unreachable_display", "panic_display", "assert_failed", "panic_explicit", "panic_nounwind", "panic_str", "unreachable_panic"):
    H["panicking::" + _n] = h_panic
H["rt::begin_panic"] = h_panic
H["panicking::begin_panic"] = h_panic


@reg("panicking::todo_default_msg")
def h_todo(c):
    return h_panic(c) if c.diverges else one(c.st, const("not yet implemented"))


# --- logging
@reg("log::__private_api_log", "log::__private_api_enabled", "stdio::_eprint", "stdio::_print")
def h_log(c):
    if c.args:
        v = c.v(0)
        if v.op == "fargs":
            pass
    return one(c.st, UNIT if "enabled" not in c.cn else app("log_enabled", const(str(c.E.site(c.ctx, c.bb)))))


@reg("Graph::node_weight_mut", "Graph::edge_weight_mut", "Graph::node_weight", "Graph::edge_weight", "HashMap::get", "HashMap::get_mut")
def h_graphget(c):
    m = c.cn.rsplit("::", 1)[1].replace("_mut", "")
    g, i = c.r(0), c.r(1)
    t = app(short(c.cn).replace("_mut", ""), base_of(g), i)
    ev = app(short(c.cn), g, i)
    c.E.event(c.st, c.cn, (g, i), None, c.ctx, c.bb, {"t": t})
    return one(c.st, t)


def base_of(g):
    return g


@reg("StructOpt::from_args")
def h_from_args(c):
    return one(c.st, mk("sym", "args"))


def dispatch(c):
    sh = short(c.cn)
    h = H.get(sh)
    if h is None:
        h = H.get(c.cn)
    if c.E.maypanics(sh, c):
        c.E.event(c.st, "maypanic", tuple(c.r(i) for i in range(len(c.args))), None, c.ctx, c.bb, {"fn": sh, "doc": c.info.get("panics")})
    if h is not None:
        # io traits share method names with fmt: keep them apart
        return h(c)
    return None
