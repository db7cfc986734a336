"""Panic sites (C20; those of install that depend on `current`, the path or a patch also C06)."""
import json
from terms import *
from route import isastar

# Results that cannot be `Err`/`None`, with the reason
TOTAL = {
    "FileSize::file_size": "fails for negative numbers only; the argument is unsigned",
    "Builder::build": "starting the async runtime (outside the property)",
}
INDEXED = {"Vec::remove", "Vec::swap_remove", "VecDeque::swap_remove_back"}
NONZERO = {"[T]::windows", "[T]::chunks", "[T]::chunks_exact", "[T]::rchunks", "Iterator::step_by"}
MAYPANIC = INDEXED | {"[T]::split_at", "str::split_at", "Vec::insert", "Vec::split_off", "String::remove", "String::insert", "String::insert_str", "Vec::drain", "String::drain",
                      "[T]::copy_from_slice", "[T]::clone_from_slice", "RefCell::borrow", "RefCell::borrow_mut", "Duration::sub", "Instant::sub", "SystemTime::sub",
                      "SystemTime::add", "Duration::from_secs_f64", "Duration::from_secs_f32", "Duration::mul_f64", "[T]::select_nth_unstable", "[T]::rotate_left", "[T]::rotate_right",
                      "[T]::swap", "VecDeque::swap", "Path::with_extension", "PathBuf::set_extension", "Path::with_added_extension", "PathBuf::add_extension", "char::to_digit", "char::from_digit", "u32::from_str_radix"} | NONZERO


# foreign functions whose documentation speaks of panics that cannot happen, or that another rule covers
DOCUMENTED = {
    "[T]::sort_by": "the order of the elements is judged", "[T]::sort_unstable_by": "see sort_by", "[T]::sort": "the order of std and derived types is total",
    "[T]::sort_unstable": "see sort", "[T]::sort_by_key": "see sort", "[T]::sort_unstable_by_key": "see sort", "[T]::sort_by_cached_key": "see sort",
    "ArgMatches::value_of": "only for arguments that are not UTF-8, see `arguments`", "ArgMatches::values_of": "see value_of", "StructOpt::from_clap": "the derive is trusted",
    "Option::unwrap": "judged as `panic`", "Option::expect": "judged as `panic`", "Result::unwrap": "judged as `panic`", "Result::expect": "judged as `panic`",
    "Result::unwrap_err": "judged as `panic`", "Result::expect_err": "judged as `panic`",
    "panicking::panic_fmt": "judged as `panic`", "panicking::panic": "judged as `panic`", "panicking::panic_display": "judged as `panic`", "Index::index": "judged as `index`",
    "IndexMut::index_mut": "judged as `index`", "intrinsics::unreachable": "made by derives", "Future::poll": "made by `.await`",
    "Iterator::enumerate": "more than 2^64 elements", "Iterator::last": "infinite iterators", "Iterator::count": "more than 2^64 elements", "Iterator::rposition": "as long as memory", "functions::panicking": "only asks", "thread::panicking": "only asks", "Iterator::position": "more than 2^64 elements",
    "Iterator::sum": "more than 2^64", "Iterator::product": "more than 2^64",
    "Builder::init": "the logger is set once", "env_logger::init": "the logger is set once", "color_eyre::install": "`panic` names a hook", "Graph::add_node": "more than 2^32 nodes",
    "Graph::add_edge": "the nodes were added before", "Runtime::block_on": "`main` is not in a runtime; panics of the future are judged themselves",
    "Mutex::lock": "no lock is taken twice by a thread", "RwLock::read": "see lock", "RwLock::write": "see lock",
    "JoinHandle::join": "no thread joins itself", "env::set_var": "see remove_var", "env::remove_var": "names and values in the source",
    "Runtime::new": "starting the async runtime (outside the property)", "Arc::new": "", "thread::spawn": "no more threads (outside the property)",
}
CAPACITY = ("capacity", "isize::max", "usize::max", "allocat", "infinite", "memory", "previous rust versions", "propagated", "`f` panics", "closure panics", "already held by the current thread",
            "outside of the tokio runtime", "no current timer set", "outside of a tokio", "may reintroduce the panic", "poison", "panic upon overflow")


def benign(sh, doc):
    """the documented panic needs more memory than there is"""
    ps = [x for x in doc.replace("# Panics", ". ").split(". ") if "panic" in x.lower()]
    return all(any(w in x.lower() for w in CAPACITY) for x in ps)


ARITH = {"Add::add", "Sub::sub", "Mul::mul", "Div::div", "Rem::rem", "Neg::neg", "AddAssign::add_assign", "SubAssign::sub_assign", "MulAssign::mul_assign", "DivAssign::div_assign"}


class Sub:
    def __init__(self, args, extra):
        self.args, self.extra = args, extra


def variant(t):
    return t.a[1] if t.op == "agg" else None


def last(n):
    return n.rsplit("::", 1)[-1]


class Panics:
    def __init__(self, E, M, R):
        self.E, self.M, self.R = E, M, R
        E.maypanics = self.documented

    def documented(self, sh, c):
        if sh in MAYPANIC:
            return True
        if sh in ARITH:
            return any(x in c.selfhead() for x in ("time::", "chrono::"))
        d = c.info.get("panics")
        return bool(d) and sh not in DOCUMENTED and "::".join(c.cn.rsplit("::", 2)[-2:]) not in DOCUMENTED and not benign(sh, d)

    on_next = on_trunc = on_agg = lambda self, *a: None
    on_keep = lambda self, *a: None

    def on_assume(self, E, st, t, v):
        # the element that was just added is there
        if v == "None" and t.op == "app" and t.a[0] in ("Graph::node_weight", "Graph::edge_weight") and self.fresh(t.a[1][1]):
            st.ts.pop(("sideless",), None)

    def fresh(self, i):
        return i.op == "app" and last(i.a[0]) in ("add_node", "add_edge")

    def on_event(self, E, st, e):
        M = self.M
        n = e.name
        if last(n) in ("add_node", "add_edge") and "petgraph" in n:
            w = e.args[-1]
            if w.op == "agg" and "local" in w.a[2] and variant(fld(w, "local")) == "None" and variant(fld(w, "remote")) == "None":
                st.ts[("sideless",)] = frozenset("y")
            return
        if n == "store":
            v = e.args[1]
            if self.R.C.fieldof(e.args[0]):
                there = variant(v) != "None"
            else:
                there = v.op == "agg" and "local" in v.a[2] and "remote" in v.a[2] and any(variant(fld(v, f)) == "Some" for f in ("local", "remote"))
            if there:
                st.ts.pop(("sideless",), None)
            return
        if n.startswith("bidiff::simple_diff") and len(e.args) >= 3:
            n = "diff"
        if n not in ("panic", "assert", "index", "maypanic", "diff"):
            return
        if n == "assert" and e.extra["kind"] in ("overflow:Add", "overflow:Mul", "overflow:Shl", "overflow:Shr"):
            return          # counters and sizes of 64 bits
        M.ob("C20", (n, e.key, e.span), None)
        why = getattr(self, n)(st, e)
        if why is None:
            return
        M.bad("C20", why[0], why[1], e)
        if M.cmd(st) == "Install":
            xs = list(e.args) + [t for t, _ in st.dec if n == "panic"]
            r = [x for x in (self.R.unfit(st, y) for y in xs) if x]
            if r:
                M.bad("C06", "panic-" + r[0][0], "install may panic although the build could be fetched directly: %s" % r[0][1], e)

    # ---- explicit panics, unwrap and expect
    def panic(self, st, e):
        what = e.extra["what"]
        if "unwrap" in what or "expect" in what:
            r = e.args[0]
            if r.op == "app" and (r.a[0] in TOTAL or "::".join(r.a[0].rsplit("::", 2)[-2:]) in TOTAL):
                return None
            return ("unwrap", "%s panics if %s fails" % (what, show(r, 3)[:100]))
        d = [(t, v) for t, v in st.dec]
        if d and all(v == "None" and t.op == "fld" and t.a[1] in ("local", "remote") and self.weight(t.a[0]) for t, v in d) and ("sideless",) not in st.ts:
            # every weight of the graph has at least one side
            o = "remote" if d[0][0].a[1] == "local" else "local"
            if st.facts.get(fld(d[0][0].a[0], o)) == "None":
                return None
        return ("panic", "an explicit panic is reachable: %s" % ", ".join("%s = %s" % (show(t, 3)[:60], v) for t, v in d)[:140])

    def weight(self, w):
        """a node or edge of the graph"""
        while w.op == "fld":
            if w.a[1] == "weight":
                return True
            w = w.a[0]
        if w.op == "app":
            l = last(w.a[0])
            if l in ("node_weight", "edge_weight", "weight"):
                return True
            if l == "index" and self.isgraph(w.a[1][0]):
                return True
        if w.op == "elem":
            return any(x.op == "app" and last(x.a[0]) in ("raw_nodes", "raw_edges", "node_weights", "edge_weights") for x in subterms(w))
        return False

    def isgraph(self, g):
        while g.op == "mut":
            g = g.a[0]
        return g.op == "app" and g.a[0] == "default" and "petgraph" in str(g.a[1][0].a[1])

    # ---- lengths
    def alts(self, t):
        return [m for m in t.a[0] if m.op != "moved"] if t.op == "phi" else [t]

    def minlen(self, st, x):
        n = 0
        ln = app("len", x)
        if x.op == "phi":
            n = min(self.minlen(st, m) for m in self.alts(x))
        if x.op == "agg" and x.a[0] == "array":
            return len(x.a[3])
        if x.op == "c" and x.a[0] == "str":
            return len(x.a[1])
        if x.op == "cat":
            n = sum(len(y.a[1].encode()) for y in x.a[0] if y.op == "c" and isinstance(y.a[1], str))
        if x.op == "seq" and "ne" in x.a[0]:
            n = 1
        y = x
        while y.op == "fld":
            y = y.a[0]
        if isastar(y):
            n = 1           # a path has its start
        if x.op == "elem" and x.a[0].op == "app" and last(x.a[0].a[0]) in ("windows", "chunks_exact") and x.a[0].a[1][1].op == "c":
            return x.a[0].a[1][1].a[1]
        if x.op == "elem" and x.a[0].op == "app" and last(x.a[0].a[0]) == "chunks":
            n = 1
        for t, v in st.facts.items():
            if t.op != "app" or len(t.a[1]) != 2:
                continue
            a, b = t.a[1]
            if t.a[0] == "eq" and v is True and ln in (a, b):
                o = b if a is ln else a
                if o.op == "c":
                    n = max(n, o.a[1])
            elif t.a[0] == "eq" and v is False and ln in (a, b) and const(0) in (a, b):
                n = max(n, 1)
            elif t.a[0] in ("lt", "le") and b is ln and a.op == "c" and v is True:
                n = max(n, a.a[1] + (t.a[0] == "lt"))
            elif t.a[0] in ("lt", "le") and a is ln and b.op == "c" and v is False:
                n = max(n, b.a[1] + (t.a[0] == "le"))
        for t, v in st.facts.items():
            if v is False and t.op == "app" and last(t.a[0]) == "is_empty" and t.a[1][0] is x:
                n = max(n, 1)
        return n

    def samelen(self, y, x):
        if y is x:
            return True
        f = self.E.lenof
        seen = set()
        while y in f and y not in seen:
            seen.add(y)
            y = f[y]
        seen = set()
        while x in f and x not in seen:
            seen.add(x)
            x = f[x]
        return x is y

    def below(self, st, i, x):
        """i < len(x)"""
        if i.op == "phi":
            return all(self.below(st, m, x) for m in self.alts(i))
        if i.op == "c":
            return isinstance(i.a[1], int) and i.a[1] < self.minlen(st, x)
        if st.facts.get(app("lt", i, app("len", x))) is True or st.facts.get(app("le", app("len", x), i)) is False:
            return True
        if i.op == "app" and i.a[0] == "at":
            return self.samelen(i.a[1][0], x)
        if i.op == "app" and last(i.a[0]) in ("position", "rposition"):
            return any(self.samelen(y, x) for y in subterms(i.a[1][0]) if y.op != "c")
        if i.op == "elem" and i.a[0].op == "agg" and i.a[0].a[0].endswith("range::Range"):
            n = fld(i.a[0], "end")
            return self.slack(n, x) is not None or n.op == "c" and n.a[1] <= self.minlen(st, x)
        if i.op == "app" and i.a[0] == "add" and any(y.op == "c" for y in i.a[1]):
            o = [y for y in i.a[1] if y.op == "c"][0]
            e = i.a[1][1] if i.a[1][0] is o else i.a[1][0]
            if e.op == "elem" and e.a[0].op == "agg" and e.a[0].a[0].endswith("range::Range"):
                k = self.slack(fld(e.a[0], "end"), x)
                return k is not None and o.a[1] <= k
        if i.op == "app" and i.a[0] == "sub":
            a, b = i.a[1]
            if a.op == "app" and a.a[0] == "len" and self.samelen(a.a[1][0], x):
                return self.positive(st, b)
            return self.below(st, a, x) or self.upto(st, a, x) and self.positive(st, b)
        if i.op == "app" and last(i.a[0]) == "min":
            return any(self.below(st, a, x) for a in i.a[1])
        return False

    def slack(self, n, x):
        """by how much n is less than len(x), at least"""
        if n.op == "app" and n.a[0] == "len" and self.samelen(n.a[1][0], x):
            return 0
        if n.op == "app" and n.a[0] == "sub" and n.a[1][1].op == "c":
            k = self.slack(n.a[1][0], x)
            return None if k is None else k + n.a[1][1].a[1]
        return None

    def upto(self, st, i, x):
        """i <= len(x)"""
        if i.op == "phi":
            return all(self.upto(st, m, x) for m in self.alts(i))
        if i.op == "c":
            return i.a[1] <= self.minlen(st, x)
        if i.op == "app" and i.a[0] == "len" and self.samelen(i.a[1][0], x):
            return True
        if i.op == "app" and i.a[0] == "sub" and self.upto(st, i.a[1][0], x):
            return True
        if i.op == "app" and i.a[0] == "count" and any(self.samelen(y, x) for y in subterms(i.a[1][0])):
            return True
        if i.op == "app" and i.a[0] == "add" and i.a[1][1] is const(1) and self.below(st, i.a[1][0], x):
            return True
        return self.below(st, i, x)

    def positive(self, st, b):
        if b.op == "phi":
            return all(self.positive(st, m) for m in self.alts(b))
        if b.op == "c":
            return b.a[1] >= 1
        if b.op == "app" and b.a[0] == "add" and any(x.op == "c" and x.a[1] >= 1 for x in b.a[1]):
            return True
        if b.op == "app" and b.a[0] == "len":
            return self.minlen(st, b.a[1][0]) >= 1
        if b.op == "app" and b.a[0] == "sub" and b.a[1][0].op == "app" and b.a[1][0].a[0] == "len":
            return self.below(st, b.a[1][1], b.a[1][0].a[1][0])
        if b.op == "elem" and b.a[0].op == "agg" and "range::Range" in b.a[0].a[0]:
            s = fld(b.a[0], "start")
            return s.op == "c" and s.a[1] >= 1
        return st.facts.get(app("eq", const(0), b)) is False or st.facts.get(app("eq", b, const(0))) is False or st.facts.get(app("lt", const(0), b)) is True

    def atleast(self, st, a, b):
        """a >= b"""
        if b.op == "phi" and len(b.a[0]) < 6:
            return all(self.atleast(st, a, m) for m in self.alts(b))
        if a is b or a.op == "c" and b.op == "c" and a.a[1] >= b.a[1]:
            return True
        for t, v in ((app("lt", b, a), True), (app("le", b, a), True), (app("lt", a, b), False), (app("le", a, b), False)):
            if st.facts.get(t) is v:
                return True
        if b is const(1):
            return self.positive(st, a)
        if a.op == "app" and a.a[0] == "len":
            x = a.a[1][0]
            for t, v in st.facts.items():
                if v is True and t.op == "app" and t.a[0] in ("str::ends_with", "str::starts_with") and t.a[1][0] is x:
                    p = t.a[1][1]
                    if b is app("len", p) or b.op == "c" and p.op == "c" and isinstance(p.a[1], str) and b.a[1] <= len(p.a[1].encode()):
                        return True
            return self.upto(st, b, x)
        if a.op == "app" and a.a[0] == "add" and b in a.a[1]:
            return True
        if b.op == "app" and last(b.a[0]) == "min" and a in b.a[1]:
            return True
        return False

    # ---- compiler-made checks
    def assert_(self, st, e):
        k = e.extra["kind"]
        c = e.args[0]
        if k == "bounds":
            i, ln = e.extra["index"], e.extra["len"]
            if ln.op == "app" and ln.a[0] == "len" and self.below(st, i, ln.a[1][0]):
                return None
            if ln.op == "c" and i.op == "c" and i.a[1] < ln.a[1]:
                return None
            return ("bounds", "index %s may be out of bounds" % show(i, 3)[:80])
        if k == "overflow:Sub":
            x = c.a[1][0] if c.op == "app" and c.a[0] == "overflow" else c
            if x.op == "app" and x.a[0] == "not":
                x = x.a[1][0]
            if x.op == "app" and x.a[0] == "sub" and self.atleast(st, *x.a[1]):
                return None
            return ("underflow", "the subtraction %s may underflow" % show(x, 3)[:80])
        if "zero" in k.lower():
            for x in subterms(c):
                if x.op == "app" and x.a[0] == "eq" and const(0) in x.a[1]:
                    o = [y for y in x.a[1] if y is not const(0)]
                    if o and self.positive(st, o[0]):
                        return None
            return ("div", "the division may be by zero")
        return ("assert", "the check `%s` may fail" % k)

    def index(self, st, e):
        r, i = e.args
        sh = e.extra["self"]
        if "HashMap" in sh or "BTreeMap" in sh:
            for t, v in st.facts.items():
                if t.op == "app" and len(t.a[1]) == 2 and t.a[1][1] is i and t.a[1][0] is r and (last(t.a[0]) == "contains_key" and v is True or last(t.a[0]) in ("get", "get_mut") and v == "Some"):
                    return None
            return ("missing-key", "the map may have no entry %s" % show(i, 3)[:80])
        if "petgraph" in sh:
            for m in self.alts(i):
                ok = False
                for x in subterms(m):
                    if x.op == "app" and (x.a[0] in ("HashMap::get", "HashMap::get_mut") or x.a[0] == "index") or self.fresh(x) or self.R.searchof(x):
                        ok = True
                if not ok:
                    return ("graph-index", "the graph may have no %s" % show(m, 3)[:80])
            return None
        if i.op == "agg" and "range::" in i.a[0]:
            k = i.a[0].rsplit("::", 1)[-1]
            if k == "RangeFull":
                return None
            s = fld(i, "start") if "start" in i.a[2] else const(0)
            n = fld(i, "end") if "end" in i.a[2] else fld(i, "last") if "last" in i.a[2] else None
            if sh in ("str", "alloc::string::String") or "str" == sh.lstrip("&"):
                return None if self.strpos(st, s, r) and (n is None or self.strpos(st, n, r)) and (s is const(0) or n is None) else \
                    ("str-slice", "the text %s may be shorter or not have a character boundary there" % show(r, 3)[:60])
            if n is None:
                return None if self.upto(st, s, r) else ("slice", "the slice may start after the end of %s" % show(r, 2)[:60])
            incl = "Inclusive" in k
            if (self.below if incl else self.upto)(st, n, r) and (s is const(0) or self.atleast(st, n, s)):
                return None
            return ("slice", "the slice may leave %s" % show(r, 2)[:60])
        if self.below(st, i, r):
            return None
        return ("bounds", "index %s may be out of bounds of %s" % (show(i, 3)[:60], show(r, 2)[:60]))

    def sametext(self, x, s):
        """the same text; in a loop that shortens it, one of the same round"""
        if x is s:
            return True
        xs, ss = set(self.alts(x)), set(self.alts(s))
        return bool(xs & ss)

    def strpos(self, st, i, s):
        """a character boundary inside s"""
        if i.op == "phi":
            return all(self.strpos(st, m, s) for m in self.alts(i))
        if i is const(0) or i.op == "app" and i.a[0] == "len" and self.sametext(i.a[1][0], s):
            return True
        x = i
        while x.op == "fld":
            x = x.a[0]
        if (x.op == "elem" or x.op == "app" and x.a[0].startswith("pick:")) and any(y.op == "app" and last(y.a[0]) in ("char_indices", "match_indices", "rmatch_indices") and self.sametext(y.a[1][0], s) for y in subterms(x)):
            return i.op == "fld" and i.a[1] == "0"
        if i.op == "app" and last(i.a[0]) == "len_utf8" and self.firstchar(i.a[1][0], s):
            return True
        x = i
        while x.op == "fld":
            x = x.a[0]
        if x.op == "app" and last(x.a[0]) in ("find", "rfind") and self.sametext(x.a[1][0], s):
            return True
        if x.op == "app" and x.a[0] == "add":
            a, b = x.a[1]
            y = a
            while y.op == "fld":
                y = y.a[0]
            if y.op == "app" and last(y.a[0]) in ("find", "rfind") and self.sametext(y.a[1][0], s):
                p = y.a[1][1]
                return b is app("len", p) or b.op == "c" and p.op == "c" and isinstance(p.a[1], str) and len(p.a[1].encode()) == b.a[1]
        ln = i.a[1] if i.op == "c" else None
        for t, v in st.facts.items():
            if t.op == "app" and v is True and last(t.a[0]) == "starts_with" and t.a[1][0] is s:
                p = t.a[1][1]
                if i is app("len", p) or p.op == "c" and isinstance(p.a[1], str) and len(p.a[1].encode()) == ln:
                    return True
            if t.op == "app" and v is True and last(t.a[0]) == "ends_with" and t.a[1][0] is s and i.op == "app" and i.a[0] == "sub" and i.a[1][0] is app("len", s):
                p, b = t.a[1][1], i.a[1][1]
                if b is app("len", p) or p.op == "c" and b.op == "c" and isinstance(p.a[1], str) and len(p.a[1].encode()) == b.a[1]:
                    return True
        return False

    # ---- contract of the library that calculates patches (found by reading it; its documentation says nothing)
    def diff(self, st, e):
        old = e.args[0]
        if self.minlen(st, old) < 1:
            return ("diff-empty", "calculating a patch panics if the old build has no content")
        if len(e.args) < 4:
            ns = [const(1)]
        else:
            ns = []
            for m in self.alts(e.args[3]):
                while m.op == "fld":
                    m = m.a[0]
                if not (m.op == "app" and last(m.a[0]) == "new" and "DiffParams" in m.a[0]):
                    ns.append(const(1))
                else:
                    ns.append(m.a[1][0])
        for n in ns:
            if not self.parted(st, n, old):
                return ("diff-size", "calculating a patch panics if the old build has 2 GiB or more for each of the %s partitions" % show(n, 3)[:60])
        return None

    LIMIT = 2 ** 31 - 2

    def parted(self, st, n, old):
        """n partitions of the content have less than i32::MAX bytes each"""
        ln = app("len", old)
        if n.op == "phi":
            return all(self.parted(st, m, old) for m in self.alts(n))
        if n.op == "app" and last(n.a[0]) == "max":
            return any(self.parted(st, m, old) for m in n.a[1])
        if n.op == "app" and last(n.a[0]) == "min":
            return all(self.parted(st, m, old) for m in n.a[1])
        if n.op == "app" and last(n.a[0]) == "clamp":
            return self.parted(st, n.a[1][0], old) and self.parted(st, n.a[1][2], old)
        if n.op == "app" and n.a[0] == "add":
            for x, k in (n.a[1], n.a[1][::-1]):
                if self.parted(st, x, old):
                    return True
                if self.positive(st, k) and x.op == "app" and x.a[0] == "div" and x.a[1][0] is ln and x.a[1][1].op == "c" and 1 <= x.a[1][1].a[1] <= self.LIMIT:
                    return True
            return False
        if n.op == "app" and last(n.a[0]) == "div_ceil" and n.a[1][0] is ln:
            return n.a[1][1].op == "c" and 1 <= n.a[1][1].a[1] < self.LIMIT
        for t, v in st.facts.items():
            if t.op != "app" or t.a[0] not in ("lt", "le") or len(t.a[1]) != 2:
                continue
            a, b = t.a[1]
            c = b if a is ln and v is True else a if b is ln and v is False else None
            if c is not None and c.op == "c" and isinstance(c.a[1], int) and c.a[1] <= self.LIMIT:
                return True
        return False

    def arguments(self):
        """clap hands out argument values as text, and panics for those that are not: they have to be rejected before"""
        p = self.E.p
        root, roots = None, set()
        need = []
        for k, b in p.bodies.items():
            for bl in b["blocks"]:
                t = bl["term"]
                if t.get("t") != "call" or not isinstance(t.get("f"), dict):
                    continue
                cn = t["f"].get("cn", "")
                if cn.endswith(("ArgMatches::value_of", "ArgMatches::values_of")):
                    need.append((k, t.get("sp")))
                elif cn.endswith("StructOpt::from_args"):
                    roots |= {x.replace("artefacta::", "") for x in t["f"].get("args", [])[:1]}
        if not need:
            return
        fine = False
        direct = set()
        for k, b in p.bodies.items():
            j = b
            if j.get("implself") in roots and "StructOpt" in str(j.get("impltrait")):
                for bl in b["blocks"]:
                    t = bl["term"]
                    if t.get("t") == "call" and isinstance(t.get("f"), dict) and t["f"].get("cn", "").endswith("augment_clap"):
                        direct |= {x.replace("artefacta::", "") for x in t["f"].get("args", [])[:1]}
        for k, b in p.bodies.items():
            j = b
            own = j.get("implself") in roots | direct and "StructOpt" in str(j.get("impltrait"))
            if not own and "StructOpt" in str(j.get("impltrait")):
                continue
            strict = any("StrictUtf8" in json.dumps(x) for n, x in p.bodies.items() if n == k or n.startswith(k + "::promoted"))
            for bl in b["blocks"]:
                t = bl["term"]
                if t.get("t") == "call" and isinstance(t.get("f"), dict) and t["f"].get("cn", "").endswith(("App::global_setting", "App::global_settings")) and strict:
                    fine = True
        self.M.ob("C20", ("arguments", len(need)), None)
        if not fine:
            self.M.bad("C20", "arguments", "an argument that is not valid UTF-8 makes `value_of` panic (%d uses): no `StrictUtf8` setting rejects it before" % len(need), fn=need[0][0])

    def noseparator(self, st, t):
        """part of a file name"""
        if t.op == "phi":
            return all(self.noseparator(st, m) for m in self.alts(t))
        if t.op == "cat":
            return all(self.noseparator(st, m) for m in t.a[0])
        if t.op == "c":
            return "/" not in str(t.a[1])
        if t.op == "app" and t.a[0] in ("display", "debug", "to_string") and t.a[1]:
            return self.noseparator(st, t.a[1][0])
        if t.op == "app" and last(t.a[0]) in ("id", "as_nanos", "as_secs", "as_millis", "as_micros", "file_name", "file_stem", "extension", "len"):
            return True
        if t.op == "app" and last(t.a[0]) in ("to_string_lossy", "to_str", "to_owned", "as_ref", "into_owned", "as_os_str", "to_os_string"):
            return self.noseparator(st, t.a[1][0])
        if t.op == "fld" and t.a[0].op == "app":
            return self.noseparator(st, t.a[0])
        return False

    def firstchar(self, c, s):
        if c.op == "phi":
            return all(self.firstchar(m, s) for m in self.alts(c))
        while c.op == "fld":
            c = c.a[0]
        if c.op != "elem" or c.a[0].op != "app" or c.a[0].a[0] != "str::chars":
            return False
        x = c.a[0].a[1][0]
        return self.sametext(x, s)

    def maypanic(self, st, e):
        f = e.extra["fn"]
        a = e.args
        if e.extra.get("why"):
            return ("order", "`%s` may panic: %s" % (f, e.extra["why"]))
        if f in INDEXED and self.below(st, a[1], a[0]):
            return None
        if f in NONZERO and a[1].op == "c" and a[1].a[1] >= 1:
            return None
        if f in ("Vec::insert", "Vec::split_off", "[T]::split_at") and self.upto(st, a[1], a[0]):
            return None
        if f in ("Vec::drain",) and a[1].op == "agg" and a[1].a[0].endswith("RangeFull"):
            return None
        if f in ("str::split_at",) and self.strpos(st, a[1], a[0]):
            return None
        if f == "[T]::swap" and self.below(st, a[1], a[0]) and self.below(st, a[2], a[0]):
            return None
        if f in ("String::truncate", "String::split_off", "str::split_at_mut") and self.strpos(st, a[1], a[0]):
            return None
        if f in ("String::drain", "String::replace_range", "Vec::drain", "Vec::splice", "Vec::extend_from_within", "[T]::copy_within"):
            return self.index(st, Sub((a[0], a[1]), {"self": "str" if f.startswith("String") else "[T]"}))
        if last(f) in ("div_ceil", "rem_euclid", "div_euclid", "next_multiple_of", "div_floor") and len(a) > 1 and self.positive(st, a[1]):
            return None
        if last(f) in ("ilog2", "ilog10") and self.positive(st, a[0]):
            return None
        if last(f) == "clamp" and self.atleast(st, a[2], a[1]):
            return None
        if f in ("[T]::split_at_mut",) and self.upto(st, a[1], a[0]):
            return None
        if f in ("Path::with_extension", "PathBuf::set_extension", "Path::with_added_extension", "PathBuf::add_extension"):
            return None if self.noseparator(st, a[1]) else ("extension", "`%s` panics if the extension %s contains a path separator" % (f, show(a[1], 3)[:80]))
        if f.startswith("Duration::") and a and all(x.op == "c" for x in a):
            return None
        if f == "Semaphore::new" and a[0].op == "c" or f.startswith("Runtime") and all(x.op == "c" for x in a):
            return None
        if f.startswith("[T]::") and last(f) in ("rchunks_exact", "chunks_mut", "chunks_exact_mut", "rchunks_mut", "array_windows") and self.positive(st, a[1]):
            return None
        if last(f) in ("is_digit", "to_digit", "from_str_radix", "from_digit") and a[-1].op == "c" and 2 <= a[-1].a[1] <= 36:
            return None
        return ("may-panic", "`%s` may panic%s" % (f, ", its documentation says: " + e.extra["doc"][:160] if e.extra.get("doc") else ""))


setattr(Panics, "assert", Panics.assert_)
