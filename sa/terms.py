"""Hash-consed provenance terms.

A term says where a value came from: constants, projections of opaque values,
applications of library functions, aggregates, joins.  Terms that denote something
which can change between two evaluations at one program point (the result of an
effectful call, the element of an iteration, a mutated container) are `leaves`: when the
program point is executed again, every fact that mentions the leaf is forgotten.
"""

_tab = {}


class T:
    __slots__ = ("op", "a", "n", "leaves", "depth")

    def __repr__(self):
        return show(self)


_E = frozenset()


def _kids(a):
    for x in a:
        if isinstance(x, T):
            yield x
        elif isinstance(x, tuple):
            yield from _kids(x)


MAXDEPTH = 60


def nomut(a):
    lv = set()
    for c in _kids(a):
        if not c.leaves:
            continue
        if c.op == "mut":
            lv |= nomut(c.a[:1])
        elif c.op == "elem" or all(l.op != "mut" for l in c.leaves):
            lv |= c.leaves
        else:
            if c.op == "unk" or (c.op == "app" and c.a[2] is not None):
                lv.add(c)
            lv |= nomut(c.a)
    return frozenset(lv)


def mk(op, *a):
    if op == "app" and a[2] is not None:
        # the result of an earlier round at the same place
        old = {l for c in a[1] for l in c.leaves if l.op == "app" and l.a[0] == a[0] and l.a[2] == a[2]}
        if old:
            p = mk("prev", a[0], a[2])
            for l in old:
                a = (a[0], tuple(subst(c, l, p) for c in a[1]), a[2])
    k = (op, a)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t.n = len(_tab)
        d = 0
        lv = _E
        for c in _kids(a):
            if c.depth > d:
                d = c.depth
            if c.leaves:
                lv = lv | c.leaves if lv else c.leaves
        t.depth = d + 1
        if op == "elem":
            # the element was taken when the loop took it: later changes of the collection do not touch it
            lv = nomut(k[1])
        if op in ("elem", "mut", "unk") or (op == "app" and a[2] is not None):
            lv = lv | {t}
        t.leaves = lv
        if t.depth > MAXDEPTH and op not in ("unk", "item"):
            t = mk("unk", "deep:" + op)
        _tab[k] = t
    return t


def const(v, ty=None):
    if isinstance(v, bool):
        return mk("c", "bool", v)
    if isinstance(v, int):
        return mk("c", "int", v)
    return mk("c", "str", v)


TRUE = const(True)
FALSE = const(False)
UNIT = mk("agg", "tuple", "", (), ())
MOVED = mk("moved")
UNK = mk("unk", "?")


def unk(tag):
    return mk("unk", tag)


def app(f, *args, site=None):
    return mk("app", f, tuple(args), site)


def agg(adt, var, names, vals):
    return mk("agg", adt, var, tuple(names), tuple(vals))


OPTION = "core::option::Option"
RESULT = "core::result::Result"
POLL = "core::task::poll::Poll"
CF = "core::ops::control_flow::ControlFlow"


def some(x):
    return agg(OPTION, "Some", ("0",), (x,))


NONE = agg(OPTION, "None", (), ())


def ok(x):
    return agg(RESULT, "Ok", ("0",), (x,))


def err(x):
    return agg(RESULT, "Err", ("0",), (x,))


def tup(*xs):
    return agg("tuple", "", tuple(str(i) for i in range(len(xs))), tuple(xs))


# fallible conversions whose success value is the argument
PASS = {"Path::to_str"}


def fld(b, name, var=None):
    if b.op == "agg":
        if var is None or b.a[1] == var:
            try:
                return b.a[3][b.a[2].index(name)]
            except ValueError:
                return mk("unk", "nofield:" + name)
        return mk("unk", "wrongvariant")
    if b.op in ("clo", "cor"):
        try:
            return b.a[1][int(name)]
        except (ValueError, IndexError):
            return mk("unk", "noupvar:" + name)
    if b.op == "app" and name == "0" and b.a[0] in PASS and var in ("Some", "Ok"):
        return b.a[1][0]
    if b.op == "upd":
        if b.a[1] == name:
            return b.a[2]
        return fld(b.a[0], name, var)
    if b.op == "phi":
        xs = []
        for m in b.a[0]:
            if m.op == "moved":
                continue
            if m.op == "agg" and var is not None and m.a[1] != var:
                continue
            xs.append(fld(m, name, var))
        return phi(xs) if xs else mk("unk", "nophi")
    if b.op in ("moved", "uninit"):
        return b
    if b.op == "ref":
        return mk("ref", b.a[0], b.a[1] + (("f", name, var),))
    return mk("fld", b, name, var)


PHICAP = 12
ERRCAP = 400


def phi(xs, cap=None):
    s = set()
    for x in xs:
        if x.op == "phi":
            s.update(x.a[0])
        else:
            s.add(x)
    if len(s) == 1:
        return next(iter(s))
    if len(s) > (cap or ERRCAP):
        return mk("unk", "widephi")
    return mk("phi", tuple(sorted(s, key=lambda t: t.n)))


def join_val(a, b):
    if a is b:
        return a
    if a.op == "agg" and b.op == "agg" and a.a[0] == b.a[0] and a.a[1] == b.a[1] and a.a[2] == b.a[2]:
        return agg(a.a[0], a.a[1], a.a[2], tuple(join_val(x, y) for x, y in zip(a.a[3], b.a[3])))
    if a.op == "seq" and b.op == "seq":
        tg = set(a.a[0]) | set(b.a[0])
        if not ("ne" in a.a[0] and "ne" in b.a[0]):
            tg.discard("ne")
        return seq(tg, set(a.a[1]) | set(b.a[1]))
    if a.op == "seq" and b.op == "unk":
        return b
    if a.op == "fut" and b.op == "fut" and a.a[0] == b.a[0] and a.a[2] == b.a[2] and len(a.a[1]) == len(b.a[1]):
        return mk("fut", a.a[0], tuple(join_val(x, y) for x, y in zip(a.a[1], b.a[1])), a.a[2])
    if a.op == "mut" and b.op == "mut" and a.a[0] is b.a[0]:
        return mk("mut", a.a[0], tuple(sorted(set(a.a[1]) | set(b.a[1]), key=lambda t: t.n)))
    if a.op == "mut" and a.a[0] is b:
        return a
    if b.op == "mut" and b.a[0] is a:
        return b
    return phi([a, b])


def seq(tags, items):
    """items: set of T('item', term, facts)"""
    items = sorted(set(items), key=lambda t: t.n)
    return mk("seq", tuple(sorted(tags)), tuple(items))


def cat(parts):
    out = []
    for p in parts:
        if p.op == "cat":
            ps = p.a[0]
        else:
            ps = (p,)
        for q in ps:
            if q.op == "c" and q.a[0] in ("str", "char"):
                if q.a[1] == "":
                    continue
                if out and out[-1].op == "c" and out[-1].a[0] == "str":
                    out[-1] = const(out[-1].a[1] + q.a[1])
                    continue
                q = const(q.a[1])
            out.append(q)
    if not out:
        return const("")
    if len(out) == 1:
        return out[0]
    if len(out) > 40:
        return mk("unk", "longcat")
    for i, q in enumerate(out):
        # one of a few texts in the midst of others
        if 0 < i < len(out) - 1 and q.op == "phi" and 2 <= len(q.a[0]) <= 3 and all(x.op == "c" and x.a[0] == "str" for x in q.a[0]):
            return phi([cat(out[:i] + [x] + out[i + 1:]) for x in q.a[0]])
    return mk("cat", tuple(out))


def mutate(base, op):
    if base.op == "mut":
        ops = set(base.a[1])
        ops.add(op)
        base = base.a[0]
    else:
        ops = {op}
    if len(ops) > 30:
        return mk("unk", "manymut")
    return mk("mut", base, tuple(sorted(ops, key=lambda t: t.n)))


def short(name):
    """last two path segments: `Type::method` / `module::function`"""
    p = name.split("::")
    return "::".join(p[-2:])


def show(t, depth=8):
    if depth <= 0:
        return "…"
    d = depth - 1
    if isinstance(t, str):
        return t
    if not isinstance(t, T):
        return repr(t)
    o, a = t.op, t.a
    if o == "c":
        return repr(a[1])
    if o == "app":
        s = "%s(%s)" % (short(a[0]), ", ".join(show(x, d) for x in a[1]))
        return s + ("@%s" % (a[2],) if a[2] is not None else "")
    if o == "agg":
        nm = short(a[0]) if a[0] != "tuple" else ""
        if a[1] and a[1] != nm.split("::")[-1]:
            nm = a[1]
        nm = nm.split("::")[-1]
        if a[2] and a[2][0] != "0":
            return "%s{%s}" % (nm, ", ".join("%s: %s" % (n, show(v, d)) for n, v in zip(a[2], a[3])))
        return "%s(%s)" % (nm, ", ".join(show(v, d) for v in a[3]))
    if o == "fld":
        return "%s.%s%s" % (show(a[0], depth), (a[2] + "." if a[2] else ""), a[1])
    if o == "cat":
        return "cat[" + " + ".join(show(x, d) for x in a[0]) + "]"
    if o == "phi":
        return "{" + " | ".join(show(x, d) for x in a[0][:6]) + ("|…" if len(a[0]) > 6 else "") + "}"
    if o == "mut":
        return "mut(%s; %s)" % (show(a[0], d), ", ".join(show(x, d) for x in a[1]))
    if o == "elem":
        return "elem<%s>@%s" % (show(a[0], d), a[1])
    if o == "seq":
        return "seq<%s>[%s]" % (",".join(a[0]), "; ".join(show(x.a[0], d) for x in a[1]))
    if o == "ref":
        return "&%s%s" % (a[0], "".join("." + str(x) for x in a[1]))
    if o == "clo":
        return "clo:" + a[0].split("::", 1)[-1]
    if o == "cor":
        return "cor:" + a[0].split("::", 1)[-1]
    if o == "it":
        return "%s(%s)" % (a[0], show(a[1], d))
    return o + "(" + ",".join(show(x, d) for x in a) + ")"


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        st.extend(_kids(x.a))


def subst(t, a, b, memo=None):
    """replace subterm a by b"""
    if memo is None:
        memo = {}
    if t is a:
        return b
    r = memo.get(t)
    if r is not None:
        return r

    def sub(x):
        if isinstance(x, T):
            return subst(x, a, b, memo)
        if isinstance(x, tuple):
            return tuple(sub(y) for y in x)
        return x
    if t.op == "phi":
        r = phi([sub(m) for m in t.a[0]])
    else:
        r = mk(t.op, *sub(t.a))
    memo[t] = r
    return r


def outside(t, a, b):
    """replace subterm a by b, but not in the elements of collections"""
    if t is a:
        return b
    if t.op in ("seq", "it", "clo", "cor", "fut") or a not in t.leaves:
        return t

    def sub(x):
        if isinstance(x, T):
            return outside(x, a, b)
        if isinstance(x, tuple):
            return tuple(sub(y) for y in x)
        return x
    if t.op == "phi":
        return phi([sub(m) for m in t.a[0]])
    return mk(t.op, *sub(t.a))


def filled(t, d=0):
    """a string term that cannot be empty"""
    if d > 12:
        return False
    if t.op == "c":
        return t.a[0] == "str" and t.a[1] != ""
    if t.op == "cat":
        return any(filled(x, d + 1) for x in t.a[0])
    if t.op == "phi":
        return all(filled(x, d + 1) for x in t.a[0])
    if t.op == "fld" and t.a[1] == "0" and t.a[0].op == "app":
        b = t.a[0]
        return b.a[0] in ("file_name", "file_stem") or b.a[0] == "Path::to_str" and filled(b.a[1][0], d + 1)
    return t.op == "app" and t.a[0] == "basename"
