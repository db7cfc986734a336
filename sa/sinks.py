"""Writers and readers defined in the workspace: the libraries that write through them rely on what they report (C01, C07)."""
from engine import *

RULES = {"core::io::write::Write": ("write", "flush", "write_vectored", "write_all"), "std::io::Write": ("write", "flush", "write_vectored", "write_all"),
         "core::io::read::Read": ("read", "read_to_end", "read_exact", "read_to_string", "read_vectored"),
         "std::io::Read": ("read", "read_to_end", "read_exact", "read_to_string", "read_vectored")}
COUNT = {"write", "write_vectored", "read", "read_to_end", "read_to_string", "read_vectored"}


def prefix(t, buf):
    """the buffer or a leading part of it"""
    if t is buf:
        return True
    if t.op == "app" and t.a[0] in ("index", "index_mut", "subslice") and t.a[1]:
        r = t.a[1][1] if len(t.a[1]) > 1 else None
        return t.a[1][0] is buf and r is not None and r.op == "agg" and ("RangeTo" in r.a[0] or "RangeFull" in r.a[0])
    return False


def alts(t):
    return [y for m in t.a[0] if m.op != "moved" for y in alts(m)] if t.op == "phi" else [t]


def check(p, M):
    for im in p.impls:
        rule = RULES.get(im.get("trait"))
        if rule is None:
            continue
        for name, key in im["fns"]:
            if key not in p.bodies:
                continue
            if name not in rule:
                M.bad("C01", "unknown-sink", "`%s` of a writer defined here is not understood" % name, fn=key)
                continue
            one(p, M, name, key)


def one(p, M, name, key):
    E = Engine(p)
    ctx = E.ctx(0, key, -1, "")
    buf = mk("sym", "buf")
    args = [mk("sym", "self")] + ([buf] if name != "flush" else [])
    outs = E.exec_body(p.body(key), ctx, S(), args[:p.body(key).nargs], purge=False, quiet=True)
    M.ob("C01", ("sink", key), None)
    self_ = args[0]

    def inner(t, names):
        """the result of handing the same bytes to the writer inside"""
        if t.op != "app" or "::" not in t.a[0] or t.a[0].rsplit("::", 1)[1] not in names:
            return False
        a = t.a[1]
        return bool(a) and any(x is self_ for x in subterms(a[0])) and (name == "flush" or len(a) > 1 and prefix(a[1], buf))

    same = {name} | ({"write_all"} if name in ("write", "write_all") else set())
    fine = set()
    for s, v in outs:
        for x in alts(v):
            if inner(x, {name}):
                continue
            if x.op == "agg" and x.a[1] == "Err" or x.op == "fld" and x.a[2] == "Err":
                continue
            if x.op == "agg" and x.a[1] == "Ok":
                full = any(f.op == "app" and w == "Ok" and inner(f, same | {"write_all"}) and (name == "flush" or f.a[1][1] is buf)
                           and (name == "flush" or f.a[0].endswith(("write_all", "read_exact"))) for f, w in s.facts.items())
                if name == "flush":
                    full = any(f.op == "app" and w == "Ok" and inner(f, {"flush"}) for f, w in s.facts.items())
                ys = alts(x.a[3][0])
                if name in COUNT:
                    if all(y.op == "fld" and inner(y.a[0], {name}) for y in ys):
                        continue
                    if full and all(y is app("len", buf) for y in ys):
                        continue
                    if all(y is const(0) for y in ys):
                        continue
                elif full:
                    continue
                elif name != "flush" and any(f.op == "app" and f.a[0] == "lt" and f.a[1][0] is const(0) and w is False and any(z is buf for z in subterms(f)) for f, w in s.facts.items()):
                    continue
            M.bad("C01", "sink-" + name, "`%s` may report success without having passed on the bytes it was given" % name, fn=key)
