"""Interprocedural abstract interpreter over the dumped MIR.

Every call to a workspace function, closure or async body is followed into its body
(context-sensitively); library calls become provenance terms (terms.py), with the models
of natives.py for the std types that only move values around (Option, Result, String,
Path, iterators, formatting).  No path is handed to a solver: branches are decided only
by constants, by known enum variants and by facts recorded earlier on the path; states
that reach the same block with the same known variants are merged (must-facts are
intersected, may-information is united) until nothing changes.
"""
import heapq
import json
import os
import sys
from terms import *

sys.setrecursionlimit(20000)


def sccs(nodes, succ):
    """strongly connected components, successors before predecessors"""
    idx, low, on, st, out = {}, {}, set(), [], []
    for r in nodes:
        if r in idx:
            continue
        idx[r] = low[r] = len(idx)
        st.append(r)
        on.add(r)
        work = [(r, iter(succ(r)))]
        while work:
            v, it = work[-1]
            for w in it:
                if w not in idx:
                    idx[w] = low[w] = len(idx)
                    st.append(w)
                    on.add(w)
                    work.append((w, iter(succ(w))))
                    break
                if w in on:
                    low[v] = min(low[v], idx[w])
            else:
                work.pop()
                if work:
                    u = work[-1][0]
                    low[u] = min(low[u], low[v])
                if low[v] == idx[v]:
                    c = []
                    while True:
                        w = st.pop()
                        on.discard(w)
                        c.append(w)
                        if w == v:
                            break
                    out.append(c)
    return out


class Body:
    def __init__(self, j):
        self.key = j["key"]
        self.kind = j["kind"]
        self.j = j
        self.nargs = j["args"]
        self.blocks = j["blocks"]
        self.upvars = j.get("upvars", [])
        self.span = j["span"]
        self.vars = {int(k): v for k, v in j["vars"].items()}
        self._prep()

    def succ(self, bb):
        t = self.blocks[bb]["term"]
        k = t["t"]
        if k in ("goto", "drop", "assert", "yield"):
            return [t["to"]]
        if k == "call":
            return [t["to"]] if t["to"] >= 0 else []
        if k == "switch":
            return [b for _, b in t["arms"]] + [t["else"]]
        return []

    def loops(self, order):
        """blocks ordered so that a loop is complete before what follows it"""
        out = []
        self.heads = set()
        self.loopnodes = {}
        pos = {b: i for i, b in enumerate(order)}
        work = [list(order)]
        while work:
            nodes = work.pop()
            if len(nodes) == 1:
                out.append(nodes[0])
                continue
            ns = set(nodes)
            comps = sccs(nodes, lambda b: [x for x in self.succ(b) if x in ns])
            if len(comps) == 1:
                h = min(nodes, key=pos.get)
                self.heads.add(h)
                self.loopnodes[h] = ns
                work.append([x for x in nodes if x != h])
                out.append(h)
            else:
                # `sccs` yields successors first
                work.extend(comps)
        return out

    def counting(self):
        """variables that count up by one in every pass of a loop: head -> [(local, start)]"""
        inner = {}
        for h, ns in sorted(self.loopnodes.items(), key=lambda x: -len(x[1])):
            for b in ns:
                inner[b] = h
        defs, bad, sums = {}, set(), {}
        for b in self.order:
            bl = self.blocks[b]
            for s in bl["st"]:
                if s["s"] != "=":
                    continue
                p, r = s["p"], s["r"]
                if len(p) == 1:
                    defs.setdefault(p[0], []).append((b, r))
                else:
                    bad.add(p[0])
                if r["t"] == "ref" and r.get("mut", True) and len(r["p"]) == 1:
                    bad.add(r["p"][0])
                if r["t"] == "bin" and r["op"] in ("AddWithOverflow", "Add", "AddUnchecked") and len(p) == 1:
                    a = r["a"].get("cp") or r["a"].get("mv")
                    if a and len(a) == 1 and r["b"].get("k", {}).get("int") == 1:
                        sums[p[0]] = a[0]
            t = bl["term"]
            if t["t"] == "call":
                bad.add(t["d"][0])
        out = {}
        for l, ds in defs.items():
            if l in bad or len(ds) < 2:
                continue
            incs, starts = [], set()
            for b, r in ds:
                if r["t"] == "use":
                    o = r["a"]
                    if isinstance(o.get("k", {}).get("int"), int):
                        starts.add((b, o["k"]["int"]))
                        continue
                    q = o.get("mv") or o.get("cp")
                    if q and sums.get(q[0]) == l and q[0] not in bad and len(defs.get(q[0], ())) == 1:
                        incs.append(b)
                        continue
                elif r["t"] == "bin" and sums.get(l) == l:
                    incs.append(b)
                    continue
                incs = None
                break
            if not incs or len(incs) != 1 or len({v for _, v in starts}) != 1:
                continue
            w = incs[0]
            h = inner.get(w)
            if h is None or any(b in self.loopnodes[h] for b, _ in starts):
                continue
            # every pass goes through the addition
            ns = self.loopnodes[h] - {w}
            seen, todo = set(), [h] if h != w else []
            while todo:
                b = todo.pop()
                for x in self.succ(b):
                    if x in ns and x not in seen:
                        seen.add(x)
                        todo.append(x)
            if h in seen:
                continue
            out.setdefault(h, []).append((l, next(iter(starts))[1]))
        return out

    def _prep(self):
        n = len(self.blocks)
        seen = set()
        order = []
        stack = [(0, iter(self.succ(0)))]
        seen.add(0)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(self.succ(s))))
                    break
            else:
                order.append(b)
                stack.pop()
        order.reverse()
        self.rpo = {b: i for i, b in enumerate(order)}
        self.order = order
        self.wto = {b: i for i, b in enumerate(self.loops(order))}
        self.counters = self.counting() if self.heads else {}
        use = [set() for _ in range(n)]
        dfn = [set() for _ in range(n)]
        addr = set()

        def up(p, u, d):
            if p[0] not in d:
                u.add(p[0])
            for e in p[1:]:
                if isinstance(e, dict) and "i" in e and e["i"] not in d:
                    u.add(e["i"])

        def uo(o, u, d):
            for k in ("cp", "mv"):
                if k in o:
                    up(o[k], u, d)

        for b in order:
            u, d = use[b], dfn[b]
            bl = self.blocks[b]
            for s in bl["st"]:
                if s["s"] == "=":
                    r = s["r"]
                    for k in ("a", "b"):
                        if k in r:
                            uo(r[k], u, d)
                    for o in r.get("ops", ()):
                        uo(o, u, d)
                    if r["t"] == "ref":
                        up(r["p"], u, d)
                        if not any(e == "*" for e in r["p"][1:]):
                            addr.add(r["p"][0])
                    if r["t"] == "discr":
                        up(r["p"], u, d)
                    if len(s["p"]) == 1:
                        d.add(s["p"][0])
                    else:
                        up(s["p"], u, d)
                elif s["s"] == "setdiscr":
                    up(s["p"], u, d)
            t = bl["term"]
            if t["t"] == "switch":
                uo(t["on"], u, d)
            elif t["t"] == "assert":
                uo(t["cond"], u, d)
            elif t["t"] == "drop":
                up(t["p"], u, d)
            elif t["t"] == "call":
                for o in t["a"]:
                    uo(o, u, d)
                if "ptr" in t["f"]:
                    uo(t["f"]["ptr"], u, d)
                if len(t["d"]) == 1:
                    d.add(t["d"][0])
                else:
                    up(t["d"], u, d)
            elif t["t"] == "return":
                if 0 not in d:
                    u.add(0)
        live = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for b in reversed(order):
                o = set()
                for s in self.succ(b):
                    o |= live[s]
                i = use[b] | (o - dfn[b])
                if i != live[b]:
                    live[b] = i
                    ch = True
        self.live = live
        self.addr = addr
        self.liveout = [set().union(*[live[s] for s in self.succ(b)]) if b in self.rpo else set() for b in range(n)]


class Program:
    def __init__(self, d):
        self.bodies = {}
        self.adts = {}
        self.impls = []
        self.fns = {}
        for f in ("erreur", "artefacta", "artefacta_bin"):
            j = json.load(open(os.path.join(d, f + ".json")))
            for b in j["bodies"]:
                self.bodies[b["key"]] = b
            for a in j["adts"]:
                self.adts.setdefault(a["key"], a)
            self.impls += j["impls"]
        self._b = {}
        self.implfn = {}
        self.derived = set()
        for i in self.impls:
            for nm, k in i["fns"]:
                self.implfn.setdefault((i["trait"], nm), []).append((i["head"], i["targs"], k))
                if i["derived"]:
                    self.derived.add(k)
        self.dtors = {a["key"]: a["dtor"] for a in self.adts.values() if a["dtor"] and a["dtor"] in self.bodies}

    def body(self, k):
        b = self._b.get(k)
        if b is None:
            b = self._b[k] = Body(self.bodies[k])
        return b

    def find_impl(self, trait, method, head, targ=None):
        for h, ta, k in self.implfn.get((trait, method), ()):
            if h == head and (targ is None or not ta or ta[0] == targ):
                return k
        return None


class S:
    """abstract state"""
    __slots__ = ("mem", "own", "facts", "st", "ts", "must", "may", "dec")

    def __init__(self):
        self.mem = {}
        self.own = set()
        self.facts = {}
        self.st = {}
        self.ts = {}
        self.must = frozenset()
        self.may = frozenset()
        self.dec = frozenset()

    def copy(self):
        n = S()
        n.mem = dict(self.mem)
        self.own = set()
        n.own = set()
        n.facts = dict(self.facts)
        n.st = dict(self.st)
        n.ts = dict(self.ts)
        n.must = self.must
        n.may = self.may
        n.dec = self.dec
        return n

    def get(self, loc):
        m = self.mem.get(loc[0])
        if m is None:
            return None
        return m.get(loc[1])

    def put(self, loc, v):
        c = loc[0]
        m = self.mem.get(c)
        if m is None:
            m = self.mem[c] = {}
            self.own.add(c)
        elif c not in self.own:
            m = self.mem[c] = dict(m)
            self.own.add(c)
        m[loc[1]] = v

    def delete(self, loc):
        c = loc[0]
        m = self.mem.get(c)
        if m is None or loc[1] not in m:
            return
        if c not in self.own:
            m = self.mem[c] = dict(m)
            self.own.add(c)
        del m[loc[1]]


class Ev:
    __slots__ = ("name", "args", "t", "site", "facts", "st", "ts", "must", "may", "ctx", "bb", "span", "extra", "dec", "key")


def freshbox(t):
    """storage made by the `vec!` macro, filled in place"""
    while t.op == "upd":
        t = t.a[0]
    return t.op == "app" and t.a[0].endswith("Box::new_uninit")


def positive(t):
    """an integer that is certainly greater than zero"""
    if t.op == "c":
        return t.a[0] == "int" and t.a[1] > 0
    if t.op == "phi":
        return all(positive(m) for m in t.a[0])
    return t.op == "app" and t.a[0] == "add" and any(x.op == "c" and x.a[0] == "int" and x.a[1] > 0 for x in t.a[1])


def rootsym(t, ok):
    while t.op == "fld":
        ok = ok or t.a[2] is not None       # a flag of one particular command
        t = t.a[0]
    return ok and t.op == "sym"


# what an integer can lose by a conversion
NARROW = {"u8": 8, "i8": 7, "u16": 16, "i16": 15, "u32": 32, "i32": 31, "f32": 24}
WIDTH = {"bool": 1, "u8": 8, "i8": 8, "u16": 16, "i16": 16, "u32": 32, "i32": 32, "char": 21}


class Engine:
    WIDEN = 6
    MAXKEYS = 120

    def __init__(self, prog, monitors=()):
        self.p = prog
        self.ctxs = [(None, "root", -1, "")]
        self.ctxtab = {}
        self.sites = []
        self.sitetab = {}
        self.counts = {}        # value of a counter at the head of its loop -> (context, start)
        self.events = []
        self.exits = []
        self.monitors = list(monitors)
        self.given = {}         # context -> its arguments
        self.lingers = self.vacuous = None
        self.cur_tags = self.cur_items = None
        self.cur_array = False
        self.enumsrc = self.cur_src = None
        self.dry = 0
        self.leading = {}
        self.lenof = {}
        self.maypanics = lambda short, call: False
        self.fnvals = {}
        self.analysed = set()
        self.nsteps = 0
        self.ncalls = 0
        self.unknown_calls = {}
        self.warn = []
        self.callrec = []
        import natives
        self.nat = natives
        self.promcache = {}

    # --- contexts -------------------------------------------------------
    def ctx(self, parent, key, bb, tag=""):
        k = (parent, key, bb, tag)
        i = self.ctxtab.get(k)
        if i is None:
            i = len(self.ctxs)
            self.ctxs.append(k)
            self.ctxtab[k] = i
        return i

    def newstate(self):
        return S()

    def ctxkey(self, c):
        return self.ctxs[c][1]

    def stack(self, c):
        out = []
        while c:
            p, k, bb, tag = self.ctxs[c]
            out.append((k, bb, p))
            c = p
        return out

    def stackkeys(self, c):
        return [k for k, _, _ in self.stack(c)]

    def site(self, ctx, bb, tag=""):
        k = (ctx, bb, tag)
        i = self.sitetab.get(k)
        if i is None:
            i = len(self.sites)
            self.sites.append(k)
            self.sitetab[k] = i
        return i

    def span(self, ctx, bb):
        b = self.p.bodies.get(self.ctxkey(ctx))
        if b is None or bb < 0 or bb >= len(b["blocks"]):
            return "?"
        return b["blocks"][bb]["term"].get("fsp") or b["blocks"][bb]["term"]["sp"]

    def where(self, ctx, bb):
        s = [self.span(ctx, bb)]
        c = ctx
        while c:
            p, k, cb, _ = self.ctxs[c]
            if p and p is not None:
                s.append(self.span(p, cb))
            c = p
        return s

    # --- memory ---------------------------------------------------------
    def step(self, t, el):
        k = el[0]
        if k == "f":
            return fld(t, el[1], el[2])
        if k == "i":
            return self.index(t, el[1])
        return app("slice", t, const(str(el)))

    def index(self, t, i):
        if t.op == "agg" and t.a[0] == "array" and i.op == "c" and i.a[0] == "int":
            try:
                return t.a[3][i.a[1]]
            except IndexError:
                return unk("oob")
        if i.op == "app" and i.a[0] == "at" and i.a[1][0] is t:
            return i.a[1][1]
        if t.op == "phi":
            return phi([self.index(m, i) for m in t.a[0] if m.op != "moved"] or [unk("idx")])
        return app("index", t, i)

    def readref(self, st, loc, proj):
        t = st.get(loc)
        if t is None:
            t = mk("uninit")
        for el in proj:
            t = self.step(t, el)
        return t

    def deref(self, st, t):
        """one level"""
        if t.op == "ref":
            return self.readref(st, t.a[0], t.a[1])
        if t.op == "phi" and any(m.op == "ref" for m in t.a[0]):
            return phi([self.deref(st, m) for m in t.a[0] if m.op != "moved"])
        return t

    def V(self, st, t):
        n = 0
        while t.op == "ref" or (t.op == "phi" and any(m.op == "ref" for m in t.a[0])):
            t = self.deref(st, t)
            n += 1
            if n > 20:
                return unk("refcycle")
        return t

    def resolve(self, st, t, depth=0):
        t = self.V(st, t)
        if depth > 12:
            return t
        o = t.op
        if o == "agg":
            vs = tuple(self.resolve(st, v, depth + 1) for v in t.a[3])
            if all(x is y for x, y in zip(vs, t.a[3])):
                return t
            return agg(t.a[0], t.a[1], t.a[2], vs)
        if o in ("clo", "cor"):
            vs = tuple(self.resolve(st, v, depth + 1) for v in t.a[1])
            return mk(o, t.a[0], vs)
        if o == "phi":
            return phi([self.resolve(st, v, depth + 1) for v in t.a[0]])
        if o == "it":
            return mk("it", t.a[0], self.resolve(st, t.a[1], depth + 1),
                      self.resolve(st, t.a[2], depth + 1) if isinstance(t.a[2], T) else t.a[2], t.a[3])
        if o == "farg":
            return mk("farg", t.a[0], t.a[1], self.resolve(st, t.a[2], depth + 1))
        if o == "fargs":
            return mk("fargs", t.a[0], self.resolve(st, t.a[1], depth + 1))
        if o == "seq":
            return seq(t.a[0], [mk("item", self.resolve(st, i.a[0], depth + 1), i.a[1]) for i in t.a[1]])
        return t

    def place(self, st, ctx, p):
        """-> list of ('loc', loc, proj) or ('val', term)"""
        curs = [("loc", (ctx, p[0]), ())]
        var = None
        for el in p[1:]:
            nxt = []
            for c in curs:
                if el == "*":
                    v = self.readref(st, c[1], c[2]) if c[0] == "loc" else c[1]
                    ms = v.a[0] if v.op == "phi" else (v,)
                    for m in ms:
                        if m.op == "moved":
                            continue
                        if m.op == "ref":
                            nxt.append(("loc", m.a[0], m.a[1]))
                        elif c[0] == "loc" and freshbox(m):
                            nxt.append(c)
                        else:
                            nxt.append(("val", m))
                    if not nxt:
                        nxt.append(("val", v))
                elif el == "?":
                    nxt.append(("val", UNK))
                elif "v" in el:
                    nxt.append(c)
                else:
                    if "f" in el:
                        e = ("f", el["f"], var)
                    elif "i" in el:
                        e = ("i", self.V(st, self.readref(st, (ctx, el["i"]), ())))
                    elif "ci" in el:
                        e = ("i", const(el["ci"])) if not el["end"] else ("e", el["ci"])
                    else:
                        e = ("s",) + tuple(el["sub"])
                    if c[0] == "loc":
                        nxt.append(("loc", c[1], c[2] + (e,)))
                    else:
                        nxt.append(("val", self.step(c[1], e)))
            var = el["v"] if isinstance(el, dict) and "v" in el else None
            # dedupe
            curs = list(dict.fromkeys(nxt))[:8]
        return curs

    def readplace(self, st, ctx, p):
        vs = []
        for c in self.place(st, ctx, p):
            vs.append(self.readref(st, c[1], c[2]) if c[0] == "loc" else c[1])
        return vs[0] if len(vs) == 1 else phi(vs)

    def update(self, t, proj, v):
        if not proj:
            return v
        el = proj[0]
        if el[0] == "f":
            if t.op == "agg":
                if el[1] in t.a[2]:
                    i = t.a[2].index(el[1])
                    vs = list(t.a[3])
                    vs[i] = self.update(vs[i], proj[1:], v)
                    return agg(t.a[0], t.a[1], t.a[2], vs)
                return t
            if t.op in ("clo", "cor"):
                vs = list(t.a[1])
                i = int(el[1])
                if i < len(vs):
                    vs[i] = self.update(vs[i], proj[1:], v)
                return mk(t.op, t.a[0], tuple(vs))
            if t.op == "phi":
                return phi([self.update(m, proj, v) for m in t.a[0]])
            if t.op == "moved":
                t = mk("uninit")
            return mk("upd", t, el[1], self.update(fld(t, el[1], el[2]), proj[1:], v))
        if el[0] == "i" and t.op == "agg" and el[1].op == "c":
            i = el[1].a[1]
            vs = list(t.a[3])
            if i < len(vs):
                vs[i] = self.update(vs[i], proj[1:], v)
                return agg(t.a[0], t.a[1], t.a[2], vs)
        return mutate(t, app("setindex"))

    def writeref(self, st, loc, proj, v):
        if not proj:
            st.put(loc, v)
        else:
            t = st.get(loc)
            if t is None:
                t = mk("uninit")
            st.put(loc, self.update(t, proj, v))

    def writeplace(self, st, ctx, p, v, bb=-1):
        cs = self.place(st, ctx, p)
        if len(cs) == 1:
            c = cs[0]
            if c[0] == "loc":
                self.writeref(st, c[1], c[2], v)
            else:
                self.store_event(st, ctx, bb, p, v)
            return
        for c in cs:
            if c[0] == "loc":
                old = self.readref(st, c[1], c[2])
                self.writeref(st, c[1], c[2], join_val(old, v))
            else:
                self.store_event(st, ctx, bb, p, v)

    def store_event(self, st, ctx, bb, p, v):
        base = self.readplace(st, ctx, p)
        self.event(st, "store", (base, self.resolve(st, v)), None, ctx, bb)

    # --- facts ----------------------------------------------------------
    def norm_bool(self, t):
        pos = True
        while t.op == "app" and t.a[0] == "not":
            t = t.a[1][0]
            pos = not pos
        return t, pos

    def boolval(self, st, t):
        t, pos = self.norm_bool(t)
        if t.op == "c" and t.a[0] == "bool":
            return t.a[1] == pos
        f = st.facts.get(t)
        if isinstance(f, bool):
            return f == pos
        if t.op == "app" and t.a[0] in ("bitand", "bitor"):
            bs = [self.boolval(st, x) for x in t.a[1]]
            dom = t.a[0] == "bitor"
            if dom in bs:
                return dom == pos
            if None not in bs:
                return (not dom) == pos
        return None

    def assume_bool(self, st, t, val, dec=True):
        t, pos = self.norm_bool(t)
        if not pos:
            val = not val
        if t.op == "c":
            return
        if t.op == "phi":
            # what all the alternatives have in common
            common = None
            for m in t.a[0]:
                at = self.atoms(m, val)
                if at is not None:
                    common = at if common is None else common & at
            for x, v in sorted(common or (), key=lambda y: y[0].n):
                self.assume_bool(st, x, v, dec)
            return
        st.facts[t] = val
        if dec:
            st.dec = frozenset([(t, val)])
        if t.op == "app" and t.a[0] == ("bitand" if val else "bitor"):
            for x in t.a[1]:
                self.assume_bool(st, x, val, False)
        for m in self.monitors:
            m.on_assume(self, st, t, val)

    def atoms(self, t, val):
        """what is known if t has this value; None: it cannot have it"""
        t, pos = self.norm_bool(t)
        val = val == pos
        if t.op == "c":
            return None if t.a[0] == "bool" and t.a[1] != val else frozenset()
        if t.op in ("phi", "moved"):
            return frozenset()
        r = frozenset([(t, val)])
        if t.op == "app" and t.a[0] == ("bitand" if val else "bitor"):
            for x in t.a[1]:
                y = self.atoms(x, val)
                if y is None:
                    return None
                r |= y
        return r

    def variant_of(self, st, t):
        if t.op == "agg":
            return t.a[1]
        f = st.facts.get(t)
        return f if isinstance(f, str) else None

    def assume_variant(self, st, t, v, dec=True):
        if t.op != "agg":
            st.facts[t] = v
            if dec:
                st.dec = frozenset([(t, v)])
            x = st.st.get(t)
            if x is not None:
                st.st[t] = (x - {"?"}) | {v}
            for m in self.monitors:
                m.on_assume(self, st, t, v)
            if v in ("Less", "Equal", "Greater") and t.op == "app" and t.a[0].rsplit("::", 1)[-1] in ("cmp", "partial_cmp") and len(t.a[1]) == 2:
                a, b = t.a[1]
                self.assume_bool(st, self.compare("Eq", a, b), v == "Equal", False)
                if v != "Equal":
                    self.assume_bool(st, self.compare("Lt", a, b) if v == "Less" else self.compare("Lt", b, a), True, False)

    ENUMS = {OPTION: ("None", "Some"), RESULT: ("Ok", "Err")}

    def split(self, st, t, enum, prefer=None):
        """-> [(state, variant, payload)] for Option/Result valued term t"""
        t = self.V(st, t)
        if t.op == "agg":
            return [(st, t.a[1], t.a[3][0] if t.a[3] else None)]
        if t.op == "phi":
            out = []
            ms = [m for m in t.a[0] if m.op != "moved"]
            byv = {}
            for m in ms:
                if m.op == "agg":
                    byv.setdefault(m.a[1], []).append(m.a[3][0] if m.a[3] else None)
                else:
                    byv.setdefault(None, []).append(m)
            for v, ps in byv.items():
                if v is None:
                    for m in ps:
                        out += self.split(st.copy(), m, enum)
                else:
                    ps2 = [x for x in ps if x is not None]
                    out.append((st.copy(), v, phi(ps2) if ps2 else None))
            return out
        if t.op in ("moved", "uninit"):
            return []
        known = self.variant_of(st, t)
        out = []
        for v in self.ENUMS[enum]:
            if known is not None and v != known:
                continue
            s2 = st.copy() if known is None else st
            if known is None:
                self.assume_variant(s2, t, v)
            out.append((s2, v, None if v == "None" else fld(t, "0", v)))
        return out

    def kill(self, st, leaf):
        if leaf is None:
            return
        ks = [k for k in st.facts if leaf in k.leaves]
        for k in ks:
            del st.facts[k]

    # --- events ---------------------------------------------------------
    def event(self, st, name, args, t, ctx, bb, extra=None):
        e = Ev()
        if self.dry and name == "skip":
            return
        e.name = name
        e.args = args
        e.t = t
        e.ctx = ctx
        e.bb = bb
        e.key = self.ctxkey(ctx)
        e.span = self.span(ctx, bb) if bb >= 0 else "?"
        e.extra = extra
        for m in self.monitors:
            m.on_event(self, st, e)
        e.facts = dict(st.facts)
        e.st = dict(st.st)
        e.ts = dict(st.ts)
        e.must = st.must
        e.may = st.may
        e.dec = st.dec
        self.events.append(e)
        if t is not None:
            st.must = st.must | {t}
            st.may = st.may | {t}
        return e

    # --- partition / join -------------------------------------------------
    def shape(self, st, t, d=4):
        if d == 0:
            return "."
        o = t.op
        if positive(t):
            return "+"
        if o == "c":
            if t.a[0] == "int":
                return "z" if t.a[1] == 0 else "."
            return t.a[1] if t.a[0] == "bool" else "."
        if o == "seq":
            return "e" if not t.a[1] else "n" if "ne" in t.a[0] else "."
        if o == "moved":
            return "M"
        if o == "agg":
            a = self.p.adts.get(t.a[0])
            isenum = (a is not None and a["enum"]) or t.a[0] in (OPTION, RESULT, POLL, CF)
            sub = tuple(self.shape(st, v, d - 1) for v in t.a[3])
            if t.a[1] == "Err" and t.a[0] == RESULT:
                return ("Err",)
            if t.a[1] == "Break" and t.a[0] == CF:
                return ("Break",)
            if isenum:
                return (t.a[1],) + sub if any(s != "." for s in sub) else (t.a[1],)
            return sub if any(s != "." for s in sub) else "."
        f = st.facts.get(t)
        if f is not None:
            return ("=", f)
        if o == "elem" and self.sites[t.a[1]][2].endswith("~"):
            return "~"              # an earlier element: other things are known of it
        if o == "app" and t.a[0] == "not":
            b = self.boolval(st, t)
            if b is not None:
                return b
        if o == "app" and "?" in st.st.get(t, ()):
            return ("?", t.n)       # a result nobody has looked at yet
        return "."

    def stickykey(self, st):
        out = []
        for t, v in st.facts.items():
            # what the command line said (command, flags, kind of remote store)
            if t.op == "fld" and rootsym(t, isinstance(v, str)):
                out.append((t.n, v))
        out.sort()
        return tuple(out)

    def pkey(self, st, ctx, live, extra=()):
        m = st.mem.get(ctx, {})
        out = []
        for l in live:
            t = m.get(l)
            if t is not None:
                s = self.shape(st, t)
                if s != ".":
                    out.append((l, s))
        out.sort(key=repr)
        return (tuple(out), self.stickykey(st))

    def prune(self, st, ctx, keep):
        m = st.mem.get(ctx)
        if not m:
            return
        dead = [l for l in m if l not in keep]
        if dead:
            if ctx not in st.own:
                m = st.mem[ctx] = dict(m)
                st.own.add(ctx)
            for l in dead:
                del m[l]

    def join(self, a, b, widen=None):
        """join b into a copy; returns (joined, changed_wrt_a)"""
        n = S()
        ch = False
        for c in set(a.mem) | set(b.mem):
            x, y = a.mem.get(c), b.mem.get(c)
            if x is y:
                n.mem[c] = x
                continue
            if x is None:
                n.mem[c] = y
                ch = True
                continue
            if y is None:
                n.mem[c] = x
                continue
            o = {}
            for l in set(x) | set(y):
                v, w = x.get(l), y.get(l)
                if v is w:
                    o[l] = v
                    continue
                if v is None:
                    r = join_val(w, MOVED)
                elif w is None:
                    r = join_val(v, MOVED)
                else:
                    r = join_val(v, w)
                if r is not v:
                    ch = True
                    if widen is not None and v is not None:
                        if r.op == "phi" and any(m.op in ("ref", "clo", "cor", "agg", "moved") for m in r.a[0]):
                            pass
                        elif widen > 1 and positive(r) and r.op != "c":
                            r = app("add", mk("unk", "w%s.%s" % (c, l)), const(1))
                        elif r.op in ("phi", "cat", "app", "mut") and widen > 3 or r.op == "seq" and widen > 9:
                            r = mk("unk", "w%s.%s" % (c, l))
                o[l] = r
            n.mem[c] = o
        fa, fb = a.facts, b.facts
        if fa == fb:
            n.facts = dict(fa)
        else:
            n.facts = {k: v for k, v in fa.items() if fb.get(k, self) == v or k not in fb and self.vacuous is not None and self.vacuous(b, k)}
            if len(n.facts) != len(fa):
                ch = True
            if self.vacuous is not None:
                for k, v in fb.items():
                    if k not in fa and self.vacuous(a, k):
                        n.facts[k] = v
                        ch = True
        for nm in ("st", "ts"):
            da, db = getattr(a, nm), getattr(b, nm)
            if da == db:
                setattr(n, nm, dict(da))
                continue
            if nm == "ts" and self.lingers is not None:
                da, db = self.lingers(a, da, db), self.lingers(b, db, da)
                ch = ch or da is not a.ts
            d = dict(da)
            for k, v in db.items():
                if k in d:
                    if not v <= d[k]:
                        d[k] = d[k] | v
                        ch = True
                else:
                    d[k] = v
                    ch = True
            setattr(n, nm, d)
        n.must = a.must & b.must
        n.may = a.may | b.may
        n.dec = a.dec | b.dec
        if n.must != a.must or n.may != a.may:
            ch = True
        if n.dec != a.dec:
            if len(n.dec) > 24:
                n.dec = a.dec if len(a.dec) > 24 else n.dec
            ch = ch or n.dec != a.dec
        return n, ch

    def joinall(self, states):
        r = states[0]
        for s in states[1:]:
            r, _ = self.join(r, s)
        return r

    # --- operands / rvalues ----------------------------------------------
    def constant(self, k, ctx):
        if "fn" in k:
            f = k["fn"]
            return self.fnval(f)
        if "promoted" in k:
            return self.promoted(k["promoted"])
        if "bool" in k:
            return const(k["bool"])
        if "str" in k:
            return const(k["str"])
        if "char" in k:
            return mk("c", "str", k["char"])
        if "int" in k:
            return const(k["int"])
        if "bytes" in k:
            return mk("c", "bytes", tuple(k["bytes"]))
        if "adt" in k:
            if k["var"] == "?":
                return mk("sym", "const:" + (k.get("item") or k["adt"]))
            a = self.p.adts.get(k["adt"])
            return agg(k["adt"], k["var"], (), ())
        if "zst" in k:
            if k["zst"] == "()":
                return UNIT
            return mk("sym", "zst:" + k["zst"])
        return mk("sym", "const:" + (k.get("item") or k.get("ty", "?")))

    def fnval(self, f):
        key = f.get("rkey") or f["key"]
        k = (key, tuple(f.get("heads", ())), f.get("cn"))
        t = mk("fn", key, json.dumps(f, sort_keys=True))
        self.fnvals[t] = f
        return t

    def promoted(self, key):
        t = self.promcache.get(key)
        if t is not None:
            return t
        b = self.p.bodies.get(key)
        if b is None:
            return mk("sym", "promoted:" + key)
        self.promcache[key] = mk("sym", "promoted:" + key)
        ctx = self.ctx(0, key, -1, "prom")
        st = S()
        outs = self.exec_body(self.p.body(key), ctx, st, [], purge=False, quiet=True)
        if outs:
            t = self.resolve(outs[0][0], outs[0][1])
        else:
            t = mk("sym", "promoted:" + key)
        self.promcache[key] = t
        return t

    def operand(self, st, ctx, o):
        if "cp" in o:
            return self.readplace(st, ctx, o["cp"])
        if "mv" in o:
            p = o["mv"]
            v = self.readplace(st, ctx, p)
            cs = self.place(st, ctx, p)
            if len(cs) == 1 and cs[0][0] == "loc":
                if v.op not in ("c", "ref", "fn"):
                    self.writeref(st, cs[0][1], cs[0][2], MOVED)
            return v
        return self.constant(o["k"], ctx)

    CMP = {"Eq", "Ne", "Lt", "Le", "Gt", "Ge"}

    def binop(self, st, op, a, b):
        a, b = self.V(st, a), self.V(st, b)
        if op in self.CMP:
            return self.compare(op, a, b)
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        if a.op == "c" and b.op == "c" and a.a[0] == "int" and b.a[0] == "int":
            x, y = a.a[1], b.a[1]
            r = {"Add": x + y, "Sub": x - y, "Mul": x * y}.get(base)
            if r is not None and r >= 0:
                r = const(r)
                return tup(r, FALSE) if "WithOverflow" in op else r
        if base == "BitAnd" and a.op == "c" and a.a[0] == "bool":
            return b if a.a[1] else FALSE
        if base == "BitOr" and a.op == "c" and a.a[0] == "bool":
            return TRUE if a.a[1] else b
        r = app(base.lower(), a, b)
        if "WithOverflow" in op:
            return tup(r, app("overflow", r))
        return r

    def compare(self, op, a, b):
        if a.op == "c" and b.op == "c" and a.a[0] == b.a[0]:
            x, y = a.a[1], b.a[1]
            try:
                return const({"Eq": x == y, "Ne": x != y, "Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y}[op])
            except TypeError:
                pass
        if op == "Ne":
            return self.neg(self.compare("Eq", a, b))
        if op == "Gt":
            return self.compare("Lt", b, a)
        if op == "Le":
            return self.neg(self.compare("Lt", b, a))
        if op == "Ge":
            return self.neg(self.compare("Lt", a, b))
        zero, one = const(0), const(1)
        k = self.occurs(op, a, b)
        if k is not None:
            return k
        if op == "Eq":
            if a is b and a.op not in ("unk",):
                return TRUE
            if a.op == "c" and a.a[0] == "bool":
                a, b = b, a
            if b.op == "c" and b.a[0] == "bool":
                return a if b.a[1] else self.neg(a)
            if a is zero:
                a, b = b, a
            if b is zero:
                return self.neg(self.compare("Lt", zero, a))
            if b.n < a.n:
                a, b = b, a
            return app("eq", a, b)
        if op == "Lt" and a is zero:
            if b.op == "app" and b.a[0].endswith("saturating_sub") and len(b.a[1]) == 2:
                return self.compare("Lt", b.a[1][1], b.a[1][0])
            if b.op == "app" and b.a[0] == "len" and filled(b.a[1][0]):
                return TRUE
            if b.op == "app" and b.a[0] == "len" and b.a[1][0].op == "seq" and "ne" in b.a[1][0].a[0]:
                return TRUE
            if positive(b):
                return TRUE
        if b is one:  # x < 1  <=>  !(0 < x) for the unsigned sizes used here
            return self.neg(app("lt", zero, a))
        return app("lt", a, b)

    def occurs(self, op, a, b):
        """numbers of occurrences, or of pieces, that say whether a string contains another"""
        for n, m, lt in ((a, b, True), (b, a, False)):
            if n.op == "app" and n.a[0] == "count" and m.op == "c" and n.a[1][0].op == "app" and len(n.a[1][0].a[1]) == 2:
                w, (x, y) = n.a[1][0].a[0].rsplit("::", 1)[1] if "::" in n.a[1][0].a[0] else "", n.a[1][0].a[1]
                low = 0 if w in ("matches", "rmatches", "match_indices", "rmatch_indices") else 1 if w in ("split", "rsplit") else None
                if low is None:
                    return None
                t, c = app("str::contains", x, y), m.a[1]
                if op == "Eq":
                    return self.neg(t) if c == low else FALSE if c < low else None
                if lt:  # count < c
                    return self.neg(t) if c == low + 1 else FALSE if c <= low else None
                return t if c == low else TRUE if c < low else None  # c < count
        return None

    def neg(self, t):
        if t is TRUE:
            return FALSE
        if t is FALSE:
            return TRUE
        if t.op == "app" and t.a[0] == "not":
            return t.a[1][0]
        return app("not", t)

    def rvalue(self, st, ctx, bb, r):
        k = r["t"]
        if k == "use":
            return self.operand(st, ctx, r["a"])
        if k == "ref":
            cs = self.place(st, ctx, r["p"])
            out = []
            for c in cs:
                if c[0] == "loc":
                    out.append(mk("ref", c[1], c[2]))
                else:
                    out.append(c[1])
            return out[0] if len(out) == 1 else phi(out)
        if k == "agg":
            ops = [self.operand(st, ctx, o) for o in r["ops"]]
            g = r["agg"]
            if g == "adt":
                nm = r["names"]
                v = r["var"] if r["enum"] else ""
                t = agg(r["adt"], v, nm, ops)
                for m in self.monitors:
                    m.on_agg(self, st, t, ctx, bb)
                return t
            if g == "tuple":
                return tup(*ops) if ops else UNIT
            if g == "array":
                return agg("array", "", tuple(str(i) for i in range(len(ops))), ops)
            if g in ("closure",):
                return mk("clo", r["def"], tuple(ops))
            if g in ("coroutine", "corclosure"):
                return mk("cor", r["def"], tuple(ops))
            return unk("agg:" + g)
        if k == "discr":
            t = self.V(st, self.readplace(st, ctx, r["p"]))
            return mk("discr", t, tuple(sorted(r["map"].items())))
        if k == "bin":
            return self.binop(st, r["op"], self.operand(st, ctx, r["a"]), self.operand(st, ctx, r["b"]))
        if k == "un":
            a = self.V(st, self.operand(st, ctx, r["a"]))
            if r["op"] == "Not":
                return self.neg(a)
            if r["op"] == "PtrMetadata":
                return self.nat.length(self, st, a)
            return app(r["op"].lower(), a)
        if k == "cast":
            x = self.operand(st, ctx, r["a"])
            if r["ty"] in NARROW and r["kind"] in ("IntToInt", "IntToFloat", "FloatToInt", "FloatToFloat") and x.op not in ("c",):
                q = r["a"].get("cp") or r["a"].get("mv")
                w = self.p.bodies[self.ctxkey(ctx)]["locals"][q[0]] if q and len(q) == 1 else ""
                if WIDTH.get(w, 64) > NARROW[r["ty"]]:
                    return app("narrow", self.resolve(st, x))
            return x
        if k == "repeat":
            return app("repeat", self.resolve(st, self.operand(st, ctx, r["a"])))
        return unk("rv:" + k)

    # --- bodies -----------------------------------------------------------
    def exec_body(self, body, ctx, st, args, purge=True, quiet=False):
        """run `body` with argument terms; -> [(state, return value)] merged by shape"""
        self.analysed.add(body.key)
        self.given[ctx] = [self.resolve(st, a) for a in args]
        for i, a in enumerate(args):
            st.put((ctx, i + 1), a)
        if not args:
            st.mem.setdefault(ctx, {})
            st.own.add(ctx)
        ins = {}            # (block, key) -> state joined from everything that reached it
        wait = {}           # not yet run: (block, key) -> {source: latest state}
        sent = {}           # source -> targets of its latest run
        nkeys = {}
        visits = {}
        heap = []
        inq = set()
        retc = {}

        def push(bb, s, src):
            keep = body.live[bb] | body.addr | {0}
            self.prune(s, ctx, keep)
            k = self.pkey(s, ctx, keep)
            ks = nkeys.setdefault(bb, {})
            if k not in ks:
                if len(ks) >= self.MAXKEYS:
                    self.warn.append("partition overflow in %s bb%d" % (body.key, bb))
                    k = next(iter(ks))
                else:
                    ks[k] = True
            t = (bb, k)
            old = ins.get(t)
            if old is None:
                # what a loop sends out before it is stable is replaced, not merged
                wait.setdefault(t, {})[src] = s
                ch = True
            else:
                vc = visits.get(t, 0)
                n, ch = self.join(old, s, widen=vc if vc > (1 if bb in body.heads else 7) else None)
                if ch:
                    ins[t] = n
            if ch:
                if old is not None:
                    visits[t] = visits.get(t, 0) + 1
                    if visits[t] > 60:
                        self.warn.append("no convergence in %s bb%d" % (body.key, bb))
                        return t
                if t not in inq:
                    inq.add(t)
                    self.hc = getattr(self, "hc", 0) + 1
                    heapq.heappush(heap, (body.wto[bb], self.hc, bb, k))
            return t

        push(0, st, None)
        while heap:
            _, _, bb, k = heapq.heappop(heap)
            t = (bb, k)
            inq.discard(t)
            if t not in ins:
                w = wait.pop(t, None)
                if not w:
                    continue
                ins[t] = self.joinall(list(w.values()))
            s = ins[t].copy()
            self.nsteps += 1
            for l, n in body.counters.get(bb, ()):
                if s.get((ctx, l)) is not None:
                    c = mk("elem", const(n), self.site(ctx, bb, "count%d" % l))
                    self.counts[c] = (ctx, n, bb)
                    self.kill(s, c)
                    s.put((ctx, l), c)
            for tg, src in sent.pop(t, ()):
                if tg in wait:
                    wait[tg].pop(src, None)
            for key in [x for x in retc if x[0] == bb and x[1] == k]:
                del retc[key]
            mine = []
            for i, (nb, ns) in enumerate(self.exec_block(body, ctx, bb, s)):
                src = (bb, k, i)
                if nb is None:
                    rv = ns.get((ctx, 0))
                    if rv is None:
                        rv = UNIT
                    # keep the value in the frame while merging
                    if purge:
                        self.prune(ns, ctx, {0})
                    ns.put((ctx, 0), rv)
                    retc[src] = ns
                else:
                    mine.append((push(nb, ns, src), src))
            sent[t] = mine
        rets = {}
        for ns in retc.values():
            rv = ns.get((ctx, 0))
            rk = (self.shape(ns, rv, 5), self.stickykey(ns))
            if rk in rets:
                rets[rk], _ = self.join(rets[rk], ns)
            else:
                rets[rk] = ns
        out = []
        for s in rets.values():
            rv = s.get((ctx, 0)) or UNIT
            if purge:
                rv = self.localise(s, rv, ctx)
                s.mem.pop(ctx, None)
                s.own.discard(ctx)
            out.append((s, rv))
        return out

    def localise(self, st, t, ctx, depth=0):
        """replace references into frame `ctx` by their contents"""
        if depth > 10:
            return t
        if t.op == "ref" and t.a[0][0] == ctx:
            return self.localise(st, self.deref(st, t), ctx, depth + 1)
        if t.op == "agg":
            return agg(t.a[0], t.a[1], t.a[2], tuple(self.localise(st, v, ctx, depth + 1) for v in t.a[3]))
        if t.op in ("clo", "cor"):
            return mk(t.op, t.a[0], tuple(self.localise(st, v, ctx, depth + 1) for v in t.a[1]))
        if t.op == "phi":
            return phi([self.localise(st, v, ctx, depth + 1) for v in t.a[0]])
        if t.op == "it":
            return mk("it", t.a[0], self.localise(st, t.a[1], ctx, depth + 1),
                      self.localise(st, t.a[2], ctx, depth + 1) if isinstance(t.a[2], T) else t.a[2], t.a[3])
        return t

    def exec_block(self, body, ctx, bb, st):
        bl = body.blocks[bb]
        for s in bl["st"]:
            if s["s"] == "=":
                r = s["r"]
                v = self.rvalue(st, ctx, bb, r)
                self.writeplace(st, ctx, s["p"], v, bb)
            elif s["s"] == "dead":
                st.delete((ctx, s["l"]))
            elif s["s"] == "setdiscr":
                pass
        t = bl["term"]
        k = t["t"]
        if k == "goto" or k == "yield":
            return [(t["to"], st)]
        if k == "return":
            return [(None, st)]
        if k in ("unreachable", "unwind", "other"):
            return []
        if k == "switch":
            return self.do_switch(st, ctx, bb, t)
        if k == "assert":
            c = self.V(st, self.operand(st, ctx, t["cond"]))
            b = self.boolval(st, c)
            if b is None or b != t["exp"]:
                extra = {"kind": t["kind"]}
                if "len" in t:
                    extra["len"] = self.V(st, self.operand(st, ctx, t["len"]))
                    extra["index"] = self.V(st, self.operand(st, ctx, t["index"]))
                self.event(st, "assert", (c,), None, ctx, bb, extra)
            return [(t["to"], st)]
        if k == "drop":
            return [(t["to"], s) for s in self.do_drop(st, ctx, bb, t)]
        if k == "call":
            f = t["f"]
            args = [self.operand(st, ctx, o) for o in t["a"]]
            if "ptr" in f:
                outs = self.call_value(st, self.operand(st, ctx, f["ptr"]), args, ctx, bb, "ptr")
            else:
                keep = body.liveout[bb] | body.addr | {0}
                # references held by the arguments keep their targets alive (addr covers them)
                self.prune(st, ctx, keep | {l for l in self.reflocals(args, ctx)})
                outs = self.call(st, f, args, t["at"], t["dt"], t["dh"], ctx, bb, diverges=t["to"] < 0)
            res = []
            if t["to"] < 0:
                return []
            for s, v in outs:
                self.writeplace(s, ctx, t["d"], v, bb)
                res.append((t["to"], s))
            return res
        return []

    def reflocals(self, ts, ctx):
        out = set()
        for t in ts:
            for x in subterms(t):
                if x.op == "ref" and x.a[0][0] == ctx:
                    out.add(x.a[0][1])
        return out

    def do_switch(self, st, ctx, bb, t):
        v = self.V(st, self.operand(st, ctx, t["on"]))
        if v.op == "discr":
            base, mp = v.a[0], dict(v.a[1])
            arms = {}
            covered = []
            for val, b in t["arms"]:
                nm = mp.get(val)
                arms[nm] = b
                covered.append(nm)
            rest = [n for n in mp.values() if n not in covered]
            ms = base.a[0] if base.op == "phi" else (base,)
            out = []
            groups = {}
            for m in ms:
                if m.op == "moved":
                    continue
                kv = self.variant_of(st, m)
                if kv is not None:
                    groups.setdefault(kv, []).append((m, True))
                else:
                    for nm in list(mp.values()) or [None]:
                        groups.setdefault(nm, []).append((m, False))
            for nm, mm in groups.items():
                tgt = arms.get(nm, t["else"])
                s2 = st.copy()
                if len(mm) == 1 and not mm[0][1] and nm is not None:
                    self.assume_variant(s2, mm[0][0], nm)
                elif base.op != "phi" and nm is not None and mm[0][0].op != "agg":
                    s2.dec = frozenset([(mm[0][0], nm)])
                elif len(mm) > 1 and nm is not None:
                    # one of the alternatives is the value
                    ss = []
                    for m, known in mm:
                        s3 = st.copy()
                        if not known:
                            self.assume_variant(s3, m, nm)
                        ss.append(s3)
                    s2 = self.joinall(ss)
                out.append((tgt, s2))
            return out
        if t["bool"]:
            f = [b for val, b in t["arms"] if val == "0"]
            fb = f[0] if f else t["else"]
            tb = t["else"] if f else [b for val, b in t["arms"]][0]
            v2 = v
            if v2.op == "phi" and all(m.op == "c" for m in v2.a[0]):
                vals = {m.a[1] for m in v2.a[0]}
                out = []
                if True in vals:
                    out.append((tb, st.copy()))
                if False in vals:
                    out.append((fb, st.copy()))
                return out
            b = self.boolval(st, v2)
            if b is not None:
                if v2.op != "c":
                    n, pos = self.norm_bool(v2)
                    st.dec = frozenset([(n, b == pos)])
                return [(tb if b else fb, st)]
            s1, s2 = st.copy(), st
            if v2.op == "phi":
                # phi of boolean terms: each member decides for itself
                outs = []
                for want, tgt in ((True, tb), (False, fb)):
                    ss = []
                    for m in v2.a[0]:
                        if m.op == "moved":
                            continue
                        bm = self.boolval(st, m)
                        if bm is None or bm == want:
                            s3 = st.copy()
                            if bm is None:
                                self.assume_bool(s3, m, want)
                            ss.append(s3)
                    if ss:
                        outs.append((tgt, self.joinall(ss)))
                return outs
            if self.counts:
                n, pos = self.norm_bool(v2)
                c = self.counted(n)
                if c is not None and self.leaves_loop(ctx, c, fb if pos == (n.a[0] == "lt") else tb, tb if pos == (n.a[0] == "lt") else fb):
                    if n.a[0] == "eq":
                        pos = not pos
                    return [(tb if (e is not None) == pos else fb, s) for s, e in self.count(st, c, n, ctx, bb)]
            self.assume_bool(s1, v2, True)
            self.assume_bool(s2, v2, False)
            return [(tb, s1), (fb, s2)]
        # integer / char switch
        out = []
        if v.op == "c" and v.a[0] == "int":
            for val, b in t["arms"]:
                if str(v.a[1]) == val:
                    return [(b, st)]
            return [(t["else"], st)]
        for val, b in t["arms"]:
            s2 = st.copy()
            if v.op != "phi":
                q = self.compare("Eq", v, const(int(val)))
                known = self.boolval(st, q)
                if known:
                    return [(b, st)]
                if known is False:
                    continue
                self.assume_bool(s2, q, True)
            out.append((b, s2))
        s2 = st.copy()
        if v.op != "phi":
            for val, b in t["arms"]:
                self.assume_bool(s2, self.compare("Eq", v, const(int(val))), False)
        out.append((t["else"], s2))
        return out

    # --- loops that count
    def counted(self, n):
        """the counter that the condition of a loop compares with its end"""
        if n.op != "app" or n.a[0] not in ("lt", "eq"):
            return None
        x, y = n.a[1]
        for a, b in ((x, y), (y, x)):
            if a in self.counts and self.counts[a] is not None and not any(z in self.counts for z in subterms(b)):
                return a
            if n.a[0] == "lt":
                if a.op == "app" and a.a[0] == "add" and len(a.a[1]) == 2 and any(z in self.counts for z in a.a[1]) and any(z.op == "c" for z in a.a[1]):
                    return [z for z in a.a[1] if z in self.counts][0]
                return None
        return None

    def leaves_loop(self, ctx, c, out, on):
        k = self.counts[c]
        ns = self.p.body(self.ctxkey(ctx)).loopnodes.get(k[2]) if k[0] == ctx else None
        return ns is not None and out not in ns and on in ns

    def count(self, st, c, n, ctx, bb):
        """-> [(state, whether the loop goes on)]"""
        x, y = n.a[1]
        if n.a[0] == "eq":
            end = y if x is c else x
        else:
            end = y
            if x is not c:
                end = app("sub", y, [z for z in x.a[1] if z is not c][0])
        return self.advance(st, c, agg("core::ops::range::Range", None, ("start", "end"), (const(self.counts[c][1]), end)), ctx, bb)

    def advance(self, st, c, it, ctx, bb):
        self.iterate_event(st, it, ctx, bb)
        out = []
        for s, e in self.iter_next(st, it, ctx, bb, "count"):
            if e is not None:
                i = e if it.op == "agg" else app("at", self.resolve(s, it), e)
                m = s.mem.get(self.counts[c][0], {})
                for l, v in list(m.items()):
                    if v is c:
                        s.put((self.counts[c][0], l), i)
            out.append((s, e))
        return out

    # --- drops -------------------------------------------------------------
    def do_drop(self, st, ctx, bb, t):
        impls = t["impls"]
        work = [i.split("|")[0] for i in impls]
        wl = [w for w in work if w in self.p.bodies]
        ext = "tempfile::" in t["ty"] or "tempdir::" in t["ty"]
        if not wl and not ext:
            return [st]
        cs = self.place(st, ctx, t["p"])
        out = [st]
        for c in cs:
            nxt = []
            for s in out:
                if c[0] == "loc":
                    v = self.readref(s, c[1], c[2])
                    nxt += self.drop_value(s, v, (c[1], c[2]), ctx, bb, t["ty"])
                else:
                    nxt += self.drop_value(s, c[1], None, ctx, bb, t["ty"])
            out = nxt
        return out

    def drop_value(self, st, v, at, ctx, bb, ty, depth=0):
        if depth > 6 or v.op in ("moved", "uninit", "c", "ref", "fn"):
            return [st]
        if v.op == "phi":
            out = []
            for i, m in enumerate(v.a[0]):
                s2 = st.copy()
                if at is not None:
                    self.writeref(s2, at[0], at[1], m)
                out += self.drop_value(s2, m, at, ctx, bb, ty, depth + 1)
            if len(out) > 1:
                out = [self.joinall(out)]
            return out
        if v.op == "agg":
            dt = self.p.dtors.get(v.a[0])
            sts = [st]
            if dt:
                if at is None:
                    c2 = self.ctx(ctx, "tmp", bb, "droptmp%d" % depth)
                    st.put((c2, 0), v)
                    at = ((c2, 0), ())
                outs = []
                for s in sts:
                    outs += [s2 for s2, _ in self.inline(s, dt, [mk("ref", at[0], at[1])], ctx, bb, "drop")]
                sts = outs
            for n, f in zip(v.a[2], v.a[3]):
                nx = []
                for s in sts:
                    a2 = (at[0], at[1] + (("f", n, v.a[1] or None),)) if at is not None else None
                    nx += self.drop_value(s, f, a2, ctx, bb, ty, depth + 1)
                sts = nx
            return sts
        if "tempfile::" in ty or "tempdir::" in ty:
            self.event(st, "drop", (self.resolve(st, v),), None, ctx, bb, {"ty": ty})
        return [st]

    # --- calls --------------------------------------------------------------
    def inline(self, st, key, args, ctx, bb, tag=""):
        stack = self.stackkeys(ctx)
        if stack.count(key) >= 2 or len(stack) > 60:
            self.warn.append("recursion cut at " + key)
            return [(st, unk("rec:" + key))]
        b = self.p.body(key)
        c2 = self.ctx(ctx, key, bb, tag)
        # the same context re-entered (loop): forget its previous frame
        st.mem.pop(c2, None)
        st.own.discard(c2)
        self.ncalls += 1
        hook = key in self.tracked
        if hook:
            rargs = tuple(self.resolve(st, a) for a in args)
            self.event(st, "enter:" + key, rargs, None, ctx, bb)
        outs = self.exec_body(b, c2, st, args)
        if hook and b.j.get("async") is not True:
            outs = [self.leave(s, key, rargs, r, ctx, bb) for s, r in outs]
        return outs

    tracked = frozenset()

    def leave(self, s, key, rargs, r, ctx, bb):
        rv = self.V(s, r)
        v = rv.a[1] if rv.op == "agg" else "?"
        self.event(s, "leave:" + key, rargs, None, ctx, bb, {"ret": rv, "variant": v})
        return (s, r)

    def call_value(self, st, f, args, ctx, bb, tag):
        """call a function value (closure, fn item, fn pointer) with spread arguments"""
        f = self.V(st, f)
        if f.op == "clo":
            b = self.p.bodies.get(f.a[0])
            if b is None:
                return [(st, app("call", f))]
            return self.inline(st, f.a[0], [f] + list(args), ctx, bb, tag)
        if f.op == "fn":
            info = self.fnvals[f]
            return self.call(st, info, list(args), [""] * len(args), "", "", ctx, bb, tag=tag)
        if f.op == "phi":
            out = []
            for m in f.a[0]:
                if m.op in ("clo", "fn"):
                    out += self.call_value(st.copy(), m, args, ctx, bb, tag)
            if out:
                return out
        return [(st, app("callptr", self.resolve(st, f), *[self.resolve(st, a) for a in args]))]

    def await_value(self, st, f, ctx, bb, tag="poll"):
        """-> [(state, output)] of running future f to completion"""
        f = self.V(st, f)
        if f.op == "cor":
            if f.a[0] in self.p.bodies:
                outs = self.inline(st, f.a[0], [f, UNIT], ctx, bb, tag)
                k = f.a[0].rsplit("::{closure", 1)[0]
                if k in self.tracked:
                    ra = tuple(self.resolve(outs[0][0], x) for x in f.a[1]) if outs else ()
                    outs = [self.leave(s, k, ra, r, ctx, bb) for s, r in outs]
                return outs
            return [(st, app("await", f))]
        if f.op == "fut":
            return self.nat.poll_fut(self, st, f, ctx, bb, tag)
        if f.op == "phi":
            out = []
            for i, m in enumerate(f.a[0]):
                if m.op == "moved":
                    continue
                out += self.await_value(st.copy(), m, ctx, bb, tag + str(i))
            return out
        return [(st, f)]

    def call(self, st, info, args, at, dt, dh, ctx, bb, diverges=False, tag=""):
        cn = info["cn"]
        key = info.get("rkey") or info["key"]
        if "ctor" in info:
            c = info["ctor"]
            a = self.p.adts.get(c["adt"])
            var = c["var"] if (a is None or a["enum"]) and c["var"] else ""
            nm = tuple(str(i) for i in range(len(args)))
            t = agg(c["adt"], var, nm, args)
            for m in self.monitors:
                m.on_agg(self, st, t, ctx, bb)
            return [(st, t)]
        if info.get("trait", "").startswith("core::ops::function::Fn") and len(args) == 2:
            a = self.V(st, args[1])
            if a.op == "agg":
                return self.call_value(st, self.V(st, args[0]), list(a.a[3]), ctx, bb, tag or "fn")
        # workspace body?
        if key in self.p.bodies and key not in self.nat.SKIP_BODIES:
            tr = info.get("trait", "")
            b = self.p.bodies[key]
            if key in self.p.derived:
                if tr == "core::clone::Clone":
                    return [(st, self.V(st, args[0]))]
                if tr in ("core::fmt::Debug", "core::hash::Hash", "core::cmp::Ord", "core::cmp::PartialOrd"):
                    return [(st, app(short(cn), *[self.resolve(st, a) for a in args]))]
            if tr == "core::fmt::Debug":
                return [(st, app(short(cn), *[self.resolve(st, a) for a in args]))]
            if b.get("async"):
                # async fn: returns its coroutine; body is `Agg coroutine`
                outs = self.inline(st, key, args, ctx, bb, tag)
                return outs
            return self.inline(st, key, args, ctx, bb, tag)
        # generic trait method on a workspace value
        tr = info.get("trait")
        if tr and args:
            h = self.head_of(st, args[0])
            m = cn.rsplit("::", 1)[1]
            if h:
                k = self.p.find_impl(tr, m, h)
                if k and k in self.p.bodies and k not in self.p.derived:
                    return self.inline(st, k, args, ctx, bb, tag)
        c = self.nat.Call(self, st, info, cn, args, at, dt, dh, ctx, bb, tag, diverges)
        r = self.nat.dispatch(c)
        if r is not None:
            return r
        return self.external(c)

    def head_of(self, st, t):
        t = self.V(st, t)
        if t.op == "agg" and t.a[0] in self.p.adts and self.p.adts[t.a[0]]["local"]:
            return t.a[0]
        return None

    def external(self, c):
        st, cn = c.st, c.cn
        rargs = tuple(self.resolve(st, a) for a in c.args)
        eff = self.nat.effectful(cn)
        site = self.site(c.ctx, c.bb, c.tag) if eff else None
        t = mk("app", cn, rargs, site)
        if eff:
            self.kill(st, t)
            for k in [k for k in st.st if t in k.leaves]:
                del st.st[k]
            st.st[t] = frozenset("?")
        if eff or self.nat.interesting(cn):
            self.event(st, cn, rargs, t, c.ctx, c.bb, {"at": c.at, "dt": c.dt})
        elif cn not in self.nat.KNOWN_PURE:
            self.unknown_calls[cn] = self.unknown_calls.get(cn, 0) + 1
        if c.diverges:
            return []
        # closures handed to library code may run any number of times
        outs = [st]
        for i, a in enumerate(c.args):
            av = self.V(st, a)
            if av.op in ("clo",):
                b = self.p.bodies.get(av.a[0])
                if b:
                    n = b["args"] - 1
                    s2 = st.copy()
                    res = self.call_value(s2, av, [mk("sym", "cbarg%d" % j) for j in range(n)], c.ctx, c.bb, "cb%d" % i)
                    outs += [s for s, _ in res]
        if len(outs) > 1:
            st = self.joinall(outs)
        # mutable borrows
        if not self.nat.nomut(cn):
            for i, a in enumerate(c.args):
                ty = c.at[i] if i < len(c.at) else ""
                if ty.startswith("&mut ") or ty.startswith("core::pin::Pin<&mut"):
                    self.mutate_ref(st, a, app(cn))
        return [(st, t)]

    def mutate_ref(self, st, a, op):
        ms = a.a[0] if a.op == "phi" else (a,)
        for m in ms:
            if m.op != "ref":
                continue
            v = self.readref(st, m.a[0], m.a[1])
            n = 0
            while v.op == "ref" and n < 10:
                m = v
                v = self.readref(st, m.a[0], m.a[1])
                n += 1
            if v.op == "agg" and v.a[0] in self.p.adts and self.p.adts[v.a[0]]["local"]:
                continue
            nv = mutate(v, op)
            self.kill(st, nv)
            self.writeref(st, m.a[0], m.a[1], nv)

    # --- iteration ----------------------------------------------------------
    def iter_next(self, st, it, ctx, bb, tag="n"):
        """-> [(state, element or None)]"""
        it = self.V(st, it)
        x = self.indexed(it)
        if x is not None:
            return [(s, None if e is None else app("at", self.resolve(s, x), e)) for s, e in self.iter_next(st, x, ctx, bb, tag)]
        if it.op == "phi":
            out = []
            whole = self.cur_src
            for i, m in enumerate(it.a[0]):
                if m.op != "moved":
                    self.cur_src = whole or it
                    out += self.iter_next(st.copy(), m, ctx, bb, tag + "p%d" % i)
            self.cur_src = whole
            return out
        if it.op == "seq":
            s0 = st.copy()
            site = self.site(ctx, bb, tag)
            self.cur_tags = it.a[0]
            self.cur_items = it.a[1]
            for m in self.monitors:
                m.on_next(self, s0, site, [i.a[0] for i in it.a[1]], None)
            out = [(s0, None)]
            for i in it.a[1]:
                s2 = st.copy()
                for m in self.monitors:
                    m.on_next(self, s2, site, [i.a[0]], i.a[0])
                for l in self.itemleaves(i.a[0]):
                    self.kill(s2, l)
                for k, v in i.a[1]:
                    s2.facts[k] = v
                    for m in self.monitors:
                        m.on_assume(self, s2, k, v)
                out.append((s2, i.a[0]))
            self.cur_tags = self.cur_items = None
            return out
        if it.op == "agg" and it.a[0] == "array":
            site = self.site(ctx, bb, tag)
            out = [(st.copy(), None)] + [(st.copy(), x) for x in it.a[3]]
            self.cur_items = frozenset()
            self.cur_array = True
            for s, x in out:
                for m in self.monitors:
                    m.on_next(self, s, site, list(it.a[3]) if x is None else [x], x)
            self.cur_items = None
            self.cur_array = False
            return out
        if it.op == "it":
            kind, src, clo, c0 = it.a
            if kind == "opt":
                out = []
                for s, v, p in self.split(st, src, clo):
                    out.append((s, p if v in ("Some", "Ok") else None))
                return out
            if kind == "chain":
                out = []
                for s, e in self.iter_next(st, src, ctx, bb, tag + "a"):
                    if e is not None:
                        out.append((s, e))
                    else:
                        out += self.iter_next(s, clo, ctx, bb, tag + "b")
                return out
            outs = []
            if kind == "zip" and self.rest(clo) is src and src.op != "it":
                # neighbours
                return [(s, None if e is None else tup(self.index(e, const(0)), self.index(e, const(1))))
                        for s, e in self.iter_next(st, app("[T]::windows", self.resolve(st, src), const(2)), ctx, bb, tag)]
            plain = self.resolve(st, src) if kind == "enumerate" and src.op != "it" else None
            for s, e in self.iter_next(st, src, ctx, bb, tag):
                if e is None:
                    outs.append((s, None))
                    continue
                self.enumsrc = plain
                if kind in ("take", "skip", "step_by", "take_while", "map_while"):
                    for m in self.monitors:
                        m.on_trunc(self, s, kind, self.site(ctx, bb, tag), e)
                outs += self.stage(s, kind, clo, e, ctx, bb, tag)
            return outs
        site = self.site(ctx, bb, tag)
        src = self.resolve(st, it)
        el = mk("elem", src, site)
        self.earlier(st, el, mk("elem", src, self.site(ctx, bb, tag + "~")), ctx, bb)
        s0, s1 = st.copy(), st
        for m in self.monitors:
            m.on_next(self, s0, site, [el], None)
            m.on_next(self, s1, site, [el], el)
        self.kill(s1, el)
        return [(s0, None), (s1, el)]

    def earlier(self, st, el, old, ctx, bb):
        """variables that still hold the last element: what is known of it does not hold for the next one"""
        was = hit = False
        first = True
        while ctx:
            body = self.p.body(self.ctxkey(ctx))
            m = st.mem.get(ctx)
            if body is not None and m:
                # of the callers, what they use after the call
                live = body.live[bb] if first else body.liveout[bb]
                ls = [l for l in m if isinstance(l, str) or l in live or l in body.addr]
                was = was or any(old in m[l].leaves for l in ls)
                for l in ls:
                    v = m[l]
                    if el in v.leaves:
                        w = outside(v, el, old)
                        if w is not v:
                            if ctx not in st.own:
                                m = st.mem[ctx] = dict(m)
                                st.own.add(ctx)
                            m[l] = w
                            hit = True
            first = False
            ctx, _, bb, _ = self.ctxs[ctx]
        if not hit:
            return
        new = {subst(k, el, old): v for k, v in st.facts.items() if el in k.leaves}
        for k in [k for k in st.facts if old in k.leaves]:
            if was and k in new and new[k] == st.facts[k]:
                continue
            del st.facts[k]
        for k, v in new.items():
            if not was:
                st.facts[k] = v

    def itemleaves(self, t):
        es = {l for l in t.leaves if l.op == "elem"}
        return es

    def stage(self, s, kind, clo, e, ctx, bb, tag):
        if kind in ("map", "inspect"):
            r = self.call_value(s, clo, [e], ctx, bb, tag + kind)
            return [(s2, v if kind == "map" else e) for s2, v in r]
        if kind == "filter":
            out = []
            for s2, v in self.call_value(s, clo, [e], ctx, bb, tag + kind):
                v = self.V(s2, v)
                b = self.boolval(s2, v)
                if v.op == "phi":
                    vs = {self.boolval(s2, m) for m in v.a[0] if m.op != "moved"}
                    if vs == {False}:
                        b = False
                if b is not True:
                    s3 = s2.copy()
                    if b is None:
                        self.assume_bool(s3, v, False)
                    self.event(s3, "skip", (self.resolve(s3, e),), None, ctx, bb, {"kind": kind})
                if b is False:
                    continue
                if b is None:
                    self.assume_bool(s2, v, True)
                out.append((s2, e))
            return out
        if kind == "filter_entry":
            out = []
            for s2, var, p in self.split(s, e, RESULT):
                if var == "Err":
                    out.append((s2, err(p)))
                    continue
                for s3, v in self.call_value(s2, clo, [p], ctx, bb, tag + kind):
                    v = self.V(s3, v)
                    b = self.boolval(s3, v)
                    if b is not True:
                        self.event(s3, "skip", (self.resolve(s3, e),), None, ctx, bb, {"kind": kind})
                    if b is not False:
                        out.append((s3, ok(p)))
            return out
        if kind in ("skip_while", "take_while", "map_while", "skip_until"):
            out = []
            for s2, v in self.call_value(s.copy(), clo, [e], ctx, bb, tag + kind):
                v = self.V(s2, v)
                if kind == "map_while":
                    for s3, var, p in self.split(s2, v, OPTION):
                        if var == "Some":
                            out.append((s3, p))
                        else:
                            self.event(s3, "skip", (self.resolve(s3, e),), None, ctx, bb, {"kind": kind})
                    continue
                ms = v.a[0] if v.op == "phi" else (v,)
                for m in ms:
                    if kind == "skip_until":
                        m = self.neg(m)
                    b = self.boolval(s2, m)
                    want = kind in ("skip_while", "skip_until")      # the closure value that drops the element
                    if b is None or b == want:
                        s3 = s2.copy()
                        if b is None and len(ms) == 1:
                            self.assume_bool(s3, m, want)
                        self.event(s3, "skip", (self.resolve(s3, e),), None, ctx, bb, {"kind": kind.replace("until", "while")})
                    if b is None or b != want:
                        s3 = s2.copy()
                        if b is None and len(ms) == 1:
                            self.assume_bool(s3, m, not want)
                        out.append((s3, e))
            if kind in ("skip_while", "skip_until"):
                out.append((s, e))
            if kind == "map_while":
                return out
            return [(self.joinall([x for x, _ in out]), e)] if out else []
        if kind == "filter_map":
            out = []
            for s2, v in self.call_value(s, clo, [e], ctx, bb, tag + kind):
                for s3, var, p in self.split(s2, v, OPTION):
                    if var == "Some":
                        out.append((s3, p))
                    else:
                        self.event(s3, "skip", (self.resolve(s3, e),), None, ctx, bb, {"kind": kind})
            return out
        if kind == "enumerate":
            x = self.enumsrc
            return [(s, tup(app("iterindex") if x is None else app("at", x, e), e))]
        if kind == "zip":
            out = []
            for s2, e2 in self.iter_next(s, clo, ctx, bb, tag + "z"):
                out.append((s2, None if e2 is None else tup(e, e2)))
            return out
        if kind in ("okmap",):
            return [(s, ok(e))]
        if kind in ("flat_map", "flatten"):
            out = []
            vs = self.call_value(s, clo, [e], ctx, bb, tag + kind) if kind == "flat_map" else [(s, e)]
            for s2, v in vs:
                v = self.V(s2, v)
                if v.op == "agg" and v.a[0] in (OPTION, RESULT):
                    if v.a[1] in ("Some", "Ok"):
                        out.append((s2, v.a[3][0]))
                    continue
                out += [x for x in self.iter_next(s2, v, ctx, bb, tag + "fl") if x[1] is not None]
            return out
        return [(s, e)]

    def rest(self, t):
        """X if t is X without its first element"""
        if isinstance(t, T) and t.op == "it" and t.a[0] == "skip" and t.a[2] is const(1):
            return t.a[1]
        if isinstance(t, T) and t.op == "app" and t.a[0] == "index" and t.a[1][1].op == "agg" and t.a[1][1].a[0].endswith("range::RangeFrom") and \
                fld(t.a[1][1], "start") is const(1):
            return t.a[1][0]
        return None

    def indexed(self, it):
        """the collection all of whose positions are visited in ascending order"""
        if it.op == "agg" and it.a[0].endswith("range::Range") and fld(it, "start") is const(0):
            n = fld(it, "end")
            if n.op == "app" and n.a[0] == "len":
                return n.a[1][0]
        return None

    def iter_tags(self, it):
        x = self.indexed(it)
        if x is not None:
            return self.iter_tags(x)
        if it.op == "it":
            r = {it.a[0]} | self.iter_tags(it.a[1])
            if isinstance(it.a[2], T) and it.a[0] in ("chain", "zip") and self.rest(it.a[2]) is not it.a[1]:
                r |= self.iter_tags(it.a[2])
            return r
        if it.op == "seq":
            return set(it.a[0])
        return set()

    def iter_srcs(self, it):
        x = self.indexed(it)
        if x is not None:
            return self.iter_srcs(x)
        if it.op == "it":
            r = self.iter_srcs(it.a[1])
            if it.a[0] == "chain":
                r = r + self.iter_srcs(it.a[2])
            return r
        return [it]

    def run_iter(self, st, it, ctx, bb, fn, tag="c"):
        """emulate `for e in it { fn(state, e) }`;
        fn(s, e) -> [(state, 'go'|'stop', value)];  -> (final state, [(state, value)] of stops)"""
        self.iterate_event(st, it, ctx, bb)
        cur = st
        stops = []
        for rnd in range(4):
            outs = self.iter_next(cur.copy(), it, ctx, bb, tag)
            goes = []
            ends = []
            stops = []
            for s, e in outs:
                if e is None:
                    ends.append(s)
                    continue
                for s2, act, v in fn(s, e):
                    if act == "go":
                        goes.append(s2)
                    else:
                        stops.append((s2, v))
            if not ends:
                ends = [cur.copy()]
            if not goes:
                return self.joinall(ends), stops
            nxt, ch = self.join(cur, self.joinall(goes))
            if not ch:
                break
            cur = nxt
        else:
            self.warn.append("no convergence of an iteration in %s bb%d" % (self.ctxkey(ctx), bb))
        return self.joinall(ends), stops

    def setmem(self, st, ctx, l, v):
        if ctx not in st.own:
            st.mem[ctx] = dict(st.mem.get(ctx, {}))
            st.own.add(ctx)
        if v is None:
            st.mem[ctx].pop(l, None)
        else:
            st.mem[ctx][l] = v

    def run_fold(self, st, it, acc, ctx, bb, fn, tag="fo"):
        """emulate `for e in it { acc = fn(state, acc, e) }`;
        fn(s, acc, e) -> [(state, 'go'|'stop', value)];  -> [(final state, acc)], [(state, value)] of stops"""
        self.iterate_event(st, it, ctx, bb)
        K = "acc:%d:%s" % (bb, tag)
        s0 = st.copy()
        self.setmem(s0, ctx, K, self.resolve(st, acc))
        ins = {self.shape(s0, acc): s0}
        dirty = list(ins)
        ends, stops = {}, {}
        n = 0
        while dirty:
            n += 1
            if n > 40:
                self.warn.append("no convergence of a fold in %s bb%d" % (self.ctxkey(ctx), bb))
                break
            k = dirty.pop(0)
            ends[k], stops[k] = [], []
            for s, e in self.iter_next(ins[k].copy(), it, ctx, bb, tag):
                a = s.mem[ctx][K]
                if e is None:
                    self.setmem(s, ctx, K, None)
                    ends[k].append((s, a))
                    continue
                for s2, act, v in fn(s, a, e):
                    if act != "go":
                        self.setmem(s2, ctx, K, None)
                        stops[k].append((s2, v))
                        continue
                    v = self.resolve(s2, v)
                    self.setmem(s2, ctx, K, v)
                    k2 = self.shape(s2, v)
                    if k2 not in ins:
                        ins[k2], ch = s2, True
                    else:
                        ins[k2], ch = self.join(ins[k2], s2, n if n > 4 else None)
                    if ch and k2 not in dirty:
                        dirty.append(k2)
        return [x for k in ends for x in ends[k]], [x for k in stops for x in stops[k]]

    def keep(self, st, i):
        """the item i is stored in a collection"""
        for m in self.monitors:
            m.on_keep(self, st, i)

    def iterate_event(self, st, it, ctx, bb):
        r = self.resolve(st, it)
        self.event(st, "iterate", (r,), None, ctx, bb, {"tags": self.iter_tags(r)})

    def item(self, s, t):
        t = self.resolve(s, t)
        lv = self.itemleaves(t)
        if not lv:
            lv = {l for l in t.leaves}
        fs = []
        if lv:
            for k, v in s.facts.items():
                if k.leaves & lv:
                    fs.append((k, v))
        fs.sort(key=lambda x: x[0].n)
        return mk("item", t, tuple(fs))
