"""Every loop makes progress (C32): a pass over finitely many things, a counter with a limit, a page of a listing, or a wait for the runtime."""
from engine import sccs
from terms import short

NEXT = {"next", "next_back", "nth", "try_next", "poll_next", "pop", "pop_front", "pop_back", "pop_first", "pop_last", "read", "read_line", "read_until", "fill_buf",
        "recv", "try_recv", "poll_read", "next_entry", "next_line", "poll_next_unpin"}
PAGES = {"list_objects_v2", "list_objects"}
ENDLESS = ("RangeFrom<", "iter::sources::repeat", "adapters::cycle::Cycle", "iter::sources::from_fn", "iter::sources::successors", "repeat_with", "stream::repeat", "stream::cycle",
           "stream::unfold", "stream::stream::cycle")
CLOCK = {"elapsed", "duration_since", "checked_duration_since"}
THROUGH = {"deref_mut", "as_mut", "by_ref", "borrow_mut", "new", "new_unchecked", "get_mut", "into_future"}
REST = {"chars", "as_str", "bytes", "as_bytes", "char_indices", "trim", "trim_start", "trim_start_matches", "trim_end", "trim_end_matches", "strip_prefix", "strip_suffix",
        "split_at", "split_first", "split_last", "split_once", "rsplit_once", "index", "unwrap_or", "unwrap_or_default", "get", "lines", "split", "parent", "as_slice", "deref", "as_path", "to_owned",
        "to_path_buf", "to_string", "clone", "as_ref"}
# the kinds of characters that are certainly among those of another kind
WITHIN = {"is_ascii_digit": {"is_numeric", "is_alphanumeric", "is_ascii_alphanumeric", "is_ascii_hexdigit", "is_ascii", "is_ascii_graphic"},
          "is_numeric": {"is_alphanumeric"}, "is_alphabetic": {"is_alphanumeric"}, "is_ascii_alphabetic": {"is_alphabetic", "is_alphanumeric", "is_ascii_alphanumeric", "is_ascii"},
          "is_ascii_whitespace": {"is_whitespace", "is_ascii"}, "is_lowercase": {"is_alphabetic", "is_alphanumeric"}, "is_uppercase": {"is_alphabetic", "is_alphanumeric"}}
FINITE = ("adapters::zip::Zip", "adapters::take::Take", "stream::take::Take", "stream::zip::Zip")


def local(o):
    p = o.get("cp") or o.get("mv") if isinstance(o, dict) else None
    return p[0] if p and len(p) == 1 else None


class Ends:
    def __init__(self, E, M):
        self.E, self.M = E, M

    def run(self, p):
        for key in sorted(self.E.analysed):
            body = p.body(key)
            for h, ns in sorted(body.loopnodes.items()):
                self.loop(key, body, h, ns)

    def loop(self, key, body, h, ns):
        """no cycle through h within its loop avoids all progress"""
        prog = {b for b in ns if self.progress(body, b, ns)} | self.counted(body, ns)
        self.M.ob("C32", ("loop", key, h), None)
        if h in prog:
            return
        seen, todo = set(), [h]
        while todo:
            b = todo.pop()
            for x in body.succ(b):
                if x in ns and x not in prog and x not in seen:
                    seen.add(x)
                    todo.append(x)
        if h in seen:
            sp = sorted({s["sp"] for b in seen for s in body.blocks[b]["st"] if "sp" in s})
            self.M.bad("C32", "endless", "a loop goes on without a limit: none of its steps takes it nearer to its end", fn=key, where=sp[:1])

    def progress(self, body, b, ns):
        t = body.blocks[b]["term"]
        if t["t"] == "yield":
            return True
        if t["t"] != "call" or "ptr" in t["f"]:
            return False
        n = t["f"].get("cn", "").rsplit("::", 1)[-1]
        if n in PAGES or n in CLOCK:
            return True
        if n not in NEXT or not t["a"]:
            return False
        ty = t["at"][0] if t.get("at") else ""
        if any(x in ty for x in ENDLESS) and not any(x in ty for x in FINITE):
            return False
        # what is asked for the next one must be older than the pass
        if n.startswith("pop") and self.putback(body, b, ns):
            return False
        return not self.fresh(body, local(t["a"][0]), ns)

    def putback(self, body, b, ns):
        """what is taken out goes back into the same collection"""
        t = body.blocks[b]["term"]
        q = self.root(body, local(t["a"][0]), ns)
        for x in ns:
            u = body.blocks[x]["term"]
            if u["t"] == "call" and len(u["a"]) > 1 and u["f"].get("cn", "").rsplit("::", 1)[-1] in ("push", "push_back", "push_front", "insert"):
                if self.root(body, local(u["a"][0]), ns) == q and any(self.root(body, local(a), ns) == t["d"][0] for a in u["a"][1:] if local(a) is not None):
                    return True
        return False

    def root(self, body, l, ns):
        for _ in range(12):
            ds = self.defs(body, l, ns, ("clone", "to_owned"))
            if len(ds) != 1 or ds[0][1] is None or ds[0][1]["t"] not in ("ref", "use", "cast"):
                return l
            r = ds[0][1]
            p = r["p"] if r["t"] == "ref" else r["a"].get("cp") or r["a"].get("mv")
            if not p:
                return l
            l = p[0]
        return l

    def fresh(self, body, l, ns):
        """is the thing that l refers to made within the loop, other than from what was left of it?"""
        for _ in range(8):
            ds = self.defs(body, l, ns)
            if not ds:
                return False
            if len(ds) == 1 and ds[0][1] is not None and ds[0][1]["t"] in ("ref", "use", "cast"):
                r = ds[0][1]
                p = r["p"] if r["t"] == "ref" else r["a"].get("cp") or r["a"].get("mv")
                if not p:
                    return True
                l = p[0]
                continue
            return not all(self.rest(body, d, l, ns, 0) for d in ds)
        return True

    def rest(self, body, d, l, ns, n):
        """the new value is what was left of l"""
        b, r = d
        if n > 8:
            return False
        if r is None:
            t = body.blocks[b]["term"]
            if t["f"].get("cn", "").rsplit("::", 1)[-1] not in REST or not t["a"]:
                return False
            if self.unlike(body, t, ns):
                return False
            q = t["a"][0]
            p = q.get("cp") or q.get("mv")
        elif r["t"] == "ref":
            p = r["p"]
        elif r["t"] in ("use", "cast"):
            p = r["a"].get("cp") or r["a"].get("mv")
        else:
            return False
        if not p:
            return False
        if p[0] == l:
            return True
        ds = self.defs(body, p[0], ns)
        return bool(ds) and all(self.rest(body, x, l, ns, n + 1) for x in ds)

    @staticmethod
    def kinds(blocks):
        out = set()
        for bl in blocks:
            f = bl["term"].get("f") if bl["term"]["t"] == "call" else None
            c = f.get("cn", "") if f else ""
            if "char" in c and c.rsplit("::", 1)[-1].startswith("is_"):
                out.add(c.rsplit("::", 1)[-1].replace("is_digit", "is_ascii_digit"))
        return out | {"is_ascii_digit"} if out >= {"is_ascii", "is_numeric"} else out

    def unlike(self, body, t, ns):
        """leaves out characters of one kind, though the pass is after another: possibly none"""
        if not t["f"].get("cn", "").rsplit("::", 1)[-1].startswith("trim_") or len(t["a"]) < 2:
            return False
        l = local(t["a"][1])
        took = None
        for b in ns:
            for s in body.blocks[b]["st"]:
                if s["s"] == "=" and s["p"] == [l] and s["r"].get("def"):
                    took = s["r"]["def"]
        f = self.E.p.body(took) if took else None
        if f is None:
            return False
        q, g = self.kinds(f.blocks), self.kinds(body.blocks[b] for b in ns)
        return bool(q and g) and not any(x in q or WITHIN.get(x, set()) & q for x in g)

    def defs(self, body, l, ns, copies=()):
        out = []
        for b in ns:
            bl = body.blocks[b]
            for s in bl["st"]:
                if s["s"] == "=" and s["p"] == [l]:
                    out.append((b, s["r"]))
            t = bl["term"]
            if t["t"] == "call" and t["d"] == [l]:
                n = t["f"].get("cn", "").rsplit("::", 1)[-1]
                if (n in THROUGH or n in copies) and t["a"]:
                    out.append((b, {"t": "use", "a": t["a"][0]}))
                else:
                    out.append((b, None))
        return out

    def counted(self, body, ns):
        """blocks that take a number nearer to the limit it is compared with"""
        sums = {}
        ds = {}
        for b in ns:
            for s in body.blocks[b]["st"]:
                if s["s"] == "=" and len(s["p"]) == 1:
                    r = s["r"]
                    ds.setdefault(s["p"][0], []).append((b, r))
                    if r["t"] == "bin" and r["op"].startswith(("Add", "Sub", "Mul", "Shl", "Shr", "Div")) and local(r["a"]) is not None and "k" in r["b"]:
                        sums[s["p"][0]] = local(r["a"])
        out = set()
        for l, rs in ds.items():
            bs = set()
            for b, r in rs:
                q = None
                if r["t"] == "use":
                    q = r["a"].get("mv") or r["a"].get("cp")
                if not (q and sums.get(q[0]) == l or r["t"] == "bin" and sums.get(l) == l):
                    bs = None
                    break
                bs.add(b)
            if bs and self.compared(body, ns, l):
                out |= bs
        return out

    def bases(self, r):
        if r["t"] in ("use", "cast"):
            ps = [r["a"]]
        elif r["t"] == "bin":
            ps = [r["a"], r["b"]]
        elif "p" in r:      # a reference, a discriminant
            return {r["p"][0]}
        else:
            return set()
        return {q[0] for q in (o.get("cp") or o.get("mv") for o in ps) if q}

    def compared(self, body, ns, l):
        same = {l}
        for _ in range(3):
            for b in ns:
                for s in body.blocks[b]["st"]:
                    if s["s"] == "=" and len(s["p"]) == 1 and same & self.bases(s["r"]):
                        same.add(s["p"][0])
                t = body.blocks[b]["term"]
                if t["t"] == "call" and len(t["d"]) == 1 and t["f"].get("cn", "").rsplit("::", 1)[-1] in ("lt", "le", "gt", "ge", "eq", "ne", "contains", "get") and \
                        any(local(o) in same for o in t["a"]):
                    same.add(t["d"][0])
        for b in ns:
            t = body.blocks[b]["term"]
            if t["t"] == "switch" and any(x not in ns for x in body.succ(b)):
                on = t["on"].get("cp") or t["on"].get("mv")
                if on and on[0] in same:
                    return True
        return False
