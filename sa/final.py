"""What must hold when the program ends with success."""
from terms import *
from names import *


class Final:
    def __init__(self, E, M, C):
        self.E, self.M, self.C = E, M, C
        self.args = mk("sym", "args")

    def cmdfld(self, cmd, *path):
        t = mk("fld", self.M.cmdt, path[0], cmd)
        for p in path[1:]:
            t = fld(t, *p) if isinstance(p, tuple) else fld(t, p)
        return t

    def haves(self, st):
        for t, v in st.facts.items():
            if v is True and t.op == "app" and t.a[0] == "usable":
                yield (t.a[1][0].a[1],) + tuple(t.a[1][1:])

    def upload(self, st):
        for t, v in st.facts.items():
            if t.op == "fld" and t.a[1] == "upload" and isinstance(v, bool):
                return v
        return None

    def cpf(self, st):
        for t, v in st.facts.items():
            if t.op == "fld" and t.a[1] == "calculate_patch_from" and isinstance(v, str):
                return (v, t)
        return None

    def inner(self, st):
        for t, v in st.facts.items():
            if t.op == "fld" and t.a[1] == "inner" and isinstance(v, str):
                return v
        return None

    def ok(self, st):
        M, C = self.M, self.C
        cmd = M.cmd(st)
        inner = self.inner(st)
        # C18
        for k in (("list-local", "b"), ("list-local", "p")):
            C.require(st, "C18", k, "a %s of the local store may be missing from the index" % ("build" if k[1] == "b" else "patch"))
        for k in (("list-s3",) if inner == "S3" else ("list-fs",) if inner else ("list-s3", "list-fs")):
            for c in "bp":
                C.require(st, "C18", (k, c), "a %s of the remote store may be missing from the index" % ("build" if c == "b" else "patch"))
        up = self.upload(st)
        if cmd == "Sync":
            for k in ("nodes", "edges"):
                C.require(st, "C14", (k,), "`sync` may succeed although a local %s was not uploaded" % ("build" if k == "nodes" else "patch"))
        if cmd in ("Add", "AddPackage") and up is not False:
            for k in ("nodes", "edges"):
                C.require(st, "C21", (k,), "`--upload` may succeed although a local %s was not uploaded" % ("build" if k == "nodes" else "patch"))
            for key in [k for k in st.ts if isinstance(k, tuple) and k[0] == "unreg"]:
                M.bad("C21", "unregistered-" + key[1][0], "a new %s is not known to the upload: %s" % (key[1][0], "-".join(show(x, 4)[:60] for x in key[1][1:])), fn="artefacta_bin::main")
        # C03
        hv = set(self.haves(st))
        M.ob("C03", (cmd, inner, up), None)

        def need(pred, what):
            if not any(pred(h) for h in hv):
                M.bad("C03", "%s-%s" % (cmd, what.replace(" ", "-")), "`%s` may report success although the %s is not in the local store" % (cmd, what), fn="artefacta_bin::main")
        if cmd == "AddPackage":
            v = self.cmdfld(cmd, "version", "data")
            need(lambda h: h == ("build", v), "new build")
            c = self.cpf(st)
            if c and c[0] == "Some":
                f = fld(fld(c[1], "0", "Some"), "data")
                need(lambda h: h == ("patch", f, v), "patch")
            elif c is None:
                need(lambda h: False, "patch (flag not consulted)")
        elif cmd == "Add":
            p = self.cmdfld(cmd, "0", "path")
            isb = lambda v: derived(v, np(p)) or derived(v, p)
            need(lambda h: h[0] == "build" and isb(h[1]), "new build")
            c = self.cpf(st)
            if c and c[0] == "Some":
                f = fld(fld(c[1], "0", "Some"), "data")
                need(lambda h: h[0] == "patch" and h[1] is f and isb(h[2]), "patch")
            elif c is None:
                need(lambda h: False, "patch (flag not consulted)")
        elif cmd == "CreatePatch":
            a, b = self.cmdfld(cmd, "from", "data"), self.cmdfld(cmd, "to", "data")
            need(lambda h: h == ("patch", a, b), "patch")
        elif cmd == "AutoPatch":
            w = cat([self.cmdfld(cmd, "prefix"), self.cmdfld(cmd, "current", "data")])
            need(lambda h: h == ("build", w), "current build")
        elif cmd == "Install":
            M.ob("C04", ("exit", inner), None)
            if not st.facts.get(app("installed")):
                M.bad("C04", "not-installed", "`install` may report success although `current` does not lead to the requested build", fn="artefacta_bin::main")
        if cmd == "AddPackage":
            C.require(st, "C17", ("walk",), "a file may be missing from the package")
