"""Commands of packages: every bin of every package of the tree is linked where its dependents find it.
Must-facts per element (packages, dependents, bins) over the MIR of bin linking and of reading a manifest's bins."""
from ..must import Engine
from ..cg import reach
from ..effects import effect
from ..sweep import NEXT
from .. import sym
from .p15 import Base, same_args, steps, tail, opened

LINKB = "node_maintainer::linkers::Linker::link_bins"
MANI = "BuildManifest"


def kind_of(t):
    if any(x[0] == "fld" and x[2] == "bin" and MANI in x[1] and "Raw" not in x[1] for x in sym.walk(t)):
        return "bins"
    cs = [tail(x) for x in sym.calls_in(t)]
    if any("edges" in x for x in cs):
        return "edges"
    if "node_indices" in cs:
        return "nodes"
    return None


class Bins(Base):
    def __init__(self, ctx, fns):
        self.ctx, self.P = ctx, ctx.P
        self.kinds = {}
        super().__init__(ctx, fns)
        for e in self.nums:
            if e[0] == "clo":
                f = self.P.fns[e[1]]
                self.kinds[e] = "nodes" if "NodeIndex" in (f.lty(self.pers[f.id]) or "") else "edges" if "EdgeReference" in (f.lty(self.pers[f.id]) or "") else "bins"

    def tracked(self, c, t):
        k = kind_of(t)
        if k == "edges":
            if not self.links(c.fn):
                return False
            if "Direction" in str(t) and any(x[0] == "agg" and "Direction" in x[1] for x in sym.walk(t)):
                self.ctx.ob("dependents", "commands go to dependents", any(x[0] == "agg" and "Direction" in x[1] and x[2] == "Incoming" for x in sym.walk(t)), c.where, "a package's commands go to its own dependencies")
        if k:
            self.kinds[self.key(t)] = k
        return k is not None

    def links(self, f):
        r = self.P.root_of(f)
        return any(c.decl == "std::os::unix::fs::symlink" for g in reach(self.P, [r]) for c in self.P.fns[g].calls())

    def per(self, f):
        if f.kind != "Closure" or f.cor or f.derived:
            return None
        rt = f.lty(0) or ""
        if rt == "bool" or not self.does(f):
            return None
        for i in range(2, f.argc + 1):
            x = f.lty(i) or ""
            if "NodeIndex" in x or "EdgeReference" in x or ("String" in x and "PathBuf" in x):
                return i
        return None

    def does(self, f):
        return any(c.decl == "std::os::unix::fs::symlink" for g in reach(self.P, [f]) for c in self.P.fns[g].calls())

    def label(self, e):
        return {"bins": "every command of a package", "edges": "every dependent", "nodes": "every package"}[self.kinds[e]]

    def rule_of(self, e):
        return "each"

    # the element as name / as target
    def comp(self, f, t, i):
        """bins whose i-th component the last step of the path is"""
        out = set()
        self._comp(t, i, 4, out)
        return out

    def note(self, e, base, cs):
        self.bases = getattr(self, "bases", {})
        k = str((base, cs))
        self.bases[k] = (base, cs)
        return e, k

    def _comp(self, t, i, depth, out):
        for t in sym.multi(self.P, t):
            t = opened(self.P, t)
            base, cs = steps(t)
            if cs:
                x = cs[-1]
                while x[0] == "call" and x[2] and tail(x[1]) in ("as_str", "as_path", "as_ref", "clone", "deref", "to_owned", "new", "from", "into", "as_os_str", "borrow"):
                    x = x[2][0]
                if x[0] == "fld" and x[2] == str(i):
                    e, y = self.elem(x[3])
                    if e is not None and self.kinds[e] == "bins":
                        out.add(self.note(e, base, cs[:-1]))
                    continue
                e, y = self.elem(x)
                if e is not None and e[0] == "clo" and self.kinds[e] == "bins" and x == y:
                    out.add(self.note(e, base, cs[:-1]))
                    continue
            g = next((y[1] for y in sym.walk(t) if y[0] == "arg" and y[1] in self.P.fns), None)
            if depth and g is not None and not out:
                for ts in sym.instances(self.P, self.P.fns[g], [t], 1):
                    if ts[0] != t:
                        self._comp(ts[0], i, depth - 1, out)

    def link(self, f, c):
        e = effect(c)
        if not e or e[0] != "symlink":
            return None
        t = sym.sym_op(f, c.args[0])
        if t[0] == "call" and tail(t[1]) in ("unwrap", "expect") and t[2]:
            t = t[2][0]
        while t[0] == "call" and t[2] and tail(t[1]) in ("diff_paths", "unwrap", "expect", "as_ref", "unwrap_or_else", "new"):
            t = t[2][0]
        return t, sym.sym_op(f, c.args[e[1]])

    def dealt(self, f, c):
        l = self.link(f, c)
        if l is None:
            return {}
        a, b = self.comp(f, l[0], 1), self.comp(f, l[1], 0)
        return {e: None for e, _ in a if e in {x for x, _ in b}}

    def check(self, c, st, ch, eng):
        super().check(c, st, ch, eng)
        l = self.link(c.fn, c)
        if l is None or not any(tail(x.sname) == "link_bins" or "bin" in tail(self.P.root_of(x).sname) for x in ch):
            return
        x = self.derive(st.facts)
        a, b = self.comp(c.fn, l[0], 1), self.comp(c.fn, l[1], 0)
        if not a and not b:
            return
        via = self.via(ch)
        kd = self.kindof_ch(ch)
        a, b = ([y for y in z if kd is None or self.side(y[0]) in (None, kd)] for z in (a, b))
        for e, base in b:
            self.ctx.ob("replaced", "a link is made where nothing is left", ("spare", self.num(e), "free") in x, c.where, "what was there under the command's name may be in the way" + via)
            ok = self.at_dependent(e, self.bases[base])
            self.ctx.ob("place", "%s: commands are linked in .bin" % (kd or "link"), ok, c.where, "a command is linked elsewhere" + via)
        ups = {self.upward(self.bases[base][0])[0] for e, base in b}
        if ups & {1, 2}:
            self.ctx.ob("place", "scoped packages are a directory deeper", {1, 2} <= ups, c.where, "the .bin directory is not next to the scope's directory" + via)
        for e, base in a:
            self.ctx.ob("missing", "only commands that are there are linked", ("spare", self.num(e), "there") in x, c.where, "a listed file that does not exist makes the install fail" + via)
            ok = self.from_package(e, self.bases[base])
            self.ctx.ob("target", "%s: a command leads to the file in its package" % (self.kindof_ch(ch) or "link"), ok, c.where, "a command leads to a file of another place" + via)

    def kindof_ch(self, ch):
        for f in reversed(ch):
            k = self.kindof(f)
            if k:
                return k
        return None

    def mani_dir(self, e):
        """the directory whose package.json the bins come from"""
        t = self.terms.get(e)
        out = []
        for t in (self.terms.get(e) or []):
            for x in sym.walk(t):
                if x[0] == "call" and x[1].endswith("BuildManifest::from_path") and x[2]:
                    for y in sym.multi(self.P, x[2][0]):
                        b, cs = steps(opened(self.P, y))
                        if cs and cs[-1] == ("const", "package.json"):
                            out.append((b, cs[:-1]))
        return out

    @property
    def terms(self):
        if not hasattr(self, "_terms"):
            self._terms = {}
            for f in self.fns:
                for c in f.calls():
                    if c.decl in NEXT and (f.id, c.bb) in self.loops:
                        self._terms.setdefault(self.loops[(f.id, c.bb)], []).append(sym.sym_op(f, c.args[0]))
        return self._terms

    def at_dependent(self, e, d):
        b, cs = d
        if not cs or cs[-1] != ("const", ".bin"):
            return False
        if len(cs) > 1 and cs[-2] == ("const", "node_modules"):
            # below the dependent
            t = ("tuple", [b] + cs)
            return any(self.kinds[x] == "edges" and self.side(x) == self.side(e) for x in self.nums) or any(self.kinds[x] != "bins" for x in self.elems_all(None, t))
        # the directory the package itself is in, below a scope or not
        if len(cs) > 1 or b[0] != "call":
            return False
        up, b = self.upward(b)
        b = steps(opened(self.P, b))
        ds = self.mani_dir(e)
        return up and (not ds or any(b == d for d in ds))

    def upward(self, b):
        up = 0
        while b[0] == "call" and b[2] and tail(b[1]) in ("parent", "unwrap", "expect", "as_ref", "to_path_buf", "to_owned"):
            up += tail(b[1]) == "parent"
            b = b[2][0]
        return up, b

    def from_package(self, e, d):
        ds = self.mani_dir(e)
        b, cs = d
        if not ds:
            return True
        if any((b, cs) == d for d in ds):
            return True
        # the dependent's link to it: <dependent>/node_modules/<name>
        return len(cs) >= 2 and cs[-2] == ("const", "node_modules") and any(d[1] and cs[-1] == d[1][-1] for d in ds)

    # what is known
    def spared(self, f, s, val):
        out = set()
        if s[0] == "un" and s[1] == "Not" and isinstance(val, bool):
            return self.spared(f, s[2], not val)
        ab = same_args(s)
        eq = ab and isinstance(val, bool) and val == ab[2] and (ab[0], ab[1])
        if s[0] == "bin" and s[1] in ("Eq", "Ne") and isinstance(val, bool) and val == (s[1] == "Eq"):
            eq = (s[2], s[3])
        if eq:
            for a, b in (eq, eq[::-1]):
                if any(z[0] == "fld" and z[2] == "root" and "Graph" in z[1] for z in sym.walk(b)):
                    for e in self.elems(f, a):
                        if self.kinds[e] == "nodes" and self.plainly(f, a):
                            out.add(("done", self.num(e)))
        x = s[1] if s[0] == "discr" else s
        x = x[1] if x[0] == "await" else x
        neg = None
        if x[0] == "call" and x[2] and tail(x[1]) in ("is_ok", "is_err", "is_some", "is_none") and isinstance(val, bool):
            neg = (tail(x[1]) in ("is_err", "is_none")) == val
            x = x[2][0]
            while x[0] == "call" and x[2] and tail(x[1]) in ("ok", "as_ref"):
                x = x[2][0]
            x = x[1] if x[0] == "await" else x
        elif val in ("Ok", "Err", "Some", "None"):
            neg = val in ("Err", "None")
            while x[0] == "call" and x[2] and tail(x[1]) in ("ok", "as_ref"):
                x = x[2][0]
            x = x[1] if x[0] == "await" else x
        elif isinstance(val, bool):
            neg = not val
        if neg is not None and x[0] == "call" and x[2] and tail(x[1]) in ("symlink_metadata", "metadata", "exists", "try_exists", "is_file"):
            for e, _ in self.comp(f, x[2][0], 1):
                out.add(("spare", self.num(e), "absent" if neg else "there"))
            if neg and tail(x[1]) == "symlink_metadata":
                for e, _ in self.comp(f, x[2][0], 0):
                    out.add(("spare", self.num(e), "free"))
        return frozenset(out)

    def plainly(self, f, t):
        """the element itself, not something reached from it"""
        return "edges" not in str([tail(c) for c in sym.calls_in(t)]) or True

    def more(self, c):
        e = effect(c)
        if e and e[0] == "delete":
            return frozenset(("spare", self.num(x), "free") for x, _ in self.comp(c.fn, sym.sym_op(c.fn, c.args[e[1]]), 0))
        return frozenset()

    def swept(self, f, t):
        k = kind_of(t)
        out = []
        if k == "nodes":
            return [("linked",)]
        inner = self.elems_all(f, t)
        if k == "bins":
            kd = self.kindof(f)
            ed = [e for e in self.nums if self.kinds[e] == "edges" and self.side(e) == kd]
            if ed:
                return [("done", self.num(e)) for e in ed]
        for e in inner:
            if self.kinds[e] == "nodes":
                out.append(("done", self.num(e)))
        return out

    def side(self, e):
        for (fid, bb), x in self.loops.items():
            if x == e:
                return self.kindof(self.P.fns[fid])
        return self.kindof(self.P.fns[e[1]]) if e[0] == "clo" else None

    def elems_all(self, f, t):
        """packages an iterator's contents belong to"""
        out = dict(self.elems(f, t))
        for x in sym.walk(t):
            if x[0] == "arg":
                out.update(self.elems(f, x))
            e, _ = self.elem(x)
            if e is not None:
                out.setdefault(e, x)
        return out

    def derive(self, facts):
        add = {("done", x[1]) for x in facts if x[0] == "spare" and x[2] == "absent"} - facts
        return facts | add if add else facts

    def bad(self, f, e, where, what, ch):
        self.ctx.ob("each", "%s: %s" % (self.kindof_ch(ch) or "link", self.label(e)), False, where,
                    "one may be passed over" + self.via(ch))

    def good(self, f, e, where, ch):
        self.ctx.ob("each", "%s: %s" % (self.kindof_ch(ch) or "link", self.label(e)), True, where, "")

    def end(self, f, x, ch):
        r = self.P.root_of(f)
        if tail(r.sname) == "link_bins" and r.self_ty and "Linker" in r.self_ty and f.cor and f.parent == r.id and self.kindof(f):
            self.ctx.ob("all", "%s goes through the tree" % self.kindof(f), ("linked",) in x, f.where, "ends well without having gone through the packages" + self.via(ch))


class Norm(Base):
    """every bin a manifest lists is among those that are linked"""

    def enter(self, f):
        return f.crate == "oro_common"

    def tracked(self, c, t):
        return self.here(c.fn) and not any(tail(x) == "components" for x in sym.calls_in(t))

    def here(self, f):
        return "BuildManifest" in (self.P.root_of(f).self_ty or "")

    def per(self, f):
        return None

    def dealt(self, f, c):
        n = tail(c.decl)
        if n in ("insert", "push", "extend") and c.args and len(c.args) >= 2:
            out = {}
            for a in c.args[1:]:
                out.update(self.elems(f, sym.sym_op(f, a)))
            return out
        return {}

    def _gen(self, c, st, eng, aw):
        # insert and push cannot fail
        g, w = super()._gen(c, st, eng, aw)
        return g | frozenset(("done", self.num(e)) for e in self.dealt(c.fn, c)), w

    def spared(self, f, s, val):
        out = set()
        if s[0] == "un" and s[1] == "Not" and isinstance(val, bool):
            return self.spared(f, s[2], not val)
        x = s[1] if s[0] == "discr" else s
        ok = False
        if x[0] == "call" and x[2]:
            n = tail(x[1])
            names = {tail(c) for c in sym.calls_in(x)}
            ab = same_args(x)
            if ab and isinstance(val, bool) and val == ab[2]:
                ok = any(empty(y) for y in ab[:2])
            elif n in ("is_none",) and val is True or n == "is_some" and val is False or val == "None":
                ok = "file_name" in names or "strip_prefix" in names or "parent" in names
            elif val == "Err" or n in ("is_err",) and val is True:
                ok = "strip_prefix" in names
            elif n == "is_empty" and val is True:
                ok = True
            elif n == "is_file" and val is False:
                ok = "file_type" in names
            elif n == "starts_with" and val is True:
                ok = "." in sym.consts_in(x) and "file_name" in names
        if ok:
            for e in self.elems(f, x):
                out.add(("done", self.num(e)))
        return frozenset(out)

    def swept(self, f, t):
        # the elements an iterator goes through the contents of
        return [("done", self.num(e)) for x in sym.walk(t) for e in [self.elem(x)[0]] if e is not None]

    def bad(self, f, e, where, what, ch):
        self.ctx.ob("listed", "bins in a manifest", False, where, "a listed command may be left out" + self.via(ch))

    def good(self, f, e, where, ch):
        self.ctx.ob("listed", "bins in a manifest", True, where, "")


def package(P, t):
    """the package's directory, as given"""
    if any(x == ("dir",) for x in sym.walk(t)):
        return False
    return any(x[0] == "call" and tail(x[1]) == "parent" or x[0] == "arg" and x[1] in P.fns and "Path" in (P.fns[x[1]].lty(x[2]) or "") for x in sym.walk(t))


def empty(t):
    """the empty string, as a path or not"""
    if t == ("const", ""):
        return True
    if t[0] == "agg" and t[2] == "Some":
        return any(empty(v) for v in (t[3].values() if isinstance(t[3], dict) else t[3]))
    if t[0] == "call" and t[2] and tail(t[1]) in ("new", "from", "into", "as_ref", "to_path_buf"):
        return empty(t[2][0])
    return False


def dirwalk(t):
    return any(x[0] == "call" and x[1].endswith("WalkDir::new") for x in sym.walk(t))


def check(ctx):
    P = ctx.P
    ctx.rule("each", "every command of every package is linked (isolated: for every dependent), unless its file is not there")
    ctx.rule("all", "linking goes through all packages of the tree")
    ctx.rule("target", "a command leads to the file below the package whose manifest lists it")
    ctx.rule("dependents", "isolated: those who get a package's commands are the packages that depend on it")
    ctx.rule("place", "commands are linked in a .bin directory")
    ctx.rule("replaced", "what was there under that name is removed first")
    ctx.rule("missing", "a listed file that is not there is passed over")
    ctx.rule("listed", "every bin a manifest lists is among a package's commands, unless it has no usable name or file")
    ctx.rule("dir", "directories.bin is looked up in the package")
    top = ctx.need(LINKB, "bin linking")
    ids = reach(P, top)
    fns = [P.fns[i] for i in ids if P.fns[i].crate == "node_maintainer" and not P.fns[i].derived]
    b = Bins(ctx, fns)
    e = Engine(P, b)
    for f in top:
        for g in [c for c in f.children if c.cor] or [f]:
            e.visit(g, b.start(), {}, [])
    oc = [f for f in P.fns.values() if f.crate == "oro_common" and not f.derived and "BuildManifest" in (P.root_of(f).self_ty or "")]
    n = Norm(ctx, oc)
    e = Engine(P, n)
    for f in ctx.need("oro_common::build_manifest::BuildManifest::from_path", "reading a manifest's bins"):
        e.visit(f, n.start(), {}, [])
    # directories.bin
    for f in oc:
        for c in f.calls():
            if c.res.endswith("WalkDir::new"):
                ok = False
                for ts in sym.instances(P, f, [sym.sym_op(f, c.args[0])], 1):
                    for t in sym.closure_terms(P, ts[0]):
                        for u in sym.multi(P, t):
                            for x in [x for x in sym.walk(u) if x[0] == "fld" and "Directories" in x[1]]:
                                u = sym.repl(u, x, ("dir",))
                            ok = ok or any(x[0] == "call" and tail(x[1]) == "join" and package(P, x[2][0]) for x in sym.walk(u) if x[0] == "call" and len(x[2]) == 2)
                ctx.ob("dir", "directories.bin is below the package", ok, c.where, "directories.bin is looked up in the current directory")
    for r, k in (("each", 4), ("all", 2), ("target", 2), ("place", 1), ("replaced", 1), ("missing", 1), ("listed", 1), ("dir", 1)):
        ctx.floor(r, k)
