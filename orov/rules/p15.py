"""Applying over an existing node_modules: what does not match the resolved tree is deleted, what is missing is extracted.
Must-facts per element (directory entries, packages, dependency edges) over the MIR of the prune and extract phases."""
from ..must import Engine, MustRule, UN
from ..sweep import Sweep, NEXT
from ..cg import callers, reach
from ..vfg import VFG
from ..effects import effect
from .. import sym

NM = "node_maintainer::maintainer::NodeMaintainer::"
LINK = "node_maintainer::linkers::"
EXTRACT = "nassun::package::Package::extract_to_dir"
STORE = ".oro-store"
THRU = {"as_ref", "as_deref", "as_mut", "and_then", "filter", "ok", "cloned", "copied", "clone", "deref", "borrow", "unwrap", "expect", "map", "to_owned", "transpose"}


def tail(n):
    return n.rsplit("::", 1)[-1]


def joined(t):
    if t[0] == "call" and tail(t[1]) in ("join", "with_file_name", "push") and len(t[2]) == 2:
        x = t[2][1]
        return x[1] if x[0] == "const" else joined(x)
    if t[0] == "call" and t[2] and tail(t[1]) in ("new", "from", "into", "to_owned", "clone", "as_ref", "deref", "to_path_buf", "as_path", "borrow"):
        return joined(t[2][0])
    return None


def dirsrc(t):
    """the directory whose contents an iterator or stream term goes through"""
    for x in sym.walk(t):
        if x[0] == "call" and x[2] and (x[1].endswith("::read_dir") or x[1].endswith("WalkDir::new")):
            return x
    return None


def consts_of(P, t, seen=()):
    out = set(sym.deep_consts(P, t))
    for x in sym.walk(t):
        n = x[1] if x[0] == "call" else None
        for g in P.byname.get(n, ()) if n else ():
            if g.id not in seen:
                out |= sym.body_consts(g)
                for r in sym.returns(P, g):
                    for y in sym.multi(P, r):
                        out |= consts_of(P, y, seen + (g.id,))
    return out


def same_args(t):
    """the two sides of a comparison, and whether equality is asked for"""
    if t[0] == "call" and t[3] in ("core::cmp::PartialEq::eq", "core::cmp::PartialEq::ne") and len(t[2]) == 2:
        return t[2][0], t[2][1], t[3].endswith("eq")
    return None


class Base(Sweep):
    def __init__(self, ctx, fns):
        self.ctx = ctx
        super().__init__(ctx.P, fns)

    def who(self, f):
        r = self.P.root_of(f)
        return ("%s %s" % (f.file.rsplit("/", 1)[-1].split(".")[0], tail(r.sname))).strip()

    def via(self, ch):
        return "; via " + " -> ".join(x.sname for x in ch[:10])

    def more_reach(self, f, cid):
        return self.P.fns.get(cid)

    def kindof(self, f):
        """hoisted or isolated, by the linker whose code this is"""
        r = self.P.root_of(f)
        for k in ("Hoisted", "Isolated"):
            if k + "Linker" in r.sname or any(k + "Linker" in (r.lty(i) or "") for i in range(1, r.argc + 1)):
                return k.lower()
        return None


class Prune(Base):
    """every entry that is looked at is deleted unless it may stay"""
    rule = "sweep"

    def __init__(self, ctx, fns):
        super().__init__(ctx, fns)
        self.inner = set()
        for f in fns:
            for c in f.calls():
                e = self.it(c)
                d = dirsrc(sym.sym_op(f, c.args[0])) if e is not None else None
                if d is not None and self.path_of(f, d[2][0]):
                    self.inner.add(self.num(e))

    def tracked(self, c, t):
        if c.decl.endswith(("::Vec::pop", "BinaryHeap::pop")):
            return False
        return dirsrc(t) is not None

    def per(self, f):
        if f.kind != "Closure" or f.cor:
            return None
        rt = f.lty(0) or ""
        if "DirEntry" in rt or rt == "bool" or "String" in rt:
            return None
        for i in range(2, f.argc + 1):
            if "DirEntry" in (f.lty(i) or ""):
                return i
        return None

    # the entry's own path
    def path_of(self, f, t):
        """elements whose path the term is"""
        out = {}
        for e, t1 in self.elems(f, t).items():
            if self.own(t1, e):
                out[e] = t1
        return out

    def own(self, t, e):
        while True:
            if self.elem(t)[0] == e and (t[0] != "call" or t[3] in NEXT):
                return True
            if t[0] == "call" and t[2]:
                n = tail(t[1])
                if t[3] in NEXT:
                    return True
                if n in ("join", "push") and len(t[2]) == 2 and t[2][1][0] == "call" and "file_name" in str(t[2][1])[:60]:
                    t = t[2][1]
                    continue
                if n in ("parent", "join", "with_file_name", "with_extension", "read_link", "canonicalize", "nth", "ancestors", "strip_prefix"):
                    return False
                t = t[2][0]
            elif t[0] in ("fld", "await", "ref", "cast", "deref", "idx", "un"):
                t = [x for x in t[1:] if isinstance(x, tuple)][-1] if any(isinstance(x, tuple) for x in t[1:]) else None
                if t is None:
                    return False
            else:
                return False

    def dealt(self, f, c):
        e = effect(c)
        if e and e[0] == "delete":
            return self.path_of(f, sym.sym_op(f, c.args[e[1]]))
        return {}

    def swept(self, f, t):
        d = dirsrc(t)
        n = joined(d[2][0]) if d is not None else None
        out = []
        if n in ("node_modules", STORE):
            out.append(("swept", n))
        if d is not None:
            out.append(("swept", str(d[2][0])))
            for e in self.path_of(f, d[2][0]):
                out.append(("spare", self.num(e), "gone through"))
        return out

    def fine(self, c):
        """the dependency links of every package are looked at"""
        t = sym.sym_op(c.fn, c.args[0])
        return any(x.endswith("node_indices") for x in sym.calls_in(t)) or any("node_indices" in str(y) for y in [t])

    def whole(self, c, st, eng, aw):
        x = set(super().whole(c, st, eng, aw))
        if self.final(c) and self.fine(c) and not sym.partial(sym.sym_op(c.fn, c.args[0])):
            for a in c.args[1:]:
                for cid in eng.closure_of(c.fn, a):
                    g = self.P.fns.get(cid)
                    if g is not None and any(y.res.endswith("::read_dir") or y.decl.endswith("::read_dir") for i in reach(self.P, [g]) for y in self.P.fns[i].calls() if self.P.fns[i].crate == "node_maintainer"):
                        x.add(("links",))
        return x

    def spared(self, f, s, val):
        out = set()
        if s[0] == "un" and s[1] == "Not" and isinstance(val, bool):
            return self.spared(f, s[2], not val)
        if s[0] == "discr":
            s = s[1]
        if s[0] == "await":
            s = s[1]
        if s[0] == "fld" and s[2] == "actual_tree":
            if val == "Some":
                out.add(("tree",))
            return out
        if s[0] != "call":
            return out
        n = tail(s[1])
        # what is known about the directory as a whole
        if n in ("is_none", "is_some") and s[2] and isinstance(val, bool) and s[2][0][0] == "fld" and s[2][0][2] == "actual_tree" and val == (n == "is_some"):
            out.add(("tree",))
        if n in ("exists", "is_dir") and s[2] and isinstance(val, bool):
            j = joined(s[2][0])
            if j == STORE:
                out.add(("store", val))
            elif j == "node_modules" and n == "exists" and not val:
                out.add(("swept", "node_modules"))
            if n == "exists" and not val:
                out.add(("swept", str(self.unwrapped(s[2][0]))))
        # the type of an entry
        if n in ("is_dir", "is_file", "is_symlink") and val is False:
            for e in self.elems(f, s):
                out.add(("spare", self.num(e), "not " + n[3:]))
        if val in ("Some", "None") and n in ("get",) and len(s[2]) == 2:
            for e in self.path_of(f, s[2][1]):
                out.add(("spare", self.num(e), "wanted" if val == "Some" else "unwanted"))
        if n in ("is_none", "is_some") and isinstance(val, bool) and s[2] and s[2][0][0] == "call" and tail(s[2][0][1]) == "get" and len(s[2][0][2]) == 2:
            for e in self.path_of(f, s[2][0][2][1]):
                out.add(("spare", self.num(e), "wanted" if (n == "is_some") == val else "unwanted"))
        if n in ("contains", "contains_key") and val is True and len(s[2]) == 2:
            for e in self.path_of(f, s[2][1]):
                out.add(("spare", self.num(e), "expected"))
        if n in ("contains", "contains_key") and val is False and len(s[2]) == 2:
            for e in self.path_of(f, s[2][1]):
                out.add(("spare", self.num(e), "unwanted"))
        # a scope's directory or something that is not a package's
        if isinstance(val, bool) and (n == "starts_with" or s[1] in self.P.byname):
            cs = consts_of(self.P, self.bare(s))
            kind = "package place" if "node_modules" in cs else "scope" if "@" in cs else None
            if kind:
                for e in self.elems(f, s):
                    out.add(("spare", self.num(e), ("" if val else "not ") + kind))
        ab = same_args(s)
        if ab and isinstance(val, bool):
            a, b, want = ab
            if val == want:
                out |= self.equal(f, a, b) | self.equal(f, b, a)
            else:
                for x, y in ((a, b), (b, a)):
                    if "parent" in str(sym.calls_in(x)) and "node_modules" in sym.consts_in(y):
                        for e in self.elems(f, x):
                            out.add(("spare", self.num(e), "not package place"))
        # packages that come with others
        if n in ("is_none", "is_some") and isinstance(val, bool) and val == (n == "is_none") and s[2]:
            r = self.record(f, s[2][0])
            for e in r:
                out.add(("spare", self.num(e), "no " + r[e]))
        if n == "any" and val is True and s[2] and any(tail(c) == "ancestors" for c in sym.calls_in(s[2][0])):
            ok = any(same_args(y) and same_args(y)[2] is False and any(joined(z) == "node_modules" for z in y[2]) for y in self.closure_calls(s))
            for e in self.elems(f, s[2][0]):
                if ok:
                    out.add(("spare", self.num(e), "nested"))
        return frozenset(out)

    def bare(self, s):
        x = self.elem(s)[1]
        return sym.repl(s, x, ("elem",)) if x is not None else s

    def closure_calls(self, s):
        for x in s[2]:
            if x[0] == "clo" and x[1] in self.P.fns:
                g = self.P.fns[x[1]]
                for c in g.calls():
                    yield sym.sym_call(g, c)

    def unwrapped(self, t):
        while t[0] == "call" and t[2] and tail(t[1]) in ("new", "from", "into", "as_ref", "deref", "borrow"):
            t = t[2][0]
        return t

    def record(self, f, t):
        """elements whose recorded (actual) or resolved (ideal) package the term is"""
        out = {}
        x = t
        while True:
            if x[0] == "call":
                n = tail(x[1])
                if n in ("get", "node_lockfile_node"):
                    break
                if n not in THRU or not x[2]:
                    break
                for a in x[2][1:]:
                    if a[0] == "clo" and n in ("map", "and_then") and "LockfileNode" not in (self.P.fns[a[1]].lty(0) if a[1] in self.P.fns else ""):
                        return out
                if n == "map" and not any(a[0] == "clo" for a in x[2][1:]):
                    return out
                x = x[2][0]
            elif x[0] == "fld" and ("Option" in x[1] or "Result" in x[1] or x[1] == ""):
                x = x[3]
            elif x[0] == "fld" and x[2] == "actual_tree":
                break
            elif x[0] == "un" or x[0] == "ref":
                x = x[-1]
            elif x[0] == "fld" and "LockfileNode" in x[1]:
                return out
            else:
                break
        ts = sym.closure_terms(self.P, t)
        for y in list(ts):
            ts += [z for q in sym.walk(y) if q[0] == "clo" and q[1] in self.P.fns for z in self.closure_calls(("call", "", [q], ""))]
        cs = {c for y in ts for c in sym.calls_in(y)}
        kind = None
        if any(tail(c) == "node_lockfile_node" for c in cs):
            kind = "ideal"
        elif any(z[0] == "fld" and z[2] == "packages" for y in ts for z in sym.walk(y)) and any(tail(c) == "get" for c in cs):
            kind = "actual"
        if kind:
            for y in ts:
                for e in self.elems(f, y):
                    out[e] = kind
        return out

    def equal(self, f, a, b):
        out = set()
        # the recorded package is the one that is wanted
        ra, rb = self.record(f, a), self.record(f, b)
        for e in ra:
            if ra[e] == "actual" and rb.get(e) == "ideal":
                out.add(("spare", self.num(e), "same"))
        # the name of the entry
        if any(tail(c) == "file_name" for c in sym.calls_in(a)):
            n = set(sym.consts_in(b)) & {"node_modules", ".bin"}
            for e in self.elems(f, a) if n else ():
                if not any(tail(c) in ("parent",) for c in sym.calls_in(a)):
                    out.add(("spare", self.num(e), "named"))
        if a[0] == "call" and self.path_of(f, a):
            from .p16 import record_names
            if not hasattr(self, "rec"):
                self.rec = record_names(self.P)
            if joined(b) in self.rec:
                out |= {("spare", self.num(e), "the record") for e in self.path_of(f, a)}
        # a link that leads where it should
        for x in (a,):
            if any(tail(c) == "read_link" for c in sym.calls_in(x)):
                for e in self.elems(f, x):
                    out.add(("spare", self.num(e), "leads there"))
        return out

    def derive(self, facts):
        by = {}
        for x in facts:
            if x[0] == "spare":
                by.setdefault(x[1], set()).add(x[2])
        add = set()
        for n, k in by.items():
            if {"not dir", "not file", "not symlink"} <= k or "named" in k or "the record" in k or {"not scope", "not package place"} <= k:
                add.add(("done", n))
            elif "scope" in k and ("tree",) in facts and (("store", False) in facts or "gone through" in k):
                add.add(("done", n))
            elif {"unwanted", "not scope", "not symlink"} <= k and ("tree",) in facts and ("store", True) in facts:
                add.add(("done", n))
            elif "same" in k and ("tree",) in facts and ("store", False) in facts:
                add.add(("done", n))
            elif {"no actual", "no ideal", "nested"} <= k and ("tree",) in facts and ("store", False) in facts:
                add.add(("done", n))
            elif "expected" in k and ("tree",) in facts and ("store", True) in facts:
                add.add(("done", n))
            elif {"unwanted", "not symlink", "not dir"} <= k or "leads there" in k or (n in self.inner and "not symlink" in k):
                if ("tree",) in facts and ("store", True) in facts:
                    add.add(("done", n))
        if {("swept", STORE), ("links",)} <= facts:
            add.add(("swept", "node_modules"))
        add -= facts
        return facts | add if add else facts

    def label(self, e):
        if e[0] == "clo":
            return "entries handed to a closure"
        return "entries of a directory"

    def bad(self, f, e, where, what, ch):
        self.ctx.ob(self.rule, "%s: %s" % (self.who(f), self.label(e)), False, where,
                    ("an entry may be passed over that is neither the same package nor one that may stay" if what == "done" else "some entries may not be looked at") + self.via(ch))

    def good(self, f, e, where, ch):
        self.ctx.ob(self.rule, "%s: %s" % (self.who(f), self.label(e)), True, where, "")

    def end(self, f, x, ch):
        # a predicate that leaves entries out
        r = self.P.root_of(f)
        if tail(r.sname) == "prune" and r.self_ty and "Linker" in r.self_ty and f.cor and f.parent == r.id and self.kindof(f):
            k = self.kindof(f)
            ok = ("swept", "node_modules") in self.derive(x)
            self.ctx.ob("whole", "%s looks at everything" % k, ok, f.where, "ends well without having gone through node_modules" + self.via(ch))


class Filter(Prune):
    """predicates deciding which entries are looked at: what is left out may stay"""
    rule = "filter"

    def per(self, f):
        if f.kind != "Closure" or f.cor or f.lty(0) != "bool" or f.argc < 2:
            return None
        return 2 if "DirEntry" in (f.lty(2) or "") else None

    def derive(self, facts):
        # leaving out a scope leaves out the packages in it
        return frozenset(super().derive(frozenset(x for x in facts if not (x[0] == "spare" and x[2] == "scope"))) | facts)

    def exit(self, f, st, ch, eng):
        if f.id not in self.pers:
            return
        x = st.look(0, (), False)
        n = self.num(("clo", f.id))
        ok = x is UN
        if not ok:
            k = {y[2] for y in self.derive(x) if y[0] == "spare" and y[1] == n}
            ok = ("done", n) in self.derive(x) or {"not scope", "not package place"} <= k
        self.ctx.ob("filter", "%s: entries left out" % self.who(f), ok, f.where, "entries are left out that may be packages")

    def end(self, f, x, ch):
        pass


class Extract(Base):
    """every package of the tree is extracted or was there"""

    def tracked(self, c, t):
        return any(tail(x) == "node_indices" for x in sym.calls_in(t)) and not c.decl.endswith("::pop")

    def per(self, f):
        if f.kind != "Closure" or f.cor:
            return None
        rt = f.lty(0) or ""
        if "async block" not in rt and "()" not in rt and "Pin<" not in rt:
            return None
        for i in range(2, f.argc + 1):
            if "NodeIndex" in (f.lty(i) or "") and any(c.res == EXTRACT or c.decl == EXTRACT for g in reach(self.P, [f]) for c in self.P.fns[g].calls()):
                return i
        return None

    def dealt(self, f, c):
        if c.res == EXTRACT or c.decl == EXTRACT:
            return self.elems(f, sym.sym_op(f, c.args[0]))
        return {}

    def spared(self, f, s, val):
        out = set()
        if s[0] == "un" and s[1] == "Not" and isinstance(val, bool):
            return self.spared(f, s[2], not val)
        ab = same_args(s)
        if ab and isinstance(val, bool) and val == ab[2]:
            for a, b in ((ab[0], ab[1]), (ab[1], ab[0])):
                if any(z[0] == "fld" and z[2] == "root" and "Graph" in z[1] for z in sym.walk(b)):
                    for e in self.elems(f, a):
                        out.add(("done", self.num(e)))
        if s[0] == "bin" and s[1] in ("Eq", "Ne") and isinstance(val, bool) and val == (s[1] == "Eq"):
            for a, b in ((s[2], s[3]), (s[3], s[2])):
                if any(z[0] == "fld" and z[2] == "root" and "Graph" in z[1] for z in sym.walk(b)):
                    for e in self.elems(f, a):
                        out.add(("done", self.num(e)))
        x = s[1] if s[0] == "await" else s
        if x[0] == "call" and tail(x[1]) in ("exists", "is_dir", "try_exists") and val is True and x[2]:
            tg = self.targets(f)
            if all(str(self.plain(i[0])) in tg for i in sym.instances(self.P, f, [x[2][0]])):
                for e in self.elems(f, x[2][0]):
                    out.add(("done", self.num(e)))
        return frozenset(out)

    def plain(self, t):
        while t[0] == "call" and t[2] and tail(t[1]) in ("new", "from", "into", "as_ref", "deref", "borrow", "clone"):
            t = t[2][0]
        return t

    def targets(self, f):
        """what this linker's packages are extracted to"""
        k = self.kindof(f)
        if not hasattr(self, "tg"):
            self.tg = {}
            for g in self.P.fns.values():
                if g.crate == "node_maintainer":
                    for c in g.calls():
                        if c.res == EXTRACT or c.decl == EXTRACT:
                            for t in sym.instances(self.P, g, [sym.sym_op(g, c.args[1])]):
                                kk = self.kindof(g) or "?"
                                self.tg.setdefault(kk, {})[str(self.plain(t[0]))] = (c, t[0])
        return self.tg.get(k) or {y: z for x in self.tg.values() for y, z in x.items()}

    def swept(self, f, t):
        return [("each",)]

    def bad(self, f, e, where, what, ch):
        self.ctx.ob("extract", "%s: every package" % self.who(f), False, where, "a package may be left out that is not in place" + self.via(ch))

    def good(self, f, e, where, ch):
        self.ctx.ob("extract", "%s: every package" % self.who(f), True, where, "")

    def end(self, f, x, ch):
        r = self.P.root_of(f)
        if tail(r.sname) == "extract" and f.cor and f.parent == r.id and self.kindof(f):
            self.ctx.ob("extract", "%s goes through the tree" % self.kindof(f), ("each",) in x, f.where, "ends well without having gone through the packages" + self.via(ch))


class Links(Base):
    """every dependency of a package ends up linked to what the tree has there"""

    def tracked(self, c, t):
        return any("edges" in tail(x) for x in sym.calls_in(t)) and self.edges_in(c.fn)

    def edges_in(self, f):
        r = self.P.root_of(f)
        return self.kindof(f) == "isolated" and any(c.decl == "std::os::unix::fs::symlink" for g in reach(self.P, [f]) for c in self.P.fns[g].calls() if self.P.root_of(self.P.fns[g]) is r)

    def link(self, f, c):
        e = effect(c)
        return sym.sym_op(f, c.args[e[1]]) if e and e[0] == "symlink" else None

    def dealt(self, f, c):
        t = self.link(f, c)
        if t is None:
            return {}
        a = self.elems(f, t)
        b = self.elems(f, sym.sym_op(f, c.args[0]))
        return {e: a[e] for e in a if e in b}

    def spared(self, f, s, val):
        out = set()
        if s[0] == "un" and s[1] == "Not" and isinstance(val, bool):
            return self.spared(f, s[2], not val)
        ab = same_args(s)
        if ab and isinstance(val, bool) and val == ab[2]:
            for a, b in ((ab[0], ab[1]), (ab[1], ab[0])):
                if any(tail(c) == "read_link" for c in sym.calls_in(a)) and any(tail(c) == "diff_paths" for c in sym.calls_in(b)):
                    ea, eb = self.elems(f, a), self.elems(f, b)
                    for e in ea:
                        if e in eb:
                            out.add(("done", self.num(e)))
        if s[0] == "call" and s[2]:
            n = tail(s[1])
            if n in ("is_none", "is_some", "is_err", "is_ok") and isinstance(val, bool) and any(tail(c) == "read_link" for c in sym.calls_in(s[2][0])):
                if val == (n in ("is_none", "is_err")):
                    for e in self.elems(f, s[2][0]):
                        out.add(("spare", self.num(e), "no link"))
            if n in ("exists",) and val is True:
                for e in self.elems(f, s[2][0]):
                    out.add(("spare", self.num(e), "there"))
            if n in ("is_err", "is_ok") and isinstance(val, bool) and s[2][0][0] == "call" and tail(s[2][0][1]) in ("symlink_metadata", "metadata"):
                if val == (n == "is_ok"):
                    for e in self.elems(f, s[2][0]):
                        out.add(("spare", self.num(e), "there"))
        return frozenset(out)

    def more(self, c):
        # the outdated link is gone
        e = effect(c)
        if e and e[0] == "delete":
            return frozenset(("spare", self.num(x), "no link") for x in self.elems(c.fn, sym.sym_op(c.fn, c.args[e[1]])))
        return frozenset()

    def derive(self, facts):
        by = {}
        for x in facts:
            if x[0] == "spare":
                by.setdefault(x[1], set()).add(x[2])
        add = {("done", n) for n, k in by.items() if {"no link", "there"} <= k} - facts
        return facts | add if add else facts

    def bad(self, f, e, where, what, ch):
        self.ctx.ob("links", "%s: every dependency" % self.who(f), False, where, "a dependency may be left without a link to what the tree has there" + self.via(ch))

    def good(self, f, e, where, ch):
        self.ctx.ob("links", "%s: every dependency" % self.who(f), True, where, "")


class Order(MustRule):
    """packages are extracted after everything outdated was pruned"""

    def __init__(self, ctx):
        self.ctx, self.P = ctx, ctx.P

    def enter(self, f):
        return f.crate == "orogene"

    def is_(self, c, ph):
        return c.res == NM + ph or c.decl == NM + ph

    def gen_await(self, c, st, eng):
        return frozenset(), {((), "Ok"): frozenset([("pruned",)])} if self.is_(c, "prune") else {}

    def check(self, c, st, ch, eng):
        if self.is_(c, "extract"):
            self.ctx.ob("order", "%s prunes before it extracts" % tail(self.P.root_of(ch[0]).sname), ("pruned",) in st.facts, c.where,
                        "packages are extracted next to what was there before; via " + " -> ".join(x.sname for x in ch[:10]))


def steps(t):
    """path built by joins: base term and components"""
    out = []
    while t[0] == "call" and t[2]:
        n = tail(t[1])
        if n == "join" and len(t[2]) == 2:
            out.append(t[2][1])
            t = t[2][0]
        elif n in ("new", "from", "into", "as_ref", "deref", "borrow", "clone", "to_owned", "to_path_buf"):
            t = t[2][0]
        else:
            break
    return t, out[::-1]


def naming(P, t):
    """workspace functions that make the components of a path"""
    base, cs = steps(t)
    return [x[1] for x in cs if x[0] == "call" and x[1] in P.byname and "::linkers::" in x[1]]


def opened(P, t):
    """with path-building helpers put in"""
    b, cs = steps(t)
    ts = sym.expand(P, b, enter=lambda n: all("Path" in (f.lty(0) or "") for f in P.byname[n]))
    if len(ts) != 1 or ts[0] == b:
        return t
    t = opened(P, ts[0])
    for x in cs:
        t = ("call", "std::path::Path::join", [t, x], "std::path::Path::join")
    return t


def names(ctx, ex):
    """in the store, packages that differ have different directories, and every phase uses the same ones"""
    P = ctx.P
    tg = ex.targets(next(f for f in P.fns.values() if ex.kindof(f) == "isolated"))
    used = set()
    G = VFG(P)
    for k, (c, t) in tg.items():
        if ex.kindof(c.fn) != "isolated":
            continue
        t = opened(P, t)
        fs = naming(P, t)
        used |= set(fs)
        for what, ns in (("the place in the tree", ("Graph::node_path_string", "Graph::node_path")), ("what it resolved to", ("Package::resolved",)), ("its integrity", ("PackageResolution::integrity",))):
            ok = any(x.endswith(ns) for x in sym.calls_in(t))
            for n in fs:
                for i in reach(P, P.byname[n]):
                    for x in P.fns[i].calls():
                        if x.res.endswith(ns) or x.decl.endswith(ns):
                            flow = G.forward([G.node(x.fn, x.dest, write=True)])
                            ok = ok or any(("L", g.id, 0) in flow for g in P.byname[n])
            ctx.ob("store", "a directory is named for %s" % what, ok, c.where, "packages that differ in %s share a directory" % what)
    # the same names everywhere
    for f in P.fns.values():
        if f.crate == "node_maintainer" and ex.kindof(f) == "isolated":
            for c in f.calls():
                if tail(c.decl) == "insert" and "HashSet" in c.decl and len(c.args) == 2:
                    t = opened(P, sym.sym_op(f, c.args[1]))
                    if joined(t) is None and steps(t)[1] and any(STORE in str(x) for x in [t]):
                        ns = set(naming(P, t))
                        ctx.ob("store", "what is expected in the store is what packages are extracted to", ns == used, c.where, "expects other directories than packages are put into")
                e = effect(c)
                if e and e[0] == "symlink":
                    for ts in sym.instances(P, f, [sym.sym_op(f, c.args[0])]):
                        ns = set(naming_deep(P, opened(P, ts[0])))
                        if ns or any(tail(x) == "diff_paths" for x in sym.calls_in(ts[0])):
                            if tail(P.root_of(f).sname) != "link_bin":
                                ctx.ob("store", "links lead to where packages are extracted to", used <= ns, c.where, "links to something else")


def naming_deep(P, t):
    return [x for x in sym.calls_in(t) if x in P.byname and "::linkers::" in x]


def check(ctx):
    P = ctx.P
    ctx.rule("sweep", "every entry of node_modules that prune looks at is deleted, unless it is recorded as the very package the tree has there (or is a bundled, scope or bin directory)")
    ctx.rule("whole", "prune looks at all of node_modules: everything is deleted if there is no record or the layout is another one")
    ctx.rule("filter", "what prune does not look at are no packages")
    ctx.rule("extract", "every package of the tree is extracted, or is in place already")
    ctx.rule("links", "isolated: every dependency ends up linked to the package the tree has there")
    ctx.rule("store", "isolated: a package's directory is named for its place, resolution and integrity, alike in all phases")
    ctx.rule("compare", "comparing a recorded and a resolved package covers all that is recorded")
    ctx.rule("order", "the apply command prunes before it extracts")
    lk = [f for f in P.fns.values() if f.crate == "node_maintainer" and not f.derived]
    top = {ph: ctx.need(NM + ph, ph + " phase") for ph in ("prune", "extract")}

    def region(fs):
        ids = reach(P, fs)
        return [P.fns[i] for i in ids if P.fns[i].crate == "node_maintainer" and not P.fns[i].derived]

    pr = region(top["prune"])
    exs = region(top["extract"])
    p = Prune(ctx, pr)
    e = Engine(P, p)
    for f in top["prune"]:
        for b in [c for c in f.children if c.cor] or [f]:
            e.visit(b, p.start(), {}, [])
    for f in pr:
        for c in f.calls():
            if tail(c.res) == "new" and "walkdir::WalkDir" in c.res:
                far = [y for y in f.calls() if y.res == "walkdir::WalkDir::follow_links" and sym.sym_op(f, y.args[1]) != ("const", False)]
                ctx.ob("whole", "%s stays in node_modules" % p.who(f), not far, (far or [c])[0].where, "links are followed, so what they lead to is pruned too")
    fl = Filter(ctx, pr)
    e = Engine(P, fl)
    for fid in fl.pers:
        f = P.fns[fid]
        e.visit(f, frozenset([("tree",), ("store", False)]), {}, [])
    x = Extract(ctx, exs)
    e = Engine(P, x)
    for f in top["extract"]:
        for b in [c for c in f.children if c.cor] or [f]:
            e.visit(b, x.start(), {}, [])
    l = Links(ctx, exs)
    e = Engine(P, l)
    for f in top["extract"]:
        for b in [c for c in f.children if c.cor] or [f]:
            e.visit(b, l.start(), {}, [])
    names(ctx, x)
    o = Order(ctx)
    e = Engine(P, o)
    up, work = set(), [f.id for f in top["extract"]]
    tops = []
    while work:
        i = work.pop()
        hs = [h for h, c in callers(P).get(i, ()) if h.crate == "orogene" and h.id != i]
        if not hs and P.fns[i].crate == "orogene":
            tops.append(P.fns[i])
        for h in hs:
            r = h
            while r.kind == "Closure" and r.parent in P.fns:
                r = P.fns[r.parent]
            if r.id not in up:
                up.add(r.id)
                work.append(r.id)
    for f in tops:
        for b in [c for c in f.children if c.cor] or [f]:
            e.visit(b, frozenset(), {}, [])
    eqs = [f for f in P.fns.values() if f.trait == "core::cmp::PartialEq" and f.self_ty and f.self_ty.endswith("lockfile::LockfileNode")]
    ctx.ob("compare", "LockfileNode equality is derived", bool(eqs) and all(f.derived for f in eqs), eqs[0].where if eqs else "lockfile.rs", "hand-written comparison of recorded packages")
    for r, n in (("sweep", 3), ("whole", 2), ("extract", 2), ("links", 1), ("store", 4), ("order", 1)):
        ctx.floor(r, n)
