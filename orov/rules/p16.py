"""The record of what is installed (node_modules/.orogene-meta.kdl): must-facts over the MIR of the phases that change
node_modules ("the record is gone", "every extraction so far succeeded") at each effect and where the record is written."""
from ..must import MustRule, Engine, UN
from ..cg import reach
from ..effects import effect, SPAWN
from .. import sym

NM = "node_maintainer::maintainer::NodeMaintainer::"
LF = "node_maintainer::lockfile::Lockfile"
EXTRACT = "nassun::package::Package::extract_to_dir"
OTHER = ("unwrap_or", "unwrap_or_else", "unwrap_or_default", "or", "or_else", "map_or", "map_or_else", "get_or_insert", "get_or_insert_with")
KIND = "std::io::error::Error::kind", "core::io::error::Error::kind"


def joined(t):
    """constant a path term ends with"""
    if t[0] == "call" and t[1].endswith(("Path::join", "PathBuf::join", "Path::with_file_name")) and len(t[2]) == 2:
        x = t[2][1]
        if x[0] == "const":
            return x[1]
        if x[0] == "call" and len(x[2]) >= 1:
            return joined(x)
    if t[0] == "call" and t[1].endswith("Path::new") and t[2]:
        return joined(t[2][0])
    return None


def record_names(P):
    """names of the files that are read, parsed as a lockfile and kept as the actual tree"""
    out = set()
    for f in P.fns.values():
        if f.crate != "node_maintainer" or f.derived:
            continue
        for b in f.rpo():
            for s in f.bbs[b]["s"]:
                if s[0][1:] and clean_last(s[0]) == "actual_tree":
                    for t in sym.multi(P, sym.sym_rv(f, s[1])):
                        for x in sym.walk(t):
                            if x[0] == "call" and "read" in x[1].rsplit("::", 1)[-1] and x[2]:
                                n = joined(x[2][0])
                                if n:
                                    out.add(n)
    return out


def clean_last(place):
    e = [x for x in place[1:] if x.startswith(".")]
    return e[-1][1:].split("#")[0] if e else None


def assigned(P):
    """(where, terms) of everything put into Resolver.actual_tree outside of constructors"""
    for f in P.fns.values():
        if f.crate != "node_maintainer" or f.derived:
            continue
        for b in f.rpo():
            for s in f.bbs[b]["s"]:
                if s[0][1:] and clean_last(s[0]) == "actual_tree":
                    yield f, f.src(s) if hasattr(f, "src") else f.where, sym.multi(P, sym.sym_rv(f, s[1]))


class R(MustRule):
    def __init__(self, ctx, rec, ex):
        self.ctx, self.P, self.rec, self.ex = ctx, ctx.P, rec, ex
        self.writes = set()

    def enter(self, f):
        return f.crate == "node_maintainer"

    def is_rec(self, t):
        return joined(t) in self.rec

    def whole(self, t):
        return joined(t) == "node_modules"

    def places(self, c):
        """does the call put packages into place?"""
        if c.res == EXTRACT or c.decl == EXTRACT:
            return True
        return any(x in self.ex for x in self.clos(c))

    def clos(self, c):
        return [x[1] for a in c.args for x in sym.walk(sym.sym_op(c.fn, a)) if x[0] == "clo"] if c.rid not in self.P.fns else []

    # the record is gone
    def gone(self, f, s, val):
        out = set()
        x = s
        if x[0] == "un" and x[1] == "Not" and isinstance(val, bool):
            return self.gone(f, x[2], not val)
        if x[0] == "await":
            x = x[1]
        if x[0] == "call" and x[1].endswith("Path::exists") and val is False and x[2]:
            for t in sym.instances(self.P, f, [x[2][0]]):
                if not (self.is_rec(t[0]) or self.whole(t[0])):
                    return out
            out.add(("unrec",))
        if x[0] == "call" and x[3] in ("core::cmp::PartialEq::eq", "core::cmp::PartialEq::ne") and isinstance(val, bool):
            if val == (x[3].endswith("eq")):
                for a, b in ((x[2][0], x[2][1]), (x[2][1], x[2][0])):
                    if b[0] == "agg" and b[2] == "NotFound":
                        out |= self.kind(a)
        if x[0] in ("call", "discr") and val == "NotFound":
            out |= self.kind(x if x[0] == "call" else x[1])
        return out

    def kind(self, t):
        if t[0] == "call" and t[1].endswith("Error::kind") and t[2]:
            for x in sym.walk(t[2][0]):
                if x[0] == "call" and "::remove_file" in x[1] and x[2] and self.is_rec(x[2][0]):
                    return {("unrec",)}
        return set()

    def sym_fact(self, f, s, val):
        return frozenset(self.gone(f, s, val))

    def unrec(self, c):
        e = effect(c)
        return bool(e and e[0] == "delete" and self.is_rec(sym.sym_op(c.fn, c.args[e[1]])))

    def gen(self, c, st, eng):
        if self.unrec(c):
            return frozenset(), {((), "Ok"): frozenset([("unrec",)])}
        return frozenset(), {}

    def gen_await(self, c, st, eng):
        if self.unrec(c):
            return frozenset(), {((), "Ok"): frozenset([("unrec",)])}
        if self.places(c):
            return frozenset(), {((), "Ok"): frozenset([("clean",)])}
        return frozenset(), {}

    def kill(self, f, c, st):
        if self.places(c):
            return frozenset(x for x in st.facts if x != ("clean",))
        e = effect(c)
        if e and e[0] in ("write", "open", "rename") and self.is_rec(sym.sym_op(f, c.args[e[1]])):
            return frozenset(x for x in st.facts if x != ("unrec",))
        return st.facts

    def check(self, c, st, ch, eng):
        e = effect(c)
        via = "; via " + " -> ".join(x.sname for x in ch[:10])
        who = self.P.root_of(c.fn).sname.split("::", 2)[-1]
        if e:
            t = sym.sym_op(c.fn, c.args[e[1]])
            if any("tempfile::" in x for x in sym.calls_in(t)) or e[0] == "mkdir" or (e[0] == "delete" and self.is_rec(t)):
                return
            if e[0] in ("write", "open", "rename") and self.is_rec(t):
                self.writes |= {x.file for x in ch} | {c.fn.file}
                each = [x for x in ch if x.kind == "Closure" and not x.cor and x.id in self.ex]
                self.ctx.ob("last", "%s writes the record when all are placed" % who, not each, c.where,
                            "written once per package, while others are being extracted" + via)
                self.ctx.ob("last", "%s writes the record" % who, ("clean",) in st.facts, c.where,
                            "the record is written although an extraction may have failed" + via)
                self.ctx.ob("last", "%s writes the record once" % who, ("unrec",) in st.facts, c.where,
                            "the record may be there already" + via)
                self.content(c, who)
                return
            self.ctx.ob("first", "%s: %s" % (who, e[0]), ("unrec",) in st.facts, c.where,
                        "node_modules may be changed while the record of its former contents is there (or after the new one was written)" + via)
        elif c.res == EXTRACT or c.decl == EXTRACT:
            self.ctx.ob("first", "%s: extract" % who, ("unrec",) in st.facts, c.where,
                        "packages may be put into node_modules while the record of its former contents is there (or after the new one was written)" + via)

    def content(self, c, who):
        t = sym.sym_op(c.fn, c.args[1]) if len(c.args) > 1 else None
        if t is None:
            return
        ok = False
        for t1 in sym.expand(self.P, t, 1, lambda n: "::{" not in n and not n.endswith("to_kdl")):
            ok = ok or any(x.endswith("::Graph::to_kdl") or x.endswith("Lockfile::to_kdl") for x in sym.calls_in(t1))
        self.ctx.ob("content", "%s records the tree" % who, ok, c.where, "what is written is not the installed tree")

    def exit(self, f, st, ch, eng):
        if f.id in self.ex and "Result" in (f.lty(0) or ""):
            x = st.look(0, (), "Ok")
            self.ctx.ob("errors", "extraction in %s" % self.P.root_of(f).sname.split("::", 2)[-1], x is UN or ("clean",) in x, f.where,
                        "ends well although a package may not have been placed; via " + " -> ".join(y.sname for y in ch[:10]))


def check(ctx):
    P = ctx.P
    ctx.rule("first", "nothing in node_modules is changed by prune or extract unless its record was removed before")
    ctx.rule("last", "the record is written only after every extraction succeeded")
    ctx.rule("content", "what is recorded is the tree that was installed")
    ctx.rule("errors", "no function that extracts packages ends well if an extraction failed")
    ctx.rule("read", "what is trusted as installed is the parsed record, or nothing")
    rec = record_names(P)
    ctx.ob("read", "the actual tree is read from a file", len(rec) == 1, "node-maintainer", "found %s" % sorted(rec))
    for f, w, ts in assigned(P):
        for t in ts:
            cs = sym.calls_in(t)
            none = t[0] == "agg" and t[2] == "None"
            ok = none or (any("read" in c.rsplit("::", 1)[-1] for c in cs) and any(c == LF + "::from_kdl" or c.endswith("Lockfile::from_kdl") for y in sym.closure_terms(P, t) for c in sym.calls_in(y)))
            ok = ok and not any(c.rsplit("::", 1)[-1] in OTHER for y in sym.closure_terms(P, t) for c in sym.calls_in(y))
            ctx.ob("read", "actual tree set in %s" % P.root_of(f).sname.split("::", 2)[-1], ok, w, "not the parsed record")
    ex = set()
    for f in P.fns.values():
        if f.crate == "node_maintainer":
            for g in reach(P, [f]):
                if any(c.res == EXTRACT or c.decl == EXTRACT for c in P.fns[g].calls()):
                    ex.add(f.id)
                    break
    r = R(ctx, rec, ex)
    e = Engine(P, r)
    for ph in ("prune", "extract"):
        for f in ctx.need(NM + ph, ph + " phase"):
            for b in [c for c in f.children if c.cor] or [f]:
                e.visit(b, frozenset([("clean",)]), {}, [])
    for m in ("hoisted.rs", "isolated.rs"):
        ctx.ob("last", "%s records what it installed" % m, any(w.endswith(m) for w in r.writes) or not any(f.file.endswith(m) for f in P.fns.values() if f.id in ex), m, "no record is written")
    ctx.floor("first", 4)
    ctx.floor("last", 4)
    ctx.floor("errors", 2)
    ctx.floor("content", 2)
    ctx.floor("read", 2)
