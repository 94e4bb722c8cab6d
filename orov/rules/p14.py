"""The tree of packages: every edge leads to a package that meets the requirement, every requirement of every package gets an
edge, and a package is placed where all who depend on it find it (must-facts over MIR with symbolic terms)."""
from ..must import MustRule, Engine, UN
from ..each import each
from ..cg import reach, callers
from .. import sym

SAT = "nassun::resolver::PackageResolution::satisfies"
DEP = "node_maintainer::resolver::NodeDependency"


def norm(t):
    """clones and fields of what is spelled out, taken away"""
    if isinstance(t, tuple):
        if t and t[0] == "call" and len(t) > 3 and t[3].endswith(("Clone::clone", "ToOwned::to_owned")) and t[2]:
            return norm(t[2][0])
        t = tuple(norm(x) for x in t)
        if len(t) > 3 and t[0] == "fld" and isinstance(t[3], tuple) and t[3]:
            if t[3][0] == "agg" and isinstance(t[3][3], dict) and t[2] in t[3][3]:
                return t[3][3][t[2]]
            if t[3][0] == "tuple" and str(t[2]).isdigit() and int(t[2]) < len(t[3][1]):
                return t[3][1][int(t[2])]
        return t
    if isinstance(t, list):
        return [norm(x) for x in t]
    if isinstance(t, dict):
        return {k: norm(v) for k, v in t.items()}
    return t


def has(t, x):
    return any(y == x for y in sym.walk(t))


def is_call(t, *names):
    return t[0] == "call" and (t[1].endswith(names) or t[3].endswith(names))


def head(P, s):
    """what the workspace function called by the term returns, if that is one term"""
    fs = P.byname.get(s[1], ()) if s[0] == "call" else ()
    if len(fs) != 1 or fs[0].cor:
        return None
    rs = [r for r in sym.returns(P, fs[0]) if not (r[0] == "call" and r[3].endswith("from_residual"))]
    rs = [r[3]["0"] if r[0] == "agg" and r[2] == "Ok" else r for r in rs]
    if len(rs) != 1:
        return None
    return sym.subst(rs[0], {("arg", fs[0].id, i + 1): a for i, a in enumerate(s[2])})


def calls_of(t, *names):
    return [x for x in sym.walk(t) if is_call(x, *names)]


class Sat(MustRule):
    """facts ("sat", package or resolution term, spec term)"""

    def __init__(self, ctx):
        self.ctx, self.P = ctx, ctx.P
        self.at, self.somes = {}, {}
        self.terms = {}

    def enter(self, f):
        return f.crate == "node_maintainer"

    def sym_fact(self, f, s, val):
        while s[0] == "un" and s[1] == "Not" and isinstance(val, bool):
            s, val = s[2], not val
        if val is True and s[0] == "call":
            y = s if s[1] == SAT else head(self.P, s)
            if y is not None and y[0] == "call" and y[1] == SAT:
                a, b = norm(y[2][0]), norm(y[2][1])
                k = ("sat", repr(a), repr(b))
                self.terms[k] = (a, b)
                return frozenset([k])
        return frozenset()

    def check(self, c, st, ch, eng):
        k = (c.fn.id, c.bb)
        self.at[k] = (c, self.at[k][1] & st.facts if k in self.at else st.facts)

    def check_stmt(self, f, b, i, s, st, ch, eng):
        rv = s[1]
        if rv[0] == "agg" and isinstance(rv[1], dict) and rv[1].get("v") == "Some" and "nassun::package::Package" in f.lty(s[0][0]) or rv[0] == "agg" and isinstance(rv[1], dict) and rv[1].get("v") == "Some" and "Package" in str(f.lty(s[0][0])):
            k = (f.id, b, i)
            self.somes[k] = (f, norm(sym.sym_op(f, rv[2][0])), self.somes[k][2] & st.facts if k in self.somes else st.facts)

    def sats(self, facts):
        return [self.terms[x] for x in facts if x[0] == "sat" and x in self.terms]


def fits(r, f, c, pkg, spec, depth=4):
    """why the package meets the requirement when the call is made, or None"""
    P = r.P
    facts = r.at[(c.fn.id, c.bb)][1] if (c.fn.id, c.bb) in r.at else frozenset()
    if any(has(a, pkg) and b == spec for a, b in r.sats(facts)):
        return "was found to meet it"
    # what a function returned after it had found that it meets the requirement
    for x in [pkg] + ([pkg[3]] if pkg[0] == "fld" and pkg[2] == "0" else []):
        while x[0] in ("await",):
            x = x[1]
        if x[0] == "call" and x[1] in P.byname:
            for g in P.byname[x[1]]:
                ss = [v for k, v in r.somes.items() if P.root_of(v[0]).id == g.id]
                ok = bool(ss)
                for h, t, fs in ss:
                    p = t[1][0] if t[0] == "tuple" else t
                    ok = ok and any(has(a, p) and b[0] == "arg" and b[1] == g.id and b[2] - 1 < len(x[2]) and x[2][b[2] - 1] == spec for a, b in r.sats(fs))
                if ok:
                    return "is returned only when it meets it"
    # resolved from the very requirement: (package, requirement) come together, and the dependents are those kept under it
    if pkg[0] == "fld" and pkg[2] == "0" and spec[0] == "fld" and spec[2] == "spec":
        item = pkg[3]
        for x in calls_of(spec[3], "IndexMap::remove", "IndexMap::swap_remove", "IndexMap::shift_remove", "HashMap::remove"):
            k = x[2][1]
            if k[0] == "fld" and k[2] == "1" and k[3] == item:
                return "was resolved from it"
    # one of the function's arguments: ask its callers
    g = P.root_of(f) if f.cor else f
    if depth and (sym.args_in(pkg, g.id) or sym.args_in(spec, g.id)):
        hs = {h.id: h for h, _ in callers(P).get(g.id, ()) if h.id != g.id}
        why = set()
        for h, d in [(h, d) for h in hs.values() for d in h.calls() if d.rid == g.id]:
            m = {("arg", g.id, i + 1): sym.sym_op(h, a) for i, a in enumerate(d.args)}
            y = fits(r, h, d, norm(sym.subst(pkg, m)), norm(sym.subst(spec, m)), depth - 1)
            if y is None:
                return None
            why.add(y)
        return " or ".join(sorted(why)) or None
    return None


def found_fit(r, f, c, to, spec, depth=4):
    facts = r.at[(c.fn.id, c.bb)][1] if (c.fn.id, c.bb) in r.at else frozenset()
    if any(has(a, to) and b == spec for a, b in r.sats(facts)):
        return "was found to meet it"
    P = r.P
    g = P.root_of(f) if f.cor else f
    if depth and sym.args_in(to, g.id) and sym.args_in(spec, g.id):
        ds = [(h, d) for h in {h.id: h for h, _ in callers(P).get(g.id, ()) if h.id != g.id}.values() for d in h.calls() if d.rid == g.id]
        for h, d in ds:
            m = {("arg", g.id, i + 1): sym.sym_op(h, a) for i, a in enumerate(d.args)}
            if not found_fit(r, h, d, norm(sym.subst(to, m)), norm(sym.subst(spec, m)), depth - 1):
                return None
        return "was found to meet it" if ds else None
    return None


def edges(ctx, tops):
    r = Sat(ctx)
    for f in tops:
        Engine(ctx.P, r).visit(f, frozenset(), {}, [])
    for (i, b), (c, facts) in list(r.at.items()):
        if not c.res.endswith("StableGraph::add_edge"):
            continue
        f = c.fn
        frm, to, w = [norm(sym.sym_op(f, a)) for a in c.args[1:4]]
        spec = w[2][0] if w[0] == "call" and w[2] else w[3].get("requested") if w[0] == "agg" else None
        if spec is None:
            ctx.ob("edges", "%s: requirement" % f.sname, False, c.where, "the requirement of an edge is not known here")
            continue
        why = found_fit(r, f, c, to, spec)
        if why is None:
            for n in calls_of(to, "StableGraph::add_node"):
                t = n[2][1]
                pkg = next((a for a in ([t[3].get("package")] if t[0] == "agg" else t[2] if t[0] == "call" else []) if a is not None and package(ctx.P, f, t, a)), None)
                if pkg is not None:
                    why = fits(r, f, c, pkg, spec)
        ctx.ob("edges", "edge of %s to %s" % (f.sname.split("::{")[0].rsplit("::", 1)[1], "a new package" if calls_of(to, "StableGraph::add_node") else "one that's there"), why is not None, c.where,
               "an edge is made for a requirement that the package at its end was not found to meet")
    return r


def package(P, f, t, a):
    """is a what the node is made of? (for a constructor: the argument that becomes the node's package)"""
    if t[0] == "agg":
        return True
    for g in P.byname.get(t[1], ()):
        for y in sym.returns(P, g):
            for x in sym.walk(y):
                if x[0] == "agg" and x[1].endswith("::Node") and "package" in x[3]:
                    p = norm(x[3]["package"])
                    if p[0] == "arg" and p[1] == g.id and t[2][p[2] - 1] == a:
                        return True
    return False


def tops(P):
    """where resolving starts: what adds edges and is not called by the resolver itself"""
    R = {}
    for f in P.fns.values():
        if f.crate == "node_maintainer" and not f.derived and any(c.res.endswith("StableGraph::add_edge") for k in reach(P, [f]) for c in P.fns[k].calls()):
            R[f.id] = f
    low = {k: f for k, f in R.items() if not f.sname.startswith("node_maintainer::maintainer::")} or R
    called = {c.rid for f in low.values() for c in f.calls()} | {k for f in low.values() for k in low if low[k].parent == f.id and not (low[k].cor and P.root_of(low[k]).id == f.id)}
    out = []
    for f in low.values():
        g = P.root_of(f) if f.cor else f
        if g.id not in called and f.id not in called and (f.cor or not any(h.cor and h.parent == f.id for h in low.values())):
            out.append(f)
    return out



# ---------------------------------------------------------------- looking up the tree

class Scan(MustRule):
    """("free",): every element of an iteration over src passed the test (skip)"""

    def __init__(self, P, src, skip, crate="node_maintainer"):
        self.P, self.src, self.skip, self.crate = P, src, skip, crate
        self.bad, self.ends, self.n = [], [], 0

    def enter(self, f):
        return f.crate == self.crate

    def open(self, t, eng, f):
        """an iterator over all elements of the source? (or one that yields only elements that do not pass)"""
        while t[0] == "call" and t[3].endswith(("Iterator::filter_map", "Iterator::filter")) and len(t[2]) > 1 and t[2][1][0] == "clo":
            v = "None" if t[3].endswith("filter_map") else False
            if not self.passes(self.P.fns.get(t[2][1][1]), v, eng):
                return False
            t = t[2][0]
        return self.src(t) and not sym.partial(t) and not any(is_call(x, "Iterator::rev") for x in sym.walk(t))

    def passes(self, g, val, eng):
        if g is None:
            return False
        s = eng.visit(g, frozenset(), {}, None)
        x = s.cond.get(((), val), s.facts)
        if x is UN or ("done",) in x:
            return True
        rs = sym.returns(self.P, g)
        return bool(rs) and all(self.skip(g, r, val) for r in rs)

    def sym_fact(self, f, s, val):
        while s[0] == "un" and s[1] == "Not" and isinstance(val, bool):
            s, val = s[2], not val
        return frozenset([("done",)]) if self.skip(f, s, val) else frozenset()

    def nxt(self, c):
        return c.decl == "core::iter::traits::iterator::Iterator::next" and bool(c.args)

    def gen(self, c, st, eng):
        if c.decl.startswith("core::iter::traits::iterator::Iterator::") and c.args:
            m = c.decl.rsplit("::", 1)[1]
            t = sym.sym_op(c.fn, c.args[0])
            if m == "next" and self.open(t, eng, c.fn):
                return frozenset(), {((), "None"): frozenset([("free",)])}
            if m in ("any", "find", "find_map", "position", "all") and self.open(t, eng, c.fn):
                val = "None" if m == "find_map" else m == "all"
                gs = [self.P.fns.get(x) for a in c.args[1:] for x in eng.closure_of(c.fn, a)]
                self.n += 1
                if gs and all(self.passes(g, val, eng) for g in gs):
                    return frozenset(), {((), True if m == "all" else False if m == "any" else "None"): frozenset([("free",)])}
        return frozenset(), {}

    def kill(self, f, c, st):
        if self.nxt(c) and self.src(sym.sym_op(f, c.args[0])):
            return frozenset(x for x in st.facts if x != ("done",))
        if self.starts(c):
            return st.facts | {("done",)}
        return st.facts

    def starts(self, c):
        """the call that makes the iterator"""
        if c.decl.endswith("Iterator::next"):
            return False
        return self.src(sym.sym_call(c.fn, c)) and not any(self.src(sym.sym_op(c.fn, a)) for a in c.args)

    def check(self, c, st, ch, eng):
        if self.nxt(c) and self.open(sym.sym_op(c.fn, c.args[0]), eng, c.fn):
            self.n += 1
            if ("done",) not in st.facts and not (sym.sym_op(c.fn, c.args[0])[0] == "call" and sym.sym_op(c.fn, c.args[0])[3].endswith(("filter_map", "Iterator::filter"))):
                self.bad.append(c.where)


class Look(Scan):
    def __init__(self, P, top, src, skip, val):
        super().__init__(P, src, skip)
        self.top, self.val = top, val

    def exit(self, f, st, ch, eng):
        if f.id == self.top.id:
            for p in ((), ("@Ok", ".0")):
                if ("Result" in f.lty(0)) == bool(p):
                    x = st.look(0, p, self.val)
                    if x is not UN:
                        self.ends.append(("free",) in x)

    def run(self):
        Engine(self.P, self).visit(self.top, frozenset([("done",)]), {}, [])
        return not self.bad and bool(self.ends) and all(self.ends)


CH = "node_maintainer::graph::Node"


def fld(t, adt, name):
    return t[0] == "fld" and t[1].endswith(adt) and t[2] == name


def upward(P, t):
    """the iterator that starts at a node and goes up: the node's term"""
    if t[0] == "call" and t[1] in P.byname:
        for g in P.byname[t[1]]:
            for r in sym.returns(P, g):
                if r[0] == "agg" and r[1].endswith("NodeParentIterator") and r[3]["current"][0] == "agg" and r[3]["current"][2] == "Some":
                    y = r[3]["current"][3]["0"]
                    if y[0] == "arg":
                        return t[2][y[2] - 1]
    return None


def base_up(P, t, node):
    return any(upward(P, x) == node for x in sym.walk(t) if x[0] == "call") if node is not None else any(upward(P, x) is not None for x in sym.walk(t) if x[0] == "call")


def elem(P, f, t, g):
    """is the node t one that the iteration in g yields?"""
    return is_call(t, "Iterator::next") and base_up(P, t, None) or t[0] == "arg" and P.fns.get(t[1]) is not None and P.fns[t[1]].id != g.id and P.fns[t[1]].id.startswith(g.id)


def lookup_fn(P, g):
    """g(node, name): the nearest child of that name, seen from the node; None only when there's none at all"""
    node = ("arg", g.id, 2)

    def mine(t):
        return base_up(P, t, node)

    def child(s):
        return is_call(s, "IndexMap::get", "HashMap::get", "Index::index", "IndexMap::contains_key", "HashMap::contains_key") and fld(s[2][0], CH, "children") and elem(P, g, s[2][0][3], g) and s[2][1] == ("arg", g.id, 3)

    def skip(f, s, val):
        while is_call(s, "Option::copied", "Option::cloned"):
            s = s[2][0]
        return child(s) and val == ("None" if is_call(s, "::get") else False)
    r = Look(P, g, mine, skip, "None")
    if not r.run():
        return "finds nothing although a package of that name may be there"
    vals = []
    todo = [x[3]["0"] if x[0] == "agg" and x[2] == "Ok" else x for x in sym.returns(P, g)]
    while todo:
        x = norm(todo.pop())
        if x[0] == "agg" and x[2] in ("None", "Err") or x[0] == "call" and x[3].endswith("from_residual"):
            continue
        if x[0] == "agg" and x[2] == "Some":
            vals.append(x[3]["0"])
        elif x[0] == "call" and x[3].endswith("Iterator::find_map") and x[2][1][0] == "clo" and mine(x[2][0]):
            todo += sym.returns(P, P.fns[x[2][1][1]])
        elif x[0] == "call" and x[3].endswith(("Option::copied", "Option::cloned")):
            todo.append(x[2][0])
        elif is_call(x, "Iterator::next") and x[2][0][0] == "call" and x[2][0][3].endswith("filter_map") and mine(x[2][0][2][0]):
            todo += sym.returns(P, P.fns[x[2][0][2][1][1]])
        else:
            vals.append(x)
    if not vals or not all(child(v) or v[0] == "fld" and v[2] == "0" and child(v[3]) for v in vals):
        return "returns something else than the child of that name"
    return None


def lookups(ctx):
    P = ctx.P
    ctx.rule("lookup", "what a package finds under a name is the nearest package of that name up the tree, and nothing only when there's none")
    found = {}
    for f in P.fns.values():
        if f.crate != "node_maintainer" or f.derived or f.cor or f.argc != 3 or "{closure" in f.sname:
            continue
        t = f.lty(0)
        if "Option" in t and "NodeIndex" in t and any(upward(P, sym.sym_call(f, c)) == ("arg", f.id, 2) for c in f.calls()):
            why = lookup_fn(P, f)
            ctx.ob("lookup", f.sname.rsplit("::", 1)[1], why is None, f.where, why or "")
            found[f.sname] = (2, None)
    # the way up: every package's parent, until there's none
    from ..fwd import writes
    n = 0
    for f, b, i, t in writes(P, "node_maintainer::graph::NodeParentIterator", "current"):
        n += 1
        t = norm(t)
        start = t[0] == "agg" and t[2] == "Some" and t[3]["0"][0] == "arg"
        step = fld(t, CH, "parent") and is_call(t[3], "Index::index") and fld(t[3][2][1], "NodeParentIterator", "current")
        ctx.ob("lookup", "the way up (%s)" % f.sname.rsplit("::", 1)[1], start or step, "%s:%s" % (f.file, f.line_of(b, i)), "the way up the tree does not go from a package to its parent")
        if step:
            rs = [norm(x) for x in sym.returns(P, f)]
            ok = all(x[0] == "agg" and (x[2] == "None" or is_call(x[3]["0"], "Index::index") and fld(x[3]["0"][2][1], "NodeParentIterator", "current")) for x in rs) and len(rs) >= 1
            ctx.ob("lookup", "each package on the way up (%s)" % f.sname.rsplit("::", 1)[1], ok, f.where, "the way up the tree does not yield every package it goes through")
    ctx.floor("lookup", 1)
    for f in P.fns.values():
        if f.crate == "node_maintainer" and not f.derived and not f.cor and f.argc == 3 and "{closure" not in f.sname and f.lty(0) == "bool" and any(upward(P, sym.sym_call(f, c)) is not None for c in f.calls()):
            lo = [a for a in (2, 3) if any(upward(P, sym.sym_call(f, c)) == ("arg", f.id, a) for c in f.calls())]
            hi = ("arg", f.id, 5 - lo[0])

            def skip(g, s, val, f=f, hi=hi):
                eq = is_call(s, "PartialEq::eq") and val is False or is_call(s, "PartialEq::ne") and val is True
                if not eq:
                    return False
                a, b = s[2]
                return any(y == hi and fld(x, CH, "idx") and elem(P, g, x[3], f) for x, y in ((a, b), (b, a)))
            r = Look(P, f, lambda t, n=("arg", f.id, lo[0]): base_up(P, t, n), skip, False)
            ctx.ob("lookup", f.sname.rsplit("::", 1)[1], r.run(), f.where, "says that one package is not above the other although it may be")
            found[f.sname] = (hi[2], lo[0])
    return found


# ---------------------------------------------------------------- placing a package

class Place(Scan):
    """("free",): nobody at or below the node relies on what it would take the place of; ("own",): what the node itself asks for is met"""

    def __init__(self, P, lookups, at):
        self.P, self.lk, self.crate = P, lookups, "node_maintainer"
        self.bad, self.ends, self.n = [], [], 0
        self.at = at        # {(fn id, bb, i): ...} stores to the target
        self.got = {}
        self.nodes = []
        self.src = lambda t: any(is_call(x, "edges_directed", "StableGraph::edges", "neighbors_directed") and any(y[0] == "agg" and y[2] == "Incoming" for y in x[2] if isinstance(y, tuple)) and self.found(x[2][1]) for x in sym.walk(t))

    def found(self, t):
        t = t[3] if t[0] == "fld" and t[2] == "0" else t
        return t[0] == "call" and t[1] in self.lk

    def req(self, s):
        return is_call(s, "IndexMap::get", "HashMap::get", "contains_key") and fld(s[2][0], CH, "dependency_reqs")

    def skip(self, f, s, val):
        if s[0] == "call" and s[1] in self.lk and val is False:
            return self.lk[s[1]][1] is not None and any(is_call(x, "edge_endpoints", "EdgeReference::source", "EdgeRef::source", "::source", "Iterator::next") for x in sym.walk(s[2][self.lk[s[1]][1] - 1]))
        if val is True and s[0] == "call" and s[1] == SAT:
            a, b = norm(s[2][0]), norm(s[2][1])
            return not any(self.req(x) for x in sym.walk(b))
        return False

    def sym_fact(self, f, s, val):
        out = super().sym_fact(f, s, val)
        if s[0] == "call" and s[1] in self.lk and val == "None":
            out |= {("free",)}
        if self.req(s) and val in ("None", False):
            out |= {("own",)}
        if s[0] == "call" and s[1] == SAT and val is True:
            b = norm(s[2][1])
            if any(self.req(x) for x in sym.walk(b)):
                out |= {("own",)}
        return out

    def gen_stmt(self, f, b, i, s, st, eng):
        if (f.id, b, i) in self.at:
            return frozenset(), (lambda x: x in (("free",), ("own",)))
        return frozenset(), None

    def check_stmt(self, f, b, i, s, st, ch, eng):
        k = (f.id, b, i)
        if k in self.at:
            self.got[k] = self.got[k] & st.facts if k in self.got else st.facts

    def check(self, c, st, ch, eng):
        super().check(c, st, ch, eng)
        t = sym.sym_call(c.fn, c)
        if t[0] == "call" and t[1] in self.lk:
            self.nodes.append((c, norm(t[2][self.lk[t[1]][0] - 1])))
        elif self.req(t) and is_call(t[2][0][3], "Index::index", "IndexMut::index_mut"):
            self.nodes.append((c, norm(t[2][0][3][2][1])))


def replace(t, x, a):
    if t == x:
        return a
    if isinstance(t, tuple):
        return tuple(replace(y, x, a) for y in t)
    if isinstance(t, list):
        return [replace(y, x, a) for y in t]
    if isinstance(t, dict):
        return {k: replace(y, x, a) for k, y in t.items()}
    return t


def places(ctx, found):
    P = ctx.P
    ctx.rule("place", "a new package goes no higher than where nobody below relies on another package of that name, and every package on the way takes it too")
    sites = []
    for f in P.fns.values():
        if f.crate == "node_maintainer" and not f.derived:
            for c in f.calls():
                if c.res.endswith(("IndexMap::insert", "HashMap::insert", "IndexMap::insert_full")) and len(c.args) > 2:
                    m = norm(sym.sym_op(f, c.args[0]))
                    if fld(m, CH, "children") and any(is_call(x, "StableGraph::add_node") for x in sym.walk(norm(sym.sym_op(f, c.args[2])))):
                        sites.append((f, c, m))
    for f, c, m in sites:
        who = f.sname.rsplit("::", 1)[1]
        ix = m[3]
        t = ix[2][1] if is_call(ix, "Index::index", "IndexMut::index_mut") else None
        if t is None:
            ctx.ob("place", who, False, c.where, "where the package is put is not known here")
            continue
        # the same place is recorded as the package's parent
        from ..fwd import writes
        ps = [norm(x) for g, b, i, x in writes(P, CH, "parent") if g.id == f.id]
        ctx.ob("place", "%s: the parent" % who, any(x[0] == "agg" and x[2] == "Some" and x[3]["0"] == t for x in ps), c.where, "the parent recorded for the package is not where it's put")
        k = norm(sym.sym_op(f, c.args[1]))
        nodes = calls_of(norm(sym.sym_op(f, c.args[2])), "StableGraph::add_node")
        ctx.ob("place", "%s: the name" % who, any(name_of(P, x[2][1]) == k for x in nodes), c.where, "the package is put under another name than its own")
        # who asked for it
        frm = [norm(sym.sym_op(f, d.args[1])) for d in f.calls() if d.res.endswith("StableGraph::add_edge")]
        h = f
        while t[0] == "call" and t[1] in P.byname and len(P.byname[t[1]]) == 1:
            h = P.byname[t[1]][0]
            m2 = {("arg", h.id, i + 1): a for i, a in enumerate(t[2])}
            rs = [r[3]["0"] if r[0] == "agg" and r[2] == "Ok" else r for r in sym.returns(P, h) if not (r[0] == "call" and r[3].endswith("from_residual"))]
            if len(rs) != 1:
                break
            for a, x in m2.items():
                frm = frm + [replace(y, x, a) for y in frm if has(y, x)]
            t = norm(rs[0])
        if t in frm:
            continue        # right below who asked for it
        if t[0] != "multi":
            ctx.ob("place", who, False, c.where, "where the package is put is not known here")
            continue
        defs = [d for d in P.fns[t[1]].defs().get(t[2], []) if len(d[2]) == 1]
        at, moves = set(), []
        g = P.fns[t[1]]
        for d in defs:
            x = norm(sym.sym_call(g, d[3]) if not isinstance(d[3], (list, tuple)) else sym.sym_rv(g, d[3]))
            if x not in frm:
                at.add((g.id, d[0], d[1]))
                moves.append((d, x))
        r = Place(P, found, at)
        Engine(P, r).visit(g, frozenset([("done",)]), {}, [])
        for d, x in moves:
            fs = r.got.get((g.id, d[0], d[1]), frozenset())
            w = "%s:%s" % (g.file, g.line_of(d[0], d[1]))
            ctx.ob("place", "%s: room for it" % who, ("free",) in fs and not r.bad, (r.bad or [w])[0], "the package is put where somebody below may rely on another package of that name")
            ctx.ob("place", "%s: the packages on the way take it" % who, ("own",) in fs, w, "the package is put into or above one that asks for another version of it, without checking")
            # one step at a time, from who asked for it, and the tests are made for the very node
            top = x[3] if x[0] == "fld" and x[2] == "0" else x
            for e, y in r.nodes:
                ys = {repr(norm(z[0])) for z in sym.instances(P, e.fn, [y])} if e.fn.id != g.id else {repr(y)}
                ctx.ob("place", "%s: %s looks at the new place" % (who, e.res.rsplit("::", 1)[1]), ys <= {repr(x), repr(top)}, e.where, "what's tested is not the place the package is put into")
            ss = P.fns[top[1]].defs().get(top[2], []) if top[0] == "multi" else []
            ok = bool(ss) or base_up(P, top, None) and any(upward(P, z) in frm for z in sym.walk(top) if z[0] == "call") and not sym.partial(top)
            for s in ss:
                v = norm(sym.sym_call(g, s[3]) if not isinstance(s[3], (list, tuple)) else sym.sym_rv(g, s[3]))
                v1 = v[3]["0"] if v[0] == "agg" and v[2] == "Some" else v
                up = fld(v, CH, "parent") and is_call(v[3], "Index::index", "IndexMut::index_mut") and v[3][2][1] in (x, top, t)
                ok = ok and (v1 in frm or up)
            ctx.ob("place", "%s: one step at a time" % who, ok, w, "the way to the new place leaves packages out")
    ctx.floor("place", 1)


def name_of(P, t):
    """the name a node is made with"""
    if t[0] == "agg":
        return norm(t[3].get("name", ("?",)))
    for g in P.byname.get(t[1], ()) if t[0] == "call" else ():
        for y in sym.returns(P, g):
            for x in sym.walk(y):
                if x[0] == "agg" and x[1].endswith("::Node") and "name" in x[3] and x[3]["name"][0] == "arg":
                    return norm(t[2][x[3]["name"][2] - 1])
    return None



# ---------------------------------------------------------------- what a package requires

DEPS = {"dependencies": None, "optional_dependencies": "Opt", "dev_dependencies": None}
MAN = "CorgiManifest"


class Req(MustRule):
    """("ins",): this requirement was recorded; ("all", kind): every requirement of the kind was; ("root", b)"""

    def __init__(self, P, f):
        self.P, self.f = P, f
        self.defs = {}
        self.nexts, self.ends = [], []

    def enter(self, f):
        return f.crate == self.f.crate

    def kinds(self, t):
        return {x[2] for x in sym.walk(t) if x[0] == "fld" and x[1].endswith(MAN) and x[2] in DEPS}

    def sym_fact(self, f, s, val):
        if s[0] == "un" and s[1] == "Not" and isinstance(val, bool):
            s, val = s[2], not val
        if s != ("arg", self.f.id, 4) or not isinstance(val, bool):
            return frozenset()
        return frozenset([("root", val)] + ([] if val else [("all", "dev_dependencies")]))

    def nxt(self, c):
        """(kinds the iterator surely yields, kinds it may yield)"""
        if c.decl != "core::iter::traits::iterator::Iterator::next" or not c.args:
            return None
        t = sym.sym_op(c.fn, c.args[0])
        alts = [y for y in sym.multi(self.P, t)]
        if not any(self.kinds(y) for y in alts):
            return None
        if any(sym.partial(y) for y in alts):
            return frozenset(), frozenset().union(*[self.kinds(y) for y in alts])
        return frozenset.intersection(*[frozenset(self.kinds(y)) for y in alts]), frozenset().union(*[self.kinds(y) for y in alts])

    def insert(self, c):
        if not c.res.endswith(("IndexMap::insert", "IndexMap::insert_full")) or len(c.args) < 3:
            return None
        v = norm(sym.sym_op(c.fn, c.args[2]))
        if v[0] == "tuple" and len(v[1]) == 2 and "DepType" in str(c.args[2]) + self.ty(c.fn, c.args[2]):
            return norm(sym.sym_op(c.fn, c.args[1])), v
        return None

    def ty(self, f, o):
        return f.lty(o[1][0]) if o[0] in "cm" else ""

    def gen(self, c, st, eng):
        if self.insert(c):
            return frozenset([("ins",)]), {}
        n = self.nxt(c)
        if n is not None:
            sure, may = n
            out = {("all", k) for k in sure}
            # chosen before: with or without those for the root only
            for k in may - sure:
                t = sym.sym_op(c.fn, c.args[0])
                if self.chosen(c.fn, t, k):
                    out.add(("all", k))
            return frozenset(), {((), "None"): frozenset(out)}
        return frozenset(), {}

    def chosen(self, f, t, k):
        m = [x for x in sym.walk(t) if x[0] == "multi"]
        if len(m) != 1:
            return False
        g = self.P.fns[m[0][1]]
        for d in g.defs().get(m[0][2], []):
            if len(d[2]) != 1:
                continue
            x = sym.sym_call(g, d[3]) if not isinstance(d[3], (list, tuple)) else sym.sym_rv(g, d[3])
            fs = self.defs.get((g.id, d[0]), frozenset())
            if (k in self.kinds(x)) != (("root", True) in fs) or (k not in self.kinds(x)) and ("root", False) not in fs:
                return False
        return True

    def kill(self, f, c, st):
        if self.nxt(c) is not None:
            return frozenset(x for x in st.facts if x != ("ins",))
        return st.facts

    def gen_stmt(self, f, b, i, s, st, eng):
        k = (f.id, b)
        self.defs[k] = self.defs[k] & st.facts if k in self.defs else st.facts
        return frozenset(), None

    def check(self, c, st, ch, eng):
        k = (c.fn.id, c.bb)
        self.defs[k] = self.defs[k] & st.facts if k in self.defs else st.facts
        n = self.nxt(c)
        if n is not None:
            self.nexts.append((c, ("ins",) in st.facts or not any(x[0] == "going" for x in st.facts), ("root", True) in st.facts, n))

    def exit(self, f, st, ch, eng):
        if f.id == self.f.id:
            x = st.look(0, (), "Ok")
            if x is not UN:
                self.ends.append(x)


def required(ctx):
    P = ctx.P
    ctx.rule("required", "a package requires all of its dependencies and optional dependencies, and the root its development dependencies too")
    n = 0
    for f in P.fns.values():
        if f.crate != "node_maintainer" or f.derived or "{closure" in f.sname:
            continue
        if not any(r[0] == "agg" and r[2] == "Ok" and r[3]["0"][0] == "agg" and r[3]["0"][1] == CH for r in sym.returns(P, f)):
            continue
        n += 1
        for k in DEPS:
            def src(t, k=k):
                return any(x[0] == "fld" and x[1].endswith(MAN) and x[2] == k for y in sym.multi(P, t) for x in sym.walk(y))
            r = Req(P, f)
            Engine(P, r).visit(f, frozenset(), {}, [])
            r.nexts, r.ends = [], []
            Engine(P, r).visit(f, frozenset(), {}, [])
            its = [(c, root, nn) for c, ok, root, nn in r.nexts if k in nn[1]]
            done = bool(r.ends) and all(("all", k) in x or k == "dev_dependencies" and ("root", False) in x for x in r.ends)
            ctx.ob("required", "%s of %s" % (k, f.sname.rsplit("::", 2)[-2]), done, f.where, "a package can be made without having gone through its %s" % k.replace("_", " "))
            if k == "dev_dependencies":
                for c, root, nn in its:
                    t = sym.sym_op(c.fn, c.args[0])
                    ctx.ob("required", "development dependencies are the root's only", root or r.chosen(c.fn, t, k), c.where, "the development dependencies of a package that isn't the root are required too")
            bad = each(P, f, src, lambda c, r=r: r.insert(c) is not None)[1]
            bad = [w for w in bad if w != f.where]
            ctx.ob("required", "each of the %s" % k, not bad, bad[0] if bad else f.where, "one of the %s can be left out" % k.replace("_", " "))
        for g in [P.fns[x] for x in reach(P, [f]) if P.fns[x].crate == f.crate]:
            for c in g.calls():
                r = Req(P, f)
                kv = r.insert(c) if g.crate == f.crate else None
                if kv and any(r.kinds(y) for y in sym.multi(P, kv[0])):
                    key, (_, (spec, typ)) = kv
                    ds = [x for x in sym.walk(spec) if x[0] == "call" and x[1].endswith("Argument::new_display")]
                    key = key[2][0] if is_call(key, "UniCase::new") or key[0] == "call" and key[1].endswith("UniCase::new") else key
                    ok = len(ds) == 2 and ds[0][2][0] == key and ds[1][2][0] != key and set(map(repr, r_elems(ds[0][2][0]))) == set(map(repr, r_elems(ds[1][2][0]))) and any("@" in str(x) for x in sym.consts_in(spec))
                    ctx.ob("required", "the requirement of %s" % g.sname.rsplit("::", 2)[-2], ok, c.where, "what's required is not the name with the version range the package gives for it")
    ctx.floor("required", 4)


def r_elems(t):
    return [x for x in sym.walk(t) if is_call(x, "Iterator::next")]


# ---------------------------------------------------------------- nothing left out

class All(MustRule):
    """("req",): this requirement has its edge or was sent off; ("node",): all requirements of the package were;
    ("new",): a new package is queued; ("count",): counted before sent; ("sets",): a set made for this package"""
    START = frozenset([("req",), ("node",), ("new",), ("res",), ("rec",)])
    volatile = {"req", "node", "new", "res", "rec", "empty", "idle", "sets"}

    def __init__(self, P, ctx):
        self.P, self.ctx = P, ctx
        self.obs = {}
        self.cnt = None

    def enter(self, f):
        return f.crate == "node_maintainer"

    def ob(self, inst, ok, where, why):
        k = (inst, where)
        self.obs[k] = (ok and self.obs.get(k, (True,))[0], why)

    def kind(self, c):
        if c.decl == "core::iter::traits::iterator::Iterator::next" and c.args:
            t = norm(sym.sym_op(c.fn, c.args[0]))
            if any(is_call(x, "IndexMap::remove", "IndexMap::swap_remove", "IndexMap::shift_remove", "HashMap::remove") for x in sym.walk(t)) and not fetched(t):
                return "deps" if not iter_partial(t) else "part"
            if any(fld(x, CH, "dependency_reqs") for x in sym.walk(t)):
                return "reqs" if not sym.partial(t) else "part"
            if fetched(t):
                return "items" if not iter_partial(t) else "part"
        if c.res.endswith(("VecDeque::pop_front", "VecDeque::pop_back", "Vec::pop")) and queue(c):
            return "pop"
        return None

    def sym_fact(self, f, s, val):
        if s[0] == "un" and s[1] == "Not" and isinstance(val, bool):
            s, val = s[2], not val
        out = set()
        if is_call(s, "VecDeque::is_empty", "Vec::is_empty") and val is True:
            out.add(("empty",))
        z = sym.int_test(s, val)
        if z and z[1] == "zero" and z[0][0] == "multi" and self.cnt is not None and z[0] == self.cnt:
            out.add(("idle",))
        if is_call(s, "IndexMap::remove", "IndexMap::swap_remove", "IndexMap::shift_remove", "HashMap::remove") and val == "None":
            out.add(("res",))
        return frozenset(out)

    def gen(self, c, st, eng):
        k = self.kind(c)
        if k == "reqs":
            return frozenset(), {((), "None"): frozenset([("node",), ("req",)])}
        if k == "deps":
            return frozenset(), {((), "None"): frozenset([("res",), ("req",)])}
        if k == "items":
            return frozenset(), {((), "None"): frozenset([("res",)])}
        if k == "pop":
            return frozenset(), {((), "None"): frozenset([("node",), ("empty",)])}
        if c.res.endswith("StableGraph::add_edge"):
            return frozenset([("req",)]), {}
        if c.res.endswith(("IndexMap::insert", "HashMap::insert")) and len(c.args) > 2 and recorded(self.P, c):
            return frozenset([("rec",)]), {}
        if c.res.endswith("UnboundedSender::unbounded_send"):
            return frozenset([("req",)]), {}
        if c.res.endswith(("HashSet::new", "BTreeSet::new", "HashSet::with_capacity")):
            return frozenset([("sets",)]), {}
        if c.res.endswith(("HashSet::contains", "BTreeSet::contains")) and ("sets",) in st.facts:
            return frozenset(), {((), True): frozenset([("req",)])}
        if c.res.endswith(("HashSet::insert", "BTreeSet::insert")) and ("sets",) in st.facts:
            return frozenset(), {((), False): frozenset([("req",)])}
        if c.res.endswith(("VecDeque::push_back", "VecDeque::push_front", "Vec::push")) and queue(c):
            if self.added(c.fn, c.args[1]):
                return frozenset([("new",)]), {}
        return frozenset(), {}

    def added(self, f, a, seen=()):
        """what is put in the queue is a node just added to the tree (a helper's argument: at a caller)"""
        t = norm(sym.sym_op(f, a))
        h = head(self.P, t)
        if any(is_call(x, "StableGraph::add_node") for y in (t, norm(h) if h is not None else t) for x in sym.walk(y)):
            return True
        if t[0] == "arg" and t[1] == f.id and f.id not in seen:
            hs = {g.id: g for g, _ in callers(self.P).get(f.id, ())}.values()
            return any(self.added(g, d.args[t[2] - 1], seen + (f.id,)) for g in hs for d in g.calls() if d.rid == f.id and len(d.args) >= t[2])
        return False

    def kill(self, f, c, st):
        k = self.kind(c)
        out = set()
        if k in ("reqs", "deps"):
            out = {("req",)}
        elif k == "items":
            out = {("res",)}
        elif k == "pop":
            out = {("node",), ("sets",)}
        elif c.res.endswith("StableGraph::add_node"):
            out = {("new",)}
        elif c.res.endswith("StableGraph::add_edge"):
            out = {("rec",)}
        elif c.res.endswith("UnboundedSender::unbounded_send"):
            out = {("count",), ("idle",)}
        elif c.res.endswith(("VecDeque::push_back", "VecDeque::push_front", "Vec::push")) and queue(c):
            out = {("empty",)}
        return frozenset(x for x in st.facts if x not in out)

    def gen_stmt(self, f, b, i, s, st, eng):
        if self.cnt is not None and f.id == self.cnt[1] and self.is_cnt(f, s[0]):
            t = sym.sym_rv(f, s[1])
            up = any(x[0] == "bin" and x[1].startswith("Add") and ("const", 1) in x[2:] for x in sym.walk(t))
            return (frozenset([("count",)]) if up else frozenset()), (lambda x: x == ("idle",))
        return frozenset(), None

    def is_cnt(self, f, place):
        return place[0] == self.cnt[2] and len(place) == 1 or self.cnt[2] == tuple(place[:2])

    def check(self, c, st, ch, eng):
        k = self.kind(c)
        fs = st.facts
        if k == "part":
            self.ob("everything is gone through", False, c.where, "some of the requirements or packages are left out")
        if k in ("reqs", "deps"):
            self.ob("each requirement %s" % ("of a package" if k == "reqs" else "that waited for one"), ("req",) in fs, c.where, "a requirement can be left without a package")
            self.ob("each new package", ("new",) in fs, c.where, "a new package can be left out of the queue: its own requirements would never be met")
            self.ob("each new edge", ("rec",) in fs, c.where, "an edge may not be among the dependencies of the package that required it, under the name it was required by")
        if k == "pop":
            self.ob("each queued package", ("node",) in fs, c.where, "a package's requirements are not gone through")
            self.ob("each new package", ("new",) in fs, c.where, "a new package can be left out of the queue: its own requirements would never be met")
        if k == "items":
            self.ob("each resolved package", ("res",) in fs, c.where, "what was resolved is not handed to those who wait for it")
        if c.res.endswith("UnboundedSender::unbounded_send"):
            self.ob("each one sent off is counted", ("count",) in fs or self.cnt is None, c.where, "a requirement is sent off without being counted: the end could come too early")


def recorded(P, c):
    """is an edge put into a package's dependencies, under the name of what it was made for?"""
    f = c.fn
    if not fld(norm(sym.sym_op(f, c.args[0])), CH, "dependencies"):
        return False
    ts = [[sym.sym_op(f, c.args[1]), sym.sym_op(f, c.args[2])]]
    if not calls_of(ts[0][1], "StableGraph::add_edge"):
        ts = sym.instances(P, f, ts[0], 1)
    for k, e in ts:
        k, e = norm(k), norm(e)
        ok = False
        for x in calls_of(e, "StableGraph::add_edge"):
            w = x[2][3]
            spec = norm(w[2][0] if w[0] == "call" and w[2] else w[3].get("requested") if w[0] == "agg" else ("?",))
            ok = ok or spec[0] == "fld" and k[0] == "fld" and spec[1] == k[1] == DEP and spec[2] == "spec" and k[2] == "name" and spec[3] == k[3]
        if not ok:
            return False
    return bool(ts)


def queue(c):
    return "NodeIndex" in op_ty(c.fn, c.args[0])


def fetched(t):
    return any(is_call(x, "StreamExt::next", "StreamExt::try_next", "TryStreamExt::try_next") for x in sym.walk(t)) and not any(is_call(x, "IndexMap::remove", "IndexMap::swap_remove", "HashMap::remove") for x in sym.walk(t))


def iter_partial(t):
    return any(x[0] == "call" and "Iterator::" in x[3] and x[3].rsplit("::", 1)[1] in sym.DROPS for x in sym.walk(t))


class AllTop(All):
    def __init__(self, P, ctx, tops_):
        super().__init__(P, ctx)
        self.tops = {f.id for f in tops_}
        self.ends = []

    def exit(self, f, st, ch, eng):
        if f.id in self.tops:
            x = st.look(0, (), "Ok")
            if x is not UN:
                self.ends.append((f, x))


def complete(ctx, ts):
    P = ctx.P
    ctx.rule("complete", "every requirement of every package gets an edge before the tree counts as resolved")
    r = AllTop(P, ctx, ts)
    # the number of requirements under way: what goes up by one before each is sent off
    for f in P.fns.values():
        if f.crate == "node_maintainer" and any(c.res.endswith("UnboundedSender::unbounded_send") for c in f.calls()):
            for l, ds in f.defs().items():
                if f.lty(l) in ("usize", "i32", "u32", "u64", "i64", "isize") and any(not isinstance(d[3], (list, tuple)) is False and len(d[2]) == 1 and counts(sym.sym_rv(f, d[3]), l, f) for d in ds):
                    r.cnt = ("multi", f.id, l)
    for t in ts:
        Engine(P, r).visit(t, All.START, {}, [])
    for (inst, w), (ok, why) in sorted(r.obs.items()):
        ctx.ob("complete", inst, ok, w, why)
    for f, x in r.ends:
        ctx.ob("complete", "the end: no package is left", ("empty",) in x and ("new",) in x and ("node",) in x, f.where, "resolving can end while there are packages whose requirements were not gone through")
        ctx.ob("complete", "the end: nothing is under way", r.cnt is None or ("idle",) in x, f.where, "resolving can end while requirements are still being looked up")
    if r.cnt is not None:
        f = P.fns[r.cnt[1]]
        for d in f.defs().get(r.cnt[2], []):
            if len(d[2]) == 1:
                t = norm(sym.sym_rv(f, d[3])) if isinstance(d[3], (list, tuple)) else sym.sym_call(f, d[3])
                ok = t == ("const", 0) or counts(t, r.cnt[2], f) or any(x[0] == "bin" and x[1].startswith("Sub") and (x[3][0] == "call" and x[3][1].endswith("::len") and any(is_call(y, "IndexMap::remove", "IndexMap::swap_remove", "HashMap::remove") for y in sym.walk(x[3])) or x[3] == ("const", 1)) for x in sym.walk(t))
                ctx.ob("complete", "how many are under way", ok, "%s:%s" % (f.file, f.line_of(d[0], d[1])), "the number of requirements under way is not what it says")
    ctx.floor("complete", 6)


def counts(t, l, f):
    return any(x[0] == "bin" and x[1].startswith("Add") and ("const", 1) in x[2:] and ("multi", f.id, l) in x[2:] for x in sym.walk(t))


# ---------------------------------------------------------------- looked up together

def together(ctx):
    P = ctx.P
    ctx.rule("together", "requirements wait for a package under the very requirement that is looked up")
    for f in P.fns.values():
        if f.crate != "node_maintainer" or f.derived:
            continue
        for c in f.calls():
            if c.res.endswith(("IndexMap::insert", "HashMap::insert")) and len(c.args) > 2 and DEP in op_ty(f, c.args[2]):
                k, v = norm(sym.sym_op(f, c.args[1])), norm(sym.sym_op(f, c.args[2]))
                vs = deep(P, f, v)
                ok = k[0] == "fld" and k[1] == DEP and k[2] == "spec" and all(k[3] == x for x in vs)
                ctx.ob("together", "the first to ask", ok, c.where, "a requirement waits under another one's name")
            if c.res.endswith("Vec::push") and DEP in op_ty(f, c.args[1]):
                v = norm(sym.sym_op(f, c.args[0]))
                d = norm(sym.sym_op(f, c.args[1]))
                ks = [x[2][1] for x in sym.walk(v) if x[0] == "call" and x[3].rsplit("::", 1)[-1] in ("get_mut", "entry", "get_full_mut") and len(x[2]) > 1]
                if ks:
                    ctx.ob("together", "those who ask too", all(k == ("fld", DEP, "spec", d, None) or k[0] == "fld" and k[2] == "spec" and k[3] == d for k in map(norm, ks)), c.where, "a requirement waits under another one's name")
            if c.res == "nassun::client::Nassun::resolve_spec" and reach_edge(P, f):
                t = norm(sym.sym_op(f, c.args[1]))
                up = f
                while up.parent and up.parent in P.fns and "{closure" in up.sname:
                    up = P.fns[up.parent]
                pairs = [norm(x) for g in P.fns.values() if g.id.startswith(up.id) for r in sym.returns(P, g) for x in sym.walk(r) if x[0] == "tuple" and len(x[1]) == 2]
                pairs = [x for x in pairs if x[1][1] == t]
                ctx.ob("together", "what comes back", bool(pairs), c.where, "a package that was looked up does not come back with the requirement it was looked up for")
    ctx.floor("together", 2)


def op_ty(f, o):
    return f.lty(o[1][0]) if o[0] in "cm" else ""


def reach_edge(P, f):
    g = f
    while g.parent and g.parent in P.fns:
        g = P.fns[g.parent]
        if any(c.res.endswith("UnboundedSender::unbounded_send") for c in g.calls()):
            return True
    return False


def deep(P, f, v):
    """the requirements a vec! is made of"""
    out = [x for x in sym.walk(v) if x[0] == "arg" and DEP in P.fns[x[1]].lty(x[2])] if v[0] != "multi" else []
    if not out:
        for b in f.rpo():
            for s in f.bbs[b]["s"]:
                if s[1][0] == "agg" and s[1][1] == "array" or s[1][0] == "agg" and "array" in str(s[1][1]):
                    for o in s[1][2]:
                        if DEP in op_ty(f, o):
                            out.append(norm(sym.sym_op(f, o)))
    return out or [None]


# ---------------------------------------------------------------- what meets a requirement

class Meets(MustRule):
    def __init__(self, P, top):
        self.P, self.top = P, top
        self.ends = []

    def enter(self, f):
        return f.crate == "nassun"

    def sym_fact(self, f, s, val):
        while s[0] == "un" and s[1] == "Not" and isinstance(val, bool):
            s, val = s[2], not val
        if s[0] != "call" or len(s[2]) < 2:
            return frozenset()
        a, b = norm(s[2][0]), norm(s[2][1])
        own = lambda t, n: t[0] == "fld" and t[1].endswith("PackageResolution") and t[2] == n and t[3] == ("arg", self.top.id, 1)
        req = lambda t, v: t[0] == "fld" and t[2] == "0" and t[4] == v and fld(t[3], "PackageSpec", "requested") and has(t, ("arg", self.top.id, 2)) or t[0] == "fld" and t[2] == "0" and t[4] == v and has(t, ("arg", self.top.id, 2))
        ok = is_call(s, "Range::satisfies") and val is True and req(a, "Range") and own(b, "version")
        eq = is_call(s, "PartialEq::eq") and val is True or is_call(s, "PartialEq::ne") and val is False
        npm = ok
        if eq:
            same = lambda x, y: own(x, "name") and any(fld(z, "PackageSpec", "name") or is_call(z, "PackageSpec::name") for z in sym.walk(y)) and has(y, ("arg", self.top.id, 2))
            if same(a, b) or same(b, a):
                return frozenset([("same",)])
            ok = any(own(x, "version") and req(y, "Version") for x, y in ((a, b), (b, a)))
            npm = ok
            ok = ok or any(own(x, "path") and any(fld(z, "PackageSpec", "path") and has(z, ("arg", self.top.id, 2)) for z in sym.walk(y)) and any(is_call(z, "canonicalize") for z in sym.walk(y)) for x, y in ((a, b), (b, a)))
            ok = ok or any(own(x, "info") and any(z[0] == "fld" and z[4] == "Git" for z in sym.walk(y)) for x, y in ((a, b), (b, a)))
        return frozenset([("meets",)] + ([] if npm else [("same",)])) if ok else frozenset()

    def exit(self, f, st, ch, eng):
        if f.id == self.top.id:
            x = st.look(0, ("@Ok", ".0"), True)
            if x is not UN:
                self.ends.append((("meets",) in x, ("same",) in x))


def meets(ctx):
    P = ctx.P
    ctx.rule("meets", "a package meets a requirement only if its version is in the range or is the version asked for, or it is the directory asked for")
    for f in P.fns.values():
        if f.sname == SAT and not f.derived:
            r = Meets(P, f)
            Engine(P, r).visit(f, frozenset(), {}, [])
            ctx.ob("meets", f.sname.rsplit("::", 2)[-2], bool(r.ends) and all(a for a, _ in r.ends), f.where, "a package that does not meet a requirement can count as meeting it")
            ctx.ob("meets", "%s: the very package" % f.sname.rsplit("::", 2)[-2], bool(r.ends) and all(b for _, b in r.ends), f.where, "a package of another name counts as meeting a requirement")
    ctx.floor("meets", 1)


def check(ctx):
    P = ctx.P
    ctx.rule("edges", "an edge is made only to a package that meets the requirement the edge is made for")
    ts = tops(P)
    edges(ctx, ts)
    found = lookups(ctx)
    places(ctx, found)
    required(ctx)
    complete(ctx, ts)
    together(ctx)
    meets(ctx)
