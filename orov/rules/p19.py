"""The version a requirement is resolved to: where it can come from, and what was found out before it's taken (must-facts over MIR
with symbolic terms)."""
from ..must import MustRule, Engine, State, UN
from ..model import Call
from .p14 import norm, is_call, fld
from .. import sym

PR = "nassun::resolver::PackageResolution"
SAME = ("Option::cloned", "Option::copied", "Option::as_ref", "Option::ok_or", "Option::ok_or_else", "Option::transpose", "Result::ok",
        "Result::map_err", "Try::branch", "Option::as_deref", "Result::as_ref")


def payload(t, v):
    """what was asked for with this kind of version requirement"""
    return t[0] == "fld" and t[2] == "0" and t[4] == v and t[1].endswith("VersionSpec") and requested(t[3])


def requested(t):
    while t[0] == "fld" and t[2] == "0" and t[4] == "Some" or is_call(t, "Option::as_ref"):
        t = t[3] if t[0] == "fld" else t[2][0]
    return fld(t, "PackageSpec", "requested")


def closure_arg(P, g):
    """what a closure is given: the receiver of the call it's passed to"""
    h = P.fns.get(g.parent)
    if h is None:
        return None
    for c in h.calls():
        if len(c.args) > 1:
            ts = [sym.sym_op(h, a) for a in c.args]
            if any(x == ("clo", g.id) for x in ts[1:]) and c.decl.rsplit("::", 2)[-2] in ("Option", "Result"):
                return norm(ts[0])
    return None


class Pick(MustRule):
    """("tagok",): the default tag's version meets what was asked for; ("notag",): it does not, or there is none;
    ("tried",): there is no version that does"""

    def __init__(self, P):
        self.P = P
        self.at, self.exits, self.none, self.loops = {}, {}, {}, {}

    def enter(self, f):
        return f.crate == "nassun"

    def derive(self, fs):
        return fs | {("tried",)} if ("isnone",) in fs and ("notag",) in fs else fs

    def is_default(self, t, depth=6):
        t = norm(t)
        while depth:
            depth -= 1
            if t[0] == "fld" and t[2] == "0" and t[4] in ("Some", "Ok"):
                t = t[3]
            elif t[0] == "call" and t[3].endswith(SAME + ("Option::filter", "Clone::clone")):
                t = t[2][0]
            elif t[0] == "arg" and "{closure" in t[1] and t[2] == 2:
                t = closure_arg(self.P, self.P.fns[t[1]]) or ("?",)
            elif t[0] == "arg" and "{closure" not in t[1]:
                return self.passed(t, lambda y: y != t and self.is_default(y, depth))
            else:
                break
        return is_call(t, "HashMap::get", "IndexMap::get", "BTreeMap::get", "Index::index") and fld(t[2][0], "Packument", "tags") and any(x[0] == "fld" and x[2] == "default_tag" for x in sym.walk(t[2][1]))

    def sym_fact(self, f, s, val):
        s = norm(s)
        while s[0] == "un" and s[1] == "Not" and isinstance(val, bool):
            s, val = s[2], not val
        if is_call(s, "Option::is_some", "Option::is_none") and isinstance(val, bool):
            s, val = s[2][0], "Some" if val == s[1].endswith("is_some") else "None"
        if is_call(s, "contains_key") and isinstance(val, bool):
            s, val = ("call", "IndexMap::get", s[2], "IndexMap::get"), "Some" if val else "None"
        out = set()
        if requested(s) and s[0] == "fld" and s[2] == "requested" and val == "None":
            out.add(("isnone",))
            out.add(("tagok",))
        if (requested(s) or s[0] == "fld" and s[1].endswith("VersionSpec")) and val in ("Version", "Tag"):
            out |= {("notag",), ("tried",)}
        if val in ("Dir", "Git", "Alias") and (is_call(s, "PackageSpec::target") or s[0] == "arg" and "{closure" not in s[1] and self.passed(s, lambda y: is_call(y, "PackageSpec::target"))) and val in ("Dir", "Git", "Alias"):
            out |= {("notag",), ("tried",)}
        if is_call(s, "Range::satisfies") and payload(s[2][0], "Range") and isinstance(val, bool) and self.is_default(s[2][1]):
            out.add(("tagok",) if val else ("notag",))
        if is_call(s, "PartialEq::eq") and val is True or is_call(s, "PartialEq::ne") and val is False:
            a, b = s[2]
            for x, y in ((a, b), (b, a)):
                if payload(x, "Range") and (any(is_call(z, "Range::any") for z in sym.walk(y)) or any(is_call(z, "Range::parse", "str::parse", "FromStr::from_str") for z in sym.walk(y)) and "*" in sym.consts_in(y)):
                    out.add(("tagok",))
        if self.is_default(s) and val == "None":
            out.add(("notag",))
        if is_call(s, "::get") and fld(s[2][0], "Packument", "versions") and self.is_default(s[2][1]):
            out.add(("notag",) if val == "None" else ("published",))
        if is_call(s, "::get") and fld(s[2][0], "Packument", "tags") and payload(s[2][1], "Tag") and val == "None":
            out |= {("tried",), ("notag",)}
        return frozenset(out)

    def gen(self, c, st, eng):
        t = norm(sym.sym_call(c.fn, c))
        out = {}
        if is_call(t, "::get", "Iterator::max", "Iterator::max_by", "Iterator::max_by_key", "Iterator::reduce", "Iterator::fold") or t[0] == "call" and t[1].startswith("nassun::"):
            fs = self.sym_fact(c.fn, t, "None")
            if self.best(t):
                fs |= {("tried",)}
            if fs:
                out[((), "None")] = self.derive(fs)
        return frozenset(), out

    def best(self, t):
        """the greatest of all versions which meet what was asked for"""
        if t[0] == "call" and len(self.P.byname.get(t[1], ())) == 1 and t[1].startswith("nassun::"):
            g = self.P.byname[t[1]][0]
            if g.id not in self.loops:
                self.loops[g.id] = g.lty(0) == "core::option::Option<&node_semver::Version>" and Greatest.of(self, g)
            return self.loops[g.id]
        if is_call(t, "Iterator::fold") and len(t[2]) == 3 and t[2][2][0] == "clo" and t[2][1][0] == "agg" and t[2][1][2] == "None":
            it = t[2][0]
            some = self.fit(it)
            return self.all(it[2][0] if some else it) and Greatest.fold(self, self.P.fns[t[2][2][1]], some)
        if not is_call(t, "Iterator::max", "Iterator::max_by", "Iterator::max_by_key", "Iterator::reduce"):
            return False
        if len(t[2]) > 1 and not self.natural(t):
            return False
        it = t[2][0]
        return self.fit(it) and self.all(it[2][0])

    def natural(self, t):
        """is the order asked for that of the versions themselves?"""
        c = t[2][1]
        if c[0] in ("fn", "named"):
            return is_call(t, "Iterator::max_by", "Iterator::reduce") and c[1].endswith(("Ord::cmp", "cmp::max", "Ord::max"))
        if c[0] != "clo":
            return False
        g = self.P.fns[c[1]]
        a, b = ("arg", g.id, 2), ("arg", g.id, 3)
        rs = [norm(r) for r in sym.returns(self.P, g)]
        if is_call(t, "Iterator::max_by_key"):
            return rs == [a] and "node_semver::Version" in g.lty(0)
        if is_call(t, "Iterator::max_by"):
            return len(rs) == 1 and is_call(rs[0], "Ord::cmp") and rs[0][2] == [a, b]
        return len(rs) == 1 and is_call(rs[0], "cmp::max", "Ord::max") and sorted(map(repr, rs[0][2])) == sorted(map(repr, [a, b]))

    def fit(self, it):
        """those versions that meet what was asked for"""
        if not is_call(it, "Iterator::filter") or it[2][1][0] != "clo":
            return False
        g = self.P.fns[it[2][1][1]]
        rs = [norm(r) for r in sym.returns(self.P, g)]
        return bool(rs) and all(self.meets(r, ("arg", g.id, 2)) for r in rs)

    def meets(self, r, e):
        if not (is_call(r, "Range::satisfies") and r[2][1] == e):
            return False
        rg = r[2][0]
        return payload(rg, "Range") or rg[0] == "arg" and self.passed(rg, lambda y: payload(y, "Range"))

    def all(self, src):
        while is_call(src, "IntoIterator::into_iter", "Iterator::by_ref"):
            src = norm(src[2][0])
        return self.keys(src) or src[0] == "arg" and self.passed(src, self.keys)

    def keys(self, t):
        return is_call(t, "::keys") and fld(t[2][0], "Packument", "versions")

    def passed(self, a, ok):
        g = self.P.fns.get(a[1])
        if g is None:
            return False
        ts = sym.instances(self.P, g, [a], 3)
        return bool(ts) and all(ok(norm(t[0])) for t in ts)

    def check(self, c, st, ch, eng):
        k = (c.fn.id, c.bb, None)
        self.at[k] = self.at[k] & st.facts if k in self.at else st.facts
        if c.decl.endswith(("Option::and_then", "Option::ok_or", "Option::ok_or_else", "Option::expect", "Option::unwrap")) and c.args[0][0] in "cm":
            if c.fn.lty(c.args[0][1][0]) == "core::option::Option<&node_semver::Version>":
                x = State(st.facts, {0: eng.op_cond(c.fn, st, c.args[0])}).look(0, (), "None")
                if x is not UN:
                    k = (c.fn.id, c.bb)
                    self.none[k] = (c, self.none.get(k, (c, True))[1] and ("tried",) in x)

    def check_stmt(self, f, b, i, s, st, ch, eng):
        k = (f.id, b, i)
        self.at[k] = self.at[k] & st.facts if k in self.at else st.facts

    def exit(self, f, st, ch, eng):
        self.exits[f.id] = self.exits[f.id] & st.facts if f.id in self.exits else st.facts


class Greatest(MustRule):
    """a loop (or fold) over all versions that keeps the greatest of those which meet the requirement:
    ("done",): the element was taken, or does not meet it, or is not greater than the one kept"""

    def __init__(self, pick, g, elem, acc, fit):
        self.pick, self.g, self.elem, self.acc, self.fit = pick, g, elem, acc, fit
        self.ok, self.taken, self.out = True, 0, frozenset([("all",)])

    def enter(self, f):
        return False

    def order(self, a, b, val):
        """facts if a > b (val "gt"), or the other way round"""
        e = lambda t: self.elem(t)
        if e(a) and self.acc(b):
            return {"gt": "better", "ge": "better", "lt": "done", "le": "done"}.get(val)
        if e(b) and self.acc(a):
            return {"lt": "better", "le": "better", "gt": "done", "ge": "done"}.get(val)

    def sym_fact(self, f, s, val):
        s = norm(s)
        while s[0] == "un" and s[1] == "Not" and isinstance(val, bool):
            s, val = s[2], not val
        if s[0] == "call" and len(s[2]) == 2 and self.elem(s[2][1]) and self.pick.meets(s, s[2][1]) and isinstance(val, bool):
            return frozenset([("sat",) if val else ("done",)])
        n = s[3].rsplit("::", 1)[-1] if s[0] == "call" else None
        if n in ("gt", "ge", "lt", "le") and "cmp::PartialOrd" in s[3] and isinstance(val, bool):
            n = n if val else {"gt": "le", "ge": "lt", "lt": "ge", "le": "gt"}[n]
            x = self.order(norm(s[2][0]), norm(s[2][1]), n)
            return frozenset([(x,)]) if x else frozenset()
        if n == "cmp" and val in ("Greater", "Less", "Equal"):
            x = self.order(norm(s[2][0]), norm(s[2][1]), {"Greater": "gt", "Less": "lt", "Equal": "le"}[val])
            return frozenset([(x,)]) if x else frozenset()
        if val == "None" and self.acc(s) or n in ("is_none", "is_some") and val is (n == "is_none") and self.acc(norm(s[2][0])):
            return frozenset([("better",)])
        if n in ("map_or", "is_none_or", "is_some_and") and self.acc(norm(s[2][0])) and s[2][-1][0] == "clo" and isinstance(val, bool):
            d = s[2][1] if n == "map_or" else ("const", n == "is_none_or")
            g = f.prog.fns[s[2][-1][1]]
            ts = sym.returns(f.prog, g)
            if len(ts) == 1 and d == ("const", True):
                return self.sym_fact(f, sym.subst(ts[0], {("arg", g.id, 2): norm(s[2][0])}), val)
        return frozenset()

    def gen(self, c, st, eng):
        if self.next(c):
            return frozenset(), {((), "None"): frozenset([("all",)])}
        return frozenset(), {}

    def next(self, c):
        return c.decl == "core::iter::traits::iterator::Iterator::next" and c.fn is self.g and self.elem(norm(sym.sym_call(c.fn, c)))

    def kill(self, f, c, st):
        return frozenset() if self.next(c) else st.facts

    def check(self, c, st, ch, eng):
        if self.next(c) and ("done",) not in st.facts:
            self.ok = False

    def took(self, f, x):
        rv = x[1]
        return rv[0] == "agg" and isinstance(rv[1], dict) and rv[1].get("v") == "Some" and self.elem(norm(sym.sym_op(f, rv[2][0])))

    def gen_stmt(self, f, b, i, x, st, eng):
        return (frozenset([("done",)]) if f is self.g and self.took(f, x) else frozenset()), frozenset()

    def check_stmt(self, f, b, i, x, st, ch, eng):
        if f is self.g and self.took(f, x):
            self.taken += 1
            if ("better",) not in st.facts or not (self.fit or ("sat",) in st.facts):
                self.ok = False

    def exit(self, f, st, ch, eng):
        if f is self.g:
            self.out = st.facts

    @staticmethod
    def of(pick, g):
        its = [c for c in g.calls() if c.decl == "core::iter::traits::iterator::Iterator::next"]
        if len(its) != 1 or g.cor:
            return False
        it = norm(sym.sym_op(g, its[0].args[0]))
        while is_call(it, "IntoIterator::into_iter", "Iterator::by_ref"):
            it = norm(it[2][0])
        fit = pick.fit(it)
        if not pick.all(norm(it[2][0]) if fit else it):
            return False
        nx = norm(sym.sym_call(g, its[0]))

        def elem(t):
            while t[0] == "fld" and t[2] == "0" and t[4] == "Some":
                t = t[3]
            return t == nx

        ret = [norm(x) for x in sym.returns(pick.P, g)]
        kept = [("multi", g.id, 0)] + [y for r in ret for y in sym.walk(r) if y[0] == "multi"]

        def acc(t):
            while t[0] == "fld" and t[2] == "0" and t[4] == "Some":
                t = t[3]
            return t in kept

        r = Greatest(pick, g, elem, acc, fit)
        Engine(pick.P, r).visit(g, frozenset([("done",)]), {}, [])
        return r.ok and r.taken > 0 and ("all",) in r.out

    @staticmethod
    def fold(pick, g, fit):
        a, e = ("arg", g.id, 2), ("arg", g.id, 3)

        def acc(t):
            while t[0] == "fld" and t[2] == "0" and t[4] == "Some":
                t = t[3]
            return t == a

        r = Greatest(pick, g, lambda t: t == e, acc, fit)
        Engine(pick.P, r).visit(g, frozenset(), {}, [])
        return r.ok and r.taken > 0 and ("done",) in r.out


def leaves(r, eng, t, facts, where, depth=14, seen=frozenset()):
    """(term, facts, where) of what an optional version can be"""
    P = r.P
    t = norm(t)
    if depth == 0:
        return [(("deep",), facts, where)]
    go = lambda x, fs=facts, w=where: leaves(r, eng, x, fs, w, depth - 1, seen)
    if t[0] == "multi":
        if t in seen:
            return []       # its other values are looked at anyway
        seen = seen | {t}
        f = P.fns[t[1]]
        out = []
        for d in f.defs().get(t[2], []):
            if len(d[2]) == 1:
                x = sym.sym_call(f, d[3]) if isinstance(d[3], Call) else sym.sym_rv(f, d[3])
                fs = r.at.get((f.id, d[0], None if isinstance(d[3], Call) else d[1]), frozenset())
                out += go(x, fs | facts, "%s:%s" % (f.file, f.line_of(d[0], d[1])))
        return out
    if t[0] == "fld" and t[2] == "0" and t[4] in ("Some", "Ok", "Continue"):
        return go(t[3])
    if t[0] == "agg" and t[2] in ("Some", "Ok"):
        return go(t[3]["0"])
    if t[0] == "agg" and t[2] in ("None", "Err"):
        return []
    if t[0] == "call":
        m = t[3].rsplit("::", 1)[-1]
        own = t[3].split("::")[-2:-1] in (["Option"], ["Result"])
        if t[3].endswith("from_residual"):
            return []
        if t[3].endswith(SAME):
            return go(t[2][0])
        if own and m in ("and_then", "map") and t[2][1][0] == "clo":
            g = P.fns[t[2][1][1]]
            return [x for y in sym.returns(P, g) for x in go(y, facts | r.exits.get(g.id, frozenset()), g.where)]
        if own and m in ("or_else", "or", "xor"):
            out = go(t[2][0])
            if t[2][1][0] == "clo":
                g = P.fns[t[2][1][1]]
                return out + [x for y in sym.returns(P, g) for x in go(y, facts | r.exits.get(g.id, frozenset()), g.where)]
            return out + go(t[2][1])
        if own and m == "filter" and t[2][1][0] == "clo":
            s = eng.visit(P.fns[t[2][1][1]], frozenset(), {}, None)
            x = s.cond.get(((), True), s.facts)
            return go(t[2][0], facts | (x if x is not UN else frozenset()))
        if m == "then" and t[2][1:] and t[2][1][0] == "clo":
            g = P.fns[t[2][1][1]]
            return [x for y in sym.returns(P, g) for x in go(y, facts | r.exits.get(g.id, frozenset()), g.where)]
        if t[1] in P.byname and not r.best(t):
            fs = P.byname[t[1]]
            if len(fs) == 1 and not fs[0].cor and fs[0].crate == "nassun":
                g = fs[0]
                mm = {("arg", g.id, i + 1): a for i, a in enumerate(t[2])}
                ys = sym.returns(P, g)
                if len(ys) == 1 and r.best(norm(ys[0])):
                    return [(norm(ys[0]), facts, where)]
                return [x for y in ys for x in go(sym.subst(y, mm), facts | r.exits.get(g.id, frozenset()))]
    if t[0] == "arg" and "{closure" in t[1] and t[2] == 2:
        x = closure_arg(P, P.fns[t[1]])
        if x is not None:
            return go(x)
    return [(t, facts, where)]


def metas(r, eng, t):
    """the map lookups a version's metadata come from"""
    out = []
    for x in deepwalk(r.P, norm(t)):
        if x[0] == "fld" and x[1].endswith("VersionMetadata") and x[2] in ("dist", "manifest"):
            out += [y for y, _, _ in leaves(r, eng, x[3], frozenset(), "?")]
    return out


def looked_up(x):
    return is_call(x, "HashMap::get", "IndexMap::get", "BTreeMap::get", "Index::index", "::remove") and fld(x[2][0], "Packument", "versions")


def check(ctx):
    P = ctx.P
    ctx.rule("target", "a requirement is resolved to the version or tag it names, to the default tag if that is in the range, and else to the greatest version that is")
    ctx.rule("found", "a requirement has no version only if none is in the range, or the tag does not exist")
    ctx.rule("metadata", "what a package is resolved to has the metadata of that version")
    r = Pick(P)
    eng = Engine(P, r)
    builders = []
    for f in P.fns.values():
        if f.crate != "nassun" or f.derived:
            continue
        for b in f.rpo():
            for i, s in enumerate(f.bbs[b]["s"]):
                rv = s[1]
                if rv[0] == "agg" and isinstance(rv[1], dict) and rv[1].get("v") == "Npm":
                    t = norm(sym.sym_rv(f, rv))
                    if t[0] == "agg" and t[1] == PR:
                        builders.append((f, b, i, t))
    tops = {}
    for f, b, i, t in builders:
        g = f
        while g.parent in P.fns:
            g = P.fns[g.parent]
        tops[g.id] = g
    from ..cg import callers
    up = {}
    for g in tops.values():
        # from where the package's metadata comes in
        while True:
            hs = {h.id: h for h, _ in callers(P).get(g.id, ()) if h.crate == "nassun" and h.id != g.id and not h.cor}
            if len(hs) != 1 or not any("Packument" in h.lty(a) for h in hs.values() for a in range(1, h.argc + 1)):
                break
            g = list(hs.values())[0]
        up[g.id] = g
    for g in up.values():
        eng.visit(g, frozenset(), {}, [])
    keys = {}
    for f, b, i, t in builders:
        w = "%s:%s" % (f.file, f.line_of(b, i))
        for name in ("version", "tarball"):
            ms = metas(r, eng, t[3].get(name, ("?",)))
            own = any(x[0] == "fld" and (x[2] == name or x[2] == "dist") for x in deepwalk(P, t[3].get(name, ("?",))))
            ctx.ob("metadata", name, bool(ms) and all(looked_up(m) for m in ms) and len({repr(m) for m in ms}) == 1 and own, w, "the %s is not the one of the version that was chosen" % name)
            for m in ms:
                if looked_up(m):
                    keys[repr(m)] = m
    for m in keys.values():
        for t, fs, w in leaves(r, eng, m[2][1], frozenset(), "?"):
            if payload(t, "Version"):
                ctx.ob("target", "the version asked for", True, w, "")
            elif is_call(t, "::get", "Index::index") and fld(t[2][0], "Packument", "tags") and payload(t[2][1], "Tag"):
                ctx.ob("target", "the tag asked for", True, w, "")
            elif r.is_default(t):
                ctx.ob("target", "the default tag", ("tagok",) in fs, w, "the default tag's version is taken for a requirement it may not meet")
                ctx.ob("found", "the default tag", bool({("published",), ("tried",)} & fs), w, "the default tag's version is taken although it may not be published, and another one may meet the requirement")
            elif r.best(t):
                ctx.ob("target", "the greatest version", ("notag",) in fs, w, "the greatest version is taken although the default tag's may meet the requirement")
            else:
                ctx.ob("target", "what it is resolved to", False, w, "a requirement is resolved to a version it does not call for: %s" % short(t))
    ctx.floor("target", 3)
    ctx.floor("metadata", 2)
    for c, ok in r.none.values():
        ctx.ob("found", c.fn.sname.rsplit("::", 1)[1], ok, c.where, "no version is found although one of them may meet the requirement")


def deepwalk(P, t, depth=4):
    for x in sym.walk(t):
        yield x
        if depth and x[0] in ("clo", "multi"):
            ys = sym.returns(P, P.fns[x[1]]) if x[0] == "clo" and x[1] in P.fns else [y for y in sym.multi(P, x) if y != x] if x[0] == "multi" else []
            for y in ys:
                yield from deepwalk(P, y, depth - 1)


def short(t):
    return str(t)[:100]
