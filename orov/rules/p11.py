"""--locked: must-facts over the resolution entry points (typestate: an Ok result needs the option off, no
lockfile, or an equal lockfile), a swallowed-error search in the lockfile reader, and option forwarding."""
from ..must import MustRule, Engine, UN
from ..model import Call
from ..cg import reach
from .. import sym, fwd

API = ("node_maintainer::maintainer::NodeMaintainerOptions::resolve_manifest", "node_maintainer::maintainer::NodeMaintainerOptions::resolve_spec")
OPT = "node_maintainer::maintainer::NodeMaintainerOptions"
LOCK = "node_maintainer::lockfile::Lockfile"


def rel(P, t):
    """function name returns the project's lockfile, if any"""
    return any("Option<%s>" % LOCK in f.lty(0) or any("Option<%s>" % LOCK in b.lty(0) for b in f.children if b.cor) for f in P.byname.get(t, ()))


class R(MustRule):
    def __init__(self, ctx):
        self.ctx = ctx
        self.memo = {}
        self.seen = set()

    def enter(self, fn):
        return fn.crate == "node_maintainer"

    def terms(self, f, s):
        k = (f.id, repr(s))
        if k not in self.memo:
            out = []
            for ts in sym.instances(self.ctx.P, f, [s], 4):
                out += sym.multi(self.ctx.P, ts[0])
            self.memo[k] = out
        return self.memo[k]

    def is_lock(self, t):
        P = self.ctx.P
        return any(rel(P, c) for c in sym.calls_in(t)) and not self.part(t)

    def part(self, t):
        return any(x[0] == "fld" and x[1] in (LOCK, LOCK + "Node") for x in sym.walk(t)) or any(c in (LOCK + "::packages", LOCK + "::root", LOCK + "::version") for c in sym.calls_in(t))

    def is_new(self, t):
        return any(c.startswith("node_maintainer::graph::Graph::") for c in sym.calls_in(t)) and not any(rel(self.ctx.P, c) for c in sym.calls_in(t)) and not self.part(t)

    def sym_fact(self, f, s, val):
        if f.crate != "node_maintainer":
            return frozenset()
        if s[0] == "fld" and s[2] == "locked" and s[1].startswith("node_maintainer::") and val is False:
            self.seen.add(s[1])
            return frozenset([("safe",)])
        if s[0] == "un" and s[1] == "Not" and isinstance(val, bool):
            return self.sym_fact(f, s[2], not val)
        if val == "None" or (s[0] == "call" and s[1].endswith(("Option::is_none", "Option::is_some")) and val is s[1].endswith("is_none")):
            t = s if val == "None" else s[2][0]
            if t[0] == "call" and len(t) > 3 and t[3].endswith("Option::filter"):
                return frozenset()
            ts = self.terms(f, t)
            if ts and all(self.whole_lock(x) for x in ts):
                return frozenset([("safe",)])
        if s[0] == "call" and len(s) > 3 and s[3].startswith("core::cmp::PartialEq::") and len(s[2]) == 2 and isinstance(val, bool):
            if s[3].endswith("::eq") is val:
                a, b = [self.terms(f, x) for x in s[2]]
                for x, y in ((a, b), (b, a)):
                    if x and y and all(self.is_lock(t) for t in x) and all(self.is_new(t) for t in y):
                        return frozenset([("safe",)])
        return frozenset()

    def whole_lock(self, t):
        while t[0] == "await":
            t = t[1]
        return t[0] == "call" and rel(self.ctx.P, t[1])

    def check_stmt(self, f, b, i, s, st, chain, eng):
        rv = s[1]
        if rv[0] == "agg" and isinstance(rv[1], dict) and rv[1].get("adt") == "node_maintainer::maintainer::NodeMaintainer":
            self.ctx.ob("locked", "resolved tree handed out by %s" % chain[0].sname.split("::{")[0], ("safe",) in st.facts, "%s:%s" % (f.file, f.line_of(b, i)),
                        "a resolution can succeed with the locked option set and a tree that differs from the lockfile; via " + " -> ".join(x.sname for x in chain))

    def kill(self, f, call, st):
        return st.facts


class Cli(MustRule):
    def __init__(self, ctx):
        self.ctx = ctx

    def enter(self, fn):
        return fn.crate.startswith("oro") and fn.crate != "oro_client"

    def gen(self, call, st, eng):
        if call.res == OPT + "::locked":
            s = sym.sym_op(call.fn, call.args[1])
            ok = s[0] == "fld" and s[1].endswith("ApplyArgs") and s[2] == "locked"
            return frozenset([("set",)] if ok else []), {}
        return frozenset(), {}

    def check(self, call, st, chain, eng):
        if call.res in API:
            self.ctx.ob("option", "locked option given before %s in %s" % (call.res.rsplit("::", 1)[1], chain[0].sname.split("::{")[0]), ("set",) in st.facts, call.where,
                        "the resolution can start without the --locked option having been passed on")


def swallowed(ctx, f):
    """an error reading the lockfile after which the function still succeeds"""
    P = ctx.P
    rty = "core::result::Result<core::option::Option<%s>" % LOCK
    one = "core::result::Result<%s," % LOCK
    eng = Engine(P, R(ctx))
    if not any(f.lty(l).startswith(one) for l in range(len(f.locals))):
        return
    ins = eng.solve(f, frozenset(), {})
    starts = []

    def is_unlocked_edge(b, tgt):
        return any(t == tgt and ("safe",) in st.facts for t, st in eng.flow(f, b, ins[b], None)) if b in ins else False
    for b in f.rpo():
        t = f.bbs[b]["t"]
        if t[0] == "switch" and t[1][0] in "cm":
            l = t[1][1][0]
            ds = [d for d in f.defs().get(l, []) if not isinstance(d[3], Call) and d[3][0] == "discr"]
            for d in ds:
                pl = d[3][1]
                ty = f.lty(pl[0]) if len(pl) == 1 else ""
                if ty.startswith(one):
                    vm = d[3][3]
                    ev = [v for v, n in vm.items() if n == "Err"]
                    tg = [x[1] for x in t[2] if str(x[0]) in ev] or [t[3]]
                    starts += [(b, x) for x in tg]
        elif t[0] == "call":
            c = f.call_at(b)
            if c.args and c.args[0][0] in "cm" and f.lty(c.args[0][1][0]).startswith(one) and c.decl.startswith("core::result::Result::") \
                    and c.decl.rsplit("::", 1)[1] in ("ok", "unwrap_or", "unwrap_or_else", "unwrap_or_default", "is_ok", "is_err", "or", "or_else", "map_or", "is_ok_and"):
                starts.append((b, c.target))
    for b, t in starts:
        bad = None
        if b not in ins or ("safe",) in ins[b].facts or is_unlocked_edge(b, t):
            continue
        todo, seen = [t], {t}
        while todo and bad is None:
            x = todo.pop()
            stop = False
            for s in f.bbs[x]["s"]:
                rv = s[1]
                if rv[0] == "agg" and isinstance(rv[1], dict) and rv[1].get("adt") == "core::result::Result" and f.lty(s[0][0]).find(rty) >= 0 and len(s[0]) == 1:
                    if rv[1]["v"] == "Ok":
                        bad = x
                    stop = True
                    break
            if stop:
                continue
            tt = f.bbs[x]["t"]
            if tt[0] == "call":
                c = f.call_at(x)
                if c.decl.endswith("FromResidual::from_residual"):
                    continue
            for n in f.succ(x):
                if n in seen or x not in ins or is_unlocked_edge(x, n):
                    continue
                seen.add(n)
                todo.append(n)
        ctx.ob("unreadable", "lockfile that cannot be read, in %s" % f.sname.split("::{")[0], bad is None, f.where,
               "an error reading the existing lockfile is passed over although the locked option is set")


def check(ctx):
    P = ctx.P
    ctx.rule("locked", "a resolved tree is handed out only if locked is off, there is no lockfile, or the lockfile equals that of the tree")
    ctx.rule("unreadable", "an error reading the existing lockfile is only passed over when locked is off")
    ctx.rule("compare", "comparing two lockfiles compares every field of them")
    ctx.rule("option", "the option given on the command line is the one the resolver tests")
    r = R(ctx)
    e = Engine(P, r)
    for n in API:
        for f in ctx.need(n, "resolution entry point"):
            e.run([c for c in f.children if c.cor])
    ctx.floor("locked", 2)
    # reading
    pr = reach(P, [f for n in API for f in P.byname[n]])
    for fid in pr:
        f = P.fns[fid]
        if f.crate == "node_maintainer":
            swallowed(ctx, f)
    ctx.floor("unreadable", 1)
    files = set()
    for fid in pr:
        f = P.fns[fid]
        if f.crate == "node_maintainer":
            files |= sym.body_consts(f)
    ctx.rule("name", "the lockfile that is written is one of those that are read")
    for f in P.fns.values():
        if f.crate.startswith("oro"):
            for c in f.calls():
                if c.res == "node_maintainer::maintainer::NodeMaintainer::write_lockfile":
                    for x in sym.consts_in(sym.sym_op(f, c.args[1])):
                        ctx.ob("name", "lockfile name in %s" % P.root_of(f).sname, x in files, c.where, "%s is written but never read back" % x)
    ctx.floor("name", 1)
    # comparison
    for ty in (LOCK, LOCK + "Node"):
        fields = [x["n"] for x in P.adts[ty]["vs"][0]["f"]] if ty in P.adts else []
        eqs = [f for f in P.fns.values() if f.trait == "core::cmp::PartialEq" and f.self_ty == ty and f.sname.endswith("::eq")]
        for f in eqs:
            for a in (1, 2):
                rd = {x[2] for c in f.calls() for o in c.args for x in sym.walk(sym.sym_op(f, o)) if x[0] == "fld" and x[1] == ty and x[3] == ("arg", f.id, a)} \
                    | {x[2] for b in f.rpo() for s in f.bbs[b]["s"] for x in sym.walk(sym.sym_rv(f, s[1])) if x[0] == "fld" and x[1] == ty and x[3] == ("arg", f.id, a)}
                miss = [x for x in fields if x not in rd]
                ctx.ob("compare", "%s: operand %d" % (ty.rsplit("::", 1)[1], a), not miss, f.where, "fields that make no difference to the comparison: %s" % ", ".join(miss))
    # option forwarding
    c = Engine(P, Cli(ctx))
    for f in ctx.need("orogene::apply_args::ApplyArgs::execute", "apply entry point"):
        c.run([b for b in f.children if b.cor] or [f])
    fwd.field(ctx, "option", sorted(r.seen), "locked", "orogene::apply_args::ApplyArgs", "locked")
    ctx.floor("option", 3)
