"""Lifecycle scripts: order of the steps (typestate), order between packages (what must have been established when a package is
released to run, and by which graph relation its requirement set was filled), fates of script errors, and agreement of the
directory a script runs in with the one the package was put in."""
from collections import Counter
from ..must import MustRule, Engine, UN, RUNS_CLOSURE_ONCE, callees
from ..model import Call
from ..cg import reach, callers
from .. import sym, errs

API = "node_maintainer::maintainer::NodeMaintainer::rebuild"
EV = ("preinstall", "install", "postinstall")
NI = "petgraph::graph_impl::NodeIndex"
SPAWN = ("oro_script::OroScript::spawn", "oro_script::OroScript::output")
NEW = "oro_script::OroScript::new"
CAP = "core::ops::function::"


def one(P, f, t):
    """the term with parameters replaced by what callers pass, and multiply defined locals split"""
    out = []
    for ts in sym.instances(P, P.root_of(f) if any(x[0] == "arg" and x[1] == P.root_of(f).id for x in sym.walk(t)) else f, [t], 4):
        out += sym.multi(P, ts[0])
    return out


def simp(t):
    """projections of known tuples carried out"""
    if isinstance(t, tuple):
        if t and t[0] == "fld" and len(t) == 5 and t[2].isdigit():
            b = simp(t[3])
            if b[0] == "tuple" and int(t[2]) < len(b[1]):
                return b[1][int(t[2])]
            return t[:3] + (b,) + t[4:]
        return tuple(simp(x) for x in t)
    if isinstance(t, list):
        return [simp(x) for x in t]
    if isinstance(t, dict):
        return {k: simp(v) for k, v in t.items()}
    return t


def is_ni(f, o):
    return o[0] in "cm" and len(o[1]) == 1 and f.lty(o[1][0]).lstrip("&").startswith(NI)


class Order(MustRule):
    def __init__(self, ctx, run, bins):
        self.ctx, self.P, self.run_, self.bins = ctx, ctx.P, run, bins
        self.ends = []

    def enter(self, f):
        return f.crate == "node_maintainer"

    def event(self, c):
        """(constants, looped over) if the call runs the scripts of an event given as a constant"""
        if not any(g.id in self.run_ for g in callees(self.P, c)):
            return None
        for a in c.args:
            t = sym.sym_op(c.fn, a)
            if t[0] == "const" and isinstance(t[1], str):
                return [t[1]], None
            if t[0] == "call" and t[3].endswith("Iterator::next"):
                it = t[2][0]
                ar = [x for x in sym.walk(it) if x[0] == "array"]
                if len(ar) == 1 and not sym.partial(it) and not any(c.endswith("Iterator::rev") for c in sym.calls_in(it)):
                    cs = [x[1] for x in ar[0][1] if x[0] == "const"]
                    if len(cs) == len(ar[0][1]):
                        return cs, repr(ar[0])
        return None

    def handed(self, c):
        """scripts run by a call that is given the event by its own caller"""
        if any(g.id in self.run_ for g in callees(self.P, c)):
            for a in c.args:
                t = sym.sym_op(c.fn, a)
                if t[0] == "arg" and c.fn.crate == "node_maintainer" and "str" in self.P.fns[t[1]].lty(t[2]):
                    return True
        return False

    def isbin(self, c):
        return any(g.id in self.bins for g in callees(self.P, c))

    def gen_await(self, c, st, eng):
        e = self.event(c)
        if e:
            return frozenset(), {((), "Ok"): frozenset([("done", e[0][0])] if e[1] is None else [("ran", e[1])])}
        if self.isbin(c):
            return frozenset(), {((), "Ok"): frozenset([("bins",)])}
        return frozenset(), {}

    def arr(self, c):
        if c.decl == "core::iter::traits::iterator::Iterator::next":
            ar = [x for x in sym.walk(sym.sym_op(c.fn, c.args[0])) if x[0] == "array"]
            if len(ar) == 1:
                return ar[0]

    def gen(self, c, st, eng):
        if c.decl.endswith("IntoIterator::into_iter"):
            ar = [x for x in sym.walk(sym.sym_op(c.fn, c.args[0])) if x[0] == "array"]
            if len(ar) == 1:
                return frozenset([("ran", repr(ar[0]))]), {}
        a = self.arr(c)
        if a is not None and ("ran", repr(a)) in st.facts:
            return frozenset(), {((), "None"): frozenset(("done", x[1]) for x in a[1] if x[0] == "const")}
        return frozenset(), {}

    def kill(self, f, c, st):
        a = self.arr(c)
        if a is not None:
            return frozenset(x for x in st.facts if x != ("ran", repr(a)))
        return st.facts

    def ign(self, t, depth=0):
        """is the term the API's parameter, in every calling context?"""
        if t[0] != "arg" or depth > 6:
            return False
        g = self.P.fns[t[1]]
        if g.sname == API:
            return t[2] == 2
        cs = [(h, c) for h in {h.id: h for h, c in callers(self.P).get(g.id, ())}.values() for c in h.calls() if c.rid == g.id]
        return bool(cs) and all(t[2] - 1 < len(c.args) and self.ign(sym.sym_op(h, c.args[t[2] - 1]), depth + 1) for h, c in cs)

    def sym_fact(self, f, s, val):
        if s[0] == "un" and s[1] == "Not" and isinstance(val, bool):
            return self.sym_fact(f, s[2], not val)
        if isinstance(val, bool) and s[0] == "arg" and self.ign(s):
            return frozenset([("on",)]) if val is False else frozenset(("done", e) for e in EV)
        return frozenset()

    def check(self, c, st, ch, eng):
        e = self.event(c)
        if (e and not any(self.ign(sym.sym_op(c.fn, a)) for a in c.args)) or self.handed(c):
            self.ctx.ob("disabled", "%s scripts run in %s" % ("/".join(e[0]) if e else "the given", root(self.P, c.fn)), ("on",) in st.facts, c.where, "scripts can run although they are switched off")
        if e:
            have = set(st.facts)
            for x in e[0]:
                need = {"preinstall": [], "install": [("done", "preinstall"), ("bins",)], "postinstall": [("done", "install"), ("done", "preinstall"), ("bins",)]}.get(x)
                if need is None:
                    self.ctx.ob("order", "event " + x, False, c.where, "%s is not an install event" % x)
                    continue
                miss = [y for y in need if y not in have]
                self.ctx.ob("order", x, not miss, c.where, "the %s scripts can run before: %s" % (x, ", ".join(y[-1] for y in miss)))
                have.add(("done", x))
        elif self.isbin(c):
            self.ctx.ob("order", "bins", ("done", "preinstall") in st.facts, c.where, "bins can be linked before the preinstall scripts ran")

    def exit(self, f, st, ch, eng):
        if P_root(self.P, f).sname == API and f.cor:
            x = st.look(0, (), "Ok")
            if x is not UN:
                miss = [e for e in EV if ("done", e) not in x] + ([] if ("bins",) in x else ["bins"])
                self.ctx.ob("order", "end of a rebuild", not miss, f.where, "a rebuild can succeed without: " + ", ".join(miss))


def P_root(P, f):
    return P.root_of(f)


class Sched(MustRule):
    """inside the scheduler: what is known when a package is released, and when a requirement is taken off"""

    def __init__(self, ctx, run):
        self.ctx, self.P, self.run_ = ctx, ctx.P, run
        self.T = {}
        self.orient = {}
        self.released = []

    def enter(self, f):
        return f.crate == "node_maintainer"

    def key(self, t):
        r = repr(t)
        self.T[r] = t
        return r

    def bool_callee(self, c):
        """closure or function with a bool result, and its argument terms"""
        if c.decl.startswith(CAP) and len(c.args) == 2:
            t = sym.sym_op(c.fn, c.args[0])
            a = sym.sym_op(c.fn, c.args[1])
            if t[0] == "clo" and t[1] in self.P.fns and a[0] == "tuple":
                g = self.P.fns[t[1]]
                return g, {("arg", g.id, i + 2): x for i, x in enumerate(a[1])}
        for g in callees(self.P, c):
            if g.crate == "node_maintainer" and not g.cor:
                return g, {("arg", g.id, i + 1): sym.sym_op(c.fn, a) for i, a in enumerate(c.args)}
        return None, None

    def gen(self, c, st, eng):
        if c.decl.endswith("close_channel"):
            return frozenset([("closed",)]), {}
        if len(c.dest) == 1 and c.fn.lty(c.dest[0]) == "bool":
            if c.decl == "petgraph::algo::has_path_connecting":
                a, b = [self.key(sym.sym_op(c.fn, c.args[i])) for i in (1, 2)]
                return frozenset(), {((), True): frozenset([("path", a, b)]), ((), False): frozenset([("nopath", a, b)])}
            g, m = self.bool_callee(c)
            if g is not None and g.lty(0) == "bool":
                s = eng.visit(g, frozenset(), {}, None)
                out = {}
                for v in (True, False):
                    x = s.cond.get(((), v))
                    if x and x is not UN:
                        out[((), v)] = frozenset((k[0],) + tuple(self.key(sym.subst(self.T[y], m)) for y in k[1:]) for k in x if k[0] in ("path", "nopath"))
                return frozenset(), out
        return frozenset(), {}

    def gen_await(self, c, st, eng):
        if any(g.id in self.run_ for g in callees(self.P, c)):
            fs = [("fin", self.key(x)) for a in c.args if is_ni(c.fn, a) for x in [sym.sym_op(c.fn, a)]]
            return frozenset(fs), {}
        return frozenset(), {}

    def sym_fact(self, f, s, val):
        if s[0] == "un" and s[1] == "Not" and isinstance(val, bool):
            return self.sym_fact(f, s[2], not val)
        if s[0] == "bin" and s[1] in ("Eq", "Ne", "Gt") and s[3] == ("const", 0) and s[2][0] == "call" and s[2][1].endswith("::len") and isinstance(val, bool):
            empty = val is (s[1] == "Eq")
            k = s[2]
        elif s[0] == "call" and s[1].endswith("::is_empty") and isinstance(val, bool):
            empty, k = val, s
        else:
            return frozenset()
        if "HashSet" in k[1] or "BTreeSet" in k[1]:
            return frozenset([("empty", self.key(k[2][0]))]) if empty else frozenset()
        if "HashMap" in k[1] or "BTreeMap" in k[1]:
            return frozenset() if empty else frozenset([("closed",)])
        return frozenset()

    def kill(self, f, c, st):
        if c.decl == "core::iter::traits::iterator::Iterator::next":
            return frozenset(x for x in st.facts if x[0] in ("fin", "closed"))
        if any(g.id in self.run_ for g in callees(self.P, c)):
            return frozenset(x for x in st.facts if x != ("closed",))
        if c.decl.endswith("HashSet::insert"):
            return frozenset(x for x in st.facts if x[0] != "empty")
        return st.facts

    def check(self, c, st, ch, eng):
        f = c.fn
        if is_set(c, "remove"):
            k = one(self.P, f, sym.sym_op(f, c.args[1]))
            have = [x[1] for x in st.facts if x[0] == "fin"]
            ok = bool(k) and all(repr(x) in have or sym.sym_op(f, c.args[1]) == x and self.key(x) in have for x in k)
            self.ctx.ob("release", "requirement taken off in %s" % root(self.P, f), ok, c.where, "a package is struck from what another one waits for, and its script has not finished")
        elif is_set(c, "insert"):
            d = self.key(sym.sym_op(f, c.args[1]))
            own = [x for x in st.facts if x[0] == "path" and d in x[1:]]
            o = None
            for x in own:
                a, b = x[1:]
                if ("nopath", b, a) in st.facts and a != b:
                    o = "requirement" if b == d else "dependent"
            self.orient.setdefault((f.id, c.bb), (o, c))
            self.ctx.ob("relation", "packages put in a set in %s" % root(self.P, f), o is not None, c.where,
                        "the set does not hold exactly the packages that depend on this one, or exactly those it depends on, leaving out those that do both")
        elif c.decl.endswith("Iterator::collect") and "Hash" in f.lty(c.dest[0]) and f.lty(c.dest[0]).startswith("std::collections::hash::set::HashSet<" + NI):
            for x in sym.walk(sym.sym_op(f, c.args[0])):
                if x[0] == "call" and x[1].endswith("Iterator::filter") and x[2][1][0] == "clo" and x[2][1][1] in self.P.fns:
                    g = self.P.fns[x[2][1][1]]
                    y = eng.visit(g, frozenset(), {}, None).cond.get(((), True), frozenset())
                    d = self.key(("arg", g.id, 2))
                    o = None
                    for k in (y if y is not UN else ()):
                        if k[0] == "path" and d in k[1:] and ("nopath", k[2], k[1]) in y and k[1] != k[2]:
                            o = "requirement" if k[2] == d else "dependent"
                    self.orient.setdefault((f.id, c.bb), (o, c))
                    self.ctx.ob("relation", "packages put in a set in %s" % root(self.P, f), o is not None, c.where,
                                "the set does not hold exactly the packages that depend on this one, or exactly those it depends on, leaving out those that do both")
        elif is_send(c):
            t = sym.sym_op(f, c.args[1])
            d = t[1][0] if t[0] == "tuple" else t
            sets = [self.T[x[1]] for x in st.facts if x[0] == "empty"]
            ok = any(owns(s, d) for s in sets) or any(owns(s, x) for x in one(self.P, f, d) for s in sets)
            self.released.append((c, sets))
            self.ctx.ob("release", "package released in %s" % root(self.P, f), ok, c.where, "a package can be released to run before all it waits for have finished")
        elif c.decl.endswith(("try_for_each_concurrent", "for_each_concurrent", "buffer_unordered")) and any(x[0] == "call" and "mpsc" in x[1] for x in sym.walk(sym.sym_op(f, c.args[0]))):
            self.ctx.ob("ends", "queue when the first packages are out, in %s" % root(self.P, f), ("closed",) in st.facts, c.where,
                        "with nothing left to wait for, the queue is not closed: the run never ends")

    def exit(self, f, st, ch, eng):
        if f.cor and any(x[0] == "fin" for x in st.facts) and any(is_send(c) or is_set(c, "remove") for c in f.calls()):
            x = st.look(0, (), "Ok") if errs.result(f.lty(0)) else st.facts
            self.ctx.ob("ends", "queue after a package, in %s" % root(self.P, f), x is UN or ("closed",) in x, f.where,
                        "with nothing left to wait for, the queue is not closed: the run never ends")


def root(P, f):
    return P.root_of(f).sname


def is_set(c, op):
    return c.decl in ("std::collections::hash::set::HashSet::" + op, "alloc::collections::btree::set::BTreeSet::" + op) and c.args and c.args[0][0] in "cm" and NI in c.fn.lty(c.args[0][1][0])


def is_send(c):
    return c.decl.startswith("futures_channel::mpsc::") and c.decl.endswith(("::unbounded_send", "::try_send", "::start_send")) and NI in c.gen(0) + c.fn.lty(c.args[1][1][0])


def owns(s, d):
    """the set s is the one kept for package d"""
    if s[0] == "fld" and d[0] == "fld" and s[3] == d[3] and s != d:
        return True
    return any(x[0] == "call" and x[1].endswith(("HashMap::get", "HashMap::get_mut", "HashMap::remove")) and len(x[2]) == 2 and x[2][1] == d for x in sym.walk(s))


class Opt(MustRule):
    def __init__(self, P):
        self.P = P

    def enter(self, f):
        return f.crate == "node_maintainer"

    def sym_fact(self, f, s, val):
        if s[0] == "call" and s[1] == "node_maintainer::graph::Graph::is_optional" and val is True and s[2][1][0] == "arg":
            return frozenset([("opt",)])
        return frozenset()


class Run(MustRule):
    """the function that runs one package's script"""

    def __init__(self, ctx, fid):
        self.ctx, self.P, self.fid = ctx, ctx.P, fid

    def enter(self, f):
        return f.crate == "node_maintainer"

    def gen(self, c, st, eng):
        if c.res in SPAWN or (c.decl in SPAWN):
            return frozenset([("ran",)]), {}
        return frozenset(), {}

    def sym_fact(self, f, s, val):
        if s[0] == "call" and s[1].endswith("::contains_key") and val is False and any(x[2] == "scripts" for x in sym.walk(s) if x[0] == "fld"):
            return frozenset([("ran",)])
        if s[0] == "call" and s[1].endswith("::get") and val == "None" and any(x[2] == "scripts" for x in sym.walk(s) if x[0] == "fld"):
            return frozenset([("ran",)])
        return Opt.sym_fact(self, f, s, val) and frozenset([("ran",)])

    def exit(self, f, st, ch, eng):
        if f.id == self.fid:
            x = st.look(0, (), "Ok")
            if x is not UN:
                self.ctx.ob("runs", "package with a script, in %s" % root(self.P, f), ("ran",) in x, f.where, "the package counts as done although it has a script for the event that was not run")


class Pend(MustRule):
    """extraction remembers the packages that have something to run"""

    def __init__(self, ctx, top, events):
        self.ctx, self.P, self.top, self.events = ctx, ctx.P, top, events
        self.seen = False

    def enter(self, f):
        return f.crate == "node_maintainer"

    def derive(self, fs):
        if all(("no", e) in fs for e in self.events):
            return fs | {("pend",)}
        return fs

    def evs(self, f, t):
        if t[0] == "const":
            return [t[1]]
        return []

    def gen(self, c, st, eng):
        if is_set(c, "insert") and any(x[0] in ("fld", "upvar") for x in sym.walk(sym.sym_op(c.fn, c.args[0]))):
            return frozenset([("pend",)]), {}
        if c.decl.endswith("Iterator::any"):
            ar = [x for x in sym.walk(sym.sym_op(c.fn, c.args[0])) if x[0] == "array"]
            t = sym.sym_op(c.fn, c.args[1])
            if len(ar) == 1 and t[0] == "clo" and t[1] in self.P.fns and any(x[0] == "call" and x[1].endswith("::contains_key") and "scripts" in [y[2] for y in sym.walk(x) if y[0] == "fld"] for r in sym.returns(self.P, self.P.fns[t[1]]) for x in sym.walk(r)):
                return frozenset(), {((), False): frozenset(("no", x[1]) for x in ar[0][1] if x[0] == "const")}
        return frozenset(), {}

    def sym_fact(self, f, s, val):
        if s[0] == "call" and s[1].endswith("::contains_key") and val is False and any(x[2] == "scripts" for x in sym.walk(s) if x[0] == "fld"):
            return frozenset(("no", e) for e in self.evs(f, s[2][1]))
        return frozenset()

    def kill(self, f, c, st):
        if c.res.startswith("nassun::package::Package::extract_to_dir"):
            self.seen = True
            return frozenset(x for x in st.facts if x[0] not in ("pend", "no"))
        return st.facts

    def exit(self, f, st, ch, eng):
        if f.id == self.top.id:
            x = st.look(0, (), "Ok")
            if x is not UN:
                self.ctx.ob("pending", "package extracted in %s" % root(self.P, f), ("pend",) in self.derive(x), f.where,
                            "a package just extracted can have one of the scripts %s without being remembered as having something to run" % ", ".join(self.events))


class Status(MustRule):
    def __init__(self, ctx, f):
        self.ctx, self.f = ctx, f

    def enter(self, f):
        return f.crate == "oro_script"

    def sym_fact(self, f, s, val):
        if s[0] == "call" and s[1] == "std::process::ExitStatus::success" and val is True:
            return frozenset([("success",)])
        return frozenset()

    def exit(self, f, st, ch, eng):
        if f.id == self.f.id:
            x = st.look(0, (), "Ok")
            self.ctx.ob("status", f.sname.rsplit("::", 2)[-2] + "::" + f.sname.rsplit("::", 1)[1], x is UN or ("success",) in x, f.where, "a script that exits with failure can count as a success")


class AllOpt(MustRule):
    """is_optional: true only when every edge into the package is optional"""

    def __init__(self, P, f):
        self.P, self.f = P, f

    def enter(self, f):
        return f.crate == "node_maintainer"

    def src(self, t):
        return any(x[0] == "call" and x[1].endswith("::edges_directed") and ("Incoming" in repr(x)) for x in sym.walk(t)) and not sym.partial(t)

    def it(self, c):
        return c.decl == "core::iter::traits::iterator::Iterator::next" and self.src(sym.sym_op(c.fn, c.args[0]))

    def sym_fact(self, f, s, val):
        if s[0] == "un" and s[1] == "Not" and isinstance(val, bool):
            return self.sym_fact(f, s[2], not val)
        if val == "Opt" and s[0] == "fld" and s[2] == "dep_type":
            return frozenset([("o",)])
        if s[0] == "call" and s[3].startswith("core::cmp::PartialEq::") and isinstance(val, bool) and val is s[3].endswith("::eq"):
            r = [repr(x) for x in s[2]]
            if any("dep_type" in x for x in r) and any("'Opt'" in x or "DepType::Opt" in x for x in r) and not any("DevDep" in x for x in r):
                return frozenset([("o",)])
        return frozenset()

    def gen(self, c, st, eng):
        if c.decl.endswith("IntoIterator::into_iter") and self.src(sym.sym_op(c.fn, c.args[0])):
            return frozenset([("o",)]), {}
        if self.it(c) and ("o",) in st.facts:
            return frozenset(), {((), "None"): frozenset([("all",)])}
        if c.decl.endswith("Iterator::all") and self.src(sym.sym_op(c.fn, c.args[0])):
            for cid in eng.closure_of(c.fn, c.args[1]):
                s = eng.visit(self.P.fns[cid], frozenset(), {}, None)
                x = s.cond.get(((), True), frozenset())
                if x is UN or ("o",) in x:
                    return frozenset(), {((), True): frozenset([("all",)])}
        if c.decl.endswith("Iterator::any") and self.src(sym.sym_op(c.fn, c.args[0])):
            for cid in eng.closure_of(c.fn, c.args[1]):
                s = eng.visit(self.P.fns[cid], frozenset(), {}, None)
                x = s.cond.get(((), False), frozenset())
                if x is UN or ("o",) in x:
                    return frozenset(), {((), False): frozenset([("all",)])}
        return frozenset(), {}

    def kill(self, f, c, st):
        return frozenset(x for x in st.facts if x != ("o",)) if self.it(c) else st.facts


def shape(P, t):
    """what a path is made of: constants, fields, workspace functions (a multiset)"""
    out = Counter()
    for x in sym.walk(t):
        if x[0] == "const" and isinstance(x[1], str):
            out[x[1]] += 1
        elif x[0] == "named":
            out[x[1].rsplit("::", 1)[1]] += 1
        elif x[0] == "call" and x[1].startswith(("node_maintainer::", "nassun::")):
            out[x[1]] += 1
        elif x[0] == "fld" and x[2] == "root":
            out["root"] += 1
    return frozenset(out.items())


def pure(n):
    return n.startswith("node_maintainer::linkers::")


def check(ctx):
    P = ctx.P
    ctx.rule("order", "preinstall scripts, then bins, then install scripts, then postinstall scripts, each after the step before succeeded; a rebuild that succeeds did all of them")
    ctx.rule("disabled", "no lifecycle script runs when scripts are switched off")
    ctx.rule("release", "a package is released to run only when nothing is left that it waits for, and a package is struck from there only when its script has finished")
    ctx.rule("relation", "a package waits for those it depends on that do not depend on it; the sets of dependents are the converse")
    ctx.rule("ends", "the queue is closed when nothing is left to wait for")
    ctx.rule("runs", "a package with a script for the event has it run")
    ctx.rule("failure", "an error of a script is passed over only for an optional package")
    ctx.rule("status", "a script that exits with failure is an error")
    ctx.rule("optional", "a package is optional only if every package that needs it does so optionally")
    ctx.rule("pending", "a package just extracted that has an install script is remembered")
    ctx.rule("place", "a script runs in the directory the package was put in, with the script its manifest gives for the event")
    ctx.rule("option", "the command line's switch for scripts is passed on")
    api = ctx.need(API, "entry point")
    ctx.need(list(SPAWN) + [NEW], "script runner")
    pr = reach(P, api)
    nm = [P.fns[i] for i in pr if P.fns[i].crate == "node_maintainer"]
    runs = {f.id for f in nm if any(c.res in SPAWN or c.res == NEW for i in reach(P, [f]) for c in P.fns[i].calls() if P.fns[i].crate == "node_maintainer")}
    bins = {f.id for f in nm if f.id not in runs and not f.cor and f.kind != "Closure" and any(c.decl == "std::os::unix::fs::symlink" for i in reach(P, [f]) for c in P.fns[i].calls())}
    top = {f.id for f in nm if P.root_of(f).sname == API}
    o = Order(ctx, runs - top, bins)
    Engine(P, o).run([b for f in api for b in f.children if b.cor])
    ctx.floor("order", 4)
    ctx.floor("disabled", 2)
    # scheduler
    s = Sched(ctx, runs - top)
    e = Engine(P, s)
    sch = [f for f in nm if f.id in runs and f.cor and not f.sname.startswith(API)]
    for f in sorted(sch, key=lambda f: len(f.sname)):
        if P.root_of(f) is P.fns.get(f.parent) and any("mpsc" in c.decl for i in reach(P, [f]) for c in P.fns[i].calls() if P.root_of(P.fns[i]) is P.root_of(f)):
            e.run([f])
    ctx.floor("release", 2)
    ctx.floor("ends", 2)
    kinds = {o for o, c in s.orient.values()}
    ctx.ob("relation", "both relations are kept", {"requirement", "dependent"} <= kinds, "", "found only: %s" % ", ".join(str(x) for x in kinds))
    for c, sets in s.released:
        for t in sets:
            for x in sym.walk(t):
                if x[0] == "clo":
                    for (fid, bb), (o, c2) in s.orient.items():
                        if fid == x[1] and o:
                            ctx.ob("relation", "sets a package waits for", o == "requirement", c2.where, "a package waits for those that depend on it")
    # one package
    runners = {}
    for f in nm:
        for c in f.calls():
            if c.res in SPAWN:
                r = P.root_of(f)
                runners[r.id] = r
    for r in runners.values():
        for b in [x for x in r.children if x.cor] or [r]:
            Engine(P, Run(ctx, b.id)).run([b])
            tree = [P.fns[i] for i in reach(P, [b]) if P.root_of(P.fns[i]) is r]
            eo = Engine(P, Opt(P))
            waits = [c for f in tree for c in f.calls() if c.res == "oro_script::ScriptChild::wait" or c.res == SPAWN[1]]
            ctx.ob("failure", "script is waited for, in %s" % r.sname, bool(waits), b.where, "the script that was started is never waited for: its failure goes unnoticed")
            for f in tree:
                if f.derived or "CALLSITE" in f.sname:
                    continue
                ins = eo.solve(f, frozenset(), {})

                def barrier(x, n):
                    if x not in ins:
                        return True
                    return any(t == n and ("opt",) in st.facts for t, st in eo.flow(f, x, ins[x], None))
                fs, n = errs.fates(f, barrier, lambda e: "OroScriptError" in e or "NodeMaintainerError" in e)
                fs = [x for x in fs if "try_join" not in str(f.mac_of(x.bb))]
                if n:
                    ctx.ob("failure", "errors in %s" % short(f), not fs, fs[0].where if fs else f.where, "the error of %s is passed over (%s)" % (fs[0].call.res if fs and fs[0].call else "?", fs[0].kind if fs else ""))
    ctx.floor("failure", 2)
    ctx.floor("runs", 1)
    # between the scheduler and the API
    for f in nm:
        if f.id in runs and P.root_of(f).id not in runners:
            fs, n = errs.fates(f, want=lambda e: "NodeMaintainerError" in e)
            if n:
                ctx.ob("failure", "errors in %s" % short(f), not fs, fs[0].where if fs else f.where, "the error of %s is passed over (%s)" % (fs[0].call.res if fs and fs[0].call else "?", fs[0].kind if fs else ""))
    for n in ("oro_script::ScriptChild::wait", SPAWN[1]):
        for f in ctx.need(n, "script runner"):
            Engine(P, Status(ctx, f)).run([f])
    for f in ctx.need("node_maintainer::graph::Graph::is_optional", "optional packages"):
        r = AllOpt(P, f)
        sm = Engine(P, r).visit(f, frozenset(), {}, None)
        x = sm.cond.get(((), True), sm.facts)
        if ("all",) in sm.facts:
            ok = True
        else:
            ok = x is UN or ("all",) in x
        ctx.ob("optional", f.sname, ok, f.where, "a package can count as optional although something needs it")
    # extraction
    n = 0
    for f in P.fns.values():
        if f.crate == "node_maintainer" and f.cor and any(c.res.startswith("nassun::package::Package::extract_to_dir") for c in f.calls()):
            Engine(P, Pend(ctx, f, EV)).visit(f, frozenset([("pend",)]), {}, [])
            n += 1
    ctx.floor("pending", 2)
    # place
    targets = set()
    for f in P.fns.values():
        if f.crate == "node_maintainer":
            for c in f.calls():
                if c.res.startswith("nassun::package::Package::extract_to_dir"):
                    for t in one(P, f, sym.sym_op(f, c.args[1])):
                        for x in sym.expand(P, t, 4, pure):
                            targets.add(shape(P, x))
    for f in nm:
        for c in f.calls():
            if c.res == NEW:
                alts = set()
                for t in sym.multi(P, sym.sym_op(f, c.args[0])):
                    for x in sym.expand(P, t, 5, pure):
                        alts |= {shape(P, simp(z)) for y in sym.multi(P, x) for z in sym.expand(P, simp(y), 5, pure)}
                bad = [a for a in alts if a not in targets and a != frozenset([("root", 1)]) and a]
                ctx.ob("place", "directory of the script started in %s" % root(P, f), not bad and targets <= alts, c.where,
                       "packages are put in %s; scripts run in %s" % ([sorted(x) for x in targets], [sorted(x) for x in alts]))
                ev = {x[1] if x[0] == "const" else None for ts in sym.instances(P, P.root_of(f), [sym.sym_op(f, c.args[1])], 5) for x in ts}
                ctx.ob("place", "event of the script started in %s" % root(P, f), ev <= set(EV) and len(ev) > 0 or looped(P, f, c), c.where, "events run: %s" % sorted(map(str, ev)))
    for f in P.fns.values():
        if f.crate == "oro_script":
            for c in f.calls():
                if c.res in ("std::process::Command::arg", "std::process::Command::args", "std::os::windows::process::CommandExt::raw_arg"):
                    t = sym.sym_op(f, c.args[1])
                    if t[0] == "const":
                        continue
                    ok = any(x[0] == "call" and x[1].endswith(("Map::get", "Index::index")) and "scripts" in repr(x[2][0]) and "'event'" in repr(x[2][1]) for x in sym.walk(t))
                    ctx.ob("place", "command line in %s" % root(P, f), ok, c.where, "what the shell runs is not the manifest's script for the event")
                own = None
                if c.res.endswith("BuildManifest::from_path"):
                    own, what = c.args[0], "manifest read in %s"
                elif c.res.endswith("Command::current_dir"):
                    own, what = c.args[1], "directory set in %s"
                if own is not None:
                    t = sym.sym_op(f, own)
                    far = any(x[0] == "fld" and x[2] == "workspace_path" or x[0] == "call" and x[1].rsplit("::", 1)[-1] in ("parent", "ancestors", "current_dir", "with_file_name", "unwrap_or", "unwrap_or_else") for y in sym.multi(P, t) for x in sym.walk(y))
                    ctx.ob("place", what % root(P, f), not far, c.where, "it isn't the one of the directory the package was put in")
    ctx.floor("place", 3)
    # option
    for f in P.fns.values():
        if f.crate in ("orogene", "oro.bin"):
            for c in f.calls():
                if c.res == API:
                    for t in one(P, f, sym.sym_op(f, c.args[1])):
                        neg = 0
                        while t[0] == "un" and t[1] == "Not":
                            t, neg = t[2], neg + 1
                        ok = t[0] == "fld" and t[2] == "scripts" and t[1].endswith("ApplyArgs") and neg % 2 == 1
                        ctx.ob("option", "rebuild in %s" % root(P, f), ok, c.where, "scripts are not switched off by --no-scripts, or not on without it")
    ctx.floor("option", 1)


def looped(P, f, c):
    cs = set()
    for ts in sym.instances(P, P.root_of(f), [sym.sym_op(f, c.args[1])], 5):
        for x in ts:
            if x[0] == "const":
                cs.add(x[1])
            elif x[0] == "call" and x[3].endswith("Iterator::next"):
                cs |= {y[1] for y in sym.walk(x) if y[0] == "const"}
            else:
                return False
    return bool(cs) and cs <= set(EV)


def short(f):
    return f.sname.replace("node_maintainer::linkers::", "")
