"""Every element of a collection is handed on: loops without a skipping path, or whole-collection adapters."""
from .must import MustRule, Engine, State, UN
from . import sym

WHOLE = ("for_each", "try_for_each", "fold", "try_fold")


class Each(MustRule):
    """src(term): the iterated collection; target(call): the call every element must reach"""

    def __init__(self, P, top, src, target, skip=None):
        self.P, self.top, self.src, self.target, self.skip = P, top, src, target, skip
        self.skips = []
        self.seen = False
        self.sites = []
        self.ends = []

    def enter(self, f):
        return f.crate == self.top.crate

    def it(self, call):
        if call.decl != "core::iter::traits::iterator::Iterator::next" or not call.args:
            return False
        t = sym.sym_op(call.fn, call.args[0])
        return self.src(t) and not sym.partial(t)

    def sym_fact(self, f, s, val):
        return [("done",)] if self.skip and self.skip(s, val) else []

    def gen(self, c, st, eng):
        if self.target(c):
            return frozenset([("done",)]), {}
        if self.it(c):
            return frozenset(), {((), "None"): frozenset([("all",)])}
        if c.decl.startswith("core::iter::traits::iterator::Iterator::") and c.decl.rsplit("::", 1)[1] in WHOLE:
            t = sym.sym_op(c.fn, c.args[0])
            if self.src(t) and not sym.partial(t):
                ok = False
                for a in c.args[1:]:
                    for cid in eng.closure_of(c.fn, a):
                        g = self.P.fns.get(cid)
                        if g is not None:
                            s = eng.visit(g, frozenset(), {}, None)
                            self.seen = True
                            ok = ("done",) in s.facts
                if ok:
                    return frozenset([("all",)]), {}
        return frozenset(), {}

    def kill(self, f, c, st):
        if self.it(c):
            return frozenset(x for x in st.facts if x != ("done",))
        return st.facts

    def check(self, c, st, ch, eng):
        if self.it(c):
            self.seen = True
            if ("done",) not in st.facts:
                self.skips.append(c.where)
        if self.target(c):
            self.sites.append((c, ("all",) in st.facts))

    def exit(self, f, st, ch, eng):
        if f.id == self.top.id:
            x = st.look(0, (), "Ok") if "Result" in f.lty(0) else st.facts
            if x is not UN:
                self.ends.append(("all",) in x)


def each(P, top, src, target, skip=None):
    """(every element reaches the target on every path that ends well, where it is skipped);
    skip(term, value): branch outcomes for which an element may be left out"""
    r = Each(P, top, src, target, skip)
    Engine(P, r).visit(top, frozenset([("done",)]), {}, [])
    return (not r.skips and bool(r.ends) and all(r.ends)), r.skips or ([top.where] if not (r.ends and all(r.ends)) else [])
