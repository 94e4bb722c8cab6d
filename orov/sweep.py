"""Every element of the tracked loops (for, while let, stream and iterator adapters) is dealt with: must-facts per element.

A loop is a call of `next` (or `pop`) on an iterator/stream of a tracked type; an adapter closure is one that takes an element
of a tracked type and does not hand it on.  ("done", e): the current element of e was dealt with; ("all", e): every
element of e was.  Reported through bad(): an element that may be passed over."""
from .must import MustRule, UN
from . import sym

NEXT = ("core::iter::traits::iterator::Iterator::next", "core::iter::traits::double_ended::DoubleEndedIterator::next_back",
        "futures_util::stream::stream::StreamExt::next", "futures_util::stream::try_stream::TryStreamExt::try_next",
        "async_std::stream::stream::StreamExt::next", "alloc::vec::Vec::pop", "alloc::collections::binary_heap::BinaryHeap::pop",
        "alloc::collections::vec_deque::VecDeque::pop_front", "alloc::collections::vec_deque::VecDeque::pop_back")
FINAL = ("for_each", "try_for_each", "for_each_concurrent", "try_for_each_concurrent", "fold", "try_fold")


class Sweep(MustRule):
    """overrides: tracked(c, term) for next calls and final adapters' receivers, per(f) -> index of the element parameter
    of an adapter closure (or None), dealt(f, c): element the call deals with once it went well, spared(f, s, val): facts"""

    def __init__(self, P, fns):
        self.P = P
        self.fns = fns
        self.loops = {}
        self.pers = {}
        for f in fns:
            for c in f.calls():
                if c.decl in NEXT and c.args:
                    t = sym.sym_op(f, c.args[0])
                    if self.tracked(c, t):
                        self.loops[(f.id, c.bb)] = self.key(t)
            i = self.per(f)
            if i is not None:
                self.pers[f.id] = i
        self.nums = {}
        for e in list(self.loops.values()) + [("clo", i) for i in self.pers]:
            self.nums.setdefault(e, len(self.nums))
        self.hit = set()

    def key(self, t):
        return ("next", str(t))

    def start(self):
        fs = set()
        for e in set(self.loops.values()):
            fs |= {("done", self.nums[e]), ("all", self.nums[e])}
        return frozenset(fs)

    def enter(self, f):
        return f.crate == "node_maintainer"

    # -- elements
    def elem(self, t):
        """the tracked element a term was made from (outermost), and the sub-term that is the element"""
        for x in sym.walk(t):
            if x[0] == "call" and x[3] in NEXT and x[2]:
                k = self.key(x[2][0])
                if k in self.nums:
                    return k, x
            if x[0] == "arg" and x[1] in self.pers and x[2] == self.pers[x[1]]:
                return ("clo", x[1]), x
        return None, None

    def elems(self, f, t):
        """elements in a term, through the parameters of helpers"""
        out = {}
        self.up(t, 4, out)
        return out

    def up(self, t, depth, out):
        e, x = self.elem(t)
        if e is not None:
            out.setdefault(e, t)
        elif depth:
            g = next((y[1] for y in sym.walk(t) if y[0] == "arg" and y[1] in self.P.fns), None)
            if g is not None:
                for ts in sym.instances(self.P, self.P.fns[g], [t], 1):
                    if ts[0] != t:
                        self.up(ts[0], depth - 1, out)

    def partial(self, t):
        """elements are left out by an adapter (of this iterator, not of one its source came from)"""
        e, x = self.elem(t)
        return sym.partial(sym.repl(t, x, ("elem",)) if x is not None else t)

    def num(self, e):
        return self.nums[e]

    # -- hooks
    def tracked(self, c, t):
        return False

    def per(self, f):
        return None

    def dealt(self, f, c):
        return {}

    def spared(self, f, s, val):
        return frozenset()

    def more(self, c):
        return frozenset()

    def derive(self, facts):
        return facts

    def bad(self, f, e, where, why, ch):
        pass

    # -- engine
    def sym_fact(self, f, s, val):
        if val == "None":
            x = s[1] if s[0] == "await" else s
            if x[0] == "call" and x[3] in NEXT and x[2]:
                k = self.key(x[2][0])
                if k in self.nums:
                    n = self.nums[k]
                    return {("all", n), ("done", n)} | (set() if self.partial(x[2][0]) else set(self.swept(f, x[2][0])))
        return self.spared(f, s, val)

    def it(self, c):
        return self.loops.get((c.fn.id, c.bb))

    def final(self, c):
        return c.decl.rsplit("::", 1)[-1] in FINAL and bool(c.args)

    def whole(self, c, st, eng, aw):
        """facts once the adapter call (or its await) went well"""
        if not self.final(c):
            return frozenset()
        t = sym.sym_op(c.fn, c.args[0])
        if self.tracked(c, t) and not self.partial(t):
            return frozenset(self.swept(c.fn, t))
        return frozenset()

    def swept(self, f, t):
        return [("swept", str(t))]

    def _gen(self, c, st, eng, aw):
        g, w = set(), {}
        for e in self.dealt(c.fn, c):
            w.setdefault(((), "Ok"), set()).add(("done", self.nums[e]))
        x = self.whole(c, st, eng, aw)
        if x:
            w.setdefault(((), "Ok"), set()).update(x)
        m = self.more(c)
        if m:
            w.setdefault(((), "Ok"), set()).update(m)
        return frozenset(g), {k: frozenset(v) for k, v in w.items()}

    def gen(self, c, st, eng):
        return self._gen(c, st, eng, False)

    def gen_await(self, c, st, eng):
        return self._gen(c, st, eng, True)

    def kill(self, f, c, st):
        e = self.it(c)
        if e is not None:
            n = self.nums[e]
            return frozenset(x for x in st.facts if not (x[0] in ("done", "all", "spare") and x[1] == n))
        return st.facts

    def check(self, c, st, ch, eng):
        e = self.it(c)
        if e is not None:
            self.hit.add(e)
            self.bad(c.fn, e, c.where, "done", ch) if ("done", self.nums[e]) not in st.facts else self.good(c.fn, e, c.where, ch)

    def good(self, f, e, where, ch):
        pass

    def exit(self, f, st, ch, eng):
        isres = "Result" in (f.lty(0) or "")
        x = st.look(0, (), "Ok") if isres else st.facts
        if x is UN:
            return
        for (fid, bb), e in self.loops.items():
            if fid == f.id:
                self.bad(f, e, f.where, "all", ch) if ("all", self.nums[e]) not in x else self.good(f, e, f.where, ch)
        top = f if f.id in self.pers else self.P.fns.get(f.parent) if f.cor else None
        if top is not None and top.id in self.pers and (f.cor or not any(c.cor for c in top.children)):
            e = ("clo", top.id)
            self.hit.add(e)
            self.bad(f, e, f.where, "done", ch) if ("done", self.nums[e]) not in x else self.good(f, e, f.where, ch)
        self.end(f, x, ch)

    def end(self, f, x, ch):
        pass
