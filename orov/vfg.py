"""Whole-program value-flow graph (flow-insensitive, field-based for workspace ADTs).

Nodes
  ('L', fn_id, local)            a local
  ('T', node, i)                 i-th component of a tuple-typed node
  ('U', closure_id, idx)         captured variable of a closure/coroutine
  ('F', adt, field)              a field of a workspace ADT (any instance)
  ('V', node, variant)           payload of a path component variant
  ('K', value)                   a constant (string/number/bool)
  ('N', path)                    a named constant / static
  ('C', fn_id, bb)               result of a foreign call (also source anchor)
Edge labels: "part" (whole to part), "whole" (part to whole), "mutref" (through a mutable
reference), "arith", "test" (into a scalar), "cloret", "err" (into an error), else the Call.
Edges carry the Call they go through (or None) and the argument index.
"""
from collections import defaultdict, deque
from .model import Call, WS, ty_base
from .must import callees, async_bodies, chase_closures

# closure-taking foreign functions where the receiver reaches the result only through the closure
VIA_CLOSURE = {
    "core::option::Option::map", "core::option::Option::and_then", "core::result::Result::map", "core::result::Result::and_then",
    "core::iter::traits::iterator::Iterator::map", "core::iter::traits::iterator::Iterator::filter_map",
    "core::iter::traits::iterator::Iterator::flat_map", "futures_util::stream::stream::StreamExt::map",
    "core::iter::traits::iterator::Iterator::for_each", "core::option::Option::map_or", "core::option::Option::map_or_else",
    "core::option::Option::is_some_and",
}
# closure sees only the error side / nothing of the receiver
CLO_NO_ARG = {"core::option::Option::unwrap_or_else", "core::option::Option::ok_or_else", "core::option::Option::or_else"}
# the closure (or value) only makes an error
ERRISH = {"core::result::Result::map_err", "core::option::Option::ok_or_else", "core::option::Option::ok_or", "miette::eyreish::WrapErr::wrap_err",
          "miette::eyreish::WrapErr::wrap_err_with"}
CLO_ERR = {"core::result::Result::map_err", "core::result::Result::unwrap_or_else", "core::result::Result::or_else"}
# the closure only inspects: its (bool) result is not data
INSPECT = {"core::option::Option::filter", "core::iter::traits::iterator::Iterator::filter", "core::iter::traits::iterator::Iterator::any",
           "core::iter::traits::iterator::Iterator::all", "core::iter::traits::iterator::Iterator::find",
           "core::iter::traits::iterator::Iterator::position"}

SCALAR = {"bool", "()", "!", "core::cmp::Ordering"}
INT = {"usize", "u64", "u32", "u16", "u8", "i64", "i32", "i16", "i8", "u128", "i128", "f64", "f32"}


class Flow(dict):
    """nodes -> predecessor; states: (node, level), level 1 = only inside of a callee"""
    def __init__(self, nodes, states, summ, stop):
        dict.__init__(self, nodes)
        self.states = states
        self.summ = summ
        self.stop = stop
        self.memo = {}


def live(G, flow, node, params):
    """node carries the flow in the current call context: always (level 0), or because one of
    the given parameters of its function does"""
    if (node, 0) in flow.states:
        return True
    if (node, 1) not in flow.states:
        return False
    for p in params:
        if p not in flow.memo:
            flow.memo[p] = G.local_reach(p, flow.summ, flow.stop)
        if node in flow.memo[p]:
            return True
    return False


def live_params(G, flow, call, cf, params):
    """parameters of cf that carry the flow at this call"""
    out = set()
    for c, pin, _ in G.sites.get(cf.id, ()):
        if c.fn is call.fn and c.bb == call.bb:
            for a, b, _ in pin:
                if live(G, flow, a, params):
                    out.add(b)
    return out


class VFG:
    def __init__(self, P):
        self.P = P
        self.out = defaultdict(list)   # node -> [(node, call, argi)]
        self.inn = defaultdict(list)
        self.icall = defaultdict(list)  # node -> [(callee param node, call, argi)]
        self.iret = defaultdict(list)   # callee node -> [(node at the call site, call)]
        self.sites = defaultdict(list)  # callee id -> [(call, {param node: [arg node]}, {out node: [dest node]})]
        self.wsadts = set(P.adts)
        for f in P.fns.values():
            self.build(f)

    def edge(self, a, b, call=None, ai=None):
        if a == b:
            return
        self.out[a].append((b, call, ai))
        self.inn[b].append((a, call, ai))

    def site(self, cf, c, pin, pout):
        for a, b, i in pin:
            self.icall[a].append((b, c, i))
            self.inn[b].append((a, c, i))
        for a, b in pout:
            self.iret[a].append((b, c))
            self.inn[b].append((a, c, None))
        self.sites[cf.id].append((c, pin, pout))

    @staticmethod
    def base(n):
        while n[0] in "TV":
            n = n[1]
        return n

    # -- nodes ----------------------------------------------------------
    def node(self, f, place, write=False):
        """node of a place; also adds the structural edges of its projections"""
        l = place[0]
        cur = ('L', f.id, l)
        proj = place[1:]
        first = True
        variant = None
        for e in proj:
            if e[0] == '@':
                variant = e[1:]
            if e[0] == '*' or e[0] == '@' or e[0] == '[':
                continue
            if e[0] != '.':
                continue
            nm, _, adt = e[1:].partition('#')
            if first and l == 1 and f.kind == "Closure" and not adt:
                nxt = ('U', f.id, nm)
                first = False
                cur = nxt
                continue
            first = False
            if adt in self.wsadts:
                nxt = ('F', adt, nm)
                if write:
                    pass
                else:
                    # the whole tainted -> the part is
                    self.struct_edge(cur, nxt)
                cur = nxt
            elif not adt and nm.isdigit():
                nxt = ('T', cur, int(nm))
                self.struct_edge(cur, nxt)
                cur = nxt
            elif adt == "std::path::Component":
                nxt = ('V', cur, variant)
                self.struct_edge(cur, nxt)
                cur = nxt
            elif variant in ("Err", "Break") and adt.startswith("core::"):
                nxt = ('V', cur, "Err")
                self.struct_edge(cur, nxt, "err")
                cur = nxt
            # other foreign ADT payloads are transparent
        return cur

    def struct_edge(self, a, b, lab="part"):
        for (x, c, ai) in self.out[a]:
            if x == b and c == lab:
                return
        self.out[a].append((b, lab, None))
        self.inn[b].append((a, lab, None))

    def opnode(self, f, o):
        if o[0] in "cm":
            return self.node(f, o[1])
        k = o[1]
        if "v" in k:
            return ('K', k["v"])
        if "def" in k:
            return ('N', k["def"])
        if "fn" in k:
            return ('N', k["fn"].get("r", k["fn"]["d"]))
        return None

    def tuple_arity(self, f, l):
        t = f.lty(l).lstrip("&").replace("mut ", "")
        if t.startswith("(") and not t.startswith("()"):
            d = 0
            n = 1
            for ch in t[1:-1]:
                if ch in "(<[{":
                    d += 1
                elif ch in ")>]}":
                    d -= 1
                elif ch == ',' and d == 0:
                    n += 1
            return n
        return 0

    def move(self, f, src, dst, dst_place):
        if src is None:
            return
        self.edge(src, dst)
        if len(dst_place) == 1:
            n = self.tuple_arity(f, dst_place[0])
            for i in range(n):
                self.edge(('T', src, i), ('T', dst, i))

    def build(self, f):
        P = self.P
        for b in f.rpo():
            bb = f.bbs[b]
            for s in bb["s"]:
                dest, rv = s[0], s[1]
                k = rv[0]
                dn = self.node(f, dest, write=True)
                if k == "use":
                    self.move(f, self.opnode(f, rv[1]), dn, dest)
                elif k == "cast":
                    self.move(f, self.opnode(f, rv[2]), dn, dest)
                elif k == "ref":
                    sn = self.node(f, rv[2])
                    self.move(f, sn, dn, dest)
                    if rv[1] in "mr":
                        # writes through the reference reach the referent
                        self.edge(dn, sn, "mutref")
                elif k == "rep":
                    self.move(f, self.opnode(f, rv[1]), dn, dest)
                elif k in ("bin", "un"):
                    for o in rv[2:]:
                        n = self.opnode(f, o)
                        if n is not None:
                            self.edge(n, dn, "arith")
                elif k == "agg":
                    h = rv[1]
                    if isinstance(h, dict) and "adt" in h and h["adt"] in self.wsadts:
                        for nm, o in zip(h["f"], rv[2]):
                            n = self.opnode(f, o)
                            if n is not None:
                                self.edge(n, ('F', h["adt"], nm))
                                self.edge(n, dn, "whole")
                    elif isinstance(h, dict) and "clo" in h:
                        for i, o in enumerate(rv[2]):
                            n = self.opnode(f, o)
                            if n is not None:
                                self.edge(n, ('U', h["clo"], str(i)))
                                # by-ref captures may be written by the closure
                                if o[0] in "cm":
                                    t = f.lty(o[1][0])
                                    if t.startswith("&mut ") or t.startswith("&'_ mut"):
                                        self.edge(('U', h["clo"], str(i)), n, "mutref")
                        self.edge(('L', h["clo"], 0), dn, "cloret")
                    elif h == "tuple":
                        for i, o in enumerate(rv[2]):
                            n = self.opnode(f, o)
                            if n is not None:
                                self.edge(n, ('T', dn, i))
                                self.edge(n, dn, "whole")
                    else:
                        lab = "err" if isinstance(h, dict) and h.get("v") == "Err" else None
                        for o in rv[2]:
                            n = self.opnode(f, o)
                            if n is not None:
                                self.edge(n, dn, lab)
            t = bb["t"]
            if t[0] == "call":
                self.call(f, f.call_at(b))

    def mut_arg(self, f, o):
        """o is a local of &mut type"""
        if o[0] not in "cm":
            return False
        p = o[1]
        if len(p) != 1:
            return False
        t = f.lty(p[0])
        return t.startswith("&mut ") or (t.startswith("&'") and " mut " in t[:24]) or t.startswith("core::pin::Pin<&mut")

    def call(self, f, c):
        P = self.P
        dn = self.node(f, c.dest, write=True)
        argn = [self.opnode(f, a) for a in c.args]
        cals = callees(P, c)
        for cf in cals:
            pin, pout = [], []
            if cf.kind == "Closure" and not cf.cor and c.decl.startswith("core::ops::function::"):
                # args are a tuple
                if len(argn) > 1 and argn[1] is not None:
                    for i in range(2, cf.argc + 1):
                        pin.append((('T', argn[1], i - 2), ('L', cf.id, i), i - 2))
                pout.append((('L', cf.id, 0), dn))
                if argn and argn[0] is not None:
                    self.edge(argn[0], dn, c, 0)
                self.site(cf, c, pin, pout)
                continue
            for i, n in enumerate(argn):
                if n is not None and i + 1 <= cf.argc:
                    pn = ('L', cf.id, i + 1)
                    pin.append((n, pn, i))
                    k = self.tuple_arity(cf, i + 1)
                    for j in range(k):
                        pin.append((('T', n, j), ('T', pn, j), i))
                    if self.mut_arg(f, c.args[i]):
                        pout.append((pn, n))
            pout.append((('L', cf.id, 0), dn))
            k = self.tuple_arity(cf, 0)
            for j in range(k):
                pout.append((('T', ('L', cf.id, 0), j), ('T', dn, j)))
            self.site(cf, c, pin, pout)
        # async fns: params are captured as upvars of the body by the aggregate, handled there
        clos = []
        cloargs = set()
        for i, a in enumerate(c.args):
            ids = []
            if a[0] in "cm":
                ids = chase_closures(f, a[1])
            elif "clo" in a[1]:
                ids = [a[1]["clo"]]
            elif "fn" in a[1]:
                x = a[1]["fn"].get("ri", a[1]["fn"].get("di"))
                ids = [x] if x in P.fns else []
            for x in ids:
                cf = P.fns.get(x)
                if cf is not None and not cf.cor:
                    clos.append(cf)
                    cloargs.add(i)
        if cals:
            return
        foreign_dst = dn
        dty = f.lty(c.dest[0]) if len(c.dest) == 1 else ""
        via = c.decl in VIA_CLOSURE and clos
        for i, n in enumerate(argn):
            if n is None:
                continue
            if i in cloargs:
                if c.decl in INSPECT:
                    continue
                self.edge(n, dn, "err" if c.decl in ERRISH else c, i)
                continue
            if c.decl == "core::ops::try_trait::FromResidual::from_residual" or (i > 0 and c.decl in ERRISH):
                self.edge(n, dn, "err", i)
                continue
            if not via:
                if dty not in SCALAR:
                    self.edge(n, dn, c, i)
                    k = self.tuple_arity(f, c.args[i][1][0]) if c.args[i][0] in "cm" and len(c.args[i][1]) == 1 else 0
                    for j in range(k):
                        self.edge(('T', n, j), dn, c, i)
                    # pairwise: same tuple shape in and out (identity-like)
                else:
                    self.edge(n, dn, "test")
            # other arguments flow into &mut arguments
            for j, m in enumerate(argn):
                if j != i and m is not None and self.mut_arg(f, c.args[j]) and not c.decl.startswith("core::future::future::Future::poll"):
                    self.edge(n, m, c, i)
        for cf in clos:
            isfn = cf.kind != "Closure"
            start = 1 if isfn else 2
            for i, n in enumerate(argn):
                if n is None or i in cloargs:
                    continue
                if c.decl in CLO_NO_ARG:
                    continue
                lab = "err" if c.decl in CLO_ERR else c
                for p in range(start, cf.argc + 1):
                    self.edge(n, ('L', cf.id, p), lab, i)
                    for j in range(self.tuple_arity(cf, p)):
                        self.edge(('T', n, j), ('T', ('L', cf.id, p), j), lab, i)
            if isfn and c.decl not in INSPECT:
                self.edge(('L', cf.id, 0), dn, c)

    # -- queries ---------------------------------------------------------
    def summaries(self, stop):
        """context-sensitive call summaries: argument node -> [(result node, call)] for flows
        through a callee that stay in locals (closures count as part of their parent)"""
        summ = defaultdict(list)
        have = set()
        todo = deque(self.sites)
        inq = set(todo)
        # functions whose body contains a call to x
        users = defaultdict(set)
        for x, ss in self.sites.items():
            for c, _, _ in ss:
                users[x].add(self.P.root_of(c.fn).id)
                users[x].add(c.fn.id)
        done = {}
        while todo:
            x = todo.popleft()
            inq.discard(x)
            ss = self.sites[x]
            pins = set(b for _, pin, _ in ss for _, b, _ in pin)
            outs = set(a for _, _, po in ss for a, _ in po)
            flows = done.setdefault(x, {})
            new = False
            for p in pins:
                seen = {p}
                st = [p]
                while st:
                    a = st.pop()
                    for lst in (self.out.get(a, ()), summ.get(a, ())):
                        for (b, c, ai) in lst:
                            if b in seen or self.base(b)[0] in "FNK":
                                continue
                            if stop and stop(a, b, c, ai):
                                continue
                            seen.add(b)
                            st.append(b)
                r = (seen & outs) - {p}
                if r - flows.get(p, set()):
                    flows[p] = r
                    new = True
            if not new:
                continue
            for c, pin, po in ss:
                for a, b, i in pin:
                    for r in flows.get(b, ()):
                        for o, d in po:
                            if o == r and (a, d, c.fn.id, c.bb) not in have and a != d:
                                have.add((a, d, c.fn.id, c.bb))
                                summ[a].append((d, c, i))
            for u in users[x]:
                if u in self.sites and u not in inq:
                    inq.add(u)
                    todo.append(u)
        return summ

    def local_reach(self, n, summ, stop):
        """nodes reached from n without leaving the function (and its closures)"""
        seen = {n}
        st = [n]
        while st:
            a = st.pop()
            for lst in (self.out.get(a, ()), summ.get(a, ())):
                for (b, c, ai) in lst:
                    if b in seen or self.base(b)[0] in "FNK" or (stop and stop(a, b, c, ai)):
                        continue
                    seen.add(b)
                    st.append(b)
        return seen

    def forward(self, srcs, stop=None, limit=200000):
        """reachable nodes with a predecessor map; stop(a, b, call, ai) cuts an edge.
        Calls and returns are matched: a value that entered a callee leaves it at the same
        call site, unless it went through a field."""
        summ = self.summaries(stop)
        pred = {}
        q = deque()
        for s in srcs:
            if (s, 0) not in pred:
                pred[(s, 0)] = None
                q.append((s, 0))

        def push(cur, b, lv, c, ai):
            if stop and stop(cur[0], b, c, ai):
                return
            if self.base(b)[0] in "FN":
                lv = 0
            if (b, 0) in pred or (b, lv) in pred:
                return
            pred[(b, lv)] = (cur, c)
            q.append((b, lv))
        while q:
            cur = q.popleft()
            a, lv = cur
            for (b, c, ai) in self.out.get(a, ()):
                push(cur, b, lv, c, ai)
            for (b, c, ai) in summ.get(a, ()):
                push(cur, b, lv, c, ai)
            for (b, c, ai) in self.icall.get(a, ()):
                push(cur, b, 1, c, ai)
            if lv == 0:
                for (b, c) in self.iret.get(a, ()):
                    push(cur, b, 0, c, None)
        out = {}
        for (n, lv), p in pred.items():
            if n not in out or lv == 0:
                out[n] = p
        return Flow(out, pred, summ, stop)

    def backward(self, dsts, stop=None):
        pred = {}
        q = deque()
        for s in dsts:
            if s is not None and s not in pred:
                pred[s] = None
                q.append(s)
        while q:
            b = q.popleft()
            for (a, c, ai) in self.inn.get(b, ()):
                if a in pred:
                    continue
                if stop and stop(a, b, c, ai):
                    continue
                pred[a] = (b, c)
                q.append(a)
        return pred

    def path(self, pred, n):
        out = []
        if isinstance(pred, Flow):
            st = (n, 0) if (n, 0) in pred.states else (n, 1)
            while st is not None:
                out.append(st[0])
                x = pred.states.get(st)
                st = x[0] if x else None
            return out
        while n is not None:
            out.append(n)
            x = pred.get(n)
            n = x[0] if x else None
        return out

    def fmt(self, n):
        P = self.P
        if n[0] == 'L':
            f = P.fns[n[1]]
            v = f.varname.get(n[2])
            if n[2] == 0:
                return "ret(%s)" % f.sname
            return "%s:%s" % (f.sname, v or "_%d" % n[2])
        if n[0] == 'T':
            return "%s.%d" % (self.fmt(n[1]), n[2])
        if n[0] == 'U':
            f = P.fns.get(n[1])
            return "%s:^%s" % (f.sname if f else n[1], f.upvars.get(n[2], n[2]) if f else n[2])
        if n[0] == 'V':
            return "%s@%s" % (self.fmt(n[1]), n[2])
        if n[0] == 'F':
            return "%s.%s" % (n[1], n[2])
        return repr(n[1])
