"""Context-sensitive interprocedural must-facts analysis with conditional facts.

A *fact* is a tuple.  A state maps every program point to the set of facts that
hold on every path reaching it, plus, for locals holding booleans or enums, the
facts that hold when the local has a given value.  That makes `if a && b`,
`match`, `?`, early returns and boolean helpers (inlined or extracted) look alike.
Helpers are entered with the caller's facts (one context per distinct fact set).

Rules subclass MustRule.
"""
from collections import deque
from .model import Call, strip_generics

UN = None  # unreachable


def meet(a, b):
    if a is UN:
        return b
    if b is UN:
        return a
    return a & b


def clean(proj):
    """projection list -> path without derefs and adt marks"""
    return tuple(e.split('#')[0] for e in proj if e != '*' and not e.startswith('['))


class State:
    __slots__ = ("facts", "cond")

    def __init__(self, facts=frozenset(), cond=None):
        self.facts = facts
        self.cond = cond or {}

    def copy(self):
        return State(self.facts, dict(self.cond))

    def look(self, local, path, val):
        """facts known if place local.path has value/variant val"""
        c = self.cond.get(local)
        if c is None:
            return self.facts
        poss = c.get((path, '='))
        if poss is not None and val not in poss:
            return UN
        x = c.get((path, val), False)
        if x is False:
            return UN if len(path) and self.dead(local, path) else self.facts
        if x is UN:
            return UN
        return x | self.facts

    def dead(self, local, path):
        """is there nothing at the path, because the variant it belongs to is not the one?"""
        c = self.cond.get(local)
        if not c:
            return False
        for i, e in enumerate(path):
            if e[0] == "@":
                poss = c.get((path[:i], '='))
                if poss is not None and e[1:] not in poss or c.get((path[:i], e[1:]), False) is UN:
                    return True
        return False

    def __eq__(self, o):
        return self.facts == o.facts and self.cond == o.cond


def join(a, b):
    if a is None:
        return b
    if b is None:
        return a
    facts = a.facts & b.facts
    cond = {}
    for l in a.cond.keys() | b.cond.keys():
        ca = a.cond.get(l)
        cb = b.cond.get(l)
        if ca is cb or ca == cb:
            cond[l] = ca
            continue
        if ca is None or cb is None:
            # untouched on one side: nothing known there
            ca = ca or {}
            cb = cb or {}
        out = {}
        for k in ca.keys() | cb.keys():
            if k[1] == '=':
                if k in ca and k in cb:
                    out[k] = ca[k] | cb[k]
                    for v in out[k]:
                        m = meet(a.look(l, k[0], v), b.look(l, k[0], v))
                        if m is UN or m != facts:
                            out[(k[0], v)] = m
                elif (b if k in ca else a).dead(l, k[0]):
                    out[k] = ca[k] if k in ca else cb[k]
                    for v in out[k]:
                        m = meet(a.look(l, k[0], v), b.look(l, k[0], v))
                        if m is UN or m != facts:
                            out[(k[0], v)] = m
            else:
                va = a.look(l, k[0], k[1])
                vb = b.look(l, k[0], k[1])
                m = meet(va, vb)
                if m is UN or m != facts:
                    out[k] = m
        # keys implied by '=' on one side only
        for k in list(ca.keys()) + list(cb.keys()):
            if k[1] == '=' and not (k in ca and k in cb) and k not in out:
                src, oth = (a, b) if k in ca else (b, a)
                # variants other than the possible ones keep the other side's facts
                known = set(x[1] for x in list(ca) + list(cb) if x[0] == k[0] and x[1] != '=')
                poss = (ca.get(k) or cb.get(k))
                for v in STDVARS:
                    if any(p in v for p in poss):
                        for vv in v:
                            if vv not in known:
                                m = meet(src.look(l, k[0], vv), oth.look(l, k[0], vv))
                                if m is UN or m != facts:
                                    out[(k[0], vv)] = m
        if out:
            cond[l] = out
    return State(facts, cond)


STDVARS = [("Ok", "Err"), ("Some", "None"), ("Continue", "Break"), ("Ready", "Pending"), (True, False)]

# foreign combinators: map of (variant/payload prefix in receiver) -> result
OKS = {
    "core::result::Result::map_err": {"Ok": "Ok", "Err": "Err"},
    "core::result::Result::ok": {"Ok": "Some", "Err": "None"},
    "core::result::Result::err": {"Ok": "None", "Err": "Some"},
    "core::result::Result::inspect": {"Ok": "Ok", "Err": "Err"},
    "core::result::Result::inspect_err": {"Ok": "Ok", "Err": "Err"},
    "core::result::Result::as_ref": {"Ok": "Ok", "Err": "Err"},
    "core::result::Result::as_mut": {"Ok": "Ok", "Err": "Err"},
    "core::result::Result::as_deref": {"Ok": "Ok", "Err": "Err"},
    "core::option::Option::ok_or": {"Some": "Ok", "None": "Err"},
    "core::option::Option::ok_or_else": {"Some": "Ok", "None": "Err"},
    "core::option::Option::as_ref": {"Some": "Some", "None": "None"},
    "core::option::Option::as_mut": {"Some": "Some", "None": "None"},
    "core::option::Option::as_deref": {"Some": "Some", "None": "None"},
    "core::option::Option::as_deref_mut": {"Some": "Some", "None": "None"},
    "core::option::Option::cloned": {"Some": "Some", "None": "None"},
    "core::option::Option::copied": {"Some": "Some", "None": "None"},
    "core::clone::Clone::clone": {"Some": "Some", "None": "None", "Ok": "Ok", "Err": "Err"},
    "core::option::Option::inspect": {"Some": "Some", "None": "None"},
    "core::ops::try_trait::Try::branch": {"Ok": "Continue", "Err": "Break", "Some": "Continue", "None": "Break"},
    "miette::IntoDiagnostic::into_diagnostic": {"Ok": "Ok", "Err": "Err"},
    "miette::eyreish::into_diagnostic::IntoDiagnostic::into_diagnostic": {"Ok": "Ok", "Err": "Err"},
    "miette::WrapErr::wrap_err": {"Ok": "Ok", "Err": "Err"},
    "miette::eyreish::WrapErr::wrap_err": {"Ok": "Ok", "Err": "Err"},
    "miette::eyreish::WrapErr::wrap_err_with": {"Ok": "Ok", "Err": "Err"},
    "miette::eyreish::WrapErr::context": {"Ok": "Ok", "Err": "Err"},
    "miette::eyreish::WrapErr::with_context": {"Ok": "Ok", "Err": "Err"},
    "core::ops::deref::Deref::deref": {"Some": "Some", "None": "None", "Ok": "Ok", "Err": "Err"},
    "core::convert::Into::into": {"Some": "Some", "None": "None"},
    "core::borrow::Borrow::borrow": {"Some": "Some", "None": "None"},
}
PAY = {"Ok": "@Ok", "Some": "@Some", "Err": "@Err", "Continue": "@Continue", "Break": "@Break"}
TESTS = {
    "core::result::Result::is_ok": {True: "Ok", False: "Err"},
    "core::result::Result::is_err": {True: "Err", False: "Ok"},
    "core::option::Option::is_some": {True: "Some", False: "None"},
    "core::option::Option::is_none": {True: "None", False: "Some"},
}
UNWRAPS = {
    "core::result::Result::unwrap": "Ok", "core::result::Result::expect": "Ok",
    "core::option::Option::unwrap": "Some", "core::option::Option::expect": "Some",
    "core::result::Result::unwrap_err": "Err",
}
# closure argument runs only when the receiver has this variant; value of result if closure's result...
CLO_WHEN = {
    "core::option::Option::map": "Some", "core::option::Option::and_then": "Some", "core::option::Option::filter": "Some",
    "core::option::Option::is_some_and": "Some", "core::option::Option::unwrap_or_else": "None",
    "core::option::Option::or_else": "None", "core::option::Option::ok_or_else": "None", "core::option::Option::map_or": "Some",
    "core::result::Result::map": "Ok", "core::result::Result::and_then": "Ok", "core::result::Result::map_err": "Err",
    "core::result::Result::or_else": "Err", "core::result::Result::unwrap_or_else": "Err", "core::result::Result::is_ok_and": "Ok",
    "core::bool::then": True,
}
CLO_THEN = {  # result variant that implies receiver variant and closure result variant (None: any)
    "core::option::Option::map": [("Some", "Some", None)],
    "core::option::Option::and_then": [("Some", "Some", "Some")],
    "core::option::Option::filter": [("Some", "Some", True)],
    "core::option::Option::is_some_and": [(True, "Some", True)],
    "core::result::Result::map": [("Ok", "Ok", None)],
    "core::result::Result::and_then": [("Ok", "Ok", "Ok")],
    "core::result::Result::is_ok_and": [(True, "Ok", True)],
}
CLO_ELSE = {  # the result has the variant because the receiver had it, or because the closure's result has it
    "core::option::Option::or_else": ("Some", "None"),
    "core::result::Result::or_else": ("Ok", "Err"),
}
RUNS_CLOSURE_ONCE = {  # call completes (or its await completes) only after the closure ran; result is the closure's result
    "async_std::task::spawn_blocking::spawn_blocking", "tracing::span::Span::in_scope",
}


class Summary:
    __slots__ = ("facts", "cond", "diverges")

    def __init__(self, facts=frozenset(), cond=None, diverges=False):
        self.facts = facts
        self.cond = cond or {}
        self.diverges = diverges


class MustRule:
    """override these"""

    def relevant(self, fact):
        return True

    def gen(self, call, st, eng):
        """facts that hold after the call returned, and conditional ones:
        returns (facts, {(path, val): facts})"""
        return frozenset(), {}

    def sym_fact(self, f, sym, val):
        """facts that hold when the boolean/enum expression sym has value val"""
        return frozenset()

    def check(self, call, st, chain, eng):
        pass

    def check_stmt(self, f, b, i, stmt, st, chain, eng):
        pass

    def enter(self, fn):
        return True

    def exit(self, f, st, chain, eng):
        pass


class Engine:
    def __init__(self, prog, rule):
        self.P = prog
        self.rule = rule
        self.memo = {}
        self.inprog = set()
        self.reported = set()
        self.visited = set()
        self.states = {}
        self.has_gs = hasattr(rule, "gen_stmt")
        self.has_ctx = hasattr(rule, "ctx_facts")
        self.derive = getattr(rule, "derive", None)

    # -- helpers ------------------------------------------------------------
    def filt(self, fs):
        return frozenset(x for x in fs if self.rule.relevant(x))

    def sub_cond(self, st, local, path):
        c = st.cond.get(local)
        if not c:
            return {}
        n = len(path)
        return {(k[0][n:], k[1]): v for k, v in c.items() if k[0][:n] == path}

    def place_cond(self, f, st, place):
        path = clean(place[1:])
        out = dict(self.sub_cond(st, place[0], path))
        return out

    def bool_sym(self, f, st, place_or_op, out):
        """add rule facts for a boolean valued expression"""
        from .sym import sym_place
        s = sym_place(f, place_or_op)
        for v in (True, False):
            fs = self.filt(self.rule.sym_fact(f, s, v))
            if fs:
                cur = out.get(((), v), st.facts)
                if cur is not UN:
                    out[((), v)] = cur | fs | st.facts
        return out

    def op_cond(self, f, st, o):
        if o[0] in "cm":
            out = self.place_cond(f, st, o[1])
            return out
        k = o[1]
        if isinstance(k.get("v"), bool):
            return {((), '='): frozenset([k["v"]])}
        return {}

    def set_place(self, f, st, place, newc):
        l = place[0]
        path = clean(place[1:])
        old = st.cond.get(l, {})
        if path == () and len(place) == 1:
            c = newc
        else:
            n = len(path)
            c = {k: v for k, v in old.items() if k[0][:n] != path}
            for k, v in newc.items():
                c[(path + k[0], k[1])] = v
        if c:
            st.cond[l] = c
        else:
            st.cond.pop(l, None)

    # -- transfer --------------------------------------------------------
    def stmt(self, f, st, s, discr):
        dest, rv = s[0], s[1]
        k = rv[0]
        newc = {}
        if k == "use" or k == "cast":
            o = rv[1] if k == "use" else rv[2]
            newc = self.op_cond(f, st, o)
            if o[0] in "cm" and len(dest) == 1 and f.lty(dest[0]) == "bool" and not newc:
                newc = self.bool_sym(f, st, o[1], {})
        elif k == "ref":
            newc = self.place_cond(f, st, rv[2])
        elif k == "un" and rv[1] == "Not":
            c = self.op_cond(f, st, rv[2])
            if rv[2][0] in "cm" and not any(x[0] == () for x in c):
                c = self.bool_sym(f, st, rv[2][1], dict(c))
            for (p, v), fs in c.items():
                if p == ():
                    if v == '=':
                        newc[(p, v)] = frozenset(not x for x in fs if isinstance(x, bool))
                    elif isinstance(v, bool):
                        newc[(p, not v)] = fs
        elif k == "bin":
            # comparisons with a boolean constant; others via symbols
            for a, b in ((rv[2], rv[3]), (rv[3], rv[2])):
                if b[0] == "k" and isinstance(b[1].get("v"), bool) and rv[1] in ("Eq", "Ne"):
                    c = self.op_cond(f, st, a)
                    want = b[1]["v"]
                    for v in (True, False):
                        if ((), v) in c:
                            r = (v == want) if rv[1] == "Eq" else (v != want)
                            newc[((), r)] = c[((), v)]
                    if ((), '=') in c:
                        newc[((), '=')] = frozenset(((v == want) if rv[1] == "Eq" else (v != want)) for v in c[((), '=')])
            if not newc and len(dest) == 1 and f.lty(dest[0]) == "bool":
                from .sym import sym_rv
                sy = sym_rv(f, rv)
                for v in (True, False):
                    fs = self.filt(self.rule.sym_fact(f, sy, v))
                    if fs:
                        newc[((), v)] = st.facts | fs
                if rv[1] in ("BitAnd", "BitOr"):
                    ca, cb = self.op_cond(f, st, rv[2]), self.op_cond(f, st, rv[3])
                    want = rv[1] == "BitAnd"
                    fs = frozenset()
                    for c in (ca, cb):
                        x = c.get(((), want))
                        if x:
                            fs |= x
                    if fs:
                        newc[((), want)] = st.facts | fs
        elif k == "agg":
            h = rv[1]
            if isinstance(h, dict) and "adt" in h:
                adt = h["adt"]
                isenum = not (adt.endswith("::" + h["v"]))
                pre = ("@" + h["v"],) if isenum else ()
                if isenum:
                    newc[((), '=')] = frozenset([h["v"]])
                for nm, o in zip(h["f"], rv[2]):
                    for kk, v in self.op_cond(f, st, o).items():
                        newc[(pre + ("." + nm,) + kk[0], kk[1])] = v
            else:
                for i, o in enumerate(rv[2]):
                    for kk, v in self.op_cond(f, st, o).items():
                        newc[((".%d" % i,) + kk[0], kk[1])] = v
        elif k == "discr":
            discr[dest[0]] = (rv[1], rv[3])
        newc = {k: v for k, v in newc.items() if len(k[0]) <= 8}
        self.set_place(f, st, dest, newc)

    def closure_of(self, f, o):
        """closure/coroutine ids an operand may hold (intra-procedural chase)"""
        if o[0] == "k":
            k = o[1]
            if "clo" in k:
                return [k["clo"]]
            if "fn" in k:
                i = k["fn"].get("ri", k["fn"].get("di"))
                return [i] if i in self.P.fns else []
            return []
        return chase_closures(f, o[1])

    def callees(self, call):
        return callees(self.P, call)

    def stable(self, facts):
        """facts a callee cannot take away"""
        v = getattr(self.rule, "volatile", None)
        return frozenset(x for x in facts if x[0] not in v) if v else facts

    def ctxin(self, call, cf, st):
        """facts at the callee's entry: facts ("ctx", ...) describe the arguments of this call"""
        if self.has_ctx and cf.crate:
            return frozenset(x for x in st.facts if x[0] != "ctx") | self.rule.ctx_facts(call, cf, st)
        return st.facts

    def ctxout(self, s):
        if self.has_ctx:
            return Summary(noctx(s.facts), {k: (v if v is UN or k[1] == '=' else noctx(v)) for k, v in s.cond.items()}, s.diverges)
        return s

    def argcond_for(self, callee, conds, facts):
        """context conds for callee params; params are locals 1..n"""
        out = {}
        for i, c in enumerate(conds):
            c2 = {}
            for k, v in c.items():
                if k[1] == '=' or v is UN or not (v <= facts):
                    c2[k] = v
            if c2:
                out[i + 1] = c2
        return out

    def call_effect(self, f, st, call, report=None):
        """returns (facts_after or UN, retcond)"""
        P = self.P
        rule = self.rule
        facts = st.facts
        retc = {}
        gf, gc = rule.gen(call, st, self)
        gf = self.filt(gf)
        # workspace callees
        cals = [c for c in self.callees(call)]
        argc = [self.op_cond(f, st, a) for a in call.args]
        clos = []
        for a in call.args:
            for cid in self.closure_of(f, a):
                cf = P.fns.get(cid)
                if cf is not None:
                    clos.append((cf, a))
        decl = call.decl
        n = call.res
        sums = []
        for cf in cals:
            if not rule.enter(cf):
                sums.append(Summary(facts))
                continue
            cin = self.ctxin(call, cf, st)
            sums.append(self.ctxout(self.visit(cf, cin, self.argcond_for(cf, argc, cin), report)))
        if cals:
            live = [s for s in sums if not s.diverges]
            if not live and all(self.P.fns[c.id] for c in cals) and all(s.diverges for s in sums):
                facts_after = UN
            else:
                gained = None
                for s in live:
                    gained = s.facts if gained is None else (gained & s.facts)
                facts = self.stable(facts)
                facts_after = facts | (gained or frozenset())
                keys = set()
                for s in live:
                    keys |= set(s.cond)
                for k in keys:
                    if k[1] == '=':
                        if all(k in s.cond for s in live):
                            retc[k] = frozenset().union(*[s.cond[k] for s in live])
                    else:
                        m = UN
                        for s in live:
                            m = meet(m, State(facts | s.facts, {0: s.cond}).look(0, k[0], k[1]))
                        retc[k] = m
        else:
            facts_after = facts
            if call.target < 0:
                facts_after = UN
        # closures passed to foreign (or workspace) code
        closum = {}
        for cf, a in clos:
            if any(cf is c for c in cals):
                continue
            when = CLO_WHEN.get(n) or CLO_WHEN.get(decl)
            cfacts = facts
            if when is not None and call.args and call.args[0] is not a:
                x = self.cond_value(f, st, call.args[0], when)
                cfacts = x
            if cfacts is UN:
                continue
            if hasattr(rule, "clo_in"):
                cfacts = rule.clo_in(call, cfacts)
            # captured conditions
            cap = {}
            if a[0] in "cm":
                pc = self.place_cond(f, st, a[1])
                if pc:
                    cap = {1: {k: v for k, v in pc.items() if k[1] == '=' or v is UN or not (v <= cfacts)}}
                    if not cap[1]:
                        cap = {}
            # payload of the receiver becomes the closure's argument
            if when in PAY and call.args and call.args[0] is not a and call.args[0][0] in "cm":
                rc = self.op_cond(f, st, call.args[0])
                pay = {}
                for (p, v), fs in rc.items():
                    if p[:2] == (PAY[when], ".0"):
                        pay[(p[2:], v)] = fs
                if pay:
                    cap[2] = pay
            if rule.enter(cf):
                closum[cf.id] = self.visit(cf, cfacts, cap, report)
        # built-in transfer
        if not cals:
            if n in RUNS_CLOSURE_ONCE or decl in RUNS_CLOSURE_ONCE:
                for cid, s in closum.items():
                    facts_after2 = s.facts | facts
                    if n.endswith("spawn_blocking"):
                        # future of the closure's result: recorded as payload of Ready at poll
                        for k, v in s.cond.items():
                            retc[(("@fut",) + k[0], k[1])] = v if (v is UN or k[1] == '=') else v | s.facts
                        retc[(("@fut",), '#')] = facts_after2
                    else:
                        facts_after = facts_after2
                        retc.update(s.cond)
            if decl == "core::ops::try_trait::FromResidual::from_residual" and call.dest:
                dt = f.lty(call.dest[0])
                if dt.startswith("core::result::Result"):
                    retc[((), '=')] = frozenset(["Err"])
                elif dt.startswith("core::option::Option"):
                    retc[((), '=')] = frozenset(["None"])
                elif dt.startswith("core::task::poll::Poll<core::result::Result"):
                    retc[(("@Ready", ".0"), '=')] = frozenset(["Err"])
                    retc[((), '=')] = frozenset(["Ready"])
            m = OKS.get(decl) or OKS.get(n)
            if m and call.args and call.args[0][0] in "cm":
                rc = self.op_cond(f, st, call.args[0])
                for (p, v), fs in rc.items():
                    if p == ():
                        if v == '=':
                            s2 = frozenset(m[x] for x in fs if x in m)
                            if s2 and all(x in m for x in fs):
                                retc[((), '=')] = s2
                        elif v in m:
                            retc[((), m[v])] = fs
                    elif p[0].startswith("@") and p[0][1:] in m and (m[p[0][1:]] in PAY):
                        retc[((PAY[m[p[0][1:]]],) + p[1:], v)] = fs
                    elif p[0] == "@fut":
                        retc[(p, v)] = fs
            t = TESTS.get(decl) or TESTS.get(n)
            if t and call.args:
                for b, var in t.items():
                    x = self.cond_value(f, st, call.args[0], var)
                    retc[((), b)] = x
            u = UNWRAPS.get(decl) or UNWRAPS.get(n)
            if u and call.args:
                x = self.cond_value(f, st, call.args[0], u)
                if x is UN:
                    facts_after = UN
                else:
                    facts_after = facts_after | x if facts_after is not UN else UN
                    for (p, v), fs in self.op_cond(f, st, call.args[0]).items():
                        if len(p) >= 2 and p[0] == PAY[u]:
                            retc[(p[2:], v)] = fs
            ct = CLO_THEN.get(decl) or CLO_THEN.get(n)
            if ct and call.args:
                for rv, recv, cres in ct:
                    x = self.cond_value(f, st, call.args[0], recv)
                    if x is UN:
                        retc[((), rv)] = UN
                    else:
                        for cid, s in closum.items():
                            x = x | s.facts
                            if cres is not None:
                                y = State(s.facts | x, {0: s.cond}).look(0, (), cres)
                                x = UN if y is UN else x | y
                            else:
                                for k, v in s.cond.items():
                                    retc[((PAY[rv], ".0") + k[0], k[1])] = v
                            if x is UN:
                                break
                        retc[((), rv)] = x
            ce = CLO_ELSE.get(decl) or CLO_ELSE.get(n)
            if ce and call.args:
                a = self.cond_value(f, st, call.args[0], ce[0])
                o = self.cond_value(f, st, call.args[0], ce[1])
                if o is not UN:
                    cs = list(closum.values())
                    o = State(cs[0].facts | o, {0: cs[0].cond}).look(0, (), ce[0]) if len(cs) == 1 else o
                retc[((), ce[0])] = meet(a, o)
                b = self.cond_value(f, st, call.args[0], ce[1])
                if b is not UN:
                    cs = list(closum.values())
                    b = State(cs[0].facts | b, {0: cs[0].cond}).look(0, (), ce[1]) if len(cs) == 1 else b
                retc[((), ce[1])] = b
            if decl == "core::future::into_future::IntoFuture::into_future" or decl in (
                    "core::pin::Pin::new_unchecked", "core::pin::Pin::new", "alloc::boxed::Box::pin", "core::ops::deref::DerefMut::deref_mut",
                    "core::pin::Pin::as_mut"):
                if call.args:
                    retc.update(self.op_cond(f, st, call.args[0]))
            if decl == "core::future::future::Future::poll":
                s = self.poll(f, st, call, report)
                if s is not None:
                    fs, sc = s
                    retc[((), 'Ready')] = fs
                    if facts_after is not UN and self.stable(facts_after) != facts_after:
                        # what the future did is not known as long as it is pending
                        retc[((), 'Pending')] = st.facts
                        facts_after = self.stable(facts_after)
                    for k, v in sc.items():
                        if k[1] != '=' and v is not UN:
                            v = v | fs
                        retc[(("@Ready", ".0") + k[0], k[1])] = v
        if facts_after is not UN:
            facts_after = facts_after | gf
            if closum and hasattr(rule, "gen_closures"):
                for k, v in rule.gen_closures(call, st, closum, self).items():
                    gc[k] = gc.get(k, frozenset()) | v
        if facts_after is not UN:
            for k, v in gc.items():
                v = self.filt(v)
                if k[1] == '=' or not v:
                    continue
                cur = retc.get(k, facts_after)
                if cur is not UN:
                    retc[k] = cur | v
            # symbolic facts on boolean results
            if call.dest and len(call.dest) == 1 and f.lty(call.dest[0]) == "bool":
                from .sym import sym_call
                sy = sym_call(f, call)
                for v in (True, False):
                    fs = self.filt(rule.sym_fact(f, sy, v))
                    if fs:
                        cur = retc.get(((), v), facts_after)
                        if cur is not UN:
                            retc[((), v)] = cur | fs | facts_after
        self.gc = gc
        return facts_after, retc

    def cond_value(self, f, st, o, val):
        """facts if operand has value val, including symbolic ones; UN if impossible"""
        c = self.op_cond(f, st, o)
        x = State(st.facts, {0: c}).look(0, (), val)
        if x is UN:
            return UN
        if o[0] in "cm":
            from .sym import sym_place
            x = x | self.filt(self.rule.sym_fact(f, sym_place(f, o[1]), val))
        return x

    def poll(self, f, st, call, report):
        """summary of awaiting a future, or None"""
        from .sym import awaited
        kind, val = awaited(f, call)
        if kind == "call":
            c = val
            futs = []
            for cf in self.callees(c):
                futs += async_bodies(self.P, cf)
            if not futs:
                # a closure's future passed through the state (spawn_blocking)
                pc = self.op_cond(f, st, call.args[0]) if call.args else {}
                out = {}
                base = pc.get((("@fut",), '#'))
                if base is not None:
                    for (p, v), fs in pc.items():
                        if p[:1] == ("@fut",) and v != '#':
                            out[(p[1:], v)] = fs
                    return base | st.facts, out
                gf, gc = self.rule.gen_await(c, st, self) if hasattr(self.rule, "gen_await") else (frozenset(), {})
                if gf or gc:
                    return st.facts | self.filt(gf), {k: st.facts | self.filt(v) for k, v in gc.items()}
                return None
            sums = []
            for b in futs:
                if not self.rule.enter(b):
                    sums.append(Summary(st.facts))
                    continue
                # argument conditions: params of the async fn are upvars of its body
                cap = {}
                if len(futs) == 1 and c.fn is f:
                    u = {}
                    for i, a in enumerate(c.args):
                        for k, v in self.op_cond(f, st, a).items():
                            if k[1] == '=' or v is UN or not (v <= st.facts):
                                u[((".%d" % i,) + k[0], k[1])] = v
                    if u and b.cor and 'Fn' in b.cor:
                        cap = {1: u}
                sums.append(self.ctxout(self.visit(b, self.ctxin(c, b, st), cap, None)))
            live = [s for s in sums if not s.diverges]
            gained = None
            for s in live:
                gained = s.facts if gained is None else gained & s.facts
            retc = {}
            keys = set()
            for s in live:
                keys |= set(s.cond)
            for k in keys:
                if k[1] == '=':
                    if all(k in s.cond for s in live):
                        retc[k] = frozenset().union(*[s.cond[k] for s in live])
                else:
                    m = UN
                    for s in live:
                        m = meet(m, State(self.stable(st.facts) | s.facts, {0: s.cond}).look(0, k[0], k[1]))
                    retc[k] = m
            gf, gc = self.rule.gen_await(c, st, self) if hasattr(self.rule, "gen_await") else (frozenset(), {})
            g = self.stable(st.facts) | (gained or frozenset()) | self.filt(gf)
            for k, v in gc.items():
                cur = retc.get(k, g)
                if cur is not UN:
                    retc[k] = cur | self.filt(v)
            return g, retc
        if kind == "clo":
            b = self.P.fns.get(val)
            if b is not None and self.rule.enter(b):
                s = self.visit(b, st.facts, {}, None)
                if s.diverges:
                    return None
                return st.facts | s.facts, s.cond
        return None

    # -- body ------------------------------------------------------------
    def solve(self, f, facts, argcond):
        ins = {0: State(facts, dict(argcond))}
        order = f.rpo()
        pos = {b: i for i, b in enumerate(order)}
        import heapq
        work = [0]
        inq = {0}
        outs = {}
        n = 0
        edge = {}
        ups = {}
        while work:
            b = heapq.heappop(work)
            b = order[b]
            inq.discard(b)
            n += 1
            if n > 400 * len(order) + 2000:
                raise RuntimeError("no fixpoint in " + f.sname)
            into = {}
            for s, st in self.flow(f, b, ins[b], None):
                # several answers of a switch may lead to the same place
                into[s] = join(into[s], st) if s in into else st
            for s, st in into.items():
                key = (b, s)
                edge[key] = st
                # join over all computed in-edges
                old = ins.get(s)
                acc = None
                for p in f.preds()[s]:
                    e = edge.get((p, s))
                    if e is not None:
                        acc = join(acc, e)
                if s == 0:
                    acc = join(acc, State(facts, dict(argcond)))
                if acc is not None and old is not None and ups.get(s, 0) > 80:
                    acc = join(old, acc)        # go down only
                if acc is not None and (old is None or not (acc == old)):
                    ups[s] = ups.get(s, 0) + 1
                    ins[s] = acc
                    if s not in inq:
                        inq.add(s)
                        heapq.heappush(work, pos[s])
        return ins

    def flow(self, f, b, st0, report):
        res = self.flow1(f, b, st0, report)
        if self.derive:
            for tgt, st in res:
                st.facts = self.derive(st.facts)
        return res

    def flow1(self, f, b, st0, report):
        """transfer block b; list of (succ, state)"""
        st = st0.copy()
        discr = {}
        bb = f.bbs[b]
        for i, s in enumerate(bb["s"]):
            if report is not None:
                self.rule.check_stmt(f, b, i, s, st, report, self)
            self.stmt(f, st, s, discr)
            if self.has_gs:
                add, drop = self.rule.gen_stmt(f, b, i, s, st, self)
                if drop:
                    st.facts = frozenset(x for x in st.facts if not drop(x))
                    st.cond = {l: {k: (v if (v is UN or k[1] == '=') else frozenset(x for x in v if not drop(x))) for k, v in c.items()} for l, c in st.cond.items()}
                if add:
                    st.facts = st.facts | self.filt(add)
            # closure/coroutine values created but not passed on directly
            if report is not None and s[1][0] == "agg" and isinstance(s[1][1], dict) and "clo" in s[1][1]:
                cf = self.P.fns.get(s[1][1]["clo"])
                if cf is not None and self.rule.enter(cf) and not escapes_to_call(f, s[0]):
                    pc = st.cond.get(s[0][0], {}) if len(s[0]) == 1 else {}
                    pc = {k: v for k, v in pc.items() if k[1] == '=' or v is UN or not (v <= st.facts)}
                    self.visit(cf, st.facts, {1: pc} if pc else {}, report)
        t = bb["t"]
        k = t[0]
        if k == "call":
            call = f.call_at(b)
            if report is not None:
                self.rule.check(call, st, report, self)
            fa, rc = self.call_effect(f, st, call, report)
            gc = self.gc
            if fa is UN or call.target < 0:
                return []
            # calls may mutate through &mut arguments: forget what we knew about those locals
            for a in call.args:
                if a[0] in "cm" and len(a[1]) >= 1:
                    d = single_def(f, a[1][0])
                    if d and not isinstance(d[3], Call) and d[3][0] == "ref" and d[3][1] == "m" and not call.decl.startswith(("core::pin::", "core::future::", "core::ops::deref", "core::option::Option::as_mut")):
                        st.cond.pop(d[3][2][0], None)
            gone = st.facts - fa
            if gone:
                st.cond = {l: {k: (v if (v is UN or k[1] == '=') else v - gone) for k, v in c.items()} for l, c in st.cond.items()}
            st.facts = fa
            rc = {k: v for k, v in rc.items() if len(k[0]) <= 8}
            if len(call.dest) == 1 and f.lty(call.dest[0]) == "bool" and (call.dest[0] == 0 or len(f.defs().get(call.dest[0], ())) > 1):
                # returned as it is: there may be no branch on it in here
                from .sym import sym_call
                sy = sym_call(f, call)
                for v in (True, False):
                    fs = self.filt(self.rule.sym_fact(f, sy, v))
                    cur = rc.get(((), v), st.facts)
                    if fs and cur is not UN:
                        rc[((), v)] = cur | fs | st.facts
                        if self.derive:
                            rc[((), v)] = self.derive(rc[((), v)])
            self.set_place(f, st, call.dest, rc)
            if hasattr(self.rule, "kill"):
                new = self.rule.kill(f, call, st)
                gone = st.facts - new
                st.facts = new
                if gone:
                    st.cond = {l: {k: (v if (v is UN or k[1] == '=') else v - gone) for k, v in c.items()} for l, c in st.cond.items()}
                    # what the call brings about itself, it brings about after
                    c = st.cond.get(call.dest[0]) if len(call.dest) == 1 else None
                    if c:
                        st.cond[call.dest[0]] = {k: (v | self.filt(gc[k]) if k in gc and v is not UN and k[1] != '=' else v) for k, v in c.items()}
            return [(call.target, st)]
        if k == "switch":
            o = t[1]
            res = []
            if o[0] not in "cm":
                return [(x[1], st.copy()) for x in t[2]] + [(t[3], st.copy())]
            l = o[1][0]
            d = discr.get(l)
            if d is None and len(o[1]) == 1:
                sd = single_def(f, l)
                if sd and not isinstance(sd[3], Call) and sd[3][0] == "discr":
                    d = (sd[3][1], sd[3][3])
            if d is not None:
                from .sym import sym_place
                place, vm = d
                path = clean(place[1:])
                sy = sym_place(f, place)
                seen = set()

                def edge(vs, tgt):
                    acc = UN
                    for v in vs:
                        x = st.look(place[0], path, v)
                        if x is not UN:
                            x = x | self.filt(self.rule.sym_fact(f, sy, v))
                        acc = meet(acc, x)
                    if acc is UN:
                        return
                    s2 = State(acc, dict(st.cond))
                    # narrow the possible variants on this edge
                    c = dict(s2.cond.get(place[0], {}))
                    c[(path, '=')] = frozenset(vs)
                    s2.cond[place[0]] = c
                    res.append((tgt, s2))
                for val, tgt in t[2]:
                    v = vm.get(str(val), str(val))
                    seen.add(v)
                    edge([v], tgt)
                rest = [v for v in vm.values() if v not in seen]
                if rest or not vm:
                    if vm:
                        edge(rest, t[3])
                    else:
                        res.append((t[3], st.copy()))
                return res
            if f.lty(l) == "bool" or (len(o[1]) > 1 and len(t[2]) == 1 and t[2][0][0] == 0):
                path = clean(o[1][1:])
                from .sym import sym_place
                sy = sym_place(f, o[1])
                tested = self.tested(f, b, l) if len(o[1]) == 1 else None
                for v, tgt in ((False, t[2][0][1]), (True, t[3])):
                    x = st.look(l, path, v)
                    if x is UN:
                        continue
                    x = x | self.filt(self.rule.sym_fact(f, sy, v))
                    s2 = State(x, dict(st.cond))
                    if tested:
                        # is_some(&x) and the like: which variant x has on this edge
                        pl, vs = tested
                        pp = clean(pl[1:])
                        c = dict(s2.cond.get(pl[0], {}))
                        poss = c.get((pp, '='))
                        if poss is not None and vs[v] not in poss:
                            continue
                        c[(pp, '=')] = frozenset([vs[v]])
                        s2.cond[pl[0]] = c
                    res.append((tgt, s2))
                return res
            # integer / char switches: value n, or ("not", values)
            from .sym import sym_place
            sy = sym_place(f, o[1])
            for val, tgt in t[2] + [[("not", tuple(x[0] for x in t[2])), t[3]]]:
                s2 = st.copy()
                s2.facts = s2.facts | self.filt(self.rule.sym_fact(f, sy, val))
                res.append((tgt, s2))
            return res
        return [(s, st) for s in f.succ(b)]

    def tested(self, f, b, l):
        """the switch in block b is on what is_some(&x) or the like just returned: (x, {result: variant})"""
        d = single_def(f, l)
        if not d or not isinstance(d[3], Call) or d[3].decl not in TESTS or d[3].target != b or f.bbs[b]["s"] or d[3].args[0][0] not in "cm" or len(f.preds()[b]) != 1:
            return None
        r = single_def(f, d[3].args[0][1][0])
        if r and not isinstance(r[3], Call) and r[3][0] == "ref" and r[0] == d[3].bb and "*" not in r[3][2][1:]:
            return r[3][2], TESTS[d[3].decl]
        return None

    def visit(self, f, facts, argcond, report):
        key = (f.id, facts, freeze(argcond))
        if report is not None:
            if key not in self.reported and len(report) < 60:
                self.reported.add(key)
                self.visited.add(f.id)
                ins = self.solution(f, facts, argcond, key)
                ch = report + [f]
                for b in f.rpo():
                    st = ins.get(b)
                    if st is None:
                        continue
                    self.flow(f, b, st, ch)
                    if f.bbs[b]["t"][0] == "ret":
                        self.rule.exit(f, self.end_state(f, b, st), ch, self)
        return self.summary(f, facts, argcond, key)

    def end_state(self, f, b, st):
        st = st.copy()
        for i, s in enumerate(f.bbs[b]["s"]):
            self.stmt(f, st, s, {})
            if self.has_gs:
                add, drop = self.rule.gen_stmt(f, b, i, s, st, self)
                if drop:
                    st.facts = frozenset(x for x in st.facts if not drop(x))
                if add:
                    st.facts = st.facts | self.filt(add)
        if self.derive:
            st.facts = self.derive(st.facts)
        return st

    def solution(self, f, facts, argcond, key):
        if key in self.states:
            return self.states[key]
        r = self.solve(f, facts, argcond)
        self.states[key] = r
        return r

    def summary(self, f, facts, argcond, key):
        if key in self.memo:
            return self.memo[key]
        if key in self.inprog or len(self.inprog) > 80:
            return Summary()
        self.inprog.add(key)
        ins = self.solution(f, facts, argcond, key)
        acc = None
        for b in f.rpo():
            if f.bbs[b]["t"][0] == "ret" and b in ins:
                acc = join(acc, self.end_state(f, b, ins[b]))
        if acc is None:
            s = Summary(frozenset(), {}, True)
        else:
            s = Summary(acc.facts, acc.cond.get(0, {}))
        self.inprog.discard(key)
        self.memo[key] = s
        return s

    def run(self, roots, facts=frozenset()):
        for f in roots:
            self.visit(f, frozenset(facts), {}, [])


def noctx(fs):
    return frozenset(x for x in fs if x[0] != "ctx")


def freeze(argcond):
    return frozenset((l, frozenset(c.items())) for l, c in argcond.items())


def single_def(f, l):
    if l <= f.argc and l != 0:
        return None
    d = f.defs().get(l)
    if d and len(d) == 1:
        return d[0]
    return None


def chase_closures(f, place, depth=0):
    if depth > 12:
        return []
    l = place[0]
    out = []
    key = ("clo", l)
    if key in f.cache:
        return f.cache[key]
    f.cache[key] = out
    for (b, i, pl, rv) in f.defs().get(l, []):
        if isinstance(rv, Call):
            if rv.decl in ("alloc::boxed::Box::new", "alloc::boxed::Box::pin", "core::convert::Into::into", "core::clone::Clone::clone"):
                for a in rv.args:
                    if a[0] in "cm":
                        out += chase_closures(f, a[1], depth + 1)
            continue
        k = rv[0]
        if k == "agg" and isinstance(rv[1], dict) and "clo" in rv[1]:
            out.append(rv[1]["clo"])
        elif k == "use" or k == "cast":
            o = rv[1] if k == "use" else rv[2]
            if o[0] in "cm":
                out += chase_closures(f, o[1], depth + 1)
            elif o[0] == "k":
                if "clo" in o[1]:
                    out.append(o[1]["clo"])
                elif "fn" in o[1]:
                    i = o[1]["fn"].get("ri", o[1]["fn"].get("di"))
                    if i in f.prog.fns:
                        out.append(i)
        elif k == "ref":
            out += chase_closures(f, rv[2], depth + 1)
    return out


def escapes_to_call(f, place):
    """is the closure in this local an argument of some call in f?"""
    key = ("esc", place[0])
    if key in f.cache:
        return f.cache[key]
    aliases = {place[0]}
    changed = True
    while changed:
        changed = False
        for l, ds in f.defs().items():
            if l in aliases:
                continue
            for (b, i, pl, rv) in ds:
                if isinstance(rv, Call):
                    continue
                src = None
                if rv[0] == "use" and rv[1][0] in "cm":
                    src = rv[1][1][0]
                elif rv[0] == "ref":
                    src = rv[2][0]
                elif rv[0] == "cast" and rv[2][0] in "cm":
                    src = rv[2][1][0]
                if src in aliases:
                    aliases.add(l)
                    changed = True
    r = False
    for c in f.calls():
        for a in c.args:
            if a[0] in "cm" and a[1][0] in aliases:
                r = True
    f.cache[key] = r
    return r


def callees(P, call):
    """workspace functions a call may enter"""
    if call.cache is not None:
        return call.cache
    out = []
    if call.ind:
        out = []
    elif call.rid in P.fns and not (call.virt in ("virt", "unres") and call.did in P.timpls):
        f = P.fns[call.rid]
        out = [f]
    elif call.decl.startswith(("core::clone::", "core::fmt::", "core::cmp::", "core::hash::")) and call.virt in ("virt", "unres"):
        out = []  # identity / no data; dispatch over all implementations says nothing
    elif call.did in P.timpls and (call.virt in ("virt", "unres") or call.rid == call.did):
        out = list(P.timpls[call.did])
        if call.did in P.fns:
            out.append(P.fns[call.did])
    else:
        d = call.decl
        if d == "core::str::parse" or d.endswith("::str::parse"):
            t = call.gens[-1] if call.gens else ""
            out = [f for f in P.fns.values() if f.trait == "core::str::traits::FromStr" and f.sname.endswith("::from_str") and f.self_ty == t]
        elif d in ("core::convert::Into::into", "core::convert::TryInto::try_into"):
            g = call.gens
            if len(g) >= 2:
                tr = "core::convert::From" if d.endswith("::into") else "core::convert::TryFrom"
                out = [f for f in P.fns.values() if f.trait == tr and f.kind == "AssocFn" and ty_eq(f.self_ty, g[-1] if d.endswith("try_into") else g[1]) and f.targs[1:] and ty_eq(f.targs[1], g[0])]
        elif d == "alloc::string::ToString::to_string":
            g = call.gens
            if g:
                t = g[0].lstrip("&")
                out = [f for f in P.fns.values() if f.trait == "core::fmt::Display" and f.kind == "AssocFn" and f.self_ty == t]
        elif d == "core::ops::try_trait::FromResidual::from_residual":
            out = []
    call.cache = out
    return out


def ty_eq(a, b):
    import re
    n = lambda t: re.sub(r"'\w+ ?", "", t or "")
    return n(a) == n(b)


def async_bodies(P, cf):
    """the coroutine(s) whose output awaiting cf(..) yields"""
    if "ab" in cf.cache:
        return cf.cache["ab"]
    out = []
    if cf.cor and "Async" in cf.cor:
        out = [cf]
    else:
        for ch in cf.children:
            if ch.cor and "Async" in ch.cor and any(c[0] is cf for c in P.creators.get(ch.id, [])):
                out.append(ch)
    rt = cf.lty(0)
    if not ("Future" in rt or "{async" in rt or "Pin<" in rt):
        out = [cf] if cf.cor else []
    cf.cache["ab"] = out
    return out
