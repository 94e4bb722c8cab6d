"""Stored credentials: the names under which each kind is stored, read back, accepted from the
configuration and sent are compared symbolically; must-facts show that storing and removing
touch only the registry's own entry and that the commands report success only after the
changed configuration was written."""
from ..must import MustRule, Engine, UN
from .. import sym, cg

CRED = "oro_npm_account::config::Credentials"
OWN = "oro_client::credentials::Credentials"
KEYS = {"token": ("Token", "0"), "legacy-auth": ("LegacyAuth", "0"), "username": ("BasicAuth", "username"), "password": ("BasicAuth", "password")}
NAMES = ("token", "legacy-auth", "username", "password", "auth", "legacy_auth", "legacy-token", "_auth", "_authToken", "user", "pass")
NODE = "kdl::node::KdlNode::"
DOC = "kdl::document::KdlDocument::"
CRATE = "oro_npm_account"
ARGS = "orogene::commands::login::LoginCmd"


def own_fields(s, adt):
    return {(x[4], x[2]) for x in sym.walk(s) if x[0] == "fld" and x[1] == adt}


def short(f):
    return f.sname.split("::{")[0]


def stored(ctx):
    """(key, (variant, field)) pairs written as properties of an entry"""
    P = ctx.P
    out = {}
    for f in P.fns.values():
        if f.crate != CRATE:
            continue
        for c in f.calls():
            if c.res == "kdl::entry::KdlEntry::new_prop":
                k, v = c.args[:2]
            elif c.res in (NODE + "insert", NODE + "push") and len(c.args) >= 3:
                k, v = c.args[1:3]
            else:
                continue
            for ks, vs in sym.instances(P, f, [sym.sym_op(f, k), sym.sym_op(f, v)]):
                keys = {x for t in sym.multi(P, ks) for x in sym.consts_in(("x", t))}
                src = {x for t in sym.multi(P, vs) for x in own_fields(t, CRED)}
                for key in keys:
                    ok = KEYS.get(key) in src and (len(src) == 1 or src == {KEYS.get(k) for k in keys})
                    if key in KEYS:
                        out[key] = True
                    ctx.ob("stored-names", "%s stored in %s" % (key, short(f)), ok, c.where,
                           "the property is filled from %s, expected %s" % (sorted(map(str, src)) or "something else", KEYS.get(key)))
    for k in KEYS:
        if k not in out:
            ctx.ob("stored-names", "%s stored" % k, False, "", "no property of this name is written")


def read(ctx):
    P = ctx.P
    seen = set()
    for f in P.fns.values():
        if f.crate != CRATE:
            continue
        for b in f.rpo():
            for st in f.bbs[b]["s"]:
                rv = st[1]
                if rv[0] != "agg" or not isinstance(rv[1], dict) or rv[1].get("adt") != CRED:
                    continue
                ts = [sym.sym_op(f, o) for o in rv[2]]
                if not any(x[0] == "call" and x[1].startswith(NODE + "get") for t in ts for x in sym.walk(t)):
                    continue
                for fld, t in zip(rv[1]["f"], ts):
                    got = set()
                    for tt, in sym.instances(P, f, [t]):
                        got |= {k for x in sym.walk(tt) if x[0] == "call" and x[1].startswith(NODE + "get") for a in x[2][1:] for k in sym.consts_in(("x", a))}
                    want = {k for k, v in KEYS.items() if v == (rv[1]["v"], fld)}
                    seen |= want
                    ctx.ob("read-names", "%s.%s read in %s" % (rv[1]["v"], fld, short(f)), got == want, "%s:%s" % (f.file, st[2]),
                           "read from %s, stored under %s" % (sorted(got) or "nothing", sorted(want)))
    for k in KEYS:
        if k not in seen:
            ctx.ob("read-names", "%s read" % k, False, "", "no credentials are made from this property")


class Accept(MustRule):
    """which key is known when credentials are given to the client"""
    METHODS = None

    def __init__(self, ctx):
        self.ctx = ctx

    def enter(self, f):
        return f.crate == "orogene" or f.crate == "oro.bin"

    def sym_fact(self, f, s, val):
        if s[0] == "un" and s[1] == "Not" and isinstance(val, bool):
            return self.sym_fact(f, s[2], not val)
        if isinstance(val, bool) and s[0] == "call" and s[3] in ("core::cmp::PartialEq::eq", "core::cmp::PartialEq::ne") and val is s[3].endswith("::eq"):
            k = [x for x in sym.consts_in(("x", s)) if isinstance(x, str)]
            if len(k) == 1:
                return frozenset([("key", k[0])])
        return frozenset()

    def check(self, c, st, ch, eng):
        kind = self.METHODS.get(c.res)
        if kind is None:
            return
        known = {x[1] for x in st.facts if x[0] == "key"}
        for k in kind:
            self.seen.add(k)
            self.ctx.ob("config-names", "%s given to the client in %s" % (k, short(c.fn)), k in known and not (known & (set(KEYS) - set(kind))), c.where,
                        "reached under the setting names %s, expected '%s'" % (sorted(known), k))


def accepted(ctx):
    """builder methods of the client by the kind they make, and the setting names that lead to them"""
    P = ctx.P
    want = {"Token": ("token",), "EncodedBasic": ("legacy-auth",), "Basic": ("username",)}
    methods = {}
    for f in P.fns.values():
        if f.crate != "oro_client":
            continue
        for b in f.rpo():
            for st in f.bbs[b]["s"]:
                rv = st[1]
                if rv[0] == "agg" and isinstance(rv[1], dict) and rv[1].get("adt") == OWN:
                    r = P.root_of(f)
                    if rv[1]["v"] in want and any(cg.callers(P).get(r.id, ())):
                        methods.setdefault(r.sname, set()).update(want[rv[1]["v"]])
                        for fld, o in zip(rv[1]["f"], rv[2]):
                            t = sym.sym_op(f, o)
                            a = sorted({x[2] for x in sym.walk(t) if x[0] == "arg"})
                            ctx.ob("config-names", "%s.%s of %s" % (rv[1]["v"], fld, short(r)), len(a) == 1, "%s:%s" % (f.file, st[2]), "not filled from one parameter")
    r = Accept(ctx)
    r.METHODS = methods
    r.seen = set()
    e = Engine(P, r)
    for f in P.fns.values():
        if r.enter(f) and any(c.res in methods for c in f.calls()):
            e.visit(f, frozenset(), {}, [])
    for k in ("token", "legacy-auth", "username"):
        if k not in r.seen:
            ctx.ob("config-names", "%s accepted" % k, False, "", "this setting never reaches the client")
    # a password belongs to the user name of the same registry
    for f in P.fns.values():
        if not r.enter(f):
            continue
        for c in f.calls():
            if "username" in methods.get(c.res, ()) and len(c.args) >= 4:
                got = set()
                for o in c.args[3:4]:
                    got |= sources(f, o)
                ctx.ob("config-names", "password given to the client in %s" % short(f), "password" in got, c.where, "the password does not come from a setting of that name")


def sources(f, o, seen=None):
    """string constants compared on the way to a value (blocks that assign it)"""
    out = set()
    if o[0] not in "cm":
        return out
    seen = set() if seen is None else seen
    l = o[1][0]
    if l in seen:
        return out
    seen.add(l)
    t = sym.sym_op(f, o)
    out |= {x for x in sym.deep_consts(f.prog, t) if isinstance(x, str)}
    for d in f.defs().get(l, []):
        b, rv = d[0], d[3]
        # constants compared in blocks that lead here without joining
        todo = [b]
        vis = set()
        while todo:
            x = todo.pop()
            if x in vis:
                continue
            vis.add(x)
            ps = f.preds().get(x, []) if isinstance(f.preds(), dict) else f.preds()[x]
            if len(ps) == 1:
                c = f.call_at(ps[0]) if f.bbs[ps[0]]["t"][0] == "call" else None
                if c is not None and c.decl.startswith("core::cmp::Partial"):
                    out |= {k for a in c.args for k in sym.consts_in(("x", sym.sym_op(f, a))) if isinstance(k, str)}
                todo.append(ps[0])
        ops = []
        if isinstance(rv, tuple) or isinstance(rv, list):
            if rv[0] == "agg":
                ops = rv[2]
            elif rv[0] == "use":
                ops = [rv[1]]
        elif hasattr(rv, "args"):
            ops = rv.args
        for x in ops:
            out |= sources(f, x, seen)
    return out


class Keep(MustRule):
    """what a removal predicate answers, and for which entries"""

    def enter(self, f):
        return f.crate == CRATE

    def sym_fact(self, f, s, val):
        if not isinstance(val, bool):
            return frozenset()
        if s[0] == "un" and s[1] == "Not":
            return self.sym_fact(f, s[2], not val)
        if s[0] == "call" and s[2] and s[1].rsplit("::", 1)[-1] in ("unwrap_or", "unwrap_or_default", "map_or", "is_some_and", "is_ok_and"):
            m = s
            last = s[1].rsplit("::", 1)[-1]
            other = s[2][1] if last in ("unwrap_or", "map_or") and len(s[2]) > 1 else ("const", False)
            if last.startswith("unwrap_or"):
                m = s[2][0]
            if other == ("const", not val) and m[0] == "call" and m[2] and m[2][-1][0] == "clo" and m[1].rsplit("::", 1)[-1] in ("map", "map_or", "is_some_and", "is_ok_and") and m[2][-1][1] in f.prog.fns:
                g = f.prog.fns[m[2][-1][1]]
                ts = sym.returns(f.prog, g)
                if len(ts) == 1:
                    return self.sym_fact(f, sym.subst(ts[0], {("arg", g.id, 2): m[2][0]}), val)
            return frozenset()
        if s[0] == "call" and s[3] in ("core::cmp::PartialEq::eq", "core::cmp::PartialEq::ne") and val is s[3].endswith("::eq") and len(s[2]) == 2:
            a, b = s[2]
            na, nb = self.keyed(f, a), self.keyed(f, b)
            if na and nb and na != nb:
                return frozenset([("same",)])
            k = [x for x in sym.consts_in(("x", s)) if isinstance(x, str)]
            if len(k) == 1 and any(x[0] == "call" and x[1].startswith(NODE + "name") for x in sym.walk(s)):
                return frozenset([("named", k[0])])
        return frozenset()

    def keyed(self, f, t):
        """'entry' / 'asked': the registry key (or name) of the entry, or of what was asked for"""
        if any(x[0] == "call" and x[1].startswith("url::Url::") and x[1] not in ("url::Url::parse", "url::Url::as_str", "url::Url::to_string") for x in sym.walk(t)):
            return None     # a part of the address only
        node = any(x[0] == "call" and x[1].startswith(NODE + "name") for x in sym.walk(t))
        if node:
            return "entry"
        if any(x[0] in ("arg", "upvar") for x in sym.walk(t)) and not sym.consts_in(("x", t)):
            return "asked"
        return None


def lookups(ctx):
    """what is picked out of the stored entries is the one asked for"""
    P = ctx.P
    PICK = ("find", "position", "rfind", "rposition", "filter", "find_map", "filter_map", "any", "max_by_key", "min_by_key", "last", "nth", "skip_while", "take_while")
    for f in P.fns.values():
        if f.crate != CRATE:
            continue
        for c in f.calls():
            n = c.decl.rsplit("::", 1)[-1]
            if not (c.decl.startswith("core::iter::traits::") and n in PICK and c.args) or "kdl::document::KdlDocument::nodes" not in sym.calls_in(sym.sym_op(f, c.args[0])):
                continue
            ok = n in ("find", "position", "rfind", "rposition", "filter", "any")
            for cid in Engine(P, Keep()).closure_of(f, c.args[1]) if ok and len(c.args) > 1 else ():
                g = P.fns.get(cid)
                if g is None:
                    continue
                from ..must import State
                s = Engine(P, Keep()).visit(g, frozenset(), {}, None)
                x = State(s.facts, {0: s.cond}).look(0, (), True)
                ok = x is UN or ("same",) in x or any(y[0] == "named" for y in x)
            if n not in ("find_map", "filter_map"):
                ctx.ob("others-kept", "entry picked in %s" % short(P.root_of(f) or f), ok, c.where, "an entry can be taken although its name is not the one asked for")


def removals(ctx):
    P = ctx.P
    DROP = ("clear", "remove", "truncate", "drain", "pop", "split_off", "dedup", "swap_remove", "clear_entries", "clear_children", "set_children", "extract_if")
    for f in P.fns.values():
        if f.crate != CRATE:
            continue
        for c in f.calls():
            tail = c.res.rsplit("::", 1)[1]
            if tail in ("retain", "retain_mut") and c.args:
                for cid in Engine(P, Keep()).closure_of(f, c.args[1]):
                    g = P.fns.get(cid)
                    if g is None:
                        continue
                    k = Keep()
                    e = Engine(P, k)
                    s = e.visit(g, frozenset(), {}, None)
                    from ..must import State
                    x = State(s.facts, {0: s.cond}).look(0, (), False)
                    same = x is UN or ("same",) in x
                    whole = x is not UN and any(y[0] == "named" for y in x)
                    if whole and not same:
                        # a whole section goes only when it has no entries left
                        ctx.ob("others-kept", "section removed in %s" % short(f), guarded_empty(P, f, c), c.where, "a section is removed although entries may be left in it")
                    else:
                        ctx.ob("others-kept", "entries removed in %s" % short(f), same, c.where, "an entry can be removed although its name is not the one asked for")
            elif (tail in DROP and (c.res.startswith(NODE) or c.res.startswith(DOC) or c.res.startswith("alloc::vec::Vec::"))):
                if tail == "remove" and c.res.startswith(NODE):
                    pass
                ctx.ob("others-kept", "%s in %s" % (tail, short(f)), False, c.where, "entries are removed without comparing their names")


class Empty(MustRule):
    def __init__(self):
        self.at = {}

    def enter(self, f):
        return f.crate == CRATE

    def sym_fact(self, f, s, val):
        if s[0] == "un" and s[1] == "Not" and isinstance(val, bool):
            return self.sym_fact(f, s[2], not val)
        if val is True and s[0] == "call" and s[1].endswith("::is_empty"):
            return frozenset([("empty",)])
        t = sym.int_test(s, val)
        if t and t[1] == "zero" and any(x[0] == "call" and x[1].endswith("::len") for x in sym.walk(t[0])):
            return frozenset([("empty",)])
        return frozenset()

    def check(self, c, st, ch, eng):
        self.at.setdefault((c.fn.id, c.bb), []).append(("empty",) in st.facts)


def guarded_empty(P, f, c):
    r = Empty()
    e = Engine(P, r)
    top = P.root_of(f)
    e.visit(top, frozenset(), {}, [])
    x = r.at.get((f.id, c.bb))
    return bool(x) and all(x)


class Store(MustRule):
    """an entry is added only after the registry's old one was removed"""

    def __init__(self, ctx):
        self.ctx = ctx

    def enter(self, f):
        return f.crate == CRATE

    def gen(self, c, st, eng):
        if c.res.rsplit("::", 1)[1] in ("retain", "retain_mut") and ("Vec" in c.res):
            return frozenset([("cleaned",)]), {}
        return frozenset(), {}

    def check(self, c, st, ch, eng):
        if c.res == "alloc::vec::Vec::push" and len(c.args) == 2 and c.gens and c.gens[0] == "kdl::node::KdlNode":
            for t, in sym.instances(eng.P, c.fn, [sym.sym_op(c.fn, c.args[1])], 1):
                new = [x for x in sym.walk(t) if x[0] == "call" and x[1] == NODE + "new"]
                if new and sym.consts_in(("x", new[0])):
                    continue    # a section
                self.ctx.ob("replaced", "entry added in %s" % short(c.fn), ("cleaned",) in st.facts, c.where, "an entry is added while an old one of the same registry may remain before it")


CONF = "oro_npm_account::config::"


class Command(MustRule):
    def __init__(self, ctx, which):
        self.ctx = ctx
        self.which = which

    def enter(self, f):
        return f.crate in ("orogene", "oro.bin")

    def gen(self, c, st, eng):
        if c.res == CONF + "set_credentials_by_uri":
            return frozenset([("changed",)]), {}
        if c.res == CONF + "clear_crendentials_by_uri":
            return frozenset([("changed",)]), {}
        if c.res == "std::fs::write" and ("changed",) in st.facts and any(x[0] == "call" and "to_string" in x[1] or x[0] in ("arg", "multi") for x in sym.walk(sym.sym_op(c.fn, c.args[1]))):
            return frozenset(), {((), "Ok"): frozenset([("written",)])}
        if c.res == CONF + "get_credentials_by_uri":
            return frozenset([("looked",)]), {((), "None"): frozenset([("settled",)])}
        return frozenset(), {}

    def gen_await(self, c, st, eng):
        if c.res.endswith("::delete_token"):
            return frozenset(), {((), "Ok"): frozenset([("settled",)])}
        return frozenset(), {}

    def sym_fact(self, f, s, val):
        # other kinds of credentials have nothing to revoke
        if isinstance(val, str) and val in ("LegacyAuth", "BasicAuth"):
            return frozenset([("settled",)])
        return frozenset()

    def check(self, c, st, ch, eng):
        if self.which == "logout" and c.res == CONF + "clear_crendentials_by_uri":
            self.ctx.ob("revoked", "logout in %s" % short(c.fn), ("settled",) in st.facts, c.where, "the stored token is forgotten without the registry having revoked it")

    def exit(self, f, st, ch, eng):
        if f.id != self.root:
            return
        x = st.look(0, (), "Ok")
        if x is not UN:
            self.ctx.ob("written", "success of %s" % short(f), ("written",) in x, f.where, "success is reported without the changed configuration having been written")


def commands(ctx):
    P = ctx.P
    for which, fn in (("login", CONF + "set_credentials_by_uri"), ("logout", CONF + "clear_crendentials_by_uri")):
        tops = [f for f in P.fns.values() if f.crate in ("orogene", "oro.bin") and any(c.res == fn for c in f.calls())]
        ctx.ob("written", "%s changes the configuration" % which, bool(tops), "", "no command calls " + fn)
        cs = cg.callers(P)
        for f in tops:
            # the command: outermost coroutine this belongs to
            r = Command(ctx, which)
            top = f
            while True:
                up = [g for g, c in cs.get(P.root_of(top).id, ()) if g.crate in ("orogene", "oro.bin") and g.cor and not g.sname.endswith("main") and "commands::" + which in g.sname]
                if not up or up[0].id == top.id:
                    break
                top = up[0]
            if not top.cor:
                top = next((P.fns[i] for i in P.fns if P.fns[i].cor and P.root_of(P.fns[i]).id == P.root_of(top).id), top)
            r.root = top.id
            Engine(P, r).visit(top, frozenset(), {}, [])
    # what the command stores: each option as its own kind
    want = {("Token", "0"): {"token"}, ("LegacyAuth", "0"): {"legacy_token"}, ("BasicAuth", "username"): {"username"}, ("BasicAuth", "password"): {"password"}}
    for f in P.fns.values():
        if f.crate not in ("orogene", "oro.bin"):
            continue
        for b in f.rpo():
            for st in f.bbs[b]["s"]:
                rv = st[1]
                if rv[0] == "agg" and isinstance(rv[1], dict) and rv[1].get("adt") == CRED:
                    for fld, o in zip(rv[1]["f"], rv[2]):
                        for t, in sym.instances(P, f, [sym.sym_op(f, o)], 2):
                            opts = {x[2] for x in sym.walk(t) if x[0] == "fld" and x[1] == ARGS} & {"token", "legacy_token", "username", "password"}
                            if opts or rv[1]["v"] != "Token":
                                ctx.ob("options-stored", "%s.%s in %s" % (rv[1]["v"], fld, short(f)), opts == want[(rv[1]["v"], fld)], "%s:%s" % (f.file, st[2]),
                                       "made from the options %s" % sorted(opts))


def check(ctx):
    ctx.rule("stored-names", "each kind of credentials is stored under its own property")
    ctx.rule("read-names", "each kind is read back from the property it is stored under")
    ctx.rule("config-names", "settings of that name reach the client as that kind")
    ctx.rule("options-stored", "login options are stored as their own kind")
    ctx.rule("others-kept", "only entries of the registry (or scope) asked for are removed, or taken")
    ctx.rule("replaced", "an old entry is removed before the new one is added")
    ctx.rule("written", "login and logout succeed only after writing the changed configuration")
    ctx.rule("revoked", "logout forgets a token only after the registry revoked it")
    stored(ctx)
    read(ctx)
    accepted(ctx)
    lookups(ctx)
    removals(ctx)
    s = Store(ctx)
    e = Engine(ctx.P, s)
    for f in ctx.P.fns.values():
        if f.crate == CRATE and f.kind != "Closure" and any(c.res == "alloc::vec::Vec::push" for c in f.calls()):
            e.visit(f, frozenset(), {}, [])
    commands(ctx)
    ctx.floor("others-kept", 2)
    ctx.floor("replaced", 2)
    ctx.floor("written", 4)
    ctx.floor("revoked", 1)
