"""Registry credentials: a taint analysis follows the stored credentials to every place they
can get to; must-facts show that what puts them on a request knows that the request goes to
the credentials' own registry (host, port and path); provenance rules show that they are
looked up by the registry's own key, that every request is made with a client that
applies this, and that it names its registry."""
from ..must import MustRule, Engine, UN
from .. import sym
from ..cg import reach
from ..vfg import live, live_params

CRED = "oro_client::credentials::Credentials"
URL = "url::Url::"
HDR = "x-oro-registry"
LOSSY = ("trim", "split", "rsplit", "replace", "strip_", "get", "index", "to_lowercase", "to_ascii", "chars", "bytes", "find", "rfind", "truncate", "pop", "take", "skip", "retain", "drain", "remove")
REQ = ("reqwest_middleware::client::RequestBuilder::", "reqwest::async_impl::request::RequestBuilder::")
RAW = ("reqwest::async_impl::client::Client::", "reqwest::get", "reqwest::blocking", "hyper::client", "ureq::", "isahc::", "surf::")


def is_hdr(s):
    return any(isinstance(x, str) and x.lower() == HDR for x in sym.consts_in(("x", s)))


def accessor(s):
    """(what, term of the url) of the outermost url accessor"""
    for x in sym.walk(s):
        if x[0] == "call" and x[1].startswith(URL):
            return x[1][len(URL):], x[2][0] if x[2] else None
    return None, None


WHAT = {"host_str": ("host",), "host": ("host",), "domain": (), "port_or_known_default": ("port",), "origin": ("host", "port"), "authority": ()}


class Gate(MustRule):
    def __init__(self, ctx, flow):
        self.ctx = ctx
        self.flow = flow
        self.n = 0
        self.sites = set()

    def enter(self, fn):
        return fn.crate == "oro_client"

    def ctx_facts(self, call, cf, st):
        if cf.cor:
            cf = self.ctx.P.root_of(cf)
        return frozenset(("ctx", p) for p in live_params(self.ctx.G, self.flow, call, cf, [x[1] for x in st.facts if x[0] == "ctx"]))

    def sym_fact(self, f, s, val):
        if not isinstance(val, bool):
            return frozenset()
        if s[0] == "un" and s[1] == "Not":
            return self.sym_fact(f, s[2], not val)
        if s[0] != "call":
            return frozenset()
        if s[3] in ("core::cmp::PartialEq::eq", "core::cmp::PartialEq::ne") and len(s[2]) == 2 and val is s[3].endswith("::eq"):
            (a, ua), (b, ub) = accessor(s[2][0]), accessor(s[2][1])
            if a and a == b and ua != ub:
                return frozenset((w,) for w in WHAT.get(a, ()))
        if s[1].endswith("str::starts_with") and val and len(s[2]) == 2:
            (a, ua), (b, ub) = accessor(s[2][0]), accessor(s[2][1])
            if a == b == "path" and ua != ub and not is_hdr(ua) and (is_hdr(ub) or ub[0] == "arg"):
                return frozenset([("path",)])
        return frozenset()

    def check(self, c, st, ch, eng):
        if not (c.res.startswith(("http::header::map::", "reqwest")) or c.decl.startswith(("http::header::map::", "reqwest"))):
            return
        ps = [x[1] for x in st.facts if x[0] == "ctx"]
        hot = [i for i, a in enumerate(c.args) if i > 0 and live(self.ctx.G, self.flow, self.ctx.G.opnode(c.fn, a), ps)]
        if not hot:
            return
        self.n += 1
        self.sites.add((c.fn.id, c.bb))
        via = "; via " + " -> ".join(x.sname for x in ch)
        ok = c.res.startswith("http::header::map::") and self.name_ok(c)
        self.ctx.ob("only-header", "%s in %s" % (c.res, self.ctx.P.root_of(c.fn).sname), ok, c.where, "credentials are put on a request elsewhere than in its Authorization header" + via)
        for w, what in (("host", "host"), ("port", "port"), ("path", "path prefix")):
            self.ctx.ob("same-registry", "%s compared before %s in %s" % (what, c.res, self.ctx.P.root_of(c.fn).sname), (w,) in st.facts, c.where,
                        "credentials are added without the request's %s being known to be the registry's" % what + via)

    def name_ok(self, c):
        s = sym.sym_op(c.fn, c.args[1])
        return any(x[0] == "named" and x[1].endswith("AUTHORIZATION") or x[0] == "const" and isinstance(x[1], str) and x[1].lower() == "authorization" for x in sym.walk(s)) or \
            "AUTHORIZATION" in repr(s)


def rets(P, f, depth=0):
    """terms a workspace function may return"""
    out = []
    for (b, i, pl, rv) in f.defs().get(0, []):
        from ..model import Call
        out.append(sym.sym_call(f, rv) if isinstance(rv, Call) else sym.sym_rv(f, rv))
    return out


def chain_terms(P, s, depth=0, seen=None):
    """builder chain: yields lists of calls (outermost first), one per alternative; None = unknown start"""
    seen = seen or ()
    if depth > 40:
        return [None]
    if s[0] == "multi":
        f = P.fns[s[1]]
        key = (s[1], s[2])
        if key in seen:
            return []
        out = []
        from ..model import Call
        for (b, i, pl, rv) in f.defs().get(s[2], []):
            if len(pl) > 1:
                continue
            t = sym.sym_call(f, rv) if isinstance(rv, Call) else sym.sym_rv(f, rv)
            out += chain_terms(P, t, depth + 1, seen + (key,))
        return out
    if s[0] == "call":
        n = s[1]
        g = [x for x in P.fns.values() if x.sname == n] if n.startswith("oro_client::") else []
        if g and not s[2]:
            return [[s]]
        if g:
            out = []
            for x in g:
                for t in rets(P, x):
                    out += chain_terms(P, t, depth + 1, seen)
            return out
        if s[2] and ("Builder" in n or n.startswith("core::") or n.startswith("alloc::")):
            out = []
            for r in chain_terms(P, s[2][0], depth + 1, seen):
                out.append(None if r is None else [s] + r)
            return out
        return [[s]]
    return [None]


PASS = ("to_string", "as_str", "clone", "deref", "as_ref", "to_owned", "into", "borrow", "from", "as_deref", "format", "must_use", "fmt", "new_display", "new_v1", "new", "new_const", "format_inner")


def names_registry(s):
    """the term is the client's own registry, as a string"""
    if not any(x[0] == "fld" and x[2] == "registry" for x in sym.walk(s)):
        return False
    for x in sym.walk(s):
        if x[0] == "call" and x[1].rsplit("::", 1)[1] not in PASS:
            return False
        if x[0] == "fld" and x[2] != "registry" and x[1].startswith("oro_client"):
            return False
    return True


def check(ctx):
    P, G = ctx.P, ctx.G
    ctx.rule("same-registry", "credentials go on a request only after host, port and path were compared with the registry's")
    ctx.rule("only-header", "credentials reach requests only as their Authorization header")
    ctx.rule("same-entry", "a password is used with the user name and registry it was given for")
    ctx.rule("own-key", "credentials are stored and looked up under a key of the registry's host, port and path")
    ctx.rule("guarded-clients", "every HTTP client adds credentials by that code only, every request uses such a client")
    ctx.rule("names-registry", "every request names the registry of its client")
    adt = P.adts.get(CRED)
    src = set()
    if adt:
        for v in adt["vs"]:
            for x in v["f"]:
                src.add(('F', CRED, x["n"]))
    ctx.ob("same-registry", "stored credentials", len(src) >= 3, "", "the type of stored credentials no longer exists")

    def cut(a, b, c, ai):
        return c in ("test", "err") or (b[0] == 'F' and b[1].endswith("Error"))
    t = G.forward(src, cut)
    r = Gate(ctx, t)
    e = Engine(P, r)
    handles = [f for f in P.fns.values() if f.trait and f.trait.endswith("middleware::Middleware") and f.sname.endswith("::handle")]
    for f in handles:
        e.run([b for b in f.children if b.cor] or [f])
    ctx.floor("same-registry", 4)
    ctx.ob("same-registry", "credentials are used", r.n > 0, handles[0].where if handles else "", "no place adds credentials to a request")
    # anything else that touches the network with credentials
    for f in P.fns.values():
        if f.crate in ("oro_client", "nassun", "node_maintainer", "orogene", "oro_npm_account"):
            for c in f.calls():
                if c.res.startswith(("http::header::map::", "reqwest::", "reqwest_middleware::")) and (f.id, c.bb) not in r.sites:
                    if any(G.opnode(f, a) in t for i, a in enumerate(c.args) if i > 0 or not c.res.startswith("http::header::map")) and not c.res.startswith("reqwest_middleware::middleware::Next"):
                        if c.fn.self_ty and "Request" in c.res:
                            continue
                        ctx.ob("only-header", "%s in %s" % (c.res, P.root_of(f).sname), False, c.where, "stored credentials reach a network call outside of the checked place")
    # keys
    keyfns = {}
    n = 0
    for f in P.fns.values():
        if f.crate != "oro_client":
            continue
        for c in f.calls():
            if "HashMap::" in c.res and c.args and c.args[0][0] in "cm" and CRED in f.lty(c.args[0][1][0]) and "HashMap" in f.lty(c.args[0][1][0]):
                m = c.res.rsplit("::", 1)[1]
                if m in ("insert", "get", "get_key_value", "entry", "contains_key", "remove", "get_mut"):
                    n += 1
                    k = sym.sym_op(f, c.args[1])
                    while k[0] == "call" and k[1].rsplit("::", 1)[1] in ("deref", "as_str", "as_ref", "borrow", "clone") and k[2]:
                        k = k[2][0]
                    kf = [g for g in P.fns.values() if k[0] == "call" and g.sname == k[1]]
                    ctx.ob("own-key", "%s in %s" % (m, P.root_of(f).sname), bool(kf), c.where, "the key is not made by the common key function")
                    for g in kf:
                        keyfns[g.id] = g
                    if m == "get" and k[0] == "call":
                        ctx.ob("own-key", "looked up for the registry named by the request in %s" % P.root_of(f).sname, is_hdr(k) or k[2][0][0] in ("arg", "upvar"), c.where,
                               "the lookup key does not come from the request's registry")
                elif m in ("iter", "values", "into_iter", "into_values", "keys", "drain", "iter_mut", "values_mut"):
                    ctx.ob("own-key", "%s in %s" % (m, P.root_of(f).sname), False, c.where, "credentials are picked by going through all of them")
    ctx.ob("own-key", "one key function", len(keyfns) == 1, "", "%d functions make keys" % len(keyfns))
    for g in keyfns.values():
        calls = [c for fid in reach(P, [g]) for c in P.fns[fid].calls()]
        acc = {c.res[len(URL):] for c in calls if c.res.startswith(URL)}
        for want, what in ((("host_str", "host"), "host"), (("port", "port_or_known_default"), "port"), (("path",), "path")):
            ctx.ob("own-key", "key has the %s" % what, bool(acc & set(want)), g.where, "the key function never reads the URL's %s" % what)
        bad = [c for c in calls if c.res.rsplit("::", 1)[1].startswith(LOSSY) and ("str::" in c.res or "String" in c.res or "Iterator" in c.decl or "slice" in c.res)]
        ctx.ob("own-key", "key is exact", not bad, bad[0].where if bad else g.where, "the key function leaves parts out: %s" % (bad[0].res if bad else ""))
        # what it reads ends up in the result
        for acc_c in calls:
            if acc_c.res.startswith(URL) and acc_c.fn.id == g.id:
                fl = G.forward({G.node(acc_c.fn, acc_c.dest, write=True)}, lambda a, b, c, ai: c in ("test",))
                ctx.ob("own-key", "%s is part of the key" % acc_c.res, ('L', g.id, 0) in fl, acc_c.where, "read but not part of the key")
    ctx.floor("own-key", 6)
    # clients
    nb = ns = 0
    for f in P.fns.values():
        if f.crate in ("oro_shim_bin",):
            continue
        for c in f.calls():
            if c.res.startswith(RAW) and not c.res.endswith(("::clone",)) and c.res.rsplit("::", 1)[1] in ("get", "post", "put", "patch", "delete", "head", "request", "execute"):
                ctx.ob("guarded-clients", "%s in %s" % (c.res, P.root_of(f).sname), False, c.where, "request made by a client that does not go through the credentials code")
            if c.res == "reqwest_middleware::client::ClientBuilder::build":
                nb += 1
                alts = chain_terms(P, sym.sym_op(f, c.args[0]))
                ok = bool(alts) and all(a is not None and any(x[1].endswith("ClientBuilder::with") and is_auth(P, x) for x in a) for a in alts)
                ctx.ob("guarded-clients", "client %s in %s" % (dest_name(f, c), P.root_of(f).sname), ok, c.where, "a client can be built without the code that adds credentials")
            if c.res.startswith("reqwest_middleware::client::ClientWithMiddleware::new"):
                ctx.ob("guarded-clients", "%s in %s" % (c.res, P.root_of(f).sname), False, c.where, "client built outside of the builder")
            if c.res in [x + "send" for x in REQ] or c.res in [x + "build" for x in REQ] or c.res.endswith("ClientWithMiddleware::execute"):
                ns += 1
                alts = chain_terms(P, sym.sym_op(f, c.args[0]))
                ok = bool(alts)
                for a in alts:
                    h = [x for x in (a or []) if x[1].endswith("RequestBuilder::header") and len(x[2]) > 2 and is_hdr(x[2][1])]
                    if not h or not all(names_registry(x[2][2]) for x in h):
                        ok = False
                ctx.ob("names-registry", "request in %s" % P.root_of(f).sname, ok, c.where, "the request does not name the registry of its client, and only that")
    pairs(ctx)
    ctx.floor("guarded-clients", 2)
    ctx.floor("names-registry", 5)


NEXT = "core::iter::traits::iterator::Iterator::next"


def elems(s):
    """(iteration, field) of the option values in a term"""
    return {(x[3][4] if x[3][0] == "call" else repr(x[3]), x[2]) for x in sym.walk(s) if x[0] == "fld" and x[1] == "" and x[2] in ("0", "1", "2") and (x[3][0] == "call" and len(x[3]) > 4 or x[3][0] in ("arg", "upvar"))}


class Pair(MustRule):
    """a user name and its password were given for the same registry"""

    def __init__(self, ctx, f, call):
        self.ctx, self.f, self.call = ctx, f, call
        u = elems(sym.sym_op(f, call.args[1]))
        n = elems(sym.sym_op(f, call.args[2]))
        self.url = {e for e, k in u if k == "0"}
        ctx.ob("same-entry", "user name given for the registry in %s" % ctx.P.root_of(f).sname, len(self.url) == 1 and {e for e, k in n if k == "2"} == self.url, call.where, "the user name comes from another entry than the registry")
        self.urlargs = set()
        self.follow(f, call.args[3])

    def follow(self, f, o):
        self.f = f
        self.locs = set()
        todo = [o[1][0]] if o[0] in "cm" else []
        while todo:
            l = todo.pop()
            if l in self.locs:
                continue
            self.locs.add(l)
            for d in f.defs().get(l, []):
                rv = d[3]
                ops = []
                if isinstance(rv, (tuple, list)):
                    ops = [rv[1]] if rv[0] == "use" else (rv[2] if rv[0] == "agg" else [["c", rv[2]]] if rv[0] == "ref" else [])
                else:
                    ops = rv.args
                todo += [x[1][0] for x in ops if x[0] in "cm"]

    def enter(self, f):
        return f.crate == self.f.crate

    def sym_fact(self, f, s, val):
        if s[0] == "un" and s[1] == "Not" and isinstance(val, bool):
            return self.sym_fact(f, s[2], not val)
        if isinstance(val, bool) and s[0] == "call" and s[3] in ("core::cmp::PartialEq::eq", "core::cmp::PartialEq::ne") and val is s[3].endswith("::eq") and len(s[2]) == 2:
            a, b = ({e for e, k in elems(t) if k == "0"} or {u for u in self.urlargs if any(y == u for y in sym.walk(t))} for t in s[2])
            if a <= self.urlargs and a:
                a = set(self.url)
            if b <= self.urlargs and b:
                b = set(self.url)
            if len(a) == 1 and len(b) == 1 and not any(x[0] == "call" and x[1].startswith(URL) and x[1] != URL + "parse" for t in s[2] for x in sym.walk(t)):
                return frozenset(("same",) + tuple(sorted((x, y))) for x in a for y in b)
        return frozenset()

    def judge(self, t, st, where, eng):
        for e, k in elems(t):
            if k != "2":
                continue
            ok = e in self.url or any(("same",) + tuple(sorted((e, u))) in st.facts for u in self.url)
            self.ctx.ob("same-entry", "password given for the registry in %s" % self.ctx.P.root_of(self.f).sname, ok, where, "the password may come from the entry of another registry")

    def check_stmt(self, f, b, i, s, st, ch, eng):
        if f.id == self.f.id and len(s[0]) == 1 and s[0][0] in self.locs and s[1][0] == "agg" and isinstance(s[1][1], dict) and s[1][1].get("v") == "Some":
            self.judge(sym.sym_rv(f, s[1]), st, "%s:%s" % (f.file, s[2]), eng)

    def check(self, c, st, ch, eng):
        if c.fn.id != self.f.id or not c.dest or c.dest[0] not in self.locs:
            return
        tail = c.res.rsplit("::", 1)[1]
        if c.decl.startswith("core::iter::traits::iterator::Iterator::") and tail in ("find", "filter", "find_map", "filter_map"):
            for a in c.args[1:]:
                for cid in eng.closure_of(c.fn, a):
                    s = eng.visit(self.ctx.P.fns[cid], frozenset(), {}, None)
                    from ..must import State
                    x = State(s.facts, {0: s.cond}).look(0, (), True if tail in ("find", "filter") else "Some")
                    ok = x is UN or any(y[0] == "same" and self.url & set(y[1:]) for y in x)
                    self.ctx.ob("same-entry", "password looked for in %s" % self.ctx.P.root_of(self.f).sname, ok, c.where, "the password may come from the entry of another registry")


def pairs(ctx):
    P = ctx.P
    for f in P.fns.values():
        if f.crate not in ("orogene", "oro.bin"):
            continue
        for c in f.calls():
            if len(c.args) == 4 and c.res.startswith("oro_client::") and any(
                    st[1][0] == "agg" and isinstance(st[1][1], dict) and st[1][1].get("adt") == CRED and st[1][1]["v"] == "Basic" for g in P.byname.get(c.res, []) for b in g.rpo() for st in g.bbs[b]["s"]):
                r = Pair(ctx, f, c)
                Engine(P, r).visit(P.root_of(f), frozenset(), {}, [])
                t = sym.sym_op(f, c.args[3])
                for x in sym.walk(t):
                    if x[0] == "call" and x[1] in P.byname and P.byname[x[1]][0].crate == f.crate:
                        g = P.byname[x[1]][0]
                        r.urlargs = {("arg", g.id, i + 1) for i, a in enumerate(x[2]) if {e for e, k in elems(a) if k == "0"} == r.url}
                        r.follow(g, ["m", [0]])
                        Engine(P, r).visit(g, frozenset(), {}, [])
    ctx.floor("same-entry", 2)


def is_auth(P, x):
    for a in x[2][1:]:
        for y in sym.walk(a):
            if y[0] == "agg" and y[1] in [f.self_ty for f in P.fns.values() if f.trait and f.trait.endswith("middleware::Middleware")]:
                return any(z[0] == "fld" and z[2] == "credentials" for z in sym.walk(y))
    return False


def dest_name(f, c):
    d = sym_user(f, c)
    return d


def sym_user(f, c):
    # the field the built client is stored in
    l = c.dest[0]
    for bb in f.bbs:
        for s in bb["s"]:
            if s[1][0] == "agg" and isinstance(s[1][1], dict) and "f" in s[1][1]:
                for n, o in zip(s[1][1]["f"], s[1][2]):
                    if o[0] in "cm" and o[1][0] == l:
                        return n
    return "?"
