"""Registry selection: symbolic terms show that the client asked for a package's metadata was
made for the registry picked by the scope of that same package, must-facts show the order of
the choice (scope's own registry, then the default one, then npmjs), and the options that fill
the table of registries are traced to it."""
from ..must import MustRule, Engine, UN
from ..each import each
from .. import sym

SPEC = "oro_package_spec::PackageSpec"
CLIENT = "oro_client::client::OroClient"
ASK = ("oro_client::api::packument::packument", "oro_client::api::packument::corgi_packument")
NPMJS = "registry.npmjs.org"


def short(f):
    return f.prog.root_of(f).sname


def table(c):
    """a call on the table of registries"""
    return c.gens and len(c.gens) >= 2 and c.gens[0] == "core::option::Option<alloc::string::String>" and c.gens[1] == "url::Url"


def lookups(s):
    return [x for x in sym.walk(s) if x[0] == "call" and x[1] in ("std::collections::hash::map::HashMap::get", "<std::collections::hash::map::HashMap as core::ops::index::Index>::index")
            and any(y[0] == "fld" and y[2] == "registries" for y in sym.walk(x[2][0]))]


def none_key(x):
    return x[2][1][0] == "agg" and x[2][1][2] == "None"


def bases(s, field):
    return [x[3] for x in sym.walk(s) if x[0] == "fld" and x[1] == SPEC and x[2] == field and x[4] in ("Npm", None)]


def same(a, b):
    return a and all(x == y for x in a for y in b)


class Order(MustRule):
    def __init__(self, ctx):
        self.ctx = ctx
        self.n = 0

    def enter(self, f):
        return f.crate == "nassun"

    def sym_fact(self, f, s, val):
        if val == "None" or (val is True and s[0] == "call" and s[1].endswith("::is_none")) or (val is False and s[0] == "call" and s[1].endswith(("::is_some", "::contains_key"))):
            out = set()
            if s[0] == "call" and s[1].endswith("::contains_key"):
                s = ("call", "std::collections::hash::map::HashMap::get", s[2], "")
            ls = lookups(s)
            if ls and all(not none_key(x) for x in ls):
                out.add(("unscoped",))
            if ls and any(none_key(x) for x in ls):
                out.add(("nodefault",))
            return frozenset(out)
        return frozenset()

    def gen(self, c, st, eng):
        if c.res == "std::collections::hash::map::HashMap::get" and table(c):
            k = sym.sym_op(c.fn, c.args[1])
            return frozenset(), {((), "None"): frozenset([("nodefault",) if k[0] == "agg" and k[2] == "None" else ("unscoped",)])}
        return frozenset(), {}

    def uses(self, f, terms, st, where, how):
        for t in terms:
            for s in [t]:
                if any(none_key(x) for x in lookups(s)) and s[0] != "clo":
                    self.n += 1
                    self.ctx.ob("order", "default registry used in %s" % short(f), ("unscoped",) in st.facts, where, "the default registry is used although the scope may have one of its own")
                if any(isinstance(k, str) and NPMJS in k for k in sym.consts_in(("x", s))):
                    self.n += 1
                    self.ctx.ob("order", "npmjs used in %s" % short(f), ("unscoped",) in st.facts and ("nodefault",) in st.facts, where, "npmjs is used although a registry may be configured")

    CHAIN = ("or", "or_else", "unwrap_or", "unwrap_or_else", "map_or", "map_or_else", "xor", "zip", "and", "and_then", "map", "unwrap_or_default")

    def first(self, t):
        """the lookup whose answer a chain of alternatives prefers"""
        while t[0] == "call" and t[1].startswith("core::option::Option::") and t[2]:
            t = t[2][0]
        ls = lookups(t)
        return ls[0] if ls else None

    def strict(self, f):
        """npmjs given as the last alternative of a chain"""
        for c in f.calls():
            if c.res == "core::option::Option::unwrap_or":
                a, b = (sym.sym_op(f, x) for x in c.args[:2])
                x = self.first(a)
                if x is not None and not none_key(x) and any(none_key(y) for z in sym.closure_terms(f.prog, a) for y in lookups(z)):
                    return True
        return False

    def check(self, c, st, ch, eng):
        f = c.fn
        if f.crate != "nassun" or not self.scope(f):
            return
        ts = [sym.sym_op(f, a) for a in c.args]
        if c.res.startswith("core::option::Option::") and c.res.rsplit("::", 1)[1] in self.CHAIN:
            x = self.first(ts[0])
            if x is not None and none_key(x):
                self.uses(f, [x], st, c.where, c.res)
            return
        if c.decl.startswith("core::str::parse") or c.decl.startswith("url::Url::parse"):
            if not self.strict(self.ctx.P.root_of(f)):
                self.uses(f, ts, st, c.where, c.res)
            return
        if c.decl in sym.TRANSPARENT or c.decl in sym.UNWRAP or c.decl.startswith("core::option::Option::"):
            return
        self.uses(f, [t for t in ts if (self.first(t) or (0,)) and not (self.first(t) is not None and not none_key(self.first(t)))], st, c.where, c.res)

    def scope(self, f):
        k = "p09scope"
        r = self.ctx.P.root_of(f)
        if k not in r.cache:
            r.cache[k] = any(table(c) and c.res.endswith("::get") for g in self.fam(r) for c in g.calls())
        return r.cache[k]

    def fam(self, r):
        out = [r]
        for g in out:
            out += [x for x in g.children if x not in out]
        return out

    def check_stmt(self, f, b, i, s, st, ch, eng):
        if self.scope(f) and s[1][0] == "use" and (s[0][0] == 0 or len(f.defs().get(s[0][0], ())) > 1):
            self.uses(f, [sym.sym_rv(f, s[1])], st, "%s:%s" % (f.file, s[2]), "")

    def exit(self, f, st, ch, eng):
        """what a function returns directly from a call"""


class Ret(MustRule):
    pass


def requests(ctx):
    P = ctx.P
    for f in P.fns.values():
        for c in f.calls():
            if c.res not in ASK and not (c.res.startswith("oro_client::") and c.res.rsplit("::", 1)[1] in ("packument", "corgi_packument")):
                continue
            if f.crate == "oro_client":
                continue
            what = "%s in %s" % (c.res.rsplit("::", 1)[1], short(f))
            who, name = sym.sym_op(f, c.args[0]), sym.sym_op(f, c.args[1])
            for w, nm in sym.instances(P, f, [who, name], 2) if not any(y[0] == "fld" and y[1] == SPEC for y in sym.walk(name)) else [(who, name)]:
                nb = bases(nm, "name")
                ok, det = bool(nb), "the name asked for is not that of the package"
                for t in alts(P, w):
                    if not ok:
                        break
                    wr = [x for x in sym.walk(t) if x[0] == "call" and x[1] == CLIENT + "::with_registry"]
                    if not wr:
                        ok, det = False, "the client is not made for the package's registry"
                        break
                    full = [y for z in sym.expand(P, wr[0][2][1], 3, lambda n: n.startswith('nassun::')) for y in sym.closure_terms(P, z)]
                    keys = [k[2][1] for z in full for k in lookups(z) if not none_key(k)]
                    sb = [b for k in keys for b in bases(k, "scope")]
                    if not keys:
                        ok, det = False, "the registry is not picked from the configured ones by the package's scope"
                    elif len(sb) != len(keys) or not same(sb, nb):
                        ok, det = False, "the registry is picked by something other than the scope of the package asked for"
                    else:
                        for z in full:
                            if not (lookups(z) or any(isinstance(k, str) and NPMJS in k for k in sym.consts_in(("x", z)))):
                                ok, det = False, "the registry may be something other than a configured one or npmjs"
                ctx.ob("asked", what, ok, c.where, det)
            # what is remembered under a name is what was asked for under it
    for f in P.fns.values():
        if f.crate != "nassun":
            continue
        for c in f.calls():
            if c.res.startswith("dashmap::DashMap::") and c.res.rsplit("::", 1)[1] in ("insert", "get") and c.gens and c.gens[0] == "alloc::string::String":
                k = sym.sym_op(f, c.args[1])
                nb = bases(k, "name")
                ok, det = bool(nb), "not remembered under the name of the package asked for"
                if c.res.endswith("insert"):
                    v = sym.sym_op(f, c.args[2])
                    rq = [x for x in sym.walk(v) if x[0] == "call" and x[1] in ASK] or [x for t in sym.multi(P, v, 2) for x in sym.walk(t) if x[0] == "call" and x[1] in ASK]
                    if ok and rq and not all(same(bases(x[2][1], "name"), nb) for x in rq):
                        ok, det = False, "remembered under another package's name"
                else:
                    asks = [x for x in f.calls() if x.res in ASK]
                    if ok and asks and not all(same(bases(sym.sym_op(f, x.args[1]), "name"), nb) for x in asks):
                        ok, det = False, "looked up under another package's name"
                ctx.ob("memo", "%s in %s" % (c.res.rsplit("::", 1)[1], short(f)), ok, c.where, det)


def alts(P, t):
    """alternatives of the client: locals with several definitions outside the package's own terms"""
    if t[0] == "multi":
        return sym.multi(P, t, 2)
    return sym.expand(P, t, 2, lambda n: n.startswith("nassun::") and not any(n == g.sname and any(table(c) for c in g.calls()) for g in P.byname[n])) if any(x[0] == "call" and x[1].startswith("nassun::") for x in sym.walk(t)) and not any(x[0] == "call" and x[1] == CLIENT + "::with_registry" for x in sym.walk(t)) else [t]


def filled(ctx):
    """the builder's table"""
    P = ctx.P
    for f in P.fns.values():
        if f.crate != "nassun":
            continue
        for c in f.calls():
            if not (table(c) and c.res == "std::collections::hash::map::HashMap::insert"):
                continue
            k, v = sym.sym_op(f, c.args[1]), sym.sym_op(f, c.args[2])
            if f.argc >= 1 and any(x[0] == "fld" and x[2] == "registries" for x in sym.walk(sym.sym_op(f, c.args[0]))):
                none = k[0] == "agg" and k[2] == "None"
                args = {x[2] for x in sym.walk(v) if x[0] == "arg" and x[1] == f.id}
                kargs = {x[2] for x in sym.walk(k) if x[0] == "arg" and x[1] == f.id}
                urls = {l for l in range(1, f.argc + 1) if f.lty(l) == "url::Url"}
                ok = args == urls and len(args) == 1
                if not none:
                    strip = [x for x in sym.walk(k) if x[0] == "call" and x[1] in ("core::str::strip_prefix", "core::str::trim_start_matches")]
                    ok = ok and bool(kargs - args - {1}) and bool(strip) and all("@" in sym.consts_in(("x", x)) for x in strip)
                else:
                    ok = ok and len(urls) == f.argc - 1
                ctx.ob("filled", "%s registry in %s" % ("default" if none else "scope's", f.sname), ok, c.where, "not stored under its own scope (without the @)")
    for f in P.fns.values():
        for b in f.rpo():
            for st in f.bbs[b]["s"]:
                rv = st[1]
                if rv[0] == "agg" and isinstance(rv[1], dict) and rv[1].get("adt") == CLIENT and not (f.trait or "").startswith("core::clone"):
                    o = dict(zip(rv[1]["f"], rv[2]))["registry"]
                    t = sym.sym_op(f, o)
                    urls = {l for l in range(1, f.argc + 1) if f.lty(l) == "url::Url"}
                    args = {x[2] for x in sym.walk(t) if x[0] == "arg" and x[1] == f.id}
                    if urls:
                        ctx.ob("filled", "client's registry in %s" % f.sname, args == urls, "%s:%s" % (f.file, st[2]), "the client is made for another registry than the one given")
                    else:
                        ctx.ob("filled", "client's registry in %s" % f.sname, any(x[0] == "fld" and x[2] == "registry" for x in sym.walk(t)), "%s:%s" % (f.file, st[2]), "the client is made for another registry than the one configured")


def addresses(ctx):
    """every metadata request is made below the client's registry, for the name given"""
    P = ctx.P
    n = 0
    for f in P.fns.values():
        if f.crate != "oro_client":
            continue
        for c in f.calls():
            if c.res.startswith("reqwest_middleware::client::ClientWithMiddleware::") and c.res.rsplit("::", 1)[1] in ("get", "post", "put", "delete", "head", "request", "patch"):
                i = 2 if c.res.endswith("::request") else 1
                fam = [g for g in P.fns.values() if P.root_of(g).id in {P.root_of(x).id for x in (f,)}]
                for t, in sym.instances(P, f, [sym.sym_op(f, c.args[i])], 3):
                    if not any(x[0] == "call" and x[1] == "url::Url::join" for x in sym.walk(t)):
                        continue
                    n += 1
                    j = [x for x in sym.walk(t) if x[0] == "call" and x[1] == "url::Url::join"][0]
                    ok = any(x[0] == "fld" and x[1] == CLIENT and x[2] == "registry" for x in sym.walk(j[2][0]))
                    who = "%s:%s" % (P.root_of(f).sname, ",".join(str(k) for k in sym.consts_in(("x", j[2][1])))[:40] or "name")
                    ctx.ob("address", "request in %s" % who, ok, c.where, "the request is not made below the client's registry")
                    if P.root_of(f).sname.startswith("oro_client::api::packument"):
                        a = [x for x in sym.walk(j[2][1]) if x[0] in ("arg", "fld", "multi")]
                        ctx.ob("address", "name in %s" % who, bool(a), c.where, "the request is not for the name given")


def slash(ctx):
    """the registry stored in a client ends in a slash, so that nothing of it is dropped when joined"""
    P = ctx.P
    for f in P.fns.values():
        if f.crate != "oro_client":
            continue
        for b in f.rpo():
            for st in f.bbs[b]["s"]:
                rv, tgt = st[1], None
                if rv[0] == "agg" and isinstance(rv[1], dict) and rv[1].get("adt") == CLIENT and not (f.trait or "").startswith("core::clone"):
                    tgt = dict(zip(rv[1]["f"], rv[2]))["registry"]
                elif any(e.startswith(".registry#oro_client::client::OroClientBuilder") for e in st[0][1:]) and rv[0] == "use":
                    tgt = rv[1]
                if tgt is None:
                    continue
                t = sym.sym_op(f, tgt)
                urls = [x for x in sym.walk(t) if x[0] == "arg" and x[1] == f.id and f.lty(x[2]) == "url::Url"]
                if not urls:
                    continue
                ok = any(x[0] == "call" and x[1] in P.byname and slashed(P, P.byname[x[1]][0]) for x in sym.walk(t)) or slashed(P, f)
                ctx.ob("below", "registry kept by %s" % f.sname, ok, "%s:%s" % (f.file, st[2]), "the address is kept without a slash at its end: the last segment is lost when names are joined to it")


def slashed(P, f):
    """does the function see to a slash at the end of a path?"""
    cs = list(f.calls()) + [c for g in f.children for c in g.calls()]
    test = any(c.res.endswith("::ends_with") and any(k in ("/", 47) for a in c.args[1:] for k in sym.consts_in(("x", sym.sym_op(f, a)))) for c in cs) or any(c.res == "url::Url::path_segments_mut" for c in cs)
    return test and any(c.res in ("url::Url::set_path", "url::path_segments::PathSegmentsMut::push", "url::Url::parse", "url::Url::join") or c.res.startswith("url::path_segments") for c in cs)


def forwarded(ctx):
    """the options reach the table"""
    P = ctx.P
    for m, field, n in (("nassun::client::NassunOpts::registry", "registry", 1), ("nassun::client::NassunOpts::scope_registry", "scoped_registries", 2)):
        for f in P.fns.values():
            if f.crate not in ("orogene", "oro.bin", "node_maintainer"):
                continue
            for c in f.calls():
                if c.res != m:
                    continue
                ts = [sym.sym_op(f, a) for a in c.args[1:]]
                if f.crate == "node_maintainer":
                    ctx.ob("forwarded", "%s in %s" % (field, f.sname), [[x[2] for x in sym.walk(t) if x[0] == "arg"] for t in ts] == [[i + 2] for i in range(n)], c.where, "the arguments are not handed on")
                    continue
                if n == 1:
                    ctx.ob("forwarded", "%s in %s" % (field, short(f)), any(x[0] == "fld" and x[2] == "registry" for x in sym.walk(ts[0])), c.where, "not made from the registry option")
                    class Must(MustRule):
                        def enter(self, g):
                            return g.crate == f.crate

                        def gen(self, cc, st, eng):
                            return (frozenset([("set",)]) if cc.res == m else frozenset()), {}

                        def check(self, cc, st, ch, eng):
                            if cc.res == "nassun::client::NassunOpts::build":
                                ctx.ob("forwarded", "%s before %s" % (field, "building in " + short(cc.fn)), ("set",) in st.facts, cc.where, "the registry option is not always handed on")
                    Engine(P, Must()).visit(P.root_of(f), frozenset(), {}, [])
                else:
                    el = [[x[2] for x in sym.walk(t) if x[0] == "fld" and x[2] in ("0", "1") and any(y[0] == "fld" and y[2] == field for y in sym.walk(x[3]))] for t in ts]
                    cl = [[x[2] for x in sym.walk(t) if x[0] == "fld" and x[2] in ("0", "1")] for t in ts]
                    ctx.ob("forwarded", "%s elements in %s" % (field, short(f)), [e[:1] for e in (el if el[0] else cl)] == [["0"], ["1"]], c.where, "scope and registry do not come from the same option value")
                    ok, sk = each(P, P.root_of(f), lambda t: any(x[0] == "fld" and x[2] == field for x in sym.walk(t)), lambda cc: cc.res == m)
                    ctx.ob("forwarded", "every element of %s in %s" % (field, short(f)), ok, sk[0] if sk else c.where, "an option value can be left out")
    # between the argument structs
    for f in P.fns.values():
        if f.crate not in ("orogene", "oro.bin") or (f.trait or "").startswith("core::clone"):
            continue
        for b in f.rpo():
            for st in f.bbs[b]["s"]:
                rv = st[1]
                if rv[0] == "agg" and isinstance(rv[1], dict) and rv[1].get("adt", "").startswith("orogene::") and "scoped_registries" in rv[1]["f"]:
                    for fld, o in zip(rv[1]["f"], rv[2]):
                        if fld in ("registry", "scoped_registries"):
                            t = sym.sym_op(f, o)
                            if any(x[0] == "call" and x[1].startswith(("clap", "<")) for x in sym.walk(t)) or f.trait:
                                continue
                            ctx.ob("forwarded", "%s of %s in %s" % (fld, rv[1]["adt"].rsplit("::", 1)[1], f.sname), any(x[0] == "fld" and x[2] == fld and x[1] != rv[1]["adt"] for x in sym.walk(t)), "%s:%s" % (f.file, st[2]), "not filled from the option of that name")
    ctx.floor("forwarded", 6)


def check(ctx):
    ctx.rule("asked", "metadata is asked of a client made for the registry picked by the scope of that package")
    ctx.rule("order", "scope's registry, else the default one, else npmjs")
    ctx.rule("memo", "remembered metadata is stored and looked up under the package's own name")
    ctx.rule("filled", "registries are stored under their scope; clients are made for the registry given")
    ctx.rule("address", "requests are made below the client's registry")
    ctx.rule("below", "no part of the registry's address is lost")
    ctx.rule("forwarded", "the registry options reach the table")
    requests(ctx)
    o = Order(ctx)
    e = Engine(ctx.P, o)
    for f in ctx.P.fns.values():
        if f.crate == "nassun" and f.kind != "Closure" and o.scope(f):
            e.visit(f, frozenset(), {}, [])
            # the value returned
            for t in sym.returns(ctx.P, f):
                pass
    filled(ctx)
    addresses(ctx)
    slash(ctx)
    forwarded(ctx)
    ctx.floor("asked", 2)
    ctx.floor("memo", 4)
    ctx.floor("address", 5)
    ctx.floor("below", 2)
