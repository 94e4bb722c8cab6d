"""Options take effect: every store of an option is traced to the option it must be the value of,
the settings are all made on every way to the thing they configure, and each is what the limit,
policy, proxy, cache or layout it names is made from."""
from .. import sym, cg
from ..must import MustRule, Engine
from ..model import Call
from ..fwd import writes
from .p14 import norm

A, N, C = "orogene::apply_args::ApplyArgs", "orogene::nassun_args::NassunArgs", "orogene::client_args::ClientArgs"
B, NO = "oro_client::client::OroClientBuilder", "nassun::client::NassunOpts"
NM, L, R = "node_maintainer::maintainer::NodeMaintainerOptions", "node_maintainer::linkers::LinkerOptions", "node_maintainer::resolver::Resolver"
NASSUN, PR = "nassun::client::Nassun", "nassun::resolver::PackageResolver"
OPTIONS = {
    "retries": [(x, "retries") for x in (A, N, C, B)],
    "proxy": [(x, "proxy") for x in (A, N, C, B)],
    "proxy_url": [(x, "proxy_url") for x in (A, N, C, B)],
    "no_proxy_domain": [(x, "no_proxy_domain") for x in (A, N, C, B)],
    "cache": [(x, "cache") for x in (A, N, C, B, NO, NASSUN, "nassun::package::Package", NM, L)],
    "default_tag": [(x, "default_tag") for x in (A, N, NO, PR)],
    "root": [(A, "root"), (N, "root"), (NO, "base_dir"), (PR, "base_dir"), (NM, "root"), (R, "root"), (L, "root")],
    "concurrency": [(x, "concurrency") for x in (A, NM, R, L)],
    "script_concurrency": [(x, "script_concurrency") for x in (A, NM, L)],
    "prefer_copy": [(x, "prefer_copy") for x in (A, NM, L)],
    "hoisted": [(x, "hoisted") for x in (A, NM)],
    "nassun": [(x, "nassun") for x in (NM, R)],
}
SETS = {B: ("registry",)}
NEED = {B: ("retries", "proxy", "cache", "no_proxy_domain", "proxy_url"), NO: ("cache", "base_dir", "default_tag", "client"),
        NM: ("nassun", "cache", "root", "concurrency", "script_concurrency", "prefer_copy", "hoisted", "locked")}
DONE = {"oro_client::client::OroClientBuilder::build": B, "nassun::client::NassunOpts::build": NO,
        "node_maintainer::maintainer::NodeMaintainerOptions::resolve_manifest": NM, "node_maintainer::maintainer::NodeMaintainerOptions::resolve_spec": NM}
SAME = ("::clone", "::to_owned", "::into", "::from", "::as_ref", "::to_path_buf", "::to_string", "::as_deref", "::as_str", "::as_path", "::cloned", "Arc::new", "::borrow", "::deref",
        "::to_string_lossy", "::into_owned", "::as_os_str")
OR_ELSE = ("Option::unwrap_or_else", "Option::unwrap_or", "Option::unwrap_or_default", "Option::expect", "Option::unwrap")


def same_fn(P, t):
    """the function given back what it is given"""
    if t[0] == "clo" and t[1] in P.fns:
        return all(peel(P, r)[0] == "arg" for r in sym.returns(P, P.fns[t[1]]))
    return t[0] == "fn" and t[1].endswith(SAME)


def peel(P, t):
    while True:
        if t[0] == "call" and t[1].endswith("Option::map") and len(t[2]) == 2 and same_fn(P, t[2][1]):
            t = t[2][0]
            continue
        if t[0] == "agg" and t[2] == "Some" and len(t[3]) == 1:
            t = t[3]["0"]
        elif t[0] == "call" and len(t[2]) == 1 and (t[1].endswith(SAME) or t[3].endswith(SAME)):
            t = t[2][0]
        elif t[0] == "call" and t[2] and t[1].endswith(OR_ELSE):
            t = t[2][0]
        elif t[0] == "call" and len(t[2]) == 2 and t[1].startswith("core::cmp") and t[1].endswith("max") and ("const", 1) in t[2]:
            # none at all is not a limit
            t = [x for x in t[2] if x != ("const", 1)][0]
        elif t[0] == "un" and t[1] == "Not" and t[2][0] == "un" and t[2][1] == "Not":
            t = t[2][2]
        else:
            return t


def given(P, t):
    """is the parameter one only programs using the library pass?"""
    return t[0] == "arg" and not cg.callers(P).get(t[1], ())


def proxy_of(P, t):
    """the address a proxy is made from"""
    while t[0] == "call" and t[1].startswith("reqwest::proxy::Proxy::") and not t[1].endswith("::all"):
        t = t[2][0]
    if t[0] == "call" and t[1].endswith("reqwest::proxy::Proxy::all"):
        t = peel(P, t[2][0])
        while t[0] == "call" and t[2] and (t[1].startswith("url::Url::") or "Url" in t[1]):
            t = peel(P, t[2][0])
        return t
    return t


def options(P, f, t):
    """(type, field) of the options a term (a helper's parameter: at each of its callers) is"""
    out = None
    for x in alts(P, f, t) if t[0] == "arg" else (t,):
        y = peel(P, x)
        here = {(y[1], y[2])} if y[0] == "fld" else set()
        out = here if out is None else out & here if not here or here & out else set()
    return out or set()


def generated(f):
    return f.derived or "FromArgMatches" in (f.trait or "") or "::from_arg_matches" in f.sname or f.sname.endswith("update_from_arg_matches_mut")


def alts(P, f, t, depth=4):
    seen = set()
    for s in sym.multi(P, t):
        for ts in sym.instances(P, f, [s], depth):
            for y in sym.multi(P, ts[0]):
                for xs in sym.instances(P, f, [y], depth):
                    if str(xs[0]) not in seen:
                        seen.add(str(xs[0]))
                        yield xs[0]


def spread(P, f, t, at, depth=6):
    """(where it was put there, what) of each value a local with several definitions may hold"""
    t = peel(P, t)
    if t[0] != "multi" or depth == 0:
        yield at, t
        return
    g = P.fns[t[1]]
    for d in g.defs().get(t[2], ()):
        x = sym.sym_call(g, d[3]) if isinstance(d[3], Call) else sym.sym_rv(g, d[3])
        if len(d[2]) == 1 and x != t:
            yield from spread(P, g, x, (g.id, d[0]), depth - 1)


def hops(ctx, absent):
    P = ctx.P
    for name, fs in OPTIONS.items():
        ok_src = set(fs)
        for a, fl in fs:
            if a not in P.adts:
                continue
            for f, b, i, t in writes(P, a, fl):
                if generated(f):
                    continue
                default = (f.trait or "").endswith("default::Default")
                g = P.root_of(f)
                carried = any(x in g.lty(k) for k in range(1, g.argc + 1) for x, _ in fs)
                for at, z in spread(P, f, t, (f.id, b)):
                    unset = name in absent.get(at, ())
                    for x in alts(P, P.fns[at[0]], z):
                        y = peel(P, x)
                        if name == "proxy_url":
                            y = proxy_of(P, y)
                            if y[0] == "multi" or y[0] == "call" and y[1].startswith("reqwest::proxy::Proxy::"):
                                continue
                        ok = y[0] == "fld" and (y[1], y[2]) in ok_src or given(P, y) or default and y[0] in ("const", "agg", "named", "call")
                        ok = ok or unset or y[0] == "agg" and y[2] == "None" and not carried
                        ok = ok or name == "nassun" and y[0] == "call" and y[1].startswith(("orogene::", "<orogene::"))
                        ok = ok or name == "proxy" and y == ("const", True) and any(j for j in writes(P, a, "proxy_url") if j[0].id == f.id)
                        ctx.ob("value", "%s in %s" % (name, g.sname), ok, "%s:%s" % (f.file, f.line_of(b, i)),
                               "%s of %s may get something else than the %s option" % (fl, a.rsplit("::", 1)[1], name))


def registries(ctx):
    P = ctx.P
    for f in P.fns.values():
        if f.crate == "orogene":
            for c in f.calls():
                if c.res in (B + "::registry", NO + "::registry"):
                    for x in alts(P, f, sym.sym_op(f, c.args[1])):
                        y = peel(P, x)
                        ctx.ob("value", "registry in %s" % P.root_of(f).sname, y[0] == "fld" and y[2] == "registry", c.where, "the registry may be another one than that given")


class Made(MustRule):
    """("set", type, field): the setting was made on the way here, or its option is not given"""

    def __init__(self, ctx):
        self.ctx, self.P = ctx, ctx.P

    def relevant(self, x):
        return x[0] == "set"

    def enter(self, f):
        return f.crate in ("orogene", "nassun", "node_maintainer", "oro_client") and not generated(f)

    def gen_stmt(self, f, b, i, s, st, eng):
        if len(s[0]) > 1 and s[0][-1].startswith(".") and "#" in s[0][-1]:
            n, _, a = s[0][-1][1:].partition("#")
            if n in NEED.get(a, ()) + SETS.get(a, ()):
                return frozenset([("set", a, n)]), None
        return frozenset(), None

    def sym_fact(self, f, s, val):
        if val == "None" or s[0] == "call" and val is s[1].endswith("is_none") and s[1].endswith(("Option::is_none", "Option::is_some")):
            os = {x for x in options(self.P, f, peel(self.P, s[2][0] if val != "None" else s)) if x[0] in (A, N, C)}
            return frozenset(("set", a, n) for k, fs in OPTIONS.items() if os & set(fs) for a, n in fs if n in NEED.get(a, ()))
        return frozenset()

    def gen(self, c, st, eng):
        out = set()
        if len(c.dest) > 1 and c.dest[-1].startswith(".") and "#" in c.dest[-1]:
            n, _, a = c.dest[-1][1:].partition("#")
            if n in NEED.get(a, ()) + SETS.get(a, ()):
                out.add(("set", a, n))
        return frozenset(out), {}

    def kill(self, f, c, st):
        a = DONE.get(c.res)
        return frozenset(x for x in st.facts if x[1] != a) if a else st.facts

    def check(self, c, st, ch, eng):
        a = DONE.get(c.res)
        if a and c.fn.crate == "orogene":
            for n in NEED[a]:
                if any(n == fl and x == a for k, fs in OPTIONS.items() for x, fl in fs) or n in ("client", "nassun", "locked"):
                    self.ctx.ob("made", "%s of what %s makes" % (n, self.P.root_of(c.fn).sname), ("set", a, n) in st.facts, c.where,
                                "it can be made without the %s setting" % n)
            if a == B and not any(d.res == NO + "::client" for d in c.fn.calls()):
                self.ctx.ob("made", "registry of what %s makes" % self.P.root_of(c.fn).sname, ("set", a, "registry") in st.facts, c.where, "it may ask another registry than the one given")
        if c.res == B + "::proxy_url" and c.fn.crate == "orogene":
            self.ctx.ob("made", "no_proxy_domain before the proxy of %s" % self.P.root_of(c.fn).sname, ("set", B, "no_proxy_domain") in st.facts, c.where,
                        "the exclusions are read when the address is given: they have to be set before")


LIMIT = ("try_for_each_concurrent", "for_each_concurrent", "buffer_unordered", "buffered", "try_buffer_unordered", "try_buffered", "flatten_unordered", "try_flatten_unordered")


def ends(ctx):
    P = ctx.P
    scripts = {f.id for f in P.fns.values() if f.sname in ("oro_script::OroScript::new", "oro_script::OroScript::spawn", "oro_script::OroScript::output")}
    for f in P.fns.values():
        if f.crate not in ("node_maintainer", "oro_client", "nassun", "orogene"):
            continue
        for c in f.calls():
            short = c.res.rsplit("::", 1)[-1]
            if "build_with_max_retries" in c.res:
                for x in alts(P, f, sym.sym_op(f, c.args[1])):
                    y = peel(P, x)
                    ctx.ob("used", "retries: the retry policies", y[0] == "fld" and (y[1], y[2]) in OPTIONS["retries"] or given(P, y), c.where, "the number of retries may be another one than asked for")
            elif short in LIMIT and f.crate == "node_maintainer":
                run = set()
                for a in c.args:
                    for x in sym.walk(sym.sym_op(f, a)):
                        if x[0] in ("clo", "fn") and x[1] in P.fns:
                            run |= set(cg.reach(P, [P.fns[x[1]]]))
                want = "script_concurrency" if run & scripts else "concurrency"
                for x in alts(P, f, sym.sym_op(f, c.args[1])):
                    y = peel(P, x)
                    ctx.ob("used", "%s: the limit in %s" % (want, P.root_of(f).sname), y[0] == "fld" and (y[1], y[2]) in OPTIONS[want] or given(P, y), c.where,
                           "it may run another number of things at a time than %s" % want)
            elif c.res.startswith("reqwest::") and short == "proxy":
                for x in alts(P, f, sym.sym_op(f, c.args[1])):
                    y = peel(P, x)
                    ctx.ob("used", "proxy_url: the proxy requests go through", y[0] == "fld" and (y[1], y[2]) in OPTIONS["proxy_url"] or given(P, y), c.where, "requests may go through another proxy than the one given")
            elif c.res.endswith("Proxy::no_proxy"):
                t = sym.sym_op(f, c.args[1])
                ts = [z for x in alts(P, f, t) for z in sym.expand(P, x)]
                ok = any(y[0] == "call" and y[1].endswith("NoProxy::from_string") and any(z[0] == "fld" and (z[1], z[2]) in OPTIONS["no_proxy_domain"] for z in sym.walk(y)) for x in ts for y in sym.walk(x))
                ctx.ob("used", "no_proxy_domain: the exclusions of the proxy", ok, c.where, "the proxy may be used for domains it was not to be used for")
        for b in f.rpo():
            for i, s in enumerate(f.bbs[b]["s"]):
                if s[1][0] == "agg" and isinstance(s[1][1], dict) and s[1][1].get("adt", "").endswith("CACacheManager"):
                    for n, o in zip(s[1][1]["f"], s[1][2]):
                        if n == "path":
                            for x in alts(P, f, sym.sym_op(f, o)):
                                y = peel(P, x)
                                ctx.ob("used", "cache: where responses are kept", y[0] == "fld" and (y[1], y[2]) in OPTIONS["cache"] or given(P, y), "%s:%s" % (f.file, f.line_of(b, i)), "responses may be cached elsewhere than asked for")


class Choice(MustRule):
    """what a setting that is a switch decides"""

    def __init__(self, ctx):
        self.ctx, self.P = ctx, ctx.P

        self.absent = {}

    def relevant(self, x):
        return True

    def enter(self, f):
        return f.crate in ("nassun", "node_maintainer", "oro_client", "orogene") and not generated(f)

    def sym_fact(self, f, s, val):
        if s[0] == "un" and s[1] == "Not" and val in (True, False):
            return self.sym_fact(f, s[2], not val)
        if s[0] == "fld" and val in (True, False) and s[2] in ("hoisted", "prefer_copy", "proxy") and (s[1], s[2]) in OPTIONS[s[2]]:
            return frozenset([(s[2], val)] + ([("settled",)] if (s[2], val) == ("proxy", True) else [("proxied",)] if s[2] == "proxy" else []))
        if val == "None" or s[0] == "call" and s[2] and s[1].endswith(("Option::is_none", "Option::is_some")) and val is s[1].endswith("is_none"):
            os = options(self.P, f, peel(self.P, s[2][0] if val != "None" else s))
            return frozenset(("absent", k) for k, fs in OPTIONS.items() if os & set(fs)) | frozenset([("proxied",)] if (B, "proxy_url") in os else [])
        return frozenset()

    def note(self, f, b, st):
        out = frozenset(x[1] for x in st.facts if x[0] == "absent")
        k = (f.id, b)
        self.absent[k] = self.absent[k] & out if k in self.absent else out

    def check_stmt(self, f, b, i, s, st, ch, eng):
        self.note(f, b, st)
        rv = s[1]
        if f.crate == "node_maintainer" and rv[0] == "agg" and isinstance(rv[1], dict) and rv[1].get("adt", "").endswith("::ExtractMode") and "ardlink" in rv[1].get("v", ""):
            self.ctx.ob("used", "prefer_copy: links in %s" % self.P.root_of(f).sname, ("prefer_copy", False) in st.facts or ("absent", "cache") in st.facts, "%s:%s" % (f.file, f.line_of(b, i)),
                        "files may be linked though copies were asked for")

    def check(self, c, st, ch, eng):
        self.note(c.fn, c.bb, st)
        for end, name, val in (("linkers::Linker::hoisted", "hoisted", True), ("linkers::Linker::isolated", "hoisted", False)):
            if c.res.endswith(end):
                self.ctx.ob("used", "%s: %s" % (name, end.rsplit("::", 1)[1]), (name, val) in st.facts, c.where, "the layout may not be the one asked for")
        if c.res.startswith("reqwest::") and c.res.endswith("::ClientBuilder::no_proxy"):
            self.ctx.ob("used", "proxy: going without", ("proxy", False) in st.facts, c.where, "requests may not go through the proxy")
        if c.res.startswith("reqwest::") and c.res.endswith("::ClientBuilder::build"):
            self.ctx.ob("used", "proxy: made use of or not", ("settled",) in st.facts, c.where, "a proxy may be used without being asked for")
            self.ctx.ob("used", "proxy_url: made use of", ("proxied",) in st.facts, c.where, "the proxy given may not be used")

    def gen(self, c, st, eng):
        if c.res.startswith("reqwest::") and c.res.endswith("::ClientBuilder::no_proxy"):
            return frozenset([("settled",)]), {}
        if c.res.startswith("reqwest::") and c.res.endswith("::ClientBuilder::proxy"):
            return frozenset([("proxied",)]), {}
        return frozenset(), {}


def check(ctx):
    P = ctx.P
    ctx.rule("value", "every store of an option in a type that carries it, followed through parameters to each caller: its value is that option of the type before it (or the default, in Default)")
    ctx.rule("made", "on every way to building the client, the package source or the tree in the oro program, each setting was made, or its option was found to be absent")
    ctx.rule("used", "each limit, retry policy, proxy, cache and layout is made from the option of its name")
    ch = Choice(ctx)
    Engine(P, ch).run([f for f in P.fns.values() if f.crate in ("node_maintainer", "oro_client", "nassun") and not f.sname.count("{closure")])
    hops(ctx, ch.absent)
    registries(ctx)
    m = Made(ctx)
    roots = [f for f in P.fns.values() if f.crate == "orogene" and (f.trait or "").endswith("OroCommand") and f.sname.endswith("::execute")]
    Engine(P, m).run(roots)
    ends(ctx)
    ctx.floor("value", 40)
    ctx.floor("made", 12)
    ctx.floor("used", 8)
