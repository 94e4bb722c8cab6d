"""Secrets: a taint analysis follows every stored or entered secret forward through the whole
program to everything that prints, logs, reports, hands on to a child process, writes a file or
becomes an error; the text of types that hold one is checked to leave it out."""
import re
from .. import sym
from ..cg import reach
from ..model import Call

NAME = re.compile(r"(^|_)(passw(or)?d|secret|token|otp)$")
KIND = re.compile(r"(Token|Basic|Legacy|Secret|Password)")
STR = ("alloc::string::String", "str")
TEXT = STR + ("core::option::Option<alloc::string::String>", "core::option::Option<str>")
TRIPLE = "(alloc::string::String, alloc::string::String, alloc::string::String)"
CRED = "oro_client::credentials::Credentials"
OUT = {
    "tracing_core::event::Event::": "logged", "tracing::span::Span::": "logged", "tracing_core::field::FieldSet::value_set": "logged", "log::": "logged",
    "std::io::stdio::_print": "printed", "std::io::stdio::_eprint": "printed", "std::io::Write::": "printed",
    "sentry": "reported", "dialoguer::": "shown", "tracing_indicatif::": "shown", "indicatif::": "shown",
    "std::process::Command::": "given to a process", "async_process::Command::": "given to a process",
    "std::env::set_var": "put in the environment",
    "miette::": "put in an error", "std::io::error::Error::": "put in an error", "core::panicking": "put in a panic", "std::panicking": "put in a panic",
    "core::result::unwrap_failed": "put in a panic", "anyhow::": "put in an error", "core::option::expect_failed": "put in a panic",
}
NET = ("reqwest", "http::", "hyper")
FILES = ("std::fs::write", "async_std::fs::write", "cacache::", "tokio::fs::write")
FMT = ("core::fmt::Formatter::", "core::fmt::builders::", "core::fmt::Write::", "core::fmt::write")
REQUEST = ("get", "post", "put", "patch", "delete", "head", "request")


def bare(t):
    return re.sub(r"^(&('\w+ )?(mut )?)+", "", t)


def words(t):
    return set(re.findall(r"[A-Za-z_][A-Za-z0-9_]*(?:::[A-Za-z_][A-Za-z0-9_]*)+", t))


def secrets(P):
    """(adt, field) that hold a secret"""
    out = set()
    for a, d in P.adts.items():
        if a.endswith("Error"):
            continue
        for v in d["vs"]:
            for x in v["f"]:
                t = x.get("t", "")
                if t in TEXT and (NAME.search(x["n"]) or x["n"].isdigit() and KIND.search(v["n"]) and len(d["vs"]) > 1):
                    out.add((a, x["n"]))
                elif TRIPLE in t:
                    out.add((a, x["n"]))
    return out


class Taint:
    def __init__(self, ctx):
        self.ctx, self.P, self.G = ctx, ctx.P, ctx.G
        self.sec = secrets(self.P)
        self.leaky = set()
        src = {('F', a, n) for a, n in self.sec}
        src |= self.params(src)
        for f in self.P.fns.values():
            for c in f.calls():
                if c.res.startswith("dialoguer") and "assword" in c.res and "interact" in c.res:
                    src.add(self.G.node(f, c.dest, write=True))
        src |= self.documents()
        self.src = src
        base = self.G.forward(src, self.cut)
        # types whose own text gives a secret away
        holds = {a for a, n in self.sec}
        self.fmts = {}
        for f in self.P.fns.values():
            if f.trait in ("core::fmt::Debug", "core::fmt::Display") and f.self_ty:
                a = bare(f.self_ty)
                for w in words(a) & holds:
                    hot = [c for g in [f] + list(f.children) for c in g.calls() if c.res.startswith(FMT) or "fmt::rt::Argument" in c.res
                           for o in c.args if self.G.opnode(g, o) in base and self.text(g, o, holds)]
                    self.fmts.setdefault(w, []).append((f, hot))
        self.leaky = {a for a in holds if any(h for f, h in self.fmts.get(a, []))}
        while True:
            more = {a for a, d in self.P.adts.items() if a not in self.leaky and any(words(x.get("t", "")) & self.leaky for v in d["vs"] for x in v["f"])}
            if not more:
                break
            self.leaky |= more
        self.flow = self.G.forward(src, self.cut)

    def text(self, g, o, holds):
        """not just the formatter or the whole value"""
        t = bare(g.opty(o)) if hasattr(g, "opty") else bare(g.lty(o[1][0])) if o[0] in "cm" else ""
        return "core::fmt::Formatter" not in t and "core::fmt::builders" not in t

    def params(self, src):
        """text parameters that are stored as a secret"""
        out = set()

        def stop(a, b, c, ai):
            return c in ("test", "part", "err", "whole") or isinstance(c, Call) and c.res.startswith(NET + ("serde_json",)) or b[0] == 'F' and b not in src or a[0] == 'F' and a not in src
        for n in self.G.backward(src, stop):
            if n[0] == 'L':
                f = self.P.fns[n[1]]
                if 1 <= n[2] <= f.argc and bare(f.lty(n[2])).replace("&", "") in TEXT and f.crate in ("oro_client", "oro_npm_account", "orogene"):
                    out.add(n)
        return out

    def documents(self):
        """configuration documents that credentials are stored in or read from"""
        out = set()
        holds = {a for a, n in self.sec}
        for f in self.P.fns.values():
            if f.crate != "orogene":
                continue
            for c in f.calls():
                g = self.P.fns.get(c.f.get("r") or c.f.get("d")) or next((x for x in self.P.fns.values() if x.sname == c.res), None)
                if g is None or g.crate != "oro_npm_account":
                    continue
                io = words(" ".join(g.lty(i) for i in range(0, g.argc + 1)))
                if not io & holds:
                    continue
                for a in c.args:
                    if a[0] in "cm" and "KdlDocument" in f.lty(a[1][0]):
                        todo = [a[1][0]]
                        while todo:
                            l = todo.pop()
                            for d in f.defs().get(l, []):
                                rv = d[3]
                                if isinstance(rv, (tuple, list)) and rv[0] == "ref":
                                    out.add(self.G.node(f, rv[2]))
                                    if rv[2][0] != l:
                                        todo.append(rv[2][0])
                                elif isinstance(rv, (tuple, list)) and rv[0] == "use" and rv[1][0] in "cm":
                                    todo.append(rv[1][1][0])
        return out

    def triple(self, n):
        while n and n[0] in "TV":
            n = n[1]
        return n[0] == 'F' or n[0] == 'L' and TRIPLE in self.P.fns[n[1]].lty(n[2])

    def cut(self, a, b, c, ai):
        if c in ("test",) or isinstance(c, Call) and c.res.startswith(NET):
            return True
        if b[0] == 'F' and (c == "part" or b[2] in ("username", "registry", "auth_type")):
            return True
        if b[0] == 'T' and b[2] in (0, 1) and self.triple(b[1]):
            return True
        if isinstance(c, Call) and "fmt::rt::Argument" in c.res and c.args and c.args[0][0] in "cm":
            w = words(c.fn.lty(c.args[0][1][0])) & set(self.P.adts)
            if w and not w & self.leaky:
                return True
        return False


def check(ctx):
    P, G = ctx.P, ctx.G
    ctx.rule("no-output", "no secret reaches the log, the terminal, telemetry, a child process or an error")
    ctx.rule("masked", "the text of stored credentials leaves the secret out")
    ctx.rule("hidden-url", "errors of a request that has a secret in its URL leave the URL out")
    ctx.rule("own-file", "secrets are written to the user's configuration file only")
    ctx.rule("command-line", "arguments that hold secrets are left out where the command line is logged")
    T = Taint(ctx)
    t = T.flow
    ctx.ob("no-output", "stored credentials", sum(1 for a, n in T.sec if a == CRED) >= 2, "", "the type of stored credentials no longer exists")
    for a, n in sorted(T.sec):
        ctx.ob("no-output", "%s.%s is followed" % (a, n), True, "", "")
    seen = set()
    for f in P.fns.values():
        if (P.root_of(f).trait or "").startswith("miette::"):
            continue    # derived: the fields of an error are looked at below
        for c in f.calls():
            what = next((w for k, w in OUT.items() if c.res.startswith(k)), None)
            if what and not (c.res.startswith("std::io::Write::") and "Stdout" not in str(c.f) and "Stderr" not in str(c.f)):
                hot = [a for a in c.args if G.opnode(f, a) in t]
                where = P.root_of(f).sname
                if hot or (what, where) not in seen:
                    seen.add((what, where))
                    ctx.ob("no-output", "%s in %s" % (what, where), not hot, c.where, "a secret is %s: %s" % (what, " <- ".join(G.fmt(x) for x in G.path(t, G.opnode(f, hot[0]))[:12]) if hot else ""))
            if c.res.startswith(FILES) and any(G.opnode(f, a) in t for a in c.args[1:]):
                p = sym.sym_op(f, c.args[0])
                back = G.backward({G.opnode(f, c.args[0])}, lambda a, b, c, ai: c in ("test",))
                ok = any(n[0] == 'F' and n[2] == "config" for n in back) or any(n[0] == 'C' and any(x.bb == n[2] and "config_dir" in x.res for x in P.fns[n[1]].calls()) for n in back)
                ctx.ob("own-file", "file written in %s" % P.root_of(f).sname, ok, c.where, "a secret is written to a file that is not the user's configuration")
    for n in t:
        if n[0] == 'F' and n[1].endswith("Error"):
            ctx.ob("no-output", "%s.%s" % (n[1], n[2]), False, "", "a secret is put in an error: " + " <- ".join(G.fmt(x) for x in G.path(t, n)[:12]))
    for a, lst in sorted(T.fmts.items()):
        if a == CRED:
            for f, hot in lst:
                ctx.ob("masked", "%s for %s" % (f.trait.rsplit("::", 1)[1], a), not hot, hot[0].where if hot else f.where, "the text of %s includes a secret" % a)
    ctx.ob("masked", "credentials have a text of their own or none", True, "", "")
    for f in P.fns.values():
        for c in f.calls():
            if f.crate == "oro_client" and c.res.startswith("http::header::value::HeaderValue::from_") and any(G.opnode(f, a) in t for a in c.args):
                fl = G.forward({G.node(f, c.dest, write=True)}, lambda a, b, c, ai: c in ("test", "err") or b[0] == 'F')
                ok = any(x.res.endswith("HeaderValue::set_sensitive") and sym.sym_op(g, x.args[1]) == ("const", True) and G.opnode(g, x.args[0]) in fl for i in reach(P, [P.root_of(f)]) for g in [P.fns[i]] for x in g.calls())
                ctx.ob("masked", "header made in %s is marked sensitive" % P.root_of(f).sname, ok, c.where, "the Authorization header is not marked as sensitive, so that it's left out of what clients log")
    urls(ctx, T)
    cmdline(ctx, T)
    ctx.floor("no-output", 10)


def hides(P, g, o, depth=0):
    """the error in the operand was rid of its URL"""
    if o[0] not in "cm" or depth > 12:
        return False
    ds = g.defs().get(o[1][0], [])
    if not ds:
        return False
    for d in ds:
        rv = d[3]
        if isinstance(rv, Call):
            if rv.decl.endswith(("::map_err", "::or_else")) and len(rv.args) > 1:
                k = sym.sym_op(g, rv.args[1])
                fs = [P.fns[k[1]]] if k[0] == "clo" else [h for h in P.fns.values() if h.sname == k[1]] if k[0] == "fn" else []
                if k[0] == "fn" and k[1].endswith("::without_url") or any(c.res.endswith("Error::without_url") for i in reach(P, fs) for c in P.fns[i].calls()):
                    continue
                return False
            h = [x for x in P.fns.values() if x.sname == rv.res]
            if h and any(c.res.endswith("Error::without_url") for i in reach(P, h) for c in P.fns[i].calls()):
                continue
            return False
        if rv[0] == "use" and hides(P, g, rv[1], depth + 1):
            continue
        return False
    return True


def urls(ctx, T):
    P, G, t = ctx.P, ctx.G, T.flow
    n = 0
    for f in P.fns.values():
        for c in f.calls():
            if c.res.startswith(("reqwest_middleware::", "reqwest::")) and c.res.rsplit("::", 1)[1] in REQUEST and "lient" in c.res and any(G.opnode(f, a) in t for a in c.args[1:]):
                n += 1
                root = P.root_of(f)
                bodies = [f] + [g for g in P.fns.values() if g is not f and P.root_of(g) is root]
                for g in bodies:
                    for b in g.calls():
                        if b.res.endswith("Try::branch") or b.decl.endswith("Try::branch") or b.decl.endswith("::from_residual"):
                            if b.decl.endswith("::from_residual") or "reqwest" not in g.lty(b.args[0][1][0]) + str(b.f):
                                continue
                            if not re.search(r"(reqwest_middleware::error::Error|reqwest::error::Error)", g.lty(b.args[0][1][0])):
                                continue
                            ok = hides(P, g, b.args[0])
                            ctx.ob("hidden-url", "error in %s" % root.sname, ok, b.where, "the error of a request whose URL has a secret is passed on with its URL")
                fail = [b for g in bodies for b in g.calls() if b.res.startswith(("reqwest", "reqwest_middleware")) and b.res.rsplit("::", 1)[1] in ("send", "error_for_status", "execute")]
                hide = [b for i in reach(P, [root] + bodies) for b in P.fns[i].calls() if b.res.endswith("Error::without_url")]
                ctx.ob("hidden-url", "URL left out of errors in %s" % root.sname, bool(hide) or not fail, c.where, "a request has a secret in its URL, and its errors, which name the URL, are not rid of it")


def cmdline(ctx, T):
    P, G = ctx.P, ctx.G
    src = {}
    for f in P.fns.values():
        if f.crate == "orogene":
            for c in f.calls():
                if c.res in ("std::env::args", "std::env::args_os"):
                    src[G.node(f, c.dest, write=True)] = c

    def cut(a, b, c, ai):
        return c in ("test",) or b[0] == 'F' or isinstance(c, Call) and c.res.startswith(("clap", "orogene::Orogene::", "<clap"))
    t = G.forward(set(src), cut)
    want = options(P, T)
    ctx.ob("command-line", "options that take secrets", len(want) >= 1, "", "no option takes a secret")
    for f in P.fns.values():
        if f.crate != "orogene":
            continue
        for c in f.calls():
            what = next((w for k, w in OUT.items() if c.res.startswith(k)), None)
            if what and any(G.opnode(f, a) in t for a in c.args):
                root = P.root_of(f)
                have = {x for i in reach(P, [root]) for x in strings(P, P.fns[i])}
                for o in sorted(want):
                    ctx.ob("command-line", "--%s in %s" % (o, root.sname), any(x.lstrip("-") == o for x in have), c.where, "the command line is %s without the value of --%s being left out" % (what, o))


def strings(P, f):
    return {x for x in sym.body_consts(f) if isinstance(x, str)}


def options(P, T):
    """long names of the options whose values are secrets"""
    names = {n for a, n in T.sec if a.startswith("orogene::")}
    out = set()
    for f in P.fns.values():
        if f.crate == "orogene":
            for c in f.calls():
                if c.res.endswith("::Arg::long") and len(c.args) > 1:
                    s = sym.sym_op(f, c.args[1])
                    out |= {x for x in sym.consts_in(s) if isinstance(x, str) and x.replace("-", "_") in names}
    return out
