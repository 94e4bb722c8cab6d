"""HTTP responses: must-facts over every function that sends a request: it can end in success
only after the status of the response it got was found acceptable; transient statuses of a
response that decide more than that (OTP, accepted) are matched explicitly."""
from ..must import MustRule, Engine, UN
from .. import sym, cg

SEND = ("reqwest_middleware::client::RequestBuilder::send", "reqwest_middleware::client::ClientWithMiddleware::execute")
RESP = "reqwest::async_impl::response::Response::"


def status_of(s):
    return any(x[0] == "call" and x[1] in (RESP + "status", "reqwest::error::Error::status") for x in sym.walk(s))


def code(s):
    """status constant in a term"""
    for x in sym.walk(s):
        if x[0] in ("named",) and "StatusCode::" in x[1]:
            n = x[1].rsplit("::", 1)[1]
            return CODES.get(n)
        if x[0] == "const" and isinstance(x[1], int) and not isinstance(x[1], bool) and 100 <= x[1] < 600:
            return x[1]
    return None


CODES = {"OK": 200, "CREATED": 201, "ACCEPTED": 202, "NO_CONTENT": 204, "MULTIPLE_CHOICES": 300, "NOT_MODIFIED": 304, "BAD_REQUEST": 400, "UNAUTHORIZED": 401, "FORBIDDEN": 403,
         "NOT_FOUND": 404, "TOO_MANY_REQUESTS": 429, "INTERNAL_SERVER_ERROR": 500}


GOOD = frozenset([("good",), ("fine",)])   # a success


def is_status(n):
    if n < 400:
        return GOOD | {("is", n)}
    return frozenset([("is", n)] + ([("fine",)] if n == 401 else []))   # 401: see otp-asked-for


class Status(MustRule):
    volatile = {"good", "is", "not", "fine"}

    def __init__(self, ctx, roots):
        self.ctx = ctx
        self.roots = roots
        self.n = 0
        self.bodies = 0

    def enter(self, fn):
        return fn.crate == "oro_client"

    def sym_fact(self, f, s, val):
        if isinstance(val, bool):
            if s[0] == "un" and s[1] == "Not":
                return self.sym_fact(f, s[2], not val)
            if s[0] == "call" and status_of(s):
                m = s[1].rsplit("::", 1)[1]
                if m in ("is_client_error", "is_server_error") and not val and s[1].startswith("http::"):
                    return frozenset([("not", m)])
                if m == "is_success" and val:
                    return GOOD
            cmp = None
            if s[0] == "bin" and s[1] in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
                cmp = s[1].lower(), s[2], s[3]
            elif s[0] == "call" and len(s[2]) == 2 and s[3].startswith("core::cmp::Partial"):
                cmp = s[3].rsplit("::", 1)[1], s[2][0], s[2][1]
            if cmp and (status_of(cmp[1]) or status_of(cmp[2])):
                op, a, b = cmp
                if status_of(b):
                    a, b = b, a
                    op = {"lt": "gt", "gt": "lt", "le": "ge", "ge": "le"}.get(op, op)
                n = code(b)
                if n is None:
                    return frozenset()
                if not val:
                    op = {"eq": "ne", "ne": "eq", "lt": "ge", "ge": "lt", "gt": "le", "le": "gt"}[op]
                if op == "eq":
                    return is_status(n)
                if op == "lt" and n <= 400 or op == "le" and n < 400:
                    return GOOD
            return frozenset()
        if isinstance(val, int) and status_of(s):
            return is_status(val)
        return frozenset()

    def derive(self, facts):
        if ("good",) not in facts and ("not", "is_client_error") in facts and ("not", "is_server_error") in facts:
            return facts | GOOD
        return facts

    def gen(self, c, st, eng):
        if c.res in (RESP + "error_for_status", RESP + "error_for_status_ref"):
            return frozenset(), {((), "Ok"): GOOD}
        return frozenset(), {}

    def kill(self, f, c, st):
        if c.res in SEND:
            return frozenset(x for x in st.facts if x[0] not in ("good", "is", "not", "fine"))
        return st.facts

    def exit(self, f, st, ch, eng):
        if f.id not in self.roots:
            return
        x = st.look(0, (), "Ok")
        if x is UN:
            return
        self.n += 1
        self.ctx.ob("status-checked", "success of %s" % f.sname.split("::{")[0], ("fine",) in x, f.where,
                    "success can be reported although the status of the response was not found to be a success")

    def check_stmt(self, f, b, i, s, st, ch, eng):
        rv = s[1]
        if rv[0] == "agg" and isinstance(rv[1], dict) and rv[1].get("v") == "PackageNotFound":
            self.ctx.ob("not-found", "package reported missing in %s" % f.sname.split("::{")[0], ("is", 404) in st.facts, "%s:%s" % (f.file, s[2]),
                        "a package is reported as missing although the registry did not answer that it has none")
        if rv[0] == "agg" and isinstance(rv[1], dict) and rv[1].get("v") in ("WebOTP", "ClassicOTP"):
            self.ctx.ob("otp-asked-for", "one-time password request in %s" % f.sname.split("::{")[0], ("is", 401) in st.facts, "%s:%s" % (f.file, s[2]),
                        "a one-time password is asked for although the registry did not refuse the request for lack of authorization")


class Token(Status):
    """success that hands out a token needs a good status, not just a known one"""

    def exit(self, f, st, ch, eng):
        pass

    def check_stmt(self, f, b, i, s, st, ch, eng):
        rv = s[1]
        if rv[0] == "agg" and isinstance(rv[1], dict) and rv[1].get("v") == "Token" and rv[1].get("adt", "").startswith("oro_client::api"):
            self.n += 1
            self.ctx.ob("token-from-success", "token handed out in %s" % f.sname.split("::{")[0], ("good",) in st.facts, "%s:%s" % (f.file, s[2]),
                        "a token is taken from a response whose status was not found to be a success")


def check(ctx):
    P = ctx.P
    ctx.rule("status-checked", "an operation succeeds only if its response's status was checked")
    ctx.rule("token-from-success", "login tokens come from successful responses only")
    ctx.rule("otp-asked-for", "one-time passwords are asked for only when the registry refused for lack of authorization")
    ctx.rule("not-found", "a package is missing only if the registry answered 404")
    ctx.rule("no-bypass", "responses are made in the client crate only")
    senders = [f for f in P.fns.values() if any(c.res in SEND for c in f.calls())]
    for f in senders:
        ctx.ob("no-bypass", "request in %s" % f.sname.split("::{")[0], f.crate == "oro_client", f.where, "a request is sent outside of the client crate's operations")
    # what a caller gets: operations that send, directly or through others, and do not hand out the response itself
    back = {f.id for f in senders}
    todo = list(senders)
    cs = cg.callers(P)
    while todo:
        f = todo.pop()
        for g, c in cs.get(f.id, ()):
            if g.crate == "oro_client" and g.id not in back:
                back.add(g.id)
                todo.append(g)
    roots = {f.id: f for f in P.fns.values() if f.id in back and f.cor and not gives_response(f)}
    for r in (Status(ctx, roots), Token(ctx, roots)):
        e = Engine(P, r)
        for f in roots.values():
            e.visit(f, frozenset(), {}, [])
    ctx.floor("status-checked", 5)
    ctx.floor("token-from-success", 1)


def gives_response(f):
    return any(a in f.lty(0) for a in ("Result<reqwest::async_impl::response::Response,", "Poll<reqwest::async_impl::response::Response>")) or f.lty(0) == "reqwest::async_impl::response::Response"
