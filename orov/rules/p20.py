"""Telemetry is opt-in: on every way to starting the reporting, telemetry is on and was asked for."""
from .. import sym
from ..cg import callers, reach
from ..must import MustRule, Engine
from ..model import Call

ORO = "orogene::Orogene"
WHY = "errors can be reported without anybody having asked for it"


def is_init(c):
    return c.res.startswith("sentry") and c.res.endswith("::init") or c.res.endswith("Hub::bind_client") and "sentry" in c.res


def prompted(P, t):
    return any(x[0] == "call" and x[1].startswith("dialoguer::") and x[1].endswith(("::interact", "::interact_on", "::interact_opt")) for y in sym.expand(P, t) for x in sym.walk(y))


def asked(P, t):
    """is the boolean term only true if the user said so?"""
    if t[0] == "const":
        return t[1] is False
    if t[0] == "bin" and t[1] in ("BitAnd", "And"):
        return asked(P, t[2]) or asked(P, t[3])
    if t[0] == "bin" and t[1] in ("BitOr", "Or"):
        return asked(P, t[2]) and asked(P, t[3])
    if t[0] == "un":
        return False
    if any(x[0] == "un" and x[1] == "Not" for x in sym.walk(t)):
        return False
    cs = {x for y in sym.expand(P, t) for x in sym.deep_consts(P, y)}
    if t[0] in ("call", "fld") and cs & {"no-no-telemetry", "--telemetry"} and "--no-telemetry" not in cs:
        return True
    return t[0] in ("call", "fld") and prompted(P, t)


class Opt(MustRule):
    def __init__(self, ctx):
        self.ctx, self.P = ctx, ctx.P

    def relevant(self, x):
        return True

    def enter(self, f):
        return f.crate == "orogene" and not f.derived and "FromArgMatches" not in (f.trait or "")

    def sym_fact(self, f, s, val):
        if val in (True, False):
            if s[0] == "un" and s[1] == "Not":
                return self.sym_fact(f, s[2], not val)
            if s[0] == "fld" and (s[1], s[2]) == (ORO, "telemetry"):
                return frozenset([("on",)] if val else [])
            if val is True and s[0] != "const" and asked(self.P, s):
                return frozenset([("asked",)])
        return frozenset()

    def store(self, place):
        return len(place) > 1 and place[-1].split("#")[0] == ".telemetry" and place[-1].endswith("#" + ORO)

    def gen_stmt(self, f, b, i, s, st, eng):
        if self.store(s[0]):
            ts = sym.multi(self.P, sym.sym_rv(f, s[1]))
            ok = all(asked(self.P, t) for t in ts)
            return (frozenset([("asked",)]) if ok else frozenset()), (lambda x: x[0] == "on" or x[0] == "asked" and not ok)
        return frozenset(), None

    def stores(self):
        """what a function itself makes untrue: fn id -> facts"""
        if not hasattr(self, "_st"):
            self._st = {}
            for f in self.P.fns.values():
                if not self.enter(f):
                    continue
                for b in f.rpo():
                    rvs = [sym.sym_rv(f, s[1]) for s in f.bbs[b]["s"] if self.store(s[0])]
                    c = f.call_at(b)
                    if c and self.store(c.dest):
                        rvs.append(sym.sym_call(f, c))
                    for t in rvs:
                        bad = not all(asked(self.P, x) for x in sym.multi(self.P, t))
                        self._st.setdefault(f.id, set()).update(("on", "asked") if bad else ("on",))
        return self._st

    def gen(self, c, st, eng):
        if self.store(c.dest):
            return (frozenset([("asked",)]) if asked(self.P, sym.sym_call(c.fn, c)) else frozenset()), {}
        return frozenset(), {}

    def kill(self, f, c, st):
        if self.store(c.dest):
            return frozenset(x for x in st.facts if x[0] not in ("on", "asked"))
        gone = set()
        for g in reach_from(self, c):
            gone |= g
        if gone:
            return frozenset(x for x in st.facts if x[0] not in gone)
        if c.res.endswith(("::from_arg_matches", "::from_arg_matches_mut", "Parser::parse", "Parser::parse_from", "::update_from", "::update_from_arg_matches")) and "orogene" in c.res + c.fn.lty(c.dest[0]):
            return frozenset(x for x in st.facts if x[0] not in ("on", "asked"))
        return st.facts

    def check(self, c, st, ch, eng):
        if is_init(c):
            self.n = getattr(self, "n", 0) + 1
            r = self.P.root_of(c.fn).sname
            self.ctx.ob("start", "telemetry is on: %s" % r, ("on",) in st.facts, c.where, "reporting is started though telemetry is off")
            self.ctx.ob("start", "it was asked for: %s" % r, ("asked",) in st.facts, c.where, WHY)


def reach_from(r, c):
    """what the functions called here (and theirs) make untrue"""
    r.__dict__.setdefault("_rc", {})
    if c.rid not in r.P.fns:
        return []
    if c.rid not in r._rc:
        r._rc[c.rid] = [r.stores()[i] for i in reach(r.P, [r.P.fns[c.rid]]) if i in r.stores()]
    return r._rc[c.rid]


def early(f, o, stores):
    """does the operand come from a reading of the setting that may precede the answer?"""
    seen, todo, out = set(), [o], []
    while todo:
        o = todo.pop()
        if o[0] not in "cm":
            continue
        if len(o[1]) > 1:
            continue
        l = o[1][0]
        if l in seen:
            continue
        seen.add(l)
        for b, i, pl, rv in f.defs().get(l, ()):
            if isinstance(rv, Call) or len(pl) > 1:
                continue
            if rv[0] in ("use", "cast"):
                src = rv[1] if rv[0] == "use" else rv[2]
                if isinstance(src, list) and src and src[0] in ("c", "m") and len(src[1]) > 1 and Opt.store(None, src[1]):
                    out.append((b, i))
                elif isinstance(src, list) and src:
                    todo.append(src)
    if not stores:
        return False
    pos = {}
    for b, i in stores:
        pos.setdefault(b, []).append(i)
    seen, todo = {0}, [0]
    while todo:
        b = todo.pop()
        for rb, ri in out:
            if rb == b and not any(i < ri for i in pos.get(b, ())):
                return True
        if b in pos:
            continue
        for x in f.succ(b):
            if x not in seen:
                seen.add(x)
                todo.append(x)
    return False


def check(ctx):
    P = ctx.P
    ctx.rule("start", "on every way to starting the reporting: the telemetry setting is on, and it is only on if a flag (from the command line or the configuration) or the prompt's answer says so")
    ctx.rule("prompt", "the prompt's default is not yes; its answer is what is saved and what holds")
    ctx.rule("sent", "reports leave out the machine's name, and nothing personal is asked of the reporting library")
    r = Opt(ctx)
    fs = [f for f in P.fns.values() if f.crate == "orogene"]
    roots = [f for f in fs if f.sname == "orogene::Orogene::load"] or [f for f in fs if not f.cor and "{closure" not in f.sname and not callers(P).get(f.id)]
    Engine(P, r).run(roots)
    inits = [c for f in fs for c in f.calls() if is_init(c)]
    ctx.ob("start", "every start of the reporting was looked at", getattr(r, "n", 0) >= len({(c.fn.id, c.bb) for c in inits}), inits[0].where if inits else "", "a start of the reporting is not on a way from the program's start that was followed")
    for f in fs:
        for c in f.calls():
            if c.res.startswith("dialoguer::") and c.res.endswith("Confirm::default"):
                t = sym.sym_op(f, c.args[1])
                ctx.ob("prompt", "default in %s" % P.root_of(f).sname, t == ("const", False), c.where, "just pressing enter turns telemetry on")
        if any(c.res.startswith("dialoguer::") and c.res.endswith("Confirm::new") or c.res.endswith("Confirm::with_theme") for g in [f] for c in g.calls()):
            ctx.ob("prompt", "asked in %s" % P.root_of(f).sname, True, "%s:%s" % (f.file, f.line), "")
        for c in f.calls():
            if c.args and c.res.startswith(("core::result::", "core::option::")) and c.res.rsplit("::", 1)[1] in ("unwrap_or", "unwrap_or_else", "unwrap_or_default", "or", "or_else", "is_ok", "is_err", "is_some", "is_none", "map_or", "map_or_else"):
                if prompted(P, sym.sym_op(f, c.args[0])):
                    m = c.res.rsplit("::", 1)[1]
                    ok = m == "unwrap_or_default" or m in ("unwrap_or", "map_or") and sym.sym_op(f, c.args[1]) == ("const", False)
                    ctx.ob("prompt", "failing in %s" % P.root_of(f).sname, ok, c.where, "a prompt that could not be answered counts as an answer")
        if any("kdl::" in c.res for c in f.calls()):
            if not any(prompted(P, sym.sym_call(f, c)) for c in f.calls() if c.rid in P.fns):
                continue
            vals = []
            for b in f.rpo():
                for i, s in enumerate(f.bbs[b]["s"]):
                    if s[1][0] == "agg" and isinstance(s[1][1], dict) and s[1][1].get("adt", "").endswith("KdlValue"):
                        vals += [(f.line_of(b, i), o) for o in s[1][2]]
                t = f.bbs[b]["t"]
                if t[0] == "call":
                    c = f.call_at(b)
                    if c.decl.endswith(("Into::into", "From::from")) and "KdlValue" in f.lty(c.dest[0]):
                        vals.append((f.line_of(b), c.args[0]))
            k = 0
            stores = [(b, i) for b in f.rpo() for i, s in enumerate(f.bbs[b]["s"]) if r.store(s[0])]
            stores += [(b, len(f.bbs[b]["s"])) for b in f.rpo() if f.call_at(b) and r.store(f.call_at(b).dest)]
            for line, o in vals:
                for x in sym.multi(P, sym.sym_op(f, o)):
                    tel = x[0] == "fld" and (x[1], x[2]) == (ORO, "telemetry") or x[0] in ("call", "fld") and prompted(P, x)
                    k += tel
                    tel = tel and not early(f, o, stores)
                    ctx.ob("prompt", "saved in %s" % P.root_of(f).sname, tel or x[0] == "const" and x[1] is not True, "%s:%s" % (f.file, line), "what is saved is not the answer")
            ctx.ob("prompt", "answer saved by %s" % P.root_of(f).sname, k > 0, "%s:%s" % (f.file, f.line), "the answer is not saved")
        for b in f.rpo():
            for i, s in enumerate(f.bbs[b]["s"]):
                if s[1][0] == "agg" and isinstance(s[1][1], dict) and s[1][1].get("adt", "").endswith("clientoptions::ClientOptions") and "sentry" in s[1][1]["adt"]:
                    h = dict(zip(s[1][1]["f"], s[1][2]))
                    where = "%s:%s" % (f.file, f.line_of(b, i))
                    sn = sym.sym_op(f, h["server_name"]) if "server_name" in h else ("agg", "", "None", {})
                    ctx.ob("sent", "server name", sn[0] == "agg" and sn[2] == "None" or is_default(sn), where, "reports include the machine's name")
                    pii = sym.sym_op(f, h["send_default_pii"]) if "send_default_pii" in h else ("const", False)
                    ctx.ob("sent", "personal data", pii == ("const", False) or is_default(pii), where, "personal data is included")
                    bs = sym.sym_op(f, h["before_send"]) if "before_send" in h else ("x",)
                    clears = any(k[0] == "clo" and k[1] in P.fns and none_name(P.fns[k[1]]) for k in sym.walk(bs))
                    # nothing else puts it in
                    off = "default_integrations" in h and sym.sym_op(f, h["default_integrations"]) == ("const", False)
                    off = off and not any("contexts" in c.res or any("contexts" in g.lty(a[1][0]) for a in c.args if a[0] in "cm") for g in fs for c in g.calls() if "add_integration" in c.res)
                    ctx.ob("sent", "server name of events", clears or off, where, "the machine's name is not removed from each event")
    ctx.floor("start", 3)
    ctx.floor("prompt", 3)
    ctx.floor("sent", 3)


def is_default(t):
    return t[0] == "fld" and t[3][0] == "call" and t[3][3].endswith("Default::default")


def none_name(f):
    for b in f.rpo():
        for s in f.bbs[b]["s"]:
            if len(s[0]) > 1 and s[0][-1].startswith(".server_name"):
                t = sym.sym_rv(f, s[1])
                if t[0] == "agg" and t[2] == "None":
                    return True
    return False
