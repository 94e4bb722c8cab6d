"""Apply pipeline: on every path of the apply entry point the phases come in the order
resolve < prune < extract < rebuild < write lockfile, each only after the previous one
returned Ok (must-facts over the MIR of the entry point and its helpers); the gating
options hold on the guarded calls; each phase has only its own effects (call graph)."""
from ..must import MustRule, Engine, UN, State
from ..cg import reach, chain, refs
from ..effects import effect, SPAWN
from .. import sym

NM = "node_maintainer::maintainer::NodeMaintainer::"
RESOLVE = ("node_maintainer::maintainer::NodeMaintainerOptions::resolve_manifest", "node_maintainer::maintainer::NodeMaintainerOptions::resolve_spec")
OPTS = ("apply", "lockfile_only", "lockfile", "scripts")


class R(MustRule):
    def __init__(self, ctx):
        self.ctx = ctx
        self.n = 0

    def enter(self, fn):
        return fn.crate.startswith("oro")

    def sym_fact(self, f, s, val):
        if s[0] == "fld" and s[1].endswith("ApplyArgs") and s[2] in OPTS:
            out = {(s[2], val)}
            if (s[2], val) == ("lockfile_only", True):
                out.add(("installed",))
            if (s[2], val) == ("lockfile", False):
                out.add(("locked-in",))
            if (s[2], val) == ("apply", False):
                out |= {("installed",), ("locked-in",)}
            return frozenset(out)
        return frozenset()

    def gen_await(self, c, st, eng):
        p = phase(c)
        if p:
            out = {("ok", p)}
            if p == "rebuild":
                out.add(("installed",))
            if p == "write_lockfile":
                out.add(("locked-in",))
            return frozenset(), {((), "Ok"): frozenset(out)}
        return frozenset(), {}

    def check(self, call, st, chain_, eng):
        p = phase(call)
        if not p:
            return
        self.n += 1
        F = st.facts
        ob = self.ctx.ob
        who = chain_[0].sname

        def req(name, ok, why):
            ob("order", "%s: %s needs %s" % (short(who), p, name), ok, call.where, why + "; via " + " -> ".join(x.sname for x in chain_))
        req("apply enabled", ("apply", True) in F, "reached on a path where --no-apply is set")
        if p in ("prune", "extract", "rebuild"):
            req("not lockfile-only", ("lockfile_only", False) in F, "reached on a path where --lockfile-only is set")
        if p == "prune":
            req("resolve ok", ("ok", "resolve") in F, "not preceded by a successful resolution on every path")
        if p == "extract":
            req("prune ok", ("ok", "prune") in F, "not preceded by a successful prune on every path")
        if p == "rebuild":
            req("extract ok", ("ok", "extract") in F, "not preceded by a successful extraction on every path")
            x = eng.cond_value(call.fn, st, call.args[1], False)
            ob("scripts-opt", "%s: rebuild runs scripts only with scripts enabled" % short(who), x is UN or ("scripts", True) in x, call.where,
               "the ignore_scripts argument may be false while --no-scripts is set")
            x = eng.cond_value(call.fn, st, call.args[1], True)
            ob("scripts-opt", "%s: rebuild skips scripts only with scripts disabled" % short(who), x is UN or ("scripts", False) in x, call.where,
               "the ignore_scripts argument may be true although scripts are enabled")
        if p == "write_lockfile":
            req("lockfile enabled", ("lockfile", True) in F, "reached on a path where --no-lockfile is set")
            req("all phases ok", ("installed",) in F and ("ok", "resolve") in F, "lockfile written before the installation phases succeeded")

    def exit(self, f, st, chain_, eng):
        if len(chain_) != 1:
            return
        x = st.look(0, (), "Ok")
        self.ctx.ob("complete", "%s: success means installed" % short(f.sname), x is UN or ("installed",) in x, f.where,
                    "a successful return is reachable without the rebuild phase having succeeded (and without --no-apply/--lockfile-only)")
        self.ctx.ob("complete", "%s: success means lockfile written" % short(f.sname), x is UN or ("locked-in",) in x, f.where,
                    "a successful return is reachable without the lockfile having been written (and without --no-apply/--no-lockfile)")


def short(n):
    return n.split("::{")[0].split("::", 1)[1] if "::" in n else n


def phase(c):
    if c.res.startswith(NM):
        m = c.res[len(NM):]
        if m in ("prune", "extract", "rebuild", "write_lockfile"):
            return m
    if c.res in RESOLVE:
        return "resolve"
    return None


class NoScripts(MustRule):
    def __init__(self, ctx):
        self.ctx = ctx

    def check(self, call, st, ch, eng):
        if call.res in SPAWN or call.decl in SPAWN:
            self.ctx.ob("no-scripts", "process spawned from rebuild: %s" % short(call.fn.sname), ("ign", False) in st.facts, call.where,
                        "a process can be started although scripts are to be ignored; via " + " -> ".join(x.sname for x in ch[:12]))


def check(ctx):
    P = ctx.P
    ctx.rule("order", "each phase call is reached only with its gating options and after the previous phase returned Ok")
    ctx.rule("scripts-opt", "the ignore_scripts argument of rebuild is exactly the negation of the scripts option")
    ctx.rule("complete", "every Ok return of the apply entry point passed through the enabled phases")
    ctx.rule("no-scripts", "from rebuild(ignore_scripts = true) no process start is reachable")
    ctx.rule("effects", "resolve/prune/extract/rebuild have only their own effects")
    ctx.rule("dispatch", "every linker variant is dispatched to in each phase")
    r = R(ctx)
    ent = ctx.need("orogene::apply_args::ApplyArgs::execute", "apply entry point")
    for f in ent:
        bodies = [c for c in f.children if c.cor] or [f]
        e = Engine(P, r)
        e.run(bodies)
    ctx.floor("order", 11)
    ctx.floor("scripts-opt", 2)
    # nobody else drives the phases in the CLI
    for f in P.fns.values():
        if not f.crate.startswith("oro") or f.crate == "oro_client":
            continue
        for c in f.calls():
            if phase(c) in ("prune", "extract", "rebuild", "write_lockfile"):
                top = P.root_of(f)
                ok = f.id in e.visited or top.id in e.visited
                ctx.ob("order", "phase %s driven by %s" % (phase(c), short(top.sname)), ok, c.where, "phase called outside the apply pipeline")
    # rebuild(ignore_scripts)
    for f in ctx.need(NM + "rebuild", "rebuild phase"):
        for b in [c for c in f.children if c.cor]:
            e2 = Engine(P, NoScripts(ctx))
            ac = {1: {((".1",), True): frozenset([("ign", True)]), ((".1",), False): frozenset([("ign", False)])}}
            e2.visit(b, frozenset(), ac, [])
    ctx.floor("no-scripts", 1)
    # effects per phase
    spawn = lambda c: c.res in SPAWN or c.decl in SPAWN
    extr = lambda c: c.res.startswith("nassun::package::Package::extract_to_dir")
    for ph in ("prune", "extract", "rebuild", "write_lockfile"):
        for f in ctx.need(NM + ph, ph + " phase"):
            pr = reach(P, [f])
            kinds = {}
            for fid in pr:
                for c in P.fns[fid].calls():
                    if extr(c):
                        kinds.setdefault("extract", (c, fid))
                    if c.res.startswith("oro_script::OroScript::") and (c.res.endswith("::spawn") or c.res.endswith("::output")):
                        kinds.setdefault("script", (c, fid))
                    e_ = effect(c)
                    if e_ and e_[0] == "delete" and P.fns[fid].crate == "node_maintainer":
                        kinds.setdefault("delete", (c, fid))
            allowed = {"prune": {"delete"}, "extract": {"extract", "delete"}, "rebuild": {"script", "delete"}, "write_lockfile": set()}[ph]
            want = {"prune": {"delete"}, "extract": {"extract"}, "rebuild": {"script"}, "write_lockfile": set()}[ph]
            for k in ("extract", "script", "delete"):
                if k in kinds and k not in allowed:
                    c, fid = kinds[k]
                    ctx.ob("effects", "%s does not %s" % (ph, k), False, c.where, "reachable: " + chain(P, pr, fid))
                else:
                    ctx.ob("effects", "%s does not %s" % (ph, k) if k not in allowed else "%s may %s" % (ph, k), True, f.where)
            for k in want:
                ctx.ob("effects", "%s does %s" % (ph, k), k in kinds, f.where, "the phase no longer reaches this effect")
    ctx.floor("effects", 12)
    # linker dispatch: the phases reach both linkers' implementations
    lk = [a for n, a in P.adts.items() if n.startswith("node_maintainer::linkers::") and a["kind"] == "enum"]
    for ph in ("prune", "extract", "rebuild"):
        f = P.named(NM + ph)
        if not f:
            continue
        pr = reach(P, f)
        mods = set()
        for fid in pr:
            s = P.fns[fid].file
            if "linkers/" in s:
                mods.add(s.split("/")[-1])
        for m in ("hoisted.rs", "isolated.rs"):
            ctx.ob("dispatch", "%s reaches %s" % (ph, m), m in mods, f[0].where, "this linker's implementation is not reached in this phase")
