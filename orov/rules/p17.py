"""Edits of package.json: made on the parsed file, written back only after the edited manifest was applied."""
from .. import sym, tables, each
from ..cg import reach
from ..effects import effect
from ..must import MustRule, Engine
from ..model import Call

F = "oro_pretty_json::Formatted"
KINDS = {"dependencies", "devDependencies", "optionalDependencies", "peerDependencies"}
APPLY = "orogene::apply_args::ApplyArgs::execute"
MAP = "serde_json::map::Map::"


def mut_manifest(f, c):
    return any(o[0] in "cm" and len(o[1]) == 1 and f.lty(o[1][0]).replace(" ", "").startswith("&mut" + F) for o in c.args)


def calls_deep(P, t):
    out = set()
    for x in sym.expand(P, t, 4, lambda n: n.startswith("orogene::")):
        for y in sym.closure_terms(P, x):
            out |= set(sym.calls_in(y))
    return out


def base_local(f, t):
    """locals of the edited document in a term"""
    return {x for x in sym.walk(t) if x[0] == "call" and x[1] == "oro_pretty_json::from_str"}


class R(MustRule):
    def __init__(self, ctx, name):
        self.ctx, self.P, self.name = ctx, ctx.P, name
        self.n = 0

    def enter(self, f):
        return f.crate == "orogene" and not f.sname.startswith(APPLY)

    def gen_await(self, c, st, eng):
        if c.res == APPLY:
            return frozenset(), {((), "Ok"): frozenset([("applied",)])}
        return frozenset(), {}

    def gen(self, c, st, eng):
        if c.res == "oro_pretty_json::to_string_pretty" or any(x[0] == "fld" and x[1] == F and x[2] == "value" for a in c.args for x in sym.walk(sym.sym_op(c.fn, a))):
            return frozenset([("snap",)]), {}
        return frozenset(), {}

    def kill(self, f, c, st):
        if mut_manifest(f, c):
            return frozenset(x for x in st.facts if x not in (("applied",), ("snap",)))
        return st.facts

    def check(self, c, st, ch, eng):
        e = effect(c)
        if c.res == APPLY:
            self.ctx.ob("after", "%s: the manifest is applied as it is after the last edit" % self.name, ("snap",) in st.facts, c.where, "what is applied was made before an edit")
        if e and e[0] in ("write", "open", "rename", "delete", "link", "symlink"):
            t = sym.sym_op(c.fn, c.args[e[1]])
            self.n += 1
            ok = ("applied",) in st.facts
            self.ctx.ob("after", "%s: project files are written after the change was applied" % self.name, ok, c.where, "written on a path where applying the change has not succeeded")


class Ends(MustRule):
    """a successful end has written the file"""

    def __init__(self, ctx, name, top):
        self.ctx, self.name, self.top = ctx, name, top

    def enter(self, f):
        return f.crate == "orogene" and not f.sname.startswith(APPLY)

    def w(self, c):
        e = effect(c)
        return e and e[0] == "write"

    def gen(self, c, st, eng):
        if self.w(c) and not c.res.startswith("async_std"):
            return frozenset(), {((), "Ok"): frozenset([("written",)])}
        return frozenset(), {}

    def gen_await(self, c, st, eng):
        if self.w(c):
            return frozenset(), {((), "Ok"): frozenset([("written",)])}
        return frozenset(), {}

    def exit(self, f, st, ch, eng):
        if f.id == self.top.id:
            from ..must import UN
            x = st.look(0, (), "Ok")
            self.ctx.ob("after", "%s: success means package.json was written" % self.name, x is UN or ("written",) in x, f.where, "reports success without having written the change")


def check(ctx):
    P = ctx.P
    ctx.rule("after", "package.json is written only after the change was applied, and success means it was written")
    ctx.rule("same", "what is written is the parsed package.json with the edits, and what is applied is made of it")
    ctx.rule("remove", "a dependency is removed from each kind of dependencies, and nothing else is")
    ctx.rule("add", "a dependency is added to the kind that was asked for, with what was resolved")
    ctx.rule("each", "every name given is handled")
    ctx.rule("print", "the printed document has the indentation and line ends of the one that was read")
    for cmd, fld in (("add::AddCmd", "specs"), ("remove::RemoveCmd", "names")):
        tops = [f for f in P.fns.values() if f.sname == "<orogene::commands::%s as orogene::commands::OroCommand>::execute" % cmd]
        ctx.ob("after", "%s is analysed" % cmd, len(tops) == 1, "", "command not found")
        for top in tops:
            body = [g for g in P.fns.values() if P.root_of(g) is top and g.cor]
            body = sorted(body, key=lambda g: len(g.bbs))[-1:] or [top]
            r = R(ctx, cmd)
            Engine(P, r).run([body[0]])
            ctx.ob("after", "%s writes package.json" % cmd, r.n >= 1, top.where, "no write found")
            en = Ends(ctx, cmd, body[0])
            Engine(P, en).visit(body[0], frozenset(), {}, [])
            fids = {x for x in reach(P, [top]) if P.fns[x].crate == "orogene"}
            own = [P.fns[x] for x in sorted(fids) if P.fns[x].sname.replace("<", "").startswith("orogene::commands::") or "commands" in P.fns[x].sname]
            same(ctx, cmd, [f for f in own])
            edits(ctx, cmd, fld, body[0], own)
    pretty(ctx)


def same(ctx, cmd, fs):
    P = ctx.P
    for f in fs:
        for c in f.calls():
            e = effect(c)
            if e and e[0] == "write" and c.res.endswith("write"):
                path = sym.instances(P, f, [sym.sym_op(f, c.args[0])], 3)
                for (t,) in path:
                    ctx.ob("same", "%s: written file is the project's package.json" % cmd, "package.json" in sym.consts_in(t) and "root" in str([x[2] for x in sym.walk(t) if x[0] == "fld"]),
                           c.where, "another file is written")
                for (t,) in sym.instances(P, f, [sym.sym_op(f, c.args[1])], 3):
                    cs = calls_deep(P, t)
                    ok = "oro_pretty_json::to_string_pretty" in cs and "oro_pretty_json::from_str" in cs
                    rd = [y for x in sym.expand(P, t, 4, lambda n: n.startswith("orogene::")) for y in sym.walk(x) if y[0] == "call" and y[1] in READS]
                    ok = ok and any("package.json" in sym.consts_in(y) for y in rd)
                    ctx.ob("same", "%s: written content is the edited package.json" % cmd, ok, c.where, "other content is written to package.json")
            if c.res == APPLY:
                t = sym.instances(P, f, [sym.sym_op(f, c.args[1])], 3)[0][0]
                cs = calls_deep(P, t)
                ctx.ob("same", "%s: applied manifest is made of the edited package.json" % cmd, "oro_pretty_json::to_string_pretty" in cs and "oro_pretty_json::from_str" in cs
                       or "oro_pretty_json::from_str" in cs and any(x[0] == "fld" and x[1] == F and x[2] == "value" for x in sym.walk(t)), c.where, "what is applied is not what is written")


READS = ("std::fs::read_to_string", "async_std::fs::read_to_string::read_to_string", "std::fs::read", "async_std::fs::read::read", "std::fs::File::open")


class Applied(MustRule):
    """no edit between making the applied manifest and applying or writing: edits kill the snapshot"""


def edits(ctx, cmd, fld, body, own):
    P = ctx.P
    muts = {}
    for f in own:
        rem, add = [], []
        for c in f.calls():
            n = c.res
            if n.startswith(MAP) or n.startswith("indexmap::map::IndexMap::"):
                m = n.rsplit("::", 1)[1]
                if m in ("retain", "shift_remove", "shift_remove_entry"):
                    rem.append(c)
                elif m in ("remove", "swap_remove", "remove_entry", "clear", "append", "sort_keys", "sort_by"):
                    ctx.ob("remove", "%s: other entries keep their order" % cmd, False, c.where, "%s changes other entries or their order" % m)
                    rem.append(c)
                elif m == "insert":
                    add.append((c, c.args[0], c.args[1:]))
            if c.decl == "core::ops::index::IndexMut::index_mut" and "serde_json" in str(c.args and f.lty(c.args[0][1][0])) and stored(f, c):
                chain = [c]
                for x in sym.walk(sym.sym_op(f, c.args[0])):
                    if x[0] == "call" and x[1].endswith("::index_mut"):
                        add.append((c, None, x[2][1:]))
                add.append((c, c.args[0], c.args[1:]))
        if rem:
            removal(ctx, cmd, f, rem)
            muts[f.id] = "remove"
        if add:
            muts.setdefault(f.id, "add")
            if cmd.startswith("remove"):
                for c, _, _ in add:
                    ctx.ob("remove", "remove::RemoveCmd adds nothing", False, c.where, "an entry is set in package.json")
            else:
                addition(ctx, cmd, f, add)
    kinds = {}
    for fid, k in muts.items():
        kinds.setdefault(k, set()).add(fid)
    for k in ("remove",) + (("add",) if cmd.startswith("add") else ()):
        ids = kinds.get(k, set())
        ctx.ob("each", "%s: %ss entries" % (cmd, k), bool(ids), body.where, "package.json is not edited")
        tgt = lambda c: c.rid in ids or c in [x for i in ids for x in P.fns[i].calls() if False]
        roots = [f for f in own if any(c.rid in ids for c in f.calls())]
        hit = False
        where = body.where
        for f in roots:
            ok, w = each.each(P, f, lambda t: fld in {x[2] for x in sym.walk(t) if x[0] == "fld" and "commands" in x[1]}, lambda c: c.rid in ids)
            hit |= ok
            if w:
                where = w[0]
        if not roots:
            hit = True
        ctx.ob("each", "%s: every name given is %s" % (cmd, {"remove": "removed", "add": "added"}[k]), hit, where, "a name may be passed over")
    if cmd.startswith("add"):
        class Order(MustRule):
            def enter(s, f):
                return "::commands::add::" in f.sname and f.id not in kinds.get("add", ()) and f.id not in kinds.get("remove", ())

            def sym_fact(s, f, t, val):
                return frozenset([("ranged",)]) if val in ("Git", "Dir") else frozenset()

            def gen_stmt(s, f, b, i, x, st, eng):
                return (frozenset([("ranged",)]) if "prefix" in made_of(P, f, x) else frozenset()), frozenset()

            def gen(s, c, st, eng):
                return (frozenset([("removed",)]), {}) if c.rid in kinds.get("remove", ()) else (frozenset(), {})

            def kill(s, f, c, st):
                if c.decl == "core::iter::traits::iterator::Iterator::next" and "tracing_core" not in c.res:
                    return frozenset()
                return st.facts

            def check(s, c, st, ch, eng):
                if c.rid in kinds.get("add", ()):
                    ctx.ob("add", "added after it was removed from every kind", ("removed",) in st.facts, c.where, "the dependency may stay listed under another kind as well")
                    ctx.ob("add", "a range is made of every resolved version", ("ranged",) in st.facts, c.where, "what is recorded may be made without the prefix and the resolved version")
        for f in own:
            if any(c.rid in kinds.get("add", ()) for c in f.calls()):
                Engine(P, Order()).visit(f, frozenset(), {}, [])
                names = {}
                for c in f.calls():
                    for k in ("add", "remove"):
                        if c.rid in kinds.get(k, ()):
                            names.setdefault(k, set()).add(repr([t for t in (sym.sym_op(f, x) for x in c.args) if "nassun::package::Package::name" in sym.calls_in(t)][:1]))
                            if k == "add":
                                version(ctx, f, c)
                ctx.ob("add", "the name removed is the one added", names.get("add") == names.get("remove") and "[]" not in str(names.get("add")), f.where, "different names are removed and added")


def stored(f, c):
    """is the place the reference points to assigned?"""
    al = {c.dest[0]}
    for _ in range(3):
        for l, ds in f.defs().items():
            for d in ds:
                if not isinstance(d[3], Call) and d[3][0] in ("use", "ref"):
                    pl = d[3][1][1] if d[3][0] == "use" and d[3][1][0] in "cm" else d[3][2] if d[3][0] == "ref" else None
                    if pl and pl[0] in al and all(e == "*" for e in pl[1:]):
                        al.add(l)
    for b in f.rpo():
        for st in f.bbs[b]["s"]:
            if st[0][0] in al and st[0][1:] == ["*"]:
                return True
        t = f.bbs[b]["t"]
        if t[0] == "call" and t[3] and t[3][0] in al and t[3][1:] == ["*"]:
            return True
    return False


def removal(ctx, cmd, f, rem):
    P = ctx.P
    ks = {k for k in sym.body_consts(f) if isinstance(k, str)} & KINDS
    ctx.ob("remove", "%s: covers every kind of dependencies" % cmd, ks == KINDS, f.where, "only looks at %s" % sorted(ks))

    def skip(s, v):
        cs = sym.calls_in(s)
        n = [x.rsplit("::", 1)[-1] for x in cs]
        if v == "None" and n and n[0] in ("and_then", "map"):
            n = [x for x in n if x in ("get_mut", "as_object_mut")] or n
            cs = [x for x in cs if x.startswith(("serde_json::", "<serde_json"))]
        if v in ("None", False) and n and n[0] in ("contains_key", "is_object", "as_object_mut", "get_mut", "get", "as_object", "is_null") and any(x.startswith(("serde_json::", "<serde_json")) for x in cs[:1]):
            return True
        return False
    ok, w = each.each(P, f, lambda t: not any("tracing" in x for x in sym.calls_in(t)), lambda c: (c.fn.id, c.bb) in {(x.fn.id, x.bb) for x in rem}, skip)
    ctx.ob("remove", "%s: removed from every kind that lists it" % cmd, ok, (w or [f.where])[0], "an entry may be left in place")
    for c in rem:
        m = c.res.rsplit("::", 1)[1]
        if m == "retain":
            for x in sym.walk(sym.sym_op(f, c.args[1])):
                if x[0] == "clo":
                    for r in sym.returns(P, P.fns[x[1]]):
                        ne = r[0] == "call" and r[1].endswith("::ne") or r[0] == "bin" and r[1] == "Ne" or r[0] == "un" and r[1] == "Not" and r[2][0] == "call" and r[2][1].endswith("::eq")
                        ctx.ob("remove", "%s: only the entry of that name is removed" % cmd, bool(ne), c.where, "other entries may be removed as well")
        recv = sym.sym_op(f, c.args[0])
        ctx.ob("remove", "%s: removed from the section looked at" % cmd, any(x[0] == "fld" and x[1] == F and x[2] == "value" for x in sym.walk(recv)) or any(x[0] == "arg" for x in sym.walk(recv)), c.where, "something else is edited")


def addition(ctx, cmd, f, add):
    P = ctx.P
    C = "orogene::commands::add::AddCmd"
    secs = set()
    for c, recv, rest in add:
        for a in rest[:1]:
            t = sym.sym_op(f, a) if isinstance(a, list) else a
            for dev in (True, False):
                for opt in (True, False):
                    for x in section(P, t, {"dev": dev, "opt": opt}, C):
                        if x in KINDS:
                            secs.add((dev, opt, x))
    for dev, opt, x in sorted(secs):
        exp = {(True, False): "devDependencies", (False, True): "optionalDependencies", (False, False): "dependencies"}.get((dev, opt))
        if exp:
            ctx.ob("add", "with dev=%s, optional=%s the entry goes to %s" % (dev, opt, exp), x == exp, f.where, "goes to %s" % x)
    ctx.ob("add", "the kind asked for decides the section", {(d, o) for d, o, x in secs} >= {(True, False), (False, True), (False, False)}, f.where, "cannot tell the section an entry goes to: %s" % sorted(secs))


def section(P, t, vals, adt, depth=5):
    """constants a term may be when the options have these values"""
    def known(s):
        if s[0] == "fld" and s[1] == adt and s[2] in vals:
            return vals[s[2]]
        if s[0] == "un" and s[1] == "Not":
            k = known(s[2])
            return None if k is None else not k
        return None
    if depth == 0:
        return {None}
    if t[0] == "const":
        return {t[1]}
    for x in sym.walk(t):
        if x[0] == "multi":
            f = P.fns[x[1]]
            out = set()
            by = {}
            for term, v, d in tables.arms(f, x[2]):
                by.setdefault(id(d), (d, []))[1].append((term, v))
            for d, conds in by.values():
                if all(term is None or known(term) is None or known(term) == v for term, v in conds):
                    out |= section(P, sym.repl(t, x, tables.dterm(f, d)), vals, adt, depth - 1)
            return out
        if x[0] == "call" and len(P.byname.get(x[1], ())) == 1 and x[1].startswith("orogene::"):
            g = P.byname[x[1]][0]
            if not g.cor and len(g.defs().get(0, [])) >= 1:
                out = set()
                m = {("arg", g.id, i + 1): a for i, a in enumerate(x[2])}
                r = ("multi", g.id, 0) if len(g.defs().get(0, [])) > 1 else sym.returns(P, g)[0]
                return section(P, sym.repl(t, x, sym.subst(r, m)), vals, adt, depth - 1)
    cs = [c for c in sym.consts_in(t) if isinstance(c, str)]
    return set(cs) or {None}


def version(ctx, f, c):
    P = ctx.P
    PR = "nassun::resolver::PackageResolution"
    vs = [sym.sym_op(f, x) for x in c.args]
    vs = [t for t in vs if t[0] == "multi" or any(x[0] == "multi" for x in sym.walk(t)) or "alloc::fmt::format" in str(t)]
    seen = set()
    flow = set()
    # the version and the prefix reach the value that is written: by value flow inside the body
    deps = sources(P, f)
    ctx.ob("add", "the recorded range is the prefix and the resolved version", {"prefix", "version"} <= deps, c.where, "made without %s" % sorted({"prefix", "version"} - deps))


def sources(P, f):
    """what a version spec stored into the requested spec is formatted from"""
    out = set()
    for g in [x for x in P.fns.values() if "::commands::add::" in x.sname]:
        for b in g.rpo():
            for i, s in enumerate(g.bbs[b]["s"]):
                out |= made_of(P, g, s)
    return out


def made_of(P, g, s):
    rv = s[1]
    if rv[0] == "agg" and isinstance(rv[1], dict) and rv[1].get("adt") == "oro_package_spec::VersionSpec":
        todo = [t for (t,) in sym.instances(P, g, [sym.sym_op(g, rv[2][0])], 2)]
        out, seen = set(), set()
        while todo:
            for x in sym.walk(todo.pop()):
                if x[0] == "fld" and (x[1].endswith("AddCmd") or x[1].endswith("PackageResolution")):
                    out.add(x[2])
                for h in P.byname.get(x[1], ()) if x[0] == "call" and x[1].startswith("orogene::") and x[1] not in seen else ():
                    todo += [y for r in sym.returns(P, h) for y in sym.multi(P, r)]
                if x[0] == "call":
                    seen.add(x[1])
        return out
    return set()


def pretty(ctx):
    P = ctx.P
    for f in ctx.need("oro_pretty_json::to_string_pretty", "printer"):
        used = set()
        for fid in reach(P, [f]):
            g = P.fns[fid]
            if g.crate == "oro_pretty_json":
                for b in g.rpo():
                    for i, s in enumerate(g.bbs[b]["s"]):
                        used |= {x[2] for x in sym.walk(sym.sym_rv(g, s[1])) if x[0] == "fld" and x[1] == F}
                    c = g.call_at(b)
                    if c:
                        used |= {x[2] for x in sym.walk(sym.sym_call(g, c)) if x[0] == "fld" and x[1] == F}
        for fl in [x["n"] for x in P.adts[F]["vs"][0]["f"]]:
            ctx.ob("print", "printing uses %s" % fl, fl in used, f.where, "the document is printed without it")
        ok, w = each.each(P, f, lambda t: "core::str::lines" in str(t) or any(c.endswith("::lines") for c in sym.calls_in(t)),
                          lambda c: c.res == "alloc::string::String::push_str" and any(x.endswith("::lines") for a in c.args for x in sym.calls_in(sym.sym_op(c.fn, a))))
        ctx.ob("print", "every line is printed", ok, (w or [f.where])[0], "a line may be left out")
    from .. import fwd
    for f in ctx.need("oro_pretty_json::from_str", "parser"):
        for fl in ("character", "count", "line_end", "trailing_line_end"):
            for g, b, i, t in fwd.writes(P, F, fl):
                if g.derived:
                    continue
                n = [x for x in sym.calls_in(t) if x.startswith("oro_pretty_json::")]
                cs = [x for x in sym.walk(t) if x[0] in ("arg",)]
                ctx.ob("print", "%s is taken from the text" % fl, bool(cs), "%s:%s" % (g.file, g.line_of(b, i)), "not taken from what was read")
