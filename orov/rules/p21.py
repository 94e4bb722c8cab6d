"""Git dependencies: what the commands run for a git dependency are given, where they run, that their outcome counts and that
what ends up in the temporary directory is the revision asked for (must-facts over MIR; command lines rebuilt from builder calls)."""
import re
from ..must import MustRule, Engine, UN
from ..effects import SPAWN
from ..model import Call
from ..cg import reach, callers
from .. import sym

RX = re.compile(r"(?:^|::)process::Command::(\w+)$|^async_process::Command::(\w+)$")
TEMP = ("tempfile::tempdir", "tempfile::dir::tempdir", "tempfile::TempDir::new", "tempfile::dir::TempDir::new", "tempfile::dir::TempDir::new_in", "tempfile::dir::tempdir_in")


def meth(c):
    m = RX.search(c.res) or RX.search(c.decl)
    return (m.group(1) or m.group(2)) if m else None


def root(f, o, d=0):
    """the command a builder call works on: ("new", fn, bb) | ("arg", fn, n) | ("fn", callee id, fn, bb) | None"""
    if o[0] not in "cm" or d > 60:
        return None
    l = o[1][0]
    if 0 < l <= f.argc:
        return ("arg", f.id, l)
    ds = [x for x in f.defs().get(l, ()) if len(x[2]) == 1]
    if len(ds) != 1:
        return ("multi", f.id, l) if ds else None
    rv = ds[0][3]
    if isinstance(rv, Call):
        m = meth(rv)
        if m == "new":
            return ("new", f.id, rv.bb)
        if m or rv.decl.endswith(("DerefMut::deref_mut", "Deref::deref", "BorrowMut::borrow_mut")):
            return root(f, rv.args[0], d + 1)
        return ("fn", rv.rid, f.id, rv.bb)
    if rv[0] == "use":
        return root(f, rv[1], d + 1)
    if rv[0] == "ref":
        return root(f, ["c", rv[2]], d + 1)
    if rv[0] == "cast":
        return root(f, rv[2], d + 1)
    return None


class Line:
    """a command line: the call that runs it (the spawn, or the call of the helper that spawns what it is given) and the
    (builder call, method, terms) given to it, in order"""

    def __init__(self, site, parts, lifted=False):
        self.spawn, self.parts, self.lifted = site, parts, lifted

    def words(self):
        out = []
        for c, m, ts in self.parts:
            if m in ("arg", "args"):
                for t in (y for t in ts for y in spread(t)) if m == "args" else ts:
                    out.append((c, t[1] if t[0] == "const" and isinstance(t[1], str) else None, t))
        return out

    def consts(self):
        return [w for c, w, t in self.words() if w is not None]

    @property
    def open(self):
        """is the command line a parameter of the function that spawns it?"""
        return any(t[0] == "arg" and m == "args" for c, m, ts in self.parts for t in ts) or self.words()[:1] and self.words()[0][2][0] == "arg"

    @property
    def verb(self):
        k = self.consts()
        return next((w for w in k if not w.startswith("-")), "?")

    @property
    def question(self):
        return self.verb in ("show-ref", "for-each-ref", "ls-remote", "rev-parse", "describe", "version") or self.verb == "tag" and ("--list" in self.consts() or "-l" in self.consts())


def spread(t):
    """the words of an args([...])"""
    for x in sym.walk(t):
        if x[0] == "array":
            return list(x[1])
    return [t]


def lift(P, l, depth=3):
    """the lines as the callers of a helper give them"""
    if not l.open or not depth:
        return []
    out = []
    f = l.spawn.fn
    g = P.root_of(f) if f.cor else f
    hs = {h.id: h for h, _ in callers(P).get(g.id, ()) if h.id != g.id}
    for h, c in [(h, c) for h in hs.values() for c in h.calls() if c.rid == g.id]:
        m = {("arg", g.id, i + 1): sym.sym_op(h, a) for i, a in enumerate(c.args)}
        n = Line(c, [(b, k, [sym.subst(t, m) for t in ts]) for b, k, ts in l.parts], True)
        out += [n] + lift(P, n, depth - 1)
    return out


def builders(f):
    """root -> builder calls, in order of control flow"""
    if "cmds" in f.cache:
        return f.cache["cmds"]
    out = {}
    pos = {b: i for i, b in enumerate(f.rpo())}
    for c in sorted(f.calls(), key=lambda c: pos.get(c.bb, 0)):
        m = meth(c)
        if m and m != "new" and c.args:
            out.setdefault(root(f, c.args[0]), []).append(c)
    f.cache["cmds"] = out
    return out


def parts(P, f, r, before=None, depth=3):
    """builder calls on root r in f and where the command came from"""
    out = []
    if r and r[0] == "fn" and r[1] in P.fns and depth:
        g = P.fns[r[1]]
        for k, cs in builders(g).items():
            out += parts(P, g, k, None, depth - 1)
    elif r and r[0] == "arg" and depth:
        hs = {h.id: h for h, _ in callers(P).get(f.id, ())}
        for g, c in [(h, c) for h in hs.values() for c in h.calls() if c.rid == f.id]:
            if r[2] - 1 < len(c.args):
                k = root(g, c.args[r[2] - 1])
                out += parts(P, g, k, c, depth - 1)
    for c in builders(f).get(r, ()):
        if c is before:
            break
        m = meth(c)
        if m in SENDS:
            continue
        ts = [sym.sym_op(f, a) for a in c.args[1:]]
        out.append((c, m, ts))
    return out


SENDS = ("spawn", "status", "output")


def lines(P):
    out = []
    for f in P.fns.values():
        if f.crate != "nassun" or f.derived:
            continue
        for c in f.calls():
            if meth(c) in SENDS:
                l = Line(c, parts(P, f, root(f, c.args[0])))
                out += [l] + lift(P, l)
    return out


def deep(P, t, depth=3):
    """resolved callees in a term, in the closures it mentions and in what workspace functions it calls return"""
    out = set()
    for x in (x for y in sym.expand(P, t, depth) for x in sym.walk(y)):
        if x[0] == "call":
            out.add(x[1])
            out.add(x[3])
        if x[0] == "clo" and x[1] in P.fns:
            for g in reach(P, [P.fns[x[1]]]):
                for c in P.fns[g].calls():
                    out |= {c.res, c.decl}
    return out


def alts(P, t):
    out = []
    for x in sym.multi(P, t):
        for y in sym.expand(P, x, 3, lambda n: "GitInfo::" not in n):
            out += sym.multi(P, y)
    return out


def asked(P, f, t, k="committish"):
    """is the term the committish (semver range) that was asked for?"""
    for inst in sym.instances(P, f, [t], 4):
        for y in alts(P, inst[0]):
            if not any(x[0] == "fld" and x[2] == k and "GitInfo" in x[1] or x[0] == "call" and x[1].endswith("GitInfo::" + k) for x in sym.walk(y)):
                return False
    return True


def ranged(P, f, t):
    """is the term the name of the greatest tag that satisfies the range?"""
    cs = deep(P, t)
    return any(x.startswith("core::iter::traits::iterator::Iterator::max") or "Ord::max" in x for x in cs) and any("Range::satisfies" in x for x in cs) and any(x.endswith("Command::output") for x in cs)


class Git(MustRule):
    volatile = {"fine", "cur"}

    def __init__(self, ctx, ls, roots):
        self.ctx, self.P = ctx, ctx.P
        self.at = {(l.spawn.fn.id, l.spawn.bb): l for l in ls}
        self.word = {}
        for l in ls:
            if l.open:
                continue
            for i, (c, w, t) in enumerate(l.words()):
                if w is None:
                    c = l.spawn if l.lifted else c
                    self.word.setdefault((c.fn.id, c.bb), []).append((l, i, t))
        self.roots, self.tops = roots, {}
        self.n = 0

    def enter(self, f):
        return f.crate == "nassun"

    def sym_fact(self, f, s, val):
        while s[0] == "un" and s[1] == "Not" and isinstance(val, bool):
            s, val = s[2], not val
        if s[0] == "call" and s[1].endswith("ExitStatus::success") and val is True:
            return frozenset([("fine",)])
        if s[0] == "call" and s[1].endswith("str::starts_with") and val is False and "-" in [chr(x) if isinstance(x, int) and not isinstance(x, bool) and x < 256 else x for x in sym.consts_in(s[2][1])]:
            return frozenset([("nodash", repr(s[2][0]))])
        if val == "None":
            t = s[1] if s[0] == "discr" else s
            ok = [y for y in alts(self.P, t) if not (y[0] == "agg" and y[2] == "Some")]
            return frozenset(("no " + k,) for k in ("committish", "semver") if ok and all(asked(self.P, f, y, k) for y in ok))
        return frozenset()

    def derive(self, facts):
        if ("no committish",) in facts and ("no semver",) in facts:
            return facts | {("out",)}
        return facts

    def kill(self, f, c, st):
        l = self.at.get((f.id, c.bb))
        if l is not None and not l.question and not l.lifted:
            return frozenset(x for x in st.facts if x != ("fine",))
        return st.facts

    def gen(self, c, st, eng):
        l = self.at.get((c.fn.id, c.bb))
        if l is not None and not l.lifted:
            return self.done(l), {}
        return frozenset(), {}

    def done(self, l):
        out = set()
        if l.verb == "clone" and l.consts()[-1:] == ["package"]:
            out.add(("there",))
        if l.verb in ("checkout", "switch"):
            out.add(("out",))
        return frozenset(out)

    def gen_await(self, c, st, eng):
        f = c.fn
        l = self.at.get((f.id, c.bb))
        out = set(self.done(l)) if l is not None and l.lifted else set()
        if c.res in ("async_std::fs::rename::rename",) and self.package(f, c.args[1]):
            out.add(("there",))
        if "extract_from_tarball_data" in c.res and len(c.args) > 1 and self.package(f, c.args[1]):
            out.add(("there",))
        if c.res.endswith("::stream_external"):
            if all("oro_package_spec::gitinfo::GitInfo::tarball" in sym.calls_in(i[0]) for i in sym.instances(self.P, f, [sym.sym_op(f, c.args[1])], 3)):
                out.add(("out",))
        return frozenset(), {((), "Ok"): frozenset(out)}

    def package(self, f, o):
        t = sym.sym_op(f, o)
        return t[0] == "call" and t[1].endswith("Path::join") and t[2][1] == ("const", "package") and self.temp(f, t[2][0])

    def temp(self, f, t):
        return all(any(x in TEMP for x in sym.calls_in(i[0])) for i in sym.instances(self.P, f, [t], 4))

    def check(self, c, st, ch, eng):
        k = (c.fn.id, c.bb)
        ob = self.ctx.ob
        if k[0] in self.tops and c.rid in self.P.fns and any(self.package(c.fn, a) for a in c.args):
            miss = [w for t, w in (("there", "anything is there"), ("out", "the revision asked for was checked out"), ("fine", "the last git command succeeded")) if (t,) not in st.facts]
            ob("read", "%s in %s" % (c.decl.rsplit("::", 1)[1], c.fn.sname.split("::{")[0].rsplit("::", 1)[1]), not miss, c.where, "the temporary directory is read although it isn't sure that " + " and ".join(miss))
        l = self.at.get(k)
        if l is not None and not l.open and l.verb != "clone":
            self.n += 1
            ob("status", "before git %s" % l.verb, ("fine",) in st.facts, c.where, "git %s is run although the command before it was not found to have succeeded" % l.verb)
        for l, i, t in self.word.get(k, ()):
            ws = l.words()
            ok = any(w == "--" for _, w, _ in ws[:i]) or ("nodash", repr(t)) in st.facts or lead(self.P, t)
            ob("options", "git %s: argument %d" % (l.verb, i), ok, c.where, "what a spec says is passed to git %s where git takes it for an option if it starts with a dash" % l.verb)

    def exit(self, f, st, ch, eng):
        if f.id not in self.roots:
            return
        x = st.look(0, (), "Ok")
        if x is UN:
            return
        ob = self.ctx.ob
        n = f.sname.split("::{")[0]
        ob("status", "success of %s" % n, ("fine",) in x, f.where, "a git command that exits with failure can count as a success")
        ob("fetched", "%s: package is there" % n, ("there",) in x, f.where, "success is reported although nothing was put where the package is read from")
        ob("fetched", "%s: revision asked for" % n, ("out",) in x, f.where, "success is reported although the committish or version asked for was not checked out")


def lead(P, t):
    """does the text start with something that is no dash, by construction?"""
    return all(y[0] == "const" and isinstance(y[1], str) and y[1] and not y[1].startswith("-") for y in alts(P, t))


def check(ctx):
    P = ctx.P
    ctx.rule("status", "a git command counts only if it exits with success: the next one, and success, need it")
    ctx.rule("options", "nothing a spec says can be taken for an option of git")
    ctx.rule("revision", "what is checked out is named as a revision, and is the greatest satisfying tag or the committish")
    ctx.rule("place", "git runs in the temporary directory made for the dependency")
    ctx.rule("fetched", "success means the revision asked for is where the package is read from")
    ctx.rule("read", "the package is read only after the revision asked for was fetched")
    ctx.rule("source", "what is cloned or downloaded comes from the spec")
    ls = lines(P)
    text = {n for c in versions(P) for n in ctx.G.forward([ctx.G.node(c.fn, c.dest)], lambda a, b, cc, ai: cc == "err" or getattr(cc, "decl", "").endswith("FromStr::from_str"))}
    for l in ls:
        if l.open:
            continue
        ob = ctx.ob
        f = l.spawn.fn
        dirs = [ts[0] for c, m, ts in l.parts if m == "current_dir"]
        g = Git(ctx, [], {})
        ob("place", "git %s" % l.verb, bool(dirs) and all(g.temp(f, t) for t in dirs), l.spawn.where, "git %s is not run in a temporary directory of its own" % l.verb)
        if l.verb in ("checkout", "switch"):
            ws = l.words()
            revs = [(i, t, c) for i, (c, w, t) in enumerate(ws) if w is None]
            for i, t, c in revs:
                ob("revision", "git %s names a revision" % l.verb, any(w == "--" for _, w, _ in ws[i + 1:]) or "--detach" in l.consts(), l.spawn.where, "git takes what is to be checked out for a file's name if there is such a file")
                al = alts(P, t)
                rs = [y for y in al if ranged(P, f, y)]
                ob("revision", "git %s: version" % l.verb, bool(rs), l.spawn.where, "what is checked out for a semver range is not the greatest of the repository's tags that satisfies it")
                ob("revision", "git %s: tag's own name" % l.verb, not any(n in text for n in given(ctx.G, l, c)), l.spawn.where, "the version is checked out by number: there may be no tag of that name")
                rest = [y for y in al if y not in rs]
                ob("revision", "git %s: committish" % l.verb, bool(rest) and all(asked(P, f, y) for y in rest), l.spawn.where, "what is checked out is not the committish asked for")
        if l.verb == "clone":
            for c, w, t in l.words():
                if w is None:
                    for i in sym.instances(P, f, [t], 4):
                        for y in alts(P, i[0]):
                            fs = [x[2] for x in sym.walk(y) if x[0] == "fld" and "GitInfo" in x[1]] + [x.rsplit("::", 1)[1] for x in sym.calls_in(y) if "GitInfo::" in x]
                            ob("source", "git clone of %s" % "/".join(fs), bool(fs) and all(x in ("url", "ssh", "requested", "https") for x in fs), l.spawn.where, "what is cloned is not what the spec says")
    spawns = {l.spawn.fn.id for l in ls}
    roots, tops = {}, {}
    for f in P.fns.values():
        if f.crate != "nassun" or not any(c.res in TEMP for c in f.calls()):
            continue
        for c in f.calls():
            g = P.fns.get(c.rid)
            if g is not None and spawns & set(reach(P, [g])):
                tops[f.id] = f
                for k in reach(P, [g]):
                    h = P.fns[k]
                    if h.cor and P.root_of(h).id == g.id and h.parent == g.id:
                        roots[h.id] = h
    r = Git(ctx, ls, roots)
    for f in roots.values():
        Engine(P, r).visit(f, frozenset([("fine",)]), {}, [])
    r = Git(ctx, ls, {})
    r.tops = tops
    for f in tops.values():
        Engine(P, r).visit(f, frozenset([("fine",)]), {}, [])
    ctx.floor("read", 2)
    ctx.floor("status", 3)
    ctx.floor("options", 2)
    ctx.floor("revision", 3)
    ctx.floor("fetched", 2)
    ctx.floor("source", 1)


def given(G, l, c):
    """what is given to the builder call (to the helper) as words"""
    s = l.spawn if l.lifted else c
    return [G.opnode(s.fn, a) for a in s.args[0 if l.lifted else 1:]]


def versions(P):
    """calls that write a version out as text"""
    out = []
    for f in P.fns.values():
        if f.crate == "nassun" and not f.derived:
            for c in f.calls():
                if c.decl.endswith("ToString::to_string") and any("node_semver::Version" in str(x) for x in c.gens[:1]):
                    out.append(c)
    return out
