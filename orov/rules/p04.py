"""Hard links into the cache: must-facts over the mode the extraction code works with.
"ok place" means: a value of the extraction mode that never makes hard links (or none is
needed because the package has no install scripts). Reading a package's manifest takes all
of these facts away; they come back by finding no install script, by testing the mode, or
by choosing a mode that copies. Only then may placing go on."""
from ..must import MustRule, Engine, State, UN, clean
from ..cg import reach
from ..model import Call
from .. import sym
from .p03 import over, is_place, IDX, ARC, INSERT

EM = "nassun::package::ExtractMode"
BM = "oro_common::build_manifest::BuildManifest"
HL = ("Hardlink", "AutoHardlink")
NOT_HL = ("Copy", "Auto", "Reflink")
SCRIPTS = ("preinstall", "install", "postinstall")
LINK = ("hard_link_hash_sync", "hard_link_sync", "hard_link_hash", "hard_link", "hard_link_unchecked", "hard_link_hash_unchecked_sync", "hard_link_unchecked_sync", "hard_link_hash_unchecked")


def is_link(c):
    return (c.res.startswith("cacache::") and c.res.rsplit("::", 1)[1].startswith("hard_link")) or (
        c.res in ("std::fs::hard_link",) and c.fn.crate == "nassun")


def deref(f, o, depth=0):
    """place an operand or reference names"""
    if o[0] not in "cm" or depth > 10:
        return None
    return dplace(f, o[1], depth)


def dplace(f, p, depth=0):
    l = p[0]
    path = clean(p[1:])
    ds = f.defs().get(l)
    if ds and len(ds) == 1 and not isinstance(ds[0][3], Call) and len(ds[0][2]) == 1 and depth < 10:
        rv = ds[0][3]
        src = None
        if rv[0] == "ref":
            src = rv[2]
        elif rv[0] == "use" and rv[1][0] in "cm":
            src = rv[1][1]
        elif rv[0] == "cast" and rv[2][0] in "cm":
            src = rv[2][1]
        if src is not None:
            k = dplace(f, src, depth + 1)
            return (k[0], k[1] + path)
    return (l, path)


def is_mode_ty(t):
    return t.replace("&", "").replace("mut ", "").strip() == EM


def mode_places(f):
    """places of f that hold an extraction mode"""
    if "modepl" in f.cache:
        return f.cache["modepl"]
    out = set()
    for l in range(len(f.locals)):
        if is_mode_ty(f.lty(l)):
            out.add((l, ()))
            out.add(dplace(f, [l]))
    for bb in f.bbs:
        for s in bb["s"]:
            rv = s[1]
            if rv[0] == "agg" and isinstance(rv[1], dict) and rv[1].get("adt") == EM:
                out.add(dplace(f, s[0]))
            if rv[0] in ("use", "ref"):
                src = rv[1][1] if rv[0] == "use" and rv[1][0] in "cm" else (rv[2] if rv[0] == "ref" else None)
                if src is not None and dplace(f, s[0]) in out | {(s[0][0], clean(s[0][1:]))} and len(s[0]) == 1 and is_mode_ty(f.lty(s[0][0])):
                    out.add(dplace(f, src))
    f.cache["modepl"] = out
    return out


class TestFn(MustRule):
    """what a boolean test of a mode says"""

    def enter(self, fn):
        return fn.crate == "nassun"

    def sym_fact(self, f, s, val):
        if isinstance(val, str) and val in NOT_HL:
            return frozenset([("nohl",)])
        return frozenset()


class Mode(MustRule):
    """mode facts shared by the rules below"""
    volatile = {"ok"}

    def __init__(self, ctx):
        self.ctx = ctx
        self.P = ctx.P
        self.tests = {}

    def enter(self, fn):
        return fn.crate in ("nassun",)

    def test_fn(self, c, eng):
        """boolean test of a mode: the results that exclude hard links"""
        cals = eng.callees(c)
        if len(cals) != 1 or cals[0].lty(0) != "bool" or not cals[0].argc or not any(is_mode_ty(cals[0].lty(i)) for i in range(1, cals[0].argc + 1)):
            return None
        cf = cals[0]
        if cf.id not in self.tests:
            s = Engine(self.P, TestFn()).visit(cf, frozenset(), {}, None)
            st = State(s.facts, {0: s.cond})
            self.tests[cf.id] = [v for v in (True, False) if st.look(0, (), v) is not UN and ("nohl",) in st.look(0, (), v)]
        return self.tests[cf.id]

    def mode_arg(self, c):
        for a in c.args:
            if a[0] in "cm":
                p = deref(c.fn, a)
                if p in mode_places(c.fn):
                    return p
        return None

    def oks(self, f):
        return frozenset(("ok", f.id, p) for p in mode_places(f))

    def isok(self, st, f, p):
        return p is not None and (("ok", f.id, p) in st.facts or ("ctx", "ok", f.id, p) in st.facts)

    def ctx_facts(self, c, cf, st):
        return frozenset(("ctx", "ok", cf.id, (i + 1, ())) for i, a in enumerate(c.args)
                         if a[0] in "cm" and self.isok(st, c.fn, deref(c.fn, a)) and i < cf.argc and is_mode_ty(cf.lty(i + 1)))

    def mode_sym(self, f, s, val):
        """facts from matching on a mode"""
        if isinstance(val, str) and val in NOT_HL + HL:
            out = set(("notmode", v) for v in NOT_HL + HL if v != val)
            if val in NOT_HL:
                out |= self.oks(f)
            return out
        return set()

    def gen_test(self, c, st, eng):
        r = self.test_fn(c, eng)
        out = {}
        p = self.mode_arg(c)
        if r and p:
            for v in r:
                out[((), v)] = frozenset([("ok", c.fn.id, p)])
        return out

    def gen_stmt(self, f, b, i, s, st, eng):
        dest = (s[0][0], clean(s[0][1:]))
        mp = mode_places(f)
        rv = s[1]
        if dest not in mp:
            return (frozenset(), None)
        key = ("ok", f.id, dest)
        if rv[0] == "agg":
            good = isinstance(rv[1], dict) and rv[1].get("v") in NOT_HL
        elif rv[0] == "use" and rv[1][0] in "cm":
            p = (rv[1][1][0], clean(rv[1][1][1:]))
            good = self.isok(st, f, p) or self.isok(st, f, dplace(f, rv[1][1]))
        elif rv[0] == "use" and rv[1][0] == "k":
            good = False
        else:
            good = False
        if good:
            return frozenset([key]), None
        return frozenset(), (lambda x: x == key)


class Place(Mode):
    """hard links are made only when the mode says so"""

    def __init__(self, ctx):
        super().__init__(ctx)
        self.seen = set()

    def sym_fact(self, f, s, val):
        return frozenset(x for x in self.mode_sym(f, s, val) if x[0] == "notmode")

    def check(self, c, st, ch, eng):
        if is_link(c):
            self.seen.add((c.fn.id, c.where))
            bad = [v for v in NOT_HL if ("notmode", v) not in st.facts]
            self.ctx.ob("linked-by-mode", "hard link in %s" % c.fn.sname.replace("nassun::", ""), not bad, c.where,
                        "made although the extraction mode may be %s; via %s" % (", ".join(bad), " -> ".join(x.sname for x in ch)))


def links(P, cf, memo={}):
    k = (id(P), cf.id)
    if k not in memo:
        memo[k] = any(is_link(c) for fid in reach(P, [cf]) for c in P.fns[fid].calls())
    return memo[k]


def scripts_test(P, s):
    """constants a test on a package's declared scripts looks at (None: no such test)"""
    def about(t):
        for x in sym.walk(t):
            if x[0] == "fld" and x[1] == BM and x[2] == "scripts":
                return True
            if x[0] == "clo" and x[1] in P.fns:
                for c in P.fns[x[1]].calls():
                    if any(y[0] == "fld" and y[1] == BM and y[2] == "scripts" for y in sym.walk(sym.sym_call(P.fns[x[1]], c))):
                        return True
        return False
    if s[0] == "un" and s[1] == "Not":
        r = scripts_test(P, s[2])
        return (r[0], not r[1]) if r else None
    if s[0] == "call" and about(s):
        pol = s[3].rsplit("::", 1)[1] not in ("is_none", "all")
        return (frozenset(x for x in sym.deep_consts(P, s) if isinstance(x, str)) & frozenset(SCRIPTS), pol)
    return None


class Reader(Mode):
    """the code that reads the archive"""
    volatile = {"ok", "safe", "no", "looked", "marked", "redone", "iter", "removed", "again", "noted"}

    def __init__(self, ctx):
        super().__init__(ctx)
        self.reads = 0
        self.redo = 0

    def derive(self, fs):
        if ("safe",) in fs and not ("no", SCRIPTS[0]) in fs:
            return fs
        if all(("no", x) in fs for x in SCRIPTS):
            return fs | {("safe",)} | self.rootoks
        if ("marked",) in fs and ("redone",) in fs and any(x[0] == "ok" for x in fs):
            return fs | {("safe",)}
        return fs

    def is_read(self, c, eng):
        """reads a package's own manifest"""
        return c.dest and BM in c.fn.lty(c.dest[0]) and "Result" in c.fn.lty(c.dest[0]) and any(a[0] in "cm" and "Path" in c.fn.lty(a[1][0]) for a in c.args)

    def entry_next(self, f, c):
        return c.decl.endswith("Iterator::next") and over(sym.sym_call(f, c), "entries")

    def files_next(self, f, c):
        return c.decl.endswith("Iterator::next") and is_files(sym.sym_call(f, c)) and not sym.partial(sym.sym_call(f, c))

    def sym_fact(self, f, s, val):
        out = self.mode_sym(f, s, val)
        if isinstance(val, bool):
            t = scripts_test(self.P, s)
            if t and val is not t[1]:
                out |= set(("no", x) for x in t[0])
                if t[0] >= set(SCRIPTS):
                    out |= self.oks(f)
        t = scripts_test(self.P, s) if val == "None" else None
        if t:
            out |= set(("no", x) for x in t[0])
        if s[0] == "call" and s[3] in ("core::cmp::PartialEq::eq", "core::cmp::PartialEq::ne") and "package.json" in sym.deep_consts(self.P, s) and val is s[3].endswith("::ne"):
            out.add(("looked",))
        if s[0] == "call" and s[1].endswith("::entry_type") and val != "Regular":
            out.add(("looked",))
        if s[0] == "call" and s[3] in ("core::cmp::PartialEq::eq", "core::cmp::PartialEq::ne") and val is s[3].endswith("::ne"):
            from .p01 import entry_type_eq
            if entry_type_eq(s[2]):
                out.add(("looked",))
        if s[0] == "call" and s[1].endswith("EntryType::is_file") and val is False:
            out.add(("looked",))
        if s[0] == "arg" and val == "None":
            t = self.P.fns[s[1]].lty(s[2])
            if "Path" in t and "Option" in t:
                out.add(("looked",))
        if s[0] == "call" and s[3].endswith("Iterator::next") and is_files(s) and not sym.partial(s):
            if val == "None":
                out.add(("redone",))
                out.add(("again",))
            if val == "Some":
                out.add(("iter",))
        return frozenset(out)

    def gen(self, c, st, eng):
        r = self.gen_test(c, st, eng)
        for k, v in list(r.items()):
            r[k] = v | {("redone",)}
        if self.is_read(c, eng):
            return frozenset([("looked",)]), r
        if c.res in ("std::fs::remove_file",):
            r[((), "Ok")] = frozenset([("removed",)])
        if c.res.endswith("HashMap::insert") and c.args and any(x[0] == "fld" and x[1] == IDX and x[2] == "files" for x in sym.walk(sym.sym_op(c.fn, c.args[0]))):
            return frozenset([("noted",)]), r
        if any(links(self.P, cf) for cf in eng.callees(c)) and self.mode_arg(c) and self.isok(st, c.fn, self.mode_arg(c)) and ("removed",) in st.facts:
            r[((), "Ok")] = r.get(((), "Ok"), frozenset()) | {("again",)}
        return frozenset(), r

    def kill(self, f, c, st):
        if self.is_read(c, self.eng):
            return frozenset(x for x in st.facts if x[0] not in ("ok", "safe", "no", "marked", "redone"))
        if self.entry_next(f, c):
            return frozenset(x for x in st.facts if x[0] not in ("looked", "noted"))
        if self.files_next(f, c):
            return frozenset(x for x in st.facts if x[0] not in ("again", "removed", "iter"))
        return st.facts

    def gen_stmt(self, f, b, i, s, st, eng):
        d = s[0]
        if d[-1:] and isinstance(d[-1], str) and d[-1] == ".should_copy#" + IDX:
            rv = s[1]
            v = sym.sym_rv(f, rv)
            if v == ("const", True) or any(scripts_test(self.P, x) for x in sym.walk(v) if x[0] in ("call", "un")):
                return frozenset([("marked",)]), None
            return frozenset(), (lambda x: x == ("marked",))
        return super().gen_stmt(f, b, i, s, st, eng)

    def check(self, c, st, ch, eng):
        who = ch[0].sname.replace("nassun::", "")
        via = "; via " + " -> ".join(x.sname for x in ch)
        if self.is_read(c, eng) and len(ch) == 1:
            self.reads += 1
        if self.entry_next(c.fn, c):
            self.ctx.ob("looks-for-scripts", "each entry in %s" % who, ("looked",) in st.facts, c.where, "the loop goes on without the manifest of the package having been looked at when the entry was it" + via)
            self.ctx.ob("scripts-copied", "next entry in %s" % who, ("safe",) in st.facts, c.where,
                        "goes on after reading a manifest without: no install script found, or record marked, mode changed to copying, and earlier files placed again" + via)
        if c.res in INSERT:
            self.ctx.ob("scripts-copied", "record written in %s" % who, ("safe",) in st.facts, c.where, "a record is written while hard links of a package with scripts may remain" + via)
        if self.files_next(c.fn, c):
            self.redo += 1
            self.ctx.ob("placed-again", "each earlier file in %s" % who, ("again",) in st.facts, c.where, "an earlier file is not removed and then placed again as a copy" + via)
            self.ctx.ob("placed-again", "current file is among the earlier files in %s" % who, ("noted",) in st.facts, c.where, "the manifest's own file is not noted yet when files are placed again" + via)
        if any(links(self.P, cf) for cf in eng.callees(c)) and (len(ch) == 1 or self.mode_arg(c)):
            ok = self.isok(st, c.fn, self.mode_arg(c))
            self.ctx.ob("scripts-copied", "file placed in %s%s" % (who, " again" if ("iter",) in st.facts else ""), ok, c.where, "placed with a mode that may make hard links although the package may have install scripts" + via)


def is_files(s):
    return any(x[0] == "fld" and x[1] == IDX and x[2] == "files" for x in sym.walk(s))


class Restorer(Mode):
    """placing the files of a record"""

    def __init__(self, ctx):
        super().__init__(ctx)
        self.n = 0

    def sym_fact(self, f, s, val):
        out = self.mode_sym(f, s, val)
        if val is False and any(x[0] == "fld" and x[1] in (ARC, IDX) and x[2] == "should_copy" for x in sym.walk(s)) and s[0] != "un":
            out |= self.oks(f)
        if val is True and s[0] == "un" and s[1] == "Not":
            return self.sym_fact(f, s[2], False) | frozenset(out)
        return frozenset(out)

    def gen(self, c, st, eng):
        return frozenset(), self.gen_test(c, st, eng)

    def check(self, c, st, ch, eng):
        if any(links(self.P, cf) for cf in eng.callees(c)) and not any(restores(self.P, cf) for cf in eng.callees(c)) and c.fn.id == self.root:
            self.n += 1
            p = self.mode_arg(c)
            self.ctx.ob("scripts-copied", "restore in %s" % c.fn.sname.split("::{")[0].replace("nassun::", ""), self.isok(st, c.fn, p), c.where,
                        "a file of a package marked as having scripts is placed with a mode that may make hard links")


def restores(P, cf):
    return any(c.res.endswith("check_archived_root") for fid in reach(P, [cf]) for c in P.fns[fid].calls())


class Prefer(MustRule):
    """choice of the mode"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.n = 0

    def sym_fact(self, f, s, val):
        out = set()
        if s[0] == "fld" and s[2] == "prefer_copy" and val is False:
            out.add(("nopref",))
        if s[0] == "un" and s[1] == "Not" and s[2][0] == "fld" and s[2][2] == "prefer_copy" and val is True:
            out.add(("nopref",))
        if val == "None" and any(x[0] == "fld" and x[2] == "cache" for x in sym.walk(s)):
            out.add(("nopref",))
        return frozenset(out)

    def check_stmt(self, f, b, i, s, st, ch, eng):
        rv = s[1]
        if rv[0] == "agg" and isinstance(rv[1], dict) and rv[1].get("adt") == EM and rv[1].get("v") in HL:
            self.n += 1
            self.ctx.ob("prefer-copy", "mode chosen in %s" % f.sname.split("::{")[0], ("nopref",) in st.facts, "%s:%s" % (f.file, s[2]), "a linking mode is chosen although copies may have been asked for")


def check(ctx):
    P = ctx.P
    ctx.rule("linked-by-mode", "hard links are made only in the linking modes")
    ctx.rule("looks-for-scripts", "the package's manifest is looked at when its entry was placed")
    ctx.rule("scripts-copied", "with install scripts, everything is placed by copying, also from records")
    ctx.rule("placed-again", "files placed before the scripts were known are removed and placed as copies")
    ctx.rule("prefer-copy", "linking modes are chosen only if copies were not asked for")
    pl = Place(ctx)
    sites = [c for f in P.fns.values() if f.crate == "nassun" for c in f.calls() if is_link(c)]
    readers = [f for f in P.fns.values() if f.crate == "nassun" and any(c.res.startswith("tar::") and c.res.endswith("::entries") for c in f.calls())]
    rest = [f for f in P.fns.values() if f.crate == "nassun" and any(c.res.endswith("check_archived_root") for c in f.calls()) and links(P, f)]
    Engine(P, pl).run(readers + rest)
    for c in sites:
        ctx.ob("linked-by-mode", "reached: hard link in %s" % c.fn.sname.replace("nassun::", ""), (c.fn.id, c.where) in pl.seen, c.where, "a hard link into the cache is made outside of extraction and restore")
    for f in readers:
        r = Reader(ctx)
        r.rootoks = r.oks(f)
        r.eng = Engine(P, r)
        r.eng.visit(f, frozenset([("safe",), ("looked",), ("noted",), ("again",)]) | r.oks(f), {}, [])
    for f in rest:
        x = Restorer(ctx)
        x.root = f.id
        Engine(P, x).visit(f, frozenset(), {}, [])
    y = Prefer(ctx)
    e = Engine(P, y)
    for f in P.fns.values():
        if f.crate == "node_maintainer" and any(s[1][0] == "agg" and isinstance(s[1][1], dict) and s[1][1].get("adt") == EM for bb in f.bbs for s in bb["s"]):
            e.visit(f, frozenset(), {}, [])
    ctx.floor("scripts-copied", 3)
    ctx.floor("looks-for-scripts", 1)
    ctx.floor("linked-by-mode", 1)
    ctx.floor("prefer-copy", 2)
