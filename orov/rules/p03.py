"""Cache records: must-facts over the extraction and restore code. The record of a package
is written only after the archive's entries are exhausted, every regular entry was placed in
the project and noted in the record, and the rest of the stream was read; nothing is placed
afterwards. A failed restore leads to dropping the record and to a fresh checked download on
every path; a successful restore placed every file of the record."""
from ..must import MustRule, Engine, State, UN
from ..cg import reach, chain
from ..sym import int_test, partial
from .. import sym

PKG = "nassun::package::Package::"
IDX = "nassun::tarball::TarballIndex"
ARC = "nassun::tarball::ArchivedTarballIndex"
PLACE = ("copy_hash_sync", "reflink_hash_sync", "hard_link_hash_sync", "copy_hash", "hard_link_hash", "reflink_hash")
INSERT = ("cacache::index::insert", "cacache::index::insert_async", "cacache::put::write_sync", "cacache::put::write")


def is_place(c):
    return c.res.startswith("cacache::") and c.res.rsplit("::", 1)[1] in PLACE


def place_gen(P, K, c, eng):
    """the call's Ok result means content was placed"""
    if is_place(c):
        return True
    if not eng.callees(c) and c.dest and "Result" in c.fn.lty(c.dest[0]):
        # a closure that places, run (repeatedly) by foreign code
        for x in sym.walk(sym.sym_call(c.fn, c)):
            if x[0] == "clo" and x[1] in P.fns and "place" in K.kinds(P.fns[x[1]]):
                return not c.decl.endswith(("::or_else", "::or", "::map", "::and_then"))
    return False


def over(s, what):
    """iterator term over (all) archive entries / the files of a record"""
    if what == "files" and partial(s):
        return False
    for x in sym.walk(s):
        if what == "entries" and x[0] == "call" and x[1].startswith("tar::") and x[1].endswith("::entries"):
            return True
        if what == "entries" and x[0] == "call" and x[1].startswith("<tar::archive::Entries"):
            return True
        if what == "files" and x[0] == "fld" and x[1] == ARC and x[2] == "files":
            return True
    return False


class Placers:
    """workspace functions that put cached content somewhere, resp. fetch or drop"""

    def __init__(self, P):
        self.P = P
        self.memo = {}

    def kinds(self, cf):
        if cf.id not in self.memo:
            k = set()
            for fid in reach(self.P, [cf]):
                for c in self.P.fns[fid].calls():
                    if is_place(c):
                        k.add("place")
                    if c.decl.endswith("PackageFetcher::tarball"):
                        k.add("fetch")
                    if c.res in ("cacache::rm::RemoveOpts::remove_sync", "cacache::remove_sync", "cacache::rm::remove_sync", "cacache::index::delete", "cacache::index::RemoveOpts::remove_sync"):
                        k.add("drop")
                    if c.res == "cacache::index::find":
                        k.add("find")
            self.memo[cf.id] = k
        return self.memo[cf.id]


class Record(MustRule):
    """in the code that reads the archive"""
    volatile = {"settled", "placed", "recorded", "inserted"}

    def __init__(self, ctx):
        self.ctx = ctx
        self.K = Placers(ctx.P)
        self.ins = 0

    def enter(self, fn):
        return fn.crate == "nassun"

    def sym_fact(self, f, s, val):
        from .p01 import entry_type_eq
        out = set()
        if s[0] == "call" and s[1].endswith("::entry_type"):
            out.add(("settled",) if val != "Regular" else ("reg",))
        if s[0] == "call" and s[1].endswith("EntryType::is_file") and val is False:
            out.add(("settled",))
        if s[0] == "call" and s[3] in ("core::cmp::PartialEq::eq", "core::cmp::PartialEq::ne") and val is not s[3].endswith("::eq") and entry_type_eq(s[2]):
            out.add(("settled",))
        if s[0] == "call" and s[3].endswith("Iterator::next") and val == "None":
            if over(s, "entries") and not partial(s):
                out.add(("entries-done",))
        if s[0] == "arg" and val == "None":
            t = self.ctx.P.fns[s[1]].lty(s[2])
            if "Path" in t and "Option" in t:
                out.add(("nocache",))
        t = int_test(s, val)
        if t and t[1] == "zero" and any(c.endswith("Read>::read") and "Tee" in c or c == "alloc::io::read::Read::read" for c in sym.calls_in(("x", t[0]))) and not over(t[0], "entries"):
            out.add(("drained",))
        return frozenset(out)

    def gen(self, c, st, eng):
        if place_gen(self.ctx.P, self.K, c, eng):
            return frozenset(), {((), "Ok"): frozenset([("placed",)])}
        if c.res.startswith("alloc::io::copy") or c.res.startswith("std::io::copy"):
            a = sym.sym_op(c.fn, c.args[1])
            if any(x.endswith(("OpenOptions::open", "File::create", "File::create_new")) for x in sym.calls_in(("x", a))):
                return frozenset(), {((), "Ok"): frozenset([("placed",), ("settled",)] if ("nocache",) in st.facts else [("placed",)])}
            if over(sym.sym_op(c.fn, c.args[0]), "tee"):
                pass
        if c.res.endswith("HashMap::insert") and c.args:
            r = sym.sym_op(c.fn, c.args[0])
            if any(x[0] == "fld" and x[1] == IDX and x[2] == "files" for x in sym.walk(r)):
                return frozenset([("settled",)] if ("placed",) in st.facts else []), {}
        if c.res in INSERT:
            return frozenset(), {((), "Ok"): frozenset([("inserted",)])}
        return frozenset(), {}

    def kill(self, f, c, st):
        if c.decl.endswith("Iterator::next") and over(sym.sym_call(f, c), "entries"):
            return frozenset(x for x in st.facts if x[0] not in ("settled", "placed", "reg"))
        return st.facts

    def check(self, c, st, ch, eng):
        who = ch[0].sname.replace("nassun::", "")
        via = "; via " + " -> ".join(x.sname for x in ch)
        if c.decl.endswith("Iterator::next") and over(sym.sym_call(c.fn, c), "entries"):
            self.ctx.ob("every-entry", "entry loop of %s" % who, ("settled",) in st.facts, c.where,
                        "the loop can go on to the next entry without a regular entry having been placed and noted in the record" + via)
        if c.res in INSERT:
            self.ins += 1
            for fact, what in (("entries-done", "all entries were read"), ("drained", "the rest of the stream was read")):
                self.ctx.ob("record-last", "%s: record needs that %s" % (who, what), (fact,) in st.facts, c.where, "the record can be written before " + what + via)
        if is_place(c):
            self.ctx.ob("record-last", "%s: nothing placed after the record" % who, ("inserted",) not in st.facts, c.where, "files are still placed after the record was written" + via)


class Restore(MustRule):
    """from the public extraction operations: what follows a cache hit"""
    volatile = {"fetchable"}

    def __init__(self, ctx):
        self.ctx = ctx
        self.K = Placers(ctx.P)
        self.n = 0
        self.nf = 0

    def enter(self, fn):
        return fn.crate == "nassun"

    def restore_call(self, c, eng):
        """a workspace call that restores: places from the cache but never fetches"""
        for cf in eng.callees(c):
            k = self.K.kinds(cf)
            if "place" in k and "fetch" not in k and cf.crate == "nassun" and reads_record(self.ctx.P, cf):
                return True
        return False

    def sym_fact(self, f, s, val):
        out = set()
        if s[0] == "call" and s[1] == "cacache::index::find":
            if val == "None":
                out.add(("fetchable",))
                out.add(("miss",))
            if val == "Some":
                out.add(("hit",))
            if val == "Err":
                out.add(("excused",))
        return frozenset(out)

    def gen(self, c, st, eng):
        if c.decl.endswith("PackageFetcher::tarball"):
            return frozenset([("excused",), ("fetched",)]), {}
        if c.res == "cacache::index::find":
            return frozenset(), {((), "Err"): frozenset([("excused",)])}
        ks = set()
        for cf in eng.callees(c):
            ks |= self.K.kinds(cf)
        if "drop" in ks and "fetch" not in ks and "place" not in ks:
            return frozenset(), {((), "Ok"): frozenset([("fetchable",)]), ((), "Err"): frozenset([("excused",)])}
        return frozenset(), {}

    def kill(self, f, c, st):
        if self.restore_call(c, self.eng):
            return st.facts - frozenset([("fetchable",)])
        return st.facts

    def gen_await(self, c, st, eng):
        if self.restore_call(c, eng):
            self.nf += 1
            return frozenset(), {((), "Err"): frozenset([("failed",)]), ((), "Ok"): frozenset([("restored",)])}
        return frozenset(), {}

    def check(self, c, st, ch, eng):
        if c.decl.endswith("PackageFetcher::tarball"):
            self.ctx.ob("fallback", "%s: broken record dropped before the fresh download" % ch[0].sname.replace("nassun::", ""), ("fetchable",) in st.facts, c.where,
                        "after a failed restore the record is still in place; via " + " -> ".join(x.sname for x in ch))

    def exit(self, f, st, ch, eng):
        if not f.cor or P_root(self.ctx.P, f).sname != self.root:
            return
        x = st.look(0, ("@Ready", ".0"), "Err")
        y = st.look(0, (), "Err")
        for z in (y,):
            if z is UN:
                continue
            self.n += 1
            ok = ("excused",) in z
            self.ctx.ob("fallback", "%s: an error means the download was tried" % f.sname.split("::{")[0].replace("nassun::", ""), ok, f.where,
                        "an error is returned although only the restore from the cache failed")


def P_root(P, f):
    return P.root_of(f)


def reads_record(P, cf):
    for fid in reach(P, [cf]):
        f = P.fns[fid]
        for c in f.calls():
            if c.res.endswith("check_archived_root"):
                return True
    return False


class Complete(MustRule):
    """in the restore code: every file of the record is placed"""
    volatile = {"cur", "all"}

    def __init__(self, ctx):
        self.ctx = ctx
        self.K = Placers(ctx.P)
        self.loops = 0

    def enter(self, fn):
        return fn.crate == "nassun"

    def sym_fact(self, f, s, val):
        if s[0] == "call" and s[3].endswith("Iterator::next") and val == "None" and over(s, "files"):
            return frozenset([("all",)])
        return frozenset()

    def gen(self, c, st, eng):
        if place_gen(self.ctx.P, self.K, c, eng):
            return frozenset(), {((), "Ok"): frozenset([("cur",)])}
        return frozenset(), {}

    def kill(self, f, c, st):
        if c.decl.endswith("Iterator::next") and over(sym.sym_call(f, c), "files"):
            return frozenset(x for x in st.facts if x[0] != "cur")
        return st.facts

    def each(self, c):
        return c.decl.endswith("Iterator::try_for_each") and over(sym.sym_call(c.fn, c), "files")

    def clo_in(self, c, facts):
        return facts - frozenset([("cur",)]) if self.each(c) else facts

    def gen_closures(self, c, st, closum, eng):
        if not self.each(c):
            return {}
        for s in closum.values():
            x = State(s.facts, {0: s.cond}).look(0, (), "Ok")
            if x is not UN and ("cur",) not in x:
                return {}
        return {((), "Ok"): frozenset([("all",)])}

    def check(self, c, st, ch, eng):
        if self.each(c):
            self.loops += 1
        if c.decl.endswith("Iterator::next") and over(sym.sym_call(c.fn, c), "files"):
            self.loops += 1
            self.ctx.ob("restore-all", "each file in %s" % c.fn.sname.split("::{")[0].replace("nassun::", ""), ("cur",) in st.facts, c.where,
                        "the loop can go on without the file having been placed")

    def exit(self, f, st, ch, eng):
        if len(ch) == 1:
            x = st.look(0, (), "Ok")
            self.ctx.ob("restore-all", "success of %s" % f.sname.split("::{")[0].replace("nassun::", ""), x is UN or ("all",) in x, f.where, "success without all files of the record having been placed")


def check(ctx):
    P = ctx.P
    ctx.rule("every-entry", "every regular archive entry is placed and noted in the record")
    ctx.rule("record-last", "the record is written after everything else, and nothing is placed later")
    ctx.rule("fallback", "a failed restore drops the record and falls back to a checked download")
    ctx.rule("restore-all", "a successful restore placed every file of the record")
    r = Record(ctx)
    roots = [f for f in P.fns.values() if f.crate == "nassun" and any(c.res.startswith("tar::") and c.res.endswith("::entries") for c in f.calls())]
    for f in roots:
        Engine(P, r).visit(f, frozenset([("settled",)]), {}, [])
    ctx.floor("every-entry", 1)
    ctx.floor("record-last", 3)
    ins = [c for f in P.fns.values() if f.crate == "nassun" for c in f.calls() if c.res in INSERT]
    ctx.ob("record-last", "records are written by the archive reader only", bool(ins) and r.ins > 0 and all(any(c.fn.id in reach(P, [g]) for g in roots) for c in ins), ins[0].where if ins else "", "a record is written elsewhere")
    x = Restore(ctx)
    for n in ("extract_to_dir", "extract_to_dir_checked"):
        for f in ctx.need(PKG + n, "public extraction operation"):
            bodies = [b for b in f.children if b.cor] or [f]
            for b in bodies:
                x.root = f.sname
                x.eng = Engine(P, x)
                x.eng.run([b], [("fetchable",)])
    ctx.floor("fallback", 2)
    ctx.ob("fallback", "a restore can fail", x.nf > 0, "", "no download follows a failed restore")
    y = Complete(ctx)
    for f in P.fns.values():
        if f.crate == "nassun" and any(c.res.endswith("check_archived_root") for c in f.calls()):
            if any(is_place(c) for fid in reach(P, [f]) for c in P.fns[fid].calls()):
                Engine(P, y).visit(f, frozenset([("cur",)]), {}, [])
    ctx.floor("restore-all", 1)
