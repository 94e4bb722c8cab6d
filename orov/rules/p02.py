"""Integrity: must-facts over the MIR of the tarball reader (an end-of-stream is only
reported after the checksum was verified, or there is none), of the constructors (a reader
made for a checksum carries a checker made from that checksum), of the extraction path (no
file-system effect on the target before the verified end of the stream, or a cache hit under
the requested checksum), and of every checked entry point (an unchecked reader is only made
where there is no checksum); value flow for where checksums and cache keys come from."""
import re
from ..must import MustRule, Engine, UN
from ..cg import reach, callers
from ..vfg import live, live_params
from ..effects import effect
from ..sym import int_test
from .. import sym

TB = "nassun::tarball::Tarball"
PKG = "nassun::package::Package::"
RES = "nassun::resolver::PackageResolution"
INTEG = "ssri::integrity::Integrity"
READS = ("::read", "::poll_read")
DRAIN = ("::copy", "::copy_buf", "::read_to_end")


def is_read(c):
    return c.endswith(READS) and ("io" in c)


def raw(x):
    """the term reads the stream behind the checker"""
    return any(y[0] == "fld" and y[1] == TB and y[2] == "reader" for y in sym.walk(x)) or any(c.startswith(TB + "::into_inner") for c in sym.calls_in(x))


class Read(MustRule):
    """inside the checked reader"""

    def __init__(self, ctx):
        self.ctx = ctx

    def sym_fact(self, f, s, val):
        out = set()
        t = int_test(s, val)
        if t and any(is_read(c) for c in sym.calls_in(("x", t[0]))):
            out.add(("amt", t[1]))
        if s[0] == "call" and s[1].endswith("Option::take") and s[2]:
            s = s[2][0]
        if s[0] == "fld" and s[1] == TB and s[2] == "checker" and val == "None":
            out.add(("nochecker",))
        if s[0] == "call" and s[1].endswith(("Option::is_none", "Option::is_some")) and s[2] and s[2][0][:3] == ("fld", TB, "checker") and val is s[1].endswith("is_none"):
            out.add(("nochecker",))
        if s[0] == "call" and s[1].endswith("IntegrityChecker::result") and val == "Ok":
            out.add(("verified",))
        if s[0] == "call" and s[1].endswith(("Result::is_err", "Result::is_ok")) and val is s[1].endswith("is_ok") and any(c.endswith("IntegrityChecker::result") for c in sym.calls_in(s)):
            out.add(("verified",))
        return frozenset(out)

    def gen(self, c, st, eng):
        if c.res.startswith("ssri::checker::IntegrityChecker::") and c.res.endswith(("::input", "::chain")):
            return frozenset([("fed",)]), {}
        if c.res == "ssri::checker::IntegrityChecker::result":
            return frozenset(), {((), "Ok"): frozenset([("verified",)])}
        return frozenset(), {}

    def exit(self, f, st, ch, eng):
        if len(ch) != 1:
            return
        x = st.look(0, ("@Ready", ".0"), "Ok")
        if x is not UN:
            y = st.look(0, (), "Ready")
            x = x if y is UN else x | y
        if x is UN:
            return
        ok = ("verified",) in x or ("nochecker",) in x or (("fed",) in x and ("amt", "pos") in x)
        # a join of good paths: look at each block that returns instead
        self.ctx.ob("verify-read", "end of stream of %s" % short(f.sname), ok or self.paths(f, eng), f.where,
                    "a successful read is reported on a path where the data neither went to the checker nor was the checksum verified")

    def paths(self, f, eng):
        """decide at the construction of the returned Ok, before paths join"""
        good = None
        for b in f.rpo():
            for i, s in enumerate(f.bbs[b]["s"]):
                rv = s[1]
                if rv[0] == "agg" and isinstance(rv[1], dict) and rv[1].get("adt") == "core::result::Result" and rv[1]["v"] == "Ok":
                    good = self.split(f, eng, b)
                    if not good:
                        return False
        return bool(good)

    def split(self, f, eng, target):
        """path-wise: walk back from target; each maximal acyclic path must establish it"""
        ok = True
        n = 0
        for p in paths_to(f, target):
            n += 1
            if n > 4000:
                return False
            st = None
            from ..must import State
            st = State(frozenset(), {})
            feasible = True
            for k, b in enumerate(p[:-1]):
                nxt = None
                for s, x in eng.flow(f, b, st, None):
                    if s == p[k + 1]:
                        nxt = x
                if nxt is None:
                    feasible = False
                    break
                st = nxt
            if not feasible:
                continue
            x = st.facts
            if not (("verified",) in x or ("nochecker",) in x or (("fed",) in x and ("amt", "pos") in x)):
                ok = False
        return ok


def paths_to(f, target):
    out = []

    def go(b, path, seen):
        if len(out) > 4000:
            return
        if b == target:
            out.append(path)
            return
        for s in f.succ(b):
            if s not in seen:
                go(s, path + [s], seen | {s})
    import sys
    sys.setrecursionlimit(10000)
    go(0, [0], {0})
    return out


def short(n):
    return n.replace("nassun::", "")


class Checked(MustRule):
    """from the checked entry points: no unchecked reader while there is a checksum"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.n = 0

    def enter(self, fn):
        return fn.crate == "nassun"

    def sym_fact(self, f, s, val):
        if val == "None":
            if s[0] == "call" and s[1] == RES + "::integrity":
                return frozenset([("noint",)])
            if s[0] == "call" and s[1].endswith("Option::take") and s[2]:
                s = s[2][0]
            if s[0] == "fld" and s[1] in (RES, TB) and s[2] == "integrity":
                return frozenset([("noint",)])
            if s[0] == "arg":
                t = self.ctx.P.fns[s[1]].lty(s[2])
                if INTEG in t and "Option" in t:
                    return frozenset([("noint",)])
        return frozenset()

    def check(self, c, st, ch, eng):
        for cf in eng.callees(c):
            if cf.crate != "nassun":
                continue
            for i, a in enumerate(c.args):
                t = cf.lty(i + 1) if i + 1 <= cf.argc else ""
                if INTEG in t and "Option" in t:
                    x = eng.cond_value(c.fn, st, a, "None")
                    self.ctx.ob("passed-on", "%s passes a checksum to %s" % (short(ch[0].sname), short(cf.sname)), x is UN or ("noint",) in x, c.where,
                                "None may be passed although the package has a checksum")

    def check_stmt(self, f, b, i, s, st, ch, eng):
        rv = s[1]
        if rv[0] == "agg" and isinstance(rv[1], dict) and rv[1].get("adt") == TB and ("noint",) not in st.facts:
            k = rv[1]["f"].index("checker") if "checker" in rv[1]["f"] else None
            x = sym.sym_op(f, rv[2][k]) if k is not None else None
            self.n += 1
            ok = x is not None and x[0] == "agg" and x[2] == "Some"
            if not ok and k is not None:
                ok = eng.cond_value(f, st, rv[2][k], "None") is UN
            self.ctx.ob("no-unchecked", "reader made for %s" % short(ch[0].sname), ok, "%s:%s" % (f.file, s[2]),
                        "a reader without a checker is made on a path where the package may have a checksum; via " + " -> ".join(x.sname for x in ch))


class Extract(MustRule):
    def __init__(self, ctx, flow, content):
        self.ctx = ctx
        self.t = flow
        self.content = content
        self.n = 0

    def enter(self, fn):
        return fn.crate == "nassun"

    def sym_fact(self, f, s, val):
        out = set()
        t = int_test(s, val)
        if t and t[1] == "zero" and any(is_read(c) and ("async" in c or "futures" in c) for c in sym.calls_in(("x", t[0]))) and not raw(t[0]):
            out.add(("eof",))
        if s[0] == "call" and s[1] == "cacache::index::find" and val == "Some":
            out.add(("hit",))
        return frozenset(out)

    def gen_await(self, c, st, eng):
        if c.decl.endswith(DRAIN) and not raw(sym.sym_call(c.fn, c)):
            return frozenset(), {((), "Ok"): frozenset([("eof",)])}
        return frozenset(), {}

    def kill(self, f, c, st):
        if c.decl == "nassun::fetch::PackageFetcher::tarball" or c.decl.endswith("PackageFetcher::tarball"):
            return frozenset(x for x in st.facts if x != ("hit",))
        return st.facts

    def ctx_facts(self, call, cf, st):
        if cf.cor:
            cf = self.ctx.P.root_of(cf)
        return frozenset(("ctx", p) for p in live_params(self.ctx.G, self.t, call, cf, [x[1] for x in st.facts if x[0] == "ctx"]))

    def check(self, c, st, ch, eng):
        from .p01 import sinks
        for i in sinks(c):
            if i >= len(c.args):
                continue
            if not live(self.ctx.G, self.t, self.ctx.G.opnode(c.fn, c.args[i]), [x[1] for x in st.facts if x[0] == "ctx"]):
                continue
            self.n += 1
            ok = ("eof",) in st.facts or ("hit",) in st.facts
            self.ctx.ob("verified-first", "%s under %s" % (c.res, short(ch[0].sname)), ok, c.where,
                        "the target is touched before the whole stream was read and verified (or a cache entry found); via " + " -> ".join(x.sname for x in ch))


def check(ctx):
    P, G = ctx.P, ctx.G
    ctx.rule("verify-read", "the reader reports success only for data it fed to the checker, or after verifying, or without a checksum")
    ctx.rule("constructor", "a reader made for a checksum has a checker and records exactly that checksum")
    ctx.rule("no-unchecked", "checked operations make unchecked readers only where the package has no checksum")
    ctx.rule("passed-on", "checked operations pass the checksum on")
    ctx.rule("verified-first", "extraction touches the target only after the verified end of the stream or a cache hit")
    ctx.rule("raw-stream", "nothing but the checked reader reads the stream behind the checker")
    ctx.rule("cache-checked", "content is taken from the cache by verifying operations only")
    ctx.rule("key", "cache keys are made from the checksum asked for, or the one recorded with a verified stream")
    ctx.rule("resolution", "resolutions and lockfile nodes take their checksum from the metadata they are made from")
    ctx.rule("parse-errors", "a checksum that cannot be parsed is an error, never 'no checksum'")
    # 1 reader
    rd = [f for f in P.fns.values() if f.sname.endswith("::poll_read") and f.argc >= 1 and "Pin<&mut " + TB + ">" in f.lty(1)]
    for f in rd:
        r = Read(ctx)
        Engine(P, r).run([f])
    ctx.floor("verify-read", 1)
    # 2 constructors
    for f in P.fns.values():
        for b in f.rpo():
            for s in f.bbs[b]["s"]:
                rv = s[1]
                if rv[0] == "agg" and isinstance(rv[1], dict) and rv[1].get("adt") == TB:
                    d = dict(zip(rv[1]["f"], [sym.sym_op(f, o) for o in rv[2]]))
                    integ = [i for i in range(1, f.argc + 1) if INTEG in f.lty(i)]
                    ck, rec = d.get("checker"), d.get("integrity")
                    cargs = [y for y in sym.walk(ck) if y[0] == "arg"]
                    if integ:
                        want = ("arg", f.id, integ[0])
                        ok = want in cargs and any(c.endswith("IntegrityChecker::new") for c in sym.calls_in(ck)) and (rec is None or want in list(sym.walk(rec)))
                        opt = "Option" in f.lty(integ[0])
                        ok = ok and (opt or (ck[0] == "agg" and ck[2] == "Some"))
                        ctx.ob("constructor", short(f.sname), ok, "%s:%s" % (f.file, s[2]), "given a checksum, but the reader's checker is not made from it")
                    else:
                        ok = rec is None or (rec[0] == "agg" and rec[2] == "None") or ck[0] != "agg"
                        ctx.ob("constructor", short(f.sname), ok, "%s:%s" % (f.file, s[2]), "records a checksum without checking it")
    ctx.floor("constructor", 2)
    # 3 checked entry points
    roots = [f for f in P.fns.values() if f.sname.startswith(PKG) and f.kind != "Closure" and "unchecked" not in f.sname.rsplit("::", 1)[1]
             and f.sname[len(PKG):] in ("tarball", "tarball_checked", "entries", "entries_checked", "extract_to_dir", "extract_to_dir_checked")]
    ctx.need([PKG + n for n in ("tarball", "tarball_checked", "extract_to_dir", "extract_to_dir_checked")], "checked package operation")
    r = Checked(ctx)
    for f in roots:
        Engine(P, r).run([f])
    ctx.floor("no-unchecked", 4)
    # who uses the unchecked operations
    for f in P.fns.values():
        if f.crate not in ("node_maintainer", "orogene"):
            continue
        for c in f.calls():
            if c.res.startswith((PKG, "nassun::client::Nassun::")) and "unchecked" in c.res:
                ctx.ob("no-unchecked", "%s uses %s" % (f.sname, short(c.res)), False, c.where, "installs must use the checked operations")
    # 4 extraction
    dirs = set()
    ext = [f for f in P.fns.values() if f.sname.startswith(PKG + "extract_to_dir") and f.kind != "Closure" and f.sname.count("::") == PKG.count("::")]
    for f in ext:
        for i in range(1, f.argc + 1):
            if f.varname.get(i) == "dir" or i == 2:
                dirs.add(('L', f.id, i))
    nocut = lambda a, b, c, ai: c in ("test", "err") or (b[0] == 'F' and b[1].endswith("Error"))
    t = G.forward(dirs, nocut)
    x = Extract(ctx, t, None)
    x.n = 0
    e = Engine(P, x)
    for f in ext:
        pub = f.sname[len(PKG):] in ("extract_to_dir", "extract_to_dir_checked", "extract_to_dir_unchecked")
        if pub:
            e.visit(f, frozenset([("ctx", ('L', f.id, 2))]), {}, [])
    ctx.floor("verified-first", 6)
    # 5 raw stream
    ok_readers = set(f.id for f in rd)
    for f in P.fns.values():
        if f.crate != "nassun":
            continue
        for b in f.rpo():
            for pl in places(f, b):
                if any(e_.split('#')[0] == ".reader" and e_.endswith(TB) for e_ in pl[1:]):
                    nm = f.sname
                    ctx.ob("raw-stream", "use of the inner stream in %s" % short(P.root_of(f).sname), f.id in ok_readers or nm == TB + "::into_inner" or f.sname.endswith(("::fmt",)),
                           f.where, "reads the stream without the checker")
        for c in f.calls():
            if c.res == TB + "::into_inner":
                ctx.ob("raw-stream", "into_inner called in %s" % f.sname, False, c.where, "reads the stream without the checker")
    # 6 cache content
    bad = [(f, c) for f in P.fns.values() for c in f.calls() if c.res.startswith("cacache::") and "unchecked" in c.res]
    ctx.ob("cache-checked", "no unverified cache reads", not bad, bad[0][1].where if bad else "", "%s does not verify the content" % (bad[0][1].res if bad else ""))
    n = 0
    for f in P.fns.values():
        for c in f.calls():
            if f.crate == "nassun" and c.res.startswith("cacache::") and c.res.rsplit("::", 1)[1].startswith(("copy_hash", "reflink_hash", "hard_link_hash", "read_hash")):
                n += 1
                ctx.ob("cache-checked", "%s in %s" % (c.res, short(f.sname)), "unchecked" not in c.res, c.where)
    # 7 keys
    for f in P.fns.values():
        if f.crate != "nassun":
            continue
        for c in f.calls():
            if c.res in ("cacache::index::find", "cacache::index::insert", "cacache::index::delete"):
                nd = G.opnode(f, c.args[1])
                back = G.backward([nd], lambda a, b, cc, ai: cc in ("test", "err"))
                ty = any(x[0] == 'L' and INTEG in P.fns[x[1]].lty(x[2]) for x in back)
                lit = any(x[0] == 'K' and isinstance(x[1], str) and "nassun::package::" in x[1] for x in back) or ty
                ctx.ob("key", "%s in %s" % (c.res, short(P.root_of(f).sname)), ty and lit, c.where, "the key is not made from a checksum")
                if c.res.endswith("insert"):
                    rec = any(x == ('F', TB, "integrity") for x in back)
                    ctx.ob("key", "%s uses the verified checksum" % short(P.root_of(f).sname), rec, c.where, "the entry is not filed under the checksum the stream was verified against")
    ctx.floor("key", 3)
    # 8 resolutions
    DIST = "oro_common::packument::Dist"
    dist = [a for a in P.adts if a.startswith("oro_common::") and a.endswith("::Dist")]
    DIST = dist[0] if dist else DIST
    for f in P.fns.values():
        if f.crate not in ("nassun", "node_maintainer"):
            continue
        if f.sname.endswith(("::clone", "Default>::default")):
            continue
        for b in f.rpo():
            for s in f.bbs[b]["s"]:
                rv = s[1]
                if rv[0] == "agg" and isinstance(rv[1], dict) and "integrity" in rv[1].get("f", ()):
                    adt = rv[1]["adt"]
                    if adt not in (RES, "node_maintainer::lockfile::LockfileNode"):
                        continue
                    o = rv[2][rv[1]["f"].index("integrity")]
                    back = G.backward([G.opnode(f, o)], lambda a, b, cc, ai: cc in ("test", "err"))
                    src = set()
                    if any(x[0] == 'F' and x[1] == DIST and x[2] == "integrity" for x in back):
                        src.add("metadata")
                    if any(x[0] == 'F' and x[2] == "integrity" and x[1].startswith("node_maintainer::lockfile::") for x in back):
                        src.add("lockfile")
                    if any(x == ('F', RES, "integrity") for x in back):
                        src.add("resolution")
                    if any(x[0] == 'K' and x[1] == "integrity" for x in back):
                        src.add("document")
                    if "metadata" in src and not any(x[0] == 'F' and x[1] == DIST and x[2] == "shasum" for x in back):
                        src.clear()
                    ctx.ob("resolution", "%s made in %s" % (adt.rsplit("::", 1)[1], P.root_of(f).sname), bool(src), "%s:%s" % (f.file, s[2]), "the checksum does not come from metadata, a lockfile or a resolution")
    ctx.floor("resolution", 4)
    # 9 unreadable checksums are errors
    for f in P.fns.values():
        if f.crate not in ("nassun", "node_maintainer"):
            continue
        for c in f.calls():
            if c.decl.startswith("core::result::Result::") and c.decl.rsplit("::", 1)[1] in ("ok", "unwrap_or", "unwrap_or_default", "unwrap_or_else", "or", "or_else", "is_ok", "map_or", "iter"):
                a = c.args[0]
                if a[0] in "cm" and len(a[1]) == 1 and re.match(r"&?core::result::Result<(core::option::Option<)?" + INTEG, f.lty(a[1][0])):
                    ctx.ob("parse-errors", "%s in %s" % (c.decl, P.root_of(f).sname), False, c.where, "a checksum that cannot be read is treated as no checksum")
    ctx.ob("parse-errors", "no unreadable checksum is dropped", True)


def places(f, b):
    bb = f.bbs[b]
    for s in bb["s"]:
        yield s[0]
        rv = s[1]
        if rv[0] == "ref":
            yield rv[2]
        elif rv[0] == "agg":
            for o in rv[2]:
                if o[0] in "cm":
                    yield o[1]
        else:
            for o in rv[1:]:
                if isinstance(o, (list, tuple)) and o and o[0] in ("c", "m"):
                    yield o[1]
    t = bb["t"]
    if t[0] == "call":
        for a in f.call_at(b).args:
            if a[0] in "cm":
                yield a[1]
