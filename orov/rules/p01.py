"""Containment: a taint analysis over the value-flow graph shows that no path
string taken from a package (archive entry names and link targets, cached index,
declared bins) reaches the path argument of a file system effect except through
`Component::Normal` payloads or `file_name`, which cannot climb out of the directory;
must-facts show that only regular archive entries are materialised; parsed package
names pass a validator that rejects `.`, `..` and separators."""
import re
from ..must import MustRule, Engine, UN
from ..effects import effect, FS
from .. import sym
from ..model import Call
from ..cg import reach, chain
from ..vfg import live, live_params

# further sinks: path-like arguments of foreign calls that create or change files
EXTRA = {
    "cacache::get::copy_hash_sync": (2,), "cacache::get::reflink_hash_sync": (2,), "cacache::get::hard_link_hash_sync": (2,),
    "cacache::get::copy_hash_unchecked_sync": (2,), "cacache::get::hard_link_hash_unchecked_sync": (2,), "cacache::get::reflink_hash_unchecked_sync": (2,),
    "std::os::unix::fs::symlink": (0, 1), "async_std::os::unix::fs::symlink": (0, 1),
    "cacache::get::link_to_hash_sync": (2,),
}
SRC = re.compile(r"^(async_)?tar(_wasm)?::.*::(path|path_bytes|path_lossy|link_name|link_name_bytes|pax_extensions)$")
UNPACK = re.compile(r"^(async_)?tar(_wasm)?::.*::(unpack|unpack_in)$")
RAW = "oro_common::build_manifest::RawBuildManifest"
ARCH = "nassun::tarball::ArchivedTarballIndex"
FILE_NAME = ("std::path::Path::file_name", "std::path::Path::file_stem")
SCOPE = ("nassun", "node_maintainer", "oro_shim_bin", "oro_common")


def entry_type_eq(args):
    return any(c.endswith("::entry_type") for a in args for c in sym.calls_in(a)) and \
        any(x[0] == "agg" and x[2] == "Regular" for a in args for x in sym.walk(a))


def sinks(c):
    e = FS.get(c.res) or FS.get(c.decl)
    idx = set()
    if e:
        idx.add(e[1])
    for n in (c.res, c.decl):
        idx |= set(EXTRA.get(n, ()))
    return sorted(idx)


class Regular(MustRule):
    def __init__(self, ctx, tainted):
        self.ctx = ctx
        self.t = tainted
        self.n = 0

    def sym_fact(self, f, s, val):
        if s[0] != "call":
            return frozenset()
        if s[1].endswith("::entry_type") and val == "Regular":
            return frozenset([("regular",)])
        if s[1].endswith("EntryType::is_file") and val is True:
            return frozenset([("regular",)])
        if s[3] in ("core::cmp::PartialEq::eq", "core::cmp::PartialEq::ne") and val is s[3].endswith("::eq") and entry_type_eq(s[2]):
            return frozenset([("regular",)])
        return frozenset()

    def enter(self, fn):
        return fn.crate == "nassun"

    def ctx_facts(self, call, cf, st):
        if cf.cor:
            cf = self.ctx.P.root_of(cf)
        return frozenset(("ctx", p) for p in live_params(self.ctx.G, self.t, call, cf, [x[1] for x in st.facts if x[0] == "ctx"]))

    def check(self, c, st, chain, eng):
        for i in sinks(c):
            if i < len(c.args) and live(self.ctx.G, self.t, self.ctx.G.opnode(c.fn, c.args[i]), [x[1] for x in st.facts if x[0] == "ctx"]):
                self.n += 1
                self.ctx.ob("regular-only", "%s via %s" % (c.res, chain[0].sname), ("regular",) in st.facts, c.where,
                            "file system effect on an archive entry's path without the entry being known to be a regular file; via " + " -> ".join(x.sname for x in chain))


def check(ctx):
    P, G = ctx.P, ctx.G
    ctx.rule("contain", "no package-controlled path reaches a file system effect unsanitised")
    ctx.rule("sources", "the package-controlled sources exist and are followed")
    ctx.rule("regular-only", "file system effects on entry paths happen for regular entries only")
    ctx.rule("no-unpack", "archives are never unpacked wholesale")
    ctx.rule("names", "parts of package names reject '.', '..' and anything that needs URL encoding")
    tar_src, src, unp = set(), set(), []
    for f in P.fns.values():
        for c in f.calls():
            if SRC.match(c.res) or SRC.match(c.decl):
                n = G.node(f, c.dest, write=True)
                tar_src.add(n)
            if UNPACK.match(c.res) or UNPACK.match(c.decl):
                unp.append((f, c))
    roots = [f for f in P.fns.values() if f.crate in ("node_maintainer", "orogene") or f.sname.startswith("nassun::package::Package::")]
    pr = reach(P, roots)
    ctx.ob("no-unpack", "package operations", True)
    for f, c in unp:
        if f.id in pr:
            ctx.ob("no-unpack", f.sname, False, c.where, "%s materialises links and special entries; reached via %s" % (c.res, chain(P, pr, f.id)))
    ctx.ob("sources", "archive entry paths", any(n[0] == 'L' and P.fns[n[1]].crate == "nassun" for n in tar_src))
    src |= tar_src
    for adt, fields in ((ARCH, ("files", "bin_paths")), (RAW, ("bin", "directories", "name"))):
        for fl in fields:
            a = P.adts.get(adt)
            ctx.ob("sources", "%s.%s" % (adt, fl), a is not None and any(x["n"] == fl for v in a["vs"] for x in v["f"]), "", "declared source field no longer exists")
            src.add(('F', adt, fl))

    def cut(a, b, c, ai):
        if b[0] == 'V' and b[2] == "Normal":
            return True
        if isinstance(c, Call) and (c.decl in FILE_NAME or c.res in FILE_NAME):
            return True
        return nocut(a, b, c, ai)

    def nocut(a, b, c, ai):
        return c in ("test", "err") or (b[0] == 'F' and b[1].endswith("Error"))
    free = G.forward(src, nocut)
    # separators introduced after sanitising make a string a path again
    again = set()
    for f in P.fns.values():
        if not f.crate.startswith(SCOPE):
            continue
        for c in f.calls():
            if c.res.endswith("str::replace") and len(c.args) == 3:
                to = [k for k in sym.consts_in(("x", sym.sym_op(f, c.args[2]))) if isinstance(k, str)]
                if any("/" in k for k in to) and G.opnode(f, c.args[0]) in free:
                    again.add(G.node(f, c.dest, write=True))
    t = G.forward(src | again, cut)
    n = 0
    for f in P.fns.values():
        if f.crate not in SCOPE:
            continue
        for c in f.calls():
            for i in sinks(c):
                if i >= len(c.args):
                    continue
                nd = G.opnode(f, c.args[i])
                if nd in free:
                    n += 1
                    ok = nd not in t
                    ctx.ob("contain", "%s in %s" % (c.res, P.root_of(f).sname), ok, c.where,
                           "unsanitised package-controlled path: " + (" <- ".join(G.fmt(x) for x in G.path(t, nd)[:14]) if not ok else ""))
    ctx.floor("contain", 10)
    ctx.note("%d nodes tainted before sanitising, %d after, %d sinks reached by package-controlled names" % (len(free), len(t), n))
    # regular files only
    tt = G.forward(tar_src, nocut)
    r = Regular(ctx, tt)
    e = Engine(P, r)
    roots = [f for f in P.fns.values() if f.crate == "nassun" and any(c.decl.endswith("::entries") and c.res.startswith("tar::") for c in f.calls())]
    e.run(roots)
    ctx.floor("regular-only", 3)
    names(ctx)


class Validates(MustRule):
    """facts about the argument of a name validator"""

    def __init__(self):
        self.bad = None

    def sym_fact(self, f, s, val):
        out = set()
        neq = None
        if s[0] == "call" and s[3] in ("core::cmp::PartialEq::eq", "core::cmp::PartialEq::ne"):
            neq = val is not s[3].endswith("::eq")
            ks = set()
            enc = False
            for y in s[2]:
                ks |= set(k for k in sym.consts_in(y) if isinstance(k, str))
                enc = enc or any("percent_encoding" in c or c == "alloc::fmt::format" for c in sym.calls_in(y))
            if neq and not enc:
                out |= set(("not", k) for k in ks)
            elif enc and not neq:
                out.add(("plain",))
        return frozenset(out)


def names(ctx):
    P = ctx.P
    memo = {}

    def validator(fid):
        if fid in memo:
            return memo[fid]
        f = P.fns.get(fid)
        if f is None:
            memo[fid] = set()
            return set()
        r = Validates()
        e = Engine(P, r)
        s = e.visit(f, frozenset(), {}, [])
        from ..must import State
        x = State(s.facts, {0: s.cond}).look(0, (), "Ok")
        memo[fid] = set(x) if x is not UN else set()
        return memo[fid]
    n = 0
    for f in P.fns.values():
        if not f.sname.startswith("oro_package_spec::parsers::") or f.kind == "Closure":
            continue
        builds = set()
        for g in [f] + f.children:
            for b in g.rpo():
                for s in g.bbs[b]["s"]:
                    if s[1][0] == "agg" and isinstance(s[1][1], dict) and s[1][1].get("adt") == "oro_package_spec::PackageSpec" and s[1][1]["v"] in ("Alias", "Npm"):
                        builds.add(s[1][1]["v"])
        scope_like = f.sname.endswith("::scope")
        if not builds and not scope_like:
            continue
        for c in f.calls():
            if "take_till" in c.res or "take_while" in c.res or "is_not" in c.res:
                d = c.dest[0]
                use = [k for k in f.calls() if any(a[0] in "cm" and a[1][0] == d for a in k.args)]
                ok = False
                miss = "not validated"
                for k in use:
                    if k.res.endswith("map_res") and len(k.args) == 2 and k.args[1][0] == "k":
                        fid = k.args[1][1].get("fn", {}).get("ri", k.args[1][1].get("fn", {}).get("di"))
                        v = validator(fid)
                        need = {("not", "."), ("not", ".."), ("plain",)}
                        ok = need <= v
                        miss = "validator %s does not establish %s" % (fid, sorted(need - v))
                n += 1
                ctx.ob("names", "%s part %d" % (f.sname, sum(1 for x in f.calls() if x.bb < c.bb and "take_" in x.res)), ok, c.where, miss)
    ctx.floor("names", 4)
