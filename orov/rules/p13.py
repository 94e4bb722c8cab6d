"""Lockfile agreement: tables extracted from the writer (tree -> lockfile -> KDL) and from the readers
(KDL / npm lockfile -> lockfile -> packages, manifests) are compared field by field."""
from .. import sym, tables, each
from ..cg import reach
from ..model import Call
from ..effects import effect

LF = "node_maintainer::lockfile::Lockfile"
LN = LF + "Node"
G = "node_maintainer::graph::"
DT = G + "DepType"
CM = "oro_common::manifest::CorgiManifest"
DEPS = {"dependencies": "Prod", "dev_dependencies": "Dev", "peer_dependencies": "Peer", "optional_dependencies": "Opt"}
NPM = "node_maintainer::lockfile::NpmPackageLockEntry"


SHRINK = ("dedup", "dedup_by", "dedup_by_key", "retain", "retain_mut", "truncate", "pop", "remove", "swap_remove", "shift_remove", "clear", "drain", "split_off")
PLAIN = ("is_empty", "is_some", "is_none", "next", "iter", "into_iter", "as_ref", "as_deref", "deref", "len", "collect", "from_iter", "as_str", "borrow")


def guard_ok(t, vals, may):
    """a test of the recorded thing itself, or of what may matter"""
    if any(x[0] == "call" and x[3].endswith("Iterator::next") for x in sym.walk(t)) and t[0] == "call":
        return True
    fs = flds(t, LN)
    if not fs:
        return not any(x[0] == "fld" or x[0] == "call" and x[1].rsplit("::", 1)[-1] not in PLAIN for x in sym.walk(t)) 
    if not fs <= may:
        return False
    for x in sym.walk(t):
        if x[0] == "call" and x[1].rsplit("::", 1)[-1] not in PLAIN:
            return False
        if x[0] == "const" and not isinstance(x[1], bool) and x[1] != 0:
            return False
    return True


def flds(t, adt):
    return {x[2] for x in sym.walk(t) if x[0] == "fld" and x[1] == adt}


def aggs(P, fids, adt):
    for fid in fids:
        f = P.fns[fid]
        if f.derived:
            continue
        for b in f.rpo():
            for i, s in enumerate(f.bbs[b]["s"]):
                rv = s[1]
                if rv[0] == "agg" and isinstance(rv[1], dict) and rv[1].get("adt") == adt:
                    yield f, b, s, dict(zip(rv[1]["f"], rv[2])), rv[1]["v"]


def closure_flds(P, t, adt):
    out = set()
    for x in sym.closure_terms(P, t):
        out |= flds(x, adt)
    return out


def cut(t):
    """does the list of names leave some out, keep several as one, or turn them round?"""
    turned = 0
    for x in sym.walk(t):
        if x[0] != "call":
            continue
        n = x[3].rsplit("::", 1)[-1]
        if "Iterator::" in x[3]:
            if n in sym.DROPS and n not in ("filter", "filter_map") and not (n == "skip" and x[2][1:] == [("const", 1)] and "core::str::split" in sym.calls_in(x[2][0])):
                return True
            turned += n == "rev"
        elif x[3].startswith("core::str::") or x[1].startswith("core::str::"):
            if n in ("splitn", "rsplitn", "split_once", "rsplit_once"):
                return True
            turned += n == "rsplit"
    return turned % 2 == 1


def check(ctx):
    P = ctx.P
    ctx.rule("names", "each recorded field is written under the node name it is read back from, and no other field is")
    ctx.rule("kinds", "each kind of dependency goes to, and comes from, its own list")
    ctx.rule("tree", "a lockfile entry records the resolution of its own package and where it is placed")
    ctx.rule("package", "a package taken from a lockfile entry is made of that entry's fields")
    ctx.rule("npm", "an npm lockfile's entries are read field by field")
    ctx.rule("manifest", "a package taken from the lockfile has the dependencies the entry records")
    ctx.rule("all", "every package of the tree is recorded, written and read")
    ctx.need(LF + "::to_kdl", "lockfile writer")
    ctx.need(LF + "::from_kdl", "lockfile reader")
    wr = reach(P, P.byname[LF + "::to_kdl"])
    rd = reach(P, P.byname[LF + "::from_kdl"])
    want = [x["n"] for x in P.adts[LN]["vs"][0]["f"] if x["n"] not in ("name", "is_root")]
    # writer
    W = {}
    sites = []
    for fid in wr:
        f = P.fns[fid]
        if f.crate != "node_maintainer":
            continue
        for c in f.calls():
            m = c.res.rsplit("::", 1)[-1]
            if not (m in ("push", "insert", "extend", "set_children") and len(c.args) >= 2):
                continue
            recv = sym.sym_op(f, c.args[0])
            vals = [sym.sym_op(f, a) for a in c.args[1:]]
            for mp in tables.contexts(P, f, wr):
                rs = tables.special(P, recv, mp, 4)
                names = set()
                for r in rs:
                    for x in sym.walk(r):
                        if x[0] == "call" and x[1] == "kdl::node::KdlNode::new":
                            names |= {k for k in tables.consts(P, x[2][0], mp) if isinstance(k, str)}
                fs = set()
                vn = set()
                for v in vals:
                    for x in tables.special(P, v, mp, 3):
                        fs |= flds(x, LN)
                        for y in sym.walk(x):
                            if y[0] == "call" and y[1] == "kdl::node::KdlNode::new":
                                vn |= {k for k in tables.consts(P, y[2][0], mp) if isinstance(k, str)}
                sites.append((f, c, mp, fs & set(want), vn))
                for fl in fs & set(want):
                    W.setdefault(fl, set()).update(names)
    roots = {"root", "pkg"}
    W = {k: (v if k == "path" else v - roots) for k, v in W.items()}
    # when it is written
    by = {n: fl for fl, ns in W.items() if fl != "path" for n in ns}
    attached = set()
    for f, c, mp, fs, vn in sites:
        fls = fs | {by[n] for n in vn if n in by}
        if vn:
            attached |= {by[n] for n in vn if n in by}
        for fl in sorted(fls - {"path"}):
            may = {fl, "is_root", "path", "packages"} | ({"resolved"} if fl == "integrity" else set())
            bad = []
            for h, k, m in ((f, c, mp),) + tuple(mp.get("chain", ())):
                for term, vals in tables.conds(h, k.bb):
                    if not guard_ok(sym.subst(term, m), vals, may):
                        bad.append(k.where)
            ctx.ob("names", "%s is written whenever there is one" % fl, not bad, c.where, "whether it is written depends on more than it")
    for fl in want:
        if fl != "path" and W.get(fl):
            ctx.ob("names", "the node of %s becomes part of the document" % fl, fl in attached, P.byname[LF + "::to_kdl"][0].where, "the node is made but not added to the document")
    for fid in sorted(wr):
        f = P.fns[fid]
        dyn = [c for c in f.calls() if c.res == "kdl::node::KdlNode::new" and not [k for k in sym.consts_in(sym.sym_op(f, c.args[0])) if isinstance(k, str)]
               and "next" in str(sym.calls_in(sym.sym_op(f, c.args[0])))]
        if f.crate != "node_maintainer" or not dyn:
            continue
        src = lambda t: any(x[0] in ("arg", "fld") for x in sym.walk(t)) and "KdlDocument" not in str(t)
        new = lambda t: "kdl::node::KdlNode::new" in sym.calls_in(t)
        a, w1 = each.each(P, f, src, lambda c: c.res == "kdl::node::KdlNode::push" and new(sym.sym_op(c.fn, c.args[0])))
        b, w2 = each.each(P, f, src, lambda c: c.res.endswith("Vec::push") and any(new(sym.sym_op(c.fn, x)) for x in c.args[1:]))
        ctx.ob("all", "every dependency of an entry is written with its request", a and b, (w1 + w2 or [f.where])[0], "a dependency may be left out, or written without what was requested")
    for fid in sorted(rd):
        f = P.fns[fid]
        ins = [c for c in f.calls() if c.res.rsplit("::", 1)[-1] == "insert" and "IndexMap" in c.res]
        if f.crate != "node_maintainer" or not ins or f.derived or "String" not in f.lty(ins[0].args[2][1][0] if ins[0].args[2][0] in "cm" else 0):
            continue
        a, w1 = each.each(P, f, lambda t: "kdl::document::KdlDocument::nodes" in sym.calls_in(t), lambda c: c in ins)
        skips = [x for x in w1 if x != f.where]
        ctx.ob("all", "every dependency of an entry is read", not skips, (skips or [f.where])[0], "a dependency of the file may be left out")
    for fid in sorted(wr | rd):
        f = P.fns[fid]
        if f.crate == "node_maintainer":
            for c in f.calls():
                if c.res.rsplit("::", 1)[-1] in SHRINK and c.args and ("packages" in flds(sym.sym_op(f, c.args[0]), LF) or any(x[0] == "call" and x[3].endswith("Iterator::collect") for x in sym.walk(sym.sym_op(f, c.args[0])))):
                    ctx.ob("all", "no entry is removed from the collection", False, c.where, "entries are removed before they are written or used")
    # where an entry belongs: every name of its path
    for fid in sorted(wr):
        f = P.fns[fid]
        if f.crate != "node_maintainer":
            continue
        for c in f.calls():
            if c.decl.startswith("core::iter::traits::iterator::Iterator::") and c.args:
                t = sym.sym_call(f, c)
                if "path" in flds(t, LN) and f.sname.startswith(LN):
                    ctx.ob("tree", "every name of an entry's path is written", not cut(t), c.where, "the path is written with names left out or out of order")
    for f, b, s, ops, _ in aggs(P, set(P.fns), LN):
        t = sym.sym_op(f, ops["path"]) if "path" in ops else ("unk",)
        ctx.ob("tree", "every name of an entry's path is read", not any(cut(x) for x in sym.multi(P, t)), f.where, "the path is read with names left out, joined or out of order")
    # reader
    R = {}
    nread = 0
    for f, b, s, ops, _ in aggs(P, rd, LN):
        nread += 1
        for fl, o in ops.items():
            t = sym.sym_op(f, o)
            R.setdefault(fl, set()).update(read_names(P, t, {}, 4))
    for fl in want:
        if fl == "path":
            continue
        ctx.ob("names", "%s is read from where it is written" % fl, bool(W.get(fl)) and W.get(fl) == R.get(fl), P.byname[LF + "::to_kdl"][0].where,
               "written as %s, read from %s" % (sorted(W.get(fl, ())), sorted(R.get(fl, ()))))
        for o in want:
            if o != fl and o != "path":
                ctx.ob("names", "%s and %s are kept apart" % (fl, o), not (W.get(fl, set()) & W.get(o, set())), P.byname[LF + "::to_kdl"][0].where,
                       "both are written as %s" % sorted(W.get(fl, set()) & W.get(o, set())))
    p = W.get("path", set())
    rc = set()
    for fid in rd:
        if P.fns[fid].crate == "node_maintainer":
            rc |= {x for x in sym.body_consts(P.fns[fid]) if isinstance(x, str)}
    ctx.ob("names", "entries are written under names that are read", bool(p) and p <= rc, "", "written as %s" % sorted(p))
    ctx.ob("all", "lockfile reader builds entries", nread >= 1, "", "no entry is built in the reader")
    # kinds: tree <- manifest
    for f in ctx.need(G + "Node::new", "tree node constructor"):
        pairs = set()
        for g in [f] + [x for x in P.fns.values() if P.root_of(x) is f and x is not f]:
            for c in g.calls():
                if c.decl.startswith("core::iter::traits::iterator::Iterator::map") or c.res.rsplit("::", 1)[-1] in ("map", "zip", "for_each"):
                    t = sym.sym_call(g, c)
                    fl = flds(t[2][0], CM) if len(t) > 2 and t[2] else set()
                    vs = set()
                    for a in t[2][1:]:
                        for x in sym.closure_terms(P, a):
                            vs |= {y[2] for y in sym.walk(x) if y[0] == "agg" and y[1] == DT}
                    if fl and vs:
                        pairs |= {(a, b) for a in fl for b in vs}
        for a, b in sorted(pairs):
            ctx.ob("kinds", "manifest %s become %s" % (a, b), DEPS.get(a) == b, f.where, "listed as %s dependencies" % b)
        ctx.ob("kinds", "manifest lists read into the tree", {("dependencies", "Prod"), ("optional_dependencies", "Opt"), ("dev_dependencies", "Dev")} <= pairs, f.where,
               "only %s are read" % sorted(pairs))
    # kinds: lockfile <- tree
    made = 0
    top = ctx.need(G + "Graph::to_lockfile", "tree to lockfile")
    tl = reach(P, top)
    for f, b, s, ops, _ in aggs(P, tl, LN):
        made += 1
        tab = dep_table(P, f)
        for fl, v in DEPS.items():
            loc = chase(f, ops[fl])
            got = sorted(k for k, l in tab.items() if l == loc)
            ctx.ob("kinds", "%s dependencies are recorded as %s" % (v, fl), got == [v], f.where, "%s records the dependencies of kind %s" % (fl, got))
        PR = "nassun::resolver::PackageResolution"
        for fl, src in (("version", {"Npm": "version"}), ("integrity", {"Npm": "integrity"}), ("resolved", {"Npm": "tarball", "Dir": "path", "Git": "info"})):
            for v in ("Npm", "Dir", "Git"):
                for t in per_variant(P, f, sym.sym_op(f, ops[fl]), v, PR):
                    got = {(x[2], x[4]) for x in sym.walk(t) if x[0] == "fld" and x[1] == PR}
                    exp = {(src[v], v)} if v in src else set()
                    ctx.ob("tree", "%s of a package of kind %s is that of its resolution" % (fl, v), got == exp, f.where, "made of %s" % sorted(map(str, got)))
        t = sym.sym_op(f, ops["path"])
        ctx.ob("tree", "path is where the package is placed", G + "Graph::node_path" in sym.calls_in(t), f.where, "not made of the node's path")
        # the same node throughout
        idx = set()
        for o in ops.values():
            for t in sym.multi(P, sym.sym_op(f, o)):
                for x in sym.walk(t):
                    if x[0] == "call" and len(x) > 3 and x[3] == "core::ops::index::Index::index" and x[2][1][0] in ("arg", "fld", "upvar"):
                        idx.add(repr(x[2][1]))
                    if x[0] == "call" and x[1] == G + "Graph::node_path":
                        idx.add(repr(x[2][1]))
        ctx.ob("tree", "entry describes one package", len(idx) == 1, f.where, "fields are taken from several nodes")
    ctx.ob("tree", "entries made from the tree", made >= 1, "", "no lockfile entry is made from the tree")
    # dependencies recorded with what was requested
    for f, b, s, ops, _ in aggs(P, tl, LN):
        ins = [c for c in f.calls() if c.res.rsplit("::", 1)[-1] == "insert" and "IndexMap" in c.res and len(c.args) == 3]
        for c in ins:
            t = sym.sym_op(f, c.args[2])
            src = closure_flds(P, t, G + "Edge")
            cs = set()
            for x in sym.closure_terms(P, t):
                cs |= set(sym.calls_in(x))
            ctx.ob("tree", "dependency recorded with its request", "oro_package_spec::PackageSpec::requested" in cs and "oro_package_spec::PackageSpec::target" not in cs
                   and "requested" in src, c.where, "the requested range is not what is recorded")
    # completeness
    for f in top:
        for g, b, s, ops, _ in aggs(P, [f.id], LF):
            t = sym.sym_op(g, ops["packages"])
            ok = "petgraph::graph_impl::stable_graph::StableGraph::node_indices" in sym.calls_in(t)
            drop = [x for x in sym.walk(t) if x[0] == "call" and len(x) > 3 and "Iterator::" in x[3] and x[3].rsplit("::", 1)[1] in sym.DROPS]
            only = all(root_filter(P, x) for x in drop)
            if ok:
                ctx.ob("all", "every package but the root is recorded", only, g.where, "packages other than the root may be left out of the lockfile")
            else:
                tgt = lambda c: c.res == G + "Graph::node_lockfile_node"
                ctx.ob("all", "every package but the root is recorded", loop_all(P, g), g.where, "packages may be left out of the lockfile")
    for f in P.byname[LF + "::to_kdl"]:
        ok, where = each.each(P, f, lambda t: "packages" in flds(t, LF) or "alloc::vec::Vec" in str(t) and "packages" in str(t),
                              lambda c: c.res.endswith("Vec::push") and any(LN + "::to_kdl" in sym.calls_in(sym.sym_op(c.fn, a)) for a in c.args[1:]))
        if not ok:
            ok = any(made_of(P, sym.sym_op(f, a))
                     for c in f.calls() if c.res.rsplit("::", 1)[-1] in ("extend", "collect", "append") for a in c.args)
        ctx.ob("all", "every recorded package is written", ok, where[0] if where else f.where, "a recorded package may be left out of the file")
    for fl in sorted(DEPS):
        pass
    wd = [f for fid in wr for f in [P.fns[fid]] if f.crate == "node_maintainer" and any(c.res == "kdl::node::KdlNode::new" for c in f.calls())]
    # reading: every entry
    for f, b, s, ops, _ in aggs(P, rd, LF):
        t = sym.sym_op(f, ops["packages"])
        drop = [x for x in sym.walk(t) if x[0] == "call" and len(x) > 3 and "Iterator::" in x[3] and x[3].rsplit("::", 1)[1] in sym.DROPS]
        for x in drop:
            ks = {k for k in tables.consts(P, x) if isinstance(k, str)} | {k for k in sym.deep_consts(P, x) if isinstance(k, str)}
            also = [c for y in x[2][1:] for z in sym.walk(y) if z[0] == "clo" and z[1] in P.fns for c in P.fns[z[1]].calls()
                    if c.res.startswith(("kdl::node::KdlNode::", "kdl::document::")) and not c.res.endswith("KdlNode::name")]
            ctx.ob("all", "reading looks only at the kind of a node", not also, f.where, "whether an entry is read depends on more than its kind")
            ctx.ob("all", "reading skips only nodes of other kinds", x[3].endswith("::filter") and bool(ks & p) and len(ks & p) == 1, f.where, "entries of the file may be left out")
    # the file
    top = [f for f in P.fns.values() if f.sname.endswith("NodeMaintainer::write_lockfile")]
    n = 0
    for fid in reach(P, top):
        f = P.fns[fid]
        if f.crate != "node_maintainer":
            continue
        for c in f.calls():
            e = effect(c)
            if e and e[0] == "write" and c.res.endswith("write") and len(c.args) > 1 and any(P.root_of(f) is x or P.root_of(f).id == x.id for x in top):
                t = sym.sym_op(f, c.args[1])
                n += 1
                ctx.ob("all", "what is written is the whole lockfile", G + "Graph::to_kdl" in sym.calls_in(t) or LF + "::to_kdl" in sym.calls_in(t), c.where, "other content is written as the lockfile")
    # package <- lockfile
    PR = "nassun::resolver::PackageResolution"
    n = 0
    tp = [f for f in P.fns.values() if f.crate == "node_maintainer" and any(True for _ in aggs(P, [f.id], PR))]
    for f, b, s, ops, v in aggs(P, [f.id for f in tp], PR):
        if v != "Npm":
            continue
        n += 1
        for fl, src in (("version", "version"), ("tarball", "resolved"), ("integrity", "integrity")):
            got = set()
            for ts in sym.instances(P, f, [sym.sym_op(f, ops[fl])], 2):
                for t in sym.multi(P, ts[0]):
                    got |= flds(t, LN)
            ctx.ob("package", "%s comes from the entry's %s" % (fl, src), got == {src}, "%s:%s" % (f.file, s[2] if isinstance(s[2], int) else s[2][0]), "made of %s" % sorted(got))
    ctx.ob("package", "packages made from lockfile entries", n >= 1, "", "none found")
    # npm
    n = 0
    for fid in P.fns:
        f = P.fns[fid]
        if f.crate != "node_maintainer" or f.derived:
            continue
        for g, b, s, ops, _ in aggs(P, [fid], LN):
            if not any(flds(sym.sym_op(g, o), NPM) for o in ops.values()):
                continue
            n += 1
            for fl in list(DEPS) + ["version", "integrity", "resolved"]:
                got = set()
                for t in sym.multi(P, sym.sym_op(g, ops[fl])):
                    got |= flds(t, NPM)
                ctx.ob("npm", "%s comes from the npm entry's %s" % (fl, fl), got == {fl}, g.where, "made of %s" % sorted(got))
    ctx.ob("npm", "entries read from npm lockfiles", n >= 1, "", "none found")
    # manifest
    n = 0
    for fid in P.fns:
        f = P.fns[fid]
        if f.crate != "node_maintainer" or f.derived:
            continue
        for g, b, s, ops, _ in aggs(P, [fid], CM):
            if not any(flds(sym.sym_op(g, o), LN) for o in ops.values()):
                continue
            n += 1
            for fl in list(DEPS) + ["version"]:
                got = flds(sym.sym_op(g, ops[fl]), LN)
                ctx.ob("manifest", "%s comes from the entry's %s" % (fl, fl), got == {fl}, g.where, "made of %s" % sorted(got))
    ctx.ob("manifest", "manifests made from lockfile entries", n >= 1, "", "none found")


def made_of(P, t):
    if sym.partial(t):
        return False
    src = any("packages" in flds(x, LF) for x in sym.walk(t))
    return src and any(LN + "::to_kdl" in sym.calls_in(x) for x in sym.closure_terms(P, t))


def per_variant(P, f, t, v, adt, depth=4):
    """what a term is when the resolution is of this kind"""
    ms = [x for x in sym.walk(t) if x[0] == "multi" and x[1] == f.id]
    if not ms or not depth:
        return [t]
    out = []
    by = {}
    for term, vv, d in tables.arms(f, ms[0][2]):
        by.setdefault(id(d), (d, []))[1].append((term, vv))
    for d, conds in by.values():
        hit = [vv for term, vv in conds if term is not None and vv in ("Npm", "Dir", "Git")]
        if hit and v not in hit:
            continue
        x = sym.repl(t, ms[0], tables.dterm(f, d))
        out += per_variant(P, f, reduce(x), v, adt, depth - 1)
    return out or [t]


def reduce(t):
    if isinstance(t, tuple):
        t = tuple(reduce(x) for x in t)
        if len(t) == 5 and t[0] == "fld" and not t[1] and isinstance(t[3], tuple) and t[3] and t[3][0] == "tuple" and t[2].isdigit() and int(t[2]) < len(t[3][1]):
            return t[3][1][int(t[2])]
        return t
    if isinstance(t, list):
        return [reduce(x) for x in t]
    if isinstance(t, dict):
        return {k: reduce(x) for k, x in t.items()}
    return t


def read_names(P, t, m, depth):
    out = set()
    for x in sym.walk(t):
        if x[0] != "call":
            continue
        if x[1].startswith("kdl::document::KdlDocument::get") and len(x[2]) > 1:
            out |= {k for k in tables.consts(P, x[2][1], m) if isinstance(k, str)}
        elif depth and len(P.byname.get(x[1], ())) == 1:
            g = P.byname[x[1]][0]
            mm = {("arg", g.id, i + 1): sym.subst(a, m) for i, a in enumerate(x[2])}
            for c in g.calls():
                if c.res.startswith("kdl::document::KdlDocument::get") and len(c.args) > 1:
                    out |= {k for k in tables.consts(P, sym.sym_op(g, c.args[1]), mm) if isinstance(k, str)}
                elif c.rid in P.fns and c.rid != g.id:
                    out |= read_names(P, sym.subst(sym.sym_call(g, c), mm), mm, depth - 1)
    return out


def chase(f, o):
    """the local a moved value comes from"""
    if o[0] not in "cm" or len(o[1]) != 1:
        return None
    l = o[1][0]
    for _ in range(20):
        d = f.defs().get(l, [])
        if len(d) == 1 and not isinstance(d[0][3], Call) and d[0][3][0] == "use" and d[0][3][1][0] in "cm" and len(d[0][3][1][1]) == 1:
            l = d[0][3][1][1][0]
        else:
            return l
    return l


def dep_table(P, f):
    """kind of dependency -> local map it is put in"""
    out = {}
    for c in f.calls():
        if c.res.rsplit("::", 1)[-1] != "insert" or "IndexMap" not in c.res or len(c.args) != 3:
            continue
        o = c.args[0]
        loc = refroot(f, o[1][0])
        for l, v in loc:
            if v is not None:
                out[v] = l if out.get(v, l) == l else None
            else:
                # the call itself sits in one arm
                for term, vv in call_arms(f, c):
                    out[vv] = l if out.get(vv, l) == l else None
    return out


def call_arms(f, c):
    from ..tables import arms
    key = ("callarm", c.bb)
    if key not in f.cache:
        fake = c.dest[0]
        f.cache[key] = [(t, v) for t, v, d in arms(f, fake) if d[0] == c.bb and v in DEPS.values()]
    return f.cache[key]


def refroot(f, l, depth=0):
    """[(local the reference points to, variant of the arm)]"""
    out = []
    if depth > 10:
        return out
    ds = f.defs().get(l, [])
    for term, v, d in tables.arms(f, l):
        v = v if v in DEPS.values() else None
        rv = d[3]
        if isinstance(rv, Call):
            continue
        if rv[0] == "ref":
            pl = rv[2]
            if len(pl) == 1:
                out.append((pl[0], v))
            elif pl[1] == "*":
                out += [(a, b or v) for a, b in refroot(f, pl[0], depth + 1)]
        elif rv[0] == "use" and rv[1][0] in "cm" and len(rv[1][1]) == 1:
            out += [(a, b or v) for a, b in refroot(f, rv[1][1][0], depth + 1)]
    return list(dict.fromkeys(out))


def root_filter(P, x):
    """a filter that drops the root only"""
    if not x[3].endswith("::filter"):
        return False
    for t in sym.closure_terms(P, x[2][1]):
        if "root" in flds(t, G + "Graph") and (any(c.endswith("PartialEq>::ne") or c.endswith("::ne") for c in sym.calls_in(t)) or any(y[0] == "un" and y[1] == "Not" for y in sym.walk(t))
                                               or any(y[0] == "bin" and y[1] == "Ne" for y in sym.walk(t))):
            return True
    return False


def loop_all(P, f):
    from ..must import Engine, MustRule

    class L(MustRule):
        pass
    def skip(s, v):
        ne = v is False if s[0] == "call" and s[1].endswith("::ne") or s[0] == "bin" and s[1] == "Ne" else v is True if s[0] == "call" and s[1].endswith("::eq") or s[0] == "bin" and s[1] == "Eq" else False
        return ne and "root" in flds(s, G + "Graph")
    ok, _ = each.each(P, f, lambda t: "petgraph::graph_impl::stable_graph::StableGraph::node_indices" in sym.calls_in(t),
                      lambda c: c.res.rsplit("::", 1)[-1] == "insert" and "IndexMap" in c.res, skip)
    return ok
