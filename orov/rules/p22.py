"""Failures reach the caller: for every operation that changes files, reads or parses them, asks the registry or runs
a program -- and for every workspace function that does so -- its error is followed to what consumes it (MIR dataflow).
Passing it over, by dropping it or by ending well on the Err branch, needs a reason the code itself shows."""
from .. import errs, sym, cg
from ..effects import effect, SPAWN
from ..model import Call
from .p08 import SEND, RESP

LOCKFILES = ("package-lock.kdl", "package-lock.json", "npm-shrinkwrap.json")
RECORD = ".orogene-meta.kdl"
READ = ("std::fs::read", "std::fs::read_to_string", "std::fs::read_dir", "std::path::Path::read_dir", "std::fs::File::open", "std::fs::read_link",
        "async_std::fs::read::read", "async_std::fs::read_to_string::read_to_string", "async_std::fs::read_dir::read_dir", "async_std::fs::file::File::open")
BODY = ("json", "text", "bytes", "chunk", "text_with_charset", "error_for_status", "error_for_status_ref")
WRITERS = ("write_all", "write", "flush", "write_fmt", "sync_all", "sync_data", "set_len", "set_permissions", "copy", "persist", "persist_noclobber", "keep", "commit")


def kind(c):
    """class of an operation outside of the workspace, by its resolved callee"""
    e = effect(c)
    if e:
        return "open" if e[0] == "open" else e[0] if e[0] == "delete" else "change"
    r, d = c.res, c.decl
    n = r.rsplit("::", 1)[1] if "::" in r else r
    if r.startswith("reflink_copy::"):
        return "change"
    if r in SEND or r.startswith("reqwest::") and n in BODY:
        return "request"
    if r in SPAWN or d in SPAWN or n in ("wait", "wait_with_output", "try_wait") and "process::Child" in r:
        return "run"
    if r in READ or d in READ:
        return "read"
    if r.startswith(("serde_json::", "kdl::")) and (n.startswith("from_") or n in ("parse", "from_str")):
        return "parse"
    if (d == "core::str::<impl str>::parse" or n == "parse") and c.fn is not None and any(g.startswith("kdl::") and "KdlDocument" in g for g in c.gens):
        return "parse"
    if n in WRITERS and (r.startswith(("std::fs::", "tempfile::", "std::io::", "async_std::fs", "async_std::io")) or d.startswith(("std::io::Write::", "core::io::", "futures_util::io"))):
        t = (c.gens or [""])[0]
        recv = c.fn.lty(c.args[0][1][0]) if c.args and c.args[0][0] in "cm" else ""
        if any(x in t + recv for x in ("String", "alloc::vec::Vec", "Formatter", "base64", "EncoderWriter", "Cursor", "Term", "Stdout", "Stderr", "Hash", "Sha", "core::fmt")):
            return None  # in memory, to a terminal
        return "change"
    if r.startswith("cacache::") and "rm::" not in r and n not in ("exists", "metadata", "exists_sync", "metadata_sync"):
        return "cache"
    return None


class Work:
    """what workspace functions do, transitively"""

    def __init__(self, P):
        self.P = P
        self.own = {}
        self.memo = {}

    def direct(self, f):
        if f.id not in self.own:
            self.own[f.id] = frozenset(k for k in (kind(c) for c in f.calls()) if k)
        return self.own[f.id]

    def of(self, f):
        if f.id not in self.memo:
            out = set()
            for i in cg.reach(self.P, [f]):
                out |= self.direct(self.P.fns[i])
                if self.P.fns[i].crate == "oro_script":
                    out.add("script")
            self.memo[f.id] = frozenset(out)
        return self.memo[f.id]

    def call(self, c, deep=True):
        """classes of a call: its own, its callee's, those of the closures it is given"""
        out = set()
        k = kind(c)
        if k:
            out.add(k)
        for g in cg.callees(self.P, c):
            out |= self.of(g)
        if c.rid not in self.P.fns and not k:
            for t in [sym.sym_op(c.fn, a) for a in c.args] if deep else ():
                for x in sym.walk(t):
                    if x[0] in ("clo", "fn") and x[1] in self.P.fns:
                        out |= self.of(self.P.fns[x[1]])
        return frozenset(out)

    def op(self, f, c, l, d=None):
        """the operation a Result is of: (call or closure, classes)"""
        if c is None:
            e = (errs.result(f.lty(l)) or ('', f.lty(l)))[1]
            return None, frozenset(["item"] if "io::error::Error" in e or any(x in e for x in WS) else [])
        if c.decl == "core::future::future::Future::poll":
            k, y = sym.awaited(f, c)
            if k == "call":
                return y, self.call(y)
            if k == "clo" and y in self.P.fns:
                return self.P.fns[y], self.of(self.P.fns[y])
            return None, frozenset()
        return c, self.call(c)


WS = ("node_maintainer::error", "nassun::error", "oro_client::error", "oro_script::error", "oro_npm_account::error", "oro_package_spec::error", "miette::")


def absent(P, f):
    """barrier edges: the branch taken when what failed is that the file is not there"""
    out = set()
    for b in f.rpo():
        t = f.bbs[b]["t"]
        if t[0] != "switch":
            continue
        s = sym.sym_op(f, t[1])
        if not any(x[0] == "call" and x[1].endswith("io::error::Error::kind") for x in sym.walk(s)):
            continue
        if s[0] == "discr":
            ds = [d[3] for d in f.defs().get(t[1][1][0], ()) if not isinstance(d[3], Call) and d[3][0] == "discr"]
            vm = ds[0][3] if ds else {}
            for x in t[2]:
                if vm.get(str(x[0])) == "NotFound":
                    out.add((b, x[1]))
            continue
        neg = False
        while s[0] == "un" and s[1] == "Not":
            s, neg = s[2], not neg
        if s[0] == "call" and s[3].startswith("core::cmp::PartialEq::") and any(x[0] == "agg" and x[2] == "NotFound" for a in s[2] for x in sym.walk(a)):
            eq = (s[3].endswith("::eq")) != neg
            for x in t[2]:
                if (x[0] != 0) == eq:
                    out.add((b, x[1]))
            if eq and all(x[0] == 0 for x in t[2]):
                out.add((b, t[3]))
    return out


def names(P, c):
    """constants the argument terms of an operation mention, over the places it is called from"""
    out = set()
    for t in [sym.sym_op(c.fn, a) for a in c.args]:
        for inst in sym.instances(P, c.fn, [t], 2):
            for x in (inst if isinstance(inst, list) else [inst]):
                for y in sym.multi(P, x) if isinstance(x, tuple) else ():
                    out |= {str(z) for z in sym.deep_consts(P, y)}
    return out


def check(ctx):
    P = ctx.P
    ctx.rule("awaited", "what an asynchronous operation that does work gives back is used")
    ctx.rule("reported", "no error of an operation that does work is dropped, and none is followed by a good end unless the work is done another way")
    W = Work(P)
    seen = excuses = 0
    for f in sorted(P.fns.values(), key=lambda f: (f.file, f.id)):
        if f.derived or f.file.endswith("build.rs") or "CALLSITE" in f.sname:
            continue
        gone = None

        def barrier(b, n):
            nonlocal gone
            if gone is None:
                gone = absent(P, f)
            return (b, n) in gone

        def redo(c, origin):
            o = W.op(f, origin, None)[1] if origin is not None else frozenset()
            k = W.call(c, False)
            return bool(k & {"request", "run"}) or bool(o) and (o - {"script", "item"}) <= k
        fs, ops = errs.fates(f, barrier, redo=redo)
        bad = {}
        work = [(c, l, W.op(f, c, l)) for c, l, b in ops]
        work = [x for x in work if x[2][1]]
        seen += len(work)
        for x in fs:
            if "try_join" in str(f.mac_of(x.bb)):
                continue
            y, ks = W.op(f, x.call, x.local)
            if not ks:
                continue
            if excused(P, f, x, y, ks):
                excuses += 1
                continue
            bad.setdefault(x.where, (getattr(y, "res", None) or getattr(y, "sname", None) or x.ety, x.kind))
        if work:
            ctx.ob("reported", "%s: %d operation(s)" % (short(f), len(work)), not bad, next(iter(bad), f.where),
                   "; ".join("the error of %s is passed over (%s) and success is reported" % v for v in bad.values()))
        for c in f.calls():
            if skips(f, c):
                ctx.ob("reported", "items in %s" % short(f), False, c.where, "items that could not be read are left out and nobody is told")
            w = adrift(P, W, f, c)
            if w:
                ctx.ob("awaited", "%s in %s" % (c.res.rsplit("::", 1)[1], short(f)), w == "used", c.where, "what %s does is started and its outcome is never looked at" % c.res)
    ctx.floor("reported", 40)
    ctx.floor("awaited", 20)
    ctx.note("%d fallible operations that do work followed; %d passed-over errors have a recognised reason" % (seen, excuses))


def short(f):
    return f.sname.replace("::{closure#", "{").replace("}", "}")


def adrift(P, W, f, c):
    """"used" / "dropped" for the future or task handle of an operation that does work; None for other calls"""
    if len(c.dest) != 1:
        return None
    task = c.res.startswith(("async_std::task::", "tokio::task::", "std::thread::spawn")) and "spawn" in c.res.rsplit("::", 1)[1]
    if not task:
        t = f.lty(c.dest[0])
        if "future::Future<" not in t and not t.startswith("{") or not cg.callees(P, c):
            return None
    if not W.call(c) & WORKS:
        return None
    if c.dest[0] == 0:
        return "used"
    return "used" if errs.uses(f).get(c.dest[0]) else "dropped"


def skips(f, c):
    """an iterator or stream of results that goes on without those that failed"""
    n = c.decl.rsplit("::", 1)[1]
    if n == "flatten" and ("Iterator::" in c.decl or "StreamExt::" in c.decl):
        return f.crate != "orogene" and any(x in g for g in c.gens[:1] for x in ("ReadDir", "walkdir::", "io::Lines"))
    for a in c.args if n in ("filter_map", "flat_map") else ():
        if a[0] == "k" and "fn" in a[1] and a[1]["fn"].get("d", "").startswith("core::result::Result") and a[1]["fn"]["d"].rsplit("::", 1)[1] == "ok":
            return any("io::error::Error" in f.tys[g] or "walkdir::" in f.tys[g] or any(w in f.tys[g] for w in WS) for g in a[1]["fn"].get("g", ()))
    return False


WORKS = {"change", "delete", "request", "run", "cache", "open", "read", "parse"}


def excused(P, f, x, y, ks):
    """reasons for passing an error over that other properties decide, or that concern nothing a user asked for"""
    root = P.root_of(f)
    if ks <= {"read", "parse"} or ks == {"item"}:
        if f.crate == "oro_shim_bin":
            return "the interpreter line of a script"
        cs = names(P, y) if isinstance(y, Call) else set()
        if ks <= {"read"} and cs & set(LOCKFILES):
            return "a lockfile, P11"
        here = {str(v) for v in sym.body_consts(root)}
        for k in cg.reach(P, [root]):
            if P.fns[k].sname.startswith(root.sname):
                here |= {str(v) for v in sym.body_consts(P.fns[k])}
        if RECORD in cs or RECORD in here:
            return "the record of an earlier apply, P16"
        if f.crate == "orogene" and isinstance(y, Call) and y.res.endswith("read_dir") or f.crate == "orogene" and "DirEntry" in f.lty(x.local):
            return "old log files"
        if sent(f, x):
            return "a log that is attached to a report"
        if isinstance(y, Call) and ks == {"parse"} and any("OTP" in g for g in y.gens):
            return "the body of a refusal"
    if f.crate == "node_maintainer" and "script" in ks and any(e in x.ety for e in ("OroScriptError", "NodeMaintainerError")):
        return "a script's outcome, P12"
    return None


def sent(f, x):
    """does what replaces the value go into a telemetry report?"""
    c = f.call_at(x.bb) if f.bbs[x.bb]["t"][0] == "call" else None
    if c is None or len(c.dest) != 1:
        return False
    us = errs.uses(f).get(c.dest[0], ())
    return bool(us) and all(k == "agg" and isinstance(p[1][1], dict) and p[1][1].get("adt", "").startswith("sentry") for (b, i, k, p, pl) in us)
