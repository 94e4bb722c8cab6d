"""Symbolic (flow-insensitive) description of values through single-definition locals."""
from .model import Call, strip_generics


def _single(f, l):
    if 0 < l <= f.argc:
        return None
    d = f.defs().get(l)
    if d and len(d) == 1 and len(d[0][2]) == 1:
        return d[0]
    return None


TRANSPARENT = {
    "core::ops::deref::Deref::deref", "core::ops::deref::DerefMut::deref_mut", "core::convert::AsRef::as_ref", "core::clone::Clone::clone",
    "core::borrow::Borrow::borrow", "alloc::borrow::ToOwned::to_owned", "core::option::Option::as_ref", "core::option::Option::as_deref",
    "core::option::Option::as_mut", "core::option::Option::cloned", "core::option::Option::copied", "core::result::Result::as_ref",
    "alloc::string::String::as_str", "std::path::PathBuf::as_path", "core::convert::Into::into", "core::convert::From::from",
    "alloc::sync::Arc::new", "core::future::into_future::IntoFuture::into_future", "core::pin::Pin::new_unchecked",
    "core::iter::traits::collect::IntoIterator::into_iter", "alloc::string::ToString::to_string", "std::path::Path::to_path_buf",
    "core::option::Option::as_deref_mut", "alloc::string::String::to_owned", "alloc::boxed::Box::new", "alloc::boxed::Box::pin",
    "alloc::slice::to_vec", "alloc::string::String::into_boxed_str",
}
UNWRAP = {
    "core::result::Result::unwrap", "core::result::Result::expect", "core::option::Option::unwrap", "core::option::Option::expect",
    "core::result::Result::map_err", "core::option::Option::ok_or", "core::option::Option::ok_or_else", "core::ops::try_trait::Try::branch",
    "core::result::Result::ok", "miette::eyreish::into_diagnostic::IntoDiagnostic::into_diagnostic", "miette::eyreish::WrapErr::wrap_err",
    "miette::eyreish::WrapErr::wrap_err_with",
    "core::option::Option::unwrap_or_default",
}


def sym_op(f, o, depth=0):
    if o[0] in "cm":
        return sym_place(f, o[1], depth)
    k = o[1]
    if "fn" in k:
        return ("fn", strip_generics(k["fn"].get("r", k["fn"]["d"])))
    if "v" in k:
        return ("const", k["v"])
    if "def" in k:
        return ("named", k["def"])
    if "clo" in k:
        return ("clo", k["clo"])
    return ("const?", f.tys[k["t"]])


def wrap_proj(s, proj):
    """apply projections to a symbolic value"""
    var = None
    for e in proj:
        if e.startswith("@"):
            var = e[1:]
        if e == "*" or e.startswith("@") or e.startswith("["):
            continue
        nm, _, adt = e[1:].partition("#")
        if s[0] == "agg" and nm in s[3]:
            s = s[3][nm]
            continue
        if s[0] == "tuple" and nm.isdigit() and int(nm) < len(s[1]) and not adt:
            s = s[1][int(nm)]
            continue
        if adt.startswith("core::") or adt.startswith("alloc::"):
            continue  # Option/Result/... payloads are transparent
        s = ("fld", adt, nm, s, var)
        var = None
    return s


def sym_place(f, p, depth=0):
    if depth > 150:
        return ("deep",)
    l = p[0]
    proj = p[1:]
    if l == 1 and f.kind == "Closure" and proj:
        fl = [i for i, e in enumerate(proj) if e.startswith(".")]
        if fl:
            i = fl[0]
            idx = proj[i][1:].split("#")[0]
            return wrap_proj(sym_upvar(f, idx, depth), proj[i + 1:])
    d = _single(f, l)
    if d is None:
        if 0 < l <= f.argc:
            base = ("arg", f.id, l)
        else:
            base = ("multi", f.id, l)
        return wrap_proj(base, proj)
    rv = d[3]
    if isinstance(rv, Call):
        base = sym_call(f, rv, depth + 1)
    else:
        base = sym_rv(f, rv, depth + 1)
    return wrap_proj(base, proj)


def sym_upvar(f, idx, depth=0):
    cr = f.prog.creators.get(f.id, [])
    if len(cr) == 1:
        g, b, i, s = cr[0]
        ops = s[1][2]
        if int(idx) < len(ops):
            return sym_op(g, ops[int(idx)], depth + 1)
    return ("upvar", f.id, idx)


def sym_rv(f, rv, depth=0):
    k = rv[0]
    if k == "use":
        return sym_op(f, rv[1], depth)
    if k == "cast":
        return sym_op(f, rv[2], depth)
    if k == "ref":
        return sym_place(f, rv[2], depth)
    if k == "un":
        return ("un", rv[1], sym_op(f, rv[2], depth))
    if k == "bin":
        return ("bin", rv[1], sym_op(f, rv[2], depth), sym_op(f, rv[3], depth))
    if k == "discr":
        return ("discr", sym_place(f, rv[1], depth))
    if k == "agg":
        h = rv[1]
        if isinstance(h, dict) and "adt" in h:
            return ("agg", h["adt"], h["v"], {n: sym_op(f, o, depth + 1) for n, o in zip(h["f"], rv[2])})
        if isinstance(h, dict) and "clo" in h:
            return ("clo", h["clo"])
        return ("tuple" if h == "tuple" else "array", [sym_op(f, o, depth + 1) for o in rv[2]])
    return ("?", k)


def sym_call(f, c, depth=0):
    if depth > 150:
        return ("deep",)
    if c.ind:
        return ("icall", [sym_op(f, a, depth + 1) for a in c.args])
    if c.decl in TRANSPARENT and c.args and c.rid not in f.prog.fns:
        return sym_op(f, c.args[0], depth + 1)
    if c.decl in UNWRAP and c.args:
        return sym_op(f, c.args[0], depth + 1)
    if c.decl == "core::future::future::Future::poll" and c.args:
        return ("await", sym_op(f, c.args[0], depth + 1))
    if c.decl == "core::iter::traits::iterator::Iterator::next":
        # elements of two iterations are different values, also of the same collection
        return ("call", c.res, [sym_op(f, a, depth + 1) for a in c.args], c.decl, "%s:%s" % (f.id, c.bb))
    return ("call", c.res, [sym_op(f, a, depth + 1) for a in c.args], c.decl)


def awaited(f, poll):
    """what a poll call polls: ('call', Call) | ('clo', id) | (None, None)"""
    def chase(o, d):
        if d > 25 or o[0] not in "cm":
            return (None, None)
        l = o[1][0]
        ds = f.defs().get(l, [])
        if 0 < l <= f.argc:
            return (None, None)
        res = (None, None)
        for (b, i, pl, rv) in ds:
            if isinstance(rv, Call):
                if rv.decl in ("core::pin::Pin::new_unchecked", "core::pin::Pin::new", "core::future::into_future::IntoFuture::into_future",
                               "alloc::boxed::Box::pin", "core::ops::deref::DerefMut::deref_mut", "core::pin::Pin::as_mut",
                               "futures_util::future::try_future::TryFutureExt::map_err",
                               "tracing::instrument::Instrument::instrument"):
                    return chase(rv.args[0], d + 1)
                return ("call", rv)
            k = rv[0]
            if k == "use":
                return chase(rv[1], d + 1)
            if k == "cast":
                return chase(rv[2], d + 1)
            if k == "ref":
                return chase(["c", rv[2]], d + 1)
            if k == "agg" and isinstance(rv[1], dict) and "clo" in rv[1]:
                return ("clo", rv[1]["clo"])
        return res
    return chase(poll.args[0], 0)


def walk(s):
    """all sub-terms"""
    yield s
    for x in s:
        if isinstance(x, tuple) and x and isinstance(x[0], str):
            yield from walk(x)
        elif isinstance(x, list):
            for y in x:
                if isinstance(y, tuple):
                    yield from walk(y)
        elif isinstance(x, dict):
            for y in x.values():
                yield from walk(y)


def fields_in(s):
    return [(x[1], x[2]) for x in walk(s) if x[0] == "fld"]


def calls_in(s):
    return [x[1] for x in walk(s) if x[0] == "call"]


def consts_in(s):
    return [x[1] for x in walk(s) if x[0] == "const"]


def int_test(s, val):
    """(term, "zero" | "pos") a boolean test or an integer switch establishes for an unsigned term"""
    if isinstance(val, bool):
        if s[0] == "un" and s[1] == "Not":
            return int_test(s[2], not val)
        if s[0] != "bin":
            return (s, "pos" if val else "zero")
        op, a, b = s[1:4]
        if a[0] == "const":
            op = {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}.get(op, op)
            a, b = b, a
        if b[0] != "const" or isinstance(b[1], bool):
            return None
        n = b[1]
        if not val:
            op = {"Eq": "Ne", "Ne": "Eq", "Lt": "Ge", "Ge": "Lt", "Gt": "Le", "Le": "Gt"}.get(op)
        if (op, n) in (("Eq", 0), ("Le", 0), ("Lt", 1)):
            return (a, "zero")
        if (op, n) in (("Ne", 0), ("Gt", 0), ("Ge", 1)) or (op in ("Gt", "Ge", "Eq") and isinstance(n, int) and n > 0):
            return (a, "pos")
        return None
    if isinstance(val, tuple):
        return (s, "pos") if val[0] == "not" and 0 in val[1] else None
    if isinstance(val, int):
        return (s, "zero" if val == 0 else "pos")
    return None


DROPS = ("filter", "filter_map", "skip", "skip_while", "take", "take_while", "map_while", "step_by", "nth", "last", "find", "find_map", "scan")


def partial(s):
    """does the iterator term go through an adapter that leaves elements out?"""
    return any(x[0] == "call" and (("Iterator::" in x[3] or "StreamExt::" in x[3]) and x[3].rsplit("::", 1)[1] in DROPS or x[3].startswith("walkdir::") and x[3].endswith(("max_depth", "min_depth"))) for x in walk(s))


def body_consts(f, seen=None):
    """string/number constants in a body and its closures"""
    seen = set() if seen is None else seen
    if f.id in seen:
        return set()
    seen.add(f.id)
    out = set()

    def op(o):
        if o[0] == "k":
            k = o[1]
            if "v" in k:
                out.add(k["v"] if not isinstance(k["v"], list) else str(k["v"]))
            if "def" in k and k["def"] in f.prog.fns:
                out.update(body_consts(f.prog.fns[k["def"]], seen))
            if "clo" in k and k["clo"] in f.prog.fns:
                out.update(body_consts(f.prog.fns[k["clo"]], seen))

    def rec(x):
        if isinstance(x, (list, tuple)):
            if len(x) == 2 and x[0] == "k" and isinstance(x[1], dict):
                op(x)
                return
            for y in x:
                rec(y)
        elif isinstance(x, dict):
            if "clo" in x and x["clo"] in f.prog.fns:
                out.update(body_consts(f.prog.fns[x["clo"]], seen))
    for bb in f.bbs.values() if isinstance(f.bbs, dict) else f.bbs:
        for st in bb["s"]:
            rec(st[1])
    for c in f.calls():
        for a in c.args:
            rec(a)
    return out


def deep_consts(P, s):
    """constants in a term, in the closures and the named constants it mentions"""
    out = set()
    for x in walk(s):
        if x[0] == "const":
            out.add(x[1] if not isinstance(x[1], list) else str(x[1]))
        elif x[0] in ("clo", "named") and x[1] in P.fns:
            out |= body_consts(P.fns[x[1]])
    return out


def subst(s, m):
    """replace sub-terms by a mapping"""
    if isinstance(s, tuple):
        if s and s[0] == "arg" and s in m:
            return m[s]
        return tuple(subst(x, m) for x in s)
    if isinstance(s, list):
        return [subst(x, m) for x in s]
    if isinstance(s, dict):
        return {k: subst(v, m) for k, v in s.items()}
    return s


def args_in(s, fid):
    return sorted({x[2] for x in walk(s) if x[0] == "arg" and x[1] == fid})


def instances(P, f, terms, depth=3):
    """the terms with f's parameters replaced by what each caller passes (a list of lists of terms);
    a parameter stays when nobody in the workspace calls f"""
    from .cg import callers
    g = P.root_of(f) if f.cor else f
    need = sorted({a for t in terms for a in args_in(t, g.id)})
    if not need or depth == 0:
        return [terms]
    out = []
    sites = [(h, c) for h in {h.id: h for h, c in callers(P).get(g.id, ())}.values() for c in h.calls() if c.rid == g.id or c.res == g.sname]
    for h, c in sites:
        m = {}
        for a in need:
            if a - 1 < len(c.args):
                m[("arg", g.id, a)] = sym_op(h, c.args[a - 1])
        ts = [subst(t, m) for t in terms]
        if h.id == g.id:
            continue
        out.extend(instances(P, h, ts, depth - 1))
    return out or [terms]


def multi(P, s, depth=4, seen=()):
    """terms a local with several definitions may hold (the term itself if it has one)"""
    out = []
    ms = [x for x in walk(s) if x[0] == "multi" and x not in seen]
    if not ms or depth == 0:
        return [s]
    m = ms[0]
    f = P.fns[m[1]]
    for d in f.defs().get(m[2], []):
        if len(d[2]) != 1:
            continue
        t = sym_call(f, d[3]) if isinstance(d[3], Call) else sym_rv(f, d[3])
        out.extend(multi(P, repl(s, m, t), depth - 1, seen + (m,)))
    return out or [s]


def repl(s, old, new):
    if s == old and isinstance(s, tuple):
        return new
    if isinstance(s, tuple):
        return tuple(repl(x, old, new) for x in s)
    if isinstance(s, list):
        return [repl(x, old, new) for x in s]
    if isinstance(s, dict):
        return {k: repl(v, old, new) for k, v in s.items()}
    return s


def returns(P, f):
    """the terms a function returns (one per definition of its return place)"""
    key = "rets"
    if key not in f.cache:
        out = []
        for d in f.defs().get(0, []):
            if len(d[2]) == 1:
                out.append(sym_call(f, d[3]) if isinstance(d[3], Call) else sym_rv(f, d[3]))
        f.cache[key] = out
    return f.cache[key]


def project(s):
    """components of tuples that are spelled out"""
    if isinstance(s, tuple):
        s = tuple(project(x) for x in s)
        if len(s) > 3 and s[0] == "fld" and isinstance(s[3], tuple) and s[3] and s[3][0] == "tuple" and str(s[2]).isdigit() and int(s[2]) < len(s[3][1]):
            return s[3][1][int(s[2])]
        return s
    if isinstance(s, list):
        return [project(x) for x in s]
    return s


def expand(P, s, depth=3, enter=None):
    """replace calls of workspace functions by what they return, with the arguments put in (alternatives)"""
    if depth == 0:
        return [s]
    for x in walk(s):
        if x[0] == "call" and x[1] in P.byname and (enter is None or enter(x[1])):
            fs = P.byname[x[1]]
            if len(fs) != 1 or fs[0].cor:
                continue
            f = fs[0]
            rs = [t for r in returns(P, f) for t in multi(P, r)]
            if not rs or len(rs) > 8:
                continue
            m = {("arg", f.id, i + 1): a for i, a in enumerate(x[2])}
            out = []
            for r in rs:
                y = repl(s, x, subst(r, m))
                out += expand(P, project(y) if r[0] == "tuple" else y, depth - 1, enter)
            return out
    return [s]


def closure_terms(P, s, depth=3):
    """the term, and what the closures in it return"""
    out = [s]
    if depth:
        for x in walk(s):
            if x[0] == "clo" and x[1] in P.fns:
                for r in returns(P, P.fns[x[1]]):
                    out += closure_terms(P, r, depth - 1)
    return out
