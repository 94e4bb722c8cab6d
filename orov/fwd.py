"""Option forwarding: every value stored in a field is the same-named option of its source."""
from . import sym
from .model import Call


def writes(P, adt, field):
    """(function, block, index, term) of each store to the field"""
    out = []
    key = (adt, field)
    if not hasattr(P, "_fw"):
        P._fw = {}
        for f in P.fns.values():
            for b in f.rpo():
                for i, s in enumerate(f.bbs[b]["s"]):
                    rv = s[1]
                    if rv[0] == "agg" and isinstance(rv[1], dict) and "adt" in rv[1]:
                        for n, o in zip(rv[1]["f"], rv[2]):
                            P._fw.setdefault((rv[1]["adt"], n), []).append((f, b, i, "op", o))
                    if len(s[0]) > 1 and s[0][-1].startswith(".") and "#" in s[0][-1]:
                        n, _, a = s[0][-1][1:].partition("#")
                        P._fw.setdefault((a, n), []).append((f, b, i, "rv", rv))
                t = f.bbs[b]["t"]
                if t[0] == "call" and len(t[3]) > 1 and t[3][-1].startswith(".") and "#" in t[3][-1]:
                    n, _, a = t[3][-1][1:].partition("#")
                    P._fw.setdefault((a, n), []).append((f, b, -1, "call", f.call_at(b)))
    for f, b, i, k, x in P._fw.get(key, ()):
        t = sym.sym_op(f, x) if k == "op" else sym.sym_call(f, x) if k == "call" else sym.sym_rv(f, x)
        out.append((f, b, i, t))
    return out


def field(ctx, rule, dsts, dfield, src, sfield, allow=lambda f, t: False):
    P = ctx.P
    n = 0
    ok_src = {(src, sfield)} | {(d, dfield) for d in dsts}
    for d in dsts:
        for f, b, i, t in writes(P, d, dfield):
            if f.derived:
                continue
            for ts in sym.instances(P, f, [t], 4):
                for x in sym.multi(P, ts[0]):
                    y = x
                    while y[0] == "un" and y[1] == "Not" and y[2][0] == "un" and y[2][1] == "Not":
                        y = y[2][2]
                    ok = (y[0] == "fld" and (y[1], y[2]) in ok_src) or (y[0] == "arg" and not any(True for _ in callers_of(P, y[1]))) \
                        or (y[0] in ("const", "named") and (f.trait or "").endswith("default::Default")) or allow(f, y)
                    n += 1
                    ctx.ob(rule, "%s.%s set in %s" % (d.rsplit("::", 1)[1], dfield, P.root_of(f).sname), ok, "%s:%s" % (f.file, f.line_of(b, i)),
                           "the option may get another value than that of %s.%s" % (src.rsplit("::", 1)[1], sfield))
    return n


def callers_of(P, fid):
    from .cg import callers
    return callers(P).get(fid, ())
