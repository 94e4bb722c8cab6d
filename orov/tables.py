"""Tables in code: which value a local gets in which arm of a match, and terms specialised to a call's constant arguments."""
from . import sym
from .model import Call
from .cg import callers


def arms(f, local):
    """[(switch term, variant, definition)] for the definitions of a local; variant None when not tied to one arm"""
    key = ("arms", local)
    if key in f.cache:
        return f.cache[key]
    sw = []
    for b in f.rpo():
        t = f.bbs[b]["t"]
        if t[0] != "switch" or t[1][0] not in "cm":
            continue
        l = t[1][1][0]
        d = [x for x in f.defs().get(l, []) if not isinstance(x[3], Call) and x[3][0] == "discr"]
        if len(d) == 1:
            vm = d[0][3][3]
            term = sym.sym_place(f, d[0][3][1])
            edges = {}
            for val, tgt in t[2]:
                edges.setdefault(vm.get(str(val), str(val)), tgt)
            rest = [v for v in vm.values() if v not in edges]
            for v in rest:
                edges[v] = t[3]
        elif f.lty(l) == "bool" or len(t[2]) == 1 and t[2][0][0] == 0:
            term = sym.sym_place(f, t[1][1])
            edges = {False: t[2][0][1], True: t[3]}
        else:
            continue
        reachs = {}
        for v, tgt in edges.items():
            seen, todo = {tgt}, [tgt]
            while todo:
                x = todo.pop()
                for n in f.succ(x):
                    if n not in seen and n != b:
                        seen.add(n)
                        todo.append(n)
            reachs[v] = seen
        sw.append((term, reachs))
    out = []
    for d in f.defs().get(local, []):
        if len(d[2]) != 1:
            continue
        hit = False
        for term, reachs in sw:
            vs = [v for v, s in reachs.items() if d[0] in s]
            if len(vs) < len(reachs):
                for v in vs:
                    out.append((term, v, d))
                    hit = True
        if not hit:
            out.append((None, None, d))
    f.cache[key] = out
    return out


def dterm(f, d):
    return sym.sym_call(f, d[3]) if isinstance(d[3], Call) else sym.sym_rv(f, d[3])


def variant(t):
    if t[0] == "agg":
        return t[2]
    if t[0] == "const" and isinstance(t[1], bool):
        return t[1]
    return None


def special(P, s, m, depth=5):
    """alternatives for a term with parameters replaced by m and matches on known values decided"""
    s = sym.subst(s, m)
    if depth == 0:
        return [s]
    for x in sym.walk(s):
        if x[0] == "multi":
            f = P.fns[x[1]]
            alts = []
            by = {}
            for term, v, d in arms(f, x[2]):
                by.setdefault(id(d), (d, []))[1].append((term, v))
            for d, conds in by.values():
                ok = True
                for term in {repr(t): t for t, v in conds if t is not None}.values():
                    vs = [v for t, v in conds if t == term]
                    k = variant(sym.subst(term, m))
                    if k is not None and k not in vs:
                        ok = False
                if ok:
                    alts.append(dterm(f, d))
            if not alts or len(alts) > 12 or any(x in list(sym.walk(a)) for a in alts):
                continue
            out = []
            for a in alts:
                out += special(P, sym.repl(s, x, sym.subst(a, m)), m, depth - 1)
            return out
        if x[0] == "call" and len(P.byname.get(x[1], ())) == 1:
            g = P.byname[x[1]][0]
            if g.cor or g.kind == "Closure":
                continue
            mm = {("arg", g.id, i + 1): a for i, a in enumerate(x[2])}
            rs = special(P, ("multi", g.id, 0) if len(g.defs().get(0, [])) > 1 else (sym.returns(P, g) or [("?",)])[0], mm, depth - 1)
            if not rs or len(rs) > 8:
                continue
            out = []
            for r in rs:
                if r[0] in ("multi", "?"):
                    continue
                out += special(P, sym.repl(s, x, r), m, depth - 1)
            if out:
                return out
    return [s]


def contexts(P, f, within, depth=4):
    """argument maps of f for every call chain inside a set of functions"""
    g = P.root_of(f) if f.cor else f
    out = []
    if depth:
        for h in {h.id: h for h, c in callers(P).get(g.id, ())}.values():
            if h.id not in within or h.id == g.id:
                continue
            for c in h.calls():
                if c.rid == g.id or c.res == g.sname:
                    for up in contexts(P, h, within, depth - 1):
                        m = dict(up)
                        m["chain"] = up.get("chain", ()) + ((h, c, up),)
                        for i, a in enumerate(c.args):
                            t = special(P, sym.sym_op(h, a), up, 2)
                            m[("arg", g.id, i + 1)] = t[0] if len(t) == 1 else sym.subst(sym.sym_op(h, a), up)
                        out.append(m)
    return out[:64] or [{}]


def consts(P, s, m=None, depth=5):
    out = set()
    for t in special(P, s, m or {}, depth):
        if t[0] == "const":
            out.add(t[1])
        else:
            out |= {x for x in sym.consts_in(t)}
    return out


def conds(f, bb):
    """[(switch term, values with which bb is reached)] for the switches that decide whether bb is reached"""
    key = ("conds", bb)
    if key in f.cache:
        return f.cache[key]
    out = []
    for b in f.rpo():
        t = f.bbs[b]["t"]
        if t[0] != "switch" or t[1][0] not in "cm":
            continue
        l = t[1][1][0]
        d = [x for x in f.defs().get(l, []) if not isinstance(x[3], Call) and x[3][0] == "discr"]
        if len(d) == 1:
            vm = d[0][3][3]
            term = sym.sym_place(f, d[0][3][1])
            edges = {vm.get(str(v), str(v)): tgt for v, tgt in t[2]}
            for v in vm.values():
                edges.setdefault(v, t[3])
        else:
            term = sym.sym_place(f, t[1][1])
            if f.lty(l) == "bool":
                edges = {False: t[2][0][1], True: t[3]} if t[2][0][0] == 0 else {True: t[2][0][1], False: t[3]}
            else:
                edges = {v: tgt for v, tgt in t[2]}
                edges["other"] = t[3]
        hit = []
        for v, tgt in edges.items():
            seen, todo = {tgt}, [tgt]
            while todo:
                x = todo.pop()
                if x == bb:
                    break
                for n in f.succ(x):
                    if n not in seen and n != b:
                        seen.add(n)
                        todo.append(n)
            if bb in seen:
                hit.append(v)
        if hit and len(hit) < len([v for v, tg in edges.items() if f.bbs[tg]["t"][0] != "unreachable"]):
            out.append((term, hit))
    f.cache[key] = out
    return out
