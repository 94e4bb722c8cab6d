"""May-call graph: resolved callees, dispatch to every implementation, closures and coroutines created."""
from collections import defaultdict, deque
from .must import callees


def refs(P, f):
    """workspace functions f may run (or hand to something that runs them)"""
    if "refs" in f.cache:
        return f.cache["refs"]
    out = []
    seen = set()

    def add(g, c):
        if g.id not in seen:
            seen.add(g.id)
            out.append((g, c))
    for c in f.calls():
        for g in callees(P, c):
            add(g, c)
        for a in c.args:
            if a[0] == "k":
                k = a[1]
                if "fn" in k:
                    i = k["fn"].get("ri", k["fn"].get("di"))
                    if i in P.fns:
                        add(P.fns[i], c)
                    elif k["fn"].get("di") in P.timpls:
                        for g in P.timpls[k["fn"]["di"]]:
                            add(g, c)
                if "clo" in k and k["clo"] in P.fns:
                    add(P.fns[k["clo"]], c)
    for b in f.rpo():
        for s in f.bbs[b]["s"]:
            rv = s[1]
            if rv[0] == "agg" and isinstance(rv[1], dict) and "clo" in rv[1]:
                g = P.fns.get(rv[1]["clo"])
                if g is not None:
                    add(g, None)
            elif rv[0] in ("cast", "use"):
                o = rv[2] if rv[0] == "cast" else rv[1]
                if o[0] == "k":
                    k = o[1]
                    if "fn" in k:
                        i = k["fn"].get("ri", k["fn"].get("di"))
                        if i in P.fns:
                            add(P.fns[i], None)
                    if "clo" in k and k["clo"] in P.fns:
                        add(P.fns[k["clo"]], None)
    f.cache["refs"] = out
    return out


def reach(P, roots, stop=None):
    """fn id -> (pred fn, call) for everything reachable"""
    pred = {}
    q = deque()
    for r in roots:
        if r.id not in pred:
            pred[r.id] = None
            q.append(r)
    while q:
        f = q.popleft()
        for g, c in refs(P, f):
            if g.id in pred:
                continue
            if stop and stop(g):
                continue
            pred[g.id] = (f, c)
            q.append(g)
    return pred


def chain(P, pred, fid):
    out = []
    while fid is not None:
        out.append(P.fns[fid].sname)
        x = pred[fid]
        fid = x[0].id if x else None
    return " <- ".join(out)


def callers(P):
    if not hasattr(P, "_callers"):
        m = defaultdict(list)
        for f in P.fns.values():
            for g, c in refs(P, f):
                m[g.id].append((f, c))
        P._callers = m
    return P._callers


def enclosing(P, f):
    """user-visible function a closure/coroutine belongs to"""
    return P.root_of(f)
