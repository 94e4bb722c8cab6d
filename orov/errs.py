"""Fates of errors: where a fallible operation's error is passed over and the function goes on as if it had succeeded.

For every value of type Result that a call produces, follow the value (moves, adapters that keep the error, awaits)
to what consumes it.  It is *passed over* when nothing looks at it, when an adapter drops the error (`ok`,
`unwrap_or..`, `is_ok` ..), or when it is matched and, from the Err branch, the function can go on to end well."""
from .model import Call
from . import sym

KEEP = ("map_err", "map", "and_then", "or_else", "as_ref", "as_mut", "inspect_err", "inspect", "into_diagnostic", "wrap_err", "wrap_err_with",
        "context", "with_context", "io_context", "into", "from", "clone", "and", "copied", "cloned", "transpose", "flatten", "borrow", "as_deref")
LOSE = ("ok", "unwrap_or", "unwrap_or_else", "unwrap_or_default", "is_ok", "is_err", "map_or", "map_or_else", "is_ok_and", "is_err_and", "iter", "into_iter",
        "or", "unwrap_or_else", "into_ok_or_err", "flatten_ok")
PANIC = ("unwrap", "expect", "unwrap_err", "expect_err", "err")


def result(t):
    """(ok type, error type) of a Result type string"""
    if not t.startswith("core::result::Result<"):
        return None
    body = t[len("core::result::Result<"):-1]
    d = 0
    for i, ch in enumerate(body):
        if ch in "<([{":
            d += 1
        elif ch in ")]}" or (ch == ">" and body[i - 1] != "-"):
            d -= 1
        elif ch == "," and d == 0:
            return body[:i].strip(), body[i + 1:].strip()
    return body, ""


def uses(f):
    """local -> [(bb, idx, kind, payload)]: reads of a local"""
    if "uses" in f.cache:
        return f.cache["uses"]
    u = {}

    def op(o, *w):
        if o[0] in "cm":
            u.setdefault(o[1][0], []).append(w + (o[1],))
    for b in f.rpo():
        bb = f.bbs[b]
        for i, s in enumerate(bb["s"]):
            rv = s[1]
            k = rv[0]
            if k == "use":
                op(rv[1], b, i, "use", s)
            elif k == "cast":
                op(rv[2], b, i, "use", s)
            elif k == "ref":
                u.setdefault(rv[2][0], []).append((b, i, "ref", s, rv[2]))
            elif k == "discr":
                u.setdefault(rv[1][0], []).append((b, i, "discr", s, rv[1]))
            elif k == "agg":
                for o in rv[2]:
                    op(o, b, i, "agg", s)
            elif k in ("bin",):
                op(rv[2], b, i, "other", s)
                op(rv[3], b, i, "other", s)
            elif k == "un":
                op(rv[2], b, i, "other", s)
        t = bb["t"]
        if t[0] == "call":
            c = f.call_at(b)
            for n, a in enumerate(c.args):
                op(a, b, -1, "call", (c, n))
        elif t[0] == "switch":
            op(t[1], b, -1, "switch", t)
        elif t[0] == "yield":
            for o in t[1:2]:
                if isinstance(o, list) and o and o[0] in ("c", "m"):
                    op(o, b, -1, "other", t)
    f.cache["uses"] = u
    return u


def goodval(f, rv):
    """is a value that is assigned an Ok made on the spot?"""
    if rv[0] == "agg":
        return isinstance(rv[1], dict) and rv[1].get("v") == "Ok" and rv[1].get("adt") == "core::result::Result"
    if rv[0] == "use" and rv[1][0] in "cm" and len(rv[1][1]) == 1:
        ds = f.defs().get(rv[1][1][0], ())
        return bool(ds) and all(not isinstance(d[3], Call) and d[3][0] == "agg" and goodval(f, d[3]) for d in ds)
    return False


def ends_well(f, start, barrier, retry, redo=lambda b: False, used=(), held=()):
    """a block reachable from start where the function ends without an error, or goes round to `retry`"""
    rty = result(f.lty(0))
    yes = f.lty(0) == "bool"
    todo, seen = [(start, False)], {(start, False)}
    while todo:
        x, over = todo.pop()
        if x == retry:
            return x
        for i, s in enumerate(f.bbs[x]["s"]):
            # the failed result is replaced by a good one: what is consumed later is not it
            if len(s[0]) == 1 and s[0][0] in held and goodval(f, s[1]):
                over = True
        stop = x in used and not over
        for i, s in enumerate(f.bbs[x]["s"]):
            rv = s[1]
            if s[0][0] == 0 and len(s[0]) == 1:
                if rty and rv[0] == "agg" and isinstance(rv[1], dict) and rv[1].get("v") == "Err":
                    stop = True
                elif rty and rv[0] == "use" and errval(f, rv[1]):
                    stop = True
                elif yes and rv[0] == "use" and rv[1][0] == "k" and rv[1][1].get("v") is False:
                    stop = True  # the answer is no
                if stop:
                    break
            elif rv[0] == "agg" and isinstance(rv[1], dict) and rv[1].get("v") == "Err" and rv[1].get("adt") == "core::result::Result":
                stop = True
                break
        if stop:
            continue
        t = f.bbs[x]["t"]
        if t[0] == "call":
            c = f.call_at(x)
            if c.decl.endswith("FromResidual::from_residual") or c.target < 0:
                continue
            if redo(x):
                continue
        if t[0] == "ret":
            return x
        for n in f.succ(x):
            if (n, over) not in seen and not barrier(x, n):
                seen.add((n, over))
                todo.append((n, over))
    return None


def within(f, starts, cut):
    """blocks reachable from starts without passing cut"""
    todo, seen = list(starts), set(starts)
    while todo:
        x = todo.pop()
        for n in f.succ(x):
            if n != cut and n not in seen:
                seen.add(n)
                todo.append(n)
    return seen


def errval(f, o):
    return o[0] in "cm" and any(not isinstance(d[3], Call) and d[3][0] == "agg" and isinstance(d[3][1], dict) and d[3][1].get("v") == "Err" for d in f.defs().get(o[1][0], ()))


class Fate:
    __slots__ = ("fn", "call", "kind", "where", "ety", "bb", "local")

    def __repr__(self):
        return "<%s %s %s %s>" % (self.kind, self.call.res if self.call else None, self.where, self.ety[:40])


def fates(f, barrier=lambda b, n: False, want=lambda e: True, redo=None):
    """the passed-over errors of a body, as Fate objects, and the fallible operations looked at.
    redo(call, origin): a call that, made only because the operation failed, does its work another way"""
    out, n = [], []
    W = Walk(f, barrier, redo)
    for l, ds in sorted(f.defs().items()):
        for d in ds:
            if len(d[2]) != 1 or l >= len(f.locals):
                continue
            r = result(f.lty(l))
            if r is None or not want(r[1]):
                continue
            if isinstance(d[3], Call):
                c = d[3]
                if c.decl.endswith("FromResidual::from_residual"):
                    continue
                if c.args and c.args[0][0] in "cm" and result(f.lty(c.args[0][1][0])) and c.decl.rsplit("::", 1)[1] in KEEP:
                    continue  # followed from its receiver
            elif d[3][0] == "use" and d[3][1][0] in "cm" and len(d[3][1][1]) > 1 and "Ready" in "".join(map(str, d[3][1][1][1:])):
                pc = [x[3] for x in f.defs().get(d[3][1][1][0], ()) if isinstance(x[3], Call)]
                c = pc[0] if pc else None
            elif d[3][0] == "use" and d[3][1][0] in "cm" and len(d[3][1][1]) > 1 and "Some" in "".join(map(str, d[3][1][1][1:])):
                c = None  # an item of a stream or an iterator
            elif d[3][0] == "use" and d[3][1][0] == "m" and d[3][1][1][0] == 1 and len(d[3][1][1]) > 1 and "{closure" in f.sname:
                c = None  # captured
            else:
                continue
            n.append((c, l, d[0]))
            out += W.of(l, c, d[0], r[1])
    for b in f.rpo():
        for i, st in enumerate(f.bbs[b]["s"]):
            rv = st[1]
            if rv[0] == "discr" and len(rv[1]) > 1 and "Some" in "".join(map(str, rv[1][1:])) and set(rv[3].values()) == {"Ok", "Err"}:
                r = ("", f.lty(rv[1][0]))
                n.append((None, rv[1][0], b))
                W.origin, W.c, W.seen = b, None, set()
                for kind, bb in W.discr(st[0][0], rv[3]):
                    out.append(W.fate(rv[1][0], None, kind, r[1], bb))
    for l in range(1, f.argc + 1):
        r = result(f.lty(l))
        if r is not None and want(r[1]) and "{closure" in f.sname:
            n.append((None, l, 0))
            out += W.of(l, None, 0, r[1])
    return out, n


class Walk:
    def __init__(self, f, barrier, redo):
        self.f, self.barrier, self.redo = f, barrier, redo

    def of(self, l, c, origin, ety):
        out = []
        self.origin, self.c, self.seen = origin, c, set()
        for kind, bb in self.follow(l):
            out.append(self.fate(l, c, kind, ety, bb))
        return out

    def fate(self, l, c, kind, ety, bb):
        x = Fate()
        x.fn, x.call, x.kind, x.ety, x.bb, x.local = self.f, c, kind, ety, bb, l
        x.where = "%s:%s" % (self.f.file, self.f.line_of(bb))
        return x

    def discr(self, l, vm):
        """the switches on a discriminant: where Err ends well"""
        f, out = self.f, []
        ev = [v for v, n in vm.items() if n == "Err"]
        for (b3, _, k3, t, _) in uses(f).get(l, ()):
            if k3 != "switch":
                continue
            bad = [x[1] for x in t[2] if str(x[0]) in ev] or [t[3]]
            good = [x[1] for x in t[2] if x[1] not in bad] + ([t[3]] if t[3] not in bad else [])
            for e in bad:
                if self.split(b3, e, good) is not None:
                    out.append(("match", b3))
        return out

    def split(self, sb, bad, good):
        """from the Err target of the switch in sb, does the function end well?"""
        if self.barrier(sb, bad):
            return None
        f = self.f
        redo = lambda b: False
        if self.redo:
            ok = within(f, good, self.origin)
            redo = lambda b: b not in ok and self.redo(f.call_at(b), self.c)
        # where the result itself is consumed, it is followed further from there
        used = {b for l in self.seen for (b, i, k, p, pl) in uses(f).get(l, ()) if len(pl) == 1 and k in ("use", "call", "agg") and l != 0}
        return ends_well(f, bad, self.barrier, self.origin, redo, used, {l for l in self.seen if l})

    def follow(self, l):
        if l in self.seen or l == 0:
            return []
        f = self.f
        self.seen.add(l)
        us = uses(f).get(l, ())
        if not us:
            return [("unused", self.origin)]
        out = []
        for (b, i, k, p, pl) in us:
            if k == "use":
                if len(pl) == 1 and len(p[0]) == 1:
                    out += self.follow(p[0][0])
            elif k == "ref":
                if len(pl) == 1 and len(p[0]) == 1:
                    out += self.refs(p[0][0])
            elif k == "call":
                c, n = p
                nm = c.decl.rsplit("::", 1)[1]
                if n == 0 and nm in KEEP and len(c.dest) == 1 and result(f.lty(c.dest[0])):
                    out += self.follow(c.dest[0])
                elif n == 0 and nm in LOSE and "Result" in c.decl and len(c.dest) == 1:
                    if nm == "ok":
                        again = [u for u in uses(f).get(c.dest[0], ())]
                        if again and all(u[2] == "call" and u[3][0].decl.rsplit("::", 1)[1] in ("ok_or", "ok_or_else") for u in again):
                            for u in again:
                                out += self.follow(u[3][0].dest[0])
                            continue
                    if nm in ("unwrap_or", "is_ok") and f.lty(0) == "bool" and (nm == "is_ok" or c.args[1][0] == "k" and c.args[1][1].get("v") is False) and self.answer(c.dest[0]):
                        continue  # the answer is no
                    out.append((nm, b))
        for (b, i, k, p, pl) in us:
            if k == "discr" and len(pl) == 1:
                if not self.kept(l):
                    out += self.discr(p[0][0], p[1][3])
        return out

    def answer(self, l, d=0):
        """does the value go straight to what the function returns?"""
        us = uses(self.f).get(l, ())
        return l == 0 or d < 6 and any(k == "use" and len(p[0]) == 1 and self.answer(p[0][0], d + 1) for (b, i, k, p, pl) in us)

    def kept(self, l):
        """is the error put aside (in a variable, a list, a channel) for later?"""
        f = self.f
        todo, seen = [], set()
        for (b, i, k, p, pl) in uses(f).get(l, ()):
            if k == "use" and len(pl) > 1 and "Err" in "".join(map(str, pl[1:])) and len(p[0]) == 1:
                todo.append(p[0][0])
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            if x != 0 and len(f.defs().get(x, ())) > 1 and len(uses(f).get(x, ())) and f.lty(x).startswith("core::option::Option"):
                return True
            for (b, i, k, p, pl) in uses(f).get(x, ()):
                if k == "use" and len(pl) == 1 and len(p[0]) == 1:
                    todo.append(p[0][0])
                elif k == "agg" and isinstance(p[1][1], dict) and p[1][1].get("v") in ("Some", "Err") and len(p[0]) == 1:
                    if p[1][1]["v"] == "Err" and p[0][0] == 0:
                        continue
                    todo.append(p[0][0])
                elif k == "call":
                    c, n = p
                    nm = c.decl.rsplit("::", 1)[1]
                    if nm in ("push", "send", "unbounded_send", "push_back", "insert", "replace"):
                        return True
                    if nm in KEEP and len(c.dest) == 1:
                        todo.append(c.dest[0])
        return False

    def refs(self, l):
        f, out = self.f, []
        for (b, i, k, p, pl) in uses(f).get(l, ()):
            if k == "call":
                c, n = p
                nm = c.decl.rsplit("::", 1)[1]
                if n == 0 and "Result" in c.decl and nm in ("is_ok", "is_err") and len(c.dest) == 1:
                    if c.dest == [0] and nm == "is_ok":
                        continue
                    out += self.tested(c.dest[0], nm == "is_err", nm, b)
                elif n == 0 and nm in ("as_ref", "as_mut") and len(c.dest) == 1:
                    out += self.follow(c.dest[0])
            elif k == "use" and len(pl) == 1 and len(p[0]) == 1:
                out += self.refs(p[0][0])
            elif k == "discr" and pl[1:] == ["*"] and "Err" in p[1][3].values() and len(p[0]) == 1:
                out += self.discr(p[0][0], p[1][3])
        return out

    def tested(self, l, neg, nm, b):
        """a bool that tells whether the operation failed (neg) or worked"""
        f, out = self.f, []
        for (b2, i, k, p, pl) in uses(f).get(l, ()):
            if k == "switch":
                zero = [x[1] for x in p[2] if x[0] == 0]
                one = [x[1] for x in p[2] if x[0] != 0] + [p[3]]
                bad, good = (one, zero) if neg else (zero, one)
                for e in bad:
                    if e not in good and self.split(b2, e, good) is not None:
                        out.append((nm, b2))
            elif k == "use" and len(p[0]) == 1 and p[0][0] != 0:
                out += self.tested(p[0][0], neg, nm, b2)
            elif k == "other" and p[1][0] == "un" and len(p[0]) == 1:
                out += self.tested(p[0][0], not neg, nm, b2)
            else:
                out.append((nm, b2))
        return out or ([] if uses(f).get(l) else [(nm, b)])
