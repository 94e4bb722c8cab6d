"""Nothing that runs concurrently waits for something that can only come after it: locks held while
waiting, threads blocked for futures, pipes nobody reads, counts of work that never come down, limits of none."""
import re
from .. import sym, cg
from ..must import MustRule, Engine, callees
from ..model import Call
from ..fwd import writes
from .p29 import peel, alts

GUARD = re.compile(r"(async_lock|futures_util::lock|futures_locks|tokio::sync|dashmap::mapref|std::sync|parking_lot|lock_api)[\w:]*::(MutexGuard|MutexGuardArc|OwnedMutexGuard|MappedMutexGuard|Ref|RefMut|RefMulti|RefMutMulti|"
                   r"RwLockReadGuard|RwLockWriteGuard|RwLockUpgradableReadGuard|Entry|OccupiedEntry|VacantEntry)<(.*)$")
WRAP = ("core::option::Option<", "core::result::Result<", "(")
BLOCKS = re.compile(r"^(std::sync::[\w:]*(Mutex::lock|RwLock::(read|write))|parking_lot[\w:]*::(lock|read|write)|dashmap::(DashMap|set::DashSet)::(get|get_mut|insert|entry|remove|remove_if|contains_key|contains|retain|clear|len|iter|iter_mut|alter|view))$")
LOCKS = re.compile(r"^(async_lock|futures_util::lock|tokio::sync)[\w:]*::(Mutex|RwLock)::(lock|read|write|try_lock|try_read|try_write|lock_arc|lock_owned)$")
WAITS = re.compile(r"(::block_on$|^std::sync::mpsc::(Receiver::recv|SyncSender::send)|^std::thread::JoinHandle::join$|^std::sync::(poison::)?(condvar::)?Condvar::wait|^std::sync::(barrier::)?Barrier::wait|^futures_executor::[\w:]*block_on)")


def guard(t):
    """what a value of this type holds locked: (kind, protected type) or None"""
    for w in WRAP:
        if t.startswith(w):
            t = t[len(w):]
    if t.startswith(("&", "*")):
        return None
    m = GUARD.match(t)
    if not m:
        return None
    body = re.sub(r"^'\S+ ", "", m.group(3))
    depth, out = 0, []
    for ch in body:
        if ch == "<":
            depth += 1
        elif ch == ">":
            if depth == 0:
                break
            depth -= 1
        out.append(ch)
    return ("wait" if m.group(1) in ("async_lock", "futures_util::lock", "tokio::sync") else "block"), "".join(out)


def moved(op):
    return op[1][0] if op[0] == "m" else None


def operands(rv):
    if rv[0] == "use":
        return [rv[1]]
    if rv[0] == "agg":
        return rv[2]
    if rv[0] == "cast":
        return [rv[2]]
    return []


def flow(f):
    """(block -> locals that may hold a lock when it is entered, block -> ... at its end)"""
    gl = {l: guard(f.lty(l)) for l in range(len(f.locals))}
    gl = {l: g for l, g in gl.items() if g}
    if not gl:
        return gl, {}, {}
    start, end = {0: frozenset()}, {}
    work = [0]
    while work:
        b = work.pop()
        h = set(start[b])
        disc = {}
        for s in f.bbs[b]["s"]:
            rv = s[1]
            src = [moved(o) for o in operands(rv)]
            had = any(x in h for x in src)
            if rv[0] == "discr":
                disc[s[0][0]] = (rv[1][0], rv[3]) if len(rv[1]) == 1 else None
            for x in src:
                h.discard(x)
            if s[0][0] in gl and len(s[0]) == 1:
                none = rv[0] == "agg" and isinstance(rv[1], dict) and rv[1].get("v") in ("None",)
                if had or (rv[0] in ("use", "agg") and not none and not src_known(src, gl)):
                    h.add(s[0][0])
                elif none:
                    h.discard(s[0][0])
        t = f.bbs[b]["t"]
        before = frozenset(h)
        end[b] = before
        outs = [(s, frozenset(h)) for s in f.succ(b)]
        if t[0] == "drop":
            d = t[1][0] if isinstance(t[1], list) else t[1]
            outs = [(s, frozenset(h - {d})) for s in f.succ(b)]
        elif t[0] == "call":
            c = f.call_at(b)
            k = set(h)
            for a in c.args:
                k.discard(moved(a))
            if c.dest[0] in gl and len(c.dest) == 1:
                k.add(c.dest[0])
            outs = [(s, frozenset(k)) for s in f.succ(b)]
        elif t[0] == "switch" and t[1][0] in ("m", "c") and disc.get(t[1][1][0]):
            l, names = disc[t[1][1][0]]
            if l in h:
                outs = []
                seen = set()
                for v, s in t[2]:
                    seen.add(str(v))
                    outs.append((s, frozenset(h - {l}) if names.get(str(v)) in ("None", "Err", "Pending") else frozenset(h)))
                rest = {n for v, n in names.items() if v not in seen}
                outs.append((t[3], frozenset(h - {l}) if rest and rest <= {"None", "Err", "Pending"} else frozenset(h)))
        for s, x in outs:
            if s not in start or not x <= start[s]:
                start[s] = start.get(s, frozenset()) | x
                work.append(s)
    return gl, start, end


def src_known(src, gl):
    return any(x in gl for x in src)


def inner(ty):
    """T of a Mutex<T>, RwLock<T>, DashMap<K, V> type"""
    m = re.search(r"(?:Mutex|RwLock|DashMap|DashSet)<(.*)>[^>]*$", ty)
    return m.group(1) if m else ty


def takes(c):
    """the protected type of the lock a call acquires"""
    n = c.decl
    if BLOCKS.match(n) or LOCKS.match(n):
        a = c.args[0] if c.args else None
        if a is not None and a[0] in ("m", "c"):
            return inner(c.fn.lty(a[1][0]))
        return "?"
    return None


def same(a, b):
    cut = lambda x: re.sub(r"'\w+ ?|\s", "", x)
    a, b = cut(a), cut(b)
    return a == b or a.startswith(b) or b.startswith(a)


def polled(f, y):
    """type of the future awaited at a yield"""
    seen, st = set(), [y]
    preds = f.preds()
    while st:
        b = st.pop()
        for p in preds[b]:
            if p in seen:
                continue
            seen.add(p)
            c = f.call_at(p) if f.bbs[p]["t"][0] == "call" else None
            if c and c.decl.endswith("Future::poll"):
                return f.lty(c.args[0][1][0])
            if f.bbs[p]["t"][0] in ("goto", "switch", "drop"):
                st.append(p)
    return ""


def held(ctx):
    P = ctx.P
    for f in P.fns.values():
        gl, start, end = flow(f)
        if not gl:
            continue
        fam = None
        bad = {}
        for b in start:
            t = f.bbs[b]["t"]
            if t[0] == "yield":
                for l in end[b]:
                    kind, what = gl[l]
                    ty = polled(f, b)
                    if kind == "block":
                        bad[(l, b)] = "a lock other threads block for is held while waiting"
                        continue
                    if re.search(r"MutexLockFuture|async_lock::\w+::Lock|futures::\w*Lock|lock::mutex", ty) and same(what, inner_lock(ty)):
                        bad[(l, b)] = "the lock is waited for while it is held"
                        continue
                    if fam is None:
                        fam = [g for g in cg.reach(P, [f]) if g != f.id]
                    for g in fam:
                        for c in P.fns[g].calls():
                            w = takes(c)
                            if w and same(w, what):
                                bad[(l, b)] = "held while waiting for something that takes it at %s" % c.where
            elif t[0] == "call":
                c = f.call_at(b)
                for l in end[b]:
                    kind, what = gl[l]
                    if kind != "block":
                        continue
                    w = takes(c)
                    hit = bool(w and BLOCKS.match(c.decl) and (same(w, what) or shared(w, what)))
                    if not hit:
                        for g in callees(P, c):
                            for h in cg.reach(P, [g]):
                                for d in P.fns[h].calls():
                                    w = takes(d)
                                    if w and BLOCKS.match(d.decl) and (same(w, what) or shared(w, what)):
                                        hit = True
                    if hit:
                        bad[(l, b)] = "a lock is taken again while it is held"
        for l, (kind, what) in sorted(gl.items()):
            ways = [(b, w) for (x, b), w in bad.items() if x == l]
            nm = f.varname.get(l, "temporary") if hasattr(f, "varname") else "temporary"
            where = f.where if not ways else place(f, ways[0][0])
            ctx.ob("held", "%s|%s|%s" % (f.sname, nm, what[:60]), not ways, where, ways[0][1] if ways else "released before every wait, and no lock of its kind is taken while it is held")


def shared(w, what):
    """DashMap<K, V>'s guards name the same K, V"""
    cut = lambda x: [re.sub(r"\s|'\w+", "", y) for y in x.split(",")[:2]]
    return cut(w) == cut(what)


def inner_lock(ty):
    m = re.search(r"(?:MutexLockFuture|Lock|Read|Write)<(?:'\w+, )?(.*)$", ty)
    return m.group(1).rstrip(">") if m else "?"


def place(f, b):
    x = f.bbs[b]
    line = None
    for s in x["s"]:
        line = s[2][0] if isinstance(s[2], list) else s[2]
    return "%s:%s" % (f.file, line or f.line)


def blocking(ctx):
    """code of a future never blocks its thread for another future"""
    P = ctx.P
    cors = [f for f in P.fns.values() if f.cor and "Async" in str(f.cor)]
    pred = {}
    st = []
    for f in cors:
        pred[f.id] = None
        st.append(f)
    while st:
        f = st.pop()
        for c in f.calls():
            for g in callees(P, c):
                if g.id not in pred:
                    pred[g.id] = f
                    st.append(g)
    hits = []
    for i in pred:
        for c in P.fns[i].calls():
            if WAITS.search(c.decl):
                hits.append(c)
    for c in hits:
        ctx.ob("blocking", "%s|%s" % (c.fn.sname, c.decl), False, c.where, "code of a future blocks the thread it shares with what it waits for: %s" % c.decl)
    ctx.ob("blocking", "futures", not hits, cors[0].where if cors else "", "%d futures and %d functions they run looked at" % (len(cors), len(pred)))


OUT = re.compile(r"std::process::ChildStd(out|err)\b")


class Eof(MustRule):
    """Ok only when the stream has ended"""

    def __init__(self, P, f, own):
        self.P, self.own = P, own
        self.ok = []

    def enter(self, f):
        return True

    def _stream(self, c):
        a = c.args[0] if c.args else None
        return a is not None and a[0] in ("m", "c")

    def gen(self, c, st, eng):
        if c.decl == "core::iter::traits::iterator::Iterator::next" and self._stream(c):
            return frozenset(), {((), "None"): frozenset([("eof",)])}
        n = c.decl.rsplit("::", 1)[-1]
        if n in ("read_to_end", "read_to_string", "copy") and self._stream(c):
            return frozenset(), {((), "Ok"): frozenset([("eof",)])}
        if n in ("for_each", "try_for_each", "count", "last", "fold", "try_fold", "collect") and "Iterator" in c.decl:
            return frozenset([("eof",)]), {}
        return frozenset(), {}

    def sym_fact(self, f, s, val):
        if val == "None" and (s[0] in ("upvar", "arg") or s[0] == "fld" and s[2] in ("stdout", "stderr") or s[0] == "call" and s[1].endswith("Option::take")):
            return [("eof",)]
        t = sym.int_test(s, val)
        if t and t[1] == "zero" and any(x[0] == "call" and x[1].endswith(("::read", "::read_until", "::read_line")) for x in sym.walk(t[0])):
            return [("eof",)]
        return []

    def exit(self, f, st, ch, eng):
        if f.id == self.own.id:
            x = st.look(0, (), "Ok") if "Result" in f.lty(0) else st.facts
            from ..must import UN
            if x is not UN:
                self.ok.append(("eof",) in x)


def waits_child(P, f, memo={}):
    """does f (or what it runs) wait for a child process to end?"""
    for g in cg.reach(P, [f]):
        for c in P.fns[g].calls():
            if c.decl.endswith(("process::Child::wait",)):
                return True
    return False


def pipes(ctx):
    P = ctx.P
    for f in P.fns.values():
        take, kinds = [], {}
        for b in f.rpo():
            for i, s in enumerate(f.bbs[b]["s"]):
                rv = s[1]
                if rv[0] == "agg" and isinstance(rv[1], dict) and "clo" in rv[1]:
                    caps = set()
                    for o in rv[2]:
                        if o[0] == "m":
                            m = OUT.search(f.lty(o[1][0]))
                            if m and not f.lty(o[1][0]).startswith("&"):
                                caps.add(m.group(1))
                    g = P.fns.get(rv[1]["clo"])
                    if caps:
                        take.append((b, i, caps, g, True))
            t = f.bbs[b]["t"]
            if t[0] == "call":
                c = f.call_at(b)
                caps = set()
                for a in c.args:
                    if a[0] == "m":
                        m = OUT.search(f.lty(a[1][0]))
                        if m and not f.lty(a[1][0]).startswith("&") and not OUT.search(f.lty(c.dest[0])) and any(True for _ in callees(P, c)):
                            caps.add(m.group(1))
                if caps:
                    g = next(iter(callees(P, c)))
                    late = g.cor is not None or "oroutine" in f.lty(c.dest[0]) or "JoinHandle" in f.lty(c.dest[0]) or "async" in f.lty(c.dest[0])
                    take.append((b, 10 ** 6, caps, g, late))
        if not take:
            continue
        have = set().union(*[x[2] for x in take])
        if have != {"out", "err"}:
            continue
        bad = None
        for b, i, caps, g, late in take:
            if len(caps) == 2:
                bad = (b, "both outputs are read one after the other")
            if not late:
                bad = (b, "an output is read to its end here, before the other is")
        # no waiting between the first of them and the last
        for b, i, caps, g, late in take:
            missing = [x for x in take if x[2] - caps]
            seen, st = set(), list(f.succ(b))
            stop = {x[0] for x in missing}
            if any(x[0] == b and x[1] > i for x in missing):
                continue
            while st:
                x = st.pop()
                if x in seen:
                    continue
                seen.add(x)
                if x in stop:
                    continue
                if f.bbs[x]["t"][0] == "yield":
                    # is another one still to come on this way?
                    if reaches(f, x, stop):
                        bad = (x, "one output is waited for before the other is read")
                        continue
                st.extend(f.succ(x))
        # nobody waits for the child before both are being read
        for b in f.rpo():
            for i, s in enumerate(f.bbs[b]["s"]):
                rv = s[1]
                if rv[0] == "agg" and isinstance(rv[1], dict) and "clo" in rv[1]:
                    g = P.fns.get(rv[1]["clo"])
                    if g is None or any(x[3] is g for x in take) or not waits_child(P, g) or g.cor:
                        continue
                    for y in ahead(f, b, {x[0] for x in take}):
                        if f.bbs[y]["t"][0] == "yield" and reaches(f, y, {x[0] for x in take}):
                            bad = (y, "the process is waited for before its output is read")
            c = f.call_at(b) if f.bbs[b]["t"][0] == "call" else None
            if c is not None and (c.decl.endswith("process::Child::wait") or any(waits_child(P, g) and not g.cor and "Future" not in f.lty(c.dest[0]) for g in callees(P, c))):
                if reaches(f, b, {x[0] for x in take}):
                    bad = (b, "the process is waited for before its output is read")
        ctx.ob("pipes", f.sname, not bad, place(f, bad[0]) if bad else f.where, bad[1] if bad else "both outputs are being read whenever the process is waited for")
        for b, i, caps, g, late in take:
            if g is None:
                continue
            r = Eof(P, g, g)
            Engine(P, r).visit(g, frozenset(), {}, [])
            bodies = [g]
            ctx.ob("pipes", "%s|std%s" % (f.sname, "+".join(sorted(caps))), bool(r.ok) and all(r.ok), g.where, "read to its end")


def ahead(f, b, stop):
    seen, st = set(), list(f.succ(b))
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        if x in stop:
            continue
        st.extend(f.succ(x))


def reaches(f, b, goal):
    """can a block of goal be reached from b, without going round a loop back through b's own predecessors?"""
    seen, st = {b}, list(f.succ(b))
    while st:
        x = st.pop()
        if x in goal:
            return True
        if x in seen:
            continue
        seen.add(x)
        st.extend(f.succ(x))
    return False


def count(ctx):
    """a counter of what is under way goes up by one for each thing sent off, and down by all that is taken off the list"""
    P = ctx.P
    for f in P.fns.values():
        adds, subs, zero = {}, {}, set()
        for l, ds in f.defs().items():
            for b, i, pl, rv in ds:
                if len(pl) == 1 and not isinstance(rv, Call) and rv[0] == "use" and rv[1][0] == "k" and rv[1][1].get("v") == 0:
                    zero.add(l)
        for b in f.rpo():
            for i, s in enumerate(f.bbs[b]["s"]):
                rv = s[1]
                if rv[0] == "bin" and rv[1].startswith(("Add", "Sub")) and rv[2][0] in ("c", "m") and rv[2][1][0] in zero and len(rv[2][1]) == 1:
                    (adds if rv[1].startswith("Add") else subs).setdefault(rv[2][1][0], []).append((b, i, rv[3]))
        sends = [c for c in f.calls() if c.decl.endswith(("::unbounded_send", "::start_send", "::try_send"))]
        for l in sorted(set(adds) & set(subs)):
            if not sends or not f.cor:
                continue
            nm = f.varname.get(l, "_%d" % l)
            bad = updown(f, [x for x in adds[l]], {c.bb for c in sends})
            odd = [x for x in adds[l] if not (x[2][0] == "k" and x[2][1].get("v") == 1)]
            ctx.ob("count", "%s|%s up" % (f.sname, nm), not bad and not odd, place(f, bad[0] if bad else odd[0][0] if odd else 0) if bad or odd else f.where,
                   "counted once for each thing sent off" if not bad else "sent off without being counted, or counted without being sent off")
            rem = [c for c in f.calls() if re.search(r"::(remove|shift_remove|swap_remove|remove_entry|swap_remove_entry|shift_remove_entry|take)$", c.decl) and re.search(r"(Index|Hash|BTree|Dash)Map", c.decl) and "Vec" in f.lty(c.dest[0])]
            for c in rem:
                ok, at = taken(P, f, l, c, subs[l])
                ctx.ob("count", "%s|%s down" % (f.sname, nm), ok, c.where if at is None else place(f, at), "counted down by all that were waiting, whenever something comes off the list")


def updown(f, adds, sends):
    """typestate: 0 = even, 1 = counted and not yet sent, -1 = sent and not yet counted"""
    where = {b for b, _, _ in adds}
    st0 = {0: {0}}
    work = [0]
    bad = None
    while work:
        b = work.pop()
        s = set(st0[b])
        if b in where:
            if 1 in s:
                bad = bad or (b,)
            s = {min(x + 1, 1) for x in s}
        if f.bbs[b]["t"][0] == "yield" and s - {0}:
            bad = bad or (b,)
            s = {0}
        out = s
        if b in sends:
            if -1 in s:
                bad = bad or (b,)
            out = {max(x - 1, -1) for x in s}
        for x in f.succ(b):
            if not out <= st0.get(x, set()):
                st0[x] = st0.get(x, set()) | out
                work.append(x)
    return bad


def taken(P, f, l, c, subs):
    """after c took a list, is the counter reduced by its length before the next round?"""
    good = set()
    for b, i, o in subs:
        t = sym.sym_op(f, o)
        t = peel(P, t)
        if t[0] == "call" and t[1].endswith("::len") and of(P, t[2][0], c):
            good.add(b)
        elif o[0] == "k" and o[1].get("v") == 1:
            good |= loops(f, b, c)
    if not good:
        return False, (subs[0][0] if subs else None)
    # from the Some edge of c's answer
    st, seen = [], set()
    for b in f.rpo():
        t = f.bbs[b]["t"]
        if t[0] == "switch" and t[1][0] in ("m", "c"):
            for s in f.bbs[b]["s"]:
                if s[1][0] == "discr" and s[0][0] == t[1][1][0] and s[1][1][0] in holders(f, c.dest[0]):
                    some = [x for v, x in t[2] if s[1][3].get(str(v)) == "Some"]
                    if not some and len(t[2]) == 1 and s[1][3].get(str(t[2][0][0])) == "None":
                        some = [t[3]]
                    st += some
    if not st:
        return False, c.bb
    while st:
        b = st.pop()
        if b in seen:
            continue
        seen.add(b)
        if b in good:
            continue
        if b == c.bb:
            return False, c.bb
        if f.bbs[b]["t"][0] == "ret":
            continue
        # the loop that asks whether anything is left
        for s in f.bbs[b]["s"]:
            rv = s[1]
            if rv[0] == "bin" and rv[1] in ("Eq", "Ne", "Gt", "Lt", "Ge", "Le") and any(o[0] in ("c", "m") and l in origin(f, o[1][0]) for o in (rv[2], rv[3])):
                return False, b
        st.extend(f.succ(b))
    return True, None


def origin(f, l):
    out = {l}
    for b, i, pl, rv in f.defs().get(l, ()):
        if not isinstance(rv, Call) and rv[0] == "use" and rv[1][0] in ("c", "m"):
            out.add(rv[1][1][0])
    return out


def holders(f, l):
    """locals the value is moved on to"""
    out = {l}
    more = True
    while more:
        more = False
        for x, ds in f.defs().items():
            if x in out:
                continue
            for b, i, pl, rv in ds:
                if len(pl) == 1 and not isinstance(rv, Call) and rv[0] == "use" and rv[1][0] in ("m", "c") and rv[1][1][0] in out:
                    out.add(x)
                    more = True
    return out


def of(P, t, c):
    s = sym.sym_call(c.fn, c)
    return any(x == s for x in sym.walk(t))


def loops(f, b, c):
    """the loops over what c took that run b for each element"""
    out = set()
    for d in f.calls():
        if d.decl == "core::iter::traits::iterator::Iterator::next" and of(f.prog, sym.sym_op(f, d.args[0]), c):
            if within(f, d.bb, b, {c.bb}) and within(f, b, d.bb, {c.bb}) and not within(f, d.bb, d.bb, {b, c.bb}):
                out.add(d.bb)
    return out


def within(f, a, b, cut):
    """is there a way from a to b that doesn't go through cut?"""
    seen, st = set(), list(f.succ(a))
    while st:
        x = st.pop()
        if x == b and x not in cut:
            return True
        if x in seen or x in cut:
            continue
        seen.add(x)
        st.extend(f.succ(x))
    return False


NOZERO = ("buffer_unordered", "buffered", "ready_chunks", "chunks", "try_buffer_unordered", "try_buffered", "try_ready_chunks", "try_chunks")


def nonzero(P, f, t, seen=()):
    """(is the value never zero?, why not)"""
    if str(t) in seen:
        return True, None
    seen = seen + (str(t),)
    while t[0] == "call" and len(t[2]) == 1 and t[1].endswith(("::clone", "::into", "::from")):
        t = t[2][0]
    if t[0] == "const":
        return (isinstance(t[1], int) and t[1] > 0), "zero"
    if t[0] == "call":
        n = t[1]
        if "NonZero" in n and n.endswith("::get"):
            return True, None
        if n.startswith("core::cmp") and n.endswith("::max"):
            rs = [nonzero(P, f, x, seen) for x in t[2]]
            return any(r[0] for r in rs), rs[0][1]
        if n.startswith("core::cmp") and n.endswith(("::min", "::clamp")):
            xs = t[2] if n.endswith("min") else t[2][1:2]
            rs = [nonzero(P, f, x, seen) for x in xs]
            return all(r[0] for r in rs), next((r[1] for r in rs if not r[0]), None)
    if t[0] == "fld":
        ws = [(g, x) for g, b, i, x in writes(P, t[1], t[2]) if not g.derived]
        if not ws:
            return False, "%s.%s is set nowhere" % (t[1], t[2])
        for g, x in ws:
            for y in alts(P, g, x):
                ok, why = nonzero(P, g, y, seen)
                if not ok:
                    return False, why
        return True, None
    if t[0] == "arg":
        g = P.fns.get(t[1])
        cs = cg.callers(P).get(t[1], ())
        if g is None or not cs or not any(c is not None for _, c in cs):
            return False, "whatever %s is given" % (g.sname if g else t[1])
        for h, c in cs:
            if c is None:
                return False, "whatever %s is given" % g.sname
            for y in alts(P, h, sym.sym_op(h, c.args[t[2] - 1])):
                ok, why = nonzero(P, h, y, seen)
                if not ok:
                    return False, why
        return True, None
    if t[0] == "multi":
        for y in sym.multi(P, t):
            if y == t:
                return False, "not known"
            ok, why = nonzero(P, f, y, seen)
            if not ok:
                return False, why
        return True, None
    return False, "a value that may be zero: %s" % (str(t)[:60])


def limits(ctx):
    P = ctx.P
    for f in P.fns.values():
        for c in f.calls():
            if c.decl.startswith("futures_util::stream") and c.decl.rsplit("::", 1)[1] in NOZERO and len(c.args) == 2:
                ok, why = True, None
                for y in alts(P, f, sym.sym_op(f, c.args[1])):
                    ok1, w1 = nonzero(P, f, y)
                    if not ok1:
                        ok, why = False, w1
                ctx.ob("limits", "%s|%s" % (f.sname, c.decl.rsplit("::", 1)[1]), ok, c.where, "never zero" if ok else "may be zero, and then nothing is ever started: %s" % why)


def check(ctx):
    ctx.rule("held", "no lock is held while waiting for anything that may take it, nor taken again while it is held; one that blocks threads is not held while waiting at all")
    ctx.rule("blocking", "code of a future doesn't block its thread for another future or thread")
    ctx.rule("pipes", "both outputs of a process are being read, each to its end, whenever it is waited for")
    ctx.rule("count", "what the resolver counts as under way goes up with each request sent off and down by all that its answer settles")
    ctx.rule("limits", "a limit on how much runs at once is never zero where zero would run nothing")
    held(ctx)
    blocking(ctx)
    pipes(ctx)
    count(ctx)
    limits(ctx)
    ctx.floor("held", 6)
    ctx.floor("blocking", 1)
    ctx.floor("pipes", 3)
    ctx.floor("limits", 2)
