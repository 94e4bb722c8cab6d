"""Program model over the facts written by the driver (see driver/main.rs)."""
import json, os, re, sys
from collections import defaultdict

CRATES = ["oro_common", "oro_package_spec", "oro_shim_bin", "oro_config", "oro_pretty_json",
          "oro_script", "oro_client", "nassun", "oro_npm_account", "node_maintainer", "orogene", "oro.bin"]
WS = set(c for c in CRATES if '.' not in c) | {"oro"}


def strip_generics(s):
    """`core::option::Option::<T>::map` -> `core::option::Option::map`; `<A as B>::c` is kept."""
    out = []
    i = 0
    n = len(s)
    while i < n:
        if s.startswith("::<", i):
            d = 0
            j = i + 2
            while j < n:
                if s[j] == '<':
                    d += 1
                elif s[j] == '>' and s[j - 1] != '-':
                    d -= 1
                    if d == 0:
                        break
                j += 1
            i = j + 1
            continue
        out.append(s[i])
        i += 1
    return ''.join(out)


def ty_base(t):
    """Head constructor of a type string, references stripped."""
    t = t.strip()
    while True:
        m = re.match(r"^(&('\S+ )?(mut )?|\*const |\*mut )", t)
        if m and m.end():
            t = t[m.end():].strip()
        else:
            break
    m = re.match(r"[^<\[\({ ]+", t)
    return m.group(0) if m else t


class Fn:
    __slots__ = ("id", "name", "sname", "kind", "parent", "file", "line", "eline", "exp", "cor", "pub", "reach", "self_ty",
                 "trait", "targs", "derived", "timpl", "intrait", "argc", "locals", "vars", "bbs", "crate", "tys",
                 "_succ", "_pred", "_defs", "_calls", "_dom", "prog", "children", "varname", "upvars", "_rpo", "cache")

    def __repr__(self):
        return "<%s>" % self.name

    @property
    def where(self):
        return "%s:%s" % (self.file, self.line)

    def lty(self, l):
        return self.tys[self.locals[l]]

    # --- CFG -------------------------------------------------------------
    def succ(self, b):
        if self._succ is None:
            self._succ = []
            for bb in self.bbs:
                t = bb["t"]
                k = t[0]
                if k == "goto":
                    s = [t[1]]
                elif k == "switch":
                    s = [x[1] for x in t[2]] + [t[3]]
                elif k == "drop":
                    s = [t[2]]
                elif k == "call":
                    s = [t[4]] if t[4] >= 0 else []
                elif k == "assert":
                    s = [t[4]]
                elif k == "yield":
                    s = [t[2]]
                else:
                    s = []
                self._succ.append(s)
        return self._succ[b]

    def preds(self):
        if self._pred is None:
            p = [[] for _ in self.bbs]
            for b in self.rpo():
                for s in self.succ(b):
                    p[s].append(b)
            self._pred = p
        return self._pred

    def rpo(self):
        if self._rpo is None:
            seen = set()
            order = []
            st = [(0, iter(self.succ(0)))]
            seen.add(0)
            while st:
                b, it = st[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        st.append((s, iter(self.succ(s))))
                        break
                else:
                    order.append(b)
                    st.pop()
            self._rpo = order[::-1]
        return self._rpo

    def calls(self):
        """list of Call objects of this body (reachable, non-cleanup blocks)."""
        if self._calls is None:
            self._calls = []
            for b in self.rpo():
                t = self.bbs[b]["t"]
                if t[0] == "call":
                    self._calls.append(Call(self, b))
        return self._calls

    def call_at(self, b):
        for c in self.calls():
            if c.bb == b:
                return c
        return None

    def defs(self):
        """local -> list of (bb, idx, place, rvalue | Call); idx = -1 for call destinations"""
        if self._defs is None:
            d = defaultdict(list)
            for b in self.rpo():
                for i, s in enumerate(self.bbs[b]["s"]):
                    d[s[0][0]].append((b, i, s[0], s[1]))
                t = self.bbs[b]["t"]
                if t[0] == "call":
                    c = self.call_at(b)
                    d[t[3][0]].append((b, -1, t[3], c))
                elif t[0] == "yield":
                    d[t[3][0]].append((b, -1, t[3], ["resume"]))
            self._defs = d
        return self._defs

    def line_of(self, b, i=None):
        x = self.bbs[b]["l"] if i is None or i < 0 else self.bbs[b]["s"][i][2]
        return x if isinstance(x, int) else x[0]

    def mac_of(self, b, i=None):
        x = self.bbs[b]["l"] if i is None or i < 0 else self.bbs[b]["s"][i][2]
        return None if isinstance(x, int) else x[1]


class Call:
    __slots__ = ("fn", "bb", "f", "args", "dest", "target", "decl", "res", "rid", "virt", "ind", "did", "cache")

    def __init__(self, fn, b):
        t = fn.bbs[b]["t"]
        self.fn = fn
        self.bb = b
        self.f = t[1]
        self.args = t[2]
        self.dest = t[3]
        self.target = t[4]
        self.ind = self.f.get("ind")
        self.decl = strip_generics(self.f.get("d", "<indirect>"))
        self.res = strip_generics(self.f.get("r", self.f.get("d", "<indirect>")))
        self.did = self.f.get("di")
        self.rid = self.f.get("ri", self.f.get("di"))
        self.virt = self.f.get("k")
        self.cache = None

    def gen(self, i):
        g = self.f.get("g", [])
        return self.fn.tys[g[i]] if i < len(g) else ""

    @property
    def gens(self):
        return [self.fn.tys[i] for i in self.f.get("g", [])]

    @property
    def line(self):
        return self.fn.line_of(self.bb)

    @property
    def mac(self):
        return self.fn.mac_of(self.bb)

    @property
    def where(self):
        return "%s:%s" % (self.fn.file, self.line)

    def is_(self, *names):
        return self.decl in names or self.res in names

    def __repr__(self):
        return "<call %s @%s>" % (self.res, self.where)


class Prog:
    def __init__(self, d, repo="/repo"):
        self.fns = {}
        self.adts = {}
        self.impls = []
        self.byname = defaultdict(list)
        self.crates = []
        for c in CRATES:
            p = os.path.join(d, c + ".jsonl")
            recs = [json.loads(l) for l in open(p)]
            end = recs[-1]
            assert end["T"] == "end", c
            tys = recs[-2]["tys"]
            n = 0
            for r in recs[:-2]:
                if r["T"] == "fn":
                    n += 1
                    f = Fn()
                    f.id = r["id"]; f.name = r["name"]; f.sname = strip_generics(r["name"]); f.kind = r["kind"]
                    f.parent = r["parent"]; f.file = os.path.relpath(r["file"], repo) if r["file"].startswith("/") else r["file"]
                    f.line = r["line"]; f.eline = r["eline"]; f.exp = r["exp"]; f.cor = r.get("cor")
                    f.pub = r.get("pub"); f.reach = r.get("reach")
                    f.self_ty = tys[r["self"]] if "self" in r else None
                    f.trait = r.get("trait"); f.targs = [tys[i] for i in r.get("targs", [])]; f.derived = r.get("derived", False)
                    f.timpl = r.get("timpl"); f.intrait = r.get("intrait")
                    f.argc = r["argc"]; f.locals = r["locals"]; f.vars = r["vars"]; f.bbs = r["bbs"]; f.crate = c; f.tys = tys
                    f._succ = f._pred = f._defs = f._calls = f._dom = f._rpo = None
                    f.prog = self; f.children = []
                    f.cache = {}
                    f.varname = {}
                    f.upvars = {}
                    for nm, pl in f.vars:
                        if len(pl) == 1:
                            f.varname.setdefault(pl[0], nm)
                        elif pl[0] == 1 and f.kind == "Closure" or f.cor:
                            fl = [x for x in pl[1:] if x.startswith(".")]
                            if fl:
                                f.upvars[fl[0][1:]] = nm
                    self.fns[f.id] = f
                    self.byname[f.sname].append(f)
                elif r["T"] == "adt":
                    r["crate"] = c
                    for v in r["vs"]:
                        v["f"] = [{"n": x[0], "t": tys[x[1]], "a": x[2], "pub": x[3]} for x in v["f"]]
                    self.adts[r["name"]] = r
                elif r["T"] == "impl":
                    r["self"] = tys[r["self"]]
                    r["crate"] = c
                    self.impls.append(r)
            assert n == end["bodies"], c
            self.crates.append((c, n))
        for f in self.fns.values():
            p = self.fns.get(f.parent)
            if p is not None:
                p.children.append(f)
        # trait method uid -> implementing workspace fns
        self.timpls = defaultdict(list)
        for f in self.fns.values():
            if f.timpl:
                self.timpls[f.timpl].append(f)
        # closure creation sites
        self.creators = defaultdict(list)
        for f in self.fns.values():
            for b in f.rpo():
                for i, s in enumerate(f.bbs[b]["s"]):
                    if s[1][0] == "agg" and isinstance(s[1][1], dict) and "clo" in s[1][1]:
                        self.creators[s[1][1]["clo"]].append((f, b, i, s))

    def named(self, name):
        return self.byname.get(name, [])

    def find(self, rx):
        r = re.compile(rx)
        return [f for f in self.fns.values() if r.search(f.sname)]

    def root_of(self, f):
        """outermost enclosing fn of a closure/coroutine"""
        while f.parent in self.fns and f.kind == "Closure":
            f = self.fns[f.parent]
        return f


def place_s(f, p):
    n = f.varname.get(p[0])
    s = "_%d%s" % (p[0], ("{%s}" % n) if n else "")
    for e in p[1:]:
        s = "(*%s)" % s if e == "*" else s + e
    return s


def op_s(f, o):
    if o[0] in "cm":
        return ("move " if o[0] == "m" else "") + place_s(f, o[1])
    k = o[1]
    if "fn" in k:
        return "fn:" + k["fn"].get("r", k["fn"]["d"])
    if "v" in k:
        return json.dumps(k["v"])
    if "clo" in k:
        return "clo:" + k["clo"]
    return "const<%s>%s" % (f.tys[k["t"]], k.get("def", ""))


def rv_s(f, r):
    k = r[0]
    if k == "use":
        return op_s(f, r[1])
    if k == "ref":
        return "&%s %s" % (r[1], place_s(f, r[2]))
    if k == "agg":
        h = r[1]
        if isinstance(h, dict):
            h = h.get("clo") or (h["adt"] + "::" + h["v"])
        return "%s{%s}" % (h, ", ".join(op_s(f, o) for o in r[2]))
    if k == "discr":
        return "discr(%s) %s" % (place_s(f, r[1]), r[3])
    if k == "bin":
        return "%s(%s, %s)" % (r[1], op_s(f, r[2]), op_s(f, r[3]))
    if k == "un":
        return "%s(%s)" % (r[1], op_s(f, r[2]))
    if k == "cast":
        return "%s as %s" % (op_s(f, r[2]), f.tys[r[3]])
    return str(r)


def dump(f, out=sys.stdout):
    w = out.write
    w("fn %s [%s] %s-%s argc=%d kind=%s cor=%s parent=%s\n" % (f.name, f.id, f.where, f.eline, f.argc, f.kind, f.cor, f.parent))
    for nm, pl in f.vars:
        w("  let %s = %s : %s\n" % (nm, place_s(f, pl), f.lty(pl[0])[:120]))
    for b in f.rpo():
        bb = f.bbs[b]
        w(" bb%d:\n" % b)
        for s in bb["s"]:
            w("    %s = %s   // %s\n" % (place_s(f, s[0]), rv_s(f, s[1]), s[2]))
        t = bb["t"]
        k = t[0]
        if k == "call":
            c = Call(f, b)
            w("    %s = CALL %s%s(%s) -> %s   // %s %s\n" % (place_s(f, t[3]), c.res if not c.ind else "ind " + op_s(f, c.ind), "" if c.res == c.decl else " {%s}" % c.decl, ", ".join(op_s(f, a) for a in t[2]), t[4], bb["l"], c.virt or ""))
        elif k == "switch":
            w("    switch %s %s else %s  // %s\n" % (op_s(f, t[1]), t[2], t[3], bb["l"]))
        elif k == "drop":
            w("    drop %s -> %s\n" % (place_s(f, t[1]), t[2]))
        else:
            w("    %s\n" % t)


if __name__ == "__main__":
    P = Prog(os.environ.get("FACTS", "/tmp/facts"))
    for f in P.find(sys.argv[1]):
        dump(f)
