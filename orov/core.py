"""Check framework: obligations, floors, known findings, evidence."""
import json, os, re, subprocess, sys, time, importlib, traceback

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("OROV_REPO", "/repo")


class Ctx:
    def __init__(self, pid, P):
        self.pid = pid
        self.P = P
        self.obs = []       # (rule, instance, ok, where, detail)
        self._seen = {}
        self.floors = []
        self.rules = {}
        self.notes = []
        self._G = None

    @property
    def G(self):
        if self._G is None:
            from .vfg import VFG
            if not hasattr(self.P, "_vfg"):
                self.P._vfg = VFG(self.P)
            self._G = self.P._vfg
        return self._G

    def rule(self, rid, text):
        self.rules[rid] = text

    def ob(self, rule, instance, ok, where="", detail=""):
        """one obligation; the key (rule, instance) carries no line numbers.
        The same key may be decided in several contexts: all must hold."""
        k = (rule, instance)
        if k in self._seen:
            i = self._seen[k]
            if not ok and self.obs[i][2]:
                self.obs[i] = (rule, instance, False, where, detail)
            return ok
        self._seen[k] = len(self.obs)
        self.obs.append((rule, instance, bool(ok), where, detail))
        return ok

    def floor(self, rule, n):
        """fail closed when fewer instances than confirmed by hand were seen"""
        got = sum(1 for o in self.obs if o[0] == rule)
        self.floors.append((rule, n, got))
        if got < n:
            self.ob(rule, "floor", False, "", "only %d instance(s) of %s found, expected at least %d" % (got, rule, n))

    def need(self, names, what):
        """anchors: functions by (generic-free) path; a missing one is a violation"""
        out = []
        for n in ([names] if isinstance(names, str) else names):
            fs = self.P.named(n)
            if not fs:
                self.ob("anchor", n, False, "", "%s: function %s not found" % (what, n))
            out += fs
        return out

    def note(self, s):
        self.notes.append(s)


def known():
    out = {}
    p = os.path.join(V, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) key=<(.*?)> (.*)$", l.strip())
            if m:
                out[(m.group(1), m.group(2))] = m.group(3)
    return out


def load():
    from .model import Prog
    d = subprocess.check_output([os.path.join(V, "bin", "facts.sh")], text=True).strip().splitlines()[-1]
    return Prog(d, REPO)


def run(pid, P=None, quiet=False):
    t0 = time.time()
    if P is None:
        P = load()
    mod = importlib.import_module("orov.rules." + pid.lower())
    ctx = Ctx(pid, P)
    mod.check(ctx)
    kf = known()
    bad = [o for o in ctx.obs if not o[2]]
    viol = []
    for o in bad:
        k = "%s|%s" % (o[0], o[1])
        if (pid, k) in kf:
            print("KNOWN-FINDING: property=%s %s (%s)" % (pid, kf[(pid, k)], k))
        else:
            viol.append((k, o))
    tier = os.environ.get("VERIF_TIER", "quick")
    per = {}
    for o in ctx.obs:
        x = per.setdefault(o[0], [0, 0])
        x[0] += 1
        x[1] += 1 if o[2] else 0
    ev = {
        "property": pid, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
        "coverage": {
            "explanation": "Static analysis of the resolved program (rustc MIR of every workspace crate, lib and bin targets). " + (mod.__doc__ or "").strip(),
            "obligations": len(ctx.obs), "discharged": len(ctx.obs) - len(bad),
            "rules": {r: {"text": ctx.rules.get(r, ""), "obligations": per[r][0], "discharged": per[r][1]} for r in per},
            "floors": [{"rule": r, "expected_at_least": n, "found": g} for r, n, g in ctx.floors],
            "crates": {c: n for c, n in P.crates}, "functions": len(P.fns),
            "call_sites": sum(len(f.calls()) for f in P.fns.values()),
            "samples": [{"rule": o[0], "instance": o[1], "ok": o[2], "where": o[3]} for o in ctx.obs[:40]],
            "checker_cmd": "bin/check %s" % pid,
            "trusted_base": ["rustc nightly front end (type check, MIR build)", "driver/main.rs", "orov/*.py", "tables in orov/rules/%s.py" % pid.lower()],
            "notes": ctx.notes,
        },
        "assumptions": getattr(mod, "ASSUMES", []),
        "wall_s": round(time.time() - t0, 3),
        "violations": len(viol),
    }
    if not os.environ.get("OROV_NOEV"):
        os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
        p = os.path.join(V, "evidence", pid + ".json")
        with open(p + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(p + ".tmp", p)
    rep = os.path.join(V, "evidence", pid + ".violations.txt")
    if viol:
        with open(rep, "w") as f:
            for k, o in viol:
                f.write("%s\n  at %s\n  %s\n  rule: %s\n" % (k, o[3], o[4], ctx.rules.get(o[0], "")))
        for k, o in viol:
            print("  [%s] %s\n      at %s: %s" % (pid, k, o[3], o[4]))
        print("VIOLATION property=%s replay=%s" % (pid, rep))
        return 1
    if os.path.exists(rep) and not os.environ.get("OROV_NOEV"):
        os.remove(rep)
    print("%s: ok, %d obligations, %d discharged, %.1fs" % (pid, len(ctx.obs), len(ctx.obs) - len(bad), time.time() - t0))
    if not quiet:
        for r in per:
            print("   %-14s %d/%d  %s" % (r, per[r][1], per[r][0], ctx.rules.get(r, "")[:110]))
    return 0


def main():
    ids = sys.argv[1:]
    rc = 0
    P = load()
    for i in ids:
        try:
            rc |= run(i, P)
        except Exception:
            sys.stderr.write("".join(traceback.format_exc().splitlines(True)[-9:]))
            print("ERROR property=%s" % i)
            if len(ids) == 1:
                sys.exit(2)
            rc |= 2
    sys.exit(rc)


if __name__ == "__main__":
    main()
