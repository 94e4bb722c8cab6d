#!/usr/bin/env python3
"""seed.py ID PROPERTY < blocks : make and confirm a planted bug in the scratch copy /tmp/seedrepo.
blocks: path, old, =====, new (several separated by ###). Files demo.py/needs.txt/breaks.txt are written by the caller.
seed.py ID            : confirm again and run the property's check"""
import sys, subprocess, os, json, shutil
R = "/tmp/seedrepo"
V = "/verif"
sid = sys.argv[1]
D = os.path.join(V, "seeded", sid)
os.makedirs(D, exist_ok=True)


def sh(cmd, cwd=R, env=None, timeout=900):
    return subprocess.run(["bash", "-c", cmd], cwd=cwd, text=True, capture_output=True, timeout=timeout, env=env)


sh("git fetch -q /repo HEAD && git checkout -qf FETCH_HEAD && git checkout -q -- . && git clean -fdq")
if len(sys.argv) > 2:
    for b in sys.stdin.read().split("\n###\n"):
        lines = b.strip("\n").split("\n")
        f = lines[0].strip()
        old, new = "\n".join(lines[1:]).split("\n=====\n") if "\n=====\n" in b else ("\n".join(lines[1:]).split("\n=====")[0], "")
        p = os.path.join(R, f)
        s = open(p).read()
        if s.count(old) != 1:
            print("MATCH COUNT", s.count(old), f)
            sys.exit(9)
        open(p, "w").write(s.replace(old, new))
    open(D + "/patch.diff", "w").write(sh("git diff").stdout)
    sh("git checkout -q -- .")
else:
    pass
if not os.path.exists(D + "/demo.sh"):
    open(D + "/demo.sh", "w").write('#!/bin/bash\nexec timeout 250 python3 "$(dirname "$0")/demo.py"\n')
    os.chmod(D + "/demo.sh", 0o755)
if os.path.exists(D + "/demo.py"):
    shutil.copy(V + "/tools/demos/demolib.py", D + "/demolib.py")
meta = json.load(open(D + "/meta.json"))
BUILD = ". /opt/vp/env.sh; touch $(git ls-files '*.rs'); cargo test --no-run --workspace --locked --offline 2>&1 | tail -30"
TEST = (". /opt/vp/env.sh; T=$(mktemp -d); XDG_CONFIG_HOME=$T/c XDG_CACHE_HOME=$T/d XDG_DATA_HOME=$T/e "
        "cargo nextest run --workspace --locked --offline --no-fail-fast --tool-config-file vp:/tmp/seednextest.toml --profile vp 2>&1 | tail -40; rm -rf -- $T; git clean -fdq")
r = sh(BUILD)
a = sh("bash %s/demo.sh" % D)
print("unchanged: demo", a.returncode, a.stdout[-400:], a.stderr[-400:])
x = sh("git apply %s/patch.diff" % D)
if x.returncode:
    print("patch does not apply", x.stderr)
    sys.exit(1)
r = sh(BUILD)
if "error" in r.stdout and "could not compile" in r.stdout:
    print(r.stdout)
    sys.exit(1)
b = sh("bash %s/demo.sh" % D)
print("patched:   demo", b.returncode, b.stdout[-400:], b.stderr[-400:])
t = sh(TEST)
print([l for l in t.stdout.split("\n") if "Summary" in l])
e = dict(os.environ, OROV_REPO=R, OROV_NOEV="1")
c = subprocess.run([V + "/bin/check", meta["property"]], env=e, text=True, capture_output=True)
print(c.stdout[-500:])
sh("git checkout -q -- . && git clean -fdq")
ok = a.returncode == 0 and b.returncode != 0
print("SEED", sid, "valid" if ok else "INVALID", "caught" if c.returncode == 1 else "MISSED rc=%d" % c.returncode)
