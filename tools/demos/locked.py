import sys
sys.path.insert(0, __file__.rsplit("/", 1)[0])
from demolib import *
def f(b):
    r = Registry()
    r.add("bar", "1.0.0"); r.add("bar","2.0.0"); r.add("@s/q","1.0.0",manifest={"name":"@s/q","version":"1.0.0","dependencies":{"bar":"^1.0.0"}})
    r.add("opt","1.0.0")
    os.makedirs(b.path("loc")); open(b.path("loc/package.json"),"w").write('{"name":"loc","version":"1.0.0","dependencies":{"bar":"1"}}')
    def pk(deps,**k):
        json.dump(dict(name="p",version="1.0.0",dependencies=deps,**k),open(b.path("package.json"),"w"))
    D={"bar":"^2.0.0","@s/q":"*"}
    pk(D,devDependencies={"dv":"npm:bar@1"},optionalDependencies={"opt":"*"})
    p=b.oro("apply", reg=r); print(p.returncode, p.stderr[-300:] if p.returncode else "")
    print(open(b.proj+"/package-lock.kdl").read())
    def lk(x=1):
        p=b.oro("apply","--locked", reg=r); print("locked",p.returncode,p.stderr[-1500:] if p.returncode and x else "")
    lk()
    shutil.rmtree(b.proj+"/node_modules"); lk()
    pk(D,devDependencies={"dv":"npm:bar@1"}); lk(0)
    pk(dict(D,bar=">=2"),devDependencies={"dv":"npm:bar@1"},optionalDependencies={"opt":"*"}); lk(0)
    pk(dict(D,opt="*"),devDependencies={"dv":"npm:bar@1"}); lk(0)
    open(b.proj+"/package-lock.kdl","a").write("\npkg {{{ \n"); lk(0)
main(f)
