import sys, hashlib; sys.path.insert(0,'/tmp/demo')
from demolib import *
def t(b):
    r=Registry()
    data=tgz({"package.json":'{"name":"a","version":"1.0.0"}'})
    r.add("a","1.0.0",data=data,integrity=None)
    b.pkg({"a":"1.0.0"})
    p=b.oro("apply",reg=r)
    print(p.returncode,p.stdout[-800:],p.stderr[-1500:])
    print(open(b.path("package-lock.kdl")).read() if p.returncode==0 else '')
main(t)
