import sys, hashlib,os,shutil; sys.path.insert(0,'/tmp/demo')
from demolib import *
def t(b):
  for mode in ("content","index","missing"):
    r=Registry()
    r.add("a","1.0.0",files={"lib/a.js":"1"*100,"lib/x/b.js":"2"*100,"c.js":"3"*50, **{"lib/f%d.js"%i:str(i)*20 for i in range(30)}})
    b.pkg({"a":"1.0.0"})
    shutil.rmtree(b.cache,ignore_errors=True); shutil.rmtree(b.path("node_modules"),ignore_errors=True)
    p=b.oro("apply","--no-lockfile",reg=r)
    print(mode,p.returncode)
    shutil.rmtree(b.path("node_modules"))
    if mode in("content","missing"):
        for root,d,f in os.walk(b.cache+"/content-v2"):
            for x in f:
                q=os.path.join(root,x)
                if open(q,"rb").read()==b"2"*100:
                    os.chmod(q,0o644)
                    if mode=="content": open(q,"w").write("EVIL")
                    else: os.remove(q)
    else:
        for root,d,f in os.walk(b.cache+"/index-v5"):
            for x in f:
                q=os.path.join(root,x); s=open(q).read()
                if "nassun::package" in s:
                    import json,hashlib
                    l=s.strip().split("\n")[-1]; h,j=l.split("\t"); o=json.loads(j)
                    print(o.keys())
                    o["raw_metadata"]=o["raw_metadata"][:len(o["raw_metadata"])//2]
                    j=json.dumps(o,separators=(",",":"))
                    open(q,"w").write("\n"+hashlib.sha256(j.encode()).hexdigest()+"\t"+j)
    p=b.oro("apply","--no-lockfile",reg=r)
    print(mode,p.returncode,p.stderr[-700:]); print(sum(len(f) for _,_,f in os.walk(b.path("node_modules"))))
main(t)
