from demolib import *
import os,glob
def f(b):
    r=Registry()
    r.add("a","1.0.0",manifest={"scripts":{"postinstall":"printf ' ' >> package.json; printf '//x' >> z.js; printf '//x' >> b.js"}},files={"b.js":"b","z.js":"z"})
    b.pkg({"a":"1.0.0"})
    x=b.oro("apply",reg=r)
    if x.returncode: return x.stderr[-2000:]
    out=[]
    for p in sorted(glob.glob(os.path.join(b.path(),"node_modules/a/*"))):
        out.append("%s:%d"%(os.path.basename(p),os.stat(p).st_nlink))
    print(out)
    bad=[o for o in out if not o.endswith(":1") ]
    return str(bad) if bad else None
main(f)
