from demolib import *
def f(b):
    r=Registry()
    r.add("a","1.0.0")
    r.add("@s/b","1.0.0")
    o=Registry(); o.add("@s/b","1.0.0")
    b.pkg({"a":"1.0.0","@s/b":"1.0.0"})
    x=b.oro("apply","--auth","{%s}token=SEKRIT"%r.url,"--auth","{%s}token=OTHER"%o.url,"--scoped-registry","@s="+o.url,reg=r)
    if x.returncode: return x.stderr[-1500:]
    for l in r.log:
        if l[2].get("authorization")!="Bearer SEKRIT": return "no token for "+l[1]
    for l in o.log:
        if l[2].get("authorization")!="Bearer OTHER": return "no token for other "+l[1]
    print(len(r.log),len(o.log))
main(f)
