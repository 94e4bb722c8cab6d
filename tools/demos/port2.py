from demolib import *
def f(b):
    r=Registry(); other=Registry()
    r.add("a","1.0.0")
    b.pkg({"a":"1.0.0"})
    x=b.oro("apply","--auth","{%s}token=SEKRIT"%other.url,reg=r)
    if x.returncode: return x.stderr[-1500:]
    if any("SEKRIT" in (l[2].get("authorization") or "") for l in r.log): return "token of another registry sent"
main(f)
