from demolib import *
def f(b):
    r=Registry(); other=Registry()
    other.add("a","1.0.0")
    r.add("a","1.0.0",dist={"tarball":other.url+"a/-/a-1.0.0.tgz"}, integrity=None)
    r.pk["a"]["versions"]["1.0.0"]["dist"].pop("shasum",None)
    b.pkg({"a":"1.0.0"})
    x=b.oro("apply","--auth","{%s}token=SEKRIT"%r.url,reg=r)
    if x.returncode: return x.stderr[-1500:]
    print([l[2].get("authorization") for l in r.log],[l[2].get("authorization") for l in other.log])
    print([l[1] for l in r.log],[(l[1],l[2].get("x-oro-registry")) for l in other.log],r.url)
    if any("SEKRIT" in (l[2].get("authorization") or "") for l in other.log): return "token sent to another server"
    if not any("SEKRIT" in (l[2].get("authorization") or "") for l in r.log): return "token not sent to its registry"
main(f)
