from demolib import *
def t(b):
    r=Registry()
    r.add("evil","1.0.0",raw=[{"name":"package/../../../../../../escaped.txt","data":b"x"}])
    b.pkg({"evil":"^1.0.0"})
    o=b.oro("apply",reg=r)
    print(o.returncode,o.stdout[-1500:],o.stderr[-1500:])
    for root,d,f in os.walk(b.dir):
        if "escaped.txt" in f: return "escaped to "+root
main(t)
