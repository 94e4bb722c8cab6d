from demolib import *
def t(b):
    r=Registry()
    r.add("foo","1.0.0")
    for nm in ("../esc","..", "a/..", "@../esc"):
        r.pk.pop("evil",None)
        r.add("evil","1.0.0",{"dependencies":{nm:"npm:foo@^1.0.0"}})
        b.pkg({"evil":"^1.0.0"})
        for h in ([],["--hoisted"]):
            import shutil; shutil.rmtree(b.path("node_modules"),ignore_errors=True)
            o=b.oro("apply","--no-lockfile",*h,reg=r)
            print(o.returncode,o.stderr[-500:]); 
            for root,d,f in os.walk(b.dir):
                if "node_modules" in root: continue
                if "esc" in d or "foo" in d: print( nm,h,"escaped",root)
main(t)
