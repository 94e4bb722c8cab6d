from demolib import *
def t(b):
    r=Registry()
    r.add("evil","1.0.0",{"bin":{"evil":"../../../../../../victim"}})
    b.pkg({"evil":"^1.0.0"})
    v=os.path.join(b.dir,"a","b","c","victim"); open(v,"w").write("s"); os.chmod(v,0o600)
    o=b.oro("apply","--no-scripts",reg=r)
    print(o.returncode,o.stderr[-700:]); 
    if os.stat(v).st_mode&0o777!=0o600: return "mode of outside file is now %o"%(os.stat(v).st_mode&0o777)
main(t)
