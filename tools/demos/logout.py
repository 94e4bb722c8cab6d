from demolib import *
def f(b):
    r=Registry()
    cfg=os.path.join(b.dir,"oro.kdl")
    open(cfg,"w").write('options {\n  auth {\n    "%s" token="TOK"\n  }\n}\n'%r.url)
    x=b.oro("logout","--config",cfg,reg=r)
    print(x.returncode,x.stderr[-300:],[l[:2] for l in r.log],open(cfg).read())
    if x.returncode==0 : return "ok"
main(f)
