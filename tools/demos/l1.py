from demolib import *
def f(b):
    r=Registry()
    x=b.oro("login","--token","T","--config",b.path("x.kdl"),reg=r)
    print(x.returncode,x.stderr[-600:])
    x=b.oro("login","--token","T",reg=r)
    print(x.returncode,x.stderr[-600:])
    for root,d,fs in os.walk(b.home): print(root,fs)
main(f)
