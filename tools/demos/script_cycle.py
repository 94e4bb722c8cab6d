import sys; sys.path.insert(0,'/verif/tools/demos')
from demolib import *
def f(b):
    r=Registry()
    r.add('a','1.0.0',manifest={"dependencies":{"b":"^1.0.0"},"scripts":{"install":"echo a > ran"}})
    r.add('b','1.0.0',manifest={"dependencies":{"a":"^1.0.0"},"scripts":{"install":"echo b > ran"}})
    b.pkg({'a':'^1.0.0'})
    try:
        p=b.oro('apply',reg=r,timeout=20)
    except Exception as e:
        return "hang: %s"%e
    print(p.returncode,p.stderr[-500:])
    import os
    print([os.path.exists(b.path('node_modules/%s/ran'%x)) for x in 'ab'])
main(f)
