import sys; sys.path.insert(0,'/verif/tools/demos')
from demolib import *
import os
def f(b):
    r=Registry()
    r.add('a','1.0.0',manifest={"bin":{"a":"./cli.js","other":"./cli.js"}},files={"cli.js":"#!/bin/sh\necho hi\n"})
    b.pkg({'a':'^1.0.0'})
    for m in (['--hoisted'],[]):
      os.system('rm -rf '+b.path('node_modules'))
      for i in range(2):
        p=b.oro('apply',*m,reg=r,timeout=20)
        if p.returncode: print(p.stderr[-500:])
        d=b.path('node_modules/.bin')
        print(m,i,os.listdir(d) if os.path.exists(d) else None)
main(f)
