from demolib import *
def f(b):
    os.chmod(b.dir,0o777)
    for root,d,fs in os.walk(b.dir): os.chmod(root,0o777)
    oro=os.path.join(b.dir,"oro"); shutil.copy(ORO,oro); os.chmod(oro,0o755)
    p=subprocess.run([oro,"login","--token","X","--registry","http://127.0.0.1:1/","--no-first-time","--root",b.proj],cwd=b.proj,user=54321,group=54321,env={"PATH":"/usr/bin:/bin","TMPDIR":b.dir},text=True,capture_output=True,stdin=subprocess.DEVNULL)
    print(p.returncode,p.stderr[-300:])
    if p.returncode==0: return "login succeeded without storing anything"
main(f)
