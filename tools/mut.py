import subprocess,sys
B="/repo/ros_bt_py/ros_bt_py/"
def mut(checks, f, old, new, tests=False):
    s=open(B+f).read(); n=s.count(old)
    assert n>=1,(f,n,old)
    try:
        open(B+f,'w').write(s.replace(old,new,1))
        for c in checks:
            r=subprocess.run(["timeout","300","bash","/verif/run.sh",c],capture_output=True,text=True,env={**__import__('os').environ})
            print(c, "CAUGHT" if r.returncode==1 else f"rc={r.returncode}", "|", f, repr(old[:50]),'->',repr(new[:50]), '|', (r.stdout.strip().splitlines() or [''])[-1][:150], flush=True)
    finally:
        open(B+f,'w').write(s)
        subprocess.run(["git","-C","/repo","status","--short"])
