import os, subprocess, json, shutil, sys
def mk(id, prop, edits, needs, breaks, py=None, go=None, pkg=None, flags="", only=set(sys.argv[1:])):
    if only and id not in only: return
    d="/verif/seeded/"+id
    os.makedirs(d, exist_ok=True)
    w="/tmp/sd/work"
    if not os.path.isdir(w): subprocess.check_call(["cp","-a","/repo",w])
    subprocess.check_call(["git","-C",w,"checkout","-q","--","."])
    subprocess.check_call(["git","-C",w,"clean","-fdq"])
    for f,pairs in edits.items():
        p=os.path.join(w,f); s=open(p).read()
        for a,b in pairs:
            assert s.count(a)==1,(id,f,s.count(a),a)
            s=s.replace(a,b)
        open(p,"w").write(s)
    subprocess.call("cd %s && . /opt/vp/env.sh && gofmt -l %s"%(w," ".join(edits)),shell=True)
    diff=subprocess.check_output(["git","-C",w,"diff"]).decode()
    subprocess.check_call(["git","-C",w,"checkout","-q","--","."])
    open(d+"/patch.diff","w").write(diff)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+"/meta.json","w"),indent=1)
    if py is not None:
        shutil.copy("/tmp/sd/lib.py",d+"/lib.py")
        open(d+"/demo.py","w").write("from lib import *\n\n"+py.strip("\n")+"\n")
        shutil.copy("/tmp/sd/demo_py.sh",d+"/demo.sh")
    else:
        open(d+"/demo_test.go.txt","w").write(go.lstrip("\n"))
        open(d+"/demo.sh","w").write(open("/tmp/sd/demo_go.sh").read().replace("@PKG@",pkg).replace("@FLAGS@",flags))
    os.chmod(d+"/demo.sh",0o755)
    print(id)
