import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, subprocess
cfg = {"ndim": 3, "geom": "Cartesian", "eos": "PerfectGas", "def": {}}
h=sys.argv[1]; trials="2000"; seed="1"; secs="20"
for a in sys.argv[2:]:
    k,v=a.split("=")
    if k in ("ndim","geom","eos","grav"): cfg[k]=v
    elif k=="trials": trials=v
    elif k=="seed": seed=v
    elif k=="secs": secs=v
    else: cfg["def"][k]=v
out="/tmp/nat_%d"%os.getpid()
build.native(h,cfg,out)
p=subprocess.run([out,seed,trials,secs],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
print(p.returncode,p.stdout[:3000])
os.unlink(out)
