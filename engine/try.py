import sys, time, json
sys.path.insert(0, __file__.rsplit("/",1)[0])
import build, llvmir, symex, prove, builtins_
def main():
    h = sys.argv[1]
    cfg = {"ndim": 3, "geom": "Cartesian", "eos": "PerfectGas", "def": {}}
    tmo=5; verbose=False
    for a in sys.argv[2:]:
        if a=="-v": verbose=True; continue
        k, v = a.split("=")
        if k in ("ndim","geom","eos","grav"): cfg[k]=v
        elif k=="tmo": tmo=float(v)
        else: cfg["def"][k]=v
    t0=time.time()
    f = build.ir(h, cfg)
    print("compiled %.1f"%(time.time()-t0), f)
    m = llvmir.Module(f)
    e = symex.Engine(m)
    t0=time.time()
    e.run("vc_main")
    print("symex %.1f steps %d obls %d trivial %d auto %d covers %d kernels %d sums %d" % (time.time()-t0, e.steps, len(e.obls), len(e.trivial), e.auto_ok, len(e.covers), len(e.kernels), e.loop_summaries))
    if verbose: print(e.kernels)
    bad=0
    for o in e.obls:
        t1=time.time()
        r = prove.prove(e, o.pc, o.goal, tmo, tmo*6)
        dt=time.time()-t1
        if not r.ok or verbose or dt>2:
            print("OK " if r.ok else "FAIL", o.kind, o.name, r.by, r.why, "%.2f"%dt)
            if not r.ok:
                bad+=1
                if verbose:
                    for p in o.pc: print("    H", p)
                    print("    G", o.goal)
                    if r.leaf:
                        print("    leaf", r.leaf[1])
                        print("    leaf H", [x for x in r.leaf[0].h if x not in o.pc])
                    if r.model and r.model!=True:
                        print("   ", {str(a):str(r.model[0].eval(v)) for a,v in r.model[1].apps.items()}, str(r.model[0])[:1500])
    for n,pc in e.covers:
        p=prove.Prover(e, tmo, tmo*3, ext=False)
        r=p.prove(pc, symex.FALSE)
        print("cover", n, "REACHABLE" if (not r.ok) else "VACUOUS", r.why)
    print("failed", bad, "of", len(e.obls), "total %.1f"%(time.time()-t0), prove.STATS)
main()
