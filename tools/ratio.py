import sys,os; sys.path.insert(0,'/verif')
import harness.core as core, importlib, collections, numpy as np
R=collections.defaultdict(float)
orig=core.close
def close(a,b,tol,what,*k,**kw):
    try:
        e=float(np.max(np.abs(np.asarray(a,float)-np.asarray(b,float)))) if np.size(a) else 0
        key=what.split(': ')[-1].split(' over ')[0]+str(getattr(core,'CUR',''))
        if tol: R[key]=max(R[key],e/np.max(tol))
    except Exception as ex: pass
    return orig(a,b,tol,what,*k,**kw)
core.close=close
_h=None
m=importlib.import_module('checks.'+sys.argv[1])
chk=core.Check(sys.argv[1].upper())
def _c(c):
    core.CUR=' '+c[0].split(' ')[0] if len(sys.argv)>2 else ''
    chk.case(c[0],c[1],*c[2],sample=c[3])
def _r(cases,**kw):
    out=[]
    for c in cases:
        core.CUR=' '+c[0].split(' ')[0] if len(sys.argv)>2 else ''
        box=[]
        chk.case(c[0],lambda *a:box.append(c[1](*a)),*c[2],sample=c[3])
        out+=[x for x in box if x is not None]
    return out
chk.run_cases=_r
m.run(chk)
for k,v in sorted(R.items(), key=lambda x:-x[1]): print(f"{v:.3g} {k}")
print(len(chk.violations))
