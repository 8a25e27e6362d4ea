import sys,os,importlib; sys.path.insert(0,'/verif')
os.environ.setdefault("PYTHONHASHSEED","0")
from pv import loader, prove, api
import time
loader.install()
m=importlib.import_module("specs."+sys.argv[1])
L=loader.Lib()
import javatools, javatools.pack
for x in getattr(m,'MODULES',()): importlib.import_module(x)
loader.snapshot()
for c in [c for c in api.REGISTRY if c.prop == sys.argv[1].upper()]:
    if len(sys.argv)>2 and sys.argv[2] not in c.name: continue
    if not c.symbolic: continue
    r=prove.prove_contract(c,time.time()+c.budget)
    print(r['name'],'obl',r['obligations'],'ok',r['discharged'],'paths',r['paths'],r['covers'],'wall',r['wall'],'q',r['queries'],r['solver_time'], 'assumed',r['assumed'])
    for f in r['fails'][:3]: print('   FAIL',f[0],f[1][:int(os.environ.get("W","1500"))])
    for f in r['models'][:3]: print("   MODEL",str(f)[:300])
