import sys,subprocess,itertools,re
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0,'/verif')
# usage: probe.py src obj,obj,.. "defs..;opts" ...
src=sys.argv[1]; objs=sys.argv[2].split(','); fams=sys.argv[3:]
code=open('/verif/scenarios.py').read()
import importlib.util,tempfile,os,json,time,shutil
import scenarios as SC, check as CK
CK.ensure_symx()
d=tempfile.mkdtemp(prefix='probe_'); b=CK.Builder(d)
TL=int(os.environ.get('TL','120'))
jobs=[]
for i,f in enumerate(fams):
    parts=f.split(';'); defs=parts[0].split(); opts=dict(x.split('=') if '=' in x else (x,True) for x in (parts[1].split() if len(parts)>1 else [])); lib=parts[2].split() if len(parts)>2 else []
    for o in objs:
        l=list(lib)
        if o=='LCRQ' and not any(x.startswith('RING') for x in l): l.append('RING_POW=1')
        jobs.append(dict(name='p%d_%s'%(i,o),props=[],src=src,defs=(['OBJ_'+o] if o!='-' else [])+defs,libdefs=l,opts=opts,fam=f,obj=o))
for k in {(tuple(j['libdefs']),'-O0') for j in jobs}: b.lib(list(k[0]),k[1])
def one(s):
    bc=b.build(s)
    if not bc: print(s['obj'],s['fam'],'BUILD',b.errors[-1][-300:]); return
    sched=d+'/'+s['name']+'.sched'
    j=CK.symx_check(s,bc,timeout=TL,sched=sched)
    r=''
    if j.get('violation'):
        rc,msg=CK.replay(b,s,bc,sched,j['violation']); r=' VIOL %s native %s %s'%(j['violation']['msg'],rc,msg[:200])
        shutil.copy(sched,'/tmp/w/last_%s.sched'%s['obj'])
    miss=[k for k,v in j.get('covers',{}).items() if v!=1]
    print('%-6s %-45s %s %.1fs cut=%s %s %s%s'%(s['obj'],s['fam'],j.get('status'),j['wall'],j.get('loop_cut_feasible'),('unreached '+str(miss)) if miss else '',str(j.get('error') or '')[:150],r)); sys.stdout.flush()
with ThreadPoolExecutor(8) as ex: list(ex.map(one,jobs))
shutil.rmtree(d)
