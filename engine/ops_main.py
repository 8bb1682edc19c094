#!/usr/bin/env python3
"""Runs the bit-provenance analysis over generated op wrappers."""
import os, sys, json, subprocess, re, shutil, tempfile, time
from concurrent.futures import ThreadPoolExecutor
HERE=os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0,HERE)
import opsgen, opstable
REPO=os.environ.get('VERIF_REPO','/repo')
CLANG='clang++-18' if shutil.which('clang++-18') else 'clang++'
PRO='''#include "hwy/highway.h"
#include "%s/ref.h"
#if HWY_TARGET != HWY_%s
#error "unexpected static target"
#endif
namespace hn = hwy::HWY_NAMESPACE;
'''
CXX=['-std=c++17','-O2','-fno-vectorize','-fno-slp-vectorize','-gline-tables-only','-DNDEBUG','-w','-ferror-limit=0','-fno-discard-value-names','-c','-emit-llvm']
import threading, hashlib
_pchl=threading.Lock(); _pchs={}
def pch(scratch,tg,inc):
    """one precompiled prologue per target and include set (rebuilt from the current tree on every run)"""
    k=(scratch,tg,hashlib.md5((inc+' '.join(CXX)).encode()).hexdigest()[:10])
    with _pchl: ent=_pchs.setdefault(k,[threading.Lock(),None])
    with ent[0]:
        if ent[1] is None:
            h=f'{scratch}/pro_{tg}_{k[2]}.h'; open(h,'w').write(PRO%(HERE,tg)+inc)
            fl=[f for f in CXX if f not in('-c','-emit-llvm')]
            p=subprocess.run([CLANG]+fl+['-I',REPO]+opsgen.TARGETS[tg]['flags']+['-x','c++-header','-Xclang','-fno-pch-timestamp',h,'-o',h+'.pch'],capture_output=True,text=True)
            ent[1]=(h+'.pch' if p.returncode==0 else '',p.stderr)
    return ent[1]
def compile_tu(scratch,tg,idx,ws,inc=''):
    """ws: list of wrappers; returns (kept wrappers, bcpath, dropped[(id,msg)])"""
    src=f'{scratch}/{tg}_{idx}.cc'; bc=src[:-3]+'.bc'; dropped=[]; cur=list(ws)
    pc,err=pch(scratch,tg,inc)
    if not pc: return [],None,[(w[0],'prologue: '+err[:300]) for w in ws]
    for att in range(4):
        lines=[]; own={}
        for w in cur:
            own[len(lines)+1]=w[0]; lines.append(w[1].strip())
            if w[2]: own[len(lines)+1]=w[0]; lines.append(w[2].strip())
        open(src,'w').write('\n'.join(lines)+'\n')
        p=subprocess.run([CLANG]+CXX+['-I',REPO]+opsgen.TARGETS[tg]['flags']+['-include-pch',pc,src,'-o',bc],capture_output=True,text=True)
        if p.returncode==0: return cur,bc,dropped
        bad={}; last=''
        for l in p.stderr.split('\n'):
            m=re.match(r'(.*?):(\d+):\d+: (error|note|fatal error|warning): (.*)',l)
            if not m: continue
            if 'error' in m.group(3): last=m.group(1)+':'+m.group(2)+' '+m.group(4)
            if m.group(1)==src and int(m.group(2)) in own: bad.setdefault(own[int(m.group(2))],last or m.group(4))
        if not bad:
            return [],None,dropped+[(w[0],'TU: '+p.stderr[:300]) for w in cur]
        dropped+=list(bad.items()); cur=[w for w in cur if w[0] not in bad]
        if not cur: return [],None,dropped
    return [],None,dropped+[(w[0],'compile retries') for w in cur]
def blank(i,tg,st,d): return dict(id=i,target=tg,status=st,detail=d,lanes=0,proven=0,undecided=0,mem=[],garbage=[],cross=[],mismatch=[],acc=0,loc='',ms=0)
def analyse(scratch,tg,bc,part,k):
    sp=f'{bc[:-3]}.{k}.tsv'; out=f'{bc[:-3]}.{k}.jsonl'; res=[]
    open(sp,'w').write('\n'.join(w[3] for w in part)+'\n')
    os.makedirs(scratch+'/cache',exist_ok=True)
    p=subprocess.run([HERE+'/../build/bitflow',bc,sp,out],capture_output=True,text=True,env=dict(os.environ,BITFLOW_CACHE=scratch+'/cache'))
    if os.path.exists(out):
        for l in open(out):
            try: r=json.loads(l)
            except Exception: continue
            r['target']=tg; res.append(r)
    done={r['id'] for r in res}
    res+=[blank(w[0],tg,'crash',(p.stderr or '')[-200:]) for w in part if w[0] not in done]
    return res
HEAVY=re.compile(r'Compress|Expand|Dyn|^Ro[lr]/|^Sh[lr]/|ConvertToF|Tables|TableL|Clamp|AbsDiff|ZeroCount|HighestSet|AddSub|SetTable')
def run_tasks(tasks,jobs):
    """compile all TUs, then analyse their wrappers in small independent parts (expensive ones first)"""
    res=[]
    with ThreadPoolExecutor(jobs) as ex:
        comp=list(ex.map(lambda a:(a,compile_tu(*a)),tasks)); parts=[]
        for (sc,tg,idx,ws,inc),(cur,bc,dropped) in comp:
            res+=[blank(i,tg,'nocompile',m) for i,m in dropped]
            if not bc: continue
            hv=[w for w in cur if HEAVY.search(w[0])]; lt=[w for w in cur if not HEAVY.search(w[0])]
            for k in range(0,len(hv),4): parts.append((0,sc,tg,bc,hv[k:k+4],f'h{k}'))
            for k in range(0,len(lt),100): parts.append((1,sc,tg,bc,lt[k:k+100],f'l{k}'))
        parts.sort(key=lambda p:p[0])
        for x in ex.map(lambda p: analyse(*p[1:]),parts): res+=x
    return res
def run(props,tier,targets,scratch,filt=None,chunk=400,jobs=8):
    tasks=[]; total=0
    for tg in targets:
        ws=opsgen.build(tg,tier,props)
        if filt: ws=[w for w in ws if filt(tg,w)]
        total+=len(ws)
        n=max(1,(len(ws)+chunk-1)//chunk)
        for i in range(n):
            part=ws[i::n]
            if part: tasks.append((scratch,tg,i,part,''))
    return run_tasks(tasks,jobs)
def run_custom(scratch,per_target,inc,chunk=40,jobs=8):
    '''per_target: {target: [(id,impl C++,ref C++,specline)]}; one line per C++ text'''
    tasks=[]
    for tg,ws in per_target.items():
        n=max(1,(len(ws)+chunk-1)//chunk)
        for i in range(n): tasks.append((scratch,tg,i,ws[i::n],inc))
    return run_tasks(tasks,jobs)
if __name__=='__main__':
    import argparse
    ap=argparse.ArgumentParser(); ap.add_argument('--props',default=''); ap.add_argument('--tier',default='quick'); ap.add_argument('--targets',default=','.join(opsgen.TARGETS)); ap.add_argument('--re',default=''); ap.add_argument('--out',default='/tmp/ops.jsonl'); ap.add_argument('--keep',default=''); ap.add_argument('--count',action='store_true')
    a=ap.parse_args(); props=set(a.props.split(',')) if a.props else None
    if a.count:
        for tg in a.targets.split(','):
            ws=opsgen.build(tg,a.tier,props); print(tg,len(ws))
        sys.exit()
    sc=a.keep or tempfile.mkdtemp(prefix='ops'); os.makedirs(sc,exist_ok=True)
    f=(lambda tg,w: (not a.re or re.search(a.re,w[0])) and opstable.keep(tg,w,a.tier,''))
    t=time.time(); rs=run(props,a.tier,a.targets.split(','),sc,f)
    with open(a.out,'w') as o:
        for r in rs: o.write(json.dumps(r)+'\n')
    from collections import Counter
    c=Counter(r['status'] for r in rs); print(c, 'lanes',sum(r['lanes'] for r in rs),'proven',sum(r['proven'] for r in rs),'undec',sum(r['undecided'] for r in rs),'sec',round(time.time()-t))
    for k in('mem','garbage','cross','mismatch'): print(k,sum(1 for r in rs if r[k]))
    if not a.keep: shutil.rmtree(sc)
