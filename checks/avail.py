#!/usr/bin/env python3
"""O09: availability: one probe per (operation, lane type, lane count, immediate, target) must type-check and generate code on the current headers."""
from bfx import *
import ops_main, opsgen, opstable, availtable
X='HWY_COMPILE_ONLY_STATIC'
CROSS={'NEON':('aarch64-linux-gnu',['-march=armv8-a+crypto']),'NEON_WITHOUT_AES':('aarch64-linux-gnu',['-march=armv8-a']),
 'NEON_BF16':('aarch64-linux-gnu',['-march=armv8.6-a+bf16+crypto+dotprod+fp16']),
 'PPC8':('powerpc64le-linux-gnu',['-mcpu=power8']),'PPC9':('powerpc64le-linux-gnu',['-mcpu=power9']),'PPC10':('powerpc64le-linux-gnu',['-mcpu=power10']),
 'Z14':('s390x-linux-gnu',['-march=z14','-mzvector']),'Z15':('s390x-linux-gnu',['-march=z15','-mzvector'])}
def flags(sc,tg):
    if tg in CROSS: return ['-D'+X,'-DHWY_BROKEN_TARGETS=0']+CROSS[tg][1]+cross_flags(sc,CROSS[tg][0])
    return opsgen.TARGETS[tg]['flags']
PRO='#include "hwy/highway.h"\n#if HWY_TARGET != HWY_%s\n#error "unexpected static target"\n#endif\nnamespace hn = hwy::HWY_NAMESPACE;\n'
def m():
    a=std_args(); sc=a.dump or scratch('av'); os.makedirs(sc,exist_ok=True)
    quick=['SCALAR','EMU128','SSE2','SSSE3','SSE4','AVX2','AVX3','AVX3_SPR']+list(CROSS)
    tgs=a.targets.split(',') if a.targets else (quick if a.tier=='quick' else quick+['AVX3_DL','AVX3_ZEN4'])
    for tg in CROSS: opsgen.TARGETS[tg]=dict(flags=[],maxb=16,mask='v')
    FL={tg:flags(sc,tg) for tg in tgs}; base=['-std=c++17','-w','-ferror-limit=0','-fbracket-depth=1024','-I',REPO,'-I',HERE+'/../engine','-include',HERE+'/../engine/ref.h']
    CX=['-O0','-Xclang','-disable-llvm-passes','-c','-emit-llvm']
    F16={}
    def pre(tg):
        h=f'{sc}/{tg}.h'; open(h,'w').write(PRO%tg)
        r=subprocess.run([CLANG]+base+FL[tg]+['-x','c++-header','-Xclang','-fno-pch-timestamp',h,'-o',h+'.pch'],capture_output=True,text=True)
        q=subprocess.run([CLANG]+base+FL[tg]+['-include-pch',h+'.pch','-E','-x','c++','-'],input='#if HWY_HAVE_FLOAT16\nVF_F16\n#endif\n',capture_output=True,text=True) if r.returncode==0 else None
        F16[tg]=bool(q and 'VF_F16' in q.stdout.split()); return tg,r.returncode,r.stderr
    with ThreadPoolExecutor(8) as ex: pr=list(ex.map(pre,tgs))
    bad=[(t,e[:400]) for t,rc,e in pr if rc]
    if bad: raise Broken('headers do not compile: '+str(bad))
    def keep(tg,w):
        p=w[0].split('/'); t=p[1].split('x')[0]
        if a.re and not re.search(a.re,w[0]): return False
        if not opstable.keep('SSE2' if tg in CROSS else tg,w,'thorough',''): return False
        return not excluded(tg,w[0],F16[tg])
    def comp(task):
        tg,i,ws=task; src=f'{sc}/{tg}_{i}.cc'; lines=[]; own={}
        for w in ws: own[len(lines)+1]=w[0]; lines.append(w[1].strip())
        open(src,'w').write('\n'.join(lines)+'\n')
        p=subprocess.run([CLANG]+base+FL[tg]+CX+['-include-pch',f'{sc}/{tg}.h.pch',src,'-o','/dev/null'],capture_output=True,text=True)
        if p.returncode==0: return tg,len(ws),{}
        badw={}; last=''
        for l in p.stderr.split('\n'):
            mm=re.match(r'(.*?):(\d+):\d+: (error|note|fatal error): (.*)',l)
            if not mm: continue
            if 'error' in mm.group(3): last=(mm.group(1).replace(REPO+'/',''),mm.group(2),mm.group(4))
            if mm.group(1)==src and int(mm.group(2)) in own: badw.setdefault(own[int(mm.group(2))],last)
        if not badw: badw={f'TU {i}':('',0,p.stderr[:400])}
        return tg,len(ws),badw
    if a.dump: print(F16)
    tasks=[]; tot={}
    for tg in tgs:
        ws=[w for w in opsgen.build(tg,a.tier,None)+availtable.more(tg,opsgen.TARGETS[tg]['maxb'],opsgen.sz,opsgen.CXX_T) if keep(tg,w)]
        if a.tier=='quick': ws=thin(ws if tg in CROSS else [w for w in ws if edge(tg,w[0])])
        tot[tg]=len(ws); n=max(1,(len(ws)+299)//300)
        for i in range(n): tasks.append((tg,i,ws[i::n]))
    with ThreadPoolExecutor(8) as ex: rs=list(ex.map(comp,tasks))
    vio=[]
    for tg,n,b in rs:
        for k,(f,l,msg) in b.items(): vio.append(dict(key=f'{tg}:{k}',where=(f if not f.startswith('/tmp') else 'hwy/ops')+f':{l}',what='does not compile: '+msg[:250]))
    vio.sort(key=lambda v:v['key'])
    if a.dump:
        from collections import Counter
        c=Counter()
        for v in vio: tg,k=v['key'].split(':',1); p=k.split('/'); c[(tg,p[0],p[1].split('x')[0] if len(p)>1 else '')]+=1
        d={}
        for (tg,o,t),k in c.items(): d.setdefault((o,tg),[]).append((t,k))
        for k,v in sorted(d.items()): print(k,v)
    for t in tgs:
        if not a.re and tot[t]<500: raise Broken(f'{t}: only {tot[t]} probes')
    cov=dict(explanation='Type-checking and code generation (front end only) of one probe per documented combination; nothing is run.',functions_analysed=sum(tot.values()),probes_per_target=tot,float16_full_support=[t for t in tgs if F16[t]],rule='every operation of engine/opstable.py must compile for every lane type, lane count and immediate for which it is documented, with the documented argument and result types')
    finish('O09',a.tier,'proof',cov,vio,['clang 18 as compiler; other architectures with the installed standard library headers'])
# quick_reference.md: special floats are promised for these operations only, unless HWY_HAVE_FLOAT16 (then float16_t has all)
SPECIAL=re.compile(r'^(Zero|Set|Undefined|BitCast|LoadU?|LoadN|LoadNOr|LoadInterleaved[234]|MaskedLoad|MaskedLoadOr|StoreU?|StoreN|StoreInterleaved[234]|BlendedStore|Promote(Upper|Lower|Even|Odd)?To|Combine|InsertLane|ZeroExtendVector|RebindMask|FirstN|IfThenElse|IfThenElseZero|IfThenZeroElse)$')
def edge(tg,id):
    """quick tier, targets that the test suite also compiles: one lane, 8-byte and full vectors"""
    t,n=id.split('/')[1].split('x')[:2]; n=int(n); b=n*opsgen.sz(t)
    return n==1 or b in(8,opsgen.TARGETS[tg]['maxb'])
def thin(ws):
    """quick tier: the smallest, second and largest immediate only (availability does not depend on the others)"""
    g={}; out=[]
    for w in ws:
        p=w[0].split('/')
        if len(p)==3 and p[2].isdigit(): g.setdefault((p[0],p[1]),[]).append((int(p[2]),w))
        else: out.append(w)
    for x in g.values(): x.sort(key=lambda y:y[0]); out+=[x[i][1] for i in sorted({0,min(1,len(x)-1),len(x)-1})]
    return out
def excluded(tg,id,f16):
    p=id.split('/'); t=p[1].split('x')[0]
    return (t=='bf16' or t=='f16' and not f16) and not SPECIAL.match(p[0])
main(m)
