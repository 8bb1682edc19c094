#!/usr/bin/env python3
"""C05: xoshiro256++ state transition, output function and jump maps, scalar and per vector lane."""
from common import *
import ops_main, opsgen
from collections import Counter
INC='''#include "hwy/contrib/random/random-inl.h"
using u64=uint64_t; static inline u64 rl(u64 x,int k){ return (x<<k)|(x>>(64-k)); }
static inline __attribute__((always_inline)) u64 rnext(u64* s){ u64 r=rl(s[0]+s[3],23)+s[0]; u64 t=s[1]<<17; s[2]^=s[0]; s[3]^=s[1]; s[1]^=s[2]; s[0]^=s[3]; s[2]^=t; s[3]=rl(s[3],45); return r; }
static inline __attribute__((always_inline)) void rjump(u64* s,u64 a,u64 b,u64 c,u64 d){ u64 J[4]={a,b,c,d}; u64 z[4]={0,0,0,0}; for(int w=0;w<4;w++) for(int k=0;k<64;k++){ if(J[w]>>k&1){ z[0]^=s[0]; z[1]^=s[1]; z[2]^=s[2]; z[3]^=s[3]; } u64 t=s[1]<<17; s[2]^=s[0]; s[3]^=s[1]; s[1]^=s[2]; s[0]^=s[3]; s[2]^=t; s[3]=rl(s[3],45); } s[0]=z[0]; s[1]=z[1]; s[2]=z[2]; s[3]=z[3]; }
static inline __attribute__((always_inline)) void rseed(u64* s,u64 x){ for(int i=0;i<4;i++){ u64 z=(x+=0x9e3779b97f4a7c15ull); z=(z^(z>>30))*0xbf58476d1ce4e5b9ull; z=(z^(z>>27))*0x94d049bb133111ebull; s[i]=z^(z>>31); } }
using XO=hn::internal::Xoshiro;
using VX=hn::VectorXoshiro;
'''
# memory for the state arrays and results: a bump allocator
PRE='''#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <algorithm>
#include <array>
#include <atomic>
#include <limits>
#include <memory>
#include <utility>
#include <vector>
extern "C" { alignas(4096) unsigned char VFarena[65536]; size_t VFoff; }
static inline void* VFmalloc(size_t n) { void* p = VFarena + VFoff; VFoff += (n + 4095) / 4096 * 4096; return p; }
static inline void VFfree0(void*) {}
#define malloc VFmalloc
#define free VFfree0
#include "hwy/aligned_allocator.cc"
#undef malloc
#undef free
namespace hwy { size_t VectorBytes() { return HWY_LANES(uint8_t); } }
'''
P4='p:s:8:0:32:r p:o:8:0:40:w'
def instances(tg):
    r=[]; k=0
    def add(id,impl,ref,roles):
        nonlocal k
        nm=lambda c: c.replace('@',str(k))
        r.append((id,nm(impl),nm(ref),'\t'.join([id,f'i{k}',roles,f'r{k}',roles]))); k+=1
    add('Xoshiro/next','extern "C" void i@(const u64* s,u64* o){ XO x(0); x.SetState({s[0],s[1],s[2],s[3]}); o[4]=x(); auto q=x.GetState(); for(int i=0;i<4;i++) o[i]=q[i]; }','extern "C" void r@(const u64* s,u64* o){ u64 t[4]={s[0],s[1],s[2],s[3]}; o[4]=rnext(t); for(int i=0;i<4;i++) o[i]=t[i]; }',P4)
    add('Xoshiro/seed','extern "C" void i@(const u64* s,u64* o){ XO x(s[0]); auto q=x.GetState(); for(int i=0;i<4;i++) o[i]=q[i]; o[4]=0; }','extern "C" void r@(const u64* s,u64* o){ u64 t[4]; rseed(t,s[0]); for(int i=0;i<4;i++) o[i]=t[i]; o[4]=0; }',P4)
    add('Xoshiro/next3','extern "C" void i@(const u64* s,u64* o){ XO x(0); x.SetState({s[0],s[1],s[2],s[3]}); x(); x(); x(); auto q=x.GetState(); for(int i=0;i<4;i++) o[i]=q[i]; o[4]=0; }','extern "C" void r@(const u64* s,u64* o){ u64 t[4]={s[0],s[1],s[2],s[3]}; rnext(t); rnext(t); rnext(t); for(int i=0;i<4;i++) o[i]=t[i]; o[4]=0; }',P4)
    if tg in('SSE4','SCALAR'):
        for nm,c in(('Jump','0x180ec6d33cfd0abaull,0xd5a61266f0c9392cull,0xa9582618e03fc9aaull,0x39abdc4529b1661cull'),('LongJump','0x76e15d3efefdcbbfull,0xc5004e441c522fb3ull,0x77710069854ee241ull,0x39109bb02acbe635ull')):
            for w in range(4):
                ini=','.join(f's[{i}]' if i==w else '0' for i in range(4))
                add(f'Xoshiro/{nm}/state word {w} symbolic',f'extern "C" void i@(const u64* s,u64* o){{ XO x(0); x.SetState({{{ini}}}); x.{nm}(); auto q=x.GetState(); for(int i=0;i<4;i++) o[i]=q[i]; o[4]=0; }}',f'extern "C" void r@(const u64* s,u64* o){{ u64 t[4]={{{ini}}}; rjump(t,{c}); for(int i=0;i<4;i++) o[i]=t[i]; o[4]=0; }}',P4)
    n=opsgen.maxlanes(tg,'u64')
    V=f'hn::Vec<hn::ScalableTag<u64>>'
    vs=8*max(n,1) if tg=='SCALAR' else max(16,8*n)
    roles=' '.join(f'v:{x}:8:{n}:{vs}' for x in'abcd')+' '+' '.join(f'o:{x}:8:{n}:{vs}' for x in('o0','o1','o2','o3','r'))
    rroles=' '.join(f'v:{x}:8:{n}:{8*n}' for x in'abcd')+' '+' '.join(f'o:{x}:8:{n}:{8*n}' for x in('o0','o1','o2','o3','r'))
    ip=', '.join([f'const {V}* {x}' for x in'abcd']+[f'{V}* {x}' for x in('o0','o1','o2','o3','r')])
    rp=', '.join([f'const u64* {x}' for x in'abcd']+[f'u64* {x}' for x in('o0','o1','o2','o3','r')])
    r.append(('VectorXoshiro/Update',f'extern "C" void i{k}({ip}) {{ auto s0=*a,s1=*b,s2=*c,s3=*d; *r=hn::VectorXoshiro::Update(s0,s1,s2,s3); *o0=s0; *o1=s1; *o2=s2; *o3=s3; }}',f'extern "C" void r{k}({rp}) {{ FOR(i,{n}) {{ u64 t[4]={{a[i],b[i],c[i],d[i]}}; r[i]=rnext(t); o0[i]=t[0]; o1[i]=t[1]; o2[i]=t[2]; o3[i]=t[3]; }} }}','\t'.join(['VectorXoshiro/Update',f'i{k}',roles,f'r{k}',rroles]))); k+=1
    # whole generator: every way to draw numbers advances each lane by the number of vectors drawn and leaves the reached state behind
    L=n
    def gen(id,calls,steps,outs):
        # calls: C++ on x writing o[0..outs); then the state
        nonlocal k
        ini=f'VX x(1); if(x.streams!={L}) return; for(int j=0;j<4;j++) for(int i=0;i<{L};i++) x.state_[{{(size_t)j}}][i]=s[j*{L}+i];'
        W=outs+4*L
        imp=f'extern "C" void i{k}(const u64* s,u64* o){{ {ini} {calls} for(int j=0;j<4;j++) for(int i=0;i<{L};i++) o[{outs}+j*{L}+i]=x.state_[{{(size_t)j}}][i]; }}'
        ref=f'extern "C" void r{k}(const u64* s,u64* o){{ u64 t[{L}][4]; FOR(i,{L}) FOR(j,4) t[i][j]=s[j*{L}+i]; {steps} FOR(j,4) FOR(i,{L}) o[{outs}+j*{L}+i]=t[i][j]; }}'
        ro=f'p:s:8:0:{32*L}:r p:o:8:0:{8*W}:w'
        r.append((id,imp,ref,'\t'.join([id,f'i{k}',ro,f'r{k}',ro]))); k+=1
    def seq(cnt,at,out=True): return f'FOR(v,{(cnt+L-1)//L}) FOR(i,{L}) {{ u64 w=rnext(t[i]); if(v*{L}+i<{cnt}) '+(f'o[{at}+v*{L}+i]=w;' if out else '(void)w;')+' }'
    for cnt in sorted({1,L,L+1,2*L+1}):
        gen(f'VectorXoshiro/array<{cnt}>',f'auto a=x.template operator()<{cnt}>(); for(int i=0;i<{cnt};i++) o[i]=a[i];',seq(cnt,0),cnt)
        gen(f'VectorXoshiro/vector({cnt})',f'auto a=x({cnt}); for(int i=0;i<{cnt};i++) o[i]=a[i];',seq(cnt,0),cnt)
        gen(f'VectorXoshiro/Uniform array<{cnt}>/state',f'auto a=x.template Uniform<{cnt}>(); (void)a;',seq(cnt,0,False),0)
        gen(f'VectorXoshiro/Uniform vector({cnt})/state',f'auto a=x.Uniform({cnt}); (void)a;',seq(cnt,0,False),0)
    gen('VectorXoshiro/two calls',f'auto v=x(); hn::StoreU(v,hn::ScalableTag<u64>(),o); auto w=x(); hn::StoreU(w,hn::ScalableTag<u64>(),o+{L});',seq(2*L,0),2*L)
    gen('VectorXoshiro/Uniform/state',f'(void)x.Uniform();',seq(L,0,False),0)
    return r
def m():
    a=args(lambda ap:(ap.add_argument('--targets',default=''),ap.add_argument('--dump',default='')))
    build_tools(); os.environ['BITFLOW_GLOBAL_INIT']='1'; os.environ['BITFLOW_ADDR']='1'; sc=a.dump or scratch('xo'); os.makedirs(sc,exist_ok=True)
    ops_main.CXX+=['-fno-access-control','-mllvm','-inline-threshold=1000000']
    tgs=a.targets.split(',') if a.targets else list(opsgen.TARGETS)
    rs=ops_main.run_custom(sc,{t:instances(t) for t in tgs},PRE+INC,chunk=7)
    st=Counter(r['status'] for r in rs); vio=[]
    for r in rs:
        if a.dump and (r['status']!='done' or r['undecided']): print(r['target'],r['id'],r['status'],r['detail'][:300],r['undecided'],r.get('undec_why','')[:300])
        for k in('mem','mismatch','cross','garbage'):
            for x in r[k]:
                if not x.startswith('?'): vio.append(dict(key=f"{r['target']}:{r['id']}",where=r['loc'],what=f'{k}: {x}')); break
    if st['done']<0.8*len(rs): raise Broken(f'only {st["done"]}/{len(rs)} analysed: '+str([(r['target'],r['id'],r['detail'][:80]) for r in rs if r['status']!='done'][:5]))
    cov=dict(explanation='Canonical bit functions (value numbering over IR) of the state transition, output, seeding and jump maps compared with the published xoshiro256++ definition; per lane for the vector generator.',functions_analysed=st['done'],functions_total=len(rs),output_words=sum(r['lanes'] for r in rs),words_proven=sum(r['proven'] for r in rs),words_undecided=sum(r['undecided'] for r in rs),targets=tgs,not_analysed=[f"{r['target']}:{r['id']}: {r['detail'][:60]}" for r in rs if r['status']!='done'],
      rule='every output word has the value number of the published recurrence; jump maps compared on each of the four 64-dimensional coordinate subspaces of the GF(2) state space')
    finish('C05',a.tier,'other',cov,vio,['jump maps are GF(2)-linear compositions, so agreement on the coordinate subspaces is agreement everywhere'])
main(m)
