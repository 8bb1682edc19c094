#!/usr/bin/env python3
"""R04: BitSet64 / BitSet4096: each operation is the set operation, and it preserves the summary invariant."""
from bfcheck import *
INC='''#include "hwy/bit_set.h"
using u64=uint64_t;
#define NOUN _Pragma("clang loop unroll(disable)")
'''
def insts(tier):
    I=Inst()
    P='p:p:8:0:8:r p:q:8:0:64:w s:i:64:6'
    B=lambda body: f'extern "C" void i@(const u64* p,u64* q,size_t i) {{ hwy::BitSet64 b; b.SetNonzeroBitsFrom64(p[0]); {body} }}'
    R=lambda body: f'extern "C" void r@(const u64* p,u64* q,size_t i) {{ u64 v=p[0]; {body} }}'
    I.add('BitSet64/Set',B('b.Set(i); q[0]=b.Get64();'),R('NOUN for(int k=0;k<64;k++) if((size_t)k==i) v|=1ull<<k; q[0]=v;'),P)
    I.add('BitSet64/Clear',B('b.Clear(i); q[0]=b.Get64();'),R('NOUN for(int k=0;k<64;k++) if((size_t)k==i) v&=~(1ull<<k); q[0]=v;'),P)
    I.add('BitSet64/Get',B('q[0]=b.Get(i);'),R('u64 x=0; NOUN for(int k=0;k<64;k++) if((size_t)k==i) x=v>>k&1; q[0]=x;'),P)
    I.add('BitSet64/Get64,SetNonzeroBitsFrom64',B('b.SetNonzeroBitsFrom64(i); q[0]=b.Get64();'),R('q[0]=v|i;'),P)
    I.add('BitSet64/Any',B('q[0]=b.Any();'),R('q[0]=v!=0;'),P)
    I.add('BitSet64/First',B('q[0]=b.Any()?b.First():64;'),R('u64 x=64; NOUN for(int k=63;k>=0;k--) if(v>>k&1) x=(u64)k; q[0]=x;'),P)
    I.add('BitSet64/Count',B('q[0]=b.Count();'),R('q[0]=(u64)__builtin_popcountll(v);'),P)
    I.add('BitSet64/default-empty',f'extern "C" void i@(const u64* p,u64* q,size_t i) {{ hwy::BitSet64 b; q[0]=b.Get64(); }}',R('q[0]=0;'),P)
    # Foreach: the sequence of visited members, for every content of groups of bits at representative positions
    masks=['0xFFull','0xFF00000000000000ull','0x8000000300000005ull','0x0001800180018001ull'] if tier=='quick' else ['0xFFFull','0xFFF0000000000000ull','0x8000000300000005ull','0x0101010101010101ull','0x00000FFF00000000ull','0x8421084210842108ull']
    for m in masks:
        I.add(f'BitSet64/Foreach/{m}',B(f'hwy::BitSet64 c; c.SetNonzeroBitsFrom64(p[0]&{m}); size_t k=0; c.Foreach([&](size_t x){{ if(k<8) q[k++]=x; }}); for(;k<8;k++) q[k]=99;'),
          R(f'v&={m}; for(int k=0;k<8;k++) q[k]=99; size_t k=0; for(int x=0;x<64;x++) if(v>>x&1) {{ if(k<8) q[k]=(u64)x; k++; }}'),P)
    for N in ([128,256,4096] if tier=='quick' else [64,128,192,256,512,4096]):
        W=N//64; lg=(N-1).bit_length()
        # state: words p[0..W) arbitrary, summary derived from them (the class invariant), loaded through private members
        PP=f'p:p:8:0:{8*W}:r p:q:8:0:{8*(W+1)}:w s:i:64:{lg} s:x:64'
        L=f'hwy::BitSet4096<{N}> b; for(int w=0;w<{W};w++) {{ b.bits_[w].bits_=p[w]; if(p[w]) b.nonzero_.bits_|=1ull<<w; }}'
        G=f'for(int w=0;w<{W};w++) q[w]=b.bits_[w].bits_; q[{W}]=b.nonzero_.bits_;'
        sig=f'(const u64* p,u64* q,size_t i,u64 x)'
        g=f'if(i>={N}) i={N-1};'
        B4=lambda body,get=True: f'extern "C" void i@{sig} {{ {L} {g if N&(N-1) else ""} {body} {G if get else ""} }}'
        E=f'for(int w=0;w<{W};w++) q[w]=v[w]; u64 nz=0; for(int w=0;w<{W};w++) if(v[w]) nz|=1ull<<w; q[{W}]=nz;'
        R4=lambda body,get=True: f'extern "C" void r@{sig} {{ u64 v[{W}]; for(int w=0;w<{W};w++) v[w]=p[w]; {g if N&(N-1) else ""} {body} {E if get else ""} }}'
        b=f'BitSet4096<{N}>'
        I.add(b+'/Set+invariant',B4('b.Set(i);'),R4(f'NOUN for(int k=0;k<{N};k++) if((size_t)k==i) v[k/64]|=1ull<<(k%64);'),PP)
        I.add(b+'/Clear+invariant',B4('b.Clear(i);'),R4(f'NOUN for(int k=0;k<{N};k++) if((size_t)k==i) v[k/64]&=~(1ull<<(k%64));'),PP)
        I.add(b+'/SetNonzeroBitsFrom64+invariant',B4('b.SetNonzeroBitsFrom64(x);'),R4('v[0]|=x;'),PP)
        one=f'p:p:8:0:{8*W}:r p:q:8:0:8:w s:i:64:{lg} s:x:64'
        I.add(b+'/Get',B4('q[0]=b.Get(i);',0),R4(f'u64 y=0; NOUN for(int k=0;k<{N};k++) if((size_t)k==i) y=v[k/64]>>(k%64)&1; q[0]=y;',0),one)
        I.add(b+'/Get64',B4('q[0]=b.Get64();',0),R4('q[0]=v[0];',0),one)
        I.add(b+'/Any',B4('q[0]=b.Any();',0),R4(f'u64 y=0; for(int w=0;w<{W};w++) y|=v[w]; q[0]=y!=0;',0),one)
        I.add(b+'/First',B4(f'q[0]=b.Any()?b.First():{N};',0),R4(f'u64 y={N}; NOUN for(int k={N-1};k>=0;k--) if(v[k/64]>>(k%64)&1) y=(u64)k; q[0]=y;',0),one)
        # whole-set operations: contents restricted to a few members per word, every subset of them
        mk=['0x8000000000000003ull','0x0000000180000000ull','0x8000000000000001ull','0x0000100000000000ull','0x1ull','0x2ull','0x4ull','0x8ull'][:W]
        if N==4096: mk=[{0:'3ull',1:'0x8000000000000000ull',31:'0x0000000180000000ull',32:'1ull',62:'0x8000ull',63:'0x8000000000000001ull'}.get(w,'0') for w in range(64)]
        msk='const u64 M[]={'+','.join(mk)+'};'
        LM=L.replace('p[w]','(p[w]&M[w])')
        I.add(b+'/Count',f'extern "C" void i@{sig} {{ {msk} {LM} q[0]=b.Count(); }}',f'extern "C" void r@{sig} {{ {msk} u64 y=0; for(int w=0;w<{W};w++) y+=(u64)__builtin_popcountll(p[w]&M[w]); q[0]=y; }}',one)
        I.add(b+'/Foreach',f'extern "C" void i@{sig} {{ {msk} {LM} size_t k=0; b.Foreach([&](size_t y){{ if(k<8) q[k++]=y; }}); for(;k<8;k++) q[k]=9999; }}',
          f'extern "C" void r@{sig} {{ {msk} for(int k=0;k<8;k++) q[k]=9999; size_t k=0; for(int y=0;y<{N};y++) if((p[y/64]&M[y/64])>>(y%64)&1) {{ if(k<8) q[k]=(u64)y; k++; }} }}',f'p:p:8:0:{8*W}:r p:q:8:0:64:w s:i:64:{lg} s:x:64')
        I.add(b+'/default-empty',f'extern "C" void i@{sig} {{ hwy::BitSet4096<{N}> b; {G} }}',f'extern "C" void r@{sig} {{ for(int w=0;w<={W};w++) q[w]=0; }}',PP)
    # histories through the public interface only
    for N in (128,4096):
        lg=(N-1).bit_length(); sg='(const u64* p,u64* q,size_t i,size_t j,size_t k)'; PH=f'p:p:8:0:8:r p:q:8:0:8:w s:i:64:{lg} s:j:64:{lg} s:k:64:{lg}'
        for ops in ('Si Ck','Si Ci Sj','Z Ck') if N>1000 else ('Si Sj','Si Ck','Si Sj Ck','Si Ci Sj','Z Ck'):
            im=''.join({'S':f'b.Set({o[1:]});','C':f'b.Clear({o[1:]});','Z':'b.SetNonzeroBitsFrom64(p[0]&0x8000000000000003ull);'}[o[0]] for o in ops.split())
            member=lambda e: f'[&](size_t e){{ bool m=false; '+''.join({'S':f'if(e=={o[1:]}) m=true;','C':f'if(e=={o[1:]}) m=false;','Z':'if(e<64 && ((p[0]&0x8000000000000003ull)>>e&1)) m=true;'}[o[0]] for o in ops.split())+'return m; }'
            cand=sorted({o[1:] for o in ops.split() if o[1:]})+(['(size_t)0','(size_t)1','(size_t)63'] if 'Z' in ops else [])
            Rm='auto M='+member(0)+';'
            fst=f'size_t best={N}; '+''.join(f'if(M({c}) && {c}<best) best={c};' for c in cand)
            cnt='size_t c=0; '+''.join(f'if(M({c}){"".join(f" && {c}!={d}" for d in cand[:x])}) c++;' for x,c in enumerate(cand))
            H=lambda body: f'extern "C" void i@{sg} {{ hwy::BitSet4096<{N}> b; {im} {body} }}'
            h=f'BitSet4096<{N}>/history[{ops}]/'
            I.add(h+'First',H(f'q[0]=b.Any()?b.First():{N};'),f'extern "C" void r@{sg} {{ {Rm} {fst} q[0]=best; }}',PH)
            I.add(h+'Count',H('q[0]=b.Count();'),f'extern "C" void r@{sg} {{ {Rm} {cnt} q[0]=c; }}',PH)
            I.add(h+'Get',H('q[0]=b.Get(p[0]%'+str(N)+');'),f'extern "C" void r@{sg} {{ {Rm} q[0]=M(p[0]%{N}); }}',PH)
    return I.r
def m():
    a=std_args(); tgs=a.targets.split(',') if a.targets else ['SCALAR','AVX2'] if a.tier=='quick' else list(opsgen.TARGETS)
    cov=dict(explanation='Each operation, started from an arbitrary content with the summary invariant holding (an induction step over histories), is canonicalised to bit functions of content, index and argument and compared with the set operation; the resulting summary must again be (word != 0) per word. Foreach loops are iterated until their exit condition is constant.',
      rule='post-state and result equal the set operation; summary bit w <=> word w non-zero; no access outside the object',targets=tgs,
      domain='BitSet64 and BitSet4096<64..512>: every content and index for single operations; Foreach/Count over every subset of representative members')
    run('R04',a,{t:insts(a.tier) for t in tgs},INC,cov,cxx=['-fno-access-control','-fno-unroll-loops','-mllvm','-inline-threshold=1000000'],chunk=12,minok=0.3,assume=['BitSet4096 sizes above 512 instantiate the same templates'])
main(m)
