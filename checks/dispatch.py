#!/usr/bin/env python3
"""D02/D04: dynamic dispatch and the supported-target mask, after every short history of configuration calls.
The library's own targets.cc and the dispatch tables built by HWY_EXPORT are evaluated symbolically: every CPUID/XCR0/hwcap word and
every argument of DisableTargets/SetSupportedTargetsForTest is free."""
from bfx import *
import itertools
SIMD={'x86':['AVX10_2_512','AVX3_SPR','AVX10_2','AVX3_ZEN4','AVX3_DL','AVX3','AVX2','SSE4','SSSE3','SSE2'],'arm':['SVE2_128','SVE_256','SVE2','SVE','NEON_BF16','NEON','NEON_WITHOUT_AES'],'ppc':['PPC10','PPC9','PPC8'],'s390x':['Z15','Z14'],'rvv':['RVV'],'lsx':['LASX','LSX']}
PRO='''#undef HWY_TARGET_INCLUDE
#define HWY_TARGET_INCLUDE "%(self)s"
#include "hwy/foreach_target.h"
#include "hwy/highway.h"
HWY_BEFORE_NAMESPACE();
namespace vf { namespace HWY_NAMESPACE {
uint64_t VFprobeF(uint64_t x);
uint64_t VFprobeG(uint64_t x);
template <typename T> uint64_t VFprobeT(T x);
} }
HWY_AFTER_NAMESPACE();
#if HWY_ONCE
#undef HWY_WARN
#define HWY_WARN(...) do {} while (0)
#include "hwy/targets.cc"
namespace vf {
HWY_EXPORT(VFprobeF);
HWY_EXPORT(VFprobeG);
template <typename T> static inline uint64_t CallT(T x) { HWY_EXPORT_T(VFTab, VFprobeT<T>); return HWY_DYNAMIC_DISPATCH_T(VFTab)(x); }
template <typename T> static inline uint64_t CallT2(T x) { HWY_EXPORT_AND_DYNAMIC_DISPATCH_T(VFprobeT<T>)(x); return 0; }
%(oracle)s
}
static inline void VFset(uint64_t t) { hwy::SetSupportedTargetsForTest((int64_t)t); }
static inline void VFdis(uint64_t t) { hwy::DisableTargets((int64_t)t); }
// chosen targets without the always-present last entry
static inline uint64_t VFbits(uint64_t m) { return m & ~(uint64_t)HWY_CHOSEN_TARGET_MASK_SCALAR & ~uint64_t{1}; }
static inline uint64_t VFmask() { return VFbits((uint64_t)hwy::GetChosenTarget().LoadMask()); }
static inline uint64_t VFwant(uint64_t t) { return VFbits((uint64_t)HWY_CHOSEN_TARGET_SHIFT(t)); }
static inline uint64_t VFsup() { return (uint64_t)hwy::SupportedTargets(); }
'''
def oracle(simd):
    """best target = first of the documented order (best first) that is supported and compiled; else the fallback"""
    out=[]
    for f,args in (('VFprobeF','uint64_t x'),('VFprobeG','uint64_t x')):
        s=f'static inline uint64_t Want_{f}(uint64_t sup, {args}) {{\n'
        for t in simd: s+=f'#if (HWY_TARGETS) & HWY_{t}\n  if (sup & (uint64_t)HWY_{t}) return N_{t}::{f}(x);\n#endif\n'
        s+=f'#if (HWY_TARGETS) & HWY_EMU128\n  return N_EMU128::{f}(x);\n#elif (HWY_TARGETS) & HWY_SCALAR\n  return N_SCALAR::{f}(x);\n#else\n  return HWY_STATIC_DISPATCH({f})(x);\n#endif\n}}\n'
        out.append(s)
    s='template <typename T> static inline uint64_t Want_T(uint64_t sup, T x) {\n'
    for t in simd: s+=f'#if (HWY_TARGETS) & HWY_{t}\n  if (sup & (uint64_t)HWY_{t}) return N_{t}::VFprobeT<T>(x);\n#endif\n'
    s+='#if (HWY_TARGETS) & HWY_EMU128\n  return N_EMU128::VFprobeT<T>(x);\n#elif (HWY_TARGETS) & HWY_SCALAR\n  return N_SCALAR::VFprobeT<T>(x);\n#else\n  return HWY_STATIC_DISPATCH(VFprobeT<T>)(x);\n#endif\n}\n'
    return '\n'.join(out+[s])
STEP={'S':'VFset({});','D':'VFdis({});','Q':'(void)VFsup();','C':'(void)HWY_DYNAMIC_DISPATCH(VFprobeG)(x);','Z':'VFset(0);'}
def history(h):
    """C++ text of a history; symbolic arguments a, b, c in order of use"""
    k=iter('abc'); s=''
    for o in h: s+=' '+(STEP[o].format(next(k)) if o in 'SD' else STEP[o])
    return s
def model(h):
    """the documented state: t = last test override, d = last disabled set"""
    k=iter('abc'); t='0'; d='0'
    for o in h:
        if o=='S': t=next(k)
        elif o=='Z': t='0'
        elif o=='D': d=next(k)
    return t,d
ARGS='uint64_t a, uint64_t b, uint64_t c, uint64_t x'
ROLES='p:q:8:0:8:w s:a:64:63 s:b:64:63 s:c:64:63 s:x:64'
def histories(n,ops): return [''.join(h) for k in range(n+1) for h in itertools.product(ops,repeat=k) if sum(o in 'SD' for o in h)<=3]
def d02(I,n,single):
    # the four documented ways to call; histories end with the call
    for h in histories(n,'SDQC'):
        forms=[('dispatch','HWY_DYNAMIC_DISPATCH(VFprobeF)(x)','Want_VFprobeF')]
        if len(h)<=1: forms+=[('pointer','(*HWY_DYNAMIC_POINTER(VFprobeF))(x)','Want_VFprobeF'),('twice','(HWY_DYNAMIC_DISPATCH(VFprobeF)(x), HWY_DYNAMIC_DISPATCH(VFprobeF)(x))','Want_VFprobeF'),('table_t','vf::CallT<uint64_t>(x)','Want_T<uint64_t>'),('table_t32','vf::CallT<uint32_t>((uint32_t)x)','Want_T<uint32_t>')]
        for name,e,w in forms:
            wa='(uint32_t)x' if name=='table_t32' else 'x'
            # the expected function is computed from the set the library itself reports after the same history
            sup='1' if single else 'VFsup()'
            I.add(f'{name}/{h or "-"}',f'namespace vf {{ extern "C" void i@(uint64_t* q, {ARGS}) {{{history(h)} q[0]={e}; }} }}',f'namespace vf {{ extern "C" void r@(uint64_t* q, {ARGS}) {{{history(h)} q[0]={w}({sup},{wa}); }} }}',ROLES)
def d04(I,n):
    for h in histories(n,'SDQCZ'):
        t,d=model(h)
        # base set: what detection reports before anything was configured
        I.add(f'supported/{h or "-"}',f'namespace vf {{ extern "C" void i@(uint64_t* q, {ARGS}) {{{history(h)} q[0]=VFsup(); }} }}',
         f'namespace vf {{ extern "C" void r@(uint64_t* q, {ARGS}) {{ uint64_t det=VFsup(); uint64_t s=({t} ? {t} : det) & ~({d}); q[0]=s ? s : (uint64_t)HWY_STATIC_TARGET; }} }}',ROLES)
        # the set remembered for dispatching, however it was reached, is part of the reported one: nothing disabled, nothing undetected
        for how,e in (('',''),('dispatch','(void)HWY_DYNAMIC_DISPATCH(VFprobeF)(x);'),('query','(void)VFsup();'),('query, dispatch','(void)VFsup(); (void)HWY_DYNAMIC_DISPATCH(VFprobeF)(x);')):
            I.add(f'chosen/{how}/{h or "-"}',f'namespace vf {{ extern "C" void i@(uint64_t* q, {ARGS}) {{{history(h)} {e} const uint64_t m=VFmask(); q[0]=m & ~VFwant(VFsup()); }} }}',
             f'namespace vf {{ extern "C" void r@(uint64_t* q, {ARGS}) {{ q[0]=0; }} }}',ROLES)
    I.add('baseline present',f'namespace vf {{ extern "C" void i@(uint64_t* q, {ARGS}) {{ uint64_t s=VFsup(); q[0]=(s & (uint64_t)(HWY_SCALAR|HWY_EMU128)); }} }}',f'namespace vf {{ extern "C" void r@(uint64_t* q, {ARGS}) {{ q[0]=(uint64_t)(HWY_SCALAR|HWY_EMU128); }} }}',ROLES)
    I.add('never empty',f'namespace vf {{ extern "C" void i@(uint64_t* q, {ARGS}) {{ VFset(a); VFdis(b); q[0]=VFsup()==0; }} }}',f'namespace vf {{ extern "C" void r@(uint64_t* q, {ARGS}) {{ q[0]=0; }} }}',ROLES)
def m():
    a=std_args(); sc=a.dump or scratch('dp'); os.makedirs(sc,exist_ok=True); build_tools(); os.environ['BITFLOW_ADDR']='1'
    full=['-mavx2','-mbmi','-mbmi2','-mfma','-mf16c','-mlzcnt','-mpclmul','-maes']
    X='x86'; cf={'default':(X,[]),'test':(X,['-DHWY_COMPILE_ALL_ATTAINABLE']),'avx2':(X,full),'no-avx2-sse4':(X,['-DHWY_DISABLED_TARGETS=(HWY_AVX2|HWY_SSE4)','-DHWY_COMPILE_ALL_ATTAINABLE']),'emu128-no-simd-baseline':(X,['-DHWY_BASELINE_TARGETS=HWY_EMU128','-DHWY_COMPILE_ALL_ATTAINABLE'])}
    if a.prop=='D02': cf.update({'map':(X,['-std=c++14']),'static':(X,['-DHWY_COMPILE_ONLY_STATIC']),'scalar':(X,['-DHWY_COMPILE_ONLY_SCALAR'])})
    if a.tier!='quick': cf.update({'emu128':(X,['-DHWY_COMPILE_ONLY_EMU128']),'no-sse':(X,['-DHWY_DISABLED_TARGETS=(HWY_SSSE3|HWY_SSE4|HWY_AVX3)']),'avx3':(X,full+['-mavx512f','-mavx512vl','-mavx512bw','-mavx512dq','-mavx512cd'])})
    cross=[('aarch64','aarch64-linux-gnu','arm',['-DHWCAP_AES=8','-DHWCAP_ASIMDHP=1024','-DHWCAP_ASIMDDP=1048576','-DHWCAP2_BF16=16384','-DHWCAP_SVE=4194304']),('ppc64le','powerpc64le-linux-gnu','ppc',['-mcpu=power8']),('s390x','s390x-linux-gnu','s390x',['-march=z14','-mzvector'])]
    for n,tri,ar,fl in cross: cf[n]=(ar,cross_flags(sc,tri)+fl)
    jobs=[]
    for name,(ar,fl) in cf.items():
        I=Inst(); single=name in('static','scalar','emu128')
        n=2 if a.tier=='quick' else 3
        d02(I,n,single) if a.prop=='D02' else d04(I,n)
        jobs.append((name,ar,fl,I))
    def one(j):
        name,ar,fl,I=j; base=f'{sc}/{a.prop}_{re.sub(chr(92)+"W","_",name)}'
        src=base+'_0.cc'
        return analyse(sc,os.path.basename(base),PRO%dict(self=src,oracle=oracle(SIMD[ar])),I,['-fno-threadsafe-statics']+fl,per=10000,end='#endif')
    with ThreadPoolExecutor(8) as ex: rs=sum(ex.map(one,jobs),[])
    if a.dump: show(rs)
    if not violations(rs): need_done(rs)
    und=[r for r in rs if r['undecided']]
    if und and not violations(rs): raise Broken('undecided: '+und[0]['id']+' '+und[0]['undec_why'][:300])
    cov=dict(summary(rs),explanation='Each obligation is one history of DisableTargets / SetSupportedTargetsForTest / SupportedTargets / first dispatch calls with arbitrary 64-bit arguments and arbitrary detection results, followed by a dispatched call or a query; the called function (or set) is computed exactly, through the real dispatch tables.',configurations=[c for c in cf],
      rule=('the function called is the one compiled for the best target in SupportedTargets() & HWY_TARGETS, or the fallback' if a.prop=='D02' else 'SupportedTargets() == (override ? override : detected) & ~disabled, or the static target if that is empty; the targets remembered for dispatching are among those; detection always contains the portable targets'))
    v=violations(rs)
    for x in v: x['what']=x['what']+' - function numbers are positions in the module' if a.prop=='D02' else x['what']
    finish(a.prop,a.tier,'proof',cov,v,['clang front end and optimiser preserve the source semantics','histories up to 2 (thorough: 3) configuration calls; the library state after any longer history is the same pair (override, disabled set)'])
main(m)
