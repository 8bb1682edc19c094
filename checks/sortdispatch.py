#!/usr/bin/env python3
"""C08: public sort entry points reach the implementation for their key type, order and kind of operation, in keys rather than lanes.
(1) the library's vqsort*.cc and targets.cc are compiled against a recording stand-in for the static entry points (VQSortStatic,
    VQPartialSortStatic, VQSelectStatic), linked, and every public entry point is evaluated through the real dispatch tables for every
    detection result; (2) the static entry points of vqsort-inl.h are evaluated for every key type, order and count against recording
    overloads of Sort/PartialSort/Select, and on every two-key input drawn from type-distinguishing values against the real Sort."""
from bfx import *
import glob, bfcheck
KEYS=[('u16','uint16_t'),('u32','uint32_t'),('u64','uint64_t'),('i16','int16_t'),('i32','int32_t'),('i64','int64_t'),('f16','float16_t'),('f32','float'),('f64','double'),('u128','uint128_t'),('kv128','K64V64'),('kv64','K32V32')]
HIT='''#ifndef VFHIT_H
#define VFHIT_H
#include <stddef.h>
#include <stdint.h>
#include "hwy/base.h"
extern "C" { extern uint64_t VFcalls, VFtarget, VFkind, VFkey, VFasc, VFptr, VFnum, VFk; }
template <class K> struct VFid { static constexpr uint64_t v = 99; };
'''+''.join(f'template <> struct VFid<hwy::{t}> {{ static constexpr uint64_t v = {k}; }};\n' if t in('float16_t','uint128_t','K64V64','K32V32') else f'template <> struct VFid<{t}> {{ static constexpr uint64_t v = {k}; }};\n' for k,(n,t) in enumerate(KEYS))+'''
static inline __attribute__((always_inline)) void VFhit(uint64_t target, uint64_t kind, uint64_t key, uint64_t asc, const void* p, uint64_t n, uint64_t k) { VFcalls++; VFtarget = target; VFkind = kind; VFkey = key; VFasc = asc; VFptr = (uint64_t)p; VFnum = n; VFk = k; }
#endif
'''
STUB='''#include "vfhit.h"
#if defined(VF_STUB_TOGGLE) == defined(HWY_TARGET_TOGGLE)
#ifdef VF_STUB_TOGGLE
#undef VF_STUB_TOGGLE
#else
#define VF_STUB_TOGGLE
#endif
#include "hwy/contrib/sort/order.h"
#include "hwy/highway.h"
// every key type is dispatched the same way, whether or not this compiler has float16 vectors
#undef HWY_HAVE_FLOAT16
#define HWY_HAVE_FLOAT16 1
namespace hwy { namespace detail { static inline uint64_t* GetGeneratorStateStatic() { static uint64_t s[3]; return s; } } }
HWY_BEFORE_NAMESPACE();
namespace hwy { namespace HWY_NAMESPACE {
template <class K, class O> void VQSortStatic(K* HWY_RESTRICT p, const size_t n, O) { VFhit((uint64_t)HWY_TARGET, 0, VFid<K>::v, O::IsAscending(), p, n, 0); }
template <class K, class O> void VQPartialSortStatic(K* HWY_RESTRICT p, const size_t n, const size_t k, O) { VFhit((uint64_t)HWY_TARGET, 1, VFid<K>::v, O::IsAscending(), p, n, k); }
template <class K, class O> void VQSelectStatic(K* HWY_RESTRICT p, const size_t n, const size_t k, O) { VFhit((uint64_t)HWY_TARGET, 2, VFid<K>::v, O::IsAscending(), p, n, k); }
} }
HWY_AFTER_NAMESPACE();
#endif
'''.replace('namespace hwy { namespace detail { static inline','#if HWY_ONCE\nnamespace hwy { namespace detail { static inline').replace('return s; } } }','return s; } } }\n#endif')
PRO='''#include "vfhit.h"
#include "hwy/targets.h"
#include "hwy/contrib/sort/vqsort.h"
#include "hwy/highway.h"
extern "C" { uint64_t VFcalls, VFtarget, VFkind, VFkey, VFasc, VFptr, VFnum, VFk; alignas(16) unsigned char VFbuf[64]; }
'''
def part1(sc,tier):
    fake=sc+'/fake'; os.makedirs(fake+'/hwy/contrib/sort',exist_ok=True)
    open(fake+'/vfhit.h','w').write(HIT); open(fake+'/hwy/contrib/sort/vqsort-inl.h','w').write(STUB)
    src=sorted(glob.glob(REPO+'/hwy/contrib/sort/vqsort*.cc'))+[REPO+'/hwy/targets.cc',REPO+'/hwy/per_target.cc']
    if len(src)<20: raise Broken(f'only {len(src)} sources')
    I=Inst(); SG='(uint64_t* q, uint64_t a, uint64_t n, uint64_t k)'; RO='p:q:8:0:8:w s:a:64:63 s:n:64 s:k:64'
    for ki,(nm,t) in enumerate(KEYS):
        T=f'hwy::{t}' if t in('float16_t','uint128_t','K64V64','K32V32') else t
        for o in ('Ascending','Descending'):
            for kd,(fn,ag) in enumerate((('VQSort','n'),('VQPartialSort','n, k'),('VQSelect','n, k'),('Sorter','n'))):
                call=f'hwy::{fn}((({T}*)VFbuf), {ag}, hwy::Sort{o}())' if fn!='Sorter' else f'hwy::Sorter()(({T}*)VFbuf, n, hwy::Sort{o}())'
                # keys that need float16 hardware support abort elsewhere: such paths do not return
                I.add(f'{fn}({nm}, {o})',f'extern "C" void i@{SG} {{ q[0]=8; hwy::SetSupportedTargetsForTest((int64_t)a); {call}; q[0]= VFcalls!=1?1: VFkind!={kd%3}?2: VFkey!={ki}?3: VFasc!={int(o=="Ascending")}?4: VFptr!=(uint64_t)VFbuf?5: VFnum!=n?6: VFk!={"k" if kd in(1,2) else "0"}?7: 0; }}',
                  f'extern "C" void r@{SG} {{ q[0]=0; }}',RO)
    cfgs=[('default',[])] if tier=='quick' else [('default',[]),('all',['-DHWY_DISABLED_TARGETS=0','-DHWY_COMPILE_ALL_ATTAINABLE']),('map',['-std=c++14'])]
    rs=[]
    for cn,fl in cfgs:
        F=OPT+['-fno-threadsafe-statics','-fno-builtin','-fno-exceptions','-I',fake]+fl
        def comp(s):
            o=f'{sc}/{cn}_{os.path.basename(s)}.bc'
            p=subprocess.run([CLANG]+F+['-I',REPO,'-c','-emit-llvm',s,'-o',o],capture_output=True,text=True)
            if p.returncode: raise Broken(f'{s} does not compile: '+p.stderr[:500])
            return o
        # the wrapper module
        w=f'{sc}/{cn}_wrap.cc'; lines=[PRO]
        for r in I.r: lines+=list(r[1:3])
        open(w,'w').write('\n'.join(lines))
        with ThreadPoolExecutor(8) as ex: bcs=list(ex.map(comp,[w]+src))
        allbc=f'{sc}/{cn}.bc'
        p=subprocess.run([os.path.realpath(shutil.which('llvm-link-18') or 'llvm-link')]+bcs+['-o',allbc],capture_output=True,text=True)
        if p.returncode: raise Broken('llvm-link: '+p.stderr[:500])
        os.environ['BITFLOW_GLOBAL_INIT']='1'; os.environ['BITFLOW_ADDR']='1'
        with ThreadPoolExecutor(8) as ex:
            parts=[I.r[k:k+12] for k in range(0,len(I.r),12)]
            rs+=sum(ex.map(lambda j: ops_main.analyse(sc,cn,allbc,j[1],str(j[0])),enumerate(parts)),[])
        del os.environ['BITFLOW_ADDR'],os.environ['BITFLOW_GLOBAL_INIT']
    return rs
# static entry points: two values A < B (in that key's order) that tell the type apart from its neighbours
def pairs():
    P={}
    def I(t,b,sg):
        m=1<<(b-1); l=[('1','2'),('1','0x100' if b>8 else '2')]; l+=[(f'({t})0x{m-1:x}',f'({t})0x{m:x}')] if not sg else [(f'({t})0x{m:x}',f'({t})0x{m-1:x}'),(f'({t})-1','0')]
        if b==64: l+=[('0xFFFFFFFFull','0x100000000ull'),('0x1000000FFull','0x200000001ull')]
        if b==32: l+=[('0xFFFF','0x10000'),('0x100FF','0x20001')]
        return l
    for n,t in KEYS:
        if n[0] in 'ui' and n!='u128': P[n]=I(t,int(n[1:]),n[0]=='i')
    P['f32']=[('-1.0f','-0.5f'),('1.0f','1.5f'),('-3.0f','2.0f'),('1E-3f','1E3f')]; P['f64']=[('-1.0','-0.5'),('1.0','1.0000000001'),('-3.0','2.0'),('1E-300','1E300')]
    V=lambda t,a,b: (f'VFmk<hwy::{t}>({a[0]},{a[1]})',f'VFmk<hwy::{t}>({b[0]},{b[1]})')
    # uint128_t {lo, hi}: both halves are compared; K64V64/K32V32 {value, key}: only the key (equal keys are not tested)
    P['u128']=[V('uint128_t',a,b) for a,b in (((1,1),(2,1)),((9,1),(1,2)),((1,'~0ull>>1'),(0,'1ull<<63')),(('~0ull>>1',5),('1ull<<63',5)))]
    P['kv128']=[V('K64V64',a,b) for a,b in (((9,1),(1,2)),((1,1),(9,2)),((1,'~0ull>>1'),(0,'1ull<<63')))]
    P['kv64']=[V('K32V32',a,b) for a,b in (((9,1),(1,2)),((1,1),(9,2)),((1,'0x7FFFFFFF'),(0,'0x80000000u')))]
    return P
INC2="""#include "hwy/contrib/sort/vqsort-inl.h"
#include "hwy/contrib/sort/vqsort.h"
#include <type_traits>
#include <string.h>
extern "C" { uint64_t VFcalls, VFkind, VFlane, VFptr, VFnum, VFk, VFreal; uint8_t VFbuf[64]; }
template <class K> static inline K VFmk(uint64_t a, uint64_t b) { K r; memset(&r, 0, sizeof r); if (sizeof(K) == 16) { memcpy(&r, &a, 8); memcpy((char*)&r + 8, &b, 8); } else { uint32_t x = (uint32_t)a, y = (uint32_t)b; memcpy(&r, &x, 4); memcpy((char*)&r + 4, &y, 4); } return r; }
namespace hwy { namespace HWY_NAMESPACE {
template <class T> static inline uint64_t VFlid() { return sizeof(T) * 4 + (std::is_floating_point<T>::value ? 2 : std::is_signed<T>::value ? 1 : 0); }
template <class T> static inline void VFhit2(uint64_t kind, const T* p, size_t n, size_t k) { VFcalls++; VFkind = kind; VFlane = VFlid<T>(); VFptr = (uint64_t)(p == (const T*)VFbuf); VFnum = n; VFk = k; }
// more specialised than the library's templates, hence selected by its static entry points
template <class T, size_t N, int P, class Tr> void Sort(Simd<T, N, P> d, Tr st, T* HWY_RESTRICT p, const size_t n) { VFhit2(0, p, n, 0); if (VFreal) { HWY_ALIGN T buf[SortConstants::BufBytes<T, Tr().LanesPerKey()>(HWY_MAX_BYTES) / sizeof(T)]; Sort(d, st, p, n, buf); } }
template <class T, size_t N, int P, class Tr> void PartialSort(Simd<T, N, P> d, Tr st, T* HWY_RESTRICT p, const size_t n, const size_t k) { VFhit2(1, p, n, k); if (VFreal) { HWY_ALIGN T buf[SortConstants::BufBytes<T, Tr().LanesPerKey()>(HWY_MAX_BYTES) / sizeof(T)]; PartialSort(d, st, p, n, k, buf); } }
template <class T, size_t N, int P, class Tr> void Select(Simd<T, N, P> d, Tr st, T* HWY_RESTRICT p, const size_t n, const size_t k) { VFhit2(2, p, n, k); if (VFreal) { HWY_ALIGN T buf[SortConstants::BufBytes<T, Tr().LanesPerKey()>(HWY_MAX_BYTES) / sizeof(T)]; Select(d, st, p, n, k, buf); } }
} }
"""
LANE={'u16':8,'u32':16,'u64':32,'i16':9,'i32':17,'i64':33,'f32':18,'f64':34,'u128':32,'kv128':32,'kv64':32}
def part2(sc,tier,tgs):
    per={}; PP=pairs()
    for tg in tgs:
        I=Inst()
        for nm,t in KEYS:
            if nm=='f16' or (tg=='SCALAR' and nm in('u128','kv128')): continue
            T=f'hwy::{t}' if nm in('u128','kv128','kv64') else t; lpk=2 if nm in('u128','kv128') else 1
            for o in ('Ascending','Descending'):
                for kd,(fn,ag,k) in enumerate((('VQSortStatic','n','0'),('VQPartialSortStatic','n, k','k'),('VQSelectStatic','n, k','k'))):
                    I.add(f'{fn}({nm}, {o})/arguments',f'extern "C" void i@(uint64_t* q, uint64_t n, uint64_t k) {{ VFcalls=0; VFreal=0; hn::{fn}(({T}*)VFbuf, {ag}, hwy::Sort{o}()); q[0]= VFcalls!=1?1: VFkind!={kd}?2: VFlane!={LANE[nm]}?3: !VFptr?5: VFnum!=n*{lpk}?6: VFk!={k}*{lpk}?7: 0; }}',
                      'extern "C" void r@(uint64_t* q, uint64_t n, uint64_t k) { q[0]=0; }','p:q:8:0:8:w s:n:64 s:k:64')
                    for pi,(A,B) in enumerate(PP[nm]):
                        if tier=='quick' and kd and pi: continue
                        lo,hi=('A','B') if o=='Ascending' else ('B','A')
                        I.add(f'{fn}({nm}, {o})/keys {A},{B}',f'extern "C" void i@(uint8_t* q, uint64_t b) {{ VFreal=1; using K={T}; const K A={A}, B={B}; alignas(16) K* x=(K*)VFbuf; x[0]=(b&1)?B:A; x[1]=(b&2)?B:A; hn::{fn}(x, 2, {"0, " if kd==2 else "2, " if kd else ""}hwy::Sort{o}()); memcpy(q,x,2*sizeof(K)); }}',
                          f'extern "C" void r@(uint8_t* q, uint64_t b) {{ using K={T}; const K A={A}, B={B}; const K u=(b&1)?B:A, v=(b&2)?B:A; const bool s=(b&3)=={1 if o=="Ascending" else 2}; const K x0=s?v:u, x1=s?u:v; memcpy(q,&x0,sizeof(K)); memcpy(q+sizeof(K),&x1,sizeof(K)); }}',f'p:q:1:0:{2*{16:4,8:2,9:2,17:4,18:4,32:8,33:8,34:8}[LANE[nm]]*lpk}:wz s:b:64:2')
        per[tg]=I.r
    old=list(ops_main.CXX); ops_main.CXX+=['-mllvm','-inline-threshold=1000000','-Dnoinline=','-DHWY_DISABLED_TARGETS=0','-fno-threadsafe-statics','-fno-exceptions']
    os.environ['BITFLOW_GLOBAL_INIT']='1'
    rs=ops_main.run_custom(sc,per,INC2,chunk=60); ops_main.CXX[:]=old
    return rs
def m():
    a=std_args(); sc=a.dump or scratch('sd'); os.makedirs(sc,exist_ok=True); build_tools()
    rs=part1(sc,a.tier)
    rs+=part2(sc,a.tier,['SSE4','AVX2','AVX3'] if a.tier=='quick' else ['SCALAR','EMU128','SSE2','SSSE3','SSE4','AVX2','AVX3','AVX3_DL','AVX3_ZEN4','AVX3_SPR'])
    if a.dump: show(rs)
    v=violations(rs)
    if not v: need_done(rs)
    cov=dict(summary(rs),explanation='(1) vqsort*.cc, targets.cc and a wrapper are linked as IR; each of the 96 public entry points (12 key types, 2 orders, VQSort/VQPartialSort/VQSelect/Sorter) is evaluated through the real HWY_EXPORT tables with free n, k and supported-target set, and must call, once, the static entry point of its kind, key type and order with the same pointer, n and k. (2) the static entry points must call Sort/PartialSort/Select of their kind with the lane type of the key and counts scaled to lanes (free n, k), and order every pair drawn from values that tell the key type from its neighbours.',
      rule='kind, key type, order, pointer and counts that reach the implementation are those of the public entry point, on every target')
    finish('C08',a.tier,'proof',cov,v,['clang front end and optimiser preserve the source semantics','float16 static entry points are not evaluated (clang 18 has no float16 vectors on x86); their dispatch is','(1) covers the targets clang 18 attains on x86-64'])
if __name__=='__main__': main(m)
