#!/usr/bin/env python3
"""C01/C02/C03: array algorithms, dot products, matrix-vector products and the unroller: byte footprint and element coverage
for every element count up to several vectors and every content."""
from common import *
import ops_main, opsgen
from collections import Counter
INC='''#include "hwy/contrib/algo/transform-inl.h"
#include "hwy/contrib/algo/copy-inl.h"
#include "hwy/contrib/algo/find-inl.h"
#include "hwy/contrib/dot/dot-inl.h"
#include "hwy/contrib/unroller/unroller-inl.h"
// sequential stand-in for the thread pool: only the arithmetic of the matrix-vector product is analysed here
#define HIGHWAY_HWY_CONTRIB_THREAD_POOL_THREAD_POOL_H_
namespace hwy { struct ThreadPool { template <class F> void Run(uint64_t b, uint64_t e, const F& f) { for (uint64_t i = b; i < e; ++i) f(i, size_t{0}); } }; }
#include "hwy/contrib/matvec/matvec-inl.h"
#define NOUN _Pragma("clang loop unroll(disable)")
template<class T> struct UAdd1 : hn::UnrollerUnit<UAdd1<T>,T,T> { using B=hn::UnrollerUnit<UAdd1<T>,T,T>; hn::Vec<typename B::OT> Func(ptrdiff_t, const hn::Vec<typename B::IT> x, const hn::Vec<typename B::OT>) { return hn::Xor(x, hn::Set(B::d_out, (T)5)); } };
template<class T> struct UXor2 : hn::UnrollerUnit2D<UXor2<T>,T,T,T> { using B=hn::UnrollerUnit2D<UXor2<T>,T,T,T>; hn::Vec<typename B::OT> Func(ptrdiff_t, const hn::Vec<typename B::I0T> x, const hn::Vec<typename B::I1T> y, const hn::Vec<typename B::OT>) { return hn::Xor(x, y); } };
template<class T> struct UAcc : hn::UnrollerUnit<UAcc<T>,T,T> { using B=hn::UnrollerUnit<UAcc<T>,T,T>; using YV=hn::Vec<typename B::OT>; YV Func(ptrdiff_t, const hn::Vec<typename B::IT> x, const YV y) { return hn::Xor(x, y); }
 bool StoreAndShortCircuitImpl(ptrdiff_t, T*, const YV) { return true; } ptrdiff_t MaskStoreImpl(ptrdiff_t, T*, const YV, ptrdiff_t) { return 0; }
 ptrdiff_t ReduceImpl(const YV x, T* to) { HWY_ALIGN T b[hn::MaxLanes(typename B::OT())]; hn::Store(x, B::d_out, b); T r=0; for (size_t i=0;i<hn::Lanes(B::d_out);i++) r=(T)(r^b[i]); *to=r; return 1; } void ReduceImpl(const YV x0, const YV x1, const YV x2, YV* y) { *y=hn::Xor(hn::Xor(*y,x0),hn::Xor(x1,x2)); } };
'''
CT={k:v[0] for k,v in opsgen.TYPES.items()}
def instances(tg,tier,prop):
    res=[]; k=0
    def add(id,impl,ref,roles,rroles=None):
        nonlocal k
        rr=rroles or roles
        f=lambda c: c.replace('@',str(k))
        res.append((id,f(impl),f(ref) if ref else '','\t'.join([id,f'i{k}',roles]+([f'r{k}',rr] if ref else ['-'])))); k+=1
    def bits(n): return max(1,n.bit_length())
    types=['u8','u16','u32','u64','i32','f32','f64']
    for t in types:
        if prop=='C03': break
        if tier=='quick' and t in('i32','f64'): continue
        T=CT[t]; S=opsgen.sz(t); N=opsgen.maxlanes(tg,t)
        for n in ([N] if N<4 else [N,N//2]):
            if n<1: continue
            vb=bits(2*n+2); M=(1<<vb)-1  # counts 0..M
            D=f'const hn::Simd<{T},{n},0> d; using D=decltype(d); using V=hn::Vec<D>;'
            U=opsgen.TYPES[t][1]; X=f'({U})'
            q=f'p:q:{S}:0:{M*S}:rw:n=n'; qw=f'p:q:{S}:0:{M*S}:w:n=n'; p=f'p:p:{S}:0:{M*S}:r:n=n'; p2=p.replace('p:p','p:o',1); sn=f's:n:64:{vb}'
            rq=q.replace(':n=n',''); rqw=qw.replace(':n=n',''); rp=p.replace(':n=n',''); rp2=p2.replace(':n=n','')
            b=f'/{t}/{n}'
            loop=lambda body: f'NOUN for (size_t i=0;i<{M};i++) if (i<n) {{ {body} }}'
            A=f'const {T}* p, {T}* q'; UA=f'const {U}* p, {U}* q'
            add('Fill'+b,f'extern "C" void i@({T}* q, size_t n, const {T}* v) {{ {D} hn::Fill(d,v[0],n,q); }}',f'extern "C" void r@({U}* q, size_t n, const {U}* v) {{ {loop("q[i]=v[0];")} }}',f'{qw} {sn} p:v:{S}:0:{S}:r',f'{rqw} {sn} p:v:{S}:0:{S}:r')
            add('Copy'+b,f'extern "C" void i@({A}, size_t n) {{ {D} hn::Copy(d,p,n,q); }}',f'extern "C" void r@({UA}, size_t n) {{ {loop("q[i]=p[i];")} }}',f'{p} {qw} {sn}',f'{rp} {rqw} {sn}')
            notf=lambda v: f'hn::Not({v})'
            add('Transform'+b,f'extern "C" void i@({T}* q, size_t n) {{ {D} hn::Transform(d,q,n,[](D d,V v) HWY_ATTR {{ return hn::Not(v); }}); }}',f'extern "C" void r@({U}* q, size_t n) {{ {loop("q[i]=("+U+")~q[i];")} }}',f'{q} {sn}',f'{rq} {sn}')
            add('Transform1'+b,f'extern "C" void i@({T}* q, size_t n, const {T}* p) {{ {D} hn::Transform1(d,q,n,p,[](D d,V v,V w) HWY_ATTR {{ return hn::AndNot(v,w); }}); }}',f'extern "C" void r@({U}* q, size_t n, const {U}* p) {{ {loop("q[i]=("+U+")(~q[i]&p[i]);")} }}',f'{q} {sn} {p}',f'{rq} {sn} {rp}')
            add('Transform2'+b,f'extern "C" void i@({T}* q, size_t n, const {T}* p, const {T}* o) {{ {D} hn::Transform2(d,q,n,p,o,[](D d,V v,V w,V x) HWY_ATTR {{ return hn::Xor(v,hn::AndNot(w,x)); }}); }}',f'extern "C" void r@({U}* q, size_t n, const {U}* p, const {U}* o) {{ {loop("q[i]=("+U+")(q[i]^(~p[i]&o[i]));")} }}',f'{q} {sn} {p} {p2}',f'{rq} {sn} {rp} {rp2}')
            if t[0]!='f':
                add('Replace'+b,f'extern "C" void i@({T}* q, size_t n, const {T}* v) {{ {D} hn::Replace(d,q,n,v[0],({T})5); }}',f'extern "C" void r@({T}* q, size_t n, const {T}* v) {{ {loop("q[i]=q[i]==5?v[0]:q[i];")} }}',f'{q} {sn} p:v:{S}:0:{S}:r',f'{rq} {sn} p:v:{S}:0:{S}:r')
                add('ReplaceIf'+b,f'extern "C" void i@({T}* q, size_t n, const {T}* v) {{ {D} hn::ReplaceIf(d,q,n,v[0],[](D d,V x) HWY_ATTR {{ return hn::Eq(hn::And(x,hn::Set(d,3)),hn::Set(d,2)); }}); }}',f'extern "C" void r@({T}* q, size_t n, const {T}* v) {{ {loop("q[i]=(q[i]&3)==2?v[0]:q[i];")} }}',f'{q} {sn} p:v:{S}:0:{S}:r',f'{rq} {sn} p:v:{S}:0:{S}:r')
                add('Generate'+b,f'extern "C" void i@({T}* q, size_t n) {{ {D} hn::Generate(d,q,n,[](D d, auto vi) HWY_ATTR {{ return hn::BitCast(d,vi); }}); }}',f'extern "C" void r@({T}* q, size_t n) {{ {loop("q[i]=("+T+")i;")} }}',f'{qw} {sn}',f'{rqw} {sn}')
                add('Find'+b,f'extern "C" void i@(const {T}* p, size_t* r, size_t n, size_t x) {{ {D} r[0]=hn::Find(d,({T})x,p,n); }}',f'extern "C" void r@(const {T}* p, size_t* r, size_t n, size_t x) {{ size_t f=n; NOUN for (int i={M}-1;i>=0;i--) if ((size_t)i<n && p[i]==({T})x) f=(size_t)i; r[0]=f; }}',f'{p} p:r:8:0:8:w {sn} s:x:64:3',f'{rp} p:r:8:0:8:w {sn} s:x:64:3')
                add('FindIf'+b,f'extern "C" void i@(const {T}* p, size_t* r, size_t n) {{ {D} r[0]=hn::FindIf(d,p,n,[](auto d, auto x) HWY_ATTR {{ return hn::Eq(hn::And(x,hn::Set(d,3)),hn::Set(d,2)); }}); }}',f'extern "C" void r@(const {T}* p, size_t* r, size_t n) {{ size_t f=n; NOUN for (int i={M}-1;i>=0;i--) if ((size_t)i<n && (p[i]&3)==2) f=(size_t)i; r[0]=f; }}',f'{p} p:r:8:0:8:w {sn}',f'{rp} p:r:8:0:8:w {sn}')
                if n<=8 and M<=(15 if tier=='quick' else 31):
                  add('CopyIf'+b,f'extern "C" void i@({A}, size_t n, size_t* r) {{ {D} r[0]=(size_t)(hn::CopyIf(d,p,n,q,[](auto d, auto x) HWY_ATTR {{ return hn::Eq(hn::And(x,hn::Set(d,1)),hn::Set(d,1)); }})-q); }}',
                    f'extern "C" void r@({A}, size_t n, size_t* r) {{ size_t k=0; NOUN for (size_t i=0;i<{M};i++) if (i<n && (p[i]&1)) q[k++]=p[i]; r[0]=k; }}',f'{p} {qw} {sn} p:r:8:0:8:w',f'{rp} {rqw} {sn} p:r:8:0:8:w')
            no=0x5A
            add('Foreach'+b,f'extern "C" void i@({A}, size_t n) {{ {D} const hn::RebindToUnsigned<D> du; V acc=hn::Zero(d); hn::Foreach(d,p,n,hn::BitCast(d,hn::Set(du,({U}){no})),[&acc](D d,V v) HWY_ATTR {{ acc=hn::Xor(acc,v); }}); hn::StoreU(acc,d,q); }}',
                f'extern "C" void r@({UA}, size_t n) {{ {U} a[{n}]; for (size_t l=0;l<{n};l++) a[l]=0; NOUN for (size_t i=0;i<{M};i++) if (i<n) a[i%{n}]=({U})(a[i%{n}]^p[i]); for (size_t l=0;l<{n};l++) {{ if (n%{n} && l>=n%{n}) a[l]=({U})(a[l]^{no}); q[l]=a[l]; }} }}',f'{p} p:q:{S}:0:{n*S}:w {sn}',f'{rp} p:q:{S}:0:{n*S}:w {sn}')
    if prop in('C03',):
        ASS={0:'0',1:'hn::Dot::kAtLeastOneVector',2:'hn::Dot::kMultipleOfVector',3:'hn::Dot::kMultipleOfVector | hn::Dot::kAtLeastOneVector',4:'hn::Dot::kPaddedToVector',5:'hn::Dot::kPaddedToVector | hn::Dot::kAtLeastOneVector'}
        for ta,tb,td in(('f32','f32','f32'),('f64','f64','f64'),('f32','bf16','f32'),('bf16','bf16','bf16'),('i16','i16','i16')):
            Ta,Tb=CT[ta],CT[tb]; Sa,Sb=opsgen.sz(ta),opsgen.sz(tb); N=opsgen.maxlanes(tg,td)
            if tg=='SCALAR' and ta in('bf16','i16'): pass
            for n in ([N] if N<8 or tier=='quick' else [N,N//2]):
              D=f'const hn::Simd<{CT[td]},{n},0> d;'; RT={'f64':'double','i16':'int32_t'}.get(ta,'float')
              for a in ASS:
                if tier=='quick' and a in(3,5): continue
                mul,adde=(n,0) if a in(2,3) else (1,0)
                if a==3: adde=n
                if a in(1,5): adde=n
                top=9*n+1; vb=bits(top//mul); M=((1<<vb)-1)*mul+adde; M=(M+n-1)//n*n
                fr=n if a in(4,5) else 1
                al=f'n=n,{mul},{adde},{fr}'
                add(f'Dot/{ta}x{tb}/{n}/assume{a}/footprint',f'extern "C" void i@(const {Ta}* p, const {Tb}* o, {RT}* q, size_t n) {{ {D} q[0]=hn::Dot::Compute<{ASS[a]}>(d,p,o,n*{mul}+{adde}); }}','',f'p:p:{Sa}:0:{M*Sa}:rz:{al} p:o:{Sb}:0:{M*Sb}:rz:{al} p:q:{4 if RT!="double" else 8}:0:{4 if RT!="double" else 8}:w s:n:64:{vb}')
              # every element takes part in the result: the value depends on each a[i], b[i], i<n
              for a in ((0,4) if tier=='quick' else (0,2,4)):
                for cnt in ({1,n-1,n+1,2*n,3*n+1,5*n-1} if a!=2 else {n,5*n,9*n}):
                  if cnt<1: continue
                  R8=8 if RT=='double' else 4; M=(cnt+n-1)//n*n
                  add(f'Dot/{ta}x{tb}/{n}/assume{a}/elements{cnt}',f'extern "C" void i@(const {Ta}* p, const {Tb}* o, {RT}* q) {{ {D} q[0]=hn::Dot::Compute<{ASS[a]}>(d,p,o,{cnt}); }}',
                    f'extern "C" void r@(const uint8_t* p, const uint8_t* o, uint8_t* q) {{ uint8_t x=0; for (int i=0;i<{cnt*Sa};i++) x^=p[i]; for (int i=0;i<{cnt*Sb};i++) x^=o[i]; for (int i=0;i<{R8};i++) q[i]=x; }}',
                    f'p:p:{Sa}:0:{M*Sa}:r p:o:{Sb}:0:{M*Sb}:r p:q:{R8}:0:{R8}:w',f'p:p:{Sa}:0:{M*Sa}:r p:o:{Sb}:0:{M*Sb}:r p:q:{R8}:0:{R8}:w')
        for t in('u8','u16','i32','u64'):
            T=CT[t]; S=opsgen.sz(t); N=opsgen.maxlanes(tg,t); vb=bits(5*N+2); M=(1<<vb)-1; sn=f's:n:64:{vb}'
            if tg=='SCALAR': continue
            pr=lambda nm,perm,al=':n=n': f'p:{nm}:{S}:0:{M*S}:{perm}{al}'
            add(f'Unroller/unary/{t}',f'extern "C" void i@(const {T}* p, {T}* q, size_t n) {{ UAdd1<{T}> f; hn::Unroller(f,p,q,(ptrdiff_t)n); }}',f'extern "C" void r@(const {T}* p, {T}* q, size_t n) {{ NOUN for (size_t i=0;i<{M};i++) if (i<n) q[i]=({T})(p[i]^5); }}',f'{pr("p","r")} {pr("q","rw")} {sn}',f'{pr("p","r","")} {pr("q","rw","")} {sn}')
            add(f'Unroller/binary/{t}',f'extern "C" void i@({T}* p, {T}* o, {T}* q, size_t n) {{ UXor2<{T}> f; hn::Unroller(f,p,o,q,(ptrdiff_t)n); }}',f'extern "C" void r@(const {T}* p, const {T}* o, {T}* q, size_t n) {{ NOUN for (size_t i=0;i<{M};i++) if (i<n) q[i]=({T})(p[i]^o[i]); }}',f'{pr("p","r")} {pr("o","r")} {pr("q","rw")} {sn}',f'{pr("p","r","")} {pr("o","r","")} {pr("q","rw","")} {sn}')
            add(f'Unroller/reduce/{t}',f'extern "C" void i@(const {T}* p, {T}* q, size_t n) {{ UAcc<{T}> f; hn::Unroller(f,p,q,(ptrdiff_t)n); }}',f'extern "C" void r@(const {T}* p, {T}* q, size_t n) {{ {T} x=0; NOUN for (size_t i=0;i<{M};i++) if (i<n) x=({T})(x^p[i]); q[0]=x; }}',f'{pr("p","r")} p:q:{S}:0:{S}:w {sn}',f'{pr("p","r","")} p:q:{S}:0:{S}:w {sn}')
        for t in('f32','f64') if tg!='SCALAR' else ():
            T=CT[t]; S=opsgen.sz(t); N=opsgen.maxlanes(tg,t)
            for ko in(64//S+1,3):
                for ki in(1,N-1,N+1,5*N+1) if N<16 else (1,N-1,N+1,4*N+1):
                    if ki<1: continue
                    if tier=='quick' and ki==8*N: continue
                    for addv in(True,False):
                        fn=f'hn::MatVec{"Add" if addv else ""}<{ko},{ki}>(p,v,{"a," if addv else ""}q,pool);'
                        rl=lambda: f'p:p:{S}:0:{ko*ki*S}:r p:v:{S}:0:{ki*S}:r p:a:{S}:0:{ko*S}:r p:q:{S}:0:{ko*S}:w'
                        add(f'MatVec/{t}/{ko}x{ki}/{"add" if addv else "plain"}',f'extern "C" void i@(const {T}* p, const {T}* v, const {T}* a, {T}* q) {{ hwy::ThreadPool pool; {fn} }}',
                          f'extern "C" void r@(const {T}* p, const {T}* v, const {T}* a, uint8_t* q) {{ for (int r=0;r<{ko};r++) {{ uint8_t x=0; const uint8_t* P=(const uint8_t*)(p+r*{ki}); const uint8_t* V=(const uint8_t*)v; const uint8_t* Q=(const uint8_t*)(a+r); for (int i=0;i<{ki*S};i++) x^=P[i]^V[i]; {f"for (int i=0;i<{S};i++) x^=Q[i];" if addv else ""} for (int i=0;i<{S};i++) q[r*{S}+i]=x; }} }}',rl())
    return res
RULE={'C01':'no access outside [0,count) of any array, for every count in the analysed range and every content',
 'C02':'the output (or the accumulated, found or copied result) is the canonical function of exactly the elements [0,count)',
 'C03':'no access outside the element count (rounded up to a vector where padding is declared); the result depends on every element'}
def m():
    a=args(lambda ap:(ap.add_argument('--targets',default=''),ap.add_argument('--re',default=''),ap.add_argument('--dump',default='')))
    build_tools('bitflow'); sc=a.dump or scratch('algo'); os.makedirs(sc,exist_ok=True); prop=a.prop
    tgs=a.targets.split(',') if a.targets else ['SSE2','SSE4','AVX2','AVX3','EMU128','SCALAR'] if a.tier=='quick' else list(opsgen.TARGETS)
    ops_main.CXX+=['-mllvm','-inline-threshold=1000000','-fno-unroll-loops','-Dnoinline=']
    per={t:[w for w in instances(t,a.tier,prop) if re.search(a.re,w[0])] for t in tgs}
    rs=ops_main.run_custom(sc,per,INC,chunk=8)
    if a.dump:
        for r in rs: print(r['ms'],r['target'],r['id'],r['status'],r['detail'][:300],r['proven'],'/',r['lanes'],r.get('undec_why','')[:300],[(x,r[x][:1]) for x in('mem','mismatch','cross','garbage') if r[x]])
    st=Counter(r['status'] for r in rs); vio=[]
    for r in rs:
        kinds=('mem',) if prop=='C01' or r['id'].endswith('/footprint') else ('mismatch','cross','garbage') if prop=='C02' else ('mem','mismatch','garbage')
        for k in kinds:
            x=[x for x in r[k] if not x.startswith('?') and not (prop=='C03' and r['id'].startswith(('Dot','MatVec')) and k=='mismatch' and 'does not depend on' not in x)]
            if x: vio.append(dict(key=f"{r['target']}:{r['id']}",where=r['loc'][:300],what=f'{k}: {x[0]}')); break
    if st['done']<0.8*len(rs): raise Broken(f'only {st["done"]}/{len(rs)} analysed: '+str(Counter((r['status'],r['detail'][:60]) for r in rs if r['status']!='done').most_common(5)))
    cov=dict(explanation='Abstract interpretation of the compiled algorithms with a symbolic element count: loops are iterated until their back-edge condition is the constant false, every access carries the canonical condition under which it happens, and outputs are canonical bit functions of count and contents; nothing is executed. Counts range over 0..2^k-1 >= two (algorithms) or nine (dot) vectors plus remainder.',
      rule=RULE[prop],functions_analysed=st['done'],functions_total=len(rs),accesses_checked=sum(r['acc'] for r in rs),output_cells=sum(r['lanes'] for r in rs),cells_proven=sum(r['proven'] for r in rs),cells_undecided=sum(r['undecided'] for r in rs),targets=tgs,not_analysed=[f"{r['target']}:{r['id']}: {r['detail'][:60]}" for r in rs if r['status']!='done'][:100])
    finish(prop,a.tier,'other',cov,vio,['counts above the analysed range repeat the same main-loop iteration','clang 18 front end and optimiser; x86 intrinsic models'])
main(m)
