#!/usr/bin/env python3
"""O10: the tag algebra, decided by the type checker: static assertions over every tag of every target the compiler can type-check."""
from bfx import *
SRC='''#define HWY_DISABLE_ARM_TESTS 1
#include "hwy/highway.h"
namespace hn = hwy::HWY_NAMESPACE;
using hwy::IsSame;
constexpr size_t kFull = %(bytes)d;   // documented size in bytes (upper bound for scalable vectors) of the target; 0 = one lane
constexpr bool kScalable = %(scal)d;
constexpr int kMaxPow2 = %(maxpow2)d;
static_assert(HWY_TARGET == HWY_%(target)s, "unexpected target");
template <class T> constexpr size_t Full() { return kFull ? kFull / sizeof(T) : 1; }
constexpr size_t Scale(size_t n, int p) { return p >= 0 ? n << p : (-p >= 64 ? 0 : n >> -p); }
constexpr size_t Max1(size_t n) { return n ? n : 1; }
constexpr size_t Min(size_t a, size_t b) { return a < b ? a : b; }
constexpr int MinI(int a, int b) { return a < b ? a : b; }
constexpr size_t Pow2Floor(size_t n) { size_t r = 1; while (r <= n / 2) r *= 2; return r; }
constexpr int Log2(size_t n) { int r = 0; while (n > 1) { n /= 2; r++; } return r; }
template <class D> constexpr size_t M() { return D().MaxLanes(); }
// every relation between a tag with (documented) n lanes and the tags derived from it
template <class D, class T2, size_t n> constexpr bool Cross() {
  using T = hn::TFromD<D>;
  using R = hn::Rebind<T2, D>; using P = hn::Repartition<T2, D>;
  static_assert(IsSame<hn::TFromD<R>, T2>() && IsSame<hn::TFromD<P>, T2>(), "Rebind and Repartition have the requested lane type");
  static_assert(M<R>() == n, "Rebind keeps the number of lanes");
  static_assert(R().Pow2() == D().Pow2() + Log2(sizeof(T2)) - Log2(sizeof(T)), "Rebind scales the register group by the ratio of the lane sizes");
  static_assert(M<P>() == Max1(n * sizeof(T) / sizeof(T2)), "Repartition keeps the number of bytes");
  static_assert(P().Pow2() == D().Pow2(), "Repartition keeps the register group");
  static_assert(R().MaxBytes() == n * sizeof(T2) && R().MaxBlocks() == (n * sizeof(T2) + 15) / 16, "bytes and blocks after Rebind");
  return true;
}
template <class D, class T, size_t n> constexpr bool Size() {
  static_assert(IsSame<hn::TFromD<D>, T>(), "lane type of the tag");
  static_assert(M<D>() == n, "documented number of lanes");
  static_assert(n != 0 && (n & (n - 1)) == 0, "lane counts are powers of two");
  static_assert(hn::MaxLanes(D()) == n && HWY_MAX_LANES_D(D) == n, "MaxLanes forms agree");
  static_assert(D().MaxBytes() == n * sizeof(T) && D().MaxBlocks() == (n * sizeof(T) + 15) / 16, "MaxBytes, MaxBlocks");
  static_assert(HWY_POW2_D(D) == D().Pow2(), "Pow2 forms agree");
  return true;
}
template <class D, class T, size_t n> constexpr bool Algebra() {
  using B = hn::BlockDFromD<D>;
  static_assert(IsSame<hn::TFromD<B>, T>(), "BlockDFromD keeps the lane type");
  static_assert(M<B>() == Min(n, 16 / sizeof(T)), "BlockDFromD has min(lanes, 16 bytes) lanes");
  static_assert(IsSame<hn::BlockDFromD<const D>, B>() || !kScalable, "BlockDFromD of a const tag");
  return Cross<D, uint8_t, n>() && Cross<D, int8_t, n>() && Cross<D, uint16_t, n>() && Cross<D, int16_t, n>() && Cross<D, uint32_t, n>() && Cross<D, int32_t, n>() && Cross<D, uint64_t, n>() && Cross<D, int64_t, n>()
      && Cross<D, hwy::float16_t, n>() && Cross<D, hwy::bfloat16_t, n>() && Cross<D, float, n>() && Cross<D, double, n>();
}
// halves and doubles; k: how often the tag can be halved before its lanes are exhausted
template <class D, class T, size_t n, bool exact> constexpr bool HalfTwice() {
  using H = hn::Half<D>; using W = hn::Twice<D>;
  static_assert(IsSame<hn::TFromD<H>, T>() && IsSame<hn::TFromD<W>, T>(), "Half and Twice keep the lane type");
  static_assert(M<H>() == Max1(n / 2), "Half has half the lanes, at least one");
  static_assert(!exact || M<W>() == 2 * n, "Twice has twice the lanes");
  static_assert(IsSame<hn::Twice<H>, D>() && IsSame<hn::Half<W>, D>(), "Half and Twice are inverses");
  static_assert(H().Pow2() == D().Pow2() - 1 && W().Pow2() == D().Pow2() + 1, "Half and Twice change the register group by one");
  return true;
}
template <class D, class T, size_t n> constexpr bool Kinds() {
  static_assert(IsSame<hn::RebindToUnsigned<D>, hn::Rebind<hwy::MakeUnsigned<T>, D>>() && IsSame<hn::RebindToSigned<D>, hn::Rebind<hwy::MakeSigned<T>, D>>(), "RebindTo*");
  static_assert(hwy::IsSigned<hn::TFromD<hn::RebindToSigned<D>>>() && !hwy::IsSigned<hn::TFromD<hn::RebindToUnsigned<D>>>(), "RebindTo* signedness");
  static_assert(sizeof(hn::TFromD<hn::RebindToSigned<D>>) == sizeof(T) && sizeof(hn::TFromD<hn::RebindToUnsigned<D>>) == sizeof(T), "RebindTo* lane size");
  static_assert(M<hn::RebindToSigned<D>>() == n && M<hn::RebindToUnsigned<D>>() == n, "RebindTo* lanes");
  return true;
}
template <class D, class T, size_t n, size_t s> struct Resize { static constexpr bool ok() { return true; } };
#define WIDE(S) template <class D, class T, size_t n> struct Resize<D, T, n, S>
template <class D, class T> constexpr bool Wider() {
  using W = hn::RepartitionToWide<D>; static_assert(sizeof(hn::TFromD<W>) == 2 * sizeof(T), "RepartitionToWide lane size"); static_assert(M<W>() == Max1(M<D>() / 2), "RepartitionToWide lanes");
  static_assert(hwy::IsSigned<hn::TFromD<W>>() == hwy::IsSigned<T>() && hwy::IsFloat<hn::TFromD<W>>() == (hwy::IsFloat<T>() || hwy::IsSpecialFloat<T>()), "RepartitionToWide kind"); return true; }
template <class D, class T> constexpr bool Wider4() { static_assert(IsSame<hn::RepartitionToWideX2<D>, hn::RepartitionToWide<hn::RepartitionToWide<D>>>() && sizeof(hn::TFromD<hn::RepartitionToWideX2<D>>) == 4 * sizeof(T) && M<hn::RepartitionToWideX2<D>>() == Max1(M<D>() / 4), "RepartitionToWideX2"); return true; }
template <class D, class T> constexpr bool Wider8() { static_assert(IsSame<hn::RepartitionToWideX3<D>, hn::RepartitionToWide<hn::RepartitionToWideX2<D>>>() && sizeof(hn::TFromD<hn::RepartitionToWideX3<D>>) == 8 * sizeof(T) && M<hn::RepartitionToWideX3<D>>() == Max1(M<D>() / 8), "RepartitionToWideX3"); return true; }
template <class D, class T> constexpr bool Narrower() {
  using W = hn::RepartitionToNarrow<D>; static_assert(2 * sizeof(hn::TFromD<W>) == sizeof(T), "RepartitionToNarrow lane size"); static_assert(M<W>() == 2 * M<D>(), "RepartitionToNarrow lanes");
  static_assert(hwy::IsSigned<hn::TFromD<W>>() == hwy::IsSigned<T>(), "RepartitionToNarrow kind"); return true; }
template <class T> struct Float { static constexpr bool ok() { return true; } };
template <class T, size_t n, class D> constexpr bool RbFloat() { using F = hn::RebindToFloat<D>; static_assert(IsSame<F, hn::Rebind<hwy::MakeFloat<T>, D>>() && sizeof(hn::TFromD<F>) == sizeof(T) && M<F>() == n && (hwy::IsFloat<hn::TFromD<F>>() || hwy::IsSpecialFloat<hn::TFromD<F>>()), "RebindToFloat"); return true; }
// vectors: the tag and lane type can be recovered
template <class D, class T, size_t n> constexpr bool Vectors() {
  using V = hn::Vec<D>; using DV = hn::DFromV<V>;
  static_assert(IsSame<hn::TFromV<V>, T>() && IsSame<hn::TFromD<DV>, T>(), "the lane type of a vector is the tag's");
  static_assert(IsSame<hn::Vec<DV>, V>(), "Vec<DFromV<V>> is V");
  static_assert(kScalable || M<DV>() == n, "the tag of a vector has its number of lanes");
  static_assert(IsSame<hn::VFromD<D>, V>(), "VFromD is Vec");
  static_assert(IsSame<decltype(hn::Zero(D())), V>() && IsSame<decltype(hn::Undefined(D())), V>(), "initialisers return Vec<D>");
  static_assert(IsSame<hn::MFromD<D>, hn::Mask<D>>(), "MFromD is Mask");
  return true;
}
#if HWY_HAVE_CONSTEXPR_LANES
template <class D> constexpr bool LanesOk() { static_assert(hn::Lanes(D()) == M<D>(), "Lanes(d) equals MaxLanes(d)"); return true; }
#else
template <class D> constexpr bool LanesOk() { return true; }
#endif
%(tests)s
%(bad)s
'''
TYPES=[('uint8_t',1),('int8_t',1),('uint16_t',2),('int16_t',2),('uint32_t',4),('int32_t',4),('uint64_t',8),('int64_t',8),('hwy::float16_t',2),('hwy::bfloat16_t',2),('float',4),('double',8)]
BAD=[('more lanes than a vector','using X = hn::FixedTag<{t}, Full<{t}>() * 2>; static_assert(M<X>() != 0, "");'),('no lanes','using X = hn::FixedTag<{t}, 0>; static_assert(M<X>() != 0, "");'),
     ('cap of no lanes','using X = hn::CappedTag<{t}, 0>; static_assert(M<X>() != 0, "");'),('lane count that is not a power of two','using X = hn::FixedTag<{t}, 3>; static_assert(M<X>() != 0, "");'),
     ('const lane type','using X = hn::ScalableTag<const {t}>; static_assert(M<X>() != 0, "");'),('reference lane type','using X = hn::ScalableTag<{t}&>; static_assert(M<X>() != 0, "");'),
     ('no lane type','struct VFnot {{ int x; }}; using X = hn::ScalableTag<VFnot>; static_assert(M<X>() != 0, "");')]
def lanes(b,z): return b//z if b else 1
def p2f(n): return 1<<(n.bit_length()-1)
def tests(b,scal,maxp,minp,rvv,tier):
    o=[]
    def put(d,t,z,n,exact,p,vec):
        o.append(f'static_assert(Size<{d}, {t}, {n}>(), "");')
        if exact: o.append(f'static_assert(Algebra<{d}, {t}, {n}>(), "");')
        if p-1>=minp: o.append(f'static_assert(HalfTwice<{d}, {t}, {n}, {"true" if exact else "false"}>(), "");')
        if not exact: return
        o.append(f'static_assert(Kinds<{d}, {t}, {n}>(), "");')
        if z<4: o.append(f'static_assert(Wider4<{d}, {t}>(), "");')
        if z<2: o.append(f'static_assert(Wider8<{d}, {t}>(), "");')
        if z<8: o.append(f'static_assert(Wider<{d}, {t}>(), "");')
        if z>1 and 'bfloat' not in t and t!='hwy::float16_t' and exact: o.append(f'static_assert(Narrower<{d}, {t}>(), "");')
        if z>1 and 'bfloat' not in t: o.append(f'static_assert(RbFloat<{t}, {n}, {d}>(), "");')
        o.append(f'static_assert(LanesOk<{d}>(), "");')
        if vec and not (scal and 'float16' in t): o.append(f'static_assert(Vectors<{d}, {t}, {n}>(), "");')
    seen=set()
    for t,z in TYPES:
        full=lanes(b,z)
        for p in range(-8 if rvv and tier=='quick' else minp+1,maxp+3):
            q=min(p,maxp); n=max(1,full<<q if q>=0 else full>>-q); ex=(full<<q if q>=0 else full>>-q)>=1
            # fractions smaller than a register on RVV are limited by LMUL 1/8
            put(f'hn::ScalableTag<{t}, {p}>',t,z,n,ex,q,ex and (q<=0 and not rvv or rvv and q>=-3+{1:0,2:1,4:2,8:3}[z]))
        for c in ([*range(1,18),24,31,32,33,63,64,65,128,255,256,1000,1<<20] if tier=='quick' else [*range(1,260),511,512,513,1000,1<<16,1<<20]):
            n=min(p2f(c),full)
            put(f'hn::CappedTag<{t}, {c}>',t,z,n,True,0,n*z>=1)
            if c in (1,3,8,16,1000) and full>1:
                h=n>>1; put(f'hn::CappedTag<{t}, {c}, -1>',t,z,max(1,h),h>=1,-1,False)
            if not scal: o.append(f'static_assert(IsSame<hn::CappedTagIfFixed<{t}, {c}>, hn::CappedTag<{t}, {c}>>(), "CappedTagIfFixed of a fixed-size target");')
            else: o.append(f'static_assert(IsSame<hn::CappedTagIfFixed<{t}, {c}>, hn::ScalableTag<{t}>>(), "CappedTagIfFixed of a scalable target");')
        k=1
        while k<=full:
            put(f'hn::FixedTag<{t}, {k}>',t,z,k,True,0,True); k*=2
        for nm,by in (('Full16',2),('Full32',4),('Full64',8),('Full128',16)):
            if by>=z and full*z>=by: o.append(f'static_assert(IsSame<hn::{nm}<{t}>, hn::FixedTag<{t}, {by//z}>>(), "{nm}");')
        # tags derived twice keep the relations
        for d,n in ((f'hn::ScalableTag<{t}>',full),(f'hn::CappedTag<{t}, 4>',min(4,full))):
            for u,y in TYPES:
                nn=n; o.append(f'static_assert(Algebra<hn::Rebind<{u}, {d}>, {u}, {nn}>(), "");')
                o.append(f'static_assert(Algebra<hn::Repartition<{u}, {d}>, {u}, {max(1,n*z//y)}>(), "");')
                if n>1: o.append(f'static_assert(Algebra<hn::Rebind<{u}, hn::Half<{d}>>, {u}, {nn//2}>(), "");')
                o.append(f'static_assert(Algebra<hn::Rebind<{t}, hn::Rebind<{u}, {d}>>, {t}, {n}>(), "");')
        o.append(f'static_assert(IsSame<HWY_FULL({t}), hn::ScalableTag<{t}>>() && IsSame<HWY_CAPPED({t}, 4), hn::CappedTag<{t}, 4>>(), "macro forms");')
    return o
# name: (target, documented bytes, scalable, flags, triple)
def configs():
    ST=['-DHWY_COMPILE_ONLY_STATIC']; X3=ST+['-march=skylake-avx512','-maes','-mpclmul']
    c={'SCALAR':('SCALAR',0,0,['-DHWY_COMPILE_ONLY_SCALAR'],''),'EMU128':('EMU128',16,0,['-DHWY_COMPILE_ONLY_EMU128'],''),'SSE2':('SSE2',16,0,ST,''),'SSSE3':('SSSE3',16,0,ST+['-mssse3'],''),
     'SSE4':('SSE4',16,0,ST+['-msse4.2','-maes','-mpclmul'],''),'AVX2':('AVX2',32,0,ST+['-march=haswell','-maes','-mpclmul'],''),'AVX3':('AVX3',64,0,X3,''),'AVX3_DL':('AVX3_DL',64,0,ST+['-march=icelake-server'],''),
     'AVX3_ZEN4':('AVX3_ZEN4',64,0,ST+['-DHWY_WANT_AVX3_ZEN4','-march=znver4'],''),'AVX3_SPR':('AVX3_SPR',64,0,ST+['-march=sapphirerapids'],''),
     'NEON':('NEON',16,0,ST+['-march=armv8-a+crypto'],'aarch64-linux-gnu'),'NEON_WITHOUT_AES':('NEON_WITHOUT_AES',16,0,ST+['-march=armv8-a'],'aarch64-linux-gnu'),
     'SVE':('SVE',256,1,ST+['-march=armv8-a+sve+crypto'],'aarch64-linux-gnu'),'SVE2':('SVE2',256,1,ST+['-march=armv8.6-a+sve2+sve2-aes'],'aarch64-linux-gnu'),
     'PPC8':('PPC8',16,0,ST+['-mcpu=power8'],'powerpc64le-linux-gnu'),'PPC9':('PPC9',16,0,ST+['-mcpu=power9'],'powerpc64le-linux-gnu'),'PPC10':('PPC10',16,0,ST+['-mcpu=power10'],'powerpc64le-linux-gnu'),
     'Z14':('Z14',16,0,ST+['-march=z14','-mzvector'],'s390x-linux-gnu'),'Z15':('Z15',16,0,ST+['-march=z15','-mzvector'],'s390x-linux-gnu'),
     'RVV':('RVV',8192,1,ST+['-march=rv64gcv1p0'],'riscv64-linux-gnu')}
    return c
def m():
    a=std_args(); sc=a.dump or scratch('tg'); os.makedirs(sc,exist_ok=True)
    C=configs(); C={k:v for k,v in C.items() if not a.targets or k in a.targets.split(',')}
    fl={k:v[3]+(cross_flags(sc,v[4])+['-DHWY_BROKEN_TARGETS=0','-DHWY_BROKEN_SVE=0','-DHWY_BROKEN_SVE2=0'] if v[4] else []) for k,v in C.items()}
    vio=[]; skipped=[]; npos=nneg=0; done=[]
    def comp(name,tx,tag):
        f=f'{sc}/{name}_{tag}.cc'; open(f,'w').write(tx)
        return subprocess.run([CLANG,'-std=c++17','-w','-fsyntax-only','-ferror-limit=0','-ftemplate-backtrace-limit=0','-I',REPO]+fl[name]+[f],capture_output=True,text=True)
    def one(name):
        tgt,by,scal,_,tri=C[name]; rvv=tgt=='RVV'; maxp=3; minp=-16 if rvv else -8
        base=dict(bytes=by,scal=scal,maxpow2=maxp,target=tgt)
        r=comp(name,SRC%dict(base,tests='',bad=''),'base')
        if r.returncode: return name,'skip',r.stderr[:300],0,0,[]
        ts=tests(by,scal,maxp,minp,rvv,a.tier); out=[]
        r=comp(name,SRC%dict(base,tests='\n'.join(ts),bad=''),'pos'); cur=''; pend=None; src=(SRC%dict(base,tests='\n'.join(ts),bad='')).split('\n')
        for l in r.stderr.split('\n'):
            mm=re.match(r'(.*?):(\d+):\d+: (error|fatal error|note): (.*)',l)
            if not mm: continue
            if mm.group(3)!='note':
                pend=dict(what=mm.group(4),where=mm.group(1).replace(REPO+'/','')+':'+mm.group(2)); out.append(pend); pend['inst']=''
                if mm.group(1).endswith('_pos.cc') and src[int(mm.group(2))-1].startswith('static_assert('): pend['inst']=src[int(mm.group(2))-1]
            elif pend is not None:
                if mm.group(1).endswith('_pos.cc') and src[int(mm.group(2))-1].startswith('static_assert('): pend['inst']=src[int(mm.group(2))-1]
                if 'evaluates to' in mm.group(4): pend['what']+=' ('+mm.group(4)+')'
        if r.returncode and not out: out.append(dict(what=r.stderr[:300],where='',inst=''))
        neg=0
        for why,b in BAD:
            for t,_ in (TYPES if a.tier!='quick' else TYPES[4:5]+TYPES[:1]):
                neg+=1; rr=comp(name,SRC%dict(base,tests='',bad=b.format(t=t)),f'neg{neg}')
                if rr.returncode==0: out.append(dict(what=f'a tag with {why} is accepted ({t})',where='hwy/ops/shared-inl.h',inst='compile-fail witness: '+b.format(t=t)))
        return name,'ok',out,len(ts),neg,[]
    with ThreadPoolExecutor(8) as ex: res=list(ex.map(one,C))
    for name,st,out,p,n,_ in res:
        if st=='skip': skipped.append(f'{name}: {out[:120]}'); continue
        done.append(name); npos+=p; nneg+=n; seen=set()
        for o in out:
            k=(o['what'][:120])
            if k in seen: continue
            seen.add(k); vio.append(dict(key=f'{name}:{o["inst"][:160]}',where=o['where'],what=o['what'][:300]))
    if a.dump:
        print(skipped)
    need={'SCALAR','EMU128','SSE2','SSSE3','SSE4','AVX2','AVX3','AVX3_DL','AVX3_ZEN4','AVX3_SPR','NEON','SVE','RVV'}
    if not a.targets and not vio and need-set(done): raise Broken('headers do not compile: '+str([s for s in skipped if s.split(':')[0] in need])[:600])
    cov=dict(explanation='Static assertions over the documented tag relations, evaluated by the compiler front end on the current headers, for every lane type, scale, cap and fixed size; compile-fail witnesses for tags that must be rejected.',
      functions_analysed=len(done),assertions_checked=npos,compile_fail_witnesses=nneg,targets=done,not_analysed=skipped,
      rule='documented lane counts of ScalableTag/CappedTag/FixedTag; Half/Twice inverse; Rebind keeps lanes; Repartition keeps bytes; BlockDFromD = min(lanes, 16 bytes); lane type and vector type recovered by DFromV; Lanes == MaxLanes where vectors have a fixed size; invalid tags rejected')
    finish('O10',a.tier,'proof',cov,vio,['the front end type-checks other architectures with the installed standard library headers','Lanes() of SVE and RVV is decided at run time and not part of this check'])
main(m)
