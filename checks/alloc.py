#!/usr/bin/env python3
"""A01/A02: aligned allocation never returns less than was requested, never overlaps its bookkeeping, and never wraps.
The allocator sources are evaluated with free sizes, a free misalignment of the underlying block and a free decision to fail."""
from bfx import *
PRO='''#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <algorithm>
#include <array>
#include <atomic>
#include <limits>
#include <memory>
#include <vector>
#define NOUN _Pragma("clang loop unroll(disable)")
extern "C" {
alignas(4096) unsigned char VFarena[8192];
size_t VFshift, VFreq, VFcalls, VFfail, VFvec; void* VFop;
void* VFgot; size_t VFfrees; void* VFfreeop;
}
static inline void* VFraw(size_t n) { VFcalls++; VFreq = n; if (VFfail) return nullptr; return VFarena + VFshift; }
extern "C" __attribute__((noinline)) void* VFalloc(void* op, size_t n) { VFop = op; return VFraw(n); }
static inline void* VFmalloc(size_t n) { return VFraw(n); }
extern "C" __attribute__((noinline)) void VFfree(void* op, void* p) { VFfrees++; VFgot = p; VFfreeop = op; }
static inline void VFfree0(void* p) { VFfrees++; VFgot = p; }
// ZeroBytes over a symbolic range: only the range is recorded
size_t VFzp, VFzn;
static inline void* VFmemset(void* p, int, size_t n) { VFzp = (size_t)p; VFzn = n; return p; }
#include <array>
#include <vector>
#include <memory>
#define malloc VFmalloc
#define memset VFmemset
#define __builtin_memset VFmemset
#define free VFfree0
#include "hwy/aligned_allocator.cc"
#include "hwy/aligned_allocator.h"
#undef malloc
#undef free
#undef memset
#undef __builtin_memset
namespace hwy { size_t VectorBytes() { return VFvec; } }
using u64 = uint64_t;
template <int N> struct VFs { unsigned char b[N]; };
// p: what the library returned for n bytes, after exactly one request for VFreq bytes at VFarena+VFshift
// bit 0: aligned; 1: room before/after; 2: no wrap; 3: null iff the allocator failed
static inline u64 VFok(const void* p, u64 bytes, u64 align) {
  if (!p) return 1;
  const u64 a = (u64)p, base = (u64)VFarena + VFshift;
  if (a % align) return 2;
  if (a < base) return 3;
  if (a - base > VFreq) return 4;
  if (VFreq - (a - base) < bytes) return 5;
  if (VFcalls != 1) return 6;
  if (VFfail) return 7;
  return 1;
}
static inline u64 VFfits(u64 n, u64 size) { return n <= ~u64{0} / size; }
template <class T> struct VFo { T a; static u64 at; VFo() { at=(u64)this; } };
template <class T> u64 VFo<T>::at;
struct VFc { static u64 made, gone; unsigned char b[24]; VFc() { made++; } ~VFc() { gone++; } };
u64 VFc::made, VFc::gone;
'''
SG='(u64* q, u64 n, u64 s, u64 f, u64 x)'
RO='p:q:8:0:8:w s:n:64 s:s:64:{sb} s:f:64:1 s:x:64'
def insts(tier,vec=16):
    I=Inst(); A='(HWY_ALIGNMENT>VFvec?HWY_ALIGNMENT:VFvec)'
    def add(id,body,ref='q[0]=1;',roles=None,sb=10):
        I.add(id,f'extern "C" void i@{SG} {{ q[0]=1; VFshift=s; VFfail=f; VFvec={vec}; VFcalls=0; {body} }}',f'extern "C" void r@{SG} {{ {ref} }}',(roles or RO).format(sb=sb))
    # any misalignment of the underlying block; earlier allocations choose the cyclic offset
    hist=[0,1,2,3,4,5,6,7,8,9,15,16,17] if tier=='quick' else list(range(40))+[63,64,65,127,128,200]
    W=lambda g: f'{{ const size_t f0=VFfail; VFfail=1; NOUN for(int k=0;k<{g};k++) (void)hwy::AllocateAlignedBytes(1,&VFalloc,nullptr); VFfail=f0; VFcalls=0; }} ' if g else ''
    for g in hist:
        add(f'AllocateAlignedBytes/after {g}',W(g)+f'const void* p=hwy::AllocateAlignedBytes(n,&VFalloc,(void*)x); q[0]=VFok(p,n,{A});')
        add(f'AllocateAlignedBytes/malloc/after {g}',W(g)+f'const void* p=hwy::AllocateAlignedBytes(n); q[0]=VFok(p,n,{A});')
    add('AllocateAlignedBytes/opaque','VFop=nullptr; const void* p=hwy::AllocateAlignedBytes(n|1,&VFalloc,VFarena+(x&15)); q[0]=!p||VFop==VFarena+(x&15);')
    add('AllocateAlignedBytes/null-iff-failed or huge',f'if(n==0||n>>62) return; const void* p=hwy::AllocateAlignedBytes(n,&VFalloc,nullptr); q[0]=(p==nullptr)==(f!=0);')
    # the bookkeeping stays between the block and the payload, and the payload bytes are left alone
    for g in (hist if tier!='quick' else hist[:9]):
        add(f'AllocateAlignedBytes/bookkeeping/after {g}',W(g)+f'''const void* p=hwy::AllocateAlignedBytes(n|1,&VFalloc,nullptr); if(!p) return; u64 bad=0; const u64 off=(u64)p-(u64)VFarena;
          NOUN for(u64 i=0;i<4096;i++) if(VFarena[i] && (i<VFshift || i>=off)) bad=1; q[0]=!bad;''',sb=4 if tier=='quick' else 6)
    T=[('uint8_t',1),('uint16_t',2),('VFs<3>',3),('float',4),('VFs<5>',5),('double',8),('VFs<12>',12),('VFs<24>',24),('VFs<40>',40),('VFs<64>',64),('VFs<100>',100)]
    for t,z in T:
        add(f'AllocateAligned<{z} bytes>/alloc',f'auto p=hwy::AllocateAligned<{t}>(n,&VFalloc,&VFfree,(void*)x); const void* r=p.get(); q[0]=!r?1:!VFfits(n,{z})?8:VFok(r,n*{z},{A});',sb=4)
        add(f'AllocateAligned<{z} bytes>/malloc',f'auto p=hwy::AllocateAligned<{t}>(n); const void* r=p.get(); q[0]=!r?1:!VFfits(n,{z})?8:VFok(r,n*{z},{A});',sb=4)
        for v in ('uint64_t','uint32_t','int64_t','int16_t'):
            if v!='uint64_t' and z not in (1,8,12): continue
            neg='' if v[0]=='u' else f' : (({v})n)<0 ? 9'
            add(f'AlignedAllocator<{z} bytes>::allocate({v})',f'hwy::AlignedAllocator<{t}> a; const void* r=a.allocate(({v})n); const u64 m=(u64)({v})n; q[0]=!r?1{neg}:!VFfits(m,{z})?8:VFok(r,m*{z},{A});',sb=4)
        add(f'MakeUniqueAligned<{z} bytes>',f'VFo<{t}>::at=0; auto p=hwy::MakeUniqueAlignedWithAlloc<VFo<{t}>>(&VFalloc,&VFfree,(void*)x); q[0]=VFok(p.get(),sizeof(VFo<{t}>),{A})==1 && VFo<{t}>::at==(u64)p.get(); p.release();',sb=4)
        add(f'MakeUniqueAlignedArray<{z} bytes>/overflow',f'if(n>=1 && VFfits(n,{z})) return; auto p=hwy::MakeUniqueAlignedArrayWithAlloc<{t}>(n,&VFalloc,&VFfree,(void*)x); const void* r=p.get(); q[0]=r==nullptr; p.release();',sb=4)
    # small arrays: every requested object is constructed inside the block
    add('MakeUniqueAlignedArray/small','if(n==0) return; VFc::made=0; auto p=hwy::MakeUniqueAlignedArrayWithAlloc<VFc>(n,&VFalloc,&VFfree,(void*)x); const void* r=p.get(); q[0]=!r?VFc::made==0:(VFok(r,n*24,HWY_ALIGNMENT)==1 && VFc::made==n); p.release();',sb=4,roles=RO.replace('s:n:64','s:n:64:3'))
    if vec!=16: return I
    # multi-dimensional arrays: every element of every row lies in the block, rows are aligned, for every shape that does not abort
    for t,z in (('uint8_t',1),('uint16_t',2),('float',4),('double',8)):
        for vec in ((16,64) if tier=='quick' else (1,16,32,64,256)):
            for o in (1,3,1<<32,(1<<32)+1,(1<<61)+8,(1<<62)+5):
                RN=RO.replace('s:x:64','s:x:64:=0')
                pre=f'VFvec={vec}; '; big=bin(o).count('1')>1 and o>100
                if big: pre+='n=(n&255)<<(n>>8&63); '; RN=RN.replace('s:n:64','s:n:64:14')
                # any inner dimension
                add(f'AlignedNDArray<{z} bytes,2>/vec {vec}/outer {o}/any inner',pre+f'''hwy::AlignedNDArray<{t},2> a({{{{ (size_t){o}ull, n }}}}); const u64 mi=a.memory_shape()[1], base=(u64)VFarena+VFshift, p=(u64)a.data();
                  const u64 room=VFreq-(p-base); q[0]= (n==0||p%HWY_ALIGNMENT==0) && mi>=n && mi%{vec}==0 && a.shape()[1]==n && mi<=room/{z}/{o}ull && VFzp==p && VFzn/{z}/{o}ull>=mi && VFzn<=room;''',roles=RN,sb=0)
                add(f'AlignedNDArray<{z} bytes,2>/vec {vec}/inner {o}/any outer',pre+f'''hwy::AlignedNDArray<{t},2> a({{{{ n, (size_t){o}ull }}}}); const u64 mi=a.memory_shape()[1], base=(u64)VFarena+VFshift, p=(u64)a.data();
                  const u64 room=VFreq-(p-base); q[0]= mi>=(size_t){o}ull && mi%{vec}==0 && a.shape()[0]==n && n<=room/{z}/({(o+vec-1)//vec*vec}ull) && mi=={(o+vec-1)//vec*vec}ull && VFzp==p && VFzn<=room;''',roles=RN,sb=0)
            # every combination of dimensions of the form (1..4) << (0..63), two and three axes
            for ax,shape in ((2,'{{a0,a1}}'),(3,'{{a0,a1,5}}'),(3,'{{3,a0,a1}}')):
                add(f'AlignedNDArray<{z} bytes,{ax}>/vec {vec}/{shape}',f'''VFvec={vec}; const size_t a0=((size_t)((n&3)+1))<<(n>>2&63), a1=((size_t)((x&3)+1))<<(x>>2&63); if(a0==0||a1==0) return; const size_t sh[]={shape[1:-1]}; std::array<size_t,{ax}> S;
                  for(int k=0;k<{ax};k++) S[k]=sh[k]; hwy::AlignedNDArray<{t},{ax}> a(S); const u64 base=(u64)VFarena+VFshift, p=(u64)a.data(), room=VFreq-(p-base);
                  u64 bytes={z}, wrap=0; for(int k={ax}-1;k>=0;k--) {{ const u64 d=k=={ax}-1?a.memory_shape()[k]:sh[k]; if(d<sh[k]) wrap=1; u64 r; if(__builtin_mul_overflow(bytes,d,&r)) wrap=1; bytes=r; }} q[0]=!wrap && bytes<=room && VFzn==bytes;''',roles=RO.replace('s:n:64','s:n:64:8').replace('s:x:64','s:x:64:8'),sb=0)
    return I

# ---------------------------------------------------------------- A02
PRO2='''#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <algorithm>
#include <array>
#include <atomic>
#include <limits>
#include <memory>
#include <type_traits>
#include <utility>
#include <vector>
#define NOUN _Pragma("clang loop unroll(disable)")
using u64 = uint64_t;
// log of allocations and releases: kind (1 default, 2 custom), address, opaque
struct VFev { u64 kind; const void* p; const void* op; };
extern "C" { alignas(4096) unsigned char VFarena[5 * 4096]; VFev VFa[8], VFd[8]; u64 VFna, VFnd, VFshift, VFfail, VFseq, VFfreedAt; unsigned char VFops[64]; }
static inline void* VFraw(u64 kind, const void* op) {
  if (VFfail) return nullptr;
  if (VFna >= 5) return nullptr;
  void* p = VFarena + 4096 * VFna + VFshift; VFa[VFna].kind = kind; VFa[VFna].p = p; VFa[VFna].op = op; VFna++; return p;
}
static inline void VFrel(u64 kind, const void* p, const void* op) { VFseq++; VFfreedAt = VFseq; if (VFnd < 8) { VFd[VFnd].kind = kind; VFd[VFnd].p = p; VFd[VFnd].op = op; } VFnd++; }
extern "C" __attribute__((noinline)) void* VFalloc(void* op, size_t) { return VFraw(2, op); }
extern "C" __attribute__((noinline)) void* VFalloc3(void* op, size_t) { return VFraw(3, op); }
extern "C" __attribute__((noinline)) void VFfree(void* op, void* p) { VFrel(2, p, op); }
extern "C" __attribute__((noinline)) void VFfree3(void* op, void* p) { VFrel(3, p, op); }
static inline void* VFmalloc(size_t) { return VFraw(1, nullptr); }
static inline void VFfree0(void* p) { if (p) VFrel(1, p, nullptr); }
static inline void* VFmemset(void* p, int, size_t) { return p; }
#define malloc VFmalloc
#define free VFfree0
#define memset VFmemset
#define __builtin_memset VFmemset
#undef HWY_ASSERT
#include "hwy/aligned_allocator.cc"
#include "hwy/contrib/image/image.cc"
#undef malloc
#undef free
#undef memset
#undef __builtin_memset
namespace hwy { size_t VectorBytes() { return 16; } }
// released the first n allocations, each once, through the matching deallocator, in any order, and nothing else
static inline u64 VFdone(u64 n) {
  if (VFnd != n || VFna < n) return 0;
  u64 ok = 1;
  for (u64 k = 0; k < 5; k++) if (k < n) { u64 c = 0; for (u64 j = 0; j < 5; j++) if (j < n && VFd[j].p == VFa[k].p && VFd[j].kind == VFa[k].kind && VFd[j].op == VFa[k].op) c++; if (c != 1) ok = 0; }
  return ok;
}
static inline u64 VFall() { return VFdone(VFna); }
struct VFo { static u64 made, gone, madeAt[8], goneAt[8], late; VFo() { if (made < 8) madeAt[made] = (u64)this; made++; } explicit VFo(int) : VFo() {} ~VFo() { if (gone < 8) goneAt[gone] = (u64)this; gone++; VFseq++; if (VFfreedAt) late = 1; } VFo(const VFo&) = delete; unsigned char b[24]; };
u64 VFo::made, VFo::gone, VFo::madeAt[8], VFo::goneAt[8], VFo::late;
// element types of other sizes
template <int N> struct VFt { VFt() { if (VFo::made < 8) VFo::madeAt[VFo::made] = (u64)this; VFo::made++; } ~VFt() { if (VFo::gone < 8) VFo::goneAt[VFo::gone] = (u64)this; VFo::gone++; VFseq++; if (VFfreedAt) VFo::late = 1; } VFt(const VFt&) = delete; unsigned char b[N]; };
static inline u64 VFobj(u64 n) { u64 ok = VFo::made == n && VFo::gone == n && !VFo::late; for (u64 k = 0; k < 8; k++) if (k < n) { u64 c = 0, d = 0; for (u64 j = 0; j < 8; j++) if (j < n) { if (VFo::goneAt[j] == VFo::madeAt[k]) c++; if (VFo::madeAt[j] == VFo::madeAt[k]) d++; } if (c != 1 || d != 1) ok = 0; } return ok; }
struct VFp { unsigned char b[3]; };
// ownership cannot be duplicated
template <class T> constexpr bool VFown() { return !std::is_copy_constructible<T>::value && !std::is_copy_assignable<T>::value && std::is_move_constructible<T>::value && std::is_move_assignable<T>::value; }
'''
WIT=['hwy::AlignedUniquePtr<VFo>','hwy::AlignedUniquePtr<VFo[]>','hwy::AlignedFreeUniquePtr<float>','hwy::AlignedFreeUniquePtr<float[]>','hwy::AlignedNDArray<float,2>','hwy::ImageBase','hwy::Image<float>','hwy::Image3<float>']
def insts2(tier):
    I=Inst(); P='VFops+(x&15)'; sb=4 if tier=='quick' else 7
    def add(id,body,fail=True,n=64):
        I.add(id,f'extern "C" void i@{SG} {{ q[0]=1; VFshift=s<<4; VFfail=f; {body} }}',f'extern "C" void r@{SG} {{ q[0]=1; }}',f'p:q:8:0:8:wrz s:n:64:{n} s:s:64:{sb} s:f:64:{"1" if fail else "=0"} s:x:64:4')
    for w in WIT: add('not copyable: '+w,f'static_assert(VFown<{w}>(),"{w}"); q[0]=VFown<{w}>();')
    # plain interface
    add('FreeAlignedBytes/custom',f'void* p=hwy::AllocateAlignedBytes(n|1,&VFalloc,{P}); hwy::FreeAlignedBytes(p,&VFfree,{P}); q[0]=VFall();')
    add('FreeAlignedBytes/malloc','void* p=hwy::AllocateAlignedBytes(n|1); hwy::FreeAlignedBytes(p,nullptr,nullptr); q[0]=VFall();')
    add('FreeAlignedBytes/null',f'hwy::FreeAlignedBytes(nullptr,nullptr,nullptr); hwy::FreeAlignedBytes(nullptr,&VFfree,{P}); q[0]=VFnd==0;')
    for g in range(1,5 if tier=='quick' else 5): # cyclic offsets, interleaved
        al=''.join(f'void* p{k}=hwy::AllocateAlignedBytes({64*k+1}+(n>>2),&VFalloc,VFops+{k});' for k in range(g)); fr=''.join(f'hwy::FreeAlignedBytes(p{k},&VFfree,VFops+{k});' for k in range(g))
        add(f'FreeAlignedBytes/{g} blocks',al+fr+'q[0]=VFall();')
    add('caller bytes do not affect release',f'unsigned char* p=(unsigned char*)hwy::AllocateAlignedBytes(64,&VFalloc,{P}); if(!p) return; NOUN for(int k=0;k<64;k++) p[k]=0xA5; hwy::FreeAlignedBytes(p,&VFfree,{P}); q[0]=VFall();')
    # owners
    for nm,mk in (('custom',f'&VFalloc,&VFfree,{P}'),('custom3',f'&VFalloc3,&VFfree3,{P}')):
        add(f'AllocateAligned/{nm}/scope',f'{{ auto p=hwy::AllocateAligned<float>(n|1,{mk}); q[0]=VFnd==0; }} q[0]=q[0]&VFall();')
        add(f'AllocateAligned/{nm}/reset',f'{{ auto p=hwy::AllocateAligned<float>(n|1,{mk}); p.reset(); q[0]=VFall(); }} q[0]=q[0]&VFall();')
        add(f'AllocateAligned/{nm}/move',f'{{ auto p=hwy::AllocateAligned<float>(n|1,{mk}); {{ auto p2=std::move(p); }} q[0]=VFall(); }} q[0]=q[0]&VFall();')
        add(f'AllocateAligned/{nm}/release',f'float* r; {{ auto p=hwy::AllocateAligned<float>(n|1,{mk}); r=p.release(); }} q[0]=VFnd==0; hwy::FreeAlignedBytes(r,{mk.split(",",1)[1]}); q[0]=q[0]&VFall();')
        add(f'MakeUniqueAlignedArray/{nm}/items',f'u64 k; {{ auto p=hwy::MakeUniqueAlignedArrayWithAlloc<VFo>(n+1,{mk}); k=p?n+1:0; q[0]=VFnd==0&&VFo::gone==0; }} q[0]=q[0]&VFall()&VFobj(k);',n=2)
        add(f'MakeUniqueAlignedArray/{nm}/args',f'u64 k; {{ auto p=hwy::MakeUniqueAlignedArrayWithAlloc<VFo>(n+1,{mk},5); k=p?n+1:0; }} q[0]=VFall()&VFobj(k);',n=2)
        for z in (1,2,3,5,8,12,16,40,100): add(f'MakeUniqueAlignedArray/{nm}/items of {z} bytes',f'u64 k; {{ auto p=hwy::MakeUniqueAlignedArrayWithAlloc<VFt<{z}>>(n+1,{mk}); k=p?n+1:0; q[0]=VFnd==0&&VFo::gone==0; }} q[0]=q[0]&VFall()&VFobj(k);',n=2)
        add(f'MakeUniqueAligned/{nm}',f'u64 k; {{ auto p=hwy::MakeUniqueAlignedWithAlloc<VFo>({mk}); k=p?1:0; q[0]=VFnd==0&&VFo::gone==0; }} q[0]=q[0]&VFall()&VFobj(k);')
    for nm,mk,other in (('malloc','','&VFalloc,&VFfree,VFops'),):
        add('AllocateAligned/malloc/scope','{ auto p=hwy::AllocateAligned<float>(n|1); q[0]=VFnd==0; } q[0]=q[0]&VFall();')
        add('AllocateAligned/malloc/swap with custom',f'{{ auto p=hwy::AllocateAligned<float>(n|1); auto p2=hwy::AllocateAligned<float>(n|1,{other}); p.swap(p2); {{ auto p3=std::move(p); }} q[0]=VFnd==VFna/2; }} q[0]=q[0]&VFall();')
        add('AllocateAligned/malloc/move-assign over custom',f'{{ auto p=hwy::AllocateAligned<float>(n|1); auto p2=hwy::AllocateAligned<float>(n|1,{other}); p2=std::move(p); q[0]=VFnd==VFna/2; }} q[0]=q[0]&VFall();')
        add('MakeUniqueAlignedArray/malloc/items','u64 k; { auto p=hwy::MakeUniqueAlignedArray<VFo>(n+1); k=p?n+1:0; } q[0]=VFall()&VFobj(k);',n=2)
        add('MakeUniqueAlignedArray/reset','u64 k; { auto p=hwy::MakeUniqueAlignedArray<VFo>(n+1); k=p?n+1:0; p.reset(); q[0]=VFobj(k); } q[0]=q[0]&VFall()&VFobj(k);',n=2)
        for z in (1,2,3,5,8,12,16,40,100): add(f'MakeUniqueAlignedArray/malloc/items of {z} bytes',f'u64 k; {{ auto p=hwy::MakeUniqueAlignedArray<VFt<{z}>>(n+1); k=p?n+1:0; }} q[0]=VFall()&VFobj(k);',n=2)
        add('MakeUniqueAligned/malloc','u64 k; { auto p=hwy::MakeUniqueAligned<VFo>(); k=p?1:0; } q[0]=VFall()&VFobj(k);')
        add('MakeUniqueAligned/move into vector of owners','u64 k; { auto p=hwy::MakeUniqueAligned<VFo>(); k=p?1:0; hwy::AlignedUniquePtr<VFo> a[2]; a[1]=std::move(p); a[0]=std::move(a[1]); q[0]=VFnd==0; } q[0]=q[0]&VFall()&VFobj(k);')
    add('AlignedAllocator',' hwy::AlignedAllocator<VFp> a; VFp* p=a.allocate(n+1); VFp* r=a.allocate(1u); q[0]=VFnd==0; a.deallocate(p,n+1); q[0]=q[0]&(!p||VFnd==1); hwy::AlignedAllocator<float> b(a); hwy::AlignedAllocator<VFp>(b).deallocate(r,1); q[0]=q[0]&VFall();')
    add('AlignedVector','{ hwy::AlignedVector<float> v; NOUN for(u64 k=0;k<=n;k++) v.push_back(1.0f); q[0]=VFnd+1==VFna; } q[0]=q[0]&VFall();',fail=False,n=2)
    add('AlignedVector/move','{ hwy::AlignedVector<float> v((n&3)+1); hwy::AlignedVector<float> w(std::move(v)); v=hwy::AlignedVector<float>(3); w=std::move(v); } q[0]=VFall();',fail=False,n=2)
    add('AlignedNDArray','{ hwy::AlignedNDArray<float,2> a({{ (n&1023)+1, 5 }}); q[0]=VFnd==0; } q[0]=q[0]&VFall();',fail=False)
    add('AlignedNDArray/move','{ hwy::AlignedNDArray<float,2> a({{ (n&1023)+1, 5 }}); hwy::AlignedNDArray<float,2> b(std::move(a)); hwy::AlignedNDArray<float,2> c({{ 2, 2 }}); c=std::move(b); q[0]=VFnd==1; } q[0]=q[0]&VFall();',fail=False)
    add('AlignedNDArray/truncate','{ hwy::AlignedNDArray<float,2> a({{ (n&1023)+1, 5 }}); a.truncate({{ 1, 2 }}); q[0]=VFnd==0; } q[0]=q[0]&VFall();',fail=False)
    for t in ('uint8_t','float'):
        add(f'Image<{t}>',f'{{ hwy::Image<{t}> a(n,2); hwy::Image<{t}> z; q[0]=VFnd==0; }} q[0]=q[0]&VFall();',fail=False)
        add(f'Image<{t}>/move',f'{{ hwy::Image<{t}> a((n&0xFFFFF)+1,2); hwy::Image<{t}> b(std::move(a)); hwy::Image<{t}> c(2,2); c=std::move(b); q[0]=VFnd==1; }} q[0]=q[0]&VFall();',fail=False)
        add(f'Image<{t}>/Swap,ShrinkTo',f'{{ hwy::Image<{t}> a((n&0xFFFFF)+1,2); {{ hwy::Image<{t}> b; b.Swap(a); b.ShrinkTo(1,1); q[0]=VFnd==0; }} q[0]=q[0]&(VFnd==1); }} q[0]=q[0]&VFall();',fail=False)
        add(f'Image<{t}>/external memory is not released',f'{{ hwy::Image<{t}> a((n&0xFFFFF)+1,2,256,VFarena); hwy::Image<{t}> b(std::move(a)); hwy::Image<{t}> c(2,2); c=std::move(b); q[0]=VFnd==1; }} q[0]=q[0]&VFall();',fail=False)
        add(f'Image3<{t}>',f'{{ hwy::Image3<{t}> a((n&0xFFFFF)+1,2); hwy::Image3<{t}> b(std::move(a)); q[0]=VFnd==0; }} q[0]=q[0]&VFall();',fail=False)
    return I
def m():
    a=std_args(); sc=a.dump or scratch('al'); os.makedirs(sc,exist_ok=True); build_tools(); os.environ['BITFLOW_ADDR']='1'
    two=a.prop=='A02'
    rs=analyse(sc,'host',PRO2 if two else PRO,(insts2 if two else insts)(a.tier),['-fno-threadsafe-statics','-fno-builtin','-fno-exceptions'],per=10)
    if not two: rs+=analyse(sc,'aarch64',PRO,insts(a.tier,256),['-fno-threadsafe-statics','-fno-builtin','-fno-exceptions']+cross_flags(sc,'aarch64-linux-gnu'),per=10)
    if a.dump: show(rs)
    v=violations(rs)
    if not v:
        need_done(rs)
        und=[r for r in rs if r['undecided']]
        if und: raise Broken('undecided: '+und[0]['id']+' '+und[0]['undec_why'][:300])
    if two:
        cov=dict(summary(rs),explanation='Each obligation is one ownership history; the recorded releases (deallocator, opaque value, address) are compared, as exact functions of the free inputs, with the recorded allocations.',rule='every allocation is released exactly once, through the deallocator and opaque value that match it, with the address the allocator returned, when its owner is destroyed and not before; every constructed object is destroyed once, before the release; owners are not copyable')
        finish('A02',a.tier,'proof',cov,v,['clang front end and optimiser preserve the source semantics','std::unique_ptr and std::vector of the installed standard library'])
    cov=dict(summary(rs),explanation='Each obligation evaluates one allocation interface with a free 64-bit element count, a free misalignment of the underlying block and a free allocation failure; the requested size, the returned address and the bookkeeping are compared as exact functions of those.',
      rule='result is null, or aligned and inside the requested block with n*sizeof(T) bytes after it (no wrap); bookkeeping only between block start and payload')
    finish('A01',a.tier,'proof',cov,v,['clang front end and optimiser preserve the source semantics','64-bit size_t','the underlying allocator returns null or a block of the size it was asked for'])
main(m)
