#!/usr/bin/env python3
"""C09: image rows are in bounds, aligned and padded as promised: image.cc is evaluated with free sizes."""
from bfx import *
PRO='''#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <algorithm>
#include <array>
#include <atomic>
#include <limits>
#include <memory>
#include <utility>
#include <vector>
using u64 = uint64_t;
extern "C" { alignas(4096) unsigned char VFarena[5 * 4096]; size_t VFshift, VFvec, VFcalls; u64 VFat[5], VFlen[5]; u64 VFsz; }
// every block is as large as was asked for, at an arbitrary 16-byte misalignment
static inline void* VFmalloc(size_t n) { if (VFcalls >= 5) return nullptr; void* p = VFarena + 4096 * VFcalls + VFshift; VFat[VFcalls] = (u64)p; VFlen[VFcalls] = n; VFcalls++; return p; }
static inline void VFfree0(void*) {}
static inline void* VFmemset(void* p, int, size_t) { return p; }
#define malloc VFmalloc
#define free VFfree0
#define memset VFmemset
#define __builtin_memset VFmemset
#include "hwy/aligned_allocator.cc"
#include "hwy/contrib/image/image.cc"
#undef malloc
#undef free
#undef memset
#undef __builtin_memset
namespace hwy { size_t VectorBytes() { return VFvec; } }
static inline u64 VFmul(u64 a, u64 b, u64* r) { return !__builtin_mul_overflow(a, b, r); }
static inline u64 VFadd(u64 a, u64 b, u64* r) { return !__builtin_add_overflow(a, b, r); }
// bytes of a row that may be read: the pixels, and for vectors also a whole vector starting at the last pixel
static inline u64 VFneed(u64 x, u64 size, u64 vec, u64* r) { return VFmul(x, size, r) && VFadd(*r, vec > 1 ? vec - size : 0, r); }
// row [p, p + need) of a stride-bytes-per-row image lies in block k
static inline u64 VFin(u64 k, const void* p, u64 bytes) { const u64 a = (u64)p; return a >= VFat[k] && a - VFat[k] <= VFlen[k] && VFlen[k] - (a - VFat[k]) >= bytes; }
'''
SG='(u64* q, u64 n, u64 m, u64 y, u64 s)'
def insts(tier,VEC=None):
    I=Inst(); quick=tier=='quick'; vecs=VEC or ((1,16,32,64) if quick else (1,8,16,32,64,128)); T=[('uint8_t',1),('uint16_t',2),('float',4),('double',8)]
    SEL=lambda d,v: f'const u64 {d}=((u64)(({v}&3)+1))<<({v}>>2&63); '
    def add(id,body,n=64,m=64,y=64,s=3):
        f=lambda w: '64:=0' if w==0 else '64' if w==64 else f'64:{w}'
        I.add(id,f'extern "C" void i@{SG} {{ q[0]=1; VFshift=s<<4; VFcalls=0; {body} }}',f'extern "C" void r@{SG} {{ q[0]=1; }}',f'p:q:8:0:8:wrz s:n:{f(n)} s:m:{f(m)} s:y:{f(y)} s:s:{f(s)}')
    for t,z in T:
        for v in vecs:
            if v!=1 and v<z: continue
            P=f'VFvec={v}; '
            # any 64-bit width
            add(f'BytesPerRow({z} bytes)/vec {v}',P+f'u64 need; const u64 r=hwy::ImageBase::BytesPerRow(n,{z}); q[0]=VFneed(n,{z},{v},&need) && r>=need && r%{v}==0 && r%HWY_ALIGNMENT==0;',m=0,y=0,s=0)
            # the vector size may change between calls (DisableTargets): rows are always padded for the current one
            for v0 in (w for w in (1,16,64) if w!=v and (w==1 or w>=z)):
                add(f'BytesPerRow({z} bytes)/vec {v} after {v0}',f'VFvec={v0}; (void)hwy::ImageBase::BytesPerRow(1,{z}); (void)hwy::ImageBase::VectorSize(); '+P+f'u64 need; const u64 r=hwy::ImageBase::BytesPerRow(n,{z}); q[0]=VFneed(n,{z},{v},&need) && r>=need && r%{v}==0 && r%HWY_ALIGNMENT==0 && hwy::ImageBase::VectorSize()=={v};',m=0,y=0,s=0)
                add(f'Image<{t}>/vec {v} after {v0}/any width, one row',f'VFvec={v0}; {{ hwy::Image<{t}> z(1,1); }} VFcalls=0; '+P+f'u64 need; if(n==0) return; hwy::Image<{t}> a(n,1); q[0]=VFneed(n,{z},{v},&need) && VFin(0,a.ConstRow(0),need) && (u64)a.ConstRow(0)%{v}==0;',m=0,y=0)
            # any width and height, as requested or an abort; the stride is the computed one
            add(f'Image<{t}>/vec {v}/dimensions',P+f'VFvec={v}; if(n==0||m==0) return; hwy::Image<{t}> a(n,1); hwy::Image<{t}> b(1,m); q[0]=a.xsize()==n && a.ysize()==1 && b.xsize()==1 && b.ysize()==m && a.bytes_per_row()==hwy::ImageBase::BytesPerRow(n,{z}) && (u64)a.PixelsPerRow()*{z}==a.bytes_per_row();',y=0,s=0)
            add(f'Image<{t}>/vec {v}/any width, one row',P+f'u64 need; hwy::Image<{t}> a(n,1); if(n==0) return; q[0]=VFneed(n,{z},{v},&need) && VFin(0,a.ConstRow(0),need) && (u64)a.ConstRow(0)%{v}==0 && (u64)a.ConstRow(0)%64==0 && a.MutableRow(0)==a.ConstRow(0) && (const void*)a.bytes()==a.ConstRow(0);',m=0,y=0)
            add(f'Image<{t}>/vec {v}/any width, row y of 4',P+f'u64 need; hwy::Image<{t}> a(n,4); if(n==0) return; y&=3; const u64 r=(u64)a.ConstRow(y); q[0]=VFneed(n,{z},{v},&need) && need<=a.bytes_per_row() && VFin(0,a.ConstRow(y),a.bytes_per_row()) && r%{v}==0 && r%64==0 && r==(u64)a.bytes()+y*a.bytes_per_row() && a.MutableRow(y)==a.ConstRow(y);',m=0,y=2)
            for w in ((1,3,v//z or 1,1920) if quick else (1,2,3,v//z or 1,v//z+1,63,64,65,255,1920,65535,(1<<32)-1)):
                add(f'Image<{t}>/vec {v}/width {w}, any height',P+f'u64 need, total; if(!m) return; hwy::Image<{t}> a({w}ull,m); q[0]=VFneed({w}ull,{z},{v},&need) && need<=a.bytes_per_row() && VFmul(a.bytes_per_row(),m,&total) && VFin(0,a.bytes(),total);',n=0,m=33,y=0,s=0)
                add(f'Image<{t}>/vec {v}/width {w}, any row',P+f'hwy::Image<{t}> a({w}ull,(1ull<<32)-1); const u64 st=a.bytes_per_row(), b=(u64)a.bytes(), r=(u64)a.ConstRow(y), w=(u64)a.MutableRow(y); y&=(1ull<<32)-1; q[0]=r==b+y*st && w==r && (r|st)%{v}==0 && r%64==0;'.replace('a.ConstRow(y)','a.ConstRow(y&((1ull<<32)-1))').replace('a.MutableRow(y)','a.MutableRow(y&((1ull<<32)-1))'),n=0,m=0,y=32)
            # any combination of sizes of the form (1..4)<<k
            add(f'Image<{t}>/vec {v}/(1..4)<<k sizes',P+SEL('w','n')+SEL('h','m')+f'if(w==0||h==0) return; u64 need, total; hwy::Image<{t}> a(w,h); q[0]=a.xsize()==w && a.ysize()==h && VFneed(w,{z},{v},&need) && need<=a.bytes_per_row() && VFmul(a.bytes_per_row(),h,&total) && VFin(0,a.bytes(),total);',n=8,m=8,y=0,s=0)
            # several planes: each row inside its own plane
            add(f'Image3<{t}>/vec {v}/any width, row y of 4',P+f'u64 need; if(n==0) return; hwy::Image3<{t}> a(n,4); y&=3; q[0]=a.xsize()==n && a.ysize()==4 && VFneed(n,{z},{v},&need); '
              +' '.join(f'{{ const u64 r=(u64)a.ConstPlaneRow({c},y); if(!VFin({c},a.ConstPlaneRow({c},y),need)||!VFin({c},a.ConstPlaneRow({c},y),a.bytes_per_row())||r%{v}||r%HWY_ALIGNMENT||a.MutablePlaneRow({c},y)!=a.ConstPlaneRow({c},y)||a.Plane({c}).ConstRow(y)!=a.ConstPlaneRow({c},y)) q[0]={c+2}; }}' for c in range(3)),m=0,y=2,s=0 if quick else 3)
            for w in ((3,1920) if quick else (1,3,65,1920,65535)):
                add(f'Image3<{t}>/vec {v}/width {w}, any height',P+f'if(!m) return; hwy::Image3<{t}> a({w},m); '+' '.join(f'{{ u64 total; if(!VFmul(a.bytes_per_row(),m,&total)||!VFin({c},a.Plane({c}).bytes(),total)) q[0]={c+2}; }}' for c in range(3)),n=0,m=33,y=0,s=0)
                add(f'Image3<{t}>/vec {v}/width {w}, any row',P+f'hwy::Image3<{t}> a({w},(1ull<<32)-1); y&=(1ull<<32)-1; '+' '.join(f'if((u64)a.ConstPlaneRow({c},y)!=(u64)a.Plane({c}).bytes()+y*a.bytes_per_row()||a.MutablePlaneRow({c},y)!=a.ConstPlaneRow({c},y)) q[0]={c+2};' for c in range(3)),n=0,m=0,y=32,s=0)
            # planes given by the caller: shrunk to a common size, with different strides; moved, swapped and assigned bundles
            add(f'Image3<{t}>/vec {v}/shrunk planes',P+f'n&=1023; m&=1023; if(!n||!m) return; hwy::Image<{t}> a(n,4), b(m,4), c(5,4); a.ShrinkTo(1,4); b.ShrinkTo(1,4); c.ShrinkTo(1,4); hwy::Image3<{t}> i(std::move(a),std::move(b),std::move(c)); y&=3; '
              +' '.join(f'if(!VFin({k},i.ConstPlaneRow({k},y),{z}+({v}>1?{v}-{z}:0))||(u64)i.ConstPlaneRow({k},y)!=(u64)i.Plane({k}).ConstRow(y)) q[0]={k+2};' for k in range(3)),n=10,m=10,y=2,s=0)
            if z in (1,4):
                add(f'Image<{t}>/vec {v}/Swap, move, ShrinkTo keep the stride',P+f'n&=0xFFFFFFF; if(!n) return; hwy::Image<{t}> a(n,4), b; const u64 r=(u64)a.ConstRow(y&3), st=a.bytes_per_row(); a.ShrinkTo(1+n/2,3); b.Swap(a); q[0]=b.xsize()==1+n/2 && b.ysize()==3 && a.xsize()==0 && (u64)b.ConstRow(y&3)==r; hwy::Image<{t}> c(std::move(b)); if((u64)c.ConstRow(y&3)!=r||c.bytes_per_row()!=st||c.xsize()!=1+n/2) q[0]=2; hwy::Image<{t}> d; d=std::move(c); if((u64)d.ConstRow(y&3)!=r||d.bytes_per_row()!=st||d.ysize()!=3) q[0]=3;',n=28,m=0,y=2,s=0)
            # external memory: only accepted when base and stride are vector multiples
            add(f'Image<{t}>/vec {v}/external',P+f'u8_* p=(u8_*)((u64)VFarena+(m&4095)); hwy::Image<{t}> a(5,4,n,p); q[0]=((u64)p%{v}==0) && n%{v}==0 && a.bytes_per_row()==n && (u64)a.bytes()==(u64)p && a.xsize()==5 && a.ysize()==4;'.replace('u8_','unsigned char'),m=12,y=0,s=0)
            add(f'Image<{t}>/vec {v}/external dimensions',P+f'hwy::Image<{t}> a(n,m,4096,VFarena); q[0]=a.xsize()==n && a.ysize()==m;',y=0,s=0)
    return I
def m():
    a=std_args(); sc=a.dump or scratch('im'); os.makedirs(sc,exist_ok=True); build_tools(); os.environ['BITFLOW_ADDR']='1'
    rs=analyse(sc,'host',PRO,insts(a.tier),['-fno-threadsafe-statics','-fno-builtin','-fno-exceptions'],per=10)
    # Arm: vectors up to 256 bytes
    rs+=analyse(sc,'aarch64',PRO,insts(a.tier,(16,256)),['-fno-threadsafe-statics','-fno-builtin','-fno-exceptions']+cross_flags(sc,'aarch64-linux-gnu'),per=10)
    if a.dump: show(rs)
    v=violations(rs)
    if not v:
        need_done(rs); und=[r for r in rs if r['undecided']]
        if und: raise Broken('undecided: '+und[0]['id']+' '+und[0]['undec_why'][:300])
    cov=dict(summary(rs),explanation='Each obligation evaluates an image construction and row accesses with free 64-bit sizes (products of two free sizes: every pair (1..4)<<k, and fixed widths times every height), a free misalignment of the underlying blocks and vector sizes from 1 to 128 bytes (256 on Arm); the sizes requested from the allocator, the stride and the row addresses are compared as exact functions of those.',
      rule='stride >= pixels + vector - pixel, multiple of vector and cache line; ysize*stride bytes inside the block; row y at y*stride; no wrap, no truncated dimension (abort instead); rows of all planes inside their own block')
    finish('C09',a.tier,'proof',cov,v,['clang front end and optimiser preserve the source semantics','64-bit size_t','malloc returns a block of the size it was asked for'])
main(m)
