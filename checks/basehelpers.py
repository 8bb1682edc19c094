#!/usr/bin/env python3
"""R05: scalar helpers of base.h as bit functions of every input, and their constants by compile-time witnesses."""
from bfcheck import *
INC='''using u8=uint8_t; using u16=uint16_t; using u32=uint32_t; using u64=uint64_t;
#define NOUN _Pragma("clang loop unroll(disable)")
template<class T> static inline T ld(const void* p,int i=0){ T x; __builtin_memcpy((void*)&x,(const char*)p+i*sizeof(T),sizeof(T)); return x; }
template<class T> static inline u64 bits(T x){ u64 r=0; __builtin_memcpy(&r,(const void*)&x,sizeof(T)); return r; }
static inline __attribute__((always_inline)) u32 ref_f16d(u64 b){ u32 s=b>>63,e=(b>>52)&2047; u64 m=b&0xfffffffffffffull; if(e==2047) return m?0x7fff:(s<<15|0x7c00); u64 r=0; u64 M=m|1ull<<52; if(e>=1039||(e==1038&&(M>>41)>=4095)) return s<<15|0x7c00; if(e<998) return s<<15; u32 sh=e>=1009?42:42+1009-e; u64 base=M>>sh,rem=M&((1ull<<sh)-1),half=1ull<<(sh-1); r=base+((rem>half)||(rem==half&&(base&1))); if(e>=1009) r+=(u64)(e-1009)*1024; return s<<15|(u32)r; }
static inline __attribute__((always_inline)) u32 ref_bf16d(u64 b){ u32 s=b>>63,e=(b>>52)&2047; u64 m=b&0xfffffffffffffull; if(e==2047) return m?0x7fff:(s<<15|0x7f80); u64 r=0; u64 M=m|1ull<<52; if(e>=1151) return s<<15|0x7f80; if(e<889) return s<<15; u32 sh=e>=897?45:45+897-e; u64 base=M>>sh,rem=M&((1ull<<sh)-1),half=1ull<<(sh-1); r=base+((rem>half)||(rem==half&&(base&1))); if(e>=897) r+=(u64)(e-897)*128; return s<<15|(u32)r; }
// IEEE binary16 from binary32 bits, round to nearest even; every NaN is 0x7fff
static inline __attribute__((always_inline)) u32 ref_f16(u32 b){ u32 s=b>>31,e=(b>>23)&255,m=b&0x7fffff; if(e==255) return m?0x7fff:(s<<15|0x7c00); u32 r=0;
  if(e>=113){ u32 M=m|0x800000,base=M>>13,rem=M&0x1fff; r=base+((rem>0x1000)||(rem==0x1000&&(base&1))); r=(e-113)*1024+r; if(r>=0x7c00) r=0x7c00; }
  for(u32 k=102;k<113;k++) if(e==k){ u32 M=m|0x800000,sh=126-k,base=M>>sh,rem=M&((1u<<sh)-1),half=1u<<(sh-1); r=base+((rem>half)||(rem==half&&(base&1))); }
  return s<<15|r; }
static inline __attribute__((always_inline)) u32 ref_f32(u32 h){ u32 s=h>>15,e=(h>>10)&31,m=h&1023; if(e==31) return s<<31|0x7f800000|m<<13; if(e) return s<<31|(e+112)<<23|m<<13; if(!m) return s<<31; u32 r=0; for(u32 k=0;k<10;k++) if(m>>k==1){ r=(103+k)<<23|((m<<(23-k))&0x7fffff); } return s<<31|r; }
static inline __attribute__((always_inline)) u32 ref_bf16(u32 b){ if((b&0x7fffffff)>0x7f800000) return 0x7fff; u32 keep=b>>16,rem=b&0xffff; return (keep+((rem>0x8000)||(rem==0x8000&&(keep&1))))&0xffff; }
'''
FT=[('float','u32',23,4),('double','u64',52,8),('hwy::float16_t','u16',10,2),('hwy::bfloat16_t','u16',7,2)]
IT=[('int8_t','u8',1),('int16_t','u16',2),('int32_t','u32',4),('int64_t','u64',8),('uint8_t','u8',1),('uint16_t','u16',2),('uint32_t','u32',4),('uint64_t','u64',8)]
def insts(tier):
    I=Inst(); sg='(const u8* p,u64* q,size_t i)'
    def un(id,expr,ref,inb,extra='s:i:64:1'):
        I.add(id,f'extern "C" void i@{sg} {{ q[0]={expr}; }}',f'extern "C" void r@{sg} {{ {ref} }}',f'p:p:1:0:{inb}:r p:q:8:0:8:w {extra}')
    nan16='[](u64 h){ return (h&0x7fff)>0x7c00?(u64)0x7fff:h; }'; nanb='[](u64 h){ return (h&0x7fff)>0x7f80?(u64)0x7fff:h; }'
    for e in(range(256) if tier!='quick' else [0,1,64,*range(99,117),127,*range(139,146),200,254,255]):
        un(f'F16FromF32/exponent {e}',f'({nan16})(bits(hwy::F16FromF32(hwy::BitCastScalar<float>((ld<u32>(p)&0x807fffffu)|{e}u<<23))))',f'q[0]=ref_f16((ld<u32>(p)&0x807fffffu)|{e}u<<23);',4)
    un('F32FromF16','bits(hwy::F32FromF16(ld<hwy::float16_t>(p)))','q[0]=ref_f32(ld<u16>(p));',2)
    un('F32FromF16Mem','bits(hwy::F32FromF16Mem(p))','q[0]=ref_f32(ld<u16>(p));',2)
    un('F16 round trip',f'({nan16})(bits(hwy::F16FromF32(hwy::F32FromF16(ld<hwy::float16_t>(p)))))',f'q[0]=({nan16})(ld<u16>(p));',2)
    un('BF16FromF32',f'({nanb})(bits(hwy::BF16FromF32(ld<float>(p))))','q[0]=ref_bf16(ld<u32>(p));',4)
    un('F32FromBF16','bits(hwy::F32FromBF16(ld<hwy::bfloat16_t>(p)))','q[0]=(u64)ld<u16>(p)<<16;',2)
    un('F32FromBF16Mem','bits(hwy::F32FromBF16Mem(p))','q[0]=(u64)ld<u16>(p)<<16;',2)
    for f,nm in(('hwy::bfloat16_t','bf16'),('hwy::float16_t','f16')):
        if nm=='bf16': un(f'ConvertScalarTo/f32->{nm}',f'({nanb if nm=="bf16" else nan16})(bits(hwy::ConvertScalarTo<{f}>(ld<float>(p))))',f'q[0]=ref_{nm}(ld<u32>(p));',4)
        un(f'ConvertScalarTo/{nm}->f32',f'bits(hwy::ConvertScalarTo<float>(ld<{f}>(p)))','q[0]=(u64)ld<u16>(p)<<16;' if nm=='bf16' else 'q[0]=ref_f32(ld<u16>(p));',2)
    mk='(ld<u64>(p)&0x800fffffffffffffull)'
    for e in([*range(860,1170),0,1,500,1500,2046,2047] if tier!='quick' else [0,1,870,998,999,1008,1009,1010,1023,1038,1039,1040,1041,1150,1151,1300,2046,2047]):
        un(f'F16FromF64/exponent {e}',f'({nan16})(bits(hwy::F16FromF64(hwy::BitCastScalar<double>({mk}|{e}ull<<52))))',f'q[0]=ref_f16d({mk}|{e}ull<<52);',8)
    for e in([*range(860,1170),0,1,500,1500,2046,2047] if tier!='quick' else [0,1,871,872,888,889,890,896,897,898,1023,1149,1150,1151,1152,2046,2047]):
        un(f'BF16FromF64/exponent {e}',f'({nanb})(bits(hwy::BF16FromF64(hwy::BitCastScalar<double>({mk}|{e}ull<<52))))',f'q[0]=ref_bf16d({mk}|{e}ull<<52);',8)
    for T,U,mb,S in FT:
        n=T.replace('hwy::',''); W=8*S; em=((1<<(W-1-mb))-1)<<mb; sm=1<<(W-1); L=f'{U} x=ld<{U}>(p);'
        a=f'(x&{hex(sm-1)}ull)'
        un(f'ScalarAbs/{n}',f'bits(hwy::ScalarAbs(ld<{T}>(p)))',f'{L} q[0]={a};',S)
        un(f'ScalarIsNaN/{n}',f'hwy::ScalarIsNaN(ld<{T}>(p))',f'{L} q[0]=(x&{hex(em)}ull)=={hex(em)}ull && (x&{hex((1<<mb)-1)}ull)!=0;',S)
        un(f'ScalarIsInf/{n}',f'hwy::ScalarIsInf(ld<{T}>(p))',f'{L} q[0]={a}=={hex(em)}ull;',S)
        un(f'ScalarIsFinite/{n}',f'hwy::ScalarIsFinite(ld<{T}>(p))',f'{L} q[0]=(x&{hex(em)}ull)!={hex(em)}ull;',S)
        un(f'ScalarSignBit/{n}',f'hwy::ScalarSignBit(ld<{T}>(p))',f'{L} q[0]=x>>{W-1};',S)
        un(f'ScalarCopySign/{n}',f'bits(hwy::ScalarCopySign(ld<{T}>(p),ld<{T}>(p,1)))',f'{L} {U} y=ld<{U}>(p,1); q[0]={a}|(y&{hex(sm)}ull);',2*S)
        un(f'BitCastScalar/{n}',f'bits(hwy::BitCastScalar<{U}>(ld<{T}>(p)))+0*i',f'{L} q[0]=x;',S)
        un(f'BitCastScalar/to {n}',f'bits(hwy::BitCastScalar<{T}>(ld<{U}>(p)))',f'{L} q[0]=x;',S)
        if n in('float','double'): un(f'AddWithWraparound/{n}/dep',f'bits(hwy::AddWithWraparound(ld<{T}>(p),3))',f'{T} x=ld<{T}>(p); q[0]=bits(({T})(x+({T})3));',S)
    for T,U,S in IT:
        W=8*S; lg=W.bit_length()-1; sd=not T.startswith('u'); L=f'{U} x=ld<{U}>(p);'
        un(f'ScalarShr/{T}',f'bits(hwy::ScalarShr(ld<{T}>(p),(int)i))',f'{L} u64 r=0; for(int k=0;k<{W};k++) if((size_t)k==i) {{ r=x>>k; {f"if(x>>{W-1}) for(int j={W}-k;j<{W};j++) r|=1ull<<j;" if sd else ""} }} q[0]=r;',S,f's:i:64:{lg}')
        un(f'ScalarAbs/{T}',f'bits(hwy::ScalarAbs(ld<{T}>(p)))',f'{L} q[0]=({U})({"x>>"+str(W-1)+"?0-x:x" if sd else "x"});',S)
        un(f'ScalarSignBit/{T}',f'hwy::ScalarSignBit(ld<{T}>(p))',f'{L} q[0]=x>>{W-1};',S)
        un(f'ScalarIsFinite/{T}',f'hwy::ScalarIsFinite(ld<{T}>(p))','q[0]=1;',S)
        un(f'PopCount/{T}',f'hwy::PopCount(ld<{T}>(p))',f'{L} u64 c=0; NOUN for(int k=0;k<{W};k++) c+=x>>k&1; q[0]=c;',S)
        un(f'AddWithWraparound/{T}',f'bits(hwy::AddWithWraparound(ld<{T}>(p),ld<{T}>(p,1)))',f'{L} q[0]=({U})(x+ld<{U}>(p,1));',2*S)
        un(f'AddWithWraparound/{T},size_t',f'bits(hwy::AddWithWraparound(ld<{T}>(p),i))',f'{L} q[0]=({U})(x+({U})i);',S,'s:i:64')
        un(f'Limits/{T}',f'bits(hwy::LimitsMax<{T}>())+2*bits(hwy::LimitsMin<{T}>())',f'q[0]=(u64){hex((1<<(W-1))-1 if sd else (1<<W)-1)}ull+2*(u64){hex(1<<(W-1) if sd else 0)}ull;',S)
    for W,U in((32,'u32'),(64,'u64')):
        S=W//8
        un(f'Num0BitsBelowLS1Bit_Nonzero{W}',f'ld<{U}>(p)?hwy::Num0BitsBelowLS1Bit_Nonzero{W}(ld<{U}>(p)):99',f'{U} x=ld<{U}>(p); u64 r=99; NOUN for(int k={W-1};k>=0;k--) if(x>>k&1) r=(u64)k; q[0]=r;',S)
        un(f'Num0BitsAboveMS1Bit_Nonzero{W}',f'ld<{U}>(p)?hwy::Num0BitsAboveMS1Bit_Nonzero{W}(ld<{U}>(p)):99',f'{U} x=ld<{U}>(p); u64 r=99; NOUN for(int k=0;k<{W};k++) if(x>>k&1) r=(u64)({W-1}-k); q[0]=r;',S)
    for U,S in(('u8',1),('u16',2),('u32',4),('u64',8)):
        W=8*S
        un(f'FloorLog2/{U}',f'ld<{U}>(p)?hwy::FloorLog2(ld<{U}>(p)):99',f'{U} x=ld<{U}>(p); u64 r=99; NOUN for(int k=0;k<{W};k++) if(x>>k&1) r=(u64)k; q[0]=r;',S)
        if S<8: un(f'CeilLog2/{U}',f'ld<{U}>(p)?hwy::CeilLog2(ld<{U}>(p)):99',f'{U} x=ld<{U}>(p); u64 r=99; if(x==1) r=0; else if(x) {{ x--; NOUN for(int k=0;k<{W};k++) if(x>>k&1) r=(u64)(k+1); }} q[0]=r;',S)
    for al in(1,2,8,64,128,4096):
        lg=al.bit_length()-1
        un(f'RoundUpTo/{al}',f'hwy::RoundUpTo(i,{al})',f'q[0]=i+((0-i)&{al-1});',8,'s:i:64:48')
        un(f'RoundDownTo/{al}',f'hwy::RoundDownTo(i,{al})',f'q[0]=i>>{lg}<<{lg};',8,'s:i:64')
        un(f'DivCeil/{al}',f'hwy::DivCeil(i,(size_t){al})',f'q[0]=(i>>{lg})+((i&{al-1})!=0);',8,'s:i:64:48')
    for d in(3,5,7,12):
        un(f'RoundUpTo/{d}',f'hwy::RoundUpTo(i,{d})',f'u64 r=0; NOUN for(int k=0;k<256;k++) if((size_t)k==i) r=(u64)((k+{d-1})/{d}*{d}); q[0]=r;',8,'s:i:64:8')
        un(f'RoundDownTo/{d}',f'hwy::RoundDownTo(i,{d})',f'u64 r=0; NOUN for(int k=0;k<256;k++) if((size_t)k==i) r=(u64)(k/{d}*{d}); q[0]=r;',8,'s:i:64:8')
        un(f'DivCeil/{d}',f'hwy::DivCeil((u32)i,(u32){d})',f'u64 r=0; NOUN for(int k=0;k<256;k++) if((size_t)k==i) r=(u64)((k+{d-1})/{d}); q[0]=r;',8,'s:i:64:8')
    for n in(1,2,3,4,7,8,16,24,33):
        I.add(f'CopyBytes/{n}',f'extern "C" void i@(const u8* p,u8* q) {{ hwy::CopyBytes<{n}>(p,q); }}',f'extern "C" void r@(const u8* p,u8* q) {{ for(int k=0;k<{n};k++) q[k]=p[k]; }}',f'p:p:1:0:{n}:r p:q:1:0:{n}:w')
        I.add(f'ZeroBytes/{n}',f'extern "C" void i@(const u8* p,u8* q) {{ hwy::ZeroBytes<{n}>(q); }}',f'extern "C" void r@(const u8* p,u8* q) {{ for(int k=0;k<{n};k++) q[k]=0; }}',f'p:p:1:0:{n}:r p:q:1:0:{n}:w')
    I.add('CopyBytes/n','extern "C" void i@(const u8* p,u8* q,size_t n) { hwy::CopyBytes(p,q,n); }','extern "C" void r@(const u8* p,u8* q,size_t n) { NOUN for(size_t k=0;k<31;k++) if(k<n) q[k]=p[k]; }','p:p:1:0:31:r:n=n p:q:1:0:31:w:n=n s:n:64:5','p:p:1:0:31:r p:q:1:0:31:w s:n:64:5')
    I.add('ZeroBytes/n','extern "C" void i@(u8* q,size_t n) { hwy::ZeroBytes(q,n); }','extern "C" void r@(u8* q,size_t n) { NOUN for(size_t k=0;k<31;k++) if(k<n) q[k]=0; }','p:q:1:0:31:w:n=n s:n:64:5','p:q:1:0:31:w s:n:64:5')
    I.add('CopySameSize','extern "C" void i@(const u8* p,u8* q) { hwy::CopySameSize((const float*)p,(u32*)q); }','extern "C" void r@(const u8* p,u8* q) { for(int k=0;k<4;k++) q[k]=p[k]; }','p:p:1:0:4:r p:q:1:0:4:w')
    I.add('Mul128/unsigned','extern "C" void i@(const u64* p,u64* q) { u64 h; q[0]=hwy::Mul128(p[0],p[1],&h); q[1]=h; }','extern "C" void r@(const u64* p,u64* q) { unsigned __int128 x=(unsigned __int128)p[0]*p[1]; q[0]=(u64)x; q[1]=(u64)(x>>64); }','p:p:8:0:16:r p:q:8:0:16:w')
    I.add('Mul128/signed','extern "C" void i@(const u64* p,u64* q) { int64_t h; q[0]=(u64)hwy::Mul128((int64_t)p[0],(int64_t)p[1],&h); q[1]=(u64)h; }','extern "C" void r@(const u64* p,u64* q) { __int128 x=(__int128)(int64_t)p[0]*(int64_t)p[1]; q[0]=(u64)x; q[1]=(u64)(x>>64); }','p:p:8:0:16:r p:q:8:0:16:w')
    return I.r
def witnesses():
    w=[]
    def s(id,c): w.append((id,c))
    for T,U,mb,S in FT:
        W=8*S; eb=W-1-mb; em=((1<<eb)-1)<<mb; sm=1<<(W-1); n=T
        for f,v in(('MantissaBits',mb),('ExponentBits',eb),('MaxExponentField',(1<<eb)-1)): s(f'{f}<{n}>',f'hwy::{f}<{T}>()=={v}')
        for f,v in(('SignMask',sm),('ExponentMask',em),('MantissaMask',(1<<mb)-1)): s(f'{f}<{n}>',f'(u64)hwy::{f}<{T}>()=={hex(v)}ull')
        s(f'MaxExponentTimes2<{n}>',f'({U})hwy::MaxExponentTimes2<{T}>()==({U}){hex(em*2%(1<<W))}ull')
        big=em-1; bias=(1<<(eb-1))-1
        for f,v in(('HighestValue',big),('LowestValue',big|sm),('Epsilon',(bias-mb)<<mb),('MantissaEnd',(bias+mb)<<mb),('PositiveInfOrHighestValue',em),('NegativeInfOrLowestValue',em|sm)):
            s(f'{f}<{n}>',f'hwy::BitCastScalar<{U}>(hwy::{f}<{T}>())==({U}){hex(v)}ull')
        for f,v in(('IsFloat',int(mb!=7)),('IsSigned',1),('IsInteger',0),('IsFloat3264',int(S>2)),('IsSpecialFloat',int(S==2))): s(f'{f}<{n}>',f'hwy::{f}<{T}>()=={"true" if v else "false"}')
        s(f'MakeUnsigned<{n}>',f'(hwy::IsSame<hwy::MakeUnsigned<{T}>,{U}>())')
        if mb!=7: s(f'MakeFloat<{n}>',f'(hwy::IsSame<hwy::MakeFloat<{T}>,{T}>())')
    for T,U,S in IT:
        W=8*S; sd=not T.startswith('u')
        s(f'LimitsMax<{T}>',f'(u64)hwy::LimitsMax<{T}>()==(u64)({T}){hex((1<<(W-1))-1 if sd else (1<<W)-1)}ull'); s(f'LimitsMin<{T}>',f'(u64)({U})hwy::LimitsMin<{T}>()=={hex(1<<(W-1) if sd else 0)}ull')
        s(f'HighestValue<{T}>',f'hwy::HighestValue<{T}>()==hwy::LimitsMax<{T}>()'); s(f'LowestValue<{T}>',f'hwy::LowestValue<{T}>()==hwy::LimitsMin<{T}>()')
        s(f'IsSigned<{T}>',f'hwy::IsSigned<{T}>()=={"true" if sd else "false"}'); s(f'IsInteger<{T}>',f'hwy::IsInteger<{T}>() && !hwy::IsFloat<{T}>()')
        s(f'MakeSigned<{T}>',f'(hwy::IsSame<hwy::MakeSigned<{T}>,int{W}_t>())'); s(f'MakeUnsigned<{T}>',f'(hwy::IsSame<hwy::MakeUnsigned<{T}>,uint{W}_t>())')
        if W<64: s(f'MakeWide<{T}>',f'(hwy::IsSame<hwy::MakeWide<{T}>,{"" if sd else "u"}int{2*W}_t>())')
        if W>8: s(f'MakeNarrow<{T}>',f'(hwy::IsSame<hwy::MakeNarrow<{T}>,{"" if sd else "u"}int{W//2}_t>())')
        for x in(1,2,3,5,(1<<(W-2))-1,(1<<(W-2)),(1<<(W-1))-1):
            if x<1: continue
            s(f'FloorLog2<{T}>({x})',f'hwy::FloorLog2(({T}){x})=={x.bit_length()-1}'); s(f'CeilLog2<{T}>({x})',f'hwy::CeilLog2(({T}){x})=={(x-1).bit_length()}')
    for a in(0,1,7,8,9,63,64,65,1000):
        for b in(1,3,8,64): s(f'RoundUpTo({a},{b})',f'hwy::RoundUpTo({a},{b})=={-(-a//b)*b} && hwy::RoundDownTo({a},{b})=={a//b*b} && hwy::DivCeil({a},{b})=={-(-a//b)}')
    return w
def compile_witnesses(sc):
    """a static_assert per fact, in a build with and without native 16-bit floats, clang and gcc: a false one fails to build"""
    w=witnesses(); src=f'{sc}/wit.cc'; pre=['#include "hwy/base.h"','using u8=uint8_t; using u16=uint16_t; using u32=uint32_t; using u64=uint64_t;']
    open(src,'w').write('\n'.join(pre+[f'static_assert({c},"{i}");' for i,c in w])+'\n'); vio=[]; n=0
    for cc in(CLANG,shutil.which('g++')):
        if not cc: continue
        for fl in([],['-DHWY_HAVE_SCALAR_F16_TYPE=0','-DHWY_HAVE_SCALAR_F16_OPERATORS=0'],['-mf16c','-mavx2']):
            p=subprocess.run([cc,'-std=c++17','-fsyntax-only','-w','-I',REPO]+fl+(['-ferror-limit=0'] if cc==CLANG else [])+[src],capture_output=True,text=True)
            other=[]
            for l in p.stderr.split('\n'):
                if ' error: ' not in l: continue
                mm=re.match(re.escape(src)+r':(\d+):.*static.assert',l)
                ln=int(mm.group(1))-1-len(pre) if mm else -1
                if mm and ('non-constant' in l or 'not an integral constant' in l): other.append(l)
                elif mm: vio.append(dict(key=f'constant:{w[ln][0]}',where='hwy/base.h',what=f'static_assert({w[ln][1]}) is false ({os.path.basename(cc)} {" ".join(fl)})'))
                else: other.append(l)
            if p.returncode and not [v for v in vio] and other: raise Broken('witnesses do not compile: '+other[0])
            n+=len(w)
    return vio,n
def m():
    a=std_args(); tgs=a.targets.split(',') if a.targets else ['SCALAR','AVX2'] if a.tier=='quick' else list(opsgen.TARGETS)
    sc=scratch('wit'); vio,n=compile_witnesses(sc)
    cov=dict(explanation='Each helper is compiled (software half/bfloat conversions selected) and every output bit is canonicalised as a boolean function of the input bits, compared with the definition written independently in the check; loops and recursion are iterated until their exit is constant. Constants and type maps are compile-time witnesses for clang and gcc.',
      rule='each output bit equals the documented function for every input; each static_assert witness compiles',targets=tgs,compile_time_witnesses=n)
    run('R05',a,{t:insts(a.tier) for t in tgs},INC,cov,cxx=['-DHWY_HAVE_SCALAR_F16_TYPE=0','-DHWY_HAVE_SCALAR_F16_OPERATORS=0','-fno-unroll-loops','-mllvm','-inline-threshold=1000000'],chunk=30,extra=vio,
      assume=['the non-GCC/clang branches (MSVC, missing __int128) are not compiled here'])
main(m)
