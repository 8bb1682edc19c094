#!/usr/bin/env python3
"""D01: run-time detection reports a target only when everything its code may execute was checked."""
from bfx import *
# instruction-set feature -> (cpuid leaf, sub-leaf, register, bit); names are LLVM target features, gcc macros map onto them
X86={'sse3':(1,0,'c',0),'pclmul':(1,0,'c',1),'ssse3':(1,0,'c',9),'fma':(1,0,'c',12),'cx16':(1,0,'c',13),'sse4.1':(1,0,'c',19),'sse4.2':(1,0,'c',20),'crc32':(1,0,'c',20),'movbe':(1,0,'c',22),'popcnt':(1,0,'c',23),'aes':(1,0,'c',25),'xsave':(1,0,'c',26),'avx':(1,0,'c',28),'f16c':(1,0,'c',29),'rdrnd':(1,0,'c',30),
 'sahf':(0x80000001,0,'c',0),'lzcnt':(0x80000001,0,'c',5),'sse4a':(0x80000001,0,'c',6),'prfchw':(0x80000001,0,'c',8),'xop':(0x80000001,0,'c',11),'fma4':(0x80000001,0,'c',16),'tbm':(0x80000001,0,'c',21),
 'fsgsbase':(7,0,'b',0),'bmi':(7,0,'b',3),'avx2':(7,0,'b',5),'bmi2':(7,0,'b',8),'rtm':(7,0,'b',11),'avx512f':(7,0,'b',16),'avx512dq':(7,0,'b',17),'rdseed':(7,0,'b',18),'adx':(7,0,'b',19),'avx512ifma':(7,0,'b',21),'clflushopt':(7,0,'b',23),'clwb':(7,0,'b',24),'avx512pf':(7,0,'b',26),'avx512er':(7,0,'b',27),'avx512cd':(7,0,'b',28),'sha':(7,0,'b',29),'avx512bw':(7,0,'b',30),'avx512vl':(7,0,'b',31),
 'avx512vbmi':(7,0,'c',1),'waitpkg':(7,0,'c',5),'avx512vbmi2':(7,0,'c',6),'gfni':(7,0,'c',8),'vaes':(7,0,'c',9),'vpclmulqdq':(7,0,'c',10),'avx512vnni':(7,0,'c',11),'avx512bitalg':(7,0,'c',12),'avx512vpopcntdq':(7,0,'c',14),'rdpid':(7,0,'c',22),'kl':(7,0,'c',23),'movdiri':(7,0,'c',27),'movdir64b':(7,0,'c',28),
 'avx512vp2intersect':(7,0,'d',8),'serialize':(7,0,'d',14),'amx-bf16':(7,0,'d',22),'avx512fp16':(7,0,'d',23),'amx-tile':(7,0,'d',24),'amx-int8':(7,0,'d',25),'sha512':(7,1,'a',0),'sm3':(7,1,'a',1),'sm4':(7,1,'a',2),'avxvnni':(7,1,'a',4),'avx512bf16':(7,1,'a',5),'avxifma':(7,1,'a',23),'avxvnniint8':(7,1,'d',4),'avxneconvert':(7,1,'d',5),'avxvnniint16':(7,1,'d',10)}
BASE={'cmov','cx8','fxsr','mmx','sse','sse2','x87','64bit','evex512','mmx_with_sse'}
GCCM={'SSE4_1':'sse4.1','SSE4_2':'sse4.2','ABM':'lzcnt','LAHF_SAHF':'sahf','RDRND':'rdrnd','AMX_TILE':'amx-tile','AMX_INT8':'amx-int8','AMX_BF16':'amx-bf16','EVEX512':'evex512','EVEX256':'evex512'}
AVX10_1={'avx512f','avx512cd','avx512vl','avx512dq','avx512bw','avx512vbmi','avx512vbmi2','avx512vnni','avx512bitalg','avx512vpopcntdq','avx512ifma','avx512bf16','avx512fp16'}
TU='''#undef HWY_TARGET_INCLUDE
#define HWY_TARGET_INCLUDE "vf_tu.cc"
#include "hwy/foreach_target.h"
#include "hwy/highway.h"
#ifndef VF_ONCE
#define VF_ONCE
int VF_probe_base(int x) { return x; }
#endif
VFSTR HWY_NAMESPACE HWY_TARGET HWY_TARGET_STR VFEND
HWY_BEFORE_NAMESPACE();
namespace hwy { namespace HWY_NAMESPACE {
int VF_probe(int x) { return x; }
}}
HWY_AFTER_NAMESPACE();
'''
def sh(cmd,cwd=None):
    p=subprocess.run(cmd,capture_output=True,text=True,cwd=cwd); return p.returncode,p.stdout,p.stderr
def target_features(sc,flags,comp,arch=()):
    """{target name: set of features the given compiler may use in that target's code}"""
    d=f'{sc}/tf_{comp}_{abs(hash(tuple(flags)))}'; os.makedirs(d,exist_ok=True)
    fl=['-std=c++17','-O1','-w','-I',REPO,'-I',d,'-DHWY_COMPILE_ALL_ATTAINABLE']+list(flags)
    if comp=='clang':
        open(d+'/vf_tu.cc','w').write('\n'.join(l for l in TU.split('\n') if not l.startswith('VFSTR')))
        rc,o,e=sh([CLANG]+fl+list(arch)+['-c','-emit-llvm',d+'/vf_tu.cc','-o',d+'/t.bc'])
        if rc: raise Broken('target probe does not compile: '+e[:500])
        rc,o,e=sh([BUILD+'/irdump',d+'/t.bc','--fn','VF_probe'])
        r={}
        for f in json.loads(o)['functions']:
            m=re.search(r'N_(\w+)::VF_probe',f['dem'])
            if not f['decl'] and 'VF_probe_base' in f['dem']: base={x[1:] for x in f['features'].split(',') if x.startswith('+')}
            if m and not f['decl']: r[m.group(1)]={x[1:] for x in f['features'].split(',') if x.startswith('+')}
        return {t:fs-base for t,fs in r.items()}
    open(d+'/vf_tu.cc','w').write(TU)
    rc,o,e=sh(['g++']+fl+['-E','-P','-x','c++',d+'/vf_tu.cc'])
    if rc: raise Broken('target probe does not preprocess: '+e[:500])
    def macros(m):
        rc,o,e=sh(['g++','-dM','-E','-x','c++','/dev/null']+m)
        if rc: raise Broken('g++ rejects '+' '.join(m)+': '+e[:200])
        return set(re.findall(r'#define __([A-Z][A-Z0-9_]*?)__ 1\n',o))
    b0=macros([f for f in flags if f.startswith('-m')]); r={}
    for m in re.finditer(r'VFSTR N_(\w+) .*?((?:"[^"]*"\s*)+)VFEND',o,re.S):
        fs=[x for x in ''.join(re.findall(r'"([^"]*)"',m.group(2))).split(',') if x]
        r[m.group(1)]={GCCM.get(x,x.lower()) for x in macros([f for f in flags if f.startswith('-m')]+['-m'+x for x in fs])-b0 if not re.match(r'GCC_|SSE\d?_MATH|FP_|OPTIMIZE|LZCNT$',x)}|({'lzcnt'} if 'lzcnt' in fs else set())
    return r
# other architectures: kernel capability words; (auxv type, mask)
ARM={'NEON':[('aes',16,1<<3)],'NEON_BF16':[('aes',16,1<<3),('fp16',16,1<<10),('dotprod',16,1<<20),('bf16',26,1<<14)],'SVE':[('sve',16,1<<22)],'SVE2':[('sve2',26,1<<1),('sve2-aes',26,1<<2)],'SVE_256':[('sve',16,1<<22)],'SVE2_128':[('sve2',26,1<<1),('sve2-aes',26,1<<2)]}
AF={'aes':('aes',16,1<<3),'bf16':('bf16',26,1<<14),'dotprod':('dotprod',16,1<<20),'fullfp16':('fp16',16,1<<10),'sve':('sve',16,1<<22),'sve2':('sve2',26,1<<1),'sve2-aes':('sve2-aes',26,1<<2),'i8mm':('i8mm',26,1<<13),'crc':('crc',16,1<<7),'lse':('lse',16,1<<8),'rdm':('rdm',16,1<<12),'sha3':('sha3',16,1<<17),'fp16fml':('fhm',16,1<<23),'rcpc':('rcpc',16,1<<15)}
PPC={'PPC8':[('altivec',16,0x10000000),('vsx',16,0x80),('isa2.07',26,0x80000000),('crypto',26,0x02000000)],'PPC9':[('altivec',16,0x10000000),('vsx',16,0x80),('isa2.07',26,0x80000000),('crypto',26,0x02000000),('isa3.0',26,0x00800000)],'PPC10':[('altivec',16,0x10000000),('vsx',16,0x80),('isa2.07',26,0x80000000),('crypto',26,0x02000000),('isa3.0',26,0x00800000),('isa3.1',26,0x00040000)]}
Z={'Z14':[('vx',16,2048),('vxe',16,8192)],'Z15':[('vx',16,2048),('vxe',16,8192),('vxe2',16,32768)]}
def other(sc,tier,oblig):
    rs=[]
    arm=['-DHWCAP_AES=8','-DHWCAP_ASIMDHP=1024','-DHWCAP_ASIMDDP=1048576','-DHWCAP2_BF16=16384','-DHWCAP_SVE=4194304']
    for name,tri,fl,tab in (('aarch64','aarch64-linux-gnu',arm,ARM),('ppc64le','powerpc64le-linux-gnu',['-mcpu=power8'],PPC),('s390x','s390x-linux-gnu',['-march=z14','-mzvector'],Z)):
        x=cross_flags(sc,tri)+fl; tab={k:list(v) for k,v in tab.items()}
        if name=='aarch64':
            for t,fs in target_features(sc,x,'clang').items():
                for f in fs:
                    if f in AF and AF[f] not in tab.setdefault(t,[]): tab[t].append(AF[f])
        I=Inst(); pro='#include "hwy/base.h"\n#undef HWY_WARN\n#define HWY_WARN(...) do {} while (0)\n#include "hwy/targets.cc"\n#include <sys/auxv.h>\n'
        for t,need in tab.items():
            for f,ty,mask in need:
                oblig[f'{name}:{t}:{f}']=1
                I.add(f'{t}:{f}',f'extern "C" void i@(uint64_t* q) {{ q[0]=(hwy::SupportedTargets() & HWY_{t})!=0 && (getauxval({ty}) & {mask}ull)!={mask}ull; }}','extern "C" void r@(uint64_t* q) { q[0]=0; }','p:q:8:0:8:w')
        rs+=analyse(sc,name,pro,I,x,per=200)
    return rs
def m():
    a=std_args(); sc=a.dump or scratch('dt'); os.makedirs(sc,exist_ok=True); build_tools()
    cfgs={'default':[],'no-bmi2-fma,f16c':['-DHWY_DISABLE_BMI2_FMA','-DHWY_DISABLE_F16C']}
    if a.tier!='quick': cfgs.update({'no-pclmul-aes':['-DHWY_DISABLE_PCLMUL_AES'],'baseline-avx2':['-mavx2','-mbmi','-mbmi2','-mfma','-mf16c','-mlzcnt','-mpclmul','-maes'],'test':['-DHWY_IS_TEST']})
    rs=[]; extra=[]; oblig={}
    for cfg,fl in cfgs.items():
        seen=set(); I=Inst(); pro='''#include "hwy/base.h"
#undef HWY_WARN
#define HWY_WARN(...) do {} while (0)
#include "hwy/targets.cc"
#include <cpuid.h>
static inline uint32_t VB(uint32_t l,uint32_t s,int r,int b){ uint32_t a,bb,c,d; __cpuid_count(l,s,a,bb,c,d); uint32_t x=r==0?a:r==1?bb:r==2?c:d; return x>>b&1; }
static inline uint32_t VL(){ uint32_t a,b,c,d; __cpuid_count(0,0,a,b,c,d); return a; }
static inline uint32_t V24(){ uint32_t a,b,c,d; __cpuid_count(0x24,0,a,b,c,d); return b; }
static inline uint32_t VX(){ uint32_t a,d; asm volatile(".byte 0x0F, 0x01, 0xD0":"=a"(a),"=d"(d):"c"(0)); return a; }
'''
        for comp in ('clang','gcc'):
            feats=target_features(sc,[f for f in fl if f!='-DHWY_IS_TEST'],comp)
            if len(feats)<5: raise Broken('too few targets probed: '+str(list(feats)))
            for t,fs in sorted(feats.items()):
                need=[]
                for f in sorted(fs-BASE):
                    if f not in X86: extra.append(dict(key=f'{cfg}:{comp}:{t}:{f}',where='hwy/ops/set_macros-inl.h',what=f'target {t} enables {f}, which no detection step checks')); continue
                    l,s,r,b=X86[f]; bit=f'VB({l}u,{s},{"abcd".index(r)},{b})'
                    if l==7: bit=f'(VL()>=7 && {bit})'
                    if f in AVX10_1: bit=f'({bit} || (VL()>=7 && VB(7,1,3,19) && (V24()&255)>=1'+(' && (V24()>>18&1)' if t!='AVX10_2' else '')+'))'
                    need.append((f,bit))
                if fs&{'avx','avx2'}: need+=[('xsave-ymm','(VB(1,0,2,27) && (VX()&6)==6)')]
                if any(f.startswith('avx512') for f in fs): need+=[('xsave-zmm','(VX()&0xE0)==0xE0')]
                for f,e in need:
                    oblig[f'{cfg}:{comp}:{t}:{f}']=1
                    if (t,e) in seen: continue
                    seen.add((t,e))
                    I.add(f'{t}:{f}',f'extern "C" void i@(uint64_t* q) {{ q[0]=(hwy::SupportedTargets() & HWY_{t})!=0 && !({e}); }}','extern "C" void r@(uint64_t* q) { q[0]=0; }','p:q:8:0:8:w')
        r=analyse(sc,re.sub(r'\W','_',cfg),pro,I,fl,per=200); rs+=r
    rs+=other(sc,a.tier,oblig)
    if a.dump: show(rs)
    if not violations(rs): need_done(rs)
    for r in rs:
        if r['undecided'] and not violations(rs): raise Broken('undecided: '+r['id']+' '+r['undec_why'][:300])
    cov=dict(summary(rs),explanation='For each target and each instruction-set extension that clang (from the target-features of code compiled inside that target\'s namespace) or gcc (closure of HWY_TARGET_STR) may use, the whole of SupportedTargets() is evaluated as an exact Boolean function of the CPUID and XCR0 bits; "target reported and extension (or register-state enablement) not reported" must be the constant false.',
      rule='reported(target) implies the CPUID bit of every enabled extension, leaf 7 existing, OSXSAVE and the XCR0 bits of every register file used',obligations=len(oblig),configurations=list(cfgs))
    v=violations(rs)
    for x in v:
        x['key']=x['key']; x['what']='the target can be reported although this requirement does not hold ('+x['what'][:200]+')'
    finish('D01',a.tier,'proof',cov,v+extra,['clang front end and optimiser preserve the source semantics','CPUID/XCR0 bit assignments of the Intel/AMD manuals; AVX10.1 with 512-bit support implies the AVX-512 extensions'])
main(m)
