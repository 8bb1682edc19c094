#!/usr/bin/env python3
"""D03: no function that another target's or the baseline's object code could link to is compiled for an instruction set beyond the baseline. Two
rules, on every function of the library headers: (1) in the un-optimised LLVM IR of multi-target translation units, a function with external or
mergeable linkage that has more target features than the baseline is named (mangled) inside the namespace of exactly the target whose features it
has, and code outside that namespace does not call it directly; (2) in the syntax tree (which also has the templates nobody instantiates), the
target attribute of a function outside the target namespaces does not depend on which targets are compiled."""
from bfx import *
from collections import defaultdict
import shutil
HDR=['highway.h','print-inl.h','timer-inl.h','contrib/algo/copy-inl.h','contrib/algo/find-inl.h','contrib/algo/transform-inl.h','contrib/bit_pack/bit_pack-inl.h','contrib/dot/dot-inl.h','contrib/image/image.h','contrib/math/math-inl.h','contrib/matvec/matvec-inl.h','contrib/random/random-inl.h','contrib/sort/vqsort.h','contrib/sort/vqsort-inl.h','contrib/sort/order.h','contrib/sort/result-inl.h','contrib/thread_pool/futex.h','contrib/thread_pool/spin.h','contrib/thread_pool/thread_pool.h','contrib/thread_pool/topology.h','contrib/unroller/unroller-inl.h','abort.h','aligned_allocator.h','auto_tune.h','bit_set.h','cache_control.h','nanobenchmark.h','per_target.h','perf_counters.h','print.h','profiler.h','robust_statistics.h','stats.h','timer.h']
USE='''
HWY_BEFORE_NAMESPACE();
namespace VF { namespace HWY_NAMESPACE {
namespace hn = hwy::HWY_NAMESPACE;
void VFProbe() {}
void Sort(uint64_t* k, size_t n, double* f, hwy::uint128_t* q) { hn::VQSortStatic(k, n, hwy::SortAscending()); hn::VQSortStatic(f, n, hwy::SortDescending());
#if HWY_TARGET != HWY_SCALAR
 hn::VQSelectStatic(q, n, n / 2, hwy::SortAscending());
#endif
 hn::VQPartialSortStatic(k, n, n / 2, hwy::SortAscending()); }
void Math(float* f, const float* g, size_t n, hwy::bfloat16_t* b, uint8_t* u) { const hn::ScalableTag<float> d; hn::StoreU(hn::Sin(d, hn::LoadU(d, f)), d, f); hn::StoreU(hn::Exp(d, hn::LoadU(d, f)), d, f); hn::StoreU(hn::Log(d, hn::LoadU(d, f)), d, f); hn::StoreU(hn::Atan(d, hn::LoadU(d, f)), d, f); hn::Print(d, "x", hn::LoadU(d, f)); hn::Copy(d, g, n, f); f[0] = (float)hn::Find(d, 1.0f, g, n); hn::Transform(d, f, n, [](auto dd, auto v) HWY_ATTR { return hn::Add(v, hn::Set(dd, 2.0f)); }); }
void Rand(uint64_t seed, uint64_t* out) { hn::VectorXoshiro r(seed, 1); const hn::ScalableTag<uint64_t> d; hn::StoreU(r(), d, out); hn::CachedXoshiro<> c(seed, 1); out[0] = c(); out[1] = hwy::timer::Start() + hwy::timer::Stop(); }
void Dot(const float* a, const float* b, size_t n, float* o) { const hn::ScalableTag<float> d; o[0] = hn::Dot::Compute<0>(d, a, b, n); }
} }
HWY_AFTER_NAMESPACE();
#if HWY_ONCE
namespace VF {
HWY_EXPORT(Sort); HWY_EXPORT(Math); HWY_EXPORT(Rand); HWY_EXPORT(Dot); HWY_EXPORT(VFProbe);
void VFBase(uint64_t* k, size_t n, float* f) { HWY_DYNAMIC_DISPATCH(Sort)(k, n, (double*)f, (hwy::uint128_t*)k); HWY_DYNAMIC_DISPATCH(Math)(f, f, n, 0, 0); HWY_DYNAMIC_DISPATCH(Rand)(n, k); HWY_DYNAMIC_DISPATCH(Dot)(f, f, n, f); }
void VFpool(size_t n, size_t* out) { hwy::ThreadPool p(n); p.SetWaitMode(hwy::PoolWaitMode::kSpin); p.Run(0, n, [out](uint64_t t, size_t w) { out[t] = w; }); hwy::Divisor d(3); out[0] = d.Divide(7); }
void VFshared(uint32_t* v, size_t n, uint64_t* o) { hwy::Stats s; s.Notify(1.0f); o[1] = (uint64_t)s.Mean(); hwy::ImageF i(n, n); o[2] = (uint64_t)i.ConstRow(0)[0]; hwy::BitSet64 b; b.Set(n); o[3] = b.Count(); auto u = hwy::AllocateAligned<float>(n); u[0] = 1; o[4] = hwy::PopCount(o[3]) + hwy::Num0BitsBelowLS1Bit_Nonzero64(o[4] + 1); hwy::CopyBytes<4>(v, o); hwy::Pause(); hwy::Prefetch(v); hwy::FlushStream(); hwy::robust_statistics::CountingSort(v, n); o[5] = hwy::GetChosenTarget().IsInitialized(); o[6] = hwy::Mul128(o[0], o[1], &o[2]); v[0] = (uint32_t)hwy::ConvertScalarTo<float>(hwy::ConvertScalarTo<hwy::bfloat16_t>(1.0f)) + (uint32_t)hwy::F32FromF16(hwy::F16FromF32(2.0f)); }
}
#endif
'''
def load(ll):
    attrs={}; F={}; cur=None
    for l in open(ll):
        if l.startswith('define'):
            m=re.search(r'^define (.*?)@("[^"]*"|[\w.$]+)\(',l); n=m.group(2).strip('"'); at=re.findall(r' #(\d+)',l.split(' !dbg')[0]); pre=' '+m.group(1)
            lk='internal' if ' internal ' in pre or ' private ' in pre else 'available_externally' if ' available_externally ' in pre else 'shared'
            cur=dict(n=n,link=lk,attr=at[-1] if at else None,calls=set()); F[n]=cur
        elif l.startswith('}'): cur=None
        elif cur is not None:
            m=re.search(r'\b(?:call|invoke)\b[^@(]*?@("[^"]*"|[\w.$]+)\(',l)
            if m: cur['calls'].add(m.group(1).strip('"'))
        elif l.startswith('attributes'):
            m=re.match(r'attributes #(\d+) = \{(.*)\}',l); f=re.search(r'"target-features"="([^"]*)"',m.group(2)); c=re.search(r'"target-cpu"="([^"]*)"',m.group(2))
            attrs[m.group(1)]=frozenset([x[1:] for x in (f.group(1).split(',') if f else []) if x.startswith('+')]+(['cpu:'+c.group(1)] if c and c.group(1) not in('x86-64','generic') else []))
    names=list(F); dm=subprocess.run([shutil.which('llvm-cxxfilt-18') or 'c++filt'],input='\n'.join(names)+'\n',capture_output=True,text=True).stdout.split('\n')
    for n,d in zip(names,dm): F[n]['d']=d; F[n]['f']=attrs.get(F[n]['attr'],frozenset()); F[n]['t']=frozenset(n[m.end():m.end()+int(m.group(1))] for m in re.finditer(r'(?<!\d)(\d+)(?=N_[A-Z])',n))
    return F
def shared_attrs(sc,name,src,flags):
    """{(file, line, function): {attribute strings}} of functions with a target attribute outside the target namespaces"""
    q=f'{sc}/{name}.q'
    open(q,'w').write('set output dump\nset bind-root false\n'+'match functionDecl(hasAttr("attr::Target"), isExpansionInFileMatching("%s/|%s"), unless(isImplicit()), unless(isInstantiated()), anyOf(isExternC(), unless(hasAncestor(namespaceDecl(matchesName("::N_")))))).bind("f")\n'%(re.escape(REPO),re.escape(os.path.dirname(src))))
    p=subprocess.run(['clang-query-18','-f',q,src,'--']+flags,capture_output=True,text=True)
    if p.returncode or not re.search(r'^\d+ match',p.stdout,re.M): raise Broken('clang-query: '+(p.stderr+p.stdout)[-500:])
    r=defaultdict(set); cur=None
    for l in p.stdout.split('\n'):
        l=re.sub(r'\x1b\[[0-9;]*m','',l)
        m=re.match(r'(Function|CXXMethod|CXXConstructor|CXXDestructor|CXXConversion)Decl 0x\S+ (?:parent \S+ )?(?:prev \S+ )?<(.*?)> (\S+) (.*)',l)
        if m: cur=(m.group(2),m.group(3),re.sub(r"^(implicit |used |referenced |constexpr |invalid )*",'',m.group(4))); continue
        m=re.match(r'[|`]-TargetAttr \S+ .*?"([^"]*)"',l)
        if m and cur: f=re.findall(r'(/\S+?):\d+',cur[0]); r[((f[-1] if f else '?'),re.sub(r'<[^<>]*>','',cur[2])[:120])].add(m.group(1))
    return r
VARIANTS=[ # name, extra flags
 ('all',['-DHWY_COMPILE_ALL_ATTAINABLE']),
 ('default',[]),
 ('sse4-ssse3',['-DHWY_DISABLED_TARGETS=(HWY_AVX2|HWY_AVX3|HWY_AVX3_DL|HWY_AVX3_ZEN4|HWY_AVX3_SPR)']),
 ('static-sse2',['-DHWY_COMPILE_ONLY_STATIC']),
 ('static-avx2',['-DHWY_COMPILE_ONLY_STATIC','-mavx2','-mbmi','-mbmi2','-mfma','-mf16c','-maes','-mpclmul']),
 ('base-avx2',['-mavx2','-mbmi','-mbmi2','-mfma','-mf16c','-maes','-mpclmul']),
 ('scalar',['-DHWY_COMPILE_ONLY_SCALAR']),
 ('emu128',['-DHWY_COMPILE_ONLY_EMU128']),
]
def m():
    a=std_args(); sc=a.dump or scratch('d03'); viol={}; D0=['-std=c++17','-w','-I',REPO,'-DPROFILER_ENABLED=1']
    hs=[h for h in HDR if os.path.exists(f'{REPO}/hwy/{h}')]
    extra=sorted(os.path.relpath(os.path.join(d,f),REPO+'/hwy') for d,_,fs in os.walk(REPO+'/hwy') for f in fs if f.endswith('.h') and not re.search(r'test|/ops/|detect_compiler|highway_export|base.h|foreach_target|targets.h|simd_|bench|algo-inl|shared-inl|sorting_networks|traits',os.path.join(d,f)))
    hs+=[h for h in extra if h not in hs and not re.search(r'(^|/)(detect_targets|per_target|highway)\.h',h)]
    jobs=[]
    def wr(name):
        d=f'{sc}/{name}'; os.makedirs(d,exist_ok=True); p=f'{d}/d03_all.cc'
        open(p,'w').write('#undef HWY_TARGET_INCLUDE\n#define HWY_TARGET_INCLUDE "d03_all.cc"\n#include "hwy/foreach_target.h"\n'+''.join(f'#include "hwy/{h}"\n' for h in hs)+USE); return p
    for n,fl in VARIANTS: jobs.append((n,wr(n),D0+fl,True))
    try: x=cross_flags(sc,'aarch64-linux-gnu')
    except Exception: x=None
    if x:
        jobs.append(('aarch64',wr('aarch64'),D0+x,True)); jobs.append(('aarch64-crypto',wr('aarch64-crypto'),D0+x+['-march=armv8-a+crypto','-DHWY_DISABLED_TARGETS=HWY_ALL_SVE'],True))
    lib=[]
    for d in ('hwy','hwy/contrib/image','hwy/contrib/thread_pool','hwy/contrib/sort'):
        for f in sorted(os.listdir(f'{REPO}/{d}')):
            if f.endswith('.cc') and not re.search(r'test|bench_|print_network|list_targets',f) and (a.tier=='thorough' or not f.startswith('vqsort_') or f in('vqsort_u64a.cc','vqsort_kv128d.cc')): lib.append(f'{d}/{f}')
    for f in lib: jobs.append(('lib:'+f,f'{REPO}/{f}',D0,False))
    def ir(j):
        n,src,fl,_=j; o=f"{sc}/{re.sub('[^a-z0-9]','_',n)}.ll"
        p=subprocess.run([CLANG,'-O1','-Xclang','-disable-llvm-passes']+fl+['-I',os.path.dirname(src),'-S','-emit-llvm',src,'-o',o],capture_output=True,text=True)
        if p.returncode: raise Broken(f'{n} does not compile: '+p.stderr[:600])
        return load(o)
    with ThreadPoolExecutor(8) as ex:
        fi=[ex.submit(ir,j) for j in jobs]; fa=[(j,ex.submit(shared_attrs,sc,re.sub('[^a-z0-9]','_',j[0]),j[1],j[2]+['-I',os.path.dirname(j[1])])) for j in jobs if j[3]]
        IR=[f.result() for f in fi]; AT={j[0]:f.result() for j,f in fa}
    # ---- rule 1
    nf=nc=0; targets=set(); probe={}; sharedf={}; perns=defaultdict(int)
    def add(key,where,what): viol.setdefault(key,dict(key=key,where=where,what=what))
    libbase=next(f['f'] for f in IR[1].values() if 'VFBase' in f['n'])
    for (n,src,fl,own),F in zip(jobs,IR):
        base=next((f['f'] for f in F.values() if 'VFBase' in f['n']),None) if own else libbase
        if base is None: raise Broken(n+': no baseline function')
        P={next(iter(f['t'])):f['f'] for f in F.values() if 'VFProbe' in f['n'] and len(f['t'])==1} if own else dict(probe['default'])
        if own and not P: raise Broken(n+': no target namespace found')
        probe[n]=P; targets|=set(P)
        for f in F.values():
            nf+=1; d=f['d'][:200]
            if f['link']=='shared':
                if f['t']:
                    perns[next(iter(f['t']))]+=1
                    if not own and any(t not in P for t in f['t']): continue
                    if f['f']-base and not any(f['f']<=P.get(t,frozenset())|base for t in f['t']): add(f'{d}',n,f"has instruction-set features {sorted(f['f']-base-frozenset().union(*[P.get(t,frozenset()) for t in f['t']]))[:8]} that its target namespace does not have")
                elif f['f']-base:
                    sharedf.setdefault((d,),{})[n]=f['f']-base
            for c in f['calls']:
                g=F.get(c)
                if g is None: continue
                nc+=1
                if g['t'] and not g['t']<=f['t'] and g['f']-f['f']-base: add(f"{d} -> {g['d'][:160]}",n,f"calls target-specific code directly, without the dispatch table; callee has {sorted(g['f']-f['f']-base)[:8]}")
    # functions outside any target namespace with extra features: only allowed if spelt out in the source, the same for every set of targets (decided by rule 2 for headers)
    const=set()
    for (d,),v in sharedf.items():
        nm=re.sub(r'\(.*','',d); nm=nm.split('::')[-1].split('<')[0]
        ok={k[1].split(' ')[0] for k in AT['default']}
        fs=set(v.values())
        if nm in ok and len(fs)==1: const.add(d)
        else: add(d,','.join(v),f"is compiled with {sorted(set().union(*fs))[:10]} but its name does not contain the target's namespace: another target or baseline object could link to it")
    # ---- rule 2
    keys=set().union(*[set(v) for v in AT.values()]); na=0
    x86=[n for n,_ in VARIANTS]; arm=[n for n in AT if n.startswith('aarch64')]
    for grp in (x86,arm):
        if not grp: continue
        ks=set().union(*[set(AT[n]) for n in grp])
        for k in ks:
            na+=1; vals={n:tuple(sorted(AT[n].get(k,()))) for n in grp if k in AT[n]}
            if len(set(vals.values()))>1 or any(len(v)>1 for v in vals.values()): add(f'{os.path.relpath(k[0],REPO)}:{k[1]}',k[0],'is outside every target namespace, and its target attribute depends on the targets compiled: '+', '.join(f'{n}={" | ".join(v)[:60]}' for n,v in list(vals.items())[:4]))
            else:
                miss=[n for n in grp if k not in AT[n] and n in('all','default','sse4-ssse3')]
                if miss: add(f'{os.path.relpath(k[0],REPO)}:{k[1]}',k[0],f'is outside every target namespace, and has the target attribute "{list(vals.values())[0][0][:80]}" only for some sets of targets (not for {miss})')
    if len(targets)<8 or nf<5000: raise Broken(f'only {sorted(targets)} targets, {nf} functions')
    if a.dump: print({k:sorted(v) for k,v in probe['all'].items()} if 0 else '',sorted(const)); print(dict(perns)); print({n:len(v) for n,v in AT.items()})
    cov=dict(functions_analysed=nf,call_edges=nc,translation_units=len(jobs),targets=sorted(targets),functions_per_target=dict(perns),shared_functions_with_fixed_attribute=sorted(const),declarations_with_attribute=na,headers=hs,library_sources=lib,
      explanation='all functions emitted (before optimisation) by all library headers and sources for ten target configurations, plus every declaration in the syntax tree',
      rule='mergeable/external function with features beyond the baseline => name inside the namespace of a target that has them; no direct call from outside that namespace; attribute of a shared function does not depend on the compiled targets')
    finish('D03',a.tier,'proof',cov,list(viol.values()),['the object code of a function follows its target-features attribute (clang)','templates are covered as declarations; instantiations only for the uses in the translation units listed'])
if __name__=='__main__': main(m)
