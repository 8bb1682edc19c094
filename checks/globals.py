#!/usr/bin/env python3
"""T04: every mutable object with static storage duration in the library is atomic, thread-local, written only under one guarded initialisation or
during program start-up, or written only by functions documented as set-up / single-threaded. Interprocedural pointer flow over the linked LLVM IR
of the whole library; the list of objects comes from the syntax tree (so that header templates nobody instantiates are seen too)."""
from bfx import *
import json
from concurrent.futures import ThreadPoolExecutor
FL=['-std=c++17','-O2','-fno-vectorize','-fno-slp-vectorize','-fno-unroll-loops','-g','-w','-fno-exceptions','-mllvm','-inline-threshold=100000']
# documented: "Only written to from a single thread before the test starts", "before ... HWY_DYNAMIC_DISPATCH" (targets.h/.cc); "Note that this is not thread-safe, so the static member functions should only be called from the main thread" (perf_counters.h)
SETUP=(r'hwy::DisableTargets\(',r'hwy::SetSupportedTargetsForTest\(',r'hwy::platform::PerfCounters::')
INL='''#define PROFILER_ENABLED 1
#define HWY_COMPILE_ONLY_STATIC 1
#include "hwy/highway.h"
#include "hwy/abort.h"
#include "hwy/aligned_allocator.h"
#include "hwy/auto_tune.h"
#include "hwy/bit_set.h"
#include "hwy/cache_control.h"
#include "hwy/nanobenchmark.h"
#include "hwy/per_target.h"
#include "hwy/perf_counters.h"
#include "hwy/print.h"
#include "hwy/profiler.h"
#include "hwy/robust_statistics.h"
#include "hwy/stats.h"
#include "hwy/timer.h"
#include "hwy/print-inl.h"
#include "hwy/timer-inl.h"
#include "hwy/contrib/algo/copy-inl.h"
#include "hwy/contrib/algo/find-inl.h"
#include "hwy/contrib/algo/transform-inl.h"
#include "hwy/contrib/bit_pack/bit_pack-inl.h"
#include "hwy/contrib/dot/dot-inl.h"
#include "hwy/contrib/image/image.h"
#include "hwy/contrib/math/math-inl.h"
#include "hwy/contrib/matvec/matvec-inl.h"
#include "hwy/contrib/random/random-inl.h"
#include "hwy/contrib/sort/vqsort.h"
#include "hwy/contrib/sort/vqsort-inl.h"
#include "hwy/contrib/sort/order.h"
#include "hwy/contrib/thread_pool/thread_pool.h"
#include "hwy/contrib/thread_pool/topology.h"
#include "hwy/contrib/unroller/unroller-inl.h"
namespace hn = hwy::HWY_NAMESPACE;
void VFsort(uint64_t* k, size_t n, hwy::uint128_t* q) { hn::VQSortStatic(k, n, hwy::SortAscending()); hn::VQSortStatic(q, n, hwy::SortDescending()); hn::VQSelectStatic(k, n, n / 2, hwy::SortAscending()); hn::VQPartialSortStatic(k, n, n / 2, hwy::SortAscending()); }
void VFprof(size_t n) { { PROFILER_ZONE("a"); hwy::PreventElision(n); } PROFILER_PRINT_RESULTS(); }
void VFpool(size_t n, size_t* out) { hwy::ThreadPool p(n); p.SetWaitMode(hwy::PoolWaitMode::kSpin); p.Run(0, n, [out](uint64_t t, size_t w) { out[t] = w; }); hwy::Divisor d(3); out[0] = d.Divide(7); }
void VFmath(float* f, const float* g, size_t n) { const hn::ScalableTag<float> d; hn::StoreU(hn::Sin(d, hn::LoadU(d, f)), d, f); hn::StoreU(hn::Exp(d, hn::LoadU(d, f)), d, f); hn::StoreU(hn::Log(d, hn::LoadU(d, f)), d, f); hn::Print(d, "x", hn::LoadU(d, f)); hn::Copy(d, g, n, f); f[0] = (float)hn::Find(d, 1.0f, g, n); }
void VFrand(uint64_t seed, uint64_t* out) { hn::VectorXoshiro r(seed, 1); const hn::ScalableTag<uint64_t> d; hn::StoreU(r(), d, out); hn::CachedXoshiro<> c(seed, 1); out[0] = c(); }
void VFimg(size_t n, float* o) { hwy::ImageF i(n, n); hwy::AlignedNDArray<float, 2> a({n, n}); o[0] = i.ConstRow(0)[0] + a[{0}][0]; }
void VFrob(uint32_t* v, size_t n, uint64_t* o) { hwy::robust_statistics::CountingSort(v, n); o[0] = hwy::robust_statistics::Mode(v, n); hwy::Stats s; s.Notify(1.0f); o[1] = (uint64_t)s.Mean(); }
'''
def ast_vars(sc,src,flags):
    """(file, line, name) of every mutable static-storage variable under /repo/hwy"""
    q='set output diag\nset bind-root false\nmatch varDecl(hasStaticStorageDuration(), unless(isConstexpr()), unless(hasType(isConstQualified())), unless(isImplicit()), isDefinition()).bind("v")\n'
    M='varDecl(hasStaticStorageDuration(), unless(isConstexpr())).bind("w")'
    q+=f'match binaryOperator(isAssignmentOperator(), hasLHS(ignoringParenImpCasts(anyOf(declRefExpr(to({M})), arraySubscriptExpr(hasBase(ignoringParenImpCasts(declRefExpr(to({M})))))))))\nmatch unaryOperator(hasAnyOperatorName("++","--"), hasUnaryOperand(ignoringParenImpCasts(declRefExpr(to({M})))))\n'
    qf=sc+'/q'; open(qf,'w').write(q)
    p=subprocess.run(['clang-query-18','-f',qf,src,'--','-std=c++17','-I',REPO,'-w']+flags,capture_output=True,text=True)
    r=set()
    for m in re.finditer(r'^(/\S+?):(\d+):\d+: note: "v" binds here\n\s*\d+ \|(.*)$',p.stdout,re.M): r.add((m.group(1),int(m.group(2)),m.group(3).strip()))
    for m in re.finditer(r'^(/\S+?):(\d+):\d+: note: "w" binds here',p.stdout,re.M): r.add((m.group(1),int(m.group(2)),'WRITTEN'))
    if p.returncode or 'Error' in p.stderr: raise Broken('clang-query: '+p.stderr[-300:])
    return r
def m():
    a=std_args(); sc=a.dump or scratch('t04'); build_tools('irdump')
    srcs=[]
    for d in ('hwy','hwy/contrib/image','hwy/contrib/thread_pool','hwy/contrib/sort'):
        for f in sorted(os.listdir(f'{REPO}/{d}')):
            if f.endswith('.cc') and not re.search(r'test|bench_|print_network|list_targets|(^|/)vqsort_',f): srcs.append(f'{REPO}/{d}/{f}')
    if len(srcs)<8: raise Broken('library sources not found')
    h=f'{sc}/headers.cc'; open(h,'w').write(INL)
    def comp(i):
        s=srcs[i] if i<len(srcs) else h; o=f'{sc}/t{i}.bc'; st=['-DHWY_COMPILE_ONLY_STATIC'] if 'nanobenchmark' not in s and s!=h else []
        p=subprocess.run([CLANG]+FL+st+['-I',REPO,'-c','-emit-llvm',s,'-o',o],capture_output=True,text=True)
        if p.returncode: raise Broken(s+' does not compile: '+p.stderr[:600])
        return o
    def av(i): s=srcs[i] if i<len(srcs) else h; return ast_vars(sc+f'/q{i}',s,[]) if not os.makedirs(sc+f'/q{i}',exist_ok=True) else None
    with ThreadPoolExecutor(8) as ex:
        fa=[ex.submit(av,i) for i in range(len(srcs)+1)]; bcs=list(ex.map(comp,range(len(srcs)+1))); V=set().union(*[f.result() for f in fa])
    L=f'{sc}/all.bc'; p=subprocess.run(['llvm-link-18','-o',L]+bcs,capture_output=True,text=True)
    if p.returncode: raise Broken('llvm-link: '+p.stderr[:300])
    M=json.loads(subprocess.run([BUILD+'/irdump',L],capture_output=True,text=True).stdout)
    F={f['name']:f for f in M['functions']}; alias=dict(M['aliases'])
    inrepo=lambda p: p.startswith(REPO+'/hwy/') and '/tests/' not in p
    G={}
    for g in M['globals']:
        if g['const'] or g['tls'] or g['name'].startswith(('_ZGV','llvm.','_ZTV','_ZTI','_ZTS','__const')): continue
        if 'dbg' not in g: continue
        f=g['dbg'][0]; f=f if f.startswith('/') else os.path.normpath(REPO+'/'+f)
        if not inrepo(f) or 'init' not in g: continue
        G[g['name']]=dict(file=f,line=g['dbg'][1],nm=g['dbg'][2],dem=g['dem'])
    # ---- per-function facts: must-hold guard per block, call sites
    taken=set(); sites={}
    def walk(o,out):
        if isinstance(o,list):
            if len(o)>1 and o[0]=='g' and isinstance(o[1],str): out.add(o[1])
            for x in o: walk(x,out)
    for g in M['globals']:
        if 'init' in g: walk(g['init'],taken)
    held={}
    for f in M['functions']:
        if f['decl']: continue
        B=f['blocks']; acq={}; cond={}
        for b,blk in enumerate(B):
            for x in blk:
                c=x.get('callee')
                if c=='__cxa_guard_acquire': s=set(); walk(x['ops'],s); acq[x['id']]=(sorted(s) or ['?'])[0]
                if x['op']=='icmp':
                    v=[o[1] for o in x['ops'] if o[0]=='v']; z=[o for o in x['ops'] if o[0]=='i' and o[1]==0]
                    if v and v[0] in acq and z: cond[x['id']]=(acq[v[0]],x['pred'])
                if c: sites.setdefault(c,[]).append((f['name'],b,x['id']))
                for o in x.get('ops',[]): 
                    s=set(); walk(o,s); taken|=s
                for o,_ in x.get('inc',[]): s=set(); walk(o,s); taken|=s
        inn={0:frozenset()}; wl=[0]; res={}
        def step(b,st):
            st=set(st); per=[]
            for x in B[b]:
                if x.get('callee') in('__cxa_guard_release','__cxa_guard_abort'): s=set(); walk(x['ops'],s); st-=s
                per.append((x['id'],frozenset(st)))
            return st,per
        while wl:
            b=wl.pop(); st,per=step(b,inn[b]); res[b]=dict(per); t=B[b][-1]
            succ=t.get('succ') or []
            if t['op']=='switch': succ=[c[1] for c in t['cases']]+[t['def']]
            if t['op']=='invoke' : pass
            for k,s in enumerate(succ):
                o=frozenset(st)
                if t['op']=='br' and len(succ)==2 and t['ops'][0][0]=='v' and t['ops'][0][1] in cond:
                    g,p=cond[t['ops'][0][1]]
                    if (p=='eq' and k==1) or (p=='ne' and k==0): o=o|{g}
                n=o if s not in inn else inn[s]&o
                if s not in inn or n!=inn[s]: inn[s]=n; wl.append(s)
        held[f['name']]={i:h for d in res.values() for i,h in d.items()}
    startup=lambda n: n.startswith(('_GLOBAL__sub_I_','__cxx_global_var_init','_GLOBAL__I_'))
    memo={}
    def ctx(fn,seen=()):
        """why code in fn only runs when no other thread can: set of reasons, or None"""
        if fn in memo: return memo[fn]
        if fn in seen: return frozenset(['rec'])
        f=F[fn]
        if startup(fn): r=frozenset(['start-up'])
        elif any(re.match(e,f['dem']) for e in SETUP): r=frozenset(['documented set-up '+f['dem'].split('(')[0]])
        elif f['local'] and fn not in taken and sites.get(fn):
            r=frozenset()
            for cf,b,i in sites[fn]:
                h=held[cf].get(i,frozenset()); c=h or ctx(cf,seen+(fn,))
                if c is None: r=None; break
                r|=c
        else: r=None
        if not seen: memo[fn]=r
        return r
    RO={'strlen','memcmp','strcmp','printf','fprintf','puts','fputs','snprintf','__cxa_atexit','__cxa_guard_acquire','__cxa_guard_release','__cxa_guard_abort','free','_ZdlPv','_ZdlPvm'}
    viol=[]; obs=[]; n_acc=0; und=[]
    for gn,g in sorted(G.items()):
        W=[]; acc=0; work=[('*',None)]; doneP=set(); retF=set(); allat=True
        def derived(fn,argset):
            """ids of values in fn that point into the object"""
            f=F[fn]; D=set(); ch=True
            isd=lambda o: (isinstance(o,list) and o and ((o[0]=='g' and alias.get(o[1],o[1])==gn) or (o[0]=='v' and o[1] in D) or (o[0]=='a' and o[1] in argset) or (o[0]=='gep' and isd(o[1][0])) or (o[0]=='ce' and any(isd(z) for z in o[2:]))))
            while ch:
                ch=False
                for blk in f['blocks']:
                    for x in blk:
                        if x['id'] in D: continue
                        y=False
                        if x['op']=='getelementptr': y=isd(x['gep'][0])
                        elif x['op'] in('bitcast','addrspacecast','ptrtoint','inttoptr','freeze','select','add'): y=any(isd(o) for o in x['ops'])
                        elif x['op']=='phi': y=any(isd(o) for o,_ in x['inc'])
                        elif x['op'] in('call','invoke') and x.get('callee') in retF: y=True
                        if y: D.add(x['id']); ch=True
            return D,isd
        queue=[(fn,frozenset()) for fn in F if not F[fn]['decl']]; seenq=set()
        # functions that mention the object at all (cheap prefilter)
        while queue:
            fn,ar=queue.pop()
            if (fn,ar) in seenq: continue
            seenq.add((fn,ar)); f=F[fn]
            if not ar and not any(r in retF for blk in f['blocks'] for x in blk for r in [x.get('callee')]):
                s=f.get('_refs')
                if s is None:
                    s=set()
                    for blk in f['blocks']:
                        for x in blk:
                            walk(x.get('ops',[]),s); walk(x.get('gep',[]),s)
                            for o,_ in x.get('inc',[]): walk(o,s)
                    f['_refs']=s=frozenset(alias.get(z,z) for z in s)
                if gn not in s: continue
            D,isd=derived(fn,ar)
            for blk in f['blocks']:
                for x in blk:
                    op=x['op']; ops=x.get('ops',[])
                    if op=='load' and isd(ops[0]): acc+=1
                    elif op=='store' and isd(ops[1]): acc+=1; (None if 'ord' in x else W.append((fn,x,'plain store')))
                    elif op=='store' and isd(ops[0]): obs.append(f"{g['nm']}: address stored in {f['dem'][:60]}")
                    elif op in('atomicrmw','cmpxchg') and isd(ops[0]): acc+=1
                    elif op=='ret' and ops and isd(ops[0]):
                        if fn not in retF: retF.add(fn); queue+=[(c,frozenset()) for c,_,_ in sites.get(fn,[])]; seenq-={(c,frozenset()) for c,_,_ in sites.get(fn,[])}
                    elif op in('call','invoke'):
                        c=x.get('callee')
                        for k,o in enumerate(ops):
                            if not isd(o): continue
                            if c is None: W.append((fn,x,'passed to an indirect call')); continue
                            if c.startswith('llvm.'):
                                if c.startswith(('llvm.memcpy','llvm.memset','llvm.memmove')) and k==0: acc+=1; W.append((fn,x,'memory block written'))
                                continue
                            if c in RO: continue
                            if c in F and not F[c]['decl']: queue.append((c,frozenset([k])))
                            else: W.append((fn,x,f"passed to {F[c]['dem'][:60] if c in F else c}"))
        n_acc+=acc
        guards={}; bad=None
        seenw=set()
        for fn,x,why in W:
            if (fn,x['id'],why) in seenw: continue
            seenw.add((fn,x['id'],why))
            h=held[fn].get(x['id'],frozenset()); c=h or ctx(fn)
            if c is None: bad=bad or (fn,x,why)
            else:
                for k in c: guards[k]=1
        gs=[k for k in guards if k.startswith('_ZGV')]
        key=f"{os.path.relpath(g['file'],REPO)}:{g['dem']}"
        if bad:
            l=next((f'{z[0]}:{z[1]}' for z in bad[1].get('loc') or [] if 'hwy/' in z[0]),'')
            viol.append(dict(key=key,where=f"{os.path.relpath(g['file'],REPO)}:{g['line']} written at {l} in {F[bad[0]]['dem'][:120]}",what=f"{bad[2]}: neither atomic, thread-local, guarded initialisation, start-up, nor in a function documented as set-up"))
        elif len(gs)>1: viol.append(dict(key=key,where=f"{os.path.relpath(g['file'],REPO)}:{g['line']}",what=f'written under different initialisation guards {gs}'))
        g['why']='atomic or never written' if not W else ', '.join(sorted(k if not k.startswith('_ZGV') else 'guarded initialisation' for k in guards))
    # ---- objects of the syntax tree that the IR does not contain
    irl={(g['file'],g['line']) for g in G.values()}; tl=set()
    wr={(os.path.normpath(f),l) for f,l,t in V if t=='WRITTEN'}; ast=[(f,l,t) for f,l,t in V if t!='WRITTEN' and inrepo(os.path.normpath(f))]
    for f,l,t in ast:
        f=os.path.normpath(f)
        if (f,l) in wr and (f,l) not in irl: viol.append(dict(key=f'{os.path.relpath(f,REPO)}:{t[:60]}',where=f'{os.path.relpath(f,REPO)}:{l}',what='assigned outside its initialisation (template or unused code), not atomic'))
    if len(ast)<8: raise Broken(f'only {len(ast)} static objects found')
    if len(G)<8: raise Broken(f'only {len(G)} global objects in the IR')
    miss=[f'{os.path.relpath(os.path.normpath(f),REPO)}:{l}: {t[:80]}' for f,l,t in sorted(ast) if (os.path.normpath(f),l) not in irl]
    if a.dump:
        for g in G.values(): print(os.path.relpath(g['file'],REPO),g['line'],g['nm'],'|',g['why'])
        print('\n'.join(miss)); print(obs)
    cov=dict(objects_analysed=len(G),objects_in_syntax_tree=len(ast),functions_analysed=sum(not f['decl'] for f in M['functions']),accesses_checked=n_acc,translation_units=len(bcs),
      objects={f"{os.path.relpath(g['file'],REPO)}:{g['line']} {g['nm']}":g['why'] for g in G.values()},not_in_ir=miss,escapes=sorted(set(obs))[:50],
      explanation='pointer flow from each mutable static object through arguments and return values over the linked IR of all library sources and headers',
      rule='every write is atomic, or dominated by a won __cxa_guard_acquire not yet released (one guard per object), or in start-up code, or reached only from functions documented as set-up; thread_local objects are per thread')
    finish('T04',a.tier,'proof',cov,viol,['documented set-up functions: DisableTargets, SetSupportedTargetsForTest, PerfCounters members','objects that the optimiser removes (never read) and templates that no analysed code instantiates are listed in not_in_ir','pointers loaded back from memory are not followed'])
if __name__=='__main__': main(m)
