#!/usr/bin/env python3
"""R02: descriptors opened by the library. Path-sensitive typestate over the LLVM IR of every library source and header: each descriptor returned by
an opening call is followed through branches, phis, local storage, calls and returns. Rules: it is closed exactly once, or handed to storage that
outlives the function, or known invalid, on every path to a return or to the same opening call again; it is not used after it was closed; and no
branch tells descriptor 0 from positive ones."""
from bfx import *
import json
FL=['-std=c++17','-O1','-Xclang','-disable-llvm-passes','-g','-w','-fno-exceptions']
OPEN={'open','open64','openat','openat64','creat','creat64','socket','dup','dup2','dup3','eventfd','epoll_create','epoll_create1','memfd_create','inotify_init','inotify_init1','timerfd_create','signalfd','accept','accept4','__open_2','__open64_2'}
SYSOPEN={298:'perf_event_open',2:'open',257:'openat',85:'creat',41:'socket',32:'dup',33:'dup2',292:'dup3',284:'eventfd',290:'eventfd2',213:'epoll_create',291:'epoll_create1',319:'memfd_create',437:'openat2',321:'bpf',434:'pidfd_open'}
POPEN={'fopen','fopen64','fdopen','popen','opendir','fdopendir','freopen','tmpfile'}
CLOSE={'close':0,'fclose':0,'pclose':0,'closedir':0}
USE={'read','pread','pread64','write','ioctl','lseek','fstat','mmap','fgets','fread','fscanf','readdir','getline','fgetc','fcntl'}
CLS={'fail':(-1,),'zero':(0,),'pos':(1,2,3,7,1000,2**31-1)}
class An:
    def __init__(s,F): s.F=F; s.V={}; s.paths=0; s.sites=[]; s.ret=set(); s.branches=set(); s.uses=0
    def bad(s,f,x,what):
        l=next((f'{os.path.relpath(os.path.normpath(z[0]),REPO)}:{z[1]}' for z in (x.get('loc') or []) if 'hwy/' in z[0]),'')
        k=f"{f['dem'][:90]}:{what[:60]}"
        s.V.setdefault(k,dict(key=k,where=f"{l} in {f['dem'][:120]}",what=what))
    def opener(s,x):
        c=x.get('callee')
        if c in OPEN: return c,False
        if c in POPEN: return c,True
        if c=='syscall' and x['ops'] and x['ops'][0][0]=='i' and x['ops'][0][1] in SYSOPEN: return SYSOPEN[x['ops'][0][1]],False
        if c in s.ret: return s.F[c]['dem'][:60],False
        return None
    def prep(s,f):
        if '_ins' not in f:
            f['_ins']={x['id']:x for b in f['blocks'] for x in b}; use={}; B=f['blocks']
            su=[(B[i][-1].get('succ') or ([d for _,d in B[i][-1]['cases']]+[B[i][-1]['def']] if B[i][-1]['op']=='switch' else [])) for i in range(len(B))]
            for i,b in enumerate(B):
                for x in b:
                    for o in x.get('ops',[])+[z for z,_ in x.get('inc',[])]:
                        if o[0]=='v': use.setdefault(o[1],[]).append(i)
                    for o,fr in x.get('inc',[]):
                        if o[0]=='v': use[o[1]].append(fr)
            pred=[[] for _ in B]
            for i,t in enumerate(su):
                for d in t: pred[d].append(i)
            f['_use']=use; f['_pred']=pred; f['_def']={x['id']:i for i,b in enumerate(B) for x in b}; f['_live']={}
        return f['_ins']
    def live(s,f,v,b):
        '''is SSA value v live on entry to block b'''
        L=f['_live'].get(v)
        if L is None:
            d=f['_def'].get(v); L=set(); st=[]
            for i,B in enumerate(f['blocks']):
                for x in B:
                    if x['op']=='phi': st+=[fr for o,fr in x['inc'] if o[:2]==['v',v] and fr!=d]
                    elif any(o[:2]==['v',v] for o in x.get('ops',[])) or ('gep' in x and str(['v',v])[1:-1] in str(x['gep'])):
                        if i!=d: st.append(i)
            while st:
                i=st.pop()
                if i in L: continue
                L.add(i); st+=[p for p in f['_pred'][i] if p!=d]
            f['_live'][v]=L
        return b in L
    def ev(s,ins,o,al,v,depth=0):
        """value of operand o given alias value v: int, bool as 0/1, or None"""
        if o[0]=='i': return o[1]
        if o[0]=='n': return 0
        if o[0]=='a': return v if ('a',o[1]) in al else None
        if o[0]!='v' or depth>12: return None
        if ('v',o[1]) in al: return v
        for z in al:
            if z[0]=='k' and z[1]==o[1]: return z[2]
        x=ins.get(o[1])
        if not x: return None
        op=x['op']; E=lambda i: s.ev(ins,x['ops'][i],al,v,depth+1)
        if op in('zext','sext','trunc','freeze'): return E(0)
        if op=='icmp':
            a,b=E(0),E(1)
            if a is None or b is None: return None
            p=x['pred']
            if p[0]=='u': m=2**64; a%=m; b%=m
            return int({'eq':a==b,'ne':a!=b,'sgt':a>b,'sge':a>=b,'slt':a<b,'sle':a<=b,'ugt':a>b,'uge':a>=b,'ult':a<b,'ule':a<=b}[p])
        if op in('and','or','xor'):
            a,b=E(0),E(1)
            if op=='and' and (a==0 or b==0): return 0
            if op=='or' and x['ty']=='i1' and (a in(1,-1) or b in(1,-1)): return 1
            if a is None or b is None: return None
            r=a&b if op=='and' else a|b if op=='or' else a^b
            return (r&1) if x['ty']=='i1' else r
        if op=='select':
            c=E(0); 
            if c is None: a,b=E(1),E(2); return a if a==b else None
            return E(1) if c else E(2)
        if op=='add': a,b=E(0),E(1); return None if a is None or b is None else a+b
        if op=='lshr' and x['ops'][1][0]=='i': a=E(0); return None if a is None else (a&0xffffffff)>>x['ops'][1][1]
        if op=='call' and (x.get('callee') or '').startswith('llvm.expect'): return E(0)
        return None
    def outcomes(s,ins,cond,al,c,ptr):
        r=set()
        for v in CLS[c]:
            if ptr: v={'fail':0,'pos':0x10000+v}.get(c,0)
            e=s.ev(ins,cond,al,v); r|={0,1} if e is None else {1 if e else 0}
        return r
    def loc(s,ins,o):
        """storage an address names: ('slot', alloca, offset) or None"""
        off=0
        for _ in range(20):
            if o[0]!='v': return None
            x=ins.get(o[1])
            if not x: return None
            if x['op']=='alloca': return ('slot',x['id'],off)
            if x['op'] in('bitcast','addrspacecast'): o=x['ops'][0]; continue
            if x['op']=='getelementptr' and 'gep' in x:
                g=x['gep']
                if g[1] is None or g[2]: r=s.root(ins,o); return ('slot',r,None) if r is not None else None
                off+=g[1]; o=g[0]; continue
            return None
        return None
    def root(s,ins,o):
        for _ in range(20):
            if o[0]!='v': return None
            x=ins.get(o[1])
            if not x: return None
            if x['op']=='alloca': return x['id']
            if x['op']=='getelementptr': o=x['gep'][0]; continue
            if x['op'] in('bitcast','addrspacecast'): o=x['ops'][0]; continue
            return None
    def walk(s,f,start,al0,cls0,ptr,depth=0,open0='open'):
        """start (block, index); yields set of (frozenset classes, status, returned)"""
        ins=s.prep(f); B=f['blocks']; res=set(); seen=set()
        work=[(start[0],start[1],None,frozenset(al0),frozenset(cls0),open0)]
        origin=B[start[0]][start[1]-1]['id'] if start[1]>0 else None
        while work:
            b,i,frm,al,cl,stt=work.pop()
            if i==0:
                k=(b,frm,al,cl,stt)
                if k in seen: continue
                if depth==0 and (cl=={'fail'} or stt!='open') and not (stt=='closed' and any(z[0]=='slot' for z in al)) and (cl=={'fail'} or not any(s.live(f,z[1],b) for z in al if z[0]=='v')): s.paths+=1; continue
                seen.add(k)
                if len(seen)>200000: raise Broken(f"{f['dem']}: too many states")
                na=set(al)
                for x in B[b]:
                    if x['op']!='phi': break
                    src=next((o for o,fr in x['inc'] if fr==frm),None); na.discard(('v',x['id']))
                    na={z for z in na if z[0]!='k' or z[1]!=x['id']}
                    if src and tuple(src[:2]) in al: na.add(('v',x['id']))
                    elif src and x['ty'] in('i1','i8','i32'):
                        r={s.ev(ins,src,al,v) for c in cl for v in ([{'fail':0,'pos':0x10001}.get(c,0)] if ptr else CLS[c])}
                        if len(r)==1 and None not in r: na.add(('k',x['id'],r.pop()))
                al=frozenset(z for z in na if z[0]=='slot' or z[0]=='a' or s.live(f,z[1],b) or f['_def'].get(z[1])==b)
            end=False
            for j in range(i,len(B[b])):
                x=B[b][j]; op=x['op']
                if op=='phi': continue
                if x['id']==origin and depth==0 and j>=0 and not(b==start[0] and j==start[1]-1 and i==start[1]):
                    if stt=='open' and cl&{'zero','pos'}: s.bad(f,x,'the descriptor of an earlier iteration is lost when the call is repeated')
                    end=True; break
                if ('v',x['id']) in al: al=al-{('v',x['id'])}
                al=frozenset(z for z in al if z[0]!='k' or z[1]!=x['id'])
                isal=lambda o: tuple(o[:2]) in al
                ops=x.get('ops',[])
                if op in('trunc','sext','zext','freeze','bitcast') and isal(ops[0]): al=al|{('v',x['id'])}
                elif op=='select' and (isal(ops[1]) or isal(ops[2])):
                    fk=set()
                    for c in cl:
                        for v in CLS[c]:
                            r=[s.ev(ins,o,al,v) for o in (ops[1],ops[2])]; c0=s.ev(ins,ops[0],al,v)
                            fk.add(('al' if (isal(ops[1]) if c0 else isal(ops[2])) else 'no') if c0 is not None else '?')
                    # keep as alias when the selected value is the descriptor for every valid class
                    if 'al' in fk or '?' in fk: al=al|{('v',x['id'])}
                elif op=='load':
                    l=s.loc(ins,ops[0])
                    if l and l in al: al=al|{('v',x['id'])}
                elif op=='store':
                    l=s.loc(ins,ops[1])
                    if isal(ops[0]):
                        if l: al=al|{l}
                        elif stt=='open': stt='owned'
                        elif stt=='closed': s.bad(f,x,'a closed descriptor is stored')
                    elif l and l in al: al=al-{l}
                elif op in('call','invoke'):
                    c=x.get('callee') or ''
                    if x.get('noreturn'): end=True; break
                    if c.startswith('llvm.'):
                        if c.startswith('llvm.lifetime.end'): r=s.root(ins,ops[1]); al=frozenset(z for z in al if z[0]!='slot' or z[1]!=r)
                        if c.startswith(('llvm.memcpy','llvm.memmove')):
                            d,sr=s.loc(ins,ops[0]),s.loc(ins,ops[1])
                            if any(z[0]=='slot' and sr and z[1]==sr[1] for z in al):
                                if d: al=al|{('slot',d[1],z[2]) for z in al if z[0]=='slot' and z[1]==sr[1]}
                                elif stt=='open': stt='owned'
                    elif c in CLOSE and ops and isal(ops[CLOSE[c]]):
                        s.uses+=1
                        if stt=='closed' and cl&{'zero','pos'}: s.bad(f,x,'the descriptor is closed twice')
                        stt='closed'
                    elif any(isal(o) for o in ops):
                        s.uses+=1
                        if stt=='closed' and cl&{'zero','pos'} and (c in USE or (c in s.F and not s.F[c]['decl'])): s.bad(f,x,f'the descriptor is passed to {c} after it was closed')
                        if c in('fdopen','fdopendir') and stt=='open': stt='owned'
                        elif c in s.F and not s.F[c]['decl'] and depth<6 and c not in s.ret:
                            k=next(n for n,o in enumerate(ops) if isal(o)); outs=s.walk(s.F[c],(0,0),{('a',k)},cl,ptr,depth+1,stt)
                            if not outs: end=True; break
                            outs=sorted(outs,key=str)
                            for cl2,st2,rt in outs[1:]: work.append((b,j+1,frm if j+1==0 else frm,al|({('v',x['id'])} if rt else frozenset()),cl2,st2))
                            cl,stt,rt=outs[0]
                            if rt: al=al|{('v',x['id'])}
                    else:
                        sl={z[1] for z in al if z[0]=='slot'}
                        if sl and any(s.root(ins,o) in sl for o in ops if o[0]=='v') and not c.startswith('llvm') and stt=='open': stt='owned'
                elif op=='ret':
                    rt=bool(ops and isal(ops[0]))
                    if depth==0:
                        if rt: s.ret.add(f['name'])
                        elif stt=='open' and cl&{'zero','pos'}:
                            s.bad(f,x,'a valid descriptor'+(' 0' if not 'pos' in cl else '')+' is neither closed nor kept on a path to the return')
                    res.add((cl,stt,rt)); s.paths+=1; end=True; break
                elif op=='unreachable': end=True; break
                elif op=='br' and len(x['succ'])==2 or op=='switch':
                    cond=ops[0]
                    if op=='br':
                        oc={c:s.outcomes(ins,cond,al,c,ptr) for c in cl}
                        if all(len(v)==1 for v in oc.values()) and len(oc)>0: s.branches.add((f['name'],x['id']))
                        if stt!='closed' and not ptr and 'zero' in oc and 'pos' in oc and oc['zero']!=oc['pos'] and (len(oc['zero'])==1): s.bad(f,x,'descriptor 0 and positive descriptors are told apart: 0 is valid')
                        for t in (1,0):
                            n=frozenset(c for c in cl if t in oc[c])
                            if n: work.append((x['succ'][0 if t else 1],0,b,al|({('k',cond[1],t)} if cond[0]=='v' and len(f['_use'].get(cond[1],()))>1 else frozenset()),n,stt))
                    else:
                        kv=s.ev(ins,cond,frozenset(z for z in al if z[0]=='k'),None); tg={d for _,d in x['cases']}|{x['def']}
                        if kv is not None: tg={dict((v,d) for v,d in x['cases']).get(kv,x['def'])}
                        for d in tg: work.append((d,0,b,al,cl,stt))
                    end=True; break
                elif op=='br': work.append((x['succ'][0],0,b,al,cl,stt)); end=True; break
            if not end and 'succ' in B[b][-1]:
                for d in B[b][-1]['succ']: work.append((d,0,b,al,cl,stt))
        return res
def m():
    a=std_args(); sc=a.dump or scratch('r02'); build_tools('irdump'); viol={}; cov=dict(configurations={})
    srcs=[]
    for d in ('hwy','hwy/contrib/image','hwy/contrib/thread_pool','hwy/contrib/sort'):
        for f in sorted(os.listdir(f'{REPO}/{d}')):
            if f.endswith('.cc') and not re.search(r'test|bench_|print_network|list_targets|(^|/)vqsort_',f): srcs.append(f'{REPO}/{d}/{f}')
    h=f'{sc}/headers.cc'; open(h,'w').write('#define PROFILER_ENABLED 1\n#define HWY_COMPILE_ONLY_STATIC 1\n'+''.join(f'#include "hwy/{x}"\n' for x in('highway.h','aligned_allocator.h','timer.h','profiler.h','perf_counters.h','nanobenchmark.h','contrib/thread_pool/topology.h','contrib/thread_pool/thread_pool.h','contrib/image/image.h'))+'void VFp(size_t n, size_t* out) { { PROFILER_ZONE("a"); hwy::ThreadPool p(n); p.Run(0, n, [out](uint64_t t, size_t w) { out[t] = w; }); } PROFILER_PRINT_RESULTS(); }\n')
    srcs.append(h); cfgs={'release':['-DNDEBUG'],'debug':['-DHWY_IS_DEBUG_BUILD=1'],'sanitizer':['-DHWY_IS_DEBUG_BUILD=0','-DNDEBUG']}
    nf=0; sites=[]; uses=paths=br=0
    def comp(j):
        n,s=j; o=f"{sc}/{n}_{os.path.basename(s)}.bc"
        p=subprocess.run([CLANG]+FL+cfgs[n]+(['-DHWY_COMPILE_ONLY_STATIC'] if s!=h and 'nanobenchmark' not in s else [])+['-I',REPO,'-c','-emit-llvm',s,'-o',o],capture_output=True,text=True)
        if p.returncode: raise Broken(s+' does not compile: '+p.stderr[:500])
        p=subprocess.run(['opt-18','-passes=function(sroa,early-cse),cgscc(inline),function(sroa,early-cse,adce)','-inline-threshold=3000',o,'-o',o],capture_output=True,text=True)
        if p.returncode: raise Broken('opt: '+p.stderr[:300])
        p=subprocess.run([BUILD+'/irdump',o],capture_output=True,text=True)
        if p.returncode: raise Broken('irdump: '+p.stderr[:300])
        return n,s,json.loads(p.stdout)
    with ThreadPoolExecutor(8) as ex: R=list(ex.map(comp,[(n,s) for n in cfgs for s in srcs]))
    for n,src,M in R:
        F={f['name']:f for f in M['functions']}; A=An(F); done=set()
        for rnd in range(4):
            before=len(A.ret)
            for f in F.values():
                if f['decl']: continue
                if rnd==0: nf+=1
                for bi,blk in enumerate(f['blocks']):
                    for j,x in enumerate(blk):
                        if x['op'] not in('call','invoke') or (f['name'],x['id']) in done: continue
                        o=A.opener(x)
                        if not o: continue
                        done.add((f['name'],x['id'])); nm,ptr=o
                        l=next((f'{os.path.relpath(os.path.normpath(z[0]),REPO)}:{z[1]}' for z in (x.get('loc') or []) if 'hwy/' in z[0]),f['dem'][:60])
                        sites.append(f'{n}: {l} {nm}')
                        A.walk(f,(bi,j+1),{('v',x['id'])},{'fail','pos'} if ptr else {'fail','zero','pos'},ptr)
            if len(A.ret)==before: break
        uses+=A.uses; paths+=A.paths; br+=len(A.branches)
        for k,v in A.V.items(): viol.setdefault(k,v)
    for need in('topology.cc','perf_counters.cc'):
        if not any(need in s for s in sites): raise Broken('no opening call found in '+need)
    if a.dump: print('\n'.join(sorted(sites)),paths,br,uses)
    finish('R02',a.tier,'proof',dict(functions_analysed=nf,opening_call_sites=sites,paths_to_returns=paths,branches_deciding_validity=br,calls_with_descriptor=uses,translation_units=len(R),rule=__doc__),list(viol.values()),
      ['opening calls are the POSIX / Linux ones listed in the check','a descriptor stored outside the function is kept by its owner; the owner\'s own destructor is analysed where it is inlined','exceptions are disabled, as the library itself does not use them'])
if __name__=='__main__': main(m)
