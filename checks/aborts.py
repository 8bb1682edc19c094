#!/usr/bin/env python3
"""R01: assertions and aborts. Path-sensitive walk over the LLVM IR of (a) probes that use the assertion macros, compiled in every build mode, with
the assertion's operand known to satisfy or known to violate the condition, and (b) hwy::Abort / hwy::Warn and the handler registration themselves."""
from bfx import *
from resources import An
import json
PROBE='''#include "hwy/base.h"
#ifdef VF_MORE
#include "hwy/aligned_allocator.h"
#include "hwy/highway.h"
#include "hwy/profiler.h"
#endif
extern "C" void vf_sink(int) noexcept; extern "C" bool vf_cond(int) noexcept;
extern "C" void W_assert_3(int x) { HWY_ASSERT(x == 3); vf_sink(x); }
extern "C" void W_assertm_3(int x) { HWY_ASSERT_M(x == 3, "message"); vf_sink(x); }
extern "C" void W_abort_N(int x) { HWY_ABORT("value %d", x); vf_sink(x); }
extern "C" int W_ret_3(int x) { HWY_ASSERT(x == 3); return 1; }
extern "C" void W_comma_3(int x) { HWY_ASSERT((vf_sink(0), x == 3)); vf_sink(x); }
extern "C" void W_else_3(int x) { if (vf_cond(1)) HWY_ASSERT(x == 3); else HWY_ASSERT(x == 3); vf_sink(x); }
extern "C" void W_prec_3(int x) { HWY_ASSERT(x == 3 && vf_cond(2)); vf_sink(x); }
extern "C" void W_bits_3(int x) { HWY_ASSERT(x == 3 || x == 3); vf_sink(x); }
extern "C" void D_dassert_3(int x) { HWY_DASSERT(x == 3); vf_sink(x); }
extern "C" void D_dassertm_3(int x) { HWY_DASSERT_M(x == 3, "message"); vf_sink(x); }
extern "C" int vf_debug() { return HWY_IS_DEBUG_BUILD; }
'''
TERM={'abort','exit','_exit','_Exit','quick_exit','llvm.trap','llvm.ubsantrap','__fastfail','llvm.debugtrap'}
CF=[('O0',['-O0']),('O0-ndebug',['-O0','-DNDEBUG']),('O1',['-O1']),('O2',['-O2']),('O2-ndebug',['-O2','-DNDEBUG']),('O3-ndebug',['-O3','-DNDEBUG','-ffast-math']),('Os-ndebug',['-Os','-DNDEBUG']),('debug',['-O2','-DHWY_IS_DEBUG_BUILD=1']),('nodebug',['-O0','-DHWY_IS_DEBUG_BUILD=0']),
 ('header-only',['-O2','-DNDEBUG','-DHWY_HEADER_ONLY']),('header-only-O0',['-O0','-DHWY_HEADER_ONLY']),('asan',['-O1','-fsanitize=address','-DNDEBUG']),('msan',['-O1','-fsanitize=memory']),('tsan',['-O1','-fsanitize=thread','-DNDEBUG']),('c++11',['-O2','-DNDEBUG','-std=c++11']),('c++20',['-O2','-DNDEBUG','-std=c++20']),('c++23',['-O2','-DNDEBUG','-std=c++2b']),('more',['-O2','-DNDEBUG','-DVF_MORE']),('exceptions',['-O2','-DNDEBUG','-fexceptions'])]
def loc(x,d): return next((f'{os.path.relpath(os.path.normpath(z[0]),REPO)}:{z[1]}' for z in (x.get('loc') or []) if 'hwy/' in z[0]),d)
class W:
    """walk all paths of f; the value v of parameter 0 is known; collects how paths end"""
    def __init__(s,F): s.F=F; s.A=An(F); s.n=0
    def succ(s,t): return t.get('succ') or ([d for _,d in t['cases']]+[t['def']] if t['op']=='switch' else [])
    def abort_like(s,x,depth=0):
        c=x.get('callee') or ''
        return 'call-abort' if s.F.get(c,{}).get('dem','').startswith('hwy::Abort(') else None
    def run(s,f,v):
        ins=s.A.prep(f); B=f['blocks']; seen=set(); ends=set(); work=[(0,None,frozenset([('a',0)]),False)]
        while work:
            k=work.pop()
            if k in seen: continue
            seen.add(k); s.n+=1
            if len(seen)>50000: raise Broken('too many states')
            b,frm,al,sunk=k; na=set(al)
            for x in B[b]:
                if x['op']!='phi': break
                src=next((o for o,fr in x['inc'] if fr==frm),None); na={z for z in na if z[:2]!=('k',x['id'])}
                if src:
                    r=s.A.ev(ins,src,al,v)
                    if r is not None: na.add(('k',x['id'],r))
            al=frozenset(na); end=False
            for x in B[b]:
                op=x['op']
                if op in('call','invoke'):
                    c=x.get('callee') or ''
                    if c=='vf_sink' and x['ops'][0]!=['i',0,32]: sunk=True
                    a=s.abort_like(x)
                    if a: ends.add(('abort',sunk,x.get('noreturn',False))); end=True; break
                    if c in TERM: ends.add(('term',sunk,True)); end=True; break
                elif op=='ret': ends.add(('ret',sunk,None)); end=True; break
                elif op=='unreachable': ends.add(('unreachable',sunk,None)); end=True; break
                elif op=='resume': end=True; break
                elif op=='br' and len(x['succ'])==2:
                    e=s.A.ev(ins,x['ops'][0],al,v)
                    for t,d in ((1,x['succ'][0]),(0,x['succ'][1])):
                        if e is None or bool(e)==bool(t): work.append((d,b,al|({('k',x['ops'][0][1],t)} if x['ops'][0][0]=='v' else frozenset()),sunk))
                    end=True; break
            if not end:
                for d in s.succ(B[b][-1]): work.append((d,b,al,sunk))
        return ends
def handler_rule(F,f,kind,bad,stat):
    """on every path to termination (Abort) or return (Warn): the handler is loaded atomically; if non-null it was called with (file, line, text)"""
    A=An(F); ins=A.prep(f); B=f['blocks']
    def strip(o):
        while o[0]=='v' and ins[o[1]]['op'] in('bitcast','inttoptr','ptrtoint','freeze'): o=ins[o[1]]['ops'][0]
        return o
    def root(o):
        o=strip(o)
        if o[0]=='v' and ins[o[1]]['op']=='getelementptr': return root(ins[o[1]]['gep'][0]) if ins[o[1]]['gep'][1]==0 and not ins[o[1]]['gep'][2] else None
        return o[1] if o[0]=='v' and ins[o[1]]['op']=='alloca' else None
    # loads of a code pointer from static storage: the handler
    ind=[x for b in B for x in b if x['op'] in('call','invoke') and 'callee' not in x and x.get('cop',['?'])[0] not in('asm','g')]
    glob=set()
    def src(o,d=0):
        o=strip(o)
        if d>6 or o[0]!='v': return set()
        x=ins[o[1]]
        if x['op']=='load': return {x['id']}
        if x['op']=='phi': return set().union(*[src(z,d+1) for z,_ in x['inc']])
        return set()
    H=set().union(*[src(x['cop']) for x in ind]) if ind else set()
    if not ind or not H: bad(f,B[0][0],f'{kind}: no registered handler is called'); return None
    for h in H:
        x=ins[h]; stat['loads']+=1
        if 'ord' not in x: bad(f,x,f'{kind}: the handler is not loaded atomically')
        if x['ops'][0][0]!='g': bad(f,x,f'{kind}: the handler does not come from static storage')
        else: glob.add(x['ops'][0][1])
    # formatted text
    bufs={}
    for b in B:
        for x in b:
            if x.get('callee') in('vsnprintf','__vsnprintf_chk'):
                r=root(x['ops'][0]); n=x['ops'][1]; stat['formats']+=1
                if r is None or n[0]!='i' or not 0<n[1]<=ins[r]['asz']: bad(f,x,f'{kind}: the message is formatted with limit {n[1] if n[0]=="i" else "?"} into a buffer of {ins[r]["asz"] if r is not None else "?"} bytes')
                else: bufs[r]=1
                if strip(x['ops'][2 if x['callee']=='vsnprintf' else 4])!=['a',2]: bad(f,x,f'{kind}: the message is not formatted from the format argument')
            elif x.get('callee') in('vsprintf','sprintf','strcpy','strcat'): bad(f,x,f'{kind}: unbounded write by {x["callee"]}')
    if not bufs: bad(f,B[0][0],f'{kind}: the message is not formatted into a bounded buffer'); return glob
    # paths
    seen=set(); work=[(0,None,frozenset(),'none',frozenset(['null','set']),False,False)]; ends=0
    while work:
        k=work.pop()
        if k in seen: continue
        seen.add(k)
        if len(seen)>60000: raise Broken('too many states')
        b,frm,al,st,cl,fmt,prt=k; na=set(al)
        for x in B[b]:
            if x['op']!='phi': break
            sr=next((o for o,fr in x['inc'] if fr==frm),None); na={z for z in na if z[1]!=x['id']}
            if sr and tuple(sr[:2]) in al: na.add(('v',x['id']))
        al=frozenset(na); end=False
        for x in B[b]:
            op=x['op']; ops=x.get('ops',[])
            if op=='load' and x['id'] in H: al=frozenset(z for z in al)|{('v',x['id'])}; st='loaded' if st=='none' else st; cl=frozenset(['null','set']) if st=='loaded' else cl
            elif op in('bitcast','freeze','ptrtoint','inttoptr') and tuple(ops[0][:2]) in al: al=al|{('v',x['id'])}
            elif op in('call','invoke'):
                c=x.get('callee') or ''
                if 'callee' not in x and tuple(x.get('cop',['?'])[:2]) in al:
                    stat['calls']+=1
                    if 'null' in cl: bad(f,x,f'{kind}: the handler is called although it may be null')
                    if not fmt: bad(f,x,f'{kind}: the handler is called before the message is formatted')
                    if strip(ops[0])!=['a',0] or ops[1][:2]!=['a',1] or root(ops[2]) not in bufs: bad(f,x,f'{kind}: the handler does not get (file, line, message)')
                    st='called'
                elif c in('vsnprintf','__vsnprintf_chk'): fmt=True
                elif c in('fprintf','__fprintf_chk'):
                    fo=ops[1 if c=='fprintf' else 2]; prt=True
                    if root(fo) is not None: bad(f,x,f'{kind}: the message is used as a format string')
                elif c in TERM:
                    ends+=1; end=True
                    if kind=='Warn': bad(f,x,'Warn: terminates the process')
                    elif st!='called' and 'set' in cl: bad(f,x,'Abort: terminates without calling the registered handler')
                    elif st!='called' and not prt: bad(f,x,'Abort: terminates without handler or message')
                    break
                elif x.get('noreturn'): end=True; break
            elif op=='ret':
                end=True; ends+=1
                if kind=='Abort': bad(f,x,'Abort: can return to its caller')
                elif st!='called' and 'set' in cl: bad(f,x,'Warn: returns without calling the registered handler')
                elif st!='called' and not prt: bad(f,x,'Warn: prints nothing although no handler is registered')
                break
            elif op=='unreachable': 
                end=True
                if kind=='Abort' and not ((x.get('loc') or [['hwy/']])[0][0].startswith('/usr/')): bad(f,x,'Abort: a path ends without terminating the process')
                break
            elif op=='br' and len(x['succ'])==2:
                c=ops[0]; y=ins.get(c[1]) if c[0]=='v' else None
                dec=None
                if y and y['op']=='icmp' and y['pred'] in('eq','ne'):
                    o=[strip(z) for z in y['ops']]
                    if any(tuple(z[:2]) in al for z in o) and any(z[0]=='n' or z[:2]==['i',0] for z in o): dec=y['pred']
                for t,d in ((1,x['succ'][0]),(0,x['succ'][1])):
                    if dec:
                        isnull=(dec=='eq')==bool(t); n=cl&({'null'} if isnull else {'set'})
                        if n: work.append((d,b,al,st,frozenset(n),fmt,prt))
                    else: work.append((d,b,al,st,cl,fmt,prt))
                end=True; break
        if not end:
            for d in (B[b][-1].get('succ') or ([d for _,d in B[b][-1]['cases']]+[B[b][-1]['def']] if B[b][-1]['op']=='switch' else [])): work.append((d,b,al,st,cl,fmt,prt))
    if not ends: bad(f,B[0][0],f'{kind}: no path terminates')
    stat['ends']+=ends
    return glob
def m():
    a=std_args(); sc=a.dump or scratch('r01'); os.makedirs(sc,exist_ok=True); build_tools('irdump'); viol={}; stat=Counter(); cfgs=[]
    def add(k,w,t): viol.setdefault(k,dict(key=k,where=w,what=t))
    pr=f'{sc}/probe.cc'; open(pr,'w').write(PROBE)
    arch={'x86':[]}
    for n,t in(('aarch64','aarch64-linux-gnu'),('riscv64','riscv64-linux-gnu')):
        try: arch[n]=cross_flags(f'{sc}/{n}',t)
        except Exception: pass
    jobs=[('x86/'+n,f,pr,None) for n,f in CF]+[(f'{n}/O2-ndebug',arch[n]+['-O2','-DNDEBUG'],pr,None) for n in arch if n!='x86']
    ac=f'{REPO}/hwy/abort.cc'; inl=['-Xclang','-disable-llvm-passes']
    jobs+=[(f'{n}/abort.cc/{c}',arch[n]+fl+inl,ac,'abort') for n in arch for c,fl in(('ndebug',['-DNDEBUG','-O2']),('debug',['-DHWY_IS_DEBUG_BUILD=1','-O2']))]
    def comp(j):
        n,fl,src,kind=j; o=f"{sc}/{re.sub('[^a-z0-9]+','_',n)}.bc"
        std=[] if any(x.startswith('-std=') for x in fl) else ['-std=c++17']
        p=subprocess.run([CLANG]+std+['-g','-w','-fno-exceptions','-D_FORTIFY_SOURCE=0','-Xclang','-disable-O0-optnone']+(['-mllvm','-inline-threshold=0'] if kind=='abort' else [])+fl+['-I',REPO,'-c','-emit-llvm',src,'-o',o],capture_output=True,text=True)
        if p.returncode: return j,None,p.stderr
        pas='function(sroa,early-cse)' if not kind else 'function(sroa,early-cse),cgscc(inline),function(sroa,sccp,early-cse)'
        p=subprocess.run(['opt-18','-passes='+pas,'-inline-threshold=3000',o,'-o',o],capture_output=True,text=True)
        if p.returncode: raise Broken('opt: '+p.stderr[:300])
        p=subprocess.run([BUILD+'/irdump',o],capture_output=True,text=True)
        return j,json.loads(p.stdout),''
    with ThreadPoolExecutor(8) as ex: R=list(ex.map(comp,jobs))
    for (n,fl,src,kind),M,err in R:
        if M is None:
            if n.startswith('x86') or 'hwy/' in err and 'static_assert' in err: raise Broken(n+' does not compile: '+err[:500])
            stat['cross_skipped']+=1; continue
        F={f['name']:f for f in M['functions']}; cfgs.append(n)
        if kind is None:
            w=W(F); dbg=next((f for f in F.values() if f['name']=='vf_debug'),None); dv=dbg['blocks'][-1][-1]['ops'][0][1]
            for f in F.values():
                m_=re.match(r'([WD])_(\w+)_(\w)$',f['name'])
                if f['decl'] or not m_: continue
                enforced=m_.group(1)=='W' or dv
                for v,ok in ((3,True),(4,False),(0,False),(-1,False)):
                    if m_.group(3)=='N': ok=False
                    E=w.run(f,v); stat['probe_runs']+=1; nm=m_.group(2); k=f'{nm}:{n}'
                    fails=[e for e in E if e[0] in('abort','term')]; rets=[e for e in E if e[0] in('ret','unreachable')]
                    if not ok and enforced:
                        if rets or any(e[1] for e in fails): add(k,'HWY_'+nm,f'in build mode {n}, a failed assertion / abort lets the program continue past it')
                        elif not fails: add(k,'HWY_'+nm,f'in build mode {n}, a failed assertion does not reach hwy::Abort')
                        elif any(e[0]=='abort' and not e[2] for e in fails): add(k,'hwy::Abort',f'in build mode {n}, hwy::Abort is not declared noreturn')
                    elif not ok:
                        pass
                    elif ok and enforced and nm!='prec' and fails: add(k,'HWY_'+nm,f'in build mode {n}, a satisfied assertion aborts')
                    elif ok and not any(e[1] or nm=='ret' for e in rets): add(k,'HWY_'+nm,f'in build mode {n}, a satisfied assertion does not continue')
                stat['probes']+=1
            if 'header-only' in n:
                for f in F.values():
                    if f['dem'].startswith('hwy::Abort(') and not f['decl']: header_only(F,f,n,add,stat)
        else:
            def bad(f,x,t): add(f"{f['dem'].split('(')[0]}:{t[:70]}",loc(x,'hwy/abort.cc')+f' ({n})',t)
            G={}
            for k,pat in(('Abort','hwy::Abort('),('Warn','hwy::Warn(')):
                f=next((f for f in F.values() if f['dem'].startswith(pat) and not f['decl']),None)
                if f is None: raise Broken(f'{n}: {pat} not found')
                G[k]=handler_rule(F,f,k,bad,stat) or set(); stat['functions']+=1
                sf=next((f for f in F.values() if f['dem'].startswith(f'hwy::Set{k}Func(') and not f['decl']),None)
                if sf is None: raise Broken(f'{n}: Set{k}Func not found')
                rm=[x for b in sf['blocks'] for x in b if x['op'] in('atomicrmw','cmpxchg')]; stat['functions']+=1
                st=[x for b in sf['blocks'] for x in b if x['op']=='store' and x['ops'][1][0]=='g' and 'ZGV' not in x['ops'][1][1]]
                if not any(x['op']=='cmpxchg' or x.get('rmw')=='xchg' for x in rm): bad(sf,sf['blocks'][0][0],f'Set{k}Func does not exchange the handler atomically')
                for x in rm:
                    o=x['ops'][0]
                    if o[0]=='g': 
                        if G[k] and o[1] not in G[k]: bad(sf,x,f'Set{k}Func registers the handler in other storage than {k} reads')
                    cast={y['id']:y['ops'][0] for b in sf['blocks'] for y in b if y['op'] in('inttoptr','ptrtoint','bitcast')}; sp=lambda o: sp(cast[o[1]]) if o[0]=='v' and o[1] in cast else o
                    if x['op']=='atomicrmw' and sp(x['ops'][1])[:2]!=['a',0]: bad(sf,x,f'Set{k}Func does not store the new handler')
                    r=[y for b in sf['blocks'] for y in b if y['op']=='ret']
                    if x['op']=='atomicrmw' and any(y['ops'] and sp(y['ops'][0])[:2]!=['v',x['id']] for y in r): bad(sf,r[0],f'Set{k}Func does not return the previous handler')
            if G['Abort']&G['Warn']: add('shared-handler',n,'Abort and Warn read the same handler')
    # the macros are not redefined anywhere in the library
    hs=[]
    for d,_,fs in os.walk(REPO+'/hwy'):
        hs+=[os.path.join(d,f) for f in fs if f.endswith(('.h','.cc')) and 'test' not in f and f!='base.h' and 'examples' not in d]
    def macros(f):
        p=subprocess.run([CLANG,'-std=c++17','-DNDEBUG','-O2','-w','-I',REPO,'-DHWY_COMPILE_ONLY_STATIC','-E','-dM','-x','c++',f],capture_output=True,text=True)
        if p.returncode: return f,None
        return f,tuple(sorted(re.findall(r'^#define (HWY_(?:ASSERT|ASSERT_M|ABORT)\b.*)$',p.stdout,re.M)))
    with ThreadPoolExecutor(8) as ex: mc=list(ex.map(macros,hs+[REPO+'/hwy/base.h']))
    ref=mc[-1][1]
    if not ref or len(ref)!=3: raise Broken('assertion macros not found')
    for f,v in mc[:-1]:
        if v: stat['files_with_macros']+=1
        if v and v!=ref: add('macro:'+os.path.relpath(f,REPO),os.path.relpath(f,REPO),'redefines or removes the always-on assertion macros')
    if stat['probes']<150 or stat['functions']<16 or stat['files_with_macros']<40: raise Broken(f'too little analysed: {dict(stat)}')
    if a.dump: print(dict(stat),cfgs)
    finish('R01',a.tier,'proof',dict(build_modes=cfgs,probes=stat['probes'],probe_evaluations=stat['probe_runs'],functions_analysed=stat['functions'],handler_calls=stat['calls'],path_ends=stat['ends'],files_with_macros=stat['files_with_macros'],rule='violated condition: no path continues past the assertion and every path calls hwy::Abort (noreturn); Abort: no return, every path ends in a terminating call, registered handler (atomic load) called with (file, line, bounded text) when non-null, message printed otherwise; Set*Func exchanges the storage Abort/Warn read'),list(viol.values()),
      ['a handler that itself exits, throws or longjmps is the user\'s choice','IR of Clang; vsnprintf honours its size argument (C standard)'])
def header_only(F,f,n,add,stat):
    w=W(F); w.abort_like=lambda x,d=0: None; E=w.run(f,0); stat['functions']+=1
    if any(e[0]!='term' for e in E) or not E: add(f'Abort:{n}','hwy/base.h Abort','HWY_HEADER_ONLY: Abort can return or does not terminate the process')
    ins={x['id']:x for b in f['blocks'] for x in b}
    for x in ins.values():
        if x.get('callee') in('vsnprintf','__vsnprintf_chk'):
            o=x['ops'][0]
            while o[0]=='v' and ins[o[1]]['op'] in('getelementptr','bitcast'): o=ins[o[1]]['gep'][0] if 'gep' in ins[o[1]] else ins[o[1]]['ops'][0]
            if o[0]!='v' or ins[o[1]]['op']!='alloca' or x['ops'][1][0]!='i' or not 0<x['ops'][1][1]<=ins[o[1]]['asz']: add(f'Abort:{n}:format','hwy/base.h Abort','HWY_HEADER_ONLY: formats past the end of its buffer')
if __name__=='__main__': main(m)
