"""Driver of the checks that analyse scalar library code (no SIMD target loop): each configuration is one wrapper file with its own flags."""
from bfcheck import *
from concurrent.futures import ThreadPoolExecutor
OPT=['-std=c++17','-O2','-fno-vectorize','-fno-slp-vectorize','-fno-unroll-loops','-gline-tables-only','-DNDEBUG','-w','-ferror-limit=0','-fno-discard-value-names','-mllvm','-inline-threshold=1000000','-fno-access-control']
def analyse(sc,name,pro,inst,flags=(),per=60,init=True,cxx=None,end=''):
    """inst: Inst; one wrapper file = prologue + wrappers; wrappers that do not compile are reported as such"""
    os.makedirs(sc+'/cache',exist_ok=True)
    if init: os.environ['BITFLOW_GLOBAL_INIT']='1'
    def one(k):
        ws=inst.r[k:k+per]; base=f'{sc}/{name}_{k}'; dropped=[]
        for att in range(4):
            lines=pro.strip('\n').split('\n'); own={}
            for w in ws:
                for c in w[1:3]:
                    if c: lines.append(c.strip().replace('\n',' ')); own[len(lines)]=w[0]
            open(base+'.cc','w').write('\n'.join(lines)+'\n'+end+'\n')
            p=subprocess.run([cxx or CLANG]+OPT+list(flags)+['-I',REPO,'-c','-emit-llvm',base+'.cc','-o',base+'.bc'],capture_output=True,text=True)
            if p.returncode==0: break
            bad={}; last=''
            for l in p.stderr.split('\n'):
                m=re.match(r'(.*?):(\d+):\d+: (error|note|fatal error): (.*)',l)
                if m and 'error' in m.group(3): last=m.group(1)+':'+m.group(2)+' '+m.group(4)
                if m and m.group(1)==base+'.cc' and int(m.group(2)) in own: bad.setdefault(own[int(m.group(2))],last or m.group(4))
            if not bad: return [ops_main.blank(w[0],name,'nocompile',p.stderr[:400]) for w in ws]
            dropped+=[ops_main.blank(i,name,'nocompile',x) for i,x in bad.items()]; ws=[w for w in ws if w[0] not in bad]
            if not ws: return dropped
        return dropped+ops_main.analyse(sc,name,base+'.bc',ws,'a')
    with ThreadPoolExecutor(8) as ex: return sum(ex.map(one,range(0,len(inst.r),per)),[])
def violations(rs,kinds=('mem','mismatch','cross','garbage'),undecided=False):
    v=[]
    for r in rs:
        for k in kinds:
            x=[x for x in r[k] if not x.startswith('?')]
            if x: v.append(dict(key=f"{r['target']}:{r['id']}",where=r['loc'][:300],what=f'{k}: {x[0]}')); break
        else:
            if undecided and r['undecided']: v.append(dict(key=f"{r['target']}:{r['id']}",where=r['loc'][:300],what='not shown: '+r['undec_why'][:300]))
    return v
def summary(rs):
    st=Counter(r['status'] for r in rs)
    return dict(functions_analysed=st['done'],functions_total=len(rs),accesses_checked=sum(r['acc'] for r in rs),output_words=sum(r['lanes'] for r in rs),words_proven=sum(r['proven'] for r in rs),words_undecided=sum(r['undecided'] for r in rs),
      not_analysed=[f"{r['target']}:{r['id']}: {r['detail'][:80]}" for r in rs if r['status']!='done'][:100],undecided=[f"{r['target']}:{r['id']}" for r in rs if r['undecided']][:100],instances=sorted({r['target']+':'+r['id'] for r in rs if r['status']=='done'})[:400])
def need_done(rs,frac=1.0):
    bad=[r for r in rs if r['status']!='done']
    if not rs or len(bad)>(1-frac)*len(rs): raise Broken(f'{len(bad)}/{len(rs)} not analysed: '+str([(r['target'],r['id'],r['status'],r['detail'][:200]) for r in bad[:4]]))
def show(rs):
    for r in rs: print(r['ms'],r['target'],r['id'],r['status'],r['detail'][:300],r['proven'],'/',r['lanes'],r.get('undec_why','')[:300],[(x,r[x][:1]) for x in('mem','mismatch','cross','garbage') if r[x]])
def cross_flags(sc,triple):
    """flags to compile for another architecture with the host's libstdc++ headers (no code is run or linked)"""
    d=sc+'/xinc'; os.makedirs(d+'/gnu',exist_ok=True); os.makedirs(d+'/bits',exist_ok=True)
    for f in ('stubs-32.h','stubs-64.h','stubs-lp64d.h','stubs-lp64.h','stubs-64-v2.h','stubs-64-v1.h'): open(f'{d}/gnu/{f}','w').close()
    open(d+'/bits/wordsize.h','w').write('#define __WORDSIZE 64\n#define __WORDSIZE_TIME64_COMPAT32 0\n')
    try: open(d+'/bits/pthreadtypes-arch.h','w').write(re.sub(r'# *define __cleanup_fct_attribute.*','#define __cleanup_fct_attribute',open('/usr/include/x86_64-linux-gnu/bits/pthreadtypes-arch.h').read()))
    except OSError: pass
    import glob
    v=sorted(int(os.path.basename(x)) for x in glob.glob('/usr/include/c++/*') if os.path.basename(x).isdigit())[-1]
    return [f'--target={triple}','-isystem',d]+sum([['-isystem',x] for x in (f'/usr/include/c++/{v}',f'/usr/include/x86_64-linux-gnu/c++/{v}','/usr/include/x86_64-linux-gnu','/usr/include')],[])+['-nostdinc++']
