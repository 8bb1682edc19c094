"""Shared driver of the checks that compare compiled wrappers with reference definitions by bit-level value numbering."""
from common import *
import ops_main, opsgen
from collections import Counter
class Inst:
    def __init__(self): self.r=[]; self.k=0
    def add(self,id,impl,ref,roles,rroles=None):
        f=lambda c: c.replace('@',str(self.k)) if c else ''
        self.r.append((id,f(impl),f(ref),'\t'.join([id,f'i{self.k}',roles]+([f'r{self.k}',rroles or roles] if ref else ['-'])))); self.k+=1
def run(prop,a,per,inc,cov,cxx=(),chunk=40,kinds=('mem','mismatch','cross','garbage'),extra=(),assume=(),minok=0.8,need=()):
    """per: {target: instances}; extra: violations found by other rules; need: id regexes that must be decided completely on the current tree"""
    sc=a.dump or scratch('bf'); os.makedirs(sc,exist_ok=True); build_tools('bitflow')
    ops_main.CXX+=list(cxx)
    per={t:[w for w in ws if re.search(a.re,w[0])] for t,ws in per.items()}
    rs=ops_main.run_custom(sc,per,inc,chunk=chunk)
    if a.dump:
        for r in rs: print(r['ms'],r['target'],r['id'],r['status'],r['detail'][:300],r['proven'],'/',r['lanes'],r.get('undec_why','')[:200],[(x,r[x][:1]) for x in('mem','mismatch','cross','garbage') if r[x]])
    st=Counter(r['status'] for r in rs); vio=list(extra)
    for r in rs:
        for k in kinds:
            x=[x for x in r[k] if not x.startswith('?')]
            if x: vio.append(dict(key=f"{r['target']}:{r['id']}",where=r['loc'][:300],what=f'{k}: {x[0]}')); break
    if not rs or st['done']<minok*len(rs): raise Broken(f'only {st["done"]}/{len(rs)} analysed: '+str(Counter((r['status'],r['detail'][:160]) for r in rs if r['status']!='done').most_common(5)))
    cov=dict(cov,functions_analysed=st['done'],functions_total=len(rs),accesses_checked=sum(r['acc'] for r in rs),output_words=sum(r['lanes'] for r in rs),words_proven=sum(r['proven'] for r in rs),words_undecided=sum(r['undecided'] for r in rs),
      not_analysed=[f"{r['target']}:{r['id']}: {r['detail'][:60]}" for r in rs if r['status']!='done'][:100],undecided=[f"{r['target']}:{r['id']}" for r in rs if r['undecided']][:100],
      instances=sorted({r['id'] for r in rs if r['status']=='done'})[:400])
    finish(prop,a.tier,'other',cov,vio,['clang 18 front end and optimiser preserve the source semantics']+list(assume))
def std_args(): return args(lambda ap:(ap.add_argument('--targets',default=''),ap.add_argument('--re',default=''),ap.add_argument('--dump',default='')))
