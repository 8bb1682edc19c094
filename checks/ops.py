#!/usr/bin/env python3
"""O01-O08: bit-provenance dataflow over the IR of every documented op instance."""
from common import *
import ops_main, opsgen, opstable
from collections import Counter

KIND={'O01':('mem',),'O04':('garbage',),
      'O02':('mismatch','cross','garbage'),'O03':('mismatch','cross','garbage'),'O05':('mismatch','cross','garbage'),
      'O06':('mismatch','cross','garbage'),'O07':('mismatch','cross','garbage'),'O08':('mismatch','cross','garbage')}
RULE={'O01':'every byte address of every load and store reached from the op, and its access condition, must imply membership in the documented [lo,hi) byte range of the argument (conditional on the count or mask where the operation promises not to fault)',
 'O04':'no documented output lane and no access condition of a partial-vector operation may depend on register bits past the last lane',
 'O02':'each output lane/byte must have exactly the documented bit provenance (value number) for all memory contents, counts and masks',
 'O03':'each output lane must carry exactly the bits of the documented input lane, for all contents and dynamic indices',
 'O05':'each output lane may depend only on the corresponding input lanes',
 'O06':'each output lane must have the same value number (canonical bit function) as the portable per-lane definition',
 'O07':'each mask bit/lane must have the value number of the documented definition',
 'O08':'each output lane must have the value number of the documented integer conversion'}
def main_():
    a=args(lambda ap: (ap.add_argument('--targets',default=''),ap.add_argument('--re',default='')))
    prop=a.prop; build_tools(); sc=scratch('ops'+prop)
    tgs=a.targets.split(',') if a.targets else [t for t in opsgen.TARGETS if a.tier!='quick' or t!='AVX3_DL']
    def filt(tg,w):
        if a.re and not re.search(a.re,w[0]): return False
        if prop=='O04':
            t,n=w[0].split('/')[1].split('x')[0:2]; b=opsgen.sz(t)*int(n)
            if tg=='SCALAR' or b>=16: return False
        return opstable.keep(tg,w,a.tier,prop)
    props=None if prop=='O04' else {prop}
    rs=ops_main.run(props,a.tier,tgs,sc,filt)
    if os.environ.get('VERIF_PROF'):
        c=Counter(); n=Counter(); tt=Counter()
        for r in rs: k=r['id'].split('/')[0]; c[k]+=r.get('ms',0); n[k]+=1; tt[r['target']]+=r.get('ms',0)
        print('analysis cpu s',sum(c.values())/1000,dict(tt)); print([(k,round(v/1000,1),n[k]) for k,v in c.most_common(40)])
    st=Counter(r['status'] for r in rs); vio=[]; seen=set()
    for r in rs:
        for k in KIND[prop]:
            for m in r[k]:
                if m.startswith('?'): continue
                key=f"{r['target']}:{r['id']}"
                if key in seen: continue
                seen.add(key); vio.append(dict(key=key,where=r['loc'],what=f'{k}: {m}'))
    per={}
    for r in rs:
        t=per.setdefault(r['target'],Counter()); t[r['status']]+=1; t['lanes']+=r['lanes']; t['proven']+=r['proven']; t['undecided']+=r['undecided']; t['accesses']+=r.get('acc',0)
    if not a.re and (not rs or st['done']<0.6*len(rs)): raise Broken(f'only {st["done"]} of {len(rs)} operation instances could be analysed: {st}')
    for t in tgs:
        if not a.re and t not in per and t not in ('AVX3_ZEN4','AVX3_DL','SCALAR'): raise Broken(f'target {t}: no instances')
        if not a.re and t in per and per[t]['done']==0: raise Broken(f'target {t}: nothing analysed')
    und=Counter((r['target'],r['id'].split('/')[0]) for r in rs if r['undecided'])
    uns=Counter((r['status'],r['id'].split('/')[0]) for r in rs if r['status']!='done')
    cov=dict(explanation='Abstract interpretation of the compiled (not executed) LLVM IR of one wrapper per (operation, lane type, lane count, immediate, target): every bit of every value is tracked as a canonical function (BDD / interned term) of the input bits; verdict per output lane: same canonical function as the documented definition (proven), decisively different (violation), or not decided (listed).',
        rule=RULE[prop],functions_analysed=st['done'],functions_total=len(rs),output_lanes=sum(r['lanes'] for r in rs),lanes_proven=sum(r['proven'] for r in rs),lanes_undecided=sum(r['undecided'] for r in rs),
        memory_accesses_checked=sum(r.get('acc',0) for r in rs),operations=len({r['id'].split('/')[0] for r in rs}),targets={t:dict(c) for t,c in per.items()},
        undecided_operations=sorted(f'{t}:{o}' for (t,o) in und)[:400],not_analysed=[f'{s}:{o} x{n}' for (s,o),n in sorted(uns.items())])
    finish(prop,a.tier,'other',cov,vio,['clang 18 front end and -O2 pass pipeline are trusted to preserve semantics','x86 intrinsic semantics as modelled in engine/intrinsics.inc','verdicts cover the clang-compiled x86, EMU128 and SCALAR targets'])
main(main_)
