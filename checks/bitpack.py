#!/usr/bin/env python3
"""C04: Unpack(Pack(x)) == x bit for bit, and both touch exactly the documented vectors."""
from common import *
import ops_main, opsgen
from collections import Counter
INC='''#include "hwy/contrib/bit_pack/bit_pack-inl.h"
'''
CT={8:'uint8_t',16:'uint16_t',32:'uint32_t',64:'uint64_t'}
def instances(tg,tier):
    res=[]; mb=opsgen.TARGETS[tg]['maxb']; k=0
    sizes=[mb] if tg!='SCALAR' else []
    if tier=='thorough': sizes=sorted({s for s in(16,32,64) if s<=mb})
    for B in(8,16,32,64):
        S=B//8; ct=CT[B]
        szs=sizes
        if tg=='SCALAR': szs=[S] if B in(32,64) else []
        for vb in szs:
            n=vb//S
            bits=range(1,B+1)
            if tier=='quick' and B>=32 and tg!='SSE2': bits=[b for b in bits if b in(1,2,3,4,5,7,8,11,12,13,16,17,21,24,29,31,32,33,37,40,47,48,53,60,63,64)]
            for kb in bits:
                R=B*n; P=kb*n  # elements in / out per call
                fors=[''] if B<32 else ['',', 5'] if False else ['']
                cls=f'hn::Pack{B}<{kb}>'
                mask=hex((1<<kb)-1)+('ull' if B==64 else 'u')
                D=f'using D=hn::Simd<{ct}, {n}, 0>; D d;'
                base=f'Pack{B}<{kb}>/{vb}B'
                call=(lambda m,a: f'{cls}{{}}.{m}(d,{a});') if B<32 else (lambda m,a: f'{cls}{{}}.template {m}<D>(d,{a});')
                res.append((base+'/roundtrip',f'extern "C" void i{k}(const {ct}* p, {ct}* q) {{ {D} alignas(64) {ct} raw[{R}]; alignas(64) {ct} packed[{P}]; _Pragma("clang loop unroll(disable)") for (int i=0;i<{R};i++) raw[i]=({ct})(p[i]&{mask}); {call("Pack","raw,packed")} {call("Unpack","packed,q")} }}',
                    f'extern "C" void r{k}(const {ct}* p, {ct}* q) {{ for (int i=0;i<{R};i++) q[i]=({ct})(p[i]&{mask}); }}',
                    '\t'.join([base+'/roundtrip',f'i{k}',f'p:p:{S}:0:{R*S}:r p:q:{S}:0:{R*S}:w',f'r{k}',f'p:p:{S}:0:{R*S}:r p:q:{S}:0:{R*S}:w']))); k+=1
                res.append((base+'/pack-footprint',f'extern "C" void i{k}(const {ct}* p, {ct}* q) {{ {D} {call("Pack","p,q")} }}','','\t'.join([base+'/pack-footprint',f'i{k}',f'p:p:{S}:0:{R*S}:r p:q:{S}:0:{P*S}:w','-']))); k+=1
                res.append((base+'/unpack-footprint',f'extern "C" void i{k}(const {ct}* p, {ct}* q) {{ {D} {call("Unpack","p,q")} }}','','\t'.join([base+'/unpack-footprint',f'i{k}',f'p:p:{S}:0:{P*S}:r p:q:{S}:0:{R*S}:w','-']))); k+=1
                if B>=32:
                    for FV,lo in(('0x9e3779b97f4a7c15ull','hn::BlockPackingType::kFoRBitPacked'),):
                        pc=f'{cls}{{}}.template Pack<D,{lo}>(d,raw,packed,f);'; uc=f'{cls}{{}}.template Unpack<D,{lo}>(d,packed,q,f);'
                        res.append((base+'/FoR-roundtrip',f'extern "C" void i{k}(const {ct}* p, {ct}* q, const {ct}* fp) {{ {D} const {ct} f=({ct}){FV}; alignas(64) {ct} raw[{R}]; alignas(64) {ct} packed[{P}]; _Pragma("clang loop unroll(disable)") for (int i=0;i<{R};i++) raw[i]=({ct})(({ct})(p[i]&{mask})+f); {pc} {uc} }}',
                            f'extern "C" void r{k}(const {ct}* p, {ct}* q, const {ct}* fp) {{ for (int i=0;i<{R};i++) q[i]=({ct})(({ct})(p[i]&{mask})+({ct}){FV}); }}',
                            '\t'.join([base+'/FoR-roundtrip',f'i{k}',f'p:p:{S}:0:{R*S}:r p:q:{S}:0:{R*S}:w p:fp:{S}:0:{S}:r',f'r{k}',f'p:p:{S}:0:{R*S}:r p:q:{S}:0:{R*S}:w p:fp:{S}:0:{S}:r']))); k+=1
    return res
def m():
    a=args(lambda ap:(ap.add_argument('--targets',default=''),ap.add_argument('--re',default=''),ap.add_argument('--dump',default='')))
    build_tools(); sc=scratch('bp')
    if a.dump: sc=a.dump; os.makedirs(sc,exist_ok=True)
    tgs=a.targets.split(',') if a.targets else ['SSE2','AVX2','SCALAR'] if a.tier=='quick' else list(opsgen.TARGETS)
    ops_main.CXX+=['-mllvm','-inline-threshold=1000000','-fbracket-depth=1024']
    per={t:[w for w in instances(t,a.tier) if re.search(a.re,w[0])] for t in tgs}
    rs=ops_main.run_custom(sc,per,INC,chunk=12)
    st=Counter(r['status'] for r in rs); vio=[]
    for r in rs:
        for k in('mem','mismatch','cross','garbage'):
            for x in r[k]:
                if x.startswith('?'): continue
                vio.append(dict(key=f"{r['target']}:{r['id']}",where=r['loc'],what=f'{k}: {x}')); break
    if a.dump:
        for r in rs:
            if r['status']!='done' or r['undecided']: print(r['target'],r['id'],r['status'],r['detail'][:200],r['undecided'],r.get('undec_why','')[:200])
    if st['done']<0.8*len(rs): raise Broken(f'only {st["done"]}/{len(rs)} analysed: '+str(Counter((r['status'],r['detail'][:60]) for r in rs if r['status']!='done').most_common(5)))
    cov=dict(explanation='Bit-level value numbering of the IR of Unpack(Pack(x)) against x for every bit width, with the byte footprint of Pack and Unpack; no execution.',functions_analysed=st['done'],functions_total=len(rs),output_lanes=sum(r['lanes'] for r in rs),lanes_proven=sum(r['proven'] for r in rs),lanes_undecided=sum(r['undecided'] for r in rs),memory_accesses_checked=sum(r.get('acc',0) for r in rs),targets=tgs,not_analysed=[f"{r['target']}:{r['id']}: {r['detail'][:60]}" for r in rs if r['status']!='done'][:100],
      rule='each unpacked element must have the value number of the masked input element; Pack may access exactly [0,raw) and [0,kBits*N), Unpack the converse')
    finish('C04',a.tier,'other',cov,vio,['clang 18 front end and optimiser','x86 intrinsic models'])
main(m)
