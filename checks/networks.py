#!/usr/bin/env python3
"""C06: every base-case sorting network sorts all inputs (0-1 principle over the compiled code)."""
from common import *
import ops_main, opsgen
from collections import Counter
INC='''#include "hwy/contrib/sort/vqsort-inl.h"
namespace hd = hwy::HWY_NAMESPACE::detail;
// threshold functions: t[k] = at least k+1 of the inputs are set
template<int N> static inline __attribute__((always_inline)) void thr(const uint8_t* x, uint8_t* t) { for (int k=0;k<N;k++) t[k]=0; for (int i=0;i<N;i++) { for (int k=i;k>0;k--) t[k]=(uint8_t)(t[k]|(t[k-1]&x[i])); t[0]=(uint8_t)(t[0]|x[i]); } }
'''
# key types: (name, lane type, lanes per key, ascending traits, descending traits)
KT=[('u64','uint64_t',1,'hd::TraitsLane<hd::OrderAscending<uint64_t>>','hd::TraitsLane<hd::OrderDescending<uint64_t>>'),
    ('i64','int64_t',1,'hd::TraitsLane<hd::OrderAscending<int64_t>>','hd::TraitsLane<hd::OrderDescending<int64_t>>'),
    ('u32','uint32_t',1,'hd::TraitsLane<hd::OrderAscending<uint32_t>>','hd::TraitsLane<hd::OrderDescending<uint32_t>>'),
    ('i32','int32_t',1,'hd::TraitsLane<hd::OrderAscending<int32_t>>','hd::TraitsLane<hd::OrderDescending<int32_t>>'),
    ('u16','uint16_t',1,'hd::TraitsLane<hd::OrderAscending<uint16_t>>','hd::TraitsLane<hd::OrderDescending<uint16_t>>'),
    ('i16','int16_t',1,'hd::TraitsLane<hd::OrderAscending<int16_t>>','hd::TraitsLane<hd::OrderDescending<int16_t>>'),
    ('f32','float',1,'hd::TraitsLane<hd::OrderAscending<float>>','hd::TraitsLane<hd::OrderDescending<float>>'),
    ('f64','double',1,'hd::TraitsLane<hd::OrderAscending<double>>','hd::TraitsLane<hd::OrderDescending<double>>'),
    ('kv64','uint64_t',1,'hd::TraitsLane<hd::OrderAscendingKV64>','hd::TraitsLane<hd::OrderDescendingKV64>'),
    ('u128','uint64_t',2,'hd::Traits128<hd::OrderAscending128>','hd::Traits128<hd::OrderDescending128>'),
    ('kv128','uint64_t',2,'hd::Traits128<hd::OrderAscendingKV128>','hd::Traits128<hd::OrderDescendingKV128>')]
def instances(tg,tier):
    res=[]; k=0
    for nm,ct,lpk,asc,dsc in KT:
        S={'8':1,'1':2,'3':4,'6':8}[re.search(r'int(\d)|$',ct).group(1) or {'float':'3','double':'6'}[ct]]
        lanes=opsgen.maxlanes(tg,nm if lpk==1 and nm in opsgen.TYPES else 'u64'); kpv=lanes//lpk
        if kpv<1: continue
        mx=256 if kpv>=16 else 128 if kpv>=8 else 64 if kpv>=4 else 16 if kpv>=2 else 8
        full=[2,3,4,5,7,8,9,13,15,16,17,25,32,33,47,64,65,100,128,129,200,256]
        ns=[n for n in full if n<=mx]
        for order,tr in (('asc',asc),('desc',dsc)):
            if tier=='quick':
                if nm in('i64','u32','i16','u128','f64'): continue
                keep=(3,8,15,16,32,64,128,256) if order=='asc' else (2,4,7,13,25,47,100,200)
                ns=[n for n in ns if n in keep]
            for n in ns:
                L=n*lpk
                cols=1 if n<=8 else 2 if n<=16 else 4 if n<=64 else 8 if n<=128 else 16
                st=f'hd::SharedTraits<{tr}>'
                one='b' if lpk==1 else 'b'
                base=f'BaseCase/{nm}/{order}/{n}'
                big= n>100 if lpk==1 else n>32
                sk=lambda e: f'{{ const T b_=(T)({e}); keys[{lpk}*i]=b_; keys[{lpk}*i+{lpk-1}]=b_; }}'
                h=cols//2
                fams=[('all',None)] if not big else [('half0',0),('half1',0),('half0ones',1),('half1ones',1),('counts',2)]
                for fam,_ in fams:
                    loop=lambda body: f'for (int c=0;c<{cols};c++) _Pragma("clang loop unroll(disable)") for (int i=c;i<{n};i+={cols}) '+body
                    if fam=='all':
                        fill=loop(sk('p[i]&1')); R=n
                        rf=f'uint8_t x[{n}], t[{n}]; for (int i=0;i<{n};i++) x[i]=(uint8_t)(p[i]&1); thr<{n}>(x,t); for (int i=0;i<{n};i++) q[i]= t[{"%d-1-i"%n if order=="asc" else "i"}];'
                    elif fam=='counts': # both halves: an arbitrary number of ones each
                        fill='int u_[2]={0,0}; '+loop(sk(f'(c<{h}? p[0]:p[1])>u_[c>={h}]').replace('}',f' u_[c>={h}]++; }}',1)); R=2
                        n0=sum(1 for i in range(n) if i%cols<h); n1=n-n0
                        rf=f'unsigned m=(p[0]<{n0}?p[0]:{n0})+(p[1]<{n1}?p[1]:{n1}); for (int i=0;i<{n};i++) q[i]= m>{"%d-1-i"%n if order=="asc" else "i"};'
                    else: # one half arbitrary, the other constant
                        hv='0' if fam[4]=='0' else '1'; k1='1' if fam.endswith('ones') else '0'
                        idx=[i for c in range(cols) for i in range(c,n,cols) if (c>=h)==(hv=='1')]
                        fill=loop(sk(f'(c>={h})=={hv}? (T)(p[i]&1):(T){k1}')); R=n
                        base1=(n-len(idx)) if k1=='1' else 0; N2=len(idx)
                        rf=f'uint8_t x[{N2}], t[{N2}]; int j=0; for (int c={h if hv=="1" else 0};c<{cols if hv=="1" else h};c++) for (int i=c;i<{n};i+={cols}) x[j++]=(uint8_t)(p[i]&1); thr<{N2}>(x,t); for (int i=0;i<{n};i++) {{ int k={"%d-1-i"%n if order=="asc" else "i"}-{base1}; q[i]= k<0? 1: k<{N2}? t[k<0?0:k<{N2}?k:0]:0; }}'
                    bid=base if fam=='all' else base+'/'+fam
                    impl=(f'extern "C" void i{k}(const uint8_t* p, uint8_t* q) {{ using T={ct}; const hn::SortTag<T> d; alignas(64) T keys[{L}]; alignas(64) T buf[{64*1024//S//8}]; {fill} '
                      f'hd::BaseCase(d,{st}(),keys,{L},buf); '
                      f'_Pragma("clang loop unroll(disable)") for (int i=0;i<{n};i++) q[i]=(uint8_t)(keys[{lpk}*i+{lpk-1}]!=(T)0); }}')
                    ref=f'extern "C" void r{k}(const uint8_t* p, uint8_t* q) {{ {rf} }}'
                    roles=f'p:p:1:0:{R}:r p:q:1:0:{n}:w'
                    res.append((bid,impl,ref,'\t'.join([bid,f'i{k}',roles,f'r{k}',roles]))); k+=1
    return res
def m():
    a=args(lambda ap:(ap.add_argument('--targets',default=''),ap.add_argument('--re',default=''),ap.add_argument('--dump',default='')))
    build_tools(); sc=a.dump or scratch('net'); os.makedirs(sc,exist_ok=True)
    tgs=a.targets.split(',') if a.targets else ['SSE4','AVX2','AVX3'] if a.tier=='quick' else ['SSE2','SSSE3','SSE4','AVX2','AVX3','AVX3_SPR']
    ops_main.CXX+=['-mllvm','-inline-threshold=1000000','-Dnoinline=','-DHWY_DISABLED_TARGETS=0']
    per={t:[w for w in instances(t,a.tier) if re.search(a.re,w[0])] for t in tgs}
    rs=ops_main.run_custom(sc,per,INC,chunk=4)
    if a.dump:
        for r in rs: print(r['ms'],r['target'],r['id'],r['status'],r['detail'][:300],r['proven'],'/',r['lanes'],r.get('undec_why','')[:300],[ (x,r[x][:1]) for x in('mem','mismatch','cross','garbage') if r[x]])
    st=Counter(r['status'] for r in rs); vio=[]
    for r in rs:
        for k in('mem','mismatch','cross','garbage'):
            x=[x for x in r[k] if not x.startswith('?')]
            if x: vio.append(dict(key=f"{r['target']}:{r['id']}",where=r['loc'],what=f'{k}: {x[0]}')); break
    if st['done']<0.8*len(rs): raise Broken(f'only {st["done"]}/{len(rs)} analysed: '+str(Counter((r['status'],r['detail'][:60]) for r in rs if r['status']!='done').most_common(5)))
    cov=dict(explanation='0-1 principle by value numbering: with every key restricted to {0,1}, output k of the compiled BaseCase (padding, columns sort and all merges included, for a given key count) is compared with the threshold function "at least n-k ones" as a canonical boolean function of all n input bits; no execution. Shapes above 100 keys (128-bit keys: above 32) are decided on three input families: either half of the columns arbitrary with the other constant, and both halves with an arbitrary number of ones.',
      rule='output position k carries the k-th order statistic of the keys (ascending or descending), for every input',functions_analysed=st['done'],functions_total=len(rs),output_lanes=sum(r['lanes'] for r in rs),lanes_proven=sum(r['proven'] for r in rs),lanes_undecided=sum(r['undecided'] for r in rs),targets=tgs,not_analysed=[f"{r['target']}:{r['id']}: {r['detail'][:60]}" for r in rs if r['status']!='done'][:100])
    finish('C06',a.tier,'other',cov,vio,['0-1 principle: the network consists of order-based exchanges and permutations only','clang 18 front end and optimiser; x86 intrinsic models','float keys take the values 0.0 and 1.0 only (NaN is excluded by the API contract)'])
main(m)
