#!/usr/bin/env python3
"""Generates, per target, wrapper functions around highway ops together with
portable per-lane reference functions, and the bit-flow specs tying them."""
import os, re

TYPES = {  # name: (C++ type, unsigned-of-size, bytes, kind)
 'u8': ('uint8_t','uint8_t',1,'u'), 'i8': ('int8_t','uint8_t',1,'i'),
 'u16':('uint16_t','uint16_t',2,'u'),'i16':('int16_t','uint16_t',2,'i'),
 'u32':('uint32_t','uint32_t',4,'u'),'i32':('int32_t','uint32_t',4,'i'),
 'u64':('uint64_t','uint64_t',8,'u'),'i64':('int64_t','uint64_t',8,'i'),
 'f32':('float','uint32_t',4,'f'),   'f64':('double','uint64_t',8,'f'),
 'f16':('hwy::float16_t','uint16_t',2,'h'), 'bf16':('hwy::bfloat16_t','uint16_t',2,'b'),
}
INT=['u8','i8','u16','i16','u32','i32','u64','i64']; UNS=['u8','u16','u32','u64']; SGN=['i8','i16','i32','i64']
FLT=['f32','f64']; NUM=INT+FLT; ALL=NUM+['f16','bf16']
by_size={1:('u8','i8'),2:('u16','i16'),4:('u32','i32'),8:('u64','i64')}
def sz(t): return TYPES[t][2]
def kind(t): return TYPES[t][3]
def uns(t): return by_size[sz(t)][0]
def sgn(t): return by_size[sz(t)][1]
def wide(t):
    k=kind(t); s=sz(t)*2
    if s>8: return None
    if k in 'ui': return by_size[s][0 if k=='u' else 1]
    return {'f32':'f64','f16':'f32','bf16':'f32'}.get(t)
def narrow(t):
    k=kind(t); s=sz(t)//2
    if s<1: return None
    if k in 'ui': return by_size[s][0 if k=='u' else 1]
    return {'f64':'f32','f32':'f16'}.get(t)

TARGETS = {
 'SCALAR':   dict(flags=['-DHWY_COMPILE_ONLY_SCALAR'], maxb=0, mask='v', emu=True),
 'EMU128':   dict(flags=['-DHWY_COMPILE_ONLY_EMU128'], maxb=16, mask='v', emu=True),
 'SSE2':     dict(flags=['-DHWY_COMPILE_ONLY_STATIC'], maxb=16, mask='v'),
 'SSSE3':    dict(flags=['-DHWY_COMPILE_ONLY_STATIC','-mssse3'], maxb=16, mask='v'),
 'SSE4':     dict(flags=['-DHWY_COMPILE_ONLY_STATIC','-msse4.2','-maes','-mpclmul'], maxb=16, mask='v'),
 'AVX2':     dict(flags=['-DHWY_COMPILE_ONLY_STATIC','-march=haswell','-maes','-mpclmul'], maxb=32, mask='v'),
 'AVX3':     dict(flags=['-DHWY_COMPILE_ONLY_STATIC','-march=skylake-avx512','-maes','-mpclmul'], maxb=64, mask='b'),
 'AVX3_DL':  dict(flags=['-DHWY_COMPILE_ONLY_STATIC','-march=icelake-server'], maxb=64, mask='b'),
 'AVX3_ZEN4':dict(flags=['-DHWY_COMPILE_ONLY_STATIC','-DHWY_WANT_AVX3_ZEN4','-march=znver4'], maxb=64, mask='b'),
 'AVX3_SPR': dict(flags=['-DHWY_COMPILE_ONLY_STATIC','-march=sapphirerapids'], maxb=64, mask='b'),
}
def mask_size(tg, t, n):
    if TARGETS[tg]['mask']=='b': return max(1,max(16,n*sz(t))//sz(t)//8)
    return vec_size(tg,t,n)
def vec_size(tg, t, n):
    if tg=='SCALAR': return sz(t)
    return max(16, sz(t)*n)
def maxlanes(tg,t):
    if tg=='SCALAR': return 1
    return TARGETS[tg]['maxb']//sz(t)

class Op:
    def __init__(s, name, prop, types, args, out, imp, ref, **kw):
        s.name=name; s.prop=prop; s.types=types; s.args=args; s.out=out; s.imp=imp; s.ref=ref
        s.minl=kw.get('minl',1); s.minb=kw.get('minb',0); s.maxb=kw.get('maxb',64); s.sc=kw.get('sc',True)
        s.imms=kw.get('imms',None); s.raw=kw.get('raw',True); s.quick=kw.get('quick',True); s.targets=kw.get('targets',None)
        s.cond=kw.get('cond',None); s.care=kw.get('care',None); s.extra=kw.get('extra',''); s.types2=kw.get('types2',None)
        s.full=kw.get('full',False)
OPS=[]
import re as _re
def selects(ref):
    """reference definitions: 'if(c) x=e;' becomes a branch-free select, which keeps the IR of N*N definitions small"""
    out=''; i=0
    for m in _re.finditer(r'if\(',ref):
        if m.start()<i: continue
        k=m.end(); dep=1
        while dep: dep+= (ref[k]=='(')-(ref[k]==')'); k+=1
        cond=ref[m.end():k-1]; st=_re.match(r'\s*([a-z](?:\[[^\]=]*\])?)=([^=;{}][^;{}]*);',ref[k:])
        if not st or '$I' in cond or st.group(1) in('p[i]','p[q]'): continue
        out+=ref[i:m.start()]+f'sl({st.group(1)},{cond.replace("&&","&")},{st.group(2)});'; i=k+st.end()
    return out+ref[i:]
def op(*a, **k):
    a=list(a)
    if len(a)>6 and a[6]: a[6]=selects(a[6])
    OPS.append(Op(*a,**k))

# tag variants: name -> (type fn, lanes fn)
VAR={
 'D': (lambda t:t, lambda n:n), 'H': (lambda t:t, lambda n:n//2), 'T2':(lambda t:t, lambda n:n*2),
 'W': (wide, lambda n:n//2), 'WR':(wide, lambda n:n), 'NR':(narrow, lambda n:n), 'N2':(narrow, lambda n:n*2),
 'NH':(narrow, lambda n:n), 'S':(sgn, lambda n:n), 'U':(uns, lambda n:n), 'B':(lambda t:'u8', None),
 'I8':(lambda t:'i8', None), 'Bp':(lambda t:'u8', lambda n:8), 'BL':(lambda t:t, None), 'UN':(lambda t: uns(narrow(t)) if narrow(t) else None, lambda n:n), 'UN2':(lambda t: uns(narrow(t)) if narrow(t) else None, lambda n:n*2),
 'WU':(lambda t: uns(wide(t)) if wide(t) else None, lambda n:n//2),
 'WWR':(lambda t: wide(wide(t)) if wide(t) else None, lambda n:n), 'WWWR':(lambda t: wide(wide(wide(t))) if wide(t) and wide(wide(t)) else None, lambda n:n),
 'NNR':(lambda t: narrow(narrow(t)) if narrow(t) else None, lambda n:n), 'NNNR':(lambda t: narrow(narrow(narrow(t))) if narrow(t) and narrow(narrow(t)) else None, lambda n:n),
 'WS':(lambda t: sgn(wide(t)) if wide(t) else None, lambda n:n), 'WUR':(lambda t: uns(wide(t)) if wide(t) else None, lambda n:n), 'WSR':(lambda t: sgn(wide(t)) if wide(t) else None, lambda n:n),
 'F':(lambda t:{4:'f32',8:'f64',2:'f16'}.get(sz(t)), lambda n:n),
}
def variant(v,t,n,T2=None):
    if v=='X':
        r=(n if T2[1]=='same' else T2[1](n))
        return (T2[0],r) if r>=1 else None
    tf,nf=VAR[v]; tt=tf(t)
    if tt is None: return None
    if v in('B','I8'): return tt, n*sz(t)
    if v=='BL': return tt, min(n,16//sz(t))
    return tt, nf(n)

CXX_T=lambda t: TYPES[t][0]
def tag(t,n): return f'hn::Simd<{CXX_T(t)}, {n}, 0>'

def instances(tg, tier, props):
    for o in OPS:
        if props and not (set(o.prop.split())&props): continue
        if o.targets and tg not in o.targets: continue
        if tg=='SCALAR' and not o.sc: continue
        for t in o.types:
            ml=maxlanes(tg,t)
            n=1; lanes=[]
            while n<=ml: lanes.append(n); n*=2
            if o.full: lanes=lanes[-1:]
            for n in lanes:
                b=n*sz(t)
                if n<o.minl or b<o.minb or b>o.maxb: continue
                t2s=[None] if o.types2 is None else o.types2(t)
                for T2 in t2s:
                    if T2 is not None and T2[0]=='f16' : pass
                    imms=[None] if o.imms is None else o.imms(t,n)
                    if tier=='quick' and imms and len(imms)>6: 
                        k=len(imms); imms=[imms[i] for i in sorted({0,1,k//4,k//2,k-2,k-1})]
                    for im in imms:
                        if o.cond and not o.cond(tg,t,n,im): continue
                        yield o,t,n,im,T2

def build(tg, tier, props, idx0=0):
    """returns list of (id, icxx, rcxx, specline, op)"""
    res=[]; k=idx0
    for o,t,n,im,T2 in instances(tg,tier,props):
        w=make(tg,o,t,n,im,T2,k)
        if w is None: continue
        k+=1; res.append(w)
    return res

def make(tg,o,t,n,im,T2,k):
    M=TARGETS[tg]['maxb'] if tg!='SCALAR' else None
    def fits(tt,nn): return nn>=1 and ((nn==1) if tg=='SCALAR' else nn*sz(tt)<=M)
    tags={}; 
    ip=[];rp=[];ir=[];rr=[]; sub={}
    pre=[]
    def usetag(v):
        r=variant(v,t,n,T2)
        if r is None: return None
        tt,nn=r
        if not fits(tt,nn): return None
        tags[v]=(tt,nn); return r
    if usetag('D') is None: return None
    for a in o.args.split():
        nm,spec=a.split(':',1); f=spec.split('@'); ty=f[0]; opt=None
        if '=' in ty: ty,opt=ty.split('=',1)
        if ty in 'vmt' or ty=='vx':
            v=f[1] if len(f)>1 else 'D'
            if ty=='t':
                tt=variant(v,t,n,T2); 
                if tt is None: return None
                tt=tt[0]
                ip.append(f'const {CXX_T(tt)}* {nm}'); ir.append(f'v:{nm}:{sz(tt)}:1:{sz(tt)}'); rp.append(f'const {rawt(o,tt)}* {nm}'); rr.append(ir[-1]); continue
            r=usetag(v)
            if r is None: return None
            tt,nn=r
            if ty=='v':
                x=''
                if opt:
                    lg=lambda q: max(0,q.bit_length()-1)
                    bits={'LGN':lg(n),'LGN2':lg(2*n),'LGB':lg(min(16,n*sz(t))),'LGW':lg(sz(tt)*8),'LG64':6}.get(opt)
                    if opt=='OR0': x=':x%x'%(0x80|(min(16,n*sz(t))-1))
                    elif opt[0]=='x': x=':'+opt
                    else: x=':x%x'%((1<<bits)-1)
                ip.append(f'const hn::Vec<{tag(tt,nn)}>* {nm}'); ir.append(f'v:{nm}:{sz(tt)}:{nn}:{vec_size(tg,tt,nn)}{x}'); rp.append(f'const {rawt(o,tt)}* {nm}'); rr.append(f'v:{nm}:{sz(tt)}:{nn}:{nn*sz(tt)}{x}')
            else:
                ip.append(f'const hn::Mask<{tag(tt,nn)}>* {nm}'); ir.append(f'm:{nm}:{sz(tt)}:{nn}:{mask_size(tg,tt,nn)}:{TARGETS[tg]["mask"]}'); rp.append(f'const uint8_t* {nm}'); rr.append(f'm:{nm}:{sz(tt)}:{nn}:{nn}:y')
        elif ty=='p': # p=<elems expr>[,perm[,allow]]@variant ; opt like "0,N,r" 
            v=f[1] if len(f)>1 else 'D'; r=variant(v,t,n,T2) 
            if r is None: return None
            tt,nn=r
            mm=re.match(r'(.*),(rw|r|w)(?:,(.*))?$',opt); perm=mm.group(2); allow=mm.group(3) or ''
            lo,hi=eval('('+mm.group(1)+')',dict(N=nn,I=im,S=sz(tt),min=min,max=max))
            if allow=='c~N': allow='c=%d'%(nn*sz(tt))
            allow=allow.replace('~','=')
            c='' if 'w' in perm else 'const '
            ip.append(f'{c}{CXX_T(tt)}* {nm}'); rp.append(f'{c}{rawt(o,tt)}* {nm}')
            ir.append(f'p:{nm}:{sz(tt)}:{int(lo*sz(tt))}:{int(hi*sz(tt))}:{perm}'+(':'+allow if allow else '')); rr.append(f'p:{nm}:{sz(tt)}:{int(lo*sz(tt))}:{int(hi*sz(tt))}:{perm}'+(':'+allow if allow and allow[0]=='c' else ''))
        elif ty=='s':
            ex=''
            if opt:
                o2=opt
                if opt=='LGN': o2=str(n.bit_length()-1) if n>1 else '0'
                if opt=='LGW': o2=str((sz(t)*8).bit_length()-1)
                if o2=='0': ex=':=0'
                elif o2.startswith('c'): ex=':='+str(eval(o2[1:],dict(N=n,I=im)))
                else: ex=':'+o2
            ip.append(f'uint64_t {nm}'); rp.append(f'uint64_t {nm}'); ir.append(f's:{nm}:64{ex}'); rr.append(ir[-1])
        else: raise Exception(a)
    outs=[]
    for a in o.out.split():
        nm,spec=a.split(':',1); f=spec.split('@'); ty=f[0]
        v=f[1] if len(f)>1 else 'D'
        if ty=='t':
            if v in TYPES: tt=v
            else:
                r=variant(v,t,n,T2)
                if r is None: return None
                tt=r[0]
            ip.append(f'{CXX_T(tt)}* {nm}'); rp.append(f'{rawt(o,tt)}* {nm}'); ir.append(f'o:{nm}:{sz(tt)}:1:{sz(tt)}'); rr.append(ir[-1]); continue
        if ty=='none': continue
        r=usetag(v)
        if r is None: return None
        tt,nn=r
        if ty=='v':
            ip.append(f'hn::Vec<{tag(tt,nn)}>* {nm}'); rp.append(f'{rawt(o,tt)}* {nm}'); ir.append(f'o:{nm}:{sz(tt)}:{nn}:{vec_size(tg,tt,nn)}'); rr.append(f'o:{nm}:{sz(tt)}:{nn}:{nn*sz(tt)}')
        elif ty=='m':
            ip.append(f'hn::Mask<{tag(tt,nn)}>* {nm}'); rp.append(f'uint8_t* {nm}'); ir.append(f'om:{nm}:{sz(tt)}:{nn}:{mask_size(tg,tt,nn)}:{TARGETS[tg]["mask"]}'); rr.append(f'om:{nm}:{sz(tt)}:{nn}:{nn}:y')
    if o.care: rp.append('uint8_t* care'); 
    if o.care:
        cid,body=o.care; cn=[x for x in rr if x.split(':')[1]==cid][0].split(':')[3]; rr.append(f'oc:{cid}:{cn}')
    for v in re.findall(r'\b[dD]_(\w+)\b', o.imp):
        if v not in tags:
            if usetag(v) is None: return None
    us=''.join(f'using D_{v}={tag(*x)}; [[maybe_unused]] D_{v} d_{v}; ' for v,x in tags.items())
    us=us.replace('d_D;','d;').replace('D_D d;','D_D d;')
    imp=o.imp; im_s='' if im is None else str(im)
    imp=imp.replace('$I',im_s)
    if ';' not in imp: imp='*o = '+imp+';'
    names=[t,n]+([im] if im is not None else [])+([T2[0]] if T2 else [])
    wid=f'{o.name}/{t}x{n}'+(f'/{im}' if im is not None else '')+(f'/{T2[0]}x{variant("X",t,n,T2)[1]}' if T2 else '')
    dd=f'[[maybe_unused]] constexpr int N={n};'
    c=f'extern "C" void i{k}({", ".join(ip)}) {{ {us} {dd} {imp} }}\n'
    rc=''
    if o.ref is not None:
        T2d=''
        if T2: T2d=f'using X=RT<{rawt(o,T2[0])}>; [[maybe_unused]] constexpr int NX={variant("X",t,n,T2)[1]};'
        ct='U' if o.raw else 'T'
        rc=f'extern "C" void r{k}({", ".join(rp)}) {{ using T=RT<{rawt(o,t)}>; using U=UT<T>; using S=ST<T>; {T2d} constexpr int N={n}; constexpr int LB=BLK<T>(N); [[maybe_unused]] U zu=0; [[maybe_unused]] S zs=0; [[maybe_unused]] int zl=LB; {o.ref.replace("$I",im_s).replace("$W",str(sz(t)*8))} {o.care[1] if o.care else ""} }}\n'
    sp='\t'.join([wid,f'i{k}',' '.join(ir)]+([f'r{k}',' '.join(rr)] if o.ref is not None else ['-']))
    return wid,c,rc,sp,o
def rawt(o,tt):
    if o.raw or kind(tt) in 'hb': return TYPES[tt][1]
    return TYPES[tt][0]
