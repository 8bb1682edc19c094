"""Documented operations (g3doc/quick_reference.md) with their per-lane meaning."""
from opsgen import *
from opsgen import op
def rng(n): return list(range(n))
LN=lambda t,n: rng(n)
def lanes_sub(t,n): return rng(n)
BL=lambda t,n: min(n,16//sz(t))
MEM=ALL
# ---------------------------------------------------------------- O03 swizzle
op('GetLane','O03',ALL,'a:v','o:t','hn::GetLane(*a)','o[0]=a[0];')
op('ExtractLane','O03',ALL,'a:v','o:t','hn::ExtractLane(*a,$I)','o[0]=a[$I];',imms=LN)
op('ExtractLaneDyn','O03',NUM,'a:v i:s=LGN','o:t','hn::ExtractLane(*a,i)','U r=a[0]; FOR(k,N) if(i==(unsigned)k) r=a[k]; o[0]=r;')
op('InsertLane','O03',ALL,'a:v t:t','o:v','hn::InsertLane(*a,$I,*t)','FOR(i,N) o[i]= i==$I? t[0]:a[i];',imms=LN)
op('InsertLaneDyn','O03',NUM,'a:v t:t j:s=LGN','o:v','hn::InsertLane(*a,j,*t)','FOR(i,N) o[i]= (uint64_t)i==j? t[0]:a[i];')
nb=lambda t,n: max(1,n*sz(t)//16)
op('ExtractBlock','O03',ALL,'a:v','o:v@BL','hn::ExtractBlock<$I>(*a)','FOR(i,LB) o[i]=a[$I*LB+i];',imms=lambda t,n: rng(nb(t,n)),sc=False)
op('InsertBlock','O03',ALL,'a:v b:v@BL','o:v','hn::InsertBlock<$I>(*a,*b)','FOR(i,N) o[i]= i/LB==$I? b[i%LB]:a[i];',imms=lambda t,n: rng(nb(t,n)),sc=False)
op('BroadcastBlock','O03',ALL,'a:v','o:v','hn::BroadcastBlock<$I>(*a)','FOR(i,N) o[i]= a[$I*LB+i%LB];',imms=lambda t,n: rng(nb(t,n)),sc=False)
op('BroadcastLane','O03',ALL,'a:v','o:v','hn::BroadcastLane<$I>(*a)','FOR(i,N) o[i]=a[$I];',imms=LN)
op('Broadcast','O03',ALL,'a:v','o:v','hn::Broadcast<$I>(*a)','FOR(i,N) o[i]=a[i/LB*LB+$I];',imms=lambda t,n: rng(BL(t,n)))
op('LowerHalf','O03',ALL,'a:v','o:v@H','hn::LowerHalf(*a)','FOR(i,N/2) o[i]=a[i];',minl=2,sc=False)
op('LowerHalfD','O03',ALL,'a:v','o:v@H','hn::LowerHalf(d_H,*a)','FOR(i,N/2) o[i]=a[i];',minl=2,sc=False)
op('UpperHalf','O03',ALL,'a:v','o:v@H','hn::UpperHalf(d_H,*a)','FOR(i,N/2) o[i]=a[N/2+i];',minl=2,sc=False)
op('ZeroExtendVector','O03',ALL,'a:v@H','o:v','hn::ZeroExtendVector(d,*a)','FOR(i,N) o[i]= i<N/2? a[i]:zu;',minl=2,sc=False)
op('Combine','O03',ALL,'a:v@H b:v@H','o:v','hn::Combine(d,*a,*b)','FOR(i,N) o[i]= i<N/2? b[i]:a[i-N/2];',minl=2,sc=False)
for nm,l,h in(('LowerLower','lo[i]','hi[i-N/2]'),('UpperUpper','lo[i+N/2]','hi[i]'),('LowerUpper','lo[i+N/2]','hi[i-N/2]'),('UpperLower','lo[i]','hi[i]')):
    op('Concat'+nm,'O03',ALL,'hi:v lo:v','o:v',f'hn::Concat{nm}(d,*hi,*lo)',f'FOR(i,N) o[i]= i<N/2? {l}:{h};',minl=2,sc=False)
op('ConcatOdd','O03',ALL,'hi:v lo:v','o:v','hn::ConcatOdd(d,*hi,*lo)','FOR(i,N) o[i]= i<N/2? lo[2*i+1]:hi[2*(i-N/2)+1];',minl=2,sc=False)
op('ConcatEven','O03',ALL,'hi:v lo:v','o:v','hn::ConcatEven(d,*hi,*lo)','FOR(i,N) o[i]= i<N/2? lo[2*i]:hi[2*(i-N/2)];',minl=2,sc=False)
op('InterleaveWholeLower','O03',ALL,'a:v b:v','o:v','hn::InterleaveWholeLower(d,*a,*b)','FOR(i,N) o[i]= i&1? b[i/2]:a[i/2];',minl=2,sc=False)
op('InterleaveWholeLowerV','O03',ALL,'a:v b:v','o:v','hn::InterleaveWholeLower(*a,*b)','FOR(i,N) o[i]= i&1? b[i/2]:a[i/2];',minl=2,sc=False)
op('InterleaveWholeUpper','O03',ALL,'a:v b:v','o:v','hn::InterleaveWholeUpper(d,*a,*b)','FOR(i,N) o[i]= i&1? b[N/2+i/2]:a[N/2+i/2];',minl=2,sc=False)
op('InterleaveLower','O03',ALL,'a:v b:v','o:v','hn::InterleaveLower(d,*a,*b)','FOR(i,N) o[i]= i&1? b[i/LB*LB+i%LB/2]:a[i/LB*LB+i%LB/2];',minl=2,sc=False)
op('InterleaveUpper','O03',ALL,'a:v b:v','o:v','hn::InterleaveUpper(d,*a,*b)','FOR(i,N) o[i]= i&1? b[i/LB*LB+LB/2+i%LB/2]:a[i/LB*LB+LB/2+i%LB/2];',minl=2,sc=False)
op('InterleaveEven','O03',ALL,'a:v b:v','o:v','hn::InterleaveEven(d,*a,*b)','FOR(i,N) o[i]= i&1? b[i-1]:a[i];',minl=2,sc=False)
op('InterleaveOdd','O03',ALL,'a:v b:v','o:v','hn::InterleaveOdd(d,*a,*b)','FOR(i,N) o[i]= i&1? b[i]:a[i+1];',minl=2,sc=False)
I32=['u8','i8','u16','i16','u32','i32']
op('ZipLower','O03',I32,'a:v b:v','o:v@W','hn::ZipLower(d_W,*a,*b)','FOR(i,N/2) { int q=i/(LB/2)*LB + i%(LB/2); o[i]= (decltype(o[0]+0))((decltype(o[0]+0))a[q] | ((decltype(o[0]+0))b[q]<<$W)); }',minl=2,sc=False)
op('ZipUpper','O03',I32,'a:v b:v','o:v@W','hn::ZipUpper(d_W,*a,*b)','FOR(i,N/2) { int q=i/(LB/2)*LB + LB/2 + i%(LB/2); o[i]= (decltype(o[0]+0))((decltype(o[0]+0))a[q] | ((decltype(o[0]+0))b[q]<<$W)); }',minl=2,sc=False)
by=lambda t,n: rng(min(16,n*sz(t)))
op('ShiftLeftBytes','O03',INT,'a:v','o:v','hn::ShiftLeftBytes<$I>(d,*a)','constexpr int B=N*sizeof(T); constexpr int K=B<16?B:16; const uint8_t* p=(const uint8_t*)a; uint8_t* q=(uint8_t*)o; FOR(i,B) q[i]= i%K<$I? 0:p[i-$I];',imms=lambda t,n: rng(16),sc=False)
op('ShiftRightBytes','O03',INT,'a:v','o:v','hn::ShiftRightBytes<$I>(d,*a)','constexpr int B=N*sizeof(T); constexpr int K=B<16?B:16; const uint8_t* p=(const uint8_t*)a; uint8_t* q=(uint8_t*)o; FOR(i,B) q[i]= i%K+$I>=K? 0:p[i+$I];',imms=lambda t,n: rng(16),sc=False)
op('ShiftLeftLanes','O03',ALL,'a:v','o:v','hn::ShiftLeftLanes<$I>(d,*a)','FOR(i,N) o[i]= i%LB<$I? zu:a[i-$I];',imms=lambda t,n: rng(BL(t,n)),sc=False)
op('ShiftRightLanes','O03',ALL,'a:v','o:v','hn::ShiftRightLanes<$I>(d,*a)','FOR(i,N) o[i]= i%LB+$I>=LB? zu:a[i+$I];',imms=lambda t,n: rng(BL(t,n)),sc=False)
op('CombineShiftRightBytes','O03',INT,'hi:v lo:v','o:v','hn::CombineShiftRightBytes<$I>(d,*hi,*lo)','constexpr int B=N*sizeof(T); constexpr int K=B<16?B:16; const uint8_t* h=(const uint8_t*)hi; const uint8_t* l=(const uint8_t*)lo; uint8_t* q=(uint8_t*)o; FOR(i,B) q[i]= i%K+$I>=K? h[i-K+$I]:l[i+$I];',imms=lambda t,n: rng(min(16,n*sz(t)))[1:],sc=False)
op('CombineShiftRightLanes','O03',ALL,'hi:v lo:v','o:v','hn::CombineShiftRightLanes<$I>(d,*hi,*lo)','FOR(i,N) o[i]= i%LB+$I>=LB? hi[i-LB+$I]:lo[i+$I];',imms=lambda t,n: rng(BL(t,n))[1:],sc=False)
op('OddEven','O03',ALL,'a:v b:v','o:v','hn::OddEven(*a,*b)','FOR(i,N) o[i]= i&1? a[i]:b[i];')
op('DupEven','O03',ALL,'a:v','o:v','hn::DupEven(*a)','FOR(i,N) o[i]= a[i&~1];',minl=2)
op('DupOdd','O03',ALL,'a:v','o:v','hn::DupOdd(*a)','FOR(i,N) o[i]= a[i|1];',minl=2,sc=False)
T32=['u32','i32','f32']; T64=['u64','i64','f64']
op('Shuffle1032','O03',T32,'a:v','o:v','hn::Shuffle1032(*a)','FOR(i,N) o[i]=a[i/4*4+(i+2)%4];',minb=16,sc=False)
op('Shuffle0321','O03',T32,'a:v','o:v','hn::Shuffle0321(*a)','FOR(i,N) o[i]=a[i/4*4+(i+1)%4];',minb=16,sc=False)
op('Shuffle2103','O03',T32,'a:v','o:v','hn::Shuffle2103(*a)','FOR(i,N) o[i]=a[i/4*4+(i+3)%4];',minb=16,sc=False)
op('Shuffle2301','O03',T32,'a:v','o:v','hn::Shuffle2301(*a)','FOR(i,N) o[i]=a[i^1];',minb=8,sc=False)
op('Shuffle01','O03',T64,'a:v','o:v','hn::Shuffle01(*a)','FOR(i,N) o[i]=a[i^1];',minb=16,sc=False)
op('Shuffle0123','O03',T32,'a:v','o:v','hn::Shuffle0123(*a)','FOR(i,N) o[i]=a[i^3];',minb=16,sc=False)
op('Reverse','O03',ALL,'a:v','o:v','hn::Reverse(d,*a)','FOR(i,N) o[i]=a[N-1-i];')
op('Reverse2','O03',ALL,'a:v','o:v','hn::Reverse2(d,*a)','FOR(i,N) o[i]=a[i^1];',minl=2,sc=False)
op('Reverse4','O03',ALL,'a:v','o:v','hn::Reverse4(d,*a)','FOR(i,N) o[i]=a[i^3];',minl=4,sc=False)
op('Reverse8','O03',ALL,'a:v','o:v','hn::Reverse8(d,*a)','FOR(i,N) o[i]=a[i^7];',minl=8,sc=False)
op('ReverseBlocks','O03',ALL,'a:v','o:v','hn::ReverseBlocks(d,*a)','FOR(i,N) o[i]=a[(N/LB-1-i/LB)*LB+i%LB];',sc=False)
op('ReverseLaneBytes','O03',[t for t in INT if sz(t)>1],'a:v','o:v','hn::ReverseLaneBytes(*a)','constexpr int B=sizeof(T); const uint8_t* p=(const uint8_t*)a; uint8_t* q=(uint8_t*)o; FOR(i,N*B) q[i]=p[i/B*B+B-1-i%B];')
op('ReverseBits','O03',INT,'a:v','o:v','hn::ReverseBits(*a)','FOR(i,N) { U r=0; FOR(k,$W) r|=(U)(((a[i]>>k)&1)?(U)((U)1<<($W-1-k)):0); o[i]=r; }')
op('SwapAdjacentBlocks','O03',ALL,'a:v','o:v','hn::SwapAdjacentBlocks(*a)','FOR(i,N) o[i]=a[i^LB];',minb=32,sc=False)
op('OddEvenBlocks','O03',ALL,'a:v b:v','o:v','hn::OddEvenBlocks(*a,*b)','FOR(i,N) o[i]= (i/LB)&1? a[i]:b[i];')
op('InterleaveEvenBlocks','O03',ALL,'a:v b:v','o:v','hn::InterleaveEvenBlocks(d,*a,*b)','FOR(i,N) o[i]= (i/LB)&1? b[i-LB]:a[i];',minb=32,sc=False)
op('InterleaveOddBlocks','O03',ALL,'a:v b:v','o:v','hn::InterleaveOddBlocks(d,*a,*b)','FOR(i,N) o[i]= (i/LB)&1? b[i]:a[i+LB];',minb=32,sc=False)
op('SlideUpLanes','O03',ALL,'a:v','o:v','hn::SlideUpLanes(d,*a,$I)','FOR(i,N) o[i]= i<$I? zu:a[i-$I];',imms=LN)
op('SlideDownLanes','O03',ALL,'a:v','o:v','hn::SlideDownLanes(d,*a,$I)','FOR(i,N) o[i]= i+$I>=N? zu:a[i+$I];',imms=LN)
op('SlideUpLanesDyn','O03',NUM,'a:v k:s=LGN','o:v','hn::SlideUpLanes(d,*a,k)','FOR(i,N) { U r=0; FOR(j,i+1) if(k==(uint64_t)(i-j)) r=a[j]; o[i]=r; }')
op('SlideDownLanesDyn','O03',NUM,'a:v k:s=LGN','o:v','hn::SlideDownLanes(d,*a,k)','FOR(i,N) { U r=0; FOR(j,N-i) if(k==(uint64_t)j) r=a[i+j]; o[i]=r; }')
op('Slide1Up','O03',ALL,'a:v','o:v','hn::Slide1Up(d,*a)','FOR(i,N) o[i]= i<1? zu:a[i-1];')
op('Slide1Down','O03',ALL,'a:v','o:v','hn::Slide1Down(d,*a)','FOR(i,N) o[i]= i+1>=N? zu:a[i+1];')
op('SlideUpBlocks','O03',ALL,'a:v','o:v','hn::SlideUpBlocks<$I>(d,*a)','FOR(i,N) o[i]= i<$I*LB? zu:a[i-$I*LB];',imms=lambda t,n: rng(nb(t,n)),sc=False)
op('SlideDownBlocks','O03',ALL,'a:v','o:v','hn::SlideDownBlocks<$I>(d,*a)','FOR(i,N) o[i]= i+$I*LB>=N? zu:a[i+$I*LB];',imms=lambda t,n: rng(nb(t,n)),sc=False)
op('TableLookupBytes','O03',INT,'a:v x:v=LGB@B','o:v@B','hn::TableLookupBytes(*a,*x)','const uint8_t* p=(const uint8_t*)a; constexpr int B=N*sizeof(T); constexpr int K=B<16?B:16; FOR(i,B) { uint8_t r=0; FOR(j,K) if(x[i]==j) r=p[i/K*K+j]; o[i]=r; }',sc=False)
op('TableLookupBytesOr0','O03',['u8','i8','u32'],'a:v x:v=OR0@B','o:v@B','hn::TableLookupBytesOr0(*a,*x)','const uint8_t* p=(const uint8_t*)a; constexpr int B=N*sizeof(T); constexpr int K=B<16?B:16; FOR(i,B) { uint8_t r=0; FOR(j,K) if((x[i]&0x7f)==j) r=p[i/K*K+j]; o[i]= x[i]&0x80?0:r; }',sc=False)
op('TableLookupLanes','O03',NUM,'a:v x:v=LGN@U','o:v','hn::TableLookupLanes(*a,hn::IndicesFromVec(d,*x))','FOR(i,N) { U r=0; FOR(j,N) if(x[i]==j) r=a[j]; o[i]=r; }')
op('TwoTablesLookupLanes','O03',NUM,'a:v b:v x:v=LGN2@U','o:v','hn::TwoTablesLookupLanes(d,*a,*b,hn::IndicesFromVec(d,*x))','FOR(i,N) { U r=0; FOR(j,N) { if(x[i]==j) r=a[j]; if(x[i]==j+N) r=b[j]; } o[i]=r; }')
op('SetTableIndices','O03',NUM,'a:v x:p=0,N,r@U','o:v','hn::TableLookupLanes(*a,hn::SetTableIndices(d,x))','FOR(i,N) { U r=0; FOR(j,N) if((x[i]&(N-1))==j) r=a[j]; o[i]=r; }',care=('o','FOR(i,N) care[i]= x[i]<N;'))
op('BitShuffle','O03',['u64','i64'],'a:v x:v=LG64@B','o:v','hn::BitShuffle(*a,*x)','FOR(i,N) { uint64_t r=0; FOR(j,8) r|= ((a[i]>>(x[i*8+j]&63))&1)<<j; o[i]=r; }',sc=False,quick=False)
def p4(t,n): return ['3,2,1,0','0,1,2,3','2,3,0,1','1,0,3,2','0,0,1,1','3,3,2,2','0,0,0,0','3,1,2,0','2,2,0,0','3,3,1,1','1,0,1,0','3,2,3,2','0,3,2,1','2,1,0,3','1,3,0,2','0,1,0,3']
op('Per4LaneBlockShuffle','O03',ALL,'a:v','o:v','hn::Per4LaneBlockShuffle<$I>(*a)','constexpr int ix[4]={$I}; FOR(i,N) o[i]=a[i/4*4+ix[3-i%4]];',imms=p4,minl=4,sc=False)
op('Per4LaneBlockShuffle2','O03',ALL,'a:v','o:v','hn::Per4LaneBlockShuffle<3,2,$I>(*a)','constexpr int ix[2]={$I}; FOR(i,N) o[i]=a[ix[1-i]];',imms=lambda t,n:['0,0','0,1','1,0','1,1'],cond=lambda tg,t,n,i:n==2,sc=False)
op('Compress','O03',NUM,'a:v m:m','o:v','hn::Compress(*a,*m)','FOR(i,N) o[i]=0; int c=0; FOR(i,N) { FOR(j,i+1) if(m[i]&&c==j) o[j]=a[i]; c+=m[i]; }',care=('o','FOR(i,N) care[i]= i<c;'))
op('CompressNot','O03',NUM,'a:v m:m','o:v','hn::CompressNot(*a,*m)','FOR(i,N) o[i]=0; int c=0; FOR(i,N) { FOR(j,i+1) if(!m[i]&&c==j) o[j]=a[i]; c+=!m[i]; }',care=('o','FOR(i,N) care[i]= i<c;'))
op('CompressBits','O03',NUM,'a:v m:p=0,8,r@Bp','o:v','hn::CompressBits(*a,m)','FOR(i,N) o[i]=0; int c=0; FOR(i,N) { int mi=(m[i/8]>>(i%8))&1; FOR(j,i+1) if(mi&&c==j) o[j]=a[i]; c+=mi; }',care=('o','FOR(i,N) care[i]= i<c;'))
op('Expand','O03',NUM,'a:v m:m','o:v','hn::Expand(*a,*m)','int c=0; FOR(i,N) { U r=0; FOR(j,i+1) if(m[i]&&c==j) r=a[j]; o[i]=r; c+=m[i]; }')
op('CompressBlocksNot','O03',['u64'],'a:v m:m','o:v','hn::CompressBlocksNot(*a,*m)','FOR(i,N) o[i]=0; int c=0; FOR(i,N) { FOR(j,i+1) if(!m[i]&&c==j) o[j]=a[i]; c+=!m[i]; }',minl=2,sc=False,care=('o','bool okp=true; FOR(i,N/2) okp&= m[2*i]==m[2*i+1]; FOR(i,N) care[i]= okp && i<c;'))
op('Zero','O03',ALL,'a:t','o:v','hn::Zero(d)','FOR(i,N) o[i]=0;')
op('Set','O03',ALL,'a:t','o:v','hn::Set(d,*a)','FOR(i,N) o[i]=a[0];')
op('SignBit','O03',INT+FLT,'a:t','o:v','hn::SignBit(d)','FOR(i,N) o[i]=(U)((U)1<<($W-1));')
op('IotaC','O03',INT,'a:t','o:v','hn::Iota(d,$I)','FOR(i,N) o[i]=(U)(i+$I);',imms=lambda t,n:[0,1,7])
op('Iota','O03',INT,'a:t','o:v','hn::Iota(d,*a)','FOR(i,N) o[i]=(U)(i+a[0]);')
op('Dup128VecFromValues','O03',NUM,'p:p=0,min(16//S,16),r','o:v','hn::Dup128VecFromValues(d,$I)','FOR(i,N) o[i]=p[i%(16/sizeof(T))];',imms=lambda t,n:[','.join(f'p[{i}]' for i in range(16//sz(t)))],sc=False)
# ---------------------------------------------------------------- O02 memory (footprint: O01)
P='O02 O01'
op('Load',P,MEM,'p:p=0,N,r','o:v','hn::Load(d,p)','FOR(i,N) o[i]=p[i];')
op('LoadU',P,MEM,'p:p=0,N,r','o:v','hn::LoadU(d,p)','FOR(i,N) o[i]=p[i];')
op('LoadDup128',P,MEM,'p:p=0,min(N,16//S),r','o:v','hn::LoadDup128(d,p)','FOR(i,N) o[i]=p[i%LB];',sc=False)
op('Store',P,MEM,'a:v p:p=0,N,w','o:none','hn::Store(*a,d,p);','FOR(i,N) p[i]=a[i];')
op('StoreU',P,MEM,'a:v p:p=0,N,w','o:none','hn::StoreU(*a,d,p);','FOR(i,N) p[i]=a[i];')
op('Stream',P,NUM,'a:v p:p=0,max(N,16//S),w,c~N','o:none','hn::Stream(*a,d,p);','FOR(i,N) p[i]=a[i];')
fl=lambda allow: allow
op('MaskedLoad',P,MEM,'p:p=0,N,r@D m:m','o:v','hn::MaskedLoad(*m,d,p)','FOR(i,N) o[i]= m[i]? p[i]:zu;')
op('MaskedLoadOr',P,MEM,'p:p=0,N,r m:m a:v','o:v','hn::MaskedLoadOr(*a,*m,d,p)','FOR(i,N) o[i]= m[i]? p[i]:a[i];')
op('BlendedStore',P,MEM,'a:v m:m p:p=0,N,rw','o:none','hn::BlendedStore(*a,*m,d,p);','FOR(i,N) p[i]= m[i]? a[i]:p[i];')
def cnts(t,n): return sorted({0,1,2,3,n//2,max(0,n//2-1),n//2+1,n-1,n,n+1,2*n,3*n+1}) if n<=8 else sorted({0,1,2,3,4,5,6,7,8,9,n//2-1,n//2,n//2+1,n//2+3,n-2,n-1,n,n+1,2*n})
def cntsN(t,n): return [c for c in cnts(t,n) if c<=n]
op('LoadN',P,MEM,'p:p=0,I,r','o:v','hn::LoadN(d,p,$I)','FOR(i,N) o[i]= i<$I? p[i]:zu;',imms=cnts)
op('LoadNOr',P,MEM,'p:p=0,I,r a:v','o:v','hn::LoadNOr(*a,d,p,$I)','FOR(i,N) o[i]= i<$I? p[i]:a[i];',imms=cnts)
op('StoreN',P,MEM,'a:v p:p=0,min(N,I),rw','o:none','hn::StoreN(*a,d,p,$I);','FOR(i,N) if(i<$I) p[i]=a[i];',imms=cnts)
op('LoadNDyn',P,MEM,'p:p=0,max(N,16//S),r,n~n n:s','o:v','hn::LoadN(d,p,n)','FOR(i,N) o[i]= (uint64_t)i<n? p[i]:zu;')
op('LoadNOrDyn',P,MEM,'p:p=0,max(N,16//S),r,n~n a:v n:s','o:v','hn::LoadNOr(*a,d,p,n)','FOR(i,N) o[i]= (uint64_t)i<n? p[i]:a[i];')
op('StoreNDyn',P,MEM,'a:v p:p=0,N,rw,n~n n:s','o:none','hn::StoreN(*a,d,p,n);','FOR(i,N) if((uint64_t)i<n) p[i]=a[i];')
op('SafeFillN',P,NUM,'t:t p:p=0,I,w','o:none','hn::SafeFillN($I,*t,d,p);','FOR(i,N) if(i<$I) p[i]=t[0];',imms=cntsN)
op('SafeCopyN',P,NUM,'q:p=0,I,r p:p=0,I,w','o:none','hn::SafeCopyN($I,d,q,p);','FOR(i,N) if(i<$I) p[i]=q[i];',imms=cntsN)
op('InsertIntoUpper',P,ALL,'p:p=0,N//2,r a:v','o:v','hn::InsertIntoUpper(d,const_cast<TFp*>(p),*a)'.replace('const_cast<TFp*>(p)','const_cast<hn::TFromD<D_D>*>(p)'),'FOR(i,N) o[i]= i<N/2? a[i]:p[i-N/2];',minl=2,sc=False)
for k in(2,3,4):
    vs=' '.join(f'v{j}:v' for j in range(k)); 
    op(f'LoadInterleaved{k}',P,NUM,f'p:p=0,{k}*N,r',vs,f'hn::Vec<D_D> '+','.join(f't{j}' for j in range(k))+f'; hn::LoadInterleaved{k}(d,p,'+','.join(f't{j}' for j in range(k))+'); '+' '.join(f'*v{j}=t{j};' for j in range(k)),'FOR(i,N) { '+' '.join(f'v{j}[i]=p[{k}*i+{j}];' for j in range(k))+' }')
    op(f'StoreInterleaved{k}',P,NUM,vs+f' p:p=0,{k}*N,w','o:none',f'hn::StoreInterleaved{k}('+','.join(f'*v{j}' for j in range(k))+',d,p);','FOR(i,N) { '+' '.join(f'p[{k}*i+{j}]=v{j}[i];' for j in range(k))+' }')
op('TruncateStore',P,[t for t in UNS if sz(t)>1],'a:v p:p=0,N,w@NR','o:none','hn::TruncateStore(*a,d,p); [[maybe_unused]] auto q_=d_NR;','FOR(i,N) p[i]=(decltype(p[0]+0))a[i];',extra='')
op('CompressStoreF',P,NUM,'a:v m:m p:p=0,N,rw','c:t@u64','*c=hn::CompressStore(*a,*m,d,p); if(true){ hn::Vec<D_D> t=hn::LoadU(d,p); hn::StoreU(hn::IfThenElseZero(hn::FirstN(d,(size_t)*c),t),d,p);}','U q[N]; FOR(i,N) q[i]=0; int k=0; FOR(i,N) { FOR(j,i+1) if(m[i]&&k==j) q[j]=a[i]; k+=m[i]; } c[0]=k; FOR(i,N) p[i]=q[i];')
op('CompressBlendedStore',P,NUM,'a:v m:m p:p=0,N,rw','c:t@u64','*c=hn::CompressBlendedStore(*a,*m,d,p);','int k=0; FOR(i,N) { FOR(j,i+1) if(m[i]&&k==j) p[j]=a[i]; k+=m[i]; } c[0]=k;')
op('CompressBitsStoreF',P,NUM,'a:v m:p=0,8,r@Bp p:p=0,N,rw','c:t@u64','*c=hn::CompressBitsStore(*a,m,d,p); { hn::Vec<D_D> t=hn::LoadU(d,p); hn::StoreU(hn::IfThenElseZero(hn::FirstN(d,(size_t)*c),t),d,p);}','U q[N]; FOR(i,N) q[i]=0; int k=0; FOR(i,N) { int mi=(m[i/8]>>(i%8))&1; FOR(j,i+1) if(mi&&k==j) q[j]=a[i]; k+=mi; } c[0]=k; FOR(i,N) p[i]=q[i];')
op('LoadExpand',P,NUM,'m:m p:p=0,N,r','o:v','hn::LoadExpand(*m,d,p)','int c=0; FOR(i,N) { U r=0; FOR(j,i+1) if(m[i]&&c==j) r=p[j]; o[i]=r; c+=m[i]; }')
G=['u32','i32','f32','u64','i64','f64']
op('GatherIndex',P,G,'p:p=0,8,r x:v=x7@S','o:v','hn::GatherIndex(d,p,*x)','FOR(i,N) { U r=0; FOR(j,8) if(x[i]==j) r=p[j]; o[i]=r; }')
op('GatherIndexNeg',P,G,'p:p=-4,4,r x:v=x3@S','o:v','hn::GatherIndex(d,p,hn::Sub(*x,hn::Set(d_S,4)))','FOR(i,N) { U r=0; FOR(j,4) if(x[i]==j) r=p[j-4]; o[i]=r; }')
op('GatherOffset',P,G,'p:p=0,8,r x:v=x38@S','o:v','hn::GatherOffset(d,p,*x)','const uint8_t* b=(const uint8_t*)p; FOR(i,N) { U r=0; FOR(j,8) if(x[i]==j*8) __builtin_memcpy(&r,b+j*8,sizeof(U)); o[i]=r; }',cond=lambda tg,t,n,i: sz(t)==8)
op('MaskedGatherIndex',P,G,'m:m p:p=0,8,r x:v=x7@S','o:v','hn::MaskedGatherIndex(*m,d,p,*x)','FOR(i,N) { U r=0; FOR(j,8) if(x[i]==j) r=p[j]; o[i]= m[i]?r:zu; }')
op('MaskedGatherIndexOr',P,G,'m:m p:p=0,8,r x:v=x7@S a:v','o:v','hn::MaskedGatherIndexOr(*a,*m,d,p,*x)','FOR(i,N) { U r=0; FOR(j,8) if(x[i]==j) r=p[j]; o[i]= m[i]?r:a[i]; }')
op('GatherIndexN',P,G,'p:p=0,8*min(I,1),r x:v=x7@S','o:v','hn::GatherIndexN(d,p,*x,$I)','FOR(i,N) { U r=0; FOR(j,8) if(x[i]==j) r=p[j]; o[i]= i<$I?r:zu; }'.replace('8',('8')),imms=lambda t,n: rng(n+1))
op('GatherIndexNOr',P,G,'p:p=0,8,r x:v=x7@S a:v','o:v','hn::GatherIndexNOr(*a,d,p,*x,$I)','FOR(i,N) { U r=0; FOR(j,8) if(x[i]==j) r=p[j]; o[i]= i<$I?r:a[i]; }',imms=lambda t,n: rng(n+1))
# footprint of masked/limited gathers and scatters: lane i has its own region selected by constant indices
op('GatherIndexNFoot',P,G,'p:p=0,I,r','o:v','hn::GatherIndexN(d,p,hn::Iota(d_S,0),$I)','FOR(i,N) o[i]= i<$I? p[i]:zu;',imms=lambda t,n: rng(n+1))
op('MaskedGatherFoot',P,G,'m:m p:p=0,N,r,m~m','o:v','hn::MaskedGatherIndex(*m,d,p,hn::Iota(d_S,0))','FOR(i,N) o[i]= m[i]? p[i]:zu;')
op('ScatterIndexFoot',P,G,'a:v p:p=0,N,w','o:none','hn::ScatterIndex(*a,d,p,hn::Iota(d_S,0));','FOR(i,N) p[i]=a[i];')
op('ScatterOffsetFoot',P,G,'a:v p:p=0,N,w','o:none','hn::ScatterOffset(*a,d,p,hn::Mul(hn::Iota(d_S,0),hn::Set(d_S,sizeof(hn::TFromD<D_D>))));','FOR(i,N) p[i]=a[i];')
op('ScatterIndexNFoot',P,G,'a:v p:p=0,I,rw','o:none','hn::ScatterIndexN(*a,d,p,hn::Iota(d_S,0),$I);','FOR(i,N) if(i<$I) p[i]=a[i];',imms=lambda t,n: rng(n+1))
op('MaskedScatterFoot',P,G,'a:v m:m p:p=0,N,rw,m~m','o:none','hn::MaskedScatterIndex(*a,*m,d,p,hn::Iota(d_S,0));','FOR(i,N) if(m[i]) p[i]=a[i];')
op('ScatterIndex',P,G,'a:v p:p=0,4,rw x:v=x3@S','o:none','hn::ScatterIndex(*a,d,p,*x);','FOR(i,N) { FOR(j,4) if(x[i]==j) p[j]=a[i]; }',maxb=32)
op('MaskedScatterIndex',P,G,'a:v m:m p:p=0,4,rw x:v=x3@S','o:none','hn::MaskedScatterIndex(*a,*m,d,p,*x);','FOR(i,N) { FOR(j,4) if(m[i]&&x[i]==j) p[j]=a[i]; }',maxb=32)
# ---------------------------------------------------------------- O07 masks
Q='O07'
op('FirstN',Q,ALL,'n:s=16','o:m','hn::FirstN(d,n)','FOR(i,N) o[i]= (uint64_t)i<n;',care=None,cond=lambda tg,t,n,i: sz(t)>1 and kind(t) in 'uif')
op('FirstN7',Q,['u8','i8'],'n:s=7','o:m','hn::FirstN(d,n)','FOR(i,N) o[i]= (uint64_t)i<n;')
op('FirstN64',Q,['u64','i64','f64'],'n:s=63','o:m','hn::FirstN(d,n)','FOR(i,N) o[i]= (uint64_t)i<n;')
op('FirstN31',Q,['u32','i32','f32'],'n:s=31','o:m','hn::FirstN(d,n)','FOR(i,N) o[i]= (uint64_t)i<n;')
op('FirstNC',Q,ALL,'a:t','o:m','hn::FirstN(d,$I)','FOR(i,N) o[i]= i<$I;',imms=lambda t,n: rng(n+2))
op('MaskFalse',Q,ALL,'a:t','o:m','hn::MaskFalse(d)','FOR(i,N) o[i]=0;')
op('MaskFromVec',Q,ALL,'m:m','o:m','hn::MaskFromVec(hn::VecFromMask(d,*m))','FOR(i,N) o[i]=m[i];')
op('VecFromMask',Q,ALL,'m:m','o:v','hn::VecFromMask(d,*m)','FOR(i,N) o[i]= m[i]? (U)~zu:zu;')
op('BitsFromMask',Q,NUM,'m:m','o:t@u64','hn::BitsFromMask(d,*m)','uint64_t r=0; FOR(i,N) r|= (uint64_t)m[i]<<i; o[0]=r;')
op('LoadMaskBits',Q+' O01',NUM,'p:p=0,8,r@Bp','o:m','hn::LoadMaskBits(d,p)','FOR(i,N) o[i]=(p[i/8]>>(i%8))&1;')
op('StoreMaskBits',Q+' O01',NUM,'m:m p:p=0,8,rw@Bp','c:t@u64','*c=hn::StoreMaskBits(d,*m,p);','FOR(q,8) { if(q<(N+7)/8) { uint8_t r=0; FOR(b,8) if(q*8+b<N) r|=(uint8_t)(m[q*8+b]<<b); p[q]=r; } } c[0]=(N+7)/8;')
op('Dup128MaskFromMaskBits',Q,NUM,'b:s=c$I' if False else 'b:s=8','o:m','hn::Dup128MaskFromMaskBits(d,(unsigned)b)','FOR(i,N) o[i]=(b>>(i%(16/sizeof(T))))&1;',cond=lambda tg,t,n,i: sz(t)>1)
op('Dup128MaskFromMaskBits8',Q,['u8','i8'],'b:s=16','o:m','hn::Dup128MaskFromMaskBits(d,(unsigned)b)','FOR(i,N) o[i]=(b>>(i%16))&1;')
op('MaskNot',Q,NUM,'m:m','o:m','hn::Not(*m)','FOR(i,N) o[i]=!m[i];')
op('MaskAnd',Q,NUM,'m:m k:m','o:m','hn::And(*m,*k)','FOR(i,N) o[i]=m[i]&k[i];')
op('MaskAndNot',Q,NUM,'m:m k:m','o:m','hn::AndNot(*m,*k)','FOR(i,N) o[i]=!m[i]&k[i];')
op('MaskOr',Q,NUM,'m:m k:m','o:m','hn::Or(*m,*k)','FOR(i,N) o[i]=m[i]|k[i];')
op('MaskXor',Q,NUM,'m:m k:m','o:m','hn::Xor(*m,*k)','FOR(i,N) o[i]=m[i]^k[i];')
op('ExclusiveNeither',Q,NUM,'m:m k:m','o:m','hn::ExclusiveNeither(*m,*k)','FOR(i,N) o[i]=!m[i]&!k[i];',care=('o','bool ex=true; FOR(i,N) ex&=!(m[i]&k[i]); FOR(i,N) care[i]=!(m[i]&k[i]);'))
op('AllTrue',Q,NUM,'m:m','o:t@u8','*o=(uint8_t)hn::AllTrue(d,*m);','int r=1; FOR(i,N) r&=m[i]; o[0]=r;')
op('AllFalse',Q,NUM,'m:m','o:t@u8','*o=(uint8_t)hn::AllFalse(d,*m);','int r=0; FOR(i,N) r|=m[i]; o[0]=!r;')
op('CountTrue',Q,NUM,'m:m','o:t@u64','hn::CountTrue(d,*m)','uint64_t r=0; FOR(i,N) r+=m[i]; o[0]=r;')
op('FindFirstTrue',Q,NUM,'m:m','o:t@i64','hn::FindFirstTrue(d,*m)','int64_t r=-1; FOR(k,N) { int i=N-1-k; if(m[i]) r=i; } o[0]=r;')
op('FindLastTrue',Q,NUM,'m:m','o:t@i64','hn::FindLastTrue(d,*m)','int64_t r=-1; FOR(i,N) if(m[i]) r=i; o[0]=r;')
op('FindKnownFirstTrue',Q,NUM,'m:m','o:t@u64','hn::FindKnownFirstTrue(d,*m)','uint64_t r=0; FOR(k,N) { int i=N-1-k; if(m[i]) r=i; } o[0]=r;',care=('o','int any=0; FOR(i,N) any|=m[i]; care[0]=any;'))
op('FindKnownLastTrue',Q,NUM,'m:m','o:t@u64','hn::FindKnownLastTrue(d,*m)','uint64_t r=0; FOR(i,N) if(m[i]) r=i; o[0]=r;',care=('o','int any=0; FOR(i,N) any|=m[i]; care[0]=any;'))
op('SetOnlyFirst',Q,NUM,'m:m','o:m','hn::SetOnlyFirst(*m)','int s=0; FOR(i,N) { o[i]=m[i]&!s; s|=m[i]; }')
op('SetBeforeFirst',Q,NUM,'m:m','o:m','hn::SetBeforeFirst(*m)','int s=0; FOR(i,N) { s|=m[i]; o[i]=!s; }')
op('SetAtOrBeforeFirst',Q,NUM,'m:m','o:m','hn::SetAtOrBeforeFirst(*m)','int s=0; FOR(i,N) { o[i]=!s; s|=m[i]; }')
op('SetAtOrAfterFirst',Q,NUM,'m:m','o:m','hn::SetAtOrAfterFirst(*m)','int s=0; FOR(i,N) { s|=m[i]; o[i]=s; }')
op('LowerHalfOfMask',Q,NUM,'m:m','o:m@H','hn::LowerHalfOfMask(d_H,*m)','FOR(i,N/2) o[i]=m[i];',minl=2,sc=False)
op('UpperHalfOfMask',Q,NUM,'m:m','o:m@H','hn::UpperHalfOfMask(d_H,*m)','FOR(i,N/2) o[i]=m[N/2+i];',minl=2,sc=False)
op('CombineMasks',Q,NUM,'m:m@H k:m@H','o:m','hn::CombineMasks(d,*m,*k)','FOR(i,N) o[i]= i<N/2? k[i]:m[i-N/2];',minl=2,sc=False)
op('SlideMaskUpLanes',Q,NUM,'m:m','o:m','hn::SlideMaskUpLanes(d,*m,$I)','FOR(i,N) o[i]= i<$I? 0:m[i-$I];',imms=LN)
op('SlideMaskDownLanes',Q,NUM,'m:m','o:m','hn::SlideMaskDownLanes(d,*m,$I)','FOR(i,N) o[i]= i+$I>=N? 0:m[i+$I];',imms=LN)
op('SlideMaskUpLanesDyn',Q,INT,'m:m k:s=LGN','o:m','hn::SlideMaskUpLanes(d,*m,k)','FOR(i,N) { uint8_t r=0; FOR(j,i+1) if(k==(uint64_t)(i-j)) r=m[j]; o[i]=r; }')
op('SlideMaskDownLanesDyn',Q,INT,'m:m k:s=LGN','o:m','hn::SlideMaskDownLanes(d,*m,k)','FOR(i,N) { uint8_t r=0; FOR(j,N-i) if(k==(uint64_t)j) r=m[i+j]; o[i]=r; }')
op('SlideMask1Up',Q,NUM,'m:m','o:m','hn::SlideMask1Up(d,*m)','FOR(i,N) o[i]= i<1? 0:m[i-1];')
op('SlideMask1Down',Q,NUM,'m:m','o:m','hn::SlideMask1Down(d,*m)','FOR(i,N) o[i]= i+1>=N? 0:m[i+1];')
op('RebindMask',Q,NUM,'m:m','o:m@X','hn::RebindMask(d_X,*m)','FOR(i,N) o[i]=m[i];',types2=lambda t:[(x,'same') for x in NUM if sz(x)==sz(t) and x!=t])
op('PromoteMaskTo',Q,['u8','i8','u16','i16','u32','i32','f32'],'m:m','o:m@X','hn::PromoteMaskTo(d_X,d,*m)','FOR(i,N) o[i]=m[i];',types2=lambda t:[(x,'same') for x in UNS+['f32','f64'] if sz(x)>sz(t)])
op('DemoteMaskTo',Q,['u16','i16','u32','i32','u64','i64','f32','f64'],'m:m','o:m@X','hn::DemoteMaskTo(d_X,d,*m)','FOR(i,N) o[i]=m[i];',types2=lambda t:[(x,'same') for x in UNS+['f32'] if sz(x)<sz(t)])
op('OrderedDemote2MasksTo',Q,['u16','i16','u32','i32','u64','i64'],'m:m k:m','o:m@X','hn::OrderedDemote2MasksTo(d_X,d,*m,*k)','FOR(i,2*N) o[i]= i<N? m[i]:k[i-N];',types2=lambda t:[(narrow(t),lambda n:2*n)],sc=False)
op('IsNegative',Q,SGN+FLT,'a:v','o:m','hn::IsNegative(*a)','FOR(i,N) o[i]=(a[i]>>($W-1))&1;')
# ---------------------------------------------------------------- O06 select/logic/integer
R='O06 O05'
op('IfThenElse',R,ALL,'m:m a:v b:v','o:v','hn::IfThenElse(*m,*a,*b)','FOR(i,N) o[i]= m[i]? a[i]:b[i];')
op('IfThenElseZero',R,ALL,'m:m a:v','o:v','hn::IfThenElseZero(*m,*a)','FOR(i,N) o[i]= m[i]? a[i]:zu;')
op('IfThenZeroElse',R,ALL,'m:m a:v','o:v','hn::IfThenZeroElse(*m,*a)','FOR(i,N) o[i]= m[i]? zu:a[i];')
op('IfVecThenElse',R,NUM,'m:m a:v b:v','o:v','hn::IfVecThenElse(hn::VecFromMask(d,*m),*a,*b)','FOR(i,N) o[i]= m[i]? a[i]:b[i];')
op('BitwiseIfThenElse',R,NUM,'m:v a:v b:v','o:v','hn::BitwiseIfThenElse(*m,*a,*b)','FOR(i,N) o[i]= (m[i]&a[i])|(~m[i]&b[i]);')
for nm,ex in(('And','a[i]&b[i]'),('Or','a[i]|b[i]'),('Xor','a[i]^b[i]'),('AndNot','~a[i]&b[i]')):
    op(nm,R,NUM,'a:v b:v','o:v',f'hn::{nm}(*a,*b)',f'FOR(i,N) o[i]={ex};')
op('Not',R,NUM,'a:v','o:v','hn::Not(*a)','FOR(i,N) o[i]=~a[i];')
op('Xor3',R,NUM,'a:v b:v c:v','o:v','hn::Xor3(*a,*b,*c)','FOR(i,N) o[i]=a[i]^b[i]^c[i];')
op('Or3',R,NUM,'a:v b:v c:v','o:v','hn::Or3(*a,*b,*c)','FOR(i,N) o[i]=a[i]|b[i]|c[i];')
op('OrAnd',R,NUM,'a:v b:v c:v','o:v','hn::OrAnd(*a,*b,*c)','FOR(i,N) o[i]=a[i]|(b[i]&c[i]);')
op('MaskedOr',R,NUM,'m:m a:v b:v','o:v','hn::MaskedOr(*m,*a,*b)','FOR(i,N) o[i]= m[i]? (U)(a[i]|b[i]):zu;')
op('MaskedSetOr',R,ALL,'a:v m:m t:t','o:v','hn::MaskedSetOr(*a,*m,*t)','FOR(i,N) o[i]= m[i]? t[0]:a[i];')
op('MaskedSet',R,ALL,'m:m t:t','o:v','hn::MaskedSet(d,*m,*t)','FOR(i,N) o[i]= m[i]? t[0]:zu;')
op('CopySign',R,FLT,'a:v b:v','o:v','hn::CopySign(*a,*b)','FOR(i,N) o[i]=(a[i]&(U)((U)~zu>>1))|(b[i]&(U)((U)1<<($W-1)));')
op('BroadcastSignBit',R,SGN,'a:v','o:v','hn::BroadcastSignBit(*a)','FOR(i,N) o[i]=(a[i]>>($W-1))&1? (U)~zu:zu;')
op('ZeroIfNegative',R,SGN+FLT,'a:v','o:v','hn::ZeroIfNegative(*a)','FOR(i,N) o[i]=(a[i]>>($W-1))&1? zu:a[i];')
op('IfNegativeThenElse',R,SGN+FLT,'a:v b:v c:v','o:v','hn::IfNegativeThenElse(*a,*b,*c)','FOR(i,N) o[i]=(a[i]>>($W-1))&1? b[i]:c[i];')
op('IfNegativeThenElseZero',R,SGN+FLT,'a:v b:v','o:v','hn::IfNegativeThenElseZero(*a,*b)','FOR(i,N) o[i]=(a[i]>>($W-1))&1? b[i]:zu;')
op('IfNegativeThenZeroElse',R,SGN+FLT,'a:v b:v','o:v','hn::IfNegativeThenZeroElse(*a,*b)','FOR(i,N) o[i]=(a[i]>>($W-1))&1? zu:b[i];')
op('IfNegativeThenNegOrUndefIfZero',R,SGN,'a:v b:v','o:v','hn::IfNegativeThenNegOrUndefIfZero(*a,*b)','FOR(i,N) o[i]=(a[i]>>($W-1))&1? (U)(0-b[i]):b[i];',care=('o','FOR(i,N) care[i]= a[i]!=0;'))
op('Add',R,INT,'a:v b:v','o:v','hn::Add(*a,*b)','FOR(i,N) o[i]=(U)(a[i]+b[i]);')
op('Sub',R,INT,'a:v b:v','o:v','hn::Sub(*a,*b)','FOR(i,N) o[i]=(U)(a[i]-b[i]);')
op('AddSub',R,INT,'a:v b:v','o:v','hn::AddSub(*a,*b)','FOR(i,N) o[i]= i&1? (U)(a[i]+b[i]):(U)(a[i]-b[i]);')
op('Neg',R,SGN,'a:v','o:v','hn::Neg(*a)','FOR(i,N) o[i]=(U)(0-a[i]);')
op('NegF',R,FLT,'a:v','o:v','hn::Neg(*a)','FOR(i,N) o[i]=a[i]^(U)((U)1<<($W-1));')
op('Abs',R,SGN,'a:v','o:v','hn::Abs(*a)','FOR(i,N) o[i]=(a[i]>>($W-1))&1? (U)(0-a[i]):a[i];')
op('AbsF',R,FLT,'a:v','o:v','hn::Abs(*a)','FOR(i,N) o[i]=a[i]&(U)((U)~zu>>1);')
SI=dict(raw=False)
op('SaturatedNeg',R,SGN,'a:v','o:v','hn::SaturatedNeg(*a)','FOR(i,N) o[i]= a[i]==(U)((U)1<<($W-1))? (U)((U)~zu>>1):(U)(0-a[i]);')
op('SaturatedAbs',R,SGN,'a:v','o:v','hn::SaturatedAbs(*a)','FOR(i,N) o[i]= a[i]==(U)((U)1<<($W-1))? (U)((U)~zu>>1): (a[i]>>($W-1))? (U)(0-a[i]):a[i];')
op('SaturatedAdd',R,INT,'a:v b:v','o:v','hn::SaturatedAdd(*a,*b)','FOR(i,N) o[i]=SatAdd<T>(a[i],b[i]);',raw=False)
op('SaturatedSub',R,INT,'a:v b:v','o:v','hn::SaturatedSub(*a,*b)','FOR(i,N) o[i]=SatSub<T>(a[i],b[i]);',raw=False)
op('AverageRound',R,INT,'a:v b:v','o:v','hn::AverageRound(*a,*b)','FOR(i,N) o[i]=(T)(((WT<T>)a[i]+(WT<T>)b[i]+1)>>1);',raw=False)
op('AbsDiff',R,INT,'a:v b:v','o:v','hn::AbsDiff(*a,*b)','FOR(i,N) o[i]= a[i]>b[i]? (T)((U)a[i]-(U)b[i]):(T)((U)b[i]-(U)a[i]);',raw=False)
op('Min',R,INT,'a:v b:v','o:v','hn::Min(*a,*b)','FOR(i,N) o[i]= a[i]<b[i]? a[i]:b[i];',raw=False)
op('Max',R,INT,'a:v b:v','o:v','hn::Max(*a,*b)','FOR(i,N) o[i]= a[i]<b[i]? b[i]:a[i];',raw=False)
op('Clamp',R,INT,'a:v b:v c:v','o:v','hn::Clamp(*a,*b,*c)','FOR(i,N) { T mx= a[i]<b[i]? b[i]:a[i]; o[i]= mx<c[i]? mx:c[i]; }',raw=False,care=('o','FOR(i,N) care[i]= b[i]<=c[i];'))
op('Mul',R,INT,'a:v b:v','o:v','hn::Mul(*a,*b)','FOR(i,N) o[i]=(U)((unsigned long long)a[i]*b[i]);')
op('MulHigh',R,['u8','i8','u16','i16','u32','i32'],'a:v b:v','o:v','hn::MulHigh(*a,*b)','FOR(i,N) o[i]=(T)(((WT<T>)a[i]*(WT<T>)b[i])>>$W);',raw=False)
op('MulFixedPoint15',R,['i16'],'a:v b:v','o:v','hn::MulFixedPoint15(*a,*b)','FOR(i,N) o[i]=(T)(((int32_t)a[i]*(int32_t)b[i]+16384)>>15);',raw=False)
op('MulEven',R,I32,'a:v b:v','o:v@W','hn::MulEven(*a,*b)','FOR(i,N/2) o[i]=(WT<T>)((WT<T>)a[2*i]*(WT<T>)b[2*i]);',raw=False,minl=2,sc=False)
op('MulOdd',R,I32,'a:v b:v','o:v@W','hn::MulOdd(*a,*b)','FOR(i,N/2) o[i]=(WT<T>)((WT<T>)a[2*i+1]*(WT<T>)b[2*i+1]);',raw=False,minl=2,sc=False)
op('MulAdd',R,INT,'a:v b:v c:v','o:v','hn::MulAdd(*a,*b,*c)','FOR(i,N) o[i]=(U)((U)((unsigned long long)a[i]*b[i])+c[i]);')
op('NegMulAdd',R,INT,'a:v b:v c:v','o:v','hn::NegMulAdd(*a,*b,*c)','FOR(i,N) o[i]=(U)(c[i]-(U)((unsigned long long)a[i]*b[i]));')
shl=lambda t,n: rng(sz(t)*8)
op('ShiftLeft',R,INT,'a:v','o:v','hn::ShiftLeft<$I>(*a)','FOR(i,N) o[i]=(U)(a[i]<<$I);',imms=shl)
op('ShiftRight',R,INT,'a:v','o:v','hn::ShiftRight<$I>(*a)','FOR(i,N) o[i]=(T)(a[i]>>$I);',imms=shl,raw=False)
op('RoundingShiftRight',R,INT,'a:v','o:v','hn::RoundingShiftRight<$I>(*a)','FOR(i,N) o[i]=(T)((a[i]>>$I) + ($I? ((a[i]>>($I?$I-1:0))&1):0));',imms=shl,raw=False)
op('RotateLeft',R,INT,'a:v','o:v','hn::RotateLeft<$I>(*a)','FOR(i,N) o[i]=(U)((a[i]<<$I)|($I? a[i]>>(($W-$I)%$W):0));',imms=shl)
op('RotateRight',R,INT,'a:v','o:v','hn::RotateRight<$I>(*a)','FOR(i,N) o[i]=(U)((a[i]>>$I)|($I? a[i]<<(($W-$I)%$W):0));',imms=shl)
op('ShiftLeftSame',R,INT,'a:v k:s=LGW','o:v','hn::ShiftLeftSame(*a,(int)k)','FOR(i,N) o[i]=(U)(a[i]<<k);')
op('ShiftRightSame',R,INT,'a:v k:s=LGW','o:v','hn::ShiftRightSame(*a,(int)k)','FOR(i,N) o[i]=(T)(a[i]>>k);',raw=False)
op('RotateLeftSame',R,INT,'a:v k:s=LGW','o:v','hn::RotateLeftSame(*a,(int)k)','FOR(i,N) o[i]=(U)((a[i]<<k)|(a[i]>>(($W-k)%$W)));')
op('RotateRightSame',R,INT,'a:v k:s=LGW','o:v','hn::RotateRightSame(*a,(int)k)','FOR(i,N) o[i]=(U)((a[i]>>k)|(a[i]<<(($W-k)%$W)));')
op('Shl',R,INT,'a:v b:v=LGW','o:v','hn::Shl(*a,*b)','FOR(i,N) o[i]=(U)(a[i]<<b[i]);')
op('Shr',R,INT,'a:v b:v=LGW','o:v','hn::Shr(*a,*b)','FOR(i,N) o[i]=(T)(a[i]>>b[i]);',raw=False)
op('Rol',R,INT,'a:v b:v=LGW','o:v','hn::Rol(*a,*b)','FOR(i,N) o[i]=(U)((a[i]<<b[i])|(a[i]>>(($W-b[i])%$W)));')
op('Ror',R,INT,'a:v b:v=LGW','o:v','hn::Ror(*a,*b)','FOR(i,N) o[i]=(U)((a[i]>>b[i])|(a[i]<<(($W-b[i])%$W)));')
op('PopulationCount',R,UNS,'a:v','o:v','hn::PopulationCount(*a)','FOR(i,N) o[i]=(U)__builtin_popcountll(a[i]);')
op('LeadingZeroCount',R,INT,'a:v','o:v','hn::LeadingZeroCount(*a)','FOR(i,N) o[i]=a[i]? (U)(__builtin_clzll(a[i])-(64-$W)):(U)$W;')
op('TrailingZeroCount',R,INT,'a:v','o:v','hn::TrailingZeroCount(*a)','FOR(i,N) o[i]=a[i]? (U)__builtin_ctzll(a[i]):(U)$W;')
op('HighestSetBitIndex',R,INT,'a:v','o:v','hn::HighestSetBitIndex(*a)','FOR(i,N) o[i]=(U)(63-__builtin_clzll(a[i]));',care=('o','FOR(i,N) care[i]= a[i]!=0;'))
for nm,o in(('Eq','=='),('Ne','!='),('Lt','<'),('Gt','>'),('Le','<='),('Ge','>=')):
    op(nm,R,NUM,'a:v b:v','o:m',f'hn::{nm}(*a,*b)',f'FOR(i,N) o[i]= a[i]{o}b[i];',raw=False)
    op('Masked'+nm,R,NUM,'m:m a:v b:v','o:m',f'hn::Masked{nm}(*m,*a,*b)',f'FOR(i,N) o[i]= m[i] && a[i]{o}b[i];',raw=False)
op('TestBit',R,INT,'a:v','o:m','hn::TestBit(*a,hn::Set(d,(hn::TFromD<D_D>)(1ull<<$I)))','FOR(i,N) o[i]=(a[i]>>$I)&1;',imms=shl)
op('MaskedAddOr',R,INT,'n:v m:m a:v b:v','o:v','hn::MaskedAddOr(*n,*m,*a,*b)','FOR(i,N) o[i]= m[i]? (U)(a[i]+b[i]):n[i];')
op('MaskedSubOr',R,INT,'n:v m:m a:v b:v','o:v','hn::MaskedSubOr(*n,*m,*a,*b)','FOR(i,N) o[i]= m[i]? (U)(a[i]-b[i]):n[i];')
op('MaskedMulOr',R,['u16','i16','u32','i32','u64','i64'],'n:v m:m a:v b:v','o:v','hn::MaskedMulOr(*n,*m,*a,*b)','FOR(i,N) o[i]= m[i]? (U)((unsigned long long)a[i]*b[i]):n[i];')
op('MaskedMinOr',R,INT,'n:v m:m a:v b:v','o:v','hn::MaskedMinOr(*n,*m,*a,*b)','FOR(i,N) o[i]= m[i]? (a[i]<b[i]? a[i]:b[i]):n[i];',raw=False)
op('MaskedMaxOr',R,INT,'n:v m:m a:v b:v','o:v','hn::MaskedMaxOr(*n,*m,*a,*b)','FOR(i,N) o[i]= m[i]? (a[i]<b[i]? b[i]:a[i]):n[i];',raw=False)
op('MaskedSatAddOr',R,['u8','i8','u16','i16'],'n:v m:m a:v b:v','o:v','hn::MaskedSatAddOr(*n,*m,*a,*b)','FOR(i,N) o[i]= m[i]? SatAdd<T>(a[i],b[i]):n[i];',raw=False)
op('MaskedSatSubOr',R,['u8','i8','u16','i16'],'n:v m:m a:v b:v','o:v','hn::MaskedSatSubOr(*n,*m,*a,*b)','FOR(i,N) o[i]= m[i]? SatSub<T>(a[i],b[i]):n[i];',raw=False)
op('MaskedAdd',R,INT,'m:m a:v b:v','o:v','hn::MaskedAdd(*m,*a,*b)','FOR(i,N) o[i]= m[i]? (U)(a[i]+b[i]):zu;')
op('MaskedSub',R,INT,'m:m a:v b:v','o:v','hn::MaskedSub(*m,*a,*b)','FOR(i,N) o[i]= m[i]? (U)(a[i]-b[i]):zu;')
op('MaskedMax',R,INT,'m:m a:v b:v','o:v','hn::MaskedMax(*m,*a,*b)','FOR(i,N) o[i]= m[i]? (a[i]<b[i]? b[i]:a[i]):(T)0;',raw=False)
op('MaskedMul',R,['u16','i16','u32','i32','u64','i64'],'m:m a:v b:v','o:v','hn::MaskedMul(*m,*a,*b)','FOR(i,N) o[i]= m[i]? (U)((unsigned long long)a[i]*b[i]):zu;')
op('MaskedSaturatedAdd',R,['u8','i8','u16','i16'],'m:m a:v b:v','o:v','hn::MaskedSaturatedAdd(*m,*a,*b)','FOR(i,N) o[i]= m[i]? SatAdd<T>(a[i],b[i]):(T)0;',raw=False)
op('MaskedSaturatedSub',R,['u8','i8','u16','i16'],'m:m a:v b:v','o:v','hn::MaskedSaturatedSub(*m,*a,*b)','FOR(i,N) o[i]= m[i]? SatSub<T>(a[i],b[i]):(T)0;',raw=False)
op('MaskedShiftLeft',R,INT,'m:m a:v','o:v','hn::MaskedShiftLeft<$I>(*m,*a)','FOR(i,N) o[i]= m[i]? (U)(a[i]<<$I):zu;',imms=lambda t,n:[0,1,sz(t)*8-1])
op('MaskedShiftRight',R,INT,'m:m a:v','o:v','hn::MaskedShiftRight<$I>(*m,*a)','FOR(i,N) o[i]= m[i]? (T)(a[i]>>$I):(T)0;',imms=lambda t,n:[0,1,sz(t)*8-1],raw=False)
op('MaskedShiftRightOr',R,INT,'n:v m:m a:v','o:v','hn::MaskedShiftRightOr<$I>(*n,*m,*a)','FOR(i,N) o[i]= m[i]? (T)(a[i]>>$I):n[i];',imms=lambda t,n:[0,1,sz(t)*8-1],raw=False)
op('MaskedAbsOr',R,SGN,'n:v m:m a:v','o:v','hn::MaskedAbsOr(*n,*m,*a)','FOR(i,N) o[i]= m[i]? ((a[i]>>($W-1))&1? (U)(0-a[i]):a[i]):n[i];')
op('MaskedAbs',R,SGN,'m:m a:v','o:v','hn::MaskedAbs(*m,*a)','FOR(i,N) o[i]= m[i]? ((a[i]>>($W-1))&1? (U)(0-a[i]):a[i]):zu;')
# float element-wise (value identity up to operator; independence of lanes)
for nm,e in(('Add','a[i]+b[i]'),('Sub','a[i]-b[i]'),('Mul','a[i]*b[i]'),('Div','a[i]/b[i]')):
    op('F'+nm,'O05',FLT,'a:v b:v','o:v',f'hn::{nm}(*a,*b)',f'FOR(i,N) o[i]={e};',raw=False)
    op('MaskedF'+nm+'Or','O05',FLT,'n:v m:m a:v b:v','o:v',f'hn::Masked{nm}Or(*n,*m,*a,*b)',f'FOR(i,N) o[i]= m[i]? {e}:n[i];',raw=False)
op('FMulAdd','O05',FLT,'a:v b:v c:v','o:v','hn::MulAdd(*a,*b,*c)','FOR(i,N) o[i]=__builtin_elementwise_fma(a[i],b[i],c[i]);',raw=False)
op('FSqrt','O05',FLT,'a:v','o:v','hn::Sqrt(*a)','FOR(i,N) o[i]=__builtin_elementwise_sqrt(a[i]);',raw=False)
for nm,b in(('Round','rint'),('Trunc','trunc'),('Ceil','ceil'),('Floor','floor')):
    op('F'+nm,'O05',FLT,'a:v','o:v',f'hn::{nm}(*a)',f'FOR(i,N) o[i]=__builtin_elementwise_{b}(a[i]);',raw=False)
op('FMin','O05',FLT,'a:v b:v','o:v','hn::Min(*a,*b)','FOR(i,N) o[i]=a[i]<b[i]?a[i]:b[i];',raw=False,care=('o','FOR(i,N) { U x=B(a[i]), y=B(b[i]); care[i]= (U)(x<<1)<=(U)(sizeof(T)==4?0xFF000000ull:0xFFE0000000000000ull) && (U)(y<<1)<=(U)(sizeof(T)==4?0xFF000000ull:0xFFE0000000000000ull) && a[i]!=b[i]; }'))
op('FMax','O05',FLT,'a:v b:v','o:v','hn::Max(*a,*b)','FOR(i,N) o[i]=a[i]>b[i]?a[i]:b[i];',raw=False,care=('o','FOR(i,N) { U x=B(a[i]), y=B(b[i]); care[i]= (U)(x<<1)<=(U)(sizeof(T)==4?0xFF000000ull:0xFFE0000000000000ull) && (U)(y<<1)<=(U)(sizeof(T)==4?0xFF000000ull:0xFFE0000000000000ull) && a[i]!=b[i]; }'))
op('IsNaN','O05 O07',FLT,'a:v','o:m','hn::IsNaN(*a)','FOR(i,N) o[i]=(U)(a[i]<<1)>(U)(sizeof(T)==4?0xFF000000ull:0xFFE0000000000000ull);')
op('IsInf','O05 O07',FLT,'a:v','o:m','hn::IsInf(*a)','FOR(i,N) o[i]=(U)(a[i]<<1)==(U)(sizeof(T)==4?0xFF000000ull:0xFFE0000000000000ull);')
op('IsFinite','O05 O07',FLT,'a:v','o:m','hn::IsFinite(*a)','FOR(i,N) o[i]=(U)(a[i]<<1)<(U)(sizeof(T)==4?0xFF000000ull:0xFFE0000000000000ull);')
op('ConvertToF','O05',['i32','u32','i64','u64'],'a:v','o:v@F','hn::ConvertTo(d_F,*a)','using F=typename FOf<sizeof(T)>::t; FOR(i,N) o[i]=(decltype(o[0]+0))a[i];',raw=False)
op('Pairwise128','O05',['u64'],'a:v b:v','o:v','hn::Min128(d,*a,*b)','FOR(i,N/2) { bool lt= a[2*i+1]!=b[2*i+1]? a[2*i+1]<b[2*i+1]:a[2*i]<b[2*i]; o[2*i]= lt?a[2*i]:b[2*i]; o[2*i+1]= lt?a[2*i+1]:b[2*i+1]; }',minl=2,sc=False)
op('Max128','O05',['u64'],'a:v b:v','o:v','hn::Max128(d,*a,*b)','FOR(i,N/2) { bool lt= a[2*i+1]!=b[2*i+1]? a[2*i+1]<b[2*i+1]:a[2*i]<b[2*i]; o[2*i]= lt?b[2*i]:a[2*i]; o[2*i+1]= lt?b[2*i+1]:a[2*i+1]; }',minl=2,sc=False)
op('Min128Upper','O05',['u64'],'a:v b:v','o:v','hn::Min128Upper(d,*a,*b)','FOR(i,N/2) { bool lt= a[2*i+1]<b[2*i+1]; o[2*i]= lt?a[2*i]:b[2*i]; o[2*i+1]= lt?a[2*i+1]:b[2*i+1]; }',minl=2,sc=False)
op('Max128Upper','O05',['u64'],'a:v b:v','o:v','hn::Max128Upper(d,*a,*b)','FOR(i,N/2) { bool lt= b[2*i+1]<a[2*i+1]; o[2*i]= lt?a[2*i]:b[2*i]; o[2*i+1]= lt?a[2*i+1]:b[2*i+1]; }',minl=2,sc=False)
for nm,e in(('Lt128','a[2*k+1]!=b[2*k+1]? a[2*k+1]<b[2*k+1]:a[2*k]<b[2*k]'),('Lt128Upper','a[2*k+1]<b[2*k+1]'),('Eq128','a[2*k+1]==b[2*k+1]&&a[2*k]==b[2*k]'),('Ne128','a[2*k+1]!=b[2*k+1]||a[2*k]!=b[2*k]'),('Eq128Upper','a[2*k+1]==b[2*k+1]'),('Ne128Upper','a[2*k+1]!=b[2*k+1]')):
    op(nm,'O05 O06',['u64'],'a:v b:v','o:m',f'hn::{nm}(d,*a,*b)',f'FOR(k,N/2) {{ bool r={e}; o[2*k]=r; o[2*k+1]=r; }}',minl=2,sc=False)
op('AllBits0','O07',INT,'a:v','o:t@u8','*o=(uint8_t)hn::AllBits0(d,*a);','U r=0; FOR(i,N) r|=a[i]; o[0]= r==0;')
op('AllBits1','O07',INT,'a:v','o:t@u8','*o=(uint8_t)hn::AllBits1(d,*a);','U r=~zu; FOR(i,N) r&=a[i]; o[0]= r==(U)~zu;')
# ---------------------------------------------------------------- O08 conversions
C='O08 O05'
prom=lambda t:[(x,'same') for x in INT if sz(x)>sz(t) and (kind(t)=='u' or kind(x)=='i')]
op('PromoteTo',C,['u8','i8','u16','i16','u32','i32'],'a:v','o:v@X','hn::PromoteTo(d_X,*a)','FOR(i,N) o[i]=(decltype(o[0]+0))a[i];',types2=prom,raw=False)
prom2=lambda t:[(x,lambda n: n//2) for x in INT if sz(x)==2*sz(t) and (kind(t)=='u' or kind(x)=='i')]
for nm,ix in(('Lower','i'),('Upper','N/2+i'),('Even','2*i'),('Odd','2*i+1')):
    op(f'Promote{nm}To',C,['u8','i8','u16','i16','u32','i32'],'a:v','o:v@X',f'hn::Promote{nm}To(d_X,*a)',f'FOR(i,N/2) o[i]=(decltype(o[0]+0))a[{ix}];',types2=prom2,raw=False,minl=2,sc=False)
op('TruncateTo',C,['u16','u32','u64'],'a:v','o:v@X','hn::TruncateTo(d_X,*a)','FOR(i,N) o[i]=(decltype(o[0]+0))a[i];',types2=lambda t:[(x,'same') for x in UNS if sz(x)<sz(t)])
op('OrderedTruncate2To',C,['u16','u32','u64'],'a:v b:v','o:v@N2','hn::OrderedTruncate2To(d_N2,*a,*b)','FOR(i,2*N) o[i]=(decltype(o[0]+0))(i<N? a[i]:b[i-N]);',sc=False)
SAT='const T lim_hi=(T)LimHi<QQ>(), lim_lo=(T)LimLo<QQ,T>();'
dem=lambda t:[(x,'same') for x in INT if sz(x)<sz(t)]
op('DemoteTo',C,['u16','i16','u32','i32','u64','i64'],'a:v','o:v@X','hn::DemoteTo(d_X,*a)','using Q=RMC<decltype(o[0])>; FOR(i,N) o[i]=SatTo<Q>(a[i]);',types2=lambda t:[(x,'same') for x in INT if sz(x)<sz(t) and not (kind(t)=='u' and kind(x)=='i')] ,raw=False)
op('DemoteToUI',C,['u16','u32','u64'],'a:v','o:v@X','hn::DemoteTo(d_X,*a)','using Q=RMC<decltype(o[0])>; FOR(i,N) o[i]=SatTo<Q>(a[i]);',types2=lambda t:[(x,'same') for x in SGN if sz(x)<sz(t)],raw=False)
op('OrderedDemote2To',C,['u16','i16','u32','i32','u64','i64'],'a:v b:v','o:v@X','hn::OrderedDemote2To(d_X,*a,*b)','using Q=RMC<decltype(o[0])>; FOR(i,2*N) o[i]=SatTo<Q>(i<N?a[i]:b[i-N]);',types2=lambda t:[(x,lambda n:2*n) for x in INT if 2*sz(x)==sz(t)],raw=False,sc=False)
op('U8FromU32',C,['u32'],'a:v','o:v@X','hn::U8FromU32(*a)','FOR(i,N) o[i]=(uint8_t)a[i];',types2=lambda t:[('u8','same')],care=('o','FOR(i,N) care[i]= a[i]<256;'))
op('BitCast',C,ALL,'a:v','o:v@X','hn::BitCast(d_X,*a)','__builtin_memcpy(o,a,N*sizeof(T));',types2=lambda t:[(x,(lambda s:(lambda n:(n*sz(t))//s))(sz(x))) for x in ALL if x!=t])
op('ResizeBitCast',C,INT,'a:v','o:v@X','hn::ResizeBitCast(d_X,*a)','__builtin_memcpy(o,a,N*sizeof(T)<sizeof(o[0])*NX?N*sizeof(T):sizeof(o[0])*NX);',types2=lambda t:[(x,f) for x in('u8','u32','u64') for f in(lambda n,x=x:n*sz(t)//sz(x)//2,lambda n,x=x:n*sz(t)//sz(x))],sc=False,cond=lambda tg,t,n,i:True)
op('ZeroExtendResizeBitCast',C,INT,'a:v','o:v@X','hn::ZeroExtendResizeBitCast(d_X,d,*a)','constexpr int NB=N*sizeof(T); uint8_t* q=(uint8_t*)o; const uint8_t* p=(const uint8_t*)a; FOR(i,(int)sizeof(o[0])*NX) q[i]= i<NB? p[i]:0;',types2=lambda t:[(x,(lambda x,m:(lambda n:n*sz(t)*m//sz(x)))(x,m)) for x in('u8','u32','u64') for m in(1,2,4)],sc=False)

SLD={'SlideDownLanes','SlideUpLanes','Slide1Down','Slide1Up','InterleaveEven','InterleaveOdd','OddEven'}
AVX3F=('AVX3','AVX3_DL','AVX3_ZEN4','AVX3_SPR')
import re as _r
HEAVY=_r.compile(r'Compress|Expand|Dyn|LeadingZero|HighestSet|^Ro[lr]$|^Sh[lr]$|ConvertToF|Tables|TableL|SetTable|^SafeFill|^SafeCopy|GatherIndexN|ScatterIndexN')
SLOWCOMP=_r.compile(r'Compress|Expand|Scatter|Gather|StoreMaskBits|BlendedStore')
def keep(tg,w,tier,prop):
    """combinations the library does not provide on a target, and thinning of the quick tier"""
    p=w[0].split('/'); nm=p[0]; t,n=p[1].split('x')[:2]; n=int(n); b=sz(t)*n
    if t in('f16','bf16') and not (tg=='AVX3_SPR' and t=='f16'):
        if tg in('AVX2',)+AVX3F and b>=32 and nm in SLD: return False
        if tg in AVX3F and nm in('MaskFromVec','VecFromMask'): return False
    if tier!='quick': return True
    # AVX3_ZEN4 differs from AVX3_DL only in its store/compress strategy; AVX3_DL is a subset of AVX3_SPR
    if tg=='AVX3_ZEN4': return bool(SLOWCOMP.search(nm)) and t in('u8','u16','u32','u64','f32','f64') and b<=32
    if tg=='AVX3_DL': return False
    if prop in('O05','O06','O07') and b<8 and tg!='SCALAR': return False
    if prop=='O04' and (t in('i8','i64') or (tg=='SSSE3' and t in('i16','i32'))): return False
    if HEAVY.search(nm):
        if b>=64 and sz(t)==1: return False
        if t in('i8','i16','i64') and tg!='SCALAR': return False
    return True
