# supplementary probes: name, lane types, result type, expression, minimum lanes, extra
F=['f32','f64']; I=['u8','i8','u16','i16','u32','i32','u64','i64']; N=I+F
def W(k): return {1:'hn::RepartitionToWide<D>',2:'hn::RepartitionToWideX2<D>',3:'hn::RepartitionToWideX3<D>'}[k]
V='V'
MORE=[]
def P(name,types,ret,expr,minl=1,sc=True,minb=0,maxb=64): MORE.append((name,types,ret,expr,minl,sc,minb,maxb))
for nm in('PairwiseAdd','PairwiseSub'): P(nm,N,V,f'hn::{nm}(d,a,b)',2,False)
for nm in('PairwiseAdd128','PairwiseSub128'): P(nm,N,V,f'hn::{nm}(d,a,b)',2,False,16)
P('SumsOf2',I[:6]+['f32'],f'hn::Vec<{W(1)}>','hn::SumsOf2(a)',2,False)
P('SumsOf4',I[:4],f'hn::Vec<{W(2)}>','hn::SumsOf4(a)',4,False)
P('SumsOf8',I[:2],f'hn::Vec<{W(3)}>','hn::SumsOf8(a)',8,False)
P('SumsOf8AbsDiff',I[:2],f'hn::Vec<{W(3)}>','hn::SumsOf8AbsDiff(a,b)',8,False)
for k in('0,0','1,3','0,2'): P('SumsOfAdjQuadAbsDiff/'+k,I[:2],f'hn::Vec<{W(1)}>',f'hn::SumsOfAdjQuadAbsDiff<{k}>(a,b)',4 if k=='0,0' else 16,False)
for k in('3,2,1,0','0,0,3,3'): P('SumsOfShuffledQuadAbsDiff/'+k,I[:2],f'hn::Vec<{W(1)}>',f'hn::SumsOfShuffledQuadAbsDiff<{k}>(a,b)',16,False)
for nm in('ApproximateReciprocalSqrt','ApproximateReciprocal','GetExponent','Sqrt','Round','Trunc','Ceil','Floor','Neg','Abs'): P(nm,F,V,f'hn::{nm}(a)')
P('GetBiasedExponent',F,'hn::Vec<hn::RebindToUnsigned<D>>','hn::GetBiasedExponent(a)')
for nm in('Add','Sub','Mul','Div','Min','Max','MinMagnitude','MaxMagnitude','MulByFloorPow2','MulRound','CopySign','CopySignToAbs','AbsDiff'): P(nm,F,V,f'hn::{nm}(a,b)')
for nm in('MinMagnitude','MaxMagnitude','Min','Max','Add','Sub','Mul','Div','Mod','AbsDiff','RoundingShr'): P(nm,I,V,f'hn::{nm}(a,b)')
P('MulByPow2',F,V,'hn::MulByPow2(a,hn::Zero(hn::RebindToSigned<D>()))')
for t in(['bf16','u16','i16'],): P('WidenMulPairwiseAdd',t,f'hn::Vec<{W(1)}>',f'hn::WidenMulPairwiseAdd({W(1)}(),a,b)',2,False); P('MaskedWidenMulPairwiseAdd',t,f'hn::Vec<{W(1)}>',f'hn::MaskedWidenMulPairwiseAdd({W(1)}(),hn::MaskFalse({W(1)}()),a,b)',2,False)
P('SatWidenMulPairwiseAdd',['i8'],f'hn::Vec<{W(1)}>',f'hn::SatWidenMulPairwiseAdd({W(1)}(),hn::BitCast(hn::RebindToUnsigned<D>(),a),b)',2,False)
P('SatWidenMulPairwiseAccumulate',['i16'],f'hn::Vec<{W(1)}>',f'hn::SatWidenMulPairwiseAccumulate({W(1)}(),a,b,hn::Zero({W(1)}()))',2,False)
P('SatWidenMulAccumFixedPoint',['i16'],'hn::Vec<hn::Rebind<int32_t,D>>','hn::SatWidenMulAccumFixedPoint(hn::Rebind<int32_t,D>(),a,b,hn::Zero(hn::Rebind<int32_t,D>()))',1,True,0,32)
P('ReorderWidenMulAccumulate',['bf16','u16','i16'],f'hn::Vec<{W(1)}>',f'[&]{{ auto s1=hn::Zero({W(1)}()); return hn::ReorderWidenMulAccumulate({W(1)}(),a,b,hn::Zero({W(1)}()),s1); }}()',2,False)
P('RearrangeToOddPlusEven',['f32','u32','i32'],V,'hn::RearrangeToOddPlusEven(a,b)')
P('SumOfMulQuadAccumulate',['u8','i8','u16','i16'],f'hn::Vec<{W(2)}>',f'hn::SumOfMulQuadAccumulate({W(2)}(),a,b,hn::Zero({W(2)}()))',4,False)
for nm in('MulAdd','NegMulAdd','MulAddSub'): P(nm,N,V,f'hn::{nm}(a,b,c)')
for nm in('MulSub','NegMulSub','MulSubAdd'): P(nm,F+['i8','i16','i32','i64'],V,f'hn::{nm}(a,b,c)')
for nm in('MulEvenAdd','MulOddAdd'): P(nm,['bf16'],f'hn::Vec<{W(1)}>',f'hn::{nm}({W(1)}(),a,b,hn::Zero({W(1)}()))',2,False)
for nm in('MulEven','MulOdd'): P(nm,I[:6],f'hn::Vec<{W(1)}>',f'hn::{nm}(a,b)',2,False); P(nm,['u64','i64'],V,f'hn::{nm}(a,b)',2,False)
P('MulHigh',I,V,'hn::MulHigh(a,b)'); P('MulFixedPoint15',['i16'],V,'hn::MulFixedPoint15(a,b)')
for nm in('Sqrt','ApproximateReciprocalSqrt','ApproximateReciprocal'): P('Masked'+nm,F,V,f'hn::Masked{nm}(m,a)')
P('MaskedSqrtOr',F,V,'hn::MaskedSqrtOr(a,m,b)'); P('MaskedModOr',I,V,'hn::MaskedModOr(a,m,b,c)')
for nm in('Add','Sub','Mul','Div','Min','Max'): P(f'Masked{nm}Or',N,V,f'hn::Masked{nm}Or(a,m,b,c)')
for nm in('Add','Sub','Mul','Div'): P(f'Masked{nm}',N,V,f'hn::Masked{nm}(m,b,c)')
P('MaskedMulAddOr',N,V,'hn::MaskedMulAddOr(a,m,b,c,a)'); P('MaskedMulFixedPoint15',['i16'],V,'hn::MaskedMulFixedPoint15(m,a,b)')
for nm in('MulAdd','NegMulAdd'): P('Masked'+nm,N,V,f'hn::Masked{nm}(m,a,b,c)')
P('ComplexConj',F,V,'hn::ComplexConj(a)',2,False)
for nm in('MulComplex','MulComplexConj'): P(nm,F,V,f'hn::{nm}(a,b)',2,False)
for nm in('MulComplexAdd','MulComplexConjAdd'): P(nm,F,V,f'hn::{nm}(a,b,c)',2,False)
P('MaskedMulComplexConjAdd',F,V,'hn::MaskedMulComplexConjAdd(m,a,b,c)',2,False); P('MaskedMulComplexConj',F,V,'hn::MaskedMulComplexConj(m,a,b)',2,False); P('MaskedMulComplexOr',F,V,'hn::MaskedMulComplexOr(a,m,b,c)',2,False)
P('RoundingShiftRightSame',I,V,'hn::RoundingShiftRightSame(a,3)'); P('MaskedShrOr',I,V,'hn::MaskedShrOr(a,m,b,c)'); P('MultiRotateRight',['u64','i64'],V,'hn::MultiRotateRight(a,hn::Zero(hn::Repartition<uint8_t,D>()))',1,False)
P('IsEitherNaN',F,'hn::Mask<D>','hn::IsEitherNaN(a,b)'); P('MaskedIsNaN',F,'hn::Mask<D>','hn::MaskedIsNaN(m,a)'); P('MaskedLeadingZeroCount',I,V,'hn::MaskedLeadingZeroCount(m,a)')
for nm in('NearestInt','CeilInt','FloorInt'): P(nm,F,'hn::Vec<hn::RebindToSigned<D>>',f'hn::{nm}(a)')
for x in('RebindToSigned','RebindToUnsigned'): P('ConvertInRangeTo/'+x,F,f'hn::Vec<hn::{x}<D>>',f'hn::ConvertInRangeTo(hn::{x}<D>(),a)'); P('ConvertTo/'+x,F,f'hn::Vec<hn::{x}<D>>',f'hn::ConvertTo(hn::{x}<D>(),a)')
P('ConvertTo/float',I[4:],'hn::Vec<hn::RebindToFloat<D>>','hn::ConvertTo(hn::RebindToFloat<D>(),a)'); P('MaskedConvertTo',I[4:],'hn::Vec<hn::RebindToFloat<D>>','hn::MaskedConvertTo(hn::RebindMask(hn::RebindToFloat<D>(),m),hn::RebindToFloat<D>(),a)')
P('DemoteToNearestInt',['f64'],'hn::Vec<hn::Rebind<int32_t,D>>','hn::DemoteToNearestInt(hn::Rebind<int32_t,D>(),a)')
for x in('int32_t','uint32_t'):
    for nm in('DemoteTo','DemoteInRangeTo'): P(f'{nm}/{x}',['f64'],f'hn::Vec<hn::Rebind<{x},D>>',f'hn::{nm}(hn::Rebind<{x},D>(),a)')
P('DemoteTo/float',['f64','i64','u64'],'hn::Vec<hn::Rebind<float,D>>','hn::DemoteTo(hn::Rebind<float,D>(),a)')
P('DemoteTo/half',['f32'],'hn::Vec<hn::Rebind<hwy::float16_t,D>>','hn::DemoteTo(hn::Rebind<hwy::float16_t,D>(),a)'); P('DemoteTo/bf16',['f32'],'hn::Vec<hn::Rebind<hwy::bfloat16_t,D>>','hn::DemoteTo(hn::Rebind<hwy::bfloat16_t,D>(),a)')
for x in('int64_t','uint64_t'):
    for nm in('PromoteTo','PromoteInRangeTo'): P(f'{nm}/{x}',['f32'],f'hn::Vec<hn::Rebind<{x},D>>',f'hn::{nm}(hn::Rebind<{x},D>(),a)',1,True,0,32)
    for nm in('PromoteInRangeLowerTo','PromoteInRangeUpperTo','PromoteInRangeEvenTo','PromoteInRangeOddTo'): P(f'{nm}/{x}',['f32'],f'hn::Vec<hn::Repartition<{x},D>>',f'hn::{nm}(hn::Repartition<{x},D>(),a)',2,False)
P('PromoteTo/f',['f16','bf16','i32','u32','f32'],'hn::Vec<hn::Rebind<X,D>>','hn::PromoteTo(hn::Rebind<X,D>(),a)',1,True,0,32)
for k in('Lower','Upper','Even','Odd'): P(f'Promote{k}To/f',['f16','bf16','i32','u32','f32'],'hn::Vec<hn::Repartition<X,D>>',f'hn::Promote{k}To(hn::Repartition<X,D>(),a)',2,False)
for t,xs in(('i16',('int8_t','uint8_t')),('i32',('int16_t','uint16_t')),('i64',('int32_t','uint32_t')),('u16',('int8_t','uint8_t')),('u32',('int16_t','uint16_t')),('u64',('int32_t','uint32_t')),('f32',('hwy::bfloat16_t',))):
    for x in xs:
        for nm in('ReorderDemote2To','OrderedDemote2To'): P(f'{nm}/{x}',[t],f'hn::Vec<hn::Repartition<{x},D>>',f'hn::{nm}(hn::Repartition<{x},D>(),a,b)',1,False)
for nm in('SumOfLanes','MinOfLanes','MaxOfLanes'): P(nm,N,V,f'hn::{nm}(d,a)')
for nm in('ReduceSum','ReduceMin','ReduceMax'): P(nm,N,'hn::TFromD<D>',f'hn::{nm}(d,a)'); P('Masked'+nm,N,'hn::TFromD<D>',f'hn::Masked{nm}(d,m,a)')
for nm in('AESRound','AESLastRound','AESRoundInv','AESLastRoundInv'): P(nm,['u8'],V,f'hn::{nm}(a,b)',16,False)
P('AESInvMixColumns',['u8'],V,'hn::AESInvMixColumns(a)',16,False); P('AESKeyGenAssist',['u8'],V,'hn::AESKeyGenAssist<0x1b>(a)',16,False)
for nm in('CLMulLower','CLMulUpper'): P(nm,['u64'],V,f'hn::{nm}(a,b)',2,False)
P('Undefined',I+F+['f16','bf16'],V,'hn::Undefined(d)')
P('Create2',N,'hn::Vec2<D>','hn::Create2(d,a,b)'); P('Create3',N,'hn::Vec3<D>','hn::Create3(d,a,b,c)'); P('Create4',N,'hn::Vec4<D>','hn::Create4(d,a,b,c,a)')
XX={'f16':'float','bf16':'float','i32':'double','u32':'double','f32':'double'}
def more(tg,maxb,sz,T):
    k=0; out=[]
    for nm,types,ret,ex,minl,sc,minb,mb in MORE:
        if tg=='SCALAR' and not sc: continue
        for t in types:
            n=1; full=1 if tg=='SCALAR' else maxb//sz(t)
            while n<=full:
                if n>=minl and n*sz(t)>=minb and (tg=='SCALAR' or n*sz(t)*(2 if mb==32 else 1)<=maxb):
                    x=XX.get(t,'void')
                    e=ex.replace('<X,',f'<{x},'); r=ret.replace('<X,',f'<{x},')
                    out.append((f'{nm.split("/")[0]}+/{t}x{n}/{"/".join(nm.split("/")[1:])}',f'namespace m{k} {{ using D=hn::Simd<{T(t)}, {n}, 0>; using V=hn::Vec<D>; {r} f(D d,V a,V b,V c,hn::Mask<D> m) {{ static_assert(hwy::IsSame<decltype({"V()" if "[&]" in e else e}),{"V" if "[&]" in e else r}>(),"documented result type"); return {e}; }} }}')); k+=1
                n*=2
    return out
