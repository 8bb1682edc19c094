// irdump FILE.bc [--fn REGEX]: prints the module as JSON for the Python analyses.
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/ADT/MapVector.h"
#include <map>
#include <regex>
using namespace llvm;
static std::map<const Value*,int> VID; static std::map<const BasicBlock*,int> BID; static const DataLayout* DL;
static std::string tyS(Type*t){ std::string s; raw_string_ostream o(s); t->print(o,false,true); return o.str(); }
static json::Value opnd(const Value*v,int depth=0);
static json::Value gepv(const GEPOperator*G,int depth){
  unsigned BW=DL->getIndexSizeInBits(G->getPointerAddressSpace()); MapVector<Value*,APInt> VO; APInt C(BW,0); json::Array a;
  if(G->collectOffset(*DL,BW,VO,C)){ a.push_back(opnd(G->getPointerOperand(),depth+1)); a.push_back(C.getSExtValue()); json::Array t; for(auto&p:VO){ json::Array e; e.push_back(opnd(p.first,depth+1)); e.push_back(p.second.getSExtValue()); t.push_back(std::move(e)); } a.push_back(std::move(t)); }
  else { a.push_back(opnd(G->getPointerOperand(),depth+1)); a.push_back(nullptr); json::Array t; for(auto&x:G->indices()) t.push_back(opnd(x,depth+1)); a.push_back(std::move(t)); }
  return a; }
static json::Value opnd(const Value*v,int depth){
  json::Array a;
  if(auto*c=dyn_cast<ConstantInt>(v)){ a.push_back("i"); if(c->getBitWidth()<=64){ a.push_back(c->getSExtValue()); } else { SmallString<64> s; c->getValue().toStringUnsigned(s,16); a.push_back(std::string(s)); } a.push_back(c->getBitWidth()); }
  else if(auto*A=dyn_cast<Argument>(v)){ a.push_back("a"); a.push_back(A->getArgNo()); }
  else if(isa<Instruction>(v)){ a.push_back("v"); a.push_back(VID.count(v)?VID[v]:-1); }
  else if(auto*G=dyn_cast<GlobalAlias>(v)){ a.push_back("g"); a.push_back(G->getAliaseeObject()?G->getAliaseeObject()->getName().str():G->getName().str()); }
  else if(auto*G=dyn_cast<GlobalValue>(v)){ a.push_back("g"); a.push_back(G->getName().str()); }
  else if(auto*B=dyn_cast<BasicBlock>(v)){ a.push_back("b"); a.push_back(BID[B]); }
  else if(isa<ConstantPointerNull>(v)){ a.push_back("n"); }
  else if(isa<PoisonValue>(v)||isa<UndefValue>(v)){ a.push_back("u"); }
  else if(auto*f=dyn_cast<ConstantFP>(v)){ a.push_back("f"); SmallString<32> s; f->getValueAPF().toString(s); a.push_back(std::string(s)); }
  else if(isa<ConstantAggregateZero>(v)){ a.push_back("z"); }
  else if(auto*G=dyn_cast<GEPOperator>(v)){ a.push_back("gep"); a.push_back(gepv(G,depth)); }
  else if(auto*ce=dyn_cast<ConstantExpr>(v)){ a.push_back("ce"); a.push_back(ce->getOpcodeName()); for(auto&o:ce->operands()) a.push_back(opnd(o.get(),depth+1)); }
  else if(auto*d=dyn_cast<ConstantDataSequential>(v)){ a.push_back("cd"); if(d->isString()||(d->getElementByteSize()==1&&d->getNumElements()<4096)) a.push_back(json::fixUTF8(d->getRawDataValues())); else { json::Array e; unsigned n=std::min(d->getNumElements(),1024u); for(unsigned i=0;i<n;i++) if(d->getElementType()->isIntegerTy()) e.push_back((int64_t)d->getElementAsInteger(i)); a.push_back(std::move(e)); } }
  else if(auto*ca=dyn_cast<ConstantAggregate>(v)){ a.push_back("ca"); if(depth<6&&ca->getNumOperands()<2048) for(auto&o:ca->operands()) a.push_back(opnd(o.get(),depth+1)); }
  else if(isa<InlineAsm>(v)){ a.push_back("asm"); a.push_back(cast<InlineAsm>(v)->getAsmString()); }
  else { a.push_back("?"); }
  return a; }
static const char* ord(AtomicOrdering o){ return toIRString(o); }
static json::Value loc(const Instruction&I){ json::Array r; const DILocation*L=I.getDebugLoc().get(); while(L){ json::Array e; e.push_back(json::fixUTF8(L->getFilename())); e.push_back((int64_t)L->getLine()); auto*sp=L->getScope()->getSubprogram(); e.push_back(sp?json::fixUTF8(sp->getLinkageName().empty()?sp->getName():sp->getLinkageName()):std::string()); r.push_back(std::move(e)); L=L->getInlinedAt(); } return r; }
int main(int argc,char**argv){
  LLVMContext C; SMDiagnostic E; auto M=parseIRFile(argv[1],E,C); if(!M){ E.print("irdump",errs()); return 2; }
  std::string re; for(int i=2;i+1<argc;i++) if(std::string(argv[i])=="--fn") re=argv[i+1];
  std::regex R(re); DL=&M->getDataLayout();
  json::Object top; json::Array gs,fs;
  for(auto&G:M->globals()){ json::Object o; o["name"]=G.getName().str(); o["dem"]=json::fixUTF8(demangle(G.getName().str())); o["const"]=G.isConstant(); o["tls"]=G.isThreadLocal(); o["linkage"]=(int)G.getLinkage(); o["local"]=G.hasLocalLinkage(); o["decl"]=G.isDeclaration(); o["ty"]=tyS(G.getValueType()); o["size"]=G.getValueType()->isSized()?(int64_t)DL->getTypeAllocSize(G.getValueType()).getKnownMinValue():0;
    if(G.hasInitializer()){ VID.clear(); o["init"]=opnd(G.getInitializer()); o["zero"]=G.getInitializer()->isNullValue(); }
    SmallVector<DIGlobalVariableExpression*,1> D; G.getDebugInfo(D); if(!D.empty()){ auto*V=D[0]->getVariable(); o["dbg"]=json::Array{json::fixUTF8(V->getFilename()),(int64_t)V->getLine(),json::fixUTF8(V->getName())}; DIType*t=V->getType(); std::string tn; if(t) tn=t->getName().str(); o["dty"]=json::fixUTF8(tn); }
    gs.push_back(std::move(o)); }
  for(auto&F:*M){ json::Object o; o["name"]=F.getName().str(); o["dem"]=json::fixUTF8(demangle(F.getName().str())); o["decl"]=F.isDeclaration(); o["linkage"]=(int)F.getLinkage(); o["local"]=F.hasLocalLinkage(); o["noreturn"]=F.doesNotReturn(); o["ret"]=tyS(F.getReturnType()); o["features"]=F.getFnAttribute("target-features").getValueAsString().str();
    if(auto*sp=F.getSubprogram()){ o["file"]=json::fixUTF8(sp->getFilename()); o["line"]=(int64_t)sp->getLine(); }
    json::Array as; for(auto&A:F.args()){ json::Object x; x["ty"]=tyS(A.getType()); x["name"]=json::fixUTF8(A.getName()); if(A.hasStructRetAttr()) x["sret"]=true; if(A.hasByValAttr()) x["byval"]=true; if(auto n=A.getDereferenceableBytes()) x["deref"]=(int64_t)n; as.push_back(std::move(x)); } o["args"]=std::move(as); o["vararg"]=F.isVarArg();
    if(!F.isDeclaration()&&(re.empty()||std::regex_search(F.getName().str(),R)||std::regex_search(demangle(F.getName().str()),R))){
      VID.clear(); BID.clear(); int n=0,b=0; for(auto&B:F){ BID[&B]=b++; for(auto&I:B) VID[&I]=n++; }
      json::Array bs; for(auto&B:F){ json::Array is; for(auto&I:B){ if(isa<DbgInfoIntrinsic>(I)) continue; json::Object x; x["id"]=VID[&I]; x["op"]=I.getOpcodeName(); x["ty"]=tyS(I.getType());
          if(auto*bo=dyn_cast<OverflowingBinaryOperator>(&I)){ if(bo->hasNoSignedWrap()) x["nsw"]=true; if(bo->hasNoUnsignedWrap()) x["nuw"]=true; }
          if(auto*c=dyn_cast<CmpInst>(&I)) x["pred"]=CmpInst::getPredicateName(c->getPredicate()).str();
          if(auto*l=dyn_cast<LoadInst>(&I)){ x["sz"]=(int64_t)DL->getTypeStoreSize(l->getType()).getKnownMinValue(); x["scal"]=DL->getTypeStoreSize(l->getType()).isScalable(); if(l->isAtomic()) x["ord"]=ord(l->getOrdering()); if(l->isVolatile()) x["vol"]=true; x["al"]=(int64_t)l->getAlign().value(); }
          if(auto*l=dyn_cast<StoreInst>(&I)){ x["sz"]=(int64_t)DL->getTypeStoreSize(l->getValueOperand()->getType()).getKnownMinValue(); x["scal"]=DL->getTypeStoreSize(l->getValueOperand()->getType()).isScalable(); x["vty"]=tyS(l->getValueOperand()->getType()); if(l->isAtomic()) x["ord"]=ord(l->getOrdering()); if(l->isVolatile()) x["vol"]=true; x["al"]=(int64_t)l->getAlign().value(); }
          if(auto*l=dyn_cast<AtomicRMWInst>(&I)){ x["ord"]=ord(l->getOrdering()); x["rmw"]=AtomicRMWInst::getOperationName(l->getOperation()).str(); }
          if(auto*l=dyn_cast<AtomicCmpXchgInst>(&I)){ x["ord"]=ord(l->getSuccessOrdering()); x["ford"]=ord(l->getFailureOrdering()); }
          if(auto*l=dyn_cast<FenceInst>(&I)) x["ord"]=ord(l->getOrdering());
          if(auto*a=dyn_cast<AllocaInst>(&I)){ auto s=a->getAllocationSize(*DL); x["asz"]=s&&!s->isScalable()?(int64_t)s->getFixedValue():-1; x["name"]=json::fixUTF8(a->getName()); x["aty"]=tyS(a->getAllocatedType()); }
          if(auto*c=dyn_cast<CallBase>(&I)){ if(auto*f=c->getCalledFunction()) x["callee"]=f->getName().str(); else x["cop"]=opnd(c->getCalledOperand()); if(c->doesNotReturn()) x["noreturn"]=true; if(c->hasFnAttr(Attribute::NoUnwind)) x["nounwind"]=true; json::Array os; for(auto&A:c->args()){ if(isa<MetadataAsValue>(A.get())) os.push_back(json::Array{"md"}); else os.push_back(opnd(A.get())); } x["ops"]=std::move(os); if(auto*iv=dyn_cast<InvokeInst>(c)){ x["succ"]=json::Array{BID[iv->getNormalDest()],BID[iv->getUnwindDest()]}; } }
          else if(auto*G=dyn_cast<GEPOperator>(&I)) { x["gep"]=gepv(G,0); }
          else if(auto*P=dyn_cast<PHINode>(&I)){ json::Array inc; for(unsigned i=0;i<P->getNumIncomingValues();i++){ json::Array e; e.push_back(opnd(P->getIncomingValue(i))); e.push_back(BID[P->getIncomingBlock(i)]); inc.push_back(std::move(e)); } x["inc"]=std::move(inc); }
          else if(auto*S=dyn_cast<SwitchInst>(&I)){ x["ops"]=json::Array{opnd(S->getCondition())}; json::Array cs; for(auto&c:S->cases()){ json::Array e; e.push_back(c.getCaseValue()->getSExtValue()); e.push_back(BID[c.getCaseSuccessor()]); cs.push_back(std::move(e)); } x["cases"]=std::move(cs); x["def"]=BID[S->getDefaultDest()]; }
          else { json::Array os; for(auto&o:I.operands()){ if(isa<BasicBlock>(o)) continue; os.push_back(opnd(o)); } x["ops"]=std::move(os);
            if(auto*e=dyn_cast<ExtractValueInst>(&I)){ json::Array ix; for(auto i:e->indices()) ix.push_back((int64_t)i); x["idx"]=std::move(ix); }
            if(auto*e=dyn_cast<InsertValueInst>(&I)){ json::Array ix; for(auto i:e->indices()) ix.push_back((int64_t)i); x["idx"]=std::move(ix); }
            if(auto*e=dyn_cast<ShuffleVectorInst>(&I)){ json::Array ix; for(int i:e->getShuffleMask()) ix.push_back(i); x["mask"]=std::move(ix); }
            if(I.getNumOperands()&&!isa<BasicBlock>(I.getOperand(0))) x["oty"]=tyS(I.getOperand(0)->getType()); }
          if(auto*br=dyn_cast<BranchInst>(&I)){ json::Array s; for(unsigned i=0;i<br->getNumSuccessors();i++) s.push_back(BID[br->getSuccessor(i)]); x["succ"]=std::move(s); }
          x["loc"]=loc(I); is.push_back(std::move(x)); } bs.push_back(std::move(is)); }
      o["blocks"]=std::move(bs); }
    fs.push_back(std::move(o)); }
  json::Array al; for(auto&A:M->aliases()) al.push_back(json::Array{A.getName().str(),A.getAliaseeObject()?A.getAliaseeObject()->getName().str():std::string()});
  top["globals"]=std::move(gs); top["functions"]=std::move(fs); top["aliases"]=std::move(al);
  outs()<<json::Value(std::move(top))<<"\n"; return 0; }
