// irdump: load one LLVM bitcode file, promote allocas to SSA, and print the
// resolved program (types, globals, functions, instructions, debug names) as JSON.
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Transforms/Utils/Mem2Reg.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
using namespace llvm;
using json::Array; using json::Object; typedef json::Value JV;

static const DataLayout *DL;
static std::map<const llvm::Value*, int> ids;

static std::string base(StringRef f){ size_t p=f.rfind('/'); return (p==StringRef::npos?f:f.substr(p+1)).str(); }

static std::string diname(const DIType *t, int depth=0){
  if(!t) return "void";
  if(depth>8) return "...";
  if(auto *d=dyn_cast<DIDerivedType>(t)){
    switch(d->getTag()){
      case dwarf::DW_TAG_pointer_type: return diname(d->getBaseType(),depth+1)+"*";
      case dwarf::DW_TAG_const_type: return "const "+diname(d->getBaseType(),depth+1);
      case dwarf::DW_TAG_volatile_type: return diname(d->getBaseType(),depth+1);
      case dwarf::DW_TAG_typedef: return d->getName().str();
      default: return diname(d->getBaseType(),depth+1);
    }
  }
  if(isa<DISubroutineType>(t)) return "fn";
  if(auto *c=dyn_cast<DICompositeType>(t)){
    if(c->getTag()==dwarf::DW_TAG_array_type) return diname(c->getBaseType(),depth+1)+"[]";
    if(c->getTag()==dwarf::DW_TAG_enumeration_type) return "enum "+c->getName().str();
    return c->getName().str();
  }
  return t->getName().str();
}
// typedefs stripped
static const DIType* strip(const DIType*t){
  while(auto*d=dyn_cast_or_null<DIDerivedType>(t)){
    if(d->getTag()==dwarf::DW_TAG_typedef||d->getTag()==dwarf::DW_TAG_const_type||d->getTag()==dwarf::DW_TAG_volatile_type) t=d->getBaseType();
    else break;
  }
  return t;
}
static std::string tystr(Type *t){
  if(t->isPointerTy()) return "ptr";
  if(t->isIntegerTy()) return "i"+std::to_string(t->getIntegerBitWidth());
  if(t->isVoidTy()) return "void";
  if(t->isDoubleTy()) return "double";
  if(t->isFloatTy()) return "float";
  std::string s; raw_string_ostream o(s); t->print(o,false,true); return s;
}
static int64_t tysz(Type*t){ return t->isSized()? (int64_t)DL->getTypeStoreSize(t).getFixedValue():0; }
static std::string stname(Type*t){
  if(auto*s=dyn_cast<StructType>(t)){ if(s->hasName()){ StringRef n=s->getName(); n.consume_front("struct."); n.consume_front("union."); return n.str(); } return "anon"; }
  return "";
}
static JV operand(const llvm::Value *v){
  if(auto*c=dyn_cast<ConstantInt>(v)){
    if(c->getBitWidth()<=64) return Array{"c",(int64_t)c->getSExtValue(),(int64_t)c->getBitWidth()};
    return Array{"u"};
  }
  if(isa<ConstantPointerNull>(v)) return Array{"n"};
  if(isa<UndefValue>(v)) return Array{"u"};
  if(auto*f=dyn_cast<Function>(v)) return Array{"f",f->getName().str()};
  if(auto*g=dyn_cast<GlobalVariable>(v)) return Array{"g",g->getName().str(),(int64_t)0};
  if(auto*a=dyn_cast<Argument>(v)) return Array{"a",(int64_t)a->getArgNo()};
  if(auto*f=dyn_cast<ConstantFP>(v)){ (void)f; return Array{"fp"}; }
  if(auto*ce=dyn_cast<ConstantExpr>(v)){
    if(ce->getOpcode()==Instruction::GetElementPtr){
      APInt off(64,0); auto*go=cast<GEPOperator>(ce);
      if(go->accumulateConstantOffset(*DL,off))
        if(auto*g=dyn_cast<GlobalVariable>(go->getPointerOperand()))
          return Array{"g",g->getName().str(),(int64_t)off.getSExtValue()};
    }
    if(ce->isCast()) return operand(ce->getOperand(0));
    return Array{"u"};
  }
  auto it=ids.find(v); if(it!=ids.end()) return Array{"v",(int64_t)it->second};
  return Array{"u"};
}
static JV constInit(const Constant*c,int depth=0){
  if(auto*cd=dyn_cast<ConstantDataArray>(c)){
    if(cd->isString()) return Object{{"s",json::isUTF8(cd->getAsString())?cd->getAsString().str():json::fixUTF8(cd->getAsString())}};
    Array a; if(cd->getElementType()->isIntegerTy()) for(unsigned i=0;i<cd->getNumElements();i++) a.push_back(cd->getElementAsAPInt(i).getSExtValue());
    return Object{{"ints",std::move(a)},{"es",(int64_t)DL->getTypeStoreSize(cd->getElementType())}};
  }
  if(auto*ci=dyn_cast<ConstantInt>(c)) return Object{{"ints",Array{(int64_t)ci->getSExtValue()}},{"es",(int64_t)(ci->getBitWidth()+7)/8}};
  if(isa<ConstantAggregateZero>(c)||isa<ConstantPointerNull>(c)) return Object{{"zero",true}};
  if(isa<Function>(c)||isa<GlobalVariable>(c)||isa<ConstantExpr>(c)) return Object{{"op",operand(c)}};
  if(auto*ca=dyn_cast<ConstantAggregate>(c)){
    Array a; if(depth<4) for(unsigned i=0;i<ca->getNumOperands();i++) a.push_back(constInit(cast<Constant>(ca->getOperand(i)),depth+1));
    Array of; if(auto*sty=dyn_cast<StructType>(ca->getType())) for(unsigned i=0;i<sty->getNumElements();i++) of.push_back((int64_t)DL->getStructLayout(sty)->getElementOffset(i));
    return Object{{"agg",std::move(a)},{"of",std::move(of)},{"es", isa<ConstantArray>(ca)?(int64_t)DL->getTypeAllocSize(cast<ArrayType>(ca->getType())->getElementType()):0}};
  }
  return Object{};
}

int main(int argc,char**argv){
  LLVMContext C; SMDiagnostic E;
  auto M=parseIRFile(argv[1],E,C);
  if(!M){ E.print(argv[0],errs()); return 2; }
  {
    LoopAnalysisManager L; FunctionAnalysisManager FA; CGSCCAnalysisManager G; ModuleAnalysisManager MA;
    PassBuilder PB; PB.registerModuleAnalyses(MA); PB.registerCGSCCAnalyses(G); PB.registerFunctionAnalyses(FA); PB.registerLoopAnalyses(L);
    PB.crossRegisterProxies(L,FA,G,MA);
    FunctionPassManager FPM; FPM.addPass(PromotePass());
    for(auto&F:*M) if(!F.isDeclaration()) FPM.run(F,FA);
  }
  DL=&M->getDataLayout();
  Object top; 
  // structs
  Object sts;
  for(auto*st:M->getIdentifiedStructTypes()){
    if(st->isOpaque()) continue;
    auto*sl=DL->getStructLayout(st); Array offs,szs,tys;
    for(unsigned i=0;i<st->getNumElements();i++){ offs.push_back((int64_t)sl->getElementOffset(i)); szs.push_back(tysz(st->getElementType(i))); tys.push_back(tystr(st->getElementType(i))); }
    sts[stname(st)]=Object{{"size",(int64_t)sl->getSizeInBytes()},{"offs",std::move(offs)},{"szs",std::move(szs)},{"tys",std::move(tys)}};
  }
  top["structs"]=std::move(sts);
  DebugInfoFinder DF; DF.processModule(*M);
  Object dts, enums, tds;
  for(auto*t:DF.types()){
    if(auto*d=dyn_cast<DIDerivedType>(t)) if(d->getTag()==dwarf::DW_TAG_typedef){ const DIType*b=strip(d); std::string n=b?b->getName().str():""; if(b&&isa<DICompositeType>(b)&&n.empty()) n=d->getName().str(); tds[d->getName().str()]=diname(b); }
    auto*c=dyn_cast<DICompositeType>(t); if(!c) continue;
    std::string n=c->getName().str();
    if(c->getTag()==dwarf::DW_TAG_enumeration_type){
      Object e; for(auto*el:c->getElements()) if(auto*en=dyn_cast<DIEnumerator>(el)) e[en->getName().str()]=en->getValue().getSExtValue();
      if(n.empty()) n="anon@"+base(c->getFilename())+":"+std::to_string(c->getLine());
      enums[n]=std::move(e);
    } else if(c->getTag()==dwarf::DW_TAG_structure_type||c->getTag()==dwarf::DW_TAG_union_type){
      if(c->isForwardDecl()) continue;
      if(n.empty()) n="anon@"+base(c->getFilename())+":"+std::to_string(c->getLine());
      Array ms;
      for(auto*el:c->getElements()) if(auto*m=dyn_cast<DIDerivedType>(el)) if(m->getTag()==dwarf::DW_TAG_member){
        const DIType*b=strip(m->getBaseType()); std::string tn=diname(m->getBaseType()); std::string sn=diname(b);
        if(b&&isa<DICompositeType>(b)&&b->getName().empty()){ auto*bc=cast<DICompositeType>(b); if(bc->getTag()!=dwarf::DW_TAG_array_type) sn="anon@"+base(bc->getFilename())+":"+std::to_string(bc->getLine()); }
        std::string el2=""; if(auto*bc=dyn_cast_or_null<DICompositeType>(b)) if(bc->getTag()==dwarf::DW_TAG_array_type) el2=diname(strip(bc->getBaseType()));
        ms.push_back(Object{{"n",m->getName().str()},{"o",(int64_t)(m->getOffsetInBits()/8)},{"sz",(int64_t)(m->getSizeInBits()/8)},{"t",tn},{"st",sn},{"el",el2}});
      }
      dts[n]=Object{{"union",c->getTag()==dwarf::DW_TAG_union_type},{"size",(int64_t)(c->getSizeInBits()/8)},{"m",std::move(ms)},{"file",base(c->getFilename())}};
    }
  }
  top["ditypes"]=std::move(dts); top["enums"]=std::move(enums); top["typedefs"]=std::move(tds);
  Object gl;
  for(auto&g:M->globals()){
    Object o; o["internal"]=g.hasLocalLinkage(); o["const"]=g.isConstant(); o["decl"]=g.isDeclaration(); o["size"]=tysz(g.getValueType());
    o["ty"]=tystr(g.getValueType()); 
    SmallVector<DIGlobalVariableExpression*,2> gv; g.getDebugInfo(gv);
    if(!gv.empty()){ auto*v=gv[0]->getVariable(); o["dn"]=v->getName().str(); o["dt"]=diname(v->getType()); o["file"]=base(v->getFilename()); o["line"]=(int64_t)v->getLine(); o["local"]=isa_and_nonnull<DILocalScope>(v->getScope()); }
    if(g.hasInitializer()) o["init"]=constInit(g.getInitializer());
    gl[g.getName().str()]=std::move(o);
  }
  top["globals"]=std::move(gl);
  Array fns;
  for(auto&F:*M){
    if(F.isIntrinsic()&&F.isDeclaration()) continue;
    Object f; f["name"]=F.getName().str(); f["internal"]=F.hasLocalLinkage(); f["decl"]=F.isDeclaration(); f["ret"]=tystr(F.getReturnType()); f["va"]=F.isVarArg();
    f["addr"]=F.hasAddressTaken();
    auto*SP=F.getSubprogram();
    if(SP){ f["file"]=base(SP->getFilename()); f["line"]=(int64_t)SP->getLine(); 
      Array pt; if(auto*st=SP->getType()) for(auto*t:st->getTypeArray()) pt.push_back(diname(t)); f["sig"]=std::move(pt); }
    Array ps; for(auto&a:F.args()) ps.push_back(Object{{"t",tystr(a.getType())},{"byval",a.hasByValAttr()},{"sret",a.hasStructRetAttr()}});
    if(!F.isDeclaration()){
      ids.clear(); int n=0; std::map<const BasicBlock*,int> bid; int bn=0;
      for(auto&B:F){ bid[&B]=bn++; for(auto&I:B){ if(isa<DbgInfoIntrinsic>(I)) continue; ids[&I]=n++; } }
      Object names; Array pnames; for(unsigned i=0;i<F.arg_size();i++) pnames.push_back("");
      for(auto&B:F) for(auto&I:B){
        if(auto*d=dyn_cast<DbgDeclareInst>(&I)){ auto*a=d->getAddress(); if(a){ auto it=ids.find(a); if(it!=ids.end()) names[std::to_string(it->second)]=d->getVariable()->getName().str(); else if(auto*ar=dyn_cast<Argument>(a)) pnames[ar->getArgNo()]=d->getVariable()->getName().str(); if(d->getVariable()->getArg()) pnames[d->getVariable()->getArg()-1]=d->getVariable()->getName().str(); } }
        else if(auto*d=dyn_cast<DbgValueInst>(&I)){ auto*v=d->getVariableLocationOp(0); if(v){ auto it=ids.find(v); if(it!=ids.end()){ if(!names.get(std::to_string(it->second))) names[std::to_string(it->second)]=d->getVariable()->getName().str(); } else if(auto*ar=dyn_cast<Argument>(v)){ pnames[ar->getArgNo()]=d->getVariable()->getName().str(); } } }
      }
      f["names"]=std::move(names); f["pnames"]=std::move(pnames);
      Array blks; int lastline=SP?SP->getLine():0;
      for(auto&B:F){
        Array ins;
        for(auto&I:B){
          if(isa<DbgInfoIntrinsic>(I)) continue;
          Object o; o["i"]=ids[&I]; o["op"]=I.getOpcodeName(); o["t"]=tystr(I.getType());
          if(auto&dl=I.getDebugLoc()){ if(dl.getLine()) lastline=dl.getLine(); o["ln"]=(int64_t)dl.getLine(); if(auto*sc=dyn_cast_or_null<DIScope>(dl.getScope())){ std::string fn=base(sc->getFilename()); if(!SP||fn!=base(SP->getFilename())) o["fl"]=fn; } }
          else o["ln"]=lastline;
          if(auto*p=dyn_cast<PHINode>(&I)){
            Array inc; for(unsigned k=0;k<p->getNumIncomingValues();k++) inc.push_back(Array{operand(p->getIncomingValue(k)),(int64_t)bid[p->getIncomingBlock(k)]});
            o["inc"]=std::move(inc);
          } else if(auto*g=dyn_cast<GetElementPtrInst>(&I)){
            o["a"]=Array{operand(g->getPointerOperand())};
            int64_t co=0; Array vars; Array path; Type*cur=g->getSourceElementType(); bool first=true;
            for(auto it=g->idx_begin();it!=g->idx_end();++it){
              const llvm::Value*ix=*it;
              if(first){ int64_t es=DL->getTypeAllocSize(cur); if(auto*ci=dyn_cast<ConstantInt>(ix)) co+=ci->getSExtValue()*es; else vars.push_back(Array{operand(ix),es}); first=false; }
              else if(auto*st=dyn_cast<StructType>(cur)){ unsigned k=cast<ConstantInt>(ix)->getZExtValue(); int64_t fo=DL->getStructLayout(st)->getElementOffset(k); co+=fo; path.push_back(Array{stname(st),fo}); cur=st->getElementType(k); }
              else if(auto*at=dyn_cast<ArrayType>(cur)){ int64_t es=DL->getTypeAllocSize(at->getElementType()); if(auto*ci=dyn_cast<ConstantInt>(ix)) co+=ci->getSExtValue()*es; else vars.push_back(Array{operand(ix),es}); o["arr"]=(int64_t)at->getNumElements(); o["asz"]=(int64_t)(es*at->getNumElements()); cur=at->getElementType(); }
            }
            o["co"]=co; o["vars"]=std::move(vars); o["path"]=std::move(path); o["set"]=stname(g->getSourceElementType());
          } else if(auto*ai=dyn_cast<AllocaInst>(&I)){
            o["sz"]=tysz(ai->getAllocatedType()); o["at"]=tystr(ai->getAllocatedType()); o["ast"]=stname(ai->getAllocatedType());
            if(ai->isArrayAllocation()) o["n"]=operand(ai->getArraySize());
          } else if(auto*cb=dyn_cast<CallBase>(&I)){
            o["callee"]=operand(cb->getCalledOperand());
            if(auto*f2=cb->getCalledFunction()){ o["fn"]=f2->getName().str(); }
            Array as; for(auto&u:cb->args()) { if(isa<MetadataAsValue>(u)) as.push_back(Array{"u"}); else as.push_back(operand(u)); } o["a"]=std::move(as);
          } else if(auto*br=dyn_cast<BranchInst>(&I)){
            if(br->isConditional()) o["a"]=Array{operand(br->getCondition())};
            Array t; for(unsigned k=0;k<br->getNumSuccessors();k++) t.push_back((int64_t)bid[br->getSuccessor(k)]); o["to"]=std::move(t);
          } else if(auto*sw=dyn_cast<SwitchInst>(&I)){
            o["a"]=Array{operand(sw->getCondition())}; Array cs; for(auto&c:sw->cases()) cs.push_back(Array{(int64_t)c.getCaseValue()->getSExtValue(),(int64_t)bid[c.getCaseSuccessor()]}); o["cases"]=std::move(cs); o["to"]=Array{(int64_t)bid[sw->getDefaultDest()]};
          } else {
            Array as; for(auto&u:I.operands()) as.push_back(operand(u)); o["a"]=std::move(as);
            if(auto*c=dyn_cast<CmpInst>(&I)) { o["pred"]=CmpInst::getPredicateName(c->getPredicate()).str(); o["ot"]=tystr(c->getOperand(0)->getType()); }
            if(auto*s=dyn_cast<StoreInst>(&I)){ o["sz"]=tysz(s->getValueOperand()->getType()); o["vt"]=tystr(s->getValueOperand()->getType()); }
            if(isa<LoadInst>(&I)) o["sz"]=tysz(I.getType());
            if(isa<CastInst>(&I)) o["st"]=tystr(I.getOperand(0)->getType());
            if(auto*ev=dyn_cast<ExtractValueInst>(&I)){ Array x; for(auto k:ev->indices()) x.push_back((int64_t)k); o["idx"]=std::move(x);}            
            if(auto*bo=dyn_cast<OverflowingBinaryOperator>(&I)) { if(bo->hasNoSignedWrap()) o["nsw"]=true; if(bo->hasNoUnsignedWrap()) o["nuw"]=true; }
          }
          ins.push_back(std::move(o));
        }
        blks.push_back(std::move(ins));
      }
      f["blocks"]=std::move(blks);
    }
    f["params"]=std::move(ps);
    fns.push_back(std::move(f));
  }
  top["functions"]=std::move(fns);
  outs()<<JV(std::move(top))<<"\n";
  return 0;
}
