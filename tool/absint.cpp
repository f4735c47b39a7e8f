#include "llvm/Analysis/CallGraph.h"
#include "llvm/ADT/SCCIterator.h"
#include "llvm/Transforms/Utils/Cloning.h"
// Static analyser over LLVM IR: relational abstract interpretation (affine equalities + inequalities)
// of driver-instantiated strtk templates. Nothing is executed; every fact is derived from the IR of the
// current source.  Obligations: memory accesses inside their object, asserted relations (vp_fail
// unreachable), loop progress.
#include "poly.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/Support/Regex.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Analysis/CFG.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Transforms/IPO/AlwaysInliner.h"
#include "llvm/Transforms/IPO/GlobalDCE.h"
#include "llvm/Transforms/IPO/Internalize.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/IR/PatternMatch.h"
#include "llvm/Transforms/Scalar/EarlyCSE.h"
#include "llvm/Transforms/Scalar/SimplifyCFG.h"
#include "llvm/Transforms/Scalar/JumpThreading.h"
#include "llvm/Transforms/Scalar/InstSimplifyPass.h"
#include "llvm/Transforms/Scalar/DCE.h"
#include "llvm/Transforms/Scalar/LoopRotation.h"
#include "llvm/Transforms/Scalar/LoopPassManager.h"
#include "llvm/Transforms/Scalar/LoopSimplifyCFG.h"
#include "llvm/Transforms/Utils/LowerInvoke.h"
#include "llvm/Transforms/Utils/LoopSimplify.h"
#include "llvm/Transforms/Utils/LCSSA.h"
#include "llvm/Transforms/Utils/LoopUtils.h"
#include "llvm/Transforms/Utils/LoopPeel.h"
#include "llvm/Analysis/AssumptionCache.h"
#include "llvm/Analysis/ScalarEvolution.h"
#include "llvm/Analysis/TargetLibraryInfo.h"
#include "llvm/ADT/PostOrderIterator.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Analysis/ConstantFolding.h"
#include <functional>
#include <sys/wait.h>
#include <unistd.h>
#include <chrono>
#include <sstream>
#include <iostream>
using namespace llvm;
long Poly::nLP=0; bool Poly::deep=false;
static bool DBG=false;
static const I64 MAXSZ=1LL<<46;

// ---------------------------------------------------------------- preparation
static std::string demName(const Function*F){ static std::map<const Function*,std::string> c; auto it=c.find(F); if(it!=c.end()) return it->second; return c[F]=demangle(F->getName().str()); }
// class name of a method and its base name, from a demangled signature
struct MName { std::string cls, meth, targs, params; bool ctor=false,dtor=false; };
static MName splitName(const std::string&d){ MName m; // find the parameter list '(' at template depth 0 (skip "operator()")
  int dep=0; size_t par=std::string::npos; for(size_t i=0;i<d.size();i++){ if(d.compare(i,8,"operator")==0){ // operator token
      size_t j=i+8; if(d.compare(j,2,"()")==0) j+=2; else while(j<d.size()&&strchr("<>=!+-*/%&|^[]~,",d[j])) j++; i=j-1; continue; }
    if(d[i]=='<')dep++; else if(d[i]=='>')dep--; else if(d[i]=='('&&dep==0){ if(d.compare(i,21,"(anonymous namespace)")==0){ i+=20; continue;} par=i;break;} }
  std::string h=par==std::string::npos?d:d.substr(0,par); m.params=par==std::string::npos?"":d.substr(par);
  // strip return type: last space at depth 0, careful with "operator "
  dep=0; size_t st=0; size_t oppos=std::string::npos; { int dd=0; for(size_t i=0;i<h.size();i++){ if(h.compare(i,8,"operator")==0&&dd==0){oppos=i;break;} if(h[i]=='<')dd++; else if(h[i]=='>')dd--; } }
  size_t lim=oppos==std::string::npos?h.size():oppos; for(size_t i=0;i<lim;i++){ if(h[i]=='<')dep++; else if(h[i]=='>')dep--; else if(h[i]==' '&&dep==0) st=i+1; }
  h=h.substr(st); if(oppos!=std::string::npos) oppos-=st; // split last ::
  dep=0; size_t last=std::string::npos; lim=oppos==std::string::npos?h.size():oppos; for(size_t i=0;i+1<lim;i++){ if(h[i]=='<')dep++; else if(h[i]=='>')dep--; else if(h[i]==':'&&h[i+1]==':'&&dep==0) last=i; }
  std::string cls=last==std::string::npos?"":h.substr(0,last); m.meth=last==std::string::npos?h:h.substr(last+2);
  { size_t a=m.meth.compare(0,8,"operator")==0?std::string::npos:m.meth.find('<'); if(a!=std::string::npos) m.meth=m.meth.substr(0,a); size_t b=m.meth.find("[abi:"); if(b!=std::string::npos) m.meth=m.meth.substr(0,b); }
  size_t lt=cls.find('<'); m.cls=cls; if(lt!=std::string::npos){ // class templates: take text up to first '<' if closing '>' is last
    m.targs=cls.substr(lt); m.cls=cls.substr(0,lt); if(cls.back()!='>'){ // nested class of template
      int dp=0; size_t e=lt; for(;e<cls.size();e++){ if(cls[e]=='<')dp++; else if(cls[e]=='>'){dp--; if(!dp) break;} } m.cls+= "<>"+cls.substr(e+1); } }
  size_t pb=cls.find("[abi"); (void)pb; std::string base=m.cls; size_t q=base.rfind("::"); if(q!=std::string::npos) base=base.substr(q+2); m.ctor=(m.meth==base); m.dtor=(!m.meth.empty()&&m.meth[0]=='~'); return m; }
static bool isModelClass(const std::string&c){ static const char* L[]={"std::__cxx11::basic_string","std::vector","std::deque","std::__cxx11::list","std::map","std::multimap","std::set","std::multiset","std::queue","std::stack","std::priority_queue","std::_Vector_base","std::_Deque_base","std::__cxx11::_List_base","std::_Rb_tree",
  "std::basic_ifstream","std::basic_ofstream","std::basic_fstream","std::basic_istream","std::basic_ostream","std::basic_ios","std::ios_base","std::locale","std::__cxx11::basic_stringstream","std::__cxx11::basic_ostringstream","std::__cxx11::basic_istringstream","std::_Deque_iterator","std::_List_iterator","std::_List_const_iterator","std::_Rb_tree_iterator","std::_Rb_tree_const_iterator","std::allocator","std::_Bit_iterator","std::_Bit_reference"};
  for(auto*x:L) if(c==x) return true; return false; }
// library containers (and their iterators) that touch nothing but the objects handed to them
static bool isContained(const std::string&c){ static const char* L[]={"std::basic_ifstream","std::basic_ofstream","std::basic_fstream","std::basic_istream","std::basic_ostream","std::basic_ios","std::ios_base","std::locale","std::__cxx11::basic_stringstream","std::__cxx11::basic_ostringstream","std::__cxx11::basic_istringstream","std::deque","std::__cxx11::list","std::map","std::multimap","std::set","std::multiset","std::queue","std::stack","std::priority_queue","std::_Vector_base","std::_Deque_base","std::__cxx11::_List_base","std::_Rb_tree","std::_Deque_iterator","std::_List_iterator","std::_List_const_iterator","std::_Rb_tree_iterator","std::_Rb_tree_const_iterator","std::allocator"};
  for(auto*x:L) if(c==x) return true; return false; }
// specialisations of library classes that a driver defines itself are analysed, not modelled
static bool driverDefined(const Function*F){ auto*S=F->getSubprogram(); if(!S||F->isDeclaration()) return false; auto base=[](StringRef p){ return p.substr(p.rfind('/')==StringRef::npos?0:p.rfind('/')+1); }; if(base(S->getFilename()).starts_with("d_")) return true; if(auto*T=dyn_cast_or_null<DIType>(S->getScope())) if(T->getFile()&&base(T->getFilename()).starts_with("d_")) return true; return false; }
static bool isModelFn(const Function*F){ if(driverDefined(F)) return false; std::string d=demName(F); if(d.compare(0,3,"vp_")==0) return true; MName m=splitName(d); if(isModelClass(m.cls)) return true;
  if(m.cls=="std"&&(m.meth=="search"||m.meth=="find"||m.meth=="find_if"||m.meth=="__find_if")) return true;
  if(m.cls=="std"){ static const char* L[]={"getline","operator<<","operator>>","stable_sort","sort","random_shuffle","next_permutation","operator+","operator==","operator!=","operator<","swap","lower_bound","__sort","reverse"}; for(auto*x:L) if(m.meth==x && (d.find("basic_string")!=std::string::npos||d.find("stream")!=std::string::npos||m.meth.find("sort")!=std::string::npos||m.meth=="random_shuffle"||m.meth=="next_permutation")) return true; }
  return false; }

struct MergeLatches : PassInfoMixin<MergeLatches> { PreservedAnalyses run(Function&F,FunctionAnalysisManager&){ bool again=true; while(again){ again=false; DominatorTree DT(F); LoopInfo LI(DT); for(Loop*L:LI.getLoopsInPreorder()){ SmallVector<BasicBlock*,8> la; L->getLoopLatches(la); bool br=true; for(auto*b:la) if(!isa<BranchInst>(b->getTerminator())&&!isa<SwitchInst>(b->getTerminator())) br=false; if(la.size()<2||!br) continue; SplitBlockPredecessors(L->getHeader(),la,".latch",&DT,&LI,nullptr,false); again=true; break; } } return PreservedAnalyses::none(); } };
// vp_unroll(n) in a driver: the first n iterations of each of its loops are analysed separately
static void peelAll(Function&F){ int n=0; std::vector<CallInst*> dead; for(auto&I:instructions(F)) if(auto*C=dyn_cast<CallInst>(&I)) if(C->getCalledFunction()&&C->getCalledFunction()->getName()=="vp_unroll"){ if(auto*ci=dyn_cast<ConstantInt>(C->getArgOperand(0))) n=std::max(n,(int)ci->getSExtValue()); dead.push_back(C); } for(auto*C:dead) C->eraseFromParent(); if(!n) return;
  DominatorTree DT(F); LoopInfo LI(DT); AssumptionCache AC(F); TargetLibraryInfoImpl TLII(Triple(F.getParent()->getTargetTriple())); TargetLibraryInfo TLI(TLII); ScalarEvolution SE(F,TLI,AC,DT,LI);
  std::vector<Loop*> ls; for(auto*L:LI.getLoopsInPreorder()) ls.push_back(L); for(auto*L:LI) simplifyLoop(L,&DT,&LI,&SE,&AC,nullptr,false); for(auto*L:LI) formLCSSARecursively(*L,DT,&LI,&SE); std::reverse(ls.begin(),ls.end());
  for(auto*L:ls){ if(!L->getSubLoops().empty()) continue; if(!canPeel(L)) continue; ValueToValueMapTy vm; peelLoop(L,n,&LI,&SE,DT,&AC,true,vm); } }
// virtual calls: when the objects a driver constructs provide exactly one function for the called slot, that is the callee
// A pair of 32-bit values that travels as one 64-bit register is taken apart again.
struct Unpack : PassInfoMixin<Unpack> {
  std::map<std::pair<Value*,bool>,Value*> memo; bool can(Value*V,bool hi,std::set<Value*>&seen){ using namespace PatternMatch; Value*A,*B;
    if(!V->getType()->isIntegerTy(64)) return false; if(isa<ConstantInt>(V)) return true; if(!seen.insert(V).second) return true; if(auto*P=dyn_cast<PHINode>(V)){ for(Value*I:P->incoming_values()) if(!can(I,hi,seen)) return false; return true; }
    if(auto*S=dyn_cast<SelectInst>(V)) return can(S->getTrueValue(),hi,seen)&&can(S->getFalseValue(),hi,seen);
    if(match(V,m_ZExt(m_Value(A)))) return A->getType()->getIntegerBitWidth()<=32;
    if(match(V,m_Shl(m_Value(A),m_SpecificInt(32)))) return hi?(match(A,m_ZExt(m_Value(B)))&&B->getType()->isIntegerTy(32)):true;
    if(match(V,m_And(m_Value(A),m_SpecificInt(0xffffffff00000000ull)))) return hi?can(A,hi,seen):true;
    if(match(V,m_And(m_Value(A),m_SpecificInt(0xffffffffull)))) return hi?true:can(A,hi,seen);
    if(match(V,m_Or(m_Value(A),m_Value(B)))) { std::set<Value*> t=seen; if(!can(A,hi,seen)||!can(B,hi,seen)) return false; return zero(A,hi)||zero(B,hi); }
    return false; }
  bool zero(Value*V,bool hi){ using namespace PatternMatch; Value*A; if(auto*C=dyn_cast<ConstantInt>(V)) return ((hi?C->getZExtValue()>>32:C->getZExtValue())&0xffffffffull)==0; if(hi){ if(match(V,m_ZExt(m_Value(A)))) return true; return match(V,m_And(m_Value(A),m_SpecificInt(0xffffffffull))); } return match(V,m_Shl(m_Value(A),m_SpecificInt(32)))||match(V,m_And(m_Value(A),m_SpecificInt(0xffffffff00000000ull))); }
  Value*get(Value*V,bool hi){ using namespace PatternMatch; Value*A,*B; Type*T=Type::getInt32Ty(V->getContext()); if(auto*C=dyn_cast<ConstantInt>(V)) return ConstantInt::get(T,(hi?C->getZExtValue()>>32:C->getZExtValue())&0xffffffffull); auto k=std::make_pair(V,hi); if(memo.count(k)) return memo[k];
    if(auto*P=dyn_cast<PHINode>(V)){ auto*N=PHINode::Create(T,P->getNumIncomingValues(),"part",P); memo[k]=N; for(unsigned i=0;i<P->getNumIncomingValues();++i) N->addIncoming(get(P->getIncomingValue(i),hi),P->getIncomingBlock(i)); return N; }
    Value*R=nullptr; if(auto*S=dyn_cast<SelectInst>(V)) R=SelectInst::Create(S->getCondition(),get(S->getTrueValue(),hi),get(S->getFalseValue(),hi),"part",S);
    else if(match(V,m_ZExt(m_Value(A)))) { if(hi) R=ConstantInt::get(T,0); else R=A->getType()->isIntegerTy(32)?A:new ZExtInst(A,T,"part",cast<Instruction>(V)); }
    else if(match(V,m_Shl(m_Value(A),m_SpecificInt(32)))) { if(!hi) R=ConstantInt::get(T,0); else { match(A,m_ZExt(m_Value(B))); R=B; } }
    else if(match(V,m_And(m_Value(A),m_SpecificInt(0xffffffff00000000ull)))) R=hi?get(A,hi):ConstantInt::get(T,0);
    else if(match(V,m_And(m_Value(A),m_SpecificInt(0xffffffffull)))) R=hi?ConstantInt::get(T,0):get(A,hi);
    else if(match(V,m_Or(m_Value(A),m_Value(B)))) R=zero(A,hi)?get(B,hi):get(A,hi);
    return memo[k]=R; }
  PreservedAnalyses run(Function&F,FunctionAnalysisManager&){ using namespace PatternMatch; memo.clear(); bool ch=false; SmallVector<Instruction*,32> W; for(auto&I:instructions(F)) W.push_back(&I);
    for(Instruction*I:W){ Value*A=nullptr; bool hi=false,z=false; if(I->getType()->isIntegerTy(32)&&match(I,m_Trunc(m_Value(A)))){ Value*B; if(match(A,m_LShr(m_Value(B),m_SpecificInt(32)))){ A=B; hi=true; } else if(isa<PHINode>(A)||isa<SelectInst>(A)||match(A,m_Or(m_Value(),m_Value()))||match(A,m_Shl(m_Value(),m_SpecificInt(32)))) {} else continue; }
      else if(match(I,m_LShr(m_Value(A),m_SpecificInt(32)))&&I->getType()->isIntegerTy(64)){ hi=true; z=true; } else continue;
      std::set<Value*> seen; if(!can(A,hi,seen)) continue; if(!hi&&(isa<PHINode>(A)||isa<SelectInst>(A))){ bool pk=false; for(Value*x:seen) if(match(x,m_Or(m_Value(),m_Value()))||match(x,m_Shl(m_Value(),m_SpecificInt(32)))) pk=true; if(!pk) continue; }
      Value*R=get(A,hi); if(z) R=new ZExtInst(R,I->getType(),"part",I); I->replaceAllUsesWith(R); ch=true; }
    return ch?PreservedAnalyses::none():PreservedAnalyses::all(); } };
struct Devirt : PassInfoMixin<Devirt> { PreservedAnalyses run(Function&F,FunctionAnalysisManager&){ if(!F.getName().starts_with("drv_")) return PreservedAnalyses::all(); const DataLayout&DL=F.getParent()->getDataLayout();
  std::set<std::pair<GlobalVariable*,int64_t>> vts; for(auto&I:instructions(F)) if(auto*S=dyn_cast<StoreInst>(&I)){ APInt o(64,0); Value*b=S->getValueOperand(); if(!b->getType()->isPointerTy()) continue; b=b->stripAndAccumulateConstantOffsets(DL,o,true); if(auto*G=dyn_cast<GlobalVariable>(b)) if(G->getName().starts_with("_ZTV")&&G->hasInitializer()) vts.insert({G,o.getSExtValue()}); }
  if(vts.empty()) return PreservedAnalyses::all(); bool ch=false; std::vector<CallBase*> cs; for(auto&I:instructions(F)) if(auto*C=dyn_cast<CallBase>(&I)) if(!C->getCalledFunction()&&!C->isInlineAsm()) cs.push_back(C);
  for(auto*C:cs){ auto*L=dyn_cast<LoadInst>(C->getCalledOperand()); if(!L) continue; APInt o(64,0); Value*vt=L->getPointerOperand()->stripAndAccumulateConstantOffsets(DL,o,true); if(!isa<LoadInst>(vt)) continue; std::set<Function*> t; bool bad=false;
    for(auto&v:vts){ int64_t at=v.second+o.getSExtValue(); Constant*init=v.first->getInitializer(); Constant*e=ConstantFoldLoadFromConst(init,PointerType::get(F.getContext(),0),APInt(64,at),DL); if(!e){ continue; } auto*fn=dyn_cast<Function>(e->stripPointerCasts()); if(!fn){ continue; } if(fn->getName()=="__cxa_pure_virtual") continue; if(fn->getFunctionType()!=C->getFunctionType()) continue; t.insert(fn); }
    if(!bad&&t.size()==1){ C->setCalledOperand(*t.begin()); ch=true; } }
  return ch?PreservedAnalyses::none():PreservedAnalyses::all(); } };
// calls through pointers to member functions: the functions whose address is taken get distinct even numbers, the call becomes a choice between them
static void memberCalls(Module&M){ std::map<Function*,ConstantInt*> num; Type*I64=Type::getInt64Ty(M.getContext());
  for(Function&F:M){ if(F.isDeclaration()||!F.getName().starts_with("drv_")) continue; for(auto&I:instructions(F)) for(auto&U:I.operands()) if(auto*CE=dyn_cast<ConstantExpr>(U.get())) if(CE->getOpcode()==Instruction::PtrToInt&&CE->getType()==I64) if(auto*g=dyn_cast<Function>(CE->getOperand(0))){ auto&n=num[g]; if(!n) n=ConstantInt::get(cast<IntegerType>(I64),(1<<20)+16*num.size()); U.set(n); } }
  if(num.empty()) return;
  for(Function&F:M){ if(F.isDeclaration()||!F.getName().starts_with("drv_")) continue; std::vector<CallInst*> cs; for(auto&I:instructions(F)) if(auto*C=dyn_cast<CallInst>(&I)) if(!C->getCalledFunction()&&!C->isInlineAsm()&&isa<PHINode>(C->getCalledOperand())) cs.push_back(C);
    for(auto*C:cs){ auto*P=cast<PHINode>(C->getCalledOperand()); bool mf=false; for(auto&v:P->incoming_values()) if(isa<IntToPtrInst>(v)) mf=true; if(!mf) continue;
      auto*N=PHINode::Create(I64,P->getNumIncomingValues(),"mf",P); for(unsigned i=0;i<P->getNumIncomingValues();i++){ Value*v=P->getIncomingValue(i); if(auto*J=dyn_cast<IntToPtrInst>(v)) N->addIncoming(J->getOperand(0),P->getIncomingBlock(i)); else N->addIncoming(new PtrToIntInst(v,I64,"",P->getIncomingBlock(i)->getTerminator()),P->getIncomingBlock(i)); }
      BasicBlock*B=C->getParent(); BasicBlock*R=B->splitBasicBlock(C->getNextNode(),"mf.end"); BasicBlock*D=B->splitBasicBlock(C,"mf.other"); B->getTerminator()->eraseFromParent(); auto*S=SwitchInst::Create(N,D,num.size(),B); S->setDebugLoc(C->getDebugLoc());
      PHINode*res=C->getType()->isVoidTy()?nullptr:PHINode::Create(C->getType(),num.size()+1,"mf.r",&R->front()); if(res){ C->replaceAllUsesWith(res); res->addIncoming(C,D); }
      for(auto&x:num){ if(x.first->getFunctionType()!=C->getFunctionType()) continue; auto*K=BasicBlock::Create(M.getContext(),"mf.case",&F,D); auto*c=cast<CallInst>(C->clone()); c->setCalledFunction(x.first); c->insertInto(K,K->end()); auto*br=BranchInst::Create(R,K); br->setDebugLoc(C->getDebugLoc()); if(res) res->addIncoming(c,K); S->addCase(x.second,K); } } } }
static void prepare(Module&M,bool aggressive){
  for(Function&F:M){ if(F.isDeclaration()) continue; F.removeFnAttr(Attribute::NoInline); F.removeFnAttr(Attribute::OptimizeNone);
    bool drv=F.getName().starts_with("drv_"); if(drv){ F.setLinkage(GlobalValue::ExternalLinkage); continue; }
    if(isModelFn(&F)){ F.deleteBody(); F.setComdat(nullptr); F.setLinkage(GlobalValue::ExternalLinkage); continue; }
  }
  // mutual recursion: two levels of copies, then an opaque call
  { CallGraph CG(M); std::vector<std::vector<Function*>> sccs; for(auto it=scc_begin(&CG);!it.isAtEnd();++it){ std::vector<Function*> fs; for(auto*n:*it) if(n->getFunction()&&!n->getFunction()->isDeclaration()) fs.push_back(n->getFunction()); if(fs.size()>1) sccs.push_back(fs); }
    for(auto&fs:sccs){ std::map<Function*,std::vector<Function*>> lv; for(auto*f:fs){ lv[f].push_back(f); for(int i=1;i<=2;i++){ ValueToValueMapTy vm; Function*c=CloneFunction(f,vm); c->setName(f->getName()+".rec"+Twine(i)); c->setLinkage(GlobalValue::InternalLinkage); c->setComdat(nullptr); lv[f].push_back(c); } Function*d=Function::Create(f->getFunctionType(),GlobalValue::ExternalLinkage,f->getName()+".recopaque",&M); lv[f].push_back(d); }
      for(auto*f:fs) for(int i=0;i<=2;i++) for(auto&I:instructions(lv[f][i])) if(auto*C=dyn_cast<CallBase>(&I)) if(auto*g=C->getCalledFunction()) if(lv.count(g)) C->setCalledFunction(lv[g][i+1]); } }
  // direct recursion is left as an opaque call
  for(Function&F:M){ if(F.isDeclaration()||F.getName().starts_with("drv_")) continue; bool rec=false; for(auto&I:instructions(F)) if(auto*C=dyn_cast<CallBase>(&I)) if(C->getCalledFunction()==&F) rec=true; if(!rec) F.addFnAttr(Attribute::AlwaysInline); else F.addFnAttr(Attribute::NoInline); }
  LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM; PassBuilder PB; PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM,FAM,CAM,MAM);
  ModulePassManager MPM; 
  MPM.addPass(InternalizePass([](const GlobalValue&G){ return G.getName().starts_with("drv_"); }));
  MPM.addPass(GlobalDCEPass());
  MPM.addPass(createModuleToFunctionPassAdaptor(LowerInvokePass()));
  MPM.addPass(AlwaysInlinerPass(false)); MPM.addPass(createModuleToFunctionPassAdaptor(Devirt())); MPM.addPass(AlwaysInlinerPass(false)); MPM.addPass(GlobalDCEPass());
  auto makeF=[]{ FunctionPassManager FPM; FPM.addPass(SimplifyCFGPass(SimplifyCFGOptions().convertSwitchRangeToICmp(false).hoistCommonInsts(false).sinkCommonInsts(false).needCanonicalLoops(false).convertSwitchToLookupTable(false)));
  FPM.addPass(SROAPass(SROAOptions::PreserveCFG)); FPM.addPass(EarlyCSEPass(true)); FPM.addPass(InstSimplifyPass()); FPM.addPass(SROAPass(SROAOptions::PreserveCFG)); FPM.addPass(Unpack()); if(!getenv("NOML")) FPM.addPass(MergeLatches()); if(!getenv("NOROT")) FPM.addPass(createFunctionToLoopPassAdaptor(LoopRotatePass(true,false))); FPM.addPass(JumpThreadingPass(12)); FPM.addPass(EarlyCSEPass(true)); FPM.addPass(InstSimplifyPass());
  FPM.addPass(SimplifyCFGPass(SimplifyCFGOptions().convertSwitchRangeToICmp(false).hoistCommonInsts(false).sinkCommonInsts(false).convertSwitchToLookupTable(false))); FPM.addPass(Unpack()); FPM.addPass(EarlyCSEPass(true)); FPM.addPass(InstSimplifyPass()); FPM.addPass(DCEPass()); return FPM; };
  MPM.addPass(createModuleToFunctionPassAdaptor(makeF())); MPM.run(M,MAM);
  memberCalls(M);
  // a function passed as an argument becomes a direct call only now
  for(int round=0;round<2;round++){ bool left=false; for(Function&F:M) if(!F.isDeclaration()&&F.getName().starts_with("drv_")) for(auto&I:instructions(F)) if(auto*C=dyn_cast<CallInst>(&I)) if(auto*g=C->getCalledFunction()) if(!g->isDeclaration()&&g->hasFnAttribute(Attribute::AlwaysInline)) left=true; if(!left) break;
    LAM.clear(); FAM.clear(); CAM.clear(); MAM.clear(); ModulePassManager M2; M2.addPass(AlwaysInlinerPass(false)); M2.addPass(GlobalDCEPass()); M2.addPass(createModuleToFunctionPassAdaptor(makeF())); M2.run(M,MAM); }
  { bool any=false; for(Function&F:M) if(!F.isDeclaration()&&F.getName().starts_with("drv_")){ bool has=false; for(auto&I:instructions(F)) if(auto*C=dyn_cast<CallInst>(&I)) if(C->getCalledFunction()&&C->getCalledFunction()->getName()=="vp_unroll") has=true; if(has){ peelAll(F); any=true; FunctionPassManager P2; P2.addPass(InstSimplifyPass()); P2.addPass(SimplifyCFGPass(SimplifyCFGOptions().convertSwitchRangeToICmp(false).hoistCommonInsts(false).sinkCommonInsts(false).convertSwitchToLookupTable(false))); P2.addPass(DCEPass()); FAM.clear(); P2.run(F,FAM); } } if(any) FAM.clear(); }
  for(Function&F:M){ if(F.isDeclaration()) continue; std::vector<ZExtInst*> zs; for(auto&I:instructions(F)) if(auto*Z=dyn_cast<ZExtInst>(&I)) if(Z->getOperand(0)->getType()->isIntegerTy(1)){ bool ph=false; for(auto*U:Z->users()) if(isa<PHINode>(U)||isa<SelectInst>(U)) ph=true; if(ph) zs.push_back(Z); }
    for(auto*Z:zs){ auto*S=SelectInst::Create(Z->getOperand(0),ConstantInt::get(Z->getType(),1),ConstantInt::get(Z->getType(),0),"zs",Z); S->setDebugLoc(Z->getDebugLoc()); Z->replaceAllUsesWith(S); Z->eraseFromParent(); } }
  for(Function&F:M){ if(F.isDeclaration()) continue; std::vector<SelectInst*> ss; for(auto&I:instructions(F)) if(auto*S=dyn_cast<SelectInst>(&I)) if(!S->getType()->isIntegerTy(1)&&S->getCondition()->getType()->isIntegerTy(1)) ss.push_back(S);
    for(auto*S:ss){ Instruction*t=nullptr,*f=nullptr; Value*c=S->getCondition(),*a=S->getTrueValue(),*b=S->getFalseValue(); SplitBlockAndInsertIfThenElse(c,S,&t,&f); t->setDebugLoc(S->getDebugLoc()); f->setDebugLoc(S->getDebugLoc()); PHINode*p=PHINode::Create(S->getType(),2,"sel",S); p->setDebugLoc(S->getDebugLoc()); p->addIncoming(a,t->getParent()); p->addIncoming(b,f->getParent()); S->replaceAllUsesWith(p); S->eraseFromParent(); } }
}

// ---------------------------------------------------------------- abstract state
enum RK { R_ALLOCA,R_GLOBAL,R_HEAP,R_BUF,R_CONT,R_OBJ,R_NULL,R_UNK,R_MIXED };
struct Region { RK k; Value*base=nullptr; Lin size; bool sized=false; std::string name; int objR=-1; I64 objO=0; };
struct Cell { int w; bool ptr; int reg; };         // reg valid for ptr
typedef std::pair<int,I64> CKey;                     // region, offset
struct WC { int reg; int st; bool operator==(const WC&o)const{return reg==o.reg&&st==o.st;} };   // watched byte: 0 not written yet, 1 value known as a dimension, 2 unknown
struct St { Poly p; std::map<int,WC> w; std::set<int> f; /* regions with a known range of contents */ std::map<Value*,int> preg; std::map<CKey,Cell> cells; std::map<CKey,int> cur; };
typedef std::vector<std::pair<Value*,int>> Key;      // sorted partition facts
typedef std::map<Key,St> Dis;

struct Obl { std::string kind,file,func,msg,chain; int line; bool ok; long n; };

struct An {
  Function&F; const DataLayout&DL; DominatorTree DT; LoopInfo LI; 
  std::vector<Region> R; std::map<std::pair<int,const void*>,int> dimId; std::vector<std::string> dimName; std::map<std::string,int> ghostId;
  std::map<const void*,int> regOf; std::map<std::pair<CKey,const void*>,int> epoch; 
  std::map<BasicBlock*,Dis> in; std::map<std::pair<BasicBlock*,BasicBlock*>,Dis> edge; std::map<BasicBlock*,std::set<Value*>> live; std::map<BasicBlock*,int> visits; std::set<BasicBlock*> collapsed;
  bool checking=false; std::map<std::tuple<std::string,int,std::string,std::string>,Obl> obls; long nAcc=0,nUntracked=0,nTrivial=0,nCalls=0; std::set<std::string> unkCalls; std::map<std::string,long> modelCalls;
  std::set<BasicBlock*> reached; int CAP=48;
  An(Function&f):F(f),DL(f.getParent()->getDataLayout()),DT(f),LI(DT){ Region n; n.k=R_NULL; n.sized=true; n.name="null"; R.push_back(n); Region u; u.k=R_UNK; u.name="untracked"; R.push_back(u); Region m; m.k=R_MIXED; m.name="mixed"; R.push_back(m); }
  enum {NUL=0,UNK=1,MIX=2};
  int dim(int kind,const void*v,const std::string&nm){ auto k=std::make_pair(kind,v); auto it=dimId.find(k); if(it!=dimId.end()) return it->second; int id=dimName.size(); dimName.push_back(nm); return dimId[k]=id; }
  std::string vname(const Value*v){ std::string s; raw_string_ostream o(s); if(v->hasName()) o<<v->getName(); else { v->printAsOperand(o,false);} return s; }
  int di(const Value*v){ return dim(0,v,vname(v)); } int doff(const Value*v){ return dim(1,v,vname(v)+".off"); } int dsz(const Value*v){ return dim(2,v,vname(v)+".siz"); }
  int dcell(CKey c,int kind){ std::string s="cell"+std::to_string(c.first)+"+"+std::to_string(c.second)+(kind?".off":""); auto it=ghostId.find(s); if(it!=ghostId.end()) return it->second; int id=dimName.size(); dimName.push_back(s); return ghostId[s]=id; }
  int ghost(const std::string&s){ auto it=ghostId.find(s); if(it!=ghostId.end()) return it->second; int id=dimName.size(); dimName.push_back(s); return ghostId[s]=id; }
  std::string show(const Lin&l){ std::string s; for(auto&p:l.t) s+=(s.empty()?"":" + ")+std::to_string(p.second)+"*"+(p.first>=0?dimName[p.first]:"tmp"); return s+" + "+std::to_string(l.c); }
  void dump(St&s){ if(s.p.bot){errs()<<"   BOT\n";return;} for(auto&e:s.p.eq) errs()<<"   "<<show(e)<<" == 0\n"; for(auto&e:s.p.in) errs()<<"   "<<show(e)<<" >= 0\n"; for(auto&c:s.cur) errs()<<"   obj("<<c.first.first<<","<<c.first.second<<") -> r"<<c.second<<" size "<<show(R[c.second].size)<<"\n"; }
  // ---- regions
  int newRegion(const void*key,RK k,Value*b,const std::string&nm){ auto it=regOf.find(key); if(it!=regOf.end()) return it->second; Region r; r.k=k; r.base=b; r.name=nm; R.push_back(r); return regOf[key]=R.size()-1; }
  // ---- evaluation
  bool isIntV(const Value*v){ return v->getType()->isIntegerTy() && v->getType()->getIntegerBitWidth()<=64; }
  Lin evalI(St&s,Value*v){ if(auto*c=dyn_cast<ConstantInt>(v)){ if(c->getBitWidth()==1) return Lin(c->isZero()?0:1); if(c->getBitWidth()<=64) { I64 x=c->getSExtValue(); if(x>(1LL<<61)||x<-(1LL<<61)) return Lin::dim(dim(3,v,"bigconst")); return Lin(x);} } if(isa<ConstantExpr>(v)||isa<UndefValue>(v)) return Lin::dim(dim(3,v,"cexpr")); return Lin::dim(di(v)); }
  struct PV{ int reg; Lin off; int sizDim=-1; };
  PV evalP(St&s,Value*v){ PV r; r.reg=UNK; r.off=Lin::dim(dim(1,v,"unkoff"));
    if(isa<ConstantPointerNull>(v)){ r.reg=NUL; r.off=Lin(0); return r; }
    if(auto*g=dyn_cast<GlobalVariable>(v)){ int id=newRegion(g,R_GLOBAL,g,g->getName().str()); R[id].sized=g->getValueType()->isSized(); if(R[id].sized) R[id].size=Lin((I64)DL.getTypeAllocSize(g->getValueType())); r.reg=id; r.off=Lin(0); return r; }
    if(isa<Function>(v)){ return r; }
    if(auto*ce=dyn_cast<ConstantExpr>(v)){ if(ce->getOpcode()==Instruction::GetElementPtr){ APInt off(64,0); if(cast<GEPOperator>(ce)->accumulateConstantOffset(DL,off)){ PV b=evalP(s,ce->getOperand(0)); b.off=b.off+off.getSExtValue(); return b; } } return r; }
    if(isa<UndefValue>(v)) return r;
    auto it=s.preg.find(v); if(it==s.preg.end()) return r; r.reg=it->second; r.off=Lin::dim(doff(v)); if(r.reg==MIX) r.sizDim=dsz(v); return r; }
  void setP(St&s,Value*v,int reg,const Lin&off,const Lin*siz=nullptr){ s.preg[v]=reg; if(reg==UNK){ s.p.forget(doff(v)); return; } s.p.assign(doff(v),off); if(reg==MIX&&siz) s.p.assign(dsz(v),*siz); }
  void havocI(St&s,Value*v){ int d=di(v); s.p.forget(d); unsigned w=v->getType()->getIntegerBitWidth(); if(w<=32&&w>1){ s.p.addIneq(Lin::dim(d)+(1LL<<(w-1))); s.p.addIneq(Lin((1LL<<(w-1))-1)-Lin::dim(d)); } if(w==1){ s.p.addIneq(Lin::dim(d)); s.p.addIneq(Lin(1)-Lin::dim(d)); } }
  bool fits(St&s,const Lin&e,unsigned w){ I64 lo,hi; if(e.isConst()){lo=hi=e.c;} else if(!s.p.minI(e,lo)||!s.p.maxI(e,hi)) return false; if(w>=63) return lo>-(1LL<<62)&&hi<(1LL<<62); return lo>=-(1LL<<(w-1))&&hi<=(1LL<<(w-1))-1; }
  void setI(St&s,Value*v,const Lin&e,bool chk){ unsigned w=v->getType()->getIntegerBitWidth(); if(chk&&!fits(s,e,w)){ I64 lo,hi; if(w>1&&w<=32&&s.p.minI(e,lo)&&s.p.maxI(e,hi)&&lo>-(1LL<<60)&&hi<(1LL<<60)){ I64 k0=(lo+(1LL<<(w-1)))>>w,k1=(hi+(1LL<<(w-1)))>>w; if(k0==k1){ s.p.assign(di(v),e-k0*(1LL<<w)); return; } } if(w==32&&wrapI(s,v,e)) return; havocI(s,v); return; } s.p.assign(di(v),e); }
  // v == e - 2^32*q : the wrap count q of a bounded 32-bit result stays part of the relation
  std::set<int> wrapG; Lin unwrap(St&s,const Lin&e){ if(wrapG.empty()) return e; try{ I64 sc=1; Lin r=s.p.reduce(e,&sc); if(sc!=1) return e; Lin o; o.c=r.c; bool any=false; for(auto&t:r.t){ if(wrapG.count(t.first)&&t.second%(1LL<<32)==0){ any=true; continue; } o.t.push_back(t); } return any?o:e; }catch(Overflow&){ return e; } }
  bool wrapI(St&s,Value*v,const Lin&e0){ Lin e=unwrap(s,e0); if(e.coef(di(v))) return false; I64 lo,hi; if(!s.p.minI(e,lo)||!s.p.maxI(e,hi)||lo<-(1LL<<40)||hi>(1LL<<40)) return false; try{ const I64 M=1LL<<32; auto&m=quo[v]; auto it=m.find(-M); int q; if(it==m.end()){ q=ghost("wrap@"+std::to_string((size_t)v)); m[-M]=q; wrapG.insert(q); } else q=it->second; s.p.forget(q); Lin x=e-Lin::dim(q)*M; s.p.assign(di(v),x); s.p.addIneq(Lin::dim(di(v))+(1LL<<31)); s.p.addIneq(Lin((1LL<<31)-1)-Lin::dim(di(v))); return true; }catch(Overflow&){ return false; } }
  bool constOf(St&s,const Lin&e,I64&k){ if(e.isConst()){k=e.c;return true;} try{ Lin r=s.p.reduce(e); if(r.isConst()){ I64 sc=1; s.p.reduce(e,&sc); if(r.c%sc==0){k=r.c/sc;return true;} } }catch(Overflow&){} I64 a,b; if(s.p.minI(e,a)&&s.p.maxI(e,b)&&a==b){k=a;return true;} return false; }
  // ---- locations
  void where(const Instruction*I,std::string&file,int&line,std::string&func,std::string&chain){ file="?";line=0;func="?"; chain=""; bool got=false; for(const DILocation*L=I->getDebugLoc().get();L;L=L->getInlinedAt()){ std::string f=L->getFilename().str(); auto*sp=L->getScope()->getSubprogram(); std::string fn=sp?sp->getName().str():"?"; bool hdr=f.size()>=9&&f.compare(f.size()-9,9,"strtk.hpp")==0; if(!got){ if(hdr){file="strtk.hpp";line=L->getLine();func=fn;got=true;} else if(file=="?"){ file=f; line=L->getLine(); func=fn; } } if(hdr||!L->getInlinedAt()){ chain+=(chain.empty()?"":" <- ")+fn+":"+std::to_string(L->getLine()); } } if(!got){ size_t q=file.rfind('/'); if(q!=std::string::npos) file=file.substr(q+1);} }
  void obl(const Instruction*I,const std::string&kind,bool ok,const std::string&msg){ if(!checking) return; std::string f,fn,ch; int ln; where(I,f,ln,fn,ch); auto k=std::make_tuple(f,ln,fn,kind); auto it=obls.find(k); if(it==obls.end()){ obls[k]=Obl{kind,f,fn,ok?"":msg,ch,ln,ok,1}; } else { it->second.n++; if(!ok&&it->second.ok){ it->second.ok=false; it->second.msg=msg; it->second.chain=ch; } } }
  // ---- memory obligation
  std::string rname(int r){ return R[r].name; }
  void access(St&s,const Instruction*I,const PV&p,const Lin&len,const std::string&kind){ if(!checking||s.p.bot) return; nAcc++; int r=p.reg; 
    if(len.isConst()&&len.c==0) return; 
    if(r==UNK||(r!=MIX&&R[r].k==R_OBJ)){ nUntracked++; return; }
    if(r!=MIX&&!R[r].sized){ nUntracked++; return; }
    if(r!=MIX&&(R[r].k==R_ALLOCA||R[r].k==R_GLOBAL)&&p.off.isConst()&&len.isConst()&&R[r].size.isConst()&&p.off.c>=0&&p.off.c+len.c<=R[r].size.c){ nTrivial++; return; }
    if(s.p.entails(-len)){ obl(I,kind,true,""); return; } // empty
    Lin size=r==MIX?Lin::dim(p.sizDim):R[r].size; bool lo=s.p.entails(p.off); bool hi=s.p.entails(size-p.off-len);
    // the access may be of possibly-zero length: restrict to len>=1
    if((!lo||!hi)&&!len.isConst()){ Poly q=s.p; q.meet(len-1); if(q.bot){ lo=hi=true; } else { lo=q.entails(p.off); hi=q.entails(size-p.off-len); } }
    bool stale=false; if(r!=MIX&&R[r].k==R_CONT){ auto it=s.cur.find({R[r].objR,R[r].objO}); if(it!=s.cur.end()&&it->second!=r) stale=true; }
    std::string m; if(!lo||!hi){ I64 v; m=std::string(!lo?"offset may be negative":"offset may reach past the end")+" of "+rname(r)+": offset = "+show(safeReduce(s,p.off))+", size = "+show(safeReduce(s,size))+", len = "+show(len); if(DBG){ errs()<<"FAIL at "; I->print(errs()); errs()<<"\n "<<m<<"\n"; dump(s);} (void)v; }
    if(stale) m+=" (buffer was invalidated by a later modification of its owner)";
    obl(I,kind,lo&&hi&&!stale,m); }
  Lin safeReduce(St&s,const Lin&l){ try{ I64 sc; Lin r=s.p.reduce(l,&sc); return sc==1?r:l; }catch(Overflow&){return l;} }
  // ---- container model
  bool objOf(St&s,Value*v,CKey&k){ PV p=evalP(s,v); if(p.reg==UNK||p.reg==MIX||p.reg==NUL) return false; I64 o; if(!constOf(s,p.off,o)) return false; k={p.reg,o}; return true; }
  int contRegion(CKey k,const void*ep,const std::string&nm){ auto kk=std::make_pair(k,ep); auto it=epoch.find(kk); if(it!=epoch.end()) return it->second; Region r; r.k=R_CONT; r.sized=true; r.objR=k.first; r.objO=k.second; r.name=nm; int id=R.size(); r.size=Lin::dim(ghost("size#"+std::to_string(id))); R.push_back(r); return epoch[kk]=id; }
  int curRegion(St&s,CKey k){ auto it=s.cur.find(k); if(it!=s.cur.end()){ s.p.addIneq(R[it->second].size); return it->second; } int id=contRegion(k,nullptr,"buffer of container object "+R[k.first].name); killCells(s,id); s.cur[k]=id; Lin d=R[id].size; s.p.addIneq(d); s.p.addIneq(Lin(MAXSZ)-d); return id; }
  void setSize(St&s,CKey k,const Instruction*I,const Lin&sz,bool bounded){ // new epoch with byte size sz (expr over current dims)
    int id=contRegion(k,I,"buffer of container object "+R[k.first].name); int d=R[id].size.t[0].first; Lin e=sz; if(!keepW) killWatch(s,id); killCells(s,id); s.p.assign(d,e); s.cur[k]=id; (void)bounded; }
  void setSizeUnknown(St&s,CKey k,const Instruction*I){ int id=contRegion(k,I,"buffer of container object "+R[k.first].name); int d=R[id].size.t[0].first; if(!keepW) killWatch(s,id); killCells(s,id); s.p.forget(d); s.p.addIneq(Lin::dim(d)); s.p.addIneq(Lin(MAXSZ)-Lin::dim(d)); s.cur[k]=id; }
  int keepFill=-1; void killFill(St&s,int reg){ if(reg==keepFill) return; if(s.f.erase(reg)) for(int i=0;i<4;i++) s.p.forget(fDim(reg,i)); }
  int fDim(int reg,int i){ return ghost("fill"+std::to_string(i)+"#"+std::to_string(reg)); }
  bool keepW=false;
  void killCells(St&s,int reg){ killFill(s,reg); for(auto it=s.cells.begin();it!=s.cells.end();) if(it->first.first==reg){ s.p.forget(dcell(it->first,it->second.ptr)); it=s.cells.erase(it);} else ++it; }
  void killRange(St&s,int reg,I64 o,I64 n){ if(s.f.count(reg)&&!(s.p.entails(Lin::dim(fDim(reg,0))-(o+n))||s.p.entails(Lin(o)-Lin::dim(fDim(reg,1))))) killFill(s,reg); for(auto it=s.cells.begin();it!=s.cells.end();) if(it->first.first==reg&&it->first.second<o+n&&o<it->first.second+it->second.w){ s.p.forget(dcell(it->first,it->second.ptr)); it=s.cells.erase(it);} else ++it; }
  // cells of region r also hold in region id
  void copyCells(St&s,int r,int id,I64 so=0,I64 n=-1,I64 to=0){ if(r==id) return; std::vector<std::pair<CKey,Cell>> m; for(auto&c:s.cells) if(c.first.first==r&&c.first.second>=so&&(n<0||c.first.second+c.second.w<=so+n)) m.push_back(c); for(auto&c:m){ CKey nk{id,c.first.second-so+to}; s.p.assign(dcell(nk,c.second.ptr),Lin::dim(dcell(c.first,c.second.ptr))); s.cells[nk]=c.second; } }
  // ---- watched bytes
  int wOff(int id){ return ghost("woff#"+std::to_string(id)); } int wVal(int id){ return ghost("wval#"+std::to_string(id)); }
  std::map<int,Value*> wKey;
  // ---- partition keys
  static int keyGet(const Key&k,Value*v){ for(auto&p:k) if(p.first==v) return p.second; return -1; }
  static void keySet(Key&k,Value*v,int x){ for(auto&p:k) if(p.first==v){p.second=x;return;} k.push_back({v,x}); std::sort(k.begin(),k.end()); }
  // ---- join
  std::set<int> focus; // dims of interest for template candidates
  void unify(St&a,St&b,const void*where){ // make containers/cells/pointer regions compatible
    std::set<CKey> ks; for(auto&c:a.cur) ks.insert(c.first); for(auto&c:b.cur) ks.insert(c.first);
    for(auto&k:ks){ int ra=curRegion(a,k), rb=curRegion(b,k); if(ra==rb) continue; int id=contRegion(k,where,"buffer of container object "+R[k.first].name); int d=R[id].size.t[0].first; for(St*s:{&a,&b}){ int r=s->cur[k]; if(r!=id){ killCells(*s,id); if(!s->w.empty()){ killWatch(*s,id); for(auto&x:s->w) if(x.second.reg==r) x.second.reg=id; } if(s->f.count(r)){ for(int i=0;i<4;i++) s->p.assign(fDim(id,i),Lin::dim(fDim(r,i))); s->f.insert(id); } copyCells(*s,r,id); s->p.assign(d,R[r].size); s->cur[k]=id; } } focus.insert(d); }
    // the same byte followed under different copy numbers on the two sides
    auto align=[&](St&x,St&y){ for(auto&q:std::map<int,WC>(x.w)){ auto jt=y.w.find(q.first); if(jt!=y.w.end()&&jt->second.reg==q.second.reg) continue; for(auto&z:std::map<int,WC>(y.w)) if(z.first!=q.first&&z.first%100==q.first%100&&z.first>=10&&z.second.reg==q.second.reg&&!(x.w.count(z.first)&&x.w[z.first].reg==z.second.reg)){ y.p.assign(wOff(q.first),Lin::dim(wOff(z.first))); if(z.second.st==1) y.p.assign(wVal(q.first),Lin::dim(wVal(z.first))); else y.p.forget(wVal(q.first)); y.w[q.first]=z.second; if(wKey.count(z.first)) wKey[q.first]=wKey[z.first]; y.p.forget(wOff(z.first)); y.p.forget(wVal(z.first)); y.w.erase(z.first); break; } } };
    if(a.w!=b.w&&!a.w.empty()&&!b.w.empty()) align(a,b);
    for(auto it=a.w.begin();it!=a.w.end();){ auto jt=b.w.find(it->first); if(jt==b.w.end()||jt->second.reg!=it->second.reg){ a.p.forget(wOff(it->first)); a.p.forget(wVal(it->first)); it=a.w.erase(it); continue; } if(jt->second.st!=it->second.st){ a.p.forget(wVal(it->first)); b.p.forget(wVal(it->first)); it->second.st=jt->second.st=2; } else { focus.insert(wOff(it->first)); if(it->second.st==1) focus.insert(wVal(it->first)); } ++it; }
    // nothing is claimed about an empty range: the side without knowledge gets one, with the other side's bounds
    auto emptyFill=[&](St&x,const St&o,int r){ Lin e[4]; for(int i=0;i<4;i++){ int d=fDim(r,i); for(auto&q:o.p.eq){ I64 c=q.coef(d); if(c!=1&&c!=-1) continue; bool self=false; for(int j=0;j<4;j++) if(j!=i&&q.coef(fDim(r,j))) self=true; if(self) continue; Lin r0=q; r0=r0-Lin::dim(d)*c; e[i]=(c==1)?-r0:r0; break; } } for(int i=2;i<4;i++) if(e[i].isConst()&&e[i].c==0) for(int q:x.f) if(q!=r&&o.f.count(q)){ e[i]=Lin::dim(fDim(q,i)); break; } if(!x.p.entails(e[0]-e[1])) e[1]=e[0]; for(int i=0;i<4;i++) x.p.assign(fDim(r,i),e[i]); x.f.insert(r); };
    if(!a.f.empty()||!b.f.empty()){ for(int r:std::set<int>(a.f)) if(!b.f.count(r)) emptyFill(b,a,r); for(int r:std::set<int>(b.f)) if(!a.f.count(r)) emptyFill(a,b,r); } for(int r:a.f) for(int i=0;i<4;i++) focus.insert(fDim(r,i));
    for(auto it=b.w.begin();it!=b.w.end();) if(!a.w.count(it->first)) it=b.w.erase(it); else ++it;
    for(auto it=a.cells.begin();it!=a.cells.end();){ auto jt=b.cells.find(it->first); bool ok=jt!=b.cells.end()&&jt->second.w==it->second.w&&jt->second.ptr==it->second.ptr&&jt->second.reg==it->second.reg; if(!ok){ a.p.forget(dcell(it->first,0)); a.p.forget(dcell(it->first,1)); it=a.cells.erase(it);} else { focus.insert(dcell(it->first,it->second.ptr)); ++it; } }
    for(auto it=b.cells.begin();it!=b.cells.end();){ if(!a.cells.count(it->first)){ b.p.forget(dcell(it->first,0)); b.p.forget(dcell(it->first,1)); it=b.cells.erase(it);} else ++it; }
    for(auto&pr:a.preg){ auto jt=b.preg.find(pr.first); int rb=jt==b.preg.end()?UNK:jt->second; int ra=pr.second; if(ra==rb) continue; Value*v=pr.first; if(ra==UNK||rb==UNK){ pr.second=UNK; a.p.forget(doff(v)); b.p.forget(doff(v)); if(jt!=b.preg.end()) jt->second=UNK; continue; }
      int sd=dsz(v); for(auto*q:{std::make_pair(&a,ra).first,&b}){ int r=(q==&a)?ra:rb; if(r!=MIX){ if(R[r].sized) q->p.assign(sd,R[r].size); else q->p.forget(sd);} } pr.second=MIX; jt->second=MIX; focus.insert(sd); focus.insert(doff(v)); }
    for(auto&pr:b.preg) if(!a.preg.count(pr.first)){ a.preg[pr.first]=UNK; if(pr.second!=UNK){ b.p.forget(doff(pr.first)); pr.second=UNK; } }
  }
  Poly joinPoly(const Poly&A,const Poly&B,const std::set<int>&foc){ if(A.bot) return B; if(B.bot) return A; Poly r; for(auto&e:Poly::joinEq(A,B)) r.addEq(e);
    auto cand=[&](const Lin&l){ // l>=-m
      try{ Lin q=r.reduce(l); if(q.t.empty()) return; }catch(Overflow&){return;}
      Rat m1,m2; LPR x=A.minimize(l,m1); if(x==LPR::INFEASIBLE||x==LPR::UNBOUNDED||x==LPR::UNKNOWN) return; x=B.minimize(l,m2); if(x!=LPR::OK) return; I64 k=std::min(Poly::ceilR(m1),Poly::ceilR(m2)); try{ r.addIneq(l-k);}catch(Overflow&){} };
    auto bothSides=[&](const Poly&P,const Poly&Q){ for(auto&i:P.in){ if(Q.entails(i)) r.addIneq(i); else cand(i);} for(auto&e:P.eq){ try{ Lin q=r.reduce(e); if(q.t.empty()) continue; }catch(Overflow&){continue;} cand(e); cand(-e);} };
    bothSides(A,B); bothSides(B,A);
    auto subst=[&](const Poly&P,const Poly&Q){ std::vector<const Lin*> un; for(auto&e:P.eq){ try{ Lin q=r.reduce(e); if(!q.t.empty()&&e.t.size()<=4) un.push_back(&e);}catch(Overflow&){} } if(un.empty()||un.size()>8) return; int budget=60;
      for(auto&i:P.in){ if(i.t.size()<2||Q.entails(i)) continue; for(auto*e:un) for(auto&t:i.t){ I64 c=e->coef(t.first); if(!c) continue; if(--budget<0) return; try{ I64 g=gcd64(c,t.second); I64 ac=(c<0?-c:c)/g, k=(t.second/g)*(c<0?-1:1); Lin l=Lin::comb(i,ac,*e,-k); if(Q.entails(l)&&!r.entails(l)) r.addIneq(l);}catch(Overflow&){} }
        for(auto*e:un) if(e->t.size()==1) for(int k=-1;k<=1;k+=2){ if(i.coef(e->t[0].first)) continue; if(--budget<0) return; try{ Lin l=Lin::comb(i,1,*e,k); if(Q.entails(l)&&!r.entails(l)) r.addIneq(l);}catch(Overflow&){} } } };
    if(!getenv("NOSUB")){ subst(A,B); subst(B,A); }
    // difference templates over dims of interest
    std::set<int> all; A.dims(all); std::set<int> bs; B.dims(bs); std::vector<int> common; for(int d:all) if(bs.count(d)) common.push_back(d);
    std::vector<int> f; for(int d:common) if(foc.count(d)) f.push_back(d); if(f.size()>14){ for(int d:f){ cand(Lin::dim(d)); cand(-Lin::dim(d)); } std::stable_partition(f.begin(),f.end(),[&](int d){ return dimName[d].compare(0,4,"cell")!=0; }); f.resize(14); }
    for(int d:common) if(!foc.count(d)){ cand(Lin::dim(d)); cand(-Lin::dim(d)); }
    for(int d:common) if(focus2.count(d)&&!foc.count(d)) for(int e:common) if(e!=d&&isInput(e)){ cand(Lin::dim(d)-Lin::dim(e)); cand(Lin::dim(e)-Lin::dim(d)); }
    for(int d:f){ cand(Lin::dim(d)); cand(-Lin::dim(d)); for(int e:common) if(e!=d&&(!foc.count(e)||e>d)){ cand(Lin::dim(d)-Lin::dim(e)); cand(Lin::dim(e)-Lin::dim(d)); } }
    if(r.in.size()>4) r.reduceIneqs(); return r; }
  Poly widenPoly(const Poly&A,const Poly&N,const std::set<int>&foc){ // keep A's constraints that N satisfies, and A-implied templates N satisfies
    if(A.bot) return N; if(N.bot) return A; Poly r; for(auto&e:Poly::joinEq(A,N)) r.addEq(e); for(auto&i:A.in) if(N.entails(i)) r.addIneq(i); for(auto&e:A.eq){ if(N.entails(e)) r.addIneq(e); Lin n=-e; if(N.entails(n)) r.addIneq(n);} 
    std::vector<Lin> later; auto cand=[&](const Lin&l){ if(r.entails(l)){ } I64 k; if(!A.minI(l,k)) return; Lin c=l-k; if(r.entails(c)) return; if(N.entails(c)) r.addIneq(c); else if(k>0&&l.t.size()==2) later.push_back(l); };
    std::set<int> as; A.dims(as); std::vector<int> f; for(int d:as){ cand(Lin::dim(d)); cand(-Lin::dim(d)); if(foc.count(d)) f.push_back(d);} if(f.size()>14){ std::stable_partition(f.begin(),f.end(),[&](int d){ return dimName[d].compare(0,4,"cell")!=0; }); f.resize(14); }
    for(int d:as) if(focus2.count(d)&&!foc.count(d)) for(int e:as) if(e!=d&&isInput(e)){ cand(Lin::dim(d)-Lin::dim(e)); cand(Lin::dim(e)-Lin::dim(d)); }
    for(int d:f) for(int e:as) if(e!=d&&(!foc.count(e)||e>d)){ cand(Lin::dim(d)-Lin::dim(e)); cand(Lin::dim(e)-Lin::dim(d)); }
    for(int d:foc){ I64 k; if(r.maxI(Lin::dim(d),k)||!N.maxI(Lin::dim(d),k)) continue; for(I64 c:thresholds()) if(c>=k){ r.addIneq(-Lin::dim(d)+c); break; } }
    for(auto&l:later) if(!r.entails(l)&&N.entails(l)) r.addIneq(l);
    if(r.in.size()>4) r.reduceIneqs(); return r; }
  // constants the program compares against or measures objects by: candidate upper bounds for loop counters
  std::vector<I64> thr; bool thrDone=false;
  const std::vector<I64>& thresholds(){ if(thrDone) return thr; thrDone=true; std::set<I64> s; for(auto&I:instructions(F)){ if(auto*C=dyn_cast<ICmpInst>(&I)){ for(Value*o:C->operands()) if(auto*K=dyn_cast<ConstantInt>(o)) if(K->getBitWidth()<=64&&K->getValue().isSignedIntN(32)) s.insert(K->getSExtValue()); } else if(auto*A=dyn_cast<AllocaInst>(&I)){ if(!A->isArrayAllocation()&&(I64)DL.getTypeAllocSize(A->getAllocatedType())>64) s.insert((I64)DL.getTypeAllocSize(A->getAllocatedType())); } else if(auto*G=dyn_cast<GetElementPtrInst>(&I)){ APInt o(64,0); bool cmp=false; for(auto*U:G->users()) if(isa<ICmpInst>(U)) cmp=true; if(cmp&&G->accumulateConstantOffset(DL,o)&&o.isSignedIntN(32)) s.insert(o.getSExtValue()); } }
    std::vector<I64> v; for(I64 c:s) if(c>=8&&c<=1000000) v.push_back(c); while(v.size()>14) v.erase(v.begin()+v.size()/2); std::set<I64> t; for(I64 c:v){ t.insert(c-1); t.insert(c); } v.assign(t.begin(),t.end()); thr=v; return thr; }
  bool leq(const St&a,const St&b){ // a entails b
    if(a.p.bot) return true; if(b.p.bot) return false; for(auto&e:b.p.eq) if(!a.p.entailsEq(e)) return false; for(auto&i:b.p.in) if(!a.p.entails(i)) return false; return true; }
  // join src into dst ; returns changed
  bool joinInto(St&dst,St src,BasicBlock*B,bool widen){ if(src.p.bot) return false; focus.clear(); for(auto&ph:B->phis()){ if(ph.getType()->isPointerTy()) focus.insert(doff(&ph)); else if(isIntV(&ph)) focus.insert(di(&ph)); }
    setFocus2(B);
    St d=dst; unify(d,src,B); Poly j=joinPoly(d.p,src.p,focus); dimDropped=j.eq.size()<d.p.eq.size(); if(widen&&!dimDropped){ j=widenPoly(d.p,j,focus);} 
    if(getenv("WDBG")){ errs()<<"JOIN "<<(widen?"W":"")<<" "<<B->getName()<<" "<<(B->phis().empty()?std::string(""):vname(&*B->phis().begin()))<<"\n"; errs()<<"D:\n"; dump(d); errs()<<"S:\n"; dump(src); St x=d; x.p=j; errs()<<"R:\n"; dump(x);}
    St nd=d; nd.p=j; // changed?
    bool same=leq(nd,d)&&d.preg==dst.preg&&d.cur==dst.cur&&sameCells(d,dst)&&leq(d,dst); if(same) return false; dst=nd; return true; }
  bool dimDropped=false;
  std::set<int> focus2; BasicBlock*focus2B=nullptr;
  // header phis of the enclosing loops: their distance to the inputs of the driver is tracked through inner joins
  void setFocus2(BasicBlock*B){ focus2.clear(); for(Loop*L=LI.getLoopFor(B);L;L=L->getParentLoop()){ if(L->getHeader()==B) continue; for(auto&ph:L->getHeader()->phis()){ if(ph.getType()->isPointerTy()) focus2.insert(doff(&ph)); else if(isIntV(&ph)&&!ph.getType()->isIntegerTy(1)) focus2.insert(di(&ph)); } if(focus2.size()>12) break; } }
  bool isInput(int d){ if(dimValSeen!=dimId.size()) refreshDims(); auto it=dimVal.find(d); if(it==dimVal.end()) return d>=0&&dimName[d].compare(0,5,"size#")==0; auto*I=dyn_cast<Instruction>(it->second.second); return I&&isa<CallBase>(I)&&!LI.getLoopFor(I->getParent()); }
  static bool sameCells(const St&a,const St&b){ if(a.cells.size()!=b.cells.size()||!(a.w==b.w)||a.f!=b.f) return false; for(auto&c:a.cells){ auto it=b.cells.find(c.first); if(it==b.cells.end()||it->second.w!=c.second.w||it->second.reg!=c.second.reg) return false; } return true; }
  // ---- liveness
  void expand(Value*v,std::set<Value*>&s){ if(!isa<Instruction>(v)&&!isa<Argument>(v)) return; if(!s.insert(v).second) return; auto*I=dyn_cast<Instruction>(v); if(!I) return; bool thru=isa<ICmpInst>(I)||isa<PtrToIntInst>(I)||(I->getType()->isIntegerTy(1)&&(isa<BinaryOperator>(I)||isa<SelectInst>(I)||isa<FreezeInst>(I)||isa<CastInst>(I)))||isa<TruncInst>(I)||(isa<ZExtInst>(I)&&I->getOperand(0)->getType()->isIntegerTy(1)); if(thru) for(auto&o:I->operands()) expand(o,s); }
  void liveness(){ std::map<BasicBlock*,std::set<Value*>> use; bool ch=true; for(auto&B:F){ live[&B]; }
    std::map<BasicBlock*,std::set<Value*>> hdr; for(auto&B:F) for(Loop*L=LI.getLoopFor(&B);L;L=L->getParentLoop()) for(auto&ph:L->getHeader()->phis()) if(ph.getType()->isPointerTy()||isIntV(&ph)) hdr[&B].insert(&ph);
    while(ch){ ch=false; for(auto*B:post_order(&F.getEntryBlock())){ std::set<Value*> L; for(auto*S:successors(B)){ for(auto*v:live[S]) if(!(isa<PHINode>(v)&&cast<PHINode>(v)->getParent()==S)) L.insert(v); for(auto&ph:S->phis()){ Value*x=ph.getIncomingValueForBlock(B); expand(x,L);} }
        for(auto it=B->rbegin();it!=B->rend();++it){ Instruction*I=&*it; if(!isa<PHINode>(I)){ L.erase(I); for(auto&o:I->operands()) expand(o,L);} }
        for(auto*v:hdr[B]) L.insert(v);
        // values defined in this block (non-phi) that were re-added by expansion are fine
        if(L!=live[B]){ live[B]=L; ch=true; } } } }
  // ---- assume
  bool nonNullReg(int r){ return r!=UNK&&r!=NUL&&r!=MIX; }
  void assumeCmp(St&s,ICmpInst::Predicate P,Lin a,Lin b){ if(s.p.bot) return; switch(P){
    case ICmpInst::ICMP_EQ: s.p.meetEq(a-b); break;
    case ICmpInst::ICMP_NE: if(s.p.entailsEq(a-b)) s.p.setBot(); else if(s.p.entails(b-a)) s.p.meet(b-a-1); else if(s.p.entails(a-b)) s.p.meet(a-b-1); break;
    case ICmpInst::ICMP_SLT: s.p.meet(b-a-1); break; case ICmpInst::ICMP_SLE: s.p.meet(b-a); break; case ICmpInst::ICMP_SGT: s.p.meet(a-b-1); break; case ICmpInst::ICMP_SGE: s.p.meet(a-b); break;
    case ICmpInst::ICMP_ULT: case ICmpInst::ICMP_ULE: { I64 k=P==ICmpInst::ICMP_ULT?1:0; bool bp=s.p.entails(b), ap=s.p.entails(a); if(bp){ s.p.meet(a); s.p.meet(b-a-k);} else if(!bp&&s.p.entails(-b-1)){ if(ap){} else if(s.p.entails(-a-1)) s.p.meet(b-a-k); } break; }
    case ICmpInst::ICMP_UGT: assumeCmp(s,ICmpInst::ICMP_ULT,b,a); break; case ICmpInst::ICMP_UGE: assumeCmp(s,ICmpInst::ICMP_ULE,b,a); break; default: break; } }
  void assume(St&s,Value*c,bool t,const Key&k,int depth=0){ if(s.p.bot||depth>12) return; int kv=keyGet(k,c); if(kv>=0){ if((kv!=0)!=t){ s.p.setBot(); return; } }
    if(auto*ci=dyn_cast<ConstantInt>(c)){ if(ci->isZero()==t) s.p.setBot(); return; }
    if(isa<Instruction>(c)) for(auto*U:c->users()) if(isa<ZExtInst>(U)){ s.p.meetEq(Lin::dim(di(U))-(t?1:0)); if(s.p.bot) return; }
    if(auto*ic=dyn_cast<ICmpInst>(c)){ Value*A=ic->getOperand(0),*B=ic->getOperand(1); auto P=t?ic->getPredicate():ic->getInversePredicate();
      if(A->getType()->isPointerTy()){ PV a=evalP(s,A),b=evalP(s,B); if(a.reg==b.reg&&a.reg!=UNK&&a.reg!=MIX){ auto Q=P; if(P==ICmpInst::ICMP_ULT)Q=ICmpInst::ICMP_SLT; else if(P==ICmpInst::ICMP_ULE)Q=ICmpInst::ICMP_SLE; else if(P==ICmpInst::ICMP_UGT)Q=ICmpInst::ICMP_SGT; else if(P==ICmpInst::ICMP_UGE)Q=ICmpInst::ICMP_SGE; assumeCmp(s,Q,a.off,b.off);} else if((a.reg==NUL&&nonNullReg(b.reg))||(b.reg==NUL&&nonNullReg(a.reg))){ if(P==ICmpInst::ICMP_EQ) s.p.setBot(); } return; }
      if(!isIntV(A)) return; 
      if(A->getType()->isIntegerTy(1)){ if(auto*cb=dyn_cast<ConstantInt>(B)){ bool v=!cb->isZero(); if(P==ICmpInst::ICMP_EQ) assume(s,A,v,k,depth+1); else if(P==ICmpInst::ICMP_NE) assume(s,A,!v,k,depth+1);} return; }
      // difference of pointers compared with zero etc. is handled through the linear value
      Lin a=evalI(s,A),b=evalI(s,B); assumeCmp(s,P,a,b);
      // bool round trip: icmp ne (zext i1 x),0
      if(auto*xc=dyn_cast<IntrinsicInst>(A)) if(xc->getIntrinsicID()==Intrinsic::expect) A=xc->getArgOperand(0);
      if(auto*z=dyn_cast<ZExtInst>(A)) if(z->getOperand(0)->getType()->isIntegerTy(1)) if(auto*cb=dyn_cast<ConstantInt>(B)) if(cb->isZero()){ if(P==ICmpInst::ICMP_NE) assume(s,z->getOperand(0),true,k,depth+1); else if(P==ICmpInst::ICMP_EQ) assume(s,z->getOperand(0),false,k,depth+1);} 
      return; }
    if(auto*bo=dyn_cast<BinaryOperator>(c)){ Value*x=bo->getOperand(0),*y=bo->getOperand(1); switch(bo->getOpcode()){
      case Instruction::And: case Instruction::Or: { bool conj=(bo->getOpcode()==Instruction::And)==t; if(conj){ assume(s,x,t,k,depth+1); assume(s,y,t,k,depth+1);} else disj(s,x,y,t,k,depth,bo); return; }
      case Instruction::Xor: if(auto*ci=dyn_cast<ConstantInt>(y)){ assume(s,x,ci->isZero()?t:!t,k,depth+1);} return; default: return; } }
    if(auto*se=dyn_cast<SelectInst>(c)){ Value*q=se->getCondition(),*x=se->getTrueValue(),*y=se->getFalseValue(); // logical and/or
      St a=s,b=s; assume(a,q,true,k,depth+1); assume(a,x,t,k,depth+1); assume(b,q,false,k,depth+1); assume(b,y,t,k,depth+1); if(a.p.bot) s=b; else if(b.p.bot) s=a; else { s.p=joinPoly(a.p,b.p,{});} return; }
    if(auto*tr=dyn_cast<TruncInst>(c)){ Lin x=evalI(s,tr->getOperand(0)); if(s.p.entails(x)&&s.p.entails(Lin(1)-x)) s.p.meetEq(x-(t?1:0)); if(auto*z=dyn_cast<ZExtInst>(tr->getOperand(0))) if(z->getOperand(0)->getType()->isIntegerTy(1)) assume(s,z->getOperand(0),t,k,depth+1); return; }
    if(auto*fr=dyn_cast<FreezeInst>(c)){ assume(s,fr->getOperand(0),t,k,depth+1); return; }
    { auto g=ghostOf.find(c); if(g!=ghostOf.end()){ if(t) s.p.meetEq(Lin::dim(g->second)); else s.p.meet(Lin::dim(g->second)-1); return; } }
    if(isa<PHINode>(c)||isa<CallBase>(c)||isa<LoadInst>(c)||isa<ExtractValueInst>(c)){ // opaque boolean, tracked numerically
      s.p.meetEq(Lin::dim(di(c))-(t?1:0)); }
  }
  void disj(St&s,Value*x,Value*y,bool t,const Key&k,int depth,Instruction*){ St a=s,b=s; assume(a,x,t,k,depth+1); assume(b,y,t,k,depth+1); if(a.p.bot) s=b; else if(b.p.bot) s=a; else s.p=joinPoly(a.p,b.p,{}); }
  int decide(St&s,Value*c,const Key&k){ if(auto*ci=dyn_cast<ConstantInt>(c)) return ci->isZero()?0:1; int kv=keyGet(k,c); if(kv>=0) return kv; St a=s; assume(a,c,true,k); if(a.p.bot) return 0; St b=s; assume(b,c,false,k); if(b.p.bot) return 1; return -1; }
  #include "transfer.inc"
};

// ---------------------------------------------------------------- main
static std::string js(const std::string&s){ std::string r="\""; for(char c:s){ if(c=='"'||c=='\\'){r+='\\';r+=c;} else if((unsigned char)c<32){ char b[8]; snprintf(b,8,"\\u%04x",c); r+=b;} else r+=c; } return r+"\""; }
static std::string runOne(Function&F,double lim,bool loops){ std::ostringstream o; An A(F); A.tLimit=lim; std::string status="ok"; try{ A.solve(); if(loops) A.checkLoops(); }catch(An::Timeout&){ status="timeout"; }catch(Overflow&){ status="overflow"; }
  o<<"{\"driver\":"<<js(F.getName().str())<<",\"status\":"<<js(status)<<",\"ended\":"<<(A.ended?"true":"false")<<",\"blocks\":"<<F.size()<<",\"reached\":"<<A.reached.size()<<",\"insts\":"<<F.getInstructionCount()<<",\"accesses\":"<<A.nAcc<<",\"trivial\":"<<A.nTrivial<<",\"untracked\":"<<A.nUntracked<<",\"calls\":"<<A.nCalls<<",\"visits\":"<<A.nVisits<<",\"secs\":"<<std::chrono::duration<double>(std::chrono::steady_clock::now()-A.t0).count(); { std::set<std::string> fn; for(auto&I:instructions(F)) for(const DILocation*L=I.getDebugLoc().get();L;L=L->getInlinedAt()) if(auto*SP=L->getScope()->getSubprogram()) if(StringRef(SP->getFilename()).ends_with("strtk.hpp")) fn.insert((SP->getName()+":"+std::to_string(SP->getLine())).str());
    o<<",\"funcs\":["; bool g=true; for(auto&x:fn){ o<<(g?"":",")<<js(x); g=false; } o<<"]"; }
  o<<",\"obl\":[";
  bool f=true; auto emit=[&](const Obl&b,const std::string&id){ o<<(f?"":",")<<"{\"kind\":"<<js(b.kind)<<",\"id\":"<<js(id)<<",\"file\":"<<js(b.file)<<",\"line\":"<<b.line<<",\"func\":"<<js(b.func)<<",\"ok\":"<<(b.ok?"true":"false")<<",\"n\":"<<b.n<<",\"msg\":"<<js(b.msg)<<",\"chain\":"<<js(b.chain)<<"}"; f=false; };
  for(auto&x:A.obls) emit(x.second,""); for(auto&x:A.rel) emit(x.second,x.first); { std::map<std::string,Obl> okr; for(auto&B:F) for(auto&I:B) if(auto*C=dyn_cast<CallBase>(&I)) if(C->getCalledFunction()&&C->getCalledFunction()->getName()=="vp_fail"){ std::string id="?"; if(auto*ci=dyn_cast<ConstantInt>(C->getArgOperand(0))) id=std::to_string(ci->getSExtValue()); if(A.rel.count(id)) continue; std::string ff,fn,ch; int ln; A.where(C,ff,ln,fn,ch); auto it=okr.find(id); if(it==okr.end()) okr[id]=Obl{"relation",ff,fn,"",ch,ln,true,1}; else it->second.n++; } for(auto&x:okr) emit(x.second,x.first); } o<<"],\"loops\":["; f=true; for(auto&l:A.loopRes){ o<<(f?"":",")<<"{\"file\":"<<js(l.file)<<",\"line\":"<<l.line<<",\"func\":"<<js(l.func)<<",\"ok\":"<<(l.ok?"true":"false")<<",\"rank\":"<<js(l.rank)<<",\"chain\":"<<js(l.chain)<<"}"; f=false; } o<<"],\"opaque\":["; f=true; for(auto&u:A.unkCalls){ o<<(f?"":",")<<js(u); f=false; } o<<"]}"; return o.str(); }
static std::string only; static bool isOnly(const std::string&n){ if(only[0]=='/'){ static Regex rx("^drv_("+only.substr(1)+")$"); return rx.match(n); } return (","+only+",").find(","+n+",")!=std::string::npos; }
int main(int ac,char**av){ std::string file; bool dumpir=false,loops=true; int jobs=8; double lim=120; for(int i=1;i<ac;i++){ std::string a=av[i]; if(a=="-d") DBG=true; else if(a=="-ir") dumpir=true; else if(a=="-j") jobs=atoi(av[++i]); else if(a=="-t") lim=atof(av[++i]); else if(a=="-f") only=av[++i]; else if(a=="-noloops") loops=false; else file=a; }
  LLVMContext Ctx; SMDiagnostic Err; auto M=parseIRFile(file,Err,Ctx); if(!M){ Err.print("absint",errs()); return 3; } prepare(*M,false); if(dumpir){ for(auto&F:*M) if(!F.isDeclaration()&&(only.empty()||isOnly(F.getName().str()))) F.print(errs()); }
  std::vector<Function*> fs; for(auto&F:*M) if(!F.isDeclaration()&&F.getName().starts_with("drv_")&&(only.empty()||isOnly(F.getName().str()))) fs.push_back(&F); if(fs.empty()){ errs()<<"absint: no drivers\n"; return 3; }
  if(jobs<=1||fs.size()==1){ for(auto*F:fs) std::cout<<runOne(*F,lim,loops)<<std::endl; return 0; }
  // simple process pool
  size_t next=0; std::map<pid_t,std::pair<int,Function*>> run; std::map<int,std::string> buf; auto reap=[&](){ int st; pid_t p=wait(&st); if(p<0) return; auto it=run.find(p); if(it==run.end()) return; std::string out; char b[65536]; ssize_t n; lseek(it->second.first,0,SEEK_SET); while((n=read(it->second.first,b,sizeof b))>0) out.append(b,n); close(it->second.first); if(out.empty()||!WIFEXITED(st)||WEXITSTATUS(st)) std::cout<<"{\"driver\":"<<js(it->second.second->getName().str())<<",\"status\":\"crash\",\"obl\":[],\"loops\":[]}"<<std::endl; else std::cout<<out<<std::endl; run.erase(it); };
  while(next<fs.size()||!run.empty()){ while(next<fs.size()&&(int)run.size()<jobs){ char t[]="/tmp/absintXXXXXX"; int fd=mkstemp(t); unlink(t); std::cout.flush(); pid_t p=fork(); if(p==0){ std::string r=runOne(*fs[next],lim,loops); size_t o=0; while(o<r.size()){ ssize_t k=write(fd,r.data()+o,r.size()-o); if(k<=0) _exit(2); o+=k;} _exit(0);} run[p]={fd,fs[next]}; next++; } reap(); }
  return 0; }
