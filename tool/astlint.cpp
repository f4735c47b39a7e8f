// astlint: rules over the type-checked program of a translation unit, restricted to declarations in strtk.hpp.
//  init      every constructor of a class gives each scalar member a value
//  copy      every copy constructor / copy assignment takes over each member of its source (or the class cannot be copied)
//  owner     a class whose destructor releases memory held by one of its members is not copied member by member
//  index     no table is indexed, and no ctype function called, with a possibly negative character
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/ParentMapContext.h"
#include "clang/Analysis/CFG.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/Tooling.h"
#include <set>
#include <map>
#include <cstdio>
#include <string>
using namespace clang;
static std::string esc(const std::string&s){ std::string o; for(char c:s){ if(c=='"'||c=='\\'){ o+='\\'; o+=c; } else if((unsigned char)c<32) o+=' '; else o+=c; } return o; }
struct V : RecursiveASTVisitor<V> {
  ASTContext&C; SourceManager&SM; std::set<std::string> seen; std::set<std::string> rules;
  V(ASTContext&c):C(c),SM(c.getSourceManager()){}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool inLib(SourceLocation l){ l=SM.getExpansionLoc(l); if(l.isInvalid()) return false; StringRef f=SM.getFilename(l); return f.ends_with("strtk.hpp"); }
  unsigned line(SourceLocation l){ return SM.getExpansionLineNumber(SM.getExpansionLoc(l)); }
  void out(const char*rule,SourceLocation l,const std::string&who,const std::string&inst,bool ok,const std::string&msg){ std::string j="{\"rule\":\""+std::string(rule)+"\",\"file\":\"strtk.hpp\",\"line\":"+std::to_string(line(l))+",\"func\":\""+esc(who)+"\",\"inst\":\""+esc(inst)+"\",\"ok\":"+(ok?"true":"false")+",\"msg\":\""+esc(msg)+"\"}"; if(seen.insert(j).second) puts(j.c_str()); }
  // ---- what a body does to the members of *this
  const CXXRecordDecl*cur=nullptr; const FieldDecl* byName(DeclarationName n){ if(cur) for(auto*f:cur->fields()) if(f->getDeclName()==n) return f->getCanonicalDecl(); return nullptr; }
  struct Uses { std::set<const FieldDecl*> written, other, deleted; std::set<const CXXMethodDecl*> calls; bool whole=false, accessor=false; };
  const FieldDecl* canonF(const FieldDecl*f){ return f->getCanonicalDecl(); }
  static const Expr* strip(const Expr*e){ for(;;){ const Expr*f=e->IgnoreParenImpCasts(); if(auto*c=dyn_cast<ExplicitCastExpr>(f)) f=c->getSubExpr(); else if(auto*u=dyn_cast<UnaryOperator>(f)){ if(u->getOpcode()==UO_AddrOf||u->getOpcode()==UO_Deref) f=u->getSubExpr(); } else if(auto*a=dyn_cast<ArraySubscriptExpr>(f)) f=a->getBase(); if(f==e) return e; e=f; } }
  // member of this (base this) / of another object
  const FieldDecl* fieldOfThis(const Expr*e){ e=strip(e); if(auto*m=dyn_cast<MemberExpr>(e)) if(auto*f=dyn_cast<FieldDecl>(m->getMemberDecl())){ const Expr*b=m->getBase()->IgnoreParenImpCasts(); if(isa<CXXThisExpr>(b)) return canonF(f); if(auto*mm=dyn_cast<MemberExpr>(b)) return fieldOfThis(mm); } if(auto*d=dyn_cast<CXXDependentScopeMemberExpr>(e)) { if(d->isImplicitAccess()) return byName(d->getMember()); const Expr*b=d->getBase()->IgnoreParenImpCasts(); if(isa<CXXThisExpr>(b)) return byName(d->getMember()); return fieldOfThis(b); } return nullptr; }
  static bool isThisObj(const Expr*e){ e=e->IgnoreParenImpCasts(); if(auto*u=dyn_cast<UnaryOperator>(e)) if(u->getOpcode()==UO_Deref) return isa<CXXThisExpr>(u->getSubExpr()->IgnoreParenImpCasts()); return false; }
  // a call of a member on this object that is given the source: look at what it takes from there
  std::set<const FunctionDecl*> onStack;
  bool followed(const CallExpr*c,const ParmVarDecl*src,Uses&u){ const CXXMethodDecl*md=nullptr;
    if(auto*m=dyn_cast<CXXMemberCallExpr>(c)){ auto*ob=m->getImplicitObjectArgument(); if(!ob||!(isa<CXXThisExpr>(ob->IgnoreParenImpCasts())||isThisObj(ob))) return false; md=m->getMethodDecl(); }
    else if(auto*m=dyn_cast<MemberExpr>(c->getCallee()->IgnoreParenImpCasts())) { if(isa<CXXThisExpr>(m->getBase()->IgnoreParenImpCasts())) md=dyn_cast<CXXMethodDecl>(m->getMemberDecl()); }
    else if(auto*o=dyn_cast<CXXOperatorCallExpr>(c)){ if(o->getNumArgs()==2&&isThisObj(o->getArg(0))&&refersTo(o->getArg(1),src)) md=dyn_cast_or_null<CXXMethodDecl>(o->getDirectCallee()); if(!md) return false; const FunctionDecl*d=nullptr; if(!md->hasBody(d)||d->getNumParams()!=1||!onStack.insert(d).second) return false; scan(d->getBody(),u,d->getParamDecl(0)); onStack.erase(d); return true; }
    if(!md) return false; const FunctionDecl*d=nullptr; if(!md->hasBody(d)||!onStack.insert(d).second) return false; bool ok=false; for(unsigned i=0;i<c->getNumArgs()&&i<d->getNumParams();i++) if(refersTo(c->getArg(i),src)&&d->getParamDecl(i)->getType()->isReferenceType()){ scan(d->getBody(),u,d->getParamDecl(i)); ok=true; } onStack.erase(d); return ok; }
  // members given a value on every path through a body
  std::map<const FunctionDecl*,std::set<const FieldDecl*>> mustMemo;
  std::set<const FieldDecl*> mustWrite(const FunctionDecl*d,bool&whole,std::set<const FieldDecl*> start={}){ auto it=mustMemo.find(d); if(it!=mustMemo.end()) return it->second; mustMemo[d]={}; 
    Uses all; scan(d->getBody(),all,nullptr); std::set<const CXXMethodDecl*> done; closure(all,done); if(all.whole) whole=true;
    CFG::BuildOptions bo; std::unique_ptr<CFG> g; g=CFG::buildCFG(d,d->getBody(),&C,bo); if(!g){ return mustMemo[d]=all.written; }
    auto own=[&](const Stmt*s){ Uses u; scanCalls(s,u); std::set<const FieldDecl*> r=u.written; for(auto*m:u.calls){ const FunctionDecl*q=nullptr; if(m->hasBody(q)){ bool w=false; auto x=mustWrite(q,w); if(w) whole=true; r.insert(x.begin(),x.end()); } } return r; };
    unsigned N=g->getNumBlockIDs(); std::vector<int> top(N,1); std::vector<std::set<const FieldDecl*>> in(N),gen(N);
    for(auto*b:*g){ for(auto&e:*b) if(auto cs=e.getAs<CFGStmt>()){ auto x=own(cs->getStmt()); gen[b->getBlockID()].insert(x.begin(),x.end()); } }
    // loops whose body runs over a whole table are taken to run
    top[g->getEntry().getBlockID()]=0; bool ch=true; while(ch){ ch=false; for(auto*b:*g){ unsigned i=b->getBlockID(); if(top[i]) continue; auto o=in[i]; o.insert(gen[i].begin(),gen[i].end()); int skip=selfEdge(b), si=-1; for(auto s:b->succs()){ si++; const CFGBlock*t=s.getReachableBlock(); if(!t||si==skip) continue; unsigned j=t->getBlockID(); if(top[j]){ top[j]=0; in[j]=o; ch=true; } else { std::set<const FieldDecl*> k; for(auto*f:in[j]) if(o.count(f)) k.insert(f); if(k.size()!=in[j].size()){ in[j]=k; ch=true; } } } } }
    unsigned x=g->getExit().getBlockID(); if(top[x]) return mustMemo[d]=all.written; return mustMemo[d]=in[x]; }
  // the successor taken only when the argument is the object itself (this == &other)
  static int selfEdge(const CFGBlock*b){ if(b->succ_size()!=2) return -1; const Stmt*c=b->getTerminatorCondition(); auto*e=dyn_cast_or_null<Expr>(c); if(!e) return -1; e=e->IgnoreParenImpCasts(); bool neg=false; while(auto*u=dyn_cast<UnaryOperator>(e)){ if(u->getOpcode()!=UO_LNot) return -1; neg=!neg; e=u->getSubExpr()->IgnoreParenImpCasts(); }
    auto*o=dyn_cast<BinaryOperator>(e); if(!o||!o->isEqualityOp()) return -1; const Expr*l=o->getLHS()->IgnoreParenImpCasts(),*r=o->getRHS()->IgnoreParenImpCasts(); if(!isa<CXXThisExpr>(l)) std::swap(l,r); if(!isa<CXXThisExpr>(l)) return -1; auto*u=dyn_cast<UnaryOperator>(r); if(!u||u->getOpcode()!=UO_AddrOf) return -1; bool eq=(o->getOpcode()==BO_EQ)!=neg; return eq?0:1; }
  void scanCalls(const Stmt*s,Uses&u){ scan(s,u,nullptr); }
  void scan(const Stmt*s,Uses&u,const ParmVarDecl*src){ if(!s) return;
    if(auto*b=dyn_cast<BinaryOperator>(s)) if(b->isAssignmentOp()) { if(auto*f=fieldOfThis(b->getLHS())) u.written.insert(f); }
    if(auto*o=dyn_cast<CXXOperatorCallExpr>(s)) if(o->getNumArgs()>0) if(auto*f=fieldOfThis(o->getArg(0))) u.written.insert(f);
    if(auto*un=dyn_cast<UnaryOperator>(s)) if(un->isIncrementDecrementOp()) if(auto*f=fieldOfThis(un->getSubExpr())) u.written.insert(f);
    if(auto*c=dyn_cast<CXXMemberCallExpr>(s)){ const Expr*ob=c->getImplicitObjectArgument(); if(ob){ ob=ob->IgnoreParenImpCasts(); if(isa<CXXThisExpr>(ob)){ if(auto*m=c->getMethodDecl()) u.calls.insert(m->getCanonicalDecl()); } else if(auto*f=fieldOfThis(ob)) u.written.insert(f); } }
    if(auto*c=dyn_cast<CallExpr>(s)){ for(auto*a:c->arguments()){ if(auto*f=fieldOfThis(a)) u.written.insert(f); if(src&&refersTo(a,src)&&!followed(c,src,u)) u.whole=true; if(isa<CXXThisExpr>(a->IgnoreParenImpCasts())) u.whole=u.whole||(src==nullptr); }
      // unresolved member call this->f(...) in a template
      if(auto*m=dyn_cast<UnresolvedMemberExpr>(c->getCallee()->IgnoreParenImpCasts())) for(auto*d:m->decls()) if(auto*ft=dyn_cast<FunctionTemplateDecl>(d->getUnderlyingDecl())){ if(auto*md=dyn_cast<CXXMethodDecl>(ft->getTemplatedDecl())) u.calls.insert(md); } else if(auto*md=dyn_cast<CXXMethodDecl>(d->getUnderlyingDecl())) u.calls.insert(md);
      if(auto*m=dyn_cast<MemberExpr>(c->getCallee()->IgnoreParenImpCasts())) if(auto*md=dyn_cast<CXXMethodDecl>(m->getMemberDecl())) if(isa<CXXThisExpr>(m->getBase()->IgnoreParenImpCasts())) u.calls.insert(md->getCanonicalDecl()); }
    if(src) if(auto*c=dyn_cast<CXXConstructExpr>(s)) for(auto*a:c->arguments()) if(refersTo(a,src)) u.whole=true;
    if(src) if(auto*c=dyn_cast<CXXUnresolvedConstructExpr>(s)) for(auto*a:c->arguments()) if(refersTo(a,src)) u.whole=true;
    if(src) if(auto*c=dyn_cast<ParenListExpr>(s)) for(unsigned i=0;i<c->getNumExprs();i++) if(refersTo(c->getExpr(i),src)) u.whole=true;
    if(auto*ds=dyn_cast<DeclStmt>(s)) for(auto*D:ds->decls()) if(auto*v=dyn_cast<VarDecl>(D)) if(v->getInit()){ if(src&&v->getType()->isReferenceType()&&refersTo(v->getInit(),src)) u.whole=true; if(v->getType()->isReferenceType()&&!v->getType().getNonReferenceType().isConstQualified()) if(auto*f=fieldOfThis(v->getInit())) u.written.insert(f); }
    if(auto*un=dyn_cast<UnaryOperator>(s)) if(un->getOpcode()==UO_AddrOf) if(auto*f=fieldOfThis(un->getSubExpr())) u.written.insert(f);
    if(auto*b=dyn_cast<BinaryOperator>(s)) if(b->isAssignmentOp()&&isThisObj(b->getLHS())) u.whole=true;
    if(auto*o=dyn_cast<CXXOperatorCallExpr>(s)) if(o->getNumArgs()>0&&o->isAssignmentOp()&&isThisObj(o->getArg(0))) u.whole=true;
    if(auto*d=dyn_cast<CXXDeleteExpr>(s)) if(auto*f=fieldOfThis(d->getArgument())) u.deleted.insert(f);
    if(auto*p=dyn_cast<UnresolvedLookupExpr>(s)) (void)p;
    if(src) if(auto*m=dyn_cast<MemberExpr>(s)) if(auto*f=dyn_cast<FieldDecl>(m->getMemberDecl())) if(refersTo(m->getBase(),src)) u.other.insert(canonF(f));
    if(src) if(auto*m=dyn_cast<CXXDependentScopeMemberExpr>(s)) if(!m->isImplicitAccess()&&refersTo(m->getBase(),src)){ if(auto*f=byName(m->getMember())) u.other.insert(f); else u.accessor=true; }
    if(src) if(auto*m=dyn_cast<CXXMemberCallExpr>(s)) if(auto*ob=m->getImplicitObjectArgument()) if(refersTo(ob,src)){ // accessor of the source
        if(auto*md=m->getMethodDecl()) { Uses q; const FunctionDecl*df=nullptr; if(md->hasBody(df)) readsOf(df->getBody(),u.other); else u.whole=true; } }
    for(auto*c:s->children()) scan(c,u,src); }
  void readsOf(const Stmt*s,std::set<const FieldDecl*>&r){ if(!s) return; if(auto*m=dyn_cast<MemberExpr>(s)) if(auto*f=dyn_cast<FieldDecl>(m->getMemberDecl())) r.insert(canonF(f)); for(auto*c:s->children()) readsOf(c,r); }
  void callsOf(const Stmt*s,Uses&u){ if(auto*c=dyn_cast<CXXMemberCallExpr>(s)) if(auto*ob=c->getImplicitObjectArgument()) if(isa<CXXThisExpr>(ob->IgnoreParenImpCasts())) if(auto*m=c->getMethodDecl()) u.calls.insert(m->getCanonicalDecl());
    if(auto*o=dyn_cast<CXXOperatorCallExpr>(s)) if(o->getNumArgs()>0){ const Expr*b=o->getArg(0)->IgnoreParenImpCasts(); if(auto*u2=dyn_cast<UnaryOperator>(b)) if(u2->getOpcode()==UO_Deref) b=u2->getSubExpr()->IgnoreParenImpCasts(); if(isa<CXXThisExpr>(b)) if(auto*m=dyn_cast_or_null<CXXMethodDecl>(o->getDirectCallee())) u.calls.insert(m->getCanonicalDecl()); }
    if(auto*c=dyn_cast<CallExpr>(s)){ if(auto*m=dyn_cast<UnresolvedMemberExpr>(c->getCallee()->IgnoreParenImpCasts())) for(auto*d:m->decls()) if(auto*ft=dyn_cast<FunctionTemplateDecl>(d->getUnderlyingDecl())){ if(auto*md=dyn_cast<CXXMethodDecl>(ft->getTemplatedDecl())) u.calls.insert(md); } else if(auto*md=dyn_cast<CXXMethodDecl>(d->getUnderlyingDecl())) u.calls.insert(md);
      if(auto*m=dyn_cast<MemberExpr>(c->getCallee()->IgnoreParenImpCasts())) if(auto*md=dyn_cast<CXXMethodDecl>(m->getMemberDecl())) if(isa<CXXThisExpr>(m->getBase()->IgnoreParenImpCasts())) u.calls.insert(md->getCanonicalDecl()); } }
  // a pointer computed from one of the object's own array or class members
  bool pointsIntoThis(const Stmt*s,const FieldDecl*self){ if(!s) return false; if(auto*n=dyn_cast<CXXNewExpr>(s)){ for(unsigned i=0;i<n->getNumPlacementArgs();i++) if(pointsIntoThis(n->getPlacementArg(i),self)) return true; return false; } if(auto*m=dyn_cast<MemberExpr>(s)) if(auto*f=dyn_cast<FieldDecl>(m->getMemberDecl())) if(isa<CXXThisExpr>(m->getBase()->IgnoreParenImpCasts())&&f->getCanonicalDecl()!=self&&(f->getType()->isArrayType()||f->getType()->isRecordType())) return true; if(auto*c=dyn_cast<ConditionalOperator>(s)) return pointsIntoThis(c->getTrueExpr(),self)||pointsIntoThis(c->getFalseExpr(),self); for(auto*c:s->children()) if(pointsIntoThis(c,self)) return true; return false; }
  bool refersTo(const Expr*e,const ParmVarDecl*p){ e=e->IgnoreParenImpCasts(); if(auto*d=dyn_cast<DeclRefExpr>(e)) return d->getDecl()->getCanonicalDecl()==p->getCanonicalDecl(); return false; }
  void closure(Uses&u,std::set<const CXXMethodDecl*>&done,const ParmVarDecl*src=nullptr){ bool ch=true; while(ch){ ch=false; for(auto*m:std::set<const CXXMethodDecl*>(u.calls)) if(done.insert(m).second){ ch=true; const FunctionDecl*d=nullptr; if(m->hasBody(d)){ const ParmVarDecl*ps=nullptr; (void)src; scan(d->getBody(),u,ps); } } } }
  static bool scalar(QualType t){ t=t.getCanonicalType(); return !t->isDependentType()&&!t->isReferenceType()&&t->isScalarType(); }
  static const CXXRecordDecl* rec(QualType t){ return t.getCanonicalType().getNonReferenceType()->getAsCXXRecordDecl(); }
  bool VisitCXXRecordDecl(CXXRecordDecl*R){
    if(!R->isThisDeclarationADefinition()||R->isLambda()||R->isUnion()||!inLib(R->getLocation())||R->isImplicit()) return true;
    if(isa<ClassTemplateSpecializationDecl>(R)&&cast<ClassTemplateSpecializationDecl>(R)->getSpecializationKind()!=TSK_ExplicitSpecialization&&!isa<ClassTemplatePartialSpecializationDecl>(R)) return true; // patterns only
    if(R->getTemplateInstantiationPattern()&&R->getTemplateInstantiationPattern()!=R) return true;
    cur=R; std::string cn=R->getQualifiedNameAsString(); if(cn.empty()) cn="(anonymous)";
    std::vector<const FieldDecl*> F; for(auto*f:R->fields()) F.push_back(canonF(f));
    std::vector<CXXConstructorDecl*> ct; std::vector<FunctionDecl*> copies; CXXDestructorDecl*dt=nullptr; 
    auto each=[&](Decl*D){ if(auto*ft=dyn_cast<FunctionTemplateDecl>(D)) D=ft->getTemplatedDecl(); if(auto*c=dyn_cast<CXXConstructorDecl>(D)){ if(!c->isImplicit()) ct.push_back(c); } else if(auto*d=dyn_cast<CXXDestructorDecl>(D)) { if(!d->isImplicit()) dt=d; } };
    for(auto*D:R->decls()) each(D);
    std::set<const FieldDecl*> selfp; std::map<const FieldDecl*,SourceLocation> selfAt;
    auto selfScan=[&](const Stmt*st,auto&&rec_)->void{ if(!st) return; if(auto*b=dyn_cast<BinaryOperator>(st)) if(b->getOpcode()==BO_Assign) if(auto*f=fieldOfThis(b->getLHS())) if(f->getType()->isPointerType()&&pointsIntoThis(b->getRHS(),f)) { selfp.insert(f); selfAt[f]=b->getExprLoc(); } for(auto*c:st->children()) rec_(c,rec_); };
    for(auto*D:R->decls()){ Decl*E=D; if(auto*ft=dyn_cast<FunctionTemplateDecl>(E)) E=ft->getTemplatedDecl(); auto*m=dyn_cast<CXXMethodDecl>(E); if(!m||m->isStatic()) continue; const FunctionDecl*d=nullptr; if(!m->hasBody(d)) continue; if(auto*cd=dyn_cast<CXXConstructorDecl>(d)) for(auto*i:cd->inits()) if(i->isMemberInitializer()&&i->isWritten()) if(i->getMember()->getType()->isPointerType()&&pointsIntoThis(i->getInit(),i->getMember()->getCanonicalDecl())) { selfp.insert(i->getMember()->getCanonicalDecl()); selfAt[i->getMember()->getCanonicalDecl()]=i->getSourceLocation(); } selfScan(d->getBody(),selfScan); }
    bool ncCtor=false,ncAss=false,hasCtor=false,hasAss=false;
    for(auto*c:ct){ const FunctionDecl*d=nullptr; bool body=c->hasBody(d); bool cp=c->isCopyConstructor(); if(cp){ hasCtor=true; if(!body||c->isDeleted()) ncCtor=true; if(c->isDefaulted()) hasCtor=false; }
      if(!body||c->isDeleted()||c->isDefaulted()) continue; auto*cd=cast<CXXConstructorDecl>(d); if(cd->isDelegatingConstructor()) continue;
      const ParmVarDecl*src=cp&&cd->getNumParams()>0?cd->getParamDecl(0):nullptr; Uses u; std::set<const FieldDecl*> init; for(auto*i:cd->inits()){ if(i->isMemberInitializer()&&i->isWritten()) init.insert(canonF(i->getMember())); if(i->isBaseInitializer()&&i->isWritten()&&src&&refersTo(i->getInit(),src)) {} scan(i->getInit(),u,src); }
      scan(cd->getBody(),u,src); std::set<const CXXMethodDecl*> done; closure(u,done);
      bool mw=false; auto must=mustWrite(cd,mw); Uses iu; for(auto*i:cd->inits()) scan(i->getInit(),iu,nullptr); for(auto*f:F){ if(!scalar(f->getType())) continue; bool ok=init.count(f)||f->hasInClassInitializer()||must.count(f)||iu.written.count(f)||u.whole||mw; out("init",cd->getLocation(),cn,f->getNameAsString(),ok,ok?"":"constructor leaves member '"+f->getNameAsString()+"' without a value"); }
      if(cp&&src&&!F.empty()){ for(auto*f:F){ bool ok=u.whole||u.other.count(f); if(!ok&&selfp.count(f)) ok=init.count(f)||u.written.count(f); out("copy",cd->getLocation(),cn,f->getNameAsString(),ok,ok?"":"copy constructor does not take member '"+f->getNameAsString()+"' from its source"); } } }
    for(auto*m:R->methods()){ if(!m->isCopyAssignmentOperator()||m->isImplicit()) continue; hasAss=true; const FunctionDecl*d=nullptr; if(m->isDefaulted()){ hasAss=false; continue; } if(!m->hasBody(d)||m->isDeleted()){ ncAss=true; continue; }
      const ParmVarDecl*src=d->getParamDecl(0); Uses u; scan(d->getBody(),u,src); std::set<const CXXMethodDecl*> done; closure(u,done); bool empty=isa<CompoundStmt>(d->getBody())&&onlyReturnsThis(cast<CompoundStmt>(d->getBody())); if(empty&&m->getAccess()==AS_private&&!F.empty()){ ncAss=true; continue; }
      for(auto*f:F){ bool constant=f->getType().isConstQualified()||f->getType()->isReferenceType(); if(constant) continue; bool ok=u.whole||((u.other.count(f)||selfp.count(f))&&u.written.count(f)); out("copy",d->getLocation(),cn,f->getNameAsString(),ok,ok?"":std::string("copy assignment does not take over member '")+f->getNameAsString()+"'"+(empty?" (it does nothing)":"")); } }
    for(auto&b:R->bases()){ const CXXRecordDecl*B=b.getType()->getAsCXXRecordDecl(); if(!B||!B->hasDefinition()) continue; for(auto*c:B->ctors()) if(c->isCopyConstructor()&&!c->isImplicit()&&(c->isDeleted()||c->getAccess()==AS_private)) ncCtor=true; for(auto*m:B->methods()) if(m->isCopyAssignmentOperator()&&!m->isImplicit()&&(m->isDeleted()||m->getAccess()==AS_private)) ncAss=true; }
    std::set<const FieldDecl*> owned;
    if(dt){ const FunctionDecl*d=nullptr; if(dt->hasBody(d)){ Uses u; scan(d->getBody(),u,nullptr); std::set<const CXXMethodDecl*> done; closure(u,done); owned=u.deleted; } }
    for(auto*f:F) if(f->getType().isConstQualified()||f->getType()->isReferenceType()) ncAss=true;
    for(auto*f:selfp) if(!owned.count(f)){ bool ok=(hasCtor||ncCtor)&&(hasAss||ncAss); std::string miss=!(hasCtor||ncCtor)?"copy constructor":"copy assignment"; out("self",selfAt[f],cn,f->getNameAsString(),ok,ok?"":"'"+f->getNameAsString()+"' points into the object itself but the "+miss+" is the member-wise default: the copy would point into the original"); }
    // user-provided copies must not share what is owned or points into the source
    auto takes=[&](const Expr*e,const ParmVarDecl*src,const FieldDecl*f){ e=strip(e); if(auto*m=dyn_cast<MemberExpr>(e)) return m->getMemberDecl()->getCanonicalDecl()==f&&refersTo(m->getBase(),src); if(auto*m=dyn_cast<CXXDependentScopeMemberExpr>(e)) return !m->isImplicitAccess()&&m->getMember()==f->getDeclName()&&refersTo(m->getBase(),src); return false; };
    std::set<const FieldDecl*> prec=owned; prec.insert(selfp.begin(),selfp.end());
    for(auto*f:prec){ auto chk=[&](const FunctionDecl*d,const char*what){ const ParmVarDecl*src=d->getParamDecl(0); bool bad=false; SourceLocation at=d->getLocation(); if(auto*cd=dyn_cast<CXXConstructorDecl>(d)) for(auto*i:cd->inits()) if(i->isMemberInitializer()&&i->getMember()->getCanonicalDecl()==f&&takes(i->getInit(),src,f)){ bad=true; at=i->getSourceLocation(); }
        auto rec_=[&](const Stmt*st,auto&&self)->void{ if(!st) return; if(auto*b=dyn_cast<BinaryOperator>(st)) if(b->getOpcode()==BO_Assign&&fieldOfThis(b->getLHS())==f&&takes(b->getRHS(),src,f)){ bad=true; at=b->getExprLoc(); } for(auto*c:st->children()) self(c,self); }; rec_(d->getBody(),rec_);
        out("share",at,cn,std::string(what)+" "+f->getNameAsString(),!bad,bad?std::string(what)+" copies the pointer '"+f->getNameAsString()+"', which the source "+(owned.count(f)?"owns":"has into itself"):""); };
      for(auto*c:ct) if(c->isCopyConstructor()){ const FunctionDecl*d=nullptr; if(c->hasBody(d)&&!c->isDeleted()&&!c->isDefaulted()) chk(d,"copy constructor"); }
      for(auto*m:R->methods()) if(m->isCopyAssignmentOperator()&&!m->isImplicit()&&!m->isDefaulted()&&!m->isDeleted()){ const FunctionDecl*d=nullptr; if(m->hasBody(d)) chk(d,"copy assignment"); } }
    // what a constructor's callees release must have been given a value before
    for(auto*c:ct){ const FunctionDecl*d=nullptr; if(!c->hasBody(d)||c->isDeleted()||c->isDefaulted()) continue; auto*cd=cast<CXXConstructorDecl>(d); if(cd->isDelegatingConstructor()) continue; std::set<const FieldDecl*> have; for(auto*i:cd->inits()) if(i->isMemberInitializer()&&i->isWritten()) have.insert(i->getMember()->getCanonicalDecl()); for(auto*f:F) if(f->hasInClassInitializer()) have.insert(f);
      for(auto*f:owned){ bool bad=false; SourceLocation at=cd->getLocation(); bool stop=false; auto seq=[&](const Stmt*st,auto&&self)->void{ if(!st||stop) return; for(auto*k:st->children()) self(k,self); if(stop) return; if(auto*b=dyn_cast<BinaryOperator>(st)) if(b->getOpcode()==BO_Assign&&fieldOfThis(b->getLHS())==f){ stop=true; return; } Uses u; if(isa<CXXMemberCallExpr>(st)||isa<CallExpr>(st)||isa<CXXOperatorCallExpr>(st)){ callsOf(st,u); std::set<const CXXMethodDecl*> done; closure(u,done); if(u.deleted.count(f)){ bad=true; at=cast<Expr>(st)->getExprLoc(); stop=true; } } }; if(!have.count(f)) seq(cd->getBody(),seq);
        out("release",at,cn,f->getNameAsString(),!bad,bad?"constructor calls a function that releases '"+f->getNameAsString()+"' before it has a value":""); } }
    if(dt){ const FunctionDecl*d=nullptr; if(dt->hasBody(d)){ Uses u; scan(d->getBody(),u,nullptr); std::set<const CXXMethodDecl*> done; closure(u,done); for(auto*f:u.deleted){ if(!rec(f->getType())&&!f->getType()->isPointerType()) continue;
        // noncopyable member or base?
        bool nc=false; for(auto*g:F) { if(g->getType().isConstQualified()||g->getType()->isReferenceType()) ncAss=true; }
        bool ok=nc||(hasCtor&&hasAss)||(ncCtor&&ncAss); std::string miss=!hasCtor&&!ncCtor?"copy constructor":"copy assignment";
        out("owner",dt->getLocation(),cn,f->getNameAsString(),ok,ok?"":"destructor deletes '"+f->getNameAsString()+"' but the "+miss+" is the member-wise default: two objects would release the same memory"); } } }
    return true; }
  bool onlyReturnsThis(const CompoundStmt*c){ for(auto*s:c->body()) if(!isa<ReturnStmt>(s)) return false; return true; }
  static bool isPlainChar(QualType t){ t=t.getCanonicalType().getUnqualifiedType(); return t->isSpecificBuiltinType(BuiltinType::Char_S)||t->isSpecificBuiltinType(BuiltinType::SChar); }
  std::string fn(const Stmt*s){ DynTypedNode n=DynTypedNode::create(*s); for(int i=0;i<60;i++){ auto P=C.getParents(n); if(P.empty()) return "?"; n=P[0]; if(auto*f=n.get<FunctionDecl>()) return f->getQualifiedNameAsString(); } return "?"; }
  // the character an index value is made of, through value preserving conversions
  const Expr* charOf(const Expr*e){ for(;;){ e=e->IgnoreParens(); if(isPlainChar(e->getType())&&!isa<ImplicitCastExpr>(e)) { if(isa<CXXFunctionalCastExpr>(e)||isa<CXXStaticCastExpr>(e)||isa<CStyleCastExpr>(e)){} return e; } if(auto*c=dyn_cast<CastExpr>(e)){ if(c->getCastKind()==CK_LValueToRValue&&isPlainChar(c->getType())) return c->getSubExpr(); if(c->getType()->isSpecificBuiltinType(BuiltinType::UChar)||c->getType()->isBooleanType()) return nullptr; e=c->getSubExpr(); continue; } return nullptr; } }
  // a local of a wider type that holds a sign extended character and is never compared with anything
  const FunctionDecl* fdOf(const Stmt*s){ DynTypedNode n=DynTypedNode::create(*s); for(int i=0;i<80;i++){ auto P=C.getParents(n); if(P.empty()) return nullptr; n=P[0]; if(auto*f=n.get<FunctionDecl>()) return f; } return nullptr; }
  static bool mentions(const Stmt*s,const VarDecl*v){ if(!s) return false; if(auto*d=dyn_cast<DeclRefExpr>(s)) if(d->getDecl()==v) return true; for(auto*c:s->children()) if(mentions(c,v)) return true; return false; }
  static bool guarded(const Stmt*s,const VarDecl*v){ if(!s) return false; if(auto*b=dyn_cast<BinaryOperator>(s)){ if(b->isComparisonOp()&&mentions(b,v)) return true; if(b->isAssignmentOp()&&mentions(b->getLHS(),v)&&!isa<ArraySubscriptExpr>(b->getLHS()->IgnoreParenImpCasts())) return true; } if(auto*u=dyn_cast<UnaryOperator>(s)) if(u->isIncrementDecrementOp()&&mentions(u->getSubExpr(),v)&&isa<DeclRefExpr>(u->getSubExpr()->IgnoreParenImpCasts())) return true; if(auto*w=dyn_cast<SwitchStmt>(s)) if(mentions(w->getCond(),v)) return true; for(auto*c:s->children()) if(guarded(c,v)) return true; return false; }
  const Expr* viaLocal(const Expr*e,const Stmt*at){ e=e->IgnoreParenCasts(); auto*d=dyn_cast<DeclRefExpr>(e); if(!d) return nullptr; auto*v=dyn_cast<VarDecl>(d->getDecl()); if(!v||!v->isLocalVarDecl()||!v->getInit()||v->getType()->isReferenceType()||isPlainChar(v->getType())) return nullptr; const Expr*c=charOf(v->getInit()); if(!c) return nullptr; auto*f=fdOf(at); if(!f||!f->getBody()||guarded(f->getBody(),v)) return nullptr; return c; }
  void idx(const Expr*i,SourceLocation l,const Stmt*at,const char*what){ if(i->isValueDependent()||i->isTypeDependent()) return; if(!i->getType()->isIntegralOrEnumerationType()) return; Expr::EvalResult r; bool cst=i->EvaluateAsInt(r,C); const Expr*ch=cst?nullptr:charOf(i); if(!cst&&!ch) ch=viaLocal(i,at); out("index",l,fn(at),what,!ch,ch?std::string(what)+" is given a plain char, which is negative for bytes above 127":""); }
  bool VisitArraySubscriptExpr(ArraySubscriptExpr*a){ if(!inLib(a->getExprLoc())) return true; idx(a->getIdx(),a->getExprLoc(),a,"array index"); return true; }
  bool VisitCXXOperatorCallExpr(CXXOperatorCallExpr*o){ if(o->getOperator()!=OO_Subscript||o->getNumArgs()<2||!inLib(o->getExprLoc())) return true; if(auto*m=dyn_cast_or_null<CXXMethodDecl>(o->getDirectCallee())){ std::string n=m->getParent()->getNameAsString(); if(n=="map"||n=="unordered_map") return true; } idx(o->getArg(1),o->getExprLoc(),o,"container index"); return true; }
  bool VisitCallExpr(CallExpr*c){ auto*f=c->getDirectCallee(); if(!f||!inLib(c->getExprLoc())||c->getNumArgs()!=1) return true; static std::set<std::string> N={"isalpha","isdigit","isspace","isupper","islower","isalnum","isxdigit","ispunct","isprint","iscntrl","isgraph","isblank","toupper","tolower"}; if(!f->getIdentifier()||!N.count(f->getName().str())||f->getNumParams()!=1||!f->getParamDecl(0)->getType()->isSpecificBuiltinType(BuiltinType::Int)) return true; idx(c->getArg(0),c->getExprLoc(),c,f->getName().str().c_str()); return true; }
};
struct Con : ASTConsumer { void HandleTranslationUnit(ASTContext&C) override { V v(C); v.TraverseDecl(C.getTranslationUnitDecl()); fprintf(stderr,"errors=%d\n",(int)C.getDiagnostics().hasErrorOccurred()); } };
struct Act : ASTFrontendAction { std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&,StringRef) override { return std::make_unique<Con>(); } };
int main(int n,char**a){ // astlint FILE -- FLAGS
  std::vector<std::string> fl; for(int i=2;i<n;i++) fl.push_back(a[i]); FILE*f=fopen(a[1],"r"); if(!f) return 2; std::string code; char b[65536]; size_t k; while((k=fread(b,1,sizeof b,f))>0) code.append(b,k); fclose(f);
  fl.push_back("-resource-dir=/usr/lib/llvm-18/lib/clang/18");
  return tooling::runToolOnCodeWithArgs(std::make_unique<Act>(),code,fl,a[1],"astlint")?0:1; }
