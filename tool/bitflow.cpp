// bitflow: bit-provenance dataflow over the optimised LLVM IR of the drivers (loop-free after the compiler's own unrolling).
// Every bit of every value is a boolean function of at most 8 input bits (kept as a truth table over exactly the bits it
// depends on, so equal functions have equal representations) or unknown; a value may also be known as a sum of bits with
// weights. vp_eq(a,b,id) is an obligation: ok if both are the same function, violated if both are known and differ,
// unknown otherwise. Nothing is executed; loops the compiler did not unroll make the entry point "unknown".
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/ADT/PostOrderIterator.h"
#include "llvm/Analysis/ConstantFolding.h"
#include <bitset>
#include <map>
#include <set>
#include <vector>
#include <string>
#include <cstdio>
#include <algorithm>
using namespace llvm; using std::vector; using std::map; using std::string;
typedef unsigned long long u64; typedef __int128 i128;
const int MAXS=8;
struct Bit { bool top=true; vector<int> s; std::bitset<256> t; bool operator<(const Bit& o) const { if (top!=o.top) return top<o.top; if (s!=o.s) return s<o.s; return t.to_string()<o.t.to_string(); } bool operator==(const Bit& o) const { return top==o.top&&s==o.s&&t==o.t; } bool cst(bool v) const { return !top&&s.empty()&&t[0]==v; } };
static Bit K(bool v) { Bit b; b.top=false; b.t[0]=v; return b; }
static int natoms=0; static Bit atom() { Bit b; b.top=false; b.s.push_back(natoms++); b.t[1]=true; return b; }
static void reduce(Bit& b) { // drop input bits the table does not depend on
  for (size_t i=0;i<b.s.size();) { int n=1<<b.s.size(); bool dep=false; for (int x=0;x<n&&!dep;x++) if (!(x>>i&1)&&b.t[x]!=b.t[x|1<<i]) dep=true; if (dep) { i++; continue; }
    std::bitset<256> t; int lo=(1<<i)-1; for (int x=0;x<n/2;x++) t[x]=b.t[(x&lo)|((x&~lo)<<1)]; b.t=t; b.s.erase(b.s.begin()+i); } }
struct Lin { bool ok=false; u64 c=0; map<Bit,u64> w; bool operator==(const Lin& o) const { return c==o.c&&w==o.w; } u64 mx() const { i128 m=c; for (auto& p:w) m+=p.second; return m>(i128)~0ull?~0ull:(u64)m; } };
// provenance of a pointer: object and constant offset; of an integer: bits and optionally a weighted sum
struct Obj { vector<Bit> b; bool cst=false; };
struct Val { int w=0; vector<Bit> b; Lin l; int obj=-1; long long off=0; bool ptr=false; bool known() const { for (auto& x:b) if (x.top) return false; return true; } bool cst() const { for (auto& x:b) if (x.top||!x.s.empty()) return false; return !ptr; } u64 u() const { u64 r=0; for (size_t i=0;i<b.size()&&i<64;i++) if (b[i].t[0]) r|=1ull<<i; return r; } };
static Val C(u64 v,int w) { Val r; r.w=w; for (int i=0;i<w;i++) r.b.push_back(K(i<64?(v>>i&1):0)); return r; }
static Val T(int w) { Val r; r.w=w; r.b.resize(w); return r; }
static bool supp(const vector<const Bit*>& v,vector<int>& s) { std::set<int> u; for (auto* b:v) { if (b->top) return false; u.insert(b->s.begin(),b->s.end()); if (u.size()>MAXS) return false; } s.assign(u.begin(),u.end()); return true; }
static bool at(const Bit& b,const vector<int>& s,int x) { int i=0; for (size_t k=0;k<b.s.size();k++) { int p=std::lower_bound(s.begin(),s.end(),b.s[k])-s.begin(); if (x>>p&1) i|=1<<k; } return b.t[i]; }
static u64 at(const Val& v,const vector<int>& s,int x) { u64 r=0; for (size_t i=0;i<v.b.size();i++) if (at(v.b[i],s,x)) r|=1ull<<i; return r; }
// every function of few input bits is tabulated
template <class F> static bool tab(const vector<const Val*>& in,int w,F f,Val& r) { vector<const Bit*> bs; for (auto* v:in) { if (v->ptr||v->b.size()>64) return false; for (auto& b:v->b) bs.push_back(&b); } vector<int> s; if (!supp(bs,s)) return false;
  r=Val(); r.w=w; r.b.resize(w); for (auto& b:r.b) { b.top=false; b.s=s; } vector<u64> a(in.size()); for (int x=0;x<(1<<s.size());x++) { for (size_t i=0;i<in.size();i++) a[i]=at(*in[i],s,x); u64 v; if (!f(a,v)) return false; for (int i=0;i<w;i++) r.b[i].t[x]=v>>i&1; } for (auto& b:r.b) reduce(b); return true; }
template <class F> static Bit op2(const Bit& a,const Bit& b,F f) { vector<int> s; if (!supp({&a,&b},s)) return Bit(); Bit r; r.top=false; r.s=s; for (int x=0;x<(1<<s.size());x++) r.t[x]=f(at(a,s,x),at(b,s,x)); reduce(r); return r; }
static Bit AND(const Bit& a,const Bit& b) { if (a.cst(0)||b.cst(0)) return K(0); if (a.cst(1)) return b; if (b.cst(1)) return a; return op2(a,b,[](bool x,bool y){return x&&y;}); }
static Bit OR(const Bit& a,const Bit& b) { if (a.cst(1)||b.cst(1)) return K(1); if (a.cst(0)) return b; if (b.cst(0)) return a; return op2(a,b,[](bool x,bool y){return x||y;}); }
static Bit XOR(const Bit& a,const Bit& b) { if (a.cst(0)) return b; if (b.cst(0)) return a; return op2(a,b,[](bool x,bool y){return x!=y;}); }
static Bit ITE(const Bit& c,const Bit& a,const Bit& b) { if (c.cst(1)) return a; if (c.cst(0)) return b; if (a==b) return a; vector<int> s; if (!supp({&c,&a,&b},s)) return Bit(); Bit r; r.top=false; r.s=s; for (int x=0;x<(1<<s.size());x++) r.t[x]=at(c,s,x)?at(a,s,x):at(b,s,x); reduce(r); return r; }
static Lin lin(const Val& v) { if (v.l.ok) return v.l; Lin l; if (v.ptr||!v.known()||v.b.size()>64) return l; l.ok=true; for (size_t i=0;i<v.b.size();i++) { auto& b=v.b[i]; if (b.s.empty()) { if (b.t[0]) l.c+=1ull<<i; } else l.w[b]+=1ull<<i; } return l; }
static Lin addl(const Lin& a,const Lin& b,int w) { Lin r; if (!a.ok||!b.ok) return r; i128 m=(i128)a.mx()+b.mx(); if (m>(i128)(w>=64?~0ull:(1ull<<w)-1)) return r; r=a; r.c+=b.c; for (auto& p:b.w) r.w[p.first]+=p.second; return r; }
static Lin scale(const Lin& a,u64 k,int w) { Lin r; if (!a.ok) return r; i128 m=(i128)a.mx()*k; if (m>(i128)(w>=64?~0ull:(1ull<<w)-1)) return r; r=a; r.c*=k; if (!k) r.w.clear(); for (auto& p:r.w) p.second*=k; return r; }
static void fromLin(Val& v) { // a sum whose weights are distinct powers of two not meeting the constant is its own bit pattern
  if (!v.l.ok||v.known()) return; u64 used=v.l.c; for (auto& p:v.l.w) { if (!p.second||(p.second&(p.second-1))||(used&p.second)) return; used|=p.second; } for (int i=0;i<v.w;i++) v.b[i]=K(v.l.c>>i&1); for (auto& p:v.l.w) v.b[__builtin_ctzll(p.second)]=p.first; }
struct Mem { map<std::pair<int,long long>,Bit> m; map<std::pair<int,long long>,std::pair<int,long long>> p; }; // and pointers by byte   // (object, bit number) -> bit
struct An {
  Function& F; const DataLayout& DL; map<Value*,Val> env; vector<std::pair<Value*,u64>> objs; map<Value*,int> oid; string why; struct O { string file; int line; int id; int st; string msg; }; vector<O> obl; int insts=0; std::set<string> funcs; bool ended=false;
  An(Function& f):F(f),DL(f.getParent()->getDataLayout()){}
  int objOf(Value* v,u64 sz) { auto it=oid.find(v); if (it!=oid.end()) return it->second; objs.push_back({v,sz}); return oid[v]=objs.size()-1; }
  int bw(Type* t) { return t->isIntegerTy()?t->getIntegerBitWidth():64; }
  void unk(const string& s) { if (why.empty()) why=s; }
  Val get(Value* v) {
    if (auto* c=dyn_cast<ConstantInt>(v)) { Val r; r.w=c->getBitWidth(); for (unsigned i=0;i<c->getBitWidth();i++) r.b.push_back(K(c->getValue()[i])); return r; }
    if (isa<UndefValue>(v)||isa<PoisonValue>(v)) return C(0,bw(v->getType()));
    if (isa<ConstantPointerNull>(v)) return C(0,64);
    if (auto* g=dyn_cast<GlobalVariable>(v)) { Val r; r.w=64; r.ptr=true; r.obj=objOf(g,DL.getTypeAllocSize(g->getValueType())); return r; }
    if (auto* ce=dyn_cast<ConstantExpr>(v)) { APInt off(64,0); Value* b=ce->stripAndAccumulateConstantOffsets(DL,off,true); if (auto* g=dyn_cast<GlobalVariable>(b)) { Val r=get(g); r.off=off.getSExtValue(); return r; } return T(64); }
    auto it=env.find(v); if (it!=env.end()) return it->second; if (v->getType()->isVectorTy()) unk("vector value"); return T(bw(v->getType())); }
  static Val merge(const Bit& c,const Val& a,const Val& b) { if (a.ptr||b.ptr) { if (a.ptr&&b.ptr&&a.obj==b.obj&&a.off==b.off) return a; if (c.cst(1)) return a; if (c.cst(0)) return b; return T(64); } Val r; r.w=a.w; for (int i=0;i<a.w;i++) r.b.push_back(ITE(c,a.b[i],b.b[i])); if (a.l.ok&&b.l.ok&&a.l==b.l) r.l=a.l; if (c.cst(1)) r.l=a.l; if (c.cst(0)) r.l=b.l; return r; }
  // addition bit by bit with a carry; bits that depend on too much become unknown
  static Val ripple(const Val& a,const Val& b,Bit c,int w) { Val r=T(w); for (int i=0;i<w;i++) { const Bit &x=a.b[i],&y=b.b[i]; Bit xy=XOR(x,y); r.b[i]=XOR(xy,c); c=OR(AND(x,y),AND(c,xy)); } return r; }
  static Val inv(Val a) { for (auto& b:a.b) b=b.top?b:op2(b,K(1),[](bool p,bool q){return p!=q;}); a.l=Lin(); return a; }
  Val addv(const Val& a,const Val& b,int w) { Val r; if (tab({&a,&b},w,[](vector<u64>& v,u64& o){o=v[0]+v[1];return true;},r)) { r.l=addl(lin(a),lin(b),w); return r; } r=ripple(a,b,K(0),w); r.l=addl(lin(a),lin(b),w); fromLin(r); return r; }
  static Val shl(const Val& a,unsigned k) { Val r=T(a.w); for (int i=0;i<a.w;i++) r.b[i]=i<(int)k?K(0):a.b[i-k]; r.l=k<64?scale(a.l,1ull<<k,a.w):Lin(); return r; }
  static Val lshr(const Val& a,unsigned k,bool ar) { Val r=T(a.w); for (int i=0;i<a.w;i++) r.b[i]=i+(int)k<a.w?a.b[i+k]:ar?a.b[a.w-1]:K(0); return r; }
  // table lookup: the element is a function of the index bits; kept as a function of the input bits, and as a weighted sum of the index bits where it is one
  Val lookup(const vector<Bit>& ix,const vector<u64>& t,int w) { size_t n=ix.size(); Val r=T(w);
    for (int k=0;k<w;k++) { Bit f; f.top=false; for (size_t i=0;i<n;i++) f.s.push_back(i); for (size_t x=0;x<(size_t)1<<n;x++) f.t[x]=t[x]>>k&1; reduce(f); vector<const Bit*> bs; for (int i:f.s) bs.push_back(&ix[i]); vector<int> s; if (f.s.size()==1&&f.t[1]&&!f.t[0]) { r.b[k]=ix[f.s[0]]; continue; } if (!supp(bs,s)) continue; Bit o; o.top=false; o.s=s; for (int x=0;x<(1<<s.size());x++) { int y=0; for (size_t i=0;i<f.s.size();i++) if (at(ix[f.s[i]],s,x)) y|=1<<i; o.t[x]=f.t[y]; } reduce(o); r.b[k]=o; }
    bool li=true; vector<u64> ww(n); for (size_t i=0;i<n;i++) { ww[i]=t[(size_t)1<<i]-t[0]; if ((long long)ww[i]<0) li=false; } for (size_t x=0;li&&x<(size_t)1<<n;x++) { u64 v=t[0]; for (size_t i=0;i<n;i++) if (x>>i&1) v+=ww[i]; if (v!=t[x]) li=false; }
    if (li) { bool kn=true; for (auto& b:ix) if (b.top) kn=false; if (kn) { Lin l; l.ok=true; l.c=t[0]; for (size_t i=0;i<n;i++) if (ww[i]) { if (ix[i].s.empty()) { if (ix[i].t[0]) l.c+=ww[i]; } else l.w[ix[i]]+=ww[i]; } r.l=l; } }
    return r; }
  map<std::pair<Value*,int>,bool> dummy;
  struct PI { Value* base; vector<Val> idx; vector<u64> sc; };
  map<Value*,std::pair<Val,vector<std::pair<Val,u64>>>> vptr;   // pointer with variable parts
  bool cmem(GlobalVariable* g,u64 off,u64 sz,u64& out) { if (!g->isConstant()||!g->hasInitializer()) return false; Constant* c=ConstantFoldLoadFromConst(g->getInitializer(),Type::getIntNTy(F.getContext(),sz*8),APInt(64,off),DL); auto* ci=dyn_cast_or_null<ConstantInt>(c); if (!ci) return false; out=ci->getZExtValue(); return true; }
  Val load(Value* p,Type* ty,Mem& M) { int w=bw(ty); u64 sz=DL.getTypeStoreSize(ty); Val q=get(p);
    if (q.ptr) { if (auto* g=dyn_cast<GlobalVariable>(objs[q.obj].first)) { u64 v; if (sz<=8&&cmem(g,q.off,sz,v)) return C(v,w); if (g->isConstant()) { unk("load of constant memory"); return T(w); } }
      if (q.off<0||q.off+(long long)sz>(long long)objs[q.obj].second) { unk("load outside object"); return T(w); }
      if (sz==8) { auto it=M.p.find({q.obj,q.off}); if (it!=M.p.end()) { Val r; r.w=64; r.ptr=true; r.obj=it->second.first; r.off=it->second.second; return r; } }
      Val r=T(w); for (int i=0;i<w;i++) { auto it=M.m.find({q.obj,q.off*8+i}); if (it!=M.m.end()) r.b[i]=it->second; } return r; }
    auto it=vptr.find(p); if (it!=vptr.end()&&it->second.first.ptr&&it->second.second.size()==1) { auto& b=it->second; auto* g=dyn_cast<GlobalVariable>(objs[b.first.obj].first); const Val& ix=b.second[0].first; u64 sc=b.second[0].second; vector<Bit> bits; vector<int> pos; u64 base=0; for (int i=0;i<ix.w;i++) { if (ix.b[i].cst(0)) continue; if (ix.b[i].cst(1)) { base|=1ull<<i; continue; } bits.push_back(ix.b[i]); pos.push_back(i); }
      if (bits.size()<=8) { vector<u64> t(256); bool ok=true; for (size_t x=0;ok&&x<(size_t)1<<bits.size();x++) { u64 k=base; for (size_t i=0;i<pos.size();i++) if (x>>i&1) k|=1ull<<pos[i]; u64 o=b.first.off+k*sc; if (g) { if (o+sz>objs[b.first.obj].second) { ok=false; break; } if (!cmem(g,o,sz,t[x])) ok=false; } else { // a table the code filled in itself, with constants
              if (o+sz>objs[b.first.obj].second) { ok=false; break; } t[x]=0; for (int i=0;i<w&&ok;i++) { auto m=M.m.find({b.first.obj,(long long)o*8+i}); if (m==M.m.end()||m->second.top||!m->second.s.empty()) ok=false; else if (m->second.t[0]) t[x]|=1ull<<i; } } } if (ok) return lookup(bits,t,w); } }
    return T(w); }
  static void forget(Mem& M,int o,long long off,u64 sz) { for (long long k=off-7;k<off+(long long)sz;k++) M.p.erase({o,k}); }
  void store(Value* p,const Val& v,Type* ty,Mem& M) { Val q=get(p); u64 sz=DL.getTypeStoreSize(ty); if (!q.ptr||q.off<0||q.off+(long long)sz>(long long)objs[q.obj].second) { unk("store through an unknown pointer"); return; } forget(M,q.obj,q.off,sz); if (v.ptr) { if (sz!=8) { unk("pointer kept in memory"); return; } for (int i=0;i<64;i++) M.m.erase({q.obj,q.off*8+i}); M.p[{q.obj,q.off}]={v.obj,v.off}; return; } for (u64 i=0;i<sz*8;i++) M.m[{q.obj,q.off*8+(long long)i}]=i<v.b.size()?v.b[i]:K(0); }
  string mn(Instruction& I) { return I.getOpcodeName(); }
  void call(CallInst& I,Mem& M) { Function* f=I.getCalledFunction(); string n=f?f->getName().str():"?"; int w=I.getType()->isVoidTy()?0:bw(I.getType());
    if (n=="vp_in") { int k=cast<ConstantInt>(I.getArgOperand(0))->getZExtValue(); Val r=C(0,64); for (int i=0;i<k;i++) r.b[i]=atom(); env[&I]=r; return; }
    if (n=="vp_end") { ended=true; return; }
    if (n=="vp_eq") { Val a=get(I.getArgOperand(0)),b=get(I.getArgOperand(1)); O o; o.id=(int)get(I.getArgOperand(2)).u(); o.st=2; o.line=0; if (I.getDebugLoc()) o.line=I.getDebugLoc().getLine(); if (a.known()&&b.known()&&a.b.size()==b.b.size()) { o.st=1; for (size_t i=0;i<a.b.size();i++) if (!(a.b[i]==b.b[i])) { o.st=0; o.msg="bit "+std::to_string(i)+" of the result is another function of the input bits than specified"; break; } } else { Lin x=lin(a),y=lin(b); if (x.ok&&y.ok) { o.st=x==y; if (!o.st) o.msg="the result is another sum of input bits than specified"; } else o.msg="result not expressible"; if (o.st==2&&a.b.size()==b.b.size()) for (size_t i=0;i<a.b.size();i++) if (!a.b[i].top&&!b.b[i].top&&!(a.b[i]==b.b[i])) { o.st=0; o.msg="bit "+std::to_string(i)+" of the result is another function of the input bits than specified"; break; } } obl.push_back(o); return; }
    if (auto* II=dyn_cast<IntrinsicInst>(&I)) { switch (II->getIntrinsicID()) {
      case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: return;
      case Intrinsic::bswap: { Val a=get(I.getArgOperand(0)),r=T(w); for (int i=0;i<w;i++) r.b[i]=a.b[(w/8-1-i/8)*8+i%8]; env[&I]=r; return; }
      case Intrinsic::bitreverse: { Val a=get(I.getArgOperand(0)),r=T(w); for (int i=0;i<w;i++) r.b[i]=a.b[w-1-i]; env[&I]=r; return; }
      case Intrinsic::ctpop: { Val a=get(I.getArgOperand(0)),r=T(w); Val t; if (tab({&a},w,[](vector<u64>& v,u64& o){o=__builtin_popcountll(v[0]);return true;},t)) r=t; if (a.known()) { r.l.ok=true; for (auto& b:a.b) if (b.s.empty()) r.l.c+=b.t[0]; else r.l.w[b]+=1; } env[&I]=r; return; }
      case Intrinsic::fshl: case Intrinsic::fshr: { Val a=get(I.getArgOperand(0)),b=get(I.getArgOperand(1)),k=get(I.getArgOperand(2)); Val r=T(w); if (k.cst()) { int s=k.u()%w; bool L=II->getIntrinsicID()==Intrinsic::fshl; for (int i=0;i<w;i++) { int j=L?i+w-s:i+s; r.b[i]=j<w?b.b[j]:a.b[j-w]; } } env[&I]=r; return; }
      case Intrinsic::umin: case Intrinsic::umax: { Val a=get(I.getArgOperand(0)),b=get(I.getArgOperand(1)),r; bool mn=II->getIntrinsicID()==Intrinsic::umin; if (!tab({&a,&b},w,[&](vector<u64>& v,u64& o){o=mn?std::min(v[0],v[1]):std::max(v[0],v[1]);return true;},r)) r=T(w); env[&I]=r; return; }
      case Intrinsic::memset: { Val d=get(I.getArgOperand(0)),v=get(I.getArgOperand(1)),k=get(I.getArgOperand(2)); if (!d.ptr||!k.cst()||d.off<0||d.off+(long long)k.u()>(long long)objs[d.obj].second) { unk("memset"); return; } forget(M,d.obj,d.off,k.u()); for (u64 i=0;i<k.u()*8;i++) M.m[{d.obj,d.off*8+(long long)i}]=v.b[i%8]; return; }
      case Intrinsic::memcpy: case Intrinsic::memmove: { Val d=get(I.getArgOperand(0)),s=get(I.getArgOperand(1)),k=get(I.getArgOperand(2)); if (!d.ptr||!s.ptr||!k.cst()||d.off<0||s.off<0||d.off+(long long)k.u()>(long long)objs[d.obj].second||s.off+(long long)k.u()>(long long)objs[s.obj].second) { unk("memcpy"); return; } vector<Bit> t; auto* g=dyn_cast<GlobalVariable>(objs[s.obj].first); for (u64 i=0;i<k.u();i++) { u64 c; if (g&&g->isConstant()) { if (!cmem(g,s.off+i,1,c)) { unk("memcpy"); return; } for (int j=0;j<8;j++) t.push_back(K(c>>j&1)); } else for (int j=0;j<8;j++) { auto it=M.m.find({s.obj,(s.off+(long long)i)*8+j}); t.push_back(it==M.m.end()?Bit():it->second); } } map<long long,std::pair<int,long long>> mv; if (!g||!g->isConstant()) for (u64 i=0;i+8<=k.u();i++) { auto it=M.p.find({s.obj,s.off+(long long)i}); if (it!=M.p.end()) mv[d.off+(long long)i]=it->second; } forget(M,d.obj,d.off,k.u()); for (auto& z:mv) M.p[{d.obj,z.first}]=z.second; for (size_t i=0;i<t.size();i++) M.m[{d.obj,d.off*8+(long long)i}]=t[i]; return; }
      default: break; } }
    if (n=="_Znwm"||n=="_Znam") { Val k=get(I.getArgOperand(0)); if (!k.cst()) { env[&I]=T(64); unk("allocation of unknown size"); return; } Val r; r.w=64; r.ptr=true; r.obj=objOf(&I,k.u()); env[&I]=r; return; }
    if (n=="_ZdlPv"||n=="_ZdaPv"||n=="_ZdlPvm"||n=="_ZdaPvm") return;
    if (w) env[&I]=T(w); bool pure=f&&f->onlyReadsMemory(); if (!pure) unk("call of "+n); }
  void exec(Instruction& I,Mem& M) { insts++; if (auto& dl=I.getDebugLoc()) if (auto* sp=dl->getScope()->getSubprogram()) if (sp->getFilename().ends_with("strtk.hpp")) funcs.insert(sp->getName().str());
    if (I.getType()->isVectorTy()) { unk("vector operation"); return; }
    if (auto* a=dyn_cast<AllocaInst>(&I)) { auto sz=a->getAllocationSize(DL); Val r; r.w=64; r.ptr=true; r.obj=objOf(a,sz?sz->getFixedValue():0); env[&I]=r; return; }
    if (auto* g=dyn_cast<GetElementPtrInst>(&I)) { Val b=get(g->getPointerOperand()); APInt off(64,0); MapVector<Value*,APInt> var; vector<std::pair<Val,u64>> vs; bool ok=g->collectOffset(DL,64,var,off); auto it=vptr.find(g->getPointerOperand()); if (!b.ptr&&it!=vptr.end()) { b=it->second.first; vs=it->second.second; } if (!ok||!b.ptr) { env[&I]=T(64); return; } b.off+=off.getSExtValue(); for (auto& v:var) { Val x=get(v.first); if (x.cst()) { int64_t k=x.u(); if (x.w<64&&(k>>(x.w-1)&1)) k-=(int64_t)1<<x.w; b.off+=k*v.second.getSExtValue(); } else vs.push_back({x,v.second.getZExtValue()}); } if (vs.empty()) env[&I]=b; else { env[&I]=T(64); vptr[&I]={b,vs}; } return; }
    if (auto* l=dyn_cast<LoadInst>(&I)) { if (!l->getType()->isIntegerTy()) { env[&I]=T(64); return; } env[&I]=load(l->getPointerOperand(),l->getType(),M); return; }
    if (auto* s=dyn_cast<StoreInst>(&I)) { if (s->getValueOperand()->getType()->isVectorTy()) { unk("vector store"); return; } store(s->getPointerOperand(),get(s->getValueOperand()),s->getValueOperand()->getType(),M); return; }
    if (auto* c=dyn_cast<CallInst>(&I)) { call(*c,M); return; }
    if (auto* s=dyn_cast<SelectInst>(&I)) { Val c=get(s->getCondition()); env[&I]=merge(c.b[0],get(s->getTrueValue()),get(s->getFalseValue())); return; }
    if (isa<FreezeInst>(I)) { env[&I]=get(I.getOperand(0)); return; }
    if (I.isTerminator()) return;
    if (!I.getType()->isIntegerTy()&&!I.getType()->isPointerTy()) { if (!I.getType()->isVoidTy()) env[&I]=T(64); return; }
    int w=bw(I.getType());
    if (isa<ZExtInst>(I)||isa<SExtInst>(I)||isa<TruncInst>(I)) { Val a=get(I.getOperand(0)),r=T(w); for (int i=0;i<w;i++) r.b[i]=i<a.w?a.b[i]:isa<SExtInst>(I)?a.b[a.w-1]:K(0); if (isa<ZExtInst>(I)) r.l=a.l; if (isa<TruncInst>(I)&&a.l.ok&&(w>=64||a.l.mx()<(1ull<<w))) r.l=a.l; if (isa<SExtInst>(I)&&a.l.ok&&a.l.mx()<(1ull<<(a.w-1))) r.l=a.l; env[&I]=r; return; }
    if (isa<PtrToIntInst>(I)||isa<IntToPtrInst>(I)) { Val a=get(I.getOperand(0)); env[&I]=a; return; }
    if (auto* c=dyn_cast<ICmpInst>(&I)) { Val a=get(c->getOperand(0)),b=get(c->getOperand(1)); auto p=c->getPredicate(); if (a.ptr||b.ptr) { if (a.ptr&&b.ptr&&a.obj==b.obj) { APInt x(64,a.off,true),y(64,b.off,true); env[&I]=C(ICmpInst::compare(x,y,p),1); } else if (a.ptr!=b.ptr) env[&I]=C(p==CmpInst::ICMP_NE,1); else env[&I]=T(1); return; }
      Val r; int wa=a.w; if (tab({&a,&b},1,[&](vector<u64>& v,u64& o){o=ICmpInst::compare(APInt(wa,v[0]),APInt(wa,v[1]),p);return true;},r)) { env[&I]=r; return; }
      // (dis)equality with a constant bit that differs
      if (c->isEquality()) for (int i=0;i<wa;i++) if (!a.b[i].top&&!b.b[i].top&&a.b[i].s.empty()&&b.b[i].s.empty()&&a.b[i].t[0]!=b.b[i].t[0]) { env[&I]=C(p==CmpInst::ICMP_NE,1); return; }
      // bounds from constant high bits
      { u64 lo[2]={0,0},hi[2]={0,0}; const Val* v[2]={&a,&b}; for (int k=0;k<2;k++) for (int i=0;i<wa&&i<64;i++) { const Bit& x=v[k]->b[i]; bool k0=x.cst(0),k1=x.cst(1); if (k1) lo[k]|=1ull<<i; if (!k0) hi[k]|=1ull<<i; } if (p==CmpInst::ICMP_ULT&&hi[0]<lo[1]) { env[&I]=C(1,1); return; } if (p==CmpInst::ICMP_ULT&&lo[0]>=hi[1]) { env[&I]=C(0,1); return; } if (p==CmpInst::ICMP_UGT&&lo[0]>hi[1]) { env[&I]=C(1,1); return; } if (p==CmpInst::ICMP_UGT&&hi[0]<=lo[1]) { env[&I]=C(0,1); return; } }
      env[&I]=T(1); return; }
    if (auto* o=dyn_cast<BinaryOperator>(&I)) { Val a=get(o->getOperand(0)),b=get(o->getOperand(1)); if (a.ptr||b.ptr) { if (o->getOpcode()==Instruction::Sub&&a.ptr&&b.ptr&&a.obj==b.obj) { env[&I]=C((u64)(a.off-b.off),w); return; } if (o->getOpcode()==Instruction::Add&&a.ptr&&b.cst()) { a.off+=(long long)b.u(); env[&I]=a; return; } env[&I]=T(w); return; }
      Val r; u64 msk=w>=64?~0ull:(1ull<<w)-1;
      switch (o->getOpcode()) {
        case Instruction::And: r=T(w); for (int i=0;i<w;i++) r.b[i]=AND(a.b[i],b.b[i]); break;
        case Instruction::Or: r=T(w); for (int i=0;i<w;i++) r.b[i]=OR(a.b[i],b.b[i]); if (!r.known()) { bool dis=true; for (int i=0;i<w;i++) if (!a.b[i].cst(0)&&!b.b[i].cst(0)) dis=false; if (dis) r.l=addl(lin(a),lin(b),w); } break;
        case Instruction::Xor: r=T(w); for (int i=0;i<w;i++) r.b[i]=XOR(a.b[i],b.b[i]); break;
        case Instruction::Shl: if (b.cst()&&b.u()<(u64)w) { r=shl(a,b.u()); break; } if (!tab({&a,&b},w,[&](vector<u64>& v,u64& x){x=v[1]<64?v[0]<<v[1]:0;return true;},r)) r=T(w); break;
        case Instruction::LShr: if (b.cst()&&b.u()<(u64)w) { r=lshr(a,b.u(),false); break; } if (!tab({&a,&b},w,[&](vector<u64>& v,u64& x){x=v[1]<64?v[0]>>v[1]:0;return true;},r)) r=T(w); break;
        case Instruction::AShr: if (b.cst()&&b.u()<(u64)w) { r=lshr(a,b.u(),true); break; } r=T(w); break;
        case Instruction::Add: r=addv(a,b,w); break;
        case Instruction::Sub: if (!tab({&a,&b},w,[&](vector<u64>& v,u64& x){x=(v[0]-v[1])&msk;return true;},r)) r=ripple(a,inv(b),K(1),w); break;
        case Instruction::Mul: if (!tab({&a,&b},w,[&](vector<u64>& v,u64& x){x=(v[0]*v[1])&msk;return true;},r)) { r=T(w); if (a.cst()) std::swap(a,b); if (b.cst()) { u64 k=b.u(); r.l=scale(lin(a),k,w); Val acc=C(0,w); for (int i=0;i<w;i++) if (k>>i&1) acc=addv(acc,shl(a,i),w); r.b=acc.b; fromLin(r); } } break;
        case Instruction::UDiv: if (!tab({&a,&b},w,[&](vector<u64>& v,u64& x){if(!v[1])return false;x=v[0]/v[1];return true;},r)) r=T(w); break;
        case Instruction::URem: if (!tab({&a,&b},w,[&](vector<u64>& v,u64& x){if(!v[1])return false;x=v[0]%v[1];return true;},r)) r=T(w); break;
        default: r=T(w); }
      env[&I]=r; return; }
    env[&I]=T(w); }
  // acyclic dataflow: the condition under which an edge is taken is kept as a bit function
  void run() { 
    map<BasicBlock*,int> num; ReversePostOrderTraversal<Function*> R(&F); vector<BasicBlock*> bs(R.begin(),R.end()); int k=0; for (auto* b:bs) num[b]=k++;
    for (auto* b:bs) for (auto* s:successors(b)) if (num[s]<=num[b]) { why="a loop is left"; return; }
    map<std::pair<BasicBlock*,BasicBlock*>,Bit> cond; map<BasicBlock*,Bit> bc; map<BasicBlock*,Mem> out;
    for (auto* b:bs) { Mem M; vector<BasicBlock*> ps; Bit c=K(b==&F.getEntryBlock()); for (auto* p:predecessors(b)) { auto it=cond.find({p,b}); if (it==cond.end()||it->second.cst(0)) continue; if (std::find(ps.begin(),ps.end(),p)!=ps.end()) continue; ps.push_back(p); c=OR(c,it->second); }
      if (c.cst(0)) { bc[b]=c; continue; }
      if (!ps.empty()) { M=out[ps[0]]; for (size_t i=1;i<ps.size();i++) { Mem& N=out[ps[i]]; const Bit& e=cond[{ps[i],b}]; std::set<std::pair<int,long long>> ks; for (auto& x:M.m) ks.insert(x.first); for (auto& x:N.m) ks.insert(x.first); for (auto& q:ks) { auto x=M.m.find(q),y=N.m.find(q); Bit bx=x==M.m.end()?Bit():x->second,by=y==N.m.end()?Bit():y->second; M.m[q]=(bx==by&&!bx.top)?bx:ITE(e,by,bx); } for (auto it=M.p.begin();it!=M.p.end();) { auto y=N.p.find(it->first); if (y==N.p.end()||y->second!=it->second) it=M.p.erase(it); else ++it; } } }
      bc[b]=c; if (!c.cst(1)) { /* reached for some inputs only */ }
      for (auto& I:*b) { if (auto* ph=dyn_cast<PHINode>(&I)) { Val v; bool first=true; for (auto* p:ps) { Val x=get(ph->getIncomingValueForBlock(p)); if (first) { v=x; first=false; } else v=merge(cond[{p,b}],x,v); } env[ph]=v; continue; }
        size_t no=obl.size(); exec(I,M); if (obl.size()>no&&!c.cst(1)) { obl.back().st=2; obl.back().msg="checked on some inputs only"; } }
      out[b]=M; Instruction* t=b->getTerminator();
      if (auto* br=dyn_cast<BranchInst>(t)) { if (br->isUnconditional()) cond[{b,br->getSuccessor(0)}]=c; else { Bit x=get(br->getCondition()).b[0]; Bit nx=op2(x,K(1),[](bool p,bool q){return p!=q;}); if (x.top) nx=x; auto add=[&](BasicBlock* s,const Bit& e){ auto& r=cond[{b,s}]; Bit v=AND(c,e); r=cond.count({b,s})&&!(r==Bit())?OR(r,v):v; }; if (br->getSuccessor(0)==br->getSuccessor(1)) cond[{b,br->getSuccessor(0)}]=c; else { cond[{b,br->getSuccessor(0)}]=AND(c,x); cond[{b,br->getSuccessor(1)}]=AND(c,nx); } } }
      else if (auto* sw=dyn_cast<SwitchInst>(t)) { Val x=get(sw->getCondition()); Bit rest=K(1); map<BasicBlock*,Bit> acc; for (auto& cs:sw->cases()) { Val cv=get(cs.getCaseValue()),r; Bit e; if (tab({&x,&cv},1,[&](vector<u64>& v,u64& o){o=v[0]==v[1];return true;},r)) e=r.b[0]; Bit ne=e.top?e:op2(e,K(1),[](bool p,bool q){return p!=q;}); rest=AND(rest,ne); auto* d=cs.getCaseSuccessor(); acc[d]=acc.count(d)?OR(acc[d],e):e; } auto* d=sw->getDefaultDest(); acc[d]=acc.count(d)?OR(acc[d],rest):rest; for (auto& q:acc) cond[{b,q.first}]=AND(c,q.second); }
      else if (isa<ReturnInst>(t)||isa<UnreachableInst>(t)) {} else unk("terminator"); }
  }
};
static string esc(const string& s) { string r; for (char c:s) { if (c=='"'||c=='\\') r+='\\'; r+=c; } return r; }
int main(int c,char** v) { LLVMContext X; SMDiagnostic E; auto M=parseIRFile(v[1],E,X); if (!M) { E.print("bitflow",errs()); return 2; }
  for (auto& f:*M) if (!f.isDeclaration()&&f.getName().starts_with("drv_")) { natoms=0; An a(f); a.run(); string s="{\"driver\":\""+f.getName().str()+"\",\"why\":\""+esc(a.why)+"\",\"ended\":"+(a.ended?"true":"false")+",\"insts\":"+std::to_string(a.insts)+",\"funcs\":["; bool fi=true; for (auto& x:a.funcs) { if (!fi) s+=","; fi=false; s+="\""+esc(x)+"\""; } s+="],\"obl\":["; fi=true; for (auto& o:a.obl) { if (!fi) s+=","; fi=false; s+="{\"id\":"+std::to_string(o.id)+",\"line\":"+std::to_string(o.line)+",\"st\":"+std::to_string(o.st)+",\"msg\":\""+esc(o.msg)+"\"}"; } puts((s+"]}").c_str()); }
  return 0; }
