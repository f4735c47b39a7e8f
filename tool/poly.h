// Linear-relation abstract domain: affine equalities + integer-tightened linear inequalities.
// Entailment is decided by an exact rational simplex on the dual (Farkas) form.
#pragma once
#include <vector>
#include <map>
#include <set>
#include <algorithm>
#include <cstdint>
#include <string>
#include <stdexcept>
typedef __int128 I128;
typedef long long I64;
struct Overflow {};
static inline I64 gcd64(I64 a, I64 b){ if(a<0)a=-a; if(b<0)b=-b; while(b){I64 t=a%b;a=b;b=t;} return a; }
static inline I64 ck(I128 v){ if(v> (I128)4611686018427387904LL || v< -(I128)4611686018427387904LL) throw Overflow(); return (I64)v; }
static inline I128 gcd128(I128 a, I128 b){ if(a<0)a=-a; if(b<0)b=-b; while(b){ if(a<=INT64_MAX && b<=INT64_MAX) return gcd64((I64)a,(I64)b); I128 t=a%b;a=b;b=t;} return a; }

struct Rat {           // rational, int64 numerator/denominator, overflow checked
  I64 n, d;
  Rat():n(0),d(1){} Rat(I64 v):n(v),d(1){}
  static Rat mk(I128 n, I128 d){ if(d<0){n=-n;d=-d;} if(n==0) return Rat(0); if(d!=1){ I128 g=gcd128(n,d); n/=g; d/=g; } Rat r; r.n=ck(n); r.d=ck(d); return r; }
  Rat operator+(const Rat&o)const{ if(d==1&&o.d==1){Rat r; r.n=ck((I128)n+o.n); return r;} return mk((I128)n*o.d+(I128)o.n*d,(I128)d*o.d);}    
  Rat operator-(const Rat&o)const{ if(d==1&&o.d==1){Rat r; r.n=ck((I128)n-o.n); return r;} return mk((I128)n*o.d-(I128)o.n*d,(I128)d*o.d);}    
  Rat operator*(const Rat&o)const{ return mk((I128)n*o.n,(I128)d*o.d);} 
  Rat operator/(const Rat&o)const{ return mk((I128)n*o.d,(I128)d*o.n);} 
  Rat operator-()const{Rat r; r.n=-n; r.d=d; return r;}
  bool isZero()const{return n==0;} int sgn()const{return n>0?1:(n<0?-1:0);}    
  bool operator<(const Rat&o)const{ return (I128)n*o.d < (I128)o.n*d; }
  bool operator==(const Rat&o)const{return n==o.n&&d==o.d;}
};

struct Lin {           // sum of coef*dim + c
  std::vector<std::pair<int,I64>> t; I64 c=0;
  Lin(){} explicit Lin(I64 k):c(k){}
  static Lin dim(int d,I64 k=1){Lin l; l.t.push_back({d,k}); return l;}
  bool isConst()const{return t.empty();}
  I64 coef(int d)const{ auto it=std::lower_bound(t.begin(),t.end(),std::make_pair(d,(I64)INT64_MIN)); return (it!=t.end()&&it->first==d)?it->second:0; }
  static Lin comb(const Lin&a,I64 ka,const Lin&b,I64 kb){ Lin r; r.c=ck((I128)a.c*ka+(I128)b.c*kb); size_t i=0,j=0;
    while(i<a.t.size()||j<b.t.size()){
      if(j>=b.t.size()||(i<a.t.size()&&a.t[i].first<b.t[j].first)){ I64 v=ck((I128)a.t[i].second*ka); if(v) r.t.push_back({a.t[i].first,v}); i++; }
      else if(i>=a.t.size()||b.t[j].first<a.t[i].first){ I64 v=ck((I128)b.t[j].second*kb); if(v) r.t.push_back({b.t[j].first,v}); j++; }
      else { I64 v=ck((I128)a.t[i].second*ka+(I128)b.t[j].second*kb); if(v) r.t.push_back({a.t[i].first,v}); i++;j++; } }
    return r; }
  Lin operator+(const Lin&o)const{return comb(*this,1,o,1);} Lin operator-(const Lin&o)const{return comb(*this,1,o,-1);} 
  Lin operator*(I64 k)const{ if(k==0) return Lin(0); Lin z; return comb(*this,k,z,0);} Lin operator-()const{return (*this)*-1;}
  Lin operator+(I64 k)const{Lin r=*this; r.c=ck((I128)r.c+k); return r;} Lin operator-(I64 k)const{return *this+(-k);} 
  bool sameTerms(const Lin&o)const{return t==o.t;}
  bool operator==(const Lin&o)const{return t==o.t&&c==o.c;}
  void rename(const std::map<int,int>&m){ for(auto&p:t){auto it=m.find(p.first); if(it!=m.end())p.first=it->second;} std::sort(t.begin(),t.end()); }
};

enum class LPR { OK, UNBOUNDED, INFEASIBLE, UNKNOWN };

struct Poly {
  std::vector<Lin> eq;    // each ==0 ; eq[i] solved for piv[i]; piv dims appear nowhere else
  std::vector<int> piv;
  std::vector<Lin> in;    // each >=0
  bool bot=false;
  static long nLP;
  static void normIneq(Lin&l){ I64 g=0; for(auto&p:l.t) g=gcd64(g,p.second); if(g>1){ for(auto&p:l.t)p.second/=g; I64 q=l.c/g; if(l.c%g!=0&&l.c<0) q--; l.c=q; } }
  // returns false if contradictory over integers
  static bool normEq(Lin&l){ I64 g=0; for(auto&p:l.t) g=gcd64(g,p.second); if(g==0) return l.c==0; if(g>1){ if(l.c%g!=0) return false; for(auto&p:l.t)p.second/=g; l.c/=g; } return true; }
  // substitute pivots; result may be scaled by positive factor (returned in *scale)
  Lin reduce(const Lin&l, I64*scale=nullptr)const{ Lin r=l; I64 sc=1; for(size_t i=0;i<eq.size();i++){ I64 k=r.coef(piv[i]); if(!k) continue; I64 p=eq[i].coef(piv[i]);
      // r - (k/p)*eq ; multiply by |p|
      if(p==1||p==-1){ r=Lin::comb(r,1,eq[i],-k*p); }
      else { I64 g=gcd64(k,p); I64 ap=(p<0?-p:p)/g; I64 m=(k/g)*(p<0?-1:1); r=Lin::comb(r,ap,eq[i],-m); sc=ck((I128)sc*ap);} }
    if(scale)*scale=sc; return r; }
  void setBot(){bot=true; eq.clear();piv.clear();in.clear();}
  void pushIneq(Lin l){ normIneq(l); if(l.t.empty()){ if(l.c<0) setBot(); return; }
    for(auto&o:in) if(o.t==l.t){ if(o.c<=l.c) return; o.c=l.c; checkOpp(l); return; }
    in.push_back(l); checkOpp(l); }
  void checkOpp(const Lin&l){ // l>=0 and -l' >=0  => equality
    Lin n=-l; for(auto&o:in) if(o.t==n.t){ I64 s=ck((I128)o.c+l.c); if(s<0){ setBot(); return;} if(s==0){ Lin e=l; addEq(e); return; } } }
  void addIneq(const Lin&l0){ if(bot) return; try{ Lin l=reduce(l0); pushIneq(l);}catch(Overflow&){} }
  void addEq(const Lin&l0){ if(bot) return; try{
      Lin l=reduce(l0); if(!normEq(l)){ setBot(); return; } if(l.t.empty()){ return; }
      int p=-1; for(auto it=l.t.rbegin();it!=l.t.rend();++it) if(it->second==1||it->second==-1){p=it->first;break;} if(p<0) p=l.t.back().first;
      // substitute in others
      std::vector<Lin> oi; oi.swap(in);
      Poly tmp; tmp.eq.push_back(l); tmp.piv.push_back(p);
      std::vector<Lin> neweq; for(auto&e:eq){ Lin r=e; if(e.coef(p)){ r=tmp.reduce(e); if(!normEq(r)){setBot();return;} } neweq.push_back(r);} eq.swap(neweq);
      eq.push_back(l); piv.push_back(p);
      for(auto&i:oi){ if(bot) return; try{ addIneq(i);}catch(Overflow&){} }
    }catch(Overflow&){} }
  // min of e over the polyhedron (rational). 
  LPR minimize(const Lin&e0, Rat&out)const{ if(bot) return LPR::INFEASIBLE; try{ I64 sc=1; Lin e=reduce(e0,&sc);
      if(e.t.empty()){ out=Rat::mk(e.c,sc); return LPR::OK; }
      for(auto&o:in) if(o.t==e.t && e.t.size()==1){ }
      Rat r; LPR x=lp(e,r,in); if(x==LPR::OK) out=r/Rat(sc); return x; }catch(Overflow&){ return LPR::UNKNOWN; } }
  static LPR lp(const Lin&e, Rat&out, const std::vector<Lin>&cons, const Lin*seed=nullptr){ nLP++;
    // component
    std::set<int> dims; for(auto&p:e.t) dims.insert(p.first); if(seed) for(auto&p:seed->t) dims.insert(p.first); std::vector<char> use(cons.size(),0); bool ch=true; std::vector<int> sel;
    while(ch){ ch=false; for(size_t i=0;i<cons.size();i++) if(!use[i]){ bool hit=false; for(auto&p:cons[i].t) if(dims.count(p.first)){hit=true;break;} if(hit){ use[i]=1; sel.push_back(i); for(auto&p:cons[i].t) dims.insert(p.first); ch=true; } } }
    std::map<int,int> row; for(int d:dims){int k=row.size(); row[d]=k;} int n=row.size(), m=sel.size();
    // rows: sum_j a_ij lam_j = e_i ; lam>=0 ; maximize -sum c_j lam_j  (min sum c_j lam_j)
    int W=m+n+1; std::vector<std::vector<Rat>> T(n,std::vector<Rat>(W)); std::vector<int> basis(n);
    std::vector<Rat> b(n); for(auto&p:e.t) b[row[p.first]]=Rat(p.second);
    for(int j=0;j<m;j++) for(auto&p:cons[sel[j]].t) T[row[p.first]][j]=Rat(p.second);
    for(int i=0;i<n;i++){ T[i][W-1]=b[i]; if(b[i].sgn()<0){ for(int j=0;j<W;j++) T[i][j]=-T[i][j]; } T[i][m+i]=Rat(1); basis[i]=m+i; }
    auto pivot=[&](int r,int c,std::vector<Rat>&z){ Rat p=T[r][c]; for(int j=0;j<W;j++) if(!T[r][j].isZero()) T[r][j]=T[r][j]/p; for(int i=0;i<n;i++) if(i!=r&&!T[i][c].isZero()){ Rat f=T[i][c]; for(int j=0;j<W;j++) if(!T[r][j].isZero()) T[i][j]=T[i][j]-f*T[r][j]; } if(!z[c].isZero()){ Rat f=z[c]; for(int j=0;j<W;j++) if(!T[r][j].isZero()) z[j]=z[j]-f*T[r][j]; } basis[r]=c; };
    // phase 1: minimize sum artificials
    std::vector<Rat> z(W); for(int i=0;i<n;i++) for(int j=0;j<W;j++) if(j<m||j==W-1) z[j]=z[j]-T[i][j];
    int it=0; auto run=[&](std::vector<Rat>&z,int lim)->int{ while(true){ if(++it>4000) return 2; int c=-1; for(int j=0;j<lim;j++) if(z[j].sgn()<0){c=j;break;} if(c<0) return 0; int r=-1; Rat best; for(int i=0;i<n;i++) if(T[i][c].sgn()>0){ Rat q=T[i][W-1]/T[i][c]; if(r<0||q<best||(q==best&&basis[i]<basis[r])){r=i;best=q;} } if(r<0) return 1; pivot(r,c,z);} };
    int s=run(z,m); if(s==2) return LPR::UNKNOWN; if(!(z[W-1].isZero())) return LPR::UNBOUNDED; 
    // drive out artificials
    for(int i=0;i<n;i++) if(basis[i]>=m){ int c=-1; for(int j=0;j<m;j++) if(!T[i][j].isZero()){c=j;break;} if(c>=0){ std::vector<Rat> dz(W); pivot(i,c,dz);} }
    std::vector<Rat> z2(W); for(int j=0;j<m;j++) z2[j]=Rat(cons[sel[j]].c); for(int i=0;i<n;i++) if(basis[i]<m){ Rat cb=Rat(cons[sel[basis[i]]].c); if(!cb.isZero()) for(int j=0;j<W;j++) if(!T[i][j].isZero()) z2[j]=z2[j]-cb*T[i][j]; }
    s=run(z2,m); if(s==2) return LPR::UNKNOWN; if(s==1) return LPR::INFEASIBLE;
    // z2[W-1] = -(min sum c lam) ; min e = e.c - min... : e.x + ec >= ec - sum lam c
    out=Rat(e.c)+z2[W-1]; return LPR::OK; }
  bool entails(const Lin&e)const{ // e>=0 on all integer points
    if(bot) return true; try{ Lin r=reduce(e); normIneq(r); if(r.t.empty()) return r.c>=0; for(auto&o:in) if(o.t==r.t&&o.c<=r.c) return true; Rat m; LPR x=lp(r,m,in); if(x==LPR::INFEASIBLE) return true; if(x==LPR::OK&&ceilR(m)>=0) return true; if(!deep) return false; deep=false; Poly t=*this; try{ t.meet(-e-1); }catch(Overflow&){ deep=true; return false; } bool r2=t.bot||t.intEmpty(e); deep=true; return r2; }catch(Overflow&){return false;} }
  static bool deep;
  // integer emptiness by bound rounding (sound, incomplete)
  bool intEmpty(const Lin&seed){ if(bot) return true; std::set<int> ds; for(auto&p:seed.t) ds.insert(p.first); bool ch=true; while(ch){ ch=false; auto grow=[&](const Lin&l){ bool h=false; for(auto&p:l.t) if(ds.count(p.first)) h=true; if(h) for(auto&p:l.t) if(ds.insert(p.first).second) ch=true; }; for(auto&e:eq) grow(e); for(auto&i:in) grow(i); }
    if(ds.size()>40) return false; for(int round=0;round<3;round++){ bool any=false; for(int d:ds){ for(int sg=-1;sg<=1;sg+=2){ Lin l=Lin::dim(d,sg); Rat m; LPR x=minimize(l,m); if(x==LPR::INFEASIBLE) return true; if(x!=LPR::OK||m.d==1) continue; any=true; addIneq(l-ceilR(m)); if(bot) return true; } } checkEmptyAll(); if(bot) return true; if(!any) break; } return bot; }
  static I64 ceilR(const Rat&m){ I64 q=m.n/m.d; if(m.n%m.d!=0&&m.n>0) q++; return q; }
  static I64 floorR(const Rat&m){ I64 q=m.n/m.d; if(m.n%m.d!=0&&m.n<0) q--; return q; }
  bool entailsEq(const Lin&e)const{ if(bot) return true; try{ Lin r=reduce(e); if(r.t.empty()) return r.c==0; }catch(Overflow&){return false;} return entails(e)&&entails(-e); }
  bool minI(const Lin&e,I64&v)const{ Rat r; LPR x=minimize(e,r); if(x==LPR::OK){v=ceilR(r);return true;} return false; }
  bool maxI(const Lin&e,I64&v)const{ I64 w; if(minI(-e,w)){v=-w;return true;} return false; }
  void checkEmpty(const Lin&touch){ if(bot||in.empty()) return; try{ Lin r=reduce(touch); if(r.t.empty()) return; Lin z; Rat m; if(lp(z,m,in,&r)==LPR::INFEASIBLE) setBot(); }catch(Overflow&){} }
  void meet(const Lin&l){ if(bot) return; addIneq(l); checkEmpty(l); }
  void meetEq(const Lin&l){ if(bot) return; addEq(l); if(!bot) checkEmptyAll(); }
  void checkEmptyAll(){ if(bot) return; std::set<int> seen; for(size_t i=0;i<in.size();i++){ bool s=false; for(auto&p:in[i].t) if(seen.count(p.first)) s=true; if(s){ for(auto&p:in[i].t) seen.insert(p.first); continue;} for(auto&p:in[i].t) seen.insert(p.first); try{ Rat m; Lin z; if(lp(z,m,in,&in[i])==LPR::INFEASIBLE){ setBot(); return; } }catch(Overflow&){} } }
  bool has(int d)const{ for(auto&e:eq) if(e.coef(d)) return true; for(auto&i:in) if(i.coef(d)) return true; return false; }
  void forget(int d){ if(bot) return; int k=-1; for(size_t i=0;i<eq.size();i++) if(piv[i]==d){k=i;break;}
    if(k<0){ int best=-1; for(size_t i=0;i<eq.size();i++){ I64 c=eq[i].coef(d); if(c){ if(best<0||((c==1||c==-1)&&!(std::abs(eq[best].coef(d))==1))) best=i; } }
      if(best>=0){ // re-pivot eq[best] on d
        Lin l=eq[best]; eq.erase(eq.begin()+best); piv.erase(piv.begin()+best); Poly tmp; tmp.eq.push_back(l); tmp.piv.push_back(d);
        for(size_t i=0;i<eq.size();){ if(eq[i].coef(d)){ bool drop=false; try{ Lin r=tmp.reduce(eq[i]); if(!normEq(r)){setBot();return;} if(r.coef(piv[i])==0) drop=true; eq[i]=r; }catch(Overflow&){drop=true;} if(drop){ eq.erase(eq.begin()+i); piv.erase(piv.begin()+i); continue; } } i++; }
        // old pivot of l may now appear in others? l contained its pivot; restore echelon by re-adding
        std::vector<Lin> oe; oe.swap(eq); piv.clear(); std::vector<Lin> oi; oi.swap(in); for(auto&e:oe) addEq(e); if(bot) return; for(auto&i:oi){ try{ Lin r=i.coef(d)?tmp.reduce(i):i; addIneq(r);}catch(Overflow&){} if(bot) return; }
        return; }
      std::vector<Lin> pos,neg,rest; for(auto&i:in){ I64 c=i.coef(d); if(c>0)pos.push_back(i); else if(c<0)neg.push_back(i); else rest.push_back(i);} 
      if(pos.empty()&&neg.empty()) return; in.swap(rest); if(pos.size()*neg.size()>150) return;
      for(auto&p:pos) for(auto&q:neg){ try{ I64 a=p.coef(d), b=-q.coef(d); I64 g=gcd64(a,b); Lin r=Lin::comb(p,b/g,q,a/g); pushIneqNR(r);}catch(Overflow&){} if(bot) return; }
      if(in.size()>14) reduceIneqs();
      return; }
    eq.erase(eq.begin()+k); piv.erase(piv.begin()+k); }
  void pushIneqNR(Lin l){ normIneq(l); if(l.t.empty()){ if(l.c<0) setBot(); return; } for(auto&o:in) if(o.t==l.t){ if(l.c<o.c) o.c=l.c; return; } in.push_back(l); }
  void reduceIneqs(){ for(size_t i=0;i<in.size();){ Lin c=in[i]; std::vector<Lin> others; for(size_t j=0;j<in.size();j++) if(j!=i) others.push_back(in[j]); bool red=false; try{ Rat m; LPR x=lp(c,m,others); if(x==LPR::OK&&m.sgn()>=0) red=true; }catch(Overflow&){} if(red) in.erase(in.begin()+i); else i++; } }
  void assign(int d,const Lin&e){ if(bot) return; if(e.coef(d)){ // d := f(d)
      I64 k=e.coef(d); if(k==1||k==-1){ std::map<int,int> m; int tmp=-2; rename(d,tmp); Lin e2=e; e2.rename({{d,tmp}}); addEq(Lin::dim(d)-e2); forget(tmp); return; } int tmp=-2; rename(d,tmp); Lin e2=e; e2.rename({{d,tmp}}); addEq(Lin::dim(d)-e2); forget(tmp); return; }
    forget(d); addEq(Lin::dim(d)-e); }
  void rename(int a,int b){ std::map<int,int> m{{a,b}}; for(auto&e:eq) e.rename(m); for(auto&i:in) i.rename(m); for(auto&p:piv) if(p==a)p=b; }
  void dims(std::set<int>&s)const{ for(auto&e:eq) for(auto&p:e.t)s.insert(p.first); for(auto&i:in) for(auto&p:i.t) s.insert(p.first); }
  // equalities valid in both: intersection of row spaces
  static std::vector<Lin> joinEq(const Poly&A,const Poly&B){ std::vector<Lin> res; std::vector<Lin> ra,rb;
    try{ // fast: keep A equalities that hold identically in B
      std::vector<const Lin*> arest; for(auto&e:A.eq){ Lin r=B.reduce(e); if(r.t.empty()&&r.c==0) res.push_back(e); else arest.push_back(&e);} 
      if(arest.empty()) return res; 
      // remaining: find combos sum alpha_i * arest_i that reduce to 0 in B. reduce is linear up to scaling: use rational reduce
      std::map<int,int> col; std::vector<std::map<int,Rat>> rows; for(auto*e:arest){ I64 sc=1; Lin r=B.reduce(*e,&sc); std::map<int,Rat> m; for(auto&p:r.t){ m[p.first]=Rat::mk(p.second,sc);} if(r.c) m[INT32_MAX]=Rat::mk(r.c,sc); rows.push_back(m);} 
      // gaussian elimination with tracking
      size_t n=rows.size(); std::vector<std::vector<Rat>> trk(n,std::vector<Rat>(n)); for(size_t i=0;i<n;i++)trk[i][i]=Rat(1);
      std::vector<char> done(n,0); for(size_t i=0;i<n;i++){ while(!rows[i].empty()&&rows[i].begin()->second.isZero()) rows[i].erase(rows[i].begin()); }
      for(size_t step=0;step<n;step++){ int p=-1; for(size_t i=0;i<n;i++) if(!done[i]&&!rows[i].empty()){p=i;break;} if(p<0) break; done[p]=1; int d=rows[p].begin()->first; Rat pv=rows[p].begin()->second;
        for(size_t i=0;i<n;i++) if(!done[i]){ auto it=rows[i].find(d); if(it==rows[i].end()) continue; Rat f=it->second/pv; for(auto&q:rows[p]){ Rat nv=rows[i][q.first]-f*q.second; if(nv.isZero()) rows[i].erase(q.first); else rows[i][q.first]=nv; } for(size_t k=0;k<n;k++) trk[i][k]=trk[i][k]-f*trk[p][k]; } }
      for(size_t i=0;i<n;i++) if(!done[i]&&rows[i].empty()){ I128 L=1; for(size_t k=0;k<n;k++){ I128 g=gcd128(L,trk[i][k].d); L=L/g*trk[i][k].d; ck(L);} Lin acc; for(size_t k=0;k<n;k++) if(!trk[i][k].isZero()){ acc=Lin::comb(acc,1,*arest[k],ck((I128)trk[i][k].n*(L/trk[i][k].d))); } if(normEq(acc)&&!acc.t.empty()) res.push_back(acc); }
    }catch(Overflow&){} return res; }
};
