  // ================================================================ transfer functions
  std::map<int,std::pair<int,const Value*>> dimVal; // dim -> (kind,value), filled lazily by project()
  size_t dimValSeen=0;
  void refreshDims(){ for(auto&k:dimId) dimVal[k.second]={k.first.first,(const Value*)k.first.second}; dimValSeen=dimId.size(); }
  void project(St&s,BasicBlock*S){ if(s.p.bot) return; if(dimValSeen!=dimId.size()) refreshDims(); auto&lv=live[S]; auto isLive=[&](const Value*v){ if(lv.count(const_cast<Value*>(v))) return true; if(auto*ph=dyn_cast<PHINode>(v)) return ph->getParent()==S; return false; };
    for(auto it=s.preg.begin();it!=s.preg.end();) if(!isLive(it->first)) it=s.preg.erase(it); else ++it;
    std::set<int> keepReg; for(auto&p:s.preg) keepReg.insert(p.second); for(auto&c:s.cur) keepReg.insert(c.second); for(auto&c:s.cells){ keepReg.insert(c.first.first); if(c.second.ptr) keepReg.insert(c.second.reg); }
    std::set<int> keepG; for(int r:keepReg) if(R[r].sized) for(auto&t:R[r].size.t) keepG.insert(t.first); for(auto&c:s.cells) keepG.insert(dcell(c.first,c.second.ptr)); for(auto&w:s.w){ keepG.insert(wOff(w.first)); if(w.second.st==1) keepG.insert(wVal(w.first)); } for(int r:s.f) for(int i=0;i<4;i++) keepG.insert(fDim(r,i));
    for(auto*v:lv) { auto qi=quo.find(v); if(qi!=quo.end()) for(auto&p:qi->second) keepG.insert(p.second); auto it=ghostOf.find(v); if(it!=ghostOf.end()) keepG.insert(it->second); }
    std::set<int> ds; s.p.dims(ds); for(int d:ds){ if(s.p.bot) return; auto it=dimVal.find(d); if(it!=dimVal.end()){ int kd=it->second.first; if(kd<=2){ if(isLive(it->second.second)) continue; } s.p.forget(d); } else if(!keepG.count(d)) s.p.forget(d); } }
  std::map<const Value*,int> ghostOf; // e.g. size seen by empty()
  I64 elemSize(const MName&m){ std::string t=m.targs; if(m.cls=="std::__cxx11::basic_string") return t.compare(0,6,"<char,")==0?1:0; if(t.size()<3) return 0; int dep=0; size_t e=1; for(size_t i=0;i<t.size();i++){ if(t[i]=='<')dep++; else if(t[i]=='>'){ dep--; } if((t[i]==','&&dep==1)||dep==0){ e=i; break;} } std::string x=t.substr(1,e-1); while(!x.empty()&&x.back()==' ')x.pop_back(); if(x.empty()) return 0; if(x.back()=='*') return 8; static std::map<std::string,I64> S={{"char",1},{"unsigned char",1},{"signed char",1},{"short",2},{"unsigned short",2},{"int",4},{"unsigned int",4},{"long",8},{"unsigned long",8},{"long long",8},{"unsigned long long",8},{"float",4},{"double",8},{"std::pair<char const*, char const*>",16},{"std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >",32},{"std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>",32},{"std::pair<unsigned long, unsigned long>",16}}; auto it=S.find(x); return it==S.end()?0:it->second; }
  static std::vector<std::string> paramList(const std::string&p){ std::vector<std::string> r; if(p.empty()||p[0]!='(') return r; int d=0; std::string cur; for(size_t i=1;i<p.size();i++){ char c=p[i]; if(c=='<'||c=='(')d++; if(c=='>'||(c==')'&&d>0)){ d--; cur+=c; continue;} if(c==')'&&d==0){ if(!cur.empty()) r.push_back(cur); break; } if(c==','&&d==0){ r.push_back(cur); cur.clear(); i++; continue;} cur+=c; } if(r.size()==1&&r[0]=="void") r.clear(); return r; }
  static bool constMethod(const std::string&p){ size_t n=p.size(); return n>=5&&p.compare(n-5,5,"const")==0; }
  void havoc(St&s,Instruction*I){ if(I->getType()->isPointerTy()) setP(s,I,UNK,Lin(0)); else if(isIntV(I)) havocI(s,I); }
  bool escaped(int r){ if(R[r].k==R_ALLOCA){ auto it=escC.find(r); if(it!=escC.end()) return it->second; bool e=escapes(R[r].base,0); return escC[r]=e; } return true; }
  std::map<int,bool> escC;
  bool escapes(Value*v,int d){ if(d>8) return true; for(auto*U:v->users()){ if(isa<LoadInst>(U)) continue; if(auto*st=dyn_cast<StoreInst>(U)){ if(st->getValueOperand()==v) return true; continue; } if(isa<GetElementPtrInst>(U)||isa<PHINode>(U)||isa<SelectInst>(U)){ if(isa<PHINode>(U)) return true; if(escapes(cast<Value>(U),d+1)) return true; continue; } if(auto*C=dyn_cast<CallBase>(U)){ if(isa<DbgInfoIntrinsic>(C)||isa<MemIntrinsic>(C)) continue; if(auto*ii=dyn_cast<IntrinsicInst>(C)){ auto id=ii->getIntrinsicID(); if(id==Intrinsic::lifetime_start||id==Intrinsic::lifetime_end||id==Intrinsic::dbg_declare) continue; } if(auto*cf=C->getCalledFunction()){ std::string n=cf->getName().str(); if(n.compare(0,3,"vp_")==0||n=="memcmp"||n=="strlen") continue; MName m=splitName(demName(cf)); if(isModelClass(m.cls)) continue; } return true; } if(isa<ICmpInst>(U)||isa<PtrToIntInst>(U)) continue; return true; } return false; }
  void clobberUnknown(St&s){ std::set<int> rs; for(auto&c:s.cells) rs.insert(c.first.first); for(int r:rs) if(R[r].k!=R_BUF&&escaped(r)) killCells(s,r); }
  void opaque(St&s,CallBase*C){ std::string n=C->getCalledFunction()?demName(C->getCalledFunction()):"<indirect>"; if(checking) unkCalls.insert(n); 
    if(C->getCalledFunction()){ MName m=splitName(n); if(isContained(m.cls)||(m.cls=="std"&&(m.meth=="getline"||m.meth=="operator<<"||m.meth=="operator>>")&&n.find("stream")!=std::string::npos)){ for(unsigned i=0;i<C->arg_size();i++){ Value*a=C->getArgOperand(i); if(!a->getType()->isPointerTy()) continue; PV p=evalP(s,a); if(p.reg<=2) continue; I64 o; I64 N=(I64)C->getParamDereferenceableBytes(i); if(!N) N=(I64)C->getCalledFunction()->getParamDereferenceableBytes(i); if(!N&&C->getParamStructRetType(i)) N=(I64)DL.getTypeAllocSize(C->getParamStructRetType(i));
        if(N&&constOf(s,p.off,o)){ killRange(s,p.reg,o,N); for(auto&c:std::map<CKey,int>(s.cur)) if(c.first.first==p.reg&&c.first.second>=o&&c.first.second<o+N) setSizeUnknown(s,c.first,C); }
        else { killCells(s,p.reg); for(auto&c:std::map<CKey,int>(s.cur)) if(c.first.first==p.reg) setSizeUnknown(s,c.first,C); } } havoc(s,C); return; } }
    bool ro=C->onlyReadsMemory(); if(!ro){ for(auto&a:C->args()) if(a->getType()->isPointerTy()){ PV p=evalP(s,a); if(p.reg>2){ killCells(s,p.reg); killWatch(s,p.reg); for(auto&c:std::map<CKey,int>(s.cur)) if(c.first.first==p.reg) setSizeUnknown(s,c.first,C); } } clobberUnknown(s); }
    havoc(s,C); }
  Lin byteSize(St&s,CKey k){ return R[curRegion(s,k)].size; }
  // ---- std container / string model. returns false when the method is not understood
  bool model(St&s,CallBase*C,const MName&m,const Key&key){ bool sret=C->hasStructRetAttr(); unsigned ti=sret?1:0; if(C->arg_size()<=ti) return false; Value*T=C->getArgOperand(ti); if(!T->getType()->isPointerTy()) return false; if(m.cls!="std::__cxx11::basic_string"&&m.cls!="std::vector") return false; if(m.cls=="std::vector"&&m.targs.compare(0,5,"<bool")==0) return false;
    I64 es=elemSize(m); auto pl=paramList(m.params); auto A=[&](unsigned i)->Value*{ return C->getArgOperand(ti+1+i); }; unsigned na=C->arg_size()-ti-1; const std::string&f=m.meth; bool isStr=m.cls=="std::__cxx11::basic_string"; CKey k; bool ok=objOf(s,T,k);
    if(checking) modelCalls[m.cls+"::"+f]++;
    auto P=[&](unsigned i)->std::string{ return i<pl.size()?pl[i]:""; };
    auto isStrRef=[&](unsigned i){ std::string p=P(i); return p.compare(0,24,"std::__cxx11::basic_stri")==0&&(p.back()=='&'); };
    auto isSelfRef=[&](unsigned i){ std::string p=P(i); return !p.empty()&&p.back()=='&'&&p.compare(0,m.cls.size(),m.cls)==0; };
    auto isPtr=[&](unsigned i){ if(i>=na||!A(i)->getType()->isPointerTy()) return false; if(P(i).compare(0,15,"std::allocator<")==0&&P(i).back()=='&') return false; return P(i).find("basic_string<")==std::string::npos||P(i).find("__normal_iterator")!=std::string::npos; };
    auto isNum=[&](unsigned i){ return i<na&&isIntV(A(i)); };
    // size (bytes) of a value described by arguments i,i+1.. ; returns false if unknown
    auto argLen=[&](unsigned i,Lin&L)->bool{ 
      if(i<na&&isStrRef(i)&&isStr){ CKey q; if(objOf(s,A(i),q)){ L=byteSize(s,q); return true;} return false; }
      if(i<na&&isSelfRef(i)){ CKey q; if(objOf(s,A(i),q)){ L=byteSize(s,q); return true;} return false; }
      if(isPtr(i)&&isPtr(i+1)){ PV a=evalP(s,A(i)),b=evalP(s,A(i+1)); if(a.reg!=b.reg||a.reg==UNK||a.reg==MIX||es==0) return false; L=b.off-a.off; if(checking){ Poly q=s.p; q.meet(-L-1); obl(C,"ordered-range",q.bot,"range [first,last) handed to a container may have last before first: length "+show(safeReduce(s,L))); } s.p.meet(L); access(s,C,a,L,"read-range"); return true; }
      if(isPtr(i)&&isNum(i+1)&&P(i+1)!="char"){ PV a=evalP(s,A(i)); Lin n=evalI(s,A(i+1)); s.p.meet(n); access(s,C,a,n*(es?es:1),"read-range"); L=n*(es?es:1); return true; }
      if(isNum(i)&&(P(i).find("unsigned long")==0)){ Lin n=evalI(s,A(i)); s.p.meet(n); s.p.meet(Lin(MAXSZ)-n); if(!es) return false; L=n*es; return true; }
      if(isPtr(i)&&P(i)=="char const*"){ PV a=evalP(s,A(i)); int g=ghost("strlen@"+std::to_string((size_t)C)); s.p.forget(g); s.p.addIneq(Lin::dim(g)); s.p.addIneq(Lin(MAXSZ)-Lin::dim(g)); if(auto*ce=dyn_cast<GlobalVariable>(A(i))) if(ce->isConstant()&&ce->hasInitializer()) if(auto*cd=dyn_cast<ConstantDataSequential>(ce->getInitializer())) if(cd->isCString()) s.p.addEq(Lin::dim(g)-(I64)(cd->getNumElements()-1)); if(a.reg>2&&R[a.reg].k==R_BUF&&R[a.reg].name.compare(0,8,"C string")==0) s.p.addEq(R[a.reg].size-a.off-1-Lin::dim(g)); L=Lin::dim(g); return true; }
      if(isNum(i)&&P(i)=="char"){ L=Lin(1); return true; }
      return false; };
    // content of the text described by arguments i,i+1 (evaluated in o) placed at constant offset `at` of region r1
    auto contentOf=[&](St&s,St&o,int r1,I64 at,unsigned i,const Lin&L){ I64 n,so; if(i>=na) return;
      if(!s.w.empty()||!s.f.empty()){ PV d{r1,Lin(at)},sp{0,Lin(0)}; CKey q; if(isStr&&isStrRef(i)){ if(objOf(o,A(i),q)){ auto it=o.cur.find(q); if(it!=o.cur.end()) sp=PV{it->second,Lin(0)}; } } else if(isPtr(i)) sp=evalP(o,A(i)); if(sp.reg>2&&sp.reg!=r1){ watchCopy(s,d,sp,L); fillCopy(s,d,sp,L); } } if(isStr&&isStrRef(i)){ CKey q; if(objOf(o,A(i),q)){ auto it=o.cur.find(q); if(it!=o.cur.end()) copyCells(s,it->second,r1,0,-1,at); } return; }
      if(isNum(i)&&P(i)=="char"&&na==1){ putCell(s,r1,at,1,evalI(s,A(i))); return; }
      if(isNum(i)&&isNum(i+1)&&isStr&&constOf(s,L,n)&&n<=64){ for(I64 j=0;j<n;j++) putCell(s,r1,at+j,1,evalI(s,A(i+1))); return; }
      if(isPtr(i)){ PV a=evalP(o,A(i)); if(a.reg<=2||a.reg==r1||!constOf(o,a.off,so)||!constOf(o,L,n)) return; if(R[a.reg].k==R_GLOBAL){ auto*G=cast<GlobalVariable>(R[a.reg].base); if(n<=64) for(I64 j=0;j+es<=n;j+=es){ I64 mn,mx; if(globalRange(G,so+j,so+j,es*8,mn,mx,Lin(0),es)) putCell(s,r1,at+j,es,Lin(mn)); } return; } copyCells(s,a.reg,r1,so,n,at); } };
    auto setTo=[&](CKey q,bool known,const Lin&L){ if(known) setSize(s,q,C,L,true); else setSizeUnknown(s,q,C); };
    if(sret){ CKey r; bool rok=objOf(s,C->getArgOperand(0),r); if(!rok) return true; if(f=="substr"&&ok&&isNum(0)){ Lin L=byteSize(s,k); { Lin pos=evalI(s,A(0)); Lin n; bool kn=false; if(es==1&&s.p.entails(pos)&&s.p.entails(L-pos)){ if(na<2||!isNum(1)) { n=L-pos; kn=true; } else { n=evalI(s,A(1)); if(n.isConst()&&n.c==-1){ n=L-pos; kn=true; } else if(s.p.entails(n)&&s.p.entails(L-pos-n)) kn=true; else if(s.p.entails(n-(L-pos))) { n=L-pos; kn=true; } } }
      if(kn){ int r0=curRegion(s,k); int t=-5; s.p.assign(t,pos); setSize(s,r,C,n,true); int r1=curRegion(s,r); if(r1!=r0){ PV d{r1,Lin(0)},sp{r0,Lin::dim(t)}; Lin nn=byteSize(s,r); watchCopy(s,d,sp,nn); fillCopy(s,d,sp,nn); } s.p.forget(t); return true; } } Lin pos=evalI(s,A(0)); setSizeUnknown(s,r,C); Lin d=byteSize(s,r); s.p.meet(L-d); if(s.p.entails(pos)) s.p.meet(L-pos-d); if(isNum(1)){ Lin n=evalI(s,A(1)); if(s.p.entails(n)) s.p.meet(n-d);} } else setSizeUnknown(s,r,C); return true; }
    if(m.dtor){ if(ok) s.cur.erase(k); return true; }
    if(m.ctor){ if(!ok){ return true; } if(pl.empty()||(pl.size()==1&&P(0).find("std::allocator")==0)){ setTo(k,true,Lin(0)); return true; }
      if(isStrRef(0)&&isStr&&P(0).size()>2&&P(0).substr(P(0).size()-2)=="&&"){ CKey q; if(objOf(s,A(0),q)){ Lin L=byteSize(s,q); int rq=curRegion(s,q); setTo(k,true,L); copyCells(s,rq,curRegion(s,k)); watchCopy(s,PV{curRegion(s,k),Lin(0)},PV{rq,Lin(0)},L); fillCopy(s,PV{curRegion(s,k),Lin(0)},PV{rq,Lin(0)},L); setSizeUnknown(s,q,C);} else setSizeUnknown(s,k,C); return true; }
      if(isStrRef(0)&&isStr&&isNum(1)){ CKey q; setSizeUnknown(s,k,C); if(objOf(s,A(0),q)) s.p.meet(byteSize(s,q)-byteSize(s,k)); return true; }
      if(isSelfRef(0)&&!isStr&&P(0).substr(P(0).size()-2)=="&&"){ CKey q; if(objOf(s,A(0),q)){ Lin L=byteSize(s,q); setTo(k,true,L); setSizeUnknown(s,q,C);} else setSizeUnknown(s,k,C); return true; }
      Lin L; bool kn=argLen(0,L); St old=s; setTo(k,kn,L); if(kn) contentOf(s,old,curRegion(s,k),0,0,L); return true; }
    if(!ok){ // unresolved object: results unknown
      havoc(s,C); return true; }
    if(f=="size"||f=="length"){ Lin L=byteSize(s,k); if(es==1) setI(s,C,L,false); else if(es>1){ s.p.forget(di(C)); s.p.addEq(Lin::dim(di(C))*es-L);} else { s.p.forget(di(C)); s.p.addIneq(Lin::dim(di(C))); s.p.addIneq(L-Lin::dim(di(C))); } return true; }
    if(f=="capacity"||f=="max_size"){ s.p.forget(di(C)); s.p.addIneq(Lin::dim(di(C))); return true; }
    if(f=="empty"){ int g=ghost("emptysz@"+std::to_string((size_t)C)); Lin L=byteSize(s,k); s.p.assign(g,L); ghostOf[C]=g; havocI(s,C); return true; }
    if((f=="begin"||f=="data"||f=="c_str"||f=="cbegin")&&C->getType()->isPointerTy()){ int r=curRegion(s,k); setP(s,C,r,Lin(0)); return true; }
    if((f=="end"||f=="cend")&&C->getType()->isPointerTy()){ int r=curRegion(s,k); setP(s,C,r,R[r].size); return true; }
    if((f=="operator[]"||f=="at")&&isNum(0)&&C->getType()->isPointerTy()){ int r=curRegion(s,k); Lin i=evalI(s,A(0)); if(f=="at"){ s.p.meet(i); if(es) s.p.meet(R[r].size-i*es-es);} else if(checking&&es){ bool lo=s.p.entails(i), hi=s.p.entails(R[r].size-i*es-(isStr?0:es)); obl(C,"index",lo&&hi,"index may be outside the container: index = "+show(safeReduce(s,i))+", bytes = "+show(safeReduce(s,R[r].size))); } if(es) setP(s,C,r,i*es); else setP(s,C,UNK,Lin(0)); return true; }
    if((f=="front"||f=="back")&&C->getType()->isPointerTy()){ int r=curRegion(s,k); if(checking) obl(C,"index",s.p.entails(R[r].size-1),"front()/back() on a possibly empty container"); if(es) setP(s,C,r,f=="front"?Lin(0):R[r].size-es); else setP(s,C,UNK,Lin(0)); return true; }
    // followed bytes of the old buffer that lie below n stay where they are
    auto keepTo=[&](bool known,const Lin&L,const Lin&n){ int r0=curRegion(s,k); std::vector<int> in; for(auto&x:s.w) if(x.second.reg==r0&&x.second.st==1&&s.p.entails(n-Lin::dim(wOff(x.first))-1)) in.push_back(x.first); keepW=true; setTo(k,known,L); keepW=false; int r1=curRegion(s,k); for(auto&x:s.w) if((x.second.reg==r0||x.second.reg==r1)&&x.second.st!=2){ if(std::find(in.begin(),in.end(),x.first)!=in.end()) x.second.reg=r1; else { s.p.forget(wVal(x.first)); x.second.st=2; } } };
    if(f=="resize"){ Lin L; bool kn=es&&isNum(0); if(kn){ Lin n=evalI(s,A(0)); if(checking){ obl(C,"resize-arg",s.p.entails(n),"resize() argument may be a wrapped (huge) value: "+show(safeReduce(s,n))); } s.p.meet(n); s.p.meet(Lin(MAXSZ)-n); L=n*es; } keepTo(kn,L,kn?L:Lin(0)); return true; }
    if(f=="erase"&&es){ Lin sz=byteSize(s,k); int r0=curRegion(s,k); Lin lo,hi; bool kn=false;
      if(isPtr(0)&&isPtr(1)){ PV a=evalP(s,A(0)),b=evalP(s,A(1)); if(a.reg==r0&&b.reg==r0){ lo=a.off; hi=b.off; if(checking) obl(C,"ordered-range",s.p.entails(hi-lo)&&s.p.entails(lo)&&s.p.entails(sz-hi),"erase(first,last): not a range of the container: first "+show(safeReduce(s,lo))+", last "+show(safeReduce(s,hi))); kn=true; } }
      else if(isStr&&na>=1&&isNum(0)){ lo=evalI(s,A(0)); if(na>=2&&isNum(1)){ Lin n=evalI(s,A(1)); bool npos=n.isConst()&&n.c==-1; if(npos) { hi=sz; kn=true; } else if(s.p.entails(n)&&s.p.entails(sz-lo-n)){ hi=lo+n; kn=true; } } else { hi=sz; kn=true; } if(kn) { s.p.meet(lo); s.p.meet(sz-lo); } }
      if(kn){ s.p.meet(lo); s.p.meet(hi-lo); s.p.meet(sz-hi); int t=-5,t2=-6; s.p.assign(t,lo); s.p.assign(t2,sz-hi+lo); keepTo(true,Lin::dim(t2),Lin::dim(t)); int r1=curRegion(s,k); if(C->getType()->isPointerTy()&&isPtr(0)) setP(s,C,r1,Lin::dim(t)); else if(C->getType()->isPointerTy()) retThis(s,C,T); else havoc0(s,C); s.p.forget(t); s.p.forget(t2); return true; } }
    if(f=="reserve"){ Lin L=byteSize(s,k); int r0=curRegion(s,k); keepTo(true,L,L); copyCells(s,r0,curRegion(s,k)); havoc0(s,C); return true; }
    if(f=="clear"){ setTo(k,true,Lin(0)); return true; }
    if(f=="push_back"||f=="emplace_back"){ Lin L=byteSize(s,k); int r0=curRegion(s,k); I64 at; bool ka=es&&constOf(s,L,at); keepTo(es!=0,L+es,L); int r1=curRegion(s,k); if(r0!=r1){ copyCells(s,r0,r1); if(ka&&na&&isIntV(A(0))) putCell(s,r1,at,es,evalI(s,A(0))); } havoc0(s,C); return true; }
    if(f=="pop_back"){ Lin L=byteSize(s,k); keepTo(es!=0,L-es,L-es); return true; }
    if(f=="operator="||f=="assign"){ if(isSelfRef(0)||isStrRef(0)){ CKey q; bool mv=P(0).size()>2&&P(0).substr(P(0).size()-2)=="&&"; if(objOf(s,A(0),q)){ Lin L=byteSize(s,q); int rq=curRegion(s,q); setTo(k,true,L); copyCells(s,rq,curRegion(s,k)); watchCopy(s,PV{curRegion(s,k),Lin(0)},PV{rq,Lin(0)},L); fillCopy(s,PV{curRegion(s,k),Lin(0)},PV{rq,Lin(0)},L); if(mv&&q!=k) setSizeUnknown(s,q,C);} else setSizeUnknown(s,k,C); } else { Lin L; bool kn=argLen(0,L); St old=s; setTo(k,kn,L); if(kn) contentOf(s,old,curRegion(s,k),0,0,L); } retThis(s,C,T); return true; }
    if(f=="append"||f=="operator+="){ Lin L; Lin o=byteSize(s,k); bool kn=argLen(0,L); int r0=curRegion(s,k); I64 at; bool ka=constOf(s,o,at); St old=s; keepTo(kn,o+L,o); int r1=curRegion(s,k); if(r0!=r1){ copyCells(s,r0,r1); if(ka&&kn) contentOf(s,old,r1,at,0,L); } retThis(s,C,T); return true; }
    if(f=="swap"&&na==1){ CKey q; if(objOf(s,A(0),q)){ Lin a=byteSize(s,k),b=byteSize(s,q); int t=-5; s.p.assign(t,a); setTo(k,true,b); setTo(q,true,Lin::dim(t)); s.p.forget(t);} else setSizeUnknown(s,k,C); return true; }
    if(isStr&&(f.compare(0,4,"find")==0||f=="rfind")&&isIntV(C)){ s.p.forget(di(C)); s.p.addIneq(Lin::dim(di(C))+1); s.p.addIneq(byteSize(s,k)-Lin::dim(di(C))); return true; }
    if(constMethod(m.params)){ havoc(s,C); return true; }
    setSizeUnknown(s,k,C); havoc(s,C); return true; }
  void putCell(St&s,int r,I64 o,I64 w,const Lin&e){ int t=-7; s.p.assign(t,e); killRange(s,r,o,w); CKey ck{r,o}; s.p.assign(dcell(ck,0),Lin::dim(t)); s.p.forget(t); s.cells[ck]=Cell{(int)w,false,0}; }
  void havoc0(St&s,CallBase*C){ if(!C->getType()->isVoidTy()) havoc(s,C); }
  void retThis(St&s,CallBase*C,Value*T){ if(C->getType()->isPointerTy()){ PV p=evalP(s,T); setP(s,C,p.reg,p.off);} }
  // ---- memory
  void storeTo(St&s,Value*ptr,Value*val,Instruction*I){ PV p=evalP(s,ptr); I64 w=(I64)DL.getTypeStoreSize(val->getType()); access(s,I,p,Lin(w),"write"); if(p.reg==UNK||p.reg==MIX){ clobberUnknown(s); return; } if(p.reg==NUL) return; if(R[p.reg].k==R_BUF) return; 
    if(R[p.reg].k==R_GLOBAL&&cast<GlobalVariable>(R[p.reg].base)->isConstant()) return;
    I64 o; if(!constOf(s,p.off,o)){ killCells(s,p.reg); return; } bool isP=val->getType()->isPointerTy(); if(!isP&&!isIntV(val)){ killRange(s,p.reg,o,w); return; }
    CKey ck{p.reg,o}; if(isP){ PV v=evalP(s,val); killRange(s,p.reg,o,w); if(v.reg==UNK||v.reg==MIX) return; s.p.assign(dcell(ck,1),v.off); s.cells[ck]=Cell{(int)w,true,v.reg}; return; }
    Lin e=evalI(s,val); int tmp=-6; s.p.assign(tmp,e); killRange(s,p.reg,o,w); if(val->getType()->isIntegerTy(1)) { I64 kk; int d=-1; if(constOf(s,Lin::dim(tmp),kk)) d=kk; (void)d; } s.p.assign(dcell(ck,0),Lin::dim(tmp)); s.p.forget(tmp); s.cells[ck]=Cell{(int)w,false,0}; }
  bool globalRange(GlobalVariable*G,I64 lo,I64 hi,unsigned w,I64&mn,I64&mx,const Lin&,I64 stride){ if(!G->isConstant()||!G->hasInitializer()) return false; Constant*C=G->getInitializer(); bool any=false; for(I64 o=lo;o<=hi;o+=stride){ Constant*e=ConstantFoldLoadFromConst(C,IntegerType::get(G->getContext(),w),APInt(64,o),DL); auto*ci=dyn_cast_or_null<ConstantInt>(e); if(!ci) return false; I64 v=ci->getSExtValue(); if(!any){mn=mx=v;any=true;} else { mn=std::min(mn,v); mx=std::max(mx,v);} if(hi-lo>(1<<20)) return false; } return any; }
  // ---- constant tables at a symbolic offset
  // offsets the expression can take: lo, lo+step, ..., hi
  bool offRange(St&s,const Lin&off,I64 size,I64 w,I64&lo,I64&hi,I64&step){ Lin r; I64 sc=1; try{ r=s.p.reduce(off,&sc); }catch(Overflow&){ return false; } if(sc!=1) r=off; I64 g=0; for(auto&t:r.t) g=gcd64(g,t.second); if(!s.p.minI(off,lo)||!s.p.maxI(off,hi)) return false; if(lo<0||hi>size-w) return false; step=g?g:1; if(g>1){ I64 c=((r.c%g)+g)%g; while(((lo%g)+g)%g!=c) lo++; while(((hi%g)+g)%g!=c) hi--; } return lo<=hi&&(hi-lo)/step<=4096; }
  bool tabVals(GlobalVariable*G,I64 lo,I64 hi,I64 step,unsigned bits,std::vector<I64>&v){ if(!G->isConstant()||!G->hasInitializer()) return false; for(I64 o=lo;o<=hi;o+=step){ auto*ci=dyn_cast_or_null<ConstantInt>(ConstantFoldLoadFromConst(G->getInitializer(),IntegerType::get(G->getContext(),bits),APInt(64,o),DL)); if(!ci) return false; v.push_back(ci->getSExtValue()); } return true; }
  // exact value when the table is affine on the reachable offsets
  bool tabAffine(St&s,LoadInst*L,const PV&p,bool fresh=true){ auto*G=cast<GlobalVariable>(R[p.reg].base); unsigned bits=L->getType()->getIntegerBitWidth(); if(bits%8) return false; I64 lo,hi,st; if(!offRange(s,p.off,R[p.reg].size.c,bits/8,lo,hi,st)) return false; std::vector<I64> v; if(!tabVals(G,lo,hi,st,bits,v)) return false; for(size_t i=2;i<v.size();i++) if(v[i]-v[i-1]!=v[1]-v[0]) return false; I64 sl=v.size()>1?v[1]-v[0]:0; int d=di(L); try{ Lin e=(p.off-lo)*sl-Lin::dim(d)*st+v[0]*st; if(fresh) s.p.forget(d); s.p.meetEq(e); }catch(Overflow&){ return false; } return true; }
  // split by the affine pieces of the table behind a stored value
  bool tabPieces(St&s,Value*val,std::vector<St>&out){ while(isa<CastInst>(val)&&!isa<PtrToIntInst>(val)) val=cast<CastInst>(val)->getOperand(0); auto*L=dyn_cast<LoadInst>(val); if(!L||!isIntV(L)) return false; PV p=evalP(s,L->getPointerOperand()); if(p.reg<=2||R[p.reg].k!=R_GLOBAL) return false; unsigned bits=L->getType()->getIntegerBitWidth(); if(bits%8||bits==1) return false; I64 lo,hi,st; if(!offRange(s,p.off,R[p.reg].size.c,bits/8,lo,hi,st)) return false; std::vector<I64> v; if(!tabVals(cast<GlobalVariable>(R[p.reg].base),lo,hi,st,bits,v)||v.size()<3) return false;
    std::vector<std::pair<size_t,size_t>> pc; for(size_t i=0;i<v.size();){ size_t j=i+1; while(j<v.size()&&(j==i+1||v[j]-v[j-1]==v[i+1]-v[i])) j++; if(j-i==2&&j<v.size()){ // a two-element piece may steal the start of the next one
          if(j+1<v.size()&&v[j+1]-v[j]==v[j]-v[j-1]&&v[j]-v[j-1]!=v[i+1]-v[i]) j=i+1; } pc.push_back({i,j-1}); i=j; } if(pc.size()>64||pc.size()<2) return false;
    for(auto&c:pc){ St t=s; t.p.meet(p.off-(lo+st*(I64)c.first)); t.p.meet(Lin(lo+st*(I64)c.second)-p.off); if(t.p.bot) continue; if(!tabAffine(t,L,p,false)) return false; 
      // casts between the load and the store
      std::vector<CastInst*> cs; out.push_back(t); } return true; }
  // the same for byte d of a wider table entry stored as it is: wd becomes that byte
  bool tabBytePieces(St&s,Value*val,I64 d,int wd,std::vector<St>&out){ auto*L=dyn_cast<LoadInst>(val); if(!L||!isIntV(L)) return false; PV p=evalP(s,L->getPointerOperand()); if(p.reg<=2||R[p.reg].k!=R_GLOBAL) return false; unsigned bits=L->getType()->getIntegerBitWidth(); if(bits%8||d>=bits/8) return false; I64 lo,hi,st; if(!offRange(s,p.off,R[p.reg].size.c,bits/8,lo,hi,st)) return false; std::vector<I64> v; if(!tabVals(cast<GlobalVariable>(R[p.reg].base),lo+d,hi+d,st,8,v)) return false; for(auto&x:v) x&=255;
    std::vector<std::pair<size_t,size_t>> pc; for(size_t i=0;i<v.size();){ size_t j=i+1; while(j<v.size()&&(j==i+1||v[j]-v[j-1]==v[i+1]-v[i])) j++; if(j-i==2&&j<v.size()){ if(j+1<v.size()&&v[j+1]-v[j]==v[j]-v[j-1]&&v[j]-v[j-1]!=v[i+1]-v[i]) j=i+1; } pc.push_back({i,j-1}); i=j; } if(pc.size()>64) return false;
    for(auto&c:pc){ St t=s; t.p.meet(p.off-(lo+st*(I64)c.first)); t.p.meet(Lin(lo+st*(I64)c.second)-p.off); if(t.p.bot) continue; I64 sl=c.second>c.first?v[c.first+1]-v[c.first]:0; try{ Lin e=(p.off-(lo+st*(I64)c.first))*sl-Lin::dim(wd)*st+v[c.first]*st; t.p.forget(wd); t.p.meetEq(e); }catch(Overflow&){ return false; } if(!t.p.bot) out.push_back(t); } return true; }
  // jointly affine bytes of a record copied from a table
  void tabRecord(St&s,const PV&sp,I64 n,int dreg,I64 dOff){ auto*G=cast<GlobalVariable>(R[sp.reg].base); I64 lo,hi,st; if(!offRange(s,sp.off,R[sp.reg].size.c,n,lo,hi,st)) return; size_t m=n+2; std::vector<std::vector<Rat>> rows; std::vector<std::vector<I64>> cols(n); for(I64 j=0;j<n;j++) if(!tabVals(G,lo+j,hi+j,st,8,cols[j])) return; // columns: 1, off, b0..
    // row space of the samples -> null space gives the equalities
    std::vector<int> pivc; for(size_t i=0;i<cols[0].size();i++){ std::vector<Rat> r(m); r[0]=Rat(lo+st*(I64)i); for(I64 j=0;j<n;j++) r[1+j]=Rat(cols[j][i]); r[m-1]=Rat(1); for(size_t k=0;k<rows.size();k++) if(!r[pivc[k]].isZero()){ Rat f=r[pivc[k]]; for(size_t c=0;c<m;c++) if(!rows[k][c].isZero()) r[c]=r[c]-f*rows[k][c]; } int pc=-1; for(size_t c=0;c<m;c++) if(!r[c].isZero()){ pc=c; break; } if(pc<0) continue; Rat pv=r[pc]; for(auto&x:r) x=x/pv; for(size_t k=0;k<rows.size();k++) if(!rows[k][pc].isZero()){ Rat f=rows[k][pc]; for(size_t c=0;c<m;c++) if(!r[c].isZero()) rows[k][c]=rows[k][c]-f*r[c]; } rows.push_back(r); pivc.push_back(pc); if(rows.size()==m) break; }
    std::vector<CKey> ck; int t=-30; for(I64 j=0;j<n;j++){ I64 mn=*std::min_element(cols[j].begin(),cols[j].end()),mx=*std::max_element(cols[j].begin(),cols[j].end()); CKey k{dreg,dOff+j}; int d=dcell(k,0); s.p.forget(d); s.p.addIneq(Lin::dim(d)-mn); s.p.addIneq(Lin(mx)-Lin::dim(d)); s.cells[k]=Cell{1,false,0}; ck.push_back(k); } (void)t;
    // null space: for each free column f: x_f=1, x_piv = -row[f]
    for(size_t f=0;f<m;f++){ if(std::find(pivc.begin(),pivc.end(),(int)f)!=pivc.end()) continue; I128 Lc=1; try{ for(size_t k=0;k<rows.size();k++){ I64 dd=rows[k][f].d; Lc=Lc/gcd128(Lc,dd)*dd; ck_(Lc); } Lin e; auto add=[&](size_t c,Rat x){ I64 v=::ck((I128)x.n*((I64)Lc/x.d)); if(c==0) e=Lin::comb(e,1,sp.off,v); else if(c==m-1) e=e+v; else e=Lin::comb(e,1,Lin::dim(dcell(ck[c-1],0)),v); }; add(f,Rat(1)); for(size_t k=0;k<rows.size();k++) add(pivc[k],-rows[k][f]); s.p.addEq(e); }catch(Overflow&){} } }
  static void ck_(I128 v){ ::ck(v); }
  // ---- watched bytes
  // relation of a block [off,off+n) to watch id: -1 before it, n.. after, else split
  void watchStore(St&s,Instruction*I,Key&key,int id,const PV&p,const Lin&n,Value*val,int srcMode,const PV*sp){ // srcMode 0: store of val; 1: block copy from sp; 2: memset val; 3: unknown bytes
    Lin w=Lin::dim(wOff(id)); if(s.p.entails(p.off-w-1)||s.p.entails(w-p.off-n)) return; // outside
    bool in=s.p.entails(w-p.off)&&s.p.entails(p.off+n-w-1);
    if(!in){ // split off the outside cases (block before the byte, block after it)
      { St t=s; t.p.meet(p.off-w-1); if(!t.p.bot) pend.push_back({key,t}); } { St t=s; t.p.meet(w-p.off-n); if(!t.p.bot) pend.push_back({key,t}); } s.p.meet(w-p.off); s.p.meet(p.off+n-w-1); if(s.p.bot) return; }
    I64 nn; std::vector<std::pair<St,bool>> res; auto unknown=[&](St&t){ int d=wVal(id); t.p.forget(d); t.p.addIneq(Lin::dim(d)); t.p.addIneq(Lin(255)-Lin::dim(d)); };
    auto fin=[&](St&t,bool known){ if(!known) unknown(t); t.w[id].st=1; };
    std::vector<St> outs; std::map<size_t,int> piece; if(srcMode==0&&constOf(s,n,nn)&&nn<=8){ for(I64 d=0;d<nn;d++){ St t=s; t.p.meetEq(w-p.off-d); if(t.p.bot) continue; std::vector<St> ps; if(nn>1&&tabBytePieces(t,val,d,wVal(id),ps)){ int pi=0; for(auto&q:ps){ fin(q,true); outs.push_back(q); piece[outs.size()-1]=++pi; } } else if(nn==1&&isIntV(val)&&tabPieces(t,val,ps)){ int pi=0; for(auto&q:ps){ setByte(q,I,id,val,d,nn); fin(q,true); outs.push_back(q); piece[outs.size()-1]=++pi; } } else { bool k=isIntV(val); if(k) setByte(t,I,id,val,d,nn); fin(t,k); outs.push_back(t); } } }
    else if(srcMode==1){ bool k=false; for(auto&x:s.w) if(x.first!=id&&x.second.st==1&&x.second.reg==sp->reg&&s.p.entailsEq((Lin::dim(wOff(x.first))-sp->off)-(w-p.off))){ s.p.assign(wVal(id),Lin::dim(wVal(x.first))); k=true; break; } St t=s; fin(t,k); outs.push_back(t); }
    else if(srcMode==2&&val){ setByte(s,I,id,val,0,1); St t=s; fin(t,true); outs.push_back(t); }
    else { St t=s; fin(t,false); outs.push_back(t); }
    int wb=3001; if(wKey.count(id)) if(auto*wc=dyn_cast<CallInst>(wKey[id])) if(wc->getCalledFunction()&&wc->getCalledFunction()->getName()=="vp_watch_in") wb=3501; // overwriting given contents is told apart
    Key k2=key; if(wKey.count(id)) keySet(k2,wKey[id],wb); if(outs.empty()){ s.p.setBot(); return; } for(size_t i=1;i<outs.size();i++){ Key k3=k2; if(piece.count(i)&&wKey.count(id)) keySet(k3,wKey[id],wb+piece[i]); pend.push_back({k3,outs[i]}); } s=outs[0]; key=k2; if(piece.count(0)&&wKey.count(id)) keySet(key,wKey[id],wb+piece[0]); }
  // wval(id) := byte d of val
  void setByte(St&s,Instruction*I,int id,Value*val,I64 d,I64 n){ int wd=wVal(id); if(n==1&&isa<TruncInst>(val)){ Value*Y=cast<TruncInst>(val)->getOperand(0); if(isIntV(Y)){ Lin y=evalI(s,Y); if(s.p.entails(y)&&s.p.entails(Lin(255)-y)){ s.p.assign(wd,y); return; } modByte(s,wd,Y,y); return; } }
    Lin a=evalI(s,val); if(n==1){ if(isa<LoadInst>(val)||true){ if(s.p.entails(a)){ s.p.assign(wd,a); return; } if(s.p.entails(-a-1)){ s.p.assign(wd,a+256); return; } modByte(s,wd,val,a); } return; }
    // byte d of a wider value: floor(a/256^d) mod 256
    try{ I64 lo=1; for(I64 i=0;i<d;i++) lo*=256; Lin q=Lin(0); if(d==0) q=a; else { int g=qghost(s,val,a,lo); q=Lin::dim(g); } if(d<7){ int g2=qghost(s,val,a,lo*256); s.p.assign(wd,q-Lin::dim(g2)*256); s.p.addIneq(Lin::dim(wd)); s.p.addIneq(Lin(255)-Lin::dim(wd)); return; } }catch(Overflow&){} s.p.forget(wd); s.p.addIneq(Lin::dim(wd)); s.p.addIneq(Lin(255)-Lin::dim(wd)); }
  void modByte(St&s,int wd,Value*X,const Lin&a){ try{ int q=qghost(s,X,a,256); s.p.assign(wd,a-Lin::dim(q)*256); }catch(Overflow&){ s.p.forget(wd); } s.p.addIneq(Lin::dim(wd)); s.p.addIneq(Lin(255)-Lin::dim(wd)); }
  void watchLoad(St&s,LoadInst*L,Key&key){ if(s.w.empty()||!L->getType()->isIntegerTy(8)) return; PV p=evalP(s,L->getPointerOperand()); for(auto&x:std::map<int,WC>(s.w)){ if(x.second.reg!=p.reg||x.second.st!=1) continue; Lin w=Lin::dim(wOff(x.first)); if(s.p.bot) return; if(s.p.entails(p.off-w-1)||s.p.entails(w-p.off-1)) continue;
      auto rd=[&](St&t){ Lin v=Lin::dim(wVal(x.first)); int d=di(L); if(t.p.entails(Lin(127)-v)) t.p.assign(d,v); else if(t.p.entails(v-128)) t.p.assign(d,v-256); else { auto&m=quo[L]; auto it=m.find(-256); int g; if(it==m.end()){ g=ghost("wsgn@"+std::to_string((size_t)L)); m[-256]=g; } else g=it->second; t.p.forget(g); t.p.assign(d,v-Lin::dim(g)*256); t.p.addIneq(Lin::dim(d)+128); t.p.addIneq(Lin(127)-Lin::dim(d)); } };
      auto seen=[&](){ int b=x.first%100; if(b>=10&&wKey.count(x.first)) keySet(key,wKey[x.first],3002); }; if(s.p.entailsEq(w-p.off)){ rd(s); seen(); continue; } int base=2000; St a=s,b=s,c=s; a.p.meet(w-p.off-1); if(!a.p.bot){ Key k=key; keySet(k,L,base); pend.push_back({k,a}); } b.p.meet(p.off-w-1); if(!b.p.bot){ Key k=key; keySet(k,L,base+2); pend.push_back({k,b}); } c.p.meetEq(w-p.off); s=c; if(!s.p.bot){ keySet(key,L,base+1); rd(s); seen(); } } }
  void watchWrites(St&s,Instruction*I,Key&key,const PV&p,const Lin&n,Value*val,int mode,const PV*sp){ if(s.w.empty()) return; if(p.reg==NUL) return; if(p.reg==UNK||p.reg==MIX){ return; } std::vector<int> ids; for(auto&x:s.w) if(x.second.reg==p.reg) ids.push_back(x.first); St pre=s; size_t base=pend.size(); for(size_t q=0;q<ids.size();q++){ if(s.p.bot) break; watchStore(s,I,key,ids[q],p,n,val,mode,sp); // states split off still have to see the remaining watches
      if(q+1<ids.size()&&pend.size()>base){ std::vector<std::pair<Key,St>> more(pend.begin()+base,pend.end()); pend.resize(base); for(auto&m:more){ Key k=m.first; St t=m.second; std::vector<int> rest(ids.begin()+q+1,ids.end()); for(int r:rest){ if(t.p.bot) break; watchStore(t,I,k,r,p,n,val,mode,sp); } if(!t.p.bot) pend.push_back({k,t}); } base=pend.size(); } } }
  void killWatch(St&s,int reg){ for(auto&x:s.w) if(x.second.reg==reg){ x.second.st=2; s.p.forget(wVal(x.first)); } }
  void loadFrom(St&s,LoadInst*L){ Value*ptr=L->getPointerOperand(); PV p=evalP(s,ptr); Type*ty=L->getType(); I64 w=(I64)DL.getTypeStoreSize(ty); access(s,L,p,Lin(w),"read"); if(!isIntV(L)&&!ty->isPointerTy()) return; 
    if(p.reg==UNK||p.reg==MIX||p.reg==NUL||R[p.reg].k==R_BUF){ havoc(s,L); return; }
    if(R[p.reg].k==R_GLOBAL&&isIntV(L)){ auto*G=cast<GlobalVariable>(R[p.reg].base); if(G->isConstant()&&tabAffine(s,L,p)) return; I64 lo,hi; if(G->isConstant()&&s.p.minI(p.off,lo)&&s.p.maxI(p.off,hi)){ if(lo<0)lo=0; I64 sz=R[p.reg].size.c; if(hi>sz-w)hi=sz-w; I64 mn,mx; if(lo<=hi&&globalRange(G,lo,hi,L->getType()->getIntegerBitWidth(),mn,mx,p.off,w>1&&lo%w==0?w:(w==1?1:1))){ s.p.forget(di(L)); s.p.addIneq(Lin::dim(di(L))-mn); s.p.addIneq(Lin(mx)-Lin::dim(di(L))); return; } } }
    I64 o; if(!constOf(s,p.off,o)){ havoc(s,L); return; } CKey ck{p.reg,o}; auto it=s.cells.find(ck); if(it!=s.cells.end()&&it->second.w==w&&it->second.ptr==ty->isPointerTy()){ if(ty->isPointerTy()) setP(s,L,it->second.reg,Lin::dim(dcell(ck,1))); else { s.p.assign(di(L),Lin::dim(dcell(ck,0))); } return; }
    havoc(s,L); if(isIntV(L)&&ty->getIntegerBitWidth()>1&&!(R[p.reg].k==R_GLOBAL)){ bool overlap=false; for(auto&c:s.cells) if(c.first.first==p.reg&&c.first.second<o+w&&o<c.first.second+c.second.w) overlap=true; if(!overlap){ s.p.assign(dcell(ck,0),Lin::dim(di(L))); s.cells[ck]=Cell{(int)w,false,0}; } } }
  // contents known by range: bytes [0,1) of the region, as signed values, lie in [2,3]
  void fillLoad(St&s,LoadInst*L){ if(s.f.empty()||s.p.bot||!L->getType()->isIntegerTy(8)) return; PV p=evalP(s,L->getPointerOperand()); if(p.reg<=2||!s.f.count(p.reg)) return; int r=p.reg; if(!s.p.entails(p.off-Lin::dim(fDim(r,0)))||!s.p.entails(Lin::dim(fDim(r,1))-p.off-1)) return; s.p.addIneq(Lin::dim(di(L))-Lin::dim(fDim(r,2))); s.p.addIneq(Lin::dim(fDim(r,3))-Lin::dim(di(L))); }
  void fillWrite(St&s,const PV&p,const Lin&n,Value*val){ if(s.f.empty()||s.p.bot) return; if(p.reg==UNK||p.reg==MIX){ for(int r:std::set<int>(s.f)) if(p.reg==MIX||escaped(r)) killFill(s,r); return; } if(p.reg==NUL) return; if(!s.f.count(p.reg)){ if(val&&val->getType()->isIntegerTy(8)&&isa<LoadInst>(val)){ PV q=evalP(s,cast<LoadInst>(val)->getPointerOperand()); if(q.reg>2&&s.f.count(q.reg)){ int r=p.reg; Lin v=evalI(s,val); if(!s.p.entails(v-Lin::dim(fDim(q.reg,2)))||!s.p.entails(Lin::dim(fDim(q.reg,3))-v)) return; s.f.insert(r); s.p.assign(fDim(r,0),p.off); s.p.assign(fDim(r,1),p.off+1); (void)v; s.p.assign(fDim(r,2),Lin::dim(fDim(q.reg,2))); s.p.assign(fDim(r,3),Lin::dim(fDim(q.reg,3))); keepFill=r; } } return; } int r=p.reg; if(s.p.entails(Lin::dim(fDim(r,0))-p.off-n)||s.p.entails(p.off-Lin::dim(fDim(r,1)))){ keepFill=r; return; } if(val&&val->getType()->isIntegerTy(8)){ Lin v=evalI(s,val); if(s.p.entails(v-Lin::dim(fDim(r,2)))&&s.p.entails(Lin::dim(fDim(r,3))-v)){ keepFill=r; return; } } killFill(s,r); }
  void fillCopy(St&s,const PV&d,const PV&sp,const Lin&n){ if(s.p.bot||d.reg<=2||sp.reg<=2||!s.f.count(sp.reg)||d.reg==sp.reg) return; int r=sp.reg; if(!s.p.entails(sp.off-Lin::dim(fDim(r,0)))||!s.p.entails(Lin::dim(fDim(r,1))-sp.off-n)) return; Lin lo=Lin::dim(fDim(r,2)),hi=Lin::dim(fDim(r,3)); killFill(s,d.reg); s.f.insert(d.reg); s.p.assign(fDim(d.reg,0),d.off); s.p.assign(fDim(d.reg,1),d.off+n); s.p.assign(fDim(d.reg,2),lo); s.p.assign(fDim(d.reg,3),hi); }
  bool fillOver(St&s,const PV&a,const Lin&L,Lin&lo,Lin&hi){ if(a.reg<=2||!s.f.count(a.reg)) return false; int r=a.reg; if(!s.p.entails(a.off-Lin::dim(fDim(r,0)))||!s.p.entails(Lin::dim(fDim(r,1))-a.off-L)) return false; lo=Lin::dim(fDim(r,2)); hi=Lin::dim(fDim(r,3)); return true; }
  // comparison of two blocks from what is known about their contents
  int cmpKind(St&s,const PV&a,const PV&b,const Lin&L){ if(s.p.entails(-L)) return 0; Lin al,ah,bl,bh; bool fa=fillOver(s,a,L,al,ah),fb=fillOver(s,b,L,bl,bh);
    if(fa&&fb&&s.p.entailsEq(al-ah)&&s.p.entailsEq(bl-bh)&&s.p.entailsEq(al-bl)) return 0;
    if(a.reg==b.reg&&a.reg>2&&s.p.entailsEq(a.off-b.off)) return 0;
    bool differ=false; auto neg=[&](const Lin&x){ return s.p.entails(-x-1); }; auto pos=[&](const Lin&x){ return s.p.entails(x); };
    if(fa&&fb&&(s.p.entails(al-bh-1)||s.p.entails(bl-ah-1))) differ=true;
    auto inside=[&](const PV&p,int id){ Lin w=Lin::dim(wOff(id)); return s.p.entails(w-p.off)&&s.p.entails(p.off+L-w-1); };
    auto vsFill=[&](int id,const Lin&lo,const Lin&hi){ Lin v=Lin::dim(wVal(id)); if(pos(lo)) return s.p.entails(v-hi-1)||s.p.entails(lo-v-1); if(neg(hi)) return s.p.entails(v-hi-257)||s.p.entails(lo+256-v-1); return false; };
    for(auto&x:s.w){ if(differ||x.second.st!=1) continue; if(x.second.reg==a.reg&&fb&&inside(a,x.first)&&vsFill(x.first,bl,bh)) differ=true; if(x.second.reg==b.reg&&fa&&inside(b,x.first)&&vsFill(x.first,al,ah)) differ=true;
      if(x.second.reg==a.reg&&inside(a,x.first)) for(auto&y:s.w) if(y.second.st==1&&y.second.reg==b.reg&&s.p.entailsEq((Lin::dim(wOff(x.first))-a.off)-(Lin::dim(wOff(y.first))-b.off))&&(s.p.entails(Lin::dim(wVal(x.first))-Lin::dim(wVal(y.first))-1)||s.p.entails(Lin::dim(wVal(y.first))-Lin::dim(wVal(x.first))-1))) differ=true; }
    return differ?1:-1; }
  void cmpModel(St&s,CallBase*C,const PV&a,const PV&b,const Lin&L,Key&key){ Lin D=Lin::dim(di(C)); int kind=cmpKind(s,a,b,L); if(kind==0){ s.p.assign(di(C),Lin(0)); return; } bool differ=kind==1;
    auto nz=[&](){ St t=s; t.p.meet(-D-1); if(!t.p.bot){ Key k=key; keySet(k,C,4011); pend.push_back({k,t}); } s.p.meet(D-1); keySet(key,C,4012); };
    if(differ){ Poly q=s.p; q.meet(-L); if(q.bot) { nz(); return; } St t=s; t.p.meet(-L); if(!t.p.bot){ Key k=key; keySet(k,C,4010); t.p.assign(di(C),Lin(0)); pend.push_back({k,t}); } s.p.meet(L-1); nz(); return; }
    St t=s; t.p.meet(-L); if(!t.p.bot&&!s.p.entails(L-1)){ Key k=key; keySet(k,C,4010); t.p.assign(di(C),Lin(0)); pend.push_back({k,t}); s.p.meet(L-1); keySet(key,C,4013); } }
  // a copied block carries the watches inside it along (id+100)
  void watchCopy(St&s,const PV&d,const PV&sp,const Lin&n){ if(s.p.bot||d.reg<=2||sp.reg<=2||d.reg==sp.reg) return; for(auto&x:std::map<int,WC>(s.w)){ if(x.first>=500||x.second.reg!=sp.reg||x.second.st!=1||s.w.count(x.first+100)) continue; Lin w=Lin::dim(wOff(x.first)); if(!s.p.entails(w-sp.off)||!s.p.entails(sp.off+n-w-1)) continue; int id=x.first+100; s.p.assign(wOff(id),w-sp.off+d.off); s.p.assign(wVal(id),Lin::dim(wVal(x.first))); s.w[id]=WC{d.reg,1}; if(wKey.count(x.first)) wKey[id]=wKey[x.first]; } }
  void memXfer(St&s,Instruction*I,Value*dst,Value*src,Value*len,bool move){ PV d=evalP(s,dst); Lin n=evalI(s,len); if(checking&&!n.isConst()) obl(I,"length",s.p.entails(n),"block length may be a wrapped (huge) value: "+show(safeReduce(s,n))); s.p.meet(n); if(s.p.bot) return; access(s,I,d,n,"write"); std::map<CKey,Cell> moved; I64 nc=-1,dstO=0,so=0; bool kc=constOf(s,n,nc); PV sp; bool kd=d.reg!=UNK&&d.reg!=MIX&&d.reg!=NUL&&constOf(s,d.off,dstO);
    if(src){ sp=evalP(s,src); access(s,I,sp,n,"read"); if(!move&&checking&&sp.reg==d.reg&&sp.reg!=UNK&&sp.reg!=MIX){ Lin df=d.off-sp.off; bool disj=false; try{ disj=s.p.entails(df-n)||s.p.entails(-df-n)||s.p.entails(-n)||s.p.entailsEq(df); if(!disj){ Poly q=s.p; q.meet(n-1); disj=q.bot||q.entails(df-n)||q.entails(-df-n); } }catch(Overflow&){} obl(I,"memcpy-overlap",disj,"memcpy between overlapping parts of "+rname(d.reg)); }
      if(kc&&nc>0&&nc<=4096&&kd&&sp.reg>2&&constOf(s,sp.off,so)){ for(auto&c:s.cells) if(c.first.first==sp.reg&&c.first.second>=so&&c.first.second+c.second.w<=so+nc) moved[c.first]=c.second; } }
    if(d.reg==UNK||d.reg==MIX){ clobberUnknown(s); return; } if(d.reg==NUL||R[d.reg].k==R_BUF) return; std::vector<std::tuple<CKey,Cell,int>> nw; int t=-20; for(auto&c:moved){ s.p.assign(t,Lin::dim(dcell(c.first,c.second.ptr))); nw.push_back({CKey{d.reg,c.first.second-so+dstO},c.second,t}); t--; }
    if(kc&&kd) killRange(s,d.reg,dstO,nc); else killCells(s,d.reg);
    if(src&&kc&&kd&&nc>0&&nc<=8&&sp.reg>2&&R[sp.reg].k==R_GLOBAL&&cast<GlobalVariable>(R[sp.reg].base)->isConstant()){ tabRecord(s,sp,nc,d.reg,dstO); return; }
    for(auto&x:nw){ s.p.assign(dcell(std::get<0>(x),std::get<1>(x).ptr),Lin::dim(std::get<2>(x))); s.cells[std::get<0>(x)]=std::get<1>(x); s.p.forget(std::get<2>(x)); }
    if(!src&&kc&&kd){ if(auto*ms=dyn_cast<MemSetInst>(I)) if(auto*ci=dyn_cast<ConstantInt>(ms->getValue())) if(ci->isZero()&&nc<=64&&R[d.reg].k!=R_GLOBAL){ for(I64 o=0;o+8<=nc;o+=8){ CKey ck{d.reg,dstO+o}; s.p.assign(dcell(ck,0),Lin(0)); s.cells[ck]=Cell{8,false,0}; } } } }
  void memXferW(St&s,Key&key,CallBase*I,Value*dst,Value*src,Value*len,bool move){ PV d,sp; Lin n; bool w=!s.w.empty()||!s.f.empty(); if(w){ d=evalP(s,dst); n=evalI(s,len); if(src) sp=evalP(s,src); } if(w) fillWrite(s,d,n,nullptr); keepFill=-1; memXfer(s,I,dst,src,len,move); if(w&&!s.p.bot){ if(src) fillCopy(s,d,sp,n); watchWrites(s,I,key,d,n,src?nullptr:I->getArgOperand(1),src?1:2,&sp); if(src) watchCopy(s,d,sp,n); } }
  int allocRegion(St&s,CallBase*C,RK k,const std::string&nm,const Lin&size){ int r=newRegion(C,k,C,nm); R[r].sized=true; int d=ghost("size#"+std::to_string(r)); R[r].size=Lin::dim(d); killCells(s,r); s.p.assign(d,size); setP(s,C,r,Lin(0)); return r; }
  // returns false if control does not continue past the call
  bool callAbs(St&s,CallBase*C){ auto*F0=C->getCalledFunction(); if(!F0||!C->getType()->isIntegerTy()) return false; StringRef n=F0->getName(); if(!(n=="abs"||n=="labs"||n=="llabs"||n.starts_with("llvm.abs."))) return false; Lin a=evalI(s,C->getArgOperand(0)); int d=di(C); if(s.p.entails(a)){ s.p.assign(d,a); return true; } if(a.coef(d)){ havocI(s,C); return true; } unsigned w=C->getType()->getIntegerBitWidth(); I64 lo; bool b=n=="abs"||n=="labs"||n=="llabs"||(s.p.minI(a,lo)&&lo>-(1LL<<62)&&(w==64||lo>-(1LL<<(w-1)))); if(!b) if(auto*pz=dyn_cast<ConstantInt>(C->getArgOperand(1))) b=pz->isOne(); if(s.p.entails(-a)&&b){ s.p.assign(d,-a); return true; } havocI(s,C); if(b){ s.p.addIneq(Lin::dim(d)); s.p.addIneq(Lin::dim(d)-a); s.p.addIneq(Lin::dim(d)+a); } return true; }
  bool call(St&s,CallBase*C,Key&key){ if(checking) nCalls++; if(callAbs(s,C)) return true; if(auto*ii=dyn_cast<IntrinsicInst>(C)){ switch(ii->getIntrinsicID()){ case Intrinsic::memcpy: case Intrinsic::memcpy_inline: memXferW(s,key,C,C->getArgOperand(0),C->getArgOperand(1),C->getArgOperand(2),false); return true; case Intrinsic::memmove: memXferW(s,key,C,C->getArgOperand(0),C->getArgOperand(1),C->getArgOperand(2),true); return true; case Intrinsic::memset: memXferW(s,key,C,C->getArgOperand(0),nullptr,C->getArgOperand(2),true); return true; 
        case Intrinsic::assume: assume(s,C->getArgOperand(0),true,key); return true;
        case Intrinsic::expect: { setI(s,C,evalI(s,C->getArgOperand(0)),false); return true; }
        case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: { PV p=evalP(s,C->getArgOperand(1)); if(p.reg>2){ killCells(s,p.reg); for(auto it=s.cur.begin();it!=s.cur.end();) if(it->first.first==p.reg) it=s.cur.erase(it); else ++it; } return true; }
        case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::experimental_noalias_scope_decl: return true;
        case Intrinsic::fshl: { I64 a,b,k; if(C->getType()->isIntegerTy(64)&&constOf(s,evalI(s,C->getArgOperand(0)),a)&&constOf(s,evalI(s,C->getArgOperand(1)),b)&&constOf(s,evalI(s,C->getArgOperand(2)),k)&&k>=0&&k<64){ uint64_t r=k?(((uint64_t)a<<k)|((uint64_t)b>>(64-k))):(uint64_t)a; setI(s,C,Lin((I64)r),false); return true; } havoc(s,C); return true; }
        case Intrinsic::umin: case Intrinsic::smin: { Lin a=evalI(s,C->getArgOperand(0)),b=evalI(s,C->getArgOperand(1)); bool sg=ii->getIntrinsicID()==Intrinsic::smin; havocI(s,C); if(sg||(s.p.entails(a)&&s.p.entails(b))){ s.p.addIneq(a-Lin::dim(di(C))); s.p.addIneq(b-Lin::dim(di(C))); if(!sg) s.p.addIneq(Lin::dim(di(C))); } return true; }
        case Intrinsic::umax: case Intrinsic::smax: { Lin a=evalI(s,C->getArgOperand(0)),b=evalI(s,C->getArgOperand(1)); bool sg=ii->getIntrinsicID()==Intrinsic::smax; havocI(s,C); if(sg||(s.p.entails(a)&&s.p.entails(b))){ s.p.addIneq(Lin::dim(di(C))-a); s.p.addIneq(Lin::dim(di(C))-b); } return true; }
        default: if(!C->getType()->isVoidTy()) havoc(s,C); return true; } }
    Function*Fn=C->getCalledFunction(); if(!Fn){ opaque(s,C); return true; } std::string n=Fn->getName().str();
    if(n.compare(0,3,"vp_")==0){ if(n=="vp_size"){ s.p.forget(di(C)); s.p.addIneq(Lin::dim(di(C))); s.p.addIneq(Lin(MAXSZ)-Lin::dim(di(C))); return true; }
      if(n=="vp_buf"||n=="vp_ubuf"){ Lin L=evalI(s,C->getArgOperand(0)); s.p.meet(L); allocRegion(s,C,R_BUF,"input/output buffer (driver line "+std::to_string(C->getDebugLoc()?C->getDebugLoc().getLine():0)+")",L); return true; }
      if(n=="vp_mem"){ Lin L=evalI(s,C->getArgOperand(0)); s.p.meet(L); allocRegion(s,C,R_HEAP,"object (driver line "+std::to_string(C->getDebugLoc()?C->getDebugLoc().getLine():0)+")",L); return true; }
      if(n=="vp_cstr"){ Lin L=evalI(s,C->getArgOperand(0)); s.p.meet(L); allocRegion(s,C,R_BUF,"C string (driver line "+std::to_string(C->getDebugLoc()?C->getDebugLoc().getLine():0)+")",L+1); return true; }
      if(n=="vp_str"||n=="vp_obj"){ int r=newRegion(C,R_OBJ,C,"object returned at driver line "+std::to_string(C->getDebugLoc()?C->getDebugLoc().getLine():0)); setP(s,C,r,Lin(0)); return true; }
      if(n=="vp_fail"){ if(checking){ auto*ci=dyn_cast<ConstantInt>(C->getArgOperand(0)); std::string id=ci?std::to_string(ci->getSExtValue()):"?"; if(DBG&&!s.p.bot){ errs()<<"FAILREL "; C->print(errs()); errs()<<"\n"; dump(s);} bool emp=s.p.bot; if(!emp){ Lin all; for(auto&e:s.p.eq) for(auto&q:e.t) if(!all.coef(q.first)) all=all+Lin::dim(q.first); for(auto&e:s.p.in) for(auto&q:e.t) if(!all.coef(q.first)) all=all+Lin::dim(q.first); Poly::deep=false; Poly t=s.p; emp=t.intEmpty(all); Poly::deep=true; } oblRel(C,id,emp); } return false; }
      if(n=="vp_stop") return true;
      if(n=="vp_watch_locals"){ auto*ci=dyn_cast<ConstantInt>(C->getArgOperand(0)); int id=ci?(int)ci->getSExtValue():0; Lin L=evalI(s,C->getArgOperand(1)); Lin off=evalI(s,C->getArgOperand(2)); if(!L.isConst()) return true; for(auto&BB:*C->getFunction()) for(auto&J:BB) if(auto*A=dyn_cast<AllocaInst>(&J)){ if(!isa<ConstantInt>(A->getArraySize())||(I64)DL.getTypeAllocSize(A->getAllocatedType())!=L.c) continue; auto it=regOf.find(A); if(it==regOf.end()) continue; if(id>8) break; wKey[id]=C; CAP=400; s.p.assign(wOff(id),off); s.w[id]=WC{it->second,0}; s.p.forget(wVal(id)); id++; } return true; }
      if(n=="vp_watch"||n=="vp_watch_in"){ auto*ci=dyn_cast<ConstantInt>(C->getArgOperand(0)); int id=ci?(int)ci->getSExtValue():0; PV p=evalP(s,C->getArgOperand(1)); if(p.reg<=2){ s.w.erase(id); return true; } wKey[id]=C; CAP=400; s.p.assign(wOff(id),p.off); bool in=n=="vp_watch_in"; s.w[id]=WC{p.reg,in?1:0}; if(in){ Lin v=evalI(s,C->getArgOperand(2)); s.p.assign(wVal(id),v); } else s.p.forget(wVal(id)); keySet(key,C,in?3001:3000); return true; }
      if(n=="vp_fill"){ PV p=evalP(s,C->getArgOperand(0)); Lin n=evalI(s,C->getArgOperand(1)),lo=evalI(s,C->getArgOperand(2)),hi=evalI(s,C->getArgOperand(3)); if(p.reg<=2) return true; killFill(s,p.reg); s.f.insert(p.reg); s.p.assign(fDim(p.reg,0),p.off); s.p.assign(fDim(p.reg,1),p.off+n); s.p.assign(fDim(p.reg,2),lo); s.p.assign(fDim(p.reg,3),hi); return true; }
      if(n=="vp_wget"){ auto*ci=dyn_cast<ConstantInt>(C->getArgOperand(0)); int id=ci?(int)ci->getSExtValue():0; auto it=s.w.find(id); if(it==s.w.end()||it->second.st==2){ s.p.forget(di(C)); s.p.addIneq(Lin::dim(di(C))+1); s.p.addIneq(Lin(255)-Lin::dim(di(C))); } else if(it->second.st==0) s.p.assign(di(C),Lin(-1)); else s.p.assign(di(C),Lin::dim(wVal(id))); return true; }
      if(n=="vp_end"){ if(checking) ended=true; return true; }
      if(n=="vp_dump"){ if(DBG&&checking){ errs()<<"DUMP\n"; dump(s);} return true; }
      if(!C->getType()->isVoidTy()) havoc(s,C); return true; }
    if(n=="memcpy"){ memXferW(s,key,C,C->getArgOperand(0),C->getArgOperand(1),C->getArgOperand(2),false); retThis(s,C,C->getArgOperand(0)); return true; }
    if(n=="memmove"){ memXferW(s,key,C,C->getArgOperand(0),C->getArgOperand(1),C->getArgOperand(2),true); retThis(s,C,C->getArgOperand(0)); return true; }
    if(n=="memcmp"||n=="strncmp"||n=="bcmp"){ PV a=evalP(s,C->getArgOperand(0)),b=evalP(s,C->getArgOperand(1)); Lin L=evalI(s,C->getArgOperand(2)); s.p.meet(L); access(s,C,a,L,"read"); access(s,C,b,L,"read"); havoc(s,C); if(n!="strncmp"&&!s.p.bot) cmpModel(s,C,a,b,L,key); return !s.p.bot; }
    if(n=="strnlen"){ PV a=evalP(s,C->getArgOperand(0)); Lin m=evalI(s,C->getArgOperand(1)); s.p.forget(di(C)); Lin r=Lin::dim(di(C)); s.p.addIneq(r); s.p.addIneq(m-r); if(a.reg>2&&R[a.reg].sized){ Lin len=R[a.reg].size-a.off-1; if(R[a.reg].k==R_BUF&&R[a.reg].name.compare(0,8,"C string")==0){ s.p.addIneq(len-r); if(s.p.entails(m-len)) s.p.addEq(len-r); else if(s.p.entails(len-m)) s.p.addEq(m-r); } else s.p.addIneq(len+1-r); } return true; }
    if(n=="strlen"){ PV a=evalP(s,C->getArgOperand(0)); s.p.forget(di(C)); s.p.addIneq(Lin::dim(di(C))); if(a.reg>2&&R[a.reg].sized){ if(R[a.reg].k==R_BUF&&R[a.reg].name.compare(0,8,"C string")==0) s.p.addEq(R[a.reg].size-a.off-1-Lin::dim(di(C))); else s.p.addIneq(R[a.reg].size-a.off-1-Lin::dim(di(C))); } else s.p.addIneq(Lin(MAXSZ)-Lin::dim(di(C))); return true; }
    if(n=="memchr"||n=="strchr"){ havoc(s,C); return true; }
    if(n=="_Znwm"||n=="_Znam"||n=="malloc"){ Lin L=evalI(s,C->getArgOperand(0)); s.p.meet(L); allocRegion(s,C,R_HEAP,"heap block",L); return true; }
    if(n=="_ZdlPv"||n=="_ZdaPv"||n=="_ZdlPvm"||n=="_ZdaPvm"||n=="free"){ return true; }
    if(Fn->doesNotReturn()||C->doesNotReturn()){ return false; }
    if((n=="tolower"||n=="toupper")&&(!s.w.empty()||!s.f.empty())&&isIntV(C->getArgOperand(0))){ // C locale: only the 26 letters change
      int lo=n=="toupper"?97:65, hi=lo+25, dl=n=="toupper"?-32:32; Lin a=evalI(s,C->getArgOperand(0)); Lin D=Lin::dim(di(C)); s.p.forget(di(C)); St x=s,y=s; x.p.meet(Lin(lo-1)-a); if(!x.p.bot){ Key k=key; keySet(k,C,4001); x.p.assign(di(C),a); pend.push_back({k,x}); } y.p.meet(a-(hi+1)); if(!y.p.bot){ Key k=key; keySet(k,C,4002); y.p.assign(di(C),a); pend.push_back({k,y}); } s.p.meet(a-lo); s.p.meet(Lin(hi)-a); if(s.p.bot) return false; keySet(key,C,4003); s.p.assign(di(C),a+dl); return true; }
    if(n=="isspace"||n=="isdigit"||n=="tolower"||n=="toupper"||n=="isalpha"||n=="isprint"){ havoc(s,C); if(n=="tolower"||n=="toupper"){ s.p.addIneq(Lin::dim(di(C))+255); s.p.addIneq(Lin(255)-Lin::dim(di(C))); } return true; }
    MName m=splitName(demName(Fn)); if(isModelClass(m.cls)&&model(s,C,m,key)) return true;
    if(m.cls=="std"&&(m.meth=="search"||m.meth=="find"||m.meth=="find_if")&&C->getType()->isPointerTy()){ bool se=m.meth=="search"; if(checking) modelCalls["std::"+m.meth]++; PV a=evalP(s,C->getArgOperand(0)),b=evalP(s,C->getArgOperand(1)); PV p,q; if(se){ p=evalP(s,C->getArgOperand(2)); q=evalP(s,C->getArgOperand(3)); }
      if(a.reg==b.reg&&a.reg!=UNK&&a.reg!=MIX&&(!se||(p.reg==q.reg&&p.reg!=UNK&&p.reg!=MIX))){ Lin n=b.off-a.off, mlen=se?q.off-p.off:Lin(1); if(checking){ obl(C,"ordered-range",s.p.entails(n),"searched range may have last before first"); if(se) obl(C,"ordered-range",s.p.entails(mlen),"pattern range may have last before first"); } s.p.meet(n); if(se) s.p.meet(mlen); if(s.p.bot) return false; access(s,C,a,n,"read-range"); if(se) access(s,C,p,mlen,"read-range");
        // searching for a known character in a block whose contents are partly known
        bool haveV=false; Lin v; if(m.meth=="find"&&C->arg_size()==3){ std::string dn=demName(C->getCalledFunction()); if(dn.find("find<char")!=std::string::npos||dn.find("find<unsigned char")!=std::string::npos){ PV vp=evalP(s,C->getArgOperand(2)); I64 vo; if(vp.reg>2&&constOf(s,vp.off,vo)){ auto it=s.cells.find(CKey{vp.reg,vo}); if(it!=s.cells.end()&&it->second.w==1&&!it->second.ptr){ haveV=true; v=Lin::dim(dcell(it->first,0)); } } } }
        // searching for a text in a text of known contents
        if(se&&C->arg_size()==4&&(!s.f.empty()||!s.w.empty())&&s.p.entails(n-mlen)){ int k=cmpKind(s,a,p,mlen); if(k==0){ setP(s,C,a.reg,a.off); return !s.p.bot; } if(k==1&&s.p.entailsEq(n-mlen)&&s.p.entails(mlen-1)){ setP(s,C,a.reg,b.off); return !s.p.bot; } }
        St t=s; bool notFound=true; int wid=-1; if(haveV) for(auto&x:s.w) if(x.second.reg==a.reg&&x.second.st==1){ Lin w=Lin::dim(wOff(x.first)); if(s.p.entails(w-a.off)&&s.p.entails(b.off-w-1)){ Lin d=Lin::dim(wVal(x.first))-v; if(s.p.entailsEq(d)||s.p.entailsEq(d-256)){ notFound=false; wid=x.first; } } }
        if(notFound){ setP(t,C,a.reg,b.off); Key tk=key; keySet(tk,C,0); pend.push_back({tk,t}); } if(haveV&&s.f.count(a.reg)&&s.p.entails(a.off-Lin::dim(fDim(a.reg,0)))&&s.p.entails(Lin::dim(fDim(a.reg,1))-b.off)){ s.p.meet(v-Lin::dim(fDim(a.reg,2))); s.p.meet(Lin::dim(fDim(a.reg,3))-v); if(s.p.bot) return false; }
        Lin lo=a.off,hi=b.off; setP(s,C,a.reg,Lin::dim(doff(C))); s.p.forget(doff(C)); s.p.addIneq(Lin::dim(doff(C))-lo); s.p.meet(hi-mlen-Lin::dim(doff(C))); if(wid>=0) s.p.meet(Lin::dim(wOff(wid))-Lin::dim(doff(C))); keySet(key,C,1); return !s.p.bot; } havoc(s,C); return true; }
    opaque(s,C); return true; }
  bool ended=false; 
  std::map<std::string,Obl> rel;
  void oblRel(Instruction*I,const std::string&id,bool ok){ std::string f,fn,ch; int ln; where(I,f,ln,fn,ch); auto it=rel.find(id); if(it==rel.end()) rel[id]=Obl{"relation",f,fn,ok?"":"asserted relation "+id+" may be violated",ch,ln,ok,1}; else if(!ok) { it->second.ok=false; it->second.msg="asserted relation "+id+" may be violated"; it->second.chain=ch; } }
  // quotient ghosts: floor(X/c) is one dimension shared by every division/remainder of X by c
  std::map<const Value*,std::map<I64,int>> quo;
  int qghost(St&s,const Value*X,const Lin&a,I64 c,I64 shift=0){ auto&m=quo[X]; auto it=m.find(c+shift); int q; if(it==m.end()){ q=ghost("quo@"+vname(X)+"@"+std::to_string((size_t)X)+"/"+std::to_string(c+shift)); m[c+shift]=q; } else q=it->second; if(!s.p.has(q)){ try{ I64 sc=1; Lin r=s.p.reduce(a,&sc); if(sc==1){ Lin L,M; L.c=r.c/c; M.c=r.c%c; if(M.c<0){ M.c+=c; L.c--; } for(auto&x:r.t){ I64 k=x.second/c,rem=x.second%c; if(k) L.t.push_back({x.first,k}); if(rem) M.t.push_back({x.first,rem}); } if(s.p.entails(M)&&s.p.entails(Lin(c-1)-M)){ s.p.assign(q,L); return q; } } }catch(Overflow&){} s.p.addIneq(a-Lin::dim(q)*c); s.p.addIneq(Lin::dim(q)*c+(c-1)-a); } return q; }
  void dropQuo(St&s,const Value*X){ auto it=quo.find(X); if(it!=quo.end()) for(auto&p:it->second) s.p.forget(p.second); }
  void setDiv(St&s,Instruction*I,const Lin&a,I64 c){ if(isa<Constant>(I->getOperand(0))){ I64 k; if(constOf(s,a,k)){ I64 q=k/c; if(k%c<0) q--; s.p.assign(di(I),Lin(q)); return; } } try{ int q=qghost(s,I->getOperand(0),a,c); s.p.assign(di(I),Lin::dim(q)); }catch(Overflow&){ s.p.forget(di(I)); } }
  void setMod(St&s,Instruction*I,Value*X,const Lin&a,I64 c,bool nn){ int d=di(I); try{ int q=qghost(s,X,a,c); if(nn) s.p.addIneq(Lin::dim(q)); s.p.assign(d,a-Lin::dim(q)*c); s.p.addIneq(Lin::dim(d)); s.p.addIneq(Lin(c-1)-Lin::dim(d)); }catch(Overflow&){ s.p.forget(d); s.p.addIneq(Lin::dim(d)); s.p.addIneq(Lin(c-1)-Lin::dim(d)); } }
  void binop(St&s,BinaryOperator*B){ if(!isIntV(B)) return; unsigned w=B->getType()->getIntegerBitWidth(); Value*X=B->getOperand(0),*Y=B->getOperand(1); if(w==1){ return; }
    if(B->getOpcode()==Instruction::Sub){ auto*p=dyn_cast<PtrToIntInst>(X),*q=dyn_cast<PtrToIntInst>(Y); if(p&&q){ PV a=evalP(s,p->getOperand(0)),b=evalP(s,q->getOperand(0)); if(a.reg==b.reg&&a.reg!=UNK&&a.reg!=MIX){ setI(s,B,a.off-b.off,false); return;} havocI(s,B); return; } }
    Lin a=evalI(s,X),b=evalI(s,Y); I64 k; try{ switch(B->getOpcode()){
      case Instruction::Add: setI(s,B,a+b,!(w==64&&smallOp(s,a,b))); return; case Instruction::Sub: setI(s,B,a-b,!(w==64&&smallOp(s,a,b))); return;
      case Instruction::Mul: if(constOf(s,b,k)) setI(s,B,a*k,true); else if(constOf(s,a,k)) setI(s,B,b*k,true); else { I64 ma,mb; bool nn=s.p.entails(a)&&s.p.entails(b)&&s.p.maxI(a,ma)&&s.p.maxI(b,mb)&&ma<(1LL<<30)&&mb<(1LL<<30)&&(w==64||(I128)ma*mb<(I128)1<<(w-1)); havocI(s,B); if(nn){ s.p.addIneq(Lin::dim(di(B))); s.p.addIneq(Lin(ma*mb)-Lin::dim(di(B))); if(s.p.entails(a-1)) s.p.addIneq(Lin::dim(di(B))-b); if(s.p.entails(b-1)) s.p.addIneq(Lin::dim(di(B))-a); try{ s.p.addIneq(b*ma-Lin::dim(di(B))); s.p.addIneq(a*mb-Lin::dim(di(B))); }catch(Overflow&){} } } return;
      case Instruction::Shl: if(constOf(s,b,k)&&k>=0&&k<62) setI(s,B,a*(1LL<<k),true); else havocI(s,B); return;
      case Instruction::SDiv: if(constOf(s,b,k)&&k>0){ if(B->isExact()){ s.p.forget(di(B)); s.p.addEq(Lin::dim(di(B))*k-a); } else if(s.p.entails(a)) setDiv(s,B,a,k); else { havocI(s,B); try{ s.p.addIneq(Lin::dim(di(B))*k+(k-1)-a); s.p.addIneq(a+(k-1)-Lin::dim(di(B))*k);}catch(Overflow&){} } } else havocI(s,B); return;
      case Instruction::UDiv: if(w<=32&&w>1&&constOf(s,b,k)&&k>0&&s.p.entails(-a-1)){ int q=qghost(s,X,a+(1LL<<w),k,1LL<<50); s.p.assign(di(B),Lin::dim(q)); return; } if(constOf(s,b,k)&&k>0&&s.p.entails(a)) setDiv(s,B,a,k); else { havocI(s,B); if(s.p.entails(a)&&s.p.entails(b-1)){ s.p.addIneq(Lin::dim(di(B))); s.p.addIneq(a-Lin::dim(di(B))); } else if(constOf(s,b,k)&&k>1&&w==64){ s.p.addIneq(Lin::dim(di(B))); unsigned __int128 mq=(((unsigned __int128)1)<<64)/k; if(mq<((unsigned __int128)1<<61)) s.p.addIneq(Lin((I64)mq)-Lin::dim(di(B))); } } return;
      case Instruction::LShr: if(constOf(s,b,k)&&k>=0&&k<62){ if(s.p.entails(a)) setDiv(s,B,a,1LL<<k); else { havocI(s,B); if(k>0){ s.p.addIneq(Lin::dim(di(B))); if(w-k<62) s.p.addIneq(Lin((1LL<<(w-k))-1)-Lin::dim(di(B))); } } } else { havocI(s,B); if(s.p.entails(a)){ s.p.addIneq(Lin::dim(di(B))); s.p.addIneq(a-Lin::dim(di(B))); } } return;
      case Instruction::AShr: if(constOf(s,b,k)&&k>=0&&k<62) setDiv(s,B,a,1LL<<k); else havocI(s,B); return;
      case Instruction::URem: if(w<=32&&w>1&&constOf(s,b,k)&&k>0&&s.p.entails(-a-1)){ a=a+(1LL<<w); int q=qghost(s,X,a,k,1LL<<50); s.p.assign(di(B),a-Lin::dim(q)*k); s.p.addIneq(Lin::dim(di(B))); s.p.addIneq(Lin(k-1)-Lin::dim(di(B))); return; } if(constOf(s,b,k)&&k>0){ bool nn=s.p.entails(a); if(nn){ setMod(s,B,X,a,k,true); s.p.addIneq(a-Lin::dim(di(B))); } else { havocI(s,B); s.p.addIneq(Lin::dim(di(B))); s.p.addIneq(Lin(k-1)-Lin::dim(di(B))); } } else { bool nb=s.p.entails(b-1), nn=s.p.entails(a); havocI(s,B); if(nb){ s.p.addIneq(Lin::dim(di(B))); s.p.addIneq(b-1-Lin::dim(di(B))); if(nn) s.p.addIneq(a-Lin::dim(di(B))); } } return;
      case Instruction::SRem: if(constOf(s,b,k)&&k!=0){ if(k<0)k=-k; if(s.p.entails(a)){ setMod(s,B,X,a,k,true); s.p.addIneq(a-Lin::dim(di(B))); } else { havocI(s,B); s.p.addIneq(Lin::dim(di(B))+(k-1)); s.p.addIneq(Lin(k-1)-Lin::dim(di(B))); } } else havocI(s,B); return;
      case Instruction::And: { Value*XX=X; if(constOf(s,a,k)&&!constOf2(s,b)){ std::swap(a,b); XX=Y; } if(constOf(s,b,k)){ if(k>=0&&((k+1)&k)==0&&k<(1LL<<60)){ setMod(s,B,XX,a,k+1,false); if(s.p.entails(a)) s.p.addIneq(a-Lin::dim(di(B))); } else if(k>=0){ Lin e; if(maskLin(s,XX,a,k,w,e)){ s.p.assign(di(B),e); s.p.addIneq(Lin::dim(di(B))); s.p.addIneq(Lin(k)-Lin::dim(di(B))); return; } havocI(s,B); s.p.addIneq(Lin::dim(di(B))); s.p.addIneq(Lin(k)-Lin::dim(di(B))); if(s.p.entails(a)) s.p.addIneq(a-Lin::dim(di(B))); } else { I64 m=-k; Lin e; if((m&(m-1))!=0&&maskLin(s,XX,a,~k,w,e)){ setI(s,B,a-e,true); return; } if((m&(m-1))==0&&m<(1LL<<60)){ int q=ghost("quo@"+std::to_string((size_t)B)); s.p.forget(q); s.p.forget(di(B)); s.p.addEq(Lin::dim(di(B))-Lin::dim(q)*m); s.p.addIneq(a-Lin::dim(di(B))); s.p.addIneq(Lin::dim(di(B))+(m-1)-a); } else havocI(s,B); } } else { bool na=s.p.entails(a),nb=s.p.entails(b); havocI(s,B); if(na||nb) s.p.addIneq(Lin::dim(di(B))); if(na) s.p.addIneq(a-Lin::dim(di(B))); if(nb) s.p.addIneq(b-Lin::dim(di(B))); } return; }
      case Instruction::Or: { if(constOf(s,a,k)&&!constOf2(s,b)){ std::swap(a,b); std::swap(X,Y); } if(constOf(s,b,k)&&k>=0){ Lin e; if(maskLin(s,X,a,k,w,e)){ setI(s,B,a+k-e,true); return; } } if(disjointBits(s,a,b)){ setI(s,B,a+b,true); return; } bool na=s.p.entails(a),nb=s.p.entails(b); I64 ma,mb; bool ba=na&&s.p.maxI(a,ma)&&ma<(1LL<<60), bb=nb&&s.p.maxI(b,mb)&&mb<(1LL<<60); havocI(s,B); if(na&&nb){ s.p.addIneq(Lin::dim(di(B))-a); s.p.addIneq(Lin::dim(di(B))-b); s.p.addIneq(a+b-Lin::dim(di(B))); if(ba&&bb){ I64 m=std::max(ma,mb),u=1; while(u<=m)u<<=1; s.p.addIneq(Lin(u-1)-Lin::dim(di(B))); } } return; }
      case Instruction::Xor: if(constOf(s,b,k)&&k==-1){ setI(s,B,Lin(-1)-a,false); return; } if(constOf(s,b,k)&&k>=0){ Lin e; if(maskLin(s,X,a,k,w,e)){ setI(s,B,a+k-e-e,true); return; } } if(disjointBits(s,a,b)){ setI(s,B,a+b,true); return; } { bool na=s.p.entails(a),nb=s.p.entails(b); I64 ma,mb; bool ba=na&&s.p.maxI(a,ma)&&ma<(1LL<<60), bb=nb&&s.p.maxI(b,mb)&&mb<(1LL<<60); havocI(s,B); if(na&&nb){ s.p.addIneq(Lin::dim(di(B))); s.p.addIneq(a+b-Lin::dim(di(B))); if(ba&&bb){ I64 m=std::max(ma,mb),u=1; while(u<=m)u<<=1; s.p.addIneq(Lin(u-1)-Lin::dim(di(B))); } } } return;
      default: havocI(s,B); return; } }catch(Overflow&){ havocI(s,B); } }
  // a & k for a constant k >= 0, as a combination of quotient dimensions
  bool maskLin(St&s,Value*X,const Lin&a,I64 k,unsigned w,Lin&e){ e=Lin(0); int runs=0; try{ for(int i=0;i<60;){ if(!((k>>i)&1)){ i++; continue; } int j=i; while(j<60&&((k>>j)&1)) j++; if(j>=60||++runs>6) return false; Lin qi=i?Lin::dim(qghost(s,X,a,1LL<<i)):a; Lin qj=Lin::dim(qghost(s,X,a,1LL<<j)); e=e+(qi-qj*(1LL<<(j-i)))*(1LL<<i); i=j; } }catch(Overflow&){ return false; } return true; }
  bool disjointBits(St&s,const Lin&a,const Lin&b){ for(int t=0;t<2;t++){ const Lin&x=t?b:a,&y=t?a:b; I64 m; if(!s.p.entails(y)||!s.p.entails(x)||!s.p.maxI(y,m)||m>=(1LL<<60)) continue; I64 u=1; while(u<=m) u<<=1; if(u==1) return true; I64 sc=1; Lin r; try{ r=s.p.reduce(x,&sc); }catch(Overflow&){ continue; } bool ok=sc==1&&r.c%u==0; for(auto&q:r.t) if(q.second%u) ok=false; if(ok) return true; } return false; }
  bool smallOp(St&,const Lin&,const Lin&){ return false; }
  bool constOf2(St&s,const Lin&b){ I64 k; return constOf(s,b,k); }
  std::map<Value*,int> ovf; // with.overflow calls
  bool step(St&s,Instruction*I,Key&key){ // false => dead
    if(!quo.empty()) dropQuo(s,I);
    if(isa<PHINode>(I)||isa<ICmpInst>(I)||isa<FCmpInst>(I)||isa<PtrToIntInst>(I)) { if(isa<PtrToIntInst>(I)) s.p.forget(di(I)); return true; }
    if(auto*A=dyn_cast<AllocaInst>(I)){ int r=newRegion(A,R_ALLOCA,A,"local object '"+vname(A)+"'"); R[r].sized=true; I64 n=1; if(auto*ci=dyn_cast<ConstantInt>(A->getArraySize())) n=ci->getSExtValue(); else R[r].sized=false; R[r].size=Lin((I64)DL.getTypeAllocSize(A->getAllocatedType())*n); killCells(s,r); setP(s,A,r,Lin(0)); return true; }
    if(auto*B=dyn_cast<BinaryOperator>(I)){ binop(s,B); return true; }
    if(auto*L=dyn_cast<LoadInst>(I)){ loadFrom(s,L); fillLoad(s,L); watchLoad(s,L,key); return true; }
    if(auto*S=dyn_cast<StoreInst>(I)){ PV wp; if(!s.w.empty()||!s.f.empty()) wp=evalP(s,S->getPointerOperand()); if(!s.f.empty()) fillWrite(s,wp,Lin((I64)DL.getTypeStoreSize(S->getValueOperand()->getType())),S->getValueOperand()); storeTo(s,S->getPointerOperand(),S->getValueOperand(),S); keepFill=-1; if(!s.w.empty()) watchWrites(s,S,key,wp,Lin((I64)DL.getTypeStoreSize(S->getValueOperand()->getType())),S->getValueOperand(),0,nullptr); return true; }
    if(auto*G=dyn_cast<GetElementPtrInst>(I)){ PV p=evalP(s,G->getPointerOperand()); if(G->getType()->isVectorTy()) return true; if(p.reg==UNK){ setP(s,G,UNK,Lin(0)); return true; } Lin off=p.off; bool ok=true; try{ for(auto it=gep_type_begin(G),e=gep_type_end(G);it!=e;++it){ Value*ix=it.getOperand(); if(StructType*st=it.getStructTypeOrNull()){ off=off+(I64)DL.getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); } else { I64 sz=(I64)DL.getTypeAllocSize(it.getIndexedType()); off=off+evalI(s,ix)*sz; } } }catch(Overflow&){ok=false;} if(!ok){ setP(s,G,UNK,Lin(0)); return true; } if(p.reg==MIX){ Lin sz=Lin::dim(p.sizDim); setP(s,G,MIX,off,&sz);} else setP(s,G,p.reg,off); return true; }
    if(auto*Ca=dyn_cast<CastInst>(I)){ Value*x=Ca->getOperand(0); if(Ca->getType()->isPointerTy()){ if(isa<IntToPtrInst>(Ca)){ if(auto*p2=dyn_cast<PtrToIntInst>(x)){ PV p=evalP(s,p2->getOperand(0)); setP(s,Ca,p.reg==MIX?UNK:p.reg,p.off); } else setP(s,Ca,UNK,Lin(0)); } else { PV p=evalP(s,x); if(p.reg==MIX){ Lin z=Lin::dim(p.sizDim); setP(s,Ca,MIX,p.off,&z);} else setP(s,Ca,p.reg,p.off);} return true; }
      if(!isIntV(Ca)) return true; if(!isIntV(x)){ havocI(s,Ca); return true; } unsigned wf=x->getType()->getIntegerBitWidth(),wt=Ca->getType()->getIntegerBitWidth();
      if(isa<ZExtInst>(Ca)){ if(wf==1){ int dcd=decide(s,x,key); havocI(s,Ca); if(dcd>=0) s.p.assign(di(Ca),Lin(dcd)); else { s.p.forget(di(Ca)); s.p.addIneq(Lin::dim(di(Ca))); s.p.addIneq(Lin(1)-Lin::dim(di(Ca))); } return true; } if(auto*tr=dyn_cast<TruncInst>(x)) if(wf<=32&&tr->getOperand(0)->getType()->getIntegerBitWidth()<=64){ Lin y=evalI(s,tr->getOperand(0)); if(s.p.entails(y)&&s.p.entails(Lin((1LL<<wf)-1)-y)) { setI(s,Ca,y,false); return true; } if(s.p.entails(-evalI(s,x)-1)){ setI(s,Ca,evalI(s,x)+(1LL<<wf),false); return true; } if(!s.p.entails(evalI(s,x))){ setMod(s,Ca,tr->getOperand(0),y,1LL<<wf,false); return true; } }
        Lin a=evalI(s,x); if(s.p.entails(a)) setI(s,Ca,a,false); else if(wf<=32){ if(wf==32){ Lin u=unwrap(s,a); if(!(u==a)&&s.p.entails(u)&&s.p.entails(Lin((1LL<<32)-1)-u)){ s.p.assign(di(Ca),u); return true; } } setMod(s,Ca,x,a,1LL<<wf,false); if(s.p.entails(-a-1)) s.p.addEq(Lin::dim(di(Ca))-a-(1LL<<wf)); } else { s.p.forget(di(Ca)); s.p.addIneq(Lin::dim(di(Ca))); if(wf<62) s.p.addIneq(Lin((1LL<<wf)-1)-Lin::dim(di(Ca))); if(s.p.entails(-a-1)) s.p.addEq(Lin::dim(di(Ca))-a-(1LL<<wf)); } return true; }
      if(isa<SExtInst>(Ca)){ if(wf==1){ havocI(s,Ca); return true; } setI(s,Ca,evalI(s,x),false); return true; }
      if(isa<TruncInst>(Ca)){ if(wt==1){ return true; } Lin a=evalI(s,x); setI(s,Ca,a,true); return true; }
      havocI(s,Ca); return true; }
    if(auto*C=dyn_cast<CallBase>(I)) return call(s,C,key);
    if(auto*Fz=dyn_cast<FreezeInst>(I)){ if(Fz->getType()->isPointerTy()){ PV p=evalP(s,Fz->getOperand(0)); setP(s,Fz,p.reg==MIX?UNK:p.reg,p.off);} else if(isIntV(Fz)&&!Fz->getType()->isIntegerTy(1)) setI(s,Fz,evalI(s,Fz->getOperand(0)),false); return true; }
    if(auto*EV=dyn_cast<ExtractValueInst>(I)){ if(auto*W=dyn_cast<WithOverflowInst>(EV->getAggregateOperand())){ Lin a=evalI(s,W->getLHS()),b=evalI(s,W->getRHS()); bool fit=false; Lin r; I64 k; try{ switch(W->getBinaryOp()){ case Instruction::Add: r=a+b; fit=true; break; case Instruction::Sub: r=a-b; fit=true; break; case Instruction::Mul: if(constOf(s,b,k)){ r=a*k; fit=true;} else if(constOf(s,a,k)){ r=b*k; fit=true;} break; default: break; } }catch(Overflow&){fit=false;} if(fit&&!(W->isSigned()||(s.p.entails(a)&&s.p.entails(b)&&s.p.entails(r)))) fit=false; if(fit&&!fits(s,r,W->getLHS()->getType()->getIntegerBitWidth())) fit=false; if(EV->getIndices()[0]==0){ if(fit) setI(s,EV,r,false); else havocI(s,EV); } else { if(fit){ s.p.assign(di(EV),Lin(0)); } else havocI(s,EV); } return true; } havoc(s,EV); return true; }
    if(auto*Se=dyn_cast<SelectInst>(I)){ if(Se->getType()->isIntegerTy(1)) return true; havoc(s,Se); return true; }
    if(!I->getType()->isVoidTy()) havoc(s,I); return true; }
  // ================================================================ edges
  void addState(Dis&D,const Key&k,const St&s,BasicBlock*B){ if(s.p.bot) return; auto it=D.find(k); if(it==D.end()){ D[k]=s; return; } joinInto(it->second,s,B,false); }
  void filterKey(Key&k,BasicBlock*S){ auto&lv=live[S]; Key n; for(auto&p:k) if(lv.count(p.first)||(isa<PHINode>(p.first)&&cast<PHINode>(p.first)->getParent()==S)||p.second>=3000||(p.second>=2000&&derivedLive(p.first,lv))) n.push_back(p); k=n; }
  std::map<Value*,std::set<Value*>> derC; bool derivedLive(Value*v,const std::set<Value*>&lv){ auto it=derC.find(v); if(it==derC.end()){ std::set<Value*> d; std::vector<Value*> w{v}; while(!w.empty()){ Value*x=w.back(); w.pop_back(); for(auto*U:x->users()) if(isa<Instruction>(U)&&!isa<PHINode>(U)&&!isa<LoadInst>(U)&&!isa<CallBase>(U)&&!U->getType()->isVoidTy()&&d.insert(U).second) w.push_back(U); } it=derC.emplace(v,d).first; } for(auto*x:it->second) if(lv.count(x)) return true; return false; }
  // integer phis that only ever hold a few small constants (status flags): partitioned by value
  std::map<PHINode*,bool> fvC; bool fvDone=false;
  bool finiteVal(PHINode*ph){ if(!fvDone){ fvDone=true; std::set<PHINode*> c; for(auto&B:F) for(auto&p:B.phis()) if(isIntV(&p)&&!p.getType()->isIntegerTy(1)) c.insert(&p); bool ch=true; while(ch){ ch=false; for(auto it=c.begin();it!=c.end();){ bool ok=true; for(auto&v:(*it)->incoming_values()){ Value*x=v.get(); if(auto*ci=dyn_cast<ConstantInt>(x)){ if(ci->getBitWidth()<=64&&ci->getSExtValue()>=-8&&ci->getSExtValue()<=64) continue; ok=false; break; } if(isa<UndefValue>(x)) continue; if(auto*q=dyn_cast<PHINode>(x)) if(c.count(q)) continue; ok=false; break; } if(!ok){ it=c.erase(it); ch=true; } else ++it; } }
      // distinct constants reachable per web
      for(auto*p:c){ std::set<PHINode*> seen; std::set<I64> ks; std::vector<PHINode*> w{p}; while(!w.empty()){ auto*q=w.back(); w.pop_back(); if(!seen.insert(q).second) continue; for(auto&v:q->incoming_values()){ if(auto*ci=dyn_cast<ConstantInt>(v.get())) ks.insert(ci->getSExtValue()); else if(auto*r=dyn_cast<PHINode>(v.get())) w.push_back(r); } } if(ks.size()<=4||(ks.size()<=9&&*ks.begin()>=40)) fvC[p]=true; } }
    return fvC.count(ph); }
  void toEdge(BasicBlock*P,BasicBlock*S,St s,Key k,Dis&out){ if(s.p.bot) return;
    // i1 phis first: may split
    std::vector<std::pair<St,Key>> work{{s,k}}; std::vector<PHINode*> bp,ip,pp; for(auto&ph:S->phis()){ if(ph.getType()->isIntegerTy(1)) bp.push_back(&ph); else if(isIntV(&ph)) ip.push_back(&ph); else if(ph.getType()->isPointerTy()) pp.push_back(&ph); }
    std::vector<std::pair<St,std::pair<Key,Key>>> ws; ws.push_back({s,{k,Key()}});
    for(auto*ph:bp){ Value*x=ph->getIncomingValueForBlock(P); std::vector<std::pair<St,std::pair<Key,Key>>> nx; for(auto&w:ws){ if(isa<UndefValue>(x)){ auto w1=w; keySet(w1.second.second,ph,0); nx.push_back(w1); continue; } int d=decide(w.first,x,w.second.first); if(d>=0){ auto w1=w; keySet(w1.second.second,ph,d); nx.push_back(w1);} else for(int v=0;v<2;v++){ auto w1=w; assume(w1.first,x,v,w1.second.first); if(w1.first.p.bot) continue; if(isa<Instruction>(x)) keySet(w1.second.first,x,v); keySet(w1.second.second,ph,v); nx.push_back(w1);} } ws.swap(nx); }
    for(auto&w:ws){ St t=w.first; Key nk=w.second.first; for(auto*ph:bp){ Key q; for(auto&p:nk) if(p.first!=ph) q.push_back(p); nk=q; } for(auto&p:w.second.second) keySet(nk,p.first,p.second);
      // parallel assignment
      std::vector<std::pair<int,int>> ren; int tmp=-100; std::vector<std::pair<PHINode*,int>> newReg; bool simple=ip.size()+pp.size()<=1; (void)simple;
      for(auto*ph:ip){ Lin e=evalI(t,ph->getIncomingValueForBlock(P)); t.p.assign(tmp,e); ren.push_back({tmp,di(ph)}); tmp--; }
      for(auto*ph:pp){ PV v=evalP(t,ph->getIncomingValueForBlock(P)); int r=v.reg; newReg.push_back({ph,r}); if(r!=UNK){ t.p.assign(tmp,v.off); ren.push_back({tmp,doff(ph)}); tmp--; if(r==MIX){ t.p.assign(tmp,Lin::dim(v.sizDim)); ren.push_back({tmp,dsz(ph)}); tmp--; } } else ren.push_back({0,doff(ph)}); }
      for(auto*ph:ip) if(finiteVal(ph)){ I64 kv; Lin e=evalI(t,ph->getIncomingValueForBlock(P)); Key q; for(auto&p:nk) if(p.first!=ph) q.push_back(p); nk=q; if(constOf(t,e,kv)&&kv>=-8&&kv<=64) keySet(nk,ph,(int)kv+1000); }
      if(!getenv("NODIA")&&!LI.isLoopHeader(S)&&pred_size(S)==2&&!coarse.count(S)){ PHINode*dp=nullptr; for(auto*ph:ip) if(!fvC.count(ph)) { dp=ph; break; } if(!dp&&!pp.empty()) dp=pp[0]; if(dp&&diamond(S)){ Key q; for(auto&p:nk) if(p.first!=dp) q.push_back(p); nk=q; keySet(nk,dp,2000+(P==*pred_begin(S)?0:1)); } }
      for(auto*ph:ip) dropQuo(t,ph); for(auto&r:ren){ t.p.forget(r.second); } for(auto&r:ren) if(r.first<0) t.p.rename(r.first,r.second); for(auto&r:newReg) t.preg[r.first]=r.second;
      filterKey(nk,S); project(t,S); if(!t.p.bot) addState(out,nk,t,S); } }
  std::map<std::pair<BasicBlock*,BasicBlock*>,Dis> transferBlock(BasicBlock*B,const Dis&D){ std::map<std::pair<BasicBlock*,BasicBlock*>,Dis> res; for(auto*S:successors(B)) res[{B,S}];
    std::vector<std::pair<Instruction*,std::pair<Key,St>>> stk; for(auto&ks:D) stk.push_back({&B->front(),ks});
    while(!stk.empty()){ auto top=std::move(stk.back()); stk.pop_back(); St s=std::move(top.second.second); Key k=std::move(top.second.first); bool alive=true; for(Instruction*I=top.first;!I->isTerminator();I=I->getNextNode()){ pend.clear(); if(!step(s,I,k)||s.p.bot){ alive=false; } for(auto&x:pend) if(!x.second.p.bot) stk.push_back({I->getNextNode(),x}); pend.clear(); if(!alive) break; } if(!alive||s.p.bot) continue; Instruction*T=B->getTerminator();
      if(auto*br=dyn_cast<BranchInst>(T)){ if(br->isUnconditional()){ toEdge(B,br->getSuccessor(0),s,k,res[{B,br->getSuccessor(0)}]); } else { for(int i=0;i<2;i++){ St t=s; Key kk=k; assume(t,br->getCondition(),i==0,kk); if(t.p.bot) continue; if(isa<Instruction>(br->getCondition())&&!br->getCondition()->hasOneUse()) keySet(kk,br->getCondition(),i==0); if(splitNE(t,br->getCondition(),i==0,B,br->getSuccessor(i),kk,res)) continue; toEdge(B,br->getSuccessor(i),t,kk,res[{B,br->getSuccessor(i)}]); } } }
      else if(auto*sw=dyn_cast<SwitchInst>(T)){ Lin c=evalI(s,sw->getCondition()); St def=s; for(auto&cs:sw->cases()){ St t=s; I64 v=cs.getCaseValue()->getSExtValue(); assumeCmp(t,ICmpInst::ICMP_EQ,c,Lin(v)); assumeCmp(def,ICmpInst::ICMP_NE,c,Lin(v)); Key kk=k; if(!LI.getLoopFor(B)&&isa<Instruction>(sw->getCondition())) keySet(kk,sw->getCondition(),(int)v); if(!t.p.bot) toEdge(B,cs.getCaseSuccessor(),t,kk,res[{B,cs.getCaseSuccessor()}]); } if(!def.p.bot) toEdge(B,sw->getDefaultDest(),def,k,res[{B,sw->getDefaultDest()}]); }
    } return res; }
  // x != y over integers without a known order: split into two states
  bool splitNE(St&t,Value*c,bool pol,BasicBlock*B,BasicBlock*S,Key&kk,std::map<std::pair<BasicBlock*,BasicBlock*>,Dis>&res){ (void)t;(void)c;(void)pol;(void)B;(void)S;(void)kk;(void)res; return false; }
  std::set<BasicBlock*> coarse;
  // S joins the two arms of a branch
  bool diamond(BasicBlock*S){ std::vector<BasicBlock*> ps(pred_begin(S),pred_end(S)); if(ps[0]==ps[1]) return true; auto up=[&](BasicBlock*b){ auto*q=b->getSinglePredecessor(); return q; }; BasicBlock*a=ps[0],*b=ps[1]; return up(a)==b||up(b)==a||(up(a)&&up(a)==up(b)); }
  void coarsen(Dis&D,BasicBlock*B){ Dis n; for(auto&x:D){ Key k; for(auto&p:x.first) if(p.second<2000||p.second>=3000) k.push_back(p); addState(n,k,x.second,B); } D.swap(n); }
  void capDis(Dis&D,BasicBlock*B){ if((int)D.size()>CAP) coarse.insert(B); if(coarse.count(B)) coarsen(D,B); if((int)D.size()<=CAP&&!collapsed.count(B)) return; if(D.size()<=1) { if(D.size()==1&&!D.begin()->first.empty()){ St s=D.begin()->second; D.clear(); D[Key()]=s; } return; } collapsed.insert(B); St acc; bool first=true; for(auto&x:D){ if(first){ acc=x.second; first=false; } else joinInto(acc,x.second,B,false);} D.clear(); D[Key()]=acc; }
  bool disLeq(const Dis&a,const Dis&b){ for(auto&x:a){ auto it=b.find(x.first); if(it==b.end()) return false; if(x.second.preg!=it->second.preg||x.second.cur!=it->second.cur||!sameCells(x.second,it->second)) return false; if(!leq(x.second,it->second)) return false; } return true; }
  Dis gather(BasicBlock*B){ Dis acc; for(auto*P:predecessors(B)){ auto it=edge.find({P,B}); if(it==edge.end()) continue; for(auto&x:it->second) addState(acc,x.first,x.second,B); } capDis(acc,B); return acc; }
  double tLimit=0; std::chrono::steady_clock::time_point t0; struct Timeout{};
  void tick(){ if(tLimit>0&&std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count()>tLimit) throw Timeout(); }
  long nVisits=0; std::vector<std::pair<Key,St>> pend; // extra outcomes of the current instruction
  void solve(){ t0=std::chrono::steady_clock::now(); liveness(); std::vector<BasicBlock*> rpo; ReversePostOrderTraversal<Function*> RT(&F); std::map<BasicBlock*,int> idx; for(auto*B:RT){ idx[B]=rpo.size(); rpo.push_back(B);} 
    St s0; for(auto&a:F.args()){ if(a.getType()->isPointerTy()) s0.preg[&a]=UNK; } BasicBlock*E=&F.getEntryBlock(); in[E][Key()]=s0; std::set<int> wl; wl.insert(0); std::map<BasicBlock*,int> hv; std::map<std::pair<BasicBlock*,Key>,int> dl; int lastB=-1;
    while(!wl.empty()){ tick(); auto wi=wl.end(); // stabilise the innermost loop of the last block before leaving it
      if(lastB>=0) for(Loop*L=LI.getLoopFor(rpo[lastB]);L&&wi==wl.end();L=L->getParentLoop()){ auto first=wl.end(); for(auto it=wl.begin();it!=wl.end();++it) if(L->contains(rpo[*it])){ if(*it>lastB){ wi=it; break; } if(first==wl.end()) first=it; } if(wi==wl.end()) wi=first; }
      if(wi==wl.end()) wi=wl.upper_bound(lastB); if(wi==wl.end()) wi=wl.begin(); int b=*wi; wl.erase(wi); lastB=b; BasicBlock*B=rpo[b]; nVisits++; if(B!=E){ Dis acc=gather(B); if(LI.isLoopHeader(B)){ Dis&old=in[B]; hv[B]++; bool ch=false; if(collapsed.count(B)) capDis(old,B); for(auto&x:acc){ auto it=old.find(x.first); if(it==old.end()){ old[x.first]=x.second; ch=true; } else { int&dc=dl[{B,x.first}]; dc++; if(joinInto(it->second,x.second,B,dc>3)){ ch=true; if(dimDropped) dc=std::min(dc,1); } } } capDis(old,B); if(DBG&&getenv("TRACE")){ errs()<<"HEADER visit "<<hv[B]<<"\n"; for(auto&x:old) dump(x.second);} if(!ch) continue; if(hv[B]>60){ throw Timeout(); } } else { if(visits[B]&&disLeq(acc,in[B])) continue; if(acc.empty()&&in[B].empty()) continue; in[B]=acc; } }
      visits[B]++; auto r=transferBlock(B,in[B]); for(auto&e:r){ edge[e.first]=e.second; if(!e.second.empty()||visits[e.first.second]) wl.insert(idx[e.first.second]); } }
    for(int sweep=0;sweep<2;sweep++) for(auto*B:rpo){ tick(); if(!visits[B]) continue; if(B!=E) in[B]=gather(B); auto r=transferBlock(B,in[B]); for(auto&e:r) edge[e.first]=e.second; }
    checking=true; Poly::deep=true; for(auto*B:rpo) if(visits[B]&&!in[B].empty()){ reached.insert(B); transferBlock(B,in[B]); } checking=false; Poly::deep=false; }
  // ================================================================ termination
  struct LoopRes{ std::string file,func,chain; int line; bool ok; std::string rank; };
  std::vector<LoopRes> loopRes;
  void checkLoops(){ for(auto*L:LI.getLoopsInPreorder()){ BasicBlock*H=L->getHeader(); if(!reached.count(H)) continue; { bool dl=false; SmallVector<BasicBlock*,4> xs; L->getExitingBlocks(xs); for(auto*x:xs) for(auto&I:*x) if(auto*C=dyn_cast<CallBase>(&I)) if(C->getCalledFunction()&&C->getCalledFunction()->getName()=="vp_more") dl=true; if(dl) continue; } LoopRes lr; Instruction*at=H->getTerminator(); for(auto&I:*H) if(I.getDebugLoc()&&!isa<PHINode>(I)){ at=&I; break; } { std::string f,fn,c; int ln; Instruction*best=at; SmallVector<BasicBlock*,4> Ls; L->getLoopLatches(Ls); if(!Ls.empty()&&Ls[0]->getTerminator()->getDebugLoc()) best=Ls[0]->getTerminator(); where(best,f,ln,fn,c); lr.file=f; lr.func=fn; lr.chain=c; lr.line=ln; }
      // old header values: copy phi dims into "old" ghosts, then take states along latch edges
      SmallVector<BasicBlock*,4> latches; L->getLoopLatches(latches); std::vector<PHINode*> phs; for(auto&ph:H->phis()) if((isIntV(&ph)&&!ph.getType()->isIntegerTy(1))||ph.getType()->isPointerTy()) phs.push_back(&ph);
      struct ES{ St s; BasicBlock*lt; }; std::vector<ES> es; for(auto*lt:latches){ if(!reached.count(lt)) continue; for(auto&ks:in[lt]){ St s=ks.second; Key k=ks.first; bool alive=true; for(auto&I:*lt){ if(I.isTerminator()) break; if(!step(s,&I,k)||s.p.bot){alive=false;break;} } if(!alive) continue; Instruction*T=lt->getTerminator(); if(auto*br=dyn_cast<BranchInst>(T)) if(br->isConditional()){ bool t=br->getSuccessor(0)==H; if(!(br->getSuccessor(0)==H&&br->getSuccessor(1)==H)) assume(s,br->getCondition(),t,k); } if(s.p.bot) continue; es.push_back({s,lt}); } }
      if(es.empty()){ lr.ok=true; lr.rank="back edge never taken"; loopRes.push_back(lr); continue; }
      // candidate ranking functions: +-phi, bound - phi, phi - phi
      struct Cand{ std::vector<std::pair<PHINode*,I64>> ph; Lin inv; std::string d; }; 
      auto newVal=[&](ES&e,PHINode*p,Lin&o)->bool{ Value*x=p->getIncomingValueForBlock(e.lt); if(p->getType()->isPointerTy()){ PV v=evalP(e.s,x); auto it=e.s.preg.find(p); if(it==e.s.preg.end()||v.reg==UNK||it->second!=v.reg) return false; o=v.off; return true; } o=evalI(e.s,x); return true; };
      auto oldVal=[&](ES&e,PHINode*p){ (void)e; return p->getType()->isPointerTy()?Lin::dim(doff(p)):Lin::dim(di(p)); };
      // invariants: dims of values defined outside loop, region sizes
      std::set<int> invd; if(dimValSeen!=dimId.size()) refreshDims(); for(auto&e:es){ std::set<int> ds; e.s.p.dims(ds); for(int d:ds){ auto it=dimVal.find(d); if(it!=dimVal.end()){ auto*I=dyn_cast<Instruction>(it->second.second); if(!I||!L->contains(I)) invd.insert(d); } else if(d>=0&&dimName[d].compare(0,5,"size#")==0) invd.insert(d); } }
      std::vector<Cand> cs; for(auto*p:phs){ for(int sg=-1;sg<=1;sg+=2){ Cand c; c.ph.push_back({p,sg}); c.inv=Lin(0); c.d=(sg>0?"":"-")+vname(p); cs.push_back(c); for(int d:invd){ Cand c2=c; c2.inv=Lin::dim(d,-sg); c2.d=c.d+(sg>0?" - ":" + ")+dimName[d]; cs.push_back(c2);} } for(auto*q:phs) if(q!=p){ Cand c; c.ph.push_back({p,1}); c.ph.push_back({q,-1}); c.inv=Lin(0); c.d=vname(p)+" - "+vname(q); cs.push_back(c);} }
      if(cs.size()>400) cs.resize(400); std::vector<char> rem(es.size(),1); int left=es.size(); std::string rank; bool progress=true;
      while(left&&progress){ progress=false; for(auto&c:cs){ bool noninc=true; std::vector<int> decs; for(size_t i=0;i<es.size()&&noninc;i++) if(rem[i]){ Lin o=c.inv,n=c.inv; bool ok=true; try{ for(auto&t:c.ph){ Lin nv; if(!newVal(es[i],t.first,nv)){ok=false;break;} o=o+oldVal(es[i],t.first)*t.second; n=n+nv*t.second; } if(!ok||!es[i].s.p.entails(o-n)){ noninc=false; break; } if(es[i].s.p.entails(o-n-1)&&es[i].s.p.entails(o+(1<<20))) decs.push_back(i); }catch(Overflow&){noninc=false;} } if(noninc&&!decs.empty()){ for(int i:decs){rem[i]=0;left--;} rank+=(rank.empty()?"":", ")+c.d; progress=true; if(!left) break; } } }
      lr.ok=left==0; lr.rank=left?"no ranking function found for the loop":rank; if(left&&DBG){ errs()<<"LOOP no rank header "; H->printAsOperand(errs()); errs()<<" line "<<lr.line<<" "<<lr.func<<"\n"; for(size_t i=0;i<es.size();i++) if(rem[i]){ errs()<<" latch state:\n"; dump(es[i].s);} } loopRes.push_back(lr); } }
