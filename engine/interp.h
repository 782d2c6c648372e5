// Instruction interpreter, externals, harness intrinsics, search and reporting.
enum HK { H_NONE=-1, H_VS, H_GMPZ, H_GMPQ, H_MALLOC, H_CALLOC, H_REALLOC, H_AALLOC, H_FREE, H_NEW, H_DEL, H_ARG0, H_ZERO, H_ONE, H_VOID, H_EXIT, H_ABORT, H_MEMCPY, H_MEMSET, H_MEMCMP, H_STRLEN, H_STRCPY, H_PAGESIZE, H_SYSCONF, H_TIMES, H_GUARDA, H_ATEXIT, H_POOLALLOC, H_POOLFREE, H_POOLSWAP, H_ABS, H_THROW };
static int handlerFor(const std::string&n){
  static std::map<std::string,int> m={{"malloc",H_MALLOC},{"calloc",H_CALLOC},{"realloc",H_REALLOC},{"aligned_alloc",H_AALLOC},{"free",H_FREE},{"_Znwm",H_NEW},{"_Znam",H_NEW},{"_ZnwmRKSt9nothrow_t",H_NEW},{"_ZnamRKSt9nothrow_t",H_NEW},
   {"_ZdlPv",H_DEL},{"_ZdaPv",H_DEL},{"_ZdlPvm",H_DEL},{"_ZdaPvm",H_DEL},{"exit",H_EXIT},{"_exit",H_EXIT},{"abort",H_ABORT},{"__assert_fail",H_ABORT},{"_ZSt9terminatev",H_ABORT},{"__cxa_pure_virtual",H_ABORT},
   {"memcpy",H_MEMCPY},{"memmove",H_MEMCPY},{"memset",H_MEMSET},{"memcmp",H_MEMCMP},{"bcmp",H_MEMCMP},{"strlen",H_STRLEN},{"getpagesize",H_PAGESIZE},{"sysconf",H_SYSCONF},{"times",H_TIMES},{"__cxa_guard_acquire",H_GUARDA},{"__cxa_guard_release",H_VOID},
   {"__cxa_atexit",H_ATEXIT},{"_ZN4GInv9Allocator8allocateEm",H_POOLALLOC},{"_ZN4GInv9Allocator10deallocateEPKvm",H_POOLFREE},{"_ZN4GInv9Allocator4swapERS0_",H_POOLSWAP},{"abs",H_ABS},{"labs",H_ABS},{"llabs",H_ABS},
   {"_ZNSt8ios_base4InitC1Ev",H_VOID},{"_ZNSt8ios_base4InitD1Ev",H_VOID},{"fflush",H_ZERO},{"puts",H_ZERO},{"printf",H_ZERO},{"fprintf",H_ZERO},{"putchar",H_ZERO}};
  auto it=m.find(n); if(it!=m.end()) return it->second;
  if(n.rfind("vs_",0)==0) return H_VS; if(n.rfind("__gmpz_",0)==0) return H_GMPZ; if(n.rfind("__gmpq_",0)==0) return H_GMPQ;
  if(n.rfind("_ZNSols",0)==0||n.rfind("_ZStls",0)==0||n.rfind("_ZSt4endl",0)==0||n.rfind("_ZSt5flush",0)==0||n.rfind("_ZNSo",0)==0||n.rfind("_ZSt16__ostream_insert",0)==0||n.rfind("_ZNKSt8ios_base",0)==0||n.rfind("_ZNSt8ios_base",0)==0) return H_ARG0;
  if(n.rfind("_ZN4GInvlsERSo",0)==0) return H_ARG0;
  if(n.rfind("_ZSt",0)==0&&n.find("__throw")!=std::string::npos) return H_THROW;
  if(n=="__cxa_throw"||n=="__cxa_rethrow"||n=="__cxa_bad_cast") return H_THROW;
  return H_NONE;
}
static Val getOp(Frame&f,const Opnd&o,unsigned k=0){ if(o.slot>=0) return f.r[o.slot+k]; if(!o.agg.empty()) return o.agg[k]; return o.c; }
static void pushFrame(State&s,DFunc*d,const std::vector<Val>&args,DInst*call,int hook=0,uint64_t h0=0,uint64_t h1=0,uint64_t h2=0){
  decode(d); if(!d->counted){ d->counted=true; gFuncs.insert(d->name); }
  if(s.st.size()>600) fail(s,"nontermination","call depth limit (unbounded recursion)");
  Frame f; f.f=d; f.bb=0; f.ip=0; f.r.resize(d->nslots); f.call=call; f.hook=hook; f.h0=h0; f.h1=h1; f.h2=h2; size_t k=0;
  unsigned ai=0;
  for(auto&a:d->args){ for(unsigned i=0;i<a.second&&k<args.size();i++) f.r[a.first+i]=args[k++];
    if(call&&ai<d->F->arg_size()&&d->F->getArg(ai)->hasByValAttr()){ // the callee owns a copy of the caller's object
      uint64_t n=DL->getTypeAllocSize(d->F->getParamByValType(ai)),q=concretize(s,f.r[a.first]),p=newObj(s,n,K_STACK,16); copyMem(s,p,q,n); f.allocas.push_back(p); f.r[a.first]=VC(p,64); }
    ai++; }
  s.st.push_back(std::move(f));
}
static void jump(State&s,int to){ Frame&f=s.st.back(); int from=f.bb; DBlock&b=f.f->blocks[to];
  if(!b.phis.empty()){ std::vector<Val> t; for(auto&p:b.phis){ size_t i=0; while(p.cases[i].second!=from) i++; for(unsigned k=0;k<p.dn;k++) t.push_back(getOp(f,p.ops[i],k)); }
    size_t j=0; for(auto&p:b.phis) for(unsigned k=0;k<p.dn;k++) f.r[p.dst+k]=t[j++]; }
  f.bb=to; f.ip=0; }
static std::string uniq(State&s,const std::string&n){ int k=s.names[n]++; return k?n+"#"+std::to_string(k):n; }
static std::unordered_map<std::string,E> gNamed;
static E namedVar(const std::string&n,unsigned w,i128 lo,i128 hi){ std::string k=n+"/"+std::to_string(w)+"/"+std::to_string((long long)lo)+"/"+std::to_string((long long)hi)+"/"+std::to_string((long long)(hi>>64)); auto it=gNamed.find(k); if(it!=gNamed.end()) return it->second; E e=mkVar(n,w,lo,hi); gNamed[k]=e; return e; }
static std::map<std::string,uint64_t> gTokStr; 
static uint64_t strObj(State&s,const std::string&t){ uint64_t p=newObj(s,t.size()+1,K_GLOBAL); putStr(s,p,t); return p; }
static void checkE(State&s,E c,const std::string&msg){
  gS.checks++; gCheckMsgs[msg]++;
  if(isTrue(c)){ gS.checksTrivial++; return; }
  int k=lookupKnown(s,c); if(k==1){ gS.checksTrivial++; return; }
  if(isFalse(c)||k==0) fail(s,"check",msg);
  if(evalE(c,*s.model).isZero()){ violation(s,"check",msg); // continue on the satisfying side if any
    std::shared_ptr<Model> m; int r=solve(s,c,&m); if(r!=1) throw PathEnd(); s.model=m; addPC(s,c); return; }
  std::shared_ptr<Model> m; int r=solve(s,mkNot(c),&m);
  if(r==0){ gS.checksSolver++; s.known[isNot1(c)?c->a:c]=!isNot1(c); return; }
  if(r<0){ incomplete("solver returned unknown on a check: "+msg); return; }
  violation(s,"check",msg,m); addPC(s,c);
}
static bool vsCall(State&s,const std::string&f,std::vector<Val>&a,Val&ret){
  auto C=[&](int i){ return concretize(s,a[i]); };
  auto boolOf=[&](const Val&v){ return vnot(bin(O_EQ,v,VC(0,v.w))); };
  if(f=="vs_int"){ std::string n=uniq(s,cstr(s,C(0))); int64_t lo=(int64_t)C(1),hi=(int64_t)C(2); 
    if(lo==hi){ s.in.push_back({n,'i',nullptr,std::to_string(lo)}); ret=VC(lo,64); return true; }
    unsigned w=std::max(2u,bitsR(lo,hi)); E e=namedVar(n,w,lo,hi); s.in.push_back({n,'i',e,""}); ret=VE(mkSext(e,64)); return true; }
  if(f=="vs_bool"){ std::string n=uniq(s,cstr(s,C(0))); E e=namedVar(n,1,-1,0); s.in.push_back({n,'u',e,""}); ret=vext(VE(e),32,false); return true; }
  if(f=="vs_pick"){ int64_t n=(int64_t)C(1); std::string nm0=cstr(s,C(0)); int k=s.names[nm0]; std::string nm=k?nm0+"#"+std::to_string(k):nm0;
    if(n<=0) throw PathEnd();
    if(n==1){ s.names[nm0]++; s.in.push_back({nm,'i',nullptr,"0"}); ret=VC(0,32); return true; }
    unsigned w=std::max(2u,bitsR(0,n-1)); E e=namedVar(nm,w,0,n-1); E c=e; // a symbolic choice, resolved by forking
    int64_t v=n-1; for(int64_t i=0;i<n-1;i++) if(decide(s,mkBin(O_EQ,c,mkCu(i,w)))){ v=i; break; }
    s.names[nm0]++; s.in.push_back({nm,'i',e,""}); ret=VC(v,32); return true; }
  if(f=="vs_assume"){ Val b=boolOf(a[0]); E c=toE(b); if(isTrue(c)) return true; if(isFalse(c)) throw PathEnd(); int k=lookupKnown(s,c); if(k==1) return true; if(k==0) throw PathEnd();
    if(!evalE(c,*s.model).isZero()){ addPC(s,c); return true; }
    std::shared_ptr<Model> m; int r=solve(s,c,&m); if(r==0) throw PathEnd(); if(r<0){ incomplete("solver unknown on assume"); throw PathEnd(); } s.model=m; addPC(s,c); return true; }
  if(f=="vs_check"){ checkE(s,toE(boolOf(a[0])),cstr(s,C(1))); return true; }
  if(f=="vs_reach"){ gReached[cstr(s,C(0))]++; return true; }
  if(f=="vs_bigint"){ std::string n=uniq(s,cstr(s,C(0))); int64_t lo=(int64_t)C(1),hi=(int64_t)C(2); bool nz=C(3)!=0;
    E e; if(lo==hi){ e=zc(lo); s.in.push_back({n,'i',nullptr,std::to_string(lo)}); } else { e=namedVar(n,std::max(2u,bitsR(lo,hi)),lo,hi); s.in.push_back({n,'i',e,""}); }
    if(nz&&lo<=0&&hi>=0){ E c=mkNot(zis0(e)); if(!isC(c)&&lookupKnown(s,c)<0){ if(evalE(c,*s.model).isZero()){ std::shared_ptr<Model> m; if(solve(s,c,&m)!=1) throw PathEnd(); s.model=m; } addPC(s,c); } }
    ret=VC(strObj(s,newTok(e)),64); return true; }
  if(f=="vs_zlimbs"){ std::string n=uniq(s,cstr(s,C(0))); unsigned L=C(1); int sg=(int)(int64_t)C(2); // sg: 1 pos, -1 neg
    if(L==0){ s.in.push_back({n,'i',nullptr,"0"}); ret=VC(strObj(s,"0"),64); return true; }
    E m=nullptr; E top=nullptr; for(unsigned i=0;i<L;i++){ E l=namedVar(n+"."+std::to_string(i),64,sMin(64),sMax(64)); top=l; m=m?mkConcat(l,m):l; }
    E v=mkZext(m,64*L+1); if(sg<0) v=mkBin(O_SUB,mkC(APInt(64*L+1,0)),v);
    E c=mkNot(mkBin(O_EQ,top,mkCu(0,64))); if(lookupKnown(s,c)<0){ if(evalE(c,*s.model).isZero()){ std::shared_ptr<Model> mm; if(solve(s,c,&mm)!=1) throw PathEnd(); s.model=mm; } addPC(s,c); }
    s.in.push_back({n,'z',v,""}); ret=VC(strObj(s,newTok(v)),64); return true; }
  if(f=="vs_zstr"){ E e=zfit(toE(a[0])); ret=VC(strObj(s,newTok(e)),64); return true; }
  if(f=="vs_zval"){ std::string t=cstr(s,C(0)); E v=tokE(s,t); if(!v) fail(s,"check","vs_zval: result is not an integer string"); if(v->w>64&&!(bounded(v)&&fits(v->lo,v->hi,64))) fail(s,"engine","vs_zval out of range"); ret=VE(zw(v,64)); return true; }
  if(f=="vs_zeq"){ E x=tokE(s,cstr(s,C(0))),y=tokE(s,cstr(s,C(1))); if(!x||!y) fail(s,"check","result is not an integer string"); ret=vext(VE(zcmpE(O_EQ,x,y)),32,false); return true; }
  if(f=="vs_zcmp"){ E x=tokE(s,cstr(s,C(0))),y=tokE(s,cstr(s,C(1))); ret=VE(mkIte(zcmpE(O_EQ,x,y),mkCu(0,32),mkIte(zcmpE(O_SLT,x,y),mkC(APInt::getAllOnes(32)),mkCu(1,32)))); return true; }
  if(f=="vs_zop"){ char op=(char)C(0); E x=tokE(s,cstr(s,C(1))),y=tokE(s,cstr(s,C(2))); E r=op=='+'?zadd(x,y,false):op=='-'?zadd(x,y,true):op=='*'?zmul(x,y):op=='/'?zdivE(x,y):op=='%'?zremE(x,y):op=='g'?zgcdE(s,x,y):nullptr;
    if(op=='g'&&(limbsUB(x)>1||limbsUB(y)>1)){ unsigned m=std::min(limbsOf(s,x),limbsOf(s,y)); if(m&&r->w>64*m+1) r=mkZext(mkExtract(r,0,64*m),64*m+1); }
    if(op=='/'&&limbsUB(x)>1){ unsigned lx=limbsOf(s,x),ly=limbsOf(s,y); unsigned qn=lx>=ly?lx-ly+1:0; r=qn?(r->w>64*qn+1?mkExtract(r,0,64*qn+1):r):mkCu(0,2); }
    ret=VC(strObj(s,newTok(zfit(r))),64); return true; }
  if(f=="vs_coprime"){ E x=tokE(s,cstr(s,C(0))),y=tokE(s,cstr(s,C(1))); unsigned w=std::max(x->w,y->w)+1; E c=mkBin(O_EQ,mkBin(O_GCD,zw(x,w),zw(y,w)),mkCu(1,w)); 
    if(isTrue(c)) return true; if(isFalse(c)) throw PathEnd(); std::vector<E> fx,fy; zfactors(x,fx); zfactors(y,fy);
    if(!decide(s,c)) throw PathEnd();
    for(E p:fx) for(E q:fy) s.cop.insert({std::min(p->id,q->id),std::max(p->id,q->id)}); return true; }
  if(f=="vs_qtimes"){ // |q|*d as integer when d is a multiple of the denominator
    std::string t=cstr(s,C(0)); int64_t d=(int64_t)C(1); if(t.empty()||t[0]!='Q'){ E v=tokE(s,t); if(!v) fail(s,"check","result is not a rational string"); ret=VE(zw(zmul(v,zc(d)),64)); return true; }
    QVal q=gQ[atoi(t.c_str()+1)]; if(q.den==0||d%(int64_t)q.den){ // exactness must follow from the value
      E n=zmul(q.num,zc(d)); E r=zremE(n,zcu(q.den)); E e=zis0(r); if(!decide(s,e)){ ret=VC(0x7fffffffffffffffull,64); return true; } ret=VE(zw(zdivE(n,zcu(q.den)),64)); return true; }
    ret=VE(zw(zmul(q.num,zc(d/(int64_t)q.den)),64)); return true; }
  if(f=="vs_qlowest"){ std::string t=cstr(s,C(0)); if(t.empty()||t[0]!='Q'){ ret=VC(1,32); return true; } ret=VC(gQ[atoi(t.c_str()+1)].canon,32); return true; }
  if(f=="vs_concrete"){ ret=VC(C(0),64); return true; }
  if(f=="vs_hooks"){ s.hooks=C(0)!=0; return true; }
  if(f=="vs_inside"){ // [p,p+n) lies inside one live heap allocation
    E p=toE(a[0]),n=toE(a[1]); uint64_t pv=evalE(p,*s.model).getLimitedValue(); Obj*o=findObj(s,pv,false);
    if(!o||o->freed||(o->kind!=K_HEAP&&o->kind!=K_AA)){ ret=VC(0,32); return true; }
    E b=mkCu(o->base,64),sz=mkCu(o->size,64); E off=mkBin(O_SUB,p,b); E c=mkBin(O_AND,mkNot(mkBin(O_ULT,sz,off)),mkNot(mkBin(O_ULT,mkBin(O_SUB,sz,off),n)));
    ret=vext(VE(c),32,false); return true; }
  if(f=="vs_heap"){ ret=VC(s.heap,64); return true; }
  if(f=="vs_symbolic"){ ret=VC(1,32); return true; }
  return false;
}
static Val minmax(State&,Val a,Val b,unsigned pred){ return vite(icmp(pred,a,b),a,b); }
static void intrinsic(State&s,DInst&x,std::vector<Val>&a,Frame&f){
  auto set=[&](unsigned k,const Val&v){ f.r[x.dst+k]=v; };
  switch(x.intrin){
  case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::invariant_end: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::prefetch: case Intrinsic::stackrestore: case Intrinsic::donothing: return;
  case Intrinsic::invariant_start: case Intrinsic::stacksave: set(0,VC(0,64)); return;
  case Intrinsic::assume: return;
  case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: set(0,a[0]); return;
  case Intrinsic::is_constant: set(0,VC(0,1)); return;
  case Intrinsic::objectsize: set(0,VC(~0ull,x.w)); return;
  case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { uint64_t d=concretize(s,a[0]),q=concretize(s,a[1]),n=concretize(s,a[2]); copyMem(s,d,q,n); return; }
  case Intrinsic::memset: { uint64_t d=concretize(s,a[0]),n=concretize(s,a[2]); if(n){ Obj*o=access(s,d,n,true); for(uint64_t i=0;i<n;i++) rawStore(o,d-o->base+i,a[1],1);} return; }
  case Intrinsic::smax: set(0,minmax(s,a[0],a[1],CmpInst::ICMP_SGT)); return; case Intrinsic::smin: set(0,minmax(s,a[0],a[1],CmpInst::ICMP_SLT)); return;
  case Intrinsic::umax: set(0,minmax(s,a[0],a[1],CmpInst::ICMP_UGT)); return; case Intrinsic::umin: set(0,minmax(s,a[0],a[1],CmpInst::ICMP_ULT)); return;
  case Intrinsic::abs: set(0,vite(icmp(CmpInst::ICMP_SLT,a[0],VC(0,a[0].w)),bin(O_SUB,VC(0,a[0].w),a[0]),a[0])); return;
  case Intrinsic::fabs: set(0,bin(O_AND,a[0],VC(~(1ull<<63),64))); return;
  case Intrinsic::trap: fail(s,"crash","trap reached");
  case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: {
    Op op=(x.intrin==Intrinsic::sadd_with_overflow||x.intrin==Intrinsic::uadd_with_overflow)?O_ADD:(x.intrin==Intrinsic::ssub_with_overflow||x.intrin==Intrinsic::usub_with_overflow)?O_SUB:O_MUL;
    bool sg=x.intrin==Intrinsic::sadd_with_overflow||x.intrin==Intrinsic::ssub_with_overflow||x.intrin==Intrinsic::smul_with_overflow; unsigned w=a[0].w,W=2*w+2;
    E p=sg?mkSext(toE(a[0]),W):mkZext(toE(a[0]),W),q=sg?mkSext(toE(a[1]),W):mkZext(toE(a[1]),W); E r=mkBin(op,p,q); E t=mkExtract(r,0,w); E back=sg?mkSext(t,W):mkZext(t,W);
    set(0,VE(t)); set(1,VE(mkNot(mkBin(O_EQ,r,back)))); return; }
  case Intrinsic::uadd_sat: { Val r=bin(O_ADD,a[0],a[1]); set(0,vite(icmp(CmpInst::ICMP_ULT,r,a[0]),VC(~0ull,x.w),r)); return; }
  case Intrinsic::usub_sat: set(0,vite(icmp(CmpInst::ICMP_ULT,a[0],a[1]),VC(0,x.w),bin(O_SUB,a[0],a[1]))); return;
  case Intrinsic::ctpop: case Intrinsic::ctlz: case Intrinsic::cttz: { unsigned w=x.w; E v=toE(a[0]); E r;
    if(x.intrin==Intrinsic::ctpop){ r=mkCu(0,w); for(unsigned i=0;i<w;i++) r=mkBin(O_ADD,r,mkZext(mkExtract(v,i,1),w)); }
    else { r=mkCu(w,w); if(x.intrin==Intrinsic::cttz) for(int i=w-1;i>=0;i--) r=mkIte(mkExtract(v,i,1),mkCu(i,w),r); else for(unsigned i=0;i<w;i++) r=mkIte(mkExtract(v,i,1),mkCu(w-1-i,w),r); }
    set(0,VE(r)); return; }
  case Intrinsic::bswap: { E v=toE(a[0]),r=nullptr; for(unsigned i=0;i<x.w;i+=8){ E b=mkExtract(v,i,8); r=r?mkConcat(r,b):b; } set(0,VE(r)); return; }
  case Intrinsic::fshl: case Intrinsic::fshr: { unsigned w=x.w; E c=mkConcat(toE(a[0]),toE(a[1])); uint64_t k=concretize(s,a[2])%w; if(x.intrin==Intrinsic::fshl) set(0,VE(mkExtract(c,w-k,w))); else set(0,VE(mkExtract(c,k,w))); return; }
  case Intrinsic::fmuladd: case Intrinsic::fma: set(0,VE(mkBin(O_FADD,mkBin(O_FMUL,toE(a[0]),toE(a[1])),toE(a[2])))); return;
  }
  incomplete("unsupported intrinsic "+x.cname); throw PathEnd();
}
static void doRet(State&s,std::vector<Val> rv){
  Frame f=std::move(s.st.back()); s.st.pop_back();
  for(uint64_t a:f.allocas) s.mem.erase(a);
  if(f.hook==H_POOLALLOC&&!rv.empty()){ uint64_t r=rv[0].c; if(rv[0].e) r=concretize(s,rv[0]); uint64_t n=f.h1;
    Obj*o=findObj(s,r,true); if(!o||o->freed||(o->kind!=K_AA&&o->kind!=K_HEAP)||r+n>o->base+o->size) fail(s,"pool","pool block not inside memory owned by the pool");
    if(r%16) fail(s,"pool","pool block not 16-byte aligned");
    auto it=s.blocks.upper_bound(r+n-1); if(it!=s.blocks.begin()){ --it; if(it->first+it->second.n>r) fail(s,"pool","pool block overlaps a live block"); }
    if(o->kind==K_AA) { o->pool=true; } o->pool=true; s.blocks[r]={n,f.h0}; }
  if(s.st.empty()){ s.done=true; return; }
  Frame&c=s.st.back();
  if(f.call){ for(unsigned k=0;k<f.call->dn&&k<rv.size();k++) c.r[f.call->dst+k]=rv[k]; if(f.call->opc==Instruction::Invoke) jump(s,f.call->t0); else c.ip++; }
}
static void doCall(State&s,DInst&x){
  Frame&f=s.st.back(); std::vector<Val> a; DFunc*d=x.callee; size_t na=x.ops.size()-(d?0:1);
  for(size_t i=0;i<na;i++) for(unsigned k=0;k<std::max(1u,x.ops[i].n);k++) a.push_back(getOp(f,x.ops[i],k));
  if(x.intrin>0){ intrinsic(s,x,a,f); f.ip++; return; }
  if(!d){ uint64_t p=concretize(s,getOp(f,x.ops.back())); auto it=gFnAddr.find(p); if(it==gFnAddr.end()){ if(isa<CallInst>(x.I)&&cast<CallInst>(x.I)->isInlineAsm()){ incomplete("inline assembly"); throw PathEnd(); } fail(s,"crash","call through a bad function pointer"); } d=it->second; }
  Val ret=VC(0,x.w&&x.w<=64?x.w:64); bool has=x.dn>0;
  auto fin=[&](){ Frame&g=s.st.back(); if(has) g.r[x.dst]=ret.w==x.w||x.w==0?ret:vext(ret,x.w,false); if(x.opc==Instruction::Invoke) jump(s,x.t0); else g.ip++; };
  auto C=[&](size_t i){ return concretize(s,a[i]); };
  bool body=!d->F->isDeclaration();
  switch(d->handler){
  case H_VS: if(body) break; if(!vsCall(s,d->name,a,ret)){ incomplete("unknown intrinsic "+d->name); throw PathEnd(); } fin(); return;
  case H_GMPZ: if(!gmpCall(s,d->name,a,ret)){ incomplete("unmodelled GMP function "+d->name); throw PathEnd(); } fin(); return;
  case H_GMPQ: if(!gmpqCall(s,d->name,a,ret)){ incomplete("unmodelled GMP function "+d->name); throw PathEnd(); } fin(); return;
  case H_MALLOC: case H_NEW: { uint64_t n=C(0); if(n>(64u<<20)) fail(s,"memory","huge allocation request"); ret=VC(newObj(s,n,K_HEAP),64); s.heap+=n; fin(); return; }
  case H_CALLOC: { uint64_t n=C(0)*C(1); uint64_t p=newObj(s,n,K_HEAP); s.heap+=n; Obj*o=findObj(s,p,true); o->d.assign(n,0); o->f.assign(n,1); ret=VC(p,64); fin(); return; }
  case H_AALLOC: { uint64_t al=C(0),n=C(1); if(n>(64u<<20)) fail(s,"memory","huge allocation request"); ret=VC(newObj(s,n,K_AA,al),64); s.heap+=n; fin(); return; }
  case H_REALLOC: { uint64_t p=C(0),n=C(1); uint64_t q=newObj(s,n,K_HEAP); s.heap+=n; if(p){ uint64_t o=s.mem.count(p)?s.mem[p]->size:0; copyMem(s,q,p,std::min(o,n)); freeObj(s,p,K_HEAP,"realloc"); } ret=VC(q,64); fin(); return; }
  case H_FREE: case H_DEL: { uint64_t p=C(0); freeObj(s,p,K_HEAP,"free"); fin(); return; }
  case H_ARG0: if(d->name.rfind("_ZN4GInv",0)!=0&&body) break; ret=a.empty()?VC(0,64):a[0]; fin(); return;
  case H_ZERO: if(body) break; ret=VC(0,x.w?x.w:32); fin(); return;
  case H_VOID: if(body) break; fin(); return;
  case H_EXIT: fail(s,"crash","process exit");
  case H_ABORT: if(body) break; fail(s,"crash","abort or failed assertion");
  case H_THROW: if(body) break; fail(s,"crash","exception thrown");
  case H_MEMCPY: { uint64_t p=C(0),q=C(1),n=C(2); copyMem(s,p,q,n); ret=VC(p,64); fin(); return; }
  case H_MEMSET: { uint64_t p=C(0),n=C(2); Val b=vext(a[1],8,false); if(n){ Obj*o=access(s,p,n,true); for(uint64_t i=0;i<n;i++) rawStore(o,p-o->base+i,b,1);} ret=VC(p,64); fin(); return; }
  case H_MEMCMP: { uint64_t p=C(0),q=C(1),n=C(2); E r=mkCu(0,32); for(int64_t i=(int64_t)n-1;i>=0;i--){ E u=toE(load(s,p+i,8)),v=toE(load(s,q+i,8)); r=mkIte(mkBin(O_EQ,u,v),r,mkIte(mkBin(O_ULT,u,v),mkC(APInt::getAllOnes(32)),mkCu(1,32))); } ret=VE(r); fin(); return; }
  case H_STRLEN: ret=VC(cstr(s,C(0)).size(),64); fin(); return;
  case H_PAGESIZE: if(body) break; ret=VC(4096,32); fin(); return;
  case H_SYSCONF: if(body) break; ret=VC(100,64); fin(); return;
  case H_TIMES: if(body) break; { uint64_t p=C(0); for(int i=0;i<4;i++) store(s,p+8*i,VC(0,64)); ret=VC(0,64); fin(); return; }
  case H_GUARDA: { uint64_t p=C(0); Val v=load(s,p,8); if(v.c){ ret=VC(0,32); } else { store(s,p,VC(1,8)); ret=VC(1,32);} fin(); return; }
  case H_ATEXIT: ret=VC(0,32); fin(); return;
  case H_ABS: if(body) break; ret=vite(icmp(CmpInst::ICMP_SLT,a[0],VC(0,a[0].w)),bin(O_SUB,VC(0,a[0].w),a[0]),a[0]); fin(); return;
  case H_POOLALLOC: { if(a.size()<2||!body||!s.hooks) break; uint64_t th=C(0),n=C(1); if(n==0) fail(s,"pool","zero-sized pool request"); if(n>(1u<<22)) fail(s,"pool","huge pool request"); a[1]=VC(n,64); pushFrame(s,d,a,&x,H_POOLALLOC,th,n); return; }
  case H_POOLFREE: { if(a.size()<3||!body||!s.hooks) break; uint64_t th=C(0),p=C(1),n=C(2); a[2]=VC(n,64); a[1]=VC(p,64); auto it=s.blocks.find(p);
    if(it==s.blocks.end()) fail(s,"pool","block returned to the pool that is not live (double return or foreign block)");
    if(it->second.n!=n) fail(s,"pool","block returned with a different size than requested");
    if(it->second.owner!=th) fail(s,"pool","block returned to a different pool than it came from");
    s.blocks.erase(it); pushFrame(s,d,a,&x); return; }
  case H_POOLSWAP: { if(!body||!s.hooks) break; uint64_t p=C(0),q=C(1); 
    // executed once per call: blocks follow the storage
    for(auto&b:s.blocks) if(b.second.owner==p) b.second.owner=q; else if(b.second.owner==q) b.second.owner=p; pushFrame(s,d,a,&x); return; }
  default: break;
  }
  if(!body){ incomplete("call to external function "+dem(d->name)); throw PathEnd(); }
  pushFrame(s,d,a,&x);
}
static void stepI(State&s){
  Frame&f=s.st.back(); DInst&x=f.f->blocks[f.bb].ins[f.ip]; gS.instrs++; 
  if(++s.instrs>optInstr) fail(s,"nontermination","instruction limit reached (possible non-termination)");
  auto o=[&](int i){ return getOp(f,x.ops[i]); };
  auto setv=[&](const Val&v){ f.r[x.dst]=v; f.ip++; };
  switch(x.opc){
  case Instruction::Add: setv(bin(O_ADD,o(0),o(1))); return; case Instruction::Sub: setv(bin(O_SUB,o(0),o(1))); return; case Instruction::Mul: setv(bin(O_MUL,o(0),o(1))); return;
  case Instruction::And: setv(bin(O_AND,o(0),o(1))); return; case Instruction::Or: setv(bin(O_OR,o(0),o(1))); return; case Instruction::Xor: setv(bin(O_XOR,o(0),o(1))); return;
  case Instruction::Shl: setv(bin(O_SHL,o(0),o(1))); return; case Instruction::LShr: setv(bin(O_LSHR,o(0),o(1))); return; case Instruction::AShr: setv(VE(mkBin(O_ASHR,toE(o(0)),toE(o(1))))); return;
  case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: { Val b=o(1); if(decide(s,toE(bin(O_EQ,b,VC(0,b.w))))) fail(s,"crash","division by zero");
    Op op=x.opc==Instruction::UDiv?O_UDIV:x.opc==Instruction::SDiv?O_SDIV:x.opc==Instruction::URem?O_UREM:O_SREM; setv(VE(mkBin(op,toE(o(0)),toE(b)))); return; }
  case Instruction::ICmp: setv(icmp(x.pred,o(0),o(1))); return;
  case Instruction::FCmp: { E a=toE(o(0)),b=toE(o(1)); E r; switch(x.pred){ case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: r=mkBin(O_FEQ,a,b); break; case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: r=mkNot(mkBin(O_FEQ,a,b)); break;
      case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: r=mkBin(O_FLT,a,b); break; case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: r=mkBin(O_FLT,b,a); break; case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: r=mkBin(O_FLE,a,b); break; default: r=mkBin(O_FLE,b,a); } setv(VE(r)); return; }
  case Instruction::FAdd: setv(VE(mkBin(O_FADD,toE(o(0)),toE(o(1))))); return; case Instruction::FSub: setv(VE(mkBin(O_FSUB,toE(o(0)),toE(o(1))))); return;
  case Instruction::FMul: setv(VE(mkBin(O_FMUL,toE(o(0)),toE(o(1))))); return; case Instruction::FDiv: setv(VE(mkBin(O_FDIV,toE(o(0)),toE(o(1))))); return;
  case Instruction::FNeg: { E a=toE(o(0)); setv(VE(isC(a)?mkC(dAp(-apD(a->v))):mkRaw(O_FNEG,64,a))); return; }
  case Instruction::SIToFP: case Instruction::UIToFP: { E a=toE(o(0)); Op op=x.opc==Instruction::SIToFP?O_SITOFP:O_UITOFP; if(x.w!=64){ incomplete("float"); throw PathEnd(); }
      if(isC(a)) setv(VE(mkC(dAp(op==O_SITOFP?(double)a->v.getSExtValue():(double)a->v.getZExtValue())))); else setv(VE(mkRaw(op,64,a))); return; }
  case Instruction::FPToSI: { E a=toE(o(0)); if(isC(a)) setv(VC((uint64_t)(int64_t)apD(a->v),x.w)); else setv(VE(mkRaw(O_FPTOSI,x.w,a))); return; }
  case Instruction::FPToUI: { E a=toE(o(0)); if(isC(a)) setv(VC((uint64_t)apD(a->v),x.w)); else { incomplete("symbolic fptoui"); throw PathEnd(); } return; }
  case Instruction::Trunc: case Instruction::ZExt: setv(vext(o(0),x.w,false)); return; case Instruction::SExt: setv(vext(o(0),x.w,true)); return;
  case Instruction::PtrToInt: case Instruction::IntToPtr: setv(vext(o(0),x.w,false)); return;
  case Instruction::BitCast: case Instruction::Freeze: case Instruction::AddrSpaceCast: for(unsigned k=0;k<x.dn;k++) f.r[x.dst+k]=getOp(f,x.ops[0],k); f.ip++; return;
  case Instruction::Select: { Val c=o(0); if(c.e){ int k=lookupKnown(s,c.e); if(k>=0) c=VC(k,1); } 
      if(c.e&&(x.dn>1||x.I->getType()->isPointerTy())) c=VC(decide(s,c.e),1);
      for(unsigned k=0;k<x.dn;k++) f.r[x.dst+k]=vite(c,getOp(f,x.ops[1],k),getOp(f,x.ops[2],k)); f.ip++; return; }
  case Instruction::GetElementPtr: { Val b=o(0); b=bin(O_ADD,b,VC((uint64_t)x.goff,64)); for(auto&g:x.gep){ Val i=vext(getOp(f,g.idx),64,true); b=bin(O_ADD,b,bin(O_MUL,i,VC((uint64_t)g.scale,64))); } setv(b); return; }
  case Instruction::Alloca: { uint64_t n=x.sz*concretize(s,o(0)); uint64_t p=newObj(s,n,K_STACK,16); f.allocas.push_back(p); setv(VC(p,64)); return; }
  case Instruction::Load: { uint64_t p=concretize(s,o(0)); for(unsigned k=0;k<x.dn;k++){ unsigned w=x.lay[k].first; if(w==0){ incomplete("load of unsupported type"); throw PathEnd(); }
      Obj*ob=access(s,p+x.lay[k].second,(w+7)/8,false); uint32_t off=p+x.lay[k].second-ob->base; bool un=false; for(unsigned i=0;i<(w+7)/8;i++) un|=ob->f[off+i]==0;
      if(un&&!ob->ro){ ob=access(s,p+x.lay[k].second,(w+7)/8,true); for(unsigned i=0;i<(w+7)/8;i++) if(ob->f[off+i]==0){ Val v=VE(mkVar("uninit"+std::to_string(gUninit++),8,-128,127)); rawStore(ob,off+i,v,1); } }
      f.r[x.dst+k]=rawLoad(ob,off,w); } f.ip++; return; }
  case Instruction::Store: { uint64_t p=concretize(s,o(1)); for(size_t k=0;k<x.lay.size();k++){ Val v=getOp(f,x.ops[0],k); store(s,p+x.lay[k].second,v); } f.ip++; return; }
  case Instruction::Br: if(x.t1<0){ jump(s,x.t0); return; } { Val c=o(0); bool b=c.e?decide(s,c.e):(c.c!=0); jump(s,b?x.t0:x.t1); return; }
  case Instruction::Switch: { Val c=o(0); if(!c.e){ for(auto&k:x.cases) if(k.first==APInt(c.w,c.c)){ jump(s,k.second); return; } jump(s,x.t0); return; }
      for(auto&k:x.cases) if(decide(s,mkBin(O_EQ,c.e,mkC(k.first)))){ jump(s,k.second); return; } jump(s,x.t0); return; }
  case Instruction::Ret: { std::vector<Val> rv; if(!x.ops.empty()) for(unsigned k=0;k<x.ops[0].n;k++) rv.push_back(getOp(f,x.ops[0],k)); doRet(s,std::move(rv)); return; }
  case Instruction::Call: case Instruction::Invoke: doCall(s,x); return;
  case Instruction::ExtractValue: for(unsigned k=0;k<x.dn;k++) f.r[x.dst+k]=getOp(f,x.ops[0],x.aggOff+k); f.ip++; return;
  case Instruction::InsertValue: { std::vector<Val> t(x.dn); for(unsigned k=0;k<x.dn;k++) t[k]=getOp(f,x.ops[0],k); for(unsigned k=0;k<x.ops[1].n;k++) t[x.aggOff+k]=getOp(f,x.ops[1],k); for(unsigned k=0;k<x.dn;k++) f.r[x.dst+k]=t[k]; f.ip++; return; }
  case Instruction::Unreachable: fail(s,"crash","unreachable code reached (undefined behaviour)");
  case Instruction::Fence: f.ip++; return;
  }
  std::string t; raw_string_ostream os(t); x.I->print(os); incomplete("unsupported instruction "+os.str()); throw PathEnd();
}
static uint64_t gDone=0; static std::vector<std::vector<std::pair<std::string,std::string>>> gSamples;
static void runPath(SP s){ // runs to completion; forks go to `work`
  try { while(!s->done) stepI(*s); gS.paths++; gDone++;
    if((gDone&(gDone-1))==0&&gSamples.size()<10&&!s->in.empty()){ std::vector<std::pair<std::string,std::string>> v; for(auto&i:s->in) v.push_back({i.name,lit(i,*s->model)}); gSamples.push_back(v); }
  } catch(PathEnd&){ gS.paths++; }
}
static std::string jstr(const std::string&s){ std::string r="\""; for(unsigned char c:s){ if(c=='"'||c=='\\'){ r+='\\'; r+=c; } else if(c<32){ char b[8]; snprintf(b,8,"\\u%04x",c); r+=b; } else r+=c; } return r+"\""; }
static std::string dump(){
  std::ostringstream o; o<<"{\"paths\":"<<gS.paths<<",\"forks\":"<<gS.forks<<",\"instrs\":"<<gS.instrs<<",\"queries\":"<<gS.queries<<",\"cache_hits\":"<<gS.cacheHits<<",\"model_hits\":"<<gS.modelHits<<",\"unknown\":"<<gS.unknown<<",\"checks\":"<<gS.checks<<",\"checks_syntactic\":"<<gS.checksTrivial<<",\"checks_by_solver\":"<<gS.checksSolver<<",\"dropped\":"<<gS.dropped<<",\"solver_s\":"<<gS.solver;
  o<<",\"functions\":["; bool c=false; for(auto&x:gFuncs){ if(c) o<<","; c=true; o<<jstr(dem(x)); } o<<"]";
  o<<",\"incomplete\":["; c=false; for(auto&x:gIncomplete){ if(c) o<<","; c=true; o<<jstr(x); } o<<"]";
  o<<",\"reached\":{"; c=false; for(auto&x:gReached){ if(c) o<<","; c=true; o<<jstr(x.first)<<":"<<x.second; } o<<"}";
  o<<",\"check_msgs\":{"; c=false; for(auto&x:gCheckMsgs){ if(c) o<<","; c=true; o<<jstr(x.first)<<":"<<x.second; } o<<"}";
  o<<",\"completed\":"<<gDone<<",\"samples\":["; c=false; for(auto&v:gSamples){ if(c) o<<","; c=true; o<<"["; bool d=false; for(auto&i:v){ if(d) o<<","; d=true; o<<"["<<jstr(i.first)<<","<<jstr(i.second)<<"]"; } o<<"]"; } o<<"]";
  o<<",\"violations\":["; c=false; for(auto&v:gViol){ if(c) o<<","; c=true; o<<"{\"kind\":"<<jstr(v.kind)<<",\"msg\":"<<jstr(v.msg)<<",\"where\":"<<jstr(v.where)<<",\"input\":["; bool d=false; for(auto&i:v.in){ if(d) o<<","; d=true; o<<"["<<jstr(i.first)<<","<<jstr(i.second)<<"]"; } o<<"]}"; } o<<"]}";
  return o.str(); }
static std::string gOut; static double gLastSplit=0; static pid_t gRoot=0;
static void writeResult(){ std::string tf=gOut+".w"+std::to_string(getpid()); std::ofstream o(tf+".t"); o<<dump(); o.close(); rename((tf+".t").c_str(),tf.c_str()); }
// when cores are idle, hand the older half of the queued states to a new process
static void maybeSplit(){
  if(optJobs<=1||work.size()<2||gShared->active>=optJobs) return;
  double t=now(); if(t-gLastSplit<0.05) return;
  if(__sync_add_and_fetch(&gShared->active,1)>optJobs){ __sync_sub_and_fetch(&gShared->active,1); return; }
  gLastSplit=t; fflush(stdout); fflush(stderr); size_t n=work.size(),h=(n+1)/2; pid_t p=fork();
  if(p<0){ __sync_sub_and_fetch(&gShared->active,1); return; }
  if(p==0){ gS=Stats(); gIncomplete.clear(); gReached.clear(); gCheckMsgs.clear(); gViol.clear(); gDone=0; gSamples.clear(); work.erase(work.begin()+h,work.end()); }
  else { __sync_add_and_fetch(&gShared->procs,1); work.erase(work.begin(),work.begin()+h); }
}
static void drain(){ while(!work.empty()){ if(gShared->stop||now()-tStart>optTime){ if(now()-tStart>optTime){ incomplete("time limit"); } gS.dropped+=work.size(); work.clear(); return; } maybeSplit(); SP s=std::move(work.back()); work.pop_back(); runPath(std::move(s)); } }


int main(int argc,char**argv){
  std::string bc,entry,out; for(int i=1;i<argc;i++){ std::string a=argv[i]; auto nx=[&]{ return std::string(argv[++i]); };
    if(a=="-o") out=nx(); else if(a=="--time") optTime=atof(nx().c_str()); else if(a=="--query-ms") optQueryMs=atoi(nx().c_str()); else if(a=="--instr") optInstr=strtoull(nx().c_str(),0,10); else if(a=="--jobs") optJobs=atoi(nx().c_str()); else if(a=="--max-viol") optMaxViol=atoi(nx().c_str()); else if(a=="--frontier") optFrontier=atoi(nx().c_str()); else if(a=="-v") optVerbose=true; else if(bc.empty()) bc=a; else entry=a; }
  tStart=now(); 
  gShared=(Shared*)mmap(nullptr,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
  Z3_config cfg=Z3_mk_config(); Z=Z3_mk_context_rc(cfg); 
  Z3_params pr; S=nullptr;
  SMDiagnostic err; M=parseIRFile(bc,err,LC); if(!M){ err.print("vse",errs()); return 2; } DL=&M->getDataLayout();
  bool fp=false; for(auto&F:*M) for(auto&B:F) for(auto&I:B) if(I.getOpcode()==Instruction::FDiv) fp|=false;
  if(const char*l=getenv("VSE_LOGIC")) { if(!strcmp(l,"FP")) fp=true; }
  S=fp?Z3_mk_solver_for_logic(Z,Z3_mk_string_symbol(Z,"QF_BVFP")):Z3_mk_solver_for_logic(Z,Z3_mk_string_symbol(Z,"QF_BV")); Z3_solver_inc_ref(Z,S);
  pr=Z3_mk_params(Z); Z3_params_inc_ref(Z,pr); Z3_params_set_uint(Z,pr,Z3_mk_string_symbol(Z,"timeout"),optQueryMs); Z3_params_set_uint(Z,pr,Z3_mk_string_symbol(Z,"random_seed"),1); Z3_solver_set_params(Z,S,pr); S1=Z3_mk_simple_solver(Z); Z3_solver_inc_ref(Z,S1); { Z3_params p1=Z3_mk_params(Z); Z3_params_inc_ref(Z,p1); Z3_params_set_uint(Z,p1,Z3_mk_string_symbol(Z,"timeout"),(getenv("VSE_S1")?atoi(getenv("VSE_S1")):60)); Z3_params_set_uint(Z,p1,Z3_mk_string_symbol(Z,"random_seed"),1); Z3_solver_set_params(Z,S1,p1); }
  S0=Z3_mk_simple_solver(Z); Z3_solver_inc_ref(Z,S0); { Z3_params p1=Z3_mk_params(Z); Z3_params_inc_ref(Z,p1); Z3_params_set_uint(Z,p1,Z3_mk_string_symbol(Z,"timeout"),3000); Z3_params_set_uint(Z,p1,Z3_mk_string_symbol(Z,"random_seed"),1); Z3_solver_set_params(Z,S0,p1); }
  SP s0=std::make_unique<State>(); s0->brk=0x10000000; s0->model=std::make_shared<Model>(); s0->model->id=++gModelId;
  for(auto&F:*M) getFn(&F);
  // globals
  gDummyLimb=newObj(*s0,8,K_GLOBAL); { Obj*o=findObj(*s0,gDummyLimb,true); o->f.assign(8,1); o->d.assign(8,0); o->ro=true; }
  for(auto&G:M->globals()){ if(!G.getValueType()->isSized()) { gGlobAddr[&G]=0x2000; continue; } uint64_t n=DL->getTypeAllocSize(G.getValueType()); if(G.isDeclaration()&&n<512) n=512; gGlobAddr[&G]=newObj(*s0,n?n:1,K_GLOBAL); }
  std::function<void(const Constant*,Obj*,uint64_t)> ini=[&](const Constant*c,Obj*o,uint64_t off){
    if(isa<UndefValue>(c)){ return; }
    if(isa<ConstantAggregateZero>(c)) return;
    if(auto*cd=dyn_cast<ConstantDataSequential>(c)){ unsigned es=cd->getElementByteSize(); for(unsigned i=0;i<cd->getNumElements();i++){ if(cd->getElementType()->isIntegerTy()) rawStore(o,off+i*es,VC(cd->getElementAsInteger(i),es*8),es); else rawStore(o,off+i*es,constVal(cd->getElementAsConstant(i)),es);} return; }
    if(auto*ca=dyn_cast<ConstantArray>(c)){ uint64_t es=DL->getTypeAllocSize(ca->getType()->getElementType()); for(unsigned i=0;i<ca->getNumOperands();i++) ini(ca->getOperand(i),o,off+i*es); return; }
    if(auto*cs=dyn_cast<ConstantStruct>(c)){ auto*sl=DL->getStructLayout(cs->getType()); for(unsigned i=0;i<cs->getNumOperands();i++) ini(cs->getOperand(i),o,off+sl->getElementOffset(i)); return; }
    Val v=constVal(c); rawStore(o,off,v,(v.w+7)/8); };
  for(auto&G:M->globals()){ auto it=s0->mem.find(gGlobAddr[&G]); if(it==s0->mem.end()) continue; Obj*o=it->second.get(); std::fill(o->d.begin(),o->d.end(),0); std::fill(o->f.begin(),o->f.end(),1); if(G.hasInitializer()) ini(G.getInitializer(),o,0); }
  for(auto&G:M->globals()) if(G.isConstant()&&!G.isDeclaration()){ auto it=s0->mem.find(gGlobAddr[&G]); if(it==s0->mem.end()) continue; it->second->ro=true; gRO[it->first]=it->second; s0->mem.erase(it); }
  // static constructors
  if(auto*g=M->getGlobalVariable("llvm.global_ctors")) if(auto*ca=dyn_cast<ConstantArray>(g->getInitializer())){ std::vector<std::pair<uint64_t,Function*>> cs; for(auto&op:ca->operands()){ auto*st=cast<ConstantStruct>(op); if(auto*f=dyn_cast<Function>(st->getOperand(1)->stripPointerCasts())) cs.push_back({cast<ConstantInt>(st->getOperand(0))->getZExtValue(),f}); }
    std::stable_sort(cs.begin(),cs.end(),[](auto&a,auto&b){ return a.first<b.first; });
    for(auto&c:cs){ pushFrame(*s0,getFn(c.second),{},nullptr); s0->done=false; try { while(!s0->done) stepI(*s0); } catch(PathEnd&){ fprintf(stderr,"static constructor failed\n"); } s0->done=false; s0->st.clear(); } }
  work.clear(); gFuncs.clear(); for(auto&f:gFn) f.second->counted=false; s0->instrs=0;
  Function*F=M->getFunction(entry); if(!F){ fprintf(stderr,"no entry %s\n",entry.c_str()); return 2; }
  pushFrame(*s0,getFn(F),{},nullptr);
  work.push_back(std::move(s0));
  gOut=(out.empty()?std::string("/tmp/vse"):out)+"."+std::to_string(getpid()); gRoot=getpid(); gShared->active=1; gShared->procs=1; prctl(PR_SET_CHILD_SUBREAPER,1);
  drain();
  if(getpid()!=gRoot){ writeResult(); __sync_sub_and_fetch(&gShared->active,1); _exit(0); }
  std::vector<std::string> res; res.push_back(dump()); __sync_sub_and_fetch(&gShared->active,1);
  for(;;){ int st; pid_t p=waitpid(-1,&st,0); if(p<0){ if(errno==ECHILD) break; continue; }
    std::string tf=gOut+".w"+std::to_string(p); std::ifstream i(tf); std::stringstream b; b<<i.rdbuf(); std::string x=b.str(); unlink(tf.c_str());
    if(!WIFEXITED(st)||WEXITSTATUS(st)||x.empty()){ res.push_back("{\"incomplete\":[\"worker died\"]}"); __sync_sub_and_fetch(&gShared->active,1); } else res.push_back(x); }
  std::string js="["; for(size_t i=0;i<res.size();i++) js+=(i?",":"")+res[i]; js+="]";
  if(out.empty()) printf("%s\n",js.c_str()); else { std::ofstream o(out); o<<js; }
  return 0;
}
