// Model of the GMP entry points at the level of mpz_t {alloc,size,limbs}: values
// are signed bit-vector terms; every operation checks that the target holds the
// number of limbs GMP would require, and that GMP only frees/moves what it owns.
static uint64_t gDummyLimb=0;
struct PairHash { size_t operator()(const std::pair<uint32_t,uint32_t>&p) const { return p.first*1000003ull+p.second; } };
static std::unordered_map<std::pair<uint32_t,uint32_t>,E,PairHash> gZTab; // (size,limb0) -> signed value
static std::unordered_map<uint32_t,E> gZAbs;                             // limb0 -> signed value v with |v|=limb0
static std::vector<E> gTok;                                             // "@i" tokens
struct QVal { E num; uint64_t den; bool canon; };
static std::vector<QVal> gQ(1);

static E zneg(E v);
static E zfit(E v){ // shrink width to what the interval needs
  if(v->lo>-WIDE&&v->hi<WIDE){ unsigned nb=std::max(2u,bitsR(v->lo,v->hi)); if(nb<v->w) return mkExtract(v,0,nb); } return v; }
static E zw(E v,unsigned w){ return w>v->w?mkSext(v,w):(w<v->w?mkExtract(v,0,w):v); }
static bool bounded(E v){ return v->lo>-WIDE&&v->hi<WIDE; }
static E zadd(E a,E b,bool sub){ unsigned w=std::max(a->w,b->w)+1; return zfit(mkBin(sub?O_SUB:O_ADD,zw(a,w),zw(b,w))); }
static std::unordered_map<uint32_t,std::pair<E,E>> gProd,gProdC;         // product term -> its factors
// factor tables stay acyclic: is r among the terms x is taken apart into?
static bool zwithin(E x,E r,int d=0){ if(x==r||d>40) return true; for(auto*tab:{&gProd,&gProdC}){ auto it=tab->find(x->id); if(it!=tab->end()) return zwithin(it->second.first,r,d+1)||zwithin(it->second.second,r,d+1); }
  if(x->op==O_SEXT) return zwithin(x->a,r,d+1); if(x->op==O_SUB&&isC(x->a)&&x->a->v.isZero()) return zwithin(x->b,r,d+1); return false; }
static E zmul(E a,E b){ unsigned w=a->w+b->w; E r=zfit(mkBin(O_MUL,zw(a,w),zw(b,w))); if(!isC(r)){ if(zwithin(a,r)||zwithin(b,r)) ; else if(isC(a)||isC(b)) gProdC[r->id]={a,b}; else gProd[r->id]={a,b}; } return r; }
static E zneg(E v){ unsigned w=v->w+1; E r=zfit(mkBin(O_SUB,mkC(APInt(w,0)),zw(v,w))); auto it=gProd.find(v->id);
  if(it!=gProd.end()&&!isC(r)&&r!=v&&!gProd.count(r->id)){ auto p=it->second; E n=zneg(p.first); if(!zwithin(n,r)&&!zwithin(p.second,r)) gProd[r->id]={n,p.second}; } return r; }
// questions about a product are asked of its factors: bit-blasting long products is hopeless
static E zis0(E v){ auto it=gProd.find(v->id); if(it!=gProd.end()){ auto p=it->second; return mkBin(O_OR,zis0(p.first),zis0(p.second)); } return mkBin(O_EQ,v,mkC(APInt(v->w,0))); }
static E zlt0(E v){ auto it=gProd.find(v->id); if(it!=gProd.end()){ auto p=it->second; return mkBin(O_AND,mkBin(O_XOR,zlt0(p.first),zlt0(p.second)),mkNot(zis0(v))); } return mkBin(O_SLT,v,mkC(APInt(v->w,0))); }
static E zisOne(E v,bool neg){ auto it=gProd.find(v->id); if(it!=gProd.end()){ auto p=it->second; E a=zisOne(p.first,false),b=zisOne(p.first,true),c=zisOne(p.second,false),d=zisOne(p.second,true);
    return neg?mkBin(O_OR,mkBin(O_AND,a,d),mkBin(O_AND,b,c)):mkBin(O_OR,mkBin(O_AND,a,c),mkBin(O_AND,b,d)); }
  return mkBin(O_EQ,v,mkC(neg?APInt::getAllOnes(v->w):APInt(v->w,1))); }
static E zabs(E v){ if(bounded(v)&&v->lo>=0) return v; if(bounded(v)&&v->hi<=0) return zneg(v);
  unsigned w=v->w+1; E x=zw(v,w); E r=mkIte(zlt0(v),mkBin(O_SUB,mkC(APInt(w,0)),x),x); return r; }
static E zcmpE(Op op,E a,E b){
  if(isC(a)&&op==O_EQ) std::swap(a,b);
  if(isC(b)&&b->v.isZero()) return op==O_EQ?zis0(a):op==O_SLT?zlt0(a):mkBin(op,a,mkC(APInt(a->w,0)));
  if(op==O_EQ&&isC(b)&&b->v.getSignificantBits()<=2&&b->w>1){ if(b->v.isOne()) return zisOne(a,false); if(b->v.isAllOnes()) return zisOne(a,true); }
  unsigned w=std::max(a->w,b->w); return mkBin(op,zw(a,w),zw(b,w)); }
static E zc(int64_t v){ return zfit(mkC(APInt(65,(uint64_t)v,true))); }
static E zcu(uint64_t v){ return zfit(mkC(APInt(66,v))); }
static E prodOther(E a,E b){ auto it=gProd.find(a->id); if(it==gProd.end()){ it=gProdC.find(a->id); if(it==gProdC.end()) return nullptr; } if(it->second.second==b) return it->second.first; if(it->second.first==b) return it->second.second; return nullptr; }
// sign and factors of a product (a bare term is its own only factor)
static bool zfactors(E v,std::vector<E>&f){ 
  for(auto*tab:{&gProd,&gProdC}){ auto it=tab->find(v->id); if(it!=tab->end()){ auto p=it->second; bool a=zfactors(p.first,f),b=zfactors(p.second,f); return a!=b; } }
  if(isC(v)){ if(v->v.isNegative()){ E n=zneg(v); if(!(n->v.isOne()&&n->w>1)) f.push_back(n); return true; } if(!(v->w>1&&v->v.isOne())) f.push_back(v); return false; }
  if(v->op==O_SEXT) return zfactors(v->a,f);
  if(v->op==O_SUB&&isC(v->a)&&v->a->v.isZero()){ E x=v->b; while(x->op==O_SEXT) x=x->a; return !zfactors(x,f); }
  f.push_back(v); return false; }
static E zprodOf(const std::vector<E>&f,bool neg){ E r=nullptr; for(E x:f) r=r?zmul(r,x):x; if(!r) r=mkCu(1,2); return neg?zneg(r):r; }
static bool zstrip(std::vector<E>&f,E x){ for(size_t i=0;i<f.size();i++) if(f[i]==x){ f.erase(f.begin()+i); return true; } return false; }
static E zdivE(E a,E b){ if(a==b) return mkCu(1,2); if(E o=prodOther(a,b)) return o;
  { std::vector<E> fa,fb; bool na=zfactors(a,fa),nb=zfactors(b,fb); bool all=true; for(E x:fb) all=all&&zstrip(fa,x); if(all) return zprodOf(fa,na!=nb); }
  unsigned w=std::max(a->w,b->w)+1; return zfit(mkBin(O_SDIV,zw(a,w),zw(b,w))); }
static E zremE(E a,E b){ if(a==b||prodOther(a,b)) return mkCu(0,2);
  { std::vector<E> fa,fb; zfactors(a,fa); zfactors(b,fb); bool all=true; for(E x:fb) all=all&&zstrip(fa,x); if(all) return mkCu(0,2); }
  unsigned w=std::max(a->w,b->w)+1; return zfit(mkBin(O_SREM,zw(a,w),zw(b,w))); }
static E zgcdE(State&s,E a,E b){ if(isC(a)&&a->v.isZero()) return zabs(b); if(isC(b)&&b->v.isZero()) return zabs(a);
  std::vector<E> fa,fb,common; zfactors(a,fa); zfactors(b,fb);
  for(size_t i=0;i<fa.size();){ if(zstrip(fb,fa[i])){ common.push_back(fa[i]); fa.erase(fa.begin()+i); } else i++; }
  bool cop=true; for(E x:fa) for(E y:fb) cop=cop&&s.cop.count({std::min(x->id,y->id),std::max(x->id,y->id)});
  if(cop) return zabs(zprodOf(common,false));
  if(common.size()){ a=zprodOf(fa,false); b=zprodOf(fb,false); }
  // against a small constant: one path per divisor
  { E c=isC(a)?a:isC(b)?b:nullptr,x=c==a?b:a; if(c&&!isC(x)&&c->v.getSignificantBits()<=8){ int64_t k=std::llabs(c->v.getSExtValue()); for(int64_t d=k;d>=1;d--) if(k%d==0&&(d==1||decide(s,zcmpE(O_EQ,zremE(x,mkCu(d,9)),mkCu(0,2))))) return common.size()?zmul(zabs(zprodOf(common,false)),mkCu(d,9)):mkCu(d,9); } }
  unsigned w=std::max(a->w,b->w)+1; E r=zfit(mkBin(O_GCD,zw(a,w),zw(b,w))); return common.size()?zmul(zabs(zprodOf(common,false)),r):r; }

static E readZ(State&s,uint64_t p){
  Val sz=load(s,p+4,32); uint64_t d=concretize(s,load(s,p+8,64));
  if(!sz.e&&sz.c==0) return mkCu(0,2);
  E so=toE(sz);
  if(so->lo>=-1&&so->hi<=1){
    E limb=toE(load(s,d,64));
    auto it=gZTab.find({so->id,limb->id}); if(it!=gZTab.end()) return it->second;
    E ns=mkBin(O_SUB,mkCu(0,32),so); it=gZTab.find({ns->id,limb->id}); if(it!=gZTab.end()) return zneg(it->second);
    { auto jt=s.ztab.find({so->id,limb->id}); if(jt!=s.ztab.end()) return jt->second; jt=s.ztab.find({ns->id,limb->id}); if(jt!=s.ztab.end()) return zneg(jt->second); }
    E r=resolveKnown(s,so);
    E z=mkCu(0,2);
    if(isC(r)){ int k=(int)r->v.getSExtValue(); if(k==0) return z; E m=zfit(mkZext(limb,66)); return k<0?zneg(m):m; }
    E m=zw(zfit(mkZext(limb,66)),66); E zero=mkC(APInt(66,0)); E neg=mkBin(O_SUB,zero,m);
    return zfit(mkIte(mkBin(O_EQ,so,mkCu(0,32)),zero,mkIte(mkBin(O_SLT,so,mkCu(0,32)),neg,m)));
  }
  int n=(int)(int32_t)concretize(s,sz); int a=n<0?-n:n; E r=nullptr;
  if(a>64) fail(s,"gmp","corrupt mpz size");
  std::vector<uint32_t> key{(uint32_t)n};
  for(int i=0;i<a;i++){ E l=toE(load(s,d+8*i,64)); key.push_back(l->id); r=r?mkConcat(l,r):l; }
  if(r){ auto it=s.ztab.find(key); if(it!=s.ztab.end()) return it->second; key[0]=(uint32_t)-n; it=s.ztab.find(key); if(it!=s.ztab.end()) return zneg(it->second); }
  if(!r) return mkCu(0,2);
  E m=zfit(mkZext(r,r->w+1)); return n<0?zneg(m):m;
}
static unsigned limbsUB(E v){ if(!bounded(v)) return (v->w-1+63)/64; i128 m=std::max(v->lo<0?-v->lo:v->lo,v->hi<0?-v->hi:v->hi); unsigned n=0; while(m){ n++; m=(i128)((unsigned __int128)m>>64); } return n; }
static unsigned limbsLB(E v){ if(bounded(v)){ if(v->lo<=0&&v->hi>=0) return 0; i128 m=std::min(v->lo<0?-v->lo:v->lo,v->hi<0?-v->hi:v->hi); unsigned n=0; while(m){ n++; m>>=64; } return n; } return 0; }
// exact number of limbs, forking when it is not determined
static unsigned limbsOf(State&s,E v){
  unsigned ub=limbsUB(v); if(ub==0) return 0;
  if(decide(s,zis0(v))) return 0;
  E m=zabs(v); unsigned k0=1;
  auto it=gProd.find(v->id); if(it!=gProd.end()&&ub>1){ auto p=it->second; unsigned la=limbsOf(s,p.first),lb=limbsOf(s,p.second); if(!la||!lb) return 0; k0=la+lb-1; ub=std::min(ub,la+lb); if(k0<1) k0=1; }
  for(unsigned k=k0;k<ub;k++){ unsigned w=std::max(m->w,64*k+2); E lim=mkC(APInt(w,1).shl(64*k)); if(decide(s,mkBin(O_SLT,zw(m,w),lim))) return k; }
  return ub;
}
static bool gmpOwns(State&s,uint64_t p){ uint64_t alloc=concretize(s,load(s,p,32)); if(!alloc) return true; uint64_t d=concretize(s,load(s,p+8,64)); auto it=s.mem.find(d); return it!=s.mem.end()&&it->second->kind==K_GMP; }
static void ensure(State&s,uint64_t p,unsigned req){ // no decide() below this point
  int64_t alloc=(int32_t)concretize(s,load(s,p,32)); if(alloc>=(int64_t)req) return;
  uint64_t d=concretize(s,load(s,p+8,64));
  if(alloc>0&&!gmpOwns(s,p)) fail(s,"gmp","insufficient limb storage: the bignum library would move storage it does not own");
  uint64_t n=newObj(s,8ull*req,K_GMP); s.heap+=8ull*req;
  if(alloc>0){ copyMem(s,n,d,8ull*alloc); freeObj(s,d,K_GMP,"realloc"); }
  store(s,p,VC(req,32)); store(s,p+8,VC(n,64));
}
// write value v into *p after GMP reserved req limbs
static void writeZ(State&s,uint64_t p,E v,unsigned req){
  v=zfit(v); unsigned ub=limbsUB(v);
  if(ub<=1){
    int64_t alloc=(int32_t)concretize(s,load(s,p,32)); unsigned need=std::max(req,limbsLB(v));
    if(alloc==0&&need==0&&ub==1){ if(!decide(s,zis0(v))) need=1; else v=mkCu(0,2),ub=0; }
    ensure(s,p,need);
    E neg=zlt0(v),z=zis0(v);
    E size=mkIte(z,mkCu(0,32),mkIte(neg,mkC(APInt::getAllOnes(32)),mkCu(1,32)));
    store(s,p+4,VE(size)); if(ub==0) return;
    E m=zabs(v); E l=m->w>64?mkExtract(m,0,64):mkSext(m,64);
    uint64_t d=load(s,p+8,64).c; 
    store(s,d,VE(l)); E lb=toE(load(s,d,64)); gZTab[{size->id,lb->id}]=v; return;
  }
  unsigned n=limbsOf(s,v); bool neg=n?decide(s,zlt0(v)):false;
  ensure(s,p,std::max(req,n));
  store(s,p+4,VC(neg?(uint64_t)-(int64_t)n:n,32)); if(!n) return;
  uint64_t d=load(s,p+8,64).c; E m=zabs(v); m=zw(m,std::max(m->w,64*n));
  if(m->w<64*n) m=mkSext(m,64*n);
  std::vector<uint32_t> key{(uint32_t)(neg?-(int)n:(int)n)};
  for(unsigned i=0;i<n;i++){ store(s,d+8*i,VE(mkExtract(m,64*i,64))); key.push_back(toE(load(s,d+8*i,64))->id); }
  s.ztab[key]=v;
  if(n==1){ E so=mkCu(neg?0xffffffffull:1,32); E lb=toE(load(s,d,64)); s.ztab[{so->id,lb->id}]=v; }
}
static E tokE(State&s,const std::string&t){
  if(t.size()>1&&t[0]=='@') return gTok[atoi(t.c_str()+1)];
  if(t.size()>2&&t[0]=='-'&&t[1]=='@') return zneg(gTok[atoi(t.c_str()+2)]);
  std::string b=t; bool neg=false; if(!b.empty()&&b[0]=='-'){ neg=true; b=b.substr(1);} 
  if(b.empty()||b.find_first_not_of("0123456789")!=std::string::npos) return nullptr;
  unsigned w=b.size()*4+4; APInt v(w,b,10); E e=zfit(mkC(v)); return neg?zneg(e):e; }
static std::string newTok(E v){ if(isC(v)){ SmallString<64> t; v->v.toString(t,10,true); return std::string(t.str()); }
  for(size_t i=0;i<gTok.size();i++) if(gTok[i]==v) return "@"+std::to_string(i);
  gTok.push_back(v); return "@"+std::to_string(gTok.size()-1); }
static void putStr(State&s,uint64_t p,const std::string&t){ for(size_t i=0;i<=t.size();i++) store(s,p+i,VC(i<t.size()?(uint8_t)t[i]:0,8)); }

// returns true when name handled
static bool gmpCall(State&s,const std::string&f,std::vector<Val>&a,Val&ret){
  std::string g=f.substr(7); // after __gmpz_
  auto P=[&](int i){ return concretize(s,a[i]); };
  auto ub=[&](E v){ return limbsUB(v); };
  // resolve operand limb count only when the reserve could be insufficient
  auto have=[&](uint64_t p){ return (int64_t)(int32_t)concretize(s,load(s,p,32)); };
  auto init=[&](uint64_t p){ store(s,p,VC(0,32)); store(s,p+4,VC(0,32)); store(s,p+8,VC(gDummyLimb,64)); };
  auto binop=[&](uint64_t p,E x,E y,int kind){ // 0 add 1 sub 2 mul
    E r=kind==2?zmul(x,y):zadd(x,y,kind==1); unsigned req;
    if(kind==2){ unsigned ux=ub(x),uy=ub(y); req=ux+uy; 
      if(have(p)<(int64_t)req){ unsigned lx=limbsOf(s,x); unsigned ly=lx?limbsOf(s,y):0; req=(lx&&ly)?lx+ly:0; if(!req) r=mkCu(0,2); }
      else if(limbsLB(x)==0||limbsLB(y)==0) req=0; }
    else { req=std::max(ub(x),ub(y))+1; if(have(p)<(int64_t)req) req=std::max(limbsOf(s,x),limbsOf(s,y))+1; }
    writeZ(s,p,r,req); };
  if(g=="init"){ init(P(0)); return true; }
  if(g=="init2"){ uint64_t p=P(0),n=P(1); unsigned l=(n+63)/64; if(!l) l=1; init(p); ensure(s,p,l); return true; }
  if(g=="realloc2"){ uint64_t p=P(0),n=P(1); ensure(s,p,std::max<uint64_t>(1,(n+63)/64)); return true; }
  if(g=="realloc"){ uint64_t p=P(0),n=P(1); ensure(s,p,std::max<uint64_t>(1,n)); ret=load(s,p+8,64); return true; }
  if(g=="clear"){ uint64_t p=P(0); if((int32_t)concretize(s,load(s,p,32))){ if(!gmpOwns(s,p)) fail(s,"gmp","mpz_clear of storage the bignum library does not own"); freeObj(s,concretize(s,load(s,p+8,64)),K_GMP,"mpz_clear"); } return true; }
  if(g=="set"||g=="init_set"||g=="abs"||g=="neg"){ uint64_t p=P(0),q=P(1); E v=readZ(s,q); unsigned req=ub(v); bool in=g=="init_set"; 
    if((in||have(p)<(int64_t)req)&&req&&p!=q) req=limbsOf(s,v); if(p==q) req=0;
    if(limbsLB(v)==0&&req==ub(v)&&!in&&have(p)>=(int64_t)req) req=0;
    if(g=="abs") v=zabs(v); if(g=="neg") v=zneg(v); if(in) init(p); writeZ(s,p,v,in?std::max(req,1u):req); return true; }
  if(g=="set_si"||g=="set_ui"||g=="init_set_si"||g=="init_set_ui"){ uint64_t p=P(0); bool in=g[0]=='i'; bool sg=g.back()=='i'&&g[g.size()-2]=='s';
    E v=sg?zfit(mkSext(toE(a[1]),65)):zfit(mkZext(toE(a[1]),66)); if(in) init(p); writeZ(s,p,v,1); return true; }
  if(g=="swap"){ uint64_t p=P(0),q=P(1); for(int o:{0,4,8}){ unsigned w=o==8?64:32; Val x=load(s,p+o,w),y=load(s,q+o,w); store(s,p+o,y); store(s,q+o,x);} return true; }
  if(g=="add"||g=="sub"||g=="mul"){ uint64_t p=P(0); E x=readZ(s,P(1)),y=readZ(s,P(2)); binop(p,x,y,g=="add"?0:g=="sub"?1:2); return true; }
  if(g=="add_ui"||g=="sub_ui"||g=="mul_ui"||g=="mul_si"){ uint64_t p=P(0); E x=readZ(s,P(1)); E y=g=="mul_si"?zfit(mkSext(toE(a[2]),65)):zfit(mkZext(toE(a[2]),66)); binop(p,x,y,g[0]=='a'?0:g[0]=='s'?1:2); return true; }
  if(g=="addmul"||g=="submul"){ uint64_t p=P(0); E x=readZ(s,p),y=zmul(readZ(s,P(1)),readZ(s,P(2))); binop(p,x,y,g[0]=='s'); return true; }
  if(g=="divexact"||g=="tdiv_q"||g=="tdiv_r"||g=="divexact_ui"||g=="fdiv_q"){ uint64_t p=P(0); E x=readZ(s,P(1)),y=g=="divexact_ui"?zfit(mkZext(toE(a[2]),66)):readZ(s,P(2));
    if(decide(s,zis0(y))) fail(s,"gmp","division by zero");
    E rem=zremE(x,y);
    if(g[0]=='d'&&!decide(s,zis0(rem))) fail(s,"gmp","inexact division given to mpz_divexact");
    if(g=="fdiv_q"&&!decide(s,zis0(rem))){ bool nx=decide(s,zlt0(x)),ny=decide(s,zlt0(y)); E q=zdivE(x,y); if(nx!=ny) q=zadd(q,zc(1),true); writeZ(s,p,q,limbsOf(s,q)); return true; }
    if(g=="tdiv_r"){ writeZ(s,p,rem,ub(rem)); return true; }
    E q=zdivE(x,y);
    if(ub(x)>1){ unsigned lx=limbsOf(s,x),ly=limbsOf(s,y); unsigned qn=lx>=ly?lx-ly+1:0; writeZ(s,p,qn?(q->w>64*qn+1?mkExtract(q,0,64*qn+1):q):mkCu(0,2),qn); return true; }
    // GMP: nn<dn -> 0 without reserve; otherwise reserve nn-dn+1 limbs
    unsigned nx=ub(x),ny=std::max(1u,limbsLB(y)); unsigned req=nx>=ny?nx-ny+1:0;
    if(have(p)<(int64_t)req){ nx=limbsOf(s,x); ny=limbsOf(s,y); req=nx>=ny?nx-ny+1:0; }
    else if(limbsLB(x)<ub(y)) req=0;
    writeZ(s,p,q,req); return true; }
  if(g=="gcd"){ uint64_t p=P(0); E x=readZ(s,P(1)),y=readZ(s,P(2)); unsigned req=std::min(ub(x),ub(y)); E r=zgcdE(s,x,y);
    if(limbsLB(x)==0||limbsLB(y)==0){ unsigned lx=limbsOf(s,x),ly=limbsOf(s,y); req=lx==0?ly:ly==0?lx:std::min(lx,ly); if(!lx) r=zabs(y); else if(!ly) r=zabs(x); }
    else if(have(p)<(int64_t)req){ req=std::min(limbsOf(s,x),limbsOf(s,y)); }
    if(ub(x)>1||ub(y)>1){ // gcd of long operands stays uninterpreted; GMP stores exactly the limbs it needs
      req=0; unsigned m=std::min(limbsOf(s,x),limbsOf(s,y)); r=zgcdE(s,x,y); if(r->w>64*m+1) r=mkZext(mkExtract(r,0,64*m),64*m+1); }
    writeZ(s,p,r,req&&ub(x)<=1&&ub(y)<=1?1:0); return true; }
  if(g=="lcm"){ uint64_t p=P(0); E x=readZ(s,P(1)),y=readZ(s,P(2)); if(decide(s,zis0(x))||decide(s,zis0(y))){ writeZ(s,p,mkCu(0,2),0); return true; } E r=zabs(zmul(zdivE(x,zgcdE(s,x,y)),y)); writeZ(s,p,r,limbsOf(s,x)+limbsOf(s,y)); return true; }
  if(g=="divisible_p"||g=="divisible_ui_p"){ E x=readZ(s,P(0)),y=g=="divisible_p"?readZ(s,P(1)):zfit(mkZext(toE(a[1]),66)); 
    if(decide(s,zis0(y))) ret=vext(VE(zis0(x)),32,false); else ret=vext(VE(zis0(zremE(x,y))),32,false); return true; }
  if(g=="cmp"||g=="cmpabs"||g=="cmp_si"||g=="cmp_ui"||g=="cmpabs_ui"){ E x=readZ(s,P(0)); E y=(g=="cmp"||g=="cmpabs")?readZ(s,P(1)):g=="cmp_si"?zfit(mkSext(toE(a[1]),65)):zfit(mkZext(toE(a[1]),66));
    if(g=="cmpabs_ui"&&isC(y)&&y->v.isOne()){ E one=mkBin(O_OR,zisOne(x,false),zisOne(x,true)); ret=VE(mkIte(one,mkCu(0,32),mkIte(zis0(x),mkC(APInt::getAllOnes(32)),mkCu(1,32)))); return true; }
    if(g.substr(0,6)=="cmpabs"){ x=zabs(x); y=zabs(y); }
    ret=VE(mkIte(zcmpE(O_EQ,x,y),mkCu(0,32),mkIte(zcmpE(O_SLT,x,y),mkC(APInt::getAllOnes(32)),mkCu(1,32)))); return true; }
  if(g=="get_si"){ E x=readZ(s,P(0)); ret=VE(zw(x,64)); return true; }
  if(g=="get_ui"){ E x=readZ(s,P(0)); ret=VE(zw(zabs(x),64)); return true; }
  if(g=="size"){ ret=VC(limbsOf(s,readZ(s,P(0))),64); return true; }
  if(g=="sizeinbase"){ uint64_t p=P(0); (void)p; ret=VC(40,64); return true; }
  if(g=="set_str"||g=="init_set_str"){ uint64_t p=P(0); std::string t=cstr(s,P(1)); E v=tokE(s,t); if(!v){ ret=VC(~0ull,32); return true; } unsigned n=limbsUB(v); (void)n; if(g[0]=='i') init(p);
    writeZ(s,p,v,std::max(1u,limbsUB(v)>1?0u:1u)); ret=VC(0,32); return true; }
  if(g=="get_str"){ E v=readZ(s,P(2)); uint64_t b=P(0); if(!b) return false; putStr(s,b,newTok(v)); ret=VC(b,64); return true; }
  return false;
}
static uint64_t gcd64(uint64_t a,uint64_t b){ while(b){ uint64_t t=a%b; a=b; b=t; } return a; }
static void putQ(State&s,uint64_t p,E num,uint64_t den,bool canon){
  if(isC(num)&&bounded(num)){ i128 n=num->lo; uint64_t an=(uint64_t)(n<0?-n:n); uint64_t gg=an?gcd64(an,den):den; if(canon&&gg>1){ num=zc((int64_t)n/(int64_t)gg); den/=gg; } else if(gg==1) canon=true; }
  if(den==1) canon=true;
  gQ.push_back({num,den,canon}); uint64_t id=gQ.size()-1;
  E size=mkIte(zis0(num),mkCu(0,32),mkIte(zlt0(num),mkC(APInt::getAllOnes(32)),mkCu(1,32)));
  store(s,p,VC(0x51000000u|id,32)); store(s,p+4,VE(size)); store(s,p+8,VC(1,64)); store(s,p+16,VC(0x51000000u|id,32)); store(s,p+20,VC(1,32)); store(s,p+24,VC(1,64)); }
static QVal getQ(State&s,uint64_t p){ uint64_t id=concretize(s,load(s,p,32)); if((id>>24)!=0x51||(id&0xffffff)>=gQ.size()||(id&0xffffff)==0) fail(s,"gmp","use of a rational that is not initialised"); return gQ[id&0xffffff]; }
static bool gmpqCall(State&s,const std::string&f,std::vector<Val>&a,Val&ret){
  std::string g=f.substr(7);
  auto P=[&](int i){ return concretize(s,a[i]); };
  if(g=="init"){ uint64_t p=P(0); access(s,p,32,true); putQ(s,p,mkCu(0,2),1,true); s.gmpq[p]=1; return true; }
  if(g=="clear"){ uint64_t p=P(0); access(s,p,32,true); if(!s.gmpq.count(p)) fail(s,"gmp","mpq_clear of a rational that is not initialised"); s.gmpq.erase(p); store(s,p,VC(0,32)); return true; }
  if(g=="set"){ uint64_t p=P(0); QVal q=getQ(s,P(1)); getQ(s,p); putQ(s,p,q.num,q.den,q.canon); return true; }
  if(g=="swap"){ uint64_t p=P(0),r=P(1); QVal x=getQ(s,p),y=getQ(s,r); putQ(s,p,y.num,y.den,y.canon); putQ(s,r,x.num,x.den,x.canon); return true; }
  if(g=="set_si"||g=="set_ui"){ uint64_t p=P(0); getQ(s,p); uint64_t den=P(2); E n=g=="set_si"?zfit(mkSext(toE(a[1]),65)):zfit(mkZext(toE(a[1]),66));
    bool z=isC(n)&&n->v.isZero(); putQ(s,p,n,z?1:den,false); return true; }
  if(g=="canonicalize"){ uint64_t p=P(0); QVal q=getQ(s,p); if(q.den==0) fail(s,"gmp","rational with zero denominator"); putQ(s,p,q.num,q.den,true); return true; }
  if(g=="add"||g=="sub"||g=="mul"){ uint64_t p=P(0); QVal x=getQ(s,P(1)),y=getQ(s,P(2)); getQ(s,p); bool c=x.canon&&y.canon;
    if(x.den==0||y.den==0) fail(s,"gmp","rational with zero denominator");
    if(x.den>1000000000||y.den>1000000000) { incomplete("rational denominator out of model range"); throw PathEnd(); }
    if(g=="mul"){ putQ(s,p,zmul(x.num,y.num),x.den*y.den,c); return true; }
    uint64_t l=x.den/gcd64(x.den,y.den)*y.den; E n=zadd(zmul(x.num,zcu(l/x.den)),zmul(y.num,zcu(l/y.den)),g=="sub"); putQ(s,p,n,l,c); return true; }
  if(g=="neg"){ uint64_t p=P(0); QVal x=getQ(s,P(1)); putQ(s,p,zneg(x.num),x.den,x.canon); return true; }
  if(g=="equal"||g=="cmp"){ QVal x=getQ(s,P(0)),y=getQ(s,P(1)); E l=zmul(x.num,zcu(y.den)),r=zmul(y.num,zcu(x.den)); 
    if(g=="equal") ret=vext(VE(zcmpE(O_EQ,l,r)),32,false); else ret=VE(mkIte(zcmpE(O_EQ,l,r),mkCu(0,32),mkIte(zcmpE(O_SLT,l,r),mkC(APInt::getAllOnes(32)),mkCu(1,32)))); return true; }
  if(g=="get_str"){ uint64_t b=P(0); if(!b) return false; QVal q=getQ(s,P(2)); gQ.push_back(q); putStr(s,b,"Q"+std::to_string(gQ.size()-1)); ret=VC(b,64); return true; }
  return false;
}
