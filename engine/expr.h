// Hash-consed bit-vector terms with signed-interval analysis, simplifying
// constructors, concrete evaluation under a model and translation to Z3.
#pragma once
#include <llvm/ADT/APInt.h>
#include <llvm/ADT/Hashing.h>
#include <llvm/ADT/ArrayRef.h>
#include <llvm/ADT/SmallString.h>
#include <z3.h>
#include <cstdint>
#include <string>
#include <unordered_map>
#include <vector>
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <map>
using llvm::APInt;
typedef __int128 i128;

enum Op : uint8_t { O_CONST, O_VAR, O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM,
  O_SHL, O_LSHR, O_ASHR, O_AND, O_OR, O_XOR, O_EQ, O_ULT, O_SLT, O_ITE, O_ZEXT, O_SEXT,
  O_EXTRACT, O_CONCAT, O_GCD, O_FADD, O_FSUB, O_FMUL, O_FDIV, O_FNEG, O_FEQ, O_FLT, O_FLE,
  O_SITOFP, O_UITOFP, O_FPTOSI };

struct Lin; struct Pol;
struct Expr {
  Op op; uint32_t w, p; const Expr *a, *b, *c; APInt v; uint32_t id; int var;
  i128 lo, hi; uint8_t leaves;         // leaves>0: tree of ITEs with constant leaves
  mutable Z3_ast zbv=nullptr, zbool=nullptr, zint=nullptr; mutable uint8_t zi=0; // zi: 0 not tried, 1 no integer form, 2 linear, 3 nonlinear
  mutable uint64_t stamp=0; mutable APInt ev;
  mutable std::vector<int>* vars=nullptr; mutable Lin* lin=nullptr; mutable Pol* pol=nullptr;
  Expr(): op(O_CONST), w(0), p(0), a(nullptr), b(nullptr), c(nullptr), v(1,0), id(0), var(-1), lo(0), hi(0), leaves(0), ev(1,0) {}
};
typedef const Expr* E;
struct Lin { std::vector<std::pair<E,i128>> t; i128 k=0; }; // sum of coefficient*term + k over the integers

static const i128 WIDE=((i128)1)<<125;
struct VarInfo { std::string name; uint32_t w; i128 lo, hi; E e; };
struct Model { uint64_t id; std::vector<APInt> val; std::vector<char> has; };

extern Z3_context Z;
std::vector<VarInfo> gVars;

static inline i128 sMin(unsigned w){ return w>126 ? -WIDE : -(((i128)1)<<(w-1)); }
static inline i128 sMax(unsigned w){ return w>126 ? WIDE : (((i128)1)<<(w-1))-1; }
static inline unsigned bitsS(i128 v){ unsigned n=1; if(v<0) v=~v; while(v){ n++; v>>=1;} return n; }
static inline unsigned bitsR(i128 lo,i128 hi){ return std::max(bitsS(lo),bitsS(hi)); }
static inline i128 apS(const APInt&v){ if(v.getBitWidth()<=64) return v.getSExtValue();
  if(v.getSignificantBits()>126) return v.isNegative()?-WIDE:WIDE;
  APInt t=v.sextOrTrunc(128); return (i128)(((unsigned __int128)t.getRawData()[1]<<64)|t.getRawData()[0]); }
static inline APInt s2ap(i128 v,unsigned w){ uint64_t r[2]={(uint64_t)v,(uint64_t)((unsigned __int128)v>>64)};
  APInt t(128,llvm::ArrayRef<uint64_t>(r,2)); return t.sextOrTrunc(w); }

struct KeyHash { size_t operator()(const Expr* e) const {
  size_t h=e->op*1000003u+e->w*31u+e->p*7u; auto mix=[&](size_t x){ h^=x+0x9e3779b97f4a7c15ull+(h<<6)+(h>>2); };
  mix(e->a?e->a->id:0); mix(e->b?e->b->id:0); mix(e->c?e->c->id:0);
  if(e->op==O_CONST) mix(llvm::hash_value(e->v)); if(e->op==O_VAR) mix(e->var); return h; } };
struct KeyEq { bool operator()(const Expr*x,const Expr*y) const {
  return x->op==y->op&&x->w==y->w&&x->p==y->p&&x->a==y->a&&x->b==y->b&&x->c==y->c&&x->var==y->var&&
    (x->op!=O_CONST||x->v==y->v); } };
static std::unordered_map<const Expr*,E,KeyHash,KeyEq> gTab;
static uint32_t gNextId=1;

static inline bool isC(E e){ return e->op==O_CONST; }
static void computeRange(Expr*x);
static E intern(Expr&x){
  auto it=gTab.find(&x); if(it!=gTab.end()) return it->second;
  Expr*n=new Expr(x); n->id=gNextId++;
  computeRange(n);
  gTab.emplace(n,n); return n;
}
static E mkC(const APInt&v){ Expr x; x.op=O_CONST; x.w=v.getBitWidth(); x.v=v; x.leaves=1; return intern(x); }
static E mkCu(uint64_t v,unsigned w){ return mkC(APInt(w,v)); }
static E mkVar(const std::string&n,unsigned w,i128 lo,i128 hi){
  Expr x; x.op=O_VAR; x.w=w; x.var=gVars.size(); x.lo=lo; x.hi=hi;
  gVars.push_back({n,w,lo,hi,nullptr}); E e=intern(x); gVars.back().e=e; return e; }
static E mkRaw(Op op,unsigned w,E a,E b=nullptr,E c=nullptr,unsigned p=0){
  Expr x; x.op=op; x.w=w; x.a=a; x.b=b; x.c=c; x.p=p;
  if(op==O_ITE&&b->leaves&&c->leaves&&b->leaves+c->leaves<=12) x.leaves=b->leaves+c->leaves;
  return intern(x); }

static bool fits(i128 lo,i128 hi,unsigned w){ return lo>=sMin(w)&&hi<=sMax(w); }
static void computeRange(Expr*x){
  unsigned w=x->w; i128 lo=sMin(w),hi=sMax(w);
  E a=x->a,b=x->b;
  auto set=[&](i128 l,i128 h){ if(w<=126&&fits(l,h,w)){ lo=l; hi=h; } else if(w>126&&l>-WIDE&&h<WIDE){ lo=l; hi=h; } };
  auto small=[&](E e){ return e->lo>-((i128)1<<62)&&e->hi<((i128)1<<62); };
  auto ok=[&](E e){ return e->lo>-WIDE&&e->hi<WIDE; };
  switch(x->op){
  case O_CONST: lo=hi=apS(x->v); break;
  case O_VAR: lo=x->lo; hi=x->hi; break;
  case O_ADD: if(ok(a)&&ok(b)) set(a->lo+b->lo,a->hi+b->hi); break;
  case O_SUB: if(ok(a)&&ok(b)) set(a->lo-b->hi,a->hi-b->lo); break;
  case O_MUL: if(small(a)&&small(b)){ i128 q[4]={a->lo*b->lo,a->lo*b->hi,a->hi*b->lo,a->hi*b->hi};
      set(*std::min_element(q,q+4),*std::max_element(q,q+4)); } break;
  case O_UDIV: if(a->lo>=0&&b->lo>0) set(a->lo/b->hi,a->hi/b->lo); else if(a->lo>=0&&b->lo>=0) set(0,sMax(w)); break;
  case O_SDIV: if(ok(a)) { i128 m=std::max(a->lo<0?-a->lo:a->lo,a->hi<0?-a->hi:a->hi); set(-m,m);
      if(isC(b)&&b->lo>0) set(a->lo/b->lo,a->hi/b->lo); } break;
  case O_UREM: if(a->lo>=0&&b->lo>0) set(0,std::min(a->hi,b->hi-1)); break;
  case O_SREM: if(ok(b)&&ok(a)){ i128 m=std::max(b->lo<0?-b->lo:b->lo,b->hi<0?-b->hi:b->hi); if(m>0) set(a->lo<0?std::max(a->lo,-(m-1)):(i128)0,a->hi>0?std::min(a->hi,m-1):(i128)0);} break;
  case O_AND: if(a->lo>=0&&b->lo>=0) set(0,std::min(a->hi,b->hi)); else if(b->lo>=0) set(0,b->hi); else if(a->lo>=0) set(0,a->hi); break;
  case O_OR: case O_XOR: if(a->lo>=0&&b->lo>=0){ unsigned n=std::max(bitsS(a->hi),bitsS(b->hi)); set(0,(((i128)1)<<(n-1))-1); } break;
  case O_SHL: if(isC(b)&&b->lo>=0&&b->lo<62&&small(a)) set(a->lo<<(int)b->lo,a->hi<<(int)b->lo); break;
  case O_LSHR: if(isC(b)&&b->lo>=0&&b->lo<(i128)w){ if(a->lo>=0) set(a->lo>>(int)b->lo,a->hi>>(int)b->lo); else if(b->lo>0&&w<=120) set(0,(((i128)1)<<(w-(int)b->lo))-1); } else if(a->lo>=0) set(0,a->hi); break;
  case O_ASHR: if(isC(b)&&b->lo>=0&&b->lo<126&&ok(a)) set(a->lo>>(int)b->lo,a->hi>>(int)b->lo); break;
  case O_ZEXT: if(a->lo>=0&&ok(a)) set(a->lo,a->hi); else if(a->w<=120) set(0,(((i128)1)<<a->w)-1); break;
  case O_SEXT: if(ok(a)) set(a->lo,a->hi); break;
  case O_EXTRACT: if(x->p<120&&ok(a)&&fits(a->lo>>x->p,a->hi>>x->p,w)) set(a->lo>>x->p,a->hi>>x->p); break;
  case O_CONCAT: if(ok(a)&&b->w<60&&a->lo>-((i128)1<<62)&&a->hi<((i128)1<<62)) set(a->lo<<b->w,(a->hi<<b->w)+((((i128)1)<<b->w)-1)); else if(isC(a)&&a->v.isZero()&&b->w<=120) set(0,(((i128)1)<<b->w)-1); break;
  case O_ITE: lo=std::min(x->b->lo,x->c->lo); hi=std::max(x->b->hi,x->c->hi); break;
  case O_GCD: if(ok(a)&&ok(b)){ i128 m=std::max(std::max(a->lo<0?-a->lo:a->lo,a->hi<0?-a->hi:a->hi),std::max(b->lo<0?-b->lo:b->lo,b->hi<0?-b->hi:b->hi)); set(0,m);} break;
  default: break;
  }
  x->lo=lo; x->hi=hi;
}

static E mkNot(E a);
static E mkIte(E c,E a,E b);
static E mkBin(Op op,E a,E b);
static E mkExtract(E a,unsigned lo,unsigned w);
static E mkZext(E a,unsigned w);
static E mkSext(E a,unsigned w);
static E mkConcat(E hi,E lo);
static E TRUE_(){ static E t=mkCu(1,1); return t; }
static E FALSE_(){ static E t=mkCu(0,1); return t; }
static E mkB(bool b){ return b?TRUE_():FALSE_(); }
static inline bool isTrue(E e){ return isC(e)&&e->w==1&&e->v==1; }
static inline bool isFalse(E e){ return isC(e)&&e->w==1&&e->v==0; }

static double apD(const APInt&v){ double d; uint64_t u=v.getZExtValue(); memcpy(&d,&u,8); return d; }
static APInt dAp(double d){ uint64_t u; memcpy(&u,&d,8); return APInt(64,u); }
static APInt apGcd(APInt a,APInt b){ if(a.isNegative()) a=-a; if(b.isNegative()) b=-b; return llvm::APIntOps::GreatestCommonDivisor(a,b); }

static APInt foldBin(Op op,const APInt&a,const APInt&b){
  unsigned w=a.getBitWidth();
  switch(op){
  case O_ADD: return a+b; case O_SUB: return a-b; case O_MUL: return a*b;
  case O_UDIV: return b.isZero()?APInt::getAllOnes(w):a.udiv(b);
  case O_SDIV: return b.isZero()?(a.isNegative()?APInt(w,1):APInt::getAllOnes(w)):a.sdiv(b);
  case O_UREM: return b.isZero()?a:a.urem(b);
  case O_SREM: return b.isZero()?a:a.srem(b);
  case O_SHL: return b.uge(w)?APInt(w,0):a.shl(b); case O_LSHR: return b.uge(w)?APInt(w,0):a.lshr(b);
  case O_ASHR: return b.uge(w)?(a.isNegative()?APInt::getAllOnes(w):APInt(w,0)):a.ashr(b);
  case O_AND: return a&b; case O_OR: return a|b; case O_XOR: return a^b;
  case O_EQ: return APInt(1,a==b); case O_ULT: return APInt(1,a.ult(b)); case O_SLT: return APInt(1,a.slt(b));
  case O_GCD: return apGcd(a,b);
  case O_CONCAT: return a.concat(b);
  case O_FADD: return dAp(apD(a)+apD(b)); case O_FSUB: return dAp(apD(a)-apD(b));
  case O_FMUL: return dAp(apD(a)*apD(b)); case O_FDIV: return dAp(apD(a)/apD(b));
  case O_FEQ: return APInt(1,apD(a)==apD(b)); case O_FLT: return APInt(1,apD(a)<apD(b)); case O_FLE: return APInt(1,apD(a)<=apD(b));
  default: fprintf(stderr,"foldBin %d\n",op); abort();
  }
}
static bool isCmp(Op op){ return op==O_EQ||op==O_ULT||op==O_SLT||op==O_FEQ||op==O_FLT||op==O_FLE; }
static bool isComm(Op op){ return op==O_ADD||op==O_MUL||op==O_AND||op==O_OR||op==O_XOR||op==O_EQ||op==O_GCD||op==O_FADD||op==O_FMUL||op==O_FEQ; }

static E liftIte(Op op,E a,E b){ // a or b is an ITE tree of constants
  if(a->op==O_ITE&&a->leaves){
    if(b->op==O_ITE&&b->leaves&&b->a==a->a) return mkIte(a->a,mkBin(op,a->b,b->b),mkBin(op,a->c,b->c));
    return mkIte(a->a,mkBin(op,a->b,b),mkBin(op,a->c,b)); }
  return mkIte(b->a,mkBin(op,a,b->b),mkBin(op,a,b->c));
}
static E mkNot(E a){
  if(isC(a)) return mkC(~a->v);
  if(a->op==O_XOR&&isC(a->b)&&a->b->v.isAllOnes()) return a->a;
  return mkRaw(O_XOR,a->w,a,mkC(APInt::getAllOnes(a->w)));
}
static inline bool isNot1(E a){ return a->w==1&&a->op==O_XOR&&isC(a->b); }
static E narrow(E a,unsigned nb){ return nb<a->w?mkExtract(a,0,nb):(nb>a->w?mkSext(a,nb):a); }

// ---- linear normal form (exact integer arithmetic, signed reading of every term)
static const i128 LB=((i128)1)<<61;
static inline bool smallE(E e){ return e->lo>-LB&&e->hi<LB; }
static const Lin& linOf(E e);
static void linAdd(Lin&r,const Lin&b,i128 c){
  std::vector<std::pair<E,i128>> o; size_t i=0,j=0;
  while(i<r.t.size()||j<b.t.size()){
    if(j>=b.t.size()||(i<r.t.size()&&r.t[i].first->id<b.t[j].first->id)) o.push_back(r.t[i++]);
    else if(i>=r.t.size()||b.t[j].first->id<r.t[i].first->id){ o.push_back({b.t[j].first,b.t[j].second*c}); j++; }
    else { i128 s=r.t[i].second+b.t[j].second*c; if(s) o.push_back({r.t[i].first,s}); i++; j++; } }
  r.t.swap(o); r.k+=b.k*c; }
static const Lin& linOf(E e){
  if(e->lin) return *e->lin;
  Lin*l=new Lin; bool done=false;
  if(smallE(e)) switch(e->op){
  case O_CONST: l->k=e->lo; done=true; break;
  case O_SEXT: *l=linOf(e->a); done=true; break;
  case O_ADD: if(smallE(e->a)&&smallE(e->b)&&fits(e->a->lo+e->b->lo,e->a->hi+e->b->hi,e->w)){ *l=linOf(e->a); linAdd(*l,linOf(e->b),1); done=true; } break;
  case O_SUB: if(smallE(e->a)&&smallE(e->b)&&fits(e->a->lo-e->b->hi,e->a->hi-e->b->lo,e->w)){ *l=linOf(e->a); linAdd(*l,linOf(e->b),-1); done=true; } break;
  case O_MUL: if(isC(e->b)&&smallE(e->a)&&smallE(e->b)){ i128 c=e->b->lo; if((c<0?-c:c)<((i128)1<<40)&&(e->a->lo>-((i128)1<<60)&&e->a->hi<((i128)1<<60))&&fits(std::min(e->a->lo*c,e->a->hi*c),std::max(e->a->lo*c,e->a->hi*c),e->w)){ linAdd(*l,linOf(e->a),c); done=true; } } break;
  case O_XOR: if(e->w>1&&isC(e->b)&&e->b->v.isAllOnes()){ linAdd(*l,linOf(e->a),-1); l->k-=1; done=true; } break;
  case O_CONCAT: if(isC(e->b)&&e->b->w<40){ linAdd(*l,linOf(e->a),((i128)1)<<e->b->w); l->k+=(i128)e->b->v.getZExtValue(); done=true; } break;
  case O_ZEXT: if(e->w>e->a->w+1){ E z=mkRaw(O_ZEXT,e->a->w+1,e->a); l->t.push_back({z,1}); done=true; } break;
  default: break; }
  if(done){ for(auto&x:l->t) if(x.second>LB||x.second<-LB) done=false; if(l->t.size()>48||l->k>LB||l->k<-LB) done=false; }
  if(!done){ l->t.clear(); l->k=0; l->t.push_back({e,1}); }
  e->lin=l; return *l; }
static bool linRange(const Lin&l,i128&lo,i128&hi){ lo=hi=l.k; for(auto&x:l.t){ if(!smallE(x.first)) return false; i128 c=x.second; if(c>((i128)1<<62)||c<-((i128)1<<62)) return false;
    i128 p=x.first->lo*c,q=x.first->hi*c; if(c<0) std::swap(p,q); lo+=p; hi+=q; if(lo<-LB||hi>LB) return false; } return true; }
static E narrow(E a,unsigned nb);
// the sum as a term; nullptr when it does not fit comfortably
static E linBuild(const Lin&l,unsigned maxw){
  if(l.t.empty()) { unsigned w=std::max(2u,bitsS(l.k)); return mkC(s2ap(l.k,w)); }
  if(l.t.size()==1&&l.t[0].second==1&&l.k==0) return l.t[0].first;
  std::vector<std::pair<E,i128>> o; for(auto&x:l.t) if(x.second>0) o.push_back(x); for(auto&x:l.t) if(x.second<0) o.push_back(x);
  i128 lo=0,hi=0,mlo=l.k,mhi=l.k; 
  for(auto&x:o){ i128 p=x.first->lo*x.second,q=x.first->hi*x.second; if(p>q) std::swap(p,q); mlo=std::min(mlo,std::min(p,-q)); mhi=std::max(mhi,std::max(q,-p)); lo+=p; hi+=q; mlo=std::min(mlo,std::min(lo,x.first->lo)); mhi=std::max(mhi,std::max(hi,x.first->hi)); mlo=std::min(mlo,x.second); mhi=std::max(mhi,x.second<0?-x.second:x.second); if(lo<-LB||hi>LB) return nullptr; }
  lo+=l.k; hi+=l.k; mlo=std::min(mlo,lo); mhi=std::max(mhi,hi);
  unsigned nb=std::max(2u,bitsR(mlo,mhi)); if(nb>maxw) return nullptr;
  E acc=nullptr;
  for(auto&x:o){ E e=narrow(x.first,nb); i128 c=x.second; bool neg=c<0&&acc; if(neg) c=-c;
    if(c==-1&&!acc){ acc=mkRaw(O_SUB,nb,mkC(APInt(nb,0)),e); continue; }
    E m=c==1?e:mkRaw(O_MUL,nb,e,mkC(s2ap(c,nb))); acc=acc?(neg?mkRaw(O_SUB,nb,acc,m):(acc->id<=m->id?mkRaw(O_ADD,nb,acc,m):mkRaw(O_ADD,nb,m,acc))):m; }
  if(l.k) acc=mkRaw(O_ADD,nb,acc,mkC(s2ap(l.k,nb)));
  if(!acc->lin) acc->lin=new Lin(l);
  i128 rl,rh; if(linRange(l,rl,rh)){ Expr*x=const_cast<Expr*>(acc); x->lo=std::max(x->lo,rl); x->hi=std::min(x->hi,rh); }
  return acc; }
static i128 igcd(i128 a,i128 b){ if(a<0) a=-a; if(b<0) b=-b; while(b){ i128 t=a%b; a=b; b=t; } return a; }
static i128 fdivI(i128 a,i128 b){ i128 q=a/b; if(a%b!=0&&((a<0)!=(b<0))) q--; return q; }

// ---- polynomial normal form over the integers, used to settle comparisons of expanded products
struct Pol { bool ok=true,nl=false; std::map<std::vector<uint32_t>,i128> t; };
static std::unordered_map<uint32_t,E> gAtom;
static bool polPut(Pol&r,const std::vector<uint32_t>&m,i128 c){ i128 L=((i128)1)<<118; auto it=r.t.emplace(m,0).first; it->second+=c; if(it->second>=L||it->second<=-L) return false; if(it->second==0) r.t.erase(it); return r.t.size()<=700; }
static bool polAdd(Pol&r,const Pol&b,i128 c){ i128 L=((i128)1)<<118; for(auto&x:b.t){ i128 a=x.second<0?-x.second:x.second,d=c<0?-c:c; if(d&&a>L/d) return false; if(!polPut(r,x.first,x.second*c)) return false; } r.nl|=b.nl; return true; }
static const Pol& polOf(E e){
  if(e->pol) return *e->pol;
  Pol*r=new Pol; bool done=false; auto rng=[](E x){ return x->lo>-WIDE&&x->hi<WIDE; };
  auto sm=[](E x){ return x->lo>-(((i128)1)<<62)&&x->hi<(((i128)1)<<62); };
  if(rng(e)){
    if(isC(e)){ if(e->lo) r->ok=polPut(*r,{},e->lo); done=true; }
    else if(e->op==O_SEXT){ *r=polOf(e->a); done=true; }
    else if(e->op==O_MUL&&!isC(e->b)&&rng(e->a)&&rng(e->b)&&sm(e->a)&&sm(e->b)){
      i128 q[4]={e->a->lo*e->b->lo,e->a->lo*e->b->hi,e->a->hi*e->b->lo,e->a->hi*e->b->hi};
      if(fits(*std::min_element(q,q+4),*std::max_element(q,q+4),e->w)){ const Pol&x=polOf(e->a),&y=polOf(e->b); bool ok=x.ok&&y.ok&&x.t.size()*y.t.size()<=2000;
        if(ok) for(auto&u:x.t){ for(auto&v:y.t){ i128 a=u.second<0?-u.second:u.second,d=v.second<0?-v.second:v.second; if(a>(((i128)1)<<118)/d){ ok=false; break; }
          std::vector<uint32_t> m; std::merge(u.first.begin(),u.first.end(),v.first.begin(),v.first.end(),std::back_inserter(m)); if(!polPut(*r,m,u.second*v.second)){ ok=false; break; } } if(!ok) break; }
        r->nl=true; if(ok) done=true; else { r->t.clear(); } } }
    else if(smallE(e)){ const Lin&l=linOf(e); if(!(l.t.size()==1&&l.t[0].first==e)){ bool ok=l.k==0||polPut(*r,{},l.k); for(auto&x:l.t) if(ok){ const Pol&y=polOf(x.first); ok=y.ok&&polAdd(*r,y,x.second); } if(ok) done=true; else r->t.clear(); } }
    if(!done&&(e->op==O_ADD||e->op==O_SUB)&&rng(e->a)&&rng(e->b)){
      i128 lo=e->op==O_ADD?e->a->lo+e->b->lo:e->a->lo-e->b->hi,hi=e->op==O_ADD?e->a->hi+e->b->hi:e->a->hi-e->b->lo;
      if(fits(lo,hi,e->w)){ const Pol&x=polOf(e->a),&y=polOf(e->b); if(x.ok&&y.ok){ *r=x; if(polAdd(*r,y,e->op==O_ADD?1:-1)) done=true; else { r->t.clear(); r->ok=true; } } } }
    if(!done&&e->op==O_MUL&&isC(e->b)&&rng(e->a)&&sm(e->a)&&sm(e->b)){ i128 p=e->a->lo*e->b->lo,q=e->a->hi*e->b->lo; if(fits(std::min(p,q),std::max(p,q),e->w)){ const Pol&x=polOf(e->a); if(x.ok){ if(polAdd(*r,x,e->b->lo)) done=true; else r->t.clear(); } } }
  }
  if(!done){ gAtom[e->id]=e; r->t[{e->id}]=1; }
  e->pol=r; return *r; }
// -1: a-b is not a constant; otherwise the truth of a==b (lt: a<b)
static int polCmp(E a,E b,bool lt){ const Pol&x=polOf(a),&y=polOf(b); if(!x.ok||!y.ok||!(x.nl||y.nl)) return -1; Pol d=x; if(!polAdd(d,y,-1)) return -1;
  if(d.t.empty()) return lt?0:1; if(d.t.size()==1&&d.t.begin()->first.empty()) return lt?d.t.begin()->second<0:0; return -1; }

// doubles that are exactly an integer over a power of two (|integer|<2^53, never -0): arithmetic on
// them is exact, so it is carried out on the integers
struct Dy { E n; int k; };
static bool dyOf(E e,Dy&d){
  if(e->w!=64) return false;
  if(isC(e)){ double c=apD(e->v); if(c!=c||(c==0&&std::signbit(c))) return false; for(int k=0;k<=40;k++){ double x=std::ldexp(c,k); if(std::fabs(x)>=9007199254740992.0) return false; if(x==std::floor(x)){ d.n=mkC(APInt(64,(uint64_t)(int64_t)x,true)); d.k=k; return true; } } return false; }
  if(e->op==O_SITOFP){ E a=e->a; i128 L=(i128)1<<53; if(a->w>64||a->lo<=-L||a->hi>=L) return false; d.n=a->w<64?mkSext(a,64):a; d.k=0; return true; }
  if(e->op==O_FDIV&&e->a->op==O_SITOFP&&isC(e->b)){ Dy c; if(!dyOf(e->b,c)||c.k||!isC(c.n)||!c.n->v.isPowerOf2()||c.n->v.isNegative()) return false; if(!dyOf(e->a,d)||d.k) return false; d.k=c.n->v.logBase2(); return true; }
  return false; }
static E mkDy(E n,int k){
  if(isC(n)) return mkC(dAp(std::ldexp((double)n->v.getSExtValue(),-k)));
  E f=mkRaw(O_SITOFP,64,n); return k?mkRaw(O_FDIV,64,f,mkC(dAp(std::ldexp(1.0,k)))):f; }
static E dyOp(Op op,E a,E b){ Dy x,y; if(!dyOf(a,x)||!dyOf(b,y)) return nullptr; i128 L=(i128)1<<53; auto fit=[&](E e){ return e->lo>-L&&e->hi<L; };
  auto shl=[&](E n,int d){ return d?mkBin(O_MUL,n,mkC(APInt(64,1ull<<d))):n; };
  if(op==O_FDIV){ if(!isC(y.n)||y.k||!y.n->v.isStrictlyPositive()||!y.n->v.isPowerOf2()) return nullptr; int k=x.k+y.n->v.logBase2(); return k>40?nullptr:mkDy(x.n,k); }
  if(op==O_FMUL){ if(isC(x.n)) std::swap(x,y); if(!isC(y.n)||!y.n->v.isStrictlyPositive()||x.k+y.k>40) return nullptr; i128 c=apS(y.n->v); if(c>(1<<20)||x.n->lo*c<=-L||x.n->hi*c>=L) return nullptr; return mkDy(mkBin(O_MUL,x.n,y.n),x.k+y.k); }
  int k=std::max(x.k,y.k); if(k-x.k>20||k-y.k>20) return nullptr; i128 fx=(i128)1<<(k-x.k),fy=(i128)1<<(k-y.k);
  if(x.n->lo*fx<=-L||x.n->hi*fx>=L||y.n->lo*fy<=-L||y.n->hi*fy>=L) return nullptr;
  E p=shl(x.n,k-x.k),q=shl(y.n,k-y.k);
  switch(op){ case O_FADD: case O_FSUB: { E r=mkBin(op==O_FADD?O_ADD:O_SUB,p,q); return fit(r)?mkDy(r,k):nullptr; }
  case O_FEQ: return mkBin(O_EQ,p,q); case O_FLT: return mkBin(O_SLT,p,q); case O_FLE: return mkNot(mkBin(O_SLT,q,p)); default: return nullptr; } }
static E mkBin(Op op,E a,E b){
  if(op==O_FADD||op==O_FSUB||op==O_FMUL||op==O_FDIV||op==O_FEQ||op==O_FLT||op==O_FLE) if(!(isC(a)&&isC(b))) if(E r=dyOp(op,a,b)) return r;
  if(op!=O_CONCAT&&a->w!=b->w){ fprintf(stderr,"width mismatch op %d %u %u\n",op,a->w,b->w); abort(); }
  if(isC(a)&&isC(b)) return mkC(foldBin(op,a->v,b->v));
  if(isComm(op)&&(isC(a)||(!isC(b)&&a->id>b->id))) std::swap(a,b);
  unsigned w=a->w;
  // boolean layer
  if(w==1){
    switch(op){
    case O_AND: if(isC(b)) return isTrue(b)?a:b; if(a==b) return a; if(mkNot(a)==b) return FALSE_();
      break;
    case O_OR: if(isC(b)) return isTrue(b)?b:a; if(a==b) return a; if(mkNot(a)==b) return TRUE_(); break;
    case O_XOR: case O_ADD: case O_SUB: if(isC(b)) return isTrue(b)?mkNot(a):a; if(a==b) return FALSE_(); if(op!=O_XOR) return mkBin(O_XOR,a,b); break;
    case O_MUL: return mkBin(O_AND,a,b);
    case O_EQ: if(isC(b)) return isTrue(b)?a:mkNot(a); if(a==b) return TRUE_(); return mkNot(mkBin(O_XOR,a,b));
    case O_ULT: return mkBin(O_AND,mkNot(a),b);
    case O_SLT: return mkBin(O_AND,a,mkNot(b));
    default: break;
    }
    return mkRaw(op,1,a,b);
  }
  bool la=a->op==O_ITE&&a->leaves, lb=b->op==O_ITE&&b->leaves;
  if(op!=O_CONCAT&&((la&&isC(b))||(lb&&isC(a))||(la&&lb&&(a->a==b->a||a->leaves*b->leaves<=9)))) return liftIte(op,a,b);
  switch(op){
  case O_ADD: if(isC(b)){ if(b->v.isZero()) return a; if(a->op==O_ADD&&isC(a->b)) return mkBin(O_ADD,a->a,mkC(a->b->v+b->v)); } break;
  case O_SUB: if(a==b) return mkC(APInt(w,0)); if(isC(b)) return mkBin(O_ADD,a,mkC(-b->v));
    { E x=a->op==O_SEXT?a->a:a, y=b->op==O_SEXT?b->a:b; // x-(x-z) = z when x-z cannot wrap
      if(y->op==O_SUB&&(y->a==x||(y->a->op==O_SEXT&&y->a->a==x))&&fits(y->a->lo-y->b->hi,y->a->hi-y->b->lo,y->w)) return narrow(y->b,w); }
    if(a->op==O_ADD&&a->a==b) return a->b; if(a->op==O_ADD&&a->b==b) return a->a; break;
  case O_MUL: if(isC(b)){ if(b->v.isZero()) return b; if(b->v.isOne()) return a; } break;
  case O_UDIV: if(isC(b)&&b->v.isOne()) return a; break;
  case O_SDIV: if(isC(b)&&b->v.isOne()) return a; break;
  case O_SHL: case O_LSHR: case O_ASHR: if(isC(b)&&b->v.isZero()) return a; if(isC(a)&&a->v.isZero()) return a;
    if(op==O_SHL&&isC(b)&&b->v.ult(w)) return mkBin(O_MUL,a,mkC(APInt(w,1).shl(b->v)));
    if(op==O_LSHR&&isC(b)&&b->v.ult(w)) return mkZext(mkExtract(a,b->v.getZExtValue(),w-b->v.getZExtValue()),w);
    break;
  case O_AND: if(isC(b)){ if(b->v.isZero()) return b; if(b->v.isAllOnes()) return a;
      if(b->v.isMask()) return mkZext(mkExtract(a,0,b->v.countTrailingOnes()),w);
      if(a->op==O_SEXT&&(a->lo>=0||b->v.isSignedIntN(a->a->w))&&a->a->w<w) { APInt c=b->v.trunc(a->a->w); return mkSext(mkBin(O_AND,a->a,mkC(c)),w); }
      if((~b->v).isMask()){ unsigned k=(~b->v).countTrailingOnes(); return mkConcat(mkExtract(a,k,w-k),mkC(APInt(k,0))); } }
    if(a==b) return a; break;
  case O_OR: if(isC(b)){ if(b->v.isZero()) return a; if(b->v.isAllOnes()) return b;
      if(a->op==O_CONCAT) return mkConcat(mkBin(O_OR,a->a,mkC(b->v.extractBits(a->a->w,a->b->w))),mkBin(O_OR,a->b,mkC(b->v.trunc(a->b->w))));
      if(a->op==O_SEXT&&b->v.isSignedIntN(a->a->w)) return mkSext(mkBin(O_OR,a->a,mkC(b->v.trunc(a->a->w))),w);
      if(b->v.isMask()&&b->v.countTrailingOnes()<w){ unsigned k=b->v.countTrailingOnes(); return mkConcat(mkExtract(a,k,w-k),mkC(APInt::getAllOnes(k))); } } if(a==b) return a; break;
  case O_XOR: if(isC(b)){ if(b->v.isZero()) return a; if(b->v.isAllOnes()) return mkNot(a);
      if(a->op==O_CONCAT) return mkConcat(mkBin(O_XOR,a->a,mkC(b->v.extractBits(a->a->w,a->b->w))),mkBin(O_XOR,a->b,mkC(b->v.trunc(a->b->w))));
      if(a->op==O_SEXT&&b->v.isSignedIntN(a->a->w)) return mkSext(mkBin(O_XOR,a->a,mkC(b->v.trunc(a->a->w))),w); } if(a==b) return mkC(APInt(w,0)); break;
  case O_EQ: case O_SLT: case O_ULT: {
    if(a==b) return mkB(op==O_EQ);
    bool rng=a->lo>-WIDE&&a->hi<WIDE&&b->lo>-WIDE&&b->hi<WIDE;
    if(op==O_ULT&&a->lo>=0&&b->lo>=0&&rng) op=O_SLT;
    if(op==O_EQ){
      if(a->hi<b->lo||b->hi<a->lo) return FALSE_();
      if(rng&&a->lo==a->hi&&b->lo==b->hi&&a->lo==b->lo) return TRUE_();
      if(a->op==O_ADD&&isC(a->b)&&isC(b)) return mkBin(O_EQ,a->a,mkC(b->v-a->b->v));
      if(a->op==O_ZEXT&&isC(b)){ if(b->v.getActiveBits()>a->a->w) return FALSE_(); return mkBin(O_EQ,a->a,mkC(b->v.trunc(a->a->w))); }
      if(a->op==O_CONCAT&&isC(b)) return mkBin(O_AND,mkBin(O_EQ,a->a,mkC(b->v.extractBits(a->a->w,a->b->w))),mkBin(O_EQ,a->b,mkC(b->v.trunc(a->b->w))));
      if(a->op==O_ITE&&(a->b==b||a->c==b)){ // (c?x:y)==x
        if(isC(b)){ if(a->b==b) return mkBin(O_OR,a->a,mkBin(O_EQ,a->c,b)); return mkBin(O_OR,mkNot(a->a),mkBin(O_EQ,a->b,b)); } }
    }
    if(op==O_SLT&&rng){
      if(a->hi<b->lo) return TRUE_(); if(a->lo>=b->hi) return FALSE_();
      if(isC(b)&&a->op==O_ADD&&isC(a->b)){ i128 k=apS(b->v)-apS(a->b->v); // x+c<k, no overflow by range
        if(a->a->lo+apS(a->b->v)>=sMin(w)&&a->a->hi+apS(a->b->v)<=sMax(w)&&fits(k,k,w)) return mkBin(O_SLT,a->a,mkC(s2ap(k,w))); }
      if(isC(a)&&b->op==O_ADD&&isC(b->b)){ i128 k=apS(a->v)-apS(b->b->v);
        if(b->a->lo+apS(b->b->v)>=sMin(w)&&b->a->hi+apS(b->b->v)<=sMax(w)&&fits(k,k,w)) return mkBin(O_SLT,mkC(s2ap(k,w)),b->a); }
      // x<c+1  canonical as not(c<x)
      if(isC(b)&&a->hi==b->lo&&a->hi!=a->lo&&a->lo+1<b->lo){} 
    }
    if(op==O_ULT&&isC(b)&&b->v.isZero()) return FALSE_();
    if(op==O_ULT&&isC(b)&&b->v.isOne()) return mkBin(O_EQ,a,mkC(APInt(w,0)));
    if(op==O_ULT&&a->op==O_ZEXT&&b->op==O_ZEXT&&a->a->w==b->a->w) return mkBin(O_ULT,a->a,b->a);
    if(op!=O_ULT&&rng&&w>1){ int k=polCmp(a,b,op==O_SLT); if(k>=0) return mkB(k); }
    if(op!=O_ULT&&smallE(a)&&smallE(b)){
      Lin d=linOf(a); linAdd(d,linOf(b),-1); i128 lo,hi;
      if(d.t.size()<=48&&linRange(d,lo,hi)){
        if(op==O_EQ&&(lo>0||hi<0)) return FALSE_(); if(op==O_EQ&&lo==0&&hi==0) return TRUE_();
        if(op==O_SLT&&hi<0) return TRUE_(); if(op==O_SLT&&lo>=0) return FALSE_();
        i128 k=-d.k; d.k=0; i128 g=0; for(auto&x:d.t) g=igcd(g,x.second); bool neg=d.t[0].second<0; bool inv=false;
        if(op==O_EQ){ if(k%g) return FALSE_(); k/=g; } else k=-fdivI(-k,g); // sum*g<k  ->  sum<ceil(k/g)
        for(auto&x:d.t) x.second/=g;
        if(op==O_SLT&&(k==0||k==1)){ int np=0; for(auto&x:d.t) np+=x.second>0; if(np&&np<(int)d.t.size()) neg=k==1; } // P<N and not(N<P) stay pure
        if(neg){ for(auto&x:d.t) x.second=-x.second; if(op==O_EQ) k=-k; else { k=-k+1; inv=true; } } // s<k -> not(-s<1-k)
        Lin P,N; for(auto&x:d.t) if(x.second>0) P.t.push_back(x); else N.t.push_back({x.first,-x.second}); N.k=k;
        E p=linBuild(P,62),q=linBuild(N,62);
        if(p&&q){ unsigned nb=std::max(2u,bitsR(std::min(p->lo,q->lo),std::max(p->hi,q->hi))); p=narrow(p,nb); q=narrow(q,nb);
          if(p!=a||q!=b){ E r;
            if(isC(q)&&p->op==O_ITE&&p->leaves) r=liftIte(op,p,q);
            else if(op==O_SLT&&isC(q)&&p->lo+1==q->lo) r=mkBin(O_EQ,p,mkC(s2ap(p->lo,nb)));
            else if(op==O_SLT&&isC(q)&&p->hi==q->lo) r=mkNot(mkBin(O_EQ,p,q));
            else if(op==O_EQ&&isC(q)&&(p->op==O_ZEXT||p->op==O_CONCAT||(p->op==O_ITE&&(p->b==q||p->c==q)))) r=mkBin(op,p,q);
            else r=mkRaw(op,1,p,q);
            return inv?mkNot(r):r; } } } }
    if(op!=O_ULT&&rng){ unsigned nb=std::max(2u,bitsR(std::min(a->lo,b->lo),std::max(a->hi,b->hi))); if(nb<w) return mkBin(op,narrow(a,nb),narrow(b,nb)); }
    if(op==O_SLT&&isC(a)){ // c<x  ->  not(x<c+1)
      i128 k=apS(a->v)+1; if(k<=sMax(w)&&w<=126) return mkNot(mkBin(O_SLT,b,mkC(s2ap(k,w)))); }
    if(op==O_SLT&&isC(b)&&w<=126){ i128 k=apS(b->v);
      if(a->lo+1==k) return mkBin(O_EQ,a,mkC(s2ap(a->lo,w)));
      if(a->hi==k) return mkNot(mkBin(O_EQ,a,b)); }
    return mkRaw(op,1,a,b); }
  case O_GCD: if(isC(b)&&(b->v.isOne()||b->v.isAllOnes())) return mkC(APInt(w,1)); if(isC(a)&&(a->v.isOne()||a->v.isAllOnes())) return mkC(APInt(w,1)); break;
  default: break;
  }
  if((op==O_ADD||op==O_SUB||(op==O_MUL&&isC(b)&&b->lo<((i128)1<<40)&&b->lo>-((i128)1<<40)))&&smallE(a)&&smallE(b)){
    i128 lo,hi; if(op==O_ADD){ lo=a->lo+b->lo; hi=a->hi+b->hi; } else if(op==O_SUB){ lo=a->lo-b->hi; hi=a->hi-b->lo; } else { lo=std::min(a->lo*b->lo,a->hi*b->lo); hi=std::max(a->lo*b->lo,a->hi*b->lo); }
    if(fits(lo,hi,w)&&lo>-LB&&hi<LB){ Lin l; if(op==O_MUL) linAdd(l,linOf(a),b->lo); else { l=linOf(a); linAdd(l,linOf(b),op==O_ADD?1:-1); }
      i128 rl,rh; if(l.t.size()<=48&&linRange(l,rl,rh)) if(E r=linBuild(l,w)) return narrow(r,w); } }
  if(op==O_ADD||op==O_SUB||op==O_MUL){
    i128 lo=0,hi=0; bool ok=false;
    auto sm=[&](E e){ return e->lo>-((i128)1<<62)&&e->hi<((i128)1<<62); };
    if(sm(a)&&sm(b)){ ok=true;
      if(op==O_ADD){ lo=a->lo+b->lo; hi=a->hi+b->hi; } else if(op==O_SUB){ lo=a->lo-b->hi; hi=a->hi-b->lo; }
      else { i128 q[4]={a->lo*b->lo,a->lo*b->hi,a->hi*b->lo,a->hi*b->hi}; lo=*std::min_element(q,q+4); hi=*std::max_element(q,q+4); } }
    if(ok){ unsigned nb=std::max(std::max(bitsR(a->lo,a->hi),bitsR(b->lo,b->hi)),std::max(2u,bitsR(lo,hi)));
      if(nb<w) return mkSext(mkBin(op,narrow(a,nb),narrow(b,nb)),w); }
  }
  if((op==O_UDIV||op==O_UREM||op==O_SDIV||op==O_SREM)&&isC(b)&&a->lo>=0&&a->hi<WIDE&&b->lo>0&&w<=126){
    i128 c=b->lo,q0=a->lo/c,q1=a->hi/c; if(q1-q0<10){ E q=mkC(s2ap(q0,w)); for(i128 k=q0+1;k<=q1;k++) q=mkIte(mkBin(O_SLT,a,mkC(s2ap(k*c,w))),q,mkC(s2ap(k,w)));
      if(op==O_UDIV||op==O_SDIV) return q; return mkBin(O_SUB,a,mkBin(O_MUL,q,b)); } }
  if((op==O_SDIV||op==O_SREM)&&a->lo>-WIDE&&a->hi<WIDE&&b->lo>-WIDE&&b->hi<WIDE){
    unsigned nb=std::max(2u,std::max(bitsR(a->lo,a->hi),bitsR(b->lo,b->hi))+1); if(nb<w) return mkSext(mkBin(op,narrow(a,nb),narrow(b,nb)),w); }
  if((op==O_UDIV||op==O_UREM)&&a->lo>=0&&b->lo>=0&&a->hi<WIDE&&b->hi<WIDE){
    unsigned nb=std::max(2u,std::max(bitsR(a->lo,a->hi),bitsR(b->lo,b->hi))); if(nb<w) return mkZext(mkBin(op,narrow(a,nb),narrow(b,nb)),w); }
  if(op==O_GCD&&a->lo>-WIDE&&a->hi<WIDE&&b->lo>-WIDE&&b->hi<WIDE){
    unsigned nb=std::max(2u,std::max(bitsR(a->lo,a->hi),bitsR(b->lo,b->hi))+1); if(nb<w) return mkZext(mkBin(op,narrow(a,nb),narrow(b,nb)),w); }
  return mkRaw(op,isCmp(op)?1:(op==O_CONCAT?a->w+b->w:w),a,b);
}
static E mkIte(E c,E a,E b){
  if(isC(c)) return isTrue(c)?a:b;
  if(a==b) return a;
  if(isNot1(c)) return mkIte(c->a,b,a);
  if(a->w==1){
    if(isTrue(a)&&isFalse(b)) return c; if(isFalse(a)&&isTrue(b)) return mkNot(c);
    if(isTrue(a)) return mkBin(O_OR,c,b); if(isFalse(a)) return mkBin(O_AND,mkNot(c),b);
    if(isTrue(b)) return mkBin(O_OR,mkNot(c),a); if(isFalse(b)) return mkBin(O_AND,c,a);
  }
  if(a->op==O_ITE&&a->a==c) a=a->b; if(b->op==O_ITE&&b->a==c) b=b->c; if(a==b) return a;
  if(a->op==O_SEXT&&b->op==O_SEXT&&a->a->w==b->a->w) return mkSext(mkIte(c,a->a,b->a),a->w);
  return mkRaw(O_ITE,a->w,c,a,b);
}
static E mkExtract(E a,unsigned lo,unsigned w){
  if(w==a->w) return a;
  if(isC(a)) return mkC(a->v.extractBits(w,lo));
  if(a->op==O_ITE&&a->leaves) return mkIte(a->a,mkExtract(a->b,lo,w),mkExtract(a->c,lo,w));
  if(a->op==O_EXTRACT) return mkExtract(a->a,a->p+lo,w);
  if(a->op==O_CONCAT){ if(lo+w<=a->b->w) return mkExtract(a->b,lo,w); if(lo>=a->b->w) return mkExtract(a->a,lo-a->b->w,w);
    return mkConcat(mkExtract(a->a,0,lo+w-a->b->w),mkExtract(a->b,lo,a->b->w-lo)); }
  if(a->op==O_ZEXT||a->op==O_SEXT){
    if(lo+w<=a->a->w) return mkExtract(a->a,lo,w);
    if(a->op==O_ZEXT&&lo>=a->a->w) return mkC(APInt(w,0));
    if(lo==0) return a->op==O_ZEXT?mkZext(a->a,w):mkSext(a->a,w);
    if(lo<a->a->w){ E t=mkExtract(a->a,lo,a->a->w-lo); return a->op==O_ZEXT?mkZext(t,w):mkSext(t,w); }
    if(a->op==O_SEXT) return mkSext(mkExtract(a->a,a->a->w-1,1),w); }
  if(lo==0&&(a->op==O_ADD||a->op==O_SUB||a->op==O_MUL||a->op==O_AND||a->op==O_OR||a->op==O_XOR)&&w>1)
    return mkBin(a->op,mkExtract(a->a,0,w),mkExtract(a->b,0,w));
  if(lo==0&&a->op==O_ITE&&w>1) return mkIte(a->a,mkExtract(a->b,0,w),mkExtract(a->c,0,w));
  return mkRaw(O_EXTRACT,w,a,nullptr,nullptr,lo);
}
static E mkZext(E a,unsigned w){
  if(w==a->w) return a; if(isC(a)) return mkC(a->v.zext(w));
  if(a->op==O_ZEXT) return mkZext(a->a,w);
  if(a->w==1) return mkIte(a,mkCu(1,w),mkCu(0,w));
  if(a->op==O_ITE&&a->leaves) return mkIte(a->a,mkZext(a->b,w),mkZext(a->c,w));
  if(a->lo>=0&&a->lo>-WIDE&&a->hi<WIDE) return mkSext(a,w);
  return mkRaw(O_ZEXT,w,a);
}
static E mkSext(E a,unsigned w){
  if(w==a->w) return a; if(isC(a)) return mkC(a->v.sext(w));
  if(a->op==O_SEXT) return mkSext(a->a,w);
  if(a->op==O_ZEXT&&a->a->w<a->w) return mkZext(a->a,w);
  if(a->w==1) return mkIte(a,mkC(APInt::getAllOnes(w)),mkCu(0,w));
  if(a->op==O_ITE&&a->leaves) return mkIte(a->a,mkSext(a->b,w),mkSext(a->c,w));
  return mkRaw(O_SEXT,w,a);
}
static E mkConcat(E hi,E lo){
  if(isC(hi)&&isC(lo)) return mkC(hi->v.concat(lo->v));
  if(isC(hi)&&hi->v.isZero()) return mkZext(lo,hi->w+lo->w);
  if(hi->op==O_EXTRACT&&lo->op==O_EXTRACT&&hi->a==lo->a&&hi->p==lo->p+lo->w) return mkExtract(hi->a,lo->p,hi->w+lo->w);
  if(hi->op==O_EXTRACT&&hi->a==lo&&hi->p==lo->w&&hi->a->w==hi->p+hi->w) return lo; // not reachable for sane widths
  if(lo->op==O_CONCAT&&hi->op==O_EXTRACT&&lo->a->op==O_EXTRACT&&hi->a==lo->a->a&&hi->p==lo->a->p+lo->a->w)
    return mkConcat(mkExtract(hi->a,lo->a->p,hi->w+lo->a->w),lo->b);
  return mkRaw(O_CONCAT,hi->w+lo->w,hi,lo);
}

// ---- evaluation under a model ------------------------------------------------
static const APInt& evalE(E e,const Model&m){
  if(e->op==O_CONST) return e->v;
  if(e->stamp==m.id) return e->ev;
  APInt r(1,0);
  switch(e->op){
  case O_VAR: if((size_t)e->var<m.val.size()&&m.has[e->var]) r=m.val[e->var]; else { const VarInfo&vi=gVars[e->var]; i128 d=(vi.lo<=0&&vi.hi>=0)?(i128)0:vi.lo; r=s2ap(d,e->w); } break;
  case O_ITE: { const APInt&c=evalE(e->a,m); r=c.isZero()?evalE(e->c,m):evalE(e->b,m); break; }
  case O_ZEXT: r=evalE(e->a,m).zext(e->w); break;
  case O_SEXT: r=evalE(e->a,m).sext(e->w); break;
  case O_EXTRACT: r=evalE(e->a,m).extractBits(e->w,e->p); break;
  case O_FNEG: r=dAp(-apD(evalE(e->a,m))); break;
  case O_SITOFP: r=dAp((double)evalE(e->a,m).getSExtValue()); break;
  case O_UITOFP: r=dAp((double)evalE(e->a,m).getZExtValue()); break;
  case O_FPTOSI: r=APInt(e->w,(uint64_t)(int64_t)apD(evalE(e->a,m)),true); break;
  default: { APInt x=evalE(e->a,m); r=foldBin(e->op,x,evalE(e->b,m)); }
  }
  e->stamp=m.id; e->ev=r; return e->ev;
}
static const std::vector<int>& varsOf(E e){
  static std::vector<int> none; if(e->op==O_CONST) return none;
  if(e->vars) return *e->vars;
  auto*v=new std::vector<int>;
  if(e->op==O_VAR) v->push_back(e->var);
  for(E k:{e->a,e->b,e->c}) if(k){ const auto&s=varsOf(k); std::vector<int> t; std::set_union(v->begin(),v->end(),s.begin(),s.end(),std::back_inserter(t)); v->swap(t); }
  e->vars=v; return *v;
}

// ---- translation to Z3 -------------------------------------------------------
static Z3_ast toBool(E e); static Z3_ast toIntB(E e);
static Z3_ast K(Z3_ast a){ Z3_inc_ref(Z,a); return a; } // kept for the life of the process
static Z3_sort KS(Z3_sort s){ Z3_inc_ref(Z,Z3_sort_to_ast(Z,s)); return s; }
static Z3_sort bvs(unsigned w){ static std::unordered_map<unsigned,Z3_sort> c; Z3_sort&s=c[w]; if(!s) s=KS(Z3_mk_bv_sort(Z,w)); return s; }
static Z3_sort fpS(){ static Z3_sort s=KS(Z3_mk_fpa_sort_double(Z)); return s; }
static Z3_ast rne(){ static Z3_ast r=K(Z3_mk_fpa_rne(Z)); return r; }
static Z3_ast rtz(){ static Z3_ast r=K(Z3_mk_fpa_rtz(Z)); return r; }
static Z3_ast toBV(E e){
  if(e->zbv) return e->zbv;
  Z3_ast r=nullptr;
  if(e->w==1){ Z3_ast one=K(Z3_mk_numeral(Z,"1",bvs(1))),zero=K(Z3_mk_numeral(Z,"0",bvs(1))); r=K(Z3_mk_ite(Z,toBool(e),one,zero)); }
  else switch(e->op){
  case O_CONST: { llvm::SmallString<64> s; e->v.toString(s,10,false); r=K(Z3_mk_numeral(Z,s.c_str(),bvs(e->w))); break; }
  case O_VAR: r=K(Z3_mk_const(Z,Z3_mk_string_symbol(Z,("v"+std::to_string(e->var)).c_str()),bvs(e->w))); break;
  case O_ADD: r=K(Z3_mk_bvadd(Z,toBV(e->a),toBV(e->b))); break;
  case O_SUB: r=K(Z3_mk_bvsub(Z,toBV(e->a),toBV(e->b))); break;
  case O_MUL: r=K(Z3_mk_bvmul(Z,toBV(e->a),toBV(e->b))); break;
  case O_UDIV: r=K(Z3_mk_bvudiv(Z,toBV(e->a),toBV(e->b))); break;
  case O_SDIV: r=K(Z3_mk_bvsdiv(Z,toBV(e->a),toBV(e->b))); break;
  case O_UREM: r=K(Z3_mk_bvurem(Z,toBV(e->a),toBV(e->b))); break;
  case O_SREM: r=K(Z3_mk_bvsrem(Z,toBV(e->a),toBV(e->b))); break;
  case O_SHL: r=K(Z3_mk_bvshl(Z,toBV(e->a),toBV(e->b))); break;
  case O_LSHR: r=K(Z3_mk_bvlshr(Z,toBV(e->a),toBV(e->b))); break;
  case O_ASHR: r=K(Z3_mk_bvashr(Z,toBV(e->a),toBV(e->b))); break;
  case O_AND: r=K(Z3_mk_bvand(Z,toBV(e->a),toBV(e->b))); break;
  case O_OR: r=K(Z3_mk_bvor(Z,toBV(e->a),toBV(e->b))); break;
  case O_XOR: r=K(Z3_mk_bvxor(Z,toBV(e->a),toBV(e->b))); break;
  case O_ITE: r=K(Z3_mk_ite(Z,toBool(e->a),toBV(e->b),toBV(e->c))); break;
  case O_ZEXT: r=K(Z3_mk_zero_ext(Z,e->w-e->a->w,toBV(e->a))); break;
  case O_SEXT: r=K(Z3_mk_sign_ext(Z,e->w-e->a->w,toBV(e->a))); break;
  case O_EXTRACT: r=K(Z3_mk_extract(Z,e->p+e->w-1,e->p,toBV(e->a))); break;
  case O_CONCAT: r=K(Z3_mk_concat(Z,toBV(e->a),toBV(e->b))); break;
  case O_GCD: {
    unsigned w=e->w;
    if(w<=11){ // unrolled Euclid; steps bounded by 1.45*w+2
      auto ab=[&](Z3_ast x){ return K(Z3_mk_ite(Z,K(Z3_mk_bvslt(Z,x,K(Z3_mk_numeral(Z,"0",bvs(w))))),K(Z3_mk_bvneg(Z,x)),x)); };
      Z3_ast x=ab(toBV(e->a)),y=ab(toBV(e->b)),zero=K(Z3_mk_numeral(Z,"0",bvs(w)));
      unsigned n=(unsigned)(1.45*w)+3;
      for(unsigned i=0;i<n;i++){ Z3_ast z=K(Z3_mk_eq(Z,y,zero)); Z3_ast nx=K(Z3_mk_ite(Z,z,x,y)),ny=K(Z3_mk_ite(Z,z,y,K(Z3_mk_bvurem(Z,x,y)))); x=nx; y=ny; }
      r=x;
    } else r=K(Z3_mk_const(Z,Z3_mk_string_symbol(Z,("gcd"+std::to_string(e->id)).c_str()),bvs(w)));
    break; }
  case O_FADD: case O_FSUB: case O_FMUL: case O_FDIV: {
    Z3_sort fs=fpS(); Z3_ast rm=rne();
    Z3_ast x=K(Z3_mk_fpa_to_fp_bv(Z,toBV(e->a),fs)),y=K(Z3_mk_fpa_to_fp_bv(Z,toBV(e->b),fs));
    Z3_ast q=e->op==O_FADD?K(Z3_mk_fpa_add(Z,rm,x,y)):e->op==O_FSUB?K(Z3_mk_fpa_sub(Z,rm,x,y)):e->op==O_FMUL?K(Z3_mk_fpa_mul(Z,rm,x,y)):K(Z3_mk_fpa_div(Z,rm,x,y));
    r=K(Z3_mk_fpa_to_ieee_bv(Z,q)); break; }
  case O_FNEG: r=K(Z3_mk_bvxor(Z,toBV(e->a),K(Z3_mk_numeral(Z,"9223372036854775808",bvs(64))))); break;
  case O_SITOFP: r=K(Z3_mk_fpa_to_ieee_bv(Z,K(Z3_mk_fpa_to_fp_signed(Z,rne(),toBV(e->a),fpS())))); break;
  case O_UITOFP: r=K(Z3_mk_fpa_to_ieee_bv(Z,K(Z3_mk_fpa_to_fp_unsigned(Z,rne(),toBV(e->a),fpS())))); break;
  case O_FPTOSI: r=K(Z3_mk_fpa_to_sbv(Z,rtz(),K(Z3_mk_fpa_to_fp_bv(Z,toBV(e->a),fpS())),e->w)); break;
  default: fprintf(stderr,"toBV op %d\n",e->op); abort();
  }
  Z3_inc_ref(Z,r); e->zbv=r; return r;
}
static Z3_ast toBool(E e){
  if(e->zbool) return e->zbool;
  Z3_ast r=nullptr;
  switch(e->op){
  case O_CONST: r=e->v.isZero()?K(Z3_mk_false(Z)):K(Z3_mk_true(Z)); break;
  case O_VAR: r=K(Z3_mk_const(Z,Z3_mk_string_symbol(Z,("v"+std::to_string(e->var)).c_str()),Z3_mk_bool_sort(Z))); break;
  case O_EQ: r=K(Z3_mk_eq(Z,toBV(e->a),toBV(e->b))); break;
  case O_ULT: r=K(Z3_mk_bvult(Z,toBV(e->a),toBV(e->b))); break;
  case O_SLT: r=K(Z3_mk_bvslt(Z,toBV(e->a),toBV(e->b))); break;
  case O_AND: { Z3_ast k[2]={toBool(e->a),toBool(e->b)}; r=K(Z3_mk_and(Z,2,k)); break; }
  case O_OR: { Z3_ast k[2]={toBool(e->a),toBool(e->b)}; r=K(Z3_mk_or(Z,2,k)); break; }
  case O_XOR: if(isC(e->b)) r=K(Z3_mk_not(Z,toBool(e->a))); else r=K(Z3_mk_xor(Z,toBool(e->a),toBool(e->b))); break;
  case O_ITE: r=K(Z3_mk_ite(Z,toBool(e->a),toBool(e->b),toBool(e->c))); break;
  case O_EXTRACT: { Z3_ast x=K(Z3_mk_extract(Z,e->p,e->p,toBV(e->a))); r=K(Z3_mk_eq(Z,x,K(Z3_mk_numeral(Z,"1",bvs(1))))); break; }
  case O_FEQ: case O_FLT: case O_FLE: { Z3_sort fs=fpS();
    Z3_ast x=K(Z3_mk_fpa_to_fp_bv(Z,toBV(e->a),fs)),y=K(Z3_mk_fpa_to_fp_bv(Z,toBV(e->b),fs));
    r=e->op==O_FEQ?K(Z3_mk_fpa_eq(Z,x,y)):e->op==O_FLT?K(Z3_mk_fpa_lt(Z,x,y)):K(Z3_mk_fpa_leq(Z,x,y)); break; }
  default: fprintf(stderr,"toBool op %d w %u\n",e->op,e->w); abort();
  }
  Z3_inc_ref(Z,r); e->zbool=r; return r;
}

// The same terms over the mathematical integers (signed value of every term), where no
// operation can wrap.  Returns null when some operation has no such reading.
static Z3_ast toInt(E e){
  if(e->zi) return e->zint; e->zi=1; if(e->w==1) return nullptr;
  static Z3_sort is=KS(Z3_mk_int_sort(Z)); Z3_ast r=nullptr; uint8_t k=2;
  auto num=[&](const APInt&v){ llvm::SmallString<64> s; v.toString(s,10,true); return K(Z3_mk_numeral(Z,s.c_str(),is)); };
  auto two=[&](Z3_ast&x,Z3_ast&y){ x=toInt(e->a); if(!x) return false; y=toInt(e->b); if(!y) return false; k=std::max(k,std::max(e->a->zi,e->b->zi)); return true; };
  auto big=[](E x){ return x->lo<=-((i128)1<<62)||x->hi>=((i128)1<<62); };
  Z3_ast x,y;
  switch(e->op){
  case O_CONST: r=num(e->v); break;
  case O_VAR: r=K(Z3_mk_const(Z,Z3_mk_string_symbol(Z,("i"+std::to_string(e->var)).c_str()),is)); break;
  case O_ADD: if(!big(e->a)&&!big(e->b)&&fits(e->a->lo+e->b->lo,e->a->hi+e->b->hi,e->w)&&two(x,y)){ Z3_ast q[2]={x,y}; r=K(Z3_mk_add(Z,2,q)); } break;
  case O_SUB: if(!big(e->a)&&!big(e->b)&&fits(e->a->lo-e->b->hi,e->a->hi-e->b->lo,e->w)&&two(x,y)){ Z3_ast q[2]={x,y}; r=K(Z3_mk_sub(Z,2,q)); } break;
  case O_MUL: if(!big(e->a)&&!big(e->b)){ i128 p[4]={e->a->lo*e->b->lo,e->a->lo*e->b->hi,e->a->hi*e->b->lo,e->a->hi*e->b->hi};
      if(fits(*std::min_element(p,p+4),*std::max_element(p,p+4),e->w)&&two(x,y)){ if(!isC(e->a)&&!isC(e->b)) k=3; Z3_ast q[2]={x,y}; r=K(Z3_mk_mul(Z,2,q)); } } break;
  case O_SHL: if(isC(e->b)&&e->b->lo>=0&&e->b->lo<62&&!big(e->a)&&fits(e->a->lo<<(int)e->b->lo,e->a->hi<<(int)e->b->lo,e->w)&&(x=toInt(e->a))){ k=e->a->zi; Z3_ast q[2]={x,num(s2ap((i128)1<<(int)e->b->lo,64))}; r=K(Z3_mk_mul(Z,2,q)); } break;
  case O_UDIV: case O_SDIV: if(isC(e->b)&&e->b->lo>0&&e->a->lo>=0&&!big(e->a)&&two(x,y)) r=K(Z3_mk_div(Z,x,y)); break;
  case O_UREM: case O_SREM: if(isC(e->b)&&e->b->lo>0&&e->a->lo>=0&&!big(e->a)&&two(x,y)) r=K(Z3_mk_mod(Z,x,y)); break;
  case O_ITE: { Z3_ast c=toIntB(e->a); if(!c) break; x=toInt(e->b); if(!x) break; y=toInt(e->c); if(!y) break; k=std::max(e->a->zi,std::max(e->b->zi,e->c->zi)); r=K(Z3_mk_ite(Z,c,x,y)); break; }
  case O_ZEXT: if(e->a->w==1){ Z3_ast c=toIntB(e->a); if(c){ k=e->a->zi; r=K(Z3_mk_ite(Z,c,num(APInt(2,1)),num(APInt(2,0)))); } } else if(e->a->lo>=0&&(x=toInt(e->a))){ k=e->a->zi; r=x; } break;
  case O_SEXT: if(e->a->w==1){ Z3_ast c=toIntB(e->a); if(c){ k=e->a->zi; r=K(Z3_mk_ite(Z,c,num(APInt(8,255)),num(APInt(8,0)))); } } else if((x=toInt(e->a))){ k=e->a->zi; r=x; } break;
  case O_EXTRACT: if(e->p==0&&!big(e->a)&&fits(e->a->lo,e->a->hi,e->w)&&(x=toInt(e->a))){ k=e->a->zi; r=x; } break;
  default: break; }
  if(r){ e->zint=r; e->zi=k; } return r; }
static Z3_ast toIntB(E e){
  if(e->zi) return e->zint; e->zi=1; Z3_ast r=nullptr,x,y; uint8_t k=2;
  switch(e->op){
  case O_CONST: r=e->v.isZero()?K(Z3_mk_false(Z)):K(Z3_mk_true(Z)); break;
  case O_VAR: r=toBool(e); break;
  case O_EQ: case O_SLT: case O_ULT: { if(e->op==O_ULT&&(e->a->lo<0||e->b->lo<0)) break;
    bool bl=e->a->w==1; if(bl&&e->op!=O_EQ) break; x=bl?toIntB(e->a):toInt(e->a); if(!x) break; y=bl?toIntB(e->b):toInt(e->b); if(!y) break; k=std::max(e->a->zi,e->b->zi); r=K(e->op==O_EQ?Z3_mk_eq(Z,x,y):Z3_mk_lt(Z,x,y)); break; }
  case O_AND: case O_OR: case O_XOR: { x=toIntB(e->a); if(!x) break; y=toIntB(e->b); if(!y) break; k=std::max(e->a->zi,e->b->zi); Z3_ast q[2]={x,y}; r=K(e->op==O_AND?Z3_mk_and(Z,2,q):e->op==O_OR?Z3_mk_or(Z,2,q):Z3_mk_xor(Z,x,y)); break; }
  case O_ITE: { Z3_ast c=toIntB(e->a); if(!c) break; x=toIntB(e->b); if(!x) break; y=toIntB(e->c); if(!y) break; k=std::max(e->a->zi,std::max(e->b->zi,e->c->zi)); r=K(Z3_mk_ite(Z,c,x,y)); break; }
  default: break; }
  if(r){ e->zint=r; e->zi=k; } return r; }
