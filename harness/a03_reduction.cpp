// A03: reduction is an exact elimination step.
#include "polys.h"
#define X 1000
#define C 1000
#define BEGIN Allocator* al=new Allocator; Allocator* bl=new Allocator; {
#define END(w) } vs_check(al->size()==0&&bl->size()==0,"polynomials return all their storage"); vs_reach(w); delete al; delete bl;
static Ord order(){ int o=vs_pick("order",3); return mkord(o,vs_pick("top",2)); }
// e*r == p, as sums of terms
static bool matches(const RP& r,const RP& p,const char* e){ bool ok=true; RP s=scale(r,e);
  for(int i=0;i<s.n;i++) ok=ok&vs_zeq(s.c[i],coefAt(p,s.m[i]));
  for(int i=0;i<p.n;i++){ bool hit=false; for(int j=0;j<s.n&&!hit;j++) hit=same(s.m[j],p.m[i]); if(!hit) ok=ok&vs_zeq(coefAt(p,p.m[i]),"0"); } return ok; }
struct Case { RP f,a; int k; Ref q; const char *g,*u,*v; };   // the k-th term of f is q times the leading term of a, up to coefficients g*u and g*v
static Case make(const Ord& o,int nv,int nf,int na,int k,int kind,bool quot){ Case c; c.k=k; // kind 0 scalars, 1 module elements, 2 scalar reducer of a module element
  int fp=kind?0:-1,ap=kind==1?0:-1,np=kind?2:1,nq=kind==1?2:1;
  c.g=keepz(vs_bigint("g",1,C,1)); c.u=keepz(vs_bigint("u",-C,C,1)); c.v=keepz(vs_bigint("v",-C,C,1)); vs_coprime(c.u,c.v);
  c.a=terms(o,nv,na,X,C,ap,nq); c.a.c[0]=vs_zop('*',c.g,c.v);
  c.q=sym(nv,kind==2?vs_pick("pos",2):-1,quot?X:0);
  for(int i=0;i<nf;i++){ Ref m; if(i==k) m=times(c.a.m[0],c.q); else m=sym(nv,np>1?fp+vs_pick("pos",np):fp,2*X); if(i) vs_assume(rcmp(o,c.f.m[i-1],m)>0); c.f.put(m,i==k?vs_zop('*',c.g,c.u):keepz(vs_bigint("f",-C,C,1))); }
  return c; }
// p is what reducing f's k-th term by a must give
static void reduced(const PolyInt& p,const Case& c,const Ord& o,const char* w){
  RP r=canonical(p,o); RP qa; for(int i=0;i<c.a.n;i++) qa.put(times(c.a.m[i],c.q),c.a.c[i]);
  RP P=plus(scale(c.f,c.a.c[0]),neg(scale(qa,c.f.c[c.k])));               // lc(a)*f - coeff*q*a: every admissible result divides it
  vs_check(vs_zeq(coefAt(r,c.f.m[c.k]),"0"),"the reduced term is gone");
  bool ok=matches(r,P,c.g); if(!ok) ok=matches(r,P,"1"); if(!ok) ok=matches(r,P,vs_zop('-',"0",c.g)); if(!ok) ok=matches(r,P,"-1"); vs_check(ok,w); }
struct One { WrapPolyInt* w; const Ref* m; int n; WrapPolyInt* find(const Monom& x){ Ref r=refOf(x); if(n&&same(r,*m)){ --n; return w; } return nullptr; } };
extern "C" void a03_head(){ BEGIN
  Ord o=order(); int kind=vs_pick("kind",3),nv=1+vs_pick("nv",kind||!TIER?(kind?1:2):2); Case c=make(o,nv,1+vs_pick("nf",TIER?3:2),1+vs_pick("na",TIER?3:2),0,kind,true);
  PolyInt *p=build(al,o,nv,c.f),*a=build(bl,o,nv,c.a); p->reduction(*a); reduced(*p,c,o,"head reduction"); still(*a,c.a,"reducer unchanged"); delete p; delete a; END("end head") }
extern "C" void a03_tail(){ BEGIN
  Ord o=order(); int kind=vs_pick("kind",3),nv=1+vs_pick("nv",kind?1:2); int nf=TIER?2+vs_pick("nf",2):2; int k=1+(nf>2?vs_pick("k",nf-1):0); Case c=make(o,nv,nf,1+vs_pick("na",2),k,kind,true);
  PolyInt *p=build(al,o,nv,c.f),*a=build(bl,o,nv,c.a); { WrapPolyInt w(*a); One d; d.w=&w; d.m=&c.f.m[k]; d.n=1; vs_check(p->isNf(d)==false,"a reducible tail term is noticed"); d.n=1; int r=p->nfTail(d); vs_check(r==1,"one reduction counted"); }
  reduced(*p,c,o,"tail reduction"); still(*a,c.a,"reducer unchanged"); delete p; delete a; END("end tail") }
// redMaybe: eliminates the term whose monomial is the leading monomial of a, if there is one
extern "C" void a03_maybe(){ BEGIN
  Ord o=order(); int kind=vs_pick("kind",2),nv=1+vs_pick("nv",kind?1:2); int nf=1+vs_pick("nf",TIER?3:2),na=1+vs_pick("na",2);
  if(vs_pick("there",2)){ int k=nf>1?vs_pick("k",nf):0; Case c=make(o,nv,nf,na,k,kind,false); PolyInt *p=build(al,o,nv,c.f),*a=build(bl,o,nv,c.a); p->redMaybe(*a); reduced(*p,c,o,"elimination of an equal monomial"); still(*a,c.a,"reducer unchanged"); delete p; delete a; }
  else { RP f=terms(o,nv,nf,X,C,kind?0:-1,kind?2:1),g=terms(o,nv,na,X,C,kind?0:-1,kind?2:1); for(int i=0;i<nf;i++) vs_assume(!same(f.m[i],g.m[0])); PolyInt *p=build(al,o,nv,f),*a=build(bl,o,nv,g); p->redMaybe(*a); still(*p,f,"polynomial without the monomial unchanged"); still(*a,g,"reducer unchanged"); delete p; delete a; }
  END("end maybe") }
