// A06: normal forms.  Reducers have leading monomials in different variables, so they are a Groebner
// basis of their ideal and the normal form is unique up to a factor: it is compared with a reference remainder.
#include "polys.h"
#define BEGIN Allocator* al=new Allocator; Allocator* bl=new Allocator; {
#define END(w) } vs_check(al->size()==0&&bl->size()==0,"polynomials return all their storage"); vs_reach(w); delete al; delete bl;
struct Set { WrapPolyInt* w[2]; Ref lm[2]; int n; WrapPolyInt* find(const Monom& m){ Ref r=refOf(m); for(int i=0;i<n;i++){ bool d=true; for(int k=0;k<r.n;k++) d=d&&r.e[k]>=lm[i].e[k]; if(d&&(lm[i].pos<0||lm[i].pos==r.pos)) return w[i]; } return nullptr; } };
static bool divides(const Ref& a,const Ref& b){ for(int k=0;k<a.n;k++) if(a.e[k]>b.e[k]) return false; return a.pos<0||a.pos==b.pos; }
// concrete exponents, symbolic coefficients
static Ref conc(int nv,int code,int base,int pos){ Ref r; r.n=nv; r.pos=pos; for(int i=0;i<nv;i++){ r.e[i]=code%base; code/=base; } return r; }
static void collect(RP& p){ RP r; for(int i=0;i<p.n;i++){ bool hit=false; for(int j=0;j<r.n&&!hit;j++) if(same(r.m[j],p.m[i])){ r.c[j]=vs_zop('+',r.c[j],p.c[i]); hit=true; } if(!hit) r.put(p.m[i],p.c[i]); } p=r; }
// the remainder, times a nonzero integer
static RP remainder(RP p,const RP* a,int na,const Ord& o){ collect(p);
  for(int guard=0;guard<40;guard++){ int at=-1,by=-1; for(int i=0;i<p.n;i++) for(int j=0;j<na;j++) if(divides(a[j].m[0],p.m[i])&&(at<0||rcmp(o,p.m[i],p.m[at])>0)){ at=i; by=j; }
    if(at<0) return p; const RP& r=a[by]; RP q; for(int i=0;i<r.n;i++){ Ref m=r.m[i]; for(int k=0;k<m.n;k++) m.e[k]+=p.m[at].e[k]-r.m[0].e[k]; if(m.pos<0) m.pos=p.m[at].pos; if(i) q.put(m,vs_zop('*',r.c[i],p.c[at])); }
    RP s; for(int i=0;i<p.n;i++) if(i!=at) s.put(p.m[i],vs_zop('*',p.c[i],r.c[0])); p=plus(s,neg(q)); collect(p); }
  vs_check(false,"reference remainder terminates"); return p; }
static void proportional(const RP& r,const RP& e,const char* w){ // r and e are the same up to a nonzero factor
  if(r.n==0){ for(int i=0;i<e.n;i++) vs_check(vs_zeq(e.c[i],"0"),w); return; }
  const char* e0=coefAt(e,r.m[0]); vs_check(!vs_zeq(e0,"0"),w);
  for(int i=1;i<r.n;i++) vs_check(vs_zeq(vs_zop('*',r.c[i],e0),vs_zop('*',r.c[0],coefAt(e,r.m[i]))),w);
  for(int i=0;i<e.n;i++){ bool hit=false; for(int j=0;j<r.n&&!hit;j++) hit=same(r.m[j],e.m[i]); if(!hit) vs_check(vs_zeq(e.c[i],"0"),w); } }
static const char* const LC[]={"1","-1","2","-6"};
static void run(int nv,int np,const Ord& o,RP f,RP* a,int na){ Allocator* al=new Allocator; Allocator* bl=new Allocator; {
  PolyInt* p=build(al,o,nv,f); PolyInt* q[2]; Set d; d.n=na; for(int i=0;i<na;i++){ q[i]=build(bl,o,nv,a[i]); d.w[i]=new WrapPolyInt(*q[i]); d.lm[i]=a[i].m[0]; }
  RP P=refOf(*p); int k1=p->nf(d); RP h=canonical(*p,o); if(h.n) for(int i=0;i<na;i++) vs_check(!divides(a[i].m[0],h.m[0]),"leading term of a head normal form is irreducible"); if(k1==0) still(*p,P,"unreduced polynomial unchanged");
  int k2=p->nfTail(d); RP r=canonical(*p,o); for(int i=0;i<r.n;i++) for(int j=0;j<na;j++) vs_check(!divides(a[j].m[0],r.m[i]),"normal form is irreducible"); if(k2==0) still(*p,h,"unreduced tail unchanged"); vs_check(p->isNf(d),"normal form recognised");
  proportional(r,remainder(f,a,na,o),"normal form is congruent to a multiple of the polynomial");
  for(int i=0;i<na;i++){ still(d.w[i]->poly(),a[i],"basis element unchanged"); delete d.w[i]; delete q[i]; } delete p; }
  vs_check(al->size()==0&&bl->size()==0,"polynomials return all their storage"); delete al; delete bl; }
// univariate: any polynomial of degree <=D by x^k + ...
extern "C" void a06_one(){ Ord o=mkord(vs_pick("order",TIER?3:2),true); if(TIER&&o.o==2) o.o=o.o; int nv=1; int lc=vs_pick("lc",4),D=1+vs_pick("degree",TIER?(lc<2?3:2):(lc<2?2:1)),k=1+vs_pick("k",D>1?2:1);
  if(o.o==2) return; RP f; for(int i=D;i>=0;i--) if(vs_pick("present",2)||i==D) f.put(conc(nv,i,16,-1),keepz(vs_bigint(CN[i],-20,20,1)));
  RP a; a.put(conc(nv,k,16,-1),LC[lc]); if(vs_pick("tail",2)) a.put(conc(nv,0,16,-1),keepz(vs_bigint("t0",-20,20,1))); if(k==2&&vs_pick("middle",2)){ RP b; b.put(a.m[0],a.c[0]); b.put(conc(nv,1,16,-1),keepz(vs_bigint("t1",-20,20,1))); if(a.n>1) b.put(a.m[1],a.c[1]); a=b; }
  run(nv,1,o,f,&a,1); vs_reach("end one"); }
// two variables: any two-term polynomial by x^k+s, y^l+t
extern "C" void a06_two(){ int nv=2; int top=vs_pick("m",TIER?16:9); Ord o=mkord(TIER?vs_pick("order",2):top%2,true); RP f; f.put(conc(nv,top,TIER?4:3,-1),keepz(vs_bigint("c0",-20,20,1))); if(vs_pick("terms",2)){ int m=TIER?vs_pick("m2",16):4*vs_pick("m2",2)+vs_pick("m3",2); if(!TIER&&m>=4) m-=1; if(m==top) return; Ref r=conc(nv,m,TIER?4:3,-1); if(rcmp(o,f.m[0],r)<0) return; f.put(r,keepz(vs_bigint("c1",-20,20,1))); }
  RP a[2]; int k=1+vs_pick("k",2),l=1+vs_pick("l",2); a[0].put(conc(nv,k,4,-1),LC[vs_pick("lc",TIER?3:2)]); a[0].put(conc(nv,0,4,-1),keepz(vs_bigint("s",-20,20,1))); a[1].put(conc(nv,4*l,4,-1),LC[TIER?vs_pick("lc",2):0]); a[1].put(conc(nv,vs_pick("shift",2)&&l>1?4:0,4,-1),keepz(vs_bigint("t",-20,20,1)));
  run(nv,1,o,f,a,2); vs_reach("end two"); }
// module elements in one variable, reducers at position 0 and 1 (possibly with tails at the other position), or scalar reducers
extern "C" void a06_module(){ int nv=1; RP f; int n=1+vs_pick("terms",TIER?3:2); Ord o=mkord(TIER?vs_pick("order",2):n%2,vs_pick("top",2)); for(int i=0;i<n;i++){ Ref m=conc(nv,vs_pick("e",3),4,vs_pick("pos",2)); if(i&&rcmp(o,f.m[i-1],m)<=0) return; f.put(m,keepz(vs_bigint(CN[i],-20,20,1))); }
  RP a[2]; int kind=vs_pick("kind",2); if(kind){ a[0].put(conc(nv,1+vs_pick("k",2),4,-1),LC[vs_pick("lc",TIER?3:2)]); a[0].put(conc(nv,0,4,-1),keepz(vs_bigint("s",-20,20,1))); run(nv,2,o,f,a,1); vs_reach("end scalar"); return; }
  for(int i=0;i<2;i++){ a[i].put(conc(nv,1+vs_pick("k",2),4,i),LC[i&&!TIER?0:vs_pick("lc",i||!TIER?2:3)]); Ref t=conc(nv,0,4,i^vs_pick("other",2)); if(rcmp(o,a[i].m[0],t)<=0) return; a[i].put(t,keepz(vs_bigint(i?"t":"s",-20,20,1))); }
  run(nv,2,o,f,a,2); vs_reach("end module"); }
