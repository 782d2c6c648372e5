// A01 A02 A04 A05: integer polynomial arithmetic.
#include "polys.h"
#define X 1000
#define C 1000
static Ord order(){ int o=vs_pick("order",3); return mkord(o,vs_pick("top",2)); }
#define BEGIN Allocator* al=new Allocator; Allocator* bl=new Allocator; {
#define END(w) } vs_check(al->size()==0&&bl->size()==0,"polynomials return all their storage"); vs_reach(w); delete al; delete bl;
// sums of terms given in any order, repeats and cancellations included
extern "C" void a01_build(){ BEGIN
  Ord o=order(); int nv=1+vs_pick("nv",2),n=vs_pick("terms",TIER?5:4); RP r; PolyInt* p=new PolyInt(al,o.code,nv);
  for(int i=0;i<n;i++){ Ref m=sym(nv,vs_pick("pos",2)-1,X); const char* c=keepz(vs_bigint(CN[i],-C,C,1)); addTerm(*p,al,o,m,c); r.put(m,c); }
  is(*p,r,o,"sum of terms"); delete p; END("end build") }
extern "C" void a01_sum(){ BEGIN
  int op=vs_pick("op",7); Ord o=op<2?order():mkord(vs_pick("order",3),true); int N=TIER?4:3,np=op<2&&vs_pick("module",2)?2:1,nv=op>=2||np>1?1:1+vs_pick("nv",2),p0=np==1?-1:0;
  RP f=terms(o,nv,vs_pick("terms",N),X,C,p0,np),g; if(op!=2&&op!=6) g=terms(o,nv,vs_pick("terms",3),X,C,p0,np);
  PolyInt *p=build(al,o,nv,f),*q=build(bl,o,nv,g); 
  switch(op){
  case 0: p->add(*q); is(*p,plus(f,g),o,"sum of polynomials"); break;
  case 1: p->sub(*q); is(*p,plus(f,neg(g)),o,"difference of polynomials"); break;
  case 2: { PolyInt r=-static_cast<PolyInt&&>(*p); is(r,neg(f),o,"negated polynomial"); r.minus(); is(r,f,o,"negated twice"); break; }
  case 3: { PolyInt r=static_cast<PolyInt&&>(*p)+*q; is(r,plus(f,g),o,"sum of polynomials"); break; }
  case 4: { PolyInt r=static_cast<PolyInt&&>(*p)-*q; is(r,plus(f,neg(g)),o,"difference of polynomials"); break; }
  case 5: p->add(*q); p->sub(*q); is(*p,f,o,"adding and subtracting again"); break;
  case 6: if(vs_pick("self",2)){ p->sub(*p); is(*p,RP(),o,"difference with itself"); } else { p->add(*p); is(*p,plus(f,f),o,"sum with itself"); } break; }
  still(*q,g,"other operand unchanged"); delete p; delete q; END("end sum") }
extern "C" void a01_const(){ BEGIN
  Ord o=order(); int nv=1+vs_pick("nv",2),np=vs_pick("module",2)?3:1; RP f=terms(o,nv,1+vs_pick("terms",TIER?3:2),X,C,-1,np); PolyInt* p=build(al,o,nv,f);
  const char* k=keepz(vs_bigint("k",-C,C,0)); if(vs_pick("op",2)){ p->add(k); is(*p,plus(f,unit(nv,k)),o,"integer added"); } else { p->sub(k); is(*p,plus(f,neg(unit(nv,k))),o,"integer subtracted"); }
  delete p; END("end const") }
// A02
extern "C" void a02_mult(){ BEGIN
  Ord o=order(); int nv=1+vs_pick("nv",2); int k=vs_pick("module",3); // which factor is a module element
  int nf=vs_pick("terms",TIER?4:3),ng=vs_pick("terms",3);
  RP f=terms(o,nv,nf,X,C,k==1?0:-1,k==1&&nv==1?2:1),g=terms(o,nv,ng,X,C,k==2?0:-1,k==2&&nv==1?2:1); 
  PolyInt *p=build(al,o,nv,f),*q=build(bl,o,nv,g);
  if(nv==1&&nf<2&&vs_pick("temporary",2)){ PolyInt r=static_cast<PolyInt&&>(*p)*(*q); is(r,prod(f,g),o,"product of polynomials"); } else { p->mult(*q); is(*p,prod(f,g),o,"product of polynomials"); }
  still(*q,g,"factor unchanged"); delete p; delete q; END("end mult") }
extern "C" void a02_const(){ BEGIN
  Ord o=order(); int nv=1+vs_pick("nv",2); RP f=terms(o,nv,vs_pick("terms",TIER?5:4),X,C,-1,nv==1?2:1); PolyInt* p=build(al,o,nv,f); const char* k=keepz(vs_bigint("k",-C,C,0)); p->mult(k); is(*p,scale(f,k),o,"product with an integer"); 
  p->mult("3"); is(*p,scale(f,vs_zop('*',k,"3")),o,"product with an integer, again"); delete p; END("end const") }
extern "C" void a02_pow(){ BEGIN
  Ord o=order(); int nv=1+vs_pick("nv",2),n=vs_pick("terms",3),d=vs_pick("exponent",n==2&&(nv==2||!TIER)?4:5); RP f=terms(o,nv,n,X,60,-1,1); PolyInt* p=build(al,o,nv,f); RP e=unit(nv,"1"); 
  for(int i=0;i<d;i++){ // keep the reference short: collect equal monomials of the binomial expansion
    if(n==2){ RP t; for(int j=0;j<=i+1;j++){ Ref m; m.n=nv; m.pos=-1; for(int v=0;v<nv;v++) m.e[v]=f.m[0].e[v]*(i+1-j)+f.m[1].e[v]*j; int64_t b=1; for(int q=0;q<j;q++) b=b*(i+1-q)/(q+1); const char* c=vs_zstr(b); for(int q=0;q<i+1-j;q++) c=vs_zop('*',c,f.c[0]); for(int q=0;q<j;q++) c=vs_zop('*',c,f.c[1]); t.put(m,c); } e=t; } else e=prod(e,f); }
  p->pow(d); is(*p,e,o,"power of a polynomial"); delete p; END("end pow") }
extern "C" void a02_self(){ BEGIN
  Ord o=order(); int nv=1+vs_pick("nv",2); RP f=terms(o,nv,vs_pick("terms",3),X,C,-1,1); PolyInt* p=build(al,o,nv,f); p->mult(*p); is(*p,prod(f,f),o,"square of a polynomial"); delete p; END("end self") }
// A04: any coefficients are g*u, g their content; u0=h*a, u1=h*b with h the content of the first two, and so on
extern "C" void a04_pp(){ BEGIN
  Ord o=order(); int n=vs_pick("terms",TIER?5:4),nv=1+vs_pick("nv",2); const char* g=keepz(vs_bigint("g",1,C,1)); const char* u[4]; const char* H="1"; 
  if(n==1) u[0]=vs_bool("negative")?"-1":"1";
  else if(n>1){ u[0]=keepz(vs_bigint("u0",-C,C,1)); for(int i=1;i<n;i++){ const char* b=keepz(vs_bigint(CN[i],-C,C,1)); // the first i have content 1 among themselves
      if(i==1){ vs_coprime(u[0],b); u[1]=b; } else { const char* h=keepz(vs_bigint("h",1,C,1)); for(int j=0;j<i;j++) u[j]=vs_zop('*',u[j],h); vs_coprime(h,b); u[i]=b; } } }
  RP f,e; for(int i=0;i<n;i++){ Ref m=sym(nv,vs_pick("pos",nv==1?2:1)-1,X); if(i) vs_assume(rcmp(o,f.m[i-1],m)>0); f.put(m,vs_zop('*',g,u[i])); e.put(m,u[i]); }
  PolyInt* p=build(al,o,nv,f); bool one=vs_zeq(g,"1"); vs_check(p->isPp()==(n==0||one),"primitive exactly when the content is one"); p->pp(); still(*p,e,"primitive part"); canonical(*p,o); vs_check(p->isPp(),"the primitive part is primitive"); p->pp(); still(*p,e,"primitive part of a primitive polynomial"); delete p; (void)H; END("end pp") }
// A05
static RP shift(const RP& f,int v){ RP r=f; for(int i=0;i<r.n;i++) r.m[i].e[v]+=1; return r; }
static RP change(PolyInt& p,Allocator* al,const Ord& o,int nv,const RP& f,int k){ // p now differs from f
  switch(k){ case 0: p.minus(); return neg(f); case 1: { const char* c=keepz(vs_bigint("k",-C,C,1)); p.mult(c); return scale(f,c); } case 2: { RP g; g.put(sym(nv,-1,X),keepz(vs_bigint("k",-C,C,1))); PolyInt* q=build(al,o,nv,g); p.add(*q); delete q; return plus(f,g); } default: p.pow(0); return unit(nv,"1"); } }
extern "C" void a05_copy(){ BEGIN
  Ord o=mkord(vs_pick("order",3),vs_pick("top",2)); int nv=1+vs_pick("nv",2); RP f=terms(o,nv,vs_pick("terms",TIER?4:3),X,C,-1,1); PolyInt* p=build(al,o,nv,f); int k=vs_pick("change",4),side=vs_pick("side",2);
  int op=vs_pick("op",4);
  if(op==0){ PolyInt* q=new PolyInt(vs_pick("same pool",2)?al:bl,*p); is(*q,f,o,"copy"); if(side){ RP g=change(*q,al,o,nv,f,k); is(*q,g,o,"changed copy"); is(*p,f,o,"original of a changed copy"); } else { RP g=change(*p,al,o,nv,f,k); is(*p,g,o,"changed original"); is(*q,f,o,"copy of a changed original"); }
    if(vs_pick("first",2)){ delete p; is(*q,f.n==0||side||k>3?refOf(*q):f,o,"copy outlives the original"); delete q; } else { delete q; delete p; } }
  else if(op==1){ RP g=terms(o,nv,vs_pick("old",3),X,C,-1,1); PolyInt* q=build(bl,o,nv,g); *q=static_cast<const PolyInt&>(*p); is(*q,f,o,"assigned"); is(*p,f,o,"assigned from"); RP h=change(side?*q:*p,side?bl:al,o,nv,f,k); is(side?*q:*p,h,o,"changed after assignment"); is(side?*p:*q,f,o,"independent after assignment"); delete q; delete p; }
  else if(op==2){ RP g=terms(o,nv,vs_pick("old",3),X,C,-1,1); PolyInt* q=build(bl,o,nv,g); p->swap(*q); is(*q,f,o,"swapped"); is(*p,g,o,"swapped"); RP h=change(side?*q:*p,al,o,nv,side?f:g,k); is(side?*q:*p,h,o,"changed after swap"); is(side?*p:*q,side?g:f,o,"independent after swap"); delete q; delete p; }
  else { RP g=terms(o,nv,vs_pick("old",3),X,C,-1,1); PolyInt* q=build(bl,o,nv,g); *q=static_cast<PolyInt&&>(*p); is(*q,f,o,"move assigned"); RP h=change(*q,al,o,nv,f,k); is(*q,h,o,"changed after move assignment"); delete p; delete q; }
  END("end copy") }
extern "C" void a05_prolong(){ BEGIN
  Ord o=order(); int nv=1+vs_pick("nv",3),v=vs_pick("v",nv); RP f=terms(o,nv,vs_pick("terms",nv>1?3:4),X,C,nv==1?0:-1,nv==1?2:1); PolyInt* p=build(al,o,nv,f); PolyInt* q=new PolyInt(bl,v,*p); is(*q,shift(f,v),o,"prolonged by a variable"); is(*p,f,o,"source of a prolongation"); if(vs_pick("changed",2)){ q->minus(); q->mult("2"); is(*p,f,o,"independent of its prolongation"); } else { p->minus(); is(*q,shift(f,v),o,"prolongation of a changed polynomial"); } delete p; is(*q,refOf(*q),o,"prolongation outlives its source"); delete q; END("end prolong") }
extern "C" void a05_pool(){ int64_t before=Allocator::currMemory(); BEGIN
  Ord o=order(); int nv=1+vs_pick("nv",2); RP f=terms(o,nv,vs_pick("terms",3),X,C,-1,1); PolyInt* p=build(al,o,nv,f); int v=vs_pick("v",nv); 
  { GCPolyInt a(*p),b(a),c(v,a); is(a,f,o,"pooled copy"); is(b,f,o,"copy of a pooled copy"); is(c,shift(f,v),o,"pooled prolongation"); a.swap(c); is(c,f,o,"swapped pools"); is(a,shift(f,v),o,"swapped pools"); 
    int n=vs_pick("churn",2)?24:0; PolyInt* one=new PolyInt(al,o.code,nv,"1"); PolyInt* zero=new PolyInt(al,o.code,nv); for(int i=0;i<n;i++){ c.mult(*one); a.add(*p); a.sub(*p); } int64_t m0=Allocator::currMemory(); c.reallocate(); if((int64_t)Allocator::currMemory()<m0) vs_reach("pool compacted"); is(c,f,o,"relocated"); is(a,shift(f,v),o,"not relocated"); a.reallocate(); is(a,shift(f,v),o,"relocated"); is(c,f,o,"independent of relocation"); c.minus(); is(c,neg(f),o,"changed after relocation"); is(b,f,o,"independent of relocation"); delete one; delete zero; }
  delete p; END("end pool") vs_check((int64_t)Allocator::currMemory()==before,"all pools return everything"); }
extern "C" void a05_move(){ BEGIN
  Ord o=mkord(vs_pick("order",3),true); int nv=1+vs_pick("nv",2); RP f=terms(o,nv,vs_pick("terms",3),X,C,-1,1); PolyInt* p=build(al,o,nv,f); { PolyInt q(static_cast<PolyInt&&>(*p)); is(q,f,o,"moved"); int k=vs_pick("change",4); RP g=change(q,bl,o,nv,f,k); is(q,g,o,"changed after a move"); } delete p; END("end move") }
