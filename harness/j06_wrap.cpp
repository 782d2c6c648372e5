// J06 J07: basis element bookkeeping and the degree-graded forest.
#include "janet.h"
#include "ginv/gb.h"
#include "ginv/poly_int.h"
#define X 1000
static const char* const FN[]={"f0","f1","f2","f3","f4","f5","f6","f7","f8"};
static void flags(const Wrap& w,int nv,const bool* nm,const bool* nmd,const bool* b,const char* msg){ int m=0; for(int v=0;v<nv;v++){ vs_check(w.NM(v)==nm[v]&&w.NMd(v)==nmd[v]&&w.build(v)==b[v],msg); m+=!nm[v]; } vs_check(w.multi()==m,"number of multiplicative variables"); }
extern "C" void j06_wrap(){ int nv=1+vs_pick("nv",TIER?4:3); Allocator* al=new Allocator; int64_t before=Allocator::currMemory(); { Ref r=sym(nv,vs_pick("pos",3)-1,X); bool nm[4],nmd[4],bd[4],no[4]; for(int v=0;v<nv;v++){ nm[v]=vs_bool(FN[v]); nmd[v]=vs_bool(FN[v]); bd[v]=vs_bool(FN[v]); no[v]=false; }
  Monom* m=mk(al,r); Wrap* w=new Wrap(*m); is(w->lm(),r,"leading monomial"); is(w->ansector(),r,"ancestor of a new element"); vs_check(w->isGB(),"a new element is its own ancestor"); flags(*w,nv,no,no,no,"a new element has no flags"); delete m;
  for(int v=0;v<nv;v++){ if(nm[v]) w->setNM(v); if(nmd[v]) w->setNMd(v); if(bd[v]) w->setBuild(v); } flags(*w,nv,nm,nmd,bd,"flags set");
  int op=vs_pick("op",4);
  if(op==0){ Wrap* c=new Wrap(*w); is(c->lm(),r,"leading monomial of a copy"); is(c->ansector(),r,"ancestor of a copy"); flags(*c,nv,nm,nmd,bd,"flags of a copy"); c->setNM(0); c->setBuild(0); flags(*w,nv,nm,nmd,bd,"a copy is independent"); c->clearNM(); flags(*w,nv,nm,nmd,bd,"a copy is independent"); delete w; is(c->lm(),r,"a copy outlives its source"); w=c; }
  else if(op==1){ int v=vs_pick("v",nv); vs_assume((nm[v]|nmd[v])&!bd[v]); Wrap* c=new Wrap(v,w); Ref e=r; e.e[v]+=1; is(c->lm(),e,"leading monomial of a prolongation"); is(c->ansector(),r,"prolongation keeps the ancestor"); vs_check(!c->isGB(),"a prolongation is not its own ancestor"); flags(*c,nv,no,no,no,"a prolongation starts without flags"); bd[v]=true; flags(*w,nv,nm,nmd,bd,"prolongation marks its parent"); is(w->lm(),r,"parent's leading monomial unchanged");
    int u=vs_pick("u",nv); c->setNM(u); Wrap* d=new Wrap(u,c); Ref f=e; f.e[u]+=1; is(d->lm(),f,"prolongation of a prolongation"); is(d->ansector(),r,"prolongation of a prolongation keeps the ancestor");
    bool same=vs_pick("changed",2)==0; Ref g=same?e:sym(nv,vs_pick("newpos",3)-1,X); Monom* x=mk(al,g); c->update(*x); delete x; bool eqv=eq(g,e)&&g.pos==e.pos; is(c->lm(),g,"updated leading monomial"); is(c->ansector(),eqv?r:g,"ancestor after an update"); for(int k=0;k<nv;k++){ vs_check(c->NM(k)==(eqv&&k==u),"non-multiplicative flags after an update"); vs_check(c->build(k)==(eqv&&k==u),"prolongation flags after an update"); } delete d; delete c; }
  else if(op==2){ w->clearNM(); flags(*w,nv,no,nmd,bd,"clearing touches the non-multiplicative flags only"); }
  else { Ref g=sym(nv,vs_pick("newpos",3)-1,X); Monom* x=mk(al,g); w->update(*x); delete x; bool eqv=eq(g,r)&&g.pos==r.pos; is(w->lm(),g,"updated leading monomial"); is(w->ansector(),g,"ancestor after an update"); flags(*w,nv,eqv?nm:no,eqv?nmd:no,eqv?bd:no,"flags after an update"); }
  delete w; } vs_check(al->size()==0,"elements return their storage"); delete al; vs_check((int64_t)Allocator::currMemory()==before,"elements return their pools"); vs_reach("end wrap"); }
// the polynomial element keeps polynomial and leading monomial together
extern "C" void j06_poly(){ int nv=1+vs_pick("nv",2); Allocator* al=new Allocator; { int o=vs_pick("top",2)?(Poly::TOP|Poly::lex):(Poly::POT|Poly::deglex); Ref r=sym(nv,vs_pick("pos",2)-1,X); Monom* m=mk(al,r); PolyInt* p=new PolyInt(al,o,*m); p->mult("7"); WrapPolyInt* w=new WrapPolyInt(*p); is(w->lm(),r,"leading monomial"); is(w->poly().lm(),r,"polynomial of an element"); int v=vs_pick("v",nv); w->setNM(v); WrapPolyInt* c=new WrapPolyInt(v,w); Ref e=r; e.e[v]+=1; is(c->lm(),e,"leading monomial of a prolongation"); is(c->poly().lm(),e,"polynomial of a prolongation"); is(c->ansector(),r,"ancestor of a prolongation"); vs_check(w->build(v),"parent marked"); is(w->poly().lm(),r,"parent's polynomial unchanged"); w->reallocate(); is(w->poly().lm(),r,"relocated element"); delete w; c->poly().minus(); vs_check(c->poly().lc().sgn()<0,"independent of its parent"); delete c; delete p; delete m; } vs_check(al->size()==0,"elements return their storage"); delete al; vs_reach("end poly"); }
// J07
extern "C" void j07_forest(){ int big=vs_pick("degrees",3),nv=big==2?1:1+vs_pick("nv",2),n=big?2:1+vs_pick("n",TIER||nv==1?3:2); int64_t before=Allocator::currMemory(); Allocator* al=new Allocator; { GB* g=new GB(al); vs_check(g->size()==0,"empty forest"); Wrap* w[3]; Ref s[3]; bool up[3]; int64_t lo=big?17:0,hi=big==1?22:big==2?30:TIER?4:3;
  for(int i=0;i<n;i++){ Ref r=sym(nv,-1,hi); if(big) vs_assume(r.deg()>=lo&r.deg()<=hi); for(int j=0;j<i;j++) vs_assume(!eq(r,s[j])); Monom* m=mk(al,r); vs_assume(g->find(*m)==nullptr); w[i]=new Wrap(*m); s[i]=r; up[i]=false; delete m; 
    g->insert(w[i]); vs_check(g->size()==i+1,"size of the forest"); }
  for(int i=0;i<n;i++){ Monom* m=mk(al,s[i]); const Wrap* f=g->find(*m); vs_check(f!=nullptr,"an element is found by its own leading monomial"); delete m; }
  Ref q=sym(nv,-1,hi+2); Monom* m=mk(al,q); const Wrap* f=g->find(*m); if(f){ bool in=false; for(int i=0;i<n;i++) if(f==w[i]){ in=true; bool d=divides(s[i],q); for(int v=0;v<nv;v++) d=d&((q.e[v]==s[i].e[v])|!w[i]->NMd(v)); vs_check(d,"lookup returns a divisor with an admissible quotient"); } vs_check(in,"lookup returns an inserted element"); } delete m;
  delete g; for(int i=0;i<n;i++) delete w[i]; }
  vs_check(al->size()==0,"forest returns its storage"); delete al; vs_check((int64_t)Allocator::currMemory()==before,"all memory returned"); vs_reach("end forest"); }
