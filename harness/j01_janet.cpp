// J01 J02: Janet trees.
#include "janet.h"
#define X (TIER?1000:15)
#define NS 5
struct Tree { Allocator* al; Wrap* w[NS]; Ref s[NS]; int n,nv; Tree(int nv):al(new Allocator),n(0),nv(nv){}
  void add(Janet& t,const Ref& r){ Monom* m=mk(al,r); w[n]=new Wrap(*m); delete m; s[n]=r; n++; t.insert(w[n-1]); }
  void nm(){ for(int i=0;i<n;i++) for(int v=0;v<nv;v++) vs_check(w[i]->NM(v)==rNM(s,n,i,v),"non-multiplicative variables of Janet division"); }
  // q has at most one involutive divisor: the answer must be it
  void ask(const Janet& t,const Ref& q,const char* msg){ Monom* m=mk(al,q); const Wrap* f=t.find(*m); bool any=false,right=false; for(int i=0;i<n;i++){ bool d=rInv(s,n,i,q); any=any|d; if(f==w[i]) right=d; } vs_check(f?right:!any,msg); delete m; }
  void done(){ for(int i=0;i<n;i++) delete w[i]; vs_check(al->size()==0,"tree and elements return their storage"); delete al; } };
extern "C" void j01_insert(){ int nv=1+vs_pick("nv",TIER?4:3),n=1+vs_pick("n",nv<3?TIER?4:3:TIER&&nv<4?4:3); Tree T(nv); { Janet t(T.al); vs_check(t.size()==0&&!t.begin(),"empty tree"); { Monom* m=mk(T.al,sym(nv,-1,X)); vs_check(t.find(*m)==nullptr,"lookup in an empty tree"); delete m; }
  for(int i=0;i<n;i++){ Ref r=sym(nv,-1,X); for(int j=0;j<i;j++) vs_assume(!eq(r,T.s[j])); T.add(t,r); if(i==n-1||TIER) T.nm(); }
  vs_check(t.size()==n,"size"); T.ask(t,sym(nv,-1,2*X),"lookup"); } T.done(); vs_reach("end insert"); }
// relocated trees
extern "C" void j02_copy(){ int how=vs_pick("how",3),nv=1+vs_pick("nv",how==2&&!TIER?2:3),n=1+vs_pick("n",how==2?2:nv<3?TIER?4:3:TIER?3:2); Allocator* bl=new Allocator; Tree T(nv); { Janet* t=new Janet(T.al); 
  for(int i=0;i<n;i++){ Ref r=sym(nv,-1,X); for(int j=0;j<i;j++) vs_assume(!eq(r,T.s[j])); T.add(*t,r); }
  Ref q=sym(nv,-1,2*X);
  if(how==0){ Janet c(bl,*t); vs_check(c.size()==n,"size of a copy"); T.ask(c,q,"lookup in a copy"); delete t; t=nullptr; for(int i=0;i<n;i++){ Monom* m=mk(bl,T.s[i]); vs_check(c.find(*m)==T.w[i],"a copy outlives its source"); delete m; } }
  else if(how==1){ Janet e(bl); e.swap(*t); vs_check(e.size()==n&&t->size()==0,"swapped sizes"); T.ask(e,q,"lookup after a swap"); }
  else { Janet c(bl,*t); delete t; t=nullptr; if(n<NS){ Ref r=sym(nv,-1,X); for(int j=0;j<n;j++) vs_assume(!eq(r,T.s[j])); T.add(c,r); T.nm(); T.ask(c,q,"lookup after growing a copy"); } }
  if(t) delete t; } T.done(); vs_check(bl->size()==0,"copy returns its storage"); delete bl; vs_reach("end copy"); }
// pooled tree with garbage, relocated
extern "C" void j02_pool(){ int nv=1+vs_pick("nv",2),n=1+vs_pick("n",2); int64_t before=Allocator::currMemory(); Tree T(nv); { GCJanet* t=new GCJanet; 
  for(int i=0;i<n;i++){ Ref r=sym(nv,-1,X); for(int j=0;j<i;j++) vs_assume(!eq(r,T.s[j])); T.add(*t,r); }
  t->reallocate(); Ref q=sym(nv,-1,2*X); T.ask(*t,q,"lookup after relocation"); GCJanet* c=new GCJanet(*t); delete t; T.ask(*c,q,"lookup in a copied pool"); delete c; } T.done(); vs_check((int64_t)Allocator::currMemory()==before,"all pools return everything"); vs_reach("end pool"); }
