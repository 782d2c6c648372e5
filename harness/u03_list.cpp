// U03: List as a sequence.
#include "common.h"
#include "util/list.h"
using namespace GInv;
typedef List<int64_t> L;
struct Ref { int64_t v[16]; int n; Ref():n(0){} 
  void ins(int at,int64_t x){ for(int i=n;i>at;i--) v[i]=v[i-1]; v[at]=x; n++; }
  void del(int at){ for(int i=at;i+1<n;i++) v[i]=v[i+1]; n--; } };
static void same(const L& l,const Ref& r,const char* m){
  vs_check((int64_t)l.length()==r.n,m);
  L::ConstIterator i=l.begin(); int k=0;
  for(;k<r.n;k++){ vs_check(bool(i),m); if(!i) return; vs_check(i.data()==r.v[k],m); ++i; }
  vs_check(!i,m);
  vs_check(bool(l)==(r.n!=0),m);
  if(r.n) vs_check(l.head()==r.v[0],m);
}
static void sameIt(L& l,const Ref& r,const char* m){ L::Iterator i=l.begin(); for(int k=0;k<r.n;k++){ vs_check(bool(i),m); if(!i) return; vs_check(i.data()==r.v[k],m); ++i; } vs_check(!i,m); }
static int64_t any(){ return vs_int("x",INT64_MIN,INT64_MAX); }
static void op(L& l,Ref& r,L& o,Ref& ro,Allocator* a,bool mix=true){
  (void)a;
  switch(vs_pick("op",11)){
  case 0: { int64_t x=any(); l.push(x); r.ins(0,x); break; }
  case 1: if(r.n){ int64_t x=l.pop(); vs_check(x==r.v[0],"pop returns the first element"); r.del(0); } break;
  case 2: { int at=vs_pick("at",r.n+1); int64_t x=any(); L::Iterator i=l.begin(); for(int k=0;k<at;k++) ++i; i.insert(x); vs_check(i.data()==x,"iterator shows the inserted element"); r.ins(at,x); break; }
  case 3: if(r.n){ int at=vs_pick("at",r.n); L::Iterator i=l.begin(); for(int k=0;k<at;k++) ++i; i.del(); r.del(at); } break;
  case 4: if(r.n){ // detach a node and reattach it in the same or the other list
      int at=vs_pick("at",r.n); L::Iterator i=l.begin(); for(int k=0;k<at;k++) ++i; L::ConstIterator g=i.get(); int64_t x=r.v[at]; vs_check(g.data()==x,"detached node keeps its value"); r.del(at);
      same(l,r,"list after detach");
      if(!mix||vs_pick("where",2)){ int to=vs_pick("to",r.n+1); L::Iterator j=l.begin(); for(int k=0;k<to;k++) ++j; j.insert(g); r.ins(to,x); }
      else { int to=vs_pick("to",ro.n+1); L::Iterator j=o.begin(); for(int k=0;k<to;k++) ++j; j.insert(g); ro.ins(to,x); } } break;
  case 5: { l=(const L&)o; r=ro; break; }
  case 6: { l.swap(o); Ref t=r; r=ro; ro=t; break; }
  case 7: { int at=vs_pick("at",r.n+1); L::Iterator i=l.begin(); for(int k=0;k<at;k++) ++i; i.clear(); r.n=at; break; } // remove the rest
  case 8: { L t(static_cast<L&&>(l)); same(t,r,"moved-to list"); Ref e; same(l,e,"moved-from list is empty"); l.swap(t); break; }
  case 9: if(r.n){ int at=vs_pick("at",r.n); L::Iterator i=l.begin(); for(int k=0;k<at;k++) ++i; int64_t x=any(); i.data()=x; r.v[at]=x; } break;
  case 10: l.clear(); r.n=0; break;
  }
}
static void run(int nops,int n0){
  Allocator* a=new Allocator; size_t base=a->size();
  { L l(a),o(a); Ref r,ro; int n=vs_pick("n",n0+1); for(int i=0;i<n;i++){ int64_t x=any(); l.push(x); r.ins(0,x); }
    int m=vs_pick("m",2); for(int i=0;i<m;i++){ int64_t x=any(); o.push(x); ro.ins(0,x); }
    for(int k=0;k<nops;k++){ op(l,r,o,ro,a); same(l,r,"list content after the operation"); same(o,ro,"other list content after the operation"); }
    sameIt(l,r,"mutable iteration");
    vs_check((int64_t)(a->size()-base)>= (int64_t)(r.n+ro.n),"memory accounted");
  }
  vs_check(a->size()==base,"lists return all their memory"); vs_reach("end");
  delete a;
}
extern "C" void u03_ops() { run(TIER?3:2,TIER?3:3); }
// copies are independent of their source and live in their own pool
extern "C" void u03_copy() {
  Allocator* a=new Allocator; Allocator* b=new Allocator;
  { L* s=new L(a); Ref r; int n=vs_pick("n",4); for(int i=0;i<n;i++){ int64_t x=any(); s->push(x); r.ins(0,x); }
    Ref rc=r; L c(b,*s); same(c,rc,"copy equals source"); same(*s,r,"source unchanged by copying");
    L d(b); if(vs_pick("pre",2)) d.push(7); d=(const L&)*s; same(d,rc,"assigned list equals source");
    Ref e; if(vs_pick("pre op",2)) op(*s,r,d,rc,a,false); same(*s,r,"source after change"); 
    if(vs_pick("kill",2)){ delete s; s=nullptr; }
    Ref r0=rc; same(d,r0,"assigned list unaffected by its source");
    if(s) delete s;
    (void)e; }
  vs_check(a->size()==0&&b->size()==0,"copies return all their memory to their own pool"); vs_reach("end copy");
  delete a; delete b;
}
