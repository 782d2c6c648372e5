// U05: RBTree is a balanced ordered set.
#include "common.h"
#include <cassert>
#include "util/rbtree.h"
using namespace GInv;
static int cmp(const int64_t a,const int64_t b){ return a<b?-1:(a>b?1:0); }
typedef RBTree<int64_t,cmp> T;
struct Ref { int64_t k[16]; int n; Ref():n(0){}
  int at(int64_t x) const { int i=0; while(i<n&&k[i]<x) i++; return i; }
  void ins(int64_t x){ int i=at(x); for(int j=n;j>i;j--) k[j]=k[j-1]; k[i]=x; n++; }
  void del(int i){ for(int j=i;j+1<n;j++) k[j]=k[j+1]; n--; } };
static int shape(T::ConstIterator i,int d){ // black height, -1 when broken
  if(!i) return 0; if(d>12) return -1;
  T::ConstIterator l=i.left(),r=i.right();
  if(i.color()==T::Red&&((l&&l.color()==T::Red)||(r&&r.color()==T::Red))) return -1;
  int a=shape(l,d+1),b=shape(r,d+1); if(a<0||b<0||a!=b) return -1;
  return a+(i.color()==T::Black); }
static void same(const T& t,const Ref& r,const char* m){
  vs_check(t.length()==r.n,"count is exact"); vs_check(bool(t)==(r.n>0),"emptiness");
  T::ConstIterator i=t.minimum(); int j=0; for(;i&&j<r.n;++i,++j) vs_check(i.key()==r.k[j],m); vs_check(!i&&j==r.n,"forward iteration visits every key once");
  i=t.maximum(); j=r.n-1; for(;i&&j>=0;--i,--j) vs_check(i.key()==r.k[j],m); vs_check(!i&&j==-1,"backward iteration visits every key once");
  if(r.n){ vs_check(t.minimumKey()==r.k[0],"minimum"); vs_check(t.maximumKey()==r.k[r.n-1],"maximum"); vs_check(t.root().color()==T::Black,"root is black"); }
  vs_check(shape(t.root(),0)>=0,"red-black balance"); }
static void query(const T& t,const Ref& r){
  int64_t x=vs_int("q",-1000,1000); int i=r.at(x); bool in=i<r.n&&r.k[i]==x;
  T::ConstIterator f=t.find(x); vs_check(bool(f)==in,"lookup finds exactly the members"); if(f) vs_check(f.key()==x,"lookup returns the key");
  T::ConstIterator p=t.findPrev(x); vs_check(bool(p)==(i>0),"nearest below exists"); if(p&&i>0) vs_check(p.key()==r.k[i-1],"nearest below");
  int up=in?i+1:i; T::ConstIterator n=t.findNext(x); vs_check(bool(n)==(up<r.n),"nearest above exists"); if(n&&up<r.n) vs_check(n.key()==r.k[up],"nearest above"); }
static int64_t fresh(const Ref& r){ int64_t x=vs_int("k",-1000,1000); for(int i=0;i<r.n;i++) vs_assume(x!=r.k[i]); return x; }
static void rem(T& t,Ref& r){ int i=vs_pick("rm",r.n); if(vs_pick("how",2)) t.remove(r.k[i]); else { T::ConstIterator it=t.find(r.k[i]); t.remove(it); } r.del(i); }
static void history(int n,int nrem,bool q){
  Allocator* a=new Allocator; { T t(a); Ref r;
    for(int i=0;i<n;i++){ int64_t x=fresh(r); t.insert(x); r.ins(x); } same(t,r,"in-order keys");
    for(int i=0;i<nrem&&r.n;i++){ int j=vs_pick("rm",r.n); t.remove(r.k[j]); r.del(j); same(t,r,"in-order keys after removal"); }
    if(q) query(t,r); }
  vs_check(a->size()==0,"tree returns all its memory"); vs_reach("end"); delete a; }
extern "C" void u05_insert(){ history(TIER?7:6,0,true); }
extern "C" void u05_remove(){ history(TIER?6:5,TIER?4:3,true); }
// removals from larger trees built in a few regular orders
extern "C" void u05_big(){
  Allocator* a=new Allocator; { T t(a); Ref r; int n=8+vs_pick("n",4); int how=vs_pick("order",4); int64_t base=vs_int("base",-100,100);
    for(int i=0;i<n;i++){ int k=how==0?i:how==1?n-1-i:how==2?(i%2?n-1-i/2:i/2):(i*5+3)%n; if(how==3&&n%5==0) k=i; t.insert(base+k); r.ins(base+k); }
    same(t,r,"in-order keys (big)");
    for(int i=0;i<(TIER?4:3);i++){ int j=vs_pick("rm",r.n); t.remove(r.k[j]); r.del(j); same(t,r,"in-order keys after removal (big)"); } 
    if(TIER) query(t,r); }
  vs_check(a->size()==0,"tree returns all its memory"); vs_reach("end big"); delete a; }
extern "C" void u05_mixed(){ // interleaved inserts, removals by key or iterator, clear, swap, copy, assign
  Allocator* a=new Allocator; Allocator* b=new Allocator; { T t(a),o(b); Ref r,ro; int n=vs_pick("n",4); for(int i=0;i<n;i++){ int64_t x=fresh(r); t.insert(x); r.ins(x); }
    int m=vs_pick("m",3); for(int i=0;i<m;i++){ o.insert(2000+i); ro.ins(2000+i); }
    for(int s=0;s<(TIER?3:2);s++) { switch(vs_pick("op",6)){
      case 0: { int64_t x=fresh(r); t.insert(x); r.ins(x); break; }
      case 1: if(r.n) rem(t,r); break;
      case 2: t.clear(); r.n=0; break;
      case 3: t.swap(o); { Ref x=r; r=ro; ro=x; } break;
      case 4: t=o; r=ro; break;
      case 5: { T c(t,b); same(c,r,"copy has the same keys"); if(r.n){ Ref rc=r; rem(c,rc); same(c,rc,"changed copy"); } int64_t x=fresh(r); c.insert(x); break; } }
      same(t,r,"keys"); same(o,ro,"other tree keys"); }
    query(t,r); }
  vs_check(a->size()==0&&b->size()==0,"trees return all their memory"); vs_reach("end mixed"); delete a; delete b; }
