// U04: Stack is LIFO through growth, copies, assignment, swap.
#include "common.h"
#include <cassert>
#include <type_traits>
#include "util/stack.h"
using namespace GInv;
typedef Stack<int64_t> S;
struct Ref { int64_t v[24]; int n; Ref():n(0){} };
static void same(const S& s,const Ref& r,const char* m){
  vs_check((int64_t)s.deep()==r.n,m); vs_check(bool(s)==(r.n>0),m); vs_check(s.size()>=s.deep(),"capacity covers the content");
  for(int i=0;i<r.n;i++) vs_check(s[i]==r.v[i],m);
  if(r.n) vs_check(s.top()==r.v[r.n-1],"top is the last pushed element"); }
static int64_t any(){ return vs_int("x",INT64_MIN,INT64_MAX); }
static void push(S& s,Ref& r){ int64_t x=any(); s.push(x); r.v[r.n++]=x; }
static void op(S*& s,Ref& r,S*& o,Ref& ro,Allocator* a){
  switch(vs_pick("op",7)){
  case 0: push(*s,r); break;
  case 1: { int k=vs_pick("k",4)+2; for(int i=0;i<k;i++) push(*s,r); break; }
  case 2: if(r.n){ s->pop(); r.n--; } break;
  case 3: s->reset(); r.n=0; break;
  case 4: *s=*o; r=ro; break;
  case 5: s->swap(*o); { Ref t=r; r=ro; ro=t; } break;
  case 6: { S* c=new S(*s,a); same(*c,r,"copy equals source"); if(vs_pick("swapc",2)){ delete s; s=c; } else delete c; break; }
  } }
extern "C" void u04_ops(){
  Allocator* a=new Allocator; Allocator* b=new Allocator;
  { S* s=new S(1+vs_pick("cap",4),a); S* o=new S(1+vs_pick("cap2",3),b); Ref r,ro;
    int n=vs_pick("n",4); for(int i=0;i<n;i++) push(*s,r);
    int m=vs_pick("m",TIER?6:4); for(int i=0;i<m;i++) push(*o,ro);
    for(int k=0;k<(TIER?3:2);k++){ op(s,r,o,ro,a); same(*s,r,"stack content"); same(*o,ro,"other stack content"); }
    delete s; delete o; }
  vs_check(a->size()==0&&b->size()==0,"stacks return all their memory"); vs_reach("end");
  delete a; delete b;
}
// long growth: every index stays readable
extern "C" void u04_grow(){
  Allocator* a=new Allocator; { int cap=1+vs_pick("cap",8); S s(cap,a); Ref r; for(int i=0;i<20;i++){ push(s,r); same(s,r,"content during growth"); }
    while(r.n){ vs_check(s.top()==r.v[r.n-1],"pops in reverse order"); s.pop(); r.n--; } vs_check(!s,"empty at the end"); }
  vs_check(a->size()==0,"stack returns all its memory"); vs_reach("end grow"); delete a; }
