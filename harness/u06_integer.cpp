// U06 / U07: Integer arithmetic is exact, storage is sufficient and owned.
#include "common.h"
#include <cassert>
#include <cstring>
#include <string.h>
#include "util/integer.h"
using namespace GInv;
static const char* keep(const char* s){ size_t n=strlen(s)+1; char* p=new char[n]; memcpy(p,s,n); return p; }
static const char* str(const Integer& a){ return keep(a.get_str(10)); }
static void is(const Integer& a,const char* v,const char* m){ const char* s=str(a); vs_check(vs_zeq(s,v),m); delete[] s;
  int c=vs_zcmp(v,"0"); vs_check(a.isZero()==(c==0),"isZero"); vs_check((a.sgn()>0)-(a.sgn()<0)==c,"sign");
  bool one=vs_zeq(v,"1"),mone=vs_zeq(v,"-1"); vs_check(a.isOne()==one,"isOne"); vs_check(a.isAbsOne()==(one||mone),"isAbsOne"); }
static const char* operand(const char* n,int maxl){ int l=vs_pick("limbs",maxl+1); return vs_zlimbs(n,l,l&&vs_pick("sign",2)?-1:1); }
static bool zero(const char* v){ return vs_zcmp(v,"0")==0; }
// every one- and two-operand operation, target optionally already holding a value of another size
static void arith(int maxl,bool gcd){
  Allocator* al=new Allocator; Allocator* bl=new Allocator;
  { const char* va=operand("a",maxl); const char* vb=operand("b",maxl);
    Integer a(al,va),b(bl,vb); is(a,va,"construction from text"); 
    int op=vs_pick("op",gcd?5:4); int two=vs_pick("two",2);
    const char o="+-*/g"[op]; 
    if(op==3){ if(zero(vb)) { delete[] (char*)nullptr; goto out; }
      const char* q=va; const char* p=vs_zop('*',va,vb); Integer x(al,p);
      if(two){ Integer t(al); if(vs_pick("old",2)) t.set_si(7); vs_check(x.divisible(b),"product is divisible by its factor"); t.div(x,b); is(t,q,"exact quotient"); is(x,p,"dividend unchanged"); }
      else { x.div(b); is(x,q,"exact quotient"); }
      is(b,vb,"divisor unchanged"); goto out; }
    if(op==4&&(zero(va)||zero(vb))) goto out;
    { const char* r=vs_zop(o,va,vb);
    if(two){ Integer t(al); if(vs_pick("old",2)) t.set_si(-3); 
      switch(op){ case 0: t.add(a,b); break; case 1: t.sub(a,b); break; case 2: t.mult(a,b); break; case 4: t.gcd(a,b); break; }
      is(t,r,op==0?"sum":op==1?"difference":op==2?"product":"gcd"); is(a,va,"first operand unchanged"); }
    else { switch(op){ case 0: a.add(b); break; case 1: a.sub(b); break; case 2: a.mult(b); break; case 4: a.gcd(b); break; }
      is(a,r,op==0?"sum in place":op==1?"difference in place":op==2?"product in place":"gcd in place"); }
    is(b,vb,"second operand unchanged"); }
  out:; }
  vs_check(al->size()==0&&bl->size()==0,"integers return all their storage"); vs_reach("end"); delete al; delete bl; }
extern "C" void u06_arith(){ arith(1,true); }
extern "C" void u07_arith(){ arith(TIER?4:3,true); }
// aliasing: a op= a
extern "C" void u06_alias(){
  Allocator* al=new Allocator; { const char* v=operand("a",2); Integer a(al,v); int op=vs_pick("op",5);
    switch(op){ case 0: a.add(a); is(a,vs_zop('+',v,v),"a+a"); break; case 1: a.sub(a); is(a,"0","a-a"); break; case 2: a.mult(a); is(a,vs_zop('*',v,v),"a*a"); break;
      case 3: if(!zero(v)){ a.div(a); is(a,"1","a/a"); } break; case 4: a=a; is(a,v,"a=a"); break; } }
  vs_check(al->size()==0,"integers return all their storage"); vs_reach("end alias"); delete al; }
// value semantics: copy, move, swap, assignment, negation, set_si/set_ui and divisibility
extern "C" void u06_value(){
  Allocator* al=new Allocator; Allocator* bl=new Allocator;
  { const char* va=operand("a",TIER?3:2); const char* vb=operand("b",TIER?3:2); Integer a(al,va),b(bl,vb);
    switch(vs_pick("op",9)){
    case 0: { Integer c(bl,a); is(c,va,"copy"); is(a,va,"source of copy"); c.add(b); is(a,va,"source after the copy changed"); break; }
    case 1: { Integer c(static_cast<Integer&&>(a)); is(c,va,"moved value"); c.add(b); is(c,vs_zop('+',va,vb),"moved value used"); break; }
    case 2: a.swap(b); is(a,vb,"swap"); is(b,va,"swap"); a.add(b); is(a,vs_zop('+',va,vb),"swapped value used"); break;
    case 3: a=b; is(a,vb,"assignment"); is(b,vb,"source of assignment"); b.mult(b); is(a,vb,"assigned value after the source changed"); break;
    case 4: a=static_cast<Integer&&>(b); is(a,vb,"move assignment"); a.mult(a); is(a,vs_zop('*',vb,vb),"move assigned value used"); break;
    case 5: a.set_neg(); is(a,vs_zop('-',"0",va),"negation"); a.add(b); is(a,vs_zop('-',vb,va),"negated value used"); break;
    case 6: { int64_t k=vs_int("k",-(1ll<<62),1ll<<62); a.set_si(k); is(a,vs_zstr(k),"set_si"); a.add(b); is(a,vs_zop('+',vs_zstr(k),vb),"set value used"); break; }
    case 7: { int64_t k=vs_int("k",0,INT64_MAX); a.set_ui(k); is(a,vs_zstr(k),"set_ui"); break; }
    case 8: a.sub(a); is(a,"0","zero"); a=b; is(a,vb,"assignment over zero"); break; } }
  vs_check(al->size()==0&&bl->size()==0,"integers return all their storage"); vs_reach("end value"); delete al; delete bl; }
// divisibility against the definition
extern "C" void u06_divides(){
  Allocator* al=new Allocator; { int64_t x=vs_int("x",-60,60),y=vs_int("y",-12,12); vs_assume(y!=0); Integer a(al,vs_zstr(x)),b(al,vs_zstr(y));
    vs_check(a.divisible(b)==(x%y==0),"divisibility"); is(a,vs_zstr(x),"operand unchanged"); is(b,vs_zstr(y),"operand unchanged"); }
  vs_check(al->size()==0,"integers return all their storage"); vs_reach("end divides"); delete al; }
// chains of operations: the storage left by one operation serves the next
extern "C" void u07_chain(){
  Allocator* al=new Allocator; Allocator* bl=new Allocator;
  { const char* v[3]; int ml=2; v[0]=operand("x",ml); v[1]=operand("y",TIER?2:1); v[2]="1"; Integer* z[3]; z[0]=new Integer(al,v[0]); z[1]=new Integer(bl,v[1]); z[2]=new Integer(al,v[2]);
    bool raw[3]={true,true,true},sums=false; const int K=TIER?3:2; for(int k=0;k<K;k++){ int i=vs_pick("i",3); int j=vs_pick("j",2); j=(i+1+j)%3; int l=3-i-j;
      switch(vs_pick("op",k==K-1&&!sums&&raw[j]&&raw[l]?7:6)){ // products come last and of given numbers: their limb counts are the hard queries
      case 0: sums=true; z[i]->add(*z[j]); v[i]=vs_zop('+',v[i],v[j]); break;
      case 1: sums=true; z[i]->sub(*z[j],*z[l]); v[i]=vs_zop('-',v[j],v[l]); break;
      case 6: z[i]->mult(*z[j],*z[l]); v[i]=vs_zop('*',v[j],v[l]); break;
      case 3: *z[i]=*z[j]; v[i]=v[j]; break;
      case 4: *z[i]=static_cast<Integer&&>(*z[j]); v[i]=v[j]; delete z[j]; v[j]="5"; z[j]=new Integer(bl,v[j]); break;
      case 5: z[i]->swap(*z[j]); { const char* t=v[i]; v[i]=v[j]; v[j]=t; raw[j]=false; } break;
      case 2: z[i]->set_neg(); v[i]=vs_zop('-',"0",v[i]); break; }
      raw[i]=false; for(int q=0;q<3;q++){ const char* s=str(*z[q]); vs_check(vs_zeq(s,v[q]),"value after a chain of operations"); delete[] s; } }
    for(int q=0;q<3;q++) delete z[q]; }
  vs_check(al->size()==0&&bl->size()==0,"integers return all their storage"); vs_reach("end chain"); delete al; delete bl; }
