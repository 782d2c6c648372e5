// U09: shuffles are permutations and the index draws determine them one to one.
#include "common.h"
#include <cassert>
#include <iostream>
#include "util/randpermutation.h"
using namespace GInv;
struct Gen { typedef uint32_t result_type; uint32_t d[24]; int n,limit,id;
  Gen(int i,int l):n(0),limit(l),id(i){}
  static constexpr uint32_t min(){ return 0; } static constexpr uint32_t max(){ return 0xffffffffu; }
  uint32_t operator()(){ vs_assume(n<limit); uint32_t x=(uint32_t)vs_int(id?"h":"g",0,0xffffffffll); d[n++]=x; return x; } };
struct Replay { typedef uint32_t result_type; const Gen& g; int k; explicit Replay(const Gen& x):g(x),k(0){}
  static constexpr uint32_t min(){ return 0; } static constexpr uint32_t max(){ return 0xffffffffu; }
  uint32_t operator()(){ vs_assume(k<g.n); return g.d[k++]; } };
static void is(const RandPermutation& p,int n){ vs_check(p.size()==n,"size"); unsigned seen=0; for(int i=0;i<n;i++){ int x=p[i]; vs_check(0<=x&&x<n,"entry in range"); if(0<=x&&x<n){ vs_check(!(seen>>x&1),"entry occurs once"); seen|=1u<<x; } } }
extern "C" void u09_perm(){
  int n=1+vs_pick("n",TIER?6:5); RandPermutation* p=new RandPermutation(n); is(*p,n); int r=n<=3?3:(n==4?2:1);
  Gen g(0,(n-1)*r+(n<=3?2:1)); for(int i=0;i<r;i++){ p->next(g); is(*p,n); }
  delete p; vs_reach("end perm"); }
// one shuffle from the identity: equal results only from equal index draws
extern "C" void u09_inject(){
  int n=2+vs_pick("n",TIER?4:3); RandPermutation* p=new RandPermutation(n); RandPermutation* q=new RandPermutation(n); Gen g(0,n-1),h(1,n-1); p->next(g); q->next(h);
  bool eq=true; for(int i=0;i<n;i++) eq&=(*p)[i]==(*q)[i];
  if(eq){ vs_check(g.n==n-1&&h.n==n-1,"one draw per step"); Replay a(g),b(h); for(int i=n-1;i>0;i--){ std::uniform_int_distribution<int> u(0,i),v(0,i); int x=u(a),y=v(b); vs_check(x==y,"different draws give different permutations"); } vs_reach("equal permutations"); }
  delete p; delete q; vs_reach("end inject"); }
// every permutation of n is produced by some draws
extern "C" void u09_onto(){
  int n=2+vs_pick("n",3); RandPermutation p(n); Gen g(0,n-1); p.next(g);
  static const char* nm[]={"0","1","2","3"}; (void)nm; char s[16]; int k=0; s[k++]='p'; for(int i=0;i<n;i++) s[k++]=(char)('0'+vs_concrete(p[i])); s[k]=0; vs_reach(s); }
