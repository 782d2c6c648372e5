// U01/U02: the pool allocator, with every request size symbolic.
#include "common.h"
#include <cassert>
#include <cstring>
#include "util/allocator.h"
using namespace GInv;
#ifndef MAXN
#define MAXN 9000
#endif
static const int CAP=8;
struct Hist { uintptr_t p[CAP]; uint64_t n[CAP],inc[CAP]; bool live[CAP]; int k; unsigned char tag[CAP]; Hist():k(0){} };
static void fill(Hist& h,int i){ if(!vs_symbolic()) memset((void*)h.p[i],0x11*(i+1),h.n[i]); }
static void intact(Hist& h){ if(!vs_symbolic()) for(int i=0;i<h.k;i++) if(h.live[i]) for(uint64_t j=0;j<h.n[i];j++) if(((unsigned char*)h.p[i])[j]!=(unsigned char)(0x11*(i+1))) vs_check(0,"contents of a live block changed"); }
static void take(Allocator* a,Hist& h,uint64_t n){
  int i=h.k++; size_t s0=a->size(); 
  void* r=a->allocate(n); h.p[i]=(uintptr_t)r; h.n[i]=n; h.live[i]=true; h.inc[i]=a->size()-s0;
  vs_check(h.p[i]%16==0,"block is 16-byte aligned");
  vs_check(vs_inside(r,n),"block lies inside memory owned by the pool");
  for(int j=0;j<i;j++) if(h.live[j]) vs_check(h.p[j]+h.n[j]<=h.p[i]||h.p[i]+h.n[i]<=h.p[j],"blocks do not overlap");
  fill(h,i); intact(h); }
static void give(Allocator* a,Hist& h,int i){ size_t s0=a->size(); a->deallocate((void*)h.p[i],h.n[i]); vs_check(s0-a->size()==h.inc[i],"returning a block undoes exactly its accounting"); h.live[i]=false; intact(h); }
static uint64_t any(){ return (uint64_t)vs_int("n",1,MAXN); }
extern "C" void u01_blocks(){
  vs_hooks(0); Allocator* a=new Allocator; Hist h; int K=TIER?5:4;
  for(int i=0;i<K;i++){ take(a,h,any()); if(i==1&&vs_pick("ret",2)) give(a,h,0); if(i==2&&vs_pick("ret",2)) give(a,h,1); }
  for(int i=0;i<h.k;i++) if(h.live[i]) give(a,h,i);
  vs_check(a->size()==0,"nothing in use after returning everything"); vs_reach("end blocks"); delete a; }
// many small blocks: page boundary crossed at an arbitrary point
extern "C" void u01_page(){
  vs_hooks(0); Allocator* a=new Allocator; Hist h; take(a,h,(uint64_t)vs_int("first",1,4200)); for(int i=0;i<5;i++) take(a,h,(uint64_t)vs_int("s",1,TIER?4200:120));
  for(int i=0;i<h.k;i++) give(a,h,i); vs_reach("end page"); delete a; }
// two pools filled to different extents and swapped: the histories move with the storage
extern "C" void u01_swap(){
  vs_hooks(0); Allocator* a=new Allocator; Allocator* b=new Allocator; Hist ha,hb; int na=vs_pick("na",3),nb=vs_pick("nb",3);
  for(int i=0;i<na;i++) take(a,ha,any()); for(int i=0;i<nb;i++) take(b,hb,any());
  a->swap(*b); Hist t=ha; ha=hb; hb=t;
  take(a,ha,any()); take(b,hb,any()); if(TIER){ take(a,ha,any()); take(b,hb,any()); }
  for(int i=0;i<ha.k;i++) for(int j=0;j<hb.k;j++) vs_check(ha.p[i]+ha.n[i]<=hb.p[j]||hb.p[j]+hb.n[j]<=ha.p[i],"blocks of different pools do not overlap");
  for(int i=0;i<ha.k;i++) give(a,ha,i); for(int i=0;i<hb.k;i++) give(b,hb,i);
  vs_reach("end swap"); delete a; delete b; }
static void totals(Allocator* a,Allocator* b,size_t c0,size_t& mx){
  size_t cur=Allocator::currMemory(); vs_check(cur-c0==(a?a->alloc():0)+(b?b->alloc():0),"process total is the sum over live pools");
  vs_check(Allocator::maxMemory()>=mx,"process maximum never decreases"); vs_check(Allocator::maxMemory()>=cur,"process maximum covers the current total");
  size_t want=mx>cur?mx:cur; vs_check(Allocator::maxMemory()==want,"process maximum is the highest total seen"); mx=Allocator::maxMemory();
  if(a) vs_check(a->alloc()>=a->size(),"reserved covers in use"); if(b) vs_check(b->alloc()>=b->size(),"reserved covers in use"); }
static uint64_t sum(Hist& h){ uint64_t s=0; for(int i=0;i<h.k;i++) if(h.live[i]) s+=h.inc[i]; return s; }
static void sized(Hist& h,Allocator* a,const char* m){ vs_check(a->size()==sum(h),m); for(int i=0;i<h.k;i++){ vs_check(h.inc[i]>=h.n[i]&&h.inc[i]<=h.n[i]+32,"rounding covers the request"); } }
extern "C" void u02_account(){
  vs_hooks(0); int64_t heap0=vs_heap(); size_t c0=Allocator::currMemory(),mx=Allocator::maxMemory();
  Allocator* a=new Allocator; Allocator* b=new Allocator; Hist ha,hb; vs_check(a->size()==0,"a new pool is empty"); totals(a,b,c0,mx);
  int K=TIER?5:4; for(int i=0;i<K;i++) { switch(vs_pick("op",3)){
    case 0: take(a,ha,any()); break; case 1: take(b,hb,any()); break;
    case 2: if(ha.k&&ha.live[0]) give(a,ha,0); else if(hb.k&&hb.live[hb.k-1]) give(b,hb,hb.k-1); break; }
    sized(ha,a,"in-use counter is the sum of live requests"); sized(hb,b,"in-use counter is the sum of live requests"); totals(a,b,c0,mx); }
  if(vs_pick("swap",2)){ size_t sa=a->size(),sb=b->size(),aa=a->alloc(),ab=b->alloc(); a->swap(*b); vs_check(a->size()==sb&&b->size()==sa&&a->alloc()==ab&&b->alloc()==aa,"swap exchanges the pools"); totals(a,b,c0,mx); Hist t=ha; ha=hb; hb=t; 
    if(ha.k+hb.k<K+1&&vs_pick("more",2)){ take(a,ha,any()); sized(ha,a,"in-use counter after swap"); totals(a,b,c0,mx);} }
  for(int i=0;i<ha.k;i++) if(ha.live[i]) give(a,ha,i); for(int i=0;i<hb.k;i++) if(hb.live[i]) give(b,hb,i);
  vs_check(a->size()==0&&b->size()==0,"everything returned"); totals(a,b,c0,mx);
  delete a; totals(nullptr,b,c0,mx); delete b; totals(nullptr,nullptr,c0,mx);
  vs_check(Allocator::currMemory()==c0,"total returns to its starting value"); vs_check(vs_heap()==heap0,"all memory is given back"); vs_reach("end account"); }
