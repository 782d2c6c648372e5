// B01: boolean monomials are sets of variables.
#include "common.h"
#include <cassert>
#include <iostream>
#include "util/allocator.h"
#include "ginv/bmonom.h"
using namespace GInv;
#define MS 16
typedef int64_t Var;
struct Set { Var v[MS]; int n; };                          // strictly decreasing
static bool in(const Set& s,Var q){ bool r=false; for(int i=0;i<s.n;i++) r|=s.v[i]==q; return r; }
// a monomial grown one variable at a time, with what it must contain
static BMonom* grow(Allocator* al,int n,Set& all,bool sorted=false){ all.n=0; BMonom* m=new BMonom(al); int first=n&&!sorted?vs_pick("single",2):0;
  for(int i=0;i<n;i++){ Var v=vs_int("v",0,1000); if(sorted&&i) vs_assume(v<all.v[i-1]); BMonom* t=i==0&&first?new BMonom((int)v,al):new BMonom(*m,(int)v,al); delete m; m=t; all.v[all.n++]=v; }
  return m; }
// m is exactly the set with the given elements (which may repeat)
static void is(const BMonom& m,const Set& s,const char* w){ int d=0; for(int i=0;i<s.n;i++){ bool fresh=true; for(int j=0;j<i;j++) fresh&=s.v[i]!=s.v[j]; d+=fresh; }
  vs_check(m.degree()==d,w); vs_check(m.isZero()==(d==0)&&(bool)m==(d!=0),"emptiness"); if(m.degree()!=d) return;
  for(int i=0;i+1<m.degree();i++) vs_check(m[i]>m[i+1],"variables strictly decreasing");
  for(int i=0;i<m.degree();i++) vs_check(in(s,m[i]),w); }
static Set setOf(const BMonom& m){ Set s; s.n=m.degree(); for(int i=0;i<s.n;i++) s.v[i]=m[i]; return s; }
static Set join(const Set& a,const Set& b){ Set s=a; for(int i=0;i<b.n;i++) s.v[s.n++]=b.v[i]; return s; }
static void same(const BMonom& m,const Set& s,const char* w){ vs_check(m.degree()==s.n,w); if(m.degree()==s.n) for(int i=0;i<s.n;i++) vs_check(m[i]==s.v[i],w); }
extern "C" void b01_build(){
  Allocator* al=new Allocator; { Set s; BMonom* m=grow(al,vs_pick("n",TIER?6:5),s); is(*m,s,"union of the inserted variables"); 
    BMonom c(*m,al); is(c,s,"copy"); BMonom e(al); vs_check(m->divisible(e),"1 divides everything"); vs_check(m->divisible(*m)&&m->divisible(c),"divides itself"); delete m; is(c,s,"copy after its source is gone"); }
  vs_check(al->size()==0,"boolean monomials return all their storage"); vs_reach("end build"); delete al; }
extern "C" void b01_pair(){
  Allocator* al=new Allocator; Allocator* bl=new Allocator;
  { int N=TIER?5:4; Set r1,r2; BMonom* a=grow(al,vs_pick("n",N+1),r1,true); BMonom* b=grow(bl,vs_pick("n",N+1),r2,true); Set s=setOf(*a),t=setOf(*b); bool inc=true; for(int i=0;i<t.n;i++) inc&=in(s,t.v[i]);
    switch(vs_pick("op",8)){
    case 0: { BMonom p(*a,*b,bl); is(p,join(s,t),"product is the union"); BMonom q(p,*b,al); is(q,join(s,t),"multiplying twice changes nothing"); vs_check(p.divisible(*a)&&p.divisible(*b),"product divisible by its factors"); break; }
    case 1: vs_check(a->divisible(*b)==inc,"divisibility is inclusion"); break;
    case 2: if(inc){ BMonom d(al); int old=vs_pick("old",2); if(old){ BMonom w(7,al),u(w,5,al); d=u; } d.div(*a,*b); Set r; r.n=0; for(int i=0;i<s.n;i++) if(!in(t,s.v[i])) r.v[r.n++]=s.v[i]; same(d,r,"quotient is the difference"); BMonom p(d,*b,al); same(p,s,"quotient times divisor"); } break;
    case 3: { *a=*b; same(*a,t,"assignment"); BMonom p(*a,*b,al); a->swap(p); same(*b,t,"source of the assignment"); break; }
    case 4: { a->swap(*b); same(*a,t,"swap"); same(*b,s,"swap"); break; }
    case 5: { BMonom e(al); *a=e; vs_check(a->isZero(),"assignment of 1"); *a=*b; same(*a,t,"assignment after 1"); break; }
    case 6: { int c=a->compare(*b),d=b->compare(*a); c=(c>0)-(c<0); d=(d>0)-(d<0); int r=0; if(s.n!=t.n) r=s.n>t.n?1:-1; else for(int i=0;i<s.n;i++) r=s.v[i]>t.v[i]?1:s.v[i]<t.v[i]?-1:r; // the smallest differing position decides
      vs_check(c==r,"comparison by degree, then by variables"); vs_check(d==-c,"antisymmetry"); vs_check((c==0)==(s.n==t.n&&inc),"equal exactly for equal sets"); break; }
    case 7: { BMonom p(*a,*b,bl); *a=p; is(*a,join(s,t),"assignment of a product"); p=*b; same(p,t,"assignment to a product"); BMonom q(p,3,al); is(*a,join(s,t),"copy unaffected"); break; } }
    delete a; delete b; }
  vs_check(al->size()==0&&bl->size()==0,"boolean monomials return all their storage"); vs_reach("end pair"); delete al; delete bl; }
extern "C" void b01_trans(){
  Allocator* al=new Allocator; { Set r; int N=TIER?5:3; BMonom* a=grow(al,vs_pick("n",N+1),r,true); BMonom* b=grow(al,vs_pick("n",N+1),r,true); BMonom* c=grow(al,vs_pick("n",N+1),r,true);
    vs_assume(a->compare(*b)>=0&&b->compare(*c)>=0); vs_check(a->compare(*c)>=0,"transitivity"); delete a; delete b; delete c; }
  vs_check(al->size()==0,"boolean monomials return all their storage"); vs_reach("end trans"); delete al; }
