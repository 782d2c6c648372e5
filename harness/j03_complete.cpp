// J03 J05: completion of monomial sets, Hilbert polynomials.
#include "janet.h"
#include "ginv/mcompletion.h"
#include "hilb.h"
#define NS 4
#define NT 40
struct Set { Wrap* w[NT]; Ref s[NT]; int n; };
static bool inIdeal(const Ref* g,int n,const Ref& q){ bool r=false; for(int i=0;i<n;i++) r=r|divides(g[i],q); return r; }
static int gens(Ref* g,int nv,int n,int X,bool reduced){ for(int i=0;i<n;i++){ g[i]=sym(nv,-1,X); for(int j=0;j<i;j++) vs_assume(reduced?!divides(g[i],g[j])&!divides(g[j],g[i]):!eq(g[i],g[j])); } return n; }
static void collect(Set& S,const ListWrap& l){ S.n=0; for(ListWrap::ConstIterator j(l.begin()); j; ++j){ vs_check(S.n<NT,"size of a completed set"); S.w[S.n]=j.data(); S.s[S.n]=refOf(j.data()->lm()); S.n++; } }
static void walk(Set& S,Janet::ConstIterator j){ while(j){ if(j.wrap()){ vs_check(S.n<NT,"size of a completed set"); S.w[S.n]=j.wrap(); S.s[S.n]=refOf(j.wrap()->lm()); S.n++; } if(j.nextVar()) walk(S,j.nextVar()); j.deg(); } }
// every monomial of the ideal has exactly one involutive divisor in S, others none
static int cover(const Set& S,const Ref* g,int n,int nv,const Ref& q){ int c=0,at=-1; for(int i=0;i<S.n;i++){ vs_check(inIdeal(g,n,S.s[i]),"completion adds only multiples of the generators"); bool d=true; for(int v=0;v<nv;v++) d=d&(S.s[i].e[v]<=q.e[v]); for(int v=0;v<nv;v++) if(S.w[i]->NM(v)) d=d&(S.s[i].e[v]==q.e[v]); if(d){ c++; at=i; } }
  vs_check(c==(inIdeal(g,n,q)?1:0),"exactly one involutive divisor for each monomial of the ideal and none outside"); return at; }
typedef int (*Cmp)(const Wrap&,const Wrap&);
static void list(Set& S,MCompletion& M){ collect(S,M.T()); vs_check(M.length()==S.n,"length of the completed set"); }
// symbolic generators in one or two variables, each order of the completion
extern "C" void j03_list(){ int nv=1+vs_pick("nv",2),o=vs_pick("order",4); int n=1+vs_pick("n",3),X=nv==1?4:n<3?TIER?4:3:TIER?3:2; Ref g[NS]; gens(g,nv,n,X,o==2);
  static const Cmp C[]={MCompletion::lex,MCompletion::deglex,MCompletion::alex,MCompletion::lexGB}; Allocator* al=new Allocator; { MCompletion M(al,C[o]); for(int i=0;i<n;i++){ Monom* m=mk(al,g[i]); M.push(*m); if(o==0&&vs_pick("again",2)) M.push(*m); delete m; } M.build(); Set S; list(S,M);
    Ref q=sym(nv,-1,X+3); int at=cover(S,g,n,nv,q); Monom* m=mk(al,q); Wrap* f=M.find(*m); vs_check(at<0?f==nullptr:f==S.w[at],"lookup in the completed set"); delete m; M.build(); vs_check(M.length()==S.n,"completing again changes nothing"); }
  vs_check(al->size()==0,"completion returns its storage"); delete al; vs_reach("end list"); }
static void dup(Set& a,Set& b,const char* msg){ vs_check(a.n==b.n,msg); for(int i=0;i<a.n;i++){ int k=0; for(int j=0;j<b.n;j++) if(eq(a.s[i],b.s[j])){ k++; for(int v=0;v<a.s[i].n;v++) vs_check(a.w[i]->NM(v)==b.w[j]->NM(v),msg); } vs_check(k==1,msg); } }
extern "C" void j03_tree(){ int nv=1+vs_pick("nv",2); int n=1+vs_pick("n",3),X=nv==1?4:n<3?TIER?4:3:TIER?3:2; Ref g[NS]; gens(g,nv,n,X,false);
  Allocator* al=new Allocator; { MJanet M(al); MCompletion L(al,MCompletion::lex); for(int i=0;i<n;i++){ Monom* m=mk(al,g[i]); M.push(*m); L.push(*m); delete m; } M.build(); Set S,T; S.n=0; walk(S,M.tree().begin()); vs_check(M.tree().size()==S.n,"size of the completed tree");
    Ref q=sym(nv,-1,X+3); int at=cover(S,g,n,nv,q); Monom* m=mk(al,q); const Wrap* f=M.tree().find(*m); vs_check(at<0?f==nullptr:f==S.w[at],"lookup in the completed tree"); delete m; 
    L.build(); list(T,L); dup(S,T,"list and tree completions agree"); }
  vs_check(al->size()==0,"completion returns its storage"); delete al; vs_reach("end tree"); }
extern "C" void j03_three(){ int nv=3; int n=1+vs_pick("n",TIER?3:2),X=TIER?2:1; Ref g[NS]; gens(g,nv,n,X,false);
  Allocator* al=new Allocator; { MJanet M(al); for(int i=0;i<n;i++){ Monom* m=mk(al,g[i]); M.push(*m); delete m; } M.build(); Set S; S.n=0; walk(S,M.tree().begin()); Ref q=sym(nv,-1,X+2); int at=cover(S,g,n,nv,q); Monom* m=mk(al,q); const Wrap* f=M.tree().find(*m); vs_check(at<0?f==nullptr:f==S.w[at],"lookup in the completed tree"); delete m;
    HilbertPoly h; M.tree().buildHP(h); hp(h,nv,g,n,"Hilbert polynomial of three variables"); }
  vs_check(al->size()==0,"completion returns its storage"); delete al; vs_reach("end three"); }
extern "C" void j05_tree(){ int nv=1+vs_pick("nv",2); int n=1+vs_pick("n",3),X=nv==1?5:TIER?4:3; Ref g[NS]; gens(g,nv,n,X,false);
  Allocator* al=new Allocator; { MJanet M(al); for(int i=0;i<n;i++){ Monom* m=mk(al,g[i]); M.push(*m); delete m; } M.build(); HilbertPoly h; M.tree().buildHP(h); hp(h,nv,g,n,"Hilbert polynomial counts the monomials outside the ideal"); }
  vs_check(al->size()==0,"completion returns its storage"); delete al; vs_reach("end hilbert"); }
