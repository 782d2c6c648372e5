// M03: orders of module terms.
#include "monoms.h"
#include "ginv/poly.h"
#define X 1000
static const int OB[]={Poly::lex,Poly::deglex,Poly::alex};
static int sgn(int c){ return (c>0)-(c<0); }
// the comparison with a product, when the class still offers one of its own
struct P: Poly { P(int o,int n):Poly(o,n){}
  template<class Q> static auto two(const Q* q,const Monom& a,const Monom& b,const Monom& c,int)->decltype((int)q->mCmp2(a,b,c)){ return q->mCmp2(a,b,c); }
  template<class Q> static int two(const Q* q,const Monom& a,const Monom& b,const Monom& c,long){ Allocator al[1]; Monom p(al,b,c); return q->cmp(a,p); }
  int product(const Monom& a,const Monom& b,const Monom& c) const { return two(this,a,b,c,0); } };
static int pickpos(const char* n){ return vs_pick(n,TIER?5:4)-1; }
extern "C" void m03_order(){
  Allocator* al=new Allocator;
  { int n=1+vs_pick("n",TIER?6:4),o=vs_pick("order",3),top=vs_pick("top",2); P p((top?Poly::TOP:Poly::POT)|OB[o],n);
    Ref a=sym(n,pickpos("pa"),X),b=sym(n,pickpos("pb"),X); Monom *x=mk(al,a),*y=mk(al,b);
    int c=sgn(p.cmp(*x,*y)); vs_check(c==rmod(top,o,a,b),"comparison by the definition"); vs_check(sgn(p.cmp(*y,*x))==-c,"antisymmetry"); vs_check((c==0)==(a.pos==b.pos&&eq(a,b)),"equal exactly for the same term");
    delete x; delete y; }
  vs_reach("end order"); delete al; }
extern "C" void m03_product(){
  Allocator* al=new Allocator;
  { int n=1+vs_pick("n",TIER?5:3),o=vs_pick("order",3),top=vs_pick("top",2); P p((top?Poly::TOP:Poly::POT)|OB[o],n);
    Ref a=sym(n,pickpos("pa"),X),b=sym(n,pickpos("pb"),X),d=sym(n,b.pos<0?pickpos("pc"):-1,X); Monom *x=mk(al,a),*y=mk(al,b),*z=mk(al,d);
    int c=sgn(p.product(*x,*y,*z)); Monom q(al,*y,*z); vs_check(c==sgn(p.cmp(*x,q)),"comparison with a product"); vs_check(c==rmod(top,o,a,times(b,d)),"comparison with a product by the definition");
    delete x; delete y; delete z; }
  vs_reach("end product"); delete al; }
extern "C" void m03_laws(){
  Allocator* al=new Allocator;
  { int n=1+vs_pick("n",TIER?3:2),o=vs_pick("order",3),top=vs_pick("top",2); P p((top?Poly::TOP:Poly::POT)|OB[o],n);
    Ref a=sym(n,pickpos("pa"),X),b=sym(n,pickpos("pb"),X),d=sym(n,pickpos("pc"),X); Monom *x=mk(al,a),*y=mk(al,b),*z=mk(al,d);
    if(vs_pick("law",2)){ vs_assume(p.cmp(*x,*y)>=0); vs_assume(p.cmp(*y,*z)>=0); vs_check(p.cmp(*x,*z)>=0,"transitivity"); }
    else if(d.pos<0){ Monom u(al,*x,*z),v(al,*y,*z); vs_check(sgn(p.cmp(u,v))==sgn(p.cmp(*x,*y)),"order kept by multiplication with a scalar monomial"); }
    delete x; delete y; delete z; }
  vs_reach("end laws"); delete al; }
