// M01: monomial algebra.  M02: monomial orders.
#include "monoms.h"
#define X 1000
struct Gen { typedef uint32_t result_type; static constexpr uint32_t min(){ return 0; } static constexpr uint32_t max(){ return 0xffffffffu; } uint32_t operator()(){ return (uint32_t)vs_pick("draw",4)<<30|0x1000000; } };
static int pickpos(const char* n){ int k=vs_pick(n,4); return k-1; }
extern "C" void m01_mul(){
  Allocator* al=new Allocator; Allocator* bl=new Allocator;
  { int n=1+vs_pick("n",TIER?8:5); Ref a=sym(n,pickpos("pa"),X),b=sym(n,a.pos>=0?-1:pickpos("pb"),X); Monom *x=mk(al,a),*y=mk(bl,b); is(*x,a,"built monomial"); is(*y,b,"built monomial");
    Ref p=times(a,b);
    switch(vs_pick("op",3)){
    case 0: { Monom z(bl,*x,*y); is(z,p,"product"); is(*x,a,"factor unchanged"); 
      if(vs_pick("side",2)){ vs_check(z.divisiable(*x),"product is divisible by its factor"); z.div(*x); Ref q=b; q.pos=a.pos>=0?-1:b.pos; is(z,q,"product divided by a factor"); }
      else { vs_check(z.divisiable(*y),"product is divisible by its factor"); z.div(*y); Ref q=a; q.pos=b.pos>=0?-1:a.pos; is(z,q,"product divided by a factor"); }
      break; }
    case 1: x->mult(*y); is(*x,p,"product in place"); break;
    case 2: { Monom z=static_cast<Monom&&>(*x)*(*y); is(z,p,"product of a temporary"); break; } }
    is(*y,b,"factor unchanged"); delete x; delete y; }
  vs_check(al->size()==0&&bl->size()==0,"monomials return all their storage"); vs_reach("end mul"); delete al; delete bl; }
// quotients, divisibility, gcd and lcm degrees of any two monomials
extern "C" void m01_div(){
  Allocator* al=new Allocator; Allocator* bl=new Allocator;
  { int n=1+vs_pick("n",TIER?8:5); Ref a=sym(n,pickpos("pa"),X),b=sym(n,pickpos("pb"),X); Monom *x=mk(al,a),*y=mk(bl,b);
    bool d=b.pos<0||b.pos==a.pos; int64_t g=0,l=0; for(int i=0;i<n;i++){ d=d&(b.e[i]<=a.e[i]); g+=a.e[i]<b.e[i]?a.e[i]:b.e[i]; l+=a.e[i]<b.e[i]?b.e[i]:a.e[i]; }
    switch(vs_pick("op",3)){
    case 0: vs_check(x->divisiable(*y)==d,"divisibility"); if(d){ x->div(*y); Ref q=a; for(int i=0;i<n;i++) q.e[i]=a.e[i]-b.e[i]; if(b.pos>=0) q.pos=-1; is(*x,q,"quotient"); is(*y,b,"divisor unchanged");
        Monom z(al,*x,*y); Ref back=a; is(z,back,"quotient times divisor"); Monom w(al,*y,*x); is(w,back,"divisor times quotient"); } break;
    case 1: if(a.pos<0||b.pos<0) { vs_check(x->gcd(*y)==g,"degree of the gcd"); vs_check(y->gcd(*x)==g,"degree of the gcd"); } break;
    case 2: if(a.pos<0||b.pos<0) { vs_check(x->lcm(*y)==l,"degree of the lcm"); vs_check(y->lcm(*x)==l,"degree of the lcm"); } break; }
    delete x; delete y; }
  vs_check(al->size()==0&&bl->size()==0,"monomials return all their storage"); vs_reach("end div"); delete al; delete bl; }
// powers, single variables, copies, moves, assignments, swap, equality, permutation, setPos
extern "C" void m01_value(){
  Allocator* al=new Allocator; Allocator* bl=new Allocator;
  { int op=vs_pick("op",10),n=1+vs_pick("n",op==9?(TIER?5:4):TIER?8:5); Ref a=sym(n,pickpos("pa"),X); Monom *x=mk(al,a);
    switch(op){
    case 0: { int64_t k=vs_int("k",0,X); Monom p(bl,*x,(int)k); Ref r=a; for(int i=0;i<n;i++) r.e[i]*=k; is(p,r,"power"); is(*x,a,"base unchanged"); break; }
    case 1: { int v=vs_pick("v",n); Monom p(bl,v,*x); Ref r=a; r.e[v]++; is(p,r,"variable times monomial"); is(*x,a,"factor unchanged"); break; }
    case 2: { int v=vs_pick("v",n); Ref b=sym(n,pickpos("pb"),X); Monom* y=mk(bl,b); y->mult(v,*x); Ref r=a; r.e[v]++; is(*y,r,"variable times monomial, stored"); is(*x,a,"factor unchanged"); delete y; break; }
    case 3: { int v=vs_pick("v",n); int p=pickpos("pb"); Monom y(bl,v,n,p); Ref r=a; for(int i=0;i<n;i++) r.e[i]=i==v; r.pos=p; is(y,r,"single variable"); Monom o(bl,n,p); r.e[v]=0; is(o,r,"unit monomial"); break; }
    case 4: { Monom y(bl,*x); is(y,a,"copy"); Monom one(al,0,n,-1); y.mult(one); is(*x,a,"source of the copy"); Ref r=a; r.e[0]++; is(y,r,"changed copy"); break; }
    case 5: { Monom y(static_cast<Monom&&>(*x)); is(y,a,"moved monomial"); break; }
    case 6: { Ref b=sym(n,pickpos("pb"),X); Monom* y=mk(bl,b); *y=*x; is(*y,a,"assigned monomial"); Monom one(al,n-1,n,-1); x->mult(one); is(*y,a,"assigned monomial after its source changed"); delete y; break; }
    case 7: { Ref b=sym(n,pickpos("pb"),X); Monom* y=mk(bl,b); *y=static_cast<Monom&&>(*x); is(*y,a,"move assigned monomial"); delete y; break; }
    case 8: { Ref b=sym(n,pickpos("pb"),X); Monom* y=mk(bl,b); vs_check((*x==*y)==eq(a,b),"equality"); vs_check((*x!=*y)==!eq(a,b),"inequality"); x->swap(*y); is(*x,b,"swap"); is(*y,a,"swap"); x->setPos(2); b.pos=2; is(*x,b,"changed position"); delete y; break; }
    case 9: { RandPermutation p(n); Gen g; p.next(g); Monom y(bl,n,a.pos); y.permutation(*x,p); Ref r=a; for(int i=0;i<n;i++) r.e[i]=a.e[p[i]]; is(y,r,"permuted monomial"); is(*x,a,"source of the permutation"); break; } }
    delete x; }
  vs_check(al->size()==0&&bl->size()==0,"monomials return all their storage"); vs_reach("end value"); delete al; delete bl; }
// M02
static int sgn(int c){ return (c>0)-(c<0); }
static int ord(int o,const Monom& a,const Monom& b){ return sgn(o==0?a.lex(b):o==1?a.deglex(b):a.alex(b)); }
static int ord(int o,const Monom& a,const Monom& b,const Monom& c){ return sgn(o==0?a.lex(b,c):o==1?a.deglex(b,c):a.alex(b,c)); }
extern "C" void m02_order(){
  Allocator* al=new Allocator;
  { int n=1+vs_pick("n",TIER?8:5),o=vs_pick("order",3); Ref a=sym(n,-1,X),b=sym(n,-1,X); Monom *x=mk(al,a),*y=mk(al,b);
    int c=ord(o,*x,*y); vs_check(c==rord(o,a,b),"comparison by the definition"); vs_check(ord(o,*y,*x)==-c,"antisymmetry"); vs_check((c==0)==eq(a,b),"equal exactly when all exponents are equal");
    Monom one(al,n,-1); if(o<2) vs_check(ord(o,*x,one)>=0,"1 is the least monomial"); else vs_check(ord(o,*x,one)<=0,"1 is the greatest monomial");
    delete x; delete y; }
  vs_reach("end order"); delete al; }
extern "C" void m02_mult(){
  Allocator* al=new Allocator;
  { int n=1+vs_pick("n",TIER?8:5),o=vs_pick("order",3); Ref a=sym(n,-1,X),b=sym(n,-1,X),d=sym(n,-1,X); Monom *x=mk(al,a),*y=mk(al,b),*z=mk(al,d);
    if(vs_pick("what",2)){ int c=ord(o,*x,*y,*z); Monom p(al,*y,*z); vs_check(c==ord(o,*x,p),"comparison with a product"); vs_check(c==rord(o,a,times(b,d)),"comparison with a product by the definition"); }
    else { Monom p(al,*x,*z),q(al,*y,*z); vs_check(ord(o,p,q)==ord(o,*x,*y),"order kept by multiplication"); }
    delete x; delete y; delete z; }
  vs_reach("end mult"); delete al; }
extern "C" void m02_trans(){
  Allocator* al=new Allocator;
  { int n=1+vs_pick("n",TIER?5:3),o=vs_pick("order",3); Ref a=sym(n,-1,X),b=sym(n,-1,X),d=sym(n,-1,X); Monom *x=mk(al,a),*y=mk(al,b),*z=mk(al,d);
    vs_assume(ord(o,*x,*y)>=0); vs_assume(ord(o,*y,*z)>=0); vs_check(ord(o,*x,*z)>=0,"transitivity");
    delete x; delete y; delete z; }
  vs_reach("end trans"); delete al; }
