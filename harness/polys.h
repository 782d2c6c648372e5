// Integer polynomials with symbolic exponents and coefficients, and their reference.
#pragma once
#include "monoms.h"
#include <string.h>
#include "ginv/poly_int.h"
static const int OB[]={Poly::lex,Poly::deglex,Poly::alex};
struct Ord { int code,o; bool top; };
static Ord mkord(int o,bool top){ Ord r; r.o=o; r.top=top; r.code=(top?Poly::TOP:Poly::POT)|OB[o]; return r; }
static int rcmp(const Ord& o,const Ref& a,const Ref& b){ return rmod(o.top,o.o,a,b); }
static const char* keepz(const char* s){ size_t n=strlen(s)+1; char* p=(char*)malloc(n); memcpy(p,s,n); return p; }
#ifndef MT
#define MT 24
#endif
struct RP { Ref m[MT]; const char* c[MT]; int n; RP():n(0){} void put(const Ref& r,const char* v){ m[n]=r; c[n]=v; n++; } }; // a sum of terms, in any order, with repeats
static bool same(const Ref& a,const Ref& b){ return a.pos==b.pos&&eq(a,b); }
static RP refOf(const PolyInt& p){ RP r; for(PolyInt::ConstIterator i(p.begin()); i; ++i) r.put(refOf(i.monom()),keepz(i.coeff().get_str(10))); return r; }
static const char* coefAt(const RP& p,const Ref& m){ const char* s="0"; for(int i=0;i<p.n;i++) if(same(p.m[i],m)) s=vs_zop('+',s,p.c[i]); return s; }
static RP neg(const RP& p){ RP r=p; for(int i=0;i<p.n;i++) r.c[i]=vs_zop('-',"0",p.c[i]); return r; }
static RP plus(const RP& a,const RP& b){ RP r=a; for(int i=0;i<b.n;i++) r.put(b.m[i],b.c[i]); return r; }
static RP scale(const RP& a,const char* k){ RP r=a; for(int i=0;i<a.n;i++) r.c[i]=vs_zop('*',a.c[i],k); return r; }
static RP prod(const RP& a,const RP& b){ RP r; for(int i=0;i<a.n;i++) for(int j=0;j<b.n;j++) r.put(times(a.m[i],b.m[j]),vs_zop('*',a.c[i],b.c[j])); return r; }
static RP unit(int n,const char* c){ RP r; Ref m; m.n=n; m.pos=-1; for(int i=0;i<n;i++) m.e[i]=0; r.put(m,c); return r; }
// strictly decreasing distinct monomials, no zero coefficients, cached degrees right
static RP canonical(const PolyInt& p,const Ord& o){ RP r=refOf(p); vs_check(p.length()==r.n&&p.isZero()==(r.n==0)&&(bool)p==(r.n!=0),"length"); int k=0;
  for(PolyInt::ConstIterator i(p.begin()); i; ++i,++k){ vs_check(i.monom().degree()==r.m[k].deg(),"cached degree of a term"); vs_check(vs_zcmp(r.c[k],"0")!=0,"zero coefficient in a polynomial"); if(k) vs_check(rcmp(o,r.m[k-1],r.m[k])>0,"monomials strictly decreasing"); }
  vs_check(p.order()==o.code,"order kept"); return r; }
// the two sums are equal
static void equal(const RP& r,const RP& e,const char* w){
  for(int i=0;i<r.n;i++) vs_check(vs_zeq(r.c[i],coefAt(e,r.m[i])),w);         // r has distinct monomials
  for(int i=0;i<e.n;i++){ bool hit=false; for(int j=0;j<r.n&&!hit;j++) hit=same(r.m[j],e.m[i]); if(!hit) vs_check(vs_zeq(coefAt(e,e.m[i]),"0"),w); } }
static void is(const PolyInt& p,const RP& e,const Ord& o,const char* w){ RP r=canonical(p,o); equal(r,e,w); 
  if(r.n){ vs_check(same(refOf(p.lm()),r.m[0]),"leading monomial"); vs_check(p.degree()==r.m[0].deg(),"degree"); const char* c=keepz(p.lc().get_str(10)); vs_check(vs_zeq(c,r.c[0]),"leading coefficient"); } }
// untouched: exactly the same terms
static void still(const PolyInt& p,const RP& e,const char* w){ RP r=refOf(p); vs_check(r.n==e.n,w); if(r.n==e.n) for(int i=0;i<r.n;i++){ vs_check(same(r.m[i],e.m[i]),w); vs_check(vs_zeq(r.c[i],e.c[i]),w); } }
// a polynomial from its terms
static void addTerm(PolyInt& p,Allocator* al,const Ord& o,const Ref& m,const char* c){ Monom* x=mk(al,m); { PolyInt t(al,o.code,*x); t.mult(c); p.add(t); } delete x; }
static PolyInt* build(Allocator* al,const Ord& o,int n,const RP& r){ PolyInt* p=new PolyInt(al,o.code,n); for(int i=0;i<r.n;i++) addTerm(*p,al,o,r.m[i],r.c[i]); return p; }
static const char* const CN[]={"c0","c1","c2","c3","c4","c5"};
// n symbolic terms in strictly decreasing order
static RP terms(const Ord& o,int nv,int n,int64_t X,int64_t C,int pos0,int npos){ RP r; for(int i=0;i<n;i++){ Ref m=sym(nv,npos>1?pos0+vs_pick("pos",npos):pos0,X); if(i) vs_assume(rcmp(o,r.m[i-1],m)>0); r.put(m,keepz(vs_bigint(CN[i],-C,C,1))); } return r; }
