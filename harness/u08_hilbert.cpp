// U08: HilbertPoly arithmetic is exact.
#include "common.h"
#include <cassert>
#include <cstring>
#include <iostream>
#include "util/hilbertpoly.h"
using namespace GInv;
#define MD 7
static int64_t fact(int b){ int64_t r=1; for(int i=2;i<=b;i++) r*=i; return r; }
// b! * coefficients of binom(s+a,b), from the definition (s+a)(s+a-1)...(s+a-b+1)
static void ref(int64_t a,int b,int64_t* e){ for(int k=0;k<MD;k++) e[k]=0; e[0]=1; for(int i=0;i<b;i++){ for(int k=b;k>=0;k--) e[k]=(k?e[k-1]:0)+(a-i)*e[k]; } }
static void same(const HilbertPoly& h,int dim,const int64_t* num,int64_t den,const char* m){
  vs_check(h.dim()==dim,"dimension"); for(int k=0;k<=dim;k++){ vs_check(vs_qtimes(h[k],den)==num[k],m); vs_check(vs_qlowest(h[k]),"coefficient in lowest terms"); vs_check(h.isZero(k)==(num[k]==0),"zero coefficient"); } }
extern "C" void u08_binomial(){
  int dim=1+vs_pick("dim",TIER?6:5); int b=vs_pick("b",dim+1); int64_t a=vs_int("a",-3000,3000); int64_t e[MD];
  { HilbertPoly* h; if(vs_pick("how",2)){ h=new HilbertPoly(dim); } else { h=new HilbertPoly(); h->setDim(dim); }
    if(vs_pick("used",2)) h->binomial(7,dim);
    h->binomial(a,b); ref(a,b,e); same(*h,dim,e,fact(b),"binomial coefficients"); delete h; }
  vs_reach("end binomial"); }
extern "C" void u08_arith(){
  int dim=1+vs_pick("dim",TIER?4:3); int b=vs_pick("b",dim+1),c=vs_pick("c",dim+1); int64_t a=vs_int("a",-200,200),d=vs_int("d",-200,200); int64_t e[MD],f[MD],r[MD];
  { HilbertPoly h(dim),g(dim); h.binomial(a,b); g.binomial(d,c); ref(a,b,e); ref(d,c,f); int64_t D=fact(b)*fact(c);
    int op=vs_pick("op",5); int64_t m=op==2?vs_int("m",-1000000,1000000):-3;
    switch(op){ case 0: h.add(g); break; case 1: h.sub(g); break; case 2: h.mult((int)m); break; case 3: h.add(g); h.mult((int)m); h.sub(g); break; case 4: h.sub(h); break; }
    for(int k=0;k<MD;k++){ int64_t x=e[k]*fact(c),y=f[k]*fact(b); r[k]=op==0?x+y:op==1?x-y:op==2?m*e[k]*fact(c):op==3?m*(x+y)-y:0; }
    same(h,dim,r,D,"result coefficients"); if(op!=4) { for(int k=0;k<=dim;k++) vs_check(vs_qtimes(g[k],fact(c))==f[k],"operand unchanged"); } }
  vs_reach("end arith"); }
