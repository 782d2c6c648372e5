// Monomials with symbolic exponents, built through the public interface.
#pragma once
#include "common.h"
#include <cassert>
#include <iostream>
#include "ginv/monom.h"
using namespace GInv;
#define MV 8
static const char* const EN[]={"e0","e1","e2","e3","e4","e5","e6","e7"};
struct Ref { int64_t e[MV]; int n,pos; int64_t deg() const { int64_t s=0; for(int i=0;i<n;i++) s+=e[i]; return s; } };
static Ref sym(int n,int pos,int64_t hi){ Ref r; r.n=n; r.pos=pos; for(int i=0;i<n;i++) r.e[i]=vs_int(EN[i],0,hi); return r; }
static Monom* mk(Allocator* al,const Ref& r){ Monom* m=new Monom(al,r.n,r.pos);
  for(int i=0;i<r.n;i++){ Monom x(al,i,r.n,-1); Monom p(al,x,(int)r.e[i]); m->mult(p); } return m; }
static void is(const Monom& m,const Ref& r,const char* w){ vs_check(m.size()==r.n,w); for(int i=0;i<r.n;i++) vs_check(m[i]==r.e[i],w);
  vs_check(m.degree()==r.deg(),"degree is the sum of the exponents"); vs_check(m.pos()==r.pos,"module position"); vs_check(m.isZero()==(r.deg()==0)&&(bool)m==(r.deg()!=0),"degree zero test"); }
static bool eq(const Ref& a,const Ref& b){ bool s=true; for(int i=0;i<a.n;i++) s=s&(a.e[i]==b.e[i]); return s; }
static Ref times(const Ref& a,const Ref& b){ Ref r=a; for(int i=0;i<a.n;i++) r.e[i]=a.e[i]+b.e[i]; r.pos=a.pos<0?b.pos:a.pos; return r; }
// textbook orders: 0 lexicographic, 1 degree reverse lexicographic, 2 anti-degree lexicographic
static int rlex(const Ref& a,const Ref& b){ int r=0; for(int i=a.n-1;i>=0;i--) r=a.e[i]>b.e[i]?1:a.e[i]<b.e[i]?-1:r; return r; }
static int rrev(const Ref& a,const Ref& b){ int r=0; for(int i=0;i<a.n;i++) r=a.e[i]>b.e[i]?-1:a.e[i]<b.e[i]?1:r; return r; }
static int rord(int o,const Ref& a,const Ref& b){ int64_t da=a.deg(),db=b.deg();
  switch(o){ case 0: return rlex(a,b); case 1: return da>db?1:da<db?-1:rrev(a,b); default: return da<db?1:da>db?-1:rlex(a,b); } }
// module orders: top selects term over position
static int rmod(bool top,int o,const Ref& a,const Ref& b){ int t=rord(o,a,b),p=a.pos>b.pos?1:a.pos<b.pos?-1:0; return top?(t?t:p):(p?p:t); }
static Ref refOf(const Monom& m){ Ref r; r.n=m.size(); r.pos=m.pos(); for(int i=0;i<r.n;i++) r.e[i]=m[i]; return r; }
