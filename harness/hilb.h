// Hilbert polynomial of a monomial ideal by inclusion-exclusion over least common multiples.
#pragma once
#include "monoms.h"
#include "util/hilbertpoly.h"
static void hp(const HilbertPoly& h,int nv,const Ref* g,int n,const char* msg){ HilbertPoly e(nv),t(nv); e.binomial(nv,nv); // inclusion-exclusion over least common multiples
  for(int S=1;S<(1<<n);S++){ int64_t d=0; int k=0; for(int i=0;i<n;i++) k+=S>>i&1; for(int v=0;v<nv;v++){ int64_t m=0; for(int i=0;i<n;i++) if(S>>i&1) m=m>g[i].e[v]?m:g[i].e[v]; d+=m; } t.binomial(nv-d,nv); if(k&1) e.sub(t); else e.add(t); }
  vs_check(h.dim()==nv,"dimension of a Hilbert polynomial"); int64_t D=1; for(int i=2;i<=nv;i++) D*=i; for(int k=0;k<=nv;k++) vs_check(vs_qtimes(h[k],D)==vs_qtimes(e[k],D),msg); }
