// Sets of monomials and Janet division from its definition.
#pragma once
#include "monoms.h"
#include <vector>
#include "ginv/wrap.h"
#include "ginv/janet.h"
static bool divides(const Ref& a,const Ref& b){ bool d=true; for(int k=0;k<a.n;k++) d=d&(a.e[k]<=b.e[k]); return d; }
// v is non-multiplicative for s[i]: another element agrees on the variables before v and is larger at v
static bool rNM(const Ref* s,int n,int i,int v){ bool r=false; for(int j=0;j<n;j++) if(j!=i){ bool c=s[j].e[v]>s[i].e[v]; for(int k=0;k<v;k++) c=c&(s[j].e[k]==s[i].e[k]); r=r|c; } return r; }
static bool rInv(const Ref* s,int n,int i,const Ref& m){ bool d=true; for(int v=0;v<m.n;v++) d=d&(s[i].e[v]<=m.e[v])&((s[i].e[v]==m.e[v])|!rNM(s,n,i,v)); return d; }

