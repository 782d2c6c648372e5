// J04 J05: basis construction.  The reference is a fraction-free Buchberger algorithm on the same coefficients.
#include "polys.h"
#include "hilb.h"
#include "ginv/poly_int.h"
static bool divides(const Ref& a,const Ref& b){ for(int k=0;k<a.n;k++) if(a.e[k]>b.e[k]) return false; return a.pos<0||a.pos==b.pos; }
static Ref conc(int nv,int code,int base,int pos){ Ref r; r.n=nv; r.pos=pos; for(int i=0;i<nv;i++){ r.e[i]=code%base; code/=base; } return r; }
static void tidy(RP& p,const Ord& o){ RP r; for(int i=0;i<p.n;i++){ bool hit=false; for(int j=0;j<r.n&&!hit;j++) if(same(r.m[j],p.m[i])){ r.c[j]=vs_zop('+',r.c[j],p.c[i]); hit=true; } if(!hit) r.put(p.m[i],p.c[i]); } 
  if(!vs_symbolic()){ const char* c="0"; for(int i=0;i<r.n;i++) c=vs_zop('g',c,r.c[i]); if(vs_zcmp(c,"0")) for(int i=0;i<r.n;i++) r.c[i]=vs_zop('/',r.c[i],c); }
  p.n=0; for(int i=0;i<r.n;i++) if(!vs_zeq(r.c[i],"0")){ int k=p.n; while(k>0&&rcmp(o,p.m[k-1],r.m[i])<0) k--; for(int j=p.n;j>k;j--){ p.m[j]=p.m[j-1]; p.c[j]=p.c[j-1]; } p.m[k]=r.m[i]; p.c[k]=r.c[i]; p.n++; } }
static RP combine(const RP& p,const char* a,const Ref& s,const RP& q,const char* b,const Ref& t,const Ord& o){ RP r; // a*s*p - b*t*q
  for(int i=0;i<p.n;i++) r.put(times(p.m[i],s),vs_zop('*',a,p.c[i])); for(int i=0;i<q.n;i++) r.put(times(q.m[i],t),vs_zop('-',"0",vs_zop('*',b,q.c[i]))); tidy(r,o); return r; }
static Ref quot(const Ref& a,const Ref& b){ Ref r=a; for(int i=0;i<a.n;i++) r.e[i]-=b.e[i]; r.pos=-1; return r; }
static Ref one(int nv){ return conc(nv,0,2,-1); }
#ifndef NG
#define NG 12
#endif
static RP rem(RP p,const RP* g,int n,const Ord& o){ for(int i=0;i<p.n;){ int j=0; for(;j<n;j++) if(g[j].n&&divides(g[j].m[0],p.m[i])) break; if(j<n) p=combine(p,g[j].c[0],one(p.m[0].n),g[j],p.c[i],quot(p.m[i],g[j].m[0]),o); else i++; } return p; }
static int buchberger(RP* g,int n,const Ord& o){ int m=0; for(int i=0;i<n;i++) if(g[i].n) g[m++]=g[i]; n=m;
  for(int i=1;i<n;i++) for(int j=0;j<i;j++){ const Ref &a=g[i].m[0],&b=g[j].m[0]; if(a.pos!=b.pos) continue; Ref l=a; bool cop=true; for(int v=0;v<a.n;v++){ l.e[v]=a.e[v]>b.e[v]?a.e[v]:b.e[v]; cop=cop&&(!a.e[v]||!b.e[v]); } if(cop&&a.pos<0) continue;
      RP s=rem(combine(g[i],g[j].c[0],quot(l,a),g[j],g[i].c[0],quot(l,b),o),g,n,o); if(s.n){ vs_assume(n<NG); g[n++]=s; } } return n; }
static bool inv(const Wrap& w,const Ref& q){ if(w.lm().pos()!=q.pos) return false; for(int v=0;v<q.n;v++) if(w.lm()[v]>q.e[v]||(w.lm()[v]<q.e[v]&&w.NM(v))) return false; return true; }
static void run(const Ord& o,int nv,const RP* f,int n,int how){ Allocator* al=new Allocator; int64_t before=Allocator::currMemory(); { JanetPolyInt J; PolyInt* p[4]; RP in[4],g[NG];
  bool any=false; for(int i=0;i<n;i++){ in[i]=f[i]; tidy(in[i],o); p[i]=build(al,o,nv,in[i]); vs_check(J.comparable(*p[i]),"polynomials of one ring"); J.push(*p[i]); g[i]=in[i]; any=any||in[i].n; if(how&4) J.build(); }
  if(any){ switch(how&3){ case 0: J.build(); break; case 1: J.algorithmTQ1(); break; case 2: J.algorithmTQ2(); break; default: J.algorithmTQ(); } 
  int k=buchberger(g,n,o); bool unit=false; for(int i=0;i<k;i++) if(g[i].m[0].pos<0&&g[i].m[0].deg()==0) unit=true;
  vs_check(J.isOne()==unit,"whole ring exactly when the ideal has a nonzero constant");
  if(!unit&&!J.isOne()){ int cnt=0; const Wrap* prev=nullptr; RP b[NG*2]; const Wrap* w[NG*2];
    for(GCListWrapPolyInt::ConstIterator j(J.begin()); j; ++j){ vs_check(cnt<NG*2,"basis size"); w[cnt]=j.data(); b[cnt]=canonical(j.data()->poly(),o); vs_check(b[cnt].n>0&&same(refOf(j.data()->lm()),b[cnt].m[0]),"element and its leading monomial"); vs_check(rem(b[cnt],g,k,o).n==0,"basis element belongs to the ideal"); vs_check(j.data()->poly().isPp(),"basis element is primitive"); if(cnt) vs_check(rcmp(o,b[cnt-1].m[0],b[cnt].m[0])<0,"basis sorted by leading monomial"); cnt++; }
    vs_check(J.size()==cnt,"basis size");
    for(int i=0;i<cnt;i++) for(int t=0;t<b[i].n;t++) for(int l=0;l<cnt;l++) if(l!=i||t) vs_check(!inv(*w[l],b[i].m[t]),"basis is involutively autoreduced");
    for(int i=0;i<n;i++) if(in[i].n){ PolyInt q(al,*p[i]); J.nf(q); vs_check(q.isZero(),"input reduces to zero"); }
    int i=0; for(GCListWrapPolyInt::ConstIterator j(J.begin()); j; ++j,++i) for(int v=0;v<nv;v++) if(j.data()->NM(v)){ PolyInt q(al,v,j.data()->poly()); J.nf(q); vs_check(q.isZero(),"non-multiplicative prolongation reduces to zero"); }
    for(int l=0;l<k;l++){ bool hit=false; for(int i=0;i<cnt&&!hit;i++) hit=inv(*w[i],g[l].m[0]); vs_check(hit,"leading monomials of the ideal are involutively divisible"); }
    if(how&8){ Ref m[NG]; int c=0; for(int l=0;l<k;l++){ bool red=false; for(int q=0;q<k&&!red;q++) red=q!=l&&divides(g[q].m[0],g[l].m[0])&&(q<l||!same(g[q].m[0],g[l].m[0])); if(!red) m[c++]=g[l].m[0]; } HilbertPoly h; J.buildHP(h); hp(h,nv,m,c,"Hilbert polynomial of a polynomial basis"); } }
  } for(int i=0;i<n;i++) delete p[i]; } vs_check(al->size()==0,"construction returns its storage"); delete al; (void)before; }
static const char* sc(int i,int C,bool nz=false){ return keepz(vs_bigint(CN[i],-C,C,nz)); }
static RP binom(const Ord& o,int nv,int npos,int X,int C,bool tail){ RP f; Ref a=sym(nv,npos?vs_pick("pos",npos):-1,X); f.put(a,"1"); if(tail){ Ref b=sym(nv,npos?vs_pick("pos",npos):-1,X); vs_assume(rcmp(o,a,b)>0); f.put(b,sc(0,C,true)); } return f; }
// one variable, coefficients
extern "C" void j04_uni(){ Ord o=mkord(0,true); int X=TIER?3:2; RP f[2]; for(int i=0;i<2;i++){ f[i]=binom(o,1,0,X,TIER||!i?2:1,i||vs_pick("tail",2)); f[i].c[0]=i?"1":sc(1,2,true); } run(o,1,f,2,0); vs_reach("end uni"); }
// linear forms
extern "C" void j04_linear(){ Ord o=mkord(TIER?vs_pick("order",2):1,true); int C=TIER?2:1; RP f[2]; for(int i=0;i<2;i++){ f[i].put(conc(2,1,2,-1),TIER||!i?sc(0,C):"1"); f[i].put(conc(2,2,2,-1),sc(1,C)); f[i].put(conc(2,0,2,-1),sc(2,C)); } run(o,2,f,2,0); vs_reach("end linear"); }
// two variables, exponents
extern "C" void j04_binom(){ Ord o=mkord(vs_pick("order",2),true); RP f[2]; for(int i=0;i<2;i++) f[i]=binom(o,2,0,TIER||i?2:1,1,i||vs_pick("tail",2)); run(o,2,f,2,0); vs_reach("end binom"); }
// three elements, pushed in any order, two of them monomials
extern "C" void j04_three(){ int nv=2+TIER; Ord o=mkord(vs_pick("order",2),true); RP f[3]; for(int i=0;i<3;i++) f[i]=binom(o,nv,0,i&&!TIER?2:1,1,i==0); run(o,nv,f,3,0); vs_reach("end three"); }
// module elements
extern "C" void j04_module(){ int nv=1+TIER; Ord o=mkord(vs_pick("order",2),vs_pick("top",2)); RP f[2]; for(int i=0;i<2;i++) f[i]=binom(o,nv,2,TIER?1:2,1,i||vs_pick("tail",2)); run(o,nv,f,2,0); vs_reach("end module"); }
extern "C" void j04_again(){ Ord o=mkord(vs_pick("order",2),true); RP f[2]; for(int i=0;i<2;i++) f[i]=binom(o,2,0,1,1,true); run(o,2,f,2,4); vs_reach("end again"); }
#ifdef EXPLORE
extern "C" void j04_x(){ int ord=vs_pick("order",2); Ord o=mkord(ord,vs_pick("top",2)); int nv=1+vs_pick("nv",3),n=1+vs_pick("n",3),mod=vs_pick("mod",3); RP f[3]; for(int i=0;i<n;i++){ int t=1+vs_pick("terms",3); for(int k=0;k<t;k++){ Ref r; r.n=nv; r.pos=mod?vs_pick("pos",2):-1; for(int v=0;v<nv;v++) r.e[v]=vs_pick("e",DEG+1); f[i].put(r,keepz(vs_bigint("c",-3,3,0))); } } run(o,nv,f,n,HOW); vs_reach("x"); }
#endif
// a monomial and a binomial
extern "C" void j04_mixed(){ int nv=1+vs_pick("nv",2),X=TIER?3:2; Ord o=mkord(nv==1?0:vs_pick("order",2),true); RP f[2]; for(int i=0;i<2;i++) f[i]=binom(o,nv,0,X,1,i==1); run(o,nv,f,2,0); vs_reach("end mixed"); }
extern "C" void j04_cube(){ Ord o=mkord(vs_pick("order",2),true); RP f[2]; for(int i=0;i<2;i++) f[i]=binom(o,3,0,1,1,i==1); run(o,3,f,2,0); vs_reach("end cube"); }
extern "C" void j05_poly(){ int nv=1+vs_pick("nv",2),X=TIER?3:2; Ord o=mkord(nv==1?0:vs_pick("order",2),true); RP f[2]; for(int i=0;i<2;i++) f[i]=binom(o,nv,0,X,1,i==1); run(o,nv,f,2,8); vs_reach("end poly"); }
