// Random differential test of the term layer: simplified terms against direct
// evaluation, and the solver translation against both.
#include "expr.h"
#include <random>
Z3_context Z;
int main(int argc,char**argv){
  int rounds=argc>1?atoi(argv[1]):400; std::mt19937_64 g(argc>2?atoi(argv[2]):1);
  Z3_config cfg=Z3_mk_config(); Z=Z3_mk_context_rc(cfg); Z3_solver S=Z3_mk_solver_for_logic(Z,Z3_mk_string_symbol(Z,"QF_BV")); Z3_solver_inc_ref(Z,S);
  uint64_t mid=1; int solved=0; long ints=0;
  auto rnd=[&](int n){ return (int)(g()%n); };
  for(int r=0;r<rounds;r++){
    struct N { E e; APInt v; }; std::vector<N> p; Model m; m.id=++mid; 
    unsigned ws[]={8,16,32,64,5,13}; int nv=3+rnd(4); size_t v0=gVars.size();
    for(int i=0;i<nv;i++){ unsigned w=ws[rnd(6)]; i128 lo=sMin(w),hi=sMax(w); if(rnd(3)){ i128 a=(i128)(int64_t)g()%(hi+1),b=a+rnd(20); if(rnd(2)){ a=-rnd(10); b=rnd(4000); } if(a<lo) a=lo; if(b>hi) b=hi; if(a<=b){ lo=a; hi=b; } }
      E e=mkVar("x"+std::to_string(gVars.size()),w,lo,hi); i128 val=lo+(i128)(g()>>1)%(hi-lo+1); p.push_back({e,s2ap(val,w)}); }
    m.val.resize(gVars.size(),APInt(1,0)); m.has.assign(gVars.size(),0); for(int i=0;i<nv;i++){ m.val[v0+i]=p[i].v; m.has[v0+i]=1; }
    for(int k=0;k<60;k++){
      N a=p[rnd(p.size())]; N c=p[rnd(p.size())]; 
      if(rnd(4)==0){ APInt q(a.v.getBitWidth(),rnd(3)?(uint64_t)(int64_t)(rnd(40)-12):g(),true); if(rnd(5)==0) q=APInt(q.getBitWidth(),1).shl(rnd(q.getBitWidth())); if(rnd(6)==0) q=~APInt::getLowBitsSet(q.getBitWidth(),rnd(q.getBitWidth())); c={mkC(q),q}; }
      if(rnd(12)==0) std::swap(a,c);
      int o=rnd(24); E e; APInt v(1,0); unsigned wa=a.e->w,wc=c.e->w;
      if(o<17){ if(wc!=wa){ bool s=rnd(2); if(wc<wa){ c.e=s?mkSext(c.e,wa):mkZext(c.e,wa); c.v=s?c.v.sext(wa):c.v.zext(wa);} else { c.e=mkExtract(c.e,0,wa); c.v=c.v.trunc(wa);} }
        static Op ops[]={O_ADD,O_SUB,O_ADD,O_SUB,O_MUL,O_UDIV,O_SDIV,O_UREM,O_SREM,O_SHL,O_LSHR,O_AND,O_OR,O_XOR,O_EQ,O_ULT,O_SLT}; Op op=ops[o];
        if((op==O_SDIV||op==O_SREM)&&a.v.isMinSignedValue()) continue; if(wa==1&&(op==O_UDIV||op==O_SDIV||op==O_UREM||op==O_SREM||op==O_SHL||op==O_LSHR)) continue;
        if((op==O_UDIV||op==O_SDIV||op==O_UREM||op==O_SREM)&&c.v.isZero()) continue;
        if(op==O_EQ||op==O_ULT||op==O_SLT){} e=mkBin(op,a.e,c.e); v=foldBin(op,a.v,c.v); }
      else if(o==17){ if(wa>=64) continue; unsigned w=wa+1+rnd(64-wa); e=mkZext(a.e,w); v=a.v.zext(w); }
      else if(o==18){ if(wa>=64) continue; unsigned w=wa+1+rnd(64-wa); e=mkSext(a.e,w); v=a.v.sext(w); }
      else if(o==19||o==20){ if(wa<2) continue; unsigned lo=o==19?0:rnd(wa),w=1+rnd(wa-lo); e=mkExtract(a.e,lo,w); v=a.v.extractBits(w,lo); }
      else if(o==21){ if(wa+wc>64) continue; e=mkConcat(a.e,c.e); v=a.v.concat(c.v); }
      else if(o==22){ e=mkNot(a.e); v=~a.v; }
      else { N b=p[rnd(p.size())]; E cond=b.e->w==1?b.e:mkBin(O_EQ,b.e,mkC(APInt(b.e->w,0))); bool cv=b.e->w==1?!b.v.isZero():b.v.isZero(); if(wc!=wa){ if(wc<wa){ c.e=mkSext(c.e,wa); c.v=c.v.sext(wa);} else { c.e=mkExtract(c.e,0,wa); c.v=c.v.trunc(wa);} } e=mkIte(cond,a.e,c.e); v=cv?a.v:c.v; }
      const APInt&x=evalE(e,m); i128 sv=apS(v);
      if(e->w!=v.getBitWidth()||x!=v||sv<e->lo||sv>e->hi){ printf("MISMATCH round %d step %d op %d: width %u/%u range %d\n",r,k,o,e->w,v.getBitWidth(),(int)(sv<e->lo||sv>e->hi)); return 1; }
      p.push_back({e,v}); }
    // integer reading of every term that has one
    { std::vector<Z3_ast> from,to; for(int i=0;i<nv;i++){ Z3_ast x=toInt(p[i].e); llvm::SmallString<64> t; p[i].v.toString(t,10,true); from.push_back(x); to.push_back(K(Z3_mk_numeral(Z,t.c_str(),Z3_get_sort(Z,x)))); }
      for(N&n:p){ Z3_ast x=n.e->w==1?toIntB(n.e):toInt(n.e); if(!x) continue; Z3_ast y=K(Z3_simplify(Z,K(Z3_substitute(Z,x,from.size(),from.data(),to.data())))); bool ok;
        if(n.e->w==1) ok=Z3_get_bool_value(Z,y)==(n.v.isZero()?Z3_L_FALSE:Z3_L_TRUE); else { llvm::SmallString<64> t; n.v.toString(t,10,true); ok=std::string(Z3_get_numeral_string(Z,y))==t.c_str(); }
        if(!ok){ printf("INTEGER MISMATCH round %d\n",r); return 1; } ints++; } }
    // solver agreement: the last terms under the fixed assignment
    if(r%4==0){ Z3_solver_reset(Z,S); for(int i=0;i<nv;i++) Z3_solver_assert(Z,S,toBool(mkRaw(O_EQ,1,p[i].e,mkC(p[i].v)))); 
      std::vector<Z3_ast> ne; for(size_t i=p.size()-8;i<p.size();i++){ E e=p[i].e; if(isC(e)) continue; Z3_ast q; if(e->w==1) q=p[i].v.isZero()?toBool(e):K(Z3_mk_not(Z,toBool(e))); else { Z3_ast r=K(Z3_mk_eq(Z,toBV(e),toBV(mkC(p[i].v)))); q=K(Z3_mk_not(Z,r)); } ne.push_back(q); }
      if(ne.size()){ Z3_solver_assert(Z,S,Z3_mk_or(Z,ne.size(),ne.data())); if(Z3_solver_check(Z,S)!=Z3_L_FALSE){ printf("SOLVER MISMATCH round %d\n",r); return 1; } solved++; } }
  }
  for(int r=0;r<rounds;r++){ // expanded products, at widths where they may wrap
    Model m; m.id=++mid; size_t v0=gVars.size(); m.val.resize(v0+3,APInt(1,0)); m.has.resize(v0+3,0); unsigned w=8+rnd(60); E x[3];
    for(int i=0;i<3;i++){ int64_t lim=1ll<<(2+rnd(w/3)); if(w<=62&&lim>((1ll<<(w-2)))) lim=1ll<<(w-2); E e=mkVar("q",w,-lim,lim); m.val[v0+i]=s2ap((i128)((int64_t)(g()%(uint64_t)(2*lim+1))-lim),w); m.has[v0+i]=1; x[i]=e; }
    auto C=[&](int64_t k){ return mkC(APInt(w,(uint64_t)k,true)); }; int64_t p=rnd(9)-4,q=rnd(9)-4; auto A=[&](E a,E b){ return mkBin(O_ADD,a,b); }; auto U=[&](E a,E b){ return mkBin(O_MUL,a,b); };
    E l=U(A(x[0],C(p)),A(U(x[1],C(2)),A(x[2],C(q)))), h=A(U(x[0],A(x[2],C(q))),A(U(U(x[0],x[1]),C(2)),A(U(x[1],C(2*p)),A(U(x[2],C(p)),C(p*q+rnd(3)-1)))));
    for(Op op:{O_EQ,O_SLT}){ E e=mkBin(op,l,h),f=mkBin(op,h,l); APInt a=evalE(l,m),b=evalE(h,m); 
      if(evalE(e,m)!=foldBin(op,a,b)||evalE(f,m)!=foldBin(op,b,a)){ printf("MISMATCH product round %d width %u\n",r,w); return 1; } } }
  for(int r=0;r<rounds;r++){ // doubles
    struct N { E e; double v; }; std::vector<N> p; Model m; m.id=++mid; size_t v0=gVars.size(); m.val.resize(v0+4,APInt(1,0)); m.has.resize(v0+4,0);
    for(int i=0;i<4;i++){ int64_t lim=1ll<<(5+rnd(45)); int64_t lo=rnd(2)?0:-lim; E e=mkVar("d",64,lo,lim); int64_t x=lo+(int64_t)(g()%(uint64_t)(lim-lo+1)); m.val[v0+i]=APInt(64,(uint64_t)x,true); m.has[v0+i]=1; p.push_back({mkRaw(O_SITOFP,64,e),(double)x}); }
    double cs[]={0.0,1.0,2.0,64.0,0.5,3.0,0.015625,0.1,-1.0,-0.0}; for(double c:cs) p.push_back({mkC(dAp(c)),c});
    for(int k=0;k<40;k++){ N a=p[rnd(p.size())],b=p[rnd(p.size())]; static Op ops[]={O_FADD,O_FSUB,O_FMUL,O_FDIV,O_FEQ,O_FLT,O_FLE}; Op op=ops[rnd(7)]; if(op==O_FDIV&&b.v==0) continue; E e=mkBin(op,a.e,b.e); APInt v=foldBin(op,dAp(a.v),dAp(b.v));
      if(evalE(e,m)!=v){ printf("MISMATCH double round %d op %d: %g %g\n",r,op,a.v,b.v); return 1; } if(e->w==64&&apD(v)==apD(v)) p.push_back({e,apD(v)}); } }
  printf("term layer: %d rounds, %d solver agreements, %ld integer readings\n",rounds,solved,ints); return 0; }
