// vse: symbolic executor for LLVM IR (single-threaded C++), deciding harness
// assertions with Z3.  See /verif/DESIGN.md for the model and its limits.
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <unistd.h>
#include <signal.h>
#include <map>
#include <set>
#include <deque>
#include <memory>
#include <functional>
#include <chrono>
#include <fstream>
#include <sstream>
#include "expr.h"
using namespace llvm;
Z3_context Z; static Z3_solver S, S1, S0;

// ---------------------------------------------------------------- options/stats
static double optTime=600; static unsigned optQueryMs=30000; static uint64_t optInstr=3000000; static int optJobs=8;
static int optMaxViol=6; static bool optVerbose=false; static unsigned optFrontier=400; static unsigned optPerMsg=2;
static double now(){ using namespace std::chrono; return duration<double>(steady_clock::now().time_since_epoch()).count(); }
static double tStart;
struct Stats { uint64_t paths=0,forks=0,instrs=0,queries=0,cacheHits=0,modelHits=0,unknown=0,checks=0,checksTrivial=0,checksSolver=0,terms=0,dropped=0,guessed=0,ints=0; double solver=0; };
static Stats gS;
static std::set<std::string> gFuncs, gIncomplete; static std::map<std::string,uint64_t> gReached, gCheckMsgs;
struct Shared { volatile int next; volatile int viol; volatile int stop; volatile int active; volatile int procs; };
static Shared* gShared;

// ---------------------------------------------------------------- values
struct Val { E e=nullptr; uint64_t c=0; unsigned w=0; };
static inline uint64_t maskw(unsigned w){ return w>=64?~0ull:((1ull<<w)-1); }
static inline Val VC(uint64_t c,unsigned w){ Val v; v.w=w; v.c=c&maskw(w); return v; }
static inline Val VE(E e){ Val v; v.w=e->w; if(isC(e)&&e->w<=64) v.c=e->v.getZExtValue(); else v.e=e; return v; }
static inline E toE(const Val&v){ return v.e?v.e:mkCu(v.c,v.w); }
static inline int64_t sx(uint64_t c,unsigned w){ if(w>=64) return (int64_t)c; uint64_t m=1ull<<(w-1); return (int64_t)((c^m)-m); }

// ---------------------------------------------------------------- program decode
struct Opnd { int slot; Val c; unsigned n; std::vector<Val> agg; };
struct GepStep { Opnd idx; int64_t scale; };
struct DInst { unsigned opc; Instruction* I; int dst; unsigned dn; std::vector<Opnd> ops; unsigned w; 
  std::vector<GepStep> gep; int64_t goff; int t0,t1; std::vector<std::pair<APInt,int>> cases; struct DFunc* callee; int intrin; std::string cname;
  unsigned pred; uint64_t sz; std::vector<std::pair<unsigned,uint64_t>> lay; unsigned aggOff; };
struct DBlock { std::vector<DInst> phis; std::vector<DInst> ins; BasicBlock* bb; std::map<int,int> predIdx; };
struct DFunc { Function* F; std::string name; bool decoded=false; std::vector<DBlock> blocks; unsigned nslots=0; std::vector<std::pair<int,unsigned>> args;
  std::map<BasicBlock*,int> bidx; int handler=-1; uint64_t addr=0; bool counted=false; };

static LLVMContext LC; static std::unique_ptr<Module> M; static const DataLayout* DL;
static std::unordered_map<const Function*,DFunc*> gFn; static std::map<uint64_t,DFunc*> gFnAddr;
static std::unordered_map<const GlobalVariable*,uint64_t> gGlobAddr;

// ---------------------------------------------------------------- state
struct Obj { uint64_t base,size; uint8_t kind; bool freed=false; bool pool=false; bool ro=false; std::vector<uint8_t> d,f; std::map<uint32_t,Val> sym; };
enum { K_GLOBAL,K_STACK,K_HEAP,K_GMP,K_AA };
typedef std::shared_ptr<Obj> ObjP;
struct Frame { DFunc* f; int bb; unsigned ip; std::vector<Val> r; std::vector<uint64_t> allocas; DInst* call; int hook; uint64_t h0,h1,h2; };
struct Block { uint64_t n; uint64_t owner; };
struct Input { std::string name; char kind; E e; std::string lit; };
struct State {
  std::vector<Frame> st; std::map<uint64_t,ObjP> mem; uint64_t brk; 
  std::vector<E> pc; std::unordered_map<E,bool> known; std::shared_ptr<Model> model;
  std::map<std::string,int> names; std::vector<Input> in; std::map<uint64_t,Block> blocks;
  uint64_t instrs=0; uint64_t heap=0; std::vector<uint64_t> atexit_; bool done=false; std::map<uint64_t,int> gmpq; std::map<std::vector<uint32_t>,E> ztab; /* (size, limb ids...) -> signed value, valid on this path */ int depth=0; bool hooks=true; std::set<std::pair<uint32_t,uint32_t>> cop; /* factors known to be coprime */
};
static std::map<uint64_t,ObjP> gRO;
typedef std::unique_ptr<State> SP;
static std::deque<SP> work;
struct PathEnd {}; // thrown to end a path
static uint64_t gModelId=1;

struct Viol { std::string kind,msg,where,fn; std::vector<std::pair<std::string,std::string>> in; bool spent=false; };
static std::vector<Viol> gViol; static std::map<std::string,int> gViolCnt;

static std::string dem(const std::string&n){ return llvm::demangle(n); }
static std::string whereS(State&s){ std::string r; int k=0; for(auto it=s.st.rbegin();it!=s.st.rend()&&k<8;++it,++k){ if(k) r+=" < "; std::string d=dem(it->f->name); if(d.size()>110) d=d.substr(0,110); r+=d; } return r; }
static std::string lit(const Input&i,const Model&m){
  if(!i.e) return i.lit; SmallString<64> t; evalE(i.e,m).toString(t,10,i.kind!='u'); return std::string(t.str()); }
static void violation(State&s,const std::string&kind,const std::string&msg,std::shared_ptr<Model> m=nullptr){
  if(!m) m=s.model;
  std::string key=kind+"|"+msg; if(gViolCnt[key]++<(int)optPerMsg){
    Viol v; v.kind=kind; v.msg=msg; v.where=whereS(s); v.fn=s.st.empty()?"":s.st.back().f->name;
    for(auto&i:s.in) v.in.push_back({i.name,lit(i,*m)});
    gViol.push_back(v); if(optVerbose) errs()<<"VIOL "<<kind<<" "<<msg<<" @ "<<v.where<<"\n"; 
    if(__sync_add_and_fetch(&gShared->viol,1)>=optMaxViol) gShared->stop=1;
  }
}
static void incomplete(const std::string&m){ if(gIncomplete.insert(m).second&&optVerbose) errs()<<"INCOMPLETE "<<m<<"\n"; }

// ---------------------------------------------------------------- solver
struct CacheEnt { int res; std::shared_ptr<Model> m; };
struct VecHash { size_t operator()(const std::vector<uint32_t>&v) const { size_t h=v.size(); for(auto x:v) h^=x+0x9e3779b97f4a7c15ull+(h<<6)+(h>>2); return h; } };
static std::unordered_map<std::vector<uint32_t>,CacheEnt,VecHash> gCache;
static std::unordered_map<int,E> gRangeC; // var -> range constraint (or true)
static E rangeC(int v){
  auto it=gRangeC.find(v); if(it!=gRangeC.end()) return it->second;
  VarInfo&vi=gVars[v]; E r=TRUE_();
  if(vi.w>1&&vi.w<=126&&(vi.lo>sMin(vi.w)||vi.hi<sMax(vi.w))){ // build raw, bypassing range-based folding
    Expr x; E lo=mkC(s2ap(vi.lo,vi.w)),hi=mkC(s2ap(vi.hi,vi.w));
    E a=mkRaw(O_SLT,1,vi.e,lo),b=mkRaw(O_SLT,1,hi,vi.e);
    r=mkRaw(O_AND,1,mkNot(a),mkNot(b)); (void)x; }
  gRangeC[v]=r; return r;
}
// satisfying assignments that a few structured guesses find without the solver (long multiplications)
static std::shared_ptr<Model> guess(State&s,const std::vector<E>&cs,E extra,const std::set<int>&vs){
  static uint64_t rs=88172645463325252ull; auto rnd=[&]{ rs^=rs<<13; rs^=rs>>7; rs^=rs<<17; return rs; };
  for(int t=0;t<500;t++){
    auto m=std::make_shared<Model>(*s.model); m->id=++gModelId; m->val.resize(gVars.size(),APInt(1,0)); m->has.resize(gVars.size(),0);
    for(int v:vs){ unsigned w=gVars[v].w; const VarInfo&vi=gVars[v]; bool rng=w<=126; int k=rnd()%8; 
      if(k==0&&m->has[v]&&m->val[v].getBitWidth()==w) continue;
      APInt x(w,0); for(unsigned i=0;i<w;i+=64){ APInt y(w,rnd()); x=x.shl(std::min(64u,w-1))|y; }
      if(k>=6) x=APInt(w,rnd()%(w>1?3:2)); else if(k==1&&rng) x=s2ap(vi.lo,w); else if(k==2&&rng) x=s2ap(vi.hi,w); else if(k==3||k==1){ x=APInt(w,0); if(w>1){ x.setBit(rnd()%w); if(rnd()&1) x-=1; } } else if(k==4||k==2){ x=APInt::getAllOnes(w); if(w>1){ x=x.lshr(rnd()%w); } } 
      if(rng){ i128 y=apS(x); if(y<vi.lo||y>vi.hi){ unsigned __int128 span=(unsigned __int128)(vi.hi-vi.lo)+1; y=vi.lo+(i128)(span?((unsigned __int128)y%span):0); x=s2ap(y,w); } }
      m->val[v]=x; m->has[v]=1; }
    bool ok=!evalE(extra,*m).isZero(); for(size_t i=0;ok&&i<cs.size();i++) ok=!evalE(cs[i],*m).isZero();
    if(ok) return m; }
  return nullptr; }
// terms with a symbolic gcd in them are kept away from the solver as long as possible
static bool heavy(E e){ static std::unordered_map<E,char> memo; auto it=memo.find(e); if(it!=memo.end()) return it->second;
  bool r=e->op==O_GCD||(e->a&&heavy(e->a))||(e->b&&heavy(e->b))||(e->c&&heavy(e->c)); memo[e]=r; return r; }
// solve conj(relevant pc) /\ extra ; returns 1 sat,0 unsat,-1 unknown ; merged model when sat
static int solve(State&s,E extra,std::shared_ptr<Model>*out){
  // slicing
  std::vector<char> used(s.pc.size(),0); std::set<int> vs(varsOf(extra).begin(),varsOf(extra).end());
  bool ch=true; std::vector<E> cs; const std::vector<E>&all=cs;
  while(ch){ ch=false; for(size_t i=0;i<s.pc.size();i++) if(!used[i]){ const auto&v=varsOf(s.pc[i]); bool hit=false; for(int x:v) if(vs.count(x)){ hit=true; break; }
      if(hit){ used[i]=1; cs.push_back(s.pc[i]); for(int x:v) if(vs.insert(x).second) ch=true; } } }
  std::vector<uint32_t> key; for(E e:cs) key.push_back(e->id); std::sort(key.begin(),key.end()); key.push_back(extra->id);
  auto merge=[&](std::shared_ptr<Model> sm){ auto m=std::make_shared<Model>(*s.model); m->id=++gModelId; m->val.resize(gVars.size(),APInt(1,0)); m->has.resize(gVars.size(),0);
    for(int v:vs){ m->has[v]=1; if((size_t)v<sm->val.size()&&sm->has[v]) m->val[v]=sm->val[v]; else { i128 d=(gVars[v].lo<=0&&gVars[v].hi>=0)?(i128)0:gVars[v].lo; m->val[v]=s2ap(d,gVars[v].w);} } return m; };
  auto it=gCache.find(key);
  if(it!=gCache.end()){ gS.cacheHits++; if(it->second.res==1&&out) *out=merge(it->second.m); return it->second.res; }
  double t0=now(); gS.queries++;
  int res=-1; std::shared_ptr<Model> sm;
  // first without the constraints that mention a symbolic gcd; a model that happens to satisfy them settles it
  std::vector<E> light; for(E e:cs) if(!heavy(e)) light.push_back(e);
  bool split=light.size()!=cs.size()&&!heavy(extra);
  auto attempt=[&](const std::vector<E>&cs){ res=-1; sm=nullptr;
  // short bit-vector attempt; linear integers; guesses; nonlinear integers; full bit-vector solver
  int ik=toIntB(extra)?extra->zi:0; for(E e:cs) if(ik){ ik=toIntB(e)?std::max(ik,(int)e->zi):0; }
  if(ik) for(int v:vs) if(gVars[v].w>126) ik=0;
  for(int stage=0;stage<5&&res==-1;stage++){
    bool ints=stage==1||stage==3; if(stage==1&&ik!=2) continue; if(stage==3&&ik!=3) continue;
    if(stage==2){ if(auto g=guess(s,cs,extra,vs)){ sm=g; res=1; gS.guessed++; } continue; }
    Z3_solver T=stage==0?S1:ints?S0:S; double t1=now();
    if(T==S) Z3_solver_reset(Z,T); else Z3_solver_push(Z,T);
    for(int v:vs){ if(ints){ if(gVars[v].w==1) continue; Z3_ast x=toInt(gVars[v].e); Z3_sort is=Z3_get_sort(Z,x);
        auto n=[&](i128 k){ llvm::SmallString<64> st; s2ap(k,128).toString(st,10,true); return K(Z3_mk_numeral(Z,st.c_str(),is)); };
        Z3_solver_assert(Z,T,Z3_mk_ge(Z,x,n(gVars[v].lo))); Z3_solver_assert(Z,T,Z3_mk_le(Z,x,n(gVars[v].hi))); }
      else { E r=rangeC(v); if(!isTrue(r)) Z3_solver_assert(Z,T,toBool(r)); } }
    for(E e:cs) Z3_solver_assert(Z,T,ints?toIntB(e):toBool(e));
    Z3_solver_assert(Z,T,ints?toIntB(extra):toBool(extra));
    Z3_lbool r=Z3_solver_check(Z,T); res=r==Z3_L_TRUE?1:r==Z3_L_FALSE?0:-1; if(ints&&res!=-1) gS.ints++;
    if(res==1){ Z3_model zm=Z3_solver_get_model(Z,T); if(!zm){ res=-1; } else { Z3_model_inc_ref(Z,zm); sm=std::make_shared<Model>(); sm->id=++gModelId; sm->val.resize(gVars.size(),APInt(1,0)); sm->has.resize(gVars.size(),0);
      for(int v:vs){ Z3_ast a; Z3_ast q=gVars[v].w==1?toBool(gVars[v].e):ints?toInt(gVars[v].e):toBV(gVars[v].e);
        if(Z3_model_eval(Z,zm,q,true,&a)){ 
          if(gVars[v].w==1){ Z3_lbool b=Z3_get_bool_value(Z,a); sm->val[v]=APInt(1,b==Z3_L_TRUE); sm->has[v]=1; }
          else { std::string str=Z3_get_numeral_string(Z,a); sm->val[v]=APInt(gVars[v].w,str,10); sm->has[v]=1; } } }
      Z3_model_dec_ref(Z,zm);
      if(ints){ auto m=merge(sm); bool ok=!evalE(extra,*m).isZero(); for(E e:cs) ok=ok&&!evalE(e,*m).isZero(); if(!ok){ incomplete("integer reading disagrees with the bit-vector term"); res=-1; } } } }
    if(getenv("VSE_DUMP")&&now()-t1>0.35){ static int k=0; std::ofstream o("/tmp/q/"+std::to_string(getpid())+"_"+std::to_string(k++)+".smt2"); o<<Z3_solver_to_string(Z,T)<<"(check-sat)\n"; }
    if(T==S) Z3_solver_reset(Z,T); else Z3_solver_pop(Z,T,1);
  }
  };
  bool gcds=light.size()!=cs.size()||heavy(extra);
  // a symbolic gcd is a free term for the solver: its models are checked against the real gcd, and coprimality is refined prime by prime
  auto genuine=[&]{ auto m=merge(sm); if(evalE(extra,*m).isZero()) return false; for(E e:all) if(evalE(e,*m).isZero()) return false; return true; };
  for(int round=split?0:1;round<2&&res==-1;round++){ std::vector<E> c=round?all:light;
    for(int k=0;k<16;k++){ attempt(c); if(res!=1||!gcds||genuine()) break;
      auto m=merge(sm); bool more=false; res=-1;
      for(E e:all) if(e->op==O_EQ&&e->a->op!=O_CONST&&isC(e->b)&&e->b->v.isOne()&&evalE(e,*m).isZero()){ E g=e->a; while(g->op==O_ZEXT||g->op==O_SEXT||(g->op==O_EXTRACT&&g->p==0)) g=g->a; if(g->op!=O_GCD) continue; 
          APInt v=evalE(g,*m); if(v.isZero()) { c.push_back(mkNot(mkBin(O_AND,mkBin(O_EQ,g->a,mkC(APInt(g->w,0))),mkBin(O_EQ,g->b,mkC(APInt(g->w,0)))))); more=true; continue; }
          uint64_t n=v.getLimitedValue(1u<<20),p=2; while(p*p<=n&&n%p) p++; if(p*p>n) p=n; if(p<2||p>=(1u<<20)||g->w<22) { if(g->w<22&&p<(1ull<<(g->w-1))) ; else continue; }
          E P=mkC(APInt(g->w,p)),Z0=mkC(APInt(g->w,0)); c.push_back(mkNot(mkBin(O_AND,mkBin(O_EQ,mkBin(O_SREM,g->a,P),Z0),mkBin(O_EQ,mkBin(O_SREM,g->b,P),Z0)))); more=true; }
      if(!more) break; }
    if(res==-1&&sm==nullptr) ; 
    if(res==-1&&gcds) if(auto g=guess(s,all,extra,vs)){ sm=g; res=1; gS.guessed++; } }
  if(res==-1){ gS.unknown++; if(getenv("VSE_UNK")){ std::ofstream o("/tmp/q/u"+std::to_string(getpid())+"_"+std::to_string(gS.unknown)+".smt2"); for(E e:cs) o<<"; "<<heavy(e)<<"\n"<<Z3_ast_to_string(Z,toBool(e))<<"\n"; o<<";;extra\n"<<Z3_ast_to_string(Z,toBool(extra))<<"\n"; } }
  double dt=now()-t0; gS.solver+=dt;
  if(optVerbose&&dt>2) errs()<<"slow query "<<dt<<"s res="<<res<<" constraints="<<cs.size()<<"\n";
  if(gCache.size()>400000) gCache.clear();
  gCache[key]={res,sm}; if(res==1&&out) *out=merge(sm);
  return res;
}
static void addPC(State&s,E c){ if(isC(c)) return; 
  if(c->op==O_AND){ addPC(s,c->a); addPC(s,c->b); s.known[c]=true; return; }
  bool pos=true; E a=c; if(isNot1(a)){ pos=false; a=a->a; }
  if(!pos&&a->op==O_OR){ addPC(s,mkNot(a->a)); addPC(s,mkNot(a->b)); s.known[a]=false; return; }
  s.known[a]=pos; s.pc.push_back(c); }
static int lookupKnown(State&s,E c){ // 1 true 0 false -1 unknown
  if(isC(c)) return isTrue(c);
  if(isNot1(c)){ int r=lookupKnown(s,c->a); return r<0?-1:1-r; }
  auto it=s.known.find(c); if(it!=s.known.end()) return it->second;
  if(c->op==O_AND){ int x=lookupKnown(s,c->a); if(x==0) return 0; int y=lookupKnown(s,c->b); if(y==0) return 0; if(x==1&&y==1) return 1; }
  else if(c->op==O_OR){ int x=lookupKnown(s,c->a); if(x==1) return 1; int y=lookupKnown(s,c->b); if(y==1) return 1; if(x==0&&y==0) return 0; }
  else if(c->op==O_ITE&&c->w==1){ int x=lookupKnown(s,c->a); if(x>=0) return lookupKnown(s,x?c->b:c->c); }
  return -1;
}
static SP cloneState(State&s){ gS.forks++; return std::make_unique<State>(s); }
static void pushWork(SP n){ n->depth++; work.push_back(std::move(n)); }
// decide a boolean; may fork (the sibling re-executes the current instruction)
static bool decide(State&s,E c){
  if(isC(c)) return isTrue(c);
  if(isNot1(c)) return !decide(s,c->a);
  int k=lookupKnown(s,c); if(k>=0) return k;
  bool v=!evalE(c,*s.model).isZero(); gS.modelHits++;
  E other=v?mkNot(c):c;
  std::shared_ptr<Model> om; int r=solve(s,other,&om);
  if(r==0){ s.known[c]=v; return v; }
  if(r<0){ incomplete("solver returned unknown on a branch condition"); addPC(s,v?c:mkNot(c)); return v; }
  SP n=cloneState(s); n->model=om; addPC(*n,other); pushWork(std::move(n));
  addPC(s,v?c:mkNot(c)); return v;
}
static E resolveKnown(State&s,E e){ while(e->op==O_ITE){ int k=lookupKnown(s,e->a); if(k<0) break; e=k?e->b:e->c; } return e; }
static uint64_t concretize(State&s,const Val&v){
  if(!v.e) return v.c;
  E e=resolveKnown(s,v.e);
  while(!isC(e)){
    if(e->op==O_ITE&&e->leaves){ bool b=decide(s,e->a); e=b?e->b:e->c; e=resolveKnown(s,e); continue; }
    // known equality?
    APInt a=evalE(e,*s.model);
    for(;;){ // decide e==a ; on the sibling path other values are tried
      if(decide(s,mkBin(O_EQ,e,mkC(a)))) { e=mkC(a); break; }
      a=evalE(e,*s.model); }
  }
  return e->v.getLimitedValue(~0ull);
}

// ---------------------------------------------------------------- memory
static Obj* findObj(State&s,uint64_t a,bool wr){
  auto it=s.mem.upper_bound(a);
  if(it!=s.mem.begin()){ --it; Obj*o=it->second.get(); if(a>=o->base&&a<o->base+o->size+ (o->size==0)){ if(wr&&it->second.use_count()>1){ it->second=std::make_shared<Obj>(*o); o=it->second.get(); } return o; } }
  auto jt=gRO.upper_bound(a); if(jt!=gRO.begin()){ --jt; Obj*o=jt->second.get(); if(a>=o->base&&a<o->base+o->size) return o; }
  return nullptr;
}
static uint64_t newObj(State&s,uint64_t size,uint8_t kind,unsigned align=16){
  s.brk=(s.brk+align-1)/align*align; uint64_t b=s.brk; s.brk+=size+32; s.brk=(s.brk+15)/16*16;
  auto o=std::make_shared<Obj>(); o->base=b; o->size=size; o->kind=kind; o->d.assign(size,0xA5); o->f.assign(size,0);
  s.mem[b]=o; return b;
}
[[noreturn]] static void fail(State&s,const char*kind,const std::string&msg){ violation(s,kind,msg); throw PathEnd(); }
static Obj* access(State&s,uint64_t a,uint64_t n,bool wr){
  Obj*o=findObj(s,a,wr);
  if(!o){ if(a<4096) fail(s,"memory",std::string("null pointer ")+(wr?"write":"read")); fail(s,"memory",std::string("out-of-bounds or wild ")+(wr?"write":"read")); }
  if(o->freed) fail(s,"memory",std::string("use after free: ")+(wr?"write":"read"));
  if(a+n>o->base+o->size) fail(s,"memory",std::string("out-of-bounds ")+(wr?"write":"read"));
  if(wr&&o->ro) fail(s,"memory","write to read-only memory");
  if(o->pool){ auto it=s.blocks.upper_bound(a); bool ok=false; if(it!=s.blocks.begin()){ --it; if(a>=it->first&&a+n<=it->first+it->second.n) ok=true; }
    if(!ok) fail(s,"memory",std::string(wr?"write":"read")+" of pool memory outside any live block"); }
  return o;
}
static void splitCells(Obj*o,uint32_t off,uint32_t n){ // break cells overlapping [off,off+n) into byte cells when partial; erase overlapped
  auto it=o->sym.lower_bound(off>64?off-64:0);
  while(it!=o->sym.end()&&it->first<off+n){
    uint32_t c=it->first,cn=it->second.w/8;
    if(c+cn<=off){ ++it; continue; }
    Val v=it->second; it=o->sym.erase(it);
    if(c>=off&&c+cn<=off+n) continue;
    for(uint32_t i=0;i<cn;i++) if(c+i<off||c+i>=off+n){ o->sym[c+i]=Val(); Val b=VE(mkExtract(v.e,i*8,8)); if(b.e) o->sym[c+i]=b; else { o->sym.erase(c+i); o->d[c+i]=b.c; o->f[c+i]=1; } }
    it=o->sym.lower_bound(off>64?off-64:0);
  }
}
static void rawStore(Obj*o,uint32_t off,const Val&v,unsigned nb){
  if(!o->sym.empty()) splitCells(o,off,nb);
  if(!v.e){ uint64_t c=v.c; for(unsigned i=0;i<nb;i++){ o->d[off+i]=i<8?(uint8_t)(c>>(8*i)):0; o->f[off+i]=1; } return; }
  E e=v.e; if(e->w<nb*8) e=mkZext(e,nb*8);
  if(isC(e)){ for(unsigned i=0;i<nb;i++){ o->d[off+i]=(uint8_t)e->v.extractBitsAsZExtValue(8,8*i); o->f[off+i]=1; } return; }
  Val t; t.e=e; t.w=nb*8; o->sym[off]=t; for(unsigned i=0;i<nb;i++) o->f[off+i]=2;
}
static int gUninit=0;
static Val rawLoad(Obj*o,uint32_t off,unsigned w){
  unsigned nb=(w+7)/8; bool conc=true; for(unsigned i=0;i<nb;i++) if(o->f[off+i]!=1){ conc=false; break; }
  if(conc&&w<=64){ uint64_t c=0; for(unsigned i=0;i<nb;i++) c|=(uint64_t)o->d[off+i]<<(8*i); return VC(c,w); }
  auto it=o->sym.find(off); if(it!=o->sym.end()&&it->second.w==nb*8){ E e=it->second.e; if(w<nb*8) e=mkExtract(e,0,w); return VE(e); }
  E r=nullptr;
  for(unsigned i=0;i<nb;i++){ uint32_t p=off+i; E b;
    if(o->f[p]==1) b=mkCu(o->d[p],8);
    else if(o->f[p]==2){ auto jt=o->sym.upper_bound(p); --jt; b=mkExtract(jt->second.e,(p-jt->first)*8,8); }
    else { b=mkVar("uninit"+std::to_string(gUninit++),8,-128,127); }
    r=r?mkConcat(b,r):b; }
  if(w<nb*8) r=mkExtract(r,0,w);
  return VE(r);
}
static Val load(State&s,uint64_t a,unsigned w){ Obj*o=access(s,a,(w+7)/8,false); return rawLoad(o,a-o->base,w); }
static void store(State&s,uint64_t a,const Val&v){ unsigned nb=(v.w+7)/8; Obj*o=access(s,a,nb,true); rawStore(o,a-o->base,v,nb); }
static void copyMem(State&s,uint64_t d,uint64_t src,uint64_t n){
  if(!n) return; Obj*so=access(s,src,n,false); (void)so; access(s,d,n,true);
  ObjP keep; { auto it=s.mem.upper_bound(src); if(it!=s.mem.begin()){ --it; if(src>=it->second->base&&src<it->second->base+it->second->size) keep=std::make_shared<Obj>(*it->second); } }
  if(!keep){ auto jt=gRO.upper_bound(src); --jt; keep=jt->second; }
  Obj*o=access(s,d,n,true); uint32_t so2=src-keep->base,dof=d-o->base;
  if(!o->sym.empty()) splitCells(o,dof,n);
  for(uint64_t i=0;i<n;){
    auto it=keep->sym.find(so2+i);
    if(it!=keep->sym.end()&&i+it->second.w/8<=n){ unsigned nb=it->second.w/8; o->sym[dof+i]=it->second; for(unsigned k=0;k<nb;k++) o->f[dof+i+k]=2; i+=nb; continue; }
    uint32_t p=so2+i; if(keep->f[p]==2){ auto jt=keep->sym.upper_bound(p); --jt; Val b=VE(mkExtract(jt->second.e,(p-jt->first)*8,8)); rawStore(o,dof+i,b,1); }
    else { o->d[dof+i]=keep->d[p]; o->f[dof+i]=keep->f[p]; }
    i++; }
}
static void freeObj(State&s,uint64_t p,uint8_t kind,const char*what){
  if(!p) return;
  auto it=s.mem.find(p); if(it==s.mem.end()) fail(s,"memory",std::string(what)+" of a pointer that is not the start of an allocation");
  Obj*o=it->second.get(); if(o->freed) fail(s,"memory",std::string("double ")+what);
  if(o->kind!=K_HEAP&&o->kind!=K_GMP&&o->kind!=K_AA) fail(s,"memory",std::string(what)+" of non-heap memory");
  if(o->pool){ auto b=s.blocks.lower_bound(p); if(b!=s.blocks.end()&&b->first<p+o->size){ violation(s,"leak","pool memory released while blocks are still live (blocks not returned)");
      while(b!=s.blocks.end()&&b->first<p+o->size) b=s.blocks.erase(b); throw PathEnd(); } }
  s.heap-=o->size;
  auto n=std::make_shared<Obj>(); n->base=o->base; n->size=o->size; n->kind=o->kind; n->freed=true; it->second=n;
}
static std::string cstr(State&s,uint64_t p){ std::string r; for(;;){ Val v=load(s,p++,8); if(v.e) fail(s,"engine","symbolic string"); if(!v.c) break; r+=(char)v.c; if(r.size()>4096) break; } return r; }

// ---------------------------------------------------------------- decode
static unsigned flatN(Type*t){ if(t->isVoidTy()) return 0; if(auto*st=dyn_cast<StructType>(t)){ unsigned n=0; for(auto*e:st->elements()) n+=flatN(e); return n; }
  if(auto*at=dyn_cast<ArrayType>(t)) return at->getNumElements()*flatN(at->getElementType()); return 1; }
static unsigned tw(Type*t){ if(t->isPointerTy()) return 64; if(t->isIntegerTy()) return t->getIntegerBitWidth(); if(t->isDoubleTy()) return 64; if(t->isFloatTy()) return 32; if(t->isX86_FP80Ty()) return 80; return 0; }
static void flatLay(Type*t,uint64_t off,std::vector<std::pair<unsigned,uint64_t>>&o){
  if(auto*st=dyn_cast<StructType>(t)){ auto*sl=DL->getStructLayout(st); for(unsigned i=0;i<st->getNumElements();i++) flatLay(st->getElementType(i),off+sl->getElementOffset(i),o); return; }
  if(auto*at=dyn_cast<ArrayType>(t)){ uint64_t es=DL->getTypeAllocSize(at->getElementType()); for(unsigned i=0;i<at->getNumElements();i++) flatLay(at->getElementType(),off+i*es,o); return; }
  o.push_back({tw(t),off}); }
static DFunc* getFn(const Function*F);
static Val constVal(const Constant*c);
static void constFlat(const Constant*c,std::vector<Val>&o){
  Type*t=c->getType();
  if(t->isStructTy()||t->isArrayTy()){ unsigned n=t->isStructTy()?t->getStructNumElements():t->getArrayNumElements();
    for(unsigned i=0;i<n;i++){ const Constant*e=c->getAggregateElement(i); constFlat(e,o); } return; }
  o.push_back(constVal(c)); }
static Val constVal(const Constant*c){
  Type*t=c->getType(); unsigned w=tw(t);
  if(auto*ci=dyn_cast<ConstantInt>(c)){ if(w<=64) return VC(ci->getValue().getZExtValue(),w); return VE(mkC(ci->getValue())); }
  if(auto*cf=dyn_cast<ConstantFP>(c)) { APInt b=cf->getValueAPF().bitcastToAPInt(); if(w<=64) return VC(b.getZExtValue(),w); return VE(mkC(b)); }
  if(isa<ConstantPointerNull>(c)||isa<UndefValue>(c)||isa<ConstantAggregateZero>(c)) { if(w<=64) return VC(0,w); return VE(mkC(APInt(w,0))); }
  if(auto*f=dyn_cast<Function>(c)) return VC(getFn(f)->addr,64);
  if(auto*al=dyn_cast<GlobalAlias>(c)) return constVal(al->getAliasee());
  if(auto*g=dyn_cast<GlobalVariable>(c)) return VC(gGlobAddr.at(g),64);
  if(auto*ce=dyn_cast<ConstantExpr>(c)){
    switch(ce->getOpcode()){
    case Instruction::GetElementPtr: { auto*g=cast<GEPOperator>(ce); APInt off(64,0); if(!g->accumulateConstantOffset(*DL,off)) break; return VC(constVal(cast<Constant>(g->getPointerOperand())).c+off.getZExtValue(),64); }
    case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: { Val v=constVal(ce->getOperand(0)); return VC(v.c,w); }
    case Instruction::Sub: return VC(constVal(ce->getOperand(0)).c-constVal(ce->getOperand(1)).c,w);
    case Instruction::Add: return VC(constVal(ce->getOperand(0)).c+constVal(ce->getOperand(1)).c,w);
    case Instruction::Trunc: return VC(constVal(ce->getOperand(0)).c,w);
    } }
  std::string str; raw_string_ostream os(str); c->print(os); fprintf(stderr,"unsupported constant %s\n",os.str().c_str()); incomplete("unsupported constant"); return VC(0,w?w:64);
}
static uint64_t gNextAddr=0x100000;
static int handlerFor(const std::string&n);
static DFunc* getFn(const Function*F){ auto it=gFn.find(F); if(it!=gFn.end()) return it->second;
  DFunc*d=new DFunc; d->F=const_cast<Function*>(F); d->name=F->getName().str(); d->addr=gNextAddr; gNextAddr+=16; gFn[F]=d; gFnAddr[d->addr]=d; d->handler=handlerFor(d->name); return d; }
static std::unordered_map<const Value*,std::pair<int,unsigned>>* gSlots;
static Opnd mkOp(const Value*v){
  Opnd o; o.slot=-1; o.n=flatN(v->getType());
  if(auto*c=dyn_cast<Constant>(v)){ if(o.n==1&&!c->getType()->isStructTy()&&!c->getType()->isArrayTy()) o.c=constVal(c); else { constFlat(c,o.agg); if(o.n==1) o.c=o.agg[0]; } return o; }
  auto it=gSlots->find(v); if(it!=gSlots->end()){ o.slot=it->second.first; o.n=it->second.second; return o; }
  o.c=VC(0,64); return o; // metadata, inline asm ...
}
static void decode(DFunc*d){
  if(d->decoded) return; d->decoded=true; Function*F=d->F;
  std::unordered_map<const Value*,std::pair<int,unsigned>> slots; gSlots=&slots; unsigned n=0;
  for(auto&a:F->args()){ unsigned k=flatN(a.getType()); slots[&a]={(int)n,k}; d->args.push_back({(int)n,k}); n+=k; }
  for(auto&B:*F) for(auto&I:B){ unsigned k=flatN(I.getType()); if(k){ slots[&I]={(int)n,k}; n+=k; } }
  d->nslots=n; int bi=0; for(auto&B:*F) d->bidx[&B]=bi++;
  d->blocks.resize(bi);
  for(auto&B:*F){ DBlock&db=d->blocks[d->bidx[&B]]; db.bb=&B;
    for(auto&I:B){
      DInst x; x.I=&I; x.opc=I.getOpcode(); x.dst=-1; x.dn=flatN(I.getType()); x.w=tw(I.getType()); x.callee=nullptr; x.intrin=-1; x.goff=0; x.t0=x.t1=-1; x.pred=0; x.sz=0; x.aggOff=0;
      if(x.dn) x.dst=slots[&I].first;
      if(auto*p=dyn_cast<PHINode>(&I)){ for(unsigned i=0;i<p->getNumIncomingValues();i++){ x.ops.push_back(mkOp(p->getIncomingValue(i))); x.cases.push_back({APInt(32,0),d->bidx[p->getIncomingBlock(i)]}); } db.phis.push_back(x); continue; }
      if(auto*b=dyn_cast<BranchInst>(&I)){ if(b->isConditional()){ x.ops.push_back(mkOp(b->getCondition())); x.t0=d->bidx[b->getSuccessor(0)]; x.t1=d->bidx[b->getSuccessor(1)]; } else x.t0=d->bidx[b->getSuccessor(0)]; }
      else if(auto*sw=dyn_cast<SwitchInst>(&I)){ x.ops.push_back(mkOp(sw->getCondition())); x.t0=d->bidx[sw->getDefaultDest()]; for(auto&c:sw->cases()) x.cases.push_back({c.getCaseValue()->getValue(),d->bidx[c.getCaseSuccessor()]}); }
      else if(auto*cb=dyn_cast<CallBase>(&I)){ 
        if(isa<DbgInfoIntrinsic>(&I)) continue;
        for(auto&a:cb->args()) x.ops.push_back(mkOp(a.get()));
        Value*cv=cb->getCalledOperand()->stripPointerCasts(); if(auto*ga=dyn_cast<GlobalAlias>(cv)) cv=ga->getAliaseeObject();
        if(auto*cf=dyn_cast<Function>(cv)){ x.callee=getFn(cf); x.cname=cf->getName().str(); if(cf->isIntrinsic()) x.intrin=cf->getIntrinsicID(); }
        else x.ops.push_back(mkOp(cv));
        if(auto*iv=dyn_cast<InvokeInst>(&I)) x.t0=d->bidx[iv->getNormalDest()]; }
      else if(auto*g=dyn_cast<GetElementPtrInst>(&I)){ x.ops.push_back(mkOp(g->getPointerOperand()));
        for(auto gt=gep_type_begin(g),ge=gep_type_end(g);gt!=ge;++gt){ Value*ix=gt.getOperand();
          if(auto*st=gt.getStructTypeOrNull()){ x.goff+=DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); }
          else { int64_t sc=DL->getTypeAllocSize(gt.getIndexedType()); if(auto*ci=dyn_cast<ConstantInt>(ix)) x.goff+=ci->getSExtValue()*sc; else x.gep.push_back({mkOp(ix),sc}); } } }
      else { for(auto&o:I.operands()) x.ops.push_back(mkOp(o.get())); }
      if(auto*c=dyn_cast<CmpInst>(&I)) x.pred=c->getPredicate();
      if(auto*a=dyn_cast<AllocaInst>(&I)) x.sz=DL->getTypeAllocSize(a->getAllocatedType());
      if(isa<LoadInst>(&I)) flatLay(I.getType(),0,x.lay);
      if(auto*si=dyn_cast<StoreInst>(&I)) flatLay(si->getValueOperand()->getType(),0,x.lay);
      if(auto*ev=dyn_cast<ExtractValueInst>(&I)){ Type*t=ev->getAggregateOperand()->getType(); for(unsigned ix:ev->indices()){ if(auto*st=dyn_cast<StructType>(t)){ for(unsigned i=0;i<ix;i++) x.aggOff+=flatN(st->getElementType(i)); t=st->getElementType(ix);} else { t=t->getArrayElementType(); x.aggOff+=ix*flatN(t);} } }
      if(auto*ev=dyn_cast<InsertValueInst>(&I)){ Type*t=ev->getType(); for(unsigned ix:ev->indices()){ if(auto*st=dyn_cast<StructType>(t)){ for(unsigned i=0;i<ix;i++) x.aggOff+=flatN(st->getElementType(i)); t=st->getElementType(ix);} else { t=t->getArrayElementType(); x.aggOff+=ix*flatN(t);} } }
      db.ins.push_back(std::move(x)); } }
}

// ---------------------------------------------------------------- arithmetic on Val
static Val bin(Op op,const Val&a,const Val&b){
  if(!a.e&&!b.e&&a.w<=64){ uint64_t x=a.c,y=b.c; unsigned w=a.w;
    switch(op){ case O_ADD: return VC(x+y,w); case O_SUB: return VC(x-y,w); case O_MUL: return VC(x*y,w); case O_AND: return VC(x&y,w); case O_OR: return VC(x|y,w); case O_XOR: return VC(x^y,w);
    case O_EQ: return VC(x==y,1); case O_ULT: return VC(x<y,1); case O_SLT: return VC(sx(x,w)<sx(y,w),1);
    case O_SHL: return VC(y>=w?0:x<<y,w); case O_LSHR: return VC(y>=w?0:x>>y,w); default: break; } }
  return VE(mkBin(op,toE(a),toE(b))); }
static Val vnot(const Val&a){ return a.e?VE(mkNot(a.e)):VC(~a.c,a.w); }
static Val vite(const Val&c,const Val&a,const Val&b){ if(!c.e) return c.c?a:b; return VE(mkIte(c.e,toE(a),toE(b))); }
static Val vext(const Val&a,unsigned w,bool s){ if(w==a.w) return a; if(w<a.w) return VE(mkExtract(toE(a),0,w)); if(!a.e&&w<=64) return VC(s?(uint64_t)sx(a.c,a.w):a.c,w); return VE(s?mkSext(toE(a),w):mkZext(toE(a),w)); }
static Val icmp(unsigned p,const Val&a,const Val&b){
  switch(p){ case CmpInst::ICMP_EQ: return bin(O_EQ,a,b); case CmpInst::ICMP_NE: return vnot(bin(O_EQ,a,b));
  case CmpInst::ICMP_ULT: return bin(O_ULT,a,b); case CmpInst::ICMP_UGT: return bin(O_ULT,b,a); case CmpInst::ICMP_ULE: return vnot(bin(O_ULT,b,a)); case CmpInst::ICMP_UGE: return vnot(bin(O_ULT,a,b));
  case CmpInst::ICMP_SLT: return bin(O_SLT,a,b); case CmpInst::ICMP_SGT: return bin(O_SLT,b,a); case CmpInst::ICMP_SLE: return vnot(bin(O_SLT,b,a)); case CmpInst::ICMP_SGE: return vnot(bin(O_SLT,a,b)); }
  abort(); }

#include "gmp_model.h"
#include "interp.h"
