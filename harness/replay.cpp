// Native side of vs.h: replays one assignment against the real code.
#include "vs.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <malloc.h>
#include <gmp.h>
static std::vector<std::pair<std::string,std::string>> gIn; static size_t gPos=0; static struct { char n[64]; int k; } gNames[4096]; static int gNN=0;
static int count(const char* n){ for(int i=0;i<gNN;i++) if(!strncmp(gNames[i].n,n,63)) return gNames[i].k++; if(gNN<4096){ strncpy(gNames[gNN].n,n,63); gNames[gNN].k=1; gNN++; } return 0; }
static char gBuf[1<<22]; static bool gLoaded=false;
static void load(){ if(gLoaded) return; gLoaded=true; const char* f=getenv("VS_REPLAY"); if(!f) return; FILE* p=fopen(f,"r"); if(!p) return; static char line[1<<16];
  while(fgets(line,sizeof line,p)){ if(line[0]=='#'||line[0]=='\n') continue; char* t=strchr(line,'\t'); if(!t) continue; *t=0; char* e=strchr(t+1,'\n'); if(e) *e=0; gIn.push_back({line,t+1}); } fclose(p); }
static std::string next(const char* name){ load(); int k=count(name); std::string n=name; if(k) n+="#"+std::to_string(k);
  if(gPos<gIn.size()&&gIn[gPos].first==n) return gIn[gPos++].second;
  for(auto&x:gIn) if(x.first==n) return x.second;
  return ""; }
static const char* keep(const std::string&s){ char* p=gBuf; static size_t off=0; if(off+s.size()+1>sizeof gBuf){ return strdup(s.c_str()); } p+=off; memcpy(p,s.c_str(),s.size()+1); off+=s.size()+1; return p; }
struct Z { mpz_t z; Z(){ mpz_init(z);} explicit Z(const char*s){ if(mpz_init_set_str(z,s,10)) { printf("CHECK-FAILED: not an integer string '%s'\n",s); fflush(stdout); _Exit(42);} } ~Z(){ mpz_clear(z);} std::string str(){ char*c=mpz_get_str(nullptr,10,z); std::string r=c; free(c); return r; } };
extern "C" {
int64_t vs_int(const char* n,int64_t lo,int64_t hi){ std::string s=next(n); int64_t v=s.empty()?(lo<=0&&hi>=0?0:lo):strtoll(s.c_str(),0,10); return v; }
int vs_bool(const char* n){ std::string s=next(n); return !s.empty()&&s!="0"; }
int vs_pick(const char* n,int k){ std::string s=next(n); int v=s.empty()?0:atoi(s.c_str()); return v>=k?k-1:v; }
void vs_assume(int c){ if(!c){ printf("ASSUME-FAILED\n"); fflush(stdout); _Exit(43);} }
void vs_check(int c,const char* m){ if(!c){ printf("CHECK-FAILED: %s\n",m); fflush(stdout); _Exit(42);} }
void vs_reach(const char*){}
const char* vs_bigint(const char* n,int64_t lo,int64_t hi,int nz){ std::string s=next(n); if(s.empty()) s=std::to_string(lo<=0&&hi>=0?(nz?(hi>0?1:-1):0):lo); return keep(s); }
const char* vs_zlimbs(const char* n,int l,int sg){ std::string s=next(n); if(s.empty()){ Z z; mpz_ui_pow_ui(z.z,2,l?64*(l-1):0); if(!l) mpz_set_ui(z.z,0); if(sg<0) mpz_neg(z.z,z.z); s=z.str(); } return keep(s); }
const char* vs_zstr(int64_t v){ return keep(std::to_string(v)); }
int64_t vs_zval(const char* s){ Z z(s); if(!mpz_fits_slong_p(z.z)){ printf("CHECK-FAILED: vs_zval range\n"); fflush(stdout); _Exit(42);} return mpz_get_si(z.z); }
int vs_zeq(const char*a,const char*b){ Z x(a),y(b); return mpz_cmp(x.z,y.z)==0; }
int vs_zcmp(const char*a,const char*b){ Z x(a),y(b); int r=mpz_cmp(x.z,y.z); return r<0?-1:r>0; }
const char* vs_zop(int op,const char*a,const char*b){ Z x(a),y(b),r; switch(op){ case '+': mpz_add(r.z,x.z,y.z); break; case '-': mpz_sub(r.z,x.z,y.z); break; case '*': mpz_mul(r.z,x.z,y.z); break; case '/': mpz_tdiv_q(r.z,x.z,y.z); break; case '%': mpz_tdiv_r(r.z,x.z,y.z); break; case 'g': mpz_gcd(r.z,x.z,y.z); break; } return keep(r.str()); }
void vs_coprime(const char*a,const char*b){ Z x(a),y(b),r; mpz_gcd(r.z,x.z,y.z); if(mpz_cmp_ui(r.z,1)){ printf("ASSUME-FAILED\n"); fflush(stdout); _Exit(43);} }
int64_t vs_qtimes(const char* q,int64_t d){ mpq_t x,y; mpq_init(x); mpq_init(y); int64_t r=INT64_MAX; if(mpq_set_str(x,q,10)==0){ mpq_canonicalize(x); mpq_set_si(y,d,1); mpq_mul(x,x,y); if(mpz_cmp_ui(mpq_denref(x),1)==0) r=mpz_get_si(mpq_numref(x)); } mpq_clear(x); mpq_clear(y); return r; }
int vs_qlowest(const char* q){ mpq_t x; mpq_init(x); mpq_set_str(x,q,10); mpz_t g; mpz_init(g); mpz_gcd(g,mpq_numref(x),mpq_denref(x)); int r=(mpz_sgn(mpq_numref(x))==0?mpz_cmp_ui(mpq_denref(x),1)==0:mpz_cmp_ui(g,1)==0)&&mpz_sgn(mpq_denref(x))>0; if(strchr(q,'/')&&mpz_cmp_ui(mpq_denref(x),1)==0) r=0; mpz_clear(g); mpq_clear(x); return r; }
int64_t vs_concrete(int64_t v){ return v; }
int64_t vs_heap(){ return (int64_t)mallinfo2().uordblks; }
int vs_inside(const void*,uint64_t){ return 1; }
void vs_hooks(int){}
int vs_symbolic(){ return 0; }
}
#ifndef VS_ENTRY
#error "define VS_ENTRY"
#endif
extern "C" void VS_ENTRY();
int main(){ load(); VS_ENTRY(); fflush(stdout); fprintf(stderr,"REPLAY-COMPLETED\n"); return 0; }
