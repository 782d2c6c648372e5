// U10: the stopwatch accumulates exactly the running intervals.
#include "common.h"
#include <cassert>
#include <iostream>
#include <unistd.h>
#include <sys/times.h>
#include <dlfcn.h>
#include "util/timer.h"
using namespace GInv;
static int64_t cu,cs,cr; static bool gOn=false;
extern "C" clock_t times(struct tms* b) throw() { b->tms_utime=cu; b->tms_stime=cs; b->tms_cutime=0; b->tms_cstime=0; return cr; }
extern "C" long sysconf(int n) throw() { if(n==_SC_CLK_TCK) return 64; typedef long (*F)(int); static F f=(F)dlsym(RTLD_NEXT,"sysconf"); return f?f(n):-1; }
static void tick(){ cu=vs_int("user",0,1ll<<40); cs=vs_int("sys",0,1ll<<40); cr=vs_int("real",0,1ll<<40); }
extern "C" void u10_timer(){
  Timer t; int64_t u=0,s=0,r=0,lu=0,ls=0,lr=0; bool run=false;
  vs_check(t.userTime()==0&&t.sysTime()==0&&t.realTime()==0,"a new stopwatch shows zero");
  tick(); t.start(); lu=cu; ls=cs; lr=cr; run=true;
  for(int i=0;i<(TIER?6:5);i++){ tick();
    switch(vs_pick("op",3)){
    case 0: t.start(); u=s=r=0; run=true; lu=cu; ls=cs; lr=cr; break;
    case 1: if(!run){ t.cont(); run=true; lu=cu; ls=cs; lr=cr; } break;
    case 2: if(run){ t.stop(); u+=cu-lu; s+=cs-ls; r+=cr-lr; run=false; } break; } 
    if(!run||i==0){ vs_check(t.userTime()==(double)u/64,"user time"); vs_check(t.sysTime()==(double)s/64,"system time"); vs_check(t.realTime()==(double)r/64,"real time"); } }
  vs_reach("end timer"); }
