#ifndef SIM_CORE_H
#define SIM_CORE_H
#include "simapi.h"
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <deque>
#include <set>
#include <unordered_map>
typedef bool (*PredFn)(void*);
enum FState { F_READY, F_BLOCKED, F_STALLED, F_DONE };
struct Fiber {
  void* sp=nullptr; char* stack=nullptr; size_t stksz=0;
  int id=0, rank=0, tid=0; FState st=F_READY;
  PredFn pred=nullptr; void* parg=nullptr; const char* why="";
  uint64_t wake=0; int idle=0; uint64_t idle_epoch=0; long prio=0; int saved_errno=0;
  void (*fn)(void*)=nullptr; void* arg=nullptr; bool detached=false; void* retval=nullptr; void*(*pfn)(void*)=nullptr;
  uint64_t lastrun=0; bool exited=false; int exitcode=0; bool server=false; double fpstate_pad=0;
  unsigned mxcsr=0x1f80; unsigned short fcw=0x37f;
};
struct Event { uint64_t t, seq; void(*fn)(void*); void* arg; };
struct EvCmp { bool operator()(const Event&a,const Event&b) const { return a.t!=b.t? a.t>b.t : a.seq>b.seq; } };

// outcome of a run, in memory shared with the parent
struct Counter { char name[40]; long n; };
enum { MAXCNT=96 };
struct Result {
  volatile int status;      // 0 = did not report, 1 = ok, 2 = violation, 3 = simulator error
  char cls[64]; char msg[1024];
  uint64_t hash, steps, switches, decisions, faults, simtime, evseq, ilv; int rank;
  int ncnt; Counter cnt[MAXCNT];
  int tracelen; char trace[24000];
};

struct SchedCfg {
  int strategy=0; double stick=0.5; uint64_t seed=1; uint64_t cutoff=~0ull; // decisions after cutoff take the default
  long maxlat=0; int heavy=0; long cost=200; double stallp=0; long stallmax=0; double iprobe_false=0, test_false=0;
  long eager=4096; double lazyisend=0; int syncsend=0; int collsync=0; double pre_mean=0; long fair_after=400000; long max_steps=6000000;
  int victim=-1; double slowrank=1; int rma_ordered=1; int chunkcopy=0; double ctrunc=0; uint64_t faultcut=~0ull;
};
struct Sim {
  Program* prog=nullptr; const Workload* wl=nullptr; SchedCfg sc; Rng srng{1}, frng{1};
  int nproc=0; std::vector<Fiber*> fibers; Fiber* cur=nullptr; void* main_sp=nullptr;
  uint64_t now=0, steps=0, seq=0, switches=0, decisions=0, faults=0, hash=1469598103934665603ull, ilv=1469598103934665603ull, epoch=1;
  std::vector<Event> heap; uint64_t evseq=0; bool fair=false; long idle_spins=0;
  Result* res=nullptr; bool running=false; void* wlstate=nullptr; int verbose=0;
  bool ended=false; std::vector<std::string>* tracebuf=nullptr;
  long preempt_left=-1; bool in_sim=false;
  std::vector<int> pct_change; long pct_next=0;
  int nodes=1; std::vector<int> nodeof; std::map<std::string,std::string> env;
  std::vector<void*> images; std::vector<void(*)(Program&)> mains;
};
extern Sim S;
void hash_ev(uint64_t v);
uint64_t choose(uint64_t n,uint64_t dflt=0);     // schedule decision in [0,n)
bool fault(const char*kind,double p);            // fault decision
long fault_amount(long n);
void sched_point();                              // may switch
void block_on(PredFn f,void*arg,const char*why);
void poll_failed();                              // caller polled and found nothing
void progress();                                 // something changed
void at(uint64_t t,void(*fn)(void*),void*arg);
void sim_error(const char*fmt,...);
void violation(const char*cls,const char*fmt,...) __attribute__((format(printf,2,3)));
void end_run(int status);
void count(const char*name,long n=1);
Fiber* new_fiber(int rank,void(*fn)(void*),void*arg);
void fiber_exit();
void os_reset(); void mpi_reset(); void os_end_checks();
uint64_t latency();
int cur_rank();
void trace(const char*fmt,...);
#define CURFIBER (S.cur!=nullptr)
#endif
