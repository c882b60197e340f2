// Fibers, seeded scheduler, simulated time, event queue, tracing, violations.
#include "core.h"
#include <stdarg.h>
#include <errno.h>
#include <sys/mman.h>
#include <unistd.h>
#include <algorithm>
#include <execinfo.h>
#include <sys/stat.h>
int g_outfd=-1;
Sim S;
static std::deque<std::string> g_trace; 
static const size_t STK=1<<20;

extern "C" void ctx_switch(void** save,void* to);
asm(R"(
.text
.globl ctx_switch
.type ctx_switch,@function
ctx_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp,(%rdi)
  movq %rsi,%rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
)");

void hash_ev(uint64_t v){ S.hash^=v; S.hash*=1099511628211ull; S.hash^=S.hash>>29; }
void count(const char*name,long n){
  Result*r=S.res; if(!r) return;
  for(int i=0;i<r->ncnt;i++) if(!strcmp(r->cnt[i].name,name)){ r->cnt[i].n+=n; return; }
  if(r->ncnt<MAXCNT){ snprintf(r->cnt[r->ncnt].name,sizeof r->cnt[0].name,"%s",name); r->cnt[r->ncnt].n=n; r->ncnt++; }
}
int g_tracing=0;
static void vtrace(const char*fmt,va_list ap){
  if(!g_tracing&&!S.verbose) return;
  char b[400]; int n=snprintf(b,sizeof b,"[%llu t=%lluns r%d.%d] ",(unsigned long long)S.steps,(unsigned long long)S.now,S.cur?S.cur->rank:-1,S.cur?S.cur->tid:-1);
  vsnprintf(b+n,sizeof b-n,fmt,ap);
  if(S.verbose) { fprintf(stderr,"%s\n",b); }
  g_trace.push_back(b); if(g_trace.size()>220) g_trace.pop_front();
}
void trace(const char*fmt,...){ va_list ap; va_start(ap,fmt); vtrace(fmt,ap); va_end(ap); }
static void fill_result(int status){
  Result*r=S.res; if(!r) return;
  r->hash=S.hash; r->steps=S.steps; r->switches=S.switches; r->decisions=S.decisions; r->faults=S.faults; r->simtime=S.now; r->evseq=S.seq; r->ilv=S.ilv;
  int p=0; for(auto&l:g_trace){ int n=(int)l.size(); if(p+n+2>(int)sizeof r->trace) break; memcpy(r->trace+p,l.c_str(),n); p+=n; r->trace[p++]='\n'; }
  r->tracelen=p; r->status=status;
}
static void child_exit(int status){ fill_result(status); fflush(stdout); fflush(stderr); _exit(0); }
void sim_error(const char*fmt,...){
  va_list ap; va_start(ap,fmt);
  if(S.res){ vsnprintf(S.res->msg,sizeof S.res->msg,fmt,ap); snprintf(S.res->cls,64,"SIMERROR"); trace("SIMERROR %s",S.res->msg); child_exit(3); }
  vfprintf(stderr,fmt,ap); fprintf(stderr,"\n"); _exit(2);
}
static int g_abort_ok=0; extern long g_iofaults_total(); extern "C" void sim_count(const char*,long);
extern "C" void sim_abort_after_io_error_ok(int on){ g_abort_ok=on; }   // an error exit is how the library under test reports a real I/O error
extern "C" long sim_alloc_fired(); static int g_allocabort_ok=0; extern "C" void sim_abort_after_alloc_failure_ok(int on){ g_allocabort_ok=on; }
void violation(const char*cls,const char*fmt,...){
  if(g_allocabort_ok&&S.res&&!strcmp(cls,"abort")&&sim_alloc_fired()>0){ sim_count("error exits after failed allocations",1); trace("error exit after a failed allocation"); hash_ev(0xabce); child_exit(1); }
  if(g_abort_ok&&S.res&&!strcmp(cls,"abort")&&g_iofaults_total()>0){ sim_count("error exits after real I/O errors",1); trace("error exit after a real I/O error"); hash_ev(0xabcd); child_exit(1); }
  if(S.verbose){ void*b[40]; int n=backtrace(b,40); backtrace_symbols_fd(b,n,2); }
  va_list ap; va_start(ap,fmt);
  if(S.res){ snprintf(S.res->cls,64,"%s",cls); vsnprintf(S.res->msg,sizeof S.res->msg,fmt,ap);
    if(!strcmp(cls,"abort")&&g_outfd>=0){ fflush(stdout); char t[600]; struct stat sb; long sz=fstat(g_outfd,&sb)==0?sb.st_size:0; long from=sz>500?sz-500:0; long k=pread(g_outfd,t,500,from); if(k>0){ t[k]=0; std::string o; for(long i=0;i<k;i++) o+=(t[i]=='\n'?'/':t[i]); size_t l=strlen(S.res->msg); snprintf(S.res->msg+l,sizeof S.res->msg-l," [%s]",o.c_str()); } } S.res->rank=S.cur?S.cur->rank:-1; trace("VIOLATION %s: %s",cls,S.res->msg); hash_ev(0xdead); child_exit(2); }
  vfprintf(stderr,fmt,ap); fprintf(stderr,"\n"); _exit(2);
}
void end_run(int){ S.ended=true; Fiber*c=S.cur; S.cur=nullptr; void*dummy; ctx_switch(c?&c->sp:&dummy,S.main_sp); }

uint64_t choose(uint64_t n,uint64_t dflt){
  if(n<=1) return 0;
  S.decisions++;
  if(S.fair||S.decisions>S.sc.cutoff) return dflt;
  return S.srng.next()%n;
}
bool fault(const char*kind,double p){
  if(p<=0||S.fair||S.decisions>S.sc.cutoff) return false;
  if(!S.frng.chance(p)) return false;
  if(S.faults>=S.sc.faultcut) return false;
  S.faults++; char b[48]; snprintf(b,sizeof b,"fault:%s",kind); count(b); trace("fault %s",kind); hash_ev(0xfa);
  return true;
}
long fault_amount(long n){ return S.frng.below(n); }
uint64_t latency(){
  const SchedCfg&c=S.sc; if(c.maxlat<=0||S.fair||S.decisions>c.cutoff) return 100;
  S.decisions++;
  uint64_t r=S.srng.next();
  uint64_t l=r%(uint64_t)c.maxlat;
  if(c.heavy && (r>>40)%16==0){ l*=c.heavy; count("fault:longdelay"); }
  return 100+l;
}
void at(uint64_t t,void(*fn)(void*),void*arg){
  S.heap.push_back({t,S.evseq++,fn,arg}); std::push_heap(S.heap.begin(),S.heap.end(),EvCmp());
}
static bool fire_due(){
  bool any=false;
  while(!S.heap.empty() && S.heap.front().t<=S.now){
    Event e=S.heap.front(); std::pop_heap(S.heap.begin(),S.heap.end(),EvCmp()); S.heap.pop_back();
    hash_ev(e.seq*31+7); e.fn(e.arg); any=true;
  }
  return any;
}
void progress(){ S.epoch++; S.idle_spins=0; }
void poll_failed(){ Fiber*f=S.cur; if(!f) return; if(f->idle_epoch!=S.epoch){ f->idle_epoch=S.epoch; f->idle=0; } f->idle++; }
static inline bool is_idle(Fiber*f){ return f->idle>=6 && f->idle_epoch==S.epoch; }
static int g_dump=0; static void* g_dump_sp=nullptr; 
static void bt(){ void*b[40]; int n=backtrace(b,40); backtrace_symbols_fd(b,n,2); }
static void report_stuck(const char*cls){
  if(S.verbose){ Fiber*c=S.cur; g_dump=1; fprintf(stderr,"-- stuck: task %d.%d\n",c?c->rank:-1,c?c->tid:-1); if(c) bt(); for(auto f:S.fibers) if(f!=c&&f->st!=F_DONE&&f->lastrun){ fprintf(stderr,"-- stuck: task %d.%d\n",f->rank,f->tid); S.cur=f; ctx_switch(&g_dump_sp,f->sp); } S.cur=c; }
  char b[900]; int p=0; 
  for(auto f:S.fibers) if(f->st!=F_DONE && p<760) p+=snprintf(b+p,sizeof b-p,"%s%d.%d:%s",p?"; ":"",f->rank,f->tid,f->st==F_BLOCKED?f->why:f->st==F_STALLED?"stalled":"polling");
  violation(cls,"no process can make progress: %s",b);
}
static Fiber* pick(){
  static std::vector<Fiber*> cand, act;
  const SchedCfg&c=S.sc;
  for(;;){
    fire_due();
    cand.clear(); act.clear(); uint64_t minwake=~0ull;
    for(auto f:S.fibers){
      if(f->st==F_STALLED){ if(f->wake<=S.now||S.fair) f->st=F_READY; else if(f->wake<minwake) minwake=f->wake; }
      if(f->st==F_READY || (f->st==F_BLOCKED && f->pred(f->parg))){ cand.push_back(f); if(!is_idle(f)) act.push_back(f); }
    }
    if(!act.empty()){ S.idle_spins=0; break; }
    uint64_t nt=minwake; if(!S.heap.empty()&&S.heap.front().t<nt) nt=S.heap.front().t;
    if(nt!=~0ull){ if(nt>S.now) S.now=nt; progress(); continue; }
    if(cand.empty()) report_stuck("deadlock");
    if(++S.idle_spins>30000*(long)cand.size()) report_stuck("livelock");
    { Fiber*b=cand[0]; for(auto f:cand) if(f->lastrun<b->lastrun) b=f; act.assign(1,b); } break;
  }
  Fiber* cur=S.cur; bool curok=false; for(auto f:act) if(f==cur) curok=true;
  size_t n=act.size();
  if(n==1) return act[0];
  if(S.fair || S.decisions>=c.cutoff){
    S.decisions++;
    if(S.fair){ Fiber*b=act[0]; for(auto f:act) if(f->lastrun<b->lastrun) b=f; return b; }
    if(curok) return cur; Fiber*b=act[0]; for(auto f:act) if(f->lastrun<b->lastrun) b=f; return b;
  }
  S.decisions++;
  switch(c.strategy){
    default: case 0: return act[S.srng.next()%n];
    case 1: if(curok && S.srng.chance(c.stick)) return cur; return act[S.srng.next()%n];
    case 2: {
      if(cur && S.srng.chance(1.0/ (c.stick>0?c.stick:300))){ long mn=0; for(auto f:S.fibers) if(f->prio<mn) mn=f->prio; cur->prio=mn-1; }
      Fiber*b=nullptr; for(auto f:act) if(!b||f->prio>b->prio) b=f;
      return b; }
    case 3: { if(curok && S.srng.next()%(uint64_t)(c.stick>1?c.stick:8)) return cur; Fiber*b=act[0]; for(auto f:act) if(f->lastrun<b->lastrun) b=f; return b; }
    case 4: {
      uint64_t ph=S.steps/(uint64_t)(c.stick>1?c.stick:2000);
      int v=(int)((c.victim+ph*7)%S.nproc);
      static std::vector<Fiber*> a2; a2.clear(); for(auto f:act) if(f->rank!=v) a2.push_back(f);
      if(a2.empty()) a2=act;
      return a2[S.srng.next()%a2.size()]; }
  }
}
static void switch_to(Fiber*n){
  Fiber*c=S.cur; 
  if(n->st==F_BLOCKED) n->st=F_READY;
  n->lastrun=S.steps;
  if(S.sc.pre_mean>0) S.preempt_left=1+(long)(S.sc.pre_mean*2*S.srng.unit());
  if(n==c) return;
  S.switches++; S.ilv^=(n->id+1)*0x9E3779B97F4A7C15ull+S.seq; S.ilv*=1099511628211ull; S.ilv^=S.ilv>>31;
  hash_ev(n->id+1);
  if(c) c->saved_errno=errno;
  S.cur=n;
  void*dummy; 
  ctx_switch(c?&c->sp:&dummy,n->sp);
  if(g_dump){ bt(); ctx_switch(&S.cur->sp,g_dump_sp); }
  errno=S.cur->saved_errno;
}
void (*fair_hook)(uint64_t)=nullptr;
// faults stop: everything in flight arrives soon, in the order it would have arrived
static void fair_begin(){ S.fair=true; trace("fair phase begins"); std::sort(S.heap.begin(),S.heap.end(),[](const Event&a,const Event&b){ return a.t!=b.t?a.t<b.t:a.seq<b.seq; }); uint64_t b=S.now+100; for(auto&e:S.heap){ if(e.t>b) e.t=b; b++; } std::make_heap(S.heap.begin(),S.heap.end(),EvCmp()); if(fair_hook) fair_hook(b); }
void sched_point(){
  if(!S.cur) return;
  S.steps++; S.seq++; S.now+=S.sc.cost;
  if(!S.fair && (long)S.steps>S.sc.fair_after) fair_begin();
  if((long)S.steps>S.sc.max_steps) report_stuck("no-progress-in-step-budget");
  if(S.sc.stallp>0 && fault("stall",S.sc.stallp)){ S.cur->st=F_STALLED; S.cur->wake=S.now+1+fault_amount(S.sc.stallmax); }
  switch_to(pick());
}
void block_on(PredFn f,void*arg,const char*why){
  if(!S.cur){ if(!f(arg)) sim_error("block outside fiber (%s)",why); return; }
  Fiber*c=S.cur; c->st=F_BLOCKED; c->pred=f; c->parg=arg; c->why=why;
  S.steps++; S.seq++; S.now+=S.sc.cost;
  if((long)S.steps>S.sc.max_steps) report_stuck("no-progress-in-step-budget");
  if(!S.fair && (long)S.steps>S.sc.fair_after) fair_begin();
  switch_to(pick());
}
static void fiber_entry(){ Fiber*f=S.cur; f->fn(f->arg); fiber_exit(); abort(); }
void fiber_exit(){
  Fiber*f=S.cur; f->st=F_DONE; progress();
  bool all=true; for(auto g:S.fibers) if(g->tid==0&&g->st!=F_DONE) all=false;
  if(all){ end_run(1); }
  switch_to(pick());
  abort();
}
Fiber* new_fiber(int rank,void(*fn)(void*),void*arg){
  Fiber*f=new Fiber; f->id=(int)S.fibers.size(); f->rank=rank; f->fn=fn; f->arg=arg;
  int t=0; for(auto g:S.fibers) if(g->rank==rank) t++; f->tid=t;
  char*m=(char*)mmap(nullptr,STK+8192,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
  if(m==MAP_FAILED) sim_error("fiber stack");
  mprotect(m,4096,PROT_NONE);
  f->stack=m; f->stksz=STK+8192;
  uintptr_t top=((uintptr_t)m+f->stksz-64)&~15ull;
  void**sp=(void**)top; *--sp=nullptr; *--sp=(void*)fiber_entry; for(int i=0;i<6;i++) *--sp=nullptr;
  f->sp=sp; f->prio=(long)(S.srng.next()%1000000);
  S.fibers.push_back(f); progress(); return f;
}
int cur_rank(){ return S.cur?S.cur->rank:-1; }
extern "C" {
int sim_rank(){ return S.cur?S.cur->rank:-1; }
int sim_nprocs(){ return S.nproc; }
uint64_t sim_seq(){ return ++S.seq; }
void sim_yield(){ sched_point(); }
void sim_stall(long ns){ if(!S.cur) return; if(S.fair||S.decisions>S.sc.cutoff){ sched_point(); return; } count("stall:compute"); S.cur->st=F_STALLED; S.cur->wake=S.now+ns; S.steps++; S.seq++; switch_to(pick()); }
void sim_fail(const char*cls,const char*fmt,...){ char b[900]; va_list ap; va_start(ap,fmt); vsnprintf(b,sizeof b,fmt,ap); va_end(ap); violation(cls,"%s",b); }
void sim_trace(const char*fmt,...){ va_list ap; va_start(ap,fmt); vtrace(fmt,ap); va_end(ap); }
void sim_probe(const char*n){ char b[48]; snprintf(b,sizeof b,"probe:%s",n); count(b); }
void sim_count(const char*n,long k){ count(n,k); }
void* sim_get_state(){ return S.wlstate; } void sim_set_state(void*p){ S.wlstate=p; }
int sim_thread(void(*fn)(void*),void*arg){ Fiber*f=new_fiber(S.cur->rank,fn,arg); sched_point(); return f->id; }
static bool done_pred(void*p){ return ((Fiber*)p)->st==F_DONE; }
void sim_join(int id){ block_on(done_pred,S.fibers[id],"join"); }
struct Oob { int n=0; int gen=0; };
static std::map<int,Oob> g_oob;
struct OobW { Oob*o; int gen; };
static bool oob_pred(void*p){ auto*w=(OobW*)p; return w->o->gen!=w->gen; }
void sim_oob_barrier(int id,int n){ Oob&o=g_oob[id]; OobW w{&o,o.gen}; progress(); if(++o.n==n){ o.n=0; o.gen++; sched_point(); return; } block_on(oob_pred,&w,"user barrier"); }
void sim_block_until(bool(*f)(void*),void*arg,const char*why){ block_on(f,arg,why); }
long sim_env_set(const char*n,const char*v){ S.env[n]=v; return 0; }

// memory-access preemption (images compiled with -fsanitize=thread use these as scheduling points)
static void mem_preempt(){ if(S.sc.pre_mean<=0||S.fair||!S.cur||S.decisions>S.sc.cutoff){ S.preempt_left=1000000; return; } count("preempt:memory"); progress(); sched_point(); if(S.preempt_left<=0) S.preempt_left=1+(long)(S.sc.pre_mean*2*S.srng.unit()); }
#define MP if(__builtin_expect(--S.preempt_left==0,0)) mem_preempt();
void __tsan_init(){} void __tsan_func_entry(void*){} void __tsan_func_exit(){}
void __tsan_read1(void*){MP} void __tsan_read2(void*){MP} void __tsan_read4(void*){MP} void __tsan_read8(void*){MP} void __tsan_read16(void*){MP}
void __tsan_write1(void*){MP} void __tsan_write2(void*){MP} void __tsan_write4(void*){MP} void __tsan_write8(void*){MP} void __tsan_write16(void*){MP}
void __tsan_unaligned_read2(void*){MP} void __tsan_unaligned_read4(void*){MP} void __tsan_unaligned_read8(void*){MP} void __tsan_unaligned_read16(void*){MP}
void __tsan_unaligned_write2(void*){MP} void __tsan_unaligned_write4(void*){MP} void __tsan_unaligned_write8(void*){MP} void __tsan_unaligned_write16(void*){MP}
void __tsan_read_range(void*,long){MP} void __tsan_write_range(void*,long){MP}
void __tsan_volatile_read4(void*){MP} void __tsan_volatile_read8(void*){MP} void __tsan_volatile_write4(void*){MP} void __tsan_volatile_write8(void*){MP}
void __tsan_volatile_read1(void*){MP} void __tsan_volatile_write1(void*){MP} void __tsan_volatile_read2(void*){MP} void __tsan_volatile_write2(void*){MP}
void __tsan_vptr_update(void**,void*){MP} void __tsan_vptr_read(void**){MP}
#define AT(N,T) \
 T __tsan_atomic##N##_load(const volatile T*a,int){ MP return __atomic_load_n(a,5);} \
 void __tsan_atomic##N##_store(volatile T*a,T v,int){ MP __atomic_store_n(a,v,5); progress(); } \
 T __tsan_atomic##N##_exchange(volatile T*a,T v,int){ MP progress(); return __atomic_exchange_n(a,v,5);} \
 T __tsan_atomic##N##_fetch_add(volatile T*a,T v,int){ MP progress(); return __atomic_fetch_add(a,v,5);} \
 T __tsan_atomic##N##_fetch_sub(volatile T*a,T v,int){ MP progress(); return __atomic_fetch_sub(a,v,5);} \
 T __tsan_atomic##N##_fetch_and(volatile T*a,T v,int){ MP return __atomic_fetch_and(a,v,5);} \
 T __tsan_atomic##N##_fetch_or(volatile T*a,T v,int){ MP return __atomic_fetch_or(a,v,5);} \
 int __tsan_atomic##N##_compare_exchange_strong(volatile T*a,T*c,T v,int,int){ MP progress(); return __atomic_compare_exchange_n(a,c,v,0,5,5);} \
 int __tsan_atomic##N##_compare_exchange_weak(volatile T*a,T*c,T v,int,int){ MP progress(); return __atomic_compare_exchange_n(a,c,v,0,5,5);} \
 T __tsan_atomic##N##_compare_exchange_val(volatile T*a,T c,T v,int,int){ MP progress(); __atomic_compare_exchange_n(a,&c,v,0,5,5); return c;}
AT(8,unsigned char) AT(16,unsigned short) AT(32,unsigned int) AT(64,unsigned long)
void __tsan_atomic_thread_fence(int){} void __tsan_atomic_signal_fence(int){}
void mem_chunk_point(){ if(S.sc.pre_mean>0&&S.cur&&!S.fair){ S.preempt_left-=8; if(S.preempt_left<=0){ S.preempt_left=1; mem_preempt(); } } }
}
void fill_result_ok(){ fill_result(1); }
void sim_start(){ if(S.fibers.empty()) return; Fiber*f=pick(); S.cur=f; f->lastrun=0; ctx_switch(&S.main_sp,f->sp); }
