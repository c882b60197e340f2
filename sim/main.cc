// Driver: loads the process images, generates and runs simulated executions, gates,
// minimises and replays violations, writes the evidence.
#include "core.h"
#include <dlfcn.h>
#include <link.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <time.h>
#include <errno.h>
#include <ucontext.h>
#include <regex.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <algorithm>
#include <fstream>
#include <sstream>
#include <set>
static const char* PORTS[]={"ts","pr","mt","pt","mpi3","fine"}; enum { NPORT=6 };
static std::string imgdir, exe; static int MAXP=10;
static std::vector<std::vector<void*>> imgs(NPORT);
// coverage of the library (only in images built with SIMGA_COV): one byte per code byte of the image, shared by all runs
static unsigned char*g_cov[NPORT]; enum { COVSZ=1<<25 }; static struct CR { unsigned long lo,hi; unsigned char*m; } g_covr[80]; static int g_ncovr; static thread_local int g_covlast;
extern "C" __attribute__((no_instrument_function)) void __sanitizer_cov_trace_pc(){ unsigned long pc=(unsigned long)__builtin_return_address(0); int i=g_covlast; if(i<g_ncovr&&pc-g_covr[i].lo<g_covr[i].hi-g_covr[i].lo){ g_covr[i].m[pc-g_covr[i].lo]=1; return; } for(i=0;i<g_ncovr;i++) if(pc-g_covr[i].lo<g_covr[i].hi-g_covr[i].lo){ g_covr[i].m[pc-g_covr[i].lo]=1; g_covlast=i; return; } }
static void cov_image(int p,void*h){ if(!getenv("SIMGA_COV")) return; struct link_map*lm=nullptr; dlinfo(h,RTLD_DI_LINKMAP,&lm); if(!g_cov[p]) g_cov[p]=(unsigned char*)mmap(0,COVSZ,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); Elf64_Ehdr*eh=(Elf64_Ehdr*)lm->l_addr; Elf64_Phdr*ph=(Elf64_Phdr*)(lm->l_addr+eh->e_phoff); unsigned long sz=0; for(int i=0;i<eh->e_phnum;i++) if(ph[i].p_type==PT_LOAD) sz=std::max(sz,(unsigned long)(ph[i].p_vaddr+ph[i].p_memsz)); g_covr[g_ncovr++]={lm->l_addr,lm->l_addr+std::min(sz,(unsigned long)COVSZ),g_cov[p]}; }
static void cov_dump(){ const char*d=getenv("SIMGA_COV"); if(!d) return; for(int p=0;p<NPORT;p++) if(g_cov[p]){ FILE*f=fopen((std::string(d)+"/"+PORTS[p]+"."+std::to_string(getpid())+".cov").c_str(),"w"); for(long i=0;i<COVSZ;i++) if(g_cov[p][i]) fprintf(f,"%lx\n",i); fclose(f); } }
typedef const Workload*(*findfn)(const char*);
static double wall(){ struct timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+t.tv_nsec*1e-9; }

static void need_port(int p){
  if(!imgs[p].empty()) return;
  for(int i=0;i<MAXP;i++){ std::string f=imgdir+"/"+PORTS[p]+"."+std::to_string(i)+".so"; void*h=dlopen(f.c_str(),RTLD_LAZY|RTLD_LOCAL); if(!h){ if(i>=3) break; fprintf(stderr,"dlopen %s: %s\n",f.c_str(),dlerror()); exit(3);} imgs[p].push_back(h); cov_image(p,h); } }
static bool have_port(int p){ return access((imgdir+"/"+PORTS[p]+".0.so").c_str(),R_OK)==0; }
static const Workload* find_wl(int port,int rank,const std::string&n){ findfn f=(findfn)dlsym(imgs[port].at(rank),"wl_find"); if(!f){ fprintf(stderr,"no wl_find\n"); exit(3);} const Workload*w=f(n.c_str()); if(!w){ fprintf(stderr,"no workload %s\n",n.c_str()); exit(3);} return w; }

static void sched_from(const Program&p,SchedCfg&c){
  c.seed=p.get("s.seed",1); c.strategy=(int)p.get("s.strategy",0); c.stick=c.strategy==1?p.get("s.stick",500)/1000.0:(double)p.get("s.stick",100);
  c.maxlat=p.get("s.maxlat",1000); c.heavy=(int)p.get("s.heavy",0); c.cost=p.get("s.cost",200); c.stallp=p.get("s.stallp",0)/1e5; c.stallmax=p.get("s.stallmax",100000);
  c.iprobe_false=p.get("s.iprobe",0)/1000.0; c.test_false=p.get("s.test",0)/1000.0; c.eager=p.get("s.eager",4096); c.lazyisend=p.get("s.lazy",0)/1000.0; c.syncsend=(int)p.get("s.sync",0);
  c.collsync=(int)p.get("s.collsync",0); c.pre_mean=(double)p.get("s.premean",0); c.fair_after=p.get("s.fair_after",400000); c.max_steps=p.get("s.max_steps",8000000); c.victim=(int)p.get("s.victim",0);
  c.cutoff=p.get("s.cutoff",-1)<0?~0ull:p.get("s.cutoff"); c.faultcut=p.get("s.faultcut",-1)<0?~0ull:p.get("s.faultcut"); c.rma_ordered=(int)p.get("s.rma_ordered",1); }
static void gen_sched(Program&p,Rng&r){
  p.set("s.seed",(long)(r.next()>>2));
  int st=(int)r.pick({0,0,1,1,1,2,2,3,4}); p.set("s.strategy",st);
  p.set("s.stick",st==1?r.pick({300,700,900,980,995}):st==2?r.pick({30,100,300,1000,4000}):st==3?r.pick({2,5,20,100}):r.pick({200,1000,5000}));
  p.set("s.maxlat",r.pick({0,300,3000,3000,30000,300000,2000000})); p.set("s.heavy",r.pick({0,0,0,10,100})); p.set("s.cost",r.pick({20,100,100,500,3000}));
  if(r.chance(0.25)){ p.set("s.stallp",r.pick({20,100,400})); p.set("s.stallmax",r.pick({5000,100000,3000000})); }
  if(r.chance(0.4)) p.set("s.iprobe",r.pick({50,300,700})); if(r.chance(0.4)) p.set("s.test",r.pick({100,500}));
  p.set("s.eager",r.pick({0,48,200,4096,4096,1000000})); p.set("s.lazy",r.pick({0,0,500,1000})); p.set("s.sync",r.chance(0.12)); p.set("s.collsync",r.chance(0.15)); p.set("s.victim",r.below(8));
  p.set("s.premean",r.pick({0,15,60,60,300,2000})); p.set("s.fair_after",400000); p.set("s.max_steps",8000000); }

static std::string dump(const Program&p){ std::ostringstream o; o<<"workload "<<p.workload<<"\nprop "<<p.prop<<"\n"; for(auto&c:p.cfg) o<<"cfg "<<c.first<<" "<<c.second<<"\n"; for(auto&q:p.ops){ o<<"op "<<q.kind<<" "<<q.rank<<" "<<q.a.size(); for(long v:q.a) o<<" "<<v; o<<"\n"; } return o.str(); }
static bool load(const char*f,Program&p,std::map<std::string,std::string>&meta){ std::ifstream in(f); if(!in) return false; std::string l; while(std::getline(in,l)){ if(l.empty()||l[0]=='#') continue; std::istringstream s(l); std::string k; s>>k; if(k=="workload") s>>p.workload; else if(k=="prop") s>>p.prop; else if(k=="cfg"){ std::string n; long v; s>>n>>v; p.cfg[n]=v; } else if(k=="op"){ Op o; size_t n; s>>o.kind>>o.rank>>n; for(size_t i=0;i<n;i++){ long v; s>>v; o.a.push_back(v);} p.ops.push_back(o); } else { std::string rest; std::getline(s,rest); meta[k]=rest.empty()?rest:rest.substr(1); } } return true; }

// ------------------------------------------------------------- one run (in a forked child)
static void fiber_main(void*a){ long r=(long)a; const Workload*w=find_wl((int)S.prog->get("port"),(int)r,S.prog->workload); w->main(*S.prog); }
static char altstk[65536];
static void onsig(int sig,siginfo_t*si,void*uc){
  ucontext_t*u=(ucontext_t*)uc; void*pc=(void*)u->uc_mcontext.gregs[REG_RIP]; Dl_info di; const char*sym="?"; const char*obj=""; if(dladdr(pc,&di)){ if(di.dli_sname) sym=di.dli_sname; if(di.dli_fname) obj=strrchr(di.dli_fname,'/')?strrchr(di.dli_fname,'/')+1:di.dli_fname; }
  if(sig==SIGVTALRM) violation("hang","a process computes for ever without calling the system (in %s)",sym);
  if(!S.cur) sim_error("simulator crashed: signal %d in %s %s at %p",sig,sym,obj,si->si_addr);
  bool own=strstr(obj,".so")==nullptr || !strncmp(obj,"libc",4)||!strncmp(obj,"libstdc",7);
  violation(sig==SIGFPE?"fpe":"crash","signal %d in %s%s",sig,sym,own?" (called by the library)":""); }
extern "C" int sim_comm_live(); 
static void child_run(Program&p,Result*res,int verbose,int errfd){
  memset(res,0,sizeof *res);
  signal(SIGPIPE,SIG_DFL); stack_t ss; memset(&ss,0,sizeof ss); ss.ss_sp=altstk; ss.ss_size=sizeof altstk; sigaltstack(&ss,nullptr);
  struct sigaction sa; memset(&sa,0,sizeof sa); sa.sa_sigaction=onsig; sa.sa_flags=SA_SIGINFO|SA_ONSTACK|SA_NODEFER; for(int s:{SIGSEGV,SIGBUS,SIGFPE,SIGILL,SIGVTALRM,SIGABRT}) sigaction(s,&sa,nullptr);
  struct itimerval tv={{0,0},{20,0}}; setitimer(ITIMER_VIRTUAL,&tv,nullptr);
  S.res=res; S.prog=&p; S.verbose=verbose; sched_from(p,S.sc); S.srng=Rng(S.sc.seed); S.frng=Rng(S.sc.seed^0xfau*77777);
  int port=(int)p.get("port"); S.nproc=(int)p.get("nproc"); if(S.nproc<1||S.nproc>(int)imgs[port].size()) sim_error("nproc %d with %zu images of port %d",S.nproc,imgs[port].size(),port);
  S.nodes=(int)p.get("nodes",1); bool cyc=p.get("cyclic",0); for(int i=0;i<S.nproc;i++) S.nodeof.push_back(cyc?i%S.nodes:i*S.nodes/S.nproc); if(long nm=p.get("nodemap",0)){ int k=0; for(int i=0;i<S.nproc;i++){ if(i&&(nm>>i&1)) k++; S.nodeof[i]=k; } S.nodes=k+1; }
  S.preempt_left= S.sc.pre_mean>0?(long)S.sc.pre_mean:-1;
  for(auto&c:p.cfg) if(c.first.rfind("env.",0)==0) S.env[c.first.substr(4)]=std::to_string(c.second);
  mpi_reset(); os_reset();
  S.wl=find_wl(port,0,p.workload); if(S.wl->setup) S.wl->setup(p);
  for(int i=0;i<S.nproc;i++) new_fiber(i,fiber_main,(void*)(long)i);
  extern void sim_start(); sim_start();
  os_end_checks(); if(S.wl->check) S.wl->check(p);
  extern void fill_result_ok(); fill_result_ok(); fflush(nullptr); _exit(0); }
struct Kid { pid_t pid=0; double t0=0; };
static void spawn(Program&p,Result*res,Kid&k,int verbose=0){
  need_port((int)p.get("port")); res->status=0; fflush(nullptr); k.t0=wall(); k.pid=fork(); if(k.pid<0){ perror("fork"); exit(3);} 
  if(k.pid==0){ if(!verbose){ extern int g_outfd; g_outfd=memfd_create("out",0); int fd=g_outfd; fcntl(fd,F_SETFL,O_APPEND); dup2(fd,1); dup2(fd,2); } child_run(p,res,verbose,2); } }
static void reap(Kid&k,Result*res){
  int st; double lim=k.t0+90; for(;;){ pid_t r=waitpid(k.pid,&st,WNOHANG); if(r==k.pid) break; if(r<0&&errno!=EINTR) break; if(wall()>lim){ kill(k.pid,SIGKILL); waitpid(k.pid,&st,0); res->status=3; snprintf(res->cls,64,"SIMERROR"); snprintf(res->msg,200,"run exceeded its wall-clock limit"); return; } 
    struct timespec ts={0,wall()-k.t0<0.02?100000:1000000}; nanosleep(&ts,nullptr); }
  if(res->status==0){ res->status=3; snprintf(res->cls,64,"SIMERROR"); snprintf(res->msg,200,"run ended without a result (wait status %x)",st); } }
static void run1(Program&p,Result*res,int verbose=0){ Kid k; spawn(p,res,k,verbose); int st; 
  // fast path: blocking wait with alarm fallback
  double lim=k.t0+0.0; (void)lim; pid_t r; int n=0; while((r=waitpid(k.pid,&st,WNOHANG))==0&&n<40){ struct timespec ts={0,50000}; nanosleep(&ts,nullptr); n++; }
  if(r==k.pid){ if(res->status==0){ res->status=3; snprintf(res->cls,64,"SIMERROR"); snprintf(res->msg,200,"run ended without a result (wait status %x)",st);} return; }
  reap(k,res); }
static Result* shres(int n=1){ void*p=mmap(nullptr,sizeof(Result)*n,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); return (Result*)p; }

// ------------------------------------------------------------- generation
struct Target { std::string wl; int weight; };
static std::map<std::string,std::vector<Target>> g_targets;
static std::vector<Target> targets_of(const std::string&spec){ std::vector<Target> v; std::istringstream s(spec); std::string t; while(std::getline(s,t,',')){ auto c=t.find(':'); Target x; x.wl=t.substr(0,c); x.weight=c==std::string::npos?1:atoi(t.c_str()+c+1); v.push_back(x);} return v; }
static uint64_t mix(uint64_t a,uint64_t b){ Rng r(a*0x9E3779B97F4A7C15ull+b*0xD1B54A32D192ED03ull+17); r.next(); return r.next(); }
static uint64_t hstr(const std::string&s){ uint64_t h=1469598103934665603ull; for(char c:s){ h^=(unsigned char)c; h*=1099511628211ull; } return h; }
static int g_redet=0; static int forced_port=-1,finepct=0; static std::map<std::string,long> overrides;
static Program generate(const std::string&prop,const std::vector<Target>&tg,uint64_t seed,uint64_t idx){
  Rng r(mix(mix(seed,hstr(prop)),idx)); Program p; p.prop=prop; int tot=0; for(auto&t:tg) tot+=t.weight; long x=r.below(tot); for(auto&t:tg){ if(x<t.weight){ p.workload=t.wl; break;} x-=t.weight; }
  gen_sched(p,r); int port=(int)r.pick({0,1,1,2,3,4}); if(forced_port>=0) port=forced_port; else if(finepct){ Rng q(mix(mix(seed,hstr(prop)^77),idx)); if(q.below(100)<finepct) port=5; } p.set("port",port);
  for(auto&o:overrides) p.set(o.first.c_str(),o.second);
  need_port(port); const Workload*w=find_wl(port,0,p.workload); w->gen(p,r);
  for(auto&o:overrides) p.set(o.first.c_str(),o.second);
  port=(int)p.get("port"); need_port(port);
  if(!p.cfg.count("nproc")) p.set("nproc",p.get("np",4));
  return p; }

// ------------------------------------------------------------- search
enum { MAXV=16, MAXILV=1<<16 };
struct WStats { long runs,ok,viol,known,simerr,redet,detbad; uint64_t steps,switches,decisions,faults,simtime; int ncnt; Counter cnt[400]; long nilv; uint64_t ilv[MAXILV]; int nv; struct { uint64_t idx; char cls[64]; char msg[400]; uint64_t hash; } v[MAXV]; char err[400]; long perport[NPORT]; long knownhit[64]; double cpu; };
static void addcnt(WStats*w,const char*n,long k){ for(int i=0;i<w->ncnt;i++) if(!strcmp(w->cnt[i].name,n)){ w->cnt[i].n+=k; return; } if(w->ncnt<400){ snprintf(w->cnt[w->ncnt].name,40,"%s",n); w->cnt[w->ncnt++].n=k; } }
struct Known { std::string id,prop,what,re,replay; regex_t rx; };
static std::vector<Known> known;
static std::string jget(const std::string&l,const std::string&k){ auto p=l.find("\""+k+"\""); if(p==std::string::npos) return ""; p=l.find('"',l.find(':',p)+1); std::string o; for(++p;p<l.size()&&l[p]!='"';p++){ if(l[p]=='\\'&&p+1<l.size()) p++; o+=l[p]; } return o; }
static void load_known(const std::string&f,const std::string&prop){ std::ifstream in(f); std::string l; while(std::getline(in,l)){ if(l.empty()||l[0]!='{') continue; Known k; k.prop=jget(l,"property"); if(k.prop!=prop||jget(l,"status")=="fixed") continue; k.id=jget(l,"id"); k.what=jget(l,"what"); k.re=jget(l,"match"); k.replay=jget(l,"replay"); if(regcomp(&k.rx,k.re.c_str(),REG_EXTENDED|REG_NOSUB)){ fprintf(stderr,"bad regex %s\n",k.re.c_str()); exit(3);} known.push_back(k); } }
static int match_known(const Program&p,const char*cls,const char*msg){ std::string s=p.workload+"|"+PORTS[p.get("port")]+"|"+cls+"|"+msg; for(size_t i=0;i<known.size();i++) if(!known[i].re.empty()&&regexec(&known[i].rx,s.c_str(),0,nullptr,0)==0) return (int)i; return -1; }
struct Shared { volatile uint64_t next; volatile int stop; };
static void worker(int id,const std::string&prop,const std::vector<Target>&tg,uint64_t seed,double tend,uint64_t maxruns,Shared*sh,WStats*w){
  Result*res=shres(2); 
  while(!sh->stop&&wall()<tend){
    uint64_t i=__atomic_fetch_add(&sh->next,1,__ATOMIC_SEQ_CST); if(i>=maxruns) break;
    Program p=generate(prop,tg,seed,i);
    run1(p,res); w->runs++; w->perport[p.get("port")]++;
    w->steps+=res->steps; w->switches+=res->switches; w->decisions+=res->decisions; w->faults+=res->faults; w->simtime+=res->simtime;
    for(int k=0;k<res->ncnt;k++) addcnt(w,res->cnt[k].name,res->cnt[k].n);
    addcnt(w,("runs:"+p.workload).c_str(),1);
    if(w->nilv<MAXILV) w->ilv[w->nilv++]=res->ilv^res->hash;
    if(res->status==1) w->ok++;
    else if(res->status==3){ w->simerr++; snprintf(w->err,400,"run %lu: %s",(unsigned long)i,res->msg); }
    else { int kn=match_known(p,res->cls,res->msg); if(kn>=0){ w->known++; if(kn<64) w->knownhit[kn]++; } else { w->viol++; if(w->nv<MAXV){ auto&v=w->v[w->nv++]; v.idx=i; v.hash=res->hash; memcpy(v.cls,res->cls,64); snprintf(v.msg,400,"%s",res->msg); } if(!getenv("SIMGA_KEEPGOING")) sh->stop=1; } }
    if(res->status!=3&&(i%24==5||g_redet)){ run1(p,res+1); w->redet++; if(res[1].hash!=res->hash||res[1].status!=res->status||strcmp(res[1].cls,res->cls)){ w->detbad++; snprintf(w->err,400,"run %lu is not deterministic: hash %lx/%lx status %d/%d steps %lu/%lu %s / %s",(unsigned long)i,(unsigned long)res->hash,(unsigned long)res[1].hash,res->status,res[1].status,(unsigned long)res->steps,(unsigned long)res[1].steps,res->msg,res[1].msg); } }
  }
  struct rusage ru; cov_dump(); getrusage(RUSAGE_CHILDREN,&ru); w->cpu=ru.ru_utime.tv_sec+ru.ru_stime.tv_sec; _exit(0); }

// ------------------------------------------------------------- minimisation
static bool same(const Result&r,const std::string&cls){ return r.status==2&&cls==r.cls; }
static int NJ=8;
// evaluate several candidates in parallel; index of the first that still fails, or -1
static int eval_batch(std::vector<Program>&c,Result*res,const std::string&cls){
  std::vector<Kid> k(c.size()); for(size_t i=0;i<c.size();i++) spawn(c[i],res+i,k[i]); int best=-1; for(size_t i=0;i<c.size();i++){ reap(k[i],res+i); if(best<0&&same(res[i],cls)&&match_known(c[i],res[i].cls,res[i].msg)<0) best=(int)i; } return best; }
static Program minimise(Program p,const std::string&cls,double tend){
  Result*res=shres(NJ*2); Rng rr(12345);
  auto tryall=[&](std::vector<Program> c)->bool{ for(size_t i=0;i<c.size();i+=NJ){ std::vector<Program> b(c.begin()+i,c.begin()+std::min(c.size(),i+NJ)); int k=eval_batch(b,res,cls); if(k>=0){ p=b[k]; return true; } if(wall()>tend) return false; } return false; };
  // operations
  for(size_t ch=std::max<size_t>(1,p.ops.size()/2); !p.ops.empty()&&wall()<tend; ){
    std::vector<Program> c; for(size_t s=0;s<p.ops.size();s+=ch){ Program q=p; q.ops.erase(q.ops.begin()+s,q.ops.begin()+std::min(q.ops.size(),s+ch)); c.push_back(q); if(ch*4>=p.ops.size()) for(int e=0;e<3;e++){ Program q2=q; q2.set("s.seed",(long)(rr.next()>>2)); c.push_back(q2);} }
    if(tryall(c)){ ch=std::min(ch,std::max<size_t>(1,p.ops.size()/2)); continue; } if(ch==1) break; ch=std::max<size_t>(1,ch/2); }
  // fault and simulator knobs
  for(const char*k:{"s.stallp","s.iprobe","s.test","s.heavy","s.lazy","s.sync","s.collsync","s.premean","s.maxlat"}) if(p.get(k,0)&&wall()<tend){ Program q=p; q.set(k,0); tryall({q}); }
  for(auto kv:std::map<std::string,long>(p.cfg)) if(kv.first.rfind("sim.",0)==0&&kv.second&&wall()<tend){ Program q=p; q.set(kv.first.c_str(),0); tryall({q}); }
  // schedule: shortest prefix of random decisions that still fails
  Result*r1=shres(1); run1(p,r1); if(same(*r1,cls)){
    long hi=(long)r1->decisions+1; { Program q=p; q.set("s.cutoff",hi); if(tryall({q})){ long lo=0; while(lo<hi&&wall()<tend){ std::vector<Program> c; std::vector<long> pts; for(int j=0;j<NJ;j++){ long v=lo+(hi-lo)*j/NJ; if(!pts.empty()&&v==pts.back()) continue; pts.push_back(v); Program q2=p; q2.set("s.cutoff",v); c.push_back(q2);} int k=eval_batch(c,res,cls); if(k>=0){ p=c[k]; hi=pts[k]; if(k==0) break; lo=pts[k-1]+1; } else { lo=pts.back()+1; } } } }
    long fh=(long)r1->faults; if(fh>0){ std::vector<Program> c; for(long v:{0L,1L,2L,3L,fh/2}) if(v<=fh){ Program q=p; q.set("s.faultcut",v); c.push_back(q);} tryall(c); } }
  return p; }
static std::string jstr(const std::string&s){ std::string o="\""; for(unsigned char c:s){ if(c=='"'||c=='\\'){ o+='\\'; o+=c; } else if(c<32){ char b[8]; snprintf(b,8,"\\u%04x",c); o+=b; } else o+=c; } return o+"\""; }
static std::string write_replay(const std::string&dir,const std::string&prop,Program&p,Result&r,const char*tag){
  std::string f=dir+"/"+prop+"-"+tag+".replay"; std::ofstream o(f); o<<"# minimised failing execution; replay with: /verif/check.py replay "<<f<<"\nport "<<PORTS[p.get("port")]<<"\nclass "<<r.cls<<"\nmsg "<<r.msg<<"\nhash "<<r.hash<<"\nsteps "<<r.steps<<"\nfaults "<<r.faults<<"\n"<<dump(p); std::istringstream t(std::string(r.trace,r.tracelen)); std::string l; o<<"# ---- trace (last events)\n"; while(std::getline(t,l)) o<<"# "<<l<<"\n"; return f; }
static int do_replay(const char*f,int verbose){ Program p; std::map<std::string,std::string> m; if(!load(f,p,m)){ fprintf(stderr,"cannot read %s\n",f); return 3; } extern int g_tracing; g_tracing=verbose>1; Result*r=shres(1); run1(p,r,verbose);
  printf("replay %s: status=%d class=%s steps=%lu hash=%lu faults=%lu\n%s\n",f,r->status,r->cls,(unsigned long)r->steps,(unsigned long)r->hash,(unsigned long)r->faults,r->msg); if(verbose>1) printf("%.*s",r->tracelen,r->trace);
  if(r->status!=2) return r->status==1?0:3; bool exact=m["class"]==r->cls&&(m["hash"].empty()||m["hash"]==std::to_string(r->hash)); printf("%s\n",exact?"REPRODUCED exactly":"failed differently"); return exact?1:4; }

int main(int ac,char**av){
  if(!getenv("SIMGA_NOASLR")){ setenv("SIMGA_NOASLR","1",1); int o=personality(0xffffffff); if(o!=-1&&!(o&ADDR_NO_RANDOMIZE)&&personality(o|ADDR_NO_RANDOMIZE)!=-1) execv("/proc/self/exe",av); }
  setvbuf(stdout,nullptr,_IOLBF,0);
  std::map<std::string,std::string> a; std::string cmd=ac>1?av[1]:""; std::vector<std::string> pos; for(int i=2;i<ac;i++){ std::string s=av[i]; if(s.rfind("--",0)==0){ auto e=s.find('='); if(e==std::string::npos) a[s.substr(2)]="1"; else a[s.substr(2,e-2)]=s.substr(e+1);} else pos.push_back(s); }
  imgdir=a.count("images")?a["images"]:"/verif/build"; NJ=a.count("jobs")?atoi(a["jobs"].c_str()):8; 
  for(auto&x:a) if(x.first.rfind("set:",0)==0) overrides[x.first.substr(4)]=atol(x.second.c_str());
  g_redet=a.count("redet"); if(a.count("finepct")) finepct=atoi(a["finepct"].c_str()); if(a.count("port")) for(int i=0;i<NPORT;i++) if(a["port"]==PORTS[i]) forced_port=i;
  { char b[512]; ssize_t n=readlink("/proc/self/exe",b,511); b[n>0?n:0]=0; exe=b; }
  if(cmd=="replay") return do_replay(pos.at(0).c_str(),a.count("v")?atoi(a["v"].c_str()):0);
  std::string prop=a["prop"]; auto tg=targets_of(a["targets"]); uint64_t seed=a.count("seed")?strtoull(a["seed"].c_str(),0,10):1; 
  if(cmd=="one"){ extern int g_tracing; g_tracing=a.count("trace"); uint64_t idx=strtoull(a["idx"].c_str(),0,10); Program p=generate(prop,tg,seed,idx); if(a.count("dump")){ printf("%s",dump(p).c_str()); if(a["dump"]=="only") return 0; } Result*r=shres(1); run1(p,r,a.count("v")?atoi(a["v"].c_str()):0); printf("status=%d cls=%s msg=%s steps=%lu switches=%lu decisions=%lu faults=%lu simtime=%lu hash=%lx\n",r->status,r->cls,r->msg,(unsigned long)r->steps,(unsigned long)r->switches,(unsigned long)r->decisions,(unsigned long)r->faults,(unsigned long)r->simtime,(unsigned long)r->hash); if(a.count("cnt")) for(int i=0;i<r->ncnt;i++) printf("  %s %ld\n",r->cnt[i].name,r->cnt[i].n); if(a.count("trace")) printf("%.*s",r->tracelen,r->trace); return 0; }
  if(cmd!="search") { fprintf(stderr,"usage\n"); return 3; }
  double t0=wall(), budget=a.count("budget")?atof(a["budget"].c_str()):30; uint64_t maxruns=a.count("runs")?strtoull(a["runs"].c_str(),0,10):~0ull; double tend=t0+budget;
  std::string outdir=a.count("out")?a["out"]:"/tmp"; load_known(a["known"],prop);
  for(int i=0;i<NPORT;i++) if(have_port(i)&&(forced_port<0||i==forced_port)) need_port(i);
  printf("seed %lu property %s\n",(unsigned long)seed,prop.c_str());
  // known findings: replay each one
  for(auto&k:known) if(!k.replay.empty()){ Program p; std::map<std::string,std::string> m; Result*r=shres(1); if(load(k.replay.c_str(),p,m)){ run1(p,r); if(r->status==2&&(m["class"]==r->cls||match_known(p,r->cls,r->msg)>=0)) printf("KNOWN-FINDING: property=%s %s %s\n",prop.c_str(),k.id.c_str(),k.what.c_str()); else printf("note: known finding %s no longer reproduces\n",k.id.c_str()); } else { fprintf(stderr,"missing %s\n",k.replay.c_str()); return 3; } }
  Shared*sh=(Shared*)mmap(nullptr,4096,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); sh->next=a.count("from")?strtoull(a["from"].c_str(),0,10):0;
  WStats*ws=(WStats*)mmap(nullptr,sizeof(WStats)*NJ,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
  std::vector<pid_t> pids; for(int i=0;i<NJ;i++){ pid_t p=fork(); if(p==0) worker(i,prop,tg,seed,tend,maxruns,sh,ws+i); pids.push_back(p); }
  for(pid_t p:pids){ int st; waitpid(p,&st,0); if(!WIFEXITED(st)){ fprintf(stderr,"worker died %x\n",st); return 3; } }
  double searchwall=wall()-t0; WStats T; memset(&T,0,sizeof T); std::set<uint64_t> ilv; std::vector<std::tuple<uint64_t,std::string,std::string>> vs; std::string err; 
  for(int i=0;i<NJ;i++){ WStats&w=ws[i]; T.runs+=w.runs; T.ok+=w.ok; T.viol+=w.viol; T.known+=w.known; T.simerr+=w.simerr; T.redet+=w.redet; T.detbad+=w.detbad; T.steps+=w.steps; T.switches+=w.switches; T.decisions+=w.decisions; T.faults+=w.faults; T.simtime+=w.simtime; for(int k=0;k<w.ncnt;k++) addcnt(&T,w.cnt[k].name,w.cnt[k].n); for(int k=0;k<w.nilv;k++) ilv.insert(w.ilv[k]); for(int k=0;k<w.nv;k++) vs.push_back({w.v[k].idx,w.v[k].cls,w.v[k].msg}); if(w.err[0]) err=w.err; for(int k=0;k<NPORT;k++) T.perport[k]+=w.perport[k]; T.cpu+=w.cpu; }
  std::sort(vs.begin(),vs.end());
  if(!err.empty()) printf("note: %s\n",err.c_str());
  int rc=0; std::string vline; Result*r=shres(2);
  if(a.count("list")){ std::map<std::string,int> seen; for(auto&v:vs){ Program p=generate(prop,tg,seed,std::get<0>(v)); printf("idx %lu %s/%s %s: %s\n",(unsigned long)std::get<0>(v),p.workload.c_str(),PORTS[p.get("port")],std::get<1>(v).c_str(),std::get<2>(v).c_str()); } }
  else if(!vs.empty()){
    uint64_t idx=std::get<0>(vs[0]); Program p=generate(prop,tg,seed,idx); run1(p,r); run1(p,r+1);
    printf("violation in run %lu (%s on %s): %s: %s\n",(unsigned long)idx,p.workload.c_str(),PORTS[p.get("port")],std::get<1>(vs[0]).c_str(),std::get<2>(vs[0]).c_str());
    if(r[0].status!=2||r[1].status!=2||r[0].hash!=r[1].hash){ printf("error: the violation does not reproduce (hash %lx %lx)\n",(unsigned long)r[0].hash,(unsigned long)r[1].hash); rc=3; }
    else { std::string cls=r->cls; double mb=a.count("minbudget")?atof(a["minbudget"].c_str()):25; Program q=minimise(p,cls,wall()+mb); extern int g_tracing; g_tracing=1; run1(q,r); if(!same(*r,cls)){ q=p; run1(q,r); }
      char tag[64]; snprintf(tag,64,"%lu-%lu",(unsigned long)seed,(unsigned long)idx); std::string f=write_replay(outdir,prop,q,*r,tag);
      printf("minimised: %zu of %zu operations; %s: %s\n",q.ops.size(),p.ops.size(),r->cls,r->msg);
      std::string c="SIMGA_NOASLR= '"+exe+"' replay --images='"+imgdir+"' '"+f+"' > /dev/null 2>&1"; unsetenv("SIMGA_NOASLR"); int st=system(c.c_str()); int ec=WIFEXITED(st)?WEXITSTATUS(st):99;
      if(ec==1){ rc=1; vline="VIOLATION property="+prop+" replay="+f; } else { printf("error: fresh-process replay of %s ended with %d\n",f.c_str(),ec); rc=3; } } }
  if(rc==0&&T.simerr>0&&T.simerr*50>T.runs){ printf("error: %ld of %ld runs hit simulator errors\n",T.simerr,T.runs); rc=3; }
  if(rc==0&&T.runs<(long)(a.count("minruns")?atol(a["minruns"].c_str()):1)){ printf("error: only %ld runs\n",T.runs); rc=3; }
  // evidence fragment
  if(a.count("evidence")){ std::ofstream o(a["evidence"]); o<<"{\"runs\":"<<T.runs<<",\"ok\":"<<T.ok<<",\"violations\":"<<T.viol<<",\"known_hits\":"<<T.known<<",\"simerrors\":"<<T.simerr<<",\"determinism_reruns\":"<<T.redet<<",\"determinism_mismatches\":"<<T.detbad<<",\"steps\":"<<T.steps<<",\"switches\":"<<T.switches<<",\"decisions\":"<<T.decisions<<",\"faults\":"<<T.faults<<",\"simtime_ns\":"<<T.simtime<<",\"distinct\":"<<ilv.size()<<",\"search_wall\":"<<searchwall<<",\"wall\":"<<wall()-t0<<",\"counters\":{"; for(int i=0;i<T.ncnt;i++) o<<(i?",":"")<<jstr(T.cnt[i].name)<<":"<<T.cnt[i].n; o<<"},\"ports\":{"; for(int i=0;i<NPORT;i++) o<<(i?",":"")<<jstr(PORTS[i])<<":"<<T.perport[i]; o<<"},\"samples\":["; for(int i=0;i<2;i++){ Program p=generate(prop,tg,seed,i); o<<(i?",":"")<<jstr(dump(p).substr(0,1500)); } o<<"]}\n"; }
  printf("%s: %ld runs, %zu distinct executions, %lu steps, %lu faults, %.1fs simulated, %ld violations, %ld known, %ld sim errors, determinism %ld/%ld, wall %.1fs cpu %.0fs\n",prop.c_str(),T.runs,ilv.size(),(unsigned long)T.steps,(unsigned long)T.faults,T.simtime*1e-9,T.viol,T.known,T.simerr,T.redet-T.detbad,T.redet,wall()-t0,T.cpu);
  if(a.count("cnt")) for(int i=0;i<T.ncnt;i++) printf("  %s %ld\n",T.cnt[i].name,T.cnt[i].n);
  if(!vline.empty()) printf("%s\n",vline.c_str());
  return rc; }
