// Simulated operating system: heap, threads, semaphores, shared memory, files, time, environment, exit.
#include "core.h"
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/vfs.h>
#include <sys/statvfs.h>
#include <sys/time.h>
#include <fcntl.h>
#include <unistd.h>
#include <errno.h>
#include <pthread.h>
#include <semaphore.h>
#include <stdarg.h>
#include <signal.h>
#include <time.h>
#include <aio.h>
#include <dlfcn.h>
#include <algorithm>

// ---------------------------------------------------------------- heap
static const uintptr_t ABASE=0x200000000000ull, ASTRIDE=0x1000000000ull, HEAPSZ=0x100000000ull, SHMOFF=0x200000000ull;
enum { RZ=64 };
static const uint64_t MAGIC=0x51a7edb10c000000ull, FREED=0x51a7edfeed000000ull;
struct Hdr { uint64_t magic; uint64_t size; uint32_t rank; uint32_t user; void* caller; char rz[RZ-32]; };
static_assert(sizeof(Hdr)==RZ,"hdr");
struct Arena { uintptr_t base=0,cur=0,end=0,shmcur=0; long live=0,nlive=0; std::map<size_t,std::vector<Hdr*>> fl; std::set<Hdr*> blocks; long armed_at=-1,armed_n=0,count=0,armed_min=0; int armed_shm=0; };
static std::vector<Arena> g_ar; static long g_allocfired=0;
struct ShmObj { int fd; size_t size; bool linked; std::string name; int nmap; };
struct Mapping { uintptr_t a; size_t len; ShmObj* o; size_t off; int rank; };
static std::map<std::string,ShmObj*> g_shm; static std::map<uintptr_t,Mapping> g_maps;
// file contents: pages of the parts that were written, so that files may be huge and sparse
struct Blob { enum { PG=1<<14 }; std::map<long,std::string> pg; long len=0;
  long size()const{ return len; } void clear(){ pg.clear(); len=0; }
  void resize(long n){ if(n<len){ for(auto it=pg.lower_bound(n/PG);it!=pg.end();){ long b=it->first*PG; if(b>=n) it=pg.erase(it); else { memset(&it->second[n-b],0,PG-(n-b)); ++it; } } } len=n; }
  void get(char*b,long off,long n)const{ while(n>0){ long p=off/PG,o=off%PG,k=std::min<long>(n,PG-o); auto it=pg.find(p); if(it==pg.end()) memset(b,0,k); else memcpy(b,it->second.data()+o,k); b+=k; off+=k; n-=k; } }
  void put(const char*b,long off,long n){ if(off+n>len&&n>0) len=off+n; while(n>0){ long p=off/PG,o=off%PG,k=std::min<long>(n,PG-o); std::string&s=pg[p]; if(s.empty()) s.assign(PG,0); memcpy(&s[o],b,k); b+=k; off+=k; n-=k; } } };
struct Inode { Blob data, durable; bool linked=true, dlinked=false; std::string path; long nfail=0; };
struct OFile { Inode* ino=nullptr; ShmObj* shm=nullptr; long pos=0; int flags=0; int rank=0; bool open=false;  bool stdio=false; };
static std::map<std::string,Inode*> g_fs; static std::map<int,OFile> g_fd; static int g_nextfd=1000; static int g_fsarm=0; static long g_iofaults=0; static std::map<int,long> g_iof_rank;
struct Mtx { int owner=-1; int cnt=0; int kind=0; bool destroyed=false; };
struct Sem { long v=0; bool named=false,linked=false; std::string name; };
struct CondV { long gen=0; std::deque<int> waiters; };
static std::map<std::pair<uintptr_t,uintptr_t>,Mtx> g_mtx; static std::map<std::pair<uintptr_t,uintptr_t>,Sem*> g_sem; static std::map<std::string,Sem*> g_nsem;
static std::map<std::pair<uintptr_t,uintptr_t>,CondV> g_cv;
static std::map<int,uint64_t> g_rand;

static Arena& arena(int r){
  if((int)g_ar.size()<=r) g_ar.resize(r+1);
  Arena&a=g_ar[r];
  if(!a.base){
    a.base=ABASE+r*ASTRIDE; a.cur=a.base+4096; a.end=a.base+HEAPSZ; a.shmcur=a.base+SHMOFF;
    void*p=mmap((void*)a.base,HEAPSZ,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED,-1,0);
    if(p!=(void*)a.base) sim_error("arena mmap");
  }
  return a;
}
static bool in_arena(const void*p,int*r){ uintptr_t u=(uintptr_t)p; if(u<ABASE||u>=ABASE+64*ASTRIDE) return false; uintptr_t o=(u-ABASE)%ASTRIDE; *r=(int)((u-ABASE)/ASTRIDE); return o<HEAPSZ; }
static void fill(void*p,size_t n,int c){ if(n<=4096) memset(p,c,n); else { memset(p,c,2048); memset((char*)p+n-1024,c,1024); } }
static void* aalloc(int r,size_t n,bool user,bool zero,size_t align,void*caller){
  Arena&a=arena(r);
  if(!user&&(long)n>=a.armed_min){
    a.count++;
    if(a.armed_at>=0 && a.count>a.armed_at && a.count<=a.armed_at+a.armed_n){ g_allocfired++; count("fault:alloc"); trace("allocation failure injected, %zu bytes",n); errno=ENOMEM; return nullptr; }
  }
  if(n>(size_t)1<<31){ errno=ENOMEM; return nullptr; }
  Hdr*h=nullptr; size_t tot=((n+15)&~15ull);
  if(align<=16 && tot>=32768){ auto it=a.fl.find(tot); if(it!=a.fl.end()&&!it->second.empty()){ h=it->second.back(); it->second.pop_back(); } }
  bool fresh=false;
  if(!h){
    uintptr_t c=a.cur+RZ; size_t al=align>16?align:16; c=(c+al-1)&~(al-1);
    h=(Hdr*)(c-RZ); if(c+tot+RZ>a.end){ errno=ENOMEM; return nullptr; }
    a.cur=c+tot+RZ; fresh=true;
  }
  h->magic=MAGIC; h->size=n; h->rank=r; h->user=user; h->caller=caller; memset(h->rz,0xFB,sizeof h->rz);
  char*p=(char*)h+RZ; memset(p+n,0xFB,tot-n+RZ);
  if(zero){ if(!fresh) memset(p,0,n); } else fill(p,n,0xC5);
  a.blocks.insert(h);
  if(!user){ a.live+=n; a.nlive++; }
  return p;
}
static void check_block(Hdr*h,const char*when){
  char*p=(char*)h+RZ; size_t n=h->size,tot=((n+15)&~15ull);
  for(size_t i=0;i<sizeof h->rz;i++) if((unsigned char)h->rz[i]!=0xFB) violation("memory-corruption","bytes before a %s buffer of %zu bytes of process %d were overwritten (%s)",h->user?"caller's":"library",n,h->rank,when);
  for(size_t i=n;i<tot+RZ;i++) if((unsigned char)p[i]!=0xFB) violation("memory-corruption","byte %zu past the end of a %s buffer of %zu bytes of process %d was overwritten (%s)",i-n,h->user?"caller's":"library",n,h->rank,when);
}
static void afree(void*p,const char*what){
  int r; if(!in_arena(p,&r)){ free(p); return; }
  Hdr*h=(Hdr*)((char*)p-RZ);
  if(S.cur && r!=S.cur->rank) violation("memory-misuse","%s of memory belonging to process %d",what,r);
  if(h->magic==FREED) violation("memory-misuse","double %s",what);
  if(h->magic!=MAGIC) violation("memory-misuse","%s of a pointer that was not allocated",what);
  check_block(h,"at free"); Arena&a=g_ar[r]; a.blocks.erase(h);
  if(!h->user){ a.live-=h->size; a.nlive--; }
  h->magic=FREED; fill(p,h->size,0xDD);
  size_t tot=((h->size+15)&~15ull); if(tot>=32768) a.fl[tot].push_back(h);
}
static std::pair<uintptr_t,uintptr_t> canon(const void*p){
  uintptr_t u=(uintptr_t)p; auto it=g_maps.upper_bound(u);
  if(it!=g_maps.begin()){ --it; if(u>=it->second.a&&u<it->second.a+it->second.len&&it->second.o) return {(uintptr_t)it->second.o,it->second.off+u-it->second.a}; }
  return {0,u};
}
void os_reset(){ g_ar.clear(); g_allocfired=0; }
void os_end_checks(){ for(auto&a:g_ar) for(auto h:a.blocks) check_block(h,"at end of run"); }
static const char* vpath(const char*p,std::string&b){ b=p; return p; }
static Inode* lookup(const char*p){ std::string b; vpath(p,b); auto it=g_fs.find(b); return it==g_fs.end()?nullptr:it->second; }
static double ioP(const char*k){ return g_fsarm? S.prog->get(k,0)/10000.0:0; }
static bool iofault(const char*kind,const char*knob){ if(!g_fsarm) return false; if(!fault(kind,ioP(knob))) return false; return true; }
long g_iofaults_total(){ return g_iofaults; }
static void ioerr(){ g_iofaults++; g_iof_rank[cur_rank()]++; }

extern "C" {
void mem_chunk_point();
void* __wrap_malloc(size_t n){ if(!S.cur) return malloc(n); return aalloc(S.cur->rank,n,false,false,16,__builtin_return_address(0)); }
void* __wrap_calloc(size_t a,size_t b){ if(!S.cur) return calloc(a,b); return aalloc(S.cur->rank,a*b,false,true,16,__builtin_return_address(0)); }
void __wrap_free(void*p){ if(!p) return; afree(p,"free"); }
void* __wrap_realloc(void*p,size_t n){
  int r; if(!p) return __wrap_malloc(n); if(!in_arena(p,&r)) return realloc(p,n);
  Hdr*h=(Hdr*)((char*)p-RZ); if(h->magic!=MAGIC) violation("memory-misuse","realloc of a pointer that was not allocated");
  void*q=__wrap_malloc(n); if(!q) return q; memcpy(q,p,std::min(n,(size_t)h->size)); __wrap_free(p); return q;
}
int __wrap_posix_memalign(void**o,size_t al,size_t n){ if(!S.cur) return posix_memalign(o,al,n); void*p=aalloc(S.cur->rank,n,false,false,al,__builtin_return_address(0)); if(!p) return ENOMEM; *o=p; return 0; }
void* __wrap_memalign(size_t al,size_t n){ void*p=nullptr; __wrap_posix_memalign(&p,al,n); return p; }
void* __wrap_aligned_alloc(size_t al,size_t n){ return __wrap_memalign(al,n); }
void* __wrap_valloc(size_t n){ return __wrap_memalign(4096,n); }
char* __wrap_strdup(const char*s){ size_t n=strlen(s)+1; char*p=(char*)__wrap_malloc(n); if(p) memcpy(p,s,n); return p; }
int __wrap_mallopt(int,int){ return 1; }
void* sim_buf(size_t n){ return aalloc(S.cur->rank,n,true,false,16,nullptr); }
void sim_buf_free(void*p){ if(p) afree(p,"free"); }
void sim_buf_check(void*p){ check_block((Hdr*)((char*)p-RZ),"after an operation"); }
void sim_alloc_arm(int rank,long nth,long nf){ Arena&a=arena(rank); a.armed_min=0; if(nth<0){ a.armed_at=-1; return; } a.armed_at=a.count+nth; a.armed_n=nf; }
void sim_alloc_arm_big(int rank,long nth,long nf,long mn){ sim_alloc_arm(rank,nth,nf); arena(rank).armed_min=mn; }
void sim_shm_fail_next(int which){ arena(S.cur->rank).armed_shm=which; }
long sim_alloc_fired(){ return g_allocfired; }
long sim_heap_live(int r){ return r<(int)g_ar.size()?g_ar[r].live:0; }
long sim_heap_mark(int r){ return (long)arena(r).cur; }
void sim_heap_trace(int r,long mark){ for(auto h:arena(r).blocks) if((long)h>=mark&&!h->user){ Dl_info di; const char*nm="?"; long off=0; if(dladdr(h->caller,&di)){ if(di.dli_sname) nm=di.dli_sname; off=(char*)h->caller-(char*)di.dli_fbase; } trace("live: %lu bytes allocated by %s (+0x%lx)",(unsigned long)h->size,nm,off); } }
int sim_shm_live(){ return (int)g_shm.size(); }
int sim_sem_live(){ return (int)g_nsem.size(); }
long sim_io_faults_all(){ return g_iofaults; }
long sim_io_faults(){ return S.cur?g_iof_rank[cur_rank()]:g_iofaults; }
void* sim_mem_alloc(size_t n){ return aalloc(S.cur->rank,n,false,false,64,__builtin_return_address(0)); }

static void copy_chunked(char*d,const char*s,size_t n){ size_t i=0; while(i<n){ size_t k=std::min(n-i,(size_t)64); memcpy(d+i,s+i,k); i+=k; if(i<n) mem_chunk_point(); } }
void* sim_memcpy(void*d,const void*s,size_t n){ if(S.cur&&n>64&&S.sc.pre_mean>0) copy_chunked((char*)d,(const char*)s,n); else memmove(d,s,n); return d; }
void* sim_memmove(void*d,const void*s,size_t n){ memmove(d,s,n); return d; }

// ------------------------------------------------------------ threads
static bool mtx_free(void*p){ return ((Mtx*)p)->owner<0; }
static Mtx& mtx(const void*m){ return g_mtx[canon(m)]; }
int __wrap_pthread_mutex_init(pthread_mutex_t*m,const pthread_mutexattr_t*a){ Mtx&x=mtx(m); x=Mtx(); if(a) x.kind=((const int*)a)[0]&3; return 0; }
int __wrap_pthread_mutex_destroy(pthread_mutex_t*m){ Mtx&x=mtx(m); if(x.owner>=0) violation("lock-misuse","destroying a locked mutex"); g_mtx.erase(canon(m)); return 0; }
int __wrap_pthread_mutexattr_init(pthread_mutexattr_t*a){ *(int*)a=0; return 0; }
int __wrap_pthread_mutexattr_destroy(pthread_mutexattr_t*){ return 0; }
int __wrap_pthread_mutexattr_settype(pthread_mutexattr_t*a,int t){ *(int*)a=t; return 0; }
int __wrap_pthread_mutexattr_setpshared(pthread_mutexattr_t*,int){ return 0; }
int __wrap_pthread_mutexattr_setrobust(pthread_mutexattr_t*,int){ return 0; }
int __wrap_pthread_mutex_lock(pthread_mutex_t*m){
  if(!S.cur) return 0; sched_point(); Mtx&x=mtx(m);
  if(x.owner==S.cur->id){ if(x.kind==1){ x.cnt++; return 0; } violation("lock-misuse","a task locks a mutex it already holds (self deadlock)"); }
  while(x.owner>=0){ count("probe:mutex contended"); block_on(mtx_free,&x,"mutex"); }
  x.owner=S.cur->id; x.cnt=1; return 0; }
int __wrap_pthread_mutex_trylock(pthread_mutex_t*m){ sched_point(); Mtx&x=mtx(m); if(x.owner>=0){ if(x.owner==S.cur->id&&x.kind==1){ x.cnt++; return 0; } poll_failed(); return EBUSY; } x.owner=S.cur->id; x.cnt=1; return 0; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t*m){
  if(!S.cur) return 0; Mtx&x=mtx(m);
  if(x.owner!=S.cur->id) violation("lock-misuse","a task unlocks a mutex it does not hold");
  if(--x.cnt==0){ x.owner=-1; progress(); sched_point(); } return 0; }
static bool cv_pred(void*p){ return *(bool*)p; }
struct CvW { bool fired; };
static std::map<std::pair<uintptr_t,uintptr_t>,std::deque<CvW*>> g_cvw;
int __wrap_pthread_cond_init(pthread_cond_t*,const void*){ return 0; }
int __wrap_pthread_cond_destroy(pthread_cond_t*){ return 0; }
int __wrap_pthread_cond_wait(pthread_cond_t*c,pthread_mutex_t*m){ CvW w{false}; g_cvw[canon(c)].push_back(&w); __wrap_pthread_mutex_unlock(m); block_on(cv_pred,&w.fired,"condition"); __wrap_pthread_mutex_lock(m); return 0; }
int __wrap_pthread_cond_signal(pthread_cond_t*c){ auto&q=g_cvw[canon(c)]; if(!q.empty()){ q.front()->fired=true; q.pop_front(); progress(); } sched_point(); return 0; }
int __wrap_pthread_cond_broadcast(pthread_cond_t*c){ auto&q=g_cvw[canon(c)]; for(auto w:q) w->fired=true; q.clear(); progress(); sched_point(); return 0; }
struct ThArg { void*(*f)(void*); void*a; };
static void th_entry(void*p){ ThArg t=*(ThArg*)p; delete (ThArg*)p; S.cur->retval=t.f(t.a); }
int sim_pthread_create(pthread_t*t,const pthread_attr_t*,void*(*f)(void*),void*a){ Fiber*n=new_fiber(S.cur->rank,th_entry,new ThArg{f,a}); *t=(pthread_t)(n->id+1); sched_point(); return 0; }
int __wrap_pthread_join(pthread_t t,void**rv){ int id=(int)t-1; if(id<0||id>=(int)S.fibers.size()) return ESRCH; sim_join(id); if(rv)*rv=S.fibers[id]->retval; return 0; }
int __wrap_pthread_detach(pthread_t){ return 0; }
void __wrap_pthread_exit(void*rv){ S.cur->retval=rv; fiber_exit(); }
pthread_t __wrap_pthread_self(){ return (pthread_t)(S.cur?S.cur->id+1:0); }
int __wrap_pthread_equal(pthread_t a,pthread_t b){ return a==b; }
int __wrap_pthread_setaffinity_np(pthread_t,size_t,const void*){ return 0; }
int __wrap_sched_setaffinity(int,size_t,const void*){ return 0; }
int __wrap_sched_yield(){ poll_failed(); sched_point(); return 0; }
// ------------------------------------------------------------ semaphores
static Sem* semof(sem_t*s){ auto k=canon(s); auto it=g_sem.find(k); if(it!=g_sem.end()) return it->second; violation("lock-misuse","operation on an uninitialised semaphore"); return nullptr; }
static bool sem_ok(void*p){ return ((Sem*)p)->v>0; }
int __wrap_sem_init(sem_t*s,int,unsigned v){ Sem*x=new Sem; x->v=v; g_sem[canon(s)]=x; return 0; }
int __wrap_sem_destroy(sem_t*s){ g_sem.erase(canon(s)); return 0; }
sem_t* __wrap_sem_open(const char*nm,int fl,...){
  sched_point(); va_list ap; va_start(ap,fl); unsigned v=0; if(fl&O_CREAT){ (void)va_arg(ap,int); v=va_arg(ap,unsigned);} va_end(ap);
  auto it=g_nsem.find(nm); Sem*x;
  if(it==g_nsem.end()){ if(!(fl&O_CREAT)){ errno=ENOENT; return SEM_FAILED; } x=new Sem; x->v=v; x->named=x->linked=true; x->name=nm; g_nsem[nm]=x; }
  else { if((fl&O_CREAT)&&(fl&O_EXCL)){ errno=EEXIST; return SEM_FAILED; } x=it->second; }
  sem_t*h=(sem_t*)sim_mem_alloc(sizeof(sem_t)); g_sem[canon(h)]=x; return h; }
int __wrap_sem_close(sem_t*s){ semof(s); g_sem.erase(canon(s)); __wrap_free(s); return 0; }
int __wrap_sem_unlink(const char*nm){ auto it=g_nsem.find(nm); if(it==g_nsem.end()){ errno=ENOENT; return -1; } it->second->linked=false; g_nsem.erase(it); return 0; }
int __wrap_sem_wait(sem_t*s){ sched_point(); Sem*x=semof(s); if(fault("EINTR",S.prog->get("sim.sem_eintr",0)/10000.0)){ errno=EINTR; return -1; } while(x->v<=0){ count("probe:semaphore contended"); block_on(sem_ok,x,"semaphore"); } x->v--; return 0; }
int __wrap_sem_trywait(sem_t*s){ sched_point(); Sem*x=semof(s); if(x->v<=0){ poll_failed(); errno=EAGAIN; return -1; } x->v--; return 0; }
int __wrap_sem_post(sem_t*s){ Sem*x=semof(s); x->v++; progress(); sched_point(); return 0; }
int __wrap_sem_getvalue(sem_t*s,int*v){ *v=(int)semof(s)->v; return 0; }
// ------------------------------------------------------------ shared memory
static bool shm_fail(const char*call){ Arena&a=arena(cur_rank()); if(a.armed_shm&&a.armed_shm==(call[0]=='s'?1:2)){ a.armed_shm=0; g_allocfired++; count((std::string("fault:")+call).c_str()); trace("%s injected",call); return true; } return g_fsarm && fault(call,ioP("sim.shm_fail")); }
int __wrap_shm_open(const char*nm,int fl,mode_t){
  sched_point(); auto it=g_shm.find(nm); ShmObj*o;
  if(it==g_shm.end()){ if(!(fl&O_CREAT)){ errno=ENOENT; return -1; } if(shm_fail("shm_open-fails")){ errno=EMFILE; return -1; } o=new ShmObj{memfd_create("shm",0),0,true,nm,0}; g_shm[nm]=o; }
  else { if((fl&O_CREAT)&&(fl&O_EXCL)){ errno=EEXIST; return -1; } o=it->second; }
  int fd=g_nextfd++; OFile f; f.shm=o; f.open=true; f.rank=cur_rank(); g_fd[fd]=f; return fd; }
int __wrap_shm_unlink(const char*nm){ sched_point(); auto it=g_shm.find(nm); if(it==g_shm.end()){ errno=ENOENT; return -1; } it->second->linked=false; g_shm.erase(it); return 0; }
void* __wrap_mmap(void*a,size_t len,int prot,int fl,int fd,off_t off){
  if(!S.cur) return mmap(a,len,prot,fl,fd,off);
  auto it=g_fd.find(fd); Arena&ar=arena(S.cur->rank); size_t l=(len+4095)&~4095ull;
  if(len==0){ errno=EINVAL; return MAP_FAILED; }
  uintptr_t at=ar.shmcur; void*r;
  if(it!=g_fd.end()&&it->second.shm){ r=mmap((void*)at,l,prot,MAP_SHARED|MAP_FIXED|MAP_NORESERVE,it->second.shm->fd,off); if(r!=MAP_FAILED){ g_maps[at]=Mapping{at,l,it->second.shm,(size_t)off,S.cur->rank}; it->second.shm->nmap++; } }
  else { r=mmap((void*)at,l,prot,MAP_PRIVATE|MAP_ANONYMOUS|MAP_FIXED|MAP_NORESERVE,-1,0); if(r!=MAP_FAILED) g_maps[at]=Mapping{at,l,nullptr,0,S.cur->rank}; }
  if(r!=MAP_FAILED) ar.shmcur+=l+65536;
  return r; }
int __wrap_munmap(void*a,size_t len){ auto it=g_maps.find((uintptr_t)a); if(it==g_maps.end()){ if(!S.cur) return munmap(a,len); violation("memory-misuse","munmap of an address that is not mapped"); }
  if(S.cur&&it->second.rank!=S.cur->rank) violation("memory-misuse","munmap of a mapping of another process");
  size_t l=(len+4095)&~4095ull; mprotect(a,l,PROT_NONE); if(it->second.o) it->second.o->nmap--; g_maps.erase(it); return 0; }
// ------------------------------------------------------------ files
static int newfd(Inode*i,int fl){ int fd=g_nextfd++; OFile f; f.ino=i; f.flags=fl; f.open=true; f.rank=cur_rank(); g_fd[fd]=f; return fd; }
int __wrap_open(const char*p,int fl,...){
  sched_point(); Inode*i=lookup(p);
  if(iofault("open-EIO","sim.io_open")){ ioerr(); errno=EIO; return -1; }
  if(iofault("EINTR","sim.io_open_eintr")){ errno=EINTR; return -1; }
  if(!i){ if(!(fl&O_CREAT)){ errno=ENOENT; return -1; } i=new Inode; i->path=p; g_fs[p]=i; }
  else if((fl&O_CREAT)&&(fl&O_EXCL)){ errno=EEXIST; return -1; }
  if(fl&O_TRUNC) i->data.clear();
  return newfd(i,fl); }
int __wrap_open64(const char*p,int fl,...){ return __wrap_open(p,fl,0644); }
int __wrap_creat(const char*p,mode_t){ return __wrap_open(p,O_CREAT|O_TRUNC|O_WRONLY); }
static OFile* of(int fd){ auto it=g_fd.find(fd); if(it==g_fd.end()||!it->second.open){ errno=EBADF; return nullptr; } if(it->second.rank!=cur_rank()){ errno=EBADF; return nullptr; } return &it->second; }
static bool may(OFile*f,int wr){ int m=f->flags&O_ACCMODE; if(f->ino&&(wr?m==O_RDONLY:m==O_WRONLY)){ count("probe:wrong access mode refused"); errno=EBADF; return false; } return true; }
int __wrap_close(int fd){ if(fd<1000) return 0; OFile*f=of(fd); if(!f) return -1; sched_point(); g_fd.erase(fd); if(iofault("close-EIO","sim.io_close")){ ioerr(); errno=EIO; return -1; } return 0; }
static ssize_t doread(OFile*f,void*b,size_t n,long off){
  if(n>1&&!f->stdio&&iofault("short-read","sim.io_short")) n=1+fault_amount(n-1);
  long sz=f->ino->data.size(); if(off>=sz) return 0; size_t k=std::min<size_t>(n,sz-off); f->ino->data.get((char*)b,off,k); return k; }
static ssize_t dowrite(OFile*f,const void*b,size_t n,long off){
  if(n>1&&!f->stdio&&iofault("short-write","sim.io_short")) n=1+fault_amount(n-1);
  f->ino->data.put((const char*)b,off,n); return n; }
ssize_t __wrap_read(int fd,void*b,size_t n){ OFile*f=of(fd); if(!f||!may(f,0)) return -1; sched_point(); if(!f->stdio&&iofault("EINTR","sim.io_eintr")){ errno=EINTR; return -1; } if(iofault("read-EIO","sim.io_err")){ ioerr(); errno=EIO; return -1; } f=of(fd); ssize_t r=doread(f,b,n,f->pos); f->pos+=r; return r; }
ssize_t __wrap_write(int fd,const void*b,size_t n){ OFile*f=of(fd); if(!f||!may(f,1)) return -1; sched_point(); if(!f->stdio&&iofault("EINTR","sim.io_eintr")){ errno=EINTR; return -1; } if(iofault("write-ENOSPC","sim.io_err")){ ioerr(); errno=ENOSPC; return -1; } f=of(fd); ssize_t r=dowrite(f,b,n,f->pos); f->pos+=r; return r; }
ssize_t __wrap_pread(int fd,void*b,size_t n,off_t o){ OFile*f=of(fd); if(!f||!may(f,0)) return -1; sched_point(); if(!f->stdio&&iofault("EINTR","sim.io_eintr")){ errno=EINTR; return -1; } if(iofault("read-EIO","sim.io_err")){ ioerr(); errno=EIO; return -1; } return doread(of(fd),b,n,o); }
ssize_t __wrap_pwrite(int fd,const void*b,size_t n,off_t o){ OFile*f=of(fd); if(!f||!may(f,1)) return -1; sched_point(); if(!f->stdio&&iofault("EINTR","sim.io_eintr")){ errno=EINTR; return -1; } if(iofault("write-ENOSPC","sim.io_err")){ ioerr(); errno=ENOSPC; return -1; } return dowrite(of(fd),b,n,o); }
ssize_t __wrap_pread64(int fd,void*b,size_t n,off_t o){ return __wrap_pread(fd,b,n,o); }
ssize_t __wrap_pwrite64(int fd,const void*b,size_t n,off_t o){ return __wrap_pwrite(fd,b,n,o); }
off_t __wrap_lseek(int fd,off_t o,int wh){ OFile*f=of(fd); if(!f) return -1; if(iofault("lseek-EIO","sim.io_seek")){ ioerr(); errno=EIO; return -1; } long p=wh==SEEK_SET?o:wh==SEEK_CUR?f->pos+o:(long)f->ino->data.size()+o; if(p<0){ errno=EINVAL; return -1; } f->pos=p; return p; }
off_t __wrap_lseek64(int fd,off_t o,int wh){ return __wrap_lseek(fd,o,wh); }
int __wrap_ftruncate(int fd,off_t n){ if(n<0){ errno=EINVAL; return -1; } auto it=g_fd.find(fd); if(it==g_fd.end()){ errno=EBADF; return -1; } sched_point(); OFile*f=&g_fd[fd]; if(f->shm){ if(shm_fail("ftruncate-ENOSPC")){ errno=ENOSPC; return -1; } f->shm->size=n; return ftruncate(f->shm->fd,n); } if(iofault("truncate-EIO","sim.io_trunc")){ ioerr(); errno=EIO; return -1; } f->ino->data.resize(n); return 0; }
int __wrap_ftruncate64(int fd,off_t n){ return __wrap_ftruncate(fd,n); }
int __wrap_fsync(int fd){ OFile*f=of(fd); if(!f) return -1; sched_point(); if(iofault("fsync-EIO","sim.io_fsync")){ ioerr(); errno=EIO; return -1; } f=of(fd); f->ino->durable=f->ino->data; f->ino->dlinked=true; return 0; }
int __wrap_fdatasync(int fd){ return __wrap_fsync(fd); }
void __wrap_sync(){ for(auto&x:g_fs){ x.second->durable=x.second->data; x.second->dlinked=true; } }
int __wrap_unlink(const char*p){ sched_point(); auto it=g_fs.find(p); if(it==g_fs.end()){ errno=ENOENT; return -1; } if(iofault("unlink-EIO","sim.io_unlink")){ ioerr(); errno=EIO; return -1; } g_fs.erase(it); return 0; }
int __wrap_remove(const char*p){ return __wrap_unlink(p); }
int __wrap_rename(const char*a,const char*b){ auto it=g_fs.find(a); if(it==g_fs.end()){ errno=ENOENT; return -1; } Inode*i=it->second; g_fs.erase(it); g_fs[b]=i; return 0; }
int __wrap_access(const char*p,int){ if(lookup(p)) return 0; errno=ENOENT; return -1; }
static bool isdir(const char*p){ std::string s=p; return s=="."||s=="/"||s=="/tmp"||s=="./"||s.empty(); }
int __wrap_stat(const char*p,struct stat*st){ sched_point(); memset(st,0,sizeof *st); Inode*i=lookup(p); if(i){ st->st_mode=S_IFREG|0644; st->st_size=i->data.size(); st->st_blksize=4096; return 0; } if(isdir(p)){ st->st_mode=S_IFDIR|0755; st->st_blksize=4096; return 0; } errno=ENOENT; return -1; }
int __wrap_stat64(const char*p,struct stat*st){ return __wrap_stat(p,st); }
int __wrap_lstat(const char*p,struct stat*st){ return __wrap_stat(p,st); }
int __wrap_fstat(int fd,struct stat*st){ OFile*f=of(fd); if(!f) return -1; memset(st,0,sizeof *st); st->st_mode=S_IFREG|0644; st->st_size=f->ino->data.size(); st->st_blksize=4096; return 0; }
int __wrap_statfs(const char*,struct statfs*s){ memset(s,0,sizeof *s); s->f_bsize=4096; s->f_blocks=1<<20; s->f_bavail=s->f_bfree=1<<19; s->f_type=0xEF53; return 0; }
int __wrap_fstatfs(int,struct statfs*s){ return __wrap_statfs("",s); }
int __wrap_statvfs(const char*,struct statvfs*s){ memset(s,0,sizeof *s); s->f_bsize=4096; s->f_frsize=4096; s->f_blocks=1<<20; s->f_bavail=s->f_bfree=1<<19; return 0; }
int __wrap_fstatvfs(int,struct statvfs*s){ return __wrap_statvfs("",s); }
int __wrap_mkdir(const char*,mode_t){ return 0; }
// stdio on the simulated files
static ssize_t ck_read(void*c,char*b,size_t n){ return __wrap_read((int)(long)c,b,n); }
static ssize_t ck_write(void*c,const char*b,size_t n){ return __wrap_write((int)(long)c,b,n); }
static int ck_seek(void*c,off64_t*o,int w){ off_t r=__wrap_lseek((int)(long)c,*o,w); if(r<0) return -1; *o=r; return 0; }
static int ck_close(void*c){ return __wrap_close((int)(long)c); }
FILE* __wrap_fopen(const char*p,const char*m){
  if(!S.cur) return fopen(p,m); if(!strcmp(p,"/proc/sys/fs/file-nr")){ static char nr[]="1000\t0\t1000000\n"; return fmemopen(nr,sizeof nr-1,"r"); } int fl=m[0]=='r'?(strchr(m,'+')?O_RDWR:O_RDONLY):m[0]=='w'?O_CREAT|O_TRUNC|O_RDWR:O_CREAT|O_APPEND|O_RDWR;
  int fd=__wrap_open(p,fl,0644); if(fd<0) return nullptr; { auto it=g_fd.find(fd); if(it!=g_fd.end()) it->second.stdio=true; } if(m[0]=='a') __wrap_lseek(fd,0,SEEK_END);
  cookie_io_functions_t io={ck_read,ck_write,ck_seek,ck_close}; FILE*f=fopencookie((void*)(long)fd,m,io); return f; }
FILE* __wrap_fopen64(const char*p,const char*m){ return __wrap_fopen(p,m); }
FILE* __wrap_freopen(const char*,const char*,FILE*f){ return f; }
void sim_fs_crash(){ for(auto it=g_fs.begin();it!=g_fs.end();){ it->second->data=it->second->durable; if(!it->second->dlinked) it=g_fs.erase(it); else ++it; } count("fault:power-loss"); }
long sim_fs_bytes(const char*p,char*o,long off,long n){ Inode*i=lookup(p); if(!i) return -1; long sz=i->data.size(); if(o&&off<sz) i->data.get(o,off,std::min(n,sz-off)); return sz; }
int sim_fs_open_count(){ int n=0,r=cur_rank(); for(auto&x:g_fd) if(x.second.open&&x.second.ino&&x.second.rank==r) n++; return n; }
void sim_fs_arm(int on){ g_fsarm=on; }
// asynchronous I/O (complete at a random later time)
struct Aio { int st; ssize_t ret; };
// ------------------------------------------------------------ time, environment, exit
char* __wrap_getenv(const char*n){ auto it=S.env.find(n); if(it==S.env.end()) return nullptr; return (char*)it->second.c_str(); }
int __wrap_gettimeofday(struct timeval*t,void*){ sched_point(); t->tv_sec=1700000000+S.now/1000000000; t->tv_usec=(S.now/1000)%1000000; return 0; }
int __wrap_clock_gettime(int,struct timespec*t){ t->tv_sec=1700000000+S.now/1000000000; t->tv_nsec=S.now%1000000000; return 0; }
time_t __wrap_time(time_t*t){ time_t v=1700000000+S.now/1000000000; if(t)*t=v; return v; }
clock_t __wrap_clock(){ return S.now/1000; }
int __wrap_usleep(unsigned us){ if(S.cur){ poll_failed(); if(S.fair) { sched_point(); return 0; } S.cur->st=F_STALLED; S.cur->wake=S.now+us*1000ull; block_on([](void*p){ return S.now>=*(uint64_t*)p; },&S.cur->wake,"sleep"); } return 0; }
unsigned __wrap_sleep(unsigned s){ __wrap_usleep(s*1000000u); return 0; }
int __wrap_nanosleep(const struct timespec*t,struct timespec*){ __wrap_usleep(t->tv_sec*1000000+t->tv_nsec/1000); return 0; }
int __wrap_gethostname(char*b,size_t n){ snprintf(b,n,"node%d",S.cur?S.nodeof[S.cur->rank]:0); return 0; }
long __wrap_gethostid(){ return 1000+(S.cur?S.nodeof[S.cur->rank]:0); }
pid_t __wrap_getpid(){ return 10000+(S.cur?S.cur->rank:0); }
int __wrap_nice(int){ return 0; }
int __wrap_pause(){ sim_stall(1000000); return 0; }
static uint64_t& rs(){ auto it=g_rand.find(cur_rank()); if(it==g_rand.end()){ g_rand[cur_rank()]=1; } return g_rand[cur_rank()]; }
int __wrap_rand(){ uint64_t&s=rs(); s=s*6364136223846793005ull+1442695040888963407ull; return (int)((s>>33)&0x7fffffff); }
void __wrap_srand(unsigned x){ rs()=x*2654435761ull+1; }
long __wrap_random(){ return __wrap_rand(); } void __wrap_srandom(unsigned x){ __wrap_srand(x); }
double __wrap_drand48(){ return __wrap_rand()/2147483648.0; } long __wrap_lrand48(){ return __wrap_rand(); } void __wrap_srand48(long x){ __wrap_srand(x); }
typedef void (*sigh)(int);
sigh __wrap_signal(int,sigh){ return SIG_DFL; }
int __wrap_sigaction(int,const void*,void*){ return 0; }
int __wrap_kill(int,int){ violation("abort","the library sends a signal"); return 0; }
int __wrap_raise(int){ violation("abort","the library raises a signal"); return 0; }
int __wrap_system(const char*){ return -1; }
int __wrap_fork(){ errno=ENOSYS; return -1; }
void __wrap_exit(int code){
  if(!S.cur) exit(code);
  trace("process exits with code %d",code);
  if(code!=0) violation("abort","process %d calls exit(%d)",S.cur->rank,code);
  for(auto f:S.fibers) if(f->rank==S.cur->rank&&f!=S.cur) f->st=F_DONE;
  Fiber*me=S.cur; for(auto f:S.fibers) if(f->rank==me->rank&&f->tid==0) f->st=F_DONE;
  fiber_exit(); }
void __wrap__exit(int c){ __wrap_exit(c); }
void __wrap_abort(){ violation("abort","the library calls abort()"); }
void __wrap___assert_fail(const char*e,const char*f,unsigned l,const char*fn){ const char*b=strrchr(f,'/'); violation("abort","assertion failed: %s (%s, %s)",e,b?b+1:f,fn); }
void __wrap___stack_chk_fail(){ violation("memory-corruption","stack smashed"); }
}
