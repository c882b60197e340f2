// Interface between the simulator (main executable) and the workloads that are
// compiled into every simulated process image.
#ifndef SIMAPI_H
#define SIMAPI_H
#include <stdint.h>
#include <stddef.h>
#include <string>
#include <vector>
#include <map>

struct Rng {                       // splitmix64
  uint64_t s;
  explicit Rng(uint64_t seed=1):s(seed*0x9E3779B97F4A7C15ull+0x1234567){ next(); }
  uint64_t next(){ uint64_t z=(s+=0x9E3779B97F4A7C15ull); z=(z^(z>>30))*0xBF58476D1CE4E5B9ull; z=(z^(z>>27))*0x94D049BB133111EBull; return z^(z>>31); }
  long below(long n){ return n<=1?0:(long)(next()%(uint64_t)n); }
  long range(long lo,long hi){ return lo+below(hi-lo+1); }   // inclusive
  bool chance(double p){ return (next()>>11)*(1.0/9007199254740992.0) < p; }
  double unit(){ return (next()>>11)*(1.0/9007199254740992.0); }
  template<class T> T pick(std::initializer_list<T> l){ return *(l.begin()+below(l.size())); }
};

struct Op {                        // one generated operation
  int kind=0; int rank=-1;         // rank -1: collective
  std::vector<long> a;
};
struct Program {
  std::string workload, prop;
  std::map<std::string,long> cfg;          // sizes, knobs, simulator settings
  std::vector<Op> ops;
  long get(const char*k,long d=0) const { auto it=cfg.find(k); return it==cfg.end()?d:it->second; }
  void set(const char*k,long v){ cfg[k]=v; }
};

struct Workload {
  const char* name;
  void (*gen)(Program&, Rng&);             // runs in image 0, before the run
  void (*setup)(Program&);                 // runs once in image 0 at start of the run: build shared state
  void (*main)(Program&);                  // runs on every simulated process (all images)
  void (*check)(Program&);                 // runs in image 0 after all processes ended
};

extern "C" {
int  sim_rank();                    // simulated process (world) index
int  sim_nprocs();                  // number of simulated processes
uint64_t sim_seq();                 // global event sequence number (strictly increasing)
void sim_yield();                   // scheduling point
void sim_stall(long ns);            // process computes for this simulated time without entering the library
void sim_fail(const char*cls,const char*fmt,...) __attribute__((format(printf,2,3)));  // report a violation; does not return
void sim_trace(const char*fmt,...) __attribute__((format(printf,1,2)));
void sim_probe(const char*name);    // rare-condition counter
void sim_count(const char*name,long n);
void* sim_get_state(); void sim_set_state(void*);
int  sim_thread(void(*fn)(void*),void*arg);   // extra thread in the calling process
void sim_join(int tid);
void sim_oob_barrier(int id,int n); // barrier outside the library (user-level synchronisation through another channel)
void sim_block_until(bool(*f)(void*),void*arg,const char*why);   // block calling task until predicate (evaluated by scheduler)
long sim_env_set(const char*name,const char*val);    // environment of the simulated processes
void* sim_buf(size_t n);            // guarded buffer in the process arena, garbage-filled
void sim_buf_free(void*);           // checks the guards
void sim_buf_check(void*);
// simulated storage
void sim_fs_crash();                // power failure: discard non-durable data
long sim_fs_bytes(const char*path,char*out,long off,long n);   // raw file content; returns size or -1
int sim_fs_open_count();             // file descriptors the calling process has open
void sim_fs_arm(int on);            // arm/disarm I/O fault injection
void sim_alloc_arm(int rank,long nth,long nfail); // fail the nth..nth+nfail-1 next allocations of a process
void sim_alloc_arm_big(int rank,long nth,long nfail,long minsize); // same, counting only allocations of at least minsize bytes
void sim_shm_fail_next(int which); // the next creation of a shared memory object by the caller fails when it is opened (1) or sized (2); 0 disarms
void sim_abort_after_alloc_failure_ok(int on); // an error exit that follows an injected allocation failure ends the run successfully
long sim_alloc_fired();
long sim_heap_live(int rank);       // live bytes allocated by library code of that process
long sim_heap_mark(int rank); void sim_heap_trace(int rank,long mark);   // records in the trace the blocks allocated since the mark and still live
int  sim_shm_live();                // shared-memory objects still named
int  sim_sem_live();
int  sim_win_live();
int  sim_comm_live();
void sim_abort_after_io_error_ok(int on);   // from now on an error exit that follows an injected real I/O error ends the run successfully
long sim_io_faults_all();           // same, on the files of all processes
long sim_io_faults();               // I/O faults fired so far on this process's files
const Workload* wl_find(const char*name);      // in the image
}
#endif
