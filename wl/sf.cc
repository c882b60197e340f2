// C19: shared files. All processes write and read disjoint or stable ranges of several shared files through asynchronous
// requests completed in any order, with interrupted, shortened and failing system calls; a byte model of every file decides.
#include "common.h"
extern "C" {
#include "sf.h"
}
enum { S_CREATE,S_WRITE,S_READ,S_WAIT,S_WAITALL,S_SYNC,S_REOPEN,S_RWTOR,S_FSYNC,S_DESTROY,S_STALL,S_N };
enum { NSF=4, CAP=70000 };
struct SFile { bool alive=false,ro=false; std::string name; std::string d; long len=0; long base=0; };
// length of the part of a file from its base offset on
static long flen(const SFile&f,char*o,long off,long n){ long sz=sim_fs_bytes(f.name.c_str(),o,f.base+off,n); return sz<0?sz:std::max(0L,sz-f.base); }
struct SSt { SFile f[NSF]; };
static SSt* ss(){ return (SSt*)sim_get_state(); }
static void gen(Program&p,Rng&r){ gen_base(p,r,1,5,false); int np=(int)p.get("np"); p.set("ma.stack",20000); p.set("ma.heap",20000);
  if(r.chance(0.75)){ p.set("sim.io_short",r.pick({0,500,2500,6000})); p.set("sim.io_eintr",r.pick({0,300,2000})); if(r.chance(0.4)){ p.set("sim.io_err",r.pick({0,200,1500})); p.set("sim.io_seek",r.pick({0,0,300})); } }
  int n=(int)r.range(4,r.chance(0.3)?150:50); int nf=(int)r.range(1,NSF); long span=r.pick({300,4000,60000}); long rec=r.chance(0.4)?r.range(1,span/6):0;
  bool big=r.chance(0.3); for(int k=0;k<nf;k++){ Op c; c.kind=S_CREATE; c.a={k,r.chance(0.4),r.below(1000),big?r.pick({0L,2147483548L,4294967196L,16777117L,5000000123L,r.range(1L<<24,1L<<42)}):0L}; p.ops.push_back(c); }
  for(int i=0;i<n;i++){ Op o; o.rank=(int)r.below(np); int w=(int)r.below(100); o.kind=w<36?S_WRITE:w<68?S_READ:w<76?S_WAIT:w<79?S_WAITALL:w<91?S_SYNC:w<93?S_REOPEN:w<94?S_RWTOR:w<96?S_FSYNC:w<97?S_DESTROY:w<98?S_CREATE:S_STALL;
    long off=r.below(span),len=r.chance(0.05)?0:r.range(1,span/6); if(rec){ off=r.below(6)*rec; len=rec; } // records that touch each other
    if(o.kind==S_CREATE) o.a={r.below(nf),r.chance(0.4),r.below(1000),big?r.pick({0L,2147483548L,4294967196L,16777117L,5000000123L,r.range(1L<<24,1L<<42)}):0L}; else o.a={r.below(nf),(long)(r.next()>>30),off,len}; if(o.kind==S_SYNC||o.kind==S_REOPEN||o.kind==S_DESTROY||o.kind==S_CREATE||o.kind==S_RWTOR) o.rank=-1; p.ops.push_back(o); }
  if(r.chance(0.04)) for(int i=0;i<104;i++) for(int c=0;c<2;c++){ Op o; o.rank=-1; o.kind=c?S_DESTROY:S_CREATE; o.a={(long)(NSF-1),0,(long)i,0}; p.ops.push_back(o); } } // more files in sequence than the table of shared files has slots
static void setup(Program&){ SSt*s=new SSt; for(auto&f:s->f) f.d.assign(CAP,0); sim_set_state(s); } static void check(Program&){}
struct SReq { int f,id; bool rd; char*buf; long off,n; };
struct Cl { int f,rank; bool wr; long lo,hi; };
static void run(Program&p){ boot(p); int me=GA_Nodeid(),np=GA_Nnodes(); SSt*S_=ss(); int H[NSF]; bool al[NSF]={},ro[NSF]={}; long len0[NSF]={}; long lenp[NSF]={}; std::vector<SReq> R; std::vector<Cl> C; sim_fs_arm(1); 
  auto done=[&](SReq&q){ SFile&f=S_->f[q.f]; if(q.rd){ for(long i=0;i<q.n;i++) if(q.buf[i]!=f.d[q.off+i]) sim_fail("wrong-bytes","process %d reads byte %ld of shared file %s as 0x%02x, expected 0x%02x",me,q.off+i,f.name.c_str(),q.buf[i]&255,f.d[q.off+i]&255); sim_count("bytes compared",q.n); } sim_buf_free(q.buf); };
  auto waitk=[&](size_t k){ SReq q=R[k]; R.erase(R.begin()+k); long e=sim_io_faults(); int id=q.id; int rc=SF_Wait(&id); if(rc&&sim_io_faults()==e) sim_fail("spurious-error","waiting for a request failed with code %d",rc); done(q); };
  auto waitall=[&]{ if(R.empty()) return; std::vector<int> l; for(auto&q:R) l.push_back(q.id); int rc=SF_Waitall(l.data(),(int)l.size()); if(rc) sim_fail("spurious-error","waiting for %zu requests failed with code %d",l.size(),rc); for(auto&q:R) done(q); R.clear(); };
  auto sync=[&]{ if(R.size()%2) while(!R.empty()) waitk(R.size()-1); else waitall(); GA_Sync(); C.clear(); for(int k=0;k<NSF;k++) if(al[k]){ long sz=flen(S_->f[k],nullptr,0,0); if(sz<0) sim_fail("wrong-result","shared file %s has disappeared",S_->f[k].name.c_str()); if(sz<len0[k]) sim_fail("wrong-length","shared file %s shrank from %ld to %ld bytes",S_->f[k].name.c_str(),len0[k],sz); len0[k]=sz; } GA_Sync(); };
  auto fds=[&]{ int n=0,h=sim_fs_open_count(); for(int j=0;j<NSF;j++) n+=al[j]; if(n!=h) sim_fail("leak","%d shared files are open, but the process holds %d descriptors",n,h); };
  for(auto&o:p.ops){ int k=(int)o.a[0]%NSF; SFile&f=S_->f[k];
    switch(o.kind){
    case S_CREATE: { if(al[k]) break; std::string base="sh"+std::to_string(k); int h=-1; int rc; int suf=(int)o.a[2]; long e=sim_io_faults(); if(o.a[1]) rc=SF_Create_suffix((char*)base.c_str(),1e9,1e8,1e4,&h,suf); else rc=SF_Create((char*)base.c_str(),1e9,1e8,1e4,&h); if(rc) sim_fail("wrong-result","creating a shared file failed with code %d",rc); (void)e; H[k]=h; for(int j=0;j<NSF;j++) if(j!=k&&al[j]&&H[j]==h) sim_fail("wrong-result","two shared files have handle %d",h); al[k]=true; ro[k]=false; len0[k]=0; std::string nm=base+"."+std::to_string(o.a[1]?suf:h+3000); if(me==0){ f.name=nm; f.base=o.a.size()>3?o.a[3]:0; if(f.base) sim_count("files with huge offsets",1); std::fill(f.d.begin(),f.d.end(),0); } sim_count("creations",1); GA_Sync(); if(sim_fs_bytes(nm.c_str(),nullptr,0,0)<0) sim_fail("wrong-result","shared file %s does not exist after its creation",nm.c_str()); GA_Sync(); break; }
    case S_WRITE: case S_READ: { if(!al[k]) break; bool wr=o.kind==S_WRITE; long off=o.a[2],n=o.a[3]; if(wr&&ro[k]){ if(o.rank!=me||!n||off+n>CAP) break; char*b=(char*)sim_buf(n); for(long i=0;i<n;i++) b[i]=(char)~f.d[off+i]; int id=-99; int rc=SF_Write(H[k],(SFsize_t)(f.base+off),(SFsize_t)n,b,&id); if(!rc) rc=SF_Wait(&id); if(!rc) sim_fail("wrong-result","writing to shared file %s, which is open for reading only, reported success",f.name.c_str()); sim_count("writes to read-only files refused",1); sim_buf_free(b); break; } Rng q((uint64_t)o.a[1]); if(!wr){ if(off+n>len0[k]){ if(len0[k]<1) break; off=q.below(len0[k]); n=q.range(1,len0[k]-off); } } if(off+n>CAP) break; bool ok=true; for(auto&c:C) if(c.f==k&&c.rank!=o.rank&&c.lo<off+n&&off<c.hi&&(c.wr||wr)) ok=false; if(!ok) break; C.push_back({k,o.rank,wr,off,off+n}); if(o.rank!=me) break;
      for(size_t j=R.size();j-->0;) if(R[j].f==k&&R[j].off<off+n&&off<R[j].off+R[j].n&&(wr||!R[j].rd)) waitk(j);
      char*b=(char*)sim_buf(n); int id=-99; long e=sim_io_faults(); int rc; if(wr){ for(long i=0;i<n;i++) b[i]=(char)q.next(); rc=SF_Write(H[k],(SFsize_t)(f.base+off),(SFsize_t)n,b,&id); sim_count("writes",1); } else { rc=SF_Read(H[k],(SFsize_t)(f.base+off),(SFsize_t)n,b,&id); sim_count("reads",1); } bool bad=sim_io_faults()!=e; if(bad) sim_count("real errors injected",1);
      if(rc&&!bad) sim_fail("spurious-error","%s of %ld bytes at %ld of %s failed with code %d although nothing went wrong",wr?"writing":"reading",n,off,f.name.c_str(),rc);
      if(wr){ if(rc){ std::string c(n,0); long sz=flen(f,&c[0],off,n); for(long i=0;i<n&&off+i<sz;i++){ if(c[i]!=b[i]&&c[i]!=f.d[off+i]) sim_fail("wrong-bytes","byte %ld of %s after a failed write is neither the old nor the new one",off+i,f.name.c_str()); f.d[off+i]=c[i]; } sim_buf_free(b); break; }
        memcpy(&f.d[off],b,n); if(bad){ std::string c(n,0); flen(f,&c[0],off,n); if(n&&memcmp(c.data(),b,n)) sim_fail("silent-error","writing %ld bytes at %ld of %s reported success although the file system failed it",n,off,f.name.c_str()); } }
      else if(rc){ sim_buf_free(b); break; }
      SReq x; x.f=k; x.id=id; x.rd=!wr; x.buf=b; x.off=off; x.n=n; R.push_back(x); break; }
    case S_WAIT: if(o.rank==me&&!R.empty()){ Rng q((uint64_t)o.a[1]); waitk(q.below(R.size())); } break;
    case S_WAITALL: if(o.rank==me) waitall(); break;
    case S_SYNC: sync(); break;
    case S_REOPEN: if(al[k]){ sync(); SF_Close(H[k]); if(o.a[1]&1) GA_Sync(); SF_Open(H[k]); ro[k]=false; GA_Sync(); sim_count("reopened",1); fds(); } break;
    case S_RWTOR: if(al[k]&&!ro[k]){ sync(); SF_Rwtor(H[k]); ro[k]=true; sim_count("made read-only",1); fds(); } break;
    case S_FSYNC: if(al[k]&&o.rank==me) SF_Fsync(H[k]); break;
    case S_DESTROY: if(al[k]){ sync(); std::string nm=f.name; int rc=SF_Destroy(H[k]); if(rc) sim_fail("wrong-result","destroying a shared file failed with code %d",rc); al[k]=false; if(sim_fs_bytes(nm.c_str(),nullptr,0,0)>=0) sim_fail("wrong-result","shared file %s still exists after its destruction",nm.c_str()); GA_Sync(); sim_count("destructions",1); fds(); } break;
    case S_STALL: if(o.rank==me) sim_stall(50000); break; } }
  sync(); for(int k=0;k<NSF;k++) if(al[k]){ SFile&f=S_->f[k]; long sz=flen(f,nullptr,0,0); if(me==0){ std::string c(sz,0); if(sz) flen(f,&c[0],0,sz); for(long i=0;i<sz&&i<CAP;i++) if(c[i]!=f.d[i]) sim_fail("wrong-bytes","byte %ld of shared file %s is wrong at the end",i,f.name.c_str()); } GA_Sync(); SF_Destroy(H[k]); if(sim_fs_bytes(f.name.c_str(),nullptr,0,0)>=0) sim_fail("wrong-result","shared file %s still exists after its destruction",f.name.c_str()); }
  sim_fs_arm(0); GA_Sync(); shutdown(); }
WORKLOAD(sf,gen,setup,run,check)
