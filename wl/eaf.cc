// C18: exclusive access files. Every process runs its own random program of opens, reads, writes (blocking and
// asynchronous), waits, probes, truncations, closes, reopens and deletions on files of its own, on the simulated file
// system that interrupts, shortens and fails system calls; a byte-exact model of every file decides each result.
#include "common.h"
extern "C" {
#include "eaf.h"
}
enum { E_OPEN,E_WRITE,E_READ,E_AWRITE,E_AREAD,E_WAIT,E_PROBE,E_LENGTH,E_TRUNC,E_CLOSE,E_DELETE,E_STALL,E_N };
struct EF { std::string name; bool exists=false,open=false; int fd=-1,mode=0,mem=0; std::string d; std::vector<char> known; long big=0; bool touched=false; long base()const{ return mem?0:big; } long len()const{ return touched||!base()?base()+(long)d.size():0; } };
struct EReq { int f,id; bool rd; char*buf; long off,n; std::string want; std::vector<char> known; };
static void gen(Program&p,Rng&r){ gen_base(p,r,1,4,false); int np=(int)p.get("np"); bool mem=r.chance(0.35); p.set("ma.stack",20000); p.set("ma.heap",mem?900000:20000);
  if(r.chance(0.75)){ p.set("sim.io_short",r.pick({0,500,2500,6000})); p.set("sim.io_eintr",r.pick({0,300,2000})); if(r.chance(0.5)){ p.set("sim.io_err",r.pick({0,200,1500})); p.set("sim.io_seek",r.pick({0,0,300})); p.set("sim.io_trunc",r.pick({0,1000})); p.set("sim.io_close",r.pick({0,500})); p.set("sim.io_unlink",r.pick({0,1000})); p.set("sim.io_open",r.pick({0,500})); } }
  int n=(int)r.range(3,r.chance(0.3)?120:40); int nf=(int)r.range(1,5); bool async=r.chance(0.6); if(r.chance(0.3)) p.set("x.big",r.range(1,1000000)); long span=r.pick({200,3000,40000});
  for(int i=0;i<n;i++){ Op o; o.rank=(int)r.below(np); int w=(int)r.below(100); o.kind=w<14?E_OPEN:w<36?E_WRITE:w<58?E_READ:w<66?E_AWRITE:w<74?E_AREAD:w<79?E_WAIT:w<81?E_PROBE:w<85?E_LENGTH:w<89?E_TRUNC:w<95?E_CLOSE:w<98?E_DELETE:E_STALL; if(!async){ if(o.kind==E_AWRITE) o.kind=E_WRITE; if(o.kind==E_AREAD||o.kind==E_WAIT||o.kind==E_PROBE) o.kind=E_READ; }
    o.a={r.below(nf),(long)(r.next()>>30),r.chance(0.3)?0:r.below(span),r.chance(0.06)?0:r.chance(0.05)?span:r.range(1,span/4),mem&&r.chance(0.5)?r.range(1,2):0}; p.ops.push_back(o); } }
static void setup(Program&){} static void check(Program&){}
static void run(Program&p){ boot(p); int me=GA_Nodeid(); std::vector<EF> F(8); std::vector<EReq> R; for(int k=0;k<8;k++){ F[k].name="scr"+std::to_string(me)+"."+std::string("abcdefgh",k+1); if(p.get("x.big",0)){ Rng b(p.get("x.big")*7919+k); F[k].big=b.pick({0L,2147483548L,4294967196L,16777117L,5000000123L,1000000000007L,b.range(1L<<24,1L<<42)}); } } long E0=0; sim_fs_arm(1);
  auto faulted=[&]{ bool x=sim_io_faults()!=E0; return x; };
  auto rc_ok=[&](const char*what,EF&f,int rc,bool soft=false){ bool x=faulted(); if(x) sim_count("real errors injected",1); if(x&&rc==0&&soft){ sim_count("failed calls made good",1); return true; } if(x&&rc==0) sim_fail("silent-error","%s of %s reported success although the file system failed it",what,f.name.c_str()); if(!x&&rc!=0) sim_fail("spurious-error","%s of %s failed with code %d although nothing went wrong",what,f.name.c_str(),rc); return !x; };
  // after a failed write the range may hold any prefix of the new bytes; everything else is untouched
  auto resync=[&](EF&f,long off,const char*b,long n){ long sz=sim_fs_bytes(f.name.c_str(),nullptr,0,0),B=f.base(); long old=f.len(); if(sz<old||sz>std::max(old,B+off+n)) sim_fail("wrong-length","%s has %ld bytes after a failed write of %ld bytes at %ld (was %ld)",f.name.c_str(),sz,n,off,old);
    if(sz>B) f.touched=true; sz=std::max(0L,sz-B); std::string c(sz,0); if(sz) sim_fs_bytes(f.name.c_str(),&c[0],B,sz); f.d.resize(sz,0); f.known.resize(sz,1); for(long i=off;i<std::min(sz,off+n);i++){ if(c[i]!=f.d[i]&&c[i]!=b[i-off]) sim_fail("wrong-bytes","%s: byte %ld after a failed write is neither the old nor the new one",f.name.c_str(),i); f.d[i]=c[i]; } };
  auto wr=[&](EF&f,long off,const char*b,long n){ if(n==0) return; f.touched=true; if((long)f.d.size()<off+n){ f.d.resize(off+n,0); f.known.resize(off+n,f.mem?0:1); } memcpy(&f.d[off],b,n); for(long i=0;i<n;i++) f.known[off+i]=1; };
  auto cmp=[&](const char*what,EF&f,long off,long n,const char*b,const std::string&want,const std::vector<char>&known){ for(long i=0;i<n;i++) if(known[i]&&b[i]!=want[i]) sim_fail("wrong-bytes","%s of %ld bytes at %ld of %s: byte %ld is 0x%02x, expected 0x%02x",what,n,off,f.name.c_str(),off+i,b[i]&255,want[i]&255); sim_count("bytes compared",n); };
  auto finish=[&](size_t k,bool wait){ EReq q=R[k]; R.erase(R.begin()+k); E0=sim_io_faults(); if(wait){ int rc=EAF_Wait(F[q.f].fd,q.id); rc_ok("wait",F[q.f],rc); } if(q.rd) cmp("asynchronous read",F[q.f],q.off,q.n,q.buf,q.want,q.known); sim_buf_free(q.buf); };
  auto flush=[&](int f,long off,long n,bool all,bool rdonly){ for(size_t k=R.size();k-->0;) if(R[k].f==f&&(all||(R[k].off<off+n&&off<R[k].off+R[k].n&&!(rdonly&&R[k].rd)))) finish(k,true); };
  auto range_=[&](EF&f,long off,long n,std::string&w,std::vector<char>&kn){ w.assign(n,0); kn.assign(n,f.mem?0:1); for(long i=0;i<n;i++) if(off+i<(long)f.d.size()){ w[i]=f.d[off+i]; kn[i]=f.known[off+i]; } };
  for(auto&o:p.ops){ if(o.rank!=me) continue; EF&f=F[o.a[0]%8]; int fi=(int)(o.a[0]%8); long off=o.a[2],n=o.a[3]; uint64_t seed=(uint64_t)o.a[1]; E0=sim_io_faults(); Rng q(seed);
    if(!f.open&&o.kind!=E_OPEN&&o.kind!=E_DELETE&&o.kind!=E_STALL) o.kind=E_OPEN;
    if(f.open&&o.kind==E_OPEN) o.kind=E_LENGTH;
    switch(o.kind){
    case E_OPEN: { int mode; if(f.exists&&f.mem) mode=f.mem; else if(!f.exists&&o.a.size()>4&&o.a[4]) mode=(int)o.a[4]; else mode=f.exists&&q.chance(0.2)?EAF_R:q.chance(0.1)?EAF_W:EAF_RW; int fd=-9; int rc=EAF_Open(f.name.c_str(),mode,&fd); 
      if(mode>0&&!f.exists&&rc!=0){ sim_count("memory files refused",1); break; }
      if(mode==EAF_R&&!f.exists){ if(rc==0) sim_fail("wrong-result","opening the missing file %s for reading succeeded",f.name.c_str()); break; }
      if(!rc_ok("open",f,rc)) break; if(fd<0) sim_fail("wrong-result","open returned descriptor %d",fd); for(auto&g:F) if(&g!=&f&&g.open&&g.fd==fd) sim_fail("wrong-result","two open files share descriptor %d",fd); f.fd=fd; f.open=true; f.mode=mode; if(!f.exists){ f.exists=true; f.d.clear(); f.known.clear(); f.touched=false; f.mem=mode>0?mode:0; } if(mode==EAF_W){ f.d.clear(); f.known.clear(); f.touched=false; } sim_count("opens",1); break; }
    case E_WRITE: case E_AWRITE: { if(f.mode==EAF_R) break; bool over=f.mem&&q.chance(0.06); if(over){ long M=(long)f.mem*1048576; n=q.range(1,3000); off=q.chance(0.7)?M-q.below(n):M+q.below(5000); } if(f.mem&&!over&&q.chance(0.08)){ n=q.range(1,3000); off=(long)f.mem*1048576-n; sim_count("transfers at the end of a memory file",1); } if(f.mem&&!over&&off+n>(long)f.mem*1048576) break; flush(fi,off,n,false,false); E0=sim_io_faults(); char*b=(char*)sim_buf(n); for(long i=0;i<n;i++) b[i]=(char)q.next(); int id=-77; int rc=o.kind==E_WRITE?EAF_Write(f.fd,(eaf_off_t)(f.base()+off),b,n):EAF_Awrite(f.fd,(eaf_off_t)(f.base()+off),b,n,&id); if(over){ if(rc==0) sim_fail("silent-error","writing %ld bytes at %ld of the memory file %s of %d MB reported success",n,off,f.name.c_str(),f.mem); sim_count("writes beyond a memory file",1); sim_buf_free(b); break; } sim_count(o.kind==E_WRITE?"writes":"asynchronous writes",1);
      // an asynchronous write may report its error when it is issued or when it is waited for; here it is issued at once
      bool done=false; if(!f.mem&&rc==0&&faulted()){ std::string c(n,0); done=n==0||sim_fs_bytes(f.name.c_str(),&c[0],f.base()+off,n)>=f.base()+off+n; if(done&&n) done=!memcmp(c.data(),b,n); }
      if(!rc_ok("write",f,rc,done)){ resync(f,off,b,n); sim_buf_free(b); break; } wr(f,off,b,n); if(o.kind==E_WRITE){ memset(b,0x5A,n); sim_buf_free(b); } else { EReq x; x.f=fi; x.id=id; x.rd=false; x.buf=b; x.off=off; x.n=n; R.push_back(x); } break; }
    case E_READ: case E_AREAD: { if(f.mode==EAF_W) break; bool over=f.mem&&q.chance(0.06); if(over){ long M=(long)f.mem*1048576; n=q.range(1,3000); off=q.chance(0.7)?M-q.below(n):M+q.below(5000); } if(f.mem&&!over&&q.chance(0.08)){ n=q.range(1,3000); off=(long)f.mem*1048576-n; sim_count("transfers at the end of a memory file",1); } if(f.mem&&!over&&off+n>(long)f.mem*1048576) break; flush(fi,off,n,false,true); E0=sim_io_faults(); bool beyond=!f.mem&&n>0&&off+n>(long)f.d.size(); if(beyond&&q.chance(0.7)&&!f.d.empty()){ off=q.below(f.d.size()); n=q.range(1,f.d.size()-off); flush(fi,off,n,false,true); E0=sim_io_faults(); beyond=false; } char*b=(char*)sim_buf(n); int id=-77; int rc=o.kind==E_READ?EAF_Read(f.fd,(eaf_off_t)(f.base()+off),b,n):EAF_Aread(f.fd,(eaf_off_t)(f.base()+off),b,n,&id); if(over){ if(rc==0) sim_fail("wrong-result","reading %ld bytes at %ld of the memory file %s of %d MB succeeded",n,off,f.name.c_str(),f.mem); sim_count("reads beyond a memory file",1); sim_buf_free(b); break; } sim_count(o.kind==E_READ?"reads":"asynchronous reads",1);
      if(beyond){ if(rc==0) sim_fail("wrong-result","reading %ld bytes at %ld of %s, which has %zu, succeeded",n,off,f.name.c_str(),f.d.size()); if(!faulted()&&EAF_Eof(rc)!=0) sim_fail("wrong-result","reading past the end of %s returned code %d, which is not end of file",f.name.c_str(),rc); sim_count("end of file",1); sim_buf_free(b); break; }
      bool same=true; if(rc==0&&faulted()){ std::string w; std::vector<char> kn; range_(f,off,n,w,kn); for(long i=0;i<n;i++) if(kn[i]&&b[i]!=w[i]) same=false; }
      if(!rc_ok("read",f,rc,same)){ sim_buf_free(b); if(rc&&EAF_Eof(rc)==0) sim_fail("wrong-result","a failing read reported end of file"); break; } std::string w; std::vector<char> kn; range_(f,off,n,w,kn); if(o.kind==E_READ){ cmp("read",f,off,n,b,w,kn); sim_buf_free(b); } else { EReq x; x.f=fi; x.id=id; x.rd=true; x.buf=b; x.off=off; x.n=n; x.want=w; x.known=kn; R.push_back(x); } break; }
    case E_WAIT: if(!R.empty()) finish(q.below(R.size()),true); break;
    case E_PROBE: if(!R.empty()){ size_t k=q.below(R.size()); int stt=(int)q.pick({0,1,-1,7}); int rc=EAF_Probe(R[k].id,&stt); rc_ok("probe",F[R[k].f],rc); if(stt!=0&&stt!=1) sim_fail("wrong-result","probe returned status %d",stt); if(stt==0) finish(k,false); else sim_fail("wrong-result","probe reports that a request of an emulated asynchronous operation is still pending"); } break;
    case E_LENGTH: { eaf_off_t len=-5; int rc=EAF_Length(f.fd,&len); if(!rc_ok("length",f,rc)) break; if(!f.mem&&(long)len!=f.len()) sim_fail("wrong-length","%s is %ld bytes long, reported %.0f",f.name.c_str(),f.len(),(double)len); sim_count("lengths",1); break; }
    case E_TRUNC: { if(f.mem||f.mode==EAF_R) break; flush(fi,0,0,true,false); E0=sim_io_faults(); long nl=q.chance(0.5)?off:(long)q.below(f.d.size()+1); int rc=EAF_Truncate(f.fd,(eaf_off_t)(f.base()+nl)); if(!rc_ok("truncate",f,rc,sim_fs_bytes(f.name.c_str(),nullptr,0,0)==f.base()+nl)) break; f.touched=true; f.d.resize(nl,0); f.known.resize(nl,1); sim_count("truncations",1); break; }
    case E_CLOSE: { flush(fi,0,0,true,false); E0=sim_io_faults(); int rc=EAF_Close(f.fd); rc_ok("close",f,rc); f.open=false; sim_count("closes",1); int no=0; for(auto&g:F) if(g.open&&!g.mem) no++; int so=sim_fs_open_count(); if(so!=no) sim_fail("leak","%d files are open after a close, but the process holds %d descriptors",no,so); break; }
    case E_DELETE: { if(f.open) break; int rc=EAF_Delete(f.name.c_str()); if(!rc_ok("delete",f,rc,sim_fs_bytes(f.name.c_str(),nullptr,0,0)<0)) break; f.exists=false; f.mem=0; f.touched=false; f.d.clear(); f.known.clear(); if(sim_fs_bytes(f.name.c_str(),nullptr,0,0)>=0) sim_fail("wrong-result","%s still exists after its deletion",f.name.c_str()); sim_count("deletions",1); break; }
    case E_STALL: sim_stall(q.pick({1000,100000})); break; } }
  for(int i=0;i<8;i++) flush(i,0,0,true,false); for(auto&f:F) if(f.exists&&!f.mem){ long sz=sim_fs_bytes(f.name.c_str(),nullptr,0,0); if(sz!=f.len()) sim_fail("wrong-length","%s has %ld bytes at the end, expected %ld",f.name.c_str(),sz,f.len()); sz=(long)f.d.size(); std::string c(sz,0); if(sz) sim_fs_bytes(f.name.c_str(),&c[0],f.base(),sz); if(sz) sim_count(f.base()?"bytes at huge offsets":"bytes at small offsets",sz); for(long i=0;i<sz;i++) if(c[i]!=f.d[i]) sim_fail("wrong-bytes","%s: byte %ld is wrong at the end",f.name.c_str(),i); }
  sim_fs_arm(0); for(auto&f:F) if(f.open) EAF_Close(f.fd); for(auto&f:F) if(f.exists) EAF_Delete(f.name.c_str()); GA_Sync(); shutdown(); }
WORKLOAD(eaf,gen,setup,run,check)
