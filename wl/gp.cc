// C21: global pointer arrays refine an array of variable-length byte strings
#include "coll.h"
extern "C" {
#include "gp.h"
}
namespace {
struct El { int size=0; unsigned ver=0; bool have=false; };           // model of one element
struct G { int g=0,nd=0,d[4]; long n=0; std::vector<El> e; std::vector<void*> mine; int lo[4],hi[4]; bool own=false; };
unsigned char pat(long e,unsigned v,int i){ if(v==0) return 0; return (unsigned char)(e*131+v*29+i*7+1); }
long lin(const G&a,const int*ix){ long k=0; for(int i=0;i<a.nd;i++) k=k*a.d[i]+ix[i]; return k; }
void sub(const G&a,long k,int*ix){ for(int i=a.nd-1;i>=0;i--){ ix[i]=(int)(k%a.d[i]); k/=a.d[i]; } }
bool inb(const int*lo,const int*hi,int nd,const int*ix){ for(int i=0;i<nd;i++) if(ix[i]<lo[i]||ix[i]>hi[i]) return false; return true; }
int newsize(Case&c){ return c.r.chance(0.15)?1:c.r.chance(0.1)?(int)c.r.range(500,9000):(int)c.r.range(2,90); }
void check(Case&c,const G&a,long e,const unsigned char*b,unsigned v,const char*what){ for(int i=0;i<a.e[e].size;i++) if(b[i]!=pat(e,v,i)) sim_fail("wrong-value","%s: %s: byte %d of element %ld (%d bytes) is %02x on process %d, expected %02x",c.name,what,i,e,a.e[e].size,b[i],c.me,pat(e,v,i)); sim_count("elements compared",1); }
void make(Case&c,G&a){ a.nd=(int)c.r.range(1,4); dims_for(c,a.nd,a.d); a.n=1; for(int i=0;i<a.nd;i++) a.n*=a.d[i]; a.e.assign(a.n,El()); a.mine.assign(a.n,nullptr);
  a.g=GP_Create_handle(); GP_Set_dimensions(a.g,a.nd,a.d); if(GP_Get_dimension(a.g)!=a.nd) sim_fail("wrong-result","%s: GP_Get_dimension returned %d, expected %d",c.name,GP_Get_dimension(a.g),a.nd);
  int k=(int)c.r.below(3); int ch[4],nb[4]; if(k==1){ for(int i=0;i<a.nd;i++) ch[i]=c.r.chance(0.4)?-1:(int)c.r.range(1,a.d[i]); GP_Set_chunk(a.g,ch); }
  std::vector<int> map; bool irr=false; if(k==2){ int left=c.np; for(int i=0;i<a.nd;i++){ nb[i]=(int)c.r.range(1,std::max(1,std::min(left,a.d[i]))); left/=nb[i]; std::set<int> cut; cut.insert(0); while((int)cut.size()<nb[i]) cut.insert((int)c.r.below(a.d[i])); for(int x:cut) map.push_back(x); } GP_Set_irreg_distr(a.g,map.data(),nb); irr=true; }
  if(!GP_Allocate(a.g)) sim_fail("create-failed","%s: GP_Allocate failed",c.name);
  GP_Distribution(a.g,c.me,a.lo,a.hi); a.own=true; for(int i=0;i<a.nd;i++) if(a.hi[i]<a.lo[i]||a.lo[i]<0) a.own=false;
  // the blocks of all processes partition the array
  std::vector<int> seen(a.n,0); for(int p=0;p<c.np;p++){ int lo[4],hi[4]; GP_Distribution(a.g,p,lo,hi); bool ok=true; for(int i=0;i<a.nd;i++){ if(hi[i]<lo[i]||lo[i]<0) ok=false; } if(!ok) continue; for(long e=0;e<a.n;e++){ int ix[4]; sub(a,e,ix); if(inb(lo,hi,a.nd,ix)) seen[e]++; } } for(long e=0;e<a.n;e++) if(seen[e]!=1) sim_fail("wrong-distribution","%s: element %ld is in the blocks of %d processes%s",c.name,e,seen[e],irr?" (irregular distribution)":"");
  sim_count("arrays",1); }
bool local(const G&a,long e){ int ix[4]; sub(a,e,ix); return a.own&&inb(a.lo,a.hi,a.nd,ix); }
// owners attach memory to elements
void assign(Case&c,G&a,double frac){ for(long e=0;e<a.n;e++){ bool doit=c.r.chance(frac); int sz=newsize(c); unsigned v=(unsigned)c.r.range(1,1000); if(!doit||a.e[e].have) continue; a.e[e]={sz,v,true}; if(local(a,e)){ int ix[4]; sub(a,e,ix); unsigned char*p=(unsigned char*)GP_Malloc(sz); for(int i=0;i<sz;i++) p[i]=pat(e,v,i); a.mine[e]=p; GP_Assign_local_element(a.g,ix,p,sz); sim_count("elements assigned",1); } } }
void freesome(Case&c,G&a,double frac){ for(long e=0;e<a.n;e++){ bool doit=c.r.chance(frac); if(!a.e[e].have||!doit) continue; if(local(a,e)){ int ix[4]; sub(a,e,ix); void*p=GP_Free_local_element(a.g,ix); if(p!=a.mine[e]) sim_fail("wrong-result","%s: GP_Free_local_element of element %ld returned %p, expected %p",c.name,e,p,a.mine[e]); GP_Free(p); a.mine[e]=nullptr; } a.e[e]=El(); } }
void pick(Case&c,Rng&q,const G&a,int*lo,int*hi){ for(int i=0;i<a.nd;i++){ int x=(int)q.below(a.d[i]),y=(int)q.below(a.d[i]); lo[i]=std::min(x,y); hi[i]=std::max(x,y); if(q.chance(0.2)){ lo[i]=0; hi[i]=a.d[i]-1; } } (void)c; }
// reading of elements that nobody writes in this phase; 'busy' elements may have either value so their contents are not looked at
void readone(Case&c,Rng&q,const G&a,const std::vector<int>&wr,const char*what){ int way=(int)q.below(5);
  if(way==0&&a.own){ std::vector<long> l; for(long e=0;e<a.n;e++) if(a.mine[e]&&wr[e]<0) l.push_back(e); if(l.empty()) return; long e=l[q.below(l.size())]; int ix[4]; sub(a,e,ix); unsigned char*p=nullptr; int sz=-1; GP_Access_element(a.g,ix,&p,&sz); if(sz!=a.e[e].size||p!=a.mine[e]) sim_fail("wrong-result","%s: %s: GP_Access_element of element %ld gave %p, %d bytes, expected %p, %d",c.name,what,e,(void*)p,sz,a.mine[e],a.e[e].size); check(c,a,e,p,a.e[e].ver,what); GP_Release_element(a.g,ix); sim_count("local accesses",1); return; }
  if(way<=2){ int lo[4],hi[4],ext[4],ld[4]={1,1,1,1},ls[4]={1,1,1,1}; pick(c,q,a,lo,hi); long n=1,tot=0; for(int i=0;i<a.nd;i++){ ext[i]=hi[i]-lo[i]+1; n*=ext[i]; }
    long sp=ext[0],ss=ext[0]; for(int i=1;i<a.nd;i++){ ld[i-1]=ext[i]+(q.chance(0.3)?(int)q.below(3):0); ls[i-1]=ext[i]+(q.chance(0.3)?(int)q.below(3):0); sp*=ld[i-1]; ss*=ls[i-1]; }
    auto each=[&](std::function<void(long e,long o,long os)> f){ for(long k=0;k<n;k++){ int ix[4],rl[4]; long t=k; for(int i=a.nd-1;i>=0;i--){ rl[i]=(int)(t%ext[i]); t/=ext[i]; ix[i]=lo[i]+rl[i]; } long o=rl[0],os=rl[0]; for(int i=1;i<a.nd;i++){ o=o*ld[i-1]+rl[i]; os=os*ls[i-1]+rl[i]; } f(lin(a,ix),o,os); } };
    each([&](long e,long,long){ tot+=a.e[e].size; }); int sz=-1; GP_Get_size(a.g,lo,hi,&sz); if(sz!=tot) sim_fail("wrong-result","%s: %s: GP_Get_size returned %d, expected %ld",c.name,what,sz,tot);
    bool setb=q.chance(0.35); void**bp=(void**)sim_buf(sp*sizeof(void*)); int*bs=(int*)sim_buf(ss*sizeof(int)); for(long i=0;i<sp;i++) bp[i]=(void*)0x11; for(long i=0;i<ss;i++) bs[i]=-77;
    unsigned char*buf=(unsigned char*)sim_buf(std::max(1L,tot)); memset(buf,0x9C,std::max(1L,tot)); std::vector<unsigned char*> own; if(setb) each([&](long e,long o,long os){ unsigned char*p=(unsigned char*)sim_buf(std::max(1,a.e[e].size)); own.push_back(p); bp[o]=p; bs[os]=a.e[e].size; });
    std::set<long> ou,su; each([&](long,long o,long os){ ou.insert(o); su.insert(os); }); sz=-1; GP_Get(a.g,lo,hi,buf,bp,ld,bs,ls,&sz,setb); if(sz!=tot) sim_fail("wrong-result","%s: %s: GP_Get%s returned size %d, expected %ld",c.name,what,setb?" into given buffers":"",sz,tot);
    std::vector<std::pair<unsigned char*,int>> pl; each([&](long e,long o,long os){ if(bs[os]!=a.e[e].size) sim_fail("wrong-result","%s: %s: GP_Get returned size %d for element %ld, expected %d",c.name,what,bs[os],e,a.e[e].size); unsigned char*p=(unsigned char*)bp[o]; if(!setb&&a.e[e].size){ if(p<buf||p+a.e[e].size>buf+tot) sim_fail("wrong-result","%s: %s: GP_Get placed element %ld outside of the buffer",c.name,what,e); pl.push_back({p,a.e[e].size}); } if(wr[e]<0&&a.e[e].size) check(c,a,e,p,a.e[e].ver,what); });
    std::sort(pl.begin(),pl.end()); for(size_t i=1;i<pl.size();i++) if(pl[i-1].first+pl[i-1].second>pl[i].first) sim_fail("wrong-result","%s: %s: GP_Get placed two elements on top of each other",c.name,what);
    for(long i=0;i<sp;i++) if(!ou.count(i)&&bp[i]!=(void*)0x11) sim_fail("overrun","%s: %s: GP_Get changed a pointer outside of the patch",c.name,what); for(long i=0;i<ss;i++) if(!su.count(i)&&bs[i]!=-77) sim_fail("overrun","%s: %s: GP_Get changed a size outside of the patch",c.name,what);
    for(auto*p:own) sim_buf_free(p); sim_buf_free(buf); sim_buf_free(bp); sim_buf_free(bs); sim_count("gets",1); return; }
  int nv=(int)q.range(1,14); std::vector<int> s(nv*a.nd); std::vector<long> el(nv); long tot=0; for(int k=0;k<nv;k++){ el[k]=(long)q.below(a.n); sub(a,el[k],&s[k*a.nd]); tot+=a.e[el[k]].size; }
  int sz=-1; GP_Gather_size(a.g,nv,s.data(),&sz); if(sz!=tot) sim_fail("wrong-result","%s: %s: GP_Gather_size returned %d, expected %ld",c.name,what,sz,tot);
  bool setb=q.chance(0.35); void**bp=(void**)sim_buf(nv*sizeof(void*)); int*bs=(int*)sim_buf(nv*sizeof(int)); unsigned char*buf=(unsigned char*)sim_buf(std::max(1L,tot)); std::vector<unsigned char*> own; if(setb) for(int k=0;k<nv;k++){ own.push_back((unsigned char*)sim_buf(std::max(1,a.e[el[k]].size))); bp[k]=own[k]; bs[k]=a.e[el[k]].size; }
  sz=-1; GP_Gather(a.g,nv,s.data(),buf,bp,bs,&sz,setb); if(sz!=tot) sim_fail("wrong-result","%s: %s: GP_Gather%s returned size %d, expected %ld",c.name,what,setb?" into given buffers":"",sz,tot);
  for(int k=0;k<nv;k++){ if(bs[k]!=a.e[el[k]].size) sim_fail("wrong-result","%s: %s: GP_Gather returned size %d for element %ld, expected %d",c.name,what,bs[k],el[k],a.e[el[k]].size); if(wr[el[k]]<0&&bs[k]){ if(!setb&&((unsigned char*)bp[k]<buf||(unsigned char*)bp[k]+bs[k]>buf+tot)) sim_fail("wrong-result","%s: %s: GP_Gather placed element %ld outside of the buffer",c.name,what,el[k]); check(c,a,el[k],(unsigned char*)bp[k],a.e[el[k]].ver,what); } }
  for(auto*p:own) sim_buf_free(p); sim_buf_free(buf); sim_buf_free(bp); sim_buf_free(bs); sim_count("gathers",1); }
// one phase: some elements get a new version from one writer each, the others are read meanwhile
void phase(Case&c,G&a){ std::vector<int> wr(a.n,-1); std::vector<unsigned> nv(a.n,0); double f=c.r.pick({0.0,0.2,0.5,1.0}); for(long e=0;e<a.n;e++){ bool w=c.r.chance(f); int who=(int)c.r.below(c.np); unsigned v=(unsigned)c.r.range(1,1000); if(w&&a.e[e].have){ wr[e]=who; nv[e]=v; } }
  Rng q(c.r.s*5+c.me*7919); std::vector<long> todo; for(long e=0;e<a.n;e++) if(wr[e]==c.me) todo.push_back(e); std::vector<char> done(a.n,0);
  bool whole=q.chance(0.5); int rounds=(int)q.range(1,5);
  for(int t=0;t<rounds||!todo.empty();t++){ if(q.chance(0.15)) sim_stall(q.pick({500,20000,1000000})); if(q.chance(0.6)&&t<rounds) readone(c,q,a,wr,"while others write");
    if(todo.empty()) continue; std::vector<unsigned char*> own;
    if(q.chance(0.5)){ // a patch; elements of other writers are left out by giving them no bytes
      int lo[4],hi[4],ext[4],ld[4]={1,1,1,1},ls[4]={1,1,1,1}; pick(c,q,a,lo,hi); if(whole||t>3) for(int i=0;i<a.nd;i++){ lo[i]=0; hi[i]=a.d[i]-1; } long n=1; for(int i=0;i<a.nd;i++){ ext[i]=hi[i]-lo[i]+1; n*=ext[i]; } long sp=ext[0],ss=ext[0]; for(int i=1;i<a.nd;i++){ ld[i-1]=ext[i]+(q.chance(0.3)?(int)q.below(3):0); ls[i-1]=ext[i]+(q.chance(0.3)?(int)q.below(3):0); sp*=ld[i-1]; ss*=ls[i-1]; }
      void**bp=(void**)sim_buf(sp*sizeof(void*)); int*bs=(int*)sim_buf(ss*sizeof(int)); for(long i=0;i<sp;i++) bp[i]=nullptr; for(long i=0;i<ss;i++) bs[i]=0; long tot=0,cnt=0; bool all=true;
      for(long k=0;k<n;k++){ int ix[4],rl[4]; long x=k; for(int i=a.nd-1;i>=0;i--){ rl[i]=(int)(x%ext[i]); x/=ext[i]; ix[i]=lo[i]+rl[i]; } long o=rl[0],os=rl[0]; for(int i=1;i<a.nd;i++){ o=o*ld[i-1]+rl[i]; os=os*ls[i-1]+rl[i]; } long e=lin(a,ix); if(wr[e]!=c.me||done[e]){ if(a.e[e].size) all=false; continue; } unsigned char*p=(unsigned char*)sim_buf(a.e[e].size); own.push_back(p); for(int i=0;i<a.e[e].size;i++) p[i]=pat(e,nv[e],i); bp[o]=p; bs[os]=a.e[e].size; tot+=a.e[e].size; cnt++; done[e]=1; }
      if(cnt){ int sz=-1; GP_Put(a.g,lo,hi,bp,ld,bs,ls,&sz,all&&q.chance(0.5)); if(sz!=tot) sim_fail("wrong-result","%s: GP_Put returned size %d, expected %ld",c.name,sz,tot); sim_count("puts",1); }
      sim_buf_free(bp); sim_buf_free(bs); }
    else { int n=(int)q.range(1,10); std::vector<long> el; for(long e:todo) if(!done[e]&&(int)el.size()<n&&(t>3||q.chance(0.6))) el.push_back(e); if(!el.empty()){ n=(int)el.size(); for(int i=n-1;i>0;i--) std::swap(el[i],el[q.below(i+1)]); std::vector<int> s(n*a.nd); void**bp=(void**)sim_buf(n*sizeof(void*)); int*bs=(int*)sim_buf(n*sizeof(int)); long tot=0; for(int k=0;k<n;k++){ long e=el[k]; sub(a,e,&s[k*a.nd]); unsigned char*p=(unsigned char*)sim_buf(a.e[e].size); own.push_back(p); for(int i=0;i<a.e[e].size;i++) p[i]=pat(e,nv[e],i); bp[k]=p; bs[k]=a.e[e].size; tot+=bs[k]; done[e]=1; } int sz=-1; GP_Scatter(a.g,n,s.data(),bp,bs,&sz,q.chance(0.5)); if(sz!=tot) sim_fail("wrong-result","%s: GP_Scatter returned size %d, expected %ld",c.name,sz,tot); sim_buf_free(bp); sim_buf_free(bs); sim_count("scatters",1); } }
    for(auto*p:own){ memset(p,0xEE,1); sim_buf_free(p); }
    std::vector<long> l; for(long e:todo) if(!done[e]) l.push_back(e); todo=l; }
  GP_Sync(); for(long e=0;e<a.n;e++) if(wr[e]>=0) a.e[e].ver=nv[e]; sim_count("phases",1); }
void c_gp(Case&c){ G a; make(c,a); G b; bool two=c.r.chance(0.3); std::vector<int> no; 
  assign(c,a,c.r.pick({0.3,0.8,1.0})); if(two){ make(c,b); assign(c,b,0.7); } GP_Sync(); int ph=(int)c.r.range(1,4);
  for(int k=0;k<ph;k++){ if(two&&c.r.chance(0.4)) phase(c,b); else phase(c,a);
    if(c.r.chance(0.2)){ GP_Memzero(a.g); for(auto&x:a.e) x.ver=0; sim_count("memzero",1); }
    if(c.r.chance(0.3)){ GP_Sync(); freesome(c,a,c.r.pick({0.2,1.0})); if(c.r.chance(0.7)) assign(c,a,0.6); GP_Sync(); }
    no.assign(a.n,-1); Rng q(c.r.s*9+c.me*31); int nr=(int)q.range(1,4); for(int i=0;i<nr;i++) readone(c,q,a,no,"after synchronisation"); GP_Sync(); }
  if(two){ no.assign(b.n,-1); Rng q(c.r.s*9+c.me*37); readone(c,q,b,no,"second array"); GP_Sync(); freesome(c,b,1.0); GP_Sync(); if(!GP_Destroy(b.g)) sim_fail("wrong-result","%s: GP_Destroy failed",c.name); }
  freesome(c,a,1.0); GP_Sync(); if(!GP_Destroy(a.g)) sim_fail("wrong-result","%s: GP_Destroy failed",c.name); GA_Sync(); }
void c_gpinit(Case&c){ GP_Initialize(); c_gp(c); GP_Terminate(); GA_Sync(); }
const Cases cases={{"pointer arrays",c_gpinit,1}};
// Elements held by other processes need one-sided access to memory from GP_Malloc, which mpi-pr, mpi-pt and mpi3 do not
// provide (known finding C21-remote-elements, reproduced by workload gpfar): there only one process takes part,
// and none on mpi-pr and mpi3, where even the own elements are not accessible.
void gp_gen(Program&p,Rng&r){ int port=(int)p.get("port"); bool far=port==P_TS||port==P_MT; if(!far&&(port!=P_PT||r.chance(0.8))){ p.set("port",r.chance(0.6)?P_MT:P_TS); far=true; } coll_gen(p,r,cases,0,1,far?6:1,120); if(far&&r.chance(0.5)){ int np=(int)p.get("np"); p.set("nodes",r.range(1,std::min(3,np))); } }
void gp_run(Program&p){ coll_run(p,cases); }
WORKLOAD(gp,gp_gen,coll_setup,gp_run,coll_check)
// the smallest history with an element of another process
void c_far(Case&c){ GP_Initialize(); int o=(c.me+1)%c.np; int d[1]={c.np},ix[1]={c.me},lo[1]={o},hi[1]={o},ld[1]={1}; int g=GP_Create_handle(); GP_Set_dimensions(g,1,d); GP_Allocate(g); unsigned char*p=(unsigned char*)GP_Malloc(5); memset(p,10+c.me,5); GP_Assign_local_element(g,ix,p,5); GP_Sync(); unsigned char b[5]; void*bp[1]; int bs[1],sz=0; GP_Get(g,lo,hi,b,bp,ld,bs,ld,&sz,0); for(int i=0;i<5;i++) if(b[i]!=10+o) sim_fail("wrong-value","%s: byte %d of process %d's element is %d, expected %d",c.name,i,o,b[i],10+o); GP_Sync(); GP_Free(GP_Free_local_element(g,ix)); GP_Sync(); GP_Destroy(g); GP_Terminate(); }
const Cases fcases={{"remote element",c_far,1}};
COLL_WORKLOAD(gpfar,fcases,0,3,3,10)
}
