// Shared helpers of the workloads: base configuration, boot/shutdown, element types, array creation.
#ifndef COMMON_H
#define COMMON_H
#include "wl.h"
extern "C" {
#include "ga.h"
#include "macdecls.h"
#include "armci.h"
#include "message.h"
}
#include "ga64.h"
enum Port { P_TS=0,P_PR,P_MT,P_PT,P_MPI3,P_FINE };
// np user processes in [lo,hi]; sets nproc, np, nodes and the runtime's environment knobs
static inline void gen_base(Program&p,Rng&r,int lo=2,int hi=6,bool knobs=true){
  int port=(int)p.get("port");
  if(port==P_PR){
    struct C { int nodes,ppn,prpn; }; static const C all[]={{1,2,1},{1,3,1},{1,4,1},{1,5,1},{1,6,1},{1,7,1},{1,4,2},{1,6,2},{1,8,2},{2,2,1},{2,3,1},{2,4,1},{2,5,1},{2,4,2},{3,2,1},{3,3,1}};
    std::vector<C> ok; for(auto&c:all){ int np=c.nodes*(c.ppn-c.prpn); if(np>=lo&&np<=hi&&c.nodes*c.ppn<=10) ok.push_back(c); }
    C c=ok[r.below(ok.size())]; if(r.chance(0.6)) for(int t=0;t<4&&c.prpn>1;t++) c=ok[r.below(ok.size())];
    p.set("nodes",c.nodes); p.set("nproc",c.nodes*c.ppn); p.set("np",c.nodes*(c.ppn-c.prpn)); p.set("cyclic",0);   // the runtime requires contiguous ranks on each node
    if(c.prpn==1&&hi>=3&&r.chance(0.12)){ int nn=(int)r.range(2,3),u[3]={0,0,0},tot=0; for(int i=0;i<nn;i++) tot+=u[i]=(int)r.range(1,4); if(tot>=lo&&tot<=hi&&tot+nn<=10){ long m=0; int at=0; for(int i=0;i<nn;i++){ if(i) m|=1L<<at; at+=u[i]+1; } p.set("nodes",nn); p.set("nproc",at); p.set("np",tot); p.set("nodemap",m); } }
    if(c.prpn!=1) p.set("env.GA_NUM_PROGRESS_RANKS_PER_NODE",c.prpn);
    if(c.prpn>1&&r.chance(0.3)) p.set("env.GA_PROGRESS_RANKS_DISTRIBUTION_CYCLIC",1);
  } else {
    int np=(int)r.range(lo,hi); p.set("np",np); p.set("nproc",np); p.set("nodes",1); if(np%2==0&&np>2&&r.chance(0.4)){ p.set("nodes",2); p.set("cyclic",r.chance(0.3)); }
    if(np>2&&r.chance(0.12)){ long m=0; int nn=1; for(int i=1;i<np;i++) if(r.chance(0.35)){ m|=1L<<i; nn++; } if(m){ p.set("nodemap",m); p.set("nodes",nn); p.set("cyclic",0); } }   // nodes of different sizes
  }
  if(r.chance(0.5)) p.set("x.v64",r.pick({20,60,100}));   // share of the calls that use the 64-bit variants
  if(!knobs||p.get("x.noknobs",0)) return;
  if(r.chance(0.5)) p.set("env.COMEX_MAX_NB_OUTSTANDING",r.pick({1,2,3,8}));
  if(port==P_PR||port==P_MT||port==P_PT||port==P_TS||port==P_FINE){
    if(r.chance(0.4)) p.set("env.COMEX_EAGER_THRESHOLD",r.pick({-1,64,256,4096}));
    if(r.chance(0.4)) p.set("env.COMEX_STATIC_BUFFER_SIZE",r.pick({64,512,2048,65536}));
    if(r.chance(0.4)) p.set("env.COMEX_MAX_MESSAGE_SIZE",r.pick({64,200,1024,4096}));
    for(const char*k:{"PUT","GET","ACC"}) for(const char*w:{"SELF","SMP","PACKED","IOV"}) if(r.chance(0.22)) p.set(("env.COMEX_ENABLE_"+std::string(k)+"_"+w).c_str(),0);
    for(const char*k:{"PUT","GET"}){ if(r.chance(0.5)) p.set(("env.COMEX_ENABLE_"+std::string(k)+"_DATATYPE").c_str(),r.below(2)); if(r.chance(0.5)) p.set(("env.COMEX_"+std::string(k)+"_DATATYPE_THRESHOLD").c_str(),r.pick({0,64,1024,8192})); }
  }
}
static inline void boot(const Program&p,bool ma=true){ v64_pct=(int)p.get("x.v64",0); v64_2d=!p.get("threads",0); v64_ctr=0;
  int prov; if(p.get("port")==P_FINE||p.get("threads")) MPI_Init_thread(0,0,MPI_THREAD_MULTIPLE,&prov);
  else if(p.get("port")==P_MT||p.get("port")==P_PT) MPI_Init_thread(0,0,MPI_THREAD_MULTIPLE,&prov); else MPI_Init(0,0);
  if(p.get("ga.limit",0)>0) GA_Initialize_ltd(p.get("ga.limit")); else GA_Initialize();
  if(ma&&!MA_init(C_DBL,(Integer)p.get("ma.stack",200000),(Integer)p.get("ma.heap",200000))) sim_fail("init","MA_init failed");
  if(GA_Nnodes()!=p.get("np")) sim_fail("wrong-size","GA_Nnodes()=%d, expected %ld",GA_Nnodes(),p.get("np")); }
static inline void shutdown(){ GA_Terminate(); MPI_Finalize(); }

// ---- element types
enum { T_INT,T_LONG,T_LL,T_FLT,T_DBL,T_SC,T_DC,T_N };
static inline int ctype(int t){ static const int v[]={C_INT,C_LONG,C_LONGLONG,C_FLOAT,C_DBL,C_SCPL,C_DCPL}; return v[t]; }
static inline int tsize(int t){ static const int v[]={sizeof(int),sizeof(long),sizeof(long long),4,8,8,16}; return v[t]; }
static inline const char* tname(int t){ static const char*v[]={"int","long","long long","float","double","single complex","double complex"}; return v[t]; }
static inline bool tcplx(int t){ return t>=T_SC; }
struct Val { long re=0,im=0; bool operator==(const Val&o)const{return re==o.re&&im==o.im;} bool operator!=(const Val&o)const{return !(*this==o);} };
static inline Val operator+(Val a,Val b){ return {a.re+b.re,a.im+b.im}; }
static inline Val operator*(Val a,Val b){ return {a.re*b.re-a.im*b.im,a.re*b.im+a.im*b.re}; }
static inline void enc(int t,void*p,Val v){ switch(t){ case T_INT:*(int*)p=(int)v.re;break; case T_LONG:*(long*)p=v.re;break; case T_LL:*(long long*)p=v.re;break; case T_FLT:*(float*)p=(float)v.re;break; case T_DBL:*(double*)p=(double)v.re;break; case T_SC:((float*)p)[0]=(float)v.re;((float*)p)[1]=(float)v.im;break; case T_DC:((double*)p)[0]=(double)v.re;((double*)p)[1]=(double)v.im;break; } }
static inline long d2l(double d){ if(!(d>-4e18&&d<4e18)) return (long)0x7fffffffffffff01; long l=(long)d; if((double)l!=d) return (long)0x7fffffffffffff02; return l; }
static inline Val dec(int t,const void*p){ switch(t){ case T_INT:return{*(const int*)p,0}; case T_LONG:return{*(const long*)p,0}; case T_LL:return{(long)*(const long long*)p,0}; case T_FLT:return{d2l(*(const float*)p),0}; case T_DBL:return{d2l(*(const double*)p),0}; case T_SC:return{d2l(((const float*)p)[0]),d2l(((const float*)p)[1])}; default:return{d2l(((const double*)p)[0]),d2l(((const double*)p)[1])}; } }

// ---- arrays
enum { D_REG,D_CHUNK,D_IRREG,D_BC,D_SCAL,D_TILE,D_TIRR,D_GHOST,D_RESTR,D_N };
static inline const char* dname(int d){ static const char*v[]={"regular","chunked","irregular","block-cyclic","scalapack","tiled","tiled-irregular","ghosts","restricted"}; return v[d]; }
struct ArrSpec { int type=T_INT,nd=1,dims[4]={1,1,1,1},dist=D_REG; int chunk[4]={0,0,0,0},block[4]={1,1,1,1},grid[4]={1,1,1,1},gw[4]={0,0,0,0}; std::vector<int> map; int nblk[4]={1,1,1,1}; std::vector<int> rlist; 
  long size()const{ long n=1; for(int i=0;i<nd;i++) n*=dims[i]; return n; }
  void index(long e,int*s)const{ for(int i=nd-1;i>=0;i--){ s[i]=e%dims[i]; e/=dims[i]; } }
  long lin(const int*s)const{ long e=0; for(int i=0;i<nd;i++) e=e*dims[i]+s[i]; return e; } };
// deterministic spec from parameters: seed, type, nd, dims..., dist
static inline ArrSpec make_spec(long seed,int type,int nd,const int*dims,int dist,int np){
  Rng r(seed); ArrSpec a; a.type=type; a.nd=nd; for(int i=0;i<nd;i++) a.dims[i]=std::max(1,dims[i]); a.dist=dist;
  auto factor=[&](int n,int*g){ for(int i=0;i<nd;i++) g[i]=1; int m=n; for(int f=2;f<=m;) if(m%f==0){ g[r.below(nd)]*=f; m/=f; } else f++; };
  switch(dist){
    case D_CHUNK: for(int i=0;i<nd;i++) a.chunk[i]=r.chance(0.3)?-1:r.chance(0.3)?a.dims[i]:(int)r.range(1,a.dims[i]); if(r.chance(0.1)) a.chunk[0]=0; break;
    case D_GHOST: for(int i=0;i<nd;i++){ a.gw[i]=(int)r.range(0,std::min(2,a.dims[i]/np)); a.chunk[i]=-1; }
      if(r.chance(0.3)){ int gr[4]={1,1,1,1}; bool ok=true; factor(np,gr); for(int i=0;i<nd;i++) if(a.dims[i]<gr[i]*std::max(1,a.gw[i])) ok=false; if(ok) for(int i=0;i<nd;i++){ int m=std::max(1,a.gw[i]),spare=a.dims[i]-gr[i]*m,at=0; a.nblk[i]=gr[i]; for(int k=0;k<gr[i];k++){ a.map.push_back(at); int e=(int)r.below(spare+1); spare-=e; at+=m+e; } } } break;   // irregular blocks that hold the ghost widths
    case D_IRREG: case D_TIRR: { int left=np; for(int i=0;i<nd;i++){ int mx=std::min(dist==D_IRREG?left:6,a.dims[i]); a.nblk[i]=(int)r.range(1,mx); if(dist==D_IRREG) left/=a.nblk[i]; 
        std::set<int> cut; cut.insert(0); while((int)cut.size()<a.nblk[i]) cut.insert((int)r.below(a.dims[i])); for(int c:cut) a.map.push_back(c); }
      if(dist==D_TIRR) factor(np,a.grid); break; }
    case D_BC: for(int i=0;i<nd;i++) a.block[i]=(int)r.range(1,std::max(1,(a.dims[i]+1)/2)); break;
    case D_SCAL: case D_TILE: for(int i=0;i<nd;i++) a.block[i]=(int)r.range(1,std::max(1,(a.dims[i]+1)/2)); factor(np,a.grid); break;
    case D_RESTR: { int n=(int)r.range(1,np); std::vector<int> v; for(int i=0;i<np;i++) v.push_back(i); for(int i=np-1;i>0;i--) std::swap(v[i],v[r.below(i+1)]); v.resize(n); if(r.chance(0.25)){ int lo=(int)r.below(np-n+1); for(int i=0;i<n;i++) v[i]=lo+i; } a.rlist=v; break; }
  }
  return a; }
// element type of the next array instead of the spec's (registered types); used up by create_arr
static int over_type=0;
static inline int create_arr(const ArrSpec&s,const char*name,int grp=-1){
  ArrSpec a=s; unsigned h=2166136261u; auto mix=[&](long v){ h=(h^(unsigned)v)*16777619u; }; mix(a.nd); mix(a.type); mix(a.dist); for(int i=0;i<a.nd;i++){ mix(a.dims[i]); mix(a.block[i]); mix(a.chunk[i]); mix(a.gw[i]); } for(int x:a.map) mix(x); for(int x:a.rlist) mix(x); h^=h>>15;
  bool alt=v64_pct>0&&(h&1),w=h&2,one=h&4; int nd=a.nd; int64_t D[4],B[4],C[4],G[4],N[4],W[4]; for(int i=0;i<4;i++){ D[i]=a.dims[i]; B[i]=a.block[i]; C[i]=a.chunk[i]; G[i]=a.grid[i]; N[i]=a.nblk[i]; W[i]=a.gw[i]; } std::vector<int64_t> M(a.map.begin(),a.map.end()); int t=over_type?over_type:ctype(a.type); over_type=0; char*nm=(char*)name; bool irr=!a.map.empty();
  if(alt&&one) switch(a.dist){   // one-call creation
    case D_REG: return grp>=0?(w?NGA_Create_config64(t,nd,D,nm,nullptr,grp):(NGA_Create_config)(t,nd,a.dims,nm,nullptr,grp)):(w?NGA_Create64(t,nd,D,nm,nullptr):(NGA_Create)(t,nd,a.dims,nm,nullptr));
    case D_CHUNK: return grp>=0?(w?NGA_Create_config64(t,nd,D,nm,C,grp):(NGA_Create_config)(t,nd,a.dims,nm,a.chunk,grp)):(w?NGA_Create64(t,nd,D,nm,C):(NGA_Create)(t,nd,a.dims,nm,a.chunk));
    case D_IRREG: return grp>=0?(w?NGA_Create_irreg_config64(t,nd,D,nm,N,M.data(),grp):NGA_Create_irreg_config(t,nd,a.dims,nm,a.nblk,a.map.data(),grp)):(w?NGA_Create_irreg64(t,nd,D,nm,N,M.data()):NGA_Create_irreg(t,nd,a.dims,nm,a.nblk,a.map.data()));
    case D_GHOST: if(irr) return grp>=0?(w?NGA_Create_ghosts_irreg_config64(t,nd,D,W,nm,N,M.data(),grp):NGA_Create_ghosts_irreg_config(t,nd,a.dims,a.gw,nm,a.nblk,a.map.data(),grp)):(w?NGA_Create_ghosts_irreg64(t,nd,D,W,nm,N,M.data()):NGA_Create_ghosts_irreg(t,nd,a.dims,a.gw,nm,a.nblk,a.map.data()));
      return grp>=0?(w?NGA_Create_ghosts_config64(t,nd,D,W,nm,nullptr,grp):NGA_Create_ghosts_config(t,nd,a.dims,a.gw,nm,nullptr,grp)):(w?NGA_Create_ghosts64(t,nd,D,W,nm,nullptr):(NGA_Create_ghosts)(t,nd,a.dims,a.gw,nm,nullptr)); }
  bool k=h&8; int g=alt?NGA_Create_handle():GA_Create_handle(); if(alt&&w){ if(k) NGA_Set_data64(g,nd,D,t); else GA_Set_data64(g,nd,D,t); } else if(alt&&k) NGA_Set_data(g,nd,a.dims,t); else GA_Set_data(g,nd,a.dims,t); if(alt&&k) NGA_Set_array_name(g,nm); else GA_Set_array_name(g,nm); if(grp>=0){ if(alt&&k) NGA_Set_pgroup(g,grp); else GA_Set_pgroup(g,grp); }
#define SET4(F,i,l) (alt&&w&&k?(void)NGA_##F##64 l:alt&&w?(void)GA_##F##64 l:alt&&k?(void)NGA_##F i:(void)GA_##F i)
  switch(a.dist){
    case D_CHUNK: SET4(Set_chunk,(g,a.chunk),(g,C)); break;
    case D_IRREG: SET4(Set_irreg_distr,(g,a.map.data(),a.nblk),(g,M.data(),N)); break;
    case D_BC: SET4(Set_block_cyclic,(g,a.block),(g,B)); break;
    case D_SCAL: SET4(Set_block_cyclic_proc_grid,(g,a.block,a.grid),(g,B,G)); break;
    case D_TILE: SET4(Set_tiled_proc_grid,(g,a.block,a.grid),(g,B,G)); break;
    case D_TIRR: SET4(Set_tiled_irreg_proc_grid,(g,a.map.data(),a.nblk,a.grid),(g,M.data(),N,G)); break;
    case D_GHOST: if(irr) SET4(Set_irreg_distr,(g,a.map.data(),a.nblk),(g,M.data(),N)); SET4(Set_ghosts,(g,a.gw),(g,W)); break;
    case D_RESTR: { int n=(int)a.rlist.size(); bool run=true; for(int i=1;i<n;i++) if(a.rlist[i]!=a.rlist[0]+i) run=false; if(alt&&run&&w) GA_Set_restricted_range(g,a.rlist[0],a.rlist[n-1]); else if(alt&&k) NGA_Set_restricted(g,a.rlist.data(),n); else GA_Set_restricted(g,a.rlist.data(),n); break; }
  }
#undef SET4
  if(!(alt&&w?NGA_Allocate(g):GA_Allocate(g))) return 0;
  return g; }
// a patch buffer with its own leading dimensions; element index of patch offset
struct Patch { int nd,lo[4],hi[4],ext[4],ld[4]; long n,span; };
static inline Patch mk_patch(int nd,const int*lo,const int*hi,const int*pad){ Patch p; p.nd=nd; p.n=1; p.span=1; for(int i=0;i<nd;i++){ p.lo[i]=lo[i]; p.hi[i]=hi[i]; p.ext[i]=hi[i]-lo[i]+1; p.n*=p.ext[i]; } for(int i=1;i<nd;i++) p.ld[i-1]=p.ext[i]+(pad?pad[i]:0); p.span=p.ext[0]; for(int i=1;i<nd;i++) p.span*=p.ld[i-1]; return p; }
static inline long pat_off(const Patch&p,const int*rel){ long o=rel[0]; for(int i=1;i<p.nd;i++) o=o*p.ld[i-1]+rel[i]; return o; }
static inline void pat_rel(const Patch&p,long k,int*rel){ for(int i=p.nd-1;i>=0;i--){ rel[i]=k%p.ext[i]; k/=p.ext[i]; } }
#endif
