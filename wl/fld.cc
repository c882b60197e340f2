// C29: registered element types and field transfers: the bytes named by a transfer move, no others.
#include "coll.h"
typedef std::vector<unsigned char> Bytes;
struct FArr { ArrSpec s; int g=0,type=0,es=1; Bytes v; };
static int reg(Case&c,size_t n){ int t=NGA_Register_type(n); if(t<=0) sim_fail("register-failed","registering a type of %zu bytes returned %d",n,t); (void)c; sim_count("types registered",1); return t; }
static void dereg(int t){ int rc=NGA_Deregister_type(t); if(rc) sim_fail("wrong-result","removing the registered type %d returned %d",t,rc); }
static FArr mkf(Case&c,int type,int es,int nd,int*d,int mask){ FArr a; a.type=type; a.es=es; long seed=(long)(c.r.next()>>40); int di=pick_dist(c,mask); a.s=make_spec(seed,T_INT,nd,d,di,c.np); over_type=type; a.g=create_arr(a.s,"records",c.group?c.grp:-1); if(!a.g) sim_fail("create-failed","creating a %s array of a type of %d bytes failed",dname(di),es); int ty,n2,d2[8]; NGA_Inquire(a.g,&ty,&n2,d2); if(ty!=type||n2!=nd) sim_fail("wrong-query","an array of type %d with %d dimensions is reported with type %d and %d dimensions",type,nd,ty,n2); a.v.resize(a.s.size()*es); sim_count("arrays",1); return a; }
struct Pos { int lo[4],hi[4]; };
static void xfer(Case&c,FArr&a,Pos p,int off,int len,bool get,int how,Rng&q,bool fresh,const char*what){   // one transfer of bytes off..off+len-1 of the elements of a patch; writes draw new bytes into the model when it is this process's turn
  int nd=a.s.nd,pad[4]={0,0,0,0},ld[4]; for(int i=1;i<nd;i++) if(q.chance(0.4)) pad[i]=(int)q.below(4); Patch pt=mk_patch(nd,p.lo,p.hi,pad); for(int i=0;i<nd-1;i++) ld[i]=pt.ld[i]; unsigned char*b=(unsigned char*)sim_buf(pt.span*len); memset(b,0x9C,pt.span*len); std::vector<char> named(pt.span,0);
  auto at=[&](long k,long&o){ int rel[4],id[4]; pat_rel(pt,k,rel); o=pat_off(pt,rel); for(int i=0;i<nd;i++) id[i]=rel[i]+p.lo[i]; return a.s.lin(id); };
  if(!get) for(long k=0;k<pt.n;k++){ long o,e=at(k,o); named[o]=1; for(int i=0;i<len;i++){ if(fresh) a.v[e*a.es+off+i]=(unsigned char)q.below(256); b[o*len+i]=a.v[e*a.es+off+i]; } }
  Bytes keep; if(!get) keep.assign(b,b+pt.span*len); ga_nbhdl_t h; bool whole=len==a.es&&how<2;
  if(get){ if(whole){ if(how) { NGA_NbGet(a.g,p.lo,p.hi,b,ld,&h); NGA_NbWait(&h); } else NGA_Get(a.g,p.lo,p.hi,b,ld); } else if(how&1){ NGA_Nbget_field(a.g,p.lo,p.hi,off,len,b,ld,&h); if(q.chance(0.3)) while(!NGA_NbTest(&h)) sim_yield(); else NGA_NbWait(&h); } else NGA_Get_field(a.g,p.lo,p.hi,off,len,b,ld); }
  else { if(whole){ if(how){ NGA_NbPut(a.g,p.lo,p.hi,b,ld,&h); NGA_NbWait(&h); } else NGA_Put(a.g,p.lo,p.hi,b,ld); } else if(how&1){ NGA_Nbput_field(a.g,p.lo,p.hi,off,len,b,ld,&h); NGA_NbWait(&h); } else NGA_Put_field(a.g,p.lo,p.hi,off,len,b,ld); }
  if(!get){ if(memcmp(keep.data(),b,keep.size())) sim_fail("wrong-value","%s: the caller's buffer changed",what); memset(b,0x77,pt.span*len); }
  else { for(long k=0;k<pt.n;k++){ long o,e=at(k,o); named[o]=1; for(int i=0;i<len;i++) if(b[o*len+i]!=a.v[e*a.es+off+i]) sim_fail("wrong-value","%s: byte %d of element %ld of a %s array of %d-byte elements (bytes %d to %d of elements, %s) is %02x, expected %02x",what,off+i,e,dname(a.s.dist),a.es,off,off+len-1,c.group?"group":"world",b[o*len+i],a.v[e*a.es+off+i]); } for(long o=0;o<pt.span;o++) if(!named[o]) for(int i=0;i<len;i++) if(b[o*len+i]!=0x9C) sim_fail("wrong-value","%s: a byte of the caller's buffer outside the patch changed",what); sim_count("elements compared",pt.n); }
  sim_count(get?"field reads":"field writes",1); sim_buf_free(b); }
static bool slab(const ArrSpec&s,int k,int n,Pos&p,Rng&q){ int n0=s.dims[0],lo=(int)((long)n0*k/n),hi=(int)((long)n0*(k+1)/n)-1; if(hi<lo) return false; for(int i=0;i<s.nd;i++){ int l=i?0:lo,h=i?s.dims[i]-1:hi; if(q.chance(0.6)){ int x=l+(int)q.below(h-l+1),y=l+(int)q.below(h-l+1); l=std::min(x,y); h=std::max(x,y); } p.lo[i]=l; p.hi[i]=h; } return true; }
static void fillall(Case&c,FArr&a){ for(auto&x:a.v) x=(unsigned char)c.r.below(256); int n0=a.s.dims[0],lo=(int)((long)n0*c.me/c.np),hi=(int)((long)n0*(c.me+1)/c.np)-1; if(hi<lo) return; Pos p; for(int i=0;i<a.s.nd;i++){ p.lo[i]=i?0:lo; p.hi[i]=i?a.s.dims[i]-1:hi; } Rng q(c.r.s+c.me*11); xfer(c,a,p,0,a.es,false,(int)q.below(2),q,false,"whole elements"); }
static void check(Case&c,FArr&a,const std::vector<int>&cut,const char*what){ Rng q(c.r.s+c.me*177+3); c.r.next(); int n=(int)q.range(1,3); for(int k=0;k<n;k++){ Pos p; slab(a.s,0,1,p,q); int off=0,len=a.es; if(q.chance(0.7)){ int i=(int)q.below(cut.size()-1); off=cut[i]; len=cut[i+1]-off; } xfer(c,a,p,off,len,true,(int)q.below(4),q,false,what); } }
static void c_field(Case&c){ static const int bt[]={C_INT,C_LONG,C_FLOAT,C_DBL,C_SCPL,C_DCPL,C_LONGLONG},bs[]={4,8,4,8,8,16,8}; std::vector<int> ts; int es,type; bool own=c.r.chance(0.75);
  if(own){ int n=(int)c.r.range(1,4); std::vector<int> sz; for(int i=0;i<n;i++){ sz.push_back(c.r.chance(0.5)?(int)c.r.pick({8,12,16,24,32,40}):(int)c.r.range(1,48)); ts.push_back(reg(c,sz[i])); for(int j=0;j<i;j++) if(ts[j]==ts[i]) sim_fail("wrong-result","two registered types have the same number %d",ts[i]); } int k=(int)c.r.below(n); type=ts[k]; es=sz[k]; if(n>1&&c.r.chance(0.4)){ int z=(k+1)%n; dereg(ts[z]); if(c.r.chance(0.6)) ts[z]=reg(c,c.r.range(1,64)); else ts.erase(ts.begin()+z); } }
  else { int k=(int)c.r.below(7); type=bt[k]; es=bs[k]; }
  int nd=(int)c.r.pick({1,2,2,3,4}),d[4]; dims_for(c,nd,d); FArr a=mkf(c,type,es,nd,d,M_ALL); fillall(c,a); csync(c); jitter(c);
  std::vector<int> cut={0}; int nf=(int)c.r.range(1,std::min(es,5)); for(int i=1;i<nf;i++) cut.push_back((int)c.r.range(1,es-1)); cut.push_back(es); std::sort(cut.begin(),cut.end()); cut.erase(std::unique(cut.begin(),cut.end()),cut.end()); nf=(int)cut.size()-1;
  int rounds=(int)c.r.range(1,3); for(int rd=0;rd<rounds;rd++){ uint64_t seed=c.r.next(); int w=nf>1&&c.r.chance(0.7)?nf-1:nf; // process k writes field k%w in its slab among the writers of that field; the other fields are only read
    for(int k=0;k<c.np;k++){ Rng q(seed+k*999); int f=k%w,mate=k/w,n=(c.np-f+w-1)/w; Pos p; int m=(int)q.range(1,3); for(int j=0;j<m;j++){ if(!slab(a.s,mate,n,p,q)) break; int how=(int)q.below(4); if(k==c.me) xfer(c,a,p,cut[f],cut[f+1]-cut[f],false,how,q,true,"field write"); else { int pad[4]={0,0,0,0}; for(int i=1;i<nd;i++) if(q.chance(0.4)) pad[i]=(int)q.below(4); Patch pt=mk_patch(nd,p.lo,p.hi,nullptr); int len=cut[f+1]-cut[f]; for(long e=0;e<pt.n;e++){ int rel[4],id[4]; pat_rel(pt,e,rel); for(int i=0;i<nd;i++) id[i]=rel[i]+p.lo[i]; long l=a.s.lin(id); for(int i=0;i<len;i++) a.v[l*es+cut[f]+i]=(unsigned char)q.below(256); } } } }
    if(w<nf){ Rng q(seed+c.me*31); Pos p; slab(a.s,0,1,p,q); xfer(c,a,p,cut[w],cut[nf]-cut[w],true,2+(int)q.below(2),q,false,"read of a field while the others are written"); }
    csync(c); check(c,a,cut,"field read"); csync(c); }
  if(own){ int how=(int)c.r.below(4); if(how==0){ FArr b=a; b.g=GA_Duplicate(a.g,(char*)"twin"); fillall(c,b); csync(c); check(c,b,cut,"duplicate of an array of records"); check(c,a,cut,"original of a duplicate"); csync(c); GA_Destroy(b.g); }
    else if(how==1){ // gather and scatter of whole elements
      int cnt=(int)c.r.range(1,10); for(int pass=0;pass<2;pass++){ uint64_t seed=c.r.next(); std::vector<int> ix(cnt*nd); std::vector<int*> sub(cnt); unsigned char*b=(unsigned char*)sim_buf(cnt*es); std::set<long> used; if(pass){ int mine=0; for(int k=0;k<c.np;k++){ Rng q(seed+k); for(int i=0;i<cnt;i++){ int id[4]; for(int z=0;z<nd;z++) id[z]=(int)q.below(d[z]); long l=a.s.lin(id); if(!used.insert(l).second) continue; if(k==c.me){ for(int z=0;z<nd;z++) ix[mine*nd+z]=id[z]; sub[mine]=&ix[mine*nd]; } for(int z=0;z<es;z++){ unsigned char x=(unsigned char)q.below(256); a.v[l*es+z]=x; if(k==c.me) b[mine*es+z]=x; } if(k==c.me) mine++; } } if(mine) NGA_Scatter(a.g,b,sub.data(),mine); csync(c); check(c,a,cut,"scatter of records"); csync(c); }
        else { Rng q(seed+c.me); for(int i=0;i<cnt;i++){ for(int z=0;z<nd;z++) ix[i*nd+z]=(int)q.below(d[z]); sub[i]=&ix[i*nd]; } NGA_Gather(a.g,b,sub.data(),cnt); for(int i=0;i<cnt;i++) if(memcmp(b+i*es,&a.v[a.s.lin(sub[i])*es],es)) sim_fail("wrong-value","gather of records: element %ld of a %s array of %d-byte elements has wrong contents",a.s.lin(sub[i]),dname(a.s.dist),es); csync(c); } sim_buf_free(b); } } }
  GA_Destroy(a.g); Rng q(c.r.next()); while(!ts.empty()){ int z=(int)q.below(ts.size()); dereg(ts[z]); if(NGA_Deregister_type(ts[z])>=0) sim_fail("wrong-result","the type %d could be removed twice",ts[z]); ts.erase(ts.begin()+z); } }
static void c_types(Case&c){ std::map<int,int> m; int n=(int)c.r.range(10,400); bool full=false; for(int i=0;i<n;i++){ if(c.r.chance(0.7)||m.empty()){ int z=(int)c.r.range(1,100),t=NGA_Register_type(z); if(t<0){ full=true; if((int)m.size()<100) sim_fail("register-failed","only %zu types could be registered",m.size()); continue; } if(m.count(t)) sim_fail("wrong-result","the number %d of a type in use was given to another",t); m[t]=z; } else { auto it=m.begin(); std::advance(it,c.r.below(m.size())); dereg(it->first); m.erase(it); } }
  if(!m.empty()){ auto it=m.begin(); std::advance(it,c.r.below(m.size())); int d[4]={(int)c.r.range(1,20),1,1,1}; FArr a=mkf(c,it->first,it->second,1,d,M_BASIC); fillall(c,a); csync(c); check(c,a,{0,it->second},"array of a registered type"); csync(c); GA_Destroy(a.g); } if(full) sim_count("full type tables",1); if(NGA_Deregister_type(C_DBL)>=0) sim_fail("wrong-result","a built-in type could be removed"); for(auto&x:m) dereg(x.first); sim_count("type histories",1); }
static const Cases cases={{"fields",c_field,12},{"types",c_types,1}};
COLL_WORKLOAD(fld,cases,30,1,6,150)
