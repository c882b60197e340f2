// C25: access properties (read-only replication per node, read cache) never change what an array contains
#include "coll.h"
#include <algorithm>
// one read of a random patch by one of the ways of fetching data
static void read1(Case&c,Rng&q,GArr&a,const char*what){ int nd=a.s.nd,es=tsize(a.s.type); int lo[4],hi[4],ld[4],pad[4]; for(int i=0;i<nd;i++){ int x=(int)q.below(a.s.dims[i]),y=(int)q.below(a.s.dims[i]); lo[i]=std::min(x,y); hi[i]=std::max(x,y); if(q.chance(0.2)){ lo[i]=0; hi[i]=a.s.dims[i]-1; } pad[i]=q.chance(0.6)?0:(int)q.below(3); }
  int way=(int)q.below(6); const char*ws[]={"get","get","get","nonblocking get","gather","strided get"}; Val V;
  if(way==4){ int n=(int)q.range(1,12); std::vector<std::array<int,4>> sub(n); std::vector<int*> ps(n); for(int k=0;k<n;k++){ for(int i=0;i<nd;i++) sub[k][i]=(int)q.below(a.s.dims[i]); ps[k]=sub[k].data(); } char*b=(char*)sim_buf(n*es); NGA_Gather(a.g,b,ps.data(),n); for(int k=0;k<n;k++){ V=dec(a.s.type,b+k*es); Val w=a.v[a.s.lin(ps[k])]; if(V!=w) sim_fail("wrong-value","%s: %s: gather of element %ld of the %s %s array returned (%ld,%ld) to process %d, expected (%ld,%ld)",c.name,what,a.s.lin(ps[k]),tname(a.s.type),dname(a.s.dist),V.re,V.im,c.me,w.re,w.im); } sim_buf_free(b); sim_count("gathers",1); return; }
  int sk[4]; for(int i=0;i<nd;i++) sk[i]=way==5?(int)q.range(1,3):1; int ext[4]; for(int i=0;i<nd;i++) ext[i]=(hi[i]-lo[i])/sk[i]+1; int z[4]={0,0,0,0},e1[4]; for(int i=0;i<nd;i++) e1[i]=ext[i]-1; Patch pt=mk_patch(nd,z,e1,pad); for(int i=0;i<nd-1;i++) ld[i]=pt.ld[i];
  char*b=(char*)sim_buf(pt.span*es); memset(b,0x9C,pt.span*es); std::vector<char> used(pt.span,0);
  if(way==3){ ga_nbhdl_t h; NGA_NbGet(a.g,lo,hi,b,ld,&h); if(q.chance(0.5)) sim_stall(q.pick({100,20000})); NGA_NbWait(&h); } else if(way==5) NGA_Strided_get(a.g,lo,hi,sk,b,ld); else NGA_Get(a.g,lo,hi,b,ld);
  for(long k=0;k<pt.n;k++){ int rel[4],id[4]; pat_rel(pt,k,rel); for(int i=0;i<nd;i++) id[i]=lo[i]+rel[i]*sk[i]; long o=pat_off(pt,rel); used[o]=1; V=dec(a.s.type,b+o*es); Val w=a.v[a.s.lin(id)]; if(V!=w) sim_fail("wrong-value","%s: %s: %s of element %ld of the %s %s %d-d array returned (%ld,%ld) to process %d, expected (%ld,%ld)",c.name,what,ws[way],a.s.lin(id),tname(a.s.type),dname(a.s.dist),nd,V.re,V.im,c.me,w.re,w.im); }
  for(long o=0;o<pt.span;o++) if(!used[o]) for(int i=0;i<es;i++) if((unsigned char)b[o*es+i]!=0x9C) sim_fail("overrun","%s: %s: %s changed the gap between the rows of the caller's buffer",c.name,what,ws[way]);
  sim_buf_free(b); sim_count("reads",1); sim_count("elements compared",pt.n); }
static void reads(Case&c,GArr&a,const char*what,int n){ Rng q(c.r.s*3+c.me*1009+n); for(int k=0;k<n;k++){ if(q.chance(0.1)) sim_stall(q.pick({500,20000,1000000})); read1(c,q,a,what); } }
// write random patches by random members, then synchronise
static void write(Case&c,GArr&a){ int nd=a.s.nd,es=tsize(a.s.type); int n=(int)c.r.range(1,3); for(int k=0;k<n;k++){ Reg p=rpatch(c,a.s); long sz=rsize(p,nd); int who=(int)c.r.below(c.np); std::vector<Val> x(sz); for(auto&v:x) v=rnd(c,a.s.type,50); for(long i=0;i<sz;i++) a.v[rlin(a.s,p,i)]=x[i]; if(c.me==who){ int ld[4]; for(int i=1;i<nd;i++) ld[i-1]=p.hi[i]-p.lo[i]+1; char*b=(char*)sim_buf(sz*es); for(long i=0;i<sz;i++) enc(a.s.type,b+i*es,x[i]); NGA_Put(a.g,p.lo,p.hi,b,ld); sim_buf_free(b); } csync(c); } sim_count("writes",n); }
static void local(Case&c,GArr&a,const char*what){ if(!((1<<a.s.dist)&(M_BASIC|M_GHOST))) return; int lo[4],hi[4],ld[4]; NGA_Distribution(a.g,c.me,lo,hi); for(int i=0;i<a.s.nd;i++) if(lo[i]<0||hi[i]<lo[i]) return; void*p=nullptr; NGA_Access(a.g,lo,hi,&p,ld); Patch pt=mk_patch(a.s.nd,lo,hi,nullptr); for(int i=1;i<a.s.nd;i++) pt.ld[i-1]=ld[i-1]; for(long k=0;k<pt.n;k++){ int rel[4],id[4]; pat_rel(pt,k,rel); for(int i=0;i<a.s.nd;i++) id[i]=lo[i]+rel[i]; Val v=dec(a.s.type,(char*)p+pat_off(pt,rel)*tsize(a.s.type)),w=a.v[a.s.lin(id)]; if(v!=w) sim_fail("wrong-value","%s: %s: local element %ld of process %d holds (%ld,%ld), expected (%ld,%ld)",c.name,what,a.s.lin(id),c.me,v.re,v.im,w.re,w.im); } NGA_Release(a.g,lo,hi); sim_count("local blocks",1); }
static void hist(Case&c,int kind){ int nd=(int)c.r.range(1,4),d[4]; dims_for(c,nd,d); int t=(int)c.r.below(T_N); bool ro=kind==0; GArr a=mk(c,t,nd,d,ro?M_BASIC:M_ALL); randfill(c,a,50); csync(c); GArr b=mk(c,t,nd,d,M_BASIC); randfill(c,b,50); csync(c); char pr[16]; int cyc=(int)c.r.range(1,3); int dg=GA_Pgroup_get_default();
  long used=0; size_t base=GA_Inquire_memory();
  for(int k=0;k<cyc;k++){ strcpy(pr,ro?"read_only":"read_cache"); if(!ro) csync(c); jitter(c); if(c.r.chance(0.5)) GA_Set_property(a.g,pr); else NGA_Set_property(a.g,pr); sim_count(pr,1);
    if(GA_Pgroup_get_default()!=dg) sim_fail("wrong-group","%s: setting the property changed the default group",c.name);
    reads(c,a,"while the property is set",(int)c.r.range(0,ro?6:20)); if(ro&&c.r.chance(0.4)) local(c,a,"while the property is set");
    if(c.r.chance(0.3)){ csync(c); write(c,b); reads(c,a,"while another array is written",3); reads(c,b,"other array",2); }
    if(c.r.chance(0.25)){ csync(c); GArr e=a; e.g=GA_Duplicate(a.g,(char*)"dup"); if(!e.g) sim_fail("duplicate-failed","%s: duplicating the array failed",c.name); e.alive=true; randfill(c,e,50); csync(c); expect(c,e,"duplicate of an array with a property"); csync(c); write(c,e); reads(c,e,"duplicate",3); reads(c,a,"after its duplicate was written",3); csync(c); if(!ro||c.r.chance(0.6)) drop(c,e); else { jitter(c); GA_Destroy(e.g); } sim_count("duplicates",1); }
    if(k+1==cyc&&c.r.chance(0.4)){ csync(c); sim_count("destroyed with the property",1); if(c.r.chance(0.3)&&!c.group){ used=1; c.leaves=true; break; } drop(c,a); break; }
    jitter(c); if(c.r.chance(0.5)) GA_Unset_property(a.g); else NGA_Unset_property(a.g); if(GA_Pgroup_get_default()!=dg) sim_fail("wrong-group","%s: removing the property changed the default group",c.name); csync(c);
    size_t now=GA_Inquire_memory(); if(now!=base) sim_fail("wrong-accounting","%s: process %d uses %zu bytes after the property was removed, %zu before",c.name,c.me,now,base);
    expect(c,a,"after the property was removed"); local(c,a,"after the property was removed"); csync(c); write(c,a); reads(c,a,"after new data was written",3); csync(c); local(c,a,"after new data was written"); csync(c); }
  expect(c,b,"other array"); csync(c); drop(c,b); if(!used) drop(c,a); }
static void c_ro(Case&c){ hist(c,0); }
static void c_rc(Case&c){ hist(c,1); }
static void c_none(Case&c){ int d[4]; dims_for(c,2,d); GArr a=mk(c,(int)c.r.below(T_N),2,d); randfill(c,a,9); csync(c); GA_Unset_property(a.g); expect(c,a,"after removing a property that was not set"); csync(c); write(c,a); expect(c,a,"afterwards"); csync(c); drop(c,a); }
// read-only applies to arrays of the world group: those cases run ungrouped
static const Cases cases={{"read only",c_ro,6},{"read cache",c_rc,4},{"no property",c_none,1}};
static const Cases gcases={{"read cache",c_rc,4},{"no property",c_none,1}};
static void prop_gen(Program&p,Rng&r){ bool g=r.chance(0.2); p.set("prop.grp",g); coll_gen(p,r,g?gcases:cases,g?100:0,2,8,150); if(p.get("port")!=P_PR&&!p.get("nodemap",0)&&r.chance(0.5)){ int np=(int)p.get("np"); p.set("nodes",r.range(1,std::min(3,np))); p.set("cyclic",0); } }
static void prop_run(Program&p){ coll_run(p,p.get("prop.grp",0)?gcases:cases); }
WORKLOAD(prop,prop_gen,coll_setup,prop_run,coll_check)
