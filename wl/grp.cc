// Processor groups (C08): a recursive exploration of groups made by list, by splitting, duplication and nesting, with the
// group as default or addressed by handle. Members use their group's arrays, syncs and collectives while the other
// processes work in groups of their own, run ahead, or stay away altogether until the members have finished.
#include "common.h"
struct GSlot { uint64_t id; int n; };
struct GSt { GSlot s[8192]; long want[64]; };
static GSt* gs(){ return (GSt*)sim_get_state(); }
static int* slot(uint64_t id){ GSt*g=gs(); if(!id) id=1; for(uint64_t i=id%8192;;i=(i+1)%8192){ if(g->s[i].id==id) return &g->s[i].n; if(!g->s[i].id){ g->s[i].id=id; return &g->s[i].n; } } }
struct W { int*p; int n; }; static bool reached(void*v){ W*w=(W*)v; return *w->p>=w->n; }
struct X { Rng r; int h; std::vector<int> mem; int me,depth,budget; bool iso; Program*p; int world,wg; X():r(1){} int n()const{ return (int)mem.size(); } };
static int val(uint64_t s,long i){ Rng q(s*77+i*13); return (int)(q.next()>>40)%2000-1000; }
static void verify(X&x,const char*how){ int n=x.n();
  if(GA_Pgroup_nnodes(x.h)!=n) sim_fail("wrong-group","%s: group of %d members has size %d",how,n,GA_Pgroup_nnodes(x.h));
  if(GA_Pgroup_nodeid(x.h)!=x.me) sim_fail("wrong-group","%s: member %d has rank %d",how,x.me,GA_Pgroup_nodeid(x.h));
  for(int i=0;i<n;i++) if(GA_Pgroup_absolute_id(x.h,i)!=x.mem[i]) sim_fail("wrong-group","%s: rank %d of the group is process %d, expected %d",how,i,GA_Pgroup_absolute_id(x.h,i),x.mem[i]);
  sim_count("groups verified",1); }
static void as_default(X&x,const char*how){ if(GA_Pgroup_get_default()!=x.h) sim_fail("wrong-group","%s: the default group is %d, expected %d",how,GA_Pgroup_get_default(),x.h); if(GA_Nnodes()!=x.n()||GA_Nodeid()!=x.me) sim_fail("wrong-group","%s: default group: process %d of %d, expected %d of %d",how,GA_Nodeid(),GA_Nnodes(),x.me,x.n()); }
// x.h need not be the default group here
static void sync_check(X&x,bool dflt){ uint64_t id=x.r.next(); int k=(int)x.r.range(1,3); for(int i=0;i<k;i++){ Rng q(id+x.me*7+i); if(q.chance(0.3)) sim_stall(q.pick({1000,300000})); ++*slot(id+i); if(dflt&&x.r.chance(0.5)) GA_Sync(); else GA_Pgroup_sync(x.h); if(*slot(id+i)!=x.n()) sim_fail("sync-early","a sync of a group of %d returned on member %d when %d members had entered",x.n(),x.me,*slot(id+i)); } sim_count("group syncs",k); }
static void array_check(X&x,bool dflt){ uint64_t s=x.r.next(); int n=x.n(); int nd=(int)x.r.range(1,3),d[4]; for(int i=0;i<4;i++) d[i]=i<nd?(int)x.r.range(1,nd==1?60:nd==2?12:6):1; int dist; long dm=x.p->get("x.dists",511); do dist=x.r.chance(0.4)?0:(int)x.r.below(D_N); while(!((dm>>dist)&1)); ArrSpec a=make_spec((long)(x.r.next()>>40),T_LONG,nd,d,dist,n); int g;
  if(dist==D_REG&&x.r.chance(0.5)) g=dflt&&x.r.chance(0.5)?NGA_Create(C_LONG,nd,d,(char*)"g",NULL):NGA_Create_config(C_LONG,nd,d,(char*)"g",NULL,x.h); else g=create_arr(a,"g",dflt&&x.r.chance(0.5)?-1:x.h);
  if(!g) sim_fail("create-failed","creating a %s array on a group of %d failed",dname(dist),n); if(GA_Get_pgroup(g)!=x.h) sim_fail("wrong-group","an array of group %d reports group %d",x.h,GA_Get_pgroup(g));
  sim_trace("array %s created",dname(dist)); long sz=a.size(); int lo[4],hi[4],ld[4]; std::vector<long> b(sz),o(sz,0); long cov=0;
  auto full=[&](){ for(int i=0;i<nd;i++){ lo[i]=0; hi[i]=d[i]-1; if(i) ld[i-1]=d[i]; } };
  GA_Zero(g); GA_Pgroup_sync(x.h);
  full(); for(long i=0;i<sz;i++) b[i]=val(s,i)*(x.me+1); long one=1; NGA_Acc(g,lo,hi,b.data(),ld,&one); GA_Pgroup_sync(x.h);
  full(); NGA_Get(g,lo,hi,o.data(),ld); for(long i=0;i<sz;i++) if(o[i]!=(long)val(s,i)*n*(n+1)/2) sim_fail("wrong-value","element %ld of a %s array of a group of %d is %ld on member %d, expected %ld",i,dname(dist),n,o[i],x.me,(long)val(s,i)*n*(n+1)/2);
  // every member finds what the group's member at that group rank owns
  (void)cov; int owner=x.n()>1?(x.me+1)%x.n():0; NGA_Distribution(g,owner,lo,hi); if(dist==D_REG&&lo[0]>=0&&hi[0]>=lo[0]){ int w=NGA_Locate(g,lo); if(w!=owner&&w!=x.mem[owner]) sim_fail("wrong-owner","the first element of the block of group rank %d is located at %d",owner,w); }
  GA_Pgroup_sync(x.h); long c=val(s,99); GA_Fill(g,&c); full(); NGA_Get(g,lo,hi,o.data(),ld); for(long i=0;i<sz;i++) if(o[i]!=c) sim_fail("wrong-value","element %ld of a filled %s array of a group of %d is %ld, expected %ld",i,dname(dist),n,o[i],c);
  if(x.r.chance(0.8)) GA_Pgroup_sync(x.h); sim_trace("destroying"); GA_Destroy(g); sim_count("group arrays",1); }
static void gop_check(X&x,bool dflt){ uint64_t s=x.r.next(); int len=(int)x.r.range(1,40); std::vector<long> v(len); for(int i=0;i<len;i++) v[i]=val(s+x.mem[x.me],i); bool d=dflt&&x.r.chance(0.5); if(d) GA_Lgop(v.data(),len,(char*)"+"); else GA_Pgroup_lgop(x.h,v.data(),len,(char*)"+"); for(int i=0;i<len;i++){ long w=0; for(int m:x.mem) w+=val(s+m,i); if(v[i]!=w) sim_fail("wrong-result","sum over a group of %d: element %d is %ld on member %d, expected %ld",x.n(),i,v[i],x.me,w); }
  int root=(int)x.r.below(x.n()); long z=x.me==root?(long)s:7; if(d) GA_Brdcst(&z,sizeof z,root); else GA_Pgroup_brdcst(x.h,&z,sizeof z,root); if(z!=(long)s) sim_fail("wrong-result","broadcast from rank %d of a group of %d left another value on member %d",root,x.n(),x.me); sim_count("group collectives",1); }
// one-sided access to the array of all processes while in the group
static void world_check(X&x){ if(x.iso) return; int k=(int)x.r.below(4); Rng q(x.r.next()+x.me*5); for(int i=0;i<k;i++){ int e=(int)q.below(64),ld=1; long v=q.range(1,99),one=1; NGA_Acc(x.wg,&e,&e,&v,&ld,&one); gs()->want[e]+=v; sim_count("updates from inside a group",1); } }
static void explore(X&x,const char*how);
static void ops(X&x,int k,bool dflt,const char*how){ for(int i=0;i<k;i++){ Rng q(x.r.s+x.me*13); if(q.chance(0.2)) sim_stall(q.pick({500,50000,2000000})); int w=(int)x.r.below(5); static const char*wn[]={"verify","array","gop","sync","world updates"}; sim_trace("%s on group %d (depth %d, %d members%s)",wn[w],x.h,x.depth,x.n(),dflt?"":", not the default"); if(w==0) verify(x,how); else if(w==1) array_check(x,dflt); else if(w==2) gop_check(x,dflt); else if(w==3) sync_check(x,dflt); else world_check(x); } }
static X child(X&x,const std::vector<int>&idx,uint64_t seed){ X c; c.p=x.p; c.wg=x.wg; c.world=x.world; c.depth=x.depth+1; c.iso=x.iso; c.budget=std::max(1,x.budget/2); c.r=Rng(seed); c.me=-1; for(size_t i=0;i<idx.size();i++){ if(idx[i]==x.me) c.me=(int)i; c.mem.push_back(x.mem[idx[i]]); } return c; }
static void enter(X&x,X&c,const char*how){ bool dfl=c.r.chance(0.65); verify(c,how); if(dfl){ GA_Pgroup_set_default(c.h); as_default(c,how); explore(c,how); GA_Pgroup_set_default(x.h); as_default(x,"leaving a group"); } else { as_default(x,how); ops(c,c.budget,false,how); } }
static void explore(X&x,const char*how){ int k=x.budget; int n=x.n();
  for(int i=0;i<k;i++){ int w=(int)x.r.below(10); if(x.depth>=4||w<4){ ops(x,1,true,how); continue; } uint64_t s=x.r.next(); sim_trace("group operation %d in group %d of %d",w,x.h,n);
    if(w==4||w==5){ // a subset by list; the others go on, or stay out until the members are done
      std::vector<int> idx; for(int j=0;j<n;j++) if(x.r.chance(0.6)) idx.push_back(j); if(idx.empty()) idx.push_back((int)x.r.below(n)); std::vector<int> list=idx; for(int j=(int)list.size()-1;j>0;j--) std::swap(list[j],list[x.r.below(j+1)]); bool hold=x.r.chance(0.4)&&x.p->get("port")!=P_TS,all=x.r.chance(0.2); X c=child(x,idx,s); int h=-9; if(c.me>=0||all) h=GA_Pgroup_create(list.data(),(int)list.size()); c.h=h; c.iso=x.iso||hold;
      if(c.me>=0){ enter(x,c,"group made from a list"); ++*slot(s); } else { if(hold){ sim_count("processes held outside",1); W wt{slot(s),(int)idx.size()}; sim_block_until(reached,&wt,"staying out of a group"); }
        if(all){ if(GA_Pgroup_nnodes(h)!=c.n()) sim_fail("wrong-group","a group of %d reports %d members to a process outside",c.n(),GA_Pgroup_nnodes(h)); for(int j=0;j<c.n();j++) if(GA_Pgroup_absolute_id(h,j)!=c.mem[j]) sim_fail("wrong-group","rank %d of a group is process %d for a process outside, expected %d",j,GA_Pgroup_absolute_id(h,j),c.mem[j]); if(GA_Pgroup_nodeid(h)!=-1) sim_fail("wrong-group","a process outside a group has rank %d in it",GA_Pgroup_nodeid(h)); } }
      if(h!=-9&&!GA_Pgroup_destroy(h)) sim_fail("wrong-group","destroying a group failed"); }
    else if(w==6){ int parts=(int)x.r.range(1,n+1); int sz=n/parts; if(sz*parts<n) sz++; std::vector<int> idx; for(int j=x.me/sz*sz;j<n&&j<x.me/sz*sz+sz;j++) idx.push_back(j); X c=child(x,idx,s+x.me/sz*131); c.h=GA_Pgroup_split(x.h,parts); enter(x,c,"group made by splitting"); if(!GA_Pgroup_destroy(c.h)) sim_fail("wrong-group","destroying a group failed"); }
    else if(w==7||w==8){ std::vector<int> col(n); int nc=(int)x.r.range(1,3); for(auto&v:col) v=(int)x.r.below(nc)*(int)x.r.range(1,1)*7; std::vector<int> idx; for(int j=0;j<n;j++) if(col[j]==col[x.me]) idx.push_back(j); X c=child(x,idx,s+col[x.me]*131); c.h=GA_Pgroup_split_irreg(x.h,col[x.me]); enter(x,c,"group made by splitting with colours"); if(!GA_Pgroup_destroy(c.h)) sim_fail("wrong-group","destroying a group failed"); }
    else { std::vector<int> idx; for(int j=0;j<n;j++) idx.push_back(j); bool self=x.r.chance(0.3); if(self) idx.assign(1,x.me); X c=child(x,idx,self?s+x.me*131:s); c.h=self?GA_Pgroup_self():GA_Pgroup_duplicate(x.h); enter(x,c,self?"group of one":"duplicated group"); if(!GA_Pgroup_destroy(c.h)) sim_fail("wrong-group","destroying a group failed"); } } }
// op: [seed, budget]
static void gen(Program&p,Rng&r){ gen_base(p,r,2,8); p.set("ma.stack",60000); p.set("ma.heap",60000); int n=(int)r.range(1,r.chance(0.2)?6:3); for(int i=0;i<n;i++){ Op o; o.a={(long)(r.next()>>30),r.range(1,8)}; p.ops.push_back(o); } }
static void setup(Program&){ GSt*g=new GSt; memset(g,0,sizeof *g); sim_set_state(g); }
static void check(Program&){}
static void run(Program&p){ boot(p); int np=GA_Nnodes(),d=64,ld=1; int wg=NGA_Create(C_LONG,1,&d,(char*)"world",NULL); GA_Zero(wg);
  for(auto&o:p.ops){ X x; x.p=&p; x.r=Rng((uint64_t)o.a[0]); x.budget=(int)o.a[1]; x.h=GA_Pgroup_get_world(); x.me=GA_Nodeid(); for(int i=0;i<np;i++) x.mem.push_back(i); x.depth=0; x.iso=false; x.wg=wg; explore(x,"world"); }
  GA_Sync(); int lo=0,hi=63; long v[64]; NGA_Get(wg,&lo,&hi,v,&ld); for(int i=0;i<64;i++) if(v[i]!=gs()->want[i]) sim_fail("wrong-value","element %d of the array of all processes is %ld after updates from inside groups, expected %ld",i,v[i],gs()->want[i]); GA_Sync(); GA_Destroy(wg); shutdown(); }
WORKLOAD(grp,gen,setup,run,check)
