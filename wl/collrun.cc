#include "coll.h"
// op: kind = case index, a = [seed, size, grouping (0 world, k>0: k-th way of splitting)]
void coll_gen(Program&p,Rng&r,const Cases&cs,int grp,int lo,int hi,int maxsize){ gen_base(p,r,lo,hi); p.set("ma.stack",60000); p.set("ma.heap",60000); if(r.chance(0.3)) p.set("ga.limit",r.pick({8000000,64000000})); int n=(int)r.range(1,r.chance(0.2)?10:4); int tot=0; for(auto&c:cs) tot+=c.weight;
  bool groups=!p.get("x.nogrp")&&p.get("np")>1&&r.below(100)<grp;
  for(int i=0;i<n;i++){ Op o; long x=r.below(tot); while((x-=cs[o.kind].weight)>=0) o.kind++; if(p.get("x.case",-1)>=0) o.kind=(int)p.get("x.case"); o.a={(long)(r.next()>>30),r.chance(0.1)?r.range(1,6):r.chance(0.3)?r.range(1,30):r.range(8,maxsize),groups?r.range(0,3):0}; p.ops.push_back(o); } }
void coll_setup(Program&){}
void coll_check(Program&){}
void coll_run(Program&p,const Cases&cs){ boot(p); int me=GA_Nodeid(),np=GA_Nnodes();
  for(auto&o:p.ops){ if(o.kind<0||o.kind>=(int)cs.size()) continue; int way=(int)(o.a.size()>2?o.a[2]:0); uint64_t seed=(uint64_t)o.a[0]; std::vector<int> color(np,0); Rng q(seed); if(way&&np>1){ int k=(int)q.range(1,3); for(auto&x:color) x=(int)q.below(k); }
    std::vector<int> mem; for(int i=0;i<np;i++) if(color[i]==color[me]) mem.push_back(i); int grp=-1; 
    if(way){ if(way==1) grp=GA_Pgroup_split_irreg(GA_Pgroup_get_world(),color[me]); else { if(way==3) for(int i=(int)mem.size()-1;i>0;i--) std::swap(mem[i],mem[(color[me]*7+i*3)%(i+1)]); grp=GA_Pgroup_create(mem.data(),(int)mem.size()); }
      GA_Pgroup_set_default(grp); }
    Case c(seed*31+color[me]*977); int kind=o.kind; if(way) kind=(int)((o.kind+color[me]*5)%cs.size()); c.size=o.a[1]; c.grp=grp; c.group=way!=0; c.np=GA_Nnodes(); c.me=GA_Nodeid(); c.mem=mem; c.name=cs[kind].name; c.p=&p; if(way) c.dm=(int)p.get("x.grpdists",M_ALL);
    if(c.np!=(int)mem.size()) sim_fail("wrong-size","a group of %zu processes reports %d members",mem.size(),c.np);
    sim_trace("case %s seed %ld size %ld",c.name,o.a[0],c.size); sim_count(c.name,1);
    bool lim=GA_Memory_limited(); long a0=lim?(long)GA_Memory_avail():0,i0=(long)GA_Inquire_memory();
    cs[kind].fn(c);
    long a1=lim?(long)GA_Memory_avail():0,i1=(long)GA_Inquire_memory();
    if(!c.leaves&&(a1!=a0||i1!=i0)) sim_fail("wrong-accounting","%s: with all its arrays destroyed process %d has %ld bytes available and %ld in use, before %ld and %ld",c.name,c.me,a1,i1,a0,i0);
    if(way){ GA_Pgroup_set_default(GA_Pgroup_get_world()); GA_Pgroup_destroy(grp); } }
  GA_Sync(); shutdown(); }
