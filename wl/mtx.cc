// Mutexes: GA_Create_mutexes/Lock/Unlock/Destroy_mutexes and the ARMCI-level calls. Mutual exclusion is checked by
// an owner table kept in the simulator, visibility by unlocked-looking read/modify/write of shared counters inside
// the critical sections, progress by the simulator's deadlock and step limits.
#include "common.h"
enum { M_CREATE,M_CS,M_WORK,M_DESTROY };
struct MSt { std::vector<int> owner; std::vector<long> count; int gen=0; };
static MSt* ms(){ return (MSt*)sim_get_state(); }
// CREATE [level(0 GA,1 ARMCI), n, seed]; CS [m1, m2 (or -1), body, ns]; WORK [ns]
static void gen(Program&p,Rng&r){ gen_base(p,r,1,r.chance(0.15)?10:6); int np=(int)p.get("np"); int phases=(int)r.range(1,4);
  for(int f=0;f<phases;f++){ Op c; c.kind=M_CREATE; int n=(int)(r.chance(0.3)?1:r.chance(0.2)?r.range(1,32):r.range(1,6)); c.a={r.below(2),n,(long)(r.next()>>40),r.chance(0.5)?r.below(256):0}; p.ops.push_back(c); if(r.chance(0.1)) continue;
    int k=(int)r.range(1,r.chance(0.3)?40:15); int hot=(int)r.below(n); double hp=r.pick({0,5,9})/10.0;
    if(r.chance(0.2)){ // everybody queues behind one long critical section
      for(int i=0;i<np;i++){ Op o; o.rank=i; o.kind=M_CS; o.a={hot,-1,r.below(3),r.pick({200000,3000000})}; p.ops.push_back(o); } }
    for(int i=0;i<k;i++){ Op o; o.rank=(int)r.below(np); if(r.chance(0.15)){ o.kind=M_WORK; o.a={r.pick({1000,100000,5000000})}; p.ops.push_back(o); continue; }
      o.kind=M_CS; int m1=r.chance(hp)?hot:(int)r.below(n),m2=-1; if(n>1&&r.chance(0.3)){ m2=(int)r.below(n); if(m2==m1) m2=-1; else if(m2<m1) std::swap(m1,m2); } o.a={m1,m2,r.below(3),r.chance(0.3)?r.pick({1000,200000}):0}; p.ops.push_back(o); } } }
static void setup(Program&){ sim_set_state(new MSt); }
static void check(Program&){}
static void run(Program&p){ boot(p); int me=GA_Nodeid(),np=GA_Nnodes(); MSt*s=ms(); int dims=64,ld=1; int g=NGA_Create(C_LONG,1,&dims,(char*)"cnt",NULL); GA_Zero(g); int level=0,n=0; bool have=false; std::vector<int> cnt(np,0); std::vector<std::pair<int,int>> map; std::vector<long> want(64,0); std::vector<long> zero(64,0);
  auto lock=[&](int m){ if(level) ARMCI_Lock(map[m].second,map[m].first); else GA_Lock(m); if(s->owner[m]!=-1) sim_fail("mutual-exclusion","process %d acquired %s mutex %d while process %d holds it",me,level?"ARMCI":"GA",m,s->owner[m]); s->owner[m]=me; sim_count("acquisitions",1); };
  auto unlock=[&](int m){ if(s->owner[m]!=me) sim_fail("mutual-exclusion","mutex %d was taken from process %d by process %d",m,me,s->owner[m]); s->owner[m]=-1; if(level) ARMCI_Unlock(map[m].second,map[m].first); else GA_Unlock(m); };
  auto endphase=[&](){ if(!have) return; 
    GA_Sync(); std::vector<long> v(64); int lo=0,hi=63; NGA_Get(g,&lo,&hi,v.data(),&ld); for(int i=0;i<64;i++) if(v[i]!=want[i]) sim_fail("lost-update","counter %d protected by %s mutex %d is %ld after %ld increments",i,level?"ARMCI":"GA",i%std::max(1,n),v[i],want[i]); GA_Sync();
    int ok=level?!ARMCI_Destroy_mutexes():GA_Destroy_mutexes(); if(!ok) sim_fail("mutex","destroying the mutexes failed"); have=false; };
  for(auto&o:p.ops){ 
    if(o.kind==M_CREATE){ endphase(); level=(int)o.a[0]; n=(int)o.a[1]; Rng q(o.a[2]); map.clear(); 
      if(level){ std::fill(cnt.begin(),cnt.end(),0); for(int i=0;i<n;i++) cnt[q.below(np)]++; for(int i=0;i<np;i++) for(int k=0;k<cnt[i];k++) map.push_back({i,k}); for(int i=n-1;i>0;i--) std::swap(map[i],map[q.below(i+1)]); }
      GA_Zero(g); std::fill(want.begin(),want.end(),0); if(me==0){ s->owner.assign(n,-1); s->gen++; } GA_Sync();
      if(o.a[3]&(1<<(me%8))){ long x; int at=(int)(o.a[2]%64); NGA_Get(g,&at,&at,&x,&ld); sim_yield(); NGA_Get(g,&at,&at,&x,&ld); }
      int ok=level?!ARMCI_Create_mutexes(cnt[me]):GA_Create_mutexes(n); if(!ok) sim_fail("mutex","creating %d mutexes failed",n); have=true; sim_count("mutex sets",1); continue; }
    if(!have) continue;
    if(o.kind==M_CS){ int m1=(int)o.a[0]%n,m2=o.a[1]<0?-1:(int)o.a[1]%n; if(m2>=0&&m2<=m1) m2=-1; int c=m1; want[c]++; if(m2>=0) want[m2]++; if(o.rank!=me) continue; 
      // a process that uses a mutex alone in a set of one process needs no message, the library may treat it as a no-op
      lock(m1); if(m2>=0) lock(m2);
      for(int m:{m1,m2}) if(m>=0){ long x=-1; NGA_Get(g,&m,&m,&x,&ld); if(o.a[3]) sim_stall(o.a[3]); else sim_yield(); x++; 
        if(o.a[2]==2){ NGA_Put(g,&m,&m,&x,&ld); } else { GA_Init_fence(); NGA_Put(g,&m,&m,&x,&ld); } 
        if(o.a[2]==2) ARMCI_AllFence(); else GA_Fence(); }
      if(m2>=0&&o.a[2]==1){ unlock(m1); unlock(m2); } else { if(m2>=0) unlock(m2); unlock(m1); } }
    else if(o.kind==M_WORK&&o.rank==me) sim_stall(o.a[0]); }
  endphase(); GA_Destroy(g); shutdown(); }
WORKLOAD(mtx,gen,setup,run,check)
