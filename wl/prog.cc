// C23: communication addressed to a process completes while that process computes (runtimes with asynchronous
// progress) or waits in another library call (all runtimes). The simulator reports deadlocks, livelocks and exits.
#include "common.h"
enum { W_COMPUTE,W_LOCK,W_SYNC,W_REDUCE,W_BCAST,W_GRPSYNC,W_MSG,W_MSGANY,W_SPINGET,W_SPINNB,W_SPININC,W_SPINFENCE,W_SPINGATHER,W_SPINLOCK,W_N, OP_BASE=100 };
static const char*wn[]={"victim computes","victim in lock","victim in sync","victim in reduction","victim in broadcast","victim in group sync","victim in receive","victim in receive-any","victim polls by get","victim polls by nonblocking get","victim polls by read-increment","victim polls by fence","victim polls by gather","victim polls by lock"};
enum { O_PUT,O_GET,O_ACC,O_NBPUT,O_NBGET,O_NBACC,O_INC,O_GATHER,O_SCATTER,O_LOCK,O_FENCE,O_STALL,O_FIRST,O_N };
static const char*on[]={"put","get","accumulate","nonblocking put","nonblocking get","nonblocking accumulate","read-increment","gather","scatter-accumulate","lock","fence","stall","first"};
struct PSt { std::vector<int> left; std::vector<std::vector<long>> tick; };
static PSt* ps(){ return (PSt*)sim_get_state(); }
static bool async(const Program&p){ int k=(int)p.get("port"); return k!=P_TS; }
// PH kind<W_N, rank -1: [victim, home, seed]; operations of the workers: kind OP_BASE+k [target or -1, seed]
static void gen(Program&p,Rng&r){ gen_base(p,r,2,6); int np=(int)p.get("np"); p.set("rows",r.range(1,3)); p.set("cols",r.pick({1,3,8,40})); p.set("ty",r.pick({T_LONG,T_DBL,T_INT,T_DC}));
  int ph=(int)r.range(1,5); for(int f=0;f<ph;f++){ Op o; o.kind=async(p)&&r.chance(0.3)?(int)W_COMPUTE:(int)r.range(W_LOCK,W_N-1); int v=(int)r.below(np),h=(int)r.below(np-1); if(h>=v) h++; o.a={v,h,(long)(r.next()>>40)}; p.ops.push_back(o);
    int n=(int)r.range(np-1,4*np); for(int k=0;k<n;k++){ Op w; w.rank=(int)r.below(np); w.kind=OP_BASE+(int)r.below(O_FIRST); w.a={r.chance(0.75)?v:r.below(np),(long)(r.next()>>40)}; p.ops.push_back(w); } } }
static void setup(Program&p){ PSt*s=new PSt; s->tick.resize(16); for(auto&o:p.ops) if(o.kind<W_N) s->left.push_back((int)p.get("np")-1); sim_set_state(s); }
static void check(Program&){ PSt*s=ps(); for(size_t c=0;c<s->tick.size();c++){ auto v=s->tick[c]; std::sort(v.begin(),v.end()); for(size_t i=0;i<v.size();i++) if(v[i]!=(long)i) sim_fail("wrong-counter","counter %zu returned %ld, expected %zu",c,v[i],i); } }
static void run(Program&p){ boot(p); int me=GA_Nodeid(),np=GA_Nnodes(),R=(int)p.get("rows"),C=(int)p.get("cols"),ty=(int)p.get("ty"),es=tsize(ty),W=np*C; PSt*s=ps();
  int dims[2]={np*R,W},nb[2]={np,1}; std::vector<int> map; for(int i=0;i<np;i++) map.push_back(i*R); map.push_back(0); int A=NGA_Create_irreg(ctype(ty),2,dims,(char*)"A",nb,map.data()); 
  int nd=np,chunk=1; (void)chunk; std::vector<int> m1; for(int i=0;i<np;i++) m1.push_back(i); int N=NGA_Create_irreg(C_LONG,1,&nd,(char*)"N",&np,m1.data()),F=NGA_Create_irreg(C_LONG,1,&nd,(char*)"F",&np,m1.data()),P=NGA_Create_irreg(C_LONG,1,&nd,(char*)"P",&np,m1.data()); GA_Zero(P); GA_Zero(A); GA_Zero(N); GA_Zero(F); GA_Create_mutexes(2*np+1); GA_Sync();
  std::vector<Val> mine((size_t)dims[0]*C); int one=1; long fphase=0;
  struct Pend { int k; ga_nbhdl_t h; char*b; int lo[2],hi[2]; std::vector<Val> want; }; std::vector<Pend*> pend; std::vector<char> busy((size_t)dims[0],0);
  auto fin=[&](Pend*q){ if(q->k==O_NBGET){ long n=0; int w=q->hi[1]-q->lo[1]+1; for(int i=q->lo[0];i<=q->hi[0];i++) for(int j=0;j<w;j++,n++){ Val g=dec(ty,q->b+n*es); if(g!=q->want[n]) sim_fail("wrong-data","nonblocking get of own cell [%d,%d] returned %ld, expected %ld",i,q->lo[1]+j,g.re,q->want[n].re); } } for(int i=q->lo[0];i<=q->hi[0];i++) busy[i]=0; sim_buf_free(q->b); delete q; };
  auto drain=[&]{ for(auto q:pend){ NGA_NbWait(&q->h); fin(q); } pend.clear(); };
  size_t i=0; int f=-1; while(i<p.ops.size()&&p.ops[i].kind>=W_N) i++;
  while(i<p.ops.size()){ Op ph=p.ops[i]; size_t j=i+1; while(j<p.ops.size()&&p.ops[j].kind>=W_N) j++; f++; int k=ph.kind,v=(int)ph.a[0],h=(int)ph.a[1]; Rng q(ph.a[2]); fphase++; long fv=0; int grp=-1; bool ingrp=false;
    if(k==W_GRPSYNC){ std::vector<int> l; for(int t=0;t<np;t++){ bool in=t==v||q.chance(0.6); if(in){ l.push_back(t); if(t==me) ingrp=true; } } if(ingrp) grp=GA_Pgroup_create(l.data(),(int)l.size()); }
    if(me==h&&k==W_LOCK) GA_Lock(v);
    GA_Sync(); if(me==0) sim_count(wn[k],1);
    if(me==v){ char buf[64]; long t; int len,ld=1;
      switch(k){
        case W_COMPUTE: { struct B { PSt*s; int f; } b={s,f}; sim_block_until([](void*a){ B*b=(B*)a; return b->s->left[b->f]==0; },&b,"computes"); break; }
        case W_LOCK: GA_Lock(v); GA_Unlock(v); break;
        case W_MSG: { std::vector<int> l; for(int t2=0;t2<np;t2++) if(t2!=v) l.push_back(t2); for(int t2=(int)l.size()-1;t2>0;t2--) std::swap(l[t2],l[q.below(t2+1)]); for(int t2:l){ t=-1; armci_msg_rcv(4000+f,&t,sizeof t,&len,t2); if(t!=t2) sim_fail("message","wrong message"); } break; }
        case W_MSGANY: for(int t2=1;t2<np;t2++){ t=-1; armci_msg_rcvany(4000+f,&t,sizeof t,&len); if(t<0||t>=np||t==v) sim_fail("message","wrong message"); } break;
        case W_SPINGET: while(NGA_Get(F,&h,&h,&fv,&ld),fv!=fphase){} break;
        case W_SPINNB: do { ga_nbhdl_t hd; NGA_NbGet(F,&h,&h,&fv,&ld,&hd); if(q.chance(0.5)) while(!NGA_NbTest(&hd)){} else NGA_NbWait(&hd); } while(fv!=fphase); break;
        case W_SPININC: while(NGA_Read_inc(F,&h,0)!=fphase){} break;
        case W_SPINFENCE: do { GA_Init_fence(); NGA_Put(P,&h,&h,&fv,&ld); GA_Fence(); NGA_Get(F,&h,&h,&fv,&ld); } while(fv!=fphase); break;
        case W_SPINGATHER: { int*sub[1]={&h}; while(NGA_Gather(F,&fv,sub,1),fv!=fphase){} break; }
        case W_SPINLOCK: while(1){ GA_Lock(2*np); GA_Unlock(2*np); NGA_Get(F,&h,&h,&fv,&ld); if(fv==fphase) break; } break;
      } (void)buf;
    } else {
      for(size_t t=i+1;t<j;t++){ Op&o=p.ops[t]; if(o.rank!=me) continue; Rng z(o.a[1]); int tg=(int)o.a[0]%np,ok=o.kind-OP_BASE; sim_count(on[ok],1); int lo[2],hi[2],ld;
        if(ok==O_STALL){ sim_stall(z.pick({1000,100000})); continue; }
        if(ok==O_INC){ s->tick[tg].push_back(NGA_Read_inc(N,&tg,1)); continue; }
        if(ok==O_LOCK){ int m=np+(int)z.below(np); if(z.chance(0.3)) m=2*np; GA_Lock(m); if(z.chance(0.5)) sim_stall(2000); GA_Unlock(m); continue; }
        if(ok==O_FENCE){ GA_Init_fence(); lo[0]=hi[0]=tg*R; lo[1]=hi[1]=me*C; ld=1; if(busy[lo[0]]) drain(); char*b=(char*)sim_buf(es); Val x={z.below(100),0}; enc(ty,b,x); NGA_Put(A,lo,hi,b,&ld); GA_Fence(); mine[(size_t)lo[0]*C]=x; sim_buf_free(b); continue; }
        int a=tg*R+(int)z.below(R),b2=z.chance(0.2)?(int)z.below(dims[0]):tg*R+(int)z.below(R); lo[0]=std::min(a,b2); hi[0]=std::max(a,b2); a=(int)z.below(C); b2=(int)z.below(C); lo[1]=me*C+std::min(a,b2); hi[1]=me*C+std::max(a,b2); ld=hi[1]-lo[1]+1; int nr=hi[0]-lo[0]+1; long n=(long)nr*ld;
        for(int y=lo[0];y<=hi[0];y++) if(busy[y]){ drain(); break; }
        auto cell=[&](long e)->Val&{ return mine[(size_t)(lo[0]+e/ld)*C+(lo[1]-me*C)+e%ld]; };
        char*b=(char*)sim_buf(n*es); std::vector<Val> w(n); bool acc=ok==O_ACC||ok==O_NBACC||ok==O_SCATTER; char al[16]; enc(ty,al,{2,0});
        if(ok!=O_GET&&ok!=O_NBGET&&ok!=O_GATHER) for(long e=0;e<n;e++){ w[e]={z.below(1000),0}; enc(ty,b+e*es,w[e]); if(acc) cell(e)=cell(e)+Val{2*w[e].re,0}; else cell(e)=w[e]; } else for(long e=0;e<n;e++) w[e]=cell(e);
        if(ok==O_PUT) NGA_Put(A,lo,hi,b,&ld); else if(ok==O_ACC) NGA_Acc(A,lo,hi,b,&ld,al);
        else if(ok==O_GET) NGA_Get(A,lo,hi,b,&ld);
        else if(ok==O_GATHER||ok==O_SCATTER){ std::vector<int> sub(2*n); std::vector<int*> sp(n); for(long e=0;e<n;e++){ sub[2*e]=lo[0]+(int)(e/ld); sub[2*e+1]=lo[1]+(int)(e%ld); sp[e]=&sub[2*e]; } if(ok==O_GATHER) NGA_Gather(A,b,sp.data(),(int)n); else NGA_Scatter_acc(A,b,sp.data(),(int)n,al); }
        else { Pend*y=new Pend; y->k=ok; y->b=b; for(int d=0;d<2;d++){ y->lo[d]=lo[d]; y->hi[d]=hi[d]; } y->want=w; if(ok==O_NBPUT) NGA_NbPut(A,lo,hi,b,&ld,&y->h); else if(ok==O_NBGET) NGA_NbGet(A,lo,hi,b,&ld,&y->h); else NGA_NbAcc(A,lo,hi,b,&ld,al,&y->h); pend.push_back(y); for(int d=lo[0];d<=hi[0];d++) busy[d]=1; if(z.chance(0.5)) drain(); continue; }
        if(ok==O_GET||ok==O_GATHER) for(long e=0;e<n;e++){ Val g=dec(ty,b+e*es); if(g!=w[e]) sim_fail("wrong-data","%s of own cell [%d,%d] returned %ld, expected %ld",on[ok],lo[0]+(int)(e/ld),lo[1]+(int)(e%ld),g.re,w[e].re); }
        sim_buf_free(b); }
      drain(); if(q.s&1){ GA_Init_fence(); GA_Fence(); } ARMCI_AllFence();
      bool last=--s->left[f]==0; int ld=1;
      if(me==h&&k==W_LOCK){ if(p.ops.size()%2) sim_stall(5000); GA_Unlock(v); }
      if(k==W_MSG||k==W_MSGANY){ long t=me; armci_msg_snd(4000+f,&t,sizeof t,v); }
      if(last&&k==W_SPININC){ long c=0; NGA_Get(F,&h,&h,&c,&ld); NGA_Read_inc(F,&h,fphase-c); } else if(last&&k>=W_SPINGET) NGA_Put(F,&h,&h,&fphase,&ld); }
    if(k==W_REDUCE){ int x=1; GA_Igop(&x,1,(char*)"+"); if(x!=np) sim_fail("wrong-result","reduction gave %d",x); }
    if(k==W_BCAST){ long x=me==h?fphase:-1; GA_Brdcst(&x,sizeof x,h); if(x!=fphase) sim_fail("wrong-result","broadcast gave %ld",x); }
    if(ingrp) GA_Pgroup_sync(grp);
    GA_Sync(); if(ingrp) GA_Pgroup_destroy(grp);
    std::vector<int> lo={0,me*C},hi={dims[0]-1,me*C+C-1}; std::vector<char> b((size_t)dims[0]*C*es); NGA_Get(A,lo.data(),hi.data(),b.data(),&C); for(size_t e=0;e<mine.size();e++){ Val g=dec(ty,b.data()+e*es); if(g!=mine[e]) sim_fail("wrong-data","cell [%zu,%zu] of process %d holds %ld after phase %d, expected %ld",e/C,e%C,me,g.re,f,mine[e].re); }
    i=j; }
  (void)one; GA_Sync(); GA_Destroy_mutexes(); GA_Destroy(A); GA_Destroy(N); GA_Destroy(F); GA_Destroy(P); shutdown(); }
WORKLOAD(prog,gen,setup,run,check)
