// TCGMSG (C22): messages of several types between random processes (blocking, asynchronous, wildcard, probed), global
// operations, broadcasts and the shared counter, alone or together with global arrays. Every message carries its
// number, so order, completeness and content are checked at the receiver; the counter values of all calls between two
// resets must be 0,1,2,... and respect the real-time order of the calls.
#include "common.h"
extern "C" {
void tcg_pbegin(int,char**); void tcg_pend(void); long tcg_nnodes(void); long tcg_nodeid(void); long tcg_nxtval(long); void tcg_snd(long,void*,long,long,long); void tcg_rcv(long,void*,long,long*,long,long*,long); void tcg_waitcom(long); long tcg_probe(long,long); void tcg_brdcst(long,void*,long,long); void tcg_dgop(long,double*,long,char*); void tcg_igop(long,long*,long,char*); void tcg_synch(long); double tcg_time(void); }
enum { K_MSG,K_BATCH,K_COLL,K_NXT,K_RESET,K_GA,K_MW };
struct Call { uint64_t s,e; long v; int rank,epoch; };
struct TSt { std::vector<Call> calls; int epochs=1; std::set<std::pair<long,int>> started; };
static TSt* ts(){ return (TSt*)sim_get_state(); }
static void gen(Program&p,Rng&r){ gen_base(p,r,1,6); int np=(int)p.get("np"); p.set("x.ga",r.chance(0.4)); p.set("ma.stack",40000); p.set("ma.heap",40000); int n=(int)r.range(2,r.chance(0.2)?16:8); double w=r.unit();
  for(int i=0;i<n;i++){ Op o; double x=r.unit(); long s=(long)(r.next()>>30);
    if(x<0.2&&np>1){ o.kind=K_MSG; int a=(int)r.below(np),b=(int)r.below(np-1); if(b>=a) b++; o.a={a,b,r.pick({1,7,300,32000,27625}),r.pick({0,1,8,200,5000,70000}),r.below(8),s}; }
    else if(x<0.45){ o.kind=K_BATCH; o.a={s,r.range(1,r.chance(0.1)?60:12),r.below(3)}; }
    else if(x<0.6){ o.kind=K_COLL; o.a={r.below(4),r.chance(0.1)?r.range(60000,140000):r.pick({1,3,50,1000}),s}; }
    else if(x<0.65&&p.get("x.ga")){ o.kind=K_GA; o.a={s}; }
    else if(x<0.72&&np>1){ o.kind=K_MW; o.a={s,r.below(np)}; }
    else if(x<0.72+0.18*w){ o.kind=K_RESET; }
    else { o.kind=K_NXT; o.a={s,r.range(1,6)}; }
    p.ops.push_back(o); } }
static void setup(Program&){ sim_set_state(new TSt); }
static unsigned char pay(uint64_t s,long i,long j){ Rng q(s*977+i*131071+j/8); return (unsigned char)(q.s>>(8*(j%8))); }
static void fillmsg(unsigned char*b,uint64_t s,int idx,long n){ for(long j=0;j<n;j++) b[j]=pay(s,idx,j); if(n>=4) memcpy(b,&idx,4); }
static void chkmsg(const unsigned char*b,uint64_t s,int idx,long n,int me,const char*how){ for(long j=0;j<n;j++){ unsigned char w=pay(s,idx,j); if(n>=4&&j<4) w=(unsigned char)(idx>>(8*j)); if(b[j]!=w) sim_fail("wrong-message","%s: byte %ld of message %d of %ld bytes received by %d is %d, expected %d",how,j,idx,n,me,b[j],w); } }
static void check(Program&){ TSt*t=ts(); for(int ep=0;ep<t->epochs;ep++){ std::vector<const Call*> c; for(auto&x:t->calls) if(x.epoch==ep) c.push_back(&x); std::sort(c.begin(),c.end(),[](const Call*a,const Call*b){ return a->v<b->v; });
    uint64_t mx=0; for(size_t i=0;i<c.size();i++){ if(c[i]->v!=(long)i) sim_fail("counter","shared counter: after %d resets the %zu calls returned %ld where %zu was due (duplicate or gap), on process %d",ep,c.size(),c[i]->v,i,c[i]->rank); if(mx>c[i]->e) sim_fail("counter","shared counter: value %ld was returned on process %d before the call that got a smaller value had begun",c[i]->v,c[i]->rank); mx=std::max(mx,c[i]->s); }
    sim_count("counter values",(long)c.size()); } }
static void nxt(int me,int np,int ep){ Call c; c.rank=me; c.epoch=ep; c.s=sim_seq(); c.v=tcg_nxtval(np); c.e=sim_seq(); ts()->calls.push_back(c); }
struct TMsg { int src,dst,idx; long type,n; };
static void run(Program&p){
  if(p.get("port")==P_MT||p.get("port")==P_PT){ int prov; MPI_Init_thread(0,0,MPI_THREAD_MULTIPLE,&prov); }   // these runtimes need it
  char nm[]="prog"; char*argv[]={nm,nullptr}; tcg_pbegin(1,argv); bool ga=p.get("x.ga"); int np=(int)p.get("np"); 
  if(tcg_nnodes()!=np) sim_fail("wrong-size","NNODES is %ld, expected %d",tcg_nnodes(),np);
  if(ga){ GA_Initialize(); if(!MA_init(C_DBL,40000,40000)) sim_fail("init","MA_init failed"); }
  int me=(int)tcg_nodeid(),ep=0; if(ga&&GA_Nodeid()!=me) sim_fail("wrong-rank","NODEID is %d, GA_Nodeid %d",me,GA_Nodeid()); double t0=tcg_time();
  long num=0; // wildcard receives use types of their own per operation: a fast sender may already be in a later one
  for(auto&o:p.ops){ num+=10; Rng jr(me*7919+(o.a.empty()?1:o.a[0])); if(jr.chance(0.3)) sim_stall(jr.pick({1000,100000,3000000})); sim_trace("tcg op %d",o.kind);
    switch(o.kind){
    case K_MSG: { int a=(int)o.a[0]%np,b=(int)o.a[1]%np; long n=o.a[3],fl=o.a[4],ty=(fl&2)?1000+num:o.a[2]; if(a==b) break;
      if(me==a){ unsigned char*q=(unsigned char*)sim_buf(n+1); fillmsg(q,o.a[5],77,n); tcg_snd(ty,q,n,b,1); memset(q,0x11,n); sim_buf_free(q); }
      else if(me==b){ unsigned char*q=(unsigned char*)sim_buf(n+32); memset(q,0x55,n+32); long len=-1,from=-1; if(fl&1) while(!tcg_probe(ty,fl&2?-1:a)) sim_stall(20000); tcg_rcv(ty,q,n+((fl&4)?32:0),&len,fl&2?-1:a,&from,1); if(len!=n||from!=a) sim_fail("wrong-message","a message of %ld bytes from %d arrived with length %ld from %ld",n,a,len,from); chkmsg(q,o.a[5],77,n,me,"blocking receive"); for(int j=0;j<32;j++) if(q[n+j]!=0x55) sim_fail("wrong-message","a receive of %ld bytes wrote behind the message",n); sim_buf_free(q); sim_count("messages",1); } 
      // probing by source must not see messages of other types or senders
      break; }
    case K_BATCH: { Rng q(o.a[0]); int k=(int)o.a[1],mode=(int)o.a[2]; std::vector<TMsg> ms; std::map<std::pair<int,long>,bool> wild; for(int i=0;i<k;i++){ TMsg m; m.src=(int)q.below(np); m.dst=(int)q.below(np); m.type=1000+num+q.below(3); m.idx=i; m.n=q.chance(0.15)?q.range(5000,30000):q.range(4,300); if(mode==0&&m.src==m.dst){ m.dst=(m.dst+1)%np; if(np==1) continue; } ms.push_back(m); if(!wild.count({m.dst,m.type})) wild[{m.dst,m.type}]=q.chance(0.4); }
      struct R { unsigned char*b; long cap; const TMsg*m; bool w; long got; int from; }; std::vector<R> rs; for(auto&m:ms) if(m.dst==me) rs.push_back({nullptr,0,&m,wild[{me,m.type}],-1,-1}); std::vector<unsigned char*> sb; std::vector<const TMsg*> mine; for(auto&m:ms) if(m.src==me) mine.push_back(&m);
      long mx=4; for(auto&m:ms) mx=std::max(mx,m.n);
      for(auto&x:rs){ x.cap=x.w?mx:x.m->n+jr.below(3)*8; x.b=(unsigned char*)sim_buf(x.cap+8); memset(x.b,0x55,x.cap+8); }
      auto sends=[&](bool async){ for(auto m:mine){ unsigned char*b=(unsigned char*)sim_buf(m->n); fillmsg(b,o.a[0],m->idx,m->n); sb.push_back(b); ts()->started.insert({num,m->idx}); tcg_snd(m->type,b,m->n,m->dst,!async); if(!async) memset(b,0x22,m->n); if(jr.chance(0.2)) sim_yield(); } };
      auto order=rs; if(mode!=1){ // receives posted first
        for(auto&x:rs){ long len=0,from=0; tcg_rcv(x.m->type,x.b,x.cap,&len,x.w?-1:x.m->src,&from,0); }
        sends(mode==2||jr.chance(0.3)); if(jr.chance(0.4)) nxt(me,np,ep); if(jr.chance(0.3)) tcg_waitcom(jr.below(np)); tcg_waitcom(-1); }
      else { sends(true); std::vector<int> perm; for(size_t i=0;i<rs.size();i++) perm.push_back((int)i); // same type and source keep their order
        for(int i=(int)perm.size()-1;i>0;i--) std::swap(perm[i],perm[jr.below(i+1)]); std::vector<char> done(rs.size(),0);
        for(int pi:perm){ int i=-1; for(size_t j=0;j<rs.size();j++) if(!done[j]&&rs[j].m->type==rs[pi].m->type&&(rs[j].w||rs[j].m->src==rs[pi].m->src)){ i=(int)j; break; } if(i<0) continue; done[i]=1; R&x=rs[i]; if(jr.chance(0.4)) for(int t=0,tn=(int)jr.range(1,6);t<tn;t++) if(tcg_probe(x.m->type,x.w?-1:x.m->src)){ sim_count("positive probes",1); if(!x.w&&!ts()->started.count({num,x.m->idx})) sim_fail("wrong-probe","a probe for type %ld from %d was positive before that process had sent message %d",x.m->type,x.m->src,x.m->idx); break; } else sim_yield(); long len=-1,from=-1; tcg_rcv(x.m->type,x.b,x.cap,&len,x.w?-1:x.m->src,&from,1); x.got=len; x.from=(int)from; if(jr.chance(0.2)) nxt(me,np,ep); }
        for(size_t i=0;i<rs.size();i++) if(!done[i]) sim_fail("harness","receive %zu was not issued",i); if(jr.chance(0.3)) tcg_waitcom(jr.below(np)); tcg_waitcom(-1); }
      // which message did every receive get: wildcard receives match per type in some order of the sources
      std::map<std::pair<long,int>,int> last; std::vector<char> seen(ms.size()+1+k,0);
      for(auto&x:rs){ int idx; memcpy(&idx,x.b,4); const TMsg*m=nullptr; for(auto&y:ms) if(y.idx==idx) m=&y; if(!m||m->dst!=me||m->type!=x.m->type||(!x.w&&m!=x.m)) sim_fail("wrong-message","receive of type %ld from %d (%s) on process %d got message %d (%s), expected %d",x.m->type,x.w?-1:x.m->src,mode==1?"blocking":"asynchronous",me,idx,m?"another message":"none that was sent",x.m->idx);
        if(seen[idx]++) sim_fail("wrong-message","message %d was received twice",idx); auto key=std::make_pair(m->type,m->src); if(last.count(key)&&last[key]>idx) sim_fail("message-order","message %d of type %ld from %d was received after message %d",idx,m->type,m->src,last[key]); last[key]=idx;
        chkmsg(x.b,o.a[0],idx,m->n,me,"batch"); for(long j=m->n;j<x.cap+8;j++) if(x.b[j]!=0x55) sim_fail("wrong-message","a receive wrote behind message %d",idx); if(mode==1&&(x.got!=m->n||x.from!=m->src)) sim_fail("wrong-message","message %d of %ld bytes from %d was reported as %ld bytes from %d",idx,m->n,m->src,x.got,x.from); sim_buf_free(x.b); sim_count("messages",1); }
      for(auto b:sb) sim_buf_free(b); break; }
    case K_COLL: { Rng q(o.a[2]); int what=(int)o.a[0]; long n=o.a[1]; static const char*const ops[]={"+","*","max","min","absmax","absmin","or","&&","||","&","|"}; sim_count("collectives",1);
      if(what==0){ int root=(int)q.below(np); unsigned char*b=(unsigned char*)sim_buf(n); if(me==root) fillmsg(b,o.a[2],5,n); else memset(b,0x55,n); tcg_brdcst(3,b,n,root); chkmsg(b,o.a[2],5,n,me,"broadcast"); sim_buf_free(b); }
      else if(what==3) tcg_synch(9);
      else { int op=(int)q.below(what==1?11:6); auto val=[&](int r,long i){ Rng z(o.a[2]+r*7+i*31); long v=op==1?z.range(-2,2):op>=6?z.below(256)*z.below(2):z.range(-1000,1000); return v; }; long*x=(long*)sim_buf(n*8); double*d=(double*)x; for(long i=0;i<n;i++){ if(what==1) x[i]=val(me,i); else d[i]=(double)val(me,i); } 
        if(what==1) tcg_igop(4,x,n,(char*)ops[op]); else tcg_dgop(4,d,n,(char*)ops[op]);
        for(long i=0;i<n;i++){ long w=val(0,i); if(op==4||op==5) w=labs(w); if(np>1&&(op==7||op==8)) w=w!=0; for(int r=1;r<np;r++){ long v=val(r,i); switch(op){ case 0:w+=v;break; case 1:w*=v;break; case 2:w=std::max(w,v);break; case 3:w=std::min(w,v);break; case 4:w=std::max(w,labs(v));break; case 5:w=std::min(w,labs(v));break; case 6:case 10:w|=v;break; case 7:w=w&&v;break; case 8:w=w||v;break; case 9:w&=v;break; } } long g=what==1?x[i]:d2l(d[i]); if(np==1&&(op==7||op==8)){ w=w!=0; g=g!=0; } if(g!=w) sim_fail("wrong-result","%s %s of %ld elements over %d processes: element %ld on %d is %ld, expected %ld",what==1?"IGOP":"DGOP",ops[op],n,np,i,me,g,w); } sim_buf_free(x); }
      break; }
    case K_NXT: { Rng q(o.a[0]+me*17); int k=(int)q.below(o.a[1]+1); for(int i=0;i<k;i++){ if(q.chance(0.3)) sim_stall(q.pick({500,50000,2000000})); nxt(me,np,ep); } break; }
    case K_MW: { // a master hands the other processes work; they take tickets before they ask
      Rng q(o.a[0]); int master=(int)o.a[1]%np; if(np<2) break; long per=q.range(1,3); if(me==master){ for(long i=0;i<per*(np-1);i++){ long x=-1,len,from; tcg_rcv(1000+num,&x,8,&len,-1,&from,1); if(x!=from*1000) sim_fail("wrong-message","request from %ld says %ld",from,x); x=from*7+1; tcg_snd(1001+num,&x,8,from,1); } } else for(long i=0;i<per;i++){ nxt(me,np,ep); long x=me*1000,len,from; tcg_snd(1000+num,&x,8,master,1); tcg_rcv(1001+num,&x,8,&len,master,&from,1); if(x!=me*7+1) sim_fail("wrong-message","answer for %d is %ld",me,x); } sim_count("requests served",per); break; }
    case K_RESET: tcg_nxtval(-np); ep++; if(me==0) ts()->epochs=ep+1; break;
    case K_GA: { if(!ga) break; Rng q(o.a[0]); int d=(int)q.range(np,40); int g=NGA_Create(C_LONG,1,&d,(char*)"t",nullptr); GA_Zero(g); int ld=1; long one=1; for(int r=0;r<np;r++){ int e=(int)q.below(d); if(r==me){ long v=me+1; NGA_Acc(g,&e,&e,&v,&ld,&one); nxt(me,np,ep); } } GA_Sync(); long*v=(long*)sim_buf(d*8); int lo=0,hi=d-1; NGA_Get(g,&lo,&hi,v,&ld); long sum=0; for(int i=0;i<d;i++) sum+=v[i]; if(sum!=(long)np*(np+1)/2) sim_fail("wrong-value","array used next to TCGMSG sums to %ld, expected %ld",sum,(long)np*(np+1)/2); sim_buf_free(v); GA_Destroy(g); break; }
    } }
  if(tcg_time()<t0) sim_fail("time","TCGTIME went backwards");
  tcg_synch(1); if(ga) GA_Terminate(); tcg_pend(); }
WORKLOAD(tcg,gen,setup,run,check)
