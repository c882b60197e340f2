// Collectives (C07): reductions, broadcasts and selections of every operator, type and length through the GA and the
// message-layer calls, on the world, on concurrent disjoint groups and on overlapping groups used alternately, with
// point-to-point messages and one-sided traffic in between. Each member evaluates the reduction for itself.
#include "coll.h"
enum { O_SUM,O_MUL,O_MAX,O_MIN,O_AMAX,O_AMIN,O_OR,O_LAND,O_LOR,O_BAND,O_BOR,O_NOPS };
static const char* const opn[][2]={{"+","+"},{"*","*"},{"max","max"},{"min","min"},{"absmax","absmax"},{"absmin","absmin"},{"or","or"},{"&&","land"},{"||","lor"},{"&","band"},{"|","bor"}};
static int comb_seed(uint64_t s,int k,long i){ Rng q(s*1315423911u+k*7919+i*104729); return (int)(q.next()>>33); }
static long contrib(uint64_t s,int k,long i,int op){ int h=comb_seed(s,k,i); switch(op){ case O_MUL: return (h%5)-2; case O_LAND: case O_LOR: return (h>>3)%3==0?0:(h%7)-3; case O_OR: case O_BAND: case O_BOR: return h&0xffff; default: return (h%2001)-1000; } }
static long comb(int op,long a,long b){ switch(op){ case O_SUM: return a+b; case O_MUL: return a*b; case O_MAX: return std::max(a,b); case O_MIN: return std::min(a,b); case O_AMAX: return std::max(labs(a),labs(b)); case O_AMIN: return std::min(labs(a),labs(b)); case O_OR: case O_BOR: return a|b; case O_LAND: return a&&b; case O_LOR: return a||b; case O_BAND: return a&b; } return 0; }
static long whole(uint64_t s,int n,long i,int op){ long v=contrib(s,0,i,op); if(op==O_AMAX||op==O_AMIN) v=labs(v); if(n>1&&(op==O_LAND||op==O_LOR)) v=v!=0; for(int k=1;k<n;k++) v=comb(op,v,contrib(s,k,i,op)); return v; }
struct Member { int n,me,grp; bool dflt; const char*where; std::vector<int> abs; }; // the collective's group as seen by this process
static long len_of(Case&c){ return c.r.chance(0.03)?0:c.r.chance(0.1)?c.r.range(1000,20000):c.r.chance(0.3)?c.r.range(1,3):c.r.range(1,std::max(2L,c.size)); }
static void one_gop(Case&c,const Member&m,int api){ int t=(int)c.r.below(T_N),op; bool fl=t==T_FLT||t==T_DBL; if(tcplx(t)) op=O_SUM; else op=(int)c.r.below(fl?O_OR:O_NOPS); long n=len_of(c); uint64_t s=c.r.next(); int alt=(int)c.r.below(2); const char*os=opn[op][alt];
  int es=tsize(t); char*b=(char*)sim_buf(n*es+1); for(long i=0;i<n;i++){ Val v; v.re=contrib(s,m.me,i,op); if(tcplx(t)) v.im=contrib(s+1,m.me,i,op); enc(t,b+i*es,v); }
  char*o=(char*)os; int N=(int)n; const char*nm="";
  if(api==1){ nm="GA_Pgroup_gop"; switch(t){ case T_INT: GA_Pgroup_igop(m.grp,(int*)b,N,o); break; case T_LONG: GA_Pgroup_lgop(m.grp,(long*)b,N,o); break; case T_LL: GA_Pgroup_llgop(m.grp,(long long*)b,N,o); break; case T_FLT: GA_Pgroup_fgop(m.grp,(float*)b,N,o); break; case T_DBL: GA_Pgroup_dgop(m.grp,(double*)b,N,o); break; case T_SC: GA_Pgroup_cgop(m.grp,(SingleComplex*)b,N,o); break; case T_DC: GA_Pgroup_zgop(m.grp,(DoubleComplex*)b,N,o); break; } }
  else if(api==2&&!tcplx(t)){ nm="armci_msg_gop"; int at=t==T_INT?ARMCI_INT:t==T_LONG?ARMCI_LONG:t==T_LL?ARMCI_LONG_LONG:t==T_FLT?ARMCI_FLOAT:ARMCI_DOUBLE; int v=(int)c.r.below(4);
    if(v==0) armci_msg_reduce(b,N,o,at); else if(v==1) armci_msg_reduce_scope(SCOPE_ALL,b,N,o,at); else if(v==2) armci_msg_gop_scope(SCOPE_ALL,b,N,o,at);
    else switch(t){ case T_INT: armci_msg_igop((int*)b,N,o); break; case T_LONG: armci_msg_lgop((long*)b,N,o); break; case T_LL: armci_msg_llgop((long long*)b,N,o); break; case T_FLT: armci_msg_fgop((float*)b,N,o); break; case T_DBL: armci_msg_dgop((double*)b,N,o); break; } }
  else { nm="GA_Gop"; if(c.r.chance(0.3)) GA_Gop(ctype(t),b,N,o); else switch(t){ case T_INT: GA_Igop((int*)b,N,o); break; case T_LONG: GA_Lgop((long*)b,N,o); break; case T_LL: GA_Llgop((long long*)b,N,o); break; case T_FLT: GA_Fgop((float*)b,N,o); break; case T_DBL: GA_Dgop((double*)b,N,o); break; case T_SC: GA_Cgop((SingleComplex*)b,N,o); break; case T_DC: GA_Zgop((DoubleComplex*)b,N,o); break; } }
  for(long i=0;i<n;i++){ Val w{whole(s,m.n,i,op),0},g=dec(t,b+i*es); if(tcplx(t)) w.im=whole(s+1,m.n,i,op); if(g!=w) sim_fail("wrong-result","%s %s of %ld %s elements over %d members (%s): element %ld on member %d is (%ld,%ld), expected (%ld,%ld)",nm,os,n,tname(t),m.n,m.where,i,m.me,g.re,g.im,w.re,w.im); }
  sim_count("reductions",1); sim_count("elements compared",n); sim_buf_free(b); }
static void one_bcast(Case&c,const Member&m,int api){ long n=len_of(c)*c.r.range(1,9); if(api!=2&&c.r.chance(0.05)) n=0; if(api==2&&n==0) n=1; int root=(int)c.r.below(m.n); uint64_t s=c.r.next(); unsigned char*b=(unsigned char*)sim_buf(n+1); for(long i=0;i<n;i++) b[i]=m.me==root?(unsigned char)comb_seed(s,root,i):(unsigned char)0x55; const char*nm;
  if(api==1){ nm="GA_Pgroup_brdcst"; GA_Pgroup_brdcst(m.grp,b,(int)n,root); } else if(api==2){ nm="armci_msg_bcast"; int v=(int)c.r.below(3); if(v==0) armci_msg_bcast(b,(int)n,root); else if(v==1) armci_msg_brdcst(b,(int)n,root); else armci_msg_bcast_scope(SCOPE_ALL,b,(int)n,root); } else { nm="GA_Brdcst"; GA_Brdcst(b,(int)n,root); }
  for(long i=0;i<n;i++) if(b[i]!=(unsigned char)comb_seed(s,root,i)) sim_fail("wrong-result","%s of %ld bytes from %d over %d members (%s): byte %ld on member %d is %d, expected %d",nm,n,root,m.n,m.where,i,m.me,b[i],(unsigned char)comb_seed(s,root,i));
  sim_count("broadcasts",1); sim_buf_free(b); }
static void one_sel(Case&c,const Member&m){ int t=(int)c.r.pick({T_INT,T_LONG,T_LL,T_FLT,T_DBL}); bool mx=c.r.chance(0.5); long R=c.r.chance(0.5)?3:1000; uint64_t s=c.r.next(); double pc=c.r.pick({1,1,2,5,8})/8.0; struct { char v[8]; int who; long pay[6]; } x; auto val=[&](int k){ return (long)(comb_seed(s,k,0)%(2*R+1))-R; }; auto con=[&](int k){ return (comb_seed(s,k,1)%1000)<pc*1000; };
  memset(&x,0,sizeof x); Val v; v.re=val(m.me); enc(t,x.v,v); x.who=m.me; for(int i=0;i<6;i++) x.pay[i]=m.me*100+i; int at=t==T_INT?ARMCI_INT:t==T_LONG?ARMCI_LONG:t==T_LL?ARMCI_LONG_LONG:t==T_FLT?ARMCI_FLOAT:ARMCI_DOUBLE;
  bool any=false; long best=0; for(int k=0;k<m.n;k++) if(con(k)){ if(!any||(mx?val(k)>best:val(k)<best)) best=val(k); any=true; }
  armci_msg_sel_scope(SCOPE_ALL,&x,sizeof x,(char*)(mx?"max":"min"),at,con(m.me));
  if(!any) return; Val g=dec(t,x.v); int w=x.who; bool ok=w>=0&&w<m.n&&con(w)&&val(w)==best&&g.re==best; for(int i=0;ok&&i<6;i++) ok=x.pay[i]==w*100+i;
  if(ok) for(int k=0;k<w;k++) if(con(k)&&val(k)==best) ok=false; // every member must get the same payload: the lowest rank wins
  if(!ok) sim_fail("wrong-result","armci_msg_sel_scope %s over %d members (%s): member %d got value %ld from member %d, expected value %ld of the first contributor that has it",mx?"max":"min",m.n,m.where,m.me,g.re,w,best); sim_count("selections",1); }
// point-to-point messages in a common order (cannot deadlock)
static void p2p(Case&c,const Member&m){ int k=(int)c.r.range(1,4); if(m.n<2) return; for(int i=0;i<k;i++){ int a=(int)c.r.below(m.n),b=(int)c.r.below(m.n-1); if(b>=a) b++; int n=(int)c.r.pick({0,1,8,100,3000,9000}),tag=(int)c.r.range(1,5)*1000+(int)c.r.below(3); uint64_t s=c.r.next(); bool any=c.r.chance(0.3)&&!c.group; 
    if(m.me==a){ unsigned char*q=(unsigned char*)sim_buf(n+1); for(int j=0;j<n;j++) q[j]=(unsigned char)comb_seed(s,3,j); armci_msg_snd(tag,q,n,m.abs[b]); sim_buf_free(q); }
    else if(m.me==b){ unsigned char*q=(unsigned char*)sim_buf(n+64); int len=-1; int from=m.abs[a]; armci_msg_rcv(tag,q,n+64,&len,m.abs[a]); (void)any; if(len!=n||from!=m.abs[a]) sim_fail("wrong-message","a message of %d bytes arrived with length %d",n,len); for(int j=0;j<n;j++) if(q[j]!=(unsigned char)comb_seed(s,3,j)) sim_fail("wrong-message","byte %d of a %d byte message from %d to %d is wrong",j,n,m.abs[a],m.abs[b]); sim_buf_free(q); }
    sim_count("messages",1); } }
// one-sided traffic that stays in flight across the collectives
struct Traffic { GArr a; std::vector<long> want; std::vector<std::pair<ga_nbhdl_t*,double*>> nb; bool on=false; };
static void traffic_begin(Case&c,Traffic&t){ t.on=c.r.chance(0.5); if(!t.on) return; int d[4]={(int)c.r.range(c.np,40+c.np),1,1,1}; t.a=mk(c,T_DBL,1,d,M_BASIC,"traffic"); load(c,t.a); csync(c); }
static void traffic(Case&c,Traffic&t){ if(!t.on) return; int k=(int)c.r.below(3); uint64_t s=c.r.next(); int n=t.a.s.dims[0]; for(int who=0;who<c.np;who++) for(int i=0;i<k;i++){ Rng q(s+who*31+i); int lo=(int)q.below(n),hi=(int)std::min((long)n-1,lo+q.below(12)); long v=q.range(1,9); bool nb=q.chance(0.6); for(int e=lo;e<=hi;e++) t.a.v[e].re+=v*(e-lo+1); if(who!=c.me) continue; int ld=1; double one=1; double*b=(double*)sim_buf((hi-lo+1)*8); for(int e=lo;e<=hi;e++) b[e-lo]=(double)v*(e-lo+1); if(nb){ auto*h=new ga_nbhdl_t; NGA_NbAcc(t.a.g,&lo,&hi,b,&ld,&one,h); t.nb.push_back({h,b}); } else { NGA_Acc(t.a.g,&lo,&hi,b,&ld,&one); sim_buf_free(b); } } }
static void traffic_end(Case&c,Traffic&t){ if(!t.on) return; for(auto&x:t.nb){ NGA_NbWait(x.first); delete x.first; sim_buf_free(x.second); } csync(c); expect(c,t.a,"accumulated while collectives ran"); csync(c); drop(c,t.a); }
static Member base(Case&c){ Member m{c.np,c.me,c.group?c.grp:GA_Pgroup_get_world(),true,c.group?"a disjoint group":"world",c.mem}; std::sort(m.abs.begin(),m.abs.end()); return m; }
static void c_seq(Case&c){ Traffic t; traffic_begin(c,t); Member m=base(c); int k=(int)c.r.range(1,6); for(int i=0;i<k;i++){ jitter(c); traffic(c,t); if(c.r.chance(0.25)) p2p(c,m); int api=(int)c.r.below(3); int w=(int)c.r.below(10); if(w<5) one_gop(c,m,api); else if(w<8) one_bcast(c,m,api); else one_sel(c,m); if(c.r.chance(0.1)) csync(c); } traffic_end(c,t); }
// several overlapping subgroups of the case's processes, used in a common random order
static void c_overlap(Case&c){ std::sort(c.mem.begin(),c.mem.end()); int k=(int)c.r.range(2,4); struct G { Member m; bool in; int id; }; std::vector<G> gs; Traffic t; traffic_begin(c,t);
  for(int g=0;g<k;g++){ std::vector<int> mem; for(int i=0;i<c.np;i++) if(c.r.chance(0.6)) mem.push_back(i); if(mem.empty()) mem.push_back((int)c.r.below(c.np)); G x; x.in=false; std::vector<int> list=mem; for(int i=(int)list.size()-1;i>0;i--) std::swap(list[i],list[c.r.below(i+1)]); bool everyone=c.r.chance(0.3); for(size_t i=0;i<mem.size();i++) if(mem[i]==c.me){ x.in=true; x.m.me=(int)i; } x.m.n=(int)mem.size(); x.m.where="an overlapping group"; for(int i:mem) x.m.abs.push_back(c.mem[i]); x.id=-7; if(x.in||everyone){ x.id=GA_Pgroup_create(list.data(),(int)list.size()); x.m.grp=x.id; } x.m.dflt=false; if(x.in&&(GA_Pgroup_nodeid(x.id)!=x.m.me||GA_Pgroup_nnodes(x.id)!=x.m.n)) sim_fail("wrong-rank","a new group of %d members reports rank %d of %d for its member %d",x.m.n,GA_Pgroup_nodeid(x.id),GA_Pgroup_nnodes(x.id),x.m.me); gs.push_back(x); }
  int n=(int)c.r.range(3,12); for(int i=0;i<n;i++){ jitter(c); traffic(c,t); int w=(int)c.r.below(k+1); uint64_t s=c.r.next(); Rng keep=c.r; c.r=Rng(s); int what=(int)c.r.below(10); 
    if(w==k){ Member m=base(c); if(what<6) one_gop(c,m,(int)c.r.below(3)); else one_bcast(c,m,(int)c.r.below(3)); }
    else if(gs[w].in){ const Member&m=gs[w].m; bool set=c.r.chance(0.3); int old=GA_Pgroup_get_default(); int api=1; if(set){ GA_Pgroup_set_default(m.grp); api=(int)c.r.below(3); } if(what<5) one_gop(c,m,api); else if(what<8) one_bcast(c,m,api); else if(set) one_sel(c,m); else GA_Pgroup_sync(m.grp);
      // the world handle means the world whatever the default is
      if(set) GA_Pgroup_set_default(old); }
    c.r=keep; if(c.r.chance(0.2)){ Member m=base(c); p2p(c,m); } }
  traffic_end(c,t); for(auto&x:gs) if(x.id!=-7) GA_Pgroup_destroy(x.id); }
// the world handle reaches the world also while a subgroup is the default
static void c_world(Case&c){ if(c.group){ c_seq(c); return; } std::vector<int> half; int k=(int)c.r.range(1,3); uint64_t s=c.r.next(); auto col=[&](int i){ return comb_seed(s,i,0)%k; }; for(int i=0;i<c.np;i++) if(col(i)==col(c.me)) half.push_back(i); int g=GA_Pgroup_create(half.data(),(int)half.size()); GA_Pgroup_set_default(g); Member m=base(c); m.dflt=false; m.where="world while a subgroup is the default"; int n=(int)c.r.range(1,4); for(int i=0;i<n;i++){ jitter(c); int w=(int)c.r.below(3); if(w==0) one_gop(c,m,1); else if(w==1) one_bcast(c,m,1); else GA_Pgroup_sync(GA_Pgroup_get_world()); } GA_Pgroup_set_default(GA_Pgroup_get_world()); GA_Pgroup_destroy(g); }
// node-wide reductions of the message layer
static void c_node(Case&c){ if(c.group||c.p->get("cyclic")||c.p->get("nodemap",0)||c.np%c.p->get("nodes",1)){ c_seq(c); return; } int ppn=(int)(c.np/c.p->get("nodes",1)),n0=c.me/ppn*ppn; int k=(int)c.r.range(1,3); for(int i=0;i<k;i++){ jitter(c); uint64_t s=c.r.next(); long n=len_of(c); int op=(int)c.r.below(O_NOPS); long*b=(long*)sim_buf(n*8+1); uint64_t sn=s+n0; for(long j=0;j<n;j++) b[j]=contrib(sn,c.me-n0,j,op); if(c.r.chance(0.5)) armci_msg_gop_scope(SCOPE_NODE,b,(int)n,(char*)opn[op][0],ARMCI_LONG); else armci_msg_reduce_scope(SCOPE_NODE,b,(int)n,(char*)opn[op][0],ARMCI_LONG); for(long j=0;j<n;j++) if(b[j]!=whole(sn,ppn,j,op)) sim_fail("wrong-result","node-wide %s over %d processes: element %ld is %ld, expected %ld",opn[op][0],ppn,j,b[j],whole(sn,ppn,j,op)); sim_buf_free(b); sim_count("node reductions",1); } csync(c);
  int R,U,L,Q; armci_msg_bintree(SCOPE_ALL,&R,&U,&L,&Q); if(R!=0||(c.me&&U!=(c.me-1)/2)||L!=(2*c.me+1<c.np?2*c.me+1:-1)||Q!=(2*c.me+2<c.np?2*c.me+2:-1)) sim_fail("wrong-result","armci_msg_bintree: root %d up %d left %d right %d on process %d of %d",R,U,L,Q,c.me,c.np); }
static const Cases cases={{"sequence of collectives",c_seq,6},{"collectives of overlapping groups",c_overlap,5},{"collectives on the world handle",c_world,1},{"node-wide collectives",c_node,1}};
COLL_WORKLOAD(coll,cases,40,1,7,200)
