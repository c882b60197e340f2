// C20: several threads of every process call one-sided operations, waits and queries at the same time
#include "common.h"
#include <array>
enum { K_PUT,K_GET,K_NBPUT,K_NBGET,K_ACC,K_NBACC,K_INC,K_WAIT,K_CONST,K_NBCONST,K_QUERY,K_TEST,K_GATHER,K_SCATTER,K_SCACC,K_SPUT,K_SGET,K_SACC,K_FENCE,K_WORK,K_N };
static const char*kn[]={"put","get","nonblocking put","nonblocking get","accumulate","nonblocking accumulate","read-increment","wait","get of constants","nonblocking get of constants","query","test","gather","scatter","scatter-accumulate","strided put","strided get","strided accumulate","fence","work"};
// The cells of the array V are owned by one thread each; C never changes; S is only accumulated into; N holds counters
struct ThSt { std::vector<std::vector<long>> got; std::vector<long> sum; int done=0; };
static ThSt* ts(){ return (ThSt*)sim_get_state(); }
static const int NCTR=5;
static void gen(Program&p,Rng&r){ gen_base(p,r,1,4); p.set("threads",1); int np=(int)p.get("np"); int nt=(int)r.range(2,4); p.set("nt",nt); p.set("arr",(long)(r.next()>>40)); p.set("cells",r.range(np*nt,np*nt*4)); long mask=p.get("x.ops",-1);
  std::vector<int> ks; static const int w[K_N]={6,6,6,6,6,4,6,8,4,4,3,3,3,3,3,2,2,2,1,2}; for(int k=0;k<K_N;k++) if((mask>>k)&1) for(int i=0;i<w[k];i++) ks.push_back(k); if(r.chance(0.35)){ std::vector<int> few; int m=(int)r.range(1,4); for(int i=0;i<m;i++) few.push_back(ks[r.below(ks.size())]); few.push_back(K_WAIT); ks=few; }
  int n=(int)r.range(4,r.chance(0.3)?30:14); for(int i=0;i<np;i++) for(int t=0;t<nt;t++) for(int k=0;k<n;k++){ Op o; o.rank=i; o.kind=ks[r.below(ks.size())]; o.a={t,(long)(r.next()>>40)}; p.ops.push_back(o); } }
static void setup(Program&p){ ThSt*s=new ThSt; s->got.assign(NCTR,{}); sim_set_state(s); }
static void check(Program&p){ ThSt*s=ts(); for(int c=0;c<NCTR;c++){ std::vector<long> v=s->got[c]; std::sort(v.begin(),v.end()); for(size_t i=0;i<v.size();i++) if(v[i]!=(long)i) sim_fail("wrong-counter","the %zu increments of counter %d returned %ld as value number %zu",v.size(),c,v[i],i); } }
struct Ctx { Program*p; int me,np,nt,V,C,S,N; ArrSpec v,c,s; std::vector<int> cell; std::vector<Val> cv; std::vector<std::vector<Val>> add; };   // one per process
struct Pend { int k; ga_nbhdl_t h; char*b; Patch pt; int lo[4]; std::vector<Val> want; };
struct Arg { Ctx*x; int t; };
// a rectangular patch inside the cell range of one owner: the cells are slices of the longest dimension
static int axis(const ArrSpec&s){ int b=0; for(int i=1;i<s.nd;i++) if(s.dims[i]>s.dims[b]) b=i; return b; }
static void body(void*a){ Arg*A=(Arg*)a; Ctx&x=*A->x; int T=A->t,me=x.me,np=x.np,id=me*x.nt+T; int ax=axis(x.v); int es=tsize(x.v.type); std::vector<Val> mine(x.v.size()); std::vector<char> busy(x.v.size(),0); std::vector<Pend*> pend; std::vector<Val>&add=x.add[T];
  auto cells=[&]{ std::vector<int> l; for(int i=0;i<x.v.dims[ax];i++) if(x.cell[i]==id) l.push_back(i); return l; }; std::vector<int> my=cells();
  auto fin=[&](Pend*q){ if(q->k==K_NBGET||q->k==K_NBCONST){ ArrSpec&s=q->k==K_NBGET?x.v:x.c; for(long k=0;k<q->pt.n;k++){ int rel[4]; pat_rel(q->pt,k,rel); Val g=dec(s.type,q->b+pat_off(q->pt,rel)*tsize(s.type)); if(g!=q->want[k]) sim_fail("wrong-value","process %d thread %d: element %ld of the patch fetched by a %s is (%ld,%ld), expected (%ld,%ld)",me,T,k,kn[q->k],g.re,g.im,q->want[k].re,q->want[k].im); } }
    if(q->k==K_NBGET||q->k==K_NBPUT) for(long k=0;k<q->pt.n;k++){ int rel[4],ix[4]; pat_rel(q->pt,k,rel); for(int i=0;i<x.v.nd;i++) ix[i]=rel[i]+q->lo[i]; busy[x.v.lin(ix)]=0; }
    memset(q->b,0x77,1); sim_buf_free(q->b); delete q; };
  for(auto&o:x.p->ops){ if(o.rank!=me||o.a[0]!=T) continue; Rng q(o.a[1]); int k=o.kind; sim_count(kn[k],1);
    if(k==K_WORK){ sim_stall(q.pick({1000,50000})); continue; }
    if(k==K_WAIT||k==K_TEST){ if(pend.empty()) continue; size_t i=q.below(pend.size()); Pend*w=pend[i]; if(k==K_TEST){ if(NGA_NbTest(&w->h)==0) continue; } else NGA_NbWait(&w->h); pend.erase(pend.begin()+i); fin(w); continue; }
    if(k==K_FENCE){ continue; }
    if(k==K_INC){ int c=(int)q.below(NCTR); long v=NGA_Read_inc(x.N,&c,1); ts()->got[c].push_back(v); continue; }
    if(k==K_QUERY){ int y=(int)q.below(5); int lo[4],hi[4],ix[4]; ArrSpec&s=x.v; for(int i=0;i<s.nd;i++) ix[i]=(int)q.below(s.dims[i]);
      if(y==0){ int t,n,d[4]; NGA_Inquire(x.V,&t,&n,d); if(n!=s.nd) sim_fail("wrong-result","NGA_Inquire reports %d dimensions",n); for(int i=0;i<n;i++) if(d[i]!=s.dims[i]) sim_fail("wrong-result","NGA_Inquire reports extent %d, expected %d",d[i],s.dims[i]); }
      else if(y==1){ int w=NGA_Locate(x.V,ix); if(w<0||w>=np) sim_fail("wrong-result","NGA_Locate returned %d",w); NGA_Distribution(x.V,w,lo,hi); for(int i=0;i<s.nd;i++) if(ix[i]<lo[i]||ix[i]>hi[i]) sim_fail("wrong-result","process %d thread %d: the block of the process that NGA_Locate returned does not contain the element",me,T); }
      else if(y==2){ if(GA_Ndim(x.V)!=s.nd||GA_Nodeid()!=me||GA_Nnodes()!=np) sim_fail("wrong-result","GA_Ndim, GA_Nodeid or GA_Nnodes wrong"); }
      else if(y==3){ Patch pt; int l2[4],h2[4]; for(int i=0;i<s.nd;i++){ int a=(int)q.below(s.dims[i]),b=(int)q.below(s.dims[i]); l2[i]=std::min(a,b); h2[i]=std::max(a,b); } std::vector<int> map(np*2*s.nd+8),pl(np+1); int n=NGA_Locate_region(x.V,l2,h2,map.data(),pl.data()); long vol=1,sum=0; for(int i=0;i<s.nd;i++) vol*=h2[i]-l2[i]+1; for(int j=0;j<n;j++){ long e=1; for(int i=0;i<s.nd;i++) e*=map[j*2*s.nd+s.nd+i]-map[j*2*s.nd+i]+1; sum+=e; } if(sum!=vol) sim_fail("wrong-result","process %d thread %d: NGA_Locate_region covers %ld of %ld elements",me,T,sum,vol); }
      else { char*nm=GA_Inquire_name(x.C); if(strcmp(nm,"const")) sim_fail("wrong-result","GA_Inquire_name returned %s",nm); }
      continue; }
    bool con=k==K_CONST||k==K_NBCONST, acc=k==K_ACC||k==K_NBACC||k==K_SCACC||k==K_SACC; ArrSpec&s=con?x.c:acc?x.s:x.v; int g=con?x.C:acc?x.S:x.V; int lo[4],hi[4],ld[4],pad[4]; int es=tsize(s.type);
    for(int i=0;i<s.nd;i++){ int a=(int)q.below(s.dims[i]),b=(int)q.below(s.dims[i]); lo[i]=std::min(a,b); hi[i]=std::max(a,b); pad[i]=q.chance(0.3)?1:0; }
    if(!con&&!acc){ if(my.empty()) continue; int i0=(int)q.below(my.size()),l=my[i0],h=l; while(i0+1<(int)my.size()&&my[i0+1]==h+1&&q.chance(0.6)){ i0++; h++; } lo[ax]=l; hi[ax]=h; }
    if(k==K_GATHER||k==K_SCATTER||k==K_SCACC){ int n=(int)q.range(1,12); std::vector<std::array<int,4>> sub; std::set<long> seen; for(int j=0;j<n;j++){ std::array<int,4> ix={0,0,0,0}; for(int i=0;i<s.nd;i++) ix[i]=(int)q.below(s.dims[i]); if(k!=K_SCACC) ix[ax]=my[q.below(my.size())]; long e=s.lin(ix.data()); if(!seen.insert(e).second) continue; if(k!=K_SCACC&&busy[e]) continue; sub.push_back(ix); } n=(int)sub.size(); if(!n) continue; std::vector<int*> ps(n); for(int j=0;j<n;j++) ps[j]=sub[j].data(); char*b=(char*)sim_buf(n*es); std::vector<Val> w(n); for(int j=0;j<n;j++){ long e=s.lin(ps[j]); if(k==K_GATHER) w[j]=mine[e]; else { w[j].re=q.range(1,50); if(tcplx(s.type)) w[j].im=q.range(1,50); enc(s.type,b+j*es,w[j]); if(k==K_SCATTER) mine[e]=w[j]; else { add[e]=add[e]+w[j]; } } }
      if(k==K_GATHER){ NGA_Gather(g,b,ps.data(),n); for(int j=0;j<n;j++){ Val v=dec(s.type,b+j*es); if(v!=w[j]) sim_fail("wrong-value","process %d thread %d: gathered element %ld is (%ld,%ld), expected (%ld,%ld)",me,T,s.lin(ps[j]),v.re,v.im,w[j].re,w[j].im); } } else if(k==K_SCATTER) NGA_Scatter(g,b,ps.data(),n); else { char one[16]; enc(s.type,one,Val{1,0}); NGA_Scatter_acc(g,b,ps.data(),n,one); } sim_buf_free(b); continue; }
    int sk[4]; bool str=k==K_SPUT||k==K_SGET||k==K_SACC; for(int i=0;i<s.nd;i++) sk[i]=str&&(con||acc||i!=ax)?(int)q.range(1,3):1; int z[4]={0,0,0,0},e1[4]; for(int i=0;i<s.nd;i++) e1[i]=(hi[i]-lo[i])/sk[i]; Patch pt=mk_patch(s.nd,z,e1,pad); for(int i=0;i<s.nd-1;i++) ld[i]=pt.ld[i];
    auto el=[&](long j,int*rel){ pat_rel(pt,j,rel); int ix[4]; for(int i=0;i<s.nd;i++) ix[i]=lo[i]+rel[i]*sk[i]; return s.lin(ix); }; int rel[4];
    if(!con&&!acc){ bool clash=false; for(long j=0;j<pt.n&&!clash;j++) clash=busy[el(j,rel)]; if(clash) continue; }
    char*b=(char*)sim_buf(pt.span*es); memset(b,0x9C,pt.span*es); std::vector<Val> w(pt.n); bool rd=k==K_GET||k==K_NBGET||con||k==K_SGET; for(long j=0;j<pt.n;j++){ long e=el(j,rel); if(con) w[j]=x.cv[e]; else if(rd) w[j]=mine[e]; else { w[j].re=q.range(1,50); if(tcplx(s.type)) w[j].im=q.range(1,50); enc(s.type,b+pat_off(pt,rel)*es,w[j]); if(acc) add[e]=add[e]+w[j]; else mine[e]=w[j]; } }
    char one[16]; enc(s.type,one,Val{1,0}); bool nb=k==K_NBPUT||k==K_NBGET||k==K_NBACC||k==K_NBCONST;
    if(nb){ Pend*P=new Pend; P->k=k; P->b=b; P->pt=pt; memcpy(P->lo,lo,sizeof lo); P->want=w; if(k==K_NBPUT) NGA_NbPut(g,lo,hi,b,ld,&P->h); else if(k==K_NBACC) NGA_NbAcc(g,lo,hi,b,ld,one,&P->h); else NGA_NbGet(g,lo,hi,b,ld,&P->h); if(!con&&!acc) for(long j=0;j<pt.n;j++) busy[el(j,rel)]=1; pend.push_back(P); continue; }
    if(k==K_PUT) NGA_Put(g,lo,hi,b,ld); else if(k==K_ACC) NGA_Acc(g,lo,hi,b,ld,one); else if(k==K_SPUT) NGA_Strided_put(g,lo,hi,sk,b,ld); else if(k==K_SACC) NGA_Strided_acc(g,lo,hi,sk,b,ld,one); else if(k==K_SGET) NGA_Strided_get(g,lo,hi,sk,b,ld); else NGA_Get(g,lo,hi,b,ld);
    if(rd) for(long j=0;j<pt.n;j++){ el(j,rel); Val v=dec(s.type,b+pat_off(pt,rel)*es); if(v!=w[j]) sim_fail("wrong-value","process %d thread %d: element %ld of the patch fetched by a %s is (%ld,%ld), expected (%ld,%ld)",me,T,j,kn[k],v.re,v.im,w[j].re,w[j].im); }
    sim_buf_free(b); }
  for(auto*w:pend){ NGA_NbWait(&w->h); fin(w); }
  // final contents of this thread's cells as it knows them are checked by the process after the sync
  for(long e=0;e<x.v.size();e++) if(true){ int ix[4]; long t=e; for(int i=x.v.nd-1;i>=0;i--){ ix[i]=(int)(t%x.v.dims[i]); t/=x.v.dims[i]; } if(x.cell[ix[ax]]==id){ x.cv[x.c.size()+e]=mine[e]; } } }
static void run(Program&p){ boot(p); Ctx x; x.p=&p; x.me=GA_Nodeid(); x.np=GA_Nnodes(); x.nt=(int)p.get("nt"); Rng r(p.get("arr")); int nd=(int)r.range(1,3); int d[4]={1,1,1,1}; for(int i=0;i<nd;i++) d[i]=(int)r.range(2,nd==1?60:nd==2?14:7); int ax=0; for(int i=1;i<nd;i++) if(d[i]>d[ax]) ax=i; d[ax]=std::max(d[ax],(int)p.get("cells")); ax=0; for(int i=1;i<nd;i++) if(d[i]>d[ax]) ax=i;
  const int ty[]={T_INT,T_LONG,T_FLT,T_DBL,T_SC,T_DC}; const int di[]={D_REG,D_CHUNK,D_IRREG,D_REG,D_BC,D_SCAL,D_TILE,D_GHOST}; auto dist=[&]{ return di[r.below(r.chance(0.7)?4:8)]; };
  x.v=make_spec((long)(r.next()>>40),ty[r.below(6)],nd,d,di[r.below(3)],x.np); x.c=make_spec((long)(r.next()>>40),ty[r.below(6)],nd,d,dist(),x.np); x.s=make_spec((long)(r.next()>>40),ty[r.below(6)],nd,d,dist(),x.np);
  x.V=create_arr(x.v,"values",-1); x.C=create_arr(x.c,"const",-1); x.S=create_arr(x.s,"sums",-1); int n5=NCTR; x.N=NGA_Create(r.chance(0.5)?C_INT:C_LONG,1,&n5,(char*)"ctr",NULL); GA_Zero(x.V); GA_Zero(x.S); GA_Zero(x.N);
  x.cell.resize(d[ax]); for(auto&c:x.cell) c=(int)r.below(x.np*x.nt); for(int i=1;i<d[ax];i++) if(r.chance(0.4)) x.cell[i]=x.cell[i-1]; for(int i=0;i<x.np*x.nt&&i<d[ax];i++) x.cell[r.below(d[ax])]=i;
  x.cv.assign(x.c.size()*2,Val()); for(long e=0;e<x.c.size();e++){ x.cv[e].re=r.range(-500,500); if(tcplx(x.c.type)) x.cv[e].im=r.range(-500,500); }
  auto whole=[&](ArrSpec&s,int g,bool put,std::vector<Val>&v){ int lo[4],hi[4],ld[4]; for(int i=0;i<nd;i++){ lo[i]=0; hi[i]=s.dims[i]-1; if(i) ld[i-1]=s.dims[i]; } int es=tsize(s.type); char*b=(char*)sim_buf(s.size()*es); if(put){ for(long e=0;e<s.size();e++) enc(s.type,b+e*es,v[e]); NGA_Put(g,lo,hi,b,ld); } else { NGA_Get(g,lo,hi,b,ld); v.resize(s.size()); for(long e=0;e<s.size();e++) v[e]=dec(s.type,b+e*es); } sim_buf_free(b); };
  if(x.me==0) whole(x.c,x.C,true,x.cv); GA_Sync(); x.add.assign(x.nt,std::vector<Val>(x.s.size()));
  std::vector<Arg> a(x.nt); std::vector<int> th; for(int t=1;t<x.nt;t++){ a[t]={&x,t}; th.push_back(sim_thread(body,&a[t])); } a[0]={&x,0}; body(&a[0]); for(int h:th) sim_join(h);
  GA_Sync(); std::vector<Val> fv,fs; whole(x.v,x.V,false,fv); for(long e=0;e<x.v.size();e++){ long t=e; int ix[4]; for(int i=nd-1;i>=0;i--){ ix[i]=(int)(t%x.v.dims[i]); t/=x.v.dims[i]; } int c=x.cell[ix[ax]]; if(c/x.nt!=x.me) continue; Val w=x.cv[x.c.size()+e]; if(fv[e]!=w) sim_fail("wrong-value","after synchronisation element %ld written by process %d thread %d is (%ld,%ld), expected (%ld,%ld)",e,x.me,c%x.nt,fv[e].re,fv[e].im,w.re,w.im); }
  // sum of all contributions of all threads
  std::vector<long> sum(x.s.size()*2,0); for(int t=0;t<x.nt;t++) for(long e=0;e<x.s.size();e++){ sum[2*e]+=x.add[t][e].re; sum[2*e+1]+=x.add[t][e].im; } GA_Lgop(sum.data(),(int)sum.size(),(char*)"+"); whole(x.s,x.S,false,fs); for(long e=0;e<x.s.size();e++) if(fs[e].re!=sum[2*e]||fs[e].im!=sum[2*e+1]) sim_fail("lost-update","element %ld of the accumulated array is (%ld,%ld), the contributions add up to (%ld,%ld)",e,fs[e].re,fs[e].im,sum[2*e],sum[2*e+1]);
  std::vector<long> cn(NCTR); GA_Sync(); int l0=0,h0=NCTR-1,l1=1; int ctype,cnd,cd[4]; NGA_Inquire(x.N,&ctype,&cnd,cd); if(GA_Nodeid()==0){ std::vector<int> ci(NCTR); if(ctype==C_INT){ NGA_Get(x.N,&l0,&h0,ci.data(),&l1); for(int i=0;i<NCTR;i++) cn[i]=ci[i]; } else NGA_Get(x.N,&l0,&h0,cn.data(),&l1); for(int i=0;i<NCTR;i++) if(cn[i]!=(long)ts()->got[i].size()) sim_fail("lost-update","counter %d is %ld after %zu increments",i,cn[i],ts()->got[i].size()); }
  GA_Sync(); GA_Destroy(x.V); GA_Destroy(x.C); GA_Destroy(x.S); GA_Destroy(x.N); shutdown(); }
WORKLOAD(thr,gen,setup,run,check)
