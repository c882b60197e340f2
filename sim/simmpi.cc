// Simulated MPI: point-to-point, collectives, communicators, datatypes, one-sided windows.
#include "core.h"
#include "mpi.h"
#include <memory>
#include <algorithm>
#include <math.h>
typedef std::vector<int> VI;
struct Seg { long off; long len; };
struct Type { std::vector<Seg> segs; long size=0, extent=0; int base=0; bool committed=false; };
typedef std::shared_ptr<Type> TP;
struct Coll;
struct CommObj { int id; VI g, h; bool inter=false; std::set<int> freed; std::map<int,uint64_t> seq; std::map<uint64_t,Coll*> inst; VI all; };
struct Coll { std::string kind; uint64_t seq; CommObj*c; int n=0, left=0; std::vector<char> in, vis; std::vector<std::string> data; std::vector<long> a,b; int nvis=0; void*ext=nullptr; std::map<std::string,int> made; };
struct Msg; struct Win;
struct Req { int id=0, rank=0; int kind=0; bool done=false; MPI_Status st{}; char*buf=nullptr; int count=0; TP t; int src=0,tag=0,ctx=0; Msg*m=nullptr; bool active=true; bool freed=false; int missed=0; };
struct Msg { int src,dst,ctx,tag; std::string data; bool captured=false; const char*buf=nullptr; int count=0; TP t; bool rdv=false; Req*sreq=nullptr; bool arrived=false; long bytes=0; uint64_t sum=0; };
struct Win { int id; CommObj*c; std::vector<char*> base; std::vector<long> size; std::vector<int> disp; std::set<int> freed; bool alloc=false;
  struct Lk { int excl=-1; std::set<int> shared; }; std::vector<Lk> lk; std::map<std::pair<int,int>,int> held; std::set<int> lockall; std::vector<int> fenced;
  std::map<std::pair<int,int>,uint64_t> last; std::map<std::pair<int,int>,long> pend, pendlocal; std::map<std::pair<int,int>,uint64_t> lastl; };
struct M {
  std::map<int,CommObj*> comms; int nextcomm=10; std::map<int,VI> groups; int nextgroup=10; std::map<int,TP> types; int nexttype=100;
  std::map<int,Req*> reqs; int nextreq=1; std::map<int,Win*> wins; int nextwin=2;
  std::map<std::pair<int,int>,std::deque<Msg*>> unexp; std::map<std::pair<int,int>,std::deque<Req*>> posted; // (dst,ctx)
  std::map<std::tuple<int,int,int>,uint64_t> chan; std::map<std::tuple<int,int,int>,long> inflight;
  std::map<int,int> inited, finalized, level; std::vector<int> inside; std::map<int,std::pair<MPI_User_function*,int>> uops; int nextop=100; std::map<std::string,std::deque<Coll*>> pairs;
};
static M* m;
extern void (*fair_hook)(uint64_t);
static void mpi_fair(uint64_t b){ for(auto&c:m->chan) c.second=std::min(c.second,b); for(auto&w:m->wins){ for(auto&x:w.second->last) x.second=std::min(x.second,b); for(auto&x:w.second->lastl) x.second=std::min(x.second,b); } }
#define MISUSE(...) violation("mpi-misuse",__VA_ARGS__)
static int me(){ return cur_rank(); }
struct InMpi { int rk; bool own=false;
  InMpi(){ rk=me(); if(!m->inited[rk]) MISUSE("MPI used before MPI_Init"); if(m->finalized[rk]) MISUSE("MPI used after MPI_Finalize");
    int lv=m->level[rk]; if(lv<MPI_THREAD_SERIALIZED&&S.cur->tid!=0) MISUSE("a thread other than the main one calls MPI, which was initialised with thread level %d",lv);
    int&o=m->inside[rk]; if(o<0){ o=S.cur->id; own=true; } else if(o!=S.cur->id&&lv<MPI_THREAD_MULTIPLE) MISUSE("two threads are inside MPI at once, which was initialised with thread level %d",lv);
    sched_point(); }
  ~InMpi(){ if(own) m->inside[rk]=-1; } };
#define enter() InMpi inmpi_
static CommObj* C(int c){
  if(c==MPI_COMM_SELF){ int id=-100-me(); auto it=m->comms.find(id); if(it==m->comms.end()){ CommObj*o=new CommObj; o->id=id; o->g={me()}; o->all=o->g; m->comms[id]=o; return o; } return it->second; }
  auto it=m->comms.find(c); if(it==m->comms.end()) MISUSE("invalid communicator handle %d",c);
  CommObj*o=it->second; if(o->freed.count(me())) MISUSE("communicator used after it was freed");
  if(std::find(o->all.begin(),o->all.end(),me())==o->all.end()) MISUSE("process is not a member of the communicator");
  return o; }
static int idx(const VI&g,int w){ for(size_t i=0;i<g.size();i++) if(g[i]==w) return (int)i; return -1; }
static const VI& lgroup(CommObj*c){ return c->inter&&idx(c->h,me())>=0?c->h:c->g; }
static const VI& rgroup(CommObj*c){ return !c->inter?c->g: idx(c->h,me())>=0?c->g:c->h; }
static int newcomm(const VI&g){ CommObj*o=new CommObj; o->id=m->nextcomm++; o->g=g; o->all=g; m->comms[o->id]=o; return o->id; }
// ---- datatypes
static long basesz(int t){ switch(t){ case MPI_CHAR:case MPI_BYTE:case MPI_SIGNED_CHAR:case MPI_UNSIGNED_CHAR:case MPI_PACKED:return 1; case MPI_SHORT:return 2; case MPI_INT:case MPI_UNSIGNED:case MPI_FLOAT:return 4;
  case MPI_LONG:case MPI_UNSIGNED_LONG:case MPI_LONG_LONG:case MPI_DOUBLE:case MPI_2INT:case MPI_FLOAT_INT:case MPI_C_FLOAT_COMPLEX:return 8; case MPI_LONG_DOUBLE:case MPI_DOUBLE_INT:case MPI_LONG_INT:case MPI_C_DOUBLE_COMPLEX:return 16; } return -1; }
static TP T(int t){ auto it=m->types.find(t); if(it!=m->types.end()) return it->second; long b=basesz(t); if(b<0) MISUSE("invalid datatype handle %d",t); auto p=std::make_shared<Type>(); p->segs={{0,b}}; p->size=p->extent=b; p->base=t; p->committed=true; m->types[t]=p; return p; }
static TP TC(int t){ TP p=T(t); if(!p->committed) MISUSE("datatype used before MPI_Type_commit"); return p; }
static void addseg(std::vector<Seg>&v,long o,long l){ if(l<=0) return; if(!v.empty()&&v.back().off+v.back().len==o) v.back().len+=l; else v.push_back({o,l}); }
static int regtype(TP p){ long hi=0; p->size=0; for(auto&s:p->segs){ p->size+=s.len; hi=std::max(hi,s.off+s.len); } if(!p->extent) p->extent=hi; int id=m->nexttype++; m->types[id]=p; return id; }
static void expand(TP t,long count,std::vector<Seg>&o){ if(t->segs.size()==1&&t->segs[0].off==0&&t->segs[0].len==t->extent){ addseg(o,0,count*t->extent); return; } for(long i=0;i<count;i++) for(auto&s:t->segs) addseg(o,i*t->extent+s.off,s.len); }
static std::string pack(const char*b,long n,TP t){ std::string r; if(n<=0) return r; if(t->segs.size()==1&&t->segs[0].off==0&&t->size==t->extent) return std::string(b,n*t->size); std::vector<Seg> v; expand(t,n,v); for(auto&s:v) r.append(b+s.off,s.len); return r; }
static void unpack(char*b,long n,TP t,const std::string&d){ std::vector<Seg> v; expand(t,n,v); size_t p=0; for(auto&s:v){ if(p>=d.size()) break; size_t l=std::min<size_t>(s.len,d.size()-p); memmove(b+s.off,d.data()+p,l); p+=l; } }
template<class X> static void red(X*a,const X*b,long n,int op){ for(long i=0;i<n;i++) switch(op){ case MPI_SUM:a[i]=a[i]+b[i];break; case MPI_PROD:a[i]=a[i]*b[i];break; case MPI_REPLACE:a[i]=b[i];break; case MPI_NO_OP:break; default: MISUSE("reduction operator"); } }
template<class X> static void redr(X*a,const X*b,long n,int op){ for(long i=0;i<n;i++) switch(op){ case MPI_MAX:if(b[i]>a[i])a[i]=b[i];break; case MPI_MIN:if(b[i]<a[i])a[i]=b[i];break; case MPI_LAND:a[i]=a[i]&&b[i];break; case MPI_LOR:a[i]=a[i]||b[i];break; case MPI_LXOR:a[i]=(!a[i])!=(!b[i]);break; default: red(a+i,b+i,1,op); } }
template<class X> static void redi(X*a,const X*b,long n,int op){ for(long i=0;i<n;i++) switch(op){ case MPI_BAND:a[i]&=b[i];break; case MPI_BOR:a[i]|=b[i];break; case MPI_BXOR:a[i]^=b[i];break; default: redr(a+i,b+i,1,op); } }
template<class X> struct P2{ X v; int i; };
template<class X> static void redloc(P2<X>*a,const P2<X>*b,long n,int op){ for(long i=0;i<n;i++){ bool take = op==MPI_MAXLOC? (b[i].v>a[i].v||(b[i].v==a[i].v&&b[i].i<a[i].i)) : op==MPI_MINLOC?(b[i].v<a[i].v||(b[i].v==a[i].v&&b[i].i<a[i].i)) : op==MPI_REPLACE; if(take) a[i]=b[i]; } }
struct CF{ float r,i; CF operator+(CF o)const{return{r+o.r,i+o.i};} CF operator*(CF o)const{return{r*o.r-i*o.i,r*o.i+i*o.r};} };
struct CD{ double r,i; CD operator+(CD o)const{return{r+o.r,i+o.i};} CD operator*(CD o)const{return{r*o.r-i*o.i,r*o.i+i*o.r};} };
static void reduce(void*a,const void*b,long n,int base,int op){
  auto u=m->uops.find(op); if(u!=m->uops.end()){ int c=(int)n,t=base; u->second.first((void*)b,a,&c,&t); return; }
  switch(base){
    case MPI_CHAR:case MPI_SIGNED_CHAR: redi((signed char*)a,(const signed char*)b,n,op);break; case MPI_BYTE:case MPI_UNSIGNED_CHAR: redi((unsigned char*)a,(const unsigned char*)b,n,op);break;
    case MPI_SHORT: redi((short*)a,(const short*)b,n,op);break; case MPI_INT: redi((int*)a,(const int*)b,n,op);break; case MPI_UNSIGNED: redi((unsigned*)a,(const unsigned*)b,n,op);break;
    case MPI_LONG:case MPI_LONG_LONG: redi((long*)a,(const long*)b,n,op);break; case MPI_UNSIGNED_LONG: redi((unsigned long*)a,(const unsigned long*)b,n,op);break;
    case MPI_FLOAT: redr((float*)a,(const float*)b,n,op);break; case MPI_DOUBLE: redr((double*)a,(const double*)b,n,op);break; case MPI_LONG_DOUBLE: redr((long double*)a,(const long double*)b,n,op);break;
    case MPI_C_FLOAT_COMPLEX: red((CF*)a,(const CF*)b,n,op);break; case MPI_C_DOUBLE_COMPLEX: red((CD*)a,(const CD*)b,n,op);break;
    case MPI_DOUBLE_INT: redloc((P2<double>*)a,(const P2<double>*)b,n,op);break; case MPI_FLOAT_INT: redloc((P2<float>*)a,(const P2<float>*)b,n,op);break; case MPI_LONG_INT: redloc((P2<long>*)a,(const P2<long>*)b,n,op);break; case MPI_2INT: redloc((P2<int>*)a,(const P2<int>*)b,n,op);break;
    default: MISUSE("reduction datatype %d",base); } }
// ---- requests and matching
static Req* newreq(int kind){ Req*r=new Req; r->id=m->nextreq++; r->rank=me(); r->kind=kind; m->reqs[r->id]=r; return r; }
static Req* R(int h){ auto it=m->reqs.find(h); if(it==m->reqs.end()) MISUSE("wait or test on an invalid or already completed request"); if(it->second->rank!=me()) MISUSE("request of another process"); return it->second; }
static void finish_req(Req*r){ m->reqs.erase(r->id); delete r; }
static void capture(Msg*x){ if(x->captured) return; x->captured=true; if(x->buf||x->count==0){ x->data=pack(x->buf,x->count,x->t); } if(!x->rdv&&x->sreq){ x->sreq->done=true; x->sreq=nullptr; } }
static void complete_send(void*p){ ((Req*)p)->done=true; progress(); }
static bool matches(Msg*x,int src,int tag){ return (src==MPI_ANY_SOURCE||x->src==src)&&(tag==MPI_ANY_TAG||x->tag==tag); }
static void deliver(Msg*x,Req*r){
  capture(x);
  if(r->t && (long)x->data.size()>r->t->size*(long)r->count) MISUSE("message of %zu bytes truncated: the receive from process %d with tag %d has room for %ld bytes",x->data.size(),x->src,x->tag,r->t->size*(long)r->count);
  if(r->t) unpack(r->buf,r->count,r->t,x->data);
  r->st.MPI_SOURCE=idx(m->comms[x->ctx]->inter? (idx(m->comms[x->ctx]->h,x->dst)>=0?m->comms[x->ctx]->g:m->comms[x->ctx]->h):m->comms[x->ctx]->g,x->src); r->st.MPI_TAG=x->tag; r->st.MPI_ERROR=0; r->st._bytes=(long)x->data.size(); r->done=true;
  if(x->sreq) at(S.now+latency(),complete_send,x->sreq);
  trace("deliver to %d: %zu bytes from %d tag %d comm %d",x->dst,x->data.size(),x->src,x->tag,x->ctx); hash_ev(x->data.size()*3+x->src); delete x; progress(); }
static void arrive(void*p){
  Msg*x=(Msg*)p; x->arrived=true; if(!x->rdv) capture(x); progress(); m->inflight[{x->src,x->dst,x->ctx}]--;
  auto&q=m->posted[{x->dst,x->ctx}];
  for(auto it=q.begin();it!=q.end();++it) if(matches(x,(*it)->src,(*it)->tag)){ Req*r=*it; q.erase(it); deliver(x,r); return; }
  m->unexp[{x->dst,x->ctx}].push_back(x); }
static Msg* find_unexp(int dst,int ctx,int src,int tag,bool pick){
  auto&q=m->unexp[{dst,ctx}]; static std::vector<Msg*> c; c.clear();
  for(auto x:q) if(matches(x,src,tag)){ bool seen=false; for(auto y:c) if(y->src==x->src) seen=true; if(!seen){ c.push_back(x); if(src>=0) break; } }
  if(c.empty()) return nullptr; return c[c.size()>1&&pick?choose(c.size(),0):0]; }
static Req* send_common(const void*b,int n,int t,int dst,int tag,int comm,bool isend,bool sync){
  if(dst==MPI_PROC_NULL){ Req*r=newreq(1); r->done=true; return r; }
  CommObj*c=C(comm); const VI&g=rgroup(c); if(dst<0||dst>=(int)g.size()) MISUSE("send to rank %d of a communicator of size %zu",dst,g.size());
  if(n<0) MISUSE("send count %d",n); if(tag<0) MISUSE("send tag %d",tag);
  Msg*x=new Msg; x->src=me(); x->dst=g[dst]; x->ctx=c->id; x->tag=tag; x->t=TC(t); x->buf=(const char*)b; x->count=n; x->bytes=x->t->size*n;
  Req*r=newreq(1); x->rdv=sync||S.sc.syncsend||x->bytes>S.sc.eager; x->sreq=r;
  bool lazy=isend&&S.sc.lazyisend>0&&S.srng.chance(S.sc.lazyisend);
  if(!lazy&&!x->rdv) capture(x);
  count("msgs"); hash_ev(x->bytes*7+x->dst); trace("send %ld bytes to %d tag %d comm %d%s",x->bytes,x->dst,tag,c->id,x->rdv?" (rendezvous)":"");
  uint64_t&l=m->chan[{x->src,x->dst,x->ctx}]; uint64_t t0=S.now+latency(); if(t0<=l) t0=l+1; l=t0; m->inflight[{x->src,x->dst,x->ctx}]++;
  at(t0,arrive,x); return r; }
static Req* recv_common(void*b,int n,int t,int src,int tag,int comm){
  if(src==MPI_PROC_NULL){ Req*r=newreq(2); r->done=true; r->st={MPI_PROC_NULL,MPI_ANY_TAG,0,0}; return r; }
  CommObj*c=C(comm); const VI&g=rgroup(c); if(src!=MPI_ANY_SOURCE&&(src<0||src>=(int)g.size())) MISUSE("receive from rank %d of a communicator of size %zu",src,g.size());
  if(n<0) MISUSE("receive count %d",n);
  Req*r=newreq(2); r->buf=(char*)b; r->count=n; r->t=TC(t); r->src=src==MPI_ANY_SOURCE?src:g[src]; r->tag=tag; r->ctx=c->id;
  Msg*x=find_unexp(me(),c->id,r->src,tag,true);
  if(x){ auto&q=m->unexp[{me(),c->id}]; q.erase(std::find(q.begin(),q.end(),x)); deliver(x,r); } else m->posted[{me(),c->id}].push_back(r);
  return r; }
static bool req_done(void*p){ return ((Req*)p)->done; }
static bool req_testable(Req*r){ if(!r->done) return false; if(S.sc.test_false>0&&r->missed<3&&fault("test-miss",S.sc.test_false)){ r->missed++; return false; } return true; }
static void getst(MPI_Status*s,Req*r){ if(s)*s=r->st; }
// ---- collectives
static int cidx(CommObj*c){ return idx(c->all,me()); }
struct Vis { Coll*k; int i; };
static void vis_ev(void*p){ Vis*v=(Vis*)p; v->k->vis[v->i]=1; v->k->nvis++; progress(); delete v; }
static Coll* coll_enter(CommObj*c,const std::string&kind,std::string data,long a=0,long b=0){
  uint64_t s=c->seq[me()]++; Coll*&k=c->inst[s];
  if(!k){ k=new Coll; k->c=c; k->seq=s; k->kind=kind; k->n=(int)c->all.size(); k->in.resize(k->n); k->vis.resize(k->n); k->data.resize(k->n); k->a.resize(k->n); k->b.resize(k->n); }
  if(k->kind!=kind) MISUSE("processes of one communicator call different collectives or with different arguments: %s and %s",k->kind.c_str(),kind.c_str());
  int i=cidx(c); k->in[i]=1; k->data[i]=std::move(data); k->a[i]=a; k->b[i]=b; trace("enter %s on comm %d",kind.c_str(),c->id); count("collectives"); hash_ev(s*131+i);
  at(S.now+latency(),vis_ev,new Vis{k,i}); return k; }
static bool coll_all(void*p){ Coll*k=(Coll*)p; return k->nvis==k->n; }
static void coll_leave(Coll*k){ if(++k->left==k->n){ k->c->inst.erase(k->seq); /* leaked: visibility events may be pending */ } }
static void wait_all(Coll*k){ block_on(coll_all,k,k->kind.c_str()); }
struct OneW { Coll*k; int i; };
static bool coll_one(void*p){ auto*w=(OneW*)p; return w->k->vis[w->i]; }
void mpi_reset(){
  m=new M; fair_hook=mpi_fair; m->inside.assign(S.nproc,-1); CommObj*w=new CommObj; w->id=MPI_COMM_WORLD; for(int i=0;i<S.nproc;i++) w->g.push_back(i); w->all=w->g; m->comms[MPI_COMM_WORLD]=w; m->groups[MPI_GROUP_EMPTY]=VI(); }
static std::string K(const char*n,long a=0,long b=0,long c=0){ char s[96]; snprintf(s,sizeof s,"%s(%ld,%ld,%ld)",n,a,b,c); return s; }
extern "C" {
int sim_win_live(){ int n=0; for(auto&w:m->wins) if(w.second->freed.size()<w.second->c->all.size()) n++; return n; }
int sim_comm_live(){ int n=0; for(auto&c:m->comms) if(c.first>=10&&c.second->freed.size()<c.second->all.size()) n++; return n; }
int MPI_Init(int*,char***){ if(m->inited[me()]) MISUSE("MPI_Init called twice"); m->inited[me()]=1; m->level[me()]=0; sched_point(); return 0; }
int MPI_Init_thread(int*a,char***b,int req,int*p){ MPI_Init(a,b); m->level[me()]=req; if(p)*p=req; return 0; }
int MPI_Query_thread(int*p){ *p=m->level[me()]; return 0; }
int MPI_Initialized(int*f){ *f=m->inited[me()]; return 0; } int MPI_Finalized(int*f){ *f=m->finalized[me()]; return 0; }
int MPI_Finalize(){ enter(); m->finalized[me()]=1; return 0; }
int MPI_Abort(MPI_Comm,int code){ violation("abort","process %d calls MPI_Abort(%d)",me(),code); return 0; }
double MPI_Wtime(){ return S.now*1e-9; } double MPI_Wtick(){ return 1e-9; }
int MPI_Get_processor_name(char*b,int*n){ *n=snprintf(b,MPI_MAX_PROCESSOR_NAME,"node%d",S.nodeof[me()]); return 0; }
int MPI_Comm_rank(MPI_Comm c,int*r){ *r=idx(lgroup(C(c)),me()); return 0; }
int MPI_Comm_size(MPI_Comm c,int*n){ *n=(int)lgroup(C(c)).size(); return 0; }
int MPI_Comm_dup(MPI_Comm c0,MPI_Comm*o){ enter(); CommObj*c=C(c0); Coll*k=coll_enter(c,"Comm_dup",""); wait_all(k); int&id=k->made["x"]; if(!id){ id=newcomm(c->g); CommObj*n=m->comms[id]; n->h=c->h; n->inter=c->inter; n->all=c->all; } *o=id; coll_leave(k); return 0; }
int MPI_Comm_free(MPI_Comm*c0){ enter(); if(*c0<10) MISUSE("freeing a predefined communicator"); CommObj*c=C(*c0);
  if(!m->posted[{me(),c->id}].empty()||!m->unexp[{me(),c->id}].empty()) count("probe:comm freed with messages pending");
  c->freed.insert(me()); *c0=MPI_COMM_NULL; return 0; }
int MPI_Comm_group(MPI_Comm c,MPI_Group*g){ int id=m->nextgroup++; m->groups[id]=lgroup(C(c)); *g=id; return 0; }
static VI& G(int g){ auto it=m->groups.find(g); if(it==m->groups.end()) MISUSE("invalid group handle %d",g); return it->second; }
int MPI_Comm_create(MPI_Comm c0,MPI_Group g,MPI_Comm*o){ enter(); CommObj*c=C(c0); VI v=G(g); Coll*k=coll_enter(c,"Comm_create",""); wait_all(k); if(idx(v,me())<0){ *o=MPI_COMM_NULL; coll_leave(k); return 0; } std::string key; for(int x:v) key+=std::to_string(x)+","; int&id=k->made[key]; if(!id) id=newcomm(v); *o=id; coll_leave(k); return 0; }
int MPI_Comm_split(MPI_Comm c0,int color,int key,MPI_Comm*o){ enter(); CommObj*c=C(c0); Coll*k=coll_enter(c,"Comm_split","",color,key); wait_all(k);
  if(color==MPI_UNDEFINED){ *o=MPI_COMM_NULL; coll_leave(k); return 0; }
  std::vector<std::pair<long,int>> v; for(int i=0;i<k->n;i++) if(k->a[i]==color) v.push_back({k->b[i],i}); std::stable_sort(v.begin(),v.end()); VI g; for(auto&p:v) g.push_back(c->all[p.second]);
  int&id=k->made[std::to_string(color)]; if(!id) id=newcomm(g); *o=id; coll_leave(k); return 0; }
int MPI_Comm_compare(MPI_Comm a,MPI_Comm b,int*r){ *r= a==b?0:(C(a)->g==C(b)->g?1:3); return 0; }
struct Ic { Coll*k; }; 
static bool ic_pred(void*p){ Coll*k=(Coll*)p; return k->nvis==k->n && k->ext && ((Coll*)k->ext)->nvis==((Coll*)k->ext)->n; }
int MPI_Intercomm_create(MPI_Comm lc,int ll,MPI_Comm pc,int rl,int tag,MPI_Comm*o){ enter(); CommObj*c=C(lc); Coll*k=coll_enter(c,"Intercomm_create","",ll); 
  if(idx(c->g,me())==ll){ CommObj*p=C(pc); int a=me(),b=p->g.at(rl); std::string key=std::to_string(p->id)+":"+std::to_string(tag)+":"; std::string mine=key+std::to_string(a)+">"+std::to_string(b), other=key+std::to_string(b)+">"+std::to_string(a);
    auto&q=m->pairs[other]; if(!q.empty()){ Coll*x=q.front(); q.pop_front(); k->ext=x; x->ext=k; progress(); } else m->pairs[mine].push_back(k); }
  block_on(ic_pred,k,"Intercomm_create"); Coll*x=(Coll*)k->ext; int id=k->made["x"]; if(!id){ id=newcomm(k->c->g); CommObj*n=m->comms[id]; n->h=x->c->g; n->inter=true; n->all=n->g; n->all.insert(n->all.end(),n->h.begin(),n->h.end()); k->made["x"]=id; x->made["x"]=id; }
  *o=id; return 0; }
int MPI_Intercomm_merge(MPI_Comm ic,int high,MPI_Comm*o){ enter(); CommObj*c=C(ic); Coll*k=coll_enter(c,"Intercomm_merge","",high); wait_all(k); int&id=k->made["x"]; if(!id){ long hg=k->a[idx(c->all,c->g[0])], hh=k->a[idx(c->all,c->h[0])]; VI v; if(hg&&!hh){ v=c->h; v.insert(v.end(),c->g.begin(),c->g.end()); } else { v=c->g; v.insert(v.end(),c->h.begin(),c->h.end()); } id=newcomm(v); } *o=id; coll_leave(k); return 0; }
int MPI_Comm_set_errhandler(MPI_Comm,MPI_Errhandler){ return 0; } int MPI_Errhandler_set(MPI_Comm,MPI_Errhandler){ return 0; }
int MPI_Error_string(int,char*s,int*n){ *n=snprintf(s,32,"error"); return 0; } int MPI_Error_class(int e,int*c){ *c=e; return 0; }
MPI_Fint MPI_Comm_c2f(MPI_Comm c){ return c; } MPI_Comm MPI_Comm_f2c(MPI_Fint c){ return c; }
int MPI_Group_size(MPI_Group g,int*n){ *n=(int)G(g).size(); return 0; }
int MPI_Group_rank(MPI_Group g,int*r){ int i=idx(G(g),me()); *r=i<0?MPI_UNDEFINED:i; return 0; }
int MPI_Group_incl(MPI_Group g,int n,const int*r,MPI_Group*o){ VI&v=G(g); VI x; for(int i=0;i<n;i++){ if(r[i]<0||r[i]>=(int)v.size()) MISUSE("Group_incl rank %d of %zu",r[i],v.size()); x.push_back(v[r[i]]); } int id=m->nextgroup++; m->groups[id]=x; *o=id; return 0; }
int MPI_Group_excl(MPI_Group g,int n,const int*r,MPI_Group*o){ VI&v=G(g); VI x; for(int i=0;i<(int)v.size();i++){ bool ex=false; for(int j=0;j<n;j++) if(r[j]==i) ex=true; if(!ex) x.push_back(v[i]); } int id=m->nextgroup++; m->groups[id]=x; *o=id; return 0; }
int MPI_Group_free(MPI_Group*g){ if(*g!=MPI_GROUP_EMPTY){ G(*g); m->groups.erase(*g); } *g=MPI_GROUP_NULL; return 0; }
int MPI_Group_translate_ranks(MPI_Group a,int n,const int*r,MPI_Group b,int*o){ VI&x=G(a); VI&y=G(b); for(int i=0;i<n;i++){ if(r[i]==MPI_PROC_NULL){ o[i]=r[i]; continue; } if(r[i]<0||r[i]>=(int)x.size()) MISUSE("Group_translate_ranks: rank %d of a group of %zu",r[i],x.size()); int k=idx(y,x[r[i]]); o[i]=k<0?MPI_UNDEFINED:k; } return 0; }
// point to point
int MPI_Wait(MPI_Request*h,MPI_Status*s){ enter(); if(*h==MPI_REQUEST_NULL) return 0; Req*r=R(*h); trace("wait request %d (kind %d%s)",r->id,r->kind,r->done?", done":""); block_on(req_done,r,r->kind==1?"send":r->kind==2?"receive":"one-sided request"); getst(s,r); finish_req(r); *h=MPI_REQUEST_NULL; return 0; }
int MPI_Send(const void*b,int n,MPI_Datatype t,int d,int tag,MPI_Comm c){ enter(); Req*r=send_common(b,n,t,d,tag,c,false,false); int h=r->id; return MPI_Wait(&h,nullptr); }
int MPI_Ssend(const void*b,int n,MPI_Datatype t,int d,int tag,MPI_Comm c){ enter(); Req*r=send_common(b,n,t,d,tag,c,false,true); int h=r->id; return MPI_Wait(&h,nullptr); }
int MPI_Recv(void*b,int n,MPI_Datatype t,int s,int tag,MPI_Comm c,MPI_Status*st){ enter(); Req*r=recv_common(b,n,t,s,tag,c); int h=r->id; return MPI_Wait(&h,st); }
int MPI_Isend(const void*b,int n,MPI_Datatype t,int d,int tag,MPI_Comm c,MPI_Request*h){ enter(); *h=send_common(b,n,t,d,tag,c,true,false)->id; return 0; }
int MPI_Issend(const void*b,int n,MPI_Datatype t,int d,int tag,MPI_Comm c,MPI_Request*h){ enter(); *h=send_common(b,n,t,d,tag,c,true,true)->id; return 0; }
int MPI_Irecv(void*b,int n,MPI_Datatype t,int s,int tag,MPI_Comm c,MPI_Request*h){ enter(); *h=recv_common(b,n,t,s,tag,c)->id; return 0; }
int MPI_Sendrecv(const void*sb,int sn,MPI_Datatype st,int d,int stag,void*rb,int rn,MPI_Datatype rt,int s,int rtag,MPI_Comm c,MPI_Status*stt){ enter(); int a=recv_common(rb,rn,rt,s,rtag,c)->id,b=send_common(sb,sn,st,d,stag,c,true,false)->id; MPI_Wait(&b,nullptr); return MPI_Wait(&a,stt); }
int MPI_Test(MPI_Request*h,int*f,MPI_Status*s){ enter(); if(*h==MPI_REQUEST_NULL){ *f=1; return 0; } Req*r=R(*h); bool was=r->done; if(req_testable(r)){ *f=1; getst(s,r); finish_req(r); *h=MPI_REQUEST_NULL; } else { *f=0; if(!was) poll_failed(); } return 0; }
int MPI_Waitall(int n,MPI_Request*h,MPI_Status*s){ for(int i=0;i<n;i++) MPI_Wait(h+i,s?s+i:nullptr); return 0; }
struct AnyW { int n; MPI_Request*h; };
static bool any_pred(void*p){ AnyW*w=(AnyW*)p; for(int i=0;i<w->n;i++) if(w->h[i]!=MPI_REQUEST_NULL){ auto it=m->reqs.find(w->h[i]); if(it!=m->reqs.end()&&it->second->done) return true; } return false; }
int MPI_Waitany(int n,MPI_Request*h,int*ix,MPI_Status*s){ enter(); bool some=false; for(int i=0;i<n;i++) if(h[i]!=MPI_REQUEST_NULL) some=true; if(!some){ *ix=MPI_UNDEFINED; return 0; } AnyW w{n,h}; block_on(any_pred,&w,"any request"); VI c; for(int i=0;i<n;i++) if(h[i]!=MPI_REQUEST_NULL&&R(h[i])->done) c.push_back(i); *ix=c[choose(c.size(),0)]; Req*r=R(h[*ix]); getst(s,r); finish_req(r); h[*ix]=MPI_REQUEST_NULL; return 0; }
int MPI_Testall(int n,MPI_Request*h,int*f,MPI_Status*s){ enter(); for(int i=0;i<n;i++) if(h[i]!=MPI_REQUEST_NULL&&!R(h[i])->done){ *f=0; poll_failed(); return 0; } *f=1; for(int i=0;i<n;i++) if(h[i]!=MPI_REQUEST_NULL){ Req*r=R(h[i]); if(s) s[i]=r->st; finish_req(r); h[i]=MPI_REQUEST_NULL; } return 0; }
int MPI_Testany(int n,MPI_Request*h,int*ix,int*f,MPI_Status*s){ enter(); *f=0; bool some=false; for(int i=0;i<n;i++) if(h[i]!=MPI_REQUEST_NULL){ some=true; Req*r=R(h[i]); if(r->done){ *f=1; *ix=i; getst(s,r); finish_req(r); h[i]=MPI_REQUEST_NULL; return 0; } } if(!some){ *f=1; *ix=MPI_UNDEFINED; } else poll_failed(); return 0; }
int MPI_Request_free(MPI_Request*h){ R(*h)->freed=true; *h=MPI_REQUEST_NULL; return 0; }
int MPI_Cancel(MPI_Request*h){ Req*r=R(*h); auto&q=m->posted[{me(),r->ctx}]; auto it=std::find(q.begin(),q.end(),r); if(it!=q.end()){ q.erase(it); r->done=true; } return 0; }
int MPI_Iprobe(int src,int tag,MPI_Comm c0,int*f,MPI_Status*s){ enter(); CommObj*c=C(c0); const VI&g=rgroup(c); int ws=src==MPI_ANY_SOURCE?src:g.at(src); 
  Msg*x=find_unexp(me(),c->id,ws,tag,true); if(!x){ *f=0; poll_failed(); return 0; }
  if(fault("iprobe-miss",S.sc.iprobe_false)){ *f=0; return 0; }
  *f=1; if(s){ s->MPI_SOURCE=idx(g,x->src); s->MPI_TAG=x->tag; s->MPI_ERROR=0; s->_bytes=x->bytes; } return 0; }
struct PrW { int ctx,src,tag,dst; };
static bool pr_pred(void*p){ PrW*w=(PrW*)p; return find_unexp(w->dst,w->ctx,w->src,w->tag,false)!=nullptr; }
int MPI_Probe(int src,int tag,MPI_Comm c0,MPI_Status*s){ enter(); CommObj*c=C(c0); const VI&g=rgroup(c); int ws=src==MPI_ANY_SOURCE?src:g.at(src); PrW w{c->id,ws,tag,me()}; block_on(pr_pred,&w,"probe"); Msg*x=find_unexp(me(),c->id,ws,tag,true); if(s){ s->MPI_SOURCE=idx(g,x->src); s->MPI_TAG=x->tag; s->MPI_ERROR=0; s->_bytes=x->bytes; } return 0; }
int MPI_Get_count(const MPI_Status*s,MPI_Datatype t,int*n){ TP p=T(t); *n= p->size? (s->_bytes%p->size?MPI_UNDEFINED:(int)(s->_bytes/p->size)):0; return 0; }
// collectives
int MPI_Barrier(MPI_Comm c0){ enter(); Coll*k=coll_enter(C(c0),"Barrier",""); wait_all(k); coll_leave(k); return 0; }
int MPI_Bcast(void*b,int n,MPI_Datatype t,int root,MPI_Comm c0){ enter(); CommObj*c=C(c0); TP p=TC(t); int i=cidx(c); if(root<0||root>=(int)c->all.size()) MISUSE("Bcast root %d",root);
  Coll*k=coll_enter(c,K("Bcast",p->size*n,root),i==root?pack((char*)b,n,p):std::string());
  if(i!=root){ OneW w{k,root}; block_on(coll_one,&w,"Bcast"); unpack((char*)b,n,p,k->data[root]); if(S.sc.collsync) wait_all(k); } else if(S.sc.collsync) wait_all(k);
  coll_leave(k); return 0; }
static void do_reduce(Coll*k,void*o,int n,TP p,int op){ std::string r=k->data[0]; long ne=p->size? (long)r.size()/basesz(p->base):0; for(int i=1;i<k->n;i++) reduce(&r[0],k->data[i].data(),ne,p->base,op); unpack((char*)o,n,p,r); }
int MPI_Reduce(const void*b,void*o,int n,MPI_Datatype t,MPI_Op op,int root,MPI_Comm c0){ enter(); CommObj*c=C(c0); TP p=TC(t); int i=cidx(c); const void*src=b==MPI_IN_PLACE?o:b; Coll*k=coll_enter(c,K("Reduce",p->size*n,op,root),pack((const char*)src,n,p)); if(i==root){ wait_all(k); do_reduce(k,o,n,p,op); } else if(S.sc.collsync) wait_all(k); coll_leave(k); return 0; }
int MPI_Allreduce(const void*b,void*o,int n,MPI_Datatype t,MPI_Op op,MPI_Comm c0){ enter(); CommObj*c=C(c0); TP p=TC(t); const void*src=b==MPI_IN_PLACE?o:b; if(b==o&&n>0) count("probe:Allreduce with aliased buffers"); Coll*k=coll_enter(c,K("Allreduce",p->size*n,op),pack((const char*)src,n,p)); wait_all(k); do_reduce(k,o,n,p,op); coll_leave(k); return 0; }
int MPI_Allgather(const void*b,int n,MPI_Datatype t,void*o,int rn,MPI_Datatype rt,MPI_Comm c0){ enter(); CommObj*c=C(c0); TP rp=TC(rt); int i=cidx(c); std::string d= b==MPI_IN_PLACE? pack((char*)o+(long)i*rn*rp->extent,rn,rp): pack((const char*)b,n,TC(t)); if((long)d.size()!=rp->size*rn) MISUSE("Allgather sizes differ: %zu sent, %ld received",d.size(),rp->size*rn); Coll*k=coll_enter(c,K("Allgather",(long)d.size()),d); wait_all(k); for(int j=0;j<k->n;j++) unpack((char*)o+(long)j*rn*rp->extent,rn,rp,k->data[j]); coll_leave(k); return 0; }
int MPI_Gather(const void*b,int n,MPI_Datatype t,void*o,int rn,MPI_Datatype rt,int root,MPI_Comm c0){ enter(); CommObj*c=C(c0); int i=cidx(c); std::string d=pack((const char*)b,n,TC(t)); Coll*k=coll_enter(c,K("Gather",(long)d.size(),root),d); if(i==root){ TP rp=TC(rt); wait_all(k); for(int j=0;j<k->n;j++) unpack((char*)o+(long)j*rn*rp->extent,rn,rp,k->data[j]); } coll_leave(k); return 0; }
int MPI_Alltoall(const void*b,int n,MPI_Datatype t,void*o,int rn,MPI_Datatype rt,MPI_Comm c0){ enter(); CommObj*c=C(c0); int i=cidx(c),sz=(int)c->all.size(); TP p=TC(t),rp=TC(rt); std::string d; for(int j=0;j<sz;j++) d+=pack((const char*)b+(long)j*n*p->extent,n,p); Coll*k=coll_enter(c,K("Alltoall",(long)d.size()),d); wait_all(k); long bl=p->size*n; for(int j=0;j<sz;j++) unpack((char*)o+(long)j*rn*rp->extent,rn,rp,k->data[j].substr(i*bl,bl)); coll_leave(k); return 0; }
int MPI_Op_create(MPI_User_function*f,int com,MPI_Op*o){ int id=m->nextop++; m->uops[id]={f,com}; *o=id; return 0; } int MPI_Op_free(MPI_Op*o){ *o=0; return 0; }
// datatypes
int MPI_Type_size(MPI_Datatype t,int*n){ *n=(int)T(t)->size; return 0; }
int MPI_Type_commit(MPI_Datatype*t){ T(*t)->committed=true; return 0; }
int MPI_Type_free(MPI_Datatype*t){ if(*t<100) MISUSE("freeing a predefined datatype"); T(*t); m->types.erase(*t); *t=0; return 0; }
int MPI_Type_contiguous(int n,MPI_Datatype t,MPI_Datatype*o){ TP b=T(t); auto p=std::make_shared<Type>(); p->base=b->base; expand(b,n,p->segs); p->extent=n*b->extent; *o=regtype(p); return 0; }
int MPI_Type_create_hvector(int n,int bl,MPI_Aint st,MPI_Datatype t,MPI_Datatype*o){ TP b=T(t); auto p=std::make_shared<Type>(); p->base=b->base; for(int i=0;i<n;i++) for(int j=0;j<bl;j++) for(auto&s:b->segs) addseg(p->segs,i*st+j*b->extent+s.off,s.len); p->extent=n>0?(n-1)*st+bl*b->extent:0; *o=regtype(p); return 0; }
int MPI_Type_vector(int n,int bl,int st,MPI_Datatype t,MPI_Datatype*o){ return MPI_Type_create_hvector(n,bl,st*T(t)->extent,t,o); }
int MPI_Type_create_hindexed(int n,const int*bl,const MPI_Aint*d,MPI_Datatype t,MPI_Datatype*o){ TP b=T(t); auto p=std::make_shared<Type>(); p->base=b->base; for(int i=0;i<n;i++) for(int j=0;j<bl[i];j++) for(auto&s:b->segs) addseg(p->segs,d[i]+j*b->extent+s.off,s.len); *o=regtype(p); return 0; }
int MPI_Type_indexed(int n,const int*bl,const int*d,MPI_Datatype t,MPI_Datatype*o){ std::vector<MPI_Aint> v; for(int i=0;i<n;i++) v.push_back(d[i]*T(t)->extent); return MPI_Type_create_hindexed(n,bl,v.data(),t,o); }
int MPI_Type_create_struct(int n,const int*bl,const MPI_Aint*d,const MPI_Datatype*t,MPI_Datatype*o){ auto p=std::make_shared<Type>(); for(int i=0;i<n;i++){ TP b=T(t[i]); p->base=b->base; for(int j=0;j<bl[i];j++) for(auto&s:b->segs) addseg(p->segs,d[i]+j*b->extent+s.off,s.len); } *o=regtype(p); return 0; }
int MPI_Type_struct(int n,int*bl,MPI_Aint*d,MPI_Datatype*t,MPI_Datatype*o){ return MPI_Type_create_struct(n,bl,d,t,o); }
int MPI_Type_create_subarray(int nd,const int*sz,const int*sub,const int*st,int order,MPI_Datatype t,MPI_Datatype*o){
  TP b=T(t); auto p=std::make_shared<Type>(); p->base=b->base; std::vector<int> s(sz,sz+nd),u(sub,sub+nd),o0(st,st+nd); if(order==MPI_ORDER_FORTRAN){ std::reverse(s.begin(),s.end()); std::reverse(u.begin(),u.end()); std::reverse(o0.begin(),o0.end()); }
  long tot=1; for(int i=0;i<nd;i++){ if(u[i]<1||o0[i]<0||o0[i]+u[i]>s[i]) MISUSE("Type_create_subarray: size %d subsize %d start %d",s[i],u[i],o0[i]); tot*=s[i]; }
  std::vector<int> ix(nd,0); for(;;){ long off=0; for(int i=0;i<nd;i++) off=off*s[i]+o0[i]+ix[i]; for(int j=0;j<u[nd-1];j++) for(auto&q:b->segs) addseg(p->segs,(off+j)*b->extent+q.off,q.len); int d=nd-2; while(d>=0&&++ix[d]>=u[d]) ix[d--]=0; if(d<0) break; }
  p->extent=tot*b->extent; *o=regtype(p); return 0; }
int MPI_Get_address(const void*p,MPI_Aint*a){ *a=(MPI_Aint)p; return 0; }
// memory and windows
void* __wrap_malloc(size_t); void __wrap_free(void*); void* sim_mem_alloc(size_t);
int MPI_Alloc_mem(MPI_Aint n,MPI_Info,void*p){ void*q=sim_mem_alloc(n>0?n:1); if(!q) return MPI_ERR_NO_MEM; *(void**)p=q; return 0; }
int MPI_Free_mem(void*p){ __wrap_free(p); return 0; }
static int win_make(void*base,MPI_Aint size,int disp,CommObj*c,MPI_Win*o,bool alloc){
  std::string d; d.append((char*)&base,8); Coll*k=coll_enter(c,"Win_create",d,(long)size,disp); wait_all(k);
  int&id=k->made["x"]; if(!id){ Win*w=new Win; w->id=id=m->nextwin++; w->c=c; w->alloc=alloc; for(int i=0;i<k->n;i++){ char*p; memcpy(&p,k->data[i].data(),8); w->base.push_back(p); w->size.push_back(k->a[i]); w->disp.push_back((int)k->b[i]); } w->lk.resize(k->n); w->fenced.resize(k->n); m->wins[id]=w; }
  *o=id; coll_leave(k); return 0; }
int MPI_Win_create(void*b,MPI_Aint n,int d,MPI_Info,MPI_Comm c,MPI_Win*w){ enter(); return win_make(b,n,d,C(c),w,false); }
int MPI_Win_allocate(MPI_Aint n,int d,MPI_Info,MPI_Comm c,void*p,MPI_Win*w){ enter(); void*q=sim_mem_alloc(n>0?n:1); if(!q) return MPI_ERR_NO_MEM; *(void**)p=q; return win_make(q,n,d,C(c),w,true); }
static Win* W(int h){ auto it=m->wins.find(h); if(it==m->wins.end()) MISUSE("invalid window handle"); Win*w=it->second; if(w->freed.count(me())) MISUSE("window used after it was freed"); return w; }
static int wi(Win*w){ return idx(w->c->all,me()); }
struct PendW { Win*w; int o,t; bool local; };
static bool pend_pred(void*p){ PendW*x=(PendW*)p; auto&mp=x->local?x->w->pendlocal:x->w->pend; if(x->t>=0){ auto it=mp.find({x->o,x->t}); return it==mp.end()||it->second==0; } for(auto&e:mp) if(e.first.first==x->o&&e.second) return false; return true; }
static void flush(Win*w,int t,bool local){ PendW p{w,wi(w),t,local}; block_on(pend_pred,&p,"window flush"); }
int MPI_Win_free(MPI_Win*h){ enter(); Win*w=W(*h); int i=wi(w); flush(w,-1,false); Coll*k=coll_enter(w->c,"Win_free",""); wait_all(k); coll_leave(k); w->freed.insert(me()); if(w->alloc) __wrap_free(w->base[i]); *h=MPI_WIN_NULL; return 0; }
struct LkW { Win*w; int t,o; bool ex; };
static bool lk_pred(void*p){ LkW*x=(LkW*)p; auto&l=x->w->lk[x->t]; return x->ex? (l.excl<0&&l.shared.empty()) : l.excl<0; }
int MPI_Win_lock(int type,int t,int,MPI_Win h){ enter(); Win*w=W(h); int o=wi(w); if(t<0||t>=(int)w->lk.size()) MISUSE("Win_lock target %d",t); if(w->held.count({o,t})||w->lockall.count(o)) MISUSE("window target locked twice by one process"); LkW x{w,t,o,type==MPI_LOCK_EXCLUSIVE}; block_on(lk_pred,&x,"window lock"); if(x.ex) w->lk[t].excl=o; else w->lk[t].shared.insert(o); w->held[{o,t}]=type; return 0; }
int MPI_Win_unlock(int t,MPI_Win h){ enter(); Win*w=W(h); int o=wi(w); if(!w->held.count({o,t})) MISUSE("unlock of a window target that is not locked"); flush(w,t,false); if(w->held[{o,t}]==MPI_LOCK_EXCLUSIVE) w->lk[t].excl=-1; else w->lk[t].shared.erase(o); w->held.erase({o,t}); progress(); return 0; }
int MPI_Win_lock_all(int,MPI_Win h){ enter(); Win*w=W(h); w->lockall.insert(wi(w)); return 0; }
int MPI_Win_unlock_all(MPI_Win h){ enter(); Win*w=W(h); flush(w,-1,false); w->lockall.erase(wi(w)); return 0; }
int MPI_Win_flush(int t,MPI_Win h){ enter(); flush(W(h),t,false); return 0; } int MPI_Win_flush_all(MPI_Win h){ enter(); flush(W(h),-1,false); return 0; }
int MPI_Win_flush_local(int t,MPI_Win h){ enter(); flush(W(h),t,true); return 0; } int MPI_Win_flush_local_all(MPI_Win h){ enter(); flush(W(h),-1,true); return 0; }
int MPI_Win_fence(int,MPI_Win h){ enter(); Win*w=W(h); flush(w,-1,false); Coll*k=coll_enter(w->c,"Win_fence",""); wait_all(k); coll_leave(k); w->fenced[wi(w)]=1; return 0; }
int MPI_Win_sync(MPI_Win h){ enter(); W(h); return 0; }
int MPI_Win_get_group(MPI_Win h,MPI_Group*g){ Win*w=W(h); int id=m->nextgroup++; m->groups[id]=w->c->all; *g=id; return 0; }
struct Rma { int kind; Win*w; int o,t; std::vector<Seg> os,ts; char*ob; char*tb; int base,op; Req*r; std::string data; long bytes; char*res; int nev; bool islocal; };
// 1 put, 2 get, 3 acc, 4 fetch_and_op / get_accumulate
static void rma_apply_range(Rma*x,long lo,long hi){ // bytes [lo,hi) of the packed stream
  long p=0; for(auto&s:x->ts){ long a=std::max(lo,p),b=std::min(hi,p+s.len); if(a<b){ char*t=x->tb+s.off+(a-p); switch(x->kind){ case 1: memcpy(t,x->data.data()+a,b-a); break; case 2: memcpy(&x->data[a],t,b-a); break; case 3: { long bs=basesz(x->base); reduce(t,x->data.data()+a,(b-a)/bs,x->base,x->op); break; } } } p+=s.len; if(p>=hi) break; } }
static void rma_local(Rma*x){ if(!x->islocal) return; x->islocal=false; x->w->pendlocal[{x->o,x->t}]--; if(x->r) x->r->done=true; progress(); }
struct RmaEv { Rma*x; int what; long lo,hi; };
static void rma_ev(void*p){ RmaEv*e=(RmaEv*)p; Rma*x=e->x; progress();
  switch(e->what){
    case 0: { x->data.clear(); for(auto&s:x->os) x->data.append(x->ob+s.off,s.len); rma_local(x); break; }
    case 1: rma_apply_range(x,e->lo,e->hi); break;
    case 2: { // get returns
      long q=0; for(auto&s:x->os){ memcpy(x->ob+s.off,x->data.data()+q,s.len); q+=s.len; } rma_local(x); x->w->pend[{x->o,x->t}]--; delete x; break; }
    case 3: x->w->pend[{x->o,x->t}]--; delete x; break;
    case 4: { std::string old(x->tb,x->bytes); reduce(x->tb,x->data.data(),x->bytes/basesz(x->base),x->base,x->op); x->data=old; break; }
    case 5: { memcpy(x->res,x->data.data(),x->bytes); rma_local(x); x->w->pend[{x->o,x->t}]--; delete x; break; }
  } delete e; }
static void rma(int kind,void*ob,int on,int ot,int t,MPI_Aint disp,int tn,int tt,int op,int win,Req*r,void*res=nullptr){
  Win*w=W(win); int o=wi(w); if(t==MPI_PROC_NULL){ if(r) r->done=true; return; }
  if(t<0||t>=(int)w->base.size()) MISUSE("one-sided target rank %d of %zu",t,w->base.size());
  if(!w->held.count({o,t})&&!w->lockall.count(o)&&!w->fenced[o]) MISUSE("one-sided operation outside an access epoch");
  Rma*x=new Rma; x->kind=kind; x->w=w; x->o=o; x->t=t; x->r=r; x->op=op; x->res=(char*)res; x->islocal=true; TP tp=TC(tt); x->base=tp->base; expand(tp,tn,x->ts); x->tb=w->base[t]+disp*w->disp[t]; x->ob=(char*)ob;
  if(kind!=4) expand(TC(ot),on,x->os); long ob_=0,tb_=0; for(auto&s:x->os) ob_+=s.len; for(auto&s:x->ts){ tb_+=s.len; long e=disp*w->disp[t]+s.off+s.len; if(disp*w->disp[t]+s.off<0||e>w->size[t]) MISUSE("one-sided access to bytes [%ld,%ld) of a window of %ld bytes",disp*w->disp[t]+s.off,e,w->size[t]); }
  if(kind!=4&&ob_!=tb_) MISUSE("one-sided transfer of %ld bytes into %ld bytes",ob_,tb_); x->bytes=tb_; trace("one-sided %s to %d, %ld bytes, request %d",kind==1?"put":kind==2?"get":kind==3?"accumulate":"fetch-op",t,tb_,r?r->id:0); count("rma"); hash_ev(tb_*5+t);
  w->pend[{o,t}]++; w->pendlocal[{o,t}]++;
  uint64_t now=S.now; uint64_t&l=w->last[{o,t}];
  auto push=[&](uint64_t tm,int what,long lo=0,long hi=0){ at(tm,rma_ev,new RmaEv{x,what,lo,hi}); };
  uint64_t tcap=now+ (S.sc.lazyisend>0?latency()/2:0); uint64_t tap=tcap+latency(); if(S.sc.rma_ordered&&tap<=l) tap=l+1;
  if(kind==4){ x->data.assign((char*)ob?(char*)ob:(char*)"\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0",ob?tb_:16); if(!ob) x->data.resize(tb_); push(tap,4); push(tap+latency(),5); if(tap>l) l=tap; return; }
  int nch=1; if(x->bytes>64) nch=1+(int)choose(3,0); long step=((x->bytes/nch)+63)&~63L; if(step<1) step=x->bytes>0?x->bytes:1;
  if(kind==2) x->data.resize(x->bytes); else { if(tcap==now){ for(auto&s:x->os) x->data.append(x->ob+s.off,s.len); rma_local(x);} else push(tcap,0); }
  uint64_t tm=tap; for(long lo=0;lo<x->bytes;lo+=step){ push(tm,1,lo,std::min(lo+step,x->bytes)); if(lo+step<x->bytes) tm+=1+latency()/4; }
  if(tm>l) l=tm;
  push(tm+latency(),kind==2?2:3); }
int MPI_Put(const void*b,int n,MPI_Datatype t,int r,MPI_Aint d,int tn,MPI_Datatype tt,MPI_Win w){ enter(); rma(1,(void*)b,n,t,r,d,tn,tt,0,w,nullptr); return 0; }
int MPI_Get(void*b,int n,MPI_Datatype t,int r,MPI_Aint d,int tn,MPI_Datatype tt,MPI_Win w){ enter(); rma(2,b,n,t,r,d,tn,tt,0,w,nullptr); return 0; }
int MPI_Accumulate(const void*b,int n,MPI_Datatype t,int r,MPI_Aint d,int tn,MPI_Datatype tt,MPI_Op op,MPI_Win w){ enter(); rma(3,(void*)b,n,t,r,d,tn,tt,op,w,nullptr); return 0; }
int MPI_Rput(const void*b,int n,MPI_Datatype t,int r,MPI_Aint d,int tn,MPI_Datatype tt,MPI_Win w,MPI_Request*h){ enter(); Req*q=newreq(3); *h=q->id; rma(1,(void*)b,n,t,r,d,tn,tt,0,w,q); return 0; }
int MPI_Rget(void*b,int n,MPI_Datatype t,int r,MPI_Aint d,int tn,MPI_Datatype tt,MPI_Win w,MPI_Request*h){ enter(); Req*q=newreq(3); *h=q->id; rma(2,b,n,t,r,d,tn,tt,0,w,q); return 0; }
int MPI_Raccumulate(const void*b,int n,MPI_Datatype t,int r,MPI_Aint d,int tn,MPI_Datatype tt,MPI_Op op,MPI_Win w,MPI_Request*h){ enter(); Req*q=newreq(3); *h=q->id; rma(3,(void*)b,n,t,r,d,tn,tt,op,w,q); return 0; }
int MPI_Fetch_and_op(const void*b,void*res,MPI_Datatype t,int r,MPI_Aint d,MPI_Op op,MPI_Win w){ enter(); rma(4,(void*)b,0,t,r,d,1,t,op,w,nullptr,res); return 0; }
int MPI_Get_accumulate(const void*b,int n,MPI_Datatype t,void*res,int rn,MPI_Datatype rt,int r,MPI_Aint d,int tn,MPI_Datatype tt,MPI_Op op,MPI_Win w){ enter(); rma(4,(void*)b,n,t,r,d,tn,tt,op,w,nullptr,res); return 0; }
int MPI_Compare_and_swap(const void*,const void*,void*,MPI_Datatype,int,MPI_Aint,MPI_Win){ sim_error("Compare_and_swap not modelled"); return 0; }
}
