// C26: the MA allocator: heap and stack blocks of every process interleaved with library operations that
// take their scratch memory from the same arena, under memory pressure and failing system allocations.
#include "coll.h"
extern "C" {
#include "macdecls.h"
}
struct MBlk { Integer h; char*p; long n,bytes; int dt; bool st; unsigned char pat; };
struct MX { Program*p; int me,np; Rng r; std::vector<MBlk> b; std::vector<Integer> dead; long cap[17][3]; int g; ArrSpec*s; int align,maxal; MX():r(1),g(0),s(0),align(0),maxal(1){} };
static const int NT=MT_LAST-MT_FIRST+1;
static long esz(int dt){ return MA_sizeof(dt,1,MT_C_CHAR); }
static void mfill(MBlk&b){ if(b.bytes) memset(b.p,b.pat,b.bytes); }
static void mcheck(MX&x,const char*when){ for(auto&b:x.b) for(long i=0;i<b.bytes;i++) if((unsigned char)b.p[i]!=b.pat) sim_fail("corrupted","%s: byte %ld of %ld of a live %s block was changed",when,i,b.bytes,b.st?"stack":"heap");
  for(auto&b:x.b){ char*q=0; MA_AccessIndex ix=0; if(!MA_get_pointer(b.h,&q)||q!=b.p) sim_fail("wrong-pointer","%s: a live %s block is no longer found at its address",when,b.st?"stack":"heap"); if(!MA_get_index(b.h,&ix)||(char*)MA_get_mbase(b.dt)+(long)ix*esz(b.dt)!=b.p) sim_fail("wrong-pointer","%s: index %ld of a block does not lead to its address",when,(long)ix); }
  if(!MA_verify_allocator_stuff()) sim_fail("corrupted","%s: the allocator reports damaged blocks",when); sim_count("blocks verified",(long)x.b.size()); }
struct Inq { long v[7]; bool operator!=(const Inq&o)const{ for(int i=0;i<7;i++) if(v[i]!=o.v[i]) return true; return false; } };
static Inq inq(int dt){ Inq q; q.v[0]=MA_inquire_avail(dt); q.v[1]=MA_inquire_heap(dt); q.v[2]=MA_inquire_heap_check_stack(dt); q.v[3]=MA_inquire_heap_no_partition(dt); q.v[4]=MA_inquire_stack(dt); q.v[5]=MA_inquire_stack_check_heap(dt); q.v[6]=MA_inquire_stack_no_partition(dt); return q; }
static const char*inames[]={"MA_inquire_avail","MA_inquire_heap","MA_inquire_heap_check_stack","MA_inquire_heap_no_partition","MA_inquire_stack","MA_inquire_stack_check_heap","MA_inquire_stack_no_partition"};
static void inq_ok(MX&x,int dt){ Inq q=inq(dt); for(int i=0;i<7;i++) if(q.v[i]<0||q.v[i]>x.cap[dt-MT_FIRST][2]) sim_fail("wrong-inquiry","%s returned %ld, the arena holds %ld elements",inames[i],q.v[i],x.cap[dt-MT_FIRST][2]);
  long used=0; for(auto&b:x.b) if(b.st) used+=b.bytes; long room=std::max(0L,x.cap[dt-MT_FIRST][1]-used/esz(dt));
  if(q.v[0]!=q.v[6]) sim_fail("wrong-inquiry","MA_inquire_avail returned %ld, MA_inquire_stack_no_partition %ld",q.v[0],q.v[6]);
  for(int i:{1,2}){ if(q.v[i]>x.cap[dt-MT_FIRST][0]) sim_fail("wrong-inquiry","%s returned %ld, the heap side of the partition holds %ld",inames[i],q.v[i],x.cap[dt-MT_FIRST][0]); }
  for(int i:{4,5}) if(q.v[i]>room) sim_fail("wrong-inquiry","%s returned %ld, the stack side of the partition has room for at most %ld",inames[i],q.v[i],room);
  if(q.v[2]>q.v[3]||q.v[0]>q.v[3]||q.v[2]>q.v[1]) sim_fail("wrong-inquiry","heap inquiries %ld (partition) %ld (partition and stack) %ld (no partition), %ld available",q.v[1],q.v[2],q.v[3],q.v[0]);
  if(q.v[5]>q.v[0]||q.v[5]>q.v[4]) sim_fail("wrong-inquiry","stack inquiries %ld (partition) %ld (partition and heap), %ld available",q.v[4],q.v[5],q.v[0]); }
// the space between two neighbouring live heap blocks is free and must be available as one piece
static void gaps(MX&x){ std::vector<const MBlk*> h; for(auto&b:x.b) if(!b.st) h.push_back(&b); std::sort(h.begin(),h.end(),[](const MBlk*a,const MBlk*b){ return a->p<b->p||(a->p==b->p&&a->bytes<b->bytes); }); long best=0; for(size_t i=0;i+1<h.size();i++) best=std::max(best,(long)(h[i+1]->p-(h[i]->p+h[i]->bytes))); best-=700+2*x.maxal; if(best>0){ sim_count("gaps checked",1); long v=MA_inquire_heap_no_partition(MT_C_CHAR); if(v<best) sim_fail("lost-space","%ld bytes between two live heap blocks are free, the largest block available has %ld",best,v); } }
static void born(MX&x,Integer h,int dt,long n,bool st,char*p){ long es=esz(dt); MBlk b; b.h=h; b.n=n; b.bytes=n*es; b.dt=dt; b.st=st; b.p=p; b.pat=(unsigned char)(1+x.r.below(254));
  if(((char*)p-(char*)MA_get_mbase(dt))%es) sim_fail("misaligned","a block of %ld elements of %ld bytes is not a whole number of elements from its base",n,es);
  if((size_t)MA_get_mbase(dt)%es==0&&(size_t)p%(1ul<<x.align)) sim_fail("misaligned","a block is at %p although alignment to %ld bytes was asked for",p,1l<<x.align);
  for(auto&o:x.b){ if(o.h==h) sim_fail("duplicate-handle","a new block got the handle of a live one"); if(b.bytes&&o.bytes&&p<o.p+o.bytes&&o.p<p+b.bytes) sim_fail("overlap","a new %s block of %ld bytes overlaps a live %s block of %ld bytes",st?"stack":"heap",b.bytes,o.st?"stack":"heap",o.bytes); }
  for(size_t i=0;i<x.dead.size();i++) if(x.dead[i]==h) x.dead.erase(x.dead.begin()+i--); x.b.push_back(b); mfill(x.b.back()); sim_count(st?"stack blocks":"heap blocks",1); }
static void dies(MX&x,size_t i){ x.dead.push_back(x.b[i].h); x.b.erase(x.b.begin()+i); }
static int pick(MX&x,int st){ std::vector<int> c; for(size_t i=0;i<x.b.size();i++) if(st<0||x.b[i].st==(bool)st) c.push_back((int)i); return c.empty()?-1:c[x.r.below(c.size())]; }
static int top(MX&x){ for(int i=(int)x.b.size()-1;i>=0;i--) if(x.b[i].st) return i; return -1; }
static void alloc(MX&x,bool st){ int dt=MT_FIRST+(int)x.r.below(NT); Inq q=inq(dt); long m=st?q.v[6]:q.v[3],n; double u=x.r.unit();
  n=u<0.35?x.r.range(0,40):u<0.5?x.r.range(0,1500):u<0.7?x.r.range(0,std::max(1L,m)):u<0.8?m:u<0.9?m+1:u<0.95?(st?q.v[5]:q.v[2]):m+x.r.pick({2L,100L,1000000L}); bool arm=x.r.chance(0.06); long f0=sim_alloc_fired(); if(arm) sim_alloc_arm(sim_rank(),0,1);
  Integer h=-77; MA_AccessIndex ix=0; char*p=0; bool two=x.r.chance(0.5); Boolean ok=two?(st?MA_push_stack(dt,n,"block",&h):MA_allocate_heap(dt,n,"a block with a rather long name, longer than kept",&h)):(st?MA_push_get(dt,n,"b",&h,&ix):MA_alloc_get(dt,n,"b",&h,&ix)); if(arm) sim_alloc_arm(sim_rank(),-1,0); bool fired=sim_alloc_fired()!=f0;
  if(fired){ if(ok) sim_fail("wrong-result","an allocation succeeded although the allocator had no memory for its table"); if(inq(dt)!=q) sim_fail("leak","an allocation that failed for want of memory for the table changed the space available"); sim_count("allocation failures",1); return; }
  if(!ok){ if(n<=m&&n>0) sim_fail("refused","%s of %ld elements failed, %ld were said to be available",st?"pushing a stack block":"allocating a heap block",n,m); if(inq(dt)!=q) sim_fail("wrong-inquiry","a refused allocation changed the space available"); sim_count("refused",1); return; }
  if(n>m) sim_fail("wrong-inquiry","%s of %ld elements succeeded, only %ld were said to be available",st?"pushing a stack block":"allocating a heap block",n,m);
  if(!MA_get_pointer(h,&p)) sim_fail("wrong-pointer","a new block has no address"); if(!two&&(char*)MA_get_mbase(dt)+(long)ix*esz(dt)!=p) sim_fail("wrong-pointer","the index of a new block does not lead to its address"); born(x,h,dt,n,st,p); }
static void need(const char*what,bool ok){ if(!ok) sim_fail("refused","%s failed",what); }
static void refuse(MX&x,const char*what,Boolean ok){ if(ok) sim_fail("accepted","%s succeeded",what); sim_count("invalid requests",1); }
static void pop_to(MX&x,int i){ need("MA_chop_stack",MA_chop_stack(x.b[i].h)); for(size_t k=x.b.size();k-->(size_t)i;) if(x.b[k].st) dies(x,k); }
static void freeone(MX&x){ int i; switch(x.r.below(8)){ case 0: if((i=pick(x,1))>=0) pop_to(x,i); break; case 1: case 2: if((i=top(x))>=0){ need("MA_pop_stack",MA_pop_stack(x.b[i].h)); dies(x,i); } break;
  case 3: if((i=pick(x,0))>=0){ MBlk&b=x.b[i]; long k=x.r.range(0,b.n+1); need("MA_free_heap_piece",MA_free_heap_piece(b.h,k)); if(k>=b.n) dies(x,i); else { b.n-=k; b.bytes=b.n*esz(b.dt); } } break;
  default: if((i=pick(x,0))>=0){ need("MA_free_heap",MA_free_heap(x.b[i].h)); dies(x,i); } } gaps(x); }
static void invalid(MX&x){ int i; Inq q=inq(MT_C_CHAR); Integer h; char*p; switch(x.r.below(7)){ case 0: if((i=pick(x,1))>=0){ refuse(x,"MA_free_heap of a stack block",MA_free_heap(x.b[i].h)); if(i!=top(x)) refuse(x,"MA_pop_stack of a block below the top",MA_pop_stack(x.b[i].h)); } break;
  case 1: if((i=pick(x,0))>=0){ refuse(x,"MA_pop_stack of a heap block",MA_pop_stack(x.b[i].h)); refuse(x,"MA_chop_stack of a heap block",MA_chop_stack(x.b[i].h)); } break;
  case 2: if(!x.dead.empty()){ h=x.dead[x.r.below(x.dead.size())]; refuse(x,"freeing a block twice",MA_free_heap(h)||MA_pop_stack(h)||MA_chop_stack(h)||MA_free_heap_piece(h,1)||MA_get_pointer(h,&p)); } break;
  case 3: refuse(x,"allocating a negative number of elements",MA_allocate_heap(MT_C_DBL,-1,"x",&h)||MA_push_stack(MT_C_DBL,-3,"x",&h)); break; case 4: refuse(x,"allocating an unknown type",MA_allocate_heap(MT_LAST+1,1,"x",&h)||MA_push_stack(MT_FIRST-1,1,"x",&h)); break;
  case 5: refuse(x,"using an unknown handle",MA_free_heap(-1)||MA_pop_stack(1000000)||MA_get_pointer(-5,&p)); break; case 6: refuse(x,"initializing twice",MA_init(MT_C_DBL,10,10)); break; }
  if(inq(MT_C_CHAR)!=q) sim_fail("wrong-inquiry","an invalid request changed the space available"); }
// a block with a damaged guard word is reported, and usable again once the guard is restored
static void damage(MX&x){ int i=pick(x,-1); if(i<0) return; MBlk&b=x.b[i]; char*g=x.r.chance(0.5)?b.p+b.bytes+x.r.below(4):b.p-1-x.r.below(4); char old=*g; *g^=(char)(1+x.r.below(255)); char*p; sim_count("damaged guards",1); if(MA_verify_allocator_stuff()) sim_fail("undetected","a damaged guard word was not reported"); if(MA_get_pointer(b.h,&p)) sim_fail("undetected","a block with a damaged guard word was accepted"); *g=old; }
static void onesided(MX&x){ if(!x.g||MA_inquire_avail(MT_C_CHAR)<6000) return; ArrSpec&s=*x.s; int n=(int)x.r.range(1,12); std::vector<long> v(n),w(n,-1); std::vector<int> ix(2*n); std::vector<int*> sub(n); std::set<int> used; int k=0; for(int i=0;i<n;i++){ int e=(int)x.r.below(s.dims[1]); if(!used.insert(e).second) continue; ix[2*k]=x.me; ix[2*k+1]=e; sub[k]=&ix[2*k]; v[k]=x.r.range(-99999,99999); k++; }
  Inq q=inq(MT_C_DBL); NGA_Scatter(x.g,v.data(),sub.data(),k); NGA_Gather(x.g,w.data(),sub.data(),k); for(int i=0;i<k;i++) if(v[i]!=w[i]) sim_fail("wrong-value","element %d gathered as %ld, scattered as %ld",ix[2*i+1],w[i],v[i]); if(inq(MT_C_DBL)!=q) sim_fail("leak","a scatter and a gather changed the space available"); sim_count("library operations",1); }
static void local(MX&x,int n){ for(int i=0;i<n;i++){ int w=(int)x.r.below(100); if(w<30) alloc(x,false); else if(w<50) alloc(x,true); else if(w<77) freeone(x); else if(w<83) invalid(x); else if(w<85) damage(x); else if(w<88){ x.align=(int)x.r.pick({0L,2L,3L,4L,6L,9L}); x.maxal=std::max(x.maxal,1<<x.align); need("MA_set_numalign",MA_set_numalign(x.align)); Integer a; MA_get_numalign(&a); if(a!=x.align) sim_fail("wrong-result","alignment %d was set, %ld is reported",x.align,(long)a); } else if(w<94) onesided(x); else inq_ok(x,MT_FIRST+(int)x.r.below(NT)); if(x.r.chance(0.15)) mcheck(x,"after an operation"); if(x.r.chance(0.1)) sim_yield(); } }
static void room(MX&x,long bytes){ while(MA_inquire_avail(MT_C_CHAR)<bytes&&!x.b.empty()) freeone(x); }
static void coll(MX&x,uint64_t seed){ Case c(seed); c.np=x.np; c.me=x.me; c.p=x.p; c.name="library operation"; for(int i=0;i<x.np;i++) c.mem.push_back(i); c.size=40; c.dm=M_ALL; room(x,60000); Inq q=inq(MT_C_DBL); int d[4]; int op=(int)c.r.below(4); dims_for(c,2,d); GArr a=mk(c,T_DBL,2,d); randfill(c,a); csync(c);
  switch(op){ case 0:{ GArr b=mk(c,T_DBL,2,d); GA_Copy(a.g,b.g); b.v=a.v; expect(c,b,"a copy"); csync(c); drop(c,b); break; } case 1:{ double t=GA_Ddot(a.g,a.g); long w=0; for(auto&e:a.v) w+=e.re*e.re; if(t!=(double)w) sim_fail("wrong-result","GA_Ddot returned %g, expected %ld",t,w); break; } case 2:{ double k=3; GA_Scale(a.g,&k); for(auto&e:a.v) e.re*=3; break; } default:{ if(a.s.dist==D_REG||a.s.dist==D_CHUNK||a.s.dist==D_IRREG){ int e[4]={d[1],d[0],1,1}; GArr b=mk(c,T_DBL,2,e,M_BASIC); GA_Transpose(a.g,b.g); for(int i=0;i<d[0];i++) for(int j=0;j<d[1];j++) b.v[j*d[0]+i]=a.v[i*d[1]+j]; expect(c,b,"a transposed array"); csync(c); drop(c,b); } } }
  expect(c,a,"an operand"); csync(c); drop(c,a); if(inq(MT_C_DBL)!=q) sim_fail("leak","a collective operation changed the space available in the arena"); sim_count("library operations",1); }
static void gen(Program&p,Rng&r){ gen_base(p,r,1,5); bool ga=r.chance(0.5); p.set("x.ga",ga); p.set("ma.dt",r.chance(0.5)?MT_C_DBL:r.range(MT_FIRST,MT_LAST)); long lo=ga?70000:0,hi=ga?90000:r.pick({100L,2000L,20000L}); long tot=lo+r.range(0,hi),cut=r.chance(0.2)?0:r.chance(0.2)?tot:r.range(0,tot); p.set("ma.stack",r.chance(0.04)?-1:cut); p.set("ma.heap",r.chance(0.04)?-1:tot-cut); p.set("ma.fail",r.chance(0.1)); if(r.chance(0.3)) p.set("env.MA_USE_ARMCI_MEM",1); p.set("ma.auto",r.chance(0.2));
  int n=(int)r.range(1,r.chance(0.2)?8:4); for(int i=0;i<n;i++){ Op o; o.kind=ga&&r.chance(0.6); o.a={(long)(r.next()>>30),r.range(1,r.chance(0.2)?120:40)}; p.ops.push_back(o); } }
static void run(Program&p){ boot(p,false); MX x; x.p=&p; x.me=GA_Nodeid(); x.np=GA_Nnodes(); x.r=Rng(p.ops.empty()?1:(uint64_t)p.ops[0].a[0]*31+x.me*1009); MA_set_error_print(0); MA_set_hard_fail(0); Integer h; char*q;
  if(MA_initialized()||MA_allocate_heap(MT_C_INT,1,"x",&h)||MA_push_stack(MT_C_INT,1,"x",&h)||MA_get_pointer(0,&q)) sim_fail("accepted","the allocator answered before it was initialized");
  int dt=(int)p.get("ma.dt",MT_C_DBL); if(p.get("ma.fail")&&!p.get("env.MA_USE_ARMCI_MEM",0)){ sim_alloc_arm(sim_rank(),0,1); if(MA_init(dt,p.get("ma.stack"),p.get("ma.heap"))||MA_initialized()) sim_fail("accepted","initialization succeeded without memory"); sim_alloc_arm(sim_rank(),-1,0); sim_count("allocation failures",1); }
  if(!MA_init(dt,p.get("ma.stack"),p.get("ma.heap"))||!MA_initialized()) sim_fail("init","MA_init failed"); if(p.get("ma.auto")) MA_set_auto_verify(1);
  for(int t=0;t<NT;t++){ x.cap[t][0]=MA_inquire_heap(MT_FIRST+t); x.cap[t][1]=MA_inquire_stack(MT_FIRST+t); x.cap[t][2]=MA_inquire_avail(MT_FIRST+t); } Inq first[17]; for(int t=0;t<NT;t++) first[t]=inq(MT_FIRST+t);
  long es=esz(dt); if(p.get("ma.stack")>=0&&x.cap[dt-MT_FIRST][1]<p.get("ma.stack")) sim_fail("wrong-inquiry","the stack was asked to hold %ld elements, %ld are available",p.get("ma.stack"),x.cap[dt-MT_FIRST][1]); if(p.get("ma.heap")>=0&&x.cap[dt-MT_FIRST][0]<p.get("ma.heap")) sim_fail("wrong-inquiry","the heap was asked to hold %ld elements, %ld are available",p.get("ma.heap"),x.cap[dt-MT_FIRST][0]); (void)es;
  { int a=MT_FIRST+(int)x.r.below(NT),b=MT_FIRST+(int)x.r.below(NT); long n=x.r.range(0,1000); long ba=esz(a),bb=esz(b); if(MA_sizeof(a,n,b)!=(n*ba+bb-1)/bb) sim_fail("wrong-result","MA_sizeof(%d,%ld,%d) returned %ld",a,n,b,(long)MA_sizeof(a,n,b)); }
  ArrSpec s; bool ga=p.get("x.ga")&&x.cap[0][2]>120000; long allga=ga; { char mn[]="min"; GA_Lgop(&allga,1,mn); } ga=allga; if(ga){ int d[4]={x.np,30,1,1}; s=make_spec(p.ops.empty()?7:p.ops[0].a[0],T_LONG,2,d,D_REG,x.np); x.g=create_arr(s,"shared",-1); x.s=&s; GA_Zero(x.g); GA_Sync(); }
  for(auto&o:p.ops){ x.r=Rng((uint64_t)o.a[0]*77+x.me*131); local(x,(int)o.a[1]); mcheck(x,"after a phase"); if(o.kind&&ga){ coll(x,(uint64_t)o.a[0]); mcheck(x,"after a library operation"); } }
  while(!x.b.empty()){ if(x.r.chance(0.2)&&pick(x,1)>=0){ int i=-1; for(size_t k=0;k<x.b.size();k++) if(x.b[k].st){ i=(int)k; break; } pop_to(x,i); } else freeone(x); if(x.r.chance(0.1)) mcheck(x,"while freeing"); }
  MA_set_numalign(0); if(ga){ GA_Sync(); GA_Destroy(x.g); } for(int t=0;t<NT;t++){ Inq e=inq(MT_FIRST+t); for(int i=0;i<7;i++) if(e.v[i]!=first[t].v[i]) sim_fail("leak","with every block freed %s returns %ld, at the start %ld",inames[i],e.v[i],first[t].v[i]); } if(!MA_verify_allocator_stuff()) sim_fail("corrupted","with every block freed the allocator reports damage");
  GA_Sync(); shutdown(); }
static void setup(Program&){}
static void check(Program&){}
WORKLOAD(mal,gen,setup,run,check)
