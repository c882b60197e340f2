// Raw remote memory (ARMCI layer): contiguous, strided and scatter/gather-vector put, get and accumulate, register
// values and read-modify-write on collectively allocated memory of the world and of groups. A byte model of every
// segment is kept in the simulator; in every round each member owns one zone of every segment (rotating), may read
// its own zone and write it, everybody accumulates into a shared zone, and at the end of the round every owner
// compares all bytes of its segment. Local buffers are guarded and compared byte by byte.
#include "common.h"
enum { A_ALLOC,A_FREE,A_ROUND,A_X,A_STALL };
enum { NSLOT=4, HDR=32 };
struct Cell { long init=0; std::vector<std::pair<long,long>> h; bool swap=false; };   // returned value, added or written value
struct ASeg { std::vector<unsigned char> b; long accend=HDR; Cell c[4]; };
struct Al { bool live=false; bool grp=false; std::vector<int> mem; std::vector<ASeg> s; std::vector<std::vector<void*>> ptr; int type=0; std::vector<int> gh; long bytes=0; int gen=0; int checked=0; };
struct ASt { Al a[NSLOT]; };
static ASt* st(){ return (ASt*)sim_get_state(); }
static const int accop[]={ARMCI_ACC_INT,ARMCI_ACC_LNG,0,ARMCI_ACC_FLT,ARMCI_ACC_DBL,ARMCI_ACC_CPL,ARMCI_ACC_DCP};
static void gen(Program&p,Rng&r){ gen_base(p,r,1,r.chance(0.1)?9:6); int np=(int)p.get("np"); int rounds=(int)r.range(1,5); long big=r.chance(0.1)?40000:r.chance(0.3)?6000:900;
  auto alloc=[&]{ Op o; o.kind=A_ALLOC; o.a={r.below(NSLOT),(long)(r.next()>>24),big}; p.ops.push_back(o); };
  alloc(); for(int f=0;f<rounds;f++){ while(r.chance(0.45)) alloc(); if(r.chance(0.2)){ Op o; o.kind=A_FREE; o.a={r.below(NSLOT)}; p.ops.push_back(o); }
    { Op o; o.kind=A_ROUND; o.a={(long)(r.next()>>24),r.chance(0.15)}; p.ops.push_back(o); }
    int n=(int)r.range(1,r.chance(0.3)?60:20); int hot=r.chance(0.3)?(int)r.below(np):-1;
    for(int i=0;i<n;i++){ Op o; o.rank=(int)r.below(np); if(r.chance(0.06)){ o.kind=A_STALL; o.a={r.pick({500,50000,1000000})}; } else { o.kind=A_X; o.a={r.below(NSLOT),(long)(r.next()>>24),hot}; } p.ops.push_back(o); } } }
static void setup(Program&){ sim_set_state(new ASt); }
static void check(Program&){}
// the layout of one transfer on one side: byte segments in order
struct Lay { std::vector<std::pair<long,long>> seg; long lo=0,hi=0; void span(){ lo=1L<<60; hi=0; for(auto&x:seg){ lo=std::min(lo,x.first); hi=std::max(hi,x.first+x.second); } } };
static long total(const Lay&l){ long n=0; for(auto&x:l.seg) n+=x.second; return n; }
struct Shape { int levels=0; int count[8]; int str[8]; long extent=0; };
static void layof(const Shape&s,const int*str,long off,Lay&l){ long n=1; for(int i=1;i<=s.levels;i++) n*=s.count[i]; for(long k=0;k<n;k++){ long o=off,x=k; for(int i=1;i<=s.levels;i++){ o+=(long)str[i-1]*(x%s.count[i]); x/=s.count[i]; } l.seg.push_back({o,s.count[0]}); } l.span(); }
static long extent(const Shape&s,const int*str){ long e=s.count[0]; for(int i=1;i<=s.levels;i++) e+=(long)str[i-1]*(s.count[i]-1); return e; }
// non-overlapping strides with random gaps, multiples of u
static void strides(Rng&q,const Shape&s,int u,int*str,long room){ long need=s.count[0]; for(int i=1;i<=s.levels;i++){ long g=q.chance(0.5)?0:q.below(q.chance(0.3)?6:2)*(q.chance(0.4)?need/u:1)*u; if(q.chance(0.1)&&s.count[i]==1) g=q.below(40)*u; str[i-1]=(int)(need+g); need=(long)str[i-1]*(s.count[i]-1)+need; } if(room>0&&extent(s,str)>room){ need=s.count[0]; for(int i=1;i<=s.levels;i++){ str[i-1]=(int)need; need*=s.count[i]; } } }
struct NbPend { int slot,tgt; long lo,hi; bool nb; armci_hdl_t*h; bool acc; bool get; };
struct NbReq { armci_hdl_t h; bool used=false,get=false; unsigned char*buf=nullptr; long blen=0; Lay loc; std::vector<unsigned char> want; int tgt=0; const char*form=""; std::vector<armci_giov_t> v; std::vector<void*> p1,p2; unsigned char*loc2=nullptr; std::vector<unsigned char> src; double sc[2]; };
static void run(Program&p){ boot(p); int me=GA_Nodeid(),np=GA_Nnodes(); ASt*s=st(); long round=0; bool ro=false,started=false; std::vector<NbPend> pend; std::vector<NbReq*> nb; int gens=0;
  auto check_get=[&](NbReq&r){ // the bytes of the layout have the expected values, all others are untouched
    std::vector<unsigned char> img(r.blen,0x9C); long k=0; for(auto&x:r.loc.seg) for(long i=0;i<x.second;i++) img[x.first+i]=r.want[k++]; for(long i=0;i<r.blen;i++) if(r.buf[i]!=img[i]){ bool in=false; for(auto&x:r.loc.seg) if(i>=x.first&&i<x.first+x.second) in=true; sim_fail(in?"wrong-value":"stray-write","%s get from process %d: byte %ld of the local buffer is %02x, expected %02x%s",r.form,r.tgt,i,r.buf[i],img[i],in?"":" (not part of the transfer)"); } sim_count("bytes compared",r.blen); };
  auto finish=[&](NbReq*r){ if(r->get) check_get(*r); else { for(long i=0;i<r->blen;i++) if(r->buf[i]!=r->src[i]) sim_fail("stray-write","%s: the source buffer changed",r->form); } if(r->loc2){ ARMCI_Free_local(r->loc2); } else sim_buf_free(r->buf); r->used=false; for(size_t i=0;i<pend.size();i++) if(pend[i].h==&r->h){ pend[i].h=nullptr; if(r->get){ pend.erase(pend.begin()+i); i--; } } for(size_t i=0;i<nb.size();i++) if(nb[i]==r){ nb.erase(nb.begin()+i); break; } delete r; };
  auto waitreq=[&](NbReq*r){ if(ARMCI_Wait(&r->h)) sim_fail("wrong-result","ARMCI_Wait failed"); finish(r); };
  auto waitall=[&]{ if(nb.size()>1&&(round+me)%3==0){ ARMCI_WaitAll(); sim_count("wait all",1); while(!nb.empty()) finish(nb[0]); } while(!nb.empty()) waitreq(nb[0]); };
  auto fence=[&](int t){ for(size_t i=0;i<nb.size();) if(nb[i]->tgt==t) waitreq(nb[i]); else i++; ARMCI_Fence(t); sim_count("fences",1); for(size_t i=0;i<pend.size();) if(pend[i].tgt==t) pend.erase(pend.begin()+i); else i++; };
  auto endround=[&]{ if(!started) return; waitall(); if((round+np)%2) ARMCI_AllFence(); else { for(int i=0;i<np;i++) ARMCI_Fence((me+i)%np); } pend.clear(); ARMCI_Barrier();
    for(int k=0;k<NSLOT;k++){ Al&a=s->a[k]; if(!a.live) continue; int mi=-1; for(size_t i=0;i<a.mem.size();i++) if(a.mem[i]==me) mi=(int)i; if(mi<0) continue; ASeg&g=a.s[mi]; long n=(long)g.b.size(); unsigned char*q=(unsigned char*)a.ptr[mi][mi]; if(!n) continue;
      if(n>=HDR) for(int c=0;c<4;c++){ Cell&ce=g.c[c]; long fin=c==0||c==2?(long)*(int*)(q+c*8):*(long*)(q+c*8); auto h=ce.h; long cur=ce.init; size_t left=h.size();
        while(left){ bool f=false; for(auto&x:h) if(x.second!=-1&&x.first==cur){ cur=ce.swap?x.second:cur+x.second; x.second=-1; left--; f=true; break; } if(!f) sim_fail("atomicity","read-modify-write cell %d of process %d: no remaining operation returned %ld (%zu of %zu operations explained)",c,me,cur,h.size()-left,h.size()); }
        if(fin!=cur) sim_fail("atomicity","read-modify-write cell %d of process %d holds %ld, the operations leave %ld",c,me,fin,cur); sim_count("rmw checked",(long)h.size()); ce.h.clear(); ce.init=cur; memcpy(&g.b[c*8],q+c*8,8); }
      for(long i=0;i<n;i++) if(q[i]!=g.b[i]) sim_fail(i>=HDR&&i<g.accend?"lost-update":"wrong-value","byte %ld of the %ld-byte segment of process %d (%s, slot %d) is %02x, expected %02x%s",i,n,me,a.grp?"group":"world",k,q[i],g.b[i],i>=HDR&&i<g.accend?" (accumulate zone)":""); sim_count("bytes compared",n); }
    ARMCI_Barrier(); started=false; };
  int alls=0; std::vector<int> mygrp(NSLOT,-1);
  auto dofree=[&](int k){ Al&a=s->a[k]; if(!a.live) return; int mi=-1; for(size_t i=0;i<a.mem.size();i++) if(a.mem[i]==me) mi=(int)i; if(mi>=0){ if(a.grp){ ARMCI_Group g=a.gh[mi]; if(ARMCI_Free_group(a.ptr[mi][mi],&g)) sim_fail("wrong-result","ARMCI_Free_group failed"); ARMCI_Group_free(&g); } else if(ARMCI_Free(a.ptr[mi][mi])) sim_fail("wrong-result","ARMCI_Free failed"); } ARMCI_Barrier(); a.live=false; ARMCI_Barrier(); sim_count("frees",1); };
  for(auto&o:p.ops){ 
    if(o.kind==A_ALLOC||o.kind==A_FREE){ endround(); int k=(int)o.a[0]%NSLOT; dofree(k); if(o.kind==A_FREE) continue; Rng q(o.a[1]); alls++; Al&a=s->a[k]; bool grp=np>1&&q.chance(0.4); std::vector<int> mem; if(grp){ for(int i=0;i<np;i++) if(q.chance(0.6)) mem.push_back(i); if(mem.empty()) mem.push_back((int)q.below(np)); } else for(int i=0;i<np;i++) mem.push_back(i);
      int type=(int)q.pick({T_INT,T_LONG,T_FLT,T_DBL,T_SC,T_DC}); long big=o.a[2]; std::vector<long> sz; bool same=q.chance(0.4); long s0=q.range(200,big+200); for(size_t i=0;i<mem.size();i++) sz.push_back(same?s0:q.chance(0.1)?0:q.chance(0.15)?q.range(1,100):q.range(100,big+200)); 
      if(a.gen!=alls){ a=Al(); a.gen=alls; a.grp=grp; a.mem=mem; a.type=type; a.ptr.resize(mem.size()); a.gh.assign(mem.size(),-1); a.s.resize(mem.size()); for(size_t i=0;i<mem.size();i++){ ASeg&g=a.s[i]; g.b.resize(sz[i]); for(auto&x:g.b) x=(unsigned char)q.next(); long ae=HDR+(sz[i]-HDR)/4/16*16; g.accend=sz[i]>=HDR?std::max((long)HDR,ae):0; for(long j=0;j<g.accend;j++) g.b[j]=0; for(int c=0;c<4;c++){ g.c[c].swap=c>=2; } } }
      int mi=-1; for(size_t i=0;i<mem.size();i++) if(mem[i]==me) mi=(int)i;
      if(mi>=0){ std::vector<void*> pt(mem.size(),(void*)1); ARMCI_Group g=0; if(grp){ ARMCI_Group_create((int)mem.size(),mem.data(),&g); int rk=-1,sz=-1; ARMCI_Group_rank(&g,&rk); ARMCI_Group_size(&g,&sz); if(rk!=mi||sz!=(int)mem.size()) sim_fail("wrong-result","group of %zu: rank %d size %d, expected rank %d",mem.size(),rk,sz,mi); for(int i=0;i<sz;i++) if(ARMCI_Absolute_id(&g,i)!=mem[i]) sim_fail("wrong-result","member %d of a group is process %d, expected %d",i,ARMCI_Absolute_id(&g,i),mem[i]); a.gh[mi]=g; }
        int rc=grp?ARMCI_Malloc_group(pt.data(),(armci_size_t)sz[mi],&g):ARMCI_Malloc(pt.data(),(armci_size_t)sz[mi]); if(rc) sim_fail("wrong-result","ARMCI_Malloc returned %d",rc); sim_trace("slot %d %s %zu members, %ld bytes at %p",k,grp?"group":"world",mem.size(),sz[mi],pt[mi]);
        for(size_t i=0;i<mem.size();i++) if(sz[i]&&!pt[i]) sim_fail("wrong-result","ARMCI_Malloc gave no address for member %zu with %ld bytes",i,sz[i]); for(long i=0;i<sz[mi];i++) ((unsigned char*)pt[mi])[i]=a.s[mi].b[i]; a.ptr[mi]=pt; }
      sim_count(grp?"group allocations":"world allocations",1); ARMCI_Barrier(); a.live=true; ARMCI_Barrier(); continue; }
    if(o.kind==A_ROUND){ endround(); round=o.a[0]; ro=o.a[1]; started=true; continue; }
    if(o.rank!=me||!started) continue;
    if(o.kind==A_STALL){ sim_stall(o.a[0]); continue; }
    int k=(int)o.a[0]%NSLOT; Al*ap=nullptr; int mi=-1; for(int t=0;t<NSLOT&&mi<0;t++){ Al&a=s->a[(k+t)%NSLOT]; if(!a.live) continue; for(size_t i=0;i<a.mem.size();i++) if(a.mem[i]==me) mi=(int)i; if(mi>=0){ ap=&a; k=(k+t)%NSLOT; } } if(mi<0) continue; Al&a=*ap; Rng q(o.a[1]); int n=(int)a.mem.size(); int ti=(int)q.below(n); if(o.a[2]>=0&&q.chance(0.7)) ti=(int)o.a[2]%n; ASeg&g=a.s[ti]; int tgt=a.mem[ti]; long sz=(long)g.b.size(); if(sz<HDR+16) continue; unsigned char*base=(unsigned char*)a.ptr[mi][ti];
    int what=(int)q.below(100);
    if(!ro&&what<8){ int c=(int)q.below(4); Cell&ce=g.c[c]; long ext=ce.swap?1+(long)(((sim_seq()<<4)+me)&0x3fffffff):1+q.below(9); int op=ce.swap?(c==2?ARMCI_SWAP:ARMCI_SWAP_LONG):(c==0?ARMCI_FETCH_AND_ADD:ARMCI_FETCH_AND_ADD_LONG); long ret; size_t slot=ce.h.size(); (void)slot;
      if(ce.swap){ for(bool dup=true;dup;){ dup=ce.init==ext; for(auto&x:ce.h) if(x.second==ext||x.first==ext) dup=true; if(dup) ext++; } static std::set<long> used; while(used.count(ext)) ext++; used.insert(ext); }
      if(c==0||c==2){ int loc=(int)ext; if(ARMCI_Rmw(op,&loc,base+c*8,(int)ext,tgt)) sim_fail("wrong-result","ARMCI_Rmw failed"); ret=loc; } else { long loc=ext; if(ARMCI_Rmw(op,&loc,base+c*8,(int)ext,tgt)) sim_fail("wrong-result","ARMCI_Rmw failed"); ret=loc; } ce.h.push_back({ret,ext}); sim_count("rmw",1); continue; }
    int kind=ro?1:what<45?0:what<75?1:2; // put get acc
    // zone: own zone of this round for put, get and own accumulate; the accumulate zone is shared
    long zlo,zhi; bool shared=false; if(ro&&true){ zlo=0; zhi=sz; } else { long w=(sz-g.accend)/n; int zi=(int)((mi+round)%n); zlo=g.accend+w*zi; zhi=zlo+w; if(kind==2&&q.chance(0.75)&&g.accend>HDR){ zlo=HDR; zhi=g.accend; shared=true; } } 
    int u=1; if(kind==2){ u=tsize(a.type); zlo=(zlo+15)/16*16; zhi=zhi/16*16; } else if(q.chance(0.5)) u=(int)q.pick({1,2,4,8,16}); if(zhi-zlo<u) { if(kind==2) continue; u=1; if(zhi-zlo<1) continue; } long room=zhi-zlo; long cap=q.chance(0.2)?room:std::max((long)u,std::min(room,(long)q.pick({8,64,400,3000})));
    int form=(int)q.below(10); bool nbk=q.chance(0.4)&&nb.size()<8; // 0-2 contiguous, 3-6 strided, 7-8 vector, 9 value
    if(form==9&&kind==2) form=4; const char*fn=form<3?"contiguous":form<7?"strided":form<9?"vector":"value";
    Lay rem,loc; Shape sh; int rstr[8],lstr[8]; bool overlapsrc=false; std::vector<std::pair<long,long>> vdesc; int vtype=(int)q.below(4); memset(rstr,0,sizeof rstr); memset(lstr,0,sizeof lstr);
    long loff=q.chance(0.5)?0:q.below(5)*(kind==2?u:1)*(q.chance(0.5)?1:8);
    if(form<3){ long len=(1+q.below(cap/u))*u; long off=zlo+q.below((room-len)/u+1)*u; rem.seg.push_back({off,len}); rem.span(); loc.seg.push_back({loff,len}); loc.span(); }
    else if(form<7){ sh.levels=(int)(q.chance(0.1)?0:q.range(1,q.chance(0.2)?6:3)); long left=cap; sh.count[0]=(int)((1+q.below(std::max(1L,left/u/(q.chance(0.6)?4:1))))*u); left/=sh.count[0]; for(int i=1;i<=sh.levels;i++){ sh.count[i]=(int)(q.chance(0.2)?1:1+q.below(std::max(1L,std::min(left,(long)(q.chance(0.2)?64:6))))); left/=sh.count[i]; }
      strides(q,sh,u,rstr,room); if(extent(sh,rstr)>room) continue; if(q.chance(0.3)) memcpy(lstr,rstr,sizeof lstr); else strides(q,sh,kind==2?u:(int)q.pick({1,u}),lstr,0); if(kind!=1&&q.chance(0.07)&&sh.levels){ lstr[q.below(sh.levels)]=0; overlapsrc=true; }
      long off=zlo+q.below((room-extent(sh,rstr))/u+1)*u; layof(sh,rstr,off,rem); layof(sh,lstr,loff,loc); }
    else if(form<9){ int nd=(int)q.range(1,4); // descriptors of several segments each; remote segments disjoint and in random order
      long pos=zlo; long lpos=loff; std::vector<std::pair<long,long>> segs; for(int d=0;d<nd;d++){ long len=(1+q.below(std::max(1L,cap/u/8)))*u; int m=(int)q.range(1,q.chance(0.2)?20:4); int c=0; for(int i=0;i<m;i++){ long gap=q.chance(0.5)?0:q.below(20)*u; if(pos+gap+len>zhi) break; rem.seg.push_back({pos+gap,len}); pos+=gap+len; long lg=q.chance(0.5)?0:q.below(9)*u; loc.seg.push_back({lpos+lg,len}); lpos+=lg+len; c++; } if(c) vdesc.push_back({len,c}); if(c<m) break; }
      if(vdesc.empty()) continue; { size_t b=0; for(auto&d:vdesc){ for(long i=d.second-1;i>0;i--) if(q.chance(0.4)){ std::swap(rem.seg[b+i],rem.seg[b+q.below(i+1)]); } b+=d.second; } } rem.span(); loc.span(); }
    else { static const int vs[]={4,8,4,8}; int len=vs[vtype]; zlo=(zlo+7)/8*8; if(zhi-zlo<8) continue; long off=zlo+q.below((zhi-zlo)/8)*8; rem.seg.push_back({off,len}); rem.span(); loc.seg.push_back({0,len}); loc.span(); }
    if(overlapsrc&&kind==1) continue; long nby=total(rem);
    // earlier operations of this process on the same bytes
    bool need=false; for(auto&x:pend) if(x.slot==k&&x.tgt==tgt&&x.lo<rem.hi&&rem.lo<x.hi){ if(x.nb||x.acc!=(kind==2)) need=true; else if(x.acc&&kind==2) continue; else if(kind==2||q.chance(0.4)) need=true; } if(shared) need=false; if(need) fence(tgt); if(shared) { bool putpend=false; for(auto&x:pend) if(x.slot==k&&x.tgt==tgt&&!x.acc&&x.lo<rem.hi&&rem.lo<x.hi) putpend=true; if(putpend) fence(tgt); }
    if(!need) for(size_t i=0;i<nb.size();i++){ (void)i; }
    NbReq*r=new NbReq; r->get=kind==1; r->tgt=tgt; r->form=fn; r->loc=loc; r->blen=loc.hi+(kind==2?u:q.below(9)); r->used=true; bool lbuf=q.chance(0.25); if(lbuf){ r->loc2=(unsigned char*)ARMCI_Malloc_local(r->blen); if(!r->loc2) sim_fail("wrong-result","ARMCI_Malloc_local failed"); r->buf=r->loc2; } else r->buf=(unsigned char*)sim_buf(r->blen);
    memset(r->buf,0x9C,r->blen); Val scv{1,0}; alignas(16) char scale[16]; if(kind==0){ for(auto&x:loc.seg) for(long i=0;i<x.second;i++) r->buf[x.first+i]=(unsigned char)q.next(); }
    if(kind==2){ scv.re=q.pick({1,1,2,-1,3,0}); if(tcplx(a.type)) scv.im=q.pick({0,1,-2}); enc(a.type,scale,scv); memcpy(r->sc,scale,sizeof scale); for(auto&x:loc.seg) for(long i=0;i<x.second;i+=u){ Val v{q.range(-9,9),tcplx(a.type)?q.range(-9,9):0}; enc(a.type,r->buf+x.first+i,v); } }
    r->src.assign(r->buf,r->buf+r->blen);
    // own accumulate outside the accumulate zone needs numbers there
    bool numeric=true; if(kind==2&&!shared) numeric=false;
    if(kind==2&&!numeric){ bool anynb=false; for(auto&x:pend) if(x.slot==k&&x.tgt==tgt&&x.lo<rem.hi&&rem.lo<x.hi) anynb=true; if(anynb) fence(tgt); // put zeros first, ordered by a fence
      unsigned char*z=(unsigned char*)sim_buf(rem.hi-rem.lo); memset(z,0,rem.hi-rem.lo); ARMCI_Put(z,base+rem.lo,(int)(rem.hi-rem.lo),tgt); sim_buf_free(z); ARMCI_Fence(tgt); memset(&g.b[rem.lo],0,rem.hi-rem.lo); }
    // model
    if(kind==0){ size_t si=0; long so=0; for(auto&x:rem.seg) for(long i=0;i<x.second;i++){ g.b[x.first+i]=r->buf[loc.seg[si].first+so]; if(++so==loc.seg[si].second){ so=0; si++; } } }
    else if(kind==1){ for(auto&x:rem.seg) for(long i=0;i<x.second;i++) r->want.push_back(g.b[x.first+i]); }
    else { for(size_t j=0;j<rem.seg.size();j++) for(long i=0;i<rem.seg[j].second;i+=u){ Val v=dec(a.type,r->buf+loc.seg[j].first+i),w=dec(a.type,&g.b[rem.seg[j].first+i]); enc(a.type,&g.b[rem.seg[j].first+i],w+v*scv); } }
    // call
    armci_hdl_t*h=nbk?&r->h:nullptr; if(h) ARMCI_INIT_HANDLE(h); int rc=0; unsigned char*L=r->buf; int op=accop[a.type]; void*sc=kind==2?(void*)r->sc:nullptr;
    sim_trace("%s%s %s %ld bytes %s %d slot %d [%ld,%ld) in %zu pieces",nbk?"nb ":"",fn,kind==0?"put":kind==1?"get":"acc",nby,kind==1?"from":"to",tgt,k,rem.lo,rem.hi,rem.seg.size()); sim_count(kind==0?"puts":kind==1?"gets":"accumulates",1); sim_count(fn,1);
    if(form<3){ unsigned char*R=base+rem.lo,*l=L+loc.seg[0].first; int b=(int)nby; if(kind==2&&nbk){ int c[1]={b}; int ds[1]={0}; rc=ARMCI_NbAccS(op,sc,l,ds,R,ds,c,0,tgt,h); } else rc=kind==0?(h?ARMCI_NbPut(l,R,b,tgt,h):ARMCI_Put(l,R,b,tgt)):kind==1?(h?ARMCI_NbGet(R,l,b,tgt,h):ARMCI_Get(R,l,b,tgt)):ARMCI_Acc(op,sc,l,R,b,tgt); }
    else if(form<7){ unsigned char*R=base+rem.seg[0].first,*l=L+loc.seg[0].first; int cnt[8],rs[8],ls[8]; memcpy(cnt,sh.count,sizeof cnt); memcpy(rs,rstr,sizeof rs); memcpy(ls,lstr,sizeof ls); int lv=sh.levels;
      rc=kind==0?(h?ARMCI_NbPutS(l,ls,R,rs,cnt,lv,tgt,h):ARMCI_PutS(l,ls,R,rs,cnt,lv,tgt)):kind==1?(h?ARMCI_NbGetS(R,rs,l,ls,cnt,lv,tgt,h):ARMCI_GetS(R,rs,l,ls,cnt,lv,tgt)):(h?ARMCI_NbAccS(op,sc,l,ls,R,rs,cnt,lv,tgt,h):ARMCI_AccS(op,sc,l,ls,R,rs,cnt,lv,tgt)); memset(cnt,0x55,sizeof cnt); memset(rs,0x55,sizeof rs); memset(ls,0x55,sizeof ls); }
    else if(form<9){ auto&d=r->v; size_t b=0; for(auto&x:rem.seg) r->p1.push_back(base+x.first); for(auto&x:loc.seg) r->p2.push_back(L+x.first); for(auto&x:vdesc){ armci_giov_t y; y.bytes=(int)x.first; y.ptr_array_len=(int)x.second; y.src_ptr_array=kind==1?&r->p1[b]:&r->p2[b]; y.dst_ptr_array=kind==1?&r->p2[b]:&r->p1[b]; d.push_back(y); b+=x.second; } int len=(int)d.size();
      rc=kind==0?(h?ARMCI_NbPutV(d.data(),len,tgt,h):ARMCI_PutV(d.data(),len,tgt)):kind==1?(h?ARMCI_NbGetV(d.data(),len,tgt,h):ARMCI_GetV(d.data(),len,tgt)):(h?ARMCI_NbAccV(op,sc,d.data(),len,tgt,h):ARMCI_AccV(op,sc,d.data(),len,tgt)); }
    else { unsigned char*R=base+rem.lo; 
      if(kind==0){ if(vtype==0){ int v; memcpy(&v,L,4); rc=h?ARMCI_NbPutValueInt(v,R,tgt,h):ARMCI_PutValueInt(v,R,tgt); } else if(vtype==1){ long v; memcpy(&v,L,8); rc=h?ARMCI_NbPutValueLong(v,R,tgt,h):ARMCI_PutValueLong(v,R,tgt); } else if(vtype==2){ float v; memcpy(&v,L,4); rc=h?ARMCI_NbPutValueFloat(v,R,tgt,h):ARMCI_PutValueFloat(v,R,tgt); } else { double v; memcpy(&v,L,8); rc=h?ARMCI_NbPutValueDouble(v,R,tgt,h):ARMCI_PutValueDouble(v,R,tgt); } }
      else { h=nullptr; if(vtype==0){ int v=ARMCI_GetValueInt(R,tgt); memcpy(L,&v,4); } else if(vtype==1){ long v=ARMCI_GetValueLong(R,tgt); memcpy(L,&v,8); } else if(vtype==2){ float v=ARMCI_GetValueFloat(R,tgt); memcpy(L,&v,4); } else { double v=ARMCI_GetValueDouble(R,tgt); memcpy(L,&v,8); } } }
    if(rc) sim_fail("wrong-result","%s %s returned %d",fn,kind==0?"put":kind==1?"get":"accumulate",rc);
    if(h) { nb.push_back(r); sim_count("nonblocking",1); }
    if(kind!=1||h) pend.push_back({k,tgt,rem.lo,rem.hi,h!=nullptr,h,kind==2,kind==1});
    if(!h) finish(r); else if(q.chance(0.25)) waitreq(r); else if(q.chance(0.2)){ if(ARMCI_Test(h)==0) { sim_count("test completed",1); finish(r); } } else if(q.chance(0.08)){ int t=tgt; ARMCI_WaitProc(t); for(size_t i=0;i<nb.size();) if(nb[i]->tgt==t) finish(nb[i]); else i++; sim_count("wait proc",1); } }
  endround(); for(int k=0;k<NSLOT;k++) dofree(k); shutdown(); }
WORKLOAD(arm,gen,setup,run,check)
