// C09: every element has exactly one owner and all location queries agree. For random arrays of every
// distribution the blocks reported by the distribution query are compared with element and region
// location, block, topology and iterator queries; owners then write through direct access while the
// others look elsewhere, and everybody reads the result remotely (and the other way round).
#include "coll.h"
static bool cyc(const ArrSpec&s){ return s.dist==D_BC||s.dist==D_SCAL||s.dist==D_TILE||s.dist==D_TIRR; }
static const char* ixs(const ArrSpec&s,const int*id){ static char b[64]; int o=0; for(int i=0;i<s.nd;i++) o+=snprintf(b+o,64-o,"%s%d",i?",":"",id[i]); return b; }
static bool inb(const ArrSpec&s,const int*lo,const int*hi){ for(int i=0;i<s.nd;i++) if(lo[i]<0||hi[i]<lo[i]||hi[i]>=s.dims[i]) return false; return true; }
static void each(int nd,const int*lo,const int*hi,std::function<void(const int*)> f){ int id[4]; for(int i=0;i<nd;i++) id[i]=lo[i]; for(;;){ f(id); int i=nd-1; while(i>=0&&++id[i]>hi[i]){ id[i]=lo[i]; i--; } if(i<0) return; } }
struct OBlk { int lo[4],hi[4]; int idx; };
// the partition of the array: owner (group rank or block number) of each element
static std::vector<int> owners(Case&c,GArr&a,std::vector<OBlk>&bl){ const ArrSpec&s=a.s; std::vector<int> own(s.size(),-1); bool cy=cyc(s); int nb=cy?GA_Total_blocks(a.g):c.np; if(cy&&nb<1) sim_fail("wrong-blocks","%s: a %s array reports %d blocks",c.name,dname(s.dist),nb);
  for(int b=0;b<nb;b++){ OBlk k; k.idx=b; for(int i=0;i<4;i++) k.lo[i]=k.hi[i]=-7; NGA_Distribution(a.g,b,k.lo,k.hi); bool any=true; for(int i=0;i<s.nd;i++) if(k.hi[i]<k.lo[i]||k.lo[i]<0) any=false; if(!any) continue;
    if(!inb(s,k.lo,k.hi)) sim_fail("wrong-blocks","%s: block %d of a %s array reaches outside the array (%s)",c.name,b,dname(s.dist),ixs(s,k.hi));
    each(s.nd,k.lo,k.hi,[&](const int*id){ int&o=own[s.lin(id)]; if(o>=0) sim_fail("two-owners","%s: element [%s] of a %s array belongs to blocks %d and %d",c.name,ixs(s,id),dname(s.dist),o,b); o=b; }); bl.push_back(k); }
  for(long e=0;e<s.size();e++) if(own[e]<0){ int id[4]; s.index(e,id); sim_fail("no-owner","%s: element [%s] of a %s array belongs to no block",c.name,ixs(s,id),dname(s.dist)); }
  sim_count("partitions checked",1); return own; }
// what the caller asked for when creating the array
static void asked(Case&c,GArr&a,const std::vector<OBlk>&bl){ const ArrSpec&s=a.s;
  for(auto&k:bl) for(int i=0;i<s.nd;i++){
    if(s.dist==D_CHUNK&&s.chunk[0]!=0&&s.chunk[i]==s.dims[i]&&(k.lo[i]!=0||k.hi[i]!=s.dims[i]-1)) sim_fail("wrong-blocks","%s: dimension %d is split although its chunk is the whole dimension",c.name,i);
    if((s.dist==D_BC||s.dist==D_SCAL||s.dist==D_TILE)&&(k.lo[i]%s.block[i]||(k.hi[i]!=s.dims[i]-1&&k.hi[i]-k.lo[i]+1!=s.block[i]))) sim_fail("wrong-blocks","%s: block %d of a %s array covers %d..%d of dimension %d, block size %d",c.name,k.idx,dname(s.dist),k.lo[i],k.hi[i],i,s.block[i]);
    if(s.dist==D_IRREG||s.dist==D_TIRR){ int off=0; for(int j=0;j<i;j++) off+=s.nblk[j]; bool lo=false,hi=k.hi[i]==s.dims[i]-1; for(int j=0;j<s.nblk[i];j++){ if(s.map[off+j]==k.lo[i]) lo=true; if(s.map[off+j]==k.hi[i]+1) hi=true; } if(!lo||!hi) sim_fail("wrong-blocks","%s: block %d of a %s array covers %d..%d of dimension %d, which is not a block of the given map",c.name,k.idx,dname(s.dist),k.lo[i],k.hi[i],i); } }
  if(s.dist==D_RESTR) for(auto&k:bl){ bool ok=false; for(int r:s.rlist) if(r==k.idx) ok=true; if(!ok) sim_fail("wrong-blocks","%s: process %d owns a block of an array restricted to other processes",c.name,k.idx); } }
static void queries(Case&c,GArr&a,const std::vector<int>&own,const std::vector<OBlk>&bl){ const ArrSpec&s=a.s; bool cy=cyc(s); Rng q(c.r.s+c.me*97);   // every process asks different questions
  for(int t=0;t<12;t++){ int id[4]; for(int i=0;i<4;i++) id[i]=(int)q.below(s.dims[i]); int w=NGA_Locate(a.g,id),o=own[s.lin(id)]; if(w!=o) sim_fail("wrong-owner","%s: element [%s] of a %s array is located at %d, but block %d contains it",c.name,ixs(s,id),dname(s.dist),w,o); if(!cy){ int x[4]; for(int i=0;i<4;i++) x[i]=id[i]; int d=(int)q.below(s.nd); x[d]=q.chance(0.5)?s.dims[d]:-1; if(NGA_Locate(a.g,x)!=-1) sim_fail("wrong-owner","%s: an element outside the array has an owner",c.name); } }
  for(int t=0;t<5;t++){ int lo[4],hi[4]; for(int i=0;i<4;i++){ int x=(int)q.below(s.dims[i]),y=(int)q.below(s.dims[i]); if(q.chance(0.3)) y=x; lo[i]=std::min(x,y); hi[i]=std::max(x,y); }
    int nn=NGA_Locate_nnodes(a.g,lo,hi); if(nn<0||nn>(int)bl.size()) sim_fail("wrong-region","%s: a region of a %s array has %d owners of %zu blocks",c.name,dname(s.dist),nn,bl.size()); std::vector<int> map(2*s.nd*(nn+1),-9),pr(nn+1,-9); int n=NGA_Locate_region(a.g,lo,hi,map.data(),pr.data()); if(n!=nn) sim_fail("wrong-region","%s: region query of a %s array reports %d owners, then %d",c.name,dname(s.dist),nn,n);
    int nblk=NGA_Locate_num_blocks(a.g,lo,hi); if(nblk!=(cy?n:-1)) sim_fail("wrong-region","%s: region query of a %s array reports %d pieces, the number of blocks is %d",c.name,dname(s.dist),n,nblk);
    long tot=0; std::vector<char> seen(s.size(),0);
    for(int k=0;k<n;k++){ int*pl=&map[2*s.nd*k],*ph=pl+s.nd; for(int i=0;i<s.nd;i++) if(pl[i]<lo[i]||ph[i]>hi[i]||pl[i]>ph[i]){ char l[64]; snprintf(l,64,"%s",ixs(s,pl)); sim_fail("wrong-region","%s: piece %d of a region of a %s array, [%s]..[%s], reaches outside the region",c.name,k,dname(s.dist),l,ixs(s,ph)); }
      each(s.nd,pl,ph,[&](const int*id){ long e=s.lin(id); if(own[e]!=pr[k]) sim_fail("wrong-region","%s: element [%s] of a %s array is in the piece of %d, but block %d contains it",c.name,ixs(s,id),dname(s.dist),pr[k],own[e]); if(seen[e]) sim_fail("wrong-region","%s: element [%s] is in two pieces of a region",c.name,ixs(s,id)); seen[e]=1; tot++; }); }
    long want=1; for(int i=0;i<s.nd;i++) want*=hi[i]-lo[i]+1; if(tot!=want){ char l[64]; snprintf(l,64,"%s",ixs(s,lo)); sim_fail("wrong-region","%s: the %d pieces of the region [%s]..[%s] of a %s array have %ld elements, the region %ld",c.name,n,l,ixs(s,hi),dname(s.dist),tot,want); } }
  int type,nd,dims[7]; NGA_Inquire(a.g,&type,&nd,dims); bool ok=type==ctype(s.type)&&nd==s.nd&&GA_Ndim(a.g)==s.nd; for(int i=0;i<s.nd&&ok;i++) ok=dims[i]==s.dims[i]; if(!ok) sim_fail("wrong-inquiry","%s: the shape or type reported for a %s array is wrong",c.name,dname(s.dist));
  int nb[7]; GA_Nblock(a.g,nb); std::vector<std::set<int>> cuts(s.nd); for(auto&k:bl) for(int i=0;i<s.nd;i++) cuts[i].insert(k.lo[i]); for(int i=0;i<s.nd;i++) if(nb[i]!=(int)cuts[i].size()) sim_fail("wrong-blocks","%s: a %s array reports %d blocks in dimension %d, it has %zu",c.name,dname(s.dist),nb[i],i,cuts[i].size());
  if(!cy&&s.dist!=D_RESTR) for(auto&k:bl){ int co[7]; NGA_Proc_topology(a.g,k.idx,co); std::reverse(co,co+s.nd);   /* these two queries report dimensions in Fortran order */ for(int i=0;i<s.nd;i++){ int rank=(int)std::distance(cuts[i].begin(),cuts[i].find(k.lo[i])); if(co[i]!=rank) sim_fail("wrong-topology","%s: process %d of a %s array has coordinate %d in dimension %d, its block is number %d",c.name,k.idx,dname(s.dist),co[i],i,rank); } }
  if(s.dist==D_SCAL||s.dist==D_TILE){ int n2[7],b2[7]; GA_Get_block_info(a.g,n2,b2); for(int i=0;i<s.nd;i++) if(n2[i]!=(int)cuts[i].size()||b2[i]!=s.block[i]) sim_fail("wrong-blocks","%s: block information of a %s array is wrong in dimension %d",c.name,dname(s.dist),i); }
  sim_count("query rounds",1); }
// the blocks this process can address directly: pointer and strides of each
struct OLoc { OBlk b; char*p; int ld[4]; };
static void touch(Case&c,GArr&a,const OLoc&l,const std::function<Val(long)>*put,const char*how){ const ArrSpec&s=a.s; int es=tsize(s.type);
  each(s.nd,l.b.lo,l.b.hi,[&](const int*id){ long o=id[0]-l.b.lo[0]; for(int i=1;i<s.nd;i++) o=o*l.ld[i-1]+(id[i]-l.b.lo[i]); long e=s.lin(id); char*q=l.p+o*es; if(put) enc(s.type,q,(*put)(e)); else { Val g=dec(s.type,q); if(g!=a.v[e]) sim_fail("wrong-local","%s: element [%s] of a %s %s array is (%ld,%ld) through %s on process %d, expected (%ld,%ld)",c.name,ixs(s,id),tname(s.type),dname(s.dist),g.re,g.im,how,c.me,a.v[e].re,a.v[e].im); } }); }
// visits all local blocks, through one of the interfaces
static void visit(Case&c,GArr&a,const std::vector<OBlk>&bl,int how,const std::function<Val(long)>*put){ const ArrSpec&s=a.s; long n=0; std::set<int> seen; Rng q(c.r.s+c.me*71);
  // the segment that holds all of this process's blocks
  char*seg=nullptr; long slen=0,tot=0; if(cyc(s)&&q.chance(0.5)){ void*sp=0; if(q.chance(0.5)){ int l=0; NGA_Access_block_segment(a.g,c.me,&sp,&l); slen=l; } else { int64_t l=0; NGA_Access_block_segment64(a.g,c.me,&sp,&l); slen=(long)l; } seg=(char*)sp; }
  auto inseg=[&](const OLoc&l){ if(!seg) return; long sz=1; for(int i=0;i<s.nd;i++) sz*=l.b.hi[i]-l.b.lo[i]+1; tot+=sz; if(l.p<seg||l.p>=seg+slen*(long)tsize(s.type)) sim_fail("wrong-local","%s: block %d of process %d of a %s array lies outside the segment of its process",c.name,l.b.idx,c.me,dname(s.dist)); sim_count("blocks in a segment",1); };
  if(!cyc(s)){ for(auto&k:bl) if(k.idx==c.me){ OLoc l; l.b=k; void*p=0; if(q.chance(0.4)&&!put) for(int i=0;i<s.nd;i++){ int x=(int)q.range(k.lo[i],k.hi[i]),y=(int)q.range(k.lo[i],k.hi[i]); l.b.lo[i]=std::min(x,y); l.b.hi[i]=std::max(x,y); } NGA_Access(a.g,l.b.lo,l.b.hi,&p,l.ld); l.p=(char*)p; touch(c,a,l,put,"direct access"); if(put) NGA_Release_update(a.g,l.b.lo,l.b.hi); else NGA_Release(a.g,l.b.lo,l.b.hi); n++; } }
  else if(s.dist==D_BC){ for(auto&k:bl) if(k.idx%c.np==c.me){ OLoc l; l.b=k; void*p=0; NGA_Access_block(a.g,k.idx,&p,l.ld); l.p=(char*)p; inseg(l); touch(c,a,l,put,"block access"); if(put) NGA_Release_update_block(a.g,k.idx); else NGA_Release_block(a.g,k.idx); n++; } }
  else{ int pg[7],pi[7]; GA_Get_proc_grid(a.g,pg); std::reverse(pg,pg+s.nd); GA_Get_proc_index(a.g,c.me,pi); std::vector<std::vector<int>> cut(s.nd); for(int i=0;i<s.nd;i++){ std::set<int> st; for(auto&k:bl) st.insert(k.lo[i]); cut[i].assign(st.begin(),st.end()); if(pg[i]!=s.grid[i]) sim_fail("wrong-topology","%s: the process grid of a %s array is %d in dimension %d, expected %d",c.name,dname(s.dist),pg[i],i,s.grid[i]); if(pi[i]<0||pi[i]>=pg[i]) sim_fail("wrong-topology","%s: process %d has grid coordinate %d of %d in dimension %d",c.name,c.me,pi[i],pg[i],i); }
    for(auto&k:bl){ int ix[7]; bool mine=true; for(int i=0;i<s.nd;i++){ ix[i]=(int)(std::lower_bound(cut[i].begin(),cut[i].end(),k.lo[i])-cut[i].begin()); if(ix[i]%pg[i]!=pi[i]) mine=false; } if(!mine) continue; OLoc l; l.b=k; void*p=0; if(how==1) NGA_Access_block_grid(a.g,ix,&p,l.ld); else NGA_Access_block(a.g,k.idx,&p,l.ld); l.p=(char*)p; inseg(l); touch(c,a,l,put,how==1?"block grid access":"block access"); if(how==1){ if(put) NGA_Release_update_block_grid(a.g,ix); else NGA_Release_block_grid(a.g,ix); } else { if(put) NGA_Release_update_block(a.g,k.idx); else NGA_Release_block(a.g,k.idx); } n++; } }
  if(seg){ if(put) NGA_Release_update_block_segment(a.g,c.me); else NGA_Release_block_segment(a.g,c.me); if(tot>slen) sim_fail("wrong-inquiry","%s: the segment of process %d of a %s array is %ld elements long, its blocks hold %ld",c.name,c.me,dname(s.dist),slen,tot); }
  sim_count("local blocks visited",n); }
static void c_map(Case&c){ int nd=(int)c.r.range(1,4),d[4]; dims_for(c,nd,d); int type=(int)c.r.below(T_N); GArr a=mk(c,type,nd,d); randfill(c,a,50); std::vector<OBlk> bl; std::vector<int> own=owners(c,a,bl); asked(c,a,bl); int rounds=(int)c.r.range(1,3);
  csync(c);
  for(int t=0;t<rounds;t++){ jitter(c); if(c.r.chance(0.7)) queries(c,a,own,bl); visit(c,a,bl,(int)c.r.below(2),nullptr); csync(c);
    uint64_t salt=c.r.next(); std::function<Val(long)> f=[&](long e){ Rng q(salt+e*77); Val v; v.re=q.range(-99,99); if(tcplx(type)) v.im=q.range(-99,99); return v; };
    if(c.r.chance(0.7)){ visit(c,a,bl,(int)c.r.below(2),&f); for(long e=0;e<a.s.size();e++) a.v[e]=f(e); csync(c); } else { for(long e=0;e<a.s.size();e++) a.v[e]=f(e); load(c,a); csync(c); }
    if(c.r.chance(0.3)){ GArr b; b.s=a.s; b.v=a.v; b.g=GA_Duplicate(a.g,(char*)"twin"); b.alive=true; if(!b.g) sim_fail("create-failed","duplicating an array failed"); if(GA_Compare_distr(a.g,b.g)!=0) sim_fail("wrong-inquiry","%s: a duplicate of a %s array has another distribution",c.name,dname(a.s.dist)); std::vector<OBlk> bb; if(owners(c,b,bb)!=own) sim_fail("wrong-blocks","%s: a duplicate of a %s array has other blocks",c.name,dname(a.s.dist)); load(c,b); csync(c); visit(c,b,bb,(int)c.r.below(2),nullptr); csync(c); drop(c,b); }
    if(c.r.chance(0.8)) expect(c,a,"direct access and remote reads"); csync(c); }
  drop(c,a); }
static const Cases CS={{"ownership",c_map,1}};
COLL_WORKLOAD(own,CS,40,1,8,260)
