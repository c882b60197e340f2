// C11: ghost cells mirror their neighbours. Each process keeps a model of its own block with ghost
// cells; every kind of update, direct access and ordinary transfers are mixed, and the whole local
// block, ghosts included, is compared with the model after every step.
#include "coll.h"
extern "C" { void pnga_update1_ghosts(long); long pnga_update2_ghosts(long),pnga_update3_ghosts(long),pnga_update44_ghosts(long),pnga_update7_ghosts(long); }
struct GhArr { GArr a; int gw[4]; int lo[4],hi[4],le[4]; long ln; bool data; std::vector<Val> loc; bool well; };   // loc: local block with ghosts, row-major
static void lidx(const GhArr&h,long k,int*r){ for(int i=h.a.s.nd-1;i>=0;i--){ r[i]=k%h.le[i]; k/=h.le[i]; } }
static bool inner(const GhArr&h,const int*r){ for(int i=0;i<h.a.s.nd;i++) if(r[i]<h.gw[i]||r[i]>=h.le[i]-h.gw[i]) return false; return true; }
static long wrapped(const GhArr&h,const int*r){ int id[4]; for(int i=0;i<h.a.s.nd;i++){ int d=h.a.s.dims[i]; id[i]=((h.lo[i]-h.gw[i]+r[i])%d+d)%d; } return h.a.s.lin(id); }
// side of local coordinate r in dimension i: -1 low ghost, 0 interior, 1 high ghost
static int side(const GhArr&h,const int*r,int i){ return r[i]<h.gw[i]?-1:r[i]>=h.le[i]-h.gw[i]?1:0; }
static void settle(GhArr&h){ if(!h.data) return; for(long k=0;k<h.ln;k++){ int r[4]; lidx(h,k,r); if(inner(h,r)) h.loc[k]=h.a.v[wrapped(h,r)]; } }
static void fresh(GhArr&h,std::function<bool(const int*)> sel){ if(!h.data) return; for(long k=0;k<h.ln;k++){ int r[4]; lidx(h,k,r); if(!inner(h,r)&&sel(r)) h.loc[k]=h.a.v[wrapped(h,r)]; } }
static void local(Case&c,GhArr&h,const char*what,bool put=false){ if(!h.data) return; const ArrSpec&s=h.a.s; int dims[7],ld[7]; void*p=0; for(int i=0;i<7;i++) dims[i]=ld[i]=-5; int es=tsize(s.type); Rng q(c.r.s+c.me*17+put);
  bool elem=q.chance(0.25); int base[4]={0,0,0,0};
  if(elem){ for(int i=0;i<s.nd;i++) base[i]=(int)q.below(h.le[i]); NGA_Access_ghost_element(h.a.g,&p,base,ld); } else NGA_Access_ghosts(h.a.g,dims,&p,ld);
  for(int i=0;i<s.nd;i++){ if(!elem&&dims[i]!=h.le[i]) sim_fail("wrong-shape","%s: the local block with ghosts has extent %d in dimension %d, expected %d",c.name,dims[i],i,h.le[i]); if(i&&ld[i-1]!=h.le[i]) sim_fail("wrong-shape","%s: the local block with ghosts has leading dimension %d, expected %d",c.name,ld[i-1],h.le[i]); }
  long bo=0; for(int i=0;i<s.nd;i++) bo=bo*h.le[i]+base[i]; char*b=(char*)p-bo*es;
  for(long k=0;k<h.ln;k++){ if(put){ enc(s.type,b+k*es,h.loc[k]); continue; } Val g=dec(s.type,b+k*es); if(g!=h.loc[k]){ int r[4]; lidx(h,k,r); char ix[64],w[64]; int o=0,o2=0; for(int i=0;i<s.nd;i++){ o+=snprintf(ix+o,64-o,"%s%d",i?",":"",h.lo[i]-h.gw[i]+r[i]); o2+=snprintf(w+o2,64-o2,"%s%d",i?"x":"",s.dims[i]); } bool in=inner(h,r); sim_fail(in?"wrong-value":"wrong-ghost","%s: after %s the %s cell [%s] of a %s %s array on member %d is (%ld,%ld), expected (%ld,%ld)%s",c.name,what,in?"interior":"ghost",ix,w,tname(s.type),c.me,g.re,g.im,h.loc[k].re,h.loc[k].im,c.group?" (on a group)":""); } }
  if(elem){ if(put) NGA_Release_update_ghost_element(h.a.g,base); else NGA_Release_ghost_element(h.a.g,base); } else if(put) NGA_Release_update_ghosts(h.a.g); else NGA_Release_ghosts(h.a.g);
  sim_count("local cells compared",h.ln); }
static GhArr make(Case&c,int type,int nd,const int*d,bool dup=false,GhArr*from=nullptr){ GhArr h; h.well=true; ArrSpec&s=h.a.s; 
  if(from){ h=*from; h.a.g=GA_Duplicate(from->a.g,(char*)"twin"); } else {
    s.type=type; s.nd=nd; for(int i=0;i<4;i++){ s.dims[i]=i<nd?d[i]:1; h.gw[i]=0; } s.dist=D_GHOST; bool irr=c.r.chance(0.4); int how=(int)c.r.below(2),minb[4];
    auto plain=[&]()->bool{ int g=GA_Create_handle(),ch[4]={-1,-1,-1,-1}; GA_Set_data(g,nd,s.dims,ctype(type)); if(c.group) GA_Set_pgroup(g,c.grp); GA_Set_chunk(g,ch); if(!GA_Allocate(g)) sim_fail("create-failed","creating an array failed"); bool all=true; for(int i=0;i<nd;i++) minb[i]=s.dims[i];
      for(int r=0;r<c.np;r++){ int lo[4],hi[4]; NGA_Distribution(g,r,lo,hi); for(int i=0;i<nd;i++){ if(lo[i]<0||hi[i]<lo[i]) all=false; else minb[i]=std::min(minb[i],hi[i]-lo[i]+1); } } GA_Destroy(g); return all; };
    // every process must own data and every block be at least as wide as the ghost region
    if(!irr&&!plain()) irr=true;
    if(irr){ int left=c.np; int nb[4]; for(int i=0;i<nd;i++) nb[i]=1; for(int f=2;left>1;){ if(left%f){ f++; continue; } left/=f; int k=(int)c.r.below(nd),t=0; while(t<nd&&nb[(k+t)%nd]*f>s.dims[(k+t)%nd]) t++; if(t==nd){ nb[0]*=f; left*=f; break; } nb[(k+t)%nd]*=f; }
      if(left>1){ for(int i=1;i<nd;i++) nb[i]=1; nb[0]=c.np; }
      for(int i=0;i<nd;i++){ int slack=s.dims[i]-nb[i],x=0; minb[i]=s.dims[i]; bool even=c.r.chance(0.5); for(int k=0;k<nb[i];k++){ s.map.push_back(x); int e=even?slack/(nb[i]-k):(int)c.r.range(0,slack/(nb[i]-k)); if(k==nb[i]-1) e=slack; slack-=e; minb[i]=std::min(minb[i],1+e); x+=1+e; } s.nblk[i]=nb[i]; } }
    for(int i=0;i<nd;i++) h.gw[i]=(int)c.r.range(0,std::min(4,minb[i])); int ch[4]={-1,-1,-1,-1};
    for(int i=0;i<nd;i++) if(h.gw[i]>0) goto ok; h.gw[0]=1; ok:;
    bool cf=false;
    if(how==0){ int g=GA_Create_handle(); GA_Set_data(g,nd,s.dims,ctype(type)); GA_Set_array_name(g,(char*)"gho"); if(c.group) GA_Set_pgroup(g,c.grp); GA_Set_ghosts(g,h.gw); if(irr) GA_Set_irreg_distr(g,s.map.data(),s.nblk); else GA_Set_chunk(g,ch); h.a.g=GA_Allocate(g)?g:0; }
    else h.a.g=irr?NGA_Create_ghosts_irreg(ctype(type),nd,s.dims,h.gw,(char*)"gho",s.nblk,s.map.data()):NGA_Create_ghosts(ctype(type),nd,s.dims,h.gw,(char*)"gho",ch); (void)cf; }
  if(!h.a.g) sim_fail("create-failed","creating an array with ghosts failed"); h.a.alive=true; if(!GA_Has_ghosts(h.a.g)) sim_fail("wrong-shape","an array created with ghosts has none"); h.a.v.assign(s.size(),Val());
  auto range=[&](int r){ for(int i=0;i<4;i++){ h.lo[i]=h.hi[i]=-9; h.le[i]=1; } NGA_Distribution(h.a.g,r,h.lo,h.hi); bool any=true; for(int i=0;i<nd;i++) if(h.lo[i]<0||h.hi[i]<h.lo[i]) any=false; return any; };
  h.well=true; for(int r=0;r<c.np;r++) if(range(r)) for(int i=0;i<nd;i++) if(h.hi[i]-h.lo[i]+1<h.gw[i]) h.well=false;
  h.data=range(c.me); h.ln=1; if(h.data) for(int i=0;i<nd;i++){ h.le[i]=h.hi[i]-h.lo[i]+1+2*h.gw[i]; h.ln*=h.le[i]; } else h.ln=0;
  h.loc.assign(h.ln,Val()); Rng q(c.r.next()+c.me*7); for(auto&v:h.loc){ v.re=q.range(-900,-500); }
  // start from known contents everywhere, ghost cells included
  for(auto&v:h.a.v) v=rnd(c,type,99); settle(h); csync(c); local(c,h,"",true); csync(c); if(!h.well) sim_count("ghosts wider than a block",1); sim_count("ghost arrays",1); return h; }
static void c_ghost(Case&c){ int nd=(int)c.r.range(1,c.r.chance(0.2)?4:3),d[4]; dims_for(c,nd,d); if(d[0]<c.np) d[0]=c.np+(int)c.r.below(c.np+1); int type=(int)c.r.below(T_N); GhArr h=make(c,type,nd,d); const ArrSpec&s=h.a.s; local(c,h,"creation"); csync(c);
  int n=(int)c.r.range(1,5);
  for(int t=0;t<n;t++){ jitter(c); int w=(int)c.r.below(10); sim_trace("step %d",w);
    if(w<3){ if(c.r.chance(0.2)){ csync(c); int b=(int)c.r.below(2); GA_Mask_sync(b,b?0:(int)c.r.below(2)); c.masked=true; sim_count("operations with masked synchronisation",1); } bool up=false; if(!c.masked&&c.r.chance(0.35)){ int k=(int)c.r.below(5); csync(c); long st=k==0?(pnga_update1_ghosts(h.a.g),1):k==1?pnga_update2_ghosts(h.a.g):k==2?pnga_update3_ghosts(h.a.g):k==3?pnga_update44_ghosts(h.a.g):pnga_update7_ghosts(h.a.g); csync(c); if(h.well&&!st) sim_fail("update-refused","%s: an explicit ghost update (kind %d) was refused",c.name,k); up=st; if(up) sim_count("explicit ghost updates",1); } if(!up) GA_Update_ghosts(h.a.g); unmask(c); fresh(h,[](const int*){return true;}); local(c,h,"an update of all ghosts"); csync(c); sim_count("full updates",1); }
    else if(w==3&&h.well){ csync(c); if(h.data){ ga_nbhdl_t nb; NGA_Update_ghosts_nb(h.a.g,&nb); Rng q(c.r.s+c.me); if(q.chance(0.3)) sim_stall(10000); NGA_NbWait(&nb); } fresh(h,[](const int*){return true;}); local(c,h,"a nonblocking update of all ghosts"); csync(c); sim_count("nonblocking updates",1); }
    else if(w==4&&h.well){ int dim=(int)c.r.below(nd),dir=c.r.chance(0.5)?1:-1,flag=(int)c.r.below(2); bool ok=h.gw[dim]>0; for(int i=0;i<nd;i++) if(flag&&!h.gw[i]) ok=false; if(!ok) continue; bool all=true; for(int r=0;r<c.np;r++){ int lo[4],hi[4]; NGA_Distribution(h.a.g,r,lo,hi); for(int i=0;i<nd;i++) if(lo[i]<0||hi[i]<lo[i]) all=false; } if(!all) continue;
      if(!NGA_Update_ghost_dir(h.a.g,dim,dir,flag)) sim_fail("update-refused","%s: a directional ghost update was refused",c.name); fresh(h,[&](const int*r){ if(side(h,r,dim)!=dir) return false; if(!flag) for(int i=0;i<nd;i++) if(i!=dim&&side(h,r,i)) return false; return true; }); local(c,h,"a directional update"); csync(c); sim_count("directional updates",1); }
    else if(w==5&&h.well){ csync(c); if(h.data){ Rng q(c.r.s+c.me*3); int k=(int)q.range(1,3); std::vector<ga_nbhdl_t> nb(k); for(int j=0;j<k;j++){ int m[7]; bool ok=true,any=false; for(int i=0;i<nd;i++){ m[i]=(int)q.range(-1,1); if(m[i]){ any=true; if(!h.gw[i]) ok=false; } } if(!any||!ok){ k=j; break; } NGA_NbGet_ghost_dir(h.a.g,m,&nb[j]); int mm[4]; memcpy(mm,m,sizeof mm); fresh(h,[&](const int*r){ for(int i=0;i<nd;i++) if(side(h,r,i)!=mm[i]) return false; return true; }); sim_count("ghost direction gets",1); } for(int j=k-1;j>=0;j--) NGA_NbWait(&nb[j]); } local(c,h,"fetching a ghost direction"); csync(c); }
    else if(w==6){ // ordinary transfers never see ghosts
      csync(c); load(c,h.a); Reg p=rpatch(c,s); bool whole=c.r.chance(0.5); for(auto&v:h.a.v) v=rnd(c,type,99); csync(c); load(c,h.a); csync(c); if(c.me==0){ long k=rsize(p,nd); int ld[4]; for(int i=1;i<nd;i++) ld[i-1]=p.hi[i]-p.lo[i]+1; char*b=(char*)sim_buf(k*tsize(type)); for(long j=0;j<k;j++){ Val o; o.re=3; enc(type,b+j*tsize(type),o); } Val one; one.re=1; char al[16]; enc(type,al,one); if(whole||type==T_LL) NGA_Put(h.a.g,p.lo,p.hi,b,ld); else NGA_Acc(h.a.g,p.lo,p.hi,b,ld,al); sim_buf_free(b); } { long k=rsize(p,nd); for(long j=0;j<k;j++){ Val o; o.re=3; long e=rlin(s,p,j); h.a.v[e]=(whole||type==T_LL)?o:h.a.v[e]+o; } } csync(c); settle(h); expect(c,h.a,"transfers to an array with ghosts"); csync(c); local(c,h,"ordinary transfers"); csync(c); }
    else if(w==7){ Rng q(c.r.next()+c.me*3); Val v=rnd(c,type,50); char b[16]; enc(type,b,v); if(c.r.chance(0.3)){ GA_Zero(h.a.g); v=Val(); } else GA_Fill(h.a.g,b); for(auto&x:h.a.v) x=v; csync(c); expect(c,h.a,"filling an array with ghosts"); csync(c); for(auto&x:h.loc){ x=Val(); x.re=q.range(300,500); } settle(h); local(c,h,"",true); csync(c); }
    else if(w==8){ // write through direct access, own block and ghosts
      csync(c); uint64_t salt=c.r.next(); for(long e=0;e<s.size();e++){ Rng q(salt+e*3); h.a.v[e]=Val(); h.a.v[e].re=q.range(-99,99); } Rng q(c.r.s+c.me*3); for(auto&x:h.loc){ x=Val(); x.re=q.range(600,900); } settle(h); local(c,h,"",true); csync(c); expect(c,h.a,"writing through ghost access"); csync(c); }
    else { // fetch of a block that may cross the boundary, with all ghosts up to date
      GA_Update_ghosts(h.a.g); fresh(h,[](const int*){return true;}); Rng q(c.r.s+c.me*29); for(int k=0;k<3;k++){ int lo[4],hi[4],ld[4]; long cnt=1; bool near=h.data&&q.chance(0.7); for(int i=0;i<nd;i++){ int x,y; if(near){ x=(int)q.range(h.lo[i]-h.gw[i],h.hi[i]+h.gw[i]); y=(int)q.range(h.lo[i]-h.gw[i],h.hi[i]+h.gw[i]); } else { x=(int)q.range(-std::min(2,s.dims[i]-1),s.dims[i]-1); y=x+(int)q.below(s.dims[i]); if(y<0) y=0; if(y-x>=s.dims[i]) y=x+s.dims[i]-1; } lo[i]=std::min(x,y); hi[i]=std::max(x,y); cnt*=hi[i]-lo[i]+1; if(i) ld[i-1]=hi[i]-lo[i]+1; }
        int es=tsize(type); char*b=(char*)sim_buf(cnt*es); NGA_Get_ghost_block(h.a.g,lo,hi,b,ld); for(long j=0;j<cnt;j++){ int id[4]; long x=j; for(int i=nd-1;i>=0;i--){ int e=hi[i]-lo[i]+1; id[i]=lo[i]+x%e; x/=e; id[i]=((id[i]%s.dims[i])+s.dims[i])%s.dims[i]; } Val g=dec(type,b+j*es); if(g!=h.a.v[s.lin(id)]) sim_fail("wrong-value","%s: element %ld of a block fetched with ghosts is (%ld,%ld), expected (%ld,%ld)%s",c.name,j,g.re,g.im,h.a.v[s.lin(id)].re,h.a.v[s.lin(id)].im,c.group?" (on a group)":""); } sim_buf_free(b); sim_count("ghost block fetches",1); } csync(c); local(c,h,"fetching blocks"); csync(c); }
  }
  if(c.r.chance(0.2)){ GhArr t=make(c,type,nd,d,true,&h); GA_Copy(h.a.g,t.a.g); t.a.v=h.a.v; settle(t); csync(c); expect(c,t.a,"copying an array with ghosts"); csync(c); GA_Update_ghosts(t.a.g); fresh(t,[](const int*){return true;}); local(c,t,"an update of a duplicate"); csync(c); drop(c,t.a); }
  drop(c,h.a); }
static const Cases CS={{"ghosts",c_ghost,1}};
COLL_WORKLOAD(gho,CS,35,1,8,200)
