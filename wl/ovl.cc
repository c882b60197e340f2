// C16: arrays laid over the memory of another array, and arrays assembled from memory the caller got.
#include "coll.h"
struct Loc { long n=0; char*p=nullptr; };
static Loc local_of(Case&c,int g,int nd){ int lo[4],hi[4],ld[4]; Loc l; NGA_Distribution(g,c.me,lo,hi); l.n=1; for(int i=0;i<nd;i++){ if(hi[i]<lo[i]||lo[i]<0){ l.n=0; return l; } l.n*=hi[i]-lo[i]+1; } void*p; NGA_Access(g,lo,hi,&p,ld); l.p=(char*)p; NGA_Release(g,lo,hi); return l; }
static int begin(Case&c,const ArrSpec&s){ ArrSpec a=s; int g=GA_Create_handle(); GA_Set_data(g,a.nd,a.dims,ctype(a.type)); GA_Set_array_name(g,(char*)"overlay"); if(c.group) GA_Set_pgroup(g,c.grp); if(a.dist==D_CHUNK) GA_Set_chunk(g,a.chunk); if(a.dist==D_IRREG) GA_Set_irreg_distr(g,a.map.data(),a.nblk); return g; }
static int anytype(Case&c){ static const int t[]={T_INT,T_LONG,T_LL,T_FLT,T_DBL,T_SC,T_DC}; return t[c.r.below(7)]; }
static void some_ops(Case&c,GArr&a,const char*what){ randfill(c,a); csync(c); expect(c,a,what); csync(c); if(c.r.chance(0.6)){ char v[16]; Val x=rnd(c,a.s.type,4); enc(a.s.type,v,x); GA_Scale(a.g,v); for(auto&e:a.v) e=e*x; expect(c,a,what); csync(c); } }
static void c_overlay(Case&c){ int pt=anytype(c),pnd=(int)c.r.pick({1,2,3}),pd[4]; dims_for(c,pnd,pd); GArr p=mk(c,pt,pnd,pd,M_BASIC); int rounds=(int)c.r.range(1,3); for(int rd=0;rd<rounds;rd++){ randfill(c,p); csync(c);
    Loc pl=local_of(c,p.g,pnd); int n=(int)c.r.range(1,2); bool touched=false; std::vector<GArr> ov; for(int k=0;k<n;k++){ int t=anytype(c),nd=(int)c.r.pick({1,2,3}),d[4]; Case h=c; h.size=std::max(1L,c.size*tsize(pt)/tsize(t)); if(c.r.chance(0.7)) h.size=std::max(1L,h.size/2); h.r=Rng(c.r.next()); dims_for(h,nd,d); GArr a; a.s=make_spec((long)(c.r.next()>>40),t,nd,d,pick_dist(c,M_BASIC),c.np);
      int tw=create_arr(a.s,"twin",c.group?c.grp:-1); int lo[4],hi[4]; NGA_Distribution(tw,c.me,lo,hi); long m=1; for(int i=0;i<nd;i++) m*=hi[i]<lo[i]||lo[i]<0?0:hi[i]-lo[i]+1; GA_Destroy(tw); int fits=m*tsize(t)<=pl.n*tsize(pt); if(c.group) GA_Pgroup_igop(c.grp,&fits,1,(char*)"min"); else GA_Igop(&fits,1,(char*)"min");
      a.g=begin(c,a.s); int ok=GA_Overlay(a.g,p.g); if((ok!=0)!=(fits!=0)) sim_fail("wrong-result","an overlay that %s every process's part of its parent was %s",fits?"fits in":"does not fit in",ok?"accepted":"refused"); if(!ok){ sim_count("overlays refused",1); csync(c); if(!touched) expect(c,p,"array after a refused overlay"); csync(c); continue; }

      touched=true; a.alive=true; a.v.resize(a.s.size()); sim_count("overlays",1); Loc al=local_of(c,a.g,nd); if(al.n!=m) sim_fail("wrong-distribution","an overlay holds %ld elements where an ordinary array of the same shape holds %ld",al.n,m); if(al.n&&al.p!=pl.p) sim_fail("wrong-value","an overlay does not use its parent's memory"); csync(c);
      std::vector<char> tail(pl.p+m*tsize(t),pl.p+pl.n*tsize(pt)); csync(c); jitter(c); some_ops(c,a,"overlay"); if(memcmp(tail.data(),pl.p+m*tsize(t),tail.size())) sim_fail("wrong-value","operations on an overlay of %ld bytes changed its parent's memory behind it",m*tsize(t)); csync(c); if(c.r.chance(0.3)){ GArr e=a; e.g=GA_Duplicate(a.g,(char*)"own memory"); Loc el=local_of(c,e.g,nd); if(el.n&&el.p==al.p) sim_fail("wrong-value","the duplicate of an overlay uses the overlay's memory"); some_ops(c,e,"duplicate of an overlay"); expect(c,a,"overlay after its duplicate was used"); csync(c); drop(c,e); } if(c.r.chance(0.7)){ drop(c,a); } else ov.push_back(a); }
    int ct=0; for(auto&a:ov){ (void)ct; some_ops(c,a,"one of several overlays"); } for(auto&a:ov) drop(c,a); some_ops(c,p,"array after its overlays are gone"); }
  drop(c,p); }
static void c_assemble(Case&c){ if(c.group){ c_overlay(c); return; } int t=anytype(c),nd=(int)c.r.pick({1,2,3}),d[4]; dims_for(c,nd,d); GArr a=mk(c,t,nd,d,M_BASIC|M_RESTR); randfill(c,a); csync(c); int lo[4],hi[4]; NGA_Distribution(a.g,c.me,lo,hi); int m=1; for(int i=0;i<nd;i++) m*=hi[i]<lo[i]||lo[i]<0?0:hi[i]-lo[i]+1; long i0=(long)GA_Inquire_memory(); void*p=GA_Getmem(ctype(t),m,-1); if(!p) sim_fail("create-failed","GA_Getmem of %d elements returned nothing",m); GArr b=a; b.g=GA_Assemble_duplicate(a.g,(char*)"assembled",p); sim_count("assembled arrays",1); jitter(c); some_ops(c,b,"array assembled from the caller's memory"); expect(c,a,"original of an assembled array"); csync(c); GArr e; bool dup=c.r.chance(0.3); if(dup){ e=b; e.g=GA_Duplicate(b.g,(char*)"again"); some_ops(c,e,"duplicate of an assembled array"); } bool first=c.r.chance(0.5); if(first){ drop(c,a); some_ops(c,b,"assembled array after its original is gone"); drop(c,b); } else { drop(c,b); some_ops(c,a,"original after its assembled duplicate is gone"); drop(c,a); } if(dup){ some_ops(c,e,"duplicate of an array that is gone"); drop(c,e); } (void)i0; }
static const Cases cases={{"overlay",c_overlay,3},{"assembled",c_assemble,2}};
COLL_WORKLOAD(ovl,cases,30,1,6,150)
