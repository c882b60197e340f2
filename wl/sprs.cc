// C15: sparse arrays against a dense serial model with an explicit nonzero structure
#include "coll.h"
#include <algorithm>
struct Sp { int s=0,m=0,n=0,t=0; bool l64=false; std::vector<Val> v; std::vector<char> has; Val&at(int i,int j){ return v[(long)i*n+j]; } char&h(int i,int j){ return has[(long)i*n+j]; } };
static const char*ix(const Sp&a){ return a.l64?"64-bit":"32-bit"; }
// sparse arrays belong to the group that was the default when they were created; operations on them must not depend on the current default
struct Away { Case&c; bool on; Away(Case&c_):c(c_),on(c_.group&&c_.r.chance(0.4)){ if(on) GA_Pgroup_set_default(GA_Pgroup_get_world()); } ~Away(){ if(on) GA_Pgroup_set_default(c.grp); } };
static Sp shell(Case&c,int t,int m,int n){ Sp a; a.t=t; a.m=m; a.n=n; a.v.assign((long)m*n,Val()); a.has.assign((long)m*n,0); return a; }
static void sdims(Case&c,int*m,int*n){ int side=std::max(2,(int)sqrt((double)c.size)); *m=c.np+(int)c.r.below(side+2); *n=c.np+(int)c.r.below(side+2); if(c.r.chance(0.06)){ *m=c.np+40+(int)c.r.below(30); *n=c.np+30+(int)c.r.below(20); } }
static Sp mks(Case&c,int t,int m,int n,int l64=-1){ Sp a=shell(c,t,m,n); a.l64=l64<0?c.r.chance(0.5):l64; double den=c.r.pick({0.0,0.02,0.1,0.3,0.6,1.0}); int shape=(int)c.r.below(5); int r0=(int)c.r.below(m),r1=(int)c.r.range(r0,m-1),c0=(int)c.r.below(n),c1=(int)c.r.range(c0,n-1);
  std::vector<std::array<int,3>> el; int who=c.r.chance(0.3)?(int)c.r.below(c.np):-1;
  for(int i=0;i<m;i++) for(int j=0;j<n;j++){ bool in=shape==0?i==j||(c.r.chance(den)&&abs(i-j)<3):shape==1?i>=r0&&i<=r1&&j>=c0&&j<=c1&&c.r.chance(den):shape==2?(i%3==0)&&c.r.chance(den):c.r.chance(den); if(!in) continue; a.h(i,j)=1; a.at(i,j)=rnd(c,t,5); el.push_back({i,j,who>=0&&c.r.chance(0.9)?who:(int)c.r.below(c.np)}); }
  a.s=a.l64?NGA_Sprs_array_create64(m,n,ctype(t)):NGA_Sprs_array_create(m,n,ctype(t)); Rng q(c.r.s+c.me*7919); for(long k=(long)el.size()-1;k>0;k--) std::swap(el[k],el[q.below(k+1)]); long mine=0;
  for(auto&e:el) if(e[2]==c.me){ char b[16]; enc(t,b,a.at(e[0],e[1])); if(a.l64) NGA_Sprs_array_add_element64(a.s,e[0],e[1],b); else NGA_Sprs_array_add_element(a.s,e[0],e[1],b); mine++; }
  sim_count("sparse elements added",mine); if(mine>1024) sim_count("element buffers grown",1); jitter(c); Away w(c); if(!NGA_Sprs_array_assemble(a.s)) sim_fail("assemble-failed","assembling a %dx%d sparse array with %ld elements failed",m,n,(long)el.size()); sim_count("sparse arrays",1); if(el.empty()) sim_count("empty sparse arrays",1); return a; }
static void dropS(Case&c,Sp&a){ if(!NGA_Sprs_array_destroy(a.s)) sim_fail("destroy-failed","destroying a sparse array failed"); }
static void lim(Sp&a,bool row,int p,int*lo,int*hi){ if(a.l64){ int64_t l,h; if(row) NGA_Sprs_array_row_distribution64(a.s,p,&l,&h); else NGA_Sprs_array_column_distribution64(a.s,p,&l,&h); *lo=(int)l; *hi=(int)h; } else if(row) NGA_Sprs_array_row_distribution(a.s,p,lo,hi); else NGA_Sprs_array_column_distribution(a.s,p,lo,hi); }
// one block in compressed row format: every element of the model in the block exactly once, with its value. loose: elements of value zero may or may not be stored
static void block(Case&c,Sp&a,int ilo,int ihi,int jlo,int jhi,const void*ip,const void*jp,const void*dp,const char*what,bool loose){
  std::vector<char> seen((long)std::max(0,ihi-ilo+1)*std::max(0,jhi-jlo+1),0); long es=tsize(a.t);
  auto I=[&](const void*p,long k){ return a.l64?(long)((const int64_t*)p)[k]:(long)((const int*)p)[k]; };
  if(dp){ if(I(ip,0)!=0) sim_fail("wrong-structure","%s: %s: the row offsets of block rows %d-%d columns %d-%d start with %ld",c.name,what,ilo,ihi,jlo,jhi,I(ip,0));
    for(int i=ilo;i<=ihi;i++){ long b=I(ip,i-ilo),e=I(ip,i-ilo+1); if(e<b||e-b>a.n) sim_fail("wrong-structure","%s: %s: row %d has offsets %ld to %ld (%s indices)",c.name,what,i,b,e,ix(a)); for(long k=b;k<e;k++){ long j=I(jp,k); if(j<jlo||j>jhi) sim_fail("wrong-structure","%s: %s: row %d lists column %ld outside the column block %d-%d",c.name,what,i,j,jlo,jhi); char&z=seen[(long)(i-ilo)*(jhi-jlo+1)+j-jlo]; if(z) sim_fail("wrong-structure","%s: %s: element [%d,%ld] is stored twice",c.name,what,i,j); z=1; Val g=dec(a.t,(const char*)dp+k*es); if((!a.h(i,(int)j)&&!loose)||g!=a.at(i,(int)j)) sim_fail("wrong-value","%s: %s: element [%d,%ld] of the %dx%d %s sparse array is (%ld,%ld), expected %s(%ld,%ld)",c.name,what,i,j,a.m,a.n,tname(a.t),g.re,g.im,a.h(i,(int)j)?"":"nothing ",a.at(i,(int)j).re,a.at(i,(int)j).im); } } }
  for(int i=ilo;i<=ihi;i++) for(int j=jlo;j<=jhi;j++) if(a.h(i,j)&&!seen[(long)(i-ilo)*(jhi-jlo+1)+j-jlo]&&!(loose&&a.at(i,j)==Val())) sim_fail("missing-element","%s: %s: element [%d,%d] of the %dx%d %s sparse array (%s indices) is missing",c.name,what,i,j,a.m,a.n,tname(a.t),ix(a));
  sim_count("elements compared",(long)seen.size()); }
static void check(Case&c,Sp&a,const char*what,bool loose=false){ int lo,hi,next=0; std::vector<int> cl(c.np),ch(c.np);
  for(int p=0;p<c.np;p++){ lim(a,true,p,&lo,&hi); if(lo!=next||hi<lo-1) sim_fail("wrong-distribution","%s: %s: rows %d-%d of %d belong to member %d, expected to start at %d",c.name,what,lo,hi,a.m,p,next); next=hi+1; } if(next!=a.m) sim_fail("wrong-distribution","%s: %s: the row blocks end at %d of %d rows",c.name,what,next,a.m);
  next=0; for(int p=0;p<c.np;p++){ lim(a,false,p,&cl[p],&ch[p]); if(cl[p]!=next) sim_fail("wrong-distribution","%s: %s: columns %d-%d of %d form block %d, expected to start at %d",c.name,what,cl[p],ch[p],a.n,p,next); next=ch[p]+1; } if(next!=a.n) sim_fail("wrong-distribution","%s: %s: the column blocks end at %d of %d columns",c.name,what,next,a.n);
  lim(a,true,c.me,&lo,&hi); int*list=nullptr,nl=0; NGA_Sprs_array_col_block_list(a.s,&list,&nl); std::vector<char> in(c.np,0); for(int k=0;k<nl;k++){ if(list[k]<0||list[k]>=c.np||in[list[k]]) sim_fail("wrong-structure","%s: %s: the list of column blocks contains %d",c.name,what,list[k]); in[list[k]]=1; } free(list);
  for(int p=0;p<c.np;p++){ void*v=nullptr; void*ip=nullptr,*jp=nullptr; if(a.l64){ int64_t*x,*y; NGA_Sprs_array_access_col_block64(a.s,p,&x,&y,&v); ip=x; jp=y; } else { int*x,*y; NGA_Sprs_array_access_col_block(a.s,p,&x,&y,&v); ip=x; jp=y; }
    if((v!=nullptr)!=(in[p]!=0)) sim_fail("wrong-structure","%s: %s: column block %d is%s in the list but its data is%s there",c.name,what,p,in[p]?"":" not",v?"":" not"); block(c,a,lo,hi,cl[p],ch[p],ip,jp,v,what,loose); }
  Rng q(c.r.s+c.me*31); for(int k=0;k<2;k++){ int ir=(int)q.below(c.np),ic=(int)q.below(c.np); void*d=nullptr; int b[4]; void*ip,*jp; int ret; if(a.l64){ int64_t*x,*y,e[4]; ret=NGA_Sprs_array_get_block64(a.s,ir,ic,&x,&y,&d,&e[0],&e[1],&e[2],&e[3]); ip=x; jp=y; for(int z=0;z<4;z++) b[z]=(int)e[z]; } else { int*x,*y; ret=NGA_Sprs_array_get_block(a.s,ir,ic,&x,&y,&d,&b[0],&b[1],&b[2],&b[3]); ip=x; jp=y; }
    int rl,rh; lim(a,true,ir,&rl,&rh); if(b[0]!=rl||b[1]!=rh||b[2]!=cl[ic]||b[3]!=ch[ic]) sim_fail("wrong-distribution","%s: %s: block (%d,%d) is reported as rows %d-%d columns %d-%d instead of rows %d-%d columns %d-%d",c.name,what,ir,ic,b[0],b[1],b[2],b[3],rl,rh,cl[ic],ch[ic]); if(!ret) d=nullptr; char w[64]; snprintf(w,64,"%s: get_block(%d,%d)",what,ir,ic); block(c,a,rl,rh,cl[ic],ch[ic],ip,jp,d,w,loose); if(ret){ free(ip); free(jp); free(d); sim_count("remote blocks copied",1); } } }
static int sty(Case&c,bool noll=false){ int t=(int)c.r.below(T_N); return noll&&t==T_LL?T_DBL:t; }
static void c_store(Case&c){ int m,n; sdims(c,&m,&n); Sp a=mks(c,sty(c),m,n); { Away w(c); check(c,a,"assembled array"); if(c.r.chance(0.5)){ csync(c); dropS(c,a); return; } Sp d=a; d.s=NGA_Sprs_array_duplicate(a.s); csync(c); if(c.r.chance(0.4)){ dropS(c,a); check(c,d,"duplicate after its original was destroyed"); csync(c); dropS(c,d); } else { check(c,d,"duplicate"); check(c,a,"duplicated array"); csync(c); dropS(c,d); dropS(c,a); } } }
static void c_unassembled(Case&c){ int m,n; sdims(c,&m,&n); int s=c.r.chance(0.5)?NGA_Sprs_array_create(m,n,C_DBL):NGA_Sprs_array_create64(m,n,C_DBL); double x=1; if(c.me==0) NGA_Sprs_array_add_element(s,0,0,&x); Sp a=mks(c,sty(c),m,n); if(!NGA_Sprs_array_destroy(s)) sim_fail("destroy-failed","destroying a sparse array that was not assembled failed"); check(c,a,"array next to one destroyed before assembly"); csync(c); dropS(c,a); }
static GArr vec(Case&c,int t,int n){ int d[4]={n,1,1,1}; GArr g=mk(c,t,1,d,M_BASIC|M_RESTR); randfill(c,g,5); return g; }
static void c_matvec(Case&c){ int m,n; sdims(c,&m,&n); if(c.r.chance(0.3)) n=m; int t=sty(c,true); Sp a=mks(c,t,m,n); GArr x=vec(c,t,n),y=vec(c,t,m); jitter(c); csync(c); { Away w(c); NGA_Sprs_array_matvec_multiply(a.s,x.g,y.g); } for(int i=0;i<m;i++){ Val s; for(int j=0;j<n;j++) s=s+a.at(i,j)*x.v[j]; y.v[i]=s; } csync(c); expect(c,y,"sparse matrix times vector"); expect(c,x,"vector operand"); csync(c); check(c,a,"matrix operand"); csync(c); drop(c,x); drop(c,y); dropS(c,a); }
static GArr wrap(Case&c,int g,int t,int nd,int m,int n){ GArr r; r.g=g; r.alive=true; r.s.type=t; r.s.nd=nd; r.s.dims[0]=m; r.s.dims[1]=n; for(int i=nd;i<4;i++) r.s.dims[i]=1; r.v.assign((long)m*n,Val()); int ty,k,dm[7]; NGA_Inquire(g,&ty,&k,dm); if(k!=nd||dm[0]!=m||(nd>1&&dm[1]!=n)) sim_fail("wrong-shape","%s: the array returned has %d dimensions %dx%d instead of %d dimensions %dx%d",c.name,k,dm[0],k>1?dm[1]:1,nd,m,n); return r; }
static void c_diag(Case&c){ int m,n; sdims(c,&m,&n); if(c.r.chance(0.4)) n=m; int t=sty(c); Sp a=mks(c,t,m,n); int op=(int)c.r.below(4); jitter(c);
  if(op==0){ int g=0; { Away w(c); NGA_Sprs_array_get_diag(a.s,&g); } GArr d=wrap(c,g,t,1,m,1); for(int i=0;i<std::min(m,n);i++) d.v[i]=a.at(i,i); csync(c); expect(c,d,"diagonal"); csync(c); drop(c,d); }
  else if(op==1){ GArr x=vec(c,t,m); csync(c); { Away w(c); NGA_Sprs_array_diag_left_multiply(a.s,x.g); } for(int i=0;i<m;i++) for(int j=0;j<n;j++) a.at(i,j)=x.v[i]*a.at(i,j); check(c,a,"after left multiplication by a diagonal"); csync(c); drop(c,x); }
  else if(op==2){ GArr x=vec(c,t,n); csync(c); { Away w(c); NGA_Sprs_array_diag_right_multiply(a.s,x.g); } for(int i=0;i<m;i++) for(int j=0;j<n;j++) a.at(i,j)=a.at(i,j)*x.v[j]; check(c,a,"after right multiplication by a diagonal"); csync(c); drop(c,x); }
  else { Val sh=rnd(c,t,5); char b[16]; enc(t,b,sh); { Away w(c); NGA_Sprs_array_shift_diag(a.s,b); } for(int i=0;i<std::min(m,n);i++) if(a.h(i,i)) a.at(i,i)=a.at(i,i)+sh; check(c,a,"after shifting the diagonal"); csync(c); }
  dropS(c,a); }
static void c_scale(Case&c){ int m,n; sdims(c,&m,&n); int t=sty(c); Sp a=mks(c,t,m,n); Val f=rnd(c,t,4); char b[16]; enc(t,b,f); jitter(c); Sp d=a; bool dup=c.r.chance(0.4); { Away w(c); if(dup) d.s=NGA_Sprs_array_duplicate(a.s); NGA_Sprs_array_scale(a.s,b); for(auto&x:a.v) x=x*f; check(c,a,"after scaling"); if(dup) check(c,d,"duplicate taken before scaling"); } csync(c); if(dup) dropS(c,d); dropS(c,a); }
static void c_column(Case&c){ int m,n; sdims(c,&m,&n); int t=sty(c); Sp a=mks(c,t,m,n); for(int k=0;k<2;k++){ int j=(int)c.r.below(n); int g; { Away w(c); g=a.l64?NGA_Sprs_array_get_column64(a.s,j):NGA_Sprs_array_get_column(a.s,j); } GArr d=wrap(c,g,t,1,m,1); for(int i=0;i<m;i++) d.v[i]=a.at(i,j); csync(c); expect(c,d,"column"); csync(c); drop(c,d); } dropS(c,a); }
static GArr dense(Case&c,int t,int m,int n,double den=1){ int d[4]={m,n,1,1}; GArr g=mk(c,t,2,d,M_BASIC|M_RESTR); for(auto&x:g.v) x=c.r.chance(den)?rnd(c,t,5):Val(); load(c,g); csync(c); return g; }
static void c_dense(Case&c){ int m,n; sdims(c,&m,&n); int t=sty(c); if(c.r.chance(0.5)){ GArr g=dense(c,t,m,n,c.r.pick({0.0,0.1,0.4,1.0})); Sp a=shell(c,t,m,n); a.l64=c.r.chance(0.5); a.v=g.v; for(auto&h:a.has) h=1; jitter(c); { Away w(c); a.s=a.l64?NGA_Sprs_array_create_from_dense64(g.g):NGA_Sprs_array_create_from_dense(g.g); } check(c,a,"created from a dense array",true); expect(c,g,"dense operand"); csync(c); if(c.r.chance(0.5)){ int h=NGA_Sprs_array_create_from_sparse(a.s); GArr d=wrap(c,h,t,2,m,n); d.v=g.v; csync(c); expect(c,d,"dense array converted to sparse and back"); csync(c); drop(c,d); } drop(c,g); dropS(c,a); }
  else { Sp a=mks(c,t,m,n); int h; { Away w(c); h=NGA_Sprs_array_create_from_sparse(a.s); } GArr d=wrap(c,h,t,2,m,n); d.v=a.v; csync(c); expect(c,d,"created from a sparse array"); csync(c); drop(c,d); dropS(c,a); } }
static void c_matmat(Case&c){ int m,k,n,x; sdims(c,&m,&k); sdims(c,&n,&x); if((long)m*n*k>30000){ m=c.np+3; n=c.np+5; } int t=sty(c); bool l=c.r.chance(0.5); Sp a=mks(c,t,m,k,l),b=mks(c,t,k,n,l),r=shell(c,t,m,n); r.l64=l; jitter(c); { Away w(c); r.s=NGA_Sprs_array_matmat_multiply(a.s,b.s); } for(int i=0;i<m;i++) for(int j=0;j<n;j++){ Val s; bool h=false; for(int q=0;q<k;q++) if(a.h(i,q)&&b.h(q,j)){ s=s+a.at(i,q)*b.at(q,j); h=true; } r.at(i,j)=s; r.h(i,j)=h; } check(c,r,"product of sparse matrices",true); check(c,a,"left operand"); csync(c); dropS(c,a); dropS(c,r); dropS(c,b); }
static void c_mixed(Case&c){ int m,k,n,x; sdims(c,&m,&k); sdims(c,&n,&x); if((long)m*n*k>30000){ m=c.np+3; n=c.np+5; } int t=sty(c); bool left=c.r.chance(0.5); Sp a=left?mks(c,t,m,k):mks(c,t,k,n); GArr d=left?dense(c,t,k,n):dense(c,t,m,k); jitter(c); int g; { Away w(c); g=left?NGA_Sprs_array_sprsdns_multiply(a.s,d.g):NGA_Sprs_array_dnssprs_multiply(d.g,a.s); } GArr r=wrap(c,g,t,2,m,n); for(int i=0;i<m;i++) for(int j=0;j<n;j++){ Val s; for(int q=0;q<k;q++) s=s+(left?a.at(i,q)*d.v[(long)q*n+j]:d.v[(long)i*k+q]*a.at(q,j)); r.v[(long)i*n+j]=s; } csync(c); char nm[64]; snprintf(nm,64,"%s product %dx%dx%d",left?"sparse-dense":"dense-sparse",m,n,k); expect(c,r,nm); expect(c,d,"dense operand"); check(c,a,"sparse operand"); csync(c); drop(c,r); drop(c,d); dropS(c,a); }
static void c_sketch(Case&c){ int m,n; sdims(c,&m,&n); int t=sty(c,true); Sp a=mks(c,t,m,n); int k=1+(int)c.r.below(m); int gk=0,gw=0; jitter(c); int g; { Away w(c); g=NGA_Sprs_array_count_sketch(a.s,k,&gk,&gw); } csync(c); std::vector<int> lab(m); std::vector<char> wt(m*16); int lo=0,hi=m-1,ld=1; NGA_Get(gk,&lo,&hi,lab.data(),&ld); NGA_Get(gw,&lo,&hi,wt.data(),&ld); GArr r=wrap(c,g,t,2,k,n); for(int i=0;i<m;i++){ Val w=dec(t,wt.data()+(long)i*tsize(t)); if(lab[i]<0||lab[i]>=k||labs(w.re)!=1||w.im) sim_fail("wrong-sketch","%s: row %d has label %d (of %d) and weight (%ld,%ld)",c.name,i,lab[i],k,w.re,w.im); for(int j=0;j<n;j++){ Val&z=r.v[(long)lab[i]*n+j]; z=z+w*a.at(i,j); } } expect(c,r,"sketch"); csync(c); drop(c,r); GA_Destroy(gk); GA_Destroy(gw); dropS(c,a); }
static void c_export(Case&c){ int m,n; sdims(c,&m,&n); int t=c.r.pick({T_INT,T_LONG,T_FLT,T_DBL,T_SC,T_DC}); Sp a=mks(c,t,m,n); static char f[96]; char path[96]; snprintf(path,96,"/work/sp%ld_%d",(long)(c.r.next()>>50),c.group?c.grp:-1); if(c.group) snprintf(path+strlen(path),30,"_%d",c.mem[0]); { Away w(c); NGA_Sprs_array_export(a.s,path); } csync(c); if(c.me==(int)c.r.below(c.np)){ std::vector<char> b(1<<18); long sz=sim_fs_bytes(path,b.data(),0,(long)b.size()-1); if(sz<0) sim_fail("no-file","%s: the exported file does not exist",c.name); b[std::min(sz,(long)b.size()-1)]=0; char*q=b.data(); std::vector<char> seen((long)m*n,0); long nn=0,M=0,N=0,Z=0; for(auto h:a.has) nn+=h; q=strchr(q,'\n'); if(!q||sscanf(q+1,"%ld %ld %ld",&M,&N,&Z)!=3||M!=m||N!=n||Z!=nn) sim_fail("wrong-file","%s: header says %ldx%ld with %ld elements, expected %dx%d with %ld",c.name,M,N,Z,m,n,nn); q=strchr(q+1,'\n'); while(q&&q[1]){ long i,j; double x=0,y=0; int k=sscanf(q+1,"%ld %ld %lf %lf",&i,&j,&x,&y); if(k<3) break; if(!tcplx(t)) y=0; if(i<1||i>m||j<1||j>n||seen[(i-1)*n+j-1]++) sim_fail("wrong-file","%s: unexpected element %ld %ld",c.name,i,j); Val w=a.at((int)i-1,(int)j-1); if(!a.h((int)i-1,(int)j-1)||w.re!=(long)x||(tcplx(t)&&w.im!=(long)y)) sim_fail("wrong-file","%s: element %ld %ld of the %s array is %g,%g, expected (%ld,%ld)",c.name,i,j,tname(t),x,y,w.re,w.im); nn--; q=strchr(q+1,'\n'); } if(nn) sim_fail("wrong-file","%s: %ld elements are missing from the file",c.name,nn); } (void)f; csync(c); dropS(c,a); }
static const Cases cases={{"storage",c_store,8},{"unassembled",c_unassembled,2},{"matvec",c_matvec,5},{"diagonal",c_diag,7},{"scale",c_scale,3},{"column",c_column,3},{"dense",c_dense,6},{"matmat",c_matmat,6},{"mixed product",c_mixed,6},{"sketch",c_sketch,3},{"export",c_export,2}};
COLL_WORKLOAD(sprs,cases,30,1,6,250)
