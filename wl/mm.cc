// C13: matrix multiplication against the serial product
#include "coll.h"
extern "C" void NGA_Matmul_patch_alt(char,char,void*,void*,int,int*,int*,int,int*,int*,int,int*,int*);
static int mmtype(Case&c){ return c.r.pick({T_DBL,T_DBL,T_FLT,T_DC,T_SC}); }
static void shape(Case&c,int*m,int*n,int*k){ int side=std::max(2,(int)sqrt((double)c.size)); int d[3]; for(int i=0;i<3;i++) d[i]=1+(int)c.r.below(side); if(c.r.chance(0.12)){ int w=(int)c.r.below(3); for(int i=0;i<3;i++) d[i]=i==w?(int)c.r.range(120,320):1+(int)c.r.below(4); } *m=d[0]; *n=d[1]; *k=d[2]; }
static bool cyc(const GArr&a){ return a.s.dist==D_BC||a.s.dist==D_SCAL||a.s.dist==D_TILE||a.s.dist==D_TIRR; }
static Val at(const GArr&a,int i,int j){ return a.v[(long)i*a.s.dims[1]+j]; }
static void dist2(Case&c,int&mask){ mask=M_ALL; (void)c; }
// leave only a little of the configured memory so that the product is computed in many pieces
static GArr ballast(Case&c){ GArr b; if(!GA_Memory_limited()||!c.r.chance(0.7)) return b; long av=(long)GA_Memory_avail(); long want=c.r.range(2000,9000); if(c.group) GA_Pgroup_lgop(c.grp,&av,1,(char*)"min"); else GA_Lgop(&av,1,(char*)"min"); long use=(av-want)/8; if(use<=0) return b; int dim=(int)(use*c.np); int ch=(int)use; b.g=NGA_Create_handle(); GA_Set_data(b.g,1,&dim,C_DBL); GA_Set_chunk(b.g,&ch); if(c.group) GA_Set_pgroup(b.g,c.grp); b.alive=GA_Allocate(b.g)!=0; if(b.alive) sim_count("products under memory pressure",1); return b; }
static void c_gemm(Case&c){ int t=mmtype(c),m,n,k,mask; shape(c,&m,&n,&k); dist2(c,mask); bool ta=c.r.chance(0.4),tb=c.r.chance(0.4); int dmC=c.r.chance(0.25)?M_ALL:M_ALL&~M_CYC; if(ta||tb) dmC=M_ALL&~M_CYC;
  // plainly distributed operands of similar shape take the overlapped algorithm, in several tasks per process
  if(c.r.chance(0.4)){ mask=dmC=(1<<D_REG)|(1<<D_CHUNK); int s=(int)c.r.range(4,20); m=s+(int)c.r.below(s); n=s+(int)c.r.below(s); k=s+(int)c.r.below(2*s); } int da[4]={ta?k:m,ta?m:k,1,1},db[4]={tb?n:k,tb?k:n,1,1},dc[4]={m,n,1,1};
  GArr A=mk(c,t,2,da,mask),B=mk(c,t,2,db,mask),C=mk(c,t,2,dc,dmC); randfill(c,A); randfill(c,B); randfill(c,C); GArr bal=ballast(c); jitmask(c); Val al=rnd(c,t,3),be=c.r.chance(0.4)?Val():rnd(c,t,3); char ca=ta?c.r.pick({'t','T'}):c.r.pick({'n','N'}),cb=tb?c.r.pick({'t','T'}):c.r.pick({'n','N'});
  switch(t){ case T_DBL: GA_Dgemm(ca,cb,m,n,k,(double)al.re,A.g,B.g,(double)be.re,C.g); break; case T_FLT: GA_Sgemm(ca,cb,m,n,k,(float)al.re,A.g,B.g,(float)be.re,C.g); break;
   case T_DC: { DoubleComplex x={(double)al.re,(double)al.im},y={(double)be.re,(double)be.im}; GA_Zgemm(ca,cb,m,n,k,x,A.g,B.g,y,C.g); break; } default: { SingleComplex x={(float)al.re,(float)al.im},y={(float)be.re,(float)be.im}; GA_Cgemm(ca,cb,m,n,k,x,A.g,B.g,y,C.g); } }
  std::vector<Val> w(C.v.size()); for(int i=0;i<m;i++) for(int j=0;j<n;j++){ Val s; for(int q=0;q<k;q++) s=s+(ta?at(A,q,i):at(A,i,q))*(tb?at(B,j,q):at(B,q,j)); w[(long)i*n+j]=al*s+be*C.v[(long)i*n+j]; } C.v=w;
  char nm[64]; snprintf(nm,64,"gemm %c%c %dx%dx%d%s",ca,cb,m,n,k,be==Val()?" beta 0":""); expect(c,C,nm); csync(c); expect(c,A,"gemm operand a"); expect(c,B,"gemm operand b"); csync(c); drop(c,bal); drop(c,A); drop(c,B); drop(c,C); }
// products of patches: the three C interfaces
static void c_patch(Case&c){ int t=mmtype(c),m,n,k,mask; shape(c,&m,&n,&k); dist2(c,mask); bool ta=c.r.chance(0.4),tb=c.r.chance(0.4); int api=(int)c.r.below(3); if(ta||tb) mask&=~M_CYC; // 0 GA_Matmul_patch, 1 NGA_Matmul_patch, 2 NGA_Matmul_patch_alt
  // GA_Matmul_patch multiplies in the Fortran view: C = op(B)... expressed with the arrays' own (row, column) order below
  int ra=ta?k:m,cl=ta?m:k,rb=tb?n:k,cb=tb?k:n; auto ext=[&](int x){ return c.r.chance(0.3)?x:x+(int)c.r.below(5); };
  int e[3][4]={{ext(ra),ext(cl),1,1},{ext(rb),ext(cb),1,1},{ext(m),ext(n),1,1}}; int sh[3][2]={{ra,cl},{rb,cb},{m,n}}; int lo[3][4],hi[3][4]; 
  if(api==0) for(int x=0;x<3;x++){ std::swap(e[x][0],e[x][1]); } // C arrays hold the transpose of the Fortran matrices
  GArr A=mk(c,t,2,e[0],mask),B=mk(c,t,2,e[1],mask),C=mk(c,t,2,e[2],mask); GArr*X[3]={&A,&B,&C};
  for(int x=0;x<3;x++) for(int i=0;i<2;i++){ int dim=api==0?e[x][1-i]:e[x][i]; lo[x][i]=(int)c.r.below(dim-sh[x][i]+1); hi[x][i]=lo[x][i]+sh[x][i]-1; }
  for(auto x:X) randfill(c,*x); GArr bal=ballast(c); jitmask(c); Val al=rnd(c,t,3),be=c.r.chance(0.4)?Val():rnd(c,t,3); char va[16],vb[16]; enc(t,va,al); enc(t,vb,be); char xa=ta?'t':'n',xb=tb?'t':'n';
  auto el=[&](int x,int i,int j){ int r=lo[x][0]+i,s=lo[x][1]+j; return api==0?(long)s*e[x][1]+r:(long)r*e[x][1]+s; };
  std::vector<Val> w=C.v; for(int i=0;i<m;i++) for(int j=0;j<n;j++){ Val s; for(int q=0;q<k;q++) s=s+A.v[ta?el(0,q,i):el(0,i,q)]*B.v[tb?el(1,j,q):el(1,q,j)]; Val&z=w[el(2,i,j)]; z=al*s+be*z; }
  // indices of a transposed operand are given after transposition for the first two interfaces
  if(api<2){ if(ta){ std::swap(lo[0][0],lo[0][1]); std::swap(hi[0][0],hi[0][1]); } if(tb){ std::swap(lo[1][0],lo[1][1]); std::swap(hi[1][0],hi[1][1]); } }
  if(api==0) GA_Matmul_patch(xa,xb,va,vb,A.g,lo[0][0],hi[0][0],lo[0][1],hi[0][1],B.g,lo[1][0],hi[1][0],lo[1][1],hi[1][1],C.g,lo[2][0],hi[2][0],lo[2][1],hi[2][1]);
  else if(api==1) NGA_Matmul_patch(xa,xb,va,vb,A.g,lo[0],hi[0],B.g,lo[1],hi[1],C.g,lo[2],hi[2]); else NGA_Matmul_patch_alt(xa,xb,va,vb,A.g,lo[0],hi[0],B.g,lo[1],hi[1],C.g,lo[2],hi[2]);
  C.v=w; static const char*an[]={"matmul_patch","nga_matmul_patch","nga_matmul_patch_alt"}; char nm[80]; snprintf(nm,80,"%s %c%c %dx%dx%d%s",an[api],xa,xb,m,n,k,be==Val()?" beta 0":""); csync(c); expect(c,C,nm); csync(c); expect(c,A,"matmul operand a"); expect(c,B,"matmul operand b"); csync(c); drop(c,bal); for(auto x:X) drop(c,*x); }
// planes of higher-dimensional arrays
static void c_plane(Case&c){ int t=mmtype(c),m,n,k; int side=std::max(3,(int)pow((double)c.size,0.4)); m=2+(int)c.r.below(side); n=2+(int)c.r.below(side); k=2+(int)c.r.below(side); bool ta=c.r.chance(0.4),tb=c.r.chance(0.4); bool alt=c.r.chance(0.5); int sh[3][2]={{ta?k:m,ta?m:k},{tb?n:k,tb?k:n},{m,n}}; int nd[3],pi[3],pj[3],lo[3][4],hi[3][4],d[3][4]; GArr X[3];
  for(int x=0;x<3;x++){ nd[x]=(int)c.r.range(2,4); pi[x]=(int)c.r.below(nd[x]-1); pj[x]=(int)c.r.range(pi[x]+1,nd[x]-1); for(int i=0;i<4;i++) d[x][i]=1; for(int i=0;i<nd[x];i++){ int l=i==pi[x]?sh[x][0]:i==pj[x]?sh[x][1]:1; d[x][i]=l+(int)c.r.below(3); lo[x][i]=(int)c.r.below(d[x][i]-l+1); hi[x][i]=lo[x][i]+l-1; } X[x]=mk(c,t,nd[x],d[x],M_BASIC|M_GHOST|M_RESTR); randfill(c,X[x]); }
  jitmask(c); Val al=rnd(c,t,3),be=c.r.chance(0.4)?Val():rnd(c,t,3); char va[16],vb[16]; enc(t,va,al); enc(t,vb,be); auto el=[&](int x,int i,int j){ int id[4]; for(int q=0;q<nd[x];q++) id[q]=lo[x][q]+(q==pi[x]?i:q==pj[x]?j:0); return X[x].s.lin(id); };
  std::vector<Val> w=X[2].v; for(int i=0;i<m;i++) for(int j=0;j<n;j++){ Val s; for(int q=0;q<k;q++) s=s+X[0].v[ta?el(0,q,i):el(0,i,q)]*X[1].v[tb?el(1,j,q):el(1,q,j)]; Val&z=w[el(2,i,j)]; z=al*s+be*z; }
  if(!alt){ if(ta){ std::swap(lo[0][pi[0]],lo[0][pj[0]]); std::swap(hi[0][pi[0]],hi[0][pj[0]]); } if(tb){ std::swap(lo[1][pi[1]],lo[1][pj[1]]); std::swap(hi[1][pi[1]],hi[1][pj[1]]); } }
  if(alt) NGA_Matmul_patch_alt(ta?'t':'n',tb?'T':'N',va,vb,X[0].g,lo[0],hi[0],X[1].g,lo[1],hi[1],X[2].g,lo[2],hi[2]); else NGA_Matmul_patch(ta?'t':'n',tb?'T':'N',va,vb,X[0].g,lo[0],hi[0],X[1].g,lo[1],hi[1],X[2].g,lo[2],hi[2]);
  X[2].v=w; char nm[96]; snprintf(nm,96,"product of planes of %d-,%d-,%d-d arrays%s %d%d",nd[0],nd[1],nd[2],alt?" (alt)":"",ta,tb); csync(c); expect(c,X[2],nm); csync(c); expect(c,X[0],"operand a"); expect(c,X[1],"operand b"); csync(c); for(auto&x:X) drop(c,x); }
static const Cases cases={{"gemm",c_gemm,8},{"matmul_patch",c_patch,6},{"planes",c_plane,3}};
static void mm_gen(Program&p,Rng&r){ coll_gen(p,r,cases,25,1,6,500); if(r.chance(0.35)) p.set("ga.limit",400000); }
static void mm_run(Program&p){ coll_run(p,cases); }
WORKLOAD(mm,mm_gen,coll_setup,mm_run,coll_check)
