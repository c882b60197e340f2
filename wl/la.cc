// C27: dense solvers and eigensolvers: residuals, orthogonality, order and agreement between processes.
// Matrices have small integer elements, so the inputs are exact and the residuals are at rounding level.
#include "coll.h"
extern "C" { void pnga_lu_solve(char*,long,long); void pnga_lu_solve_seq(char*,long,long); }
static std::vector<double> whole(GArr&a){ int nd=a.s.nd,lo[4]={0,0,0,0},hi[4],ld[4]; for(int i=0;i<nd;i++){ hi[i]=a.s.dims[i]-1; if(i) ld[i-1]=a.s.dims[i]; } long n=a.s.size(); double*b=(double*)sim_buf(n*8); memset(b,0x9C,n*8); NGA_Get(a.g,lo,hi,b,ld); std::vector<double> v(b,b+n); sim_buf_free(b); return v; }
static void agree(Case&c,const char*what,const std::vector<double>&v){ uint64_t h=1469598103934665603ull; for(double x:v){ uint64_t u; memcpy(&u,&x,8); h=(h^u)*1099511628211ull; h^=h>>29; } long lo=(long)(h>>8),hi=lo,me=lo; char mn[]="min",mx[]="max"; GA_Lgop(&lo,1,mn); GA_Lgop(&hi,1,mx); if(lo!=me||hi!=me) sim_fail("disagreement","%s: the processes have different %s",c.name,what); }
static void small(Case&c,const char*what,double r,double scale){ if(!(fabs(r)<=1e-9*scale)) sim_fail("residual","%s: %s is %.3g, scale %.3g%s",c.name,what,r,scale,c.group?" (on a group)":""); sim_count("residuals checked",1); }
static void c_eig(Case&c){ bool gen=c.r.chance(0.5); int n=c.r.chance(0.15)?1:(int)c.r.range(2,std::max(2,std::min(18,(int)c.size))),d[4]={n,n,1,1}; GArr a=mk(c,T_DBL,2,d),s,v=mk(c,T_DBL,2,d); if(gen) s=mk(c,T_DBL,2,d);
  for(int i=0;i<n;i++) for(int j=0;j<=i;j++){ long x=c.r.range(-9,9); a.v[i*n+j].re=a.v[j*n+i].re=x; } load(c,a); randfill(c,v); if(gen){ std::vector<long> b(n*n); for(auto&x:b) x=c.r.range(-2,2); for(int i=0;i<n;i++) for(int j=0;j<n;j++){ long t=i==j?n:0; for(int k=0;k<n;k++) t+=b[k*n+i]*b[k*n+j]; s.v[i*n+j].re=t; } load(c,s); } jitter(c);
  double*ev=(double*)sim_buf(n*8); memset(ev,0x9C,n*8); if(gen) GA_Diag_seq(a.g,s.g,v.g,ev); else GA_Diag_std_seq(a.g,v.g,ev); std::vector<double> e(ev,ev+n),V=whole(v); sim_buf_free(ev); auto A=[&](int i,int j){ return (double)a.v[i*n+j].re; }; auto S=[&](int i,int j){ return gen?(double)s.v[i*n+j].re:i==j?1.0:0.0; }; double sc=10.0*n*n;
  for(int k=0;k+1<n;k++) if(!(e[k]<=e[k+1])) sim_fail("order","%s: eigenvalue %d (%.17g) is greater than eigenvalue %d (%.17g)",c.name,k,e[k],k+1,e[k+1]);
  for(int k=0;k<n;k++){ double r=0; for(int i=0;i<n;i++){ double t=0; for(int j=0;j<n;j++) t+=(A(i,j)-e[k]*S(i,j))*V[k*n+j]; r=std::max(r,fabs(t)); if(t!=t) r=t; } small(c,"the residual of an eigenpair",r,sc*(1+fabs(e[k]))); for(int l=0;l<=k;l++){ double t=0; for(int i=0;i<n;i++) for(int j=0;j<n;j++) t+=V[k*n+i]*S(i,j)*V[l*n+j]; small(c,"the deviation from orthonormality",t-(k==l),sc); } }
  agree(c,"eigenvalues",e); agree(c,"eigenvectors",V); csync(c); drop(c,a); drop(c,v); if(gen) drop(c,s); }
static void c_lu(Case&c){ int n=c.r.chance(0.15)?1:(int)c.r.range(2,std::max(2,std::min(24,(int)c.size))),m=(int)c.r.range(1,12),d[4]={n,n,1,1},e[4]={m,n,1,1}; GArr a=mk(c,T_DBL,2,d),b=mk(c,T_DBL,2,e); std::vector<int> perm(n); for(int i=0;i<n;i++) perm[i]=i; for(int i=n-1;i>0;i--) std::swap(perm[i],perm[c.r.below(i+1)]); for(int i=0;i<n;i++) for(int j=0;j<n;j++) a.v[i*n+j].re=c.r.range(-4,4)+(perm[i]==j?(c.r.chance(0.5)?1:-1)*5*n:0); load(c,a); randfill(c,b,50); bool tr=c.r.chance(0.5),seq=c.r.chance(0.5); jitter(c);
  char t=tr?(c.r.chance(0.5)?'t':'T'):(c.r.chance(0.5)?'n':'N'); if(seq) pnga_lu_solve_seq(&t,a.g,b.g); else pnga_lu_solve(&t,a.g,b.g); std::vector<double> x=whole(b); for(int j=0;j<m;j++) for(int r=0;r<n;r++){ double z=-(double)b.v[j*n+r].re; for(int k=0;k<n;k++) z+=(double)(tr?a.v[r*n+k].re:a.v[k*n+r].re)*x[j*n+k]; small(c,tr?"the residual of a transposed system":"the residual of a linear system",z,100.0*n); }
  agree(c,"solutions",x); expect(c,a,"the matrix of a linear system"); csync(c); drop(c,a); drop(c,b); }
static const Cases cases={{"eigensolver",c_eig,3},{"linear solver",c_lu,3}};
COLL_WORKLOAD(la,cases,25,1,6,40)
