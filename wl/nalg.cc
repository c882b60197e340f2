// C12: whole-array and patch operations against their serial definition
#include "coll.h"
static int numtype(Case&c,bool ll=true,bool cplx=true){ int t; do t=(int)c.r.below(T_N); while((t==T_LL&&!ll)||(tcplx(t)&&!cplx)); return t; }
static int rnd_nd(Case&c){ return (int)c.r.pick({1,2,2,2,3,4}); }
static void encv(int t,char*b,Val v){ enc(t,b,v); }
static void c_fill(Case&c){ int t=numtype(c),nd=rnd_nd(c),d[4]; dims_for(c,nd,d); GArr a=mk(c,t,nd,d); randfill(c,a); jitmask(c); Val x=rnd(c,t,50); char v[16]; encv(t,v,x); bool zero=c.r.chance(0.4);
  if(c.r.chance(0.5)){ if(zero) GA_Zero(a.g); else GA_Fill(a.g,v); for(auto&e:a.v) e=zero?Val():x; expect(c,a,zero?"zero":"fill"); }
  else { csync(c); Reg p=rpatch(c,a.s); if(zero) NGA_Zero_patch(a.g,p.lo,p.hi); else NGA_Fill_patch(a.g,p.lo,p.hi,v); long n=rsize(p,nd); for(long k=0;k<n;k++) a.v[rlin(a.s,p,k)]=zero?Val():x; expect(c,a,zero?"zero patch":"fill patch"); } drop(c,a); }
static void c_scale(Case&c){ int t=numtype(c),nd=rnd_nd(c),d[4]; dims_for(c,nd,d); GArr a=mk(c,t,nd,d); randfill(c,a); jitmask(c); Val x=rnd(c,t,5); char v[16]; encv(t,v,x);
  if(c.r.chance(0.5)){ GA_Scale(a.g,v); for(auto&e:a.v) e=e*x; expect(c,a,"scale"); } else { Reg p=rpatch(c,a.s); NGA_Scale_patch(a.g,p.lo,p.hi,v); long n=rsize(p,nd); for(long k=0;k<n;k++){ Val&e=a.v[rlin(a.s,p,k)]; e=e*x; } expect(c,a,"scale patch"); } drop(c,a); }
static void c_copy(Case&c){ int t=numtype(c),nd=rnd_nd(c),d[4]; dims_for(c,nd,d); GArr a=mk(c,t,nd,d),b=mk(c,t,nd,d); randfill(c,a); randfill(c,b); jitmask(c); GA_Copy(a.g,b.g); b.v=a.v; expect(c,b,"copy"); expect(c,a,"copy source"); csync(c); drop(c,a); drop(c,b); }
static bool cyc(const GArr&a){ return a.s.dist==D_BC||a.s.dist==D_SCAL||a.s.dist==D_TILE||a.s.dist==D_TIRR; }
static void c_copypatch(Case&c){ int t=numtype(c),nd=rnd_nd(c),nb=c.r.chance(0.7)?nd:rnd_nd(c),d[4],d2[4]; dims_for(c,nd,d); bool tr=c.r.chance(0.3); 
  GArr a=mk(c,t,nd,d); Reg p=rpatch(c,a.s); long n=rsize(p,nd); int ext[4]; 
  // destination patch: same shape, or any shape of the same size
  bool same=nb==nd&&!tr&&c.r.chance(0.7); if(same) for(int i=0;i<nd;i++) ext[i]=p.hi[i]-p.lo[i]+1; else { long m=n; for(int i=0;i<nb;i++) ext[i]=1; if(tr&&nb==nd&&c.r.chance(0.7)) for(int i=0;i<nd;i++) ext[i]=p.hi[nd-1-i]-p.lo[nd-1-i]+1; else for(long f=2;m>1;){ if(m%f==0){ ext[c.r.below(nb)]*=(int)f; m/=f; } else f++; } }
  for(int i=0;i<4;i++) d2[i]=i<nb?ext[i]+(int)c.r.below(4):1; GArr b=mk(c,t,nb,d2); if((cyc(a)||cyc(b))&&(!same)){ drop(c,a); drop(c,b); return; }
  Reg q; for(int i=0;i<nb;i++){ q.lo[i]=(int)c.r.below(d2[i]-ext[i]+1); q.hi[i]=q.lo[i]+ext[i]-1; } randfill(c,a); randfill(c,b); jitmask(c); 
  NGA_Copy_patch(tr?'t':'n',a.g,p.lo,p.hi,b.g,q.lo,q.hi);
  for(long k=0;k<n;k++){ long src=rlin(a.s,p,k); long kk=k; if(tr){ int rel[4]; long z=k; for(int i=nd-1;i>=0;i--){ int e=p.hi[i]-p.lo[i]+1; rel[i]=z%e; z/=e; } kk=0; for(int i=nd-1;i>=0;i--) kk=kk*(p.hi[i]-p.lo[i]+1)+rel[i]; } b.v[rlin(b.s,q,kk)]=a.v[src]; }
  expect(c,b,tr?"copy patch transposed":"copy patch"); expect(c,a,"copy patch source"); csync(c); drop(c,a); drop(c,b); }
// copies between an array of a group and an array of its parent: called by the members of the smaller group only
static void c_cross(Case&c){ int t=numtype(c),nd=rnd_nd(c),nb=nd,d[4],e[4]; if(c.np<2){ return; } int k=(int)c.r.range(1,c.np-1); std::vector<int> m; for(int i=0;i<c.np;i++) m.push_back(i); for(int i=c.np-1;i>0;i--) std::swap(m[i],m[c.r.below(i+1)]); m.resize(k); std::sort(m.begin(),m.end()); int pos=-1; for(int i=0;i<k;i++) if(m[i]==c.me) pos=i;
  bool patch=c.r.chance(0.6),toworld=c.r.chance(0.5),tr=patch&&c.r.chance(0.3); int ext[4]={1,1,1,1}; dims_for(c,nd,d); ArrSpec fs; fs.nd=nd; for(int i=0;i<4;i++) fs.dims[i]=d[i]; Reg p,q; long n;
  if(!patch){ for(int i=0;i<nd;i++){ p.lo[i]=0; p.hi[i]=d[i]-1; } q=p; for(int i=0;i<4;i++) e[i]=d[i]; }
  else { p=rpatch(c,fs); n=rsize(p,nd); if(c.r.chance(0.3)) nb=rnd_nd(c); bool same=nb==nd&&!tr&&c.r.chance(0.6); if(same) for(int i=0;i<nd;i++) ext[i]=p.hi[i]-p.lo[i]+1; else { long z=n; for(long f=2;z>1;){ if(z%f==0){ ext[c.r.below(nb)]*=(int)f; z/=f; } else f++; } } for(int i=0;i<4;i++) e[i]=i<nb?ext[i]+(int)c.r.below(4):1; for(int i=0;i<nb;i++){ q.lo[i]=(int)c.r.below(e[i]-ext[i]+1); q.hi[i]=q.lo[i]+ext[i]-1; } }
  n=rsize(p,nd); bool shape=nb==nd&&!tr; for(int i=0;shape&&i<nd;i++) if(p.hi[i]-p.lo[i]!=q.hi[i]-q.lo[i]) shape=false; int mask=shape?M_ALL:M_BASIC|M_GHOST|M_RESTR;
  int*wd=toworld?e:d,*sd=toworld?d:e; int wn=toworld?nb:nd,sn=toworld?nd:nb; GArr w=mk(c,t,wn,wd,mask); long sseed=(long)(c.r.next()>>40); int sdist; { Case h=c; h.r=Rng(sseed); sdist=pick_dist(h,mask); } uint64_t fseed=c.r.next(); randfill(c,w); std::vector<Val> sv; { ArrSpec z; z.nd=sn; long tot=1; for(int i=0;i<sn;i++) tot*=sd[i]; Rng h(fseed); for(long i=0;i<tot;i++){ Val v; v.re=h.range(-9,9); if(tcplx(t)) v.im=h.range(-9,9); sv.push_back(v); } }
  GArr s; int g=-1; Case h=c; if(pos>=0){ std::vector<int> list=m; g=GA_Pgroup_create(list.data(),k); h.r=Rng(fseed+1); h.grp=g; h.group=true; h.np=k; h.me=pos; s.s=make_spec(sseed,t,sn,sd,sdist,k); s.g=create_arr(s.s,"sub",g); if(!s.g) sim_fail("create-failed","creating a %s array on a group of %d failed",dname(sdist),k); s.alive=true; s.v=sv; load(h,s); } else { s.s.nd=sn; s.s.type=t; for(int i=0;i<4;i++) s.s.dims[i]=sd[i]; s.v=sv; }
  csync(c); jitter(c); GArr&a=toworld?s:w,&b=toworld?w:s; if(pos>=0){ if(patch) NGA_Copy_patch(tr?'t':'n',a.g,p.lo,p.hi,b.g,q.lo,q.hi); else GA_Copy(a.g,b.g); }
  for(long z=0;z<n;z++){ long kk=z; if(tr){ int rel[4]; long y=z; for(int i=nd-1;i>=0;i--){ int x=p.hi[i]-p.lo[i]+1; rel[i]=y%x; y/=x; } kk=0; for(int i=nd-1;i>=0;i--) kk=kk*(p.hi[i]-p.lo[i]+1)+rel[i]; } b.v[rlin(b.s,q,kk)]=a.v[rlin(a.s,p,z)]; }
  const char*what=toworld?(patch?tr?"transposed copy patch from a group":"copy patch from a group":"copy from a group"):(patch?tr?"transposed copy patch to a group":"copy patch to a group":"copy to a group");
  bool peek=c.r.chance(0.5); if(pos>=0){ expect(h,s,what); if(peek) expect(c,w,what); GA_Pgroup_sync(g); }
  csync(c); expect(c,w,what); csync(c); if(pos>=0){ drop(h,s); GA_Pgroup_destroy(g); } drop(c,w); }
static void c_add(Case&c){ int t=numtype(c),nd=rnd_nd(c),d[4]; dims_for(c,nd,d); bool patch=c.r.chance(0.5); int e[4],f[4]; for(int i=0;i<4;i++){ e[i]=i<nd&&patch?d[i]+(int)c.r.below(3):d[i]; f[i]=i<nd&&patch?d[i]+(int)c.r.below(3):d[i]; }
  GArr a=mk(c,t,nd,d),b=mk(c,t,nd,e),x=mk(c,t,nd,f); randfill(c,a); randfill(c,b); randfill(c,x); jitmask(c); Val al=rnd(c,t,4),be=rnd(c,t,4); char va[16],vb[16]; encv(t,va,al); encv(t,vb,be); int alias=(int)c.r.below(4);
  if(!patch){ GArr&o=alias==1?a:alias==2?b:x; GA_Add(va,a.g,vb,b.g,o.g); std::vector<Val> w(a.v.size()); for(size_t k=0;k<w.size();k++) w[k]=al*a.v[k]+be*b.v[k]; o.v=w; expect(c,o,alias==1?"add into a":alias==2?"add into b":"add"); }
  else { Reg p=rpatch(c,a.s),q=place(c,p,a.s,b.s),s=place(c,p,a.s,x.s); NGA_Add_patch(va,a.g,p.lo,p.hi,vb,b.g,q.lo,q.hi,x.g,s.lo,s.hi); long n=rsize(p,nd); for(long k=0;k<n;k++) x.v[rlin(x.s,s,k)]=al*a.v[rlin(a.s,p,k)]+be*b.v[rlin(b.s,q,k)]; expect(c,x,"add patch"); }
  csync(c); expect(c,a,"add operand a"); expect(c,b,"add operand b"); csync(c); drop(c,a); drop(c,b); drop(c,x); }
static Val dotcall(int t,bool patch,GArr&a,GArr&b,Reg&p,Reg&q,char ta,char tb){ Val r; switch(t){
  case T_INT: r.re=patch?NGA_Idot_patch(a.g,ta,p.lo,p.hi,b.g,tb,q.lo,q.hi):GA_Idot(a.g,b.g); break;
  case T_LONG: r.re=patch?NGA_Ldot_patch(a.g,ta,p.lo,p.hi,b.g,tb,q.lo,q.hi):GA_Ldot(a.g,b.g); break;
  case T_LL: r.re=(long)(patch?NGA_Lldot_patch(a.g,ta,p.lo,p.hi,b.g,tb,q.lo,q.hi):GA_Lldot(a.g,b.g)); break;
  case T_FLT: r.re=d2l(patch?NGA_Fdot_patch(a.g,ta,p.lo,p.hi,b.g,tb,q.lo,q.hi):GA_Fdot(a.g,b.g)); break;
  case T_DBL: r.re=d2l(patch?NGA_Ddot_patch(a.g,ta,p.lo,p.hi,b.g,tb,q.lo,q.hi):GA_Ddot(a.g,b.g)); break;
  case T_SC: { SingleComplex z=patch?NGA_Cdot_patch(a.g,ta,p.lo,p.hi,b.g,tb,q.lo,q.hi):GA_Cdot(a.g,b.g); r.re=d2l(z.real); r.im=d2l(z.imag); break; }
  default: { DoubleComplex z=patch?NGA_Zdot_patch(a.g,ta,p.lo,p.hi,b.g,tb,q.lo,q.hi):GA_Zdot(a.g,b.g); r.re=d2l(z.real); r.im=d2l(z.imag); } } return r; }
static void c_dot(Case&c){ int t=numtype(c),nd=rnd_nd(c),d[4]; dims_for(c,nd,d); bool patch=c.r.chance(0.5); int e[4]; for(int i=0;i<4;i++) e[i]=i<nd&&patch?d[i]+(int)c.r.below(3):d[i]; GArr a=mk(c,t,nd,d),b=mk(c,t,nd,e); randfill(c,a); randfill(c,b); jitmask(c); Reg p,q; memset(&p,0,sizeof p); q=p; Val w;
  if(patch){ p=rpatch(c,a.s); q=place(c,p,a.s,b.s); long n=rsize(p,nd); for(long k=0;k<n;k++) w=w+a.v[rlin(a.s,p,k)]*b.v[rlin(b.s,q,k)]; } else for(size_t k=0;k<a.v.size();k++) w=w+a.v[k]*b.v[k];
  bool tt=patch&&!cyc(a)&&!cyc(b)&&c.r.chance(0.1); Val g=dotcall(t,patch,a,b,p,q,tt?'t':'n',tt?'t':'n'); expect_ret(c,patch?"dot patch":"dot",g,w,t); csync(c); expect(c,a,"dot operand"); csync(c); drop(c,a); drop(c,b); }
// complex values whose modulus and quotients are exact in either precision
static Val cdiv(Val u,Val w){ long n=w.re*w.re+w.im*w.im; return Val{(u.re*w.re+u.im*w.im)/n,(u.im*w.re-u.re*w.im)/n}; }
static long cmod2(Val v){ return v.re*v.re+v.im*v.im; }
static long cabs_exact(Val v){ long n=cmod2(v),r=lround(std::sqrt((double)n)); return r; }
static Val triple(Case&c){ static const int T[][2]={{3,4},{4,3},{0,1},{1,0},{6,8},{12,9},{0,0},{8,6}}; const int*q=T[c.r.below(8)]; long k=c.r.range(1,5); return Val{(c.r.chance(0.5)?k:-k)*q[0],(c.r.chance(0.5)?k:-k)*q[1]}; }
static Val unit2(Case&c,bool one){ long k=one?1:1<<c.r.below(3); int w=(int)c.r.below(one?4:6); long sg=c.r.chance(0.5)?k:-k; switch(w){ case 0: case 1: return Val{sg,0}; case 2: case 3: return Val{0,sg}; case 4: return Val{k,sg}; default: return Val{-k,sg}; } }
static void c_elem(Case&c){ int op=(int)c.r.below(8); int t=numtype(c,false,op!=7),nd=rnd_nd(c),d[4]; dims_for(c,nd,d); bool patch=c.r.chance(0.5); static const char*nm[]={"elem multiply","elem divide","elem maximum","elem minimum","add constant","abs value","recip","median"};
  int e[4],f[4],m[4]; for(int i=0;i<4;i++){ e[i]=i<nd&&patch?d[i]+(int)c.r.below(3):d[i]; f[i]=i<nd&&patch?d[i]+(int)c.r.below(3):d[i]; m[i]=i<nd&&patch?d[i]+(int)c.r.below(3):d[i]; }
  if(op>=4&&op<=6){ GArr a=mk(c,t,nd,d); for(auto&x:a.v){ x=rnd(c,t,60); if(op==5&&tcplx(t)) x=triple(c); if(op==6){ if(tcplx(t)) x=unit2(c,true); else x.re=c.r.pick({1,-1}); } } load(c,a); jitmask(c); Val k=rnd(c,t,30); char v[16]; encv(t,v,k); Reg p=rpatch(c,a.s); auto f1=[&](Val x){ if(op==4) return x+k; if(op==5) return tcplx(t)?Val{cabs_exact(x),0}:Val{labs(x.re),0}; return Val{x.re,-x.im}; }; 
    if(patch){ if(op==4) GA_Add_constant_patch(a.g,p.lo,p.hi,v); else if(op==5) GA_Abs_value_patch(a.g,p.lo,p.hi); else GA_Recip_patch(a.g,p.lo,p.hi); long n=rsize(p,nd); for(long q=0;q<n;q++){ Val&x=a.v[rlin(a.s,p,q)]; x=f1(x); } }
    else { if(op==4) GA_Add_constant(a.g,v); else if(op==5) GA_Abs_value(a.g); else GA_Recip(a.g); for(auto&x:a.v) x=f1(x); } expect(c,a,nm[op]); drop(c,a); return; }
  GArr a=mk(c,t,nd,d),b=mk(c,t,nd,e),x=mk(c,t,nd,f); GArr y; if(op==7) y=mk(c,t,nd,m); for(auto&z:b.v){ z=rnd(c,t,20); if(op==1){ if(tcplx(t)) z=unit2(c,false); else z.re=c.r.pick({1,-1,2,-2,4,3}); } } load(c,b); for(auto&z:a.v){ z=rnd(c,t,20); if(op==1){ if(tcplx(t)){ z.re*=32; z.im*=32; } else z.re*=12; } } if(tcplx(t)&&(op==2||op==3)&&!patch) for(size_t k=0;k<a.v.size();k++) if(cmod2(a.v[k])==cmod2(b.v[k])) a.v[k]=b.v[k]; load(c,a); randfill(c,x,20); if(op==7) randfill(c,y,20); jitmask(c);
  auto f2=[&](Val u,Val w,Val z){ switch(op){ case 0: return u*w; case 1: if(tcplx(t)) return cdiv(u,w); u.re/=w.re; return u; case 2: if(tcplx(t)) return cmod2(u)>=cmod2(w)?u:w; u.re=std::max(u.re,w.re); return u; case 3: if(tcplx(t)) return cmod2(u)<=cmod2(w)?u:w; u.re=std::min(u.re,w.re); return u; default: { long q[3]={u.re,w.re,z.re}; std::sort(q,q+3); u.re=q[1]; return u; } } };
  if(!patch){ int alias=op<4?(int)c.r.below(4):3; GArr&o=op==7?y:alias==1?a:alias==2?b:x; std::vector<Val> w(a.v.size()); for(size_t k=0;k<w.size();k++) w[k]=f2(a.v[k],b.v[k],x.v[k]); switch(op){ case 0: GA_Elem_multiply(a.g,b.g,o.g); break; case 1: GA_Elem_divide(a.g,b.g,o.g); break; case 2: GA_Elem_maximum(a.g,b.g,o.g); break; case 3: GA_Elem_minimum(a.g,b.g,o.g); break; default: GA_Median(a.g,b.g,x.g,y.g); } o.v=w; expect(c,o,nm[op]); }
  else { Reg p=rpatch(c,a.s),q=place(c,p,a.s,b.s),s=place(c,p,a.s,x.s),u; if(op==7) u=place(c,p,a.s,y.s); long n=rsize(p,nd); if(tcplx(t)&&(op==2||op==3)){ csync(c); for(long k=0;k<n;k++){ Val&v=a.v[rlin(a.s,p,k)],w=b.v[rlin(b.s,q,k)]; if(cmod2(v)==cmod2(w)) v=w; } load(c,a); } switch(op){ case 0: GA_Elem_multiply_patch(a.g,p.lo,p.hi,b.g,q.lo,q.hi,x.g,s.lo,s.hi); break; case 1: GA_Elem_divide_patch(a.g,p.lo,p.hi,b.g,q.lo,q.hi,x.g,s.lo,s.hi); break; case 2: GA_Elem_maximum_patch(a.g,p.lo,p.hi,b.g,q.lo,q.hi,x.g,s.lo,s.hi); break; case 3: GA_Elem_minimum_patch(a.g,p.lo,p.hi,b.g,q.lo,q.hi,x.g,s.lo,s.hi); break; default: GA_Median_patch(a.g,p.lo,p.hi,b.g,q.lo,q.hi,x.g,s.lo,s.hi,y.g,u.lo,u.hi); }
    for(long k=0;k<n;k++){ Val r=f2(a.v[rlin(a.s,p,k)],b.v[rlin(b.s,q,k)],x.v[rlin(x.s,s,k)]); if(op==7) y.v[rlin(y.s,u,k)]=r; else x.v[rlin(x.s,s,k)]=r; } std::string w=std::string(nm[op])+" patch"; expect(c,op==7?y:x,w.c_str()); }
  csync(c); expect(c,a,"operand a"); expect(c,b,"operand b"); if(op==7) expect(c,x,"operand c"); csync(c); drop(c,a); drop(c,b); drop(c,x); if(op==7) drop(c,y); }
static void c_diag(Case&c){ int op=(int)c.r.below(7); int t=numtype(c,false),d[4]; dims_for(c,2,d); GArr a=mk(c,t,2,d); int n=std::min(d[0],d[1]); int dv[4]={op==5?d[0]:op==6?d[1]:n,1,1,1}; GArr v=mk(c,t,1,dv); randfill(c,a); randfill(c,v); jitmask(c); Val k=rnd(c,t,9); char kv[16]; encv(t,kv,k); static const char*nm[]={"set diagonal","add diagonal","get diagonal","shift diagonal","zero diagonal","scale rows","scale cols"};
  switch(op){ case 0: GA_Set_diagonal(a.g,v.g); for(int i=0;i<n;i++) a.v[i*d[1]+i]=v.v[i]; break; case 1: GA_Add_diagonal(a.g,v.g); for(int i=0;i<n;i++) a.v[i*d[1]+i]=a.v[i*d[1]+i]+v.v[i]; break; case 2: GA_Get_diag(a.g,v.g); for(int i=0;i<n;i++) v.v[i]=a.v[i*d[1]+i]; break; case 3: GA_Shift_diagonal(a.g,kv); for(int i=0;i<n;i++) a.v[i*d[1]+i]=a.v[i*d[1]+i]+k; break; case 4: GA_Zero_diagonal(a.g); for(int i=0;i<n;i++) a.v[i*d[1]+i]=Val(); break;
   case 5: GA_Scale_rows(a.g,v.g); for(int i=0;i<d[0];i++) for(int j=0;j<d[1];j++) a.v[i*d[1]+j]=a.v[i*d[1]+j]*v.v[i]; break; default: GA_Scale_cols(a.g,v.g); for(int i=0;i<d[0];i++) for(int j=0;j<d[1];j++) a.v[i*d[1]+j]=a.v[i*d[1]+j]*v.v[j]; }
  expect(c,a,nm[op]); expect(c,v,nm[op]); csync(c); drop(c,a); drop(c,v); }
static void c_norm(Case&c){ int t=numtype(c,false,false),d[4]; int nd=c.r.chance(0.8)?2:1; dims_for(c,nd,d); GArr a=mk(c,t,nd,d); randfill(c,a); jitmask(c); double x=-1; bool inf=c.r.chance(0.5); if(inf) GA_Norm_infinity(a.g,&x); else GA_Norm1(a.g,&x); long best=0; for(auto&e:a.v){ if(inf) best=std::max(best,labs(e.re)); else best+=labs(e.re); }
  expect_ret(c,inf?"norm infinity":"norm1",Val{d2l(x),0},Val{best,0},t); csync(c); drop(c,a); }
static void c_transpose(Case&c){ int t=numtype(c),d[4],e[4]={1,1,1,1}; dims_for(c,2,d); bool sym=c.r.chance(0.3); if(sym){ d[1]=d[0]; t=T_DBL; } e[0]=d[1]; e[1]=d[0]; GArr a=mk(c,t,2,d,sym?M_BASIC|M_GHOST|M_RESTR|M_CYC:M_ALL); if(sym){ for(auto&x:a.v){ x=rnd(c,t,9); x.re*=2; x.im*=2; } load(c,a); jitmask(c); GA_Symmetrize(a.g); std::vector<Val> w(a.v.size()); for(int i=0;i<d[0];i++) for(int j=0;j<d[0];j++){ Val s=a.v[i*d[0]+j]+a.v[j*d[0]+i]; w[i*d[0]+j]={s.re/2,s.im/2}; } a.v=w; expect(c,a,"symmetrize"); drop(c,a); return; }
  GArr b=mk(c,t,2,e); randfill(c,a); randfill(c,b); jitmask(c); GA_Transpose(a.g,b.g); for(int i=0;i<d[0];i++) for(int j=0;j<d[1];j++) b.v[j*d[0]+i]=a.v[i*d[1]+j]; expect(c,b,"transpose"); csync(c); expect(c,a,"transpose source"); csync(c); drop(c,a); drop(c,b); }
static void c_stepmax(Case&c){ int t=c.r.pick({T_DBL,T_FLT,T_INT,T_LONG}),nd=rnd_nd(c),d[4]; dims_for(c,nd,d); bool patch=c.r.chance(0.4); int e[4]; for(int i=0;i<4;i++) e[i]=i<nd&&patch?d[i]+(int)c.r.below(3):d[i]; GArr a=mk(c,t,nd,d),b=mk(c,t,nd,e); for(auto&x:a.v) x.re=c.r.range(0,6)*12; load(c,a); for(auto&x:b.v) x.re=c.r.pick({1,2,0,-1,-2,-3,-4,3});
  Reg p=rpatch(c,a.s),q; if(!patch){ for(int i=0;i<nd;i++){ p.lo[i]=0; p.hi[i]=d[i]-1; } q=p; } else q=p; long n=rsize(p,nd); bool neg=false; for(long k=0;k<n;k++) if(b.v[rlin(b.s,q,k)].re<0) neg=true; if(!neg) b.v[rlin(b.s,q,n/2)].re=-2; load(c,b); jitmask(c); double r=0; float f=0; int ir=0; long lr=0; void*o=t==T_DBL?(void*)&r:t==T_FLT?(void*)&f:t==T_INT?(void*)&ir:(void*)&lr;
  if(patch) GA_Step_max_patch(a.g,p.lo,p.hi,b.g,q.lo,q.hi,o); else GA_Step_max(a.g,b.g,o); long got=t==T_DBL?d2l(r):t==T_FLT?d2l(f):t==T_INT?ir:lr; long best=-1; for(long k=0;k<n;k++){ long x=a.v[rlin(a.s,p,k)].re,y=b.v[rlin(b.s,q,k)].re; if(y<0){ long z=x/-y; if(best<0||z<best) best=z; } }
  expect_ret(c,patch?"step max patch":"step max",Val{got,0},Val{best,0},t); csync(c); expect(c,a,"step max operand"); expect(c,b,"step max operand"); csync(c); drop(c,a); drop(c,b); }
// step lengths to the bounds xl <= x <= xu along a direction v (the arrays have one distribution)
static void c_bound(Case&c){ int t=c.r.pick({T_DBL,T_FLT,T_INT,T_LONG}),nd=rnd_nd(c),d[4]; dims_for(c,nd,d); bool patch=c.r.chance(0.4); Case h=c; GArr x=mk(c,t,nd,d,M_BASIC|M_GHOST),a[3]; for(int i=0;i<3;i++){ Case k=h; a[i]=mk(k,t,nd,d,M_BASIC|M_GHOST); } GArr&v=a[0],&lo=a[1],&up=a[2]; long n=(long)x.v.size(); bool atb=c.r.chance(0.5);
  for(long i=0;i<n;i++){ x.v[i].re=c.r.range(-9,9); lo.v[i].re=x.v[i].re-12*c.r.range(atb?0:1,5); up.v[i].re=x.v[i].re+12*c.r.range(atb?0:1,5); v.v[i].re=c.r.pick({0,1,2,3,4,-1,-2,-3,-4,0}); } v.v[c.r.below(n)].re=c.r.chance(0.5)?2:-3; load(c,x); for(auto&q:a) load(c,q); jitmask(c);
  double r[3]={-7,-7,-7}; float f[3]={-7,-7,-7}; int ir[3]={-7,-7,-7}; long lr[3]={-7,-7,-7}; void*o[3]; for(int i=0;i<3;i++) o[i]=t==T_DBL?(void*)&r[i]:t==T_FLT?(void*)&f[i]:t==T_INT?(void*)&ir[i]:(void*)&lr[i]; int L[4]={0,0,0,0},H[4]; for(int i=0;i<nd;i++) H[i]=d[i]-1;
  if(patch) GA_Step_bound_info_patch(x.g,L,H,v.g,L,H,lo.g,L,H,up.g,L,H,o[0],o[1],o[2]); else GA_Step_bound_info(x.g,v.g,lo.g,up.g,o[0],o[1],o[2]);
  long bmin=-1,wolfe=-1,bmax=-1; bool inf=false; for(long i=0;i<n;i++){ long w=v.v[i].re,z=-1; if(w>0) z=(up.v[i].re-x.v[i].re)/w; else if(w<0) z=(x.v[i].re-lo.v[i].re)/-w; else if(up.v[i].re==x.v[i].re||lo.v[i].re==x.v[i].re) z=0; if(w&&(wolfe<0||z<wolfe)) wolfe=z; if(z<0){ inf=true; continue; } if(bmin<0||z<bmin) bmin=z; bmax=std::max(bmax,z); }
  auto val=[&](int i){ return t==T_DBL?d2l(r[i]):t==T_FLT?d2l(f[i]):t==T_INT?(long)ir[i]:lr[i]; };
  expect_ret(c,"step bound info (bound min)",Val{val(0),0},Val{bmin,0},t); expect_ret(c,"step bound info (wolfe min)",Val{val(1),0},Val{wolfe,0},t); if(!inf) expect_ret(c,"step bound info (bound max)",Val{val(2),0},Val{bmax,0},t); expect(c,x,"step bound info operand"); for(auto&q:a) expect(c,q,"step bound info operand"); csync(c); drop(c,x); for(auto&q:a) drop(c,q); }
static void c_dup(Case&c){ int t=numtype(c),nd=rnd_nd(c),d[4]; dims_for(c,nd,d); GArr a=mk(c,t,nd,d); randfill(c,a); GArr b=a; b.g=GA_Duplicate(a.g,(char*)"dup"); if(!b.g) sim_fail("create-failed","duplicating a %s array failed",dname(a.s.dist)); if(GA_Compare_distr(a.g,b.g)) sim_fail("distribution","a duplicated %s array has a different distribution",dname(a.s.dist)); if(c.r.chance(0.5)) randfill(c,b); else { GA_Copy(a.g,b.g); } csync(c); expect(c,b,"duplicate"); expect(c,a,"duplicated array"); csync(c); drop(c,c.r.chance(0.5)?a:b); expect(c,a.alive?a:b,"survivor of destroy"); csync(c); drop(c,a); drop(c,b); }
static const Cases cases={{"fill",c_fill,3},{"scale",c_scale,2},{"copy",c_copy,3},{"copy_patch",c_copypatch,6},{"cross-group copy",c_cross,4},{"add",c_add,5},{"dot",c_dot,4},{"elem",c_elem,8},{"diag",c_diag,5},{"norm",c_norm,2},{"transpose",c_transpose,4},{"step_max",c_stepmax,2},{"duplicate",c_dup,2},{"step bound",c_bound,2}};
COLL_WORKLOAD(nalg,cases,25,1,6,220)
