// C28: mirrored arrays: one independent, distributed copy per node; merging adds the copies up.
#include "coll.h"
struct Mir { GArr a; std::vector<std::vector<Val>> v; };   // v[node]
struct Top { int nn,node,npn,lme; };
static Top topo(Case&c){ Top t; t.nn=GA_Cluster_nnodes(); t.node=GA_Cluster_nodeid(); t.npn=GA_Cluster_nprocs(t.node); t.lme=-1; std::set<int> all; for(int n=0;n<t.nn;n++) for(int i=0;i<GA_Cluster_nprocs(n);i++){ int p=GA_Cluster_procid(n,i); if(p<0||p>=c.np||!all.insert(p).second) sim_fail("wrong-topology","process %d of node %d is reported as process %d",i,n,p); if(GA_Cluster_proc_nodeid(p)!=n) sim_fail("wrong-topology","process %d is reported on node %d and on node %d",p,n,GA_Cluster_proc_nodeid(p)); if(p==c.me){ if(n!=t.node) sim_fail("wrong-topology","process %d is on node %d and reports node %d",p,n,t.node); t.lme=i; } } if((int)all.size()!=c.np) sim_fail("wrong-topology","the nodes hold %zu of %d processes",all.size(),c.np); return t; }
static int mtype(Case&c){ static const int t[]={T_INT,T_LONG,T_FLT,T_DBL,T_SC,T_DC}; return t[c.r.below(6)]; }
static const int MM=M_BASIC;
static Mir mkm(Case&c,const Top&t,int type,int nd,int*d){ Mir m; long seed=(long)(c.r.next()>>40); int di=pick_dist(c,MM); m.a.s=make_spec(seed,type,nd,d,di,t.npn); m.a.g=create_arr(m.a.s,"mirrored",GA_Pgroup_get_mirror()); if(!m.a.g) sim_fail("create-failed","creating a mirrored %s array failed",dname(di)); m.a.alive=true; if((GA_Is_mirrored(m.a.g)!=0)!=(t.nn>1)) sim_fail("wrong-query","GA_Is_mirrored is %d with %d nodes",GA_Is_mirrored(m.a.g),t.nn); m.v.assign(t.nn,std::vector<Val>(m.a.s.size())); sim_count("arrays",1); return m; }
// the processes of each node write their node's copy
static void mload(Case&c,const Top&t,Mir&m){ for(auto&v:m.v) for(auto&x:v) x=rnd(c,m.a.s.type,9); Case h=c; h.np=t.npn; h.me=t.lme; m.a.v=m.v[t.node]; load(h,m.a); }
static void mexpect(Case&c,const Top&t,Mir&m,const char*what){ m.a.v=m.v[t.node]; Case h=c; h.np=1; h.me=0; h.group=t.nn>1; int lo[4],hi[4],ld[4]; ArrSpec&s=m.a.s; Rng q(c.r.s+c.me*91); for(int i=0;i<s.nd;i++){ int a=(int)q.below(s.dims[i]),b=(int)q.below(s.dims[i]); if(q.chance(0.4)){ a=0; b=s.dims[i]-1; } lo[i]=std::min(a,b); hi[i]=std::max(a,b); } Patch pt=mk_patch(s.nd,lo,hi,nullptr); for(int i=0;i<s.nd-1;i++) ld[i]=pt.ld[i]; int es=tsize(s.type); char*b=(char*)sim_buf(pt.span*es); memset(b,0x9C,pt.span*es); NGA_Get(m.a.g,lo,hi,b,ld); sim_count("elements compared",pt.n);
  for(long k=0;k<pt.n;k++){ int rel[4],id[4]; pat_rel(pt,k,rel); for(int i=0;i<s.nd;i++) id[i]=rel[i]+lo[i]; Val g=dec(s.type,b+k*es),w=m.a.v[s.lin(id)]; if(g!=w) sim_fail("wrong-value","%s: element %ld of the copy of node %d of a mirrored %s %s array is (%ld,%ld), expected (%ld,%ld)",what,s.lin(id),t.node,tname(s.type),dname(s.dist),g.re,g.im,w.re,w.im); } sim_buf_free(b); }
static void alljoin(Mir&m,const std::vector<Val>&v){ for(auto&x:m.v) x=v; }
static std::vector<Val> sum(const Mir&m){ std::vector<Val> s(m.v[0].size()); for(auto&v:m.v) for(size_t i=0;i<s.size();i++) s[i]=s[i]+v[i]; return s; }
static void c_mirror(Case&c){ Top t=topo(c); int type=mtype(c),nd=(int)c.r.pick({1,2,2,3}),d[4]; dims_for(c,nd,d); Mir m=mkm(c,t,type,nd,d); mload(c,t,m); csync(c); jitter(c); int n=(int)c.r.range(1,4); bool same=t.nn==1; sim_count("nodes of mirrored runs",t.nn);
  for(int k=0;k<n;k++){ int op=(int)c.r.below(16); if(c.p->get("x.mop",-1)>=0) op=(int)c.p->get("x.mop"); char v[16]; const char*what=""; switch(op){
    case 0: GA_Merge_mirrored(m.a.g); if(t.nn>1) alljoin(m,sum(m)); same=true; what="merge"; break;
    case 1:{ Val x=rnd(c,type,20); enc(type,v,x); bool z=c.r.chance(0.5); if(z) GA_Zero(m.a.g); else GA_Fill(m.a.g,v); for(auto&u:m.v) for(auto&e:u) e=z?Val():x; same=true; what="fill"; break; }
    case 2:{ Val x=rnd(c,type,3); enc(type,v,x); GA_Scale(m.a.g,v); for(auto&u:m.v) for(auto&e:u) e=e*x; what="scale"; break; }
    case 3:{ GArr a=mk(c,type,nd,d,M_BASIC); randfill(c,a); jitter(c); GA_Copy(a.g,m.a.g); alljoin(m,a.v); same=true; expect(c,a,"source of a copy to a mirrored array"); csync(c); drop(c,a); what="copy of a distributed array"; break; }
    case 4: if(same){ GArr a=mk(c,type,nd,d,M_BASIC); randfill(c,a); csync(c); GA_Copy(m.a.g,a.g); a.v=m.v[0]; expect(c,a,"copy of a mirrored array"); csync(c); drop(c,a); what="source of a copy to a distributed array"; } break;
    case 5:{ Mir b=mkm(c,t,type,nd,d); mload(c,t,b); csync(c); GA_Copy(m.a.g,b.a.g); b.v=m.v; mexpect(c,t,b,"copy between mirrored arrays"); csync(c); drop(c,b.a); what="source of a copy between mirrored arrays"; break; }
    case 6:{ int e[4]; for(int i=0;i<4;i++) e[i]=d[i]+(i<nd?(int)c.r.below(4):0); GArr a=mk(c,type,nd,e,M_BASIC); randfill(c,a); Reg p=rpatch(c,m.a.s),q=place(c,p,m.a.s,a.s); csync(c); jitter(c); NGA_Merge_distr_patch(m.a.g,p.lo,p.hi,a.g,q.lo,q.hi); auto s=sum(m); long z=rsize(p,nd); for(long i=0;i<z;i++) a.v[rlin(a.s,q,i)]=s[rlin(m.a.s,p,i)]; expect(c,a,"merge into a distributed array"); csync(c); drop(c,a); what="source of a merge"; break; }
    case 7:{ int lo[4],hi[4],ld[4]; Val one; one.re=1; enc(type,v,one); long z=1; for(int i=0;i<nd;i++){ lo[i]=0; hi[i]=d[i]-1; if(i) ld[i-1]=d[i]; z*=d[i]; } int es=tsize(type); char*b=(char*)sim_buf(z*es); for(long i=0;i<z;i++){ Val x; x.re=c.me+i%3; enc(type,b+i*es,x); } NGA_Acc(m.a.g,lo,hi,b,ld,v); for(int nn=0;nn<t.nn;nn++) for(int j=0;j<GA_Cluster_nprocs(nn);j++) for(long i=0;i<z;i++) m.v[nn][i].re+=GA_Cluster_procid(nn,j)+i%3; csync(c); sim_buf_free(b); same=false; what="accumulate"; break; }
    case 8:{ Val w; for(auto&x:m.v[t.node]) w=w+x*x; Val got; switch(type){ case T_INT: got.re=GA_Idot(m.a.g,m.a.g); break; case T_LONG: got.re=GA_Ldot(m.a.g,m.a.g); break; case T_FLT: got.re=d2l(GA_Fdot(m.a.g,m.a.g)); break; case T_DBL: got.re=d2l(GA_Ddot(m.a.g,m.a.g)); break; case T_SC:{ SingleComplex z=GA_Cdot(m.a.g,m.a.g); got.re=d2l(z.real); got.im=d2l(z.imag); break; } default:{ DoubleComplex z=GA_Zdot(m.a.g,m.a.g); got.re=d2l(z.real); got.im=d2l(z.imag); } } expect_ret(c,"dot of mirrored arrays",got,w,type); what="operand of a dot"; break; }
    case 10:{ int cnt=(int)c.r.range(1,12); std::vector<int> ix(cnt*nd); std::vector<int*> sub(cnt); Rng q(c.r.s+c.me*57); c.r.next(); int es=tsize(type); char*b=(char*)sim_buf(cnt*es); for(int i=0;i<cnt;i++){ for(int z=0;z<nd;z++) ix[i*nd+z]=(int)q.below(d[z]); sub[i]=&ix[i*nd]; } NGA_Gather(m.a.g,b,sub.data(),cnt); for(int i=0;i<cnt;i++){ Val g=dec(type,b+i*es),w=m.v[t.node][m.a.s.lin(sub[i])]; if(g!=w) sim_fail("wrong-value","gather from the copy of node %d of a mirrored %s %s array: element %ld is (%ld,%ld), expected (%ld,%ld)",t.node,tname(type),dname(m.a.s.dist),m.a.s.lin(sub[i]),g.re,g.im,w.re,w.im); } sim_buf_free(b); csync(c); what="source of a gather"; break; }
    case 11:{ Mir b=m; b.a.g=GA_Duplicate(m.a.g,(char*)"dup"); if(!b.a.g) sim_fail("create-failed","duplicating a mirrored %s array failed",dname(m.a.s.dist)); if((GA_Is_mirrored(b.a.g)!=0)!=(t.nn>1)) sim_fail("wrong-query","the duplicate of a mirrored array is not mirrored"); mload(c,t,b); csync(c); mexpect(c,t,b,"duplicate of a mirrored array"); mexpect(c,t,m,"original of a duplicate"); csync(c); drop(c,b.a); break; }
    case 12:{ Mir b=mkm(c,t,type,nd,d); mload(c,t,b); Val x=rnd(c,type,3),y=rnd(c,type,3); char vy[16]; enc(type,v,x); enc(type,vy,y); csync(c); bool el=c.r.chance(0.4),pa=!el&&c.r.chance(0.5); int l0[4]={0,0,0,0},h0[4]; for(int i=0;i<nd;i++) h0[i]=d[i]-1; jitter(c); if(el) GA_Elem_multiply(m.a.g,b.a.g,m.a.g); else if(pa) NGA_Add_patch(v,m.a.g,l0,h0,vy,b.a.g,l0,h0,m.a.g,l0,h0); else GA_Add(v,m.a.g,vy,b.a.g,m.a.g); for(int nn=0;nn<t.nn;nn++) for(size_t i=0;i<m.v[nn].size();i++) m.v[nn][i]=el?m.v[nn][i]*b.v[nn][i]:m.v[nn][i]*x+b.v[nn][i]*y; mexpect(c,t,b,"operand of an elementwise operation"); csync(c); drop(c,b.a); if(t.nn>1) same=false; what="elementwise operation"; break; }
    case 13:{ Reg p=rpatch(c,m.a.s); Val x=rnd(c,type,3); enc(type,v,x); int k=(int)c.r.below(3); jitter(c); if(k==0) NGA_Zero_patch(m.a.g,p.lo,p.hi); else if(k==1) NGA_Fill_patch(m.a.g,p.lo,p.hi,v); else NGA_Scale_patch(m.a.g,p.lo,p.hi,v); long z=rsize(p,nd); for(int nn=0;nn<t.nn;nn++) for(long i=0;i<z;i++){ Val&e=m.v[nn][rlin(m.a.s,p,i)]; e=k==0?Val():k==1?x:e*x; } what=k==0?"zero_patch":k==1?"fill_patch":"scale_patch"; break; }
    case 14: if(type==T_INT||type==T_LONG){ int id[4]; for(int z=0;z<nd;z++) id[z]=(int)c.r.below(d[z]); long l=m.a.s.lin(id),inc=c.r.range(1,9); csync(c); long got=NGA_Read_inc(m.a.g,id,inc); long st=m.v[t.node][l].re; if(got<st||got>=st+inc*t.npn||(got-st)%inc) sim_fail("wrong-value","read_inc by %ld on a mirrored array returned %ld; the element of node %d was %ld and %d processes increment it",inc,got,t.node,st,t.npn); for(int nn=0;nn<t.nn;nn++) m.v[nn][l].re+=inc*GA_Cluster_nprocs(nn); csync(c); same=false; what="read_inc"; } break;
    case 15:{ Mir b=mkm(c,t,type,nd,d); mload(c,t,b); Reg p=rpatch(c,m.a.s),q=place(c,p,m.a.s,b.a.s); csync(c); jitter(c); NGA_Copy_patch('n',m.a.g,p.lo,p.hi,b.a.g,q.lo,q.hi); long z=rsize(p,nd); for(int nn=0;nn<t.nn;nn++) for(long i=0;i<z;i++) b.v[nn][rlin(b.a.s,q,i)]=m.v[nn][rlin(m.a.s,p,i)]; mexpect(c,t,b,"patch copy between mirrored arrays"); csync(c); drop(c,b.a); what="source of a patch copy"; break; }
    default:{ int cnt=(int)std::min<long>(5,m.a.s.size()); std::vector<int> ix(cnt*nd); std::vector<int*> sub(cnt); std::set<long> used; Rng q(c.r.next()+0*c.me); int es=tsize(type); std::vector<char> b(cnt*es); int kk=0; std::vector<std::vector<std::pair<long,Val>>> wr(t.nn); // every process scatters to its own elements of its node's copy
      for(int nn=0;nn<t.nn;nn++){ std::set<long> u2; for(int j=0;j<GA_Cluster_nprocs(nn);j++) for(int i=0;i<cnt;i++){ int id[4]; for(int z=0;z<nd;z++) id[z]=(int)q.below(d[z]); Val x; x.re=q.range(-30,30); if(!u2.insert(m.a.s.lin(id)).second) continue; wr[nn].push_back({m.a.s.lin(id),x}); if(nn==t.node&&j==t.lme&&kk<cnt){ for(int z=0;z<nd;z++) ix[kk*nd+z]=id[z]; sub[kk]=&ix[kk*nd]; enc(type,&b[kk*es],x); kk++; } } } (void)used; csync(c); if(kk) NGA_Scatter(m.a.g,b.data(),sub.data(),kk); csync(c); for(int nn=0;nn<t.nn;nn++) for(auto&w:wr[nn]) m.v[nn][w.first]=w.second; same=false; what="scatter"; } }
    if(*what){ mexpect(c,t,m,what); csync(c); sim_count("mirrored operations",1); } }
  drop(c,m.a); }
static void c_mm(Case&c){ Top t=topo(c); int n=(int)c.r.range(1,14),k=(int)c.r.range(1,14),m=(int)c.r.range(1,14),da[4]={n,k,1,1},db[4]={k,m,1,1},dc[4]={n,m,1,1}; Mir a=mkm(c,t,T_DBL,2,da),b=mkm(c,t,T_DBL,2,db),r=mkm(c,t,T_DBL,2,dc); mload(c,t,a); mload(c,t,b); mload(c,t,r); csync(c); long al=c.r.range(-2,3),be=c.r.range(-1,2); jitter(c); GA_Dgemm('n','n',n,m,k,(double)al,a.a.g,b.a.g,(double)be,r.a.g);
  for(int nn=0;nn<t.nn;nn++) for(int i=0;i<n;i++) for(int j=0;j<m;j++){ long s=0; for(int l=0;l<k;l++) s+=a.v[nn][i*k+l].re*b.v[nn][l*m+j].re; Val&x=r.v[nn][i*m+j]; x.re=al*s+be*x.re; } mexpect(c,t,r,"product of mirrored matrices"); mexpect(c,t,a,"operand of a product"); csync(c); drop(c,a.a); drop(c,b.a); drop(c,r.a); }
static const Cases cases={{"mirrored array",c_mirror,5},{"mirrored product",c_mm,1}};
static void mgen(Program&p,Rng&r){ coll_gen(p,r,cases,0,1,8,120); if(p.get("port")!=P_PR&&r.chance(0.75)){ int nn=(int)r.range(2,3),k=nn==2?(int)r.range(1,4):(int)r.range(1,2); p.set("np",nn*k); p.set("nproc",nn*k); p.set("nodes",nn); p.set("cyclic",0); p.set("nodemap",0); } }
static void mrun(Program&p){ coll_run(p,cases); }
WORKLOAD(mir,mgen,coll_setup,mrun,coll_check)
