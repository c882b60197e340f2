// Generated by tools/gen64.py: a random part of the calls goes through the 64-bit variants.
#ifndef GA64_H
#define GA64_H
static int v64_pct=0; static uint64_t v64_ctr=0;
static inline bool v64(){ if(!v64_pct) return false; Rng q(++v64_ctr*77); return (int)q.below(100)<v64_pct; }
static bool v64_2d=false; extern "C" { void pnga_gather2d(long,void*,long*,long*,long); void pnga_scatter2d(long,void*,long*,long*,long); void pnga_scatter_acc2d(long,void*,long*,long*,long,void*); }
struct V64 { std::vector<int64_t> v; int*out=nullptr; V64(const int*p,long n){ if(p&&n>0) v.assign(p,p+n); else v.assign(n>0?n:1,0); null=!p; } bool null; operator int64_t*(){ return null?nullptr:v.data(); } };
struct O64 { std::vector<int64_t> v; int*out; long n; O64(int*p,long k):v(k>0?k:1,0x5555555555555555ll),out(p),n(k){ } operator int64_t*(){ return v.data(); } void back(){ for(long i=0;i<n;i++) out[i]=(int)v[i]; } };
static inline void v64_GA_Abs_value_patch(int a0,int * a1,int * a2){ if(!v64()){ GA_Abs_value_patch(a0,a1,a2); return; } V64 c1(a1,GA_Ndim(a0)); V64 c2(a2,GA_Ndim(a0)); GA_Abs_value_patch64(a0,c1,c2);  }
static inline void v64_GA_Add_constant_patch(int a0,int * a1,int * a2,void * a3){ if(!v64()){ GA_Add_constant_patch(a0,a1,a2,a3); return; } V64 c1(a1,GA_Ndim(a0)); V64 c2(a2,GA_Ndim(a0)); GA_Add_constant_patch64(a0,c1,c2,a3);  }
static inline void v64_GA_Cgemm(char a0,char a1,int a2,int a3,int a4,SingleComplex a5,int a6,int a7,SingleComplex a8,int a9){ if(!v64()){ GA_Cgemm(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9); return; }  GA_Cgemm64(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9);  }
static inline void v64_GA_Dgemm(char a0,char a1,int a2,int a3,int a4,double a5,int a6,int a7,double a8,int a9){ if(!v64()){ GA_Dgemm(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9); return; }  GA_Dgemm64(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9);  }
static inline void v64_GA_Sgemm(char a0,char a1,int a2,int a3,int a4,float a5,int a6,int a7,float a8,int a9){ if(!v64()){ GA_Sgemm(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9); return; }  GA_Sgemm64(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9);  }
static inline void v64_GA_Zgemm(char a0,char a1,int a2,int a3,int a4,DoubleComplex a5,int a6,int a7,DoubleComplex a8,int a9){ if(!v64()){ GA_Zgemm(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9); return; }  GA_Zgemm64(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9);  }
static inline void v64_GA_Elem_divide_patch(int a0,int * a1,int * a2,int a3,int * a4,int * a5,int a6,int * a7,int * a8){ if(!v64()){ GA_Elem_divide_patch(a0,a1,a2,a3,a4,a5,a6,a7,a8); return; } V64 c1(a1,GA_Ndim(a0)); V64 c2(a2,GA_Ndim(a0)); V64 c4(a4,GA_Ndim(a3)); V64 c5(a5,GA_Ndim(a3)); V64 c7(a7,GA_Ndim(a6)); V64 c8(a8,GA_Ndim(a6)); GA_Elem_divide_patch64(a0,c1,c2,a3,c4,c5,a6,c7,c8);  }
static inline void v64_GA_Elem_maximum_patch(int a0,int * a1,int * a2,int a3,int * a4,int * a5,int a6,int * a7,int * a8){ if(!v64()){ GA_Elem_maximum_patch(a0,a1,a2,a3,a4,a5,a6,a7,a8); return; } V64 c1(a1,GA_Ndim(a0)); V64 c2(a2,GA_Ndim(a0)); V64 c4(a4,GA_Ndim(a3)); V64 c5(a5,GA_Ndim(a3)); V64 c7(a7,GA_Ndim(a6)); V64 c8(a8,GA_Ndim(a6)); GA_Elem_maximum_patch64(a0,c1,c2,a3,c4,c5,a6,c7,c8);  }
static inline void v64_GA_Elem_minimum_patch(int a0,int * a1,int * a2,int a3,int * a4,int * a5,int a6,int * a7,int * a8){ if(!v64()){ GA_Elem_minimum_patch(a0,a1,a2,a3,a4,a5,a6,a7,a8); return; } V64 c1(a1,GA_Ndim(a0)); V64 c2(a2,GA_Ndim(a0)); V64 c4(a4,GA_Ndim(a3)); V64 c5(a5,GA_Ndim(a3)); V64 c7(a7,GA_Ndim(a6)); V64 c8(a8,GA_Ndim(a6)); GA_Elem_minimum_patch64(a0,c1,c2,a3,c4,c5,a6,c7,c8);  }
static inline void v64_GA_Elem_multiply_patch(int a0,int * a1,int * a2,int a3,int * a4,int * a5,int a6,int * a7,int * a8){ if(!v64()){ GA_Elem_multiply_patch(a0,a1,a2,a3,a4,a5,a6,a7,a8); return; } V64 c1(a1,GA_Ndim(a0)); V64 c2(a2,GA_Ndim(a0)); V64 c4(a4,GA_Ndim(a3)); V64 c5(a5,GA_Ndim(a3)); V64 c7(a7,GA_Ndim(a6)); V64 c8(a8,GA_Ndim(a6)); GA_Elem_multiply_patch64(a0,c1,c2,a3,c4,c5,a6,c7,c8);  }
static inline void v64_GA_Matmul_patch(char a0,char a1,void* a2,void * a3,int a4,int a5,int a6,int a7,int a8,int a9,int a10,int a11,int a12,int a13,int a14,int a15,int a16,int a17,int a18){ if(!v64()){ GA_Matmul_patch(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,a14,a15,a16,a17,a18); return; }  GA_Matmul_patch64(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,a14,a15,a16,a17,a18);  }
static inline void v64_GA_Median_patch(int a0,int * a1,int * a2,int a3,int * a4,int * a5,int a6,int * a7,int * a8,int a9,int * a10,int * a11){ if(!v64()){ GA_Median_patch(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11); return; } V64 c1(a1,GA_Ndim(a0)); V64 c2(a2,GA_Ndim(a0)); V64 c4(a4,GA_Ndim(a3)); V64 c5(a5,GA_Ndim(a3)); V64 c7(a7,GA_Ndim(a6)); V64 c8(a8,GA_Ndim(a6)); V64 c10(a10,GA_Ndim(a9)); V64 c11(a11,GA_Ndim(a9)); GA_Median_patch64(a0,c1,c2,a3,c4,c5,a6,c7,c8,a9,c10,c11);  }
static inline void v64_GA_Pack(int a0,int a1,int a2,int a3,int a4,int * a5){ if(!v64()){ GA_Pack(a0,a1,a2,a3,a4,a5); return; } O64 c5(a5,1); GA_Pack64(a0,a1,a2,a3,a4,c5); c5.back(); }
static inline void v64_GA_Unpack(int a0,int a1,int a2,int a3,int a4,int * a5){ if(!v64()){ GA_Unpack(a0,a1,a2,a3,a4,a5); return; } O64 c5(a5,1); GA_Unpack64(a0,a1,a2,a3,a4,c5); c5.back(); }
static inline void v64_GA_Patch_enum(int a0,int a1,int a2,void * a3,void * a4){ if(!v64()){ GA_Patch_enum(a0,a1,a2,a3,a4); return; }  GA_Patch_enum64(a0,a1,a2,a3,a4);  }
static inline void v64_GA_Recip_patch(int a0,int * a1,int * a2){ if(!v64()){ GA_Recip_patch(a0,a1,a2); return; } V64 c1(a1,GA_Ndim(a0)); V64 c2(a2,GA_Ndim(a0)); GA_Recip_patch64(a0,c1,c2);  }
static inline void v64_GA_Scan_add(int a0,int a1,int a2,int a3,int a4,int a5){ if(!v64()){ GA_Scan_add(a0,a1,a2,a3,a4,a5); return; }  GA_Scan_add64(a0,a1,a2,a3,a4,a5);  }
static inline void v64_GA_Scan_copy(int a0,int a1,int a2,int a3,int a4){ if(!v64()){ GA_Scan_copy(a0,a1,a2,a3,a4); return; }  GA_Scan_copy64(a0,a1,a2,a3,a4);  }
static inline void v64_GA_Step_max_patch(int a0,int * a1,int * a2,int a3,int * a4,int * a5,void * a6){ if(!v64()){ GA_Step_max_patch(a0,a1,a2,a3,a4,a5,a6); return; } V64 c1(a1,GA_Ndim(a0)); V64 c2(a2,GA_Ndim(a0)); V64 c4(a4,GA_Ndim(a3)); V64 c5(a5,GA_Ndim(a3)); GA_Step_max_patch64(a0,c1,c2,a3,c4,c5,a6);  }
static inline void v64_NGA_Acc(int a0,int* a1,int* a2,void* a3,int* a4,void* a5){ if(!v64()){ NGA_Acc(a0,a1,a2,a3,a4,a5); return; } V64 c1(a1,GA_Ndim(a0)); V64 c2(a2,GA_Ndim(a0)); V64 c4(a4,GA_Ndim(a0)-1); NGA_Acc64(a0,c1,c2,a3,c4,a5);  }
static inline void v64_NGA_Access(int a0,int* a1,int* a2,void * a3,int* a4){ if(!v64()){ NGA_Access(a0,a1,a2,a3,a4); return; } V64 c1(a1,GA_Ndim(a0)); V64 c2(a2,GA_Ndim(a0)); O64 c4(a4,GA_Ndim(a0)-1); NGA_Access64(a0,c1,c2,a3,c4); c4.back(); }
static inline void v64_NGA_Access_block(int a0,int a1,void * a2,int* a3){ if(!v64()){ NGA_Access_block(a0,a1,a2,a3); return; } O64 c3(a3,GA_Ndim(a0)-1); NGA_Access_block64(a0,a1,a2,c3); c3.back(); }
static inline void v64_NGA_Access_block_grid(int a0,int* a1,void * a2,int* a3){ if(!v64()){ NGA_Access_block_grid(a0,a1,a2,a3); return; } V64 c1(a1,GA_Ndim(a0)); O64 c3(a3,GA_Ndim(a0)-1); NGA_Access_block_grid64(a0,c1,a2,c3); c3.back(); }
static inline void v64_NGA_Access_ghost_element(int a0,void * a1,int* a2,int* a3){ if(!v64()){ NGA_Access_ghost_element(a0,a1,a2,a3); return; } V64 c2(a2,GA_Ndim(a0)); O64 c3(a3,GA_Ndim(a0)-1); NGA_Access_ghost_element64(a0,a1,c2,c3); c3.back(); }
static inline void v64_NGA_Access_ghosts(int a0,int* a1,void * a2,int* a3){ if(!v64()){ NGA_Access_ghosts(a0,a1,a2,a3); return; } O64 c1(a1,GA_Ndim(a0)); O64 c3(a3,GA_Ndim(a0)-1); NGA_Access_ghosts64(a0,c1,a2,c3); c1.back(); c3.back(); }
static inline void v64_NGA_Add_patch(void * a0,int a1,int* a2,int* a3,void * a4,int a5,int* a6,int* a7,int a8,int* a9,int* a10){ if(!v64()){ NGA_Add_patch(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10); return; } V64 c2(a2,GA_Ndim(a1)); V64 c3(a3,GA_Ndim(a1)); V64 c6(a6,GA_Ndim(a5)); V64 c7(a7,GA_Ndim(a5)); V64 c9(a9,GA_Ndim(a8)); V64 c10(a10,GA_Ndim(a8)); NGA_Add_patch64(a0,a1,c2,c3,a4,a5,c6,c7,a8,c9,c10);  }
static inline SingleComplex v64_NGA_Cdot_patch(int a0,char a1,int* a2,int* a3,int a4,char a5,int* a6,int* a7){ if(!v64()) return NGA_Cdot_patch(a0,a1,a2,a3,a4,a5,a6,a7); V64 c2(a2,GA_Ndim(a0)); V64 c3(a3,GA_Ndim(a0)); V64 c6(a6,GA_Ndim(a4)); V64 c7(a7,GA_Ndim(a4)); auto rv=NGA_Cdot_patch64(a0,a1,c2,c3,a4,a5,c6,c7);  return rv; }
static inline void v64_NGA_Copy_patch(char a0,int a1,int* a2,int* a3,int a4,int* a5,int* a6){ if(!v64()){ NGA_Copy_patch(a0,a1,a2,a3,a4,a5,a6); return; } V64 c2(a2,GA_Ndim(a1)); V64 c3(a3,GA_Ndim(a1)); V64 c5(a5,GA_Ndim(a4)); V64 c6(a6,GA_Ndim(a4)); NGA_Copy_patch64(a0,a1,c2,c3,a4,c5,c6);  }
static inline int v64_NGA_Create(int a0,int a1,int* a2,char * a3,int* a4){ if(!v64()) return NGA_Create(a0,a1,a2,a3,a4); V64 c2(a2,a1); V64 c4(a4,a1); auto rv=NGA_Create64(a0,a1,c2,a3,c4);  return rv; }
static inline int v64_NGA_Create_config(int a0,int a1,int* a2,char * a3,int* a4,int a5){ if(!v64()) return NGA_Create_config(a0,a1,a2,a3,a4,a5); V64 c2(a2,a1); V64 c4(a4,a1); auto rv=NGA_Create_config64(a0,a1,c2,a3,c4,a5);  return rv; }
static inline int v64_NGA_Create_ghosts(int a0,int a1,int* a2,int* a3,char * a4,int* a5){ if(!v64()) return NGA_Create_ghosts(a0,a1,a2,a3,a4,a5); V64 c2(a2,a1); V64 c3(a3,a1); V64 c5(a5,a1); auto rv=NGA_Create_ghosts64(a0,a1,c2,c3,a4,c5);  return rv; }
static inline double v64_NGA_Ddot_patch(int a0,char a1,int* a2,int* a3,int a4,char a5,int* a6,int* a7){ if(!v64()) return NGA_Ddot_patch(a0,a1,a2,a3,a4,a5,a6,a7); V64 c2(a2,GA_Ndim(a0)); V64 c3(a3,GA_Ndim(a0)); V64 c6(a6,GA_Ndim(a4)); V64 c7(a7,GA_Ndim(a4)); auto rv=NGA_Ddot_patch64(a0,a1,c2,c3,a4,a5,c6,c7);  return rv; }
static inline void v64_NGA_Distribution(int a0,int a1,int* a2,int* a3){ if(!v64()){ NGA_Distribution(a0,a1,a2,a3); return; } O64 c2(a2,GA_Ndim(a0)); O64 c3(a3,GA_Ndim(a0)); NGA_Distribution64(a0,a1,c2,c3); c2.back(); c3.back(); }
static inline float v64_NGA_Fdot_patch(int a0,char a1,int* a2,int* a3,int a4,char a5,int* a6,int* a7){ if(!v64()) return NGA_Fdot_patch(a0,a1,a2,a3,a4,a5,a6,a7); V64 c2(a2,GA_Ndim(a0)); V64 c3(a3,GA_Ndim(a0)); V64 c6(a6,GA_Ndim(a4)); V64 c7(a7,GA_Ndim(a4)); auto rv=NGA_Fdot_patch64(a0,a1,c2,c3,a4,a5,c6,c7);  return rv; }
static inline void v64_NGA_Fill_patch(int a0,int* a1,int* a2,void * a3){ if(!v64()){ NGA_Fill_patch(a0,a1,a2,a3); return; } V64 c1(a1,GA_Ndim(a0)); V64 c2(a2,GA_Ndim(a0)); NGA_Fill_patch64(a0,c1,c2,a3);  }
static inline void v64_NGA_Gather(int a0,void * a1,int** a2,int a3){ if(!v64()){ NGA_Gather(a0,a1,a2,a3); return; } if(v64_2d&&(v64_ctr&1)&&GA_Ndim(a0)==2){ std::vector<long> q1(a3+1),q2(a3+1); for(int k=0;k<a3;k++){ q1[k]=a2[k][1]+1; q2[k]=a2[k][0]+1; } pnga_gather2d(a0,a1,q1.data(),q2.data(),a3); return; } long w=GA_Ndim(a0); std::vector<int64_t> fl(a3*w+1); std::vector<int64_t*> sp; for(long i=0;i<a3;i++){ for(long j=0;j<w;j++) fl[i*w+j]=a2[i][j]; sp.push_back(&fl[i*w]); } NGA_Gather64(a0,a1,sp.data(),a3);  }
static inline void v64_NGA_Gather_flat(int a0,void * a1,int* a2,int a3){ if(!v64()){ NGA_Gather_flat(a0,a1,a2,a3); return; } V64 c2(a2,(long)a3*GA_Ndim(a0)); NGA_Gather_flat64(a0,a1,c2,a3);  }
static inline void v64_NGA_Get(int a0,int* a1,int* a2,void* a3,int* a4){ if(!v64()){ NGA_Get(a0,a1,a2,a3,a4); return; } V64 c1(a1,GA_Ndim(a0)); V64 c2(a2,GA_Ndim(a0)); V64 c4(a4,GA_Ndim(a0)-1); NGA_Get64(a0,c1,c2,a3,c4);  }
static inline void v64_NGA_Get_ghost_block(int a0,int* a1,int* a2,void * a3,int* a4){ if(!v64()){ NGA_Get_ghost_block(a0,a1,a2,a3,a4); return; } V64 c1(a1,GA_Ndim(a0)); V64 c2(a2,GA_Ndim(a0)); V64 c4(a4,GA_Ndim(a0)-1); NGA_Get_ghost_block64(a0,c1,c2,a3,c4);  }
static inline int v64_NGA_Idot_patch(int a0,char a1,int* a2,int* a3,int a4,char a5,int* a6,int* a7){ if(!v64()) return NGA_Idot_patch(a0,a1,a2,a3,a4,a5,a6,a7); V64 c2(a2,GA_Ndim(a0)); V64 c3(a3,GA_Ndim(a0)); V64 c6(a6,GA_Ndim(a4)); V64 c7(a7,GA_Ndim(a4)); auto rv=NGA_Idot_patch64(a0,a1,c2,c3,a4,a5,c6,c7);  return rv; }
static inline void v64_NGA_Inquire(int a0,int * a1,int * a2,int* a3){ if(!v64()){ NGA_Inquire(a0,a1,a2,a3); return; } O64 c3(a3,GA_Ndim(a0)); NGA_Inquire64(a0,a1,a2,c3); c3.back(); }
static inline long v64_NGA_Ldot_patch(int a0,char a1,int* a2,int* a3,int a4,char a5,int* a6,int* a7){ if(!v64()) return NGA_Ldot_patch(a0,a1,a2,a3,a4,a5,a6,a7); V64 c2(a2,GA_Ndim(a0)); V64 c3(a3,GA_Ndim(a0)); V64 c6(a6,GA_Ndim(a4)); V64 c7(a7,GA_Ndim(a4)); auto rv=NGA_Ldot_patch64(a0,a1,c2,c3,a4,a5,c6,c7);  return rv; }
static inline long long v64_NGA_Lldot_patch(int a0,char a1,int* a2,int* a3,int a4,char a5,int* a6,int* a7){ if(!v64()) return NGA_Lldot_patch(a0,a1,a2,a3,a4,a5,a6,a7); V64 c2(a2,GA_Ndim(a0)); V64 c3(a3,GA_Ndim(a0)); V64 c6(a6,GA_Ndim(a4)); V64 c7(a7,GA_Ndim(a4)); auto rv=NGA_Lldot_patch64(a0,a1,c2,c3,a4,a5,c6,c7);  return rv; }
static inline int v64_NGA_Locate(int a0,int* a1){ if(!v64()) return NGA_Locate(a0,a1); V64 c1(a1,GA_Ndim(a0)); auto rv=NGA_Locate64(a0,c1);  return rv; }
static inline int v64_NGA_Locate_nnodes(int a0,int* a1,int* a2){ if(!v64()) return NGA_Locate_nnodes(a0,a1,a2); V64 c1(a1,GA_Ndim(a0)); V64 c2(a2,GA_Ndim(a0)); auto rv=NGA_Locate_nnodes64(a0,c1,c2);  return rv; }
static inline int v64_NGA_Locate_region(int g,int lo[],int hi[],int map[],int procs[]){ if(!v64()) return NGA_Locate_region(g,lo,hi,map,procs); long nd=GA_Ndim(g); V64 l(lo,nd),h(hi,nd); int n=NGA_Locate_nnodes64(g,l,h); std::vector<int64_t> m(2*nd*(n+1),0); int k=NGA_Locate_region64(g,l,h,m.data(),procs); for(long i=0;i<2*nd*k;i++) map[i]=(int)m[i]; return k; }
static inline void v64_NGA_Matmul_patch(char a0,char a1,void* a2,void * a3,int a4,int* a5,int* a6,int a7,int* a8,int* a9,int a10,int* a11,int* a12){ if(!v64()){ NGA_Matmul_patch(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12); return; } V64 c5(a5,GA_Ndim(a4)); V64 c6(a6,GA_Ndim(a4)); V64 c8(a8,GA_Ndim(a7)); V64 c9(a9,GA_Ndim(a7)); V64 c11(a11,GA_Ndim(a10)); V64 c12(a12,GA_Ndim(a10)); NGA_Matmul_patch64(a0,a1,a2,a3,a4,c5,c6,a7,c8,c9,a10,c11,c12);  }
static inline void v64_NGA_NbAcc(int a0,int* a1,int* a2,void* a3,int* a4,void* a5,ga_nbhdl_t* a6){ if(!v64()){ NGA_NbAcc(a0,a1,a2,a3,a4,a5,a6); return; } V64 c1(a1,GA_Ndim(a0)); V64 c2(a2,GA_Ndim(a0)); V64 c4(a4,GA_Ndim(a0)-1); NGA_NbAcc64(a0,c1,c2,a3,c4,a5,a6);  }
static inline void v64_NGA_NbGet(int a0,int* a1,int* a2,void* a3,int* a4,ga_nbhdl_t* a5){ if(!v64()){ NGA_NbGet(a0,a1,a2,a3,a4,a5); return; } V64 c1(a1,GA_Ndim(a0)); V64 c2(a2,GA_Ndim(a0)); V64 c4(a4,GA_Ndim(a0)-1); NGA_NbGet64(a0,c1,c2,a3,c4,a5);  }
static inline void v64_NGA_NbPut(int a0,int* a1,int* a2,void* a3,int* a4,ga_nbhdl_t* a5){ if(!v64()){ NGA_NbPut(a0,a1,a2,a3,a4,a5); return; } V64 c1(a1,GA_Ndim(a0)); V64 c2(a2,GA_Ndim(a0)); V64 c4(a4,GA_Ndim(a0)-1); NGA_NbPut64(a0,c1,c2,a3,c4,a5);  }
static inline void v64_NGA_Periodic_acc(int a0,int* a1,int* a2,void* a3,int* a4,void* a5){ if(!v64()){ NGA_Periodic_acc(a0,a1,a2,a3,a4,a5); return; } V64 c1(a1,GA_Ndim(a0)); V64 c2(a2,GA_Ndim(a0)); V64 c4(a4,GA_Ndim(a0)-1); NGA_Periodic_acc64(a0,c1,c2,a3,c4,a5);  }
static inline void v64_NGA_Periodic_get(int a0,int* a1,int* a2,void* a3,int* a4){ if(!v64()){ NGA_Periodic_get(a0,a1,a2,a3,a4); return; } V64 c1(a1,GA_Ndim(a0)); V64 c2(a2,GA_Ndim(a0)); V64 c4(a4,GA_Ndim(a0)-1); NGA_Periodic_get64(a0,c1,c2,a3,c4);  }
static inline void v64_NGA_Periodic_put(int a0,int* a1,int* a2,void* a3,int* a4){ if(!v64()){ NGA_Periodic_put(a0,a1,a2,a3,a4); return; } V64 c1(a1,GA_Ndim(a0)); V64 c2(a2,GA_Ndim(a0)); V64 c4(a4,GA_Ndim(a0)-1); NGA_Periodic_put64(a0,c1,c2,a3,c4);  }
static inline void v64_NGA_Put(int a0,int* a1,int* a2,void* a3,int* a4){ if(!v64()){ NGA_Put(a0,a1,a2,a3,a4); return; } V64 c1(a1,GA_Ndim(a0)); V64 c2(a2,GA_Ndim(a0)); V64 c4(a4,GA_Ndim(a0)-1); NGA_Put64(a0,c1,c2,a3,c4);  }
static inline long v64_NGA_Read_inc(int a0,int* a1,long a2){ if(!v64()) return NGA_Read_inc(a0,a1,a2); V64 c1(a1,GA_Ndim(a0)); auto rv=NGA_Read_inc64(a0,c1,a2);  return rv; }
static inline void v64_NGA_Release(int a0,int* a1,int* a2){ if(!v64()){ NGA_Release(a0,a1,a2); return; } V64 c1(a1,GA_Ndim(a0)); V64 c2(a2,GA_Ndim(a0)); NGA_Release64(a0,c1,c2);  }
static inline void v64_NGA_Release_ghost_element(int a0,int* a1){ if(!v64()){ NGA_Release_ghost_element(a0,a1); return; } V64 c1(a1,GA_Ndim(a0)); NGA_Release_ghost_element64(a0,c1);  }
static inline void v64_NGA_Release_update(int a0,int* a1,int* a2){ if(!v64()){ NGA_Release_update(a0,a1,a2); return; } V64 c1(a1,GA_Ndim(a0)); V64 c2(a2,GA_Ndim(a0)); NGA_Release_update64(a0,c1,c2);  }
static inline void v64_NGA_Release_update_ghost_element(int a0,int* a1){ if(!v64()){ NGA_Release_update_ghost_element(a0,a1); return; } V64 c1(a1,GA_Ndim(a0)); NGA_Release_update_ghost_element64(a0,c1);  }
static inline void v64_NGA_Scale_patch(int a0,int* a1,int* a2,void * a3){ if(!v64()){ NGA_Scale_patch(a0,a1,a2,a3); return; } V64 c1(a1,GA_Ndim(a0)); V64 c2(a2,GA_Ndim(a0)); NGA_Scale_patch64(a0,c1,c2,a3);  }
static inline void v64_NGA_Scatter(int a0,void * a1,int** a2,int a3){ if(!v64()){ NGA_Scatter(a0,a1,a2,a3); return; } if(v64_2d&&(v64_ctr&1)&&GA_Ndim(a0)==2){ std::vector<long> q1(a3+1),q2(a3+1); for(int k=0;k<a3;k++){ q1[k]=a2[k][1]+1; q2[k]=a2[k][0]+1; } pnga_scatter2d(a0,a1,q1.data(),q2.data(),a3); return; } long w=GA_Ndim(a0); std::vector<int64_t> fl(a3*w+1); std::vector<int64_t*> sp; for(long i=0;i<a3;i++){ for(long j=0;j<w;j++) fl[i*w+j]=a2[i][j]; sp.push_back(&fl[i*w]); } NGA_Scatter64(a0,a1,sp.data(),a3);  }
static inline void v64_NGA_Scatter_flat(int a0,void * a1,int* a2,int a3){ if(!v64()){ NGA_Scatter_flat(a0,a1,a2,a3); return; } V64 c2(a2,(long)a3*GA_Ndim(a0)); NGA_Scatter_flat64(a0,a1,c2,a3);  }
static inline void v64_NGA_Scatter_acc(int a0,void * a1,int** a2,int a3,void * a4){ if(!v64()){ NGA_Scatter_acc(a0,a1,a2,a3,a4); return; } if(v64_2d&&(v64_ctr&1)&&GA_Ndim(a0)==2){ std::vector<long> q1(a3+1),q2(a3+1); for(int k=0;k<a3;k++){ q1[k]=a2[k][1]+1; q2[k]=a2[k][0]+1; } pnga_scatter_acc2d(a0,a1,q1.data(),q2.data(),a3,a4); return; } long w=GA_Ndim(a0); std::vector<int64_t> fl(a3*w+1); std::vector<int64_t*> sp; for(long i=0;i<a3;i++){ for(long j=0;j<w;j++) fl[i*w+j]=a2[i][j]; sp.push_back(&fl[i*w]); } NGA_Scatter_acc64(a0,a1,sp.data(),a3,a4);  }
static inline void v64_NGA_Scatter_acc_flat(int a0,void * a1,int* a2,int a3,void * a4){ if(!v64()){ NGA_Scatter_acc_flat(a0,a1,a2,a3,a4); return; } V64 c2(a2,(long)a3*GA_Ndim(a0)); NGA_Scatter_acc_flat64(a0,a1,c2,a3,a4);  }
static inline void v64_NGA_Select_elem(int a0,char* a1,void* a2,int * a3){ if(!v64()){ NGA_Select_elem(a0,a1,a2,a3); return; } O64 c3(a3,GA_Ndim(a0)); NGA_Select_elem64(a0,a1,a2,c3); c3.back(); }
static inline void v64_NGA_Strided_acc(int a0,int* a1,int* a2,int* a3,void* a4,int* a5,void * a6){ if(!v64()){ NGA_Strided_acc(a0,a1,a2,a3,a4,a5,a6); return; } V64 c1(a1,GA_Ndim(a0)); V64 c2(a2,GA_Ndim(a0)); V64 c3(a3,GA_Ndim(a0)); V64 c5(a5,GA_Ndim(a0)-1); NGA_Strided_acc64(a0,c1,c2,c3,a4,c5,a6);  }
static inline void v64_NGA_Strided_get(int a0,int* a1,int* a2,int* a3,void* a4,int* a5){ if(!v64()){ NGA_Strided_get(a0,a1,a2,a3,a4,a5); return; } V64 c1(a1,GA_Ndim(a0)); V64 c2(a2,GA_Ndim(a0)); V64 c3(a3,GA_Ndim(a0)); V64 c5(a5,GA_Ndim(a0)-1); NGA_Strided_get64(a0,c1,c2,c3,a4,c5);  }
static inline void v64_NGA_Strided_put(int a0,int* a1,int* a2,int* a3,void* a4,int* a5){ if(!v64()){ NGA_Strided_put(a0,a1,a2,a3,a4,a5); return; } V64 c1(a1,GA_Ndim(a0)); V64 c2(a2,GA_Ndim(a0)); V64 c3(a3,GA_Ndim(a0)); V64 c5(a5,GA_Ndim(a0)-1); NGA_Strided_put64(a0,c1,c2,c3,a4,c5);  }
static inline DoubleComplex v64_NGA_Zdot_patch(int a0,char a1,int* a2,int* a3,int a4,char a5,int* a6,int* a7){ if(!v64()) return NGA_Zdot_patch(a0,a1,a2,a3,a4,a5,a6,a7); V64 c2(a2,GA_Ndim(a0)); V64 c3(a3,GA_Ndim(a0)); V64 c6(a6,GA_Ndim(a4)); V64 c7(a7,GA_Ndim(a4)); auto rv=NGA_Zdot_patch64(a0,a1,c2,c3,a4,a5,c6,c7);  return rv; }
static inline void v64_NGA_Zero_patch(int a0,int* a1,int* a2){ if(!v64()){ NGA_Zero_patch(a0,a1,a2); return; } V64 c1(a1,GA_Ndim(a0)); V64 c2(a2,GA_Ndim(a0)); NGA_Zero_patch64(a0,c1,c2);  }
#define GA_Abs_value_patch v64_GA_Abs_value_patch
#define GA_Add_constant_patch v64_GA_Add_constant_patch
#define GA_Cgemm v64_GA_Cgemm
#define GA_Dgemm v64_GA_Dgemm
#define GA_Sgemm v64_GA_Sgemm
#define GA_Zgemm v64_GA_Zgemm
#define GA_Elem_divide_patch v64_GA_Elem_divide_patch
#define GA_Elem_maximum_patch v64_GA_Elem_maximum_patch
#define GA_Elem_minimum_patch v64_GA_Elem_minimum_patch
#define GA_Elem_multiply_patch v64_GA_Elem_multiply_patch
#define GA_Matmul_patch v64_GA_Matmul_patch
#define GA_Median_patch v64_GA_Median_patch
#define GA_Pack v64_GA_Pack
#define GA_Unpack v64_GA_Unpack
#define GA_Patch_enum v64_GA_Patch_enum
#define GA_Recip_patch v64_GA_Recip_patch
#define GA_Scan_add v64_GA_Scan_add
#define GA_Scan_copy v64_GA_Scan_copy
#define GA_Step_max_patch v64_GA_Step_max_patch
#define NGA_Acc v64_NGA_Acc
#define NGA_Access v64_NGA_Access
#define NGA_Access_block v64_NGA_Access_block
#define NGA_Access_block_grid v64_NGA_Access_block_grid
#define NGA_Access_ghost_element v64_NGA_Access_ghost_element
#define NGA_Access_ghosts v64_NGA_Access_ghosts
#define NGA_Add_patch v64_NGA_Add_patch
#define NGA_Cdot_patch v64_NGA_Cdot_patch
#define NGA_Copy_patch v64_NGA_Copy_patch
#define NGA_Create v64_NGA_Create
#define NGA_Create_config v64_NGA_Create_config
#define NGA_Create_ghosts v64_NGA_Create_ghosts
#define NGA_Ddot_patch v64_NGA_Ddot_patch
#define NGA_Distribution v64_NGA_Distribution
#define NGA_Fdot_patch v64_NGA_Fdot_patch
#define NGA_Fill_patch v64_NGA_Fill_patch
#define NGA_Gather v64_NGA_Gather
#define NGA_Gather_flat v64_NGA_Gather_flat
#define NGA_Get v64_NGA_Get
#define NGA_Get_ghost_block v64_NGA_Get_ghost_block
#define NGA_Idot_patch v64_NGA_Idot_patch
#define NGA_Inquire v64_NGA_Inquire
#define NGA_Ldot_patch v64_NGA_Ldot_patch
#define NGA_Lldot_patch v64_NGA_Lldot_patch
#define NGA_Locate v64_NGA_Locate
#define NGA_Locate_nnodes v64_NGA_Locate_nnodes
#define NGA_Locate_region v64_NGA_Locate_region
#define NGA_Matmul_patch v64_NGA_Matmul_patch
#define NGA_NbAcc v64_NGA_NbAcc
#define NGA_NbGet v64_NGA_NbGet
#define NGA_NbPut v64_NGA_NbPut
#define NGA_Periodic_acc v64_NGA_Periodic_acc
#define NGA_Periodic_get v64_NGA_Periodic_get
#define NGA_Periodic_put v64_NGA_Periodic_put
#define NGA_Put v64_NGA_Put
#define NGA_Read_inc v64_NGA_Read_inc
#define NGA_Release v64_NGA_Release
#define NGA_Release_ghost_element v64_NGA_Release_ghost_element
#define NGA_Release_update v64_NGA_Release_update
#define NGA_Release_update_ghost_element v64_NGA_Release_update_ghost_element
#define NGA_Scale_patch v64_NGA_Scale_patch
#define NGA_Scatter v64_NGA_Scatter
#define NGA_Scatter_flat v64_NGA_Scatter_flat
#define NGA_Scatter_acc v64_NGA_Scatter_acc
#define NGA_Scatter_acc_flat v64_NGA_Scatter_acc_flat
#define NGA_Select_elem v64_NGA_Select_elem
#define NGA_Strided_acc v64_NGA_Strided_acc
#define NGA_Strided_get v64_NGA_Strided_get
#define NGA_Strided_put v64_NGA_Strided_put
#define NGA_Zdot_patch v64_NGA_Zdot_patch
#define NGA_Zero_patch v64_NGA_Zero_patch
#endif
