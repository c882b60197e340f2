/* Simulated MPI: the header every simulated image is compiled against. */
#ifndef SIM_MPI_H
#define SIM_MPI_H
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef int MPI_Comm; typedef int MPI_Group; typedef int MPI_Datatype; typedef int MPI_Op;
typedef int MPI_Request; typedef int MPI_Win; typedef int MPI_Info; typedef int MPI_Errhandler;
typedef int MPI_Fint; typedef long MPI_Aint; typedef long long MPI_Offset;
typedef struct { int MPI_SOURCE, MPI_TAG, MPI_ERROR; long _bytes; } MPI_Status;
typedef void (MPI_User_function)(void*,void*,int*,MPI_Datatype*);
typedef void (MPI_Handler_function)(MPI_Comm*,int*,...);
#define MPI_VERSION 3
#define MPI_SUBVERSION 1
#define MPI_COMM_NULL 0
#define MPI_COMM_WORLD 1
#define MPI_COMM_SELF 2
#define MPI_GROUP_NULL 0
#define MPI_GROUP_EMPTY 1
#define MPI_REQUEST_NULL 0
#define MPI_WIN_NULL 0
#define MPI_INFO_NULL 0
#define MPI_OP_NULL 0
#define MPI_DATATYPE_NULL 0
#define MPI_STATUS_IGNORE ((MPI_Status*)0)
#define MPI_STATUSES_IGNORE ((MPI_Status*)0)
#define MPI_IN_PLACE ((void*)-1L)
#define MPI_BOTTOM ((void*)0)
#define MPI_ANY_SOURCE (-1)
#define MPI_PROC_NULL (-2)
#define MPI_ROOT (-3)
#define MPI_ANY_TAG (-1)
#define MPI_UNDEFINED (-32766)
#define MPI_MAX_PROCESSOR_NAME 256
#define MPI_MAX_ERROR_STRING 256
#define MPI_ERRORS_RETURN 1
#define MPI_ERRORS_ARE_FATAL 2
#define MPI_SUCCESS 0
enum { MPI_ERR_BUFFER=1,MPI_ERR_COUNT,MPI_ERR_TYPE,MPI_ERR_TAG,MPI_ERR_COMM,MPI_ERR_RANK,MPI_ERR_REQUEST,MPI_ERR_ROOT,
 MPI_ERR_GROUP,MPI_ERR_OP,MPI_ERR_TOPOLOGY,MPI_ERR_DIMS,MPI_ERR_ARG,MPI_ERR_UNKNOWN,MPI_ERR_TRUNCATE,MPI_ERR_OTHER,
 MPI_ERR_INTERN,MPI_ERR_IN_STATUS,MPI_ERR_PENDING,MPI_ERR_NO_MEM,MPI_ERR_WIN,MPI_ERR_LASTCODE=92 };
enum { MPI_THREAD_SINGLE=0,MPI_THREAD_FUNNELED,MPI_THREAD_SERIALIZED,MPI_THREAD_MULTIPLE };
enum { MPI_CHAR=1,MPI_BYTE,MPI_SIGNED_CHAR,MPI_UNSIGNED_CHAR,MPI_SHORT,MPI_INT,MPI_UNSIGNED,MPI_LONG,MPI_UNSIGNED_LONG,
 MPI_LONG_LONG,MPI_FLOAT,MPI_DOUBLE,MPI_LONG_DOUBLE,MPI_DOUBLE_INT,MPI_FLOAT_INT,MPI_LONG_INT,MPI_2INT,MPI__LLI,
 MPI_C_FLOAT_COMPLEX,MPI_C_DOUBLE_COMPLEX,MPI_PACKED,MPI__LASTTYPE };
#define MPI_LONG_LONG_INT MPI_LONG_LONG
#define MPI_UNSIGNED_CHAR MPI_UNSIGNED_CHAR
enum { MPI_SUM=1,MPI_PROD,MPI_MAX,MPI_MIN,MPI_LAND,MPI_LOR,MPI_BAND,MPI_BOR,MPI_LXOR,MPI_BXOR,MPI_MAXLOC,MPI_MINLOC,MPI_REPLACE,MPI_NO_OP };
enum { MPI_ORDER_C=1,MPI_ORDER_FORTRAN };
enum { MPI_LOCK_EXCLUSIVE=1,MPI_LOCK_SHARED };
#define MPI_MODE_NOCHECK 1
#define MPI_MODE_NOSTORE 2
#define MPI_MODE_NOPUT 4
#define MPI_MODE_NOPRECEDE 8
#define MPI_MODE_NOSUCCEED 16
#define MPI_WIN_BASE 1
int MPI_Init(int*,char***); int MPI_Init_thread(int*,char***,int,int*); int MPI_Query_thread(int*);
int MPI_Initialized(int*); int MPI_Finalized(int*); int MPI_Finalize(void); int MPI_Abort(MPI_Comm,int);
double MPI_Wtime(void); double MPI_Wtick(void); int MPI_Get_processor_name(char*,int*);
int MPI_Comm_rank(MPI_Comm,int*); int MPI_Comm_size(MPI_Comm,int*); int MPI_Comm_dup(MPI_Comm,MPI_Comm*);
int MPI_Comm_free(MPI_Comm*); int MPI_Comm_group(MPI_Comm,MPI_Group*); int MPI_Comm_create(MPI_Comm,MPI_Group,MPI_Comm*);
int MPI_Comm_split(MPI_Comm,int,int,MPI_Comm*); int MPI_Comm_compare(MPI_Comm,MPI_Comm,int*);
int MPI_Intercomm_create(MPI_Comm,int,MPI_Comm,int,int,MPI_Comm*); int MPI_Intercomm_merge(MPI_Comm,int,MPI_Comm*);
int MPI_Comm_set_errhandler(MPI_Comm,MPI_Errhandler); int MPI_Errhandler_set(MPI_Comm,MPI_Errhandler);
int MPI_Error_string(int,char*,int*); int MPI_Error_class(int,int*);
MPI_Fint MPI_Comm_c2f(MPI_Comm); MPI_Comm MPI_Comm_f2c(MPI_Fint);
int MPI_Group_size(MPI_Group,int*); int MPI_Group_rank(MPI_Group,int*); int MPI_Group_incl(MPI_Group,int,const int*,MPI_Group*);
int MPI_Group_excl(MPI_Group,int,const int*,MPI_Group*); int MPI_Group_free(MPI_Group*);
int MPI_Group_translate_ranks(MPI_Group,int,const int*,MPI_Group,int*);
int MPI_Send(const void*,int,MPI_Datatype,int,int,MPI_Comm); int MPI_Recv(void*,int,MPI_Datatype,int,int,MPI_Comm,MPI_Status*);
int MPI_Ssend(const void*,int,MPI_Datatype,int,int,MPI_Comm);
int MPI_Isend(const void*,int,MPI_Datatype,int,int,MPI_Comm,MPI_Request*); int MPI_Irecv(void*,int,MPI_Datatype,int,int,MPI_Comm,MPI_Request*);
int MPI_Issend(const void*,int,MPI_Datatype,int,int,MPI_Comm,MPI_Request*);
int MPI_Sendrecv(const void*,int,MPI_Datatype,int,int,void*,int,MPI_Datatype,int,int,MPI_Comm,MPI_Status*);
int MPI_Wait(MPI_Request*,MPI_Status*); int MPI_Test(MPI_Request*,int*,MPI_Status*); int MPI_Waitall(int,MPI_Request*,MPI_Status*);
int MPI_Waitany(int,MPI_Request*,int*,MPI_Status*); int MPI_Testall(int,MPI_Request*,int*,MPI_Status*); int MPI_Testany(int,MPI_Request*,int*,int*,MPI_Status*);
int MPI_Request_free(MPI_Request*); int MPI_Cancel(MPI_Request*);
int MPI_Iprobe(int,int,MPI_Comm,int*,MPI_Status*); int MPI_Probe(int,int,MPI_Comm,MPI_Status*); int MPI_Get_count(const MPI_Status*,MPI_Datatype,int*);
int MPI_Barrier(MPI_Comm); int MPI_Bcast(void*,int,MPI_Datatype,int,MPI_Comm);
int MPI_Reduce(const void*,void*,int,MPI_Datatype,MPI_Op,int,MPI_Comm); int MPI_Allreduce(const void*,void*,int,MPI_Datatype,MPI_Op,MPI_Comm);
int MPI_Allgather(const void*,int,MPI_Datatype,void*,int,MPI_Datatype,MPI_Comm); int MPI_Gather(const void*,int,MPI_Datatype,void*,int,MPI_Datatype,int,MPI_Comm);
int MPI_Alltoall(const void*,int,MPI_Datatype,void*,int,MPI_Datatype,MPI_Comm);
int MPI_Op_create(MPI_User_function*,int,MPI_Op*); int MPI_Op_free(MPI_Op*);
int MPI_Type_size(MPI_Datatype,int*); int MPI_Type_commit(MPI_Datatype*); int MPI_Type_free(MPI_Datatype*);
int MPI_Type_contiguous(int,MPI_Datatype,MPI_Datatype*); int MPI_Type_create_subarray(int,const int*,const int*,const int*,int,MPI_Datatype,MPI_Datatype*);
int MPI_Type_create_struct(int,const int*,const MPI_Aint*,const MPI_Datatype*,MPI_Datatype*); int MPI_Type_struct(int,int*,MPI_Aint*,MPI_Datatype*,MPI_Datatype*);
int MPI_Type_vector(int,int,int,MPI_Datatype,MPI_Datatype*); int MPI_Type_create_hvector(int,int,MPI_Aint,MPI_Datatype,MPI_Datatype*);
int MPI_Type_indexed(int,const int*,const int*,MPI_Datatype,MPI_Datatype*); int MPI_Type_create_hindexed(int,const int*,const MPI_Aint*,MPI_Datatype,MPI_Datatype*);
int MPI_Get_address(const void*,MPI_Aint*);
int MPI_Alloc_mem(MPI_Aint,MPI_Info,void*); int MPI_Free_mem(void*);
int MPI_Win_create(void*,MPI_Aint,int,MPI_Info,MPI_Comm,MPI_Win*); int MPI_Win_allocate(MPI_Aint,int,MPI_Info,MPI_Comm,void*,MPI_Win*);
int MPI_Win_free(MPI_Win*); int MPI_Win_lock(int,int,int,MPI_Win); int MPI_Win_unlock(int,MPI_Win); int MPI_Win_lock_all(int,MPI_Win); int MPI_Win_unlock_all(MPI_Win);
int MPI_Win_flush(int,MPI_Win); int MPI_Win_flush_all(MPI_Win); int MPI_Win_flush_local(int,MPI_Win); int MPI_Win_flush_local_all(MPI_Win); int MPI_Win_fence(int,MPI_Win); int MPI_Win_sync(MPI_Win);
int MPI_Win_get_group(MPI_Win,MPI_Group*);
int MPI_Put(const void*,int,MPI_Datatype,int,MPI_Aint,int,MPI_Datatype,MPI_Win); int MPI_Get(void*,int,MPI_Datatype,int,MPI_Aint,int,MPI_Datatype,MPI_Win);
int MPI_Accumulate(const void*,int,MPI_Datatype,int,MPI_Aint,int,MPI_Datatype,MPI_Op,MPI_Win);
int MPI_Rput(const void*,int,MPI_Datatype,int,MPI_Aint,int,MPI_Datatype,MPI_Win,MPI_Request*); int MPI_Rget(void*,int,MPI_Datatype,int,MPI_Aint,int,MPI_Datatype,MPI_Win,MPI_Request*);
int MPI_Raccumulate(const void*,int,MPI_Datatype,int,MPI_Aint,int,MPI_Datatype,MPI_Op,MPI_Win,MPI_Request*);
int MPI_Fetch_and_op(const void*,void*,MPI_Datatype,int,MPI_Aint,MPI_Op,MPI_Win);
int MPI_Get_accumulate(const void*,int,MPI_Datatype,void*,int,MPI_Datatype,int,MPI_Aint,int,MPI_Datatype,MPI_Op,MPI_Win);
int MPI_Compare_and_swap(const void*,const void*,void*,MPI_Datatype,int,MPI_Aint,MPI_Win);
#ifdef __cplusplus
}
#endif
#endif
