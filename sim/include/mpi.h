/* Simulated MPI used by the model checker: see sim/mc.cpp. */
#ifndef MC_FAKE_MPI_H
#define MC_FAKE_MPI_H
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef int MPI_Comm;
typedef int MPI_Datatype;
typedef int MPI_Op;
typedef int MPI_Fint;
typedef int MPI_Info;
typedef int MPI_Group;
typedef int MPI_Errhandler;
typedef long MPI_Aint;
typedef struct mc_request* MPI_Request;
typedef struct { int MPI_SOURCE; int MPI_TAG; int MPI_ERROR; size_t mc_bytes; } MPI_Status;
typedef void MPI_User_function(void*, void*, int*, MPI_Datatype*);
#define MPI_VERSION 3
#define MPI_SUCCESS 0
#define MPI_ERR_OTHER 16
#define MPI_COMM_NULL (-1)
#define MPI_COMM_WORLD 0
#define MPI_COMM_SELF 1
#define MPI_INFO_NULL 0
#define MPI_REQUEST_NULL ((MPI_Request)0)
#define MPI_STATUS_IGNORE ((MPI_Status*)0)
#define MPI_STATUSES_IGNORE ((MPI_Status*)0)
#define MPI_ANY_SOURCE (-1)
#define MPI_ANY_TAG (-1)
#define MPI_PROC_NULL (-2)
#define MPI_UNDEFINED (-32766)
#define MPI_IDENT 0
#define MPI_CONGRUENT 1
#define MPI_SIMILAR 2
#define MPI_UNEQUAL 3
#define MPI_GROUP_NULL (-1)
#define MPI_ERR_COMM 5
#define MPI_ERR_TRUNCATE 15
#define MPI_IN_PLACE ((void*)-1)
#define MPI_BOTTOM ((void*)0)
#define MPI_MAX_ERROR_STRING 256
#define MPI_MAX_PROCESSOR_NAME 256
#define MPI_ERRORS_RETURN 1
#define MPI_ERRORS_ARE_FATAL 0
/* datatypes: (index<<8)|size */
#define MC_DT(i,s) (((i)<<8)|(s))
#define MPI_DATATYPE_NULL 0
#define MPI_BYTE MC_DT(1,1)
#define MPI_CHAR MC_DT(2,1)
#define MPI_SIGNED_CHAR MC_DT(3,1)
#define MPI_UNSIGNED_CHAR MC_DT(4,1)
#define MPI_SHORT MC_DT(5,2)
#define MPI_UNSIGNED_SHORT MC_DT(6,2)
#define MPI_INT MC_DT(7,4)
#define MPI_UNSIGNED MC_DT(8,4)
#define MPI_LONG MC_DT(9,8)
#define MPI_UNSIGNED_LONG MC_DT(10,8)
#define MPI_LONG_LONG MC_DT(11,8)
#define MPI_LONG_LONG_INT MPI_LONG_LONG
#define MPI_UNSIGNED_LONG_LONG MC_DT(12,8)
#define MPI_FLOAT MC_DT(13,4)
#define MPI_DOUBLE MC_DT(14,8)
#define MPI_INT8_T MC_DT(15,1)
#define MPI_INT16_T MC_DT(16,2)
#define MPI_INT32_T MC_DT(17,4)
#define MPI_INT64_T MC_DT(18,8)
#define MPI_UINT8_T MC_DT(19,1)
#define MPI_UINT16_T MC_DT(20,2)
#define MPI_UINT32_T MC_DT(21,4)
#define MPI_UINT64_T MC_DT(22,8)
#define MPI_C_BOOL MC_DT(23,1)
#define MPI_CXX_BOOL MC_DT(24,1)
#define MPI_PACKED MC_DT(25,1)
#define MPI_DOUBLE_INT MC_DT(26,16)
#define MPI_2INT MC_DT(27,8)
#define MPI_OP_NULL 0
#define MPI_MAX 1
#define MPI_MIN 2
#define MPI_SUM 3
#define MPI_PROD 4
#define MPI_LAND 5
#define MPI_LOR 6
#define MPI_BAND 7
#define MPI_BOR 8
#define MPI_LXOR 9
#define MPI_BXOR 10
#define MPI_MAXLOC 11
#define MPI_MINLOC 12
#define MPI_THREAD_SINGLE 0
#define MPI_THREAD_FUNNELED 1
#define MPI_THREAD_SERIALIZED 2
#define MPI_THREAD_MULTIPLE 3
#define MPI_COMM_TYPE_SHARED 1
#define MPI_TAG_UB 1

int MPI_Init(int*,char***);
int MPI_Init_thread(int*,char***,int,int*);
int MPI_Initialized(int*);
int MPI_Finalized(int*);
int MPI_Query_thread(int*);
int MPI_Finalize(void);
int MPI_Abort(MPI_Comm,int);
int MPI_Comm_size(MPI_Comm,int*);
int MPI_Comm_rank(MPI_Comm,int*);
int MPI_Comm_dup(MPI_Comm,MPI_Comm*);
int MPI_Comm_split(MPI_Comm,int,int,MPI_Comm*);
int MPI_Comm_free(MPI_Comm*);
int MPI_Comm_compare(MPI_Comm,MPI_Comm,int*);
MPI_Comm MPI_Comm_f2c(MPI_Fint);
MPI_Fint MPI_Comm_c2f(MPI_Comm);
int MPI_Comm_set_errhandler(MPI_Comm,MPI_Errhandler);
int MPI_Get_processor_name(char*,int*);
int MPI_Type_size(MPI_Datatype,int*);
double MPI_Wtime(void);
double MPI_Wtick(void);
int MPI_Send(const void*,int,MPI_Datatype,int,int,MPI_Comm);
int MPI_Bsend(const void*,int,MPI_Datatype,int,int,MPI_Comm);
int MPI_Rsend(const void*,int,MPI_Datatype,int,int,MPI_Comm);
int MPI_Ssend(const void*,int,MPI_Datatype,int,int,MPI_Comm);
int MPI_Isend(const void*,int,MPI_Datatype,int,int,MPI_Comm,MPI_Request*);
int MPI_Irsend(const void*,int,MPI_Datatype,int,int,MPI_Comm,MPI_Request*);
int MPI_Ibsend(const void*,int,MPI_Datatype,int,int,MPI_Comm,MPI_Request*);
int MPI_Issend(const void*,int,MPI_Datatype,int,int,MPI_Comm,MPI_Request*);
int MPI_Recv(void*,int,MPI_Datatype,int,int,MPI_Comm,MPI_Status*);
int MPI_Irecv(void*,int,MPI_Datatype,int,int,MPI_Comm,MPI_Request*);
int MPI_Sendrecv(const void*,int,MPI_Datatype,int,int,void*,int,MPI_Datatype,int,int,MPI_Comm,MPI_Status*);
int MPI_Iprobe(int,int,MPI_Comm,int*,MPI_Status*);
int MPI_Probe(int,int,MPI_Comm,MPI_Status*);
int MPI_Get_count(const MPI_Status*,MPI_Datatype,int*);
int MPI_Test(MPI_Request*,int*,MPI_Status*);
int MPI_Testall(int,MPI_Request*,int*,MPI_Status*);
int MPI_Testany(int,MPI_Request*,int*,int*,MPI_Status*);
int MPI_Wait(MPI_Request*,MPI_Status*);
int MPI_Waitall(int,MPI_Request*,MPI_Status*);
int MPI_Waitany(int,MPI_Request*,int*,MPI_Status*);
int MPI_Cancel(MPI_Request*);
int MPI_Request_free(MPI_Request*);
int MPI_Barrier(MPI_Comm);
int MPI_Ibarrier(MPI_Comm,MPI_Request*);
int MPI_Bcast(void*,int,MPI_Datatype,int,MPI_Comm);
int MPI_Reduce(const void*,void*,int,MPI_Datatype,MPI_Op,int,MPI_Comm);
int MPI_Allreduce(const void*,void*,int,MPI_Datatype,MPI_Op,MPI_Comm);
int MPI_Scan(const void*,void*,int,MPI_Datatype,MPI_Op,MPI_Comm);
int MPI_Exscan(const void*,void*,int,MPI_Datatype,MPI_Op,MPI_Comm);
int MPI_Gather(const void*,int,MPI_Datatype,void*,int,MPI_Datatype,int,MPI_Comm);
int MPI_Gatherv(const void*,int,MPI_Datatype,void*,const int*,const int*,MPI_Datatype,int,MPI_Comm);
int MPI_Scatter(const void*,int,MPI_Datatype,void*,int,MPI_Datatype,int,MPI_Comm);
int MPI_Allgather(const void*,int,MPI_Datatype,void*,int,MPI_Datatype,MPI_Comm);
int MPI_Allgatherv(const void*,int,MPI_Datatype,void*,const int*,const int*,MPI_Datatype,MPI_Comm);
int MPI_Alltoall(const void*,int,MPI_Datatype,void*,int,MPI_Datatype,MPI_Comm);
int MPI_Alltoallv(const void*,const int*,const int*,MPI_Datatype,void*,const int*,const int*,MPI_Datatype,MPI_Comm);
#ifdef __cplusplus
}
#endif
#endif
