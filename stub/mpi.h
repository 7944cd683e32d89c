/* Stand-in for mpi.h: the MPI subset is implemented by the simulator
 * (/verif/sim/mpi.cpp); constants are deliberately arbitrary. */
#ifndef SIM_MPI_H
#define SIM_MPI_H
#include <stdint.h>
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif

typedef int MPI_Comm;
typedef int MPI_Datatype;
typedef int MPI_Op;
typedef int MPI_Errhandler;
typedef int MPI_Group;
typedef int MPI_Info;
typedef long MPI_Aint;
typedef struct SimMpiReq* MPI_Request;
typedef struct { int MPI_SOURCE, MPI_TAG, MPI_ERROR; size_t sim_bytes; int sim_cancelled; } MPI_Status;

#define MPI_SUCCESS 0
#define MPI_ERR_TRUNCATE 15
#define MPI_ERR_OTHER 16
#define MPI_ERR_COMM 5
#define MPI_ERR_RANK 6
#define MPI_ERR_TYPE 3
#define MPI_ERR_OP 9
#define MPI_ERR_ARG 13
#define MPI_ERR_COUNT 2

#define MPI_COMM_NULL 0
#define MPI_COMM_WORLD 1
#define MPI_COMM_SELF 2
#define MPI_REQUEST_NULL ((MPI_Request)0)
#define MPI_ANY_SOURCE (-1)
#define MPI_ANY_TAG (-1)
#define MPI_PROC_NULL (-2)
#define MPI_UNDEFINED (-32766)
#define MPI_IN_PLACE ((void*)-1)
#define MPI_STATUS_IGNORE ((MPI_Status*)0)
#define MPI_STATUSES_IGNORE ((MPI_Status*)0)
#define MPI_ERRORS_RETURN 1
#define MPI_ERRORS_ARE_FATAL 0
#define MPI_MAX_ERROR_STRING 256
#define MPI_MAX_PROCESSOR_NAME 256
#define MPI_INFO_NULL 0
#define MPI_THREAD_SINGLE 0
#define MPI_THREAD_FUNNELED 1
#define MPI_THREAD_SERIALIZED 2
#define MPI_THREAD_MULTIPLE 3

/* datatype: (class<<8)|size ; class 1 signed 2 unsigned 3 float 4 byte */
#define MPI_DATATYPE_NULL 0
#define MPI_CHAR 0x101
#define MPI_SIGNED_CHAR 0x101
#define MPI_INT8_T 0x101
#define MPI_SHORT 0x102
#define MPI_INT16_T 0x102
#define MPI_INT 0x104
#define MPI_INTEGER 0x104
#define MPI_INT32_T 0x104
#define MPI_LONG 0x108
#define MPI_LONG_LONG 0x108
#define MPI_LONG_LONG_INT 0x108
#define MPI_INT64_T 0x108
#define MPI_AINT 0x108
#define MPI_UNSIGNED_CHAR 0x201
#define MPI_UINT8_T 0x201
#define MPI_C_BOOL 0x201
#define MPI_UNSIGNED_SHORT 0x202
#define MPI_UINT16_T 0x202
#define MPI_UNSIGNED 0x204
#define MPI_UINT32_T 0x204
#define MPI_UNSIGNED_LONG 0x208
#define MPI_UNSIGNED_LONG_LONG 0x208
#define MPI_UINT64_T 0x208
#define MPI_FLOAT 0x304
#define MPI_DOUBLE 0x308
#define MPI_BYTE 0x401
#define MPI_PACKED 0x401

#define MPI_OP_NULL 0
#define MPI_SUM 1
#define MPI_PROD 2
#define MPI_MIN 3
#define MPI_MAX 4
#define MPI_LAND 5
#define MPI_LOR 6
#define MPI_BAND 7
#define MPI_BOR 8
#define MPI_LXOR 9
#define MPI_BXOR 10

int MPI_Init(int*, char***);
int MPI_Init_thread(int*, char***, int, int*);
int MPI_Initialized(int*);
int MPI_Finalized(int*);
int MPI_Finalize(void);
int MPI_Abort(MPI_Comm, int);
int MPI_Comm_dup(MPI_Comm, MPI_Comm*);
int MPI_Comm_split(MPI_Comm, int, int, MPI_Comm*);
int MPI_Comm_free(MPI_Comm*);
int MPI_Comm_size(MPI_Comm, int*);
int MPI_Comm_rank(MPI_Comm, int*);
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler);
int MPI_Get_processor_name(char*, int*);
int MPI_Error_string(int, char*, int*);
int MPI_Send(const void*, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Ssend(const void*, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Recv(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status*);
int MPI_Isend(const void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Issend(const void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Irecv(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Sendrecv(const void*, int, MPI_Datatype, int, int, void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status*);
int MPI_Probe(int, int, MPI_Comm, MPI_Status*);
int MPI_Iprobe(int, int, MPI_Comm, int*, MPI_Status*);
int MPI_Wait(MPI_Request*, MPI_Status*);
int MPI_Waitall(int, MPI_Request*, MPI_Status*);
int MPI_Waitany(int, MPI_Request*, int*, MPI_Status*);
int MPI_Test(MPI_Request*, int*, MPI_Status*);
int MPI_Testall(int, MPI_Request*, int*, MPI_Status*);
int MPI_Request_free(MPI_Request*);
int MPI_Get_count(const MPI_Status*, MPI_Datatype, int*);
int MPI_Type_size(MPI_Datatype, int*);
int MPI_Barrier(MPI_Comm);
int MPI_Bcast(void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Reduce(const void*, void*, int, MPI_Datatype, MPI_Op, int, MPI_Comm);
int MPI_Allreduce(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Gather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Gatherv(const void*, int, MPI_Datatype, void*, const int*, const int*, MPI_Datatype, int, MPI_Comm);
int MPI_Scatter(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Allgather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, MPI_Comm);
int MPI_Allgatherv(const void*, int, MPI_Datatype, void*, const int*, const int*, MPI_Datatype, MPI_Comm);
int MPI_Alltoall(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, MPI_Comm);
double MPI_Wtime(void);
double MPI_Wtick(void);
#ifdef __cplusplus
}
#endif
#endif
