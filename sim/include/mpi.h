/* Simulated MPI: the transport seam.  Every rank copy of the code under test is
 * compiled against this header; the functions are implemented by the simulator
 * (sim/mpi.cc), which decides when each message moves and each call returns. */
#ifndef SIM_MPI_H
#define SIM_MPI_H
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef int MPI_Comm;
typedef int MPI_Datatype;
typedef int MPI_Op;
typedef int MPI_Request;
typedef int MPI_Group;
typedef int MPI_Errhandler;
typedef int MPI_Info;
typedef long MPI_Aint;
typedef long long MPI_Offset;
typedef struct MPI_Status {
  int MPI_SOURCE, MPI_TAG, MPI_ERROR;
  long long _count;
  int _cancelled;
} MPI_Status;

#define MPI_COMM_NULL ((MPI_Comm)0)
#define MPI_COMM_WORLD ((MPI_Comm)1)
#define MPI_COMM_SELF ((MPI_Comm)2)
#define MPI_REQUEST_NULL ((MPI_Request)0)
#define MPI_STATUS_IGNORE ((MPI_Status *)0)
#define MPI_STATUSES_IGNORE ((MPI_Status *)0)
#define MPI_INFO_NULL ((MPI_Info)0)
#define MPI_ERRORS_ARE_FATAL 1
#define MPI_ERRORS_RETURN 2
#define MPI_ANY_SOURCE (-1)
#define MPI_ANY_TAG (-1)
#define MPI_PROC_NULL (-2)
#define MPI_UNDEFINED (-32766)
#define MPI_IN_PLACE ((void *)-1)
#define MPI_MAX_PROCESSOR_NAME 256
#define MPI_MAX_ERROR_STRING 256
#define MPI_SUCCESS 0
#define MPI_ERR_BUFFER 1
#define MPI_ERR_COUNT 2
#define MPI_ERR_TYPE 3
#define MPI_ERR_TAG 4
#define MPI_ERR_COMM 5
#define MPI_ERR_RANK 6
#define MPI_ERR_REQUEST 7
#define MPI_ERR_TRUNCATE 15
#define MPI_ERR_OTHER 16
#define MPI_THREAD_SINGLE 0
#define MPI_THREAD_FUNNELED 1
#define MPI_THREAD_SERIALIZED 2
#define MPI_THREAD_MULTIPLE 3

/* datatype = id*256 + size */
#define SIM_DT(id, sz) ((MPI_Datatype)((id) * 256 + (sz)))
#define MPI_CHAR SIM_DT(1, 1)
#define MPI_SIGNED_CHAR SIM_DT(2, 1)
#define MPI_UNSIGNED_CHAR SIM_DT(3, 1)
#define MPI_BYTE SIM_DT(4, 1)
#define MPI_SHORT SIM_DT(5, 2)
#define MPI_UNSIGNED_SHORT SIM_DT(6, 2)
#define MPI_INT SIM_DT(7, 4)
#define MPI_UNSIGNED SIM_DT(8, 4)
#define MPI_LONG SIM_DT(9, 8)
#define MPI_UNSIGNED_LONG SIM_DT(10, 8)
#define MPI_LONG_LONG SIM_DT(11, 8)
#define MPI_LONG_LONG_INT SIM_DT(11, 8)
#define MPI_UNSIGNED_LONG_LONG SIM_DT(12, 8)
#define MPI_FLOAT SIM_DT(13, 4)
#define MPI_DOUBLE SIM_DT(14, 8)
#define MPI_INT64_T SIM_DT(15, 8)
#define MPI_UINT64_T SIM_DT(16, 8)
#define MPI_INT32_T SIM_DT(17, 4)
#define MPI_UINT32_T SIM_DT(18, 4)
#define MPI_UINT8_T SIM_DT(19, 1)
#define MPI_INT8_T SIM_DT(20, 1)
#define MPI_C_BOOL SIM_DT(21, 1)

#define MPI_MAX 1
#define MPI_MIN 2
#define MPI_SUM 3
#define MPI_PROD 4
#define MPI_LAND 5
#define MPI_BAND 6
#define MPI_LOR 7
#define MPI_BOR 8

int MPI_Init(int *, char ***);
int MPI_Init_thread(int *, char ***, int, int *);
int MPI_Initialized(int *);
int MPI_Finalized(int *);
int MPI_Finalize(void);
int MPI_Abort(MPI_Comm, int);
int MPI_Comm_rank(MPI_Comm, int *);
int MPI_Comm_size(MPI_Comm, int *);
int MPI_Comm_dup(MPI_Comm, MPI_Comm *);
int MPI_Comm_free(MPI_Comm *);
int MPI_Comm_split(MPI_Comm, int, int, MPI_Comm *);
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler);
int MPI_Get_processor_name(char *, int *);
int MPI_Error_string(int, char *, int *);
double MPI_Wtime(void);
double MPI_Wtick(void);
int MPI_Type_size(MPI_Datatype, int *);

int MPI_Send(const void *, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Ssend(const void *, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Bsend(const void *, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Rsend(const void *, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Recv(void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status *);
int MPI_Isend(const void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *);
int MPI_Issend(const void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *);
int MPI_Ibsend(const void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *);
int MPI_Irsend(const void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *);
int MPI_Irecv(void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *);
int MPI_Sendrecv(const void *, int, MPI_Datatype, int, int, void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status *);
int MPI_Wait(MPI_Request *, MPI_Status *);
int MPI_Waitall(int, MPI_Request *, MPI_Status *);
int MPI_Waitany(int, MPI_Request *, int *, MPI_Status *);
int MPI_Test(MPI_Request *, int *, MPI_Status *);
int MPI_Testall(int, MPI_Request *, int *, MPI_Status *);
int MPI_Probe(int, int, MPI_Comm, MPI_Status *);
int MPI_Iprobe(int, int, MPI_Comm, int *, MPI_Status *);
int MPI_Get_count(const MPI_Status *, MPI_Datatype, int *);
int MPI_Cancel(MPI_Request *);
int MPI_Request_free(MPI_Request *);

int MPI_Barrier(MPI_Comm);
int MPI_Bcast(void *, int, MPI_Datatype, int, MPI_Comm);
int MPI_Reduce(const void *, void *, int, MPI_Datatype, MPI_Op, int, MPI_Comm);
int MPI_Allreduce(const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Scan(const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Exscan(const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Gather(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, int, MPI_Comm);
int MPI_Allgather(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, MPI_Comm);
int MPI_Scatter(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, int, MPI_Comm);
int MPI_Alltoall(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, MPI_Comm);
#ifdef __cplusplus
}
#endif
#endif
