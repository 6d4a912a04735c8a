// MPI for ranks whose communication is decided by a broker (lib/mpi.py): every
// call that communicates is a request to it, and it answers when it chooses.
#ifndef VERIF_MPI_H
#define VERIF_MPI_H
typedef int MPI_Comm;
typedef int MPI_Datatype;       // kind * 256 + size
typedef int MPI_Op;
typedef long MPI_Aint;
typedef struct { int MPI_SOURCE, MPI_TAG, MPI_ERROR; long verif_bytes; } MPI_Status;
typedef struct verif_request* MPI_Request;
#define MPI_COMM_WORLD 1
#define MPI_SUCCESS 0
#define MPI_ERR_OTHER 15
#define MPI_ANY_SOURCE (-1)
#define MPI_ANY_TAG (-1)
#define MPI_PROC_NULL (-2)
#define MPI_UNDEFINED (-32766)
#define MPI_STATUS_IGNORE ((MPI_Status*)0)
#define MPI_STATUSES_IGNORE ((MPI_Status*)0)
#define MPI_REQUEST_NULL ((MPI_Request)0)
#define MPI_IN_PLACE ((void*)-1)
#define MPI_MAX_PROCESSOR_NAME 64
#define MPI_THREAD_SINGLE 0
#define MPI_THREAD_FUNNELED 1
#define MPI_THREAD_SERIALIZED 2
#define MPI_THREAD_MULTIPLE 3
#define VERIF_MPI_T(k, t) ((k) * 256 + (int)sizeof(t))
#define MPI_BYTE VERIF_MPI_T(1, char)
#define MPI_CHAR VERIF_MPI_T(2, char)
#define MPI_SIGNED_CHAR VERIF_MPI_T(2, char)
#define MPI_UNSIGNED_CHAR VERIF_MPI_T(3, unsigned char)
#define MPI_SHORT VERIF_MPI_T(4, short)
#define MPI_UNSIGNED_SHORT VERIF_MPI_T(5, unsigned short)
#define MPI_INT VERIF_MPI_T(6, int)
#define MPI_INT32_T VERIF_MPI_T(6, int)
#define MPI_UNSIGNED VERIF_MPI_T(7, unsigned)
#define MPI_UINT32_T VERIF_MPI_T(7, unsigned)
#define MPI_LONG VERIF_MPI_T(8, long)
#define MPI_LONG_LONG VERIF_MPI_T(8, long long)
#define MPI_LONG_LONG_INT VERIF_MPI_T(8, long long)
#define MPI_INT64_T VERIF_MPI_T(8, long)
#define MPI_UNSIGNED_LONG VERIF_MPI_T(9, unsigned long)
#define MPI_UNSIGNED_LONG_LONG VERIF_MPI_T(9, unsigned long long)
#define MPI_UINT64_T VERIF_MPI_T(9, unsigned long)
#define MPI_FLOAT VERIF_MPI_T(10, float)
#define MPI_DOUBLE VERIF_MPI_T(11, double)
#define MPI_C_BOOL VERIF_MPI_T(12, bool)
#define MPI_CXX_BOOL VERIF_MPI_T(12, bool)
#define MPI_SUM 1
#define MPI_MAX 2
#define MPI_MIN 3
#define MPI_PROD 4
#define MPI_LAND 5
#define MPI_LOR 6
extern "C" {
int MPI_Init(int*, char***);
int MPI_Init_thread(int*, char***, int, int*);
int MPI_Initialized(int*);
int MPI_Finalized(int*);
int MPI_Finalize();
int MPI_Abort(MPI_Comm, int);
int MPI_Comm_rank(MPI_Comm, int*);
int MPI_Comm_size(MPI_Comm, int*);
int MPI_Get_processor_name(char*, int*);
double MPI_Wtime();
int MPI_Type_size(MPI_Datatype, int*);
int MPI_Send(const void*, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Ssend(const void*, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Bsend(const void*, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Rsend(const void*, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Isend(const void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Issend(const void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Recv(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status*);
int MPI_Irecv(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Sendrecv(const void*, int, MPI_Datatype, int, int, void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status*);
int MPI_Probe(int, int, MPI_Comm, MPI_Status*);
int MPI_Iprobe(int, int, MPI_Comm, int*, MPI_Status*);
int MPI_Get_count(const MPI_Status*, MPI_Datatype, int*);
int MPI_Wait(MPI_Request*, MPI_Status*);
int MPI_Waitall(int, MPI_Request*, MPI_Status*);
int MPI_Test(MPI_Request*, int*, MPI_Status*);
int MPI_Barrier(MPI_Comm);
int MPI_Bcast(void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Gather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Gatherv(const void*, int, MPI_Datatype, void*, const int*, const int*, MPI_Datatype, int, MPI_Comm);
int MPI_Allgather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, MPI_Comm);
int MPI_Allgatherv(const void*, int, MPI_Datatype, void*, const int*, const int*, MPI_Datatype, MPI_Comm);
int MPI_Reduce(const void*, void*, int, MPI_Datatype, MPI_Op, int, MPI_Comm);
int MPI_Allreduce(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
}
#endif
