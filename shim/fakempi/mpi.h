// Small in-process message layer: the ranks are tasks of one process, run one at a time, and the
// explorer decides who continues at each call and which pending transfer completes when.
#pragma once
typedef int MPI_Comm;
typedef int MPI_Request;
typedef int MPI_Datatype;
typedef int MPI_Op;
struct MPI_Status
{
    int MPI_SOURCE, MPI_TAG, MPI_ERROR, count_;
};
#define MPI_COMM_NULL 0
#define MPI_COMM_WORLD 91
#define MPI_COMM_SELF 92
#define MPI_REQUEST_NULL 0
#define MPI_STATUS_IGNORE (static_cast<MPI_Status*>(nullptr))
#define MPI_STATUSES_IGNORE (static_cast<MPI_Status*>(nullptr))
#define MPI_IN_PLACE (reinterpret_cast<void*>(-1L))
#define MPI_SUCCESS 0
#define MPI_UNDEFINED (-32766)
#define MPI_ANY_SOURCE (-2)
#define MPI_ANY_TAG (-1)
enum
{
    MPI_CHAR = 101,
    MPI_SIGNED_CHAR,
    MPI_UNSIGNED_CHAR,
    MPI_BYTE,
    MPI_WCHAR,
    MPI_SHORT,
    MPI_INT,
    MPI_LONG,
    MPI_LONG_LONG,
    MPI_UNSIGNED_SHORT,
    MPI_UNSIGNED,
    MPI_UNSIGNED_LONG,
    MPI_UNSIGNED_LONG_LONG,
    MPI_FLOAT,
    MPI_DOUBLE,
    MPI_LONG_DOUBLE,
    MPI_CXX_BOOL,
    MPI_CXX_FLOAT_COMPLEX,
    MPI_CXX_DOUBLE_COMPLEX,
    MPI_CXX_LONG_DOUBLE_COMPLEX
};
enum
{
    MPI_MAX = 201,
    MPI_MIN,
    MPI_SUM,
    MPI_PROD,
    MPI_LAND,
    MPI_BAND,
    MPI_LOR,
    MPI_BOR,
    MPI_LXOR,
    MPI_BXOR,
    MPI_MAXLOC,
    MPI_MINLOC
};
enum
{
    MPI_THREAD_SINGLE,
    MPI_THREAD_FUNNELED,
    MPI_THREAD_SERIALIZED,
    MPI_THREAD_MULTIPLE
};
int MPI_Init(int*, char***);
int MPI_Init_thread(int*, char***, int required, int* provided);
int MPI_Query_thread(int*);
int MPI_Initialized(int*);
int MPI_Finalized(int*);
int MPI_Finalize();
int MPI_Comm_rank(MPI_Comm, int*);
int MPI_Comm_size(MPI_Comm, int*);
int MPI_Isend(const void*, int, MPI_Datatype, int dst, int tag, MPI_Comm, MPI_Request*);
int MPI_Irecv(void*, int, MPI_Datatype, int src, int tag, MPI_Comm, MPI_Request*);
int MPI_Test(MPI_Request*, int*, MPI_Status*);
int MPI_Testall(int, MPI_Request*, int*, MPI_Status*);
int MPI_Wait(MPI_Request*, MPI_Status*);
int MPI_Waitall(int, MPI_Request*, MPI_Status*);
int MPI_Allreduce(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Barrier(MPI_Comm);
// not used by the library today
int MPI_Send(const void*, int, MPI_Datatype, int dst, int tag, MPI_Comm);
int MPI_Ssend(const void*, int, MPI_Datatype, int dst, int tag, MPI_Comm);
int MPI_Issend(const void*, int, MPI_Datatype, int dst, int tag, MPI_Comm, MPI_Request*);
int MPI_Recv(void*, int, MPI_Datatype, int src, int tag, MPI_Comm, MPI_Status*);
int MPI_Sendrecv(const void*, int, MPI_Datatype, int dst, int sendTag, void*, int, MPI_Datatype, int src, int recvTag, MPI_Comm, MPI_Status*);
int MPI_Testany(int, MPI_Request*, int* index, int* flag, MPI_Status*);
int MPI_Waitany(int, MPI_Request*, int* index, MPI_Status*);
int MPI_Testsome(int, MPI_Request*, int* count, int* indices, MPI_Status*);
int MPI_Waitsome(int, MPI_Request*, int* count, int* indices, MPI_Status*);
int MPI_Reduce(const void*, void*, int, MPI_Datatype, MPI_Op, int root, MPI_Comm);
int MPI_Iallreduce(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm, MPI_Request*);
int MPI_Bcast(void*, int, MPI_Datatype, int root, MPI_Comm);
int MPI_Type_size(MPI_Datatype, int*);
[[noreturn]] int MPI_Abort(MPI_Comm, int);
