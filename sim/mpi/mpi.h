// A simulated MPI, inside one process. Ranks are fibers; every delivery is decided by the scheduler.
#pragma once
#ifdef __cplusplus
extern "C" {
#endif
typedef struct sim_comm *MPI_Comm;
typedef struct sim_request *MPI_Request;
typedef struct sim_group *MPI_Group;
typedef int MPI_Datatype;
typedef int MPI_Op;
typedef long MPI_Aint;
typedef int MPI_Info;
typedef int MPI_Errhandler;
typedef struct {
    int MPI_SOURCE, MPI_TAG, MPI_ERROR;
    long bytes;
} MPI_Status;
extern struct sim_comm sim_comm_world, sim_comm_self;
#define MPI_COMM_WORLD (&sim_comm_world)
#define MPI_COMM_SELF (&sim_comm_self)
#define MPI_COMM_NULL ((MPI_Comm)0)
#define MPI_REQUEST_NULL ((MPI_Request)0)
#define MPI_GROUP_NULL ((MPI_Group)0)
#define MPI_STATUS_IGNORE ((MPI_Status *)0)
#define MPI_STATUSES_IGNORE ((MPI_Status *)0)
#define MPI_IN_PLACE ((void *)-1)
#define MPI_BOTTOM ((void *)0)
#define MPI_SUCCESS 0
#define MPI_ERR_OTHER 15
#define MPI_ANY_SOURCE (-1)
#define MPI_ANY_TAG (-1)
#define MPI_PROC_NULL (-2)
#define MPI_UNDEFINED (-32766)
#define MPI_INFO_NULL 0
#define MPI_ERRORS_RETURN 1
#define MPI_ERRORS_ARE_FATAL 2
#define MPI_DATATYPE_NULL 0
#define MPI_CHAR 1
#define MPI_SIGNED_CHAR 2
#define MPI_UNSIGNED_CHAR 3
#define MPI_BYTE 4
#define MPI_SHORT 5
#define MPI_UNSIGNED_SHORT 6
#define MPI_INT 7
#define MPI_UNSIGNED 8
#define MPI_LONG 9
#define MPI_UNSIGNED_LONG 10
#define MPI_LONG_LONG 11
#define MPI_LONG_LONG_INT 11
#define MPI_UNSIGNED_LONG_LONG 12
#define MPI_FLOAT 13
#define MPI_DOUBLE 14
#define MPI_C_COMPLEX 15
#define MPI_C_FLOAT_COMPLEX 15
#define MPI_COMPLEX 15
#define MPI_CXX_FLOAT_COMPLEX 15
#define MPI_C_DOUBLE_COMPLEX 16
#define MPI_DOUBLE_COMPLEX 16
#define MPI_CXX_DOUBLE_COMPLEX 16
#define MPI_C_BOOL 17
#define MPI_DOUBLE_INT 18
#define MPI_2INT 19
#define MPI_INT32_T 7
#define MPI_INT64_T 9
#define MPI_UINT64_T 10
#define MPI_UINT32_T 8
#define MPI_OP_NULL 0
#define MPI_SUM 1
#define MPI_MAX 2
#define MPI_MIN 3
#define MPI_PROD 4
#define MPI_LAND 5
#define MPI_LOR 6
#define MPI_BAND 7
#define MPI_BOR 8
#define MPI_MAXLOC 9
#define MPI_MINLOC 10
#define MPI_THREAD_SINGLE 0
#define MPI_THREAD_FUNNELED 1
#define MPI_THREAD_SERIALIZED 2
#define MPI_THREAD_MULTIPLE 3
#define MPI_MAX_PROCESSOR_NAME 256
#define MPI_COMM_TYPE_SHARED 1
#define MPI_IDENT 0
#define MPI_CONGRUENT 1
#define MPI_SIMILAR 2
#define MPI_UNEQUAL 3

int MPI_Init(int *, char ***);
int MPI_Init_thread(int *, char ***, int, int *);
int MPI_Initialized(int *);
int MPI_Finalized(int *);
int MPI_Finalize(void);
int MPI_Abort(MPI_Comm, int);
double MPI_Wtime(void);
double MPI_Wtick(void);
int MPI_Comm_rank(MPI_Comm, int *);
int MPI_Comm_size(MPI_Comm, int *);
int MPI_Comm_split(MPI_Comm, int color, int key, MPI_Comm *);
int MPI_Comm_dup(MPI_Comm, MPI_Comm *);
int MPI_Comm_free(MPI_Comm *);
int MPI_Type_size(MPI_Datatype, int *);
int MPI_Get_count(const MPI_Status *, MPI_Datatype, int *);
int MPI_Barrier(MPI_Comm);
int MPI_Bcast(void *, int, MPI_Datatype, int root, MPI_Comm);
int MPI_Reduce(const void *, void *, int, MPI_Datatype, MPI_Op, int root, MPI_Comm);
int MPI_Allreduce(const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Scan(const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Exscan(const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Reduce_scatter(const void *, void *, const int *, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Reduce_scatter_block(const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Gather(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, int root, MPI_Comm);
int MPI_Gatherv(const void *, int, MPI_Datatype, void *, const int *, const int *, MPI_Datatype, int root, MPI_Comm);
int MPI_Scatter(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, int root, MPI_Comm);
int MPI_Scatterv(const void *, const int *, const int *, MPI_Datatype, void *, int, MPI_Datatype, int root, MPI_Comm);
int MPI_Allgather(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, MPI_Comm);
int MPI_Allgatherv(const void *, int, MPI_Datatype, void *, const int *, const int *, MPI_Datatype, MPI_Comm);
int MPI_Alltoall(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, MPI_Comm);
int MPI_Alltoallv(const void *, const int *, const int *, MPI_Datatype, void *, const int *, const int *, MPI_Datatype, MPI_Comm);
int MPI_Send(const void *, int, MPI_Datatype, int dest, int tag, MPI_Comm);
int MPI_Ssend(const void *, int, MPI_Datatype, int dest, int tag, MPI_Comm);
int MPI_Recv(void *, int, MPI_Datatype, int src, int tag, MPI_Comm, MPI_Status *);
int MPI_Sendrecv(const void *, int, MPI_Datatype, int, int, void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status *);
int MPI_Isend(const void *, int, MPI_Datatype, int dest, int tag, MPI_Comm, MPI_Request *);
int MPI_Irecv(void *, int, MPI_Datatype, int src, int tag, MPI_Comm, MPI_Request *);
int MPI_Wait(MPI_Request *, MPI_Status *);
int MPI_Waitall(int, MPI_Request *, MPI_Status *);
int MPI_Waitany(int, MPI_Request *, int *, MPI_Status *);
int MPI_Test(MPI_Request *, int *, MPI_Status *);
int MPI_Issend(const void *b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c, MPI_Request *rq);
int MPI_Testall(int n, MPI_Request *r, int *flag, MPI_Status *st);
int MPI_Waitsome(int n, MPI_Request *r, int *out, int *idx, MPI_Status *st);
int MPI_Iprobe(int src, int tag, MPI_Comm c, int *flag, MPI_Status *st);
int MPI_Probe(int src, int tag, MPI_Comm c, MPI_Status *st);
int MPI_Sendrecv_replace(void *b, int n, MPI_Datatype t, int dst, int stag, int src, int rtag, MPI_Comm c, MPI_Status *st);
int MPI_Comm_compare(MPI_Comm a, MPI_Comm b, int *r);
int MPI_Ibarrier(MPI_Comm c, MPI_Request *rq);
int MPI_Ibcast(void *b, int n, MPI_Datatype t, int root, MPI_Comm c, MPI_Request *rq);
int MPI_Ireduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c, MPI_Request *rq);
int MPI_Iallreduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c, MPI_Request *rq);
int MPI_Iscan(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c, MPI_Request *rq);
int MPI_Iexscan(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c, MPI_Request *rq);
int MPI_Ireduce_scatter_block(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c, MPI_Request *rq);
int MPI_Ireduce_scatter(const void *s, void *r, const int *rc, MPI_Datatype t, MPI_Op op, MPI_Comm c, MPI_Request *rq);
int MPI_Igather(const void *s, int sn, MPI_Datatype st, void *r, int rn, MPI_Datatype rt, int root, MPI_Comm c, MPI_Request *rq);
int MPI_Igatherv(const void *s, int sn, MPI_Datatype st, void *r, const int *rc, const int *rd, MPI_Datatype rt, int root, MPI_Comm c, MPI_Request *rq);
int MPI_Iscatter(const void *s, int sn, MPI_Datatype st, void *r, int rn, MPI_Datatype rt, int root, MPI_Comm c, MPI_Request *rq);
int MPI_Iscatterv(const void *s, const int *sc, const int *sd, MPI_Datatype st, void *r, int rn, MPI_Datatype rt, int root, MPI_Comm c, MPI_Request *rq);
int MPI_Iallgather(const void *s, int sn, MPI_Datatype st, void *r, int rn, MPI_Datatype rt, MPI_Comm c, MPI_Request *rq);
int MPI_Iallgatherv(const void *s, int sn, MPI_Datatype st, void *r, const int *rc, const int *rd, MPI_Datatype rt, MPI_Comm c, MPI_Request *rq);
int MPI_Ialltoall(const void *s, int sn, MPI_Datatype st, void *r, int rn, MPI_Datatype rt, MPI_Comm c, MPI_Request *rq);
int MPI_Ialltoallv(const void *s, const int *sc, const int *sd, MPI_Datatype st, void *r, const int *rc, const int *rd, MPI_Datatype rt, MPI_Comm c, MPI_Request *rq);
#ifdef __cplusplus
}
#endif
