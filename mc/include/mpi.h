// Substitute MPI header: the subset NESO-Particles uses, implemented by the
// controlled engine (ranks are fibers of one process).
#pragma once
#include <stddef.h>
#include <stdint.h>
#ifdef MC_MPI_PRETEND_OPENMPI
#define OMPI_MAJOR_VERSION 4
#endif
#define MPI_VERSION 3
#ifdef __cplusplus
extern "C" {
#endif
typedef struct mc_comm_s *MPI_Comm;
typedef struct mc_win_s *MPI_Win;
typedef struct mc_req_s *MPI_Request;
typedef int MPI_Datatype;
typedef int MPI_Op;
typedef int MPI_Info;
typedef struct mc_group_s *MPI_Group;
typedef ptrdiff_t MPI_Aint;
typedef long long MPI_Offset;
typedef struct {
  int MPI_SOURCE, MPI_TAG, MPI_ERROR;
  size_t bytes;
} MPI_Status;
#define MPI_COMM_NULL ((MPI_Comm)0)
#define MPI_COMM_WORLD ((MPI_Comm)1)
#define MPI_COMM_SELF ((MPI_Comm)2)
#define MPI_WIN_NULL ((MPI_Win)0)
#define MPI_REQUEST_NULL ((MPI_Request)0)
#define MPI_INFO_NULL 0
#define MPI_SUCCESS 0
#define MPI_ANY_SOURCE (-1)
#define MPI_ANY_TAG (-1)
#define MPI_PROC_NULL (-2)
#define MPI_UNDEFINED (-32766)
#define MPI_IN_PLACE ((void *)1)
#define MPI_BOTTOM ((void *)0)
#define MPI_STATUS_IGNORE ((MPI_Status *)0)
#define MPI_STATUSES_IGNORE ((MPI_Status *)0)
#define MPI_UNWEIGHTED ((int *)2)
#define MPI_WEIGHTS_EMPTY ((int *)3)
#define MPI_LOCK_SHARED 1
#define MPI_LOCK_EXCLUSIVE 2
#define MPI_COMM_TYPE_SHARED 1
#define MPI_THREAD_SINGLE 0
#define MPI_THREAD_FUNNELED 1
#define MPI_THREAD_SERIALIZED 2
#define MPI_THREAD_MULTIPLE 3
#define MPI_GRAPH 1
#define MPI_CART 2
#define MPI_DIST_GRAPH 3
#define MPI_MAX_ERROR_STRING 256
enum {
  MPI_DATATYPE_NULL = 0,
  MPI_CHAR = 1,
  MPI_BYTE,
  MPI_INT,
  MPI_INT64_T,
  MPI_UINT64_T,
  MPI_DOUBLE,
  MPI_FLOAT,
  MPI_LONG,
  MPI_UNSIGNED_LONG,
  MPI_UNSIGNED,
  MPI_INT32_T,
  MPI_UINT32_T,
  MPI_UINT8_T,
  MPI_INT8_T,
  MPI_LONG_LONG,
  MPI_CXX_BOOL
};
enum {
  MPI_OP_NULL = 0,
  MPI_SUM = 1,
  MPI_MIN,
  MPI_MAX,
  MPI_PROD,
  MPI_LOR,
  MPI_LAND,
  MPI_BOR,
  MPI_BAND,
  MPI_REPLACE,
  MPI_NO_OP
};
int MPI_Init(int *, char ***);
int MPI_Init_thread(int *, char ***, int, int *);
int MPI_Initialized(int *);
int MPI_Finalized(int *);
int MPI_Finalize(void);
int MPI_Abort(MPI_Comm, int);
double MPI_Wtime(void);
int MPI_Comm_rank(MPI_Comm, int *);
int MPI_Comm_size(MPI_Comm, int *);
int MPI_Comm_split(MPI_Comm, int, int, MPI_Comm *);
int MPI_Comm_split_type(MPI_Comm, int, int, MPI_Info, MPI_Comm *);
int MPI_Comm_dup(MPI_Comm, MPI_Comm *);
int MPI_Comm_free(MPI_Comm *);
int MPI_Allreduce(const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Iallreduce(const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm,
                   MPI_Request *);
int MPI_Reduce(const void *, void *, int, MPI_Datatype, MPI_Op, int, MPI_Comm);
int MPI_Bcast(void *, int, MPI_Datatype, int, MPI_Comm);
int MPI_Barrier(MPI_Comm);
int MPI_Ibarrier(MPI_Comm, MPI_Request *);
int MPI_Exscan(const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Scan(const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Gather(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, int,
               MPI_Comm);
int MPI_Gatherv(const void *, int, MPI_Datatype, void *, const int *,
                const int *, MPI_Datatype, int, MPI_Comm);
int MPI_Allgather(const void *, int, MPI_Datatype, void *, int, MPI_Datatype,
                  MPI_Comm);
int MPI_Allgatherv(const void *, int, MPI_Datatype, void *, const int *,
                   const int *, MPI_Datatype, MPI_Comm);
int MPI_Alltoall(const void *, int, MPI_Datatype, void *, int, MPI_Datatype,
                 MPI_Comm);
int MPI_Isend(const void *, int, MPI_Datatype, int, int, MPI_Comm,
              MPI_Request *);
int MPI_Irecv(void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *);
int MPI_Send(const void *, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Recv(void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status *);
int MPI_Wait(MPI_Request *, MPI_Status *);
int MPI_Waitall(int, MPI_Request *, MPI_Status *);
int MPI_Test(MPI_Request *, int *, MPI_Status *);
int MPI_Get_count(const MPI_Status *, MPI_Datatype, int *);
int MPI_Type_size(MPI_Datatype, int *);
int MPI_Win_allocate(MPI_Aint, int, MPI_Info, MPI_Comm, void *, MPI_Win *);
int MPI_Win_allocate_shared(MPI_Aint, int, MPI_Info, MPI_Comm, void *,
                            MPI_Win *);
int MPI_Win_shared_query(MPI_Win, int, MPI_Aint *, int *, void *);
int MPI_Win_lock(int, int, int, MPI_Win);
int MPI_Win_unlock(int, MPI_Win);
int MPI_Win_lock_all(int, MPI_Win);
int MPI_Win_unlock_all(MPI_Win);
int MPI_Win_flush(int, MPI_Win);
int MPI_Win_fence(int, MPI_Win);
int MPI_Win_free(MPI_Win *);
int MPI_Get_accumulate(const void *, int, MPI_Datatype, void *, int,
                       MPI_Datatype, int, MPI_Aint, int, MPI_Datatype, MPI_Op,
                       MPI_Win);
int MPI_Fetch_and_op(const void *, void *, MPI_Datatype, int, MPI_Aint, MPI_Op,
                     MPI_Win);
int MPI_Accumulate(const void *, int, MPI_Datatype, int, MPI_Aint, int,
                   MPI_Datatype, MPI_Op, MPI_Win);
int MPI_Dist_graph_create(MPI_Comm, int, const int *, const int *, const int *,
                          const int *, MPI_Info, int, MPI_Comm *);
int MPI_Dist_graph_create_adjacent(MPI_Comm, int, const int *, const int *, int,
                                   const int *, const int *, MPI_Info, int,
                                   MPI_Comm *);
int MPI_Dist_graph_neighbors_count(MPI_Comm, int *, int *, int *);
int MPI_Dist_graph_neighbors(MPI_Comm, int, int *, int *, int, int *, int *);
int MPI_Topo_test(MPI_Comm, int *);
int MPI_Neighbor_alltoall(const void *, int, MPI_Datatype, void *, int,
                          MPI_Datatype, MPI_Comm);
int MPI_Neighbor_alltoallw(const void *, const int *, const MPI_Aint *,
                           const MPI_Datatype *, void *, const int *,
                           const MPI_Aint *, const MPI_Datatype *, MPI_Comm);
int MPI_Cart_create(MPI_Comm, int, const int *, const int *, int, MPI_Comm *);
int MPI_Cart_get(MPI_Comm, int, int *, int *, int *);
int MPI_Cart_rank(MPI_Comm, const int *, int *);
int MPI_Cart_coords(MPI_Comm, int, int, int *);
int MPI_Cart_shift(MPI_Comm, int, int, int *, int *);
int MPI_Dims_create(int, int, int *);
// number of ranks per shared memory node (0: all on one node)
void mc_set_ranks_per_node(int);
#ifdef __cplusplus
}
#endif
