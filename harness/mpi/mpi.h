/* MPI interface of the controlled MPI implementation in mpi_explore.cc */
#ifndef MC_MPI_H
#define MC_MPI_H
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef struct mc_comm *MPI_Comm;
typedef struct mc_type *MPI_Datatype;
typedef struct mc_req *MPI_Request;
typedef struct mc_op *MPI_Op;
typedef struct mc_group *MPI_Group;
typedef struct mc_info *MPI_Info;
typedef struct mc_eh *MPI_Errhandler;
typedef intptr_t MPI_Aint;
typedef int MPI_Fint;
typedef long long MPI_Count;
typedef struct { int MPI_SOURCE, MPI_TAG, MPI_ERROR; size_t mc_bytes; int mc_cancelled; } MPI_Status;

extern struct mc_comm mc_world, mc_self;
#define MPI_COMM_WORLD (&mc_world)
#define MPI_COMM_SELF (&mc_self)
#define MPI_COMM_NULL ((MPI_Comm)0)
#define MPI_REQUEST_NULL ((MPI_Request)0)
#define MPI_DATATYPE_NULL ((MPI_Datatype)0)
#define MPI_OP_NULL ((MPI_Op)0)
#define MPI_GROUP_NULL ((MPI_Group)0)
#define MPI_INFO_NULL ((MPI_Info)0)
#define MPI_STATUS_IGNORE ((MPI_Status *)0)
#define MPI_STATUSES_IGNORE ((MPI_Status *)0)
#define MPI_IN_PLACE ((void *)-1)
#define MPI_BOTTOM ((void *)0)
#define MPI_UNWEIGHTED ((int *)2)
enum { MPI_SUCCESS = 0, MPI_ERR_BUFFER = 1, MPI_ERR_COUNT = 2, MPI_ERR_TYPE = 3, MPI_ERR_TAG = 4, MPI_ERR_COMM = 5, MPI_ERR_RANK = 6, MPI_ERR_REQUEST = 7,
       MPI_ERR_ROOT = 8, MPI_ERR_GROUP = 9, MPI_ERR_OP = 10, MPI_ERR_TOPOLOGY = 11, MPI_ERR_ARG = 13, MPI_ERR_UNKNOWN = 14, MPI_ERR_TRUNCATE = 15, MPI_ERR_OTHER = 16, MPI_ERR_IN_STATUS = 18 };
enum { MPI_ANY_SOURCE = -1, MPI_PROC_NULL = -2, MPI_ROOT = -3, MPI_ANY_TAG = -1, MPI_UNDEFINED = -32766, MPI_TAG_UB_ = 32767,
       MPI_MAX_ERROR_STRING = 256, MPI_MAX_PROCESSOR_NAME = 256, MPI_IDENT = 0, MPI_CONGRUENT = 1, MPI_SIMILAR = 2, MPI_UNEQUAL = 3,
       MPI_ORDER_C = 0, MPI_ORDER_FORTRAN = 1, MPI_THREAD_SINGLE = 0, MPI_THREAD_FUNNELED = 1, MPI_THREAD_SERIALIZED = 2, MPI_THREAD_MULTIPLE = 3, MPI_CART = 1, MPI_GRAPH = 2 };
#define MC_TYPES(X) X(CHAR) X(SIGNED_CHAR) X(UNSIGNED_CHAR) X(SHORT) X(UNSIGNED_SHORT) X(INT) X(UNSIGNED) X(LONG) X(UNSIGNED_LONG) X(LONG_LONG) X(UNSIGNED_LONG_LONG) X(FLOAT) X(DOUBLE) \
  X(C_FLOAT_COMPLEX) X(C_DOUBLE_COMPLEX) X(BYTE) X(PACKED) X(C_BOOL) X(INT8_T) X(INT16_T) X(INT32_T) X(INT64_T) X(UINT8_T) X(UINT16_T) X(UINT32_T) X(UINT64_T) X(AINT) X(2INT) X(DOUBLE_INT) X(FLOAT_INT)
enum {
#define X(n) MC_T_##n,
  MC_TYPES(X)
#undef X
  MC_NTYPES };
#define X(n) extern struct mc_type mc_t_##n;
MC_TYPES(X)
#undef X
#define MPI_CHAR (&mc_t_CHAR)
#define MPI_SIGNED_CHAR (&mc_t_SIGNED_CHAR)
#define MPI_UNSIGNED_CHAR (&mc_t_UNSIGNED_CHAR)
#define MPI_SHORT (&mc_t_SHORT)
#define MPI_UNSIGNED_SHORT (&mc_t_UNSIGNED_SHORT)
#define MPI_INT (&mc_t_INT)
#define MPI_UNSIGNED (&mc_t_UNSIGNED)
#define MPI_LONG (&mc_t_LONG)
#define MPI_UNSIGNED_LONG (&mc_t_UNSIGNED_LONG)
#define MPI_LONG_LONG (&mc_t_LONG_LONG)
#define MPI_LONG_LONG_INT (&mc_t_LONG_LONG)
#define MPI_UNSIGNED_LONG_LONG (&mc_t_UNSIGNED_LONG_LONG)
#define MPI_FLOAT (&mc_t_FLOAT)
#define MPI_DOUBLE (&mc_t_DOUBLE)
#define MPI_C_COMPLEX (&mc_t_C_FLOAT_COMPLEX)
#define MPI_C_FLOAT_COMPLEX (&mc_t_C_FLOAT_COMPLEX)
#define MPI_C_DOUBLE_COMPLEX (&mc_t_C_DOUBLE_COMPLEX)
#define MPI_COMPLEX (&mc_t_C_FLOAT_COMPLEX)
#define MPI_DOUBLE_COMPLEX (&mc_t_C_DOUBLE_COMPLEX)
#define MPI_BYTE (&mc_t_BYTE)
#define MPI_PACKED (&mc_t_PACKED)
#define MPI_C_BOOL (&mc_t_C_BOOL)
#define MPI_INT8_T (&mc_t_INT8_T)
#define MPI_INT16_T (&mc_t_INT16_T)
#define MPI_INT32_T (&mc_t_INT32_T)
#define MPI_INT64_T (&mc_t_INT64_T)
#define MPI_UINT8_T (&mc_t_UINT8_T)
#define MPI_UINT16_T (&mc_t_UINT16_T)
#define MPI_UINT32_T (&mc_t_UINT32_T)
#define MPI_UINT64_T (&mc_t_UINT64_T)
#define MPI_AINT (&mc_t_AINT)
#define MPI_2INT (&mc_t_2INT)
#define MPI_DOUBLE_INT (&mc_t_DOUBLE_INT)
#define MPI_FLOAT_INT (&mc_t_FLOAT_INT)
enum { MC_SUM = 1, MC_MIN, MC_MAX, MC_PROD, MC_LAND, MC_LOR, MC_BAND, MC_BOR, MC_BXOR, MC_MINLOC, MC_MAXLOC };
#define MPI_SUM ((MPI_Op)MC_SUM)
#define MPI_MIN ((MPI_Op)MC_MIN)
#define MPI_MAX ((MPI_Op)MC_MAX)
#define MPI_PROD ((MPI_Op)MC_PROD)
#define MPI_LAND ((MPI_Op)MC_LAND)
#define MPI_LOR ((MPI_Op)MC_LOR)
#define MPI_BAND ((MPI_Op)MC_BAND)
#define MPI_BOR ((MPI_Op)MC_BOR)
#define MPI_BXOR ((MPI_Op)MC_BXOR)
#define MPI_MINLOC ((MPI_Op)MC_MINLOC)
#define MPI_MAXLOC ((MPI_Op)MC_MAXLOC)
#define MPI_ERRORS_ARE_FATAL ((MPI_Errhandler)1)
#define MPI_ERRORS_RETURN ((MPI_Errhandler)2)
#define MC_CV const void *
int MPI_Init(int *, char ***); int MPI_Init_thread(int *, char ***, int, int *); int MPI_Initialized(int *); int MPI_Finalized(int *); int MPI_Finalize(void); int MPI_Abort(MPI_Comm, int);
double MPI_Wtime(void); double MPI_Wtick(void); int MPI_Get_processor_name(char *, int *); int MPI_Error_string(int, char *, int *); int MPI_Error_class(int, int *); int MPI_Get_version(int *, int *);
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler);
int MPI_Comm_rank(MPI_Comm, int *); int MPI_Comm_size(MPI_Comm, int *); int MPI_Comm_dup(MPI_Comm, MPI_Comm *); int MPI_Comm_split(MPI_Comm, int, int, MPI_Comm *); int MPI_Comm_free(MPI_Comm *);
int MPI_Comm_compare(MPI_Comm, MPI_Comm, int *); MPI_Comm MPI_Comm_f2c(MPI_Fint); MPI_Fint MPI_Comm_c2f(MPI_Comm); int MPI_Topo_test(MPI_Comm, int *);
int MPI_Comm_set_name(MPI_Comm, const char *); int MPI_Comm_get_name(MPI_Comm, char *, int *);
int MPI_Dims_create(int, int, int *);
int MPI_Cart_create(MPI_Comm, int, const int *, const int *, int, MPI_Comm *); int MPI_Cart_coords(MPI_Comm, int, int, int *); int MPI_Cart_rank(MPI_Comm, const int *, int *);
int MPI_Cart_shift(MPI_Comm, int, int, int *, int *); int MPI_Cart_get(MPI_Comm, int, int *, int *, int *); int MPI_Cart_sub(MPI_Comm, const int *, MPI_Comm *); int MPI_Cartdim_get(MPI_Comm, int *);
int MPI_Type_contiguous(int, MPI_Datatype, MPI_Datatype *); int MPI_Type_vector(int, int, int, MPI_Datatype, MPI_Datatype *); int MPI_Type_create_hvector(int, int, MPI_Aint, MPI_Datatype, MPI_Datatype *);
int MPI_Type_indexed(int, const int *, const int *, MPI_Datatype, MPI_Datatype *); int MPI_Type_create_hindexed(int, const int *, const MPI_Aint *, MPI_Datatype, MPI_Datatype *);
int MPI_Type_create_struct(int, const int *, const MPI_Aint *, const MPI_Datatype *, MPI_Datatype *); int MPI_Type_create_resized(MPI_Datatype, MPI_Aint, MPI_Aint, MPI_Datatype *);
int MPI_Type_create_subarray(int, const int *, const int *, const int *, int, MPI_Datatype, MPI_Datatype *);
int MPI_Type_commit(MPI_Datatype *); int MPI_Type_free(MPI_Datatype *); int MPI_Type_dup(MPI_Datatype, MPI_Datatype *); int MPI_Type_size(MPI_Datatype, int *); int MPI_Type_get_extent(MPI_Datatype, MPI_Aint *, MPI_Aint *);
int MPI_Get_address(MC_CV, MPI_Aint *); int MPI_Get_count(const MPI_Status *, MPI_Datatype, int *); int MPI_Get_elements(const MPI_Status *, MPI_Datatype, int *);
MPI_Aint MPI_Aint_add(MPI_Aint, MPI_Aint); MPI_Aint MPI_Aint_diff(MPI_Aint, MPI_Aint);
int MPI_Send(MC_CV, int, MPI_Datatype, int, int, MPI_Comm); int MPI_Ssend(MC_CV, int, MPI_Datatype, int, int, MPI_Comm); int MPI_Bsend(MC_CV, int, MPI_Datatype, int, int, MPI_Comm); int MPI_Rsend(MC_CV, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Isend(MC_CV, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *); int MPI_Issend(MC_CV, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *);
int MPI_Recv(void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status *); int MPI_Irecv(void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *);
int MPI_Sendrecv(MC_CV, int, MPI_Datatype, int, int, void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status *);
int MPI_Sendrecv_replace(void *, int, MPI_Datatype, int, int, int, int, MPI_Comm, MPI_Status *);
int MPI_Wait(MPI_Request *, MPI_Status *); int MPI_Waitall(int, MPI_Request *, MPI_Status *); int MPI_Waitany(int, MPI_Request *, int *, MPI_Status *); int MPI_Waitsome(int, MPI_Request *, int *, int *, MPI_Status *);
int MPI_Test(MPI_Request *, int *, MPI_Status *); int MPI_Testall(int, MPI_Request *, int *, MPI_Status *); int MPI_Testany(int, MPI_Request *, int *, int *, MPI_Status *); int MPI_Request_free(MPI_Request *); int MPI_Cancel(MPI_Request *);
int MPI_Probe(int, int, MPI_Comm, MPI_Status *); int MPI_Iprobe(int, int, MPI_Comm, int *, MPI_Status *);
int MPI_Barrier(MPI_Comm); int MPI_Bcast(void *, int, MPI_Datatype, int, MPI_Comm);
int MPI_Reduce(MC_CV, void *, int, MPI_Datatype, MPI_Op, int, MPI_Comm); int MPI_Allreduce(MC_CV, void *, int, MPI_Datatype, MPI_Op, MPI_Comm); int MPI_Scan(MC_CV, void *, int, MPI_Datatype, MPI_Op, MPI_Comm); int MPI_Exscan(MC_CV, void *, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Gather(MC_CV, int, MPI_Datatype, void *, int, MPI_Datatype, int, MPI_Comm); int MPI_Gatherv(MC_CV, int, MPI_Datatype, void *, const int *, const int *, MPI_Datatype, int, MPI_Comm);
int MPI_Allgather(MC_CV, int, MPI_Datatype, void *, int, MPI_Datatype, MPI_Comm); int MPI_Allgatherv(MC_CV, int, MPI_Datatype, void *, const int *, const int *, MPI_Datatype, MPI_Comm);
int MPI_Scatter(MC_CV, int, MPI_Datatype, void *, int, MPI_Datatype, int, MPI_Comm); int MPI_Scatterv(MC_CV, const int *, const int *, MPI_Datatype, void *, int, MPI_Datatype, int, MPI_Comm);
int MPI_Alltoall(MC_CV, int, MPI_Datatype, void *, int, MPI_Datatype, MPI_Comm); int MPI_Alltoallv(MC_CV, const int *, const int *, MPI_Datatype, void *, const int *, const int *, MPI_Datatype, MPI_Comm);
#ifdef __cplusplus
}
#endif
#endif
