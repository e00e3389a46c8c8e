/* Simulated MPI for deterministic simulation of dccrg.
 *
 * Stands in for the system mpi.h: all ranks of a job live in one process as
 * fibers, and every call below is a point at which the seeded scheduler of
 * simcore.cpp decides who runs next, which message moves and what fails. */
#ifndef SIM_MPI_H
#define SIM_MPI_H
#include <stddef.h>
#include <stdint.h>

#ifdef __cplusplus
extern "C" {
#endif

typedef struct sim_comm_s* MPI_Comm;
typedef struct sim_type_s* MPI_Datatype;
typedef struct sim_request_s* MPI_Request;
typedef struct sim_file_s* MPI_File;
typedef struct sim_op_s* MPI_Op;
typedef struct sim_info_s* MPI_Info;
typedef struct sim_group_s* MPI_Group;
typedef struct sim_errh_s* MPI_Errhandler;
typedef ptrdiff_t MPI_Aint;
typedef long long MPI_Offset;
typedef long long MPI_Count;

typedef struct MPI_Status {
	int MPI_SOURCE, MPI_TAG, MPI_ERROR;
	int sim_cancelled;
	size_t sim_count;
} MPI_Status;

#define MPI_VERSION 3
#define MPI_SUBVERSION 1

extern struct sim_comm_s sim_comm_world, sim_comm_self;
#define MPI_COMM_WORLD (&sim_comm_world)
#define MPI_COMM_SELF (&sim_comm_self)
#define MPI_COMM_NULL ((MPI_Comm) 0)
#define MPI_DATATYPE_NULL ((MPI_Datatype) 0)
#define MPI_REQUEST_NULL ((MPI_Request) 0)
#define MPI_FILE_NULL ((MPI_File) 0)
#define MPI_INFO_NULL ((MPI_Info) 0)
#define MPI_GROUP_NULL ((MPI_Group) 0)
#define MPI_OP_NULL ((MPI_Op) 0)
#define MPI_STATUS_IGNORE ((MPI_Status*) 0)
#define MPI_STATUSES_IGNORE ((MPI_Status*) 0)
#define MPI_IN_PLACE ((void*) 1)
#define MPI_BOTTOM ((void*) 0)
#define MPI_ANY_SOURCE (-1)
#define MPI_ANY_TAG (-1)
#define MPI_PROC_NULL (-2)
#define MPI_ROOT (-3)
#define MPI_UNDEFINED (-32766)
#define MPI_ERRCODES_IGNORE ((int*) 0)
#define MPI_MAX_ERROR_STRING 256
#define MPI_MAX_PROCESSOR_NAME 256
#define MPI_MAX_OBJECT_NAME 64

extern struct sim_errh_s sim_errh_fatal, sim_errh_return;
#define MPI_ERRORS_ARE_FATAL (&sim_errh_fatal)
#define MPI_ERRORS_RETURN (&sim_errh_return)

enum {
	MPI_SUCCESS = 0, MPI_ERR_BUFFER, MPI_ERR_COUNT, MPI_ERR_TYPE, MPI_ERR_TAG,
	MPI_ERR_COMM, MPI_ERR_RANK, MPI_ERR_REQUEST, MPI_ERR_ROOT, MPI_ERR_GROUP,
	MPI_ERR_OP, MPI_ERR_TOPOLOGY, MPI_ERR_DIMS, MPI_ERR_ARG, MPI_ERR_UNKNOWN,
	MPI_ERR_TRUNCATE, MPI_ERR_OTHER, MPI_ERR_INTERN, MPI_ERR_IN_STATUS,
	MPI_ERR_PENDING, MPI_ERR_ACCESS, MPI_ERR_AMODE, MPI_ERR_BAD_FILE,
	MPI_ERR_FILE, MPI_ERR_FILE_EXISTS, MPI_ERR_IO, MPI_ERR_NO_SPACE,
	MPI_ERR_NO_SUCH_FILE, MPI_ERR_QUOTA, MPI_ERR_READ_ONLY, MPI_ERR_NO_MEM,
	MPI_ERR_LASTCODE
};

enum { MPI_TAG_UB = 1, MPI_HOST, MPI_IO, MPI_WTIME_IS_GLOBAL, MPI_KEYVAL_INVALID };
enum { MPI_THREAD_SINGLE, MPI_THREAD_FUNNELED, MPI_THREAD_SERIALIZED, MPI_THREAD_MULTIPLE };
enum { MPI_IDENT, MPI_CONGRUENT, MPI_SIMILAR, MPI_UNEQUAL };

enum {
	MPI_COMBINER_NAMED = 1, MPI_COMBINER_DUP, MPI_COMBINER_CONTIGUOUS,
	MPI_COMBINER_VECTOR, MPI_COMBINER_HVECTOR, MPI_COMBINER_INDEXED,
	MPI_COMBINER_HINDEXED, MPI_COMBINER_INDEXED_BLOCK,
	MPI_COMBINER_HINDEXED_BLOCK, MPI_COMBINER_STRUCT, MPI_COMBINER_SUBARRAY,
	MPI_COMBINER_DARRAY, MPI_COMBINER_RESIZED
};

enum {
	MPI_MODE_CREATE = 1, MPI_MODE_RDONLY = 2, MPI_MODE_WRONLY = 4,
	MPI_MODE_RDWR = 8, MPI_MODE_DELETE_ON_CLOSE = 16, MPI_MODE_UNIQUE_OPEN = 32,
	MPI_MODE_EXCL = 64, MPI_MODE_APPEND = 128, MPI_MODE_SEQUENTIAL = 256
};
enum { MPI_SEEK_SET = 600, MPI_SEEK_CUR, MPI_SEEK_END };
enum { MPI_ORDER_C = 56, MPI_ORDER_FORTRAN };

#define SIM_TYPE(name) extern struct sim_type_s sim_t_##name;
SIM_TYPE(byte) SIM_TYPE(packed) SIM_TYPE(char) SIM_TYPE(schar) SIM_TYPE(uchar)
SIM_TYPE(short) SIM_TYPE(ushort) SIM_TYPE(int) SIM_TYPE(unsigned)
SIM_TYPE(long) SIM_TYPE(ulong) SIM_TYPE(llong) SIM_TYPE(ullong)
SIM_TYPE(float) SIM_TYPE(double) SIM_TYPE(ldouble) SIM_TYPE(wchar)
SIM_TYPE(cbool) SIM_TYPE(i8) SIM_TYPE(i16) SIM_TYPE(i32) SIM_TYPE(i64)
SIM_TYPE(u8) SIM_TYPE(u16) SIM_TYPE(u32) SIM_TYPE(u64) SIM_TYPE(aint)
SIM_TYPE(offset) SIM_TYPE(count) SIM_TYPE(cxxbool) SIM_TYPE(cfloat)
SIM_TYPE(cdouble) SIM_TYPE(cldouble) SIM_TYPE(doubleint) SIM_TYPE(intint)
#undef SIM_TYPE
#define MPI_BYTE (&sim_t_byte)
#define MPI_PACKED (&sim_t_packed)
#define MPI_CHAR (&sim_t_char)
#define MPI_CHARACTER (&sim_t_char)
#define MPI_SIGNED_CHAR (&sim_t_schar)
#define MPI_UNSIGNED_CHAR (&sim_t_uchar)
#define MPI_SHORT (&sim_t_short)
#define MPI_UNSIGNED_SHORT (&sim_t_ushort)
#define MPI_INT (&sim_t_int)
#define MPI_UNSIGNED (&sim_t_unsigned)
#define MPI_LONG (&sim_t_long)
#define MPI_UNSIGNED_LONG (&sim_t_ulong)
#define MPI_LONG_LONG (&sim_t_llong)
#define MPI_LONG_LONG_INT (&sim_t_llong)
#define MPI_UNSIGNED_LONG_LONG (&sim_t_ullong)
#define MPI_FLOAT (&sim_t_float)
#define MPI_DOUBLE (&sim_t_double)
#define MPI_LONG_DOUBLE (&sim_t_ldouble)
#define MPI_WCHAR (&sim_t_wchar)
#define MPI_C_BOOL (&sim_t_cbool)
#define MPI_INT8_T (&sim_t_i8)
#define MPI_INT16_T (&sim_t_i16)
#define MPI_INT32_T (&sim_t_i32)
#define MPI_INT64_T (&sim_t_i64)
#define MPI_UINT8_T (&sim_t_u8)
#define MPI_UINT16_T (&sim_t_u16)
#define MPI_UINT32_T (&sim_t_u32)
#define MPI_UINT64_T (&sim_t_u64)
#define MPI_AINT (&sim_t_aint)
#define MPI_OFFSET (&sim_t_offset)
#define MPI_COUNT (&sim_t_count)
#define MPI_CXX_BOOL (&sim_t_cxxbool)
#define MPI_CXX_FLOAT_COMPLEX (&sim_t_cfloat)
#define MPI_CXX_DOUBLE_COMPLEX (&sim_t_cdouble)
#define MPI_CXX_LONG_DOUBLE_COMPLEX (&sim_t_cldouble)
#define MPI_C_COMPLEX (&sim_t_cfloat)
#define MPI_C_FLOAT_COMPLEX (&sim_t_cfloat)
#define MPI_C_DOUBLE_COMPLEX (&sim_t_cdouble)
#define MPI_C_LONG_DOUBLE_COMPLEX (&sim_t_cldouble)
#define MPI_COMPLEX (&sim_t_cfloat)
#define MPI_DOUBLE_COMPLEX (&sim_t_cdouble)
#define MPI_DOUBLE_INT (&sim_t_doubleint)
#define MPI_2INT (&sim_t_intint)

#define SIM_OP(name) extern struct sim_op_s sim_op_##name;
SIM_OP(sum) SIM_OP(max) SIM_OP(min) SIM_OP(prod) SIM_OP(land) SIM_OP(lor)
SIM_OP(band) SIM_OP(bor) SIM_OP(bxor) SIM_OP(lxor)
#undef SIM_OP
#define MPI_SUM (&sim_op_sum)
#define MPI_MAX (&sim_op_max)
#define MPI_MIN (&sim_op_min)
#define MPI_PROD (&sim_op_prod)
#define MPI_LAND (&sim_op_land)
#define MPI_LOR (&sim_op_lor)
#define MPI_BAND (&sim_op_band)
#define MPI_BOR (&sim_op_bor)
#define MPI_BXOR (&sim_op_bxor)
#define MPI_LXOR (&sim_op_lxor)

int MPI_Init(int*, char***);
int MPI_Init_thread(int*, char***, int, int*);
int MPI_Initialized(int*);
int MPI_Finalized(int*);
int MPI_Finalize(void);
int MPI_Abort(MPI_Comm, int);
double MPI_Wtime(void);
double MPI_Wtick(void);
int MPI_Get_processor_name(char*, int*);
int MPI_Error_string(int, char*, int*);
int MPI_Error_class(int, int*);

int MPI_Comm_size(MPI_Comm, int*);
int MPI_Comm_rank(MPI_Comm, int*);
int MPI_Comm_dup(MPI_Comm, MPI_Comm*);
int MPI_Comm_free(MPI_Comm*);
int MPI_Comm_split(MPI_Comm, int, int, MPI_Comm*);
int MPI_Comm_compare(MPI_Comm, MPI_Comm, int*);
int MPI_Comm_get_attr(MPI_Comm, int, void*, int*);
int MPI_Attr_get(MPI_Comm, int, void*, int*);
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler);
int MPI_Comm_get_errhandler(MPI_Comm, MPI_Errhandler*);
int MPI_Errhandler_free(MPI_Errhandler*);
int MPI_Comm_set_name(MPI_Comm, const char*);

int MPI_Isend(const void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Issend(const void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Ibsend(const void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Irecv(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Send(const void*, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Ssend(const void*, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Recv(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status*);
int MPI_Sendrecv(const void*, int, MPI_Datatype, int, int, void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status*);
int MPI_Wait(MPI_Request*, MPI_Status*);
int MPI_Waitall(int, MPI_Request*, MPI_Status*);
int MPI_Waitany(int, MPI_Request*, int*, MPI_Status*);
int MPI_Waitsome(int, MPI_Request*, int*, int*, MPI_Status*);
int MPI_Test(MPI_Request*, int*, MPI_Status*);
int MPI_Testall(int, MPI_Request*, int*, MPI_Status*);
int MPI_Testany(int, MPI_Request*, int*, int*, MPI_Status*);
int MPI_Testsome(int, MPI_Request*, int*, int*, MPI_Status*);
int MPI_Probe(int, int, MPI_Comm, MPI_Status*);
int MPI_Iprobe(int, int, MPI_Comm, int*, MPI_Status*);
int MPI_Get_count(const MPI_Status*, MPI_Datatype, int*);
int MPI_Get_elements(const MPI_Status*, MPI_Datatype, int*);
int MPI_Request_free(MPI_Request*);

int MPI_Barrier(MPI_Comm);
int MPI_Bcast(void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Allreduce(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Reduce(const void*, void*, int, MPI_Datatype, MPI_Op, int, MPI_Comm);
int MPI_Scan(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Exscan(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Allgather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, MPI_Comm);
int MPI_Allgatherv(const void*, int, MPI_Datatype, void*, const int*, const int*, MPI_Datatype, MPI_Comm);
int MPI_Gather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Gatherv(const void*, int, MPI_Datatype, void*, const int*, const int*, MPI_Datatype, int, MPI_Comm);
int MPI_Scatter(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Alltoall(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, MPI_Comm);
int MPI_Alltoallv(const void*, const int*, const int*, MPI_Datatype, void*, const int*, const int*, MPI_Datatype, MPI_Comm);

int MPI_Type_contiguous(int, MPI_Datatype, MPI_Datatype*);
int MPI_Type_vector(int, int, int, MPI_Datatype, MPI_Datatype*);
int MPI_Type_create_hvector(int, int, MPI_Aint, MPI_Datatype, MPI_Datatype*);
int MPI_Type_indexed(int, const int*, const int*, MPI_Datatype, MPI_Datatype*);
int MPI_Type_create_hindexed(int, const int*, const MPI_Aint*, MPI_Datatype, MPI_Datatype*);
int MPI_Type_create_indexed_block(int, int, const int*, MPI_Datatype, MPI_Datatype*);
int MPI_Type_create_hindexed_block(int, int, const MPI_Aint*, MPI_Datatype, MPI_Datatype*);
int MPI_Type_create_struct(int, const int*, const MPI_Aint*, const MPI_Datatype*, MPI_Datatype*);
int MPI_Type_create_resized(MPI_Datatype, MPI_Aint, MPI_Aint, MPI_Datatype*);
int MPI_Type_dup(MPI_Datatype, MPI_Datatype*);
int MPI_Type_commit(MPI_Datatype*);
int MPI_Type_free(MPI_Datatype*);
int MPI_Type_size(MPI_Datatype, int*);
int MPI_Type_size_x(MPI_Datatype, MPI_Count*);
int MPI_Type_get_extent(MPI_Datatype, MPI_Aint*, MPI_Aint*);
int MPI_Type_get_true_extent(MPI_Datatype, MPI_Aint*, MPI_Aint*);
int MPI_Type_get_envelope(MPI_Datatype, int*, int*, int*, int*);
int MPI_Get_address(const void*, MPI_Aint*);
int MPI_Pack(const void*, int, MPI_Datatype, void*, int, int*, MPI_Comm);
int MPI_Unpack(const void*, int, int*, void*, int, MPI_Datatype, MPI_Comm);
int MPI_Pack_size(int, MPI_Datatype, MPI_Comm, int*);

int MPI_File_open(MPI_Comm, const char*, int, MPI_Info, MPI_File*);
int MPI_File_close(MPI_File*);
int MPI_File_delete(const char*, MPI_Info);
int MPI_File_set_view(MPI_File, MPI_Offset, MPI_Datatype, MPI_Datatype, const char*, MPI_Info);
int MPI_File_set_size(MPI_File, MPI_Offset);
int MPI_File_get_size(MPI_File, MPI_Offset*);
int MPI_File_preallocate(MPI_File, MPI_Offset);
int MPI_File_sync(MPI_File);
int MPI_File_set_atomicity(MPI_File, int);
int MPI_File_set_errhandler(MPI_File, MPI_Errhandler);
int MPI_File_seek(MPI_File, MPI_Offset, int);
int MPI_File_get_position(MPI_File, MPI_Offset*);
int MPI_File_read(MPI_File, void*, int, MPI_Datatype, MPI_Status*);
int MPI_File_read_all(MPI_File, void*, int, MPI_Datatype, MPI_Status*);
int MPI_File_read_at(MPI_File, MPI_Offset, void*, int, MPI_Datatype, MPI_Status*);
int MPI_File_read_at_all(MPI_File, MPI_Offset, void*, int, MPI_Datatype, MPI_Status*);
int MPI_File_write(MPI_File, const void*, int, MPI_Datatype, MPI_Status*);
int MPI_File_write_all(MPI_File, const void*, int, MPI_Datatype, MPI_Status*);
int MPI_File_write_at(MPI_File, MPI_Offset, const void*, int, MPI_Datatype, MPI_Status*);
int MPI_File_write_at_all(MPI_File, MPI_Offset, const void*, int, MPI_Datatype, MPI_Status*);
int MPI_Info_create(MPI_Info*);
int MPI_Info_set(MPI_Info, const char*, const char*);
int MPI_Info_free(MPI_Info*);

#ifdef __cplusplus
}
#endif
#endif
