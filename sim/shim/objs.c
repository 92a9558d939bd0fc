// Predefined Open MPI objects (data symbols only; mpi.h is not included on purpose).
#include "../abi.h"
#define T(sym, kind, id, size) struct SimObj sym = {SIMOBJ_MAGIC, kind, id, size, id, 1, 0, 1, 0, {0}};
#define COMM(sym, id) T(sym, SO_COMM, id, 0)
COMM(ompi_mpi_comm_world, 1) COMM(ompi_mpi_comm_self, 2) COMM(ompi_mpi_comm_null, 0)
#define DT(sym, id, size) T(sym, SO_TYPE, id, size)
DT(ompi_mpi_datatype_null, ST_NULL, 0) DT(ompi_mpi_byte, ST_BYTE, 1) DT(ompi_mpi_char, ST_CHAR, 1)
DT(ompi_mpi_signed_char, ST_SCHAR, 1) DT(ompi_mpi_unsigned_char, ST_UCHAR, 1) DT(ompi_mpi_short, ST_SHORT, 2)
DT(ompi_mpi_unsigned_short, ST_USHORT, 2) DT(ompi_mpi_int, ST_INT, 4) DT(ompi_mpi_unsigned, ST_UINT, 4)
DT(ompi_mpi_long, ST_LONG, 8) DT(ompi_mpi_unsigned_long, ST_ULONG, 8) DT(ompi_mpi_long_long_int, ST_LLONG, 8)
DT(ompi_mpi_unsigned_long_long, ST_ULLONG, 8) DT(ompi_mpi_float, ST_FLOAT, 4) DT(ompi_mpi_double, ST_DOUBLE, 8)
DT(ompi_mpi_long_double, ST_LDOUBLE, 16) DT(ompi_mpi_c_bool, ST_CBOOL, 1) DT(ompi_mpi_cxx_bool, ST_CXXBOOL, 1)
DT(ompi_mpi_wchar, ST_WCHAR, 4) DT(ompi_mpi_2int, ST_2INT, 8) DT(ompi_mpi_double_int, ST_DOUBLE_INT, 16)
DT(ompi_mpi_float_int, ST_FLOAT_INT, 8) DT(ompi_mpi_long_int, ST_LONG_INT, 16)
DT(ompi_mpi_c_float_complex, ST_CPLX_F, 8) DT(ompi_mpi_c_double_complex, ST_CPLX_D, 16)
DT(ompi_mpi_c_complex, ST_CPLX_F, 8) DT(ompi_mpi_packed, ST_PACKED, 1) DT(ompi_mpi_int8_t, ST_INT8, 1)
DT(ompi_mpi_int16_t, ST_INT16, 2) DT(ompi_mpi_int32_t, ST_INT32, 4) DT(ompi_mpi_int64_t, ST_INT64, 8)
DT(ompi_mpi_uint8_t, ST_UINT8, 1) DT(ompi_mpi_uint16_t, ST_UINT16, 2) DT(ompi_mpi_uint32_t, ST_UINT32, 4)
DT(ompi_mpi_uint64_t, ST_UINT64, 8) DT(ompi_mpi_aint, ST_AINT, 8) DT(ompi_mpi_cxx_cplex, ST_CPLX_F, 8)
DT(ompi_mpi_cxx_dblcplex, ST_CPLX_D, 16) DT(ompi_mpi_cxx_ldblcplex, ST_CPLX_D, 32) DT(ompi_mpi_logical, ST_INT, 4)
DT(ompi_mpi_character, ST_CHAR, 1) DT(ompi_mpi_integer, ST_INT, 4) DT(ompi_mpi_real, ST_FLOAT, 4)
DT(ompi_mpi_dblprec, ST_DOUBLE, 8) DT(ompi_mpi_cplex, ST_CPLX_F, 8) DT(ompi_mpi_dblcplex, ST_CPLX_D, 16)
DT(ompi_mpi_ldblcplex, ST_CPLX_D, 32) DT(ompi_mpi_2integer, ST_2INT, 8) DT(ompi_mpi_2real, ST_2INT, 8)
DT(ompi_mpi_2dblprec, ST_2INT, 16) DT(ompi_mpi_short_int, ST_2INT, 8) DT(ompi_mpi_longdbl_int, ST_2INT, 32)
DT(ompi_mpi_lb, ST_NULL, 0) DT(ompi_mpi_ub, ST_NULL, 0) DT(ompi_mpi_integer1, ST_INT8, 1) DT(ompi_mpi_integer2, ST_INT16, 2)
DT(ompi_mpi_integer4, ST_INT32, 4) DT(ompi_mpi_real4, ST_FLOAT, 4) DT(ompi_mpi_real8, ST_DOUBLE, 8) DT(ompi_mpi_real16, ST_NULL, 16)
#define OP(sym, id) T(sym, SO_OP, id, 0)
OP(ompi_mpi_op_null, SP_NULL) OP(ompi_mpi_op_sum, SP_SUM) OP(ompi_mpi_op_max, SP_MAX) OP(ompi_mpi_op_min, SP_MIN)
OP(ompi_mpi_op_prod, SP_PROD) OP(ompi_mpi_op_land, SP_LAND) OP(ompi_mpi_op_lor, SP_LOR) OP(ompi_mpi_op_lxor, SP_LXOR)
OP(ompi_mpi_op_band, SP_BAND) OP(ompi_mpi_op_bor, SP_BOR) OP(ompi_mpi_op_bxor, SP_BXOR) OP(ompi_mpi_op_maxloc, SP_MAXLOC)
OP(ompi_mpi_op_minloc, SP_MINLOC) OP(ompi_mpi_op_replace, SP_REPLACE) OP(ompi_mpi_op_no_op, SP_NULL)
T(ompi_request_null, SO_REQ, -1, 0) T(ompi_mpi_group_null, SO_GROUP, -1, 0) T(ompi_mpi_group_empty, SO_GROUP, 0, 0)
T(ompi_mpi_errors_return, SO_ERRH, 1, 0) T(ompi_mpi_errors_are_fatal, SO_ERRH, 2, 0) T(ompi_mpi_errhandler_null, SO_ERRH, 0, 0)
T(ompi_mpi_errors_throw_exceptions, SO_ERRH, 3, 0)
T(ompi_mpi_info_null, SO_INFO, 0, 0) T(ompi_mpi_info_env, SO_INFO, 0, 0) T(ompi_mpi_win_null, SO_WIN, 0, 0)
T(ompi_message_null, SO_MSG, 0, 0) T(ompi_message_no_proc, SO_MSG, 0, 0)
T(ompi_mpi_file_null, SO_WIN, 0, 0)
int *MPI_F_STATUS_IGNORE, *MPI_F_STATUSES_IGNORE;
