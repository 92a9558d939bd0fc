// ABI between the simulator host and the per-rank shim (one copy of the shim per simulated rank).
// Everything is plain C: the two sides live in different linker namespaces (different libc / libstdc++).
#pragma once
#include <stddef.h>
#include <stdint.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <time.h>

#define SIMOBJ_MAGIC 0x53494d4f424a3031ull
enum SimObjKind { SO_COMM = 1, SO_TYPE = 2, SO_OP = 3, SO_REQ = 4, SO_GROUP = 5, SO_ERRH = 6, SO_INFO = 7, SO_WIN = 8, SO_MSG = 9 };
// every MPI handle (predefined or created) points at one of these
struct SimObj {
    uint64_t magic;
    int32_t kind;
    int32_t id;      // predefined: constant from the lists below; created: host id
    int64_t extent;  // datatypes: size in bytes of one element
    int32_t base;    // datatypes: id of the predefined base type (for reductions)
    int32_t nbase;   // datatypes: base elements per element
    void *userfn;    // ops: MPI_User_function
    int32_t commute;
    int32_t pad;
    char room[512];
};

enum SimTypeId {
    ST_NULL = 0, ST_BYTE, ST_CHAR, ST_SCHAR, ST_UCHAR, ST_SHORT, ST_USHORT, ST_INT, ST_UINT, ST_LONG, ST_ULONG,
    ST_LLONG, ST_ULLONG, ST_FLOAT, ST_DOUBLE, ST_LDOUBLE, ST_CBOOL, ST_CXXBOOL, ST_WCHAR, ST_2INT, ST_DOUBLE_INT,
    ST_FLOAT_INT, ST_LONG_INT, ST_CPLX_F, ST_CPLX_D, ST_PACKED, ST_INT8, ST_INT16, ST_INT32, ST_INT64, ST_UINT8,
    ST_UINT16, ST_UINT32, ST_UINT64, ST_AINT, ST_DERIVED
};
enum SimOpId {
    SP_NULL = 0, SP_SUM, SP_MAX, SP_MIN, SP_PROD, SP_LAND, SP_LOR, SP_LXOR, SP_BAND, SP_BOR, SP_BXOR, SP_MAXLOC,
    SP_MINLOC, SP_REPLACE, SP_USER
};
enum SimCollKind {
    SC_BARRIER = 1, SC_BCAST, SC_REDUCE, SC_ALLREDUCE, SC_GATHER, SC_GATHERV, SC_ALLGATHER, SC_ALLGATHERV, SC_SCATTER,
    SC_SCATTERV, SC_ALLTOALL, SC_ALLTOALLV, SC_SCAN, SC_EXSCAN, SC_REDSCAT, SC_SPLIT, SC_DUP, SC_CREATE, SC_FINALIZE
};

#define SIM_IN_PLACE ((const void *)1)
#define SIM_ANY_SOURCE (-1)
#define SIM_ANY_TAG (-1)
#define SIM_PROC_NULL (-2)

struct SimStatus { int source, tag, error, cancelled; size_t count; };

struct SimColl { // one rank's arguments of a collective; absent pieces are NULL / 0
    int kind, root;
    const void *sbuf; void *rbuf;
    int scount, rcount;
    const int *scounts, *sdispls, *rcounts, *rdispls;
    struct SimObj *stype, *rtype, *op;
    int color, key;         // split
    int newid;              // out: new communicator id
};

typedef void (*SimUserFn)(void *in, void *inout, int *len, void **dtype);

struct SimApi {
    // ---- identity
    int nranks;
    int (*omp_threads)(void);
    // ---- MPI
    int (*comm_rank)(int comm);
    int (*comm_size)(int comm);
    int (*comm_world_rank)(int comm, int r);
    int (*comm_make)(int n, const int *worldranks); // local group object helper
    int (*coll)(int comm, struct SimColl *c);
    int (*send)(int comm, const void *buf, size_t bytes, int dst, int tag, int sync);
    int (*isend)(int comm, const void *buf, size_t bytes, int dst, int tag, int sync); // returns request id
    int (*irecv)(int comm, void *buf, size_t bytes, int src, int tag);               // returns request id
    int (*test)(int req, int block, struct SimStatus *st); // 1 = complete (request freed)
    int (*waitany)(int n, const int *reqs, struct SimStatus *st);
    void (*reqfree)(int req);
    int (*probe)(int comm, int src, int tag, int block, struct SimStatus *st);
    void (*mpi_error)(const char *what);
    void (*mpi_abort)(int code);
    void (*mpi_mark)(int what); // 0 = init, 1 = finalize
    // ---- time
    uint64_t (*now_ns)(void);
    void (*advance_ns)(uint64_t);
    // ---- OpenMP
    void (*par)(void (*fn)(void *), void *data, unsigned nthreads);
    int (*tid)(void);
    int (*team_size)(void);
    int (*level)(void);
    void (*barrier)(void);
    void (*crit_enter)(void *name);
    void (*crit_leave)(void *name);
    int (*ws_start)(long start, long end, long incr, long chunk, int kind, long *lo, long *hi, void **mem, size_t memsz);
    int (*ws_next)(long *lo, long *hi);
    void (*ws_end)(int nowait);
    int (*single_start)(void);
    void (*ordered_start)(void);
    void (*ordered_end)(void);
    void (*set_threads)(int n);
    void (*wait_word)(const volatile unsigned char *p, unsigned char busy); // cooperative spin until *p != busy
    void (*access)(const void *addr, size_t size, int iswrite, void *pc); // instrumented access in a parallel region
    void (*atomic)(const void *addr, size_t size, void *pc);              // atomic access: acquire + release on addr
    void (*acq)(const void *), (*rel)(const void *);                      // happens-before through a sync object
    void (*fresh)(const void *p, size_t n);                               // memory (re)allocated: forget accesses
    void (*budget)(void);                                                 // function-entry budget used up (hang guard)
    // ---- files (in-memory file system); fds returned here are >= SIM_FD_BASE
    int (*f_open)(const char *path, int flags, int mode);
    int (*f_close)(int fd);
    ssize_t (*f_read)(int fd, void *b, size_t n);
    ssize_t (*f_write)(int fd, const void *b, size_t n);
    off_t (*f_seek)(int fd, off_t o, int wh);
    int (*f_stat)(const char *path, struct stat *st);
    int (*f_fstat)(int fd, struct stat *st);
    int (*f_mkdir)(const char *path);
    int (*f_rename)(const char *a, const char *b);
    int (*f_unlink)(const char *a, int dir);
    int (*f_sync)(int fd);
    int (*f_trunc)(int fd, off_t n);
    void (*console)(int fd, const void *b, size_t n);
    // ---- process
    void (*proc_exit)(int code, const char *how);
    uint64_t (*entropy)(void);
    void (*yield)(int why);
    // ---- harness: rank code reports observations / reads its case
    const void *caseptr;
    void (*emit)(const char *tag, const void *p, size_t n);
    void (*fail)(const char *cls, const char *msg); // property violated, seen from inside a rank
    void (*note)(const char *key, double v);
    long (*pick)(long n); // seeded choice made by the driver itself (part of the trace)
    int (*alloc_fail)(size_t n);
};

#define SIM_FD_BASE 100000

// per-rank runtime state shared with the host (lives in the shim; hot path of the memory hooks)
struct SimHot {
    int in_par;             // >0: inside a parallel region with more than one thread
    int poison;             // fill fresh heap memory with this byte (-1: off)
    int64_t fuel;           // function entries left before api->budget() is called
    int count_alloc;
};
