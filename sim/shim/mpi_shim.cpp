// Simulated MPI: Open MPI's C ABI, forwarded to the simulator host.
#define OMPI_SKIP_MPICXX 1
#include <mpi.h>
#include "../abi.h"
#include "rt.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <vector>

#define X extern "C" __attribute__((visibility("default")))
static inline SimObj *O(void *h) { return (SimObj *)h; }
static inline int cid(MPI_Comm c) { return O(c)->id; }
static size_t tsz(MPI_Datatype t) {
    if (O(t)->magic != SIMOBJ_MAGIC || O(t)->kind != SO_TYPE || O(t)->id == ST_NULL) { A->mpi_error("invalid datatype"); return 0; }
    return (size_t)O(t)->extent;
}
static SimObj *mk(int kind, int id) {
    SimObj *o = (SimObj *)calloc(1, sizeof(SimObj));
    o->magic = SIMOBJ_MAGIC; o->kind = kind; o->id = id; o->commute = 1;
    return o;
}
static int g_init, g_fini;
struct GroupObj { SimObj o; int n; int r[256]; };
static void put(MPI_Status *st, const SimStatus &s) {
    if (st == MPI_STATUS_IGNORE) return;
    st->MPI_SOURCE = s.source; st->MPI_TAG = s.tag; st->MPI_ERROR = s.error; st->_cancelled = s.cancelled; st->_ucount = s.count;
}
static void putEmpty(MPI_Status *st) {
    if (st == MPI_STATUS_IGNORE) return;
    st->MPI_SOURCE = MPI_ANY_SOURCE; st->MPI_TAG = MPI_ANY_TAG; st->MPI_ERROR = 0; st->_cancelled = 0; st->_ucount = 0;
}
static void need(const char *fn) {
    if (!A) { fprintf(stderr, "%s before attach\n", fn); abort(); }
    if (!g_init || g_fini) A->mpi_error((std::string(fn) + (g_fini ? " after MPI_Finalize" : " before MPI_Init")).c_str());
}

X int MPI_Init(int *, char ***) { if (g_init) A->mpi_error("MPI_Init called twice"); g_init = 1; A->mpi_mark(0); return 0; }
X int MPI_Init_thread(int *a, char ***b, int req, int *prov) { *prov = req; return MPI_Init(a, b); }
X int MPI_Query_thread(int *p) { *p = MPI_THREAD_SERIALIZED; return 0; }
X int MPI_Is_thread_main(int *f) { *f = 1; return 0; }
X int MPI_Initialized(int *f) { *f = g_init; return 0; }
X int MPI_Finalized(int *f) { *f = g_fini; return 0; }
X int MPI_Finalize(void) {
    need("MPI_Finalize");
    SimColl c = {}; c.kind = SC_FINALIZE; A->coll(1, &c);
    g_fini = 1; A->mpi_mark(1); return 0;
}
X int MPI_Abort(MPI_Comm, int code) { A->mpi_abort(code); return 0; }
X double MPI_Wtime(void) { return A->now_ns() * 1e-9; }
X double MPI_Wtick(void) { return 1e-9; }
X int MPI_Get_processor_name(char *n, int *l) { strcpy(n, "simnode"); *l = 7; return 0; }
X int MPI_Get_version(int *a, int *b) { *a = 3; *b = 1; return 0; }
X int MPI_Get_library_version(char *v, int *l) { strcpy(v, "simulated"); *l = 9; return 0; }
X int MPI_Error_string(int e, char *s, int *l) { *l = sprintf(s, "sim mpi error %d", e); return 0; }
X int MPI_Error_class(int e, int *c) { *c = e; return 0; }

// ---- communicators
X int MPI_Comm_rank(MPI_Comm c, int *r) { need("MPI_Comm_rank"); *r = A->comm_rank(cid(c)); return 0; }
X int MPI_Comm_size(MPI_Comm c, int *n) { need("MPI_Comm_size"); *n = A->comm_size(cid(c)); return 0; }
X int MPI_Comm_dup(MPI_Comm c, MPI_Comm *o) {
    need("MPI_Comm_dup");
    SimColl k = {}; k.kind = SC_DUP; A->coll(cid(c), &k); *o = (MPI_Comm)mk(SO_COMM, k.newid); return 0;
}
X int MPI_Comm_split(MPI_Comm c, int color, int key, MPI_Comm *o) {
    need("MPI_Comm_split");
    SimColl k = {}; k.kind = SC_SPLIT; k.color = color; k.key = key; A->coll(cid(c), &k);
    *o = color == MPI_UNDEFINED ? MPI_COMM_NULL : (MPI_Comm)mk(SO_COMM, k.newid); return 0;
}
X int MPI_Comm_create(MPI_Comm c, MPI_Group g, MPI_Comm *o) {
    need("MPI_Comm_create");
    GroupObj *go = (GroupObj *)g;
    int me = A->comm_world_rank(cid(c), A->comm_rank(cid(c))), pos = -1;
    for (int i = 0; i < go->n; i++) if (go->r[i] == me) pos = i;
    SimColl k = {}; k.kind = SC_SPLIT; k.color = pos >= 0 ? 0 : MPI_UNDEFINED; k.key = pos; A->coll(cid(c), &k);
    *o = pos < 0 ? MPI_COMM_NULL : (MPI_Comm)mk(SO_COMM, k.newid); return 0;
}
X int MPI_Comm_free(MPI_Comm *c) { *c = MPI_COMM_NULL; return 0; }
X int MPI_Comm_disconnect(MPI_Comm *c) { *c = MPI_COMM_NULL; return 0; }
X int MPI_Comm_compare(MPI_Comm a, MPI_Comm b, int *r) {
    if (cid(a) == cid(b)) { *r = MPI_IDENT; return 0; }
    int n = A->comm_size(cid(a)), m = A->comm_size(cid(b));
    if (n != m) { *r = MPI_UNEQUAL; return 0; }
    bool same = true;
    for (int i = 0; i < n; i++) if (A->comm_world_rank(cid(a), i) != A->comm_world_rank(cid(b), i)) same = false;
    *r = same ? MPI_CONGRUENT : MPI_UNEQUAL; return 0;
}
X int MPI_Comm_test_inter(MPI_Comm, int *f) { *f = 0; return 0; }
X int MPI_Comm_group(MPI_Comm c, MPI_Group *g) {
    GroupObj *o = (GroupObj *)calloc(1, sizeof(GroupObj)); o->o.magic = SIMOBJ_MAGIC; o->o.kind = SO_GROUP;
    o->n = A->comm_size(cid(c)); for (int i = 0; i < o->n; i++) o->r[i] = A->comm_world_rank(cid(c), i);
    *g = (MPI_Group)o; return 0;
}
X int MPI_Group_incl(MPI_Group g, int n, const int *r, MPI_Group *out) {
    GroupObj *s = (GroupObj *)g, *o = (GroupObj *)calloc(1, sizeof(GroupObj)); o->o.magic = SIMOBJ_MAGIC; o->o.kind = SO_GROUP;
    o->n = n; for (int i = 0; i < n; i++) o->r[i] = s->r[r[i]]; *out = (MPI_Group)o; return 0;
}
X int MPI_Group_size(MPI_Group g, int *n) { *n = ((GroupObj *)g)->n; return 0; }
X int MPI_Group_rank(MPI_Group g, int *r) {
    GroupObj *s = (GroupObj *)g; int me = A->comm_world_rank(1, A->comm_rank(1)); *r = MPI_UNDEFINED;
    for (int i = 0; i < s->n; i++) if (s->r[i] == me) *r = i; return 0;
}
X int MPI_Group_translate_ranks(MPI_Group a, int n, const int *r, MPI_Group b, int *o) {
    GroupObj *x = (GroupObj *)a, *y = (GroupObj *)b;
    for (int i = 0; i < n; i++) { o[i] = MPI_UNDEFINED; for (int j = 0; j < y->n; j++) if (y->r[j] == x->r[r[i]]) o[i] = j; } return 0;
}
X int MPI_Group_free(MPI_Group *g) { *g = MPI_GROUP_NULL; return 0; }
X int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler) { return 0; }
X int MPI_Comm_get_errhandler(MPI_Comm, MPI_Errhandler *e) { *e = MPI_ERRORS_ARE_FATAL; return 0; }
X int MPI_Comm_create_errhandler(MPI_Comm_errhandler_function *, MPI_Errhandler *e) { *e = MPI_ERRORS_RETURN; return 0; }
X int MPI_Errhandler_free(MPI_Errhandler *e) { *e = MPI_ERRHANDLER_NULL; return 0; }
static int g_key = 100;
static std::vector<std::pair<std::pair<int, int>, void *>> g_attr;
X int MPI_Comm_create_keyval(MPI_Comm_copy_attr_function *, MPI_Comm_delete_attr_function *, int *k, void *) { *k = g_key++; return 0; }
X int MPI_Comm_free_keyval(int *k) { *k = MPI_KEYVAL_INVALID; return 0; }
X int MPI_Comm_set_attr(MPI_Comm c, int k, void *v) {
    for (auto &e : g_attr) if (e.first == std::make_pair(cid(c), k)) { e.second = v; return 0; }
    g_attr.push_back({{cid(c), k}, v}); return 0;
}
X int MPI_Comm_get_attr(MPI_Comm c, int k, void *out, int *f) {
    static int tagub = 0x7fffffff; *f = 0;
    if (k == MPI_TAG_UB) { *(void **)out = &tagub; *f = 1; return 0; }
    for (auto &e : g_attr) if (e.first == std::make_pair(cid(c), k)) { *(void **)out = e.second; *f = 1; }
    return 0;
}
X int MPI_Comm_delete_attr(MPI_Comm c, int k) {
    for (size_t i = 0; i < g_attr.size(); i++) if (g_attr[i].first == std::make_pair(cid(c), k)) { g_attr.erase(g_attr.begin() + i); break; }
    return 0;
}
X int MPI_Comm_set_name(MPI_Comm, const char *) { return 0; }
X int MPI_Comm_get_name(MPI_Comm, char *n, int *l) { strcpy(n, "comm"); *l = 4; return 0; }
X int OMPI_C_MPI_COMM_NULL_COPY_FN(MPI_Comm, int, void *, void *, void *, int *flag) { *flag = 0; return 0; }
X int OMPI_C_MPI_COMM_NULL_DELETE_FN(MPI_Comm, int, void *, void *) { return 0; }

// ---- datatypes and ops
X int MPI_Type_contiguous(int n, MPI_Datatype t, MPI_Datatype *o) {
    SimObj *d = mk(SO_TYPE, ST_DERIVED); d->extent = (int64_t)n * O(t)->extent; d->base = O(t)->base; d->nbase = n * O(t)->nbase; *o = (MPI_Datatype)d; return 0;
}
X int MPI_Type_dup(MPI_Datatype t, MPI_Datatype *o) { return MPI_Type_contiguous(1, t, o); }
X int MPI_Type_commit(MPI_Datatype *) { return 0; }
X int MPI_Type_free(MPI_Datatype *t) { *t = MPI_DATATYPE_NULL; return 0; }
X int MPI_Type_size(MPI_Datatype t, int *s) { *s = (int)O(t)->extent; return 0; }
X int MPI_Type_get_extent(MPI_Datatype t, MPI_Aint *lb, MPI_Aint *e) { *lb = 0; *e = O(t)->extent; return 0; }
X int MPI_Type_get_true_extent(MPI_Datatype t, MPI_Aint *lb, MPI_Aint *e) { *lb = 0; *e = O(t)->extent; return 0; }
X int MPI_Op_create(MPI_User_function *f, int commute, MPI_Op *o) {
    SimObj *d = mk(SO_OP, SP_USER); d->userfn = (void *)f; d->commute = commute; *o = (MPI_Op)d; return 0;
}
X int MPI_Op_free(MPI_Op *o) { *o = MPI_OP_NULL; return 0; }
X int MPI_Op_commutative(MPI_Op o, int *c) { *c = O(o)->commute; return 0; }

// ---- collectives
#define COLL(name, comm, ...) need(name); SimColl c = {}; __VA_ARGS__; return A->coll(cid(comm), &c);
#define ST(t) (SimObj *)(t)
X int MPI_Barrier(MPI_Comm m) { COLL("MPI_Barrier", m, c.kind = SC_BARRIER) }
X int MPI_Bcast(void *b, int n, MPI_Datatype t, int root, MPI_Comm m) { COLL("MPI_Bcast", m, c.kind = SC_BCAST; c.root = root; c.sbuf = b; c.rbuf = b; c.scount = c.rcount = n; c.stype = c.rtype = ST(t)) }
X int MPI_Reduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op o, int root, MPI_Comm m) { COLL("MPI_Reduce", m, c.kind = SC_REDUCE; c.root = root; c.sbuf = s; c.rbuf = r; c.scount = c.rcount = n; c.stype = c.rtype = ST(t); c.op = ST(o)) }
X int MPI_Allreduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op o, MPI_Comm m) { COLL("MPI_Allreduce", m, c.kind = SC_ALLREDUCE; c.sbuf = s; c.rbuf = r; c.scount = c.rcount = n; c.stype = c.rtype = ST(t); c.op = ST(o)) }
X int MPI_Scan(const void *s, void *r, int n, MPI_Datatype t, MPI_Op o, MPI_Comm m) { COLL("MPI_Scan", m, c.kind = SC_SCAN; c.sbuf = s; c.rbuf = r; c.scount = c.rcount = n; c.stype = c.rtype = ST(t); c.op = ST(o)) }
X int MPI_Exscan(const void *s, void *r, int n, MPI_Datatype t, MPI_Op o, MPI_Comm m) { COLL("MPI_Exscan", m, c.kind = SC_EXSCAN; c.sbuf = s; c.rbuf = r; c.scount = c.rcount = n; c.stype = c.rtype = ST(t); c.op = ST(o)) }
X int MPI_Gather(const void *s, int sn, MPI_Datatype st, void *r, int rn, MPI_Datatype rt, int root, MPI_Comm m) { COLL("MPI_Gather", m, c.kind = SC_GATHER; c.root = root; c.sbuf = s; c.rbuf = r; c.scount = sn; c.rcount = rn; c.stype = ST(st); c.rtype = ST(rt)) }
X int MPI_Gatherv(const void *s, int sn, MPI_Datatype st, void *r, const int *rc, const int *rd, MPI_Datatype rt, int root, MPI_Comm m) { COLL("MPI_Gatherv", m, c.kind = SC_GATHERV; c.root = root; c.sbuf = s; c.rbuf = r; c.scount = sn; c.rcounts = rc; c.rdispls = rd; c.stype = ST(st); c.rtype = ST(rt)) }
X int MPI_Allgather(const void *s, int sn, MPI_Datatype st, void *r, int rn, MPI_Datatype rt, MPI_Comm m) { COLL("MPI_Allgather", m, c.kind = SC_ALLGATHER; c.sbuf = s; c.rbuf = r; c.scount = sn; c.rcount = rn; c.stype = ST(st); c.rtype = ST(rt)) }
X int MPI_Allgatherv(const void *s, int sn, MPI_Datatype st, void *r, const int *rc, const int *rd, MPI_Datatype rt, MPI_Comm m) { COLL("MPI_Allgatherv", m, c.kind = SC_ALLGATHERV; c.sbuf = s; c.rbuf = r; c.scount = sn; c.rcounts = rc; c.rdispls = rd; c.stype = ST(st); c.rtype = ST(rt)) }
X int MPI_Scatter(const void *s, int sn, MPI_Datatype st, void *r, int rn, MPI_Datatype rt, int root, MPI_Comm m) { COLL("MPI_Scatter", m, c.kind = SC_SCATTER; c.root = root; c.sbuf = s; c.rbuf = r; c.scount = sn; c.rcount = rn; c.stype = ST(st); c.rtype = ST(rt)) }
X int MPI_Scatterv(const void *s, const int *sc, const int *sd, MPI_Datatype st, void *r, int rn, MPI_Datatype rt, int root, MPI_Comm m) { COLL("MPI_Scatterv", m, c.kind = SC_SCATTERV; c.root = root; c.sbuf = s; c.rbuf = r; c.scounts = sc; c.sdispls = sd; c.rcount = rn; c.stype = ST(st); c.rtype = ST(rt)) }
X int MPI_Alltoall(const void *s, int sn, MPI_Datatype st, void *r, int rn, MPI_Datatype rt, MPI_Comm m) { COLL("MPI_Alltoall", m, c.kind = SC_ALLTOALL; c.sbuf = s; c.rbuf = r; c.scount = sn; c.rcount = rn; c.stype = ST(st); c.rtype = ST(rt)) }
X int MPI_Alltoallv(const void *s, const int *sc, const int *sd, MPI_Datatype st, void *r, const int *rc, const int *rd, MPI_Datatype rt, MPI_Comm m) { COLL("MPI_Alltoallv", m, c.kind = SC_ALLTOALLV; c.sbuf = s; c.rbuf = r; c.scounts = sc; c.sdispls = sd; c.rcounts = rc; c.rdispls = rd; c.stype = ST(st); c.rtype = ST(rt)) }
X int MPI_Reduce_scatter(const void *s, void *r, const int *rc, MPI_Datatype t, MPI_Op o, MPI_Comm m) { COLL("MPI_Reduce_scatter", m, c.kind = SC_REDSCAT; c.sbuf = s; c.rbuf = r; c.rcounts = rc; c.stype = c.rtype = ST(t); c.op = ST(o)) }
// a non-blocking all-reduce completes inside the call here (a legal, if eager, progress choice)
X int MPI_Iallreduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op o, MPI_Comm m, MPI_Request *q) { *q = MPI_REQUEST_NULL; return MPI_Allreduce(s, r, n, t, o, m); }
X int MPI_Ibarrier(MPI_Comm m, MPI_Request *q) { *q = MPI_REQUEST_NULL; return MPI_Barrier(m); }
X int MPI_Ibcast(void *b, int n, MPI_Datatype t, int r, MPI_Comm m, MPI_Request *q) { *q = MPI_REQUEST_NULL; return MPI_Bcast(b, n, t, r, m); }
X int MPI_Iallgather(const void *s, int n, MPI_Datatype t, void *r, int rn, MPI_Datatype rt, MPI_Comm m, MPI_Request *q) { *q = MPI_REQUEST_NULL; return MPI_Allgather(s, n, t, r, rn, rt, m); }
X int MPI_Ialltoall(const void *s, int n, MPI_Datatype t, void *r, int rn, MPI_Datatype rt, MPI_Comm m, MPI_Request *q) { *q = MPI_REQUEST_NULL; return MPI_Alltoall(s, n, t, r, rn, rt, m); }
X int MPI_Ialltoallv(const void *s, const int *n, const int *d, MPI_Datatype t, void *r, const int *rn, const int *rd, MPI_Datatype rt, MPI_Comm m, MPI_Request *q) { *q = MPI_REQUEST_NULL; return MPI_Alltoallv(s, n, d, t, r, rn, rd, rt, m); }
X int MPI_Reduce_scatter_block(const void *s, void *r, int n, MPI_Datatype t, MPI_Op o, MPI_Comm m) { int p; MPI_Comm_size(m, &p); std::vector<int> c(p, n); return MPI_Reduce_scatter(s, r, c.data(), t, o, m); }

// ---- point to point
static MPI_Request rq(int id) { return (MPI_Request)mk(SO_REQ, id); }
static int snd(const char *fn, const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm m, int sync) {
    need(fn); if (d == MPI_PROC_NULL) return 0;
    if (n < 0) A->mpi_error("negative count");
    return A->send(cid(m), b, n * tsz(t), d, tag, sync);
}
X int MPI_Send(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm m) { return snd("MPI_Send", b, n, t, d, tag, m, 0); }
X int MPI_Rsend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm m) { return snd("MPI_Rsend", b, n, t, d, tag, m, 0); }
X int MPI_Bsend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm m) { return snd("MPI_Bsend", b, n, t, d, tag, m, 2); }
X int MPI_Ssend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm m) { return snd("MPI_Ssend", b, n, t, d, tag, m, 1); }
static int isnd(const char *fn, const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm m, MPI_Request *q, int sync) {
    need(fn); if (d == MPI_PROC_NULL) { *q = MPI_REQUEST_NULL; return 0; }
    if (n < 0) A->mpi_error("negative count");
    *q = rq(A->isend(cid(m), b, n * tsz(t), d, tag, sync)); return 0;
}
X int MPI_Isend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm m, MPI_Request *q) { return isnd("MPI_Isend", b, n, t, d, tag, m, q, 0); }
X int MPI_Irsend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm m, MPI_Request *q) { return isnd("MPI_Irsend", b, n, t, d, tag, m, q, 0); }
X int MPI_Ibsend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm m, MPI_Request *q) { return isnd("MPI_Ibsend", b, n, t, d, tag, m, q, 2); }
X int MPI_Issend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm m, MPI_Request *q) { return isnd("MPI_Issend", b, n, t, d, tag, m, q, 1); }
X int MPI_Irecv(void *b, int n, MPI_Datatype t, int s, int tag, MPI_Comm m, MPI_Request *q) {
    need("MPI_Irecv"); if (s == MPI_PROC_NULL) { *q = MPI_REQUEST_NULL; return 0; }
    if (n < 0) A->mpi_error("negative count");
    *q = rq(A->irecv(cid(m), b, n * tsz(t), s, tag)); return 0;
}
X int MPI_Recv(void *b, int n, MPI_Datatype t, int s, int tag, MPI_Comm m, MPI_Status *st) {
    need("MPI_Recv"); if (s == MPI_PROC_NULL) { putEmpty(st); return 0; }
    if (n < 0) A->mpi_error("negative count");
    SimStatus x = {}; A->test(A->irecv(cid(m), b, n * tsz(t), s, tag), 1, &x); put(st, x); return 0;
}
static int fin(MPI_Request *q, int block, MPI_Status *st) {
    if (*q == MPI_REQUEST_NULL) { putEmpty(st); return 1; }
    SimStatus x = {}; if (!A->test(O(*q)->id, block, &x)) return 0;
    put(st, x); O(*q)->magic = 0; free(*q); *q = MPI_REQUEST_NULL; return 1;
}
X int MPI_Wait(MPI_Request *q, MPI_Status *st) { need("MPI_Wait"); fin(q, 1, st); return 0; }
X int MPI_Test(MPI_Request *q, int *f, MPI_Status *st) { need("MPI_Test"); *f = fin(q, 0, st); return 0; }
X int MPI_Waitall(int n, MPI_Request *q, MPI_Status *st) {
    need("MPI_Waitall"); for (int i = 0; i < n; i++) fin(q + i, 1, st == MPI_STATUSES_IGNORE ? MPI_STATUS_IGNORE : st + i); return 0;
}
X int MPI_Testall(int n, MPI_Request *q, int *f, MPI_Status *st) { // completes them one by one: *f is set once all are done
    need("MPI_Testall"); *f = 1; for (int i = 0; i < n; i++) if (q[i] != MPI_REQUEST_NULL && !fin(q + i, 0, st == MPI_STATUSES_IGNORE ? MPI_STATUS_IGNORE : st + i)) *f = 0; return 0;
}
X int MPI_Waitany(int n, MPI_Request *q, int *idx, MPI_Status *st) {
    need("MPI_Waitany"); std::vector<int> ids, pos;
    for (int i = 0; i < n; i++) if (q[i] != MPI_REQUEST_NULL) { ids.push_back(O(q[i])->id); pos.push_back(i); }
    if (ids.empty()) { *idx = MPI_UNDEFINED; putEmpty(st); return 0; }
    SimStatus x = {}; int k = A->waitany((int)ids.size(), ids.data(), &x); *idx = pos[k]; put(st, x); free(q[pos[k]]); q[pos[k]] = MPI_REQUEST_NULL; return 0;
}
X int MPI_Request_free(MPI_Request *q) { if (*q != MPI_REQUEST_NULL) { A->reqfree(O(*q)->id); *q = MPI_REQUEST_NULL; } return 0; }
X int MPI_Probe(int s, int tag, MPI_Comm m, MPI_Status *st) { need("MPI_Probe"); SimStatus x = {}; A->probe(cid(m), s, tag, 1, &x); put(st, x); return 0; }
X int MPI_Iprobe(int s, int tag, MPI_Comm m, int *f, MPI_Status *st) { need("MPI_Iprobe"); SimStatus x = {}; *f = A->probe(cid(m), s, tag, 0, &x); if (*f) put(st, x); return 0; }
X int MPI_Get_count(const MPI_Status *st, MPI_Datatype t, int *n) { size_t z = tsz(t); *n = z ? (int)(st->_ucount / z) : 0; return 0; }
X int MPI_Sendrecv(const void *sb, int sn, MPI_Datatype stp, int d, int stag, void *rb, int rn, MPI_Datatype rt, int s, int rtag, MPI_Comm m, MPI_Status *st) {
    MPI_Request a, b; MPI_Irecv(rb, rn, rt, s, rtag, m, &a); MPI_Isend(sb, sn, stp, d, stag, m, &b);
    MPI_Wait(&a, st); MPI_Wait(&b, MPI_STATUS_IGNORE); return 0;
}
X int MPI_Sendrecv_replace(void *b, int n, MPI_Datatype t, int d, int stag, int s, int rtag, MPI_Comm m, MPI_Status *st) {
    int sz; MPI_Type_size(t, &sz); std::vector<char> c((size_t)sz * n); memcpy(c.data(), b, c.size()); return MPI_Sendrecv(c.data(), n, t, d, stag, b, n, t, s, rtag, m, st);
}
X int MPI_Attr_get(MPI_Comm c, int k, void *out, int *f) { return MPI_Comm_get_attr(c, k, out, f); }
X int MPI_Keyval_free(int *k) { *k = MPI_KEYVAL_INVALID; return 0; }
X int MPI_Win_free(MPI_Win *) { return 0; }
X int MPI_File_close(MPI_File *) { return 0; }
X int MPI_Pcontrol(const int, ...) { return 0; }
extern "C" void sim_unimplemented(const char *fn) { // reached from generated stubs
    fprintf(stderr, "unimplemented MPI function %s\n", fn);
    if (A) A->mpi_error((std::string("HARNESS unimplemented MPI function ") + fn).c_str());
    abort();
}
