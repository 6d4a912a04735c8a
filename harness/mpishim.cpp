// The calls of mpi/mpi.h as requests to the broker over VERIF_MPI_FD.
#include <mpi.h>
#include <chrono>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <mutex>
#include <unistd.h>
#include <vector>
enum { INIT = 1, FINALIZE, ABORT, SEND, ISEND, RECV, IRECV, WAIT, TEST, PROBE, IPROBE, COLL };
enum { STANDARD, SYNCHRONOUS, BUFFERED };
enum { BARRIER, TOALL, TOROOT, EACH };     // who needs whose contribution: EACH all of all
struct verif_request { int id; bool recv; void* buf; };
static int inited = 0, finalized = 0;
static int fd() { static int f = [] { const char* c = getenv("VERIF_MPI_FD"); return c ? atoi(c) : -1; }(); return f; }
static int number(const char* n) { const char* c = getenv(n); return c ? atoi(c) : 0; }
static int rank() { static int r = number("VERIF_MPI_RANK"); return r; }
static int size() { static int s = number("VERIF_MPI_SIZE"); return s; }
static void fatal(const char* what) { fprintf(stderr, "MPI error: %s\n", what); fflush(stderr); _exit(77); }
static void put(const void* p, size_t n) { const char* c = (const char*)p; while (n) { ssize_t k = write(fd(), c, n); if (k <= 0) _exit(78); c += k; n -= k; } }
static void get(void* p, size_t n) { char* c = (char*)p; while (n) { ssize_t k = read(fd(), c, n); if (k <= 0) _exit(78); c += k; n -= k; } }
struct Reply { int32_t a[4]; std::vector<char> data; };
static Reply ask(int op, int a = 0, int b = 0, int c = 0, const void* data = nullptr, size_t n = 0)
{
    static std::mutex m;
    std::lock_guard<std::mutex> g(m);
    if (op != INIT && (!inited || finalized)) fatal("call outside of MPI_Init and MPI_Finalize");
    int32_t h[4] = {op, a, b, c};
    uint64_t len = n;
    put(h, sizeof h); put(&len, sizeof len);
    if (n) put(data, n);
    Reply r;
    get(r.a, sizeof r.a); get(&len, sizeof len);
    r.data.resize(len);
    if (len) get(r.data.data(), len);
    if (r.a[0] != 0) fatal(r.a[0] == 2 ? "message truncated" : r.a[0] == 3 ? "invalid rank" : "unmatched collective calls");
    return r;
}
static void set(MPI_Status* s, const Reply& r, long bytes) { if (s) { s->MPI_SOURCE = r.a[1]; s->MPI_TAG = r.a[2]; s->MPI_ERROR = 0; s->verif_bytes = bytes; } }
static size_t bytes(int n, MPI_Datatype t) { if (n < 0) fatal("negative count"); return (size_t)n * (t & 255); }
template <class T> static void fold(T* a, const T* b, int n, MPI_Op op)
{
    for (int i = 0; i < n; i++) switch (op)
    {
        case MPI_SUM: a[i] = a[i] + b[i]; break;
        case MPI_PROD: a[i] = (T)(a[i] * b[i]); break;
        case MPI_MAX: if (b[i] > a[i]) a[i] = b[i]; break;
        case MPI_MIN: if (b[i] < a[i]) a[i] = b[i]; break;
        case MPI_LAND: a[i] = a[i] && b[i]; break;
        case MPI_LOR: a[i] = a[i] || b[i]; break;
        default: fatal("unknown operation");
    }
}
static void null(MPI_Status* s) { if (s) { s->MPI_SOURCE = MPI_PROC_NULL; s->MPI_TAG = MPI_ANY_TAG; s->MPI_ERROR = 0; s->verif_bytes = 0; } }
extern "C" {
int MPI_Init(int*, char***) { ask(INIT); inited = 1; return 0; }
int MPI_Init_thread(int* a, char*** b, int want, int* got) { if (got) *got = want; return MPI_Init(a, b); }
int MPI_Initialized(int* f) { *f = inited; return 0; }
int MPI_Finalized(int* f) { *f = finalized; return 0; }
int MPI_Finalize() { ask(FINALIZE); finalized = 1; return 0; }
int MPI_Abort(MPI_Comm, int code) { ask(ABORT, code); _exit(code ? code : 1); }
int MPI_Comm_rank(MPI_Comm, int* r) { if (!inited || finalized) fatal("MPI_Comm_rank outside of MPI_Init and MPI_Finalize"); *r = rank(); return 0; }
int MPI_Comm_size(MPI_Comm, int* s) { if (!inited || finalized) fatal("MPI_Comm_size outside of MPI_Init and MPI_Finalize"); *s = size(); return 0; }
int MPI_Get_processor_name(char* n, int* l) { *l = snprintf(n, MPI_MAX_PROCESSOR_NAME, "node"); return 0; }
double MPI_Wtime() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
int MPI_Type_size(MPI_Datatype t, int* s) { *s = t & 255; return 0; }
static int send(int mode, const void* b, int n, MPI_Datatype t, int dest, int tag) { size_t k = bytes(n, t); if (dest != MPI_PROC_NULL) ask(SEND, dest, tag, mode, b, k); return 0; }
int MPI_Send(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm) { return send(STANDARD, b, n, t, d, tag); }
int MPI_Ssend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm) { return send(SYNCHRONOUS, b, n, t, d, tag); }
int MPI_Bsend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm) { return send(BUFFERED, b, n, t, d, tag); }
int MPI_Rsend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm) { return send(STANDARD, b, n, t, d, tag); }
static int isend(int mode, const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Request* q)
{
    if (d == MPI_PROC_NULL) { *q = MPI_REQUEST_NULL; return 0; }
    Reply r = ask(ISEND, d, tag, mode, b, bytes(n, t));
    *q = new verif_request{r.a[1], false, nullptr};
    return 0;
}
int MPI_Isend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm, MPI_Request* q) { return isend(STANDARD, b, n, t, d, tag, q); }
int MPI_Issend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm, MPI_Request* q) { return isend(SYNCHRONOUS, b, n, t, d, tag, q); }
int MPI_Recv(void* b, int n, MPI_Datatype t, int src, int tag, MPI_Comm, MPI_Status* s)
{
    uint64_t k = bytes(n, t);
    if (src == MPI_PROC_NULL) { null(s); return 0; }
    Reply r = ask(RECV, src, tag, 0, &k, sizeof k);
    if (!r.data.empty()) memcpy(b, r.data.data(), r.data.size());
    set(s, r, r.data.size());
    return 0;
}
int MPI_Irecv(void* b, int n, MPI_Datatype t, int src, int tag, MPI_Comm, MPI_Request* q)
{
    uint64_t k = bytes(n, t);
    if (src == MPI_PROC_NULL) { *q = MPI_REQUEST_NULL; return 0; }
    Reply r = ask(IRECV, src, tag, 0, &k, sizeof k);
    *q = new verif_request{r.a[1], true, b};
    return 0;
}
static void done(MPI_Request* q, const Reply& r, MPI_Status* s)
{
    if ((*q)->recv && !r.data.empty()) memcpy((*q)->buf, r.data.data(), r.data.size());
    set(s, r, r.data.size());
    delete *q; *q = MPI_REQUEST_NULL;
}
int MPI_Wait(MPI_Request* q, MPI_Status* s)
{
    if (*q == MPI_REQUEST_NULL) { null(s); return 0; }
    done(q, ask(WAIT, (*q)->id), s);
    return 0;
}
int MPI_Waitall(int n, MPI_Request* q, MPI_Status* s) { for (int i = 0; i < n; i++) MPI_Wait(q + i, s ? s + i : nullptr); return 0; }
int MPI_Test(MPI_Request* q, int* flag, MPI_Status* s)
{
    *flag = 1;
    if (*q == MPI_REQUEST_NULL) { null(s); return 0; }
    Reply r = ask(TEST, (*q)->id);
    if ((*flag = r.a[3])) done(q, r, s);
    return 0;
}
int MPI_Sendrecv(const void* sb, int sn, MPI_Datatype st, int d, int stag, void* rb, int rn, MPI_Datatype rt, int src, int rtag, MPI_Comm c, MPI_Status* s)
{
    MPI_Request q;
    MPI_Isend(sb, sn, st, d, stag, c, &q);
    MPI_Recv(rb, rn, rt, src, rtag, c, s);
    return MPI_Wait(&q, nullptr);
}
static long length(const Reply& r) { long k; memcpy(&k, r.data.data(), sizeof k); return k; }
int MPI_Probe(int src, int tag, MPI_Comm, MPI_Status* s)
{
    if (src == MPI_PROC_NULL) { null(s); return 0; }
    Reply r = ask(PROBE, src, tag); set(s, r, length(r)); return 0;
}
int MPI_Iprobe(int src, int tag, MPI_Comm, int* flag, MPI_Status* s)
{
    Reply r = ask(IPROBE, src, tag);
    if ((*flag = r.a[3])) set(s, r, length(r));
    return 0;
}
int MPI_Get_count(const MPI_Status* s, MPI_Datatype t, int* n) { *n = s->verif_bytes % (t & 255) ? MPI_UNDEFINED : (int)(s->verif_bytes / (t & 255)); return 0; }
// every contribution of a collective call, one after the other
static std::vector<std::vector<char>> collective(int kind, int root, int shape, const void* b, size_t n)
{
    if (root < 0 || root >= size()) fatal("invalid rank");
    Reply r = ask(COLL, kind, root, shape, b, n);
    std::vector<std::vector<char>> v;
    for (size_t at = 0; at + 8 <= r.data.size();)
    {
        uint64_t k; memcpy(&k, r.data.data() + at, 8); at += 8;
        v.emplace_back(r.data.begin() + at, r.data.begin() + at + k); at += k;
    }
    return v;
}
int MPI_Barrier(MPI_Comm) { collective(BARRIER, 0, 0, nullptr, 0); return 0; }
int MPI_Bcast(void* b, int n, MPI_Datatype t, int root, MPI_Comm)
{
    size_t k = bytes(n, t);
    auto v = collective(TOALL, root, 1, b, rank() == root ? k : 0);
    if (rank() != root) { if (v[0].size() > k) fatal("message truncated"); if (!v[0].empty()) memcpy(b, v[0].data(), v[0].size()); }
    return 0;
}
static int gather(int kind, int shape, const void* sb, int sn, MPI_Datatype st, void* rb, int rn, const int* ns, const int* at, MPI_Datatype rt, int root)
{
    std::vector<char> own;
    if (sb == MPI_IN_PLACE)
    {
        size_t off = bytes(ns ? at[rank()] : rank() * rn, rt), k = bytes(ns ? ns[rank()] : rn, rt);
        own.assign((char*)rb + off, (char*)rb + off + k);
        sb = own.data(); sn = (int)k; st = MPI_BYTE;
    }
    auto v = collective(kind, root, shape, sb, bytes(sn, st));
    if (kind == TOROOT && rank() != root) return 0;
    for (int i = 0; i < size(); i++)
    {
        if (v[i].size() > bytes(ns ? ns[i] : rn, rt)) fatal("message truncated");
        if (!v[i].empty()) memcpy((char*)rb + bytes(ns ? at[i] : i * rn, rt), v[i].data(), v[i].size());
    }
    return 0;
}
int MPI_Gather(const void* sb, int sn, MPI_Datatype st, void* rb, int rn, MPI_Datatype rt, int root, MPI_Comm) { return gather(TOROOT, 2, sb, sn, st, rb, rn, nullptr, nullptr, rt, root); }
int MPI_Gatherv(const void* sb, int sn, MPI_Datatype st, void* rb, const int* ns, const int* at, MPI_Datatype rt, int root, MPI_Comm) { return gather(TOROOT, 3, sb, sn, st, rb, 0, ns, at, rt, root); }
int MPI_Allgather(const void* sb, int sn, MPI_Datatype st, void* rb, int rn, MPI_Datatype rt, MPI_Comm) { return gather(EACH, 4, sb, sn, st, rb, rn, nullptr, nullptr, rt, 0); }
int MPI_Allgatherv(const void* sb, int sn, MPI_Datatype st, void* rb, const int* ns, const int* at, MPI_Datatype rt, MPI_Comm) { return gather(EACH, 5, sb, sn, st, rb, 0, ns, at, rt, 0); }
static int reduce(int kind, const void* sb, void* rb, int n, MPI_Datatype t, MPI_Op op, int root)
{
    auto v = collective(kind, root, 16 + op, sb == MPI_IN_PLACE ? rb : sb, bytes(n, t));
    if (kind == TOROOT && rank() != root) return 0;
    std::vector<char> a = v[0];
    for (int i = 1; i < size(); i++)
    {
        if (v[i].size() != a.size()) fatal("message truncated");
        switch (t)
        {
#define CASE(M, T) case M: fold((T*)a.data(), (const T*)v[i].data(), n, op); break;
            CASE(MPI_CHAR, char) CASE(MPI_UNSIGNED_CHAR, unsigned char) CASE(MPI_SHORT, short) CASE(MPI_UNSIGNED_SHORT, unsigned short)
            CASE(MPI_INT, int) CASE(MPI_UNSIGNED, unsigned) CASE(MPI_LONG, long) CASE(MPI_UNSIGNED_LONG, unsigned long)
            CASE(MPI_FLOAT, float) CASE(MPI_DOUBLE, double) CASE(MPI_C_BOOL, bool)
            default: fatal("unknown type");
        }
    }
    if (!a.empty()) memcpy(rb, a.data(), a.size());
    return 0;
}
int MPI_Reduce(const void* sb, void* rb, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm) { return reduce(TOROOT, sb, rb, n, t, op, root); }
int MPI_Allreduce(const void* sb, void* rb, int n, MPI_Datatype t, MPI_Op op, MPI_Comm) { return reduce(EACH, sb, rb, n, t, op, 0); }
}
