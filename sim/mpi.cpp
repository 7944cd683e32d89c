// Simulated MPI library. Semantics follow the standard: point-to-point
// messages are non-overtaking per (communicator, source, destination); whether
// a standard send is buffered, when a message becomes visible and in which
// order a reduction is folded is decided by the scheduler.
#include "sim.h"
extern "C" void __wrap_exit(int);
#include "mpi.h"
#include <cstring>
#include <cstdio>
#include <cmath>
#include <algorithm>

struct Comm { int id; std::vector<int> members; std::map<int, int> rankOf; };
struct Msg {
    int comm, src, dst, tag;
    std::vector<char> data;
    const char* ref = nullptr; // rendezvous: still in the sender's buffer
    size_t bytes = 0;
    bool taken = false;        // matched and copied
    bool visible = false;
};
struct SimMpiReq {
    int owner;
    bool isSend;
    Msg* msg = nullptr;       // send
    char* buf = nullptr;      // recv
    size_t cap = 0;
    int comm = 0, src = 0, tag = 0;
    bool done = false;
    int err = MPI_SUCCESS;
    MPI_Status st;
    bool freed = false;
};
struct Chan : Item {
    int comm_, src, dst, id;
    std::deque<Msg*> q;       // not yet taken, in order
    uint64_t hold = 0;
    bool enabled() override { for (Msg* m : q) if (!m->visible) return true; return false; }
    uint64_t when() override { return hold; }
    int key() override { return id; }
    void fire() override;
};
struct Coll {
    int kind; int count; int dt; int op; int root;
    std::map<int, std::vector<char>> in;   // by rank
    std::map<int, std::vector<char>> out;
    std::map<int, std::pair<int,int>> ck;  // color/key
    std::map<int, int> newComm;
    bool complete = false;
    std::vector<char> result;
    int left = 0;
};

static int W;
static std::vector<Comm*> comms;
static std::map<long, Chan*> chans;
static std::vector<SimMpiReq*> posted[MAXNODES];
static std::map<int, std::map<int, int>> collSeq;   // comm -> rank -> seq
static std::map<int, std::map<int, Coll*>> colls;   // comm -> seq -> Coll
static int mpiMode;      // 0 eager, 1 rendezvous, 2 random, 3 size threshold
static int mpiThresh, mpiDelay;
static bool inited[MAXNODES], finalized[MAXNODES];

static int me() { return cur->node->mpiRank; }
static Comm* comm(int c)
{
    for (Comm* x : comms) if (x->id == c) return x;
    violation("mpi", "use of an invalid communicator %d", c);
}
static int rankIn(Comm* c)
{
    auto it = c->rankOf.find(me());
    if (it == c->rankOf.end()) violation("mpi", "use of a communicator this process is no member of");
    return it->second;
}

void mpiStartRun(int n)
{
    W = n;
    mpiMode = (int)spec->cfg.get("mpimode", 0);
    mpiThresh = (int)spec->cfg.get("mpithresh", 64);
    mpiDelay = (int)spec->cfg.get("mpidelay", 0);
    Comm* c = new Comm();
    c->id = MPI_COMM_WORLD;
    for (int i = 0; i < n; i++) { c->members.push_back(i); c->rankOf[i] = i; }
    comms.push_back(c);
}

bool mpiCheckLeftover(std::string& msg)
{
    for (auto& e : chans)
        for (Msg* m : e.second->q)
            if (!m->taken) {
                char b[200];
                snprintf(b, sizeof b, "message of %zu bytes from rank %d to rank %d was never received", m->bytes, m->src, m->dst);
                msg = b;
                return false;
            }
    for (int i = 0; i < W; i++)
        for (SimMpiReq* r : posted[i])
            if (!r->done) { msg = "posted receive never completed"; return false; }
    return true;
}

static size_t tsize(int dt) { return (size_t)(dt & 255); }

static void tryMatch(int dst)
{
    auto& v = posted[dst];
    bool again = true;
    while (again) {
        again = false;
        for (size_t i = 0; i < v.size(); i++) {
            SimMpiReq* r = v[i];
            Comm* c = comm(r->comm);
            // candidate messages: first visible matching one per source
            Msg* best = nullptr;
            Chan* bc = nullptr;
            for (int s = 0; s < (int)c->members.size() && !best; s++) {
                if (r->src != MPI_ANY_SOURCE && r->src != s) continue;
                auto it = chans.find(((long)r->comm * 64 + s) * 64 + c->rankOf[dst]);
                if (it == chans.end()) continue;
                for (Msg* m : it->second->q) {
                    if (!m->visible) break;
                    if (r->tag != MPI_ANY_TAG && r->tag != m->tag) continue;
                    best = m;
                    bc = it->second;
                    break;
                }
            }
            if (!best) continue;
            size_t n = best->bytes;
            if (n > r->cap) {
                r->err = MPI_ERR_TRUNCATE;
                n = r->cap;
            }
            memcpy(r->buf, best->ref ? best->ref : best->data.data(), n);
            r->st.MPI_SOURCE = best->src;
            r->st.MPI_TAG = best->tag;
            r->st.MPI_ERROR = r->err;
            r->st.sim_bytes = n;
            r->done = true;
            best->taken = true;
            bc->q.erase(std::find(bc->q.begin(), bc->q.end(), best));
            v.erase(v.begin() + (long)i);
            logEvent(20, (uint64_t)dst, n);
            again = true;
            break;
        }
    }
}

void Chan::fire()
{
    for (Msg* m : q)
        if (!m->visible) {
            m->visible = true;
            logEvent(21, (uint64_t)id, m->bytes);
            tryMatch(comm(comm_)->members[dst]);
            return;
        }
}

// a process which ran out of memory may use what it did not get: this ends it, not others
static void touch(const void* buf, size_t bytes)
{
    if (!bytes || !cur->node->outOfMem || buf == MPI_IN_PLACE) return;
    volatile const char* p = (volatile const char*)buf;
    (void)p[0];
    (void)p[bytes - 1];
}

static Msg* post(const void* buf, int count, int dt, int dst, int tag, int cm, bool forceRdv, bool immediate)
{
    Comm* c = comm(cm);
    int my = rankIn(c);
    if (dst < 0 || dst >= (int)c->members.size()) violation("mpi", "send to invalid rank %d", dst);
    if (count < 0) violation("mpi", "negative count in send");
    touch(buf, (size_t)count * tsize(dt));
    Msg* m = new Msg();
    m->comm = cm; m->src = my; m->dst = dst; m->tag = tag;
    m->bytes = (size_t)count * tsize(dt);
    uint32_t rdv = forceRdv ? 1 : choose(DK_MPI, 2, [&]() -> uint32_t {
        switch (mpiMode) {
        case 0: return 0;
        case 1: return 1;
        case 2: return drng.below(2);
        default: return m->bytes > (size_t)mpiThresh;
        }
    });
    if (rdv) { m->ref = (const char*)buf; stat(ST_MPI_RDV); }
    else { m->data.assign((const char*)buf, (const char*)buf + m->bytes); stat(ST_MPI_EAGER); }
    long key = ((long)cm * 64 + my) * 64 + dst;
    Chan*& ch = chans[key];
    if (!ch) {
        ch = new Chan();
        ch->comm_ = cm; ch->src = my; ch->dst = dst; ch->id = 5000 + (int)chans.size();
        addItem(ch);
    }
    uint32_t h = choose(DK_HOLD, 65536, [&]() -> uint32_t { return drng.chance(mpiDelay) ? drng.below(2000) : 0; });
    if (h) { ch->hold = now + h; stat(ST_MPI_DELAY); }
    ch->q.push_back(m);
    stat(ST_MSGS);
    stat(ST_BYTES, m->bytes);
    logEvent(22, (uint64_t)key, m->bytes);
    (void)immediate;
    return m;
}

static SimMpiReq* newReq()
{
    SimMpiReq* r = new SimMpiReq();
    r->owner = me();
    memset(&r->st, 0, sizeof r->st);
    return r;
}

static SimMpiReq* postRecv(void* buf, int count, int dt, int src, int tag, int cm)
{
    Comm* c = comm(cm);
    rankIn(c);
    if (src != MPI_ANY_SOURCE && (src < 0 || src >= (int)c->members.size())) violation("mpi", "receive from invalid rank %d", src);
    if (count < 0) violation("mpi", "negative count in receive");
    touch(buf, (size_t)count * tsize(dt));
    SimMpiReq* r = newReq();
    r->isSend = false;
    r->buf = (char*)buf;
    r->cap = (size_t)count * tsize(dt);
    r->comm = cm; r->src = src; r->tag = tag;
    posted[me()].push_back(r);
    tryMatch(me());
    return r;
}

static bool reqDone(SimMpiReq* r) { return r->isSend ? (r->msg->taken || !r->msg->ref) : r->done; }

template <class T> static void fold(T* a, const T* b, int n, int op, bool integral)
{
    for (int i = 0; i < n; i++) {
        switch (op) {
        case MPI_SUM: a[i] = (T)(a[i] + b[i]); break;
        case MPI_PROD: a[i] = (T)(a[i] * b[i]); break;
        case MPI_MIN: if (b[i] < a[i]) a[i] = b[i]; break;
        case MPI_MAX: if (b[i] > a[i]) a[i] = b[i]; break;
        case MPI_LAND: a[i] = (T)(a[i] && b[i]); break;
        case MPI_LOR: a[i] = (T)(a[i] || b[i]); break;
        case MPI_LXOR: a[i] = (T)(!a[i] != !b[i]); break;
        default: {
            uint64_t x = 0, y = 0;
            memcpy(&x, &a[i], sizeof(T));
            memcpy(&y, &b[i], sizeof(T));
            if (op == MPI_BAND) x &= y;
            else if (op == MPI_BOR) x |= y;
            else if (op == MPI_BXOR) x ^= y;
            else violation("mpi", "invalid reduction operation %d", op);
            memcpy(&a[i], &x, sizeof(T));
        }
        }
    }
    (void)integral;
}

static int foldBytes(char* a, const char* b, int n, int dt, int op)
{
    switch (dt) {
    case MPI_INT8_T: fold((int8_t*)a, (const int8_t*)b, n, op, true); break;
    case MPI_INT16_T: fold((int16_t*)a, (const int16_t*)b, n, op, true); break;
    case MPI_INT32_T: fold((uint32_t*)nullptr, (const uint32_t*)nullptr, 0, op, true);
        if (op == MPI_SUM || op == MPI_PROD) fold((uint32_t*)a, (const uint32_t*)b, n, op, true);
        else fold((int32_t*)a, (const int32_t*)b, n, op, true);
        break;
    case MPI_INT64_T:
        if (op == MPI_SUM || op == MPI_PROD) fold((uint64_t*)a, (const uint64_t*)b, n, op, true);
        else fold((int64_t*)a, (const int64_t*)b, n, op, true);
        break;
    case MPI_UINT8_T: fold((uint8_t*)a, (const uint8_t*)b, n, op, true); break;
    case MPI_UINT16_T: fold((uint16_t*)a, (const uint16_t*)b, n, op, true); break;
    case MPI_UINT32_T: fold((uint32_t*)a, (const uint32_t*)b, n, op, true); break;
    case MPI_UINT64_T: fold((uint64_t*)a, (const uint64_t*)b, n, op, true); break;
    case MPI_FLOAT: if (op >= MPI_LAND) return MPI_ERR_OP; fold((float*)a, (const float*)b, n, op, false); break;
    case MPI_DOUBLE: if (op >= MPI_LAND) return MPI_ERR_OP; fold((double*)a, (const double*)b, n, op, false); break;
    default: violation("mpi", "reduction with invalid datatype %x", dt);
    }
    return MPI_SUCCESS;
}

enum { C_BARRIER, C_BCAST, C_REDUCE, C_ALLREDUCE, C_GATHER, C_ALLGATHER, C_SPLIT, C_DUP, C_SCATTER, C_ALLTOALL, C_FINALIZE };

static Coll* enter(int cm, int kind, int count, int dt, int op, int root, const char* in, size_t inBytes, int& my, int& size)
{
    Comm* c = comm(cm);
    my = rankIn(c);
    size = (int)c->members.size();
    int seq = collSeq[cm][my]++;
    Coll*& k = colls[cm][seq];
    if (!k) {
        k = new Coll();
        k->kind = kind; k->count = count; k->dt = dt; k->op = op; k->root = root;
    }
    else if (k->kind != kind || k->count != count || k->dt != dt || k->op != op || k->root != root)
        violation("mpi", "collective operations of the ranks do not match (kind %d/%d count %d/%d type %x/%x op %d/%d root %d/%d)",
                  k->kind, kind, k->count, count, k->dt, dt, k->op, op, k->root, root);
    k->in[my] = std::vector<char>(in, in + inBytes);
    stat(ST_MPI_COLL);
    logEvent(23, (uint64_t)cm * 64 + my, (uint64_t)seq);
    return k;
}

static void waitAll(Coll* k, int size, const char* what)
{
    block([=] { return (int)k->in.size() == size; }, what);
}

extern "C" {

int MPI_Init(int*, char***) { yieldPoint("MPI_Init"); inited[me()] = true; return MPI_SUCCESS; }
int MPI_Init_thread(int*, char***, int r, int* p) { if (p) *p = r; return MPI_Init(0, 0); }
int MPI_Initialized(int* f) { *f = inited[me()]; return MPI_SUCCESS; }
int MPI_Finalized(int* f) { *f = finalized[me()]; return MPI_SUCCESS; }
int MPI_Abort(MPI_Comm, int c) { if (cur->node->outOfMem) __wrap_exit(c ? c : 1); violation("abort", "MPI_Abort called"); }
int MPI_Finalize(void)
{
    int my, size;
    Coll* k = enter(MPI_COMM_WORLD, C_FINALIZE, 0, 0, 0, 0, nullptr, 0, my, size);
    waitAll(k, size, "MPI_Finalize");
    finalized[me()] = true;
    return MPI_SUCCESS;
}

int MPI_Comm_size(MPI_Comm c, int* s) { *s = (int)comm(c)->members.size(); return MPI_SUCCESS; }
int MPI_Comm_rank(MPI_Comm c, int* r) { *r = rankIn(comm(c)); return MPI_SUCCESS; }
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler) { return MPI_SUCCESS; }
int MPI_Comm_free(MPI_Comm* c) { *c = MPI_COMM_NULL; return MPI_SUCCESS; }
int MPI_Get_processor_name(char* n, int* l) { *l = sprintf(n, "host%d", cur->node->host); return MPI_SUCCESS; }
int MPI_Error_string(int e, char* s, int* l) { *l = snprintf(s, MPI_MAX_ERROR_STRING, "simulated MPI error %d", e); return MPI_SUCCESS; }
int MPI_Type_size(MPI_Datatype d, int* s) { *s = (int)tsize(d); return MPI_SUCCESS; }
double MPI_Wtime(void) { return (double)now / 1e6; }
double MPI_Wtick(void) { return 1e-6; }

static int split(MPI_Comm cm, int color, int key, MPI_Comm* out, int kind)
{
    int my, size;
    Coll* k = enter(cm, kind, 0, 0, 0, 0, nullptr, 0, my, size);
    k->ck[my] = { color, key };
    waitAll(k, size, "MPI_Comm_split");
    if (!k->complete) {
        k->complete = true;
        Comm* c = comm(cm);
        std::set<int> colors;
        for (auto& e : k->ck) if (e.second.first != MPI_UNDEFINED) colors.insert(e.second.first);
        for (int col : colors) {
            std::vector<std::pair<int, int>> v;
            for (auto& e : k->ck) if (e.second.first == col) v.push_back({ e.second.second, e.first });
            std::sort(v.begin(), v.end());
            Comm* n = new Comm();
            n->id = 10 + (int)comms.size();
            for (auto& e : v) {
                n->rankOf[c->members[e.second]] = (int)n->members.size();
                n->members.push_back(c->members[e.second]);
                k->newComm[e.second] = n->id;
            }
            comms.push_back(n);
        }
    }
    *out = k->newComm.count(my) ? k->newComm[my] : MPI_COMM_NULL;
    return MPI_SUCCESS;
}
int MPI_Comm_split(MPI_Comm cm, int color, int key, MPI_Comm* out) { yieldPoint("MPI_Comm_split"); return split(cm, color, key, out, C_SPLIT); }
int MPI_Comm_dup(MPI_Comm cm, MPI_Comm* out) { yieldPoint("MPI_Comm_dup"); return split(cm, 0, 0, out, C_DUP); }

int MPI_Send(const void* b, int n, MPI_Datatype dt, int dst, int tag, MPI_Comm c)
{
    yieldPoint("MPI_Send");
    Msg* m = post(b, n, dt, dst, tag, c, false, false);
    if (m->ref) block([=] { return m->taken; }, "MPI_Send (rendezvous)");
    return MPI_SUCCESS;
}
int MPI_Ssend(const void* b, int n, MPI_Datatype dt, int dst, int tag, MPI_Comm c)
{
    yieldPoint("MPI_Ssend");
    Msg* m = post(b, n, dt, dst, tag, c, true, false);
    block([=] { return m->taken; }, "MPI_Ssend");
    return MPI_SUCCESS;
}
int MPI_Recv(void* b, int n, MPI_Datatype dt, int src, int tag, MPI_Comm c, MPI_Status* st)
{
    yieldPoint("MPI_Recv");
    SimMpiReq* r = postRecv(b, n, dt, src, tag, c);
    if (!r->done) block([=] { return r->done; }, "MPI_Recv");
    if (st) *st = r->st;
    return r->err;
}
int MPI_Isend(const void* b, int n, MPI_Datatype dt, int dst, int tag, MPI_Comm c, MPI_Request* q)
{
    yieldPoint("MPI_Isend");
    SimMpiReq* r = newReq();
    r->isSend = true;
    r->msg = post(b, n, dt, dst, tag, c, false, true);
    *q = r;
    cur->node->mpiReqs++;
    return MPI_SUCCESS;
}
int MPI_Issend(const void* b, int n, MPI_Datatype dt, int dst, int tag, MPI_Comm c, MPI_Request* q)
{
    yieldPoint("MPI_Issend");
    SimMpiReq* r = newReq();
    r->isSend = true;
    r->msg = post(b, n, dt, dst, tag, c, true, true);
    *q = r;
    cur->node->mpiReqs++;
    return MPI_SUCCESS;
}
int MPI_Irecv(void* b, int n, MPI_Datatype dt, int src, int tag, MPI_Comm c, MPI_Request* q)
{
    yieldPoint("MPI_Irecv");
    *q = postRecv(b, n, dt, src, tag, c);
    cur->node->mpiReqs++;
    return MPI_SUCCESS;
}
int MPI_Wait(MPI_Request* q, MPI_Status* st)
{
    yieldPoint("MPI_Wait");
    SimMpiReq* r = *q;
    if (!r) return MPI_SUCCESS;
    if (r->owner != me()) violation("mpi", "wait on a request of another process");
    if (r->freed) violation("mpi", "request used after its completion");
    if (!reqDone(r)) block([=] { return reqDone(r); }, r->isSend ? "MPI_Wait (send)" : "MPI_Wait (receive)");
    if (st) *st = r->st;
    *q = MPI_REQUEST_NULL;
    r->freed = true;
    cur->node->mpiReqs--;
    return r->err;
}
int MPI_Waitall(int n, MPI_Request* q, MPI_Status* st)
{
    int err = MPI_SUCCESS;
    for (int i = 0; i < n; i++) {
        int e = MPI_Wait(&q[i], st ? &st[i] : nullptr);
        if (e != MPI_SUCCESS) err = e;
    }
    return err;
}
int MPI_Waitany(int n, MPI_Request* q, int* idx, MPI_Status* st)
{
    yieldPoint("MPI_Waitany");
    bool any = false;
    for (int i = 0; i < n; i++) any |= q[i] != nullptr;
    if (!any) { *idx = MPI_UNDEFINED; return MPI_SUCCESS; }
    block([=] { for (int i = 0; i < n; i++) if (q[i] && reqDone(q[i])) return true; return false; }, "MPI_Waitany");
    for (int i = 0; i < n; i++)
        if (q[i] && reqDone(q[i])) { *idx = i; return MPI_Wait(&q[i], st); }
    return MPI_ERR_OTHER;
}
int MPI_Test(MPI_Request* q, int* flag, MPI_Status* st)
{
    yieldPoint("MPI_Test");
    SimMpiReq* r = *q;
    if (!r) { *flag = 1; return MPI_SUCCESS; }
    *flag = reqDone(r);
    if (!*flag) return MPI_SUCCESS;
    if (st) *st = r->st;
    *q = MPI_REQUEST_NULL;
    r->freed = true;
    cur->node->mpiReqs--;
    return r->err;
}
int MPI_Testall(int n, MPI_Request* q, int* flag, MPI_Status* st)
{
    yieldPoint("MPI_Testall");
    *flag = 1;
    for (int i = 0; i < n; i++) if (q[i] && !reqDone(q[i])) *flag = 0;
    if (*flag) return MPI_Waitall(n, q, st);
    return MPI_SUCCESS;
}
int MPI_Request_free(MPI_Request* q) { *q = MPI_REQUEST_NULL; return MPI_SUCCESS; }
int MPI_Sendrecv(const void* sb, int sn, MPI_Datatype sdt, int dst, int stag, void* rb, int rn, MPI_Datatype rdt, int src, int rtag, MPI_Comm c, MPI_Status* st)
{
    MPI_Request rq[2];
    MPI_Irecv(rb, rn, rdt, src, rtag, c, &rq[0]);
    MPI_Isend(sb, sn, sdt, dst, stag, c, &rq[1]);
    int e = MPI_Wait(&rq[0], st);
    MPI_Wait(&rq[1], nullptr);
    return e;
}
static Msg* findMsg(int src, int tag, int cm)
{
    Comm* c = comm(cm);
    int my = rankIn(c);
    for (int s = 0; s < (int)c->members.size(); s++) {
        if (src != MPI_ANY_SOURCE && src != s) continue;
        auto it = chans.find(((long)cm * 64 + s) * 64 + my);
        if (it == chans.end()) continue;
        for (Msg* m : it->second->q) {
            if (!m->visible) break;
            if (tag == MPI_ANY_TAG || tag == m->tag) return m;
        }
    }
    return nullptr;
}
int MPI_Iprobe(int src, int tag, MPI_Comm c, int* flag, MPI_Status* st)
{
    yieldPoint("MPI_Iprobe");
    Msg* m = findMsg(src, tag, c);
    *flag = m != nullptr;
    if (m && st) { memset(st, 0, sizeof *st); st->MPI_SOURCE = m->src; st->MPI_TAG = m->tag; st->sim_bytes = m->bytes; }
    return MPI_SUCCESS;
}
int MPI_Probe(int src, int tag, MPI_Comm c, MPI_Status* st)
{
    yieldPoint("MPI_Probe");
    block([=] { return findMsg(src, tag, c) != nullptr; }, "MPI_Probe");
    int f;
    return MPI_Iprobe(src, tag, c, &f, st);
}
int MPI_Get_count(const MPI_Status* st, MPI_Datatype dt, int* n)
{
    size_t s = tsize(dt);
    *n = (st->sim_bytes % s) ? MPI_UNDEFINED : (int)(st->sim_bytes / s);
    return MPI_SUCCESS;
}
int MPI_Barrier(MPI_Comm c)
{
    yieldPoint("MPI_Barrier");
    int my, size;
    Coll* k = enter(c, C_BARRIER, 0, 0, 0, 0, nullptr, 0, my, size);
    waitAll(k, size, "MPI_Barrier");
    return MPI_SUCCESS;
}
int MPI_Bcast(void* b, int n, MPI_Datatype dt, int root, MPI_Comm c)
{
    yieldPoint("MPI_Bcast");
    int my, size;
    Coll* k = enter(c, C_BCAST, (int)(n * tsize(dt)), 0, 0, root, (char*)b, n * tsize(dt), my, size);
    if (my == root) return MPI_SUCCESS;
    block([=] { return k->in.count(root) > 0; }, "MPI_Bcast");
    memcpy(b, k->in[root].data(), n * tsize(dt));
    return MPI_SUCCESS;
}
static int doReduce(Coll* k, int size, int n, int dt, int op)
{
    if (k->complete) return MPI_SUCCESS;
    uint32_t rot = choose(DK_MPIORD, (uint32_t)size, [&] { return drng.below((uint32_t)size); });
    k->result = k->in[(int)rot];
    for (int i = 1; i < size; i++) {
        int e = foldBytes(k->result.data(), k->in[(int)(rot + i) % size].data(), n, dt, op);
        if (e != MPI_SUCCESS) return e;
    }
    k->complete = true;
    return MPI_SUCCESS;
}
static int checkOp(int dt, int op)
{
    if (op < MPI_SUM || op > MPI_BXOR) return MPI_ERR_OP;
    if ((dt >> 8) == 3 && op >= MPI_LAND) return MPI_ERR_OP;
    return MPI_SUCCESS;
}
int MPI_Allreduce(const void* s, void* r, int n, MPI_Datatype dt, MPI_Op op, MPI_Comm c)
{
    yieldPoint("MPI_Allreduce");
    if (checkOp(dt, op)) return MPI_ERR_OP;
    touch(s, n * tsize(dt));
    touch(r, n * tsize(dt));
    if (s == r && n > 0) violation("mpi", "send and receive buffer of MPI_Allreduce are the same");
    const char* in = s == MPI_IN_PLACE ? (const char*)r : (const char*)s;
    int my, size;
    Coll* k = enter(c, C_ALLREDUCE, n, dt, op, 0, in, n * tsize(dt), my, size);
    waitAll(k, size, "MPI_Allreduce");
    int e = doReduce(k, size, n, dt, op);
    if (e) return e;
    memcpy(r, k->result.data(), n * tsize(dt));
    return MPI_SUCCESS;
}
int MPI_Reduce(const void* s, void* r, int n, MPI_Datatype dt, MPI_Op op, int root, MPI_Comm c)
{
    yieldPoint("MPI_Reduce");
    if (checkOp(dt, op)) return MPI_ERR_OP;
    int rk = rankIn(comm(c));
    touch(s, n * tsize(dt));
    if (rk == root) touch(r, n * tsize(dt));
    if (s == MPI_IN_PLACE && rk != root) violation("mpi", "MPI_IN_PLACE in MPI_Reduce at a non-root process");
    if (rk == root && s == r && n > 0) violation("mpi", "send and receive buffer of MPI_Reduce are the same");
    const char* in = s == MPI_IN_PLACE ? (const char*)r : (const char*)s;
    int my, size;
    Coll* k = enter(c, C_REDUCE, n, dt, op, root, in, n * tsize(dt), my, size);
    if (my == root || fault(DK_MISC, mpiMode == 1 ? 1000 : mpiMode == 2 ? 500 : 0)) waitAll(k, size, "MPI_Reduce");
    if (my != root) return MPI_SUCCESS;
    int e = doReduce(k, size, n, dt, op);
    if (e) return e;
    memcpy(r, k->result.data(), n * tsize(dt));
    return MPI_SUCCESS;
}
int MPI_Gather(const void* s, int sn, MPI_Datatype sdt, void* r, int, MPI_Datatype, int root, MPI_Comm c)
{
    yieldPoint("MPI_Gather");
    int my, size;
    size_t b = sn * tsize(sdt);
    Coll* k = enter(c, C_GATHER, (int)b, 0, 0, root, s == MPI_IN_PLACE ? (char*)r + (size_t)root * b : (const char*)s, b, my, size);
    if (my != root) return MPI_SUCCESS;
    waitAll(k, size, "MPI_Gather");
    for (int i = 0; i < size; i++) memcpy((char*)r + (size_t)i * b, k->in[i].data(), b);
    return MPI_SUCCESS;
}
int MPI_Gatherv(const void* s, int sn, MPI_Datatype sdt, void* r, const int* rn, const int* disp, MPI_Datatype rdt, int root, MPI_Comm c)
{
    yieldPoint("MPI_Gatherv");
    int my, size;
    Coll* k = enter(c, C_GATHER, -1, 0, 0, root, (const char*)s, sn * tsize(sdt), my, size);
    if (my != root) return MPI_SUCCESS;
    waitAll(k, size, "MPI_Gatherv");
    for (int i = 0; i < size; i++) {
        if (k->in[i].size() > rn[i] * tsize(rdt)) return MPI_ERR_TRUNCATE;
        memcpy((char*)r + disp[i] * tsize(rdt), k->in[i].data(), k->in[i].size());
    }
    return MPI_SUCCESS;
}
int MPI_Allgather(const void* s, int sn, MPI_Datatype sdt, void* r, int rn, MPI_Datatype rdt, MPI_Comm c)
{
    yieldPoint("MPI_Allgather");
    int my, size;
    size_t b = s == MPI_IN_PLACE ? rn * tsize(rdt) : sn * tsize(sdt);
    const char* in = s == MPI_IN_PLACE ? (char*)r + (size_t)rankIn(comm(c)) * b : (const char*)s;
    Coll* k = enter(c, C_ALLGATHER, (int)b, 0, 0, 0, in, b, my, size);
    waitAll(k, size, "MPI_Allgather");
    for (int i = 0; i < size; i++) memcpy((char*)r + (size_t)i * b, k->in[i].data(), b);
    return MPI_SUCCESS;
}
int MPI_Allgatherv(const void* s, int sn, MPI_Datatype sdt, void* r, const int* rn, const int* disp, MPI_Datatype rdt, MPI_Comm c)
{
    yieldPoint("MPI_Allgatherv");
    int my, size, rk = rankIn(comm(c));
    const char* in = s == MPI_IN_PLACE ? (char*)r + disp[rk] * tsize(rdt) : (const char*)s;
    size_t b = s == MPI_IN_PLACE ? rn[rk] * tsize(rdt) : sn * tsize(sdt);
    Coll* k = enter(c, C_ALLGATHER, -1, 0, 0, 0, in, b, my, size);
    waitAll(k, size, "MPI_Allgatherv");
    for (int i = 0; i < size; i++) {
        if (k->in[i].size() > rn[i] * tsize(rdt)) return MPI_ERR_TRUNCATE;
        memcpy((char*)r + disp[i] * tsize(rdt), k->in[i].data(), k->in[i].size());
    }
    return MPI_SUCCESS;
}
int MPI_Scatter(const void* s, int sn, MPI_Datatype sdt, void* r, int rn, MPI_Datatype rdt, int root, MPI_Comm c)
{
    yieldPoint("MPI_Scatter");
    int my, size, rk = rankIn(comm(c));
    int total = (int)comm(c)->members.size();
    size_t b = rn * tsize(rdt);
    Coll* k = enter(c, C_SCATTER, (int)b, 0, 0, root, (const char*)s, rk == root ? (size_t)total * sn * tsize(sdt) : 0, my, size);
    block([=] { return k->in.count(root) > 0; }, "MPI_Scatter");
    if (r != MPI_IN_PLACE) memcpy(r, k->in[root].data() + (size_t)my * b, b);
    return MPI_SUCCESS;
}
int MPI_Alltoall(const void* s, int sn, MPI_Datatype sdt, void* r, int, MPI_Datatype, MPI_Comm c)
{
    yieldPoint("MPI_Alltoall");
    int my, size, total = (int)comm(c)->members.size();
    size_t b = sn * tsize(sdt);
    Coll* k = enter(c, C_ALLTOALL, (int)b, 0, 0, 0, (const char*)s, b * total, my, size);
    waitAll(k, size, "MPI_Alltoall");
    for (int i = 0; i < size; i++) memcpy((char*)r + (size_t)i * b, k->in[i].data() + (size_t)my * b, b);
    return MPI_SUCCESS;
}

} // extern C
