// Per-process interpreter of the workload, and the oracles.
#include "workload.h"
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <cfloat>
#include <climits>
#include <algorithm>
#include <dlfcn.h>

extern "C" void* __wrap_malloc(size_t);
extern "C" void* __wrap_calloc(size_t, size_t);
extern "C" void __wrap_free(void*);
extern std::function<bool()> onDeadlock;
extern std::function<void()> onStep;
void setCrashRate(int);
void setOomRate(int);

bool Api::load(void* h, std::string& err)
{
#define X(f) f = (decltype(f))dlsym(h, #f); if (!f) { err = #f; return false; }
    API_LIST(X)
#undef X
#define X(v) v = (decltype(v))dlsym(h, #v); if (!v) { err = #v; return false; }
    API_VARS(X)
#undef X
#define X(f) f = (decltype(f))dlsym(h, "simnode_" #f); if (!f) { err = #f; return false; }
    X(pack) X(unpack) X(stride) X(section) X(describe) X(simpleagent)
#undef X
    return true;
}

// ------------------------------------------------------------------ state
struct KvModel {
    std::string name;
    // merged view; a key may have several candidate values after concurrent writes
    std::map<std::string, std::vector<std::string>> cand;
};

struct NodeData {
    Laik_Data* d = nullptr;
    char* prov = nullptr;
    size_t provSize = 0;
    size_t provReal = 0;
    int type = 0, layout = 0;
    bool freed = false;
    int res = -1;
};
struct KvState { Laik_KVStore* k = nullptr; std::map<std::string, std::string> mine, pend; std::set<std::string> pendRem;
    std::map<std::string, std::string> cb; std::set<std::string> cbSeen; bool hasCb = false; };

struct NS {
    Node* n = nullptr;
    Api* A = nullptr;
    Laik_Instance* inst = nullptr;
    int lid = -1;
    int startOp = 0;
    std::map<int, Laik_Space*> sp;
    Laik_Allocator* alloc[2] = {};
    std::vector<std::array<size_t, 4>> mem;
    std::map<int, Laik_Group*> gr;
    std::map<int, Laik_Partitioner*> pr;
    std::map<int, Laik_Partitioning*> part;
    std::map<int, NodeData> data;
    std::map<int, Laik_Transition*> tr;
    std::map<int, Laik_ActionSeq*> act;
    std::map<int, Laik_Reservation*> res;
    std::map<int, KvState> kv;
    std::map<int, Laik_Type*> types;
    std::map<void*, size_t> appAlloc;   // application allocator: live blocks
    bool done = false, removed = false, alone = false, exempt = false, initial = false;
    std::vector<std::string> names;
};

struct WorldM {
    std::map<int, Space> spaces;
    std::map<int, GroupP> groups;
    std::map<int, PartP> parts;
    std::map<int, std::vector<std::pair<int, PartP>>> pver; // by operation: migrated versions
    std::map<int, std::vector<std::pair<int, std::shared_ptr<DataM>>>> ver;
    std::map<int, const Op*> defOp;             // id -> creating op
    std::map<int, GroupP> resized;              // op index -> world after the resize
    int pos = 0;
    std::vector<uint64_t> groupHash;
    std::map<int, std::map<std::string, std::string>> kvFinal; // sync op -> agreed contents
    std::map<int, std::string> kvHash;
    int joined = 0, removedCnt = 0;
};
static WorldM W;
static NS ns[MAXNODES];
static std::string backendName;
static int worldSize;
static bool relaxed;      // fault profile: data may be missing, never wrong

static NS* S() { return (NS*)cur->node->user; }
static Api* A() { return S()->A; }

static uint64_t h2(uint64_t a, uint64_t b) { return mix(a, b); }

// ---------------------------------------------------------------- values

struct CRed { int64_t v, chk; };
static const int64_t CREDK = 0x5bd1e995;

static int elemSize(int type)
{
    switch (type) {
    case TK_CHAR: case TK_UCHAR: return 1;
    case TK_INT32: case TK_UINT32: case TK_FLOAT: return 4;
    case TK_INT64: case TK_UINT64: case TK_DOUBLE: return 8;
    case TK_CREDUCE: return sizeof(CRed);
    default: return type - TK_CUSTOM;
    }
}

static void customBytes(char* p, int size, int64_t v)
{
    uint64_t s = (uint64_t)v * 0x9E3779B97F4A7C15ull + 77;
    for (int i = 0; i < size; i++) {
        if ((i & 7) == 0) s = mix(s, i);
        p[i] = (char)(s >> ((i & 7) * 8));
    }
}

static void storeVal(int type, char* p, int64_t v)
{
    switch (type) {
    case TK_CHAR: case TK_UCHAR: *p = (char)v; break;
    case TK_INT32: case TK_UINT32: { int32_t x = (int32_t)v; memcpy(p, &x, 4); break; }
    case TK_INT64: case TK_UINT64: memcpy(p, &v, 8); break;
    case TK_FLOAT: { float f = (float)v; memcpy(p, &f, 4); break; }
    case TK_DOUBLE: { double f = (double)v; memcpy(p, &f, 8); break; }
    case TK_CREDUCE: { CRed c = { v, v * CREDK }; memcpy(p, &c, sizeof c); break; }
    default: customBytes(p, type - TK_CUSTOM, v);
    }
}

static bool sameVal(int type, const char* p, int64_t v)
{
    char b[512];
    storeVal(type, b, v);
    if (type == TK_FLOAT) { float x, y; memcpy(&x, p, 4); memcpy(&y, b, 4); return x == y; }
    if (type == TK_DOUBLE) { double x, y; memcpy(&x, p, 8); memcpy(&y, b, 8); return x == y; }
    return memcmp(p, b, elemSize(type)) == 0;
}

static std::string showVal(int type, const char* p)
{
    char b[200];
    switch (type) {
    case TK_CHAR: snprintf(b, sizeof b, "%d", (int)*(int8_t*)p); break;
    case TK_UCHAR: snprintf(b, sizeof b, "%d", (int)*(uint8_t*)p); break;
    case TK_INT32: { int32_t x; memcpy(&x, p, 4); snprintf(b, sizeof b, "%d", x); break; }
    case TK_UINT32: { uint32_t x; memcpy(&x, p, 4); snprintf(b, sizeof b, "%u", x); break; }
    case TK_INT64: { int64_t x; memcpy(&x, p, 8); snprintf(b, sizeof b, "%lld", (long long)x); break; }
    case TK_UINT64: { uint64_t x; memcpy(&x, p, 8); snprintf(b, sizeof b, "%llu", (unsigned long long)x); break; }
    case TK_FLOAT: { float x; memcpy(&x, p, 4); snprintf(b, sizeof b, "%g", x); break; }
    case TK_DOUBLE: { double x; memcpy(&x, p, 8); snprintf(b, sizeof b, "%g", x); break; }
    default: {
        int n = elemSize(type); if (n > 16) n = 16;
        char* q = b;
        for (int i = 0; i < n; i++) q += sprintf(q, "%02x", (unsigned char)p[i]);
    }
    }
    return b;
}

// value domains: 0 general, 1 small (sums), 2 tiny (products), 3 bit patterns
static int64_t makeVal(int type, int dom, uint64_t h)
{
    switch (dom) {
    case 1: return normVal(type, (type == TK_UCHAR || type == TK_UINT32 || type == TK_UINT64) ? (int64_t)(h % 50) : (int64_t)(h % 81) - 40);
    case 2: { static const int t[4] = { 1, 2, 3, 1 }; return t[h & 3]; }
    case 3: return normVal(type, (int64_t)((h >> 7) | 0x10));
    }
    switch (type) {
    case TK_FLOAT: return (int64_t)(h % 2000001) - 1000000;
    case TK_DOUBLE: return (int64_t)(h % 2000000000001ull) - 1000000000000ll;
    case TK_INT64: case TK_UINT64: return (int64_t)h;
    default:
        if (type >= TK_CUSTOM) return (int64_t)(h & 0xffffffff);
        return normVal(type, (int64_t)h);
    }
}

static int64_t writeVal(int type, int dom, int mode, int op, int lid, int64_t lin)
{
    uint64_t h = h2(h2((uint64_t)op * 1000003 + 17, (uint64_t)lin), mode == 0 ? 7777 : (uint64_t)lid);
    return makeVal(type, dom, h);
}
static bool writeSel(int mode, int op, int lid, int64_t lin)
{
    if (mode < 2) return true;
    return (h2(h2(op, lin), lid + 99) % 100) < 40;
}

static int64_t reduceVals(int type, int red, int64_t a, int64_t b)
{
    bool un = type == TK_UCHAR || type == TK_UINT32 || type == TK_UINT64;
    switch (red) {
    case LAIK_RO_Sum: return normVal(type, (int64_t)((uint64_t)a + (uint64_t)b));
    case LAIK_RO_Prod: return normVal(type, (int64_t)((uint64_t)a * (uint64_t)b));
    case LAIK_RO_Min: if (un) return (uint64_t)a < (uint64_t)b ? a : b; return a < b ? a : b;
    case LAIK_RO_Max: if (un) return (uint64_t)a > (uint64_t)b ? a : b; return a > b ? a : b;
    case LAIK_RO_And: return a & b;
    case LAIK_RO_Or: return a | b;
    }
    return a;
}

static bool isRed(int red) { return red >= LAIK_RO_Sum && red <= LAIK_RO_Or; }

static bool neutralVal(int type, int red, int64_t& v)
{
    bool un = type == TK_UCHAR || type == TK_UINT32 || type == TK_UINT64;
    int bits = elemSize(type) * 8;
    if (type == TK_CREDUCE) { v = 0; return red == LAIK_RO_Sum; }
    if (type >= TK_CUSTOM) return false;
    bool fl = type == TK_FLOAT || type == TK_DOUBLE;
    switch (red) {
    case LAIK_RO_Sum: v = 0; return true;
    case LAIK_RO_Prod: v = 1; return true;
    case LAIK_RO_Or: if (fl) return false; v = 0; return true;
    case LAIK_RO_And: if (fl) return false; v = normVal(type, -1); return true;
    case LAIK_RO_Min:
        if (fl) return false;
        v = un ? normVal(type, -1) : (bits == 64 ? INT64_MAX : (1ll << (bits - 1)) - 1);
        return true;
    case LAIK_RO_Max:
        if (fl) return false;
        v = un ? 0 : (bits == 64 ? INT64_MIN : -(1ll << (bits - 1)));
        return true;
    }
    return false;
}

static bool exactOk(int type, int64_t v)
{
    if (type == TK_FLOAT) return v <= (1 << 24) && v >= -(1 << 24);
    if (type == TK_DOUBLE) return v <= (1ll << 52) && v >= -(1ll << 52);
    return true;
}

// -------------------------------------------------------------- data model

static std::shared_ptr<DataM> dataAt(int id, int op)
{
    auto& v = W.ver[id];
    for (size_t i = v.size(); i > 0; i--)
        if (v[i - 1].first <= op) return v[i - 1].second;
    return nullptr;
}
static std::shared_ptr<DataM> newVer(int id, int op)
{
    auto c = std::make_shared<DataM>();
    auto p = dataAt(id, op);
    if (p) *c = *p;
    W.ver[id].push_back({ op, c });
    return c;
}

static void applySwitch(DataM& d, PartP to, int partId, int flow, int red)
{
    std::map<int, Cells> nc;
    std::map<std::pair<int, int64_t>, std::vector<int64_t>> na;
    int64_t N = d.space.size();
    if (to) {
        auto& to_o = to->owners();
        for (int l : to->group->lids) {
            auto& c = nc[l];
            c.v.assign(N, 0);
            c.st.assign(N, 0);
        }
        for (int64_t i = 0; i < N; i++) {
            if (to_o[i].empty()) continue;
            if (flow == LAIK_DF_Preserve && d.part) {
                auto& F = d.part->owners()[i];
                if (F.empty()) continue;
                if (isRed(red)) {
                    bool ok = true;
                    int64_t v = 0;
                    bool first = true, big = false;
                    for (int l : F) {
                        Cells& c = d.cells[l];
                        if (c.st[i] == 3 || c.st[i] == 4) { ok = false; break; }
                        if (c.st[i] != 1) { ok = false; break; }
                        int64_t dummy;
                        if (!first && red == LAIK_RO_Prod && (d.type == TK_FLOAT || d.type == TK_DOUBLE) && __builtin_mul_overflow(v, c.v[i], &dummy)) big = true;
                        v = first ? c.v[i] : reduceVals(d.type, red, v, c.v[i]);
                        if (!exactOk(d.type, v)) big = true;
                        first = false;
                    }
                    if (!ok || big) continue;
                    for (int l : to_o[i]) { nc[l].v[i] = v; nc[l].st[i] = 1; }
                }
                else {
                    // any-of for processes which did not own the index before
                    bool same = true, undef = false;
                    std::vector<int64_t> cand;
                    for (int l : F) {
                        Cells& c = d.cells[l];
                        if (c.st[i] != 1) { undef = true; continue; }
                        if (std::find(cand.begin(), cand.end(), c.v[i]) == cand.end()) cand.push_back(c.v[i]);
                    }
                    same = cand.size() == 1 && !undef;
                    for (int l : to_o[i]) {
                        bool own = std::find(F.begin(), F.end(), l) != F.end();
                        if (own && red == LAIK_RO_None && d.space.dims == 1) {
                            nc[l].v[i] = d.cells[l].v[i];
                            nc[l].st[i] = d.cells[l].st[i];
                            if (nc[l].st[i] == 2) na[{ l, i }] = d.alts[{ l, i }];
                        }
                        else if (same) { nc[l].v[i] = cand[0]; nc[l].st[i] = 1; }
                        else if (!undef) { nc[l].st[i] = 2; na[{ l, i }] = cand; }
                    }
                }
            }
            else if (flow == LAIK_DF_Init && isRed(red)) {
                int64_t v;
                if (neutralVal(d.type, red, v))
                    for (int l : to_o[i]) { nc[l].v[i] = v; nc[l].st[i] = 1; }
                else if ((d.type == TK_FLOAT || d.type == TK_DOUBLE) && (red == LAIK_RO_Min || red == LAIK_RO_Max))
                    for (int l : to_o[i]) nc[l].st[i] = red == LAIK_RO_Min ? 3 : 4;
            }
        }
    }
    d.cells.swap(nc);
    d.alts.swap(na);
    d.part = to;
    d.partId = partId;
}

static void applyWrite(DataM& d, int op, int mode, int dom)
{
    if (!d.part) return;
    int64_t N = d.space.size();
    for (int l : d.part->group->lids) {
        auto& has = d.part->hasOf(l);
        auto& c = d.cells[l];
        for (int64_t i = 0; i < N; i++) {
            if (!has[i] || !writeSel(mode, op, l, i)) continue;
            c.v[i] = writeVal(d.type, dom, mode, op, l, i);
            c.st[i] = 1;
        }
    }
    if (mode < 2) d.alts.clear();
}

// ---------------------------------------------------------- application side

static Laik_Type* typeOf(int tk)
{
    NS* s = S();
    Api* a = s->A;
    switch (tk) {
    case TK_CHAR: return *a->laik_Char;
    case TK_UCHAR: return *a->laik_UChar;
    case TK_INT32: return *a->laik_Int32;
    case TK_UINT32: return *a->laik_UInt32;
    case TK_INT64: return *a->laik_Int64;
    case TK_UINT64: return *a->laik_UInt64;
    case TK_FLOAT: return *a->laik_Float;
    case TK_DOUBLE: return *a->laik_Double;
    }
    auto it = s->types.find(tk);
    if (it != s->types.end()) return it->second;
    char nm[40];
    snprintf(nm, sizeof nm, "custom%d", tk);
    char* keep = (char*)__wrap_malloc(strlen(nm) + 1);
    strcpy(keep, nm);
    Laik_Type* t = a->laik_type_register(keep, elemSize(tk));
    if (tk == TK_CREDUCE) {
        a->laik_type_set_init(t, [](void* base, int count, Laik_ReductionOperation) {
            CRed* c = (CRed*)base;
            for (int i = 0; i < count; i++) { c[i].v = 0; c[i].chk = 0; }
        });
        a->laik_type_set_reduce(t, [](void* out, const void* in1, const void* in2, int count, Laik_ReductionOperation o) {
            CRed* r = (CRed*)out;
            const CRed *x = (const CRed*)in1, *y = (const CRed*)in2;
            for (int i = 0; i < count; i++) {
                int64_t v;
                if (x[i].chk != x[i].v * CREDK || y[i].chk != y[i].v * CREDK)
                    violation("reduce", "user reduction function got a damaged input element");
                v = reduceVals(TK_INT64, o, x[i].v, y[i].v);
                r[i].v = v;
                r[i].chk = v * CREDK;
            }
        });
    }
    s->types[tk] = t;
    return t;
}

// own partitioners -------------------------------------------------------
static void customRun(Laik_RangeReceiver* r, Laik_PartitionerParams* p)
{
    Api* a = A();
    const Op* o = (const Op*)a->laik_partitioner_data(p->partitioner);
    // prtr id kind flags dims n (task tag f0 t0 f1 t1 f2 t2)*
    int dims = (int)o->a[3];
    int64_t n = o->a[4];
    int size = a->laik_size(p->group);
    for (int64_t i = 0; i < n; i++) {
        const int64_t* e = &o->a[5 + i * 8];
        if (e[0] >= size) continue;
        Laik_Range g;
        if (dims == 1) a->laik_range_init_1d(&g, p->space, e[2], e[3]);
        else if (dims == 2) a->laik_range_init_2d(&g, p->space, e[2], e[3], e[4], e[5]);
        else a->laik_range_init_3d(&g, p->space, e[2], e[3], e[4], e[5], e[6], e[7]);
        a->laik_append_range(r, (int)e[0], &g, (int)e[1], nullptr);
    }
}
static void singleIdxRun(Laik_RangeReceiver* r, Laik_PartitionerParams* p)
{
    Api* a = A();
    const Op* o = (const Op*)a->laik_partitioner_data(p->partitioner);
    // prtr id kind flags n (task idx)*
    int size = a->laik_size(p->group);
    for (int64_t i = 0; i < o->a[3]; i++) {
        const int64_t* e = &o->a[4 + i * 2];
        if (e[0] >= size) continue;
        a->laik_append_index_1d(r, (int)e[0], e[1]);
    }
}

struct WSpec { int mode; uint64_t seed; };
static double idxWeight(Laik_Index* i, const void* u)
{
    const WSpec* w = (const WSpec*)u;
    switch (w->mode) {
    case 1: return 1.0 + (double)(mix(w->seed, (uint64_t)i->i[0]) % 5);
    case 2: return (mix(w->seed, (uint64_t)i->i[0]) % 3) ? 1.0 : 0.0;
    case 3: return 0.1 * (double)(1 + mix(w->seed, (uint64_t)i->i[0]) % 9);
    }
    return 1.0;
}
static double taskWeight(int rank, const void* u)
{
    const WSpec* w = (const WSpec*)u;
    return 1.0 + (double)(mix(w->seed ^ 0x77, (uint64_t)rank) % 4);
}

// own layouts ---------------------------------------------------------------
struct MyLayout {
    Laik_Layout h;
    int kind;
    int n;
    Laik_Range r[1];
};
static int64_t rsize(const Laik_Range& r, int dims)
{
    int64_t s = r.to.i[0] - r.from.i[0];
    if (dims > 1) s *= r.to.i[1] - r.from.i[1];
    if (dims > 2) s *= r.to.i[2] - r.from.i[2];
    return s;
}
static int64_t myOffset(Laik_Layout* l, int sec, Laik_Index* idx)
{
    MyLayout* m = (MyLayout*)l;
    int dims = l->dims;
    if (sec < 0 || sec >= m->n) violation("layout", "layout offset requested for section %d of %d", sec, m->n);
    Laik_Range& r = m->r[sec];
    int64_t e[3] = { 1, 1, 1 }, x[3] = { 0, 0, 0 };
    for (int i = 0; i < dims; i++) {
        e[i] = r.to.i[i] - r.from.i[i];
        x[i] = idx->i[i] - r.from.i[i];
        if (x[i] < 0 || x[i] >= e[i]) violation("layout", "layout offset requested for an index outside of its range");
    }
    if (m->kind == 2) return x[2] + e[2] * (x[1] + e[1] * x[0]);   // last dimension first
    int64_t lin = x[0] + e[0] * (x[1] + e[1] * x[2]);
    return rsize(r, dims) - 1 - lin;                                // reversed
}
static int myMapno(Laik_Layout*, int n) { return n; }
static int mySection(Laik_Layout* l, Laik_Index* idx)
{
    MyLayout* m = (MyLayout*)l;
    for (int i = 0; i < m->n; i++) {
        bool in = true;
        for (int d = 0; d < l->dims; d++)
            if (idx->i[d] < m->r[i].from.i[d] || idx->i[d] >= m->r[i].to.i[d]) in = false;
        if (in) return i;
    }
    return -1;
}
static Laik_Layout* makeLayout(int kind, int n, Laik_Range* ranges)
{
    MyLayout* m = (MyLayout*)__wrap_malloc(sizeof(MyLayout) + n * sizeof(Laik_Range));
    if (!m) return nullptr;
    int dims = A()->laik_space_getdimensions(ranges->space);
    uint64_t cnt = 0;
    for (int i = 0; i < n; i++) { m->r[i] = ranges[i]; cnt += rsize(ranges[i], dims); }
    m->kind = kind;
    m->n = n;
    A()->laik_init_layout(&m->h, dims, n, cnt, mySection, myMapno, myOffset, nullptr, nullptr, nullptr, nullptr, nullptr);
    return &m->h;
}
static Laik_Layout* layoutRev(int n, Laik_Range* r) { return makeLayout(1, n, r); }
static Laik_Layout* layoutCol(int n, Laik_Range* r) { return makeLayout(2, n, r); }

// own allocator ---------------------------------------------------------------
static void* appMalloc(Laik_Data*, size_t size)
{
    NS* s = S();
    char* p = (char*)__wrap_malloc(size + 64);
    if (!p) return nullptr;
    memset(p, 0x77, size + 64);
    s->appAlloc[p + 32] = size;
    return p + 32;
}
static void appFree(Laik_Data*, void* q)
{
    NS* s = S();
    auto it = s->appAlloc.find(q);
    if (it == s->appAlloc.end()) violation("allocator", "application allocator: free of a block it did not hand out or already freed");
    char* p = (char*)q;
    for (int i = 0; i < 32; i++)
        if (p[-1 - i] != 0x77 || p[it->second + i] != 0x77)
            violation("allocator", "write outside of a block from the application allocator (%zu bytes)", it->second);
    s->appAlloc.erase(it);
    __wrap_free(p - 32);
}
static void checkAppAllocs(NS* s)
{
    for (auto& e : s->appAlloc) {
        char* p = (char*)e.first;
        for (int i = 0; i < 32; i++)
            if (p[-1 - i] != 0x77 || p[e.second + i] != 0x77)
                violation("allocator", "write outside of a block from the application allocator (%zu bytes)", e.second);
    }
}

// ------------------------------------------------------------- access to data

struct Visit { int64_t lin; char* addr; };

static void visitData(int id, int path, std::vector<Visit>& out)
{
    NS* s = S();
    Api* a = s->A;
    NodeData& nd = s->data[id];
    Laik_Partitioning* p = a->laik_data_get_partitioning(nd.d);
    if (!p) return;
    Space& sp = W.spaces[(int)W.defOp[id]->a[1]];
    if (a->laik_myid(a->laik_partitioning_get_group(p)) < 0) return;
    int es = elemSize(nd.type);
    int maps = a->laik_my_mapcount(p);
    for (int m = 0; m < maps; m++) {
        int rc = a->laik_my_maprangecount(p, m);
        int64_t bf[3] = { INT64_MAX, INT64_MAX, INT64_MAX }, bt[3] = { INT64_MIN, INT64_MIN, INT64_MIN };
        std::vector<Rg> rs;
        for (int i = 0; i < rc; i++) {
            const Laik_Range* r = a->laik_taskrange_get_range(a->laik_my_maprange(p, m, i));
            Rg g;
            for (int d = 0; d < 3; d++) {
                g.f[d] = d < sp.dims ? r->from.i[d] : 0;
                g.t[d] = d < sp.dims ? r->to.i[d] : 1;
                bf[d] = std::min(bf[d], g.f[d]);
                bt[d] = std::max(bt[d], g.t[d]);
            }
            rs.push_back(g);
        }
        if (rs.empty()) continue;
        char* base = nullptr;
        uint64_t xs = 0, ys = 1, zs = 1, yst = 0, zst = 0;
        int pm = path;
        if (nd.layout != 0) pm = 0;
        if (pm == 1 || pm == 2) {
            Laik_Mapping* mp;
            if (sp.dims == 1) mp = a->laik_get_map_1d(nd.d, m, (void**)&base, &xs);
            else if (sp.dims == 2) mp = a->laik_get_map_2d(nd.d, m, (void**)&base, &ys, &yst, &xs);
            else mp = a->laik_get_map_3d(nd.d, m, (void**)&base, &zs, &zst, &ys, &yst, &xs);
            if (!mp) violation("access", "no mapping %d for container %d", m, id);
            // any of the results may be of no interest
            uint64_t x2 = 77;
            Laik_Mapping* mp2 = sp.dims == 1 ? a->laik_get_map_1d(nd.d, m, nullptr, &x2) : sp.dims == 2 ? a->laik_get_map_2d(nd.d, m, nullptr, nullptr, nullptr, &x2) : a->laik_get_map_3d(nd.d, m, nullptr, nullptr, nullptr, nullptr, nullptr, &x2);
            if (mp2 != mp || x2 != xs) violation("access", "mapping %d of container %d is described differently when only the size is asked for", m, id);
            void* b2 = nullptr;
            mp2 = sp.dims == 1 ? a->laik_get_map_1d(nd.d, m, &b2, nullptr) : sp.dims == 2 ? a->laik_get_map_2d(nd.d, m, &b2, nullptr, nullptr, nullptr) : a->laik_get_map_3d(nd.d, m, &b2, nullptr, nullptr, nullptr, nullptr, nullptr);
            if (mp2 != mp || b2 != base) violation("access", "mapping %d of container %d is described differently when only the address is asked for", m, id);
            if (a->laik_map_get_mapNo(mp) != m) violation("access", "mapping %d reports number %d", m, a->laik_map_get_mapNo(mp));
            if ((int64_t)xs != bt[0] - bf[0] || (sp.dims > 1 && (int64_t)ys != bt[1] - bf[1]) || (sp.dims > 2 && (int64_t)zs != bt[2] - bf[2]))
                violation("access", "mapping %d of container %d reports size %llu/%llu/%llu", m, id,
                          (unsigned long long)xs, (unsigned long long)ys, (unsigned long long)zs);
        }
        for (auto& g : rs) {
            int64_t i[3];
            for (i[2] = g.f[2]; i[2] < g.t[2]; i[2]++)
                for (i[1] = g.f[1]; i[1] < g.t[1]; i[1]++)
                    for (i[0] = g.f[0]; i[0] < g.t[0]; i[0]++) {
                        char* ad;
                        if (pm == 2 && sp.dims == 1) {
                            int mn = -2;
                            uint64_t li = 0;
                            Laik_Mapping* mp = a->laik_global2maplocal_1d(nd.d, i[0], &mn, &li);
                            if (!mp) violation("access", "index %lld: owned, but no mapping found", (long long)i[0]);
                            if (mn != m) {
                                // another mapping of this process covers it as well
                                int64_t gb = a->laik_maplocal2global_1d(nd.d, mn, li);
                                if (gb != i[0]) violation("access", "local/global conversion: %lld became %lld", (long long)i[0], (long long)gb);
                                continue;
                            }
                            if (a->laik_maplocal2global_1d(nd.d, m, li) != i[0])
                                violation("access", "local/global conversion is not invertible at %lld", (long long)i[0]);
                            if (li >= xs) violation("access", "local index %llu of %llu", (unsigned long long)li, (unsigned long long)xs);
                            ad = base + li * es;
                        }
                        else if (pm == 1 || pm == 2)
                            ad = base + ((i[0] - bf[0]) + (i[1] - bf[1]) * (sp.dims > 1 ? yst : 0) + (i[2] - bf[2]) * (sp.dims > 2 ? zst : 0)) * es;
                        else {
                            Laik_Index ix;
                            ix.i[0] = i[0]; ix.i[1] = i[1]; ix.i[2] = i[2];
                            ad = a->laik_get_map_addr(nd.d, m, &ix);
                        }
                        if (!ad) violation("access", "no memory for an owned index");
                        out.push_back({ sp.lin(i), ad });
                    }
        }
    }
}

static bool addrOk(NS* s, NodeData& nd, char* ad, int es)
{
    if (ad >= s->n->arena && ad + es <= s->n->arenaPos) return true;
    if (nd.prov && ad >= nd.prov && ad + es <= nd.prov + nd.provSize) return true;
    return false;
}

static void checkData(int id, int k, int path)
{
    NS* s = S();
    auto m = dataAt(id, k);
    if (!m) return;
    NodeData& nd = s->data[id];
    Laik_Partitioning* p = s->A->laik_data_get_partitioning(nd.d);
    if (!m->part) {
        if (p) violation("data", "container %d: partitioning still active after switch to none", id);
        return;
    }
    if (m->partId >= 0 && p != s->part[m->partId])
        violation("data", "container %d: active partitioning is not the one switched to", id);
    {
        Api* a = s->A;
        if (a->laik_data_get_group(nd.d) != a->laik_partitioning_get_group(p)) violation("data", "container %d: wrong group", id);
        if (a->laik_data_get_space(nd.d) != a->laik_partitioning_get_space(p)) violation("data", "container %d: wrong space", id);
        if (a->laik_myid(a->laik_partitioning_get_group(p)) >= 0) {
            int c = a->laik_my_rangecount(p);
            for (int i = 0; i <= c; i++) {
                Laik_TaskRange *x = a->laik_data_range(nd.d, i);
                if (!x != (i == c)) violation("data", "container %d: range %d of %d %s", id, i, c, x ? "exists" : "is missing");
            }
            int maps = a->laik_my_mapcount(p);
            if (maps > 0)
                for (int i = 0; i < maps; i++) if (!a->laik_get_map(nd.d, i)) violation("data", "container %d: mapping %d of %d is missing", id, i, maps);
            if (path == 2 && m->space.dims == 1 && nd.layout == 0)
                for (int i = 0; i < c; i++) {
                    const Laik_Range* r = a->laik_taskrange_get_range(a->laik_data_range(nd.d, i));
                    for (int64_t g : { r->from.i[0], r->to.i[0] - 1 }) {
                        uint64_t li = 0;
                        Laik_Mapping* mp = a->laik_global2local_1d(nd.d, g, &li);
                        if (!mp) violation("access", "container %d: no mapping found for index %lld", id, (long long)g);
                        if (maps == 1 && a->laik_local2global_1d(nd.d, li) != g) violation("access", "container %d: local/global conversion of %lld gives %lld", id, (long long)g, (long long)a->laik_local2global_1d(nd.d, li));
                    }
                }
        }
    }
    auto it = m->cells.find(s->lid);
    std::vector<Visit> v;
    visitData(id, path, v);
    if (it == m->cells.end()) {
        if (!v.empty()) violation("data", "container %d: process outside of the group owns elements", id);
        return;
    }
    Cells& c = it->second;
    auto& has = m->part->hasOf(s->lid);
    std::vector<char> seen(has.size(), 0);
    stat(ST_CHECKS);
    stat(ST_ELEMS, v.size());
    int es = elemSize(nd.type);
    for (auto& x : v) {
        if (x.lin < 0 || x.lin >= (int64_t)has.size() || !has[x.lin])
            violation("data", "container %d: element %lld is not owned by this process", id, (long long)x.lin);
        seen[x.lin] = 1;
        if (!addrOk(s, nd, x.addr, es)) violation("data", "container %d: address of element %lld outside of any memory of this process", id, (long long)x.lin);
        switch (c.st[x.lin]) {
        case 1:
            if (!sameVal(nd.type, x.addr, c.v[x.lin])) {
                char b[512];
                storeVal(nd.type, b, c.v[x.lin]);
                violation("data", "container %d at step %d, process %d: element %lld is %s, expected %s", id, k, s->lid,
                          (long long)x.lin, showVal(nd.type, x.addr).c_str(), showVal(nd.type, b).c_str());
            }
            break;
        case 2: {
            bool ok = false;
            for (int64_t q : m->alts[{ s->lid, x.lin }]) if (sameVal(nd.type, x.addr, q)) ok = true;
            if (!ok) violation("data", "container %d at step %d, process %d: element %lld is %s, none of the values any owner had",
                               id, k, s->lid, (long long)x.lin, showVal(nd.type, x.addr).c_str());
            break;
        }
        case 3: case 4: {
            double f;
            if (nd.type == TK_FLOAT) { float t; memcpy(&t, x.addr, 4); f = t; } else memcpy(&f, x.addr, 8);
            double lim = nd.type == TK_FLOAT ? (double)FLT_MAX : DBL_MAX;
            if (c.st[x.lin] == 3 ? !(f >= lim) : !(f <= -lim))
                violation("data", "container %d: initial value %g is not neutral for the requested reduction", id, f);
            break;
        }
        }
    }
    if (path != 2)
        for (size_t i = 0; i < has.size(); i++)
            if (has[i] && !seen[i]) violation("data", "container %d: owned element %zu not accessible", id, i);
}

static void writeData(int id, int k, int mode, int dom, int path)
{
    NS* s = S();
    NodeData& nd = s->data[id];
    std::vector<Visit> v;
    visitData(id, path == 2 ? 1 : path, v);
    int es = elemSize(nd.type);
    for (auto& x : v) {
        if (!addrOk(s, nd, x.addr, es)) violation("data", "container %d: address of element %lld outside of any memory of this process", id, (long long)x.lin);
        if (!writeSel(mode, k, s->lid, x.lin)) continue;
        storeVal(nd.type, x.addr, writeVal(nd.type, dom, mode, k, s->lid, x.lin));
    }
}

// --------------------------------------------------------------- partitionings

static void rangesOf(Laik_RangeList* rl, const Space& sp, std::vector<TRange>& out)
{
    Api* a = A();
    int n = a->laik_rangelist_rangecount(rl);
    for (int i = 0; i < n; i++) {
        Laik_TaskRange* t = a->laik_rangelist_taskrange(rl, i);
        TRange r;
        r.task = a->laik_taskrange_get_task(t);
        r.tag = a->laik_taskrange_get_tag(t);
        r.map = a->laik_taskrange_get_mapNo(t);
        const Laik_Range* g = a->laik_taskrange_get_range(t);
        for (int d = 0; d < 3; d++) {
            r.r.f[d] = d < sp.dims ? g->from.i[d] : 0;
            r.r.t[d] = d < sp.dims ? g->to.i[d] : 1;
        }
        out.push_back(r);
    }
}

static uint64_t hashRanges(const std::vector<TRange>& v)
{
    uint64_t h = 1;
    for (auto& r : v) {
        h = mix(h, r.task); h = mix(h, r.map);
        for (int d = 0; d < 3; d++) { h = mix(h, r.r.f[d]); h = mix(h, r.r.t[d]); }
    }
    return h;
}

static std::string showRange(const TRange& r, int dims)
{
    std::string t = "task " + std::to_string(r.task) + " [";
    for (int d = 0; d < dims; d++)
        t += (d ? "," : "") + std::to_string(r.r.f[d]) + ".." + std::to_string(r.r.t[d]);
    return t + "]";
}

static bool inBox(const Rg& g, const int64_t* i) { for (int d = 0; d < 3; d++) if (i[d] < g.f[d] || i[d] >= g.t[d]) return false; return true; }

static void expectOwners(PartM& p, const std::vector<std::vector<int>>& want, const char* what)
{
    auto& o = p.owners();
    for (size_t i = 0; i < want.size(); i++) {
        std::set<int> x(o[i].begin(), o[i].end()), y;
        for (int t : want[i]) y.insert(p.group->lids[t]);
        if (x != y) {
            std::string s, q;
            for (int l : x) s += " " + std::to_string(l);
            for (int l : y) q += " " + std::to_string(l);
            violation("partition", "partitioning %d (%s): element %zu is owned by processes {%s }, expected {%s }", p.id, what, i, s.c_str(), q.c_str());
        }
    }
}

// what a partitioner promises, independent of how it computes it
static void checkPromise(PartM& p, const Op& pd, PartP other)
{
    int64_t N = p.space.size();
    int G = (int)p.group->lids.size();
    const Space& sp = p.space;
    std::vector<std::vector<int>> want(N);
    auto all = [&](std::function<void(int64_t, const int64_t*)> f) {
        int64_t i[3];
        for (i[2] = 0; i[2] < sp.ext(2); i[2]++)
            for (i[1] = 0; i[1] < sp.ext(1); i[1]++)
                for (i[0] = 0; i[0] < sp.ext(0); i[0]++) {
                    int64_t g[3] = { i[0] + sp.r.f[0], sp.dims > 1 ? i[1] + sp.r.f[1] : 0, sp.dims > 2 ? i[2] + sp.r.f[2] : 0 };
                    f(sp.lin(g), g);
                }
    };
    auto exactlyOne = [&](const char* what) {
        auto& o = p.owners();
        for (int64_t i = 0; i < N; i++)
            if (o[i].size() != 1) violation("partition", "partitioning %d (%s): element %lld has %zu owners", p.id, what, (long long)i, o[i].size());
    };
    for (auto& r : p.ranges) {
        if (r.task < 0 || r.task >= G) violation("partition", "partitioning %d: range for process %d of %d", p.id, r.task, G);
        for (int d = 0; d < sp.dims; d++)
            if (r.r.f[d] < sp.r.f[d] || r.r.t[d] > sp.r.t[d] || r.r.f[d] >= r.r.t[d])
                violation("partition", "partitioning %d: %s is empty or outside of the space", p.id, showRange(r, sp.dims).c_str());
    }
    int kind = (int)pd.a[1];
    switch (kind) {
    case PK_ALL: case PK_GALL:
        for (auto& w : want) for (int t = 0; t < G; t++) w.push_back(t);
        expectOwners(p, want, "all");
        break;
    case PK_MASTER: case PK_GMASTER:
        for (auto& w : want) w.push_back(0);
        expectOwners(p, want, "master");
        break;
    case PK_COPY:
        if (!other) break;
        {
            int fd = (int)pd.a[2], td = (int)pd.a[3];
            all([&](int64_t l, const int64_t* g) {
                for (auto& r : other->ranges)
                    if (g[td] >= r.r.f[fd] && g[td] < r.r.t[fd]) want[l].push_back(r.task);
            });
            expectOwners(p, want, "copy");
        }
        break;
    case PK_CORNERHALO: case PK_HALO:
        if (!other) break;
        {
            int depth = (int)pd.a[2];
            for (auto& r : other->ranges) {
                all([&](int64_t l, const int64_t* g) {
                    int out = 0;
                    bool ok = true;
                    for (int d = 0; d < sp.dims; d++) {
                        if (g[d] >= r.r.f[d] && g[d] < r.r.t[d]) continue;
                        out++;
                        if (g[d] < r.r.f[d] - depth || g[d] >= r.r.t[d] + depth) ok = false;
                    }
                    if (kind == PK_HALO && out > 1) ok = false;
                    if (ok) want[l].push_back(r.task);
                });
            }
            expectOwners(p, want, kind == PK_HALO ? "halo" : "cornerhalo");
        }
        break;
    case PK_BISECT: exactlyOne("bisection"); break;
    case PK_GRID: exactlyOne("grid"); break;
    case PK_BLOCK: case PK_BLOCK1: {
        exactlyOne("block");
        int pdim = kind == PK_BLOCK1 ? 0 : (int)pd.a[2];
        int cyc = kind == PK_BLOCK1 ? 1 : (int)pd.a[3];
        int wm = kind == PK_BLOCK1 ? 0 : (int)pd.a[4], tw = kind == PK_BLOCK1 ? 0 : (int)pd.a[5];
        std::vector<int64_t> cnt(G, 0);
        std::vector<int> ranges(G, 0);
        for (auto& r : p.ranges) {
            cnt[r.task] += r.r.t[pdim] - r.r.f[pdim];
            ranges[r.task]++;
            for (int d = 0; d < sp.dims; d++)
                if (d != pdim && (r.r.f[d] != sp.r.f[d] || r.r.t[d] != sp.r.t[d]))
                    violation("partition", "partitioning %d (block): %s does not span the other dimensions", p.id, showRange(r, sp.dims).c_str());
        }
        // blocks are handed out in process order
        std::vector<TRange> v = p.ranges;
        std::sort(v.begin(), v.end(), [&](const TRange& a, const TRange& b) { return a.r.f[pdim] < b.r.f[pdim]; });
        if (cyc == 1)
            for (size_t i = 1; i < v.size(); i++)
                if (v[i].task <= v[i - 1].task) violation("partition", "partitioning %d (block): blocks are not in process order", p.id);
        for (int t = 0; t < G; t++)
            if (ranges[t] > cyc) violation("partition", "partitioning %d (block): process %d got %d blocks in %d cycles", p.id, t, ranges[t], cyc);
        if (wm == 0 && tw == 0 && cyc == 1) {
            int64_t mn = *std::min_element(cnt.begin(), cnt.end()), mx = *std::max_element(cnt.begin(), cnt.end());
            if (mx - mn > 1) violation("partition", "partitioning %d (block): blocks between %lld and %lld elements for equal weights", p.id, (long long)mn, (long long)mx);
        }
        if (wm == 0 && tw == 0 && cyc > 1 && sp.ext(pdim) >= (int64_t)G * cyc) {
            if ((int)v.size() != G * cyc) violation("partition", "partitioning %d (block): %zu blocks, not %d", p.id, v.size(), G * cyc);
            for (size_t i = 0; i < v.size(); i++) {
                if (v[i].task != (int)i % G) violation("partition", "partitioning %d (block): block %zu is given to process %d", p.id, i, v[i].task);
                int64_t ln = v[i].r.t[pdim] - v[i].r.f[pdim], lo = sp.ext(pdim) / (G * cyc);
                if (ln < lo || ln > lo + 1) violation("partition", "partitioning %d (block): block %zu has %lld of %lld elements", p.id, i, (long long)ln, (long long)sp.ext(pdim));
            }
        }
        if (wm != 2 && cyc == 1) {
            // every block within one maximal element weight of the fair share on each side
            WSpec w = { wm, (uint64_t)(kind == PK_BLOCK1 ? 0 : pd.a[6]) };
            double tot = 0, ttot = 0, mxw = 0;
            for (int64_t i = sp.r.f[pdim]; i < sp.r.t[pdim]; i++) { Laik_Index ix; ix.i[0] = i; double x = idxWeight(&ix, &w); tot += x; mxw = std::max(mxw, x); }
            for (int t = 0; t < G; t++) ttot += tw ? taskWeight(t, &w) : 1.0;
            std::vector<double> got(G, 0);
            for (auto& r : p.ranges) for (int64_t i = r.r.f[pdim]; i < r.r.t[pdim]; i++) { Laik_Index ix; ix.i[0] = i; got[r.task] += idxWeight(&ix, &w); }
            if (pdim == 0)
                for (int t = 0; t < G; t++) {
                    double fair = tot * (tw ? taskWeight(t, &w) : 1.0) / ttot;
                    if (got[t] > fair + 2 * mxw + 1 || got[t] < fair - 2 * mxw - 1)
                        violation("partition", "partitioning %d (block): process %d got weight %g, fair share is %g", p.id, t, got[t], fair);
                }
        }
        break;
    }
    case PK_REASSIGN: {
        if (!other) break;
        exactlyOne("reassign");
        // survivors keep what they have; removed processes own nothing
        GroupP ng = W.groups[(int)pd.a[2]];
        auto& o = other->owners();
        auto& q = p.owners();
        for (int64_t i = 0; i < N; i++) {
            if (ng->rankOf(q[i][0]) < 0) violation("partition", "partitioning %d (reassign): element %lld assigned to a removed process", p.id, (long long)i);
            if (o[i].size() == 1 && ng->rankOf(o[i][0]) >= 0 && q[i][0] != o[i][0])
                violation("partition", "partitioning %d (reassign): element %lld moved away from a remaining process", p.id, (long long)i);
        }
        // weight of removed processes is distributed evenly
        WSpec w { (int)pd.a[3], (uint64_t)pd.a[4] };
        double tot = 0, mxw = 0;
        std::map<int, double> got;
        for (int64_t i = 0; i < N; i++) {
            if (o[i].size() != 1 || ng->rankOf(o[i][0]) >= 0) continue;
            Laik_Index ix; ix.i[0] = i + sp.r.f[0]; ix.i[1] = ix.i[2] = 0;
            double x = pd.a[3] ? idxWeight(&ix, &w) : 1.0;
            tot += x; mxw = std::max(mxw, x); got[q[i][0]] += x;
        }
        for (int lid : ng->lids) {
            double fair = tot / ng->lids.size();
            if (got[lid] > fair + mxw + 1e-3 || got[lid] < fair - mxw - 1e-3)
                violation("partition", "partitioning %d (reassign): process %d gets weight %g of removed processes, fair share is %g", p.id, lid, got[lid], fair);
        }
        break;
    }
    case PK_CUSTOM: {
        int64_t n = pd.a[4];
        for (int64_t j = 0; j < n; j++) {
            const int64_t* e = &pd.a[5 + j * 8];
            if (e[0] >= G) continue;
            Rg g;
            for (int d = 0; d < 3; d++) { g.f[d] = d < sp.dims ? e[2 + 2 * d] : 0; g.t[d] = d < sp.dims ? e[3 + 2 * d] : 1; }
            all([&](int64_t l, const int64_t* x) {
                int64_t y[3] = { x[0], x[1], x[2] };
                if (inBox(g, y)) want[l].push_back((int)e[0]);
            });
        }
        expectOwners(p, want, "own");
        // same tag, same mapping
        std::map<std::pair<int, int>, int> tm;
        if (pd.a[2] & LAIK_PF_GroupByTag)
            for (auto& r : p.ranges) {
                auto key = std::make_pair(r.task, r.tag);
                if (tm.count(key) && tm[key] != r.map) violation("partition", "partitioning %d: ranges with tag %d of process %d in different mappings", p.id, r.tag, r.task);
                tm[key] = r.map;
            }
        break;
    }
    case PK_SINGLEIDX: {
        for (int64_t j = 0; j < pd.a[3]; j++) {
            const int64_t* e = &pd.a[4 + j * 2];
            if (e[0] >= G) continue;
            int64_t x[3] = { e[1], 0, 0 };
            want[sp.lin(x)].push_back((int)e[0]);
        }
        expectOwners(p, want, "index list");
        break;
    }
    }
}

// a partitioning as of the operation the current process is at
static PartP partNow(int id)
{
    auto it = W.pver.find(id);
    if (it == W.pver.end()) return nullptr;
    for (size_t i = it->second.size(); i > 0; i--)
        if (it->second[i - 1].first <= cur->node->curop) return it->second[i - 1].second;
    return nullptr;
}

static GroupP groupAt(int id, int op)
{
    (void)op;
    return W.groups[id];
}

// create the partitioning model from the first process, compare on all others
static void learnPart(int id, int prtr, int group, int space, int other)
{
    NS* s = S();
    Api* a = s->A;
    Laik_PartitionerParams pp;
    pp.space = s->sp[space];
    pp.group = s->gr[group];
    pp.partitioner = s->pr[prtr];
    pp.other = other >= 0 ? s->part[other] : nullptr;
    Laik_RangeList* rl = a->laik_run_partitioner(&pp, nullptr);
    if (!rl) violation("partition", "partitioner run gives no result");
    std::vector<TRange> v;
    rangesOf(rl, W.spaces[space], v);
    uint64_t h = hashRanges(v);
    PartP known = partNow(id);
    if (!known) {
        auto p = std::make_shared<PartM>();
        p->id = id;
        p->space = W.spaces[space];
        p->group = groupAt(group, 0);
        p->ranges = v;
        p->hash = h;
        p->prtr = prtr;
        W.parts[id] = p;
        W.pver[id].push_back({ -1, p });
        checkPromise(*p, *W.defOp[prtr], other >= 0 ? partNow(other) : nullptr);
        probe(mix(0x9A27, mix(W.defOp[prtr]->a[1], mix(W.spaces[space].dims, p->group->lids.size()))));
    }
    else {
        stat(ST_CHECKS);
        if (known->hash != h) {
            auto& w = known->ranges;
            std::string d;
            for (size_t i = 0; i < std::max(v.size(), w.size()); i++) {
                std::string x = i < v.size() ? showRange(v[i], 3) : "nothing", y = i < w.size() ? showRange(w[i], 3) : "nothing";
                if (x != y) { d = "here " + x + ", elsewhere " + y; break; }
            }
            violation("partition", "processes disagree about partitioning %d: %s", id, d.c_str());
        }
    }
    // summary queries
    bool cov = true, isAll = true;
    int single = -1;
    {
        PartM& p = *partNow(id);
        auto& o = p.owners();
        std::set<int> any;
        for (auto& x : o) { if (x.empty()) cov = false; for (int l : x) any.insert(l); }
        (void)isAll;
        bool gc = a->laik_rangelist_coversSpace(rl);
        if (gc != cov) violation("partition", "partitioning %d: space reported %s covered", id, gc ? "as" : "not");
        single = a->laik_rangelist_isSingle(rl);
        if (single >= 0 && (any.size() > 1 || (any.size() == 1 && p.group->lids[single] != *any.begin())))
            violation("partition", "partitioning %d: wrongly reported to be on process %d only", id, single);
        int pk = (int)W.defOp[prtr]->a[1];
        if ((pk == PK_MASTER || pk == PK_GMASTER) && single != 0) violation("partition", "partitioning %d: not reported to be on the master only", id);
        if ((pk == PK_ALL || pk == PK_GALL) && !a->laik_rangelist_isAll(rl)) violation("partition", "partitioning %d: not reported to be complete on all processes", id);
        if (a->laik_rangelist_isAll(rl)) {
            for (auto& x : o) if (x.size() != p.group->lids.size()) violation("partition", "partitioning %d wrongly reported as complete on all processes", id);
        }
        // per process counts
        for (size_t t = 0; t < p.group->lids.size(); t++) {
            int c = 0, mc = 0;
            for (auto& r : v) if (r.task == (int)t) { c++; mc = std::max(mc, r.map + 1); }
            if (a->laik_rangelist_tidrangecount(rl, (int)t) != c) violation("partition", "partitioning %d: %d ranges reported for process %zu, not %d", id, a->laik_rangelist_tidrangecount(rl, (int)t), t, c);
            if (a->laik_rangelist_tidmapcount(rl, (int)t) != mc) violation("partition", "partitioning %d: %d mappings reported for process %zu, not %d", id, a->laik_rangelist_tidmapcount(rl, (int)t), t, mc);
        }
    }
    a->laik_rangelist_free(rl);
}

// the process's own view of a partitioning must be the model's
static void checkMine(int id)
{
    NS* s = S();
    Api* a = s->A;
    PartP p = partNow(id);
    if (!p || !s->part[id]) return;
    Laik_Partitioning* lp = s->part[id];
    int me = p->group->rankOf(s->lid);
    if (me < 0 || p->unknown.count(s->lid)) return;
    stat(ST_CHECKS);
    std::vector<const TRange*> mine;
    for (auto& r : p->ranges) if (r.task == me) mine.push_back(&r);
    if (a->laik_my_rangecount(lp) != (int)mine.size())
        violation("partition", "partitioning %d: own range count is %d, not %zu", id, a->laik_my_rangecount(lp), mine.size());
    int maps = 0;
    for (auto r : mine) maps = std::max(maps, r->map + 1);
    if (a->laik_my_mapcount(lp) != maps) violation("partition", "partitioning %d: own mapping count is %d, not %d", id, a->laik_my_mapcount(lp), maps);
    for (size_t i = 0; i < mine.size(); i++) {
        int64_t q[6];
        Laik_TaskRange* t;
        int dims = p->space.dims;
        if (dims == 1) t = a->laik_my_range_1d(lp, (int)i, &q[0], &q[1]);
        else if (dims == 2) t = a->laik_my_range_2d(lp, (int)i, &q[0], &q[1], &q[2], &q[3]);
        else t = a->laik_my_range_3d(lp, (int)i, &q[0], &q[1], &q[2], &q[3], &q[4], &q[5]);
        if (!t) violation("partition", "partitioning %d: own range %zu missing", id, i);
        for (int d = 0; d < dims; d++)
            if (q[2 * d] != mine[i]->r.f[d] || q[2 * d + 1] != mine[i]->r.t[d])
                violation("partition", "partitioning %d: own range %zu differs from the global view", id, i);
        if (a->laik_taskrange_get_mapNo(t) != mine[i]->map) violation("partition", "partitioning %d: own range %zu is in mapping %d, not %d", id, i, a->laik_taskrange_get_mapNo(t), mine[i]->map);
    }
    int dims = p->space.dims;
    auto eqr = [&](const Laik_Range* g, const Rg& r) {
        for (int d = 0; d < dims; d++) if (g->from.i[d] != r.f[d] || g->to.i[d] != r.t[d]) return false;
        return true;
    };
    // the same ranges, by mapping
    for (int m = 0; m < maps; m++) {
        int c = 0;
        for (auto r : mine) {
            if (r->map != m) continue;
            Laik_TaskRange* t = a->laik_my_maprange(lp, m, c);
            if (!t || a->laik_taskrange_get_task(t) != me || !eqr(a->laik_taskrange_get_range(t), r->r))
                violation("partition", "partitioning %d: range %d of own mapping %d differs from the global view", id, c, m);
            c++;
        }
        if (a->laik_my_maprangecount(lp, m) != c) violation("partition", "partitioning %d: %d ranges in own mapping %d, not %d", id, a->laik_my_maprangecount(lp, m), m, c);
        if (a->laik_my_maprange(lp, m, c)) violation("partition", "partitioning %d: own mapping %d has a range behind the last one", id, m);
    }
    for (size_t i = 0; i < mine.size(); i++) {
        Laik_TaskRange* t = a->laik_my_range(lp, (int)i);
        if (!t || !eqr(a->laik_taskrange_get_range(t), mine[i]->r)) violation("partition", "partitioning %d: own range %zu differs from the global view", id, i);
        const Laik_Range* g = a->laik_taskrange_get_range(t);
        if ((int64_t)a->laik_range_size(g) != (g->to.i[0] - g->from.i[0]) * (dims > 1 ? g->to.i[1] - g->from.i[1] : 1) * (dims > 2 ? g->to.i[2] - g->from.i[2] : 1))
            violation("partition", "partitioning %d: wrong size of own range %zu", id, i);
    }
    if (a->laik_my_range(lp, (int)mine.size())) violation("partition", "partitioning %d: range reported behind the last one", id);
    if (a->laik_partitioning_allranges(lp)) {
        // the complete view is available
        if (a->laik_partitioning_rangecount(lp) != (int)p->ranges.size()) violation("partition", "partitioning %d: %d ranges, not %zu", id, a->laik_partitioning_rangecount(lp), p->ranges.size());
        for (size_t i = 0; i < p->ranges.size(); i++) {
            Laik_TaskRange* t = a->laik_partitioning_get_taskrange(lp, (int)i);
            const TRange& r = p->ranges[i];
            if (!t || a->laik_taskrange_get_task(t) != r.task || a->laik_taskrange_get_mapNo(t) != r.map || !eqr(a->laik_taskrange_get_range(t), r.r))
                violation("partition", "partitioning %d: range %zu differs from the one of the partitioner", id, i);
        }
        if (a->laik_partitioning_get_taskrange(lp, (int)p->ranges.size())) violation("partition", "partitioning %d: range reported behind the last one", id);
        bool cov = true;
        std::set<int> any;
        for (auto& x : p->owners()) { if (x.empty()) cov = false; for (int l : x) any.insert(l); }
        if (a->laik_partitioning_coversSpace(lp) != cov) violation("partition", "partitioning %d: space reported %s covered", id, cov ? "not" : "as");
        int kind = (int)W.defOp[p->prtr]->a[1];
        int single = a->laik_partitioning_isSingle(lp);
        bool all = a->laik_partitioning_isAll(lp);
        if (single >= 0 && (!cov || any.size() != 1 || p->group->lids[single] != *any.begin())) violation("partition", "partitioning %d: wrongly reported to be on process %d only", id, single);
        if (all) for (auto& x : p->owners()) if (x.size() != p->group->lids.size()) violation("partition", "partitioning %d wrongly reported as complete on all processes", id);
        if (W.pver[id].size() == 1) {
            if ((kind == PK_MASTER || kind == PK_GMASTER) && single != 0) violation("partition", "partitioning %d: not reported to be on the master only", id);
            if ((kind == PK_ALL || kind == PK_GALL) && !all) violation("partition", "partitioning %d: not reported to be complete on all processes", id);
        }
        if (!a->laik_partitioning_isEqual(lp, lp)) violation("partition", "partitioning %d is not equal to itself", id);
        for (auto& e : s->part) {
            PartP q = e.first != id && e.second ? partNow(e.first) : nullptr;
            if (!q || q->group != p->group || q->prtr < 0 || !a->laik_partitioning_allranges(e.second) || s->sp[(int)W.defOp[id]->a[3]] != s->sp[(int)W.defOp[e.first]->a[3]]) continue;
            auto cmp = [&](const TRange& x, const TRange& y) {
                if (x.task != y.task) return false; // ranges only, not their mapping
                for (int d = 0; d < dims; d++) if (x.r.f[d] != y.r.f[d] || x.r.t[d] != y.r.t[d]) return false;
                return true;
            };
            bool eq = p->ranges.size() == q->ranges.size();
            for (size_t i = 0; eq && i < p->ranges.size(); i++) eq = cmp(p->ranges[i], q->ranges[i]);
            if (a->laik_partitioning_isEqual(lp, e.second) != eq) violation("partition", "partitionings %d and %d are reported as %s", id, e.first, eq ? "different" : "equal");
        }
    }
    for (auto& e : s->part) {
        // what is stored for the intersection with another one
        PartP q = e.second && e.second != lp ? partNow(e.first) : nullptr;
        if (!q || q->group != p->group || a->laik_partitioning_get_space(lp) != a->laik_partitioning_get_space(e.second)) continue;
        Laik_RangeList* rl = a->laik_partitioning_interranges(lp, e.second);
        if (!rl) continue;
        std::vector<TRange> v;
        rangesOf(rl, p->space, v);
        auto same = [&](const TRange& x, const TRange& y) { return x.task == y.task && !memcmp(&x.r, &y.r, sizeof(Rg)); };
        for (auto& x : v) {
            bool f = false;
            for (auto& y : p->ranges) if (same(x, y)) f = true;
            if (!f) violation("partition", "partitioning %d: stores %s, which does not exist", id, showRange(x, dims).c_str());
        }
        for (auto& y : p->ranges) {
            bool need = false, f = false;
            for (auto& z : q->ranges) {
                if (z.task != me) continue;
                bool in = true;
                for (int d = 0; d < dims; d++) if (z.r.f[d] >= y.r.t[d] || z.r.t[d] <= y.r.f[d]) in = false;
                if (in) need = true;
            }
            if (!need) continue;
            for (auto& x : v) if (same(x, y)) f = true;
            if (!f) violation("partition", "partitioning %d: %s is missing in the intersection with own ranges of partitioning %d", id, showRange(y, dims).c_str(), e.first);
        }
    }
    if (a->laik_partitioning_get_space(lp) != s->sp[(int)W.defOp[id]->a[3]]) violation("partition", "partitioning %d: wrong space", id);
    int64_t dummy[2];
    if (p->space.dims == 1 && a->laik_my_range_1d(lp, (int)mine.size(), &dummy[0], &dummy[1]))
        violation("partition", "partitioning %d: range reported behind the last one", id);
    if (a->laik_partitioning_get_group(lp) == nullptr || a->laik_size(a->laik_partitioning_get_group(lp)) != (int)p->group->lids.size())
        violation("partition", "partitioning %d: wrong group", id);
}

// ------------------------------------------------------------------- groups

static void checkGroup(int id, Laik_Group* g)
{
    NS* s = S();
    Api* a = s->A;
    GroupP m = W.groups[id];
    if (!g) violation("group", "group %d missing", id);
    int n = a->laik_size(g);
    stat(ST_CHECKS);
    if (n != (int)m->lids.size()) violation("group", "group %d has %d members, expected %zu", id, n, m->lids.size());
    for (int i = 0; i < n; i++)
        if (a->laik_group_locationid(g, i) != m->lids[i])
            violation("group", "group %d: member %d is process %d, expected %d", id, i, a->laik_group_locationid(g, i), m->lids[i]);
    if (a->laik_myid(g) != m->rankOf(s->lid))
        violation("group", "group %d: own rank is %d, expected %d", id, a->laik_myid(g), m->rankOf(s->lid));
    if (a->laik_inst(g) != s->inst) violation("group", "group %d belongs to another instance", id);
}

// ------------------------------------------------------- model, first arrival

static void modelStep(int k)
{
    if (W.pos > k) return;
    while (W.pos <= k) {
        int j = W.pos++;
        const Op& o = spec->ops[j];
        switch (o.kind) {
        case OP_SPACE: {
            Space s;
            s.dims = (int)o.a[1];
            for (int d = 0; d < 3; d++) { s.r.f[d] = d < s.dims ? o.a[2 + 2 * d] : 0; s.r.t[d] = d < s.dims ? o.a[3 + 2 * d] : 1; }
            W.spaces[(int)o.a[0]] = s;
            W.defOp[(int)o.a[0]] = &o;
            break;
        }
        case OP_PRTR: W.defOp[(int)o.a[0]] = &o; break;
        case OP_GROUP: {
            auto g = std::make_shared<GroupM>();
            GroupP src = o.a.size() > 2 ? W.groups[(int)o.a[2]] : nullptr;
            switch (o.a[1]) {
            case 0: // world: set in runWorld for the start, by resize later
                *g = *W.groups[-1];
                break;
            case 1: *g = *src; break;
            case 2:
                for (size_t i = 0; i < src->lids.size(); i++)
                    if (std::find(o.a.begin() + 3, o.a.end(), (int64_t)i) == o.a.end()) g->lids.push_back(src->lids[i]);
                break;
            case 3: {
                std::set<int> u(src->lids.begin(), src->lids.end());
                GroupP s2 = W.groups[(int)o.a[3]];
                u.insert(s2->lids.begin(), s2->lids.end());
                g->lids.assign(u.begin(), u.end());
                break;
            }
            case 4: *g = *W.groups[(int)o.a[3]]; break;
            }
            W.groups[(int)o.a[0]] = g;
            W.defOp[(int)o.a[0]] = &o;
            break;
        }
        case OP_PART: W.defOp[(int)o.a[0]] = &o; break;
        case OP_MIGRATE: {
            // same owners, other group
            PartP old = W.parts[(int)o.a[0]];
            auto p = std::make_shared<PartM>(*old);
            GroupP ng = W.groups[(int)o.a[1]];
            for (auto& r : p->ranges) r.task = ng->rankOf(old->group->lids[r.task]);
            std::stable_sort(p->ranges.begin(), p->ranges.end(), [](const TRange& a, const TRange& b) { return a.task < b.task; });
            if (W.defOp[(int)o.a[0]]->a[5] == 2) for (int l : ng->lids) if (old->group->rankOf(l) < 0) p->unknown.insert(l);
            p->group = ng;
            p->ownDone = false;
            p->has.clear();
            W.parts[(int)o.a[0]] = p;
            W.pver[(int)o.a[0]].push_back({ j, p });
            break;
        }
        case OP_DATA: {
            auto d = newVer((int)o.a[0], j);
            d->space = W.spaces[(int)o.a[1]];
            d->type = (int)o.a[2];
            d->layout = (int)o.a[3];
            W.defOp[(int)o.a[0]] = &o;
            break;
        }
        case OP_SWITCH: {
            auto d = newVer((int)o.a[0], j);
            PartP to = o.a[1] >= 0 ? W.parts[(int)o.a[1]] : nullptr;
            if (!to && o.a[1] >= 0) harnessError("switch before partitioning is known");
            applySwitch(*d, to, (int)o.a[1], (int)o.a[2], (int)o.a[3]);
            break;
        }
        case OP_SETINIT: {
            auto d = newVer((int)o.a[0], j);
            applySwitch(*d, W.parts[(int)o.a[1]], (int)o.a[1], LAIK_DF_None, 0);
            break;
        }
        case OP_FLOW: {
            auto d = newVer((int)o.a[0], j);
            if (d->part) applySwitch(*d, d->part, d->partId, (int)o.a[1], (int)o.a[2]);
            break;
        }
        case OP_WRITE: {
            auto d = newVer((int)o.a[0], j);
            applyWrite(*d, j, (int)o.a[1], (int)o.a[2]);
            break;
        }
        case OP_FILL: {
            auto d = newVer((int)o.a[0], j);
            if (d->part)
                for (auto& c : d->cells) {
                    auto& has = d->part->hasOf(c.first);
                    for (size_t i = 0; i < has.size(); i++) if (has[i]) { c.second.v[i] = o.a[1]; c.second.st[i] = 1; }
                }
            break;
        }
        case OP_TRANS: W.defOp[(int)o.a[0]] = &o; break;
        case OP_ACT: W.defOp[(int)o.a[0]] = &o; break;
        case OP_RES: W.defOp[(int)o.a[0]] = &o; break;
        case OP_EXEC: {
            auto d = newVer((int)o.a[0], j);
            const Op& t = *W.defOp[(int)o.a[1]];
            applySwitch(*d, t.a[3] >= 0 ? W.parts[(int)t.a[3]] : nullptr, (int)t.a[3], (int)t.a[4], (int)t.a[5]);
            break;
        }
        case OP_EXECACT: {
            const Op& ac = *W.defOp[(int)o.a[0]];
            auto d = newVer((int)ac.a[1], j);
            const Op& t = *W.defOp[(int)ac.a[2]];
            applySwitch(*d, W.parts[(int)t.a[3]], (int)t.a[3], (int)t.a[4], (int)t.a[5]);
            break;
        }
        case OP_KVNEW: W.defOp[(int)o.a[0]] = &o; break;
        }
    }
}

#include "kvops.inc"
#include "mapops.inc"
#include "agents.inc"
#include "huge.inc"
#include "elastic.inc"

// ------------------------------------------------------------- one operation

static std::string nm(const char* p, int id) { return std::string(p) + std::to_string(id); }

// A program repeating a cycle of operations: what is still held at the end of each cycle?
void dumpLive(Node* n, size_t from, bool bt);
static void memCheck(int k)
{
    NS* s = S();
    size_t fds = s->n->fds.size() + s->n->openFiles, mpi = s->n->mpiReqs;
    s->mem.push_back({ s->n->liveAllocs, s->n->liveBytes, fds, mpi });
    if (spec->cfg.get("memtrace")) {
        static size_t upto[MAXNODES];
        fprintf(stderr, "MEM p%d cycle %zu: %zu blocks, %zu bytes, %zu fds, %zu MPI requests\n", s->lid, s->mem.size(), s->n->liveAllocs, s->n->liveBytes, fds, mpi);
        dumpLive(s->n, upto[s->n->id], s->mem.size() >= 5);
        upto[s->n->id] = s->n->allocs.size();
    }
    size_t n = s->mem.size();
    if (n < 8) return;
    static const char* what[] = { "memory blocks", "bytes of memory", "file descriptors", "MPI requests" };
    for (int j = 0; j < 4; j++) {
        // never less, and more in at least four of the last six steps
        int up = 0;
        bool down = false;
        for (size_t i = n - 6; i < n; i++) {
            if (s->mem[i][j] > s->mem[i - 1][j]) up++;
            if (s->mem[i][j] < s->mem[i - 1][j]) down = true;
        }
        if (!down && up >= 4) violation("growth", "%s held by process %d grow with every cycle of the same operations (%zu, %zu, %zu, %zu, ...)", what[j], s->lid, s->mem[n - 4][j], s->mem[n - 3][j], s->mem[n - 2][j], s->mem[n - 1][j]);
    }
    stat(ST_CHECKS);
}

static void execOp(int k)
{
    NS* s = S();
    Api* a = s->A;
    const Op& o = spec->ops[k];
    auto id = [&](int i) { return (int)o.a[i]; };
    stat(ST_OPS);
    switch (o.kind) {
    case OP_SPACE: {
        modelStep(k);
        Space& m = W.spaces[id(0)];
        Laik_Space* sp;
        if (m.dims == 1) sp = a->laik_new_space_1d(s->inst, m.ext(0));
        else if (m.dims == 2) sp = a->laik_new_space_2d(s->inst, m.ext(0), m.ext(1));
        else sp = a->laik_new_space_3d(s->inst, m.ext(0), m.ext(1), m.ext(2));
        bool shifted = false;
        for (int d = 0; d < m.dims; d++) if (m.r.f[d]) shifted = true;
        if (shifted) {
            if (m.dims == 1) a->laik_change_space_1d(sp, m.r.f[0], m.r.t[0]);
            else if (m.dims == 2) a->laik_change_space_2d(sp, m.r.f[0], m.r.t[0], m.r.f[1], m.r.t[1]);
            else a->laik_change_space_3d(sp, m.r.f[0], m.r.t[0], m.r.f[1], m.r.t[1], m.r.f[2], m.r.t[2]);
        }
        if ((int64_t)a->laik_space_size(sp) != m.size()) violation("space", "space %d: size %llu, expected %lld", id(0), (unsigned long long)a->laik_space_size(sp), (long long)m.size());
        if (a->laik_space_getdimensions(sp) != m.dims) violation("space", "space %d: wrong dimensions", id(0));
        s->sp[id(0)] = sp;
        break;
    }
    case OP_FREESPACE: a->laik_free_space(s->sp[id(0)]); s->sp.erase(id(0)); modelStep(k); break;
    case OP_GROUP: {
        modelStep(k);
        Laik_Group* g = nullptr;
        switch (o.a[1]) {
        case 0: g = a->laik_world(s->inst); break;
        case 1: g = a->laik_clone_group(s->gr[id(2)]); break;
        case 2: {
            std::vector<int> l;
            for (size_t i = 3; i < o.a.size(); i++) l.push_back((int)o.a[i]);
            g = a->laik_new_shrinked_group(s->gr[id(2)], (int)l.size(), l.data());
            break;
        }
        case 3: g = a->laik_new_union_group(s->gr[id(2)], s->gr[id(3)]); break;
        case 4: g = a->laik_group_parent(s->gr[id(2)]); break;
        }
        s->gr[id(0)] = g;
        checkGroup(id(0), g);
        break;
    }
    case OP_GCHECK: checkGroup(id(0), s->gr[id(0)]); break;
    case OP_PRTR: {
        modelStep(k);
        Laik_Partitioner* p = nullptr;
        auto wspec = [&](int m, uint64_t sd) { WSpec* w = new WSpec; w->mode = m; w->seed = sd; return w; };
        switch (o.a[1]) {
        case PK_ALL: p = a->laik_new_all_partitioner(); break;
        case PK_MASTER: p = a->laik_new_master_partitioner(); break;
        case PK_GALL: p = *a->laik_All; break;
        case PK_GMASTER: p = *a->laik_Master; break;
        case PK_COPY: p = a->laik_new_copy_partitioner(id(2), id(3)); break;
        case PK_CORNERHALO: p = a->laik_new_cornerhalo_partitioner(id(2)); break;
        case PK_HALO: p = a->laik_new_halo_partitioner(id(2)); break;
        case PK_BISECT: p = a->laik_new_bisection_partitioner(); break;
        case PK_GRID: p = a->laik_new_grid_partitioner(id(2), id(3), id(4)); break;
        case PK_BLOCK1: p = a->laik_new_block_partitioner1(); break;
        case PK_BLOCK: {
            WSpec* w = wspec(id(4), (uint64_t)o.a[6]);
            if ((o.a[6] & 1) && id(3) <= 10) {
                p = a->laik_new_block_partitioner(id(2), 1, nullptr, nullptr, nullptr);
                if (o.a[5]) a->laik_set_task_weight(p, taskWeight, w);
                if (o.a[4]) a->laik_set_index_weight(p, idxWeight, w);
                a->laik_set_cycle_count(p, id(3));
            }
            else if ((o.a[6] & 2) && o.a[2] == 0 && o.a[3] == 1 && o.a[4] && !o.a[5]) p = a->laik_new_block_partitioner_iw1(idxWeight, w);
            else if ((o.a[6] & 2) && o.a[2] == 0 && o.a[3] == 1 && !o.a[4] && o.a[5]) p = a->laik_new_block_partitioner_tw1(taskWeight, w);
            else p = a->laik_new_block_partitioner(id(2), id(3), o.a[4] ? idxWeight : nullptr, o.a[5] ? taskWeight : nullptr, w);
            break;
        }
        case PK_REASSIGN: p = a->laik_new_reassign_partitioner(s->gr[id(2)], o.a[3] ? idxWeight : nullptr, wspec(id(3), (uint64_t)o.a[4])); break;
        case PK_CUSTOM: p = a->laik_new_partitioner("own", customRun, (void*)&o, (Laik_PartitionerFlag)o.a[2]); break;
        case PK_SINGLEIDX: p = a->laik_new_partitioner("idx", singleIdxRun, (void*)&o, (Laik_PartitionerFlag)o.a[2]); break;
        }
        if (!p) violation("partition", "no partitioner");
        s->pr[id(0)] = p;
        break;
    }
    case OP_PART: {
        // part id prtr group space other mode arg
        learnPart(id(0), id(1), id(2), id(3), id(4));
        Laik_Partitioning* oth = o.a[4] >= 0 ? s->part[id(4)] : nullptr;
        Laik_Partitioning* p = nullptr;
        switch (o.a[5]) {
        case 0: p = a->laik_new_partitioning(s->pr[id(1)], s->gr[id(2)], s->sp[id(3)], oth); break;
        case 1:
            p = a->laik_new_empty_partitioning(s->gr[id(2)], s->sp[id(3)], s->pr[id(1)], oth);
            a->laik_partitioning_store_allranges(p);
            break;
        case 2:
            p = a->laik_new_empty_partitioning(s->gr[id(2)], s->sp[id(3)], s->pr[id(1)], oth);
            a->laik_partitioning_store_myranges(p);
            break;
        case 3: // my ranges, plus intersection with partitioning arg (which gets ours)
            p = a->laik_new_empty_partitioning(s->gr[id(2)], s->sp[id(3)], s->pr[id(1)], oth);
            a->laik_partitioning_store_myranges(p);
            if (a->laik_myid(s->gr[id(2)]) >= 0) {
                a->laik_partitioning_store_intersectranges(p, s->part[id(6)]);
                a->laik_partitioning_store_intersectranges(s->part[id(6)], p);
            }
            break;
        case 4: // clone an existing one without its ranges
            p = a->laik_clone_empty_partitioning(s->part[id(6)]);
            a->laik_partitioning_store_allranges(p);
            break;
        case 6: // created by the following switch
            if (k + 1 < (int)spec->ops.size() && spec->ops[k + 1].kind == OP_SWITCH && spec->ops[k + 1].a[1] == o.a[0]
                && spec->ops[(size_t)k + 1].a[2] >= 0 && W.defOp[(int)spec->ops[k + 1].a[0]]->a[1] == o.a[3]) {
                s->part[id(0)] = nullptr;
                modelStep(k);
                return;
            }
            p = a->laik_new_partitioning(s->pr[id(1)], s->gr[id(2)], s->sp[id(3)], oth);
            break;
        case 5:
            p = a->laik_new_partitioning(s->pr[id(1)], s->gr[id(2)], s->sp[id(3)], oth);
            { char b[64]; snprintf(b, sizeof b, "%s", o.s.c_str()); a->laik_partitioning_set_name(p, b); }
            break;
        }
        s->part[id(0)] = p;
        modelStep(k);
        if (o.a[5] == 4 && !a->laik_partitioning_isEqual(p, s->part[id(6)])) violation("partition", "clone of partitioning %d has other ranges", id(6));
        checkMine(id(0));
        break;
    }
    case OP_FREEPART: modelStep(k); a->laik_free_partitioning(s->part[id(0)]); s->part.erase(id(0)); break;
    case OP_MIGRATE: {
        modelStep(k);
        a->laik_partitioning_migrate(s->part[id(0)], s->gr[id(1)]);
        if (a->laik_partitioning_get_group(s->part[id(0)]) != s->gr[id(1)]) violation("partition", "partitioning %d not on the group it was migrated to", id(0));
        break;
    }
    case OP_PCHECK: modelStep(k); checkMine(id(0)); break;
    case OP_DATA: {
        // data id space type layout alloc provide
        modelStep(k);
        NodeData& nd = s->data[id(0)];
        nd.type = id(2);
        nd.layout = id(3);
        nd.d = a->laik_new_data(s->sp[id(1)], typeOf(nd.type));
        std::string n = nm("d", id(0));
        a->laik_data_set_name(nd.d, (char*)n.c_str());
        if (nd.layout == 1) a->laik_data_set_layout_factory(nd.d, layoutRev);
        else if (nd.layout == 2) a->laik_data_set_layout_factory(nd.d, layoutCol);
        if (o.a[4]) {
            // in repeated cycles, one allocator object serves all containers
            bool share = spec->cfg.get("cycles");
            Laik_Allocator* al = share ? s->alloc[o.a[4] == 1] : nullptr;
            if (!al) al = o.a[4] == 1 ? a->laik_new_allocator(appMalloc, appFree, nullptr) : a->laik_new_allocator_def();
            s->alloc[o.a[4] == 1] = al;
            a->laik_set_allocator(nd.d, al);
        }
        if (o.a[5]) {
            nd.provSize = (size_t)W.spaces[id(1)].size() * elemSize(nd.type);
            nd.prov = (char*)__wrap_malloc(nd.provSize + 1);
            a->laik_data_provide_memory(nd.d, nd.prov, nd.provSize);
        }
        if (a->laik_data_get_space(nd.d) != s->sp[id(1)]) violation("data", "container %d: wrong space", id(0));
        break;
    }
    case OP_FREEDATA: modelStep(k); a->laik_free(s->data[id(0)].d); s->data[id(0)].freed = true;
        if (s->data[id(0)].prov) { __wrap_free(s->data[id(0)].prov); s->data[id(0)].prov = nullptr; }
        break;
    case OP_SWITCH: {
        modelStep(k);
        NodeData& nd = s->data[id(0)];
        auto before = dataAt(id(0), k - 1);
        probe(mix(0x51, mix(before && before->part ? W.defOp[before->part->prtr]->a[1] + 1 : 0,
              mix(o.a[1] >= 0 ? W.defOp[W.parts[id(1)]->prtr]->a[1] + 1 : 0, mix(o.a[2], mix(o.a[3], mix(nd.type, mix(nd.layout, before ? before->space.dims : 0))))))));
        if (o.a[1] >= 0 && !s->part[id(1)]) {
            const Op& po = *W.defOp[id(1)];
            s->part[id(1)] = a->laik_switchto_new_partitioning(nd.d, s->gr[(int)po.a[2]], s->pr[(int)po.a[1]], (Laik_DataFlow)o.a[2], (Laik_ReductionOperation)o.a[3]);
            if (!s->part[id(1)]) violation("data", "container %d: no partitioning after the switch to a new one", id(0));
            checkMine(id(1));
        }
        else if (o.a[1] >= 0 && o.a.size() > 4 && o.a[4] == 1) a->laik_switchto_partitioning(nd.d, s->part[id(1)], (Laik_DataFlow)o.a[2], (Laik_ReductionOperation)o.a[3]);
        else a->laik_switchto_partitioning(nd.d, o.a[1] >= 0 ? s->part[id(1)] : nullptr, (Laik_DataFlow)o.a[2], (Laik_ReductionOperation)o.a[3]);
        if (isRed(id(3))) stat(ST_REDCHK);
        break;
    }
    case OP_SETINIT: modelStep(k); a->laik_set_initial_partitioning(s->data[id(0)].d, s->part[id(1)]); break;
    case OP_FLOW:
        modelStep(k);
        a->laik_switchto_flow(s->data[id(0)].d, (Laik_DataFlow)o.a[1], (Laik_ReductionOperation)o.a[2]);
        if (isRed(id(2))) stat(ST_REDCHK);
        break;
    case OP_WRITE: modelStep(k); writeData(id(0), k, id(1), id(2), id(3)); break;
    case OP_HUGE: modelStep(k); hugeOp(k); break;
    case OP_MAPOPS: modelStep(k); mapOps(id(0), id(1), k, o.a[2]); break;
    case OP_CHECK: modelStep(k); checkData(id(0), k, id(1)); break;
    case OP_FILL: modelStep(k);
        if (dataAt(id(0), k)->part && dataAt(id(0), k)->part->group->rankOf(s->lid) >= 0 && a->laik_my_rangecount(a->laik_data_get_partitioning(s->data[id(0)].d)) == 1)
            a->laik_fill_double(s->data[id(0)].d, (double)o.a[1]);
        else {
            std::vector<Visit> v;
            visitData(id(0), 1, v);
            for (auto& x : v) storeVal(TK_DOUBLE, x.addr, o.a[1]);
        }
        break;
    case OP_TRANS: // trans id space from to flow red
        modelStep(k);
        s->tr[id(0)] = a->laik_calc_transition(s->sp[id(1)], o.a[2] >= 0 ? s->part[id(2)] : nullptr, o.a[3] >= 0 ? s->part[id(3)] : nullptr,
                                               (Laik_DataFlow)o.a[4], (Laik_ReductionOperation)o.a[5]);
        break;
    case OP_EXEC: modelStep(k); a->laik_exec_transition(s->data[id(0)].d, s->tr[id(1)]); break;
    case OP_FREETRANS: modelStep(k); a->laik_free_transition(s->tr[id(0)]); s->tr.erase(id(0)); break;
    case OP_ACT: // act id data trans fromRes toRes
        modelStep(k);
        s->act[id(0)] = a->laik_calc_actions(s->data[id(1)].d, s->tr[id(2)], o.a[3] >= 0 ? s->res[id(3)] : nullptr, o.a[4] >= 0 ? s->res[id(4)] : nullptr);
        break;
    case OP_EXECACT: modelStep(k); a->laik_exec_actions(s->act[id(0)]); break;
    case OP_FREEACT: modelStep(k); a->laik_aseq_free(s->act[id(0)]); s->act.erase(id(0)); break;
    case OP_RES: {
        modelStep(k);
        Laik_Reservation* r = a->laik_reservation_new(s->data[id(1)].d);
        for (size_t i = 2; i < o.a.size(); i++) a->laik_reservation_add(r, s->part[id((int)i)]);
        a->laik_reservation_alloc(r);
        s->res[id(0)] = r;
        break;
    }
    case OP_USERES: modelStep(k);
        if (o.a[1] >= 0) a->laik_data_use_reservation(s->data[id(0)].d, s->res[id(1)]);
        break;
    case OP_FREERES: modelStep(k); a->laik_reservation_free(s->res[id(0)]); s->res.erase(id(0)); break;
    case OP_SLEEP: // sleep nodemask us
        modelStep(k);
        if ((o.a[0] >> s->n->id) & 1) block(nullptr, "application sleep", now + (uint64_t)o.a[1]);
        break;
    case OP_CLOCK: modelStep(k);
        if (s->n->id == id(0)) { s->n->clockOff += o.a[1]; stat(ST_CLOCKJUMP); }
        break;
    case OP_PROF: modelStep(k);
        switch (o.a[0]) {
        case 0: a->laik_enable_profiling(s->inst); break;
        case 1: a->laik_reset_profiling(s->inst); break;
        case 2: a->laik_profile_user_start(s->inst); break;
        case 3: a->laik_profile_user_stop(s->inst); break;
        case 4: {
            double t = a->laik_get_total_time(), b = a->laik_get_backend_time();
            if (t != t || b != b) violation("profile", "measured time is not a number");
            break;
        }
        case 5: case 6: a->laik_enable_profiling_file(s->inst, "profile.txt"); break;
        case 7: a->laik_writeout_profile(); break;
        case 8: a->laik_profile_printf("step %d\n", k); break;
        case 9: a->laik_close_profiling_file(s->inst); break;
        }
        break;
    case OP_MEM: modelStep(k); memCheck(k); break;
    case OP_ITER: case OP_AGENT: case OP_FAIL: case OP_GETFAIL: case OP_PHASE: modelStep(k); agentOp(k); break;
    case OP_LOG: modelStep(k);
        if (o.a[0] >= 0) a->laik_set_loglevel(id(0));
        a->laik_log(2, "step %d of the workload: %s", k, o.s.c_str());
        if (a->laik_log_begin(2)) {
            a->laik_log_append("part one %d ", k);
            a->laik_log_append("%s", o.s.c_str());
            a->laik_log_flush(" end");
        }
        break;
    case OP_KVNEW: case OP_KVSET: case OP_KVREM: case OP_KVCLEAN: case OP_KVSYNC: case OP_KVCHECK: case OP_KVFREE: case OP_KVCB: case OP_KVBULK: case OP_SPCHG:
    case OP_LOCSYNC: case OP_SPSET: case OP_SPSYNC: case OP_SPGET:
        modelStep(k);
        kvOp(k);
        break;
    case OP_RESIZE: case OP_REPART: case OP_RSDONE: case OP_JOIN: case OP_STRAY:
        elasticOp(k);
        break;
    default:
        modelStep(k);
    }
}

// ------------------------------------------------------------------- one run

static void setupEnv(Node& n, int i)
{
    const Config& c = spec->cfg;
    n.env.clear();
    n.env["LAIK_BACKEND"] = backendName;
    n.env["LAIK_SIZE"] = std::to_string(worldSize);
    if (c.get("generic")) n.env["LAIK_LAYOUT_GENERIC"] = "1";
    if (c.get("loglevel")) {
        static const char* f[] = { "", "n", "s" };
        std::string l = f[c.get("logfmt") % 3] + std::to_string(c.get("loglevel"));
        if (c.get("logfrom", -1) >= 0) l += ":" + std::to_string(c.get("logfrom"));
        if (c.get("logto", -1) >= 0) l += "-" + std::to_string(c.get("logto"));
        n.env["LAIK_LOG"] = l;
    }
    if (c.get("logfile")) n.env["LAIK_LOG_FILE"] = "laik.log";
    if (c.get("mpireduce", -1) >= 0) n.env["LAIK_MPI_REDUCE"] = std::to_string(c.get("mpireduce"));
    if (c.get("mpiasync", -1) >= 0) n.env["LAIK_MPI_ASYNC"] = std::to_string(c.get("mpiasync"));
    if (backendName == "tcp") {
        int64_t m = c.get("tcpmpi");
        n.env[m ? "PMI_SIZE" : "OMPI_COMM_WORLD_SIZE"] = std::to_string(worldSize);
        if (c.get("tcpcfg")) n.env["LAIK_TCP_CONFIG"] = "/etc/laik-tcp.conf";
        if (c.get("mpireduce", -1) >= 0) n.env["LAIK_TCP_REDUCE"] = std::to_string(c.get("mpireduce"));
    }
    if (backendName == "tcp2") {
        int64_t bm = c.get("binmask", -1);
        bool bin = bm < 0 || ((bm >> i) & 1);
        if (!bin) { n.env["LAIK_TCP2_BIN"] = "0"; stat(ST_BINOFF); }
        if (c.get("port")) n.env["LAIK_TCP2_PORT"] = std::to_string(c.get("port"));
        n.env["LAIK_TCP2_HOST"] = "host0";
    }
}

static void nodeMain(Node* n)
{
    NS* s = &ns[n->id];
    s->n = n;
    s->A = n->api;
    n->user = s;
    if (n->id >= worldSize && !spec->cfg.get("oversub", 0)) block([=] { return joinTime(n); }, "not started yet");
    int64_t delay = spec->cfg.get(("start" + std::to_string(n->id)).c_str(), 0);
    if (delay) block(nullptr, "not started yet", now + (uint64_t)delay);
    n->started = true;
    int argc = 1;
    static char name[] = "workload";
    char* argvv[2] = { name, nullptr };
    char** argv = argvv;
    s->inst = s->A->laik_init(&argc, &argv);
    if (!s->inst) violation("init", "no instance");
    s->lid = s->A->laik_mylocationid(s->inst);
    Laik_Group* world = s->A->laik_world(s->inst);
    Laik_Instance* inst = s->inst;
    joinHook(s, world);
    for (int k = s->startOp; k < (int)spec->ops.size(); k++) {
        n->curop = k;
        if (skipOp(s, k)) continue;
        execOp(k);
        logEvent(0x0F, n->id, k);
        if (s->removed) break;
        yieldPoint("between operations");
        if ((spec->cfg.get("slow") >> n->id) & 1) { stat(ST_SLOWNODE); block(nullptr, "slow process", now + (uint64_t)spec->cfg.get("slowus")); }
    }
    n->curop = (int)spec->ops.size();
    agentBye[s - ns] = true;
    s->A->laik_finalize(inst);
    agentsAfterFinalize(s);
    if (spec->cfg.get("backend") == 3) {
        std::string t = glibRunning(n);
        if (!t.empty()) violation("leftover", "thread '%s' of the backend still runs after laik_finalize", t.c_str());
        if (int k = netOpen(n)) violation("leftover", "%d sockets still open after laik_finalize", k);
    }
    s->done = true;
    n->finished = true;
    n->exited = true;
    netNodeGone(n);
    for (Fiber* f : n->fibers) if (f != cur) f->done = true; // threads end with the process
}

#include "post.inc"
