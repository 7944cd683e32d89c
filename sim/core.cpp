// Simulator core: fibers, scheduler, decisions, memory arena, process services.
#include "sim.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <csignal>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <time.h>

const char* dkName[DK_N] = { "sched", "seg", "read", "write", "eintr", "hold", "select",
    "conn", "mpi", "mpiord", "oom", "crash", "cond", "misc" };
const char* statName[ST_N] = {
    "sched_steps", "context_switches", "net_segments", "short_reads", "short_writes", "eintr",
    "channel_holds", "select_subsets", "connect_refused", "conn_resets", "stray_clients",
    "mpi_rendezvous", "mpi_eager", "mpi_delayed", "mpi_collectives", "alloc_failures",
    "process_crashes", "clock_jumps", "slow_node_runs", "joins", "removals",
    "oracle_checks", "elements_compared", "workload_ops", "panics_seen", "spurious_wakeups",
    "messages", "bytes", "reductions_checked", "kvs_checks", "resizes", "efence_runs",
    "threads", "text_mode_peers", "garbage_lines", "timeouts", "disk_errors", "reuse_hits", "multi_pack",
    "torn_commands", "cut_connections", "dup_connects" };

Result* R;
DecRec* decLog;
Node nodes[MAXNODES];
int numNodes;
Fiber* cur;
uint64_t now;
RunSpec* spec;
Rng drng;

static std::vector<Fiber*> fibers;
static std::vector<Item*> items;
static ucontext_t schedCtx;
static int fiberSeq;
static uint64_t stepLimit;
static int policy;
static int pSwitch;      // permille
static int victim = -1;
static uint32_t lowPrio;
static uint64_t evHash, schHash;
static std::vector<size_t> replayPos;
static int oomRate;
static int crashMode;
static bool failStop;                // after a failing process others may wait for ever or give up
bool disturbed;                      // such a failure happened
static bool jobDead;
static int afterSteps;               // scheduler steps since
static bool efence;
static int fillMode;
static bool inRun;
std::function<bool(Node*)> onNodeFail;   // failing is fine for this process now
std::function<bool()> onDeadlock;   // return true when a hang is acceptable here
std::function<void()> onStep;
bool signalIsCrash;                 // a fatal signal only kills the node it happens in

uint64_t mix(uint64_t a, uint64_t b)
{
    Rng r(a * 0x9E3779B97F4A7C15ull + b + 0x632BE59BD9B4E019ull);
    r.next();
    return r.next() ^ (b << 1);
}

// ---------------------------------------------------------------- results

[[noreturn]] void finishRun()
{
    R->hash = evHash;
    R->shash = schHash;
    R->simtime = now;
    _exit(0);
}

#include <execinfo.h>
bool debugTrace;
[[noreturn]] void violation(const char* cls, const char* fmt, ...)
{
    // who is in the world after a resize may depend on who is still alive:
    // a history with a death in it is not comparable any more
    if (failStop && disturbed && (!strcmp(cls, "resize") || !strcmp(cls, "world"))) {
        R->status = 1;
        finishRun();
    }
    if (debugTrace) {
        for (int i = 0; i < numNodes; i++)
            if (!nodes[i].err.empty()) fprintf(stderr, "---- stderr of p%d:\n%s\n", i, nodes[i].err.c_str());
    }
    if (debugTrace) { void* b[40]; int n = backtrace(b, 40); backtrace_symbols_fd(b, n, 2); }
    R->status = 2;
    snprintf(R->cls, sizeof R->cls, "%s", cls);
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(R->msg, sizeof R->msg, fmt, ap);
    va_end(ap);
    R->node = (cur && cur->node) ? cur->node->id : -1;
    R->op = (cur && cur->node) ? cur->node->curop : -1;
    finishRun();
}

[[noreturn]] void harnessError(const char* fmt, ...)
{
    R->status = 3;
    snprintf(R->cls, sizeof R->cls, "harness");
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(R->msg, sizeof R->msg, fmt, ap);
    va_end(ap);
    finishRun();
}

void logEvent(uint64_t a, uint64_t b, uint64_t c)
{
    evHash = (evHash ^ a) * 0x100000001b3ull;
    evHash = (evHash ^ b) * 0x100000001b3ull;
    evHash = (evHash ^ c) * 0x100000001b3ull;
    evHash ^= evHash >> 29;
}

void probe(uint64_t key)
{
    for (uint32_t i = 0; i < R->nprobe; i++)
        if (R->probe[i] == key) return;
    if (R->nprobe < 256) R->probe[R->nprobe++] = key;
}

// -------------------------------------------------------------- decisions

uint32_t choose(DK k, uint32_t n, std::function<uint32_t()> draw)
{
    if (n <= 1) return 0;
    int nd = (cur && cur->node) ? cur->node->id : EXTNODE;
    if (k == DK_SCHED) nd = 0;
    uint32_t v;
    if (spec->replay) {
        auto& st = spec->streams[k * MAXNODES + nd];
        size_t& p = replayPos[k * MAXNODES + nd];
        v = p < st.size() ? st[p] : 0;
        p++;
        if (v >= n) v = 0;
    }
    else {
        v = draw ? draw() : drng.below(n);
        if (v >= n) v = n - 1;
    }
    if (R->ndec < DECCAP) {
        decLog[R->ndec] = { (uint8_t)k, (uint8_t)nd, 0, v };
    }
    R->ndec++;
    return v;
}

bool fault(DK k, int permille)
{
    if (permille <= 0) return false;
    return choose(k, 2, [&] { return drng.chance(permille) ? 1u : 0u; }) != 0;
}

// ----------------------------------------------------------------- fibers

#define STACKSZ (1u << 20)
static char* stackPool;
static int stackUsed;
#define NSTACKS 192

static void fiberMain(unsigned lo, unsigned hi)
{
    Fiber* f = (Fiber*)(((uint64_t)hi << 32) | lo);
    f->fn();
    f->done = true;
    swapcontext(&f->ctx, &schedCtx);
    harnessError("finished fiber resumed");
}

Fiber* spawn(Node* n, const std::string& name, std::function<void()> fn, bool daemon)
{
    Fiber* f = new Fiber();
    f->id = fiberSeq++;
    f->node = n;
    f->name = name;
    f->fn = std::move(fn);
    f->daemon = daemon;
    f->prio = drng.below(1000000) + 1000;
    if (stackUsed >= NSTACKS) harnessError("out of fiber stacks");
    f->stack = stackPool + (size_t)(stackUsed++) * (STACKSZ + 4096) + 4096;
    getcontext(&f->ctx);
    f->ctx.uc_stack.ss_sp = f->stack;
    f->ctx.uc_stack.ss_size = STACKSZ;
    f->ctx.uc_link = nullptr;
    makecontext(&f->ctx, (void (*)())fiberMain, 2, (unsigned)(uint64_t)f, (unsigned)((uint64_t)f >> 32));
    fibers.push_back(f);
    if (n) n->fibers.push_back(f);
    return f;
}

static void toSched()
{
    Fiber* f = cur;
    f->savedErrno = errno;
    swapcontext(&f->ctx, &schedCtx);
    errno = f->savedErrno;
}

void block(Pred p, const char* what, uint64_t deadline)
{
    Fiber* f = cur;
    f->blocked = true;
    f->pred = std::move(p);
    f->deadline = deadline;
    f->what = what;
    f->timedout = false;
    toSched();
    f->blocked = false;
    f->pred = nullptr;
    f->deadline = UINT64_MAX;
}

void yieldPoint(const char* what)
{
    if (!cur) return;
    cur->what = what;
    if (failStop && cur->node && cur->node->id < numNodes && !cur->node->exited) {
        Node* n = cur->node;
        if (n->killAt > 0 && --n->killAt == 0) {
            stat(ST_CRASH);
            disturbed = true;
            logEvent(0xC4A6, n->id, now);
            n->crashed = true;
            nodeExit(n, 137);
        }
    }
    if (crashMode && cur->node && cur->node->id < numNodes && !cur->node->exited) {
        if (fault(DK_CRASH, crashMode)) {
            stat(ST_CRASH);
            logEvent(0xC4A5, cur->node->id, now);
            Node* n = cur->node;
            n->crashed = true;
            nodeExit(n, 137);
        }
    }
    toSched();
}

void addItem(Item* it)
{
    it->prio = drng.below(1000000) + 1000;
    items.push_back(it);
}

void removeItem(Item* it)
{
    for (size_t i = 0; i < items.size(); i++)
        if (items[i] == it) { items.erase(items.begin() + i); return; }
}

void nodeExit(Node* n, int code)
{
    n->exited = true;
    n->exitcode = code;
    netNodeGone(n);
    for (Fiber* f : n->fibers) f->done = true;
    logEvent(0xE817, n->id, code);
    if (failStop && disturbed && spec->cfg.get("backend") == 1) jobDead = true; // the MPI environment ends all processes
    if (cur && cur->node == n) {
        swapcontext(&cur->ctx, &schedCtx);
        harnessError("exited node resumed");
    }
}

void killNode(Node* n)
{
    n->crashed = true;
    nodeExit(n, 137);
}

struct Cand { Fiber* f; Item* it; };

static uint32_t pickPolicy(const std::vector<Cand>& c)
{
    uint32_t n = (uint32_t)c.size();
    uint32_t nf = 0;
    while (nf < n && c[nf].f) nf++;
    int pol = policy;
    if (R->st[ST_STEPS] > stepLimit / 3) pol = 0; // fair in the end
    switch (pol) {
    default:
    case 0: return drng.below(n);
    case 1: { // priorities with change points
        uint32_t best = 0, bp = 0;
        for (uint32_t i = 0; i < n; i++) {
            uint32_t p = c[i].f ? c[i].f->prio : c[i].it->prio;
            if (p >= bp) { bp = p; best = i; }
        }
        if (drng.chance(pSwitch)) {
            lowPrio = lowPrio > 1 ? lowPrio - 1 : 999;
            if (c[best].f) c[best].f->prio = lowPrio; else c[best].it->prio = lowPrio;
        }
        if (drng.chance(pSwitch)) { // and back up
            uint32_t j = drng.below(n);
            uint32_t p = 1000 + drng.below(1000000);
            if (c[j].f) c[j].f->prio = p; else c[j].it->prio = p;
        }
        return best;
    }
    case 2: // run to block; network lazy
        if (nf == 0) return drng.below(n);
        if (drng.chance(pSwitch)) return drng.below(n);
        return 0;
    case 3: // network eager
        if (nf < n && !drng.chance(pSwitch)) return nf + drng.below(n - nf);
        return drng.below(n);
    case 4: { // one slow node
        std::vector<uint32_t> ok;
        for (uint32_t i = 0; i < n; i++)
            if (!(c[i].f && c[i].f->node && c[i].f->node->id == victim)) ok.push_back(i);
        if (ok.empty() || drng.chance(2)) return drng.below(n);
        return ok[drng.below((uint32_t)ok.size())];
    }
    case 5: { // channels starved: deliver only when nothing else runs
        if (nf > 0 && !drng.chance(4)) return drng.below(nf);
        return drng.below(n);
    }
    case 6: { // one fast node
        for (uint32_t i = 0; i < nf; i++)
            if (c[i].f->node && c[i].f->node->id == victim && !drng.chance(20)) return i;
        return drng.below(n);
    }
    }
}

bool runScheduler()
{
    std::vector<Cand> c;
    Fiber* last = nullptr;
    while (true) {
        if (jobDead) { cur = nullptr; return true; }
        c.clear();
        uint64_t nextT = UINT64_MAX;
        bool pending = false;
        auto fiberReady = [&](Fiber* f) {
            if (f->done) return false;
            if (!f->blocked) return true;
            if (f->pred && f->pred()) return true;
            if (f->deadline <= now) return true;
            if (f->deadline < nextT) nextT = f->deadline;
            return false;
        };
        if (last && fiberReady(last)) c.push_back({ last, nullptr });
        for (Fiber* f : fibers) {
            if (!f->done && !f->daemon) pending = true;
            if (f == last) continue;
            if (fiberReady(f)) c.push_back({ f, nullptr });
        }
        if (!pending) return true;
        for (Item* it : items) {
            if (!it->enabled()) continue;
            uint64_t w = it->when();
            if (w <= now) c.push_back({ nullptr, it });
            else if (w < nextT) nextT = w;
        }
        if (c.empty()) {
            if (nextT != UINT64_MAX) {
                now = nextT;
                continue;
            }
            if (failStop && disturbed) return true;
            if (onDeadlock && onDeadlock()) continue;
            std::string d;
            for (Fiber* f : fibers)
                if (!f->done && !f->daemon && d.size() < 800)
                    d += " [" + f->name + ": " + f->what + (f->node ? " op " + std::to_string(f->node->curop) : "") + "]";
            cur = nullptr;
            violation("deadlock", "no process can make progress:%s %s", d.c_str(), netDescribe().c_str());
        }
        R->st[ST_STEPS]++;
        if (failStop && disturbed && ++afterSteps > 20000) { cur = nullptr; return true; }
        if (R->st[ST_STEPS] > stepLimit) {
            std::string d;
            for (Fiber* f : fibers)
                if (!f->done && d.size() < 800) d += " [" + f->name + ": " + f->what + "]";
            cur = nullptr;
            violation("livelock", "no completion within %llu scheduler steps:%s",
                      (unsigned long long)stepLimit, d.c_str());
        }
        cur = nullptr;
        uint32_t i = choose(DK_SCHED, (uint32_t)c.size(), [&] { return pickPolicy(c); });
        now += 1;
        if (c[i].f) {
            Fiber* f = c[i].f;
            if (f != last) {
                R->st[ST_SWITCHES]++;
                schHash = (schHash ^ (uint64_t)(f->id + 1)) * 0x100000001b3ull;
                schHash ^= schHash >> 31;
            }
            logEvent(1, f->id, now);
            if (f->blocked) f->timedout = !(f->pred && f->pred());
            last = f;
            cur = f;
            swapcontext(&schedCtx, &f->ctx);
            cur = nullptr;
            if (onStep) onStep();
        }
        else {
            schHash = (schHash ^ (uint64_t)(c[i].it->key() + 1000)) * 0x100000001b3ull;
            logEvent(2, c[i].it->key(), now);
            c[i].it->fire();
        }
    }
}

// ------------------------------------------------------------------ memory
#define ARENA_BASE 0x200000000000ull
#define ARENA_SIZE (1ull << 30)
#define RZ 32
#define MAGIC 0x5AFEB10C0DE5EED5ull
struct Hdr { uint64_t magic; uint64_t size; uint64_t freed; uint64_t fence; };
static_assert(sizeof(Hdr) == RZ, "");

static bool memTrace;
void dumpLive(Node* n, size_t from, bool bt)
{
    for (size_t i = from; i < n->allocs.size() && bt; i++) {
        Hdr* h = (Hdr*)(n->allocs[i] - sizeof(Hdr));
        if (h->freed) continue;
        fprintf(stderr, "LIVE %llu bytes\n", (unsigned long long)h->size);
        fflush(stderr);
        if (i < n->allocBt.size()) backtrace_symbols_fd(n->allocBt[i].data(), (int)n->allocBt[i].size(), 2);
    }
}

// the number of mappings of a process is limited (65530): with too many
// allocations, the remaining ones are not protected
static unsigned guards;
static void guard(void* p, size_t len)
{
    if (guards >= 24000) return;
    guards++;
    mprotect(p, len, PROT_NONE);
}

static char* arenaAlloc(Node* n, size_t size)
{
    char* p;
    if (efence) {
        // | header page(s) ... data right aligned | guard |
        size_t need = size + sizeof(Hdr) + 16;
        size_t pages = (need + 4095) / 4096;
        char* start = n->arenaPos;
        n->arenaPos += (pages + 1) * 4096;
        if (n->arenaPos > n->arenaEnd) harnessError("arena exhausted");
        guard(start + pages * 4096, 4096);
        uint64_t end = (uint64_t)(start + pages * 4096);
        p = (char*)((end - size) & ~15ull);
        Hdr* h = (Hdr*)(p - sizeof(Hdr));
        h->magic = MAGIC; h->size = size; h->freed = 0; h->fence = MAGIC;
        for (char* q = p + size; q < (char*)end; q++) *q = (char)0xFD;
    }
    else {
        size_t need = sizeof(Hdr) + ((size + 15) & ~15ull) + RZ;
        p = n->arenaPos + sizeof(Hdr);
        n->arenaPos += need;
        if (n->arenaPos > n->arenaEnd) harnessError("arena exhausted");
        Hdr* h = (Hdr*)(p - sizeof(Hdr));
        h->magic = MAGIC; h->size = size; h->freed = 0; h->fence = MAGIC;
        memset(p + size, 0xFD, ((size + 15) & ~15ull) - size + RZ);
    }
    n->allocs.push_back(p);
    if (memTrace) {
        void* b[14];
        int c = backtrace(b, 14);
        n->allocBt.resize(n->allocs.size());
        n->allocBt.back().assign(b, b + c);
    }
    n->liveAllocs++;
    n->liveBytes += size;
    return p;
}

static void fillNew(Node* n, char* p, size_t size)
{
    switch (fillMode) {
    case 0: memset(p, 0, size < 65536 ? size : 65536); break;
    case 1: memset(p, 0xFF, size < 65536 ? size : 65536); break;
    case 2: memset(p, 0xA5, size < 65536 ? size : 65536); break;
    default: {
        Rng r(mix(spec->seed, n->nalloc));
        size_t l = size < 65536 ? size : 65536;
        for (size_t i = 0; i < l; i++) p[i] = (char)(r.s = r.s * 6364136223846793005ull + 1442695040888963407ull) >> 3;
    }
    }
}

static Hdr* hdrOf(Node* n, void* p, const char* what)
{
    if ((char*)p < n->arena + (int)sizeof(Hdr) || (char*)p >= n->arenaPos || ((uint64_t)p & 15))
        violation("heap", "%s: pointer is not a heap block of this process", what);
    Hdr* h = (Hdr*)((char*)p - sizeof(Hdr));
    if (h->magic != MAGIC) violation("heap", "%s: block header damaged or not a block", what);
    return h;
}

static void checkBlock(char* p)
{
    Hdr* h = (Hdr*)(p - sizeof(Hdr));
    if (h->magic != MAGIC || h->fence != MAGIC)
        violation("heap", "write before a heap block of %llu bytes", (unsigned long long)h->size);
    size_t tail;
    if (efence) tail = (4096 - ((uint64_t)(p + h->size) & 4095)) & 4095;
    else tail = ((h->size + 15) & ~15ull) - h->size + RZ;
    if (efence && tail > 15) tail = 15;
    for (size_t i = 0; i < tail; i++)
        if ((unsigned char)p[h->size + i] != 0xFD)
            violation("heap", "write behind a heap block of %llu bytes (offset +%zu)",
                      (unsigned long long)h->size, i);
}

void checkArena(Node* n, bool full)
{
    Fiber* sc = cur;
    Fiber tmp;
    if (!cur || cur->node != n) { tmp.node = n; cur = &tmp; }
    for (char* p : n->allocs) {
        Hdr* h = (Hdr*)(p - sizeof(Hdr));
        if (efence && h->magic == MAGIC && h->freed) continue;
        checkBlock(p);
        if (full && h->freed) {
            size_t l = h->size < 4096 ? h->size : 4096;
            for (size_t i = 0; i < l; i++)
                if ((unsigned char)p[i] != 0xDD)
                    violation("heap", "write to a freed heap block of %llu bytes", (unsigned long long)h->size);
        }
    }
    cur = sc;
}

static Node* me()
{
    return (cur && cur->node && cur->node->id < numNodes) ? cur->node : nullptr;
}

static bool oomNow(Node* n)
{
    if (n->noMemAt > 0 && --n->noMemAt < n->noMemLen) {
        disturbed = n->outOfMem = true;
        stat(ST_OOM);
        logEvent(0x00E, n->id);
        errno = ENOMEM;
        return true;
    }
    if (!oomRate) return false;
    if (fault(DK_OOM, oomRate)) { stat(ST_OOM); logEvent(0x00F, n->id); errno = ENOMEM; return true; }
    return false;
}

static int fopenFail, fwriteFail;

std::string errTail(Node& n)
{
    std::string e = n.err;
    if (e.size() > 300) e = e.substr(e.size() - 300);
    for (auto& c : e) if (c == '\n') c = ' ';
    return e;
}

extern "C" {

void* __wrap_malloc(size_t size)
{
    Node* n = me();
    if (!n) return malloc(size);
    n->nalloc++;
    if (size > (256u << 20)) { errno = ENOMEM; return nullptr; }
    if (oomNow(n)) return nullptr;
    char* p = arenaAlloc(n, size);
    fillNew(n, p, size);
    return p;
}

void* __wrap_calloc(size_t a, size_t b)
{
    Node* n = me();
    if (!n) return calloc(a, b);
    size_t size;
    if (__builtin_mul_overflow(a, b, &size) || size > (256u << 20)) { errno = ENOMEM; return nullptr; }
    n->nalloc++;
    if (oomNow(n)) return nullptr;
    char* p = arenaAlloc(n, size);
    memset(p, 0, size);
    return p;
}

void __wrap_free(void* p)
{
    if (!p) return;
    Node* n = me();
    if (!n || (uint64_t)p < ARENA_BASE || (uint64_t)p >= ARENA_BASE + MAXNODES * ARENA_SIZE) {
        if (!n) { free(p); return; }
        // memory handed out by libc itself (getaddrinfo, strdup inside libc ...)
        violation("heap", "free: pointer does not come from malloc");
    }
    Hdr* h = hdrOf(n, p, "free");
    if (h->freed) violation("heap", "double free of a block of %llu bytes", (unsigned long long)h->size);
    checkBlock((char*)p);
    h->freed = 1;
    n->liveAllocs--;
    n->liveBytes -= h->size;
    memset(p, 0xDD, h->size < 4096 ? h->size : 4096);
    if (efence) {
        uint64_t a = ((uint64_t)p + 4095) & ~4095ull, e = ((uint64_t)p + h->size) & ~4095ull;
        if (e > a) guard((void*)a, e - a);
    }
}

void* __wrap_realloc(void* p, size_t size)
{
    Node* n = me();
    if (!n) return realloc(p, size);
    if (!p) return __wrap_malloc(size);
    Hdr* h = hdrOf(n, p, "realloc");
    if (h->freed) violation("heap", "realloc of a freed block");
    if (size > (256u << 20)) { errno = ENOMEM; return nullptr; }
    if (oomNow(n)) return nullptr;
    n->nalloc++;
    char* q = arenaAlloc(n, size);
    size_t c = h->size < size ? h->size : size;
    if (size > c) fillNew(n, q, size);
    memcpy(q, p, c);
    __wrap_free(p);
    return q;
}

int __wrap_posix_memalign(void** out, size_t, size_t size)
{
    void* p = __wrap_malloc(size);
    if (!p) return ENOMEM;
    *out = p;
    return 0;
}
void* __wrap_aligned_alloc(size_t, size_t size) { return __wrap_malloc(size); }

char* __wrap_strdup(const char* s)
{
    size_t l = strlen(s) + 1;
    char* p = (char*)__wrap_malloc(l);
    if (p) memcpy(p, s, l);
    return p;
}

char* __wrap_strndup(const char* s, size_t m)
{
    size_t l = strnlen(s, m);
    char* p = (char*)__wrap_malloc(l + 1);
    if (p) { memcpy(p, s, l); p[l] = 0; }
    return p;
}

// -------------------------------------------------------- process services

void __wrap_exit(int code)
{
    Node* n = me();
    if (!n) _exit(99);
    if (!n->expectExit && !(failStop && disturbed) && !(onNodeFail && onNodeFail(n)))
        violation("exit", "process %d exits with code %d: %s", n->id, code, errTail(*n).c_str());
    nodeExit(n, code);
    for (;;) {}
}
void __wrap__exit(int code) { __wrap_exit(code); }
void __wrap_abort(void) { violation("abort", "abort() called"); }

void __wrap___assert_fail(const char* expr, const char* file, unsigned line, const char* func)
{
    Node* n = me();
    const char* b = strrchr(file, '/');
    logEvent(0xA55, line);
    if (n && failStop && disturbed) { stat(ST_PANICS); nodeExit(n, 134); }
    if (n && onNodeFail && onNodeFail(n)) nodeExit(n, 134);
    if (signalIsCrash && n) {
        n->err += std::string("assertion failed: ") + expr + "\n";
        stat(ST_PANICS);
        nodeExit(n, 134);
    }
    violation("assert", "assertion '%s' failed in %s (%s:%u)", expr, func, b ? b + 1 : file, line);
}

void __wrap___stack_chk_fail(void) { violation("stack", "stack buffer overflow detected"); }

char* __wrap_getenv(const char* k)
{
    Node* n = me();
    if (!n) return getenv(k);
    auto it = n->env.find(k);
    return it == n->env.end() ? nullptr : (char*)it->second.c_str();
}

int __wrap_getpid(void) { Node* n = me(); return n ? n->pid : getpid(); }
int __wrap_getppid(void) { return 1000; }

int __wrap_gethostname(char* s, size_t l)
{
    Node* n = me();
    snprintf(s, l, "host%d", n ? n->host : 0);
    return 0;
}

static uint64_t nodeClock()
{
    Node* n = me();
    int64_t t = (int64_t)now + 1600000000ll * 1000000ll + (n ? n->clockOff : 0);
    return (uint64_t)t;
}

int __wrap_gettimeofday(struct timeval* tv, void*)
{
    uint64_t t = nodeClock();
    tv->tv_sec = t / 1000000;
    tv->tv_usec = t % 1000000;
    return 0;
}
time_t __wrap_time(time_t* o)
{
    time_t t = nodeClock() / 1000000;
    if (o) *o = t;
    return t;
}
clock_t __wrap_clock(void) { return (clock_t)now; }
int __wrap_clock_gettime(clockid_t id, struct timespec* ts)
{
    uint64_t t = id == CLOCK_MONOTONIC ? now : nodeClock();
    ts->tv_sec = t / 1000000;
    ts->tv_nsec = (t % 1000000) * 1000;
    return 0;
}
int __wrap_usleep(useconds_t us)
{
    if (!cur) return 0;
    block(nullptr, "usleep", now + us);
    return 0;
}
unsigned __wrap_sleep(unsigned s)
{
    if (!cur) return 0;
    block(nullptr, "sleep", now + (uint64_t)s * 1000000);
    return 0;
}
int __wrap_nanosleep(const struct timespec* ts, struct timespec*)
{
    block(nullptr, "nanosleep", now + (uint64_t)ts->tv_sec * 1000000 + ts->tv_nsec / 1000);
    return 0;
}
int __wrap_sched_yield(void) { yieldPoint("sched_yield"); return 0; }
typedef void (*sigh)(int);
sigh __wrap_signal(int, sigh) { return SIG_DFL; }
int __wrap_sigaction(int, const struct sigaction*, struct sigaction*) { return 0; }
int __wrap_rand(void) { return (int)(drng.next() & 0x7fffffff); }
long __wrap_random(void) { return (long)(drng.next() & 0x7fffffff); }
void __wrap_srand(unsigned) {}
void __wrap_srandom(unsigned) {}

// stdio of a node: stdout and stderr are variables of its library copy
// (they may be redirected by LAIK), files live in memory
struct VFile { uint32_t magic; int node; std::string data; bool failWrites, closed; };
static std::set<VFile*> vfiles;

static void capture(const char* s, size_t l)
{
    Node* n = me();
    if (!n) return;
    if (n->err.size() > 32768) n->err.erase(0, 16384);
    n->err.append(s, l);
}
static VFile* vfileOf(FILE* f)
{
    auto it = vfiles.find((VFile*)f);
    return it == vfiles.end() ? nullptr : *it;
}
// true if written into a stream of the simulated process
static bool nodeWrite(FILE* f, const char* s, size_t l, int& r)
{
    Node* n = me();
    if (!n) return false;
    if (!f) violation("stdio", "output to a stream which could not be opened (null)");
    VFile* v = vfileOf(f);
    if (v) {
        if (v->closed) violation("stdio", "output to a closed file");
        if (v->failWrites) { errno = ENOSPC; r = -1; stat(ST_DISKERR); return true; }
        if (v->data.size() < 65536) v->data.append(s, l);
        r = (int)l;
        return true;
    }
    if (f == stderr || f == stdout) { capture(s, l); r = (int)l; return true; }
    return false;
}
static FILE* nodeOut(bool err)
{
    Node* n = me();
    FILE** f = n ? (err ? n->perr : n->pout) : nullptr;
    return f ? *f : (err ? stderr : stdout);
}
int __wrap_vfprintf(FILE* f, const char* fmt, va_list ap)
{
    if (me()) {
        char b[4096];
        int r, l = vsnprintf(b, sizeof b, fmt, ap);
        if (nodeWrite(f, b, l < (int)sizeof b ? (size_t)l : sizeof b - 1, r)) return r < 0 ? r : l;
    }
    return vfprintf(f, fmt, ap);
}
int __wrap_fprintf(FILE* f, const char* fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    int r = __wrap_vfprintf(f, fmt, ap);
    va_end(ap);
    return r;
}
int __wrap_vprintf(const char* fmt, va_list ap) { return __wrap_vfprintf(nodeOut(false), fmt, ap); }
int __wrap_printf(const char* fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    int r = __wrap_vprintf(fmt, ap);
    va_end(ap);
    return r;
}
size_t __wrap_fwrite(const void* p, size_t s, size_t c, FILE* f)
{
    int r;
    if (nodeWrite(f, (const char*)p, s * c, r)) return r < 0 ? 0 : c;
    return fwrite(p, s, c, f);
}
int __wrap_fputs(const char* s, FILE* f)
{
    int r;
    if (nodeWrite(f, s, strlen(s), r)) return r < 0 ? EOF : 1;
    return fputs(s, f);
}
int __wrap_puts(const char* s) { __wrap_fputs(s, nodeOut(false)); return __wrap_fputs("\n", nodeOut(false)); }
int __wrap_fputc(int c, FILE* f)
{
    char b = (char)c;
    int r;
    if (nodeWrite(f, &b, 1, r)) return r < 0 ? EOF : c;
    return fputc(c, f);
}
int __wrap_putc(int c, FILE* f) { return __wrap_fputc(c, f); }
int __wrap_putchar(int c) { return __wrap_fputc(c, nodeOut(false)); }
int __wrap_fflush(FILE* f)
{
    VFile* v = vfileOf(f);
    if (v && v->closed && me()) violation("stdio", "fflush of a closed file");
    return 0;
}
FILE* __wrap_fopen(const char*, const char*)
{
    Node* n = me();
    if (!n || fault(DK_MISC, fopenFail)) { errno = ENOSPC; if (n) stat(ST_DISKERR); return nullptr; }
    VFile* v = new VFile{ 0xF11E, n->id, "", fault(DK_MISC, fwriteFail), false };
    vfiles.insert(v);
    n->openFiles++;
    return (FILE*)v;
}
FILE* __wrap_freopen(const char* p, const char* m, FILE*) { return __wrap_fopen(p, m); }
int __wrap_fclose(FILE* f)
{
    if (!me()) return 0;
    if (!f) violation("stdio", "fclose(NULL)");
    VFile* v = vfileOf(f);
    if (!v) return 0;
    if (v->closed) violation("stdio", "file closed twice");
    v->closed = true;
    me()->openFiles--;
    return 0;
}
int __wrap_system(const char*) { return -1; }

} // extern C

// ----------------------------------------------------------------- signals

static void onSignal(int sig, siginfo_t* si, void*)
{
    Node* n = (cur && cur->node && cur->node->id < numNodes) ? cur->node : nullptr;
    if ((signalIsCrash || (n && n->outOfMem)) && n && sig != SIGPROF && sig != SIGALRM) {
        sigset_t m;
        sigemptyset(&m);
        sigaddset(&m, sig);
        sigprocmask(SIG_UNBLOCK, &m, nullptr);
        stat(ST_PANICS);
        n->err += "fatal signal\n";
        n->exited = true;
        n->exitcode = 128 + sig;
        if (failStop && spec->cfg.get("backend") == 1) jobDead = true;
        netNodeGone(n);
        for (Fiber* f : n->fibers) f->done = true;
        logEvent(0x516, n->id, sig);
        cur = nullptr;
        setcontext(&schedCtx);
    }
    if (sig == SIGPROF || sig == SIGALRM)
        violation("cpuhang", "process does not return to the scheduler (endless computation)");
    (void)si;
    violation("signal", "fatal signal %d (%s) in %s", sig, strsignal(sig), n ? "a LAIK process" : "the harness");
}

void coreInit()
{
    stackPool = (char*)mmap(nullptr, (size_t)NSTACKS * (STACKSZ + 4096) + 4096, PROT_READ | PROT_WRITE,
                            MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    for (int i = 0; i < NSTACKS; i++)
        mprotect(stackPool + (size_t)i * (STACKSZ + 4096), 4096, PROT_NONE);
    for (int i = 0; i < MAXNODES; i++) {
        nodes[i].id = i;
        char* want = (char*)(ARENA_BASE + (uint64_t)i * ARENA_SIZE);
        char* p = (char*)mmap(want, ARENA_SIZE, PROT_READ | PROT_WRITE,
                              MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
        if (p != want) { fprintf(stderr, "cannot map arena\n"); exit(3); }
        nodes[i].arena = nodes[i].arenaPos = p;
        nodes[i].arenaEnd = p + ARENA_SIZE;
    }
}

void coreStartRun()
{
    inRun = true;
    evHash = schHash = 0xcbf29ce484222325ull;
    drng = Rng(mix(spec->seed, 0xDEC15104));
    replayPos.assign(DK_N * MAXNODES, 0);
    if (spec->replay) spec->streams.resize(DK_N * MAXNODES);
    policy = (int)spec->cfg.get("policy", 0);
    pSwitch = (int)spec->cfg.get("pswitch", 50);
    victim = (int)spec->cfg.get("victim", -1);
    stepLimit = (uint64_t)spec->cfg.get("steps", 3000000);
    oomRate = (int)spec->cfg.get("oom", 0);
    crashMode = (int)spec->cfg.get("crash", 0);
    efence = spec->cfg.get("efence", 0) != 0;
    memTrace = spec->cfg.get("memtrace", 0) != 0;
    fillMode = (int)spec->cfg.get("fill", 2);
    fopenFail = (int)spec->cfg.get("openfail", 0);
    fwriteFail = (int)spec->cfg.get("writefail", 0);
    signalIsCrash = spec->cfg.get("sigcrash", 0) != 0;
    if (efence) stat(ST_EFENCE);
    if (policy == 4) stat(ST_SLOWNODE);
    lowPrio = 999;
    failStop = spec->cfg.get("failstop", 0) != 0;
    disturbed = false;
    afterSteps = 0;
    jobDead = false;
    now = 1000;

    static char alt[65536];
    stack_t ss;
    memset(&ss, 0, sizeof ss);
    ss.ss_sp = alt;
    ss.ss_size = sizeof alt;
    sigaltstack(&ss, nullptr);
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = onSignal;
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    for (int s : { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGPROF, SIGALRM }) sigaction(s, &sa, nullptr);
    struct itimerval it;
    memset(&it, 0, sizeof it);
    it.it_value.tv_sec = spec->cfg.get("cpulimit", 20);
    setitimer(ITIMER_PROF, &it, nullptr);
}

void setCrashRate(int permille) { crashMode = permille; }
void setOomRate(int permille) { oomRate = permille; }
