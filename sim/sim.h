// Deterministic simulator core: fibers, scheduler, decisions, memory, clock.
// Every "process" of the simulated system is a copy of the LAIK library
// (node.so) with its own globals; everything it asks from the outside world
// arrives in a __wrap_* function or in the simulated MPI / GLib layers.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdarg>
#include <cstdio>
#include <string>
#include <vector>
#include <deque>
#include <map>
#include <set>
#include <functional>
#include <ucontext.h>

#define MAXNODES 16
#define EXTNODE 15 // pseudo node id for stray clients

// ---- decisions -----------------------------------------------------------
enum DK {
    DK_SCHED = 0, // which enabled item runs next (0 = continue / first)
    DK_SEG,       // bytes delivered by one network step (0 = all)
    DK_RD,        // short read (0 = everything available)
    DK_WR,        // short write (0 = everything)
    DK_EINTR,     // system call interrupted (0 = no)
    DK_HOLD,      // hold a channel back (0 = no)
    DK_SEL,       // select/poll reports only a subset (0 = all)
    DK_CONN,      // connection refused / reset / delayed (0 = no)
    DK_MPI,       // MPI send mode (0 = eager)
    DK_MPIORD,    // reduction order rotation
    DK_OOM,       // allocation failure
    DK_CRASH,     // process crash at this point
    DK_COND,      // condition variable: spurious wakeup / order
    DK_MISC,
    DK_N
};
extern const char* dkName[DK_N];

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed) {}
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint32_t below(uint32_t n) { return n ? (uint32_t)((next() >> 11) % n) : 0; }
    int range(int a, int b) { return a + (int)below((uint32_t)(b - a + 1)); }
    bool chance(int permille) { return (int)below(1000) < permille; }
};
uint64_t mix(uint64_t a, uint64_t b);

// ---- configuration of one run --------------------------------------------
struct Op {
    int kind = 0;
    std::vector<int64_t> a;
    std::string s;
};

struct Config {
    std::map<std::string, int64_t> v;
    int64_t get(const char* k, int64_t def = 0) const {
        auto it = v.find(k);
        return it == v.end() ? def : it->second;
    }
};

struct RunSpec {
    std::string prop;
    uint64_t seed = 0;
    Config cfg;
    std::vector<Op> ops;
    bool replay = false;
    std::vector<std::vector<uint32_t>> streams; // [kind*MAXNODES+node]
};

// ---- shared result of one run (survives a crash of the run's process) -----
#define NSTAT 64
enum Stat {
    ST_STEPS, ST_SWITCHES, ST_SEG, ST_RD, ST_WR, ST_EINTR, ST_HOLD, ST_SEL,
    ST_CONNREF, ST_RESET, ST_STRAY, ST_MPI_RDV, ST_MPI_EAGER, ST_MPI_DELAY,
    ST_MPI_COLL, ST_OOM, ST_CRASH, ST_CLOCKJUMP, ST_SLOWNODE, ST_JOIN, ST_REMOVE,
    ST_CHECKS, ST_ELEMS, ST_OPS, ST_PANICS, ST_SPURIOUS, ST_MSGS, ST_BYTES,
    ST_REDCHK, ST_KVSCHK, ST_RESIZE, ST_EFENCE, ST_THREADS, ST_BINOFF, ST_GARBAGE,
    ST_TIMEOUT, ST_DISKERR, ST_REUSEHIT, ST_PACKMULTI, ST_TORN, ST_CUT, ST_DUPCONN, ST_N
};
extern const char* statName[ST_N];

struct Result {
    int status;       // 0 unfinished, 1 ok, 2 violation, 3 harness error
    char cls[64];
    char msg[1024];
    int node, op;
    uint64_t hash;    // event log hash
    uint64_t shash;   // schedule hash
    uint64_t simtime;
    uint64_t st[NSTAT];
    uint32_t nontrivial;
    uint32_t ndec;
    char curop[128];
    uint32_t nprobe;
    uint64_t probe[256];  // distinct probe keys of this run
};
struct DecRec { uint8_t kind, node; uint16_t pad; uint32_t val; };
#define DECCAP (6u << 20)
extern Result* R;
extern DecRec* decLog;

// ---- fibers ----------------------------------------------------------------
typedef std::function<bool()> Pred;
struct Node;
struct Fiber {
    int id = 0;
    Node* node = nullptr;
    ucontext_t ctx;
    char* stack = nullptr;
    std::function<void()> fn;
    bool done = false, blocked = false, daemon = false;
    Pred pred;
    uint64_t deadline = UINT64_MAX;
    bool timedout = false;
    const char* what = "";
    int savedErrno = 0;
    std::string name;
    uint32_t prio = 0;
};

struct Sock;
struct Api;

struct Node {
    int id = 0;
    void* handle = nullptr;
    Api* api = nullptr;
    bool started = false, exited = false, finished = false, crashed = false;
    int exitcode = 0;
    bool expectExit = false;
    bool outOfMem = false;
    int64_t killAt = 0, noMemAt = 0, noMemLen = 0;
    int host = 0;
    int pid = 0;
    std::map<std::string, std::string> env;
    std::map<int, Sock*> fds;
    std::string err;         // captured stderr
    int64_t clockOff = 0;
    // memory
    char *arena = nullptr, *arenaEnd = nullptr, *arenaPos = nullptr;
    size_t liveAllocs = 0, liveBytes = 0;
    std::vector<char*> allocs;
    uint64_t nalloc = 0;
    int mpiRank = -1;
    size_t mpiReqs = 0, openFiles = 0;
    std::vector<std::vector<void*>> allocBt; // debugging: who allocated
    FILE **pout = nullptr, **perr = nullptr; // its stdout and stderr variables
    void* user = nullptr;
    std::vector<Fiber*> fibers;
    int curop = -1;
};

extern Node nodes[MAXNODES];
extern int numNodes;      // number of nodes loaded (library copies)
extern Fiber* cur;
extern bool disturbed;
extern uint64_t now;      // simulated micro seconds
extern RunSpec* spec;
extern Rng drng;          // decision PRNG

Fiber* spawn(Node* n, const std::string& name, std::function<void()> fn, bool daemon = false);
void block(Pred p, const char* what, uint64_t deadline = UINT64_MAX);
void yieldPoint(const char* what);
void nodeExit(Node* n, int code); // never returns when n is the current node
void killNode(Node* n);           // crash another node (or the current one)
bool runScheduler();              // returns when all fibers finished

// extra schedulable items (network channels, ...)
struct Item {
    virtual ~Item() {}
    virtual bool enabled() = 0;
    virtual uint64_t when() { return 0; } // not before
    virtual void fire() = 0;
    virtual int key() = 0;
    uint32_t prio = 0;
};
std::string errTail(Node& n);
extern std::function<bool(Node*)> onNodeFail; // failing is fine for this process now
void addItem(Item*);
void removeItem(Item*);

// decisions; both record and replay
uint32_t choose(DK k, uint32_t n, std::function<uint32_t()> draw = nullptr);
bool fault(DK k, int permille);          // 0 = no fault
void logEvent(uint64_t a, uint64_t b = 0, uint64_t c = 0);
void probe(uint64_t key);                // reach measure
inline void stat(Stat s, uint64_t n = 1) { R->st[s] += n; }

[[noreturn]] void violation(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void harnessError(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void finishRun();

// memory checks of one node (red zones, poison)
void checkArena(Node* n, bool full);

void coreInit();     // once per zygote
void coreStartRun(); // once per run, in child
void netStartRun();
void glibStartRun();
std::string glibRunning(Node* n);
void netNodeGone(Node* n);
void mpiStartRun(int worldSize);
bool mpiCheckLeftover(std::string& msg);
std::string netDescribe();

// stray clients: direct socket access for exe-side fibers
int extConnect(int host, int port);       // blocking; returns handle or -1
bool extSend(int h, const std::string& s);
std::string extRecvSome(int h, uint64_t timeout);
void extClose(int h);
std::function<int()> extWatch(int h);
std::function<bool()> extPeerClosed(int h);
bool netQuiet(Node* n);        // everything it sent has arrived
int netListenPort(Node* n);
int netOpen(Node* n);
