// Workload operations, the reference model and the per-process interpreter.
#pragma once
#include <set>
#include "sim.h"
#include "api.h"
#include <memory>

enum OpKind {
    OP_NONE, OP_SPACE, OP_FREESPACE, OP_GROUP, OP_PRTR, OP_PART, OP_FREEPART, OP_MIGRATE, OP_DATA, OP_FREEDATA,
    OP_SWITCH, OP_SWNEW, OP_FLOW, OP_SETINIT, OP_WRITE, OP_CHECK, OP_TRANS, OP_EXEC, OP_FREETRANS,
    OP_ACT, OP_EXECACT, OP_FREEACT, OP_RES, OP_USERES, OP_FREERES,
    OP_KVNEW, OP_KVSET, OP_KVREM, OP_KVCLEAN, OP_KVSYNC, OP_KVCHECK, OP_KVFREE,
    OP_LOCSYNC, OP_SPSET, OP_SPSYNC, OP_SPGET,
    OP_SLEEP, OP_PROF, OP_LOG, OP_PCHECK, OP_FILL, OP_CLOCK, OP_ITER,
    OP_RESIZE, OP_REPART, OP_RSDONE, OP_JOIN, OP_STRAY, OP_GCHECK, OP_PROVIDE, OP_KVCB,
    OP_KVBULK, OP_SPCHG, OP_MEM, OP_MAPOPS, OP_AGENT, OP_FAIL, OP_GETFAIL, OP_PHASE, OP_HUGE,
    OP_N
};
extern const char* opName[OP_N];
int opKindOf(const std::string& name);

enum PrtrKind { PK_ALL, PK_MASTER, PK_COPY, PK_CORNERHALO, PK_HALO, PK_BISECT, PK_GRID, PK_BLOCK, PK_BLOCK1,
    PK_REASSIGN, PK_CUSTOM, PK_SINGLEIDX, PK_GALL, PK_GMASTER, PK_N };

enum TypeKind { TK_CHAR, TK_UCHAR, TK_INT32, TK_UINT32, TK_INT64, TK_UINT64, TK_FLOAT, TK_DOUBLE,
    TK_CUSTOM /* + size */, TK_CREDUCE = 200 /* 16-byte type with own reduce function */ };

struct Rg { int64_t f[3], t[3]; };
struct Space {
    int dims = 1;
    Rg r;
    int64_t ext(int d) const { return d < dims ? r.t[d] - r.f[d] : 1; }
    int64_t size() const { return ext(0) * ext(1) * ext(2); }
    int64_t lin(const int64_t* i) const
    {
        int64_t l = i[0] - r.f[0];
        if (dims > 1) l += (i[1] - r.f[1]) * ext(0);
        if (dims > 2) l += (i[2] - r.f[2]) * ext(0) * ext(1);
        return l;
    }
};

struct TRange { int task, tag, map; Rg r; };

struct GroupM { std::vector<int> lids; int rankOf(int lid) const { for (size_t i = 0; i < lids.size(); i++) if (lids[i] == lid) return (int)i; return -1; } };
typedef std::shared_ptr<GroupM> GroupP;

struct PartM {
    int id = -1;
    Space space;
    GroupP group;              // group at creation (ranges[].task = rank in it)
    std::vector<TRange> ranges;
    uint64_t hash = 0;
    int prtr = -1;
    std::set<int> unknown;     // processes (lids) which do not know their ranges
    // owners by linear index (lids), computed on demand
    std::vector<std::vector<int>> own;
    bool ownDone = false;
    const std::vector<std::vector<int>>& owners();
    bool owns(int lid, int64_t lin);
    std::map<int, std::vector<char>> has;
    const std::vector<char>& hasOf(int lid);
};
typedef std::shared_ptr<PartM> PartP;

// value cells of one container, for one process
struct Cells {
    std::vector<int64_t> v;
    std::vector<uint8_t> st;  // 0 undefined, 1 value, 2 one of alts
};
struct DataM {
    Space space;
    int type = TK_DOUBLE;
    int layout = 0;
    PartP part;                // active partitioning
    int partId = -1;
    std::map<int, Cells> cells; // lid -> values
    std::map<std::pair<int, int64_t>, std::vector<int64_t>> alts;
};

bool runWorld();     // build nodes, run the program in spec, evaluate; true = ok
bool generate(const std::string& prop, uint64_t seed, int tier, RunSpec& out);
std::vector<std::string> profileNames();

int64_t normVal(int type, int64_t v);
std::string opText(const Op& o);
bool parseOp(const std::string& line, Op& o);
int profileVariant(const std::string& prop);
bool legalProgram(RunSpec& s);
bool repairProgram(RunSpec& s);
