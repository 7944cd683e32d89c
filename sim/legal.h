// Which programs are legal uses of LAIK: the documented contract (and the
// recorded limitations) as a static check over an operation list.  Used by the
// generators and by the minimiser, so that a shrunk program stays legal.
#pragma once
#include "workload.h"

struct PInfo {
    int space = -1, group = -1;     // canonical group
    bool multi = false;             // some index may have several owners
    std::set<int64_t> cov;          // covered indexes when not full
    bool full = true;
    int kind = 0, prtr = -1;
    int mode = 0;
    bool needAllFrom = false;
    bool tagged = false;            // all tags > 0
    bool moved = false;             // migrated
    std::set<int> inter;            // partitionings we have intersections with
    bool empties = false;           // some process may own nothing
    int born = 0;
};
struct DInfo {
    int space = -1, type = 0, layout = 0, alloc = 0, prov = 0;
    int part = -1;                  // active partitioning
    bool everSwitched = false;
    int res = -1;
    bool initOnly = false;          // set_initial_partitioning: no memory yet
    int dom = 0;
};
struct GInfo { std::vector<int> lids; int canon = -1; int parent = -1; int parent2 = -1; };
struct TInfo { int space, from, to, flow, red; };
struct AInfo { int data, trans, fromRes, toRes; };
struct RInfo { int data; std::set<int> parts; bool inUse = false; };
struct KInfo {
    std::map<std::string, std::vector<int64_t>> pend;
    std::set<std::string> everSet;
    std::map<int64_t, std::set<int>> touched; // key -> lids which changed it since the last sync
    int64_t cleaner = 0, bulker = 0; // masks of processes which removed everything / set many entries since then
};

struct Legal {
    RunSpec& s;
    int world;
    int backend;
    bool mpiLike; // MPI, and the old TCP backend, which is a copy of it
    std::map<int, Space> sp;
    std::map<int, GInfo> gr;
    std::map<int, const Op*> pr;
    std::deque<Op> prOps;
    std::map<int, PInfo> part;
    std::map<int, DInfo> data;
    std::map<int, TInfo> tr;
    std::map<int, AInfo> act;
    std::map<int, RInfo> res;
    std::map<int, KInfo> kv;
    std::map<std::string, std::vector<int64_t>> spNames, spPend; // name -> space, processes knowing it
    std::set<int> used;             // ids ever created (unique over all kinds)
    int worldCanon = -1;
    int groupsMade = 0;
    int resizes = 0;
    bool inResize = false;
    int nagents = 0, nfail = 0;
    bool simpleAgent = false;
    bool elastic = false;
    int worldGid = -1, oldGid = -1;
    bool joinOk(const DInfo& d);
    bool elasticOk(const Op& o);
    std::set<int> joined;
    int pos = 0;
    explicit Legal(RunSpec& rs) : s(rs)
    {
        backend = (int)rs.cfg.get("backend", 1);
        mpiLike = backend == 1 || backend == 3;
        world = backend == 0 ? 1 : (int)rs.cfg.get("n", 2);
        elastic = rs.cfg.get("elastic") != 0;
    }
    bool accept(const Op& o) { if (!step(o)) return false; pos++; return true; }
    bool step(const Op& o);
    bool memoryOk(const DInfo& d, int from, int to, int flow, int red);
    bool preserveOk(const PInfo& f, const PInfo& t, int red, int dims);
    bool crossOk(const PInfo& f, const PInfo& t, int flow, int red, int dims);
    bool partUsed(int id)
    {
        for (auto& e : data) if (e.second.part == id) return true;
        for (auto& e : tr) if (e.second.from == id || e.second.to == id) return true;
        for (auto& e : res) if (e.second.parts.count(id)) return true;
        return false;
    }
};

// the lines which TCP2 sees in this text (and the incomplete one at its end)
inline std::vector<std::string> strayLines(const std::string& t, std::string& rest)
{
    std::vector<std::string> r;
    size_t i = 0;
    rest.clear();
    while (i < t.size()) {
        if (t[i] == 'B') { // binary data: does not belong to anything
            if (i + 2 >= t.size()) { rest = t.substr(i); break; }
            i += 3 + (size_t)(unsigned char)t[i + 1] + ((size_t)(unsigned char)t[i + 2] << 8);
            continue;
        }
        size_t e = t.find('\n', i), q = t.find((char)4, i);
        if (q != std::string::npos && (e == std::string::npos || q < e)) break; // same as quit
        if (e - i >= 8192 && (e != std::string::npos || t.size() - i >= 8192)) break;
        std::string l = e == std::string::npos ? t.substr(i) : t.substr(i, e - i);
        for (auto& c : l) if (c == '\r') c = ' ';
        if (e == std::string::npos) { rest = l; break; }
        r.push_back(l);
        if (!l.empty() && l[0] == 'q') break;
        i = e + 1;
    }
    return r;
}
