// Reference model helpers: value domain, partitionings, op text format.
#include "workload.h"
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <sstream>

const char* opName[OP_N] = {
    "none", "space", "freespace", "group", "prtr", "part", "freepart", "migrate", "data", "freedata",
    "switch", "swnew", "flow", "setinit", "write", "check", "trans", "exec", "freetrans",
    "act", "execact", "freeact", "res", "useres", "freeres",
    "kvnew", "kvset", "kvrem", "kvclean", "kvsync", "kvcheck", "kvfree",
    "locsync", "spset", "spsync", "spget",
    "sleep", "prof", "log", "pcheck", "fill", "clock", "iter",
    "resize", "repart", "rsdone", "join", "stray", "gcheck", "provide", "kvcb",
    "kvbulk", "spchg", "mem", "mapops", "agent", "fail", "getfail", "phase", "huge",
};

int opKindOf(const std::string& n)
{
    for (int i = 0; i < OP_N; i++)
        if (n == opName[i]) return i;
    return -1;
}

std::string opText(const Op& o)
{
    std::string t = opName[o.kind];
    for (int64_t v : o.a) t += " " + std::to_string(v);
    if (!o.s.empty()) {
        t += " \"";
        char b[8];
        for (unsigned char c : o.s) { snprintf(b, sizeof b, "%02x", c); t += b; }
        t += "\"";
    }
    return t;
}

bool parseOp(const std::string& line, Op& o)
{
    std::istringstream is(line);
    std::string w;
    is >> w;
    o = Op();
    o.kind = opKindOf(w);
    if (o.kind < 0) return false;
    while (is >> w) {
        if (w[0] == '"') {
            for (size_t i = 1; i + 1 < w.size() && w[i] != '"'; i += 2)
                o.s.push_back((char)strtol(w.substr(i, 2).c_str(), nullptr, 16));
        }
        else o.a.push_back(strtoll(w.c_str(), nullptr, 10));
    }
    return true;
}

int64_t normVal(int type, int64_t v)
{
    switch (type) {
    case TK_CHAR: return (int8_t)v;
    case TK_UCHAR: return (uint8_t)v;
    case TK_INT32: return (int32_t)v;
    case TK_UINT32: return (uint32_t)v;
    default: return v;
    }
}

const std::vector<std::vector<int>>& PartM::owners()
{
    if (!ownDone) {
        own.assign(space.size(), {});
        for (auto& r : ranges) {
            int lid = group->lids[r.task];
            int64_t i[3];
            for (i[2] = r.r.f[2]; i[2] < r.r.t[2]; i[2]++)
                for (i[1] = r.r.f[1]; i[1] < r.r.t[1]; i[1]++)
                    for (i[0] = r.r.f[0]; i[0] < r.r.t[0]; i[0]++) {
                        auto& o = own[space.lin(i)];
                        bool have = false;
                        for (int l : o) if (l == lid) have = true;
                        if (!have) o.push_back(lid);
                    }
        }
        ownDone = true;
    }
    return own;
}

const std::vector<char>& PartM::hasOf(int lid)
{
    auto it = has.find(lid);
    if (it != has.end()) return it->second;
    auto& h = has[lid];
    h.assign(space.size(), 0);
    auto& o = owners();
    for (size_t i = 0; i < o.size(); i++)
        for (int l : o[i]) if (l == lid) h[i] = 1;
    return h;
}

bool PartM::owns(int lid, int64_t lin) { return hasOf(lid)[lin]; }
