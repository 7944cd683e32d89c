// Seeded generators: configuration, faults and a legal workload per property.
#include "legal.h"
#include <algorithm>
#include <functional>

static const int allTypes[] = { TK_DOUBLE, TK_INT32, TK_INT64, TK_FLOAT, TK_UCHAR, TK_CHAR, TK_UINT32, TK_UINT64 };

struct Gen;
typedef std::function<void(Gen&, int)> WorkFn;

struct Gen {
    RunSpec& s;
    Rng r;
    Legal* L = nullptr;
    int tier;
    int nid = 1;
    int worldGrp = -1;
    int bigSpaces = 0;    // that many large 1d spaces
    bool resized = false; // the world was changed already
    WorkFn doWork;        // used between resizes
    bool many = false; // overlapping ranges in most processes
    Gen(RunSpec& rs, int t) : s(rs), r(mix(rs.seed, 0x6E6E)), tier(t) {}
    ~Gen() { delete L; }

    int64_t& cfg(const char* k) { return s.cfg.v[k]; }
    template <class T> const T& pick(const std::vector<T>& v) { return v[r.below((uint32_t)v.size())]; }

    // ---- configuration ------------------------------------------------------
    int backend() { return (int)s.cfg.get("backend"); }
    int n() { return (int)s.cfg.get("n"); }

    // mpi / tcp2 / single shares in percent
    void base(int mpi, int tcp2, int single, int nmin, int nmax)
    {
        int x = r.range(1, mpi + tcp2 + single);
        int b = x <= mpi ? 1 : x <= mpi + tcp2 ? 2 : 0;
        cfg("backend") = b;
        int nn = r.range(nmin, nmax);
        if (tier && r.chance(150)) nn = r.range(nmax, nmax + 3);
        cfg("n") = b == 0 ? 1 : nn;
        cfg("fill") = r.below(4);
        cfg("policy") = r.below(7);
        cfg("pswitch") = pick<int64_t>({ 5, 50, 300 });
        cfg("victim") = r.below((uint32_t)nn);
        // in use for a long time already
        if (r.chance(40)) cfg("aged") = pick<int64_t>({ 999990, 1000000, 99999990, 2000000000 });
        cfg("steps") = 1500000;
        if (r.chance(60)) cfg("efence") = 1;
    }
    void knobs()
    {
        if (r.chance(150)) cfg("generic") = 1;
        if (backend() == 1) {
            if (r.chance(400)) cfg("mpireduce") = r.below(2); else cfg("mpireduce") = -1;
            if (r.chance(400)) cfg("mpiasync") = r.below(2); else cfg("mpiasync") = -1;
        }
        if (backend() == 3 && r.chance(400)) cfg("mpireduce") = r.below(2);
        if (backend() == 2 && r.chance(300)) cfg("binmask") = r.below(1u << std::min(n(), 12));
    }
    void netFaults(int level)
    {
        if (backend() == 1) {
            cfg("mpimode") = r.below(4);
            cfg("mpithresh") = pick<int64_t>({ 0, 16, 64, 1000, 100000 });
            if (r.chance(300 + level * 200)) cfg("mpidelay") = pick<int64_t>({ 20, 100, 400 });
        }
        if (backend() == 2) {
            if (r.chance(400 + 200 * level)) cfg("seg") = pick<int64_t>({ 20, 100, 500 });
            if (r.chance(300 + 200 * level)) cfg("rd") = pick<int64_t>({ 20, 100, 400 });
            if (r.chance(300 + 200 * level)) cfg("sel") = pick<int64_t>({ 50, 300 });
            if (r.chance(300 + 200 * level)) { cfg("hold") = pick<int64_t>({ 5, 30, 100 }); cfg("holdmax") = pick<int64_t>({ 100, 5000, 100000 }); }
            if (level > 0) {
                if (r.chance(500)) cfg("wr") = pick<int64_t>({ 20, 100, 400 });
                if (r.chance(300)) cfg("sockcap") = pick<int64_t>({ 512, 4096, 20000 });
            }
            hosts();
        }
        if (backend() == 3) {
            if (r.chance(800)) cfg("tcpcfg") = 1 + r.below(1000000);
            if (s.cfg.get("tcpcfg")) {
                cfg("tcpaddr") = r.below(3);
                if (s.cfg.get("tcpaddr") == 1) hosts();
                if (level > 0) { cfg("cfgchange") = r.below(2); cfg("cfgfail") = pick<int64_t>({ 0, 0, 100, 300 }); }
            }
            else cfg("tcpmpi") = r.below(2);
            if (r.chance(400 + 200 * level)) cfg("seg") = pick<int64_t>({ 20, 100, 500 });
            if (r.chance(300 + 200 * level)) cfg("rd") = pick<int64_t>({ 20, 100, 400 });
            if (r.chance(300 + 200 * level)) cfg("sel") = pick<int64_t>({ 50, 300 });
            if (r.chance(300 + 200 * level)) { cfg("hold") = pick<int64_t>({ 5, 30, 100 }); cfg("holdmax") = pick<int64_t>({ 100, 5000, 100000 }); }
            if (r.chance(300)) cfg("spurious") = pick<int64_t>({ 20, 300 });
            if (level > 0) {
                if (r.chance(500)) cfg("wr") = pick<int64_t>({ 20, 100, 400 });
                if (r.chance(300)) cfg("sockcap") = pick<int64_t>({ 512, 4096, 20000 });
                if (r.chance(300)) cfg("refuse") = pick<int64_t>({ 20, 200 });
            }
            cfg("efence") = 0;
        }
    }
    void oldTcp()
    {
        if (s.cfg.get("backend") == 0) cfg("n") = r.range(1, 4);
        cfg("backend") = 3;
        cfg("steps") = 500000; // a process waiting for ever keeps the others asking
        cfg("victim") = r.below((uint32_t)n());
    }
    void hosts()
    {
        if (r.chance(500)) return; // all on one host
        int mode = r.below(3);
        for (int i = 0; i < n() + (int)s.cfg.get("joiners"); i++) {
            std::string k = "host" + std::to_string(i);
            s.cfg.v[k] = mode == 0 ? i : mode == 1 ? i / 2 : (int)r.below(3);
        }
        s.cfg.v["host0"] = 0;
    }
    // more processes are started than the world should have
    void oversub(int permille)
    {
        if (n() < 2 || !r.chance((uint32_t)permille)) return;
        int j = r.range(1, std::min(3, n() - 1));
        cfg("joiners") = j;
        cfg("oversub") = 1;
        int mode = r.below(3);
        for (int i = 0; i < n() + j; i++) {
            if (mode == 0) s.cfg.v.erase("start" + std::to_string(i));
            else if (r.chance(500)) s.cfg.v["start" + std::to_string(i)] = r.below(r.chance(500) ? 500 : 20000) + 1;
            if (!s.cfg.v.count("host" + std::to_string(i)) && r.chance(300)) s.cfg.v["host" + std::to_string(i)] = r.below(3);
        }
        s.cfg.v["host0"] = 0;
        if (mode == 0 && r.chance(500)) s.cfg.v["start0"] = r.below(20000) + 1; // all others are waiting
    }
    void starts(int maxUs)
    {
        for (int i = 0; i < n(); i++)
            if (r.chance(500)) s.cfg.v["start" + std::to_string(i)] = r.below((uint32_t)maxUs) + 1;
    }

    // ---- operations -----------------------------------------------------------
    bool push(int kind, std::vector<int64_t> a, const std::string& str = "")
    {
        Op o;
        o.kind = kind;
        o.a = std::move(a);
        o.s = str;
        if (!L) L = new Legal(s);
        if (!L->accept(o)) return false;
        s.ops.push_back(o);
        return true;
    }

    int world()
    {
        if (worldGrp < 0) {
            int id = nid++;
            push(OP_GROUP, { id, 0 });
            worldGrp = id;
        }
        return worldGrp;
    }
    int space(int dims, int64_t maxElems, bool shift = true)
    {
        int id = nid++;
        std::vector<int64_t> a = { id, dims };
        int64_t lim = maxElems;
        bool large = dims == 1 && bigSpaces > 0;
        if (large) {
            bigSpaces--;
            lim = pick<int64_t>({ 3000, 9000, 20000 });
            // each piece of a message costs steps
            if (s.cfg.get("seg") || s.cfg.get("rd") || s.cfg.get("wr") || s.cfg.get("sockcap")) lim = 3000;
            cfg("steps") = 4000000;
        }
        for (int d = 0; d < 3; d++) {
            int64_t mx = dims == 1 ? lim : dims == 2 ? (int64_t)std::max(2.0, std::min(24.0, (double)lim / 4)) : 9;
            int64_t e = d < dims ? 1 + (int64_t)r.below((uint32_t)mx) : 1;
            if (!large && r.chance(80)) e = 1;
            if (large) e = lim - e / 8;
            if (d >= dims) e = 1;
            int64_t f = 0;
            if (shift && r.chance(200)) f = (int64_t)r.range(-20, 20);
            if (d >= dims) f = 0;
            a.push_back(f);
            a.push_back(f + e);
        }
        return push(OP_SPACE, a) ? id : -1;
    }
    int prtr(std::vector<int64_t> rest)
    {
        int id = nid++;
        rest.insert(rest.begin(), id);
        return push(OP_PRTR, rest) ? id : -1;
    }
    int partRaw(int p, int g, int sp, int other, int mode, int arg)
    {
        int id = nid++;
        std::string nm;
        if (mode == 6 && (other >= 0 || g < 0 || (int)L->gr[g].lids.size() != L->world || s.cfg.get("elastic"))) mode = 0;
        if (mode == 5) for (int i = r.range(1, 40); i > 0; i--) nm.push_back((char)('a' + r.below(26)));
        return push(OP_PART, { id, p, g, sp, other, mode, arg }, nm) ? id : -1;
    }
    int storeMode() { return r.chance(700) ? 0 : r.chance(500) ? 1 : r.chance(500) ? 5 : 6; }

    // random ranges for processes: kinds of ownership structure
    // how: 0 disjoint full cover, 1 holes, 2 overlapping
    std::vector<int64_t> customRanges(int sp, int G, int how, int maxMaps, bool& ok)
    {
        Space& x = L->sp[sp];
        std::vector<int64_t> a;
        ok = true;
        struct Box { int64_t f[3], t[3]; };
        std::vector<Box> boxes;
        Box whole;
        for (int d = 0; d < 3; d++) { whole.f[d] = x.r.f[d]; whole.t[d] = x.r.t[d]; }
        boxes.push_back(whole);
        int cuts = r.range(0, std::min(3 * G, 12));
        for (int c = 0; c < cuts; c++) {
            size_t b = r.below((uint32_t)boxes.size());
            int d = r.below(x.dims);
            Box& q = boxes[b];
            if (q.t[d] - q.f[d] < 2) continue;
            int64_t at = q.f[d] + 1 + r.below((uint32_t)(q.t[d] - q.f[d] - 1));
            Box z = q;
            q.t[d] = at;
            z.f[d] = at;
            boxes.push_back(z);
        }
        std::map<int, int> tagNo;
        int64_t cnt = 0;
        std::vector<int64_t> e;
        bool onlyOneTag = maxMaps <= 1;
        for (auto& b : boxes) {
            int owners = how == 2 ? r.range(1, std::max(1, std::min(G, 3))) : 1;
            if (how == 2 && many) owners = r.range(std::max(1, G - 3), G);
            if (how == 1 && r.chance(250)) owners = 0;
            std::set<int> who;
            while ((int)who.size() < owners) who.insert((int)r.below(G));
            for (int t : who) {
                int tag = onlyOneTag ? 1 : 1 + (int)r.below(maxMaps);
                e.push_back(t);
                e.push_back(tag);
                for (int d = 0; d < 3; d++) { e.push_back(d < x.dims ? b.f[d] : 0); e.push_back(d < x.dims ? b.t[d] : 1); }
                cnt++;
            }
        }
        if (cnt == 0) ok = false;
        a.push_back(cnt);
        a.insert(a.end(), e.begin(), e.end());
        return a;
    }

    int customPrtr(int sp, int grp, int how, int maxMaps)
    {
        bool ok;
        auto e = customRanges(sp, (int)L->gr[grp].lids.size(), how, maxMaps, ok);
        if (!ok) return -1;
        int flags = 0;
        if (how == 1) flags |= LAIK_PF_NoFullCoverage;
        if (maxMaps > 1 || r.chance(300)) flags |= LAIK_PF_GroupByTag;
        if (r.chance(200)) flags |= LAIK_PF_Compact;
        if (L->sp[sp].dims == 1 && r.chance(150)) flags |= LAIK_PF_Merge;
        std::vector<int64_t> a = { PK_CUSTOM, flags, L->sp[sp].dims };
        a.insert(a.end(), e.begin(), e.end());
        return prtr(a);
    }
    int singlePrtr(int sp, int grp, bool multi)
    {
        Space& x = L->sp[sp];
        if (x.dims != 1 || x.size() > 300) return -1;
        int G = (int)L->gr[grp].lids.size();
        std::vector<int64_t> a = { PK_SINGLEIDX, 0, 0 };
        bool holes = r.chance(250);
        int flags = LAIK_PF_SingleIndex;
        if (holes) flags |= LAIK_PF_NoFullCoverage;
        if (r.chance(400)) flags |= LAIK_PF_Compact;
        std::vector<int64_t> idx;
        for (int64_t i = x.r.f[0]; i < x.r.t[0]; i++) idx.push_back(i);
        for (size_t i = idx.size(); i > 1; i--) std::swap(idx[i - 1], idx[r.below((uint32_t)i)]);
        int64_t c = 0;
        for (int64_t i : idx) {
            if (holes && r.chance(200)) continue;
            std::set<int> who;
            who.insert((int)r.below(G));
            if (multi && r.chance(300)) who.insert((int)r.below(G));
            for (int t : who) { a.push_back(t); a.push_back(i); c++; }
        }
        if (!c) return -1;
        a[1] = flags;
        a[2] = c;
        return prtr(a);
    }

    // create a partitioning; multi: owners may overlap, holes allowed
    // returns id or -1
    int anyPart(int sp, int grp, bool multi, bool holes, int maxMaps)
    {
        int dims = L->sp[sp].dims;
        for (int tries = 0; tries < 12; tries++) {
            int k = r.below(14);
            int p = -1, other = -1;
            int mode = storeMode();
            switch (k) {
            case 0: if (!multi) continue; p = r.chance(500) ? prtr({ PK_ALL }) : prtr({ PK_GALL }); break;
            case 1: p = r.chance(500) ? prtr({ PK_MASTER }) : prtr({ PK_GMASTER }); break;
            case 2: p = prtr({ PK_BISECT }); break;
            case 3: {
                if (dims != 3) continue;
                int G = (int)L->gr[grp].lids.size();
                int x = r.range(1, G), y = r.range(1, std::max(1, G / x)), z = std::max(1, G / (x * y));
                p = prtr({ PK_GRID, x, y, z });
                break;
            }
            case 4: case 5: {
                int pd = r.below(dims);
                int cyc = r.chance(600) ? 1 : r.range(2, 3);
                int wm = pd == 0 && r.chance(300) ? r.range(1, 3) : 0;
                int tw = r.chance(200) ? 1 : 0;
                p = prtr({ PK_BLOCK, pd, cyc, wm, tw, (int64_t)r.below(1000) });
                break;
            }
            case 6: p = prtr({ PK_BLOCK1 }); break;
            case 7: case 8: p = customPrtr(sp, grp, multi && r.chance(500) ? 2 : 0, maxMaps); break;
            case 9: if (!holes) continue; p = customPrtr(sp, grp, 1, maxMaps); break;
            case 10: p = singlePrtr(sp, grp, multi); break;
            case 11: case 12: {
                if (!multi) continue;
                int b = anyBase(sp, grp);
                if (b < 0) continue;
                other = b;
                p = prtr({ r.chance(500) ? PK_HALO : PK_CORNERHALO, (int64_t)r.range(1, 3) });
                break;
            }
            case 13: {
                int b = -1;
                for (auto& e : L->part) if (e.second.space == sp && (e.second.kind == PK_BLOCK || e.second.kind == PK_BLOCK1) && e.second.group == L->gr[grp].canon && r.chance(400)) b = e.first;
                if (b < 0) continue;
                if (!multi && dims > 1) continue;
                other = b;
                int bd = L->part[b].kind == PK_BLOCK1 ? 0 : (int)L->pr[L->part[b].prtr]->a[2];
                p = prtr({ PK_COPY, bd, r.below(dims) });
                break;
            }
            }
            if (p < 0) continue;
            int arg = -1;
            int id = partRaw(p, grp, sp, other, mode, arg);
            if (id >= 0) return id;
        }
        return -1;
    }
    // sometimes: a target created by the switch itself
    int orNew(int to, int sp)
    {
        if (!r.chance(80) || L->elastic) return to;
        int g = -1;
        for (auto& e : L->gr) if (e.second.canon == L->worldCanon) { g = e.first; break; }
        if (g < 0) return to;
        int p;
        switch (r.below(5)) {
        case 0: p = prtr({ PK_ALL }); break;
        case 1: p = prtr({ PK_MASTER }); break;
        case 2: p = prtr({ PK_BISECT }); break;
        case 3: p = prtr({ PK_BLOCK, r.below(L->sp[sp].dims), r.range(1, 3), 0, r.below(2), (int64_t)r.below(1000) }); break;
        default: p = customPrtr(sp, g, r.chance(300) ? 2 : 0, 2); break;
        }
        int q = p < 0 ? -1 : partRaw(p, g, sp, -1, 6, -1);
        return q < 0 ? to : q;
    }
    int anyBase(int sp, int grp)
    {
        std::vector<int> c;
        for (auto& e : L->part) {
            auto& q = e.second;
            if (q.space == sp && q.group == L->gr[grp].canon && !q.multi && q.full && !q.moved && q.kind != PK_CUSTOM && q.kind != PK_MASTER && q.kind != PK_GMASTER && q.mode != 2 && q.mode != 3) c.push_back(e.first);
        }
        if (!c.empty() && r.chance(700)) return pick(c);
        int p = r.chance(500) ? prtr({ PK_BLOCK1 }) : prtr({ PK_BISECT });
        return partRaw(p, grp, sp, -1, 0, -1);
    }
    int newData(int sp, int type, int layout = 0, int alloc = 0, int prov = 0)
    {
        int id = nid++;
        return push(OP_DATA, { id, sp, type, layout, alloc, prov }) ? id : -1;
    }
    int anyType(bool custom)
    {
        if (custom && backend() != 1 && backend() != 3 && r.chance(200)) {
            if (r.chance(300)) return TK_CREDUCE;
            return TK_CUSTOM + pick<int>({ 2, 3, 7, 12, 16, 24, 40 });
        }
        return allTypes[r.below(8)];
    }
    int checkPath() { return (int)r.below(3); }
    int mapOpsPm = 0; // share of checks followed by packing, unpacking, copying
    bool check(int d)
    {
        if (!push(OP_CHECK, { d, checkPath() })) return false;
        if (mapOpsPm && r.chance((uint32_t)mapOpsPm)) mapOps(d);
        return true;
    }
    // boxes far apart in an index space larger than memory
    void huge(uint32_t pm, int red = -1)
    {
        if (!r.chance(pm)) return;
        for (int c = r.range(1, 2); c > 0; c--) {
            int dims = red > 0 || r.chance(500) ? 1 : r.range(2, 3);
            push(OP_HUGE, { world(), dims, (int64_t)r.below(1000000000), r.below(2), dims == 1 ? (red >= 0 ? red : r.below(3)) : 0 });
        }
    }
    bool mapOps(int d)
    {
        std::vector<int> c = { d };
        if (L->data.count(d)) for (auto& e : L->data) if (e.second.space == L->data[d].space && e.second.type == L->data[d].type) c.push_back(e.first);
        int o = pick(c);
        if (r.chance(500)) std::swap(o, d);
        return push(OP_MAPOPS, { d, o, (int64_t)r.below(1000000000) });
    }
    // processes which die or run out of memory at some point
    void failures()
    {
        cfg("failstop") = 1;
        cfg("steps") = 200000;
        int c = r.chance(750) ? 1 : 2;
        auto logUp = [&](int max) { int b = r.range(1, max); return (int64_t)r.range(1, 1 << b); };
        while (c-- > 0) {
            std::string i = std::to_string(r.below((uint32_t)n()));
            if (backend() == 2 && n() > 1 && r.chance(600)) s.cfg.v["kill" + i] = logUp(14);
            else {
                s.cfg.v["nomem" + i] = logUp(10);
                if (r.chance(300)) s.cfg.v["nomemlen" + i] = pick<int64_t>({ 2, 5, 1000000 });
            }
        }
    }
    // failure announcements from outside
    void agents(int rounds)
    {
        int na = 0, work = r.range(0, 2);
        std::vector<int> types;
        for (int k = 0; k < rounds; k++) {
            int x = r.below(10);
            if (na == 0 || (x < 2 && na < 10)) {
                int c = r.chance(60) ? 10 - na : 1;
                while (c-- > 0) {
                    int t = r.chance(700) ? 1 : pick<int>({ 0, 2 });
                    if (r.chance(200) ? push(OP_AGENT, { 1, 17, pick<int64_t>({ 0, 3, 500, r.range(-5, 1000) }) }) : push(OP_AGENT, { t, (int64_t)r.below(16), r.range(0, 4) })) { na++; }
                }
                continue;
            }
            if (x < 5) push(OP_FAIL, { r.below((uint32_t)na), pick<int64_t>({ 0, 0, 20, 500, 20000 }), r.chance(500) ? 0 : (int64_t)r.below(1u << n()), r.range(1, 3), pick<int64_t>({ 0, 0, 63 }) });
            else if (x < 7) push(OP_GETFAIL, {});
            else if (x == 7) push(OP_ITER, { (int64_t)r.range(-2, 1000) });
            else if (x == 8) push(OP_PHASE, { (int64_t)r.range(-3, 100), r.below(3), r.below(5) });
            else if (work > 0 && r.chance(500)) { work--; mixed(1, 2); }
            else push(OP_SLEEP, { (int64_t)r.below(1u << n()), (int64_t)r.below(50000) });
        }
        push(OP_GETFAIL, {});
        push(OP_ITER, { 5 });
    }
    // several containers with the same elements in different layouts
    void layouts(int rounds)
    {
        int g = world();
        int dims = r.range(1, 3);
        int sp = space(dims, r.chance(700) ? 60 : 400);
        if (sp < 0) return;
        for (int i = r.range(1, 4); i > 0; i--) anyPart(sp, g, r.chance(600), r.chance(200), r.chance(500) ? 3 : 1);
        auto ps = partsOf(sp);
        if (ps.empty()) return;
        int type = anyType(true);
        std::vector<int> ds;
        for (int i = r.range(1, 3); i > 0; i--) {
            int lay = r.chance(400) ? r.range(1, 2) : 0;
            int d = newData(sp, type, lay, r.below(3), !lay && r.chance(100) ? 1 : 0);
            if (d >= 0) ds.push_back(d);
        }
        if (ds.empty()) return;
        for (int d : ds) {
            if (r.chance(300)) {
                std::vector<int64_t> a = { nid++, d };
                std::set<int> u;
                int c = r.range(1, (int)ps.size());
                while (c-- > 0) u.insert(pick(ps));
                for (int p : u) a.push_back(p);
                if (push(OP_RES, a)) push(OP_USERES, { d, a[0] });
            }
            if (push(OP_SWITCH, { d, pick(ps), LAIK_DF_None, LAIK_RO_None })) push(OP_WRITE, { d, 0, 0, 0 });
        }
        for (int k = 0; k < rounds; k++) {
            int d = pick(ds);
            if (r.chance(500)) {
                if (r.chance(700) && push(OP_SWITCH, { d, pick(ps), LAIK_DF_Preserve, LAIK_RO_None })) { }
                else if (push(OP_SWITCH, { d, pick(ps), LAIK_DF_None, LAIK_RO_None })) push(OP_WRITE, { d, r.below(2), 0, 0 });
            }
            if (r.chance(200)) push(OP_WRITE, { d, r.below(2), 0, 0 });
            mapOps(d);
            if (r.chance(500)) check(d);
        }
        for (int d : ds) check(d);
        freeAll();
    }
    int domFor(int red)
    {
        if (red == LAIK_RO_Sum) return 1;
        if (red == LAIK_RO_Prod) return 2;
        if (red == LAIK_RO_And || red == LAIK_RO_Or) return 3;
        return 0;
    }
    std::vector<int> partsOf(int sp)
    {
        std::vector<int> v;
        for (auto& e : L->part) if (e.second.space == sp && !e.second.moved) v.push_back(e.first);
        return v;
    }
    int anyRed(int type)
    {
        if (type == TK_CREDUCE) return pick<int>({ LAIK_RO_Sum, LAIK_RO_Min, LAIK_RO_Max });
        if (type >= TK_CUSTOM) return LAIK_RO_Any;
        if (type == TK_FLOAT || type == TK_DOUBLE) return pick<int>({ LAIK_RO_Sum, LAIK_RO_Sum, LAIK_RO_Prod, LAIK_RO_Min, LAIK_RO_Max });
        return pick<int>({ LAIK_RO_Sum, LAIK_RO_Sum, LAIK_RO_Prod, LAIK_RO_Min, LAIK_RO_Max, LAIK_RO_And, LAIK_RO_Or });
    }
    bool chatty = false; // logging, profiling, clock changes between operations
    bool strangers = false;
    void noise()
    {
        if (chatty && r.chance(500)) {
            switch (r.below(6)) {
            case 5: push(OP_PHASE, { (int64_t)r.range(-3, 100), r.below(3), r.below(5) }); break;
            case 0: push(OP_LOG, { r.chance(200) ? (int64_t)r.range(1, 5) : -1 }, logText()); break;
            case 1: push(OP_PROF, { (int64_t)r.below(10) }); break;
            case 2: push(OP_ITER, { (int64_t)r.below(1000) }); break;
            case 3: push(OP_CLOCK, { (int64_t)r.below(n()), r.chance(500) ? -(int64_t)r.below(2000000000) : (int64_t)r.below(2000000000) }); break;
            case 4: push(OP_PROF, { 0 }); break;
            }
        }
        if (strangers && r.chance(250)) stranger();
        if (r.chance(60)) push(OP_SLEEP, { (int64_t)r.below(1u << n()), (int64_t)r.below(5000) });
    }
    // processes which stop for a while between operations
    void slow()
    {
        if (!r.chance(500)) return;
        cfg("slow") = 1 + r.below((1u << n()) - 1);
        cfg("slowus") = pick<int64_t>({ 100, 3000, 100000 });
    }
    void samePids()
    {
        for (int i = 0; i < n(); i++) s.cfg.v["pid" + std::to_string(i)] = r.chance(500) ? 1 : 5;
        // a pid is unique on one host only
        for (int i = 0; i < n(); i++) s.cfg.v["host" + std::to_string(i)] = i;
    }
    bool alwaysFree = false;
    void freeAll()
    {
        // optional cleanup of some containers and partitionings
        if (!alwaysFree && !r.chance(300)) return;
        std::vector<int> ids;
        for (auto& e : L->data) ids.push_back(e.first);
        for (int d : ids) if (r.chance(600)) push(OP_FREEDATA, { d });
        ids.clear();
        for (auto& e : L->part) ids.push_back(e.first);
        for (int p : ids) if (r.chance(alwaysFree ? 600 : 300)) push(OP_FREEPART, { p });
        if (!alwaysFree && !r.chance(300)) return;
        // spaces nothing refers to any more
        ids.clear();
        for (auto& e : L->sp) ids.push_back(e.first);
        for (size_t i = ids.size(); i > 1; i--) std::swap(ids[i - 1], ids[r.below((uint32_t)i)]);
        for (int x : ids) if (r.chance(700)) push(OP_FREESPACE, { x });
    }

    // ---- workloads --------------------------------------------------------------
    // switches between partitionings, values preserved
    void preserve(int rounds, bool layouts)
    {
        int g = world();
        if (r.chance(200) && n() > 1) {
            // a sub group
            int id = nid++;
            std::vector<int64_t> a = { id, 2, g };
            int k = r.range(1, n() - 1);
            std::set<int> rm;
            while ((int)rm.size() < k) rm.insert((int)r.below(n()));
            for (int x : rm) a.push_back(x);
            if (push(OP_GROUP, a)) g = id;
        }
        int nsp = r.chance(750) ? 1 : 2;
        for (int q = 0; q < nsp; q++) {
            int dims = r.chance(550) ? 1 : r.chance(600) ? 2 : 3;
            int sp = space(dims, r.chance(700) ? 60 : 600);
            if (sp < 0) continue;
            int np = r.range(2, 5);
            for (int i = 0; i < np; i++) anyPart(sp, g, r.chance(500), r.chance(200), r.chance(300) ? 3 : 1);
            if (partsOf(sp).empty()) continue;
            int nd = r.range(1, 2);
            std::vector<int> ds;
            for (int i = 0; i < nd; i++) {
                int lay = layouts && r.chance(200) ? (dims == 3 ? 2 : 1) : 0;
                int d = newData(sp, anyType(true), lay, r.chance(200) ? r.range(1, 2) : 0, 0);
                if (d >= 0) ds.push_back(d);
            }
            auto ps = partsOf(sp);
            for (int k = 0; k < rounds; k++) {
                noise();
                int d = pick(ds);
                if (d < 0) continue;
                int to = pick(ps);
                DInfo& di = L->data[d];
                if (di.part < 0) {
                    to = orNew(to, sp);
                    if (!push(OP_SWITCH, { d, to, LAIK_DF_None, LAIK_RO_None })) continue;
                    push(OP_WRITE, { d, r.chance(600) ? 0 : 1, 0, r.chance(300) ? 1 : 0 });
                    continue;
                }
                if (r.chance(250)) push(OP_WRITE, { d, pick<int64_t>({ 0, 0, 1, 2 }), 0, r.chance(300) ? 1 : 0 });
                int red = pick<int>({ LAIK_RO_None, LAIK_RO_None, LAIK_RO_Single });
                if (r.chance(60)) { push(OP_SWITCH, { d, to, LAIK_DF_None, LAIK_RO_None }); push(OP_WRITE, { d, 0, 0, 0 }); continue; }
                if (r.chance(40)) { push(OP_SWITCH, { d, -1, LAIK_DF_None, LAIK_RO_None }); continue; }
                to = orNew(to, sp);
                bool okk = push(OP_SWITCH, { d, to, LAIK_DF_Preserve, red });
                for (int t = 0; !okk && t < 6; t++) okk = push(OP_SWITCH, { d, pick(ps), LAIK_DF_Preserve, LAIK_RO_None });
                if (!okk) {
                    // leave a replicated state
                    push(OP_SWITCH, { d, to, LAIK_DF_None, LAIK_RO_None });
                    push(OP_WRITE, { d, 0, 0, 0 });
                }
                if (r.chance(850)) check(d);
            }
            for (int d : ds) check(d);
        }
        freeAll();
    }

    void reduce(int rounds)
    {
        int g = world();
        int dims = r.chance(750) ? 1 : r.chance(500) ? 2 : 3;
        int sp = space(dims, r.chance(800) ? 40 : 400);
        if (sp < 0) return;
        int np = r.range(2, 5);
        for (int i = 0; i < np; i++) anyPart(sp, g, r.chance(750), r.chance(150), r.chance(200) ? 2 : 1);
        partRaw(prtr({ PK_ALL }), g, sp, -1, 0, -1);
        if (dims > 1 || r.chance(300)) partRaw(prtr({ PK_MASTER }), g, sp, -1, 0, -1);
        auto ps = partsOf(sp);
        int nd = r.range(1, 2);
        std::vector<int> ds;
        for (int i = 0; i < nd; i++) {
            int ty = anyType(false);
            if (r.chance(100)) ty = TK_CREDUCE;
            int d = newData(sp, ty, 0, r.chance(150) ? 1 : 0, 0);
            ds.push_back(d);
        }
        for (int k = 0; k < rounds; k++) {
            noise();
            int d = pick(ds);
            if (d < 0) continue;
            DInfo& di = L->data[d];
            int red = anyRed(di.type);
            if (di.part < 0 || r.chance(250)) {
                int to = pick(ps);
                int flow = dims == 1 && r.chance(500) ? LAIK_DF_Init : LAIK_DF_None;
                if (!push(OP_SWITCH, { d, to, flow, flow == LAIK_DF_Init ? red : LAIK_RO_None })) continue;
                if (flow == LAIK_DF_Init && r.chance(700)) check(d);
                if (flow == LAIK_DF_None || r.chance(700))
                    push(OP_WRITE, { d, flow == LAIK_DF_Init ? (int64_t)r.range(1, 2) : 1, domFor(red), 0 });
            }
            else push(OP_WRITE, { d, pick<int64_t>({ 0, 1, 1, 2 }), domFor(red), r.below(2) });
            bool ok = false;
            for (int t = 0; !ok && t < 6; t++) {
                if (r.chance(120)) ok = push(OP_FLOW, { d, LAIK_DF_Preserve, red });
                else ok = push(OP_SWITCH, { d, orNew(pick(ps), sp), LAIK_DF_Preserve, red });
            }
            if (ok) check(d);
            if (r.chance(200)) {
                int to = pick(ps);
                if (push(OP_SWITCH, { d, to, LAIK_DF_Preserve, pick<int>({ LAIK_RO_None, LAIK_RO_Any }) })) check(d);
            }
        }
        freeAll();
    }

    void memory(int rounds)
    {
        int g = world();
        int dims = r.chance(650) ? 1 : r.chance(500) ? 2 : 3;
        int sp = space(dims, r.chance(700) ? 50 : 300);
        if (sp < 0) return;
        int np = r.range(2, 5);
        for (int i = 0; i < np; i++) anyPart(sp, g, r.chance(450), r.chance(200), r.chance(400) ? 3 : 1);
        auto ps = partsOf(sp);
        if (ps.empty()) return;
        int nd = r.range(1, 3);
        std::vector<int> ds;
        for (int i = 0; i < nd; i++) {
            int lay = r.chance(250) ? (dims == 3 ? 2 : 1) : 0;
            int prov = !lay && r.chance(150) ? 1 : 0;
            int d = newData(sp, anyType(true), lay, r.below(3), prov);
            if (d >= 0) ds.push_back(d);
        }
        std::map<int, int> resOf;
        for (int k = 0; k < rounds; k++) {
            noise();
            int d = pick(ds);
            if (d < 0) continue;
            DInfo& di = L->data[d];
            if (!resOf.count(d) && r.chance(400)) {
                std::vector<int64_t> a = { nid++, d };
                std::set<int> u;
                int c = r.range(1, (int)ps.size());
                while (c-- > 0) u.insert(pick(ps));
                for (int p : u) a.push_back(p);
                if (push(OP_RES, a)) {
                    resOf[d] = (int)a[0];
                    push(OP_USERES, { d, a[0] });
                }
            }
            int to = pick(ps);
            if (di.part < 0) {
                int red = anyRed(di.type);
                if (dims == 1 && !di.layout && di.type < TK_CUSTOM && r.chance(400)) push(OP_SWITCH, { d, to, LAIK_DF_Init, red });
                else { if (!push(OP_SWITCH, { d, to, LAIK_DF_None, LAIK_RO_None })) continue; push(OP_WRITE, { d, r.below(2), 0, r.below(2) }); }
                check(d);
                continue;
            }
            if (r.chance(300)) push(OP_WRITE, { d, pick<int64_t>({ 0, 1, 2 }), 0, r.below(2) });
            to = orNew(to, sp);
            bool ok = push(OP_SWITCH, { d, to, LAIK_DF_Preserve, LAIK_RO_None });
            for (int t = 0; !ok && t < 6; t++) ok = push(OP_SWITCH, { d, pick(ps), LAIK_DF_Preserve, LAIK_RO_None });
            if (!ok) { push(OP_SWITCH, { d, to, LAIK_DF_None, LAIK_RO_None }); push(OP_WRITE, { d, 0, 0, 0 }); }
            check(d);
            if (resOf.count(d) && r.chance(100)) {
                push(OP_SWITCH, { d, -1, LAIK_DF_None, LAIK_RO_None });
                if (push(OP_FREERES, { resOf[d] })) resOf.erase(d);
            }
            if (r.chance(80) && ds.size() > 1) {
                int v = ds.back();
                if (!resOf.count(v)) { if (push(OP_FREEDATA, { v })) ds.pop_back(); }
            }
        }
        for (int d : ds) check(d);
        freeAll();
    }

    void prepared(int rounds)
    {
        int g = world();
        int dims = r.chance(700) ? 1 : r.chance(500) ? 2 : 3;
        int sp = space(dims, r.chance(700) ? 60 : 400);
        if (sp < 0) return;
        for (int i = r.range(2, 4); i > 0; i--) anyPart(sp, g, r.chance(550), r.chance(150), r.chance(200) ? 2 : 1);
        auto ps = partsOf(sp);
        if (ps.size() < 1) return;
        std::vector<int> ds;
        for (int i = r.range(1, 2); i > 0; i--) { int d = newData(sp, anyType(false), 0, r.below(2), 0); if (d >= 0) ds.push_back(d); }
        if (ds.empty()) return;
        std::vector<int> ts;
        std::map<int, int> resOf;
        for (int i = r.range(2, 8); i > 0; i--) {
            int f = r.chance(100) ? -1 : pick(ps), t = pick(ps);
            int id = nid++;
            bool red = r.chance(400);
            int rd = red ? anyRed(L->data[ds[0]].type) : LAIK_RO_None;
            if (push(OP_TRANS, { id, sp, f, t, f < 0 ? (dims == 1 && red ? LAIK_DF_Init : LAIK_DF_None) : LAIK_DF_Preserve, rd })) ts.push_back(id);
        }
        if (r.chance(400)) for (int d : ds) {
            std::vector<int64_t> a = { nid++, d };
            for (int p : ps) a.push_back(p);
            if (push(OP_RES, a)) { resOf[d] = (int)a[0]; push(OP_USERES, { d, a[0] }); }
        }
        std::vector<int> as;
        for (int t : ts) for (int d : ds) {
            if (!r.chance(500)) continue;
            int id = nid++;
            int fr = -1, to = -1;
            if (resOf.count(d)) { fr = resOf[d]; to = r.chance(700) ? resOf[d] : -1; }
            if (push(OP_ACT, { id, d, t, fr, to })) as.push_back(id);
        }
        for (int k = 0; k < rounds; k++) {
            noise();
            int d = pick(ds);
            if (d < 0) continue;
            DInfo& di = L->data[d];
            if (di.part < 0) { push(OP_SWITCH, { d, pick(ps), LAIK_DF_None, LAIK_RO_None }); push(OP_WRITE, { d, r.below(2), 1, 0 }); continue; }
            // what can run from here?
            std::vector<std::pair<int, int>> c;
            for (int a : as) if (L->act[a].data == d && L->tr[L->act[a].trans].from == di.part) { c.push_back({ OP_EXECACT, a }); c.push_back({ OP_EXECACT, a }); }
            for (int t : ts) if (L->tr[t].from == di.part) c.push_back({ OP_EXEC, t });
            if (r.chance(500)) {
                int dom = 1;
                push(OP_WRITE, { d, pick<int64_t>({ 0, 1, 1 }), dom, r.below(2) });
            }
            bool ok = false;
            if (!c.empty() && r.chance(850)) {
                auto x = pick(c);
                ok = x.first == OP_EXECACT ? push(OP_EXECACT, { x.second }) : push(OP_EXEC, { d, x.second });
            }
            if (!ok) {
                // move to the start of some transition
                int t = ts.empty() ? -1 : pick(ts);
                int to = t >= 0 && L->tr[t].from >= 0 ? L->tr[t].from : pick(ps);
                if (!push(OP_SWITCH, { d, to, LAIK_DF_Preserve, LAIK_RO_None })) {
                    push(OP_SWITCH, { d, to, LAIK_DF_None, LAIK_RO_None });
                    push(OP_WRITE, { d, 1, 1, 0 });
                }
            }
            check(d);
        }
        for (int a : as) if (r.chance(300)) push(OP_FREEACT, { a });
        for (int t : ts) if (r.chance(200)) push(OP_FREETRANS, { t });
    }

    void partitioners(int rounds)
    {
        std::vector<int> gs = { world() };
        if (n() > 1 && r.chance(400)) {
            int id = nid++;
            std::vector<int64_t> a = { id, 2, gs[0] };
            a.push_back(r.below(n()));
            if (push(OP_GROUP, a)) gs.push_back(id);
        }
        int rds = rounds;
        while (rds > 0) {
            int dims = 1 + r.below(3);
            int sp = space(dims, r.chance(600) ? 40 : r.chance(700) ? 400 : 3000);
            if (sp < 0) continue;
            for (int i = r.range(2, 6); i > 0; i--, rds--) {
                int g = pick(gs);
                int id = anyPart(sp, g, r.chance(700), r.chance(300), r.chance(500) ? 4 : 1);
                if (id < 0) continue;
                if (r.chance(250)) push(OP_PCHECK, { id });
                if (r.chance(200)) {
                    PInfo& p = L->part[id];
                    partRaw(p.prtr, g, sp, -1, 4, id);
                }
                if (dims == 1 && r.chance(200)) {
                    // own ranges only, intersections on demand
                    int p1 = prtr({ PK_BLOCK1 }), p2 = prtr({ PK_BLOCK, 0, (int64_t)r.range(1, 2), 1, 0, (int64_t)r.below(100) });
                    int a = partRaw(p1, g, sp, -1, 2, -1);
                    int b = a >= 0 ? partRaw(p2, g, sp, -1, 3, a) : -1;
                    if (b >= 0 && g == gs[0] && r.chance(700)) {
                        int d = newData(sp, anyType(false));
                        push(OP_SWITCH, { d, a, LAIK_DF_None, LAIK_RO_None });
                        push(OP_WRITE, { d, 1, 0, 0 });
                        if (push(OP_SWITCH, { d, b, LAIK_DF_Preserve, LAIK_RO_None })) check(d);
                        if (push(OP_SWITCH, { d, a, LAIK_DF_Preserve, LAIK_RO_None })) check(d);
                    }
                }
                if (dims == 1 && g == gs[0] && gs.size() > 1 && r.chance(300)) {
                    int base = anyBase(sp, g);
                    if (base >= 0) {
                        int p = prtr({ PK_REASSIGN, gs[1], (int64_t)r.below(4), (int64_t)r.below(100) });
                        if (p >= 0) partRaw(p, g, sp, base, 0, -1);
                    }
                }
            }
        }
        freeAll();
    }

    void kvs(int rounds, bool removal)
    {
        world();
        int ns = r.range(1, 2);
        std::vector<int> ks;
        for (int i = 0; i < ns; i++) { int id = nid++; push(OP_KVNEW, { id }); ks.push_back(id); if (r.chance(400)) push(OP_KVCB, { id }); }
        int keys = r.chance(700) ? r.range(2, 13) : r.range(13, 60);
        bool big = r.chance(200), cleans = removal && r.chance(300);
        int bulk = r.chance(80) ? 1 + r.below(2) : 0, first = 0;
        for (int k = 0; k < rounds; k++) {
            noise();
            int st = pick(ks);
            int w = r.below(10);
            if (w < 6) {
                int64_t mask = r.chance(600) ? 1ll << r.below(n()) : r.chance(500) ? (1ll << n()) - 1 : 1 + r.below((1u << n()) - 1);
                int style = r.below(4);
                int len = r.chance(700) ? r.range(1, 20) : r.range(1, big ? 400 : 90);
                push(OP_KVSET, { st, (int64_t)r.below(keys), len, (int64_t)r.below(50), mask, style });
            }
            else if (w == 6 && cleans && r.chance(300)) push(OP_KVCLEAN, { st, r.chance(400) ? (1ll << n()) - 1 : 1ll << r.below(n()) });
            else if (w == 6 && removal) push(OP_KVREM, { st, (int64_t)r.below(keys), r.chance(800) ? 1ll << r.below(n()) : 1 + r.below((1u << n()) - 1), r.chance(300) });
            else if (w == 7 && bulk && r.chance(700)) {
                int c = r.chance(500) ? r.range(900, 1200) : r.range(20, 300);
                if (r.chance(300)) first = r.below(900);
                if (push(OP_KVBULK, { st, first, c, (int64_t)r.below(50), r.chance(700) ? 1ll << r.below(n()) : (1ll << n()) - 1 })) { first += c; bulk--; }
            }
            else if (w == 7) push(OP_KVCHECK, { st, r.chance(400) });
            else if (w >= 8) push(OP_KVSYNC, { st });
        }
        for (int st : ks) { push(OP_KVSYNC, { st }); push(OP_KVCHECK, { st }); }
        for (int st : ks) if (r.chance(300)) push(OP_KVFREE, { st });
    }
    int64_t bound()
    {
        int w = r.below(10);
        if (w < 5) return r.range(-30, 1000);
        if (w < 7) return (int64_t)r.next() >> r.below(63);
        if (w == 7) return INT64_MIN + (int64_t)r.below(3);
        if (w == 8) return INT64_MAX - (int64_t)r.below(3);
        return 0;
    }
    void locations(int rounds)
    {
        world();
        if (resized) { push(OP_LOCSYNC, {}); return; }
        // spaces only used in the store
        std::vector<int> sps, dims;
        std::vector<std::vector<int64_t>> cur;
        std::vector<std::string> names;
        bool huge = r.chance(400);
        auto bounds = [&](int d) {
            std::vector<int64_t> v;
            for (int i = 0; i < 3; i++) {
                int64_t f = huge ? bound() : r.range(-20, 500), t = huge ? bound() : f + r.range(1, 300);
                if (f > t) std::swap(f, t);
                if (f == t) { if (t == INT64_MAX) f--; else t++; }
                v.push_back(i < d ? f : 0); v.push_back(i < d ? t : 1);
            }
            return v;
        };
        for (int i = r.range(1, 4); i > 0; i--) {
            int id = nid++, d = r.range(1, 3);
            std::vector<int64_t> v = bounds(d), a = { id, d };
            a.insert(a.end(), v.begin(), v.end());
            if (push(OP_SPACE, a)) { sps.push_back(id); dims.push_back(d); cur.push_back(v); names.push_back(""); }
        }
        for (int k = 0; k < rounds; k++) {
            noise();
            int w = r.below(10), i = sps.empty() ? -1 : (int)r.below((uint32_t)sps.size());
            if (w == 0) push(OP_LOCSYNC, {});
            else if (w <= 3 && i >= 0) {
                int64_t mask = r.chance(600) ? 1ll << r.below(n()) : r.chance(500) ? (1ll << n()) - 1 : 1 + r.below((1u << n()) - 1);
                if (names[i].empty()) {
                    std::string nm = r.chance(100) ? std::string(r.range(1, 120), 'n') : r.chance(200) ? "a space" : "sp" + std::to_string(r.below(6));
                    if (r.chance(300)) nm += "-longer-name";
                    if (push(OP_SPSET, { sps[i], mask }, nm)) names[i] = nm;
                }
                else {
                    // change all or only some of the bounds
                    std::vector<int64_t> v = cur[i], nb = bounds(dims[i]), a = { mask, dims[i] };
                    int how = r.below(4);
                    if (how == 0) v = nb;
                    else if (how < 3) { int d = r.below(dims[i]), e = r.below(2); if (e ? nb[2 * d + 1] > v[2 * d] : nb[2 * d] < v[2 * d + 1]) v[2 * d + e] = nb[2 * d + e]; }
                    a.insert(a.end(), v.begin(), v.end());
                    if (push(OP_SPCHG, a, names[i])) cur[i] = v;
                }
            }
            else if (w <= 6) {
                push(OP_SPSYNC, { 0 });
                if (r.chance(300)) for (auto& nm : names) if (!nm.empty()) push(OP_SPGET, { 0 }, nm);
            }
            else if (i >= 0) push(OP_SPGET, { 0 }, names[i].empty() ? "sp" + std::to_string(r.below(6)) : names[i]);
        }
        push(OP_SPSYNC, { 0 });
        for (auto& nm : names) if (!nm.empty()) push(OP_SPGET, { 0 }, nm);
        push(OP_SPGET, { 0 }, "no such space");
        push(OP_LOCSYNC, {});
    }
    void groups(int rounds)
    {
        std::vector<int> gs = { world() };
        int sp = space(1, 60);
        std::vector<int> ds;
        for (int k = 0; k < rounds; k++) {
            noise();
            int w = r.below(10);
            int g = pick(gs);
            if (w < 3) {
                auto& l = L->gr[g].lids;
                if (l.size() > 1) {
                    int id = nid++;
                    std::vector<int64_t> a = { id, 2, g };
                    std::set<int> rm;
                    int c = r.range(1, (int)l.size() - 1);
                    while ((int)rm.size() < c) rm.insert((int)r.below((uint32_t)l.size()));
                    std::vector<int64_t> v(rm.begin(), rm.end());
                    for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[r.below((uint32_t)i)]);
                    for (auto x : v) a.push_back(x);
                    if (push(OP_GROUP, a)) gs.push_back(id);
                }
            }
            else if (w < 4) { int id = nid++; if (push(OP_GROUP, { id, 1, g })) gs.push_back(id); }
            else if (w < 5) { int id = nid++; if (push(OP_GROUP, { id, 3, g, pick(gs) })) gs.push_back(id); }
            else if (w < 6) {
                push(OP_GCHECK, { g });
                // partitioning of a shrunk group, handed over to the group it was made from
                int up = -1;
                for (int x : gs) if (L->gr[x].canon == L->gr[g].parent) up = x;
                if (up >= 0 && r.chance(700)) {
                    int a = anyPart(sp, g, true, false, 3);
                    if (a < 0) continue;
                    PInfo& pi = L->part[a];
                    int b = partRaw(pi.prtr, g, sp, -1, r.chance(700) ? 2 : 0, -1);
                    int p = b >= 0 ? b : a;
                    if (r.chance(700)) push(OP_PCHECK, { p });
                    if (push(OP_MIGRATE, { p, up })) push(OP_PCHECK, { p });
                }
            }
            else {
                // communication inside of the group
                int a = anyPart(sp, g, false, false, 1), b = anyPart(sp, g, r.chance(500), false, 1);
                if (a < 0 || b < 0) continue;
                int d = newData(sp, anyType(false));
                push(OP_SWITCH, { d, a, LAIK_DF_None, LAIK_RO_None });
                push(OP_WRITE, { d, 1, 1, 0 });
                if (push(OP_SWITCH, { d, b, LAIK_DF_Preserve, LAIK_RO_None })) check(d);
                if (L->gr[g].lids.size() > 0 && r.chance(500)) {
                    int al = partRaw(prtr({ PK_ALL }), g, sp, -1, 0, -1);
                    push(OP_SWITCH, { d, al, LAIK_DF_None, LAIK_RO_None });
                    push(OP_WRITE, { d, 1, 1, 0 });
                    if (push(OP_SWITCH, { d, r.chance(500) ? al : b, LAIK_DF_Preserve, LAIK_RO_Sum })) check(d);
                }
                // over to another group: both are migrated to their union
                for (int t = 0; t < 3 && r.chance(450); t++) {
                    int g2 = pick(gs);
                    std::vector<int> c;
                    for (auto& e : L->part) if (e.second.space == sp && !e.second.moved && e.second.group == L->gr[g2].canon) c.push_back(e.first);
                    int b2 = !c.empty() && r.chance(400) ? pick(c) : anyPart(sp, g2, r.chance(500), false, 1);
                    if (b2 >= 0 && push(OP_SWITCH, { d, b2, LAIK_DF_Preserve, r.chance(700) ? LAIK_RO_None : LAIK_RO_Sum })) check(d);
                }
                // back out with the data: reassign to a shrunk group and migrate
                if (r.chance(300) && L->part[a].kind != PK_MASTER) {
                    int d2 = newData(sp, anyType(false));
                    int base = anyBase(sp, g);
                    if (base < 0 || L->gr[g].lids.size() < 2) continue;
                    int ng = nid++;
                    if (!push(OP_GROUP, { ng, 2, g, (int64_t)r.below((uint32_t)L->gr[g].lids.size()) })) continue;
                    gs.push_back(ng);
                    int rp = prtr({ PK_REASSIGN, ng, 0, 0 });
                    int np = rp >= 0 ? partRaw(rp, g, sp, base, 0, -1) : -1;
                    if (np < 0) continue;
                    push(OP_SWITCH, { d2, base, LAIK_DF_None, LAIK_RO_None });
                    push(OP_WRITE, { d2, 1, 0, 0 });
                    if (push(OP_SWITCH, { d2, np, LAIK_DF_Preserve, LAIK_RO_None })) {
                        check(d2);
                        if (push(OP_MIGRATE, { np, ng })) {
                            int tp = anyPart(sp, ng, r.chance(500), false, 1);
                            if (tp >= 0 && push(OP_SWITCH, { d2, tp, LAIK_DF_Preserve, LAIK_RO_None })) check(d2);
                        }
                    }
                }
            }
        }
        for (int g : gs) push(OP_GCHECK, { g });
    }
    // ---- changing world ---------------------------------------------------------
    std::vector<int> notJoined;
    std::string cutPattern()
    {
        int top = n() + (int)s.cfg.get("joiners");
        int l = r.range(0, top);
        std::string L1 = "L" + std::to_string(l), L2 = "L" + std::to_string(r.range(0, top));
        switch (r.below(9)) {
        case 0: case 1: case 2: return "^" + L1 + ":";
        case 3: return "^(" + L1 + "|" + L2 + "):";
        case 4: return ":host" + std::to_string(r.below(4)) + ":";
        case 5: return ":" + std::to_string(2000 + 7 * r.below(top)) + "$";
        case 6: return r.chance(300) ? ".*" : "L[" + std::to_string(r.range(0, 4)) + "-" + std::to_string(r.range(4, 9)) + "]:";
        case 7: {
            static const char* some[] = { "nobody", "L", "L", ":", "host", "[13579]:host", "^L.:", "L[^0]", "0$", "[0-9]+:host[01]:" };
            return some[r.below(10)];
        }
        default: return r.chance(500) ? L1 : "(" + L1;
        }
    }
    std::string strayText(bool wild)
    {
        std::string t;
        for (int i = r.range(1, 3); i > 0; i--) {
            switch (r.below(wild ? 10 : 5)) {
            case 0: case 1: case 2: t += "cutoff " + cutPattern(); break;
            case 3: t += "status"; break;
            case 4: t += "help"; break;
            default: t += garbage();
            }
            t += "\n";
        }
        return t;
    }
    // text which is no valid request: must not have any effect
    std::string garbage()
    {
        static const char* words[] = { "", " ", "\r", "# comment", "xyz", "data 8 00 00 00 00 00 00 00 00", "data 99999 1", "kvs data a b", "kvs changes 1", "kvs allow space",
            "kvs", "allowsend 1 8", "allowsend", "enterresize 0 0", "enterresize", "phase 7 7", "id 1 x y 1 b", "newid 3 L3:q q 7779 b", "getready", "ok", "backedout 1",
            "register", "register ", "reg", "myid", "myid -1", "myid 250", "myid 999999", "myid x", "cutoff", "cutoff (", "cutoff [", "c", "cutoff\r", "\x04", "quit", "q", "status\r", "h", "s x", "help help",
            "%s%n%d", "\xff\xfe\x80", "   help" };
        switch (r.below(9)) {
        case 0: return std::string(r.chance(500) ? r.range(40, 600) : r.range(7000, 8100), r.chance(500) ? 'z' : 'h');
        case 1: if (r.chance(300)) return std::string(r.range(8300, 20000), "zs#k"[r.below(4)]); // never ends
        // fall through
        case 2: {
            std::string t = "B";
            int k = r.chance(700) ? r.range(0, 40) : r.range(0, 9000);
            int have = r.chance(700) ? k : r.range(0, k);
            t.push_back((char)(k & 255));
            t.push_back((char)(k >> 8));
            for (int i = 0; i < have; i++) t.push_back((char)r.below(256));
            return t;
        }
        case 3: {
            std::string t;
            for (int i = r.range(1, 30); i > 0; i--) t.push_back((char)(128 + r.below(128)));
            return t;
        }
        case 4: {
            std::string t = "x";
            for (int i = r.range(1, 30); i > 0; i--) t.push_back((char)r.below(256));
            for (auto& c : t) if (c == '\n' || c == 4) c = 0;
            return t;
        }
        default: return words[r.below(sizeof(words) / sizeof(words[0]))];
        }
    }
    void stranger()
    {
        std::string t;
        for (int i = r.range(0, 4); i > 0; i--) {
            int w = r.below(12);
            t += w == 0 ? "status" : w == 1 ? "help" : w == 2 ? "cutoff " + cutPattern() : garbage();
            if (i > 1 || r.chance(700)) t += "\n";
        }
        int64_t f = r.below(64) & ~24;
        push(OP_STRAY, { f, r.chance(500) ? 0 : (int64_t)r.below(20000), r.chance(600) ? 0 : (int64_t)r.below((uint32_t)n()) }, t);
    }
    void outside(bool wild)
    {
        if (!notJoined.empty() && r.chance(500)) {
            int i = r.below((uint32_t)notJoined.size());
            push(OP_JOIN, { notJoined[i] });
            notJoined.erase(notJoined.begin() + i);
            return;
        }
        int64_t f = r.below(64);
        if (r.chance(500)) f |= 8;
        if (!wild && r.chance(700)) f &= ~2;
        push(OP_STRAY, { f, r.chance(500) ? 0 : (int64_t)r.below(20000), 0 }, strayText(wild));
        if (wild && r.chance(500)) stranger();
    }
    int allowedPart(int sp, int g, bool multi)
    {
        int dims = L->sp[sp].dims, p;
        switch (r.below(5)) {
        case 0: if (multi) { p = prtr({ r.chance(500) ? PK_ALL : PK_GALL }); break; } // fall through
        case 1: p = prtr({ r.chance(500) ? PK_MASTER : PK_GMASTER }); break;
        case 2: p = prtr({ PK_BISECT }); break;
        case 3: {
            int pd = r.below(dims);
            p = prtr({ PK_BLOCK, pd, r.chance(600) ? 1 : r.range(2, 3), pd == 0 && r.chance(300) ? r.range(1, 3) : 0, 0, (int64_t)r.below(1000) });
            break;
        }
        default: p = prtr({ PK_BLOCK1 });
        }
        return p < 0 ? -1 : partRaw(p, g, sp, -1, storeMode(), -1);
    }
    void elastic(int resizes, int work, bool wild)
    {
        cfg("elastic") = 1;
        int j = r.chance(850) ? r.range(1, 4) : 0;
        while (n() + j > 12) j--;
        cfg("joiners") = j;
        if (j && j < n() && r.chance(120)) cfg("oversub") = 1;
        for (int i = 0; i < j; i++) {
            if (!cfg("oversub")) notJoined.push_back(n() + i);
            if (r.chance(300)) s.cfg.v["start" + std::to_string(n() + i)] = r.below(50000) + 1;
        }
        hosts();
        world();
        push(OP_SLEEP, { 0, 1 });
        for (int q = 0; q < resizes; q++) {
            for (int i = r.range(0, 2); i > 0; i--) {
                if (r.chance(400)) outside(wild);
                if (doWork && r.chance(500)) doWork(*this, r.range(1, work));
                else switch (r.below(6)) {
                case 0: case 1: case 2: preserve(r.range(1, work), false); break;
                case 3: reduce(r.range(1, work)); break;
                case 4: kvs(r.range(1, 6), false); break;
                case 5: if (r.chance(500)) prepared(r.range(1, work)); else if (!q) locations(3); else push(OP_LOCSYNC, {}); break;
                }
            }
            for (int i = r.range(0, 3); i > 0; i--) outside(wild);
            // only what newcomers can take over
            std::vector<int> ids;
            for (auto& e : L->act) ids.push_back(e.first);
            for (int a : ids) push(OP_FREEACT, { a });
            ids.clear();
            for (auto& e : L->tr) ids.push_back(e.first);
            for (int t : ids) push(OP_FREETRANS, { t });
            ids.clear();
            for (auto& e : L->data) ids.push_back(e.first);
            for (int d : ids) {
                DInfo& di = L->data[d];
                if (di.res >= 0 || di.prov || (ids.size() > 2 && r.chance(500))) { dropData(d); continue; }
                if (di.part >= 0 && L->joinOk(di) && r.chance(500)) continue;
                int p = allowedPart(di.space, worldGrp, true);
                if (p < 0) { dropData(d); continue; }
                if (di.part < 0 || di.initOnly || !push(OP_SWITCH, { d, p, LAIK_DF_Preserve, LAIK_RO_None })) {
                    if (!push(OP_SWITCH, { d, p, LAIK_DF_None, LAIK_RO_None })) { dropData(d); continue; }
                    push(OP_WRITE, { d, r.below(2), 1, 0 });
                }
            }
            ids.clear();
            for (auto& e : L->res) ids.push_back(e.first);
            for (int x : ids) push(OP_FREERES, { x });
            int gid = nid++;
            if (!push(OP_RESIZE, { gid })) continue;
            worldGrp = gid;
            resized = true;
            ids.clear();
            for (auto& e : L->data) ids.push_back(e.first);
            for (int d : ids) {
                DInfo& di = L->data[d];
                if (r.chance(100)) outside(wild);
                if (r.chance(80) || di.part < 0) { push(OP_FREEDATA, { d }); continue; }
                bool done = false;
                for (int t = 0; t < 8 && !done; t++) {
                    int p = allowedPart(di.space, gid, t < 4);
                    if (p < 0) continue;
                    if (r.chance(250)) {
                        int h = partRaw(prtr({ r.chance(500) ? PK_HALO : PK_CORNERHALO, (int64_t)r.range(1, 3) }), gid, di.space, p, 0, -1);
                        if (h >= 0) p = h;
                    }
                    int red = r.chance(250) ? anyRed(di.type) : LAIK_RO_None;
                    if (r.chance(120)) {
                        done = push(OP_SWITCH, { d, p, LAIK_DF_None, LAIK_RO_None });
                        if (done) push(OP_WRITE, { d, 0, 1, 0 });
                    }
                    else done = push(OP_SWITCH, { d, p, LAIK_DF_Preserve, red });
                    if (done) check(d);
                }
                if (!done) push(OP_FREEDATA, { d });
            }
            push(OP_RSDONE, { (int64_t)r.below(8) });
            // and on with it
            for (int d : ids) {
                if (!L->data.count(d)) continue;
                DInfo& di = L->data[d];
                for (int i = r.range(0, 2); i > 0; i--) {
                    int p = r.chance(500) ? anyPart(di.space, gid, r.chance(500), false, 1) : allowedPart(di.space, gid, true);
                    if (p < 0) continue;
                    if (r.chance(300)) push(OP_WRITE, { d, r.below(2), 1, 0 });
                    if (push(OP_SWITCH, { d, p, LAIK_DF_Preserve, LAIK_RO_None })) check(d);
                }
            }
            if (r.chance(500)) push(OP_GCHECK, { gid });
        }
        while (!notJoined.empty() && r.chance(300)) outside(wild);
        if (doWork && r.chance(700)) doWork(*this, r.range(1, work));
        else if (doWork && r.chance(400)) mixed(1, r.range(1, work));
        else if (r.chance(500)) preserve(r.range(1, work), false);
        if (r.chance(300)) kvs(r.range(1, 6), false);
    }
    void dropData(int d)
    {
        std::vector<int> q;
        for (auto& e : L->res) if (e.second.data == d) q.push_back(e.first);
        if (!q.empty()) {
            push(OP_SWITCH, { d, -1, LAIK_DF_None, LAIK_RO_None });
            return; // stays, without memory
        }
        push(OP_FREEDATA, { d });
    }
    std::string logText()
    {
        std::string t;
        size_t len = r.chance(700) ? r.below(120) : r.below(6000);
        int style = r.below(4); // words, one long word, lines, indented lines
        for (size_t i = 0; i < len; i++) {
            char c = (char)('a' + r.below(26));
            if (style != 1 && r.chance(style == 0 ? 150 : 30)) c = ' ';
            if (style >= 2 && r.chance(30)) { c = '\n'; if (style == 3) t.append(r.below(30), ' '); }
            t.push_back(c);
        }
        return t;
    }
    void logging()
    {
        cfg("loglevel") = r.range(1, 4);
        if (r.chance(300)) cfg("logfmt") = r.range(1, 2);
        if (r.chance(300)) { int f = r.below(n()); cfg("logfrom") = f; if (r.chance(500)) cfg("logto") = r.range(f, n()); }
        if (r.chance(300)) cfg("logfile") = 1;
        if (r.chance(300)) cfg("openfail") = pick<int64_t>({ 300, 1000 });
        if (r.chance(300)) cfg("writefail") = pick<int64_t>({ 300, 1000 });
        for (int i = 0; i < n(); i++) if (r.chance(500)) s.cfg.v["clk" + std::to_string(i)] = (int64_t)r.below(2000000000) * 3 - 3000000000ll;
        chatty = true;
    }
    // several kinds of work in one program
    void mixed(int parts, int rounds)
    {
        world();
        for (int i = 0; i < parts; i++) {
            int k = r.range(1, std::max(1, rounds));
            switch (r.below(10)) {
            case 0: case 1: preserve(k, true); break;
            case 2: case 3: reduce(k); break;
            case 4: memory(k); break;
            case 5: case 6: prepared(k); break;
            case 7: kvs(k, r.chance(300)); break;
            case 8: locations(k); break;
            case 9: groups(k); break;
            }
        }
    }
    // ids of objects released at the end of each cycle, as used by an operation
    static std::vector<int> refs(const Op& o)
    {
        switch (o.kind) {
        case OP_PART: if (o.a[5] == 3 || o.a[5] == 4) return { 0, 4, 6 }; return { 0, 4 };
        case OP_FREEPART: case OP_MIGRATE: case OP_PCHECK: case OP_DATA: case OP_FREEDATA: case OP_FLOW: case OP_WRITE: case OP_CHECK: case OP_FILL:
        case OP_FREETRANS: case OP_FREEACT: case OP_EXECACT: case OP_FREERES:
        case OP_KVNEW: case OP_KVSET: case OP_KVREM: case OP_KVCLEAN: case OP_KVSYNC: case OP_KVCHECK: case OP_KVFREE: case OP_KVCB: case OP_KVBULK: return { 0 };
        case OP_SWITCH: case OP_SETINIT: case OP_EXEC: case OP_USERES: case OP_MAPOPS: return { 0, 1 };
        case OP_TRANS: return { 0, 2, 3 };
        case OP_ACT: return { 0, 1, 2, 3, 4 };
        case OP_RES: { std::vector<int> v; for (size_t i = 0; i < o.a.size(); i++) v.push_back((int)i); return v; }
        }
        return {};
    }
    // the same operations again and again, with everything released at the end
    void cycles(int count)
    {
        cfg("cycles") = 1;
        world();
        // a key-value store living longer than a cycle
        int keep = r.chance(300) ? nid++ : -1;
        if (keep >= 0) push(OP_KVNEW, { keep });
        size_t b = s.ops.size();
        if (keep >= 0)
            for (int i = r.range(1, 4); i > 0; i--) {
                int64_t key = r.below(4);
                push(OP_KVSET, { keep, key, r.range(1, 60), (int64_t)r.below(50), 1ll << r.below(n()), (int64_t)r.below(4) });
                push(OP_KVSYNC, { keep });
                if (r.chance(600)) { push(OP_KVREM, { keep, key, 1ll << r.below(n()), 0 }); push(OP_KVSYNC, { keep }); }
            }
        if (r.chance(150)) kvs(r.range(6, 20), true);
        else mixed(r.range(1, 2), r.range(1, 4));
        auto ids = [](auto& m) { std::vector<int> v; for (auto& e : m) v.push_back(e.first); return v; };
        for (int x : ids(L->act)) push(OP_FREEACT, { x });
        for (int x : ids(L->tr)) push(OP_FREETRANS, { x });
        for (int x : ids(L->data)) if (L->data[x].res >= 0 || L->data[x].part >= 0) push(OP_SWITCH, { x, -1, LAIK_DF_None, LAIK_RO_None });
        for (int x : ids(L->res)) push(OP_FREERES, { x });
        for (int x : ids(L->data)) push(OP_FREEDATA, { x });
        for (int t = 0; t < 3; t++) for (int x : ids(L->part)) push(OP_FREEPART, { x });
        for (int x : ids(L->kv)) if (x != keep) push(OP_KVFREE, { x });
        size_t e = s.ops.size();
        push(OP_MEM, {});
        std::vector<Op> body(s.ops.begin() + (long)b, s.ops.begin() + (long)e);
        for (int c = 1; c < count; c++) {
            std::map<int64_t, int64_t> m;
            for (auto& o0 : body) {
                Op o = o0;
                if (o.kind == OP_SPACE || o.kind == OP_FREESPACE || o.kind == OP_GROUP || o.kind == OP_PRTR || o.kind == OP_SPSET) continue;
                bool creates = o.kind == OP_PART || o.kind == OP_DATA || o.kind == OP_TRANS || o.kind == OP_ACT || o.kind == OP_RES || o.kind == OP_KVNEW;
                if (creates) m[o.a[0]] = nid++;
                for (int i : refs(o)) { auto it = m.find(o.a[i]); if (it != m.end()) o.a[i] = it->second; }
                push(o.kind, o.a, o.s);
            }
            push(OP_MEM, {});
        }
    }
};

typedef std::function<void(Gen&)> ProfFn;

// what a property is about, for programs mixing it with everything else
static const std::map<std::string, WorkFn>& works()
{
    static const std::map<std::string, WorkFn> w = {
        { "P01", [](Gen& g, int k) { g.preserve(k, false); } },
        { "P02", [](Gen& g, int k) { g.reduce(k); } },
        { "P03", [](Gen& g, int k) { g.memory(k); } },
        { "P04", [](Gen& g, int k) { g.prepared(k); } },
        { "P05", [](Gen& g, int k) { g.partitioners(k); } },
        { "P06", [](Gen& g, int k) { g.preserve(k, true); } },
        { "P07", [](Gen& g, int k) { g.kvs(2 * k, false); } },
        { "P08", [](Gen& g, int k) { g.kvs(2 * k, true); } },
        { "P09", [](Gen& g, int k) { g.locations(k); } },
        { "P10", [](Gen& g, int k) { g.groups(k); } },
        { "P13", [](Gen& g, int k) { g.mixed(1, k); } },
        { "P22", [](Gen& g, int k) { if (g.L && g.L->elastic) g.mixed(1, k); else g.layouts(k); } },
        { "P15", [](Gen& g, int k) { g.locations(k); } },
        { "P17", [](Gen& g, int k) { g.mixed(1, k); } },
        { "P19", [](Gen& g, int k) { g.mixed(1, k); } },
        { "P20", [](Gen& g, int k) { g.mixed(1, k); } },
        { "P21", [](Gen& g, int k) { g.mixed(1, k); } },
    };
    return w;
}

// everything at once: the property's own work among other work, under faults
static void broad(Gen& g, const WorkFn& w, const std::string& prop)
{
    bool tcp = prop == "P13";
    g.base(tcp ? 0 : 45, 45, tcp ? 0 : 10, 1, 5);
    g.knobs();
    g.netFaults(g.r.below(3));
    if (g.r.chance(300)) g.slow();
    if (g.r.chance(200)) g.starts(100000);
    if (prop == "P20") g.logging();
    if (prop == "P21") g.alwaysFree = true;
    if (prop == "P19") g.cfg("efence") = 1;
    if (prop == "P22") g.mapOpsPm = 600;
    if (g.r.chance(150)) g.bigSpaces = 2;
    w(g, g.r.range(1, 6));
    g.mixed(g.r.range(1, 2), 4);
    w(g, g.r.range(1, 4));
}

static void broadElastic(Gen& g, const WorkFn& w, const std::string& prop)
{
    g.base(0, 100, 0, 1, 4);
    g.knobs();
    g.netFaults(g.r.below(3));
    if (g.r.chance(300)) g.slow();
    if (prop == "P20") g.logging();
    if (prop == "P21") g.alwaysFree = true;
    if (prop == "P19") g.cfg("efence") = 1;
    if (prop == "P22") g.mapOpsPm = 600;
    g.doWork = w;
    g.elastic(g.r.range(1, 2), 4, false);
}
static const std::map<std::string, ProfFn>& profiles()
{
    static const std::map<std::string, ProfFn> p = {
        { "P01", [](Gen& g) { g.base(55, 40, 5, 2, 5); g.knobs(); g.netFaults(0); g.huge(100); g.preserve(g.r.range(3, 14), false); } },
        { "P02", [](Gen& g) {
            bool big = g.r.chance(150);
            g.base(55, 40, big ? 0 : 5, big ? 8 : 2, big ? 12 : 5);
            if (g.n() > 12) g.cfg("n") = 12;
            g.many = g.r.chance(big ? 600 : 150);
            g.knobs(); g.netFaults(0); g.huge(100, 1 + (int)g.r.below(2)); g.reduce(g.r.range(2, 10)); } },
        { "P03", [](Gen& g) { g.base(50, 35, 15, 1, 4); g.knobs(); g.netFaults(0); if (g.r.chance(150)) g.mapOpsPm = 200; g.memory(g.r.range(3, 14)); } },
        { "P04", [](Gen& g) { g.base(55, 40, 5, 2, 5); g.knobs(); g.netFaults(0); g.prepared(g.r.range(3, 14)); } },
        { "P05", [](Gen& g) { g.base(60, 30, 10, 1, 6); if (g.r.chance(60)) { g.cfg("n") = g.r.range(7, 12); g.cfg("backend") = g.r.below(2) + 1; g.huge(1000); } g.knobs(); g.netFaults(0); g.huge(60); g.partitioners(g.r.range(3, 12)); } },
        { "P07", [](Gen& g) { g.base(50, 45, 5, 2, 5); g.netFaults(0); g.kvs(g.r.range(4, 24), false); } },
        { "P08", [](Gen& g) { g.base(50, 30, 20, 1, 4); g.netFaults(0); g.kvs(g.r.range(4, 24), true); } },
        { "P09", [](Gen& g) { g.base(50, 45, 5, 1, 6); g.netFaults(0); g.locations(g.r.range(3, 14)); } },
        { "P06", [](Gen& g) {
            g.base(55, 45, 0, 2, 6);
            g.knobs();
            g.netFaults(2);
            if (g.r.chance(400)) g.starts(300000);
            if (g.backend() == 1) g.cfg("mpimode") = g.pick<int64_t>({ 1, 1, 2, 3 });
            g.slow();
            g.mixed(g.r.range(1, 3), 5); } },
        { "P13", [](Gen& g) {
            g.base(0, 100, 0, 2, 5);
            g.knobs();
            g.netFaults(2);
            g.cfg("seg") = g.pick<int64_t>({ 100, 500, 900 });
            g.cfg("rd") = g.pick<int64_t>({ 100, 400, 800 });
            g.cfg("wr") = g.pick<int64_t>({ 0, 100, 400 });
            if (g.r.chance(600)) g.cfg("eintr") = g.pick<int64_t>({ 10, 50, 200 });
            g.mixed(g.r.range(1, 2), 6); } },
        { "P15", [](Gen& g) {
            g.base(25, 75, 0, 1, 8);
            g.knobs();
            g.netFaults(1);
            g.starts(g.pick<int>({ 1000, 100000, 3000000 }));
            if (g.r.chance(400)) g.samePids();
            if (g.r.chance(300)) g.cfg("port") = g.r.range(1024, 60000);
            if (g.r.chance(300)) g.cfg("dual") = 1;
            if (g.backend() == 2) g.oversub(500);
            g.locations(2);
            g.preserve(2, false); } },
        { "P17", [](Gen& g) {
            g.base(40, 40, 20, 1, 5);
            if (g.r.chance(150)) g.oldTcp();
            g.knobs();
            if (g.r.chance(500)) g.cfg("generic") = 1;
            if (g.backend() == 1) { g.cfg("mpireduce") = g.r.below(2); g.cfg("mpiasync") = g.r.below(2); }
            if (g.backend() == 2) g.cfg("binmask") = g.r.below(1u << g.n());
            g.netFaults(0);
            g.mixed(g.r.range(1, 3), 6); } },
        { "P18", [](Gen& g) {
            g.base(100, 0, 0, 1, 5);
            g.oldTcp();
            g.knobs();
            g.netFaults(g.r.below(3));
            if (g.r.chance(300)) g.slow();
            if (g.r.chance(300)) g.starts(g.pick<int>({ 1000, 100000, 3000000 }));
            g.mixed(g.r.range(1, 2), g.r.range(1, 6)); } },
        { "P19", [](Gen& g) {
            g.base(45, 35, 20, 1, 5);
            g.knobs();
            g.cfg("efence") = g.r.chance(700);
            g.netFaults(0);
            g.mixed(g.r.range(1, 4), 6); } },
        { "P20", [](Gen& g) {
            g.base(45, 40, 15, 1, 4);
            g.knobs();
            g.netFaults(0);
            g.logging();
            g.mixed(g.r.range(1, 2), 8); } },
        { "P22", [](Gen& g) {
            g.base(45, 35, 20, 1, 4);
            g.knobs();
            if (g.r.chance(300)) g.cfg("efence") = 1;
            g.netFaults(0);
            g.mapOpsPm = 600;
            if (g.r.chance(100)) g.bigSpaces = 1;
            if (g.r.chance(300)) { g.memory(g.r.range(2, 6)); g.layouts(g.r.range(2, 6)); }
            else g.layouts(g.r.range(3, 14)); } },
        { "P23", [](Gen& g) {
            g.base(45, 35, 20, 1, 4);
            g.knobs();
            if (g.r.chance(400)) g.cfg("efence") = 1;
            g.netFaults(0);
            if (g.r.chance(300)) g.slow();
            if (g.r.chance(500)) g.chatty = true;
            g.world();
            g.agents(g.r.range(3, 30)); } },
        { "P24", [](Gen& g) {
            bool el = g.r.chance(250);
            g.base(el ? 0 : 25, 60, el ? 0 : 15, 1, 5);
            g.knobs();
            g.netFaults(g.r.below(2));
            if (g.r.chance(300)) g.slow();
            g.failures();
            if (el) { g.elastic(g.r.range(1, 3), 3, false); return; }
            g.mixed(g.r.range(1, 2), 6); } },
        { "P21", [](Gen& g) {
            g.base(45, 40, 15, 1, 5);
            g.netFaults(0);
            g.slow();
            g.alwaysFree = true;
            g.mixed(g.r.range(1, 2), 6); } },
        { "P11", [](Gen& g) {
            g.base(0, 100, 0, 1, 5);
            g.knobs();
            g.netFaults(g.r.below(3));
            if (g.r.chance(300)) g.slow();
            g.elastic(g.r.range(1, 4), 2, false); } },
        { "P12", [](Gen& g) {
            g.base(0, 100, 0, 1, 5);
            g.knobs();
            g.netFaults(0);
            g.elastic(g.r.range(1, 3), 5, false); } },
        { "P14", [](Gen& g) {
            g.base(0, 100, 0, 1, 5);
            g.knobs();
            g.netFaults(g.r.below(3));
            if (g.r.chance(200)) g.slow();
            g.strangers = true;
            if (g.r.chance(500)) g.elastic(g.r.range(1, 3), 2, true);
            else { g.hosts(); g.mixed(g.r.range(1, 4), g.r.range(1, 5)); } } },
        { "P16", [](Gen& g) {
            g.base(45, 40, 15, 1, 4);
            g.knobs();
            g.netFaults(0);
            g.cycles(9); } },
        { "P10", [](Gen& g) { g.base(55, 40, 5, 2, 6); g.netFaults(0); g.groups(g.r.range(3, 14)); } },
    };
    return p;
}

std::vector<std::string> profileNames()
{
    std::vector<std::string> v;
    for (auto& e : profiles()) v.push_back(e.first);
    return v;
}
int profileVariant(const std::string&) { return 0; }

bool generate(const std::string& prop, uint64_t seed, int tier, RunSpec& out)
{
    auto it = profiles().find(prop);
    if (it == profiles().end()) return false;
    out = RunSpec();
    out.prop = prop;
    out.seed = seed;
    Gen g(out, tier);
    auto w = works().find(prop);
    uint32_t style = g.r.below(1000);
    if (w != works().end() && style < 170) broad(g, w->second, prop);
    else if (w != works().end() && style < 270 && prop != "P09") broadElastic(g, w->second, prop);
    else it->second(g);
    return true;
}
