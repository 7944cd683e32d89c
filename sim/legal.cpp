#include "legal.h"

static bool redOk(int type, int red, int backend)
{
    if (red == LAIK_RO_None || red == LAIK_RO_Any || red == LAIK_RO_Single) return true;
    if (type == TK_CREDUCE) return red == LAIK_RO_Sum || red == LAIK_RO_Min || red == LAIK_RO_Max;
    if (type >= TK_CUSTOM) return false;
    (void)backend;
    if (type == TK_FLOAT || type == TK_DOUBLE) return red >= LAIK_RO_Sum && red <= LAIK_RO_Max;
    return red >= LAIK_RO_Sum && red <= LAIK_RO_Or;
}

// containers with own layout or with memory provided by the user
bool Legal::memoryOk(const DInfo& d, int from, int to, int flow, int red)
{
    bool real = red >= LAIK_RO_Sum && red <= LAIK_RO_Or;
    // the MPI backend reduces directly in containers: needs lex layout
    if (d.layout && real && flow == LAIK_DF_Preserve && mpiLike && sp[d.space].dims == 1 && world > 1) return false;
    // provided memory is used before and after the switch
    if (d.prov && from >= 0 && flow == LAIK_DF_Preserve && from != to) {
        auto all = [&](int p) { return part[p].kind == PK_ALL || part[p].kind == PK_GALL; };
        if (!all(from) || !all(to)) return false;
    }
    return true;
}

bool Legal::preserveOk(const PInfo& f, const PInfo& t, int red, int dims)
{
    bool real = red >= LAIK_RO_Sum && red <= LAIK_RO_Or;
    if (dims == 1) {
        if (!real && f.multi) return false;
        if (!f.full) {
            if (t.full) return false;
            for (int64_t i : t.cov) if (!f.cov.count(i)) return false;
        }
        // values with several owners and no taker: nothing defined to do
        if (f.multi && !t.full) {
            if (f.full) return false;
            for (int64_t i : f.cov) if (!t.cov.count(i)) return false;
        }
        return true;
    }
    if (red == LAIK_RO_Any || red == LAIK_RO_Single) return false;
    if (real) {
        // MPI backend: reductions only implemented for 1d spaces
        if (mpiLike)
            for (auto& e : gr) if (e.second.canon == f.group && e.second.lids.size() > 1) return false;
        if (f.kind != PK_ALL && f.kind != PK_GALL) return false;
        if (t.kind != PK_ALL && t.kind != PK_GALL && t.kind != PK_MASTER && t.kind != PK_GMASTER) return false;
    }
    return true;
}

// switch between partitionings of different groups: done in their union
bool Legal::crossOk(const PInfo& f, const PInfo& t, int flow, int red, int dims)
{
    if (f.moved || t.moved || groupsMade > 40) return false;
    auto stored = [](const PInfo& p) { return p.mode == 0 || p.mode == 1 || p.mode == 5 || p.mode == 4; };
    if (!stored(f) || !stored(t)) return false;
    bool real = red >= LAIK_RO_Sum && red <= LAIK_RO_Or;
    if (flow == LAIK_DF_Preserve && real && dims > 1) return false;
    const GInfo *a = nullptr, *b = nullptr;
    for (auto& e : gr) { if (e.second.canon == f.group) a = &e.second; if (e.second.canon == t.group) b = &e.second; }
    if (!a || !b) return false;
    if (elastic) return inResize && b->parent == a->canon;
    std::set<int> u(a->lids.begin(), a->lids.end());
    u.insert(b->lids.begin(), b->lids.end());
    bool aAll = u.size() == a->lids.size(), bAll = u.size() == b->lids.size();
    if (!aAll && !bAll) return !mpiLike;
    // one group is the union: migration is only supported between a group and its direct child
    return a->parent == b->canon || a->parent2 == b->canon || b->parent == a->canon || b->parent2 == a->canon;
}

// a container newcomers can take over: its partitioning is one they can compute
bool Legal::joinOk(const DInfo& d)
{
    if (d.part < 0) return true;
    PInfo& p = part[d.part];
    switch (p.kind) {
    case PK_ALL: case PK_GALL: case PK_MASTER: case PK_GMASTER: case PK_BLOCK: case PK_BLOCK1: case PK_BISECT: break;
    default: return false;
    }
    return (p.mode == 0 || p.mode == 1 || p.mode == 5) && p.group == worldCanon && !p.moved && !d.prov && !d.initOnly && d.res < 0;
}

// programs with a changing world
bool Legal::elasticOk(const Op& o)
{
    int i0 = o.a.empty() ? -1 : (int)o.a[0];
    if (inResize) {
        switch (o.kind) {
        case OP_SPACE: case OP_PRTR: case OP_PART: case OP_FREEDATA: case OP_JOIN: case OP_STRAY:
        case OP_SLEEP: case OP_CLOCK: case OP_LOG: case OP_ITER: case OP_PHASE: case OP_PROF: case OP_RSDONE: break;
        case OP_SWITCH:
            if (!data.count(i0) || (int)o.a[1] < 0 || !part.count((int)o.a[1])) return false;
            if (part[(int)o.a[1]].group != gr[worldGid].canon) return false;
            break;
        case OP_CHECK: case OP_WRITE:
            if (!data.count(i0) || data[i0].part < 0 || part[data[i0].part].group != gr[worldGid].canon) return false;
            break;
        default: return false;
        }
    }
    switch (o.kind) {
    case OP_GROUP: return o.a[1] == 0 && worldGid < 0;
    case OP_PART: if (o.a.size() < 7 || (int)o.a[2] != worldGid) return false; break;
    case OP_PRTR:
        if (o.a.size() < 2 || o.a[1] == PK_REASSIGN) return false;
        if (resizes && (o.a[1] == PK_CUSTOM || o.a[1] == PK_SINGLEIDX || o.a[1] == PK_GRID)) return false;
        break;
    case OP_FREESPACE: return false;
    case OP_SPSET: case OP_SPSYNC: case OP_SPGET: case OP_SPCHG: return resizes == 0;
    }
    return true;
}

bool Legal::step(const Op& o)
{
    auto id = [&](size_t i) { return i < o.a.size() ? (int)o.a[i] : -1; };
    auto fresh = [&](int i) { return i >= 0 && !used.count(i); };
    if (elastic && !elasticOk(o)) return false;
    // own ranges only, migrated: processes which were outside know nothing
    if (o.kind == OP_PART || o.kind == OP_SWITCH || o.kind == OP_SETINIT || o.kind == OP_TRANS || o.kind == OP_RES || o.kind == OP_USERES || o.kind == OP_ACT || o.kind == OP_EXEC)
        for (int64_t v : o.a) { auto e = part.find((int)v); if (e != part.end() && e->second.mode == 9) return false; }
    switch (o.kind) {
    case OP_SPACE: {
        if (o.a.size() < 8 || !fresh(id(0))) return false;
        Space x;
        x.dims = id(1);
        if (x.dims < 1 || x.dims > 3) return false;
        for (int d = 0; d < 3; d++) {
            x.r.f[d] = d < x.dims ? o.a[2 + 2 * d] : 0;
            x.r.t[d] = d < x.dims ? o.a[3 + 2 * d] : 1;
            if (x.r.f[d] >= x.r.t[d]) return false;
        }
        sp[id(0)] = x;
        used.insert(id(0));
        return true;
    }
    case OP_FREESPACE:
        if (!sp.count(id(0))) return false;
        for (auto& e : part) if (e.second.space == id(0)) return false;
        for (auto& e : data) if (e.second.space == id(0)) return false;
        for (auto& e : tr) if (e.second.space == id(0)) return false;
        for (auto& e : spNames) if (e.second[0] == id(0)) return false;
        sp.erase(id(0));
        return true;
    case OP_GROUP: {
        if (!fresh(id(0)) || groupsMade > 40) return false;
        GInfo g;
        switch (id(1)) {
        case 0:
            for (int i = 0; i < world; i++) g.lids.push_back(i);
            if (worldCanon < 0) worldCanon = id(0);
            if (elastic) worldGid = id(0);
            g.canon = worldCanon;
            break;
        case 1:
            if (!gr.count(id(2))) return false;
            g.lids = gr[id(2)].lids;
            g.canon = id(0);
            g.parent = gr[id(2)].canon;
            groupsMade++;
            break;
        case 2: {
            if (!gr.count(id(2))) return false;
            auto& src = gr[id(2)].lids;
            std::set<int64_t> rm(o.a.begin() + 3, o.a.end());
            for (int64_t r : rm) if (r < 0 || r >= (int64_t)src.size()) return false;
            if (rm.size() >= src.size()) return false;
            if (o.a.size() - 3 != rm.size()) return false;
            for (size_t i = 0; i < src.size(); i++) if (!rm.count((int64_t)i)) g.lids.push_back(src[i]);
            g.canon = id(0);
            g.parent = gr[id(2)].canon;
            groupsMade++;
            break;
        }
        case 3: {
            if (!gr.count(id(2)) || !gr.count(id(3))) return false;
            std::set<int> u(gr[id(2)].lids.begin(), gr[id(2)].lids.end());
            u.insert(gr[id(3)].lids.begin(), gr[id(3)].lids.end());
            g.lids.assign(u.begin(), u.end());
            // documented: new communicators only for sub-groups ("only supports shrinking of parent")
            if (mpiLike && u.size() != gr[id(2)].lids.size() && u.size() != gr[id(3)].lids.size()) return false;
            if (u.size() == gr[id(2)].lids.size()) g = gr[id(2)];
            else if (u.size() == gr[id(3)].lids.size()) g = gr[id(3)];
            else {
                g.canon = id(0);
                g.parent = gr[id(2)].canon;
                g.parent2 = gr[id(3)].canon;
                groupsMade++;
            }
            break;
        }
        case 4:
            if (!gr.count(id(2)) || !gr.count(id(3))) return false;
            if (gr[id(2)].parent < 0 || gr[id(2)].parent != gr[id(3)].canon) return false;
            g = gr[id(3)];
            break;
        default: return false;
        }
        gr[id(0)] = g;
        used.insert(id(0));
        return true;
    }
    case OP_GCHECK: return gr.count(id(0)) != 0;
    case OP_PRTR: {
        if (!fresh(id(0)) || o.a.size() < 2) return false;
        if (id(1) == PK_REASSIGN && !gr.count(id(2))) return false;
        prOps.push_back(o);
        pr[id(0)] = &prOps.back();
        used.insert(id(0));
        return true;
    }
    case OP_PART: {
        if (!fresh(id(0)) || o.a.size() < 7) return false;
        if (!pr.count(id(1)) || !gr.count(id(2)) || !sp.count(id(3))) return false;
        if (id(4) >= 0 && (!part.count(id(4)) || part[id(4)].space != id(3))) return false;
        const Op& p = *pr[id(1)];
        PInfo n;
        n.space = id(3);
        n.group = gr[id(2)].canon;
        n.kind = (int)p.a[1];
        n.prtr = id(1);
        n.mode = id(5);
        if (n.mode == 6) { // created by the switch which follows
            if (elastic || id(4) >= 0 || (int)gr[id(2)].lids.size() != world) return false;
            n.mode = 0;
        }
        int G = (int)gr[id(2)].lids.size();
        Space& x = sp[id(3)];
        auto baseOk = [&]() {
            if (id(4) < 0) return false;
            PInfo& b = part[id(4)];
            if (b.group != n.group || b.moved) return false;
            if (b.mode == 2 || b.mode == 3) return false; // only own ranges known
            return true;
        };
        switch (n.kind) {
        case PK_ALL: case PK_GALL: n.multi = G > 1; break;
        case PK_MASTER: case PK_GMASTER: n.empties = true; break;
        case PK_COPY: {
            if (!baseOk()) return false;
            int fd = (int)p.a[2], td = (int)p.a[3];
            if (fd >= x.dims || td >= x.dims) return false;
            // source and target dimension must have the same borders
            if (x.r.f[fd] != x.r.f[td] || x.r.t[fd] != x.r.t[td]) return false;
            PInfo& b = part[id(4)];
            if (b.kind != PK_BLOCK && b.kind != PK_BLOCK1) return false;
            n.multi = x.dims > 1;
            n.empties = true;
            break;
        }
        case PK_CORNERHALO: case PK_HALO: {
            if (!baseOk()) return false;
            PInfo& b = part[id(4)];
            if (!b.tagged && n.kind == PK_HALO) return false;
            if (b.kind != PK_BLOCK && b.kind != PK_BLOCK1 && b.kind != PK_BISECT && b.kind != PK_GRID && b.kind != PK_CUSTOM) return false;
            if (b.multi || !b.full) return false;
            if (b.kind == PK_BLOCK && pr[b.prtr]->a[3] != 1) return false; // several ranges per process: halos overlap
            if (b.kind == PK_CUSTOM) return false;
            n.multi = true;
            n.empties = true;
            n.tagged = b.tagged;
            break;
        }
        case PK_BISECT: n.empties = true; n.tagged = true; break;
        case PK_GRID:
            if (x.dims != 3) return false;
            if (p.a[2] * p.a[3] * p.a[4] > G) return false;
            for (int d = 0; d < 3; d++) if (x.ext(d) < p.a[2 + d]) return false;
            n.empties = true;
            n.tagged = true;
            break;
        case PK_BLOCK:
            if ((int)p.a[2] >= x.dims) return false;
            if (p.a[4] && p.a[2] != 0) return false;
            n.empties = true;
            break;
        case PK_BLOCK1: n.empties = true; break;
        case PK_REASSIGN: {
            if (!baseOk() || x.dims != 1) return false;
            PInfo& b = part[id(4)];
            if (b.multi || !b.full) return false;
            // new group must be a subset of the group of the old partitioning
            for (int l : gr[(int)p.a[2]].lids)
                if (std::find(gr[id(2)].lids.begin(), gr[id(2)].lids.end(), l) == gr[id(2)].lids.end()) return false;
            if (gr[(int)p.a[2]].parent != n.group) return false;
            n.empties = true;
            break;
        }
        case PK_CUSTOM: case PK_SINGLEIDX: {
            std::map<int64_t, std::set<int>> own;
            n.tagged = true;
            if (n.kind == PK_SINGLEIDX) {
                if (x.dims != 1) return false;
                if (!(p.a[2] & LAIK_PF_SingleIndex)) {}
                for (int64_t j = 0; j < p.a[3]; j++) {
                    const int64_t* e = &p.a[4 + j * 2];
                    if (e[0] >= G) continue;
                    if (e[1] < x.r.f[0] || e[1] >= x.r.t[0]) return false;
                    int64_t q[3] = { e[1], 0, 0 };
                    if (own[x.lin(q)].count((int)e[0]) && !(p.a[2] & LAIK_PF_Merge)) return false;
                    own[x.lin(q)].insert((int)e[0]);
                }
                n.tagged = false;
            }
            else {
                if (p.a[3] != x.dims) return false;
                if ((p.a[2] & LAIK_PF_Merge) && x.dims > 1) return false;
                for (int64_t j = 0; j < p.a[4]; j++) {
                    const int64_t* e = &p.a[5 + j * 8];
                    if (e[0] >= G) continue;
                    if (e[1] <= 0) n.tagged = false;
                    Rg r;
                    for (int d = 0; d < 3; d++) {
                        r.f[d] = d < x.dims ? e[2 + 2 * d] : 0;
                        r.t[d] = d < x.dims ? e[3 + 2 * d] : 1;
                        if (d < x.dims && (r.f[d] < x.r.f[d] || r.t[d] > x.r.t[d] || r.f[d] >= r.t[d])) return false;
                    }
                    int64_t i[3];
                    for (i[2] = r.f[2]; i[2] < r.t[2]; i[2]++)
                        for (i[1] = r.f[1]; i[1] < r.t[1]; i[1]++)
                            for (i[0] = r.f[0]; i[0] < r.t[0]; i[0]++) {
                                auto& w = own[x.lin(i)];
                                if (w.count((int)e[0]) && !(p.a[2] & LAIK_PF_Merge)) return false; // twice in one process
                                w.insert((int)e[0]);
                            }
                }
            }
            n.full = (int64_t)own.size() == x.size();
            if (!n.full) {
                if (!((int)p.a[2] & LAIK_PF_NoFullCoverage)) return false;
                for (auto& e : own) n.cov.insert(e.first);
            }
            for (auto& e : own) if (e.second.size() > 1) n.multi = true;
            n.empties = true;
            break;
        }
        default: return false;
        }
        switch (n.mode) {
        case 0: case 1: case 2: case 5: break;
        case 3:
            if (x.dims != 1) return false;
            if (!part.count(id(6)) || part[id(6)].space != id(3) || part[id(6)].group != n.group) return false;
            if (part[id(6)].mode != 2 && part[id(6)].mode != 3 && part[id(6)].mode != 0 && part[id(6)].mode != 1) return false;
            n.inter.insert(id(6));
            break;
        case 4: {
            if (!part.count(id(6)) || part[id(6)].moved) return false;
            PInfo& b = part[id(6)];
            if (b.prtr != id(1) || b.group != n.group || b.space != n.space) return false;
            if (b.mode == 2 || b.mode == 3) return false;
            if (n.kind == PK_COPY || n.kind == PK_HALO || n.kind == PK_CORNERHALO || n.kind == PK_REASSIGN) return false;
            break;
        }
        default: return false;
        }
        if (n.mode == 3) part[id(6)].inter.insert(id(0));
        n.born = pos;
        part[id(0)] = n;
        used.insert(id(0));
        return true;
    }
    case OP_PCHECK: return part.count(id(0)) > 0;
    case OP_FREEPART:
        if (!part.count(id(0)) || partUsed(id(0))) return false;
        part.erase(id(0));
        return true;
    case OP_MIGRATE: {
        if (!part.count(id(0)) || !gr.count(id(1))) return false;
        PInfo& p = part[id(0)];
        if (p.mode != 0 && p.mode != 1 && p.mode != 2 && p.mode != 5) return false;
        GInfo& ng = gr[id(1)];
        GInfo* og = nullptr;
        for (auto& e : gr) if (e.second.canon == p.group) og = &e.second;
        if (!og) return false;
        if (ng.canon == p.group) return false;
        std::vector<int> need;
        if (p.kind == PK_REASSIGN) need = gr[(int)pr[p.prtr]->a[2]].lids;
        else if (p.kind == PK_MASTER || p.kind == PK_GMASTER) need = { og->lids[0] };
        else need = og->lids;
        if (p.moved) return false;
        // only between a group and its shrinked child
        bool down = ng.parent == p.group, up = og->parent == ng.canon;
        if (!down && !up) return false;
        for (int l : need) if (std::find(ng.lids.begin(), ng.lids.end(), l) == ng.lids.end()) return false;
        for (auto& e : tr) if (e.second.from == id(0) || e.second.to == id(0)) return false;
        for (auto& e : res) if (e.second.parts.count(id(0))) return false;
        p.group = ng.canon;
        p.moved = true;
        if (p.mode == 2) p.mode = 9;
        return true;
    }
    case OP_DATA: {
        if (!fresh(id(0)) || o.a.size() < 6 || !sp.count(id(1))) return false;
        DInfo d;
        d.space = id(1); d.type = id(2); d.layout = id(3); d.alloc = id(4); d.prov = id(5);
        if (d.layout == 2 && sp[d.space].dims != 3) return false;
        if (mpiLike && d.type >= TK_CUSTOM) return false; // no user types over MPI
        data[id(0)] = d;
        used.insert(id(0));
        return true;
    }
    case OP_FREEDATA: {
        if (!data.count(id(0))) return false;
        for (auto& e : res) if (e.second.data == id(0)) return false;
        for (auto& e : act) if (e.second.data == id(0)) return false;
        data.erase(id(0));
        return true;
    }
    case OP_SWITCH: {
        if (!data.count(id(0)) || o.a.size() < 4) return false;
        DInfo& d = data[id(0)];
        int to = id(1), flow = id(2), red = id(3);
        if (to < 0) {
            if (d.part < 0 || flow != LAIK_DF_None) return false;
            d.part = -1;
            return true;
        }
        if (!part.count(to) || part[to].space != d.space) return false;
        if (!memoryOk(d, d.part, to, flow, red)) return false;
        PInfo& t = part[to];
        int dims = sp[d.space].dims;
        if (d.part >= 0) {
            PInfo& f = part[d.part];
            if (f.group != t.group && !crossOk(f, t, flow, red, dims)) return false;
            if (f.group != t.group) groupsMade++;
            if (flow == LAIK_DF_Preserve) {
                if (!redOk(d.type, red, backend) || !preserveOk(f, t, red, dims)) return false;
                // own ranges only: all needed intersections must be known
                bool fAll = f.mode == 0 || f.mode == 1 || f.mode == 5 || f.mode == 4;
                bool tAll = t.mode == 0 || t.mode == 1 || t.mode == 5 || t.mode == 4;
                if (dims > 1) { if (!fAll || !tAll) return false; }
                else {
                    if (!fAll && !f.inter.count(to)) return false;
                    if (!tAll && !t.inter.count(d.part)) return false;
                }
            }
        }
        else if (flow == LAIK_DF_Preserve && !redOk(d.type, red, backend)) return false;
        if (flow == LAIK_DF_Init) {
            if (dims != 1 || d.layout) return false;
            if (!(red >= LAIK_RO_Sum && red <= LAIK_RO_Or) || !redOk(d.type, red, backend)) return false;
            if (d.type == TK_CREDUCE && red != LAIK_RO_Sum) return false;
        }
        d.part = to;
        d.everSwitched = true;
        d.initOnly = false;
        return true;
    }
    case OP_SETINIT: {
        if (!data.count(id(0)) || !part.count(id(1))) return false;
        DInfo& d = data[id(0)];
        if (d.part >= 0 || d.everSwitched || part[id(1)].space != d.space) return false;
        d.part = id(1);
        d.initOnly = true;
        return true;
    }
    case OP_FLOW: {
        if (!data.count(id(0))) return false;
        DInfo& d = data[id(0)];
        if (d.part < 0 || d.initOnly) return false;
        int flow = id(1), red = id(2), dims = sp[d.space].dims;
        PInfo& f = part[d.part];
        if (!memoryOk(d, d.part, d.part, flow, red)) return false;
        if (flow == LAIK_DF_Preserve) {
            if (!redOk(d.type, red, backend) || !preserveOk(f, f, red, dims)) return false;
            if (f.mode == 2 || f.mode == 3) return false;
        }
        if (flow == LAIK_DF_Init) {
            if (dims != 1 || d.layout) return false;
            if (!(red >= LAIK_RO_Sum && red <= LAIK_RO_Or) || !redOk(d.type, red, backend)) return false;
            if (d.type == TK_CREDUCE && red != LAIK_RO_Sum) return false;
        }
        return true;
    }
    case OP_WRITE: case OP_CHECK: case OP_FILL: {
        if (!data.count(id(0))) return false;
        DInfo& d = data[id(0)];
        if (d.part < 0 || d.initOnly) return false;
        if (part[d.part].moved) return false;
        if (o.kind == OP_FILL && (d.type != TK_DOUBLE || d.layout)) return false;
        if (o.kind == OP_WRITE && d.type >= TK_CUSTOM && d.type != TK_CREDUCE && id(2) != 0) return false;
        return true;
    }
    case OP_HUGE:
        if (o.a.size() < 5 || elastic || !gr.count(id(0)) || gr[id(0)].canon != worldCanon) return false;
        return o.a[1] >= 1 && o.a[1] <= 3 && (!o.a[4] || o.a[1] == 1);
    case OP_MAPOPS: {
        if (o.a.size() < 3 || !data.count(id(0)) || !data.count(id(1))) return false;
        DInfo &x = data[id(0)], &y = data[id(1)];
        if (x.part < 0 || y.part < 0 || x.initOnly || y.initOnly || part[x.part].moved || part[y.part].moved) return false;
        return x.space == y.space && x.type == y.type;
    }
    case OP_TRANS: {
        if (!fresh(id(0)) || o.a.size() < 6 || !sp.count(id(1))) return false;
        int f = id(2), t = id(3), flow = id(4), red = id(5), dims = sp[id(1)].dims;
        if (f >= 0 && (!part.count(f) || part[f].space != id(1) || part[f].moved)) return false;
        if (t < 0 || !part.count(t) || part[t].space != id(1) || part[t].moved) return false;
        auto stored = [&](int p) { int m = part[p].mode; return m == 0 || m == 1 || m == 4 || m == 5; };
        if ((f >= 0 && !stored(f)) || !stored(t)) return false;
        if (part[t].group != worldCanon || (f >= 0 && part[f].group != worldCanon)) return false;
        if (flow == LAIK_DF_Preserve && f >= 0 && !preserveOk(part[f], part[t], red, dims)) return false;
        if (flow == LAIK_DF_Init && (dims != 1 || !(red >= LAIK_RO_Sum && red <= LAIK_RO_Or))) return false;
        tr[id(0)] = { id(1), f, t, flow, red };
        used.insert(id(0));
        return true;
    }
    case OP_EXEC: {
        if (!data.count(id(0)) || !tr.count(id(1))) return false;
        DInfo& d = data[id(0)];
        TInfo& t = tr[id(1)];
        if (t.space != d.space || t.from != d.part || d.initOnly) return false;
        if (!memoryOk(d, t.from, t.to, t.flow, t.red)) return false;
        if (t.flow != LAIK_DF_None && !redOk(d.type, t.red, backend)) return false;
        if (t.flow == LAIK_DF_Init && (d.layout || (d.type == TK_CREDUCE && t.red != LAIK_RO_Sum))) return false;
        d.part = t.to;
        d.everSwitched = true;
        return true;
    }
    case OP_FREETRANS: {
        if (!tr.count(id(0))) return false;
        for (auto& e : act) if (e.second.trans == id(0)) return false;
        tr.erase(id(0));
        return true;
    }
    case OP_ACT: {
        if (!fresh(id(0)) || o.a.size() < 5 || !data.count(id(1)) || !tr.count(id(2))) return false;
        DInfo& d = data[id(1)];
        TInfo& t = tr[id(2)];
        if (t.space != d.space) return false;
        if (t.from < 0) return false;
        if (!memoryOk(d, t.from, t.to, t.flow, t.red)) return false;
        // known finding: reductions recorded without knowing the memory abort with MPI
        if (mpiLike && world > 1 && t.flow == LAIK_DF_Preserve && t.red >= LAIK_RO_Sum && t.red <= LAIK_RO_Or && (id(3) < 0 || id(4) < 0)) return false;
        if (t.flow != LAIK_DF_None && !redOk(d.type, t.red, backend)) return false;
        if (t.flow == LAIK_DF_Init && (d.layout || (d.type == TK_CREDUCE && t.red != LAIK_RO_Sum))) return false;
        auto resOk = [&](int r, int p) {
            if (r < 0) return true;
            return res.count(r) && res[r].data == id(1) && res[r].parts.count(p) != 0;
        };
        if (!resOk(id(3), t.from) || !resOk(id(4), t.to)) return false;
        act[id(0)] = { id(1), id(2), id(3), id(4) };
        used.insert(id(0));
        return true;
    }
    case OP_EXECACT: {
        if (!act.count(id(0))) return false;
        AInfo& a = act[id(0)];
        if (!data.count(a.data) || !tr.count(a.trans)) return false;
        DInfo& d = data[a.data];
        TInfo& t = tr[a.trans];
        if (d.part != t.from || d.initOnly) return false;
        // a sequence prepared for reserved memory needs this memory in use
        if (a.fromRes >= 0 && d.res != a.fromRes) return false;
        if (a.toRes >= 0 && d.res != a.toRes) return false;
        if (a.fromRes < 0 && d.res >= 0) return false;
        d.part = t.to;
        d.everSwitched = true;
        return true;
    }
    case OP_FREEACT:
        if (!act.count(id(0))) return false;
        act.erase(id(0));
        return true;
    case OP_RES: {
        if (!fresh(id(0)) || o.a.size() < 3 || !data.count(id(1))) return false;
        DInfo& d = data[id(1)];
        if (d.layout || d.prov) return false;
        RInfo r;
        r.data = id(1);
        int g = -1;
        for (size_t i = 2; i < o.a.size(); i++) {
            int p = id(i);
            if (!part.count(p) || part[p].space != d.space || part[p].moved) return false;
            if (part[p].group != worldCanon) return false;
            if (part[p].mode == 2 || part[p].mode == 3) {}
            if (g >= 0 && part[p].group != g) return false;
            g = part[p].group;
            if (!part[p].tagged) return false;
            r.parts.insert(p);
        }
        if (r.parts.size() != o.a.size() - 2) return false;
        res[id(0)] = r;
        used.insert(id(0));
        return true;
    }
    case OP_USERES: {
        if (!data.count(id(0)) || !res.count(id(1)) || res[id(1)].data != id(0)) return false;
        data[id(0)].res = id(1);
        return true;
    }
    case OP_FREERES: {
        if (!res.count(id(0))) return false;
        int dd = res[id(0)].data;
        if (data.count(dd) && (data[dd].res == id(0) || (data[dd].part >= 0 && res[id(0)].parts.count(data[dd].part)))) return false;
        for (auto& e : act) if (e.second.fromRes == id(0) || e.second.toRes == id(0)) return false;
        res.erase(id(0));
        return true;
    }
    case OP_KVNEW:
        if (!fresh(id(0))) return false;
        kv[id(0)] = KInfo();
        used.insert(id(0));
        return true;
    case OP_KVCB: case OP_KVCHECK:
        return kv.count(id(0)) != 0;
    case OP_KVSET: {
        if (!kv.count(id(0)) || o.a.size() < 6) return false;
        KInfo& k = kv[id(0)];
        std::string key = std::to_string(o.a[1]);
        // different values for one key by several processes in one phase are a user error
        int64_t mask = o.a[4];
        std::vector<int64_t> val = { o.a[2], o.a[3], o.a[5] };
        auto it = k.pend.find(key);
        if (it != k.pend.end()) {
            bool same = it->second == val;
            // the same process may set a key again, if no other one touches it
            auto& t = k.touched[o.a[1]];
            if (!same) {
                if (t.size() != 1) return false;
                int l = *t.begin();
                if (mask != (1ll << l)) return false;
            }
        }
        bool single = mask && !(mask & (mask - 1));
        if (k.cleaner && !(single && mask == k.cleaner)) return false;
        if (k.everSet.count("rem" + key)) {
            auto& t = k.touched[o.a[1]];
            if (!single || t.size() != 1 || mask != (1ll << *t.begin())) return false;
        }
        k.pend[key] = val;
        for (int i = 0; i < 16; i++) if ((mask >> i) & 1) k.touched[o.a[1]].insert(i);
        return true;
    }
    case OP_KVREM: {
        if (!kv.count(id(0)) || o.a.size() < 3) return false;
        KInfo& k = kv[id(0)];
        std::string key = std::to_string(o.a[1]);
        auto& t = k.touched[o.a[1]];
        if (k.pend.count(key) && (t.size() != 1 || o.a[2] != (1ll << *t.begin()))) return false;
        if (k.cleaner && !(!(k.cleaner & (k.cleaner - 1)) && o.a[2] == k.cleaner)) return false;
        k.everSet.insert("rem" + key);
        for (int i = 0; i < 16; i++) if ((o.a[2] >> i) & 1) t.insert(i);
        return true;
    }
    case OP_KVCLEAN: {
        if (!kv.count(id(0))) return false;
        KInfo& k = kv[id(0)];
        if (o.a.size() < 2 || !o.a[1] || k.cleaner) return false;
        bool single = !(o.a[1] & (o.a[1] - 1));
        if (k.bulker && k.bulker != o.a[1]) return false;
        if (k.bulker && !single) return false;
        for (auto& t : k.touched)
            for (int l : t.second) if (!single || o.a[1] != (1ll << l)) return false;
        k.cleaner = o.a[1];
        return true;
    }
    case OP_KVBULK: {
        if (!kv.count(id(0)) || o.a.size() < 5) return false;
        KInfo& k = kv[id(0)];
        int64_t m = o.a[4];
        bool single = m && !(m & (m - 1));
        if (!m || (k.cleaner && !(single && k.cleaner == m)) || (k.bulker && !(single && k.bulker == m))) return false;
        k.bulker = m;
        return true;
    }
    case OP_KVSYNC: {
        if (!kv.count(id(0))) return false;
        KInfo& k = kv[id(0)];
        k.pend.clear();
        k.touched.clear();
        k.everSet.clear();
        k.cleaner = k.bulker = 0;
        return true;
    }
    case OP_KVFREE:
        if (!kv.count(id(0))) return false;
        kv.erase(id(0));
        return true;
    case OP_LOCSYNC: return true;
    case OP_SPSET: {
        if (!sp.count(id(0)) || o.s.empty()) return false;
        // one name, one space
        auto it = spNames.find(o.s);
        if (it != spNames.end()) return false;
        for (auto& e : spNames) if (e.second[0] == id(0)) return false;
        if (o.a.size() < 2 || !o.a[1]) return false;
        spNames[o.s] = { id(0), o.a[1] };
        spPend[o.s] = { o.a[1], 0 };
        return true;
    }
    case OP_SPCHG: {
        auto it = spNames.find(o.s);
        if (it == spNames.end() || o.a.size() < 8 || !o.a[0] || (o.a[0] & ~it->second[1])) return false;
        if (o.a[1] != sp[(int)it->second[0]].dims) return false;
        // different changes of several processes in one phase are a user error
        auto p = spPend.find(o.s);
        if (p != spPend.end()) {
            bool single = !(o.a[0] & (o.a[0] - 1));
            bool same = p->second[1] != 0;
            for (size_t i = 1; i < 8; i++) same = same && p->second.size() > i + 1 && p->second[i + 1] == o.a[i];
            if (!(single && p->second[0] == o.a[0]) && !same) return false;
        }
        auto& v = spPend[o.s];
        int64_t m = (v.empty() ? 0 : v[0]) | o.a[0];
        v = { m, 1 };
        for (size_t i = 1; i < 8; i++) v.push_back(o.a[i]);
        return true;
    }
    case OP_SPSYNC:
        for (auto& e : spNames) e.second[1] = -1;
        spPend.clear();
        return true;
    case OP_SPGET: return true;
    case OP_SLEEP: case OP_CLOCK: case OP_PROF: case OP_LOG: case OP_ITER: return true;
    case OP_AGENT:
        if (o.a.size() < 3 || elastic || nagents >= 10 || ((o.a[1] & 16) ? simpleAgent || !(o.a[1] & 1) || o.a[0] != 1 : o.a[2] < 0 || o.a[2] > 4)) return false;
        if (o.a[1] & 16) simpleAgent = true;
        nagents++;
        return true;
    case OP_FAIL:
        if (o.a.size() < 5 || id(0) < 0 || id(0) >= nagents || o.a[1] < 0 || o.a[3] < 0 || o.a[4] > 63 || nfail + o.a[3] > 32) return false;
        nfail += (int)o.a[3];
        return true;
    case OP_GETFAIL: return nagents > 0;
    case OP_PHASE: return o.a.size() >= 3 && o.a[2] >= 0 && o.a[2] < 5;
    case OP_MEM: // everything with a release function is released
        return part.empty() && data.empty() && tr.empty() && act.empty() && res.empty() && kv.empty();
    case OP_RESIZE: {
        if (!elastic || inResize || worldGid < 0 || backend != 2 || !fresh(id(0)) || pos == 0) return false;
        if (!tr.empty() || !act.empty() || !res.empty()) return false;
        for (auto& e : data) if (!joinOk(e.second)) return false;
        kv.clear();
        spNames.clear();
        spPend.clear();
        GInfo g;
        g.lids = { 0, 1 };
        g.canon = id(0);
        g.parent = gr[worldGid].canon;
        gr[id(0)] = g;
        used.insert(id(0));
        oldGid = worldGid;
        worldGid = id(0);
        inResize = true;
        resizes++;
        return true;
    }
    case OP_RSDONE: {
        if (!inResize) return false;
        int nc = gr[worldGid].canon;
        for (auto& e : data) if (e.second.part >= 0 && part[e.second.part].group != nc) return false;
        for (auto it = part.begin(); it != part.end();) it = it->second.group != nc ? part.erase(it) : std::next(it);
        gr.erase(oldGid);
        worldCanon = nc;
        gr[worldGid].parent = -1;
        inResize = false;
        return true;
    }
    case OP_JOIN: {
        if (!elastic || id(0) < world || id(0) >= world + (int)s.cfg.get("joiners")) return false;
        if (joined.count(id(0))) return false;
        joined.insert(id(0));
        return true;
    }
    case OP_STRAY: {
        // requests to end or to take part would be obeyed
        std::string rest;
        std::vector<std::string> l = strayLines(o.s, rest);
        l.push_back(rest);
        for (auto& x : l) {
            if (x.empty()) continue;
            char c[21], y[51];
            int id;
            if (x[0] == 't') return false;
            if (x[0] == 'r' && sscanf(x.c_str(), "%20s %50s", c, y) == 2) return false;
            if (x[0] == 'm' && sscanf(x.c_str(), "%20s %d", c, &id) == 2 && id >= 0 && id < 200) return false;
        }
        return backend == 2 && o.a.size() >= 3 && o.a[2] >= 0 && o.a[2] < world;
    }
    case OP_REPART: return false;
    }
    return false;
}

// drop operations which are not allowed without the ones removed before
bool repairProgram(RunSpec& s)
{
    Legal l(s);
    std::vector<Op> keep;
    for (auto& o : s.ops) if (l.accept(o)) keep.push_back(o);
    if (l.inResize || keep.empty()) return false;
    s.ops.swap(keep);
    return true;
}

bool legalProgram(RunSpec& s)
{
    Legal l(s);
    for (auto& o : s.ops) if (!l.accept(o)) return false;
    return !l.inResize;
}
