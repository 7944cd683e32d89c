// Index spaces far larger than memory, of which processes own small boxes far
// apart: an own small model with 64-bit indexes.

struct HBox { int task, tag; int64_t f[3], t[3]; };
struct HugePlan {
    int dims = 1;
    int64_t size[3] = { 1, 1, 1 };
    std::vector<HBox> p[3];    // 0: one owner each, 1: parts of it, 2: several owners
};
static std::map<int, HugePlan> hugePlans;

static HugePlan& hugePlan(int k, int dims, uint64_t seed, int n)
{
    auto it = hugePlans.find(k);
    if (it != hugePlans.end()) return it->second;
    HugePlan& h = hugePlans[k];
    Rng r(seed * 0x9E3779B97F4A7C15ull + 77);
    h.dims = dims;
    static const int64_t gaps[] = { 7, 100, 0x7ffffff0, 0x80000000, 0x80000005, 0xffffffff, 0x100000000, 0x100000003, 0x180000000, 0x280000001, 0x3000000000 };
    for (int d = 1; d < dims; d++) h.size[d] = r.chance(500) ? 6 + r.below(20) : 6 + r.below(200000);
    int cells = 2 + r.below(7);
    int64_t pos = r.chance(500) ? 0 : gaps[r.below(11)];
    for (int c = 0; c < cells; c++) {
        HBox b;
        b.task = 0;
        b.tag = c + 1;
        for (int d = 0; d < 3; d++) {
            b.f[d] = 0;
            b.t[d] = 1;
            if (d >= dims) continue;
            int64_t e = 1 + r.below(6);
            b.f[d] = d == 0 ? pos : (int64_t)r.below((uint32_t)(h.size[d] - e + 1));
            b.t[d] = b.f[d] + e;
        }
        pos = b.t[0] + gaps[r.below(11)];
        auto sub = [&](int task) {
            HBox x = b;
            x.task = task;
            for (int d = 0; d < dims; d++) {
                int64_t e = b.t[d] - b.f[d], n = 1 + r.below((uint32_t)e), o = r.below((uint32_t)(e - n + 1));
                x.f[d] = b.f[d] + o;
                x.t[d] = x.f[d] + n;
            }
            return x;
        };
        // one owner for each index
        int64_t at = b.f[0];
        int first = r.below(n);
        for (int q = 0; q < n && at < b.t[0]; q++) {
            HBox x = b;
            x.task = (first + q) % n;
            x.f[0] = at;
            x.t[0] = q == n - 1 ? b.t[0] : std::min<int64_t>(b.t[0], at + 1 + r.below(4));
            at = x.t[0];
            h.p[0].push_back(x);
        }
        int full = r.below(n);
        for (int q = 0; q < n; q++) {
            if (r.chance(600)) h.p[1].push_back(sub(q));
            if (q == full) { HBox x = b; x.task = q; h.p[2].push_back(x); }
            else if (r.chance(500)) h.p[2].push_back(sub(q));
        }
    }
    h.size[0] = pos + 10;
    // any order of appending
    for (auto& v : h.p) for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[r.below((uint32_t)i)]);
    return h;
}

struct HugeArg { HugePlan* h; int p; };
static void hugeRun(Laik_RangeReceiver* rr, Laik_PartitionerParams* pp)
{
    Api* a = A();
    HugeArg* x = (HugeArg*)a->laik_partitioner_data(pp->partitioner);
    for (auto& b : x->h->p[x->p]) {
        Laik_Range g;
        if (x->h->dims == 1) a->laik_range_init_1d(&g, pp->space, b.f[0], b.t[0]);
        else if (x->h->dims == 2) a->laik_range_init_2d(&g, pp->space, b.f[0], b.t[0], b.f[1], b.t[1]);
        else a->laik_range_init_3d(&g, pp->space, b.f[0], b.t[0], b.f[1], b.t[1], b.f[2], b.t[2]);
        a->laik_append_range(rr, b.task, &g, b.tag, nullptr);
    }
}

// partitioners which tile a space of any size
static void hugeTiles(NS* s, Laik_Group* g, uint64_t seed)
{
    Api* a = s->A;
    Rng r(seed * 7 + 1234567);
    int n = a->laik_size(g), dims = r.range(1, 3);
    int64_t size[3] = { 1, 1, 1 };
    for (int d = 0; d < dims; d++) {
        switch (r.below(4)) {
        case 0: size[d] = 1 + r.below(40); break;
        case 1: size[d] = 1 + r.below(300); break;
        case 2: size[d] = 1 + r.below(1000000); break;
        case 3: size[d] = ((int64_t)r.below(1u << 30) << r.below(10)) + 1 + r.below(4); break;
        }
    }
    Laik_Space* sp = dims == 1 ? a->laik_new_space_1d(s->inst, size[0]) : dims == 2 ? a->laik_new_space_2d(s->inst, size[0], size[1]) : a->laik_new_space_3d(s->inst, size[0], size[1], size[2]);
    Laik_Partitioner* pr;
    bool grid = dims == 3 && r.chance(600);
    if (grid) {
        int b[3], q = n;
        int o = r.below(3);
        for (int e = 0; e < 3; e++) {
            int& x = b[(o + e) % 3];
            x = r.chance(500) ? q : 1 + r.below((uint32_t)q);
            if (x > size[(o + e) % 3]) x = (int)size[(o + e) % 3];
            q = std::max(1, q / x);
        }
        pr = a->laik_new_grid_partitioner(b[0], b[1], b[2]);
    }
    else pr = a->laik_new_bisection_partitioner();
    Laik_Partitioning* p = a->laik_new_partitioning(pr, g, sp, nullptr);
    struct B { int64_t f[3], t[3]; int task; };
    auto boxes = [&](Laik_Partitioning* p) {
        std::vector<B> v;
        for (int i = 0; i < a->laik_partitioning_rangecount(p); i++) {
            Laik_TaskRange* tr = a->laik_partitioning_get_taskrange(p, i);
            const Laik_Range* x = a->laik_taskrange_get_range(tr);
            B b;
            b.task = a->laik_taskrange_get_task(tr);
            for (int e = 0; e < 3; e++) {
                b.f[e] = e < dims ? x->from.i[e] : 0;
                b.t[e] = e < dims ? x->to.i[e] : 1;
                if (b.f[e] < 0 || b.t[e] > size[e] || b.f[e] >= b.t[e]) violation("partition", "tiles: range [%lld;%lld[ in dimension %d of size %lld", (long long)b.f[e], (long long)b.t[e], e, (long long)size[e]);
            }
            v.push_back(b);
        }
        return v;
    };
    std::vector<B> v = boxes(p);
    uint64_t sum = 0;
    for (size_t i = 0; i < v.size(); i++) {
        sum += (uint64_t)(v[i].t[0] - v[i].f[0]) * (v[i].t[1] - v[i].f[1]) * (v[i].t[2] - v[i].f[2]);
        for (size_t j = 0; j < i; j++) {
            bool disjoint = false;
            for (int e = 0; e < 3; e++) disjoint |= v[i].t[e] <= v[j].f[e] || v[j].t[e] <= v[i].f[e];
            if (!disjoint) violation("partition", "tiles: two ranges of the %s partitioner overlap", grid ? "grid" : "bisection");
        }
    }
    if (sum != (uint64_t)size[0] * size[1] * size[2]) violation("partition", "tiles: %s partitioner assigns %llu indexes of %lld x %lld x %lld", grid ? "grid" : "bisection", (unsigned long long)sum, (long long)size[0], (long long)size[1], (long long)size[2]);
    // ranges extended by neighbors
    int depth = r.range(1, 3);
    Laik_Partitioning* c = a->laik_new_partitioning(a->laik_new_cornerhalo_partitioner(depth), g, sp, p);
    std::vector<B> w = boxes(c);
    for (auto& b : v) {
        bool found = false;
        for (auto& x : w) {
            bool same = x.task == b.task;
            for (int e = 0; e < dims; e++) same &= x.f[e] == std::max<int64_t>(0, b.f[e] - depth) && x.t[e] == std::min(size[e], b.t[e] + depth);
            found |= same;
        }
        if (!found) violation("partition", "tiles: range of process %d extended by %d is missing", b.task, depth);
    }
    if (v.size() != w.size()) violation("partition", "tiles: %zu extended ranges for %zu", w.size(), v.size());
    a->laik_free_partitioning(c);
    a->laik_free_partitioning(p);
    a->laik_free_space(sp);
}

static void hugeOp(int k)
{
    NS* s = S();
    Api* a = s->A;
    const Op& o = spec->ops[k];
    Laik_Group* g = s->gr[(int)o.a[0]];
    int dims = (int)o.a[1], n = a->laik_size(g), me = a->laik_myid(g);
    bool dbl = o.a[3], reduce = o.a[4] && dims == 1;
    HugePlan& h = hugePlan(k, dims, (uint64_t)o.a[2], n);
    Laik_Space* sp = dims == 1 ? a->laik_new_space_1d(s->inst, h.size[0]) : dims == 2 ? a->laik_new_space_2d(s->inst, h.size[0], h.size[1]) :
        a->laik_new_space_3d(s->inst, h.size[0], h.size[1], h.size[2]);
    uint64_t total = (uint64_t)h.size[0] * h.size[1] * h.size[2];
    if (a->laik_space_size(sp) != total) violation("partition", "size of a space is %llu instead of %llu", (unsigned long long)a->laik_space_size(sp), (unsigned long long)total);
    HugeArg args[3];
    Laik_Partitioning* p[3];
    for (int q = 0; q < 3; q++) {
        args[q] = { &h, q };
        p[q] = a->laik_new_partitioning(a->laik_new_partitioner("far", hugeRun, &args[q], LAIK_PF_NoFullCoverage), g, sp, nullptr);
        int mine = 0;
        for (auto& b : h.p[q]) mine += b.task == me;
        if (a->laik_my_rangecount(p[q]) != mine) violation("partition", "huge space: process %d has %d ranges instead of %d", s->lid, a->laik_my_rangecount(p[q]), mine);
    }
    Laik_Data* d = a->laik_new_data(sp, dbl ? *a->laik_Double : *a->laik_Int64);
    auto val = [&](int step, int64_t x, int64_t y, int64_t z, int who) {
        uint64_t v = mix((uint64_t)x * 31 + y, (uint64_t)z * 1009 + step * 64 + who);
        return (int64_t)(v % 1000003);
    };
    // all own elements
    auto each = [&](int q, std::function<void(char*, int64_t*)> f) {
        int c = a->laik_my_rangecount(p[q]);
        for (int i = 0; i < c; i++) {
            Laik_TaskRange* tr = a->laik_my_range(p[q], i);
            const Laik_Range* r = a->laik_taskrange_get_range(tr);
            int tag = a->laik_taskrange_get_tag(tr), map = a->laik_taskrange_get_mapNo(tr);
            const HBox* b = nullptr;
            for (auto& x : h.p[q]) if (x.task == me && x.tag == tag) b = &x;
            bool same = b != nullptr;
            for (int e = 0; same && e < dims; e++) same = b->f[e] == r->from.i[e] && b->t[e] == r->to.i[e];
            if (!same) violation("partition", "huge space: process %d has a range [%lld;%lld[ in dimension 0 it was not given", s->lid, (long long)r->from.i[0], (long long)r->to.i[0]);
            uint64_t size = (uint64_t)(b->t[0] - b->f[0]) * (b->t[1] - b->f[1]) * (b->t[2] - b->f[2]);
            if (a->laik_range_size(r) != size) violation("partition", "huge space: size of a range is %llu instead of %llu", (unsigned long long)a->laik_range_size(r), (unsigned long long)size);
            int64_t x[3];
            for (x[2] = b->f[2]; x[2] < b->t[2]; x[2]++)
                for (x[1] = b->f[1]; x[1] < b->t[1]; x[1]++)
                    for (x[0] = b->f[0]; x[0] < b->t[0]; x[0]++) {
                        Laik_Index ix;
                        for (int e = 0; e < 3; e++) ix.i[e] = x[e];
                        char* ptr = a->laik_get_map_addr(d, map, &ix);
                        if (!ptr) violation("access", "huge space: no memory for index %lld", (long long)x[0]);
                        if (dims == 1) {
                            int mno = -1;
                            uint64_t lo = 0;
                            int64_t l2;
                            if (!a->laik_global2maplocal_1d(d, x[0], &mno, &lo)) violation("access", "huge space: index %lld not found", (long long)x[0]);
                            l2 = a->laik_maplocal2global_1d(d, mno, lo);
                            if (mno != map || l2 != x[0]) violation("access", "huge space: index %lld is translated to mapping %d, index %lld", (long long)x[0], mno, (long long)l2);
                        }
                        f(ptr, x);
                    }
        }
    };
    auto write = [&](int q, int step, bool own) {
        each(q, [&](char* ptr, int64_t* x) {
            int64_t v = val(step, x[0], x[1], x[2], own ? me + 1 : 0);
            if (dbl) *(double*)ptr = (double)v; else *(int64_t*)ptr = v;
        });
    };
    auto check = [&](int q, int step, const char* what, std::function<int64_t(int64_t*)> want) {
        each(q, [&](char* ptr, int64_t* x) {
            int64_t w = want(x), v = dbl ? (int64_t)*(double*)ptr : *(int64_t*)ptr;
            if (v != w || (dbl && *(double*)ptr != (double)w))
                violation("data", "huge space, process %d, %s: element %lld/%lld/%lld is %lld, expected %lld", s->lid, what, (long long)x[0], (long long)x[1], (long long)x[2], (long long)v, (long long)w);
        });
        stat(ST_CHECKS);
    };
    auto plain = [&](int step) { return [&val, step](int64_t* x) { return val(step, x[0], x[1], x[2], 0); }; };
    auto sw = [&](int q, Laik_DataFlow fl, Laik_ReductionOperation ro) { a->laik_switchto_partitioning(d, p[q], fl, ro); };
    sw(0, LAIK_DF_None, LAIK_RO_None);
    write(0, 1, false);
    sw(1, LAIK_DF_Preserve, LAIK_RO_None);
    check(1, 1, "parts", plain(1));
    sw(0, LAIK_DF_None, LAIK_RO_None);
    write(0, 2, false);
    sw(2, LAIK_DF_Preserve, LAIK_RO_None);
    check(2, 2, "several owners", plain(2));
    if (reduce) {
        bool init = o.a[4] == 2;
        sw(0, LAIK_DF_None, LAIK_RO_None);
        sw(2, init ? LAIK_DF_Init : LAIK_DF_None, init ? LAIK_RO_Sum : LAIK_RO_None);
        if (init) check(2, 3, "neutral elements", [](int64_t*) { return (int64_t)0; });
        write(2, 3, true);
        sw(0, LAIK_DF_Preserve, LAIK_RO_Sum);
        check(0, 3, "sums", [&](int64_t* x) {
            int64_t w = 0;
            for (auto& b : h.p[2]) if (x[0] >= b.f[0] && x[0] < b.t[0]) w += val(3, x[0], 0, 0, b.task + 1);
            return w;
        });
    }
    hugeTiles(s, g, (uint64_t)o.a[2]);
    a->laik_free(d);
    for (int q = 2; q >= 0; q--) a->laik_free_partitioning(p[q]);
    a->laik_free_space(sp);
}
