// Packing, unpacking and copying of ranges between the mappings of a process,
// in pieces of arbitrary size. Memory is put back afterwards.

static Laik_Range toRange(Api* a, Laik_Space* sp, const Space& x, const Rg& g)
{
    Laik_Range r;
    if (x.dims == 1) a->laik_range_init_1d(&r, sp, g.f[0], g.t[0]);
    else if (x.dims == 2) a->laik_range_init_2d(&r, sp, g.f[0], g.t[0], g.f[1], g.t[1]);
    else a->laik_range_init_3d(&r, sp, g.f[0], g.t[0], g.f[1], g.t[1], g.f[2], g.t[2]);
    return r;
}

// bounding box of the ranges of a mapping: all of it has memory
static bool mapBox(Api* a, Laik_Partitioning* p, int m, int dims, Rg& b)
{
    int rc = a->laik_my_maprangecount(p, m);
    for (int i = 0; i < rc; i++) {
        const Laik_Range* r = a->laik_taskrange_get_range(a->laik_my_maprange(p, m, i));
        for (int d = 0; d < 3; d++) {
            int64_t f = d < dims ? r->from.i[d] : 0, t = d < dims ? r->to.i[d] : 1;
            b.f[d] = i ? std::min(b.f[d], f) : f;
            b.t[d] = i ? std::max(b.t[d], t) : t;
        }
    }
    return rc > 0;
}

static void boxAddrs(NS* s, NodeData& nd, int m, const Rg& g, std::vector<char*>& out)
{
    int64_t i[3];
    int es = elemSize(nd.type);
    for (i[2] = g.f[2]; i[2] < g.t[2]; i[2]++)
        for (i[1] = g.f[1]; i[1] < g.t[1]; i[1]++)
            for (i[0] = g.f[0]; i[0] < g.t[0]; i[0]++) {
                Laik_Index ix;
                for (int d = 0; d < 3; d++) ix.i[d] = i[d];
                char* p = s->A->laik_get_map_addr(nd.d, m, &ix);
                if (!p || !addrOk(s, nd, p, es)) violation("access", "mapping %d: no memory for index %lld/%lld/%lld", m, (long long)i[0], (long long)i[1], (long long)i[2]);
                out.push_back(p);
            }
}

static int64_t boxCount(const Rg& g) { return (g.t[0] - g.f[0]) * (g.t[1] - g.f[1]) * (g.t[2] - g.f[2]); }

static void boxIndex(const Rg& g, int64_t n, int64_t* i)
{
    int64_t e0 = g.t[0] - g.f[0], e1 = g.t[1] - g.f[1];
    i[0] = g.f[0] + n % e0;
    i[1] = g.f[1] + n / e0 % e1;
    i[2] = g.f[2] + n / e0 / e1;
}

// the buffer size of the next piece, in bytes
static unsigned pieceSize(Rng& r, int mode, const Rg& g, int es, int64_t left)
{
    int64_t e0 = g.t[0] - g.f[0], e1 = g.t[1] - g.f[1];
    int64_t n = 1;
    switch (mode) {
    case 0: n = left; break;
    case 1: n = 1; break;
    case 2: n = e0; break;
    case 3: n = e0 * e1; break;
    case 4: n = left + r.below(5); break;
    default: n = 1 + r.below((uint32_t)std::min<int64_t>(left, 1 + (mode & 1 ? 3 : 40))); break;
    }
    unsigned b = (unsigned)(n * es);
    if (es > 1 && r.chance(300)) b += r.below((uint32_t)es); // not a multiple of the element size
    return b;
}

static void packOnce(Api* a, int id, int m, int dims, Laik_Mapping* mp, Laik_Range lr, const Rg& g, int es, Rng& r, const std::vector<char>& ref)
{
    Laik_Index ix = lr.from;
    int64_t total = boxCount(g), done = 0;
    int mode = r.below(8);
    std::vector<char> buf;
    while (done < total) {
        if (es > 1 && r.chance(100)) {
            // too small for one element
            char c[64];
            unsigned sz = r.below((uint32_t)std::min(es, 64));
            unsigned n = a->pack(mp, &lr, &ix, c, sz);
            if (n) violation("pack", "container %d, mapping %d: %u elements packed into a buffer too small for one", id, m, n);
        }
        unsigned sz = pieceSize(r, mode, g, es, total - done);
        buf.assign(sz + 32, 0x5a);
        unsigned n = a->pack(mp, &lr, &ix, buf.data() + 16, sz);
        int64_t want = std::min<int64_t>(sz / es, total - done);
        if ((int64_t)n != want) violation("pack", "container %d, mapping %d: %u elements packed into %u bytes at element %lld of %lld, expected %lld", id, m, n, sz, (long long)done, (long long)total, (long long)want);
        if (memcmp(buf.data() + 16, ref.data() + done * es, (size_t)n * es)) violation("pack", "container %d, mapping %d: wrong content packed at element %lld of %lld", id, m, (long long)done, (long long)total);
        for (int i = 0; i < 16; i++)
            if (buf[i] != 0x5a || buf[16 + sz + i] != 0x5a) violation("pack", "container %d, mapping %d: packing wrote outside of the buffer", id, m);
        for (size_t i = (size_t)n * es; i < sz; i++)
            if (buf[16 + i] != 0x5a) violation("pack", "container %d, mapping %d: packing wrote behind the elements it reported", id, m);
        done += n;
    }
    for (int d = 0; d < dims; d++)
        if (ix.i[d] != lr.to.i[d]) violation("pack", "container %d, mapping %d: position after packing everything is not the end of the range", id, m);
    char c[600];
    if (a->pack(mp, &lr, &ix, c, sizeof c)) violation("pack", "container %d, mapping %d: more elements packed than the range has", id, m);
}

static void mapOps(int id1, int id2, int k, int64_t seed)
{
    NS* s = S();
    Api* a = s->A;
    NodeData &n1 = s->data[id1], &n2 = s->data[id2];
    Laik_Partitioning *p1 = a->laik_data_get_partitioning(n1.d), *p2 = a->laik_data_get_partitioning(n2.d);
    if (!p1 || !p2) return;
    if (a->laik_myid(a->laik_partitioning_get_group(p1)) < 0 || a->laik_myid(a->laik_partitioning_get_group(p2)) < 0) return;
    Space& sp = W.spaces[(int)W.defOp[id1]->a[1]];
    Laik_Space* lsp = a->laik_data_get_space(n1.d);
    int es = elemSize(n1.type), dims = sp.dims;
    Rng r(mix(mix((uint64_t)seed, (uint64_t)s->lid), 0x3A9));
    int c1 = a->laik_my_mapcount(p1), c2 = a->laik_my_mapcount(p2);
    if (a->laik_get_map(n1.d, -1) || a->laik_get_map(n1.d, c1) || a->laik_get_map(n1.d, c1 + (int)r.below(1000)))
        violation("access", "container %d: mapping with a number which does not exist", id1);
    if (c1 < 1 || c2 < 1) return;
    for (int round = 0; round < 3; round++) {
        int m1 = r.below((uint32_t)c1), m2 = r.below((uint32_t)c2);
        Rg b1, b2, g;
        if (!mapBox(a, p1, m1, dims, b1) || !mapBox(a, p2, m2, dims, b2)) continue;
        bool ok = true;
        bool whole = r.chance(250);
        for (int d = 0; d < 3; d++) {
            int64_t f = std::max(b1.f[d], b2.f[d]), t = std::min(b1.t[d], b2.t[d]);
            if (f >= t) { ok = false; break; }
            g.f[d] = f; g.t[d] = t;
            if (!whole && r.chance(600)) {
                g.f[d] = f + r.below((uint32_t)std::min<int64_t>(t - f, 100000));
                g.t[d] = g.f[d] + 1 + r.below((uint32_t)std::min<int64_t>(t - g.f[d], 100000));
            }
        }
        if (!ok) {
            if (round) continue;
            // nothing in common: packing only
            g = b1;
        }
        if (boxCount(g) > 20000 || boxCount(b2) > 60000) continue;
        Laik_Range lr = toRange(a, lsp, sp, g);
        Laik_Mapping *mp1 = a->laik_get_map(n1.d, m1), *mp2 = a->laik_get_map(n2.d, m2);
        if (!mp1 || !mp2) violation("access", "containers %d/%d: mapping missing", id1, id2);
        for (int d = 0; d < dims; d++) {
            // strides of the default layout
            unsigned long long st = a->stride(mp1, d);
            if (n1.layout) { if (st) violation("layout", "container %d: own layout taken for the default one", id1); continue; }
            if (boxCount(b1) < 1) continue;
            Laik_Index i0, i1;
            for (int e = 0; e < 3; e++) i0.i[e] = i1.i[e] = b1.f[e];
            i1.i[d]++;
            if (i1.i[d] >= b1.t[d]) continue;
            char *x0 = a->laik_get_map_addr(n1.d, m1, &i0), *x1 = a->laik_get_map_addr(n1.d, m1, &i1);
            if (x1 - x0 != (int64_t)st * es) violation("layout", "container %d: stride of dimension %d is %llu, addresses differ by %lld bytes", id1, d, st, (long long)(x1 - x0));
        }
        if (a->describe(mp1) == nullptr || strlen(a->describe(mp1)) >= 200) violation("layout", "container %d: layout description missing or too long", id1);
        {
            // the section holding an index
            int64_t e[3];
            boxIndex(g, r.below((uint32_t)boxCount(g)), e);
            Laik_Index ix;
            for (int d = 0; d < 3; d++) ix.i[d] = e[d];
            int q = a->section(mp1, &ix);
            Rg bq;
            if (q < 0 || (q < c1 && mapBox(a, p1, q, dims, bq) && n1.res == 0 && !inBox(bq, e))) violation("layout", "container %d: layout finds index %lld/%lld/%lld in mapping %d", id1, (long long)e[0], (long long)e[1], (long long)e[2], q);
        }
        std::vector<char*> a1;
        boxAddrs(s, n1, m1, g, a1);
        std::vector<char> ref(a1.size() * es);
        for (size_t i = 0; i < a1.size(); i++) memcpy(&ref[i * es], a1[i], es);
        packOnce(a, id1, m1, dims, mp1, lr, g, es, r, ref);
        stat(ST_CHECKS);
        if (!ok) continue;
        // all memory of the second mapping, to be put back
        std::vector<char*> all, a2;
        boxAddrs(s, n2, m2, b2, all);
        boxAddrs(s, n2, m2, g, a2);
        std::vector<char> saved(all.size() * es), exp;
        for (size_t i = 0; i < all.size(); i++) memcpy(&saved[i * es], all[i], es);
        std::map<char*, size_t> pos;
        for (size_t i = 0; i < all.size(); i++) pos[all[i]] = i;
        if (pos.size() != all.size()) violation("layout", "container %d, mapping %d: elements share memory", id2, m2);
        auto verify = [&](const char* what) {
            for (size_t i = 0; i < all.size(); i++)
                if (memcmp(all[i], &exp[i * es], es)) {
                    int64_t e[3];
                    boxIndex(b2, (int64_t)i, e);
                    violation(what, "container %d, mapping %d: wrong content at %lld/%lld/%lld after %s of %lld elements%s", id2, m2, (long long)e[0], (long long)e[1], (long long)e[2], what,
                              (long long)a2.size(), inBox(g, e) ? "" : " (outside of the range)");
                }
        };
        auto junk = [&](int how) {
            // what the target has before must not matter
            exp = saved;
            for (size_t i = 0; i < a2.size(); i++) {
                size_t q = pos[a2[i]];
                memset(a2[i], how, es);
                memcpy(&exp[q * es], &ref[i * es], es);
            }
        };
        auto restore = [&] { for (size_t i = 0; i < all.size(); i++) memcpy(all[i], &saved[i * es], es); };
        bool shared = false;
        for (char* x : a1) { auto it = pos.upper_bound(x + es - 1); if (it != pos.begin() && std::prev(it)->first + es > x) shared = true; }
        // unpack in pieces
        {
            junk(0x11 + r.below(200));
            Laik_Index ix = lr.from;
            int64_t total = (int64_t)a2.size(), done = 0;
            int mode = r.below(8);
            std::vector<char> buf;
            while (done < total) {
                unsigned sz = pieceSize(r, mode, g, es, total - done);
                buf.assign(sz, 0x33);
                memcpy(buf.data(), ref.data() + done * es, std::min<size_t>(sz, (size_t)(total - done) * es));
                unsigned n = a->unpack(mp2, &lr, &ix, buf.data(), sz);
                int64_t want = std::min<int64_t>(sz / es, total - done);
                if ((int64_t)n != want) violation("unpack", "container %d, mapping %d: %u elements unpacked from %u bytes at element %lld of %lld, expected %lld", id2, m2, n, sz, (long long)done, (long long)total, (long long)want);
                done += n;
            }
            for (int d = 0; d < dims; d++)
                if (ix.i[d] != lr.to.i[d]) violation("unpack", "container %d, mapping %d: position after unpacking everything is not the end of the range", id2, m2);
            verify("unpack");
            restore();
        }
        if (!shared && mp1 != mp2) {
            junk(0x22);
            a->laik_data_copy(&lr, mp1, mp2);
            for (size_t i = 0; i < a1.size(); i++)
                if (memcmp(a1[i], &ref[i * es], es)) violation("copy", "container %d, mapping %d: source changed by copying", id1, m1);
            verify("copy");
            restore();
        }
        stat(ST_ELEMS, a2.size());
    }
    (void)k;
}
