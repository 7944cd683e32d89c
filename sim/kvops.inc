// Key-value stores, location sync and the space store (included by interp.cpp).
struct KvPhase {
    std::map<std::string, std::string> set;   // changes announced at this sync
    std::set<std::string> rem;
    std::set<int> arrived;
};
struct KvGlobal {
    std::map<std::string, std::string> merged;        // after the last finished sync
    std::map<int, KvPhase> phase;                     // by sync op
    std::map<int, std::map<std::string, std::string>> after; // sync op -> expected contents
};
static std::map<int, KvGlobal> KG;

// what process <lid> sees under <name> in the space store just before op k
static bool spExpect(int k, int lid, const std::string& name, Space& out)
{
    bool have = false, merged = false, pend = false;
    Space mine, m, p;
    for (int j = 0; j < k; j++) {
        const Op& o = spec->ops[j];
        if (o.kind == OP_SPSYNC) {
            if (pend) { m = p; merged = true; pend = false; }
            if (merged) { mine = m; have = true; }
        }
        if ((o.kind != OP_SPSET && o.kind != OP_SPCHG) || o.s != name) continue;
        Space v;
        if (o.kind == OP_SPSET) v = W.spaces[(int)o.a[0]];
        else {
            v.dims = (int)o.a[1];
            for (int d = 0; d < 3; d++) { v.r.f[d] = o.a[2 + 2 * d]; v.r.t[d] = o.a[3 + 2 * d]; }
        }
        bool no = o.kind == OP_SPCHG && merged && !pend;
        for (int d = 0; d < v.dims && no; d++) no = v.r.f[d] == m.r.f[d] && v.r.t[d] == m.r.t[d];
        if (!no) { p = v; pend = true; }
        if ((o.a[o.kind == OP_SPSET ? 1 : 0] >> lid) & 1) { mine = v; have = true; }
    }
    out = mine;
    return have;
}

static std::string kvKey(int64_t i)
{
    static const char* pat[] = { "k%lld", "key-with-a-longer-name-%lld", "a.%lld", "%lld", "common/prefix/of/several/keys/which/is/rather/long/%lld",
        "common/prefix/of/several/keys/which/is/rather/long/%05lld", "k%lld with blanks ", "\xc3\xa4\xff%lld", "K%lld", "a\\%lld=x,\"q\"%%", "", "\tt\n%lld", "k" };
    char b[100];
    snprintf(b, sizeof b, pat[i % 13], (long long)i);
    if (i % 13 == 10) return std::string(150, 'x') + std::to_string(i);
    if (i % 13 == 12) return std::string(1 + i / 13, 'k');
    return b;
}

static std::string kvValue(int64_t len, uint64_t seed, int64_t style)
{
    // style 0 printable, 1 any bytes, 2 common prefix, 3 string with terminator
    std::string v;
    for (int64_t i = 0; i < len; i++) {
        uint64_t h = mix(seed, (uint64_t)i);
        char c;
        if (style == 1) c = (char)h;
        else if (style == 2) c = (char)('a' + i % 26);
        else c = (char)('A' + h % 50);
        if (style != 1 && (c == '\\')) c = 'x';
        v.push_back(c);
    }
    if (style == 3) v.push_back('\0');
    return v;
}

static void kvCompare(KvState& ks, const std::map<std::string, std::string>& want, const char* when, bool sorted)
{
    NS* s = S();
    std::string last;
    Api* a = s->A;
    stat(ST_KVSCHK);
    std::map<std::string, std::string> got;
    unsigned n = a->laik_kvs_count(ks.k);
    std::set<std::string> keys;
    for (unsigned i = 0; i < n; i++) {
        Laik_KVS_Entry* e = a->laik_kvs_getn(ks.k, i);
        if (!e) violation("kvs", "%s: entry %u of %u missing", when, i, n);
        std::string key = a->laik_kvs_key(e);
        if (sorted && i && !(last < key)) violation("kvs", "%s: key '%s' listed after '%s'", when, key.c_str(), last.c_str());
        last = key;
        if (a->laik_kvs_entry(ks.k, (char*)key.c_str()) != e) violation("kvs", "%s: lookup of key '%s' does not find its entry", when, key.c_str());
        if (!keys.insert(key).second) violation("kvs", "%s: key '%s' listed twice", when, key.c_str());
        unsigned sz = 0;
        char* d = a->laik_kvs_data(e, &sz);
        if (!d) continue;
        if (sz != a->laik_kvs_size(e)) violation("kvs", "%s: key '%s' has size %u and %u", when, key.c_str(), sz, a->laik_kvs_size(e));
        got[key] = std::string(d, sz);
        // copies into buffers of any size, also none
        unsigned bsz[] = { sz + 1, sz, sz ? sz - 1 : 0, sz / 2, 0, sz + 2, sz + 3 };
        for (unsigned cap : bsz) {
            std::string b(sz + 4, '#');
            unsigned c = a->laik_kvs_copy(e, &b[0], cap);
            unsigned ex = cap < sz ? cap : sz;
            if (c != ex || memcmp(&b[0], d, ex) || b[ex] != '#') violation("kvs", "%s: copy of key '%s' (%u bytes) into a buffer of %u bytes is wrong", when, key.c_str(), sz, cap);
        }
    }
    if (a->laik_kvs_getn(ks.k, n)) violation("kvs", "%s: entry behind the last one", when);
    for (auto& w : want) {
        auto it = got.find(w.first);
        if (it == got.end()) violation("kvs", "%s: process %d misses key '%s'", when, s->lid, w.first.c_str());
        if (it->second != w.second)
            violation("kvs", "%s: process %d has another value for key '%s' (%zu bytes, expected %zu)", when, s->lid, w.first.c_str(), it->second.size(), w.second.size());
        unsigned sz = 0;
        char* d = a->laik_kvs_get(ks.k, (char*)w.first.c_str(), &sz);
        if (!d || std::string(d, sz) != w.second) violation("kvs", "%s: lookup of key '%s' is wrong", when, w.first.c_str());
    }
    if (a->laik_kvs_get(ks.k, (char*)"never-set", nullptr) || a->laik_kvs_entry(ks.k, (char*)"never-set")) violation("kvs", "%s: a key never set is found", when);
    for (auto& g : got)
        if (!want.count(g.first)) violation("kvs", "%s: process %d has key '%s', which nobody set or which was removed", when, s->lid, g.first.c_str());
}

static KvState* kvOf(Laik_KVStore* k)
{
    for (auto& e : S()->kv) if (e.second.k == k) return &e.second;
    return nullptr;
}
static void cbSet(Laik_KVStore* k, Laik_KVS_Entry* e)
{
    KvState* ks = kvOf(k);
    unsigned sz;
    char* d = A()->laik_kvs_data(e, &sz);
    if (!ks || !k) return;
    const char* key = A()->laik_kvs_key(e);
    if (!ks->cbSeen.insert(key).second) violation("kvs", "more than one callback for key '%s' in one sync", key);
    if (d && ks->cb.count(key) && ks->cb[key] == std::string(d, sz)) violation("kvs", "changed callback for key '%s' without a change", key);
    if (d) ks->cb[A()->laik_kvs_key(e)] = std::string(d, sz);
}
static void cbCreated(Laik_KVStore* k, Laik_KVS_Entry* e)
{
    KvState* ks = kvOf(k);
    if (ks && ks->cb.count(A()->laik_kvs_key(e))) violation("kvs", "created callback for the existing key '%s'", A()->laik_kvs_key(e));
    cbSet(k, e);
}
static void cbChanged(Laik_KVStore* k, Laik_KVS_Entry* e)
{
    KvState* ks = kvOf(k);
    if (ks && !ks->cb.count(A()->laik_kvs_key(e))) violation("kvs", "changed callback for the new key '%s'", A()->laik_kvs_key(e));
    cbSet(k, e);
}
static void cbRemoved(Laik_KVStore* k, char* key)
{
    KvState* ks = kvOf(k);
    if (!ks) return;
    if (!ks->cbSeen.insert(key).second) violation("kvs", "more than one callback for key '%s' in one sync", key);
    if (!ks->cb.erase(key)) violation("kvs", "removed callback for the unknown key '%s'", key);
}

static void kvOp(int k)
{
    NS* s = S();
    Api* a = s->A;
    const Op& o = spec->ops[k];
    int id = o.a.empty() ? -1 : (int)o.a[0];
    auto inMask = [&](int i) { return ((o.a[i] >> s->lid) & 1) != 0; };
    switch (o.kind) {
    case OP_KVNEW: {
        KvState& ks = s->kv[id];
        s->names.reserve(64);
        s->names.push_back("store" + std::to_string(id));
        ks.k = a->laik_kvs_new(s->names.back().c_str(), s->inst);
        break;
    }
    case OP_KVCB: {
        KvState& ks = s->kv[id];
        a->laik_kvs_reg_callbacks(ks.k, cbCreated, cbChanged, cbRemoved);
        ks.hasCb = true;
        break;
    }
    case OP_KVSET: { // kvset kvs key len seed mask style
        if (!inMask(4)) break;
        KvState& ks = s->kv[id];
        std::string key = kvKey(o.a[1]);
        std::string v = kvValue(o.a[2], (uint64_t)o.a[3], o.a[5]);
        if (o.a[5] == 3) a->laik_kvs_sets(ks.k, (char*)key.c_str(), (char*)v.c_str());
        else {
            Laik_KVS_Entry* e = a->laik_kvs_set(ks.k, (char*)key.c_str(), (unsigned)v.size(), (char*)v.data());
            if (!e || strcmp(a->laik_kvs_key(e), key.c_str()) || a->laik_kvs_size(e) != v.size() || memcmp(a->laik_kvs_data(e, nullptr), v.data(), v.size()))
                violation("kvs", "setting key '%s' returns another entry", key.c_str());
        }
        ks.mine[key] = v;
        ks.pend[key] = v;
        ks.pendRem.erase(key);
        break;
    }
    case OP_KVREM: { // kvrem kvs key mask
        if (!inMask(2)) break;
        KvState& ks = s->kv[id];
        std::string key = kvKey(o.a[1]);
        bool had = ks.mine.count(key) != 0;
        bool r = had;
        if (o.a.size() > 3 && o.a[3]) a->laik_kvs_set(ks.k, (char*)key.c_str(), 0, nullptr);
        else r = a->laik_kvs_remove(ks.k, (char*)key.c_str());
        if (had && !r) violation("kvs", "remove of existing key '%s' reported as failed", key.c_str());
        if (!had && r) violation("kvs", "remove of unknown key '%s' reported as done", key.c_str());
        ks.mine.erase(key);
        ks.pend.erase(key);
        if (had) ks.pendRem.insert(key);
        break;
    }
    case OP_KVCLEAN: {
        if (!inMask(1)) break;
        KvState& ks = s->kv[id];
        a->laik_kvs_clean(ks.k);
        for (auto& e : ks.mine) ks.pendRem.insert(e.first);
        ks.mine.clear();
        ks.pend.clear();
        break;
    }
    case OP_KVBULK: { // kvbulk kvs first count seed mask
        if (!inMask(4)) break;
        KvState& ks = s->kv[id];
        for (int64_t j = 0; j < o.a[2]; j++) {
            std::string key = "bulk-" + std::to_string(o.a[1] + (o.a[3] & 1 ? j : o.a[2] - 1 - j)), v = kvValue(1 + j % 7, (uint64_t)(o.a[3] + j), 0);
            a->laik_kvs_set(ks.k, (char*)key.c_str(), (unsigned)v.size(), (char*)v.data());
            ks.mine[key] = ks.pend[key] = v;
            ks.pendRem.erase(key);
        }
        break;
    }
    case OP_KVCHECK: {
        bool so = o.a.size() > 1 && o.a[1];
        if (so) a->laik_kvs_sort(s->kv[id].k);
        kvCompare(s->kv[id], s->kv[id].mine, "local view", so);
        break;
    }
    case OP_KVSYNC: {
        KvState& ks = s->kv[id];
        KvGlobal& g = KG[id];
        KvPhase& ph = g.phase[k];
        for (auto& e : ks.pend) ph.set[e.first] = e.second;
        for (auto& e : ks.pendRem) ph.rem.insert(e);
        ph.arrived.insert(s->lid);
        ks.pend.clear();
        ks.pendRem.clear();
        ks.cb = ks.mine;
        ks.cbSeen.clear();
        a->laik_kvs_sync(ks.k);
        if (ph.arrived.size() < W.groups[-1]->lids.size()) {
            // returning early is only fine when the missing ones have nothing to say; decided below by the contents
        }
        if (!g.after.count(k)) {
            // every other process must have announced its changes by now
            auto m = g.merged;
            for (auto& e : ph.set) m[e.first] = e.second;
            for (auto& e : ph.rem) if (!ph.set.count(e)) m.erase(e);
            g.after[k] = m;
            g.merged = m;
        }
        else {
            auto m = g.after[k];
            for (auto& e : ph.set) m[e.first] = e.second;
            if (m != g.after[k]) violation("kvs", "sync returned on another process before process %d announced its changes", s->lid);
        }
        ks.mine = g.after[k];
        kvCompare(ks, ks.mine, "after sync", true);
        if (ks.hasCb && ks.cb != ks.mine) violation("kvs", "callbacks do not describe all changes by the sync (process %d)", s->lid);
        break;
    }
    case OP_KVFREE: a->laik_kvs_free(s->kv[id].k); s->kv.erase(id); break;
    case OP_LOCSYNC: {
        a->laik_sync_location(s->inst);
        stat(ST_KVSCHK);
        Laik_Group* w = a->laik_world(s->inst);
        std::set<std::string> seen;
        for (int i = 0; i < a->laik_size(w); i++) {
            char* l = a->laik_group_location(w, i);
            int lid = a->laik_group_locationid(w, i);
            if (!l) violation("location", "process %d does not know the location of process %d after the sync", s->lid, lid);
            for (int j = 0; j < MAXNODES; j++)
                if (ns[j].inst && ns[j].lid == lid && strcmp(l, ns[j].A->laik_mylocation(ns[j].inst)))
                    violation("location", "process %d thinks process %d is at '%s', not '%s'", s->lid, lid, l, ns[j].A->laik_mylocation(ns[j].inst));
        }
        break;
    }
    case OP_SPSET: { // spset space mask name
        Space& sp = W.spaces[id];
        a->laik_set_space_name(s->sp[id], (char*)o.s.c_str());
        if (!inMask(1)) break;
        a->laik_spacestore_set(s->sp[id]);
        break;
    }
    case OP_SPCHG: { // spchg mask dims f0 t0 f1 t1 f2 t2 name
        if (!((o.a[0] >> s->lid) & 1)) break;
        Laik_Space* sp = a->laik_spacestore_get(s->inst, (char*)o.s.c_str());
        if (!sp) violation("spacestore", "space '%s' not known by process %d", o.s.c_str(), s->lid);
        if (o.a[1] == 1) a->laik_change_space_1d(sp, o.a[2], o.a[3]);
        else if (o.a[1] == 2) a->laik_change_space_2d(sp, o.a[2], o.a[3], o.a[4], o.a[5]);
        else a->laik_change_space_3d(sp, o.a[2], o.a[3], o.a[4], o.a[5], o.a[6], o.a[7]);
        break;
    }
    case OP_SPSYNC: a->laik_sync_spaces(s->inst); break;
    case OP_SPGET: { // spget _ name
        stat(ST_KVSCHK);
        Space w;
        Laik_Space* sp = a->laik_spacestore_get(s->inst, (char*)o.s.c_str());
        if (!spExpect(k, s->lid, o.s, w)) {
            if (sp) violation("spacestore", "space '%s' known by process %d, but nobody has set it", o.s.c_str(), s->lid);
            break;
        }
        if (!sp) violation("spacestore", "space '%s' not known by process %d", o.s.c_str(), s->lid);
        const Laik_Range* r = a->laik_space_asrange(sp);
        if (a->laik_space_getdimensions(sp) != w.dims) violation("spacestore", "space '%s' has %d dimensions on process %d, not %d", o.s.c_str(), a->laik_space_getdimensions(sp), s->lid, w.dims);
        for (int d = 0; d < w.dims; d++)
            if (r->from.i[d] != w.r.f[d] || r->to.i[d] != w.r.t[d])
                violation("spacestore", "space '%s' is [%lld;%lld[ in dimension %d on process %d, expected [%lld;%lld[", o.s.c_str(),
                          (long long)r->from.i[d], (long long)r->to.i[d], d, s->lid, (long long)w.r.f[d], (long long)w.r.t[d]);
        break;
    }
    }
}
