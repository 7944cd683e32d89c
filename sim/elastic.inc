// World resizing, late joiners and connections from outside (included by interp.cpp).
#include <regex.h>
#include "legal.h"

struct StrayM {
    int op = -1;
    bool started = false, ended = false, arrived = false;
    std::vector<std::string> cuts, may; // patterns of its cutoff commands, surely and perhaps executed
    std::vector<int> base;              // processes these surely apply to
    int used = -1;                      // resize which had to obey
    std::function<bool()> gone = [] { return true; };
};
struct ResizeM {
    bool known = false;
    std::vector<int> oldL, newL;
    int epoch = 0, mustJoin = 0;
    std::vector<int> strays;            // cutoffs which have to take effect here
};
struct ElasticM {
    std::map<int, ResizeM> rs;
    std::deque<StrayM> st;
    int masterIn = -1;
    std::set<int> noWait;               // outside commands which cannot come through before the master continues
    std::vector<int> masterWorld, world;
    int maxLid = 0, admitted = 0, arrived = 0, epoch = 0;
    std::map<int, int> mustJoin;        // node -> resize
};
static ElasticM E;
enum { SF_PIECES = 1, SF_EARLY = 2, SF_CLOSE = 4, SF_WAITM = 8, SF_WAITO = 16, SF_READ = 32 };

static int worldIdBefore(int k)
{
    int id = -1;
    for (int j = 0; j < k; j++) {
        if (spec->ops[j].kind == OP_RESIZE) id = (int)spec->ops[j].a[0];
        else if (id < 0 && spec->ops[j].kind == OP_GROUP && spec->ops[j].a[1] == 0) id = (int)spec->ops[j].a[0];
    }
    return id;
}
static std::string locOf(int lid)
{
    for (int i = 0; i < MAXNODES; i++)
        if (ns[i].inst && ns[i].lid == lid) return "L" + std::to_string(lid) + ":host" + std::to_string(nodes[i].host) + ":" + std::to_string(nodes[i].pid);
    return "";
}
static bool cutMatches(const StrayM& st, int lid, bool sure)
{
    if (lid == 0) return false;
    std::string l = locOf(lid);
    if (l.empty()) harnessError("location of process %d not known", lid);
    std::vector<std::string> pats = st.cuts;
    if (!sure) pats.insert(pats.end(), st.may.begin(), st.may.end());
    for (auto& p : pats) {
        regex_t re;
        if (regcomp(&re, p.c_str(), REG_EXTENDED | REG_NOSUB)) continue;
        bool m = regexec(&re, l.c_str(), 0, nullptr, 0) == 0;
        regfree(&re);
        if (m) return true;
    }
    return false;
}
// cfg oversub: more processes than wanted start at once; which of them make up the first world is not known before
static bool oversub() { return spec->cfg.get("oversub", 0) != 0; }
static bool mayBeLate(int i) { return i >= worldSize || oversub(); }
static int initialCount()
{
    int c = 0;
    for (int i = 0; i < MAXNODES; i++) if (ns[i].inst && ns[i].initial) c++;
    return c;
}
static bool masterGone()
{
    for (int i = 0; i < MAXNODES; i++)
        if (ns[i].inst && ns[i].lid == 0) return nodes[i].exited;
    return false;
}
static bool has(const std::vector<int>& v, int x) { return std::find(v.begin(), v.end(), x) != v.end(); }
static std::string showL(const std::vector<int>& v) { std::string s; for (int x : v) s += " " + std::to_string(x); return s; }

static std::vector<int> lidsOf(Laik_Group* g)
{
    std::vector<int> v;
    for (int i = 0; i < A()->laik_size(g); i++) v.push_back(A()->laik_group_locationid(g, i));
    return v;
}

// what one process sees after the resize at operation k
static void resizeResult(int k, Laik_Group* g, bool newcomer)
{
    NS* s = S();
    Api* a = s->A;
    int gid = (int)spec->ops[k].a[0], oldId = worldIdBefore(k);
    ResizeM& r = E.rs[k];
    stat(ST_CHECKS);
    if (!g) violation("resize", "no world after the resize");
    std::vector<int> l = lidsOf(g);
    if (!r.known) {
        r.known = true;
        r.oldL = E.world;
        r.newL = l;
        // survivors in order, then the new ones with new ids
        size_t i = 0;
        int added = 0;
        for (int x : l) {
            if (has(r.oldL, x)) {
                if (added) violation("resize", "new world {%s } after {%s }: remaining process behind a new one", showL(l).c_str(), showL(r.oldL).c_str());
                while (i < r.oldL.size() && r.oldL[i] != x) i++;
                if (i == r.oldL.size()) violation("resize", "new world {%s } after {%s }: order of the remaining processes changed", showL(l).c_str(), showL(r.oldL).c_str());
                i++;
            }
            else {
                added++;
                if (x != E.maxLid + added) violation("resize", "new process has location id %d, ids up to %d were used before", x, E.maxLid + added - 1);
            }
        }
        if (l.empty() || l[0] != 0) violation("resize", "master missing in the new world {%s }", showL(l).c_str());
        int waiting = -worldSize;
        for (int j = 0; j < EXTNODE; j++) if (nodes[j].started) waiting++;
        if (E.admitted + added > waiting) violation("resize", "%d processes were added, but only %d ever asked", E.admitted + added, waiting);
        if (added < r.mustJoin) violation("resize", "%d processes were waiting to join, but only %d joined", r.mustJoin, added);
        for (int x : r.oldL) {
            bool out = !has(l, x), may = false;
            for (auto& st : E.st)
                if (st.started && (st.used < 0 || st.used == k) && cutMatches(st, x, false)) may = true;
            if (out && !may) violation("resize", "process %d was removed, but nobody asked for this", x);
            if (out) stat(ST_REMOVE);
            else
                for (int q : r.strays)
                    if (has(E.st[q].base, x) && cutMatches(E.st[q], x, true)) violation("resize", "process %d stays, although its removal was requested", x);
        }
        if (l != r.oldL) E.epoch++;
        r.epoch = E.epoch;
        E.admitted += added;
        E.maxLid += added;
        E.world = l;
        auto m = std::make_shared<GroupM>();
        m->lids = l;
        W.groups[gid] = l == r.oldL ? W.groups[oldId] : m;
        W.defOp[gid] = &spec->ops[k];
        W.resized[k] = W.groups[gid];
        stat(ST_RESIZE);
        probe(mix(0xE1A5, mix(added, mix(r.oldL.size(), l.size()))));
    }
    else if (l != r.newL)
        violation("resize", "process %d sees the new world {%s }, others {%s }", s->lid, showL(l).c_str(), showL(r.newL).c_str());
    s->gr[gid] = g;
    checkGroup(gid, g);
    if (a->laik_phase(s->inst) != k) violation("resize", "process %d is in phase %d, not %d", s->lid, a->laik_phase(s->inst), k);
    if (a->laik_epoch(s->inst) != r.epoch) violation("resize", "process %d is in epoch %d, not %d", s->lid, a->laik_epoch(s->inst), r.epoch);
    Laik_Group* par = a->laik_group_parent(g);
    if (r.newL == r.oldL) {
        if (g != s->gr[oldId] || par) violation("resize", "nothing changed, but the world is another group");
        return;
    }
    if (!par) violation("resize", "process %d: changed world without parent", s->lid);
    if (newcomer) s->gr[oldId] = par;
    else if (par != s->gr[oldId]) violation("resize", "process %d: parent of the new world is not the old world", s->lid);
    if (lidsOf(par) != r.oldL) violation("resize", "process %d: old world is {%s }, not {%s }", s->lid, showL(lidsOf(par)).c_str(), showL(r.oldL).c_str());
    if (a->laik_myid(par) != W.groups[oldId]->rankOf(s->lid)) violation("resize", "process %d: rank %d in the old world", s->lid, a->laik_myid(par));
    if (a->laik_world(s->inst) != g) violation("resize", "process %d: world query does not give the new world", s->lid);
}

static void execOp(int k);
static bool failAllowed(Node* n);

static void joinHook(NS* s, Laik_Group* world)
{
    Api* a = s->A;
    GroupP w = W.groups[-1];
    bool late = oversub() ? a->laik_phase(s->inst) != 0 : s->n->id >= worldSize;
    if (s->n->id >= worldSize && !oversub() && masterGone() && a->laik_phase(s->inst) == 0) {
        // the others have finished already: a world of late-comers
        s->inst = nullptr;
        s->alone = true;
        s->startOp = (int)spec->ops.size();
        return;
    }
    for (int i = 0; i < MAXNODES; i++)
        if (&ns[i] != s && ns[i].inst && ns[i].lid == s->lid)
            violation("world", "location id %d given to two processes", s->lid);
    s->initial = !late;
    if (!late && initialCount() > worldSize) violation("world", "%d processes start in a world of %d", initialCount(), worldSize);
    if (late) {
        // joined late
        int k = a->laik_phase(s->inst);
        if (k <= 0 || k >= (int)spec->ops.size() || spec->ops[k].kind != OP_RESIZE) violation("resize", "process joins in phase %d, which is no resize", k);
        s->n->curop = k;
        E.arrived++;
        stat(ST_JOIN);
        if (E.mustJoin.count(s->n->id) && E.mustJoin[s->n->id] < k) violation("resize", "process had to join in phase %d, but did in %d", E.mustJoin[s->n->id], k);
        resizeResult(k, world, true);
        if (has(E.rs[k].oldL, s->lid) || !has(E.rs[k].newL, s->lid)) violation("resize", "new process has location id %d", s->lid);
        // bring the program to the same point: what still exists
        std::set<int> freed;
        for (int j = 0; j < k; j++) if (spec->ops[j].kind == OP_FREEDATA || spec->ops[j].kind == OP_FREESPACE) freed.insert((int)spec->ops[j].a[0]);
        int oldId = worldIdBefore(k);
        for (int j = 0; j < k; j++) {
            const Op& o = spec->ops[j];
            if (o.kind != OP_SPACE && o.kind != OP_PRTR && o.kind != OP_DATA) continue;
            if (freed.count((int)o.a[0])) continue;
            if (o.kind == OP_PRTR && o.a[1] == PK_REASSIGN) continue;
            execOp(j);
        }
        for (auto& e : s->data) {
            auto m = dataAt(e.first, k);
            if (!m || !m->part) continue;
            int p = m->partId;
            if (!s->part.count(p)) {
                const Op& po = *W.defOp[p];
                learnPart(p, (int)po.a[1], oldId, (int)po.a[3], -1);
                s->part[p] = a->laik_new_partitioning(s->pr[(int)po.a[1]], s->gr[oldId], s->sp[(int)po.a[3]], nullptr);
            }
            a->laik_set_initial_partitioning(e.second.d, s->part[p]);
        }
        s->startOp = k + 1;
        return;
    }
    if (a->laik_size(world) != (int)w->lids.size())
        violation("world", "process starts with a world of %d processes, expected %zu", a->laik_size(world), w->lids.size());
    for (int i = 0; i < (int)w->lids.size(); i++)
        if (a->laik_group_locationid(world, i) != w->lids[i])
            violation("world", "process %d of the initial world has location id %d", i, a->laik_group_locationid(world, i));
    if (a->laik_myid(world) < 0 || a->laik_myid(world) >= (int)w->lids.size() || w->lids[a->laik_myid(world)] != s->lid)
        violation("world", "own rank %d / location id %d", a->laik_myid(world), s->lid);
    for (int i = 0; i < MAXNODES; i++)
        if (&ns[i] != s && ns[i].inst && ns[i].lid == s->lid)
            violation("world", "location id %d given to two processes", s->lid);
    if (backendName == "mpi" && s->lid != s->n->mpiRank) violation("world", "location id %d on MPI rank %d", s->lid, s->n->mpiRank);
    if (a->laik_phase(s->inst) != 0 || a->laik_epoch(s->inst) != 0) violation("world", "process starts in phase %d, epoch %d", a->laik_phase(s->inst), a->laik_epoch(s->inst));
}

static void elasticOp(int k)
{
    NS* s = S();
    Api* a = s->A;
    const Op& o = spec->ops[k];
    switch (o.kind) {
    case OP_RESIZE: {
        auto strayOk = [](const StrayM& st) { return st.ended; };
        if (s->lid == 0) {
            bool alone = E.world.size() == 1;
            block([=] {
                for (auto& st : E.st) {
                    int f = (int)spec->ops[st.op].a[0];
                    if (st.op < k && !E.noWait.count(st.op) && ((f & SF_WAITM) || (alone && (f & SF_WAITO))) && !strayOk(st)) return false;
                }
                return true;
            }, "outside commands");
            modelStep(k);
            ResizeM& r = E.rs[k];
            for (size_t i = 0; i < E.st.size(); i++) {
                StrayM& st = E.st[i];
                if (!st.arrived || st.used >= 0) continue;
                st.used = k;
                r.strays.push_back((int)i);
            }
            if (E.admitted == E.arrived && initialCount() == worldSize)
                for (int i = oversub() ? 0 : worldSize; i < EXTNODE; i++) {
                    Node& n = nodes[i];
                    if (!n.started || n.exited || ns[i].inst || ns[i].alone || E.mustJoin.count(i)) continue;
                    if (n.fibers.empty() || !n.fibers[0]->blocked || strcmp(n.fibers[0]->what, "select") || !netQuiet(&n)) continue;
                    E.mustJoin[i] = k;
                    r.mustJoin++;
                }
            E.masterIn = k;
        }
        else {
            block([=] {
                for (auto& st : E.st)
                    if (st.op < k && !E.noWait.count(st.op) && (spec->ops[st.op].a[0] & SF_WAITO) && !(strayOk(st) && (!(spec->ops[st.op].a[0] & SF_CLOSE) || st.gone()))) return false;
                return true;
            }, "outside commands");
            modelStep(k);
        }
        Laik_Group* g = a->laik_allow_world_resize(s->inst, k);
        resizeResult(k, g, false);
        if (s->lid == 0) { E.masterIn = -1; E.masterWorld = E.rs[k].newL; }
        break;
    }
    case OP_RSDONE: {
        modelStep(k);
        int oldId = -1, gid = worldIdBefore(k), rk = -1;
        for (int j = 0; j < k; j++) if (spec->ops[j].kind == OP_RESIZE) rk = j;
        oldId = worldIdBefore(rk);
        if (o.a[0] & 1) {
            std::vector<int> f;
            for (auto& e : s->part) if ((int)W.defOp[e.first]->a[2] == oldId) f.push_back(e.first);
            for (int p : f) { a->laik_free_partitioning(s->part[p]); s->part.erase(p); }
        }
        bool same = s->gr[oldId] == s->gr[gid];
        if ((o.a[0] & 2) && !same) a->laik_release_group(s->gr[oldId]);
        if (o.a[0] & 4) {
            a->laik_finish_world_resize(s->inst);
            if (a->laik_group_parent(s->gr[gid])) violation("resize", "old world still attached after the resize is finished");
        }
        if (a->laik_myid(s->gr[gid]) < 0) s->removed = true;
        break;
    }
    default: modelStep(k);
    }
}

static bool skipOp(NS*, int) { return false; }

// a connection from somebody who is not part of the computation
static void strayMain(StrayM* st)
{
    const Op& o = spec->ops[st->op];
    int fl = (int)o.a[0], target = o.a.size() > 2 ? (int)o.a[2] : 0;
    if (!(fl & SF_EARLY)) block([=] { return W.pos > st->op; }, "stray client");
    if (o.a[1]) block(nullptr, "stray client", now + (uint64_t)o.a[1]);
    int h = -1, toPort = 0;
    for (int t = 0; t < 40 && h < 0; t++) {
        int port = target == 0 ? (int)spec->cfg.get("port", 7777) : netListenPort(&nodes[target]);
        if (port <= 0 && target == 0) port = 7777;
        toPort = port;
        if (port > 0) h = extConnect(nodes[target].host, port);
        if (h < 0) block(nullptr, "stray client", now + 3000);
    }
    if (h < 0) { st->ended = true; return; }
    stat(ST_STRAY);
    st->gone = extPeerClosed(h);
    // which removals does this text ask for?
    if (target == 0 || (toPort == (int)spec->cfg.get("port", 7777) && nodes[target].host == nodes[0].host)) {
        auto add = [&](const std::string& line, std::vector<std::string>& to) {
            char c[21], p[41];
            if (!line.empty() && line[0] == 'c' && sscanf(line.c_str(), "%20s %40s", c, p) == 2) to.push_back(p);
        };
        std::string rest;
        for (auto& l : strayLines(o.s, rest)) add(l, st->cuts);
        add(rest, st->may); // executed when the connection gets closed
    }
    st->started = true;
    st->base = E.masterWorld; // processes joining later may or may not be affected
    bool ok = true;
    size_t off = 0;
    uint64_t hsh = (uint64_t)st->op * 77 + 5;
    while (ok && off < o.s.size()) {
        size_t c = o.s.size() - off;
        if (fl & SF_PIECES) { hsh = mix(hsh, off); c = std::min<size_t>(c, 1 + hsh % 7); }
        ok = extSend(h, o.s.substr(off, c));
        off += c;
        if (off < o.s.size()) block(nullptr, "stray client", now + hsh % 500);
    }
    stat(ST_GARBAGE, (uint64_t)std::count(o.s.begin(), o.s.end(), '\n'));
    auto w = extWatch(h);
    if (fl & SF_READ) {
        std::string got;
        for (int t = 0; t < 50; t++) {
            std::string q = extRecvSome(h, 20000);
            if (q.empty()) break;
            got += q;
        }
    }
    if (fl & SF_CLOSE) extClose(h);
    if (w() == 0) block([=] { return w() != 0; }, "stray client");
    if (ok && w() == 1) st->arrived = true;
    st->ended = true;
}

// processes which were never asked in are stopped when the others are done
static bool atDeadlock;
static bool reap()
{
    bool waiting = false, more = false;
    for (int i = 0; i < MAXNODES; i++)
        for (Fiber* f : nodes[i].fibers)
            if (!nodes[i].exited && f->blocked && !strcmp(f->what, "outside commands")) waiting = true;
    if (waiting && atDeadlock)
        for (auto& st : E.st) more |= E.noWait.insert(st.op).second;
    if (more) return true;
    if (E.admitted != E.arrived) return false;
    for (int i = 0; i < MAXNODES; i++) {
        if (!mayBeLate(i) ? !nodes[i].exited : ns[i].inst && !nodes[i].exited) return false;
        if (ns[i].alone && !nodes[i].exited) return false;
    }
    if (initialCount() != worldSize) return false;
    bool any = false;
    for (int i = oversub() ? 0 : worldSize; i < worldSize + (int)spec->cfg.get("joiners", 0); i++)
        if (!nodes[i].exited) { ns[i].exempt = true; killNode(&nodes[i]); any = true; }
    return any;
}

static void elasticStart()
{
    bool strays = false;
    for (auto& o : spec->ops) if (o.kind == OP_STRAY) strays = true;
    if (!spec->cfg.get("elastic") && !strays && !oversub()) return;
    E.world = E.masterWorld = W.groups[-1]->lids;
    E.maxLid = worldSize - 1;
    for (int k = 0; k < (int)spec->ops.size(); k++) {
        if (spec->ops[k].kind != OP_STRAY) continue;
        E.st.emplace_back();
        StrayM* st = &E.st.back();
        st->op = k;
        nodes[EXTNODE].id = EXTNODE;
        nodes[EXTNODE].host = 200;
        spawn(&nodes[EXTNODE], "stray" + std::to_string(k), [st] { strayMain(st); }, true);
    }
    onDeadlock = [] { atDeadlock = true; bool r = reap(); atDeadlock = false; return r; };
    onNodeFail = failAllowed;
    onStep = [] { static int c; if (++c % 64 == 0) reap(); };
}

static bool joinTime(Node* n)
{
    for (int k = 0; k < (int)spec->ops.size(); k++)
        if (spec->ops[k].kind == OP_JOIN && spec->ops[k].a[0] == n->id) return W.pos > k && !masterGone();
    return false;
}
static void elasticEnd()
{
    if (oversub() && initialCount() != worldSize) violation("world", "only %d of %d processes started", initialCount(), worldSize);
    if (E.admitted != E.arrived) violation("resize", "%d processes were added, but %d arrived", E.admitted, E.arrived);
}
// a late-comer whose master is gone may give up
static bool failAllowed(Node* n)
{
    NS* s = &ns[n->id];
    if (!mayBeLate(n->id) || s->inst || s->alone || !masterGone()) return false; // an admitted process must arrive: see elasticEnd
    s->exempt = true;
    return true;
}
