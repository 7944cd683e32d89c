// External agents announcing failures, and the program control state.
// Agents run in the process which loaded them; the announcements arrive at
// simulated times, also while the library asks for them.

enum { AF_FILE = 1, AF_STICKY = 2, AF_NOITER = 4, AF_SLOW = 8, AF_SIMPLE = 16 };
struct AgentM {
    int slot = 0, type = 0, flags = 0;
    bool open = false;         // library of the agent loaded
    int closed = 0;
    std::vector<std::pair<uint64_t, std::string>> q; // announcements with their time
    int iters = 0, lastIter = 0, wantIters = 0;
    int failIter = 0, failTask = 0, iterNow = 0; // AF_SIMPLE: the code of external/simple
    bool simpleFails() { return iterNow >= failIter; }
    size_t visible() { size_t c = 0; for (auto& e : q) c += e.first <= now; return c; }
};
static std::vector<AgentM> agents[MAXNODES];
static std::vector<std::pair<int, std::string>> agentGot[MAXNODES];
static bool agentAsked[MAXNODES], agentBye[MAXNODES];
static std::string agentArgs[MAXNODES];
static struct { int n = 0; const char* name = nullptr; void* data = nullptr; int iter = 0; } progState[MAXNODES];
static int agentNext[MAXNODES]; // slot being loaded

static AgentM& agentOf(int slot, const char* what)
{
    NS* s = S();
    auto& v = agents[s - ns];
    if (slot >= (int)v.size()) violation("agent", "%s of an agent which was not loaded", what);
    AgentM& m = v[slot];
    if ((m.flags & AF_FILE) && !m.open) violation("agent", "%s of an agent whose library is not loaded", what);
    if (m.flags & AF_SLOW) block(nullptr, "agent", now + 50);
    return m;
}
static int agentPeek(int slot)
{
    AgentM& m = agentOf(slot, "peek function");
    if (m.type != LAIK_AGENT_FT) violation("agent", "agent %d asked for failures, it does not report any", slot);
    return (int)m.visible();
}
static void agentGet(int slot, int* n, node_uid_t* uids)
{
    AgentM& m = agentOf(slot, "function");
    NS* s = S();
    if (!agentAsked[s - ns]) violation("agent", "failures requested from agent %d without a request by the program", slot);
    int c = 0;
    for (auto it = m.q.begin(); it != m.q.end();) {
        if (it->first > now) { ++it; continue; }
        snprintf(uids[c++].uid, MAX_UID_LENGTH, "%s", it->second.c_str());
        agentGot[s - ns].push_back({ slot, it->second });
        if (m.flags & AF_STICKY) ++it; else it = m.q.erase(it);
    }
    *n = c;
}
static void agentIter(int slot, int iter)
{
    AgentM& m = agentOf(slot, "iteration function");
    m.iters++;
    m.lastIter = iter;
}
static Laik_Agent* agentMake(int slot, int argc, char** argv)
{
    NS* s = S();
    int i = s - ns;
    AgentM& m = agents[i][slot];
    std::string got;
    for (int k = 0; k < argc; k++) got += std::string(argv[k]) + ";";
    if (got != agentArgs[i]) violation("agent", "agent %d started with arguments '%s' instead of '%s'", slot, got.c_str(), agentArgs[i].c_str());
    if (m.type != LAIK_AGENT_FT) {
        Laik_Agent* a = (Laik_Agent*)__wrap_calloc(1, m.type == LAIK_AGENT_PROFILING ? sizeof(Laik_Profiling_Agent) : sizeof(Laik_Agent));
        a->id = slot;
        a->name = (char*)"simulated agent";
        a->type = (Laik_Agent_Type)m.type;
        a->isAlive = a->isInitialized = 1;
        return a;
    }
    Laik_Ft_Agent* a = (Laik_Ft_Agent*)__wrap_calloc(1, sizeof(Laik_Ft_Agent));
    a->base.id = slot;
    a->base.name = (char*)"simulated failure agent";
    a->base.type = LAIK_AGENT_FT;
    a->base.isAlive = a->base.isInitialized = 1;
#define SLOT(n) case n: \
    a->peekfail = [] { return agentPeek(n); }; \
    a->getfail = [](int* c, node_uid_t* u) { agentGet(n, c, u); }; \
    if (!(m.flags & AF_NOITER)) a->setiter = [](const int i) { agentIter(n, i); }; \
    break;
    switch (slot) { SLOT(0) SLOT(1) SLOT(2) SLOT(3) SLOT(4) SLOT(5) SLOT(6) SLOT(7) SLOT(8) SLOT(9) }
#undef SLOT
    return (Laik_Agent*)a;
}
static Laik_Agent* agentInit(int argc, char** argv) { return agentMake(agentNext[S() - ns], argc, argv); }

extern "C" {
void* __wrap_dlopen(const char* path, int)
{
    NS* s = S();
    int slot = -1;
    if (!path || sscanf(path, "/agents/agent%d.so", &slot) != 1 || slot != agentNext[s - ns]) violation("agent", "library '%s' requested", path ? path : "(null)");
    AgentM& m = agents[s - ns][slot];
    if (m.open || m.closed) violation("agent", "library of agent %d loaded again", slot);
    m.open = true;
    return (void*)(uintptr_t)(0x51000 + slot * 16);
}
void* __wrap_dlsym(void* h, const char* name)
{
    NS* s = S();
    int slot = (int)((uintptr_t)h - 0x51000) / 16;
    if (slot != agentNext[s - ns] || strcmp(name, "agent_init")) violation("agent", "symbol '%s' requested from library %p", name, h);
    if (agents[s - ns][slot].flags & AF_SIMPLE) return (void*)s->A->simpleagent;
    return (void*)agentInit;
}
int __wrap_dlclose(void* h)
{
    NS* s = S();
    int i = s - ns;
    int slot = (int)((uintptr_t)h - 0x51000) / 16;
    if (slot < 0 || slot >= (int)agents[i].size() || !agents[i][slot].open) violation("agent", "library %p closed which is not loaded", h);
    if (!agentBye[i]) violation("agent", "library of agent %d closed while in use", slot);
    agents[i][slot].open = false;
    agents[i][slot].closed++;
    return 0;
}
char* __wrap_dlerror(void) { return (char*)"simulated"; }
}

static void agentOp(int k)
{
    NS* s = S();
    Api* a = s->A;
    const Op& o = spec->ops[k];
    int i = s - ns;
    auto& v = agents[i];
    switch (o.kind) {
    case OP_AGENT: {
        AgentM m;
        m.slot = (int)v.size();
        m.type = (int)o.a[0];
        m.flags = (int)o.a[1];
        int argc = (int)o.a[2];
        v.push_back(m);
        agentNext[i] = m.slot;
        std::vector<std::string> st;
        std::vector<char*> av;
        agentArgs[i].clear();
        if (m.flags & AF_SIMPLE) {
            v.back().failIter = argc;
            v.back().failTask = k * 7;
            st = { std::to_string(argc), std::to_string(k * 7) };
            argc = 2;
        }
        else for (int q = 0; q < argc; q++) st.push_back("arg" + std::to_string(k * 10 + q));
        for (auto& x : st) { av.push_back((char*)x.c_str()); agentArgs[i] += x + ";"; }
        if (m.flags & AF_FILE) {
            std::string p = "/agents/agent" + std::to_string(m.slot) + ".so";
            a->laik_ext_load_agent_from_file(s->inst, (char*)p.c_str(), argc, argc ? av.data() : nullptr);
            if (!v[m.slot].open) violation("agent", "library of agent %d not loaded", m.slot);
        }
        else a->laik_ext_load_agent_from_function(s->inst, agentInit, argc, argc ? av.data() : nullptr);
        agentNext[i] = -1;
        break;
    }
    case OP_FAIL:
        if (o.a[0] < (int64_t)v.size() && !(v[o.a[0]].flags & AF_SIMPLE) && (!o.a[2] || (o.a[2] >> i & 1)))
            for (int64_t c = 0; c < o.a[3]; c++) {
                std::string u = "host" + std::to_string(o.a[0]) + "-" + std::to_string(k) + "-" + std::to_string(c);
                while ((int64_t)u.size() < o.a[4]) u += 'x';
                v[o.a[0]].q.push_back({ now + (uint64_t)o.a[1] * (c + 1), u });
            }
        break;
    case OP_GETFAIL: {
        int max = 1;
        std::vector<std::string> must;
        for (auto& m : v)
            if (m.flags & AF_SIMPLE) max++;
            else if (m.type == LAIK_AGENT_FT) for (auto& e : m.q) { max++; if (e.first <= now) must.push_back(e.second); }
        size_t es = sizeof(node_uid_t);
        char* buf = (char*)__wrap_malloc(max * es);
        if (!buf) return;
        memset(buf, 0x6b, max * es);
        agentGot[i].clear();
        agentAsked[i] = true;
        int num = 0x7000;
        a->laik_get_failed(s->inst, &num, (node_uid_t*)buf, max);
        agentAsked[i] = false;
        std::vector<std::string> got, rep;
        for (auto& m : v) {
            for (auto& e : agentGot[i]) if (e.first == m.slot) got.push_back(e.second);
            if ((m.flags & AF_SIMPLE) && m.simpleFails()) got.push_back(std::to_string(m.failTask));
        }
        if (num != (int)got.size()) violation("agent", "process %d: %d failed nodes reported, the agents announced %zu", s->lid, num, got.size());
        for (int q = 0; q < num; q++) {
            node_uid_t* u = (node_uid_t*)(buf + q * es);
            rep.push_back(std::string(u->uid, strnlen(u->uid, es)));
        }
        __wrap_free(buf);
        if (rep != got) violation("agent", "process %d: the failed nodes reported are not those announced by the agents (%d nodes, first '%s')", s->lid, num, num ? rep[0].c_str() : "");
        for (auto& x : must)
            if (std::find(rep.begin(), rep.end(), x) == rep.end()) violation("agent", "process %d: failure of node '%s' was announced before and is not reported", s->lid, x.c_str());
        stat(ST_CHECKS);
        break;
    }
    case OP_PHASE: {
        static const char* names[] = { "init", "solve", "", "a somewhat longer name for a phase", "post-proc" };
        auto& p = progState[i];
        auto test = [&] {
            int n = -99;
            const char* nm = (const char*)&n;
            void* d = &n;
            a->laik_get_phase(s->inst, &n, &nm, &d);
            if (n != p.n || nm != p.name || d != p.data) violation("program", "process %d: phase %d reported, %d was set", s->lid, n, p.n);
            if (a->laik_get_iteration(s->inst) != p.iter) violation("program", "process %d: iteration %d reported, %d was set", s->lid, a->laik_get_iteration(s->inst), p.iter);
        };
        test();
        if (o.a[1] == 1) { a->laik_iter_reset(s->inst); p.iter = 0; }
        else if (o.a[1] == 2) {
            p.n = (int)o.a[0];
            p.name = names[o.a[2]];
            p.data = &progState[(o.a[0] & 7)];
            a->laik_set_phase(s->inst, p.n, p.name, p.data);
        }
        test();
        break;
    }
    case OP_ITER:
        a->laik_set_iteration(s->inst, (int)o.a[0]);
        progState[i].iter = (int)o.a[0];
        if (a->laik_get_iteration(s->inst) != o.a[0]) violation("program", "iteration number not kept");
        for (auto& m : v) {
            m.iterNow = (int)o.a[0];
            if (m.flags & AF_SIMPLE) continue;
            if (m.type == LAIK_AGENT_FT && !(m.flags & AF_NOITER)) m.wantIters++;
            if (m.iters != m.wantIters || (m.wantIters && m.lastIter != o.a[0]))
                violation("agent", "process %d: agent %d was told of %d iterations, last %d, instead of %d, last %lld", s->lid, m.slot, m.iters, m.lastIter, m.wantIters, (long long)o.a[0]);
        }
        break;
    }
}

static void agentsAfterFinalize(NS* s)
{
    for (auto& m : agents[s - ns])
        if ((m.flags & AF_FILE) && m.closed != 1) violation("agent", "process %d: library of agent %d closed %d times by the end", s->lid, m.slot, m.closed);
}
