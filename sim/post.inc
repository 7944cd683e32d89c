// One complete run: set up the nodes, run the program, final checks.
static const char* backendNames[] = { "single", "mpi", "tcp2", "tcp" };
bool runWorld()
{
    const Config& c = spec->cfg;
    int b = (int)c.get("backend", 1);
    backendName = backendNames[b];
    worldSize = b == 0 ? 1 : (int)c.get("n", 2);
    int total = worldSize + (int)c.get("joiners", 0);
    relaxed = c.get("relaxed", 0) != 0;
    if (total > numNodes) harnessError("more nodes than library copies");
    auto w = std::make_shared<GroupM>();
    for (int i = 0; i < worldSize; i++) w->lids.push_back(i);
    W.groups[-1] = w;
    for (int i = 0; i < total; i++) {
        Node& n = nodes[i];
        n.pid = 2000 + (int)c.get(("pid" + std::to_string(i)).c_str(), i * 7);
        n.host = (int)c.get(("host" + std::to_string(i)).c_str(), 0);
        n.clockOff = c.get(("clk" + std::to_string(i)).c_str(), 0);
        n.mpiRank = i;
        setupEnv(n, i);
        n.killAt = c.get(("kill" + std::to_string(i)).c_str(), 0);
        n.noMemLen = c.get(("nomemlen" + std::to_string(i)).c_str(), 1);
        n.noMemAt = c.get(("nomem" + std::to_string(i)).c_str(), 0);
        if (n.noMemAt) n.noMemAt += n.noMemLen;
    }
    netStartRun();
    glibStartRun();
    mpiStartRun(worldSize);
    for (int i = 0; i < total; i++) {
        Node* n = &nodes[i];
        n->expectExit = relaxed;
        spawn(n, "p" + std::to_string(i), [n] { nodeMain(n); });
    }
    elasticStart();
    runScheduler();
    cur = nullptr;
    if (c.get("failstop", 0) && disturbed) {
        for (int i = 0; i < total; i++) checkArena(&nodes[i], true);
        return true;
    }
    if (!relaxed) {
        for (int i = 0; i < total; i++)
            if (!nodes[i].finished && !ns[i].exempt) violation("exit", "process %d ended with code %d: %s", i, nodes[i].exitcode, errTail(nodes[i]).c_str());
        std::string m;
        if (b == 1 && !mpiCheckLeftover(m)) violation("leftover", "%s", m.c_str());
        for (int i = 0; i < total; i++) {
            checkArena(&nodes[i], true);
            if (ns[i].exempt) continue;
            Fiber tmp;
            tmp.node = &nodes[i];
            cur = &tmp;
            checkAppAllocs(&ns[i]);
            cur = nullptr;
        }
        elasticEnd();
    }
    return true;
}
