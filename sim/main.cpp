// Driver: loads one copy of the library per simulated process, forks one child
// per simulated run, records, replays and minimises failing runs.
#include "workload.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <ctime>
#include <algorithm>
#include <fstream>
#include <sstream>
#include <iostream>
#include <dlfcn.h>
#include <sys/mman.h>
#include <dlfcn.h>
#include <elf.h>
#include <link.h>
#include <sys/wait.h>
#include <unistd.h>
#include <sched.h>

extern bool debugTrace;
static std::string libDir = ".";
static int variant;           // 0: MPI + TCP2 build, 1: old TCP build

static double wall()
{
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}

static void loadCopies(int n)
{
    for (int i = 0; i < n; i++) {
        std::string p = libDir + (variant ? "/tcp" : "/node") + std::to_string(i) + ".so";
        void* h = dlopen(p.c_str(), RTLD_NOW | RTLD_LOCAL);
        if (!h) h = dlopen(p.c_str(), RTLD_LAZY | RTLD_LOCAL); // a function not provided here only matters when called
        if (!h) { fprintf(stderr, "cannot load %s: %s\n", p.c_str(), dlerror()); exit(4); }
        nodes[i].handle = h;
        auto io = (void (*)(FILE***, FILE***))dlsym(h, "simnode_io");
        if (io) io(&nodes[i].pout, &nodes[i].perr);
        nodes[i].api = new Api;
        std::string err;
        if (!nodes[i].api->load(h, err)) { fprintf(stderr, "missing symbol %s\n", err.c_str()); exit(4); }
    }
    numNodes = n;
}

// a process which is in use for a long time: counters used for object ids are
// advanced as if objects were created again and again before. Only done for
// counters found by name, in the symbol table of the library
static void agedProcess(int64_t v)
{
    static const char* names[] = { "aseq_id", "data_id", "res_id", "partitioning_id", "space_id", "trans_id" };
    static std::vector<uint64_t> offs;
    static bool done;
    std::string p = libDir + (variant ? "/tcp" : "/node") + "0.so";
    if (!done) {
        done = true;
        FILE* f = fopen(p.c_str(), "rb");
        std::string d;
        char buf[65536];
        size_t l;
        while (f && (l = fread(buf, 1, sizeof buf, f)) > 0) d.append(buf, l);
        if (f) fclose(f);
        if (d.size() < sizeof(Elf64_Ehdr)) return;
        Elf64_Ehdr* h = (Elf64_Ehdr*)&d[0];
        Elf64_Shdr* sh = (Elf64_Shdr*)&d[h->e_shoff];
        for (int i = 0; i < h->e_shnum; i++) {
            if (sh[i].sh_type != SHT_SYMTAB) continue;
            Elf64_Sym* sy = (Elf64_Sym*)&d[sh[i].sh_offset];
            const char* st = &d[sh[sh[i].sh_link].sh_offset];
            for (size_t k = 0; k < sh[i].sh_size / sizeof *sy; k++)
                if (ELF64_ST_TYPE(sy[k].st_info) == STT_OBJECT && sy[k].st_size == sizeof(int))
                    for (const char* n : names) if (!strcmp(st + sy[k].st_name, n)) offs.push_back(sy[k].st_value);
        }
    }
    for (int i = 0; i < numNodes; i++) {
        link_map* m = nullptr;
        if (dlinfo(nodes[i].handle, RTLD_DI_LINKMAP, &m) || !m) continue;
        for (uint64_t o : offs) *(int*)(m->l_addr + o) += (int)v;
    }
}

// ---- one run in a child process ---------------------------------------------
static void runChild()
{
    memset((void*)R, 0, sizeof *R);
    pid_t p = fork();
    if (p < 0) { perror("fork"); exit(4); }
    if (p == 0) {
        coreStartRun();
        if (spec->cfg.get("aged")) agedProcess(spec->cfg.get("aged"));
        if (runWorld()) R->status = 1;
        finishRun();
    }
    int st = 0;
    waitpid(p, &st, 0);
    if (R->status == 0) {
        R->status = 3;
        snprintf(R->cls, sizeof R->cls, "harness");
        snprintf(R->msg, sizeof R->msg, "run ended without a result (wait status %d)", st);
    }
}

static std::string signature(const char* cls, const char* msg)
{
    std::string s = cls, m = msg;
    s += ":";
    // only what is independent of the concrete numbers
    bool dig = false;
    for (char c : m.substr(0, 60)) {
        if (isdigit((unsigned char)c) || c == '-') { if (!dig) s += '#'; dig = true; continue; }
        dig = false;
        s += c;
    }
    std::string c = cls;
    if (c == "deadlock" || c == "livelock" || c == "cpuhang" || c == "signal") return c;
    if (c == "data") return "data";
    return s;
}

static void writeReplay(const std::string& file, const RunSpec& s, const Result& r)
{
    std::ofstream o(file);
    o << "# replay with: check.py replay <this file>\n";
    o << "prop " << s.prop << "\nseed " << s.seed << "\n";
    for (auto& e : s.cfg.v) o << "cfg " << e.first << " " << e.second << "\n";
    for (auto& p : s.ops) o << "op " << opText(p) << "\n";
    for (int k = 0; k < DK_N; k++)
        for (int n = 0; n < MAXNODES; n++) {
            auto& v = s.streams[k * MAXNODES + n];
            if (v.empty()) continue;
            size_t e = v.size();
            while (e && !v[e - 1]) e--;
            if (!e) continue;
            o << "dec " << dkName[k] << " " << n;
            for (size_t i = 0; i < e;) {
                size_t j = i;
                while (j < e && v[j] == v[i]) j++;
                o << " " << v[i];
                if (j - i > 1) o << "*" << (j - i);
                i = j;
            }
            o << "\n";
        }
    o << "expect " << r.cls << "\n";
    o << "message " << r.msg << "\n";
    o << "hash " << r.hash << "\n";
}

static bool readReplay(const std::string& file, RunSpec& s, std::string& cls, uint64_t& hash)
{
    std::ifstream in(file);
    if (!in) return false;
    std::string line;
    s = RunSpec();
    s.replay = true;
    s.streams.resize(DK_N * MAXNODES);
    hash = 0;
    while (std::getline(in, line)) {
        std::istringstream is(line);
        std::string w;
        is >> w;
        if (w == "prop") is >> s.prop;
        else if (w == "seed") is >> s.seed;
        else if (w == "cfg") { std::string k; int64_t v; is >> k >> v; s.cfg.v[k] = v; }
        else if (w == "op") {
            Op o;
            if (!parseOp(line.substr(3), o)) return false;
            s.ops.push_back(o);
        }
        else if (w == "dec") {
            std::string k;
            int n;
            is >> k >> n;
            int kk = -1;
            for (int i = 0; i < DK_N; i++) if (k == dkName[i]) kk = i;
            if (kk < 0 || n < 0 || n >= MAXNODES) return false;
            auto& v = s.streams[kk * MAXNODES + n];
            while (is >> w) {
                size_t x = w.find('*');
                uint32_t val = (uint32_t)strtoul(w.c_str(), nullptr, 10);
                size_t c = x == std::string::npos ? 1 : strtoul(w.c_str() + x + 1, nullptr, 10);
                v.insert(v.end(), c, val);
            }
        }
        else if (w == "expect") is >> cls;
        else if (w == "hash") is >> hash;
    }
    return true;
}

static void takeStreams(RunSpec& s)
{
    s.streams.assign(DK_N * MAXNODES, {});
    uint32_t n = std::min<uint32_t>(R->ndec, DECCAP);
    for (uint32_t i = 0; i < n; i++) s.streams[decLog[i].kind * MAXNODES + decLog[i].node].push_back(decLog[i].val);
    s.replay = true;
}

// ---- minimisation ----------------------------------------------------------
static void minimise(RunSpec& best, double limit)
{
    spec = &best;
    runChild();
    if (R->status != 2) { fprintf(stderr, "does not fail (status %d %s %s)\n", R->status, R->cls, R->msg); return; }
    Result ref = *R;
    std::string sig = signature(ref.cls, ref.msg);
    if (!best.replay) {
        takeStreams(best);
        runChild();
        if (R->status != 2 || R->hash != ref.hash) { fprintf(stderr, "replay of the recorded decisions differs: %d %s %s\n", R->status, R->cls, R->msg); exit(5); }
    }
    double end = wall() + limit;
    auto attempt = [&](RunSpec& c) {
        if (wall() > end) return false;
        if (!legalProgram(c) && !repairProgram(c)) return false;
        spec = &c;
        runChild();
        bool ok = R->status == 2 && signature(R->cls, R->msg) == sig;
        if (ok) best = c;
        return ok;
    };
    bool progress = true;
    int round = 0;
    while (progress && wall() < end && round++ < 6) {
        progress = false;
        // operations, large chunks first
        for (size_t chunk = std::max<size_t>(1, best.ops.size() / 2); chunk >= 1; chunk /= 2) {
            for (size_t i = best.ops.size(); i > 0;) {
                size_t a = i > chunk ? i - chunk : 0;
                RunSpec c = best;
                c.ops.erase(c.ops.begin() + a, c.ops.begin() + std::min(i, c.ops.size()));
                if (attempt(c)) progress = true;
                i = a;
                if (i > best.ops.size()) i = best.ops.size();
            }
            if (chunk == 1) break;
        }
        // whole fault streams
        for (int k = 0; k < DK_N; k++)
            for (int n = 0; n < MAXNODES; n++) {
                auto& v = best.streams[k * MAXNODES + n];
                if (std::all_of(v.begin(), v.end(), [](uint32_t x) { return x == 0; })) continue;
                RunSpec c = best;
                c.streams[k * MAXNODES + n].clear();
                if (attempt(c)) { progress = true; continue; }
                // prefixes, then chunks
                for (size_t len = v.size() / 2; len >= 1; len /= 2) {
                    RunSpec d = best;
                    auto& w = d.streams[k * MAXNODES + n];
                    size_t keep = w.size() > len ? w.size() - len : 0;
                    w.resize(keep);
                    if (attempt(d)) progress = true;
                }
                size_t size = best.streams[k * MAXNODES + n].size();
                int tries = 0;
                for (size_t len = std::max<size_t>(1, size / 4); len >= 1 && tries < 200; len /= 4) {
                    for (size_t a = 0; a < size && tries < 200; a += len, tries++) {
                        RunSpec d = best;
                        auto& w = d.streams[k * MAXNODES + n];
                        bool any = false;
                        for (size_t i = a; i < std::min(w.size(), a + len); i++) { if (w[i]) any = true; w[i] = 0; }
                        if (any && attempt(d)) progress = true;
                    }
                    if (len == 1) break;
                }
            }
        // configuration to its defaults
        static const std::set<std::string> keep = { "backend", "n", "joiners", "oversub", "steps", "relaxed", "sigcrash", "cpulimit", "failstop" };
        std::vector<std::string> ks;
        for (auto& e : best.cfg.v) if (!keep.count(e.first) && e.second) ks.push_back(e.first);
        for (auto& k : ks) {
            RunSpec c = best;
            c.cfg.v.erase(k);
            if (attempt(c)) progress = true;
        }
    }
    spec = &best;
    runChild();
}

int main(int argc, char** argv)
{
    std::map<std::string, std::string> opt;
    std::string mode = argc > 1 ? argv[1] : "", arg;
    for (int i = 2; i < argc; i++) {
        if (!strncmp(argv[i], "--", 2) && i + 1 < argc) { opt[argv[i] + 2] = argv[i + 1]; i++; }
        else arg = argv[i];
    }
    auto num = [&](const char* k, double d) { return opt.count(k) ? strtod(opt[k].c_str(), nullptr) : d; };
    auto unum = [&](const char* k, uint64_t d) { return opt.count(k) ? strtoull(opt[k].c_str(), nullptr, 10) : d; };
    if (opt.count("lib")) libDir = opt["lib"];
    else {
        std::string self = argv[0];
        size_t s = self.rfind('/');
        if (s != std::string::npos) libDir = self.substr(0, s);
    }
    variant = (int)num("variant", 0);
    int tier = opt["tier"] == "thorough" ? 1 : 0;
    setlinebuf(stdout);

    R = (Result*)mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    decLog = (DecRec*)mmap(nullptr, DECCAP * sizeof(DecRec), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);

    RunSpec file;
    std::string wantCls;
    uint64_t wantHash = 0;
    if (mode == "replay" || (mode == "min" && !arg.empty())) {
        if (!readReplay(arg, file, wantCls, wantHash)) { fprintf(stderr, "cannot read %s\n", arg.c_str()); return 4; }
    }
    else if (opt["prop"].size()) variant = profileVariant(opt["prop"]);
    if (getenv("SIM_BT")) debugTrace = true;
    coreInit();
    loadCopies((int)num("copies", variant ? 6 : 12));

    if (mode == "list") {
        for (auto& p : profileNames()) printf("%s\n", p.c_str());
        return 0;
    }
    if (mode == "replay") {
        spec = &file;
        runChild();
        printf("status %d\nclass %s\nmessage %s\nnode %d op %d\nhash %llu\nsteps %llu\n", R->status, R->cls, R->msg, R->node, R->op,
               (unsigned long long)R->hash, (unsigned long long)R->st[ST_STEPS]);
        if (R->status == 3) return 4;
        if (R->status != 2) return 0;
        bool same = wantCls == R->cls && (wantHash == 0 || wantHash == R->hash);
        printf("%s\n", same ? "reproduced" : "fails differently");
        return same ? 1 : 2;
    }
    if (mode == "one" || mode == "min") {
        RunSpec s;
        if (arg.empty()) {
            if (!generate(opt["prop"], unum("seed", 1), tier, s)) { fprintf(stderr, "unknown profile\n"); return 4; }
        }
        else s = file;
        if (opt.count("steps")) s.cfg.v["steps"] = (int64_t)num("steps", 0);
        if (mode == "one") {
            for (auto& e : s.cfg.v) printf("cfg %s %lld\n", e.first.c_str(), (long long)e.second);
            for (size_t i = 0; i < s.ops.size(); i++) printf("%3zu op %s\n", i, opText(s.ops[i]).c_str());
            if (!legalProgram(s)) printf("PROGRAM NOT LEGAL\n");
        }
        if (mode == "min") minimise(s, num("time", 30));
        else { spec = &s; runChild(); }
        printf("status %d\nclass %s\nmessage %s\nnode %d op %d\nhash %llu\nsteps %llu\n", R->status, R->cls, R->msg, R->node, R->op,
               (unsigned long long)R->hash, (unsigned long long)R->st[ST_STEPS]);
        if (mode == "min") {
            printf("ops %zu\n", s.ops.size());
            if (opt.count("out")) writeReplay(opt["out"], s, *R);
            else for (auto& o : s.ops) printf("op %s\n", opText(o).c_str());
        }
        else for (int i = 0; i < ST_N; i++) if (R->st[i]) printf("  %s %llu\n", statName[i], (unsigned long long)R->st[i]);
        return R->status == 2 ? 1 : R->status == 1 ? 0 : 4;
    }
    if (mode == "seedof") {
        uint64_t ph = 1469598103934665603ull;
        for (char c : opt["prop"]) ph = (ph ^ (unsigned char)c) * 1099511628211ull;
        printf("%llu\n", (unsigned long long)(mix(mix(unum("seed", 1), ph), unum("first", 0)) >> 1));
        return 0;
    }
    if (mode == "batch") {
        std::string prop = opt["prop"];
        uint64_t base = unum("seed", 1), first = unum("first", 0), stride = unum("stride", 1), maxRuns = unum("max", ~0ull >> 1);
        int stopAfter = (int)num("violations", 1);
        double end = wall() + num("time", 10);
        uint64_t ph = 1469598103934665603ull;
        for (char c : prop) ph = (ph ^ (unsigned char)c) * 1099511628211ull;
        uint64_t runs = 0, nontriv = 0, nondet = 0, simtime = 0, twice = 0, viol = 0, harness = 0;
        uint64_t st[NSTAT] = { 0 };
        std::set<uint64_t> probes;
        std::set<uint64_t> sched, distinct;
        std::map<std::string, uint64_t> backends;
        double t0 = wall();
        for (uint64_t i = first; runs < maxRuns && wall() < end; i += stride) {
            uint64_t rs = mix(mix(base, ph), i) >> 1;
            RunSpec s;
            if (!generate(prop, rs, tier, s)) { fprintf(stderr, "unknown profile\n"); return 4; }
            spec = &s;
            runChild();
            runs++;
            if (R->status != 3 && runs % 50 == 1) {
                Result a = *R;
                runChild();
                twice++;
                if (a.hash != R->hash || a.status != R->status || strcmp(a.msg, R->msg)) { nondet++; printf("nondet %llu\n", (unsigned long long)rs); }
                *R = a;
            }
            for (int k = 0; k < ST_N; k++) st[k] += R->st[k];
            simtime += R->simtime;
            sched.insert(R->shash);
            for (uint32_t k = 0; k < R->nprobe; k++) probes.insert(R->probe[k]);
            char bk[32];
            snprintf(bk, sizeof bk, "%d:%d", (int)s.cfg.get("backend", 1), (int)s.cfg.get("n", 1));
            backends[bk]++;
            bool nt = R->st[ST_SWITCHES] > 2 && (R->st[ST_CHECKS] || R->st[ST_KVSCHK] || R->st[ST_REDCHK]);
            if (s.cfg.get("backend", 1) == 0) nt = R->st[ST_CHECKS] > 0;
            if (nt) { nontriv++; distinct.insert(R->hash); }
            if (R->status == 2) {
                viol++;
                printf("violation %llu %s %s\n", (unsigned long long)rs, R->cls, R->msg);
                if ((int)viol >= stopAfter) break;
            }
            else if (R->status == 3) {
                harness++;
                printf("harness %llu %s\n", (unsigned long long)rs, R->msg);
                if (harness > 3) break;
            }
        }
        printf("runs %llu\nnontrivial %llu\nnondet %llu\ntwice %llu\nsimtime %llu\nwall %.3f\n", (unsigned long long)runs, (unsigned long long)nontriv,
               (unsigned long long)nondet, (unsigned long long)twice, (unsigned long long)simtime, wall() - t0);
        for (int k = 0; k < ST_N; k++) printf("stat %s %llu\n", statName[k], (unsigned long long)st[k]);
        for (auto& b : backends) printf("config %s %llu\n", b.first.c_str(), (unsigned long long)b.second);
        printf("probes");
        for (uint64_t p : probes) printf(" %llx", (unsigned long long)p);
        printf("\nsched");
        for (uint64_t p : sched) printf(" %llx", (unsigned long long)p);
        printf("\ndistinct");
        for (uint64_t p : distinct) printf(" %llx", (unsigned long long)p);
        printf("\nend\n");
        return 0;
    }
    fprintf(stderr, "usage: sim list|one|batch|min|replay ...\n");
    return 4;
}
