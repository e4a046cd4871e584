// Driver of simulated runs: one forked process per run, aggregation, replay, minimisation.
#include <dlfcn.h>
#include "internal.h"
#include <algorithm>
#include <errno.h>
#include <execinfo.h>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <nlohmann/json.hpp>
#include <set>
#include <signal.h>
#include <sstream>
#include <stdio.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

using nlohmann::json;

namespace sim {
void (*prepareHook)() = nullptr;
std::vector<Scenario> & scenarios() { static std::vector<Scenario> s; return s; }

long Ctx::knob(const std::string & name, long simplest, long drawn) {
    long v = drawn;
    auto it = spec.knobs.find(name);
    if(it != spec.knobs.end()) v = it->second;
    size_t n = strlen(rec->knobs);
    snprintf(rec->knobs + n, sizeof rec->knobs - n, "%s=%ld/%ld;", name.c_str(), v, simplest);
    note(mix(hashBytes(name.data(), name.size()), uint64_t(v)));
    return v;
}
bool Ctx::kept(int i) {
    if(i + 1 > rec->nOps) rec->nOps = i + 1;
    bool k = std::find(spec.drop.begin(), spec.drop.end(), i) == spec.drop.end();
    if(k) ++rec->ops;
    return k;
}
void Ctx::say(const std::string & s) {
    size_t n = strlen(rec->opsText);
    if(n + s.size() + 2 < sizeof rec->opsText) { memcpy(rec->opsText + n, s.c_str(), s.size()); rec->opsText[n + s.size()] = '\n'; rec->opsText[n + s.size() + 1] = 0; }
}
bool inGuardArena(const void * p);
} // namespace sim

using namespace sim;

static bool verbose = false;
static int cpuLimit = 60;
static double t0;
static double wall() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static void onSignal(int s, siginfo_t * si, void *) {
    if(rec && rec->status == ST_RUNNING) {
        const char * c = s == SIGABRT ? "process-aborted" : s == SIGXCPU ? "no-progress" : "memory-error";
        snprintf(rec->cls, sizeof rec->cls, "%s", c);
        snprintf(rec->msg, sizeof rec->msg, "signal %d%s", s, s == SIGSEGV && inGuardArena(si->si_addr) ? " (outside an allocation)" : "");
        rec->status = ST_VIOLATION;
        alarm(20);                 // the heap and its locks may be in any state
        size_t n = strlen(rec->msg);
        if(s != SIGXCPU) {
            active = false;
            void * bt[24]; int k = backtrace(bt, 24);
            for(int i = 2; i < k && n < std::min(sizeof rec->msg - 200, size_t(2500)); ++i) {
                Dl_info d;
                if(dladdr(bt[i], &d) && d.dli_sname) n += size_t(snprintf(rec->msg + n, sizeof rec->msg - n, " %.160s", d.dli_sname));
            }
        }
    }
    _exit(0);
}

static ScenarioFn findScenario(const std::string & n) {
    for(auto & s : scenarios()) if(n == s.name) return s.fn;
    fprintf(stderr, "unknown scenario %s\n", n.c_str());
    exit(2);
}
// one simulated run in a fresh child; result in *rec
__attribute__((noinline)) static void runChild(const Spec & sp) {
    runCaller = __builtin_return_address(0);
    ScenarioFn fn = findScenario(sp.scenario);
    memset((void *) rec, 0, offsetof(Rec, dec));
    fflush(stdout);
    pid_t pid = fork();
    if(pid < 0) { perror("fork"); exit(2); }
    if(pid == 0) {
        spec = sp;
        if(!verbose) { int n = open("/dev/null", O_WRONLY); dup2(n, 2); dup2(n, 1); }
        struct rlimit rl{rlim_t(cpuLimit), rlim_t(cpuLimit + 5)};
        setrlimit(RLIMIT_CPU, &rl);
        alarm(unsigned(cpuLimit + 40));        // runs that hang without using the processor
        struct rlimit nc{0, 0}; setrlimit(RLIMIT_CORE, &nc);
        static char alt[65536];
        stack_t ss{}; ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
        struct sigaction sa{}; sa.sa_sigaction = onSignal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
        for(int s : {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL, SIGXCPU}) sigaction(s, &sa, nullptr);
        Ctx ctx(mix(sp.seed, 0x0c7));
        Rng pol(mix(sp.seed, 0x901));
        drawPolicy(pol);
        begin();
        // in some runs every allocation lies between inaccessible pages
        if(!prepareHook && ctx.knob("guard", 0, mix(sp.seed, 0x9a4d) % 12 == 0)) guardAlloc(true);
        try { fn(ctx); }
        catch(const std::exception & e) { fail("unexpected-exception", std::string("uncaught: ") + e.what()); }
        finishOk();
    }
    int st = 0;
    while(waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if(rec->status == ST_RUNNING) {
        rec->status = ST_VIOLATION;
        snprintf(rec->cls, sizeof rec->cls, "process-died");
        snprintf(rec->msg, sizeof rec->msg, "%s %d", WIFSIGNALED(st) ? "killed by signal" : "exited with", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
    }
}
static Spec explicitSpec(const Spec & from) {       // the run in *rec as an explicit, PRNG-free trace
    Spec s = from;
    s.replay = true; s.noSched = s.noFault = false;
    s.dec.assign(rec->dec, rec->dec + rec->nDec);
    s.faults.assign(rec->fault, rec->fault + rec->nFault);
    if(rec->haveCrash) { s.crash.set = true; s.crash.scope = rec->crashScope; s.crash.point = rec->crashPoint; s.crash.torn = rec->crashTorn; }
    return s;
}
static std::map<std::string, std::pair<long, long>> knobsOf() {
    std::map<std::string, std::pair<long, long>> m;
    std::stringstream ss(rec->knobs); std::string it;
    while(std::getline(ss, it, ';')) {
        size_t e = it.find('='), q = it.find('/', e);
        if(e == std::string::npos || q == std::string::npos) continue;
        m[it.substr(0, e)] = {atol(it.c_str() + e + 1), atol(it.c_str() + q + 1)};
    }
    return m;
}

// ---------------------------------------------------------------- replay files
static json toJson(const Spec & s) {
    json j;
    j["format"] = 1; j["scenario"] = s.scenario; j["seed"] = s.seed; j["drop_ops"] = s.drop;
    j["knobs"] = json::object();
    for(auto & k : s.knobs) j["knobs"][k.first] = k.second;
    j["schedule"] = json::array();
    for(auto & d : s.dec) j["schedule"].push_back({d.scope, d.point, d.value});
    j["faults"] = json::array();
    for(auto & f : s.faults) j["faults"].push_back({{"op", f.scope}, {"io", f.io}, {"kind", faultNames[f.kind]}, {"param", f.param}});
    if(s.crash.set) j["crash"] = {{"op", s.crash.scope}, {"point", s.crash.point}, {"torn", s.crash.torn}};
    return j;
}
static Spec fromJson(const json & j) {
    Spec s;
    s.scenario = j.at("scenario"); s.seed = j.at("seed");
    if(j.value("seed_only", false)) return s;      // the trace was too long to record: the seed repeats the run
    s.replay = true;
    s.drop = j.at("drop_ops").get<std::vector<int>>();
    for(auto & k : j.at("knobs").items()) s.knobs[k.key()] = k.value();
    for(auto & d : j.at("schedule")) s.dec.push_back(Decision{d[0], d[2], d[1]});
    for(auto & f : j.at("faults")) {
        uint32_t k = 0; std::string n = f.at("kind");
        for(uint32_t i = 0; i < F_COUNT; ++i) if(n == faultNames[i]) k = i;
        s.faults.push_back(FaultRec{f.at("op"), k, f.at("io"), f.at("param")});
    }
    if(j.contains("crash")) { s.crash.set = true; s.crash.scope = j["crash"]["op"]; s.crash.point = j["crash"]["point"]; s.crash.torn = j["crash"]["torn"]; }
    return s;
}

// ---------------------------------------------------------------- minimisation
struct Minimiser {
    std::string cls; double deadline; int runs = 0;
    Spec best;
    bool over() const { return wall() > deadline; }
    bool tryIt(const Spec & c) {
        if(over()) return false;
        ++runs;
        runChild(c);
        if(rec->status == ST_VIOLATION && cls == rec->cls) { best = c; return true; }
        return false;
    }
    template <class V> void ddmin(std::function<V &(Spec &)> field) {
        size_t n = field(best).size();
        for(size_t chunk = std::max<size_t>(1, n); chunk >= 1 && n; chunk /= 2) {
            for(size_t i = 0; i < field(best).size() && !over();) {
                Spec c = best; auto & v = field(c);
                size_t e = std::min(v.size(), i + chunk);
                v.erase(v.begin() + i, v.begin() + e);
                if(!tryIt(c)) i += chunk;
            }
            if(chunk == 1) break;
        }
    }
    void run(const Spec & start) {
        best = start;
        // everything at once first
        { Spec c = best; c.dec.clear(); c.faults.clear(); tryIt(c); }
        { Spec c = best; c.dec.clear(); tryIt(c); }
        int before;
        for(int round = 0; round < 3; ++round) {
            before = runs; Spec prev = best;
            // operations, last first; larger blocks first
            runChild(best);
            int nOps = rec->nOps;
            for(int blk = std::max(1, nOps / 2); blk >= 1; blk /= 2) {
                for(int i = nOps - blk; i >= 0 && !over(); i -= blk) {
                    Spec c = best; bool any = false;
                    for(int k = i; k < i + blk; ++k) if(std::find(c.drop.begin(), c.drop.end(), k) == c.drop.end()) { c.drop.push_back(k); any = true; }
                    if(any) tryIt(c);
                }
                if(blk == 1) break;
            }
            runChild(best);
            auto ks = knobsOf();
            for(auto & k : ks) if(k.second.first != k.second.second && !over()) { Spec c = best; c.knobs[k.first] = k.second.second; tryIt(c); }
            ddmin<std::vector<FaultRec>>([](Spec & s) -> std::vector<FaultRec> & { return s.faults; });
            ddmin<std::vector<Decision>>([](Spec & s) -> std::vector<Decision> & { return s.dec; });
            for(size_t i = 0; i < best.faults.size(); ++i) if(best.faults[i].param) { Spec c = best; c.faults[i].param = 0; tryIt(c); }
            if(over() || (prev.drop == best.drop && prev.dec.size() == best.dec.size() && prev.faults.size() == best.faults.size() && prev.knobs == best.knobs)) break;
            (void) before;
        }
        std::sort(best.drop.begin(), best.drop.end());
    }
};

static std::string runText() {
    std::string s = rec->opsText;
    return s;
}

int main(int argc, char ** argv) {
    // fixed addresses: nothing may depend on address space layout
    if(!getenv("Z5SIM_NOASLR")) {
        setenv("Z5SIM_NOASLR", "1", 1);
        int p = personality(0xffffffff);
        if(p != -1 && personality(p | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
    }
    t0 = wall();
    std::map<std::string, std::string> o;
    std::vector<std::string> pos;
    for(int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        if(a.substr(0, 2) == "--") { o[a.substr(2)] = i + 1 < argc ? argv[i + 1] : ""; ++i; }
        else if(a == "-v") verbose = true;
        else pos.push_back(a);
    }
    rec = (Rec *) mmap(nullptr, sizeof(Rec), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    { void * bt[2]; backtrace(bt, 2); }   // loads libgcc now
    if(o.count("cpu")) cpuLimit = atoi(o["cpu"].c_str());
    std::string cmd = pos.size() ? pos[0] : "";
    if(cmd == "list") { for(auto & s : scenarios()) printf("%s\n", s.name); return 0; }
    if(prepareHook && (cmd == "replay" || cmd == "hashes" || cmd == "run")) prepareHook();
    if(cmd == "replay") {
        std::ifstream f(pos.at(1)); json j; f >> j;
        Spec s = fromJson(j);
        runChild(s);
        printf("scenario %s seed %llu\n%s", s.scenario.c_str(), (unsigned long long) s.seed, runText().c_str());
        printf("RESULT status=%s class=%s hash=%016llx\n", rec->status == ST_VIOLATION ? "violation" : rec->status == ST_SKIP ? "skip" : "ok", rec->cls, (unsigned long long) rec->hash);
        if(rec->status == ST_VIOLATION) printf("MESSAGE %s\n", rec->msg);
        return rec->status == ST_VIOLATION ? 1 : 0;
    }
    if(cmd == "hashes") {            // determinism evidence
        uint64_t a = 0, b = 0; sscanf(o["seeds"].c_str(), "%lu:%lu", &a, &b);
        for(uint64_t s = a; s < b; ++s) {
            Spec sp; sp.scenario = o["scenario"]; sp.seed = s;
            runChild(sp);
            printf("%lu %d %s %016lx %016lx %lu %lu %lu\n", s, rec->status, rec->cls, rec->hash, rec->switchHash, rec->points, rec->ioOps, rec->switches);
        }
        return 0;
    }
    if(cmd != "run") { fprintf(stderr, "usage: z5sim run --scenario S --seeds A:B [--time SEC] [--stats F] [--out DIR] | replay FILE | hashes ... | list\n"); return 2; }
    uint64_t a = 0, b = 0;
    sscanf(o["seeds"].c_str(), "%lu:%lu", &a, &b);
    uint64_t stride = o.count("stride") ? strtoull(o["stride"].c_str(), nullptr, 10) : 1;
    double limit = o.count("time") ? atof(o["time"].c_str()) : 1e9;
    double minTime = o.count("min-time") ? atof(o["min-time"].c_str()) : 40;
    int maxViol = o.count("max-viol") ? atoi(o["max-viol"].c_str()) : 1;
    std::string outDir = o.count("out") ? o["out"] : ".";
    // known findings: scenario class substring-of-message (tab separated)
    struct Known { std::string scn, cls, sub; uint64_t n = 0; };
    std::vector<Known> known;
    if(o.count("known")) {
        std::ifstream f(o["known"]); std::string l;
        while(std::getline(f, l)) {
            if(l.empty() || l[0] == '#') continue;
            std::stringstream ss(l); Known k;
            std::getline(ss, k.scn, '\t'); std::getline(ss, k.cls, '\t'); std::getline(ss, k.sub, '\t');
            known.push_back(k);
        }
    }
    json st;
    std::map<std::string, uint64_t> agg, faults, probes;
    std::set<uint64_t> sched, hashes, states;
    json samples = json::array(), viols = json::array();
    std::set<std::string> seen;
    uint64_t runs = 0, skipped = 0, determinism = 0, faultRuns = 0, nontrivial = 0;
    bool nondet = false;
    for(uint64_t s = a; s < b && wall() - t0 < limit && int(viols.size()) < maxViol; s += stride) {
        Spec sp; sp.scenario = o["scenario"]; sp.seed = s;
        runChild(sp);
        ++runs;
        if(rec->status == ST_SKIP) { ++skipped; continue; }
        if(hashes.insert(rec->hash).second && (rec->ops || rec->points > 10)) ++nontrivial;
        sched.insert(rec->switchHash); if(rec->stateHash) states.insert(rec->stateHash);
        agg["points"] += rec->points; agg["switches"] += rec->switches; agg["preemptions"] += rec->preemptions;
        agg["io_ops"] += rec->ioOps; agg["mutations"] += rec->mutations; agg["virtual_ns"] += rec->vtime;
        agg["crash_points"] += rec->crashPoints; agg["ops"] += rec->ops; agg["threads"] += rec->threads; agg["oracle_checks"] += rec->oracleChecks;
        agg["decisions"] += rec->nDec;
        bool any = false;
        for(int i = 1; i < F_COUNT; ++i) if(rec->faults[i]) { faults[faultNames[i]] += rec->faults[i]; any = true; }
        if(any) ++faultRuns;
        for(int i = 0; i < MAXPROBE && rec->probeName[i][0]; ++i) probes[rec->probeName[i]] += rec->probeCount[i];
        if(samples.size() < 2 && rec->status == ST_OK && rec->opsText[0] && (rec->nFault || runs > 20 || rec->switches > 10))
            samples.push_back({{"seed", s}, {"scenario", sp.scenario}, {"text", std::string(rec->opsText).substr(0, 1500)}, {"knobs", rec->knobs}, {"faults", rec->nFault}, {"schedule_decisions", rec->nDec}, {"points", rec->points}});
        if(rec->status == ST_OK && runs % 64 == 1) {        // continuous determinism proof
            uint64_t h = rec->hash, w = rec->switchHash;
            runChild(sp);
            ++determinism;
            if(rec->hash != h || rec->switchHash != w) { fprintf(stderr, "NONDETERMINISM scenario=%s seed=%lu\n", sp.scenario.c_str(), s); nondet = true; }
        }
        if(rec->status == ST_VIOLATION) {
            std::string cls = rec->cls, msg = rec->msg;
            bool isKnown = false;
            for(auto & k : known) if((k.scn == "*" || k.scn == sp.scenario) && k.cls == cls && msg.find(k.sub) != std::string::npos) { ++k.n; isKnown = true; break; }
            if(isKnown) continue;
            uint64_t h = rec->hash;
            Spec ex = explicitSpec(sp);
            bool overflow = rec->decOverflow;
            for(auto & k : knobsOf()) ex.knobs[k.first] = k.second.first;
            runChild(sp);
            bool same = rec->status == ST_VIOLATION && cls == rec->cls && h == rec->hash;
            json v;
            v["seed"] = s; v["class"] = cls; v["message"] = msg; v["same_seed_reproduces"] = same;
            Minimiser m; m.cls = cls; m.deadline = wall() + minTime;
            bool traceOk = !overflow && m.tryIt(ex);
            v["trace_reproduces"] = traceOk;
            if(traceOk) {
                m.run(ex);
                runChild(m.best);
                json r = toJson(m.best);
                r["class"] = rec->cls; r["message"] = rec->msg; r["ops_text"] = rec->opsText;
                r["hash"] = (std::stringstream() << std::hex << rec->hash).str();
                r["minimisation"] = {{"runs", m.runs}, {"original_decisions", ex.dec.size()}, {"decisions", m.best.dec.size()},
                    {"original_faults", ex.faults.size()}, {"faults", m.best.faults.size()}, {"original_ops", rec->nOps}, {"dropped_ops", m.best.drop.size()}};
                std::string path = outDir + "/" + sp.scenario + "-" + std::to_string(s) + ".replay.json";
                std::ofstream(path) << r.dump(1) << "\n";
                v["replay"] = path; v["message"] = rec->msg; v["ops_text"] = rec->opsText;
            }
            else if(same) {
                json r = {{"format", 1}, {"scenario", sp.scenario}, {"seed", s}, {"seed_only", true}, {"class", cls}, {"message", msg}, {"hash", (std::stringstream() << std::hex << h).str()}};
                std::string path = outDir + "/" + sp.scenario + "-" + std::to_string(s) + ".replay.json";
                std::ofstream(path) << r.dump(1) << "\n";
                v["replay"] = path;
            }
            viols.push_back(v);
        }
    }
    st["scenario"] = o["scenario"]; st["runs"] = runs; st["skipped"] = skipped; st["wall_s"] = wall() - t0;
    st["counters"] = agg; st["faults_fired"] = faults; st["probes"] = probes;
    st["distinct_runs"] = hashes.size(); st["distinct_nontrivial"] = nontrivial; st["distinct_schedules"] = sched.size(); st["distinct_states"] = states.size();
    st["determinism_reruns"] = determinism; st["nondeterminism"] = nondet; st["runs_with_faults"] = faultRuns;
    st["samples"] = samples; st["violations"] = viols;
    st["known"] = json::array();
    for(auto & k : known) if(k.n) st["known"].push_back({{"scenario", k.scn}, {"class", k.cls}, {"message", k.sub}, {"count", k.n}});
    // hashes for cross-process distinct counts
    if(o.count("hashfile")) { std::ofstream f(o["hashfile"], std::ios::binary); for(uint64_t h : hashes) f.write((char *) &h, 8); }
    if(o.count("schedfile")) { std::ofstream f(o["schedfile"], std::ios::binary); for(uint64_t h : sched) f.write((char *) &h, 8); }
    if(o.count("stats")) std::ofstream(o["stats"]) << st.dump(1) << "\n"; else std::cout << st.dump(1) << "\n";
    return viols.empty() ? (nondet ? 3 : 0) : 1;
}
