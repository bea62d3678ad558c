#include "runner.hpp"
#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <set>
#include <csignal>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
#include <nlohmann/json.hpp>

namespace vf {
namespace {
using clk = std::chrono::steady_clock;
double now() { return std::chrono::duration<double>(clk::now().time_since_epoch()).count(); }

constexpr size_t MAXW = 64, MAXV = 64, DESC = 16384, VTEXT = 16384, MAXS = 12, STXT = 2048, MAXK = 1024;
constexpr uint64_t TABLE = 1ull << 26;

struct Slot { std::atomic<double> started; std::atomic<uint64_t> unit; std::atomic<uint32_t> len; char desc[DESC]; };
struct Viol { std::atomic<uint64_t> hash; std::atomic<int> ready; char key[1024]; char text[VTEXT]; };
struct Shared {
    std::atomic<uint64_t> next, counters[NCOUNTERS], nviol, nsample, units_done;
    std::atomic<int> stop;
    Slot slot[MAXW];
    Viol viol[MAXV];
    struct { std::atomic<int> ready; char text[STXT]; } samples[MAXS];
    std::atomic<uint64_t> known_hits[MAXK];
};
Shared* S = nullptr;
std::atomic<uint64_t>* T = nullptr;
double t0 = 0, deadline = 0;
std::string cur_phase;
std::vector<std::string> phases;
bool truncated = false;
std::vector<std::string> known; // keys of known findings of this property

std::string root() { const char* r = getenv("VERIF_ROOT"); return r ? r : "/verif"; }

void init(const Options& o) {
    if (S) return;
    t0 = now(); deadline = t0 + o.deadline_s;
    S = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    T = static_cast<std::atomic<uint64_t>*>(mmap(nullptr, TABLE * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    if (S == MAP_FAILED || (void*)T == MAP_FAILED) { perror("mmap"); exit(3); }
    std::ifstream f(root() + "/known_findings.jsonl");
    std::string line;
    while (std::getline(f, line)) {
        auto j = nlohmann::json::parse(line, nullptr, false);
        if (j.is_object() && j.contains("key") && j.value("property", "") == o.id && known.size() < MAXK) known.push_back(j["key"].get<std::string>());
    }
}
void record(const std::string& key, const std::string& text) {
    for (size_t k = 0; k < known.size(); ++k) if (known[k] == key) { S->known_hits[k]++; return; }
    uint64_t h = hash_str(key) | 1;
    size_t i = 0;
    for (;; ++i) { // one slot per distinct key
        if (i >= MAXV) { S->stop = 1; return; }
        uint64_t v = 0;
        if (S->viol[i].hash.compare_exchange_strong(v, h)) break;
        if (v == h) { if (S->nviol.fetch_add(1) > 3000) S->stop = 1; return; }
    }
    S->nviol++;
    snprintf(S->viol[i].key, sizeof S->viol[i].key, "%s", key.c_str());
    snprintf(S->viol[i].text, sizeof S->viol[i].text, "%s", text.c_str());
    S->viol[i].ready = 1;
}
}

void Ctx::begin(const std::string& d) {
    Slot& s = S->slot[worker];
    size_t n = std::min(d.size(), DESC - 1);
    memcpy(s.desc, d.data(), n); s.desc[n] = 0; s.len = n;
    s.unit = unit; s.started = now();
}
void Ctx::note(const std::string& d) {
    Slot& s = S->slot[worker];
    size_t at = s.len; size_t n = std::min(d.size(), DESC - 1 - at);
    memcpy(s.desc + at, d.data(), n); s.desc[at + n] = 0; s.len = at + n;
}
void Ctx::count(Counter c, uint64_t n) { S->counters[c].fetch_add(n, std::memory_order_relaxed); }
bool Ctx::state(uint64_t h) {
    if (!h) h = 1;
    uint64_t i = (h * 0x9E3779B97F4A7C15ull) >> 38;
    for (int k = 0; k < 64; ++k, i = (i + 1) & (TABLE - 1)) {
        uint64_t v = T[i].load(std::memory_order_relaxed);
        if (v == h) return false;
        if (!v) { if (T[i].compare_exchange_strong(v, h)) { count(STATES); return true; } if (v == h) return false; }
    }
    return false; // crowded neighbourhood: not counted
}
void Ctx::violation(const std::string& key, const std::string& detail) {
    Slot& s = S->slot[worker];
    record(key, cat("phase: ", cur_phase, "\nunit: ", unit, "\ncase: ", s.desc, "\n\n", detail, "\n"));
}
void Ctx::sample(const std::string& t) {
    if (S->nsample.load(std::memory_order_relaxed) >= MAXS) return;
    uint64_t i = S->nsample.fetch_add(1);
    if (i >= MAXS) return;
    snprintf(S->samples[i].text, STXT, "%s", t.c_str());
    S->samples[i].ready = 1;
}
bool Ctx::stop() const { return S->stop.load(std::memory_order_relaxed) || now() > deadline; }

Options parse_options(const std::string& id, int argc, char** argv) {
    Options o; o.id = id;
    if (const char* t = getenv("VERIF_TIER")) o.tier = t;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        if (a == "--unit" && i + 1 < argc) o.only_unit = atoll(argv[++i]);
        else if (a == "--tier" && i + 1 < argc) o.tier = argv[++i];
        else if (a == "--workers" && i + 1 < argc) o.workers = atoi(argv[++i]);
    }
    if (o.tier != "quick" && o.tier != "thorough") o.tier = "quick";
    o.deadline_s = o.quick() ? 540 : 840;
    return o;
}

void explore(Options& o, const std::string& phase, uint64_t n, const std::function<void(Ctx&, uint64_t)>& fn) {
    init(o);
    cur_phase = phase;
    if (const char* only = getenv("VF_ONLY"); only && phase.find(only) == std::string::npos) { truncated = true; return; } // one phase alone, during development
    S->next = 0; S->units_done = 0;
    int W = o.workers ? o.workers : std::max(1u, std::thread::hardware_concurrency());
    if (W > (int)MAXW) W = MAXW;
    if ((uint64_t)W > n) W = std::max<uint64_t>(1, n);
    double began = now();
    uint64_t tr0 = S->counters[TRACES], ev0 = S->counters[EVALS];
    auto spawn = [&](int w) -> pid_t {
        S->slot[w].started = 0; S->slot[w].len = 0; S->slot[w].desc[0] = 0;
        fflush(nullptr); std::cout.flush(); std::cerr.flush();
        pid_t p = fork();
        if (p == 0) {
            struct rlimit rl{6ull << 30, 6ull << 30};
#if !defined(__SANITIZE_ADDRESS__)
            setrlimit(RLIMIT_AS, &rl);
#endif
            struct rlimit nocore{0, 0}; setrlimit(RLIMIT_CORE, &nocore);
            // What the code under test prints is not part of the report.
            if (!getenv("VERIF_VERBOSE")) { int fd = open("/dev/null", O_WRONLY); dup2(fd, 1); dup2(fd, 2); }
            Ctx c; c.worker = w;
            if (o.only_unit >= 0) { c.unit = o.only_unit; fn(c, c.unit); _exit(0); }
            while (!c.stop()) {
                uint64_t u = S->next.fetch_add(1);
                if (u >= n) break;
                c.unit = u;
                try { fn(c, u); }
                catch (const std::exception& e) { c.violation(cat("exception:", phase, ":", u), cat("unexpected exception: ", e.what())); }
                S->slot[w].started = 0;
                S->units_done++;
            }
            _exit(0);
        }
        return p;
    };
    std::vector<pid_t> pids(W);
    for (int w = 0; w < W; ++w) pids[w] = spawn(w);
    int live = W;
    while (live) {
        for (int w = 0; w < W; ++w) {
            if (!pids[w]) continue;
            int st = 0;
            pid_t r = waitpid(pids[w], &st, WNOHANG);
            bool respawn = false;
            if (r == pids[w]) {
                if (WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st) != 0)) {
                    std::string how = WIFSIGNALED(st) ? cat("signal ", WTERMSIG(st), " (", strsignal(WTERMSIG(st)), ")") : cat("exit status ", WEXITSTATUS(st));
                    record(cat("crash:", S->slot[w].desc), cat("phase: ", phase, "\nunit: ", S->slot[w].unit.load(), "\ncase: ", S->slot[w].desc,
                           "\n\nThe code under test ended the process: ", how, "\n"));
                    respawn = true;
                }
                pids[w] = 0; --live;
            } else {
                double s = S->slot[w].started;
                if (s > 0 && now() - s > o.case_limit_s) {
                    kill(pids[w], SIGKILL); waitpid(pids[w], &st, 0);
                    record(cat("hang:", S->slot[w].desc), cat("phase: ", phase, "\nunit: ", S->slot[w].unit.load(), "\ncase: ", S->slot[w].desc,
                           "\n\nStill running after ", o.case_limit_s, " s: the code under test does not terminate on this case.\n"));
                    respawn = true; pids[w] = 0; --live;
                }
            }
            if (respawn && o.only_unit < 0 && !S->stop && S->next < n && now() < deadline) { pids[w] = spawn(w); ++live; }
        }
        std::this_thread::sleep_for(std::chrono::milliseconds(5));
    }
    bool complete = S->next >= n && !S->stop;
    if (!complete && o.only_unit < 0) truncated = true;
    phases.push_back(cat(phase, ": ", std::min<uint64_t>(S->next, n), "/", n, " units, ", S->counters[TRACES] - tr0, " executions compared, ",
                         S->counters[EVALS] - ev0, " checks, ", now() - began, " s", complete ? "" : " (not completed)"));
}

int finish(Options& o) {
    init(o);
    using json = nlohmann::json;
    for (size_t k = 0; k < known.size(); ++k)
        if (S->known_hits[k]) std::cout << "KNOWN-FINDING: property=" << o.id << " " << known[k].substr(0, known[k].find('\n')) << " (" << S->known_hits[k] << " times)" << std::endl;
    std::string rdir = root() + "/evidence/replay";
    mkdir((root() + "/evidence").c_str(), 0777); mkdir(rdir.c_str(), 0777);
    std::set<std::string> seen;
    int fresh = 0, reported = 0;
    for (uint64_t i = 0; i < MAXV; ++i) {
        if (!S->viol[i].ready) continue;
        std::string key = S->viol[i].key;
        if (!seen.insert(key).second) continue;
        std::string one = key.substr(0, key.find('\n'));
        ++fresh;
        if (reported >= (getenv("VF_ALL") ? 64 : 10)) continue;
        std::string path = cat(rdir, "/", o.id, "-", getenv("VF_PART") ? getenv("VF_PART") : "", reported++, ".txt");
        std::ofstream f(path);
        f << "property: " << o.id << "\nkey: " << key << "\n" << S->viol[i].text << "\nrerun: VERIF_VERBOSE=1 build/fast/" << o.id << " --tier " << o.tier << " --unit <unit above>\n";
        std::cout << "VIOLATION property=" << o.id << " replay=" << path << std::endl;
        std::cout << "  " << one.substr(0, 300) << std::endl;
    }
    json cov;
    cov["states"] = S->counters[STATES].load();
    cov["transitions"] = S->counters[TRANSITIONS].load();
    cov["traces_validated_against_impl"] = S->counters[TRACES].load();
    cov["checks_evaluated"] = S->counters[EVALS].load();
    if (S->counters[SKIPPED]) cov["cases_outside_the_property"] = S->counters[SKIPPED].load();
    for (auto& [k, v] : o.aux_names) cov[v] = S->counters[k].load();
    cov["exhaustive"] = !truncated;
    cov["phases"] = phases;
    cov["rule"] = o.rule;
    json samples = json::array();
    for (size_t i = 0; i < std::min<uint64_t>(S->nsample, MAXS); ++i) if (S->samples[i].ready) samples.push_back(S->samples[i].text);
    cov["samples"] = samples;
    json e;
    e["property"] = o.id; e["tier"] = o.tier;
    e["seed"] = getenv("VERIF_SEED") ? atoi(getenv("VERIF_SEED")) : 1;
    e["level"] = "model_checking";
    if (!o.part.empty()) { // the same check run against another build of the library
        std::ifstream f(rdir + "/" + o.id + o.part + ".json"); json p = json::parse(f, nullptr, false);
        if (p.is_object()) { cov[o.part_name] = p["coverage"]; fresh += p["violations"].get<int>(); for (auto k : {"states", "transitions", "traces_validated_against_impl", "checks_evaluated"}) cov[k] = cov[k].get<uint64_t>() + p["coverage"][k].get<uint64_t>(); if (!p["coverage"]["exhaustive"].get<bool>()) cov["exhaustive"] = false; }
        else fresh += 1, std::cout << "VIOLATION property=" << o.id << " replay=" << rdir << "\n  the part " << o.part << " did not finish" << std::endl;
    }
    e["coverage"] = cov;
    e["assumptions"] = o.assumptions;
    e["wall_s"] = now() - t0;
    e["violations"] = fresh;
    if (o.only_unit < 0 && !getenv("VF_ONLY")) { const char* part = getenv("VF_PART"); std::ofstream f(root() + "/evidence/" + (part ? "replay/" + o.id + part : o.id) + ".json"); f << e.dump(1, ' ', false, json::error_handler_t::replace) << std::endl; }
    std::cout << o.id << " [" << o.tier << "] states=" << cov["states"] << " transitions=" << cov["transitions"] << " traces=" << cov["traces_validated_against_impl"]
              << " checks=" << cov["checks_evaluated"] << (truncated ? " TRUNCATED" : "") << " violations=" << fresh << " wall=" << e["wall_s"] << "s" << std::endl;
    for (auto& p : phases) std::cout << "  " << p << std::endl;
    return fresh ? 1 : 0;
}

uint64_t hash_bytes(const void* p, size_t n, uint64_t h) {
    const unsigned char* c = static_cast<const unsigned char*>(p);
    for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ull; }
    return h ^ (h >> 29);
}
}
