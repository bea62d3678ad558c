// C16: the result of a compilation is a function of its input and options. Every job is run in a fresh process; then every ordered
// pair (and triple) of jobs in one process, every job under different contents of uninitialised memory, and through every way of
// handing the input over; the last job's result must always be the fresh one.
#include "common/runner.hpp"
#include "common/cli.hpp"
#include "common/fake_pq.hpp"
#include <nlohmann/json.hpp>
#include <filesystem>
#include <fstream>
#include <malloc.h>
#include <regex>
#include <sys/wait.h>
#include <unistd.h>
using vf::cat; using S = std::string;

namespace {
S dir; int alarm_s = 15, alarm_many = 200;
struct Job { S args, input; };
S shown(const Job& j) { return cat("lsqecc_slicer ", j.args, "\n", j.input); }
// Times differ from run to run
S timeless(S s)
{
    static const std::regex took("Took [0-9.e+-]+s"), machine("^([0-9]+,[0-9]+),[0-9.e+-]+"); return std::regex_replace(std::regex_replace(s, took, "Took s"), machine, "$1,");
}
S text(const vf::CliResult& r, const S& file = "")
{
    S f; if (!file.empty()) { std::ifstream i(file); f.assign(std::istreambuf_iterator<char>(i), {}); }
    return cat("exit ", r.threw ? S("exception ") + r.what : std::to_string(r.code), "\n--- output\n", timeless(r.out), "--- errors\n", r.err, "--- console\n", r.console, "--- file\n", f);
}
// the database the job names
void database(const Job& j)
{
    if (j.args.find("pandora") == S::npos) return; fakepq::reset(); if (j.input.find("db:") != 0) return;
    fakepq::sql("CREATE TABLE layered_lscom(id INTEGER, type INTEGER, control_q INTEGER, target_q INTEGER, param REAL, layer INTEGER);");
    std::istringstream in(j.input.substr(3)); S row; int id = 0; while (std::getline(in, row, ';')) fakepq::sql(cat("INSERT INTO layered_lscom VALUES(", id++, ",", row, ");"));
}
S run(const Job& j, bool pipe = false) { database(j); return text(vf::run_cli(j.args, j.input, pipe)); }

// Runs f in a forked child; what it returns, or how it died
S forked(const std::function<S()>& f, int seconds = 0)
{
    int p[2]; if (::pipe(p)) return "pipe failed"; pid_t pid = fork();
    if (!pid) { close(p[0]); alarm(seconds ? seconds : alarm_s); S s = f(); size_t o = 0; while (o < s.size()) { ssize_t n = ::write(p[1], s.data() + o, s.size() - o); if (n <= 0) break; o += n; } _exit(0); }
    close(p[1]); S s; char b[65536]; ssize_t n; while ((n = read(p[0], b, sizeof b)) > 0) s.append(b, n); close(p[0]); int st; waitpid(pid, &st, 0);
    if (WIFSIGNALED(st)) s += cat("killed by signal ", WTERMSIG(st)); return s;
}
S hash(const S& s) { return cat(vf::hash_str(s), ":", s.size()); }
S first_difference(const S& a, const S& b) { size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) ++i; size_t f = i > 120 ? i - 120 : 0; return cat("fresh: ...", a.substr(f, 300), "\n\nhere: ...", b.substr(f, 300)); }

std::vector<Job> jobs()
{
    S q = "OPENQASM 2.0;\ninclude \"qelib1.inc\";\nqreg q[3];\n";
    S a = q + "h q[0];\ncx q[0],q[1];\ncx q[2],q[1];\n", b = q + "t q[0];\ns q[1];\nh q[2];\ncx q[1],q[2];\n", c = q + "crz(pi/2) q[0],q[1];\nrz(pi/4) q[2];\nz q[0];\nreset q[1];\n", clifford = q + "h q[0];\ncx q[0],q[1];\ncx q[2],q[1]; // AncillaNextToTarget\nx q[2];\n", bad = q + "h q[0];\nfrobnicate q[1];\n";
    S placed = q + "cx q[0],q[2]; // AncillaNextToTarget\n";
    S l = "DeclareLogicalQubitPatches 0,1\nInit 5 |+> 0:Z\nMultiBodyMeasure 0:Z,5:Z\nMultiBodyMeasure 5:X,1:X\nMeasureSinglePatch 5 Z\nHGate 1\n", m = "DeclareLogicalQubitPatches 0,1,2\nRequestMagicState 9 0\nMultiBodyMeasure 9:Z,0:Z\nMeasureSinglePatch 9 X\nSGate 2\nRotateSingleCellPatch 1\n", y = "DeclareLogicalQubitPatches 0,1\nRequestYState 8 0\nMultiBodyMeasure 8:Z,0:Z\nMeasureSinglePatch 8 X\n";
    for (auto& [name, art] : std::vector<std::pair<S, S>>{{"anc", "Qr0\nrrr\nArQ\n"}, {"three", "QrQrQ\nrrrrr\nrArAr\nrrrrr\n0r1r2\n"}, {"noanc", "QrQrQ\nrrrrr\nMrMrM\nrrrrr\n"}, {"ys", "QrQrQ\nrrrrr\nYrMrY\nrrrrr\nArArA\n"}}) std::ofstream(dir + "/" + name) << art;
    std::vector<Job> v;
    std::vector<S> gen = {"", "-L compact_no_clogging", "-L edpc", "-L edpc --local", "-L edpc --local -P edpc", "-L edpc --notwists", "-L edpc --notwists --local -P wave", "-L compact -P wave --op-ids", "-L edpc -P dag --op-ids", "-L edpc --numlanes 2 --condensed 1 --explicitfactories --disttime 3 --nostagger", "-L compact --noslices -f stats", "-L compact -r graph_search_cached -g astar", "-L edpc --cnotcorrections always", "-L compact --cnotcorrections always --op-ids"};
    for (auto& g : gen) for (auto& t : {a, b}) v.push_back({"-I qasm " + g, t});
    for (auto& g : {S(""), S("-L edpc"), S("-L edpc --local -P wave --op-ids"), S("--printlli before"), S("--printlli sliced -P wave"), S("--printdag input"), S("--printdag processedlli")}) for (auto& t : {c, placed}) if (t == c || g != "-L edpc") v.push_back({"-I qasm " + g, t}); // no place for an ancilla there
    for (auto& t : {a, b}) for (const char* p : {"--printlli before -L edpc", "--printlli before", "--printdag input", "--printlli sliced -L edpc --op-ids", "--graceful -L edpc", "--noslices -f machine", "-L edpc --notwists --printlli before"}) v.push_back({cat("-I qasm ", p), t});
    v.push_back({"-I qasm", bad}); v.push_back({"-I qasm -L edpc", bad}); v.push_back({"-I qasm --graceful", bad}); v.push_back({"-I qasm -L edpc --op-ids --timeout 0", a}); v.push_back({"-I qasm -t 0 --graceful", a}); v.push_back({"-I qasm -L nonsense", a}); v.push_back({"-I qasm -l /nonexistent/file", a}); v.push_back({"-I qasm -P edpc", a}); v.push_back({"--help", ""}); v.push_back({"--frobnicate", a}); v.push_back({"-I qasm", ""}); v.push_back({"", ""}); v.push_back({"-I qasm -L compact --notwists", a}); v.push_back({"-I qasm -f stats", a});
    for (auto& t : {l, m, y}) for (const char* p : {"", "-P wave --op-ids", "-P dag", "--op-ids", "-L edpc -P wave", "-L edpc --notwists", "--printlli sliced", "--printdag input", "--noslices -f stats -P wave"}) v.push_back({p, t});
    for (auto& f : {"three", "noanc", "ys"}) { for (auto& t : {l, m, y}) for (const char* p : {"", "-P wave --op-ids"}) v.push_back({cat("-l ", dir, "/", f, " -t 3000 ", p), t}); if (S(f) != "noanc") { v.push_back({cat("-I qasm -l ", dir, "/", f), clifford}); v.push_back({cat("-I qasm -l ", dir, "/", f, " -P wave --op-ids"), clifford}); } v.push_back({cat("-I qasm -l ", dir, "/", f, " --printlli before"), b}); }
    v.push_back({cat("-l ", dir, "/anc -P dag"), l}); v.push_back({cat("-l ", dir, "/anc"), l}); v.push_back({cat("-l ", dir, "/anc --op-ids -g boost"), l}); v.push_back({cat("-I qasm -l ", dir, "/ys --notwists"), b}); v.push_back({cat("-I qasm -l ", dir, "/noanc --notwists"), b});
    for (const char* d : {"db:0,0,-1,0,0;0,1,-1,0,0;8,0,-1,0,1;8,1,-1,0,1;18,0,1,0,2", "db:0,0,-1,0,0;0,1,-1,0,0;0,2,-1,0,0;29,0,-1,0,1;7,2,-1,0.3,1;18,1,0,0,2", ""}) { v.push_back({"-I pandora --printlli before", d}); v.push_back({"-I pandora -L edpc -P wave --op-ids", d}); }
    return v;
}
}

int main(int argc, char** argv)
{
    auto o = vf::parse_options("C16", argc, argv); bool q = o.quick();
    { S t = (std::filesystem::temp_directory_path() / "lsqecc-c16-XXXXXX").string(); if (!mkdtemp(t.data())) return 3; dir = t; }
    auto J = jobs(); size_t N = J.size();
    if (getenv("VF_LIST")) alarm_s = 2;
    // fresh results, written once and shared
    std::vector<S> fresh(N); for (size_t i = 0; i < N; ++i) fresh[i] = forked([&] { return run(J[i]); });
    if (getenv("VF_LIST")) { for (size_t i = 0; i < N; ++i) std::cout << i << " " << J[i].args << " | " << fresh[i].substr(0, fresh[i].find("\n---")) << (fresh[i].find("killed") != S::npos ? " HANGS" : "") << " " << fresh[i].size() << "\n"; return 0; }
    std::vector<S> want(N); for (size_t i = 0; i < N; ++i) want[i] = hash(fresh[i]);
    o.rule = cat("Compilation jobs: ", N, " combinations of input (circuits, lattice-surgery programs, database circuit; good, failing, malformed), layout, pipeline and options. Every job in a fresh process, with every filling of uninitialised stack and heap, through file, stream and pipe, and through the embedding interface; "
                 "every ordered pair of jobs and every ordered triple of ", q ? "24" : "90", " jobs in one process. A state is a job history, a transition one compilation, a trace one comparison with the fresh result.");
    o.assumptions = {"Reported times are not part of the result.", "A job's own timing cannot change its result (time limits used are 0 s or never reached)."};
    auto complain = [&](vf::Ctx& c, const S& key, const std::vector<size_t>& history, size_t b, const S& got) { S d = cat("history:\n"); for (auto h : history) d += shown(J[h]) + "\n"; c.violation(key, cat(d, "then:\n", shown(J[b]), "\n", first_difference(fresh[b], got))); };
    // what each history does to one more job: fork after the history, so that the history is exactly the named one
    auto after = [&](vf::Ctx& c, const std::vector<size_t>& history, size_t b) {
        c.count(vf::TRACES); c.count(vf::TRANSITIONS); c.state(vf::hash_str(cat(history.size(), ":", history.empty() ? 0 : history[0], ":", history.empty() ? 0 : history.back(), ":", b)));
        if (forked([&] { return hash(run(J[b])); }) != want[b]) complain(c, "a compilation's result depends on what was compiled before", history, b, forked([&] { return run(J[b]); }));
    };
    
    vf::explore(o, "fresh, repeated, uninitialised memory", N, [&](vf::Ctx& c, uint64_t u) {
        c.begin(shown(J[u]));
        if (fresh[u].find("killed by signal") != S::npos) c.violation("a job does not return", cat(shown(J[u]), "\n", fresh[u]));
        after(c, {}, u);
        for (int fill : {0, 1, 0x5a, 0xff}) for (int perturb : {0, 0x5a, 0xff}) {
            c.count(vf::TRACES); c.count(vf::TRANSITIONS); auto f = [&] { vf::stack_fill = fill; if (perturb) mallopt(M_PERTURB, perturb); return run(J[u]); };
            if (hash(forked(f)) != want[u]) { complain(c, "a compilation's result depends on uninitialised memory", {}, u, forked(f)); break; }
        }
        // the same job n times
        S got = forked([&] { for (int i = 0; i < 5; ++i) { S s = run(J[u]); if (hash(s) != want[u]) return s; } return S("same"); }); c.count(vf::TRANSITIONS, 5); c.count(vf::TRACES); if (got != "same") complain(c, "repeating a compilation changes its result", {u}, u, got);
        // other ways in: a pipe, a file, and the embedding interface
        if (J[u].args.find("pandora") != S::npos) return;
        bool needs_in = !J[u].input.empty(); S p = forked([&] { return run(J[u], true); }); c.count(vf::TRACES); if (needs_in && hash(p) != want[u]) complain(c, "reading the input from a pipe changes the result", {}, u, p);
        S in = cat(dir, "/in", getpid()); std::ofstream(in) << J[u].input; p = forked([&] { Job j{J[u].args + " -i " + in, ""}; return run(j); }); c.count(vf::TRACES); if (needs_in && hash(p) != want[u]) complain(c, "reading the input from a file changes the result", {}, u, p);
        if (!J[u].args.empty()) { S a; for (auto& w : vf::words(J[u].args)) a += (a.empty() ? "" : " ") + w; auto emb = [&] { std::ostringstream con; auto* old = std::cout.rdbuf(con.rdbuf()); vf::fill_stack(); S s = lsqecc::run_slicer_program_from_strings(a, J[u].input); std::cout.rdbuf(old); auto j = nlohmann::json::parse(s, nullptr, false); if (j.is_discarded()) return S("no answer"); int code = j["exit_code"]; vf::CliResult r; r.threw = code == 100; r.code = code; S err = j["err"]; if (r.threw) { S tag = "Compiler exception: "; size_t at = err.find(tag); if (at != S::npos) { r.what = err.substr(at + tag.size()); while (!r.what.empty() && r.what.back() == '\n') r.what.pop_back(); err = err.substr(0, at); } } r.err = err; r.out = j["output"]; r.console = con.str(); return text(r); };
            p = forked(emb); S w = fresh[u]; auto name = [](S s) { for (const char* n : {"slicer_from_strings", "lsqecc_slicer"}) { size_t at; while ((at = s.find(n)) != S::npos) s.replace(at, strlen(n), "@"); } while (!s.empty() && s.back() == '\n') s.pop_back(); return s; };
            c.count(vf::TRACES); auto trim = [&](S s) { static const std::regex nl("\n+--- output"); return name(std::regex_replace(s, nl, "\n--- output")); };
            if (trim(p) != trim(w)) complain(c, "the embedding interface changes the result", {}, u, p); }
        if (u % 17 == 3) c.sample(shown(J[u]));
    });
    vf::explore(o, "pairs", N, [&](vf::Ctx& c, uint64_t u) {
        c.begin(cat("after ", shown(J[u])));
        S res = forked([&] { run(J[u]); S bad; for (size_t b = 0; b < N; ++b) if (forked([&] { return hash(run(J[b])); }) != want[b]) bad += cat(b, " "); return "done " + bad; }, alarm_many);
        c.count(vf::TRACES, N); c.count(vf::TRANSITIONS, N + 1); c.count(vf::STATES, N); std::istringstream in(res); S d; size_t b; in >> d; if (d != "done") return c.violation("a job does not return", cat(shown(J[u]), "\n", res));
        while (in >> b) complain(c, "a compilation's result depends on what was compiled before", {u}, b, forked([&] { run(J[u]); return run(J[b]); }));
    });
    // triples: every job of the selection, spread over the list
    size_t T = std::min<size_t>(N, q ? 24 : 90); std::vector<size_t> pick; for (size_t i = 0; i < T; ++i) pick.push_back((i * 37 + 1) % N);
    vf::explore(o, "triples", T * T, [&](vf::Ctx& c, uint64_t u) {
        size_t a = pick[u / T], m = pick[u % T]; c.begin(cat("after ", shown(J[a]), "\nand ", shown(J[m])));
        S res = forked([&] { run(J[a]); run(J[m]); S bad; for (size_t b : pick) if (forked([&] { return hash(run(J[b])); }) != want[b]) bad += cat(b, " "); return "done " + bad; }, alarm_many);
        c.count(vf::TRACES, T); c.count(vf::TRANSITIONS, T + 2); c.count(vf::STATES, T); std::istringstream in(res); S d; size_t b; in >> d; if (d != "done") return c.violation("a job does not return", res);
        while (in >> b) complain(c, "a compilation's result depends on what was compiled before", {a, m}, b, forked([&] { run(J[a]); run(J[m]); return run(J[b]); }));
    });
    int rc = vf::finish(o); std::filesystem::remove_all(dir); return rc;
}
