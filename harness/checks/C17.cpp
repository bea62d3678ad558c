// C17: every invocation ends with an honest outcome. Exhaustive enumeration of combinations of options, of corruptions of the input,
// of the point at which reading or writing fails, and of programs that cannot be carried out, through the real command line, in
// process and as a program of its own; each run happens in a process of its own, so that a crash or a hang is an outcome too.
#include "common/runner.hpp"
#include "common/cli.hpp"
#include "common/fake_pq.hpp"
#include <lsqecc/ls_instructions/ls_instructions_parse.hpp>
#include <nlohmann/json.hpp>
#include <algorithm>
#include <csignal>
#include <fcntl.h>
#include <filesystem>
#include <fstream>
#include <regex>
#include <set>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace vf; using S = std::string; using V = std::vector<S>; using json = nlohmann::json;

namespace {
S dir; int alarm_s = 20;
S read_file(const S& f) { std::ifstream i(f); return S(std::istreambuf_iterator<char>(i), {}); }

struct Outcome { CliResult r; S file; bool died = false; S how; double seconds = 0; bool failed() const { return died || r.threw || r.code != 0; } };
S show(const Outcome& o) { return cat(o.died ? o.how : o.r.threw ? "exception " + o.r.what : cat("exit ", o.r.code), "\n--- output\n", o.r.out.substr(0, 1500), "\n--- errors\n", o.r.err, "\n--- console\n", o.r.console.substr(0, 500), "\n--- file\n", o.file.substr(0, 500)); }
double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

S pack(const V& v) { S s; for (auto& x : v) s += cat(x.size(), " ") + x; return s; }
V unpack(const S& s) { V v; size_t p = 0; while (p < s.size()) { size_t e = s.find(' ', p); if (e == S::npos) break; size_t n = std::stoul(s.substr(p, e - p)); v.push_back(s.substr(e + 1, n)); p = e + 1 + n; } return v; }
// What f leaves behind, f being run in a child process
Outcome forked(const std::function<CliResult()>& f, int limit = 0)
{
    int p[2]; Outcome o; if (::pipe(p)) { o.died = true; return o; } double t0 = now(); fflush(nullptr); pid_t pid = fork();
    if (!pid) { close(p[0]); rlimit no_core{0, 0}; setrlimit(RLIMIT_CORE, &no_core); int n = open("/dev/null", O_WRONLY); dup2(n, 2); alarm(limit ? limit : alarm_s); auto r = f(); S s = pack({cat(r.code), r.threw ? "1" : "0", r.what, r.out, r.err, r.console}); size_t w = 0; while (w < s.size()) { ssize_t k = ::write(p[1], s.data() + w, s.size() - w); if (k <= 0) break; w += k; } _exit(0); }
    close(p[1]); S s; char b[65536]; ssize_t n; while ((n = read(p[0], b, sizeof b)) > 0) s.append(b, n); close(p[0]); int st; waitpid(pid, &st, 0); o.seconds = now() - t0;
    if (WIFSIGNALED(st)) { o.died = true; o.how = WTERMSIG(st) == SIGALRM ? "does not return" : cat("killed by signal ", WTERMSIG(st)); return o; }
    V v = unpack(s); if (v.size() != 6) { o.died = true; o.how = "left the process"; return o; }
    o.r.code = std::stoi(v[0]); o.r.threw = v[1] == "1"; o.r.what = v[2]; o.r.out = v[3]; o.r.err = v[4]; o.r.console = v[5]; return o;
}
Outcome cli(const S& args, const S& input, int limit = 0) { return forked([&] { return run_cli(args, input); }, limit); }

bool slices_ok(const S& s) { auto j = json::parse(s, nullptr, false); if (j.is_discarded() || !j.is_array()) return false; for (auto& sl : j) { if (!sl.is_array()) return false; for (auto& row : sl) if (!row.is_array() || row.size() != sl[0].size()) return false; if (sl.size() != j[0].size()) return false; } return true; }
V lines(const S& s) { V v; std::istringstream i(s); S l; while (std::getline(i, l)) v.push_back(l); return v; }
S stripped(S s) { while (!s.empty() && isspace((unsigned char)s.back())) s.pop_back(); size_t i = 0; while (i < s.size() && isspace((unsigned char)s[i])) ++i; return s.substr(i); }
V lli(const S& s) { V v; for (auto& l : lines(s)) if (!stripped(l).empty()) { lsqecc::parse_ls_instruction(std::string_view{l}); v.push_back(stripped(l)); } return v; }
bool dag_ok(const S& s) { S t = stripped(s); return t.find("digraph") == 0 && t.back() == '}' && std::count(t.begin(), t.end(), '{') == std::count(t.begin(), t.end(), '}'); }
const std::regex machine("^[0-9]+,[0-9]+,[0-9.e+-]+\n$"), progress("^(Slice count: [0-9]+\r)*LS Instructions read  [0-9]+\nSlices [0-9]+\nMade patch computation\\. Took [0-9.e+-]+s\\.\n$");

// Is what a successful run wrote what was asked for? "" when it is
struct Asked { bool dag = false, before = false, sliced = false, noslices = false, to_file = false, help = false; S format; };
S badly_formed(const Asked& a, const Outcome& o)
{
    if (a.help) return o.r.console.size() + o.r.out.size() ? "" : "no help is given";
    if (!o.r.console.empty()) return "something is written to standard output past the output stream";
    if (a.before || a.dag) { // what is printed goes to the output
        const S& s = o.r.out; if (a.dag && !a.before) return dag_ok(s) ? "" : "the graph is not well formed";
        if (a.dag) { if (dag_ok(s)) return ""; }
        try { lli(s); } catch (const std::exception& e) { return cat("the program printed cannot be read back: ", e.what()); } return ""; }
    const S& slices = a.to_file ? o.file : o.r.out;
    if (a.sliced) { S all = a.to_file ? o.file : o.r.out; try { for (auto& l : lines(all)) { if (l.empty() || l.find("LS Instructions read") == 0 || l.find("Slice") == 0 || l.find("Made") == 0) continue; (void)l; } } catch (...) { return "unreadable"; } return ""; }
    if (!a.noslices && !slices_ok(slices)) return "the slices are not a well formed array of lattices";
    if (a.noslices || a.to_file) {
        S f = a.format.empty() ? "progress" : a.format;
        if (f == "machine" && !std::regex_match(o.r.out, machine)) return "the machine readable summary is not well formed";
        if (f == "progress" && !std::regex_match(o.r.out, progress)) return "the summary is not well formed";
        if (f == "stats" && (o.r.out.find("LS Instructions read  ") == S::npos || o.r.out.find("Slices ") == S::npos)) return "the statistics are not well formed";
        if (f.find("noprogres") == 0 && a.noslices && !o.r.out.empty()) return "output although none was asked for";
    }
    return "";
}
S dishonest(const Asked& a, const Outcome& o)
{
    if (o.died) return o.how == "does not return" ? "an invocation does not return" : "an invocation crashes";
    if (o.r.threw) return o.r.what.empty() ? "an invocation fails without saying why" : "";
    if (o.r.code) return o.r.err.empty() ? "an invocation fails without saying why" : "";
    S w = badly_formed(a, o); return w.empty() ? "" : "success is reported but " + w;
}

// A sink that takes n characters and no more, a source that breaks off
struct FailingSink : std::streambuf { size_t left; bool refused = false; explicit FailingSink(size_t n) : left(n) {} int_type overflow(int_type c) override { if (!left) { refused = true; return traits_type::eof(); } --left; return traits_type::not_eof(c); } };
struct FailingSource : std::streambuf { S s; explicit FailingSource(S t) : s(std::move(t)) { setg(s.data(), s.data(), s.data() + s.size()); } int_type underflow() override { throw std::runtime_error("read error"); } };
CliResult run_cli_io(const S& args, std::istream& in, std::ostream& out)
{
    std::vector<const char*> argv{"lsqecc_slicer"}; auto w = words(args); for (auto& a : w) argv.push_back(a.c_str()); CliResult r; std::ostringstream err, con; auto* old = std::cout.rdbuf(con.rdbuf()); fill_stack();
    try { r.code = lsqecc::run_slicer_program((int)argv.size(), argv.data(), in, out, err); } catch (const std::exception& e) { r.threw = true; r.what = e.what(); }
    std::cout.rdbuf(old); r.err = err.str(); r.console = con.str(); return r;
}
CliResult run_cli_streams(const S& args, const S& text, std::ostream& out) { std::istringstream in(text); return run_cli_io(args, in, out); }
// The program as a process of its own. how: 0 reads everything, 1 standard output is full, 2 standard output is closed
struct Program { int status = 0; bool crashed = false; S out, err; };
Program spawn(const S& exe, const V& args, const S& text, int how)
{
    S id = cat(dir, "/p", getpid()), fi = id + "i", fo = id + "o", fe = id + "e"; std::ofstream(fi) << text; Program r; pid_t pid = fork();
    if (!pid) {
        rlimit no_core{0, 0}; setrlimit(RLIMIT_CORE, &no_core); signal(SIGPIPE, SIG_DFL); alarm(60); int i = open(fi.c_str(), O_RDONLY), e = open(fe.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); dup2(i, 0); dup2(e, 2);
        if (how == 2) close(1); else dup2(how == 1 ? open("/dev/full", O_WRONLY) : open(fo.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600), 1);
        for (int k = 3; k < 64; ++k) close(k); std::vector<char*> av{const_cast<char*>(exe.c_str())}; for (auto& a : args) av.push_back(const_cast<char*>(a.c_str())); av.push_back(nullptr); execv(exe.c_str(), av.data()); _exit(127); }
    int st; waitpid(pid, &st, 0); r.crashed = !WIFEXITED(st) || WEXITSTATUS(st) == 127; r.status = WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st); if (!how) r.out = read_file(fo); r.err = read_file(fe); for (auto& f : {fi, fo, fe}) ::unlink(f.c_str()); return r;
}

// ---- options
struct Setting { S text, tag; };
std::vector<std::vector<Setting>> groups()
{
    return {
        {{"-L compact", "L"}, {"-L compact_no_clogging", "L"}, {"-L edpc", "L edpc"}, {"-L nonsense", "L bad"}, {cat("-l ", dir, "/layout"), "l"}, {cat("-l ", dir, "/missing"), "l bad"}, {cat("-l ", dir), "l bad"}, {cat("-l ", dir, "/badlayout"), "l bad"}, {cat("-l ", dir, "/layout -L edpc"), "l L edpc bad"}, {cat("-l ", dir, "/layout -L compact"), "l L bad"}, {cat("-l ", dir, "/empty"), "l bad"}},
        {{"-P stream", ""}, {"-P wave", ""}, {"-P dag", "Pdag"}, {"-P edpc", "Pedpc"}, {"-P nonsense", "bad"}},
        {{"-r graph_search", ""}, {"-r graph_search_cached", "cached"}, {"-r nonsense", "bad"}},
        {{"-g djikstra", ""}, {"-g astar", ""}, {"-g boost", ""}, {"-g nonsense", "bad"}},
        {{"--printlli before", "before"}, {"--printlli", "before"}, {"--printlli sliced", "sliced"}, {"--printlli nonsense", "bad"}},
        {{"--printdag input", "dag"}, {"--printdag", "dag"}, {"--printdag processedlli", "dag"}, {"--printdag nonsense", "bad"}},
        {{cat("-o ", dir, "/@"), "o"}, {cat("-o ", dir, "/nowhere/out"), "o ofail"}, {cat("-o ", dir), "o ofail"}, {"-o /dev/full", "o ofail"}, {"--noslices", "noslices"}, {cat("-o ", dir, "/@ --noslices"), "o noslices"}},
        {{"-f progress", "f"}, {"-f noprogress", "f"}, {"-f machine", "f"}, {"-f stats", "f"}, {"-f nonsense", "f bad"}},
        {{"-t 1000", ""}, {"-t x", "bad"}, {"-t -1", "bad"}, {"-t 99999999999999999999999", "bad"}},
        {{"--cnotcorrections never", ""}, {"--cnotcorrections always", "corr"}, {"--cnotcorrections nonsense", "bad"}},
        {{"--numlanes 2", "edpconly lanes"}, {"--numlanes 1", "edpconly"}, {"--numlanes 0", "edpconly nolanes"}, {"--numlanes x", "edpconly bad"}},
        {{"--condensed 1", "edpconly condensed"}, {"--condensed 0", "edpconly"}, {"--condensed", "edpconly condensed"}},
        {{"--explicitfactories", "edpconly explicit"}},
        {{"--disttime 3", ""}, {"--disttime 1", "clogs"}, {"--disttime 0", "bad"}, {"--disttime x", "bad"}, {"--disttime -5", "bad"}},
        {{"--nostagger", ""}},
        {{"--local", "local"}},
        {{"--notwists", "notwists"}},
        {{"--op-ids", ""}},
        {{"--graceful", "graceful"}},
        {{"--port 5433", "port"}},
        {{cat("-i ", dir, "/missing"), "bad"}, {cat("-i ", dir), "bad"}, {cat("-i ", dir, "/empty"), "bad"}},
        {{"--help", "help"}, {"-h", "help"}},
        {{"--frobnicate", "bad"}, {"-x", "bad"}},
    };
}
struct Input { S args, text; bool good; S name; };
const S Q = "OPENQASM 2.0;\ninclude \"qelib1.inc\";\nqreg q[3];\n";
const S GOOD_LLI = "DeclareLogicalQubitPatches 0,1,2\nInit 5 |+> 1:X\nMultiBodyMeasure 0:Z,5:Z\nMultiBodyMeasure 5:X,1:X\nMeasureSinglePatch 5 Z\nHGate 1\nRequestMagicState 7 2\nMultiBodyMeasure 7:Z,2:Z\nMeasureSinglePatch 7 X\n";
const S GOOD_QASM = Q + "h q[0];\ncx q[0],q[1];\nt q[2];\ns q[1];\nx q[2];\ncx q[2],q[0];\n";
std::vector<Input> inputs()
{
    return {{"", GOOD_LLI, true, "program"}, {"-I qasm", GOOD_QASM, true, "circuit"}, {"-I qasm", Q + "h q[0];\nfrobnicate q[1];\n", false, "circuit with an unknown gate"}, {"-I qasm", Q + "h q[7];\n", false, "circuit with a qubit out of range"},
            {"-I lli", "DeclareLogicalQubitPatches 0,1\nHGate 0\nFrobnicate 1\n", false, "program with an unknown instruction"}, {"-I nonsense", GOOD_LLI, false, "unknown format"}, {"-I qasm", GOOD_LLI, false, "program read as a circuit"}, {"-I l", GOOD_QASM, false, "circuit read as a program"}, {"-I q", "", false, "empty circuit"}, {"", "", false, "empty program"}, {"-I p", "", false, "database without tables"}};
}
// What the documentation says about a combination
enum Verdict { MUST_SUCCEED, MUST_FAIL, EITHER };
Verdict verdict(const std::set<S>& t, const Input& in, Asked& a)
{
    auto has = [&](const char* s) { return t.count(s) > 0; };
    if (has("help") && !has("bad")) { a.help = true; return MUST_SUCCEED; }
    if (has("help")) { a.help = true; return EITHER; }
    a.dag = has("dag"); a.before = has("before"); a.sliced = has("sliced"); a.noslices = has("noslices"); a.to_file = has("o");
    if (has("bad") || !in.good) return MUST_FAIL;
    if (has("f") && !has("o") && !has("noslices")) return MUST_FAIL;
    if (has("edpconly") && !has("edpc")) return MUST_FAIL;
    if (has("port")) return MUST_FAIL; // "Only compatible with -I pandora"
    if (has("Pedpc") && (!has("edpc") || !has("local") || has("lanes") || has("nolanes"))) return a.dag ? EITHER : MUST_FAIL;
    if (has("notwists") && !has("edpc") && !has("l")) return a.dag ? EITHER : MUST_FAIL;
    if (has("ofail")) return (a.dag || a.before || a.sliced || has("noslices")) ? EITHER : MUST_FAIL;
    if (has("nolanes") || has("explicit") || has("clogs")) return EITHER;                                // may not fit
    if (has("local") && (in.args.empty() || has("corr") || !has("edpc"))) return EITHER;       // measurements between distant patches are not local
    if (has("cached") || has("Pdag")) return EITHER;                                         // known to give up on what would fit
    if (has("sliced") && has("dag")) return EITHER;
    if (has("graceful")) return EITHER;
    return MUST_SUCCEED;
}

void judge_options(Ctx& c, const std::vector<const Setting*>& chosen, const Input& in, bool embedded)
{
    S args = in.args; std::set<S> tags; Asked a;
    for (auto* s : chosen) { S t = s->text; size_t at = t.find("@"); if (at != S::npos) t.replace(at, 1, cat("out", getpid())); args += (args.empty() ? "" : " ") + t; for (auto& w : words(s->tag)) tags.insert(w); if (t.find("-f ") == 0) a.format = t.substr(3); }
    Verdict v = verdict(tags, in, a); S file = cat(dir, "/out", getpid()); c.begin(cat(args, "\n", in.name)); c.count(TRACES); c.count(TRANSITIONS); c.state(hash_str(args + in.text));
    std::error_code ec; std::filesystem::remove(file, ec); auto o = cli(args, in.text); if (a.to_file) o.file = read_file(file);
    auto say = [&](const S& k, const Outcome& x) { c.violation(k, cat("lsqecc_slicer ", args, "\ninput (", in.name, "):\n", in.text, "\n\n", show(x))); };
    S w = dishonest(a, o); if (!w.empty()) say(w, o);
    else if (v == MUST_FAIL && !o.failed()) { if (!(tags.count("graceful") && !in.good)) say("an invocation that cannot be carried out reports success", o); }
    else if (v == MUST_SUCCEED && o.failed()) say("a valid invocation fails", o);
    if (embedded) {
        std::filesystem::remove(file, ec);
        auto e = forked([&] { std::ostringstream con; auto* old = std::cout.rdbuf(con.rdbuf()); fill_stack(); S s = lsqecc::run_slicer_program_from_strings(args, in.text); std::cout.rdbuf(old); CliResult r; auto j = json::parse(s, nullptr, false); if (j.is_discarded()) { r.code = 0; r.out = s; return r; } r.code = j["exit_code"]; r.out = j["output"]; r.err = j["err"]; r.console = con.str(); return r; });
        if (a.to_file) e.file = read_file(file); c.count(TRACES);
        S w = dishonest(a, e); if (!w.empty()) say("embedded: " + w, e); else if (!o.died && !args.empty() && e.failed() != o.failed()) say("the embedding interface reports another outcome than the program", e);
    }
    // nothing of the program is missing from what was sliced
    if (!o.failed() && in.good && !a.dag && !a.before && !a.sliced && !a.help && !tags.count("local") && !tags.count("graceful") && !tags.count("o") && !tags.count("f")) {
        auto b = cli(args + " --printlli before", in.text), s = cli(args + " --printlli sliced", in.text); c.count(TRACES, 2);
        if (b.failed() || s.failed()) return say("a valid invocation fails", b.failed() ? b : s);
        std::multiset<S> done; S part; for (char ch : s.r.out) { if (ch == ';' || ch == '\n') { if (auto at = part.find(" ["); at != S::npos) part.resize(at); part = stripped(part); if (!part.empty()) done.insert(part); part.clear(); } else part += ch; }
        V want; try { want = lli(b.r.out); } catch (...) { return; } for (auto& l : want) { auto it = done.find(l); if (it == done.end()) { say(cat("success is reported but part of the program was not carried out"), s); break; } done.erase(it); }
    }
}

// ---- corrupted input
struct Doc { S args, text; bool layout; };
std::vector<Doc> documents()
{
    return {{"", "DeclareLogicalQubitPatches 0,1\nInit 5 |+> 0:Z\nMultiBodyMeasure 0:Z,-1:X\nMeasureSinglePatch 5 Z\n", false}, {"", "DeclareLogicalQubitPatches 0,1\nRequestMagicState 9 0\nRequestYState 8 1\nRotateSingleCellPatch 1\nBellPairInit 5 6 0:Z,1:X\n", false},
            {"-I qasm", "OPENQASM 2.0;\ninclude \"qelib1.inc\";\nqreg q[3];\nh q[0];\ncx q[0],q[1];\ncrz(pi/2) q[1],q[2]; // AncillaNextToTarget\n", false},
            {"-I qasm -l " + dir + "/corrupt", "QrQrA\nrrrrM\n11Y22\n", true}};
}
void judge_corruption(Ctx& c, const Doc& d, const S& text, const S& what)
{
    c.count(TRACES); c.count(TRANSITIONS); c.state(hash_str(cat(d.args, text))); S args = d.args, input = text;
    if (d.layout) { S f = cat(dir, "/corrupt", getpid()); std::ofstream(f) << text; args = cat("-I qasm -l ", f); input = Q + "h q[0];\ncx q[1],q[0];\n"; if (text.find('Q') == text.rfind('Q')) input = "OPENQASM 2.0;\nqreg q[1];\nh q[0];\n"; }
    c.begin(cat(args, "\n", what, "\n", text));
    auto say = [&](const S& k, const Outcome& x) { c.violation(k, cat("lsqecc_slicer ", args, "\n", what, ":\n", text, "\n\n", show(x))); };
    auto o = cli(args, input); S w = dishonest({}, o); if (!w.empty()) return say(w, o);
    if (d.layout) return;
    Asked b; b.before = true; auto p = cli(args + " --printlli before", input); w = dishonest(b, p); if (!w.empty()) return say(w, p);
    if (p.failed() && !o.failed()) say("input that cannot be printed is sliced", o);
    if (p.failed() || !d.args.empty()) return;
    size_t n = 0; for (auto& l : lines(text)) { S t = stripped(l); if (!t.empty() && t[0] != '#') ++n; }
    size_t got = lines(p.r.out).size(); if (got < n && n - got > 1) say("part of the program is dropped without an error", p);
}

// ---- programs that may not fit
const V IDS = {"0", "1", "5", "9"};
struct Ins { S text; V uses, makes, frees; };
// Where a new patch goes is a wish about a neighbour, which may be in the middle of being measured
bool near_only(const S& t) { return t.find("Init ") == 0 || t.find("Request") == 0; }
std::vector<Ins> instructions()
{
    std::vector<Ins> v;
    for (auto i : {"0", "1", "5", "9"}) { S s = i; v.push_back({"MeasureSinglePatch " + s + " Z", {s}, {}, {s}}); v.push_back({"HGate " + s, {s}, {}, {}}); v.push_back({"RotateSingleCellPatch " + s, {s}, {}, {}}); v.push_back({"Init " + s + " |0>", {}, {s}, {}}); v.push_back({"Init 5 |+> " + s + ":Z", {s}, {"5"}, {}}); v.push_back({"RequestMagicState 5 " + s, {s}, {"5"}, {}}); v.push_back({"SGate " + s, {s}, {}, {}}); v.push_back({"RequestYState 5 " + s, {s}, {}, {}}); }
    for (auto [a, b] : std::vector<std::pair<S, S>>{{"0", "1"}, {"0", "5"}, {"1", "9"}, {"0", "0"}}) { v.push_back({cat("MultiBodyMeasure ", a, ":Z,", b, ":Z"), {a, b}, {}, {}}); v.push_back({cat("MultiBodyMeasure ", a, ":X,", b, ":Z"), {a, b}, {}, {}}); }
    v.push_back({"BellPairInit 5 6 0:Z,1:Z", {"0", "1"}, {"5", "6"}, {}}); v.push_back({"BellPairInit 5 6 0:Z,9:Z", {"0", "9"}, {"5", "6"}, {}}); v.push_back({"MultiBodyMeasure 0:Z,1:Z,5:X", {}, {}, {}}); v.push_back({"DeclareLogicalQubitPatches 2", {}, {}, {}});
    return v;
}
}

int main(int argc, char** argv)
{
    auto o = parse_options("C17", argc, argv); bool q = o.quick(); signal(SIGPIPE, SIG_IGN);
    { S t = (std::filesystem::temp_directory_path() / "lsqecc-c17-XXXXXX").string(); if (!mkdtemp(t.data())) return 3; dir = t; }
    std::ofstream(dir + "/layout") << "QrQrQ\nrrrrr\nArYrA\nrrrrr\n0r1r2\n"; std::ofstream(dir + "/badlayout") << "QrQ\nr?r\n"; std::ofstream(dir + "/empty");
    auto G = groups(); auto IN = inputs(); std::vector<std::pair<size_t, const Setting*>> all; for (size_t g = 0; g < G.size(); ++g) for (auto& s : G[g]) all.push_back({g, &s});
    o.assumptions = {"A failure status with a message, or an exception with a message, is a diagnostic; the program itself is also run as a separate process, where an exception that leaves main is a crash."};
    o.rule = "";
    explore(o, "one option", all.size() + 1, [&](Ctx& c, uint64_t u) { for (auto& in : IN) judge_options(c, u ? std::vector<const Setting*>{all[u - 1].second} : std::vector<const Setting*>{}, in, true); });
    explore(o, "two options", all.size() * all.size(), [&](Ctx& c, uint64_t u) {
        auto [g, a] = all[u / all.size()]; auto [h, b] = all[u % all.size()]; if (g >= h) return;
        for (size_t i = 0; i < (q ? 2 : IN.size()); ++i) judge_options(c, {a, b}, IN[i], false);
    });
    if (!q) explore(o, "three options", all.size() * all.size(), [&](Ctx& c, uint64_t u) {
        auto [g, a] = all[u / all.size()]; auto [h, b] = all[u % all.size()]; if (g >= h) return;
        for (auto& [k, d] : all) if (k > h) for (size_t i = 0; i < 2; ++i) judge_options(c, {a, b, d}, IN[i], false);
    });
    auto D = documents(); std::vector<std::tuple<size_t, size_t>> places; for (size_t d = 0; d < D.size(); ++d) for (size_t i = 0; i <= D[d].text.size(); ++i) places.push_back({d, i});
    explore(o, "corrupted input", places.size(), [&](Ctx& c, uint64_t u) {
        auto [d, i] = places[u]; const S& t = D[d].text; judge_corruption(c, D[d], t.substr(0, i), "cut short");
        S alphabet = D[d].layout ? "QrAMYX19 \n?" : q ? "9-, \n:;" : "019-, \n:;|/[](Zq\t\x01";
        if (i < t.size()) judge_corruption(c, D[d], t.substr(0, i) + t.substr(i + 1), "a character is missing");
        for (char ch : alphabet) { judge_corruption(c, D[d], t.substr(0, i) + ch + t.substr(i), "a character is added"); if (i < t.size() && t[i] != ch) judge_corruption(c, D[d], t.substr(0, i) + ch + t.substr(i + 1), "a character is changed"); }
    });
    auto I = instructions(); std::vector<S> lay = {"", "-L edpc", "-L compact_no_clogging", "-L edpc --local", "-l one", "-l row", "-l tight"}; std::ofstream(dir + "/one") << "Qr\nrr\n"; std::ofstream(dir + "/row") << "QrQA\n"; std::ofstream(dir + "/tight") << "QQA\nrr0\n";
    auto unfit = [&](Ctx& c, const std::vector<size_t>& which, const V& lay, const V& modes) {
        std::vector<const Ins*> p; for (size_t k : which) if (k < I.size()) p.push_back(&I[k]);
        S text = "DeclareLogicalQubitPatches 0,1\n"; std::set<S> exist{"0", "1"}, ever; bool impossible = false, odd = false;
        for (auto* i : p) { text += i->text + "\n"; ever.insert(exist.begin(), exist.end()); for (auto& s : i->uses) if (!exist.count(s) && !(near_only(i->text) && ever.count(s)) && !(i->text.find("RequestYState 5") == 0 && exist.count("5"))) impossible = true; for (auto& s : i->makes) if (!exist.insert(s).second) odd = true; for (auto& s : i->frees) exist.erase(s); if (i->text.find("RequestYState 5") == 0) { if (exist.count("5")) exist.erase("5"); else exist.insert("5"); } }
        for (auto& l : lay) for (auto& m : modes) {
            S args = l.find("-l ") == 0 ? cat("-l ", dir, "/", l.substr(3)) : l; args += (args.empty() ? "" : " ") + S(m); c.begin(cat(args, "\n", text)); c.count(TRACES); c.count(TRANSITIONS); c.state(hash_str(args + text));
            auto r = cli(args, text); auto say = [&](const S& k) { c.violation(k, cat("lsqecc_slicer ", args, "\n", text, "\n", show(r))); };
            S w = dishonest({}, r); if (!w.empty()) { say(w); continue; }
            bool graceful = S(m).find("graceful") != S::npos; if (graceful) continue;
            if (!r.failed() && (impossible || odd || l == "-l one")) say("a program that cannot be carried out reports success");
        }
    };
    explore(o, "programs that may not fit", (I.size() + 1) * (I.size() + 1), [&](Ctx& c, uint64_t u) {
        size_t x = u / (I.size() + 1), y = u % (I.size() + 1); if (x == I.size() && y != I.size()) return; unfit(c, {x, y}, lay, {"-P stream", "-P wave", "-P dag", "-P wave --graceful"});
    });
    if (!q) explore(o, "longer programs that may not fit", I.size() * I.size(), [&](Ctx& c, uint64_t u) {
        for (size_t z = 0; z < I.size(); ++z) unfit(c, {u / I.size(), u % I.size(), z}, {"", "-l tight"}, {"-P stream", "-P wave"});
    });

    // ---- different spellings of one request, together with every other option
    struct Alias { S a, b; }; std::vector<Alias> alias = {{"", "-P stream"}, {"", "-r graph_search"}, {"", "-g djikstra"}, {"", "-L compact"}, {"", "--disttime 10"}, {"", "--cnotcorrections never"}, {"", "-t 100000"}, {"--printlli", "--printlli before"}, {"--printdag", "--printdag input"}, {"-L edpc --condensed", "-L edpc --condensed 1"}, {"-L edpc", "-L edpc --condensed 0"}, {"-L edpc", "-L edpc --numlanes 1"}, {"", "-i @"}, {"", "--input @"}, {"-P wave", "--pipeline wave"}, {"-g astar", "--graph-search astar"}, {"-L edpc", "--layoutgenerator edpc"}, {cat("-l ", dir, "/layout"), cat("--layout ", dir, "/layout")}, {"-r graph_search_cached", "--router graph_search_cached"}};
    explore(o, "spellings of one request", alias.size() * (all.size() + 1), [&](Ctx& c, uint64_t u) {
        auto& al = alias[u / (all.size() + 1)]; size_t k = u % (all.size() + 1); S extra = k ? all[k - 1].second->text : ""; S e0 = extra.substr(0, extra.find(' ')); if (extra.find('@') != S::npos || (k && all[k - 1].second->tag == "port")) return;
        static const std::map<S, S> full{{"-P", "--pipeline"}, {"-r", "--router"}, {"-g", "--graph-search"}, {"-L", "--layoutgenerator"}, {"-l", "--layout"}, {"-i", "--input"}, {"-t", "--timeout"}}; for (auto& t : {al.a, al.b}) for (auto& w : words(t)) if (!e0.empty() && (w == e0 || (full.count(e0) && w == full.at(e0)))) return; // given twice
        if ((e0 == "-l" || e0 == "--layout") && al.b.find("-L") != S::npos) return; if (e0 == "-f" && extra != "-f machine") return;
        S f = cat(dir, "/in", getpid());
        for (size_t n = 0; n < 2; ++n) for (auto& in0 : {IN[n]}) {
            S b = al.b; bool file = b.find('@') != S::npos; if (file) { b.replace(b.find('@'), 1, f); std::ofstream(f) << in0.text; }
            auto join = [](std::initializer_list<S> v) { S r; for (auto& x : v) if (!x.empty()) r += (r.empty() ? "" : " ") + x; return r; }; S A = join({in0.args, extra, al.a}), B = join({in0.args, extra, b}); c.begin(cat(A, " / ", B)); c.count(TRACES); c.count(TRANSITIONS); c.state(hash_str(A + B + in0.name));
            auto x = cli(A, in0.text), y = cli(B, file ? "" : in0.text); auto plain = [](S t) { t = std::regex_replace(t, std::regex("Took [0-9.e+-]+s|Time: [^\n]*|,[0-9.e+-]+\n$"), ""); return t; };
            bool timed = extra.find("stats") != S::npos; if (x.failed() != y.failed() || (!timed && plain(x.r.out) != plain(y.r.out))) c.violation("two spellings of one request differ", cat("lsqecc_slicer ", A, "\n", show(x), "\n\nlsqecc_slicer ", B, "\n", show(y), "\n\n", in0.text)); std::error_code ec; std::filesystem::remove(f, ec); }
    });

    // ---- reading and writing that fails at every point
    struct Job { S args, text; }; std::vector<Job> jobs; for (auto& f : {"", " -P wave", " --printlli before", " --printlli sliced", " --printdag input", " --printdag processedlli", " --noslices -f machine", " --noslices -f stats", " --noslices", " --graceful"}) { jobs.push_back({S("-I qasm") + f, GOOD_QASM}); jobs.push_back({f, GOOD_LLI}); }
    jobs.push_back({"-I qasm -L edpc --local -P edpc", GOOD_QASM}); jobs.push_back({"-I qasm -L edpc", GOOD_QASM});
    explore(o, "writing fails", jobs.size(), [&](Ctx& c, uint64_t u) {
        auto& j = jobs[u]; auto whole = cli(j.args, j.text); size_t n = whole.r.out.size(); auto say = [&](const S& k, size_t at, const Outcome& x) { c.violation(k, cat("lsqecc_slicer ", j.args, "\nwriting fails after ", at, " of ", n, " characters\n", show(x))); };
        if (whole.failed()) return say("a valid invocation fails", n, whole);
        bool to_file = j.args.find("print") == S::npos || j.args.find("sliced") != S::npos; if (j.args.find("noslices") != S::npos) to_file = false;
        size_t step = n < 3000 ? 1 : q ? n / 300 : n / 3000 + 1;
        for (size_t at = 0; at < n; at = at + step >= n && at + 1 < n ? (at + 40 < n ? n - 40 : at + 1) : at + step) {
            c.begin(cat(j.args, "\nwriting fails after ", at)); c.count(TRACES); c.count(TRANSITIONS); c.state(hash_str(cat(u, "w", at)));
            auto x = forked([&] { FailingSink sink(at); std::ostream out(&sink); auto r = run_cli_streams(j.args, j.text, out); r.out = sink.refused ? "(the output refused characters)" : ""; return r; });
            S w = x.died ? dishonest({}, x) : ""; if (!w.empty()) { say(w, at, x); break; } if (!x.failed() && x.r.out.empty()) continue; /* the time taken is shorter this time */ if (!x.failed()) { say("output that could not be written is reported as a success", at, x); break; } if (!x.r.threw && x.r.err.empty()) { say("an invocation fails without saying why", at, x); break; }
            if (!to_file || at % 7) continue; // a file that cannot grow
            S f = cat(dir, "/small", getpid()); x = forked([&] { signal(SIGXFSZ, SIG_IGN); rlimit l{at, at}; setrlimit(RLIMIT_FSIZE, &l); return run_cli(cat(j.args, " -o ", f), j.text); }); std::error_code ec; size_t got = std::filesystem::exists(f) ? std::filesystem::file_size(f, ec) : 0; std::filesystem::remove(f, ec); c.count(TRACES);
            if (x.died || (!x.failed() && got < n)) { say(x.died ? dishonest({}, x) : "output that could not be written is reported as a success", at, x); break; }
        }
    });
    explore(o, "reading fails", 2, [&](Ctx& c, uint64_t u) {
        for (auto& extra : {"", " --printlli before", " --printdag input", " -P wave", " --graceful"}) {
            S args = cat(u ? "-I qasm" : "", extra), text = u ? GOOD_QASM : GOOD_LLI;
            for (size_t at = 0; at < text.size(); ++at) for (bool throws : {false, true}) {
                if (!throws) continue; c.begin(cat(args, "\nreading fails after ", at)); c.count(TRACES); c.count(TRANSITIONS); c.state(hash_str(cat(args, "r", at)));
                auto x = forked([&] { FailingSource src(text.substr(0, at)); std::istream in(&src); std::ostringstream out; auto r = run_cli_io(args, in, out); r.out = out.str(); return r; });
                if (x.died) c.violation(dishonest({}, x), cat("lsqecc_slicer ", args, "\nreading fails after ", at, " characters\n", show(x)));
                else if (!x.failed() && S(extra) != " --graceful") c.violation("a program that could not be read to its end is reported as a success", cat("lsqecc_slicer ", args, "\nreading fails after ", at, " characters\n", show(x)));
            }
        }
    });
    // ---- time limits
    S loop; for (int i = 0; i < 30000; ++i) loop += i % 2 ? "HGate 0\n" : "RotateSingleCellPatch 0\n"; S longlli = "DeclareLogicalQubitPatches 0,1\n" + loop;
    explore(o, "time limit", 16, [&](Ctx& c, uint64_t u) {
        S mode = (u & 1) ? "-P wave" : "-P stream", extra = (u & 2) ? " --graceful" : "", out = (u & 4) ? " --noslices -f machine" : ""; int t = (u & 8) ? 1 : 0; S args = cat(mode, extra, out, " -t ", t);
        c.begin(cat(args, "\na long program")); c.count(TRACES); c.count(TRANSITIONS); auto x = cli(args, longlli, 60);
        auto say = [&](const S& k) { c.violation(k, cat("lsqecc_slicer ", args, "\n30000 instructions on one patch\ntook ", x.seconds, " s\n", show(x))); };
        Asked a; a.noslices = !out.empty(); if (a.noslices) a.format = "machine"; S w = dishonest(a, x); if (!w.empty()) return say(w);
        if (extra.empty() && !x.failed() && x.seconds > t + 15) say("the time limit is not kept");
        if (x.seconds > t + 30) say("the time limit is not kept");
        if (t == 0 && extra.empty() && !x.failed()) say("the time limit is not kept");
    });
    // ---- the program itself
    S exe = "build/fast/lsqecc_slicer"; std::vector<std::pair<S, S>> runs; for (auto& [g, s] : all) if (s->text.find("@") == S::npos) for (auto& in : IN) if (s->tag != "port") runs.push_back({cat(in.args, " ", s->text), in.text}); for (auto& in : IN) runs.push_back({in.args, in.text}); runs.push_back({"-P wave", "DeclareLogicalQubitPatches 0,1\nHGate 7\n"}); runs.push_back({"", "DeclareLogicalQubitPatches 0,1\nHGate 7\n"}); runs.push_back({"-t 0", longlli});
    explore(o, "as a program", runs.size(), [&](Ctx& c, uint64_t u) {
        auto& [args, text] = runs[u]; c.begin(cat("lsqecc_slicer ", args, "\n", text.substr(0, 300))); if (args.find("-I p") != S::npos) return; auto in_process = cli(args, text); auto p = spawn(exe, words(args), text, 0); c.count(TRACES); c.count(TRANSITIONS); c.state(hash_str(cat("x", args, text)));
        auto say = [&](const S& k, const Program& x) { c.violation(k, cat("lsqecc_slicer ", args, "\n", text.substr(0, 300), "\nstatus ", x.status, x.crashed ? " crashed" : "", "\n--- stdout\n", x.out.substr(0, 500), "\n--- stderr\n", x.err.substr(0, 500), "\n\nin process: ", show(in_process))); };
        if (p.crashed) return say("the program crashes", p); if ((p.status != 0) != in_process.failed()) return say("the exit status is not the outcome", p); if (p.status && p.err.empty()) return say("the program fails without saying why", p);
        if (!p.status && (args.find("graceful") != S::npos || true) && args.find("print") == S::npos && args.find("-h") == S::npos && args.find("--help") == S::npos && args.find("noslices") == S::npos && args.find("-o ") == S::npos && !slices_ok(p.out)) say("success is reported but what is on the standard output is not well formed", p);
        // standard output that cannot be written, or is closed
        for (int how : {1, 2}) if (!p.status && !p.out.empty() && args.find("-o ") == S::npos) { auto f = spawn(exe, words(args), text, how); c.count(TRACES); if (f.crashed) say("the program crashes", f); else if (!f.status && args.find("help") == S::npos && args.find("-h") == S::npos) say("output that could not be written is reported as a success", f); }
    });
    o.rule = cat("Every option with every class of input and every pair of options (", all.size(), " settings of ", G.size(), " options); every one-character corruption and every truncation of ", D.size(), " inputs; every program of up to two instructions over ", I.size(), " instructions, with existing, missing and reused patches, on ", lay.size(), " layouts and in every pipeline; "
                 "every position at which writing or reading can fail; time limits; every single option again with the program run as a process of its own, also with standard output closed or full. Each run is an execution in a process of its own, judged by its outcome. A state is an invocation.");
    int rc = finish(o); std::filesystem::remove_all(dir); return rc;
}
