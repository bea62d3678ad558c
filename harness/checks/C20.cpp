// C20: identifiers introduced by the compiler. Every short OpenQASM program, lattice-surgery program and database circuit through
// the command line, for every layout and S-gate option; the instructions the compiler added are told apart from the program's own.
#include "common/cli.hpp"
#include "common/fake_pq.hpp"
#include "common/runner.hpp"
#include <lsqecc/ls_instructions/ls_instructions_parse.hpp>
#include <map>
#include <set>

using namespace lsqecc;
using vf::cat;

namespace {
using S = std::string; using V = std::vector<S>;
// Every number used as a patch identifier in one line of the textual format, read without the code under test.
void mentioned(const S& line, std::set<PatchId>& ids)
{
    auto w = vf::words(line); if (w.size() < 2) return;
    auto num = [&](const S& s) { size_t i = 0; if (i < s.size() && s[i] == '-') ++i; S d; while (i < s.size() && isdigit((unsigned char)s[i])) d += s[i++]; if (!d.empty()) ids.insert((PatchId)std::stoull(d)); };
    for (size_t k = 1; k < w.size(); ++k) { if (k == 2 && w[0] == "Init") continue; S cur; for (char c : w[k] + ",") if (c == ',') { num(cur); cur.clear(); } else cur += c; }
}

struct Added { std::vector<std::pair<PatchId, bool>> v; }; // identifier, brought to life (else ended)

// Judges the output program. `own` holds the lines of the input program, `reserved` the identifiers that are taken.
void judge(vf::Ctx& c, const S& mode, const S& out, std::multiset<S> own, const std::set<PatchId>& reserved)
{
    std::set<PatchId> alive, ybound; std::istringstream is(out); S line; size_t temporaries = 0;
    auto introduce = [&](PatchId id, const S& l) {
        ++temporaries;
        if (reserved.count(id)) c.violation(cat(mode, ": a temporary patch takes an identifier of the program"), cat("identifier ", id, " of '", l, "' belongs to the program\noutput:\n", out));
        else if (alive.count(id)) c.violation(cat(mode, ": a temporary patch takes the identifier of another one still alive"), cat("identifier ", id, " of '", l, "'\noutput:\n", out));
        alive.insert(id);
    };
    while (std::getline(is, line)) {
        if (line.empty()) continue;
        LSInstruction i{};
        try { i = parse_ls_instruction(std::string_view(line)); } catch (const std::exception& e) { c.violation(cat(mode, ": the printed program cannot be read"), cat("line '", line, "': ", e.what(), "\noutput:\n", out)); return; }
        c.count(vf::TRANSITIONS);
        if (auto it = own.find(vf::cat(i)); it != own.end()) { own.erase(it); continue; }
        if (auto* p = std::get_if<PatchInit>(&i.operation)) introduce(p->target, line);
        else if (auto* m = std::get_if<MagicStateRequest>(&i.operation)) introduce(m->target, line);
        else if (auto* y = std::get_if<YStateRequest>(&i.operation)) { if (ybound.count(y->target)) { ybound.erase(y->target); alive.erase(y->target); } else { introduce(y->target, line); ybound.insert(y->target); } }
        else if (auto* b = std::get_if<BellPairInit>(&i.operation)) { introduce(b->side1, line); introduce(b->side2, line); }
        else if (auto* b = std::get_if<BellBasedCNOT>(&i.operation)) { introduce(b->side1, line); introduce(b->side2, line); alive.erase(b->side1); alive.erase(b->side2); }
        else if (auto* s = std::get_if<SinglePatchMeasurement>(&i.operation)) alive.erase(s->target);
        std::set<PatchId> ids = alive; uint64_t h = vf::hash_str(mode); for (auto a : ids) h = vf::hash_bytes(&a, sizeof a, h); c.state(h);
    }
    c.count(vf::AUX1, temporaries);
}

void run(vf::Ctx& c, const S& kind, const S& opts, const S& input, const std::multiset<S>& own, const std::set<PatchId>& reserved, bool pipe)
{
    c.begin(cat(kind, " ", opts, pipe ? " (input not rewindable)" : "", "\n", input)); c.count(vf::TRACES);
    auto r = vf::run_cli(opts + " --printlli before", input, pipe);
    if (!r.ok()) { c.count(vf::SKIPPED); return; }
    judge(c, kind, r.out, own, reserved);
}

const V LAYOUTS_QASM = {"-L compact", "-L compact_no_clogging", "-L edpc", "-L edpc --notwists", "-L edpc --local", "-L edpc --local --notwists", "-L edpc --local -P edpc", "-L edpc --condensed", "-L edpc --explicitfactories"};

S qasm(int n, const V& gates) { S s = cat("OPENQASM 2.0;\ninclude \"qelib1.inc\";\nqreg q[", n, "];\n"); for (auto& g : gates) s += g + "\n"; return s; }

void programs(const V& alphabet, int depth, const std::function<bool(const V&)>& f)
{ V p; std::function<bool(int)> rec = [&](int d) -> bool { if (!f(p)) return false; if (!d) return true; for (auto& a : alphabet) { p.push_back(a); if (!rec(d - 1)) return false; p.pop_back(); } return true; }; rec(depth); }
}

int main(int argc, char** argv)
{
    auto o = vf::parse_options("C20", argc, argv);
    o.rule = "Through the command line with --printlli: every OpenQASM program of up to 4 gates (5 thorough) over two and three qubits for nine layout/S-gate/locality options and both correction modes; every lattice-surgery program of up to 4 "
             "instructions (5 thorough) over several sets of declared identifiers, some naming identifiers nowhere declared, for four layouts, from rewindable and non-rewindable input; every database circuit of up to 3 gates. In the output the program's own lines are set "
             "aside; every identifier brought into being by the rest must be none the program mentions or declares, nor that of another temporary not yet measured or released.";
    o.assumptions = {"Identifiers below 2^32-1, the largest the format allows."};
    o.aux_names = {{vf::AUX1, "temporaries_introduced"}};
    bool q = o.quick();

    // OpenQASM
    for (int n : {1, 2, 3}) {
        V alpha; for (int i = 0; i < n; ++i) { alpha.push_back(cat("t q[", i, "];")); alpha.push_back(cat("s q[", i, "];")); if (i == 0) { alpha.push_back("h q[0];"); alpha.push_back("sdg q[0];"); alpha.push_back("tdg q[0];"); alpha.push_back("reset q[0];"); } for (int j = 0; j < n; ++j) if (i != j && (n == 2 || j == (i + 1) % n)) alpha.push_back(cat("cx q[", i, "],q[", j, "];")); }
        int depth = q ? 4 : 5;
        V opts; for (auto& l : LAYOUTS_QASM) for (auto& cc : V{"", " --cnotcorrections always"}) opts.push_back(l + cc);
        vf::explore(o, cat("openqasm-", n), opts.size() * alpha.size(), [&](vf::Ctx& c, uint64_t u) {
            auto& opt = opts[u % opts.size()]; auto& first = alpha[u / opts.size()]; std::set<PatchId> reserved; for (int i = 0; i < n; ++i) reserved.insert(i);
            programs(alpha, depth - 1, [&](const V& p) { V full{first}; full.insert(full.end(), p.begin(), p.end()); run(c, "openqasm", "-I qasm " + opt, qasm(n, full), {}, reserved, false); return !c.stop(); });
        });
    }
    // long repetitions: the same gate many times
    { V gates{"t q[0];", "s q[0];", "cx q[0],q[1];", "cz q[0],q[1];", "tdg q[1];", "sdg q[1];", "reset q[1];"};
      vf::explore(o, "openqasm-repeated", LAYOUTS_QASM.size() * gates.size() * gates.size(), [&](vf::Ctx& c, uint64_t u) {
        auto& opt = LAYOUTS_QASM[u % LAYOUTS_QASM.size()]; u /= LAYOUTS_QASM.size(); V p; for (int k = 0; k < (q ? 40 : 400); ++k) p.push_back(k % 3 == 2 ? gates[u / gates.size()] : gates[u % gates.size()]);
        run(c, "openqasm", "-I qasm " + opt, qasm(2, p), {}, {0, 1}, false);
      }); }

    // Lattice-surgery programs
    struct Decl { V ids; PatchId fresh[2]; };
    std::vector<Decl> decls{{{"0"}, {1, 2}}, {{"0", "1"}, {2, 3}}, {{"3"}, {4, 0}}, {{"5", "2"}, {6, 3}}, {{"1", "0", "7"}, {8, 9}}, {{"100"}, {101, 0}}, {{"0", "2"}, {1, 4}}, {{"4294967200"}, {0, 4294967201u}}};
    V lopts{"-L compact", "-L compact_no_clogging", "-L edpc", "-L edpc --notwists", "-L edpc --local", "-L edpc --local --notwists"};
    vf::explore(o, "instructions", decls.size() * lopts.size() * 2, [&](vf::Ctx& c, uint64_t u) {
        auto& d = decls[u % decls.size()]; auto& opt = lopts[u / decls.size() % lopts.size()]; bool pipe = u / decls.size() / lopts.size();
        S a = d.ids[0], b = d.ids.back(), f = cat(d.fresh[0]), g = cat(d.fresh[1]); S decl = "DeclareLogicalQubitPatches "; for (size_t i = 0; i < d.ids.size(); ++i) decl += (i ? "," : "") + d.ids[i];
        V alpha{"SGate " + a, "Init " + f + " |0>", "RequestMagicState " + f + " " + a, "RequestYState " + g + " " + b, "Init " + g + " |+> " + a + ":Z", "MultiBodyMeasure " + f + ":X," + b + ":Z", "MeasureSinglePatch " + f + " X",
                "BellPairInit " + f + " " + g + " " + a + ":Z," + b + ":X", "HGate " + b, "SGate " + b, "RotateSingleCellPatch " + g};
        if (a != b) alpha.push_back("BellBasedCNOT " + a + " " + b + " " + f + " " + g);
        programs(alpha, q ? (pipe ? 3 : 4) : (pipe ? 4 : 5), [&](const V& p) {
            S text = decl + "\n"; std::set<PatchId> reserved; mentioned(decl, reserved); std::multiset<S> own; bool has_s = false;
            for (auto& l : p) { text += l + "\n"; mentioned(l, reserved); has_s |= l[0] == 'S'; }
            if (!has_s) return !c.stop(); // nothing is introduced
            try { std::istringstream is(text); S l; while (std::getline(is, l)) own.insert(cat(parse_ls_instruction(std::string_view(l)))); } catch (const std::exception&) { c.count(vf::SKIPPED); return true; }
            run(c, "instructions", opt, text, own, reserved, pipe); return !c.stop();
        });
    });

    // database circuits (layer 0 holds the initialisations)
    { V lo{"-L compact", "-L edpc", "-L edpc --notwists", "-L edpc --local"}; std::vector<std::pair<int, double>> kinds{{29, 0}, {30, 0}, {27, 0}, {28, 0}, {19 - 1, 1}, {8, 1}, {7, 0.25}};
      vf::explore(o, "database", lo.size() * 3 * kinds.size(), [&](vf::Ctx& c, uint64_t u) {
        auto& opt = lo[u % lo.size()]; int n = 1 + u / lo.size() % 3; size_t k0 = u / lo.size() / 3; if (n == 1 && kinds[k0].first == 18) return;
        std::set<PatchId> reserved; for (int i = 0; i < n; ++i) reserved.insert(i);
        for (size_t k1 = 0; k1 < kinds.size(); ++k1) for (size_t k2 = 0; k2 < kinds.size(); ++k2) for (int qb = 0; qb < n; ++qb) {
            if (c.stop()) return; if (n == 1 && (kinds[k1].first == 18 || kinds[k2].first == 18)) continue;
            fakepq::reset(); fakepq::sql("CREATE TABLE layered_lscom(id INTEGER, type INTEGER, control_q INTEGER, target_q INTEGER, param REAL, layer INTEGER);");
            for (int i = 0; i < n; ++i) fakepq::sql(cat("INSERT INTO layered_lscom VALUES(", i, ",0,", i, ",-1,0,0);"));
            S desc; int layer = 1; for (size_t k : {k0, k1, k2}) { int cq = layer == 2 ? qb : n - 1, tq = kinds[k].first == 18 ? (cq + 1) % n : -1; fakepq::sql(cat("INSERT INTO layered_lscom VALUES(", n + layer, ",", kinds[k].first, ",", cq, ",", tq, ",", kinds[k].second, ",", layer, ");")); desc += cat("layer ", layer, ": type ", kinds[k].first, " on ", cq, " ", tq, "\n"); ++layer; }
            c.begin(cat("database ", opt, " ", n, " qubits\n", desc)); c.count(vf::TRACES);
            auto r = vf::run_cli("-I pandora --printlli before " + opt, ""); if (!r.ok()) { c.count(vf::SKIPPED); continue; }
            judge(c, "database", r.out, {}, reserved);
        }
      }); }
    return vf::finish(o);
}
