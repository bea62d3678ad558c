// C18: circuits read from the database. Every short sequence of layer contents, in several physical row orders and layer
// numberings, read by the real gate source under several calling patterns, from a stand-in database server.
#include "common/cli.hpp"
#include "common/fake_pq.hpp"
#include "common/runner.hpp"
#include <lsqecc/gates/postgres_gate_stream.hpp>
#include <algorithm>
#include <map>
#include <set>

using namespace lsqecc;
using vf::cat;

namespace {
using S = std::string; using V = std::vector<S>;
struct Row { int type; long cq, tq; S param; std::set<S> gate; }; // gate: accepted readings, empty when the operation is not handled
struct Item { S name; std::vector<Row> rows; bool unsupported = false; };

S show(const gates::Gate& g)
{
    return std::visit([](const auto& x) -> S {
        using T = std::decay_t<decltype(x)>;
        if constexpr (std::is_same_v<T, gates::BasicSingleQubitGate>) { static const char* n[] = {"X", "Y", "Z", "S", "T", "H", "SDg", "TDg"}; (void)n;
            using K = gates::BasicSingleQubitGate::Type; S k = x.gate_type == K::X ? "x" : x.gate_type == K::Z ? "z" : x.gate_type == K::S ? "s" : x.gate_type == K::SDg ? "sdg" : x.gate_type == K::T ? "t" : x.gate_type == K::TDg ? "tdg" : x.gate_type == K::H ? "h" : "other"; return cat(k, " ", x.target_qubit); }
        else if constexpr (std::is_same_v<T, gates::ControlledGate>) {
            S k = "other"; QubitNum t = 0; if (auto* b = std::get_if<gates::BasicSingleQubitGate>(&x.target_gate)) { t = b->target_qubit; k = b->gate_type == gates::BasicSingleQubitGate::Type::X ? "cx" : b->gate_type == gates::BasicSingleQubitGate::Type::Z ? "cz" : "other"; }
            return cat(k, " ", x.control_qubit, " ", t); }
        else return "other";
    }, g);
}

std::vector<Item> items()
{
    auto one = [](S n, int t, long c, long q, S p, std::set<S> g) { return Item{n, {Row{t, c, q, p, g}}}; };
    std::vector<Item> v;
    v.push_back({"empty", {}});
    v.push_back(one("h 0", 8, 0, -1, "1", {"h 0"}));
    v.push_back(one("cx control 2 target 1", 18, 2, 1, "1", {"cx 2 1"}));
    v.push_back({"t 0, tdg 1, s 2", {{29, 0, -1, "NULL", {"t 0"}}, {30, 1, -1, "NULL", {"tdg 1"}}, {27, 2, -1, "NULL", {"s 2"}}}});
    v.push_back({"only ignored", {{1, 0, -1, "0", {}}, {14, 1, -1, "0", {}}, {13, 2, -1, "0", {}}}});
    v.push_back({"ignored and zpow", {{0, 2, -1, "0", {}}, {7, 0, -1, "-0.25", {"tdg 0"}}, {14, 1, -1, "0", {}}}});
    v.push_back({"x 0, z 1", {{9, 0, -1, "0", {"x 0"}}, {10, 1, -1, "0", {"z 1"}}}});
    v.push_back({"zpow -0.5 on 2, sdg 1", {{7, 2, -1, "-0.5", {"sdg 2"}}, {28, 1, -1, "0", {"sdg 1"}}}});
    // rarer ones
    v.push_back(one("zpow 0.25", 7, 1, -1, "0.25", {"t 1"}));
    v.push_back(one("zpow 0.5", 7, 1, -1, "0.5", {"s 1"}));
    v.push_back(one("zpow 1", 7, 1, -1, "1", {"z 1"}));
    v.push_back(one("zpow -1", 7, 0, -1, "-1.0", {"z 0"}));
    v.push_back(one("cx control 0 target 2", 18, 0, 2, "1", {"cx 0 2"}));
    v.push_back(one("cz", 17, 1, 2, "1", {"cx 1 2", "cz 1 2", "cz 2 1", "cx 2 1"}));
    v.push_back(one("in", 0, 0, -1, "0", {}));
    v.push_back(one("measure", 14, 0, -1, "0", {}));
    auto bad = [&](S n, int t, S p) { auto i = one(n, t, 0, 1, p, {}); i.unsupported = true; v.push_back(i); };
    bad("zpow 0.3", 7, "0.3"); bad("toffoli", 21, "1"); bad("swap", 31, "1"); bad("unknown type", 77, "1"); bad("rz", 4, "0.25");
    return v;
}
const int COMMON = 8; // the first ones make up long circuits

struct Table { std::vector<std::pair<long, Row>> rows; }; // layer, row

void load(const Table& t, int order, int qubits)
{
    fakepq::reset();
    fakepq::sql("CREATE TABLE layered_lscom(id INTEGER, type INTEGER, control_q INTEGER, target_q INTEGER, param REAL, layer INTEGER);");
    V ins; int id = 0;
    for (int i = 0; i < qubits; ++i) ins.push_back(cat("(", id++, ",0,", i, ",-1,0,0)"));
    for (auto& [l, r] : t.rows) ins.push_back(cat("(", id++, ",", r.type, ",", r.cq, ",", r.tq < 0 ? S("NULL") : cat(r.tq), ",", r.param, ",", l, ")"));
    if (order == 1) std::reverse(ins.begin(), ins.end());
    if (order == 2) { V w; for (size_t i = 0; i < ins.size(); i += 2) w.push_back(ins[i]); for (size_t i = 1; i < ins.size(); i += 2) w.push_back(ins[i]); ins = w; }
    S all = "INSERT INTO layered_lscom VALUES"; for (size_t i = 0; i < ins.size(); ++i) all += (i ? "," : "") + ins[i];
    if (!ins.empty()) fakepq::sql(all + ";");
}

void judge(vf::Ctx& c, const std::vector<std::pair<long, Item>>& layers, int order, int calls, int qubits)
{
    Table t; std::vector<std::vector<Row>> want; bool unsupported = false; S desc = cat("rows ", order == 0 ? "in order" : order == 1 ? "reversed" : "interleaved", ", calls ", calls, ", qubits ", qubits, "\n"); size_t in_rows = 0, total = 0;
    for (auto& [l, i] : layers) { desc += cat("layer ", l, ": ", i.name, "\n"); want.emplace_back(); for (auto& r : i.rows) { t.rows.emplace_back(l, r); in_rows += r.type == 0; if (!r.gate.empty()) { want.back().push_back(r); ++total; } } unsupported |= i.unsupported; }
    c.begin(desc); c.count(vf::TRACES); load(t, order, qubits);
    size_t li = 0, got = 0; std::vector<bool> used; S log;
    auto fail = [&](const S& k, const S& d) { c.violation(k, cat(d, "\n", desc, "gates read:", log)); };
    try {
        PandoraPostgresGateStream s("127.0.0.1", "5432", "postgres");
        if (s.get_qreg().size != qubits + in_rows) { fail("the register size is not the number of initialisations", cat(s.get_qreg().size)); return; }
        for (size_t guard = 0; guard < 200; ++guard) {
            bool more = true;
            if (calls != 2) { more = s.has_next_gate(); if (calls == 1) for (int k = 0; k < 2; ++k) if (s.has_next_gate() != more) { fail("asking whether there is another gate changes the answer", ""); return; } }
            else more = got < total || unsupported;
            if (!more) {
                if (got != total) { fail("the circuit ends before all its gates were read", cat(got, " of ", total)); return; }
                if (unsupported) { fail("an unsupported operation is passed over", ""); return; }
                for (int k = 0; k < 2; ++k) {
                    bool threw = false; try { auto g = s.get_next_gate(); log += " then " + show(g); } catch (const std::exception&) { threw = true; }
                    if (!threw) { fail("a gate is returned past the end", ""); return; }
                    if (s.has_next_gate()) { fail("there are gates again after the end", ""); return; }
                }
                return;
            }
            S g = show(s.get_next_gate()); log += " [" + g + "]"; c.count(vf::TRANSITIONS); ++got;
            while (li < want.size() && std::count(used.begin(), used.end(), true) == (long)want[li].size()) { ++li; used.clear(); }
            if (li >= want.size()) { fail("a gate is read that the database does not hold", g); return; }
            used.resize(want[li].size()); bool found = false;
            for (size_t k = 0; k < used.size() && !found; ++k) if (!used[k] && want[li][k].gate.count(g)) { used[k] = true; found = true; }
            if (!found) { fail("a gate is misread or out of layer order", cat(g, " in layer ", layers[li].first)); return; }
            uint64_t h = li * 64 + order; for (bool b : used) h = h * 2 + b; c.state(vf::hash_bytes(&h, sizeof h, vf::hash_str(layers[li].second.name)));
        }
        fail("reading does not end", "");
    } catch (const std::exception& e) {
        if (!unsupported) fail("a supported circuit is rejected", e.what());
    }
}
}

int main(int argc, char** argv)
{
    auto o = vf::parse_options("C18", argc, argv);
    o.rule = "Every sequence of up to 5 layers (6 thorough) with contents from 8 kinds (empty, only ignored operations, one, two or three gates, gates mixed with ignored operations) and of up to 2 layers from 21 kinds including unsupported operations; layers numbered consecutively or with gaps; rows stored in order, "
             "reversed or interleaved; read by the real gate source with three calling patterns (ask then take, ask three times then take, take without asking), always continued past the end. Gates must come layer by layer in increasing order, each once, with its qubits.";
    o.assumptions = {"The database server is replaced by an in-memory SQL engine behind the libpq interface (harness/common/fake_pq.cpp).", "X and Y power gates are excluded: the source says it pretends they are Z; CZPow may be read as CNOT, as the source says.",
                     "Layer 0 holds only initialisations, as the source documents.", "Within one layer any order is accepted (the operations of a layer are on different qubits)."};
    bool q = o.quick(); auto it = items(); int D = q ? 5 : 6;
    auto expand = [&](const std::vector<Item>& seq, vf::Ctx& c) {
        for (int gap : {0, 1}) for (int order = 0; order < 3; ++order) for (int calls = 0; calls < 3; ++calls) {
            if (c.stop()) return; std::vector<std::pair<long, Item>> l; long n = 1; for (auto& s : seq) { l.emplace_back(n, s); n += gap ? 3 : 1; }
            judge(c, l, order, calls, 3);
        }
    };
    vf::explore(o, "long circuits", COMMON * COMMON, [&](vf::Ctx& c, uint64_t u) {
        std::vector<Item> seq{it[u % COMMON], it[u / COMMON]};
        std::function<void(int)> rec = [&](int d) { expand(seq, c); if (!d || c.stop()) return; for (int k = 0; k < COMMON; ++k) { seq.push_back(it[k]); rec(d - 1); seq.pop_back(); } };
        rec(D - 2);
    });
    vf::explore(o, "all operations", it.size() + 1, [&](vf::Ctx& c, uint64_t u) {
        if (u == it.size()) { expand({}, c); for (int n : {0, 1, 5}) for (int calls = 0; calls < 3; ++calls) judge(c, {}, 0, calls, n); return; }
        expand({it[u]}, c); for (auto& b : it) { expand({it[u], b}, c); expand({it[u], it[0], b}, c); expand({it[0], it[4], it[u], it[4], b}, c); }
    });
    // many layers
    vf::explore(o, "deep circuits", 8, [&](vf::Ctx& c, uint64_t u) { std::vector<std::pair<long, Item>> l; for (int k = 0; k < 40; ++k) l.emplace_back(1 + k * (1 + u % 2), it[(k * (u + 3)) % COMMON]); for (int order = 0; order < 3; ++order) for (int calls = 0; calls < 3; ++calls) judge(c, l, order, calls, 3); });
    // through the command line: the instructions are those of the same gates
    vf::explore(o, "command line", COMMON * COMMON, [&](vf::Ctx& c, uint64_t u) {
        for (int k = 0; k < COMMON; ++k) {
            std::vector<Item> seq{it[u % COMMON], it[u / COMMON], it[k]}; Table t; long n = 1; S desc; std::vector<S> want; for (auto& s : seq) { for (auto& r : s.rows) { t.rows.emplace_back(n, r); if (!r.gate.empty()) want.push_back(*r.gate.begin()); } desc += cat("layer ", n, ": ", s.name, "\n"); ++n; }
            c.begin("command line\n" + desc); c.count(vf::TRACES); load(t, 0, 3); size_t in = 0; for (auto& [l, r] : t.rows) in += r.type == 0;
            auto r = vf::run_cli("-I pandora -L edpc --printlli before", ""); if (!r.ok()) { c.violation("command line: a supported circuit is rejected", cat(desc, r.what, r.err)); continue; }
            // count what each gate leaves in the program
            std::map<S, int> have, need; std::istringstream is(r.out); S l; while (std::getline(is, l)) { auto w = vf::words(l); if (!w.empty()) { if (w[0] == "XGate" || w[0] == "HGate" || w[0] == "RequestMagicState") ++have[w[0] + " " + w.back()]; if (w[0] == "Init") ++have["Init"]; } }
            for (auto& g : want) { auto w = vf::words(g); if (w[0] == "h") ++need["HGate " + w[1]]; if (w[0] == "x") ++need["XGate " + w[1]]; if (w[0] == "t" || w[0] == "tdg") ++need["RequestMagicState " + w[1]]; if (w[0] == "cx") ++need["Init"]; }
            if (have != need) c.violation("command line: the program does not match the circuit", cat(desc, r.out));
        }
    });
    return vf::finish(o);
}
