// C15: commutation. Every pair of gates and of lattice-surgery instructions over small index sets, in both orders; and
// every schedule (linear extension) of the dependency graphs of all short programs, executed on an explicit machine.
#include "common/runner.hpp"
#include "common/qsim.hpp"
#include <lsqecc/dag/domain_dags.hpp>
#include <lsqecc/gates/gates.hpp>
#include <lsqecc/ls_instructions/ls_instructions.hpp>
#include <lsqecc/ls_instructions/ls_instructions_parse.hpp>
#include <lsqecc/ls_instructions/ls_instruction_stream.hpp>
#include <lsqecc/ls_instructions/ls_instructions_from_gates.hpp>
#include <set>
#include <map>

using namespace lsqecc;
using vf::cat;

namespace {
constexpr int NQ = 4;
using G = gates::Gate; using T1 = gates::BasicSingleQubitGate;

std::string show(const G& g)
{
    if (auto* r = std::get_if<gates::Reset>(&g)) return cat("reset ", r->register_name, "[", r->target_qubit, "]");
    std::ostringstream os; lsqecc::operator<<(os, g); return os.str();
}
qs::M2 matrix(const T1& g)
{
    switch (g.gate_type) {
        case T1::Type::X: return qs::mX(); case T1::Type::Y: return qs::mY(); case T1::Type::Z: return qs::mZ(); case T1::Type::H: return qs::mH();
        case T1::Type::S: return qs::mS(); case T1::Type::T: return qs::mT(); case T1::Type::SDg: return qs::mSd(); case T1::Type::TDg: return qs::mTd();
    }
    throw std::runtime_error("unknown gate");
}
qs::M2 matrix(const gates::RZ& r) { return qs::phase(qs::PI * double(r.pi_fraction.num) / double(r.pi_fraction.den)); }

// One Kraus branch of a gate; every gate but reset has exactly one.
int branches(const G& g) { return std::holds_alternative<gates::Reset>(g) ? 2 : 1; }
void act(qs::Vec& v, const G& g, int branch)
{
    if (auto* b = std::get_if<T1>(&g)) qs::apply(v, b->target_qubit, matrix(*b));
    else if (auto* r = std::get_if<gates::RZ>(&g)) qs::apply(v, r->target_qubit, matrix(*r));
    else if (auto* c = std::get_if<gates::ControlledGate>(&g)) std::visit([&](const auto& t) { qs::apply_controlled(v, c->control_qubit, t.target_qubit, matrix(t)); }, c->target_gate);
    else { auto& r = std::get<gates::Reset>(g); qs::apply(v, r.target_qubit, branch ? qs::M2{0, 1, 0, 0} : qs::M2{1, 0, 0, 0}); }
}
// The whole channel of a sequence, as the matrices of all its branches (sorted, so that branch order does not matter).
// Two sequences act alike when the sums over branches of K (x) conj(K) agree.
std::vector<qs::cd> channel(const std::vector<G>& seq, int nq)
{
    size_t N = size_t(1) << nq; std::vector<qs::cd> sup(N * N * N * N, 0);
    int nb = 1; for (auto& g : seq) nb *= branches(g);
    if (nb == 1) { // unitary: keep the matrix itself (exact, including global phase)
        std::vector<qs::cd> m; for (size_t c = 0; c < N; ++c) { qs::Vec v(N, 0); v[c] = 1; for (auto& g : seq) act(v, g, 0); m.insert(m.end(), v.begin(), v.end()); }
        return m;
    }
    for (int b = 0; b < nb; ++b) {
        std::vector<qs::Vec> K; 
        for (size_t c = 0; c < N; ++c) { qs::Vec v(N, 0); v[c] = 1; int x = b; for (auto& g : seq) { int n = branches(g); act(v, g, x % n); x /= n; } K.push_back(v); }
        for (size_t c = 0; c < N; ++c) for (size_t r = 0; r < N; ++r) if (K[c][r] != 0.0) for (size_t c2 = 0; c2 < N; ++c2) for (size_t r2 = 0; r2 < N; ++r2) sup[((c * N + r) * N + c2) * N + r2] += K[c][r] * std::conj(K[c2][r2]);
    }
    return sup;
}
bool equal(const std::vector<qs::cd>& a, const std::vector<qs::cd>& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) if (std::abs(a[i] - b[i]) > 1e-9) return false; return true; }

std::vector<G> all_gates(int nq)
{
    std::vector<G> v; using namespace gates;
    const T1::Type types[] = {T1::Type::X, T1::Type::Y, T1::Type::Z, T1::Type::S, T1::Type::T, T1::Type::H, T1::Type::SDg, T1::Type::TDg};
    const Fraction fr[] = {{1, 1}, {1, 2}, {-1, 2}, {1, 4}, {1, 8}, {3, 7}, {2, 1}, {0, 1}};
    for (int q = 0; q < nq; ++q) { for (auto t : types) v.push_back(T1{(QubitNum)q, t}); for (auto f : fr) v.push_back(RZ{(QubitNum)q, f}); v.push_back(Reset{"q", (QubitNum)q}); }
    for (int c = 0; c < nq; ++c) for (int q = 0; q < nq; ++q) if (c != q) {
        for (auto t : types) v.push_back(ControlledGate{(QubitNum)c, T1{(QubitNum)q, t}, CNOTType::ZX_WITH_MBM_CONTROL_FIRST, CNOTAncillaPlacement::USE_DEDICATED_CELL});
        for (auto f : {Fraction{1, 2}, Fraction{3, 7}}) v.push_back(ControlledGate{(QubitNum)c, RZ{(QubitNum)q, f}, CNOTType::BELL_BASED, CNOTAncillaPlacement::ANCILLA_NEXT_TO_TARGET});
    }
    return v;
}
std::set<int> support(const G& g)
{
    std::set<int> s;
    if (auto* b = std::get_if<T1>(&g)) s = {(int)b->target_qubit};
    else if (auto* r = std::get_if<gates::RZ>(&g)) s = {(int)r->target_qubit};
    else if (auto* c = std::get_if<gates::ControlledGate>(&g)) { s.insert((int)c->control_qubit); std::visit([&](const auto& t) { s.insert((int)t.target_qubit); }, c->target_gate); }
    else s = {(int)std::get<gates::Reset>(g).target_qubit};
    return s;
}
// the same gates with the qubits of the union renamed 0..k-1
std::pair<std::vector<G>, int> compact(std::vector<G> seq)
{
    std::map<int, int> m; for (auto& g : seq) for (int q : support(g)) m.emplace(q, 0); int n = 0; for (auto& [k, v] : m) v = n++;
    for (auto& g : seq) std::visit([&](auto& x) { using X = std::decay_t<decltype(x)>;
        if constexpr (std::is_same_v<X, gates::ControlledGate>) { x.control_qubit = m.at(x.control_qubit); std::visit([&](auto& t) { t.target_qubit = m.at(t.target_qubit); }, x.target_gate); }
        else x.target_qubit = m.at(x.target_qubit); }, g);
    return {seq, n};
}

struct VecGates : GateStream {
    std::vector<G> v; size_t i = 0; const Qreg qr{"q", NQ};
    G get_next_gate() override { return v.at(i++); }
    bool has_next_gate() const override { return i < v.size(); }
    const Qreg& get_qreg() const override { return qr; }
};
struct VecStream : LSInstructionStream {
    std::vector<LSInstruction> v; size_t i = 0; tsl::ordered_set<PatchId> q;
    LSInstruction get_next_instruction() override { return v.at(i++); }
    bool has_next_instruction() const override { return i < v.size(); }
    const tsl::ordered_set<PatchId>& core_qubits() const override { return q; }
};

// All complete schedules of a dependency graph, as the instructions in the order they were finished.
template<class I> void schedules(const dag::DependencyDag<I>& d, std::vector<I> done, const std::function<bool(const std::vector<I>&)>& visit, bool& go)
{
    if (!go) return;
    auto app = d.applicable_instructions();
    if (app.empty()) { go = visit(done); return; }
    for (auto l : app) { auto e = d; auto n = done; n.push_back(e.at(l)); e.pop_head(l); schedules(e, std::move(n), visit, go); if (!go) return; }
}

// ---------- lattice-surgery instructions: what each one touches, from its meaning -------------------------------------
std::set<PatchId> touches(const LSInstruction& i)
{
    std::set<PatchId> s;
    std::visit([&](const auto& o) { using X = std::decay_t<decltype(o)>;
        if constexpr (std::is_same_v<X, MultiPatchMeasurement>) for (auto& [p, op] : o.observable) s.insert(p);
        else if constexpr (std::is_same_v<X, PatchInit>) { s.insert(o.target); if (o.place_next_to) s.insert(o.place_next_to->target); }
        else if constexpr (std::is_same_v<X, BellPairInit>) { s.insert(o.side1); s.insert(o.side2); s.insert(o.loc1.target); s.insert(o.loc2.target); }
        else if constexpr (std::is_same_v<X, MagicStateRequest> || std::is_same_v<X, YStateRequest>) { s.insert(o.target); s.insert(o.near_patch); }
        else if constexpr (std::is_same_v<X, BusyRegion>) { for (auto& p : o.state_after_clearing) if (p.id) s.insert(*p.id); }
        else if constexpr (std::is_same_v<X, BellBasedCNOT>) { s.insert(o.control); s.insert(o.target); s.insert(o.side1); s.insert(o.side2); }
        else if constexpr (std::is_same_v<X, DeclareLogicalQubitPatches>) {}
        else s.insert(o.target);
    }, i.operation);
    for (auto c : i.clients) s.insert(c);
    return s;
}
std::string show(const LSInstruction& i) { std::string s = cat(i); if (!i.clients.empty()) { s += " {"; for (auto c : i.clients) s += cat(" ", c); s += " }"; } return s; }

// Every instruction of the text format over the identifiers 0..n-1.
std::vector<std::string> texts(int n)
{
    std::vector<std::string> v; auto id = [&](std::function<void(int)> f) { for (int i = 0; i < n; ++i) f(i); };
    const char* ops[] = {"X", "Z"};
    id([&](int a) {
        for (auto o : ops) { v.push_back(cat("MeasureSinglePatch ", a, " ", o)); v.push_back(cat("LogicalPauli ", a, " ", o)); }
        v.push_back(cat("HGate ", a)); v.push_back(cat("SGate ", a)); v.push_back(cat("RotateSingleCellPatch ", a));
        v.push_back(cat("Init ", a, " |0>")); v.push_back(cat("Init ", a, " |+>"));
        id([&](int b) {
            if (a == b) return;
            for (auto o : ops) v.push_back(cat("Init ", a, " |0> ", b, ":", o));
            for (auto o : ops) for (auto p : ops) if (a < b) v.push_back(cat("MultiBodyMeasure ", a, ":", o, ",", b, ":", p));
            v.push_back(cat("RequestMagicState ", a, " ", b)); v.push_back(cat("RequestYState ", a, " ", b));
            id([&](int c) { if (c == a || c == b) return; id([&](int d) { if (d == a || d == b || d == c) return;
                if (a < b) v.push_back(cat("BellPairInit ", a, " ", b, " ", c, ":X,", d, ":Z"));
                v.push_back(cat("BellBasedCNOT ", a, " ", b, " ", c, " ", d)); }); });
        });
    });
    return v;
}
}

int main(int argc, char** argv)
{
    auto o = vf::parse_options("C15", argc, argv);
    bool q = o.quick();
    o.rule = "every ordered pair of gates (8 basic types, 8 rotation angles, resets, controlled versions) over 4 qubits: declared commuting implies equal channels; "
             "every schedule the dependency graph allows of every gate program of bounded length computes the program's channel; "
             "every ordered pair of lattice-surgery instructions of the text format over 5 identifiers, plus the instructions made from gates and the follow-up placeholders: declared commuting implies disjoint use";
    o.assumptions = {"an instruction uses the patches its operation names (targets, measured, placement and near patches, Bell ends) and its declared clients"};

    auto gs = all_gates(NQ);
    vf::explore(o, "gate pairs", gs.size(), [&](vf::Ctx& c, uint64_t u) {
        for (auto& b : gs) {
            auto& a = gs[u]; c.begin(cat(show(a), " / ", show(b)));
            bool says = dag::CommutationTrait<G>::can_commute(a, b);
            c.count(vf::EVALS); c.count(vf::TRANSITIONS, 2); c.count(vf::STATES);
            auto [ab, n] = compact({a, b}); 
            auto x = support(a), y = support(b); bool disjoint = true; for (int k : x) if (y.count(k)) disjoint = false;
            if (says) { c.count(vf::TRACES); if (!disjoint && !equal(channel(ab, n), channel({ab[1], ab[0]}, n))) c.violation(cat("gates declared commuting do not commute: ", show(a), " / ", show(b)), "the two products differ"); }
            if (disjoint && n <= 3 && !equal(channel(ab, n), channel({ab[1], ab[0]}, n))) throw std::logic_error("harness: disjoint gates must commute");
        }
        if (u % 23 == 0) c.sample(cat(show(gs[u]), " against all ", gs.size(), " gates"));
    });

    // schedules
    std::vector<G> few; { using namespace gates; few = {H(0), S(0), H(1), gates::X(2), T(2), CNOT(1, 0), CNOT(0, 1), CNOT(2, 0), CNOT(2, 1), CZ(2, 0), CZ(0, 2), CNOT(1, 2), RZ{1, Fraction{3, 7}},
        ControlledGate{0, RZ{2, Fraction{1, 2}}, CNOTType::BELL_BASED, CNOTAncillaPlacement::USE_DEDICATED_CELL}, Reset{"q", 1}}; }
    int len = q ? 5 : 6;
    vf::explore(o, "all schedules of gate programs", few.size() * few.size(), [&](vf::Ctx& c, uint64_t u) {
        for (int L = 2; L <= len; ++L) {
            uint64_t tot = 1; for (int i = 2; i < L; ++i) tot *= few.size();
            for (uint64_t k = 0; k < tot && !c.stop(); ++k) {
                std::vector<G> p{few[u / few.size()], few[u % few.size()]}; uint64_t x = k; for (int i = 2; i < L; ++i) { p.push_back(few[x % few.size()]); x /= few.size(); }
                int resets = 0; for (auto& g : p) resets += branches(g) - 1; if (resets > 1) continue;
                std::string w; for (auto& g : p) w += show(g) + " "; c.begin(w);
                VecGates s; s.v = p; auto d = dag::full_dependency_dag_from_gate_stream(s);
                auto want = channel(p, 3); bool go = true;
                std::set<std::vector<std::string>> seen;
                schedules<G>(d, {}, [&](const std::vector<G>& order) {
                    std::vector<std::string> key; for (auto& g : order) key.push_back(show(g)); c.count(vf::TRANSITIONS, order.size());
                    if (!seen.insert(key).second) return true;
                    c.count(vf::TRACES); c.count(vf::EVALS);
                    if (order.size() != p.size() || !equal(channel(order, 3), want)) { std::string t; for (auto& s : key) t += s + " "; c.violation(cat("a schedule allowed by the dependency graph changes the circuit: ", w), t); return false; }
                    return true;
                }, go);
            }
        }
    });

    // lattice-surgery instructions
    std::vector<LSInstruction> ls;
    for (auto& t : texts(5)) ls.push_back(parse_ls_instruction(t));
    for (bool local : {false, true}) for (auto ty : {gates::CNOTType::ZX_WITH_MBM_CONTROL_FIRST, gates::CNOTType::ZX_WITH_MBM_TARGET_FIRST, gates::CNOTType::BELL_BASED})
        for (auto pl : {gates::CNOTAncillaPlacement::USE_DEDICATED_CELL, gates::CNOTAncillaPlacement::ANCILLA_NEXT_TO_CONTROL, gates::CNOTAncillaPlacement::ANCILLA_NEXT_TO_TARGET}) {
            IdGenerator gen; gen.set_start(2); LSIinstructionFromGatesGenerator f(gen, local);
            auto qq = f.make_cnot_instructions(0, 1, ty, pl, CNOTCorrectionMode::NEVER); while (!qq.empty()) { ls.push_back(qq.front()); qq.pop(); }
            auto tt = f.make_t_gate_instructions(1); while (!tt.empty()) { ls.push_back(tt.front()); tt.pop(); }
        }
    for (PatchId a = 0; a < 4; ++a) {
        ls.push_back({.operation = PatchReset{a}});
        SparsePatch p{DensePatch{}}; p.id = a; BusyRegion br; br.steps_to_clear = 1; br.state_after_clearing.push_back(p); ls.push_back({.operation = br});
        for (PatchId b = 0; b < 4; ++b) if (a < b) { SparsePatch p2 = p; p2.id = b; BusyRegion bb = br; bb.state_after_clearing.push_back(p2); ls.push_back({.operation = bb}); }
        for (PatchId b = 0; b < 4; ++b) if (a != b) { LSInstruction i{.operation = SinglePatchMeasurement{a, PauliOperator::X, false}}; i.clients.insert(b); ls.push_back(i); }
    }
    vf::explore(o, "instruction pairs", ls.size(), [&](vf::Ctx& c, uint64_t u) {
        auto A = touches(ls[u]);
        c.begin(show(ls[u]));
        for (auto& b : ls) {
            bool says = dag::CommutationTrait<LSInstruction>::can_commute(ls[u], b); auto B = touches(b);
            bool disjoint = true; for (auto x : A) if (B.count(x)) disjoint = false;
            c.count(vf::EVALS); c.count(vf::TRANSITIONS, 2); c.count(vf::STATES);
            if (says && !disjoint) c.violation(cat("instructions sharing a patch declared commuting: ", cat(ls[u]).substr(0, cat(ls[u]).find(' ')), " / ", cat(b).substr(0, cat(b).find(' '))), cat(show(ls[u]), "\n", show(b)));
        }
    });
    // schedules of instruction programs: the sequence of instructions seen by every patch is the program's in every schedule
    auto tx = texts(3); std::vector<LSInstruction> small; for (auto& t : tx) small.push_back(parse_ls_instruction(t));
    small.push_back({.operation = PatchReset{0}});
    vf::explore(o, "all schedules of instruction programs", small.size(), [&](vf::Ctx& c, uint64_t u) {
        for (int L = 2; L <= (q ? 3 : 4); ++L) {
            uint64_t tot = 1; for (int i = 1; i < L; ++i) tot *= small.size();
            for (uint64_t k = 0; k < tot && !c.stop(); ++k) {
                std::vector<LSInstruction> p{small[u]}; uint64_t x = k; for (int i = 1; i < L; ++i) { p.push_back(small[x % small.size()]); x /= small.size(); }
                std::string w; for (auto& g : p) w += show(g) + "; "; c.begin(w);
                auto view = [&](const std::vector<LSInstruction>& s) { std::map<PatchId, std::string> m; for (auto& i : s) for (auto id : touches(i)) m[id] += show(i) + ";"; return m; };
                VecStream s; s.v = p; auto d = dag::full_dependency_dag_from_instruction_stream(s); auto want = view(p); bool go = true;
                schedules<LSInstruction>(d, {}, [&](const std::vector<LSInstruction>& order) {
                    c.count(vf::TRACES); c.count(vf::EVALS); c.count(vf::TRANSITIONS, order.size());
                    if (order.size() != p.size() || view(order) != want) { c.violation(cat("a schedule reorders instructions on a patch: ", w), ""); return false; }
                    return true; }, go);
            }
        }
    });
    return vf::finish(o);
}
