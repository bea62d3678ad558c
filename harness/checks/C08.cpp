// C08: gates -> lattice-surgery instructions. Every circuit over the gate set up to a length, every option, every measurement
// outcome; the real instruction streams produce the program, a state-vector model of the operations says what it does.
#include "common/runner.hpp"
#include "common/lli_sim.hpp"
#include <lsqecc/gates/gates.hpp>
#include <lsqecc/gates/parse_gates.hpp>
#include <lsqecc/ls_instructions/ls_instruction_stream.hpp>
#include <lsqecc/ls_instructions/boundary_rotation_injection_stream.hpp>
#include <lsqecc/ls_instructions/catalytic_s_gate_injection_stream.hpp>
#include <lsqecc/ls_instructions/teleported_s_gate_injection_stream.hpp>

using namespace lsqecc;
using vf::cat;
using S = std::string;

namespace {
struct ListGates : GateStream {
    std::vector<gates::Gate> g; size_t i = 0; Qreg r;
    gates::Gate get_next_gate() override { return g.at(i++); }
    bool has_next_gate() const override { return i < g.size(); }
    const Qreg& get_qreg() const override { return r; }
};
enum Inject { NONE, TELEPORT, TELEPORT_ROTATE, COMPACT, CATALYTIC, CATALYTIC_ROTATE, NINJECT };
const char* inject_name[] = {"plain", "teleported S", "teleported S, rotating", "boundary rotations and teleported S", "catalytic S", "catalytic S, rotating"};
struct Option { CNOTCorrectionMode corr; bool local; Inject inject; S str() const { return cat(inject_name[inject], local ? ", local" : "", corr == CNOTCorrectionMode::ALWAYS ? ", with corrections" : ""); } };

struct Named { gates::Gate g; S name; std::function<std::vector<qs::Vec>(const qs::Vec&, int)> ideal; bool ancilla_cnot; };

Named basic(gates::BasicSingleQubitGate b, S nm, qs::M2 m) { return {b, cat(nm, " ", b.target_qubit), [=](const qs::Vec& v, int) { qs::Vec w = v; qs::apply(w, (int)b.target_qubit, m); return std::vector<qs::Vec>{w}; }, false}; }
std::vector<Named> alphabet(int n, int detail) // 2: everything, 1: every kind once, 0: small
{
    using gates::H, gates::T, gates::TDg, gates::SDg, gates::X, gates::Y, gates::Z, gates::RZ, gates::Reset, gates::CNOT, gates::CZ, gates::CNOTType, gates::CNOTAncillaPlacement; std::vector<Named> a;
    for (QubitNum q = 0; q < (QubitNum)n; ++q) {
        a.push_back(basic(H(q), "h", qs::mH())); a.push_back(basic(gates::S(q), "s", qs::mS())); a.push_back(basic(T(q), "t", qs::mT())); a.push_back(basic(TDg(q), "tdg", qs::mTd()));
        if (detail >= 1) { a.push_back(basic(SDg(q), "sdg", qs::mSd())); a.push_back(basic(X(q), "x", qs::mX())); }
        if (detail >= 2) { a.push_back(basic(Y(q), "y", qs::mY())); a.push_back(basic(Z(q), "z", qs::mZ()));
            for (auto d : {1, 2, 4}) a.push_back({RZ{q, Fraction{1, d}}, cat("rz(pi/", d, ") ", q), [=](const qs::Vec& v, int) { qs::Vec w = v; qs::apply(w, (int)q, qs::phase(qs::PI / d)); return std::vector<qs::Vec>{w}; }, false}); }
        if (detail >= 1) a.push_back({Reset{"q", q}, cat("reset ", q), [=](const qs::Vec& v, int) { std::vector<qs::Vec> r; for (int o = 0; o < 2; ++o) { auto p = qs::project(v, 0, uint64_t(1) << q, o); double s = std::sqrt(qs::norm2(p)); if (s < 1e-6) continue; for (auto& e : p) e /= s; if (o) qs::apply(p, (int)q, qs::mX()); r.push_back(p); } return r; }, false});
        for (QubitNum t = 0; t < (QubitNum)n; ++t) if (t != q) for (int cz = 0; cz < 2; ++cz)
            for (auto ty : {CNOTType::ZX_WITH_MBM_CONTROL_FIRST, CNOTType::ZX_WITH_MBM_TARGET_FIRST, CNOTType::BELL_BASED}) for (auto pl : {CNOTAncillaPlacement::USE_DEDICATED_CELL, CNOTAncillaPlacement::ANCILLA_NEXT_TO_CONTROL, CNOTAncillaPlacement::ANCILLA_NEXT_TO_TARGET}) {
                if (detail < 2 && (pl != CNOTAncillaPlacement::ANCILLA_NEXT_TO_TARGET)) continue; if (detail < 1 && cz && ty != CNOTType::ZX_WITH_MBM_CONTROL_FIRST) continue; if (detail == 1 && cz && ty == CNOTType::ZX_WITH_MBM_TARGET_FIRST) continue;
                if (ty == CNOTType::BELL_BASED && pl != CNOTAncillaPlacement::ANCILLA_NEXT_TO_TARGET) continue;
                auto m = cz ? qs::mZ() : qs::mX();
                a.push_back({cz ? CZ(t, q, ty, pl) : CNOT(t, q, ty, pl), cat(cz ? "cz " : "cx ", q, ",", t, " ", CNOTType_toString(ty), " ", CNOTAncillaPlacement_toString(pl)), [=](const qs::Vec& v, int) { qs::Vec w = v; qs::apply_controlled(w, (int)q, (int)t, m); return std::vector<qs::Vec>{w}; }, ty != CNOTType::BELL_BASED}); }
    }
    return a;
}

// The recorded defect: the CNOT's ancilla is prepared in |+> and measured in X for both orders. Control first must measure
// it in Z, target first must prepare it in |0>. With the defect put right, everything else about the program is decided.
int put_right(std::vector<LSInstruction>& p, std::vector<S>& found, int n)
{
    int k = 0;
    for (size_t i = 0; i < p.size(); ++i) if (auto* init = std::get_if<PatchInit>(&p[i].operation)) {
        if ((int64_t)init->target < n || init->state != PatchInit::InitializeableStates::Plus) continue;
        PatchId a = init->target; std::vector<PauliOperator> joint; SinglePatchMeasurement* meas = nullptr; bool other = false;
        for (size_t j = i + 1; j < p.size() && !meas; ++j) {
            if (auto* m = std::get_if<MultiPatchMeasurement>(&p[j].operation)) { if (m->observable.contains(a)) { if (m->observable.size() != 2) other = true; joint.push_back(m->observable.at(a)); for (auto& [id, op] : m->observable) if (op != joint.back()) other = true; } }
            else if (auto* s = std::get_if<SinglePatchMeasurement>(&p[j].operation)) { if (s->target == a) meas = s; }
            else if (auto* g = std::get_if<SingleQubitOp>(&p[j].operation)) { if (g->target == a && (g->op == SingleQubitOp::Operator::H || g->op == SingleQubitOp::Operator::S)) other = true; }
            else if (p[j].get_operating_patches().contains(a)) other = true;
        }
        if (other || !meas || joint.size() != 2 || meas->observable != PauliOperator::X) continue;
        if (joint[0] == PauliOperator::Z && joint[1] == PauliOperator::X) { meas->observable = PauliOperator::Z; found.push_back("CNOT, control first: the ancilla prepared in |+>, joined by ZZ then XX, is measured in X instead of Z"); ++k; }
        if (joint[0] == PauliOperator::X && joint[1] == PauliOperator::Z) { init->state = PatchInit::InitializeableStates::Zero; found.push_back("CNOT, target first: the ancilla joined by XX then ZZ and measured in X is prepared in |+> instead of |0>"); ++k; }
    }
    return k;
}

void one(vf::Ctx& c, int n, const std::vector<const Named*>& circuit, const Option& o, bool report_defect)
{
    S desc = cat(o.str(), ":"); for (auto g : circuit) desc += " " + g->name + ";";
    c.begin(desc);
    ListGates gs; gs.r = {"q", (QubitNum)n}; for (auto g : circuit) gs.g.push_back(g->g);
    IdGenerator ids; ids.set_start((PatchId)n);
    std::vector<LSInstruction> prog; bool refused = false;
    try {
        std::unique_ptr<LSInstructionStream> st = std::make_unique<LSInstructionStreamFromGateStream>(gs, o.corr, ids, o.local);
        if (o.inject == COMPACT) { tsl::ordered_map<PatchId, RotatableSingleQubitPatchExposedOperators> e; for (PatchId q = 0; q < (PatchId)n; ++q) e[q] = {q % 2 == 1, q % 2 == 0}; st = std::make_unique<BoundaryRotationInjectionStream>(std::move(st), std::move(e)); }
        if (o.inject == TELEPORT || o.inject == COMPACT) st = std::make_unique<TeleportedSGateInjectionStream>(std::move(st), ids, false);
        if (o.inject == TELEPORT_ROTATE) st = std::make_unique<TeleportedSGateInjectionStream>(std::move(st), ids, true);
        if (o.inject == CATALYTIC) st = std::make_unique<CatalyticSGateInjectionStream>(std::move(st), ids, o.local, false);
        if (o.inject == CATALYTIC_ROTATE) st = std::make_unique<CatalyticSGateInjectionStream>(std::move(st), ids, o.local, true);
        while (st->has_next_instruction()) { prog.push_back(st->get_next_instruction()); if (prog.size() > 2000) { c.violation("the instruction stream does not end", desc); return; } }
        for (auto q : st->core_qubits()) if ((int)q >= n) c.violation("core qubits differ from the register", desc);
        if ((int)st->core_qubits().size() != n) c.violation("core qubits differ from the register", desc);
    } catch (const std::exception&) { refused = true; }
    c.count(vf::TRACES);
    bool bell = o.local; for (auto g : circuit) if (auto* cg = std::get_if<gates::ControlledGate>(&g->g); cg && cg->cnot_type == gates::CNOTType::BELL_BASED) bell = true;
    if (refused) { // corrections are documented as not implemented for Bell-based CNOTs
        bool any_cnot = false; for (auto g : circuit) if (std::holds_alternative<gates::ControlledGate>(g->g)) any_cnot = true;
        if (!(o.corr == CNOTCorrectionMode::ALWAYS && bell && any_cnot)) c.violation(cat("refused: ", circuit.empty() ? S("") : circuit.back()->name.substr(0, circuit.back()->name.find(' '))), desc);
        c.count(vf::SKIPPED); return;
    }
    S text; for (auto& i : prog) text += cat(i, "\n");
    c.note("\n" + text);
    // placement of CNOT ancillas: beside the boundary of the neighbour that they are then joined with
    for (size_t i = 0; i < prog.size(); ++i) if (auto* init = std::get_if<PatchInit>(&prog[i].operation); init && init->place_next_to) {
        bool ok = false; for (size_t j = i + 1; j < prog.size(); ++j) if (auto* m = std::get_if<MultiPatchMeasurement>(&prog[j].operation); m && m->observable.contains(init->target) && m->observable.contains(init->place_next_to->target) && m->observable.at(init->place_next_to->target) == init->place_next_to->op) ok = true;
        if (!ok) c.violation("the ancilla is placed beside a boundary it is not joined with", cat(desc, "\n", text));
    }
    if (circuit.size() == 1) if (auto* cg = std::get_if<gates::ControlledGate>(&circuit[0]->g); cg && cg->cnot_type != gates::CNOTType::BELL_BASED && !o.local) {
        auto t = std::visit([](auto& x) { return x.target_qubit; }, cg->target_gate); using P = gates::CNOTAncillaPlacement;
        for (auto& i : prog) if (auto* init = std::get_if<PatchInit>(&i.operation)) { auto w = init->place_next_to; bool ok = cg->cnot_ancilla_placement == P::USE_DEDICATED_CELL ? !w : cg->cnot_ancilla_placement == P::ANCILLA_NEXT_TO_CONTROL ? w && w->target == cg->control_qubit : w && w->target == t; if (!ok) c.violation("the ancilla is not placed where the gate asks", cat(desc, "\n", text)); }
        std::vector<PauliOperator> order; for (auto& i : prog) if (auto* m = std::get_if<MultiPatchMeasurement>(&i.operation)) order.push_back(m->observable.contains(cg->control_qubit) ? PauliOperator::Z : PauliOperator::X);
        if (order.size() == 2 && (order[0] == PauliOperator::Z) != (cg->cnot_type == gates::CNOTType::ZX_WITH_MBM_CONTROL_FIRST)) c.violation("control and target are joined in the other order than the gate asks", cat(desc, "\n", text));
    }
    std::vector<S> defects; put_right(prog, defects, n);
    if (report_defect) for (auto& d : defects) c.violation(d, cat(desc, "\n", text));
    // what the circuit does
    std::vector<qs::Vec> ideal{lsim::choi(n).v}; for (auto g : circuit) { std::vector<qs::Vec> next; for (auto& v : ideal) for (auto& w : g->ideal(v, n)) next.push_back(w); ideal = next; }
    lsim::Explorer x(n, prog);
    x.s_allowed = o.inject == NONE;
    x.final_check = [&](const lsim::State& s) -> S { c.count(vf::EVALS); for (auto& v : ideal) if (lsim::same_up_to_pauli(v, s.v, n)) return ""; return "the result is not the circuit's, whatever Pauli corrections follow"; };
    if (o.corr == CNOTCorrectionMode::ALWAYS && circuit.size() == 1 && circuit[0]->ancilla_cnot) {
        // With every Pauli applied or left out as the outcomes so far require, the only byproduct still open is that of the ancilla's
        // own measurement: one Pauli R. Without (enough) corrections there would be more than one.
        bool fine = false;
        for (uint64_t r = 0; r < 1u << (2 * n) && !fine; ++r) {
            lsim::Explorer e(n, prog); e.optional_paulis = true; e.s_allowed = o.inject == NONE;
            e.final_check = [&](const lsim::State& s) -> S { c.count(vf::EVALS); for (auto& v : ideal) if (lsim::same_up_to_pauli(v, s.v, n, true) || lsim::same_up_to_pauli(qs::pauli(v, r & ((1u << n) - 1), r >> n), s.v, n, true)) return ""; return "x"; };
            fine = e.run(); c.count(vf::TRANSITIONS, e.steps); c.count(vf::AUX1, e.outcomes);
        }
        if (!fine) c.violation(cat("conditional corrections missing or wrong (", circuit[0]->name.substr(0, circuit[0]->name.find(' ')), ")"), cat(desc, "\n", text));
    }
    bool ok = x.run(); c.count(vf::STATES, x.states); c.count(vf::TRANSITIONS, x.steps); c.count(vf::AUX1, x.outcomes);
    if (!ok) { S w = x.why; for (auto& ch : w) if (ch >= '0' && ch <= '9') ch = '#'; c.violation(cat(w.substr(0, 80), " (", circuit.size() == 1 ? circuit[0]->name.substr(0, circuit[0]->name.find(' ')) : S("circuit"), ", ", inject_name[o.inject], ")"), cat(desc, "\n", x.why, "\n", text)); }
}
}

int main(int argc, char** argv)
{
    auto o = vf::parse_options("C08", argc, argv);
    o.aux_names[vf::AUX1] = "measurement outcomes followed";
    bool q = o.quick();
    std::vector<Option> opts; for (auto corr : {CNOTCorrectionMode::NEVER, CNOTCorrectionMode::ALWAYS}) for (bool local : {false, true}) for (int j = 0; j < NINJECT; ++j) opts.push_back({corr, local, (Inject)j});
    // corrections and S injection do not interact: corrections are combined with the plain stream only in the longer circuits
    auto relevant = [](const Option& op) { return op.corr == CNOTCorrectionMode::NEVER || (op.inject == NONE && !op.local); };
    o.rule = cat("every circuit of up to 3 gates over the full gate set (x y z h s sdg t tdg rz reset, cx and cz in every boundary order and ancilla placement, Bell-based) on two qubits, of up to ", q ? 4 : 5, " gates over a reduced set and of up to 3 gates on three qubits, "
             "for each correction mode, compilation mode and S-state injection; every outcome of every measurement; applied to one half of maximally entangled pairs, so that one run decides the whole unitary");
    o.assumptions = {"an operation after a magic state injection is conditional: it may be applied or left out depending on the outcomes so far", "a Bell-based CNOT instruction acts as a CNOT here (C06 and C07 decide how it is realised)", "corrections are refused for Bell-based CNOTs (documented as not implemented)",
                     "the recorded defect in the ancilla's bases is put right before the rest is decided"};
    auto full = alphabet(2, 2), mid = alphabet(2, 1), small = alphabet(2, 0), three = alphabet(3, 1);
    vf::explore(o, "single gates", full.size() + 1, [&](vf::Ctx& c, uint64_t u) { for (auto& op : opts) { if (u == full.size()) one(c, 2, {}, op, false); else one(c, 2, {&full[u]}, op, true); } if (u % 9 == 1 && u < full.size()) c.sample(full[u].name); });
    vf::explore(o, "pairs of gates", full.size() * full.size(), [&](vf::Ctx& c, uint64_t u) { for (auto& op : opts) if (relevant(op)) one(c, 2, {&full[u / full.size()], &full[u % full.size()]}, op, false); if (u % 501 == 1) c.sample(full[u / full.size()].name + "; " + full[u % full.size()].name); });
    vf::explore(o, "triples of gates", full.size() * full.size(), [&](vf::Ctx& c, uint64_t u) { for (auto& g : full) for (auto& op : opts) if (relevant(op) && !c.stop()) one(c, 2, {&full[u / full.size()], &full[u % full.size()], &g}, op, false); });
    auto brief = [&](const Option& op) { return relevant(op) && (op.inject == NONE || op.inject == COMPACT || op.inject == CATALYTIC_ROTATE); };
    vf::explore(o, "three qubits, pairs", three.size() * three.size(), [&](vf::Ctx& c, uint64_t u) { for (auto& op : opts) if (relevant(op)) { if (c.stop()) return; one(c, 3, {&three[u / three.size()], &three[u % three.size()]}, op, false); } });
    vf::explore(o, "three qubits, triples", three.size() * three.size(), [&](vf::Ctx& c, uint64_t u) { for (auto& g : three) for (auto& op : opts) if (brief(op) && !c.stop()) one(c, 3, {&three[u / three.size()], &three[u % three.size()], &g}, op, false); });
    auto& four = q ? small : mid;
    vf::explore(o, "four gates", four.size() * four.size(), [&](vf::Ctx& c, uint64_t u) { for (auto& g : four) for (auto& h : four) for (auto& op : opts) if (brief(op) && !c.stop()) one(c, 2, {&four[u / four.size()], &four[u % four.size()], &g, &h}, op, false); });
    if (!q) vf::explore(o, "five gates", small.size() * small.size(), [&](vf::Ctx& c, uint64_t u) { for (auto& g : small) for (auto& h : small) for (auto& k : small) for (auto& op : opts) if (brief(op) && !c.stop()) one(c, 2, {&small[u / small.size()], &small[u % small.size()], &g, &h, &k}, op, false); });
    return vf::finish(o);
}
