// C21: gates replaced by other gates. Every fraction, qubit placement and replacement in the bounds is decomposed by the real
// code and the product of the replacement is compared with the gate. Built twice: against the library with Gridsynth enabled
// (the Gridsynth call itself is a stand-in that answers exactly) and, as a child process, against the default library.
#include "common/runner.hpp"
#include "common/lli_sim.hpp"
#include "common/cli.hpp"
#include <lsqecc/gates/gates.hpp>
#include <lsqecc/gates/gate_approximator.hpp>
#include <lsqecc/gates/decompose_rotation_stream.hpp>
#include <lsqecc/gates/pi_over_2_to_the_n_rz_gate_approximations.hpp>
#include <lsqecc/ls_instructions/ls_instruction_stream.hpp>
#include <lsqecc/ls_instructions/ls_instructions_parse.hpp>
#ifdef USE_GRIDSYNTH
#include <gridsynth_ccals.h>
#include <boost/multiprecision/cpp_bin_float.hpp>
#endif
#include <cstdio>
#include <cstring>
#include <numeric>

using namespace lsqecc;
using vf::cat;
using S = std::string;

namespace {
struct Angle { int64_t p = 0, q = 1; // a multiple of pi, reduced, q > 0
    static Angle of(const Fraction& f) { int64_t p = f.num, q = f.den; if (f.is_negative) p = -p; if (q < 0) { p = -p; q = -q; } int64_t g = std::gcd(p < 0 ? -p : p, q); if (g) { p /= g; q /= g; } return {p, q}; }
    double value() const { return qs::PI * (double)p / (double)q; }
    bool operator==(const Angle&) const = default; };

struct Stand { bool markers = false; std::vector<Angle> asked; std::vector<double> digits; S error; } stand;
constexpr int BITS = 12, MARK = 2 * BITS + 3;
S marker(size_t i) { S b; for (int k = 0; k < BITS; ++k) b += (i >> k & 1) ? 'T' : 'S'; S r(b.rbegin(), b.rend()); return "H" + b + "H" + r + "H"; }

// angle := sign* digits "*pi/" sign* digits
bool read_angle(const char* s, Angle& a)
{
    auto num = [&](int64_t& v) { bool neg = false; while (*s == '+' || *s == '-') { if (*s == '-') neg = !neg; ++s; } if (!isdigit((unsigned char)*s)) return false; v = 0; while (isdigit((unsigned char)*s)) v = v * 10 + (*s++ - '0'); if (neg) v = -v; return true; };
    int64_t p, q = 1; if (!num(p)) return false; if (std::strncmp(s, "*pi", 3)) return false; s += 3; if (*s == '/') { ++s; if (!num(q)) return false; } if (*s || q == 0) return false;
    a = Angle::of(Fraction{p, q}); return true;
}
int answer(double digits, const char* angle, char* out, size_t size)
{
    Angle a; if (!read_angle(angle, a)) { stand.error = cat("Gridsynth was asked for the angle '", angle, "'"); return 1; }
    stand.digits.push_back(digits);
    S w;
    if (stand.markers) { w = marker(stand.asked.size()); stand.asked.push_back(a); }
    else {
        if (4 % a.q) return 2; // only exact answers
        int k = (int)(((a.p * (4 / a.q)) % 8 + 8) % 8);
        // Gridsynth answers a product of operators with phases (W); the last factor is applied first
        static const char* words[8] = {"", "T", "S", "ST", "HXH", "TSSW", "XSXW", "XTXWW"};
        w = k == 0 && a.p != 0 ? "WWWW" : words[k];
    }
    if (w.size() + 1 > size) return 3;
    std::memcpy(out, w.c_str(), w.size() + 1); return 0;
}

struct ListGates : GateStream {
    std::vector<gates::Gate> g; size_t i = 0; Qreg r;
    gates::Gate get_next_gate() override { return g.at(i++); }
    bool has_next_gate() const override { return i < g.size(); }
    const Qreg& get_qreg() const override { return r; }
};
qs::M2 basic_matrix(gates::BasicSingleQubitGate::Type t) { using T = gates::BasicSingleQubitGate::Type; switch (t) { case T::X: return qs::mX(); case T::Y: return qs::mY(); case T::Z: return qs::mZ(); case T::S: return qs::mS(); case T::T: return qs::mT(); case T::H: return qs::mH(); case T::SDg: return qs::mSd(); case T::TDg: return qs::mTd(); } return qs::mX(); }
// Multiplies a gate on; an RZ is diag(1, exp(i angle)), as its declaration says
bool act(qs::Vec& v, const gates::Gate& g)
{
    if (auto* b = std::get_if<gates::BasicSingleQubitGate>(&g)) { qs::apply(v, (int)b->target_qubit, basic_matrix(b->gate_type)); return true; }
    if (auto* r = std::get_if<gates::RZ>(&g)) { qs::apply(v, (int)r->target_qubit, qs::phase(Angle::of(r->pi_fraction).value())); return true; }
    if (auto* c = std::get_if<gates::ControlledGate>(&g)) {
        if (auto* b = std::get_if<gates::BasicSingleQubitGate>(&c->target_gate)) { qs::apply_controlled(v, (int)c->control_qubit, (int)b->target_qubit, basic_matrix(b->gate_type)); return true; }
        auto& r = std::get<gates::RZ>(c->target_gate); qs::apply_controlled(v, (int)c->control_qubit, (int)r.target_qubit, qs::phase(Angle::of(r.pi_fraction).value())); return true;
    }
    return false;
}
// Puts the rotations asked of the stand-in back in place of its markers
bool undo_markers(const std::vector<gates::Gate>& in, std::vector<gates::Gate>& out)
{
    std::map<QubitNum, S> word;
    for (auto& g : in) {
        if (auto* b = std::get_if<gates::BasicSingleQubitGate>(&g)) {
            using T = gates::BasicSingleQubitGate::Type; char ch = b->gate_type == T::H ? 'H' : b->gate_type == T::S ? 'S' : b->gate_type == T::T ? 'T' : 0; if (!ch) return false;
            S& w = word[b->target_qubit]; w += ch;
            if ((int)w.size() == MARK) { size_t i = 0; for (int k = 0; k < BITS; ++k) if (w[1 + k] == 'T') i |= size_t(1) << k; if (i >= stand.asked.size() || w != marker(i)) return false; out.push_back(gates::RZ{b->target_qubit, Fraction{stand.asked[i].p, stand.asked[i].q}}); w.clear(); }
        } else { for (auto q : gates::get_operating_qubits(g)) if (!word[q].empty()) return false; out.push_back(g); }
    }
    for (auto& [q, w] : word) if (!w.empty()) return false;
    return true;
}
S show(const std::vector<gates::Gate>& v) { S s; for (auto& g : v) { std::ostringstream o; lsqecc::operator<<(o, g); s += o.str() + " "; if (s.size() > 2000) { s += "..."; break; } } return s; }
S show(const Fraction& f) { return cat(f.is_negative ? "-(" : "", f.num, "/", f.den, f.is_negative ? ")" : ""); }

// A gate, or a circuit through the decomposing stream; what: name of the kind of case
void decide(vf::Ctx& c, int n, const std::vector<gates::Gate>& circuit, bool stream, bool markers, double digits, bool may_refuse, const S& what, const S& desc)
{
    c.begin(cat(what, ": ", desc)); c.count(vf::TRACES);
    stand = {}; stand.markers = markers;
    std::vector<gates::Gate> got; bool refused = false; S err;
    try {
        if (stream) {
            auto src = std::make_unique<ListGates>(); src->g = circuit; src->r = {"q", (QubitNum)n};
            DecomposeRotationStream st(std::move(src), digits);
            while (st.has_next_gate()) { got.push_back(st.get_next_gate()); if (got.size() > 4000) { c.violation(cat(what, ": the stream does not end"), desc); return; } }
        } else got = gates::decompose(circuit.at(0), digits);
    } catch (const std::exception& e) { refused = true; err = e.what(); }
    if (refused) { c.count(vf::SKIPPED); if (!may_refuse) c.violation(cat(what, ": refused"), cat(desc, "\n", err, "\n", stand.error)); return; }
    for (auto d : stand.digits) if (d != digits) c.violation(cat(what, ": another precision than requested"), cat(desc, "\nasked for ", d, " instead of ", digits));
    c.count(vf::TRANSITIONS, got.size());
    for (auto& g : got) { bool done = false; try { done = gates::is_decomposed(g); } catch (const std::exception&) {} if (!done) { c.violation(cat(what, ": the replacement itself is not decomposed"), cat(desc, "\n", show(got))); return; } for (auto q : gates::get_operating_qubits(g)) if ((int)q >= n) { c.violation(cat(what, ": a qubit is used that the gate does not name"), cat(desc, "\n", show(got))); return; } }
    std::vector<gates::Gate> plain;
    if (markers) { if (!undo_markers(got, plain)) { c.violation(cat(what, ": the answer of Gridsynth is not used whole"), cat(desc, "\n", show(got))); return; } } else plain = got;
    qs::Vec want = lsim::choi(n).v, have = want; for (auto& g : circuit) act(want, g); for (auto& g : plain) if (!act(have, g)) { c.violation(cat(what, ": unexpected gate in the replacement"), cat(desc, "\n", show(got))); return; }
    c.count(vf::EVALS); uint64_t h = vf::hash_str(cat(what, desc)); c.state(h);
    if (qs::diff_phase(want, have) > 1e-7) c.violation(cat(what, ": not the gate's unitary"), cat(desc, "\nreplaced by ", show(plain)));
}

using gates::RZ; using gates::CRZ;
std::vector<Fraction> fractions(bool quick, bool quarter)
{
    std::vector<Fraction> v; std::vector<int64_t> dens = {1, 2, 4}; if (!quarter) for (int64_t d : {3, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 24, 32, 64, 100, 1024, 65536}) dens.push_back(d);
    if (!quarter) { dens.push_back(int64_t(1) << 31); dens.push_back(int64_t(1) << 40); }
    int64_t top = quick ? 17 : 40;
    for (auto d : dens) for (int sg : {1, -1}) for (int64_t p = -top; p <= top; ++p) for (bool neg : {false, true}) v.push_back({p, sg * d, neg});
    return v;
}

void lsi_rz(vf::Ctx& c, const Fraction& f, bool local)
{
    S desc = cat("rz(", show(f), ")", local ? " local" : ""); c.begin(desc); c.count(vf::TRACES);
    ListGates gs; gs.g = {RZ{0, f}}; gs.r = {"q", 1}; IdGenerator ids; ids.set_start(1); std::vector<LSInstruction> prog;
    try { LSInstructionStreamFromGateStream st(gs, CNOTCorrectionMode::NEVER, ids, local); while (st.has_next_instruction()) prog.push_back(st.get_next_instruction()); }
    catch (const std::exception&) { c.count(vf::SKIPPED); return; }
    S text; for (auto& i : prog) text += cat(i, "\n");
    qs::Vec want = lsim::choi(1).v; act(want, RZ{0, f});
    lsim::Explorer x(1, prog); x.final_check = [&](const lsim::State& s) -> S { c.count(vf::EVALS); return lsim::same_up_to_pauli(want, s.v, 1) ? "" : "not the rotation"; };
    // S and its inverse differ by a Pauli, which belongs to the corrections, but the program must say which it is
    bool ok = x.run(); c.count(vf::TRANSITIONS, x.steps); c.count(vf::STATES, x.states);
    if (ok && prog.size() == 1) if (auto* g = std::get_if<SingleQubitOp>(&prog[0].operation)) { qs::Vec v = lsim::choi(1).v; using O = SingleQubitOp::Operator; qs::apply(v, 0, g->op == O::S ? (g->is_dagger ? qs::mSd() : qs::mS()) : g->op == O::Z ? qs::mZ() : g->op == O::X ? qs::mX() : g->op == O::Y ? qs::mY() : qs::mH()); ok = qs::diff_phase(v, want) < 1e-7; }
    if (!ok) c.violation("rz as instructions: not the rotation", cat(desc, "\n", text));
}

std::vector<std::pair<S, std::vector<gates::Gate>>> stream_alphabet()
{
    using S = std::string; using namespace gates; using G = std::vector<Gate>; auto cr = [](QubitNum t, QubitNum c, Fraction f) { return CRZ(t, c, f, CNOTType::ZX_WITH_MBM_CONTROL_FIRST, CNOTAncillaPlacement::USE_DEDICATED_CELL); };
    return {{"h 0", G{H(0)}}, {"x 1", G{X(1)}}, {"cx 0,1", G{CNOT(1, 0)}}, {"rz 0", G{RZ{0, {0, 1}}}}, {"rz(2pi) 0", G{RZ{0, {2, 1}}}}, {"rz(pi/4) 0", G{RZ{0, {1, 4}}}}, {"rz(-pi/2) 1", G{RZ{1, {1, 2, true}}}}, {"rz(3pi/4) 1", G{RZ{1, {3, 4}}}},
            {"crz(pi/2) 0,1", G{cr(1, 0, {1, 2})}}, {"crz(-3pi/2) 1,0", G{cr(0, 1, {3, 2, true})}}, {"crz(0) 0,1", G{cr(1, 0, {0, 2})}}, {"crz(2pi) 0,1", G{cr(1, 0, {4, 2})}}, {"tdg 0", G{TDg(0)}}, {"cz 1,0", G{CZ(0, 1)}}};
}

// The whole program: OpenQASM text in, lattice-surgery instructions out
void whole(vf::Ctx& c, const std::vector<std::pair<S, std::vector<gates::Gate>>>& seq, int digits, bool must, const S& opts = " -L compact")
{
    S text = "OPENQASM 2.0;\ninclude \"qelib1.inc\";\nqreg q[2];\n"; std::vector<gates::Gate> ideal; for (auto& [t, g] : seq) { text += t + "\n"; for (auto& x : g) ideal.push_back(x); }
    S desc = cat(opts, "\n", text); c.begin(desc); c.count(vf::TRACES);
    stand = {};
    auto r = vf::run_cli(cat("-I qasm --printlli before", digits ? cat(" --rzprecision ", digits) : S(), opts), text);
    if (!r.ok()) { c.count(vf::SKIPPED); if (must) c.violation("whole program: refused", cat(desc, "\n", r.what, r.err, stand.error)); return; }
    for (auto d : stand.digits) if (d != (digits ? digits : 10)) c.violation("whole program: another precision than requested", cat(desc, "\n", d));
    std::vector<LSInstruction> prog; std::istringstream in(r.out); for (S line; std::getline(in, line);) { if (line.empty() || line.starts_with("DeclareLogicalQubitPatches")) continue; try { prog.push_back(parse_ls_instruction(line)); } catch (const std::exception& e) { c.violation("whole program: unreadable instruction", cat(desc, "\n", line)); return; } }
    // the recorded defect of the CNOT's ancilla belongs to C08: a joined ancilla is measured in Z here
    for (size_t i = 0; i < prog.size(); ++i) if (auto* init = std::get_if<PatchInit>(&prog[i].operation)) for (size_t j = i + 1; j < prog.size(); ++j) if (auto* m = std::get_if<SinglePatchMeasurement>(&prog[j].operation); m && m->target == init->target) { m->observable = PauliOperator::Z; break; }
    // rotations of patches change no logical state; the S gate is realised by joint measurements with twists or catalysis
    qs::Vec want = lsim::choi(2).v; for (auto& g : ideal) act(want, g);
    lsim::Explorer x(2, prog); x.final_check = [&](const lsim::State& s) -> S { c.count(vf::EVALS); return lsim::same_up_to_pauli(want, s.v, 2) ? "" : "not the circuit"; };
    bool ok = x.run(); c.count(vf::TRANSITIONS, x.steps); c.count(vf::STATES, x.states);
    if (!ok) c.violation("whole program: not the circuit", cat(desc, "\n", x.why, "\n", r.out));
}
std::vector<std::pair<S, std::vector<gates::Gate>>> qasm_alphabet()
{
    using S = std::string; using namespace gates; using G = std::vector<Gate>; std::vector<std::pair<S, G>> a; auto cr = [](QubitNum t, QubitNum c, Fraction f) { return Gate{CRZ(t, c, f, CNOTType::ZX_WITH_MBM_CONTROL_FIRST, CNOTAncillaPlacement::USE_DEDICATED_CELL)}; };
    for (auto& [s, f] : std::vector<std::pair<S, Fraction>>{{"pi", {1, 1}}, {"-pi", {-1, 1}}, {"pi/2", {1, 2}}, {"-pi/2", {-1, 2}}, {"3*pi/2", {3, 2}}, {"-3*pi/2", {-3, 2}}}) { a.push_back({cat("crz(", s, ") q[0],q[1];"), G{cr(1, 0, f)}}); a.push_back({cat("crz(", s, ") q[1],q[0];"), G{cr(0, 1, f)}}); }
    for (auto& [s, f] : std::vector<std::pair<S, Fraction>>{{"pi", {1, 1}}, {"-pi", {-1, 1}}, {"pi/2", {1, 2}}, {"-pi/2", {-1, 2}}, {"pi/4", {1, 4}}, {"-pi/4", {-1, 4}}, {"3*pi/4", {3, 4}}, {"-5*pi/4", {-5, 4}}, {"4*pi/2", {4, 2}}}) for (QubitNum q = 0; q < 2; ++q) a.push_back({cat("rz(", s, ") q[", q, "];"), G{RZ{q, f}}});
    a.push_back({"h q[0];", G{H(0)}}); a.push_back({"h q[1];", G{H(1)}}); a.push_back({"cx q[0],q[1];", G{CNOT(1, 0)}});
    return a;
}

#ifdef USE_GRIDSYNTH
using Big = boost::multiprecision::number<boost::multiprecision::cpp_bin_float<120>>;
// Distance (operator norm, up to phase) of a product of Clifford+T gates from rz(pi/2^n), with 120 digits
void table(vf::Ctx& c, size_t n)
{
    auto seq = get_pi_over_2_to_the_n_rz_gate[n];
    S desc = cat("table entry ", n, " for rz(pi/2^", n, "), ", seq.size(), " gates"); c.begin(desc); c.count(vf::TRACES);
    if (seq.empty()) { c.violation("table: an entry is missing", desc); return; }
    struct C { Big re, im; }; auto add = [](const C& a, const C& b) { return C{a.re + b.re, a.im + b.im}; }; auto sub = [](const C& a, const C& b) { return C{a.re - b.re, a.im - b.im}; };
    const Big r2 = 1 / boost::multiprecision::sqrt(Big(2)); auto sc = [&](const C& a) { return C{a.re * r2, a.im * r2}; }; auto mi = [](const C& a) { return C{-a.im, a.re}; }; auto mw = [&](const C& a) { return sc(C{a.re - a.im, a.re + a.im}); };
    C a{1, 0}, b{0, 0}, d{0, 0}, e{1, 0}; // product so far (a b; d e), multiplied from the right
    for (char ch : seq) {
        c.count(vf::TRANSITIONS);
        if (ch == 'H') { C x = sc(add(a, b)), y = sc(sub(a, b)); a = x; b = y; x = sc(add(d, e)); y = sc(sub(d, e)); d = x; e = y; }
        else if (ch == 'S') { b = mi(b); e = mi(e); } else if (ch == 'T') { b = mw(b); e = mw(e); } else if (ch == 'X') { std::swap(a, b); std::swap(d, e); }
        else if (ch == 'Z') { b = {-b.re, -b.im}; e = {-e.re, -e.im}; } else if (ch != 'W') { c.violation("table: unknown gate", cat(desc, ": ", ch)); return; }
    }
    Big pi = boost::math::constants::pi<Big>(), half = pi / boost::multiprecision::pow(Big(2), (int)n + 1), co = boost::multiprecision::cos(half), si = boost::multiprecision::sin(half);
    // trace of rz^dagger times the product, rz = diag(exp(-i half), exp(i half))
    C t{co * a.re - si * a.im + co * e.re + si * e.im, co * a.im + si * a.re + co * e.im - si * e.re};
    Big ov = boost::multiprecision::sqrt(t.re * t.re + t.im * t.im) / 2, dist = boost::multiprecision::sqrt(boost::multiprecision::abs(2 - 2 * ov));
    c.count(vf::EVALS); c.state(n);
    if (dist > Big("1e-41")) c.violation("table: an entry is not its rotation", cat(desc, "\ndistance ", dist.str(6), "\n", seq));
    if (n <= 2 && dist > Big("1e-50")) c.violation("table: an exact rotation is only approximated", desc);
    if (n % 20 == 3) c.sample(cat(desc, ", distance ", dist.str(4)));
}
#endif
}

int main(int argc, char** argv)
{
    auto o = vf::parse_options("C21", argc, argv); bool q = o.quick();
    o.rule = cat("every entry of the pi/2^n table with 120 digits; RZ and controlled RZ by every fraction p/d with |p| <= ", q ? 17 : 40, " and 22 denominators, every sign, on every placement over three qubits, with the Gridsynth answer either exact or replaced by markers that are decoded again; "
                 "the decomposing stream on every sequence of up to ", q ? 4 : 5, " gates out of 14; RZ to lattice-surgery instructions over every measurement outcome; every OpenQASM program of up to ", q ? 2 : 3, " out of 33 statements; the default build without Gridsynth in a child process. A state is one gate or program, a transition one gate or instruction multiplied on.");
    o.assumptions = {"Gridsynth answers a Clifford+T product for the angle it is asked for (a Haskell library that is not part of this tree)", "an RZ gate is diag(1, exp(i angle)) and a controlled RZ its controlled version, as declared in gates.hpp and drawn at decompose_CRZ_gate",
                     "the table's stated accuracy is taken as 1e-41, the bound all its entries meet", "without Gridsynth a rotation may be refused"};
    auto fr = fractions(q, false), quarter = fractions(q, true);
#ifdef USE_GRIDSYNTH
    vf_gridsynth = answer; const bool child = false;
    vf::explore(o, "table", get_pi_over_2_to_the_n_rz_gate.size(), table);
    auto dig = [](size_t i) { return 8.0 + (double)(i % 40) / 2; };
#else
    const bool child = true;
    auto dig = [](size_t i) { return 8.0 + (double)(i % 40) / 2; };
#endif
    const bool refuse = child; S dflt = child ? "default build, " : "";
    vf::explore(o, dflt + "RZ", fr.size(), [&](vf::Ctx& c, uint64_t u) {
        const Fraction& f = fr[u];
        for (QubitNum t = 0; t < 3; ++t) for (bool stream : {false, true}) { decide(c, 3, {RZ{t, f}}, stream, !child, dig(u), refuse, "RZ", cat("rz(", show(f), ") on ", t, stream ? ", streamed" : "")); if (child || 4 % Angle::of(f).q == 0) decide(c, 3, {RZ{t, f}}, stream, false, dig(u), refuse, "RZ, exact", cat("rz(", show(f), ") on ", t, stream ? ", streamed" : "")); }
        if (u % 301 == 7) c.sample(cat("rz(", show(f), ")"));
    });
    vf::explore(o, dflt + "controlled RZ", fr.size(), [&](vf::Ctx& c, uint64_t u) {
        const Fraction& f = fr[u];
        for (QubitNum t = 0; t < 3; ++t) for (QubitNum k = 0; k < 3; ++k) if (k != t) for (bool stream : {false, true}) {
            gates::Gate g = CRZ(t, k, f, gates::CNOTType::ZX_WITH_MBM_CONTROL_FIRST, gates::CNOTAncillaPlacement::USE_DEDICATED_CELL); S d = cat("crz(", show(f), ") control ", k, " target ", t, stream ? ", streamed" : "");
            decide(c, 3, {g}, stream, !child, dig(u), refuse, "controlled RZ", d); if (child || 2 % Angle::of(f).q == 0) decide(c, 3, {g}, stream, false, dig(u), refuse, "controlled RZ, exact", d);
        }
        if (u % 301 == 8) c.sample(cat("crz(", show(f), ")"));
    });
    auto al = stream_alphabet();
    for (size_t len = 1; len <= (q ? 4u : 5u); ++len) { size_t tot = 1; for (size_t i = 1; i < len; ++i) tot *= al.size();
        vf::explore(o, dflt + cat("decomposing stream, ", len, " gates"), tot, [&](vf::Ctx& c, uint64_t u) { for (auto& last : al) { std::vector<gates::Gate> g; S d; size_t r = u; for (size_t i = 1; i < len; ++i) { auto& e = al[r % al.size()]; r /= al.size(); d += e.first + "; "; g.insert(g.end(), e.second.begin(), e.second.end()); } g.insert(g.end(), last.second.begin(), last.second.end()); d += last.first; decide(c, 2, g, true, false, 10, refuse, "stream", d); } }); }
    vf::explore(o, dflt + "rz to instructions", fr.size(), [&](vf::Ctx& c, uint64_t u) { for (bool local : {false, true}) lsi_rz(c, fr[u], local); });
    vf::explore(o, dflt + "quarter turns to instructions", quarter.size(), [&](vf::Ctx& c, uint64_t u) { for (bool local : {false, true}) lsi_rz(c, quarter[u], local); });
    auto qa = qasm_alphabet();
    vf::explore(o, dflt + "OpenQASM programs", qa.size() * qa.size(), [&](vf::Ctx& c, uint64_t u) {
        auto &a = qa[u / qa.size()], &b = qa[u % qa.size()];
        if (u / qa.size() == 0) { whole(c, {b}, 0, !child); if (!child) for (int d : {1, 7, 25}) whole(c, {b}, d, true); }
        whole(c, {a, b}, 0, !child); if (!child) for (S l : {" -L edpc", " -L edpc --notwists"}) whole(c, {a, b}, 5, true, l);
        if (!q) for (auto& e : qa) { if (c.stop()) return; whole(c, {a, b, e}, 0, !child); }
        if (u % 97 == 5) c.sample(a.first + " " + b.first);
    });
#ifdef USE_GRIDSYNTH
    if (getenv("VF_C21_DEFAULT")) { o.part = "default"; o.part_name = "default build, without Gridsynth"; }
#endif
    return vf::finish(o);
}
