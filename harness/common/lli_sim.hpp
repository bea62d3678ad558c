// What a lattice-surgery program does to its logical qubits: every outcome of every measurement is explored, an operation that
// is only wanted for some outcomes (the Clifford correction of a magic state injection) may be chosen or skipped per outcome.
#pragma once
#include "qsim.hpp"
#include "runner.hpp"
#include <lsqecc/ls_instructions/ls_instructions.hpp>
#include <map>
#include <optional>
#include <set>
#include <functional>

namespace lsim {
using namespace lsqecc;
using vf::cat;
using qs::Vec;

// Bit b of the state is live[b]; reference qubits get ids from 1<<40 up.
struct State {
    Vec v; std::vector<int64_t> live; std::set<PatchId> optional_s; std::map<PatchId, PatchId> magic; // magic state -> data qubit it was joined with
    std::set<PatchId> ystates;
    int bit(int64_t id) const { for (size_t i = 0; i < live.size(); ++i) if (live[i] == id) return (int)i; return -1; }
    void add(int64_t id, qs::cd zero, qs::cd one) { Vec w(v.size() * 2); for (size_t i = 0; i < v.size(); ++i) { w[i] = v[i] * zero; w[i + v.size()] = v[i] * one; } v.swap(w); live.push_back(id); }
    // removes a qubit in a known product state: drops it after projecting onto `keep`
    void drop(int b, qs::cd zero, qs::cd one) // projects qubit b on zero|0>+one|1> and forgets it
    {
        Vec w(v.size() / 2); size_t low = (size_t(1) << b) - 1;
        for (size_t i = 0; i < w.size(); ++i) { size_t a = (i & low) | ((i & ~low) << 1); w[i] = std::conj(zero) * v[a] + std::conj(one) * v[a | size_t(1) << b]; }
        v.swap(w); live.erase(live.begin() + b); normalise();
    }
    void normalise() { double n = std::sqrt(qs::norm2(v)); if (n > 0) for (auto& x : v) x /= n; }
};
constexpr int64_t REF = int64_t(1) << 40;
const double R2 = std::sqrt(0.5);

inline State choi(int n) { State s; s.v = {1}; for (int i = 0; i < n; ++i) s.add(i, 1, 0); for (int i = 0; i < n; ++i) { s.add(REF + i, R2, R2); qs::apply_controlled(s.v, n + i, i, qs::mX()); } return s; }

// Equal up to a Pauli on the first n bits and a phase
inline bool same_up_to_pauli(const Vec& a, const Vec& b, int n, bool exact = false)
{
    if (a.size() != b.size()) return false;
    for (uint64_t x = 0; x < (exact ? 1u : 1u << n); ++x) for (uint64_t z = 0; z < (exact ? 1u : 1u << n); ++z) { Vec p = qs::pauli(a, x, z); qs::cd ov = 0; for (size_t i = 0; i < b.size(); ++i) ov += std::conj(p[i]) * b[i]; if (std::abs(ov) > 1 - 1e-7) return true; }
    return false;
}

inline qs::M2 matrix(PauliOperator p) { return p == PauliOperator::X ? qs::mX() : p == PauliOperator::Y ? qs::mY() : qs::mZ(); }

struct Explorer {
    int n;                                   // data qubits, ids 0..n-1, in bits 0..n-1
    const std::vector<LSInstruction>& prog;
    std::function<std::string(const State&)> final_check;  // empty when fine
    bool optional_paulis = false;            // Paulis are corrections too: each may be applied or left out (and signs matter)
    bool s_allowed = true;                   // plain S operations may remain
    uint64_t outcomes = 0, steps = 0, states = 0;
    std::string why;                         // first reason for failing
    std::vector<std::vector<std::pair<State, bool>>> memo;
    std::set<PatchId> seen_ids;

    Explorer(int n_, const std::vector<LSInstruction>& p) : n(n_), prog(p), memo(p.size() + 1) {}
    bool fail(const std::string& w) { if (why.empty()) why = w; return false; }
    bool run() { return go(0, choi(n)); }

    bool fresh(const State& s, PatchId id) { return s.bit(id) < 0; }
    static int outcome_vectors(PauliOperator p, int o, qs::cd& z, qs::cd& w)
    {
        double sg = o ? -1 : 1; if (p == PauliOperator::Z) { z = o ? 0 : 1; w = o ? 1 : 0; } else if (p == PauliOperator::X) { z = R2; w = sg * R2; } else { z = R2; w = qs::cd(0, sg * R2); } return 0;
    }
    bool go(size_t i, State s)
    {
        for (; i < prog.size(); ++i) {
            bool boundary = (int)s.live.size() == 2 * n;
            if (boundary && !optional_paulis) {
                for (auto& [t, r] : memo[i]) if (t.live == s.live && t.optional_s == s.optional_s && same_up_to_pauli(t.v, s.v, n)) return r;
                ++states; size_t k = memo[i].size(); memo[i].emplace_back(s, true); bool r = step_on(i, s); memo[i][k].second = r; return r;
            }
            int r = step(i, s); if (r >= 0) return r;
        }
        return done(s);
    }
    bool step_on(size_t i, State s) { int r = step(i, s); if (r >= 0) return r; return go(i + 1, std::move(s)); }
    bool done(State& s)
    {
        if (!s.optional_s.empty()) { /* no correction followed: the final comparison decides */ }
        if ((int)s.live.size() != 2 * n) { for (auto id : s.live) if (id < REF && id >= n) return fail(cat("temporary patch ", id, " is still there at the end")); return fail("a data qubit is gone"); }
        std::string w = final_check(s); return w.empty() || fail(w);
    }
    // -1: continue with the next instruction, else the verdict
    int step(size_t i, State& s)
    {
        const LSInstruction& ins = prog[i]; ++steps;
        auto need = [&](PatchId id) { int b = s.bit(id); if (b < 0) fail(cat("no patch ", id, " at '", ins, "'")); return b; };
        if (auto* g = std::get_if<SingleQubitOp>(&ins.operation)) {
            int b = need(g->target); if (b < 0) return 0; using O = SingleQubitOp::Operator;
            if (optional_paulis && g->op != O::H && g->op != O::S) { State t = s; if (go(i + 1, std::move(t))) return 1; qs::apply(s.v, b, g->op == O::X ? qs::mX() : g->op == O::Y ? qs::mY() : qs::mZ()); bool r = go(i + 1, s); if (r) why.clear(); return r; }
            switch (g->op) {
                case O::X: qs::apply(s.v, b, qs::mX()); break; case O::Y: qs::apply(s.v, b, qs::mY()); break; case O::Z: qs::apply(s.v, b, qs::mZ()); break; case O::H: qs::apply(s.v, b, qs::mH()); break;
                case O::S:
                    if (!s_allowed) return fail(cat("S gate left in place on ", g->target));
                    if (s.optional_s.count(g->target)) { s.optional_s.erase(g->target); State t = s; if (go(i + 1, std::move(t))) return 1; auto keep = why; qs::apply(s.v, b, g->is_dagger ? qs::mSd() : qs::mS()); bool r = go(i + 1, s); if (r) why.clear(); return r; }
                    qs::apply(s.v, b, g->is_dagger ? qs::mSd() : qs::mS()); break;
            }
            return -1;
        }
        if (std::holds_alternative<RotateSingleCellPatch>(ins.operation)) return need(std::get<RotateSingleCellPatch>(ins.operation).target) < 0 ? 0 : -1;
        if (auto* p = std::get_if<PatchInit>(&ins.operation)) { if (!fresh(s, p->target)) return fail(cat("identifier ", p->target, " prepared while in use")); bool plus = p->state == PatchInit::InitializeableStates::Plus; s.add(p->target, plus ? R2 : 1, plus ? R2 : 0); return -1; }
        if (auto* m = std::get_if<MagicStateRequest>(&ins.operation)) { if (!fresh(s, m->target)) return fail(cat("identifier ", m->target, " requested while in use")); if (need(m->near_patch) < 0) return 0; s.add(m->target, R2, std::polar(R2, qs::PI / 4)); s.magic[m->target] = m->target; return -1; }
        if (auto* y = std::get_if<YStateRequest>(&ins.operation)) {
            if (s.ystates.count(y->target) && s.bit(y->target) >= 0) { // handed back
                int b = s.bit(y->target); Vec p = qs::project(s.v, uint64_t(1) << b, uint64_t(1) << b, 0); double pr = qs::norm2(p);
                if (pr > 1e-6 && pr < 1 - 1e-6) return fail(cat("Y state ", y->target, " handed back in another state"));
                int o = pr < 0.5; qs::cd z, w; outcome_vectors(PauliOperator::Y, o, z, w); s.drop(b, z, w); s.ystates.erase(y->target); return -1;
            }
            if (!fresh(s, y->target)) return fail(cat("identifier ", y->target, " requested while in use"));
            if (need(y->near_patch) < 0) return 0;
            State t = s; bool opt = s.optional_s.count(y->near_patch);
            if (opt) { // the whole block may be skipped
                t.optional_s.erase(y->near_patch); s.optional_s.erase(y->near_patch);
                size_t j = i + 1; for (; j < prog.size(); ++j) { if (auto* q = std::get_if<SinglePatchMeasurement>(&prog[j].operation); q && q->target == y->target) break; if (auto* q = std::get_if<YStateRequest>(&prog[j].operation); q && q->target == y->target) break; }
                if (go(std::min(j + 1, prog.size()), std::move(t))) return 1;
            }
            s.add(y->target, R2, qs::cd(0, R2)); s.ystates.insert(y->target);
            if (opt) { bool r = go(i + 1, s); if (r) why.clear(); return r; }
            return -1;
        }
        if (auto* m = std::get_if<MultiPatchMeasurement>(&ins.operation)) {
            uint64_t x = 0, z = 0; 
            for (auto& [id, op] : m->observable) { int b = need(id); if (b < 0) return 0; if (op == PauliOperator::X || op == PauliOperator::Y) x |= uint64_t(1) << b; if (op == PauliOperator::Z || op == PauliOperator::Y) z |= uint64_t(1) << b; }
            for (auto& [id, op] : m->observable) if (s.magic.count(id)) for (auto& [id2, op2] : m->observable) if (id2 != id && (int64_t)id2 < n) s.magic[id] = id2;
            Vec plus = qs::project(s.v, x, z, 0), minus = qs::project(s.v, x, z, 1);
            for (int o = 0; o < 2; ++o) { State t = s; t.v = o ? minus : plus; double p = qs::norm2(t.v); if (p < 1e-9) continue; ++outcomes; t.normalise(); if (!go(i + 1, std::move(t))) return 0; }
            return 1;
        }
        if (auto* m = std::get_if<SinglePatchMeasurement>(&ins.operation)) {
            int b = need(m->target); if (b < 0) return 0;
            if (auto it = s.magic.find(m->target); it != s.magic.end()) { if (it->second != m->target) s.optional_s.insert(it->second); s.magic.erase(it); }
            s.ystates.erase(m->target);
            for (int o = 0; o < 2; ++o) { qs::cd z, w; outcome_vectors(m->observable, o, z, w); uint64_t mb = uint64_t(1) << b; Vec pr = qs::project(s.v, m->observable == PauliOperator::Z ? 0 : mb, m->observable == PauliOperator::X ? 0 : mb, o); if (qs::norm2(pr) < 1e-9) continue; ++outcomes; State t = s; t.v = pr; t.drop(b, z, w); if (!go(i + 1, std::move(t))) return 0; }
            return 1;
        }
        if (auto* c = std::get_if<BellBasedCNOT>(&ins.operation)) {
            int a = need(c->control), b = need(c->target); if (a < 0 || b < 0) return 0;
            if (!fresh(s, c->side1) || !fresh(s, c->side2) || c->side1 == c->side2) return fail(cat("ends of '", ins, "' are not new"));
            if (a == b) return fail("control is target");
            qs::apply_controlled(s.v, a, b, qs::mX());
            if (s.magic.count(c->target)) s.magic[c->target] = c->control; if (s.magic.count(c->control)) s.magic[c->control] = c->target;
            return -1;
        }
        if (auto* b = std::get_if<BellPairInit>(&ins.operation)) {
            if (!fresh(s, b->side1) || !fresh(s, b->side2) || b->side1 == b->side2) return fail("Bell pair ends are not new");
            s.add(b->side1, R2, R2); s.add(b->side2, 1, 0); qs::apply_controlled(s.v, (int)s.live.size() - 2, (int)s.live.size() - 1, qs::mX()); return -1;
        }
        if (auto* r = std::get_if<PatchReset>(&ins.operation)) {
            int b = need(r->target); if (b < 0) return 0;
            for (int o = 0; o < 2; ++o) { Vec pr = qs::project(s.v, 0, uint64_t(1) << b, o); if (qs::norm2(pr) < 1e-9) continue; ++outcomes; State t = s; t.v = pr; t.normalise(); if (o) qs::apply(t.v, b, qs::mX()); if (!go(i + 1, std::move(t))) return 0; }
            return 1;
        }
        return fail(cat("unexpected '", ins, "'"));
    }
};
}
