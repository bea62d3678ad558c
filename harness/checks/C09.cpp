// C09: boundary rotation injection. Every short instruction stream over every small grid (and the generated compact layouts)
// through the real stream, the output replayed against the geometry of the grid; then short programs through the command line.
#include "common/cli.hpp"
#include "common/runner.hpp"
#include <lsqecc/layout/ascii_layout_spec.hpp>
#include <lsqecc/layout/dynamic_layouts/compact_layout.hpp>
#include <lsqecc/ls_instructions/boundary_rotation_injection_stream.hpp>
#include <lsqecc/ls_instructions/ls_instructions_parse.hpp>
#include <map>
#include <set>

using namespace lsqecc;
using vf::cat;

namespace {
using S = std::string; using V = std::vector<S>;

struct Source : LSInstructionStream {
    std::vector<LSInstruction> v; size_t i = 0; tsl::ordered_set<PatchId> core;
    LSInstruction get_next_instruction() override { return v.at(i++); }
    bool has_next_instruction() const override { return i < v.size(); }
    const tsl::ordered_set<PatchId>& core_qubits() const override { return core; }
};

// Which sides of each core tile touch a free tile; [0] vertical (top, bottom), [1] horizontal.
struct Geometry { std::map<PatchId, std::array<bool, 2>> free; };

Geometry geometry(const V& rows, const std::vector<PatchId>& ids)
{
    Geometry g; size_t k = 0; auto at = [&](int r, int c) { return r < 0 || c < 0 || r >= (int)rows.size() || c >= (int)rows[r].size() ? '#' : rows[r][c]; };
    auto fr = [&](int r, int c) { char x = at(r, c); return x == 'r' || x == 'A'; };
    for (int r = 0; r < (int)rows.size(); ++r) for (int c = 0; c < (int)rows[r].size(); ++c) if (rows[r][c] == 'Q') { if (k < ids.size()) g.free[ids[k]] = {fr(r - 1, c) || fr(r + 1, c), fr(r, c - 1) || fr(r, c + 1)}; ++k; }
    return g;
}

struct Replay {
    const Geometry& g; std::map<PatchId, bool> turned;  // a turned patch has its X sides at top and bottom
    bool inside(PatchId p) const { return g.free.count(p) != 0; }
    bool exposed(PatchId p, PauliOperator op) const { bool t = turned.count(p) && turned.at(p); bool vertical = (op == PauliOperator::Z) != t; return g.free.at(p)[vertical ? 0 : 1]; }
    bool possible(PatchId p) const { auto& f = g.free.at(p); return f[0] || f[1]; }
};

std::vector<std::pair<PatchId, PauliOperator>> measured(const LSInstruction& i, bool s_too)
{
    std::vector<std::pair<PatchId, PauliOperator>> v;
    if (auto* m = std::get_if<MultiPatchMeasurement>(&i.operation)) for (auto& [p, op] : m->observable) v.emplace_back(p, op);
    else if (auto* b = std::get_if<BellBasedCNOT>(&i.operation)) { v.emplace_back(b->control, PauliOperator::Z); v.emplace_back(b->target, PauliOperator::X); }
    else if (auto* s = std::get_if<SingleQubitOp>(&i.operation); s && s_too && s->op == SingleQubitOp::Operator::S) v.emplace_back(s->target, PauliOperator::Z);
    return v;
}
void effect(Replay& r, const LSInstruction& i)
{
    if (auto* q = std::get_if<SingleQubitOp>(&i.operation); q && q->op == SingleQubitOp::Operator::H && r.inside(q->target)) r.turned[q->target] ^= true;
    if (auto* q = std::get_if<RotateSingleCellPatch>(&i.operation); q && r.inside(q->target)) r.turned[q->target] ^= true;
}
// Every joint measurement reaches free space.
S exposure(const Geometry& g, const std::vector<LSInstruction>& out, bool s_too)
{
    Replay r{g, {}}; size_t k = 0;
    for (auto& i : out) {
        for (auto& [p, op] : measured(i, s_too)) if (op != PauliOperator::Y && r.inside(p) && r.possible(p) && !r.exposed(p, op)) return cat("instruction ", k, " '", i, "' measures an operator of patch ", p, " that no free tile touches");
        effect(r, i); ++k;
    }
    return {};
}
// The output is the input plus rotations, each needed by the instruction it precedes.
bool embeds(const Geometry& g, const std::vector<LSInstruction>& in, size_t ii, const std::vector<LSInstruction>& out, size_t oo, Replay r, std::vector<std::pair<PatchId, Replay>> pending, bool s_too, S& why)
{
    if (oo == out.size()) { if (ii < in.size()) { why = cat("'", in[ii], "' is missing at the end"); return false; } if (!pending.empty()) { why = "a rotation is added at the end"; return false; } return true; }
    auto& o = out[oo];
    if (ii < in.size() && o == in[ii]) {
        bool ok = true; auto m = measured(o, s_too);
        for (auto& [p, before] : pending) {
            bool needed = false; for (auto& [id, op] : m) if (id == p && (op == PauliOperator::Y || !before.exposed(p, op))) needed = true;
            if (!needed) { why = cat("the rotation of patch ", p, " added before '", o, "' is not needed by it"); ok = false; break; }
        }
        if (ok) { Replay r2 = r; effect(r2, o); if (embeds(g, in, ii + 1, out, oo + 1, r2, {}, s_too, why)) return true; }
    }
    if (auto* q = std::get_if<RotateSingleCellPatch>(&o.operation)) {
        for (auto& [p, b] : pending) if (p == q->target) { why = cat("patch ", p, " is rotated twice"); return false; }
        if (!r.inside(q->target)) { if (why.empty()) why = cat("a rotation of patch ", q->target, " is added, which is not part of the layout"); return false; }
        auto p2 = pending; p2.emplace_back(q->target, r); Replay r2 = r; effect(r2, o); return embeds(g, in, ii, out, oo + 1, r2, p2, s_too, why);
    }
    if (why.empty()) why = cat("'", o, "' is not the next instruction of the input", ii < in.size() ? cat(", '", in[ii], "'") : "");
    return false;
}

V lines(const S& s) { V v; std::istringstream i(s); S l; while (std::getline(i, l)) if (!l.empty()) v.push_back(l); return v; }
S shown(const std::vector<LSInstruction>& p) { S s; for (auto& i : p) s += cat(i, "\n"); return s; }

void judge(vf::Ctx& c, const S& kind, const Geometry& g, const std::vector<LSInstruction>& in, const std::vector<LSInstruction>& out, const S& what)
{
    S w = exposure(g, out, true);
    if (!w.empty()) c.violation(cat(kind, ": a measured operator is not exposed"), cat(w, "\n", what, "input:\n", shown(in), "output:\n", shown(out)));
    S why; Replay r{g, {}};
    if (!embeds(g, in, 0, out, 0, r, {}, true, why)) c.violation(cat(kind, ": the stream is not the input plus needed rotations"), cat(why, "\n", what, "input:\n", shown(in), "output:\n", shown(out)));
}

struct Case { S name; V rows; std::unique_ptr<Layout> layout; std::vector<PatchId> ids; };
}

int main(int argc, char** argv)
{
    auto o = vf::parse_options("C09", argc, argv);
    o.rule = "Every stream of up to 4 instructions (5 thorough; one less over three qubits) from an alphabet of joint measurements, Bell-based CNOTs, H, S, X, explicit rotations and ancilla operations, over every grid of up to three rows and three columns of qubit, routing and dead tiles with two or three "
             "qubits (one representative of each pattern of free sides), every generated compact layout up to six qubits, and Y operators where only order is judged; the real stream's output is replayed on the grid. Then OpenQASM and "
             "lattice-surgery programs through the command line with the compact layouts. A state is an orientation of the qubits with the pattern of free sides.";
    o.assumptions = {"No identifier of a layout qubit is used again for a new patch after the qubit is measured.", "An S gate counts as the Z measurement it becomes, a Bell-based CNOT as measuring Z of the control and X of the target.",
                     "Routing space is judged on the first slice: routing and ancilla tiles."};
    bool q = o.quick();
    DistillationOptions dopt;
    std::vector<Case> cases; std::set<S> patterns;
    auto add = [&](const V& rows, std::unique_ptr<Layout> l, std::vector<PatchId> ids, bool all) {
        auto g = geometry(rows, ids); S key = cat(ids.size(), ":"); for (auto id : ids) key += cat(g.free[id][0], g.free[id][1], ","); if (!all && !patterns.insert(key).second) return; patterns.insert(key);
        S n; for (auto& r : rows) n += (n.empty() ? "" : "/") + r; cases.push_back({n, rows, std::move(l), ids});
    };
    for (int n = 1; n <= 6; ++n) for (bool nc : {false, true}) {
        auto l = make_compact_layout(n, dopt, nc); auto far = l->furthest_cell(); V rows(far.row + 1, S(far.col + 1, 'r'));
        for (auto& p : l->core_patches()) { auto c = std::get<SingleCellOccupiedByPatch>(p.cells).cell; rows[c.row][c.col] = 'Q'; }
        for (auto& d : l->distillation_regions()) for (auto& c : d.sub_cells) rows[c.cell.row][c.cell.col] = '0';
        for (auto& c : l->reserved_for_magic_states()) rows[c.row][c.col] = 'M'; for (auto& c : l->ancilla_location()) rows[c.row][c.col] = 'A';
        std::vector<PatchId> ids; for (int i = 0; i < n; ++i) ids.push_back(i); add(rows, std::move(l), ids, true);
    }
    for (int R = 1; R <= 3; ++R) for (int C = 1; C <= 3; ++C) {
        const S ch = "rQXA"; int cells = R * C; uint64_t total = 1; for (int i = 0; i < cells; ++i) total *= (cells > 6 ? 3 : 4);
        for (uint64_t k = 0; k < total; ++k) {
            S flat; uint64_t x = k; for (int i = 0; i < cells; ++i) { flat += ch[x % (cells > 6 ? 3 : 4)]; x /= (cells > 6 ? 3 : 4); }
            auto nq = std::count(flat.begin(), flat.end(), 'Q'); if (nq < 1 || nq > 3) continue;
            V rows; for (int r = 0; r < R; ++r) rows.push_back(flat.substr(r * C, C)); S text; for (auto& r : rows) text += r + "\n";
            std::vector<PatchId> ids; for (int i = 0; i < nq; ++i) ids.push_back(nq == 2 ? 4 - 3 * i : i); // two qubits: ids 4 and 1
            auto g = geometry(rows, ids); S key = cat(ids.size(), ":"); for (auto id : ids) key += cat(g.free[id][0], g.free[id][1], ","); if (patterns.count(key)) continue;
            add(rows, std::make_unique<LayoutFromSpec>(text, dopt), ids, false);
        }
    }
    auto alphabet = [&](const std::vector<PatchId>& ids, bool y) {
        V t; PatchId a = ids[0], b = ids.back();
        for (auto p : ids) if (p == a || p == b) { t.push_back(cat("HGate ", p)); t.push_back(cat("RotateSingleCellPatch ", p)); t.push_back(cat("SGate ", p)); t.push_back(cat("MultiBodyMeasure ", p, ":Z,90:X")); t.push_back(cat("MultiBodyMeasure 90:Z,", p, ":X")); }
        t.push_back("XGate " + cat(a)); t.push_back("RotateSingleCellPatch 90"); t.push_back("Init 90 |0>"); t.push_back("MeasureSinglePatch 90 X");
        if (a != b) { for (S x : {"X", "Z"}) for (S z : {"X", "Z"}) t.push_back(cat("MultiBodyMeasure ", a, ":", x, ",", b, ":", z)); t.push_back(cat("BellBasedCNOT ", a, " ", b, " 91 92")); t.push_back(cat("BellBasedCNOT ", b, " ", a, " 91 92")); t.push_back(cat("BellPairInit 93 94 ", a, ":Z,", b, ":X")); }
        if (ids.size() > 2) { t.push_back(cat("MultiBodyMeasure ", ids[0], ":X,", ids[1], ":X,", ids[2], ":Z")); t.push_back(cat("HGate ", ids[1])); }
        t.push_back(cat("MultiBodyMeasure -", a, ":Z,90:Z"));
        if (y) { t.push_back(cat("MultiBodyMeasure ", a, ":Y,90:X")); t.push_back(cat("MultiBodyMeasure ", a, ":Y,", b == a ? 90 : b, ":Z")); }
        std::vector<LSInstruction> v; for (auto& s : t) v.push_back(parse_ls_instruction(s)); return v;
    };
    for (bool y : {false, true}) {
        const size_t SPLIT = 40;
        vf::explore(o, y ? "streams with Y operators" : "streams", cases.size() * SPLIT, [&](vf::Ctx& c, uint64_t u) {
            auto& cs = cases[u / SPLIT]; auto alpha = alphabet(cs.ids, y); if (u % SPLIT >= alpha.size()) return;
            auto g = geometry(cs.rows, cs.ids); int depth = (q ? 4 : 5) - (cs.ids.size() > 2) - y;
            std::vector<LSInstruction> prog{alpha[u % SPLIT]};
            std::function<void(int)> rec = [&](int d) {
                if (c.stop()) return;
                c.begin(cat("grid ", cs.name, "\n", shown(prog))); c.count(vf::TRACES);
                auto src = std::make_unique<Source>(); src->v = prog; for (auto id : cs.ids) src->core.insert(id);
                std::vector<LSInstruction> out;
                try { BoundaryRotationInjectionStream st(std::move(src), *cs.layout); while (st.has_next_instruction()) { out.push_back(st.get_next_instruction()); c.count(vf::TRANSITIONS); if (out.size() > 6 * prog.size() + 6) break; } }
                catch (const std::exception& e) { c.violation("the stream fails", cat(e.what(), "\n", shown(prog))); }
                judge(c, "stream", g, prog, out, cat("grid ", cs.name, "\n"));
                Replay r{g, {}}; for (auto& i : out) effect(r, i); uint64_t h = 7; for (auto id : cs.ids) h = h * 31 + (r.turned[id] ? 2 : 1) + 4 * g.free[id][0] + 8 * g.free[id][1]; c.state(h);
                if (d) for (auto& a : alpha) { prog.push_back(a); rec(d - 1); prog.pop_back(); }
            };
            rec(depth - 1);
        });
    }
    // through the command line
    vf::explore(o, "command line", 2 * 6 * 14, [&](vf::Ctx& c, uint64_t u) {
        bool nc = u & 1; int n = 1 + u / 2 % 6; size_t f = u / 12; S opt = nc ? "-L compact_no_clogging --printlli before" : "-L compact --printlli before";
        auto it = std::find_if(cases.begin(), cases.end(), [&](auto& cs) { return (int)cs.ids.size() == n && cs.layout->magic_states_reserved() == nc && !cs.layout->ancilla_location().empty() && cs.rows.size() == 3 && cs.ids[0] == 0; });
        if (it == cases.end()) return; auto g = geometry(it->rows, it->ids);
        V alpha; for (int i : std::set<int>{0, n / 2, n - 1}) { alpha.push_back(cat("h q[", i, "];")); alpha.push_back(cat("s q[", i, "];")); alpha.push_back(cat("t q[", i, "];")); }
        if (n > 1) for (S ann : {"", "xzwithmbmtargetfirst", "zxwithmbmcontrolfirst"}) { S t = ann.empty() ? "" : ""; if (!ann.empty()) continue; alpha.push_back(cat("cx q[0],q[", n - 1, "];", t)); alpha.push_back(cat("cx q[", n - 1, "],q[0];", t)); alpha.push_back(cat("cz q[", n / 2 == n - 1 ? 0 : n / 2, "],q[", n - 1, "];")); }
        if (f >= alpha.size()) return;
        V prog{alpha[f]};
        std::function<void(int)> rec = [&](int d) {
            if (c.stop()) return;
            for (bool local : {false, true}) {
                S text = cat("OPENQASM 2.0;\nqreg q[", n, "];\n"); for (auto& l : prog) text += l + "\n"; c.begin(cat("openqasm ", opt, local ? " --local" : "", "\n", text)); c.count(vf::TRACES);
                auto r = vf::run_cli("-I qasm " + opt + (local ? " --local" : ""), text); if (!r.ok()) { c.count(vf::SKIPPED); continue; }
                std::vector<LSInstruction> out; for (auto& l : lines(r.out)) out.push_back(parse_ls_instruction(std::string_view(l)));
                S w = exposure(g, out, true); if (!w.empty()) c.violation("command line: a measured operator is not exposed", cat(w, "\n", r.out));
                c.count(vf::TRANSITIONS, out.size());
            }
            if (d) for (auto& a : alpha) { prog.push_back(a); rec(d - 1); prog.pop_back(); }
        };
        rec(q ? 3 : 4);
    });
    return vf::finish(o);
}
