// C07: edge-disjoint path compilation. Every sequence of Bell-based CNOTs up to a length, and every set of disjoint ones, on a family of
// layouts, through the real wave scheduler in its edpc mode; each slice judged by the reference semantics.
#include "common/slicer_explore.hpp"
#include <lsqecc/layout/dynamic_layouts/edpc_layout.hpp>
using namespace vf; using S = std::string;
namespace {
void run_one(Ctx& c, const S& name, const LayoutModel& L, const Layout& layout, const std::vector<PatchId>& core, const std::vector<LSInstruction>& prog, GraphSearchProvider prov, int cap)
{
    RunConfig rc{PipelineMode::EDPC, prov}; c.begin(cat("layout ", name, " [", L.text, "]\nedpc ", prov_name(prov), "\n", program_text(core, prog)));
    Monitor m(L, core, prog, PipelineMode::EDPC, false, true); bool done = run_monitored(L, layout, core, prog, rc, false, cap, m, &c, true);
    c.count(TRACES); if (done) c.count(AUX1); else if (!m.failed()) c.count(AUX2);
    c.count(AUX4, m.crossings);
    for (auto& v : m.verdicts()) c.violation(v.key, v.detail);
}
// The generated layout as text, from what it says of its tiles
S text_of(const Layout& l)
{
    std::vector<S> g(l.furthest_cell().row + 1, S(l.furthest_cell().col + 1, 'r')); auto put = [&](const Cell& c, char ch) { g.at(c.row).at(c.col) = ch; };
    for (auto& p : l.core_patches()) for (auto& c : p.get_cells()) put(c, 'Q');
    for (auto& c : l.ancilla_location()) put(c, 'A');
    for (auto& c : l.dead_location()) put(c, 'X');
    for (auto& c : l.reserved_for_magic_states()) put(c, 'M');
    for (auto& c : l.predistilled_y_states()) put(c, 'Y');
    char d = '0'; for (auto& r : l.distillation_regions()) { for (auto& x : r.sub_cells) put(x.cell, d); d = d == '9' ? '0' : d + 1; }
    S t; for (auto& r : g) t += (t.empty() ? "" : "\n") + r; return t;
}
}
int main(int argc, char** argv)
{
    auto o = parse_options("C07", argc, argv); bool q = o.quick();
    o.aux_names = {{AUX1, "runs_completed"}, {AUX2, "runs_cut_at_horizon"}, {AUX3, "divergences_belonging_to_other_properties"}, {AUX4, "crossings_seen"}};
    struct Grid { S name, text; int n, kq, kt; };
    std::vector<Grid> grids = {
        {"square", "rrrrr\nrQrQr\nrrrrr\nrQrQr\nrrrrr", 4, 4, 5}, {"square, two lanes", "rrrrrrrr\nrrrrrrrr\nrrQrrQrr\nrrrrrrrr\nrrrrrrrr\nrrQrrQrr\nrrrrrrrr\nrrrrrrrr", 4, 4, 5},
        {"row", "rrrrrrrrr\nrQrQrQrQr\nrrrrrrrrr", 4, 4, 5}, {"column", "rrr\nrQr\nrrr\nrQr\nrrr\nrQr\nrrr\nrQr\nrrr", 4, 4, 5},
        {"crossroads", "XXrQrXX\nXXrrrXX\nrrrrrrr\nQrrrrrQ\nrrrrrrr\nXXrrrXX\nXXrQrXX", 4, 4, 5}, {"narrow crossroads", "XrQrX\nrrrXr\nQrrrQ\nrXrrr\nXrQrX", 4, 4, 5},
        {"six", "rrrrrrr\nrQrQrQr\nrrrrrrr\nrQrQrQr\nrrrrrrr", 6, 3, 4},
        {"shared walls", "rrrrrrr\nXQXrXQX\nrrrrrrr\nXQXrXQX\nrrrrrrr\nXQXrXQX\nrrrrrrr", 6, 3, 4},
        {"nine", "rrrrrrr\nrQrQrQr\nrrrrrrr\nrQrQrQr\nrrrrrrr\nrQrQrQr\nrrrrrrr", 9, 3, 3}};
    for (int n = 2; n <= 9; ++n) for (bool cond : {false, true}) for (bool expl : {false, true}) { if (expl && n > 4) continue; grids.push_back({cat("edpc for ", n, cond ? ", condensed" : "", expl ? ", explicit factories" : ""), text_of(*make_edpc_layout(n, 1, cond, expl, !expl, DistillationOptions{false, 4})), n, n > 8 ? 2 : n > 4 ? 3 : 4, n > 5 ? 3 : n > 4 ? 4 : 5}); }
    if (getenv("C07_LAYOUTS")) for (auto& g : grids) printf("%s\n%s\n\n", g.name.c_str(), g.text.c_str());
    for (auto& g : grids) for (auto prov : {GraphSearchProvider::Djikstra, GraphSearchProvider::AStar}) {
        int k = (q ? g.kq : g.kt) - (prov == GraphSearchProvider::AStar); LayoutModel L(g.text, 4, false); LayoutFromSpec layout(g.text, DistillationOptions{false, 4}); std::vector<PatchId> core; for (int i = 0; i < g.n; ++i) core.push_back(i);
        std::vector<std::pair<int, int>> pairs; for (int a = 0; a < g.n; ++a) for (int b = 0; b < g.n; ++b) if (a != b) pairs.push_back({a, b});
        explore(o, cat("sequences: ", g.name, ", ", prov_name(prov)), pairs.size() * pairs.size(), [&](Ctx& c, uint64_t u) {
            std::vector<LSInstruction> prog; auto push = [&](size_t x) { int p = 100 + 2 * prog.size(); prog.push_back(parse_ls_instruction(cat("BellBasedCNOT ", pairs[x].first, " ", pairs[x].second, " ", p, " ", p + 1))); };
            std::function<void(int)> rec = [&](int d) { run_one(c, g.name, L, layout, core, prog, prov, 60); if (d >= k) return; for (size_t x = 0; x < pairs.size() && !c.stop(); ++x) { push(x); rec(d + 1); prog.pop_back(); } };
            push(u / pairs.size()); if (u % pairs.size() == 0) run_one(c, g.name, L, layout, core, prog, prov, 60); if (k < 2) return; push(u % pairs.size()); rec(2);
        });
    }
    // sets of disjoint pairs
    struct Sets { S name, text; int n; int kq, kt; };
    std::vector<Sets> sets = {{"eight in two rows", "rrrrrrrrr\nrQrQrQrQr\nrrrrrrrrr\nrQrQrQrQr\nrrrrrrrrr", 8, 4, 4}, {"eight in a ring", "rrrrrrr\nrQrQrQr\nrrrrrrr\nrQrXrQr\nrrrrrrr\nrQrQrQr\nrrrrrrr", 8, 4, 4},
        {"nine in a square", "rrrrrrr\nrQrQrQr\nrrrrrrr\nrQrQrQr\nrrrrrrr\nrQrQrQr\nrrrrrrr", 9, 3, 4}, {"six in a row", "rrrrrrrrrrrrr\nrQrQrQrQrQrQr\nrrrrrrrrrrrrr", 6, 3, 3}};
    for (bool cond : {false, true}) for (int n : {6, 7, 8, 9, 12, 16}) sets.push_back({cat("edpc for ", n, cond ? ", condensed" : ""), text_of(*make_edpc_layout(n, 1, cond, false, true, DistillationOptions{false, 4})), n, n > 9 ? 2 : n > 7 ? 3 : 4, n > 12 ? 2 : n > 9 ? 3 : 4});
    for (auto& g : sets) {
        int k = q ? g.kq : g.kt; LayoutModel L(g.text, 4, false); LayoutFromSpec layout(g.text, DistillationOptions{false, 4}); std::vector<PatchId> core; for (int i = 0; i < g.n; ++i) core.push_back(i);
        explore(o, cat("disjoint sets: ", g.name), g.n * g.n, [&](Ctx& c, uint64_t u) {
            std::vector<LSInstruction> prog; std::vector<char> used(g.n, 0); auto push = [&](int a, int b) { int p = 100 + 2 * prog.size(); used[a] = used[b] = 1; prog.push_back(parse_ls_instruction(cat("BellBasedCNOT ", a, " ", b, " ", p, " ", p + 1))); };
            std::function<void(int)> rec = [&](int d) { run_one(c, g.name, L, layout, core, prog, GraphSearchProvider::Djikstra, 80); if (d >= k) return; for (int a = 0; a < g.n; ++a) for (int b = 0; b < g.n && !c.stop(); ++b) if (a != b && !used[a] && !used[b]) { push(a, b); rec(d + 1); prog.pop_back(); used[a] = used[b] = 0; } };
            int a = u / g.n, b = u % g.n; if (a == b) return; push(a, b); rec(1);
        });
    }
    // a square full of crossings: controls above and below it, targets to its left and right
    struct Plaza { int h, w, kq, kt; };
    for (auto& z : std::vector<Plaza>{{2, 2, 4, 4}, {2, 4, 4, 4}, {4, 2, 4, 4}, {3, 3, 4, 6}, {2, 5, 4, 4}, {4, 3, 3, 4}, {4, 4, 3, 3}}) {
        S g = cat("X", S(z.w, 'Q'), "X"), row = cat("\nQ", S(z.w, 'r'), "Q"), text = g; for (int i = 0; i < z.h; ++i) text += row; text += "\n" + g;
        int n = 2 * z.w + 2 * z.h, k = q ? z.kq : z.kt; std::vector<int> from, to; for (int i = 0; i < n; ++i) (i < z.w || i >= n - z.w ? from : to).push_back(i);
        LayoutModel L(text, 4, false); LayoutFromSpec layout(text, DistillationOptions{false, 4}); std::vector<PatchId> core; for (int i = 0; i < n; ++i) core.push_back(i);
        explore(o, cat("crossings on a square of ", z.h, " by ", z.w), from.size() * to.size(), [&](Ctx& c, uint64_t u) {
            std::vector<LSInstruction> prog; std::vector<char> used(n, 0); auto push = [&](int a, int b) { int p = 100 + 2 * prog.size(); used[a] = used[b] = 1; prog.push_back(parse_ls_instruction(cat("BellBasedCNOT ", a, " ", b, " ", p, " ", p + 1))); };
            std::function<void(int)> rec = [&](int d) { run_one(c, text, L, layout, core, prog, GraphSearchProvider::Djikstra, 80); if (d >= k) return; for (int a : from) for (int b : to) if (!c.stop() && !used[a] && !used[b]) { push(a, b); rec(d + 1); prog.pop_back(); used[a] = used[b] = 0; } };
            push(from[u / to.size()], to[u % to.size()]); rec(1);
        });
    }
    // corridors one tile wide that can only be taken straight through: paths that cross are carried out together
    struct Corridors { int v, h, arm, gap; };
    std::vector<Corridors> cors; for (int v = 1; v <= 3; ++v) for (int h = 1; h <= 3; ++h) for (int arm : {1, 2, 3}) for (int gap : {0, 1, 2}) if ((v > 1 || h > 1 || gap == 1) && (gap || v == 1 || h == 1) && v + h <= (q ? 5 : 6)) cors.push_back({v, h, arm, gap});
    explore(o, "paths that cross in corridors are routed together", cors.size(), [&](Ctx& c, uint64_t u) {
        auto& z = cors[u]; int W = 2 * z.arm + z.v + (z.v - 1) * z.gap + 2, H = 2 * z.arm + z.h + (z.h - 1) * z.gap + 2; std::vector<S> g(H, S(W, 'X')); std::vector<std::pair<int, int>> ends; std::vector<int> id(W * H, -1);
        auto col = [&](int i) { return 1 + z.arm + i * (z.gap + 1); };
        for (int i = 0; i < z.v; ++i) { for (int r = 1; r < H - 1; ++r) g[r][col(i)] = 'r'; g[0][col(i)] = g[H - 1][col(i)] = 'Q'; }
        for (int j = 0; j < z.h; ++j) { for (int x = 1; x < W - 1; ++x) g[col(j)][x] = 'r'; g[col(j)][0] = g[col(j)][W - 1] = 'Q'; }
        int n = 0; S text; for (int r = 0; r < H; ++r) { for (int x = 0; x < W; ++x) if (g[r][x] == 'Q') id[r * W + x] = n++; text += (r ? "\n" : "") + g[r]; }
        for (int i = 0; i < z.v; ++i) ends.push_back({id[col(i)], id[(H - 1) * W + col(i)]}); for (int j = 0; j < z.h; ++j) ends.push_back({id[col(j) * W + W - 1], id[col(j) * W]});
        LayoutModel L(text, 4, false); LayoutFromSpec layout(text, DistillationOptions{false, 4}); std::vector<PatchId> core; for (int i = 0; i < n; ++i) core.push_back(i);
        // a CNOT leaves its control through top or bottom and enters its target from the side: turn the ends that lie otherwise
        std::vector<int> order(ends.size()); for (size_t i = 0; i < order.size(); ++i) order[i] = i;
        do for (unsigned flip = 0; flip < (1u << ends.size()) && !c.stop(); ++flip) {
            std::vector<LSInstruction> prog; std::set<PatchId> want; S first;
            for (size_t k = 0; k < order.size(); ++k) {
                auto e = ends[order[k]]; if (flip >> order[k] & 1) std::swap(e.first, e.second); bool vertical = order[k] < z.v;
                prog.push_back(parse_ls_instruction(cat("HGate ", vertical ? e.second : e.first)));
            }
            for (size_t k = 0; k < order.size(); ++k) { auto e = ends[order[k]]; if (flip >> order[k] & 1) std::swap(e.first, e.second); int p = 100 + 2 * k; prog.push_back(parse_ls_instruction(cat("BellBasedCNOT ", e.first, " ", e.second, " ", p, " ", p + 1))); want.insert(e.first); }
            run_one(c, text, L, layout, core, prog, GraphSearchProvider::Djikstra, 80);
            c.begin(cat("layout crossing corridors [", text, "]\nedpc djikstra\n", program_text(core, prog))); struct Over {}; int slice = 0; std::set<int> when; std::set<PatchId> seen;
            try {
                VectorStream in(prog, core);
                run_through_dense_slices(std::move(in), PipelineMode::EDPC, true, false, layout, std::make_unique<CustomDPRouter>(), std::nullopt, [&](const DenseSlice&) { if (++slice > 80) throw Over{}; },
                    [&](const LSInstruction& i) { if (auto* b = std::get_if<BellBasedCNOT>(&i.operation)) if (seen.insert(b->control).second) when.insert(slice); }, false, false);
            } catch (Over&) {} catch (const std::exception& e) { c.violation("crossing corridors: the compilation ended", e.what()); }
            c.count(TRACES);
            if (seen != want) c.violation("crossing corridors: a CNOT was never begun", "");
            else if (when.size() != 1) c.violation("crossing corridors: paths that cross are not taken together", cat(when.size(), " slices in which one is begun"));
        } while (ends.size() < 4 && std::next_permutation(order.begin(), order.end()));
    });
    std::vector<Profile> mixed; auto add = [&](const S& n, const S& l, uint32_t t, std::vector<PatchId> core, std::vector<S> al, int dq, int dt) { Profile p{n, l, t, false, core, al, dq, dt + 1}; p.local = true; mixed.push_back(p); };
    add("crossroads with other operations", "XrQrX\nrrrXr\nQrrrQ\nrXrrr\nXrQrX", 4, {0, 1, 2, 3}, {"BellBasedCNOT 0 3 20 21", "BellBasedCNOT 1 2 22 23", "BellBasedCNOT 2 1 24 25", "BellBasedCNOT 3 0 26 27", "HGate 0", "HGate 1", "RotateSingleCellPatch 2", "RotateSingleCellPatch 3", "Init 10 |0> 0:Z", "Init 11 |+> 1:X", "MeasureSinglePatch 10 Z", "LogicalPauli 3 X"}, 5, 5);
    add("square with other operations", "rrrrr\nrQrQr\nrrrrr\nrQrQr\nArrrr", 4, {0, 1, 2, 3}, {"BellBasedCNOT 0 3 20 21", "BellBasedCNOT 1 2 22 23", "BellBasedCNOT 2 0 24 25", "BellBasedCNOT 3 1 26 27", "HGate 0", "RotateSingleCellPatch 1", "Init 10 |0>", "BellBasedCNOT 10 0 28 29", "MeasureSinglePatch 10 Z", "MeasureSinglePatch 3 X"}, 5, 6);
    for (uint32_t t : {1, 2, 3, 5}) {
        add(cat("factories, period ", t), "00rrr00\nrrrrrrr\nrQrrrQr\nrrrrrrr\nrQrrrQr\nrrr11rr", t, {0, 1, 2, 3}, {"BellBasedCNOT 0 3 20 21", "BellBasedCNOT 1 2 22 23", "BellBasedCNOT 2 1 24 25", "RequestMagicState 10 0", "RequestMagicState 11 3", "BellBasedCNOT 10 0 28 29", "BellBasedCNOT 11 3 30 31", "MeasureSinglePatch 10 X", "HGate 1"}, 4, 5);
        add(cat("reserved tiles, period ", t), "MrMrM\nrrrrr\nrQrQr\nrrrrr\nrQrQr\nMrrrM", t, {0, 1, 2, 3}, {"BellBasedCNOT 0 3 20 21", "BellBasedCNOT 1 2 22 23", "BellBasedCNOT 2 1 24 25", "RequestMagicState 10 0", "RequestMagicState 11 3", "BellBasedCNOT 10 0 28 29", "BellBasedCNOT 11 3 30 31", "MeasureSinglePatch 10 X", "HGate 1"}, 4, 5);
    }
    add("stored Y states", "YrYrY\nrrrrr\nrQrQr\nrrrrr\nrQrQr\nYrrrY", 4, {0, 1, 2, 3}, {"RequestYState 10 0", "RequestYState 11 3", "BellBasedCNOT 0 10 20 21", "BellBasedCNOT 3 11 22 23", "BellBasedCNOT 0 3 24 25", "BellBasedCNOT 1 2 26 27", "HGate 10", "HGate 0"}, 5, 6);
    for (auto& p : mixed) { int d = q ? p.depth_quick : p.depth_thorough; explore_profile(o, "C07", p, {{PipelineMode::EDPC, GraphSearchProvider::Djikstra}}, d, 80); Profile r = p; r.name += " A* search"; explore_profile(o, "C07", r, {{PipelineMode::EDPC, GraphSearchProvider::AStar}}, d - 1, 80); }
    o.rule = "Every sequence of Bell-based CNOTs up to the stated length between any patches, every sequence of disjoint ones, and every valid program up to the stated length over mixed alphabets (Hadamards, rotations, initialisations, magic and Y states, measurements), on each layout. "
             "The paths found in a slice must share no edge, run over free tiles only and meet at most in pairs on a tile; where they meet, one has finished with the tile before the other begins. Each slice must be the one the reported local operations lead to; no sides but those of "
             "Hadamards and rotations change; all tiles are released; the operations executed, replayed on stabilisers, must do what the program says, signs aside. A state is a distinct (lattice, finished set), a transition one emitted slice, a trace one complete run.";
    o.assumptions = {"As in C06, tiles of an intermediate Bell pair are taken to offer the boundary their neighbour needs, and results are compared up to Pauli corrections."};
    return finish(o);
}
