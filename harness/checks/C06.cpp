// C06: local compilation. Every layout and placement up to a size for single operations, and every program up to a length on a family
// of layouts, each slice judged by the reference semantics, and the effect on the qubits computed from the operations executed.
#include "common/slicer_explore.hpp"
using namespace vf; using S = std::string;
namespace {
std::vector<Profile> local_profiles()
{
    std::vector<Profile> v; auto add = [&](const S& n, const S& l, uint32_t d, std::vector<PatchId> core, std::vector<S> al, int q, int t, bool tw = false) { Profile p{n, l, d, false, core, al, q, t, tw}; p.local = true; v.push_back(p); };
    add("two ends", "rrrrr\nrQrQr\nrrrrr", 4, {0, 1}, {"BellBasedCNOT 0 1 20 21", "BellBasedCNOT 1 0 22 23", "BellPairInit 10 11 0:Z,1:X", "BellPairInit 12 13 1:X,0:X", "HGate 0", "RotateSingleCellPatch 1", "MeasureSinglePatch 10 Z", "MeasureSinglePatch 12 X", "Init 14 |0> 0:Z", "Init 15 |+> 1:X"}, 6, 8);
    add("three qubits", "rrrrrrr\nrQrrQrr\nrrrrrrr\nrrQrrrr\nrrrrrrr", 4, {0, 1, 2}, {"BellBasedCNOT 0 1 20 21", "BellBasedCNOT 1 2 22 23", "BellBasedCNOT 2 0 24 25", "BellBasedCNOT 0 2 26 27", "BellPairInit 10 11 0:Z,2:X", "HGate 1", "HGate 0", "RotateSingleCellPatch 2", "MeasureSinglePatch 10 Z", "BellBasedCNOT 10 1 28 29"}, 6, 8);
    add("four qubits crossing", "rrrrrrr\nrQrrrQr\nrrrrrrr\nrrrrrrr\nrQrrrQr\nrrrrrrr", 4, {0, 1, 2, 3}, {"BellBasedCNOT 0 3 20 21", "BellBasedCNOT 1 2 22 23", "BellBasedCNOT 0 1 24 25", "BellBasedCNOT 2 3 26 27", "BellPairInit 10 11 0:Z,3:Z", "BellPairInit 12 13 1:X,2:X", "Init 14 |0> 1:X", "MeasureSinglePatch 3 Z"}, 6, 8);
    add("corridor", "QrrrQrrrrQ", 4, {0, 1, 2}, {"BellPairInit 10 11 0:X,1:X", "BellPairInit 12 13 1:X,2:X", "BellPairInit 14 15 10:X,1:X", "HGate 0", "MeasureSinglePatch 10 Z", "MeasureSinglePatch 11 X", "MeasureSinglePatch 12 X", "MeasureSinglePatch 13 X", "BellBasedCNOT 0 1 20 21"}, 7, 9);
    add("factory", "00rrrr\n00rQrr\nrrrrrQ\nrrrrrr", 3, {0, 1}, {"BellBasedCNOT 0 1 20 21", "BellBasedCNOT 1 0 22 23", "BellPairInit 10 11 0:Z,1:X", "RequestMagicState 12 0", "BellBasedCNOT 12 1 24 25", "MeasureSinglePatch 12 X", "HGate 1"}, 6, 8);
    add("reserved", "MrrQ\nrrrr\nrQrM\nrrrr", 2, {0, 1}, {"BellBasedCNOT 0 1 20 21", "BellBasedCNOT 1 0 22 23", "BellPairInit 10 11 0:Z,1:Z", "RequestMagicState 12 1", "BellBasedCNOT 12 0 24 25", "MeasureSinglePatch 12 Z", "HGate 0"}, 6, 8);
    add("prepared Y states", "rrrrr\nrQrrQ\nrrrrr\nYrrrr", 4, {0, 1}, {"RequestYState 10 0", "RequestYState 11 1", "MultiBodyMeasure 0:Z,10:Z", "MultiBodyMeasure 1:Z,11:Z", "MeasureSinglePatch 10 X", "MeasureSinglePatch 11 X", "BellBasedCNOT 0 1 20 21", "BellPairInit 12 13 0:X,1:X", "HGate 0"}, 6, 8, true);
    add("stored Y states", "rYrrr\nrQrrQ\nrrrrr\nrrrYr", 4, {0, 1}, {"RequestYState 10 0", "RequestYState 11 1", "BellBasedCNOT 0 10 20 21", "BellBasedCNOT 11 1 22 23", "BellBasedCNOT 1 0 24 25", "HGate 0", "RotateSingleCellPatch 1"}, 6, 8);
    add("obstacles", "rrrXrrr\nrQrXrQr\nrrrrrrr\nXXrrrrX\nrrQrrrr", 4, {0, 1, 2}, {"BellBasedCNOT 0 1 20 21", "BellBasedCNOT 2 0 22 23", "BellBasedCNOT 1 2 24 25", "BellPairInit 10 11 0:Z,1:Z", "BellPairInit 12 13 2:Z,1:X", "MeasureSinglePatch 11 X", "HGate 2"}, 6, 8);
    add("ancilla column", "ArrrQ\nrrrrr\nQrrrA", 4, {0, 1}, {"Init 10 |0>", "Init 11 |+>", "BellBasedCNOT 10 0 20 21", "BellBasedCNOT 1 11 22 23", "BellBasedCNOT 0 1 24 25", "MeasureSinglePatch 10 Z", "HGate 11"}, 7, 9);
    std::vector<S> ls{"QrrrQ\nr000r\nrrrrr", "QrrrQ\nX000X", "QrrrrrQ\nXX000XX\nXXXXXXX", "rQr\n0rr\nrrQ"};
    for (uint32_t period : {1, 2, 3, 4, 5}) for (auto& l : ls)
        add(cat("deliveries onto a route, period ", period, ", layout ", &l - &ls[0]), l, period, {0, 1}, {"BellBasedCNOT 0 1 20 21", "BellBasedCNOT 1 0 22 23", "RequestMagicState 10 0", "RequestMagicState 11 1", "MeasureSinglePatch 10 Z", "MeasureSinglePatch 11 X", "BellPairInit 12 13 0:Z,1:X", "HGate 0"}, 4, 6);
    return v;
}
}
int main(int argc, char** argv)
{
    auto o = parse_options("C06", argc, argv); bool q = o.quick();
    o.aux_names = {{AUX1, "runs_completed"}, {AUX2, "runs_cut_at_horizon"}, {AUX3, "divergences_belonging_to_other_properties"}, {AUX4, "placements_that_do_not_fit"}};
    // one operation, every placement
    struct Shape { int R, C; }; std::vector<Shape> shapes = {{1, 5}, {1, 6}, {1, 7}, {2, 3}, {2, 4}, {3, 3}, {3, 4}, {4, 4}, {2, 6}, {3, 5}}; if (!q) for (Shape s : {Shape{4, 5}, Shape{5, 5}, Shape{1, 12}, Shape{2, 8}}) shapes.push_back(s);
    std::vector<S> single = {"BellBasedCNOT 0 1 20 21"}; for (auto a : {"X", "Z"}) for (auto b : {"X", "Z"}) single.push_back(cat("BellPairInit 10 11 0:", a, ",1:", b));
    struct Place { Shape s; int a, b; }; std::vector<Place> places; for (auto& s : shapes) for (int a = 0; a < s.R * s.C; ++a) for (int b = 0; b < s.R * s.C; ++b) if (a != b) places.push_back({s, a, b});
    explore(o, "one operation, every placement", places.size(), [&](Ctx& c, uint64_t u) {
        auto& [s, a, b] = places[u]; int n = s.R * s.C;
        std::vector<std::vector<int>> dead{{}}; for (int x = 0; x < n; ++x) if (x != a && x != b) { dead.push_back({x}); for (int y = x + 1; y < n; ++y) if (y != a && y != b) { dead.push_back({x, y}); if (!q && n <= 12) for (int z = y + 1; z < n; ++z) if (z != a && z != b) dead.push_back({x, y, z}); } }
        for (auto& xs : dead) {
            S t(n, 'r'); t[a] = t[b] = 'Q'; for (int x : xs) t[x] = 'X'; S text; for (int r = 0; r < s.R; ++r) text += (r ? "\n" : "") + t.substr(r * s.C, s.C);
            LayoutModel L(text, 4, false); LayoutFromSpec layout(text, DistillationOptions{false, 4}); std::vector<PatchId> core = a < b ? std::vector<PatchId>{0, 1} : std::vector<PatchId>{1, 0};
            for (int h = 0; h < 4; ++h) for (auto& ins : single) for (auto mode : {PipelineMode::Stream, PipelineMode::Wave}) for (auto prov : {GraphSearchProvider::Djikstra, GraphSearchProvider::AStar}) {
                if (prov == GraphSearchProvider::AStar && (xs.size() > 1 || mode == PipelineMode::Wave)) continue;
                std::vector<LSInstruction> prog; if (h & 1) prog.push_back(parse_ls_instruction("HGate 0")); if (h & 2) prog.push_back(parse_ls_instruction("HGate 1")); prog.push_back(parse_ls_instruction(ins));
                RunConfig rc{mode, prov}; c.begin(cat(text, "\n", mode_name(mode), " ", prov_name(prov), "\n", program_text(core, prog))); Monitor m(L, core, prog, mode, false, true);
                bool done = run_monitored(L, layout, core, prog, rc, false, 40, m, &c, true); c.count(TRACES); c.count(done ? AUX1 : AUX4);
                for (auto& v : m.verdicts()) c.violation(cat(mode_name(mode), ": ", v.key), v.detail);
                if (c.stop()) return;
            }
        }
    });
    for (auto& p : local_profiles()) {
        int d = q ? p.depth_quick : p.depth_thorough;
        explore_profile(o, "C06", p, {{PipelineMode::Stream, GraphSearchProvider::Djikstra}, {PipelineMode::Wave, GraphSearchProvider::Djikstra}}, d, 70);
        Profile r = p; r.name += " A* search"; explore_profile(o, "C06", r, {{PipelineMode::Stream, GraphSearchProvider::AStar}, {PipelineMode::Wave, GraphSearchProvider::AStar}}, d - 1, 70);
    }
    o.rule = "Every placement of two patches on grids up to the stated sizes, with every set of up to two obstacles and either orientation of each patch, for a Bell-based CNOT and the four kinds of Bell pair; every valid program up to the stated length on each layout profile. "
             "Each emitted slice must be the one the reported local operations lead to from the previous one by the reference semantics (harness/common/monitor.hpp): adjacent tiles, prepared before use, at most one operation on a tile and slice, tiles released. "
             "The operations executed are replayed on stabilisers of the tiles, the inputs being halves of Bell pairs, and the final state of inputs and live patches is compared with that of the program, signs aside. A state is a distinct (lattice, finished set), a transition one emitted slice, a trace one complete run.";
    o.assumptions = {"Tiles of an intermediate Bell pair are taken to offer the boundary their neighbour needs (the code notes orientation of intermediate tiles as future work); which operator an extension or merge acts with is decided by the side of the logical patch.", "Results are compared up to Pauli corrections, so measurement outcomes are not tracked."};
    return finish(o);
}
