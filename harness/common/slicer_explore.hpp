// Every valid program up to a length over an alphabet of instructions, on a family of layouts, through every pipeline and
// search strategy of the real slicer, each emitted slice judged by the reference semantics (monitor.hpp).
#pragma once
#include "monitor.hpp"
#include <lsqecc/layout/ascii_layout_spec.hpp>
#include <lsqecc/layout/router.hpp>
#include <lsqecc/ls_instructions/ls_instructions_parse.hpp>
#include <memory>

namespace vf {

struct Profile {
    std::string name, layout;
    uint32_t dist_time;
    bool staggered;
    std::vector<PatchId> core;
    std::vector<std::string> alphabet;
    int depth_quick, depth_thorough;
    bool twists = false, local = false;
};

// What a program may say next: patches that must exist, come to exist, or cease to exist.
struct Life {
    std::set<PatchId> alive, ever, ybound;
    bool step(const LSInstruction& ins)
    {
        auto has = [&](PatchId p) { return alive.count(p) != 0; };
        return std::visit([&](const auto& o) -> bool {
            using T = std::decay_t<decltype(o)>;
            if constexpr (std::is_same_v<T, MultiPatchMeasurement>) { for (auto& [p, op] : o.observable) if (!has(p)) return false; return true; }
            else if constexpr (std::is_same_v<T, SinglePatchMeasurement>) { if (!has(o.target)) return false; alive.erase(o.target); ybound.erase(o.target); return true; }
            else if constexpr (std::is_same_v<T, PatchInit>) {
                if (ever.count(o.target) || (o.place_next_to && !has(o.place_next_to->target))) return false;
                alive.insert(o.target); ever.insert(o.target); return true;
            } else if constexpr (std::is_same_v<T, MagicStateRequest>) {
                if (ever.count(o.target) || !has(o.near_patch)) return false;
                alive.insert(o.target); ever.insert(o.target); return true;
            } else if constexpr (std::is_same_v<T, YStateRequest>) {
                if (ybound.count(o.target)) { ybound.erase(o.target); alive.erase(o.target); return true; }
                if (ever.count(o.target) || !has(o.near_patch)) return false;
                alive.insert(o.target); ever.insert(o.target); ybound.insert(o.target); return true;
            } else if constexpr (std::is_same_v<T, SingleQubitOp> || std::is_same_v<T, RotateSingleCellPatch>) return has(o.target);
            else if constexpr (std::is_same_v<T, BellPairInit>) {
                if (!has(o.loc1.target) || !has(o.loc2.target) || ever.count(o.side1) || ever.count(o.side2) || o.side1 == o.side2) return false;
                for (auto p : {o.side1, o.side2}) { alive.insert(p); ever.insert(p); } return true;
            } else if constexpr (std::is_same_v<T, BellBasedCNOT>) {
                if (!has(o.control) || !has(o.target) || ever.count(o.side1) || ever.count(o.side2)) return false;
                ever.insert(o.side1); ever.insert(o.side2); return true;
            } else return false;
        }, ins.operation);
    }
};

inline const char* mode_name(PipelineMode m) { return m == PipelineMode::Stream ? "stream" : m == PipelineMode::Wave ? "wave" : m == PipelineMode::Dag ? "dag" : "edpc"; }
inline const char* prov_name(GraphSearchProvider p) { return p == GraphSearchProvider::Djikstra ? "dijkstra" : p == GraphSearchProvider::AStar ? "astar" : "boost"; }

struct RunConfig { PipelineMode mode; GraphSearchProvider prov; bool op_ids = false, cached = false; };

inline std::string program_text(const std::vector<PatchId>& core, const std::vector<LSInstruction>& prog)
{
    std::string s = "DeclareLogicalQubitPatches ";
    for (size_t i = 0; i < core.size(); ++i) s += cat(i ? "," : "", core[i]);
    for (auto& i : prog) s += cat("\n", i);
    return s;
}

// Runs one program. Returns true when it completed.
inline bool run_monitored(const LayoutModel& L, const Layout& layout, const std::vector<PatchId>& core, const std::vector<LSInstruction>& prog,
                          const RunConfig& rc, bool twists, int cap, Monitor& m, Ctx* ctx, bool local = false)
{
    auto router = std::make_unique<CustomDPRouter>();
    router->set_graph_search_provider(rc.prov);
    bool complete = false;
    try {
        run_through_dense_slices(VectorStream(prog, core), rc.mode, local, twists, layout, std::move(router), std::nullopt,
            [&](const DenseSlice& s) {
                m.on_slice(s);
                if (ctx) { ctx->count(TRANSITIONS); ctx->state(m.state_hash()); }
                if (m.failed() || m.slices() >= cap) throw HorizonReached{};
            },
            [&](const LSInstruction& i) { m.on_instruction(i); }, false, rc.op_ids);
        m.on_end();
        complete = true;
    } catch (const HorizonReached&) {
    } catch (const std::exception& e) { m.on_exception(e.what()); }
    return complete && !m.failed();
}

// Calls visit for every valid program up to the depth (prefixes included).
inline void for_each_program(Options& o, const Profile& p, int depth, const std::function<void(Ctx&, const std::vector<LSInstruction>&)>& visit)
{
    std::vector<LSInstruction> alpha;
    for (auto& a : p.alphabet) alpha.push_back(parse_ls_instruction(a));
    const size_t A = alpha.size();
    // one unit per first pair of instructions (unit 0 also runs the empty program, x*A the length-one programs)
    explore(o, p.name, A * A, [&](Ctx& c, uint64_t u) {
        std::vector<LSInstruction> prog;
        std::function<void(Life, int)> rec = [&](Life life, int d) {
            visit(c, prog);
            if (d >= depth) return;
            for (auto& a : alpha) {
                if (c.stop()) return;
                Life l2 = life;
                if (!l2.step(a)) continue;
                prog.push_back(a); rec(l2, d + 1); prog.pop_back();
            }
        };
        Life life; for (auto q : p.core) { life.alive.insert(q); life.ever.insert(q); }
        size_t x = u / A, y = u % A;
        if (u == 0) visit(c, prog);
        if (!life.step(alpha[x])) return;
        prog.push_back(alpha[x]);
        if (y == 0) visit(c, prog);
        if (depth < 2 || !life.step(alpha[y])) return;
        prog.push_back(alpha[y]);
        rec(life, 2);
    });
}

inline std::string describe(const Profile& p, const RunConfig& rc, const std::vector<LSInstruction>& prog)
{
    return cat("layout ", p.name, " [", p.layout, "] period ", p.dist_time, p.staggered ? " staggered" : "", p.twists ? " twists" : "", p.local ? " local" : "",
               "\npipeline ", mode_name(rc.mode), " router ", prov_name(rc.prov), "\n", program_text(p.core, prog));
}

inline void explore_profile(Options& o, const std::string& tag, const Profile& p, const std::vector<RunConfig>& configs, int depth, int cap = 40)
{
    LayoutModel L(p.layout, p.dist_time, p.staggered);
    LayoutFromSpec layout(p.layout, DistillationOptions{p.staggered, p.dist_time});
    for_each_program(o, p, depth, [&](Ctx& c, const std::vector<LSInstruction>& prog) {
        for (auto& rc : configs) {
            c.begin(describe(p, rc, prog));
            Monitor m(L, p.core, prog, rc.mode, p.twists, p.local);
            bool done = run_monitored(L, layout, p.core, prog, rc, p.twists, cap, m, &c, p.local);
            c.count(TRACES);
            if (done) c.count(AUX1); else if (!m.failed()) c.count(AUX2);
            if (m.dag_short_rotation && tag == "C04")
                c.violation("dag pipeline: a rotation occupies two slices instead of three", "A RotateSingleCellPatch run through the dag pipeline is shown in two slices only; stream and wave show three.");
            for (auto& v : m.verdicts()) {
                if (!v.tags.count(tag) && !p.local) { c.count(AUX3); continue; }
                c.violation(cat(mode_name(rc.mode), ": ", v.key), v.detail);
            }
            if (c.stop()) return;
        }
        if (prog.size() == 3 && c.unit % 7 == 0) c.sample(program_text(p.core, prog));
    });
}

inline std::vector<Profile> profiles()
{
    std::vector<Profile> v;
    v.push_back({"pair-ancilla", "QrQ\nrrr\nArr", 4, false, {0, 1},
        {"Init 10 |0>", "Init 11 |+> 0:Z", "MultiBodyMeasure 0:Z,1:X", "MultiBodyMeasure 0:X,1:X", "MultiBodyMeasure 0:Z,10:X", "MultiBodyMeasure 1:X,11:Z", "MeasureSinglePatch 10 Z",
         "MeasureSinglePatch 0 X", "HGate 0", "SGate 0", "RotateSingleCellPatch 0", "RotateSingleCellPatch 1", "LogicalPauli 1 X"}, 5, 6});
    v.push_back({"three-qubits", "QrQrQ\nrrrrr", 4, false, {0, 1, 2},
        {"MultiBodyMeasure 0:Z,1:Z", "MultiBodyMeasure 1:Z,2:Z", "MultiBodyMeasure 0:Z,2:Z", "MultiBodyMeasure 0:X,2:X", "RotateSingleCellPatch 0", "RotateSingleCellPatch 1", "SGate 2", "HGate 1", "MeasureSinglePatch 1 Z", "Init 9 |0> 2:X"}, 5, 6});
    v.push_back({"tight", "QQ\nrr", 4, false, {0, 1},
        {"Init 10 |+> 0:Z", "Init 11 |0> 1:Z", "MultiBodyMeasure 0:Z,1:Z", "MultiBodyMeasure 0:X,1:X", "MultiBodyMeasure 0:Z,1:X", "MeasureSinglePatch 10 X", "MeasureSinglePatch 1 Z", "RotateSingleCellPatch 0", "RotateSingleCellPatch 1", "HGate 1", "SGate 0"}, 5, 6});
    v.push_back({"no-routing", "QQ", 4, false, {0, 1}, {"MultiBodyMeasure 0:X,1:X", "MultiBodyMeasure 0:Z,1:Z", "HGate 0", "HGate 1", "RotateSingleCellPatch 0", "MeasureSinglePatch 1 Z"}, 6, 8});
    v.push_back({"two-rows", "rQr\nrQr\nrQr", 4, false, {3, 7, 5},
        {"MultiBodyMeasure 3:Z,7:Z", "MultiBodyMeasure 7:X,5:X", "MultiBodyMeasure 3:X,5:X", "Init 10 |0> 7:X", "Init 11 |0> 3:X", "MeasureSinglePatch 10 Z", "RotateSingleCellPatch 7", "HGate 3", "SGate 5", "MeasureSinglePatch 7 X"}, 5, 6});
    v.push_back({"factory", "00rr\n00rQ\nrrrQ", 3, false, {0, 1},
        {"RequestMagicState 10 0", "RequestMagicState 11 1", "MultiBodyMeasure 0:Z,10:Z", "MultiBodyMeasure 11:X,1:X", "MeasureSinglePatch 10 X", "RotateSingleCellPatch 0", "RotateSingleCellPatch 10", "HGate 1", "SGate 0", "MeasureSinglePatch 0 Z"}, 5, 6});
    v.push_back({"two-factories", "0rQ\nrrr\n1rQ", 2, true, {0, 1},
        {"RequestMagicState 10 0", "RequestMagicState 11 1", "RequestMagicState 12 0", "MultiBodyMeasure 0:Z,10:Z", "MeasureSinglePatch 10 X", "RotateSingleCellPatch 1", "SGate 0", "MultiBodyMeasure 0:X,1:X", "MeasureSinglePatch 12 X"}, 5, 6});
    v.push_back({"reserved", "MrQ\nrrr\nQrM", 2, false, {0, 1},
        {"RequestMagicState 10 0", "RequestMagicState 11 1", "RequestMagicState 12 1", "MultiBodyMeasure 0:Z,10:Z", "MeasureSinglePatch 10 X", "MeasureSinglePatch 11 X", "RotateSingleCellPatch 10", "RotateSingleCellPatch 0", "MultiBodyMeasure 11:X,1:X", "SGate 1"}, 5, 6});
    v.push_back({"y-states", "YrQ\nrrr\nQrY", 4, false, {0, 1},
        {"RequestYState 10 0", "RequestYState 11 1", "RequestYState 12 0", "MultiBodyMeasure 10:Z,0:Z", "MultiBodyMeasure 0:X,11:X", "RotateSingleCellPatch 10", "RotateSingleCellPatch 0", "HGate 10", "SGate 1", "MeasureSinglePatch 0 Z", "MeasureSinglePatch 10 X", "MeasureSinglePatch 11 X"}, 5, 6});
    v.push_back({"y-twists", "YrQ\nrrr\nQrr", 4, false, {0, 1},
        {"RequestYState 10 0", "RequestYState 11 1", "RequestYState 12 0", "MultiBodyMeasure 10:Z,0:Z", "MultiBodyMeasure 11:Z,1:Z", "RotateSingleCellPatch 0", "HGate 0", "MeasureSinglePatch 10 X", "MeasureSinglePatch 11 X"}, 5, 6, true});
    v.push_back({"dead-tiles", "QXQ\nrrr\nXrA", 4, false, {0, 1},
        {"MultiBodyMeasure 0:Z,1:Z", "MultiBodyMeasure 0:X,1:Z", "Init 10 |0>", "Init 11 |0> 1:X", "MultiBodyMeasure 10:Z,0:Z", "RotateSingleCellPatch 0", "RotateSingleCellPatch 10", "SGate 0", "MeasureSinglePatch 10 Z"}, 5, 6});
    // longer programs over smaller alphabets
    v.push_back({"deep-contention", "QrQrQ\nrrrrr", 4, false, {0, 1, 2}, {"MultiBodyMeasure 0:Z,2:Z", "MultiBodyMeasure 1:Z,2:Z", "RotateSingleCellPatch 0", "SGate 1"}, 8, 9});
    v.push_back({"deep-two-merges", "QrQ\nrrr\nQrQ", 4, false, {0, 1, 2, 3}, {"MultiBodyMeasure 0:Z,1:Z", "MultiBodyMeasure 2:Z,3:Z", "MultiBodyMeasure 0:X,2:Z", "RotateSingleCellPatch 3", "HGate 0"}, 7, 8});
    v.push_back({"deep-factory", "0rr\n0rQ\nrrQ", 3, false, {0, 1}, {"RequestMagicState 10 0", "RequestMagicState 11 1", "RequestMagicState 12 0", "MultiBodyMeasure 10:Z,0:X", "MeasureSinglePatch 10 X", "MeasureSinglePatch 11 Z", "RotateSingleCellPatch 12"}, 7, 7});
    v.push_back({"deep-reserved", "MrQ\nrrr\nMrX", 3, false, {0}, {"RequestMagicState 10 0", "RequestMagicState 11 0", "RequestMagicState 12 0", "RequestMagicState 13 0", "MeasureSinglePatch 10 X", "MeasureSinglePatch 11 Z", "RotateSingleCellPatch 11", "MultiBodyMeasure 0:X,10:Z"}, 8, 8});
    v.push_back({"deep-y-states", "YQY\nrrr\nYrX", 4, false, {0}, {"RequestYState 10 0", "RequestYState 11 0", "RequestYState 12 0", "RequestYState 13 0", "MultiBodyMeasure 10:Z,0:Z", "MeasureSinglePatch 11 X", "RotateSingleCellPatch 12"}, 7, 8});
    v.push_back({"deep-ancilla", "ArA\nrQr\nrrr", 4, false, {0}, {"Init 10 |0>", "Init 11 |+>", "Init 12 |0>", "MultiBodyMeasure 10:X,0:Z", "MeasureSinglePatch 10 Z", "MeasureSinglePatch 11 X", "RotateSingleCellPatch 11", "Init 13 |0> 0:Z"}, 6, 7});
    return v;
}

inline std::vector<RunConfig> all_configs()
{
    std::vector<RunConfig> v;
    for (auto m : {PipelineMode::Stream, PipelineMode::Wave, PipelineMode::Dag})
        for (auto r : {GraphSearchProvider::Djikstra, GraphSearchProvider::AStar, GraphSearchProvider::Boost}) v.push_back({m, r});
    return v;
}

inline int slicer_main(const std::string& id, int argc, char** argv, const std::function<void(Options&)>& more = {})
{
    auto o = parse_options(id, argc, argv);
    o.rule = "Every valid program up to the stated length over each layout profile's instruction alphabet (initialisations, joint and single measurements, Hadamard, S, Pauli, rotations, magic and Y state requests), run through the real stream, "
             "wave and dag slicers (Dijkstra; all three search strategies at one instruction less). Each emitted slice must be reachable, by the reference semantics of harness/common/monitor.hpp, from the previous slice by exactly the instructions reported "
             "in between; all nondeterminism (tile and route choice) is resolved by exhaustive search. A state is a distinct (lattice, finished set), a transition one emitted slice, a trace one complete run (to the end, or 40 slices).";
    o.assumptions = {"Programs reuse no identifier and mention only patches that exist (what the compiler produces).", "The caching router is excluded: its header documents that it assumes paths stay clear.",
                     "Local compilation and EDPC are covered by C06 and C07."};
    o.aux_names = {{AUX1, "runs_completed"}, {AUX2, "runs_cut_at_horizon"}, {AUX3, "divergences_belonging_to_other_properties"}};
    for (auto& p : profiles()) {
        int d = o.quick() ? p.depth_quick : p.depth_thorough;
        explore_profile(o, id, p, {{PipelineMode::Stream, GraphSearchProvider::Djikstra}, {PipelineMode::Wave, GraphSearchProvider::Djikstra}, {PipelineMode::Dag, GraphSearchProvider::Djikstra}}, d);
        Profile q = p; q.name += " all search strategies";
        explore_profile(o, id, q, all_configs(), d - 1);
    }
    if (more) more(o);
    return finish(o);
}
}
