// C19: what a run did, read off its slices alone, must be what the program says, for every pipeline, search strategy and
// for operation labelling on and off.
#include "common/slicer_explore.hpp"
using namespace vf;

namespace {
// Per patch: I appears, M<p><mine><theirs> joint measurement, S loop to itself, H, R rotation, X measured.
using Seq = std::vector<std::string>;

struct Reader {
    const LayoutModel& L;
    int rot_len;
    std::map<PatchId, Seq> seen;
    std::map<PatchId, int> last_slice, last_cell;
    std::map<PatchId, bool> standard, alive; // at last sight
    std::string problem;
    int t = 0;

    void flush_rotation(PatchId id, int gap)
    {
        if (gap % rot_len) { problem = cat("patch ", id, " is hidden for ", gap, " slices"); return; }
        for (int i = 0; i < gap / rot_len; ++i) seen[id].push_back("R");
    }
    void slice(const TGrid& g)
    {
        for (size_t v = 0; v < g.size(); ++v) {
            if (!g[v] || !g[v]->id) continue;
            PatchId id = *g[v]->id;
            if (!last_slice.count(id)) seen[id].push_back("I");
            else if (last_slice[id] == t) { problem = cat("patch ", id, " is shown twice"); return; }
            else if (last_slice[id] + 1 < t) flush_rotation(id, t - last_slice[id] - 1);
            if (last_cell.count(id) && last_cell[id] != (int)v) problem = cat("patch ", id, " moved");
            last_slice[id] = t; last_cell[id] = v;
            standard[id] = g[v]->b[0].boundary_type == BoundaryType::Smooth;
            alive[id] = g[v]->act != PatchActivity::Measurement;
            for (int d = 0; d < 4; ++d) if (g[v]->b[d].is_active) {
                int in; int w = follow(g, v, d, in);
                if (w < 0) { problem = cat("a joined side of patch ", id, " leads nowhere"); return; }
                if (w == (int)v) { if (seen[id].empty() || seen[id].back() != cat("S@", t)) seen[id].push_back(cat("S@", t)); continue; }
                std::string other = g[w]->id ? std::to_string(*g[w]->id) : "?";
                seen[id].push_back(cat("M", other, bname(g[v]->b[d].boundary_type), bname(g[w]->b[in].boundary_type)));
            }
            if (g[v]->act == PatchActivity::Unitary) seen[id].push_back("H");
            if (g[v]->act == PatchActivity::Measurement) seen[id].push_back("X");
        }
        ++t;
    }
    int follow(const TGrid& g, int v, int d, int& in)
    {
        for (int k = 0; k < 4096; ++k) {
            int w = L.step(v, d);
            if (w < 0 || !g[w]) return -1;
            in = d ^ 1;
            if (!g[w]->b[in].is_active) return -1;
            if (g[w]->type != PatchType::Routing) return w;
            int out = -1;
            for (int e = 0; e < 4; ++e) if (e != in && g[w]->b[e].is_active) { if (out >= 0) return -1; out = e; }
            if (out < 0) return -1;
            v = w; d = out;
        }
        return -1;
    }
    void finish()
    {
        for (auto& [id, last] : last_slice) if (alive[id] && last + 1 < t) problem = cat("patch ", id, " vanished");
        for (auto& [id, s] : seen) for (auto& x : s) if (x[0] == 'S') x = "S";
    }
};

// An H and a rotation or measurement that follows it at once may share a slice (only the latter shows); likewise everything done to a patch
// in the slice it appears in, up to a rotation.
bool matches(const Seq& want, const Seq& got)
{
    size_t n = want.size(), m = got.size();
    std::vector<std::vector<char>> ok(n + 1, std::vector<char>(m + 1, 0));
    ok[0][0] = 1;
    for (size_t i = 0; i <= n; ++i) for (size_t j = 0; j <= m; ++j) {
        if (!ok[i][j]) continue;
        if (i < n && j < m && want[i] == got[j]) ok[i + 1][j + 1] = 1;
        if (i + 1 < n && want[i] == "H" && (want[i + 1] == "R" || want[i + 1] == "X")) ok[i + 1][j] = 1;
        if (i > 0 && i < n && want[i] == "R" && j == 1 && got[0] == "I") { // rotations right after the appearance
            bool lead = true; for (size_t k = 1; k <= i; ++k) if (want[k] != "R" && want[k] != "H") lead = false;
            if (lead) ok[i + 1][j] = 1;
        }
    }
    return ok[n][m];
}

std::string join(const Seq& s) { std::string r; for (auto& x : s) r += x + " "; return r; }

void expect(const std::vector<PatchId>& core, const std::vector<LSInstruction>& prog, std::map<PatchId, Seq>& want, std::map<PatchId, bool>& standard, std::map<PatchId, bool>& alive)
{
    auto born = [&](PatchId p) { want[p].push_back("I"); standard[p] = true; alive[p] = true; };
    for (auto p : core) born(p);
    for (auto& i : prog) {
        auto& op = i.operation;
        if (auto* o = std::get_if<PatchInit>(&op)) born(o->target);
        else if (auto* o = std::get_if<MagicStateRequest>(&op)) born(o->target);
        else if (auto* o = std::get_if<YStateRequest>(&op)) born(o->target);
        else if (auto* o = std::get_if<SinglePatchMeasurement>(&op)) { want[o->target].push_back("X"); alive[o->target] = false; }
        else if (auto* o = std::get_if<RotateSingleCellPatch>(&op)) { want[o->target].push_back("R"); standard[o->target] = !standard[o->target]; }
        else if (auto* o = std::get_if<SingleQubitOp>(&op)) {
            if (o->op == SingleQubitOp::Operator::H) { want[o->target].push_back("H"); standard[o->target] = !standard[o->target]; }
            if (o->op == SingleQubitOp::Operator::S) want[o->target].push_back("S");
        } else if (auto* o = std::get_if<MultiPatchMeasurement>(&op)) {
            auto p = o->observable.begin(), q = p; ++q;
            want[p->first].push_back(cat("M", q->first, bname(side_for(p->second)), bname(side_for(q->second))));
            want[q->first].push_back(cat("M", p->first, bname(side_for(q->second)), bname(side_for(p->second))));
        }
    }
}
}

int main(int argc, char** argv)
{
    auto o = parse_options("C19", argc, argv);
    o.rule = "Every valid program up to the stated length over each layout profile's alphabet (without releasing Y states), through stream, wave and dag with Dijkstra, A*, Boost and operation labelling. From the emitted slices alone, the sequence of joint "
             "measurements (partner and side types), self-merges, Hadamards, rotations and measurements of every patch and its final presence and orientation are read back and compared with the program. A state is a distinct observed outcome, a transition one "
             "emitted slice, a trace one completed run.";
    o.assumptions = {"Programs reuse no identifier.", "Pauli gates and the operator of a single-patch measurement leave no trace in slices.", "A rotation may show two or three slices in the dag pipeline (see C04)."};
    o.aux_names = {{AUX1, "runs_completed"}, {AUX2, "runs_cut_at_horizon"}};
    auto all = all_configs();
    for (auto m : {PipelineMode::Stream, PipelineMode::Wave, PipelineMode::Dag}) all.push_back({m, GraphSearchProvider::Djikstra, true});
    std::vector<RunConfig> base = {all[0], all[3], all[6]};
    auto profs = profiles();
    // The caching router, on programs whose routes are all asked for on the same lattice (as its header requires)
    std::vector<RunConfig> caching;
    for (auto r : all_configs()) { r.cached = true; caching.push_back(r); }
    std::set<std::string> cached_names;
    for (std::string l : {"QrQ\nrrr", "QrQ\nrrr\nrrr", "rrQ\nQrr\nrXr", "rrrr\nrQrQ\nrrrr"}) {
        std::vector<std::string> a = {"LogicalPauli 0 X"};
        for (std::string x : {"X", "Z"}) for (std::string y : {"X", "Z"}) { a.push_back("MultiBodyMeasure 0:" + x + ",1:" + y); a.push_back("MultiBodyMeasure 1:" + x + ",0:" + y); }
        profs.push_back({cat("caching router ", cached_names.size()), l, 4, false, {0, 1}, a, 3, 4});
        cached_names.insert(profs.back().name);
    }
    for (auto& p : profs)
        for (int pass = 0; pass < (cached_names.count(p.name) ? 1 : 2); ++pass) {
            auto& configs = cached_names.count(p.name) ? caching : pass ? all : base;
            int depth = (o.quick() ? p.depth_quick : p.depth_thorough) - pass;
            LayoutModel L(p.layout, p.dist_time, p.staggered);
            LayoutFromSpec layout(p.layout, DistillationOptions{p.staggered, p.dist_time});
            Profile named = p; if (pass) named.name += " all strategies";
            for_each_program(o, named, depth, [&](Ctx& c, const std::vector<LSInstruction>& prog) {
                if (prog.empty()) return;
                std::set<PatchId> y;
                for (auto& i : prog) if (auto* r = std::get_if<YStateRequest>(&i.operation)) if (!y.insert(r->target).second) return; // a release
                std::map<PatchId, Seq> want; std::map<PatchId, bool> wstd, walive;
                expect(p.core, prog, want, wstd, walive);
                for (auto& rc : configs) {
                    c.begin(describe(p, rc, prog));
                    if (rc.op_ids) c.note("\nwith operation labels");
                    if (rc.cached) c.note("\ncaching router");
                    std::vector<TGrid> slices; bool complete = false, cut = false; std::string err;
                    std::unique_ptr<Router> router; if (rc.cached) router = std::make_unique<CachedRouter>(); else router = std::make_unique<CustomDPRouter>();
                    router->set_graph_search_provider(rc.prov);
                    try {
                        run_through_dense_slices(VectorStream(prog, p.core), rc.mode, false, p.twists, layout, std::move(router), std::nullopt,
                            [&](const DenseSlice& s) { slices.push_back(read_slice(s)); if (slices.size() > 40) { cut = true; throw HorizonReached{}; } },
                            [](const LSInstruction&) {}, false, rc.op_ids);
                        complete = true;
                    } catch (const HorizonReached&) {} catch (const std::exception& e) { err = e.what(); }
                    c.count(TRANSITIONS, slices.size());
                    if (!complete) { c.count(cut ? AUX2 : SKIPPED); continue; }
                    c.count(AUX1); c.count(TRACES);
                    uint64_t h = 7;
                    std::string diff;
                    std::vector<Reader> readings; // a dag rotation may show two or three slices
                    for (int len : rc.mode == PipelineMode::Dag ? std::vector<int>{2, 3} : std::vector<int>{3}) {
                        Reader r{L, len};
                        for (auto& g : slices) { if (!r.problem.empty()) break; r.slice(g); }
                        if (r.problem.empty()) r.finish();
                        if (p.twists) // a Y state prepared on the spot is marked like a gate in the slice it appears in
                            for (auto id : y) { auto& q = r.seen[id]; auto& w = want[id]; if (q.size() > 1 && q[1] == "H" && !(w.size() > 1 && w[1] == "H")) q.erase(q.begin() + 1); }
                        std::string first = diff; diff = r.problem;
                        if (diff.empty()) {
                            for (auto& [id, w] : want) {
                                if (!r.seen.count(id)) { diff = cat("patch ", id, " never appears"); break; }
                                if (!matches(w, r.seen[id])) { diff = cat("patch ", id, " should undergo ", join(w), "but undergoes ", join(r.seen[id])); break; }
                                if (r.alive[id] != walive[id]) { diff = cat("patch ", id, walive[id] ? " should be alive at the end" : " should be gone at the end"); break; }
                                if (r.standard[id] != wstd[id]) { diff = cat("patch ", id, " ends in the wrong orientation"); break; }
                                h = h * 1099511628211ull + hash_str(cat(id, join(r.seen[id])));
                            }
                            for (auto& [id, s] : r.seen) if (!want.count(id)) diff = cat("patch ", id, " appears from nowhere");
                        }
                        if (diff.empty()) break;
                        if (!first.empty()) diff = first;
                    }
                    c.state(h);
                    if (!diff.empty()) c.violation(cat(mode_name(rc.mode), " ", prov_name(rc.prov), ": ", diff), diff);
                    if (c.stop()) return;
                }
                if (prog.size() == 3 && c.unit % 7 == 0) c.sample(program_text(p.core, prog));
            });
        }
    return finish(o);
}
