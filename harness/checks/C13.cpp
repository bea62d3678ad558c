// C13: what is printed about a run is what the run computed. Every tile state through the real JSON and statistics code; every
// program within the bound through the real command line, its output compared with the slices the slicer emits.
#include "common/slicer_explore.hpp"
#include "common/cli.hpp"
#include <lsqecc/gates/decompose_rotation_stream.hpp>
#include <lsqecc/gates/parse_gates.hpp>
#include <lsqecc/ls_instructions/boundary_rotation_injection_stream.hpp>
#include <lsqecc/ls_instructions/catalytic_s_gate_injection_stream.hpp>
#include <lsqecc/ls_instructions/ls_instructions_from_gates.hpp>
#include <lsqecc/ls_instructions/teleported_s_gate_injection_stream.hpp>
#include <lsqecc/layout/dynamic_layouts/compact_layout.hpp>
#include <lsqecc/layout/dynamic_layouts/edpc_layout.hpp>
#include <lsqecc/patches/slice_stats.hpp>
#include <lsqecc/patches/slices_to_json.hpp>
#include <nlohmann/json.hpp>
#include <filesystem>
#include <fstream>
#include <unistd.h>
using namespace vf;
using json = nlohmann::json;
using S = std::string;

namespace {
S dir; // scratch files

// The documented reading of a tile
S side(const Boundary& b)
{
    switch (b.boundary_type) {
    case BoundaryType::Rough: return b.is_active ? "DashedStiched" : "Dashed";
    case BoundaryType::Smooth: return b.is_active ? "SolidStiched" : "Solid";
    case BoundaryType::Connected: return b.is_active ? "AncillaJoin" : "None";
    case BoundaryType::Reserved_Label1: return b.is_active ? "SolidStiched" : "None";
    case BoundaryType::Reserved_Label2: return b.is_active ? "DashedStiched" : "None";
    default: return "None";
    }
}
// Differences between a printed tile and the tile, "" when none. ids: operation ids only have to correspond one to one.
S tile_diff(const json& j, const std::optional<DensePatch>& p, const std::optional<S>& text, std::map<S, OpId>* ids)
{
    if (!p) return j.is_null() ? "" : "an empty tile is shown occupied";
    if (!j.is_object()) return "an occupied tile is shown empty";
    S type = p->type == PatchType::Qubit ? "Qubit" : p->type == PatchType::Distillation || p->type == PatchType::PreparedState ? "DistillationQubit" : "Ancilla";
    if (j.value("patch_type", "") != type) return "patch kind";
    const char* names[] = {"Top", "Bottom", "Left", "Right"}; const Boundary* b[] = {&p->boundaries.top, &p->boundaries.bottom, &p->boundaries.left, &p->boundaries.right};
    if (!j.contains("edges") || j["edges"].size() != 4) return "sides";
    for (int i = 0; i < 4; ++i) if (!j["edges"].contains(names[i]) || j["edges"][names[i]] != side(*b[i])) return cat("side ", names[i]);
    if (!j.contains("activity") || !j["activity"].contains("activity_type")) return "activity";
    json act = p->activity == PatchActivity::Measurement ? json("Measurement") : p->activity == PatchActivity::Unitary ? json("Unitary") : json();
    if (j["activity"]["activity_type"] != act) return "activity";
    S want = text ? *text : p->id ? cat("Id: ", *p->id) : p->type == PatchType::Qubit || (p->type == PatchType::Distillation && p->activity == PatchActivity::None) ? "Not bound" : "";
    if (j.value("text", "?") != want) return "label";
    if (j.contains("operation_id") != p->operation_id.has_value()) return "operation id";
    if (p->operation_id) {
        S got = j["operation_id"].is_string() ? j["operation_id"].get<S>() : "?";
        if (!ids) { if (got != std::to_string(*p->operation_id)) return "operation id"; }
        else { auto [it, fresh] = ids->emplace(got, *p->operation_id); if (it->second != *p->operation_id) return "operation id"; }
    }
    return "";
}
S slice_diff(const json& j, const DenseSlice& s, std::map<S, OpId>* ids)
{
    auto f = s.get_layout().furthest_cell(); std::map<std::pair<int, int>, S> text;
    auto& regions = s.get_layout().distillation_regions();
    for (size_t i = 0; i < regions.size(); ++i) { auto c = regions[i].sub_cells.front().cell; text[{c.row, c.col}] = cat("Time to next magic state:", s.time_to_next_magic_state(i)); }
    if (!j.is_array() || (int)j.size() != f.row + 1) return "number of rows";
    for (int r = 0; r <= f.row; ++r) { if (!j[r].is_array() || (int)j[r].size() != f.col + 1) return "number of columns"; for (int c = 0; c <= f.col; ++c) { auto t = text.find({r, c}); S d = tile_diff(j[r][c], s.patch_at(Cell{r, c}), t == text.end() ? std::nullopt : std::make_optional(t->second), ids); if (!d.empty()) return d; } }
    return "";
}
struct Volume { size_t all = 0, dist = 0, empty = 0, dead = 0, other = 0; };
void add(Volume& v, const DenseSlice& s)
{
    auto f = s.get_layout().furthest_cell(); bool m = s.get_layout().magic_states_reserved();
    for (int r = 0; r <= f.row; ++r) for (int c = 0; c <= f.col; ++c) {
        auto& p = s.patch_at(Cell{r, c}); ++v.all;
        if (!p) ++v.empty; else if (p->type == PatchType::Distillation || (m && p->type == PatchType::PreparedState)) ++v.dist; else if (p->type == PatchType::Dead) ++v.dead; else ++v.other;
    }
}
S volume_diff(const Volume& v, const VolumeCounts& c)
{
    if (c.volume != v.all) return "volume is not the lattice area"; if (c.unused_routing_volume != v.empty) return "unused routing volume"; if (c.distillation_volume != v.dist) return "distillation volume"; if (c.dead != v.dead) return "dead volume";
    return c.volume - c.unused_routing_volume - c.distillation_volume - c.dead == v.other ? "" : "other volume";
}
// "Name: n (p%)" lines
S report_diff(const S& text, const Volume& v)
{
    auto line = [&](const S& name, size_t want, bool pct) -> bool {
        size_t at = text.find(name + ": "); if (at == S::npos) return false; std::istringstream in(text.substr(at + name.size() + 2)); size_t n; double p; char open;
        if (!(in >> n) || n != want) return false; if (!pct || !v.all) return true;
        return in >> open >> p && open == '(' && std::abs(p - 100.0 * want / v.all) < 1e-3;
    };
    if (!line("Total volume", v.all, false)) return "total volume"; if (!line("Distillation volume", v.dist, true)) return "distillation volume"; if (!line("Unused routing volume", v.empty, true)) return "unused routing volume";
    if (!line("Dead volume", v.dead, true)) return "dead volume"; if (!line("Other active volume", v.other, true)) return "other volume"; return "";
}

// One run, through the library and through the command line
struct Run {
    S name, args; PipelineMode mode; bool local, twists; const Layout* layout; const std::vector<LSInstruction>* prog; std::vector<PatchId> core; S input;
    GraphSearchProvider prov = GraphSearchProvider::Djikstra;
};
struct Seen { size_t slices = 0, visits = 0, advances = 1; Volume vol; S listing; bool done = false; std::vector<DenseSlice> copies; };
Seen library(const Run& r, bool ids, int cap)
{
    Seen x; auto router = std::make_unique<CustomDPRouter>(); router->set_graph_search_provider(r.prov);
    std::map<S, size_t> open;
    try {
        run_through_dense_slices(VectorStream(*r.prog, r.core), r.mode, r.local, r.twists, *r.layout, std::move(router), std::nullopt,
            [&](const DenseSlice& s) { x.copies.push_back(s); ++x.slices; add(x.vol, s); x.listing += "\n"; if ((int)x.slices > cap) throw HorizonReached{}; },
            [&](const LSInstruction& i) {
                ++x.visits; x.listing += cat(i, ";"); auto* q = std::get_if<SingleQubitOp>(&i.operation);
                // instructions that go on in the next slice
                if (std::get_if<RotateSingleCellPatch>(&i.operation) || (q && q->op == SingleQubitOp::Operator::S)) ++x.advances;
                else if (auto* b = std::get_if<BusyRegion>(&i.operation)) { if (b->steps_to_clear > 0) ++x.advances; }
                else if (auto* b = std::get_if<BellPairInit>(&i.operation)) { if (open[cat(b->side1)]++) ++x.advances; }
                else if (auto* b = std::get_if<BellBasedCNOT>(&i.operation)) { if (open[cat(b->side1)]++) ++x.advances; }
            }, false, ids);
        x.done = true;
    } catch (const HorizonReached&) {} catch (const std::exception&) {}
    return x;
}
void check_json(vf::Ctx& c, const Run& r, const S& text, const Seen& x, bool ids)
{
    json j = json::parse(text, nullptr, false); S what = cat(r.name, r.args, "\n", r.input, "\n");
    if (j.is_discarded()) return c.violation("the output is not well-formed JSON", cat(what, text.substr(0, 400)));
    if (!j.is_array()) return c.violation("the output is not an array", what);
    if (j.size() != x.slices) return c.violation("number of entries differs from the slices emitted", cat(what, j.size(), " entries, ", x.slices, " slices"));
    std::map<S, OpId> m; for (size_t i = 0; i < x.slices; ++i) { c.count(vf::EVALS); S d = slice_diff(j[i], x.copies[i], ids ? &m : nullptr); if (!d.empty()) return c.violation(cat("a printed slice differs from the slice: ", d), cat(what, "slice ", i, "\n", j[i].dump())); }
}
void check_slices(vf::Ctx& c, const Run& r, size_t said, const Seen& x)
{
    if (said == x.slices) return;
    S detail = cat(r.name, r.args, "\n", r.input, "\nreported ", said, ", emitted ", x.slices);
    if (r.mode == PipelineMode::Stream && said == x.advances) c.violation("stream: slices in which an instruction waits are not counted in the reported number of slices", detail);
    else if (r.mode != PipelineMode::Stream && said == x.slices + 1) c.violation("wave, dag and edpc: the reported number of slices is one too large", detail);
    else c.violation("the reported number of slices is wrong", detail);
}
void check_instructions(vf::Ctx& c, const Run& r, size_t said, const Seen& x)
{
    size_t want = r.mode == PipelineMode::Stream ? r.prog->size() : x.visits;
    if (said != want) c.violation("the reported number of instructions is wrong", cat(r.name, r.args, "\n", r.input, "\nreported ", said, ", executed ", want));
}
// level 0: slices to standard output; 1: and the statistics; 2: everything
void judge(vf::Ctx& c, const Run& r, int level, int cap = 60)
{
    S what = cat(r.name, r.args, "\n", r.input); c.begin(what);
    Seen x = library(r, false, cap); if (!x.done) { c.count(vf::SKIPPED); return; }
    c.count(vf::TRANSITIONS, x.slices); c.state(vf::hash_str(what));
    auto cli = [&](const S& more) { c.count(vf::TRACES); auto k = vf::run_cli(r.args + more, r.input); if (!k.ok()) c.violation("the command line fails where the slicer succeeds", cat(what, more, "\n", k.what, k.err)); return k; };
    auto k = cli(""); if (!k.ok()) return; check_json(c, r, k.out, x, false);
    if (level < 1) return;
    auto stats = cli(" --noslices -f stats"); if (!stats.ok()) return;
    auto number = [&](const S& text, const S& name, size_t& v) { size_t at = text.find(name); return at != S::npos && bool(std::istringstream(text.substr(at + name.size())) >> v); };
    size_t ins = 0, sl = 0; if (!number(stats.out, "LS Instructions read", ins) || !number(stats.out, "Slices", sl)) return c.violation("a statistic is missing", cat(what, "\n", stats.out));
    check_instructions(c, r, ins, x); check_slices(c, r, sl, x);
    if (x.slices) { S d = report_diff(stats.out, x.vol); if (!d.empty()) c.violation(cat("volume statistics: ", d), cat(what, "\n", stats.out, "\nexpected ", x.vol.all, " ", x.vol.dist, " ", x.vol.empty, " ", x.vol.dead, " ", x.vol.other)); }
    if (level < 2) return;
    Run ri = r; ri.args += " --op-ids"; Seen y = library(ri, true, cap); auto ki = cli(" --op-ids"); if (ki.ok()) check_json(c, ri, ki.out, y, true);
    auto machine = cli(" --noslices -f machine"); std::istringstream in(machine.out); char a = 0, b = 0; double t; if (!(in >> ins >> a >> sl >> b >> t) || a != ',' || b != ',') c.violation("machine output is malformed", cat(what, "\n", machine.out)); else { check_instructions(c, r, ins, x); check_slices(c, r, sl, x); }
    auto listing = cli(" --printlli sliced"); S l = listing.out; while (!l.empty() && l.back() == '\n') l.pop_back(); S want = x.listing; while (!want.empty() && want.back() == '\n') want.pop_back(); if (l != want) c.violation("the instructions listed per slice differ from those executed", cat(what, "\n", l, "\nexpected\n", want));
    S file = cat(dir, "/out", getpid(), ".json");
    for (const char* f : {"", " -f progress", " -f stats", " -f machine"}) {
        std::ofstream(file) << "stale"; auto o = cli(cat(" -o ", file, f)); std::ifstream is(file); S text((std::istreambuf_iterator<char>(is)), {}); check_json(c, r, text, x, false);
        if (S(f) != " -f machine") { if (!number(o.out, "LS Instructions read", ins) || !number(o.out, "Slices", sl)) c.violation("a statistic is missing", cat(what, f, "\n", o.out)); else { check_instructions(c, r, ins, x); check_slices(c, r, sl, x); } }
        if (S(f) == " -f stats" && x.slices) { S d = report_diff(o.out, x.vol); if (!d.empty()) c.violation(cat("volume statistics: ", d), cat(what, "\n", o.out)); }
    }
    auto g = cli(" --graceful"); if (g.ok()) check_json(c, r, g.out, x, false);
}
}

int main(int argc, char** argv)
{
    auto o = parse_options("C13", argc, argv); bool q = o.quick();
    { S t = (std::filesystem::temp_directory_path() / "lsqecc-c13-XXXXXX").string(); if (!mkdtemp(t.data())) return 3; dir = t; }
    o.rule = "Every state of a tile (kind, activity, identifier, operation id, kind and activity of all four sides) and every assignment of tile kinds to small lattices through the real JSON and statistics code; every valid program up to the stated length over each layout "
             "profile, and every gate sequence up to the stated length over generated layouts, through the real command line in every pipeline, its JSON, files, listings and reported numbers compared with the slices and instructions of the same run of the slicer. "
             "A state is a distinct run, a transition one emitted slice, a trace one invocation of the command line.";
    o.assumptions = {"In stream mode the reported instructions are those of the program, each once; in wave, dag and edpc mode every application of an instruction (also its continuation in a later slice) counts, as in the listing per slice (regression specs freeze this).", "Percentages are compared to 0.001."};

    // one tile, every state
    vf::explore(o, "tile states", 5 * 9 * 2 * 2 * 6, [&](vf::Ctx& c, uint64_t u) {
        LayoutFromSpec l(std::string_view("r"), DistillationOptions{}); DenseSlice s(l, tsl::ordered_set<PatchId>{}); DensePatch p; p.type = PatchType(u % 5); u /= 5; p.activity = PatchActivity(u % 9); u /= 9; if (u % 2) p.id = 7; u /= 2; if (u % 2) p.operation_id = 93; u /= 2; p.boundaries.top.boundary_type = BoundaryType(u);
        c.begin("tile");
        for (int t = 0; t < 6 * 6 * 6 * 16; ++t) {
            int v = t; p.boundaries.bottom.boundary_type = BoundaryType(v % 6); v /= 6; p.boundaries.left.boundary_type = BoundaryType(v % 6); v /= 6; p.boundaries.right.boundary_type = BoundaryType(v % 6); v /= 6;
            p.boundaries.top.is_active = v & 1; p.boundaries.bottom.is_active = v & 2; p.boundaries.left.is_active = v & 4; p.boundaries.right.is_active = v & 8;
            s.patch_at(Cell{0, 0}) = p; json j = slice_to_json(s); c.count(vf::EVALS); c.count(vf::STATES); S d = slice_diff(j, s, nullptr); if (!d.empty()) return c.violation(cat("a printed tile differs from the tile: ", d), cat("type ", int(p.type), " activity ", int(p.activity), "\n", j.dump()));
        }
    });
    // every placement of kinds on small lattices; with and without reserved tiles and regions
    struct Grid { S text; }; std::vector<S> grids = {"rrr\nrrr", "rr\nrr\nrr", "Mrr\nrrr", "0rr\n0rr", "0r1\nrrr", "rrrrrr", "r\nr\nr\nr\nr\nr"};
    vf::explore(o, "tile kinds on small lattices", grids.size() * 7 * 7, [&](vf::Ctx& c, uint64_t u) {
        S& g = grids[u / 49]; LayoutFromSpec l(std::string_view(g), DistillationOptions{}); c.begin(g); DenseSlice s(l, tsl::ordered_set<PatchId>{}); auto f = l.furthest_cell(); int W = f.col + 1;
        for (int t = 0; t < 7 * 7 * 7 * 7; ++t) {
            int v = int(u % 49) * 2401 + t; for (int i = 0; i < 6; ++i) { int k = v % 7; v /= 7; auto& p = s.patch_at(Cell{i / W, i % W}); if (!k) { p = std::nullopt; continue; } DensePatch d{}; d.type = k <= 5 ? PatchType(k - 1) : PatchType::Qubit; if (k == 6) d.id = 100 + i; d.activity = i % 2 ? PatchActivity::None : PatchActivity::Measurement; p = d; }
            // the annotated tile of a region must hold something
            bool skip = false; for (auto& r : l.distillation_regions()) if (!s.patch_at(r.sub_cells.front().cell)) skip = true; if (skip) continue;
            c.count(vf::EVALS); c.count(vf::STATES); S d = slice_diff(slice_to_json(s), s, nullptr); if (!d.empty()) return c.violation(cat("a printed slice differs from the slice: ", d), g);
            Volume want; add(want, s); d = volume_diff(want, compute_volume_counts(s)); if (!d.empty()) return c.violation(cat("volume of a slice: ", d), cat(g, "\nassignment ", int(u % 49) * 2401 + t));
            SliceStats st; st.totals += compute_volume_counts(s); st.totals += compute_volume_counts(s); Volume twice = want; add(twice, s); std::ostringstream os; os << st; d = report_diff(os.str(), twice); if (!d.empty()) return c.violation(cat("volume statistics: ", d), os.str());
        }
    });
    // lattice-surgery programs
    const char* modes[] = {"stream", "wave", "dag"}; PipelineMode pm[] = {PipelineMode::Stream, PipelineMode::Wave, PipelineMode::Dag};
    for (auto& p : profiles()) {
        S file = cat(dir, "/", p.name, ".txt"); std::ofstream(file) << p.layout; LayoutFromSpec layout(std::string_view(p.layout), DistillationOptions{p.staggered, p.dist_time});
        bool has_y = p.layout.find('Y') != S::npos, twists = has_y ? p.twists : true; int depth = (q ? 4 : 5) + (p.depth_quick > 5 ? 1 : 0);
        for_each_program(o, p, depth, [&](vf::Ctx& c, const std::vector<LSInstruction>& prog) {
            for (int m = 0; m < 3; ++m) {
                Run r{p.name, cat("-l ", file, " -P ", modes[m], " --disttime ", p.dist_time, p.staggered ? "" : " --nostagger", twists ? "" : " --notwists"), pm[m], false, twists, &layout, &prog, p.core, program_text(p.core, prog)};
                judge(c, r, prog.size() < 2 ? 2 : (int)prog.size() < depth ? 1 : 0); if (c.stop()) return;
            }
            if (prog.size() == 2 && c.unit % 29 == 3) c.sample(program_text(p.core, prog));
        });
    }
    // circuits on generated layouts, with everything the compiler adds
    struct Gen { S args; PipelineMode mode; bool local, twists; std::function<std::unique_ptr<Layout>(size_t, const DistillationOptions&)> make; };
    std::vector<Gen> gens;
    for (int m = 0; m < 3; ++m) {
        gens.push_back({cat("-L compact -P ", modes[m]), pm[m], false, true, [](size_t n, auto& d) { return make_compact_layout(n, d, false); }}); gens.push_back({cat("-L compact_no_clogging -P ", modes[m]), pm[m], false, true, [](size_t n, auto& d) { return make_compact_layout(n, d, true); }});
        for (bool local : {false, true}) { gens.push_back({cat("-L edpc -P ", modes[m], local ? " --local" : ""), pm[m], local, true, [](size_t n, auto& d) { return make_edpc_layout(n, 1, false, false, false, d); }}); gens.push_back({cat("-L edpc --notwists -P ", modes[m], local ? " --local" : ""), pm[m], local, false, [](size_t n, auto& d) { return make_edpc_layout(n, 1, false, false, true, d); }}); }
        gens.push_back({cat("-L edpc --condensed 1 --explicitfactories -P ", modes[m]), pm[m], false, true, [](size_t n, auto& d) { return make_edpc_layout(n, 1, true, true, false, d); }});
    }
    gens.push_back({"-L edpc --local -P edpc", PipelineMode::EDPC, true, true, [](size_t n, auto& d) { return make_edpc_layout(n, 1, false, false, false, d); }}); gens.push_back({"-L edpc --local -P edpc --condensed 1", PipelineMode::EDPC, true, true, [](size_t n, auto& d) { return make_edpc_layout(n, 1, true, false, false, d); }});
    std::vector<S> gates = {"h q[0];", "s q[1];", "t q[0];", "x q[2];", "cx q[0],q[1];", "cx q[2],q[0];", "cx q[1],q[2];", "reset q[1];"}; size_t G = gates.size();
    uint64_t total = 1; int len = q ? 3 : 4; for (int i = 0; i < len; ++i) total *= G + 1;
    vf::explore(o, "circuits on generated layouts", total, [&](vf::Ctx& c, uint64_t u) {
        S text = "OPENQASM 2.0;\ninclude \"qelib1.inc\";\nqreg q[3];\n"; bool gap = false; int n = 0; uint64_t v = u; for (int i = 0; i < len; ++i) { int k = int(v % (G + 1)); v /= G + 1; if (!k) gap = true; else { if (gap) return; text += gates[k - 1] + "\n"; ++n; } }
        for (auto& g : gens) {
            DistillationOptions d{false, 3}; auto layout = g.make(3, d); S args = cat("-I qasm --nostagger --disttime 3 ", g.args); c.begin(args + "\n" + text);
            std::vector<LSInstruction> prog;
            gates::ControlledGate::default_ancilla_placement = layout->ancilla_location().empty() ? gates::CNOTAncillaPlacement::ANCILLA_NEXT_TO_TARGET : gates::CNOTAncillaPlacement::USE_DEDICATED_CELL;
            try {
                std::istringstream in(text); std::unique_ptr<GateStream> gs = std::make_unique<DecomposeRotationStream>(std::make_unique<GateStreamFromFile>(in), 10.0);
                IdGenerator idg; idg.set_start(3); std::unique_ptr<LSInstructionStream> st = std::make_unique<LSInstructionStreamFromGateStream>(*gs, CNOTCorrectionMode::NEVER, idg, g.local);
                if (g.args.find("compact") != S::npos) { st = std::make_unique<BoundaryRotationInjectionStream>(std::move(st), *layout); st = std::make_unique<TeleportedSGateInjectionStream>(std::move(st), idg, false); }
                else if (g.twists) st = std::make_unique<TeleportedSGateInjectionStream>(std::move(st), idg, true); else st = std::make_unique<CatalyticSGateInjectionStream>(std::move(st), idg, g.local, true);
                while (st->has_next_instruction()) prog.push_back(st->get_next_instruction());
            } catch (const std::exception& e) { c.count(vf::SKIPPED); continue; }
            Run r{"circuit ", args, g.mode, g.local, g.twists, layout.get(), &prog, {0, 1, 2}, text}; judge(c, r, n <= 1 ? 2 : 1, 400); if (c.stop()) return;
        }
    });
    int rc = vf::finish(o); std::filesystem::remove_all(dir); return rc;
}
