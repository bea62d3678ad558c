// C12: layouts. Every text grid within the bounds, read by the real layout code and compared tile by tile with the text; every
// malformed variant; every generated layout with its tiles counted and its routing space explored from every qubit.
#include "common/runner.hpp"
#include "common/cli.hpp"
#include <nlohmann/json.hpp>
#include <lsqecc/layout/ascii_layout_spec.hpp>
#include <lsqecc/layout/dynamic_layouts/compact_layout.hpp>
#include <lsqecc/layout/dynamic_layouts/edpc_layout.hpp>
#include <lsqecc/layout/router.hpp>
#include <lsqecc/patches/dense_slice.hpp>
#include <algorithm>
#include <memory>

using namespace lsqecc;
using vf::cat;
using S = std::string; using Grid = std::vector<S>;

namespace {
using At = std::pair<int, int>; using Set = std::set<At>;
At at(const Cell& c) { return {(int)c.row, (int)c.col}; }
const int DR[] = {-1, 1, 0, 0}, DC[] = {0, 0, -1, 1};
S join(const Grid& g) { S s; for (auto& r : g) s += r + "\n"; return s; }

template<class V, class F> Set collect(const V& v, F f, bool& twice) { Set s; for (auto& x : v) if (!s.insert(f(x)).second) twice = true; return s; }
S list(const Set& s) { S t; for (auto& [r, c] : s) t += cat(" ", r, ",", c); return t; }

// Everything a layout says about its tiles, against the text
void compare(vf::Ctx& c, const S& what, const Layout& l, const Grid& g, const DistillationOptions& d)
{
    int R = (int)g.size(), C = (int)g[0].size(); S text = join(g);
    auto bad = [&](const S& why, const S& more = "") { c.violation(cat(what, ": ", why), cat(text, more)); };
    auto tiles = [&](char ch) { Set s; for (int r = 0; r < R; ++r) for (int k = 0; k < C; ++k) if (g[r][k] == ch) s.insert({r, k}); return s; };
    c.count(vf::TRACES); c.count(vf::TRANSITIONS, R * C); c.count(vf::EVALS);
    if (at(l.furthest_cell()) != At{R - 1, C - 1}) return bad("dimensions differ from the grid's", cat(at(l.furthest_cell()).first + 1, " x ", at(l.furthest_cell()).second + 1));
    int cells = 0; l.for_each_cell([&](const Cell& x) { if (at(x).first < R && at(x).second < C && x.row >= 0 && x.col >= 0) ++cells; else cells = -1000000; }); if (cells != R * C) bad("does not enumerate the grid's tiles");
    bool twice = false; Set q; for (auto& p : l.core_patches()) { auto* x = std::get_if<SingleCellOccupiedByPatch>(&p.cells); if (!x) return bad("a qubit is not on one tile"); if (!q.insert(at(x->cell)).second) twice = true; }
    if (q != tiles('Q') || twice) bad("qubits differ from the Q tiles", list(q));
    auto cell = [](const Cell& x) { return at(x); };
    struct { const char* name; char ch; const std::vector<Cell>& v; } kinds[] = {{"ancilla tiles differ from the A tiles", 'A', l.ancilla_location()}, {"dead tiles differ from the X tiles", 'X', l.dead_location()}, {"Y-state tiles differ from the Y tiles", 'Y', l.predistilled_y_states()}, {"reserved tiles differ from the M tiles", 'M', l.reserved_for_magic_states()}};
    for (auto& k : kinds) { twice = false; Set s = collect(k.v, cell, twice); if (s != tiles(k.ch) || twice) bad(k.name, list(s)); }
    if (l.magic_states_reserved() != !tiles('M').empty()) bad("whether tiles are reserved for magic states is wrong");
    // regions: edge-connected groups of equal digits
    std::map<Set, Set> want; Set done;
    for (int r = 0; r < R; ++r) for (int k = 0; k < C; ++k) if (isdigit((unsigned char)g[r][k]) && !done.count({r, k})) {
        Set comp, door; std::vector<At> todo{{r, k}}; comp.insert({r, k});
        while (!todo.empty()) { auto [a, b] = todo.back(); todo.pop_back(); for (int e = 0; e < 4; ++e) { int x = a + DR[e], y = b + DC[e]; if (x < 0 || y < 0 || x >= R || y >= C) continue; if (g[x][y] == 'r') door.insert({x, y}); if (g[x][y] == g[r][k] && comp.insert({x, y}).second) todo.push_back({x, y}); } }
        done.insert(comp.begin(), comp.end()); want[comp] = door;
    }
    auto& regions = l.distillation_regions(); std::set<Set> got;
    if (regions.size() != want.size()) bad("number of distillation regions is wrong", cat(regions.size()));
    for (size_t i = 0; i < regions.size(); ++i) {
        twice = false; Set s = collect(regions[i].sub_cells, [](const SingleCellOccupiedByPatch& x) { return at(x.cell); }, twice);
        if (!want.count(s) || twice || !got.insert(s).second) { bad("a distillation region is not a group of connected equal digits", list(s)); continue; }
        bool dummy = false; Set door = collect(l.distilled_state_locations(i), cell, dummy);
        if (door != want[s]) bad("delivery tiles are not the routing tiles touching the region", cat("region", list(s), "\ndelivers to", list(door)));
    }
    if (l.distillation_times().size() != regions.size() + l.reserved_for_magic_states().size()) bad("number of distillation times is wrong");
    else if (!l.magic_states_reserved()) for (size_t i = 0; i < regions.size(); ++i) if (l.distillation_times()[i] != d.distillation_time + (d.staggered ? i : 0)) bad("a distillation time is wrong");
    if (l.magic_states_reserved()) for (auto t : l.distillation_times()) if (t != d.distillation_time) bad("a distillation time is wrong");
    // the lattice a run starts from
    tsl::ordered_set<PatchId> ids; for (size_t i = 0; i < q.size(); ++i) ids.insert((PatchId)(40 + i));
    DenseSlice s(l, ids); std::set<PatchId> seen;
    for (int r = 0; r < R; ++r) for (int k = 0; k < C; ++k) {
        auto& p = s.patch_at(Cell{r, k}); char ch = g[r][k]; bool ok = true;
        if (ch == 'r' || ch == 'A') ok = !p.has_value();
        else if (!p) ok = false;
        else if (ch == 'Q') ok = p->type == PatchType::Qubit && p->id && *p->id >= 40 && *p->id < 40 + q.size() && seen.insert(*p->id).second;
        else if (ch == 'X') ok = p->type == PatchType::Dead && !p->id;
        else if (ch == 'Y') ok = !p->id; else if (ch == 'M' || isdigit((unsigned char)ch)) ok = p->type == PatchType::Distillation && !p->id;
        if (!ok) bad(cat("the first lattice has the wrong thing on a ", isdigit((unsigned char)ch) ? 'd' : ch, " tile"), cat("tile ", r, ",", k));
    }
}
void accept(vf::Ctx& c, const Grid& g, bool both = false)
{
    S text = join(g); c.begin(text); bool digits = false, m = false; for (char ch : text) { if (isdigit((unsigned char)ch)) digits = true; if (ch == 'M') m = true; }
    c.state(vf::hash_str(text));
    for (int variant = 0; variant < (both ? 3 : 1); ++variant) {
        DistillationOptions d{variant != 1, variant == 2 ? size_t(3) : size_t(10)};
        std::unique_ptr<Layout> l; S err;
        try {
            if (variant == 1) { AsciiLayoutSpec::CellGrid cg; for (auto& r : g) { cg.emplace_back(); for (char ch : r) cg.back().push_back((AsciiLayoutSpec::CellType)ch); } l = std::make_unique<LayoutFromSpec>(cg, d); }
            else l = std::make_unique<LayoutFromSpec>(std::string_view(variant == 2 ? text.substr(0, text.size() - 1) : text), d);
        } catch (const std::exception& e) { err = e.what(); }
        if (digits && m) { c.count(vf::TRACES); if (l) c.violation("regions together with reserved tiles are accepted", text); continue; }
        if (!l) { c.violation("a good grid is rejected", cat(text, err)); continue; }
        compare(c, "text grid", *l, g, d);
    }
}
void reject(vf::Ctx& c, const S& what, const S& text)
{
    c.begin(cat(what, ": ", text)); c.count(vf::TRACES); c.count(vf::EVALS);
    try {
        LayoutFromSpec l(std::string_view(text), DistillationOptions{}); size_t qs = 0; bool td = false; for (char ch : text) { qs += ch == 'Q'; td |= ch == 'T' || ch == 'D'; }
        if (td && what.find("unknown character") == 0 && l.core_patches().size() == qs) { c.violation("layout characters T and D are accepted and their qubits left out", text); return; }
        c.violation(cat(what, " accepted"), cat(text, "\nread as ", l.furthest_cell().row + 1, " x ", l.furthest_cell().col + 1));
    }
    catch (const std::exception&) {}
}

struct Gen { S name; size_t n; bool pairwise; std::function<std::unique_ptr<Layout>(const DistillationOptions&)> make; };
// The tiles of a generated layout as text (from its own lists, which must not overlap)
bool draw(const Layout& l, Grid& g)
{
    auto f = at(l.furthest_cell()); g.assign(f.first + 1, S(f.second + 1, 'r')); bool ok = true;
    auto put = [&](At x, char ch) { if (x.first < 0 || x.second < 0 || x.first > f.first || x.second > f.second || g[x.first][x.second] != 'r') ok = false; else g[x.first][x.second] = ch; };
    for (auto& p : l.core_patches()) put(at(std::get<SingleCellOccupiedByPatch>(p.cells).cell), 'Q');
    for (auto& x : l.ancilla_location()) put(at(x), 'A'); for (auto& x : l.dead_location()) put(at(x), 'X'); for (auto& x : l.predistilled_y_states()) put(at(x), 'Y'); for (auto& x : l.reserved_for_magic_states()) put(at(x), 'M');
    char digit = '0'; for (auto& r : l.distillation_regions()) { for (auto& x : r.sub_cells) put(at(x.cell), digit); digit = digit == '9' ? '0' : digit + 1; }
    return ok;
}
void generated(vf::Ctx& c, const Gen& gen)
{
    c.begin(gen.name); DistillationOptions d; std::unique_ptr<Layout> l;
    try { l = gen.make(d); } catch (const std::exception& e) { c.violation("generator fails", cat(gen.name, "\n", e.what())); return; }
    Grid g; if (!draw(*l, g)) { c.violation("a generated layout uses a tile twice", cat(gen.name, "\n", join(g))); return; }
    S text = cat(gen.name, "\n", join(g)); c.state(vf::hash_str(text)); c.count(vf::TRACES);
    int R = (int)g.size(), C = (int)g[0].size();
    auto bad = [&](const S& why) { c.violation(cat(gen.name.substr(0, gen.name.find(" for")), ": ", why), text); };
    size_t qubits = 0, sources = 0; for (auto& r : g) for (char ch : r) qubits += ch == 'Q';
    if (qubits < gen.n) return bad("fewer qubits than requested");
    // routing space: tiles that are free from the start
    std::vector<int> comp(R * C, -1); int n = 0;
    for (int s = 0; s < R * C; ++s) if (comp[s] < 0 && (g[s / C][s % C] == 'r' || g[s / C][s % C] == 'A')) { std::vector<int> todo{s}; comp[s] = n; while (!todo.empty()) { int x = todo.back(); todo.pop_back(); c.count(vf::TRANSITIONS); for (int e = 0; e < 4; ++e) { int a = x / C + DR[e], b = x % C + DC[e]; if (a < 0 || b < 0 || a >= R || b >= C) continue; int y = a * C + b; if (comp[y] < 0 && (g[a][b] == 'r' || g[a][b] == 'A')) { comp[y] = n; todo.push_back(y); } } } ++n; }
    auto near = [&](int x) { std::set<int> s; for (int e = 0; e < 4; ++e) { int a = x / C + DR[e], b = x % C + DC[e]; if (a >= 0 && b >= 0 && a < R && b < C && comp[a * C + b] >= 0) s.insert(comp[a * C + b]); } return s; };
    std::set<int> home; bool first = true;
    for (int x = 0; x < R * C; ++x) if (g[x / C][x % C] == 'Q') { c.count(vf::EVALS); auto s = near(x); if (first) { home = s; first = false; } else { std::set<int> both; for (int v : s) if (home.count(v)) both.insert(v); home = both; } }
    if (home.empty()) bad("a qubit cannot be reached from another");
    for (int x = 0; x < R * C; ++x) if (g[x / C][x % C] == 'M') { ++sources; bool ok = false; for (int v : near(x)) ok |= home.count(v) > 0; if (!ok) bad("a reserved magic-state tile cannot be reached"); }
    for (size_t i = 0; i < l->distillation_regions().size(); ++i) { ++sources; bool ok = false; for (auto& x : l->distilled_state_locations(i)) ok |= home.count(comp[x.row * C + x.col]) > 0; if (!ok) bad("no magic state of a distillation region can be reached"); }
    if (!sources) bad("there is no source of magic states");
    for (size_t i = 0; i < l->distillation_regions().size(); ++i) for (auto& x : l->distilled_state_locations(i)) if (g[x.row][x.col] != 'r') bad("a magic state would be delivered to an occupied tile");
    for (int x = 0; x < R * C; ++x) if (g[x / C][x % C] == 'Y') { bool ok = false; for (int v : near(x)) ok |= home.count(v) > 0; if (!ok) bad("a Y state cannot be reached"); }
    if (!gen.pairwise) return;
    // every CNOT on the fresh lattice has a route: from a smooth side of the control to a rough side of the target
    tsl::ordered_set<PatchId> ids; for (size_t i = 0; i < qubits; ++i) ids.insert((PatchId)i);
    DenseSlice s(*l, ids); CustomDPRouter router;
    for (PatchId a = 0; a < qubits; ++a) for (PatchId b = 0; b < qubits; ++b) if (a != b) { c.count(vf::EVALS); if (!router.find_routing_ancilla(s, a, PauliOperator::Z, b, PauliOperator::X)) { bad(cat("no route for a CNOT")); return; } }
}

// The command line builds its lattice with the generator and options asked for (distillation turned off in effect, so that the
// first slice of a one-gate program still shows every other tile as the generator laid it out)
struct Cmd { S args; size_t n; std::function<std::unique_ptr<Layout>(const DistillationOptions&)> make; };
void command(vf::Ctx& c, const Cmd& k)
{
    S text = cat("OPENQASM 2.0;\ninclude \"qelib1.inc\";\nqreg q[", k.n, "];\nz q[0];\n"); c.begin(k.args + "\n" + text);
    c.count(vf::TRACES); auto r = vf::run_cli("-I qasm --disttime 1000 " + k.args, text);
    if (!r.ok()) return c.violation("the command line fails on a generated layout", cat(k.args, " for ", k.n, " qubits\n", r.what, r.err));
    auto j = nlohmann::json::parse(r.out, nullptr, false); auto l = k.make(DistillationOptions{true, 1000}); Grid g; draw(*l, g);
    if (!j.is_array() || j.empty()) return c.violation("the command line prints no slice", k.args);
    auto& s = j[0]; bool same = s.size() == g.size();
    for (size_t r = 0; same && r < g.size(); ++r) { same = s[r].size() == g[r].size(); for (size_t x = 0; same && x < g[r].size(); ++x) { c.count(vf::EVALS); auto& t = s[r][x]; char ch = g[r][x]; S type = t.is_null() ? "" : t["patch_type"].get<S>(); same = ch == 'Q' ? type == "Qubit" : ch == 'M' || isdigit((unsigned char)ch) ? type == "DistillationQubit" : ch == 'X' ? type == "Ancilla" : ch == 'Y' ? type == "Qubit" || type == "DistillationQubit" : type.empty(); } }
    if (!same) c.violation("the command line's lattice differs from the generator's", cat(k.args, " for ", k.n, " qubits\n", join(g), s.dump()));
}
}

int main(int argc, char** argv)
{
    auto o = vf::parse_options("C12", argc, argv); bool q = o.quick();
    o.rule = cat("every text grid over the layout alphabet of the listed shapes, read from text (with and without a final newline) and from a cell grid; every character in every position of small grids; every ragged variant; every generated layout of up to ", q ? 60 : 200, " qubits with 1 to ", q ? 4 : 6, " lanes, every flag. A state is one layout, a transition one tile compared or explored.");
    o.assumptions = {"blank lines in a grid carry no tiles and are skipped", "delivery tiles are compared as a set", "T and D (qubits the program does not support) are rejected", "the order of qubits and regions is not prescribed"};
    struct Shape { int R, C; S alphabet; };
    std::vector<Shape> shapes = {{1, 1, "rQAXYM0123456789"}, {1, 2, "rQAXYM0123456789"}, {2, 1, "rQAXYM0123456789"}, {1, 3, "rQAXYM0123456789"}, {3, 1, "rQAXYM0123456789"}, {2, 2, "rQAXYM0123456789"}, {1, 5, "rQAXYM019"}, {5, 1, "rQAXYM019"}, {2, 3, "rQAXYM09"}, {3, 2, "rQAXYM09"}, {1, 6, "rQAM015"}, {3, 3, q ? "rQ05" : "rQA05"}, {2, 4, q ? "rQ05" : "rQA05"}, {4, 2, q ? "rQ05" : "rQA05"}, {3, 4, q ? "r7" : "r07"}, {4, 3, q ? "r7" : "r07"}, {4, 4, "r3"}, {2, 6, "r38"}, {3, 3, "QYM"}, {3, 3, "rAX"}};
    for (auto& sh : shapes) {
        int n = sh.R * sh.C; uint64_t tot = 1; for (int i = 0; i < n; ++i) tot *= sh.alphabet.size(); const uint64_t chunk = 512;
        vf::explore(o, cat(sh.R, "x", sh.C, " over ", sh.alphabet), (tot + chunk - 1) / chunk, [&](vf::Ctx& c, uint64_t u) {
            for (uint64_t v = u * chunk; v < std::min(tot, (u + 1) * chunk) && !c.stop(); ++v) { Grid g(sh.R, S(sh.C, 'r')); uint64_t r = v; for (int i = 0; i < n; ++i) { g[i / sh.C][i % sh.C] = sh.alphabet[r % sh.alphabet.size()]; r /= sh.alphabet.size(); } accept(c, g, true); }
            if (u % 97 == 3) { Grid g(sh.R, S(sh.C, 'r')); uint64_t r = u * chunk; for (int i = 0; i < n; ++i) { g[i / sh.C][i % sh.C] = sh.alphabet[r % sh.alphabet.size()]; r /= sh.alphabet.size(); } c.sample(join(g)); }
        });
    }
    // one long snake, comb or spiral region on larger grids, two interleaved regions of equal and of different digits
    vf::explore(o, "long regions", 9 * 9, [&](vf::Ctx& c, uint64_t u) {
        int R = 1 + (int)u / 9, C = 1 + (int)u % 9;
        for (char a : S("0459")) for (char b : S("r0459Q")) for (int kind = 0; kind < 5; ++kind) { Grid g(R, S(C, b)); for (int r = 0; r < R; ++r) for (int k = 0; k < C; ++k) { bool in = kind == 0 ? r % 2 == 0 || (r / 2 % 2 ? k == 0 : k == C - 1) : kind == 1 ? r == 0 || k % 2 == 0 : kind == 2 ? (r + k) % 2 == 0 : kind == 3 ? std::min(std::min(r, k), std::min(R - 1 - r, C - 1 - k)) % 2 == 0 : r % 3 != 1 || k % 3 != 1; if (in) g[r][k] = a; } accept(c, g, true); }
    });
    std::vector<Grid> bases = {{"r"}, {"Qr", "rA"}, {"Qrr", "r0r", "rXY"}, {"QrM"}};
    vf::explore(o, "characters", 256, [&](vf::Ctx& c, uint64_t u) {
        char ch = (char)u; if (ch == '\n') return; bool good = ch && S("rQAXYM0123456789").find(ch) != S::npos;
        for (auto& b : bases) for (size_t r = 0; r < b.size(); ++r) for (size_t k = 0; k <= b[r].size(); ++k) { Grid g = b; if (k < b[r].size()) g[r][k] = ch; else if (!good || b.size() > 1) g[r] += ch; else continue; if (k < b[r].size() && good) accept(c, g); else reject(c, k < b[r].size() ? "unknown character" : good ? "ragged grid" : "unknown character at the end of a row", join(g)); Grid h = b; if (k < b[r].size()) { h[r].insert(k, 1, ch); if (!good) reject(c, "unknown character", join(h)); else if (b.size() > 1) reject(c, "ragged grid", join(h)); } }
    });
    vf::explore(o, "ragged and empty grids", 4 * 4 * 4 * 4, [&](vf::Ctx& c, uint64_t u) {
        size_t w[4] = {u & 3, u >> 2 & 3, u >> 4 & 3, u >> 6 & 3}; for (char ch : S("rQ0")) { S text; std::set<size_t> widths; Grid kept; for (auto x : w) { text += S(x, ch) + "\n"; if (x) { widths.insert(x); kept.push_back(S(x, ch)); } } if (widths.size() > 1) reject(c, "ragged grid", text); else if (widths.empty()) { reject(c, "empty grid", text); } else { c.begin(text); LayoutFromSpec l(std::string_view(text), DistillationOptions{}); compare(c, "grid with blank lines", l, kept, DistillationOptions{}); } }
        if (u == 0) { reject(c, "empty grid", ""); reject(c, "empty grid", "\n"); }
    });
    std::vector<Gen> gens; size_t top = q ? 60 : 200;
    for (size_t n = 1; n <= top; ++n) for (bool noclog : {false, true}) gens.push_back({cat("compact", noclog ? " without clogging" : "", " for ", n, " qubits"), n, false, [=](const DistillationOptions& d) { return make_compact_layout(n, d, noclog); }});
    for (size_t n = 1; n <= top; ++n) for (size_t lanes = 1; lanes <= (q ? 4u : 6u); ++lanes) for (int f = 0; f < 8; ++f) gens.push_back({cat("edpc", f & 1 ? " condensed" : "", f & 2 ? " explicit factories" : "", f & 4 ? " predistilled" : "", " for ", n, " qubits, ", lanes, " lanes"), n, n <= 26, [=](const DistillationOptions& d) { return make_edpc_layout(n, lanes, f & 1, f & 2, f & 4, d); }});
    vf::explore(o, "generated layouts", gens.size(), [&](vf::Ctx& c, uint64_t u) { generated(c, gens[u]); if (u % 301 == 2) c.sample(gens[u].name); });
    std::vector<Cmd> cmds;
    for (size_t n = 1; n <= (q ? 9u : 30u); ++n) {
        cmds.push_back({"", n, [=](auto& d) { return make_compact_layout(n, d, false); }}); cmds.push_back({"-L compact", n, [=](auto& d) { return make_compact_layout(n, d, false); }}); cmds.push_back({"-L compact_no_clogging", n, [=](auto& d) { return make_compact_layout(n, d, true); }});
        cmds.push_back({"-L edpc", n, [=](auto& d) { return make_edpc_layout(n, 1, false, false, false, d); }});
        for (size_t lanes = 1; lanes <= 4; ++lanes) for (int f = 0; f < 8; ++f) cmds.push_back({cat("-L edpc --numlanes ", lanes, f & 1 ? " --condensed 1" : "", f & 2 ? " --explicitfactories" : "", f & 4 ? " --notwists" : ""), n, [=](auto& d) { return make_edpc_layout(n, lanes, f & 1, f & 2, f & 4, d); }});
    }
    vf::explore(o, "layout options on the command line", cmds.size(), [&](vf::Ctx& c, uint64_t u) { command(c, cmds[u]); if (u % 53 == 2) c.sample(cat(cmds[u].args, " for ", cmds[u].n, " qubits")); });
    return vf::finish(o);
}
