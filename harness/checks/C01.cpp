// C01: routes. Every grid up to the bound, every placement of the two patches, every occupancy of the other tiles,
// every orientation and operator pair, every search strategy; against an independent breadth-first reference.
#include "common/runner.hpp"
#include <lsqecc/layout/ascii_layout_spec.hpp>
#include <lsqecc/layout/router.hpp>
#include <lsqecc/patches/dense_slice.hpp>
#include <deque>
#include <memory>

using namespace lsqecc;
using vf::cat;

namespace {
constexpr int DR[4] = {-1, 1, 0, 0}, DC[4] = {0, 0, -1, 1}; // top bottom left right

struct Grid { int R, C; };
BoundaryType side(const CellBoundaries& b, int d) { return (d == 0 ? b.top : d == 1 ? b.bottom : d == 2 ? b.left : b.right).boundary_type; }
Boundary full(const CellBoundaries& b, int d) { return d == 0 ? b.top : d == 1 ? b.bottom : d == 2 ? b.left : b.right; }

// Which sides carry the operator: X operators are exposed on rough sides, Z operators on smooth sides.
unsigned sides_for(bool rotated, PauliOperator op)
{
    // Unrotated patches have smooth top/bottom and rough left/right.
    bool vertical = (op == PauliOperator::Z) != rotated;
    return vertical ? 0b0011u : 0b1100u;
}

// Fewest intermediate tiles of a legal route, or -1.
int reference(const Grid& g, uint64_t freemask, int s, unsigned s_sides, int t, unsigned t_sides)
{
    auto step = [&](int v, int d) -> int { int r = v / g.C + DR[d], c = v % g.C + DC[d]; return r < 0 || c < 0 || r >= g.R || c >= g.C ? -1 : r * g.C + c; };
    auto isfree = [&](int v) { return v >= 0 && (freemask >> v & 1); };
    if (s != t)
        for (int d = 0; d < 4; ++d) if ((s_sides >> d & 1) && step(s, d) == t && (t_sides >> (d ^ 1) & 1)) return 0;
    int dist[64]; for (int i = 0; i < g.R * g.C; ++i) dist[i] = -1;
    std::deque<int> q;
    for (int d = 0; d < 4; ++d) if (s_sides >> d & 1) { int v = step(s, d); if (isfree(v) && dist[v] < 0) { dist[v] = 1; q.push_back(v); } }
    while (!q.empty()) {
        int v = q.front(); q.pop_front();
        for (int d = 0; d < 4; ++d) {
            int w = step(v, d);
            if (w == t && (t_sides >> (d ^ 1) & 1)) return dist[v];
        }
        for (int d = 0; d < 4; ++d) { int w = step(v, d); if (isfree(w) && dist[w] < 0) { dist[w] = dist[v] + 1; q.push_back(w); } }
    }
    return -1;
}

std::string draw(const Grid& g, uint64_t freemask, int s, int t)
{
    std::string o;
    for (int i = 0; i < g.R * g.C; ++i) { o += i == s && i == t ? '*' : i == s ? 'S' : i == t ? 'T' : (freemask >> i & 1) ? '.' : '#'; if (i % g.C == g.C - 1 && i + 1 < g.R * g.C) o += '/'; }
    return o;
}

// Empty string when the region is a legal route.
std::string check_route(const Grid& g, uint64_t freemask, int s, unsigned s_sides, int t, unsigned t_sides, const RoutingRegion& rr)
{
    auto id = [&](const Cell& c) { return c.row < 0 || c.col < 0 || c.row >= g.R || c.col >= g.C ? -1 : c.row * g.C + c.col; };
    auto dir = [&](int a, int b) { for (int d = 0; d < 4; ++d) if (a / g.C + DR[d] == b / g.C && a % g.C + DC[d] == b % g.C) return d; return -1; };
    std::vector<int> path; std::vector<const SingleCellOccupiedByPatch*> cells;
    for (auto& c : rr.cells) { path.push_back(id(c.cell)); cells.push_back(&c); }
    uint64_t seen = 0;
    for (int v : path) {
        if (v < 0) return "route leaves the lattice";
        if (!(freemask >> v & 1)) return cat("route goes over the occupied tile ", v / g.C, ",", v % g.C);
        if (seen >> v & 1) return "route visits a tile twice";
        seen |= 1ull << v;
    }
    // From target to source, the order every consumer of a route uses.
    std::vector<int> whole; whole.push_back(t); whole.insert(whole.end(), path.begin(), path.end()); whole.push_back(s);
    for (size_t i = 0; i + 1 < whole.size(); ++i) if (dir(whole[i], whole[i + 1]) < 0) return cat("consecutive tiles ", whole[i], " and ", whole[i + 1], " of the route do not touch");
    if (!(t_sides >> dir(whole[0], whole[1]) & 1)) return "route enters the target through a boundary of the wrong type";
    if (!(s_sides >> dir(whole[whole.size() - 1], whole[whole.size() - 2]) & 1)) return "route leaves the source through a boundary of the wrong type";
    for (size_t i = 0; i < cells.size(); ++i) {
        unsigned want = 1u << dir(whole[i + 1], whole[i]) | 1u << dir(whole[i + 1], whole[i + 2]);
        for (int d = 0; d < 4; ++d) {
            Boundary b = full(*cells[i], d);
            bool joined = b.boundary_type == BoundaryType::Connected && b.is_active;
            if ((want >> d & 1) && !joined) return "a side joining two tiles of the route is not marked as joined";
            if (!(want >> d & 1) && (b.boundary_type != BoundaryType::None || b.is_active)) return "a side of the route that joins nothing is marked";
        }
    }
    return "";
}

struct Provider { const char* name; GraphSearchProvider p; bool cached; };
const Provider PROVIDERS[] = {{"dijkstra", GraphSearchProvider::Djikstra, false}, {"astar", GraphSearchProvider::AStar, false}, {"boost", GraphSearchProvider::Boost, false},
                              {"cached-dijkstra", GraphSearchProvider::Djikstra, true}};

struct Unit { Grid g; int s, t; unsigned others; unsigned lo, hi; bool all_combos; uint64_t fixed_free = 0; };

void run_unit(vf::Ctx& c, const Unit& u)
{
    const Grid g = u.g; const int n = g.R * g.C;
    std::string spec; for (int r = 0; r < g.R; ++r) spec += std::string(g.C, 'r') + "\n";
    LayoutFromSpec layout(std::string_view(spec), DistillationOptions{});
    std::vector<int> rest; for (int i = 0; i < n; ++i) if (i != u.s && i != u.t) rest.push_back(i);
    const PatchId SRC = 7, TGT = u.s == u.t ? 7 : 9;
    const Cell sc{u.s / g.C, u.s % g.C}, tc{u.t / g.C, u.t % g.C};
    DenseSlice slice(layout);
    // What occupies a blocked tile does not matter to routing: cycle through the kinds that occur.
    auto blocker = [&](int k, Cell at) {
        SparsePatch p = LayoutHelpers::basic_square_patch(at, k % 5 == 0 ? std::optional<PatchId>(100 + k) : std::nullopt);
        switch (k % 5) {
            case 1: p.type = PatchType::Dead; p.activity = PatchActivity::Dead; break;
            case 2: p.type = PatchType::Distillation; p.activity = PatchActivity::Distillation; break;
            case 3: p.type = PatchType::Routing; p.activity = PatchActivity::MultiPatchMeasurement; break;
            case 4: p.type = PatchType::PreparedState; break;
        }
        return DensePatch::from_sparse_patch(p);
    };
    std::unique_ptr<CustomDPRouter> plain[3];
    for (int i = 0; i < 3; ++i) { plain[i] = std::make_unique<CustomDPRouter>(); plain[i]->set_graph_search_provider(PROVIDERS[i].p); }
    for (unsigned m = u.lo; m < u.hi; ++m) {
        if (c.stop()) return;
        uint64_t fm = 0;
        for (size_t i = 0; i < rest.size(); ++i) {
            Cell at{rest[i] / g.C, rest[i] % g.C};
            if (u.others ? (m >> i & 1) : (u.fixed_free >> rest[i] & 1)) { fm |= 1ull << rest[i]; slice.patch_at(at) = std::nullopt; }
            else slice.patch_at(at) = blocker((int)i + (int)m, at);
        }
        for (int ori = 0; ori < (u.s == u.t ? 2 : 4); ++ori) {
            bool rs = ori & 1, rt = u.s == u.t ? rs : (ori >> 1 & 1);
            if (!u.all_combos && (rs || rt)) continue;
            auto put = [&](Cell at, PatchId id, bool rot) { auto p = DensePatch::from_sparse_patch(LayoutHelpers::basic_square_patch(at, id)); if (rot) p.boundaries.instant_rotate(); slice.patch_at(at) = p; };
            put(sc, SRC, rs); if (u.s != u.t) put(tc, TGT, rt);
            // One caching router per lattice: it answers all operator pairs of this lattice, each twice.
            CachedRouter cached; cached.set_graph_search_provider(GraphSearchProvider::Djikstra);
            for (int round = 0; round < 2; ++round) for (int ops = 0; ops < 4; ++ops) {
                if (round && n > 9) continue;
                PauliOperator so = ops & 1 ? PauliOperator::Z : PauliOperator::X, to = ops & 2 ? PauliOperator::Z : PauliOperator::X;
                if (u.s == u.t && so == to) continue; // the twist joins an X side to a Z side
                unsigned ss = sides_for(rs, so), ts = sides_for(rt, to);
                c.begin(cat("grid ", draw(g, fm, u.s, u.t), " source ", rs ? "rotated " : "", PauliOperator_to_string(so), " target ", rt ? "rotated " : "", PauliOperator_to_string(to)));
                int want = reference(g, fm, u.s, ss, u.t, ts);
                for (int k = 0; k < 4; ++k) {
                    const Router* router;
                    if (PROVIDERS[k].cached) { if (n > 9) continue; router = &cached; }
                    else if (round) continue;
                    else router = plain[k].get();
                    {
                        std::optional<RoutingRegion> got;
                        std::string err;
                        try { got = router->find_routing_ancilla(slice, SRC, so, TGT, to); }
                        catch (const std::exception& e) { err = cat("threw: ", e.what()); }
                        c.count(vf::TRACES); c.count(vf::TRANSITIONS, got ? got->cells.size() + 1 : 1);
                        if (err.empty()) {
                            if (got && want < 0) err = "returned a route although no legal route exists";
                            else if (!got && want >= 0) err = cat("found no route although a legal one over ", want, " tiles exists");
                            else if (got) {
                                err = check_route(g, fm, u.s, ss, u.t, ts, *got);
                                if (err.empty() && (int)got->cells.size() != want) err = cat("route uses ", got->cells.size(), " tiles where ", want, " suffice");
                            }
                        }
                        if (!err.empty()) {
                            std::string path; if (got) for (auto& x : got->cells) path += cat(" ", x.cell.row, ",", x.cell.col);
                            c.violation(cat(PROVIDERS[k].name, ": ", err.substr(0, 60), ": ", draw(g, fm, u.s, u.t), " ", rs, rt, ops), cat("search strategy: ", PROVIDERS[k].name, "\n", err, "\nroute (target to source):", path));
                        }
                    }
                }
                if (want > 3) c.sample(cat(draw(g, fm, u.s, u.t), " ", PauliOperator_to_string(so), PauliOperator_to_string(to), (rs ? " source rotated" : ""), (rt ? " target rotated" : ""), " shortest=", want));
            }
        }
        c.count(vf::EVALS);
        c.state((uint64_t(fm) * 0x9E3779B97F4A7C15ull << 24) ^ (uint64_t(fm) << 24) ^ (uint64_t(u.s) << 16) ^ (uint64_t(u.t) << 8) ^ (g.R * 16 + g.C));
    }
}
}

int main(int argc, char** argv)
{
    auto o = vf::parse_options("C01", argc, argv);
    o.rule = "Every grid of the listed shapes, every (source,target) placement including source==target, every occupied/free assignment of the remaining tiles, every patch orientation and "
             "X/Z operator pair, every search strategy. A state is one (grid, placement, occupancy); an execution is one routing query compared with a breadth-first reference (existence, legality, length).";
    o.assumptions = {"The caching router answers every operator pair of one lattice, each twice, and never sees a changed lattice: its header documents that it assumes paths stay clear."};
    std::vector<Grid> grids = {{1,1},{1,2},{2,1},{1,5},{5,1},{2,2},{2,3},{3,2},{2,4},{4,2},{3,3}};
    std::vector<Grid> big = o.quick() ? std::vector<Grid>{{2,5},{5,2},{3,4},{4,3},{2,6},{2,7},{3,5},{4,4}} : std::vector<Grid>{{2,5},{5,2},{3,4},{4,3},{2,6},{2,7},{3,5},{5,3},{4,4},{2,8},{3,6}};
    std::vector<Unit> units;
    auto add = [&](Grid g, bool all) {
        int n = g.R * g.C;
        for (int s = 0; s < n; ++s) for (int t = 0; t < n; ++t) {
            unsigned k = n - (s == t ? 1 : 2), tot = 1u << k, chunk = 1024;
            for (unsigned lo = 0; lo < tot; lo += chunk) units.push_back({g, s, t, k ? k : 1, lo, std::min(tot, lo + chunk), all});
        }
    };
    for (auto g : grids) add(g, true);
    vf::explore(o, "small grids", units.size(), [&](vf::Ctx& c, uint64_t u) { run_unit(c, units[u]); });
    units.clear();
    for (auto g : big) add(g, false);
    vf::explore(o, "larger grids (standard orientation)", units.size(), [&](vf::Ctx& c, uint64_t u) { run_unit(c, units[u]); });
    units.clear();
    // Long routes: serpentine, spiral, comb and open grids of up to 64 tiles, every placement.
    auto maze = [&](Grid g, auto open_tile) {
        uint64_t m = 0; for (int i = 0; i < g.R * g.C; ++i) if (open_tile(i / g.C, i % g.C)) m |= 1ull << i;
        for (int s = 0; s < g.R * g.C; ++s) for (int t = 0; t < g.R * g.C; ++t) units.push_back({g, s, t, 0, 0, 1, true, m});
    };
    for (Grid g : {Grid{1,60},{60,1},{2,31},{31,2},{8,8},{7,9},{9,7},{3,21},{4,16},{16,4}}) {
        maze(g, [&](int, int) { return true; });
        maze(g, [&](int r, int c) { return r % 2 == 0 || (r / 2 % 2 ? c == 0 : c == g.C - 1); });
        maze(g, [&](int r, int c) { return c % 2 == 0 || (c / 2 % 2 ? r == 0 : r == g.R - 1); });
        maze(g, [&](int r, int c) { return r == 0 || c % 2 == 0; });
        maze(g, [&](int r, int c) { return r % 3 != 1 || c % 3 != 1; });
        maze(g, [&](int r, int c) { int k = std::min(std::min(r, c), std::min(g.R - 1 - r, g.C - 1 - c)); return k % 2 == 0 || (r == c + 1 && r < g.R / 2); });
    }
    vf::explore(o, "mazes", units.size(), [&](vf::Ctx& c, uint64_t u) { run_unit(c, units[u]); });
    return vf::finish(o);
}
