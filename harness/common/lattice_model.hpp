// A reference model of the lattice, independent of the implementation: what a layout text means and what a slice shows.
#pragma once
#include "runner.hpp"
#include <lsqecc/ls_instructions/ls_instructions.hpp>
#include <lsqecc/ls_instructions/ls_instruction_stream.hpp>
#include <lsqecc/patches/dense_slice.hpp>
#include <deque>
#include <map>
#include <optional>
#include <set>
#include <string>
#include <vector>

namespace vf {
using namespace lsqecc;

constexpr int DR4[4] = {-1, 1, 0, 0}, DC4[4] = {0, 0, -1, 1}; // top bottom left right

struct Tile {
    PatchType type;
    PatchActivity act;
    std::optional<PatchId> id;
    Boundary b[4];
    int body = -1; // the quantum state on the tile (not compared)
    bool active() const { return act != PatchActivity::None || b[0].is_active || b[1].is_active || b[2].is_active || b[3].is_active; }
    bool operator==(const Tile& o) const
    {
        return type == o.type && act == o.act && id == o.id && b[0] == o.b[0] && b[1] == o.b[1] && b[2] == o.b[2] && b[3] == o.b[3];
    }
};
using TGrid = std::vector<std::optional<Tile>>;

inline Tile std_tile(std::optional<PatchId> id, PatchType type = PatchType::Qubit)
{
    return Tile{type, PatchActivity::None, id,
                {{BoundaryType::Smooth, false}, {BoundaryType::Smooth, false}, {BoundaryType::Rough, false}, {BoundaryType::Rough, false}}};
}
inline Tile all_sides(PatchType t, PatchActivity a, BoundaryType b) { return Tile{t, a, std::nullopt, {{b, false}, {b, false}, {b, false}, {b, false}}}; }
inline void rotate_sides(Tile& t) { std::swap(t.b[0], t.b[2]); std::swap(t.b[1], t.b[3]); }
inline BoundaryType side_for(PauliOperator op) { return op == PauliOperator::X ? BoundaryType::Rough : BoundaryType::Smooth; }

inline const char* bname(BoundaryType b)
{
    switch (b) {
    case BoundaryType::None: return "-"; case BoundaryType::Connected: return "c"; case BoundaryType::Rough: return "r";
    case BoundaryType::Smooth: return "s"; case BoundaryType::Reserved_Label1: return "1"; case BoundaryType::Reserved_Label2: return "2";
    }
    return "?";
}
inline const char* aname(PatchActivity a)
{
    switch (a) {
    case PatchActivity::None: return ""; case PatchActivity::Measurement: return "/meas"; case PatchActivity::Unitary: return "/unitary";
    case PatchActivity::Distillation: return "/dist"; case PatchActivity::Dead: return "/dead"; case PatchActivity::MultiPatchMeasurement: return "/mpm";
    case PatchActivity::Rotation: return "/rot"; case PatchActivity::EDPC: return "/edpc"; case PatchActivity::Reserved: return "/res";
    }
    return "?";
}
inline const char* tname(PatchType t)
{
    switch (t) {
    case PatchType::Distillation: return "Dist"; case PatchType::PreparedState: return "Prep"; case PatchType::Qubit: return "Q";
    case PatchType::Routing: return "Route"; case PatchType::Dead: return "Dead";
    }
    return "?";
}
inline std::string show(const std::optional<Tile>& t)
{
    if (!t) return ".";
    std::string s = tname(t->type);
    if (t->id) s += std::to_string(*t->id);
    s += aname(t->act);
    s += "[";
    for (int d = 0; d < 4; ++d) { s += bname(t->b[d].boundary_type); if (t->b[d].is_active) s += "!"; }
    return s + "]";
}
inline std::string show(const TGrid& g, int C)
{
    std::string s;
    for (size_t i = 0; i < g.size(); ++i) { s += show(g[i]); s += i % C == size_t(C - 1) ? "\n" : "  "; }
    return s;
}

// The meaning of an ASCII layout, worked out here from the text alone.
struct LayoutModel {
    std::vector<std::string> rows;
    int R = 0, C = 0;
    std::vector<int> qcells, acells, mcells, ycells, xcells;
    std::vector<std::vector<int>> regions;   // distillation regions
    std::vector<std::vector<int>> delivery;  // routing tiles touching each region
    std::vector<uint32_t> period;
    bool reserved = false;
    std::string text;

    int step(int v, int d) const
    {
        int r = v / C + DR4[d], c = v % C + DC4[d];
        return r < 0 || c < 0 || r >= R || c >= C ? -1 : r * C + c;
    }
    int dist(int a, int b) const { return std::abs(a / C - b / C) + std::abs(a % C - b % C); }
    char at(int v) const { return rows[v / C][v % C]; }

    LayoutModel(const std::string& t, uint32_t dist_time, bool staggered) : text(t)
    {
        std::string line;
        for (char ch : t + "\n") { if (ch == '\n') { if (!line.empty()) rows.push_back(line); line.clear(); } else line += ch; }
        R = rows.size(); C = rows.empty() ? 0 : rows[0].size();
        std::vector<char> seen(R * C, 0);
        for (int v = 0; v < R * C; ++v) {
            char ch = at(v);
            if (ch == 'Q') qcells.push_back(v);
            if (ch == 'A') acells.push_back(v);
            if (ch == 'M') mcells.push_back(v);
            if (ch == 'Y') ycells.push_back(v);
            if (ch == 'X') xcells.push_back(v);
        }
        for (char dg = '0'; dg <= '9'; ++dg)
            for (int v = 0; v < R * C; ++v) {
                if (at(v) != dg || seen[v]) continue;
                std::vector<int> reg{v}; seen[v] = 1;
                for (size_t i = 0; i < reg.size(); ++i)
                    for (int d = 0; d < 4; ++d) { int w = step(reg[i], d); if (w >= 0 && at(w) == dg && !seen[w]) { seen[w] = 1; reg.push_back(w); } }
                std::set<int> del;
                for (int c : reg) for (int d = 0; d < 4; ++d) { int w = step(c, d); if (w >= 0 && at(w) == 'r') del.insert(w); }
                regions.push_back(reg);
                delivery.emplace_back(del.begin(), del.end());
                period.push_back(dist_time + (staggered ? regions.size() - 1 : 0));
            }
        reserved = !mcells.empty();
        for (size_t i = 0; i < mcells.size(); ++i) period.push_back(dist_time);
    }

    TGrid initial(const std::vector<PatchId>& ids) const
    {
        TGrid g(R * C);
        for (size_t i = 0; i < ids.size(); ++i) g.at(qcells.at(i)) = std_tile(ids[i]);
        for (int v : ycells) g[v] = std_tile(std::nullopt);
        for (auto& reg : regions)
            for (int v : reg) {
                Tile t = all_sides(PatchType::Distillation, PatchActivity::Distillation, BoundaryType::Smooth);
                for (int d = 0; d < 4; ++d) { int w = step(v, d); if (w >= 0 && std::find(reg.begin(), reg.end(), w) != reg.end()) t.b[d].boundary_type = BoundaryType::None; }
                g[v] = t;
            }
        for (int v : mcells) g[v] = all_sides(PatchType::Distillation, PatchActivity::Distillation, BoundaryType::Connected);
        for (int v : xcells) g[v] = all_sides(PatchType::Dead, PatchActivity::Dead, BoundaryType::Connected);
        return g;
    }

    int find(const TGrid& g, PatchId id) const
    {
        int f = -1;
        for (size_t i = 0; i < g.size(); ++i) if (g[i] && g[i]->id == id) f = i;
        return f;
    }

    // Is there a legal chain of free tiles joining side-type sa of tile a to side-type sb of tile b?
    bool route_exists(const TGrid& g, int a, BoundaryType sa, int b, BoundaryType sb) const
    {
        if (a != b)
            for (int d = 0; d < 4; ++d)
                if (step(a, d) == b && g[a]->b[d].boundary_type == sa && g[b]->b[d ^ 1].boundary_type == sb) return true;
        std::vector<char> seen(g.size(), 0); std::deque<int> q;
        for (int d = 0; d < 4; ++d) {
            int w = step(a, d);
            if (w >= 0 && !g[w] && g[a]->b[d].boundary_type == sa && !seen[w]) { seen[w] = 1; q.push_back(w); }
        }
        while (!q.empty()) {
            int v = q.front(); q.pop_front();
            for (int d = 0; d < 4; ++d) {
                int w = step(v, d); if (w < 0) continue;
                if (w == b && g[b]->b[d ^ 1].boundary_type == sb) return true;
                if (!g[w] && !seen[w]) { seen[w] = 1; q.push_back(w); }
            }
        }
        return false;
    }
};

inline TGrid read_slice(const DenseSlice& s)
{
    TGrid g;
    for (auto& row : s.cells)
        for (auto& p : row) {
            if (!p) { g.push_back(std::nullopt); continue; }
            g.push_back(Tile{p->type, p->activity, p->id, {p->boundaries.top, p->boundaries.bottom, p->boundaries.left, p->boundaries.right}});
        }
    return g;
}

inline uint64_t hash_grid(const TGrid& g, uint64_t h = 1469598103934665603ULL)
{
    for (auto& t : g) {
        uint64_t v = 0;
        if (t) {
            v = 1 | uint64_t(t->type) << 1 | uint64_t(t->act) << 4 | uint64_t(t->id ? *t->id + 1 : 0) << 8;
            for (int d = 0; d < 4; ++d) v ^= (uint64_t(t->b[d].boundary_type) * 2 + t->b[d].is_active) << (44 + 4 * d);
        }
        h = (h ^ v) * 1099511628211ull; h ^= h >> 31;
    }
    return h;
}

// Same operation, ignoring the bookkeeping the slicer attaches to it while it is being executed.
inline bool same_op(const LSInstruction& x, const LSInstruction& y)
{
    if (x.operation.index() != y.operation.index()) return false;
    return std::visit([&](const auto& a) -> bool {
        using T = std::decay_t<decltype(a)>;
        const T& b = std::get<T>(y.operation);
        if constexpr (std::is_same_v<T, MultiPatchMeasurement>) {
            auto i = a.observable.begin(), j = b.observable.begin();
            if (a.observable.size() != b.observable.size() || a.is_negative != b.is_negative) return false;
            for (; i != a.observable.end(); ++i, ++j) if (i->first != j->first || i->second != j->second) return false;
            return true;
        } else if constexpr (std::is_same_v<T, BellPairInit>)
            return a.side1 == b.side1 && a.side2 == b.side2 && a.loc1 == b.loc1 && a.loc2 == b.loc2;
        else if constexpr (std::is_same_v<T, YStateRequest>)
            return a.target == b.target && a.near_patch == b.near_patch;
        else if constexpr (std::is_same_v<T, BellBasedCNOT>)
            return a.control == b.control && a.target == b.target && a.side1 == b.side1 && a.side2 == b.side2;
        else
            return a == b;
    }, x.operation);
}

// The patches an instruction uses: what program order is about.
inline std::set<PatchId> patches_of(const LSInstruction& i)
{
    std::set<PatchId> s;
    std::visit([&](const auto& o) {
        using T = std::decay_t<decltype(o)>;
        if constexpr (std::is_same_v<T, MultiPatchMeasurement>) for (auto& [p, op] : o.observable) s.insert(p);
        else if constexpr (std::is_same_v<T, PatchInit>) { s.insert(o.target); if (o.place_next_to) s.insert(o.place_next_to->target); }
        else if constexpr (std::is_same_v<T, BellPairInit>) { s.insert(o.side1); s.insert(o.side2); s.insert(o.loc1.target); s.insert(o.loc2.target); }
        else if constexpr (std::is_same_v<T, MagicStateRequest> || std::is_same_v<T, YStateRequest>) { s.insert(o.target); s.insert(o.near_patch); }
        else if constexpr (std::is_same_v<T, BellBasedCNOT>) { s.insert(o.control); s.insert(o.target); s.insert(o.side1); s.insert(o.side2); }
        else if constexpr (std::is_same_v<T, BusyRegion>) { for (auto& p : o.state_after_clearing) if (p.id) s.insert(*p.id); }
        else if constexpr (std::is_same_v<T, DeclareLogicalQubitPatches>) {}
        else s.insert(o.target);
    }, i.operation);
    for (auto c : i.clients) s.insert(c);
    return s;
}

class VectorStream : public LSInstructionStream {
public:
    VectorStream(std::vector<LSInstruction> v, const std::vector<PatchId>& core) : v_(std::move(v)) { for (auto c : core) core_.insert(c); }
    LSInstruction get_next_instruction() override { return v_.at(i_++); }
    bool has_next_instruction() const override { return i_ < v_.size(); }
    const tsl::ordered_set<PatchId>& core_qubits() const override { return core_; }
private:
    std::vector<LSInstruction> v_; size_t i_ = 0; tsl::ordered_set<PatchId> core_;
};
}
