// Reference semantics of the slicer (with and without local compilation). Every emitted slice must be reachable from the previous
// one by the instructions reported in between; free choices (which tile, which route) are resolved by search.
#pragma once
#include "lattice_model.hpp"
#include <lsqecc/patches/dense_patch_computation.hpp>
#include "stabilisers.hpp"
#include <algorithm>

namespace vf {

struct Verdict { std::set<std::string> tags; std::string key, detail; };

struct HorizonReached {};

class Monitor {
public:
    Monitor(const LayoutModel& L, const std::vector<PatchId>& core, const std::vector<LSInstruction>& program, PipelineMode mode, bool twists, bool local = false)
        : L_(L), prog_(program), mode_(mode), twists_(twists), local_(local)
    {
        st_.g = L.initial(core);
        if (local_) for (auto& t : st_.g) if (t && t->id) { t->body = st_.bodies++; refs_.push_back(1000000 + t->body); q_.add_pair(t->body, refs_.back()); want_.add_pair(t->body, refs_.back()); wbody_[*t->id] = t->body; wnext_ = st_.bodies; }
        runs_.resize(prog_.size());
        st_.timer = L.period;
        done_.assign(prog_.size(), 0);
        starve_.assign(prog_.size(), 0);
        for (auto& i : prog_) uses_.push_back(patches_of(i));
    }

    bool failed() const { return !verdicts_.empty(); }
    bool dag_short_rotation = false;
    uint64_t crossings = 0;
    const std::vector<Verdict>& verdicts() const { return verdicts_; }
    int slices() const { return t_; }
    uint64_t state_hash() const { return hash_; }
    const TGrid& last() const { return lastE_; }
    bool progress_possible() const { return progress_possible_; }

    void on_instruction(const LSInstruction& ins)
    {
        if (failed()) return;
        if (std::holds_alternative<BellPairInit>(ins.operation) || std::holds_alternative<BellBasedCNOT>(ins.operation)) return on_local(ins);
        events_.push_back(ins); evops_.emplace_back(); evidx_.push_back(-1);
        if (std::holds_alternative<BusyRegion>(ins.operation)) return;
        if (auto* q = std::get_if<SingleQubitOp>(&ins.operation))
            if (q->op == SingleQubitOp::Operator::Z) {
                auto it = zpend_.find(q->target);
                if (it != zpend_.end()) { zpend_.erase(it); return; }
            }
        size_t i = 0;
        while (i < prog_.size() && (done_[i] || !same_op(prog_[i], ins))) ++i;
        if (i == prog_.size()) { fail({"C02"}, "an instruction took effect that was not outstanding", cat("instruction: ", ins)); return; }
        for (size_t j = 0; j < i; ++j)
            if (!done_[j] && share(i, j)) { fail({"C02"}, "an instruction took effect before an earlier one on the same patch", cat("instruction: ", ins, "\nbefore: ", prog_[j])); return; }
        if (mode_ == PipelineMode::Stream)
            for (size_t j = 0; j < i; ++j) if (!done_[j]) { fail({"C02"}, "the stream pipeline executed an instruction out of program order", cat("instruction: ", ins, "\nbefore: ", prog_[j])); return; }
        for (auto p : uses_[i]) if (zpend_.count(p)) { fail({"C02"}, "an instruction did not wait for the second half of an S gate", cat("instruction: ", ins)); return; }
        done_[i] = 1;
        if (auto* q = std::get_if<SingleQubitOp>(&ins.operation)) if (q->op == SingleQubitOp::Operator::S) zpend_[q->target] = t_;
    }

    void on_slice(const DenseSlice& slice) { on_grid(read_slice(slice)); }

    void on_grid(const TGrid& E)
    {
        if (failed()) return;
        bool any = false; for (size_t k = 0; k < events_.size(); ++k) if (evidx_[k] < 0 || !evops_[k].empty()) any = true;
        idle_ = any ? 0 : idle_ + 1;
        lastE_ = E;
        hash_ = hash_grid(E);
        for (char d : done_) hash_ = hash_ * 31 + d;
        if ((int)E.size() != L_.R * L_.C) { fail({"C03", "C12"}, "the slice does not have the dimensions of the layout", ""); return; }
        best_ = SIZE_MAX; bestwhy_.clear(); besttags_.clear(); solution_.reset(); tried_ = 0;
        deliver(st_, 0, E);
        if (!solution_) {
            // which instructions of this slice, for the key
            fail(besttags_, bestwhy_, cat("slice ", t_, " before (expected start):\n", show(st_.g, L_.C), "events:", list_events(), "\nslice shown:\n", show(E, L_.C)));
            return;
        }
        st_ = *solution_; crossings += st_.crossed; st_.marked.clear(); st_.visits.clear(); st_.edges.clear(); st_.crossed = 0;
        for (auto& [q, when] : zpend_) if (when < t_) { fail({"C02"}, "the second half of an S gate is missing in the slice after the first", cat("patch ", q)); return; }
        check_identifiers(E);
        if (failed()) return;
        liveness();
        if (failed()) return;
        advance();
        if (local_) { for (auto& o : st_.log) apply(o); st_.log.clear(); }
        ++t_;
        events_.clear(); evops_.clear(); evidx_.clear();
    }

    void on_end()
    {
        if (failed()) return;
        if (!events_.empty()) {
            // instructions applied after the last visible slice
            fail({"C02", "C13"}, "instructions were executed but no slice shows them", list_events()); return;
        }
        for (size_t i = 0; i < prog_.size(); ++i)
            if (!done_[i]) { fail({"C02"}, "the run ended with an instruction not executed", cat(prog_[i])); return; }
        if (!zpend_.empty()) { fail({"C02"}, "the run ended before the second half of an S gate", ""); return; }
        for (auto& r : st_.rots) if (r.start >= 0) { fail({"C02", "C04"}, "the run ended in the middle of a rotation", ""); return; }
        if (local_) judge_effect();
    }

    // Giving up is right when nothing has happened for longer than any state takes to be distilled (that what could have been done
    // was done is checked slice by slice)
    void on_exception(const std::string& what) { uint32_t longest = 0; for (auto p : L_.period) longest = std::max(longest, p); if (idle_ > (int)longest + 2) return; if (local_ && does_not_fit(what)) return; if (!failed()) fail(edpc() ? std::set<std::string>{"C02", "C07"} : std::set<std::string>{"C02"}, cat("the run failed: ", what.substr(0, 200)), list_events()); }

private:
    int idle_ = 0;
    struct Rot { int cell, nb, start; Tile saved; };
    // What happened to the quantum states on the tiles
    struct QOp { enum K { NEW, UNKNOWN, MEASURE, H, S, JOINT, PAIR, BELL, EXTEND, CONTRACT } k; int a = -1, b = -1; char p = 'Z', q = 'Z'; };
    // A local compilation under way
    struct Run { bool started = false; std::vector<std::vector<LocalInstruction::LocalLSInstruction>> sets; std::vector<unsigned> at; std::vector<int> route; int begun = -1; std::map<int, std::pair<int, int>> used; };
    struct Ref {
        TGrid g;
        std::vector<uint32_t> timer;
        std::vector<int> due;
        std::vector<Rot> rots;
        bool shortrot = false;
        int bodies = 0;
        std::vector<QOp> log;
        std::set<size_t> marked; std::map<int, int> visits; std::set<std::pair<int, int>> edges; int crossed = 0; // the paths found in this slice
    };

    const LayoutModel& L_;
    std::vector<LSInstruction> prog_;
    PipelineMode mode_;
    bool twists_, local_;
    Ref st_;
    std::vector<Run> runs_; std::vector<std::vector<LocalInstruction::LocalLSInstruction>> evops_; std::vector<int> evidx_;
    Stabilisers q_, want_; std::vector<int> refs_; std::map<PatchId, int> wbody_; int wnext_ = 0;
    int t_ = 0;
    std::vector<char> done_;
    std::vector<int> starve_;
    std::vector<std::set<PatchId>> uses_;
    std::vector<LSInstruction> events_;
    std::map<PatchId, int> zpend_;
    std::vector<Verdict> verdicts_;
    TGrid lastE_;
    uint64_t hash_ = 0;
    bool progress_possible_ = true;

    size_t best_; std::string bestwhy_; std::set<std::string> besttags_;
    std::optional<Ref> solution_;
    size_t tried_ = 0;

    bool share(size_t i, size_t j) const { for (auto p : uses_[i]) if (uses_[j].count(p)) return true; return false; }
    std::string list_events() const { std::string s; for (auto& e : events_) s += cat(" ", e, ";"); return s; }
    void fail(std::set<std::string> tags, const std::string& why, const std::string& detail)
    {
        verdicts_.push_back({std::move(tags), why, cat(why, "\n", detail)});
    }

    // A dead end of the search; the closest one is reported.
    void dead(size_t score, std::set<std::string> tags, const std::string& why)
    {
        if (score < best_ || bestwhy_.empty()) { best_ = score; bestwhy_ = why; besttags_ = std::move(tags); }
    }

    // 1. distilled states arrive
    void deliver(const Ref& r, size_t k, const TGrid& E)
    {
        if (solution_) return;
        if (k == r.due.size()) { Ref n = r; n.due.clear(); restore(n, 0, E); return; }
        bool any = false, tried = false;
        for (int c : L_.delivery[r.due[k]]) {
            if (r.g[c]) continue;
            any = true;
            if (!E[c]) continue;
            if (E[c]->type == PatchType::Routing && E[c]->act != PatchActivity::Rotation) continue;
            tried = true;
            Ref n = r; n.g[c] = std_tile(std::nullopt, PatchType::PreparedState);
            deliver(n, k + 1, E);
        }
        if (!any) deliver(r, k + 1, E);
        else if (!tried) dead(1000, {"C05"}, "a distillation region is due to deliver a magic state but none appears");
    }

    // 2. rotations that have run their course
    void restore(const Ref& r, size_t k, const TGrid& E)
    {
        if (solution_) return;
        while (k < r.rots.size() && r.rots[k].start < 0) ++k;
        if (k == r.rots.size()) { Ref n = r; std::erase_if(n.rots, [](const Rot& x) { return x.start < 0; }); std::string why; if (!mark_routes(n, why)) return dead(2000, {"C07"}, why); step(n, 0, E); return; }
        int age = t_ - r.rots[k].start;
        if (age >= 3 || (age == 2 && mode_ == PipelineMode::Dag)) {
            Ref n = r; Rot& x = n.rots[k];
            n.g[x.cell] = x.saved; n.g[x.nb] = std::nullopt; x.start = -1;
            if (age < 3) n.shortrot = true;
            restore(n, k + 1, E);
        }
        if (age < 3) restore(r, k + 1, E);
    }

    // 3. the instructions reported, in order
    void step(const Ref& r, size_t i, const TGrid& E)
    {
        if (solution_ || ++tried_ > 200000) return;
        while (i < events_.size() && std::holds_alternative<BusyRegion>(events_[i].operation)) ++i;
        if (i == events_.size()) { compare(r, E); return; }
        const size_t sc = 100 + (events_.size() - i);
        auto next = [&](Ref&& n) { std::string why; if (!mark_routes(n, why, i + 1 == events_.size())) return dead(2000, {"C07"}, why); step(n, i + 1, E); };
        auto bad = [&](std::set<std::string> tags, const std::string& why) { dead(sc, std::move(tags), cat(why, " (", kind(events_[i]), ")")); };
        std::visit([&](const auto& o) {
            using T = std::decay_t<decltype(o)>;
            if constexpr (std::is_same_v<T, SinglePatchMeasurement>) {
                int c = L_.find(r.g, o.target);
                if (c < 0) return bad({"C02", "C04"}, "a patch that is not on the lattice was measured");
                Ref n = r; n.g[c]->act = PatchActivity::Measurement; note(n, {QOp::MEASURE, r.g[c]->body, -1, letter(o.observable)}); next(std::move(n));
            } else if constexpr (std::is_same_v<T, SingleQubitOp>) {
                int c = L_.find(r.g, o.target);
                if (c < 0) return bad({"C02", "C04"}, "an operation acted on a patch that is not on the lattice");
                if (r.g[c]->active()) return bad({"C03"}, "an operation acted on a patch that is busy in the same slice");
                if (o.op == SingleQubitOp::Operator::S) return merge(r, c, PauliOperator::X, c, PauliOperator::Z, E, [&](Ref&& n) { note(n, {QOp::S, r.g[c]->body}); next(std::move(n)); }, bad);
                Ref n = r;
                if (o.op == SingleQubitOp::Operator::H) { n.g[c]->act = PatchActivity::Unitary; rotate_sides(*n.g[c]); note(n, {QOp::H, r.g[c]->body}); }
                next(std::move(n));
            } else if constexpr (std::is_same_v<T, MultiPatchMeasurement>) {
                auto p = o.observable.begin(); auto q = p; ++q;
                int a = L_.find(r.g, p->first), b = L_.find(r.g, q->first);
                if (a < 0 || b < 0) return bad({"C02", "C04"}, "a patch that is not on the lattice was merged");
                if (r.g[a]->active() || r.g[b]->active()) return bad({"C03"}, "a patch that is busy in the same slice was merged");
                auto joined = [&](Ref&& n) { note(n, {QOp::JOINT, r.g[a]->body, r.g[b]->body, letter(p->second), letter(q->second)}); next(std::move(n)); };
                if (!local_) return merge(r, a, p->second, b, q->second, E, joined, bad);
                for (int d = 0; d < 4; ++d) if (L_.step(a, d) == b) {
                    if (r.g[a]->b[d].boundary_type != side_for(p->second) || r.g[b]->b[d ^ 1].boundary_type != side_for(q->second)) return bad({"C06", "C03"}, "a local joint measurement is done through sides of another type");
                    Ref n = r; n.g[a]->b[d].is_active = n.g[b]->b[d ^ 1].is_active = true; return joined(std::move(n)); }
                bad({"C06", "C03"}, "a local joint measurement joins patches that are not adjacent");
            } else if constexpr (std::is_same_v<T, PatchInit>) {
                std::vector<int> cand;
                if (o.place_next_to) {
                    int c = L_.find(r.g, o.place_next_to->target);
                    if (c < 0) return bad({"C02", "C04"}, "a patch was placed next to one that is not on the lattice");
                    for (int d = 0; d < 4; ++d) { int w = L_.step(c, d); if (w >= 0 && !r.g[w] && r.g[c]->b[d].boundary_type == side_for(o.place_next_to->op)) cand.push_back(w); }
                } else
                    for (int c : L_.acells) if (!r.g[c]) cand.push_back(c);
                if (cand.empty()) return bad({"C04"}, "a patch was initialised though no suitable tile is free");
                bool any = false;
                for (int c : cand) {
                    if (!shows(E, c, o.target, i)) continue;
                    any = true; Ref n = r; n.g[c] = std_tile(o.target); born(n, c, o.state == PatchInit::InitializeableStates::Plus ? 'X' : 'Z'); next(std::move(n));
                }
                if (!any) bad({"C04"}, "an initialised patch is not on any tile it may be placed on");
            } else if constexpr (std::is_same_v<T, MagicStateRequest>) {
                int c = L_.find(r.g, o.near_patch);
                std::vector<int> cand; int bestd = 1 << 30;
                for (size_t v = 0; v < r.g.size(); ++v) if (r.g[v] && r.g[v]->type == PatchType::PreparedState) cand.push_back(v);
                if (cand.empty()) return bad({"C05"}, "a magic state was handed out though none is available");
                if (c < 0) return bad({"C02"}, "the patch a magic state should be near to is not on the lattice");
                for (int v : cand) bestd = std::min(bestd, L_.dist(v, c));
                bool any = false;
                for (int v : cand) {
                    if (L_.dist(v, c) != bestd || !shows(E, v, o.target, i)) continue;
                    any = true; Ref n = r; n.g[v]->type = PatchType::Qubit; n.g[v]->id = o.target; n.g[v]->act = PatchActivity::None; if (local_) { n.g[v]->body = n.bodies++; n.log.push_back({QOp::UNKNOWN, n.g[v]->body, int(2000000 + o.target)}); } next(std::move(n));
                }
                if (!any) bad({"C05"}, "the requested magic state is not the nearest available one");
            } else if constexpr (std::is_same_v<T, YStateRequest>) {
                int t = L_.find(r.g, o.target);
                if (t >= 0) { Ref n = r; n.g[t]->id = std::nullopt; return next(std::move(n)); }
                int c = L_.find(r.g, o.near_patch);
                if (c < 0) return bad({"C02"}, "the patch a Y state should be near to is not on the lattice");
                std::vector<int> un, cand; int bestd = 1 << 30;
                for (int v : L_.ycells) if (r.g[v] && r.g[v]->type == PatchType::Qubit && !r.g[v]->id) { un.push_back(v); if (!r.g[v]->active()) cand.push_back(v); }
                if (!un.empty() && !(local_ && twists_)) {
                    for (int v : cand) bestd = std::min(bestd, L_.dist(v, c));
                    bool any = false;
                    for (int v : cand) {
                        if (L_.dist(v, c) != bestd || !shows(E, v, o.target, i)) continue;
                        any = true; Ref n = r; n.g[v]->id = o.target; if (n.g[v]->body < 0) born(n, v, 'Y'); next(std::move(n));
                    }
                    if (!any) bad({"C05"}, "the requested Y state is not the nearest available one");
                    return;
                }
                if (!twists_) return bad({"C05"}, "a Y state was handed out though none is available");
                bool any = false;
                for (int d = 0; d < 4; ++d) {
                    int w = L_.step(c, d);
                    if (w < 0 || r.g[w] || r.g[c]->b[d].boundary_type != BoundaryType::Smooth || !shows(E, w, o.target, i)) continue;
                    any = true; Ref n = r; n.g[w] = std_tile(o.target); n.g[w]->act = PatchActivity::Unitary; born(n, w, 'Y'); next(std::move(n));
                }
                if (!any) bad({"C05", "C04"}, "a prepared Y state is not beside the requested patch");
            } else if constexpr (std::is_same_v<T, RotateSingleCellPatch>) {
                int c = L_.find(r.g, o.target);
                if (c < 0) return bad({"C02", "C04"}, "a patch that is not on the lattice was rotated");
                if (r.g[c]->act != PatchActivity::Unitary && r.g[c]->active()) return bad({"C03", "C04"}, "a patch that is busy in the same slice was rotated");
                bool any = false, room = false;
                for (int d = 0; d < 4; ++d) {
                    int w = L_.step(c, d);
                    if (w < 0 || r.g[w]) continue;
                    room = true;
                    if (!E[w] || E[w]->act != PatchActivity::Rotation) continue;
                    any = true;
                    Ref n = r;
                    Rot x{c, w, t_, *r.g[c]}; if (x.saved.act == PatchActivity::Unitary) x.saved.act = PatchActivity::None;
                    rotate_sides(x.saved);
                    n.g[c] = all_sides(PatchType::Routing, PatchActivity::Rotation, BoundaryType::None);
                    n.g[w] = n.g[c];
                    n.g[c]->b[d] = {BoundaryType::Connected, true};
                    n.g[w]->b[d ^ 1] = {BoundaryType::Connected, true};
                    n.rots.push_back(x);
                    next(std::move(n));
                }
                if (!any) bad({"C04", "C03"}, room ? "a rotation does not show on the patch and a free neighbour" : "a patch with no free neighbour was rotated");
            } else if constexpr (std::is_same_v<T, BellPairInit> || std::is_same_v<T, BellBasedCNOT>) {
                Ref n = r; std::string why;
                for (auto& op : evops_[i]) if (!local_op(n, op, why)) return bad({"C06", "C07"}, cat(why, ": ", op));
                next(std::move(n));
            } else if constexpr (std::is_same_v<T, PatchReset>) {
                Ref n = r; next(std::move(n));
            } else
                bad({"C02"}, "instruction outside the model");
        }, events_[i].operation);
    }

    // Does the tile shown at v carry the identifier an event of this slice gave it (or a later event of the slice hide it)?
    bool shows(const TGrid& E, size_t v, PatchId id, size_t i) const
    {
        if (!E[v]) return false;
        if (E[v]->id == id || E[v]->act == PatchActivity::Rotation) return true;
        for (size_t k = i + 1; k < events_.size(); ++k)
            if (auto* y = std::get_if<YStateRequest>(&events_[k].operation)) if (y->target == id) return true;
        return false;
    }

    static std::string kind(const LSInstruction& i) { std::string s = cat(i); return s.substr(0, s.find(' ')); }

    template<class N, class B>
    void merge(const Ref& r, int a, PauliOperator opa, int b, PauliOperator opb, const TGrid& E, const N& next, const B& bad)
    {
        bool any = false; std::string why = "a joint measurement leaves no joined boundary of the requested type on its first patch";
        for (int d = 0; d < 4; ++d) {
            if (r.g[a]->b[d].boundary_type != side_for(opa) || !E[a] || !E[a]->b[d].is_active) continue;
            Ref n = r;
            n.g[a]->b[d].is_active = true;
            int prev = a, v = L_.step(a, d), in = d;
            bool ok = false;
            for (int guard = 0; guard < 4096; ++guard) {
                if (v < 0) { why = "a joined boundary points off the lattice"; break; }
                if (v == b && !(a == b && prev == a)) {
                    if (r.g[b]->b[in ^ 1].boundary_type != side_for(opb)) { why = "a joint measurement enters its second patch through a boundary of the wrong type"; break; }
                    n.g[b]->b[in ^ 1].is_active = true; ok = true; break;
                }
                if (n.g[v]) { why = "a joint measurement runs over a tile that is in use"; break; }
                if (!E[v] || E[v]->type != PatchType::Routing || E[v]->act != PatchActivity::MultiPatchMeasurement) { why = "the chain of a joint measurement is broken"; break; }
                int out = -1, cnt = 0;
                for (int k = 0; k < 4; ++k) if (E[v]->b[k].is_active && E[v]->b[k].boundary_type == BoundaryType::Connected && k != (in ^ 1)) { out = k; ++cnt; }
                if (cnt != 1) { why = "the chain of a joint measurement ends or branches"; break; }
                Tile t = all_sides(PatchType::Routing, PatchActivity::MultiPatchMeasurement, BoundaryType::None);
                t.b[in ^ 1] = t.b[out] = {BoundaryType::Connected, true};
                n.g[v] = t;
                prev = v; v = L_.step(v, out); in = out;
            }
            if (ok) { any = true; next(std::move(n)); }
        }
        if (!any) bad({"C03"}, why);
    }

    // 4. nothing else may differ
    void compare(const Ref& r, const TGrid& E)
    {
        size_t diff = 0; std::set<std::string> tags; std::string first;
        for (size_t v = 0; v < E.size(); ++v) {
            const auto &x = r.g[v], &y = E[v];
            if (x == y || (edpc() && same_reserved(x, y))) continue;
            if (!diff) first = cat("tile (", v / L_.C, ",", v % L_.C, ") should be ", show(x), " but is ", show(y));
            ++diff;
            classify(x, y, tags);
        }
        if (!diff) { solution_ = r; return; }
        dead(diff, tags, first);
    }

    static bool source_like(const std::optional<Tile>& t)
    {
        return t && (t->type == PatchType::PreparedState || t->type == PatchType::Distillation || (t->type == PatchType::Qubit && !t->id));
    }
    static void classify(const std::optional<Tile>& x, const std::optional<Tile>& y, std::set<std::string>& tags)
    {
        if (source_like(x) || source_like(y)) tags.insert("C05");
        if ((x && x->id) || (y && y->id)) tags.insert("C04");
        if ((x && x->act == PatchActivity::Rotation) || (y && y->act == PatchActivity::Rotation)) { tags.insert("C04"); tags.insert("C03"); }
        if (!x || !y) { if (y) tags.insert("C03"); else if (x->type == PatchType::Routing || x->type == PatchType::Dead) tags.insert("C03"); return; }
        if (x->type == PatchType::Routing || y->type == PatchType::Routing || x->type == PatchType::Dead || y->type == PatchType::Dead) tags.insert("C03");
        if (x->act != y->act) tags.insert("C03");
        for (int d = 0; d < 4; ++d) if (x->b[d].is_active != y->b[d].is_active) tags.insert("C03");
        if (tags.empty()) tags.insert("C03");
    }

    void check_identifiers(const TGrid& E)
    {
        std::set<PatchId> ids;
        for (auto& t : E) if (t && t->id && !ids.insert(*t->id).second) { fail({"C04"}, "an identifier is on two tiles", show(E, L_.C)); return; }
    }

    bool applicable(size_t i) const
    {
        const TGrid& g = st_.g;
        auto idle = [&](PatchId p) { int c = L_.find(g, p); return c >= 0 && !g[c]->active() ? c : -1; };
        const auto& op = prog_[i].operation;
        if (auto* o = std::get_if<SinglePatchMeasurement>(&op)) return L_.find(g, o->target) >= 0;
        if (auto* o = std::get_if<SingleQubitOp>(&op)) {
            int c = idle(o->target); if (c < 0) return false;
            return o->op != SingleQubitOp::Operator::S || L_.route_exists(g, c, BoundaryType::Rough, c, BoundaryType::Smooth);
        }
        if (auto* o = std::get_if<MultiPatchMeasurement>(&op)) {
            auto p = o->observable.begin(); auto q = p; ++q;
            int a = idle(p->first), b = idle(q->first);
            if (local_) { for (int d = 0; d < 4; ++d) if (a >= 0 && b >= 0 && L_.step(a, d) == b && g[a]->b[d].boundary_type == side_for(p->second) && g[b]->b[d ^ 1].boundary_type == side_for(q->second)) return true; return false; }
            return a >= 0 && b >= 0 && L_.route_exists(g, a, side_for(p->second), b, side_for(q->second));
        }
        if (auto* o = std::get_if<BellPairInit>(&op)) {
            int a = L_.find(g, o->loc1.target), b = L_.find(g, o->loc2.target); if (a < 0 || b < 0 || L_.find(g, o->side1) >= 0 || L_.find(g, o->side2) >= 0) return false;
            return route_length(g, a, side_for(o->loc1.op), b, side_for(o->loc2.op)) >= 2;
        }
        if (auto* o = std::get_if<BellBasedCNOT>(&op)) { int a = idle(o->control), b = idle(o->target); return a >= 0 && b >= 0 && route_length(g, a, BoundaryType::Smooth, b, BoundaryType::Rough) >= 2; }
        if (auto* o = std::get_if<PatchInit>(&op)) {
            if (!o->place_next_to) { for (int c : L_.acells) if (!g[c]) return true; return false; }
            int c = L_.find(g, o->place_next_to->target); if (c < 0) return false;
            for (int d = 0; d < 4; ++d) { int w = L_.step(c, d); if (w >= 0 && !g[w] && g[c]->b[d].boundary_type == side_for(o->place_next_to->op)) return true; }
            return false;
        }
        if (auto* o = std::get_if<MagicStateRequest>(&op)) {
            if (L_.find(g, o->near_patch) < 0) return false;
            for (auto& t : g) if (t && t->type == PatchType::PreparedState) return true;
            return false;
        }
        if (auto* o = std::get_if<YStateRequest>(&op)) {
            if (L_.find(g, o->target) >= 0) return true;
            if (L_.find(g, o->near_patch) < 0) return false;
            bool unbound = false;
            for (int v : L_.ycells) if (!(local_ && twists_) && g[v] && g[v]->type == PatchType::Qubit && !g[v]->id) { unbound = true; if (!g[v]->active()) return true; }
            if (twists_ && !unbound) {
                int c = L_.find(g, o->near_patch);
                for (int d = 0; d < 4; ++d) { int w = L_.step(c, d); if (w >= 0 && !g[w] && g[c]->b[d].boundary_type == BoundaryType::Smooth) return true; }
            }
            return false;
        }
        if (auto* o = std::get_if<RotateSingleCellPatch>(&op)) {
            int c = idle(o->target); if (c < 0) return false;
            for (int d = 0; d < 4; ++d) { int w = L_.step(c, d); if (w >= 0 && !g[w]) return true; }
            return false;
        }
        return true;
    }

    void liveness()
    {
        progress_possible_ = !st_.rots.empty() || !zpend_.empty() || !L_.period.empty();
        bool first = true;
        for (size_t i = 0; i < prog_.size(); ++i) {
            if (done_[i]) { starve_[i] = 0; continue; }
            if (runs_[i].started) { under_way(i); if (failed()) return; progress_possible_ = true; if (mode_ == PipelineMode::Stream) first = false; continue; }
            bool ready = true;
            for (size_t j = 0; j < i && ready; ++j) if (!done_[j] && share(i, j)) ready = false;
            if (mode_ == PipelineMode::Stream) { if (!first || !zpend_.empty() || !st_.rots.empty()) ready = false; first = false; }
            for (auto p : uses_[i]) if (zpend_.count(p)) ready = false;
            if (ready && applicable(i)) {
                progress_possible_ = true;
                if (++starve_[i] >= 4) { fail({"C02"}, cat("an instruction that could be executed is not executed (", kind(prog_[i]), ")"), cat(prog_[i], "\n", show(st_.g, L_.C))); return; }
            } else starve_[i] = 0;
        }
    }

    void advance()
    {
        if (st_.shortrot) dag_short_rotation = true;
        for (auto& t : st_.g) {
            if (!t) continue;
            if (t->act == PatchActivity::Unitary) t->act = PatchActivity::None;
            if (t->act == PatchActivity::EDPC) t->act = PatchActivity::Reserved;
            if (t->act != PatchActivity::Rotation) for (auto& b : t->b) b.is_active = false;
            if (t->act == PatchActivity::MultiPatchMeasurement || t->act == PatchActivity::Measurement) t.reset();
        }
        if (L_.reserved) {
            for (size_t k = 0; k < L_.mcells.size(); ++k) {
                auto& t = st_.g[L_.mcells[k]];
                if (!t) { t = all_sides(PatchType::Distillation, PatchActivity::Distillation, BoundaryType::Connected); st_.timer[k] = L_.period[k]; }
                else if (t->type == PatchType::Distillation) {
                    if (--st_.timer[k] == 0) t = std_tile(std::nullopt, PatchType::PreparedState);
                }
            }
        } else
            for (size_t k = 0; k < L_.regions.size(); ++k)
                if (--st_.timer[k] == 0) { st_.due.push_back(k); st_.timer[k] = L_.period[k]; }
    }

    // ---- local compilation
    bool edpc() const { return mode_ == PipelineMode::EDPC; }
    static char letter(PauliOperator p) { return p == PauliOperator::X ? 'X' : p == PauliOperator::Y ? 'Y' : 'Z'; }
    void note(Ref& n, QOp o) const { if (local_) n.log.push_back(o); }
    void born(Ref& n, int c, char p) const { if (local_) { n.g[c]->body = n.bodies++; n.log.push_back({QOp::NEW, n.g[c]->body, -1, p}); } }
    void apply(const QOp& o)
    {
        char other = o.p == 'Z' ? 'X' : 'Z';
        switch (o.k) {
        case QOp::NEW: q_.add(o.a, o.p); break;
        case QOp::UNKNOWN: q_.add_pair(o.a, o.b); break;
        case QOp::MEASURE: q_.destroy(o.a, o.p); break;
        case QOp::H: q_.h(o.a); break;
        case QOp::S: q_.s(o.a); break;
        case QOp::JOINT: q_.measure(o.a, o.p, o.b, o.q); break;
        case QOp::PAIR: q_.add_pair(o.a, o.b); break;
        case QOp::BELL: q_.measure(o.a, 'X', o.b, 'X'); q_.measure(o.a, 'Z', o.b, 'Z'); q_.destroy(o.a, 'X'); q_.destroy(o.b, 'X'); break;
        case QOp::EXTEND: q_.add(o.b, other); q_.measure(o.a, o.p, o.b, o.p); break;
        case QOp::CONTRACT: q_.measure(o.a, o.p, o.b, o.p); q_.destroy(o.b, other); break;
        }
    }
    int at(const Cell& c) const { return c.row < 0 || c.col < 0 || c.row >= L_.R || c.col >= L_.C ? -1 : int(c.row) * L_.C + int(c.col); }
    int direction(int a, int b) const { for (int d = 0; d < 4; ++d) if (a >= 0 && b >= 0 && L_.step(a, d) == b) return d; return -1; }
    bool open(const TGrid& g, int c) const { return !g[c] || (edpc() && (g[c]->act == PatchActivity::EDPC || g[c]->act == PatchActivity::Reserved)); }
    static std::vector<Cell> cells_of(const LocalInstruction::LocalLSInstruction& op)
    {
        using namespace LocalInstruction;
        return std::visit([](const auto& o) -> std::vector<Cell> {
            using T = std::decay_t<decltype(o)>;
            if constexpr (std::is_same_v<T, PrepareY>) return {o.target_cell};
            else if constexpr (std::is_same_v<T, ExtendSplit>) return {o.target_cell, o.extension_cell};
            else if constexpr (std::is_same_v<T, MergeContract>) return {o.preserved_cell, o.measured_cell};
            else if constexpr (std::is_same_v<T, Move>) return {o.source_cell, o.target_cell};
            else return {o.cell1, o.cell2};
        }, op.operation);
    }
    bool local_op(Ref& n, const LocalInstruction::LocalLSInstruction& op, std::string& why) const
    {
        using namespace LocalInstruction;
        auto cs = cells_of(op); if (cs.size() != 2) { why = "an operation that is not one between two tiles"; return false; }
        int a = at(cs[0]), b = at(cs[1]), d = direction(a, b); if (d < 0) { why = "a local operation acts on tiles that are not adjacent"; return false; }
        auto present = [&](int c) { if (!n.g[c] || n.g[c]->type != PatchType::Qubit) { why = "a local operation uses a tile that was not prepared"; return false; } if (n.g[c]->active()) { why = "a tile is used by two operations in one slice"; return false; } return true; };
        auto vacant = [&](int c) { if (open(n.g, c)) return true; why = "a local operation prepares a tile that is in use"; return false; };
        auto join = [&] { n.g[a]->b[d].is_active = true; n.g[b]->b[d ^ 1].is_active = true; };
        auto type = [&](int c, int side) { auto t = n.g[c]->b[side].boundary_type; return t == BoundaryType::Smooth ? 'Z' : t == BoundaryType::Rough ? 'X' : '?'; };
        return std::visit([&](const auto& o) -> bool {
            using T = std::decay_t<decltype(o)>;
            if constexpr (std::is_same_v<T, BellPrepare>) {
                if (!vacant(a) || !vacant(b)) return false;
                n.g[a] = std_tile(o.side1); n.g[b] = std_tile(o.side2); n.g[a]->body = n.bodies++; n.g[b]->body = n.bodies++; join(); n.log.push_back({QOp::PAIR, n.g[a]->body, n.g[b]->body}); return true;
            } else if constexpr (std::is_same_v<T, BellMeasure>) {
                if (!present(a) || !present(b)) return false;
                join(); n.g[a]->act = n.g[b]->act = PatchActivity::Measurement; n.log.push_back({QOp::BELL, n.g[a]->body, n.g[b]->body}); return true;
            } else if constexpr (std::is_same_v<T, Move>) {
                if (!present(a) || !vacant(b)) return false;
                n.g[b] = std_tile(o.new_id_for_target ? o.new_id_for_target : n.g[a]->id); n.g[b]->body = n.g[a]->body; n.g[a]->body = -1; n.g[a]->id = std::nullopt; n.g[a]->act = PatchActivity::Measurement; join(); return true;
            } else if constexpr (std::is_same_v<T, ExtendSplit>) {
                if (!present(a) || !vacant(b)) return false;
                char p = type(a, d); if (p == '?') { why = "a patch is extended through a side that is neither rough nor smooth"; return false; }
                n.g[b] = std_tile(o.extension_id); n.g[b]->body = n.bodies++; join(); n.log.push_back({QOp::EXTEND, n.g[a]->body, n.g[b]->body, p}); return true;
            } else if constexpr (std::is_same_v<T, MergeContract>) {
                if (!present(a) || !present(b)) return false;
                char p = type(a, d); if (p == '?') { why = "a patch is merged through a side that is neither rough nor smooth"; return false; }
                join(); n.g[b]->act = PatchActivity::Measurement; n.log.push_back({QOp::CONTRACT, n.g[a]->body, n.g[b]->body, p}); return true;
            } else { why = "an unexpected local operation"; return false; }
        }, op.operation);
    }

    void on_local(const LSInstruction& ins)
    {
        size_t i = 0; while (i < prog_.size() && (done_[i] || !same_op(prog_[i], ins))) ++i;
        if (i == prog_.size()) return fail({"C02", "C06", "C07"}, "an instruction took effect that was not outstanding", cat("instruction: ", ins));
        Run& r = runs_[i]; std::vector<std::vector<LocalInstruction::LocalLSInstruction>> sets; std::vector<std::pair<unsigned, unsigned>> range; std::vector<int> route;
        if (auto* b = std::get_if<BellPairInit>(&ins.operation)) { if (b->local_instructions) sets = {*b->local_instructions}; if (b->counter) range = {*b->counter}; }
        else { auto& c = std::get<BellBasedCNOT>(ins.operation); if (c.local_instruction_sets) sets = *c.local_instruction_sets; if (c.counter_pairs) range = *c.counter_pairs; if (c.route) for (auto& x : c.route->cells) route.push_back(at(x.cell)); }
        if (sets.empty() || sets.size() != range.size()) return fail({"C06", "C07"}, "an instruction was not compiled into local operations", cat("instruction: ", ins));
        if (!r.started) {
            for (size_t j = 0; j < i; ++j) if (!done_[j] && (share(i, j) || mode_ == PipelineMode::Stream)) return fail({"C02", "C06", "C07"}, "an instruction started before an earlier one on the same patch was finished", cat("instruction: ", ins, "\nbefore: ", prog_[j]));
            for (auto p : uses_[i]) if (zpend_.count(p)) return fail({"C02"}, "an instruction did not wait for the second half of an S gate", cat("instruction: ", ins));
            r.started = true; r.sets = sets; r.at.assign(sets.size(), 0); r.begun = t_; r.route = route;
        } else if (r.sets != sets) return fail({"C06", "C07"}, "the compilation of an instruction changed while it was carried out", cat("instruction: ", ins));
        std::vector<LocalInstruction::LocalLSInstruction> ops; bool whole = true;
        for (size_t k = 0; k < sets.size(); ++k) {
            if (range[k].second > sets[k].size() || (range[k].first != r.at[k] && range[k].first != range[k].second) || range[k].second < r.at[k]) return fail({"C06", "C07"}, "a local operation is executed again or left out", cat("instruction: ", ins));
            if (range[k].second > r.at[k] && !whole) return fail({"C06", "C07"}, "a phase is started before the one before it is finished", cat("instruction: ", ins));
            for (unsigned x = r.at[k]; x < range[k].second; ++x) { ops.push_back(sets[k][x]); for (auto& c : cells_of(sets[k][x])) { auto [it, fresh] = r.used.try_emplace(at(c), t_, t_); it->second.second = t_; } }
            r.at[k] = range[k].second; if (r.at[k] < sets[k].size()) whole = false;
        }
        events_.push_back(ins); evops_.push_back(ops); evidx_.push_back(i); if (!ops.empty() || r.begun == t_) moved_[i] = t_, possible_[i] = 0;
        if (!whole) return;
        done_[i] = 1;
        for (size_t j = 0; j < runs_.size(); ++j) { // where two paths cross, one comes entirely before the other
            if (j == i || !done_[j] || runs_[j].begun != r.begun || !edpc()) continue;
            for (size_t k = 1; k + 1 < r.route.size(); ++k) { auto x = r.used.find(r.route[k]), y = runs_[j].used.find(r.route[k]); if (x != r.used.end() && y != runs_[j].used.end() && x->second.first <= y->second.second && y->second.first <= x->second.second) return fail({"C07"}, "two paths use the tile they cross on at the same time", cat(prog_[i], "\n", prog_[j])); }
        }
    }
    std::map<size_t, int> moved_, possible_;

    // The paths found in this slice: no edge is shared, at most two meet on a tile
    bool mark_routes(Ref& n, std::string& why, bool all = false) const
    {
        if (!edpc()) return true;
        auto& visits = n.visits; auto& edges = n.edges;
        for (size_t k = 0; k < events_.size(); ++k) {
            if (evidx_[k] < 0 || runs_[evidx_[k]].begun != t_) continue;
            auto* p = std::get_if<BellBasedCNOT>(&events_[k].operation); if (!p) continue; auto& o = *p; if (n.marked.count(evidx_[k])) continue; auto& rt = runs_[evidx_[k]].route; int c = L_.find(n.g, o.control), t = L_.find(n.g, o.target);
            if ((c < 0 || t < 0) && !all) continue;
            n.marked.insert(evidx_[k]);
            if (rt.size() < 4 || rt.front() != t || rt.back() != c || c < 0 || t < 0) { why = "a path does not run from the target to the control"; return false; }
            for (size_t x = 0; x + 1 < rt.size(); ++x) { int d = direction(rt[x], rt[x + 1]); if (d < 0) { why = "a path is not connected"; return false; } if (!edges.insert({std::min(rt[x], rt[x + 1]), std::max(rt[x], rt[x + 1])}).second) { why = "two paths share an edge"; return false; } }
            for (size_t x = 1; x + 1 < rt.size(); ++x) {
                int v = rt[x]; if (++visits[v] > 2) { why = "more than two paths meet on a tile"; return false; }
                if (visits[v] == 2) ++n.crossed;
                if (visits[v] == 1 && n.g[v]) { why = "a path runs over a tile that is in use"; return false; }
                if (visits[v] == 1) n.g[v] = all_sides(PatchType::Routing, PatchActivity::EDPC, BoundaryType::None);
                for (int w : {rt[x - 1], rt[x + 1]}) n.g[v]->b[direction(v, w)].boundary_type = BoundaryType::Reserved_Label1;
            }
        }
        return true;
    }
    // Tiles waiting for their turn: which of the two labels they show is free
    static bool same_reserved(const std::optional<Tile>& x, const std::optional<Tile>& y)
    {
        if (!x || !y || x->type != y->type || x->act != y->act || x->id != y->id || (x->act != PatchActivity::EDPC && x->act != PatchActivity::Reserved)) return false;
        for (int d = 0; d < 4; ++d) if ((x->b[d].boundary_type == BoundaryType::Reserved_Label1 || x->b[d].boundary_type == BoundaryType::Reserved_Label2) != (y->b[d].boundary_type == BoundaryType::Reserved_Label1 || y->b[d].boundary_type == BoundaryType::Reserved_Label2)) return false;
        return true;
    }
    int route_length(const TGrid& g, int a, BoundaryType sa, int b, BoundaryType sb) const
    {
        for (int d = 0; d < 4; ++d) if (L_.step(a, d) == b && g[a]->b[d].boundary_type == sa && g[b]->b[d ^ 1].boundary_type == sb) return 0;
        std::vector<int> dist(g.size(), -1); std::deque<int> q;
        for (int d = 0; d < 4; ++d) { int w = L_.step(a, d); if (w >= 0 && !g[w] && g[a]->b[d].boundary_type == sa && dist[w] < 0) { dist[w] = 1; q.push_back(w); } }
        while (!q.empty()) { int v = q.front(); q.pop_front(); for (int d = 0; d < 4; ++d) { int w = L_.step(v, d); if (w < 0) continue; if (w == b && g[b]->b[d ^ 1].boundary_type == sb) return dist[v]; if (!g[w] && dist[w] < 0) { dist[w] = dist[v] + 1; q.push_back(w); } } }
        return -1;
    }
    // An operation that has begun goes on whenever it can, and is not blocked for good
    void under_way(size_t i)
    {
        int waited = t_ - moved_[i]; if (waited < 1) return;
        auto& r = runs_[i]; size_t k = 0; while (k < r.sets.size() && r.at[k] == r.sets[k].size()) ++k; if (k == r.sets.size()) return;
        Ref n = st_; for (auto& t : n.g) if (t && t->act != PatchActivity::Rotation) { for (auto& b : t->b) b.is_active = false; if (t->act == PatchActivity::Unitary) t->act = PatchActivity::None; }
        std::string why; auto& op = r.sets[k][r.at[k]];
        if (local_op(n, op, why)) { if (++possible_[i] > 3) fail({"C06", "C07", "C02"}, "an operation under way is not continued although it could be", cat(prog_[i], "\nnext: ", op, "\n", show(st_.g, L_.C))); return; }
        uint32_t longest = 0; for (auto p : L_.period) longest = std::max(longest, p);
        possible_[i] = 0;
        for (auto& c : cells_of(op)) if (auto& x = st_.g[at(c)]; x && x->type == PatchType::PreparedState) why = "a magic state was delivered onto its path";
        if (waited > int(3 * longest) + 12) fail({"C06", "C07"}, cat("an operation under way is blocked for good: ", why), cat(prog_[i], "\nnext: ", op, "\n", show(st_.g, L_.C)));
    }
    int where(PatchId p) const { if (!lastE_.empty()) if (int c = L_.find(lastE_, p); c >= 0) return c; for (auto& r : st_.rots) if (r.saved.id == p) return r.cell; return L_.find(st_.g, p); }
    static bool same_id(const LSInstruction& e, PatchId p) { if (auto* m = std::get_if<MagicStateRequest>(&e.operation)) return m->target == p; if (auto* y = std::get_if<YStateRequest>(&e.operation)) return y->target == p; if (auto* i = std::get_if<PatchInit>(&e.operation)) return i->target == p; return false; }
    bool does_not_fit(const std::string& what) const
    {
        // joint measurements are only compiled locally between the sides that touch
        if (what.find("type mismatch") != std::string::npos || what.find("o boundary") != std::string::npos)
            for (size_t i = 0; i < prog_.size(); ++i) if (auto* o = std::get_if<MultiPatchMeasurement>(&prog_[i].operation); o && !done_[i]) {
                auto p = o->observable.begin(); auto q = p; ++q; int a = L_.find(st_.g, p->first), b = L_.find(st_.g, q->first), d = direction(a, b);
                for (auto& e : events_) if (auto* y = std::get_if<YStateRequest>(&e.operation); y && (y->target == p->first || y->target == q->first)) return true;
                for (auto& e : events_) if (auto* h = std::get_if<SingleQubitOp>(&e.operation); h && (h->target == p->first || h->target == q->first)) return true;
                if (a >= 0 && b >= 0 && (d < 0 || st_.g[a]->b[d].boundary_type != side_for(p->second) || st_.g[b]->b[d ^ 1].boundary_type != side_for(q->second))) return true;
            }
        if (what.find("at least two tiles") == std::string::npos) return false;
        for (size_t i = 0; i < prog_.size(); ++i) if (auto* o = std::get_if<BellBasedCNOT>(&prog_[i].operation); o && !done_[i] && !runs_[i].started) { int a = where(o->control), b = where(o->target); for (auto& e : events_) if (same_id(e, o->control) || same_id(e, o->target)) return true; if (a >= 0 && b >= 0 && L_.dist(a, b) <= 2) return true; }
        return false;
    }

    // What the whole program did to the qubits, against what it says
    void judge_effect()
    {
        auto& w = want_; auto& id = wbody_; int& nb = wnext_; std::map<PatchId, bool> ybound; auto fresh = [&](PatchId p) { return id[p] = nb++; };
        for (auto& ins : prog_) std::visit([&](const auto& o) {
            using T = std::decay_t<decltype(o)>;
            if constexpr (std::is_same_v<T, SinglePatchMeasurement>) { w.destroy(id.at(o.target), letter(o.observable)); id.erase(o.target); }
            else if constexpr (std::is_same_v<T, SingleQubitOp>) { if (o.op == SingleQubitOp::Operator::H) w.h(id.at(o.target)); if (o.op == SingleQubitOp::Operator::S) w.s(id.at(o.target)); }
            else if constexpr (std::is_same_v<T, MultiPatchMeasurement>) { auto p = o.observable.begin(); auto q = p; ++q; w.measure(id.at(p->first), letter(p->second), id.at(q->first), letter(q->second)); }
            else if constexpr (std::is_same_v<T, PatchInit>) w.add(fresh(o.target), o.state == PatchInit::InitializeableStates::Plus ? 'X' : 'Z');
            else if constexpr (std::is_same_v<T, MagicStateRequest>) w.add_pair(fresh(o.target), 2000000 + o.target);
            else if constexpr (std::is_same_v<T, YStateRequest>) { if (ybound[o.target]) { ybound[o.target] = false; id.erase(o.target); } else { ybound[o.target] = true; w.add(fresh(o.target), 'Y'); } }
            else if constexpr (std::is_same_v<T, BellPairInit>) { int a = fresh(o.side1), b = fresh(o.side2); w.add_pair(a, b); }
            else if constexpr (std::is_same_v<T, BellBasedCNOT>) w.cnot(id.at(o.control), id.at(o.target));
        }, ins.operation);
        std::map<PatchId, int> is; const auto& g = st_.g;
        for (size_t v = 0; v < g.size(); ++v) {
            if (!g[v]) continue;
            if (g[v]->id) { is[*g[v]->id] = g[v]->body; if (!id.count(*g[v]->id)) return fail({"C06", "C07", "C04"}, "a patch is left that the program does not know of", show(g, L_.C)); continue; }
            if (g[v]->type == PatchType::Routing) return fail({"C06", "C07"}, "a tile of a path is not released", show(g, L_.C));
            if (twists_ && g[v]->type == PatchType::Qubit && g[v]->body >= 0 && std::count_if(prog_.begin(), prog_.end(), [](auto& i) { return std::holds_alternative<YStateRequest>(i.operation); }) > 1) continue; // a prepared Y state given back
            if (g[v]->type == PatchType::Qubit && std::find(L_.ycells.begin(), L_.ycells.end(), (int)v) == L_.ycells.end()) return fail({"C06", "C07"}, "an intermediate tile is not released", show(g, L_.C));
        }
        std::vector<int> x = refs_, y = refs_; for (auto& ins : prog_) if (auto* m = std::get_if<MagicStateRequest>(&ins.operation)) { x.push_back(2000000 + m->target); y.push_back(2000000 + m->target); }
        for (auto& [p, b] : id) { if (!is.count(p)) return fail({"C06", "C07", "C04"}, "a patch is missing at the end", cat("patch ", p, "\n", show(g, L_.C))); x.push_back(is[p]); y.push_back(b); }
        for (int q : x) if (!q_.has(q)) return fail({"C06", "C07"}, "a patch is left that was measured", show(g, L_.C));
        if (q_.reduced(x) != w.reduced(y)) { std::string all; for (auto& r : runs_) for (auto& st : r.sets) for (auto& op : st) all += cat("  ", op, "\n"); fail({"C06", "C07"}, "the effect of the local operations is not that of the program", cat(show(g, L_.C), all)); }
    }
};
}
