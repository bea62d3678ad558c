// C14: the dependency graph. Explicit-state exploration of all operation sequences on the real DirectedGraph and
// DependencyDag, every reached state compared with a plain relational reference; and every pop order of the graphs built
// from all short gate and lattice-surgery programs.
#include "common/runner.hpp"
#include <lsqecc/dag/dependency_dag.hpp>
#include <lsqecc/dag/domain_dags.hpp>
#include <lsqecc/ls_instructions/ls_instructions.hpp>
#include <lsqecc/gates/gates.hpp>
#include <deque>
#include <set>
#include <unordered_set>

using namespace lsqecc;
using namespace lsqecc::dag;
using vf::cat;

// A test instruction: which resources it uses. Two commute when they share none.
struct Res { unsigned mask = 0; int tag = 0; };
std::ostream& operator<<(std::ostream& os, const Res& r) { return os << "r" << r.mask << "#" << r.tag; }
// And one whose commutation is an arbitrary (non transitive, not resource based) symmetric relation on four kinds.
struct Rel { int kind = 0; int tag = 0; };
std::ostream& operator<<(std::ostream& os, const Rel& r) { return os << "k" << r.kind << "#" << r.tag; }
static unsigned g_relation = 0; // bit i*4+j (i<=j): kinds i and j do not commute
static bool clash(int a, int b) { if (a > b) std::swap(a, b); return g_relation >> (a * 4 + b) & 1; }
namespace lsqecc::dag {
template<> struct CommutationTrait<Res> { static bool can_commute(const Res& a, const Res& b) { return !(a.mask & b.mask); } };
template<> struct CommutationTrait<Rel> { static bool can_commute(const Rel& a, const Rel& b) { return !clash(a.kind, b.kind); } };
}

namespace {

using L = label_t;
// ---------- reference: a set of nodes and a relation -----------------------------------------------------------------
struct Ref {
    std::vector<L> nodes;                 // in creation order
    std::set<std::pair<L, L>> before;     // direct constraints
    bool has(L l) const { return std::find(nodes.begin(), nodes.end(), l) != nodes.end(); }
    std::vector<L> succ(L l) const { std::vector<L> v; for (auto& e : before) if (e.first == l) v.push_back(e.second); return v; }
    std::vector<L> pred(L l) const { std::vector<L> v; for (auto& e : before) if (e.second == l) v.push_back(e.first); return v; }
    bool reach(L a, L b) const { std::set<L> seen{a}; std::deque<L> q{a}; while (!q.empty()) { L x = q.front(); q.pop_front(); for (L y : succ(x)) { if (y == b) return true; if (seen.insert(y).second) q.push_back(y); } } return false; }
    std::set<L> ready() const { std::set<L> s; for (L l : nodes) if (pred(l).empty()) s.insert(l); return s; }
    void remove(L l) { nodes.erase(std::find(nodes.begin(), nodes.end(), l)); std::set<std::pair<L, L>> b; for (auto& e : before) if (e.first != l && e.second != l) b.insert(e); before.swap(b); }
    void expand(L t, const std::vector<L>& r)
    {
        auto s = succ(t), p = pred(t); remove(t);
        for (L l : r) nodes.push_back(l);
        for (size_t i = 0; i + 1 < r.size(); ++i) before.insert({r[i], r[i + 1]});
        for (L l : s) before.insert({r.back(), l});
        for (L l : p) before.insert({l, r.front()});
    }
};
template<class V> std::string list(const V& v) { std::string s = "{"; for (auto& x : v) s += cat(s.size() > 1 ? "," : "", x); return s + "}"; }
template<class V> std::set<L> as_set(const V& v) { return std::set<L>(v.begin(), v.end()); }

// Empty when the graph agrees with the reference. exact: the direct edges must be the reference's; otherwise only the
// order they imply.
std::string agree(const DirectedGraph& g, const Ref& r, bool exact)
{
    if (g.empty() != r.nodes.empty()) return cat("empty() is ", g.empty(), " with unfinished nodes ", list(r.nodes));
    std::map<L, std::set<L>> su, pr;
    for (L l : r.nodes) {
        try {
            auto s = g.successors(l), p = g.predecessors(l);
            su[l] = as_set(s); pr[l] = as_set(p);
            if (su[l].size() != s.size() || pr[l].size() != p.size()) return cat("node ", l, " lists a neighbour twice");
        } catch (const std::exception& e) { return cat("node ", l, " is missing from the graph: ", e.what()); }
    }
    auto& fe = get_edges_for_testing(g); auto& be = get_back_edges_for_testing(g);
    if (fe.size() != r.nodes.size() || be.size() != r.nodes.size()) return cat("the graph holds ", fe.size(), "/", be.size(), " nodes (edges/reverse edges), ", r.nodes.size(), " are unfinished");
    for (L l : r.nodes) {
        for (L x : su[l]) if (!r.has(x)) return cat("stale edge ", l, "->", x, " to a node no longer in the graph");
        for (L x : pr[l]) if (!r.has(x)) return cat("stale reverse edge ", x, "->", l, " from a node no longer in the graph");
    }
    for (L l : r.nodes) for (L m : r.nodes) if (su[l].count(m) != pr[m].count(l)) return cat("edge and reverse edge disagree for ", l, "->", m);
    Ref got; got.nodes = r.nodes; for (L l : r.nodes) for (L m : su[l]) got.before.insert({l, m});
    if (exact) { if (got.before != r.before) { for (auto& e : r.before) if (!got.before.count(e)) return cat("edge ", e.first, "->", e.second, " is missing"); return "the graph has an edge that was never added or was removed"; } }
    else for (L a : r.nodes) for (L b : r.nodes) if (a != b && got.reach(a, b) != r.reach(a, b)) return cat("order ", a, " before ", b, " is ", r.reach(a, b) ? "lost" : "invented");
    std::set<L> heads, tails;
    for (L l : r.nodes) { if (r.pred(l).empty()) heads.insert(l); if (r.succ(l).empty()) tails.insert(l); }
    if (as_set(g.heads()) != heads || g.heads().size() != heads.size()) return cat("heads() is ", list(g.heads()), " instead of ", list(heads));
    if (as_set(g.tails()) != tails || g.tails().size() != tails.size()) return cat("tails() is ", list(g.tails()), " instead of ", list(tails));
    auto topo = g.topological_order_tails_first();
    if (topo.size() != r.nodes.size() || as_set(topo) != as_set(r.nodes)) return cat("topological order ", list(topo), " does not list every node once");
    for (size_t i = 0; i < topo.size(); ++i) for (size_t j = i + 1; j < topo.size(); ++j) if (r.before.count({topo[i], topo[j]})) return cat("topological order (tails first) has ", topo[i], " before its successor ", topo[j]);
    return "";
}

// Insertion order is visible in the real structures, so a state is the real adjacency in its stored order with labels
// renamed by rank: two sequences leading to the same key behave alike from there on.
std::string graph_key(const DirectedGraph& g, const std::map<L, int>& rank)
{
    std::string k; auto name = [&](L l) { auto it = rank.find(l); return it == rank.end() ? std::string("?") : cat(it->second); };
    for (auto& [l, s] : get_edges_for_testing(g)) { k += name(l) + ">"; for (L x : s) k += name(x) + ","; }
    k += "|";
    for (auto& [l, s] : get_back_edges_for_testing(g)) { k += name(l) + "<"; for (L x : s) k += name(x) + ","; }
    return k;
}

// ---------- DirectedGraph: all operation sequences over a few labels --------------------------------------------------
struct GState { DirectedGraph g; Ref r; std::string trace; };

// Every sequence of at most `depth` operations over labels 0..N-1 that starts with the operation of this unit.
void explore_graph(vf::Ctx& ctx, uint64_t unit, int N, int depth, uint64_t nunits)
{
    ctx.begin(cat("directed graph over ", N, " labels, first operations #", unit));
    std::deque<std::pair<GState, int>> q; std::unordered_set<std::string> seen;
    q.push_back({GState{}, 0});
    std::map<L, int> rank; for (int i = 0; i < N; ++i) rank[i] = i;
    while (!q.empty() && !ctx.stop()) {
        auto [st, d] = std::move(q.front()); q.pop_front();
        std::vector<std::function<void(GState&)>> ops; std::vector<std::string> names;
        auto op = [&](std::string n, std::function<void(GState&)> f) { names.push_back(std::move(n)); ops.push_back(std::move(f)); };
        for (L a = 0; a < (L)N; ++a) {
            op(cat("add_node(", a, ")"), [a](GState& s) { s.g.add_node(a); if (!s.r.has(a)) s.r.nodes.push_back(a); });
            if (st.r.has(a)) op(cat("remove_node(", a, ")"), [a](GState& s) { s.g.remove_node(a); s.r.remove(a); });
            for (L b = 0; b < (L)N; ++b) {
                if (a == b) continue;
                if (!st.r.reach(b, a)) op(cat("add_edge(", a, ",", b, ")"), [a, b](GState& s) { s.g.add_edge(a, b); if (!s.r.has(b)) s.r.nodes.push_back(b); if (!s.r.has(a)) s.r.nodes.push_back(a); s.r.before.insert({a, b}); });
                if (st.r.before.count({a, b})) op(cat("remove_edge(", a, ",", b, ")"), [a, b](GState& s) { s.g.remove_edge(a, b); s.r.before.erase({a, b}); });
            }
            if (st.r.has(a)) {
                std::vector<std::vector<L>> reps;
                for (L x = 0; x < (L)N; ++x) if (!st.r.has(x)) { reps.push_back({x}); for (L y = 0; y < (L)N; ++y) if (y != x && !st.r.has(y)) { reps.push_back({x, y}); for (L z = 0; z < (L)N; ++z) if (z != x && z != y && !st.r.has(z)) reps.push_back({x, y, z}); } }
                for (auto& rep : reps) op(cat("expand(", a, ",", list(rep), ")"), [a, rep](GState& s) { s.g.expand(a, rep); s.r.expand(a, rep); });
            }
        }
        for (size_t i = 0; i < ops.size(); ++i) {
            // The first two levels are split over the units.
            if (d == 1 && (i * 31 + vf::hash_str(st.trace)) % nunits != unit) continue;
            GState s = st;
            s.trace += (s.trace.empty() ? "" : " ") + names[i];
            ctx.begin(cat("directed graph: ", s.trace));
            std::string bad;
            try { ops[i](s); bad = agree(s.g, s.r, true); } catch (const std::exception& e) { bad = cat("threw ", e.what()); }
            ctx.count(vf::TRANSITIONS); ctx.count(vf::EVALS);
            if (!bad.empty()) { ctx.violation(cat("graph: ", names[i].substr(0, names[i].find('(')), ": ", bad.substr(0, 16)), bad); continue; }
            std::string k = graph_key(s.g, rank);
            if (d > 0) { if (!seen.insert(k).second) continue; ctx.state(vf::hash_str("G" + k)); }
            ctx.count(vf::TRACES);
            if (d + 1 < depth) q.push_back({std::move(s), d + 1});
        }
        if (ctx.unit == 0 && d == 3) ctx.sample(st.trace);
    }
    // Operations that must be refused.
    DirectedGraph g; g.add_edge(0, 1);
    auto must_throw = [&](const char* w, std::function<void()> f) { ctx.begin(w); try { f(); ctx.violation(cat("graph: accepted: ", w), "no error"); } catch (const std::exception&) {} ctx.count(vf::EVALS); };
    must_throw("remove_node of a missing node", [&] { g.remove_node(7); });
    must_throw("expand of a missing node", [&] { g.expand(7, {8}); });
    must_throw("expand into nothing", [&] { g.expand(0, {}); });
    must_throw("expand into an existing node", [&] { g.expand(0, {1}); });
    must_throw("remove_edge from a missing node", [&] { g.remove_edge(7, 1); });
    must_throw("remove_edge to a missing node", [&] { g.remove_edge(0, 7); });
    std::string bad = [&] { Ref r; r.nodes = {1, 0}; r.before = {{0, 1}}; return agree(g, r, true); }();
    if (!bad.empty()) ctx.violation("graph: a refused operation changed the graph", bad);
}

// ---------- DependencyDag: all operation sequences --------------------------------------------------------------------
template<class I> struct Content;
template<> struct Content<Res> { static std::string of(const Res& r) { return cat(r); } static bool clash(const Res& a, const Res& b) { return a.mask & b.mask; } };
template<> struct Content<Rel> { static std::string of(const Rel& r) { return cat(r); } static bool clash(const Rel& a, const Rel& b) { return ::clash(a.kind, b.kind); } };

template<class I> struct DState { DependencyDag<I> d; Ref r; std::map<L, I> what; std::set<L> prox; std::string trace; int tags = 0; };

template<class I> std::string dag_agree(DState<I>& s)
{
    std::string bad = agree(get_graph_for_testing(s.d), s.r, false);
    if (!bad.empty()) return bad;
    if (s.d.empty() != s.r.nodes.empty()) return "empty() is wrong";
    auto app = s.d.applicable_instructions();
    if (as_set(app) != s.r.ready() || app.size() != s.r.ready().size()) return cat("ready instructions are ", list(app), " instead of ", list(s.r.ready()));
    for (L l : s.r.nodes) {
        try { if (Content<I>::of(s.d.at(l)) != Content<I>::of(s.what.at(l))) return cat("instruction ", l, " is now another instruction"); }
        catch (const std::exception&) { return cat("unfinished instruction ", l, " has no content"); }
    }
    // Whatever is marked as to be executed next must be unfinished, and an explicit mark lasts until the instruction is done.
    for (L l : s.d.proximate_instructions()) if (!s.r.has(l)) return cat("finished instruction ", l, " is still marked to be executed next");
    auto p = as_set(s.d.proximate_instructions());
    for (L l : s.prox) if (!p.count(l)) return cat("instruction ", l, " lost its mark to be executed next");
    // The printed graph names exactly the unfinished instructions.
    std::string dot = to_graphviz(s.d);
    for (L l : s.r.nodes) if (dot.find(Content<I>::of(s.what.at(l))) == std::string::npos) return cat("instruction ", l, " is missing from the printed graph");
    return "";
}

template<class I> void explore_dag(vf::Ctx& ctx, uint64_t unit, uint64_t nunits, const std::string& what, const std::vector<I>& kinds, int depth, int live, int maxrep)
{
    ctx.begin(what);
    std::deque<std::pair<DState<I>, int>> q; std::unordered_set<std::string> seen;
    q.push_back({DState<I>{}, 0});
    while (!q.empty() && !ctx.stop()) {
        auto [st, d] = std::move(q.front()); q.pop_front();
        std::vector<std::function<void(DState<I>&)>> ops; std::vector<std::string> names;
        auto op = [&](std::string n, std::function<void(DState<I>&)> f) { names.push_back(std::move(n)); ops.push_back(std::move(f)); };
        if ((int)st.r.nodes.size() < live) for (auto kind : kinds) {
            op(cat("push(", kind, ")"), [kind](DState<I>& s) {
                I i = kind; i.tag = s.tags++; I copy = i;
                L l = s.d.push_instruction_based_on_commutation(std::move(copy));
                if (s.what.count(l)) throw std::runtime_error("a label was given twice");
                for (L x : s.r.nodes) if (Content<I>::clash(s.what.at(x), i)) s.r.before.insert({x, l});
                s.r.nodes.push_back(l); s.what.emplace(l, i);
            });
        }
        if ((int)st.r.nodes.size() < live) op("isolated", [&kinds](DState<I>& s) {
            I i = kinds[0]; i.tag = s.tags++; I copy = i; L l = s.d.add_instruction_isolated(std::move(copy));
            if (s.what.count(l)) throw std::runtime_error("a label was given twice");
            s.r.nodes.push_back(l); s.what.emplace(l, i); });
        for (L l : st.r.ready()) {
            op(cat("pop(", l, ")"), [l](DState<I>& s) { s.d.pop_head(l); s.r.remove(l); s.prox.erase(l); });
            if (!st.prox.count(l)) op(cat("mark(", l, ")"), [l](DState<I>& s) { s.d.make_proximate(l); s.prox.insert(l); });
        }
        for (L l : st.r.nodes) for (int n = 1; n <= maxrep && (int)st.r.nodes.size() - 1 + n <= live + 1; ++n) for (int prox = 0; prox < 2; ++prox)
            op(cat("expand(", l, ",", n, prox ? ",next)" : ")"), [l, n, prox, &kinds](DState<I>& s) {
                std::vector<I> rep; for (int i = 0; i < n; ++i) { rep.push_back(kinds[i % kinds.size()]); rep.back().tag = s.tags++; }
                std::vector<I> copy = rep; std::string before = cat(list(s.r.nodes));
                std::set<L> old; for (auto& [k, v] : get_edges_for_testing(get_graph_for_testing(s.d))) old.insert(k);
                L first = s.d.expand(l, std::move(copy), prox);
                std::vector<L> fresh; for (auto& [k, v] : get_edges_for_testing(get_graph_for_testing(s.d))) if (!old.count(k)) fresh.push_back(k);
                std::sort(fresh.begin(), fresh.end());
                if (fresh.size() != rep.size()) throw std::runtime_error("the expansion did not add one node per replacement instruction");
                // match the new labels with the replacement by content
                std::vector<L> order;
                for (auto& i : rep) for (L f : fresh) if (Content<I>::of(s.d.at(f)) == Content<I>::of(i)) { order.push_back(f); break; }
                if (order.size() != rep.size()) throw std::runtime_error("the replacement's contents are not all in the graph");
                if (first != order.front()) throw std::runtime_error("the label returned is not the start of the replacement");
                for (L f : order) if (s.what.count(f)) throw std::runtime_error("a label was given twice");
                s.r.expand(l, order);
                for (size_t i = 0; i < order.size(); ++i) s.what.emplace(order[i], rep[i]);
                if (s.prox.erase(l)) s.prox.insert(order.front());
            });
        for (size_t i = 0; i < ops.size(); ++i) {
            if (d == 2 && (i * 31 + vf::hash_str(st.trace)) % nunits != unit) continue;
            DState<I> s = st;
            s.trace += (s.trace.empty() ? "" : " ") + names[i];
            ctx.begin(cat(what, ": ", s.trace));
            std::string bad;
            try { ops[i](s); bad = dag_agree(s); } catch (const std::exception& e) { bad = cat("threw ", e.what()); }
            ctx.count(vf::TRANSITIONS); ctx.count(vf::EVALS);
            if (!bad.empty()) { ctx.violation(cat("dag: ", names[i].substr(0, names[i].find('(')), ": ", bad.substr(0, 16)), bad); continue; }
            std::map<L, int> rank; int n = 0; for (L l : s.r.nodes) rank[l] = n++;
            std::string k = graph_key(get_graph_for_testing(s.d), rank);
            for (L l : s.r.nodes) { auto t = s.what.at(l); t.tag = 0; k += ";" + Content<I>::of(t); }
            for (L l : s.d.proximate_instructions()) k += cat("!", rank[l]);
            // the pairs marked to run back to back are only visible in the printed graph
            { std::string dot = to_graphviz(s.d); size_t at = 0; while ((at = dot.find(" [penwidth", at)) != std::string::npos) { size_t b = dot.rfind('\n', at); L x = 0, y = 0; sscanf(dot.c_str() + b + 1, " %zu -> %zu", &x, &y); k += cat("~", rank.count(x) ? cat(rank[x]) : "x", "-", rank.count(y) ? cat(rank[y]) : "x"); ++at; } }
            if (d > 1) { if (!seen.insert(k).second) continue; ctx.state(vf::hash_str(what + k)); }
            ctx.count(vf::TRACES);
            if (d + 1 < depth) q.push_back({std::move(s), d + 1});
        }
    }
}

// ---------- graphs of real programs: all pop orders -------------------------------------------------------------------
template<class I> void all_pops(vf::Ctx& ctx, const DependencyDag<I>& d0, const Ref& r0, const std::string& what, std::vector<L> popped, std::set<std::vector<L>>& seen)
{
    std::vector<L> key = r0.nodes; 
    if (!seen.insert(key).second) return;
    ctx.count(vf::EVALS);
    std::string bad = agree(get_graph_for_testing(d0), r0, false);
    auto app = d0.applicable_instructions();
    if (bad.empty() && as_set(app) != r0.ready()) bad = cat("ready instructions are ", list(app), " instead of ", list(r0.ready()));
    if (bad.empty() && r0.nodes.empty() != d0.empty()) bad = "empty() is wrong";
    if (!bad.empty()) { ctx.violation(cat("program graph: ", bad.substr(0, 16)), cat(bad, " after finishing ", list(popped))); return; }
    if (r0.nodes.size() && app.empty()) { ctx.violation("program graph: stuck", "nothing is ready"); return; }
    for (L l : app) {
        auto d = d0; Ref r = r0; d.pop_head(l); r.remove(l); ctx.count(vf::TRANSITIONS);
        auto p = popped; p.push_back(l); all_pops(ctx, d, r, what, p, seen);
    }
}

struct VecStream : LSInstructionStream {
    std::vector<LSInstruction> v; size_t i = 0; tsl::ordered_set<PatchId> q;
    LSInstruction get_next_instruction() override { return v.at(i++); }
    bool has_next_instruction() const override { return i < v.size(); }
    const tsl::ordered_set<PatchId>& core_qubits() const override { return q; }
};
struct VecGates : GateStream {
    std::vector<gates::Gate> v; size_t i = 0; const Qreg qr{"q", 3};
    gates::Gate get_next_gate() override { return v.at(i++); }
    bool has_next_gate() const override { return i < v.size(); }
    const Qreg& get_qreg() const override { return qr; }
};

std::vector<LSInstruction> ls_alphabet()
{
    std::vector<LSInstruction> a; auto add = [&](auto op) { LSInstruction i{.operation = op}; a.push_back(i); };
    add(SinglePatchMeasurement{0, PauliOperator::X, false});
    add(SinglePatchMeasurement{1, PauliOperator::Z, false});
    add(MultiPatchMeasurement{{{0, PauliOperator::X}, {1, PauliOperator::Z}}, false});
    add(MultiPatchMeasurement{{{1, PauliOperator::X}, {2, PauliOperator::Z}}, false});
    add(SingleQubitOp{0, SingleQubitOp::Operator::X});
    add(SingleQubitOp{2, SingleQubitOp::Operator::H});
    add(RotateSingleCellPatch{2});
    add(PatchInit{2, PatchInit::InitializeableStates::Zero, std::nullopt});
    add(MagicStateRequest{3, 0});
    return a;
}
std::vector<gates::Gate> gate_alphabet()
{
    using namespace gates;
    std::vector<Gate> a;
    a.push_back(H(0)); a.push_back(X(0)); a.push_back(Z(1)); a.push_back(S(2)); a.push_back(T(0));
    a.push_back(CNOT(1, 0)); a.push_back(CNOT(2, 1)); a.push_back(CZ(0, 2)); a.push_back(RZ(1, Fraction{1, 8})); a.push_back(Reset{"q", 2});
    return a;
}
std::string show(const LSInstruction& i) { return cat(i); }
std::string show(const gates::Gate& g) { std::ostringstream os; lsqecc::operator<<(os, g); return os.str(); }
bool same(const LSInstruction& a, const LSInstruction& b) { return show(a) == show(b) && a.operation.index() == b.operation.index(); }
bool same(const gates::Gate& a, const gates::Gate& b) { return a.index() == b.index() && (std::holds_alternative<gates::Reset>(a) ? std::get<gates::Reset>(a).target_qubit == std::get<gates::Reset>(b).target_qubit : show(a) == show(b)); }
template<class I> void program(vf::Ctx& ctx, uint64_t first, int len, const std::vector<I>& alphabet, bool ls)
{
    size_t A = alphabet.size(); uint64_t total = 1; for (int i = 1; i < len; ++i) total *= A;
    for (uint64_t k = 0; k < total && !ctx.stop(); ++k) {
        std::vector<I> prog{alphabet[first % A]}; uint64_t x = k; for (int i = 1; i < len; ++i) { prog.push_back(alphabet[x % A]); x /= A; }
        std::string what; for (auto& i : prog) what += show(i) + "; ";
        ctx.begin(what);
        DependencyDag<I> d;
        if constexpr (std::is_same_v<I, LSInstruction>) { VecStream s; s.v = prog; d = full_dependency_dag_from_instruction_stream(s); }
        else { VecGates s; s.v = prog; d = full_dependency_dag_from_gate_stream(s); }
        // labels in creation order must stand for the program in order
        std::vector<L> labels; for (auto& [l, e] : get_edges_for_testing(get_graph_for_testing(d))) labels.push_back(l);
        std::sort(labels.begin(), labels.end());
        Ref r; r.nodes = labels;
        ctx.count(vf::TRACES);
        if (labels.size() != prog.size()) { ctx.violation("program graph: not one node per instruction", cat(labels.size(), " nodes")); continue; }
        bool ok = true;
        for (size_t i = 0; i < labels.size(); ++i) { if (!same(d.at(labels[i]), prog[i])) { ctx.violation("program graph: an instruction is not the program's", cat("position ", i)); ok = false; break; } }
        if (!ok) continue;
        for (size_t i = 0; i < prog.size(); ++i) for (size_t j = i + 1; j < prog.size(); ++j)
            if (!CommutationTrait<I>::can_commute(prog[i], prog[j])) r.before.insert({labels[i], labels[j]});
        std::set<std::vector<L>> seen; all_pops(ctx, d, r, what, {}, seen);
        if (first == 2 && k % 97 == 5) ctx.sample(what);
    }
}
}

int main(int argc, char** argv)
{
    auto o = vf::parse_options("C14", argc, argv);
    bool q = o.quick();
    o.rule = "DirectedGraph: all sequences of add_node/add_edge/remove_edge/remove_node/expand over 4 (5) labels to the depth bound, states merged by stored adjacency; "
             "DependencyDag: all sequences of push/isolated add/pop of a ready node/expand of any node by 1..3 instructions/mark, for resource-based commutation and for every symmetric commutation relation on 3 kinds; "
             "real graphs: every gate program and lattice-surgery program of bounded length over a ten-letter alphabet, every order of finishing ready instructions";
    o.assumptions = {"the caller only pops ready instructions, adds no cycle and removes only existing edges, as every caller in the code does",
                     "states with equal stored adjacency (in stored order), contents and marks behave alike"};
    vf::explore(o, "directed graph, 4 labels", 64, [&](vf::Ctx& c, uint64_t u) { explore_graph(c, u, 4, q ? 6 : 8, 64); });
    vf::explore(o, "directed graph, 5 labels", 64, [&](vf::Ctx& c, uint64_t u) { explore_graph(c, u, 5, q ? 4 : 6, 64); });
    vf::explore(o, "directed graph, 6 labels", 64, [&](vf::Ctx& c, uint64_t u) { explore_graph(c, u, 6, q ? 4 : 5, 64); });
    std::vector<Res> res; for (unsigned m : {1u, 2u, 3u, 4u, 6u}) res.push_back(Res{m, 0});
    vf::explore(o, "dependency dag, resources", 128, [&](vf::Ctx& c, uint64_t u) { explore_dag<Res>(c, u, 128, "resource dag", res, q ? 5 : 6, 5, 3); });
    std::vector<Res> one{Res{1, 0}, Res{2, 0}};
    vf::explore(o, "dependency dag, two kinds, deep", 128, [&](vf::Ctx& c, uint64_t u) { explore_dag<Res>(c, u, 128, "deep dag", one, q ? 6 : 8, 6, 2); });
    vf::explore(o, "dependency dag, arbitrary relations on three kinds", 64 * 8, [&](vf::Ctx& c, uint64_t u) {
        unsigned bits = u / 8; static const int pos[6] = {0, 1, 2, 5, 6, 10}; g_relation = 0;
        for (int i = 0; i < 6; ++i) if (bits >> i & 1) g_relation |= 1u << pos[i];
        std::vector<Rel> kinds{{0, 0}, {1, 0}, {2, 0}};
        explore_dag<Rel>(c, u % 8, 8, cat("relation ", bits), kinds, q ? 5 : 6, 4, 2);
    });
    auto la = ls_alphabet(); auto ga = gate_alphabet();
    vf::explore(o, "lattice-surgery programs", la.size(), [&](vf::Ctx& c, uint64_t u) { for (int n = 1; n <= (q ? 4 : 5); ++n) program<LSInstruction>(c, u, n, la, true); });
    vf::explore(o, "gate programs", ga.size(), [&](vf::Ctx& c, uint64_t u) { for (int n = 1; n <= (q ? 4 : 5); ++n) program<gates::Gate>(c, u, n, ga, false); });
    return vf::finish(o);
}
