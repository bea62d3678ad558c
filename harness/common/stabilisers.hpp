// Stabiliser states without signs: what an operation does up to Pauli corrections.
#pragma once
#include <cstdint>
#include <map>
#include <set>
#include <utility>
#include <vector>

namespace vf {

class Stabilisers {
public:
    using W = unsigned __int128;
    struct Row { W x = 0, z = 0; bool operator==(const Row& o) const { return x == o.x && z == o.z; } bool operator<(const Row& o) const { return x != o.x ? x < o.x : z < o.z; } };

    bool has(int q) const { return at_.count(q) != 0; }
    // A new qubit in the eigenstate of p ('X', 'Y' or 'Z')
    void add(int q, char p) { int b = fresh(q); rows_.push_back(pauli(b, p)); }
    // A new pair (|00> + |11>)
    void add_pair(int q, int r) { int a = fresh(q), b = fresh(r); rows_.push_back(times(pauli(a, 'X'), pauli(b, 'X'))); rows_.push_back(times(pauli(a, 'Z'), pauli(b, 'Z'))); }
    void measure(int q, char p) { project(pauli(at_.at(q), p)); }
    void measure(int q, char p, int r, char s) { project(times(pauli(at_.at(q), p), pauli(at_.at(r), s))); }
    void h(int q) { W m = W(1) << at_.at(q); for (auto& r : rows_) { bool x = r.x & m, z = r.z & m; r.x = z ? r.x | m : r.x & ~m; r.z = x ? r.z | m : r.z & ~m; } }
    void s(int q) { W m = W(1) << at_.at(q); for (auto& r : rows_) if (r.x & m) r.z ^= m; }
    void cnot(int c, int t) { W mc = W(1) << at_.at(c), mt = W(1) << at_.at(t); for (auto& r : rows_) { if (r.x & mc) r.x ^= mt; if (r.z & mt) r.z ^= mc; } }
    // Measured and gone
    void destroy(int q, char p)
    {
        measure(q, p); int b = at_.at(q); Row m = pauli(b, p); W bit = W(1) << b;
        std::vector<Row> keep; bool dropped = false;
        eliminate(m, keep, dropped);
        for (auto& r : keep) { if ((r.x | r.z) & bit) { r.x ^= m.x; r.z ^= m.z; } }
        rows_ = keep; used_ &= ~bit; at_.erase(q);
    }
    // The state of the named qubits, the others ignored; qubit k of the answer is qs[k]
    std::vector<Row> reduced(const std::vector<int>& qs) const
    {
        W in = 0; for (int q : qs) in |= W(1) << at_.at(q);
        // eliminate support outside
        std::vector<Row> v = rows_;
        for (int b = 0; b < 128; ++b) {
            W m = W(1) << b; if ((in & m) || !(used_ & m)) continue;
            for (int half = 0; half < 2; ++half) {
                size_t i = 0; while (i < v.size() && !((half ? v[i].z : v[i].x) & m)) ++i;
                if (i == v.size()) continue;
                Row p = v[i]; v.erase(v.begin() + i); for (auto& r : v) if ((half ? r.z : r.x) & m) { r.x ^= p.x; r.z ^= p.z; }
            }
        }
        // in the order asked for, reduced row echelon form
        std::vector<Row> w; for (auto& r : v) { Row n; for (size_t k = 0; k < qs.size(); ++k) { W m = W(1) << at_.at(qs[k]); if (r.x & m) n.x |= W(1) << k; if (r.z & m) n.z |= W(1) << k; } w.push_back(n); }
        size_t done = 0;
        for (size_t k = 0; k < qs.size(); ++k) for (int half = 0; half < 2; ++half) {
            W m = W(1) << k; size_t i = done; while (i < w.size() && !((half ? w[i].z : w[i].x) & m)) ++i;
            if (i == w.size()) continue;
            std::swap(w[done], w[i]); for (size_t j = 0; j < w.size(); ++j) if (j != done && ((half ? w[j].z : w[j].x) & m)) { w[j].x ^= w[done].x; w[j].z ^= w[done].z; }
            ++done;
        }
        w.resize(done); return w;
    }

private:
    std::vector<Row> rows_; std::map<int, int> at_; W used_ = 0;
    int fresh(int q) { int b = 0; while (used_ & (W(1) << b)) ++b; used_ |= W(1) << b; at_[q] = b; return b; }
    static Row pauli(int b, char p) { Row r; W m = W(1) << b; if (p != 'Z') r.x = m; if (p != 'X') r.z = m; return r; }
    static Row times(Row a, const Row& b) { a.x ^= b.x; a.z ^= b.z; return a; }
    static bool odd(W v) { return (__builtin_popcountll((uint64_t)v) + __builtin_popcountll((uint64_t)(v >> 64))) & 1; }
    static bool anti(const Row& a, const Row& b) { return odd(a.x & b.z) != odd(a.z & b.x); }
    void project(const Row& m)
    {
        size_t i = 0; while (i < rows_.size() && !anti(rows_[i], m)) ++i;
        if (i == rows_.size()) return; // determined already: the group of a pure state contains it
        Row p = rows_[i]; rows_[i] = m; for (size_t j = 0; j < rows_.size(); ++j) if (j != i && anti(rows_[j], m)) rows_[j] = times(rows_[j], p);
    }
    // Rewrites the generators so that one of them is m, which is dropped
    void eliminate(const Row& m, std::vector<Row>& keep, bool& dropped)
    {
        // find the product of generators that equals m: Gaussian elimination with bookkeeping
        std::vector<Row> v = rows_; std::vector<std::vector<char>> combo(v.size(), std::vector<char>(v.size(), 0)); for (size_t i = 0; i < v.size(); ++i) combo[i][i] = 1;
        Row t = m; std::vector<char> need(v.size(), 0); size_t done = 0;
        for (int b = 0; b < 128; ++b) for (int half = 0; half < 2; ++half) {
            W bit = W(1) << b; auto has = [&](const Row& r) { return ((half ? r.z : r.x) & bit) != 0; };
            size_t i = done; while (i < v.size() && !has(v[i])) ++i;
            if (i == v.size()) continue;
            std::swap(v[i], v[done]); std::swap(combo[i], combo[done]);
            for (size_t j = done + 1; j < v.size(); ++j) if (has(v[j])) { v[j] = times(v[j], v[done]); for (size_t k = 0; k < need.size(); ++k) combo[j][k] ^= combo[done][k]; }
            if (has(t)) { t = times(t, v[done]); for (size_t k = 0; k < need.size(); ++k) need[k] ^= combo[done][k]; }
            ++done;
        }
        dropped = t.x == 0 && t.z == 0; size_t gone = 0; while (gone < need.size() && !need[gone]) ++gone;
        for (size_t i = 0; i < rows_.size(); ++i) if (i != gone) keep.push_back(rows_[i]);
    }
};
}
