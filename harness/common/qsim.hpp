// A small exact-enough simulator: state vectors on a few named qubits, every measurement outcome explored.
#pragma once
#include <complex>
#include <vector>
#include <cmath>
#include <cstdint>
namespace qs {
using cd = std::complex<double>;
using Vec = std::vector<cd>;
struct M2 { cd a, b, c, d; }; // row major
constexpr double PI = 3.14159265358979323846;
inline M2 mX() { return {0, 1, 1, 0}; }
inline M2 mY() { return {0, cd(0, -1), cd(0, 1), 0}; }
inline M2 mZ() { return {1, 0, 0, -1}; }
inline M2 mH() { double r = std::sqrt(0.5); return {r, r, r, -r}; }
inline M2 phase(double t) { return {1, 0, 0, std::polar(1.0, t)}; }
inline M2 mS() { return {1, 0, 0, cd(0, 1)}; }
inline M2 mSd() { return {1, 0, 0, cd(0, -1)}; }
inline M2 mT() { return phase(PI / 4); }
inline M2 mTd() { return phase(-PI / 4); }
// qubit q is bit q of the index
inline void apply(Vec& v, int q, const M2& m)
{
    for (size_t i = 0; i < v.size(); ++i) if (!(i >> q & 1)) { size_t j = i | size_t(1) << q; cd x = v[i], y = v[j]; v[i] = m.a * x + m.b * y; v[j] = m.c * x + m.d * y; }
}
inline void apply_controlled(Vec& v, int c, int q, const M2& m)
{
    for (size_t i = 0; i < v.size(); ++i) if (!(i >> q & 1) && (i >> c & 1)) { size_t j = i | size_t(1) << q; cd x = v[i], y = v[j]; v[i] = m.a * x + m.b * y; v[j] = m.c * x + m.d * y; }
}
inline double norm2(const Vec& v) { double s = 0; for (auto& x : v) s += std::norm(x); return s; }
// Projects on the eigenvalue (-1)^outcome of a Pauli product given as (xmask, zmask); Y = both bits. Not normalised.
inline Vec pauli(const Vec& v, uint64_t x, uint64_t z)
{
    Vec w(v.size()); int ny = __builtin_popcountll(x & z); cd ph = 1; for (int i = 0; i < ny; ++i) ph *= cd(0, 1);
    for (size_t i = 0; i < v.size(); ++i) w[i ^ x] = v[i] * ph * ((__builtin_popcountll(i & z) & 1) ? -1.0 : 1.0);
    return w;
}
inline Vec project(const Vec& v, uint64_t x, uint64_t z, int outcome)
{
    Vec p = pauli(v, x, z); for (size_t i = 0; i < v.size(); ++i) p[i] = 0.5 * (v[i] + (outcome ? -1.0 : 1.0) * p[i]);
    return p;
}
inline double diff(const Vec& a, const Vec& b) { double d = 0; for (size_t i = 0; i < a.size(); ++i) d = std::max(d, std::abs(a[i] - b[i])); return d; }
// distance up to a global phase (both normalised)
inline double diff_phase(const Vec& a, const Vec& b)
{
    cd ov = 0; for (size_t i = 0; i < a.size(); ++i) ov += std::conj(a[i]) * b[i];
    double m = std::abs(ov); if (m < 1e-12) return 2; cd ph = ov / m; double d = 0; for (size_t i = 0; i < a.size(); ++i) d = std::max(d, std::abs(a[i] * ph - b[i])); return d;
}
}
