// C11: the OpenQASM dialect. Statements over a token alphabet, every one- and two-character edit of valid statements, every
// angle and operand string up to a length, and every short file, against an independent reader of the dialect.
#include "common/runner.hpp"
#include <lsqecc/gates/gates.hpp>
#include <lsqecc/gates/parse_gates.hpp>
#include <functional>
#include <numeric>
#include <optional>
#include <sstream>

using namespace lsqecc;
using vf::cat;

namespace {
using S = std::string; using V = std::vector<S>; using I128 = __int128;
enum Verdict { BAD, GOOD, EITHER };
// GOOD must be read as the meaning, EITHER may be rejected or read as one of the meanings, BAD must be rejected
struct Want { Verdict v = BAD; V meanings; QubitNum top = 0; bool is_qreg = false; };

bool ws(char c) { return c == ' ' || c == '\t' || c == '\r' || c == '\v' || c == '\f' || c == '\n'; }
S strip(S s) { while (s.size() && ws(s.front())) s.erase(s.begin()); while (s.size() && ws(s.back())) s.pop_back(); return s; }
V split(const S& s, char d) { V v(1); for (char c : s) if (c == d) v.emplace_back(); else v.back() += c; return v; }

struct Rat { I128 n, d; };
Rat norm(Rat r) { if (r.d < 0) { r.n = -r.n; r.d = -r.d; } I128 a = r.n < 0 ? -r.n : r.n, b = r.d; while (b) { I128 t = a % b; a = b; b = t; } if (a) { r.n /= a; r.d /= a; } else r.d = 1; return r; }
S str(I128 x) { if (x < 0) return "-" + str(-x); S s; do { s += char('0' + (int)(x % 10)); x /= 10; } while (x); return S(s.rbegin(), s.rend()); }
// rotation about Z by (n/d) pi, up to global phase
S rot(Rat r, QubitNum q) { r = norm(r); I128 m = 2 * r.d; r.n = ((r.n % m) + m) % m; if (r.n == 0) return "nothing"; return cat("rotate ", str(r.n), "/", str(r.d), " pi on ", q); }
S crot(Rat r) { r = norm(r); return cat("rotate ", str(r.n), "/", str(r.d), " pi"); }

struct Num { bool ok = false, odd = false; I128 v = 0; };
Num integer(S s) // -?digits within 64 bits; anything unusual but unambiguous is odd
{
    Num r; if (strip(s) != s) r.odd = true; s = strip(s);
    int sign = 1; int signs = 0; while (s.size() && (s[0] == '-' || s[0] == '+')) { if (s[0] == '-') sign = -sign; else r.odd = true; s.erase(s.begin()); if (++signs > 1) r.odd = true; }
    if (s.empty() || s.size() > 20) return r; for (char c : s) { if (c < '0' || c > '9') return r; r.v = r.v * 10 + (c - '0'); }
    if (s.size() > 1 && s[0] == '0') r.odd = true;
    if (r.v > (I128)INT64_MAX) return r; r.v *= sign; r.ok = true; return r;
}
struct Angle { bool ok = false, odd = false; Rat v{0, 1}; };
Angle angle(S s)
{
    Angle a; if (strip(s) != s) a.odd = true; s = strip(s);
    if (auto z = integer(s); z.ok && z.v == 0) { a.ok = a.odd = true; return a; }
    size_t p = s.find("pi"); if (p == S::npos || s.find("pi", p + 1) != S::npos) return a;
    S pre = s.substr(0, p), post = s.substr(p + 2); Rat v{1, 1};
    if (strip(pre) != pre || strip(post) != post) a.odd = true; pre = strip(pre); post = strip(post);
    if (!pre.empty() && pre.back() == '*') { pre.pop_back(); auto n = integer(pre); if (!n.ok) return a; if (n.odd) a.odd = true; v.n = n.v; }
    else { int sg = 1, k = 0; for (char c : pre) { if (c == '-') sg = -sg; else if (c == '+') a.odd = true; else return a; if (++k > 1) a.odd = true; } v.n = sg; }
    if (post.empty()) { a.odd = true; a.ok = true; a.v = v; return a; }             // n*pi, pi
    if (post[0] == '*') { auto n = integer(post.substr(1)); if (!n.ok) return a; v.n *= n.v; a.odd = a.ok = true; a.v = v; return a; }
    if (post[0] != '/') return a;
    auto d = integer(post.substr(1)); if (!d.ok || d.v == 0) return a; if (d.odd || d.v < 0) a.odd = true;
    v.d = d.v; a.ok = true; a.v = v; return a;
}
struct Operand { bool ok = false, odd = false; uint32_t i = 0; };
Operand operand(S s)
{
    Operand r; if (strip(s) != s) r.odd = true; s = strip(s); auto o = s.find('['); if (o == S::npos || s.back() != ']') return r;
    S n = s.substr(0, o), ix = s.substr(o + 1, s.size() - o - 2); if (strip(n) != n) r.odd = true; n = strip(n);
    if (n.empty() || (n[0] >= '0' && n[0] <= '9')) return r; for (char c : n) if (!isalnum((unsigned char)c) && c != '_') return r;
    if (!(n[0] >= 'a' && n[0] <= 'z')) r.odd = true;
    auto k = integer(ix); if (!k.ok || k.v < 0 || k.v > 0xffffffffll) return r; r.odd |= k.odd || ix.find('-') != S::npos; r.i = (uint32_t)k.v; r.ok = true; return r;
}

Want recognise(const S& raw)
{
    Want w; bool odd = false; S s = raw; if (strip(s) != s) { size_t b = 0; while (b < s.size() && ws(s[b])) ++b; s = s.substr(b); }
    auto good = [&](V m) { w.v = odd ? EITHER : GOOD; w.meanings = std::move(m); return w; };
    if (strip(s).empty()) return good({"nothing"});
    if (s.rfind("//", 0) == 0) return good({"nothing"});
    for (char c : s) if (c != ' ' && (ws(c) || (unsigned char)c < 32)) odd = true; // (a carriage return at the very end stays lenient too)
    auto semi = s.find(';'); S body = s.substr(0, semi), rest = semi == S::npos ? "" : s.substr(semi + 1);
    V annot; bool maybe_annot = false;
    if (semi == S::npos) { odd = true; if (auto cm = body.find("//"); cm != S::npos) { maybe_annot = true; rest = body.substr(cm); body = body.substr(0, cm); } }
    if (!strip(rest).empty()) {
        S r = strip(rest);
        if (r.find_first_not_of(" \t;") == S::npos) odd = true;            // empty statements
        else { S q = r; while (q.size() && (q[0] == ';' || ws(q[0]))) { odd = true; q.erase(q.begin()); } if (q.rfind("//", 0) != 0) return w; }
        if (rest.rfind(" // %", 0) == 0) { S a = rest.substr(5); for (auto& x : split(a, ',')) { annot.push_back(strip(x)); if (strip(x) != x || x.find(';') != S::npos) maybe_annot = true; } }
        else if (r.find('%') != S::npos) { maybe_annot = true; S a = r.substr(r.find('%') + 1); for (auto& x : split(a, ',')) annot.push_back(strip(x)); }
        else for (auto n : {"ZXWith", "BellBased", "Ancilla"}) if (r.find(n) != S::npos) maybe_annot = true;
        for (auto& a : annot) if (a.find(';') != S::npos) { maybe_annot = true; a = strip(a.substr(0, a.find(';'))); }
    }
    // name [ (angle) ] args
    if (strip(body) != body) odd = true; body = strip(body);
    size_t e = 0; while (e < body.size() && (isalnum((unsigned char)body[e]) || body[e] == '_')) ++e;
    S name = body.substr(0, e), tail = body.substr(e); bool has_angle = false; S ang;
    for (auto ig : {"OPENQASM", "include", "creg", "barrier"}) if (name == ig) { if (tail.size() && (tail[0] != ' ' || strip(tail.substr(1)) != tail.substr(1))) odd = true; else if (strip(tail).empty()) odd = true; else if (name == S("OPENQASM")) { if (strip(tail) != "2.0") odd = true; } else if (name != S("include")) { for (auto& a : split(tail, ',')) if (!operand(a).ok) odd = true; } else if (strip(tail) != "\"qelib1.inc\"") odd = true; return good({"nothing"}); }
    { S t = strip(tail); if (t.size() && t[0] == '(') { auto c = t.find(')'); if (c == S::npos) return w; if (t != tail) odd = true; has_angle = true; ang = t.substr(1, c - 1); tail = t.substr(c + 1); } }
    if (tail.empty() || tail[0] != ' ') odd = true; else { tail.erase(tail.begin()); if (strip(tail) != tail) odd = true; }
    if (strip(tail).empty()) return w;
    std::vector<Operand> ops; { bool first = true; for (auto& a : split(tail, ',')) { S b = a; if (!first && b.size() && b[0] == ' ') { while (b.size() && b[0] == ' ') b.erase(b.begin()); } auto o = operand(b); if (!o.ok) return w; odd |= o.odd; ops.push_back(o); first = false; } }
    for (auto& o : ops) w.top = std::max(w.top, o.i);
    auto single = [&](Rat r) -> Want { if (has_angle || ops.size() != 1) return w; return good({rot(r, ops[0].i)}); };
    if (name == "qreg") { if (has_angle || ops.size() != 1) return w; if (ops[0].i == 0) odd = true; w.is_qreg = true; S t = strip(tail); return good({cat("register ", strip(t.substr(0, t.find('['))), " of ", ops[0].i)}); }
    if (name == "s") return single({1, 2}); if (name == "t") return single({1, 4}); if (name == "z") return single({1, 1}); if (name == "sdg") return single({-1, 2}); if (name == "tdg") return single({-1, 4});
    if (name == "x" || name == "y" || name == "h") { if (has_angle || ops.size() != 1) return w; return good({cat(name, " on ", ops[0].i)}); }
    if (name == "reset") { if (has_angle || ops.size() != 1) return w; S t = strip(tail); return good({cat("reset on ", ops[0].i, " of ", strip(t.substr(0, t.find('['))))}); }
    if (name == "rz") { auto a = angle(ang); if (!has_angle || ops.size() != 1 || !a.ok) return w; odd |= a.odd; return good({rot(a.v, ops[0].i)}); }
    if (name == "cx" || name == "cz" || name == "crz") {
        if (has_angle != (name == "crz") || ops.size() != 2 || ops[0].i == ops[1].i) return w;
        S what = name == "cx" ? "flip" : crot({1, 1});
        if (name == "crz") { auto a = angle(ang); if (!a.ok) return w; odd |= a.odd; what = crot(a.v); }
        S dt{gates::CNOTType_toString(gates::ControlledGate::default_cnot_type)}, dp{gates::CNOTAncillaPlacement_toString(gates::ControlledGate::default_ancilla_placement)};
        V ts, ps; for (auto& a : annot) { if (a == "ZXWithMBMControlFirst" || a == "ZXWithMBMTargetFirst" || a == "BellBased") ts.push_back(a); if (a == "AncillaFreePlacement" || a == "AncillaNextToControl" || a == "AncillaNextToTarget") ps.push_back(a); }
        if (ts.empty() || maybe_annot) ts.push_back(dt); if (ps.empty() || maybe_annot) ps.push_back(dp);
        V m; for (auto& t : ts) for (auto& p : ps) m.push_back(cat(what, " on ", ops[1].i, " when ", ops[0].i, " by ", t, " ", p));
        return good(m);
    }
    return w;
}

S meaning(const gates::Gate& g)
{
    auto basic = [](const gates::BasicSingleQubitGate& b) -> S { using T = gates::BasicSingleQubitGate::Type; switch (b.gate_type) {
        case T::X: return cat("x on ", b.target_qubit); case T::Y: return cat("y on ", b.target_qubit); case T::H: return cat("h on ", b.target_qubit);
        case T::Z: return rot({1, 1}, b.target_qubit); case T::S: return rot({1, 2}, b.target_qubit); case T::T: return rot({1, 4}, b.target_qubit); case T::SDg: return rot({-1, 2}, b.target_qubit); case T::TDg: return rot({-1, 4}, b.target_qubit); } return "?"; };
    auto frac = [](const Fraction& f) { return Rat{f.is_negative ? -(I128)f.num : (I128)f.num, f.den}; };
    if (auto* b = std::get_if<gates::BasicSingleQubitGate>(&g)) return basic(*b);
    if (auto* r = std::get_if<gates::RZ>(&g)) return r->pi_fraction.den == 0 ? "division by zero" : rot(frac(r->pi_fraction), r->target_qubit);
    if (auto* r = std::get_if<gates::Reset>(&g)) return cat("reset on ", r->target_qubit, " of ", r->register_name);
    auto& c = std::get<gates::ControlledGate>(g); S what; QubitNum t;
    if (auto* r = std::get_if<gates::RZ>(&c.target_gate)) { if (r->pi_fraction.den == 0) return "division by zero"; what = crot(frac(r->pi_fraction)); t = r->target_qubit; }
    else { auto& b = std::get<gates::BasicSingleQubitGate>(c.target_gate); using T = gates::BasicSingleQubitGate::Type; what = b.gate_type == T::X ? "flip" : b.gate_type == T::Z ? crot({1, 1}) : "?"; t = b.target_qubit; }
    return cat(what, " on ", t, " when ", c.control_qubit, " by ", gates::CNOTType_toString(c.cnot_type), " ", gates::CNOTAncillaPlacement_toString(c.cnot_ancilla_placement));
}
S meaning(const ParseGateResult& r) { if (auto* g = std::get_if<gates::Gate>(&r)) return meaning(*g); if (auto* q = std::get_if<Qreg>(&r)) return cat("register ", q->name, " of ", q->size); return "nothing"; }

S kind(const S& line) { S s = strip(line); size_t e = 0; while (e < s.size() && isalpha((unsigned char)s[e])) ++e; S k = s.substr(0, e); for (auto n : {"x", "y", "z", "s", "t", "h", "sdg", "tdg", "cx", "cz", "rz", "crz", "reset", "qreg", "creg", "barrier", "OPENQASM", "include"}) if (k == n) return k; return "other"; }
S head(const S& m) { return m.substr(0, m.find(' ')); }

void one(vf::Ctx& c, const S& line)
{
    c.begin(line); c.count(vf::TRACES); c.count(vf::EVALS);
    auto want = recognise(line); S got; bool threw = false;
    std::vector<char> buf(line.begin(), line.end());
    try { got = meaning(parse_gate(std::string_view(buf.data(), buf.size()))); } catch (const std::exception&) { threw = true; }
    if (threw) { if (want.v == GOOD) c.violation(cat("rejected: ", kind(line), " statement"), cat(line, "\nmeans: ", want.meanings[0])); return; }
    c.count(vf::STATES);
    if (want.v == BAD) { c.violation(cat("accepted: ", kind(line), " statement that is not in the dialect, as ", head(got)), cat(line, "\nread as: ", got)); return; }
    for (auto& m : want.meanings) if (m == got) return;
    c.violation(cat("misread: ", kind(line), " as ", head(got)), cat(line, "\nread as: ", got, "\nmeans:   ", want.meanings[0]));
}

const V names{"x", "y", "z", "s", "t", "h", "sdg", "tdg", "cx", "cz", "rz", "crz", "reset", "qreg", "creg", "barrier", "OPENQASM", "include", "//",
              "X", "id", "sx", "swap", "ccx", "rx", "ry", "rzz", "u1", "cu1", "u3", "p", "measure", "if", "gate", "opaque", "cy", "ch", "tdgx", "xx", "hh", "c", "r", "cr", "", "resets", "qregs", "crzz"};
const V angles{"", "()", "(pi/4)", "(pi/1)", "(pi/2)", "(-pi/8)", "(3*pi/8)", "(-3*pi/16)", "(2*pi/1)", "(3*pi/1)", "(0*pi/4)", "(3*pi)", "(-2*pi)", "(pi)", "(pi*-1)", "(pi/-4)", "(-3*pi/-4)", "(--pi/4)", "(pi/0)", "(pi/)", "(/4)", "(*pi/4)", "(3pi/4)", "(pi/4x)", "(xpi/4)", "(pi/4/2)", "(pi//4)",
               "(3*pi*/4)", "(0.5)", "(1)", "(0)", "(pi/2+pi/4)", "(PI/4)", "pi/4", "(pi/4", "pi/4)", "((pi/4))", "(pi/4))", "(pi/4)(pi/2)", "( pi/4)", "(pi / 4)", "(3*pi /4)", "(3 *pi/4)", "(4611686018427387904*pi/9223372036854775807)", "(9223372036854775808*pi/3)", "(pi/18446744073709551617)", "(1.5*pi/4)", "(pi/1e3)", "(3*4*pi/8)"};
const V operands{"", "q[0]", "q[3]", "q[10]", "r[1]", "q_2x[7]", "q[4294967295]", "q[4294967296]", "q[18446744073709551617]", "q[-1]", "q[+1]", "q[01]", "q[1x]", "q[x]", "q[]", "q[", "q]", "q", "[1]", "1", "q[0]]", "q[[0]]", "q[0]x", "xq[0] y", "q[0]q[1]", "q[0][1]", "q [0]", "q[ 0 ]", " q[0]", "q[0] ", "q(0)", "q{0}", "0q[1]", "q-[1]", "q[1.5]", "q[0x1]", "2.0", "\"qelib1.inc\""};
const V tails{";", "", " ;", ";\r", "; ", ";;", "; // a comment", ";// a comment", "; //", "; // %ZXWithMBMTargetFirst", "; // %AncillaNextToTarget,BellBased", "; // %ZXWithMBMControlFirst,AncillaNextToControl", "; // %AncillaFreePlacement", "; // %bogus", "; //%BellBased", "; % BellBased",
              "; x q[0];", ";x q[0];", "; junk", ": ", ",", "; // x q[0];", " // a comment", "; // %bogus,AncillaNextToTarget,ZXWithMBMTargetFirst", "; // %ZXWithMBMTargetFirst,ZXWithMBMControlFirst"};
const V valid{"x q[0];", "y q[1];", "z q[2];", "s q[0];", "t q[11];", "h q[0];", "sdg q[0];", "tdg q[0];", "reset q[0];", "cx q[0],q[1];", "cx q[0], q[1];", "cz q[1],q[0];", "rz(pi/4) q[0];", "rz(-3*pi/8) q[0];", "rz(2*pi/7) q[3];", "rz(pi/1) q[2];", "crz(pi/4) q[0],q[1];", "crz(-3*pi/4) q[0],q[1];",
              "qreg q[3];", "creg c[3];", "barrier q[0],q[1];", "OPENQASM 2.0;", "include \"qelib1.inc\";", "// note", "  h q[0];", "cx q[0],q[1]; // %BellBased", "cx q[0],q[1]; // %ZXWithMBMTargetFirst,AncillaNextToTarget", "cz q[0],q[1]; // %AncillaNextToControl", "h q[0]; // c"};
}

int main(int argc, char** argv)
{
    auto o = vf::parse_options("C11", argc, argv);
    bool q = o.quick();
    o.rule = "every statement name x angle x up to two operands x tail over alphabets of 45+ names, 49 angles, 38 operand spellings and 25 statement ends (three operands over a reduced alphabet); every one- and two-character edit of 29 valid statements; "
             "every angle of up to 6 (7) tokens over pi * / - + 0 2 3 space; every string of up to 6 (7) characters over 0 1 9 - [ ] , space q in place of an index; every file of up to 5 (6) lines from a menu of 15";
    o.assumptions = {"unusual spacing, a missing semicolon, leading zeros, unary plus, doubled signs, a negative denominator and an undivided multiple of pi may be accepted or refused, but must be read as what they denote",
                     "register names are not compared and the version header is not demanded (both documented)", "the first operand of a controlled gate is its control (OpenQASM)"};
    size_t N = names.size(), A = angles.size(), P = operands.size();
    vf::explore(o, "statements", N * A, [&](vf::Ctx& c, uint64_t u) {
        S h = names[u / A] + angles[u % A];
        one(c, h); for (auto& t : tails) one(c, h + t);
        for (auto& a : operands) { for (auto& t : tails) { one(c, h + " " + a + t); if (t == ";") { one(c, h + a + t); one(c, h + "  " + a + t); one(c, " " + h + " " + a + t); one(c, h + "\t" + a + t); } }
            if (c.stop()) return;
            for (auto& b : operands) { for (auto& t : tails) one(c, h + " " + a + "," + b + t); one(c, h + " " + a + " " + b + ";"); one(c, h + " " + a + ", " + b + ";"); one(c, h + " " + a + " ," + b + ";"); one(c, h + " " + a + ",," + b + ";"); } }
        for (auto a : {1, 2, 15, 17}) for (auto b : {0, 1, 2, 17}) for (auto d : {0, 1, 2, 3, 17}) one(c, h + " " + operands[a] + "," + operands[b] + "," + operands[d] + ";");
        if (u % 307 == 5) c.sample(h + " q[0],q[1];");
    });
    const S edits = "019qpi*/-+()[],;: %\t.xzcr";
    vf::explore(o, "edits", valid.size() * 64, [&](vf::Ctx& c, uint64_t u) {
        auto& v = valid[u / 64]; size_t lane = u % 64;
        if (lane == 0) one(c, v);
        auto each = [&](const S& s, size_t from, size_t to, const std::function<void(const S&, size_t)>& f) { for (size_t i = from; i <= to && i <= s.size(); ++i) { if (i < s.size()) { S d = s; d.erase(i, 1); f(d, i); for (char ch : edits) { S r = s; r[i] = ch; f(r, i); } S w = s; if (i + 1 < s.size()) { std::swap(w[i], w[i + 1]); f(w, i); } f(s.substr(0, i), i); } for (char ch : edits) { S ins = s; ins.insert(i, 1, ch); f(ins, i); } } };
        if (lane > v.size()) return;
        each(v, lane, lane, [&](const S& s, size_t i) { one(c, s); if (c.stop()) return; each(s, i, s.size(), [&](const S& s2, size_t) { one(c, s2); }); });
    });
    const V at{"pi", "*", "/", "-", "+", "0", "2", "3", " ", "1"};
    int alen = q ? 6 : 7;
    vf::explore(o, "angles", at.size() * at.size() * at.size(), [&](vf::Ctx& c, uint64_t u) {
        std::function<void(const S&, int)> go = [&](const S& s, int left) { one(c, "rz(" + s + ") q[0];"); one(c, "crz(" + s + ") q[1],q[0];"); if (left && !c.stop()) for (auto& t : at) go(s + t, left - 1); };
        if (u % 100 == 0) { go(at[u / 100], 0); }
        if (u % 10 == 0) go(at[u / 100] + at[u / 10 % 10], 0);
        go(at[u / 100] + at[u / 10 % 10] + at[u % 10], alen - 3);
    });
    const S ch = "019-[], q";
    int ilen = q ? 6 : 7;
    vf::explore(o, "indices", ch.size() * ch.size(), [&](vf::Ctx& c, uint64_t u) {
        std::function<void(const S&, int)> go = [&](const S& s, int left) { one(c, "h q[" + s + "];"); one(c, "h " + s + ";"); one(c, "cx q[" + s + "],q[1];"); one(c, "qreg q[" + s + "];"); one(c, "reset " + s + "q[0];"); if (left && !c.stop()) for (char x : ch) go(s + x, left - 1); };
        if (u % ch.size() == 0) go(S(1, ch[u / ch.size()]), 0);
        go(S{ch[u / ch.size()], ch[u % ch.size()]}, ilen - 2);
    });
    // files
    const V menu{"qreg q[3];", "OPENQASM 2.0;", "x q[0];", "h q[2];", "cx q[1],q[2]; // %BellBased", "rz(pi/8) q[1];", "rz(2*pi/1) q[1];", "", "   ", "// c", "h q[3];", "cx q[0],q[3];", "bogus q[0];", "h q[1];\r", "\r"};
    int fl = q ? 5 : 6; size_t M = menu.size();
    vf::explore(o, "files", M * M, [&](vf::Ctx& c, uint64_t u) {
        std::function<void(std::vector<int>)> go = [&](std::vector<int> f) {
            for (int tail = 0; tail < 2; ++tail) {
                S text; for (size_t i = 0; i < f.size(); ++i) text += menu[f[i]] + (i + 1 < f.size() || tail ? "\n" : "");
                c.begin(text); c.count(vf::TRACES); c.count(vf::EVALS);
                V want; bool bad = false, reg = false, maybe = false; // bad: the file must be rejected
                for (int i : f) { auto w = recognise(menu[i]); if (w.v == BAD) { bad = true; break; } if (w.v == EITHER) maybe = true; auto& m = w.meanings[0]; if (w.is_qreg) { if (reg) { bad = true; break; } reg = true; continue; } if (m == "nothing") continue; if (!reg || w.top >= 3) { bad = true; break; } want.push_back(m); }
                if (!reg) bad = true;
                V got; bool threw = false; S why;
                try { std::istringstream in(text); GateStreamFromFile s(in); if (s.get_qreg().size != 3 || s.get_qreg().name != "q") c.violation("file: wrong register", text); while (s.has_next_gate()) { got.push_back(meaning(s.get_next_gate())); c.count(vf::TRANSITIONS); if (got.size() > 20) break; } }
                catch (const std::exception& e) { threw = true; why = e.what(); }
                S g, w; for (auto& x : got) g += x + "\n"; for (auto& x : want) w += x + "\n";
                S d = cat(text, "\n-- read as:\n", g, threw ? "then refused: " + why : S{}, "\n-- means:\n", w, bad ? "then not in the dialect" : "");
                if (bad && !threw) c.violation("file: malformed program accepted", d);
                else if (!bad && threw && !maybe) c.violation("file: valid program refused", d);
                else if (!threw && got != want) c.violation("file: wrong gates", d);
                else if (threw && (got.size() > want.size() || !std::equal(got.begin(), got.end(), want.begin()))) c.violation("file: wrong gates before an error", d);
            }
            if ((int)f.size() < fl && !c.stop()) for (size_t i = 0; i < M; ++i) { auto g = f; g.push_back((int)i); go(g); }
        };
        if (u == 0) { int keep = fl; fl = 0; go({}); fl = keep; }
        if (u % M == 0) { std::vector<int> f{(int)(u / M)}; int keep = fl; fl = 1; go(f); fl = keep; }
        go({(int)(u / M), (int)(u % M)});
    });
    return vf::finish(o);
}
