// C10: the lattice-surgery text format. Every line over a token alphabet up to a length, and every short string inside an
// argument, against an independent recogniser; every instruction printed and read back; every short file of lines.
#include "common/runner.hpp"
#include <lsqecc/ls_instructions/ls_instructions.hpp>
#include <lsqecc/ls_instructions/ls_instructions_parse.hpp>
#include <lsqecc/ls_instructions/ls_instruction_stream.hpp>
#include <optional>
#include <map>
#include <set>
#include <sstream>

using namespace lsqecc;
using vf::cat;

namespace {
// ---------- the format, read independently ---------------------------------------------------------------------------
enum Verdict { BAD, GOOD, EITHER };
struct Parsed { Verdict v = BAD; std::string meaning; };
using S = std::string; using V = std::vector<S>;

V split(const S& s, char d) { V v(1); for (char c : s) if (c == d) v.emplace_back(); else v.back() += c; return v; }
std::optional<S> id(const S& s) // canonical decimal, up to 2^32-1
{
    if (s.empty() || s.size() > 11) return {}; uint64_t x = 0; for (char c : s) { if (c < '0' || c > '9') return {}; x = x * 10 + (c - '0'); }
    if (x > 0xffffffffull) return {}; return cat(x);
}
bool pauli(const S& s) { return s == "X" || s == "Y" || s == "Z"; }
// id:op
std::optional<S> place(const S& s, bool& lenient) { auto p = split(s, ':'); if (p.size() != 2) return {}; auto i = id(p[0]); if (!i) return {}; if (p[1] == "I") lenient = true; else if (!pauli(p[1])) return {}; return *i + ":" + p[1]; }

Parsed recognise(S line)
{
    Parsed r; bool lenient = false;
    // Blanks around and between arguments may be tolerated or refused.
    V t; { S cur; bool odd = false; for (char& c : line) if (c == '\r' || c == '\t') { c = ' '; odd = true; } for (auto& p : split(line, ' ')) { if (p.empty()) odd = true; else t.push_back(p); } if (odd) lenient = true; }
    if (t.empty()) return r;
    auto n = t[0]; auto args = V(t.begin() + 1, t.end());
    auto ids = [&](size_t k) -> std::optional<V> { if (args.size() != k) return {}; V v; for (auto& a : args) { auto i = id(a); if (!i) return {}; v.push_back(*i); } return v; };
    auto good = [&](S m) { r.v = lenient ? EITHER : GOOD; r.meaning = m; };
    if (n == "DeclareLogicalQubitPatches") {
        if (args.size() != 1) return r; S m = "declare"; std::set<S> seen; for (auto& e : split(args[0], ',')) { auto i = id(e); if (!i) return r; if (seen.insert(*i).second) m += " " + *i; else lenient = true; } good(m);
    } else if (n == "Init" || n == "0") {
        if (args.size() < 2 || args.size() > 3) return r; auto i = id(args[0]); if (!i) return r;
        S st = args[1] == "|0>" || args[1] == "0" ? "0" : args[1] == "|+>" || args[1] == "+" ? "+" : ""; if (st.empty()) return r;
        S m = "init " + *i + " " + st; if (args.size() == 3) { auto p = place(args[2], lenient); if (!p) return r; m += " at " + *p; } good(m);
    } else if (n == "MeasureSinglePatch" || n == "1") {
        if (args.size() != 2) return r; auto i = id(args[0]); if (!i) return r; S o = args[1]; bool neg = o.size() && o[0] == '-'; if (neg) o = o.substr(1);
        if (o == "I") lenient = true; else if (!pauli(o)) return r; good(cat("measure ", *i, " ", neg ? "-" : "", o));
    } else if (n == "MultiBodyMeasure" || n == "2") {
        if (args.size() != 1) return r; S a = args[0]; bool neg = a.size() && a[0] == '-'; if (neg) a = a.substr(1);
        S m = cat("multi ", neg ? "-" : ""); std::set<S> seen; for (auto& e : split(a, ',')) { auto p = place(e, lenient); if (!p) return r; if (!seen.insert(p->substr(0, p->find(':'))).second) return r; m += " " + *p; } good(m);
    } else if (n == "RequestMagicState" || n == "3") { if (auto v = ids(2)) good("magic " + (*v)[0] + " near " + (*v)[1]); }
    else if (n == "RequestYState" || n == "9") { if (auto v = ids(2)) good("ystate " + (*v)[0] + " near " + (*v)[1]); }
    else if (n == "LogicalPauli" || n == "4") { if (args.size() != 2) return r; auto i = id(args[0]); if (!i || !pauli(args[1])) return r; good("gate " + args[1] + " " + *i); }
    else if (n == "XGate" || n == "YGate" || n == "ZGate") { if (auto v = ids(1)) good(cat("gate ", n[0], " ", (*v)[0])); }
    else if (n == "HGate" || n == "5") { if (auto v = ids(1)) good("gate H " + (*v)[0]); }
    else if (n == "SGate" || n == "6") { if (auto v = ids(1)) good("gate S " + (*v)[0]); }
    else if (n == "RotateSingleCellPatch" || n == "7") { if (auto v = ids(1)) good("rotate " + (*v)[0]); }
    else if (n == "Reset") { if (auto v = ids(1)) good("reset " + (*v)[0]); }
    else if (n == "BellPairInit" || n == "8") {
        if (args.size() != 3) return r; auto a = id(args[0]), b = id(args[1]); if (!a || !b) return r; auto l = split(args[2], ','); if (l.size() != 2) return r;
        auto p = place(l[0], lenient), q = place(l[1], lenient); if (!p || !q) return r; good("bell " + *a + " " + *b + " " + *p + " " + *q);
    } else if (n == "BellBasedCNOT" || n == "10") { if (auto v = ids(4)) good("cnot " + (*v)[0] + " " + (*v)[1] + " " + (*v)[2] + " " + (*v)[3]); }
    return r;
}

const char* P(PauliOperator p) { return p == PauliOperator::I ? "I" : p == PauliOperator::X ? "X" : p == PauliOperator::Y ? "Y" : p == PauliOperator::Z ? "Z" : "?"; }
S meaning(const LSInstruction& i)
{
    return std::visit([](const auto& o) -> S { using X = std::decay_t<decltype(o)>;
        if constexpr (std::is_same_v<X, DeclareLogicalQubitPatches>) { S s = "declare"; for (auto p : o.patch_ids) s += cat(" ", p); return s; }
        else if constexpr (std::is_same_v<X, SinglePatchMeasurement>) return cat("measure ", o.target, " ", o.is_negative ? "-" : "", P(o.observable));
        else if constexpr (std::is_same_v<X, MultiPatchMeasurement>) { S s = cat("multi ", o.is_negative ? "-" : ""); for (auto& [p, op] : o.observable) s += cat(" ", p, ":", P(op)); return o.local_instruction ? s + " local" : s; }
        else if constexpr (std::is_same_v<X, PatchInit>) { S s = cat("init ", o.target, " ", o.state == PatchInit::InitializeableStates::Zero ? "0" : "+"); if (o.place_next_to) s += cat(" at ", o.place_next_to->target, ":", P(o.place_next_to->op)); return s; }
        else if constexpr (std::is_same_v<X, BellPairInit>) return cat("bell ", o.side1, " ", o.side2, " ", o.loc1.target, ":", P(o.loc1.op), " ", o.loc2.target, ":", P(o.loc2.op), o.local_instructions || o.counter ? " local" : "");
        else if constexpr (std::is_same_v<X, MagicStateRequest>) return cat("magic ", o.target, " near ", o.near_patch);
        else if constexpr (std::is_same_v<X, YStateRequest>) return cat("ystate ", o.target, " near ", o.near_patch, o.local_instruction ? " local" : "");
        else if constexpr (std::is_same_v<X, SingleQubitOp>) { using O = SingleQubitOp::Operator; return cat("gate ", o.op == O::X ? "X" : o.op == O::Y ? "Y" : o.op == O::Z ? "Z" : o.op == O::H ? "H" : o.op == O::S ? "S" : "?", " ", o.target, o.is_dagger ? " dagger" : ""); }
        else if constexpr (std::is_same_v<X, RotateSingleCellPatch>) return cat("rotate ", o.target);
        else if constexpr (std::is_same_v<X, BellBasedCNOT>) return cat("cnot ", o.control, " ", o.target, " ", o.side1, " ", o.side2, o.route || o.counter_pairs || o.local_instruction_sets || o.current_phase ? " local" : "");
        else if constexpr (std::is_same_v<X, PatchReset>) return cat("reset ", o.target);
        else return "placeholder";
    }, i.operation);
}

void one(vf::Ctx& c, const S& line)
{
    c.begin(cat("line: '", line, "'"));
    auto want = recognise(line);
    S got; bool threw = false;
    LSInstruction ins{.operation = PatchReset{0}};
    // an exact-size heap copy, so that reading past the end of the line is a read past an allocation
    std::vector<char> buf(line.begin(), line.end());
    try { ins = parse_ls_instruction(std::string_view(buf.data(), buf.size())); got = meaning(ins); } catch (const std::exception&) { threw = true; }
    c.count(vf::TRACES); c.count(vf::EVALS);
    auto head = line.substr(0, line.find(' '));
    if (want.v == GOOD && threw) { c.violation(cat("rejected: ", want.meaning.substr(0, want.meaning.find(' ')), " as ", head), line); return; }
    if (threw) return;
    c.count(vf::STATES);
    if (want.v == BAD) { c.violation(cat("accepted: ", head, " line that is not an instruction, as ", got.substr(0, got.find(' '))), cat(line, "\nread as: ", got)); return; }
    if (got != want.meaning) { c.violation(cat("misread: ", head), cat(line, "\nread as: ", got, "\nmeans:   ", want.meaning)); return; }
    // clients: nobody outside the patches the line names
    for (auto p : ins.clients) if ((" " + split(line, ':')[0] + line).find(cat(p)) == S::npos) c.violation(cat("client from nowhere: ", head), cat(line, " waits for ", p));
    // print and read back
    S printed = cat(ins);
    c.note(cat(" printed: '", printed, "'")); c.count(vf::TRANSITIONS);
    try { auto again = parse_ls_instruction(printed); if (!(again == ins) || meaning(again) != got) c.violation(cat("round trip changes: ", head), cat(line, "\nprinted: ", printed, "\nread back as: ", meaning(again))); }
    catch (const std::exception& e) { c.violation(cat("round trip refused: ", head), cat(line, "\nprinted: ", printed, "\n", e.what())); }
}

const V names{"DeclareLogicalQubitPatches", "Init", "MeasureSinglePatch", "MultiBodyMeasure", "RequestMagicState", "LogicalPauli", "HGate", "SGate", "RotateSingleCellPatch", "BellPairInit", "RequestYState", "BellBasedCNOT",
              "XGate", "YGate", "ZGate", "Reset", "0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "10", "11", "Gate", "init", "BusyRegion", "TGate", "SdgGate", "Measure", "MultiPatchMeasure", "DeclareLogicalQubitPatch", "HGates", "H", ""};
const V tokens{"0", "7", "42", "4294967295", "4294967296", "-1", "+1", "1x", "x1", "01", "1.5", "0x10", "X", "Y", "Z", "I", "-X", "-Z", "+X", "x", "XX", "|0>", "|+>", "+", "|1>", "|->", "0:X", "3:Z", "0:X,3:Z", "3:Z,0:X", "5:Y,0:X,3:Z", "0:X,0:Z", "0:X,0:X", "-0:X,3:Z", "-0:X", "0:X,-3:Z",
               "0:-X", "0:X,", ",0:X", "0:X,,3:Z", "0:X:Z", "0:X:", ":X", "0:", "0", ":", ",", "0,1", "1,0,2", "0,0", "0,", ",0", "0,,1", "0,x", "[BellMeasure", "0:H", "0: X", "", "//", "#", "next", "4294967296:X", "-1:X,0:Z", "1x:X"};
}

int main(int argc, char** argv)
{
    auto o = vf::parse_options("C10", argc, argv);
    bool q = o.quick();
    o.rule = "every line made of one of the names (and near misses) followed by up to 3 (4) of 60 argument tokens, for the four-argument instructions over a reduced alphabet up to 5 arguments; "
             "every string up to 6 (7) characters over '0','1',':',',','X','Z','-' as measurement dictionary, Bell pair locations, declaration, placement and identifier; every accepted line printed and read back; "
             "every file of up to 5 (6) lines over valid, blank, and broken lines through the stream and the in-memory reader";
    o.assumptions = {"blank space around arguments (leading, doubled, trailing, tabs, carriage returns) and the identity operator in measurements may be accepted or refused, but must not change the meaning",
                     "naming a patch twice in a declaration may be accepted as the same set or refused"};
    size_t A = tokens.size();
    int maxargs = q ? 3 : 3;
    vf::explore(o, "lines over the token alphabet", names.size() * (A + 1), [&](vf::Ctx& c, uint64_t u) {
        auto& n = names[u / (A + 1)]; size_t f = u % (A + 1);
        if (f == A) { one(c, n); one(c, n + " "); return; }
        S l1 = n + " " + tokens[f]; one(c, l1); one(c, l1 + " "); one(c, " " + l1); one(c, l1 + "\r"); one(c, l1 + "\t");
        for (size_t a = 0; a < A && !c.stop(); ++a) { S l2 = l1 + " " + tokens[a]; one(c, l2); one(c, l2 + "\r"); if (maxargs >= 3) for (size_t b = 0; b < A; ++b) { S l3 = l2 + " " + tokens[b]; one(c, l3); } }
        if (u % 211 == 7) c.sample(l1);
    });
    V few{"0", "7", "1x", "-1", "X", "|0>", "0:X", "0:X,3:Z", "", "4294967296"};
    size_t F = few.size();
    vf::explore(o, "lines of four and five arguments", names.size() * F, [&](vf::Ctx& c, uint64_t u) {
        S l0 = names[u / F] + " " + few[u % F];
        for (auto& a : few) for (auto& b : few) for (auto& d : few) { S l4 = l0 + " " + a + " " + b + " " + d; one(c, l4); for (auto& e : few) one(c, l4 + " " + e); }
    });
    const S chars = "01:,XZ-";
    int len = q ? 6 : 7;
    const V shells{"MultiBodyMeasure @", "BellPairInit 8 9 @", "DeclareLogicalQubitPatches @", "Init 8 |0> @", "HGate @", "MeasureSinglePatch @ X", "MeasureSinglePatch 8 @"};
    vf::explore(o, "strings inside an argument", shells.size() * chars.size() * chars.size(), [&](vf::Ctx& c, uint64_t u) {
        auto& sh = shells[u / (chars.size() * chars.size())]; size_t k = u % (chars.size() * chars.size());
        auto fill = [&](const S& x) { S l = sh; l.replace(l.find('@'), 1, x); one(c, l); };
        S start{chars[k / chars.size()], chars[k % chars.size()]};
        if (k % chars.size() == 0) fill(S(1, start[0]));
        std::function<void(S)> go = [&](S s) { fill(s); if ((int)s.size() < len && !c.stop()) for (char ch : chars) go(s + ch); };
        go(start);
    });
    vf::explore(o, "dictionaries of up to four entries", 1, [&](vf::Ctx& c, uint64_t) {
        V e; for (auto i : {"0", "1", "12", "4294967295"}) for (auto p : {"X", "Y", "Z"}) e.push_back(cat(i, ":", p));
        for (auto& sign : {"", "-"}) for (auto& a : e) for (auto& b : e) { one(c, cat("MultiBodyMeasure ", sign, a, ",", b)); one(c, cat("BellPairInit 5 6 ", a, ",", b));
            for (auto& d : e) { one(c, cat("MultiBodyMeasure ", sign, a, ",", b, ",", d)); one(c, cat("BellPairInit 5 6 ", a, ",", b, ",", d)); for (auto& f : e) one(c, cat("2 ", sign, a, ",", b, ",", d, ",", f)); } }
    });
    // files
    const V lines{"DeclareLogicalQubitPatches 0,1", "HGate 0", "MultiBodyMeasure 0:X,1:Z", "MeasureSinglePatch 1 Z", "", " ", "\r", "HGate 0 0", "bogus"};
    int fl = q ? 5 : 6;
    vf::explore(o, "files", lines.size() * lines.size(), [&](vf::Ctx& c, uint64_t u) {
        std::function<void(std::vector<int>)> go = [&](std::vector<int> f) {
            for (int tail = 0; tail < 2; ++tail) {
                S text; for (size_t i = 0; i < f.size(); ++i) text += lines[f[i]] + (i + 1 < f.size() || tail ? "\n" : "");
                c.begin(cat("file: ", text)); c.count(vf::TRACES); c.count(vf::EVALS);
                // what it says
                V want; bool bad = false, redecl = false, blanks = false; S decl; 
                for (int i : f) { if (lines[i].empty()) continue; if (lines[i] == " " || lines[i] == "\r") { blanks = true; continue; } auto r = recognise(lines[i]); if (r.v == BAD) { bad = true; } else if (i == 0 && decl.empty()) decl = r.meaning; else { if (i == 0) redecl = true; want.push_back(r.meaning); } }
                bool first_ok = false; for (int i : f) { if (i == 4 || i == 5 || i == 6) continue; first_ok = i == 0; break; }
                (void)blanks;
                // stream
                V got; S gotdecl; bool threw = false;
                try { std::istringstream is(text); LSInstructionStreamFromFile s(is); gotdecl = "declare"; for (auto p : s.core_qubits()) gotdecl += cat(" ", p); while (s.has_next_instruction()) got.push_back(meaning(s.get_next_instruction())); } catch (const std::exception&) { threw = true; }
                if (bad || !first_ok) { if (!threw) c.violation(cat("stream accepts a bad file", bad ? " (bad line)" : " (no declaration first)"), text); }
                else if (threw) { if (!redecl) c.violation("stream refuses a good file", text); }
                else if (!redecl && (got != want || gotdecl != decl)) { S g; for (auto& x : got) g += x + "\n"; c.violation("stream misreads a file", cat(text, "\nread as:\n", gotdecl, "\n", g)); }
                // in memory
                got.clear(); gotdecl = ""; threw = false;
                try { auto m = parse_ls_instructions(text); gotdecl = "declare"; for (auto p : m.core_qubits) gotdecl += cat(" ", p); for (auto& i : m.instructions) got.push_back(meaning(i)); } catch (const std::exception&) { threw = true; }
                if (bad || redecl) { if (!threw) c.violation("reader accepts a bad file", text); }
                else if (threw) c.violation("reader refuses a good file", text);
                else if (got != want || gotdecl != (decl.empty() ? "declare" : decl)) c.violation("reader misreads a file", text);
            }
            if ((int)f.size() < fl && !c.stop()) for (int i = 0; i < (int)lines.size(); ++i) { auto g = f; g.push_back(i); go(g); }
        };
        go({int(u / lines.size()), int(u % lines.size())});
    });
    return vf::finish(o);
}
