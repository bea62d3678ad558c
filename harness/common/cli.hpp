// The command line program, called in process.
#pragma once
#include <lsqecc/pipelines/slicer.hpp>
#include <sstream>
#include <iostream>
#include <string>
#include <vector>
#include <streambuf>

namespace vf {
struct CliResult { int code = 0; bool threw = false; std::string what, out, err, console; // console: written to the process's own standard output
    bool ok() const { return !threw && code == 0; }
    bool operator==(const CliResult&) const = default; };

// A stream that cannot be rewound, like a pipe.
class PipeBuf : public std::streambuf {
    std::string s_; size_t chunk_, pos_ = 0;
public:
    PipeBuf(std::string s, size_t chunk = 7) : s_(std::move(s)), chunk_(chunk) {}
    int_type underflow() override { if (pos_ >= s_.size()) return traits_type::eof(); size_t n = std::min(chunk_, s_.size() - pos_); setg(&s_[pos_], &s_[pos_], &s_[pos_] + n); pos_ += n; return traits_type::to_int_type(*gptr()); }
};

inline std::vector<std::string> words(const std::string& s) { std::istringstream i(s); std::vector<std::string> v; std::string w; while (i >> w) v.push_back(w); return v; }

// What an uninitialised variable would hold is part of the environment: the stack is filled before each run.
inline int stack_fill = 0;
__attribute__((noinline)) inline void fill_stack() { volatile char a[96 * 1024]; for (size_t i = 0; i < sizeof a; ++i) a[i] = (char)stack_fill; }

inline CliResult run_cli(const std::vector<std::string>& args, const std::string& input, bool pipe = false)
{
    std::vector<const char*> argv{"lsqecc_slicer"}; for (auto& a : args) argv.push_back(a.c_str());
    CliResult r; std::ostringstream out, err, con;
    auto* old = std::cout.rdbuf(con.rdbuf());
    PipeBuf pb(input); std::istringstream is(input); std::istream pin(&pb);
    fill_stack();
    try { r.code = lsqecc::run_slicer_program((int)argv.size(), argv.data(), pipe ? pin : is, out, err); }
    catch (const std::exception& e) { r.threw = true; r.what = e.what(); }
    catch (...) { r.threw = true; r.what = "unknown exception"; }
    std::cout.rdbuf(old);
    r.out = out.str(); r.err = err.str(); r.console = con.str(); return r;
}
inline CliResult run_cli(const std::string& args, const std::string& input, bool pipe = false) { return run_cli(words(args), input, pipe); }
}
