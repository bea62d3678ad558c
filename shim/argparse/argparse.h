// Stand-in for the (absent) jamolnng/argparse submodule: the subset of its interface the repository uses.
#ifndef VERIF_SHIM_ARGPARSE_H
#define VERIF_SHIM_ARGPARSE_H
#include <algorithm>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <type_traits>
#include <vector>
namespace argparse {
class ArgumentParser {
public:
    class Argument {
    public:
        Argument& names(std::vector<std::string> n) { names_ = std::move(n); return *this; }
        Argument& name(const std::string& n) { names_.push_back(n); return *this; }
        Argument& description(const std::string& d) { desc_ = d; return *this; }
        Argument& required(bool r) { required_ = r; return *this; }
        std::vector<std::string> names_; std::string desc_; bool required_ = false;
        bool found_ = false; std::vector<std::string> values_;
    };
    class Result {
    public:
        Result() = default;
        explicit Result(std::string e) : error_(true), what_(std::move(e)) {}
        operator bool() const { return error_; }
        const std::string& what() const { return what_; }
        friend std::ostream& operator<<(std::ostream& os, const Result& r) { return os << r.what_; }
    private: bool error_ = false; std::string what_;
    };
    ArgumentParser(std::string bin, std::string desc) : bin_(std::move(bin)), desc_(std::move(desc)) {}
    Argument& add_argument() { args_.push_back(std::make_unique<Argument>()); return *args_.back(); }
    Argument& add_argument(const std::string& s, const std::string& l, const std::string& d, bool req = false)
    { return add_argument().names({s, l}).description(d).required(req); }
    void enable_help() { add_argument("-h", "--help", "Shows this page", false); }
    void print_help() const {
        std::cout << "Usage: " << bin_ << " [options...]\n" << desc_ << "\nOptions:\n";
        for (const auto& a : args_) { std::cout << "    "; for (const auto& n : a->names_) std::cout << n << " "; std::cout << " " << a->desc_ << "\n"; }
    }
    Result parse(int argc, const char* const* argv) {
        Argument* cur = nullptr;
        for (int i = 1; i < argc; ++i) {
            std::string s = argv[i];
            const bool looks_like_flag = s.size() > 1 && s[0] == '-' && !(s.size() > 1 && (isdigit(static_cast<unsigned char>(s[1])) || s[1] == '.'));
            if (looks_like_flag) {
                std::string value; bool has_value = false; auto eq = s.find('=');
                if (eq != std::string::npos) { value = s.substr(eq + 1); s = s.substr(0, eq); has_value = true; }
                cur = find(strip(s));
                if (!cur) return Result{"Unrecognized argument: " + s};
                cur->found_ = true;
                if (has_value) cur->values_.push_back(value);
            } else {
                if (!cur) return Result{"Unexpected value: " + s};
                cur->values_.push_back(s);
            }
        }
        if (!(find("help") && find("help")->found_))
            for (const auto& a : args_) if (a->required_ && !a->found_) return Result{"Required argument not found: " + (a->names_.empty() ? std::string{} : a->names_[0])};
        return Result{};
    }
    bool exists(const std::string& name) { Argument* a = find(strip(name)); return a && a->found_; }
    template<class T> T get(const std::string& name) {
        Argument* a = find(strip(name));
        if (!a || a->values_.empty()) return T{};
        if constexpr (std::is_same_v<T, std::string>) {
            std::string r; for (size_t i = 0; i < a->values_.size(); ++i) { if (i) r += ' '; r += a->values_[i]; } return r;
        } else { std::istringstream is(a->values_[0]); T t{}; is >> t; return t; }
    }
private:
    static std::string strip(const std::string& s) { auto p = s.find_first_not_of('-'); return p == std::string::npos ? std::string{} : s.substr(p); }
    Argument* find(const std::string& stripped) {
        for (const auto& a : args_) for (const auto& n : a->names_) if (strip(n) == stripped) return a.get();
        return nullptr;
    }
    std::string bin_, desc_; std::vector<std::unique_ptr<Argument>> args_;
};
}
#endif
