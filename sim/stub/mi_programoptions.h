// Stand-in for the mi-programoptions library, which is not installed here: just enough to build fimex' programs for the simulation.
#pragma once
#include <algorithm>
#include <fstream>
#include <map>
#include <ostream>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
namespace miutil {
namespace program_options {
typedef std::vector<std::string> string_v;
struct option_error : std::runtime_error { using std::runtime_error::runtime_error; };
class option
{
public:
    option(const std::string& key, const std::string&) : keys_{key} {}
    option& add_key(const std::string& k) { keys_.push_back(k); return *this; }
    option& set_shortkey(const std::string& k) { short_ = k; return *this; }
    option& set_narg(int n) { narg_ = n; return *this; }
    option& set_composing() { composing_ = true; return *this; }
    option& set_default_value(const std::string& v) { default_ = v; has_default_ = true; return *this; }
    option& set_implicit_value(const std::string& v) { implicit_ = v; has_implicit_ = true; return *this; }
    const std::string& key() const { return keys_.front(); }
    std::vector<std::string> keys_;
    std::string short_, default_, implicit_;
    int narg_ = 1;
    bool composing_ = false, has_default_ = false, has_implicit_ = false;
};
typedef const option* option_cx;
class value_set
{
public:
    bool is_set(option_cx o) const { return o && v_.count(o->key()); }
    bool is_set(const option& o) const { return is_set(&o); }
    const std::string& value(option_cx o) const { auto it = v_.find(o->key()); if (it != v_.end()) return it->second.second.back(); if (o->has_default_) return o->default_; throw option_error("no value for " + o->key()); }
    const std::string& value(const option& o) const { return value(&o); }
    const string_v& values(option_cx o) const { auto it = v_.find(o->key()); if (it == v_.end()) throw option_error("no values for " + o->key()); return it->second.second; }
    const string_v& values(const option& o) const { return values(&o); }
    option_cx find(const std::string& k) const { auto it = v_.find(k); return it == v_.end() ? nullptr : it->second.first; }
    void put(option_cx o, const std::string& s) { auto& e = v_[o->key()]; e.first = o; if (!e.second.empty() && !o->composing_) throw option_error("repeated " + o->key()); e.second.push_back(s); }
    void add(const value_set& b) { for (auto& i : b.v_) { auto& e = v_[i.first]; if (e.second.empty()) e = i.second; else if (i.second.first->composing_) e.second.insert(e.second.end(), i.second.second.begin(), i.second.second.end()); } }
private:
    std::map<std::string, std::pair<option_cx, string_v>> v_;
};
class option_set
{
public:
    option_set& operator<<(const option& o) { o_.push_back(&o); return *this; }
    void help(std::ostream& out) const { for (auto o : o_) out << "--" << o->key() << "\n"; }
    void dump(std::ostream&, const value_set&) const {}
    option_cx by_key(const std::string& k) const { for (auto o : o_) if (std::find(o->keys_.begin(), o->keys_.end(), k) != o->keys_.end()) return o; return nullptr; }
    option_cx by_short(const std::string& k) const { for (auto o : o_) if (!o->short_.empty() && o->short_ == k) return o; return nullptr; }
private:
    std::vector<option_cx> o_;
};
inline value_set parse_command_line(int argc, char* args[], const option_set& os, string_v& positional)
{
    value_set vm;
    for (int i = 1; i < argc; i++) {
        std::string a = args[i], val;
        bool has = false;
        option_cx o = nullptr;
        if (a.size() > 2 && a.compare(0, 2, "--") == 0) {
            a = a.substr(2);
            const size_t e = a.find('=');
            if (e != std::string::npos) val = a.substr(e + 1), a = a.substr(0, e), has = true;
            o = os.by_key(a);
        } else if (a.size() > 1 && a[0] == '-') {
            o = os.by_short(a.substr(1, 1));
            if (a.size() > 2) val = a.substr(2), has = true;
        } else {
            positional.push_back(a);
            continue;
        }
        if (!o) throw option_error("unknown option " + a);
        if (!has && o->narg_ > 0) {
            if (o->has_implicit_ && (i + 1 >= argc || args[i + 1][0] == '-')) val = o->implicit_;
            else if (i + 1 < argc) val = args[++i];
            else throw option_error("missing value for " + a);
        }
        vm.put(o, val);
    }
    return vm;
}
inline value_set parse_config_file(const std::string& file, const option_set& os)
{
    value_set vm;
    std::ifstream in(file);
    if (!in) throw option_error("cannot read " + file);
    std::string line, section;
    while (std::getline(in, line)) {
        if (line.empty() || line[0] == '#') continue;
        if (line[0] == '[') { section = line.substr(1, line.find(']') - 1) + "."; continue; }
        const size_t e = line.find('=');
        std::string k = section + line.substr(0, e);
        option_cx o = os.by_key(k);
        if (!o) throw option_error("unknown option " + k);
        vm.put(o, e == std::string::npos ? "" : line.substr(e + 1));
    }
    return vm;
}
class positional_args_consumer
{
public:
    positional_args_consumer(value_set& vm, const string_v& p) : vm_(vm), p_(p) {}
    bool done() const { return i_ >= p_.size(); }
    positional_args_consumer& operator>>(const option& o) { if (!done() && (o.composing_ || !vm_.is_set(o))) vm_.put(&o, p_[i_++]); return *this; }
    void dump(std::ostream&) const {}
private:
    value_set& vm_;
    string_v p_;
    size_t i_ = 0;
};
} // namespace program_options
} // namespace miutil
