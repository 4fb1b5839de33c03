// Shared by the harnesses: a JSON writer whose reals always read back as reals,
// a seeded generator, and small conveniences. Records go to the file named in
// argv[2], one JSON object per line; argv[1] is the mode.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <random>
#include <sstream>
#include <string>
#include <utility>
#include <vector>

struct J {
    std::string s;
    J() = default;
    explicit J(std::string t) : s(std::move(t)) {}
};

inline std::string num(double v) {
    if (std::isnan(v)) return "\"nan\"";
    if (std::isinf(v)) return v > 0 ? "\"inf\"" : "\"-inf\"";
    char b[40];
    snprintf(b, sizeof b, "%.17g", v);
    if (!strpbrk(b, ".e")) strcat(b, ".0");
    return b;
}
inline std::string js(double v) { return num(v); }
inline std::string js(bool v) { return v ? "true" : "false"; }
inline std::string js(int v) { return std::to_string(v); }
inline std::string js(unsigned v) { return std::to_string(v); }
inline std::string js(long v) { return std::to_string(v); }
inline std::string js(size_t v) { return std::to_string(v); }
inline std::string js(const J& v) { return v.s; }
inline std::string js(const std::string& v) {
    std::string o = "\"";
    for (char c : v) {
        if (c == '"' || c == '\\') o += '\\';
        if (c == '\n') { o += "\\n"; continue; }
        if (c == '\t') { o += "\\t"; continue; }
        if (c == '\r') { o += "\\r"; continue; }
        o += c;
    }
    return o + "\"";
}
inline std::string js(const char* v) { return js(std::string(v)); }
template <class A, class B>
std::string js(const std::pair<A, B>& p) {
    return "[" + js(p.first) + "," + js(p.second) + "]";
}
template <class T>
std::string js(const std::vector<T>& v) {
    std::string o = "[";
    bool first = true;
    for (const T& x : v) {
        if (!first) o += ',';
        first = false;
        o += js(x);
    }
    return o + "]";
}

class Rec {
    std::string s_ = "{";
    bool first_ = true;

  public:
    Rec() = default;
    explicit Rec(const char* kind) { put("k", kind); }
    template <class T>
    Rec& put(const char* key, const T& v) {
        if (!first_) s_ += ',';
        first_ = false;
        s_ += '"';
        s_ += key;
        s_ += "\":";
        s_ += js(v);
        return *this;
    }
    J json() const { return J(s_ + "}"); }
    std::string str() const { return s_ + "}"; }
};

class Out {
    FILE* f_;

  public:
    long n = 0;
    explicit Out(const char* path) : f_(fopen(path, "w")) {
        if (!f_) {
            perror(path);
            exit(3);
        }
    }
    ~Out() { fclose(f_); }
    void operator()(const Rec& r) {
        std::string s = r.str();
        fwrite(s.data(), 1, s.size(), f_);
        fputc('\n', f_);
        ++n;
    }
};

inline long envInt(const char* k, long d) {
    const char* v = getenv(k);
    return v && *v ? atol(v) : d;
}
inline std::string envStr(const char* k, const std::string& d) {
    const char* v = getenv(k);
    return v && *v ? v : d;
}

struct Rng {
    std::mt19937_64 g;
    explicit Rng(uint64_t salt) : g(envInt("VERIF_SEED", 1) * 1000003ULL + salt) {}
    double u(double a, double b) { return std::uniform_real_distribution<double>(a, b)(g); }
    int i(int a, int b) { return std::uniform_int_distribution<int>(a, b)(g); }
    bool p(double q) { return u(0, 1) < q; }
    template <class T>
    const T& pick(const std::vector<T>& v) { return v[i(0, int(v.size()) - 1)]; }
};
// other numbers, without using up any of r's
inline Rng aside(const Rng& r, uint64_t salt) {
    Rng c = r, o(salt);
    o.g.seed(c.g() ^ (salt * 7919));
    return o;
}
inline bool thorough() { return envStr("VERIF_TIER", "quick") == "thorough"; }

// ---- a small JSON reader for the cases the specification generates
struct JV {
    enum T { Null, Bool, Num, Str, Arr, Obj } t = Null;
    double d = 0;
    std::string s;
    std::vector<JV> a;
    std::map<std::string, JV> o;
    const JV& operator[](const char* k) const {
        auto it = o.find(k);
        if (it == o.end()) {
            fprintf(stderr, "case has no field %s\n", k);
            exit(3);
        }
        return it->second;
    }
    bool has(const char* k) const { return o.count(k) > 0; }
    const JV& operator[](size_t i) const { return a.at(i); }
    size_t size() const { return a.size(); }
    std::vector<double> nums() const {
        std::vector<double> v;
        for (const auto& x : a) v.push_back(x.d);
        return v;
    }
    std::vector<std::vector<double>> mat() const {
        std::vector<std::vector<double>> v;
        for (const auto& x : a) v.push_back(x.nums());
        return v;
    }
};
class JParse {
    const char* p;
    void ws() { while (*p == ' ' || *p == '\n' || *p == '\r' || *p == '\t') ++p; }
    std::string str() {
        std::string s;
        ++p;
        while (*p && *p != '"') {
            if (*p == '\\') ++p;
            s += *p++;
        }
        ++p;
        return s;
    }

  public:
    explicit JParse(const std::string& s) : p(s.c_str()) {}
    JV val() {
        ws();
        JV v;
        if (*p == '{') {
            v.t = JV::Obj;
            ++p; ws();
            while (*p && *p != '}') {
                ws();
                std::string k = str();
                ws(); ++p;
                v.o[k] = val();
                ws();
                if (*p == ',') ++p;
                ws();
            }
            ++p;
        } else if (*p == '[') {
            v.t = JV::Arr;
            ++p; ws();
            while (*p && *p != ']') {
                v.a.push_back(val());
                ws();
                if (*p == ',') ++p;
                ws();
            }
            ++p;
        } else if (*p == '"') {
            v.t = JV::Str;
            v.s = str();
        } else if (!strncmp(p, "true", 4)) { v.t = JV::Bool; v.d = 1; p += 4; }
        else if (!strncmp(p, "false", 5)) { v.t = JV::Bool; p += 5; }
        else if (!strncmp(p, "null", 4)) { p += 4; }
        else {
            char* e;
            v.t = JV::Num;
            v.d = strtod(p, &e);
            if (e == p) { fprintf(stderr, "bad JSON case\n"); exit(3); }
            p = e;
        }
        return v;
    }
};
inline std::vector<JV> readCases(const char* path) {
    std::vector<JV> v;
    std::ifstream f(path);
    if (!f) { fprintf(stderr, "no cases %s\n", path); exit(3); }
    std::string l;
    while (std::getline(f, l))
        if (!l.empty()) v.push_back(JParse(l).val());
    return v;
}
