// Trace recording: one JSON object per line, flushed per event so that a crash keeps the prefix.
#ifndef VP_TRACE_H
#define VP_TRACE_H
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <vector>

struct Args {
    std::string out, tier = "quick", mode;
    uint64_t seed = 1;
    int shard = 0, nshards = 1, only = -1;
    bool thorough() const { return tier == "thorough"; }
    int pick(int q, int t) const { return thorough() ? t : q; }
    static Args &get() { static Args a; return a; }
    static void parse(int argc, char **argv) {
        Args &a = get();
        for (int i = 1; i < argc; ++i) {
            std::string k = argv[i];
            auto v = [&]() -> std::string { if (i + 1 >= argc) { fprintf(stderr, "missing value\n"); exit(3); } return argv[++i]; };
            if (k == "--out") a.out = v();
            else if (k == "--tier") a.tier = v();
            else if (k == "--mode") a.mode = v();
            else if (k == "--seed") a.seed = strtoull(v().c_str(), 0, 10);
            else if (k == "--shard") a.shard = atoi(v().c_str());
            else if (k == "--nshards") a.nshards = atoi(v().c_str());
            else if (k == "--only") a.only = atoi(v().c_str());
            else { fprintf(stderr, "bad argument %s\n", k.c_str()); exit(3); }
        }
    }
};

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed + 0x1234567) { s = next() ^ (next() << 1); }   // mixed: nearby seeds give unrelated streams
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    int in(int lo, int hi) { return lo + int(next() % uint64_t(hi - lo + 1)); }
    bool chance(int num, int den) { return int(next() % uint64_t(den)) < num; }
    double unit() { return double(next() >> 11) / 9007199254740992.0; }
    template <class T> const T &of(const std::vector<T> &v) { return v[next() % v.size()]; }
};

// Sentinels for values with no integer image
static const int VP_NAN = 2000000001, VP_PINF = 2000000002, VP_NINF = 2000000003, VP_BIG = 2000000004, VP_NOTINT = 2000000005;

inline int scaled(double x, double scale) {
    if (std::isnan(x)) return VP_NAN;
    if (std::isinf(x)) return x > 0 ? VP_PINF : VP_NINF;
    double y = std::floor(x * scale + 0.5);
    if (std::fabs(y) > 1.0e9) return VP_BIG;
    return int(y);
}
// exact integer image: a double that is not an integer (within 1e-9 relative) is no integer
inline int exactInt(double x) {
    if (std::isnan(x)) return VP_NAN;
    if (std::isinf(x)) return x > 0 ? VP_PINF : VP_NINF;
    if (std::fabs(x) > 1.0e9) return VP_BIG;
    double r = std::floor(x + 0.5);
    if (std::fabs(x - r) > 1e-6) return VP_NOTINT;
    return int(r);
}

class Out {
public:
    static FILE *&file() { static FILE *f = 0; return f; }
    static void open() {
        file() = fopen(Args::get().out.c_str(), "w");
        if (!file()) { fprintf(stderr, "cannot write trace\n"); exit(3); }
    }
};

class Ev {
public:
    explicit Ev(const char *name) { b = "{\"e\":\""; b += name; b += "\""; }
    Ev &i(const char *k, long long v) { char t[64]; snprintf(t, sizeof t, ",\"%s\":%lld", k, v); b += t; return *this; }
    Ev &b1(const char *k, bool v) { b += ",\""; b += k; b += v ? "\":true" : "\":false"; return *this; }
    Ev &s(const char *k, const std::string &v) { b += ",\""; b += k; b += "\":\""; b += v; b += "\""; return *this; }
    template <class V> Ev &a(const char *k, const V &v) {
        b += ",\""; b += k; b += "\":[";
        bool first = true;
        for (auto x : v) { if (!first) b += ","; first = false; b += std::to_string((long long)x); }
        b += "]"; return *this;
    }
    Ev &raw(const char *k, const std::string &v) { b += ",\""; b += k; b += "\":"; b += v; return *this; }
    template <class V> Ev &aa(const char *k, const V &vv) {
        b += ",\""; b += k; b += "\":[";
        bool f0 = true;
        for (auto &v : vv) {
            if (!f0) b += ","; f0 = false; b += "[";
            bool first = true;
            for (auto x : v) { if (!first) b += ","; first = false; b += std::to_string((long long)x); }
            b += "]";
        }
        b += "]"; return *this;
    }
    void end() { b += "}\n"; fwrite(b.data(), 1, b.size(), Out::file()); fflush(Out::file()); }
private:
    std::string b;
};

inline std::vector<int> scaledV(const double *x, int n, double sc) {
    std::vector<int> r(n); for (int i = 0; i < n; ++i) r[i] = scaled(x[i], sc); return r;
}
inline std::vector<int> exactV(const double *x, int n) {
    std::vector<int> r(n); for (int i = 0; i < n; ++i) r[i] = exactInt(x[i]); return r;
}

// Identity of a value by bit pattern: equal ids <=> identical doubles (NaNs coincide; -0 = +0).
class Intern {
public:
    int id(double x) {
        if (x == 0) x = 0;
        uint64_t u; memcpy(&u, &x, 8);
        if (x != x) u = 0x7ff8000000000000ull;
        auto it = m.find(u);
        if (it != m.end()) return it->second;
        int n = int(m.size()) + 1; m[u] = n; return n;
    }
    template <class V> int seq(const V &v, size_t n) { // id of a whole sequence
        std::string s;
        for (size_t i = 0; i < n; ++i) { double x = v[i]; if (x == 0) x = 0; if (x != x) x = NAN; s.append((const char *)&x, 8); }
        auto it = q.find(s);
        if (it != q.end()) return it->second;
        int k = int(q.size()) + 1; q[s] = k; return k;
    }
private:
    std::map<uint64_t, int> m;
    std::map<std::string, int> q;
};

// Scenario bookkeeping: deterministic numbering, sharding.
struct Scen {
    int n = -1;
    bool begin() { // true if this shard runs the next scenario
        ++n;
        Args &a = Args::get();
        if (a.only >= 0) return n == a.only;
        return n % a.nshards == a.shard;
    }
};
#endif
