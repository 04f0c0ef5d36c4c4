// Core of the deterministic simulator: PRNG, scenario (operations and fault
// trace) with a text form for replay, run context, violations.
#ifndef SIM_CORE_HPP
#define SIM_CORE_HPP
#include <cstdint>
#include <cstdio>
#include <cstdarg>
#include <cstring>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <functional>
#include <stdexcept>

namespace sim {

inline uint64_t mix64(uint64_t z)
{
    z += 0x9E3779B97F4A7C15ULL;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
}

inline uint64_t hashstr(const std::string& s, uint64_t h = 1469598103934665603ULL)
{
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; }
    return h;
}

struct Rng
{
    uint64_t s;
    explicit Rng(uint64_t seed = 0) : s(mix64(seed)) { }
    uint64_t u64() { s += 0x9E3779B97F4A7C15ULL; return mix64(s); }
    int below(int n) { return n <= 1 ? 0 : int(u64() % uint64_t(n)); }
    int range(int a, int b) { return a + below(b - a + 1); }
    double uni() { return (u64() >> 11) * (1.0 / 9007199254740992.0); }
    double uni(double a, double b) { return a + (b - a) * uni(); }
    bool chance(double p) { return uni() < p; }
    template <class C> const typename C::value_type& pick(const C& c)
    { return c[below(int(c.size()))]; }
    // index drawn with given weights
    int weighted(const std::vector<double>& w)
    {
        double t = 0;
        for (double x : w) t += x;
        double u = uni() * t;
        for (size_t k = 0; k < w.size(); ++k) { if (u < w[k]) return int(k); u -= w[k]; }
        return int(w.size()) - 1;
    }
};

struct Op
{
    std::string n;
    std::vector<long> i;
    std::vector<double> d;
    std::vector<std::string> s;
    Op() { }
    Op(const std::string& name, std::vector<long> ii = {},
            std::vector<double> dd = {}, std::vector<std::string> ss = {})
        : n(name), i(ii), d(dd), s(ss) { }
    long I(size_t k, long dflt = 0) const { return k < i.size() ? i[k] : dflt; }
    double D(size_t k, double dflt = 0) const { return k < d.size() ? d[k] : dflt; }
    std::string S(size_t k) const { return k < s.size() ? s[k] : std::string(); }
    std::string str() const;
    static bool parse(const std::string& line, Op& op);
};

struct Scenario
{
    std::string prop;
    uint64_t seed = 0;
    std::map<std::string, long> cfg;
    std::vector<Op> ops;
    long C(const std::string& k, long dflt = 0) const
    { auto it = cfg.find(k); return it == cfg.end() ? dflt : it->second; }
    std::string str() const;
    static Scenario parse(const std::string& text);
};

// a property violation; cls identifies the kind of the failure
struct Viol
{
    std::string cls;
    std::string detail;
};

struct Ctx
{
    uint64_t h = 0x1234;            // hash of the complete event log
    bool verbose = false;
    long nlog = 0;
    std::map<std::string, long> cnt;    // counters, "fault.X" count fired faults
    std::set<uint64_t> feats;           // abstract states reached
    void log(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
    void logd(const std::string& name, const std::vector<double>& v);
    void logs(const std::string& name, const std::vector<std::string>& v);
    void count(const std::string& k, long n = 1) { cnt[k] += n; }
    void feat(uint64_t f) { feats.insert(f); }
    void feat(const std::string& f) { feats.insert(hashstr(f)); }
    [[noreturn]] void fail(const std::string& cls, const char* fmt, ...)
        __attribute__((format(printf, 3, 4)));
};

struct Property
{
    std::string id;
    std::function<Scenario(uint64_t seed, bool thorough)> gen;
    std::function<void(const Scenario&, Ctx&)> run;
    // one-time preparation in the zygote process before any run is forked
    std::function<void()> prepare;
};

std::map<std::string, Property>& properties();
struct Register { Register(const Property& p) { properties()[p.id] = p; } };

std::string strprintf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
std::string demangle(const char* name);

}   // namespace sim
#endif
