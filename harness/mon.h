// Runtime-monitor support shared by every harness: seeded case generation, online checks with
// observation counters, distinct-state counting, crash attribution and a JSON-lines result log.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cmath>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <unordered_set>
#include <unistd.h>
#include <signal.h>
#include <exception>

extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));

namespace mon {

inline uint64_t splitmix(uint64_t &s) {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
inline uint64_t hash_str(const char *s, uint64_t h = 1469598103934665603ull) {
    for (; *s; ++s) { h ^= (unsigned char)*s; h *= 1099511628211ull; }
    return h;
}
inline uint64_t mix(uint64_t a, uint64_t b) { uint64_t s = a * 0x9E3779B97F4A7C15ull + b + 0x7F4A7C15ull; return splitmix(s); }
inline uint64_t hash_d(double d) { uint64_t u; std::memcpy(&u, &d, 8); return u; }

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed) { splitmix(s); }
    uint64_t u64() { return splitmix(s); }
    double u01() { return (u64() >> 11) * (1.0 / 9007199254740992.0); }
    double uni(double a, double b) { return a + (b - a) * u01(); }
    long irange(long a, long b) { return a + (long)(u64() % (uint64_t)(b - a + 1)); }  // inclusive
    bool flip(double p = 0.5) { return u01() < p; }
    double sgn() { return flip() ? 1. : -1.; }
    double logu(double a, double b) { return std::exp(uni(std::log(a), std::log(b))); }
    template <class T> const T &pick(const std::vector<T> &v) { return v[u64() % v.size()]; }
    double normal() { double a = 0; for (int i = 0; i < 12; ++i) a += u01(); return a - 6; }
};

struct Mon {
    std::string prop = "P00", tier = "quick", out;
    std::string shard = "0"; uint64_t shard_index = 0, shards = 1; // --shard=i/n: the cases whose index is i modulo n
    uint64_t seed = 1;
    double scale = 1;            // case-count multiplier
    std::map<std::string, uint64_t> obs;       // evaluations of each online monitor
    std::map<std::string, uint64_t> viol;      // violations per monitor
    std::map<std::string, uint64_t> cls;       // observed input/state classes
    std::unordered_set<uint64_t> distinct;
    uint64_t evaluations = 0;
    unsigned case_limit = 120;   // watchdog: seconds one case may take (they take milliseconds)
    std::vector<std::string> samples;
    std::map<std::string, int> sample_per;
    std::string only;            // replay filter "name#idx"
    char cur[4096];
    std::string cur_name; uint64_t cur_idx = 0;
    FILE *f = nullptr;

    bool thorough() const { return tier == "thorough"; }
    // number of cases: q for the quick tier, t for the thorough one
    uint64_t n(uint64_t q, uint64_t t) const { double v = (thorough() ? t : q) * scale; return v < 1 ? 1 : (uint64_t)v; }
};

inline Mon &M() { static Mon m; return m; }

inline std::string jesc(const std::string &s) {
    std::string o;
    for (char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if ((unsigned char)c < 32) o += ' ';
        else o += c;
    }
    return o;
}
inline std::string fmt(const char *f, ...) {
    char b[3000]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b;
}

inline void describe(const char *f, ...) {  // refine description of the current case
    Mon &m = M();
    int k = snprintf(m.cur, sizeof m.cur, "%s#%llu ", m.cur_name.c_str(), (unsigned long long)m.cur_idx);
    va_list ap; va_start(ap, f); vsnprintf(m.cur + k, sizeof m.cur - k, f, ap); va_end(ap);
}
inline void sample(int per = 1) {
    Mon &m = M();
    std::string base = m.cur_name;
    if (m.samples.size() < 12 && m.sample_per[base] < per) { m.sample_per[base]++; m.samples.push_back(m.cur); }
}
inline void distinct(uint64_t h) { if (M().distinct.size() < 4000000) M().distinct.insert(h); }
inline void observe(const std::string &c, uint64_t k = 1) { M().cls[c] += k; }

inline void violation(const std::string &key, const std::string &msg) {
    Mon &m = M();
    uint64_t k = ++m.viol[key];
    if (k <= 5 && m.f) {
        fprintf(m.f, "{\"type\":\"violation\",\"key\":\"%s\",\"case\":\"%s\",\"msg\":\"%s\"}\n", jesc(key).c_str(), jesc(m.cur).c_str(), jesc(msg).c_str());
        fflush(m.f);
    }
}
inline bool check(const char *key, bool ok) { M().obs[key]++; return ok; }

#define CHECK(key, cond, ...) do { std::string k__ = (key); ::mon::M().obs[k__]++; if (!(cond)) ::mon::violation(k__, ::mon::fmt(__VA_ARGS__)); } while (0)

// Start one case; false when a replay filter excludes it.
inline bool begin(const std::string &name, uint64_t idx, Rng &r) {
    Mon &m = M();
    m.cur_name = name; m.cur_idx = idx;
    snprintf(m.cur, sizeof m.cur, "%s#%llu", name.c_str(), (unsigned long long)idx);
    if (!m.only.empty() && m.only != m.cur) return false;
    if (m.only.empty() && m.shards > 1 && idx % m.shards != m.shard_index) return false;
    r = Rng(mix(mix(m.seed, hash_str(name.c_str())), idx));
    m.evaluations++;
    alarm(m.case_limit);
    return true;
}
inline std::string cur_id() { return M().cur_name + "#" + std::to_string(M().cur_idx); }

inline void on_death() {
    Mon &m = M();
    const char *p = "\n@@CASE "; (void)!write(2, p, strlen(p));
    (void)!write(2, m.cur, strlen(m.cur)); (void)!write(2, "\n", 1);
}
inline void on_terminate() {
    on_death();
    if (auto e = std::current_exception()) {
        try { std::rethrow_exception(e); }
        catch (const std::exception &x) { fprintf(stderr, "@@EXC %s\n", x.what()); }
        catch (...) { fprintf(stderr, "@@EXC unknown\n"); }
    }
    std::_Exit(86);
}

inline void on_alarm(int) {
    on_death();
    const char *p = "@@EXC no termination within the time limit of one case\n"; (void)!write(2, p, strlen(p));
    std::_Exit(87);
}

inline void init(int argc, char **argv) {
    Mon &m = M();
    m.cur[0] = 0;
    if (const char *s = getenv("VERIF_SEED")) m.seed = strtoull(s, nullptr, 10);
    if (const char *s = getenv("VERIF_TIER")) m.tier = s;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&](const char *k) -> const char * { size_t l = strlen(k); return a.compare(0, l, k) == 0 ? a.c_str() + l : nullptr; };
        if (auto v = val("--seed=")) m.seed = strtoull(v, nullptr, 10);
        else if (auto v = val("--tier=")) m.tier = v;
        else if (auto v = val("--out=")) m.out = v;
        else if (auto v = val("--only=")) m.only = v;
        else if (auto v = val("--shard=")) { m.shard = v; unsigned a = 0, b = 1; if (sscanf(v, "%u/%u", &a, &b) == 2 && b) { m.shard_index = a; m.shards = b; } }
        else if (auto v = val("--scale=")) m.scale = atof(v);
    }
    m.f = m.out.empty() ? stdout : fopen(m.out.c_str(), "w");
    if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(on_death);
    std::set_terminate(on_terminate);
    signal(SIGALRM, on_alarm);
}
inline int finish() {
    Mon &m = M();
    alarm(0);
    auto dump = [&](const char *k, const std::map<std::string, uint64_t> &mp) {
        fprintf(m.f, "\"%s\":{", k); bool first = true;
        for (auto &kv : mp) { fprintf(m.f, "%s\"%s\":%llu", first ? "" : ",", jesc(kv.first).c_str(), (unsigned long long)kv.second); first = false; }
        fprintf(m.f, "},");
    };
    fprintf(m.f, "{\"type\":\"summary\",");
    dump("obs", m.obs); dump("viol", m.viol); dump("cls", m.cls);
    fprintf(m.f, "\"evaluations\":%llu,\"distinct\":%llu,\"samples\":[", (unsigned long long)m.evaluations, (unsigned long long)m.distinct.size());
    for (size_t i = 0; i < m.samples.size(); ++i) fprintf(m.f, "%s\"%s\"", i ? "," : "", jesc(m.samples[i]).c_str());
    fprintf(m.f, "]}\n");
    fflush(m.f);
    return 0;
}
} // namespace mon
