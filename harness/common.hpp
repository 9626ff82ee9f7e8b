// Shared support for the bounded stand-in / replay harnesses.  Each harness is one program:
//   prog --seed S --cases N [--only ID] [--offset K]
// Case ID with seed S is deterministic.  A failed expectation prints
//   FAIL case=<id> group=<name> what=<text>
// followed by the dumped input, and the program exits 1.  Crashes and runaway loops are turned into FAIL too.
#pragma once
#include <algorithm>
#include <array>
#include <atomic>
#include <cassert>
#include <chrono>
#include <cmath>
#include <condition_variable>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <execution>
#include <fstream>
#include <functional>
#include <future>
#include <iomanip>
#include <iostream>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <optional>
#include <queue>
#include <random>
#include <set>
#include <sstream>
#include <stack>
#include <stdexcept>
#include <string>
#include <sys/resource.h>
#include <sys/time.h>
#include <thread>
#include <tuple>
#include <type_traits>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <variant>
#include <vector>

namespace H {

using std::size_t;

struct Rng {
    std::uint64_t s;
    explicit Rng(std::uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) { for (int i = 0; i < 4; ++i) next(); }
    std::uint64_t next() {
        std::uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    // inclusive range
    long long range(long long lo, long long hi) { return lo + (long long)(next() % (std::uint64_t)(hi - lo + 1)); }
    double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    double real(double lo, double hi) { return lo + (hi - lo) * unit(); }
    bool chance(double p) { return unit() < p; }
    template <typename V> const typename V::value_type& pick(const V& v) { return v[next() % v.size()]; }
    template <typename V> void shuffle(V& v) {
        for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[next() % i]);
    }
};

inline volatile long long g_case  = -1;
inline const char*        g_group = "";
inline std::string        g_dump;
inline long long          g_evals = 0, g_nontrivial = 0, g_cases = 0;
inline std::set<std::uint64_t> g_distinct;
inline std::vector<std::string> g_samples;
inline std::streambuf*    g_cout = nullptr;

[[noreturn]] inline void fail_exit(const std::string& what) {
    std::fprintf(stdout, "FAIL case=%lld group=%s what=%s\n", (long long)g_case, g_group, what.c_str());
    std::fprintf(stdout, "INPUT %s\n", g_dump.c_str());
    std::fflush(stdout);
    _exit(1);
}

inline void on_signal(int sig) {
    char        buf[256];
    const char* n = sig == SIGSEGV ? "SIGSEGV" : sig == SIGABRT ? "SIGABRT" : sig == SIGFPE ? "SIGFPE" : sig == SIGPROF ? "TIMEOUT(no termination within the cpu limit)" : "signal";
    int         k = std::snprintf(buf, sizeof buf, "FAIL case=%lld group=%s what=%s\n", (long long)g_case, g_group, n);
    if (write(1, buf, k)) {}
    if (write(1, "INPUT ", 6)) {}
    if (write(1, g_dump.data(), g_dump.size())) {}
    if (write(1, "\n", 1)) {}
    _exit(1);
}

inline void cpu_limit(int seconds) {
    itimerval t{};
    t.it_value.tv_sec = seconds;
    setitimer(ITIMER_PROF, &t, nullptr);
}

inline void expect(bool ok, const std::string& what) {
    ++g_evals;
    if (!ok) fail_exit(what);
}
#define EXPECT(cond, ...)                                                     \
    do {                                                                      \
        ++H::g_evals;                                                         \
        if (!(cond)) { std::ostringstream os_; os_ << #cond << " :: " << __VA_ARGS__; H::fail_exit(os_.str()); } \
    } while (0)

inline bool close(double a, double b, double rtol = 1e-9, double atol = 1e-9) {
    if (a == b) return true;
    if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
    if (std::isinf(a) || std::isinf(b)) return false;
    return std::fabs(a - b) <= atol + rtol * std::max(std::fabs(a), std::fabs(b));
}

template <typename T> std::string str(const std::vector<T>& v, size_t cap = 400) {
    std::ostringstream os;
    os << std::setprecision(17) << "[";
    for (size_t i = 0; i < v.size() && i < cap; ++i) os << (i ? "," : "") << +v[i];
    if (v.size() > cap) os << ",...(" << v.size() << ")";
    os << "]";
    return os.str();
}
template <typename T> std::string str(const T& x) { std::ostringstream os; os << std::setprecision(17) << x; return os.str(); }

// The input of the case as text; also used for distinctness.
inline void dump(const std::string& s, bool nontrivial = true) {
    g_dump = s;
    std::uint64_t h = 1469598103934665603ull;
    for (char c : s) h = (h ^ (unsigned char)c) * 1099511628211ull;
    if (nontrivial && g_distinct.insert(h).second) {
        ++g_nontrivial;
        if (g_samples.size() < 3 && s.size() < 600) g_samples.push_back(std::string(g_group) + ": " + s);
    }
}

// ------------------------------------------------------------------ data sets
// style: 0 small ints (many ties), 1 uniform reals, 2 gaussian blobs, 3 duplicates of few points, 4 collinear,
//        5 constant, 6 negative-only, 7 tiny scale, 8 large offset ints, 9 sorted, 10 reverse sorted
template <typename T> std::vector<T> dataset(Rng& r, size_t n, size_t f, int style) {
    std::vector<T> v(n * f);
    const bool     fl = std::is_floating_point_v<T>, sg = std::is_signed_v<T>;
    auto           put = [&](double x) -> T {
        if (!fl) x = std::floor(x);
        if (!sg && x < 0) x = -x;
        return static_cast<T>(x);
    };
    switch (style) {
        case 0: for (auto& x : v) x = put((double)r.range(sg ? -3 : 0, 3)); break;
        case 1: for (auto& x : v) x = put(r.real(sg ? -100 : 0, 100)); break;
        case 2: {
            size_t k = 1 + r.range(0, 4);
            std::vector<double> c(k * f);
            for (auto& x : c) x = r.real(sg ? -50 : 20, 80);
            for (size_t i = 0; i < n; ++i) {
                size_t b = r.range(0, k - 1);
                for (size_t j = 0; j < f; ++j) v[i * f + j] = put(c[b * f + j] + r.real(-5, 5));
            }
        } break;
        case 3: {
            size_t k = 1 + r.range(0, 3);
            std::vector<double> c(k * f);
            for (auto& x : c) x = r.real(sg ? -10 : 0, 10);
            for (size_t i = 0; i < n; ++i) {
                size_t b = r.range(0, k - 1);
                for (size_t j = 0; j < f; ++j) v[i * f + j] = put(c[b * f + j]);
            }
        } break;
        case 4: for (size_t i = 0; i < n; ++i) { double t = r.range(sg ? -20 : 0, 20); for (size_t j = 0; j < f; ++j) v[i * f + j] = put(t * (double)(1 + j % 2)); } break;
        case 5: { double c = r.range(sg ? -5 : 0, 5); for (auto& x : v) x = put(c); } break;
        case 6: for (auto& x : v) x = put(sg ? r.real(-200, -100) : r.real(100, 200)); break;
        case 7: for (auto& x : v) x = fl ? put(r.range(-50, 50) * 1e-3) : put(r.range(sg ? -2 : 0, 2)); break;
        case 8: for (auto& x : v) x = put((sizeof(T) == 1 ? 40.0 : 1000.0) + r.range(0, 50)); break;
        case 9: for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < f; ++j) v[i * f + j] = put(sizeof(T) == 1 ? (double)(i % 100) : (double)i); break;
        default: for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < f; ++j) v[i * f + j] = put(sizeof(T) == 1 ? (double)((n - i) % 100) : (double)(n - i)); break;
    }
    return v;
}
inline int any_style(Rng& r) {
    static const std::vector<int> w{0, 0, 0, 1, 1, 1, 2, 2, 3, 3, 4, 5, 6, 6, 7, 8, 9, 10};
    return r.pick(w);
}
template <typename T> std::vector<T> any_dataset(Rng& r, size_t n, size_t f) { return dataset<T>(r, n, f, any_style(r)); }

inline std::vector<size_t> iota(size_t n) { std::vector<size_t> v(n); std::iota(v.begin(), v.end(), size_t(0)); return v; }
// a random (possibly shuffled, possibly strict) subset of [0,n) of size m
inline std::vector<size_t> subset(Rng& r, size_t n, size_t m) { auto v = iota(n); r.shuffle(v); v.resize(m); return v; }

template <typename T> double euclid(const T* a, const T* b, size_t f) {
    long double s = 0;
    for (size_t j = 0; j < f; ++j) { long double d = (long double)a[j] - (long double)b[j]; s += d * d; }
    return (double)std::sqrt(s);
}
template <typename T> double manhattan(const T* a, const T* b, size_t f) {
    long double s = 0;
    for (size_t j = 0; j < f; ++j) { long double d = (long double)a[j] - (long double)b[j]; s += d < 0 ? -d : d; }
    return (double)s;
}
// the library's "auto" metric: Euclidean for floating point features, Manhattan for integral ones
template <typename T> double metric(const T* a, const T* b, size_t f) {
    if constexpr (std::is_floating_point_v<T>) return euclid(a, b, f); else return manhattan(a, b, f);
}
template <typename T> double dist(const std::vector<T>& d, size_t i, size_t j, size_t f) { return metric(&d[i * f], &d[j * f], f); }
// tolerance for values computed in T
template <typename T> constexpr double tol() { return std::is_same_v<T, float> ? 2e-4 : 1e-9; }

struct Case {
    const char*               name;
    int                       weight;
    std::function<void(Rng&)> run;
};

inline int run_main(int argc, char** argv, const std::vector<Case>& groups) {
    long long seed = 1, cases = 1000, only = -1;
    double    wall = 0;
    const char* distinct_out = nullptr;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        if (a == "--seed") seed = atoll(argv[++i]);
        else if (a == "--cases") cases = atoll(argv[++i]);
        else if (a == "--only") only = atoll(argv[++i]);
        else if (a == "--wall") wall = atof(argv[++i]);
        else if (a == "--distinct-out") distinct_out = argv[++i];
    }
    for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGPROF}) std::signal(s, on_signal);
    static std::ofstream devnull("/dev/null");
    g_cout = std::cout.rdbuf(devnull.rdbuf());
    std::vector<int> wheel;
    for (size_t g = 0; g < groups.size(); ++g) for (int k = 0; k < groups[g].weight; ++k) wheel.push_back((int)g);
    auto t0 = std::chrono::steady_clock::now();
    for (long long id = 0; id < cases; ++id) {
        if (only >= 0 && id != only) continue;
        if (wall > 0 && std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > wall) break;
        Rng r((std::uint64_t)seed * 1000003ull + (std::uint64_t)id * 7919ull);
        auto& g = groups[wheel[id % wheel.size()]];
        g_case  = id;
        g_group = g.name;
        g_dump.clear();
        if (id % 64 == 0 || only >= 0) cpu_limit(60);
        try {
            g.run(r);
        } catch (const std::exception& e) {
            fail_exit(std::string("unexpected exception: ") + e.what());
        }
        ++g_cases;
    }
    std::printf("OK cases=%lld evaluations=%lld distinct_nontrivial=%lld\n", g_cases, g_evals, g_nontrivial);
    if (distinct_out) if (FILE* f = std::fopen(distinct_out, "wb")) { for (auto h : g_distinct) std::fwrite(&h, sizeof h, 1, f); std::fclose(f); }
    for (auto& s : g_samples) std::printf("SAMPLE %s\n", s.c_str());
    std::fflush(stdout);
    _exit(0);
}

}  // namespace H
