#include "common.hpp"
#include "ffcl/common/math/heuristics/Distances.hpp"
#include "ffcl/datastruct/bounds/segment/distances/MinDistance.hpp"
using namespace H;
namespace D = ffcl::common::math::heuristics;

template <typename T> void fp_case(Rng& r) {
    size_t f = r.chance(0.1) ? 0 : (size_t)r.range(1, r.chance(0.2) ? 70 : 9);
    int    st = any_style(r);
    auto   a = dataset<T>(r, 1, f, st), b = r.chance(0.1) ? a : dataset<T>(r, 1, f, r.chance(0.5) ? st : any_style(r));
    dump("a=" + str(a) + " b=" + str(b), f > 0);
    long double s2 = 0, s1 = 0, dot = 0, n1 = 0, n2 = 0, m1 = 0;
    for (size_t j = 0; j < f; ++j) {
        long double d = (long double)a[j] - b[j];
        s2 += d * d; s1 += std::fabs(d); dot += (long double)a[j] * b[j]; n1 += (long double)a[j] * a[j]; n2 += (long double)b[j] * b[j]; m1 += std::fabs((long double)a[j]);
    }
    double t = tol<T>();
    EXPECT(close(D::squared_euclidean_distance(a.begin(), a.end(), b.begin(), b.end()), s2, t, t), (double)s2);
    EXPECT(close(D::euclidean_distance(a.begin(), a.end(), b.begin(), b.end()), std::sqrt(s2), t, t), (double)s2);
    EXPECT(close(D::euclidean_distance(b.begin(), b.end(), a.begin(), a.end()), std::sqrt(s2), t, t), "symmetry");
    EXPECT(close(D::auto_distance(a.begin(), a.end(), b.begin(), b.end()), std::sqrt(s2), t, t), "auto float = euclid");
    EXPECT(close(D::squared_euclidean_distance_from_origin(a.begin(), a.end()), n1, t, t), "");
    EXPECT(close(D::euclidean_distance_from_origin(a.begin(), a.end()), std::sqrt(n1), t, t), "");
    EXPECT(close(D::auto_distance_from_origin(a.begin(), a.end()), std::sqrt(n1), t, t), "");
    EXPECT(close(D::manhattan_distance(a.begin(), a.end(), b.begin(), b.end()), s1, t, t), "");
    EXPECT(close(D::manhattan_distance_from_origin(a.begin(), a.end()), m1, t, t), "");
    // cosine
    auto c = D::cosine_similarity(a.begin(), a.end(), b.begin(), b.end());
    if (n1 == 0 || n2 == 0) EXPECT(std::isinf(c) && c > 0, c);
    else if (std::sqrt(n1) * std::sqrt(n2) > 1e-6) EXPECT(close(c, dot / (std::sqrt(n1) * std::sqrt(n2)), 10 * t, 10 * t), c);
    EXPECT(D::euclidean_distance(a.begin(), a.end(), a.begin(), a.end()) == 0, "identity");
}

template <typename T> void int_case(Rng& r) {
    size_t f = r.chance(0.1) ? 0 : (size_t)r.range(1, r.chance(0.2) ? 70 : 9);
    int    st = any_style(r);
    auto   a = dataset<T>(r, 1, f, st), b = r.chance(0.1) ? a : dataset<T>(r, 1, f, r.chance(0.5) ? st : any_style(r));
    dump("a=" + str(a) + " b=" + str(b), f > 0);
    long long s1 = 0, m1 = 0;
    for (size_t j = 0; j < f; ++j) { s1 += std::llabs((long long)a[j] - (long long)b[j]); m1 += std::llabs((long long)a[j]); }
    if constexpr (std::is_signed_v<T>) {
        EXPECT((long long)D::manhattan_distance(a.begin(), a.end(), b.begin(), b.end()) == s1, s1);
        EXPECT((long long)D::auto_distance_from_origin(a.begin(), a.end()) == m1, m1);
    } else {
        EXPECT((long long)D::unsigned_manhattan_distance(a.begin(), a.end(), b.begin(), b.end()) == s1, s1);
    }
    EXPECT((long long)D::auto_distance(a.begin(), a.end(), b.begin(), b.end()) == s1, s1);
    EXPECT((long long)D::auto_distance(b.begin(), b.end(), a.begin(), a.end()) == s1, s1);
}

template <typename T> long long lev(const std::vector<T>& a, const std::vector<T>& b) {
    std::vector<std::vector<long long>> d(a.size() + 1, std::vector<long long>(b.size() + 1));
    for (size_t i = 0; i <= a.size(); ++i) d[i][0] = i;
    for (size_t j = 0; j <= b.size(); ++j) d[0][j] = j;
    for (size_t i = 1; i <= a.size(); ++i)
        for (size_t j = 1; j <= b.size(); ++j)
            d[i][j] = std::min({d[i - 1][j] + 1, d[i][j - 1] + 1, d[i - 1][j - 1] + (a[i - 1] == b[j - 1] ? 0 : 1)});
    return d[a.size()][b.size()];
}
template <typename T> void lev_case(Rng& r) {
    size_t         n = r.range(0, 12), m = r.range(0, 12), alpha = r.range(1, 4);
    std::vector<T> a(n), b(m);
    for (auto& x : a) x = (T)r.range(0, alpha);
    for (auto& x : b) x = (T)r.range(0, alpha);
    if (r.chance(0.3)) { b = a; size_t k = r.range(0, 3); while (k--) { if (b.empty() || r.chance(0.4)) b.insert(b.begin() + r.range(0, b.size()), (T)r.range(0, alpha)); else if (r.chance(0.5)) b.erase(b.begin() + r.range(0, b.size() - 1)); else b[r.range(0, b.size() - 1)] = (T)r.range(0, alpha); } }
    dump("lev a=" + str(a) + " b=" + str(b), n && m);
    EXPECT((long long)D::levenshtein_distance(a.begin(), a.end(), b.begin(), b.end()) == lev(a, b), lev(a, b));
    EXPECT((long long)D::levenshtein_distance(b.begin(), b.end(), a.begin(), a.end()) == lev(a, b), lev(a, b));
}

int main(int c, char** v) {
    return run_main(c, v, {{"double", 3, fp_case<double>}, {"float", 2, fp_case<float>}, {"int", 2, int_case<int>}, {"long", 1, int_case<long>}, {"unsigned", 2, int_case<unsigned>}, {"size_t", 1, int_case<std::size_t>},
                           {"levenshtein-int", 2, lev_case<int>}, {"levenshtein-char", 1, lev_case<char>}, {"levenshtein-unsigned", 1, lev_case<unsigned>}});
}
