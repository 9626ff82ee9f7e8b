#include "common.hpp"
#include "ffcl/datastruct/UnionFind.hpp"
using namespace H;
template <typename I> void uf(Rng& r) {
    size_t n = r.range(1, 60); int steps = r.range(0, 120); int sty = r.range(0, 3);
    std::vector<std::pair<size_t, size_t>> ops; for (int i = 0; i < steps; ++i) { size_t a, b; if (sty == 0) { a = r.range(0, n - 1); b = r.range(0, n - 1); } else if (sty == 1) { a = i % n; b = (i + 1) % n; } else if (sty == 2) { size_t w = (size_t)1 << (i * 6 / std::max(1, steps)); a = r.range(0, n - 1); b = (a + w) % n; } else { a = 0; b = r.range(0, n - 1); if (r.chance(0.5)) std::swap(a, b); } ops.push_back({a, b}); }
    std::string d = "n=" + str(n) + " merges="; for (auto& [a, b] : ops) d += str(a) + "-" + str(b) + " "; dump(d, steps > 1);
    ffcl::datastruct::UnionFind<I> u(n); std::vector<size_t> cls = iota(n);
    auto whole = [&](const char* w) {
        std::map<size_t, std::set<size_t>> reps; std::set<size_t> allr;
        for (size_t i = 0; i < n; ++i) { size_t f = u.find((I)i); EXPECT(f < n, w << ": representative out of range"); EXPECT((size_t)u.find((I)f) == f, w << ": representative does not represent itself"); EXPECT((size_t)u.find((I)i) == f, w << ": find is not stable"); reps[cls[i]].insert(f); EXPECT(cls[f] == cls[i], w << ": representative of " << i << " is in another set"); }
        for (auto& [c, s] : reps) { EXPECT(s.size() == 1, w << ": several representatives in one set"); EXPECT(allr.insert(*s.begin()).second, w << ": two sets share a representative"); }
    };
    whole("initially");
    for (size_t i = 0; i < n; ++i) EXPECT((size_t)u.find((I)i) == i, "every element starts alone");
    for (auto& [a, b] : ops) {
        size_t x = u.merge((I)a, (I)b); size_t ca = cls[a], cb = cls[b]; for (auto& c : cls) if (c == cb) c = ca;
        EXPECT(x == (size_t)u.find((I)a) && x == (size_t)u.find((I)b), "merge of " << a << "," << b << " returns " << x << ", not the common representative");
        if (n < 20 || r.chance(0.1)) whole("after a merge");
    }
    whole("finally");
}
int main(int c, char** v) { return run_main(c, v, {{"size_t", 3, uf<size_t>}, {"unsigned", 1, uf<unsigned>}}); }
