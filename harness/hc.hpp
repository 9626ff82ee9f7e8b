// Independent single-linkage / condensed-tree oracle.
#pragma once
#include "common.hpp"
namespace H {
struct Dsu { std::vector<size_t> p; explicit Dsu(size_t n) : p(iota(n)) {} size_t f(size_t x) { while (p[x] != x) x = p[x]; return x; } bool u(size_t a, size_t b) { a = f(a); b = f(b); if (a == b) return false; p[a] = b; return true; } };
struct E3 { size_t a, b; double w; };
inline std::vector<E3> kruskal(size_t n, std::vector<E3> e) { std::stable_sort(e.begin(), e.end(), [](const E3& x, const E3& y) { return x.w < y.w; }); Dsu d(n); std::vector<E3> o; for (auto& x : e) if (d.u(x.a, x.b)) o.push_back(x); return o; }
struct Nd { int l = -1, r = -1; double lev = 0; std::vector<size_t> m; };
// dendrogram over sorted tree edges; the root is the last node
inline std::vector<Nd> dendrogram(size_t n, const std::vector<E3>& sorted) {
    std::vector<Nd> v(n); std::vector<int> top(n); Dsu d(n);
    for (size_t i = 0; i < n; ++i) { v[i].m = {i}; top[i] = (int)i; }
    for (auto& e : sorted) { size_t a = d.f(e.a), b = d.f(e.b); Nd x; x.l = top[a]; x.r = top[b]; x.lev = e.w; x.m = v[x.l].m; x.m.insert(x.m.end(), v[x.r].m.begin(), v[x.r].m.end()); d.u(a, b); top[d.f(a)] = (int)v.size(); v.push_back(x); }
    return v;
}
struct Cond { std::vector<std::set<size_t>> set; std::vector<double> stab, best; std::vector<std::vector<int>> kids; };
// stability by its definition: sum over the samples of (lambda at which the sample leaves) - (lambda at birth)
inline int condense(const std::vector<Nd>& v, int node, double birth, size_t mcs, Cond& c) {
    int id = (int)c.set.size(); c.set.push_back(std::set<size_t>(v[node].m.begin(), v[node].m.end())); c.stab.push_back(0); c.best.push_back(0); c.kids.push_back({});
    double s = 0; int cur = node;
    while (v[cur].l >= 0) {
        double lam = 1.0 / v[cur].lev; auto &L = v[v[cur].l], &R = v[v[cur].r];
        bool a = L.m.size() >= mcs, b = R.m.size() >= mcs;
        if (a && b) { s += v[cur].m.size() * (lam - birth); int x = condense(v, v[cur].l, lam, mcs, c), y = condense(v, v[cur].r, lam, mcs, c); c.kids[id] = {x, y}; break; }
        if (a) { s += R.m.size() * (lam - birth); cur = v[cur].l; } else if (b) { s += L.m.size() * (lam - birth); cur = v[cur].r; } else { s += v[cur].m.size() * (lam - birth); break; }
    }
    c.stab[id] = s; double k = 0; for (int x : c.kids[id]) k += c.best[x];
    c.best[id] = c.kids[id].empty() ? s : std::max(s, k);
    return id;
}
inline std::map<size_t, std::set<size_t>> groups(const std::vector<size_t>& lab) { std::map<size_t, std::set<size_t>> g; for (size_t i = 0; i < lab.size(); ++i) g[lab[i]].insert(i); return g; }
inline void check_labels(const std::vector<size_t>& lab, const std::vector<Nd>& v, size_t mcs, bool leaves, bool single, double t) {
    size_t n = lab.size(); Cond c; condense(v, (int)v.size() - 1, 0, mcs, c);
    auto g = groups(lab); g.erase(0); size_t K = g.size();
    EXPECT(K >= 1, "no cluster"); for (size_t k = 1; k <= K; ++k) EXPECT(g.count(k), "labels are not consecutive from 1: " << str(lab));
    double sum = 0; std::set<int> used;
    for (auto& [k, m] : g) { int id = -1; for (size_t i = 0; i < c.set.size(); ++i) if (c.set[i] == m) id = (int)i; EXPECT(id >= 0, "label " << k << " is not a cluster of the hierarchy: " << str(lab)); sum += c.stab[id]; used.insert(id); if (id != 0) EXPECT(m.size() >= mcs, "cluster smaller than the minimum"); }
    if (leaves) { for (size_t i = 0; i < c.set.size(); ++i) EXPECT(used.count((int)i) == c.kids[i].empty(), "leaf clusters expected " << str(lab)); return; }
    if (!single && !c.kids[0].empty()) EXPECT(!used.count(0), "single cluster returned although it is not allowed");
    double want = c.best[0]; if (!single && !c.kids[0].empty()) { want = 0; for (int x : c.kids[0]) want += c.best[x]; }
    EXPECT(close(sum, want, t, t), "total stability " << sum << " of the selection, optimum is " << want << " labels " << str(lab)); (void)n;
}
}  // namespace H
