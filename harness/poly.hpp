// poly.hpp - brute force moments of quadratic polynomials of independent variables
// with given moments: the polynomials are multiplied out monomial by monomial.
#ifndef POLY_HPP
#define POLY_HPP
#include "model.hpp"
#include <array>
#include <map>
#include <vector>
namespace poly {
typedef std::vector<int> Mono;           // exponents
struct Space {                           // monomials up to degree 4 in n variables
    int n; std::vector<Mono> mono; std::map<Mono, int> index;
    int n2 = 0;                          // monomials of degree <= 2 come first
    std::vector<std::vector<int>> prod;  // product of two monomials of degree <= 2
    explicit Space(int n_): n(n_) {
        for (int deg = 0; deg <= 4; ++deg) { Mono m(n, 0); gen(m, 0, deg); if (deg == 2) n2 = int(mono.size()); }
        prod.assign(n2, std::vector<int>(n2));
        for (int a = 0; a < n2; ++a) for (int b = 0; b < n2; ++b) { Mono m(n); for (int i = 0; i < n; ++i) m[i] = mono[a][i] + mono[b][i]; prod[a][b] = index[m]; }
    }
    void gen(Mono &m, int i, int left) {
        if (i == n - 1 || n == 0) { if (n) m[i] = left; index[m] = int(mono.size()); mono.push_back(m); if (n) m[i] = 0; return; }
        for (int k = left; k >= 0; --k) { m[i] = k; gen(m, i + 1, left - k); }
        m[i] = 0;
    }
};
typedef std::vector<std::array<LD, 9>> Mom;   // standardized moments 0..8 of each variable
struct Expect {                          // expectations of products of monomials
    const Space &sp; std::vector<LD> one; std::vector<std::vector<LD>> two;
    Expect(const Space &s, const Mom &v): sp(s) {
        const int N = int(s.mono.size());
        one.resize(N); two.assign(N, std::vector<LD>(N));
        for (int a = 0; a < N; ++a) {
            one[a] = 1; for (int i = 0; i < s.n; ++i) one[a] *= v[i][s.mono[a][i]];
            for (int b = 0; b < N; ++b) { LD p = 1; for (int i = 0; i < s.n; ++i) p *= v[i][s.mono[a][i] + s.mono[b][i]]; two[a][b] = p; }
        }
    }
};
// q = sum_i g_i z_i + sum_ij 1/2 h_ij z_i z_j as coefficients over monomials of degree <= 2
struct Quad { std::vector<std::pair<int, E>> c; };
template<class G, class H> Quad quad(const Space &sp, const G &g, const H &h) {
    Quad q;
    auto put = [&](const Mono &m, const E &v) { if (v.v != 0 || v.e != 0) q.c.push_back({sp.index.at(m), v}); };
    for (int i = 0; i < sp.n; ++i) {
        Mono m(sp.n, 0); m[i] = 1; put(m, g(i));
        m[i] = 2; put(m, E(0.5L, 0) * h(i, i));
        for (int j = i + 1; j < sp.n; ++j) { Mono t(sp.n, 0); t[i] = t[j] = 1; put(t, h(i, j)); }
    }
    return q;
}
inline E mean(const Expect &x, const Quad &q) { E m(0, 0); for (auto &t : q.c) m = m + t.second * E(x.one[t.first]); return m; }
inline E mean2(const Expect &x, const Quad &a, const Quad &b) { E m(0, 0); for (auto &s : a.c) for (auto &t : b.c) m = m + s.second * t.second * E(x.two[s.first][t.first]); return m; }
inline E covar(const Expect &x, const Quad &a, const Quad &b) { return mean2(x, a, b) - mean(x, a) * mean(x, b); }
// mean and central moments 2, 3, 4
inline std::array<E, 5> central(const Expect &x, const Quad &q) {
    std::map<int, E> sq;
    for (auto &s : q.c) for (auto &t : q.c) { E v = s.second * t.second; auto it = sq.find(x.sp.prod[s.first][t.first]); if (it == sq.end()) sq.insert({x.sp.prod[s.first][t.first], v}); else it->second = it->second + v; }
    std::vector<std::pair<int, E>> s2(sq.begin(), sq.end());
    E r1 = mean(x, q), r2(0, 0), r3(0, 0), r4(0, 0);
    for (auto &s : s2) r2 = r2 + s.second * E(x.one[s.first]);
    for (auto &s : s2) for (auto &t : q.c) r3 = r3 + s.second * t.second * E(x.two[s.first][t.first]);
    for (auto &s : s2) for (auto &t : s2) r4 = r4 + s.second * t.second * E(x.two[s.first][t.first]);
    std::array<E, 5> c;
    c[0] = E(1); c[1] = r1;
    c[2] = r2 - r1 * r1;
    c[3] = r3 - E(3, 0) * r1 * r2 + E(2, 0) * r1 * r1 * r1;
    c[4] = r4 - E(4, 0) * r1 * r3 + E(6, 0) * r1 * r1 * r2 - E(3, 0) * r1 * r1 * r1 * r1;
    return c;
}
// standardized moments 0..8 of discrete distributions; kind 0 is the normal
inline std::array<LD, 9> moments_of(int kind) {
    std::array<LD, 9> m;
    if (kind == 0) { const LD z[9] = {1, 0, 1, 0, 3, 0, 15, 0, 105}; for (int i = 0; i < 9; ++i) m[i] = z[i]; return m; }
    static const double X[8][6] = {{-2, -1, 0.5, 1, 3, 4}, {-1, 0, 1, 2, 3.5, 7}, {-5, -3, -1, 0, 1, 2}, {0, 0.5, 1.5, 2.5, 4, 8}, {-4, -2, 0, 1, 1.5, 2}, {-3, -1.5, 0, 1, 4, 5}, {-1, -0.5, 0, 3, 4, 6}, {-6, -1, 0, 0.5, 2, 3}};
    static const double P[8][6] = {{.1, .3, .2, .2, .15, .05}, {.2, .25, .2, .2, .1, .05}, {.05, .1, .2, .3, .2, .15}, {.3, .2, .2, .1, .1, .1}, {.1, .2, .1, .3, .2, .1}, {.15, .2, .25, .2, .15, .05}, {.2, .3, .2, .15, .1, .05}, {.05, .25, .2, .2, .2, .1}};
    const double *x = X[(kind - 1) % 8], *p = P[(kind - 1) % 8];
    LD mu = 0, v = 0;
    for (int k = 0; k < 6; ++k) mu += LD(p[k]) * x[k];
    for (int k = 0; k < 6; ++k) v += p[k] * (x[k] - mu) * (x[k] - mu);
    for (int n = 0; n <= 8; ++n) { m[n] = 0; for (int k = 0; k < 6; ++k) { LD t = p[k]; for (int j = 0; j < n; ++j) t *= (x[k] - mu) / xsqrt(v); m[n] += t; } }
    m[0] = 1; m[1] = 0; m[2] = 1;
    return m;
}
}
#endif
