// MON=14 (C14): which moments the constructors of UReal2 and UReal accept; MON=15 (C15): the
// moments of the variables made by distr::normal, chisquare and uniform.
#include "vh.hpp"
#include <uncertainties/ureal.hpp>
#include <uncertainties/ureal2.hpp>
#include <uncertainties/distr.hpp>
#include <uncertainties/impl.hpp>
#include <array>
#ifndef REAL
#define REAL double
#endif
#ifndef MON
#define MON 14
#endif
#ifndef PROP
#define PROP uncertainties::Prop::est
#endif
namespace unc = uncertainties;
typedef REAL R; typedef long double L;
typedef unc::UReal2<R, PROP> U;
static L ld(const R &x) { return static_cast<L>(x); }
static const L EPS = static_cast<L>(std::numeric_limits<R>::epsilon());

// moments of d + t d^2 given the central moments c[0..8] of d (c[0] = 1, c[1] = 0):
// correction to the mean, then central moments 2, 3, 4. err: bound of the rounding error.
static void quad(const L *c, L t, L *out, L *err) {
    L e[5], a[5];
    static const int bin[5][5] = {{1}, {1, 1}, {1, 2, 1}, {1, 3, 3, 1}, {1, 4, 6, 4, 1}};
    for (int k = 0; k <= 4; ++k) {
        e[k] = a[k] = 0; L tj = 1;
        for (int j = 0; j <= k; ++j, tj *= t) { e[k] += bin[k][j] * tj * c[k + j]; a[k] += bin[k][j] * std::fabs(tj * c[k + j]); }
    }
    const L m = e[1], am = a[1];
    out[1] = m; err[1] = am;
    out[2] = e[2] - m * m; err[2] = a[2] + am * am;
    out[3] = e[3] - 3 * m * e[2] + 2 * m * m * m; err[3] = a[3] + 3 * am * a[2] + 2 * am * am * am;
    out[4] = e[4] - 4 * m * e[3] + 6 * m * m * e[2] - 3 * m * m * m * m; err[4] = a[4] + 4 * am * a[3] + 6 * am * am * a[2] + 3 * am * am * am * am;
}
static const bool BIG = std::numeric_limits<R>::max_exponent > 1000;
static const L TS[] = {0, 1, -0.5L, 0.125L, 4};
// the variable must have exactly these moments (tol: relative to the terms)
static void moments(vh::Ctx &c, const U &x, L mean, const L *cm, L tol, const char *who) {
    c.check(ld(x.first_order_n()) == mean || std::fabs(ld(x.first_order_n()) - mean) <= tol * std::fabs(mean), "mean", [&] { return std::string(who) + ": mean is " + vh::num(ld(x.first_order_n())) + ", expected " + vh::num(mean); });
    c.check(ld(x.n()) == ld(x.first_order_n()), "mean", [&] { return std::string(who) + ": n() differs from first_order_n() for an independent variable"; });
    L sc = std::sqrt(cm[2]); if (!(sc > 0)) sc = 1;
    for (L t0 : TS) {
        const R tr = R(t0 / sc), one = 1; const L t = ld(tr);
        const U y = t0 == 0 ? x : unary(x, R(0), one, R(2 * tr));
        L m[5], e[5]; quad(cm, t, m, e);
        for (int k = 1; k <= 4; ++k) {
            const L g = ld(y.m(k));
            c.check(std::fabs(g - m[k]) <= tol * e[k] + 1e-300L, "moment", [&] { return std::string(who) + ": m(" + std::to_string(k) + ") of d + " + vh::num(t) + " d^2 is " + vh::num(g) + ", expected " + vh::num(m[k]); });
        }
        if (t0 == 0) c.check(std::fabs(ld(x.s()) - std::sqrt(cm[2])) <= tol * std::sqrt(cm[2]) && std::fabs(ld(var(x)) - cm[2]) <= tol * cm[2], "sdev", [&] { return std::string(who) + ": standard deviation is " + vh::num(ld(x.s())) + ", expected " + vh::num(std::sqrt(cm[2])); });
    }
}

#if MON == 14
// eigenvalues of a symmetric 5x5 matrix by cyclic Jacobi rotations
static void eig5(L a[5][5], L &mn, L &mx) {
    for (int sweep = 0; sweep < 60; ++sweep) {
        L off = 0, all = 0;
        for (int i = 0; i < 5; ++i) for (int j = 0; j < 5; ++j) { all += a[i][j] * a[i][j]; if (i != j) off += a[i][j] * a[i][j]; }
        if (off <= 1e-42L * all) break;
        for (int p = 0; p < 5; ++p) for (int q = p + 1; q < 5; ++q) {
            if (a[p][q] == 0) continue;
            const L th = (a[q][q] - a[p][p]) / (2 * a[p][q]);
            const L t = (th >= 0 ? 1 : -1) / (std::fabs(th) + std::sqrt(th * th + 1)), co = 1 / std::sqrt(t * t + 1), s = t * co;
            for (int k = 0; k < 5; ++k) { const L x = a[k][p], y = a[k][q]; a[k][p] = co * x - s * y; a[k][q] = s * x + co * y; }
            for (int k = 0; k < 5; ++k) { const L x = a[p][k], y = a[q][k]; a[p][k] = co * x - s * y; a[q][k] = s * x + co * y; }
        }
    }
    mn = mx = a[0][0];
    for (int i = 1; i < 5; ++i) { mn = std::fmin(mn, a[i][i]); mx = std::fmax(mx, a[i][i]); }
}
// c[0..8]: 1, 0, second moment, ...
static L ratio(const L *c, L &mn) {
    L a[5][5], mx;
    for (int i = 0; i < 5; ++i) for (int j = 0; j < 5; ++j) a[i][j] = c[i + j];
    eig5(a, mn, mx);
    return mn / mx;
}
static const L MARGIN = EPS * 256;

enum { ACCEPT, REJECT, EITHER };
static int verdict(const L *c, L thr) {
    if (thr < 0) return ACCEPT;
    L mn; const L r = ratio(c, mn);
    if (r > MARGIN) return ACCEPT;
    if (r >= -MARGIN) return EITHER;
    if (std::fabs(-r - thr) <= MARGIN * 4 + 64 * EPS * (-r)) return EITHER;
    return thr > -r ? ACCEPT : REJECT;
}
static U make(bool central, L mean, L s, const L *c, L thr, bool deflt) {
    if (central) {
        std::array<R, 7> m; for (int i = 0; i < 7; ++i) m[i] = R(c[i + 2]);
        return deflt ? U(R(mean), m) : U(R(mean), m, R(thr));
    }
    std::array<R, 6> m; for (int i = 0; i < 6; ++i) m[i] = R(c[i + 3]);
    return deflt ? U(R(mean), R(s), m) : U(R(mean), R(s), m, R(thr));
}
static void round_(L *c) { for (int i = 2; i <= 8; ++i) c[i] = ld(R(c[i])); }
// construct and compare the outcome with the verdict; on success compare the moments
static void attempt(vh::Ctx &c, bool central, L mean, L s, const L *cm, L thr, bool deflt, const char *who, const L *truth) {
    const int v = verdict(cm, thr);
    int got; U x;
    try { x = make(central, mean, s, cm, thr, deflt); got = ACCEPT; }
    catch (const std::invalid_argument &) { got = REJECT; }
    c.check(v == EITHER || got == v, got == ACCEPT ? "accepted" : "rejected", [&] {
        L mn; std::string t;
        for (int i = 2; i <= 8; ++i) t += " " + vh::num(cm[i]);
        return std::string(who) + (central ? " central" : " standardized") + " moments (from the second)" + t + " with threshold " + vh::num(thr) + " and eigenvalue ratio " + vh::num(ratio(cm, mn)) + " were " + (got == ACCEPT ? "accepted" : "rejected");
    });
    if (got == ACCEPT && truth) {
        moments(c, x, mean, truth, 512 * EPS, central ? "central" : "standardized");
        if (s > 0) c.check(x.isindep() && x.indepid() > 0, "id", [&] { return std::string("the variable is not independent with a positive id"); });
    }
}
// every distribution on 5 or 6 of these points with these weights
static const L POS[] = {-2, -1.5L, -1, -0.5L, 0, 0.5L, 1, 1.25L, 2, 3};
static void realizable(vh::Ctx &c) {
    const int n = 5 + c.choose(2);
    int at[6], from = 0;
    for (int i = 0; i < n; ++i) { at[i] = from + c.choose(10 - n + 1 - (from - i)); from = at[i] + 1; }
    c.shard();
    static const int W[] = {1, 2, 4};
    const int nw = c.thorough() ? 3 : 2;
    int w[6], sw = 0;
    for (int i = 0; i < n; ++i) { w[i] = W[c.choose(nw)]; sw += w[i]; }
    L mu = 0; for (int i = 0; i < n; ++i) mu += w[i] * POS[at[i]] / sw;
    L c0[9]; for (int k = 0; k <= 8; ++k) { c0[k] = 0; for (int i = 0; i < n; ++i) c0[k] += w[i] * std::pow(POS[at[i]] - mu, L(k)) / sw; }
    c0[0] = 1; c0[1] = 0;
    const L s0 = std::sqrt(c0[2]);
    L st[9]; for (int k = 0; k <= 8; ++k) st[k] = c0[k] / std::pow(s0, L(k));
    st[0] = 1; st[1] = 0; st[2] = 1;
    static const L S[] = {1, 0.5L, 2, 0.03125L, 16, 0, BIG ? std::ldexp(1.L, -40) : std::ldexp(1.L, -10), BIG ? std::ldexp(1.L, 40) : std::ldexp(1.L, 10)};
    const L s = S[c.choose(8)];
    c.note([&] { std::string t = "distribution with points and weights"; for (int i = 0; i < n; ++i) t += " " + vh::num(POS[at[i]]) + ":" + std::to_string(w[i]); return t + " scaled to sigma " + vh::num(s); });
    c.step(); c.state(vh::hashd(vh::hashd(vh::hashd(vh::hashd(vh::hashd(1, double(st[3])), double(st[4])), double(st[5])), double(st[6])), double(s)));
    L stn[9], cen[9]; for (int k = 0; k <= 8; ++k) { stn[k] = st[k]; cen[k] = k == 0 ? 1 : st[k] * std::pow(s, L(k)); }
    round_(stn); round_(cen);
    stn[0] = 1; stn[1] = 0; stn[2] = 1; cen[0] = 1; cen[1] = 0;
    attempt(c, false, 1.5L, s, stn, 0, true, "realizable", cen);
    attempt(c, false, 1.5L, s, stn, 0, false, "realizable", nullptr);
    attempt(c, false, 1.5L, s, stn, 0.5L, false, "realizable", nullptr);
    attempt(c, false, 1.5L, s, stn, -1, false, "realizable", cen);
    if (s > 0) attempt(c, true, -2, s, cen, 0, true, "realizable", cen);
    attempt(c, true, -2, s, cen, -1, false, "realizable", cen);
    if (s > 0) attempt(c, true, -2, s, cen, 0.25L, false, "realizable", nullptr);
}
// a grid of moment arrays, mostly impossible, with every threshold
static const L G3[] = {0, 0.5L, -1, 2}, G4[] = {3, 1.5L, 0.75L, -1, 8}, G5[] = {0, 3, -6}, G6[] = {15, 4, -2, 70}, G7[] = {0, 20, -50}, G8[] = {105, 30, 1, -10, 700};
static const L G2[] = {1, 0.25L, 4, 0.0625L, -1, -0.25L};
static const L THR[] = {0, 1e-3L, 0.015625L, 0.125L, 0.5L, 2, -1, -1e-30L};
static void grid(vh::Ctx &c) {
    L m[9] = {1, 0, 1};
    m[3] = G3[c.choose(4)]; m[4] = G4[c.choose(5)]; m[5] = G5[c.choose(3)]; m[6] = G6[c.choose(4)];
    c.shard();
    m[7] = G7[c.choose(3)]; m[8] = G8[c.choose(5)];
    const bool central = c.choose(2);
    if (central) { const L q = G2[c.choose(6)]; m[2] = q; const L s = std::sqrt(std::fabs(q)); for (int k = 3; k <= 8; ++k) m[k] *= std::pow(s, L(k)); round_(m); }
    const int nt = sizeof THR / sizeof *THR, t = c.choose(nt + 1);
    const L thr = t == nt ? 0 : THR[t];
    c.note([&] { std::string s = central ? "central moments" : "standardized moments"; for (int k = 2; k <= 8; ++k) s += " " + vh::num(m[k]); return s + ", threshold " + vh::num(thr); });
    uint64_t h = central; for (int k = 2; k <= 8; ++k) h = vh::hashd(h, double(m[k]));
    c.step(); c.state(vh::hashd(h, double(thr)));
    const bool sane = m[2] > 0;
    L cen[9]; for (int k = 0; k <= 8; ++k) cen[k] = m[k] * (central || k < 2 ? 1 : std::pow(0.5L, L(k)));
    cen[0] = 1; cen[1] = 0;
    attempt(c, central, 1, 0.5L, m, thr, t == nt, "arbitrary", sane && cen[4] > cen[2] * cen[2] ? cen : nullptr);
}
// each order alone: a distribution whose matrix is well conditioned, one moment replaced
static void single(vh::Ctx &c) {
    static const L BASE[3][9] = {{1, 0, 1, 0, 3, 0, 15, 0, 105}, {1, 0, 1, 0, 1.8L, 0, 27 / 7.L, 0, 9}, {1, 0, 1, 2, 9, 44, 265, 1854, 14833}};
    const int b = c.choose(3), k = 3 + c.choose(6), q = c.choose(41);
    c.shard();
    L m[9]; for (int i = 0; i < 9; ++i) m[i] = BASE[b][i];
    L width = std::fabs(m[k]) + 1; if (k % 2) width = std::fabs(m[k]) + std::sqrt(m[k - 1] * (k < 8 ? m[k + 1] : 1));
    m[k] += (q - 20) * width / 10;
    round_(m);
    const bool central = c.choose(2); const L s = central ? (c.choose(2) ? 0.5L : 1) : 1;
    if (central) { for (int i = 2; i <= 8; ++i) m[i] *= std::pow(s, L(i)); }
    const int t = c.choose(8);
    c.note([&] { std::string s = "moment " + std::to_string(k) + " replaced:"; for (int k = 2; k <= 8; ++k) s += " " + vh::num(m[k]); return s + ", threshold " + vh::num(THR[t]); });
    uint64_t h = central; for (int k = 2; k <= 8; ++k) h = vh::hashd(h, double(m[k]));
    c.step(); c.state(vh::hashd(h, double(THR[t])));
    attempt(c, central, 1, 1, m, THR[t], false, "one moment replaced,", nullptr);
}
// moments on the border of the possible ones (distributions of one to five points), one of which is then
// moved out of it by 2^-k; thresholds just above and below the ratio of the eigenvalues
static void border(vh::Ctx &c) {
    static const L P[][5] = {{-1, 1}, {-1, 0, 1}, {-2, 0.5L, 1}, {-1, 2}, {-2, -0.5L, 0.5L, 2}, {-3, -1, 1, 3}, {-1, 0, 1.5L, 3}, {-2, -1, 0, 1, 2}};
    static const int NPT[] = {2, 3, 3, 2, 4, 4, 4, 5};
    const int p = c.choose(8), k = 4 + c.choose(5), e = c.choose(12), neg = c.choose(2);
    c.shard();
    const int n = NPT[p];
    L mu = 0; for (int i = 0; i < n; ++i) mu += P[p][i] / n;
    L m[9]; for (int j = 0; j <= 8; ++j) { m[j] = 0; for (int i = 0; i < n; ++i) m[j] += std::pow(P[p][i] - mu, L(j)) / n; }
    m[0] = 1; m[1] = 0;
    const L s0 = std::sqrt(m[2]);
    const bool central = c.choose(2);
    if (!central) { for (int j = 2; j <= 8; ++j) m[j] /= std::pow(s0, L(j)); m[2] = 1; }
    L w = std::fabs(m[k]); if (k % 2) w = std::sqrt(m[k - 1] * (k < 8 ? m[k + 1] : 1));
    m[k] += (neg ? -w : w) * std::ldexp(1.L, -3 * e - 1);
    round_(m);
    L mn; const L r = ratio(m, mn);
    static const L D[] = {-1, -0.1L, 0.1L, -1e-3L, 1e-3L, -1e-6L, 1e-6L, 1e-9L, -1e-9L, 1};
    const int t = c.choose(11);
    const L thr = t == 0 ? 0 : r < 0 ? ld(R(-r * (1 + D[t - 1]))) : 0;
    if (t && !(r < 0)) c.prune();
    c.note([&] { std::string s = central ? "central" : "standardized"; s += " moments near the border:"; for (int j = 2; j <= 8; ++j) s += " " + vh::num(m[j]); return s + ", threshold " + vh::num(thr) + ", ratio " + vh::num(r); });
    uint64_t h = central; for (int j = 2; j <= 8; ++j) h = vh::hashd(h, double(m[j]));
    c.step(); c.state(vh::hashd(h, double(thr)));
    attempt(c, central, 1, 1, m, thr, t == 0, "border,", nullptr);
}
static void negatives(vh::Ctx &c) {
    static const L NEG[] = {-1, -1e-3L, -1e-30L, -1e30L, -HUGE_VALL, -100};
    const L mean = c.choose(3) - 1, s = NEG[c.choose(6)];
    c.shard();
    const int what = c.choose(4);
    c.note([&] { return "standard deviation " + vh::num(s) + ", constructor " + std::to_string(what); });
    c.step(); c.state(vh::hashd(what * 3 + mean, double(s)));
    const L nrm[9] = {1, 0, 1, 0, 3, 0, 15, 0, 105};
    std::array<R, 6> m{{0, 3, 0, 15, 0, 105}};
    bool threw = false;
    try {
        if (what == 0) { unc::UReal<R> u{R(mean), R(s)}; }
        else if (what == 1) { U u(R(mean), R(s), m); }
        else if (what == 2) { U u(R(mean), R(s), m, R(-1)); }
        else { U u(R(mean), R(s), m, R(100)); }
    } catch (const std::invalid_argument &) { threw = true; }
    c.check(threw, "negative-s", [&] { return "a negative standard deviation " + vh::num(s) + " was accepted by constructor " + std::to_string(what); });
    // and the positive ones are not
    const R p = R(-s > 1e20L ? 1 : -s);
    unc::UReal<R> u{R(mean), p}; c.check(ld(u.s()) == ld(p) && ld(u.n()) == mean, "positive-s", [&] { return std::string("UReal with a valid standard deviation has the wrong numbers"); });
    U v(R(mean), p, m);
    unc::UReal<R> z{R(mean), R(0)}; c.check(ld(z.s()) == 0 && ld(z.n()) == mean, "zero-s", [&] { return std::string("UReal with standard deviation 0 has the wrong numbers"); });
    (void)nrm;
}
int main(int argc, char **argv) {
    vh::Harness h;
    h.add("realizable", realizable); h.add("grid", grid); h.add("single", single); h.add("border", border); h.add("negatives", negatives);
    return h.main(argc, argv);
}
#else
static const L MU[] = {0, 1, -2.5L, 1000, -0.001953125L, 3e10L};
static const L SG[] = {1, 0.5L, 3, 0, 0.0009765625L, 20, 1.1L, 0.1L, BIG ? std::ldexp(1.5L, -40) : std::ldexp(1.5L, -12), BIG ? std::ldexp(1.5L, 40) : std::ldexp(1.5L, 12)};
static void indep(vh::Ctx &c, const U &x, const U &y, bool constant) {
    c.check(x.isindep() && y.isindep(), "indep", [&] { return std::string("the variable is not independent"); });
    if (!constant) {
        c.check(x.indepid() > 0 && y.indepid() > 0 && x.indepid() != y.indepid(), "id", [&] { return std::string("two variables of the factory share an id or have an invalid one"); });
        c.check(cov(x, y) == R(0), "cov", [&] { return std::string("two variables of the factory are correlated"); });
    }
}
static void normal(vh::Ctx &c) {
    const L mu = MU[c.choose(6)], s = ld(R(SG[c.choose(10)]));
    c.shard();
    c.note([&] { return "normal(" + vh::num(mu) + ", " + vh::num(s) + ")"; });
    c.step(); c.state(vh::hashd(vh::hashd(1, double(mu)), double(s)));
    const U x = unc::distr::normal<U>(R(mu), R(s)), y = unc::distr::normal<U>(R(mu), R(s));
    L cm[9] = {1, 0, s * s, 0, 3 * s * s * s * s, 0, 15 * std::pow(s, 6.L), 0, 105 * std::pow(s, 8.L)};
    moments(c, x, ld(R(mu)), cm, 512 * EPS, "normal"); moments(c, y, ld(R(mu)), cm, 512 * EPS, "normal, second call");
    indep(c, x, y, s == 0);
}
static void chisquare(vh::Ctx &c) {
    const int big[] = {1000, 12345, 1000000, 2147483647};
    const int q = c.choose(c.thorough() ? 2004 : 204);
    c.shard();
    const int k = q < 4 ? big[q] : q - 4;
    c.note([&] { return "chisquare(" + std::to_string(k) + ")"; });
    c.step(); c.state(vh::hashd(2, k));
    const U x = unc::distr::chisquare<U>(k), y = unc::distr::chisquare<U>(k);
    // central moments from the cumulants k_n = 2^(n-1) (n-1)! k
    L kap[9] = {0, 0}, f = 1; for (int n = 2; n <= 8; ++n) { f *= 2 * (n - 1); kap[n] = f * k; }
    L cm[9] = {1, 0};
    for (int n = 2; n <= 8; ++n) {
        cm[n] = 0; L b = 1;                       // b = C(n-1, j-1)
        for (int j = 1; j <= n; ++j) { if (j > 1) b = b * (n - j + 1) / (j - 1); cm[n] += b * kap[j] * cm[n - j]; }
    }
    if (k == 0) {
        c.check(ld(x.first_order_n()) == 0 && ld(x.n()) == 0 && ld(x.s()) == 0 && x.isindep() && x.indepid() == 0, "zero", [&] { return std::string("chisquare(0) is not the constant 0"); });
        return;
    }
    moments(c, x, k, cm, 512 * EPS, "chisquare"); moments(c, y, k, cm, 512 * EPS, "chisquare, second call");
    indep(c, x, y, false);
}
static const L LR[] = {0, 1, -1, 2.5L, -3, 1000, 0.1L, 0.3L, -7.75L, 1e-3L, BIG ? std::ldexp(1.5L, -40) : std::ldexp(1.5L, -12), BIG ? -std::ldexp(1.L, 40) : -std::ldexp(1.L, 12), 1000 + (BIG ? std::ldexp(1.L, -20) : std::ldexp(1.L, -8))};
static void uniform(vh::Ctx &c) {
    const L a = ld(R(LR[c.choose(13)])), b = ld(R(LR[c.choose(13)]));
    c.shard();
    c.note([&] { return "uniform(" + vh::num(a) + ", " + vh::num(b) + ")"; });
    c.step(); c.state(vh::hashd(vh::hashd(3, double(a)), double(b)));
    if (a > b) {
        bool threw = false;
        try { unc::distr::uniform<U>(R(a), R(b)); } catch (const std::invalid_argument &) { threw = true; }
        c.check(threw, "uniform-throw", [&] { return "uniform(" + vh::num(a) + ", " + vh::num(b) + ") did not throw std::invalid_argument"; });
        return;
    }
    const U x = unc::distr::uniform<U>(R(a), R(b)), y = unc::distr::uniform<U>(R(a), R(b));
    const L w = (b - a) / 2;
    // rounding of the endpoints' difference and sum
    const L amp = b > a ? std::fmax(std::fabs(a), std::fabs(b)) / (b - a) : 1;
    L cm[9]; for (int n = 0; n <= 8; ++n) cm[n] = n % 2 ? 0 : std::pow(w, L(n)) / (n + 1);
    cm[0] = 1;
    const L mid = (a + b) / 2;
    c.check(std::fabs(ld(x.n()) - mid) <= 4 * EPS * (std::fabs(a) + std::fabs(b)), "uniform-mean", [&] { return "mean of uniform is " + vh::num(ld(x.n())) + ", expected " + vh::num(mid); });
    moments(c, x, ld(x.n()), cm, 512 * EPS * (1 + amp), "uniform"); moments(c, y, ld(x.n()), cm, 512 * EPS * (1 + amp), "uniform, second call");
    indep(c, x, y, a == b);
}
static void invalid(vh::Ctx &c) {
    const int w = c.choose(3), q = c.choose(6);
    c.shard();
    static const L NEG[] = {-1, -0.5L, -1e-3L, -1e-30L, -1e30L, -HUGE_VALL};
    static const int NK[] = {-1, -2, -3, -100, -2147483647, -2147483647 - 1};
    c.note([&] { return "invalid parameter " + std::to_string(q) + " of distribution " + std::to_string(w); });
    c.step(); c.state(vh::hashd(4, w * 6 + q));
    bool threw = false;
    try {
        if (w == 0) unc::distr::normal<U>(R(2), R(NEG[q]));
        else if (w == 1) unc::distr::chisquare<U>(NK[q]);
        else unc::distr::uniform<U>(R(0), R(NEG[q]));
    } catch (const std::invalid_argument &) { threw = true; }
    c.check(threw, "invalid", [&] { return std::string("an invalid parameter did not throw std::invalid_argument"); });
}
int main(int argc, char **argv) {
    vh::Harness h;
    h.add("normal", normal); h.add("chisquare", chisquare); h.add("uniform", uniform); h.add("invalid", invalid);
    return h.main(argc, argv);
}
#endif
