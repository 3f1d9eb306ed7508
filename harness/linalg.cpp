// MON=17 (C17): ureals() on every small integer matrix; MON=18 (C18): stat.hpp on every short list
// of a palette of variables.
#include "vh.hpp"
#include <uncertainties/ureal.hpp>
#include <uncertainties/ureal2.hpp>
#include <uncertainties/ureals.hpp>
#include <uncertainties/stat.hpp>
#include <uncertainties/impl.hpp>
#include <array>
#include <deque>
#include <list>
#include <iterator>
#ifndef REAL
#define REAL double
#endif
#ifndef MON
#define MON 17
#endif
namespace unc = uncertainties;
typedef REAL R; typedef long double L; typedef unc::UReal<R> U;
static L ld(const R &x) { return static_cast<L>(x); }
// element types other than R, where they mix with it
template<class T> using Mixed = typename std::conditional<std::is_arithmetic<R>::value, T, R>::type;
static const L EPS = static_cast<L>(std::numeric_limits<R>::epsilon());

#if MON == 17
// exact integer determinant of the principal minor selected by mask
static long minor(const int *a, int n, int mask) {
    int ix[6], k = 0; for (int i = 0; i < n; ++i) if (mask >> i & 1) ix[k++] = i;
    // fraction free elimination
    __int128 m[6][6], prev = 1; int sg = 1;
    for (int i = 0; i < k; ++i) for (int j = 0; j < k; ++j) m[i][j] = a[ix[i] * n + ix[j]];
    for (int p = 0; p < k - 1; ++p) {
        if (m[p][p] == 0) { int q = p + 1; while (q < k && m[q][p] == 0) ++q; if (q == k) return 0; for (int j = 0; j < k; ++j) std::swap(m[p][j], m[q][j]); sg = -sg; }
        for (int i = p + 1; i < k; ++i) for (int j = p + 1; j < k; ++j) m[i][j] = (m[i][j] * m[p][p] - m[i][p] * m[p][j]) / prev;
        prev = m[p][p];
    }
    return k ? long(sg * m[k - 1][k - 1]) : 1;
}
enum { PD, SINGULAR, INDEFINITE };
// positive definite apart from null rows and columns; positive semidefinite; none
static int classify(const int *a, int n) {
    bool psd = true, pd = true; int nz = 0;
    for (int i = 0; i < n; ++i) { bool z = true; for (int j = 0; j < n; ++j) z = z && a[i * n + j] == 0; if (!z) nz |= 1 << i; }
    for (int m = 1; m < 1 << n; ++m) {
        const long d = minor(a, n, m);
        if (d < 0) psd = false;
        if ((m & ~nz) == 0 && d <= 0) pd = false;
    }
    return !psd ? INDEFINITE : pd ? PD : SINGULAR;
}
static R cov_(const U &a, const U &b) { return cov(a, b); }
template<class Out, class In> static void run(vh::Ctx &c, int n, const int *a, const L *sc, L base, bool junk, int known = -1) {
    // sc: the scale of each variable (a power of two, so that the matrix stays exact)
    In mu(n), cov(n * n);
    for (int i = 0; i < n; ++i) mu[i] = R(1.5L * i - 0.75L);
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
        L v = a[i * n + j] * sc[i] * sc[j] * base;
        if (i < j && junk) v = (i + j) % 2 ? NAN : 12345;     // column-major: element (i, j) is at i + n j, the lower triangle is read
        cov[i + n * j] = R(v);
    }
    const int cls = known >= 0 ? known : classify(a, n);
    const U before(R(1), R(2));
    Out out; bool threw = false;
    try { out = unc::ureals<Out>(mu, cov); }
    catch (const std::runtime_error &) { threw = true; }
    if (cls == INDEFINITE) { c.check(threw, "indefinite", [&] { return std::string("an indefinite matrix did not throw std::runtime_error"); }); return; }
    if (cls == SINGULAR && threw) return;
    c.check(!threw, "rejected", [&] { return std::string("a positive definite matrix was rejected"); });
    c.check(int(out.size()) == n, "size", [&] { return std::string("wrong number of variables"); });
    const Out second = unc::ureals<Out>(mu, cov);
    for (int i = 0; i < n; ++i) {
        c.check(ld(out[i].n()) == 1.5L * i - 0.75L, "mean", [&] { return "mean " + std::to_string(i) + " is " + vh::num(ld(out[i].n())); });
        c.check(unc::UReal<R>(out[i]).s() >= 0 && ld(cov_(out[i], before)) == 0, "fresh", [&] { return std::string("correlated with an older variable"); });
        for (int j = 0; j < n; ++j) {
            const L want = a[i * n + j] * sc[i] * sc[j] * base, tol = 64 * EPS * n * std::sqrt(L(a[i * n + i]) * a[j * n + j]) * sc[i] * sc[j] * base;
            c.check(std::fabs(ld(cov_(out[i], out[j])) - want) <= tol, "cov", [&] { return "cov(" + std::to_string(i) + ", " + std::to_string(j) + ") is " + vh::num(ld(cov_(out[i], out[j]))) + ", requested " + vh::num(want); });
            c.check(ld(cov_(out[i], second[j])) == 0, "fresh", [&] { return std::string("two calls gave correlated variables"); });
        }
    }
}

static L SCALE[4] = {1, 0.015625L, 4, 0.5L};
static std::string show(int n, const int *a) { std::string s; for (int i = 0; i < n * n; ++i) s += (i % n ? " " : i ? "; " : "") + std::to_string(a[i]); return s; }
static void check(vh::Ctx &c, int n, const int *a, int lim) {
    const int sc = c.choose(lim), junk = c.choose(2);
    c.note([&] { return "matrix " + show(n, a) + ", scaling " + std::to_string(sc) + (junk ? ", other triangle filled with garbage" : ""); });
    c.step(); { uint64_t h = n * 8 + sc * 2 + junk; for (int i = 0; i < n * n; ++i) h = vh::mix(h, a[i] + 10); c.state(h); }
    L s[6]; for (int i = 0; i < n; ++i) s[i] = sc == 0 ? 1 : SCALE[(i + sc) % 4];
    const L base = sc == 2 ? 1.L/1048576 : sc == 3 ? 1048576.L : 1;
    if (sc == 1) run<std::deque<U>, std::deque<R>>(c, n, a, s, base, junk);
    else run<std::vector<U>, std::vector<R>>(c, n, a, s, base, junk);
}
static void small(vh::Ctx &c) {
    const int n = 1 + c.choose(3);
    int a[9];
    for (int i = 0; i < n; ++i) for (int j = 0; j <= i; ++j) a[i * n + j] = a[j * n + i] = c.choose(6) - 2;
    c.shard();
    check(c, n, a, 4);
}
static void four(vh::Ctx &c) {
    const int n = 4; int a[16];
    for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) a[i * n + j] = a[j * n + i] = c.choose(3) - 1;
    c.shard();
    for (int i = 0; i < n; ++i) a[i * n + i] = c.choose(c.thorough() ? 5 : 4);
    check(c, n, a, 1);
}
static void five(vh::Ctx &c) {
    const int n = 5; int a[25];
    for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) a[i * n + j] = a[j * n + i] = c.choose(c.thorough() ? 3 : 2) - 1;
    c.shard();
    static const int D[6][5] = {{2, 2, 2, 2, 2}, {1, 3, 2, 5, 4}, {5, 4, 3, 2, 1}, {0, 3, 4, 3, 3}, {4, 0, 4, 0, 5}, {9, 9, 9, 9, 9}};
    const int d = c.choose(6);
    for (int i = 0; i < n; ++i) a[i * n + i] = D[d][i];
    check(c, n, a, 1);
}
// larger matrices built as L D L^T with integer unit triangular L, permuted, with null rows inserted
static void large(vh::Ctx &c) {
    static const int SZ[] = {6, 7, 8, 9, 12, 16, 17, 24, 33};
    const int n = SZ[c.choose(c.thorough() ? 9 : 7)], lp = c.choose(6), perm = c.choose(3);
    c.shard();
    const int neg = c.choose(n + 1) - 1, nul = c.choose(4), dp = c.choose(2), junk = c.choose(2);
    std::vector<int> l(n * n, 0), d(n), a(n * n, 0), ix(n);
    for (int i = 0; i < n; ++i) {
        l[i * n + i] = 1; d[i] = i == neg ? -1 : dp ? 1 + i % 4 : 1; ix[i] = perm == 0 ? i : perm == 1 ? n - 1 - i : (i * 5 + 2) % n;
        for (int j = 0; j < i; ++j) l[i * n + j] = lp == 0 ? 0 : lp == 1 ? (j == i - 1 ? -1 : 0) : lp == 2 ? (j == 0) : lp == 3 ? (i == n - 1 ? 1 - 2 * (j % 2) : 0) : lp == 4 ? (i / 2 == j / 2 ? 1 : 0) : (i + 2 * j) % 5 == 0;
    }
    if (perm == 2 && n % 5 == 0) c.prune();
    const int z0 = nul == 1 ? 0 : nul == 2 ? n / 2 : nul == 3 ? n - 1 : -1, z1 = nul == 3 ? 1 : -1;
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
        int v = 0; for (int k = 0; k < n; ++k) v += l[ix[i] * n + k] * d[k] * l[ix[j] * n + k];
        a[i * n + j] = i == z0 || i == z1 || j == z0 || j == z1 ? 0 : v;
    }
    // deleting a row and column of an indefinite matrix may make it definite
    if (neg >= 0 && nul) c.prune();
    c.note([&] { return "matrix of size " + std::to_string(n) + ": " + show(n, a.data()); });
    c.step(); { uint64_t h = n * 2 + junk; for (int v : a) h = vh::mix(h, v + 100); c.state(h); }
    std::vector<L> sc(n); for (int i = 0; i < n; ++i) sc[i] = dp ? SCALE[i % 4] : 1;
    run<std::vector<U>, std::vector<R>>(c, n, a.data(), sc.data(), 1, junk, neg >= 0 ? INDEFINITE : PD);
}
static void sizes(vh::Ctx &c) {
    const int n = c.choose(6), m = c.choose(40);
    c.shard();
    c.note([&] { return std::to_string(n) + " means and " + std::to_string(m) + " matrix elements"; });
    c.step(); c.state(n * 64 + m);
    std::vector<R> mu(n, R(1)), cov(m, R(0));
    for (int i = 0; i < n && i * (n + 1) < m; ++i) cov[i * (n + 1)] = 1;
    bool threw = false; std::vector<U> out;
    try { out = unc::ureals<std::vector<U>>(mu, cov); } catch (const std::invalid_argument &) { threw = true; }
    c.check(threw == (m != n * n), "size", [&] { return std::to_string(n) + " means and " + std::to_string(m) + (threw ? " elements threw" : " elements did not throw"); });
    if (!threw) c.check(int(out.size()) == n, "size", [&] { return std::string("wrong number of variables"); });
}
// the requested numbers may come in any sequence type, and in another numeric type
static void inputs(vh::Ctx &c) {
    const int k = c.choose(4);
    c.shard();
    c.note([&] { return "input container " + std::to_string(k); });
    c.step(); c.state(k);
    const double mu[2] = {1.5, -2}, cv[4] = {4, 1, 1, 2};
    std::vector<U> x;
    if (k == 0) x = unc::ureals<std::vector<U>>(std::array<Mixed<double>, 2>{{1.5, -2}}, std::array<double, 4>{{4, 1, 1, 2}});
    if (k == 1) x = unc::ureals<std::vector<U>>(std::vector<Mixed<float>>(mu, mu + 2), std::deque<int>(cv, cv + 4));
    if (k == 2) { Eigen::Matrix<Mixed<double>, 2, 1> m(Mixed<double>(1.5), Mixed<double>(-2)); Eigen::Vector4d v(4, 1, 1, 2); x = unc::ureals<std::vector<U>>(m, v); }
    if (k == 3) x = unc::ureals<std::vector<U>>(std::deque<R>(mu, mu + 2), std::vector<R>(cv, cv + 4));
    c.check(x.size() == 2 && ld(x[0].n()) == 1.5L && ld(x[1].n()) == -2, "mean", [&] { return std::string("wrong means"); });
    for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) c.check(std::fabs(ld(cov(x[i], x[j])) - cv[i * 2 + j]) <= 64 * EPS * 4, "cov", [&] { return std::string("wrong covariance"); });
}
#else
// palette of variables, as inputs allow
template<class X> struct Pal;
template<> struct Pal<U> {
    static std::vector<U> make() {
        U a(R(1.25), R(0.5)), b(R(-2), R(0.25)), k(R(3));
        U q = a * b; (void)q.s();
        return {a, b, k, U(a - b), q, U(R(2) * a), U(b - b)};
    }
};
template<unc::Prop P> struct Pal<unc::UReal2<R, P>> {
    typedef unc::UReal2<R, P> X;
    static std::vector<X> make() {
        std::array<R, 6> m1{{0, 3, 0, 15, 0, 105}}, m2{{2, 9, 44, 265, 1854, 14833}};
        X a(R(1.25), R(0.5), m1, R(-1)), b(R(-2), R(0.25), m2, R(-1)), k(R(3));
        return {a, b, k, X(a - b), X(a * b), X(a * a), X(b - b)};
    }
};
static bool eqv(const R &got, const R &want, L scale) {
    const L a = ld(got), b = ld(want);
    if (std::isnan(b)) return std::isnan(a);
    return a == b || std::fabs(a - b) <= 16 * EPS * (std::fabs(b) + scale);
}
struct Guard { R v; };
static const int LONG[] = {5, 6, 7, 8, 9, 11, 16, 17, 20};
template<class X> static void lists(vh::Ctx &c, bool big) {
    static const std::vector<X> pal = Pal<X>::make();
    const int n = big ? LONG[c.choose(c.thorough() ? 9 : 7)] : c.choose(c.thorough() ? 6 : 5);
    std::vector<X> x;
    std::vector<int> which;
    if (big) { const int o = c.choose(7), st = c.choose(4); c.shard(); for (int i = 0; i < n; ++i) which.push_back((o + st * i + (st == 3 ? i * i / 4 : 0)) % 7); }
    else for (int i = 0; i < n; ++i) { which.push_back(c.choose(n == 5 ? 5 : int(pal.size()))); if (i == 1 && n >= 2) c.shard(); }
    if (!big && n < 2) c.shard();
    for (int i : which) x.push_back(pal[i]);
    const int form = c.choose(6);
    c.note([&] { std::string s = "list"; for (int i : which) s += " " + std::to_string(i); return s + ", form " + std::to_string(form); });
    uint64_t h = form; for (int i : which) h = vh::mix(h, i + 1);
    c.step(); c.state(h);
    for (int kind = 0; kind < 2; ++kind) {
        std::vector<R> got;
        const R S = R(-987654);
        if (form == 0) got = kind ? unc::corr_matrix<std::vector<R>>(x) : unc::cov_matrix<std::vector<R>>(x);
        else if (form == 1) {           // iterators, guarded output
            std::vector<R> o(n * n + 3, S);
            auto e = kind ? unc::corr_matrix(x.begin(), x.end(), o.begin()) : unc::cov_matrix(x.begin(), x.end(), o.begin());
            c.check(e - o.begin() == n * n, "end", [&] { return "the returned iterator is at position " + std::to_string(e - o.begin()) + " of " + std::to_string(n * n); });
            for (int i = 0; i < 3; ++i) c.check(o[n * n + i] == S, "overrun", [&] { return std::string("elements past the end of the matrix were written"); });
            got.assign(o.begin(), o.begin() + n * n);
        } else if (form == 2) {         // list in, deque out
            std::list<X> l(x.begin(), x.end());
            std::deque<R> o = kind ? unc::corr_matrix<std::deque<R>>(l) : unc::cov_matrix<std::deque<R>>(l);
            got.assign(o.begin(), o.end());
        } else if (form == 3) {         // back_inserter
            std::deque<X> l(x.begin(), x.end());
            if (kind) unc::corr_matrix(l.begin(), l.end(), std::back_inserter(got)); else unc::cov_matrix(l.begin(), l.end(), std::back_inserter(got));
        } else if (form == 4) {         // raw pointers
            std::vector<R> o(n * n + 1, S);
            const X *b = x.data(), *e = b + n;
            R *q = kind ? unc::corr_matrix(b, e, o.data()) : unc::cov_matrix(b, e, o.data());
            c.check(q == o.data() + n * n && o[n * n] == S, "end", [&] { return std::string("wrong end of the output"); });
            got.assign(o.begin(), o.begin() + n * n);
        } else {                        // sub-range of a list, list output
            std::list<X> l(x.begin(), x.end()); l.push_front(pal[0]); l.push_back(pal[1]);
            std::list<R> o(n * n, S);
            auto b = l.begin(), e = l.end(); ++b; --e;
            auto r = kind ? unc::corr_matrix(b, e, o.begin()) : unc::cov_matrix(b, e, o.begin());
            c.check(r == o.end(), "end", [&] { return std::string("wrong end of the output"); });
            got.assign(o.begin(), o.end());
        }
        c.check(int(got.size()) == n * n, "size", [&] { return "the matrix has " + std::to_string(got.size()) + " elements"; });
        for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
            const R want = kind ? corr(x[i], x[j]) : cov(x[i], x[j]);
            const L sc = kind ? 1 : ld(x[i].s()) * ld(x[j].s());
            c.check(eqv(got[i * n + j], want, sc), kind ? "corr" : "cov", [&] { return std::string(kind ? "corr" : "cov") + " element " + std::to_string(i) + ", " + std::to_string(j) + " is " + vh::num(ld(got[i * n + j])) + ", expected " + vh::num(ld(want)); });
        }
    }
    // means
    std::vector<R> mu = unc::nom_vector<std::vector<R>>(x);
    std::list<X> l(x.begin(), x.end()); std::deque<R> mq = unc::nom_vector<std::deque<R>>(l);
    c.check(int(mu.size()) == n && int(mq.size()) == n, "nom-size", [&] { return std::string("nom_vector has the wrong length"); });
    for (int i = 0; i < n; ++i) c.check(ld(mu[i]) == ld(nom(x[i])) && ld(mq[i]) == ld(nom(x[i])) && ld(mu[i]) == ld(x[i].n()), "nom", [&] { return "nom_vector element " + std::to_string(i) + " is " + vh::num(ld(mu[i])); });
}
static void corr2cov(vh::Ctx &c, bool big) {
    static const L SG[] = {1, 0.5L, 3, 0, 20}, CR[] = {1, 0, -0.5L, 0.25L};
    const int n = big ? 4 + c.choose(7) : c.choose(4), m = big ? n * n - 2 + c.choose(5) : c.choose(20);
    c.shard();
    std::vector<R> sg, cr(m); if (big) { const int o = c.choose(5), st = c.choose(5); for (int i = 0; i < n; ++i) sg.push_back(R(SG[(o + st * i) % 5])); } else for (int i = 0; i < n; ++i) sg.push_back(R(SG[c.choose(5)]));
    const int seed = m == n * n ? c.choose(64) : 0;
    for (int i = 0; i < m; ++i) cr[i] = R(CR[(seed >> (2 * (i % 3))) & 3] + 0.015625L * i);
    c.note([&] { return std::to_string(n) + " sigmas, " + std::to_string(m) + " matrix elements, pattern " + std::to_string(seed); });
    uint64_t h = n * 64 + m; for (auto &s : sg) h = vh::hashd(h, double(s)); c.step(); c.state(vh::mix(h, seed));
    bool threw = false; std::vector<R> out; std::deque<R> o2;
    try { out = unc::corr2cov<std::vector<R>>(sg, cr); } catch (const std::invalid_argument &) { threw = true; }
    c.check(threw == (m != n * n), "size", [&] { return std::string(threw ? "compatible" : "incompatible") + " sizes " + std::to_string(n) + " and " + std::to_string(m) + (threw ? " threw" : " did not throw"); });
    if (threw) return;
    o2 = unc::corr2cov<std::deque<R>>(std::deque<R>(sg.begin(), sg.end()), std::deque<R>(cr.begin(), cr.end()));
    c.check(out.size() == size_t(n * n) && o2.size() == size_t(n * n), "size", [&] { return std::string("wrong length of the result"); });
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
        const L want = ld(sg[i]) * ld(sg[j]) * ld(cr[i * n + j]);
        c.check(std::fabs(ld(out[i * n + j]) - want) <= 8 * EPS * std::fabs(want) && ld(o2[i * n + j]) == ld(out[i * n + j]), "corr2cov", [&] { return "element " + std::to_string(i) + ", " + std::to_string(j) + " is " + vh::num(ld(out[i * n + j])) + ", expected " + vh::num(want); });
    }
}
#endif
int main(int argc, char **argv) {
    vh::Harness h;
#if MON == 17
    h.add("small", small); h.add("four", four); h.add("five", five); h.add("large", large); h.add("sizes", sizes); h.add("inputs", inputs);
#else
    for (bool b : {false, true}) {
        const std::string t = b ? "-long" : "";
        h.add("lists-first" + t, [b](vh::Ctx &c) { lists<U>(c, b); });
        h.add("lists-est" + t, [b](vh::Ctx &c) { lists<unc::UReal2<R, unc::Prop::est>>(c, b); });
        h.add("lists-mean" + t, [b](vh::Ctx &c) { lists<unc::UReal2<R, unc::Prop::mean>>(c, b); });
        h.add("corr2cov" + t, [b](vh::Ctx &c) { corr2cov(c, b); });
    }
#endif
    return h.main(argc, argv);
}
