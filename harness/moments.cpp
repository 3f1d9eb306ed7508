// C11 (moments) and C12 (covariance, MON=12) of UReal2 against multiplied-out polynomials.
#include "vh.hpp"
#include "poly.hpp"
#include "um2.hpp"
#include <uncertainties/impl.hpp>
#include <memory>
#ifndef REAL
#define REAL double
#endif
#ifndef LIGHT
#define LIGHT 0  // 1: smaller bounds for the slow numeric types
#endif
#ifndef MON
#define MON 11
#endif
#ifndef PROP
#define PROP unc::Prop::est
#endif
namespace unc = uncertainties;
typedef unc::UReal2<REAL, PROP> U;
typedef REAL Rl;
static LD ld(const REAL &x) { return static_cast<LD>(x); }

// Scalings by powers of two, under which the polynomial is only multiplied by D: the standard
// deviations are multiplied by S_i, the first derivatives by D/S_i, the second by D/(S_i S_j).
static const int NPAT = 7;
static double two(int e) { return std::ldexp(1., std::numeric_limits<REAL>::max_exponent > 1000 ? e * 4 : e); }
static double patD(int p) { return two(p == 2 || p == 3 ? -10 : p == 4 || p == 6 ? 10 : 0); }
static double patS(int p, int i) { return two(p == 1 || p == 3 ? -10 : p == 4 ? 10 : p == 5 ? (i % 3 - 1) * 8 : p == 6 ? (i % 2 ? 6 : -9) : 0); }
struct Inputs {
    int n, pat; double D; std::vector<U> x; std::vector<double> s, S; poly::Mom mom;
    std::unique_ptr<poly::Space> sp; std::unique_ptr<poly::Expect> ex;
    double g(int i, double v) const { return v * (D / S[i]); }
    double h(int i, int j, double v) const { return v * (D / S[i] / S[j]); }
    Inputs(int n_, int assignment, bool unit, int pat_, bool oracle = true): n(n_), pat(pat_), D(patD(pat_)) {
        if (oracle) sp.reset(new poly::Space(n));
        for (int i = 0; i < n; ++i) {
            std::array<LD, 9> m = poly::moments_of(assignment == 0 ? 0 : assignment == 1 ? 1 + i : 8 - i);
            std::array<REAL, 6> a; for (int k = 0; k < 6; ++k) { a[k] = Rl(m[k + 3]); m[k + 3] = ld(a[k]); }
            S.push_back(patS(pat, i));
            const double sg = (unit ? 1 : 0.5 + 0.375 * i) * S[i];
            x.push_back(U(Rl(0), Rl(sg), a, Rl(-1))); s.push_back(sg); mom.push_back(m);
        }
        if (oracle) ex.reset(new poly::Expect(*sp, mom));
    }
    static Inputs &get(int n, int assignment, bool unit, int pat = 0) {
        static std::map<std::array<int, 4>, std::unique_ptr<Inputs>> all;
        auto &p = all[{{n, assignment, int(unit), pat}}];
        if (!p) p.reset(new Inputs(n, assignment, unit, pat));
        return *p;
    }
};
struct Coef {                            // derivatives with respect to the inputs
    int n; std::vector<double> g; std::vector<std::vector<double>> h;
    std::vector<std::vector<int>> extra; // extra[i][j]: store an explicit zero there
    explicit Coef(int n_): n(n_), g(n_, 0), h(n_, std::vector<double>(n_, 0)), extra(n_, std::vector<int>(n_, 0)) {}
};
static U build(const Inputs &in, const Coef &c) {
    U u;
    for (int i = 0; i < in.n; ++i) {
        if (c.g[i] != 0 || c.h[i][i] != 0) u = u + unary(in.x[i], Rl(0), Rl(in.g(i, c.g[i])), Rl(in.h(i, i, c.h[i][i])));
        for (int j = i + 1; j < in.n; ++j) {
            if (c.h[i][j] != 0) u = u + Rl(in.h(i, j, c.h[i][j])) * (in.x[i] * in.x[j]);
            if (c.extra[i][j]) u = u + (in.x[i] * in.x[j] - in.x[j] * in.x[i]);
        }
    }
    return u;
}
static poly::Quad ref(const Inputs &in, const Coef &c) {
    return poly::quad(*in.sp, [&](int i) { return E(in.g(i, c.g[i])) * E(in.s[i]); }, [&](int i, int j) { return E(in.h(i, j, c.h[i][j])) * E(in.s[i]) * E(in.s[j]); });
}
static std::string show(const Coef &c) {
    std::ostringstream s; s << "grad";
    for (double g : c.g) s << ' ' << g;
    s << " hess";
    for (int i = 0; i < c.n; ++i) for (int j = i; j < c.n; ++j) if (c.h[i][j] != 0) s << " (" << i << ',' << j << ")=" << c.h[i][j];
    return s.str();
}
static std::string scal(const Inputs &in) {
    if (!in.pat) return "";
    std::ostringstream s; s << " (the sigmas multiplied by";
    for (double v : in.S) s << ' ' << v;
    s << ", the function by " << in.D << ")";
    return s.str();
}
static uint64_t hash(const Coef &c, uint64_t h) {
    for (double g : c.g) h = vh::hashd(h, g);
    for (int i = 0; i < c.n; ++i) for (int j = i; j < c.n; ++j) { h = vh::hashd(h, c.h[i][j]); h = vh::mix(h, c.extra[i][j]); }
    return h;
}

static void check_moments(vh::Ctx &c, const U &u, const std::array<E, 5> &m, const std::string &what, double D = 1, int upto = 4) {
    for (int k = 1; k <= upto; ++k)
        c.check(agree(ld(u.m(k)), m[k]), ("m" + std::to_string(k)).c_str(), [&] { return "m(" + std::to_string(k) + ") of " + what + " is " + vh::num(ld(u.m(k))) + " but that of the quadratic polynomial is " + vh::num(m[k].v) + " (allowance " + vh::num(16 * m[k].e) + ")"; });
    c.check(agree(ld(var(u)), m[2]), "var", [&] { return "var of " + what + " is " + vh::num(ld(var(u))) + ", expected " + vh::num(m[2].v); });
    c.check(agree(ld(cov(u, u)), m[2]), "cov(x,x)", [&] { return "cov(x, x) of " + what + " is " + vh::num(ld(cov(u, u))) + ", expected " + vh::num(m[2].v); });
    if (m[2].v > 1e-3L * D * D && m[2].e < 1e-5L * m[2].v) {
        const E s = esqrt(m[2]);
        c.check(agree(ld(u.s()), s), "s", [&] { return "s() of " + what + " is " + vh::num(ld(u.s())) + ", expected " + vh::num(s.v); });
        const E sk = m[3] / (s * m[2]), ku = m[4] / (m[2] * m[2]);
        c.check(agree(ld(u.skew()), sk), "skew", [&] { return "skew() of " + what + " is " + vh::num(ld(u.skew())) + ", expected " + vh::num(sk.v); });
        if (upto == 4) c.check(agree(ld(u.kurt()), ku), "kurt", [&] { return "kurt() of " + what + " is " + vh::num(ld(u.kurt())) + ", expected " + vh::num(ku.v); });
    }
}


// Many inputs: families of second derivative structures
static std::vector<std::vector<std::pair<int, int>>> families(int n) {
    std::vector<std::vector<std::pair<int, int>>> f(1);
    auto add = [&](const std::function<bool(int, int)> &in) { std::vector<std::pair<int, int>> v; for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) if (in(i, j)) v.push_back({i, j}); f.push_back(v); };
    add([](int, int) { return true; });
    for (int d : {1, 2, 3}) add([&](int i, int j) { return j == i + d; });
    for (int c = 0; c < n; ++c) add([&](int i, int j) { return i == c || j == c; });
    for (int c = 0; c < n; ++c) add([&](int i, int j) { return i != c && j != c; });
    for (int k = 1; k < n; ++k) add([&](int i, int j) { return i < k && j >= k; });
    for (int k = 2; k < n; ++k) { add([&](int, int j) { return j < k; }); add([&](int i, int) { return i >= n - k; }); }
    for (int k : {2, 3, 4}) { add([&](int i, int j) { return i / k == j / k; }); add([&](int i, int j) { return i % k == j % k; }); }
    add([&](int i, int j) { return i + j == n - 1; });
    add([&](int i, int j) { return j == i + 1 || (i == 0 && j == n - 1); });
    add([&](int i, int j) { return (i * 5 + j * 3) % 4 == 0; });
    for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) add([&](int a, int b) { return a == i && b == j; });
    return f;
}
static const int NSUB = 5;
static bool insub(int n, int s, int i) { return s == 0 ? false : s == 1 ? true : s == 2 ? i % 2 == 0 : s == 3 ? i < n / 2 : i == n - 1; }
static void fill(Coef &k, const std::vector<std::pair<int, int>> &f, int gs, int hs, int style) {
    const int n = k.n;
    for (int i = 0; i < n; ++i) { if (insub(n, gs, i)) k.g[i] = (i % 3 - 1.25) * 0.5 + 0.25 * style; if (insub(n, hs, i)) k.h[i][i] = (i * 3 % 5 - 1.75) * 0.25 - 0.125 * style; }
    int q = style; for (auto &p : f) { k.h[p.first][p.second] = k.h[p.second][p.first] = (q * 7 % 11 - 4.5) * 0.125; ++q; }
}

// Many inputs in independent groups of up to 4: cumulants and covariances of the groups add up.
// part: which inputs form a group
static std::vector<std::vector<int>> parts(int n, int part) {
    std::vector<std::vector<int>> g; std::vector<int> order;
    const int G = (n + 3) / 4;
    if (part == 0) for (int i = 0; i < n; ++i) order.push_back(i);                                     // neighbours
    else if (part == 1) { for (int k = 0; k < G; ++k) for (int i = k; i < n; i += G) order.push_back(i); } // far apart
    else if (part == 2) { for (int i = 0; i < n; ++i) order.push_back(i % 2 ? n - 1 - i / 2 : i / 2); } // from both ends
    else for (int i = 0; i < n; ++i) order.push_back((i * 5 + 3) % n);                                  // n is prime to 5
    const int sz = part == 3 ? 3 : 4;
    for (int i = 0; i < n; i += sz) g.push_back(std::vector<int>(order.begin() + i, order.begin() + std::min(n, i + sz)));
    return g;
}
static const int NFILL = 16;
static void gfill(Coef &k, const std::vector<std::vector<int>> &gr, int fillk, int style) {
    static const double V[7] = {0.5, -0.75, 1.25, -0.25, 0.875, -1, 0.375};
    int q = style + fillk;
    for (size_t g = 0; g < gr.size(); ++g) {
        const int f = fillk < 12 ? fillk : (fillk + int(g)) % 12;                 // the last ones mix the kinds
        for (size_t a = 0; a < gr[g].size(); ++a) {
            const int i = gr[g][a];
            if (f != 1 && f != 3 && !(f == 9 && a == 0)) k.g[i] = V[q++ % 7];
            if (f == 2 || f == 3 || f == 5 || (f == 10 && a % 2)) k.h[i][i] = V[q++ % 7];
            for (size_t b = a + 1; b < gr[g].size(); ++b) {
                const bool on = f == 1 || f == 4 || f == 5 || (f == 6 && b == a + 1) || (f == 7 && a == 0) || (f == 8 && a + b == 3) || (f == 9 && b == 2) || (f == 10 && (a + b) % 2) || (f == 11 && g + 1 == gr.size());
                if (on) k.h[i][gr[g][b]] = k.h[gr[g][b]][i] = V[q++ % 7];
            }
        }
    }
}
static poly::Space &space4(int n) { static std::map<int, std::unique_ptr<poly::Space>> all; auto &p = all[n]; if (!p) p.reset(new poly::Space(n)); return *p; }
struct ManyInputs {
    Inputs in; std::vector<std::vector<std::vector<int>>> gr; std::vector<std::vector<std::unique_ptr<poly::Expect>>> ex;
    explicit ManyInputs(int n): in(n, 1, false, 0, false) {
        for (int p = 0; p < 4; ++p) {
            gr.push_back(parts(n, p)); ex.emplace_back();
            for (auto &g : gr.back()) { poly::Mom m; for (int i : g) m.push_back(in.mom[i]); ex.back().emplace_back(new poly::Expect(space4(int(g.size())), m)); }
        }
    }
    static ManyInputs &get(int n) { static std::map<int, std::unique_ptr<ManyInputs>> all; auto &p = all[n]; if (!p) p.reset(new ManyInputs(n)); return *p; }
    poly::Quad ref(const Coef &c, const std::vector<int> &g) const {
        return poly::quad(space4(int(g.size())), [&](int i) { return E(c.g[g[i]]) * E(in.s[g[i]]); }, [&](int i, int j) { return E(c.h[g[i]][g[j]]) * E(in.s[g[i]]) * E(in.s[g[j]]); });
    }
    std::array<E, 5> central(const Coef &c, int part) const {
        E m1(0, 0), k2(0, 0), k3(0, 0), k4(0, 0);
        for (size_t g = 0; g < gr[part].size(); ++g) {
            const std::array<E, 5> m = poly::central(*ex[part][g], ref(c, gr[part][g]));
            m1 = m1 + m[1]; k2 = k2 + m[2]; k3 = k3 + m[3]; k4 = k4 + m[4] - E(3, 0) * m[2] * m[2];
        }
        return std::array<E, 5>{{E(1), loose(m1), loose(k2), loose(k3), loose(k4 + E(3, 0) * k2 * k2)}};
    }
    E covar(const Coef &a, const Coef &b, int part) const { E v(0, 0); for (size_t g = 0; g < gr[part].size(); ++g) v = v + poly::covar(*ex[part][g], ref(a, gr[part][g]), ref(b, gr[part][g])); return loose(v); }
    // the library sums more terms than this does
    E loose(E x) const { x.e = x.e * in.n; return x; }
};
static void groups(vh::Ctx &c, bool large) {
    E::eps() = ld(std::numeric_limits<REAL>::epsilon());
    static const int NS[] = {13, 17, 24, 33, 48, 131, 257};
    const int n = NS[large ? 5 + c.choose(2) : c.choose(LIGHT && !c.thorough() ? 2 : c.thorough() ? 5 : 4)], part = large ? 1 + c.choose(c.thorough() ? 3 : 1) : c.choose(4), f = c.choose(NFILL);
    c.shard();
    ManyInputs &M = ManyInputs::get(n);
#if MON == 11
    const int style = large ? 1 : c.choose(2);
    Coef k(n); gfill(k, M.gr[part], f, style);
    c.note([&] { return show(k); });
    c.step(); c.state(hash(k, n));
    check_moments(c, build(M.in, k), M.central(k, part), show(k), 1, n > 200 ? 3 : 4); // the fourth moment takes long
#else
    Coef a(n), b(n); gfill(a, M.gr[part], f, 0); gfill(b, M.gr[part], c.choose(NFILL), 1);
    if (c.choose(2)) for (int i = 0; i < n; i += 2) { b.g[i] = 0; for (int j = 0; j < n; ++j) b.h[i][j] = b.h[j][i] = 0; }
    c.note([&] { return "x: " + show(a) + " y: " + show(b); });
    c.step(); c.state(hash(b, hash(a, n)));
    const E w = M.covar(a, b, part);
    const U x = build(M.in, a), y = build(M.in, b);
    const LD p = ld(cov(x, y)), q = ld(cov(y, x));
    for (LD g : {p, q}) c.check(agree(g, w), "cov", [&] { return "cov is " + vh::num(g) + " but that of the polynomials is " + vh::num(w.v) + ": x: " + show(a) + " y: " + show(b); });
#endif
}

#if MON == 11
static void many(vh::Ctx &c, int n, bool scaled = false) {
    E::eps() = ld(std::numeric_limits<REAL>::epsilon());
    static std::map<int, std::vector<std::vector<std::pair<int, int>>>> all; auto &fs = all[n]; if (fs.empty()) fs = families(n);
    const int f = c.choose(int(fs.size())), gs = c.choose(NSUB);
    c.shard();
    const int hs = c.choose(NSUB), as = scaled ? 2 : 1 + c.choose(2), pat = scaled ? 1 + c.choose(NPAT - 1) : 0;
    Inputs &in = Inputs::get(n, as, false, pat);
    Coef k(n); fill(k, fs[f], gs, hs, 0);
    c.note([&] { return show(k); });
    const U u = build(in, k);
    c.step(); c.state(hash(k, as + 10 * in.pat));
    check_moments(c, u, poly::central(*in.ex, ref(in, k)), show(k) + scal(in), in.D);
}
// All points of the lattice {a in N^P : |a| <= 4} of the derivatives: it is
// unisolvent for polynomials of degree 4, which the raw moments are.
static void lattice(vh::Ctx &c, int n) {
    E::eps() = ld(std::numeric_limits<REAL>::epsilon());
    const int as = c.choose(3), extra = c.choose(2);
    Inputs &in = Inputs::get(n, as, true);
    Coef k(n); int left = 4;
    auto take = [&]() { int v = left > 0 ? c.choose(left + 1) : 0; left -= v; return v; };
    for (int i = 0; i < n; ++i) { k.g[i] = take(); k.h[i][i] = 2 * take(); }
    c.shard();
    for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) { k.h[i][j] = k.h[j][i] = take(); k.extra[i][j] = extra && k.h[i][j] == 0; }
    c.note([&] { return show(k); });
    const U u = build(in, k);
    c.step(); c.state(hash(k, as + 10 * in.pat));
    check_moments(c, u, poly::central(*in.ex, ref(in, k)), show(k) + scal(in), in.D);
}
// All presence patterns of the stored second derivatives
static void presence(vh::Ctx &c, int n, bool all, bool scaled = false) {
    E::eps() = ld(std::numeric_limits<REAL>::epsilon());
    const int np = n * (n - 1) / 2;
    const int tri = c.choose(1 << np);
    c.shard();
    const int pat = scaled ? 1 + c.choose(NPAT - 1) : 0, as = scaled ? 1 : c.choose(2) + 1, gz = all ? c.choose(1 << n) : c.choose(2) * ((1 << n) - 1), hz = all ? c.choose(1 << n) : c.choose(3), extra = scaled ? 0 : c.choose(2);
    Inputs &in = Inputs::get(n, as, false, pat);
    Coef k(n); int q = 0;
    static const double G[6] = {0.5, -1.25, 0.75, -0.5, 1.5, -0.875}, H[6] = {-0.5, 0.75, 0.375, -1, 0.625, 1.25}, T[15] = {0.5, -0.25, 0.375, 1, -0.625, 0.75, -0.5, 0.875, -0.375, 0.25, -1, 0.625, 0.5, -0.75, 0.3125};
    const int hset = all ? hz : hz == 0 ? 0 : hz == 1 ? (1 << n) - 1 : 0x15 & ((1 << n) - 1);
    for (int i = 0; i < n; ++i) { if (gz >> i & 1) k.g[i] = G[i]; if (hset >> i & 1) k.h[i][i] = H[i]; }
    for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j, ++q) { if (tri >> q & 1) k.h[i][j] = k.h[j][i] = T[q]; else k.extra[i][j] = extra && q % 2; }
    c.note([&] { return show(k); });
    const U u = build(in, k);
    c.step(); c.state(hash(k, as + 10 * in.pat));
    check_moments(c, u, poly::central(*in.ex, ref(in, k)), show(k) + scal(in), in.D);
}
// moments of results of short programs
static void programs(vh::Ctx &c, const std::vector<um2::Op> &alpha, int depth) {
    E::eps() = ld(std::numeric_limits<REAL>::epsilon());
    typedef um2::World<REAL, PROP> W;
    const int s = c.choose(W::NSTART), first = c.choose(int(alpha.size()));
    c.shard();
    static poly::Space sp(um2::NB);
    static std::unique_ptr<poly::Expect> ex;
    if (!ex) { poly::Mom m; for (int i = 0; i < um2::NB; ++i) { std::array<LD, 9> a{}; a[0] = 1; a[2] = 1; for (int q = 0; q < 6; ++q) a[q + 3] = ld(Rl(um2::stdmom(i)[q])); m.push_back(a); } ex.reset(new poly::Expect(sp, m)); }
    W w; w.start(s);
    c.note([&] { return std::string("start: ") + W::startname(s); });
    for (int d = 0; d < depth; ++d) {
        const um2::Op o = alpha[d == 0 ? first : c.choose(int(alpha.size()))];
        const bool fresh = c.fresh();
        c.note([&] { return um2::opname(o); });
        if (!w.apply(o)) c.prune();
        c.step(); c.state(w.hash());
        if (!fresh) continue;
        const um2::Reg &z = w.m[o.d];
        poly::Quad q = poly::quad(sp, [&](int i) { return i < w.nb ? z.g[i] * E(w.xs[i]) : E(0, 0); }, [&](int i, int j) { return i < w.nb && j < w.nb ? z.h[i][j] * E(w.xs[i]) * E(w.xs[j]) : E(0, 0); });
        check_moments(c, w.r[o.d], poly::central(*ex, q), "r" + std::to_string(o.d));
    }
}
#endif

#if MON == 12
static void ckcov(vh::Ctx &c, const U &x, const U &y, const E &w, const std::function<std::string()> &what) {
    const LD a = ld(cov(x, y)), b = ld(cov(y, x));
    c.check(agree(a, w), "cov", [&] { return "cov is " + vh::num(a) + " but that of the polynomials is " + vh::num(w.v) + ": " + what(); });
    c.check(agree(b, w), "cov-sym", [&] { return "cov with the arguments exchanged is " + vh::num(b) + " but that of the polynomials is " + vh::num(w.v) + ": " + what(); });
}
// cov is bilinear in the derivatives: all pairs of basis vectors, and all pairs of sums of two
static void basis(vh::Ctx &c, int n, bool scaled = false) {
    E::eps() = ld(std::numeric_limits<REAL>::epsilon());
    const int as = scaled ? 1 : c.choose(3), unit = scaled ? 0 : c.choose(2), extra = scaled ? 0 : c.choose(4), pat = scaled ? 1 + c.choose(NPAT - 1) : 0;
    Inputs &in = Inputs::get(n, as, unit, pat);
    const int P = 2 * n + n * (n - 1) / 2;
    auto pick = [&](Coef &k, int p, double v) {
        if (p < n) k.g[p] += v;
        else if (p < 2 * n) k.h[p - n][p - n] += 2 * v;
        else { int q = p - 2 * n; for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) if (q-- == 0) { k.h[i][j] += v; k.h[j][i] += v; } }
    };
    Coef a(n), b(n);
    const int a1 = c.choose(P), a2 = c.choose(P);
    c.shard();
    const int b1 = c.choose(P), b2 = c.choose(P);
    if (a2 < a1 || b2 < b1 || b1 < a1) c.prune();
    pick(a, a1, 1); if (a2 != a1) pick(a, a2, 2);
    pick(b, b1, 1); if (b2 != b1) pick(b, b2, -1);
    if (extra) for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) { if (extra & 1 && a.h[i][j] == 0) a.extra[i][j] = 1; if (extra & 2 && b.h[i][j] == 0) b.extra[i][j] = 1; }
    c.note([&] { return "x: " + show(a) + " y: " + show(b); });
    const U x = build(in, a), y = build(in, b);
    c.step(); c.state(hash(b, hash(a, as * 2 + unit + 10 * pat)));
    ckcov(c, x, y, poly::covar(*in.ex, ref(in, a), ref(in, b)), [&] { return "x: " + show(a) + " y: " + show(b) + scal(in); });
}
// All pairs of support / presence patterns
struct PatVar { Coef k; U u; poly::Quad q; E m1, v; };
static std::vector<PatVar> &table(int n, int as, int style, int pat) {
    static std::map<std::array<int, 4>, std::vector<PatVar>> all;
    auto &t = all[{{n, as, style, pat}}];
    if (!t.empty()) return t;
    Inputs &in = Inputs::get(n, as, false, pat);
    const int np = n * (n - 1) / 2;
    static const double G[6] = {0.5, -1.25, 0.75, -0.5, 1.5, -0.875}, H[6] = {-0.5, 0.75, 0.375, -1, 0.625, 1.25}, T[15] = {0.5, -0.25, 0.375, 1, -0.625, 0.75, -0.5, 0.875, -0.375, 0.25, -1, 0.625, 0.5, -0.75, 0.3125};
    for (int s = 0; s < 1 << n; ++s) for (int tr = 0; tr < 1 << np; ++tr) {
        bool ok = true; int q = 0;
        Coef k(n);
        for (int i = 0; i < n; ++i) if (s >> i & 1) {
            k.g[i] = style == 0 ? G[i] : -H[i] + 0.125;
            if (style == 0 || i % 2) k.h[i][i] = style == 0 ? H[i] : G[5 - i];
        }
        for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j, ++q) if (tr >> q & 1) { ok = ok && (s >> i & 1) && (s >> j & 1); k.h[i][j] = k.h[j][i] = style == 0 ? T[q] : T[(q * 7 + 3) % 15]; }
        if (!ok) continue;
        U u = build(in, k); poly::Quad rq = ref(in, k);
        t.push_back(PatVar{k, u, rq, poly::mean(*in.ex, rq), poly::covar(*in.ex, rq, rq)});
    }
    return t;
}
static void pats(vh::Ctx &c, int n, bool scaled = false) {
    E::eps() = ld(std::numeric_limits<REAL>::epsilon());
    const int as = 1 + c.choose(c.thorough() ? 2 : 1);
    const int pat = scaled ? 1 + c.choose(NPAT - 1) : 0;
    std::vector<PatVar> &ta = table(n, as, 0, pat), &tb = table(n, as, 1, pat);
    const PatVar &x = ta[c.choose(int(ta.size()))];
    c.shard();
    const PatVar &y = tb[c.choose(int(tb.size()))];
    Inputs &in = Inputs::get(n, as, false, pat);
    c.note([&] { return "x: " + show(x.k) + " y: " + show(y.k) + scal(in); });
    c.step(); c.state(hash(y.k, hash(x.k, as + 10 * pat)));
    const E w = poly::mean2(*in.ex, x.q, y.q) - x.m1 * y.m1;
    ckcov(c, x.u, y.u, w, [&] { return "x: " + show(x.k) + " y: " + show(y.k); });
    c.check(agree(ld(cov(x.u, x.u)), x.v) && agree(ld(var(x.u)), x.v), "cov(x,x)", [&] { return "cov(x, x) is " + vh::num(ld(cov(x.u, x.u))) + ", var(x) is " + vh::num(ld(var(x.u))) + ", expected " + vh::num(x.v.v); });
    if (x.v.v > 1e-3L * in.D * in.D && y.v.v > 1e-3L * in.D * in.D) {
        const E r = w / (esqrt(x.v) * esqrt(y.v));
        c.check(agree(ld(corr(x.u, y.u)), r), "corr", [&] { return "corr is " + vh::num(ld(corr(x.u, y.u))) + ", expected " + vh::num(r.v); });
    }
}
static void many(vh::Ctx &c, int n, bool scaled = false) {
    E::eps() = ld(std::numeric_limits<REAL>::epsilon());
    struct T { Coef k; U u; poly::Quad q; E m1; };
    static std::map<int, std::array<std::vector<T>, 2>> all; auto &t = all[n];
    Inputs &in = Inputs::get(n, 1, false);
    if (t[0].empty()) for (int style : {0, 1}) for (auto &f : families(n)) for (int gs = 0; gs < NSUB; ++gs) for (int hs : {0, 1, 2}) {
        if ((gs + hs + int(f.size())) % 3 && f.size() == 1) continue;
        Coef k(n); fill(k, f, gs, hs, style);
        poly::Quad q = ref(in, k); t[style].push_back(T{k, build(in, k), q, poly::mean(*in.ex, q)});
    }
    const T &x = t[0][c.choose(int(t[0].size()))];
    c.shard();
    const T &y = t[1][c.choose(int(t[1].size()))];
    c.note([&] { return "x: " + show(x.k) + " y: " + show(y.k); });
    c.step(); c.state(hash(y.k, hash(x.k, n)));
    ckcov(c, x.u, y.u, poly::mean2(*in.ex, x.q, y.q) - x.m1 * y.m1, [&] { return "x: " + show(x.k) + " y: " + show(y.k); });
}
static void programs(vh::Ctx &c, const std::vector<um2::Op> &alpha, int depth) {
    E::eps() = ld(std::numeric_limits<REAL>::epsilon());
    typedef um2::World<REAL, PROP> W;
    const int s = c.choose(W::NSTART), first = c.choose(int(alpha.size()));
    c.shard();
    static poly::Space sp(um2::NB);
    static std::unique_ptr<poly::Expect> ex;
    if (!ex) { poly::Mom m; for (int i = 0; i < um2::NB; ++i) { std::array<LD, 9> a{}; a[0] = 1; a[2] = 1; for (int q = 0; q < 6; ++q) a[q + 3] = ld(Rl(um2::stdmom(i)[q])); m.push_back(a); } ex.reset(new poly::Expect(sp, m)); }
    W w; w.start(s);
    c.note([&] { return std::string("start: ") + W::startname(s); });
    auto qd = [&](const um2::Reg &z) { return poly::quad(sp, [&](int i) { return i < w.nb ? z.g[i] * E(w.xs[i]) : E(0, 0); }, [&](int i, int j) { return i < w.nb && j < w.nb ? z.h[i][j] * E(w.xs[i]) * E(w.xs[j]) : E(0, 0); }); };
    for (int d = 0; d < depth; ++d) {
        const um2::Op o = alpha[d == 0 ? first : c.choose(int(alpha.size()))];
        const bool fresh = c.fresh();
        c.note([&] { return um2::opname(o); });
        if (!w.apply(o)) c.prune();
        c.step(); c.state(w.hash());
        if (!fresh) continue;
        const poly::Quad q = qd(w.m[o.d]);
        for (int j = 0; j < um2::NR; ++j) ckcov(c, w.r[o.d], w.r[j], poly::covar(*ex, q, qd(w.m[j])), [&] { return "r" + std::to_string(o.d) + " with r" + std::to_string(j); });
        for (int k = 0; k < w.nb; ++k) ckcov(c, w.r[o.d], w.x[k], poly::covar(*ex, q, qd(w.basis(k))), [&] { return "r" + std::to_string(o.d) + " with input " + std::to_string(k); });
        for (int k = 0; k < w.nb; ++k) for (int l = 0; l < k; ++l) c.check(cov(w.x[k], w.x[l]) == 0, "cov-indep", [&] { return std::string("independent inputs have nonzero covariance"); });
    }
}
#endif

int main(int argc, char **argv) {
    static const std::vector<um2::Op> FULL = um2::alphabet(false), CORE = um2::alphabet(true);
    vh::Harness h;
#if MON == 11
    h.add("lattice4", [](vh::Ctx &c) { lattice(c, 4); });
    h.add("lattice5", [](vh::Ctx &c) { lattice(c, 5); });
    h.add("lattice6", [](vh::Ctx &c) { if (LIGHT && !c.thorough()) return; lattice(c, 6); });
    h.add("lattice7", [](vh::Ctx &c) { if (!c.thorough()) return; lattice(c, 7); });
    h.add("presence4", [](vh::Ctx &c) { presence(c, 4, true); });
    h.add("presence5", [](vh::Ctx &c) { presence(c, 5, c.thorough()); });
    h.add("presence6", [](vh::Ctx &c) { if (!c.thorough()) return; presence(c, 6, false); });
    h.add("many7", [](vh::Ctx &c) { if (LIGHT && !c.thorough()) return; many(c, 7); });
    h.add("many9", [](vh::Ctx &c) { if (LIGHT && !c.thorough()) return; many(c, 9); });
    h.add("many12", [](vh::Ctx &c) { if (!c.thorough()) return; many(c, 12); });
    h.add("groups", [](vh::Ctx &c) { groups(c, false); });
    h.add("groups-large", [](vh::Ctx &c) { if (!LIGHT) groups(c, true); });
    h.add("scaled-presence4", [](vh::Ctx &c) { if (LIGHT && !c.thorough()) return; presence(c, 4, true, true); });
    h.add("scaled-many", [](vh::Ctx &c) { many(c, c.thorough() ? 7 : 5, true); });
    h.add("programs", [](vh::Ctx &c) { programs(c, FULL, LIGHT ? 1 : 2); });
    h.add("core-programs", [](vh::Ctx &c) { programs(c, CORE, c.thorough() ? 4 : LIGHT ? 2 : 3); });
#else
    h.add("basis4", [](vh::Ctx &c) { basis(c, 4); });
    h.add("basis5", [](vh::Ctx &c) { if (!c.thorough()) return; basis(c, 5); });
    h.add("patterns4", [](vh::Ctx &c) { pats(c, 4); });
    h.add("patterns5", [](vh::Ctx &c) { if (LIGHT && !c.thorough()) return; pats(c, 5); });
    h.add("many7", [](vh::Ctx &c) { if (LIGHT && !c.thorough()) return; many(c, 7); });
    h.add("many9", [](vh::Ctx &c) { if (LIGHT && !c.thorough()) return; many(c, 9); });
    h.add("many12", [](vh::Ctx &c) { if (!c.thorough()) return; many(c, 12); });
    h.add("groups", [](vh::Ctx &c) { groups(c, false); });
    h.add("groups-large", [](vh::Ctx &c) { if (!LIGHT) groups(c, true); });
    h.add("scaled-basis", [](vh::Ctx &c) { basis(c, LIGHT && !c.thorough() ? 3 : 4, true); });
    h.add("scaled-patterns", [](vh::Ctx &c) { pats(c, c.thorough() || !LIGHT ? 4 : 3, true); });
    h.add("programs", [](vh::Ctx &c) { programs(c, FULL, c.thorough() ? 3 : 2); });
    h.add("core-programs", [](vh::Ctx &c) { programs(c, CORE, c.thorough() ? 4 : LIGHT ? 2 : 3); });
#endif
    return h.main(argc, argv);
}
