// C07 (UReal, MON=7) and C08 (UReal2, MON=8): every function of math.hpp on a grid of
// means x kinds of arguments, against derivatives obtained by numerically differentiating
// the libquadmath functions in 113-bit arithmetic (no derivative formula is written here).
#include "vh.hpp"
#include <quadmath.h>
#include <uncertainties/ureal.hpp>
#include <uncertainties/ureal2.hpp>
#include <uncertainties/math.hpp>
#include <uncertainties/impl.hpp>
#include <array>
#include <map>
#ifndef REAL
#define REAL double
#endif
#ifndef MON
#define MON 7
#endif
namespace unc = uncertainties;
typedef REAL R;
typedef __float128 Q;
#ifdef QUAD
typedef Q LD;                                              // the numbers of the comparisons
static Q fab(Q x) { return fabsq(x); } static Q rnd(Q x) { return roundq(x); } static Q root(Q x) { return sqrtq(x); } static bool isnan_(Q x) { return isnanq(x); }
static LD ld(const R &x) { return LD(x.v); }
#else
typedef long double LD;
static LD fab(LD x) { return std::fabs(x); } static LD rnd(LD x) { return std::round(x); } static LD root(LD x) { return std::sqrt(x); } static bool isnan_(LD x) { return std::isnan(x); }
static LD ld(const R &x) { return static_cast<LD>(x); }
#endif
static Q qinf() { return HUGE_VALQ; }

// ---- function table -------------------------------------------------------
struct F1 {
    const char *name; R (*f)(R); Q (*q)(Q); Q lo, hi; Q (*dist)(Q);   // open domain, distance to the nearest singularity
};
static Q d_unit(Q) { return 1; }
static Q d_exp(Q x) { (void)x; return 1; }
static Q d_abs(Q x) { return fabsq(x); }
static Q d_gauss(Q x) { return 1 / (1 + fabsq(x)); }
static Q d_logp1(Q x) { return 1 + x; }
static Q d_pm1(Q x) { return fminq(fabsq(1 - x), fabsq(1 + x)); }
static Q d_i(Q x) { return hypotq(1, x); }
static Q d_tan(Q x) { return fabsq(remainderq(x - M_PI_2q, M_PIq)); }
static Q d_tanh(Q x) { return fminq(hypotq(M_PI_2q, x), 2); }
static const Q INF = HUGE_VALQ;
static Q qabs(Q x) { return fabsq(x); }
static Q qexp2(Q x) { return exp2q(x); }
#define STD1(n) [](R x) -> R { using std::n; return n(x); }
static const F1 FN1[] = {
    {"abs", STD1(abs), qabs, -INF, INF, d_abs},
    {"exp", STD1(exp), expq, -INF, INF, d_exp}, {"exp2", STD1(exp2), qexp2, -INF, INF, d_exp}, {"expm1", STD1(expm1), expm1q, -INF, INF, d_exp},
    {"log", STD1(log), logq, 0, INF, d_abs}, {"log10", STD1(log10), log10q, 0, INF, d_abs}, {"log2", STD1(log2), log2q, 0, INF, d_abs}, {"log1p", STD1(log1p), log1pq, -1, INF, d_logp1},
    {"sqrt", STD1(sqrt), sqrtq, 0, INF, d_abs}, {"cbrt", STD1(cbrt), cbrtq, -INF, INF, d_abs},
    {"sin", STD1(sin), sinq, -INF, INF, d_unit}, {"cos", STD1(cos), cosq, -INF, INF, d_unit}, {"tan", STD1(tan), tanq, -INF, INF, d_tan},
    {"asin", STD1(asin), asinq, -1, 1, d_pm1}, {"acos", STD1(acos), acosq, -1, 1, d_pm1}, {"atan", STD1(atan), atanq, -INF, INF, d_i},
    {"sinh", STD1(sinh), sinhq, -INF, INF, d_exp}, {"cosh", STD1(cosh), coshq, -INF, INF, d_exp}, {"tanh", STD1(tanh), tanhq, -INF, INF, d_tanh},
    {"asinh", STD1(asinh), asinhq, -INF, INF, d_i}, {"acosh", STD1(acosh), acoshq, 1, INF, d_pm1}, {"atanh", STD1(atanh), atanhq, -1, 1, d_pm1},
    {"erf", STD1(erf), erfq, -INF, INF, d_gauss}, {"erfc", STD1(erfc), erfcq, -INF, INF, d_gauss},
};
enum { NF1 = sizeof FN1 / sizeof *FN1 };
template<class U> U call1(int k, const U &x) {
    switch (k) {
    case 0: return abs(x); case 1: return exp(x); case 2: return exp2(x); case 3: return expm1(x); case 4: return log(x); case 5: return log10(x); case 6: return log2(x); case 7: return log1p(x);
    case 8: return sqrt(x); case 9: return cbrt(x); case 10: return sin(x); case 11: return cos(x); case 12: return tan(x); case 13: return asin(x); case 14: return acos(x); case 15: return atan(x);
    case 16: return sinh(x); case 17: return cosh(x); case 18: return tanh(x); case 19: return asinh(x); case 20: return acosh(x); case 21: return atanh(x); case 22: return erf(x); default: return erfc(x);
    }
}
struct F2 { const char *name; R (*f)(R, R); Q (*q)(Q, Q); void (*dist)(Q, Q, Q &, Q &); bool linear; };
static void d_fmod(Q x, Q y, Q &a, Q &b) {           // distance from the integers of x / y
    if (y == 0 || x == 0) { a = b = 0; return; }
    Q q = fabsq(x / y), d = fabsq(q - rintq(q));
    if (q < 1) d = fminq(q, 1 - q);
    a = d * fabsq(y) / 2; b = fminq(d * fabsq(y) / (q + 1) / 4, fabsq(y) / 4);
}
static void d_rem(Q x, Q y, Q &a, Q &b) {            // distance from the half integers
    if (y == 0) { a = b = 0; return; }
    Q q = fabsq(x / y), d = fabsq(q - floorq(q) - 0.5Q);
    a = d * fabsq(y) / 2; b = fminq(d * fabsq(y) / (q + 1) / 4, fabsq(y) / 4);
}
static void d_max(Q x, Q y, Q &a, Q &b) { a = b = fabsq(x - y) / 4; }
static void d_hyp(Q x, Q y, Q &a, Q &b) { a = b = hypotq(x, y) / 4; }
static void d_at2(Q x, Q y, Q &a, Q &b) {            // cut: first argument 0, second negative
    Q h = hypotq(x, y);
    if (y <= 0) h = fminq(h, fabsq(x));
    a = b = h / 4;
}
static void d_pow(Q x, Q y, Q &a, Q &b) { a = fabsq(x) / (1 + fabsq(y) / 8); b = 1 / (1 + fabsq(logq(fabsq(x)))); }
#define STD2(n) [](R x, R y) -> R { using std::n; return n(x, y); }
static const F2 FN2[] = {
    {"fmod", STD2(fmod), fmodq, d_fmod, true}, {"remainder", STD2(remainder), remainderq, d_rem, true}, {"fmax", STD2(fmax), fmaxq, d_max, true}, {"fmin", STD2(fmin), fminq, d_max, true},
    {"pow", STD2(pow), powq, d_pow, false}, {"hypot", STD2(hypot), hypotq, d_hyp, false}, {"atan2", STD2(atan2), atan2q, d_at2, false},
};
enum { NF2 = sizeof FN2 / sizeof *FN2 };
template<class U> U call2(int k, const U &x, const U &y) {
    switch (k) { case 0: return fmod(x, y); case 1: return remainder(x, y); case 2: return fmax(x, y); case 3: return fmin(x, y); case 4: return pow(x, y); case 5: return hypot(x, y); default: return atan2(x, y); }
}

// ---- numerical differentiation, order 10 stencils -----------------------------
static const Q C1[6] = {0, 5 / 6.Q, -5 / 21.Q, 5 / 84.Q, -5 / 504.Q, 1 / 1260.Q};
static const Q C2[6] = {-5269 / 1800.Q, 5 / 3.Q, -5 / 21.Q, 5 / 126.Q, -5 / 1008.Q, 1 / 3150.Q};
#ifdef QUAD
static const Q STEP = 1 / 2048.Q;
#else
static const Q STEP = 1 / 512.Q;
#endif
template<class F> Q diff1(F f, Q x, Q h) { Q s = 0; for (int k = 1; k <= 5; ++k) s += C1[k] * (f(x + k * h) - f(x - k * h)); return s / h; }
template<class F> Q diff2(F f, Q x, Q h) { Q s = C2[0] * f(x); for (int k = 1; k <= 5; ++k) s += C2[k] * (f(x + k * h) + f(x - k * h)); return s / (h * h); }

// A number with the error allowed to the implementation
struct T { LD v, t; };
static T operator+(T a, T b) { return T{a.v + b.v, a.t + b.t}; }
static T operator*(T a, LD k) { return T{a.v * k, a.t * fab(k)}; }
static bool close(LD x, const T &m) { return !isnan_(x) && fab(x - m.v) <= m.t + 1e-34L; }
#ifdef QUAD
static const LD EPS = 1e-25Q;                              // what the numerical derivatives are good to
static const LD CT = 1, NOISE = EPS;
#else
static const LD EPS = ld(std::numeric_limits<R>::epsilon());
static const LD CT = 64, NOISE = 1e-22L;
#endif
static bool inrange(Q v) { return !isnanq(v) && fabsq(v) < (std::numeric_limits<R>::digits < 30 ? 1e15Q : 1e25Q); }

struct D2 { bool ok; T f, dx, dy, dxx, dyy, dxy; };
static D2 deriv1(const F1 &fn, R xr) {
    D2 d; d.ok = false; const Q x = (LD)xr;
    if (!(x > fn.lo && x < fn.hi)) return d;
    const Q r = fn.dist(x);
    if (!(r > 1e-9Q * (fabsq(x) + 1e-3Q))) return d;
    const Q h = fminq(r, fn.dist == d_abs ? r : 1e6Q) * STEP;
    const Q f = fn.q(x), a = diff1(fn.q, x, h), b = diff2(fn.q, x, h);
    if (!inrange(f) || !inrange(a) || !inrange(b)) return d;
    const LD k = CT * EPS * (1 + (LD)fabsq(x / r));
    d.f = T{(LD)f, 8 * EPS * fab((LD)f)};
    // Only the difference 1 - tanh^2 loses digits: the other derivatives have to be as
    // accurate as the argument allows, beside the noise of the numerical differentiation.
    const LD c = fn.dist == d_tanh ? k : NOISE;
    d.dx = T{(LD)a, k * (LD)fabsq(a) + c * (LD)fabsq(f / r)};
    d.dxx = T{(LD)b, k * (LD)fabsq(b) + c * (LD)(fabsq(a / r) + fabsq(f / (r * r)))};
    if (fn.q == (Q(*)(Q))qabs) d.dx.t = d.dxx.t = 0, d.dx.v = rnd(d.dx.v), d.dxx.v = 0;
    d.dy = d.dyy = d.dxy = T{0, 0}; d.ok = true;
    return d;
}
static D2 deriv2(const F2 &fn, R xr, R yr, bool yconst) {
    D2 d; d.ok = false; const Q x = (LD)xr, y = (LD)yr;
    const T z{0, 0}; d.dx = d.dy = d.dxx = d.dyy = d.dxy = z;
    if (fn.dist == d_fmod || fn.dist == d_rem) {
        // x - n y with the integer n that gives the value of the function; differentiable
        // unless x / y is exactly at a jump
        if (y == 0) return d;
        const Q r = fn.q(x, y);
        if (fn.dist == d_fmod ? (r == 0 && x != 0) : fabsq(r) * 2 == fabsq(y)) return d;
        const LD n = (LD)rintq((x - r) / y);
        if (!inrange(n)) return d;
        d.f = T{(LD)r, 0}; d.dx = T{1, 0}; d.dy = T{-n, 2 * EPS * fab(n)}; d.ok = true;
        return d;
    }
    Q rx, ry;
    const bool ispow = fn.q == (Q(*)(Q, Q))powq;
    if (ispow && !(x > 0)) {
        // for a nonpositive base the function is differentiable only with a constant integer exponent
        if (!yconst || y != rintq(y) || (x == 0 && y < 0)) return d;
        rx = x == 0 ? 1 : fabsq(x) / (1 + fabsq(y) / 8); ry = 1;
    } else fn.dist(x, y, rx, ry);
    if (!(rx > 1e-9Q * (fabsq(x) + 1e-6Q)) || !(ry > 1e-9Q * (fabsq(y) + 1e-6Q))) return d;
    const Q hx = rx * STEP, hy = ry * STEP;
    auto fx = [&](Q t) { return fn.q(t, y); };
    auto fy = [&](Q t) { return fn.q(x, t); };
    const Q f = fn.q(x, y), a = diff1(fx, x, hx), aa = fn.linear ? 0 : diff2(fx, x, hx);
    Q b = 0, bb = 0, ab = 0;
    if (!(ispow && !(x > 0))) {
        b = diff1(fy, y, hy); bb = fn.linear ? 0 : diff2(fy, y, hy);
        ab = fn.linear ? 0 : diff1([&](Q t) { return diff1([&](Q u) { return fn.q(t, u); }, y, hy); }, x, hx);
    }
    for (Q v : {f, a, b, aa, bb, ab}) if (!inrange(v)) return d;
    const LD k = CT * EPS * (1 + (LD)(fabsq(x / rx) + fabsq(y / ry)));
    auto t = [&](Q v, Q s) { return T{(LD)v, k * (LD)(fabsq(v) + s)}; };
    const Q F = fabsq(f), A = fabsq(a), B = fabsq(b);
    d.f = T{(LD)f, 8 * EPS * (LD)F};
    auto rel = [&](Q v, Q s) { return T{(LD)v, k * (LD)fabsq(v) + NOISE * (LD)s}; };   // no formula for the first derivatives loses digits
    d.dx = rel(a, F / rx); d.dy = rel(b, F / ry);
    d.dxx = t(aa, A / rx + F / (rx * rx)); d.dyy = t(bb, B / ry + F / (ry * ry)); d.dxy = t(ab, A / ry + B / rx + F / (rx * ry));
    if (fn.linear) {                                     // the derivatives are integers
        for (T *p : {&d.dx, &d.dy}) { p->v = rnd(p->v); p->t = 2 * EPS * fab(p->v); }
        d.dxx = d.dyy = d.dxy = z;
    }
    if (ispow && !(x > 0) && x == 0) d.dx.t += 64 * EPS;
    d.ok = true;
    return d;
}

static std::vector<R> grid1(bool thorough) {
    std::vector<R> v;
        const int den = thorough ? 64 : 16;
    for (int i = -8 * den; i <= 8 * den; ++i) v.push_back(R(i) / den);
    for (double x : {1e-12, 1e-9, 1e-6, 1e-4, 1e-3, 0.0123, 0.1, 0.3, 0.7, 0.9, 0.99, 0.999, 0.999999, 1.000001, 1.001, 1.01, 1.1, 2.3, 3.1, 5.2, 9.7, 10., 12.5, 20., 33., 50., 77., 100., 1234.5, 1e6, 1e9, 1e12}) { v.push_back(R(x)); v.push_back(R(-x)); }
    return v;
}
static std::vector<R> grid2(bool thorough) {
    std::vector<R> v;
    for (double x : {0., 1e-7, 1e-3, 0.1, 0.3, 0.5, 0.75, 1., 1.5, 2., 2.5, 3., 4., 7.25, 30., 1000., 1e6}) { v.push_back(R(x)); if (x) v.push_back(R(-x)); }
    if (thorough) for (double x : {1e-5, 0.01, 0.2, 0.9, 1.1, 1.25, 1.75, 2.25, 3.5, 5., 6., 10., 12.5, 50., 123., 1e5}) { v.push_back(R(x)); v.push_back(R(-x)); }
    for (double x : {1e17, 3e16}) v.push_back(R(x));      // large quotients for fmod and remainder
    return v;
}

// ---- arguments -------------------------------------------------------------
enum { NI = 3 };
struct Arg { LD g[NI], h[NI][NI]; bool cst; };   // derivatives wrt inputs
static Arg zero() { Arg a; for (int i = 0; i < NI; ++i) { a.g[i] = 0; for (int j = 0; j < NI; ++j) a.h[i][j] = 0; } a.cst = true; return a; }
static const double SIG[NI] = {0.5, 0.25, 2};

#if MON == 7
typedef unc::UReal<R> U;
static R mean(const U &x) { return x.n(); }
static U input(int i) { return U(R(i), R(SIG[i])); }
static U lin(const U *in, R m, int i, double a, int j, double b) { return j < 0 ? unary(in[i], m, R(a)) : binary(in[i], in[j], m, R(a), R(b)); }
#else
#ifndef PROP
#define PROP unc::Prop::est
#endif
typedef unc::UReal2<R, PROP> U;
static R mean(const U &x) { return x.first_order_n(); }
static U input(int i) { std::array<R, 6> m{{R(0.25 * i), R(3), R(i), R(15), R(i), R(105)}}; return U(R(i), R(SIG[i]), m, R(-1)); }
static U lin(const U *in, R m, int i, double a, int j, double b) {
    if (j < 0) return unary(in[i], m, R(a), R(0.75));
    return binary(in[i], in[j], m, R(a), R(b), R(0.5), R(0), R(-0.375));
}
#endif
// kind: 0 constant, 1 independent input, 2 scaled input, 3 two inputs, 4 two inputs queried before
static U make(const U *in, R m, int kind, int base, Arg &a) {
    a = zero();
    if (kind == 0) return U(m);
    a.cst = false;
    const int i = base, j = (base + 1) % NI;
    auto set = [&](double ga, double gb) {
        a.g[i] += ga;
#if MON == 8
        if (kind >= 3) { a.h[i][i] += 0.5; a.h[i][j] += -0.375; a.h[j][i] += -0.375; } else a.h[i][i] += 0.75;
#endif
        if (kind >= 3) a.g[j] += gb;
    };
    U u;
    if (kind == 1) {
#if MON == 7
        u = change_nom(in[i], m); a.g[i] = 1;
#else
        u = unary(in[i], m, R(1), R(0)); a.g[i] = 1;
#endif
    } else if (kind == 2) { u = lin(in, m, i, -1.5, -1, 0); set(-1.5, 0); }
    else { u = lin(in, m, i, -0.75, j, 1.25); set(-0.75, 1.25); }
    if (kind == 4) { volatile LD q = ld(u.s()); (void)q; }
    return u;
}

static void compare(vh::Ctx &c, const char *name, const U &z, const D2 &d, const Arg &ax, const Arg &ay, const U *in, R stdval, const std::string &what) {
    auto at = [&] { return std::string(name) + what; };
    const LD m = ld(mean(z)), sv = ld(stdval);
    c.check(m == sv || fab(m - sv) <= 4 * EPS * fab(sv), "value", [&] { return at() + ": the mean is " + vh::num(m) + " but the function is " + vh::num(sv); });
    T g[NI], var{0, 0};
    LD mag = 0;
    for (int i = 0; i < NI; ++i) {
        g[i] = T{0, 0};
        if (ax.g[i] != 0) g[i] = g[i] + d.dx * ax.g[i];
        if (ay.g[i] != 0) g[i] = g[i] + d.dy * ay.g[i];
        g[i].t += 8 * EPS * (fab(d.dx.v * ax.g[i]) + fab(d.dy.v * ay.g[i]));
    }
#if MON == 7
    for (int i = 0; i < NI; ++i) {
        const T w = T{g[i].v, g[i].t} * (SIG[i] * SIG[i]);
        const T gs = g[i] * SIG[i];
        var.v += gs.v * gs.v; var.t += 2 * fab(gs.v) * gs.t + gs.t * gs.t; mag += gs.v * gs.v;
        const LD got = ld(cov(z, in[i]));
        c.check(close(got, T{w.v, w.t + 8 * EPS * fab(w.v)}), "derivative", [&] { return at() + ": covariance with input " + std::to_string(i) + " is " + vh::num(got) + " but the derivative of the function gives " + vh::num(w.v) + " (allowance " + vh::num(w.t) + ")"; });
    }
    var.t += 16 * EPS * mag;
    c.check(close(ld(z.s()) * ld(z.s()), T{var.v, var.t * 2}) && z.s() >= 0, "sdev", [&] { return at() + ": s() is " + vh::num(ld(z.s())) + ", expected " + vh::num(root(var.v)); });
#else
    (void)var; (void)mag;
    for (int i = 0; i < NI; ++i) {
        const LD got = ld(z.grad(in[i]));
        c.check(close(got, g[i]), "grad", [&] { return at() + ": the gradient with respect to input " + std::to_string(i) + " is " + vh::num(got) + " but it should be " + vh::num(g[i].v) + " (allowance " + vh::num(g[i].t) + ")"; });
        for (int j = 0; j < NI; ++j) {
            T h{0, 0}; LD mg = 0;
            auto add = [&](const T &t, LD k) { if (k != 0) { h = h + t * k; mg += fab(t.v * k); } };
            add(d.dxx, ax.g[i] * ax.g[j]); add(d.dyy, ay.g[i] * ay.g[j]); add(d.dxy, ax.g[i] * ay.g[j]); add(d.dxy, ay.g[i] * ax.g[j]);
            add(d.dx, ax.h[i][j]); add(d.dy, ay.h[i][j]);
            h.t += 16 * EPS * mg;
            const LD gh = ld(z.hess(in[i], in[j]));
            c.check(close(gh, h), "hess", [&] { return at() + ": the second derivative with respect to inputs " + std::to_string(i) + ", " + std::to_string(j) + " is " + vh::num(gh) + " but it should be " + vh::num(h.v) + " (allowance " + vh::num(h.t) + ")"; });
        }
    }
#endif
    int supp = 0;
    for (int i = 0; i < NI; ++i) if (ax.g[i] != 0 || ay.g[i] != 0) supp |= 1 << i;
    c.check(z.isindep() == (__builtin_popcount(supp) <= 1), "isindep", [&] { return at() + ": isindep() is wrong"; });
}

static void one(vh::Ctx &c) {
    static const std::vector<R> G = grid1(c.thorough());
    const int k = c.choose(NF1), im = c.choose(int(G.size()));
    c.shard();
    const F1 &fn = FN1[k];
    static std::map<std::pair<int, int>, D2> cache;
    auto it = cache.find({k, im});
    if (it == cache.end()) { if (cache.size() > 100) cache.clear(); it = cache.insert({{k, im}, deriv1(fn, G[im])}).first; }
    const D2 &d = it->second;
    if (!d.ok) c.prune();
    const int kind = c.choose(5), base = c.choose(NI);
    if (kind == 0 && base) c.prune();
    U in[NI]; for (int i = 0; i < NI; ++i) in[i] = input(i);
    Arg a; const U x = make(in, G[im], kind, base, a);
    c.note([&] { return std::string(fn.name) + " at mean " + vh::num(ld(G[im])) + ", argument of kind " + std::to_string(kind); });
    const U z = call1(k, x);
    c.step(); { uint64_t h = vh::mix(vh::mix(k, im), kind * 8 + base); h = vh::hashd(h, double(d.dx.v)); c.state(h); }
    compare(c, fn.name, z, d, a, zero(), in, fn.f(G[im]), "(" + vh::num(ld(G[im])) + ") with an argument of kind " + std::to_string(kind));
}
static void two(vh::Ctx &c) {
    static const std::vector<R> G = grid2(c.thorough());
    const int k = c.choose(NF2), ix = c.choose(int(G.size())), iy = c.choose(int(G.size()));
    c.shard();
    const F2 &fn = FN2[k];
    if (!fn.linear && (G[ix] > 1e10 || G[iy] > 1e10)) c.prune();
    const int kx = c.choose(4), ky = c.choose(4), by = c.choose(NI);
    if (kx == 0 && ky == 0 && by) c.prune();
    if (ky == 0 && by) c.prune();
    static std::map<std::array<int, 4>, D2> cache;
    const std::array<int, 4> key{{k, ix, iy, ky == 0}};
    auto it = cache.find(key);
    if (it == cache.end()) { if (cache.size() > 100) cache.clear(); it = cache.insert({key, deriv2(fn, G[ix], G[iy], ky == 0)}).first; }
    const D2 &d = it->second;
    if (!d.ok) c.prune();
    U in[NI]; for (int i = 0; i < NI; ++i) in[i] = input(i);
    Arg ax, ay;
    const U x = make(in, G[ix], kx, 0, ax), y = make(in, G[iy], ky == 3 ? 4 : ky, by, ay);
    c.note([&] { return std::string(fn.name) + " at means " + vh::num(ld(G[ix])) + ", " + vh::num(ld(G[iy])) + ", arguments of kind " + std::to_string(kx) + ", " + std::to_string(ky); });
    const U z = call2(k, x, y);
    c.step(); { uint64_t h = vh::mix(vh::mix(k, ix), iy); h = vh::mix(h, kx * 100 + ky * 10 + by); c.state(h); }
    const std::string what = "(" + vh::num(ld(G[ix])) + ", " + vh::num(ld(G[iy])) + ") with arguments of kind " + std::to_string(kx) + ", " + std::to_string(ky);
    compare(c, fn.name, z, d, ax, ay, in, fn.f(G[ix], G[iy]), what);
    if (ix == iy && kx == 3 && ky == 3 && by == 0) compare(c, fn.name, call2(k, x, x), d, ax, ax, in, fn.f(G[ix], G[ix]), what + ", the same variable twice");
}

int main(int argc, char **argv) {
    vh::Harness h;
    h.add("one-argument", one);
    h.add("two-arguments", two);
    return h.main(argc, argv);
}
