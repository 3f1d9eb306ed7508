// C09: every factory of functions.hpp on every monomial of total degree <= 5 (and a non-symmetric
// polynomial), every dyadic step and mean of a grid, every kind of arguments. The stencils are exact
// on these inputs, so the propagated derivatives are compared with the documented formulas computed
// in extended precision.
#include "vh.hpp"
#include "model.hpp"
#include <uncertainties/ureal.hpp>
#include <uncertainties/ureal2.hpp>
#include <uncertainties/functions.hpp>
#include <uncertainties/impl.hpp>
#include <array>
#include <memory>
#ifndef REAL
#define REAL double
#endif
namespace unc = uncertainties;
typedef REAL R;
typedef long double L;
static L ld(const R &x) { return static_cast<L>(x); }
static L EPS() { return static_cast<L>(std::numeric_limits<R>::epsilon()); }

// polynomial functions, the same code for the library (R) and the reference (L)
struct Poly { int id; };
enum { NP1 = 7, NP2 = 22 };
template<class T> T pw(T x, int n) { T r = 1; for (int i = 0; i < n; ++i) r *= x; return r; }
template<class T> T p1(int id, T x) { return id < 6 ? pw(x, id) : 1 - 2 * x + 3 * x * x - x * x * x; }
static int mono[21][2];
static void mkmono() { int k = 0; for (int d = 0; d <= 5; ++d) for (int a = 0; a <= d; ++a) { mono[k][0] = a; mono[k][1] = d - a; ++k; } }
template<class T> T p2(int id, T x, T y) { return id < 21 ? pw(x, mono[id][0]) * pw(y, mono[id][1]) : 2 + 3 * x - y + x * y - 2 * x * x + 4 * y * y + x * x * y; }
// unrelated functions handed in as "derivatives": the factory has to use what it is given
template<class T> T e1(int k, T x) { return T(k + 2) * x - T(k) * x * x + T(0.5); }
template<class T> T e2(int k, T x, T y) { return T(k + 1) * x - T(2 * k + 3) * y + T(k % 2) * x * y + T(0.25) * T(k); }

struct D { L f, dx, dy, dxx, dyy, dxy; };
static const L MEANS[] = {0, 1, -1.5L, 0.75L, 2.5L};
static const L STEPS[] = {0.25L, 0.125L, -0.5L, 1};

// the argument kinds
enum { K_INDEP, K_CONST, K_DEP, K_SAME, NKIND };

template<class U> struct Mk;
template<> struct Mk<unc::UReal<R>> { static unc::UReal<R> in(L n, L s) { return unc::UReal<R>(R(n), R(s)); } };
template<unc::Prop P> struct Mk<unc::UReal2<R, P>> {
    static unc::UReal2<R, P> in(L n, L s) { std::array<R, 6> m{{R(0.5), R(3.5), R(4), R(20), R(30), R(200)}}; return unc::UReal2<R, P>(R(n), R(s), m, R(-1)); }
};

static bool ok(const R &a, const R &b) { const L x = ld(a), y = ld(b); return x == y || std::fabs(x - y) <= 64 * EPS() * (std::fabs(x) + std::fabs(y)); }
static L scale;    // magnitude of the intermediate results of the stencil
static bool okd(const R &a, L b) { return std::fabs(ld(a) - b) <= 64 * EPS() * (std::fabs(b) + scale); }

struct Args1 { int kind; L mean; };
// make an argument with first order mean m of the given kind out of inputs i0, i1
static void mk(unc::UReal<R> &out, int kind, L m, const unc::UReal<R> &i0, const unc::UReal<R> &i1) {
    if (kind == K_CONST) out = unc::UReal<R>(R(m));
    else if (kind == K_INDEP) out = i0;
    else out = binary(i0, i1, R(m), R(2), R(-0.5));
}
template<unc::Prop P> void mk(unc::UReal2<R, P> &out, int kind, L m, const unc::UReal2<R, P> &i0, const unc::UReal2<R, P> &i1) {
    if (kind == K_CONST) out = unc::UReal2<R, P>(R(m));
    else if (kind == K_INDEP) out = i0;
    else out = binary(i0, i1, R(m), R(2), R(-0.5), R(1), R(-0.25), R(3));   // second order: n() differs from first_order_n()
}

static void expect1(vh::Ctx &c, const unc::UReal<R> &z, const unc::UReal<R> &x, const D &d, const unc::UReal<R> *in, bool exactfn = true) {
    (void)exactfn;
    const unc::UReal<R> w = unary(x, R(d.f), R(d.dx));
    c.check(okd(z.n(), d.f), "value", [&] { return "mean is " + vh::num(ld(z.n())) + ", expected f(mean) = " + vh::num(d.f); });
    for (int i = 0; i < 2; ++i) c.check(ok(cov(z, in[i]), cov(w, in[i])) || std::fabs(ld(cov(z, in[i])) - ld(cov(w, in[i]))) <= 64 * EPS() * scale * 4, "derivative", [&] { return "cov with an input is " + vh::num(ld(cov(z, in[i]))) + ", expected " + vh::num(ld(cov(w, in[i]))) + " from derivative " + vh::num(d.dx); });
    c.check(ok(var(z), var(w)) || std::fabs(ld(z.s()) - ld(w.s())) <= 64 * EPS() * scale * 4, "variance", [&] { return "variance is " + vh::num(ld(var(z))) + ", expected " + vh::num(ld(var(w))); });
    c.check(z.isindep() == w.isindep() && z.indepid() == w.indepid(), "indep", [&] { return std::string("independence status differs from the direct propagation"); });
}
static void expect2(vh::Ctx &c, const unc::UReal<R> &z, const unc::UReal<R> &x, const unc::UReal<R> &y, const D &d, const unc::UReal<R> *in) {
    const unc::UReal<R> w = binary(x, y, R(d.f), R(d.dx), R(d.dy));
    c.check(okd(z.n(), d.f), "value", [&] { return "mean is " + vh::num(ld(z.n())) + ", expected f(means) = " + vh::num(d.f); });
    for (int i = 0; i < 4; ++i) c.check(ok(cov(z, in[i]), cov(w, in[i])) || std::fabs(ld(cov(z, in[i])) - ld(cov(w, in[i]))) <= 64 * EPS() * scale * 4, "derivative", [&] { return "cov with input " + std::to_string(i) + " is " + vh::num(ld(cov(z, in[i]))) + ", expected " + vh::num(ld(cov(w, in[i]))); });
    c.check(z.isindep() == w.isindep() && z.indepid() == w.indepid(), "indep", [&] { return std::string("independence status differs from the direct propagation"); });
}
template<unc::Prop P> void cmp2(vh::Ctx &c, const unc::UReal2<R, P> &z, const unc::UReal2<R, P> &w, const unc::UReal2<R, P> *in, int n, L f) {
    c.check(okd(z.first_order_n(), f), "value", [&] { return "first order mean is " + vh::num(ld(z.first_order_n())) + ", expected f(means) = " + vh::num(f); });
    for (int i = 0; i < n; ++i) {
        c.check(std::fabs(ld(z.grad(in[i])) - ld(w.grad(in[i]))) <= 64 * EPS() * (scale + std::fabs(ld(w.grad(in[i])))), "gradient", [&] { return "gradient " + std::to_string(i) + " is " + vh::num(ld(z.grad(in[i]))) + ", expected " + vh::num(ld(w.grad(in[i]))); });
        for (int j = 0; j < n; ++j) c.check(std::fabs(ld(z.hess(in[i], in[j])) - ld(w.hess(in[i], in[j]))) <= 64 * EPS() * (scale * 4 + std::fabs(ld(w.hess(in[i], in[j])))), "hessian", [&] { return "hessian " + std::to_string(i) + " " + std::to_string(j) + " is " + vh::num(ld(z.hess(in[i], in[j]))) + ", expected " + vh::num(ld(w.hess(in[i], in[j]))); });
    }
    c.check(z.isindep() == w.isindep() && z.indepid() == w.indepid(), "indep", [&] { return std::string("independence status differs from the direct propagation"); });
}
template<unc::Prop P> void expect1(vh::Ctx &c, const unc::UReal2<R, P> &z, const unc::UReal2<R, P> &x, const D &d, const unc::UReal2<R, P> *in) { cmp2(c, z, unary(x, R(d.f), R(d.dx), R(d.dxx)), in, 2, d.f); }
template<unc::Prop P> void expect2(vh::Ctx &c, const unc::UReal2<R, P> &z, const unc::UReal2<R, P> &x, const unc::UReal2<R, P> &y, const D &d, const unc::UReal2<R, P> *in) { cmp2(c, z, binary(x, y, R(d.f), R(d.dx), R(d.dy), R(d.dxx), R(d.dyy), R(d.dxy)), in, 4, d.f); }

// one argument -------------------------------------------------------------------
template<class U> struct Fac;
template<> struct Fac<unc::UReal<R>> {
    typedef unc::UReal<R> U;
    static const int N1 = 2, N2 = 2;
    static std::function<U(const U &)> mk1(int v, const unc::Unary<R> &f, const unc::Unary<R> &df, const unc::Unary<R> &, L h) { return v == 0 ? unc::uunary<R>(f, df) : unc::uunary<R>(f, R(h)); }
    static std::function<U(const U &)> def1(int, const unc::Unary<R> &f, const unc::Unary<R> &) { return unc::uunary<R>(f); }
    static std::function<U(const U &, const U &)> def2(int, const unc::Binary<R> &f, const unc::Binary<R> &, const unc::Binary<R> &) { return unc::ubinary<R>(f); }
    static const int ND = 1;
    static D ref1(int v, int id, L m, L h) {
        D d = {p1<L>(id, m), 0, 0, 0, 0, 0};
        d.dx = v == 0 ? e1<L>(0, m) : (p1<L>(id, m + h) - d.f) / h;
        return d;
    }
    static std::function<U(const U &, const U &)> mk2(int v, const std::vector<unc::Binary<R>> &f, L h) { return v == 0 ? unc::ubinary<R>(f[0], f[1], f[2]) : unc::ubinary<R>(f[0], R(h)); }
    static D ref2(int v, int id, L x, L y, L h) {
        D d = {p2<L>(id, x, y), 0, 0, 0, 0, 0};
        if (v == 0) { d.dx = e2<L>(0, x, y); d.dy = e2<L>(1, x, y); }
        else { d.dx = (p2<L>(id, x + h, y) - d.f) / h; d.dy = (p2<L>(id, x, y + h) - d.f) / h; }
        return d;
    }
};
template<unc::Prop P> struct Fac<unc::UReal2<R, P>> {
    typedef unc::UReal2<R, P> U;
    static const int N1 = 3, N2 = 3;
    static std::function<U(const U &)> mk1(int v, const unc::Unary<R> &f, const unc::Unary<R> &df, const unc::Unary<R> &ddf, L h) {
        return v == 0 ? unc::uunary2<R, P>(f, df, ddf) : v == 1 ? unc::uunary2<R, P>(f, df, R(h)) : unc::uunary2<R, P>(f, R(h));
    }
    static std::function<U(const U &)> def1(int v, const unc::Unary<R> &f, const unc::Unary<R> &df) { return v == 0 ? unc::uunary2<R, P>(f, df) : unc::uunary2<R, P>(f); }
    static std::function<U(const U &, const U &)> def2(int v, const unc::Binary<R> &f, const unc::Binary<R> &dx, const unc::Binary<R> &dy) { return v == 0 ? unc::ubinary2<R, P>(f, dx, dy) : unc::ubinary2<R, P>(f); }
    static const int ND = 2;
    static D ref1(int v, int id, L m, L h) {
        D d = {p1<L>(id, m), 0, 0, 0, 0, 0};
        if (v == 0) { d.dx = e1<L>(0, m); d.dxx = e1<L>(1, m); }
        else if (v == 1) { d.dx = e1<L>(0, m); d.dxx = (e1<L>(0, m + h) - d.dx) / h; }
        else { const L a = p1<L>(id, m + h), b = p1<L>(id, m - h); d.dx = (a - b) / (2 * h); d.dxx = (a + b - 2 * d.f) / (h * h); }
        return d;
    }
    static std::function<U(const U &, const U &)> mk2(int v, const std::vector<unc::Binary<R>> &f, L h) {
        return v == 0 ? unc::ubinary2<R, P>(f[0], f[1], f[2], f[3], f[4], f[5]) : v == 1 ? unc::ubinary2<R, P>(f[0], f[1], f[2], R(h)) : unc::ubinary2<R, P>(f[0], R(h));
    }
    static D ref2(int v, int id, L x, L y, L h) {
        D d = {p2<L>(id, x, y), 0, 0, 0, 0, 0};
        if (v == 0) { d.dx = e2<L>(0, x, y); d.dy = e2<L>(1, x, y); d.dxx = e2<L>(2, x, y); d.dyy = e2<L>(3, x, y); d.dxy = e2<L>(4, x, y); }
        else if (v == 1) {
            d.dx = e2<L>(0, x, y); d.dy = e2<L>(1, x, y);
            d.dxx = (e2<L>(0, x + h, y) - d.dx) / h; d.dyy = (e2<L>(1, x, y + h) - d.dy) / h; d.dxy = (e2<L>(0, x, y + h) - d.dx) / h;
        } else {
            const L r0 = p2<L>(id, x + h, y), l0 = p2<L>(id, x - h, y), r1 = p2<L>(id, x, y + h), l1 = p2<L>(id, x, y - h), pp = p2<L>(id, x + h, y + h), mm = p2<L>(id, x - h, y - h);
            d.dx = (r0 - l0) / (2 * h); d.dy = (r1 - l1) / (2 * h);
            d.dxx = (r0 + l0 - 2 * d.f) / (h * h); d.dyy = (r1 + l1 - 2 * d.f) / (h * h);
            d.dxy = (pp + mm - (r0 + l0 + r1 + l1) + 2 * d.f) / (2 * h * h);
        }
        return d;
    }
};
static L mag1(int id, L m, L h) { L s = 1; for (int k = -1; k <= 1; ++k) s = std::fmax(s, std::fabs(p1<L>(id, std::fabs(m) + k * std::fabs(h)))); return s / std::fmin(1, h * h) * 8; }
static L mag2(int id, L x, L y, L h) { L s = 1; for (int a = -1; a <= 1; ++a) for (int b = -1; b <= 1; ++b) s = std::fmax(s, std::fabs(p2<L>(id, std::fabs(x) + a * std::fabs(h), std::fabs(y) + b * std::fabs(h)))); return s / std::fmin(1, h * h) * 8; }

template<class U> void body1(vh::Ctx &c) {
    typedef Fac<U> F;
    const int v = c.choose(F::N1), id = c.choose(NP1), m = c.choose(5);
    c.shard();
    const L h = v == 0 ? 1 : STEPS[c.choose(4)];
    const int kind = c.choose(3), second = c.choose(2);
    std::function<U(const U &)> uf;
    int calls = 0;
    {
        std::unique_ptr<int> own(new int(id));      // the factory must keep its own copies of what it is given
        const int key = *own;
        unc::Unary<R> f = [key, &calls](const R &x) { ++calls; return p1<R>(key, x); };
        unc::Unary<R> df = [](const R &x) { return e1<R>(0, x); }, ddf = [](const R &x) { return e1<R>(1, x); };
        uf = F::mk1(v, f, df, ddf, h);
        f = [](const R &) { return R(-77); }; df = ddf = f;
    }
    c.note([&] { std::ostringstream s; s << "factory of one argument, variant " << v << ", polynomial " << id << ", mean " << MEANS[m] << ", step " << h << ", argument kind " << kind << (second ? ", second call" : ""); return s.str(); });
    U in[2] = {Mk<U>::in(MEANS[m], 0.5), Mk<U>::in(2, 0.25)}, x;
    if (second) { U junk = Mk<U>::in(3.25, 1); volatile L q = ld(uf(junk).s()); (void)q; }
    mk(x, kind, MEANS[m], in[0], in[1]);
    const D d = F::ref1(v, id, MEANS[m], h);
    scale = mag1(id, MEANS[m], h) + 20;
    const U z = uf(x);
    c.step(); c.state(vh::mix(vh::hashd(vh::hashd(v, double(d.dx)), double(d.dxx)), vh::hashd(kind, double(d.f))));
    expect1(c, z, x, d, in);
    c.check(calls > 0, "called", [&] { return std::string("the function was never called"); });
}
template<class U> void body2(vh::Ctx &c) {
    typedef Fac<U> F;
    const int v = c.choose(F::N2), id = c.choose(NP2), mx = c.choose(5), my = c.choose(5);
    c.shard();
    const L h = v == 0 ? 1 : STEPS[c.choose(c.thorough() ? 4 : 3)];
    const int kx = c.choose(3), ky = c.choose(4);
    const L x0 = MEANS[mx], y0 = ky == K_SAME ? MEANS[mx] : MEANS[my];
    std::function<U(const U &, const U &)> uf;
    {
        const int key = id;
        std::vector<unc::Binary<R>> f;
        f.push_back([key](const R &x, const R &y) { return p2<R>(key, x, y); });
        for (int k = 0; k < 5; ++k) f.push_back([k](const R &x, const R &y) { return e2<R>(k, x, y); });
        uf = F::mk2(v, f, h);
        for (auto &g : f) g = [](const R &, const R &) { return R(-77); };
    }
    c.note([&] { std::ostringstream s; s << "factory of two arguments, variant " << v << ", polynomial " << id << ", means " << x0 << " " << y0 << ", step " << h << ", argument kinds " << kx << " " << ky; return s.str(); });
    U in[4] = {Mk<U>::in(x0, 0.5), Mk<U>::in(2, 0.25), Mk<U>::in(y0, 0.75), Mk<U>::in(-1, 0.125)}, x, y;
    mk(x, kx, x0, in[0], in[1]);
    if (ky == K_SAME) y = x; else mk(y, ky, y0, in[2], in[kx == K_INDEP ? 0 : 1]);
    const D d = F::ref2(v, id, x0, y0, h);
    scale = mag2(id, x0, y0, h) + 60;
    const U z = uf(x, y);
    c.step(); c.state(vh::mix(vh::hashd(vh::hashd(vh::hashd(v * 16 + kx * 4 + ky, double(d.dx)), double(d.dxx)), double(d.dxy)), vh::hashd(vh::hashd(1, double(d.dy)), double(d.dyy))));
    expect2(c, z, x, y, d, in);
}
// default steps: error of the derivatives of smooth functions of order one within a small multiple
// of sqrt(epsilon), which is what the documented orders of accuracy give
static const int NS = 5;
template<class T> T sm(int k, int der, T x) {
    using std::sin; using std::cos; using std::exp;
    switch (k) {
    case 0: return der == 0 ? sin(x) : der == 1 ? cos(x) : -sin(x);
    case 1: return exp(x);
    case 2: return der == 0 ? x * x * x - x : der == 1 ? 3 * x * x - 1 : 6 * x;
    case 3: return der == 0 ? 1 / (1 + x * x) : der == 1 ? -2 * x / ((1 + x * x) * (1 + x * x)) : (6 * x * x - 2) / ((1 + x * x) * (1 + x * x) * (1 + x * x));
    default: return der == 0 ? 3 * x + 1 : der == 1 ? T(3) : T(0);
    }
}
static const L GRID[] = {0, 0.1L, -0.3L, 0.5L, 0.9L, -1.25L, 1.7L, -2, 0.001L};
template<class U> L hs(const U &, const U &, const U &, std::true_type) { return 0; }
template<class U> void derivs1(const unc::UReal<R> &z, const U *in, L &a, L &b) { a = ld(cov(z, in[0])); b = NAN; }
template<unc::Prop P, class U> void derivs1(const unc::UReal2<R, P> &z, const U *in, L &a, L &b) { a = ld(z.grad(in[0])); b = ld(z.hess(in[0], in[0])); }
template<class U> void derivs2(const unc::UReal<R> &z, const U *in, L *d) { d[0] = ld(cov(z, in[0])); d[1] = ld(cov(z, in[1])); d[2] = d[3] = d[4] = NAN; }
template<unc::Prop P, class U> void derivs2(const unc::UReal2<R, P> &z, const U *in, L *d) { d[0] = ld(z.grad(in[0])); d[1] = ld(z.grad(in[1])); d[2] = ld(z.hess(in[0], in[0])); d[3] = ld(z.hess(in[1], in[1])); d[4] = ld(z.hess(in[0], in[1])); }
template<class U> void defaults(vh::Ctx &c) {
    typedef Fac<U> F;
    const int v = c.choose(F::ND), k = c.choose(NS), gx = c.choose(9);
    c.shard();
    const R xr = R(GRID[gx]); const L x = ld(xr), tol = 60 * std::sqrt(EPS());
    U in[2] = {Mk<U>::in(x, 1), Mk<U>::in(0, 1)};
    auto f = [k](const R &t) { return sm<R>(k, 0, t); };
    auto df = [k](const R &t) { return sm<R>(k, 1, t); };
    auto chk = [&](L got, L want, const char *w) { if (!std::isnan(got)) c.check(std::fabs(got - want) <= tol * (1 + std::fabs(want)), "default-step", [&] { return std::string(w) + " is " + vh::num(got) + ", true value " + vh::num(want) + ": not accurate to the documented order with the default step"; }); };
    const int two = c.choose(1 + NS);
    c.note([&] { std::ostringstream s; s << "default step, variant " << v << ", function " << k << ", mean " << x << (two ? ", two arguments" : ""); return s.str(); });
    c.step(); c.state(vh::hashd(v * 100 + k * 10 + two, double(x)));
    if (!two) {
        L a, b; derivs1(F::def1(v, f, df)(in[0]), in, a, b);
        chk(a, sm<L>(k, 1, x), "the first derivative"); chk(b, sm<L>(k, 2, x), "the second derivative");
    } else {
        const int q = two - 1;
        const R yr = R(GRID[c.choose(9)]); const L y = ld(yr);
        in[1] = Mk<U>::in(y, 1);
        auto f2 = [k, q](const R &s, const R &t) { return sm<R>(k, 0, s) * sm<R>(q, 0, t); };
        auto dx = [k, q](const R &s, const R &t) { return sm<R>(k, 1, s) * sm<R>(q, 0, t); };
        auto dy = [k, q](const R &s, const R &t) { return sm<R>(k, 0, s) * sm<R>(q, 1, t); };
        L d[5]; derivs2(F::def2(v, f2, dx, dy)(in[0], in[1]), in, d);
        const L sc = 8;
        auto chk2 = [&](L got, L want, const char *w) { if (!std::isnan(got)) c.check(std::fabs(got - want) <= tol * sc * (1 + std::fabs(want)), "default-step", [&] { return std::string(w) + " is " + vh::num(got) + ", true value " + vh::num(want) + ": not accurate to the documented order with the default step"; }); };
        chk2(d[0], sm<L>(k, 1, x) * sm<L>(q, 0, y), "d/dx"); chk2(d[1], sm<L>(k, 0, x) * sm<L>(q, 1, y), "d/dy");
        chk2(d[2], sm<L>(k, 2, x) * sm<L>(q, 0, y), "d2/dx2"); chk2(d[3], sm<L>(k, 0, x) * sm<L>(q, 2, y), "d2/dy2"); chk2(d[4], sm<L>(k, 1, x) * sm<L>(q, 1, y), "d2/dxdy");
    }
}

// a function of one of its two arguments only, the mean of the other being so large that the step
// is rounded or lost there: the derivatives must not feel it
template<class U> void separate(vh::Ctx &c) {
    typedef Fac<U> F;
    static const double BIG[] = {8191.3, -1048576.7, 1e9 + 0.3, -1e12, 1e30};
    static const L H[] = {1, 0.125L, -0.25L, 1.0L / 64};
    const int v = c.choose(F::N2), which = c.choose(2), b = c.choose(5), m = c.choose(5), q = c.choose(3);
    c.shard();
    const L h = v == 0 ? 1 : H[c.choose(4)];
    const L s0 = MEANS[m];
    auto g = [q](const R &t) { return q == 0 ? R(t * t) : q == 1 ? R(3 * t) : R(t * t - 5 * t); };
    auto g1 = [q](const R &t) { return q == 0 ? R(2 * t) : q == 1 ? R(3) : R(2 * t - 5); };
    auto g2 = [q](const R &) { return q == 1 ? R(0) : R(2); };
    auto zf = [](const R &, const R &) { return R(0); };
    std::vector<unc::Binary<R>> f;
    f.push_back([=](const R &x, const R &y) { return g(which ? y : x); });
    for (int k = 0; k < 2; ++k) f.push_back(k == which ? unc::Binary<R>([=](const R &x, const R &y) { return g1(which ? y : x); }) : unc::Binary<R>(zf));
    for (int k = 0; k < 2; ++k) f.push_back(k == which ? unc::Binary<R>([=](const R &x, const R &y) { return g2(which ? y : x); }) : unc::Binary<R>(zf));
    f.push_back(zf);
    U in[4] = {Mk<U>::in(which ? BIG[b] : s0, 0.5), Mk<U>::in(0, 1), Mk<U>::in(which ? s0 : BIG[b], 0.75), Mk<U>::in(0, 1)};
    c.note([&] { std::ostringstream s; s << "factory of two arguments, variant " << v << ", function " << q << " of argument " << which + 1 << " only, at " << s0 << ", the other mean is " << BIG[b] << ", step " << h; return s.str(); });
    const auto gl = [q](L t) { return q == 0 ? t * t : q == 1 ? 3 * t : t * t - 5 * t; };
    const auto gl1 = [q](L t) { return q == 0 ? 2 * t : q == 1 ? 3 : 2 * t - 5; };
    D d = {gl(s0), 0, 0, 0, 0, 0};
    const bool central = v == 2;
    const L d1 = v == 0 || (v == 1 && F::N2 == 3) ? gl1(s0) : central ? (gl(s0 + h) - gl(s0 - h)) / (2 * h) : (gl(s0 + h) - gl(s0)) / h;
    const L d2 = q == 1 ? 0 : 2;
    (which ? d.dy : d.dx) = d1; (which ? d.dyy : d.dxx) = d2;
    scale = (std::fabs(gl(std::fabs(s0) + std::fabs(h))) + 32) / std::fmin(1, h * h);
    const U z = F::mk2(v, f, h)(in[0], in[2]);
    c.step(); c.state(vh::mix(vh::hashd(vh::hashd(v * 100 + which * 50 + b, double(d1)), double(h)), vh::hashd(q, double(s0))));
    expect2(c, z, in[0], in[2], d, in);
}

int main(int argc, char **argv) {
    mkmono();
    typedef unc::UReal<R> U; typedef unc::UReal2<R, unc::Prop::est> U2; typedef unc::UReal2<R, unc::Prop::mean> U2M;
    vh::Harness h;
    h.add("one-first", body1<U>); h.add("one-est", body1<U2>); h.add("one-mean", body1<U2M>);
    h.add("two-first", body2<U>); h.add("two-est", body2<U2>); h.add("two-mean", body2<U2M>);
    h.add("separate-first", separate<U>); h.add("separate-est", separate<U2>); h.add("separate-mean", separate<U2M>);
    h.add("default-first", defaults<U>); h.add("default-est", defaults<U2>); h.add("default-mean", defaults<U2M>);
    return h.main(argc, argv);
}
