// C25: isfinite and isnormal against the numbers put into the variable.
#include "vh.hpp"
#include <uncertainties/ureal.hpp>
#include <uncertainties/ureal2.hpp>
#include <uncertainties/math.hpp>
#include <uncertainties/impl.hpp>
#include <vector>
#ifndef REAL
#define REAL double
#endif
namespace unc = uncertainties;
typedef REAL R; typedef long double L; typedef unc::UReal<R> U;
typedef std::numeric_limits<R> N;
static const R PAL[] = {R(1), R(0), N::min() / 4, R(4) * N::min(), N::max() / 4, N::infinity(), N::quiet_NaN(), R(-0.0), -N::max() / 4, -N::infinity(), R(-2)};
static const char *NAME[] = {"1", "0", "denorm", "4min", "max/4", "inf", "nan", "-0", "-max/4", "-inf", "-2"};
static bool fin(R x) { using std::isfinite; return isfinite(x); }
static bool nor(R x) { using std::isnormal; return isnormal(x); }
// as means and first derivatives no arithmetic is needed, so the largest number itself
static R pal1(int i) { return i == 4 ? N::max() : i == 8 ? -N::max() : PAL[i]; }
static int pal(vh::Ctx &c, int n) { return c.choose(c.thorough() ? 11 : n); }

template<class X> static void judge(vh::Ctx &c, const X &x, bool f, bool n, bool either, const char *what) {
    const bool gf = isfinite(x), gn = isnormal(x);
    c.check(gf == f, "isfinite", [&] { return std::string("isfinite is ") + (gf ? "true" : "false") + " for " + what; });
    if (!(n && either)) c.check(gn == n, "isnormal", [&] { return std::string("isnormal is ") + (gn ? "true" : "false") + " for " + what; });
    const X y = x; X z; z = x;
    c.check(isfinite(y) == gf && isfinite(z) == gf && isnormal(y) == gn && isnormal(X(x)) == gn && isfinite(X(x)) == gf, "copy", [&] { return std::string("a copy is classified differently"); });
}
static void first(vh::Ctx &c) {
    const int kind = c.choose(6), m = c.choose(11), a = c.choose(11), b = kind >= 2 ? c.choose(11) : 0, q = c.choose(2);
    c.shard();
    const R mu = pal1(m), dx = pal1(a), dy = pal1(b);
    c.note([&] { return "kind " + std::to_string(kind) + ": mean " + NAME[m] + ", coefficients " + NAME[a] + " " + NAME[b]; });
    c.step(); c.state(((kind * 16 + m) * 16 + a) * 32 + b * 2 + q);
    const U x(R(1), R(1)), y(R(1), R(1)), w(R(1), R(1));
    if (kind == 0) { judge(c, U(mu), fin(mu), false, false, "a constant"); return; }
    if (kind == 1) {
        U z = unary(x, mu, dx);
        judge(c, z, fin(mu) && fin(dx), nor(mu) && nor(dx), false, "a function of an independent variable");
        if (dx >= 0) judge(c, U(mu, dx), fin(mu) && fin(dx), nor(mu) && nor(dx), false, "an independent variable");
        return;
    }
    U z = kind == 2 ? binary(x, y, mu, dx, dy) : kind == 3 ? unary(binary(x, y, R(1), R(1), R(0)), mu, dx) : kind == 4 ? U(binary(x, x, mu, dx, dy)) : U(binary(binary(x, y, mu, dx, dy), w, mu, R(1), R(1)));
    if (q) (void)z.s();
    const U k = z;
    const R s = k.s();
    judge(c, z, fin(mu) && fin(s), nor(mu) && nor(s), false, "a dependent variable");
    // when squaring cannot overflow or underflow the answer is known without asking s()
    bool mild = true; for (R v : {dx, dy}) mild = mild && (v == 0 || v == 1 || v == -2 || !fin(v));
    if (mild && kind == 2) judge(c, z, fin(mu) && fin(dx) && fin(dy), nor(mu) && fin(dx) && fin(dy) && (dx != 0 || dy != 0), false, "a function of two variables");
}
template<unc::Prop P> struct Second {
    typedef unc::UReal2<R, P> X;
    static X var() { static const std::array<R, 6> m{{0, 3, 0, 15, 0, 105}}; return X(R(0), R(1), m, R(-1)); }
    static void one(vh::Ctx &c) {
        const int m = c.choose(11), g = c.choose(11), h = c.choose(11);
        c.shard();
        c.note([&] { return std::string("mean ") + NAME[m] + ", gradient " + NAME[g] + ", hessian " + NAME[h]; });
        c.step(); c.state(vh::mix(int(P) + 1, (m * 16 + g) * 16 + h));
        const X x = var();
        const R mu = PAL[m], G = PAL[g], H = PAL[h];
        judge(c, unary(x, mu, G, H), fin(mu) && fin(G) && fin(H), nor(mu) && nor(G) && nor(H), false, "a function of one variable");
        judge(c, X(mu), fin(mu), nor(mu), false, "a constant");
    }
    static void two(vh::Ctx &c) {
        int k[6];
        for (int i = 0; i < 6; ++i) { k[i] = pal(c, 7); if (i == 1) c.shard(); }
        c.note([&] { std::string s = "mean, gradient, hessian xx yy xy:"; for (int i : k) s += std::string(" ") + NAME[i]; return s; });
        c.step(); { uint64_t h = int(P) + 10; for (int i : k) h = vh::mix(h, i + 1); c.state(h); }
        const X x = var(), y = var();
        bool f = true, n = true;
        for (int i = 0; i < 5; ++i) { f = f && fin(PAL[k[i]]); n = n && nor(PAL[k[i]]); }
        const R xy = PAL[k[5]];
        judge(c, binary(x, y, PAL[k[0]], PAL[k[1]], PAL[k[2]], PAL[k[3]], PAL[k[4]], xy), f && fin(xy), n && (nor(xy) || xy == 0), xy == 0, "a function of two variables");
    }
    static void three(vh::Ctx &c) {
        int k[6];
        for (int i = 0; i < 6; ++i) { k[i] = pal(c, 7); if (i == 1) c.shard(); }
        const int order = c.choose(6);
        c.note([&] { std::string s = "order " + std::to_string(order) + ", mean, hessian xx yy xy ww xw=yw:"; for (int i : k) s += std::string(" ") + NAME[i]; return s; });
        c.step(); { uint64_t h = int(P) + 20 + order * 4; for (int i : k) h = vh::mix(h, i + 1); c.state(h); }
        static const int O[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
        X v[3]; for (int i = 0; i < 3; ++i) v[O[order][i]] = var();
        const X a = binary(v[0], v[1], R(0), R(1), R(1), PAL[k[1]], PAL[k[2]], PAL[k[3]]);
        const X b = unary(v[2], R(0), R(1), PAL[k[4]]);
        const X z = binary(a, b, PAL[k[0]], R(1), R(1), R(0), R(0), PAL[k[5]]);
        bool f = true, n = true, e = false;
        for (int i = 0; i < 6; ++i) {
            f = f && fin(PAL[k[i]]);
            if ((i == 3 || i == 5) && PAL[k[i]] == 0) e = true; else n = n && nor(PAL[k[i]]);
        }
        judge(c, z, f, n, e, "a function of three variables");
    }
};
// many inputs, one of the numbers special
static void many_first(vh::Ctx &c) {
    static const int NS[] = {4, 9, 16, 17, 33, 64};
    const int n = NS[c.choose(6)], at = c.choose(n);
    c.shard();
    const int v = c.choose(11), how = c.choose(3), q = c.choose(2);
    c.note([&] { return std::to_string(n) + " inputs, coefficient " + std::to_string(at) + " is " + NAME[v]; });
    c.step(); c.state(vh::mix(vh::mix(n, at), v * 8 + how * 2 + q + 7000));
    std::vector<U> x; std::vector<R> d;
    for (int i = 0; i < n; ++i) { x.push_back(U(R(0), R(1))); d.push_back(i == at ? PAL[v] : R(i % 3 - 1.5)); }
    U z;
    if (how == 0) z = nary(x.begin(), x.end(), R(5), d.begin());
    else if (how == 1) { z = U(R(5)); for (int i = 0; i < n; ++i) z = binary(z, x[i], R(5), R(1), d[i]); }
    else { z = U(R(5)); for (int i = n; i--;) z += unary(x[i], R(0), d[i]); }
    if (q) (void)z.s();
    // the deviation of the largest finite number can overflow, then only isfinite of s() says what is right
    const bool f = fin(PAL[v]) && fin(z.s());
    judge(c, z, f, f, false, "a function of many variables");
    c.check(v == 4 || v == 8 || f == fin(PAL[v]), "s", [&] { return std::string("s() is not finite"); });
}
template<unc::Prop P> static void many_second(vh::Ctx &c) {
    typedef unc::UReal2<R, P> X;
    static const int NS[] = {4, 7, 12, 17};
    const int n = NS[c.choose(c.thorough() ? 4 : 3)], at = c.choose(n), bt = c.choose(n);
    c.shard();
    if (bt < at) c.prune();
    const int v = c.choose(11), what = at == bt ? c.choose(2) : 2;
    c.note([&] { return std::to_string(n) + " inputs, " + (what == 0 ? "gradient " : what == 1 ? "hessian " : "mixed derivative ") + std::to_string(at) + "," + std::to_string(bt) + " is " + NAME[v]; });
    c.step(); c.state(vh::mix(vh::mix(n * 64 + at, bt), v * 4 + what + int(P) * 100 + 8000));
    std::vector<X> x; for (int i = 0; i < n; ++i) x.push_back(Second<P>::var());
    X z; bool any = false;
    auto add = [&](const X &t) { z = any ? X(binary(z, t, R(3), R(1), R(1), R(0), R(0), R(1))) : t; any = true; };
    // the pair at the place of its first element, so that the mixed derivative is set once
    for (int i = 0; i < n; ++i) {
        if (what == 2 && i == bt) continue;
        if (what == 2 && i == at) add(binary(x[at], x[bt], R(3), R(1), R(1), R(1), R(1), PAL[v]));
        else add(unary(x[i], R(3), i == at && what == 0 ? PAL[v] : R(1), i == at && what == 1 ? PAL[v] : R(1)));
    }
    // infinite times zero in the second derivatives of the sum cannot make it finite; products with a
    // subnormal gradient are subnormal
    const bool f = fin(PAL[v]);
    judge(c, z, f, what == 2 ? (nor(PAL[v]) || PAL[v] == 0) : nor(PAL[v]), what == 2 && PAL[v] == 0, "a function of many variables");
}
// results of ordinary arithmetic
static void arith(vh::Ctx &c) {
    const int op = c.choose(8);
    c.shard();
    c.note([&] { return "case " + std::to_string(op); });
    c.step(); c.state(op + 900000);
    U x(R(2), R(1)), y(R(3), R(1));
    typedef Second<unc::Prop::est>::X X; X a = Second<unc::Prop::est>::var() + R(2), b = Second<unc::Prop::est>::var() + R(3);
    switch (op) {
    case 0: judge(c, U(x / R(0)), false, false, false, "x / 0"); judge(c, X(a / R(0)), false, false, false, "x / 0"); break;
    case 1: judge(c, log(x), true, true, false, "log(x)"); judge(c, log(a), true, true, false, "log(x)"); break;
    case 2: judge(c, log(x - R(2)), false, false, false, "log(0)"); judge(c, log(a - R(2)), false, false, false, "log(0)"); break;
    case 3: judge(c, sqrt(x - R(2)), false, false, false, "sqrt(0)"); judge(c, sqrt(a - R(2)), false, false, false, "sqrt(0)"); break;
    case 4: judge(c, U(x * y), true, true, false, "x y"); judge(c, X(a * b), true, false, false, "x y"); break;
    case 5: judge(c, U(x - x), true, false, false, "x - x"); judge(c, X(a - a), true, false, false, "x - x"); break;
    case 6: judge(c, U(x * R(0)), true, false, false, "0 x"); judge(c, X(a * R(0)), true, false, false, "0 x"); break;
    default: judge(c, exp(x * y), true, true, false, "exp(x y)"); judge(c, exp(a * b), true, true, false, "exp(x y)");
    }
}
int main(int argc, char **argv) {
    vh::Harness h;
    typedef Second<unc::Prop::est> E; typedef Second<unc::Prop::mean> M;
    h.add("first", first); h.add("one-est", E::one); h.add("one-mean", M::one); h.add("two-est", E::two); h.add("two-mean", M::two);
    h.add("three-est", E::three); h.add("three-mean", M::three); h.add("arith", arith);
    h.add("many-first", many_first); h.add("many-est", many_second<unc::Prop::est>); h.add("many-mean", many_second<unc::Prop::mean>);
    return h.main(argc, argv);
}
