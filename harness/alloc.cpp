// C21: operations on independent variables and constants do not use the heap, whatever their history.
#include "vh.hpp"
#include <uncertainties/ureal.hpp>
#include <uncertainties/math.hpp>
#include <uncertainties/functions.hpp>
#include <uncertainties/impl.hpp>
#include <new>
#include <cstdlib>
#ifndef REAL
#define REAL double
#endif
static unsigned long nnew = 0, ndel = 0;
void *operator new(size_t n) { ++nnew; void *p = std::malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n) { ++nnew; void *p = std::malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void *operator new(size_t n, const std::nothrow_t &) noexcept { ++nnew; return std::malloc(n ? n : 1); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { ++nnew; return std::malloc(n ? n : 1); }
void operator delete(void *p) noexcept { ++ndel; std::free(p); }
void operator delete[](void *p) noexcept { ++ndel; std::free(p); }
void operator delete(void *p, size_t) noexcept { ++ndel; std::free(p); }
void operator delete[](void *p, size_t) noexcept { ++ndel; std::free(p); }

namespace unc = uncertainties;
typedef REAL R; typedef unc::UReal<R> U;
typedef void (*Op)(U *, int, int);
static volatile long double sink;
static const unc::UUnary<R> &fact(int k) {
    static const unc::UUnary<R> f[2] = {unc::uunary<R>(unc::Unary<R>([](const R &x) { return x * x; }), unc::Unary<R>([](const R &x) { return 2 * x; })), unc::uunary<R>(unc::Unary<R>([](const R &x) { return x * x; }))};
    return f[k];
}
struct Named { const char *name; Op op; int arity; };
#define F(f) {#f, [](U *r, int i, int) { r[i] = f(r[i]); }, 1}
#define Q(name, e) {name, [](U *r, int i, int j) { U &x = r[i]; const U &cx = r[i]; U &y = r[j]; const U &cy = r[j]; (void)x; (void)cx; (void)y; (void)cy; sink = (long double)(e); }, 2}
#define Q1(name, e) {name, [](U *r, int i, int) { U &x = r[i]; const U &cx = r[i]; (void)x; (void)cx; sink = (long double)(e); }, 1}
static const Named OPS[] = {
    {"default", [](U *r, int i, int) { U x; r[i] = x; }, 1},
    {"constant", [](U *r, int i, int) { r[i] = R(2); }, 1},
    {"independent", [](U *r, int i, int) { r[i] = U(R(0.5), R(0.25)); }, 1},
    {"independent, s = 0", [](U *r, int i, int) { r[i] = U(R(0.5), R(0)); }, 1},
    {"copy assignment", [](U *r, int i, int j) { r[i] = r[j]; }, 2},
    {"copy construction", [](U *r, int i, int j) { U x(r[j]); U y = x; r[i] = y; }, 2},
    {"move", [](U *r, int i, int j) { if (i != j) { U x(std::move(r[j])); r[j] = U(R(1), R(1)); r[i] = std::move(x); } }, 2},
    {"swap", [](U *r, int i, int j) { std::swap(r[i], r[j]); }, 2},
    {"-x", [](U *r, int i, int) { r[i] = -r[i]; }, 1},
    {"+x", [](U *r, int i, int) { r[i] = +r[i]; }, 1},
    {"unary", [](U *r, int i, int) { r[i] = unary(r[i], R(0.5), R(-3)); }, 1},
    {"unary, no derivative", [](U *r, int i, int) { r[i] = unary(r[i], R(0.5), R(0)); }, 1},
    {"change_nom", [](U *r, int i, int) { r[i] = change_nom(r[i], R(0.75)); }, 1},
    {"uunary", [](U *r, int i, int) { r[i] = fact(0)(r[i]); }, 1},
    {"uunary numerical", [](U *r, int i, int) { r[i] = fact(1)(r[i]); }, 1},
    F(abs), F(exp), F(exp2), F(expm1), F(log), F(log10), F(log2), F(log1p), F(sqrt), F(cbrt), F(sin), F(cos), F(tan), F(asin), F(acos), F(atan), F(sinh), F(cosh), F(tanh), F(asinh), F(acosh), F(atanh), F(erf), F(erfc),
    Q1("n", cx.n() + x.n() + nom(cx)), Q1("s", cx.s()), Q1("s on a modifiable variable", x.s()), Q1("sdev", sdev(cx)), Q1("var", var(cx)), Q1("var on a modifiable variable", var(x)), Q1("id", cx.indepid() + cx.isindep()),
    Q("cov", cov(cx, cy)), Q("corr", corr(cx, cy)), Q("cov on modifiable variables", cov(x, y)), Q("isfinite", isfinite(cx) + isnormal(cx)),
    {"grad", [](U *r, int i, int j) { if (r[j].indepid() > 0 && r[i].indepid() > 0) sink = (long double)r[i].grad(r[j]); }, 2},
    {"vector element", [](U *r, int i, int j) { U a[3] = {r[i], r[j], U(R(1), R(1))}; a[2] = a[0]; r[i] = a[1]; }, 2},
};
enum { NOPS = sizeof OPS / sizeof *OPS };
static const int NR = 2;
static std::vector<std::pair<int, std::pair<int, int>>> alphabet() {
    std::vector<std::pair<int, std::pair<int, int>>> a;
    for (int o = 0; o < NOPS; ++o) for (int i = 0; i < NR; ++i) for (int j = 0; j < (OPS[o].arity == 2 ? NR : 1); ++j) a.push_back({o, {i, j}});
    return a;
}
static void run(vh::Ctx &c) {
    static const auto A = alphabet();
    (void)fact(0);
    const int len = 1 + c.choose(c.thorough() ? 4 : 3);
    int ops[4];
    for (int i = 0; i < len; ++i) { ops[i] = c.choose(A.size()); if (i == 1) c.shard(); }
    if (len < 2) c.shard();
    const int start = c.choose(4);
    c.note([&] { std::string s = "start " + std::to_string(start); for (int i = 0; i < len; ++i) s += std::string(", ") + OPS[A[ops[i]].first].name + " on " + std::to_string(A[ops[i]].second.first) + " " + std::to_string(A[ops[i]].second.second); return s; });
    uint64_t h = start; for (int i = 0; i < len; ++i) h = vh::mix(h, ops[i] + 1);
    c.state(h);
    int bad = -1;
    {
        const unsigned long n0 = nnew, d0 = ndel;
        U r[NR];
        r[0] = start & 1 ? U(R(0.5), R(0.25)) : U(R(0.5)); r[1] = start & 2 ? U(R(0.25), R(2)) : U();
        for (int i = 0; i < len && bad < 0; ++i) { const auto &a = A[ops[i]]; OPS[a.first].op(r, a.second.first, a.second.second); if (nnew != n0) bad = i; }
        if (bad < 0 && (nnew != n0 || ndel != d0)) bad = len;
    }
    for (int i = 0; i < len; ++i) c.step();
    c.check(bad < 0, "allocation", [&] { return std::string("the heap was used by ") + (bad < len ? OPS[A[ops[bad]].first].name : "destruction"); });
}
int main(int argc, char **argv) {
    vh::Harness h;
    h.add("run", run);
    return h.main(argc, argv);
}
