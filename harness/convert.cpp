// C16: programs of the two register machines with a conversion of all the variables in the
// middle: op; convert everything to another numeric type / mode; op. The reference model does not
// see the conversion.
#include "um.hpp"
#include "um2.hpp"
#include <algorithm>
#include <uncertainties/impl.hpp>
#ifndef REAL
#define REAL double
#endif
using um::ld;
namespace unc = uncertainties;
typedef REAL S;
static const std::vector<um::Op> A1 = um::alphabet(true);
static const std::vector<um2::Op> A2 = um2::alphabet(true);
template<class A, class B> long double maxeps() { return std::fmax((long double)std::numeric_limits<A>::epsilon(), (long double)std::numeric_limits<B>::epsilon()); }

struct Snap { std::vector<long double> v; };
template<class W> Snap snap1(const W &w) {
    Snap s;
    for (const auto &u : w.r) { s.v.push_back(ld(u.n())); s.v.push_back(ld(u.s())); s.v.push_back(ld(var(u))); s.v.push_back(u.indepid()); for (int k = 0; k < w.nb; ++k) s.v.push_back(ld(cov(u, w.x[k]))); }
    return s;
}
template<class W> Snap snap2(const W &w) {
    Snap s;
    for (const auto &u : w.r) { s.v.push_back(ld(u.n())); s.v.push_back(ld(u.first_order_n())); s.v.push_back(ld(u.m(4))); s.v.push_back(u.indepid()); for (int k = 0; k < w.nb; ++k) { s.v.push_back(ld(u.grad(w.x[k]))); for (int l = 0; l < w.nb; ++l) s.v.push_back(ld(u.hess(w.x[k], w.x[l]))); } }
    return s;
}

// ---- first order
template<class D, class U, class F> D conv(const U &x, int how, F junk) {
    switch (how) {
    case 0: { D y = x; return y; }                                 // implicit
    case 1: return static_cast<D>(x);
    default: { D y = junk(); y = x; return y; }                    // assignment over another variable
    }
}
template<class RD> void first(vh::Ctx &c) {
    E::eps() = maxeps<S, RD>();
    typedef um::World<S> W; typedef um::World<RD> T; typedef unc::UReal<RD> D;
    const int s = c.choose(W::NSTART), o1 = c.choose(int(A1.size()) + 1);
    c.shard();
    const int how = c.choose(3), q = c.choose(3);
    W w; w.start(s);
    c.note([&] { return std::string("start: ") + W::startname(s); });
    if (o1) { c.note([&] { return um::opname(A1[o1 - 1]); }); if (!w.apply(A1[o1 - 1])) c.prune(); }
    if (q == 1) for (auto &u : w.r) { volatile long double z = ld(u.s()); (void)z; }
    if (q == 2) for (auto &u : w.r) { volatile long double z = ld(var(u)); (void)z; }
    c.note([&] { return "convert all the variables, way " + std::to_string(how) + (q ? ", queried before" : ""); });
    const Snap before = snap1(w);
    T t; t.nb = w.nb;
    auto junk = [] { D a(RD(1), RD(2)), b(RD(3), RD(4)); D z = a * b; volatile long double q = ld(z.s()); (void)q; return z; };
    for (int i = 0; i < um::NB; ++i) { t.xs[i] = w.xs[i]; if (i < w.nb) t.x[i] = conv<D>(w.x[i], how, junk); }
    for (int i = 0; i < um::NR; ++i) { t.m[i] = w.m[i]; t.r[i] = conv<D>(w.r[i], how, junk); }
    const bool fresh = c.fresh();
    if (fresh) {
        c.step(); c.state(vh::mix(t.hash(), how * 3 + q));
        c.check(snap1(w).v == before.v, "source-changed", [&] { return std::string("the conversion changed its source"); });
        for (int k = 0; k < w.nb; ++k) c.check(w.x[k].indepid() == t.x[k].indepid(), "id", [&] { return std::string("the conversion changed the id of an independent variable"); });
        t.observe(c); t.observe_ids(c); t.observe_grad(c); w.observe(c);
    }
    const int o2 = c.choose(int(A1.size()));
    c.note([&] { return "then " + um::opname(A1[o2]); });
    if (!t.apply(A1[o2])) c.prune();
    c.step(); c.state(vh::mix(t.hash(), how * 3 + q));
    t.observe(c);
}
// ---- second order
template<class D, class U, class F> D conv2(const U &x, int how, F junk, std::true_type) { return how == 0 ? D(x) : conv<D>(x, how - 1, junk); }
template<class D, class U, class F> D conv2(const U &x, int how, F junk, std::false_type) { if (how == 0) return D(x); D y = junk(); y = static_cast<D>(x); return y; }
template<class RD, unc::Prop PS, unc::Prop PD> void second(vh::Ctx &c) {
    E::eps() = maxeps<S, RD>();
    typedef um2::World<S, PS> W; typedef um2::World<RD, PD> T; typedef unc::UReal2<RD, PD> D;
    // implicit: same mode, and no narrowing
    typedef std::integral_constant<bool, PS == PD && !std::is_same<S, RD>::value && (std::numeric_limits<RD>::digits >= std::numeric_limits<S>::digits)> Implicit;
    const int s = c.choose(W::NSTART), o1 = c.choose(int(A2.size()) + 1);
    c.shard();
    const int how = c.choose(Implicit::value ? 4 : 2), q = 0;
    W w; w.start(s);
    c.note([&] { return std::string("start: ") + W::startname(s); });
    if (o1) { c.note([&] { return um2::opname(A2[o1 - 1]); }); if (!w.apply(A2[o1 - 1])) c.prune(); }
    c.note([&] { return "convert all the variables, way " + std::to_string(how); });
    const bool fresh0 = c.fresh();
    Snap before; if (fresh0) before = snap2(w);
    T t; t.nb = w.nb;
    auto junk = [] { std::array<RD, 6> m{{0, 3, 0, 15, 0, 105}}; D a(RD(1), RD(2), m, RD(-1)), b(RD(3), RD(4), m, RD(-1)); return D(a * b); };
    for (int i = 0; i < um2::NB; ++i) { t.xs[i] = w.xs[i]; if (i < w.nb) t.x[i] = conv2<D>(w.x[i], how, junk, Implicit()); }
    for (int i = 0; i < um2::NR; ++i) { t.m[i] = w.m[i]; t.r[i] = conv2<D>(w.r[i], how, junk, Implicit()); }
    if (c.fresh()) {
        c.step(); c.state(vh::mix(t.hash(), how));
        if (fresh0) c.check(snap2(w).v == before.v, "source-changed", [&] { return std::string("the conversion changed its source"); });
        for (int k = 0; k < w.nb; ++k) c.check(w.x[k].indepid() == t.x[k].indepid(), "id", [&] { return std::string("the conversion changed the id of an independent variable"); });
        t.observe(c);
        long double B[um2::NR];
        for (int i = 0; i < um2::NR; ++i) {
            B[i] = 0;
            for (int k = 0; k < w.nb; ++k) { B[i] += 3.4L * (std::fabs(w.m[i].g[k].v) + 16 * w.m[i].g[k].e) * w.xs[k]; for (int l = 0; l < w.nb; ++l) B[i] += 0.5L * 3.4L * 3.4L * (std::fabs(w.m[i].h[k][l].v) + 16 * w.m[i].h[k][l].e) * w.xs[k] * w.xs[l]; }
        }
        const long double e = 256 * E::eps();
        for (int i = 0; i < um2::NR; ++i) {
            for (int k = 1; k <= 4; ++k) c.check(std::fabs(ld(t.r[i].m(k)) - ld(w.r[i].m(k))) <= e * std::pow(B[i], (long double)k), "moments", [&] { return "m(" + std::to_string(k) + ") of r" + std::to_string(i) + " is " + vh::num(ld(t.r[i].m(k))) + " after the conversion, " + vh::num(ld(w.r[i].m(k))) + " before"; });
            for (int j = 0; j < um2::NR; ++j) c.check(std::fabs(ld(cov(t.r[i], t.r[j])) - ld(cov(w.r[i], w.r[j]))) <= e * B[i] * B[j], "cov", [&] { return "cov of r" + std::to_string(i) + " and r" + std::to_string(j) + " is " + vh::num(ld(cov(t.r[i], t.r[j]))) + " after the conversion, " + vh::num(ld(cov(w.r[i], w.r[j]))) + " before"; });
        }
        (void)q;
    }
    if (!c.thorough() && how > 1) return;
    const int o2 = c.choose(int(A2.size()));
    c.note([&] { return "then " + um2::opname(A2[o2]); });
    if (!t.apply(A2[o2])) c.prune();
    c.step(); c.state(t.hash());
    t.observe(c);
}
// variables of many inputs
template<class RD> void many(vh::Ctx &c) {
    E::eps() = maxeps<S, RD>();
    static const int SZ[] = {6, 8, 9, 16, 17, 33};
    const int n = SZ[c.choose(6)], st = 1 + c.choose(3), order = c.choose(2), kind = c.choose(2), wide = c.choose(2);
    c.shard();
    c.note([&] { return "variable of " + std::to_string(n) + " inputs, every " + std::to_string(st) + ", order " + std::to_string(order) + ", class " + std::to_string(kind) + (wide ? ", inputs of very different sizes" : ""); });
    c.step(); c.state((n * 16 + st * 4 + order * 2 + kind) * 2 + wide);
    auto sg = [wide](int i) { return std::ldexp(0.25 * (i % 5 + 1), wide ? -(i * 5 % 16) : 0); };
    auto co = [](int i) { return (i * 3 % 7 - 3.5) * 0.5; };
    E mu(0), v(0);
    std::vector<int> id; for (int i = 0; i < n; i += st) id.push_back(i);
    if (order) std::reverse(id.begin(), id.end());
    for (int i : id) { mu = mu + E(co(i)) * E(i - 2.5); const E g = E(co(i)) * E(sg(i)); v = v + g * g; }
    if (kind == 0) {
        std::vector<unc::UReal<S>> x; unc::UReal<S> u;
        for (int i = 0; i < n; ++i) x.push_back(unc::UReal<S>(S(i - 2.5), S(sg(i))));
        for (int i : id) u = u + S(co(i)) * x[i];
        const unc::UReal<RD> y(u);
        c.check(agree(ld(y.n()), mu), "many-n", [&] { return "mean " + vh::num(ld(y.n())) + " after the conversion, expected " + vh::num(mu.v); });
        c.check(agree(ld(var(y)), v), "many-var", [&] { return "variance " + vh::num(ld(var(y))) + " after the conversion, expected " + vh::num(v.v); });
        for (int i = 0; i < n; ++i) {
            const unc::UReal<RD> b(x[i]);
            const bool in = i % st == 0; const E w = in ? E(co(i)) * E(sg(i)) * E(sg(i)) : E(0, 0);
            c.check(b.indepid() == x[i].indepid() && b.isindep(), "id", [&] { return std::string("the conversion changed the id of an independent variable"); });
            c.check(agree(ld(cov(y, b)), w) && agree(ld(cov(b, y)), w), "many-cov", [&] { return "covariance with input " + std::to_string(i) + " is " + vh::num(ld(cov(y, b))) + " after the conversion, expected " + vh::num(w.v); });
        }
    } else {
        typedef unc::UReal2<S, unc::Prop::est> X; typedef unc::UReal2<RD, unc::Prop::est> Y;
        std::vector<X> x; X u;
        for (int i = 0; i < n; ++i) { std::array<S, 6> m; for (int k = 0; k < 6; ++k) m[k] = S(um2::stdmom(i)[k]); x.push_back(X(S(i - 2.5), S(sg(i)), m, S(-1))); }
        for (int i : id) u = u + S(co(i)) * x[i];
        for (size_t p = 0; p + 1 < id.size(); ++p) u = u + binary(x[id[p]], x[id[p + 1]], S(0), S(0), S(0), S(0), S(0), S(co(id[p])));
        const Y y(u);
        c.check(agree(ld(y.first_order_n()), mu), "many-n", [&] { return "first_order_n() " + vh::num(ld(y.first_order_n())) + " after the conversion, expected " + vh::num(mu.v); });
        for (int i = 0; i < n; ++i) {
            const Y b(x[i]);
            const E w = i % st == 0 ? E(co(i)) : E(0, 0);
            c.check(b.indepid() == x[i].indepid() && b.isindep(), "id", [&] { return std::string("the conversion changed the id of an independent variable"); });
            c.check(agree(ld(y.grad(b)), w), "many-grad", [&] { return "grad with respect to input " + std::to_string(i) + " is " + vh::num(ld(y.grad(b))) + " after the conversion, expected " + vh::num(w.v); });
            for (int j = 0; j < n; ++j) {
                E h(0, 0);
                for (size_t p = 0; p + 1 < id.size(); ++p) if ((id[p] == i && id[p + 1] == j) || (id[p] == j && id[p + 1] == i)) h = E(co(id[p]));
                const LD got = ld(y.hess(b, Y(x[j])));
                c.check(agree(got, h), "many-hess", [&] { return "hess with respect to inputs " + std::to_string(i) + ", " + std::to_string(j) + " is " + vh::num(got) + " after the conversion, expected " + vh::num(h.v); });
            }
        }
    }
}
int main(int argc, char **argv) {
    vh::Harness h;
    h.add("many-float", many<float>); h.add("many-double", many<double>); h.add("many-ld", many<long double>);
    const unc::Prop e = unc::Prop::est, m = unc::Prop::mean;
    h.add("to-float", first<float>); h.add("to-double", first<double>); h.add("to-long-double", first<long double>);
    h.add("float-ee", second<float, unc::Prop::est, unc::Prop::est>); h.add("float-em", second<float, unc::Prop::est, unc::Prop::mean>); h.add("float-me", second<float, unc::Prop::mean, unc::Prop::est>); h.add("float-mm", second<float, unc::Prop::mean, unc::Prop::mean>);
    h.add("double-ee", second<double, unc::Prop::est, unc::Prop::est>); h.add("double-em", second<double, unc::Prop::est, unc::Prop::mean>); h.add("double-me", second<double, unc::Prop::mean, unc::Prop::est>); h.add("double-mm", second<double, unc::Prop::mean, unc::Prop::mean>);
    h.add("ld-ee", second<long double, unc::Prop::est, unc::Prop::est>); h.add("ld-em", second<long double, unc::Prop::est, unc::Prop::mean>); h.add("ld-me", second<long double, unc::Prop::mean, unc::Prop::est>); h.add("ld-mm", second<long double, unc::Prop::mean, unc::Prop::mean>);
    (void)e; (void)m;
    return h.main(argc, argv);
}
