// Exhaustive exploration of short programs over UReal against a dense-gradient model.
// MON selects what is compared: 1 moments (C01), 2 in-place twin (C02), 3 query
// transparency (C03), 4 ids (C04), 6 grad (C06), 7 memory/value semantics (C22)
#include "um.hpp"
#include <uncertainties/impl.hpp>
#ifndef REAL
#define REAL double
#endif
#ifndef LIGHT
#define LIGHT 0  // 2: shallower, for the slow numeric types
#endif
#ifndef MON
#define MON 1
#endif
using namespace um;
typedef World<REAL> W;
typedef unc::UReal<REAL> U;
typedef REAL Rl;

static const std::vector<Op> FULL = alphabet(false), CORE = alphabet(true);

static bool twin_equal(const W &a, const W &b, vh::Ctx &c, const char *what) {
    // both worlds ran the same program in different ways; every observable agrees to rounding
    auto cmp = [&](LD x, LD y, const E &m, const std::string &q) {
        c.check(xabs(x - y) <= 32 * m.e + 1e-300L, what, [&] { return std::string(what) + ": " + q + " is " + vh::num(x) + " here but " + vh::num(y) + " in the equivalent program; reference " + vh::num(m.v); });
    };
    for (int i = 0; i < NR; ++i) {
        const Reg &z = a.m[i]; std::string ri = "r" + std::to_string(i);
        cmp(ld(a.r[i].n()), ld(b.r[i].n()), z.mu, "n(" + ri + ")");
        E v = z.var(), s = esqrt(v);
        cmp(ld(var(a.r[i])), ld(var(b.r[i])), v, "var(" + ri + ")");
        cmp(ld(a.r[i].s()), ld(b.r[i].s()), s, "s(" + ri + ")");
        for (int k = 0; k < a.nb; ++k) cmp(ld(cov(a.r[i], a.x[k])), ld(cov(b.r[i], b.x[k])), z.g[k] * E(a.xs[k]), "cov(" + ri + ", input)");
        for (int j = 0; j < NR; ++j) cmp(ld(cov(a.r[i], a.r[j])), ld(cov(b.r[i], b.r[j])), z.cov(a.m[j]), "cov(" + ri + ", r" + std::to_string(j) + ")");
        c.check(a.r[i].isindep() == b.r[i].isindep() && (a.r[i].indepid() > 0) == (b.r[i].indepid() > 0), what, [&] { return std::string(what) + ": independence status of " + ri + " differs"; });
    }
    return true;
}

struct Snap { LD n, s, v, cv[NB]; bool ind; long id; };
static Snap snap(const W &w, const U &u) {
    Snap t; t.n = ld(u.n()); t.s = ld(u.s()); t.v = ld(var(u)); t.ind = u.isindep(); t.id = u.indepid();
    for (int k = 0; k < NB; ++k) t.cv[k] = k < w.nb ? ld(cov(u, w.x[k])) : 0;
    return t;
}
static bool samesnap(const Snap &a, const Snap &b, int nb) {
    bool ok = a.n == b.n && a.s == b.s && a.v == b.v && a.ind == b.ind && a.id == b.id;
    for (int k = 0; k < nb; ++k) ok = ok && a.cv[k] == b.cv[k];
    return ok;
}

// period > 0: the first `period` operations are chosen, then repeated cyclically up to `depth`
static void body(vh::Ctx &c, const std::vector<Op> &alpha, int depth, int period = 0, bool scaled = false) {
    E::eps() = ld(std::numeric_limits<REAL>::epsilon());
    const int s = c.choose(W::NSTART);
    const int first = c.choose(int(alpha.size()));
    c.shard();
    const int sc = scaled ? c.choose(W::NSCALES) : -1;
    W w; if (scaled) w.setscale(sc);
    w.start(s);
    c.note([&] { return std::string("start: ") + W::startname(s) + (sc < 0 ? "" : ", scaled by 2^" + std::to_string(w.scale[0]) + " 2^" + std::to_string(w.scale[1]) + " 2^" + std::to_string(w.scale[2])); });
#if MON == 2 || MON == 3
    W t; 
#if MON == 2
    t.inplace_as_plain = true;
#else
    t.no_queries = true;
#endif
    if (scaled) t.setscale(sc);
    t.start(s);
#endif
    std::vector<int> hist{first};
    for (int d = 0; d < depth; ++d) {
        if (d > 0) hist.push_back(period && d >= period ? hist[d - period] : c.choose(int(alpha.size())));
        const Op o = alpha[hist[d]];
        const bool fresh = c.fresh();
#if MON == 2 || MON == 7 || MON == 3
        // no variable other than the destination changes
        Snap before[NR + NB];
        if (fresh) { for (int i = 0; i < NR; ++i) before[i] = snap(w, w.r[i]); for (int k = 0; k < w.nb; ++k) before[NR + k] = snap(w, w.x[k]); }
        const int nb0 = w.nb;
#endif
        c.note([&] { return opname(o); });
        const bool ok = w.apply(o);
#if MON == 2 || MON == 3
        const bool ok2 = t.apply(o);
        c.check(ok == ok2, "twin", [&] { return std::string("the two worlds diverge"); });
#endif
        if (!ok) c.prune();
        if (period && !W::oknormal(w.m[o.d])) c.prune();   // squares and fourth powers would underflow
        c.step();
        c.state(w.hash());
        if (!fresh) continue;
        c.note([&] { return w.show(); });
#if MON == 1
        w.observe(c);
#elif MON == 2
        w.observe(c);
        twin_equal(w, t, c, "in-place");
#elif MON == 3
        twin_equal(w, t, c, "query");
        for (int i = 0; i < NR; ++i) {
            U copy = w.r[i], fresh_copy = w.r[i];
            const U &cc = fresh_copy;
            const E v = w.m[i].var(), sd = esqrt(v);
            const LD s0 = ld(cc.s()), s1 = ld(copy.s()), s2 = ld(copy.s()), v1 = ld(var(copy)), v2 = ld(var(static_cast<const U &>(copy))), s3 = ld(static_cast<const U &>(copy).s()), cv = ld(cov(copy, copy)), s4 = ld(sdev(copy));
            U copy2 = w.r[i];
            const LD vv = ld(var(copy2)), sv = ld(copy2.s());
            for (LD q : {s0, s1, s2, s3, s4, sv}) c.check(agree(q, sd) && q >= 0, "query-s", [&] { return "s() of r" + std::to_string(i) + " depends on the queries made: " + vh::num(q) + " vs " + vh::num(sd.v); });
            // correlation and derivatives of copies of which both, one or none have been queried
            for (int j = 0; j < NR; ++j) {
                const E sp = sd * esqrt(w.m[j].var());
                if (!(sp.v > 1e-6L * w.lo * w.lo && sp.e < 1e-6L * sp.v)) continue;
                const E co = w.m[i].cov(w.m[j]) / sp;
                const U &a0 = w.r[i], &b0 = w.r[j];
                U b1 = w.r[j]; { volatile bool q = ld(b1.s()) > 0; (void)q; }
                for (LD q : {ld(corr(a0, b0)), ld(corr(copy, b0)), ld(corr(a0, b1)), ld(corr(copy, b1)), ld(corr(copy2, b0))})
                    c.check(agree(q, co), "query-corr", [&] { return "corr of r" + std::to_string(i) + " and r" + std::to_string(j) + " depends on the queries made: " + vh::num(q) + " vs " + vh::num(co.v); });
            }
            for (int k = 0; k < w.nb; ++k) {
                U fc = w.r[i];
                const LD g0 = ld(fc.grad(w.x[k])), g1 = ld(copy.grad(w.x[k]));
                c.check(g0 == g1 || agree(g1, w.m[i].g[k]), "query-grad", [&] { return "grad of r" + std::to_string(i) + " depends on the queries made: " + vh::num(g1) + " vs " + vh::num(g0); });
            }
            for (LD q : {v1, v2, cv, vv}) c.check(agree(q, v) && q >= 0, "query-var", [&] { return "var of r" + std::to_string(i) + " depends on the queries made: " + vh::num(q) + " vs " + vh::num(v.v); });
        }
#elif MON == 4
        w.observe_ids(c);
#elif MON == 6
        w.observe_grad(c);
#endif
#if MON == 2 || MON == 7 || MON == 3
        for (int i = 0; i < NR; ++i) if (i != o.d && !(o.k == SWAP && i == o.a) && !(o.k == MOVE && i == o.a))
            c.check(samesnap(before[i], snap(w, w.r[i]), nb0), "other-changed", [&] { return opname(o) + " changed r" + std::to_string(i); });
        if (o.k == QS || o.k == QV || o.k == QCORR || o.k == SELF) {
            Snap a = before[o.d], b = snap(w, w.r[o.d]);
            c.check(a.n == b.n && agree(b.s, esqrt(w.m[o.d].var())) && agree(b.v, w.m[o.d].var()) && a.ind == b.ind && a.id == b.id, "query-changed", [&] { return opname(o) + " changed r" + std::to_string(o.d); });
            for (int k = 0; k < nb0; ++k) c.check(a.cv[k] == b.cv[k], "query-changed", [&] { return opname(o) + " changed a covariance of r" + std::to_string(o.d); });
        }
        for (int k = 0; k < nb0; ++k) c.check(samesnap(before[NR + k], snap(w, w.x[k]), nb0), "input-changed", [&] { return opname(o) + " changed an independent input it does not assign"; });
#endif
#if MON == 7
        w.observe(c);
#endif
    }
}

// All overlap patterns: x and y depend on arbitrary subsets of N inputs (x, y
// built in either order, queried or not), then one merging operation.
static void patterns(vh::Ctx &c, int N) {
    E::eps() = ld(std::numeric_limits<REAL>::epsilon());
    const int sx = c.choose(1 << N), sy = c.choose(1 << N);
    c.shard();
    const int bx = c.choose(3), by = c.choose(3);     // how the operands are built
    std::vector<U> in;
    std::vector<double> sg;
    for (int i = 0; i < N; ++i) { double s = 0.25 * (i + 1) * (i % 2 ? 1.5 : 1); in.push_back(U(Rl(i - 1.5), Rl(s))); sg.push_back(s); }
    struct M { E mu; std::vector<E> g; };
    auto build = [&](int set, int how, M &m, double c0) {
        U u; m.mu = E(0); m.g.assign(N, E(0));
        std::vector<U> vs; std::vector<REAL> ds;
        double k = c0;
        for (int q = 0; q < N; ++q) {
            const int i = how == 1 ? N - 1 - q : q;
            if (!(set >> i & 1)) continue;
            m.g[i] = E(k) * E(sg[i]); m.mu = m.mu + E(k) * E(i - 1.5);
            if (how == 2) { vs.push_back(in[i]); ds.push_back(Rl(k)); }
            else u += Rl(k) * in[i];
            k = -k + 0.5;
        }
        if (how == 2) { REAL mu = 0; for (size_t j = 0; j < vs.size(); ++j) mu += ds[j] * vs[j].n(); u = nary(vs.begin(), vs.end(), mu, ds.begin()); }
        if (how == 0) { volatile LD q = ld(u.s()); (void)q; }
        return u;
    };
    M mx, my;
    const U x = build(sx, bx, mx, 1.25), y = build(sy, by, my, -0.75);
    const int op = c.choose(8);
    c.note([&] { std::ostringstream s; s << "x over inputs " << sx << " built " << bx << ", y over inputs " << sy << " built " << by << ", op " << op; return s.str(); });
    U z; E dx(1), dy(1), mu(0);
    switch (op) {
    case 0: z = x + y; mu = mx.mu + my.mu; break;
    case 1: z = x - y; dy = E(-1); mu = mx.mu - my.mu; break;
    case 2: z = x * y; dx = my.mu; dy = mx.mu; mu = mx.mu * my.mu; break;
    case 3: z = binary(x, y, Rl(7), Rl(-0.5), Rl(3)); dx = E(-0.5); dy = E(3); mu = E(7); break;
    case 4: { std::vector<U> v{y, x, y}; std::vector<REAL> d{Rl(2), Rl(-0.5), Rl(0.75)}; z = nary(v.begin(), v.end(), Rl(3), d.begin()); dx = E(-0.5); dy = E(2.75); mu = E(3); break; }
    case 5: z = x; z += y; mu = mx.mu + my.mu; break;
    case 6: z = x; z *= y; dx = my.mu; dy = mx.mu; mu = mx.mu * my.mu; break;
    case 7: z = x; z.binary_assign(y, Rl(2), Rl(-2), Rl(0.25)); dx = E(-2); dy = E(0.25); mu = E(2); break;
    }
    c.step();
    uint64_t h = vh::hashd(op, double(mu.v));
    E v(0), cxy(0);
    for (int i = 0; i < N; ++i) {
        const E g = dx * mx.g[i] + dy * my.g[i];
        v = v + g * g; cxy = cxy + mx.g[i] * my.g[i];
        h = vh::hashd(h, double(g.v));
        const E w = g * E(sg[i]);
        c.check(agree(ld(cov(z, in[i])), w) && agree(ld(cov(in[i], z)), w), "merge", [&] { return "covariance of the result with input " + std::to_string(i) + " is " + vh::num(ld(cov(z, in[i]))) + ", expected " + vh::num(w.v); });
    }
    const U &cz = z;
    c.check(agree(ld(z.n()), mu), "merge-mean", [&] { return "mean " + vh::num(ld(z.n())) + ", expected " + vh::num(mu.v); });
    c.check(agree(ld(var(cz)), v) && agree(ld(cz.s()), esqrt(v)), "merge-var", [&] { return "variance of the result is " + vh::num(ld(var(cz))) + ", expected " + vh::num(v.v); });
    c.check(agree(ld(cov(x, y)), cxy) && agree(ld(cov(y, x)), cxy), "cov-walk", [&] { return "cov(x, y) = " + vh::num(ld(cov(x, y))) + ", expected " + vh::num(cxy.v); });
    const int nz = __builtin_popcount(sx | sy);
    c.check(z.isindep() == (nz <= 1), "merge-indep", [&] { return std::string("independence of the result is wrong"); });
    c.check(z.indepid() == (nz == 0 ? 0 : nz == 1 ? in[__builtin_ctz(sx | sy)].indepid() : unc::invalid_id), "merge-id", [&] { return std::string("id of the result is wrong"); });
    c.state(h);
}

// Many inputs: x and y depend on an interval of them with a stride, then one
// merging operation; and n-ary functions of many variables.
template<bool HUGE_> static void wide(vh::Ctx &c) {
    E::eps() = ld(std::numeric_limits<REAL>::epsilon());
    const int N = HUGE_ ? c.thorough() ? 1030 : 300 : c.thorough() ? 70 : 36;
    static const std::vector<int> CUT = HUGE_ ? std::vector<int>{0, 1, 127, 128, 255, 256, 257, 299, 300, 1023, 1024, 1025, 1030} : std::vector<int>{0, 1, 2, 7, 8, 9, 15, 16, 17, 18, 31, 32, 33, 35, 36, 63, 64, 65, 69, 70};
    struct S { int a, b, st; };
    static std::vector<S> sets;
    if (sets.empty()) for (int a : CUT) for (int b : CUT) for (int st : {1, 2, 3}) if ((!HUGE_ || st < 3) && a < b && b <= N && (st == 1 || b - a > st)) sets.push_back(S{a, b, st});
    const int sx = c.choose(int(sets.size())), sy = c.choose(int(sets.size()));
    c.shard();
    std::vector<U> in; std::vector<double> sg;
    for (int i = 0; i < N; ++i) { double s = 0.25 * (i % 7 + 1); in.push_back(U(Rl(i - 1.5), Rl(s))); sg.push_back(s); }
    auto build = [&](const S &s, std::vector<E> &g, E &mu, double k, bool asnary) {
        U u; g.assign(N, E(0)); mu = E(0); std::vector<U> v; std::vector<REAL> d;
        for (int i = s.a; i < s.b; i += s.st) {
            g[i] = E(k) * E(sg[i]); mu = mu + E(k) * E(i - 1.5);
            if (asnary) { v.push_back(in[i]); d.push_back(Rl(k)); } else u += Rl(k) * in[i];
            k = k > 2 ? k - 3.5 : k + 0.75; if (k == 0) k = 0.5;
        }
        if (asnary) u = nary(v.begin(), v.end(), Rl(mu.v), d.begin());
        return u;
    };
    std::vector<E> gx, gy; E mx, my;
    const bool nx = (sx + sy) % 2, ny = (sx / 2 + sy) % 2;
    const U x = build(sets[sx], gx, mx, 1.25, nx), y = build(sets[sy], gy, my, -0.75, ny);
    const int op = c.choose(5);
    c.note([&] { std::ostringstream s; s << "x over inputs [" << sets[sx].a << ", " << sets[sx].b << ") by " << sets[sx].st << ", y over [" << sets[sy].a << ", " << sets[sy].b << ") by " << sets[sy].st << " of " << N << ", op " << op; return s.str(); });
    U z; E dx(1), dy(1), mu(0);
    switch (op) {
    case 0: z = x + y; mu = mx + my; break;
    case 1: z = x; z -= y; dy = E(-1); mu = mx - my; break;
    case 2: z = binary(x, y, Rl(7), Rl(-0.5), Rl(3)); dx = E(-0.5); dy = E(3); mu = E(7); break;
    case 3: { std::vector<U> v{y, x, y}; std::vector<REAL> d{Rl(2), Rl(-0.5), Rl(0.75)}; z = nary(v.begin(), v.end(), Rl(3), d.begin()); dx = E(-0.5); dy = E(2.75); mu = E(3); break; }
    case 4: z = x; z.binary_assign(y, Rl(2), Rl(-2), Rl(0.25)); dx = E(-2); dy = E(0.25); mu = E(2); break;
    }
    c.step();
    E v(0), cxy(0); uint64_t h = vh::hashd(op, double(mu.v)); int nz = 0, last = 0; bool dep = false;
    for (int i = 0; i < N; ++i) {
        const E g = dx * gx[i] + dy * gy[i], w = g * E(sg[i]);
        v = v + g * g; cxy = cxy + gx[i] * gy[i]; h = vh::hashd(h, double(g.v));
        if (gx[i].v != 0 || gy[i].v != 0) { ++nz; last = i; }
#if MON == 6
        const E gr = g / E(sg[i]);
        c.check(agree(ld(z.grad(in[i])), gr), "wide-grad", [&] { return "grad with respect to input " + std::to_string(i) + " is " + vh::num(ld(z.grad(in[i]))) + ", expected " + vh::num(gr.v); });
#endif
        c.check(agree(ld(cov(z, in[i])), w), "wide", [&] { return "covariance of the result with input " + std::to_string(i) + " is " + vh::num(ld(cov(z, in[i]))) + ", expected " + vh::num(w.v); });
    }
    const U &cz = z; (void)dep;
    c.check(agree(ld(z.n()), mu), "wide-mean", [&] { return "mean " + vh::num(ld(z.n())) + ", expected " + vh::num(mu.v); });
    c.check(agree(ld(var(cz)), v) && agree(ld(cz.s()), esqrt(v)), "wide-var", [&] { return "variance of the result is " + vh::num(ld(var(cz))) + ", expected " + vh::num(v.v); });
    c.check(agree(ld(cov(x, y)), cxy) && agree(ld(cov(y, x)), cxy), "wide-cov", [&] { return "cov(x, y) = " + vh::num(ld(cov(x, y))) + ", expected " + vh::num(cxy.v); });
    c.check(z.isindep() == (nz <= 1) && z.indepid() == (nz == 1 ? in[last].indepid() : unc::invalid_id), "wide-id", [&] { return "independence of a variable of " + std::to_string(nz) + " inputs is wrong"; });
    c.state(h);
}

int main(int argc, char **argv) {
    vh::Harness h;
    h.add("full", [](vh::Ctx &c) { body(c, FULL, c.thorough() ? 3 : 2); });
    h.add("scaled1", [](vh::Ctx &c) { body(c, FULL, 1, 0, true); });
    h.add("scaled", [](vh::Ctx &c) { body(c, c.thorough() ? FULL : CORE, 2, 0, true); });
    h.add("cycle1", [](vh::Ctx &c) { body(c, FULL, c.thorough() ? 48 : 24, 1); });
    h.add("cycle2", [](vh::Ctx &c) { body(c, CORE, c.thorough() ? 36 : 12, 2); });
    if (LIGHT == 0) h.add("cycle3", [](vh::Ctx &c) { if (c.thorough()) body(c, CORE, 18, 3); });
    h.add("core", [](vh::Ctx &c) { body(c, CORE, c.thorough() ? (LIGHT > 1 ? 3 : 4) : LIGHT > 1 ? 2 : 3); });
#if MON == 1 || MON == 4 || MON == 7 || MON == 2
    h.add("patterns", [](vh::Ctx &c) { patterns(c, (c.thorough() ? 6 : 5) - (LIGHT > 1)); });
#endif
    h.add("wide", wide<false>);
    if (LIGHT == 0) h.add("huge", wide<true>);
    return h.main(argc, argv);
}
