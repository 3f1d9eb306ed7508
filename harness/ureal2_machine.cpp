// Exhaustive exploration of short programs over UReal2.
// MON: 10 chain rule (C10), 13 propagation mode twin (C13), 22 memory and values (C22), 4 ids (C04 part)
#include "um2.hpp"
#include <uncertainties/impl.hpp>
#include <algorithm>
#ifndef REAL
#define REAL double
#endif
#ifndef MON
#define MON 10
#endif
#ifndef LIGHT
#define LIGHT 0  // 1: shallower, for the slow sanitizer builds; 2: for the slow numeric types
#endif
using namespace um2;
static const std::vector<Op> FULL = alphabet(false), CORE = alphabet(true);
typedef REAL Rl;
typedef World<REAL, unc::Prop::est> WE;
typedef World<REAL, unc::Prop::mean> WM;

struct Snap { LD v[8 + NB]; long id; };
template<class W> static Snap snap(const W &w, const typename W::U &u) {
    Snap s; s.v[0] = ld(u.first_order_n()); s.v[1] = ld(u.n()); s.v[2] = ld(u.m(1)); s.v[3] = ld(u.m(2)); s.v[4] = s.v[5] = s.v[6] = s.v[7] = 0; s.id = u.indepid();
    for (int k = 0; k < NB; ++k) s.v[8 + k] = k < w.nb ? ld(u.grad(w.x[k])) : 0;
    return s;
}
static bool same(const Snap &a, const Snap &b, int nb) {
    for (int i = 0; i < 8 + nb; ++i) if (a.v[i] != b.v[i]) return false;
    return a.id == b.id;
}

// period > 0: the first `period` operations are chosen, then repeated cyclically up to `depth`
template<class W> static void body(vh::Ctx &c, const std::vector<Op> &alpha, int depth, int period = 0, bool scaled = false) {
    E::eps() = ld(std::numeric_limits<REAL>::epsilon());
    const int s = c.choose(W::NSTART);
    const int first = c.choose(int(alpha.size()));
    c.shard();
    const int sc = scaled ? c.choose(W::NSCALES) : -1;
    W w; if (scaled) w.setscale(sc);
    w.start(s);
#if MON == 13
    WM t; if (scaled) t.setscale(sc);
    t.start(s);
#endif
    c.note([&] { return std::string("start: ") + W::startname(s) + (sc < 0 ? "" : ", scaling " + std::to_string(sc)); });
    std::vector<int> hist{first};
    for (int d = 0; d < depth; ++d) {
        if (d > 0) hist.push_back(period && d >= period ? hist[d - period] : c.choose(int(alpha.size())));
        const Op o = alpha[hist[d]];
        const bool fresh = c.fresh();
#if MON == 22
        Snap before[NR + NB]; const int nb0 = w.nb;
        if (fresh) { for (int i = 0; i < NR; ++i) before[i] = snap(w, w.r[i]); for (int k = 0; k < w.nb; ++k) before[NR + k] = snap(w, w.x[k]); }
#endif
        c.note([&] { return opname(o); });
        if (!w.apply(o)) {
            c.prune();
        }
#if MON == 13
        t.apply(o);
#endif
        if (period && !W::oknormal(w.m[o.d])) c.prune();   // squares and fourth powers would underflow
        c.step(); c.state(w.hash());
        if (!fresh) continue;
        c.note([&] { return w.show(); });
#if MON == 10
        w.observe(c);
#elif MON == 22
        for (int i = 0; i < NR; ++i) if (i != o.d && !((o.k == SWAP || o.k == MOVE) && i == o.a))
            c.check(same(before[i], snap(w, w.r[i]), nb0), "other-changed", [&] { return opname(o) + " changed r" + std::to_string(i); });
        for (int k = 0; k < nb0; ++k) c.check(same(before[NR + k], snap(w, w.x[k]), nb0), "input-changed", [&] { return opname(o) + " changed an input"; });
        if (o.k == QUERY) c.check(same(before[o.d], snap(w, w.r[o.d]), nb0), "query-changed", [&] { return opname(o) + " changed its operand"; });
        w.observe(c);
#elif MON == 13
        for (int i = 0; i < NR; ++i) {
            const auto &a = w.r[i]; const auto &b = t.r[i]; const Reg &z = w.m[i];
            const std::string ri = "r" + std::to_string(i);
            auto eq = [&](LD p, LD q, const std::string &what) {
                c.check(p == q || (xnan(p) && xnan(q)) || xabs(p - q) <= 1e-12L * (xabs(p) + xabs(q)), "mode", [&] { return what + " is " + vh::num(p) + " with Prop::est but " + vh::num(q) + " with Prop::mean"; });
            };
            // everything except n(), nom() is identical
            eq(ld(a.first_order_n()), ld(b.first_order_n()), ri + ".first_order_n()");
            for (int k = 1; k <= 4; ++k) eq(ld(a.m(k)), ld(b.m(k)), ri + ".m(" + std::to_string(k) + ")");
            eq(ld(a.s()), ld(b.s()), ri + ".s()"); eq(ld(a.skew()), ld(b.skew()), ri + ".skew()"); eq(ld(a.kurt()), ld(b.kurt()), ri + ".kurt()");
            eq(ld(var(a)), ld(var(b)), "var(" + ri + ")");
            for (int k = 0; k < w.nb; ++k) {
                eq(ld(a.grad(w.x[k])), ld(b.grad(t.x[k])), ri + ".grad");
                for (int l = k; l < w.nb; ++l) eq(ld(a.hess(w.x[k], w.x[l])), ld(b.hess(t.x[k], t.x[l])), ri + ".hess");
            }
            for (int j = 0; j < NR; ++j) { eq(ld(cov(a, w.r[j])), ld(cov(b, t.r[j])), "cov"); eq(ld(corr(a, w.r[j])), ld(corr(b, t.r[j])), "corr"); }
            c.check(a.isindep() == b.isindep() && (a.indepid() > 0) == (b.indepid() > 0), "mode-id", [&] { return ri + ": independence differs between the modes"; });
            // n() = first order + m(1) for mean, - m(1) for est
            const LD tol = 1e-6L * (xabs(z.mu.v) + xabs(ld(a.m(1)))) * (std::numeric_limits<REAL>::digits < 30 ? 1 : 1e-7L) + 1e-300L;
            auto nn = [&](LD got, LD want, const char *what) { c.check(xabs(got - want) <= tol, "mode-n", [&] { return ri + ": " + what + " is " + vh::num(got) + ", expected " + vh::num(want); }); };
            nn(ld(a.n()), ld(a.first_order_n()) - ld(a.m(1)), "n() with Prop::est");
            nn(ld(b.n()), ld(b.first_order_n()) + ld(b.m(1)), "n() with Prop::mean");
            eq(ld(nom(a)), ld(a.n()), "nom() vs n()"); eq(ld(nom(b)), ld(b.n()), "nom() vs n()");
            eq(ld(sdev(a)), ld(a.s()), "sdev() vs s()"); eq(ld(sdev(b)), ld(b.s()), "sdev() vs s()");
            // and against the reference
            const E e1 = w.m1(z);
            c.check(agree(ld(a.n()), z.mu - e1), "n-est", [&] { return ri + ".n() is " + vh::num(ld(a.n())) + ", reference " + vh::num((z.mu - e1).v); });
            c.check(agree(ld(b.n()), z.mu + e1), "n-mean", [&] { return ri + ".n() is " + vh::num(ld(b.n())) + ", reference " + vh::num((z.mu + e1).v); });
            // standardized moments
            const LD s2 = ld(a.m(2));
            if (s2 > 1e-6L) {
                const LD rt = std::numeric_limits<REAL>::digits < 30 ? 1e-4L : 1e-12L;
                auto st = [&](LD got, LD want, const char *what) { c.check(xabs(got - want) <= rt * (1 + xabs(want)), "standardized", [&] { return ri + "." + what + " is " + vh::num(got) + ", expected " + vh::num(want); }); };
                st(ld(a.s()), xsqrt(s2), "s()"); st(ld(a.skew()), ld(a.m(3)) / (s2 * xsqrt(s2)), "skew()"); st(ld(a.kurt()), ld(a.m(4)) / (s2 * s2), "kurt()"); st(ld(var(a)), s2, "var");
                st(ld(b.s()), xsqrt(s2), "s()"); st(ld(b.skew()), ld(a.m(3)) / (s2 * xsqrt(s2)), "skew()"); st(ld(b.kurt()), ld(a.m(4)) / (s2 * s2), "kurt()"); st(ld(var(b)), s2, "var");
            }
        }
#elif MON == 4
        for (int i = 0; i < NR; ++i) {
            const auto &u = w.r[i]; const int n = __builtin_popcount(w.m[i].supp);
            const long want = n == 0 ? 0 : n == 1 ? long(w.x[__builtin_ctz(w.m[i].supp)].indepid()) : long(unc::invalid_id);
            c.check(u.isindep() == (n <= 1) && long(u.indepid()) == want, "id", [&] { return "r" + std::to_string(i) + ": isindep " + std::to_string(u.isindep()) + ", id " + std::to_string(u.indepid()) + " for a variable of " + std::to_string(n) + " inputs (expected id " + std::to_string(want) + ")"; });
        }
        for (int k = 0; k < w.nb; ++k) for (int l = 0; l < k; ++l) {
            c.check(w.x[k].indepid() > w.x[l].indepid() * 0 && w.x[k].indepid() != w.x[l].indepid() && w.x[k].indepid() > 0, "unique-id", [&] { return std::string("two inputs share an id"); });
            c.check(cov(w.x[k], w.x[l]) == 0, "indep-cov", [&] { return std::string("two independent inputs are correlated"); });
        }
#endif
    }
}

#if MON == 10
// Every pair of (support, off-diagonal presence) patterns of two operands over N
// inputs, with or without explicitly stored zeros, through one operation.
template<unc::Prop P> static void patterns(vh::Ctx &c, int N) {
    typedef unc::UReal2<REAL, P> U;
    E::eps() = ld(std::numeric_limits<REAL>::epsilon());
    const int NP = N * (N - 1) / 2;
    struct Pat { int supp, tri; };
    static std::vector<Pat> pats; static int built = 0;
    if (built != N) {
        pats.clear(); built = N;
        for (int s = 0; s < 1 << N; ++s) for (int t = 0; t < 1 << NP; ++t) {
            bool ok = true; int q = 0;
            for (int i = 0; i < N; ++i) for (int j = i + 1; j < N; ++j, ++q) if (t >> q & 1) ok = ok && (s >> i & 1) && (s >> j & 1);
            if (ok) pats.push_back(Pat{s, t});
        }
    }
    const Pat px = pats[c.choose(int(pats.size()))], py = pats[c.choose(int(pats.size()))];
    c.shard();
    const int style = c.choose(2);
    U in[NB]; Reg bm[NB];
    for (int i = 0; i < N; ++i) {
        std::array<REAL, 6> mm; for (int k = 0; k < 6; ++k) mm[k] = Rl(stdmom(i)[k]);
        const double sg = 0.25 * (i + 1), mu = 1.5 - 0.75 * i;
        in[i] = U(Rl(mu), Rl(sg), mm, Rl(-1));
        bm[i].mu = E(mu); bm[i].g[i] = E(1, 0); bm[i].supp = 1u << i;
    }
    const E one(1, 0), zero(0, 0), mone(-1, 0);
    auto build = [&](const Pat &p, Reg &m, double c0) {
        U u; m = Reg(); double k = c0; int q = 0;
        auto addto = [&](const U &t, const Reg &mt) { u = u + t; m = bin(m, mt, m.mu + mt.mu, one, one, zero, zero, zero); };
        for (int i = N - 1; i >= 0; --i) if (p.supp >> i & 1) {
            // style 0: no second derivatives on the diagonal, style 1: on alternate inputs
            const double dd = style == 1 && i % 2 ? 0.5 : 0;
            addto(unary(in[i], Rl(k), Rl(k), Rl(dd)), un(bm[i], E(k), E(k), E(dd)));
            k = -k + 0.5;
        }
        for (int i = 0; i < N; ++i) for (int j = i + 1; j < N; ++j, ++q) if (p.tri >> q & 1) {
            addto(unary(in[i] * in[j], Rl(k), Rl(k), Rl(0)), un(bin(bm[i], bm[j], bm[i].mu * bm[j].mu, bm[j].mu, bm[i].mu, zero, zero, one), E(k), E(k), zero));
            if (style == 1 && q % 2) { // cancel it again: stays stored as an explicit zero
                addto(unary(in[i] * in[j], Rl(-k), Rl(-k), Rl(0)), un(bin(bm[i], bm[j], bm[i].mu * bm[j].mu, bm[j].mu, bm[i].mu, zero, zero, one), E(-k), E(-k), zero));
            }
            k = -k + 0.25;
        }
        return u;
    };
    Reg mx, my;
    const U x = build(px, mx, 1.25), y = build(py, my, -0.75);
    static const int PATS[] = {31, 3, 16, 4, 8, 12, 17, 23, 11, 0};
    const int op = c.choose(c.thorough() ? 4 + 32 : 4 + int(sizeof PATS / sizeof *PATS));
    c.note([&] { std::ostringstream s; s << "x: inputs " << px.supp << " pairs " << px.tri << ", y: inputs " << py.supp << " pairs " << py.tri << ", style " << style << ", op " << op; return s.str(); });
    U z; Reg mz;
    switch (op) {
    case 0: z = x + y; mz = bin(mx, my, mx.mu + my.mu, one, one, zero, zero, zero); break;
    case 1: z = x * y; mz = bin(mx, my, mx.mu * my.mu, my.mu, mx.mu, zero, zero, one); break;
    case 2: z = unary(x, Rl(2), Rl(-0.5), Rl(3)); mz = un(mx, E(2), E(-0.5), E(3)); break;
    case 3: z = unary(x, Rl(2), Rl(0), Rl(3)); mz = un(mx, E(2), E(0), E(3)); break;
    default: {
        const std::array<double, 5> d = binc(c.thorough() ? op - 4 : PATS[op - 4]);
        z = binary(x, y, Rl(7), Rl(d[0]), Rl(d[1]), Rl(d[2]), Rl(d[3]), Rl(d[4]));
        mz = bin(mx, my, E(7), E(d[0]), E(d[1]), E(d[2]), E(d[3]), E(d[4]));
    }
    }
    c.step(); c.state(mz.hash(op));
    auto ck = [&](LD got, const E &want, const char *key, const std::string &what) {
        c.check(agree(got, want), key, [&] { return what + " = " + vh::num(got) + ", expected " + vh::num(want.v); });
    };
    ck(ld(z.first_order_n()), mz.mu, "pattern-n", "first_order_n()");
    for (int i = 0; i < N; ++i) {
        ck(ld(z.grad(in[i])), mz.g[i], "pattern-grad", "grad(" + std::to_string(i) + ")");
        for (int j = 0; j < N; ++j) ck(ld(z.hess(in[i], in[j])), mz.h[i][j], "pattern-hess", "hess(" + std::to_string(i) + ", " + std::to_string(j) + ")");
    }
    // the operands are unchanged
    for (int i = 0; i < N; ++i) { ck(ld(x.grad(in[i])), mx.g[i], "operand", "x.grad"); ck(ld(y.grad(in[i])), my.g[i], "operand", "y.grad"); for (int j = 0; j < N; ++j) { ck(ld(x.hess(in[i], in[j])), mx.h[i][j], "operand", "x.hess"); ck(ld(y.hess(in[i], in[j])), my.h[i][j], "operand", "y.hess"); } }
}
// Many inputs: two operands over intervals of N inputs with a stride and a structure of
// mixed second derivatives, through one operation.
template<unc::Prop P, bool HUGE_> static void wide(vh::Ctx &c) {
    typedef unc::UReal2<REAL, P> U;
    E::eps() = ld(std::numeric_limits<REAL>::epsilon());
    const int N = HUGE_ ? 260 : c.thorough() ? 20 : 12;
    struct S { int a, b, st, tri; };         // tri: 0 none, 1 neighbours, 2 star on the first, 3 all, 4 last pair
    static std::vector<S> sets;
    static const std::vector<int> CUT = HUGE_ ? std::vector<int>{0, 1, 256, 260} : std::vector<int>{0, 1, 3, 4, 5, 8, 9, 11, 12, 16, 17, 20};
    if (sets.empty()) {
        for (int a : CUT) for (int b : CUT) for (int st : {1, 2}) for (int t = 0; t < 5; ++t) if ((!HUGE_ || (st == 1 && t < 3)) && a < b && b <= N && (st == 1 || b - a > st) && (b - a > st || !t)) sets.push_back(S{a, b, st, t});
    }
    const int sx = c.choose(int(sets.size())), sy = c.choose(int(sets.size()));
    c.shard();
    struct D { E mu; std::vector<E> g, h; };
    static std::vector<U> in;
    struct V { U u; D d; };
    static std::vector<V> tab[2];
    if (in.empty()) {
        for (int i = 0; i < N; ++i) { std::array<REAL, 6> mm; for (int k = 0; k < 6; ++k) mm[k] = Rl(stdmom(i)[k]); in.push_back(U(Rl(1.5 - 0.75 * (i % 4)), Rl(0.25 * (i % 5 + 1)), mm, Rl(-1))); }
        for (int w : {0, 1}) for (const S &s : sets) {
            V v; v.d.mu = E(0); v.d.g.assign(N, E(0)); v.d.h.assign(N * N, E(0));
            std::vector<int> id; for (int i = s.a; i < s.b; i += s.st) id.push_back(i);
            double k = w ? -0.75 : 1.25;
            if (w) std::reverse(id.begin(), id.end());
            for (int i : id) {
                const double dd = i % 3 ? 0.5 * k : 0;
                v.u = v.u + unary(in[i], Rl(k), Rl(k), Rl(dd));
                v.d.mu = v.d.mu + E(k); v.d.g[i] = E(k); v.d.h[i * N + i] = E(dd);
                k = k > 2 ? k - 3.5 : k + 0.75; if (k == 0) k = 0.5;
            }
            for (size_t p = 0; p < id.size(); ++p) for (size_t q = p + 1; q < id.size(); ++q) {
                const bool use = s.tri == 1 ? q == p + 1 : s.tri == 2 ? p == 0 : s.tri == 3 ? true : s.tri == 4 ? p + 2 == id.size() : false;
                if (!use) continue;
                const int i = id[p], j = id[q]; const double t = ((i * 3 + j * 5) % 7 - 2.5) * 0.25;
                v.u = v.u + binary(in[i], in[j], Rl(0), Rl(0), Rl(0), Rl(0), Rl(0), Rl(t));
                v.d.h[i * N + j] = v.d.h[j * N + i] = E(t);
            }
            tab[w].push_back(v);
        }
    }
    const V &x = tab[0][sx], &y = tab[1][sy];
    const int op = c.choose(5);
    c.note([&] { std::ostringstream s; s << "x over inputs [" << sets[sx].a << ", " << sets[sx].b << ") by " << sets[sx].st << " structure " << sets[sx].tri << ", y over [" << sets[sy].a << ", " << sets[sy].b << ") by " << sets[sy].st << " structure " << sets[sy].tri << " of " << N << ", op " << op; return s.str(); });
    U z; E mu(7), dx(1, 0), dy(1, 0), dxx(0, 0), dyy(0, 0), dxy(0, 0);
    switch (op) {
    case 0: z = x.u + y.u; mu = x.d.mu + y.d.mu; break;
    case 1: z = x.u - y.u; mu = x.d.mu - y.d.mu; dy = E(-1, 0); break;
    case 2: z = x.u * y.u; mu = x.d.mu * y.d.mu; dx = y.d.mu; dy = x.d.mu; dxy = E(1, 0); break;
    case 3: z = unary(x.u, Rl(7), Rl(-0.5), Rl(3)); dx = E(-0.5); dy = E(0, 0); dxx = E(3); break;
    case 4: z = binary(x.u, y.u, Rl(7), Rl(2), Rl(-0.5), Rl(0.25), Rl(-1.5), Rl(0.75)); dx = E(2); dy = E(-0.5); dxx = E(0.25); dyy = E(-1.5); dxy = E(0.75); break;
    }
    c.step(); c.state(vh::hashd(vh::hashd(vh::hashd(op, sx), sy), 7));
    c.check(agree(ld(z.first_order_n()), mu), "wide-n", [&] { return "first_order_n() = " + vh::num(ld(z.first_order_n())) + ", expected " + vh::num(mu.v); });
    for (int i = 0; i < N; ++i) {
        const E g = dx * x.d.g[i] + dy * y.d.g[i];
        c.check(agree(ld(z.grad(in[i])), g), "wide-grad", [&] { return "grad(" + std::to_string(i) + ") = " + vh::num(ld(z.grad(in[i]))) + ", expected " + vh::num(g.v); });
        for (int j = i; j < N; ++j) {
            const E h = dx * x.d.h[i * N + j] + dy * y.d.h[i * N + j] + dxx * x.d.g[i] * x.d.g[j] + dyy * y.d.g[i] * y.d.g[j] + dxy * (x.d.g[i] * y.d.g[j] + y.d.g[i] * x.d.g[j]);
            const LD a = ld(z.hess(in[i], in[j])), b = ld(z.hess(in[j], in[i]));
            c.check(agree(a, h) && a == b, "wide-hess", [&] { return "hess(" + std::to_string(i) + ", " + std::to_string(j) + ") = " + vh::num(a) + ", exchanged " + vh::num(b) + ", expected " + vh::num(h.v); });
        }
    }
}
#endif

int main(int argc, char **argv) {
    vh::Harness h;
    h.add("full-est", [](vh::Ctx &c) { body<WE>(c, FULL, c.thorough() ? 3 - (LIGHT > 0) : 2 - (LIGHT > 0)); });
    h.add("core-est", [](vh::Ctx &c) { body<WE>(c, CORE, c.thorough() ? 4 - (LIGHT > 0) : LIGHT > 1 ? 2 : 3); });
    if (LIGHT < 2) h.add("scaled1", [](vh::Ctx &c) { body<WE>(c, FULL, 1, 0, true); });
    if (LIGHT < 2) h.add("scaled", [](vh::Ctx &c) { body<WE>(c, c.thorough() && LIGHT == 0 ? FULL : CORE, 2, 0, true); });
    if (LIGHT < 2) h.add("cycle1", [](vh::Ctx &c) { body<WE>(c, FULL, c.thorough() ? 16 : 8, 1); });
    if (LIGHT < 2) h.add("cycle2", [](vh::Ctx &c) { body<WE>(c, CORE, c.thorough() ? 12 : 6, 2); });
#if MON == 10 || MON == 22
    h.add("core-mean", [](vh::Ctx &c) { body<WM>(c, CORE, c.thorough() ? 3 : 2); });
#endif
#if MON == 10
    h.add("patterns3", [](vh::Ctx &c) { patterns<unc::Prop::est>(c, 3); });
    h.add("patterns4", [](vh::Ctx &c) { patterns<unc::Prop::mean>(c, 4); });
    h.add("wide-est", [](vh::Ctx &c) { if (LIGHT < 2) wide<unc::Prop::est, false>(c); });
    if (LIGHT == 0) h.add("huge-est", wide<unc::Prop::est, true>);
    h.add("wide-mean", [](vh::Ctx &c) { if (c.thorough()) wide<unc::Prop::mean, false>(c); });
#endif
    return h.main(argc, argv);
}
