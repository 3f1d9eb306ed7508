// um2.hpp - register machine over UReal2 with a truncated Taylor reference model.
#ifndef UM2_HPP
#define UM2_HPP
#include "vh.hpp"
#include "model.hpp"
#include <uncertainties/ureal2.hpp>
#include <array>
#include <vector>

namespace um2 {
namespace unc = uncertainties;
template<class R> inline LD ld(const R &x) { return static_cast<LD>(x); }

constexpr int NB = 4;                    // independent inputs: 3 initial + 1 fresh
constexpr int NR = 3;

struct Reg {                             // value, gradient and hessian w.r.t. the inputs
    E mu; E g[NB]; E h[NB][NB]; unsigned supp = 0;
    Reg() { mu = E(0); for (E &x : g) x = E(0); for (auto &r : h) for (E &x : r) x = E(0); }
    uint64_t hash(uint64_t s) const {
        s = vh::hashd(s, double(mu.v));
        for (const E &x : g) s = vh::hashd(s, double(x.v));
        for (int i = 0; i < NB; ++i) for (int j = i; j < NB; ++j) s = vh::hashd(s, double(h[i][j].v));
        return vh::mix(s, supp);
    }
};
inline Reg un(const Reg &x, const E &f, const E &d, const E &dd) {
    Reg z; z.mu = f; z.supp = x.supp;
    for (int i = 0; i < NB; ++i) {
        z.g[i] = d * x.g[i];
        for (int j = 0; j < NB; ++j) z.h[i][j] = dd * x.g[i] * x.g[j] + d * x.h[i][j];
    }
    return z;
}
inline Reg bin(const Reg &x, const Reg &y, const E &f, const E &dx, const E &dy, const E &dxx, const E &dyy, const E &dxy) {
    Reg z; z.mu = f; z.supp = x.supp | y.supp;
    for (int i = 0; i < NB; ++i) {
        z.g[i] = dx * x.g[i] + dy * y.g[i];
        for (int j = 0; j < NB; ++j)
            z.h[i][j] = dxx * x.g[i] * x.g[j] + dyy * y.g[i] * y.g[j] + dxy * (x.g[i] * y.g[j] + y.g[i] * x.g[j]) + dx * x.h[i][j] + dy * y.h[i][j];
    }
    return z;
}

enum Kind { ADD, SUB, MUL, DIV, NEG, POS, SCAL, COPY, MOVE, UN, BIN, FRESH, CONST, DFLT, SWAP, QUERY };
struct Op { int k, d, a, b, c; };
inline std::string opname(const Op &o) {
    static const char *n[] = {"=+", "=-", "=*", "=/", "=neg", "=pos", "=scalar-op", "=copy", "=move", "=unary", "=binary", "=fresh", "=const", "=default", "swap", "query"};
    std::ostringstream s; s << "r" << o.d << " " << n[o.k] << " r" << o.a << " r" << o.b << " #" << o.c; return s.str();
}
static const double SC[2] = {-1.75, 3};
static const double UNC[6][2] = {{-1.5, 0}, {0, 0.5}, {1.25, 0.75}, {0, 0}, {1, -2}, {1, 0}};
inline std::array<double, 5> binc(int c) {   // every zero / nonzero pattern of the five derivatives
    static const double v[5] = {-0.75, 1.25, 0.5, -1.5, 0.875};
    std::array<double, 5> r;
    for (int i = 0; i < 5; ++i) r[i] = c >> i & 1 ? v[i] : 0;
    return r;
}

inline std::vector<Op> alphabet(bool core) {
    std::vector<Op> v;
    auto add = [&](int k, int d, int a = 0, int b = 0, int c = 0) { v.push_back(Op{k, d, a, b, c}); };
    if (core) {
        for (int k : {ADD, MUL}) { add(k, 0, 0, 1); add(k, 2, 0, 1); add(k, 1, 2, 2); add(k, 0, 2, 1); }
        add(SUB, 0, 1, 2); add(SUB, 1, 1, 0); add(SUB, 2, 2, 2); add(DIV, 2, 0, 1); add(DIV, 0, 1, 2); add(DIV, 1, 1, 1); add(NEG, 1, 0); add(NEG, 2, 2);
        add(SCAL, 0, 0, 0, 4); add(SCAL, 1, 2, 0, 7); add(SCAL, 2, 0, 0, 3); add(SCAL, 0, 1, 0, 8); add(COPY, 1, 0); add(COPY, 0, 2);
        add(UN, 0, 0, 0, 0); add(UN, 1, 2, 0, 1); add(UN, 2, 2, 0, 2);
        add(BIN, 0, 0, 2, 31); add(BIN, 1, 1, 2, 16); add(BIN, 2, 0, 1, 7); add(BIN, 0, 2, 2, 24); add(BIN, 1, 0, 2, 11);
        add(FRESH, 1); add(CONST, 2);
        return v;
    }
    for (int k : {ADD, SUB, MUL, DIV}) for (int d = 0; d < NR; ++d) for (int a = 0; a < NR; ++a) for (int b = 0; b < NR; ++b) add(k, d, a, b);
    for (int k : {NEG, POS, COPY, MOVE}) for (int d = 0; d < NR; ++d) for (int a = 0; a < NR; ++a) if (k != COPY || a != d) add(k, d, a);
    for (int d = 0; d < NR; ++d) {
        for (int c = 0; c < 16; ++c) add(SCAL, d, (d + c / 8) % NR, 0, c);
        for (int c = 0; c < 6; ++c) { add(UN, d, d, 0, c); add(UN, d, (d + 1) % NR, 0, c); }
        for (int c = 0; c < 32; ++c) add(BIN, d, c % 3 ? d : (d + 1) % NR, (d + 1 + c % 2) % NR, c);
        for (int c : {31, 16, 4, 3}) add(BIN, d, d, d, c);
        add(FRESH, d); add(CONST, d); add(DFLT, d); add(QUERY, d);
    }
    add(SWAP, 0, 1); add(SWAP, 1, 2);
    return v;
}

// moments of the inputs: three distributions with different skewness
inline const std::array<double, 6> &stdmom(int i) {
    static const std::array<double, 6> m[3] = {
        {0, 3, 0, 15, 0, 105},                       // normal
        {2, 9, 44, 265, 1854, 14833},                // exponential
        {-0.5, 1.5, -1.0, 2.5, -2.125, 4.5},         // filled below by a discrete distribution
    };
    static bool done = false; static std::array<double, 6> disc;
    if (!done) {
        const double x[5] = {-2, -1, 0.5, 1, 3}, p[5] = {0.1, 0.3, 0.2, 0.25, 0.15};
        double mu = 0, v = 0;
        for (int k = 0; k < 5; ++k) mu += p[k] * x[k];
        for (int k = 0; k < 5; ++k) v += p[k] * (x[k] - mu) * (x[k] - mu);
        for (int n = 3; n <= 8; ++n) { double s = 0; for (int k = 0; k < 5; ++k) s += p[k] * std::pow((x[k] - mu) / std::sqrt(v), n); disc[n - 3] = s; }
        done = true;
    }
    return i % 3 == 2 ? disc : m[i % 3];
}

template<class R, unc::Prop P> struct World {
    using U = unc::UReal2<R, P>;
    U x[NB]; double xs[NB]; int nb = 0;
    U r[NR]; Reg m[NR];

    // scaled programs: the standard deviation of input i is multiplied by 2^scale[i % 3], the first and
    // second derivatives of the low level operations by 2^scale[3], 2^scale[4]
    int scale[5] = {0, 0, 0, 0, 0}; LD s1 = 1, s2 = 1, lim = 1; bool scaled = false;
    static const int NSCALES = 8;
    void setscale(int p) {
        const bool f = std::numeric_limits<R>::max_exponent < 200;
        const int a = f ? 10 : 40;
        const int t[NSCALES][5] = {{-a, -a, -a, 0, 0}, {a, a, a, 0, 0}, {-a, 0, a, 0, 0}, {a, -a, 0, 0, 0}, {0, 0, 0, 0, -a}, {0, 0, 0, 0, a}, {a, a, a, 0, -a}, {0, 0, 0, -a, -a}};
        for (int i = 0; i < 5; ++i) scale[i] = t[p][i];
        scaled = true; s1 = xpow2(scale[3]); s2 = xpow2(scale[4]); lim = f ? 1e5L : 1e30L;
    }
    static LD xpow2(int e) { LD x = 1; for (; e > 0; --e) x *= 2; for (; e < 0; ++e) x /= 2; return x; }

    Reg basis(int i) const { Reg z; z.mu = E(ld(x[i].first_order_n())); z.supp = 1u << i; z.g[i] = E(1, 0); return z; }
    int fresh(double n, double s) {
        std::array<R, 6> mm; for (int k = 0; k < 6; ++k) mm[k] = R(stdmom(nb)[k]);
        s *= double(xpow2(scale[nb % 3]));
        x[nb] = U(R(n), R(s), mm, R(-1)); xs[nb] = double(ld(R(s)));
        return nb++;
    }
    void load(int reg, int b) { r[reg] = x[b]; m[reg] = basis(b); }
    static const int NSTART = 9;
    static const char *startname(int s) {
        static const char *n[] = {"three independent", "copies and scalings of one input", "linear overlapping + constant", "products", "cancelled to zero", "interleaved ids", "nonlinear functions of single inputs", "zero means", "queried products"};
        return n[s];
    }
    void start(int s) {
        if (s == 7) { fresh(0, 0.5); fresh(1.5, 0.25); fresh(0, 1.5); }
        else { fresh(1.25, 0.5); fresh(-2, 0.25); fresh(0.75, 1.5); }
        auto op = [&](int k, int d, int a, int b, int c = 0) { Op o{k, d, a, b, c}; apply(o); };
        load(0, 0); load(1, 1); load(2, 2);
        switch (s) {
        case 1: op(COPY, 1, 0, 0); op(UN, 1, 1, 0, 0); op(COPY, 2, 0, 0); break;
        case 2: op(ADD, 0, 0, 1); op(SUB, 1, 1, 2); op(CONST, 2, 0, 0); break;
        case 3: op(MUL, 0, 0, 1); op(MUL, 2, 1, 2); break;
        case 4: op(SUB, 0, 0, 0); op(MUL, 1, 1, 1); op(BIN, 2, 1, 2, 0); break;
        case 5: op(ADD, 0, 2, 0); op(MUL, 2, 1, 2); op(ADD, 2, 2, 0); op(NEG, 1, 1, 0); break;
        case 6: op(UN, 0, 0, 0, 2); op(MUL, 1, 1, 1); op(UN, 2, 2, 0, 1); break;
        case 8: op(MUL, 0, 0, 1); op(MUL, 1, 1, 2); op(QUERY, 0, 1, 0); op(QUERY, 1, 0, 0); op(QUERY, 2, 1, 0); break;
        default: break;
        }
    }
    static bool okdiv(const E &y) { return xabs(y.v) > 5e-2L && y.e < 1e-6L * xabs(y.v); }
    static bool oknormal(const Reg &z) {
        static const LD lo = std::pow((long double)ld(std::numeric_limits<R>::min()), 0.2L);
        auto ok = [&](const LD &x) { return x == 0 || xabs(x) > lo; };
        if (!ok(z.mu.v)) return false;
        for (const E &x : z.g) if (!ok(x.v)) return false;
        for (auto &r : z.h) for (const E &x : r) if (!ok(x.v)) return false;
        return true;
    }
    bool okmag(const Reg &z) const {
        if (!(xabs(z.mu.v) < 1e5L)) return false;
        for (const E &x : z.g) if (!(xabs(x.v) < 1e5L * lim)) return false;
        for (auto &r : z.h) for (const E &x : r) if (!(xabs(x.v) < 1e6L * lim)) return false;
        return true;
    }
    bool apply(const Op &o) {
        Reg &md = m[o.d]; const Reg A = m[o.a], B = m[o.b];
        U &rd = r[o.d]; U &ra = r[o.a]; U &rb = r[o.b];
        const U &ca = ra; const U &cb = rb;
        const E one(1, 0), mone(-1, 0), zero(0, 0), two(2, 0);
        switch (o.k) {
        case ADD: md = bin(A, B, A.mu + B.mu, one, one, zero, zero, zero); rd = ca + cb; break;
        case SUB: md = bin(A, B, A.mu - B.mu, one, mone, zero, zero, zero); rd = ca - cb; break;
        case MUL: md = bin(A, B, A.mu * B.mu, B.mu, A.mu, zero, zero, one); if (!okmag(md)) return false; rd = ca * cb; break;
        case DIV: {
            if (!okdiv(B.mu)) return false;
            const E q = A.mu / B.mu, i = one / B.mu;
            md = bin(A, B, q, i, -(q * i), zero, two * q * i * i, -(i * i)); if (!okmag(md)) return false; rd = ca / cb; break;
        }
        case NEG: md = un(A, -A.mu, mone, zero); rd = -ca; break;
        case POS: md = A; rd = +ca; break;
        case SCAL: {
            const double c = SC[o.c / 8]; const E ce(c, 0);
            const R cr = R(c); const IntArg<R> ci = IntArg<R>(int(c));
            const bool asint = o.c / 8 == 1;
            switch (o.c % 8) {
            case 0: md = un(A, A.mu + ce, one, zero); rd = asint ? U(ca + ci) : U(ca + cr); break;
            case 1: md = un(A, ce + A.mu, one, zero); rd = asint ? U(ci + ca) : U(cr + ca); break;
            case 2: md = un(A, A.mu - ce, one, zero); rd = asint ? U(ca - ci) : U(ca - cr); break;
            case 3: md = un(A, ce - A.mu, mone, zero); rd = asint ? U(ci - ca) : U(cr - ca); break;
            case 4: md = un(A, A.mu * ce, ce, zero); if (!okmag(md)) return false; rd = asint ? U(ca * ci) : U(ca * cr); break;
            case 5: md = un(A, ce * A.mu, ce, zero); if (!okmag(md)) return false; rd = asint ? U(ci * ca) : U(cr * ca); break;
            case 6: md = un(A, A.mu / ce, one / ce, zero); rd = asint ? U(ca / ci) : U(ca / cr); break;
            case 7: {
                if (!okdiv(A.mu)) return false;
                const E q = ce / A.mu, i = one / A.mu;
                md = un(A, q, -(q * i), two * q * i * i); if (!okmag(md)) return false; rd = asint ? U(ci / ca) : U(cr / ca); break;
            }
            }
            break;
        }
        case COPY: md = A; rd = ra; break;
        case MOVE: {
            U t(std::move(ra)); rd = std::move(t); md = A;
            if (o.a != o.d) { ra = U(R(0.5)); m[o.a] = Reg(); m[o.a].mu = E(0.5); }
            break;
        }
        case UN: {
            const double c[2] = {UNC[o.c][0] * double(s1), UNC[o.c][1] * double(s2)};
            md = un(A, A.mu + E(0.5), E(c[0]), E(c[1])); if (!okmag(md)) return false;
            rd = unary(ca, R(ca.first_order_n() + R(0.5)), R(c[0]), R(c[1])); break;
        }
        case BIN: {
            std::array<double, 5> c = binc(o.c);
            for (int i = 0; i < 5; ++i) c[i] *= double(i < 2 ? s1 : s2);
            md = bin(A, B, A.mu - B.mu, E(c[0]), E(c[1]), E(c[2]), E(c[3]), E(c[4])); if (!okmag(md)) return false;
            rd = binary(ca, cb, R(ca.first_order_n() - cb.first_order_n()), R(c[0]), R(c[1]), R(c[2]), R(c[3]), R(c[4])); break;
        }
        case FRESH: { if (nb >= NB) return false; int i = fresh(2.5, 0.125); load(o.d, i); break; }
        case CONST: rd = U(R(1.5)); md = Reg(); md.mu = E(1.5); break;
        case DFLT: rd = U(); md = Reg(); break;
        case SWAP: { using std::swap; swap(rd, ra); std::swap(m[o.d], m[o.a]); break; }
        case QUERY: { volatile LD q = ld(rd.n()) + ld(rd.s()) + ld(rd.m(1)) + ld(rd.m(2)) + ld(var(rd)) + ld(sdev(ra)) + ld(corr(rd, ra)) + ld(rd.m(3)) + ld(rd.m(4)) + ld(cov(rd, ra)) + ld(rd.skew()) + ld(rd.kurt()); (void)q; break; }
        }
        return okmag(m[o.d]);
    }
    uint64_t hash() const {
        uint64_t s = nb;
        for (const Reg &z : m) s = z.hash(s);
        return s;
    }
    std::string show() const {
        std::ostringstream s;
        for (int i = 0; i < NR; ++i) { s << "r" << i << "=" << vh::num(ld(r[i].first_order_n())) << " grad"; for (int k = 0; k < nb; ++k) s << ' ' << double(m[i].g[k].v); s << " "; }
        return s.str();
    }
    E m1(const Reg &z) const { E v(0, 0); for (int k = 0; k < nb; ++k) v = v + E(0.5L, 0) * z.h[k][k] * E(xs[k]) * E(xs[k]); return v; }
    void observe(vh::Ctx &c) const {
        for (int i = 0; i < NR; ++i) {
            const U &u = r[i]; const Reg &z = m[i];
            const std::string ri = "r" + std::to_string(i);
            auto ck = [&](LD got, const E &want, const char *key, const std::string &what) {
                c.check(agree(got, want), key, [&] { return what + " = " + vh::num(got) + " but the reference model gives " + vh::num(want.v) + " (allowance " + vh::num(16 * want.e) + ")"; });
            };
            ck(ld(u.first_order_n()), z.mu, "first-order-n", ri + ".first_order_n()");
            const E b = m1(z);
            ck(ld(u.m(1)), b, "m1", ri + ".m(1)");
            ck(ld(u.n()), P == unc::Prop::mean ? z.mu + b : z.mu - b, "n", ri + ".n()");
            for (int k = 0; k < nb; ++k) {
                ck(ld(u.grad(x[k])), z.g[k], "grad", ri + ".grad(input " + std::to_string(k) + ")");
                for (int l = 0; l < nb; ++l) ck(ld(u.hess(x[k], x[l])), z.h[k][l], "hess", ri + ".hess(input " + std::to_string(k) + ", input " + std::to_string(l) + ")");
            }
            const int n = __builtin_popcount(z.supp);
            c.check(u.isindep() == (n <= 1), "isindep", [&] { return ri + ".isindep() is wrong for a variable of " + std::to_string(n) + " inputs"; });
            const long want = n == 0 ? 0 : n == 1 ? long(x[__builtin_ctz(z.supp)].indepid()) : long(unc::invalid_id);
            c.check(long(u.indepid()) == want, "indepid", [&] { return ri + ".indepid() is " + std::to_string(u.indepid()) + ", expected " + std::to_string(want); });
            // derivatives with respect to other registers
            for (int j = 0; j < NR; ++j) {
                const Reg &q = m[j]; const U &v = r[j];
                const int nq = __builtin_popcount(q.supp);
                bool threw = false; LD got = 0;
                try { got = ld(u.grad(v)); } catch (const std::invalid_argument &) { threw = true; }
                c.check(threw == (nq != 1), "grad-throw", [&] { return ri + ".grad(r" + std::to_string(j) + ") " + (threw ? "threw" : "did not throw") + " for a variable of " + std::to_string(nq) + " inputs"; });
                if (nq == 1) { const int k = __builtin_ctz(q.supp); if (xabs(q.g[k].v) > 1e-6L * xmin(s1, LD(1))) ck(got, z.g[k] / q.g[k], "grad-reg", ri + ".grad(r" + std::to_string(j) + ")"); }
                for (int l = 0; l < NR; ++l) {
                    const Reg &p = m[l]; const U &w = r[l];
                    const int np = __builtin_popcount(p.supp);
                    threw = false;
                    try { got = ld(u.hess(v, w)); } catch (const std::invalid_argument &) { threw = true; }
                    const std::string what = ri + ".hess(r" + std::to_string(j) + ", r" + std::to_string(l) + ")";
                    if (nq != 1 || np != 1) { c.check(threw, "hess-no-throw", [&] { return what + " did not throw for arguments of " + std::to_string(nq) + " and " + std::to_string(np) + " inputs"; }); continue; }
                    const int k = __builtin_ctz(q.supp), t = __builtin_ctz(p.supp);
                    const bool dep = xabs(q.g[k].v) > 1e-6L * xmin(s1, LD(1)) && xabs(p.g[t].v) > 1e-6L * xmin(s1, LD(1));
                    if (k != t) {
                        c.check(!threw, "hess-throw", [&] { return what + " threw for functions of two different inputs"; });
                        if (dep) ck(got, z.h[k][t] / (q.g[k] * p.g[t]), "hess-reg", what);
                    } else if (j == l) {
                        c.check(!threw, "hess-throw", [&] { return what + " threw for the same variable twice"; });
                        if (dep) ck(got, (z.h[k][k] - z.g[k] / q.g[k] * q.h[k][k]) / (q.g[k] * q.g[k]), "hess-reg", what);
                    } else {
                        auto far = [](const E &a, const E &b) { return xabs(a.v - b.v) > 1e-6L * (xabs(a.v) + xabs(b.v)) + 64 * (a.e + b.e); };
                        if (far(q.g[k], p.g[k]) || far(q.h[k][k], p.h[k][k])) c.check(threw, "hess-no-throw", [&] { return what + " did not throw for two different functions of the same input"; });
                    }
                }
            }
        }
    }
};
}
#endif
