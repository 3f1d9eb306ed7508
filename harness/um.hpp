// um.hpp - register machine over UReal with a dense-gradient reference model.
#ifndef UM_HPP
#define UM_HPP
#include "vh.hpp"
#include <list>
#include "model.hpp"
#include <uncertainties/ureal.hpp>
#include <vector>
#include <algorithm>

namespace um {
namespace unc = uncertainties;
template<class R> inline LD ld(const R &x) { return static_cast<LD>(x); }

constexpr int NB = 5;                    // independent inputs: 3 initial + up to 2 fresh
constexpr int NR = 3;                    // registers

struct Reg {                             // reference: mean, coefficients dy/dx_i sigma_i
    E mu; E g[NB]; unsigned supp = 0;
    Reg() { for (E &x : g) x = E(0); mu = E(0); }
    E var() const { E v(0); for (const E &x : g) v = v + x * x; return v; }
    E cov(const Reg &o) const { E v(0); for (int i = 0; i < NB; ++i) v = v + g[i] * o.g[i]; return v; }
    uint64_t hash(uint64_t h) const {
        h = vh::hashd(h, double(mu.v));
        for (const E &x : g) h = vh::hashd(h, double(x.v));
        return vh::mix(h, supp);
    }
};
inline Reg lin(const E &mu, const Reg &a, const E &da, const Reg &b, const E &db) {
    Reg z; z.mu = mu; z.supp = a.supp | b.supp;
    for (int i = 0; i < NB; ++i) z.g[i] = da * a.g[i] + db * b.g[i];
    return z;
}
inline Reg lin1(const E &mu, const Reg &a, const E &da) { Reg z; z.mu = mu; z.supp = a.supp; for (int i = 0; i < NB; ++i) z.g[i] = da * a.g[i]; return z; }

enum Kind { ADD, SUB, MUL, DIV, NEG, POS, IADD, ISUB, IMUL, IDIV,
            SCAL /*c: 0..7*/, ISCAL /*0..3*/, COPY, MOVE, QS, QV, QCORR, UN, BIN, NARY, BASG, CHN, FRESH, CONST, DFLT, SWAP, SELF };
struct Op { int k, d, a, b, c; };

inline std::string opname(const Op &o) {
    static const char *n[] = {"=+", "=-", "=*", "=/", "=neg", "=pos", "+=", "-=", "*=", "/=", "=scalar-op", "op=scalar", "=copy", "=move", "query s()", "query var()", "query corr", "=unary", "=binary", "=nary", "binary_assign", "=change_nom", "=fresh", "=const", "=default", "swap", "=self"};
    std::ostringstream s; s << "r" << o.d << " " << n[o.k] << " r" << o.a << " r" << o.b << " #" << o.c; return s.str();
}

static const double SC[2] = {-1.75, 3};             // scalars
static const double UNC[4] = {-1.5, 0, 1, 0.3};
static const double BINC[4][2] = {{0, 1}, {-2, 0.5}, {1.25, 0}, {0, 0}};
static const double BASGC[7][2] = {{1, 0.5}, {0, 1}, {-1, 2}, {1, -1}, {0.5, 0}, {-1, 0.25}, {2, -3}};
static const std::vector<int> NLIST[5] = {{0, 1, 2}, {2, 2, 1}, {}, {1}, {2, 1, 0, 0}};

inline std::vector<Op> alphabet(bool core) {
    std::vector<Op> v;
    auto add = [&](int k, int d, int a = 0, int b = 0, int c = 0) { v.push_back(Op{k, d, a, b, c}); };
    if (core) {
        for (int k : {ADD, MUL}) { add(k, 0, 0, 1); add(k, 2, 0, 1); add(k, 1, 2, 2); add(k, 0, 2, 1); }
        add(SUB, 0, 1, 2); add(SUB, 1, 1, 0); add(DIV, 2, 0, 1); add(DIV, 0, 1, 2); add(NEG, 1, 0); add(NEG, 2, 2);
        for (int k : {IADD, IMUL}) for (int d = 0; d < NR; ++d) for (int b = 0; b < NR; ++b) add(k, d, 0, b);
        add(ISUB, 0, 0, 0); add(ISUB, 1, 0, 2); add(IDIV, 2, 0, 2); add(IDIV, 0, 0, 1);
        add(SCAL, 0, 0, 0, 4); add(SCAL, 1, 2, 0, 7); add(ISCAL, 0, 0, 0, 2); add(ISCAL, 2, 0, 0, 1);
        add(COPY, 1, 0); add(COPY, 0, 2); add(QS, 0); add(QS, 1); add(QS, 2); add(QV, 0);
        add(UN, 0, 0, 0, 0); add(UN, 1, 2, 0, 1); add(BIN, 0, 0, 2, 1); add(NARY, 1, 0, 0, 0); add(NARY, 0, 0, 0, 4);
        add(BASG, 0, 0, 1, 2); add(BASG, 2, 0, 2, 5); add(CHN, 0, 0); add(FRESH, 1); add(CONST, 2);
        return v;
    }
    for (int k : {ADD, SUB, MUL, DIV}) for (int d = 0; d < NR; ++d) for (int a = 0; a < NR; ++a) for (int b = 0; b < NR; ++b) add(k, d, a, b);
    for (int k : {NEG, POS, COPY, MOVE}) for (int d = 0; d < NR; ++d) for (int a = 0; a < NR; ++a) if (k != COPY || a != d) add(k, d, a);
    for (int k : {IADD, ISUB, IMUL, IDIV}) for (int d = 0; d < NR; ++d) for (int b = 0; b < NR; ++b) add(k, d, 0, b);
    for (int d = 0; d < NR; ++d) {
        for (int c = 0; c < 16; ++c) add(SCAL, d, (d + c / 8) % NR, 0, c);
        for (int c = 0; c < 8; ++c) add(ISCAL, d, 0, 0, c);
        add(QS, d); add(QV, d); add(QCORR, d, (d + 1) % NR);
        for (int c = 0; c < 4; ++c) { add(UN, d, d, 0, c); add(UN, d, (d + 1) % NR, 0, c); }
        for (int c = 0; c < 4; ++c) { add(BIN, d, d, (d + 1) % NR, c); add(BIN, d, (d + 1) % NR, (d + 2) % NR, c); add(BIN, d, d, d, c); }
        for (int c = 0; c < 5; ++c) add(NARY, d, 0, 0, c);
        for (int c = 0; c < 7; ++c) for (int b = 0; b < NR; ++b) add(BASG, d, 0, b, c);
        add(CHN, d, d); add(CHN, d, (d + 1) % NR); add(FRESH, d); add(CONST, d); add(DFLT, d); add(SELF, d);
    }
    add(SWAP, 0, 1); add(SWAP, 1, 2);
    return v;
}

template<class R> struct World {
    using U = unc::UReal<R>;
    U x[NB]; double xs[NB]; int nb = 0;
    U r[NR]; Reg m[NR];
    bool inplace_as_plain = false;       // the twin world: x op= y executed as x = x op y
    bool no_queries = false;
    // scaled programs: the standard deviation of input i is multiplied by 2^scale[i % 3]
    int scale[3] = {0, 0, 0}; LD lo = 1, hi = 1;
    static const int NSCALES = 6;
    void setscale(int p) {
        const bool f = std::numeric_limits<R>::max_exponent < 200;
        const int a = f ? 15 : 60, b = f ? 30 : 300;
        const int t[NSCALES][3] = {{-a, -a, -a}, {a, a, a}, {-a, 0, a}, {a, -a, 0}, {-b, -b, -b}, {b, b, b}};
        for (int i = 0; i < 3; ++i) { scale[i] = t[p][i]; const LD q = xpow2(scale[i]); lo = i ? xmin(lo, q) : q; hi = i ? (q > hi ? q : hi) : q; }
    }
    static LD xpow2(int e) { LD x = 1; for (; e > 0; --e) x *= 2; for (; e < 0; ++e) x /= 2; return x; }

    Reg basis(int i) const { Reg z; z.mu = E(ld(x[i].n())); z.supp = 1u << i; z.g[i] = E(xs[i]); return z; }
    int fresh(double n, double s) {
        s *= double(xpow2(scale[nb % 3]));
        x[nb] = U(R(n), R(s)); xs[nb] = double(ld(R(s)));
        return nb++;
    }
    void load(int reg, int b) { r[reg] = x[b]; m[reg] = basis(b); }
    static const int NSTART = 9;
    static const char *startname(int s) {
        static const char *n[] = {"three independent", "copies and scalings of one input", "dependent overlapping + constant", "queried dependent", "cancelled and single-input dependent", "interleaved ids", "dependent with empty dependencies", "already queried, scaled negatively", "zero mean inputs"};
        return n[s];
    }
    void start(int s) {
        if (s == 8) { fresh(0, 0.5); fresh(1.5, 0.25); fresh(0, 1.5); }
        else { fresh(1.25, 0.5); fresh(-2, 0.25); fresh(0.75, 1.5); }
        auto op = [&](int k, int d, int a, int b, int c = 0) { Op o{k, d, a, b, c}; apply(o); };
        load(0, 0); load(1, 1); load(2, 2);
        switch (s) {
        case 1: op(COPY, 1, 0, 0); op(UN, 1, 1, 0, 0); op(COPY, 2, 0, 0); break;
        case 2: op(ADD, 0, 0, 1); op(SUB, 1, 1, 2); op(CONST, 2, 0, 0); break;
        case 3: op(MUL, 0, 0, 1); op(ADD, 2, 0, 2); op(QS, 0, 0, 0); op(QS, 2, 0, 0); break;
        case 4: op(SUB, 0, 0, 0); op(ADD, 1, 1, 1); op(DFLT, 2, 0, 0); break;
        case 5: op(ADD, 0, 2, 0); op(SUB, 2, 1, 2); op(ADD, 2, 2, 0); op(NEG, 1, 1, 0); break;
        case 6: op(CONST, 0, 0, 0); op(ADD, 0, 0, 0); op(NARY, 1, 0, 0, 2); op(ADD, 2, 2, 1); break;
        case 7: op(ADD, 0, 0, 1); op(QS, 0, 0, 0); op(NEG, 1, 0, 0); op(QS, 1, 0, 0); op(IMUL, 2, 0, 2); op(QS, 2, 0, 0); break;
        default: break;
        }
    }
    static bool okdiv(const E &y) { return xabs(y.v) > 1e-2L && y.e < 1e-6L * xabs(y.v); }
    static bool oknormal(const Reg &z) {
        static const LD lo = std::pow((long double)ld(std::numeric_limits<R>::min()), 0.2L);
        auto ok = [&](const LD &x) { return x == 0 || xabs(x) > lo; };
        if (!ok(z.mu.v)) return false;
        for (const E &x : z.g) if (!ok(x.v)) return false;
        return true;
    }
    bool okmag(const Reg &z) const {
        if (!(xabs(z.mu.v) < 1e5L)) return false;
        for (const E &x : z.g) if (!(xabs(x.v) < 1e5L * hi)) return false;
        return true;
    }
    // false: the operation is outside the alphabet in this state (division by about zero)
    bool apply(const Op &o) {
        Reg &md = m[o.d]; const Reg A = m[o.a], B = m[o.b], D = m[o.d];
        U &rd = r[o.d]; U &ra = r[o.a]; U &rb = r[o.b];
        const U &ca = ra; const U &cb = rb;
        const E one(1, 0), mone(-1, 0);
        switch (o.k) {
        case ADD: md = lin(A.mu + B.mu, A, one, B, one); rd = ca + cb; break;
        case SUB: md = lin(A.mu - B.mu, A, one, B, mone); rd = ca - cb; break;
        case MUL: md = lin(A.mu * B.mu, A, B.mu, B, A.mu); if (!okmag(md)) return false; rd = ca * cb; break;
        case DIV: if (!okdiv(B.mu)) return false; md = lin(A.mu / B.mu, A, one / B.mu, B, -(A.mu / B.mu) / B.mu); if (!okmag(md)) return false; rd = ca / cb; break;
        case NEG: md = lin1(-A.mu, A, mone); rd = -ca; break;
        case POS: md = A; rd = +ca; break;
        case IADD: md = lin(D.mu + B.mu, D, one, B, one); if (inplace_as_plain) rd = rd + rb; else rd += rb; break;
        case ISUB: md = lin(D.mu - B.mu, D, one, B, mone); if (inplace_as_plain) rd = rd - rb; else rd -= rb; break;
        case IMUL: md = lin(D.mu * B.mu, D, B.mu, B, D.mu); if (!okmag(md)) return false; if (inplace_as_plain) rd = rd * rb; else rd *= rb; break;
        case IDIV: if (!okdiv(B.mu)) return false; md = lin(D.mu / B.mu, D, one / B.mu, B, -(D.mu / B.mu) / B.mu); if (!okmag(md)) return false; if (inplace_as_plain) rd = rd / rb; else rd /= rb; break;
        case SCAL: {
            const double c = SC[o.c / 8]; const E ce(c, 0); const Reg K;
            const R cr = R(c); const IntArg<R> ci = IntArg<R>(int(c));
            const bool asint = o.c / 8 == 1;      // the second scalar is passed as an int
            switch (o.c % 8) {
            case 0: md = lin(A.mu + ce, A, one, K, one); rd = asint ? U(ca + ci) : U(ca + cr); break;
            case 1: md = lin(ce + A.mu, A, one, K, one); rd = asint ? U(ci + ca) : U(cr + ca); break;
            case 2: md = lin(A.mu - ce, A, one, K, one); rd = asint ? U(ca - ci) : U(ca - cr); break;
            case 3: md = lin(ce - A.mu, A, mone, K, one); rd = asint ? U(ci - ca) : U(cr - ca); break;
            case 4: md = lin(A.mu * ce, A, ce, K, one); if (!okmag(md)) return false; rd = asint ? U(ca * ci) : U(ca * cr); break;
            case 5: md = lin(ce * A.mu, A, ce, K, one); if (!okmag(md)) return false; rd = asint ? U(ci * ca) : U(cr * ca); break;
            case 6: md = lin(A.mu / ce, A, one / ce, K, one); rd = asint ? U(ca / ci) : U(ca / cr); break;
            case 7: if (!okdiv(A.mu)) return false; md = lin(ce / A.mu, A, -(ce / A.mu) / A.mu, K, one); if (!okmag(md)) return false; rd = asint ? U(ci / ca) : U(cr / ca); break;
            }
            break;
        }
        case ISCAL: {
            const double c = SC[o.c / 4]; const E ce(c, 0); const Reg K; const R cr = R(c); const IntArg<R> ci = IntArg<R>(int(c)); const bool asint = o.c / 4 == 1;
            switch (o.c % 4) {
            case 0: md = lin(D.mu + ce, D, one, K, one); if (inplace_as_plain) rd = rd + cr; else if (asint) rd += ci; else rd += cr; break;
            case 1: md = lin(D.mu - ce, D, one, K, one); if (inplace_as_plain) rd = rd - cr; else if (asint) rd -= ci; else rd -= cr; break;
            case 2: md = lin(D.mu * ce, D, ce, K, one); if (!okmag(md)) return false; if (inplace_as_plain) rd = rd * cr; else if (asint) rd *= ci; else rd *= cr; break;
            case 3: md = lin(D.mu / ce, D, one / ce, K, one); if (inplace_as_plain) rd = rd / cr; else if (asint) rd /= ci; else rd /= cr; break;
            }
            break;
        }
        case COPY: md = A; rd = ra; break;
        case MOVE: {                        // move, then give the source a new value
            U t(std::move(ra)); rd = std::move(t); md = A;
            if (o.a != o.d) { ra = U(R(0.5)); m[o.a] = Reg(); m[o.a].mu = E(0.5); }
            break;
        }
        case QS: if (!no_queries) { volatile LD q = ld(rd.s()); (void)q; } break;
        case QV: if (!no_queries) { volatile LD q = ld(var(rd)); (void)q; } break;
        case QCORR: if (!no_queries) { volatile LD q = ld(cov(rd, ra)); (void)q; q = ld(sdev(ra)); q = ld(nom(rd)); } break;
        case UN: {
            const double c = UNC[o.c]; const E f = A.mu + E(0.5);
            md = lin1(f, A, E(c)); if (!okmag(md)) return false;
            rd = unary(ca, R(ca.n() + R(0.5)), R(c)); break;
        }
        case BIN: {
            const double *c = BINC[o.c]; const E f = A.mu - B.mu;
            md = lin(f, A, E(c[0]), B, E(c[1]));
            if (!okmag(md)) return false;
            rd = binary(ca, cb, R(ca.n() - cb.n()), R(c[0]), R(c[1])); break;
        }
        case NARY: {
            std::vector<U> v; std::vector<R> dx; Reg z; E mu(0.25); R mm = R(0.25); double c = 0.5;
            for (int i : NLIST[o.c]) {
                v.push_back(r[i]); dx.push_back(R(c)); mu = mu + m[i].mu; mm = mm + r[i].n();
                z = lin(E(0), z, one, m[i], E(c)); c = -1.5 * c;
            }
            z.mu = mu; if (!okmag(z)) return false;
            md = z;
            if (o.c % 2) { std::list<U> l(v.begin(), v.end()); const std::list<R> dl(dx.begin(), dx.end()); rd = nary(l.begin(), l.end(), mm, dl.begin()); }
            else rd = nary(v.begin(), v.end(), mm, dx.begin());
            break;
        }
        case BASG: {
            const double *c = BASGC[o.c]; const E f = D.mu + B.mu + E(0.125);
            md = lin(f, D, E(c[0]), B, E(c[1])); if (!okmag(md)) return false;
            const R fr = R(rd.n() + rb.n() + R(0.125));
            if (inplace_as_plain) { U t = binary(rd, rb, fr, R(c[0]), R(c[1])); rd = t; }
            else rd.binary_assign(rb, fr, R(c[0]), R(c[1]));
            break;
        }
        case CHN: md = A; md.mu = E(-0.625); rd = change_nom(ca, R(-0.625)); break;
        case FRESH: { if (nb >= NB) return false; int i = fresh(nb == 3 ? 2.5 : -0.5, nb == 3 ? 0.125 : 0.75); load(o.d, i); break; }
        case CONST: rd = U(R(1.5)); md = Reg(); md.mu = E(1.5); break;
        case DFLT: rd = U(); md = Reg(); break;
        case SWAP: { using std::swap; swap(rd, ra); std::swap(m[o.d], m[o.a]); break; }
        case SELF: { U &alias = rd; rd = alias; break; }
        }
        return okmag(m[o.d]);
    }
    uint64_t hash() const {
        uint64_t h = nb;
        for (const Reg &z : m) h = z.hash(h);
        for (const U &u : r) h = vh::mix(h, u.isindep() * 2 + (u.indepid() > 0));
        return h;
    }
    std::string show() const {
        std::ostringstream s;
        for (int i = 0; i < NR; ++i) s << "r" << i << "=" << vh::num(ld(r[i].n())) << "+-" << vh::num(ld(r[i].s())) << " ";
        return s.str();
    }
    std::string diff(const char *what, int i, int j, LD got, const E &want) const {
        std::ostringstream s;
        s << what << "(r" << i; if (j >= 0) s << ", " << (j >= 100 ? "input " : "r") << j % 100;
        s << ") = " << vh::num(got) << " but the reference model gives " << vh::num(want.v) << " (rounding allowance " << vh::num(16 * want.e) << ")";
        return s.str();
    }
    // compare everything observable with the reference
    void observe(vh::Ctx &c) const {
        for (int i = 0; i < NR; ++i) {
            const U &u = r[i]; const Reg &z = m[i];
            c.check(agree(ld(u.n()), z.mu), "mean", [&] { return diff("n", i, -1, ld(u.n()), z.mu); });
            c.check(agree(ld(nom(u)), z.mu), "nom", [&] { return diff("nom", i, -1, ld(nom(u)), z.mu); });
            const E v = z.var(), s = esqrt(v);
            c.check(agree(ld(var(u)), v) && var(u) >= 0, "var", [&] { return diff("var", i, -1, ld(var(u)), v); });
            c.check(agree(ld(u.s()), s) && u.s() >= 0, "s", [&] { return diff("s", i, -1, ld(u.s()), s); });
            c.check(agree(ld(sdev(u)), s) && sdev(u) >= 0, "sdev", [&] { return diff("sdev", i, -1, ld(sdev(u)), s); });
            for (int k = 0; k < nb; ++k) {
                const E w = z.g[k] * E(xs[k]);
                c.check(agree(ld(cov(u, x[k])), w), "cov-input", [&] { return diff("cov", i, 100 + k, ld(cov(u, x[k])), w); });
                c.check(agree(ld(cov(x[k], u)), w), "cov-input-sym", [&] { return diff("cov'", i, 100 + k, ld(cov(x[k], u)), w); });
            }
            for (int j = 0; j < NR; ++j) {
                const E w = z.cov(m[j]);
                c.check(agree(ld(cov(u, r[j])), w), "cov", [&] { return diff("cov", i, j, ld(cov(u, r[j])), w); });
                const E sj = esqrt(m[j].var());
                const E sp = s * sj;
                if (sp.v > 1e-6L * lo * lo && sp.e < 1e-6L * sp.v) {
                    const E co = w / sp;
                    c.check(agree(ld(corr(u, r[j])), co), "corr", [&] { return diff("corr", i, j, ld(corr(u, r[j])), co); });
                }
            }
        }
    }
    void observe_ids(vh::Ctx &c) const {
        for (int i = 0; i < nb; ++i) {
            c.check(x[i].indepid() > 0, "id-positive", [&] { return "a new independent variable has id " + std::to_string(x[i].indepid()); });
            for (int j = 0; j < i; ++j) c.check(x[i].indepid() != x[j].indepid(), "id-unique", [&] { return std::string("two independent variables have the same id"); });
        }
        for (int i = 0; i < NR; ++i) {
            const unsigned s = m[i].supp; const int n = __builtin_popcount(s);
            const bool ind = n <= 1;
            const long want = n == 0 ? 0 : n == 1 ? x[__builtin_ctz(s)].indepid() : unc::invalid_id;
            c.check(r[i].isindep() == ind, "isindep", [&] { return "isindep(r" + std::to_string(i) + ") is " + std::to_string(r[i].isindep()) + " for a variable computed from " + std::to_string(n) + " inputs"; });
            c.check(r[i].indepid() == want, "indepid", [&] { return "indepid(r" + std::to_string(i) + ") is " + std::to_string(r[i].indepid()) + ", expected " + std::to_string(want); });
        }
    }
    void observe_grad(vh::Ctx &c) {
        auto one = [&](U &f, const Reg &mf, const U &v, const Reg &mv, const std::string &who) {
            const int n = __builtin_popcount(mv.supp);
            bool threw = false; LD got = 0;
            try { got = ld(f.grad(v)); } catch (const std::invalid_argument &) { threw = true; }
            if (n != 1) { c.check(threw, "grad-no-throw", [&] { return who + ": grad with respect to a variable computed from " + std::to_string(n) + " inputs did not throw std::invalid_argument"; }); return; }
            c.check(!threw, "grad-throw", [&] { return who + ": grad threw for a single-input variable"; });
            const int k = __builtin_ctz(mv.supp);
            if (!(xabs(mv.g[k].v) > 1e-9L * lo)) return;      // no uncertainty left in the variable: ratio undefined
            const E w = mf.g[k] / mv.g[k];
            c.check(agree(got, w), "grad", [&] { return who + ": grad = " + vh::num(got) + ", expected " + vh::num(w.v); });
        };
        for (int i = 0; i < NR; ++i) {
            for (int k = 0; k < nb; ++k) {
                one(r[i], m[i], x[k], basis(k), "r" + std::to_string(i) + ".grad(input " + std::to_string(k) + ")");
                one(x[k], basis(k), r[i], m[i], "input" + std::to_string(k) + ".grad(r" + std::to_string(i) + ")");
            }
            for (int j = 0; j < NR; ++j) one(r[i], m[i], r[j], m[j], "r" + std::to_string(i) + ".grad(r" + std::to_string(j) + ")");
        }
    }
};
}
#endif
