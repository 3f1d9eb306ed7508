// C19 (MON=19): the text of every number of a mantissa x exponent x digits grid; C20 (MON=20): extremes.
#include "vh.hpp"
#include <uncertainties/ureal.hpp>
#include <uncertainties/ureal2.hpp>
#include <uncertainties/io.hpp>
#include <uncertainties/impl.hpp>
#include <sstream>
#include <iomanip>
#ifndef REAL
#define REAL double
#endif
#ifndef MON
#define MON 19
#endif
namespace unc = uncertainties;
typedef REAL R; typedef long double L; typedef unc::UReal<R> U;
static const L EPS = static_cast<L>(std::numeric_limits<R>::epsilon());

template<class X> struct Var;
template<> struct Var<U> { static U make(R mu, R s) { return U(mu, s); } };
template<unc::Prop P> struct Var<unc::UReal2<R, P>> {
    static unc::UReal2<R, P> make(R mu, R s) {
        static const std::array<R, 6> m{{0, 3, 0, 15, 0, 105}};
        if (s == 0) return unc::UReal2<R, P>(mu);
        return unc::UReal2<R, P>(mu, s, m, R(-1));
    }
};
struct Num { bool ok = false, neg = false, zero = false, special = false; int decimals = 0, sig = 0; std::string digits; };
// -?D+(.D+)? without superfluous leading zeros; or nan, inf, -inf
static Num number(const std::string &t) {
    Num n;
    if (t == "nan" || t == "inf" || t == "-inf") { n.ok = n.special = true; n.digits = t; n.neg = t[0] == '-'; return n; }
    size_t i = 0;
    if (t[i] == '-') { n.neg = true; ++i; }
    const size_t a = i;
    while (i < t.size() && t[i] >= '0' && t[i] <= '9') ++i;
    if (i == a || (i > a + 1 && t[a] == '0')) return n;
    n.digits = t.substr(a, i - a);
    if (i < t.size()) {
        if (t[i] != '.') return n;
        const size_t b = ++i;
        while (i < t.size() && t[i] >= '0' && t[i] <= '9') ++i;
        n.decimals = int(i - b);
        if (!n.decimals || i != t.size()) return n;
        n.digits += t.substr(b);
    }
    const size_t nz = n.digits.find_first_not_of('0');
    n.zero = nz == std::string::npos;
    n.sig = n.zero ? 0 : int(n.digits.size() - nz);
    n.ok = true;
    return n;
}
static bool exponent(const std::string &t, int *e) {
    if (t.size() < 2 || (t[0] != '+' && t[0] != '-')) return false;
    for (size_t i = 1; i < t.size(); ++i) if (t[i] < '0' || t[i] > '9') return false;
    if (t[1] == '0' && t.size() > 2) return false;
    *e = std::atoi(t.c_str()); return true;
}
struct Text { bool ok = false, common = false; Num mu, s; int emu = 0, es = 0; L vmu = 0, vs = 0, umu = 0, us = 0; };
static L value(const Num &n, int e) {
    if (n.special) return n.digits == "nan" ? NAN : n.neg ? -INFINITY : INFINITY;
    return (n.neg ? -1 : 1) * strtold((n.digits + "e" + std::to_string(e - n.decimals)).c_str(), nullptr);
}
static L tenpow(int e) { return strtold(("1e" + std::to_string(e)).c_str(), nullptr); }
static Text parse(std::string t, const std::string &sep) {
    Text r;
    if (t.size() && t[0] == '(') {
        const size_t k = t.rfind(")e");
        if (k == std::string::npos || !exponent(t.substr(k + 2), &r.emu)) return r;
        r.es = r.emu; r.common = true;
        t = t.substr(1, k - 1);
    }
    const size_t k = t.find(sep);
    if (k == std::string::npos) return r;
    std::string a = t.substr(0, k), b = t.substr(k + sep.size());
    if (!r.common) for (int i = 0; i < 2; ++i) {
        std::string &x = i ? b : a;
        const size_t q = x.find('e');
        if (q == std::string::npos) continue;
        if (!exponent(x.substr(q + 1), i ? &r.es : &r.emu)) return r;
        x.resize(q);
    }
    r.mu = number(a); r.s = number(b);
    if (!r.mu.ok || !r.s.ok || r.s.neg) return r;
    r.vmu = value(r.mu, r.emu); r.vs = value(r.s, r.es);
    r.umu = tenpow(r.emu - r.mu.decimals); r.us = tenpow(r.es - r.s.decimals);
    r.ok = true;
    return r;
}
static bool reads(L printed, L given, L unit, L slack) {
    if (std::isnan(given)) return std::isnan(printed);
    if (std::isinf(given)) return printed == given;
    if (std::isinf(printed)) return std::fabs(given) >= L(std::numeric_limits<R>::max()) * (1 - slack) || std::isinf(unit);    // rounding up the largest number
    return std::fabs(printed - given) <= unit * (0.5L + 1e-9L) + slack * std::fabs(given);
}
static uint64_t hv(uint64_t h, L v) { int e = 0; const L f = std::isfinite(v) ? std::frexp(v, &e) : v; return vh::mix(vh::hashd(h, double(f)), e + 20000 + (std::signbit(v) ? 65536 : 0)); }
static std::string show(L mu, L s, float d, const std::string &f) {
    char b[32]; std::snprintf(b, sizeof b, "%.9g", double(d));
    return "format(" + vh::num(mu) + ", " + vh::num(s) + "; " + b + ") = \"" + (f.size() > 150 ? f.substr(0, 150) + "..." : f) + "\"";
}

// number of significant digits of the uncertainty, from the documented rule; 0 if too close to a boundary to tell
static int wanted(L s, float errdig) {
    const L lg = std::log10(s);
    const int e = int(std::floor(lg));
    const L f = L(errdig) - std::floor(L(errdig)), frac = lg - e;
    if (f > 0 && std::fabs(frac - f) < 1e-5L) return 0;
    if (std::fabs(lg - std::round(lg)) < 1e-6L && std::fabs(s / tenpow(int(std::round(lg))) - 1) > 0) {
        if (std::fabs(s / tenpow(int(std::round(lg))) - 1) > 4 * EPS) return 0;
        return int(std::floor(L(errdig))) + (f > 0);        // a power of ten
    }
    const int d0 = int(std::floor(L(errdig)));
    const int nd = d0 + (frac < f);
    const L m = s / tenpow(e - nd + 1), r = std::round(m);
    if (std::fabs(std::fabs(m - r) - 0.5L) < 1e-5L + 64 * EPS * m) return 0;
    const L top = tenpow(nd);
    if (r >= top) return d0 + (f > 0);          // rounds to a power of ten, whose logarithm has no fractional part
    return nd;
}

template<class X> static void judge(vh::Ctx &c, const X &x, float d, const std::string &sep, bool digits, L slack, bool tsan) {
    const L mu = L(nom(x)), s = L(sdev(x));
    std::string f = unc::format(x, d, sep);
    auto m = [&] { return show(mu, s, d, f); };
    Text t = parse(f, sep);
    c.check(t.ok, "shape", m);
    if (std::isfinite(mu)) {
        c.check(!t.mu.special && reads(t.vmu, mu, t.umu, slack), "mean", [&] { return m() + ", whose mean reads " + vh::num(t.vmu); });
        if (mu != 0 && !t.mu.zero) c.check(t.mu.neg == (mu < 0), "sign", m);
        if (mu > 0) c.check(!t.mu.neg, "sign", m);
        if (mu < 0) c.check(t.mu.neg, "sign", m);
    } else c.check(t.mu.digits == (std::isnan(mu) ? "nan" : mu < 0 ? "-inf" : "inf"), "special", m);
    if (std::isfinite(s)) c.check(!t.s.special && reads(t.vs, s, t.us, slack), "sdev", [&] { return m() + ", whose uncertainty reads " + vh::num(t.vs); });
    else c.check(t.s.digits == (std::isnan(s) ? "nan" : "inf"), "special", m);
    if (!std::isfinite(mu) || !std::isfinite(s) || s == 0) return;
    c.check(t.mu.decimals == t.s.decimals && t.emu == t.es, "aligned", m);
    c.check((t.common || (t.emu == 0 && t.es == 0)), "exponent", m);
    if (digits) {
        const int w = wanted(s, d);
        if (w) c.check(t.s.sig == w, "digits", [&] { return m() + ": " + std::to_string(w) + " significant digits of the uncertainty expected"; });
    }
}

#if MON == 19
static const float ED[] = {1.5f, 2, 1.1f, 1.25f, 1.75f, 1.9f, 2.5f, 3, 3.3f, 4.5f};
static L mantissas(int i) { return i < 900 ? (100 + i) / 100.L : 0; }
static L carry(int i) {     // mantissas around every carry and every tie
    static const L V[] = {9.949L, 9.951L, 9.9949L, 9.9951L, 9.99949L, 9.99951L, 9.4999L, 9.5001L, 1.0001L, 1.0499L, 1.0501L, 1.2499L, 1.2501L, 3.1622L, 3.1623L, 3.163L, 9.9996L, 9.9994L, 9.99996L, 4.4444L, 5.55555L, 1.99999L, 2.00001L, 9.999999L};
    return V[i];
}
static const L MU[] = {0, 1, 1.5L, 2.345678L, 4.9999L, 5.0001L, 9.4L, 9.5001L, 9.949L, 9.951L, 9.99L, 9.9949L, 9.9951L, 9.996L, 9.9999996L, 3.14159265358979L};
template<class X, bool MANY> static void grid(vh::Ctx &c) {
    const int nm = 924;
    const int i = c.choose(nm);
    c.shard();
    const int ie = c.choose(c.thorough() ? (MANY ? 41 : 13) : (MANY ? 9 : 3)), es = MANY ? (c.thorough() ? ie - 20 : ie - 4) : (c.thorough() ? ie - 6 : ie * 2 - 2);
    const L ms = i < 900 ? mantissas(i) : carry(i - 900);
    const R s = R(ms * tenpow(es));
    const int j = c.choose(16), neg = j ? c.choose(2) : 0;
    const int em = j ? es + c.choose(c.thorough() ? 16 : 8) - 3 : 0;
    const R mu = R((neg ? -1 : 1) * MU[j] * tenpow(em));
    const X x = Var<X>::make(mu, s);
    const int d = c.choose(i % 3 == 0 || i >= 900 ? 10 : 3);
    c.note([&] { return show(L(mu), L(s), ED[d], unc::format(x, ED[d])); });
    c.step(); c.state(vh::mix(vh::mix(hv(7, L(mu)), hv(11, L(s))), d));
    judge(c, x, ED[d], " pm ", true, 32 * EPS, false);
}
// wide ratios: the mean has many more digits than the uncertainty or than the type
static void wide(vh::Ctx &c) {
    const int i = c.choose(24), es = c.choose(c.thorough() ? 61 : 25) - (c.thorough() ? 30 : 12);
    c.shard();
    const int ratio = c.choose(44) - 20;
    const R s = R(carry(i) * tenpow(es));
    const int j = 1 + c.choose(15), neg = c.choose(2), d = c.choose(10);
    if (std::abs(es + ratio) > 36) return;
    const R mu = R((neg ? -1 : 1) * MU[j] * tenpow(es + ratio));
    const U x(mu, s);
    c.note([&] { return show(L(mu), L(s), ED[d], unc::format(x, ED[d])); });
    c.step(); c.state(vh::mix(vh::mix(hv(7, L(mu)), hv(11, L(s))), d + 100));
    judge(c, x, ED[d], " pm ", true, 64 * EPS, false);
}
// separators, default arguments, member function and stream operator
template<class X> static void forms(vh::Ctx &c) {
    static const L SG[] = {0.136L, 1, 9.96L, 0.00996L, 12345, 2.5e-5L, 0, 31, 32};
    static const std::string SEP[] = {" ± ", " pm ", "", "+/-", "e", ")e", "0", "-", ".", std::string("\0x", 2), "a long separator that does not fit in a small string"};
    const int i = c.choose(9), j = c.choose(16), neg = c.choose(2), em = c.choose(13) - 6;
    c.shard();
    const int d = c.choose(10), q = c.choose(11);
    const X x = Var<X>::make(R((neg ? -1 : 1) * MU[j] * tenpow(em)), R(SG[i]));
    const std::string base = unc::format(x, ED[d], "|");
    c.note([&] { return base; });
    c.step(); c.state((((i * 16 + j) * 2 + neg) * 13 + em + 6) * 110 + d * 11 + q);
    const size_t k = base.find('|');
    c.check(k != std::string::npos, "shape", [&] { return "no separator in \"" + base + "\""; });
    const std::string want = base.substr(0, k) + SEP[q] + base.substr(k + 1);
    const std::string got = unc::format(x, ED[d], SEP[q]), mem = x.format(ED[d], SEP[q]);
    c.check(got == want, "separator", [&] { return "with another separator \"" + base + "\" becomes \"" + got + "\""; });
    c.check(mem == want, "member", [&] { return "the member function prints \"" + mem + "\", not \"" + want + "\""; });
    if (q == 0) {
        const std::string df = unc::format(x), pm = base.substr(0, k) + " ± " + base.substr(k + 1);
        c.check(unc::format(x, ED[d]) == pm && x.format(ED[d]) == pm, "default", [&] { return "without separator: \"" + unc::format(x, ED[d]) + "\", expected \"" + pm + "\""; });
        if (d == 0) c.check(df == pm && x.format() == pm, "default", [&] { return "default arguments: \"" + df + "\", expected \"" + pm + "\""; });
        std::ostringstream o; o << std::setprecision(2) << std::showpos << std::scientific << x << '!' << std::setw(3) << x;
        c.check(o.str() == df + "!" + df, "stream", [&] { return "the stream operator prints \"" + o.str() + "\""; });
    }
}
#else
static std::vector<R> extremes() {
    typedef std::numeric_limits<R> N; using std::nextafter; using std::sqrt;
    const R tiny = N::denorm_min(), mn = N::min(), mx = N::max();
    return {R(0), R(1), N::infinity(), -N::infinity(), N::quiet_NaN(), mx, -mx, mn, tiny, R(-0.0), R(-1), R(9.5), R(0.1L), R(3 * tiny), R(mn / 2), R(2 * mn), R(mx / 10), R(mx / 2), R(1 / R(3)),
            R(9.99999999999999999L), R(99.96), R(-1234567.8), R(1e-5), R(1e15), R(1e30L), R(-1e-30L), R(nextafter(R(10), R(0))), R(nextafter(R(10), R(20))), R(nextafter(R(1), R(0))), R(nextafter(R(1000), R(0))), R(7 * tiny), R(mn - tiny), R(mx / 100), R(100 / mx), R(-mn), R(sqrt(mx)), R(sqrt(mn))};
}
static const float ED[] = {1.5f, 2, 1.0000001f, 3.3f, 5, 10, 17, 21, 40.5f};
template<class X> static X mk(R mu, R s);
template<> U mk<U>(R mu, R s) {
    U x(R(1), R(1));
    if (s >= 0 && std::isfinite(L(s)) && std::isfinite(L(mu))) return U(mu, s);
    return unary(x, mu, s);
}
template<class X> static void go(vh::Ctx &c, R mu, R s, float d) {
    const X x = mk<X>(mu, s);
    c.note([&] { return show(L(mu), L(s), d, "?"); });
    c.step(); c.state(vh::mix(vh::mix(hv(7, L(mu)), hv(11, L(s))), uint64_t(d * 1000)));
    judge(c, x, d, "|", false, 512 * EPS, true);
}
static void pairs(vh::Ctx &c) {
    static const std::vector<R> E = extremes();
    const R mu = E[c.choose(E.size())], s = std::fabs(E[c.choose(E.size())]);
    c.shard();
    go<U>(c, mu, s, ED[c.choose(9)]);
}
// every power of ten with mantissas near the carries, against a palette of extremes
static void powers(vh::Ctx &c) {
    static const std::vector<R> E = extremes();
    const int lo = std::numeric_limits<R>::min_exponent10 - std::numeric_limits<R>::digits10 - 1, hi = std::numeric_limits<R>::max_exponent10;
    const bool wide = hi > 1000;
    const int step = wide ? (c.thorough() ? 7 : 61) : 1;
    const int k = lo + step * c.choose((hi - lo) / step + 1);
    c.shard();
    static const L M[] = {1, 9.9999999999999L, 9.96L, 3.2L, 1.0000000001L, 5};
    const int m = c.choose(wide ? 2 : c.thorough() ? 6 : 3);
    const R v = R(M[m] * tenpow(k));
    const bool neg = c.choose(2), which = c.choose(2);
    const R o = E[c.choose(wide ? 9 : int(E.size()))];
    const float d = ED[c.choose(wide ? 1 : c.thorough() ? 4 : 2)];
    if (which) go<U>(c, neg ? -v : v, std::fabs(o), d); else go<U>(c, neg ? -o : o, v, d);
}
// pairs of powers close to each other in the subnormal and in the largest range
static void edges(vh::Ctx &c) {
    const int top = c.choose(2), i = c.choose(24), j = c.choose(24);
    c.shard();
    const int lo = std::numeric_limits<R>::min_exponent10 - std::numeric_limits<R>::digits10, hi = std::numeric_limits<R>::max_exponent10;
    static const L M[] = {1, 9.9999999999999L, 9.96L, 3.2L, 5};
    const L a = M[c.choose(5)], b = M[c.choose(5)];
    const R mu = R(a * tenpow(top ? hi - i : lo + i)), s = R(b * tenpow(top ? hi - j : lo + j));
    go<U>(c, c.choose(2) ? -mu : mu, s, ED[c.choose(4)]);
}
// digit counts
static void counts(vh::Ctx &c) {
    static const L V[] = {1, 9.96L, 0.0123L, 12345.678L, 0, 1e-20L, 1e20L};
    const int i = c.choose(7), j = c.choose(7), k = c.choose(64);
    c.shard();
    static const float D[] = {0.99999994f, 0.5f, 0, -0.0f, -1, -1.5f, -100, -std::numeric_limits<float>::infinity(), -std::numeric_limits<float>::max(), std::numeric_limits<float>::denorm_min()};
    const U x((R(V[i])), R(V[j]));
    if (k >= 10) { go<U>(c, R(V[i]), R(V[j]), 1 + (k - 9) * (k < 40 ? 0.25f : 3.f)); return; }
    c.note([&] { return show(V[i], V[j], D[k], "?"); });
    c.step(); c.state(i * 512 + j * 64 + k);
    bool threw = false; std::string s;
    try { s = unc::format(x, D[k]); } catch (const std::invalid_argument &) { threw = true; }
    c.check(threw, "accepted", [&] { return show(V[i], V[j], D[k], s) + ", but less than one digit must be rejected"; });
}
// plain numbers and second order variables
static void others(vh::Ctx &c) {
    static const std::vector<R> E = extremes();
    const R v = E[c.choose(E.size())]; const int k = c.choose(3);
    c.shard();
    const float d = ED[c.choose(5)];
    c.note([&] { return "kind " + std::to_string(k) + ", value " + vh::num(L(v)); });
    c.step(); c.state(hv(k, L(v)));
    if (k == 0) { const std::string f = unc::format(v, d, "|"); Text t = parse(f, "|"); c.check(t.ok && t.s.zero && reads(t.vmu, L(v), t.umu, 512 * EPS), "plain", [&] { return show(L(v), 0, d, f); }); }
    else {
        auto a = Var<unc::UReal2<R, unc::Prop::est>>::make(R(1), R(1)); auto b = Var<unc::UReal2<R, unc::Prop::mean>>::make(R(1), R(1));
        for (int g = 0; g < 3; ++g) {
            const R w = E[g == 0 ? 1 : g == 1 ? 21 : 11];
            if (k == 1) judge(c, unary(a, v, w, R(0)), d, "|", false, 512 * EPS, true);
            else judge(c, unary(b, w, v, R(0)), d, "|", false, 512 * EPS, true);
        }
    }
}
#endif
int main(int argc, char **argv) {
    vh::Harness h;
#if MON == 19
    h.add("grid", grid<U, true>); h.add("grid-est", grid<unc::UReal2<R, unc::Prop::est>, false>); h.add("grid-mean", grid<unc::UReal2<R, unc::Prop::mean>, false>);
    h.add("wide", wide); h.add("forms", forms<U>); h.add("forms-est", forms<unc::UReal2<R, unc::Prop::est>>); h.add("forms-mean", forms<unc::UReal2<R, unc::Prop::mean>>);
#else
    h.add("pairs", pairs); h.add("powers", powers); h.add("edges", edges); h.add("counts", counts); h.add("others", others);
#endif
    return h.main(argc, argv);
}
