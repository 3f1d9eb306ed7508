// C05: the operations run concurrently, compiled from the real headers with
// -fsanitize=thread instrumentation, linked with our own runtime (threads_rt.cpp).
#include "threads_rt.hpp"
#include <uncertainties/ureal.hpp>
#include <uncertainties/ureal2.hpp>
#include <uncertainties/ureals.hpp>
#include <uncertainties/stat.hpp>
#include <uncertainties/math.hpp>
#include <uncertainties/functions.hpp>
#include <uncertainties/distr.hpp>
#include <uncertainties/io.hpp>
#include <uncertainties/impl.hpp>
#include <array>
#include <sstream>
#include <vector>
#ifndef REAL
#define REAL double
#endif
namespace unc = uncertainties;
typedef REAL R;
typedef unc::UReal<R> U;
typedef unc::UReal2<R, unc::Prop::est> E2;
typedef unc::UReal2<R, unc::Prop::mean> M2;
static long double ld(const R &x) { return static_cast<long double>(x); }

// the shared variables, only read by the operations
static U *pa, *pb, *pc, *pd;
static E2 *ea, *eb, *ec, *ed;
static M2 *ma, *mb;
template<class T> static std::array<T, 6> mom() { return std::array<T, 6>{{T(0.25), T(3), T(1), T(15), T(2), T(105)}}; }
static unc::UUnary<R> *fu; static unc::UBinary<R> *fb; static unc::UUnary2<R, unc::Prop::est> *fe;
static R f1(const R &x) { return x * x; }
static R d1(const R &x) { return 2 * x; }
static R f2(const R &x, const R &y) { return x * y; }
void prepare(int how) {
    fu = new unc::UUnary<R>(unc::uunary<R>(unc::Unary<R>(f1))); fb = new unc::UBinary<R>(unc::ubinary<R>(unc::Binary<R>(f2))); fe = new unc::UUnary2<R, unc::Prop::est>(unc::uunary2<R, unc::Prop::est>(unc::Unary<R>(f1), unc::Unary<R>(d1)));
    pa = new U(R(1.25), R(0.5)); pb = new U(R(0.75), R(0.25)); pc = new U(R(2)); pd = new U(R(-1.5), R(0.125));
    ea = new E2(R(1.25), R(0.5), mom<R>()); eb = new E2(R(0.75), R(0.25), mom<R>()); ec = new E2(R(2)); ed = new E2(R(-1.5), R(0.125), mom<R>());
    ma = new M2(R(1.25), R(0.5), mom<R>()); mb = new M2(R(0.75), R(0.25), mom<R>());
    if (how == 1) {                        // computed, one of them already queried
        U t = *pa * *pb; *pc = t + *pd; (void)t.s(); *pa = t; *pd = *pd - *pb;
        E2 s = *ea * *eb; *ec = s + *ed; *ea = s; *ed = *ed - *eb;
        *ma = *ma * *mb;
    }
}

// what a private result is worth
static void show(const U &x) {
    out(ld(x.n())); out(ld(x.s())); out(x.isindep());
    out(ld(cov(x, *pa))); out(ld(cov(x, *pb))); out(ld(cov(*pd, x)));
}
template<class P> static void show2(const P &x) { out(ld(x.first_order_n())); out(ld(x.n())); out(x.isindep()); for (int k = 1; k <= 4; ++k) out(ld(x.m(k))); }
static void show(const E2 &x) { show2(x); out(ld(cov(x, *ea))); out(ld(cov(*eb, x))); }
static void show(const M2 &x) { show2(x); out(ld(cov(x, *ma))); }

template<class X> static void arith(const X &a, const X &b) { show(a + b); show(a - b); show(a * b); show(a / b); show(-a); show(+b); show(a + R(2)); show(R(3) * b); show(R(1) / a); }
template<class X> static void plainmath(const X &a, const X &b) {
    show(abs(a)); show(exp(a)); show(expm1(a)); show(log(b)); show(log1p(b)); show(sqrt(b)); show(cbrt(a)); show(sin(a)); show(cos(a)); show(tan(a)); show(asin(b)); show(acos(b)); show(atan(a));
}
template<class X> static void plainmath2(const X &a, const X &b) {
    show(sinh(a)); show(cosh(a)); show(tanh(a)); show(asinh(a)); show(acosh(b + R(1))); show(atanh(b)); show(fmod(a, b)); show(remainder(a, b)); show(fmax(a, b)); show(fmin(a, b)); show(pow(b, a)); show(hypot(a, b)); show(atan2(a, b));
}
static void c_ureal() { U x(R(1), R(0.5)); out_id(x.indepid()); out(x.isindep()); out(ld(x.n())); U y(R(2), R(0.25)); out_id(y.indepid()); out(ld(cov(x, y))); }
static void c_est() { E2 x(R(1), R(0.5), mom<R>()); out_id(x.indepid()); out(ld(x.m(2))); }
static void c_mean() { M2 x(R(1), R(0.5), mom<R>()); out_id(x.indepid()); out(ld(x.m(2))); }
template<class X> static void moments7(X *) { const std::array<R, 7> m{{R(0.25), R(0), R(0.1875), R(0), R(15) / R(64), R(0), R(105) / R(256)}}; X x(R(1), m); out_id(x.indepid()); out(ld(x.m(2))); out(ld(x.m(4))); }
static void c_moments() { moments7((E2 *)0); moments7((M2 *)0); }
static void c_mixed() { U a(R(1), R(0.5)); unc::UReal<float> b(2.0f, 0.5f); E2 c(R(1), R(0.5), mom<R>()); out_id(a.indepid()); out_id(b.indepid()); out_id(c.indepid()); }
static void c_normal() { E2 x = unc::distr::normal<E2>(R(1), R(0.5)); out_id(x.indepid()); for (int k = 1; k <= 4; ++k) out(ld(x.m(k))); }
static void c_chi2() { E2 x = unc::distr::chisquare<E2>(3); out_id(x.indepid()); for (int k = 1; k <= 4; ++k) out(ld(x.m(k))); out(ld((x * x).m(4))); }
static void c_uniform() { E2 x = unc::distr::uniform<E2>(R(1), R(3)); out_id(x.indepid()); for (int k = 1; k <= 4; ++k) out(ld(x.m(k))); out(ld((x * x).m(4))); }
static void c_ureals() { std::vector<R> m{R(1), R(2)}, c{R(4), R(1), R(1), R(2)}; std::vector<U> v = unc::ureals<std::vector<U>>(m, c); for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) out(ld(cov(v[i], v[j]))); }
static void q_ureal() { const U *v[] = {pa, pb, pc, pd}; for (const U *x : v) { out(ld(x->n())); out(ld(x->s())); out(x->isindep()); out(ld(nom(*x))); out(ld(sdev(*x))); out(ld(var(*x))); out(x->indepid() > 0); } }
static void q_cov() { const U *v[] = {pa, pb, pc, pd}; for (const U *x : v) for (const U *y : v) { out(ld(cov(*x, *y))); if (x->s() > 0 && y->s() > 0) out(ld(corr(*x, *y))); } }
static void q_copy() { U x = *pa; const U y(*pc); U z; z = *pd; out(ld(x.s())); out(ld(y.s())); out(ld(z.s())); x += *pb; x *= *pd; show(x); U w = std::move(z); w -= *pc; show(w); }
static void q_arith() { arith(*pa, *pb); arith(*pc, *pd); }
static void q_nary() { std::vector<U> v{*pa, *pb, *pd}; std::vector<R> d{R(1), R(-2), R(0.5)}; show(nary(v.begin(), v.end(), R(3), d.begin())); show(unary(*pa, R(2), R(-1))); show(binary(*pa, *pc, R(2), R(-1), R(3))); show(change_nom(*pb, R(7))); U t = *pa; t.binary_assign(*pb, R(1), R(2), R(3)); show(t); }
static void q_grad() { U x = *pa * *pb; U y = *pd; out(ld(x.grad(*pb))); out(ld(y.grad(*pb))); }
static void m_exp2() { show(exp2(*pa)); }
static void m_log10() { show(log10(*pb)); }
static void m_log2() { show(log2(*pb)); }
static void m_erf() { show(erf(*pa)); }
static void m_erfc() { show(erfc(*pa)); }
static void m_a() { plainmath(*pa, *pb); }
static void m_b() { plainmath2(*pa, *pb); }
static void m2_log() { show(exp2(*ea)); show(log10(*eb)); show(log2(*eb)); }
static void m2_erf() { show(erf(*ea)); show(erfc(*ea)); }
static void m2_a() { plainmath(*ea, *eb); }
static void m2_b() { plainmath2(*ea, *eb); }
static void q_est() { const E2 *v[] = {ea, eb, ec, ed}; for (const E2 *x : v) { show2(*x); out(ld(x->s())); out(ld(var(*x))); if (x->s() > 0) { out(ld(x->skew())); out(ld(x->kurt())); } out(ld(nom(*x))); out(ld(sdev(*x))); } }
static void q_covest() { const E2 *v[] = {ea, eb, ec, ed}; for (const E2 *x : v) for (const E2 *y : v) out(ld(cov(*x, *y))); }
static void q_mean() { const M2 *v[] = {ma, mb}; for (const M2 *x : v) { show2(*x); out(ld(x->s())); out(ld(cov(*x, *ma))); } }
static void q_hess() { const E2 x = *ea * *eb; out(ld(x.grad(*eb))); out(ld(x.hess(*eb, *eb))); out(ld(ec->grad(*eb))); out(ld(ed->hess(*eb, *eb))); }
static void q_arith2() { arith(*ea, *eb); arith(*ec, *ed); show(*ma * *mb + *ma); }
static void q_copy2() { E2 x = *ea, y; y = *ec; x = x * y; show(x); E2 z = std::move(y); show(z); show(unary(*ea, R(1), R(2), R(3))); show(binary(*ea, *ed, R(1), R(2), R(3), R(0.5), R(0), R(-1))); }
#ifndef WRAP_HPP
static void q_convert() { unc::UReal<float> f(*pc); out(f.n()); out(f.s()); unc::UReal<long double> g(*pa); out(g.s()); unc::UReal2<float, unc::Prop::est> h(*ec); out(h.n()); out(h.m(2)); }
#else
static void q_convert() { U f(*pc); show(f); }
#endif
static void q_convert2() { M2 m(*ea); show2(m); E2 e(*ma); show2(e); }
static void q_format() { out(unc::format(*pa)); out(pc->format(1.5f)); out(unc::format(*pd, 2.0f, "+-")); std::ostringstream s; s << *pb << ' ' << *pa; out(s.str()); }
static void q_format2() { out(unc::format(*ea)); std::ostringstream s; s << *eb << ' ' << *ma; out(s.str()); }
static void q_stat() {
    std::vector<U> v{*pa, *pb, *pd}; std::vector<E2> w{*ea, *eb, *ed};
    for (const R &x : unc::cov_matrix<std::vector<R>>(v)) out(ld(x));
    for (const R &x : unc::corr_matrix<std::vector<R>>(v)) out(ld(x));
    for (const R &x : unc::nom_vector<std::vector<R>>(v)) out(ld(x));
    for (const R &x : unc::cov_matrix<std::vector<R>>(w)) out(ld(x));
}
static void q_factory() {
    out(ld(unc::default_step<R>()));
    unc::Unary<R> f = f1, d = d1; unc::Binary<R> g = f2;
    show(unc::uunary<R>(f)(*pa)); show(unc::uunary<R>(f, d)(*pa)); show(unc::ubinary<R>(g)(*pa, *pb));
    show(unc::uunary2<R, unc::Prop::est>(f)(*ea)); show(unc::uunary2<R, unc::Prop::mean>(f)(*ma)); show(unc::ubinary2<R, unc::Prop::est>(g)(*ea, *eb));
}
static void q_shared_function() { show((*fu)(*pa)); show((*fb)(*pa, *pb)); show((*fe)(*ea)); }
static void q_class() { out(isfinite(*pa)); out(isnormal(*pc)); out(isfinite(*ea)); out(isnormal(*ec)); out(isnormal(*ma)); }

#define OP(f, c) {#f, f, c}
const ThreadOp OPS[] = {
    OP(c_ureal, 1), OP(c_est, 1), OP(c_mean, 1), OP(c_moments, 1), OP(c_mixed, 1), OP(c_normal, 1), OP(c_chi2, 1), OP(c_uniform, 1), OP(c_ureals, 1),
    OP(q_ureal, 0), OP(q_cov, 0), OP(q_copy, 0), OP(q_arith, 0), OP(q_nary, 0), OP(q_grad, 0), OP(m_exp2, 0), OP(m_log10, 0), OP(m_log2, 0), OP(m_erf, 0), OP(m_erfc, 0), OP(m_a, 0), OP(m_b, 0),
    OP(m2_log, 0), OP(m2_erf, 0), OP(m2_a, 0), OP(m2_b, 0), OP(q_est, 0), OP(q_covest, 0), OP(q_mean, 0), OP(q_hess, 0), OP(q_arith2, 0), OP(q_copy2, 0), OP(q_convert, 0), OP(q_convert2, 0),
    OP(q_format, 0), OP(q_format2, 0), OP(q_stat, 0), OP(q_factory, 0), OP(q_shared_function, 0), OP(q_class, 0),
};
const int NOPS = sizeof OPS / sizeof *OPS;
