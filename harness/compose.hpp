// Uses what the included headers offer. The headers are included before this file, in the order under test,
// and HAVE_x is defined for each of them. TU is 1 or 2.
#include <cstdio>
#include <vector>
#include <array>
#include <string>
namespace unc = uncertainties;
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
namespace compose {
inline double core_only() { double x = 3; (void)unc::Prop::est; (void)unc::Prop::mean; unc::Id i = unc::invalid_id; return unc::nom(x) + unc::sdev(x) + (i < 0); }
void takes(const unc::UReal<double> &, const unc::UReal2<double, unc::Prop::est> &);
typedef std::array<double, 6> M6;
void CAT(part, TU)(std::vector<double> &out, std::string &text) {
    out.push_back(core_only());
#ifdef HAVE_ureal
    unc::udouble x(1.25, 0.5), y(-2, 0.25), k = 3;
    unc::ufloat xf(1.25f, 0.5f);
    out.push_back(double(x.indepid())); out.push_back(double(y.indepid())); out.push_back(double(xf.indepid()));
    unc::udouble z = x * y - k / x + 2;
    z += x; z *= 2; z -= y; z /= k;
    out.push_back(z.n()); out.push_back(z.s()); out.push_back(cov(x, z)); out.push_back(corr(y, z)); out.push_back(z.grad(x)); out.push_back(var(z));
    unc::ufloat zf = unc::ufloat(z); out.push_back(zf.n());
    std::vector<unc::udouble> list{x, y, z};
    std::vector<double> ones(3, 1.0);
    out.push_back(nary(list.begin(), list.end(), 0.5, ones.begin()).s()); out.push_back(change_nom(z, 7.0).n());
#endif
#ifdef HAVE_ureal2
    M6 m6{{0.25, 3, 0.5, 15, 2, 105}};
    unc::UReal2<double, unc::Prop::est> a(1.25, 0.5, m6), b(-2, 0.25, m6);
    unc::UReal2<double, unc::Prop::mean> c(1.25, 0.5, m6);
    unc::UReal2<float, unc::Prop::mean> cf(c);
    out.push_back(double(a.indepid())); out.push_back(double(b.indepid())); out.push_back(double(c.indepid()));
    unc::UReal2<double, unc::Prop::est> d = a * b - 3.0 / a + b * b;
    out.push_back(d.n()); out.push_back(d.s()); out.push_back(d.skew()); out.push_back(d.kurt()); out.push_back(cov(a, d)); out.push_back(corr(b, d)); out.push_back(d.grad(a)); out.push_back(d.hess(a, b)); out.push_back((c * c).n()); out.push_back((cf * cf).m(2)); out.push_back(d.first_order_n());
#endif
#if defined(HAVE_math) && defined(HAVE_ureal)
    out.push_back(sin(x).s()); out.push_back(pow(x, y).n()); out.push_back(atan2(y, x).s()); out.push_back(exp(z).n()); out.push_back(isfinite(x) + 2 * isnormal(z)); out.push_back(abs(y).n()); out.push_back(fmax(x, y).n()); out.push_back(erf(x).s());
#endif
#if defined(HAVE_math) && defined(HAVE_ureal2)
    out.push_back(sin(a).s()); out.push_back(pow(a, b).n()); out.push_back(atan2(b, a).s()); out.push_back(exp(d).n()); out.push_back(isfinite(a) + 2 * isnormal(d)); out.push_back(abs(b).n()); out.push_back(fmod(a, b).n());
#endif
#if defined(HAVE_math)
    { using std::abs; using std::isfinite; out.push_back(abs(-2.5) + isfinite(1.0)); }
#endif
#ifdef HAVE_io
    text += unc::format(3.5) + ";" + unc::format(2.0f, 2, "+-") + ";";
#endif
#if defined(HAVE_io) && defined(HAVE_ureal)
    text += unc::format(z) + ";" + z.format(3) + ";" + x.format(1.5f, " pm ") + ";" + unc::format(xf) + ";";
    { std::ostringstream o; o << z << x << xf; text += o.str() + ";"; }
#endif
#if defined(HAVE_io) && defined(HAVE_ureal2)
    text += unc::format(d) + ";" + d.format(3) + ";";
    { std::ostringstream o; o << d << c; text += o.str() + ";"; }
#endif
#if defined(HAVE_functions) && defined(HAVE_ureal)
    { unc::Unary<double> f = [](const double &t) { return t * t; }, g = [](const double &t) { return 2 * t; };
      unc::Binary<double> h = [](const double &t, const double &u) { return t * u; };
      out.push_back(unc::uunary<double>(f, g)(x).s()); out.push_back(unc::uunary<double>(f)(x).n()); out.push_back(unc::ubinary<double>(h)(x, y).n()); }
#endif
#if defined(HAVE_functions) && defined(HAVE_ureal2)
    { unc::Unary<double> f = [](const double &t) { return t * t; }, g = [](const double &t) { return 2 * t; };
      out.push_back(unc::uunary2<double, unc::Prop::est>(f, g)(a).first_order_n()); out.push_back(unc::uunary2<double, unc::Prop::mean>(f)(c).first_order_n()); }
#endif
#if defined(HAVE_stat) && defined(HAVE_ureal)
    for (double v : unc::cov_matrix<std::vector<double>>(list)) out.push_back(v);
    for (double v : unc::corr_matrix<std::vector<double>>(list)) out.push_back(v);
    for (double v : unc::nom_vector<std::vector<double>>(list)) out.push_back(v);
    out.push_back(unc::corr2cov<std::vector<double>>(std::vector<double>{2, 3}, std::vector<double>{1, 0.5, 0.5, 1})[1]);
#endif
#if defined(HAVE_stat) && defined(HAVE_ureal2)
    { std::vector<unc::UReal2<double, unc::Prop::est>> l2{a, b, d}; for (double v : unc::cov_matrix<std::vector<double>>(l2)) out.push_back(v); }
#endif
#if defined(HAVE_distr) && defined(HAVE_ureal2)
    out.push_back(unc::distr::chisquare<unc::udouble2e>(3).m(3)); out.push_back(unc::distr::normal<unc::udouble2m>(1, 2).n()); out.push_back((unc::distr::uniform<unc::udouble2e>(1, 2) * a).m(4));
#endif
#if defined(HAVE_ureals) && defined(HAVE_ureal)
    { auto u = unc::ureals<std::vector<unc::udouble>>(std::vector<double>{1, 2}, std::vector<double>{4, 1, 1, 3}); out.push_back(cov(u[0], u[1])); out.push_back(u[1].s()); out.push_back(u[0].n()); }
#endif
}
}
