#include <uncertainties/ureal.hpp>
#include <uncertainties/ureal2.hpp>
#include <uncertainties/ureals.hpp>
#include <uncertainties/distr.hpp>
#include "ids.hpp"
namespace {
namespace unc = uncertainties;
template<class R> Made first() { unc::UReal<R> x(R(1), R(0.5)); Made m; m.ids.push_back(x.indepid()); return m; }
template<class R, unc::Prop P> Made second(bool central) {
    Made m;
    if (central) { std::array<R, 7> c{{R(0.25), 0, R(3) / 16, 0, R(15) / 64, 0, R(105) / 256}}; unc::UReal2<R, P> x(R(1), c); m.ids.push_back(x.indepid()); }
    else { std::array<R, 6> s{{0, 3, 0, 15, 0, 105}}; unc::UReal2<R, P> x(R(1), R(0.5), s); m.ids.push_back(x.indepid()); }
    return m;
}
template<class X> Made distribution(int k) {
    typedef typename X::real_type R;
    X x = k == 0 ? unc::distr::normal<X>(R(0), R(1)) : k == 1 ? unc::distr::chisquare<X>(3) : unc::distr::uniform<X>(R(0), R(1));
    Made m; m.ids.push_back(x.indepid()); return m;
}
template<class R> Made several() {
    std::vector<R> mu(2, R(1)), cov{R(4), R(0), R(0), R(9)};
    auto v = unc::ureals<std::vector<unc::UReal<R>>>(mu, cov);
    Made m; if (v.size() != 2) m.zeros.push_back(1); return m;       // combinations of new variables
}
inline Made make_here(int k) {
    const unc::Prop E = unc::Prop::est, M = unc::Prop::mean;
    typedef unc::UReal2<double, unc::Prop::est> DE; typedef unc::UReal2<float, unc::Prop::mean> FM; typedef unc::UReal2<long double, unc::Prop::est> LE;
    Made m;
    switch (k) {
    case 0: return first<double>(); case 1: return first<float>(); case 2: return first<long double>();
    case 3: return second<double, E>(0); case 4: return second<double, M>(0); case 5: return second<float, E>(0); case 6: return second<long double, M>(0);
    case 7: return second<double, E>(1); case 8: return second<double, M>(1); case 9: return second<float, M>(1); case 10: return second<long double, E>(1);
    case 11: case 12: case 13: return distribution<DE>(k - 11);
    case 14: case 15: case 16: return distribution<FM>(k - 14);
    case 17: return distribution<LE>(0);
    case 18: return several<double>(); case 19: return several<float>();
    // these create no independent variable
    case 20: m.zeros = {unc::UReal<double>(2).indepid(), unc::UReal<float>().indepid(), unc::UReal2<double, E>(3).indepid(), unc::UReal2<float, M>().indepid()}; return m;
    case 21: { unc::UReal<double> x(1, 1), y = x, z = unc::UReal<float>(x), w = change_nom(x, 5.); w = -z; m.ids = {x.indepid()}; m.zeros = {y.indepid() - x.indepid(), z.indepid() - x.indepid(), w.indepid() - x.indepid()}; return m; }
    case 22: { unc::UReal<double> x(1, 1), y(1, 1), z = x * y; m.ids = {x.indepid(), y.indepid()}; m.zeros = {z.indepid() - unc::invalid_id}; return m; }
    case 23: { auto x = unc::distr::normal<DE>(0, 1), y = x; x = -x; unc::UReal2<double, unc::Prop::mean> z(x); m.ids = {x.indepid()}; m.zeros = {y.indepid() - x.indepid(), z.indepid() - x.indepid()}; return m; }
    case 24: { unc::UReal<double> x(1, 1); unc::UReal2<double, unc::Prop::est> y = unc::distr::normal<DE>(0, 1); auto z = y * y + y; m.ids = {x.indepid(), z.indepid()}; m.zeros = {y.indepid() - z.indepid()}; return m; }
    // construction that fails
    default: try { unc::UReal<double> x(0, -1); m.zeros = {1}; } catch (const std::invalid_argument &) {} try { unc::distr::chisquare<DE>(-1); m.zeros = {1}; } catch (const std::invalid_argument &) {} return m;
    }
}
}
