// wrap.hpp - a user-defined number type, W, for instantiating the library.
//
// It wraps long double (with -DQUAD, __float128) in its own namespace: it converts implicitly from the
// arithmetic types (as multiprecision types do) but only explicitly to them, and
// its mathematical functions can be found by argument-dependent lookup only.
// Code that goes through double or float on the way, or calls a std:: function
// by its qualified name, loses 11 bits or does not compile.
#ifndef WRAP_HPP
#define WRAP_HPP
#include <cmath>
#include <istream>
#include <limits>
#include <ostream>
#include <type_traits>
#include <Eigen/Core>
#ifdef QUAD
#include <quadmath.h>
#endif
namespace wrapped {
#ifdef QUAD
typedef __float128 Rep;
namespace rep {
#define WRAP_Q1(n) inline Rep n(Rep x) { return n##q(x); }
#define WRAP_Q2(n) inline Rep n(Rep x, Rep y) { return n##q(x, y); }
WRAP_Q1(fabs) WRAP_Q1(exp) WRAP_Q1(exp2) WRAP_Q1(expm1) WRAP_Q1(log) WRAP_Q1(log10) WRAP_Q1(log2) WRAP_Q1(log1p) WRAP_Q1(sqrt) WRAP_Q1(cbrt)
WRAP_Q1(sin) WRAP_Q1(cos) WRAP_Q1(tan) WRAP_Q1(asin) WRAP_Q1(acos) WRAP_Q1(atan) WRAP_Q1(sinh) WRAP_Q1(cosh) WRAP_Q1(tanh) WRAP_Q1(asinh) WRAP_Q1(acosh) WRAP_Q1(atanh)
WRAP_Q1(erf) WRAP_Q1(erfc) WRAP_Q1(floor) WRAP_Q1(ceil) WRAP_Q1(round) WRAP_Q1(trunc) WRAP_Q1(rint) WRAP_Q1(nearbyint) WRAP_Q1(logb)
WRAP_Q2(fmod) WRAP_Q2(remainder) WRAP_Q2(fmax) WRAP_Q2(fmin) WRAP_Q2(pow) WRAP_Q2(hypot) WRAP_Q2(atan2) WRAP_Q2(copysign) WRAP_Q2(fdim) WRAP_Q2(nextafter)
inline Rep abs(Rep x) { return fabsq(x); }
inline bool isnan(Rep x) { return isnanq(x); } inline bool isinf(Rep x) { return isinfq(x); } inline bool isfinite(Rep x) { return finiteq(x); } inline bool signbit(Rep x) { return signbitq(x); }
inline bool isnormal(Rep x) { return finiteq(x) && fabsq(x) >= FLT128_MIN; }
inline Rep ldexp(Rep x, int e) { return ldexpq(x, e); } inline Rep scalbn(Rep x, int e) { return scalbnq(x, e); } inline Rep frexp(Rep x, int *e) { return frexpq(x, e); } inline Rep modf(Rep x, Rep *i) { return modfq(x, i); }
inline Rep fma(Rep x, Rep y, Rep z) { return fmaq(x, y, z); } inline int ilogb(Rep x) { return ilogbq(x); } inline long lround(Rep x) { return lroundq(x); } inline long long llround(Rep x) { return llroundq(x); } inline long lrint(Rep x) { return lrintq(x); }
}
inline std::ostream &put(std::ostream &s, Rep v) { char b[64]; quadmath_snprintf(b, sizeof b, "%.20Qg", v); return s << b; }
inline std::istream &get(std::istream &s, Rep &v) { long double t; s >> t; v = t; return s; }
#else
typedef long double Rep;
namespace rep = std;
inline std::ostream &put(std::ostream &s, Rep v) { return s << v; }
inline std::istream &get(std::istream &s, Rep &v) { return s >> v; }
#endif
struct W {
    Rep v;
    W(): v(0) {}
    template<class T, class = typename std::enable_if<std::is_arithmetic<T>::value>::type> W(T x): v(x) {}
    template<class T, class = typename std::enable_if<std::is_arithmetic<T>::value>::type> explicit operator T() const { return static_cast<T>(v); }
    W &operator+=(const W &o) { v += o.v; return *this; }
    W &operator-=(const W &o) { v -= o.v; return *this; }
    W &operator*=(const W &o) { v *= o.v; return *this; }
    W &operator/=(const W &o) { v /= o.v; return *this; }
    W &operator++() { ++v; return *this; }
    W &operator--() { --v; return *this; }
    W operator++(int) { W t = *this; ++v; return t; }
    W operator--(int) { W t = *this; --v; return t; }
    friend W operator+(const W &a) { return a; }
    friend W operator-(const W &a) { return W(-a.v); }
    friend W operator+(const W &a, const W &b) { return W(a.v + b.v); }
    friend W operator-(const W &a, const W &b) { return W(a.v - b.v); }
    friend W operator*(const W &a, const W &b) { return W(a.v * b.v); }
    friend W operator/(const W &a, const W &b) { return W(a.v / b.v); }
    friend bool operator==(const W &a, const W &b) { return a.v == b.v; }
    friend bool operator!=(const W &a, const W &b) { return a.v != b.v; }
    friend bool operator<(const W &a, const W &b) { return a.v < b.v; }
    friend bool operator>(const W &a, const W &b) { return a.v > b.v; }
    friend bool operator<=(const W &a, const W &b) { return a.v <= b.v; }
    friend bool operator>=(const W &a, const W &b) { return a.v >= b.v; }
    friend std::ostream &operator<<(std::ostream &s, const W &a) { return put(s, a.v); }
    friend std::istream &operator>>(std::istream &s, W &a) { return get(s, a.v); }
};
#define WRAP_F1(n) inline W n(const W &x) { return W(rep::n(x.v)); }
#define WRAP_F2(n) inline W n(const W &x, const W &y) { return W(rep::n(x.v, y.v)); }
#define WRAP_P1(n) inline bool n(const W &x) { return rep::n(x.v); }
WRAP_F1(abs) WRAP_F1(fabs) WRAP_F1(exp) WRAP_F1(exp2) WRAP_F1(expm1) WRAP_F1(log) WRAP_F1(log10) WRAP_F1(log2) WRAP_F1(log1p) WRAP_F1(sqrt) WRAP_F1(cbrt)
WRAP_F1(sin) WRAP_F1(cos) WRAP_F1(tan) WRAP_F1(asin) WRAP_F1(acos) WRAP_F1(atan) WRAP_F1(sinh) WRAP_F1(cosh) WRAP_F1(tanh) WRAP_F1(asinh) WRAP_F1(acosh) WRAP_F1(atanh)
WRAP_F1(erf) WRAP_F1(erfc) WRAP_F1(floor) WRAP_F1(ceil) WRAP_F1(round) WRAP_F1(trunc) WRAP_F1(rint) WRAP_F1(nearbyint) WRAP_F1(logb)
WRAP_F2(fmod) WRAP_F2(remainder) WRAP_F2(fmax) WRAP_F2(fmin) WRAP_F2(pow) WRAP_F2(hypot) WRAP_F2(atan2) WRAP_F2(copysign) WRAP_F2(nextafter) WRAP_F2(fdim)
WRAP_P1(isfinite) WRAP_P1(isnormal) WRAP_P1(isnan) WRAP_P1(isinf) WRAP_P1(signbit)
inline W ldexp(const W &x, int e) { return W(rep::ldexp(x.v, e)); }
inline W scalbn(const W &x, int e) { return W(rep::scalbn(x.v, e)); }
inline W frexp(const W &x, int *e) { return W(rep::frexp(x.v, e)); }
inline W modf(const W &x, W *i) { return W(rep::modf(x.v, &i->v)); }
inline W fma(const W &x, const W &y, const W &z) { return W(rep::fma(x.v, y.v, z.v)); }
inline int ilogb(const W &x) { return rep::ilogb(x.v); }
inline long lround(const W &x) { return rep::lround(x.v); }
inline long long llround(const W &x) { return rep::llround(x.v); }
inline long lrint(const W &x) { return rep::lrint(x.v); }
}
namespace wrapped {
#ifdef QUAD
struct Limits: std::numeric_limits<long double> {
    static const int digits = 113, digits10 = 33, max_digits10 = 36;
    static Rep min() { return FLT128_MIN; } static Rep max() { return FLT128_MAX; } static Rep lowest() { return -FLT128_MAX; } static Rep epsilon() { return FLT128_EPSILON; } static Rep denorm_min() { return FLT128_DENORM_MIN; }
};
#else
typedef std::numeric_limits<long double> Limits;
#endif
}
namespace std {
template<> struct numeric_limits<wrapped::W>: wrapped::Limits {
    typedef wrapped::Limits L; typedef wrapped::W W;
    static W min() { return L::min(); } static W max() { return L::max(); } static W lowest() { return L::lowest(); }
    static W epsilon() { return L::epsilon(); } static W round_error() { return L::round_error(); }
    static W infinity() { return L::infinity(); } static W quiet_NaN() { return L::quiet_NaN(); } static W signaling_NaN() { return L::signaling_NaN(); } static W denorm_min() { return L::denorm_min(); }
};
}
namespace Eigen {
template<> struct NumTraits<wrapped::W>: GenericNumTraits<wrapped::W> {
    typedef wrapped::W Real; typedef wrapped::W NonInteger; typedef wrapped::W Nested; typedef wrapped::W Literal;
    static inline Real epsilon() { return std::numeric_limits<Real>::epsilon(); }
    static inline Real dummy_precision() { return Real(1e-15L); }
    static inline Real highest() { return std::numeric_limits<Real>::max(); }
    static inline Real lowest() { return std::numeric_limits<Real>::lowest(); }
    static inline int digits10() { return std::numeric_limits<wrapped::Rep>::digits10; }
    enum { IsComplex = 0, IsInteger = 0, IsSigned = 1, RequireInitialization = 1, ReadCost = 2, AddCost = 4, MulCost = 8 };
};
}
using WREAL = wrapped::W;
#endif
