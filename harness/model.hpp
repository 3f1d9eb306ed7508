// model.hpp - reference arithmetic: a value in LD (long double,
// or __float128 with -DQUAD) with a running bound
// of the error that a computation in the library's numeric type may make.
#ifndef MODEL_HPP
#define MODEL_HPP
#include <cmath>
#include <limits>
#include <type_traits>
// int where the type mixes with integers, the type itself for user-defined types
template<class R> using IntArg = typename std::conditional<std::is_arithmetic<R>::value, int, R>::type;
#ifdef QUAD
#include <quadmath.h>
typedef __float128 LD;
inline LD xabs(LD x) { return fabsq(x); }
inline LD xsqrt(LD x) { return sqrtq(x); }
inline bool xnan(LD x) { return x != x; }
#else
typedef long double LD;
inline LD xabs(LD x) { return std::fabs(x); }
inline LD xsqrt(LD x) { return std::sqrt(x); }
inline bool xnan(LD x) { return std::isnan(x); }
#endif
inline LD xmin(LD x, LD y) { return x < y ? x : y; }
struct E {
    LD v, e;
    static LD &eps() { static LD x = std::numeric_limits<double>::epsilon(); return x; }
    E(LD x = 0): v(x), e(eps() * xabs(x)) {}
    E(LD x, LD er): v(x), e(er) {}
};
inline E operator-(const E &a) { return E(-a.v, a.e); }
inline E operator+(const E &a, const E &b) { LD v = a.v + b.v; return E(v, a.e + b.e + E::eps() * (xabs(v))); }
inline E operator-(const E &a, const E &b) { return a + (-b); }
inline E operator*(const E &a, const E &b) {
    LD v = a.v * b.v;
    return E(v, xabs(a.v) * b.e + xabs(b.v) * a.e + a.e * b.e + E::eps() * xabs(v));
}
inline E operator/(const E &a, const E &b) {
    LD v = a.v / b.v, d = xabs(b.v) - b.e;
    if (d <= 0) return E(v, HUGE_VALL);
    return E(v, (a.e + xabs(v) * b.e) / d + 3 * E::eps() * xabs(v)); // 1/y then times x
}
inline E esqrt(const E &a) {
    LD v = xsqrt(a.v < 0 ? 0 : a.v);
    // |sqrt(a+d) - sqrt(a)| <= min(d/sqrt(a), sqrt(d))
    LD d = v > 0 ? xmin(a.e / v, xsqrt(a.e)) : xsqrt(a.e);
    return E(v, d + E::eps() * v);
}
inline bool agree(LD x, const E &m) {
    if (xnan(x) || xnan(m.v)) return false;
    if (x == m.v) return true;
    return xabs(x - m.v) <= 16 * m.e + 1e-300L;
}
#endif
