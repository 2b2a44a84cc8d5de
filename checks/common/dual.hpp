// Forward-mode derivatives of reference formulas (the reference is differentiated exactly, never the code under test)
#ifndef DUAL_HPP
#define DUAL_HPP
#include <cmath>
template <int N> struct Dual {
	double v; double d[N];
	Dual(double x = 0) : v(x) { for(int i = 0; i < N; i++) d[i] = 0; }
	static Dual var(double x, int k) { Dual r(x); r.d[k] = 1; return r; }
};
#define DOP template <int N> inline Dual<N>
DOP operator+(Dual<N> a, const Dual<N>& b) { a.v += b.v; for(int i = 0; i < N; i++) a.d[i] += b.d[i]; return a; }
DOP operator-(Dual<N> a, const Dual<N>& b) { a.v -= b.v; for(int i = 0; i < N; i++) a.d[i] -= b.d[i]; return a; }
DOP operator*(const Dual<N>& a, const Dual<N>& b) { Dual<N> r(a.v*b.v); for(int i = 0; i < N; i++) r.d[i] = a.d[i]*b.v + a.v*b.d[i]; return r; }
DOP operator/(const Dual<N>& a, const Dual<N>& b) { Dual<N> r(a.v/b.v); for(int i = 0; i < N; i++) r.d[i] = (a.d[i] - r.v*b.d[i])/b.v; return r; }
DOP operator-(Dual<N> a) { a.v = -a.v; for(int i = 0; i < N; i++) a.d[i] = -a.d[i]; return a; }
DOP operator+(const Dual<N>& a, double b) { Dual<N> r = a; r.v += b; return r; }
DOP operator+(double b, const Dual<N>& a) { return a + b; }
DOP operator-(const Dual<N>& a, double b) { Dual<N> r = a; r.v -= b; return r; }
DOP operator-(double b, const Dual<N>& a) { return -(a - b); }
DOP operator*(const Dual<N>& a, double b) { Dual<N> r = a; r.v *= b; for(int i = 0; i < N; i++) r.d[i] *= b; return r; }
DOP operator*(double b, const Dual<N>& a) { return a*b; }
DOP operator/(const Dual<N>& a, double b) { return a*(1/b); }
DOP operator/(double b, const Dual<N>& a) { return Dual<N>(b)/a; }
DOP sqrt(const Dual<N>& a) { Dual<N> r(std::sqrt(a.v)); for(int i = 0; i < N; i++) r.d[i] = 0.5*a.d[i]/r.v; return r; }
DOP pow(const Dual<N>& a, double e) { Dual<N> r(std::pow(a.v,e)); const double q = e*std::pow(a.v,e-1); for(int i = 0; i < N; i++) r.d[i] = q*a.d[i]; return r; }
DOP fabs(const Dual<N>& a) { return a.v < 0 ? -a : a; }
#undef DOP
inline double val(double x) { return x; }
template <int N> inline double val(const Dual<N>& a) { return a.v; }
#endif
