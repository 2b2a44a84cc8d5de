// Reference ideal-gas formulas and lattices of states, normals and free streams.
#ifndef GAS_HPP
#define GAS_HPP
#include "hx.hpp"
#include "dual.hpp"
namespace gas {
typedef std::array<double,4> St;
struct Ph { double g, M, T, Re, Pr; };

template <typename S> S p(const Ph& h, const S *u) { return (h.g-1)*(u[3] - 0.5*(u[1]*u[1]+u[2]*u[2])/u[0]); }
template <typename S> S T(const Ph& h, const S *u) { return h.g*h.M*h.M*p(h,u)/u[0]; }
template <typename S> S c(const Ph& h, const S *u) { using std::sqrt; return sqrt(h.g*p(h,u)/u[0]); }
template <typename S> S muT(const Ph& h, const S& t) { using std::pow; const double s = 110.5/h.T; return (1+s)/(t+s)*pow(t,1.5)/h.Re; }
template <typename S> S mu(const Ph& h, const S *u) { return muT(h, T(h,u)); }
template <typename S> S vn(const S *u, const double *n) { return (u[1]*n[0]+u[2]*n[1])/u[0]; }
template <typename S> S H(const Ph& h, const S *u) { return (u[3]+p(h,u))/u[0]; }
template <typename S> void flux(const Ph& h, const S *u, const double *n, S *f) {
	const S v = vn(u,n), q = p(h,u);
	f[0] = u[0]*v; f[1] = u[1]*v + q*n[0]; f[2] = u[2]*v + q*n[1]; f[3] = (u[3]+q)*v;
}
inline St cons(const Ph& h, double r, double u, double v, double q) { return {{r, r*u, r*v, q/(h.g-1) + 0.5*r*(u*u+v*v)}}; }

/// every combination of these primitive values (pressure relative to the free-stream pressure)
inline std::vector<St> states(const Ph& h, int level) {
	std::vector<double> R, U, W, Q;
	switch(level) {
	case 0: R = {0.3, 1.0, 2.5}; U = {-1.3, 0, 0.8}; W = {-0.4, 0.9}; Q = {0.4, 1, 3}; break;
	case 1: R = {0.1, 0.7, 1.0, 3.0}; U = {-2.5, -0.6, 0, 1.0, 3.0}; W = {-1.2, 0, 0.35}; Q = {0.1, 0.8, 1.0, 4.0}; break;
	default: R = {0.02, 0.3, 0.7, 1.0, 1.6, 8.0}; U = {-4, -1.1, -0.2, 0, 0.05, 0.7, 1.0, 2.2}; W = {-3, -0.5, 0, 0.35, 1.4}; Q = {0.02, 0.4, 0.9, 1.0, 1.7, 9.0};
	}
	std::vector<St> o;
	const double p0 = 1/(h.g*h.M*h.M);
	for(double r : R) for(double u : U) for(double w : W) for(double q : Q) o.push_back(cons(h, r, u, w, q*p0));
	return o;
}
inline std::vector<Ph> phys(int level) {
	std::vector<Ph> o;
	std::vector<double> G = {1.4}, M = {0.1, 0.8, 2.0}, T = {288.15}, Re = {1000}, Pr = {0.72};
	if(level >= 1) { G = {1.2, 1.4, 5.0/3}; M = {0.05, 0.5, 1.0, 3.0}; T = {110, 288.15}; Re = {50, 5000}; Pr = {0.72, 1.0}; }
	for(double g : G) for(double m : M) for(double t : T) for(double r : Re) for(double q : Pr) o.push_back({g,m,t,r,q});
	return o;
}
inline std::vector<std::array<double,2>> normals(int k) {
	std::vector<std::array<double,2>> o;
	for(int i = 0; i < k; i++) { const double a = 2*M_PI*i/k; o.push_back({{std::cos(a), std::sin(a)}}); }
	o.push_back({{0.6, 0.8}}); o.push_back({{-0.28, -0.96}}); o.push_back({{1,0}}); o.push_back({{0,-1}});
	for(auto& n : o) { const double l = std::hypot(n[0], n[1]); n[0] /= l; n[1] /= l; }
	return o;
}
/// What the tree is recorded (known_findings.txt) to compute instead of the derivative of Sutherland's viscosity:
/// T^-1.5 in place of T^0.5 in its first term. Anything else that differs from the derivative is reported.
inline Dual<4> muKnown(const Ph& h, const Dual<4>& t) {
	const double s = 110.5/h.T, co = (1+s)/h.Re, T15 = std::pow(t.v,1.5), Tm = std::pow(t.v,-1.5), den = (t.v+s)*(t.v+s);
	Dual<4> r(muT(h, t.v));
	for(int i = 0; i < 4; i++) r.d[i] = co*(1.5*Tm*t.d[i]*(t.v+s) - T15*t.d[i])/den;
	return r;
}
/// Likewise the recorded value of getDeltaPressureFromConserved: sums over (y-momentum, energy) with the wrong sign
inline double dpKnown(const Ph& h, const double *u, const double *du) {
	double un[4], dp = 0;
	for(int i = 0; i < 4; i++) un[i] = u[i]+du[i];
	for(int i = 2; i < 4; i++) dp -= ((u[i]+un[i])*(u[0]+un[0])/2.0*du[i] - (un[i]*un[i]+u[i]*u[i])/2.0*du[0]);
	return (h.g-1)*(du[3] - dp/(2*u[0]*un[0]));
}
inline std::string str(const double *u) { return hx::fmt("(%.9g %.9g %.9g %.9g)", u[0], u[1], u[2], u[3]); }
inline bool near(double a, double b, double tol, double scale) { return std::isfinite(a) && std::isfinite(b) && std::fabs(a-b) <= tol*(std::fabs(b) + scale); }
} // namespace gas
#endif
