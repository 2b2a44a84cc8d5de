// F01: algebraic properties of the inviscid numerical fluxes on a product lattice of states, normals and gases
#include "common/petsc_init.hpp"
#include "common/gas.hpp"
#include "aconstants.hpp"
#include "physics/aphysics.hpp"
#include "physics/aphysics_defs.hpp"
#include "spatial/anumericalflux.hpp"
#include "utilities/afactory.hpp"
#include <memory>
using namespace gas;
typedef fvens::IdealGasPhysics<double> P;
typedef std::array<double,2> N2;
typedef fvens::InviscidFlux<double> F;
static const char *FL[7] = {"LLF","VANLEER","AUSM","AUSMPLUS","ROE","HLL","HLLC"};

struct S { St u; double r, vn, vt, c, p, H; };

/// magnitudes of the entries of a flux between two states
static void scale(const S& a, const S& b, double *s) {
	const double w = std::max(std::fabs(a.vn)+std::fabs(a.vt)+a.c, std::fabs(b.vn)+std::fabs(b.vt)+b.c);
	const double r = std::max(a.r, b.r), e = std::max(a.u[3]+a.p, b.u[3]+b.p);
	s[0] = r*w; s[1] = s[2] = r*w*w + std::max(a.p,b.p); s[3] = e*w;
}
static S mk(const Ph& h, const St& u, const double *n) {
	S s; s.u = u; s.r = u[0]; s.vn = (u[1]*n[0]+u[2]*n[1])/u[0]; s.vt = (-u[1]*n[1]+u[2]*n[0])/u[0];
	s.p = gas::p(h,u.data()); s.c = gas::c(h,u.data()); s.H = gas::H(h,u.data());
	return s;
}
static void rot(const double *M, const double *a, double *b) { b[0] = a[0]; b[1] = M[0]*a[1]+M[1]*a[2]; b[2] = M[2]*a[1]+M[3]*a[2]; b[3] = a[3]; }

static void pair(const Ph& h, int f, const F& fl, const S& L, const S& R, const double *n) {
	double fx[4], g[4], sc[4];
	for(double& x : fx) x = 1e300;
	const std::string nm = FL[f];
	auto w = [&]() { return hx::fmt("%s gamma %g n (%.6g,%.6g) uL %s uR %s", FL[f], h.g, n[0], n[1], gas::str(L.u.data()).c_str(), gas::str(R.u.data()).c_str()); };
	fl.get_flux(L.u.data(), R.u.data(), n, fx);
	scale(L, R, sc);
	for(int i = 0; i < 4; i++) if(!std::isfinite(fx[i])) { hx::fail("finite-"+nm, w()); return; }
	auto same = [&](const char *key, const double *a, const double *b, double tol) {
		for(int i = 0; i < 4; i++) if(!(std::fabs(a[i]-b[i]) <= tol*sc[i])) { hx::fail(std::string(key)+"-"+nm, w()+hx::fmt(": component %d is %.15g, must be %.15g", i, a[i], b[i])); return; }
	};
	const double tol = 2e-12;
	// swapped states and reversed normal
	const double m[2] = {-n[0],-n[1]};
	fl.get_flux(R.u.data(), L.u.data(), m, g);
	for(double& x : g) x = -x;
	same("conservation", fx, g, tol);
	// rotated and reflected frames
	static const double Ms[3][4] = {{0.28,-0.96,0.96,0.28}, {0,1,1,0}, {-1,0,0,1}};
	for(auto& M : Ms) {
		double a[4], b[4], nn[2] = {M[0]*n[0]+M[1]*n[1], M[2]*n[0]+M[3]*n[1]}, e[4];
		rot(M, L.u.data(), a); rot(M, R.u.data(), b); rot(M, fx, e);
		fl.get_flux(a, b, nn, g);
		same(M[0]*M[3]-M[1]*M[2] > 0 ? "rotation" : "reflection", g, e, tol);
	}
	// upwinding
	if(f > 0) {
		auto super = [&](double sg) {
			const double a = sg*L.vn, b = sg*R.vn, e = 1 + 1e-9;
			if(f == 3) { // AUSM+ is built on the critical sound speed of the total enthalpy
				const double q = 2*(h.g-1)/(h.g+1);
				return a > e*std::sqrt(q*L.H) && b > e*std::sqrt(q*R.H);
			}
			if(!(a > e*L.c && b > e*R.c)) return false;
			if(f >= 4) { // the wave speeds of these come from the Roe average too
				const double k = std::sqrt(R.r/L.r), H = (k*R.H+L.H)/(k+1), vn = (k*R.vn+L.vn)/(k+1), vt = (k*R.vt+L.vt)/(k+1);
				if(!(sg*vn > (1+1e-3)*std::sqrt((h.g-1)*(H-0.5*(vn*vn+vt*vt))))) return false;
			}
			return true;
		};
		for(int sg = -1; sg <= 1; sg += 2) if(super(sg)) {
			gas::flux(h, (sg > 0 ? L : R).u.data(), n, g);
			same("upwind", fx, g, tol);
			hx::count("supersonic_pairs");
		}
	}
}

int main(int argc, char **argv) {
	hx::init(argc, argv);
	hx::petsc_init();
	hx::rule("A case is one flux, gas and normal. Within it every pair of states of two product lattices: density, velocity components, pressure; and density, normal Mach number (including 0 and +-1), tangential Mach number, pressure. Distinct by flux, gas, normal and state pair.");
	std::vector<Ph> hs = hx::quick() ? std::vector<Ph>{{1.4,0.5,288.15,1000,0.72},{5.0/3,2.0,288.15,1000,0.72},{1.2,0.1,288.15,1000,0.72}} : std::vector<Ph>();
	if(!hx::quick()) for(double g : {1.2,1.4,5.0/3}) for(double m : {0.05,0.5,1.0,3.0}) hs.push_back({g,m,288.15,1000,0.72});
	const auto ns = normals(hx::quick() ? 6 : 16);
	int ip = 0;
	for(auto& h : hs) {
		for(int f = 0; f < 7; f++) for(size_t in = 0; in < ns.size(); in++) {
			if(!hx::begin(hx::fmt("%s:g%d:n%d", FL[f], ip, (int)in))) continue;
			const P ph(h.g, h.M, h.T, h.Re, h.Pr);
			std::unique_ptr<const F> fl(fvens::create_const_inviscidflux<double>(FL[f], &ph));
			if(!fl) hx::internal_error("no such flux");
			const double *n = ns[in].data();
			std::vector<S> A, B;
			for(auto& u : states(h, hx::quick() ? 0 : 1)) A.push_back(mk(h, u, n));
			const double p0 = 1/(h.g*h.M*h.M);
			std::vector<double> Mn = {-3,-1,-0.4,0,0.3,1,2}, Mt = {-1,0,1.5}, R = {0.3,1,2.5}, Q = {0.4,3};
			if(!hx::quick()) { Mn = {-6,-2,-1.001,-1,-0.999,-0.4,-1e-5,0,1e-9,0.05,0.7,1,1.3,3}; Q = {0.02,1,4}; R = {0.05,1,1.3}; }
			for(double mn : Mn) for(double mt : Mt) for(double r : R) for(double q : Q) {
				const double c = std::sqrt(h.g*q*p0/r);
				B.push_back(mk(h, cons(h, r, c*(mn*n[0]-mt*n[1]), c*(mn*n[1]+mt*n[0]), q*p0), n));
			}
			for(auto *X : {&A, &B}) {
				for(auto& L : *X) {
					// equal states
					double fx[4], e[4], sc[4];
					fl->get_flux(L.u.data(), L.u.data(), n, fx);
					gas::flux(h, L.u.data(), n, e);
					scale(L, L, sc);
					for(int i = 0; i < 4; i++) if(!(std::fabs(fx[i]-e[i]) <= 2e-13*sc[i])) {
						hx::fail(std::string("consistency-")+FL[f], hx::fmt("%s n (%g,%g) u %s: component %d is %.15g, physical flux %.15g", FL[f], n[0], n[1], gas::str(L.u.data()).c_str(), i, fx[i], e[i]));
						break;
					}
					// mirror image: no mass or energy flux
					const double vx = L.u[1]-2*L.r*L.vn*n[0], vy = L.u[2]-2*L.r*L.vn*n[1];
					const St mir = {{L.u[0], vx, vy, L.u[3]}};
					for(int side = 0; side < 2; side++) {
						fl->get_flux(side ? mir.data() : L.u.data(), side ? L.u.data() : mir.data(), n, fx);
						if(!(std::fabs(fx[0]) <= 1e-12*sc[0] && std::fabs(fx[3]) <= 1e-12*sc[3]))
							hx::fail(std::string("mirror-")+FL[f], hx::fmt("%s n (%g,%g) u %s against its mirror image: mass flux %g energy flux %g", FL[f], n[0], n[1], gas::str(L.u.data()).c_str(), fx[0], fx[3]));
					}
					for(auto& R_ : *X) { pair(h, f, *fl, L, R_, n); hx::eval(); }
				}
				hx::nontrivial(X == &A);
				hx::count("state_pairs", X->size()*X->size());
			}
			hx::sample(hx::fmt("%s, gamma %g, Minf %g, normal (%g,%g)", FL[f], h.g, h.M, n[0], n[1]));
		}
		ip++;
	}
	return hx::finish_petsc();
}
