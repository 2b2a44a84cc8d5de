// B01/B02: boundary conditions on a product lattice of interior states, normals, gases and wall data.
// Compiled once; the property is chosen by -DCHECK_JAC (see B02.cpp).
#include "common/petsc_init.hpp"
#include "common/gas.hpp"
#include "common/numdiff.hpp"
#include "aconstants.hpp"
#include "physics/aphysics.hpp"
#include "physics/aphysics_defs.hpp"
#include "spatial/abc.hpp"
#include "spatial/abctypemap.hpp"
#include <memory>
using namespace gas;
typedef fvens::IdealGasPhysics<double> P;
typedef fvens::FlowBC<double> BC;
#ifndef CHECK_JAC
#define CHECK_JAC 0
#endif
enum Kind { SLIP, FAR, INOUT, EXTRAP, ADIA, ISO, ADIAGEN, INFLOW, NKIND };
static const char *KN[NKIND] = {"slipwall","farfield","inflowoutflow","extrapolation","adiabaticwall","isothermalwall","adiabaticwall-general","subsonic_inflow"};

/// What the statement promises for the ghost state of interior state u
static void reference(const Ph& h, Kind k, const double *u, const double *n, const double *far, const std::vector<double>& v, double *g) {
	const double vx = u[1]/u[0], vy = u[2]/u[0], vn = vx*n[0]+vy*n[1];
	double wx, wy, T;
	switch(k) {
	case SLIP: g[0] = u[0]; g[1] = u[0]*(vx-2*vn*n[0]); g[2] = u[0]*(vy-2*vn*n[1]); g[3] = u[3]; return;
	case FAR: for(int i = 0; i < 4; i++) g[i] = far[i]; return;
	case EXTRAP: for(int i = 0; i < 4; i++) g[i] = u[i]; return;
	case INOUT:
		if(vn <= 0) for(int i = 0; i < 4; i++) g[i] = far[i];
		else if(vn < gas::c(h,u)) { for(int i = 0; i < 3; i++) g[i] = u[i]; g[3] = 1/(h.g*h.M*h.M)/(h.g-1) + 0.5*u[0]*(vx*vx+vy*vy); }
		else for(int i = 0; i < 4; i++) g[i] = u[i];
		return;
	case ADIA: case ISO: wx = v[0]*n[1]; wy = -v[0]*n[0]; break;
	default: wx = v[0]; wy = v[1];
	}
	// no-slip walls: face averages of velocity and temperature; no density jump
	T = gas::T(h,u);
	const double tg = k == ISO ? 2*v[1]-T : T, gx = 2*wx-vx, gy = 2*wy-vy;
	g[0] = u[0]; g[1] = u[0]*gx; g[2] = u[0]*gy; g[3] = u[0]*(tg/(h.g*h.M*h.M*(h.g-1)) + 0.5*(gx*gx+gy*gy));
}

/// subsonic inflow: total pressure v[0] and total temperature v[1] from the settings, straight into the domain; Mach number of
/// the interior when that flows straight into the domain too
static void inflow(const Ph& h, const BC& bc, const double *u, const double *n, const std::vector<double>& v) {
	const double c = gas::c(h,u), vn = gas::vn(u,n), vt = (u[1]*-n[1]+u[2]*n[0])/u[0];
	if(!(vn < -1e-3*c && std::hypot(vn,vt) < 0.99*c)) { hx::count("inflow_states_outside_the_statement"); return; }
	double g[4] = {1e9,1e9,1e9,1e9};
	bc.computeGhostState(u, n, g);
	auto w = [&]() { return hx::fmt("subsonic_inflow gamma %g Minf %g Tinf %g n (%.9g,%.9g) total pressure %g temperature %g interior %s: ghost %s", h.g, h.M, h.T, n[0], n[1], v[0], v[1], gas::str(u).c_str(), gas::str(g).c_str()); };
	hx::count("inflow_states");
	if(!(g[0] > 0 && gas::p(h,g) > 0 && std::isfinite(g[1]) && std::isfinite(g[2]) && std::isfinite(g[3]))) { hx::fail("admissible-subsonic_inflow", w()+" is inadmissible"); return; }
	const double gc = gas::c(h,g), gn = gas::vn(g,n), gt = (g[1]*-n[1]+g[2]*n[0])/g[0], f = 1+0.5*(h.g-1)*(gn*gn+gt*gt)/(gc*gc);
	if(!(std::fabs(gas::T(h,g)*f-v[1]) <= 1e-11*v[1])) hx::fail("ghost-subsonic_inflow", w()+hx::fmt(" has total temperature %.12g", gas::T(h,g)*f));
	if(!(std::fabs(gas::p(h,g)*std::pow(f, h.g/(h.g-1))-v[0]) <= 1e-11*v[0])) hx::fail("ghost-subsonic_inflow", w()+hx::fmt(" has total pressure %.12g", gas::p(h,g)*std::pow(f, h.g/(h.g-1))));
	if(!(std::fabs(gt) <= 1e-12*gc)) hx::fail("ghost-subsonic_inflow", w()+hx::fmt(" moves along the boundary with velocity %g", gt));
	// the wave speeds are roots of a quadratic with the Mach number in its discriminant, hence the weaker tolerance
	if(std::fabs(vt) <= 1e-14*c && !(std::fabs(gn/gc-vn/c) <= 1e-9)) hx::fail("ghost-subsonic_inflow", w()+hx::fmt(" has outward normal Mach number %.12g, the interior %.12g", gn/gc, vn/c));
}

static void one(const Ph& h, Kind k, const BC& bc, const St& s, const double *n, const double *far, const std::vector<double>& v) {
	const double *u = s.data();
	if(k == INFLOW) { inflow(h, bc, u, n, v); return; }
	const double Tw = k == ISO ? v[1] : 0;
	const double c = gas::c(h,u), vn = gas::vn(u,n), vel = std::hypot(u[1],u[2])/u[0] + (v.empty() ? 0 : std::fabs(v[0]) + std::fabs(v.back()));
	if(k == ISO && 2*Tw <= 1.02*gas::T(h,u)) return;                       // unreachable wall temperature
	auto w = [&]() { return hx::fmt("%s gamma %g Minf %g n (%.9g,%.9g) values (%g,%g) interior %s", KN[k], h.g, h.M, n[0], n[1], v.empty()?0:v[0], v.empty()?0:v.back(), gas::str(u).c_str()); };
	const double fs[4] = {u[0]+far[0], u[0]*(vel+c)+std::fabs(far[1])+std::fabs(far[2]), u[0]*(vel+c)+std::fabs(far[1])+std::fabs(far[2]), u[3]+far[3]+u[0]*vel*vel+u[0]*Tw/(h.g*h.M*h.M*(h.g-1))};
	double g[4] = {1e9,1e9,1e9,1e9}, e[4];
	bc.computeGhostState(u, n, g);
	if(!CHECK_JAC) {
		// at a tie of the inflow/outflow condition (stagnant or sonic to rounding) either side's state is the documented one
		reference(h, k, u, n, far, v, e);
		auto bad = [&]() { for(int i = 0; i < 4; i++) if(!(std::fabs(g[i]-e[i]) <= 1e-13*fs[i])) return i; return -1; };
		int b = bad();
		if(b >= 0 && k == INOUT && std::fabs(vn-c) <= 1e-12*c) {
			for(double f : {1-1e-11, 1+1e-11}) {
				double q[4] = {u[0], u[1], u[2], u[3]};
				const double p = gas::p(h,u);
				q[3] += (f*f-1)*p/(h.g-1);                                      // sound speed scaled by f
				reference(h, k, q, n, far, v, e);
				if(b >= 0) { b = -1; for(int i = 0; i < 4; i++) if(!(std::fabs(g[i]-e[i]) <= 1e-9*fs[i])) b = i; }
			}
		}
		if(b >= 0 && k == INOUT && std::fabs(vn) <= 1e-13*(c+vel)) {
			for(double f : {-1e-12, 1e-12}) {
				double q[4] = {u[0], u[1]+f*c*u[0]*n[0], u[2]+f*c*u[0]*n[1], u[3]};
				reference(h, k, q, n, far, v, e);
				if(b >= 0) { b = -1; for(int i = 0; i < 4; i++) if(!(std::fabs(g[i]-e[i]) <= 1e-9*fs[i])) b = i; }
			}
		}
		if(b >= 0) hx::fail(std::string("ghost-")+KN[k], w()+hx::fmt(": ghost %s, must be %s", gas::str(g).c_str(), gas::str(e).c_str()));
		if(!(g[0] > 0 && gas::p(h,g) > 0 && std::isfinite(g[3]))) hx::fail(std::string("admissible-")+KN[k], w()+": inadmissible ghost "+gas::str(g));
		return;
	}
	double gj[4] = {1e9,1e9,1e9,1e9}, J[16];
	for(double& x : J) x = 1e9;
	bc.computeGhostStateAndJacobian(u, n, gj, J);
	for(int i = 0; i < 4; i++) if(!(std::fabs(g[i]-gj[i]) <= 1e-13*fs[i])) { hx::fail(std::string("ghosts-differ-")+KN[k], w()+": with Jacobian "+gas::str(gj)+", without "+gas::str(g)); break; }
	for(int q = 0; q < 4; q++) {
		const double xs = q == 0 ? u[0] : q < 3 ? u[0]*(vel+c) : u[3];
		// differentiable neighbourhood only: the inflow/outflow condition switches at vn = 0 and vn = c
		double d[4], tol;
		auto f = [&](double t, double *o) { double x[4] = {u[0],u[1],u[2],u[3]}; x[q] += t; bc.computeGhostState(x, n, o); };
		if(!nd::derivative<4>(f, xs, fs, d, tol)) { hx::count("columns_skipped_nondifferentiable"); continue; }
		hx::count("columns_compared");
		for(int i = 0; i < 4; i++) if(!(std::fabs(J[4*i+q]-d[i]) <= tol*fs[i]/xs)) hx::fail(std::string("jacobian-")+KN[k], w()+hx::fmt(": d ghost[%d]/d u[%d] is %.10g, difference quotient %.10g", i, q, J[4*i+q], d[i]));
	}
}

int main(int argc, char **argv) {
	hx::init(argc, argv);
	hx::petsc_init();
	hx::rule("A case is one boundary condition with its values, one gas and one free-stream angle. Within it every interior state of a density/velocity/pressure lattice and of a density/normal Mach/tangential Mach/pressure lattice (including stagnant and exactly sonic) with every normal. Distinct by all of these.");
	std::vector<Ph> hs;
	if(hx::quick()) hs = {{1.4,0.5,288.15,1000,0.72},{5.0/3,1.0,200,1000,0.72},{1.2,0.1,288.15,1000,0.72}};
	else for(double g : {1.2,1.4,5.0/3}) for(double m : {0.05,0.5,1.0,3.0}) hs.push_back({g,m,288.15,1000,0.72});
	const auto ns = normals(hx::quick() ? 8 : 24);
	std::vector<std::pair<Kind,std::vector<double>>> bcs = {{SLIP,{}},{FAR,{}},{INOUT,{}},{EXTRAP,{}}};
	for(double tv : {0.0, 0.7, -2.0}) { bcs.push_back({ADIA,{tv}}); for(double tw : {0.9, 1.5, 4.0}) bcs.push_back({ISO,{tv,tw}}); }
	// subsonic inflow: total pressure relative to the free-stream pressure; it offers no Jacobian
	if(!CHECK_JAC) for(double pt : {0.7, 1.3, 4.0}) for(double tt : {0.8, 1.25}) bcs.push_back({INFLOW,{pt,tt}});
	bcs.push_back({ADIAGEN,{0,0}}); bcs.push_back({ADIAGEN,{0.6,-0.9}}); bcs.push_back({ADIAGEN,{-2.5,0.3}});
	int ih = 0;
	for(auto& h : hs) {
		int ib = 0;
		for(auto& b : bcs) {
			for(double aoa : {0.0, 0.7}) {
				if(aoa != 0 && b.first != FAR && b.first != INOUT) continue;
				if(!hx::begin(hx::fmt("%s:g%d:b%d:a%g", KN[b.first], ih, ib, aoa))) continue;
				const P ph(h.g, h.M, h.T, h.Re, h.Pr);
				const auto far_ = cons(h, 1, std::cos(aoa), std::sin(aoa), 1/(h.g*h.M*h.M));
				std::unique_ptr<const BC> bc;
				if(b.first == ADIAGEN) bc.reset(new fvens::Adiabaticwall<double>(7, ph, {{b.second[0], b.second[1]}}));
				else {
					fvens::FlowBCConfig cf; cf.bc_tag = 7; cf.bc_type = fvens::bcTypeMap.right.at(KN[b.first]); cf.bc_vals = b.second;
					if(b.first == ISO || b.first == INFLOW) cf.bc_vals[1] *= h.T;   // the configuration holds kelvin
					if(b.first == INFLOW) cf.bc_vals[0] *= 1/(h.g*h.M*h.M);
					auto m = fvens::create_const_flowBCs<double>({cf}, ph, far_);
					if(m.size() != 1 || !m.count(7)) { hx::fail("factory", "no boundary condition under the requested marker"); continue; }
					bc.reset(m[7]);
					HX_CHECK(bc->bctag() == 7, "factory", "boundary condition reports marker %d", bc->bctag());
				}
				const double p0 = 1/(h.g*h.M*h.M);
				std::vector<double> vals = b.second;
				if(b.first == INFLOW) vals[0] *= p0;
				for(size_t in = 0; in < ns.size(); in++) {
					const double *n = ns[in].data();
					std::vector<St> A = states(h, hx::quick() ? 0 : 1);
					std::vector<double> Mn = {-2,-1,-0.3,0,1e-6,0.4,1,1.001,2.5}, Mt = {-0.8,0,1.2}, R = {0.3,1,2.5}, Q = {0.4,1,3};
					if(!hx::quick()) { Mn = {-4,-1,-0.6,-0.01,-1e-8,0,1e-8,0.02,0.3,0.8,0.999,1,1.001,1.5,4}; Mt = {-2,-0.3,0,0.9}; R = {0.05,0.6,1,4}; Q = {0.05,0.7,1,5}; }
					for(double mn : Mn) for(double mt : Mt) for(double r : R) for(double q : Q) {
						const double c = std::sqrt(h.g*q*p0/r);
						A.push_back(cons(h, r, c*(mn*n[0]-mt*n[1]), c*(mn*n[1]+mt*n[0]), q*p0));
					}
					for(auto& u : A) { one(h, b.first, *bc, u, n, far_.data(), vals); hx::eval(); }
					hx::nontrivial(in);
					hx::count("states", A.size());
				}
				hx::sample(hx::fmt("%s values (%g,%g) gamma %g Minf %g aoa %g", KN[b.first], b.second.empty()?0:b.second[0], b.second.empty()?0:b.second.back(), h.g, h.M, aoa));
			}
			ib++;
		}
		ih++;
	}
	return hx::finish_petsc();
}
