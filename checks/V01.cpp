// V01: viscous flux, its Jacobian and the primitive-2 states/gradients it is built from
#include "common/petsc_init.hpp"
#include "common/gas.hpp"
#include "aconstants.hpp"
#include "physics/aphysics.hpp"
#include "physics/aphysics_defs.hpp"
#include "physics/viscousphysics.hpp"
using namespace gas;
typedef fvens::IdealGasPhysics<double> P;
typedef Dual<8> D;

static double hash(uint64_t a, uint64_t b) { uint64_t x = a*0x9E3779B97F4A7C15ull + b*0xBF58476D1CE4E5B9ull + 12345; x ^= x>>30; x *= 0xBF58476D1CE4E5B9ull; x ^= x>>27; x *= 0x94D049BB133111EBull; x ^= x>>31; return (x>>11)*(1.0/9007199254740992.0); }

template <typename S> static S visc(const Ph& h, bool cv, const S *ul, const S *ur);
template <> double visc<double>(const Ph& h, bool cv, const double *ul, const double *ur) { return cv ? 1/h.Re : 0.5*(gas::mu(h,ul)+gas::mu(h,ur)); }

/// reference flux for given viscosity
template <typename S> static void refflux(const Ph& h, const S& mu, const S g[2][4], const S *ul, const S *ur, const double *n, S *f) {
	const S k = mu*(1/(h.M*h.M*(h.g-1)*h.Pr));
	const S div = g[0][1]+g[1][2];
	S t[2][2];
	for(int i = 0; i < 2; i++) for(int j = 0; j < 2; j++) {
		t[i][j] = mu*(g[i][j+1]+g[j][i+1]);
		if(i == j) t[i][j] = t[i][j] - mu*div*(2.0/3);
	}
	const S tx = t[0][0]*n[0]+t[0][1]*n[1], ty = t[1][0]*n[0]+t[1][1]*n[1];
	f[0] = S(0.0);
	f[1] = -tx; f[2] = -ty;
	f[3] = -(tx*(ul[1]/ul[0]+ur[1]/ur[0])*0.5 + ty*(ul[2]/ul[0]+ur[2]/ur[0])*0.5 + k*(g[0][3]*n[0]+g[1][3]*n[1]));
}

template <bool CV> static void one(const Ph& h, const P& ph, const St& L, const St& R, const double *n, const double G[2][4], uint64_t seed) {
	auto w = [&]() { return hx::fmt("%s viscosity gamma %g Re %g n (%g,%g) uL %s uR %s grad [%g %g %g %g | %g %g %g %g]", CV ? "constant" : "Sutherland", h.g, h.Re, n[0], n[1], gas::str(L.data()).c_str(), gas::str(R.data()).c_str(), G[0][0],G[0][1],G[0][2],G[0][3],G[1][0],G[1][1],G[1][2],G[1][3]); };
	const double *ul = L.data(), *ur = R.data();
	const double mu = visc(h, CV, ul, ur), k = mu/(h.M*h.M*(h.g-1)*h.Pr);
	double gm = 0, gt = 0;
	for(int i = 0; i < 2; i++) { for(int j = 1; j < 3; j++) gm = std::max(gm, std::fabs(G[i][j])); gt = std::max(gt, std::fabs(G[i][3])); }
	const double vv = std::hypot(ul[1],ul[2])/ul[0]+std::hypot(ur[1],ur[2])/ur[0];
	const double sc[4] = {1e-300, mu*gm, mu*gm, mu*gm*vv+k*gt};
	double f[4] = {1e9,1e9,1e9,1e9}, g[4] = {1e9,1e9,1e9,1e9}, e[4];
	fvens::computeViscousFlux<double,2,4,CV>(ph, n, G, ul, ur, f);
	fvens::computeViscousFlux<double,2,4,CV>(ph, n, G, ur, ul, g);
	refflux(h, mu, G, ul, ur, n, e);
	for(int i = 0; i < 4; i++) {
		if(!(std::fabs(f[i]-e[i]) <= 1e-11*sc[i])) { hx::fail("flux", w()+hx::fmt(": component %d is %.14g, must be %.14g", i, f[i], e[i])); break; }
		if(!(std::fabs(f[i]-g[i]) <= 1e-12*sc[i])) { hx::fail("swap", w()+hx::fmt(": component %d is %.14g, with states swapped %.14g", i, f[i], g[i])); break; }
	}
	// Jacobian: the face gradient depends on both states through arbitrary derivative arrays
	double dl[2][4][4], dr[2][4][4], jl[16], jr[16], bl[16], br[16];
	for(int i = 0; i < 2; i++) for(int j = 0; j < 4; j++) for(int q = 0; q < 4; q++) { dl[i][j][q] = 2*hash(seed, 100+16*i+4*j+q)-1; dr[i][j][q] = 2*hash(seed, 200+16*i+4*j+q)-1; }
	for(int i = 0; i < 16; i++) { jl[i] = bl[i] = hash(seed, 300+i); jr[i] = br[i] = hash(seed, 400+i); }
	fvens::computeViscousFluxJacobian<double,2,4,CV>(ph, n, ul, ur, G, dl, dr, jl, jr);
	D a[4], b[4], gd[2][4];
	for(int i = 0; i < 4; i++) { a[i] = D::var(L[i], i); b[i] = D::var(R[i], 4+i); }
	for(int i = 0; i < 2; i++) for(int j = 0; j < 4; j++) { gd[i][j] = D(G[i][j]); for(int q = 0; q < 4; q++) { gd[i][j].d[q] = dl[i][j][q]; gd[i][j].d[4+q] = dr[i][j][q]; } }
	auto ref = [&](bool known, double *l, double *r) {
		D md(mu);
		if(!CV) {
			if(!known) md = (gas::mu(h,a)+gas::mu(h,b))*0.5;
			else {
				Dual<4> x[4], y[4];
				for(int i = 0; i < 4; i++) { x[i] = Dual<4>::var(L[i], i); y[i] = Dual<4>::var(R[i], i); }
				const Dual<4> ml = muKnown(h, gas::T(h,x)), mr = muKnown(h, gas::T(h,y));
				for(int i = 0; i < 4; i++) { md.d[i] = 0.5*ml.d[i]; md.d[4+i] = 0.5*mr.d[i]; }
			}
		}
		D fd[4];
		refflux(h, md, gd, a, b, n, fd);
		for(int i = 0; i < 4; i++) for(int q = 0; q < 4; q++) { l[4*i+q] = -fd[i].d[q]; r[4*i+q] = fd[i].d[4+q]; }
	};
	auto cmp = [&](const double *l, const double *r, std::string *msg) {
		double s = 0;
		for(int i = 0; i < 16; i++) s = std::max({s, std::fabs(l[i]), std::fabs(r[i])});
		// rows differ in magnitude: judge each row on its own scale plus rounding of what the block held
		for(int i = 0; i < 4; i++) {
			double rs = 0;
			for(int q = 0; q < 4; q++) rs = std::max({rs, std::fabs(l[4*i+q]), std::fabs(r[4*i+q])});
			for(int q = 0; q < 4; q++) for(int side = 0; side < 2; side++) {
				const double got = side ? jr[4*i+q]-br[4*i+q] : jl[4*i+q]-bl[4*i+q], ex = side ? r[4*i+q] : l[4*i+q];
				if(!(std::fabs(got-ex) <= 1e-9*rs + 1e-15)) { if(msg) *msg = hx::fmt(": entry (%d,%d) of the %s block is %.12g, must be %.12g", i, q, side ? "right" : "left", got, ex); return false; }
			}
		}
		return true;
	};
	double l[16], r[16];
	std::string msg;
	ref(false, l, r);
	if(!cmp(l, r, &msg)) {
		double l2[16], r2[16];
		ref(true, l2, r2);
		if(!CV && cmp(l2, r2, nullptr)) hx::fail("viscjac-sutherland-power", w()+msg);
		else hx::fail(CV ? "jacobian-const" : "jacobian-sutherland", w()+msg);
	}
}

template <bool O2> static void prim2(const Ph& h, const P& ph, const St& L, const St& R, uint64_t seed) {
	double gl[8], gr[8], tl[4], tr[4], ol[8], orr[8];
	for(int i = 0; i < 8; i++) { gl[i] = 2*hash(seed,i)-1; gr[i] = 2*hash(seed,20+i)-1; ol[i] = orr[i] = 777; }
	for(int alias = 0; alias < 2; alias++) {
		double cl[8], cr[8];
		memcpy(cl, gl, sizeof gl); memcpy(cr, gr, sizeof gr);
		fvens::getPrimitive2StatesAndGradients<double,2,O2>(ph, L.data(), R.data(), cl, cr, tl, tr, alias ? cl : ol, alias ? cr : orr);
		for(int side = 0; side < 2; side++) {
			const double *u = side ? R.data() : L.data(), *t = side ? tr : tl, *g = side ? gr : gl, *o = alias ? (side ? cr : cl) : (side ? orr : ol);
			const double T = gas::T(h,u), p = gas::p(h,u), e[4] = {u[0], u[1]/u[0], u[2]/u[0], T};
			const double es = h.g*h.M*h.M*(h.g-1)*std::fabs(u[3])/u[0];
			for(int i = 0; i < 4; i++) HX_CHECK(std::fabs(t[i]-e[i]) <= 1e-12*(std::fabs(e[i]) + (i == 3 ? es : 0)), "primitive2-state", "state %s component %d is %.14g, must be %.14g", gas::str(u).c_str(), i, t[i], e[i]);
			if(O2) for(int d = 0; d < 2; d++) for(int i = 0; i < 4; i++) {
				const double *q = g+4*d;
				// gradients given are of (rho,u,v,p); T = gamma M^2 p/rho
				const double ex = i < 3 ? q[i] : h.g*h.M*h.M*(q[3]/u[0] - p*q[0]/(u[0]*u[0]));
				const double s = i < 3 ? std::fabs(q[i]) : h.g*h.M*h.M*(std::fabs(q[3])/u[0] + ((h.g-1)*std::fabs(u[3])+p)*std::fabs(q[0])/(u[0]*u[0]));
				HX_CHECK(std::fabs(o[4*d+i]-ex) <= 1e-12*s, "primitive2-gradient", "state %s direction %d component %d is %.14g, must be %.14g", gas::str(u).c_str(), d, i, o[4*d+i], ex);
			}
		}
	}
}

int main(int argc, char **argv) {
	hx::init(argc, argv);
	hx::petsc_init();
	hx::rule("A case is one gas, viscosity law and normal. Within it every pair of lattice states with every face gradient of a list (the eight unit gradients, zero, uniform velocity with temperature gradient and general ones); flux, swapped flux and both 4x4 Jacobian blocks compared with the exactly differentiated stress law. Distinct by all of these.");
	hx::assume("where the tree's recorded defect in the derivative of Sutherland's viscosity is what makes a Jacobian differ, that (and only that) value is accepted as the known finding");
	std::vector<Ph> hs;
	if(hx::quick()) hs = {{1.4,0.5,288.15,1000,0.72},{5.0/3,2.0,110,50,1.0}};
	else for(double g : {1.2,1.4,5.0/3}) for(double m : {0.1,0.5,2.0}) for(double t : {110.0,288.15,600.0}) hs.push_back({g,m,t,g<1.3?50.0:5000.0,m<0.3?1.0:0.72});
	const auto ns = normals(hx::quick() ? 4 : 8);
	int ih = 0;
	for(auto& h : hs) {
		const P ph(h.g, h.M, h.T, h.Re, h.Pr);
		for(size_t in = 0; in < ns.size(); in++) for(int cv = 0; cv < 2; cv++) {
			if(!hx::begin(hx::fmt("%s:g%d:n%d", cv ? "const" : "suth", ih, (int)in))) continue;
			const double *n = ns[in].data();
			double Gs[14][2][4] = {};
			int ng = 1;                                          // first: zero gradient
			for(int i = 0; i < 2; i++) for(int j = 0; j < 4; j++) Gs[ng++][i][j] = 1;
			for(int q = 0; q < (hx::quick() ? 2 : 5); q++, ng++) for(int i = 0; i < 2; i++) for(int j = 0; j < 4; j++) Gs[ng][i][j] = 4*hash(1000+q, 4*i+j)-2;
			const auto A = states(h, 0);
			for(size_t i = 0; i < A.size(); i++) for(size_t j = 0; j < A.size(); j++) {
				for(int g = 0; g < ng; g++) {
					if(hx::quick() && (i+j+g)%3) continue;
					if(cv) one<true>(h, ph, A[i], A[j], n, Gs[g], i*977+j); else one<false>(h, ph, A[i], A[j], n, Gs[g], i*977+j);
					hx::eval();
				}
				prim2<true>(h, ph, A[i], A[j], i*31+j); prim2<false>(h, ph, A[i], A[j], i*31+j);
			}
			hx::nontrivial();
			hx::count("state_pairs", A.size()*A.size());
			hx::sample(hx::fmt("%s viscosity gamma %g Minf %g Tinf %g Re %g Pr %g normal (%g,%g)", cv ? "constant" : "Sutherland", h.g, h.M, h.T, h.Re, h.Pr, n[0], n[1]));
		}
		ih++;
	}
	return hx::finish_petsc();
}
