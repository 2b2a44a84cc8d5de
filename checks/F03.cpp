// F03: positivity of the first-order update, broken expansion shocks, exact contacts and shocks
#include "common/petsc_init.hpp"
#include "common/flow.hpp"
#include "common/gas.hpp"
#include "physics/aphysics_defs.hpp"
#include "spatial/anumericalflux.hpp"
#include <memory>
using namespace gas;
typedef fvens::IdealGasPhysics<double> P;
typedef fvens::InviscidFlux<double> F;
static const char *POS[4] = {"LLF","VANLEER","HLL","HLLC"};

static double speed(const Ph& h, const double *a, const double *b, const double *n) {
	const double va = gas::vn(a,n), vb = gas::vn(b,n), ca = gas::c(h,a), cb = gas::c(h,b);
	const double k = std::sqrt(b[0]/a[0]), H = (k*gas::H(h,b)+gas::H(h,a))/(k+1), vx = (k*b[1]/b[0]+a[1]/a[0])/(k+1), vy = (k*b[2]/b[0]+a[2]/a[0])/(k+1);
	const double cr = std::sqrt((h.g-1)*(H-0.5*(vx*vx+vy*vy)));
	return std::max(std::max(std::fabs(va)+ca, std::fabs(vb)+cb), std::fabs(vx*n[0]+vy*n[1])+cr);
}
static double cflOf(const std::string& f) { return f == "VANLEER" ? 0.5 : 1.0; }

/// the part of a cell's update that one face is responsible for
static void facepair(const Ph& h, const std::string& nm, const F& fl, const St& a, const St& b, const double *n) {
	double fx[4], fa[4], fb[4];
	for(double& x : fx) x = 1e300;
	fl.get_flux(a.data(), b.data(), n, fx);
	gas::flux(h, a.data(), n, fa); gas::flux(h, b.data(), n, fb);
	const double s = speed(h, a.data(), b.data(), n), k = cflOf(nm)/s;
	for(int side = 0; side < 2; side++) {
		double u[4];
		for(int i = 0; i < 4; i++) u[i] = side ? b[i] - k*(fb[i]-fx[i]) : a[i] - k*(fx[i]-fa[i]);
		const double pr = gas::p(h,u), ps = (h.g-1)*(a[3]+b[3]);
		if(!(u[0] >= -1e-13*(a[0]+b[0]))) hx::fail("positive-density-"+nm, hx::fmt("gamma %g n (%g,%g) uL %s uR %s: the %s cell's density becomes %g", h.g, n[0], n[1], gas::str(a.data()).c_str(), gas::str(b.data()).c_str(), side ? "right" : "left", u[0]));
		else if(u[0] > 1e-12*(a[0]+b[0]) && !(pr >= -1e-11*ps)) hx::fail("positive-pressure-"+nm, hx::fmt("gamma %g n (%g,%g) uL %s uR %s: the %s cell's pressure becomes %g", h.g, n[0], n[1], gas::str(a.data()).c_str(), gas::str(b.data()).c_str(), side ? "right" : "left", pr));
	}
}

/// left state of normal Mach number m > 1, its stationary normal shock's other side
static void shock(const Ph& h, double r, double q, double vt, double m, const double *n, St& a, St& b) {
	const double c = std::sqrt(h.g*q/r), v = m*c, g = h.g;
	const double r2 = r*(g+1)*m*m/((g-1)*m*m+2), q2 = q*(1+2*g/(g+1)*(m*m-1)), v2 = r*v/r2;
	a = cons(h, r, v*n[0]-vt*n[1], v*n[1]+vt*n[0], q);
	b = cons(h, r2, v2*n[0]-vt*n[1], v2*n[1]+vt*n[0], q2);
}

static void waves(const Ph& h, const std::string& nm, const F& fl, const double *n) {
	const double p0 = 1/(h.g*h.M*h.M), m_[2] = {-n[0],-n[1]};
	for(double r : {0.2,1.0,3.0}) for(double q : {0.3,1.0,5.0}) for(double vt : {-0.8,0.0,1.3}) {
		// stationary contact/shear: pressure equal, no normal velocity, density and tangential velocity jump
		if(nm == "HLLC" || nm == "AUSM" || nm == "AUSMPLUS") for(double r2 : {0.05,0.7,1.0,8.0}) for(double vt2 : {-2.0,0.0,0.4}) {
			if(nm == "AUSMPLUS" && vt2 + vt != 0) continue;
			const St a = cons(h, r, -vt*n[1], vt*n[0], q*p0), b = cons(h, r2, -vt2*n[1], vt2*n[0], q*p0);
			double fx[4];
			fl.get_flux(a.data(), b.data(), n, fx);
			const double e[4] = {0, q*p0*n[0], q*p0*n[1], 0}, c = std::max(gas::c(h,a.data()), gas::c(h,b.data())), w = c + 2;
			const double sc[4] = {(r+r2)*w, (r+r2)*w*w+q*p0, (r+r2)*w*w+q*p0, (a[3]+b[3])*w};
			for(int i = 0; i < 4; i++) if(!(std::fabs(fx[i]-e[i]) <= 1e-12*sc[i])) { hx::fail("contact-"+nm, hx::fmt("gamma %g n (%g,%g) uL %s uR %s: component %d of the flux across a stationary contact is %g, must be %g", h.g, n[0], n[1], gas::str(a.data()).c_str(), gas::str(b.data()).c_str(), i, fx[i], e[i])); break; }
			hx::eval(); hx::count("contacts");
		}
		for(double m : {1.05,1.2,1.7,2.5,6.0}) {
			St a, b;
			shock(h, r, q*p0, vt, m, n, a, b);
			double f[4], fx[4], fb[4];
			gas::flux(h, a.data(), n, f); gas::flux(h, b.data(), n, fb);
			double sc[4]; const double w = std::fabs(vt) + gas::vn(a.data(),n) + gas::c(h,b.data());
			sc[0] = b[0]*w; sc[1] = sc[2] = b[0]*w*w; sc[3] = (b[3]+gas::p(h,b.data()))*w;
			for(int i = 0; i < 4; i++) if(std::fabs(f[i]-fb[i]) > 1e-12*sc[i]) hx::internal_error("shock relations");
			// compressive: pre-shock gas upstream. Both orientations of the face.
			for(int o = 0; o < 2; o++) {
				const double tol = nm == "ROE" ? 2e-4 : 1e-11;
				if(nm == "ROE" || nm == "HLL" || nm == "HLLC") {
					if(o) { fl.get_flux(b.data(), a.data(), m_, fx); for(double& x : fx) x = -x; } else fl.get_flux(a.data(), b.data(), n, fx);
					for(int i = 0; i < 4; i++) if(!(std::fabs(fx[i]-f[i]) <= tol*sc[i])) { hx::fail("shock-"+nm, hx::fmt("gamma %g Mach %g n (%g,%g) uL %s uR %s: component %d of the flux across a stationary shock is %.12g, must be %.12g", h.g, m, n[0], n[1], gas::str(a.data()).c_str(), gas::str(b.data()).c_str(), i, fx[i], f[i])); break; }
					hx::count("shocks");
				}
				// expansion: the same states the other way round; a flux equal to the common physical flux would keep it for ever
				const double md[2] = {o ? n[0] : -n[0], o ? n[1] : -n[1]};
				// gas flows from b to a: velocity reversed
				St ar = a, br = b;
				for(int k = 1; k < 3; k++) { ar[k] = -a[k]; br[k] = -b[k]; }
				double fe[4], g[4];
				gas::flux(h, ar.data(), md, fe);
				if(o == 0) fl.get_flux(br.data(), ar.data(), md, g); else { fl.get_flux(ar.data(), br.data(), md, g); }
				double dis = 0, jmp = 0;
				const double sgn = o == 0 ? 1 : -1;
				for(int i = 0; i < 4; i++) { const double ju = sgn*(ar[i]-br[i]); const double s2 = sc[i]*sc[i]; dis += (g[i]-fe[i])*ju/s2; jmp += ju*ju/s2; }
				if(!(dis < -1e-6*jmp*gas::c(h,a.data()))) hx::fail("expansion-shock-"+nm, hx::fmt("gamma %g Mach %g n (%g,%g) uL %s uR %s: a stationary expansion shock is kept (dissipation %g of jump %g)", h.g, m, md[0], md[1], gas::str(br.data()).c_str(), gas::str(ar.data()).c_str(), dis, jmp));
				hx::eval();
			}
		}
	}
}

/// whole cells: the real first-order residual on a mesh, states from a small extreme set in every combination
static void meshes(const mg::RM& m, const Ph& h, const std::string& nm) {
	using namespace fvens;
	const mg::Ref r(m);
	const mg::Mesh um = mg::prepare(m);
	const fl::Phys ph = {h.g, h.M, h.T, h.Re, h.Pr, 0.3};
	std::vector<fl::BC> bcs;
	std::set<int> tg; for(auto& t : m.bt) tg.insert(t[0]);
	int k = 0;
	for(int t : tg) bcs.push_back({t, k++ % 2 ? FARFIELD_BC : SLIP_WALL_BC, {}});
	std::map<int,BCType> bt; for(auto& b : bcs) bt[b.tag] = b.type;
	std::unique_ptr<const Spatial<double,4>> sp(create_const_flowSpatialDiscretization(&um, fl::pconf(ph, false, false, bcs), fl::nconf(nm, "NONE", "NONE", false, "LLF")));
	const double p0 = 1/(h.g*h.M*h.M), c0 = std::sqrt(h.g*p0);
	const std::vector<St> X = {cons(h,1,0,0,p0), cons(h,0.01,3*c0,-2*c0,0.02*p0), cons(h,5,-2*c0,c0,30*p0), cons(h,1,-4*c0,0,0.001*p0), cons(h,0.3,0.2*c0,5*c0,2*p0)};
	const int ne = (int)m.e.size();
	const St inf = fl::freestream(ph);
	const long N = mg::ipow((long)X.size(), ne), cap = hx::quick() ? 3125 : 15625, st = std::max(1l, N/cap);
	for(long q = 0; q < N; q += st) {
		fl::V u; long z = q;
		for(int i = 0; i < ne; i++) { const St& s = X[z % X.size()]; z /= (long)X.size(); u.insert(u.end(), s.begin(), s.end()); }
		const fl::V res = fl::residual<4>(um, *sp, u);
		for(int i = 0; i < ne; i++) {
			double sum = 0;
			for(int j = 0; j < um.gnfael(i); j++) {
				const int f = um.gelemface(i,j);
				const auto n = um.gnormal(f);
				const double nn[2] = {n[0],n[1]};
				St g;
				if(f < um.gnbface()) {
					if(bt[um.gbtags(f,0)] == FARFIELD_BC) g = inf;
					else { const double v = u[4*i+1]*n[0]+u[4*i+2]*n[1]; g = {{u[4*i], u[4*i+1]-2*v*n[0], u[4*i+2]-2*v*n[1], u[4*i+3]}}; }
				} else { const int e = um.gintfac(f,0) == i ? um.gintfac(f,1) : um.gintfac(f,0); for(int k = 0; k < 4; k++) g[k] = u[4*e+k]; }
				const double s1 = speed(h, &u[4*i], g.data(), nn);
				sum += s1*um.gfacemetric(f,2);
			}
			double v[4];
			for(int k = 0; k < 4; k++) v[k] = u[4*i+k] + 0.98*cflOf(nm)/sum*res[4*i+k];
			const double pr = gas::p(h,v);
			if(!(v[0] > 0 && pr > 0)) hx::fail("update-positive-"+nm, hx::fmt("%s states #%ld cell %d: density %g pressure %g after one first-order explicit step", m.name.c_str(), q, i, v[0], pr));
		}
		hx::eval();
	}
	hx::nontrivial(hx::fnv(nm) ^ hx::fnv(m.name));
}

int main(int argc, char **argv) {
	hx::init(argc, argv);
	hx::petsc_init();
	hx::rule("A case is one flux, gas and normal: every pair of extreme states of a product lattice (positivity of each face's share of a first-order step of both cells), every stationary contact and normal shock of a lattice, both orientations; or one small mesh, flux and gas: every assignment of extreme states to its cells (fixed stride beyond a cap), one first-order explicit step through the real residual. Distinct by flux, gas, normal or mesh.");
	std::vector<Ph> hs;
	for(double g : (hx::quick() ? std::vector<double>{1.2,1.4,5.0/3} : std::vector<double>{1.05,1.2,1.4,5.0/3})) for(double m : {0.3,2.0}) hs.push_back({g,m,288.15,1000,0.72});
	const auto ns = normals(hx::quick() ? 4 : 16);
	int ip = 0;
	for(auto& h : hs) {
		for(const char *f : {"LLF","VANLEER","AUSM","AUSMPLUS","ROE","HLL","HLLC"}) for(size_t in = 0; in < ns.size(); in++) {
			if(!hx::begin(hx::fmt("%s:g%d:n%d", f, ip, (int)in))) continue;
			const P ph(h.g, h.M, h.T, h.Re, h.Pr);
			std::unique_ptr<const F> fl(fvens::create_const_inviscidflux<double>(f, &ph));
			const double *n = ns[in].data(), p0 = 1/(h.g*h.M*h.M);
			if(std::find(POS, POS+4, std::string(f)) != POS+4) {
				std::vector<double> Mn = {-8,-2,-1,-0.3,0,0.5,1,3}, Mt = {0,1.5}, R = {1e-3,1,50}, Q = {1e-4,1,100};
				if(!hx::quick()) { Mn = {-20,-4,-1.5,-1,-0.99,-0.2,0,0.05,0.7,1,1.2,2,10}; Mt = {-3,0,0.6}; R = {1e-4,0.1,1,7,300}; }
				std::vector<St> X;
				for(double mn : Mn) for(double mt : Mt) for(double r : R) for(double q : Q) {
					const double c = std::sqrt(h.g*q*p0/r);
					X.push_back(cons(h, r, c*(mn*n[0]-mt*n[1]), c*(mn*n[1]+mt*n[0]), q*p0));
				}
				for(auto& a : X) for(auto& b : X) { facepair(h, f, *fl, a, b, n); hx::eval(); }
				hx::count("state_pairs", X.size()*X.size());
				hx::nontrivial(1);
			}
			waves(h, f, *fl, n);
			hx::nontrivial(2);
			hx::sample(hx::fmt("%s, gamma %g, Minf %g, normal (%g,%g)", f, h.g, h.M, n[0], n[1]));
		}
		ip++;
	}
	ip = 0;
	for(auto& h : hs) {
		for(const char *f : POS) {
			std::vector<mg::RM> ms = {mg::single(3), mg::single(4), mg::fan(3), mg::fan(4), mg::grid(2,1,0,mg::UNIFORM), mg::grid(2,1,5,mg::DISTORTED), mg::grid(1,2,7,mg::STRETCHED), mg::grid(2,2,0,mg::ROTATED), mg::grid(2,2,40,mg::DISTORTED), mg::ring(3,1,0), mg::lshape(14)};
			for(auto& m : ms) if(hx::begin(hx::fmt("mesh:%s:%s:g%d", m.name.c_str(), f, ip))) meshes(m, h, f);
		}
		ip++;
	}
	return hx::finish_petsc();
}
