// N01: CFL control on every residual history, relaxation factors on lattices of states and updates
#include "common/petsc_init.hpp"
#include "common/stub.hpp"
#include "common/gas.hpp"
using namespace sb;
using namespace mg;

struct Cfl { double lo, hi; };

template <int nv> static void history(const Mesh& m, const V& r, Cfl cf, bool implicit, Implicit<nv>& imp, const NonlinearUpdate<nv>& upd, double omega, const std::string& what) {
	const int ne = m.gnelem(), n = (int)r.size();
	Stub<nv> s(&m);
	double W = 0; for(int i = 0; i < ne; i++) W += m.garea(i);
	const double unit = 1/std::sqrt(W);
	s.script = [&](int k, const V&, V& res, V& dt) {
		for(int i = 0; i < ne; i++) { for(int v = 0; v < nv; v++) res[i*nv+v] = (v+1 == nv ? 1 : 0.5*(v+1))*r[std::min(k,n)-1]*unit; dt[i] = 0.2*(i+1); }
	};
	const V u0(ne*nv, 1.0);
	const SteadySolverConfig c = conf(cf.lo, cf.hi, 1e-200, n, true);
	const Run R = run<nv>(m, s, c, u0, implicit ? &imp : nullptr, &upd);
	hx::eval();
	if((int)R.td.convhis.size() != n) { hx::fail("history", hx::fmt("%s: %zu entries", what.c_str(), R.td.convhis.size())); return; }
	V cfl(n); for(int k = 0; k < n; k++) cfl[k] = R.td.convhis[k].cfl;
	if(implicit) {
		// the CFL really used: Jacobian is zero, so du = residual*CFL*dt/area; relaxation omega
		for(int k = 0; k < n; k++) {
			const V& a = s.states[k]; const V& b = k+1 < n ? s.states[k+1] : R.u;
			V res(ne*nv), dt(ne); s.script(k+1, a, res, dt);
			double used = 0; for(int i = 0; i < ne*nv; i++) { const double x = (b[i]-a[i])/omega*m.garea(i/nv)/dt[i/nv]/res[i];
				const double acc = 1e-9 + 4e-16*std::fabs(a[i])/std::fabs(b[i]-a[i]+1e-300);
				if(acc < 1e-3) { HX_CHECK(std::fabs(x-cfl[k]) <= (acc+1e-6)*cfl[k], "cfl-used", "%s step %d entry %d: the step used CFL %.9g, the history says %.9g", what.c_str(), k+1, i, x, cfl[k]); if(acc < 1e-7) used = x; }
			}
			if(used > 0) cfl[k] = used;
		}
	}
	else for(int k = 0; k < n; k++) {
		const V& a = s.states[k]; const V& b = k+1 < n ? s.states[k+1] : R.u;
		V res(ne*nv), dt(ne); s.script(k+1, a, res, dt);
		for(int i = 0; i < ne*nv; i++) { const double d = cf.lo*dt[i/nv]/m.garea(i/nv)*res[i];
			HX_CHECK(std::fabs(b[i]-a[i]-d) <= 1e-12*std::fabs(d) + 1e-15*(std::fabs(a[i])+std::fabs(b[i])), "explicit-cfl", "%s step %d entry %d: changed by %.12g, the initial CFL gives %.12g", what.c_str(), k+1, i, b[i]-a[i], d); }
	}
	for(int k = 0; k < n; k++) {
		HX_CHECK(cfl[k] >= cf.lo*(1-1e-6) && cfl[k] <= cf.hi*(1+1e-6), "cfl-bounds", "%s step %d: CFL %.9g outside [%g,%g]", what.c_str(), k+1, cfl[k], cf.lo, cf.hi);
		if(k >= 2) {
			const double a = r[k-2], b = r[k-1];     // the residuals known before step k
			if(b < a) HX_CHECK(cfl[k] > cfl[k-1]*(1+1e-4) || cfl[k] >= cf.hi*(1-1e-6), "cfl-up", "%s: residual fell from %g to %g but CFL went from %.9g to %.9g", what.c_str(), a, b, cfl[k-1], cfl[k]);
			else if(b > a) HX_CHECK(cfl[k] < cfl[k-1]*(1-1e-4) || cfl[k] <= cf.lo*(1+1e-6), "cfl-down", "%s: residual rose from %g to %g but CFL went from %.9g to %.9g", what.c_str(), a, b, cfl[k-1], cfl[k]);
			else HX_CHECK(std::fabs(cfl[k]-cfl[k-1]) <= 1e-6*cfl[k], "cfl-constant", "%s: residual stayed at %g but CFL went from %.9g to %.9g", what.c_str(), a, cfl[k-1], cfl[k]);
		}
	}
}

/// fixed factor, to see that the solver applies what the scheme returns
template <int nv> struct Fixed : public NonlinearUpdate<nv> { double w; explicit Fixed(double x) : w(x) {} double getLocalRelaxationFactor(const double *, const double *) const override { return w; } };

/// factor depending on the state and the update of the cell it is asked for
template <int nv> struct Dependent : public NonlinearUpdate<nv> {
	static double f(const double *du, const double *u) { double a = 0, b = 0; for(int i = 0; i < nv; i++) { a += (i+1)*std::fabs(du[i]); b += (i+2)*std::fabs(u[i]); } return 0.05 + 0.9/(1 + a/(1+b)) ; }
	double getLocalRelaxationFactor(const double *du, const double *u) const override { return f(du, u); }
};

/// the implicit solver moves every cell by its own factor times its own update
static void applied(const Mesh& m, const V& r, Cfl cf, Implicit<4>& imp, bool robust, const std::string& what) {
	const int ne = m.gnelem(), n = (int)r.size();
	Stub<4> s(&m);
	s.script = [&](int k, const V&, V& res, V& dt) {
		for(int i = 0; i < ne; i++) { const double z[4] = {0.3*((i+k)%3-1), -0.2*(i%2), 0.1*(k%2), 1}; for(int v = 0; v < 4; v++) res[i*4+v] = z[v]*r[k-1]*m.garea(i)*(i+1); dt[i] = 0.2*(i+1); }
	};
	V u0; for(int i = 0; i < ne; i++) { const fl::St t = fl::cons(1.4, 1+0.5*i, 0.3*i, -0.2, 2+i); u0.insert(u0.end(), t.begin(), t.end()); }
	IdealGasPhysics<double> phy(1.4, 0.5, 288.15, 100, 0.72);
	FlowSimpleUpdate<4> rob(phy, 0.15); Dependent<4> dep;
	const NonlinearUpdate<4> *up = robust ? (const NonlinearUpdate<4>*)&rob : &dep;
	const Run R = run<4>(m, s, conf(cf.lo, cf.hi, 1e-200, n, true), u0, &imp, up);
	hx::eval();
	for(int k = 0; k < n && k < (int)s.states.size(); k++) {
		const V& a = s.states[k]; const V& b = k+1 < (int)s.states.size() ? s.states[k+1] : R.u;
		V res(ne*4), dt(ne); s.script(k+1, a, res, dt);
		if(k >= (int)R.td.convhis.size()) break;
		for(int i = 0; i < ne; i++) {
			double du[4]; for(int v = 0; v < 4; v++) du[v] = res[4*i+v]*R.td.convhis[k].cfl*dt[i]/m.garea(i);
			if(!(fl::pres(1.4, &a[4*i]) > 0) || !(a[4*i] > 0)) { hx::count("inadmissible_states_skipped"); continue; }
			const double w = up->getLocalRelaxationFactor(du, &a[4*i]);
			for(int v = 0; v < 4; v++) HX_CHECK(std::fabs(b[4*i+v]-a[4*i+v]-w*du[v]) <= 1e-6*std::fabs(du[v]) + 1e-14*(std::fabs(a[4*i+v])+std::fabs(b[4*i+v])), "relax-applied", "%s step %d cell %d variable %d: changed by %.12g, factor %.9g times the update is %.12g", what.c_str(), k+1, i, v, b[4*i+v]-a[4*i+v], w, w*du[v]);
		}
	}
}

static void relaxation(const gas::Ph& h, double mn, const double *u, const double *du, const FlowSimpleUpdate<4>& up, const std::string& what) {
	double un[4]; for(int i = 0; i < 4; i++) un[i] = u[i]+du[i];
	const double got = up.getLocalRelaxationFactor(du, u);
	hx::eval();
	HX_CHECK(got >= mn && got <= 1, "relax-bounds", "%s u %s du %s: factor %.12g outside [%g,1]", what.c_str(), gas::str(u).c_str(), gas::str(du).c_str(), got, mn);
	if(un[0] == 0) { hx::count("updates_to_vacuum_judged_for_bounds_only"); return; }
	const double p = gas::p(h,u), dr = std::fabs(du[0])/u[0];
	const double dp = std::fabs(gas::p(h,un)-p)/p, dk = std::fabs(gas::dpKnown(h,u,du))/p;
	auto expect = [&](double x) { const double d = std::max(x, dr); return 1-d > mn ? 1-d : mn; };
	// rounding in the pressure difference of a large kinetic energy
	const double tol = 1e-12*(u[3]+std::fabs(du[3])+std::fabs(un[3]))/p*(1 + std::fabs(u[0]/un[0])) + 1e-13;
	if(std::fabs(got-expect(dp)) <= tol) { hx::count(got == 1 ? "relax_one" : got > mn ? "relax_between" : "relax_at_minimum"); return; }
	if(std::fabs(got-expect(dk)) <= tol*10 + 1e-10*dk) { hx::fail("relax-delta-p", hx::fmt("%s u %s du %s: factor %.12g, relative changes of density %.9g and pressure %.9g", what.c_str(), gas::str(u).c_str(), gas::str(du).c_str(), got, dr, dp)); return; }
	hx::fail("relax-value", hx::fmt("%s u %s du %s: factor %.12g, relative changes of density %.9g and pressure %.9g (recorded formula %.9g)", what.c_str(), gas::str(u).c_str(), gas::str(du).c_str(), got, dr, dp, dk));
}

int main(int argc, char **argv) {
	hx::init(argc, argv);
	hx::petsc_init();
	hx::rule("Part 1: every residual history over {1e-6, 0.1, 0.9, 1, 1.1, 10, 1e6} of a given length x CFL ranges x explicit/implicit solver x cells and variables, run through the real solvers with a scripted discretization whose Jacobian is zero, so that the CFL each implicit step used is measured. Histories over {0.99, 1, 1.01} with CFL ranges narrower than one step's change, and runs of 125 steps whose residuals change by every periodic pattern over {0.5, 0.97, 1, 1.04, 3} up to a period. Every cell's factor times its own update is seen to be applied. Part 2: product lattices of gases, states, updates (all sign patterns and magnitudes) and minimum factors. Distinct by history and range, by state, update and minimum.");
	hx::assume("the first two steps have no earlier pair of residuals to respond to and are judged for their bounds only; the explicit solver records a CFL number but its update uses the initial one, as documented");
	const bool q = hx::quick();
	const double A[] = {1e-6, 0.1, 0.9, 1, 1.1, 10, 1e6};
	const int depth = q ? 5 : 7;
	const Mesh m1 = prepare(grid(1,1,0,UNIFORM)), m3 = prepare(grid(3,1,2,STRETCHED));
	Implicit<1> i11(m1); Implicit<4> i43(m3);
	const Cfl CF[] = {{0.5, 40}, {10, 10}, {1e-3, 1e6}, {100, 101}};
	for(int a = 0; a < 7; a++) for(int b = 0; b < 7; b++) for(int c = 0; c < 4; c++) {
		if(!hx::begin(hx::fmt("history:%g,%g,cfl%d", A[a], A[b], c))) continue;
		long total = 1; for(int i = 0; i < depth-2; i++) total *= 7;
		for(long code = 0; code < total; code++) {
			V r = {A[a], A[b]}; std::string nm = hx::fmt("CFL [%g,%g] residuals %g %g", CF[c].lo, CF[c].hi, A[a], A[b]);
			long k = code; for(int i = 0; i < depth-2; i++) { r.push_back(A[k%7]); nm += hx::fmt(" %g", A[k%7]); k /= 7; }
			FullUpdate<1> f1; Fixed<4> f4(code % 3 == 0 ? 1.0 : 0.37);
			history<1>(m1, r, CF[c], true, i11, f1, 1.0, nm + " implicit");
			if(code % 3 == 0) history<1>(m1, r, CF[c], false, i11, f1, 1.0, nm + " explicit");
			if(code % 5 == 0) history<4>(m3, r, CF[c], true, i43, f4, f4.w, nm + " implicit 3 cells");
			hx::nontrivial(hx::fnv(nm));
			hx::sample(nm);
		}
	}
	// residuals changing little between steps, ranges narrower than one step's change
	const double Bn[] = {0.99, 1, 1.01};
	const Cfl CN[] = {{0.5,0.501},{0.5,0.506},{99,100},{1e-3,1.0008e-3}};
	for(int c = 0; c < 4; c++) for(int a = 0; a < 9; a++) {
		if(!hx::begin(hx::fmt("narrow:%d:%d", c, a))) continue;
		const int len = q ? 5 : 7; long total = 1; for(int i = 0; i < len-2; i++) total *= 3;
		for(long code = 0; code < total; code++) {
			V r = {Bn[a%3], Bn[a/3]}; long k = code; for(int i = 0; i < len-2; i++) { r.push_back(Bn[k%3]); k /= 3; }
			std::string nm = hx::fmt("CFL [%g,%g] residuals", CN[c].lo, CN[c].hi); for(double x : r) nm += hx::fmt(" %g", x);
			FullUpdate<1> f1;
			history<1>(m1, r, CN[c], true, i11, f1, 1.0, nm + " implicit");
			history<1>(m1, r, CN[c], false, i11, f1, 1.0, nm + " explicit");
			hx::nontrivial(hx::fnv(nm));
		}
	}
	// long runs: every periodic pattern of changes with period up to 3 (4)
	const double F[] = {0.5, 0.97, 1, 1.04, 3};
	for(int per = 1; per <= (q ? 3 : 4); per++) for(int c = 0; c < 4; c++) {
		if(!hx::begin(hx::fmt("long:%d:%d", per, c))) continue;
		long total = 1; for(int i = 0; i < per; i++) total *= 5;
		for(long code = 0; code < total; code++) {
			V fac; long k = code; for(int i = 0; i < per; i++) { fac.push_back(F[k%5]); k /= 5; }
			V r(125); r[0] = 1; for(int i = 1; i < 125; i++) r[i] = std::min(1e60, std::max(1e-60, r[i-1]*fac[i%per]));
			std::string nm = hx::fmt("CFL [%g,%g] 125 steps, residual factors", CF[c].lo, CF[c].hi); for(double x : fac) nm += hx::fmt(" %g", x);
			FullUpdate<1> f1;
			history<1>(m1, r, CF[c], true, i11, f1, 1.0, nm + " implicit");
			if(code % 4 == 0) history<1>(m1, r, CF[c], false, i11, f1, 1.0, nm + " explicit");
			hx::nontrivial(hx::fnv(nm));
		}
	}
	for(int rob = 0; rob < 2; rob++) for(int a = 0; a < 5; a++) {
		if(!hx::begin(hx::fmt("applied:%d:%d", rob, a))) continue;
		const double D[] = {0.01, 0.2, 0.6, 1.5, 6};
		for(int b = 0; b < 5; b++) for(int c = 0; c < 5; c++) for(int cc = 0; cc < 2; cc++) { applied(m3, {D[a],D[b],D[c]}, cc ? Cfl{0.5,2} : Cfl{1,1}, i43, rob, hx::fmt("%s update, residuals %g %g %g, CFL range %d", rob ? "robust" : "synthetic", D[a], D[b], D[c], cc)); hx::nontrivial(); }
	}
	// relaxation
	const std::vector<fl::Phys> P = {{1.4,0.5,288.15,100,0.72,0},{5.0/3,2.0,200,50,1.0,0},{1.1,0.8,250,5,0.9,0}};
	for(size_t ip = 0; ip < P.size(); ip++) for(double mn : {1e-6, 0.1, 0.25, 0.5, 0.999, 1.0}) for(double rho : {0.02, 0.7, 1.0, 30.0}) {
		if(!hx::begin(hx::fmt("relax:%zu:%g:%g", ip, mn, rho))) continue;
		const fl::Phys& p = P[ip]; const gas::Ph h = {p.g, p.M, p.Tinf, p.Re, p.Pr};
		IdealGasPhysics<double> phy(p.g, p.M, p.Tinf, p.Re, p.Pr);
		FlowSimpleUpdate<4> up(phy, mn);
		const double p0 = 1/(p.g*p.M*p.M);
		for(double vx : {-1.7, 0.0, 0.9}) for(double vy : {-0.4, 0.0, 2.3}) for(double pr : {0.05, 1.0, 8.0}) {
			const fl::St u = fl::cons(p.g, rho, vx, vy, p0*pr);
			const V mags = q ? V{-1.5, -0.9, -0.3, -1e-3, 0, 1e-7, 0.05, 0.4, 2.5} : V{-1.5, -1, -0.99, -0.9, -0.5, -0.3, -0.05, -1e-3, -1e-9, 0, 1e-7, 1e-3, 0.05, 0.2, 0.4, 0.9, 1, 2.5, 40};
			for(double a : mags) for(double b : mags) for(double c : {-0.6, 0.0, 0.02, 1.3}) for(double d : mags) {
				// increments of density, momentum (relative to rho x sound speed) and energy
				const double cs = fl::snd(p.g, u.data());
				const double du[4] = {a*u[0], b*u[0]*cs, c*u[0]*cs, d*u[3]};
				relaxation(h, mn, u.data(), du, up, hx::fmt("gamma %g minimum %g", p.g, mn));
			}
			// updates along one state, where density and pressure change together
			for(double a : {-0.7, -0.2, 0.3, 1.9}) { const double du[4] = {a*u[0], a*u[1], a*u[2], a*u[3]}; relaxation(h, mn, u.data(), du, up, hx::fmt("gamma %g minimum %g", p.g, mn)); }
			const double z[4] = {0,0,0,0}; relaxation(h, mn, u.data(), z, up, "no change");
			hx::nontrivial(hx::fnv(hx::fmt("%zu/%g/%g/%g/%g/%g", ip, mn, rho, vx, vy, pr)));
		}
	}
	if(hx::begin("settings")) {
		IdealGasPhysics<double> phy(1.4, 0.5, 288, 100, 0.7);
		for(double mn : {0.0, -0.0, -1e-9, -3.0, 1.0000001, 2.0, 1e300, -1e300, 1.0, 1e-300, 0.5}) {
			bool thrown = false;
			try { FlowSimpleUpdate<4> u(phy, mn); } catch(const std::exception&) { thrown = true; }
			hx::eval();
			HX_CHECK(thrown == !(mn > 0 && mn <= 1), "relax-setting", "minimum factor %g was %s", mn, thrown ? "refused" : "accepted");
		}
		FullUpdate<4> f4; FullUpdate<1> f1;
		for(double x : {-1e9, -1.0, 0.0, 1e-30, 5.0, 1e300}) { const double a[4] = {x,-x,x,x}, b[4] = {1,0,0,2}; hx::eval(2); HX_CHECK(f4.getLocalRelaxationFactor(a, b) == 1 && f1.getLocalRelaxationFactor(a, b) == 1, "full", "full update factor for %g", x); }
	}
	return hx::finish_petsc();
}
