// U01: the explicit unsteady solver is the strong-stability-preserving Runge-Kutta scheme of the requested order with one
// global step per time step, on every scripted history of time steps and on real discretizations
#include "common/petsc_init.hpp"
#include "common/stub.hpp"
#include "common/flowref.hpp"
using namespace sb;
using namespace mg;

static const double NAN_ = std::numeric_limits<double>::quiet_NaN(), INF_ = std::numeric_limits<double>::infinity();

/// one step of the scheme in its Butcher form; f(stage, state) = time derivative
typedef std::function<V(int, const V&)> Fun;
static V axpy(const V& a, double h, const V& b) { V r = a; for(size_t i = 0; i < r.size(); i++) r[i] += h*b[i]; return r; }
static V step(int order, double h, const V& u, const Fun& f, std::vector<V> *at) {
	auto ev = [&](int s, const V& x) { if(at) at->push_back(x); return f(s, x); };
	const V k1 = ev(0, u);
	if(order == 1) return axpy(u, h, k1);
	const V k2 = ev(1, axpy(u, h, k1));
	if(order == 2) return axpy(axpy(u, h/2, k1), h/2, k2);
	const V k3 = ev(2, axpy(axpy(u, h/4, k1), h/4, k2));
	return axpy(axpy(axpy(u, h/6, k1), h/6, k2), 4*h/6, k3);
}
static double amax(const V& a) { double s = 0; for(double x : a) s = std::max(s, std::fabs(x)); return s; }
static bool near(const V& a, const V& b, double tol) { if(a.size() != b.size()) return false; const double s = std::max(amax(b), 1e-30); for(size_t i = 0; i < a.size(); i++) if(!(std::fabs(a[i]-b[i]) <= tol*s)) return false; return true; }

// ------------------------------------------------------------------------------------------ scripted histories
/// time derivative of cell i at a state: nonlinear, couples the unknowns of the cell and its neighbour
static V deriv(int ode, const V& u) {
	V d(u.size()); const size_t n = u.size();
	for(size_t i = 0; i < n; i++) switch(ode) {
	case 0: d[i] = -0.3*(1+(double)(i%4))*u[i]; break;
	case 1: d[i] = u[(i+1)%n]/(1 + u[i]*u[i]) - 0.4*u[i]; break;
	default: d[i] = std::sin(u[(i+3)%n]) - 0.1*(double)i; break;
	}
	return d;
}
/// dts[k]: smallest local step of time step k (the last is repeated)
static void scripted(const Mesh& m, int order, const V& dts, double cfl, double fin, int ode, bool twice, const std::string& what) {
	const int ne = m.gnelem();
	Stub<4> s(&m);
	auto dtOf = [&](int st) { return dts[std::min<size_t>(st, dts.size()-1)]; };
	int base = 0;                   // calls made by earlier solves
	s.script = [&](int k, const V& u, V& r, V& dt) {
		if(k-base > 400) throw std::runtime_error("does not stop");
		const int st = (k-1-base)/order, sg = (k-1-base)%order;
		const V d = deriv(ode, u);
		for(int i = 0; i < ne; i++) for(int v = 0; v < 4; v++) r[4*i+v] = m.garea(i)*d[4*i+v];
		const double q = dtOf(st);
		for(int i = 0; i < ne; i++) {
			// the smallest one in a rotating cell; the steps seen by later stages differ and do not count
			dt[i] = i == (st+1) % ne ? q : !std::isfinite(q) ? q : (i == (st+2) % ne && ne > 2 ? INF_ : q*(1.5+i));
			if(sg) dt[i] = 0.01*(1+i);
		}
	};
	V u0(4*ne); for(int i = 0; i < 4*ne; i++) u0[i] = 0.5 + 0.37*((i*7)%5) - 0.1*i;
	Vec u = fl::mkvec<4>(m, u0);
	{
		TVDRKSolver<4> sol(&s, u, order, "/dev/null", cfl);
		V ref = u0;
		for(int run = 0; run < (twice ? 2 : 1); run++) {
			std::vector<V> at; bool bad = false;
			double t = 0; int st = 0;
			while(t <= fin - 1e-12) {
				const double q = dtOf(st);
				if(!std::isfinite(q)) { bad = true; at.push_back(ref); break; }
				ref = step(order, q*cfl, ref, [&](int, const V& x) { return deriv(ode, x); }, &at);
				t += q*cfl; st++;
			}
			base = s.calls; s.states.clear();
			int got = RETURNED; std::string msg;
			try { const int ierr = sol.solve(fin); if(ierr) { got = OTHER; msg = hx::fmt("error code %d", ierr); } }
			catch(const Tolerance_error& e) { got = TOLERANCE; msg = e.what(); }
			catch(const Numerical_error& e) { got = NUMERICAL; msg = e.what(); }
			catch(const std::exception& e) { got = OTHER; msg = e.what(); }
			hx::eval();
			HX_CHECK(got == (bad ? NUMERICAL : RETURNED), "outcome", "%s: %s (%s), expected %s", what.c_str(), got == RETURNED ? "returned" : oname(got), msg.c_str(), bad ? "a numerical error" : "a return");
			HX_CHECK(s.states.size() == at.size(), "evaluations", "%s: %zu residual evaluations, expected %zu", what.c_str(), s.states.size(), at.size());
			for(size_t k = 0; k < std::min(s.states.size(), at.size()); k++) if(!near(s.states[k], at[k], 1e-11)) { hx::fail("stage-state", hx::fmt("%s: residual number %zu (stage %zu of step %zu) evaluated at another state than the scheme's", what.c_str(), k+1, k%order+1, k/order+1)); break; }
			if(bad) break;
			const V f = fl::rd(u, 4*ne);
			if(!near(f, ref, 1e-11)) hx::fail("final-state", what + ": final state differs from the scheme's");
			hx::nontrivial(hx::fnv(what)+run);
		}
	}
	VecDestroy(&u);
}

// ------------------------------------------------------------------------------------------ real discretizations
static void real(const RM& m, const Mesh& um, const fr::Setup& S, int order, double cfl, double nsteps, const V& u0, const std::string& what) {
	const int ne = um.gnelem();
	V dt, ref = u0; bool ok = true;
	double t = 0, fin = -1; int st = 0;
	while(ok) {
		fl::residual<4>(um, *S.s, ref, &dt);
		const double h = cfl * *std::min_element(dt.begin(), dt.end());
		if(!(h > 0) || !std::isfinite(h)) { ok = false; break; }
		if(fin < 0) fin = nsteps*h;
		if(!(t <= fin-1e-12)) break;
		if(st > 20) { ok = false; break; }
		ref = step(order, h, ref, [&](int, const V& x) {
			for(int i = 0; i < ne; i++) if(!(x[4*i] > 0 && fl::pres(S.ph.g, &x[4*i]) > 0)) ok = false;
			if(!ok) return V(4*ne, 0.0);
			V r = fl::residual<4>(um, *S.s, x);
			for(int i = 0; i < ne; i++) for(int v = 0; v < 4; v++) r[4*i+v] /= um.garea(i);
			return r;
		}, nullptr);
		for(int i = 0; i < ne; i++) if(!(ref[4*i] > 0 && fl::pres(S.ph.g, &ref[4*i]) > 0)) ok = false;
		t += h; st++;
	}
	if(!ok) { hx::count("inadmissible_trajectory_skipped"); return; }
	Vec u = fl::mkvec<4>(um, u0);
	{
		TVDRKSolver<4> sol(S.s.get(), u, order, "/dev/null", cfl);
		try { if(sol.solve(fin)) hx::fail("outcome", what + ": error code"); }
		catch(const std::exception& e) { hx::fail("outcome", what + ": " + e.what()); }
	}
	hx::eval();
	const V f = fl::rd(u, 4*ne);
	double ch = 0; for(int i = 0; i < 4*ne; i++) ch = std::max(ch, std::fabs(ref[i]-u0[i]));
	for(int i = 0; i < 4*ne; i++) if(!(std::fabs(f[i]-ref[i]) <= 1e-9*amax(ref))) { hx::fail("final-state", hx::fmt("%s: cell %d entry %d: %.12g after %d steps, scheme %.12g", what.c_str(), i/4, i%4, f[i], st, ref[i])); break; }
	if(ch > 1e-6*amax(ref)) hx::nontrivial(hx::fnv(what));
	hx::count("time_steps_followed", st);
	VecDestroy(&u);
}

int main(int argc, char **argv) {
	hx::init(argc, argv);
	hx::petsc_init();
	hx::rule("Scripted: order x every sequence over {0.5,0.25,0.125,inf,nan} of smallest local time steps up to a depth x CFL x final time (zero, negative, hit exactly, passed, within and beyond the tolerance) x ODE x number of cells; states of every residual evaluation, their number, outcome and final state against the Runge-Kutta scheme in Butcher form; second solve by the same object. Real: mesh families x schemes x fluxes x viscosities x orders x fields (rotated), trajectories against the scheme applied to the library's own residual. Distinct by configuration.");
	hx::assume("a step with some, but not all, local time steps undefined (NaN) and zero time steps are outside the statement");
	const bool q = hx::quick();
	// time-step histories
	const V A = {0.5, 0.25, 0.125, INF_, NAN_};
	const int D = q ? 4 : 6;
	std::vector<std::pair<RM,std::string>> M = {{single(4), "1"}, {grid(2,1,0,DISTORTED), "2"}, {grid(3,1,4,STRETCHED), "4"}};
	for(auto& mm : M) {
		const Mesh um = prepare(mm.first);
		for(int order = 1; order <= 3; order++) for(double cfl : {1.0, 0.5, 2.0}) for(int d = 1; d <= D; d++) {
			if(!hx::begin(hx::fmt("hist:%s:%d:%g:%d", mm.second.c_str(), order, cfl, d))) continue;
			long n = 1; for(int i = 0; i < d; i++) n *= (long)A.size();
			for(long c = 0; c < n; c++) {
				V s; long r = c; bool dup = false;
				for(int i = 0; i < d; i++) { s.push_back(A[r % A.size()]); r /= (long)A.size(); if(i+1 < d && !std::isfinite(s.back())) dup = true; }
				if(dup) continue;      // nothing happens after a refused step
				// final times: before, at and after the end of the listed steps
				double T = 0; for(double x : s) if(std::isfinite(x)) T += x*cfl;
				for(double fin : {T, T-0.01, T+1e-13, T-1e-13, T+1e-11}) {
					if(fin != T && (c+d) % 3) continue;
					scripted(um, order, s, cfl, fin, (int)(c%3), c % 4 == 0, hx::fmt("order %d, cfl %g, final time %.17g, steps #%ld of length %d", order, cfl, fin, c, d));
				}
			}
			hx::sample(hx::fmt("order %d cfl %g: all %ld sequences of %d steps on a mesh of %s cells", order, cfl, n, d, mm.second.c_str()));
		}
		for(int order = 1; order <= 3; order++) {
			if(!hx::begin(hx::fmt("ends:%s:%d", mm.second.c_str(), order))) continue;
			for(double fin : {0.0, -1.0, 1e-13, 1e-12, 2e-12, 1.0, 3.3}) for(int ode = 0; ode < 3; ode++) for(double cfl : {0.25, 1.0})
				scripted(um, order, {0.5}, cfl, fin, ode, ode == 1, hx::fmt("order %d, final time %g, ode %d, cfl %g", order, fin, ode, cfl));
		}
	}
	// orders
	if(hx::begin("orders")) {
		const RM m = grid(2,1,0,UNIFORM); const Mesh um = prepare(m);
		Stub<4> s(&um); s.script = [](int k, const V&, V&, V& dt) { if(k > 100) throw std::runtime_error("does not stop"); for(auto& x : dt) x = 1; };
		for(int o : {0, 4, 5, 7}) {
			Vec u = fl::mkvec<4>(um, V(8, 1.0)); bool thrown = false;
			try { TVDRKSolver<4> sol(&s, u, o, "/dev/null", 1.0); sol.solve(2.0); } catch(const std::exception& e) { thrown = std::string(e.what()) != "does not stop"; }
			HX_CHECK(thrown, "unavailable-order", "order %d is accepted", o);
			hx::eval(); hx::nontrivial(o);
			VecDestroy(&u);
		}
	}
	// real discretizations
	const std::vector<fl::Phys> P = {{1.4,0.5,288.15,100,0.72,0.1},{5.0/3,2.0,200,50,1.0,-0.37},{1.1,0.8,250,5,0.9,1.0}};
	const auto& SC = fl::schemes(); const auto& FX = fl::fluxes();
	forMeshes(q ? 1 : 2, [&](const RM& m0) {
		for(size_t ip = 0; ip < P.size(); ip++) {
			if(!hx::begin(hx::fmt("%s:ph%zu", m0.name.c_str(), ip))) continue;
			const fl::Phys& p = P[ip];
			std::vector<int> rv = iota((int)m0.e.size()); std::reverse(rv.begin(), rv.end());
			const RM m = ip % 2 ? flipBFaces(rotateNodes(permCells(m0, rv), 5), 0x2d) : m0;
			const Ref r(m);
			const Mesh um = prepare(m);
			long combo = (long)(hx::fnv(m0.name) % 1000) + (long)ip;
			for(size_t is = 0; is < SC.size(); is++) for(size_t ifx = 0; ifx < FX.size(); ifx++) for(int v = 0; v < 3; v++) for(int o = 1; o <= 3; o++) {
				if((combo++) % (q ? 97 : 11)) continue;
				fr::Setup S(um, p, v, SC[is], FX[ifx], fr::bcSet(m, [&](int i) { return (int)((i+combo)%(v ? 6 : 4)); }));
				for(int f : {1, 5, 6}) {
					const V u = f < 5 ? fl::field(p, f, m, r) : fr::mild(p, m, f);
					real(m, um, S, o, f == 1 ? 0.9 : 0.4, f == 6 ? 4.0 : 1.7, u, hx::fmt("%s %s order %d field %d", m.name.c_str(), S.str().c_str(), o, f));
				}
			}
		}
	});
	return hx::finish_petsc();
}
