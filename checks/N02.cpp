// N02: the steady solvers on every residual history up to a depth; starter/main sequencing of whole cases
#include "common/petsc_init.hpp"
#include "common/stub.hpp"
#include "common/flowref.hpp"
#include "common/casesolve.hpp"
using namespace sb;
using namespace mg;

static const double NAN_ = std::numeric_limits<double>::quiet_NaN(), INF_ = std::numeric_limits<double>::infinity();

struct Model { int outcome, steps; };
/// what has to happen for residual norms r[0..] (r[0] finite and positive)
static Model model(const V& r, double tol, int maxiter) {
	Model m = {RETURNED, 0};
	if(maxiter <= 0) return m;
	for(int k = 0; k < maxiter; k++) {
		m.steps++;
		if(!std::isfinite(r[k])) { m.outcome = NUMERICAL; return m; }
		if(r[k]/r[0] <= tol) { m.outcome = k+1 == maxiter ? TOLERANCE : CONVERGED; return m; }
	}
	m.outcome = TOLERANCE;
	return m;
}

template <int nv> static void history(const Mesh& m, const V& nrm, double tol, int maxiter, bool implicit, bool log, Implicit<nv>& imp, const std::string& what) {
	const int ne = m.gnelem();
	Stub<nv> s(&m);
	const double cfl0 = 0.5, cfl1 = 40; bool recording = true;
	double W = 0; for(int i = 0; i < ne; i++) W += m.garea(i)*(1+i)*(1+i);
	const double unit = ne == 1 && m.garea(0) == 1 ? 1 : 1/std::sqrt(W);
	std::vector<int> before;     // linear iterations done before each step
	s.script = [&](int k, const V&, V& r, V& dt) {
		if(implicit && recording) { PetscInt t; KSPGetTotalIterations(imp.k, &t); before.push_back((int)t); }
		if(k > (int)nrm.size()) { for(auto& x : r) x = 0; return; }
		for(int i = 0; i < ne; i++) {
			for(int v = 0; v < nv; v++) r[i*nv+v] = (v+1 == nv ? (i%2 ? -1 : 1)*nrm[k-1]*(1+i)*unit : 0.25*(v+1)*(k%2 ? 1 : -3));
			dt[i] = 0.1*(i+1);
		}
	};
	V u0(ne*nv); for(int i = 0; i < ne*nv; i++) u0[i] = 1 + 0.1*i;
	FullUpdate<nv> fu;
	const SteadySolverConfig c = conf(cfl0, cfl1, tol, maxiter, log);
	const Run R = run<nv>(m, s, c, u0, implicit ? &imp : nullptr, &fu);
	recording = false;
	const Model M = model(nrm, tol, maxiter);
	hx::eval();
	HX_CHECK(R.outcome == M.outcome, "outcome", "%s: ended with %s (%s), expected %s", what.c_str(), oname(R.outcome), R.msg.c_str(), oname(M.outcome));
	HX_CHECK(s.calls == M.steps, "steps", "%s: %d residual evaluations, expected %d", what.c_str(), s.calls, M.steps);
	HX_CHECK(R.td.converged == (M.outcome == CONVERGED), "converged-flag", "%s: reported converged=%d after %s", what.c_str(), (int)R.td.converged, oname(M.outcome));
	if(M.outcome == CONVERGED || M.outcome == TOLERANCE) HX_CHECK(R.td.num_timesteps == M.steps, "step-count", "%s: reports %d steps, expected %d", what.c_str(), R.td.num_timesteps, M.steps);
	std::vector<int> its; const std::vector<int> *imp_its = nullptr;
	if(implicit && M.steps > 0) {
		PetscInt t; KSPGetTotalIterations(imp.k, &t); before.push_back((int)t);
		for(size_t k = 1; k < before.size(); k++) its.push_back(before[k]-before[0]);
		if((int)its.size() == M.steps) {
			imp_its = &its;
			if(M.outcome == CONVERGED || M.outcome == TOLERANCE) HX_CHECK(R.td.total_lin_iters == its.back() && R.td.avg_lin_iters == its.back()/M.steps, "linear-iterations", "%s: reports %d linear iterations, %d on average; there were %d in %d steps", what.c_str(), R.td.total_lin_iters, R.td.avg_lin_iters, its.back(), M.steps);
		}
	}
	if(log) {
		// a failing step may or may not be listed
		const int n = (int)R.td.convhis.size(), lo = M.outcome == NUMERICAL ? M.steps-1 : M.steps;
		HX_CHECK(n >= lo && n <= M.steps, "history-length", "%s: history has %d entries after %d steps", what.c_str(), n, M.steps);
		for(int k = 0; k < std::min(n, M.steps); k++) {
			const auto& e = R.td.convhis[k];
			if(imp_its) HX_CHECK(e.linits == (*imp_its)[k], "history-linear", "%s: step %d lists %d linear iterations so far, were %d", what.c_str(), k+1, e.linits, (*imp_its)[k]);
			HX_CHECK(e.step == k+1, "history-number", "%s: entry %d is numbered %d", what.c_str(), k, e.step);
			if(!std::isfinite(nrm[k])) continue;
			HX_CHECK(std::fabs(e.rmsres-nrm[k]/nrm[0]) <= 1e-6*nrm[k]/nrm[0], "history-relative", "%s: step %d lists relative residual %g, is %g", what.c_str(), k+1, e.rmsres, nrm[k]/nrm[0]);
			HX_CHECK(std::fabs(e.absrmsres-nrm[k]) <= 1e-6*nrm[k], "history-absolute", "%s: step %d lists residual %g, is %g", what.c_str(), k+1, e.absrmsres, nrm[k]);
		}
	} else HX_CHECK(R.td.convhis.empty(), "history-unasked", "%s: history recorded without being asked for", what.c_str());
	if(maxiter <= 0) for(int i = 0; i < ne*nv; i++) HX_CHECK(R.u[i] == u0[i], "zero-steps", "%s: the state changed", what.c_str());
	// explicit steps: CFL x local time step / area x residual, each evaluated at the state left by the step before
	if(!implicit) {
		V u = u0;
		for(int k = 1; k <= M.steps; k++) {
			if(k <= (int)s.states.size()) for(int i = 0; i < ne*nv; i++) HX_CHECK(s.states[k-1][i] == u[i] || std::fabs(s.states[k-1][i]-u[i]) <= 1e-13*(std::fabs(u[i])+1) || !std::isfinite(u[i]), "explicit-update", "%s: state before step %d, entry %d: %.12g expected %.12g", what.c_str(), k, i, s.states[k-1][i], u[i]);
			V r(ne*nv), dt(ne); s.script(k, u, r, dt);
			for(int i = 0; i < ne*nv; i++) u[i] += cfl0*dt[i/nv]/m.garea(i/nv)*r[i];
		}
		if(M.outcome != NUMERICAL) for(int i = 0; i < ne*nv; i++) HX_CHECK(std::fabs(R.u[i]-u[i]) <= 1e-13*(std::fabs(u[i])+1), "explicit-update", "%s: final state, entry %d: %.12g expected %.12g", what.c_str(), i, R.u[i], u[i]);
	}
}

// ------------------------------------------------------------------ whole cases

static void flowCase(const Mesh& m, const FlowParserOptions& o, const V& u0, const std::string& what) {
	// expected
	V u = u0; int expect = RETURNED; 
	if(o.usestarter) {
		const Run a = solveBy(m, o, true, u);
		if(a.outcome == NUMERICAL || a.outcome == OTHER) expect = NUMERICAL;
		u = a.u;
	}
	if(expect == RETURNED) {
		const Run b = solveBy(m, o, false, u);
		u = b.u;
		expect = b.outcome == CONVERGED ? CONVERGED : TOLERANCE;
	}
	SteadyFlowCase fc(o);
	Vec uv = fl::mkvec<4>(m, u0);
	int got = CONVERGED; std::string msg;
	try { const int ierr = fc.run(m, uv); if(ierr) { got = OTHER; msg = hx::fmt("code %d", ierr); } }
	catch(const Tolerance_error& e) { got = TOLERANCE; }
	catch(const Numerical_error& e) { got = NUMERICAL; }
	catch(const std::exception& e) { got = OTHER; msg = e.what(); }
	hx::eval();
	HX_CHECK(got == expect, "case-outcome", "%s: ended with %s %s, expected %s", what.c_str(), oname(got), msg.c_str(), oname(expect));
	const V r = fl::rd(uv, 4*m.gnelem());
	if(expect != NUMERICAL) for(size_t i = 0; i < r.size(); i++) HX_CHECK(r[i] == u[i] || std::fabs(r[i]-u[i]) <= 1e-9*(1+std::fabs(u[i])) || !std::isfinite(u[i]), "case-solution", "%s: entry %zu of the solution is %.12g, the sequence of solves gives %.12g", what.c_str(), i, r[i], u[i]);
	hx::count(std::string("cases_") + (expect == CONVERGED ? "converged" : expect == TOLERANCE ? "tolerance_error" : "numerical_error"));
	VecDestroy(&uv);
}

int main(int argc, char **argv) {
	hx::init(argc, argv);
	hx::petsc_init();
	hx::rule("Part 1: every history of residual norms over {1, 1/2, 1/8 (= tolerance), 0.12, 2, 0, NaN, inf} of a given length, every step limit up to it, explicit and implicit solver, one and four variables, one and several cells, with and without logging, run through the real solver objects with a scripted discretization; outcome, number of residual evaluations, flags, history entries and explicit updates are compared with a model. A case is one prefix of a history. Part 2: whole cases (starter on/off x step limits x tolerances x explicit/implicit x update scheme) against the same solves composed by hand. Distinct by history, limit, solver.");
	const bool q = hx::quick();
	const double A[] = {1, 0.5, 0.125, 0.12, 2, 0, NAN_, INF_};
	static const char *AN[] = {"1",".5","tol",".12","2","0","nan","inf"};
	const int depth = q ? 4 : 6;
	const Mesh m1 = prepare(grid(1,1,0,UNIFORM)), m3 = prepare(grid(3,1,2,STRETCHED));
	Implicit<1> i11(m1), i13(m3); Implicit<4> i41(m1), i43(m3);
	const int len = depth;
	for(double first : {1.0, 1e-9, 3e6}) for(int a = 0; a < 8; a++) for(int b = 0; b < 8; b++) {
		if(!hx::begin(hx::fmt("history:%g,%s,%s", first, AN[a], AN[b]))) continue;
		long total = 1; for(int i = 0; i < len-3; i++) total *= 8;
		for(long code = 0; code < total; code++) {
			V n = {first, A[a]*first, A[b]*first}; std::string nm = hx::fmt("residuals %g x (1 %s %s", first, AN[a], AN[b]);
			long c = code; bool dead = false;
			for(int i = 0; i < len-3; i++) { n.push_back(A[c%8]*first); nm += std::string(" ") + AN[c%8]; c /= 8; }
			nm += ")";
			(void)dead;
			hx::sample(nm);
			for(int mx = 0; mx <= len; mx++) {
				const Model M = model(n, 0.125, mx);
				for(int imp = 0; imp < 2; imp++) {
					const std::string w = nm + hx::fmt(" limit %d %s", mx, imp ? "implicit" : "explicit");
					history<1>(m1, n, 0.125, mx, imp, true, i11, w + " 1 cell 1 var");
					hx::nontrivial(hx::fnv(w));
					if((code + mx) % 3 == 0) history<4>(m1, n, 0.125, mx, imp, mx % 2, i41, w + " 1 cell 4 var");
					// on several cells rounding may decide a tie with the tolerance: move it off
					bool tie = false; for(double x : n) if(x == 0.125*first) tie = true;
					if(!tie && (code + mx) % 3 == 1) { history<4>(m3, n, 0.125, mx, imp, true, i43, w + " 3 cells 4 var"); history<1>(m3, n, 0.125, mx, imp, true, i13, w + " 3 cells 1 var"); }
				}
				(void)M;
			}
		}
	}
	// tolerances and negative limits
	if(hx::begin("settings")) for(double tol : {0.9999999, 0.5, 1e-3, 1e-14, 0.0}) for(int mx : {-3, 0, 1, 2, 5, 40, 130}) for(int imp = 0; imp < 2; imp++) for(double fac : {0.5, 0.999, 0.9}) {
		V n(131); n[0] = 7; for(int i = 1; i < 131; i++) n[i] = n[i-1]*fac;
		history<1>(m1, n, tol, mx, imp, true, i11, hx::fmt("geometric %g tol %g limit %d implicit %d", fac, tol, mx, imp));
		hx::nontrivial(hx::fnv(hx::fmt("%g/%d/%d/%g", tol, mx, imp, fac)));
	}
	// whole cases
	const fl::Phys p = {1.4, 0.4, 288.15, 100, 0.72, 0.0};
	for(int im = 0; im < (q ? 2 : 4); im++) {
		const RM rm = im == 0 ? grid(3,2,5,DISTORTED) : im == 1 ? ring(4,2,3) : im == 2 ? grid(4,3,100,STRETCHED) : fan(6);
		std::vector<fl::BC> bcs; { int k = 0; for(int t : fr::tagsOf(rm)) bcs.push_back({t, (k++ % 2) ? FARFIELD_BC : SLIP_WALL_BC, {}}); }
		for(int expl = 0; expl < 2; expl++) for(int st = 0; st < 2; st++) for(int fm : {0, 1, 4, 30}) for(int mm : {0, 1, 3, 60}) for(double tol : {0.5, 1e-2}) {
			if(!st && fm != 1) continue;
			if(!hx::begin(hx::fmt("case:%d:%d:%d:%d:%d:%g", im, expl, st, fm, mm, tol))) continue;
			const Mesh m = prepare(rm);
			FlowParserOptions o = caseOptions(p, bcs);
			o.pseudotimetype = expl ? "EXPLICIT" : "IMPLICIT"; o.usestarter = st; o.firstmaxiter = fm; o.maxiter = mm; o.tolerance = tol;
			if(expl) { o.initcfl = 0.4; o.firstinitcfl = 0.3; }
			o.nl_update_scheme = (fm + mm) % 2 ? "ROBUST_FLOW" : "FULL";
			for(double blow : {1.0, 1e4}) {
				if(blow > 1 && mm < 60) continue;
				FlowParserOptions ob = o; if(blow > 1) { ob.initcfl *= blow; ob.endcfl *= blow; if(tol < 0.1) ob.firstinitcfl *= blow; }
				const std::string w = hx::fmt("%s %s starter %d limits %d/%d tolerance %g cfl %g", rm.name.c_str(), expl ? "explicit" : "implicit", st, fm, mm, tol, ob.initcfl);
				V u0; for(int i = 0; i < m.gnelem(); i++) { const fl::St s = fl::freestream(p); u0.insert(u0.end(), s.begin(), s.end()); }
				flowCase(m, ob, u0, w);
				hx::nontrivial(hx::fnv(w));
				hx::sample(w);
			}
		}
	}
	return hx::finish_petsc();
}
