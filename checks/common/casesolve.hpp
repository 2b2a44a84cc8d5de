// The solves of a whole case, composed from the solver objects
#ifndef CASESOLVE_HPP
#define CASESOLVE_HPP
#include "stub.hpp"
#include "options.hpp"
#include "utilities/casesolvers.hpp"
namespace sb {
/// the solve composed by hand from the solver objects
inline Run solveBy(const Mesh& m, const FlowParserOptions& o, bool starter, const V& u0, bool log = false) {
	const FlowPhysicsConfig pc = extract_spatial_physics_config(o);
	const FlowNumericsConfig nc = starter ? firstorder_spatial_numerics_config(o) : extract_spatial_numerics_config(o);
	std::unique_ptr<const Spatial<double,4>> sp(create_const_flowSpatialDiscretization<double>(&m, pc, nc));
	const SteadySolverConfig c = starter ? conf(o.firstinitcfl, o.firstendcfl, o.firsttolerance, o.firstmaxiter, log) : conf(o.initcfl, o.endcfl, o.tolerance, o.maxiter, log);
	Run R; R.outcome = RETURNED;
	Vec u = fl::mkvec<4>(m, u0);
	Mat M; fl::chk(setupSystemMatrix<4>(&m, &M), "matrix");
	KSP k; KSPCreate(PETSC_COMM_WORLD, &k); KSPSetOperators(k, M, M); KSPSetFromOptions(k);
	std::unique_ptr<const NonlinearUpdate<4>> nl(create_const_nonlinearUpdateScheme<4>(o));
	std::unique_ptr<SteadySolver<4>> s;
	if(o.pseudotimetype == "IMPLICIT") s.reset(new SteadyBackwardEulerSolver<4>(sp.get(), c, k, nl.get()));
	else s.reset(new SteadyForwardEulerSolver<4>(sp.get(), u, c));
	try { s->solve(u); }
	catch(const Tolerance_error&) { R.outcome = TOLERANCE; }
	catch(const Numerical_error&) { R.outcome = NUMERICAL; }
	catch(const std::exception& e) { R.outcome = OTHER; R.msg = e.what(); }
	R.td = s->getTimingData();
	if(R.outcome == RETURNED && R.td.converged) R.outcome = CONVERGED;
	R.u = fl::rd(u, 4*m.gnelem());
	VecDestroy(&u); KSPDestroy(&k); MatDestroy(&M);
	return R;
}
} // namespace sb
#endif
