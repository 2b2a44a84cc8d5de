// A scripted spatial discretization: the steady solvers run for real on residual histories of our choice.
#ifndef STUB_HPP
#define STUB_HPP
#include "flow.hpp"
#include "ode/aodesolver.hpp"
#include "ode/nonlinearrelaxation.hpp"
#include "utilities/aerrorhandling.hpp"

namespace sb {
using namespace fvens;
typedef fl::Mesh Mesh;
typedef std::vector<double> V;

template <int nv> struct Stub : public Spatial<double,nv> {
	/// call number k (from 1), state -> values to add to the residual, time steps
	std::function<void(int k, const V& u, V& r, V& dt)> script;
	double bdiag = 0;            ///< value put on the diagonal for every boundary face
	mutable int calls = 0;
	mutable std::vector<V> states;
	explicit Stub(const Mesh *m) : Spatial<double,nv>(m) {}
	StatusCode compute_residual(const Vec u, Vec res, const bool gettimesteps, Vec dtm) const override {
		const int ne = this->mesh()->gnelem();
		calls++;
		V uu = fl::rd(u, ne*nv), r(ne*nv, 0.0), dt(ne, 1.0);
		states.push_back(uu);
		script(calls, uu, r, dt);
		PetscScalar *p;
		VecGetArray(res, &p); for(int i = 0; i < ne*nv; i++) p[i] += r[i]; VecRestoreArray(res, &p);
		if(gettimesteps) { VecGetArray(dtm, &p); for(int i = 0; i < ne; i++) p[i] = dt[i]; VecRestoreArray(dtm, &p); }
		return 0;
	}
	void compute_local_jacobian_interior(const fint, const double *const, const double *const, Eigen::Matrix<double,nv,nv,Eigen::RowMajor>& L, Eigen::Matrix<double,nv,nv,Eigen::RowMajor>& U) const override { L.setZero(); U.setZero(); }
	void compute_local_jacobian_boundary(const fint, const double *const, Eigen::Matrix<double,nv,nv,Eigen::RowMajor>& L) const override { L.setZero(); for(int i = 0; i < nv; i++) L(i,i) = -bdiag; }
	void getGradients(const Vec, GradBlock_t<double,2,nv> *const) const override {}
};

inline SteadySolverConfig conf(double cflmin, double cflmax, double tol, int maxiter, bool log) {
	SteadySolverConfig c;
	c.lognres = log; c.logfile = "stub"; c.write_final_lin_sys = false;
	c.cflinit = cflmin; c.cflfin = cflmax; c.rampstart = 0; c.rampend = 1; c.tol = tol; c.maxiter = maxiter;
	c.linmaxiterstart = c.linmaxiterend = 10;
	return c;
}

enum Outcome { CONVERGED, TOLERANCE, NUMERICAL, OTHER, RETURNED };
inline const char *oname(int o) { static const char *n[] = {"convergence","tolerance error","numerical error","another exception","a return without convergence"}; return n[o]; }

struct Run { int outcome; std::string msg; TimingData td; V u; };

/// implicit: KSP must exist for the mesh
template <int nv> struct Implicit {
	Mat M; KSP k;
	explicit Implicit(const Mesh& m) {
		fl::chk(setupSystemMatrix<nv>(&m, &M), "matrix");
		KSPCreate(PETSC_COMM_WORLD, &k); KSPSetOperators(k, M, M); KSPSetType(k, KSPGMRES); KSPSetTolerances(k, 1e-14, 1e-300, 1e300, 50);
		PC pc; KSPGetPC(k, &pc); PCSetType(pc, PCJACOBI);
	}
	~Implicit() { KSPDestroy(&k); MatDestroy(&M); }
};

template <int nv> Run run(const Mesh& m, const Stub<nv>& s, const SteadySolverConfig& c, const V& u0, Implicit<nv> *imp, const NonlinearUpdate<nv> *upd) {
	Run R; R.outcome = RETURNED;
	Vec u = fl::mkvec<nv>(m, u0);
	std::unique_ptr<SteadySolver<nv>> sol;
	if(imp) { MatSetOption(imp->M, MAT_NEW_NONZERO_LOCATIONS, PETSC_TRUE); sol.reset(new SteadyBackwardEulerSolver<nv>(&s, c, imp->k, upd)); }
	else sol.reset(new SteadyForwardEulerSolver<nv>(&s, u, c));
	try { const int ierr = sol->solve(u); if(ierr) { R.outcome = OTHER; R.msg = hx::fmt("error code %d", ierr); } }
	catch(const Tolerance_error& e) { R.outcome = TOLERANCE; R.msg = e.what(); }
	catch(const Numerical_error& e) { R.outcome = NUMERICAL; R.msg = e.what(); }
	catch(const std::exception& e) { R.outcome = OTHER; R.msg = e.what(); }
	R.td = sol->getTimingData();
	if(R.outcome == RETURNED && R.td.converged) R.outcome = CONVERGED;
	R.u = fl::rd(u, m.gnelem()*nv);
	VecDestroy(&u);
	return R;
}
} // namespace sb
#endif
