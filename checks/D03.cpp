// D03: distributed evaluation equals the single-process one, for every assignment of small meshes to 2-4 real MPI ranks
#include "common/petsc_init.hpp"
#include "common/flowref.hpp"
#include "common/parts.hpp"
#include "common/stub.hpp"
#include "common/casesolve.hpp"
#include "spatial/aoutput.hpp"
#include <mpi.h>
using namespace fr;
using namespace mg;

// The reference is computed by the same process as a single-rank run: communicators of the library are replaced.
static MPI_Comm cur = MPI_COMM_WORLD;
static int wrank = 0, wsize = 1;
static MPI_Comm T(MPI_Comm c) { return c == MPI_COMM_WORLD ? cur : c; }
static bool aliased(const void *s, const void *r, MPI_Comm c) { int n = 1; MPI_Comm_size(c, &n); if(s == r && s != MPI_IN_PLACE) { hx::fail("collective-alias", "send and receive buffers of a collective operation are the same memory, which MPI forbids"); return true; } return false; }
extern "C" {
int __real_MPI_Comm_rank(MPI_Comm, int*); int __real_MPI_Comm_size(MPI_Comm, int*); int __real_MPI_Barrier(MPI_Comm);
int __real_MPI_Bcast(void*, int, MPI_Datatype, int, MPI_Comm);
int __real_MPI_Isend(const void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int __real_MPI_Irecv(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int __real_MPI_Allreduce(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int __real_MPI_Reduce(const void*, void*, int, MPI_Datatype, MPI_Op, int, MPI_Comm);
int __wrap_MPI_Comm_rank(MPI_Comm c, int *r) { return __real_MPI_Comm_rank(T(c), r); }
int __wrap_MPI_Comm_size(MPI_Comm c, int *r) { return __real_MPI_Comm_size(T(c), r); }
int __wrap_MPI_Barrier(MPI_Comm c) { return __real_MPI_Barrier(T(c)); }
int __wrap_MPI_Bcast(void *b, int n, MPI_Datatype t, int r, MPI_Comm c) { return __real_MPI_Bcast(b, n, t, r, T(c)); }
int __wrap_MPI_Isend(const void *b, int n, MPI_Datatype t, int d, int g, MPI_Comm c, MPI_Request *q) { return __real_MPI_Isend(b, n, t, d, g, T(c), q); }
int __wrap_MPI_Irecv(void *b, int n, MPI_Datatype t, int d, int g, MPI_Comm c, MPI_Request *q) { return __real_MPI_Irecv(b, n, t, d, g, T(c), q); }
int __wrap_MPI_Allreduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c) { if(aliased(s, r, T(c))) return __real_MPI_Allreduce(MPI_IN_PLACE, r, n, t, o, T(c)); return __real_MPI_Allreduce(s, r, n, t, o, T(c)); }
int __wrap_MPI_Reduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op o, int root, MPI_Comm c) { return __real_MPI_Reduce(s, r, n, t, o, root, T(c)); }
#define FWD(name, params, args) int __real_##name params; int __wrap_##name params { return __real_##name args; }
FWD(MPI_Allgather, (const void *s, int n, MPI_Datatype t, void *r, int m, MPI_Datatype u, MPI_Comm c), (s, n, t, r, m, u, T(c)))
FWD(MPI_Allgatherv, (const void *s, int n, MPI_Datatype t, void *r, const int *m, const int *d, MPI_Datatype u, MPI_Comm c), (s, n, t, r, m, d, u, T(c)))
FWD(MPI_Gather, (const void *s, int n, MPI_Datatype t, void *r, int m, MPI_Datatype u, int o, MPI_Comm c), (s, n, t, r, m, u, o, T(c)))
FWD(MPI_Alltoall, (const void *s, int n, MPI_Datatype t, void *r, int m, MPI_Datatype u, MPI_Comm c), (s, n, t, r, m, u, T(c)))
FWD(MPI_Alltoallv, (const void *s, const int *n, const int *d, MPI_Datatype t, void *r, const int *m, const int *e, MPI_Datatype u, MPI_Comm c), (s, n, d, t, r, m, e, u, T(c)))
FWD(MPI_Exscan, (const void *s, void *r, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c), (s, r, n, t, o, T(c)))
FWD(MPI_Scan, (const void *s, void *r, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c), (s, r, n, t, o, T(c)))
FWD(MPI_Send, (const void *b, int n, MPI_Datatype t, int d, int g, MPI_Comm c), (b, n, t, d, g, T(c)))
FWD(MPI_Recv, (void *b, int n, MPI_Datatype t, int d, int g, MPI_Comm c, MPI_Status *q), (b, n, t, d, g, T(c), q))
FWD(MPI_Sendrecv, (const void *b, int n, MPI_Datatype t, int d, int g, void *r, int m, MPI_Datatype u, int e, int h, MPI_Comm c, MPI_Status *q), (b, n, t, d, g, r, m, u, e, h, T(c), q))
FWD(MPI_Issend, (const void *b, int n, MPI_Datatype t, int d, int g, MPI_Comm c, MPI_Request *q), (b, n, t, d, g, T(c), q))
}
struct Alone { MPI_Comm p; Alone() : p(PETSC_COMM_WORLD) { cur = MPI_COMM_SELF; PETSC_COMM_WORLD = MPI_COMM_SELF; } ~Alone() { cur = MPI_COMM_WORLD; PETSC_COMM_WORLD = p; } };

// ------------------------------------------------------------------ what is compared
static const fl::Phys PH[] = {{1.4, 0.4, 290, 30, 0.72, 0.1}, {1.4, 1.6, 250, 200, 0.9, -0.7}, {1.25, 0.15, 400, 8, 1.1, 2.4}};
static double source(double x, double y, double u) { return 0.4*u*u - x + 2*y*y; }

struct Cfg { int kind, sch, flux, visc, phys, bcrot, seed; };   // kind 0 flow, 1 diffusion
static const char *FX[] = {"LLF","VANLEER","HLL","AUSM","ROE","HLLC"};
static const char *GR[] = {"NONE","LEASTSQUARES","GREENGAUSS"};
static std::string str(const Cfg& c) { return c.kind ? hx::fmt("diffusion %s field %d", GR[c.sch], c.seed) : hx::fmt("%s %s %s+%s phys %d bc %d field %d", vname(c.visc), FX[c.flux], fl::schemes()[c.sch].grad.c_str(), fl::schemes()[c.sch].rec.c_str(), c.phys, c.bcrot, c.seed); }

static std::vector<fl::BC> bcsOf(const RM& m, const Cfg& c) { return bcSet(m, [&](int i) { int k = (i+c.bcrot) % 6; if(!c.visc && k >= 4) k = 3; return k; }); }

struct Out {
	V r, r2, dt, A, Ax, mf, step;     // residual, the same without time steps, time steps, matrix (dense rows), its product, matrix-free product, explicit steps
	V istep, tstep;                   // implicit steps, unsteady steps
	V fun, grad;                      // functionals per marker, cell gradients
	V init, cstep, cfun;              // initial state of a case, states and functionals after a case run of a few steps
	bool ok = true;
};

/// evaluation on a (part of a) mesh; perm[i]: index in distributed vectors of each global cell
template <int nv> static Out evaluate(const Mesh& m, const RM& rm, const Cfg& c, const V& uglob, const std::vector<int>& perm, bool heavy) {
	const int ne = m.gnelem(), NG = (int)rm.e.size();
	Out o;
	std::unique_ptr<const Spatial<double,nv>> s;
	const fl::Phys& ph = PH[c.phys];
	FlowPhysicsConfig pc; 
	void *sp;
	if(nv == 4) {
		const fl::Scheme& sc = fl::schemes()[c.sch];
		pc = fl::pconf(ph, c.visc != INVISCID, c.visc == CONSTV, bcsOf(rm, c));
		const FlowNumericsConfig nc = fl::nconf(FX[c.flux], sc.grad, sc.rec, sc.o2, c.flux == 1 ? "LLF" : FX[c.flux], sc.lp);
		sp = (void*)static_cast<const Spatial<double,4>*>(create_const_flowSpatialDiscretization<double>(&m, pc, nc));
	} else sp = (void*)static_cast<const Spatial<double,1>*>(new DiffusionMA<1>(&m, 0.7, 0.9, [](const double *x, const double, const double *u, double *q) { q[0] = source(x[0], x[1], u[0]); }, GR[c.sch]));
	s.reset((const Spatial<double,nv>*)sp);
	V u(nv*ne);
	for(int i = 0; i < ne; i++) for(int v = 0; v < nv; v++) u[nv*i+v] = uglob[nv*m.gglobalElemIndex(i)+v];
	o.r = fl::residual<nv>(m, *s, u, &o.dt);
	{
		Vec uv = fl::mkvec<nv>(m, u), rv = fl::mkvec<nv>(m, V(nv*ne, 0.0));
		if(s->compute_residual(uv, rv, false, nullptr)) hx::fail("residual-error", "compute_residual without time steps");
		o.r2 = fl::rd(rv, nv*ne);
		// assembled matrix
		Mat A; fl::chk(setupSystemMatrix<nv>(&m, &A), "matrix");
		if(s->assemble_jacobian(uv, A)) hx::fail("jacobian-error", "assemble_jacobian returned an error");
		MatAssemblyBegin(A, MAT_FINAL_ASSEMBLY); MatAssemblyEnd(A, MAT_FINAL_ASSEMBLY);
		PetscInt lo, hi; MatGetOwnershipRange(A, &lo, &hi);
		if(hi-lo != nv*ne) { hx::fail("matrix-rows", hx::fmt("%d rows of the matrix on a rank with %d unknowns", (int)(hi-lo), nv*ne)); o.ok = false; }
		else {
			std::vector<PetscInt> cols(nv*NG); for(int i = 0; i < NG; i++) for(int v = 0; v < nv; v++) cols[nv*i+v] = nv*perm[i]+v;
			o.A.assign((size_t)nv*ne*nv*NG, 0.0);
			for(PetscInt i = lo; i < hi; i++) fl::chk(MatGetValues(A, 1, &i, nv*NG, cols.data(), &o.A[(size_t)(i-lo)*nv*NG]), "getvalues");
		}
		// products with a direction given per global cell
		V x(nv*ne); for(int i = 0; i < ne; i++) for(int v = 0; v < nv; v++) x[nv*i+v] = -1 + 2*hash01(m.gglobalElemIndex(i), v, 77);
		Vec xv = fl::mkvec<nv>(m, x), yv; VecDuplicate(xv, &yv);
		MatMult(A, xv, yv); o.Ax = fl::rd(yv, nv*ne);
		{
			Mat F; fl::chk(create_matrixfree_jacobian<nv>(s.get(), &F), "shell");
			MatrixFreeSpatialJacobian<nv> *mf; fl::chk(MatShellGetContext(F, (void*)&mf), "context");
			V md(ne); for(int i = 0; i < ne; i++) md[i] = 1.5 + hash01(m.gglobalElemIndex(i), 3, 5);
			Vec mv = fl::mkvec<1>(m, md);
			mf->set_state(uv, rv, mv);
			if(MatMult(F, xv, yv)) hx::fail("matmult-error", "matrix-free product returned an error");
			o.mf = fl::rd(yv, nv*ne);
			MatDestroy(&F); VecDestroy(&mv);
		}
		if(heavy) {
			SteadySolverConfig sc = sb::conf(0.2, 0.2, 1e-300, 2, false);
			Vec w = fl::mkvec<nv>(m, u);
			SteadyForwardEulerSolver<nv> fe(s.get(), w, sc);
			try { fe.solve(w); } catch(const std::exception&) {}
			o.step = fl::rd(w, nv*ne);
			VecDestroy(&w);
			w = fl::mkvec<nv>(m, u);
			KSP k; KSPCreate(PETSC_COMM_WORLD, &k); MatZeroEntries(A); KSPSetOperators(k, A, A); KSPSetType(k, KSPGMRES); KSPSetTolerances(k, 1e-13, 1e-300, 1e8, 400); KSPGMRESSetRestart(k, 200);
			PC pc2; KSPGetPC(k, &pc2); PCSetType(pc2, PCNONE);
			FullUpdate<nv> fu; sc.cflinit = sc.cflfin = 0.5;
			SteadyBackwardEulerSolver<nv> be(s.get(), sc, k, &fu);
			try { be.solve(w); } catch(const std::exception&) {}
			o.istep = fl::rd(w, nv*ne);
			VecDestroy(&w); KSPDestroy(&k);
			if constexpr(nv == 4) {
				double dm = INFINITY; for(double x : o.dt) dm = std::min(dm, x);
				double h = dm; __real_MPI_Allreduce(&dm, &h, 1, MPI_DOUBLE, MPI_MIN, cur);
				w = fl::mkvec<4>(m, u);
				{
					TVDRKSolver<4> rk(s.get(), w, 1+c.seed, "/dev/null", 0.3);
					try { rk.solve(1.5*0.3*h); } catch(const std::exception&) {}
				}
				o.tstep = fl::rd(w, 4*ne);
				VecDestroy(&w);
				// a whole case: starting solve, main solve, functionals
				const fl::Scheme& cs = fl::schemes()[c.sch];
				FlowParserOptions op = caseOptions(ph, bcsOf(rm, c));
				op.flowtype = c.visc == INVISCID ? "EULER" : "NAVIERSTOKES"; op.viscsim = c.visc != INVISCID; op.useconstvisc = c.visc == CONSTV; op.constvisc = op.useconstvisc ? "YES" : "NO";
				op.invflux = FX[c.flux]; op.invfluxjac = c.flux == 1 ? "LLF" : FX[c.flux]; op.gradientmethod = cs.grad; op.limiter = cs.rec; op.order2 = cs.o2; op.limiter_param = cs.lp;
				op.pseudotimetype = c.seed % 2 ? "IMPLICIT" : "EXPLICIT"; op.maxiter = op.firstmaxiter = 1; op.tolerance = op.firsttolerance = 1e-300;
				op.initcfl = op.endcfl = op.firstinitcfl = op.firstendcfl = 0.2;
				op.lwalls.assign(1, *tagsOf(rm).begin()); op.num_out_walls = 1;
				fl::chk(initializeSystemVector(op, m, &w), "initial state");
				{
					// of own cells, and of the cells across connectivity faces
					const ConstGhostedVecHandler<double> wh(w);
					for(int i = 0; i < 4*ne; i++) o.init.push_back(wh.getArray()[i]);
					const fl::St fs = fl::freestream(ph);
					for(int i = 0; i < m.gnConnFace(); i++) for(int v = 0; v < 4; v++) HX_CHECK(std::fabs(wh.getArray()[4*(ne+i)+v]-fs[v]) <= 1e-12*std::fabs(fs[0]+fs[3]), "initial-ghosts", "%s: initial value across connectivity face %d", str(c).c_str(), i);
				}
				VecDestroy(&w);
				w = fl::mkvec<4>(m, u);
				const SteadyFlowCase fc(op);
				try { const FlowSolutionFunctionals F = fc.run_output(false, false, m, w); o.cfun = {F.meshSizeParameter, F.entropy, F.CL, F.CDp, F.CDsf}; o.cstep = fl::rd(w, 4*ne); } catch(const std::exception&) { }
				VecDestroy(&w);
			}
		}
		std::vector<GradBlock_t<double,2,nv>, Eigen::aligned_allocator<GradBlock_t<double,2,nv>>> gr(ne + m.gnConnFace() + 1);
		for(auto& b : gr) b.setZero();
		s->getGradients(uv, gr.data());
		for(int i = 0; i < ne; i++) for(int v = 0; v < nv; v++) for(int k = 0; k < 2; k++) o.grad.push_back(gr[i](k,v));
		if(nv == 4) {
			auto *fv = dynamic_cast<const FlowFV_base<double>*>((const Spatial<double,4>*)sp);
			if(!fv) hx::internal_error("not a flow discretization");
			const ConstGhostedVecHandler<double> uh(uv);
			const amat::Array2dView<double> ua(uh.getArray(), ne, 4);
			for(int t : tagsOf(rm)) {
				int n = 0; for(int f = m.gPhyBFaceStart(); f < m.gPhyBFaceEnd(); f++) n += m.gbtags(f,0) == t;
				MVector<double> d; d.resize(n, 4);
				const auto q = fv->computeSurfaceData(ua, (const GradBlock_t<double,2,4>*)(void*)gr.data(), t, d);
				o.fun.push_back(std::get<0>(q)); o.fun.push_back(std::get<1>(q)); o.fun.push_back(std::get<2>(q));
			}
			IdealGasPhysics<double> phy(ph.g, ph.M, ph.Tinf, ph.Re, ph.Pr);
			FlowOutput out(fv, &phy, ph.aoa);
			o.fun.push_back(out.compute_entropy_cell(uv));
		}
		VecDestroy(&uv); VecDestroy(&rv); VecDestroy(&xv); VecDestroy(&yv); MatDestroy(&A);
	}
	return o;
}

static bool finite(const V& a) { for(double x : a) if(!std::isfinite(x)) return false; return true; }
static double amax(const V& a) { double s = 0; for(double x : a) s = std::max(s, std::fabs(x)); return s; }

struct Ctx { const RM *rm; Mesh gm, sm; std::map<std::string,Out> ref; };

template <int nv> static const Out& reference(Ctx& C, const Cfg& c, const V& u) {
	const std::string k = str(c);
	auto it = C.ref.find(k);
	if(it != C.ref.end()) return it->second;
	Alone a;
	Out& o = C.ref[k] = evaluate<nv>(C.sm, *C.rm, c, u, iota((int)C.rm->e.size()), true);
	// at states without a pressure what the fluxes return is undefined and may depend on which side of a face is called left
	if(nv == 4) {
		const Setup S(C.sm, PH[c.phys], c.visc, fl::schemes()[c.sch], FX[c.flux], bcsOf(*C.rm, c));
		const rc::Geo G(&C.sm);
		auto good = [&](const V& w) { return finite(w) && faceStates(S, C.sm, G, w).ok; };
		o.ok = o.ok && good(u);
		for(V *e : {&o.step, &o.istep, &o.tstep, &o.cstep}) {
			bool g = o.ok && e->size() == u.size() && good(*e);
			for(double a : {0.25, 0.5, 0.75}) if(g) { V w(u); for(size_t i = 0; i < w.size(); i++) w[i] += a*((*e)[i]-u[i]); g = good(w); }
			if(!g && e == &o.cstep) std::fill(o.cfun.begin(), o.cfun.end(), NAN);
			if(!g) { if(o.ok) hx::count("inadmissible_steps_skipped"); std::fill(e->begin(), e->end(), NAN); }
		}
	}
	return o;
}

template <int nv> static void compareCase(Ctx& C, const Mesh& lm, const Cfg& c, const std::vector<int>& perm, bool heavy) {
	const int NG = (int)C.rm->e.size(), ne = lm.gnelem();
	V u;
	if(nv == 4) u = mild(PH[c.phys], *C.rm, c.seed); else for(int i = 0; i < NG; i++) u.push_back(-1 + 3*hash01(i, 4, c.seed));
	const Out& R = reference<nv>(C, c, u);
	if(!finite(R.r) || !R.ok) { hx::count("inadmissible_reconstruction_skipped"); return; }
	const Out D = evaluate<nv>(lm, *C.rm, c, u, perm, heavy);
	hx::eval();
	if(!D.ok) return;
	const std::string what = str(c);
	auto cmp = [&](const V& d, const V& r, int per, const char *key, double tol) {
		if(!finite(r)) return;
		const double sc = amax(r);
		HX_CHECK((int)d.size() == per*ne, key, "%s: rank %d has %zu values", what.c_str(), wrank, d.size());
		for(size_t i = 0; i < d.size(); i++) {
			const int gi = lm.gglobalElemIndex((int)i/per)*per + (int)i%per;
			if(!(std::fabs(d[i]-r[gi]) <= tol*sc)) { hx::fail(key, hx::fmt("%s: rank %d, cell %d (global %d), entry %d: %.12g, single process %.12g", what.c_str(), wrank, (int)i/per, (int)lm.gglobalElemIndex((int)i/per), (int)i%per, d[i], r[gi])); break; }
		}
	};
	// residual: cancelling fluxes are of the size of the largest residual or the free-stream pressure
	const double flx = nv == 4 ? 1/(PH[c.phys].g*PH[c.phys].M*PH[c.phys].M)+1 : 0;
	auto cmpr = [&](const V& d, const char *key) {
		const double sc = amax(R.r) + flx;
		for(size_t i = 0; i < d.size(); i++) { const int gi = lm.gglobalElemIndex((int)i/nv)*nv + (int)i%nv; if(!(std::fabs(d[i]-R.r[gi]) <= 1e-9*sc)) { hx::fail(key, hx::fmt("%s: rank %d, global cell %d, entry %d: %.12g, single process %.12g", what.c_str(), wrank, (int)lm.gglobalElemIndex((int)i/nv), (int)i%nv, d[i], R.r[gi])); break; } }
	};
	cmpr(D.r, "residual"); cmpr(D.r2, "residual-without-time-steps");
	cmp(D.dt, R.dt, 1, "time-steps", 1e-9);
	cmp(D.A, R.A, nv*nv*NG, "jacobian", 1e-9);
	cmp(D.Ax, R.Ax, nv, "matrix-product", 1e-9);
	cmp(D.mf, R.mf, nv, "matrix-free-product", 1e-4);
	cmp(D.grad, R.grad, 2*nv, "gradients", 1e-9);
	if(heavy) { cmp(D.step, R.step, nv, "explicit-steps", 1e-8); cmp(D.istep, R.istep, nv, "implicit-steps", 1e-7); if(nv == 4) cmp(D.tstep, R.tstep, nv, "unsteady-steps", 1e-8); }
	if(heavy && nv == 4) {
		cmp(D.init, R.init, 4, "initial-state", 1e-12);
		if(R.cstep.size() && finite(R.cstep) && finite(R.cfun)) {
			cmp(D.cstep, R.cstep, 4, "case-run", 1e-7);
			HX_CHECK(D.cfun.size() == 5, "case-functionals", "%s: the distributed case run failed", what.c_str());
			static const char *N[] = {"mesh size","entropy","CL","CDp","CDsf"};
			for(int i = 0; i < 5 && D.cfun.size() == 5; i++) HX_CHECK(std::fabs(D.cfun[i]-R.cfun[i]) <= 1e-6*(std::fabs(R.cfun[i]) + (i > 1 ? amax(R.cfun) : 0)), "case-functionals", "%s: rank %d: %s is %.12g, single process %.12g", what.c_str(), wrank, N[i], D.cfun[i], R.cfun[i]);
			hx::count("case_runs_compared");
		}
	}
	if(nv == 4 && finite(R.fun)) { const double sc = amax(R.fun); for(size_t i = 0; i < R.fun.size(); i++) HX_CHECK(std::fabs(D.fun[i]-R.fun[i]) <= 1e-9*sc, "functionals", "%s: rank %d: functional %zu is %.12g, single process %.12g", what.c_str(), wrank, i, D.fun[i], R.fun[i]); }
	hx::nontrivial(hx::fnv(what));
	hx::count("products_and_vectors_compared", 8);
}

/// failures found by any rank become known to rank 0
static size_t sentViol = 0;
static void exchange() {
	std::string s;
	if(wrank) for(; sentViol < hx::S().viol.size(); sentViol++) { auto& v = hx::S().viol[sentViol]; s += v.key + "\x1f" + v.msg + "\x1e"; }
	int n = (int)s.size(); std::vector<int> N(wsize), off(wsize, 0);
	MPI_Gather(&n, 1, MPI_INT, N.data(), 1, MPI_INT, 0, MPI_COMM_WORLD);
	int tot = 0; if(!wrank) for(int i = 0; i < wsize; i++) { off[i] = tot; tot += N[i]; }
	std::string all(tot, ' ');
	MPI_Gatherv(s.data(), n, MPI_CHAR, &all[0], N.data(), off.data(), MPI_CHAR, 0, MPI_COMM_WORLD);
	if(!wrank) { size_t p = 0; while(p < all.size()) { const size_t a = all.find('\x1f', p), b = all.find('\x1e', a); hx::fail(all.substr(p, a-p), all.substr(a+1, b-a-1)); p = b+1; } }
}

static void oneAssignment(Ctx& C, const std::vector<int>& dist, long rot) {
	Mesh lm;
	{
		pt::AnyPartition P(C.gm, dist);
		lm = P.restrictMeshToPartitions();
		// each process may renumber its cells: not at all, as the options say, or anyhow
		const int kind = (int)(rot/3 % 4);
		if(kind == 1) PetscOptionsSetValue(NULL, "-mesh_reorder", "rcm");
		if(kind == 2) { PetscOptionsSetValue(NULL, "-mesh_reorder", rot % 2 ? "line" : "line_rcm"); PetscOptionsSetValue(NULL, "-mesh_anisotropy_threshold", "1.3"); }
		if(kind == 3) {
			std::vector<PetscInt> p(lm.gnelem()); for(size_t i = 0; i < p.size(); i++) p[i] = (PetscInt)i;
			for(int i = (int)p.size()-1; i > 0; i--) std::swap(p[i], p[(int)(hash01(i, wrank, (int)rot)*(i+1))]);
			lm.reorder_cells(p.data());
		}
		if(preprocessMesh<double>(lm)) hx::fail("preprocess-error", "preprocessMesh returned an error");
		PetscOptionsClearValue(NULL, "-mesh_reorder"); PetscOptionsClearValue(NULL, "-mesh_anisotropy_threshold");
	}
	// index in distributed vectors: rank by rank in local order
	std::vector<int> perm(dist.size(), -1), cnt(wsize), mine(lm.gnelem()), all(dist.size());
	for(int i = 0; i < lm.gnelem(); i++) mine[i] = lm.gglobalElemIndex(i);
	int n = lm.gnelem(); MPI_Allgather(&n, 1, MPI_INT, cnt.data(), 1, MPI_INT, MPI_COMM_WORLD);
	std::vector<int> off(wsize, 0); for(int i = 1; i < wsize; i++) off[i] = off[i-1]+cnt[i-1];
	if(off[wsize-1]+cnt[wsize-1] != (int)dist.size()) { hx::fail("cells-lost", "the ranks together do not hold all cells"); return; }
	MPI_Allgatherv(mine.data(), n, MPI_INT, all.data(), cnt.data(), off.data(), MPI_INT, MPI_COMM_WORLD);
	for(size_t i = 0; i < all.size(); i++) perm[all[i]] = (int)i;
	// every scheme with one flux, viscosity, boundary set, free stream and field chosen by rotation (thorough: several rotations)
	const int NR = hx::quick() ? 1 : 3;
	for(int q = 0; q < NR; q++) for(int s = 0; s < (int)fl::schemes().size(); s++) {
		const long k = rot + s*5 + q*13;
		if(hx::quick() && (rot+s) % 3) continue;
		const Cfg c = {0, s, (int)(k % 6), (int)(k/2 % 3), (int)(k % 3), (int)((k+rot/7) % 6), (int)(1+k%2)};
		compareCase<4>(C, lm, c, perm, (k % 4) == 0);
	}
	for(int g = 0; g < 3; g++) { if(hx::quick() && (rot+g) % 3) continue; compareCase<1>(C, lm, Cfg{1, g, 0, 0, 0, 0, (int)(rot%2)}, perm, rot % 2 == 0); }
}

int main(int argc, char **argv) {
	hx::init(argc, argv);
	hx::petsc_init();
	for(auto& kv : std::vector<std::pair<const char*,const char*>>{{"-ksp_type","gmres"},{"-pc_type","none"},{"-ksp_rtol","1e-13"},{"-ksp_atol","1e-300"},{"-ksp_max_it","400"},{"-ksp_gmres_restart","200"}}) PetscOptionsSetValue(NULL, kv.first, kv.second);
	MPI_Comm_rank(MPI_COMM_WORLD, &wrank); MPI_Comm_size(MPI_COMM_WORLD, &wsize);
	if(wrank) hx::S().out.clear();
	hx::S().cpulimit = hx::quick() ? 40 : 120;
	hx::rule("A case is one mesh x assignment of its cells to 2-4 MPI processes (every assignment using all of them, consecutive or scattered). For each: gradient/reconstruction schemes with fluxes, viscosity, boundary sets, free streams and fields rotated through (every scheme over three consecutive assignments in quick, three rotations each in thorough), and scalar diffusion; the processes number their cells as distributed, as -mesh_reorder says (rcm, line, line_rcm) or anyhow; residuals, time steps, matrices, products, functionals, two explicit and implicit steps and about two unsteady Runge-Kutta steps, and case runs (initial state, starting and main solve, functionals) compared with the same computed by one process. Distinct by case and configuration.");
	hx::assume("the single-process values are those decided by the other checks; message timing is that of the real MPI (D02 decides all schedules of the trace exchange)");
	const bool q = hx::quick();
	std::vector<std::pair<RM,int>> L;      // mesh, ranks
	auto add = [&](const RM& m, int nr) { if(nr == wsize) L.push_back({m, nr}); };
	for(long p : {0l, 5l, 40l}) { add(grid(2,2,p,DISTORTED), 2); add(grid(2,2,p,DISTORTED), 3); }
	add(grid(2,2,0,DISTORTED), 4); add(grid(3,2,0,STRETCHED), 2); add(grid(4,1,0,UNIFORM), 4); add(grid(5,1,0,DISTORTED), 3);
	add(fan(5), 2); add(fan(4), 3); add(ring(3,1,1), 2); add(ring(3,1,1), 3); add(lshape(1), 2); add(grid(3,3,0,ROTATED), 2);
	if(!q) { add(grid(2,2,80,DISTORTED), 2); add(grid(2,2,80,DISTORTED), 3); add(fan(5), 4); add(grid(3,2,7,DISTORTED), 2); add(grid(3,2,0,DISTORTED), 3); add(grid(2,2,1,DISTORTED), 4); add(lshape(1), 3); add(grid(3,3,0,ROTATED), 3); }
	for(auto& e : L) {
		const RM& m = e.first;
		std::unique_ptr<Ctx> C;
		long rot = 0;
		pt::forAssignments((int)m.e.size(), e.second, [&](const std::vector<int>& d) {
			rot++;
			if(q && m.e.size() > 6 && (rot*7) % (m.e.size() > 8 ? 16 : 4)) return;
			if(!hx::begin(hx::fmt("np%d:%s:%s", wsize, m.name.c_str(), pt::str(d).c_str()))) return;
			if(!C) { C.reset(new Ctx); C->rm = &m; C->gm = prepareGlobal(m); Alone a; C->sm = prepare(m); }
			oneAssignment(*C, d, rot);
			exchange();
			hx::sample(hx::fmt("%s over %d ranks as %s", m.name.c_str(), wsize, pt::str(d).c_str()));
		});
	}
	int rc = 0;
	if(!wrank) rc = hx::finish();
	fflush(nullptr);
	MPI_Barrier(MPI_COMM_WORLD);
	MPI_Finalize();
	_exit(rc);
}
