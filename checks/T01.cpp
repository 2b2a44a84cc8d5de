// T01: the parallel regions of the numerical code are free of data races, and their results do not depend on the number
// of threads or on the schedule. The real code runs under a controlled OpenMP runtime (common/omprt.cpp).
#include "common/petsc_init.hpp"
#include "common/flowref.hpp"
#include "common/parts.hpp"
#include "common/stub.hpp"
#include "common/omprt.hpp"
#include "spatial/aoutput.hpp"
#include "mesh/meshordering.hpp"
#include <mpi.h>
#include <link.h>
#include <omp.h>
using namespace fr;
using namespace mg;

static int wrank = 0, wsize = 1;

// ------------------------------------------------------------------ what is run
struct Prog { std::string name; std::function<V()> run; double tol; };
typedef std::vector<Prog> Progs;

static V allMat(Mat A, int N) {
	MatAssemblyBegin(A, MAT_FINAL_ASSEMBLY); MatAssemblyEnd(A, MAT_FINAL_ASSEMBLY);
	V d; PetscInt lo, hi; MatGetOwnershipRange(A, &lo, &hi);
	for(PetscInt i = lo; i < hi; i++) { PetscInt nc; const PetscInt *c; const PetscScalar *v; MatGetRow(A, i, &nc, &c, &v); d.insert(d.end(), v, v+nc); MatRestoreRow(A, i, &nc, &c, &v); }
	return d;
}

/// everything the library does with a discretization; objects live as long as the set
template <int nv> struct Set {
	const Mesh& m; const RM& rm;
	std::unique_ptr<const Spatial<double,nv>> s;
	V u;
	Vec uv, rv, dv, xv, yv, mv;
	Mat A, F;
	Progs p;
	Set(const Mesh& mm, const RM& r, const Spatial<double,nv> *sp, const V& uu) : m(mm), rm(r), s(sp), u(uu) {
		const int ne = m.gnelem();
		uv = fl::mkvec<nv>(m, u); rv = fl::mkvec<nv>(m, V(nv*ne, 0.0)); dv = fl::mkvec<1>(m, V(ne, 0.0));
		V x(nv*ne), md(ne);
		for(int i = 0; i < nv*ne; i++) x[i] = -1 + 2*hash01(i, 3, 77);
		for(int i = 0; i < ne; i++) md[i] = 1.5 + hash01(i, 3, 5);
		xv = fl::mkvec<nv>(m, x); yv = fl::mkvec<nv>(m, x); mv = fl::mkvec<1>(m, md);
		fl::chk(setupSystemMatrix<nv>(&m, &A), "matrix");
		fl::chk(create_matrixfree_jacobian<nv>(s.get(), &F), "shell");
	}
	~Set() { VecDestroy(&uv); VecDestroy(&rv); VecDestroy(&dv); VecDestroy(&xv); VecDestroy(&yv); VecDestroy(&mv); MatDestroy(&A); MatDestroy(&F); }
	void add(const std::string& n, std::function<V()> f, double tol = 1e-11) { p.push_back({n, f, tol}); }
	void residual(bool dt) {
		add(dt ? "residual and time steps" : "residual", [this,dt]() {
			const int ne = m.gnelem();
			VecSet(rv, 0); VecSet(dv, 0);
			if(s->compute_residual(uv, rv, dt, dv)) hx::fail("residual-error", "compute_residual returned an error");
			V r = fl::rd(rv, nv*ne);
			if(dt) { const V d = fl::rd(dv, ne); r.insert(r.end(), d.begin(), d.end()); }
			return r;
		});
	}
	void jacobian() {
		add("jacobian", [this]() {
			MatZeroEntries(A);
			if(s->assemble_jacobian(uv, A)) hx::fail("jacobian-error", "assemble_jacobian returned an error");
			return allMat(A, nv*m.gnelem());
		});
	}
	void gradients() {
		add("gradients", [this]() {
			std::vector<GradBlock_t<double,2,nv>, Eigen::aligned_allocator<GradBlock_t<double,2,nv>>> gr(m.gnelem() + m.gnConnFace() + 1);
			for(auto& b : gr) b.setZero();
			s->getGradients(uv, gr.data());
			V o; for(int i = 0; i < m.gnelem(); i++) for(int v = 0; v < nv; v++) for(int k = 0; k < 2; k++) o.push_back(gr[i](k,v));
			return o;
		});
	}
	void matrixfree() {
		add("matrix-free product", [this]() {
			VecSet(rv, 0); s->compute_residual(uv, rv, false, dv);
			MatrixFreeSpatialJacobian<nv> *mf; fl::chk(MatShellGetContext(F, (void*)&mf), "context");
			mf->set_state(uv, rv, mv);
			if(MatMult(F, xv, yv)) hx::fail("matmult-error", "matrix-free product returned an error");
			return fl::rd(yv, nv*m.gnelem());
		}, 1e-5);
	}
	void implicitStep(int n) {
		add("implicit steps", [this,n]() {
			SteadySolverConfig sc = sb::conf(0.5, 0.5, 1e-300, n, false);
			Vec w = fl::mkvec<nv>(m, u);
			KSP k; KSPCreate(PETSC_COMM_WORLD, &k); MatZeroEntries(A); KSPSetOperators(k, A, A); KSPSetType(k, KSPGMRES); KSPSetTolerances(k, 1e-13, 1e-300, 1e8, 400); KSPGMRESSetRestart(k, 200);
			PC pc; KSPGetPC(k, &pc); PCSetType(pc, PCNONE);
			FullUpdate<nv> fu;
			{ SteadyBackwardEulerSolver<nv> be(s.get(), sc, k, &fu); try { be.solve(w); } catch(const std::exception&) {} }
			const V r = fl::rd(w, nv*m.gnelem());
			VecDestroy(&w); KSPDestroy(&k);
			return r;
		}, 1e-7);
	}
	void explicitStep(int n) {
		add("explicit steps", [this,n]() {
			SteadySolverConfig sc = sb::conf(0.2, 0.2, 1e-300, n, false);
			Vec w = fl::mkvec<nv>(m, u);
			{ SteadyForwardEulerSolver<nv> fe(s.get(), w, sc); try { fe.solve(w); } catch(const std::exception&) {} }
			const V r = fl::rd(w, nv*m.gnelem());
			VecDestroy(&w);
			return r;
		}, 1e-8);
	}
};

static void rungeKutta(Set<4>& S, int order) {
	S.add(hx::fmt("Runge-Kutta steps of order %d", order), [&S,order]() {
		Vec w = fl::mkvec<4>(S.m, S.u);
		V dt; { Vec r = fl::mkvec<4>(S.m, V(4*S.m.gnelem(), 0.0)); VecSet(S.dv, 0); S.s->compute_residual(w, r, true, S.dv); dt = fl::rd(S.dv, S.m.gnelem()); VecDestroy(&r); }
		const double t = *std::min_element(dt.begin(), dt.end());
		if(!std::isfinite(t) || wsize > 1) { VecDestroy(&w); return V(); }
		{ TVDRKSolver<4> rk(S.s.get(), w, order, "/dev/null", 0.3); try { rk.solve(0.5*t); } catch(const std::exception&) {} }
		const V r = fl::rd(w, 4*S.m.gnelem());
		VecDestroy(&w);
		return r;
	}, 1e-8);
}
static void output(Set<4>& S, const fl::Phys& ph) {
	S.add("post-processing", [&S,ph]() {
		IdealGasPhysics<double> phy(ph.g, ph.M, ph.Tinf, ph.Re, ph.Pr);
		auto *fv = dynamic_cast<const FlowFV_base<double>*>(S.s.get());
		if(!fv) hx::internal_error("not a flow discretization");
		FlowOutput out(fv, &phy, ph.aoa);
		V o = {out.compute_entropy_cell(S.uv)};
		if(wsize == 1) {
			amat::Array2d<double> sc, ve;
			out.postprocess_point(S.uv, sc, ve);
			for(int i = 0; i < S.m.gnpoin(); i++) { for(int k = 0; k < sc.cols(); k++) o.push_back(sc(i,k)); o.push_back(ve(i,0)); o.push_back(ve(i,1)); }
			out.postprocess_cell(S.uv, sc, ve);
			for(int i = 0; i < S.m.gnelem(); i++) { for(int k = 0; k < sc.cols(); k++) o.push_back(sc(i,k)); o.push_back(ve(i,0)); o.push_back(ve(i,1)); }
		}
		std::vector<GradBlock_t<double,2,4>, Eigen::aligned_allocator<GradBlock_t<double,2,4>>> gr(S.m.gnelem() + S.m.gnConnFace() + 1);
		for(auto& b : gr) b.setZero();
		fv->getGradients(S.uv, gr.data());
		const ConstGhostedVecHandler<double> uh(S.uv);
		const amat::Array2dView<double> ua(uh.getArray(), S.m.gnelem(), 4);
		for(int t : tagsOf(S.rm)) {
			int n = 0; for(int f = S.m.gPhyBFaceStart(); f < S.m.gPhyBFaceEnd(); f++) n += S.m.gbtags(f,0) == t;
			MVector<double> d; d.resize(n, 4);
			const auto q = fv->computeSurfaceData(ua, gr.data(), t, d);
			o.push_back(std::get<0>(q)); o.push_back(std::get<1>(q)); o.push_back(std::get<2>(q));
			for(int i = 0; i < n; i++) for(int k = 0; k < 4; k++) o.push_back(d(i,k));
		}
		return o;
	});
}
static void diffusionOutput(Set<1>& S) {
	S.add("nodal values", [&S]() {
		amat::Array2d<double> a;
		scalar_postprocess_point<1>(&S.m, S.uv, a);
		V o; for(int i = 0; i < S.m.gnpoin(); i++) o.push_back(a(i,0));
		return o;
	});
}

static const fl::Phys PH[] = {{1.4, 0.4, 290, 30, 0.72, 0.1}, {1.4, 1.6, 250, 200, 0.9, -0.7}, {1.25, 0.15, 400, 8, 1.1, 2.4}};
static const char *FX[] = {"LLF","VANLEER","HLL","AUSM","ROE","HLLC"};
static const char *GR[] = {"NONE","LEASTSQUARES","GREENGAUSS"};
static double source(double x, double y, double u) { return 0.4*u*u - x + 2*y*y; }

struct Cfg { int kind, sch, flux, visc, phys, bcrot, seed; };
static std::string str(const Cfg& c) { return c.kind ? hx::fmt("diffusion %s", GR[c.sch]) : hx::fmt("%s %s %s+%s phys %d bc %d", vname(c.visc), FX[c.flux], fl::schemes()[c.sch].grad.c_str(), fl::schemes()[c.sch].rec.c_str(), c.phys, c.bcrot); }

static std::unique_ptr<Set<4>> flowSet(const Mesh& m, const RM& rm, const Cfg& c) {
	const fl::Scheme& sc = fl::schemes()[c.sch];
	const auto bcs = bcSet(rm, [&](int i) { int k = (i+c.bcrot) % 6; if(!c.visc && k >= 4) k = 3; return k; });
	const FlowPhysicsConfig pc = fl::pconf(PH[c.phys], c.visc != INVISCID, c.visc == CONSTV, bcs);
	const FlowNumericsConfig nc = fl::nconf(FX[c.flux], sc.grad, sc.rec, sc.o2, c.flux == 1 ? "LLF" : FX[c.flux], sc.lp);
	const V ug = mild(PH[c.phys], rm, c.seed);
	V u; for(int i = 0; i < m.gnelem(); i++) for(int v = 0; v < 4; v++) u.push_back(ug[4*m.gglobalElemIndex(i)+v]);
	return std::unique_ptr<Set<4>>(new Set<4>(m, rm, create_const_flowSpatialDiscretization<double>(&m, pc, nc), u));
}
static std::unique_ptr<Set<1>> diffSet(const Mesh& m, const RM& rm, const Cfg& c) {
	V u; for(int i = 0; i < m.gnelem(); i++) u.push_back(-1 + 3*hash01(m.gglobalElemIndex(i), 4, c.seed));
	return std::unique_ptr<Set<1>>(new Set<1>(m, rm, new DiffusionMA<1>(&m, 0.7, 0.9, [](const double *x, const double, const double *u, double *q) { q[0] = source(x[0], x[1], u[0]); }, GR[c.sch]), u));
}

// ------------------------------------------------------------------ reporting
static unsigned long base = 0;
static int phdr(struct dl_phdr_info *i, size_t, void *) { base = i->dlpi_addr; return 1; }
static std::string lookup(unsigned long pc) {
	if(!base) dl_iterate_phdr(phdr, nullptr);
	char exe[4096]; ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1); exe[n > 0 ? n : 0] = 0;
	FILE *f = popen(hx::fmt("addr2line -i -e '%s' 0x%lx 2>/dev/null", exe, pc - base - 1).c_str(), "r");
	std::string s, last; char b[4096];
	if(f) {
		while(fgets(b, sizeof b, f)) {
			std::string l = b; while(!l.empty() && (l.back() == '\n' || l.back() == ' ')) l.pop_back();
			const size_t par = l.find(" ("); if(par != std::string::npos) l = l.substr(0, par);
			last = l;
			if(l.find("/src/") != std::string::npos && l.find("eigen") == std::string::npos) { s = l; break; }
		}
		pclose(f);
	}
	if(s.empty()) s = last;
	const size_t p = s.rfind('/'); if(p != std::string::npos) s = s.substr(p+1);
	return s.empty() ? "?" : s;
}
static std::string where(unsigned long pc) {
	static std::map<unsigned long,std::string> cache;
	auto it = cache.find(pc);
	if(it == cache.end()) it = cache.insert({pc, lookup(pc)}).first;
	return it->second;
}
static std::string file(const std::string& w) { return w.substr(0, w.find(':')); }
static void reportRaces(const std::string& what) {
	for(long i = 0; i < std::min(ort::nraces(), 64l); i++) {
		const ort::Race r = ort::race(i);
		static std::set<std::pair<unsigned long,unsigned long>> told;
		if(!told.insert({r.pc1, r.pc2}).second) continue;
		const std::string a = where(r.pc1), b = where(r.pc2);
		hx::fail("race-" + file(r.w1 ? a : b), hx::fmt("%s: threads %d and %d access the same memory without synchronisation: %s at %s, %s at %s", what.c_str(), r.t1, r.t2, r.w1 ? "write" : "read", a.c_str(), r.w2 ? "write" : "read", b.c_str()));
	}
	if(ort::error()[0]) hx::fail("structure", what + ": " + ort::error());
	ort::clear_races(); ort::clear_error();
}
static double amax(const V& a) { double s = 0; for(double x : a) if(std::isfinite(x)) s = std::max(s, std::fabs(x)); return s; }
static bool same(const V& a, const V& b, double tol, const std::string& what, const char *key) {
	const double sc = amax(b);
	if(a.size() != b.size()) { hx::fail(key, what + hx::fmt(": %zu values instead of %zu", a.size(), b.size())); return false; }
	for(size_t i = 0; i < a.size(); i++) {
		if(std::isfinite(a[i]) != std::isfinite(b[i]) || (std::isfinite(b[i]) && !(std::fabs(a[i]-b[i]) <= tol*sc))) { hx::fail(key, what + hx::fmt(": value %zu is %.15g, with one thread %.15g", i, a[i], b[i])); return false; }
	}
	return true;
}

static bool close(const V& a, const V& b, double tol) {
	const double sc = amax(b);
	if(a.size() != b.size()) return false;
	for(size_t i = 0; i < a.size(); i++) if(std::isfinite(a[i]) != std::isfinite(b[i]) || (std::isfinite(b[i]) && !(std::fabs(a[i]-b[i]) <= tol*sc))) return false;
	return true;
}

// ------------------------------------------------------------------ (a) conflicts, for every team size of a list
static std::vector<int> teams(const Mesh& m) {
	const int N = std::min<int>(std::max<long>(m.gnaface(), m.gnpoin()) + 1, 390);
	std::vector<int> t = {N, 2, 3};
	if(!hx::quick()) { t.push_back(4); t.push_back(5); t.push_back(7); t.push_back(N/2+1); }
	return t;
}
static void detectAll(const Mesh& m, const Progs& ps, const std::string& what) {
	for(auto& p : ps) {
		ort::team(1); ort::detect(false);
		const V ref = p.run();
		for(int n : teams(m)) {
			ort::team(n); ort::detect(true); ort::clear_stats();
			const V r = p.run();
			ort::detect(false); ort::team(1);
			const ort::Stats s = ort::stats();
			hx::count("parallel_regions", s.regions); hx::count("accesses_checked", s.accesses); hx::count("atomic_operations", s.atomics); hx::count("critical_sections", s.criticals);
			hx::count("transitions", s.switches + s.barriers);
			hx::count("states", s.regions);
			reportRaces(hx::fmt("%s, %s, %d threads", what.c_str(), p.name.c_str(), n));
			same(r, ref, p.tol, hx::fmt("%s, %s, %d threads", what.c_str(), p.name.c_str(), n), "threads-change-result");
			hx::eval(); hx::count("traces_validated_against_impl");
			hx::nontrivial(hx::fnv(what + p.name) + n);
		}
	}
}

// ------------------------------------------------------------------ (b) all schedules with a bounded number of deviations
// The canonical schedule runs each thread until it ends or waits, in the order of their numbers. A deviation is a preemption at
// a synchronisation operation, or the choice of another thread where the running one cannot go on.
static int cost(const ort::Point& p) { return p.chosen != 0 ? 1 : 0; }
static void explore(const Prog& p, int team, int bound, const std::string& what) {
	ort::team(1); ort::detect(false);
	const V ref = p.run();
	ort::team(team); ort::detect(true);
	ort::begin_run(-1, nullptr, 0);
	p.run(); p.run();
	const int regions = ort::regions_run()/2;
	ort::end_run();
	int growths = 0; bool everywhere = false;
	ort::points_everywhere(false);
	for(int reg = 0; reg < regions; reg++) {
		ort::clear_contended();
restart:
		const long con0 = ort::contended();
		std::vector<int> ch; long runs = 0;
		for(;;) {
			ort::clear_stats();
			ort::begin_run(reg, ch.data(), (int)ch.size());
			const V r = p.run();
			ort::end_run();
			runs++;
			const ort::Stats s = ort::stats();
			hx::count("states", s.points + 1); hx::count("transitions", s.switches + s.barriers);
			hx::count("schedules_explored"); hx::count("traces_validated_against_impl");
			hx::eval();
			if(ort::replay_differs() && ort::contended() == con0) hx::internal_error("schedule not reproducible: " + what + " " + p.name);
			const bool bad = ort::nraces() || ort::error()[0], diff = !close(r, ref, p.tol);
			if(bad || diff) {
				const std::string w = hx::fmt("%s, %s, %d threads, region %d, schedule %ld", what.c_str(), p.name.c_str(), team, reg, runs);
				if(bad) reportRaces(w); else same(r, ref, p.tol, w, "schedule-changes-result");
				break;
			}
			if(ort::contended() > con0 && !everywhere) {
				if(++growths > 60) { everywhere = true; ort::points_everywhere(true); hx::count("explorations_without_location_filter"); }
				goto restart;
			}
			// next schedule: deepest point with an untried option within the bound
			const int n = ort::npoints();
			std::vector<int> c(n), pre(n+1, 0);
			for(int i = 0; i < n; i++) { c[i] = ort::point(i).chosen; pre[i+1] = pre[i] + cost(ort::point(i)); }
			int i = n-1;
			for(; i >= 0; i--) {
				const ort::Point q = ort::point(i);
				if(q.chosen+1 >= q.nopt) continue;
				if(pre[i] + 1 > bound) continue;
				break;
			}
			if(i < 0) break;
			ch.assign(c.begin(), c.begin()+i+1);
			ch[i]++;
		}
		hx::nontrivial(hx::fnv(what + p.name) + team*1000 + reg);
	}
	ort::detect(false); ort::team(1);
}

/// failures found by any rank become known to rank 0
static size_t sentViol = 0;
static void exchange() {
	if(wsize == 1) return;
	std::string s;
	if(wrank) for(; sentViol < hx::S().viol.size(); sentViol++) { auto& v = hx::S().viol[sentViol]; s += v.key + "\x1f" + v.msg + "\x1e"; }
	int n = (int)s.size(); std::vector<int> N(wsize), off(wsize, 0);
	MPI_Gather(&n, 1, MPI_INT, N.data(), 1, MPI_INT, 0, MPI_COMM_WORLD);
	int tot = 0; if(!wrank) for(int i = 0; i < wsize; i++) { off[i] = tot; tot += N[i]; }
	std::string all(tot, ' ');
	MPI_Gatherv(s.data(), n, MPI_CHAR, &all[0], N.data(), off.data(), MPI_CHAR, 0, MPI_COMM_WORLD);
	if(!wrank) { size_t p = 0; while(p < all.size()) { const size_t a = all.find('\x1f', p), b = all.find('\x1e', a); hx::fail(all.substr(p, a-p), all.substr(a+1, b-a-1)); p = b+1; } }
}

static void fullSet(Set<4>& S, const Cfg& c, bool heavy) {
	S.residual(true); S.residual(false); S.gradients(); S.jacobian(); S.matrixfree();
	output(S, PH[c.phys]);
	if(heavy) { S.explicitStep(2); S.implicitStep(2); for(int o = 1; o <= 3; o++) rungeKutta(S, o); }
}
static void fullSet(Set<1>& S, bool heavy) {
	S.residual(true); S.residual(false); S.gradients(); S.jacobian(); S.matrixfree(); diffusionOutput(S);
	if(heavy) { S.explicitStep(2); S.implicitStep(2); }
}

/// orderings and coloured levels of a mesh
static void orderingSet(const RM& rm, Progs& ps) {
	ps.push_back({"orderings", [&rm]() {
		V o;
		for(int k = 0; k < 4; k++) {
			Mesh m = prepareGlobal(rm);
			if(k == 0) lineReorder(m, 2.0);
			else if(k == 1) hybridLineReorder(m, 2.0, "rcm");
			else preprocessMesh<double>(m);
			if(k >= 2) { const auto l = levelSchedule<double>(m); for(auto x : l) o.push_back(x); }
			for(int i = 0; i < m.gnelem(); i++) for(int j = 0; j < m.gnnode(i); j++) o.push_back(m.ginpoel(i,j));
		}
		return o;
	}, 0});
}

int main(int argc, char **argv) {
	hx::init(argc, argv);
	hx::petsc_init();
	MPI_Comm_rank(MPI_COMM_WORLD, &wrank); MPI_Comm_size(MPI_COMM_WORLD, &wsize);
	if(wrank) hx::S().out.clear();
	hx::S().cpulimit = 600;
	hx::rule("Part 1 (conflicts): mesh x scheme x flux x viscosity x program (residual, time steps, gradients, Jacobian, matrix-free product, explicit, implicit and Runge-Kutta steps, post-processing, orderings; scalar diffusion likewise), one process and parts of meshes on two processes; every access of the instrumented code inside parallel regions for teams of 2, 3 and one thread per loop iteration is compared with every other one between the same barriers. Part 2 (schedules): every interleaving at synchronisation points that deviates from running the threads one after the other (by a preemption, or by another choice of the next thread) at most the stated number of times per region, on tiny meshes, results compared with those of one thread. Distinct by case, program, team.");
	hx::assume("accesses inside libpetsc are represented by one access to the object per insertion call; conflicts are judged by barriers, locks and atomicity");
	const bool q = hx::quick();
	const std::string pre = hx::fmt("np%d:", wsize);
	// ---- part 1
	std::vector<RM> L = {grid(3,2,5,DISTORTED), ring(4,2,3), fan(6), lshape(1), grid(4,3,100,STRETCHED), single(4)};
	if(!q) { L.push_back(grid(5,4,31,ROTATED)); L.push_back(ring(8,3,21)); L.push_back(grid(6,1,9,DISTORTED)); L.push_back(single(3)); L.push_back(fan(9)); }
	if(wsize == 1) {
		int im = 0;
		for(auto& rm : L) {
			im++;
			for(int s = 0; s < (int)fl::schemes().size(); s++) for(int k = 0; k < (q ? 3 : 6); k++) {
				if(!hx::begin(pre + hx::fmt("conflicts:%s:%d:%d", rm.name.c_str(), s, k))) continue;
				const Mesh m = prepare(rm);
				const Cfg c = {0, s, (im+s+k) % 6, k % 3, (im+k) % 3, (s+2*k+im) % 6, 1+k%2};
				auto S = flowSet(m, rm, c);
				fullSet(*S, c, (s+im+k) % 3 == 0);
				hx::sample(rm.name + " " + str(c));
				detectAll(m, S->p, rm.name + " " + str(c));
			}
			for(int g = 0; g < 3; g++) {
				if(!hx::begin(pre + hx::fmt("conflicts-diffusion:%s:%d", rm.name.c_str(), g))) continue;
				const Mesh m = prepare(rm);
				const Cfg c = {1, g, 0, 0, 0, 0, 1};
				auto S = diffSet(m, rm, c);
				fullSet(*S, true);
				detectAll(m, S->p, rm.name + " " + str(c));
			}
			if(hx::begin(pre + "conflicts-orderings:" + rm.name)) {
				Progs ps; orderingSet(rm, ps);
				detectAll(prepare(rm), ps, rm.name);
			}
		}
		// ---- part 2
		struct T { RM m; int team, bound; };
		std::vector<T> X = {{grid(2,1,0,DISTORTED),2,3}, {grid(2,1,0,DISTORTED),3,2}, {fan(3),2,3}, {fan(3),3,2}, {grid(2,2,1,DISTORTED),2,2}, {grid(2,2,1,DISTORTED),4,1}, {fan(5),5,1}, {grid(3,2,5,DISTORTED),6,1}, {ring(3,1,1),3,1}};
		if(!q) { X.push_back({grid(2,1,0,DISTORTED),2,4}); X.push_back({grid(2,1,0,DISTORTED),3,3}); X.push_back({fan(3),2,4}); X.push_back({fan(3),3,3}); X.push_back({grid(2,2,1,DISTORTED),2,3}); X.push_back({grid(2,2,1,DISTORTED),4,2}); X.push_back({fan(5),5,2}); X.push_back({ring(3,1,1),3,2}); }
		for(auto& t : X) for(int pk = 0; pk < 4; pk++) {
			// residual with every scheme; Jacobian; implicit step
			for(int s = 0; s < (int)fl::schemes().size(); s++) {
				if(pk && (s % 5) != pk) continue;
				if(!hx::begin(pre + hx::fmt("schedules:%s:%d:%d:%d:%d", t.m.name.c_str(), t.team, t.bound, pk, s))) continue;
				const Mesh m = prepare(t.m);
				const Cfg c = {0, s, (s+pk) % 6, (s+pk) % 3, 0, s % 6, 1};
				auto S = flowSet(m, t.m, c);
				if(pk == 0) { if(s % 2) S->residual(true); else S->residual(false); }
				else if(pk == 1) S->jacobian();
				else if(pk == 2) S->implicitStep(1);
				else S->explicitStep(2);
				explore(S->p[0], t.team, t.bound, t.m.name + " " + str(c));
				hx::sample(t.m.name + " " + str(c));
			}
			for(int g = 0; g < 3; g++) {
				if(!hx::begin(pre + hx::fmt("schedules-diffusion:%s:%d:%d:%d:%d", t.m.name.c_str(), t.team, t.bound, pk, g))) continue;
				const Mesh m = prepare(t.m);
				const Cfg c = {1, g, 0, 0, 0, 0, 1};
				auto S = diffSet(m, t.m, c);
				if(pk == 0) S->residual(g % 2);
				else if(pk == 1) S->jacobian();
				else if(pk == 2) S->implicitStep(1);
				else S->explicitStep(2);
				explore(S->p[0], t.team, t.bound, t.m.name + " " + str(c));
			}
		}
	} else {
		// parts of meshes: the loops over connectivity faces
		struct P { RM m; std::vector<int> d; };
		std::vector<P> X;
		auto half = [](const RM& m, int how) { std::vector<int> d(m.e.size()); for(size_t i = 0; i < d.size(); i++) d[i] = how == 0 ? (i >= d.size()/2) : how == 1 ? (int)(i % 2) : (int)(i == d.size()/2); return d; };
		for(int how = 0; how < 3; how++) { X.push_back({grid(3,2,5,DISTORTED), half(grid(3,2,5,DISTORTED), how)}); X.push_back({fan(6), half(fan(6), how)}); X.push_back({ring(4,2,3), half(ring(4,2,3), how)}); }
		int ix = 0;
		for(auto& x : X) for(int s = 0; s < (int)fl::schemes().size() + 3; s++) {
			ix++;
			if(q && (ix + s) % 2) continue;
			if(!hx::begin(pre + hx::fmt("conflicts:%s:%s:%d", x.m.name.c_str(), pt::str(x.d).c_str(), s))) continue;
			const Mesh gm = prepareGlobal(x.m);
			Mesh lm;
			{ pt::AnyPartition P_(gm, x.d); lm = P_.restrictMeshToPartitions(); preprocessMesh<double>(lm); }
			if(s < (int)fl::schemes().size()) {
				const Cfg c = {0, s, ix % 6, (ix/2) % 3, ix % 3, (s+ix) % 6, 1};
				auto S = flowSet(lm, x.m, c);
				fullSet(*S, c, false);
				if(ix % 3 == 0) { S->explicitStep(2); S->implicitStep(2); }
				detectAll(lm, S->p, x.m.name + " on 2 processes " + str(c));
			} else {
				const Cfg c = {1, s - (int)fl::schemes().size(), 0, 0, 0, 0, 1};
				auto S = diffSet(lm, x.m, c);
				S->residual(true); S->gradients(); S->jacobian(); S->explicitStep(2); S->implicitStep(2);
				detectAll(lm, S->p, x.m.name + " on 2 processes " + str(c));
			}
			exchange();
		}
	}
	int rc = 0;
	if(!wrank) rc = hx::finish();
	fflush(nullptr);
	MPI_Barrier(MPI_COMM_WORLD);
	MPI_Finalize();
	_exit(rc);
}
