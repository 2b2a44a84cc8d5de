// I01: what a discretization or solver answers depends on the state it is given, not on what was asked before nor on stale memory
#include "common/petsc_init.hpp"
#include "common/flowref.hpp"
#include "common/stub.hpp"
#include "spatial/aoutput.hpp"
#include <cstdlib>
#include <new>
using namespace fr;
using namespace mg;

// memory allocated by the code under test is handed out filled with a pattern that changes from one operation to the next
static int pattern = 0;
extern "C" {
void *__real_malloc(size_t);
void *__wrap_malloc(size_t n) {
	void *p = __real_malloc(n);
	if(!p || !pattern) return p;
	if(pattern == 1) memset(p, 0xff, n);                        // NaN, -1
	else { const double d = -7.25e3; unsigned char *c = (unsigned char*)p; size_t i = 0; for(; i + 8 <= n; i += 8) memcpy(c+i, &d, 8); for(; i < n; i++) c[i] = 0x5a; }
	return p;
}
}
void *operator new(size_t n) { void *p = malloc(n ? n : 1); if(!p) abort(); return p; }
void *operator new[](size_t n) { void *p = malloc(n ? n : 1); if(!p) abort(); return p; }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
__attribute__((noinline)) static void poisonStack(int pat) { volatile unsigned char a[40000]; for(size_t i = 0; i < sizeof a; i++) a[i] = pat == 1 ? 0xff : 0x3c; }

static const fl::Phys PH[] = {{1.4, 0.4, 290, 30, 0.72, 0.1}, {1.4, 1.6, 250, 200, 0.9, -0.7}, {1.3, 0.15, 400, 8, 1.1, 2.4}};
struct Op { std::string name; std::function<V()> run; };
static void cat(V& a, const V& b) { a.insert(a.end(), b.begin(), b.end()); }
static void cat(V& a, const amat::Array2d<double>& b) { for(int i = 0; i < b.rows(); i++) for(int j = 0; j < b.cols(); j++) a.push_back(b(i,j)); }

template <int nv> static V gradients(const Mesh& m, const Spatial<double,nv>& s, const V& u) {
	Vec uv = fl::mkvec<nv>(m, u);
	std::vector<GradBlock_t<double,2,nv>, Eigen::aligned_allocator<GradBlock_t<double,2,nv>>> g(m.gnelem());
	for(auto& b : g) b.setConstant(pattern == 1 ? 3e5 : -4e4);   // the caller's memory is not clean either
	s.getGradients(uv, g.data());
	V r; for(auto& b : g) for(int v = 0; v < nv; v++) for(int k = 0; k < 2; k++) r.push_back(b(k,v));
	VecDestroy(&uv);
	return r;
}
template <int nv> static V product(const Mesh& m, const Spatial<double,nv>& s, const V& u) {
	const int ne = m.gnelem();
	V x(nv*ne), md(ne), r = fl::residual<nv>(m, s, u);
	for(size_t i = 0; i < x.size(); i++) x[i] = -1 + 2*hash01((int)i, 2, 77);
	for(int i = 0; i < ne; i++) md[i] = 1.5 + hash01(i, 3, 5);
	Vec uv = fl::mkvec<nv>(m, u), rv = fl::mkvec<nv>(m, r), mv = fl::mkvec<1>(m, md), xv = fl::mkvec<nv>(m, x), yv = fl::mkvec<nv>(m, V(nv*ne, pattern == 1 ? 9e9 : -1.0));
	Mat F; fl::chk(create_matrixfree_jacobian<nv>(&s, &F), "shell");
	MatrixFreeSpatialJacobian<nv> *mf; fl::chk(MatShellGetContext(F, (void*)&mf), "context");
	mf->set_state(uv, rv, mv);
	if(MatMult(F, xv, yv)) hx::fail("matmult-error", "matrix-free product returned an error");
	const V y = fl::rd(yv, nv*ne);
	for(Vec *v : {&uv,&rv,&mv,&xv,&yv}) VecDestroy(v);
	MatDestroy(&F);
	return y;
}

/// the objects one sequence of operations uses
struct FlowWorld {
	const Mesh& um; Setup S; FlowOutput out; const V &a, &b;
	Mat M; KSP k; FullUpdate<4> fu;
	SteadySolverConfig sc; Vec dummy;
	SteadySolverConfig st;
	std::unique_ptr<SteadyForwardEulerSolver<4>> fe; std::unique_ptr<SteadyBackwardEulerSolver<4>> be, bt;
	std::vector<int> tags;
	FlowWorld(const Mesh& m, const fl::Phys& p, int v, const fl::Scheme& sch, const std::string& fx, const std::vector<fl::BC>& bcs, const V& aa, const V& bb)
		: um(m), S(m, p, v, sch, fx, bcs), out(dynamic_cast<const FlowFV_base<double>*>(S.s.get()), S.phy.get(), p.aoa), a(aa), b(bb) {
		fl::chk(setupSystemMatrix<4>(&m, &M), "matrix");
		KSPCreate(PETSC_COMM_WORLD, &k); KSPSetOperators(k, M, M); KSPSetType(k, KSPGMRES); KSPSetTolerances(k, 1e-12, 1e-300, 1e8, 300); KSPGMRESSetRestart(k, 100);
		PC pc; KSPGetPC(k, &pc); PCSetType(pc, PCNONE);
		sc = sb::conf(0.2, 0.4, 1e-300, 2, false);
		dummy = fl::mkvec<4>(m, a);
		fe.reset(new SteadyForwardEulerSolver<4>(S.s.get(), dummy, sc));
		be.reset(new SteadyBackwardEulerSolver<4>(S.s.get(), sc, k, &fu));
		st = sb::conf(0.3, 2, 0.7, 5, false);
		bt.reset(new SteadyBackwardEulerSolver<4>(S.s.get(), st, k, &fu));
		for(auto& c : bcs) tags.push_back(c.tag);
	}
	~FlowWorld() { fe.reset(); be.reset(); bt.reset(); VecDestroy(&dummy); KSPDestroy(&k); MatDestroy(&M); }
	V solve(SteadySolver<4>& s, const V& u0) {
		Vec w = fl::mkvec<4>(um, u0);
		int o = 0;
		try { s.solve(w); } catch(const Tolerance_error&) { o = 1; } catch(const Numerical_error&) { o = 2; }
		V r = fl::rd(w, 4*um.gnelem());
		const TimingData td = s.getTimingData();
		r.push_back(o); r.push_back(td.num_timesteps); r.push_back(td.converged);
		VecDestroy(&w);
		return r;
	}
	V surface(const V& u) {
		V r;
		Vec uv = fl::mkvec<4>(um, u);
		std::vector<GradBlock_t<double,2,4>, Eigen::aligned_allocator<GradBlock_t<double,2,4>>> g(um.gnelem());
		for(auto& x : g) x.setZero();
		S.s->getGradients(uv, g.data());
		const FlowFV_base<double> *fv = dynamic_cast<const FlowFV_base<double>*>(S.s.get());
		{
			const ConstGhostedVecHandler<double> uh(uv);
			const amat::Array2dView<double> ua(uh.getArray(), um.gnelem(), 4);
			for(int t : tags) {
				int n = 0; for(int f = um.gPhyBFaceStart(); f < um.gPhyBFaceEnd(); f++) n += um.gbtags(f,0) == t;
				MVector<double> d; d.resize(n, 4); d.setConstant(-3);
				const auto q = fv->computeSurfaceData(ua, g.data(), t, d);
				r.push_back(std::get<0>(q)); r.push_back(std::get<1>(q)); r.push_back(std::get<2>(q));
				for(int i = 0; i < n; i++) for(int j = 0; j < 4; j++) r.push_back(d(i,j));
			}
		}
		r.push_back(out.compute_entropy_cell(uv));
		VecDestroy(&uv);
		return r;
	}
	V fields(const V& u, bool point) {
		Vec uv = fl::mkvec<4>(um, u);
		amat::Array2d<double> s, v; V r;
		if(point ? out.postprocess_point(uv, s, v) : out.postprocess_cell(uv, s, v)) hx::fail("postprocess-error", "postprocessing returned an error");
		cat(r, s); cat(r, v);
		VecDestroy(&uv);
		return r;
	}
	V rk(const V& u, int order, double h) {
		Vec w = fl::mkvec<4>(um, u);
		{ TVDRKSolver<4> s(S.s.get(), w, order, "/dev/null", 0.3); try { s.solve(1.4*0.3*h); } catch(const std::exception&) {} }
		const V r = fl::rd(w, 4*um.gnelem()); VecDestroy(&w);
		return r;
	}
	std::vector<Op> ops(double ha) {
		const Spatial<double,4>& s = *S.s;
		return {
			{"residual(a)", [this,&s]() { V dt, r = fl::residual<4>(um, s, a, &dt); cat(r, dt); return r; }},
			{"residual(b) without time steps", [this,&s]() { return fl::residual<4>(um, s, b); }},
			{"residual(b)", [this,&s]() { V dt, r = fl::residual<4>(um, s, b, &dt); cat(r, dt); return r; }},
			{"jacobian(a)", [this,&s]() { return fl::jacobian<4>(um, s, a); }},
			{"jacobian(b)", [this,&s]() { return fl::jacobian<4>(um, s, b); }},
			{"gradients(a)", [this,&s]() { return gradients<4>(um, s, a); }},
			{"gradients(b)", [this,&s]() { return gradients<4>(um, s, b); }},
			{"surface(a)", [this]() { return surface(a); }},
			{"surface(b)", [this]() { return surface(b); }},
			{"product(b)", [this,&s]() { return product<4>(um, s, b); }},
			{"points(a)", [this]() { return fields(a, true); }},
			{"cells(b)", [this]() { return fields(b, false); }},
			{"forward-euler(a)", [this]() { return solve(*fe, a); }},
			{"backward-euler(b)", [this]() { return solve(*be, b); }},
			{"backward-euler(a)", [this]() { return solve(*be, a); }},
			{"backward-euler to tolerance(a)", [this]() { return solve(*bt, a); }},
			{"backward-euler to tolerance(b)", [this]() { return solve(*bt, b); }},
			{"runge-kutta(a)", [this,ha]() { return rk(a, 2, ha); }},
		};
	}
};
struct DiffWorld {
	const Mesh& um; DiffusionMA<1> s; const V &a, &b;
	DiffWorld(const Mesh& m, const std::string& g, const V& aa, const V& bb) : um(m), s(&m, 0.7, 0.9, [](const double *x, const double, const double *u, double *q) { q[0] = 0.4*u[0]*u[0] - x[0] + 2*x[1]*x[1]; }, g), a(aa), b(bb) {}
	std::vector<Op> ops() {
		return {
			{"residual(a)", [this]() { V dt, r = fl::residual<1>(um, s, a, &dt); cat(r, dt); return r; }},
			{"residual(b)", [this]() { return fl::residual<1>(um, s, b); }},
			{"jacobian(a)", [this]() { return fl::jacobian<1>(um, s, a); }},
			{"gradients(a)", [this]() { return gradients<1>(um, s, a); }},
			{"gradients(b)", [this]() { return gradients<1>(um, s, b); }},
			{"product(b)", [this]() { return product<1>(um, s, b); }},
			{"points(a)", [this]() { Vec uv = fl::mkvec<1>(um, a); amat::Array2d<double> up; scalar_postprocess_point<1>(&um, uv, up); V r; cat(r, up); VecDestroy(&uv); return r; }},
		};
	}
};

static bool same(const V& a, const V& b, std::string& why) {
	if(a.size() != b.size()) { why = hx::fmt("%zu values instead of %zu", a.size(), b.size()); return false; }
	double sc = 0; for(double x : b) if(std::isfinite(x)) sc = std::max(sc, std::fabs(x));
	for(size_t i = 0; i < a.size(); i++) {
		if(a[i] == b[i] || (std::isnan(a[i]) && std::isnan(b[i])) || std::fabs(a[i]-b[i]) <= 1e-11*sc) continue;
		why = hx::fmt("value %d is %.15g instead of %.15g", (int)i, a[i], b[i]);
		return false;
	}
	return true;
}

/// shortest cyclic sequence over k symbols containing every word of length n
static std::vector<int> deBruijn(int k, int n) {
	std::vector<int> a(k*n, 0), s;
	std::function<void(int,int)> db = [&](int t, int p) {
		if(t > n) { if(n % p == 0) s.insert(s.end(), a.begin()+1, a.begin()+p+1); return; }
		a[t] = a[t-p]; db(t+1, p);
		for(int j = a[t-p]+1; j < k; j++) { a[t] = j; db(t+1, t); }
	};
	db(1, 1);
	for(int i = 0; i < n-1; i++) s.push_back(s[i]);
	return s;
}

/// make: builds fresh objects and gives their operations; other: an operation on unrelated objects of the process
template <typename World> static void explore(const std::function<std::unique_ptr<World>()>& make, const std::function<std::vector<Op>(World&)>& opsof, const std::function<void()>& other, const std::string& what, int depth, bool triples) {
	std::vector<V> base; int K = 0;
	std::vector<std::string> names;
	auto run = [&](const Op& o, int pat) { pattern = pat; poisonStack(pat); V r = o.run(); pattern = 0; return r; };
	for(int i = 0; ; i++) {
		pattern = 1;
		auto w = make(); pattern = 0;
		auto ops = opsof(*w); K = (int)ops.size();
		if(i >= K) break;
		names.push_back(ops[i].name);
		base.push_back(run(ops[i], 1));
	}
	auto judge = [&](const V& r, int op, const std::string& hist) {
		hx::eval(); std::string why;
		if(same(r, base[op], why)) return true;
		hx::fail("history", hx::fmt("%s: %s after [%s]: %s", what.c_str(), names[op].c_str(), hist.c_str(), why.c_str()));
		return false;
	};
	// fresh objects in differently filled memory, and all sequences of two (three) from fresh objects; X: something unrelated in between
	const int len = triples ? 3 : 2;
	std::vector<int> seq(len, 0);
	for(;;) {
		pattern = 2; auto w = make(); pattern = 0;
		auto ops = opsof(*w);
		std::string hist; bool ok = true;
		for(int i = 0; i < len && ok; i++) {
			ok = judge(run(ops[seq[i]], 2 - (i+seq[0]) % 2), seq[i], hist);
			hist += names[seq[i]] + "; ";
			if(i + 1 < len && (seq[i]+seq[i+1]) % 3 == 0) { other(); hist += "X; "; }
		}
		hx::nontrivial(hx::fnv(hist));
		if(!ok) return;
		int d = len-1; while(d >= 0 && ++seq[d] == K) seq[d--] = 0;
		if(d < 0) break;
	}
	// one long history of the same objects that contains every sequence of `depth` operations
	pattern = 2; auto w = make(); pattern = 0;
	auto ops = opsof(*w);
	std::vector<std::string> last;
	const std::vector<int> S = deBruijn(K, depth);
	for(size_t i = 0; i < S.size(); i++) {
		std::string hist; for(size_t j = last.size() > 6 ? last.size()-6 : 0; j < last.size(); j++) hist += last[j] + "; ";
		if(!judge(run(ops[S[i]], 1 + (int)(i % 2)), S[i], "... " + hist)) return;
		last.push_back(names[S[i]]);
		if(last.size() > 12) last.erase(last.begin());
	}
	hx::count("long_history_operations", (long)S.size());
}

int main(int argc, char **argv) {
	hx::init(argc, argv);
	hx::petsc_init();
	hx::S().cpulimit = hx::quick() ? 120 : 1500;
	hx::rule("A case is one mesh with one discretization (gradient/reconstruction scheme, flux, viscosity, boundary set, free stream rotated; or scalar diffusion). Alphabet: 18 operations (7 for diffusion) on one discretization and its solvers - residual with and without time steps, Jacobian, gradients, surface data and entropy, matrix-free product, point and cell fields, forward and backward Euler solves with persistent solver objects, a Runge-Kutta solve - with two states. All sequences of 2 (thorough: 3) operations from fresh objects, an unrelated discretization used in between, and one history of the same objects containing every sequence of 2 (thorough: 3) operations; heap and stack refilled with another pattern before each operation. Every answer compared with that of fresh objects. Distinct by sequence.");
	hx::assume("memory owned by PETSc itself is not refilled; answers may differ by 1e-11 of the largest value (other alignment of vectorized loops)");
	const bool q = hx::quick();
	std::vector<RM> L = {single(3), single(4), grid(2,1,1,DISTORTED), grid(2,2,5,DISTORTED), fan(5), ring(3,1,1), grid(2,2,40,STRETCHED), lshape(4), grid(3,2,7,ROTATED)};
	if(!q) for(long p = 0; p < 9; p++) { L.push_back(grid(2,1,p,DISTORTED)); L.push_back(grid(1,2,p,STRETCHED)); }
	const RM om = grid(2,1,2,DISTORTED); const Mesh oum = prepare(om);
	for(size_t im = 0; im < L.size(); im++) {
		const RM& m = L[im];
		const int NC = (int)fl::schemes().size();
		for(int is = 0; is < NC; is++) for(int rot = 0; rot < (q ? (m.e.size() > 4 ? 1 : 2) : 4); rot++) {
			const int k = (int)im*3 + is*5 + rot*7;
			const auto& sc = fl::schemes()[is];
			const std::string fx = fl::fluxes()[k % 7]; const int visc = (k/2+rot) % 3; const fl::Phys& ph = PH[k % 3];
			if(!hx::begin(hx::fmt("%s:%s+%s:%d", m.name.c_str(), sc.grad.c_str(), sc.rec.c_str(), rot))) continue;
			const Mesh um = prepare(m);
			const auto bcs = bcSet(m, [&](int i) { int c = (i+k) % 6; if(!visc && c >= 4) c = 3; return c; });
			const V a = mild(ph, m, 1), b = mild(ph, m, 2+k%3);
			std::string what;
			double ha;
			{
				Setup S(um, ph, visc, sc, fx, bcs); what = m.name + " " + S.str();
				const rc::Geo G(&um);
				if(!faceStates(S, um, G, a).ok || !faceStates(S, um, G, b).ok) { hx::count("inadmissible_reconstruction_skipped"); continue; }
				V dt; fl::residual<4>(um, *S.s, a, &dt); ha = *std::min_element(dt.begin(), dt.end());
			}
			hx::sample(what);
			const auto obcs = bcSet(om, [&](int i) { return (i+k+1) % 3; });
			const V oa = mild(PH[(k+1)%3], om, 3);
			Setup other(oum, PH[(k+1)%3], (visc+1)%3, fl::schemes()[(is+4) % NC], fl::fluxes()[(k+3) % 7], obcs);
			explore<FlowWorld>([&]() { return std::unique_ptr<FlowWorld>(new FlowWorld(um, ph, visc, sc, fx, bcs, a, b)); },
				[&](FlowWorld& w) { return w.ops(ha); },
				[&]() { fl::residual<4>(oum, *other.s, oa); fl::jacobian<4>(oum, *other.s, oa); }, what, q ? 2 : 3, !q && m.e.size() <= 2);
		}
		for(const char *g : {"NONE","LEASTSQUARES","GREENGAUSS"}) {
			if(!hx::begin(hx::fmt("%s:diffusion:%s", m.name.c_str(), g))) continue;
			const Mesh um = prepare(m);
			V a, b; for(size_t i = 0; i < m.e.size(); i++) { a.push_back(-1 + 3*hash01((int)i, 4, 1)); b.push_back(2*hash01((int)i, 5, 9)); }
			DiffusionMA<1> other(&oum, 0.3, 0.1, [](const double *, const double, const double *, double *q) { q[0] = 1; }, "LEASTSQUARES");
			explore<DiffWorld>([&]() { return std::unique_ptr<DiffWorld>(new DiffWorld(um, g, a, b)); }, [&](DiffWorld& w) { return w.ops(); },
				[&]() { fl::residual<1>(oum, other, V(om.e.size(), 0.5)); }, m.name + " diffusion " + g, q ? 3 : 4, true);
		}
	}
	return hx::finish_petsc();
}
