// S04: the matrix-free operator = pseudo-time diagonal + directional derivative of the residual, for every state,
// direction and sequence of state changes and applications
#include "common/petsc_init.hpp"
#include "common/flowref.hpp"
#include "common/numdiff.hpp"
using namespace fr;
using namespace mg;

static const int MAXN = 96;
/// directional derivative of -(library residual) at u along x (any norm); false at a kink
template <int nv> static bool direct(const Mesh& um, const Spatial<double,nv>& s, const V& u, const V& x, double xs, const V& sc, V& d, V& tol) {
	const int N = (int)u.size();
	double fs[MAXN], o[MAXN], t;
	for(int i = 0; i < MAXN; i++) fs[i] = i < N ? sc[i] : 1;
	auto fun = [&](double h, double *out) {
		V v = u; for(int i = 0; i < N; i++) v[i] += h*x[i];
		const V r = fl::residual<nv>(um, s, v);
		for(int i = 0; i < MAXN; i++) out[i] = i < N ? -r[i] : 0;
	};
	if(!nd::derivative<MAXN>(fun, xs, fs, o, t)) return false;
	d.assign(o, o+N); tol.assign(N, 0);
	for(int i = 0; i < N; i++) tol[i] = 10*t*fs[i]/xs + 3e-5*sc[i]/xs;
	// the operator is a one-sided difference with a step of about 1e-7: the function has to be smooth at that scale too
	double xn = 0, f0[MAXN], f1[MAXN]; for(double v : x) xn += v*v;
	fun(0, f0);
	for(double h : {1e-7, -1e-7, 4e-7}) {
		fun(h/std::sqrt(xn), f1);
		for(int i = 0; i < N; i++) if(!(std::fabs((f1[i]-f0[i])*std::sqrt(xn)/h - d[i]) <= 0.5*tol[i])) return false;
	}
	return true;
}

template <int nv> static Vec vec(const Mesh& m, const V& a, bool ghosted) {
	if(ghosted) return fl::mkvec<nv>(m, a);
	Vec v; fl::chk(createSystemVector(&m, nv, &v), "create");
	PetscScalar *p; fl::chk(VecGetArray(v, &p), "get"); for(size_t i = 0; i < a.size(); i++) p[i] = a[i];
	fl::chk(VecRestoreArray(v, &p), "restore");
	return v;
}
static void put(Vec v, const V& a) { PetscScalar *p; fl::chk(VecGetArray(v, &p), "get"); for(size_t i = 0; i < a.size(); i++) p[i] = a[i]; fl::chk(VecRestoreArray(v, &p), "restore"); }

struct Dir { V x; double scale; V d, tol; bool ok; std::string name; };     ///< d: derivative along x
struct StateSet { V u, r, mdt; std::vector<Dir> dirs; V sc; };

/// scale of the rows: column sums of the local Jacobian would do; use residual differences at a moderate step
template <int nv> static V rowScale(const Mesh& um, const Spatial<double,nv>& s, const V& u, const V& x, double xs) {
	const int N = (int)u.size();
	V a = u, b = u; for(int i = 0; i < N; i++) { a[i] += 1e-4*xs*x[i]; b[i] -= 1e-4*xs*x[i]; }
	const V ra = fl::residual<nv>(um, s, a), rb = fl::residual<nv>(um, s, b), r0 = fl::residual<nv>(um, s, u);
	double c[nv] = {}, all = 0;
	for(int i = 0; i < N; i++) c[i%nv] = std::max({c[i%nv], std::fabs(ra[i]-rb[i])/2e-4, std::fabs(r0[i])});
	for(int v = 0; v < nv; v++) all = std::max(all, c[v]);
	V sc(N); for(int i = 0; i < N; i++) sc[i] = std::max({c[i%nv], 1e-6*all, 1e-12});
	return sc;
}

template <int nv> static StateSet prepareState(const Mesh& um, const Spatial<double,nv>& s, const V& u, int which, const std::vector<std::pair<std::string,V>>& dirs) {
	StateSet S; S.u = u; S.r = fl::residual<nv>(um, s, u);
	for(int i = 0; i < um.gnelem(); i++) S.mdt.push_back(um.garea(i)*(0.3 + 7*hash01(i, which, 77)) * (which % 2 ? 1 : 40));
	double un = 0; for(double v : u) un = std::max(un, std::fabs(v));
	for(auto& d : dirs) {
		Dir D; D.name = d.first; D.x = d.second; D.scale = 1;
		double xn = 0; for(double v : D.x) xn += v*v; xn = std::sqrt(xn);
		const double xs = std::max(un, 0.1)/xn*0.3;
		const V sc = rowScale<nv>(um, s, u, D.x, xs);
		for(double v : sc) if(!std::isfinite(v)) { D.ok = false; S.dirs.push_back(D); goto next; }
		D.ok = direct<nv>(um, s, u, D.x, xs, sc, D.d, D.tol);
		S.dirs.push_back(D);
next:;
	}
	return S;
}

/// one application, compared
template <int nv> static void applyAndCheck(const Mesh& um, Mat A, const StateSet& S, int d, double scale, bool ghosted, Vec uv, Vec rv, Vec mv, const std::string& what, const char *key = "product") {
	const Dir& D = S.dirs[d];
	const int N = (int)S.u.size();
	V xs = D.x; for(double& v : xs) v *= scale;
	Vec x = vec<nv>(um, xs, ghosted), y; fl::chk(VecDuplicate(x, &y), "dup"); VecSet(y, -3.25e7);
	const int ierr = MatMult(A, x, y);
	hx::eval();
	if(ierr) { hx::fail("matmult-error", what + hx::fmt(": product with %s returned error %d", D.name.c_str(), ierr)); VecDestroy(&x); VecDestroy(&y); return; }
	const V yy = fl::rd(y, N), xx = fl::rd(x, N);
	for(int i = 0; i < N; i++) if(xx[i] != xs[i]) { hx::fail("modified-direction", what + ": the direction vector was changed"); break; }
	const V uu = fl::rd(uv, N), rr = fl::rd(rv, N), mm = fl::rd(mv, um.gnelem());
	for(int i = 0; i < N; i++) if(uu[i] != S.u[i]) { hx::fail("modified-state", what + ": the state was changed by a product"); break; }
	for(int i = 0; i < N; i++) if(rr[i] != S.r[i]) { hx::fail("modified-residual", what + ": the stored residual was changed by a product"); break; }
	for(int i = 0; i < um.gnelem(); i++) if(mm[i] != S.mdt[i]) { hx::fail("modified-timeterm", what + ": the pseudo-time diagonal was changed by a product"); break; }
	if(D.ok) for(int i = 0; i < N; i++) {
		const double e = (S.mdt[i/nv]*D.x[i] + D.d[i])*scale;
		if(!(std::fabs(yy[i]-e) <= (D.tol[i] + 1e-11*std::fabs(S.mdt[i/nv]*D.x[i]))*scale)) {
			hx::fail(key, what + hx::fmt(": direction %s x %g: row %d is %.10g, expected %.10g (of which pseudo-time %.6g), tolerance %.3g", D.name.c_str(), scale, i, yy[i], e, S.mdt[i/nv]*D.x[i]*scale, D.tol[i]*scale));
			break;
		}
	} else hx::count("directions_with_a_kink_skipped");
	VecDestroy(&x); VecDestroy(&y);
}

template <int nv> static void setState(Mat A, Vec u, Vec r, Vec m) {
	MatrixFreeSpatialJacobian<nv> *mf; fl::chk(MatShellGetContext(A, (void*)&mf), "context");
	if(mf->set_state(u, r, m)) hx::fail("set-state", "set_state returned an error");
}

template <int nv> static std::vector<std::pair<std::string,V>> directions(int N, bool all) {
	std::vector<std::pair<std::string,V>> D;
	for(int i = 0; i < N; i += all ? 1 : 3) { V x(N, 0.0); x[i] = 1; D.push_back({hx::fmt("e%d", i), x}); }
	for(int k = 0; k < (all ? 3 : 1); k++) {
		V x(N); for(int i = 0; i < N; i++) x[i] = k == 0 ? -1 + 2*hash01(i, 3, 5) : k == 1 ? (i % 2 ? 1 : -1) : 0.2 + hash01(i/nv, 1, 9);
		D.push_back({k == 0 ? "dense" : k == 1 ? "alternating" : "positive", x});
	}
	return D;
}

template <int nv> static void single(const Mesh& um, const Spatial<double,nv>& s, const V& u, bool all, int which, const std::string& what) {
	const int N = (int)u.size();
	if(N > MAXN) return;
	for(double v : fl::residual<nv>(um, s, u)) if(!std::isfinite(v)) { hx::count("inadmissible_reconstruction_skipped"); return; }
	const StateSet S = prepareState<nv>(um, s, u, which, directions<nv>(N, all));
	Mat A; if(create_matrixfree_jacobian<nv>(&s, &A)) { hx::fail("create", what + ": creating the operator failed"); return; }
	Vec uv = fl::mkvec<nv>(um, S.u), rv = fl::mkvec<nv>(um, S.r), mv = fl::mkvec<1>(um, S.mdt);
	setState<nv>(A, uv, rv, mv);
	static const double sc[] = {1, 1e-5, 3e4, -2.5};
	for(size_t d = 0; d < S.dirs.size(); d++) {
		const double c = sc[(d+which) % 4];
		if(c < 0) continue;
		applyAndCheck<nv>(um, A, S, (int)d, c, d % 2, uv, rv, mv, what);
	}
	if(!isMatrixFree(A)) hx::fail("not-matrix-free", what + ": isMatrixFree does not recognize the operator");
	VecDestroy(&uv); VecDestroy(&rv); VecDestroy(&mv); MatDestroy(&A);
}

/// all sequences over {state a, state b by new vectors; contents of the held vectors replaced; products} up to a depth
template <int nv> static void histories(const Mesh& um, const Spatial<double,nv>& s, const V& u0, const V& u1, int depth, const std::string& what) {
	const int N = (int)u0.size();
	if(N > MAXN) return;
	auto D = directions<nv>(N, true);
	std::vector<std::pair<std::string,V>> two = {D[D.size()-3], D[D.size()-1]};
	StateSet S[3] = {prepareState<nv>(um, s, u0, 0, two), prepareState<nv>(um, s, u1, 1, two), prepareState<nv>(um, s, u0, 0, two)};
	S[2].mdt = S[1].mdt;                 // first state, other pseudo-time diagonal
	const int OPS = 7;                   // 0..2 set state k (own vectors), 3 overwrite contents with state 1, 4 with state 0, 5/6 products
	long total = 1; for(int i = 0; i < depth; i++) total *= OPS;
	for(long code = 0; code < total; code++) {
		long c = code; std::vector<int> ops; for(int i = 0; i < depth; i++) { ops.push_back((int)(c % OPS)); c /= OPS; }
		if(ops.back() < 5 || ops[0] > 2) continue;      // must end in a product and start by setting a state
		Mat A; fl::chk(create_matrixfree_jacobian<nv>(&s, &A), "create");
		Vec uv[3], rv[3], mv[3]; StateSet *cont[3]; int at = -1;
		for(int k = 0; k < 3; k++) { uv[k] = fl::mkvec<nv>(um, S[k].u); rv[k] = fl::mkvec<nv>(um, S[k].r); mv[k] = fl::mkvec<1>(um, S[k].mdt); cont[k] = &S[k]; }
		std::string h;
		for(int o : ops) {
			h += hx::fmt("%d", o);
			if(o <= 2) { setState<nv>(A, uv[o], rv[o], mv[o]); at = o; }
			else if(o <= 4) { StateSet& T = S[o == 3 ? 1 : 0]; put(uv[at], T.u); put(rv[at], T.r); put(mv[at], T.mdt); cont[at] = &T; }
			else applyAndCheck<nv>(um, A, *cont[at], o-5, o == 5 ? 1 : 200, o == 5, uv[at], rv[at], mv[at], what + " history " + h, "history");
		}
		hx::count("histories");
		for(int k = 0; k < 3; k++) { VecDestroy(&uv[k]); VecDestroy(&rv[k]); VecDestroy(&mv[k]); }
		MatDestroy(&A);
	}
}

int main(int argc, char **argv) {
	hx::init(argc, argv);
	hx::petsc_init();
	hx::rule("A case is one mesh (families, renumbered) with one free stream or one diffusion problem. Within it scheme x flux x viscosity x boundary assignment x field (rotated): products of the real shell matrix with every unit vector (every third on larger products), dense and scaled directions against pseudo-time diagonal plus difference quotients of the library's residual; state, residual, diagonal and direction must stay untouched. On tiny meshes every history of state changes (new vectors, contents overwritten in place) and products up to a depth. Distinct by mesh, problem, combination.");
	hx::assume("the reference derivative differentiates the library's own residual (decided by S02); directions across a kink of limiters or fluxes are skipped and counted");
	const bool q = hx::quick();
	const std::vector<fl::Phys> P = {{1.4,0.5,288.15,100,0.72,0.1},{5.0/3,2.0,200,50,1.0,-0.37},{1.1,0.8,250,5,0.9,1.0}};
	auto mesh = [&](const RM& m0, int stride, int hist) {
		if((int)m0.e.size()*4 > MAXN) return;
		for(size_t ip = 0; ip < P.size() + 1; ip++) {
			if(!hx::begin(hx::fmt("%s:%s%zu", m0.name.c_str(), ip < P.size() ? "ph" : "diffusion", ip))) continue;
			std::vector<int> rv = iota((int)m0.e.size()); std::reverse(rv.begin(), rv.end());
			const RM m = ip % 2 ? flipBFaces(rotateNodes(permCells(m0, rv), 5), 0x2d) : m0;
			const Ref r(m); const Mesh um = prepare(m);
			if(ip == P.size()) {
				for(int c = 0; c < 4; c++) {
					const DiffusionMA<1> s(&um, c % 2 ? 0.35 : 2.0, c < 2 ? 0.5 : -1.25, [c](const double *x, const double, const double *u, double *o) { o[0] = c == 3 ? x[0] + 0.3*u[0]*u[0] : 1.0 + x[1]; }, c % 2 ? "LEASTSQUARES" : "GREENGAUSS");
					V u, w; for(size_t i = 0; i < m.e.size(); i++) { u.push_back(0.3 + hash01((int)i, c, 21)); w.push_back(-1 + hash01((int)i, c, 22)); }
					const std::string what = hx::fmt("%s diffusion #%d", m.name.c_str(), c);
					single<1>(um, s, u, true, c, what);
					hx::nontrivial(hx::fnv(what));
					if(hist && c < 2) histories<1>(um, s, u, w, hist, what);
				}
				continue;
			}
			const fl::Phys& p = P[ip];
			hx::sample(hx::fmt("%s Minf %g gamma %g", m0.name.c_str(), p.M, p.g));
			long combo = (long)(hx::fnv(m0.name) % 1000) + (long)ip, done = 0;
			const auto& SC = fl::schemes(); const auto& FX = fl::fluxes();
			for(size_t is = 0; is < SC.size(); is++) for(size_t ix = 0; ix < FX.size(); ix++) for(int v = 0; v < 3; v++) for(int b = 0; b < 2; b++) {
				if((combo++) % stride) continue;
				const auto bcs = bcSet(m, [&](int i) { return (i*(1+b)+b)%6; });
				Setup S(um, p, v, SC[is], FX[ix], bcs);
				const V u = mild(p, m, 5 + (int)(combo % 2));
				const std::string w = hx::fmt("%s %s bc#%d", m.name.c_str(), S.str().c_str(), b);
				single<4>(um, *S.s, u, done % 3 == 0, (int)(combo % 4), w);
				hx::nontrivial(hx::fnv(w));
				if(hist && done == 0) histories<4>(um, *S.s, u, mild(p, m, 7), hist, w);
				done++;
			}
		}
	};
	forMeshes(q ? 0 : 1, [&](const RM& m) { mesh(m, q ? 97 : 23, 0); });
	std::vector<RM> F = {grid(2,2,5,DISTORTED), ring(3,1,7), fan(5), single(4)};
	for(auto& m : F) { RM c = m; c.name += "/full"; mesh(c, q ? 31 : 3, q ? 3 : 5); }
	return hx::finish_petsc();
}
