// S03: assembled Jacobian = derivative of the first-order residual; block placement; pseudo-time term and implicit step
#include "common/petsc_init.hpp"
#include "common/flowref.hpp"
#include "common/numdiff.hpp"
#include "ode/aodesolver.hpp"
#include "ode/nonlinearrelaxation.hpp"
#include "utilities/aerrorhandling.hpp"
using namespace fr;
using namespace mg;

struct Blocks { double l[16], r[16]; };
/// dF/dul and dF/dur of the thin-layer viscous flux; known: with the recorded derivative of Sutherland's viscosity
static Blocks viscJac(const gas::Ph& h, bool cv, bool known, const double *ul, const double *ur, const double *xl, const double *xr, const double *n) {
	typedef Dual<8> D;
	D a[4], b[4];
	for(int i = 0; i < 4; i++) { a[i] = D::var(ul[i], i); b[i] = D::var(ur[i], 4+i); }
	const double dx = xr[0]-xl[0], dy = xr[1]-xl[1], d2 = dx*dx+dy*dy;
	D g[2][4];
	const D ql[4] = {a[0], a[1]/a[0], a[2]/a[0], gas::T(h,a)}, qr[4] = {b[0], b[1]/b[0], b[2]/b[0], gas::T(h,b)};
	for(int v = 0; v < 4; v++) { const D d = qr[v]-ql[v]; g[0][v] = d*(dx/d2); g[1][v] = d*(dy/d2); }
	D mu(1/h.Re);
	if(!cv) {
		if(!known) mu = (gas::mu(h,a)+gas::mu(h,b))*0.5;
		else {
			mu = D(0.5*(gas::mu(h,ul)+gas::mu(h,ur)));
			Dual<4> x[4], y[4];
			for(int i = 0; i < 4; i++) { x[i] = Dual<4>::var(ul[i], i); y[i] = Dual<4>::var(ur[i], i); }
			const Dual<4> ml = gas::muKnown(h, gas::T(h,x)), mr = gas::muKnown(h, gas::T(h,y));
			for(int i = 0; i < 4; i++) { mu.d[i] = 0.5*ml.d[i]; mu.d[4+i] = 0.5*mr.d[i]; }
		}
	}
	D f[4];
	viscflux(h, mu, g, a, b, n, f);
	Blocks o;
	for(int i = 0; i < 4; i++) for(int q = 0; q < 4; q++) { o.l[4*i+q] = f[i].d[q]; o.r[4*i+q] = f[i].d[4+q]; }
	return o;
}

/// reference matrix and per-entry scale; jf: flux whose Jacobian is used
static bool reference(const Setup& S, const InviscidFlux<double>& jf, const Mesh& m, const rc::Geo& G, const V& u, bool known, V& A, V& sc) {
	const int ne = m.gnelem(), N = 4*ne;
	A.assign((size_t)N*N, 0); sc.assign((size_t)N*N, 0);
	auto add = [&](int bi, int bj, const double *b, double w) {
		for(int i = 0; i < 4; i++) { double rs = 0; for(int j = 0; j < 4; j++) rs = std::max(rs, std::fabs(b[4*i+j]*w));
			for(int j = 0; j < 4; j++) { A[(size_t)(4*bi+i)*N+4*bj+j] += b[4*i+j]*w; sc[(size_t)(4*bi+i)*N+4*bj+j] += rs; } }
	};
	for(int f = 0; f < m.gnaface(); f++) {
		const bool bd = f < m.gnbface();
		const int L = m.gintfac(f,0), R = m.gintfac(f,1);
		const auto n = m.gnormal(f); const double len = m.gfacemetric(f,2);
		double ug[4], dg[16];
		const double *ul = &u[4*L], *ur = bd ? ug : &u[4*R];
		if(bd) { S.bc.at(m.gbtags(f,0))->computeGhostStateAndJacobian(ul, n.data(), ug, dg); if(!(ug[0] > 0 && fl::pres(S.ph.g, ug) > 0)) return false; }
		Blocks b;
		jf.get_jacobian(ul, ur, n.data(), b.l, b.r);
		for(int i = 0; i < 16; i++) b.l[i] = -b.l[i];
		if(S.visc) {
			const double xl[2] = {G.c(L,0),G.c(L,1)}, xr[2] = {bd ? G.g(f,0) : G.c(R,0), bd ? G.g(f,1) : G.c(R,1)};
			const Blocks v = viscJac(S.h, S.visc == CONSTV, known, ul, ur, xl, xr, n.data());
			for(int i = 0; i < 16; i++) { b.l[i] += v.l[i]; b.r[i] += v.r[i]; }
		}
		if(bd) {
			double t[16] = {};
			for(int i = 0; i < 4; i++) for(int j = 0; j < 4; j++) for(int k = 0; k < 4; k++) t[4*i+j] += b.r[4*i+k]*dg[4*k+j];
			add(L, L, b.l, len); add(L, L, t, len);
			for(int i = 0; i < 4; i++) { double rs = 0; for(int k = 0; k < 4; k++) rs += std::fabs(b.r[4*i+k])*len; for(int j = 0; j < 4; j++) sc[(size_t)(4*L+i)*N+4*L+j] += rs; }
		} else { add(L, L, b.l, len); add(L, R, b.r, len); add(R, L, b.l, -len); add(R, R, b.r, -len); }
	}
	return true;
}

static bool matches(const V& A, const V& R, const V& sc, const V *diag, int ne, std::string *msg) {
	const int N = 4*ne;
	for(int i = 0; i < N; i++) {
		double rs = 0;        // scale of the row: assembly adds blocks of different cells' rows only within it
		for(int j = 0; j < N; j++) rs = std::max(rs, sc[(size_t)i*N+j]);
		for(int j = 0; j < N; j++) {
			const double e = R[(size_t)i*N+j] + (diag && i == j ? (*diag)[i/4] : 0), s = sc[(size_t)i*N+j];
			if(s == 0 && A[(size_t)i*N+j] != 0) { if(msg) *msg = hx::fmt("entry (%d,%d) [cells %d,%d] is %.12g, cells not adjacent", i, j, i/4, j/4, A[(size_t)i*N+j]); return false; }
			if(!(std::fabs(A[(size_t)i*N+j]-e) <= 1e-8*std::max(s, 1e-3*rs) + (diag && i == j ? 1e-12*(*diag)[i/4] : 0))) { if(msg) *msg = hx::fmt("entry (%d,%d) [cells %d,%d] is %.12g, expected %.12g", i, j, i/4, j/4, A[(size_t)i*N+j], e); return false; }
		}
	}
	return true;
}

static V dense(Mat A, int N) {
	V d((size_t)N*N, 0.0); std::vector<PetscInt> c(N); for(int i = 0; i < N; i++) c[i] = i;
	for(PetscInt i = 0; i < N; i++) fl::chk(MatGetValues(A, 1, &i, N, c.data(), &d[(size_t)i*N]), "getvalues");
	return d;
}

struct Combo { std::string flux, jac; int visc; };

/// returns whether the states at all boundaries are admissible
static bool one(const Combo& cb, const fl::Phys& p, const Mesh& um, const rc::Geo& G, const RM& m, const std::vector<fl::BC>& bcs, const fl::Scheme& sch, const V& u, const std::string& what) {
	Setup S(um, p, cb.visc, {"NONE","NONE",false,0}, cb.flux, bcs);
	std::unique_ptr<const Spatial<double,4>> sp(create_const_flowSpatialDiscretization<double>(&um, fl::pconf(p, cb.visc != INVISCID, cb.visc == CONSTV, bcs), fl::nconf(cb.flux, sch.grad, sch.rec, sch.o2, cb.jac, sch.lp)));
	std::unique_ptr<const InviscidFlux<double>> jf(create_const_inviscidflux<double>(cb.jac, S.phy.get()));
	V R, sc;
	if(!reference(S, *jf, um, G, u, false, R, sc)) { hx::count("inadmissible_ghost_skipped"); return false; }
	const V A = fl::jacobian<4>(um, *sp, u);
	hx::eval();
	std::string msg;
	if(matches(A, R, sc, nullptr, um.gnelem(), &msg)) return true;
	if(cb.visc == SUTH) { V R2, s2; reference(S, *jf, um, G, u, true, R2, s2); if(matches(A, R2, sc, nullptr, um.gnelem(), nullptr)) { hx::fail("jac-sutherland-power", what + ": " + msg); return true; } }
	hx::fail("jacobian", what + ": " + msg);
	return true;
}

static const int MAXN = 72;
/// against difference quotients of the library's own first-order residual
static void quotients(const Combo& cb, const fl::Phys& p, const Mesh& um, const RM& m, const std::vector<fl::BC>& bcs, const V& u, const std::string& what) {
	Setup S(um, p, cb.visc, {"NONE","NONE",false,0}, cb.flux, bcs);
	const int N = 4*um.gnelem();
	if(N > MAXN) return;
	if(cb.flux == "ROE") for(int f = 0; f < um.gnaface(); f++) {
		// inside Roe's entropy fix the recorded finding of F02 applies
		const auto n = um.gnormal(f); double g[4];
		const double *a = &u[4*um.gintfac(f,0)], *b = g;
		if(f < um.gnbface()) S.bc.at(um.gbtags(f,0))->computeGhostState(a, n.data(), g); else b = &u[4*um.gintfac(f,1)];
		const double q = std::sqrt(a[0]), w = std::sqrt(b[0]), vn = (q*gas::vn(a,n.data()) + w*gas::vn(b,n.data()))/(q+w);
		const double vx = (a[1]/q+b[1]/w)/(q+w), vy = (a[2]/q+b[2]/w)/(q+w), H = (q*gas::H(S.h,a)+w*gas::H(S.h,b))/(q+w), c = std::sqrt((p.g-1)*(H-0.5*(vx*vx+vy*vy)));
		for(double l : {vn, vn-c, vn+c}) if(std::fabs(l) < 3e-4*c) { hx::count("states_in_entropy_fix_skipped"); return; }
	}
	const V A = fl::jacobian<4>(um, *S.s, u);
	const V r0 = fl::residual<4>(um, *S.s, u);
	for(int j = 0; j < N; j++) {
		double fs[MAXN], d[MAXN], tol;
		for(int i = 0; i < MAXN; i++) fs[i] = 1;
		double c[4] = {0,0,0,0};
		const double xs = j%4 == 0 ? u[j] : j%4 == 3 ? u[j] : u[j/4*4]*fl::snd(p.g, &u[j/4*4]);
		for(int i = 0; i < N; i++) c[i%4] = std::max(c[i%4], std::fabs(A[(size_t)i*N+j])*xs);
		const double cm = std::max({c[0],c[1],c[2],c[3]});
		for(int i = 0; i < N; i++) fs[i] = std::max({c[i%4], 1e-6*cm, std::fabs(r0[i])});
		auto fun = [&](double t, double *o) {
			V v = u; v[j] += t;
			const V r = fl::residual<4>(um, *S.s, v);
			for(int i = 0; i < MAXN; i++) o[i] = i < N ? -r[i] : 0;
		};
		hx::eval();
		if(!nd::derivative<MAXN>(fun, xs, fs, d, tol)) { hx::count("columns_with_a_kink_skipped"); continue; }
		for(int i = 0; i < N; i++) {
			if(!(std::fabs(d[i]-A[(size_t)i*N+j]) <= 10*tol*fs[i]/xs))
				{ hx::fail("derivative", what + hx::fmt(": entry (%d,%d) is %.9g, difference quotient %.9g", i, j, A[(size_t)i*N+j], d[i])); return; }
		}
	}
}

/// one implicit step through the public solver: operator = Jacobian + area/(CFL dt), update solves it
static void implicitStep(const Combo& cb, const fl::Phys& p, const Mesh& um, const rc::Geo& G, const RM& m, const std::vector<fl::BC>& bcs, const fl::Scheme& sch, const V& u, double cfl, const char *mattype, const std::string& what) {
	const int ne = um.gnelem(), N = 4*ne;
	std::unique_ptr<const Spatial<double,4>> sp(create_const_flowSpatialDiscretization<double>(&um, fl::pconf(p, cb.visc != INVISCID, cb.visc == CONSTV, bcs), fl::nconf(cb.flux, sch.grad, sch.rec, sch.o2, cb.jac, sch.lp)));
	const V A = fl::jacobian<4>(um, *sp, u);
	V dt; const V r = fl::residual<4>(um, *sp, u, &dt);
	for(int i = 0; i < N; i++) if(!std::isfinite(r[i]) || !(dt[i/4] > 0)) { hx::count("inadmissible_reconstruction_skipped"); return; }
	V diag(ne); for(int i = 0; i < ne; i++) diag[i] = um.garea(i)/(cfl*dt[i]);
	if(mattype) PetscOptionsSetValue(NULL, "-mat_type", mattype);
	Mat M; fl::chk(setupSystemMatrix<4>(&um, &M), "matrix");
	PetscOptionsClearValue(NULL, "-mat_type");
	KSP k; KSPCreate(PETSC_COMM_WORLD, &k); KSPSetOperators(k, M, M); KSPSetType(k, KSPGMRES); KSPSetTolerances(k, 1e-13, 1e-300, 1e300, 500);
	KSPGMRESSetRestart(k, 100);
	PC pc; KSPGetPC(k, &pc); PCSetType(pc, PCJACOBI);
	SteadySolverConfig cf; cf.lognres = false; cf.logfile = "s03"; cf.write_final_lin_sys = false; cf.cflinit = cfl; cf.cflfin = cfl; cf.rampstart = 0; cf.rampend = 1; cf.tol = 1e-30; cf.maxiter = 1; cf.linmaxiterstart = cf.linmaxiterend = 10;
	FullUpdate<4> fu;
	Vec uv = fl::mkvec<4>(um, u);
	try {
		SteadyBackwardEulerSolver<4> sol(sp.get(), cf, k, &fu);
		sol.solve(uv);
	} catch(const Tolerance_error&) {}
	catch(const std::exception& e) { hx::fail("step-exception", what + ": " + e.what()); return; }
	const V D = dense(M, N), un = fl::rd(uv, N);
	V Z((size_t)N*N, 0.0), sc((size_t)N*N, 0.0);
	for(int i = 0; i < N; i++) { double rs = 0; for(int j = 0; j < N; j++) rs = std::max(rs, std::fabs(A[(size_t)i*N+j])); for(int j = 0; j < N; j++) if(A[(size_t)i*N+j] != 0) sc[(size_t)i*N+j] = rs; }
	for(int i = 0; i < N; i++) for(int j = 0; j < N; j++) {
		const double e = A[(size_t)i*N+j] + (i == j ? diag[i/4] : 0);
		HX_CHECK(std::fabs(D[(size_t)i*N+j]-e) <= 1e-11*(std::fabs(e) + sc[(size_t)i*N+j]), "pseudo-time", "%s CFL %g: entry (%d,%d) of the step's matrix is %.12g, expected %.12g", what.c_str(), cfl, i, j, D[(size_t)i*N+j], e);
	}
	for(int i = 0; i < N; i++) {
		double s = 0, a = std::fabs(r[i]);
		for(int j = 0; j < N; j++) { s += D[(size_t)i*N+j]*(un[j]-u[j]); a += std::fabs(D[(size_t)i*N+j]*(un[j]-u[j])) + 1e-10*std::fabs(D[(size_t)i*N+j]*u[j]); }
		double big = 0; for(int q = i%4; q < N; q += 4) big = std::max(big, std::fabs(r[q]));
		HX_CHECK(std::fabs(s-r[i]) <= 1e-5*(a+big), "step", "%s CFL %g: the step does not solve its linear system: row %d %.10g, right hand side %.10g", what.c_str(), cfl, i, s, r[i]);
	}
	hx::eval(2);
	VecDestroy(&uv); KSPDestroy(&k); MatDestroy(&M);
}

int main(int argc, char **argv) {
	hx::init(argc, argv);
	hx::petsc_init();
	hx::rule("A case is one mesh (families, renumbered) and free stream. Within it fields x fluxes offering a Jacobian (also with a different flux in the residual) x viscosity x boundary assignments: the whole matrix against a reference assembly, every column against difference quotients of the residual for the fluxes with exact Jacobians, and single implicit steps whose matrix must be Jacobian plus area/(CFL dt) with every matrix type. Distinct by mesh, free stream, combination.");
	hx::assume("the reference assembly takes inviscid flux and boundary-state derivatives from the library objects that F02 and B02 decide; viscous terms are differentiated exactly");
	const bool q = hx::quick();
	const std::vector<fl::Phys> P = {{1.4,0.5,288.15,100,0.72,0.1},{5.0/3,2.0,200,50,1.0,-0.37},{1.1,0.8,250,5,0.9,1.0}};
	const std::vector<std::string> J = {"LLF","AUSM","ROE","HLL","HLLC"};
	std::vector<Combo> C;
	for(auto& j : J) for(int v = 0; v < 3; v++) C.push_back({j, j, v});
	C.push_back({"VANLEER","LLF",0}); C.push_back({"HLLC","LLF",2}); C.push_back({"AUSMPLUS","HLL",1}); C.push_back({"LLF","ROE",0});
	const auto& SC = fl::schemes();
	auto mesh = [&](const RM& m0, int stride) {
		for(size_t ip = 0; ip < P.size(); ip++) {
			if(!hx::begin(hx::fmt("%s:ph%zu", m0.name.c_str(), ip))) continue;
			const fl::Phys& p = P[ip];
			std::vector<int> rv = iota((int)m0.e.size()); std::reverse(rv.begin(), rv.end());
			const RM m = ip % 2 ? flipBFaces(rotateNodes(permCells(m0, rv), 5), 0x2d) : m0;
			const Ref r(m); const Mesh um = prepare(m); const rc::Geo G(&um);
			rc::checkGeo(um, G, m.name);
			hx::sample(hx::fmt("%s Minf %g gamma %g", m0.name.c_str(), p.M, p.g));
			long combo = (long)(hx::fnv(m0.name) % 1000) + (long)ip;
			for(auto& cb : C) for(int b = 0; b < 6; b++) for(int f = 1; f <= 6; f++) {
				if((combo++) % stride) continue;
				const auto bcs = bcSet(m, [&](int i) { return (i*(1+b%2)+b)%6; });
				const V u = f < 5 ? fl::field(p, f, m, r) : mild(p, m, f);
				const std::string w = hx::fmt("%s %s flux %s jacobian %s bc#%d field %d", m.name.c_str(), vname(cb.visc), cb.flux.c_str(), cb.jac.c_str(), b, f);
				if(!one(cb, p, um, G, m, bcs, SC[(combo/7) % SC.size()], u, w)) continue;
				hx::nontrivial(hx::fnv(w));
				if((combo/stride) % 5 == 0 && f >= 5) {
					static const char *mt[] = {nullptr, "aij", "baij", "mpiaij"};
					implicitStep(cb, p, um, G, m, bcs, SC[(combo/7) % SC.size()], u, b % 2 ? 0.7 : 13.0, mt[combo/5 % 4], w);
				}
				if((combo/stride) % (q ? 5 : 2) == 1 && f >= 5 && cb.flux == cb.jac && cb.visc != SUTH && (cb.flux == "AUSM" || cb.flux == "HLLC" || (cb.flux == "ROE" && b == 99)))
					quotients(cb, p, um, m, bcs, u, w);
				if((combo/stride) % (q ? 3 : 1) == 0 && f >= 5 && cb.flux == "ROE" && cb.jac == "ROE" && cb.visc != SUTH)
					quotients(cb, p, um, m, bcSet(m, [&](int i) { return (i+b)%3; }), u, w + " (far-field kinds)");
			}
		}
	};
	forMeshes(q ? 0 : 1, [&](const RM& m) { mesh(m, q ? 37 : 17); });
	std::vector<RM> F = {grid(2,2,5,DISTORTED), ring(3,1,7), fan(5)};
	if(!q) { F.push_back(grid(3,2,100,ROTATED)); F.push_back(lshape(11)); F.push_back(single(3)); F.push_back(grid(2,2,40,STRETCHED)); }
	for(auto& m : F) { RM c = m; c.name += "/full"; mesh(c, q ? 5 : 1); }
	return hx::finish_petsc();
}
