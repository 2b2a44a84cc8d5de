// K01: results do not depend on the choice of axes, origin, unit of length or numbering
#include "common/petsc_init.hpp"
#include "common/flowref.hpp"
#include "common/stub.hpp"
#include "spatial/aoutput.hpp"
using namespace fr;
using namespace mg;

/// element of the symmetry group of the axes, with a shift, a change of the unit of length and a renumbering
struct Tr { double a[2][2]; int det; double s[2], len; int perm; };
static std::vector<Tr> group() {
	std::vector<Tr> G;
	for(int swp = 0; swp < 2; swp++) for(int sx = 1; sx >= -1; sx -= 2) for(int sy = 1; sy >= -1; sy -= 2) {
		Tr t; t.a[0][0] = swp ? 0 : sx; t.a[0][1] = swp ? sx : 0; t.a[1][0] = swp ? sy : 0; t.a[1][1] = swp ? 0 : sy;
		t.det = swp ? -sx*sy : sx*sy; t.s[0] = t.s[1] = 0; t.len = 1; t.perm = 0;
		G.push_back(t);
	}
	return G;
}
static void vec(const Tr& t, const double *x, double *y) { for(int i = 0; i < 2; i++) y[i] = t.a[i][0]*x[0] + t.a[i][1]*x[1]; }
static RM apply(const RM& m, const Tr& t, const std::vector<int>& n2o) {
	RM r = permCells(m, n2o);
	for(size_t i = 0; i < m.p.size(); i++) { double y[2]; vec(t, m.p[i].data(), y); for(int k = 0; k < 2; k++) r.p[i][k] = t.len*y[k] + t.s[k]; }
	if(t.det < 0) { for(auto& c : r.e) std::reverse(c.begin(), c.end()); for(auto& f : r.b) std::swap(f[0], f[1]); }
	if(t.perm) { r = rotateNodes(r, 11); std::vector<int> o = iota((int)r.b.size()); std::rotate(o.begin(), o.begin()+1, o.end()); r = permBFaces(r, o); }
	return r;
}

/// everything computed about one problem, in the original frame, numbering and unit
struct Out { V r, dt, A, grad, step, istep, mf, fun, cell, point, surf; bool ok; };
struct Prob { fl::Phys ph; int visc; fl::Scheme sc; std::string fx; std::function<int(int)> kinds; };

static Out compute(const RM& m0, const Prob& P, const V& u0, const Tr& t, bool heavy) {
	const int N = (int)m0.e.size();
	std::vector<int> n2o = iota(N);
	if(t.perm == 1) std::reverse(n2o.begin(), n2o.end());
	else if(t.perm == 2) std::rotate(n2o.begin(), n2o.begin()+N/2, n2o.end());
	const RM m = apply(m0, t, n2o);
	const Mesh um = prepare(m);
	fl::Phys ph = P.ph;
	const double dir[2] = {std::cos(P.ph.aoa), std::sin(P.ph.aoa)}; double nd[2]; vec(t, dir, nd);
	ph.aoa = std::atan2(nd[1], nd[0]);
	ph.Re = P.ph.Re/t.len;                                         // the viscosity stays the same physical one
	auto bcs = bcSet(m0, P.kinds);
	for(auto& b : bcs) if(t.det < 0 && (b.type == ADIABATIC_WALL_BC || b.type == ISOTHERMAL_WALL_BC)) b.vals[0] = -b.vals[0];
	const Setup S(um, ph, P.visc, P.sc, P.fx, bcs);
	const Spatial<double,4>& s = *S.s;
	V u(4*N);
	for(int i = 0; i < N; i++) { const double *o = &u0[4*n2o[i]]; u[4*i] = o[0]; vec(t, o+1, &u[4*i+1]); u[4*i+3] = o[3]; }
	Out o; o.ok = faceStates(S, um, rc::Geo(&um), u).ok;
	if(!o.ok) return o;
	Tr inv = t; for(int i = 0; i < 2; i++) for(int j = 0; j < 2; j++) inv.a[i][j] = t.a[j][i];
	auto back = [&](const V& x, double scale) { V y(4*N); for(int i = 0; i < N; i++) { double *q = &y[4*n2o[i]]; const double *w = &x[4*i]; q[0] = w[0]*scale; double z[2]; vec(inv, w+1, z); q[1] = z[0]*scale; q[2] = z[1]*scale; q[3] = w[3]*scale; } return y; };
	V dt; o.r = back(fl::residual<4>(um, s, u, &dt), 1/t.len);
	o.dt.resize(N); for(int i = 0; i < N; i++) o.dt[n2o[i]] = dt[i]/t.len;
	double B[4][4] = {{1,0,0,0},{0,t.a[0][0],t.a[0][1],0},{0,t.a[1][0],t.a[1][1],0},{0,0,0,1}};
	{
		const V A = fl::jacobian<4>(um, s, u);
		o.A.assign(A.size(), 0.0);
		for(int i = 0; i < N; i++) for(int j = 0; j < N; j++) for(int p = 0; p < 4; p++) for(int q = 0; q < 4; q++) {
			double v = 0; for(int k = 0; k < 4; k++) if(B[k][p] != 0) for(int l = 0; l < 4; l++) if(B[l][q] != 0) v += B[k][p]*A[(size_t)(4*i+k)*4*N+4*j+l]*B[l][q];
			o.A[(size_t)(4*n2o[i]+p)*4*N+4*n2o[j]+q] = v/t.len;
		}
	}
	Vec uv = fl::mkvec<4>(um, u);
	std::vector<GradBlock_t<double,2,4>, Eigen::aligned_allocator<GradBlock_t<double,2,4>>> g(N);
	for(auto& x : g) x.setZero();
	s.getGradients(uv, g.data());
	o.grad.assign(8*N, 0.0);
	for(int i = 0; i < N; i++) for(int k = 0; k < 2; k++) for(int v = 0; v < 4; v++) {
		double x = 0; for(int l = 0; l < 2; l++) for(int w = 0; w < 4; w++) x += t.a[l][k]*g[i](l,w)*B[w][v];
		o.grad[8*n2o[i]+4*k+v] = x*t.len;
	}
	const FlowFV_base<double> *fv = dynamic_cast<const FlowFV_base<double>*>(S.s.get());
	const FlowOutput out(fv, S.phy.get(), ph.aoa);
	{
		const ConstGhostedVecHandler<double> uh(uv);
		const amat::Array2dView<double> ua(uh.getArray(), N, 4);
		for(int tag : tagsOf(m0)) {
			std::vector<int> F; for(int f = um.gPhyBFaceStart(); f < um.gPhyBFaceEnd(); f++) if(um.gbtags(f,0) == tag) F.push_back(f);
			MVector<double> d; d.resize(F.size(), 4);
			const auto q = fv->computeSurfaceData(ua, g.data(), tag, d);
			o.fun.push_back(std::get<0>(q)*t.det); o.fun.push_back(std::get<1>(q)); o.fun.push_back(std::get<2>(q));
			std::vector<std::array<double,4>> rows;
			for(int i = 0; i < (int)F.size(); i++) { const double z[2] = {(d(i,0)-t.s[0])/t.len, (d(i,1)-t.s[1])/t.len}; double w[2]; vec(inv, z, w); rows.push_back({{w[0], w[1], d(i,2), d(i,3)*t.det}}); }
			std::sort(rows.begin(), rows.end(), [](const std::array<double,4>& x, const std::array<double,4>& y) { return std::fabs(x[0]-y[0]) > 1e-7 ? x[0] < y[0] : x[1] < y[1]; });
			for(auto& x : rows) o.surf.insert(o.surf.end(), x.begin(), x.end());
		}
	}
	o.fun.push_back(out.compute_entropy_cell(uv)/t.len);
	{
		amat::Array2d<double> sc, ve;
		out.postprocess_cell(uv, sc, ve); o.cell.assign(6*N, 0.0);
		for(int i = 0; i < N; i++) { for(int k = 0; k < sc.cols() && k < 4; k++) o.cell[6*n2o[i]+k] = sc(i,k); const double z[2] = {ve(i,0), ve(i,1)}; vec(inv, z, &o.cell[6*n2o[i]+4]); }
		out.postprocess_point(uv, sc, ve); o.point.assign(6*um.gnpoin(), 0.0);
		for(int i = 0; i < um.gnpoin(); i++) { for(int k = 0; k < sc.cols() && k < 4; k++) o.point[6*i+k] = sc(i,k); const double z[2] = {ve(i,0), ve(i,1)}; vec(inv, z, &o.point[6*i+4]); }
	}
	if(heavy) {
		const SteadySolverConfig c = sb::conf(0.3, 0.3, 1e-300, 2, false);   // (a ramp would begin with the absolute size of the first residual)
		Vec w = fl::mkvec<4>(um, u);
		{ SteadyForwardEulerSolver<4> fe(&s, w, c); try { fe.solve(w); } catch(const std::exception&) {} }
		V q = fl::rd(w, 4*N); if(!faceStates(S, um, rc::Geo(&um), q).ok) q.assign(4*N, NAN);
		o.step = back(q, 1);
		VecDestroy(&w); w = fl::mkvec<4>(um, u);
		Mat M; fl::chk(setupSystemMatrix<4>(&um, &M), "matrix");
		KSP k; KSPCreate(PETSC_COMM_WORLD, &k); KSPSetOperators(k, M, M); KSPSetType(k, KSPGMRES); KSPSetTolerances(k, 1e-13, 1e-300, 1e8, 400); KSPGMRESSetRestart(k, 200);
		PC pc; KSPGetPC(k, &pc); PCSetType(pc, PCNONE);
		FullUpdate<4> fu;
		{ SteadyBackwardEulerSolver<4> be(&s, c, k, &fu); try { be.solve(w); } catch(const std::exception&) {} }
		q = fl::rd(w, 4*N); if(!faceStates(S, um, rc::Geo(&um), q).ok) q.assign(4*N, NAN);
		o.istep = back(q, 1);
		VecDestroy(&w); KSPDestroy(&k); MatDestroy(&M);
	}
	VecDestroy(&uv);
	return o;
}
static bool finite(const V& a) { for(double x : a) if(!std::isfinite(x)) return false; return true; }

int main(int argc, char **argv) {
	hx::init(argc, argv);
	hx::petsc_init();
	hx::S().cpulimit = hx::quick() ? 100 : 600;
	hx::rule("A case is one mesh with one discretization (scheme x flux x viscosity x boundary set x free stream x field, rotated). The problem is restated in the 7 other frames with the same axes (turned by multiples of 90 degrees, mirrored) and in the same frame, with shifts of the origin, other units of length and other numberings of cells, nodes and boundary edges rotated through; every result (residual, time steps, Jacobian, gradients, surface data, force coefficients, entropy, cell and point fields, explicit and implicit steps) is carried back and compared. Distinct by case and transformation.");
	hx::assume("limiters act on Cartesian components, so only frames whose axes are parallel to the original ones are equivalent; limiters with a length (WENO, Venkatakrishnan) keep their unit of length");
	const bool q = hx::quick();
	const fl::Phys PH[] = {{1.4, 0.4, 290, 30, 0.72, 0.1}, {1.4, 1.6, 250, 200, 0.9, -0.7}, {1.25, 0.2, 400, 8, 1.1, 2.4}};
	static const double SH[4][2] = {{0,0},{8,-16},{-0.5,32},{4,4}};
	static const double LN[3] = {1, 0.25, 8};
	const auto GR = group();
	long combo = 0;
	forMeshes(q ? 1 : 2, [&](const RM& m) {
		for(int rep = 0; rep < (q ? 2 : 5); rep++) {
			combo++;
			const int is = (int)(combo % fl::schemes().size());
			const int k = (int)(combo/11 + combo*3 + rep);
			if(!hx::begin(hx::fmt("%s:%d", m.name.c_str(), rep))) continue;
			Prob P; P.sc = fl::schemes()[is]; P.fx = fl::fluxes()[(combo+rep) % 7]; P.visc = (k/2) % 3; P.ph = PH[k % 3];
			P.kinds = [&](int i) { int c = (i+k) % 6; if(!P.visc && c >= 4) c = 3; return c; };
			const V u = mild(P.ph, m, 1 + k % 4);
			const bool haslen = P.sc.rec == "WENO" || P.sc.rec == "VENKATAKRISHNAN";
			bool heavy = true;
			Tr id = GR[0];
			const Out R = compute(m, P, u, id, heavy);
			if(!R.ok || !finite(R.r)) { hx::count("inadmissible_reconstruction_skipped"); continue; }
			const std::string base = hx::fmt("%s %s %s %s+%s g %g M %g aoa %g bc %d", m.name.c_str(), vname(P.visc), P.fx.c_str(), P.sc.grad.c_str(), P.sc.rec.c_str(), P.ph.g, P.ph.M, P.ph.aoa, k % 6);
			hx::sample(base);
			{
				const Mesh um = prepare(m); const rc::Geo G(&um); V cond;
				rc::gradLS(um, G, 1, V(um.gnelem(),1.0), V(um.gnbface(),1.0), cond);
				if(P.sc.grad == "LEASTSQUARES" && *std::max_element(cond.begin(), cond.end()) > 1e4) { hx::count("ill-conditioned_skipped"); continue; }
			}
			const double p0 = 1/(P.ph.g*P.ph.M*P.ph.M)+1;
			for(size_t e = 0; e < GR.size(); e++) {
				Tr t = GR[e];
				const int z = (int)(e + combo);
				t.s[0] = SH[z % 4][0]; t.s[1] = SH[z % 4][1];
				t.len = haslen ? 1 : LN[(z/2) % 3];
				t.perm = (int)(z % 3);
				const std::string what = base + hx::fmt(" in the frame x=(%g %g), y=(%g %g), origin (%g,%g), unit %g, numbering %d", t.a[0][0], t.a[0][1], t.a[1][0], t.a[1][1], t.s[0], t.s[1], t.len, t.perm);
				const Out D = compute(m, P, u, t, heavy);
				hx::eval(); hx::nontrivial(hx::fnv(what));
				if(!D.ok) { hx::count("inadmissible_reconstruction_skipped"); continue; }
				auto cmp = [&](const V& d, const V& r, const char *key, double tol, double extra) {
					if(!finite(r)) return;
					double sc = extra; for(double x : r) sc = std::max(sc, std::fabs(x));
					if(d.size() != r.size()) { hx::fail(key, what + ": other number of values"); return; }
					if(!finite(d) && (key[0] == 'e' || key[0] == 'i')) return;
					for(size_t i = 0; i < d.size(); i++) if(!(std::fabs(d[i]-r[i]) <= tol*sc)) { hx::fail(key, hx::fmt("%s: value %d is %.12g, %.12g in the original frame", what.c_str(), (int)i, d[i], r[i])); break; }
				};
				cmp(D.r, R.r, "residual", 1e-9, p0);
				cmp(D.dt, R.dt, "time-steps", 1e-9, 0);
				cmp(D.A, R.A, "jacobian", 1e-8, 0);
				cmp(D.grad, R.grad, "gradients", 1e-9, p0);
				cmp(D.surf, R.surf, "surface-data", 1e-9, p0);
				cmp(D.fun, R.fun, "functionals", 1e-9, p0);
				cmp(D.cell, R.cell, "cell-fields", 1e-10, 0);
				cmp(D.point, R.point, "point-fields", 1e-10, 0);
				cmp(D.step, R.step, "explicit-steps", 1e-7, 0);
				cmp(D.istep, R.istep, "implicit-steps", 1e-6, 0);
			}
		}
	});
	return hx::finish_petsc();
}
