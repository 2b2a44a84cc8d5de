// G01: gradients of constant, linear and arbitrary fields on every small mesh
#include "common/petsc_init.hpp"
#include "common/flowref.hpp"
#include "common/submesh.hpp"
using namespace rc;
using namespace mg;

template <int nv> static void one(const Mesh& m, const Geo& G, const std::string& what, int lvl) {
	const int ne = m.gnelem(), nb = m.gnbface();
	double size = 0, lmin = 1e300;
	for(int i = 0; i < m.gnpoin(); i++) for(int k = 0; k < 2; k++) size = std::max(size, std::fabs(m.gcoords(i,k)));
	for(int f = 0; f < m.gnaface(); f++) lmin = std::min(lmin, m.gfacemetric(f,2));
	V amax(ne, 0.0);     // how much a unit error in values can be amplified by GG
	for(int i = 0; i < ne; i++) for(int j = 0; j < m.gnfael(i); j++) amax[i] += m.gfacemetric(m.gelemface(i,j),2)/m.garea(i);
	// fields: 0.. constants, then linear, then rough; per variable different coefficients
	for(int fld = 0; fld < lvl; fld++) {
		V u(ne*nv), ug(nb*nv), ex(nv*2, 0.0);
		double umax = 1e-300;
		auto coef = [&](int v, int k) -> double {
			if(fld == 0) return k == 0 ? (v == 0 ? 1.0 : v == 1 ? -3.7 : v == 2 ? 0.0 : 1e5) : 0.0;
			if(fld == 1) return k == (v%3) ? 1.0 : 0.0;                         // 1, x, y, 1
			if(fld == 2) return k == ((v+1)%3) ? -2.5 : 0.0;
			return (k == 0 ? 40 : 6)*(hash01(v,k,fld)-0.5);
		};
		const bool rough = fld >= 5;
		auto val = [&](int v, double x, double y, int id) { return rough ? -2 + 5*hash01(id, v, 70+fld) : coef(v,0) + coef(v,1)*x + coef(v,2)*y; };
		for(int i = 0; i < ne; i++) for(int v = 0; v < nv; v++) { u[i*nv+v] = val(v, G.c(i,0), G.c(i,1), i); umax = std::max(umax, std::fabs(u[i*nv+v])); }
		for(int i = 0; i < nb; i++) for(int v = 0; v < nv; v++) { ug[i*nv+v] = val(v, G.g(i,0), G.g(i,1), 1000+i); umax = std::max(umax, std::fabs(ug[i*nv+v])); }
		V cond;
		const V rgg = gradGG(m, G, nv, u, ug), rls = gradLS(m, G, nv, u, ug, cond);
		for(double poison : {std::numeric_limits<double>::quiet_NaN(), 1e30}) {
			const V z = libGrad<nv>(m, G, "NONE", u, ug, poison);
			for(double x : z) HX_CHECK(x == 0, "zero-scheme", "%s field %d: %g", what.c_str(), fld, x);
			const V g = libGrad<nv>(m, G, "GREENGAUSS", u, ug, poison), l = libGrad<nv>(m, G, "LEASTSQUARES", u, ug, poison);
			for(int i = 0; i < ne; i++) for(int v = 0; v < nv; v++) for(int d = 0; d < 2; d++) {
				const int k = (i*nv+v)*2+d;
				HX_CHECK(std::fabs(g[k]-rgg[k]) <= 1e-12*umax*amax[i], "greengauss", "%s field %d cell %d var %d dim %d: %.12g expected %.12g", what.c_str(), fld, i, v, d, g[k], rgg[k]);
				const double lt = 4e-15*cond[i]*umax*amax[i]*std::max(1.0, size/lmin);
				if(!(lt < 1e-3)) { hx::count("ill-conditioned"); continue; }
				HX_CHECK(std::fabs(l[k]-rls[k]) <= lt+1e-14*umax, "leastsquares", "%s field %d cell %d var %d dim %d: %.12g expected %.12g", what.c_str(), fld, i, v, d, l[k], rls[k]);
				if(!rough) {
					const double e = coef(v,1+d);
					HX_CHECK(std::fabs(l[k]-e) <= lt+1e-14*umax, "linear-exactness", "%s field %d cell %d var %d dim %d: %.12g exact %.12g", what.c_str(), fld, i, v, d, l[k], e);
					if(fld == 0) HX_CHECK(std::fabs(g[k]) <= 1e-12*umax*amax[i], "gg-constant", "%s cell %d var %d: %.12g", what.c_str(), i, v, g[k]);
				}
			}
			hx::eval(3);
		}
		hx::nontrivial(hx::fnv(what + hx::fmt("#%d/%d", nv, fld)));
	}
}

/// the gradients the flow and diffusion solvers hand out: the scheme applied to the state and its boundary states
static void solvers(const RM& m, const Mesh& um, const Geo& G, const std::string& what) {
	const Ref r(m);
	const int ne = um.gnelem(), nb = um.gnbface();
	const fl::Phys p = {1.4,0.5,288.15,100,0.72,0.3};
	double size = 0, lmin = 1e300;
	for(int i = 0; i < um.gnpoin(); i++) for(int k = 0; k < 2; k++) size = std::max(size, std::fabs(um.gcoords(i,k)));
	for(int f = 0; f < um.gnaface(); f++) lmin = std::min(lmin, (double)um.gfacemetric(f,2));
	V amax(ne, 0.0), cond;
	for(int i = 0; i < ne; i++) for(int j = 0; j < um.gnfael(i); j++) amax[i] += um.gfacemetric(um.gelemface(i,j),2)/um.garea(i);
	auto compare = [&](bool gg, int nv, const V& got, const V& u, const V& ug, const char *key, const std::string& w) {
		const V e = gg ? gradGG(um, G, nv, u, ug) : gradLS(um, G, nv, u, ug, cond);
		double umax = 1e-300;
		for(double x : u) umax = std::max(umax, std::fabs(x));
		for(double x : ug) umax = std::max(umax, std::fabs(x));
		for(int i = 0; i < ne; i++) {
			const double tol = gg ? 1e-12*umax*amax[i] : 4e-15*cond[i]*umax*amax[i]*std::max(1.0, size/lmin)+1e-14*umax;
			if(!gg && !(tol < 1e-3)) { hx::count("ill-conditioned"); continue; }
			for(int k = 2*nv*i; k < 2*nv*(i+1); k++) HX_CHECK(std::fabs(got[k]-e[k]) <= tol, key, "%s cell %d entry %d: %.12g expected %.12g", w.c_str(), i, k-2*nv*i, got[k], e[k]);
		}
		hx::eval();
	};
	for(bool gg : {false, true}) {
		for(int bcv : {-1,0,1,2}) for(int st : {0,1}) {
			const std::vector<fl::BC> bcs = fr::bcSet(m, [&](int i) { return bcv < 0 ? 0 : (i*3+2*bcv+3*st)%6; });
			fr::Setup S(um, p, fr::INVISCID, fl::Scheme{gg ? "GREENGAUSS" : "LEASTSQUARES", "NONE", true, 0}, "HLLC", bcs);
			const V u = bcv < 0 && st == 0 ? fl::field(p, 0, m, r) : fr::mild(p, m, 5+st);
			V ub(4*nb);
			for(int f = 0; f < nb; f++) { const auto n = um.gnormal(f); S.bc.at(um.gbtags(f,0))->computeGhostState(&u[4*um.gintfac(f,0)], n.data(), &ub[4*f]); }
			std::vector<GradBlock_t<double,2,4>, Eigen::aligned_allocator<GradBlock_t<double,2,4>>> gr(ne);
			for(auto& b : gr) b.setConstant(7e33);
			Vec uv = fl::mkvec<4>(um, u);
			dynamic_cast<const FlowFV_base<double>&>(*S.s).getGradients(uv, gr.data());
			VecDestroy(&uv);
			V got(8*ne);
			for(int i = 0; i < ne; i++) for(int v = 0; v < 4; v++) for(int d = 0; d < 2; d++) got[(4*i+v)*2+d] = gr[i](d,v);
			compare(gg, 4, got, u, ub, "flow-solver", what + hx::fmt(":flow%d:%d:%d", (int)gg, bcv, st));
		}
		for(int st : {0,1,2}) {
			const double bv = st == 0 ? 2.5 : -0.75;
			DiffusionMA<1> D(&um, 1.3, bv, [](const double *const, const double, const double *const, double *const s) { s[0] = 3; }, gg ? "GREENGAUSS" : "LEASTSQUARES");
			V u(ne), ub(nb);
			for(int i = 0; i < ne; i++) u[i] = st == 0 ? bv : -2 + 5*hash01(i,3,st);
			for(int f = 0; f < nb; f++) ub[f] = 2*bv - u[um.gintfac(f,0)];
			std::vector<GradBlock_t<double,2,1>, Eigen::aligned_allocator<GradBlock_t<double,2,1>>> gr(ne);
			for(auto& b : gr) b.setConstant(7e33);
			Vec uv = fl::mkvec<1>(um, u);
			D.getGradients(uv, gr.data());
			VecDestroy(&uv);
			V got(2*ne);
			for(int i = 0; i < ne; i++) for(int d = 0; d < 2; d++) got[2*i+d] = gr[i](d,0);
			compare(gg, 1, got, u, ub, "diffusion-solver", what + hx::fmt(":diffusion%d:%d", (int)gg, st));
		}
	}
}

/// a rank's part of the mesh, given its neighbours' values, has the gradients of the whole mesh
template <int nv> static void part(const Mesh& m, const Geo& G, const sm::Sub& S, const std::string& what) {
	const Mesh& lm = S.m;
	const int ne = m.gnelem(), nb = m.gnbface();
	double size = 0, lmin = 1e300;
	for(int i = 0; i < m.gnpoin(); i++) for(int k = 0; k < 2; k++) size = std::max(size, std::fabs(m.gcoords(i,k)));
	for(int f = 0; f < m.gnaface(); f++) lmin = std::min(lmin, (double)m.gfacemetric(f,2));
	for(int fld : {2,5}) {
		V u(ne*nv), ug(nb*nv), cond;
		for(int i = 0; i < ne*nv; i++) u[i] = fld == 2 ? 1+0.5*(i%nv)*G.c(i/nv,0)-2*G.c(i/nv,1) : -2+5*hash01(i,1,70);
		for(int i = 0; i < nb*nv; i++) ug[i] = fld == 2 ? 1+0.5*(i%nv)*G.g(i/nv,0)-2*G.g(i/nv,1) : -2+5*hash01(i,2,70);
		const V rgg = gradGG(m, G, nv, u, ug), rls = gradLS(m, G, nv, u, ug, cond);
		const V lu = S.cells(u, nv), lg = S.bfaces(ug, nv);
		for(const char *T : {"NONE", "GREENGAUSS", "LEASTSQUARES"}) {
			std::unique_ptr<const GradientScheme<double,nv>> s(create_const_gradientscheme<double,nv>(T, &lm, S.cc.data(), S.gh.data()));
			const int nl = lm.gnelem(), nt = nl+lm.gnConnFace();
			V raw((size_t)nt*nv*2, std::numeric_limits<double>::quiet_NaN());
			for(size_t k = (size_t)nl*nv*2; k < raw.size(); k++) raw[k] = 5e30;
			s->compute_gradients(amat::Array2dView<double>(lu.data(), nt, nv), amat::Array2dView<double>(lg.data(), lm.gnbface(), nv), raw.data());
			const GradBlock_t<double,2,nv> *B = reinterpret_cast<const GradBlock_t<double,2,nv>*>(raw.data());
			for(size_t k = (size_t)nl*nv*2; k < raw.size(); k++) HX_CHECK(raw[k] == 5e30, "part-neighbours", "%s %s: the gradient of a cell of another process was written", what.c_str(), T);
			for(int i = 0; i < nl; i++) {
				const int c = S.cell[i];
				double amax = 0, umax = 1e-300;
				for(int j = 0; j < m.gnfael(c); j++) amax += m.gfacemetric(m.gelemface(c,j),2)/m.garea(c);
				for(double x : u) umax = std::max(umax, std::fabs(x));
				for(double x : ug) umax = std::max(umax, std::fabs(x));
				const double tol = T[0] == 'G' ? 1e-12*umax*amax : 4e-15*cond[c]*umax*amax*std::max(1.0,size/lmin)+1e-14*umax;
				if(T[0] == 'L' && !(tol < 1e-3)) { hx::count("ill-conditioned"); continue; }
				for(int v = 0; v < nv; v++) for(int d = 0; d < 2; d++) {
					const double e = T[0] == 'N' ? 0 : (T[0] == 'G' ? rgg : rls)[(c*nv+v)*2+d];
					HX_CHECK(T[0] == 'N' ? B[i](d,v) == 0 : std::fabs(B[i](d,v)-e) <= tol, "part", "%s %s field %d cell %d var %d dim %d: %.12g, on the whole mesh %.12g", what.c_str(), T, fld, c, v, d, (double)B[i](d,v), e);
				}
			}
			hx::eval();
		}
	}
}

int main(int argc, char **argv) {
	hx::init(argc, argv);
	hx::petsc_init();
	hx::rule("A case is one mesh of the families, with its cells renumbered and nodes rotated; for each, constant, linear-basis, general linear and rough fields with matching boundary values, with 1 and 4 variables, into output arrays pre-filled with NaN and 1e30. Every entry of every gradient is compared with a naive formula and, for linear fields, with the exact gradient. The gradients handed out by the flow and diffusion solvers are compared the same way, with the boundary states of mixed boundary conditions. Each scheme is also run on every rank's part of the mesh (all assignments to two ranks of the smallest meshes, patterns on the others), given the values across the cuts. Distinct by mesh, numbering, field.");
	forMeshes(hx::quick() ? 1 : 2, [&](const RM& m0) {
		if(!hx::begin("mesh:" + m0.name)) return;
		hx::sample(m0.name);
		forNumberings(m0, hx::quick(), [&](const RM& m, const std::string& nm) {
			const Mesh um = prepare(m);
			const Geo G(&um);
			checkGeo(um, G, m.name);
			one<4>(um, G, m0.name + ":" + nm, hx::quick() ? 6 : 8);
			one<1>(um, G, m0.name + ":" + nm + ":scalar", hx::quick() ? 6 : 8);
			solvers(m, um, G, m0.name + ":" + nm);
			const Mesh gm = prepareGlobal(m);
			sm::forSubs(gm, G, hx::quick(), m0.name + ":" + nm, [&](const sm::Sub& S, const std::string& w) { part<4>(gm, G, S, w); part<1>(gm, G, S, w); });
		});
	});
	return hx::finish_petsc();
}
