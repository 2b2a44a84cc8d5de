// H01: scalar diffusion: residual, Jacobian coupling, time steps, exported nodal values
#include "common/petsc_init.hpp"
#include "common/recon.hpp"
#include "common/numdiff.hpp"
using namespace rc;
using namespace mg;

struct Prob { double D, bv; int src; std::string grad; };
static double source(int k, double x, double y, double u) { return k == 0 ? 0 : k == 1 ? 1.7 : k == 2 ? x - 2*y*y : 0.4*u*u - x; }
static std::unique_ptr<const DiffusionMA<1>> make(const Mesh& m, const Prob& p) {
	const int k = p.src;
	return std::unique_ptr<const DiffusionMA<1>>(new DiffusionMA<1>(&m, p.D, p.bv, [k](const double *x, const double, const double *u, double *o) { o[0] = source(k, x[0], x[1], u[0]); }, p.grad));
}

static double fieldv(int f, const Prob& p, double x, double y, int i) {
	switch(f) {
	case 0: return p.bv;
	case 1: return 0.3 + 1.7*x - 0.8*y;
	case 2: return std::sin(2*x) + 0.5*std::cos(3*y);
	case 3: return -2 + 5*hash01(i, 4, 17);
	case 4: return (i % 2) ? 1e4 : -1e-3;
	}
	return 0;
}

static void one(const RM& m, const Mesh& um, const Geo& G, const Prob& p, int f, const std::string& what) {
	const int ne = um.gnelem(), nb = um.gnbface();
	auto s = make(um, p);
	V u(ne), ug(nb);
	double umax = std::fabs(p.bv) + 1e-300;
	for(int i = 0; i < ne; i++) { u[i] = fieldv(f, p, G.c(i,0), G.c(i,1), i); umax = std::max(umax, std::fabs(u[i])); }
	for(int i = 0; i < nb; i++) ug[i] = 2*p.bv - u[um.gintfac(i,0)];
	const V g = libGrad<1>(um, G, p.grad, u, ug, 0.0);
	// reference residual, unit of each cell's fluxes
	V r(ne, 0.0), sc(ne, 0.0), flux(um.gnaface());
	for(int fc = 0; fc < um.gnaface(); fc++) {
		const bool bd = fc < nb;
		const int L = um.gintfac(fc,0), R = um.gintfac(fc,1);
		const double rx = bd ? G.g(fc,0) : G.c(R,0), ry = bd ? G.g(fc,1) : G.c(R,1), uR = bd ? ug[fc] : u[R];
		double dx = rx-G.c(L,0), dy = ry-G.c(L,1); const double d = std::hypot(dx,dy); dx /= d; dy /= d;
		double ax = g[2*L], ay = g[2*L+1];
		if(!bd) { ax = 0.5*(ax+g[2*R]); ay = 0.5*(ay+g[2*R+1]); }
		const double c = (uR-u[L])/d - ax*dx - ay*dy, len = um.gfacemetric(fc,2);
		flux[fc] = -p.D*len*((ax+c*dx)*um.gfacemetric(fc,0) + (ay+c*dy)*um.gfacemetric(fc,1));
		const double w = p.D*len*((std::fabs(u[L])+std::fabs(uR))/d + 2*std::fabs(ax) + 2*std::fabs(ay));
		r[L] -= flux[fc]; sc[L] += w;
		if(!bd) { r[R] += flux[fc]; sc[R] += w; }
	}
	for(int i = 0; i < ne; i++) { const double q = source(p.src, G.c(i,0), G.c(i,1), u[i])*um.garea(i); r[i] += q; sc[i] += std::fabs(q); }
	V dt;
	const V a = fl::residual<1>(um, *s, u), b = fl::residual<1>(um, *s, u, &dt);
	hx::eval(4);
	for(int i = 0; i < ne; i++) {
		HX_CHECK(std::fabs(a[i]-r[i]) <= 1e-12*sc[i], "residual", "%s cell %d: %.12g expected %.12g", what.c_str(), i, a[i], r[i]);
		HX_CHECK(std::fabs(b[i]-a[i]) <= 1e-14*sc[i], "residual-with-timesteps", "%s cell %d: %.12g with time steps, %.12g without", what.c_str(), i, b[i], a[i]);
		double h = 0; for(int j = 0; j < um.gnfael(i); j++) h = std::max(h, um.gfacemetric(um.gelemface(i,j),2));
		HX_CHECK(std::fabs(dt[i]-h*h/p.D) <= 1e-12*h*h/p.D, "timestep", "%s cell %d: time step %.12g, longest face %.12g, diffusivity %.12g", what.c_str(), i, dt[i], h, p.D);
	}
	// without a time step vector
	{
		Vec uv = fl::mkvec<1>(um, u), rv = fl::mkvec<1>(um, V(ne, 0.0));
		int ierr = -1;
		try { ierr = s->compute_residual(uv, rv, false, NULL); } catch(const std::exception& e) { hx::fail("no-timestep-vector", what + ": " + e.what()); }
		const V c = fl::rd(rv, ne);
		HX_CHECK(ierr == 0 || ierr == -1, "no-timestep-vector", "%s: error %d", what.c_str(), ierr);
		for(int i = 0; i < ne; i++) HX_CHECK(ierr || std::fabs(c[i]-a[i]) <= 1e-14*sc[i], "no-timestep-vector", "%s cell %d: %.12g, with a vector %.12g", what.c_str(), i, c[i], a[i]);
		VecDestroy(&uv); VecDestroy(&rv);
	}
	// the residual is added
	V init(ne); for(int i = 0; i < ne; i++) init[i] = 3.5 - i;
	const V c = fl::residual<1>(um, *s, u, nullptr, &init);
	for(int i = 0; i < ne; i++) HX_CHECK(std::fabs(c[i]-init[i]-a[i]) <= 1e-12*(sc[i]+std::fabs(init[i])), "accumulate", "%s cell %d", what.c_str(), i);
	// global conservation: sum of everything = boundary fluxes + source
	double tot = 0, ex = 0, ts = 0;
	for(int i = 0; i < ne; i++) { tot += a[i]; ts += sc[i]; ex += source(p.src, G.c(i,0), G.c(i,1), u[i])*um.garea(i); }
	for(int fc = 0; fc < nb; fc++) ex -= flux[fc];
	HX_CHECK(std::fabs(tot-ex) <= 1e-12*ts, "conservation", "%s: sum %.12g, boundary and source %.12g", what.c_str(), tot, ex);
	if(f == 0 && p.src == 0) for(int i = 0; i < ne; i++) HX_CHECK(std::fabs(a[i]) <= 1e-13*sc[i], "constant", "%s cell %d: %.12g", what.c_str(), i, a[i]);
	if(f == 1 && p.grad == "LEASTSQUARES" && p.src == 0) {
		auto touches = [&](int i) { for(int j = 0; j < um.gnfael(i); j++) if(um.gelemface(i,j) < nb) return true; return false; };
		for(int i = 0; i < ne; i++) {
			bool deep = !touches(i);
			for(int j = 0; j < um.gnfael(i) && deep; j++) { const int fc = um.gelemface(i,j), o = um.gintfac(fc,0) == i ? um.gintfac(fc,1) : um.gintfac(fc,0); deep = !touches(o); }
			if(!deep) continue;
			hx::count("cells_with_exact_gradients");
			HX_CHECK(std::fabs(a[i]) <= 1e-11*sc[i], "linear", "%s cell %d: %.12g", what.c_str(), i, a[i]);
		}
	}
	// exported nodal values
	{
		Vec uv = fl::mkvec<1>(um, u);
		amat::Array2d<double> up;
		HX_CHECK(!scalar_postprocess_point<1>(&um, uv, up), "nodal", "%s: error", what.c_str());
		V n(um.gnpoin(), 0.0), w(um.gnpoin(), 0.0);
		for(int i = 0; i < ne; i++) for(int j = 0; j < um.gnnode(i); j++) { n[um.ginpoel(i,j)] += u[i]*um.garea(i); w[um.ginpoel(i,j)] += um.garea(i); }
		for(int i = 0; i < um.gnpoin(); i++) HX_CHECK(std::fabs(up(i,0)-n[i]/w[i]) <= 1e-13*umax, "nodal", "%s point %d: %.12g expected %.12g", what.c_str(), i, (double)up(i,0), n[i]/w[i]);
		// gradients for post-processing
		std::vector<GradBlock_t<double,2,1>, Eigen::aligned_allocator<GradBlock_t<double,2,1>>> gr(ne);
		s->getGradients(uv, gr.data());
		for(int i = 0; i < ne; i++) for(int d = 0; d < 2; d++) HX_CHECK(std::fabs(gr[i](d,0)-g[2*i+d]) <= 1e-13*(std::fabs(g[2*i+d])+umax), "gradients", "%s cell %d: %.12g expected %.12g", what.c_str(), i, (double)gr[i](d,0), g[2*i+d]);
		VecDestroy(&uv);
	}
}

static void jacobian(const Mesh& um, const Geo& G, const Prob& p, int f, const std::string& what) {
	const int ne = um.gnelem(), nb = um.gnbface();
	auto s = make(um, p);
	V u(ne); for(int i = 0; i < ne; i++) u[i] = fieldv(f, p, G.c(i,0), G.c(i,1), i);
	const V A = fl::jacobian<1>(um, *s, u);
	V off((size_t)ne*ne, 0.0), bd(ne, 0.0), sc(ne, 0.0);
	for(int fc = 0; fc < um.gnaface(); fc++) {
		const int L = um.gintfac(fc,0), R = um.gintfac(fc,1); const bool b = fc < nb;
		const double dx = (b ? G.g(fc,0) : G.c(R,0))-G.c(L,0), dy = (b ? G.g(fc,1) : G.c(R,1))-G.c(L,1);
		const double k = p.D*um.gfacemetric(fc,2)*(dx*um.gfacemetric(fc,0)+dy*um.gfacemetric(fc,1))/(dx*dx+dy*dy);
		sc[L] += std::fabs(k);
		if(b) bd[L] += k; else { off[(size_t)L*ne+R] += k; off[(size_t)R*ne+L] += k; sc[R] += std::fabs(k); }
	}
	hx::eval();
	for(int i = 0; i < ne; i++) {
		double d = 0;
		for(int j = 0; j < ne; j++) if(j != i) {
			d += off[(size_t)i*ne+j];
			HX_CHECK(std::fabs(A[(size_t)i*ne+j]+off[(size_t)i*ne+j]) <= 1e-12*sc[i], "coupling", "%s entry (%d,%d): %.12g expected %.12g", what.c_str(), i, j, A[(size_t)i*ne+j], -off[(size_t)i*ne+j]);
		}
		// at the Dirichlet boundary either the face distance or the distance to the mirrored point may be used
		const double b = A[(size_t)i*ne+i]-d;
		HX_CHECK(b >= bd[i]-1e-11*sc[i] - (bd[i] < 0 ? -bd[i] : 0) && b <= std::max(2*bd[i],0.0)+1e-11*sc[i], "diagonal", "%s cell %d: diagonal %.12g, interior part %.12g, boundary part %.12g not between 1 and 2 times %.12g", what.c_str(), i, A[(size_t)i*ne+i], d, b, bd[i]);
	}
}

int main(int argc, char **argv) {
	hx::init(argc, argv);
	hx::petsc_init();
	hx::rule("A case is one mesh of the families, renumbered. Within it diffusivities x boundary values x sources x gradient schemes x fields (constant at the boundary value, linear, smooth, rough, huge jumps): residual with and without time steps and without a time step vector, accumulation, global balance, linear and constant exactness, assembled matrix entries, time steps, nodal averages and gradients. Distinct by mesh, problem, field.");
	hx::assume("cell gradients come from the gradient schemes that G01 decides");
	const bool q = hx::quick();
	auto mesh = [&](const RM& m0) {
		for(int num = 0; num < 2; num++) {
			if(!hx::begin(hx::fmt("%s:%d", m0.name.c_str(), num))) continue;
			std::vector<int> rv = iota((int)m0.e.size()); std::reverse(rv.begin(), rv.end());
			const RM m = num ? flipBFaces(rotateNodes(permCells(m0, rv), 5), 0x2d) : m0;
			const Mesh um = prepare(m); const Geo G(&um);
			checkGeo(um, G, m.name);
			hx::sample(m0.name);
			const double Ds[] = {1, 0.013, 250}, bs[] = {0, 1.5, -4};
			int k = 0;
			for(int id = 0; id < 3; id++) for(int ib = 0; ib < 3; ib++) for(int is = 0; is < 4; is++) for(const char *g : {"LEASTSQUARES","GREENGAUSS","NONE"}) {
				if(q && (k++ + (int)(hx::fnv(m0.name)%4)) % 4) continue;
				const Prob p = {Ds[id], bs[ib], is, g};
				for(int f = 0; f < 5; f++) {
					const std::string w = hx::fmt("%s/%d D %g bval %g source %d %s field %d", m0.name.c_str(), num, p.D, p.bv, is, g, f);
					one(m, um, G, p, f, w);
					hx::nontrivial(hx::fnv(w));
				}
				jacobian(um, G, p, 3, hx::fmt("%s/%d D %g bval %g source %d %s", m0.name.c_str(), num, p.D, p.bv, is, g));
			}
		}
	};
	forMeshes(q ? 0 : 1, mesh);
	for(Geom g : {UNIFORM, DISTORTED, STRETCHED, ROTATED}) for(long pat : {0L, 11L, 0x1555555L}) { RM a = grid(6,6,pat,g); a.name += "/deep"; mesh(a); }
	{ RM a = ring(6,5,3); a.name += "/deep"; mesh(a); }
	return hx::finish_petsc();
}
