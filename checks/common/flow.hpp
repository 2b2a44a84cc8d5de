// Helpers around the flow discretization: configurations, state fields, residual/Jacobian evaluation.
#ifndef FLOW_HPP
#define FLOW_HPP
#include "meshgen.hpp"
#include "spatial/flow_spatial.hpp"
#include "spatial/diffusion.hpp"
#include "spatial/abc.hpp"
#include "spatial/abctypemap.hpp"
#include "physics/aphysics.hpp"
#include "utilities/afactory.hpp"
#include "linalg/alinalg.hpp"
#include "linalg/petscutils.hpp"
#include <petscmat.h>
#include <memory>

namespace fl {
using namespace fvens;
typedef UMesh<double,2> Mesh;
typedef std::array<double,4> St;
typedef std::vector<double> V;

struct Phys { double g, M, Tinf, Re, Pr, aoa; };

/// primitive (rho,u,v,p) to conserved
inline St cons(double g, double r, double u, double v, double p) { return {{r, r*u, r*v, p/(g-1) + 0.5*r*(u*u+v*v)}}; }
inline double pres(double g, const double *u) { return (g-1)*(u[3] - 0.5*(u[1]*u[1]+u[2]*u[2])/u[0]); }
inline double snd(double g, const double *u) { return std::sqrt(g*pres(g,u)/u[0]); }
inline St freestream(const Phys& p) { return cons(p.g, 1, std::cos(p.aoa), std::sin(p.aoa), 1/(p.g*p.M*p.M)); }

struct BC { int tag; BCType type; std::vector<double> vals; };   // temperatures in free-stream units
/// what the control file would say: temperatures in kelvin
inline FlowBCConfig bcconf(const BC& b, double Tinf) {
	FlowBCConfig f; f.bc_tag = b.tag; f.bc_type = b.type; f.bc_vals = b.vals;
	if(b.type == ISOTHERMAL_WALL_BC || b.type == SUBSONIC_INFLOW_BC) f.bc_vals[1] *= Tinf;
	return f;
}

inline FlowPhysicsConfig pconf(const Phys& p, bool visc, bool constvisc, const std::vector<BC>& bcs) {
	FlowPhysicsConfig c;
	c.gamma = p.g; c.Minf = p.M; c.Tinf = p.Tinf; c.Reinf = p.Re; c.Pr = p.Pr; c.aoa = p.aoa;
	c.viscous_sim = visc; c.const_visc = constvisc;
	for(auto& b : bcs) c.bcconf.push_back(bcconf(b, p.Tinf));
	return c;
}
inline FlowNumericsConfig nconf(const std::string& flux, const std::string& grad, const std::string& rec, bool o2, const std::string& fluxjac = "", double lp = 20.0) {
	FlowNumericsConfig n;
	n.conv_numflux = flux; n.conv_numflux_jac = fluxjac.empty() ? flux : fluxjac;
	n.gradientscheme = grad; n.reconstruction = rec; n.limiter_param = lp; n.order2 = o2;
	return n;
}

inline void chk(int ierr, const char *what) { if(ierr) hx::internal_error(std::string("petsc failure in ") + what); }

template <int nv> Vec mkvec(const Mesh& m, const V& a) {
	Vec v;
	chk(createGhostedSystemVector(&m, nv, &v), "create");
	PetscScalar *p;
	chk(VecGetArray(v, &p), "get");
	for(size_t i = 0; i < a.size(); i++) p[i] = a[i];
	chk(VecRestoreArray(v, &p), "restore");
	VecGhostUpdateBegin(v, INSERT_VALUES, SCATTER_FORWARD);
	VecGhostUpdateEnd(v, INSERT_VALUES, SCATTER_FORWARD);
	return v;
}
inline Vec mkseq(long n, double val) { Vec v; chk(VecCreateSeq(PETSC_COMM_SELF, n, &v), "seq"); chk(VecSet(v, val), "set"); return v; }
inline V rd(Vec v, long n) {
	const PetscScalar *p; chk(VecGetArrayRead(v, &p), "read"); V r(p, p+n); chk(VecRestoreArrayRead(v, &p), "rr"); return r;
}

/// -r(u) (added to init if given) and time steps
template <int nv> V residual(const Mesh& m, const Spatial<double,nv>& s, const V& u, V *dt = nullptr, const V *init = nullptr) {
	Vec uv = mkvec<nv>(m, u);
	Vec rv = mkvec<nv>(m, init ? *init : V(nv*m.gnelem(), 0.0));
	Vec dv; 
	chk(createGhostedSystemVector(&m, 1, &dv), "create");
	chk(VecSet(dv, -12345.0), "set");
	const int ierr = s.compute_residual(uv, rv, dt != nullptr, dv);
	if(ierr) hx::fail("residual-error", hx::fmt("compute_residual returned %d", ierr));
	V r = rd(rv, nv*m.gnelem());
	if(dt) *dt = rd(dv, m.gnelem());
	const V ua = rd(uv, nv*m.gnelem());
	for(size_t i = 0; i < ua.size(); i++) if(ua[i] != u[i]) { hx::fail("residual-changed-state", "compute_residual modified its input state"); break; }
	VecDestroy(&uv); VecDestroy(&rv); VecDestroy(&dv);
	return r;
}

/// Dense assembled Jacobian (nv*nelem square, row-major); rowscale etc not applied
template <int nv> V jacobian(const Mesh& m, const Spatial<double,nv>& s, const V& u) {
	const int N = nv*m.gnelem();
	Mat A;
	chk(setupSystemMatrix<nv>(&m, &A), "matrix");
	Vec uv = mkvec<nv>(m, u);
	const int ierr = s.assemble_jacobian(uv, A);
	if(ierr) hx::fail("jacobian-error", hx::fmt("assemble_jacobian returned %d", ierr));
	MatAssemblyBegin(A, MAT_FINAL_ASSEMBLY); MatAssemblyEnd(A, MAT_FINAL_ASSEMBLY);
	V d((size_t)N*N, 0.0);
	std::vector<PetscInt> cols(N);
	for(int i = 0; i < N; i++) cols[i] = i;
	for(PetscInt i = 0; i < N; i++) chk(MatGetValues(A, 1, &i, N, cols.data(), &d[(size_t)i*N]), "getvalues");
	MatDestroy(&A); VecDestroy(&uv);
	return d;
}

/// Deterministic admissible state of cell i of field k
inline St fieldState(const Phys& ph, int field, double x, double y, int cell) {
	const double p0 = 1/(ph.g*ph.M*ph.M), ca = std::cos(ph.aoa), sa = std::sin(ph.aoa);
	switch(field) {
	case 0: return freestream(ph);
	case 1: // smooth
		return cons(ph.g, 1 + 0.2*std::sin(1.3*x+0.4*y), ca + 0.3*std::cos(0.7*x-y), sa + 0.25*std::sin(x+1.1*y), p0*(1 + 0.15*std::cos(x+2*y)));
	case 2: // rough, per cell
		return cons(ph.g, 0.6 + 1.1*mg::hash01(cell,1,11), -0.9 + 2*mg::hash01(cell,2,12), -1 + 2*mg::hash01(cell,3,13), p0*(0.4 + 1.3*mg::hash01(cell,4,14)));
	case 3: // discontinuity, transonic/supersonic both ways
		return (mg::hash01(cell,5,15) < 0.5) ? cons(ph.g, 1.3, 1.7*ca/ph.M, 0.3, p0*0.8) : cons(ph.g, 0.8, -1.2*ca/ph.M, -0.2, p0*1.4);
	case 4: // linear in primitive variables
		return cons(ph.g, 1 + 0.05*x - 0.03*y, ca + 0.07*x + 0.04*y, sa - 0.05*x + 0.06*y, p0*(1 + 0.04*x + 0.05*y));
	}
	return freestream(ph);
}
inline V field(const Phys& ph, int f, const mg::RM& m, const mg::Ref& r) {
	V u;
	for(size_t i = 0; i < m.e.size(); i++) { const St s = fieldState(ph, f, r.cc[i][0], r.cc[i][1], (int)i); u.insert(u.end(), s.begin(), s.end()); }
	return u;
}

struct Scheme { std::string grad, rec; bool o2; double lp; };
/// the gradient x reconstruction combinations the library offers
inline const std::vector<Scheme>& schemes() {
	static const std::vector<Scheme> s = {
		{"NONE","NONE",false,0},
		{"LEASTSQUARES","NONE",true,0}, {"GREENGAUSS","NONE",true,0},
		{"LEASTSQUARES","WENO",true,20}, {"GREENGAUSS","WENO",true,20},
		{"LEASTSQUARES","VANALBADA",true,0}, {"GREENGAUSS","VANALBADA",true,0},
		{"LEASTSQUARES","BARTHJESPERSEN",true,0}, {"GREENGAUSS","BARTHJESPERSEN",true,0},
		{"LEASTSQUARES","VENKATAKRISHNAN",true,20}, {"GREENGAUSS","VENKATAKRISHNAN",true,20},
	};
	return s;
}
inline const std::vector<std::string>& fluxes() {
	static const std::vector<std::string> f = {"LLF","VANLEER","AUSM","AUSMPLUS","ROE","HLL","HLLC"};
	return f;
}
} // namespace fl
#endif
