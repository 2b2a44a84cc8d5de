// Reference residual of the flow discretization: own face loop, boundary handling, viscous terms and time steps.
// Gradients, reconstructions, inviscid fluxes and boundary states come from the library objects that G01, R01, F01, B01 decide.
#ifndef FLOWREF_HPP
#define FLOWREF_HPP
#include "recon.hpp"
#include "gas.hpp"

namespace fr {
using namespace fvens;
typedef fl::Mesh Mesh;
typedef std::vector<double> V;
using fl::St;

enum Visc { INVISCID = 0, CONSTV, SUTH };
inline const char *vname(int v) { static const char *n[] = {"inviscid","constvisc","sutherland"}; return n[v]; }

/// stress-law flux (same statement as V01)
template <typename S> void viscflux(const gas::Ph& h, const S& mu, const S g[2][4], const S *ul, const S *ur, const double *n, S *f) {
	const S k = mu*(1/(h.M*h.M*(h.g-1)*h.Pr));
	const S div = g[0][1]+g[1][2];
	S t[2][2];
	for(int i = 0; i < 2; i++) for(int j = 0; j < 2; j++) {
		t[i][j] = mu*(g[i][j+1]+g[j][i+1]);
		if(i == j) t[i][j] = t[i][j] - mu*div*(2.0/3);
	}
	const S tx = t[0][0]*n[0]+t[0][1]*n[1], ty = t[1][0]*n[0]+t[1][1]*n[1];
	f[0] = S(0.0);
	f[1] = -tx; f[2] = -ty;
	f[3] = -(tx*(ul[1]/ul[0]+ur[1]/ur[0])*0.5 + ty*(ul[2]/ul[0]+ur[2]/ur[0])*0.5 + k*(g[0][3]*n[0]+g[1][3]*n[1]));
}

struct RefOut { V r, dt, scale, bflux; bool ok; };

struct Setup {
	fl::Phys ph; gas::Ph h; int visc; fl::Scheme sc; std::string flux; std::vector<fl::BC> bcs;
	std::unique_ptr<IdealGasPhysics<double>> phy;
	std::unique_ptr<const InviscidFlux<double>> iflux;
	std::map<int,const FlowBC<double>*> bc;
	std::unique_ptr<const Spatial<double,4>> s;
	Setup(const Mesh& m, const fl::Phys& p, int v, const fl::Scheme& sch, const std::string& fx, const std::vector<fl::BC>& b)
		: ph(p), visc(v), sc(sch), flux(fx), bcs(b) {
		h = {p.g, p.M, p.Tinf, p.Re, p.Pr};
		phy.reset(new IdealGasPhysics<double>(p.g, p.M, p.Tinf, p.Re, p.Pr));
		iflux.reset(create_const_inviscidflux<double>(fx, phy.get()));
		const FlowPhysicsConfig pc = fl::pconf(p, v != INVISCID, v == CONSTV, b);
		bc = create_const_flowBCs<double>(pc.bcconf, *phy, fl::freestream(p));
		s.reset(create_const_flowSpatialDiscretization<double>(&m, pc, fl::nconf(fx, sch.grad, sch.rec, sch.o2, fx == "VANLEER" || fx == "AUSMPLUS" ? "LLF" : fx, sch.lp)));
	}
	~Setup() { for(auto& p : bc) delete p.second; }
	Setup(const Setup&) = delete;
	std::string str() const { return hx::fmt("%s %s %s+%s%s g %g M %g aoa %g", vname(visc), flux.c_str(), sc.grad.c_str(), sc.rec.c_str(), sc.o2 ? "" : " first-order", ph.g, ph.M, ph.aoa); }
};

inline St toPrim(double g, const double *u) { return {{u[0], u[1]/u[0], u[2]/u[0], fl::pres(g,u)}}; }
inline St toCons(double g, const double *p) { return fl::cons(g, p[0], p[1], p[2], p[3]); }

/// States the fluxes are computed from: at both sides of all faces, ghost states of the boundary cells, and gradients
struct FaceStates { V ul, ur, ub, grad; bool ok; };

/// ok: all of them have a density and pressure clear of zero
inline FaceStates faceStates(const Setup& S, const Mesh& m, const rc::Geo& G, const V& u) {
	const int ne = m.gnelem(), nb = m.gnbface(), nf = m.gnaface();
	const double g = S.ph.g;
	FaceStates o; o.ok = false;
	o.ub.assign(4*nb, 0); o.grad.assign(8*ne, 0.0); o.ul.assign(4*nf, 0); o.ur.assign(4*nf, 0);
	V up(4*ne), ubp(4*nb), &ub = o.ub, &grad = o.grad, &ul = o.ul, &ur = o.ur;
	double rmin = INFINITY, pmin = INFINITY;
	for(int i = 0; i < ne; i++) { const double p = fl::pres(g, &u[4*i]); if(!(u[4*i] > 0 && p > 0)) return o; rmin = std::min(rmin, u[4*i]); pmin = std::min(pmin, p); }
	auto good = [&](const double *w) { return w[0] > 1e-5*rmin && fl::pres(g,w) > 1e-5*pmin; };
	auto boundary = [&](int f, const double *in, double *out) { const auto n = m.gnormal(f); S.bc.at(m.gbtags(f,0))->computeGhostState(in, n.data(), out); };
	for(int i = 0; i < ne; i++) { const St p = toPrim(g, &u[4*i]); std::copy(p.begin(), p.end(), &up[4*i]); }
	for(int f = 0; f < nb; f++) { boundary(f, &u[4*m.gintfac(f,0)], &ub[4*f]); const St p = toPrim(g, &ub[4*f]); std::copy(p.begin(), p.end(), &ubp[4*f]); }
	if(S.sc.o2) {
		grad = rc::libGrad<4>(m, G, S.sc.grad, up, ubp, 0.0);
		const rc::Recon R = rc::libRecon<4>(m, G, S.sc.rec, S.sc.lp, up, ubp, grad, 0.0);
		for(int f = 0; f < nf; f++) {
			St a = toCons(g, &R.l[4*f]); std::copy(a.begin(), a.end(), &ul[4*f]);
			if(f >= nb) { a = toCons(g, &R.r[4*f]); std::copy(a.begin(), a.end(), &ur[4*f]); }
		}
	} else for(int f = 0; f < nf; f++) {
		std::copy(&u[4*m.gintfac(f,0)], &u[4*m.gintfac(f,0)]+4, &ul[4*f]);
		if(f >= nb) std::copy(&u[4*m.gintfac(f,1)], &u[4*m.gintfac(f,1)]+4, &ur[4*f]);
	}
	for(int f = 0; f < nf; f++) {
		for(int s = 0; s < (f < nb ? 1 : 2); s++) {
			const double *w = s ? &ur[4*f] : &ul[4*f];
			if(!good(w)) return o;
		}
		if(f < nb) { boundary(f, &ul[4*f], &ur[4*f]); if(!good(&ur[4*f]) || !good(&ub[4*f])) return o; }
	}
	o.ok = true;
	return o;
}

inline RefOut reference(const Setup& S, const Mesh& m, const rc::Geo& G, const V& u) {
	const int ne = m.gnelem(), nb = m.gnbface(), nf = m.gnaface();
	const double g = S.ph.g;
	RefOut o;
	o.r.assign(4*ne, 0); o.dt.assign(ne, 0); o.scale.assign(4*ne, 0); o.bflux.assign(4, 0);
	const FaceStates W = faceStates(S, m, G, u);
	o.ok = W.ok;
	if(!o.ok) return o;
	const V &ul = W.ul, &ur = W.ur, &ub = W.ub, &grad = W.grad;
	V integ(ne, 0.0);
	for(int f = 0; f < nf; f++) {
		const auto n = m.gnormal(f);
		const double len = m.gfacemetric(f,2);
		const int L = m.gintfac(f,0), R = m.gintfac(f,1);
		const double *a = &ul[4*f], *b = &ur[4*f];
		double F[4];
		S.iflux->get_flux(a, b, n.data(), F);
		double w = 0, rh = 0, e = 0, pm = 0, vs = 0;
		for(const double *q : {a,b}) { const double v = std::hypot(q[1],q[2])/q[0]; w = std::max(w, v+fl::snd(g,q)); rh = std::max(rh, q[0]); e = std::max(e, q[3]+fl::pres(g,q)); pm = std::max(pm, fl::pres(g,q)); vs = std::max(vs, v); }
		double fs[4] = {rh*w, rh*w*w+pm, rh*w*w+pm, e*w};
		if(S.visc) {
			const double *cl = &u[4*L], *cr = f < nb ? &ub[4*f] : &u[4*R];
			// first-order: the ghost state at a boundary is that of the cell, i.e. the same thing
			const double rr[2] = {f < nb ? G.g(f,0) : G.c(R,0), f < nb ? G.g(f,1) : G.c(R,1)};
			double dr[2] = {rr[0]-G.c(L,0), rr[1]-G.c(L,1)};
			const double dist = std::hypot(dr[0],dr[1]);
			dr[0] /= dist; dr[1] /= dist;
			double q[2][4], gc[2][2][4] = {}, fg[2][4];
			for(int s = 0; s < 2; s++) {
				const double *c = s ? cr : cl;
				const double p = fl::pres(g,c);
				q[s][0] = c[0]; q[s][1] = c[1]/c[0]; q[s][2] = c[2]/c[0]; q[s][3] = g*S.ph.M*S.ph.M*p/c[0];
				if(S.sc.o2) {
					const int cell = s && f >= nb ? R : L;
					for(int d = 0; d < 2; d++) {
						const double *gg = nullptr; double t[4];
						for(int v = 0; v < 4; v++) t[v] = grad[(4*cell+v)*2+d];
						gg = t;
						for(int v = 0; v < 3; v++) gc[s][d][v] = gg[v];
						gc[s][d][3] = g*S.ph.M*S.ph.M*(gg[3]/c[0] - p*gg[0]/(c[0]*c[0]));
					}
				}
			}
			double gm = 0, gt = 0;
			for(int v = 0; v < 4; v++) {
				const double ax = 0.5*(gc[0][0][v]+gc[1][0][v]), ay = 0.5*(gc[0][1][v]+gc[1][1][v]), corr = (q[1][v]-q[0][v])/dist - (ax*dr[0]+ay*dr[1]);
				fg[0][v] = ax + corr*dr[0]; fg[1][v] = ay + corr*dr[1];
				const double mag = (std::fabs(q[0][v])+std::fabs(q[1][v]))/dist + std::fabs(ax) + std::fabs(ay);
				(v == 3 ? gt : gm) = std::max(v == 3 ? gt : gm, mag);
			}
			const double mu = S.visc == CONSTV ? 1/S.ph.Re : 0.5*(gas::mu(S.h,a)+gas::mu(S.h,b));
			double vf[4];
			viscflux<double>(S.h, mu, fg, a, b, n.data(), vf);
			for(int v = 0; v < 4; v++) F[v] += vf[v];
			fs[1] += mu*gm; fs[2] += mu*gm; fs[3] += mu*(gm*vs*2 + gt/(S.ph.M*S.ph.M*(g-1)*S.ph.Pr));
		}
		for(int v = 0; v < 4; v++) {
			o.r[4*L+v] -= F[v]*len; o.scale[4*L+v] += fs[v]*len;
			if(f >= nb) { o.r[4*R+v] += F[v]*len; o.scale[4*R+v] += fs[v]*len; }
			else o.bflux[v] += F[v]*len;
		}
		for(int s = 0; s < (f < nb ? 1 : 2); s++) {
			const double *q = s ? b : a; const int c = s ? R : L;
			double sp = (std::fabs(q[1]*n[0]+q[2]*n[1])/q[0] + fl::snd(g,q))*len;
			if(S.visc) sp += std::max(4.0/3, g)/q[0]*(S.visc == CONSTV ? 1/S.ph.Re : gas::mu(S.h,q))/S.ph.Pr*len*len/m.garea(c);
			integ[c] += sp;
		}
	}
	for(int i = 0; i < ne; i++) o.dt[i] = m.garea(i)/integ[i];
	return o;
}

/// boundary condition kinds a tag may be given; kinds 0-2 are compatible with any uniform flow
inline fl::BC bcKind(int tag, int k) {
	switch(k) {
	case 0: return {tag, FARFIELD_BC, {}};
	case 1: return {tag, INFLOW_OUTFLOW_BC, {}};
	case 2: return {tag, EXTRAPOLATION_BC, {}};
	case 3: return {tag, SLIP_WALL_BC, {}};
	case 4: return {tag, ADIABATIC_WALL_BC, {0.3}};
	default: return {tag, ISOTHERMAL_WALL_BC, {-0.2, 3.5}};
	}
}
inline std::set<int> tagsOf(const mg::RM& m) { std::set<int> t; for(auto& b : m.bt) t.insert(b[0]); return t; }
inline std::vector<fl::BC> bcSet(const mg::RM& m, const std::function<int(int)>& kindOfTagIndex) {
	std::vector<fl::BC> b; int i = 0;
	for(int t : tagsOf(m)) b.push_back(bcKind(t, kindOfTagIndex(i++)));
	return b;
}
/// mildly rough admissible field that second-order unlimited reconstruction keeps admissible
inline V mild(const fl::Phys& p, const mg::RM& m, int seed) {
	V u; const double p0 = 1/(p.g*p.M*p.M);
	for(int i = 0; i < (int)m.e.size(); i++) {
		const St s = fl::cons(p.g, 1+0.2*(mg::hash01(i,1,seed)-0.5), std::cos(p.aoa)+0.3*(mg::hash01(i,2,seed)-0.5), std::sin(p.aoa)+0.3*(mg::hash01(i,3,seed)-0.5), p0*(1+0.2*(mg::hash01(i,4,seed)-0.5)));
		u.insert(u.end(), s.begin(), s.end());
	}
	return u;
}
} // namespace
#endif
