// Geometry as the solver sees it, and reference gradients and reconstructions.
#ifndef RECON_HPP
#define RECON_HPP
#include "flow.hpp"
#include "spatial/agradientschemes.hpp"
#include "spatial/areconstruction.hpp"
#include "spatial/limitedlinearreconstruction.hpp"
#include "spatial/musclreconstruction.hpp"
#include <limits>

namespace rc {
using namespace fvens;
typedef fl::Mesh Mesh;
typedef std::vector<double> V;

/// Exposes the geometry arrays a Spatial object hands to gradient and reconstruction schemes
struct Geo : public DiffusionMA<1> {
	explicit Geo(const Mesh *m) : DiffusionMA<1>(m, 1.0, 0.0, [](const double *const, const double, const double *const, double *const s) { s[0] = 0; }, "NONE") {}
	const double *cc() const { return this->rch.getArray(); }
	double c(int i, int k) const { return this->rch.getArray()[2*i+k]; }
	const double *gh() const { return &this->rcbp(0,0); }
	const amat::Array2d<double>& face() const { return this->gr; }
	double f(int i, int k) const { return this->gr(i,k); }
	double g(int i, int k) const { return this->rcbp(i,k); }
};

/// gradient g[(cell*nv + var)*2 + dim]; reference for one process, uncut mesh
inline V gradGG(const Mesh& m, const Geo& G, int nv, const V& u, const V& ug) {
	V g(m.gnelem()*nv*2, 0.0);
	for(int f = 0; f < m.gnaface(); f++) {
		const int l = m.gintfac(f,0), r = m.gintfac(f,1);
		const bool b = f < m.gPhyBFaceEnd();
		const double mx = 0.5*(m.gcoords(m.gintfac(f,2),0)+m.gcoords(m.gintfac(f,3),0)), my = 0.5*(m.gcoords(m.gintfac(f,2),1)+m.gcoords(m.gintfac(f,3),1));
		const double rx = b ? G.g(f,0) : G.c(r,0), ry = b ? G.g(f,1) : G.c(r,1);
		const double dl = std::hypot(mx-G.c(l,0), my-G.c(l,1)), dr = std::hypot(mx-rx, my-ry);
		for(int v = 0; v < nv; v++) {
			const double ur = b ? ug[f*nv+v] : u[r*nv+v];
			const double us = (u[l*nv+v]*dr + ur*dl)/(dl+dr)*m.gfacemetric(f,2);
			for(int d = 0; d < 2; d++) {
				g[(l*nv+v)*2+d] += us*m.gfacemetric(f,d)/m.garea(l);
				if(!b) g[(r*nv+v)*2+d] -= us*m.gfacemetric(f,d)/m.garea(r);
			}
		}
	}
	return g;
}

/// inverse-square-distance weighted least squares fit through the cell's own value; cond gets condition numbers
inline V gradLS(const Mesh& m, const Geo& G, int nv, const V& u, const V& ug, V& cond) {
	const int ne = m.gnelem();
	V g(ne*nv*2, 0.0);
	cond.assign(ne, 1);
	for(int i = 0; i < ne; i++) {
		double a = 0, b = 0, c = 0;
		V rhs(nv*2, 0.0);
		for(int j = 0; j < m.gnfael(i); j++) {
			const int f = m.gelemface(i,j);
			const bool bd = f < m.gPhyBFaceEnd();
			const int o = bd ? -1 : (m.gintfac(f,0) == i ? m.gintfac(f,1) : m.gintfac(f,0));
			const double dx = (bd ? G.g(f,0) : G.c(o,0)) - G.c(i,0), dy = (bd ? G.g(f,1) : G.c(o,1)) - G.c(i,1), w = 1/(dx*dx+dy*dy);
			a += w*dx*dx; b += w*dx*dy; c += w*dy*dy;
			for(int v = 0; v < nv; v++) {
				const double du = (bd ? ug[f*nv+v] : u[o*nv+v]) - u[i*nv+v];
				rhs[2*v] += w*dx*du; rhs[2*v+1] += w*dy*du;
			}
		}
		const double det = a*c-b*b, tr = a+c, disc = std::sqrt(std::max(0.0, tr*tr/4-det));
		cond[i] = (tr/2+disc)/std::max(1e-300, det/(tr/2+disc));
		for(int v = 0; v < nv; v++) {
			g[(i*nv+v)*2] = (c*rhs[2*v] - b*rhs[2*v+1])/det;
			g[(i*nv+v)*2+1] = (a*rhs[2*v+1] - b*rhs[2*v])/det;
		}
	}
	return g;
}

template <int nv> V libGrad(const Mesh& m, const Geo& G, const std::string& type, const V& u, const V& ug, double poison) {
	std::unique_ptr<const GradientScheme<double,nv>> s(create_const_gradientscheme<double,nv>(type, &m, G.cc(), G.gh()));
	V raw((size_t)m.gnelem()*nv*2, poison);
	s->compute_gradients(amat::Array2dView<double>(u.data(), m.gnelem()+m.gnConnFace(), nv), amat::Array2dView<double>(ug.data(), m.gnbface(), nv), raw.data());
	// to g[(cell*nv+var)*2+dim] through the library's own block type
	V g(raw.size());
	const GradBlock_t<double,2,nv> *B = reinterpret_cast<const GradBlock_t<double,2,nv>*>(raw.data());
	for(int i = 0; i < m.gnelem(); i++) for(int v = 0; v < nv; v++) for(int d = 0; d < 2; d++) g[(i*nv+v)*2+d] = B[i](d,v);
	return g;
}
template <int nv> V toBlocks(const Mesh& m, const V& g) {
	V raw(g.size());
	GradBlock_t<double,2,nv> *B = reinterpret_cast<GradBlock_t<double,2,nv>*>(raw.data());
	for(int i = 0; i < m.gnelem(); i++) for(int v = 0; v < nv; v++) for(int d = 0; d < 2; d++) B[i](d,v) = g[(i*nv+v)*2+d];
	return raw;
}

struct Recon { V l, r; };
template <int nv> Recon libRecon(const Mesh& m, const Geo& G, const std::string& type, double par, const V& u, const V& ug, const V& g, double poison) {
	static std::ostringstream sink;
	std::streambuf *old = std::cout.rdbuf(sink.rdbuf());
	std::unique_ptr<const SolutionReconstruction<double,nv>> s(create_const_reconstruction<double,nv>(type, &m, G.cc(), G.gh(), G.face(), par));
	std::cout.rdbuf(old); sink.str("");
	MVector<double> um(m.gnelem(), nv);
	for(int i = 0; i < m.gnelem(); i++) for(int v = 0; v < nv; v++) um(i,v) = u[i*nv+v];
	const V raw = toBlocks<nv>(m, g);
	Recon R; R.l.assign(m.gnaface()*nv, poison); R.r.assign(m.gnaface()*nv, poison);
	s->compute_face_values(um, amat::Array2dView<double>(ug.data(), m.gnbface(), nv), raw.data(),
		amat::Array2dMutableView<double>(R.l.data(), m.gnaface(), nv), amat::Array2dMutableView<double>(R.r.data(), m.gnaface(), nv));
	return R;
}

/// The geometry other references are built on (areas, normals, lengths, centres, face points, ghost points), from the points alone
inline void checkGeo(const Mesh& m, const Geo& G, const std::string& what) {
	double size = 0;
	for(int i = 0; i < m.gnpoin(); i++) for(int k = 0; k < 2; k++) size = std::max(size, std::fabs(m.gcoords(i,k)));
	for(int i = 0; i < m.gnelem(); i++) {
		double a = 0, c[2] = {0,0}, diam = 0;
		const int n = m.gnnode(i);
		for(int j = 0; j < n; j++) {
			const int p = m.ginpoel(i,j), q = m.ginpoel(i,(j+1)%n), o = m.ginpoel(i,0);
			a += 0.5*((m.gcoords(p,0)-m.gcoords(o,0))*(m.gcoords(q,1)-m.gcoords(o,1)) - (m.gcoords(p,1)-m.gcoords(o,1))*(m.gcoords(q,0)-m.gcoords(o,0)));
			diam = std::max(diam, std::hypot(m.gcoords(q,0)-m.gcoords(p,0), m.gcoords(q,1)-m.gcoords(p,1)));
			for(int k = 0; k < 2; k++) c[k] += m.gcoords(p,k)/n;
		}
		HX_CHECK(std::fabs(m.garea(i)-a) <= 1e-13*size*diam + 1e-13*a, "geometry-area", "%s: area of cell %d is %.12g, expected %.12g", what.c_str(), i, (double)m.garea(i), a);
		for(int k = 0; k < 2; k++) HX_CHECK(std::fabs(G.c(i,k)-c[k]) <= 1e-13*size, "geometry-centre", "%s: centre of cell %d", what.c_str(), i);
	}
	// outward normals: the divergence theorem around every cell
	V sx(m.gnelem(), 0.0), sy(m.gnelem(), 0.0), sd(m.gnelem(), 0.0), per(m.gnelem(), 0.0);
	for(int f = 0; f < m.gnaface(); f++) for(int s = 0; s < (f < m.gPhyBFaceEnd() ? 1 : 2); s++) {
		const int c = m.gintfac(f,s), p = m.gintfac(f,2), q = m.gintfac(f,3);
		const double w = (s ? -1 : 1)*m.gfacemetric(f,2), nx = w*m.gfacemetric(f,0), ny = w*m.gfacemetric(f,1);
		sx[c] += nx; sy[c] += ny; per[c] += std::fabs(w);
		sd[c] += 0.25*((m.gcoords(p,0)+m.gcoords(q,0)-2*G.c(c,0))*nx + (m.gcoords(p,1)+m.gcoords(q,1)-2*G.c(c,1))*ny);
	}
	for(int i = 0; i < m.gnelem(); i++)
		HX_CHECK(std::fabs(sx[i]) <= 1e-12*(size+per[i]) && std::fabs(sy[i]) <= 1e-12*(size+per[i]) && std::fabs(sd[i]-m.garea(i)) <= 1e-12*(size+per[i])*per[i], "geometry-closure", "%s: faces of cell %d: sum (%.3g,%.3g), area %.12g instead of %.12g", what.c_str(), i, sx[i], sy[i], sd[i], (double)m.garea(i));
	for(int f = 0; f < m.gnaface(); f++) {
		const int p = m.gintfac(f,2), q = m.gintfac(f,3), l = m.gintfac(f,0);
		const double dx = m.gcoords(q,0)-m.gcoords(p,0), dy = m.gcoords(q,1)-m.gcoords(p,1), len = std::hypot(dx,dy);
		HX_CHECK(std::fabs(m.gfacemetric(f,2)-len) <= 1e-13*(size+len) && std::fabs(m.gfacemetric(f,0)*dx+m.gfacemetric(f,1)*dy) <= 1e-13*(size+len) && std::fabs(std::hypot(m.gfacemetric(f,0),m.gfacemetric(f,1))-1) <= 1e-13, "geometry-face", "%s: normal (%.12g,%.12g) and length %.12g of face %d", what.c_str(), (double)m.gfacemetric(f,0), (double)m.gfacemetric(f,1), (double)m.gfacemetric(f,2), f);
		const auto n = m.gnormal(f);
		HX_CHECK(n[0] == m.gfacemetric(f,0) && n[1] == m.gfacemetric(f,1), "geometry-normal", "%s: face %d", what.c_str(), f);
		double mid[2];
		for(int k = 0; k < 2; k++) { mid[k] = 0.5*(m.gcoords(p,k)+m.gcoords(q,k)); HX_CHECK(std::fabs(G.f(f,k)-mid[k]) <= 1e-13*size, "geometry-face-point", "%s: face %d", what.c_str(), f); }
		if(f < m.gPhyBFaceEnd()) {
			const double in = (mid[0]-G.c(l,0))*n[0] + (mid[1]-G.c(l,1))*n[1], out = (G.g(f,0)-mid[0])*n[0] + (G.g(f,1)-mid[1])*n[1];
			// either reflection, about the face or about its middle
			const double tin = -(mid[0]-G.c(l,0))*n[1] + (mid[1]-G.c(l,1))*n[0], tout = -(G.g(f,0)-mid[0])*n[1] + (G.g(f,1)-mid[1])*n[0];
			HX_CHECK(std::fabs(in-out) <= 1e-11*size && std::fabs(std::fabs(tin)-std::fabs(tout)) <= 1e-11*size, "geometry-ghost", "%s: ghost point of face %d", what.c_str(), f);
		}
	}
}

/// Renumberings a mesh is looked at under
inline void forNumberings(const mg::RM& m, bool quick, const std::function<void(const mg::RM&, const std::string&)>& f) {
	using namespace mg;
	f(m, "id");
	std::vector<int> p = iota((int)m.e.size());
	std::reverse(p.begin(), p.end());
	f(flipBFaces(rotateNodes(permCells(m, p), 7), 0x15), "rev");
	if(!quick) { auto s = somePerms((int)m.e.size()); for(size_t k = 2; k < s.size(); k += 3) f(rotateNodes(permCells(m, s[k]), 11*k), hx::fmt("perm%zu", k)); }
}
} // namespace
#endif
