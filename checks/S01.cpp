// S01: the free stream is a steady state of every scheme on every small mesh
#include "common/petsc_init.hpp"
#include "common/flowref.hpp"
using namespace fr;
using namespace mg;

int main(int argc, char **argv) {
	hx::init(argc, argv);
	hx::petsc_init();
	hx::rule("A case is one mesh of the families and one free stream; within it the residual of the uniform state is evaluated for boundary-condition assignments x scheme x flux x viscosity (quick: every mesh meets a rotating seventh of the product, every combination is met by many meshes). Meshes renumbered too. Distinct by mesh, free stream, combination.");
	std::vector<fl::Phys> P = {{1.4,0.5,288.15,100,0.72,0.1},{1.4,2.0,288.15,1000,0.72,0.0},{5.0/3,0.1,200,50,1.0,-0.9},{1.4,1.0,288.15,1e4,0.72,M_PI/2},{1.2,3.0,300,100,0.9,2.4},{1.4,0.4,250,80,0.72,0.0}};
	long combo = 0;
	forMeshes(hx::quick() ? 1 : 2, [&](const RM& m0) {
		const bool aligned = m0.name.find("grid") == 0 && (m0.name.find("/uni") != std::string::npos || m0.name.find("/str") != std::string::npos);
		for(size_t ip = 0; ip < P.size(); ip++) {
			if(!hx::begin(hx::fmt("%s:fs%zu", m0.name.c_str(), ip))) continue;
			hx::sample(hx::fmt("%s Minf %g aoa %g", m0.name.c_str(), P[ip].M, P[ip].aoa));
			combo = (long)(hx::fnv(m0.name) % 1000) + (long)ip;
			std::vector<int> rv = iota((int)m0.e.size()); std::reverse(rv.begin(), rv.end());
			const RM m = ip % 2 ? flipBFaces(rotateNodes(permCells(m0, rv), 5), 0x2d) : m0;
			const Ref r(m);
			const Mesh um = prepare(m);
			const rc::Geo G(&um);
			rc::checkGeo(um, G, m.name);
			V cond; rc::gradLS(um, G, 1, V(um.gnelem(),1.0), V(um.gnbface(),1.0), cond);
			const double mc = *std::max_element(cond.begin(), cond.end());
			const fl::Phys& p = P[ip];
			const V u = fl::field(p, 0, m, r);
			const int stride = hx::quick() ? 61 : 7;
			for(int bcv = 0; bcv < 11; bcv++) {
				std::vector<fl::BC> bcs;
				if(bcv < 3) bcs = bcSet(m, [&](int) { return bcv; });
				else if(bcv < 6) bcs = bcSet(m, [&](int i) { return (i+bcv)%3; });
				else if(bcv >= 8) {
					// the flow enters straight through the left side, whose totals are those of the free stream
					if(!aligned || p.aoa != 0.0 || p.M >= 1) continue;
					bcs = bcSet(m, [&](int i) { return i % 2 == 0 ? 3 : bcv-8; });
					std::map<int,std::pair<double,double>> side;   // x-range of the edges of each marker
					for(int f = 0; f < um.gnbface(); f++) for(int q = 2; q < 4; q++) {
						const double x = um.gcoords(um.gintfac(f,q),0);
						auto it = side.emplace(um.gbtags(f,0), std::make_pair(x,x)).first;
						it->second.first = std::min(it->second.first, x); it->second.second = std::max(it->second.second, x);
					}
					double xmin = 1e300; for(auto& s : side) xmin = std::min(xmin, s.second.first);
					const double tt = 1+0.5*(p.g-1)*p.M*p.M; bool any = false;
					for(auto& b : bcs) if(side[b.tag].second-xmin < 1e-12) { b = {b.tag, SUBSONIC_INFLOW_BC, {std::pow(tt, p.g/(p.g-1))/(p.g*p.M*p.M), tt}}; any = true; }
					if(!any) continue;
					hx::count("inflow_assignments");
				}
				else {
					// slip walls parallel to the flow: horizontal sides for aoa 0, vertical ones for 90 degrees
					if(!aligned) continue;
					if(p.aoa == 0.0) bcs = bcSet(m, [&](int i) { return i % 2 == 0 ? 3 : bcv-6; });
					else if(p.aoa == M_PI/2) bcs = bcSet(m, [&](int i) { return i % 2 == 1 ? 3 : bcv-6; });
					else continue;
				}
				for(auto& sc : fl::schemes()) for(auto& fx : fl::fluxes()) for(int v = 0; v < 3; v++) {
					if((combo++) % stride) continue;
					if(sc.grad == "LEASTSQUARES" && mc > 1e6) { hx::count("ill-conditioned"); continue; }
					Setup S(um, p, v, sc, fx, bcs);
					V dt;
					const V res = fl::residual<4>(um, *S.s, u, &dt);
					for(int i = 0; i < um.gnelem(); i++) {
						double per = 0;
						for(int j = 0; j < um.gnfael(i); j++) per += um.gfacemetric(um.gelemface(i,j),2);
						const double c = fl::snd(p.g,&u[0]), pr = fl::pres(p.g,&u[0]);
						const double fs[4] = {1+c, (1+c)*(1+c)+pr, (1+c)*(1+c)+pr, (u[3]+pr)*(1+c)};
						for(int k = 0; k < 4; k++) HX_CHECK(std::fabs(res[4*i+k]) <= 1e-10*fs[k]*per, "freestream", "%s %s bc#%d cell %d equation %d: residual %.3g of scale %.3g", m.name.c_str(), S.str().c_str(), bcv, i, k, res[4*i+k], fs[k]*per);
						HX_CHECK(dt[i] > 0 && std::isfinite(dt[i]), "dt", "%s %s cell %d dt %g", m.name.c_str(), S.str().c_str(), i, dt[i]);
					}
					hx::eval();
					hx::nontrivial(hx::fnv(S.str())+bcv);
				}
			}
		}
	});
	return hx::finish_petsc();
}
