// Options of a whole flow case, filled as a control file would
#ifndef CASEOPTIONS_HPP
#define CASEOPTIONS_HPP
#include "flow.hpp"
#include "utilities/controlparser.hpp"
inline fvens::FlowParserOptions caseOptions(const fl::Phys& p, const std::vector<fl::BC>& bcs) {
	using namespace fvens;
	FlowParserOptions o;
	o.logfile = "case"; o.flowtype = "EULER"; o.invflux = "HLLC"; o.invfluxjac = "HLLC"; o.gradientmethod = "LEASTSQUARES"; o.limiter = "NONE";
	o.pseudotimetype = "IMPLICIT"; o.constvisc = "NO"; o.vol_output_reqd = "NO"; o.sim_type = "STEADY"; o.nl_update_scheme = "FULL";
	o.initcfl = 20; o.endcfl = 2000; o.tolerance = 1e-3; o.firstinitcfl = 10; o.firstendcfl = 100; o.firsttolerance = 1e-1;
	o.Minf = p.M; o.alpha = p.aoa; o.Reinf = p.Re; o.Tinf = p.Tinf; o.Pr = p.Pr; o.gamma = p.g; o.limiter_param = 1;
	o.final_time = 0; o.phy_timestep = 0; o.phy_cfl = 0; o.min_nl_update = 0.1; o.maxiter = 10; o.rampstart = 0; o.rampend = 1; o.firstmaxiter = 10; o.firstrampstart = 0; o.firstrampend = 1;
	o.num_out_walls = 0; o.num_out_others = 0; o.time_order = 1; o.soln_init_type = 0; o.usestarter = 1;
	o.lognres = false; o.write_final_lin_sys = false; o.useconstvisc = false; o.viscsim = false; o.order2 = true;
	for(auto& b : bcs) o.bcconf.push_back(fl::bcconf(b, p.Tinf));
	return o;
}
#endif
