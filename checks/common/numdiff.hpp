// Derivatives of real code by difference quotients, with detection of kinks
#ifndef NUMDIFF_HPP
#define NUMDIFF_HPP
#include <cmath>
namespace nd {
/** Derivative at t=0 of fun(t, out[M]). xs: scale of t, fs: scales of the outputs.
 * Returns 0 if the function is not differentiable there as far as the quotients can tell, else 1 and in tol the
 * relative accuracy (in units of fs/xs) to which the result can be trusted (with a margin).
 */
template <int M, typename Fun> int derivative(Fun fun, double xs, const double *fs, double *d, double& tol) {
	double f0[M];
	fun(0.0, f0);
	// two step sizes and their quarter, coarse first
	const double hs[2] = {4e-5, 1e-6};
	for(int t = 0; t < 2; t++) {
		double c[2][M], jump[2][M];
		for(int q = 0; q < 2; q++) {
			const double h = hs[t]*xs*(q ? 0.25 : 1);
			double a[M], b[M], a2[M], b2[M];
			fun(h, a); fun(-h, b); fun(2*h, a2); fun(-2*h, b2);
			for(int i = 0; i < M; i++) {
				c[q][i] = (8*(a[i]-b[i]) - (a2[i]-b2[i]))/(12*h)*xs/fs[i];
				jump[q][i] = (a[i]-2*f0[i]+b[i])/h*xs/fs[i];
			}
		}
		const double noise = 4e-15/hs[t], acc = t == 0 ? 1e-8 : 1e-7;
		bool ok = true;
		for(int i = 0; i < M; i++) {
			if(!(std::fabs(c[0][i]-c[1][i]) <= acc + 4*noise)) ok = false;
			// one-sided slopes: their difference shrinks with the step unless there is a kink
			if(std::fabs(jump[1][i]) > 0.5*std::fabs(jump[0][i]) + 8*noise + 1e-7) ok = false;
		}
		if(!ok) continue;
		tol = t == 0 ? 1e-6 : 1e-5;
		for(int i = 0; i < M; i++) d[i] = c[1][i]*fs[i]/xs;
		return 1;
	}
	return 0;
}
}
#endif
