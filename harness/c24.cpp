// C24: fitted models and interpolants describe exactly their latest data.
// A session keeps models and splines and refits, copies and overwrites them with
// valid, degenerate and refused data, while memory may run out and while the
// function being interpolated makes other fits; after each call the object must
// agree with an independent solution for the data it was given last.
#include "ops.h"
#include <algorithm>
enum { K_SESS, K_CALLS, K_FAULT, K_FIT, K_REFIT, K_REFUSED, K_COPY, K_WEIGHTED, K_BOTH, K_ORIGIN, K_FREE, K_LARGE, K_SPLINE, K_UNEVEN, K_EVAL, K_JOINT, K_OUTSIDE, K_KEPT, K_LAGRANGE, K_GRID, K_CHEB, K_NAN, K_THROW, K_NESTED, K_CURVE, K_WHOLE, K_LEVEL, K_SIBLING };
namespace sim {
const char* PROPERTY = "C24"; const char* VARIANT = "default";
const char* CTR_NAMES[] = { "sessions", "calls", "allocation_failures_injected", "fits", "objects_fitted_again", "refused_data", "copies", "weighted_fits", "fits_with_both_uncertainties", "lines_through_the_origin", "single_coefficients", "large_datasets", "splines", "unevenly_spaced_splines", "evaluations_of_splines", "evaluations_at_a_node", "evaluations_outside", "kept_after_a_failure", "polynomials_through_points", "polynomials_on_a_grid", "polynomials_on_chebyshev_nodes", "not_a_number_samples", "interrupted_by_an_exception", "fits_inside_the_function", "curves", "whole_numbers", "level_data_with_both_uncertainties", "nearly_the_same_data", nullptr };
}
using namespace sim;
typedef long double LD;
struct KeepErrno { int e = errno; ~KeepErrno() { errno = e; } };
struct Stop { };
typedef std::vector<double> DV;
struct S { OpCall& c; bool hungry; };
template<typename F> static bool attempt(S& s, const char* what, F f) {
	bool armed; { Unwatched u; count(K_CALLS); armed = s.hungry && s.c.g.chance(0.25); errno = 0; if(armed) alloc_fault_at(1 + s.c.g.below(6), 1); }
	int got = 0;
	try { f(); } catch(const std::bad_alloc&) { got = 1; } catch(...) { got = 2; }
	Unwatched u; uint64_t fired = armed ? alloc_faults_fired() : 0; if(armed) alloc_fault_at(0, 0);
	if(fired) count(K_FAULT);
	if(got == 2 || (got == 1 && !fired)) VIOL("exception", "%s threw an exception", what);
	return !got;
}
// ---- linear models
struct Fit { LD A, B, caa, cbb, cab, err, chi, tA, tB; bool flat; };
// the weighted least squares line, from centred sums
static Fit ref_line(const DV& x, const DV& y, const DV& w) {
	Fit f; LD sw = 0, mx = 0, my = 0; size_t n = x.size(); for(size_t i = 0; i < n; ++i) { sw += w[i]; mx += (LD) w[i] * x[i]; my += (LD) w[i] * y[i]; } mx /= sw; my /= sw;
	LD sxx = 0, sxy = 0, ax = 0, ay = 0; for(size_t i = 0; i < n; ++i) { sxx += w[i] * (x[i] - mx) * (x[i] - mx); sxy += w[i] * (x[i] - mx) * (y[i] - my); ax += fabsl((LD) w[i] * x[i] * x[i]); ay = std::max(ay, fabsl((LD) y[i])); }
	f.B = sxy / sxx; f.A = my - f.B * mx; f.cbb = 1 / sxx; f.caa = 1 / sw + mx * mx / sxx; f.cab = -mx / sxx;
	LD cond = 1 + ax / sxx, xr = sqrtl(ax / sw); f.tB = 1e-12L * n * cond * (ay / sqrtl(sxx / sw) + fabsl(f.B)); f.tA = 1e-12L * n * cond * (ay + fabsl(f.B) * xr + fabsl(f.A));
	LD r = 0; f.chi = 0; for(size_t i = 0; i < n; ++i) { LD d = y[i] - f.A - f.B * x[i]; r += d * d; f.chi += w[i] * d * d; } f.err = sqrtl(r / (n - 2)); return f;
}
static bool rel(double got, LD want, LD tol) { return fabsl((LD) got - want) <= tol * fabsl(want) + 1e-300L; }
typedef regression::linear_model LM;
static bool same_model(const LM& a, const LM& b) {
	for(unsigned i = 0; i < 2; ++i) for(unsigned j = 0; j < 2; ++j) if(!bit_eq(a.covar_mat(i, j), b.covar_mat(i, j))) return false;
	return bit_eq(a.A, b.A) && bit_eq(a.B, b.B) && bit_eq(a.sigma_A, b.sigma_A) && bit_eq(a.sigma_B, b.sigma_B) && bit_eq(a.err, b.err) && bit_eq(a.chi_squared, b.chi_squared) && a.ndf == b.ndf && bit_eq(a.p_value, b.p_value);
}
static unsigned psize(Rng& g) { if(g.chance(0.02)) { count(K_LARGE); return g.chance(0.8) ? (unsigned) g.range(20, 50) : (unsigned) g.range(263, 300); } return (unsigned) g.range(3, 12); }
static void data(Rng& g, unsigned n, DV& x, DV& y) {
	double o = g.chance(0.2) ? g.real(-50, 50) : 0, sx = g.chance(0.2) ? std::pow(10.0, g.real(-2, 2)) : 1, a = g.real(-3, 3), b = g.real(-3, 3), noise = g.chance(0.3) ? 2 : g.real(0.01, 0.3), sy = g.chance(0.2) ? std::pow(10.0, g.real(-3, 3)) : 1; x.clear(); y.clear();
	for(unsigned i = 0; i < n; ++i) { double t = g.chance(0.1) && i > 1 ? x[g.below(i)] : sx * (g.real(-4, 4) + o); x.push_back(t); } x[0] = sx * (o - 4); x[1] = sx * (o + 4); for(unsigned i = 0; i < n; ++i) y.push_back(sy * (a + b * x[i] / sx + noise * g.real(-1, 1)));
	if(g.chance(0.15)) { count(K_WHOLE); double t = (double) g.range(-4, 1); int kind = (int) g.below(3); for(unsigned i = 0; i < n; ++i) { x[i] = t + i; y[i] = kind == 0 ? std::floor(g.real(-5, 5)) : kind == 1 ? std::floor(a) + std::floor(b) * i : std::floor(a); } }
	if(n > 2 && g.chance(0.3)) for(unsigned i = n; i > 1; --i) { size_t k = g.below(i); std::swap(x[i - 1], x[k]); std::swap(y[i - 1], y[k]); }
}
template<typename V> static void put(V& v, const DV& d) { v.resize(d.size()); for(size_t i = 0; i < d.size(); ++i) v[i] = d[i]; }
template<typename V> static bool unchanged(const V& v, const DV& d) { if(v.size() != d.size()) return false; for(size_t i = 0; i < d.size(); ++i) if(!bit_eq(v[i], d[i])) return false; return true; }
static const char* FORM[] = { "linear_model (X, Y)", "linear_model (X, Y, uncertainty)", "linear_model (X, Y, uncertainties)", "linear_model (X, Y, both uncertainties)" };
// uncorrelated data scattered more along y have no line of finite slope
static bool no_slope(const DV& x, const DV& y, double s1, double s2) { LD mx = 0, my = 0, xx = 0, yy = 0, xy = 0; size_t n = x.size(); for(size_t i = 0; i < n; ++i) { mx += x[i]; my += y[i]; } mx /= n; my /= n; for(size_t i = 0; i < n; ++i) { xx += (x[i] - mx) * (x[i] - mx); yy += (y[i] - my) * (y[i] - my); xy += (x[i] - mx) * (y[i] - my); } return fabsl(xy) < 1e-9L * sqrtl(xx * yy) && s1 * s1 * yy >= 0.999L * s2 * s2 * xx; }
static void judge_fit(const LM& m, int form, const DV& x, const DV& y, const DV& s, double s1, double s2) {
	size_t n = x.size(); DV w(n, 1.0); if(form == 1) w.assign(n, 1 / (s1 * s1)); if(form == 2) for(size_t i = 0; i < n; ++i) w[i] = 1 / (s[i] * s[i]);
	if(form == 3) {      // the line that minimises the distances weighted by both uncertainties
		LD mx = 0, my = 0; for(size_t i = 0; i < n; ++i) { mx += x[i]; my += y[i]; } mx /= n; my /= n; LD xx = 0, yy = 0, xy = 0; for(size_t i = 0; i < n; ++i) { xx += (x[i] - mx) * (x[i] - mx); yy += (y[i] - my) * (y[i] - my); xy += (x[i] - mx) * (y[i] - my); }
		if(!yy) count(K_LEVEL); if(fabsl(xy) < 0.3L * sqrtl(xx * yy) || fabsl(mx) * sqrtl((LD) n) > 30 * sqrtl(xx) || fabsl(my) * sqrtl((LD) n) > 30 * sqrtl(yy)) return;
		LD B = m.B, A = m.A, g = (LD) s2 * s2 + B * B * s1 * s1, v1 = (LD) s1 * s1, v2 = (LD) s2 * s2, D = v1 * yy - v2 * xx, root = sqrtl(D * D + 4 * v1 * v2 * xy * xy), b = D > 0 ? (D + root) / (2 * v1 * xy) : 2 * v2 * xy / (root - D);
		LD X2 = xx + n * mx * mx, Y2 = yy + n * my * my, P = sqrtl(X2 * Y2), E = v1 * Y2 + v2 * X2 + 2 * s1 * s2 * P, tol = 1e-14L * n * (D > 0 ? fabsl(b) * (4 * E / (D + root) + P / fabsl(xy)) : (2 * v2 * P + 4 * fabsl(b) * E) / (root - D));
		if(!(fabsl(B - b) <= tol)) VIOL("not-the-fit", "%s: the slope is %.17g instead of %.17g", FORM[form], m.B, (double) b);
		if(!(fabsl(A - (my - B * mx)) <= 1e-10L * (fabsl(my) + fabsl(B * mx) + 1e-300L))) VIOL("not-the-fit", "%s: the line does not pass through the mean point", FORM[form]);
		if(n > 2) { LD r = 0; for(size_t i = 0; i < n; ++i) { LD d = y[i] - A - B * x[i]; r += d * d; } LD e = sqrtl(r / (n - 2)), fl = 1e-13L * (fabsl(A) + fabsl(B * mx) + sqrtl(yy)); if(!(fabsl(m.err - e) <= 1e-9L * e + fl)) VIOL("not-the-fit", "%s: the error is %.17g instead of %.17g", FORM[form], m.err, (double) e); if(e > 1e4L * fl && !rel(m.chi_squared, r / g, 1e-6L)) VIOL("not-the-fit", "%s: chi-squared is %.17g instead of %.17g", FORM[form], m.chi_squared, (double) (r / g)); }
		if(m.ndf != n - 2) VIOL("not-the-fit", "%s: %u degrees of freedom with %zu points", FORM[form], m.ndf, n);
		return;
	}
	Fit f = ref_line(x, y, w);
	if(!(fabsl(m.A - f.A) <= f.tA) || !(fabsl(m.B - f.B) <= f.tB)) VIOL("not-the-fit", "%s of %zu points: %.17g + %.17g x instead of %.17g + %.17g x", FORM[form], n, m.A, m.B, (double) f.A, (double) f.B);
	if(m.ndf != n - 2) VIOL("not-the-fit", "%s: %u degrees of freedom with %zu points", FORM[form], m.ndf, n);
	LD cond = f.tB > 0 ? 1e-9L * (1 + f.caa * f.cbb / (f.caa * f.cbb - f.cab * f.cab)) : 1e-9L;
	if(n > 2) { LD fl = f.tA * 4 + f.tB * 4 * sqrtl(fabsl(f.caa / f.cbb)); if(!(fabsl(m.err - f.err) <= 1e-9L * f.err + fl * 4)) VIOL("not-the-fit", "%s: the error is %.17g instead of %.17g", FORM[form], m.err, (double) f.err); }
	if(form == 0) { if(m.sigma_A == m.sigma_A || m.sigma_B == m.sigma_B || m.chi_squared == m.chi_squared || m.p_value == m.p_value || m.covar_mat(0, 0) == m.covar_mat(0, 0)) VIOL("stale-result", "%s reports uncertainties, though none were given", FORM[form]); return; }
	if(!rel(m.covar_mat(0, 0), f.caa, cond) || !rel(m.covar_mat(1, 1), f.cbb, cond) || !(fabsl(m.covar_mat(0, 1) - f.cab) <= cond * sqrtl(f.caa * f.cbb)) || !bit_eq(m.covar_mat(0, 1), m.covar_mat(1, 0))) VIOL("not-the-fit", "%s: the covariance matrix is wrong", FORM[form]);
	if(!rel(m.sigma_A, sqrtl(f.caa), cond) || !rel(m.sigma_B, sqrtl(f.cbb), cond)) VIOL("not-the-fit", "%s: the uncertainties are %.17g and %.17g instead of %.17g and %.17g", FORM[form], m.sigma_A, m.sigma_B, (double) sqrtl(f.caa), (double) sqrtl(f.cbb));
	if(n > 2) { LD ym = 0; for(double v : y) ym = std::max(ym, fabsl((LD) v)); LD wm = 0; for(double v : w) wm = std::max(wm, (LD) v); LD fl = wm * n * ym * ym * 1e-20L; if(!(fabsl(m.chi_squared - f.chi) <= 1e-6L * f.chi + fl)) VIOL("not-the-fit", "%s: chi-squared is %.17g instead of %.17g", FORM[form], m.chi_squared, (double) f.chi); }
}
template<typename V> static void fit(LM& m, int form, const V& x, const V& y, const V& s, double s1, double s2) { switch(form) { case 0: m.fit(x, y); break; case 1: m.fit(x, y, s1); break; case 2: m.fit(x, y, s); break; default: m.fit(x, y, s1, s2); } }
template<typename V> static LM built(int form, const V& x, const V& y, const V& s, double s1, double s2) { switch(form) { case 0: return LM(x, y); case 1: return LM(x, y, s1); case 2: return LM(x, y, s); default: return LM(x, y, s1, s2); } }
template<typename V> static void models(OpCall& c) {
	S s = { c, false }; Rng& g = c.g; unsigned steps = (unsigned) c.l.num("n", 8); LM M[3]; bool fitted[3] = { false, false, false }; DV *px, *py, *ps; int pform = 0; double p1 = 0, p2 = 0; { Unwatched u; px = new DV; py = new DV; ps = new DV; }
	{ Unwatched u; count(K_SESS); s.hungry = g.chance(0.4); }
	for(unsigned st = 0; st < steps; ++st) {
		DV *dx, *dy, *ds; double s1, s2; V X, Y, W; int form, op; unsigned k;
		{ Unwatched u; dx = new DV; dy = new DV; ds = new DV; unsigned n = psize(g); data(g, n, *dx, *dy); for(unsigned i = 0; i < n; ++i) ds->push_back(g.real(0.1, 2)); s1 = g.real(0.05, 2); s2 = g.real(0.05, 2); form = (int) g.below(4); op = (int) g.below(10); k = (unsigned) g.below(3);
			if(form == 3 && op < 5 && g.chance(0.1)) s1 = 0;
			if(form >= 2 && g.chance(0.05)) { dx->resize(2); dy->resize(2); ds->resize(2); (*dx)[0] = -1; (*dx)[1] = 1.5; }
			if(px->size() && g.chance(0.3)) {      // nearly the data of the fit before
				count(K_SIBLING); *dx = *px; *dy = *py; *ds = *ps; s1 = p1; s2 = p2; if(g.chance(0.8)) form = pform; if(dx->size() < 3 && form < 2) form = 2; if(s1 == 0 && !(form == 3 && op < 5)) s1 = 0.7; double d = std::pow(10.0, g.real(-9, -2)); size_t i = g.below(dx->size());
				switch(g.below(5)) { case 0: (*dy)[i] += d; break; case 1: (*ds)[i] *= 1 + d; s1 *= 1 + d; break; case 2: for(double& v : *ds) v *= 1 + d; s2 *= 1 + d; break; case 3: (*dx)[i] += d; break; default: std::swap((*dy)[i], (*dy)[0]); }
			}
			if(op < 5) { *px = *dx; *py = *dy; *ps = *ds; pform = form; p1 = s1; p2 = s2; }
			put(X, *dx); put(Y, *dy); put(W, *ds); errno = 0; }
		if(op < 5) {          // fit again
			bool ctor; { Unwatched u; ctor = g.chance(0.2); count(K_FIT); if(fitted[k]) count(K_REFIT); if(form == 2) count(K_WEIGHTED); if(form == 3) count(K_BOTH); }
			bool ok = attempt(s, FORM[form], [&] { if(ctor) M[k] = built(form, X, Y, W, s1, s2); else fit(M[k], form, X, Y, W, s1, s2); });
			int e; { Unwatched u; e = errno; errno = 0; }
			if(ok) { { Unwatched u; fitted[k] = true; if(e && dx->size() > 2 && !(form == 3 && no_slope(*dx, *dy, s1, s2))) VIOL("spurious-error", "%s of %zu points set errno %d (%.17g + %.17g x, chi-squared %.17g, p %.17g)", FORM[form], dx->size(), e, M[k].A, M[k].B, M[k].chi_squared, M[k].p_value); judge_fit(M[k], form, *dx, *dy, *ds, s1, s2); }
				LM q; fit(q, form, X, Y, W, s1, s2); double x = 0.75, v = M[k](x), p = dx->size() > 2 && form ? stats::pvalue_chi_squared(M[k].chi_squared, M[k].ndf) : NAN;
				Unwatched u; if(!same_model(q, M[k])) VIOL("history", "%s: a model fitted again differs from a new one on the same data", FORM[form]); if(!near(v, (LD) M[k].A + (LD) M[k].B * x, 1e-14L * (std::fabs(M[k].A) + std::fabs(M[k].B)))) VIOL("not-the-fit", "a model evaluates to %.17g", v); if(!bit_eq(p, M[k].p_value)) VIOL("stale-result", "%s: the p-value is %.17g instead of %.17g", FORM[form], M[k].p_value, p); }
			else { LM r; M[k] = r; Unwatched u; fitted[k] = false; }
		} else if(op < 7) {   // data that must be refused
			int why; { Unwatched u; count(K_REFUSED); why = (int) g.below(5); }
			if(why == 0) Y.resize(Y.size() - 1); else if(why == 1) { if(form < 2) { X.resize(2); Y.resize(2); } else { X.resize(1); Y.resize(1); W.resize(1); } } else if(why == 2) { for(unsigned i = 0; i < X.size(); ++i) X[i] = 2; if(form == 2) for(unsigned i = 0; i < W.size(); ++i) W[i] = 0.5; } else if(why == 3) { if(form == 2) W[W.size() / 2] = 0; else if(form == 3) s1 = s2 = 0; else { form = 1; s1 = 0; } } else { form = 2; W.resize(W.size() + 1); W[W.size() - 1] = 1; }
			bool ok = attempt(s, FORM[form], [&] { fit(M[k], form, X, Y, W, s1, s2); });
			Unwatched u; int e = errno; errno = 0; fitted[k] = true;
			if(ok) { const LM& m = M[k]; if(m.A == m.A || m.B == m.B || !e) VIOL("refused-accepted", "%s: data to refuse (%d) gave %.17g + %.17g x with errno %d", FORM[form], why, m.A, m.B, e); if(m.sigma_A == m.sigma_A || m.sigma_B == m.sigma_B || m.err == m.err || m.chi_squared == m.chi_squared || m.p_value == m.p_value || m.ndf) VIOL("stale-result", "%s: refused data (%d) left results of an earlier fit in the model", FORM[form], why); for(int i = 0; i < 4; ++i) if(m.covar_mat(i / 2, i % 2) == m.covar_mat(i / 2, i % 2) && m.covar_mat(i / 2, i % 2) != 0) VIOL("stale-result", "%s: refused data (%d) left a covariance matrix in the model", FORM[form], why); }
			dx->clear();
		} else if(op == 7) {  // a copy is independent
			unsigned j = (k + 1) % 3; { Unwatched u; count(K_COPY); } LM before = M[k]; M[j] = M[k]; bool eq = same_model(M[j], before); M[j].fit(X, Y); { Unwatched u; errno = 0; fitted[j] = true; if(!eq || !same_model(M[k], before)) VIOL("history", "a copy of a model is not independent of it"); }
		} else {              // the free functions
			int f; { Unwatched u; f = (int) g.below(8); count(f >= 6 ? K_ORIGIN : K_FREE); if(dx->size() < 3) f = 0; } double a = 0.5, b = 0.5, sa = 0.5, sb = 0.5; mat2 cv;
			bool ok = attempt(s, "a regression function", [&] { switch(f) {
				case 0: regression::ols_linear(X, Y, a, b); break; case 1: regression::ols_linear(X, Y, s1, a, b, sa, sb); break; case 2: regression::ols_linear(X, Y, s1, a, b, cv); break; case 3: regression::wls_linear(X, Y, W, a, b, cv); break;
				case 4: a = regression::ols_linear_intercept(X, Y); b = regression::ols_linear_slope(X, Y); sa = regression::ols_linear_sigma_A(X, Y, s1); sb = regression::ols_linear_sigma_B(X, Y, s1); break;
				case 5: a = regression::wls_linear_intercept(X, Y, W); b = regression::wls_linear_slope(X, Y, W); break;
				case 6: regression::ols_linear_orig(X, Y, s1, b, sb); break; default: regression::wls_linear_orig(X, Y, W, b, sb); } });
			Unwatched u; int e = errno; errno = 0; if(e && ok) VIOL("spurious-error", "a regression function (%d) set errno %d", f, e);
			if(ok) {
				DV w(dx->size(), f == 1 || f == 2 || f == 4 || f == 6 ? 1 / (s1 * s1) : 1.0); if(f == 3 || f == 5 || f == 7) w = *ds;
				if(f < 6) { Fit r = ref_line(*dx, *dy, w); LD cond = 1e-9L * (1 + r.caa * r.cbb / (r.caa * r.cbb - r.cab * r.cab)); if(!(fabsl(a - r.A) <= r.tA) || !(fabsl(b - r.B) <= r.tB)) VIOL("not-the-fit", "regression function %d: %.17g + %.17g x instead of %.17g + %.17g x", f, a, b, (double) r.A, (double) r.B);
					if((f == 1 || f == 4) && (!rel(sa, sqrtl(r.caa), cond) || !rel(sb, sqrtl(r.cbb), cond))) VIOL("not-the-fit", "regression function %d: the uncertainties are %.17g and %.17g instead of %.17g and %.17g", f, sa, sb, (double) sqrtl(r.caa), (double) sqrtl(r.cbb));
					if((f == 2 || f == 3) && (!rel(cv(0, 0), r.caa, cond) || !rel(cv(1, 1), r.cbb, cond) || !(fabsl(cv(0, 1) - r.cab) <= cond * sqrtl(r.caa * r.cbb)) || !bit_eq(cv(0, 1), cv(1, 0)))) VIOL("not-the-fit", "regression function %d: the covariance matrix is wrong", f);
				} else { LD xx = 0, xy = 0, ay = 0; for(size_t i = 0; i < dx->size(); ++i) { xx += (LD) w[i] * (*dx)[i] * (*dx)[i]; xy += (LD) w[i] * (*dx)[i] * (*dy)[i]; ay += fabsl((LD) w[i] * (*dx)[i] * (*dy)[i]); } if(!(fabsl(b - xy / xx) <= 1e-12L * w.size() * ay / xx)) VIOL("not-the-fit", "the slope of the line through the origin is %.17g instead of %.17g", b, (double) (xy / xx)); if(!rel(sb, 1 / sqrtl(xx), 1e-10L)) VIOL("not-the-fit", "the uncertainty of the slope through the origin is %.17g instead of %.17g", sb, (double) (1 / sqrtl(xx))); }
			}
		}
		Unwatched u; if(!dx->empty() && (!unchanged(X, *dx) || !unchanged(Y, *dy) || !unchanged(W, *ds))) VIOL("data-changed", "a fit changed the data");
		delete dx; delete dy; delete ds;
	}
	Unwatched u; delete px; delete py; delete ps; c.result = dig(M[0].A, M[1].A) + dig(M[2].B); errno = 0;
}
// ---- splines: the natural cubic spline in terms of second derivatives
struct Ref {
	DV x, y; std::vector<LD> M; LD scale = 1, dscale = 1; bool set = false;
	void make(const DV& a, const DV& b) {
		x = a; y = b; set = true; size_t n = x.size(); M.assign(n, 0); std::vector<LD> d(n, 1), e(n, 0), r(n, 0);
		for(size_t i = 1; i + 1 < n; ++i) { LD h0 = (LD) x[i] - x[i - 1], h1 = (LD) x[i + 1] - x[i]; d[i] = 2 * (h0 + h1); e[i] = h1; r[i] = 6 * (((LD) y[i + 1] - y[i]) / h1 - ((LD) y[i] - y[i - 1]) / h0); if(i > 1) { LD q = h0 / d[i - 1]; d[i] -= q * e[i - 1]; r[i] -= q * r[i - 1]; } }
		for(size_t i = n - 1; i-- > 1;) M[i] = (r[i] - e[i] * (i + 2 < n ? M[i + 1] : 0)) / d[i];
		LD ym = 0, gap = 1e300L, mm = 0; for(double v : y) ym = std::max(ym, fabsl((LD) v)); for(size_t i = 1; i < n; ++i) gap = std::min(gap, (LD) x[i] - x[i - 1]); for(LD v : M) mm = std::max(mm, fabsl(v)); LD len = (LD) x[n - 1] - x[0]; LD far = std::max(fabsl((LD) x[0]), fabsl((LD) x[n - 1]));
		scale = ym + mm * len * len + ym / gap * len; dscale = ym / gap + mm * len; LD k = 1 + len / gap + far / gap; scale *= k; dscale *= k;
	}
	LD at(LD t, LD* dv) const {
		size_t i = 0, n = x.size(); while(i + 2 < n && t >= x[i + 1]) ++i; LD h = (LD) x[i + 1] - x[i], u = t - x[i], b = ((LD) y[i + 1] - y[i]) / h - h * (2 * M[i] + M[i + 1]) / 6, d = (M[i + 1] - M[i]) / (6 * h);
		*dv = b + u * (M[i] + 3 * d * u); return y[i] + u * (b + u * (M[i] / 2 + d * u));
	}
};
static void nodes(Rng& g, DV& x, DV& y) {
	unsigned n = g.chance(0.03) ? (unsigned) g.range(20, 80) : (unsigned) g.range(2, 9); bool even = g.chance(0.25); double t = g.real(-5, 5), h = g.chance(0.8) ? g.real(0.2, 1) : std::pow(10.0, g.real(-2, 2)), sy = g.chance(0.8) ? 1 : std::pow(10.0, g.real(-3, 3)); x.clear(); y.clear();
	for(unsigned i = 0; i < n; ++i) { x.push_back(t); y.push_back(sy * g.real(-3, 3)); t += even ? h : h * std::pow(10.0, g.real(-0.7, 0.7)); }
	if(g.chance(0.2)) { count(K_WHOLE); t = (double) g.range(-6, 1); bool level = g.chance(0.15); for(unsigned i = 0; i < n; ++i) { x[i] = t; y[i] = level ? y[0] : std::floor(y[i]); t += even ? 1.0 : (double) g.range(1, 3); } } if(!even && n > 2) count(K_UNEVEN);
}
template<typename V> static spline spline_of(bool pts, const V& X, const V& Y, const std::vector<vec2>& P) { if(pts) return spline(P); return spline(X, Y); }
static void judge_spline(S& s, const spline& sp, const Ref& r, const char* when) {
	Rng& g = s.c.g;
	for(int k = 0; k < 8; ++k) {
		double t; { Unwatched u; count(K_EVAL); size_t n = r.x.size(); double lo = r.x[0], hi = r.x[n - 1], len = hi - lo; t = g.real(lo, hi); if(k == 1) t = r.x[g.below(n)]; if(k == 2) t = std::nextafter(r.x[g.below(n)], g.chance(0.5) ? INFINITY : -INFINITY); if(k == 3) t = lo - g.real(0, 0.5) * len; if(k == 4) t = hi + g.real(0, 0.5) * len; if(k == 5) t = lo + len * (g.chance(0.5) ? g.real(0, 0.1) : g.real(0.9, 1)); if(k == 1 || k == 2) count(K_JOINT); if(k == 3 || k == 4) count(K_OUTSIDE); }
		double v = sp(t), d = sp.deriv(t);
		Unwatched u; LD dv, w = r.at(t, &dv); if(!(fabsl(v - w) <= 1e-12L * r.scale)) VIOL("not-the-spline", "%s, a spline of %zu nodes is %.17g instead of %.17g at %.17g", when, r.x.size(), v, (double) w, t);
		if(!(fabsl(d - dv) <= 1e-12L * r.dscale)) VIOL("not-the-spline", "%s, the derivative of a spline of %zu nodes is %.17g instead of %.17g at %.17g", when, r.x.size(), d, (double) dv, t);
	}
}
template<typename V> static void splines(OpCall& c) {
	S s = { c, false }; Rng& g = c.g; unsigned steps = (unsigned) c.l.num("n", 8); Ref* R[3]; spline* P[3];
	{ Unwatched u; count(K_SESS); s.hungry = g.chance(0.4); }
	for(int i = 0; i < 3; ++i) { V X, Y; { Unwatched u; R[i] = new Ref; DV x, y; nodes(g, x, y); put(X, x); put(Y, y); R[i]->make(x, y); } P[i] = new spline(X, Y); }
	for(unsigned st = 0; st < steps; ++st) {
		unsigned k, j; int op; { Unwatched u; k = (unsigned) g.below(3); j = (unsigned) g.below(3); op = (int) g.below(8); errno = 0; }
		if(op < 4) {
			DV *x, *y; V X, Y; std::vector<vec2> pts; bool two; { Unwatched u; count(K_SPLINE); x = new DV; y = new DV; nodes(g, *x, *y); if(g.chance(0.25)) { count(K_SIBLING); *x = R[k]->x; *y = R[k]->y; double d = std::pow(10.0, g.real(-9, -2)); size_t i = g.below(x->size()); if(g.chance(0.7)) (*y)[i] += d * (1 + std::fabs((*y)[i])); else { size_t m = x->size(); double gap = INFINITY; if(i) gap = (*x)[i] - (*x)[i - 1]; if(i + 1 < m) gap = std::min(gap, (*x)[i + 1] - (*x)[i]); (*x)[i] += 0.3 * d * gap; } } put(X, *x); put(Y, *y); for(size_t i = 0; i < x->size(); ++i) pts.push_back({ (*x)[i], (*y)[i] }); two = g.chance(0.5); }
			bool ok = attempt(s, "a spline", [&] { *P[k] = spline_of(two, X, Y, pts); });
			{ Unwatched u; if(errno && ok) VIOL("spurious-error", "a spline of %zu nodes set errno %d", x->size(), errno); errno = 0; if(ok) { R[k]->make(*x, *y); size_t m = P[k]->nodes.size(); if(m != x->size() - 1) VIOL("not-the-spline", "a spline of %zu nodes has %zu pieces", x->size(), m); if(!unchanged(X, *x) || !unchanged(Y, *y)) VIOL("data-changed", "a spline changed its data"); } else count(K_KEPT); delete x; delete y; }
			judge_spline(s, *P[k], *R[k], ok ? "after fitting it again" : "after memory ran out in fitting it again");
		} else if(op == 4) {  // refused
			V X, Y; { Unwatched u; count(K_REFUSED); X.resize(1); X[0] = 1; Y.resize(1); Y[0] = 2; if(g.chance(0.5)) { X.resize(3); X[0] = 1; X[1] = 2; X[2] = 3; Y.resize(2); Y[0] = Y[1] = 0; } }
			double v = 0, d = 0; bool ok = attempt(s, "a spline", [&] { spline q(X, Y); v = q(1.5); d = q.deriv(1.5); }); Unwatched u; if(ok && (v == v || d == d || !errno)) VIOL("refused-accepted", "a spline of mismatched or too few data is %.17g with errno %d", v, errno); errno = 0;
		} else if(op == 5) {  // copies
			{ Unwatched u; count(K_COPY); } bool ctor; { Unwatched u; ctor = g.chance(0.5); } bool ok = attempt(s, "a copy of a spline", [&] { if(ctor) { spline q(*P[k]); *P[j] = q; } else *P[j] = *P[k]; }); { Unwatched u; if(ok && j != k) *R[j] = *R[k]; if(!ok) count(K_KEPT); } judge_spline(s, *P[j], *R[j], ok ? "after copying" : "after memory ran out in copying");
		} else { double v = (*P[k])(NAN); { Unwatched u; if(v == v) VIOL("not-the-spline", "a spline is %.17g at a point which is not a number", v); } judge_spline(s, *P[k], *R[k], "later"); }
		if(j != k) judge_spline(s, *P[j], *R[j], "after a call on another");
	}
	for(int i = 0; i < 3; ++i) { delete P[i]; Unwatched u; delete R[i]; }
	Unwatched u; c.result = dig(steps); errno = 0;
}
// ---- polynomials
struct Fn { std::vector<std::pair<double, double>> seen; double k, p, bad = NAN; long stop = 0; bool nest = false; };
static double answer(Fn* F, double x) {
	KeepErrno ke; bool nest; double y; { Unwatched u; if(F->seen.size() > 100) VIOL("unbounded", "%zu evaluations", F->seen.size()); if(F->stop && (long) F->seen.size() + 1 == F->stop) { count(K_THROW); F->stop = 0; throw Stop(); } y = std::sin(F->k * x + F->p) + 0.2 * x; if(F->bad == (double) F->seen.size()) { y = NAN; count(K_NAN); } F->seen.push_back({ x, y }); nest = F->nest; if(nest) count(K_NESTED); }
	if(nest) { vec<real> X, Y; X.resize(3); Y.resize(3); for(int i = 0; i < 3; ++i) { X[i] = i + x; Y[i] = 2 * i - x; } LM m(X, Y); spline sp(X, Y); polynomial<real> q = interpolate_grid([](real t) { return t * t; }, 0, 1, 2); double v = sp(x + 0.5), w = q(0.5); Unwatched u; if(std::fabs(m.B - 2) > 1e-9 || std::fabs(v - (1 - x)) > 1e-9 || std::fabs(w - 0.25) > 1e-9) VIOL("nested", "a fit inside the function of another is wrong (slope %.17g, spline %.17g, polynomial %.17g)", m.B, v, w); }
	return y;
}
static void judge_poly(S& s, const polynomial<real>& L, const std::vector<std::pair<double, double>>& p, const char* how) {
	size_t n = p.size(); bool nan = false; for(auto& e : p) if(e.second != e.second) nan = true;
	unsigned deg; std::vector<LD> co; for(size_t i = 0; i < L.size(); ++i) co.push_back(L[i]); deg = (unsigned) co.size();
	bool dead = false; for(LD v : co) if(v != v) dead = true;
	if(nan) { if(!dead) VIOL("fault-hidden", "%s hides that the function is not a number at a node", how); return; }
	if(deg > n) for(size_t i = n; i < deg; ++i) if(co[i] != 0) VIOL("not-the-polynomial", "%s through %zu points has degree %zu", how, n, i);
	for(size_t q = 0; q < n + 3; ++q) {
		LD x = q < n ? (LD) p[q].first : (LD) p[0].first + ((LD) p[n - 1].first - p[0].first) * s.c.g.real(0, 1), want = 0, bound = 0, got = 0;
		for(size_t j = 0; j < n; ++j) { LD l = p[j].second, b = fabsl((LD) p[j].second); for(size_t m = 0; m < n; ++m) if(m != j) { l *= (x - p[m].first) / ((LD) p[j].first - p[m].first); b *= (fabsl(x) + fabsl((LD) p[m].first)) / fabsl((LD) p[j].first - p[m].first); } want += l; bound += b; }
		for(size_t i = co.size(); i-- > 0;) got = got * x + co[i];
		if(!(fabsl(got - want) <= 1e-13L * (n + 1) * bound + 1e-300L)) VIOL("not-the-polynomial", "%s through %zu points is %.17g instead of %.17g at %.17g", how, n, (double) got, (double) want, (double) x);
	}
}
static void polys(OpCall& c) {
	S s = { c, false }; Rng& g = c.g; unsigned steps = (unsigned) c.l.num("n", 8); { Unwatched u; count(K_SESS); s.hungry = g.chance(0.4); } polynomial<real> L;
	for(unsigned st = 0; st < steps; ++st) {
		int op; { Unwatched u; op = (int) g.below(7); errno = 0; }
		if(op < 2) {
			std::vector<std::pair<double, double>>* p; std::vector<vec2> pts; bool dup; { Unwatched u; count(K_LAGRANGE); p = new std::vector<std::pair<double, double>>; unsigned n = (unsigned) g.range(1, 8); double t = g.real(-3, 0); for(unsigned i = 0; i < n; ++i) { p->push_back({ t, g.chance(0.1) ? 0.0 : g.real(-3, 3) }); t += g.real(0.2, 1.5); } for(size_t i = n; i > 1; --i) std::swap((*p)[i - 1], (*p)[g.below(i)]); dup = n > 1 && g.chance(0.15); if(dup) { size_t a = g.below(n), b = (a + 1 + g.below(n - 1)) % n; (*p)[a].first = (*p)[b].first; count(K_REFUSED); } for(auto& e : *p) pts.push_back({ e.first, e.second }); }
			bool ok = attempt(s, "lagrange_polynomial", [&] { L = lagrange_polynomial(pts); }); Unwatched u; int e = errno; errno = 0;
			if(ok) { if(dup) { bool dead = false; for(size_t i = 0; i < L.size(); ++i) if(L[i] != L[i]) dead = true; if(!dead || !e) VIOL("refused-accepted", "lagrange_polynomial accepted two points with the same abscissa, errno %d", e); } else { if(e) VIOL("spurious-error", "lagrange_polynomial set errno %d", e); judge_poly(s, L, *p, "lagrange_polynomial"); } for(size_t i = 0; i < p->size(); ++i) if(pts[i][0] != (*p)[i].first || pts[i][1] != (*p)[i].second) VIOL("data-changed", "lagrange_polynomial changed the points"); }
			delete p;
		} else if(op < 5) {
			Fn* F; double a, b; unsigned n; bool cheb = op == 4, thrown = false, stop; { Unwatched u; F = new Fn; F->k = g.real(0.3, 2); F->p = g.real(-2, 2); n = (unsigned) g.below(9); a = g.real(-3, 3); b = a + g.real(0.5, 4); if(g.chance(0.1)) std::swap(a, b); if(g.chance(0.12)) F->bad = (double) g.below(n + 1); stop = g.chance(0.12); if(stop) F->stop = 1 + (long) g.below(n + 1); F->nest = !stop && g.chance(0.15); count(cheb ? K_CHEB : K_GRID); }
			real_function f = [F](real x) { return answer(F, x); }; bool hungry = s.hungry; if(F->nest) s.hungry = false;
			bool ok = attempt(s, cheb ? "interpolate_chebyshev" : "interpolate_grid", [&] { try { L = cheb ? interpolate_chebyshev(f, a, b, n) : interpolate_grid(f, a, b, n); } catch(const Stop&) { thrown = true; } }); s.hungry = hungry;
			if(thrown) { { Unwatched u; F->seen.clear(); F->bad = NAN; errno = 0; } ok = attempt(s, "an interpolation after an exception", [&] { L = cheb ? interpolate_chebyshev(f, a, b, n) : interpolate_grid(f, a, b, n); }); }
			Unwatched u; const char* how = cheb ? "interpolate_chebyshev" : "interpolate_grid"; int e = errno; errno = 0;
			if(stop && !thrown && ok) VIOL("exception-lost", "%s swallowed an exception of the function", how);
			if(ok) {
				if(e) VIOL("spurious-error", "%s set errno %d", how, e); std::vector<LD> want; for(unsigned i = 0; i <= n; ++i) want.push_back(cheb ? ((LD) a + b) / 2 + ((LD) b - a) / 2 * cosl((2 * i + 1) / (2.0L * (n + 1)) * acosl(-1.0L)) : n ? (LD) a + ((LD) b - a) * i / n : (LD) NAN);
				// each node exactly once and nothing else
				if(F->seen.size() != n + 1) VIOL("not-a-node", "%s of order %u evaluated the function %zu times", how, n, F->seen.size());
				if(n || cheb) { std::vector<bool> hit(n + 1, false); for(auto& p : F->seen) { unsigned best = 0; for(unsigned i = 1; i <= n; ++i) if(fabsl(p.first - want[i]) < fabsl(p.first - want[best])) best = i; if(!(fabsl(p.first - want[best]) <= 1e-9L) || hit[best]) VIOL("not-a-node", "%s of order %u evaluated the function at %.17g", how, n, p.first); hit[best] = true; } }
				else if(!(F->seen[0].first >= std::min(a, b) && F->seen[0].first <= std::max(a, b))) VIOL("not-a-node", "%s of order 0 evaluated the function at %.17g", how, F->seen[0].first);
				judge_poly(s, L, F->seen, how);
			}
			delete F;
		} else if(op == 5) {
			std::vector<real> xs; double a, b; unsigned n; { Unwatched u; a = g.real(-3, 3); b = a + g.real(0.1, 4); n = (unsigned) g.below(20); } bool ok = attempt(s, "chebyshev_nodes", [&] { xs = chebyshev_nodes(a, b, n); }); Unwatched u; if(ok) { if(xs.size() != n) VIOL("not-a-node", "chebyshev_nodes gave %zu nodes instead of %u", xs.size(), n); for(unsigned i = 0; i < n; ++i) if(!(fabsl(xs[i] - (((LD) a + b) / 2 + ((LD) b - a) / 2 * cosl((2 * i + 1) / (2.0L * n) * acosl(-1.0L)))) <= 1e-11L)) VIOL("not-a-node", "chebyshev_nodes: node %u of %u is %.17g", i, n, xs[i]); } errno = 0;
		} else {             // Bezier curves of the same points by every route
			double t; vec3 Q[4]; std::vector<vec3> pts; int n; { Unwatched u; count(K_CURVE); t = g.chance(0.2) ? (double) g.below(2) : g.real(0, 1); n = (int) g.range(3, 4); for(auto& q : Q) for(int i = 0; i < 3; ++i) q[i] = g.real(-3, 3); for(int i = 0; i < n; ++i) pts.push_back(Q[i]); }
			vec3 v, w; bool ok = attempt(s, "bezier", [&] { v = bezier(pts, t); w = n == 3 ? quadratic_bezier(Q[0], Q[1], Q[2], t) : cubic_bezier(Q[0], Q[1], Q[2], Q[3], t); }); Unwatched u; errno = 0;
			if(ok) for(int i = 0; i < 3; ++i) { LD T = t, r = 1 - T, want = n == 3 ? r * r * Q[0][i] + 2 * r * T * Q[1][i] + T * T * Q[2][i] : r * r * r * Q[0][i] + 3 * r * r * T * Q[1][i] + 3 * r * T * T * Q[2][i] + T * T * T * Q[3][i]; if(!near(v[i], want, 1e-13L) || !near(w[i], want, 1e-13L)) VIOL("not-the-curve", "a Bezier curve of %d points is %.17g and %.17g instead of %.17g at %.17g", n, v[i], w[i], (double) want, t); if(pts[n - 1][i] != Q[n - 1][i] || pts[0][i] != Q[0][i]) VIOL("data-changed", "bezier changed its points"); }
		}
	}
	Unwatched u; c.result = dig(L.size(), steps); errno = 0;
}
static void gen_n(Rng& g, Line& l, bool th) { l.set("n", (int64_t) g.range(2, th ? 40 : 16)); }
const OpDef OPS[] = { { "models_vec", models<vec<real>>, gen_n, 3 }, { "models_std", models<std::vector<real>>, gen_n, 2 }, { "splines_vec", splines<vec<real>>, gen_n, 3 }, { "splines_std", splines<std::vector<real>>, gen_n, 2 }, { "polynomials", polys, gen_n, 4 } };
const unsigned NOPS = sizeof OPS / sizeof OPS[0];
const OpsConfig OPSCFG = { 3, 4, 0.3, 60000000 };
OPS_HARNESS
