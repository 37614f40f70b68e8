// calls outside the documented domain (and valid calls right at its border)
#include "ctx.h"
#define GROUP "errors"
using namespace theoretica::algebra;
// the documented results of a failed call: not-a-number somewhere in it
static bool bad(double x) { return x != x; }
static bool bad(const spline_node& n) { return bad(n.a); }
template<typename T> static bool bad(const complex<T>& z) { return bad((double) z.a) || bad((double) z.b); }
static bool bad(const dual& x) { return bad(x.Re()); }
static bool bad(const dual2& x) { return bad(x.Re()); }
template<unsigned N> static bool bad(const multidual<N>& x) { return bad(x.Re()); }
template<typename T> static bool bad(const quat<T>& q) { return bad((double) q.a) || bad((double) q.b) || bad((double) q.c) || bad((double) q.d); }
template<typename T> static bool bad(const phasor<T>& q) { return bad((double) q.phase) || bad((double) q.modulus); }
template<typename T, unsigned N> static bool bad(const vec<T, N>& v) { for(size_t i = 0; i < v.size(); ++i) if(bad(v[i])) return true; return v.size() == 0; }
template<typename T> static bool bad(const std::vector<T>& v) { for(size_t i = 0; i < v.size(); ++i) if(bad(v[i])) return true; return v.size() == 0; }
template<typename T, unsigned N, unsigned K> static bool bad(const mat<T, N, K>& m) { for(unsigned i = 0; i < m.rows(); ++i) for(unsigned j = 0; j < m.cols(); ++j) if(bad(m(i, j))) return true; return m.rows() == 0 || m.cols() == 0; }
template<typename T> static bool bad(const polynomial<T>& p) { return p.coeff.size() && bad(p.coeff); }
#define X1(MASK, E) FAILS(MASK) { auto res_ = E; d(res_); return bad(res_); });
#define XR(MASK, E, RESULT) FAILS(MASK) { auto res_ = E; d(res_); return res_ == RESULT; });
#define X0(MASK, ...) FAILS(MASK) { __VA_ARGS__; return true; });
// valid calls: no error, and a number
#define OK(E) FAILS(0) { auto res_ = E; d(res_); return !bad(res_); });
enum { DIV = DIV_BY_ZERO, DOM = OUT_OF_DOMAIN, RNG = OUT_OF_RANGE, IMP = IMPOSSIBLE_OPERATION, CONV = NO_ALGO_CONVERGENCE, ARG = INVALID_ARGUMENT };

OP(err_roots_logs) {
	double x = -c.r(1e-3, 50); int n = (int) c.n(1, 4) * 2;
	X1(DOM, th::sqrt(x)) X1(DOM, th::ln(x)) X1(DOM, th::log2(x)) X1(DOM, th::log10(x)) X1(DOM, th::root(x, n)) X1(DOM, th::root(-x, 0))
	XR(RNG, th::ln(0.0), -INFINITY) XR(RNG, th::log2(0.0), -INFINITY) XR(RNG, th::log10(0.0), -INFINITY) X0(RNG, (void) ilog2<uint64_t>(0))
	OK(th::sqrt(0.0)) OK(th::ln(1e-300)) OK(th::log2(1e-300)) OK(th::log10(1e-300)) OK(th::root(-x, n)) OK(th::root(x, 3)) OK((double) ilog2<uint64_t>(1)) OK(th::sqrt(-x)) OK(th::ln(-x))
}
OP(err_trigonometric) {
	double x = 1 + c.r(1e-6, 5), s = c.p(0.5) ? 1 : -1, y = c.r(0, 0.999);
	X1(DOM, th::asin(s * x)) X1(DOM, th::acos(s * x)) X1(DOM, th::atanh(s * x)) X1(DOM, th::acosh(y)) X1(DOM, th::acosh(-x)) X1(DIV, th::cot(0.0)) X1(DIV, th::tan(PI / 2)) X1(DOM, th::atan2(0.0, 0.0))
	OK(th::asin(1.0)) OK(th::asin(-1.0)) OK(th::acos(1.0)) OK(th::acos(-1.0)) OK(th::acosh(1.0)) OK(th::atanh(s * y)) OK(th::asin(s * y)) OK(th::acosh(x)) OK(th::atan2(0.0, s)) OK(th::atan2(s, 0.0)) OK(th::tan(y)) OK(th::cot(y + 0.1)) OK(th::atan2(s * x, -s))
}
OP(err_special) {
	unsigned n = c.n(0, 9), m = n + 1 + c.n(0, 5); double x = -c.r(0.05, 0.95) - 2 * (double) c.n(0, 3);
	XR(IMP, (double) binomial_coeff<uint64_t>(n, m), 0.0) X1(DOM, special::gamma((unsigned) 0)) X1(DOM, special::half_gamma(0)) X1(DOM, special::lngamma(x)) XR(DOM, special::gamma(0.0), INFINITY) XR(DOM, special::gamma(-1.0 - n), INFINITY)
	OK((double) binomial_coeff<uint64_t>(n, n)) OK(special::gamma((unsigned) 1)) OK(special::half_gamma(1)) OK(special::lngamma(-x)) OK(special::gamma(1.0)) OK(special::gamma(-x))
}
template<typename V> static void err_sums(Ctx& c, const V& X, const V& Y, const V& Z) {
	V e; c.in(X, Y, Z, e);
	X1(ARG, product(e)) X1(ARG, product_sum(X, Y)) X1(ARG, product_sum_squares(X, Y)) X1(ARG, product_sum(X, X, Y)) X1(ARG, product_sum(X, Y, X)) X1(ARG, quotient_sum(X, Y)) X1(DIV, quotient_sum(X, Z)) X1(ARG, sum_squares(e)) X1(ARG, th::max(e)) X1(ARG, th::min(e))
	X1(DIV, arithmetic_mean(e)) X1(DIV, harmonic_mean(e)) X1(DIV, harmonic_mean(Z)) X1(ARG, quadratic_mean(e)) X1(ARG, weighted_mean(X, Y))
	FAILS(ARG) { V u = Y; map([](double x) { cb_tick(); return x; }, X, u); d(u); return bad(u); });
	OK(product(X)) OK(product_sum(X, X)) OK(quotient_sum(Z, X)) OK(sum_squares(X)) OK(arithmetic_mean(X)) OK(harmonic_mean(X)) OK(quadratic_mean(X)) OK(th::max(X)) OK(th::min(Z)) OK(weighted_mean(Z, X))
}
template<typename V> static V with_zero(Ctx& c, V v) { v[c.n(0, v.size() - 1)] = 0; return v; }
OP(err_sums_dynamic) { unsigned n = c.n(1, 9); vec<real> X = c.dv(n, 0.5, 3), Y = c.dv(n + c.n(1, 3), 0.5, 3), Z = with_zero(c, c.dv(n, 0.5, 3)); err_sums(c, X, Y, Z); }
OP(err_sums_standard) { unsigned n = c.n(1, 9); std::vector<double> X = c.sv(n, 0.5, 3), Y = c.sv(n + c.n(1, 3), 0.5, 3), Z = with_zero(c, c.sv(n, 0.5, 3)); err_sums(c, X, Y, Z); }
OP(err_bits) { unsigned m = c.n(1, 4); vec<real> v = c.dv(1u << m); c.in(v); FAILS(ARG) { vec<real> u = v; swap_bit_reverse(u, m + 1); d(u); return u == v; }); FAILS(0) { vec<real> u = v; swap_bit_reverse(u, m); d(u); return !bad(u); }); }
OP(err_complex) {
	complex<real> o(0, 0), z(c.r(0.5, 2), c.r(-2, 2)); phasor<real> po(0.0, 1.0), p(c.r(0.5, 2), 0.3); quat<real> qo(0, 0, 0, 0), q(c.r(0.5, 2), c.x(), c.x(), c.x()); vec<real> v = c.dv(c.p(0.5) ? 2 : 4); vec3 v3 = c.fv<3>(); c.in(z, q, v, v3);
	X1(DIV, o.inverse()) FAILS(DIV) { complex<real> u = o; u.invert(); d(u); return bad(u); }); X1(DIV, z / 0.0) X1(DIV, z / o)
	X1(DIV, p / po) FAILS(DIV) { phasor<real> u = p; u /= po; d(u); return bad(u); }); FAILS(DIV) { phasor<real> u = po; u.invert(); d(u); return bad(u); });
	X1(DIV, qo.inverse()) X1(DIV, q / 0.0) FAILS(DIV) { quat<real> u = q; u /= 0.0; d(u); return bad(u); }); X1(ARG, q.transform(v))
	OK(z.inverse()) OK(o / z) OK(z / 2.0) OK(po / p) OK(q.inverse()) OK(q / 2.0) OK(q.transform(v3))
}
template<typename T> static void err_duals(Ctx& c, const T& o, const T& x, const T& far, const T& neg) {
	c.in(o, x, far, neg);
	X1(DIV, o.inverse()) X1(DIV, th::sqrt(o)) X1(DIV, th::cot(o)) X1(DOM, th::ln(neg)) X1(DOM, th::log2(neg)) X1(DOM, th::log10(neg)) X1(DOM, th::ln(o)) X1(DOM, th::log2(o)) X1(DOM, th::log10(o)) X1(DOM, th::asin(far)) X1(DOM, th::acos(far)) X1(DOM, th::sqrt(neg))
	OK(x.inverse()) OK(th::sqrt(x)) OK(th::cot(x)) OK(th::ln(x)) OK(th::log2(x)) OK(th::log10(x)) OK(th::asin(x)) OK(th::acos(x)) OK(o / x) OK(th::tan(x)) OK(x / 2.0)
}
OP(err_dual) { dual x(c.r(0.1, 0.9), c.r(-2, 2)); dual o = dual(0, 1), far = dual(1 + c.r(0, 3), 1), neg = dual(-c.r(0.1, 3), 1); err_duals(c, o, x, far, neg); FAILS(DIV) { dual u = x; u /= 0.0; d(u); return bad(u); }); }
OP(err_dual2) { dual2 x(c.r(0.1, 0.9), c.r(-2, 2), 1); dual2 o = dual2(0, 1, 2), far = dual2(1 + c.r(0, 3), 1, 2), neg = dual2(-c.r(0.1, 3), 1, 2); err_duals(c, o, x, far, neg); X1(DIV, x / 0.0) X1(DIV, x / dual2(0, 1, 2)) FAILS(DIV) { dual2 u = x; u /= 0.0; d(u); return bad(u); }); }
OP(err_multidual_fixed) { multidual<3> x(c.r(0.1, 0.9), c.fv<3>()), o(0, c.fv<3>()); multidual<3> far = multidual<3>(1 + c.r(0, 3), c.fv<3>()), neg = multidual<3>(-c.r(0.1, 3), c.fv<3>()); err_duals(c, o, x, far, neg); X1(DIV, x / o) }
OP(err_multidual_dynamic) { unsigned n = c.n(1, 4); multidual<0> x(c.r(0.1, 0.9), c.dv(n)), o(0, c.dv(n)); multidual<0> far = multidual<0>(1 + c.r(0, 3), c.dv(n)), neg = multidual<0>(-c.r(0.1, 3), c.dv(n)); err_duals(c, o, x, far, neg); X1(DIV, x / o) }
static vec<multidual<0>> crl(vec<multidual<0>> v) { cb_tick(); return v; }
OP(err_fields) { vec<real> x = c.dv(c.p(0.5) ? 2 : 4), y = c.dv(3); c.in(x, y); X1(ARG, autodiff::curl(crl, x)) OK(autodiff::curl(crl, y)) }
OP(err_polynomial) {
	polynomial<real> p = c.poly(c.n(1, 5)), z({ 0.0 }), q = c.poly(c.n(3, 4)), e; e.coeff.clear(); q.coeff.back() = 1.5; p.coeff.back() = 1; polynomial<real> r({ c.r(-2, 2), 1.0 }), k({ c.r(1, 2) }); c.in(p, z, q, e, r); double c2 = c.r(-2, 2), c1 = c.r(-2, 2); unsigned l = c.n(3, 5); int m = 1 + 2 * (int) c.n(0, 1);
	X1(DIV, p / z) X0(DIV, auto u = p / 0.0; d(u)) FAILS(DIV) { polynomial<real> u = p; u /= 0.0; d(u); return true; }); X1(IMP, q.quadratic_roots()) X1(ARG, deriv(e)) X1(IMP, assoc_legendre_polynomial_even(l, m))
	OK((polynomial<real>({ c2, c1, 1.5 }).quadratic_roots())) OK(p / r) OK(r / p) OK((p * r) / r) OK(k / p) OK(p / k) OK(p / 2.0) OK(deriv(p)) OK(assoc_legendre_polynomial_even(4, 2))
}
OP(err_interpolation) {
	double x = c.x(); vec3 P = c.fv<3>(0.5, 2), O(0.0); std::vector<vec2> one = { vec2({ 1, 2 }) }, none, same = { vec2({ 1, 2 }), vec2({ 3, 2 }), vec2({ 1, 4 }) }, ok = { vec2({ 1, 2 }), vec2({ 2.5, 1 }) }; std::vector<real> X = c.sv(c.n(3, 5)), Y = c.sv(2), S = c.sv(1), A = { 1, 2, 4 }, B = c.sv(3); c.in(P, O, one, none, same, ok, X, Y, S, A, B);
	X1(DIV, smoothstep(x, x, 0.5)) X1(DIV, smootherstep(x, x, 0.5)) X1(IMP, slerp(P, O, 0.5)) X1(IMP, slerp(O, P, 0.5)) X1(ARG, cubic_splines(one)) X1(ARG, cubic_splines(none)) X1(ARG, cubic_splines(X, Y)) X1(ARG, cubic_splines(S, S)) X1(ARG, lagrange_polynomial(none)) X1(ARG, lagrange_polynomial(same))
	OK(smoothstep(x, x + 1, 0.5)) OK(cubic_splines(ok)) OK(cubic_splines(A, B)) OK(lagrange_polynomial(ok)) OK(lagrange_polynomial(one)) OK(slerp(P, vec3({ -1, 1, 0 }), 0.5))
}
static double idf(double x) { cb_tick(); return x; }
static double sqp(double x) { cb_tick(); return x * x + 1; }
static double par(double x) { cb_tick(); return x * x; }
static double negp(double x) { cb_tick(); return -x * x; }
static double two(double) { cb_tick(); return 2; }
static double mtwo(double) { cb_tick(); return -2; }
static double two_x(double x) { cb_tick(); return 2 * x; }
static double mtwo_x(double x) { cb_tick(); return -2 * x; }
OP(err_integrals) {
	double a = c.r(-2, 0), b = c.r(1, 2); std::vector<real> r = c.sv(3), w = c.sv(c.p(0.5) ? 2 : 4); unsigned n = c.n(0, 1) ? 3 : 7; c.in(r, w);
	X1(DIV, integral_midpoint(idf, a, b, 0)) X1(DIV, integral_trapezoid(idf, a, b, 0)) X1(DIV, integral_simpson(idf, a, b, 0)) X1(ARG, integral_gauss(idf, r, w)) X1(ARG, integral_laguerre(idf, n)) X1(ARG, integral_hermite(idf, n)) X1(CONV, integral_inf_riemann(sqp, 0, 1, 1e-8, 3))
	OK(integral_midpoint(idf, a, b, 1)) OK(integral_trapezoid(idf, a, b, 1)) OK(integral_simpson(idf, a, b, 1)) OK(integral_gauss(idf, r, r)) OK(integral_hermite(idf, 2)) OK(integral_laguerre(idf, 2))
}
static vec3 rhs(real t, vec3 x) { cb_tick(); return x * t; }
OP(err_ode) {
	vec3 x = c.fv<3>(); double t = c.r(-1, 1), h = c.p(0.3) ? 0.0 : c.p(0.3) ? NAN : -c.r(0.1, 1); c.in(x); unsigned k = c.n(0, 5);
	#define SOLVE(...) (k == 0 ? ode::solve_euler(__VA_ARGS__) : k == 1 ? ode::solve_midpoint(__VA_ARGS__) : k == 2 ? ode::solve_heun(__VA_ARGS__) : k == 3 ? ode::solve_rk2(__VA_ARGS__) : k == 4 ? ode::solve_rk4(__VA_ARGS__) : ode::solve_k38(__VA_ARGS__))
	FAILS(ARG) { auto s = SOLVE(rhs, x, t, t - 0.5, 0.1); d(s.t); d(s.x); return bad(s.t); });
	FAILS(ARG) { auto s = SOLVE(rhs, x, t, t + 1, h); d(s.t); d(s.x); return bad(s.t); });
	FAILS(0) { auto s = SOLVE(rhs, x, t, t + 0.5, 0.1); d(s.t); d(s.x); return !bad(s.t) && !bad(s.x); });
	FAILS(ARG) { ode::ode_solution_t<vec3> s; s.t = vec<real>(2, 1.0); s.x = vec<vec3>(1, x); std::string u = s.to_string(); d(u); return u == ""; });
}
OP(err_root_finding) {
	double a = c.r(-3, -1), b = c.r(1, 3);
	X1(ARG, root_bisect(idf, b, a)) X1(ARG, root_bisect(sqp, a, b)) X1(ARG, root_itp(idf, b, a)) X1(ARG, root_itp(sqp, a, b)) X1(CONV, root_newton(sqp, two_x, a, 1e-8, 12)) X1(CONV, root_steffensen(sqp, a, 1e-8, 9)) X1(CONV, root_halley(sqp, two_x, two, a, 1e-8, 9)) X1(CONV, root_chebyshev(sqp, two_x, two, a, 1e-8, 9)) X1(CONV, root_ostrowski(sqp, two_x, a, 1e-8, 9)) X1(CONV, root_jarrat(sqp, two_x, a, 1e-8, 9)) X1(DIV, roots(idf, a, b, 1e-6, 0))
	OK(root_bisect(idf, a, b)) OK(root_itp(idf, a, b)) OK(root_newton(par, two_x, b))
}
OP(err_extrema) {
	double a = c.r(-3, -1), b = c.r(1, 3);
	X1(ARG, maximize_goldensection(negp, b, a)) X1(ARG, minimize_goldensection(par, b, a)) X1(CONV, maximize_newton(par, two_x, two, b)) X1(CONV, minimize_newton(negp, mtwo_x, mtwo, b)) X1(CONV, maximize_bisection(par, two_x, a, b)) X1(CONV, minimize_bisection(negp, mtwo_x, a, b))
	OK(maximize_goldensection(negp, a, b)) OK(minimize_goldensection(par, a, b)) OK(maximize_newton(negp, mtwo_x, mtwo, b)) OK(minimize_newton(par, two_x, two, b)) OK(maximize_bisection(negp, mtwo_x, a, b)) OK(minimize_bisection(par, two_x, a, b))
}
static multidual<3> bowl(vec<multidual<3>, 3> v) { cb_tick(); return v[0] * v[0] + v[1] * v[1] + v[2] * v[2]; }
static vec<multidual<3>, 3> noroot(vec<multidual<3>, 3> v) { cb_tick(); vec<multidual<3>, 3> r; for(int i = 0; i < 3; ++i) r[i] = v[i] * v[i] + 1.0; return r; }
OP(err_multivariate) { vec3 x = c.fv<3>(0.5, 2); double g = c.p(0.5) ? 0 : c.r(0.1, 2); c.in(x); X1(ARG, multi_minimize_grad<3>(bowl, x, g)) X1(CONV, multiroot_newton<3>(noroot, x, 1e-8, 15)) OK(multi_minimize_grad<3>(bowl, x, -0.1)) }
OP(err_samplers) {
	PRNG p = c.rng(); typedef std::vector<real> V; V t0, t1 = c.sv(1, 0.5, 2), t2 = c.sv(2, 0.5, 2), t3 = c.sv(3, 0.5, 2), neg = { -c.r(0.5, 3) }; vec<real> th0; c.in(t0, t1, t2, t3, neg, th0); const V& w2 = c.p(0.5) ? t1 : t3; const V& w1 = c.p(0.5) ? t0 : t2;
	#define S1(MASK, E) FAILS(MASK) { PRNG q = p; double v = E; d(v); return bad(v); });
	S1(ARG, rand_uniform(w2, q)) S1(ARG, rand_diceroll(0u, q)) S1(ARG, rand_diceroll(w1, q)) S1(ARG, rand_diceroll(neg, q)) S1(ARG, rand_gaussian(w2, q)) S1(DIV, rand_exponential(0.0, q)) S1(ARG, rand_exponential(w1, q)) S1(ARG, rand_rayleigh(w1, q)) S1(ARG, rand_cauchy(w2, q)) S1(ARG, rand_laplace(w2, q)) S1(ARG, rand_pareto(w2, q))
	S1(CONV, rand_rejectsamp([](double, const vec<real>&) { cb_tick(); return 0.0; }, th0, two, idf, q, 9))
	#define G1(E) FAILS(0) { PRNG q = p; double v = E; d(v); return !bad(v); });
	G1(rand_uniform(t2, q)) G1(rand_diceroll(1u, q)) G1(rand_gaussian(t2, q)) G1(rand_exponential(t1, q)) G1(rand_rayleigh(t1, q)) G1(rand_cauchy(t2, q)) G1(rand_laplace(t2, q)) G1(rand_pareto(t2, q))
	FAILS(ARG) { PRNG q = p; vec<real> u; shuffle(u, q); d(u); return u.size() == 0; });
	FAILS(0) { PRNG q = p; V u = t1; shuffle(u, q); d(u); return u == t1; });
}
OP(err_generators) {
	std::vector<uint64_t> s; for(unsigned i = c.p(0.5) ? 2 : 5; i; --i) s.push_back(1 + c.g.below(99)); std::vector<uint64_t> g3 = { 5, 3, 97 }, big = { 98, 3, 97 }, g4 = { 1, 2, 3, 4 }, g1 = { 12345 }; c.in(s, g3, big, g4, g1);
	#define W(MASK, F, STATE) FAILS(MASK) { std::vector<uint64_t> u = STATE; uint64_t v = F(7, u); d(v); return MASK ? v == 0 : true; });
	W(ARG, randgen_congruential, s) W(ARG, randgen_congruential, big) W(ARG, randgen_xoshiro, s) W(ARG, randgen_wyrand, s) W(ARG, randgen_middlesquare, s) W(0, randgen_congruential, g3) W(0, randgen_xoshiro, g4) W(0, randgen_wyrand, g3) W(0, randgen_middlesquare, g1)
}
OP(err_distributions) {
	using namespace distribution; double x = c.r(0.2, 2); vec<real> t0, t1 = c.dv(1, 1.5, 3), t2 = c.dv(2, 1.5, 3), t3 = c.dv(3, 1.5, 3); c.in(t0, t1, t2, t3); const vec<real>& w2 = c.p(0.5) ? t1 : t3; const vec<real>& w1 = c.p(0.5) ? t0 : t2; std::vector<unsigned> k = { 1, 2 }; std::vector<real> pr = c.sv(3, 0.1, 0.3), p2 = c.sv(2, 0.1, 0.5);
	X1(ARG, gaussian(x, w2)) X1(ARG, bernoulli(1.0, w1)) X1(ARG, poisson(1.0, w1)) X1(ARG, binomial(1.0, w2)) X1(ARG, chi_squared(x, w1)) X1(ARG, distribution::gamma(x, w2)) X1(ARG, distribution::beta(x / 3, w2)) X1(ARG, student(x, w1)) X1(ARG, log_normal(x, w2)) X1(ARG, exponential(x, w1)) X1(ARG, rayleigh(x, w1)) X1(ARG, cauchy(x, w2)) X1(ARG, breit_wigner(x, w2)) X1(ARG, maxwell(x, w1)) X1(ARG, laplace(x, w2)) X1(ARG, pareto(x, w2)) X1(ARG, erlang(x, w2)) X1(DIV, rayleigh(x, 0.0)) X1(DOM, pareto(x, 1.0, -x)) X1(DOM, pareto(x, 1.0, 0.0)) X1(ARG, erlang(x, 0u, 1.0)) X1(ARG, multinomial(k, 3, 2, pr))
	OK(gaussian(x, t2)) OK(bernoulli(1.0, t1)) OK(poisson(1.0, t1)) OK(chi_squared(x, t1)) OK(distribution::gamma(x, t2)) OK(distribution::beta(x / 3, t2)) OK(student(x, t1)) OK(log_normal(x, t2)) OK(exponential(x, t1)) OK(rayleigh(x, t1)) OK(cauchy(x, t2)) OK(breit_wigner(x, t2)) OK(maxwell(x, t1)) OK(laplace(x, t2)) OK(pareto(x, t2)) OK(erlang(x, t2)) OK(erlang(x, 1u, 1.0)) OK(multinomial(k, 3, 2, p2))
}
template<typename V> static void err_stats(Ctx& c, const V& X, const V& Y, const V& Z, const V& one, const V& two) {
	V e; c.in(X, Y, Z, one, two, e); double r;
	X1(ARG, stats::propagate_product(X, Y)) X1(DIV, stats::propagate_product(X, Z)) X1(ARG, stats::total_sum_squares(e)) X1(ARG, stats::variance(one)) X1(ARG, stats::variance(X, X.size())) X1(ARG, stats::stdev(one)) X1(ARG, stats::covariance(X, Y)) X1(ARG, stats::covariance(one, one)) X1(ARG, stats::autocorrelation(one, 2)) X1(ARG, stats::chi_square(X, X, Y)) X1(ARG, stats::chi_square(X, Y, Y)) X1(DIV, stats::chi_square(X, X, Z)) X1(ARG, stats::pvalue_chi_squared(3.0, 0)) X1(ARG, stats::chi_square_linear(X, Y, X, 1, 2)) X1(DIV, stats::chi_square_linear(X, X, Z, 1, 2)) X1(ARG, stats::reduced_chi_square_linear(two, two, two, 1, 2))
	FAILS(ARG) { real m = 0, v = 0; stats::moments2(one, m, v); d(m)(v); return bad(m) && bad(v); });
	OK(stats::propagate_product(X, X)) OK(stats::variance(two)) OK(stats::stdev(X)) OK(stats::covariance(two, two)) OK(stats::autocorrelation(X, 1)) OK(stats::chi_square(X, X, X)) OK(stats::pvalue_chi_squared(3.0, 2)) OK(stats::chi_square_linear(X, X, X, 1, 2)) OK(stats::reduced_chi_square_linear(X, X, X, 1, 2)) OK(stats::total_sum_squares(one)) (void) r;
}
OP(err_statistics_dynamic) { unsigned n = c.n(4, 9); err_stats(c, c.dv(n, 0.5, 3), c.dv(n + 1, 0.5, 3), with_zero(c, c.dv(n, 0.5, 3)), c.dv(1, 1, 2), c.dv(2, 1, 2)); }
OP(err_statistics_standard) { unsigned n = c.n(4, 9); err_stats(c, c.sv(n, 0.5, 3), c.sv(n + 1, 0.5, 3), with_zero(c, c.sv(n, 0.5, 3)), c.sv(1, 1, 2), c.sv(2, 1, 2)); }
OP(err_histogram) { histogram h(4, 0, 1), g(4, 0, 1); double x = c.r(0, 1); h.insert(x); g.insert(x); g.insert(x / 2); X1(DIV, stats::variance(h)) X1(DIV, stats::stdev(h)) OK(stats::variance(g)) OK(stats::stdev(g)) }
OP(err_regression) {
	using namespace regression; unsigned n = c.n(4, 8); vec<real> X = c.dv(n), Y = c.dv(n + c.n(1, 2)), flat(n, 2.0), two = c.dv(2), one = c.dv(1), V = c.dv(n), W = c.dv(n, 0.5, 2); c.in(X, Y, flat, two, one, V, W);
	FAILS(ARG) { real a = 0, b = 0; ols_linear(X, Y, a, b); d(a)(b); return bad(a) && bad(b); });
	FAILS(DIV) { real a = 0, b = 0; ols_linear(flat, X, a, b); d(a)(b); return bad(a) && bad(b); });
	FAILS(ARG) { real a = 0, b = 0; mat2 cv; wls_linear(X, Y, X, a, b, cv); d(a)(b); return bad(a) && bad(b); });
	FAILS(ARG) { real b = 0, sb = 0; ols_linear_orig(X, Y, 0.5, b, sb); d(b); return bad(b); });
	FAILS(ARG) { real b = 0, sb = 0; wls_linear_orig(X, X, Y, b, sb); d(b); return bad(b); });
	FAILS(0) { real a = 0, b = 0; ols_linear(X, V, a, b); d(a)(b); return !bad(a) && !bad(b); });
	FAILS(0) { real a = 0, b = 0; mat2 cv; wls_linear(X, V, W, a, b, cv); d(a)(b); return !bad(a) && !bad(b); });
	X1(ARG, ols_linear_error(X, Y, 1.0, 2.0)) X1(ARG, ols_linear_intercept(X, Y)) X1(ARG, ols_linear_slope(X, Y)) X1(ARG, wls_linear_intercept(X, X, Y)) X1(ARG, wls_linear_slope(X, Y, Y)) OK(ols_linear_intercept(X, V)) OK(ols_linear_slope(X, V)) OK(wls_linear_slope(X, V, W))
	FAILS(ARG) { linear_model m(X, Y); d(m.A)(m.B); return bad(m.A) && bad(m.B); });
	FAILS(ARG) { linear_model m(two, two); d(m.A)(m.B); return bad(m.A) && bad(m.B); });
	FAILS(ARG) { linear_model m(X, Y, 0.5); d(m.A)(m.B); return bad(m.A) && bad(m.B); });
	FAILS(ARG) { linear_model m(two, two, 0.5); d(m.A)(m.B); return bad(m.A) && bad(m.B); });
	FAILS(DIV) { linear_model m(X, V, 0.0); d(m.A)(m.B); return bad(m.A) && bad(m.B); });
	FAILS(0) { linear_model m(X, V); d(m.A)(m.B); return !bad(m.A) && !bad(m.B); });
	FAILS(0) { linear_model m(X, V, 0.5); d(m.A)(m.B); return !bad(m.A) && !bad(m.B); });
}
static multidual<0> lin(vec<multidual<0>> v) { cb_tick(); return v[0] + v[1]; }
OP(err_propagation) { vec<real> x = c.dv(2); mat<real> M(3, 2), K(2, 3), S(2, 2); c.mfill(M, 1, 2, 0); c.mfill(K, 1, 2, 0); c.spd(S); c.in(x, M, K, S); X1(ARG, stats::error_propagation<0>(lin, x, M)) X1(ARG, stats::error_propagation<0>(lin, x, K)) OK(stats::error_propagation<0>(lin, x, S)) }
// algebra
OP(err_vectors) {
	unsigned n = c.n(1, 6); vec<real> a = c.dv(n), b = c.dv(n + 1 + (n == 2)), z(n, 0.0), t = c.dv(3); vec3 f = c.fv<3>(), o(0.0); vec<real, 4> f4 = c.fv<4>(); c.in(a, b, z, f, o, f4, t);
	X1(DIV, algebra::normalize(z)) X1(DIV, algebra::normalize(o)) X1(DIV, z.normalized()) X1(ARG, algebra::dot(a, b)) X1(ARG, algebra::cross(b, t)) X1(ARG, algebra::cross(t, b)) X1(ARG, t.cross(b)) X1(ARG, f.cross(f4)) X1(ARG, a + b) X1(ARG, a - b)
	FAILS(DIV) { vec<real> u = z; algebra::make_normalized(u); d(u); return bad(u); });
	FAILS(ARG) { vec<real> u = a; u += b; d(u); return bad(u); }); FAILS(ARG) { vec<real> u = a; u -= b; d(u); return bad(u); }); FAILS(DIV) { vec<real> u = a; u /= 0.0; d(u); return bad(u); });
	FAILS(ARG) { vec<real> u = b; algebra::vec_scalmul(u, 2.0, a); d(u); return bad(u); }); FAILS(ARG) { vec<real> u = a; algebra::vec_sum(u, b); d(u); return bad(u); }); FAILS(ARG) { vec<real> u = a; algebra::vec_diff(u, b); d(u); return bad(u); });
	FAILS(ARG) { vec<real> u = a; algebra::vec_sum(u, a, b); d(u); return bad(u); }); FAILS(ARG) { vec<real> u = b; algebra::vec_sum(u, a, a); d(u); return bad(u); }); FAILS(ARG) { vec<real> u = a; algebra::vec_diff(u, b, a); d(u); return bad(u); }); FAILS(ARG) { vec<real> u = b; algebra::vec_diff(u, a, a); d(u); return bad(u); });
	X1(ARG, (vec<real>::euclidean_base(n, n))) X1(ARG, (vec3::euclidean_base(3))) X0(ARG, vec3 u = f; u.resize(4); d(u)) X1(ARG, (vec3({ 1.0, 2.0 })))
	OK(a + a) OK(algebra::normalize(f)) OK(algebra::dot(a, a)) OK(t.cross(t)) OK((vec3::euclidean_base(2))) FAILS(0) { vec<real> u = a; u -= a; u /= 2.0; d(u); return !bad(u); });
}
OP(err_distances) {
	unsigned n = c.n(1, 6); vec<real> a = c.dv(n), b = c.dv(n + 1); c.in(a, b);
	X1(ARG, euclidean_distance(a, b)) X1(ARG, minkowski_distance(a, b, 3)) X1(ARG, manhattan_distance(a, b)) X1(ARG, chebyshev_distance(a, b)) X1(ARG, discrete_distance(a, b)) X1(ARG, canberra_distance(a, b)) X1(ARG, cosine_distance(a, b)) X1(ARG, hamming_distance(a, b))
	OK(euclidean_distance(a, a)) OK(minkowski_distance(a, a, 3)) OK(manhattan_distance(a, a)) OK(chebyshev_distance(a, a)) OK(discrete_distance(a, a)) OK(hamming_distance(a, a))
}
OP(err_matrices) {
	unsigned n = c.n(2, 4), k = n + c.n(1, 2); mat<real> A = c.dm(n, k), B = c.dm(k, n), S = c.dm(n, n, 5), T = c.dm(k, k, 5), Z(n, n); vec<real> vn = c.dv(n), vk = c.dv(k); Z.make_zeroes(); c.in(A, B, S, T, vn, vk, Z);
	#define M1(MASK, INIT, E) FAILS(MASK) { mat<real> u = INIT; E; d(u); return MASK ? bad(u) : !bad(u); });
	M1(ARG, A, mat_swap_rows(u, n, 0)) M1(ARG, A, mat_swap_rows(u, 0, n)) M1(ARG, A, mat_swap_cols(u, k, 0)) M1(ARG, A, mat_swap_cols(u, 0, k)) M1(ARG, A, make_transposed(u)) M1(ARG, A, algebra::transpose(u, A)) M1(ARG, A, make_hermitian(u)) M1(ARG, A, algebra::hermitian(u, A)) M1(ARG, B, mat_scalmul(u, 2.0, A)) M1(ARG, S, mat_sum(u, A, B)) M1(ARG, S, mat_sum(u, A, A)) M1(ARG, A, mat_diff(u, A, B)) M1(ARG, B, mat_diff(u, A, A)) M1(ARG, S, mat_mul(u, A, A)) M1(ARG, T, mat_mul(u, A, B)) M1(ARG, A, invert(u)) M1(ARG, A, decompose_lu_inplace(u)) M1(ARG, A, decompose_cholesky_inplace(u)) M1(ARG, T, algebra::inverse(u, S)) M1(DIV, A, u /= 0.0) M1(ARG, S, algebra::diagonal(u, vk))
	M1(0, A, mat_swap_rows(u, n - 1, 0)) M1(0, A, mat_swap_cols(u, k - 1, 0)) M1(0, B, algebra::transpose(u, A)) M1(0, S, mat_mul(u, A, B)) M1(0, S, make_transposed(u)) M1(0, S, invert(u)) M1(0, A, mat_sum(u, A, A)) M1(0, A, u /= 2.0) M1(0, S, algebra::diagonal(u, vn))
	X1(DIV, A / 0.0) X1(ARG, A * A) X1(ARG, A * vn) X1(ARG, algebra::transform(A, vn)) X1(ARG, mat_mul(A, A)) X1(ARG, mat_transpose_mul(A, B)) X1(ARG, mat_mul_transpose(A, B)) X1(ARG, algebra::inverse(A)) X1(IMP, algebra::inverse(Z)) X1(ARG, decompose_cholesky(A)) X1(ARG, decompose_cholesky(S)) X1(ARG, solve_triangular_lower(A, vn)) X1(ARG, solve_triangular_lower(S, vk)) X1(DIV, solve_triangular_lower(Z, vn)) X1(ARG, solve_triangular_upper(A, vn)) X1(ARG, solve_triangular_upper(S, vk)) X1(DIV, solve_triangular_upper(Z, vn)) X1(ARG, solve_lu(S, A, vn)) X1(ARG, solve_lu(A, S, vn)) X1(ARG, solve_lu(S, T, vn)) X1(ARG, solve_lu(S, S, vk)) X1(DIV, solve_lu(S, Z, vn)) X1(ARG, solve_cholesky(A, vn)) X1(ARG, solve_cholesky(S, vk))
	FAILS(ARG) { vec<real> u = vn; apply_transform(A, u); d(u); return bad(u); }); FAILS(ARG) { vec<real> u = vk; solve_lu_inplace(S, u); d(u); return bad(u); }); FAILS(0) { mat<real> L(n, n), U(k, k); decompose_lu(S, L, U); d(L); d(U); return !bad(L) && !bad(U); }); FAILS(ARG) { mat<real> L, U; decompose_lu(A, L, U); d(L); d(U); return bad(L) && bad(U); });
	OK(A * B) OK(A * vk) OK(algebra::transform(A, vk)) OK(algebra::inverse(S)) OK(solve_lu(S, vn)) OK(A / 2.0) OK(mat_transpose_mul(A, A)) OK(mat_mul_transpose(A, A))
	X0(ARG, mat<real, 2, 2> u(1.0); u.resize(3, 2); d(u)) X0(ARG, mat<real, 2, 2> u(1.0); u.resize(2, 3); d(u)) X1(ARG, (mat<real, 2, 2>({ { 1.0, 2.0 } }))) X1(ARG, (mat<real, 2, 2>({ { 1.0, 2.0 }, { 3.0 } })))
}
OP(err_eigen) {
	unsigned n = c.n(2, 4); mat<real> S(n, n), A = c.dm(n, n + 1); c.spd(S); vec<real> x = c.dv(n, 0.5, 2), y = c.dv(n + 1), z(n, 0.0); c.in(S, A, x, y, z);
	X1(DIV, rayleigh_quotient(S, z)) X1(ARG, eigenvalue_power(A, x)) X1(ARG, eigenvalue_power(S, y)) X1(ARG, eigenvalue_inverse(A, x)) X1(ARG, eigenvalue_inverse(S, y)) X1(ARG, eigenvector_inverse(A, 3.0, x)) X1(ARG, eigenvector_inverse(S, 3.0, y)) X1(ARG, eigenvalue_rayleigh(A, 3.0, x)) X1(ARG, eigenvalue_rayleigh(S, 3.0, y))
	FAILS(ARG) { vec<real> v = y; double q = eigenpair_power(S, x, v); d(q); return bad(q); }); FAILS(ARG) { vec<real> v = x; double q = eigenpair_power(A, x, v); d(q); return bad(q); }); FAILS(ARG) { vec<real> v = x; double q = eigenpair_inverse(A, x, v); d(q); return bad(q); }); FAILS(ARG) { vec<real> v = x; double q = eigenpair_rayleigh(A, 3.0, x, v); d(q); return bad(q); });
	X1(CONV, eigenvalue_power(S, x, 0.0, 3)) X1(CONV, eigenvalue_inverse(S, x, 0.0, 3)) OK(rayleigh_quotient(S, x))
}
OP(err_transforms) {
	double t = c.r(-3, 3); vec3 v = c.fv<3>(0.5, 2); vec<real> s = c.dv(2); unsigned n = c.n(1, 2); typedef mat<real> M; c.in(v, s);
	X1(ARG, algebra::translation<M>(s, 4, 4)) X1(ARG, algebra::rotation_2d<M>(t, 1, 2)) X1(ARG, algebra::rotation_2d<M>(t, 2, 1)) X1(ARG, algebra::rotation_3d<M>(t, v, n, 3)) X1(ARG, algebra::rotation_3d<M>(t, v, 3, n)) X1(ARG, algebra::rotation_3d<M>(t, s, 3, 3)) X1(ARG, algebra::rotation_3d_xaxis<M>(t, n, 3)) X1(ARG, algebra::rotation_3d_yaxis<M>(t, 3, n)) X1(ARG, algebra::rotation_3d_zaxis<M>(t, n, 3)) X1(ARG, algebra::perspective<M>(-1, 1, -1, 1, 1, 9, n, 4)) X1(ARG, algebra::ortho<M>(-1, 1, -1, 1, 1, 9, 4, n)) X1(ARG, algebra::symplectic<M>(3, 3)) X1(ARG, algebra::symplectic<M>(2, 4))
	OK(algebra::translation<M>(v, 4, 4)) OK(algebra::rotation_2d<M>(t, 2, 2)) OK(algebra::rotation_3d<M>(t, v, 3, 3)) OK(algebra::rotation_3d_xaxis<M>(t, 3, 3)) OK(algebra::symplectic<M>(4, 4)) OK(algebra::ortho<M>(-1, 1, -1, 1, 1, 9, 4, 4))
}
static dual sqp_d(dual x) { cb_tick(); return x * x + 1.0; }
static dual2 sqp_d2(dual2 x) { cb_tick(); return x * x + 1.0; }
static double hole(double x) { cb_tick(); return std::fabs(x) < 0.9 ? NAN : x; }
OP(err_root_finding_limits) {
	double a = c.r(-3, -1), b = c.r(1, 3); unsigned k = c.n(1, 6); polynomial<real> p0({ c.r(1, 2) }), p1({ c.r(-1, 1), 1.0 }); c.in(p0, p1);
	X1(CONV, root_bisect(hole, a, b)) X1(CONV, root_bisect(idf, a, b, 1e-12, k)) X1(CONV, root_itp(hole, a, b)) X1(CONV, root_newton(sqp_d, a, 1e-8, k)) X1(CONV, root_halley(sqp_d2, a, 1e-8, k)) X1(CONV, root_chebyshev(sqp_d2, a, 1e-8, k)) X1(ARG, roots(p0))
	OK(root_bisect(idf, a, b, 1e-3, 40)) OK(roots(p1))
}
OP(err_extrema_limits) {
	double w = c.r(1, 9) * 1e40; vec3 x = c.fv<3>(0.5, 2), y(0.0); double g = c.p(0.5) ? 0 : c.r(0.1, 2); unsigned k = c.n(0, 2); c.in(x, y);
	X1(CONV, maximize_goldensection(negp, -w, w)) X1(CONV, minimize_goldensection(par, -w, w)) X1(CONV, multi_minimize_grad<3>(bowl, x, -0.1, 1e-9, k)) X1(ARG, multi_maximize_grad<3>(bowl, x, g)) X1(CONV, multi_maximize_grad<3>(bowl, x, -0.1, 1e-9, k)) X1(CONV, multi_maximize_lingrad<3>(bowl, x, 1e-9, k)) X1(CONV, multi_minimize_lingrad<3>(bowl, x, 0.0, 0))
	OK(multi_minimize_lingrad<3>(bowl, y, 1e-6, 3)) OK(multi_maximize_grad<3>(bowl, y, -0.1, 1e-9, 3))
}
OP(err_integration_orders) { double a = c.r(-2, 0), b = c.r(1, 2); std::vector<real> r = c.sv(3, -0.9, 0.9), w = c.sv(c.p(0.5) ? 2 : 4); c.in(r, w); X1(ARG, integral_romberg(idf, a, b, 0)) X1(ARG, deriv_ridders(idf, a, 0.1, 0)) X1(ARG, integral_legendre(idf, a, b, r, w)) OK(integral_romberg(idf, a, b, 1)) OK(deriv_ridders(idf, a, 0.1, 1)) OK(integral_legendre(idf, a, b, r, r)) }
OP(err_curves) {
	std::vector<vec3> one = { c.fv<3>() }, none, two = { c.fv<3>(), c.fv<3>() }; double t = c.p(0.5) ? -c.r(1e-9, 2) : 1 + c.r(1e-9, 2); c.in(one, none, two); vec3 e = { c.r(1, 2), 0.0, 0.0 };
	X1(ARG, bezier(one, 0.5)) X1(ARG, bezier(none, 0.5)) X1(ARG, bezier(two, t)) X1(DIV, slerp(e, e * 2.0, 0.5)) OK(bezier(two, 0.0)) OK(bezier(two, 1.0)) OK(bezier(two, 0.3))
}
OP(err_more_numbers) {
	complex<real> z(c.r(0.5, 2), c.r(-2, 2)); phasor<real> po(0.0, 1.0), p(c.r(0.5, 2), 0.3); quat<real> qo(0, 0, 0, 0), q(1.0, c.x(), c.x(), c.x()); multidual<3> m(c.r(0.5, 2), c.fv<3>()); vec<real> v3 = c.dv(3, 0.5, 2), v2 = c.dv(c.p(0.5) ? 2 : 4); double t = c.r(-3, 3); std::vector<real> sym = { -t, t }, pos = { 1.0, 2.0 }; vec<complex<real>> u3, u2; u3.resize(3); u2.resize(2); for(auto* w : { &u3, &u2 }) for(auto& e : *w) e = complex<real>(t, 1.0); c.in(z, q, m, v3, v2, sym, pos, u3, u2);
	FAILS(DIV) { complex<real> u = z; u /= 0.0; d(u); return bad(u); }); X1(DIV, po.inverse()) FAILS(DIV) { quat<real> u = qo; u.invert(); d(u); return bad(u); }); X1(ARG, quat<real>::rotate(v3, t, v2)) X1(ARG, quat<real>::rotate(v2, t, v3)) FAILS(DIV) { multidual<3> u = m; u /= 0.0; d(u); return bad(u); }); X1(DIV, stats::standard_relative_error(sym)) X1(ARG, algebra::hermitian_distance(u3, u2))
	FAILS(0) { complex<real> u = z; u /= 2.0; d(u); return !bad(u); }); OK(p.inverse()) FAILS(0) { quat<real> u = q; u.invert(); d(u); return !bad(u); }); OK(quat<real>::rotate(v3, t, v3)) FAILS(0) { multidual<3> u = m; u /= 2.0; d(u); return !bad(u); }); OK(stats::standard_relative_error(pos)) OK(algebra::hermitian_distance(u3, u3))
}
OP(err_sampling_limits) {
	PRNG p = c.rng(); vec<real> th0; unsigned k = c.n(0, 9); c.in(th0);
	FAILS(CONV) { PRNG q = p; double v = rand_trycatch([](double, const vec<real>&) { cb_tick(); return -1.0; }, th0, 0, 1, 0, 1, q, k); d(v); return bad(v); });
	FAILS(0) { PRNG q = p; double v = rand_trycatch([](double, const vec<real>&) { cb_tick(); return 2.0; }, th0, 0, 1, 0, 1, q, 1); d(v); return !bad(v); });
	FAILS(CONV) { PRNG q([](uint64_t, std::vector<uint64_t>&) { return (uint64_t) 0; }, 0, { 1 }); double v = rand_gaussian_polar(0, 1, q); d(v); return bad(v); });
}
OP(err_fits) {
	using namespace regression; unsigned n = c.n(4, 8); vec<real> X = c.dv(n), Y = c.dv(n + c.n(1, 2)), flat(n, 2.0), half(n, 0.5), one = c.dv(1, 1, 2), V = c.dv(n), W = c.dv(n, 0.5, 2), zero(n, 0.0), W0 = with_zero(c, W), W1 = c.dv(n + 1, 0.5, 2); c.in(W1, X, Y, flat, half, one, V, W, zero, W0);
	#define FIT(MASK, ...) FAILS(MASK) { real a = 0, b = 0, sa = 0, sb = 0; mat2 cv; (void) sa; (void) sb; __VA_ARGS__; d(a)(b); return MASK ? bad(a) && bad(b) : !bad(a) && !bad(b); });
	FIT(ARG, ols_linear(X, Y, 0.5, a, b, sa, sb)) FIT(DIV, ols_linear(flat, V, 0.5, a, b, sa, sb)) FIT(ARG, ols_linear(X, Y, 0.5, a, b, cv)) FIT(DIV, ols_linear(flat, V, 0.5, a, b, cv)) FIT(DIV, wls_linear(flat, V, half, a, b, cv)) FIT(ARG, wls_linear(X, Y, 0.5, 0.5, a, b, cv)) FIT(DIV, wls_linear(flat, V, 0.5, 0.5, a, b, cv)) FIT(DIV, a = NAN; ols_linear_orig(zero, V, 0.5, b, sb)) FIT(DIV, a = NAN; wls_linear_orig(zero, V, W, b, sb)) FIT(0, ols_linear(X, V, 0.5, a, b, sa, sb)) FIT(0, ols_linear(X, V, 0.5, a, b, cv)) FIT(0, wls_linear(X, X, 0.5, 0.5, a, b, cv)) FIT(0, ols_linear_orig(X, V, 0.5, b, sb)) FIT(0, wls_linear_orig(X, V, W, b, sb))
	#define MODEL(MASK, ...) FAILS(MASK) { linear_model m(__VA_ARGS__); d(m.A)(m.B); return MASK ? bad(m.A) && bad(m.B) : !bad(m.A) && !bad(m.B); });
	MODEL(ARG, X, Y, W) MODEL(ARG, X, V, W1) MODEL(ARG, one, one, one) MODEL(DIV, X, V, W0) MODEL(DIV, flat, V, half) MODEL(ARG, X, Y, 0.5, 0.5) MODEL(ARG, one, one, 0.5, 0.5) MODEL(DIV, flat, V, 0.5, 0.5) MODEL(0, X, V, W) MODEL(0, X, X, 0.5, 0.5)
}
OP(err_matrix_shapes) {
	unsigned n = c.n(2, 4), k = n + c.n(1, 2); mat<real> A = c.dm(n, k), B = c.dm(k, n), S = c.dm(n, n, 5), T = c.dm(k, k, 5), I(n, n); vec<real> vn = c.dv(n), vk = c.dv(k); I.make_zeroes(); for(unsigned i = 0; i < n; ++i) I(i, i) = i ? -1 : 1; mat<real, 2, 3> F = c.fm<2, 3>(); mat<real, 2, 2> F2 = c.fm<2, 2>(); vec<real, 2> f2 = c.fv<2>(); vec3 f3 = c.fv<3>(); mat<real> S4 = c.dm(4, 4); c.in(A, B, S, T, vn, vk, I, F, F2, f2, f3, S4);
	// a destination wrong in its columns only, in its rows only
	M1(ARG, T, algebra::transpose(u, A)) M1(ARG, S, algebra::transpose(u, A)) M1(ARG, T, algebra::hermitian(u, A)) M1(ARG, S, algebra::hermitian(u, A)) M1(ARG, S, mat_scalmul(u, 2.0, A)) M1(ARG, T, mat_scalmul(u, 2.0, A))
	M1(ARG, A, mat_sum(u, T)) M1(ARG, A, mat_sum(u, S)) M1(ARG, A, mat_sum(u, A, T)) M1(ARG, A, mat_sum(u, A, S)) M1(ARG, T, mat_sum(u, A, A)) M1(ARG, S, mat_sum(u, A, A)) M1(ARG, A, mat_diff(u, T)) M1(ARG, A, mat_diff(u, S)) M1(ARG, A, mat_diff(u, A, T)) M1(ARG, A, mat_diff(u, A, S)) M1(ARG, T, mat_diff(u, A, A)) M1(ARG, S, mat_diff(u, A, A))
	M1(ARG, A, mat_lincomb(2.0, u, 3.0, T)) M1(ARG, A, mat_lincomb(2.0, u, 3.0, S)) M1(ARG, A, mat_lincomb(u, 2.0, A, 3.0, T)) M1(ARG, A, mat_lincomb(u, 2.0, A, 3.0, S)) M1(ARG, T, mat_lincomb(u, 2.0, A, 3.0, A)) M1(ARG, S, mat_lincomb(u, 2.0, A, 3.0, A)) M1(ARG, B, mat_mul(u, A, B)) M1(ARG, A, mat_mul(u, A, B)) M1(ARG, A, mat_mul(u, A, S)) M1(ARG, S, mat_mul(u, S, T))
	M1(ARG, S, decompose_cholesky_inplace(u)) X1(ARG, decompose_cholesky(I)) M1(ARG, A, algebra::diagonal(u, vk)) M1(ARG, A, algebra::diagonal(u, vn)) FAILS(ARG) { vec<real> u = vk; algebra::transform(u, A, vk); d(u); return bad(u); }); FAILS(ARG) { vec<real> u = vn; algebra::transform(u, A, vn); d(u); return bad(u); }); X1(ARG, algebra::solve_triangular(S, vn)) FAILS(ARG) { vec<real> u = vn; solve_lu_inplace(A, u); d(u); return bad(u); });
	X1(ARG, A.mul(A)) X1(ARG, A.transform(vn)) X1(ARG, (mat<real>({ { 1.0, 2.0 }, { 3.0 } }))) X1(DIV, F / 0.0) FAILS(DIV) { mat<real, 2, 3> u = F; u /= 0.0; d(u); return bad(u); }); X1(ARG, F.mul(n == 3 ? S4 : A)) FAILS(DIV) { vec3 u = f3; u /= 0.0; d(u); return bad(u); });
	M1(0, A, mat_sum(u, A)) M1(0, A, mat_diff(u, A)) M1(0, A, mat_lincomb(2.0, u, 3.0, A)) M1(0, A, mat_lincomb(u, 2.0, A, 3.0, A)) OK(A.mul(B)) OK(A.transform(vk)) OK(F / 2.0) FAILS(0) { vec<real> u = vn; algebra::transform(u, A, vk); d(u); return !bad(u); });
}
OP(err_eigen_destinations) {
	unsigned n = c.n(2, 4); mat<real> S(n, n); c.spd(S); vec<real> x = c.dv(n, 0.5, 2), y = c.dv(n + 1, 0.5, 2); c.in(S, x, y);
	FAILS(ARG) { vec<real> v = x; double q = eigenpair_power(S, y, v); d(q); return bad(q); }); FAILS(ARG) { vec<real> v = x; double q = eigenpair_inverse(S, y, v); d(q); return bad(q); }); FAILS(ARG) { vec<real> v = x; double q = eigenpair_rayleigh(S, 3.0, y, v); d(q); return bad(q); });
}
OP(err_transform_shapes) {
	double t = c.r(-3, 3); unsigned n = c.n(1, 2), k = c.n(1, 3); typedef mat<real> M;
	X1(ARG, algebra::rotation_3d_xaxis<M>(t, 3, n)) X1(ARG, algebra::rotation_3d_yaxis<M>(t, n, 3)) X1(ARG, algebra::rotation_3d_zaxis<M>(t, 3, n)) X1(ARG, algebra::perspective<M>(-1, 1, -1, 1, 1, 9, 4, k)) X1(ARG, algebra::perspective_fov<M>(1.0, 1.0, 1, 9, k, 4)) X1(ARG, algebra::perspective_fov<M>(1.0, 1.0, 1, 9, 4, k)) X1(ARG, algebra::ortho<M>(-1, 1, -1, 1, 1, 9, k, 4))
	OK(algebra::rotation_3d_yaxis<M>(t, 3, 3)) OK(algebra::perspective_fov<M>(1.0, 1.0, 1, 9, 4, 4)) OK(algebra::perspective<M>(-1, 1, -1, 1, 1, 9, 4, 4))
}
