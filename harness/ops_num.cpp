// complex numbers, phasors, quaternions, dual numbers, automatic
// differentiation, polynomials
#include "ctx.h"
#define GROUP "numbers"
OP(complex_arith) {
	complex<real> a = c.z(), b = c.z(); double k = c.r(0.5, 3); c.in(a, b);
	CALL { d(a + b); d(a - b); d(a * b); d(a / b); d(a + k); d(a - k); d(a * k); d(a / k); d(k + a); d(k - a); d(k * a); d(k / a); d(+a); d(-a); d(a == b); d(a != b); });
	CALL { complex<real> u = a; u += b; u -= k; u *= b; u += k; u *= k; u -= b; u /= b; d(u); u.invert(); d(u); d(a.inverse()); d(a.conjugate()); d(a.norm()); d(a.sqr_norm()); d(a.arg()); d(a.Re()); d(Im(a)); d(complex<real>::rotor(k)); d(complex<real>::i()); });
	CALL { d(a.to_string()); OStr o; o << b; d(o.str()); complex<real> u = b; d((std::string) u); });
}
OP(complex_functions) {
	complex<real> z(c.r(-2, 2), c.r(-2, 2)), w(c.r(-1, 1), c.r(0.1, 1)); c.in(z, w);
	CALL { d(th::identity(z)); d(th::conjugate(z)); d(th::inverse(w)); d(th::square(z)); d(th::cube(z)); d(th::exp(z)); d(th::abs(z)); d(th::sin(z)); d(th::cos(z)); d(th::tan(w)); });
	CALL { d(th::sqrt(z)); d(th::ln(w)); d(th::asin(w)); d(th::acos(w)); d(th::atan(w)); d(th::pow(z, 3)); });
}
OP(phasors) {
	phasor<real> a(c.r(0.2, 3), c.r(-3, 3)), b(c.r(0.2, 3), c.r(-3, 3)); complex<real> z = c.z(); double k = c.r(0.5, 3); c.in(a, b, z);
	CALL { d(a + b); d(a - b); d(a * b); d(a / b); d(a * z); d(z * a); d(k + a); d(k - a); d(k * a); d(k / a); d(a == b); d(a != b); d(phasor<real>(z)); d(a.to_complex()); });
	CALL { phasor<real> u = a; u += b; u -= a; u *= b; u /= a; d(u); u.invert(); d(u); d(a.conjugate()); d(a.norm()); d(a.sqr_norm()); d(a.arg()); d(a.Re()); d(a.Im()); d(phasor<real>::rotor(k)); d(phasor<real>::i()); });
	CALL { d(a.to_string()); OStr o; o << b; d(o.str()); });
}
OP(quaternions) {
	quat<real> a(c.x(), c.x(), c.x(), c.r(0.1, 2)), b(c.x(), c.x(), c.x(), c.r(0.1, 2)); double k = c.r(0.5, 3); vec3 v = c.fv<3>(), ax = c.fv<3>(); c.in(a, b, v, ax);
	CALL { d(a + b); d(a - b); d(a * b); d(a / b); d(a + k); d(a - k); d(a * k); d(a / k); d(k + a); d(k - a); d(k * a); d(k / a); d(+a); d(-a); });
	CALL { quat<real> u = a; u += b; u -= a; u *= b; u /= b; u *= k; u /= k; d(u); d(a.conjugate()); d(a.inverse()); d(a.norm()); d(a.sqr_norm()); d(a.Re()); d(a.Im1()); });
	CALL { d(a.transform(v)); d(quat<real>::rotation(k, ax)); d(quat<real>::rotate(v, k, ax)); d(a.to_string()); OStr o; o << b; d(o.str()); });
}
#define DFUN(T) d(th::square(x)); d(th::cube(x)); d(th::conjugate(x)); d(th::sqrt(x)); d(th::sin(x)); d(th::cos(x)); d(th::tan(x)); d(th::cot(x)); d(th::exp(x)); d(th::ln(x)); d(th::log2(x)); d(th::log10(x)); d(th::asin(y)); d(th::acos(y)); d(th::atan(x));
template<typename T> static void duals(Ctx& c, const T& x, const T& y) {
	double k = c.r(0.5, 3); c.in(x, y);
	CALL { d(x + y); d(x - y); d(x * y); d(x / y); d(x + k); d(x - k); d(x * k); d(x / k); d(k + x); d(k - x); d(k * x); d(k / x); d(+x); d(-x); d(x.inverse()); d(x.conjugate()); });
	CALL { T u = x; u += y; u -= k; u *= y; u += k; u *= k; u -= y; d(u); T w = x; d(w == y); d(w == x); w = k; d(w); });
	CALL { DFUN(T) });
	CALL { d(x.to_string()); OStr o; o << y; d(o.str()); });
}
OP(dual_numbers) { dual x(c.r(0.2, 3), c.r(-2, 2)), y(c.r(0.1, 0.9), c.r(-2, 2)); duals(c, x, y); CALL { d(th::sinh(x)); d(th::cosh(x)); d(th::tanh(x)); d(th::abs(x)); d(th::pow(x, 3)); d(x.to_vec()); d(x.to_mat()); dual u; u.from_vec(x.to_vec()); d(u); }); }
OP(dual2_numbers) { dual2 x(c.r(0.2, 3), c.r(-2, 2), c.r(-2, 2)), y(c.r(0.1, 0.9), c.r(-2, 2), c.r(-2, 2)); duals(c, x, y); CALL { d(th::abs(x)); d(th::pow(x, 3)); d(x.to_vec()); dual2 u; u.from_vec(x.to_vec()); d(u); }); }
OP(multidual_fixed) { multidual<3> x(c.r(0.2, 3), c.fv<3>()), y(c.r(0.1, 0.9), c.fv<3>()); duals(c, x, y); }
OP(multidual_dynamic) { unsigned n = c.sz(1, 5, 30); multidual<0> x(c.r(0.2, 3), c.dv(n)), y(c.r(0.1, 0.9), c.dv(n)); duals(c, x, y); }
OP(multidual_arguments) {
	vec<real> x = c.dv(c.n(1, 5)); vec3 y = c.fv<3>(); c.in(x, y);
	CALL { auto a = multidual<0>::make_argument(x); d(a); auto b = multidual<3>::make_argument(y); d(b); d(multidual<3>::extract_real(b)); d(multidual<3>::extract_dual(b)); vec3 u; mat3 J; multidual<3>::extract(b, u, J); d(u); d(J); d(multidual<0>::extract_real(a)); d(multidual<0>::extract_dual(a)); });
}
// functions for automatic differentiation
static dual ad1(dual x) { cb_tick(); return th::sin(x) * x + th::exp(-x * x); }
static dual2 ad2(dual2 x) { cb_tick(); return th::sin(x) * x + th::exp(-x * x); }
static multidual<3> adf(vec<multidual<3>, 3> v) { cb_tick(); return v[0] * v[1] + th::sin(v[2]) + v[0] * v[0]; }
static multidual<0> add(vec<multidual<0>> v) { cb_tick(); multidual<0> s = v[0] * v[0]; for(unsigned i = 1; i < v.size(); ++i) s = s + v[i] * v[i - 1]; return s; }
static vec<multidual<3>, 3> adv(vec<multidual<3>, 3> v) { cb_tick(); vec<multidual<3>, 3> r; r[0] = v[1] * v[2]; r[1] = th::sin(v[0]) + v[1]; r[2] = v[2] * v[2] - v[0]; return r; }
static vec<multidual<0>> advd(vec<multidual<0>> v) { cb_tick(); vec<multidual<0>> r; r.resize(v.size()); for(unsigned i = 0; i < v.size(); ++i) r[i] = v[i] * v[0] + 1.0; return r; }
static dual2 adl(vec<dual2, 3> v) { cb_tick(); return v[0] * v[0] * v[1] + th::sin(v[2]) * v[0]; }
OP(autodiff_scalar) { double x = c.r(-2, 2); CALL { d(autodiff::deriv(ad1, x)); d(autodiff::deriv2(ad2, x)); auto D = autodiff::deriv(ad1); d(D(x)); auto D2 = autodiff::deriv2(ad2); d(D2(x)); d(taylor::expand_linear(ad1, x)); d(taylor::expand_quadratic(ad2, x)); }); }
OP(autodiff_fields) {
	vec3 x = c.fv<3>(-2, 2), v = c.fv<3>(-2, 2); c.in(x, v);
	CALL { d(autodiff::gradient(adf, x)); d(autodiff::divergence(adf, x)); auto G = autodiff::gradient(adf); d(G(x)); auto V = autodiff::divergence(adf); d(V(x)); });
	CALL { d(autodiff::jacobian(adv, x)); auto J = autodiff::jacobian(adv); d(J(x)); d(autodiff::curl(adv, x)); auto C = autodiff::curl(adv); d(C(x)); d(autodiff::laplacian(adl, x)); auto L = autodiff::laplacian(adl); d(L(x)); });
}
OP(autodiff_dynamic) { vec<real> x = c.dv(c.n(1, 5), -2, 2); c.in(x); CALL { d(autodiff::gradient(add, x)); d(autodiff::jacobian(advd, x)); auto G = autodiff::gradient(add); d(G(x)); }); }
OP(error_propagation) {
	vec3 x = c.fv<3>(-2, 2), s = c.fv<3>(0.1, 1); mat3 M; c.spd(M); std::vector<vec<real>> data = { c.dv(6), c.dv(6), c.dv(6) }; c.in(x, s, M, data);
	CALL { d(stats::error_propagation<3>(adf, x, s)); d(stats::error_propagation<3>(adf, x, M)); d(stats::covar_mat<mat<real>, vec<real>>(data)); });
}
// polynomials
OP(polynomial_arith) {
	polynomial<real> p = c.poly(c.sz(0, 6, 40)), q = c.poly(c.sz(0, 4, 30)); double k = c.r(0.5, 3), x = c.r(-2, 2); complex<real> z = c.z(); c.in(p, q);
	CALL { d(p + q); d(p - q); d(p * q); d(p * k); d(p / k); d(k + p); d(k - p); d(k * p); d(p == q); d(p == p); d(p.size()); d(p.find_order()); });
	CALL { d(p / q); polynomial<real> u = p; u /= q; d(u); });
	CALL { polynomial<real> u = p; u += q; u -= p; u *= q; u *= k; u /= k; u.trim(); d(u); u = p; u[0] = 2; u.at(0) = 3; d(u); });
	CALL { d(p(x)); d(p.eval(x)); d(p.eval<complex<real>>(z)); d(p.get(0)); d(polynomial<real>::monomial(k, 3)); d(polynomial<real>::from_roots({ x, k })); });
	CALL { d(p.to_string()); d(q.to_string("t", "**")); OStr o; o << p; d(o.str()); });
}
OP(polynomial_calculus) { polynomial<real> p = c.poly(c.sz(0, 7, 40)); double a = c.r(-2, 2), b = c.r(-2, 2); c.in(p); CALL { d(deriv(p)); d(deriv(p, a)); d(integral(p)); d(integral(p, a, b)); }); }
OP(quadratic_roots) { polynomial<real> p = c.poly(2); c.in(p); CALL { auto r = p.quadratic_roots(); d(r); }); }
OP(orthogonal) {
	unsigned n = c.n(0, 8); double a = c.r(0.2, 3), x = c.r(-0.9, 0.9);
	CALL { d(legendre_polynomial(n)); d(legendre_polyn_normalization(n)); d(laguerre_polynomial(n)); d(general_laguerre_polynomial(a, n)); d(hermite_polynomial(n)); d(hermite_polyn_normalization(n)); d(chebyshev1_polynomial(n)); d(chebyshev2_polynomial(n)); d(assoc_legendre_polynomial_even(4, 2)); d(assoc_legendre_polynomial(3, 1)(x)); });
	CALL { d(gen_polyn_recurr({ 1 }, { 0, 1 }, legendre_polyn_recurr, n)); });
	polynomial<real> P = c.poly(2), Q = c.poly(3); c.in(P, Q);
	CALL { d(legendre_polyn_recurr(P, Q, n + 1)); d(laguerre_polyn_recurr(P, Q, n + 1)); d(general_laguerre_polyn_recurr(P, Q, a, n + 1)); d(hermite_polyn_recurr(P, Q, n + 1)); d(chebyshev_polyn_recurr(P, Q, n + 1)); });
}
OP(gauss_weights) { unsigned n = c.n(2, 6); CALL { std::vector<real> r = legendre_roots(n); d(r); d(legendre_weights(r)); d(laguerre_weights({ 0.5858, 3.4142 })); d(hermite_weights({ -0.7071, 0.7071 })); }); }
