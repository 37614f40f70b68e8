// interpolation, calculus, differential equations, optimisation, signals
#include "ctx.h"
#define GROUP "calculus"
OP(interp_scalar) { double a = c.r(-3, 0), b = c.r(1, 4), t = c.r(0, 1); CALL { d(lerp(a, b, t)); d(invlerp(a, b, t)); d(remap(a, b, 0, 9, t)); d(smoothstep(a, b, t)); d(smootherstep(a, b, t)); }); }
OP(interp_vector) { vec3 P = c.fv<3>(0.1, 3), Q = c.fv<3>(0.1, 3), R = c.fv<3>(), S = c.fv<3>(); double t = c.r(0, 1); std::vector<vec3> pts = { P, Q, R, S }; c.in(P, Q, R, S, pts); CALL { d(lerp(P, Q, t)); d(nlerp(P, Q, t)); d(slerp(P, Q, t)); d(quadratic_bezier(P, Q, R, t)); d(cubic_bezier(P, Q, R, S, t)); d(bezier(pts, t)); }); }
OP(splines) {
	unsigned n = c.sz(3, 8, 60); std::vector<real> X, Y; vec<real> dx, dy; std::vector<vec2> pts; double x = 0;
	for(unsigned i = 0; i < n; ++i) { x += c.r(0.2, 1); double y = c.r(-2, 2); X.push_back(x); Y.push_back(y); dx.push(x); dy.push(y); pts.push_back(vec2({ x, y })); }
	double at = c.r(0, x + 0.5); c.in(X, Y, dx, dy, pts);
	CALL { d(cubic_splines(X, Y)); d(cubic_splines(pts)); d(cubic_splines(dx, dy)); });
	CALL { spline s(pts); d(s); d(s(at)); d(s.deriv(at)); spline t(X, Y); d(t(at)); spline u = s; u = t; d(u(at)); });
	CALL { spline t(X, Y); for(auto& q : t) d(q(at)); });
	spline s(pts); c.in(s);
	CALL { d(s(at)); d(s.deriv(at)); d(s(at * 0.5)); });
}
OP(lagrange) { unsigned n = c.n(1, 5); std::vector<vec2> p; double x = 0; for(unsigned i = 0; i < n; ++i) { x += c.r(0.3, 1); p.push_back(vec2({ x, c.r(-2, 2) })); } c.in(p); CALL { d(lagrange_polynomial(p)); }); }
OP(interpolants) { F1 f = c.f(); double a = c.r(-2, 0), b = c.r(1, 2); unsigned n = c.n(1, 5); CALL { d(chebyshev_nodes(a, b, n)); d(chebyshev_nodes<vec<real>>(a, b, n)); d(interpolate_grid(f, a, b, n)); d(interpolate_chebyshev(f, a, b, n)); }); }
OP(derivatives) { F1 f = c.f(); double x = c.r(-2, 2), h = c.r(0.001, 0.1); unsigned g = c.n(1, 4); CALL { d(deriv_central(f, x)); d(deriv_forward(f, x, h)); d(deriv_backward(f, x, h)); d(deriv_ridders2(f, x)); d(deriv_ridders(f, x, h, g)); d(deriv(f, x)); d(deriv2(f, x)); }); }
OP(integrals) { F1 f = c.f(); double a = c.r(-2, 0), b = c.r(0.5, 2); unsigned n = c.sz(1, 20, 400); CALL { d(integral_midpoint(f, a, b, n)); d(integral_trapezoid(f, a, b, n)); d(integral_simpson(f, a, b, n)); d(integral_romberg(f, a, b, 1 + n % 5)); }); CALL { d(integral_romberg_tol(f, a, b, 1e-3)); }); }
OP(integrals_default) { F1 f = c.f(); if(f.kind >= 6) f.kind = 0; double a = c.r(-2, 0), b = c.r(0.5, 2); CALL { d(integral(f, a, b)); d(integral(f, a, b, 1e-4)); }); }
OP(integrals_gauss) {
	F1 f = c.f(); double a = c.r(-2, 0), b = c.r(0.5, 2); unsigned n = 2u << c.n(0, 3); std::vector<real> r = { -0.7745966692414834, 0, 0.7745966692414834 }, w = { 0.5555555555555556, 0.8888888888888888, 0.5555555555555556 }; c.in(r, w);
	CALL { d(integral_legendre(f, a, b, n)); d(integral_legendre(f, a, b, r, w)); d(integral_legendre(f, a, b, r)); d(integral_gauss(f, r, w)); d(integral_gauss(f, tables::legendre_roots_2, tables::legendre_weights_2, 2)); d(integral_legendre(f, a, b, tables::legendre_roots_4, tables::legendre_weights_4, 4)); });
	CALL { d(integral_laguerre(f, n == 2 || n == 4 || n == 8 || n == 16 ? n : 16)); d(integral_hermite(f, n)); d(integral_laguerre(f, a, b, r)); d(integral_hermite(f, r)); d(integral_laguerre(f, r)); });
}
OP(integral_infinite) { F1 f = c.f(); f.kind = 2; f.c = 0; double a = c.r(-1, 1); CALL { d(integral_inf_riemann(f, a, 1, 1e-4, 100)); }); }
OP(gaussian_expectation) { F1 f = c.f(); double m = c.r(-1, 1), s = c.r(0.2, 2); CALL { d(stats::gaussian_expectation(f, m, s)); }); }
// differential equations
struct Ode3 { double a, b; vec3 operator()(real t, vec3 x) const { cb_tick(); vec3 r; r[0] = x[1]; r[1] = -a * x[0] + b * x[2] * t; r[2] = -x[2] * b; return r; } };
struct OdeD { double a, b; vec<real> operator()(real t, vec<real> x) const { cb_tick(); vec<real> r; r.resize(x.size()); for(unsigned i = 0; i < x.size(); ++i) r[i] = a * x[(i + 1) % x.size()] - b * t; return r; } };
template<typename V, typename F> static void odes(Ctx& c, const V& x, F f) {
	double t = c.r(-1, 1), h = c.r(0.05, 0.3), tf = t + c.r(0.2, 1.2); c.in(x); V y = x * 1.1, z = x * 1.2; c.in(y, z);
	CALL { d(ode::step_euler(f, x, t, h)); d(ode::step_midpoint(f, x, t, h)); d(ode::step_heun(f, x, t, h)); d(ode::step_rk2(f, x, t, h)); d(ode::step_rk4(f, x, t, h)); d(ode::step_k38(f, x, t, h)); d(ode::step_adams2(f, x, t, y, t + h, h)); d(ode::step_adams3(f, x, t, y, t + h, z, t + 2 * h, h)); });
	CALL { auto s = ode::solve_euler(f, x, t, tf, h); d(s.t); d(s.x); auto u = ode::solve_rk4(f, x, t, tf, h); d(u.t); d(u.x); });
	CALL { auto s = ode::solve_midpoint(f, x, t, tf, h); d(s.x); s = ode::solve_heun(f, x, t, tf, h); d(s.x); s = ode::solve_rk2(f, x, t, tf, h); d(s.x); s = ode::solve_k38(f, x, t, tf, h); d(s.x); d(s.to_string()); OStr o; o << s; d(o.str()); });
}
OP(ode_fixed) { odes(c, c.fv<3>(-2, 2), Ode3{ c.r(0.5, 3), c.r(-1, 1) }); }
OP(ode_dynamic) { odes(c, c.dv(c.n(1, 4), -2, 2), OdeD{ c.r(-1, 1), c.r(-1, 1) }); }
// optimisation
OP(root_bracket) { F1 f = c.root(); double a = c.r(-9, -4), b = c.r(4, 9); CALL { d(root_bisect(f, a, b)); d(root_itp(f, a, b)); }); CALL { d(find_root_intervals(f, a, b, 12)); d(roots(f, a, b, 1e-6, 12)); }); }
OP(root_open) {
	F1 f = c.root(), g = f, h = f; g.kind = 0; g.a = -f.a; g.b = 0; g.c = 3; h.kind = 0; h.a = 0; h.b = 6; h.c = 0; double x = c.r(1.5, 4);
	CALL { d(root_newton(f, g, x)); d(root_ostrowski(f, g, x)); d(root_jarrat(f, g, x)); d(root_steffensen(f, x)); });
	CALL { d(root_halley(f, g, h, x)); d(root_chebyshev(f, g, h, x)); });
}
static dual rd(dual x) { cb_tick(); return x * x * x - x - 2.0; }
static dual2 rd2(dual2 x) { cb_tick(); return x * x * x - x - 2.0; }
OP(root_dual) { double x = c.r(1, 3); CALL { d(root_newton(rd, x)); d(root_halley(rd2, x)); d(root_chebyshev(rd2, x)); }); }
OP(extrema) {
	F1 f = c.f(), g, h; f.kind = 0; f.c = c.r(0.5, 2); g = f; g.a = f.b; g.b = 2 * f.c; g.c = 0; h = f; h.a = 2 * f.c; h.b = 0; h.c = 0; double a = c.r(-9, -5), b = c.r(5, 9);
	CALL { d(minimize_goldensection(f, a, b)); d(maximize_goldensection(f, a, b)); d(minimize_newton(f, g, h, a)); d(minimize_bisection(f, g, a, b)); });
	CALL { d(maximize_newton(f, g, h, b)); d(maximize_bisection(f, g, a, b)); });
}
static multidual<2> bowl(vec<multidual<2>, 2> v) { cb_tick(); return (v[0] - 1.0) * (v[0] - 1.0) + (v[1] + 0.5) * (v[1] + 0.5) * 1.5; }
static multidual<2> hill(vec<multidual<2>, 2> v) { cb_tick(); return -(v[0] - 1.0) * (v[0] - 1.0) - (v[1] + 0.5) * (v[1] + 0.5) * 1.5; }
static vec<multidual<2>, 2> sys2(vec<multidual<2>, 2> v) { cb_tick(); vec<multidual<2>, 2> r; r[0] = v[0] * v[0] + v[1] - 3.0; r[1] = v[0] - v[1] * v[1] * 0.2; return r; }
OP(extrema_multi) { vec2 x = c.fv<2>(-1, 1); c.in(x); CALL { d(multi_minimize_grad<2>(bowl, x, 0.05, 1e-3, 60)); d(multi_minimize_lingrad<2>(bowl, x, 1e-3, 20)); d(multi_maximize_lingrad<2>(hill, x, 1e-3, 20)); d(multi_minimize<2>(bowl, x, 1e-3)); }); CALL { d(multi_maximize_grad<2>(hill, x, -0.05, 1e-3, 200)); d(multi_maximize<2>(hill, x, 1e-3)); }); }
OP(roots_multi) { vec2 x = c.fv<2>(0.5, 2); c.in(x); CALL { d(multiroot_newton<2>(sys2, x)); }); }
OP(fourier) {
	unsigned n = 1u << c.sz(0, 5, 9); cvec x; vec<real> r; for(unsigned i = 0; i < n; ++i) { x.push(c.z()); r.push(c.x()); } c.in(x, r);
	CALL { d(signal::fft(x)); d(signal::ifft(x)); d(signal::fft(x, true)); });
}
OP(fourier_padded) { unsigned n = c.sz(1, 20, 300); cvec x; for(unsigned i = 0; i < n; ++i) x.push(c.z()); c.in(x); CALL { d(signal::fft(x)); d(signal::ifft(x)); }); }
