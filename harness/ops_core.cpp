// core: real functions, special functions, bit operations, data sets, ratios
#include "ctx.h"
#define GROUP "core"
#define S1(N, LO, HI) OP(N) { double x = c.r(LO, HI), y = c.any(), z = c.p(0.2) ? 0.0 : c.r(LO, HI); if(y != y || std::isinf(y) || y < LO || y > HI) y = x; CALL { d(th::N((real) x)); d(th::N((real) y)); d(th::N((real) z)); }); }
S1(square, -9, 9) S1(cube, -9, 9) S1(sqrt, -1, 90) S1(cbrt, -90, 90) S1(abs, -9, 9) S1(sgn, -9, 9) S1(floor, -9, 99) S1(fract, 0, 99)
S1(log2, -1, 1e4) S1(log10, -1, 1e4) S1(ln, -1, 1e4) S1(exp, -30, 30) S1(expm1, -3, 3) S1(sin, -90, 90) S1(cos, -90, 90) S1(tan, -9, 9) S1(cot, -9, 9)
S1(atan, -90, 90) S1(asin, -1.2, 1.2) S1(acos, -1.2, 1.2) S1(sinh, -9, 9) S1(cosh, -9, 9) S1(tanh, -9, 9) S1(coth, 0.1, 9) S1(asinh, -9, 9) S1(acosh, 0, 9) S1(atanh, -1.2, 1.2)
S1(sigmoid, -9, 9) S1(sinc, -9, 9) S1(heaviside, -9, 9) S1(radians, -999, 999) S1(degrees, -9, 9)
OP(gamma) { double x = c.r(-3, 12), y = c.r(0.1, 30); unsigned k = c.n(1, 15); CALL { d(special::gamma((real) x)); d(special::gamma(k)); d(special::half_gamma(k)); d(special::lngamma(y)); d(special::pi(y / 4)); }); }
OP(beta) { double x = c.r(0.1, 9), y = c.r(0.1, 9); CALL { d(special::beta(x, y)); d(special::beta(y, x)); }); }
OP(extremes) { double x = c.any(), y = c.any(), z = c.x(); int i = (int) c.n(0, 9), j = (int) c.n(0, 9); CALL { d(th::max(x, y)); d(th::min(x, y)); d(th::clamp(z, -2.0, 2.5)); d(th::max(i, j)); d(th::min(i, j)); d(th::clamp(i, 2, 6)); }); }
OP(integer_roots) { uint64_t a = c.g.next() >> c.n(1, 60); uint32_t b = (uint32_t) c.g.next() >> 4; CALL { d(isqrt<uint64_t>(a)); d(isqrt<uint32_t>(b)); d(ilog2<uint64_t>(a | 1)); d(pad2<uint64_t>(a >> 4)); d(icbrt<uint64_t>(a >> 30)); }); }
OP(powers) { double x = c.r(-3, 3); int n = (int) c.n(0, 12) - 5; unsigned m = c.n(0, 12); double a = c.r(-2, 2), y = c.r(0.01, 9); CALL { d(th::pow(x, n)); d(th::ipow(x, m)); d(th::powf(y, a)); d(th::root(y, (int) m + 1)); d(th::root(-y, 3)); }); }
OP(factorials) { unsigned n = c.n(0, 20), m = c.n(0, 12); CALL { d(fact<uint64_t>(n)); d(falling_fact<uint64_t>(20, m)); d(rising_fact<uint64_t>(3, m)); d(double_fact<uint64_t>(n)); d(binomial_coeff<uint64_t>(n + 5, m)); d(catalan<uint64_t>(m)); d(kronecker_delta(n, m)); }); }
#ifdef THEORETICA_X86
OP(logarithm_kernels) { double x = c.r(0.01, 99), y = c.r(-5, 5); CALL { d(fyl2x(x, y)); d(f2xm1(y / 6)); d(exp_x86_norm(y / 6)); }); }
#endif
OP(atan2) { double x = c.x(), y = c.x(); CALL { d(th::atan2(y, x)); d(th::atan2(x, y)); d(th::atan2(-y, x)); }); }
OP(bits) {
	uint64_t a = c.g.next(), b = c.g.next(); unsigned m = c.n(1, 5); vec<real> v = c.dv(1u << m); std::vector<real> w = c.sv(1u << m); c.in(v, w);
	CALL { uint64_t lo, hi; mul_uint128(a, b, lo, hi); d(lo)(hi); d(mix_mum(a, b)); d(bit_rotate<uint64_t>(a, 13)); d(bit_rotate<uint32_t>((uint32_t) b, 7)); vec<real> u = v; swap_bit_reverse(u, m); d(u); std::vector<real> t = w; swap_bit_reverse(t, m); d(t); });
}
// data sets, as vec, vec<N> and std::vector
template<typename V> static void sums(Ctx& c, const V& X, const V& Y, const V& Z) {
	c.in(X, Y, Z);
	CALL { d(product(X)); d(product_sum(X, Y)); d(product_sum_squares(X, Y)); d(product_sum(X, Y, Z)); d(quotient_sum(X, Y)); d(sum_squares(X)); });
	CALL { d(sum_compensated(X)); d(sum_pairwise(X)); d(sum(X)); d(th::max(X)); d(th::min(X)); });
}
OP(sums_dynamic) { unsigned n = c.p(0.2) ? c.n(100, 400) : c.n(1, 12); sums(c, c.dv(n), c.dv(n), c.dv(n)); }
OP(sums_standard) { unsigned n = c.n(1, 40); sums(c, c.sv(n), c.sv(n), c.sv(n)); }
OP(sums_fixed) { sums(c, c.fv<5>(), c.fv<5>(), c.fv<5>()); }
template<typename V> static void means(Ctx& c, const V& X, const V& W) {
	c.in(X, W);
	CALL { d(arithmetic_mean(X)); d(harmonic_mean(X)); d(geometric_mean(X)); d(weighted_mean(X, W)); d(quadratic_mean(X)); });
}
OP(means_dynamic) { unsigned n = c.n(1, 30); means(c, c.dv(n, 0.1, 9), c.dv(n, 0.1, 2)); }
OP(means_standard) { unsigned n = c.n(1, 30); means(c, c.sv(n, 0.1, 9), c.sv(n, 0.1, 2)); }
template<typename V> static void maps(Ctx& c, const V& X) {
	F1 f = c.f(); c.in(X);
	CALL { V u = X; apply(f, u); d(u); });
	CALL { V u = X; map(f, X, u); d(u); });
	CALL { d(map(f, X)); });
}
OP(maps_dynamic) { maps(c, c.dv(c.n(1, 20))); }
OP(maps_standard) { maps(c, c.sv(c.n(1, 20))); }
OP(maps_fixed) { maps(c, c.fv<4>()); }
OP(concatenate) { vec<real> a = c.dv(c.n(0, 9)), b = c.dv(c.n(0, 9)); std::vector<real> s = c.sv(c.n(1, 9)); c.in(a, b, s); CALL { d(concatenate(a, b)); d(concatenate<std::vector<real>, std::vector<real>, std::vector<real>>(s, s)); }); }
OP(ratios) {
	typedef ratio<int, int> Q; Q a(c.n(1, 50), c.n(1, 50)), b(c.n(1, 50), c.n(1, 50));
	CALL { Q r[] = { a * b, a / b, a + b, a - b, a * 3, a / 2 }; for(Q& q : r) { d(q.num); d(q.den); } Q t = a; d(t.eval()); d(t.eval_as<real>()); d((std::string) t); d(a.to_string()); OStr o; o << b; d(o.str()); });
}
OP(error_codes) { CALL { for(int e : { NO_ERROR, DIV_BY_ZERO, OUT_OF_DOMAIN, OUT_OF_RANGE, IMPOSSIBLE_OPERATION, NO_ALGO_CONVERGENCE, INVALID_ARGUMENT }) d(th_errcode_to_errno((MATH_ERRCODE) e)); d(is_nan(th::nan())); d(is_inf(th::inf())); }); }
OP(lambda_is_nan) { double x = c.any(); complex<real> z(c.any(), c.any()); vec<real> v = c.dv(c.n(0, 5)); if(v.size() && c.p(0.5)) v[0] = NAN; c.in(v); CALL { d(is_nan(x)); d(is_nan(z)); d(is_nan(v)); d(is_inf(x)); }); }
