// statistics, regression, histograms, generators, samplers, Monte Carlo
#include "ctx.h"
#include "utility.h"
#define GROUP "statistics"
template<typename V> static void statistics(Ctx& c, const V& X, const V& Y, const V& S) {
	c.in(X, Y, S); unsigned k = c.n(0, 1);
	CALL { d(stats::mean(X)); d(stats::range(X)); d(stats::semidispersion(X)); d(stats::propagate_sum(S)); d(stats::propagate_product(S, Y)); d(stats::total_sum_squares(X)); d(stats::variance(X, k)); real m, v; stats::moments2(X, m, v, k); d(m); d(v); d(stats::stdev(X, k)); d(stats::stdom(X)); d(stats::standard_relative_error(X)); });
	CALL { d(stats::covariance(X, Y, k)); d(stats::correlation_coefficient(X, Y)); d(stats::autocorrelation(X, 1)); d(stats::absolute_deviation(X)); d(stats::skewness(X)); d(stats::kurtosis(X)); d(stats::normalize_z_score(X)); d(stats::z_score(X[0], 1, 2)); });
	CALL { d(stats::chi_square(X, Y, S)); d(stats::chi_square_linear(X, Y, S, 1, 2)); d(stats::reduced_chi_square_linear(X, Y, S, 1, 2)); });
}
OP(statistics_dynamic) { unsigned n = c.sz(4, 20, 400); statistics(c, c.dv(n), c.dv(n, 1, 5), c.dv(n, 0.1, 1)); }
OP(statistics_standard) { unsigned n = c.sz(4, 20, 400); statistics(c, c.sv(n), c.sv(n, 1, 5), c.sv(n, 0.1, 1)); }
OP(statistics_fixed) { statistics(c, c.fv<6>(), c.fv<6>(1, 5), c.fv<6>(0.1, 1)); }
OP(pvalue) { double x = c.r(0.1, 20); unsigned n = c.n(1, 8); CALL { d(stats::pvalue_chi_squared(x, n)); }); }
OP(covariance_matrix) { std::vector<std::vector<real>> v = { c.sv(5), c.sv(5) }; std::vector<vec<real>> w = { c.dv(5), c.dv(5), c.dv(5) }; c.in(v, w); CALL { d(stats::covar_mat<mat<real>, vec<real>>(w)); d(stats::covar_mat<mat<real>, std::vector<real>>(v)); }); }
template<typename V> static void regress(Ctx& c, const V& X, const V& Y, const V& S) {
	c.in(X, Y, S); double s = c.r(0.1, 1);
	CALL { real a, b, sa, sb; mat2 M; regression::ols_linear(X, Y, a, b); d(a)(b); regression::ols_linear(X, Y, s, a, b, sa, sb); d(a)(b)(sa)(sb); regression::ols_linear(X, Y, s, a, b, M); d(M); d(regression::ols_linear_error(X, Y, a, b)); d(regression::ols_linear_intercept(X, Y)); d(regression::ols_linear_slope(X, Y)); d(regression::ols_linear_sigma_A(X, Y, s)); d(regression::ols_linear_sigma_B(X, Y, s)); });
	CALL { real a, b; mat2 M; regression::wls_linear(X, Y, S, a, b, M); d(a)(b); d(M); regression::wls_linear(X, Y, s, s, a, b, M); d(a)(b); regression::ols_linear_orig(X, Y, s, a, b); d(a)(b); regression::wls_linear_orig(X, Y, S, a, b); d(a)(b); d(regression::wls_linear_intercept(X, Y, S)); d(regression::wls_linear_slope(X, Y, S)); });
	CALL { regression::linear_model m(X, Y), m2(X, Y, s), m3(X, Y, S), m4(X, Y, s, s); for(auto* q : { &m, &m2, &m3, &m4 }) { d(q->A); d(q->B); d(q->covar_mat); d(q->chi_squared); d(q->ndf); d(q->p_value); d((*q)(1.5)); d(q->to_string()); } OStr o; o << m2; d(o.str()); });
}
OP(model_refits) { unsigned n = c.n(4, 12); vec<real> X = c.dv(n), Y = c.dv(n), S = c.dv(n, 0.1, 1); double s = c.r(0.1, 1); c.in(X, Y, S); regression::linear_model M(X, Y, s); c.in(M.A, M.B, M.covar_mat); CALL { regression::linear_model q = M; d(q(1.5)); q.fit(X, Y, S); d(q.A); d(q.sigma_B); q.fit(X, Y); d(q.A); d(q.sigma_B); d(q.covar_mat); q.fit(Y, X, s, s); d(q.B); d(q.p_value); d(M.to_string()); }); }
OP(regression_dynamic) { unsigned n = c.n(4, 12); regress(c, c.dv(n), c.dv(n), c.dv(n, 0.1, 1)); }
OP(regression_standard) { unsigned n = c.n(4, 12); regress(c, c.sv(n), c.sv(n), c.sv(n, 0.1, 1)); }
OP(histograms) {
	vec<real> X = c.dv(c.sz(5, 40, 600)); std::vector<real> S = c.sv(c.sz(5, 40, 600)); unsigned b = c.n(1, 9); double x = c.r(-5, 5); c.in(X, S);
	CALL { histogram h(X, b), g(S), k(b, -3, 3); for(unsigned i = 0; i < X.size(); ++i) k.insert(X[i]); for(histogram* q : { &h, &g, &k }) { d(q->bins()); d(q->number()); d(q->max()); d(q->min()); d(q->mean()); d(q->tss()); d((*q)[0]); d((*q)(0.5)); } d(stats::mean(h)); d(stats::variance(g)); d(stats::stdev(k)); d(th::max(h)); d(th::min(h)); d(stats::tss(h)); });
	histogram H(X, b);
	CALL { d(H.bins()); d(H.number()); d(H.index(0.3)); d(H[0]); d(H.max()); d(H.min()); d(H.mean()); d(H.tss()); d(H.to_string()); d(H.to_string(";", false, true)); OStr o; o << H; d(o.str()); histogram u = H; d(u(x)); d(stats::mean(H)); d(stats::variance(H)); });
}
namespace dd = theoretica::distribution;
OP(distributions) {
	double x = c.r(0.05, 0.95), m = c.r(-2, 2), s = c.r(0.3, 3), a = c.r(0.5, 4); unsigned k = c.n(0, 6), n = c.n(6, 12);
	CALL { d(dd::gaussian(x, m, s)); d(dd::bernoulli(k % 2, x)); d(dd::poisson(k, a)); d(dd::binomial(k, n, x)); d(dd::chi_squared(a, k + 1)); d(dd::gamma(a, s, 1.2)); d(dd::beta(x, s, a)); d(dd::student(m, k + 1)); d(dd::log_normal(a, m, s)); d(dd::exponential(a, s)); d(dd::rayleigh(a, s)); d(dd::cauchy(x, m, s)); d(dd::breit_wigner(x, m, s)); d(dd::maxwell(a, s)); d(dd::laplace(x, m, s)); d(dd::pareto(a + 1, 1, s)); d(dd::erlang(a, k + 1, s)); });
	CALL { d(dd::multinomial({ 1, 2, 1 }, 4, 3, { 0.2, 0.5, 0.3 })); });
}
OP(distributions_theta) {
	double x = c.r(0.05, 0.95); vec<real> t = { c.r(0.2, 2), c.r(0.3, 3) }, o = { c.r(0.2, 2) }; c.in(t, o);
	CALL { d(dd::gaussian(x, t)); d(dd::gamma(x, t)); d(dd::beta(x, t)); d(dd::log_normal(x, t)); d(dd::cauchy(x, t)); d(dd::breit_wigner(x, t)); d(dd::laplace(x, t)); d(dd::exponential(x, o)); d(dd::rayleigh(x, o)); d(dd::maxwell(x, o)); d(dd::poisson(2.0, o)); d(dd::student(x, { 3.0 })); d(dd::chi_squared(x, { 3.0 })); });
}
struct Lik { double k; real operator()(real x, const vec<real>& t) const { cb_tick(); return th::exp(-(x - t[0]) * (x - t[0]) * k) + 0.01; } };
OP(likelihood) { vec<real> X = c.dv(c.sz(1, 12, 200)), t = { c.r(-1, 1) }; Lik f{ c.r(0.1, 1) }; c.in(X, t); CALL { d(stats::likelihood(X, t, f)); d(stats::log_likelihood(X, t, f)); }); }
// generators and samplers: the generator is copied inside the call
OP(generator_words) { PRNG p = c.rng(); uint64_t sd = 1 + c.g.below(1u << 20); CALL { PRNG q = p; for(int i = 0; i < 4; ++i) d(q()); q.discard(3); d(q.next()); d(q.last()); d(q.get_param()); q.seed(sd); d(q()); PRNG r(q.get_function(), q.last(), q.get_param()); d(r()); std::vector<uint64_t> st = q.get_param(); d(st); }); }
OP(generator_const) { PRNG p = c.rng(); CALL { d(p.last()); d(p.get_param()); d(p.get_function() != nullptr); PRNG q(p); d(q()); }); }
OP(recurrences) { uint64_t a = c.g.next(), b = c.g.next(), e = c.g.next(), f = c.g.next(); CALL { uint64_t s0 = a, s1 = b, s2 = e, s3 = f; d(randgen_xoshiro(s0, s1, s2, s3)); d(randgen_splitmix64(a)); uint64_t s = a; d(randgen_wyrand(s, b, e)); d(randgen_middlesquare(a, b)); d(randgen_congruential(a >> 33)); std::vector<uint64_t> st = { a, b, e, f }; d(randgen_xoshiro(0, st)); d(st); }); }
OP(samplers) { PRNG p = c.rng(); double m = c.r(-2, 2), s = c.r(0.3, 3); CALL { PRNG q = p; d(rand_uniform(m, m + s, q)); d(rand_cointoss(q)); d(rand_diceroll(6, q)); d(rand_gaussian(m, s, q)); d(rand_gaussian_polar(m, s, q)); d(rand_gaussian_boxmuller(m, s, q)); d(rand_gaussian_clt(m, s, q)); d(rand_gaussian_clt(m, s, q, 7)); d(rand_exponential(s, q)); d(rand_rayleigh(s, q)); d(rand_cauchy(m, s, q)); d(rand_laplace(m, s, q)); d(rand_pareto(s, 2, q)); }); }
OP(sampler_objects) {
	PRNG p = c.rng(); double m = c.r(-2, 2), s = c.r(0.3, 3); unsigned n = c.n(0, 9);
	CALL { PRNG q = p; pdf_sampler a = pdf_sampler::gaussian(m, s, q), b = pdf_sampler::uniform(m, m + s, q), e = pdf_sampler::exponential(s, q), f = pdf_sampler::cauchy(m, s, q), g = pdf_sampler::rayleigh(s, q), h = pdf_sampler::pareto(s, 2, q), k = pdf_sampler::laplace(m, s, q); for(pdf_sampler* w : { &a, &b, &e, &f, &g, &h, &k }) { d(w->next()); d((*w)()); } vec<real> v; v.resize(n); a.fill(v); d(v); std::vector<real> u(n + 1); k.fill(u, n); for(unsigned i = 0; i < n; ++i) d(u[i]); });
}
OP(rejection) { PRNG p = c.rng(); vec<real> t = { c.r(0.5, 2) }; Lik f{ c.r(0.5, 2) }; F1 dn = c.f(), qf = c.f(); dn.kind = 0; dn.a = 1.1; dn.b = 0; dn.c = 0; qf.kind = 0; qf.a = -2; qf.b = 4; qf.c = 0; c.in(t); CALL { PRNG q = p; d(rand_trycatch(f, t, -2, 3, 0, 1.1, q)); d(rand_rejectsamp(f, t, dn, qf, q)); }); }
OP(metropolis) { PRNG p = c.rng(); F1 f = c.f(); f.kind = 2; f.a = 1; f.c = 0.01; double x = c.r(-1, 1); unsigned n = c.sz(1, 30, 200); CALL { PRNG q = p; pdf_sampler s = pdf_sampler::gaussian(0, 0.5, q); d(metropolis(f, s, x, q, n)); d(metropolis(f, s, x, n)); }); }
static double mc3(vec<real, 3> v) { cb_tick(); return v[0] * v[1] + v[2]; }
static double mc2(double x, double y) { cb_tick(); return x * y * 0.4 + 0.1; }
struct Mc { double k; real operator()(const vec<real>& v) const { cb_tick(); return v[0] * k + v[v.size() - 1]; } };
OP(monte_carlo) {
	PRNG p = c.rng(); F1 f = c.f(), g = c.f(), q = c.f(); g.kind = 0; g.a = 1; g.b = 0; g.c = 0; q.kind = 0; q.a = 0; q.b = 1; q.c = 0; double a = c.r(-2, 0), b = c.r(0.5, 2); unsigned n = c.n(1, 30); vec<vec2, 3> ex; for(int i = 0; i < 3; ++i) ex[i] = vec2({ a, b }); c.in(ex);
	CALL { PRNG r = p; d(integral_crude(f, a, b, r, n)); d(integral_hom(f, a, b, 2, r, n)); d(integral_hom(f, a, b, -3, 3, r, n)); d(integral_hom_2d(mc2, 0, 1, 0, 1, 1, r, n)); d(integral_impsamp(f, g, q, r, n)); d(integral_crude<3>(mc3, ex, r, n)); });
	CALL { d(integral_quasi_crude(f, a, b, n)); d(integral_quasi_hom(f, a, b, 2, n)); d(integral_quasi_hom(f, a, b, -3, 3, n)); d(integral_quasi_impsamp(f, g, q, n)); d(integral_quasi_crude<3>(mc3, ex, n)); });
	Mc h{ c.r(-1, 1) };
	CALL { PRNG r = p; std::vector<pdf_sampler> rv = { pdf_sampler::gaussian(0, 1, r), pdf_sampler::uniform(0, 1, r) }; d(sample_mc(h, rv, n)); d(stats::error_propagation_mc(h, rv, n + 2)); });
}
OP(quasirandom) { unsigned n = c.n(0, 500); double x = c.r(0, 1); CALL { d(qrand_weyl(n)); d(qrand_weyl_recurr(x)); d(qrand_weyl_multi<3>(n, x)); d(qrand_weyl2(n)); }); }
OP(shuffles) { PRNG p = c.rng(); vec<real> v = c.dv(c.sz(1, 9, 40)); std::vector<real> s = c.sv(c.sz(1, 9, 40)); unsigned k = c.n(1, 20); c.in(v, s); CALL { PRNG q = p; vec<real> u = v; shuffle(u, q); d(u); std::vector<real> t = s; shuffle(t, q, k); d(t); }); }
OP(text_input) { std::string s; for(unsigned i = c.sz(0, 6, 80); i; --i) s += fmt(c.x()) + "\n"; if(c.p(0.5)) s += "END\n1\n"; c.in(s); CALL { IStr in(s); vec<real> v = readln(in, "END"); d(v); }); }
OP(text_output) { vec3 v = c.fv<3>(); complex<real> z = c.z(); polynomial<real> q = c.poly(3); double x = c.x(); c.in(v, z, q); CALL { OStr o; fprint(o, v); fprintln(o, x, z, q); fprint(o, "a", 3, v); d(o.str()); }); }
