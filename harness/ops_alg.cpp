// algebra: vectors, matrices, decompositions, distances, transformations
#include "ctx.h"
#define GROUP "algebra"
using namespace theoretica::algebra;
template<typename V> static void vec_ops(Ctx& c, const V& a, const V& b) {
	double k = c.r(0.5, 3); c.in(a, b);
	CALL { d(+a); d(-a); d(a + b); d(a - b); d(a * k); d(k * a); d(a / k); });
	CALL { d(a.dot(b)); d(a * b); d(a.norm()); d(a.sqr_norm()); d(a.normalized()); d(a == b); d(a != b); d(a == a); });
	CALL { V u = a; u += b; d(u); u -= a; d(u); u *= k; d(u); u.normalize(); d(u); });
	CALL { V u; u = a; u[0] = 3; u.set(1, 4); u.at(2) = 5; d(u); d(u.get(0)); V w(u); d(w); for(auto x : a) d((double) x); });
	CALL { d(a.to_string()); d(b.to_string("; ", false)); OStr o; o << a; d(o.str()); V u = b; d((std::string) u); });
}
OP(vec_dynamic) { unsigned n = c.sz(3, 9, 300); vec_ops(c, c.dv(n), c.dv(n)); }
OP(vec_fixed3) { vec_ops(c, c.fv<3>(), c.fv<3>()); }
OP(vec_fixed7) { vec_ops(c, c.fv<7>(), c.fv<7>()); }
OP(vec_cross) { vec3 a = c.fv<3>(), b = c.fv<3>(); vec<real> u = c.dv(3), v = c.dv(3); c.in(a, b, u, v); CALL { d(a.cross(b)); d(algebra::cross(a, b)); d(u.cross(v)); d(algebra::cross(u, v)); }); }
OP(vec_build) {
	double a = c.r(-3, 3); unsigned n = c.sz(1, 9, 300); vec<real> s = c.dv(n); c.in(s);
	CALL { vec<real> u(n, a); d(u); vec<real> w(n); d(w.size()); u.resize(n + 3); d(u.size()); for(unsigned i = 0; i < n; ++i) d(u[i]); u.resize(1); d(u); u.push(a); real q = a + 1; u.push(q); d(u); vec<real, 4> f(a); d(f); vec<real> g(f); d(g); vec<real> e = { 1, a, 3 }; d(e); d(vec<real>::euclidean_base(0, n)); d(vec<real, 4>::euclidean_base(2)); });
	CALL { vec<real> u; u = s; d(u); vec<real> v = s; vec<real> w = std::move(v); d(w); std::vector<vec<real>> many(4, s); many.push_back(s); d(many); vec<vec<real>> nest; nest.push(s); nest.push(s); d(nest); });
}
OP(vec_complex) {
	cvec a, b; for(unsigned i = c.sz(1, 5, 100); i; --i) { a.push(c.z()); b.push(c.z()); } c.in(a, b); complex<real> k = c.z();
	CALL { d(a + b); d(a - b); d(a * k); d(-a); d(a.dot(b)); d(algebra::dot(a, b)); d(a.to_string()); d(hermitian_distance(a, b)); });
}
template<typename V> static void vec_alg(Ctx& c, const V& a, const V& b) {
	double k = c.r(0.5, 3); c.in(a, b);
	CALL { d(algebra::sqr_norm(a)); d(algebra::norm(a)); d(algebra::normalize(a)); d(algebra::dot(a, b)); V u = a; algebra::make_normalized(u); d(u); });
	CALL { V u = a; algebra::vec_scalmul(k, u); d(u); V w = a; algebra::vec_scalmul(w, k, b); d(w); algebra::vec_sum(u, b); d(u); algebra::vec_diff(u, a); d(u); algebra::vec_sum(w, a, b); d(w); algebra::vec_diff(w, a, b); d(w); algebra::vec_copy(w, a); d(w); algebra::vec_zeroes(w); d(w); });
	CALL { d(lp_norm(a, 3)); d(l1_norm(a)); d(l2_norm(a)); d(linf_norm(a)); d(euclidean_distance(a, b)); d(minkowski_distance(a, b, 3)); d(manhattan_distance(a, b)); d(chebyshev_distance(a, b)); d(discrete_distance(a, b)); d(canberra_distance(a, b)); d(cosine_distance(a, b)); d(hamming_distance(a, b)); });
}
OP(vec_algebra_dynamic) { unsigned n = c.sz(1, 9, 300); vec_alg(c, c.dv(n), c.dv(n)); }
OP(vec_algebra_fixed) { vec_alg(c, c.fv<4>(), c.fv<4>()); }
OP(distances) { double a = c.x(), b = c.x(); complex<real> z = c.z(), w = c.z(); vec3 u = c.fv<3>(), v = c.fv<3>(); c.in(u, v); CALL { d(euclidean_distance(a, b)); d(distance(a, b)); d(minkowski_distance(a, b, 2)); d(distance(z, w)); d(distance(u, v)); }); }
template<typename M> static void mat_ops(Ctx& c, const M& A, const M& B) {
	double k = c.r(0.5, 3); c.in(A, B);
	CALL { d(A + B); d(A - B); d(A * k); d(k * A); d(A / k); d(A == B); d(A != B); d(A == A); d(A.rows()); d(A.cols()); d(A.size()); });
	CALL { M u = A; u += B; d(u); u -= A; d(u); u *= k; d(u); u /= k; d(u); u.at(0, 1) = 5; u(1, 0) = 4; d(u); d(u.get(0, 0)); u.make_zeroes(); d(u); });
	CALL { M u(A); M w; w = u; d(w); M v = std::move(u); d(v); double s = 0; for(auto x : A) s += x; d(s); std::vector<M> many(3, A); many.push_back(B); d(many); });
	CALL { d(A.to_string()); d(B.to_string("; ", false)); OStr o; o << A; d(o.str()); M u = A; d((std::string) u); });
	CALL { d(algebra::is_square(A)); d(algebra::is_diagonal(A)); d(algebra::is_symmetric(A)); d(algebra::is_lower_triangular(A)); d(algebra::is_upper_triangular(A)); d(algebra::density(A)); d(algebra::sparsity(B)); d(algebra::mat_equals(A, B)); d(algebra::mat_equals(A, A)); });
	CALL { M u = A; algebra::mat_scalmul(k, u); d(u); algebra::mat_scalmul(u, k, B); d(u); algebra::mat_sum(u, A, B); d(u); algebra::mat_diff(u, A, B); d(u); algebra::mat_copy(u, B); d(u); algebra::mat_swap_rows(u, 0, 1); d(u); algebra::mat_swap_cols(u, 0, 1); d(u); algebra::mat_zeroes(u); d(u); algebra::mat_lincomb(u, k, A, -k, B); d(u); algebra::mat_lincomb(2.0, u, k, B); d(u); });
}
OP(mat_dynamic) { unsigned n = c.sz(2, 5, 20), k = c.sz(2, 5, 20); mat_ops(c, c.dm(n, k), c.dm(n, k)); }
OP(mat_fixed22) { mat_ops(c, c.fm<2, 2>(), c.fm<2, 2>()); }
OP(mat_fixed34) { mat_ops(c, c.fm<3, 4>(), c.fm<3, 4>()); }
template<typename M, typename V> static void mat_square(Ctx& c, const M& A, const M& B, const V& v) {
	c.in(A, B, v);
	CALL { d(A * B); d(A * v); d(A.transform(v)); d(algebra::transform(A, v)); V u = v; algebra::apply_transform(A, u); d(u); d(algebra::mat_mul(A, B)); M R = A; algebra::mat_mul(R, A, B); d(R); d(algebra::mat_transpose_mul(A, B)); d(algebra::mat_mul_transpose(A, B)); M q = A; q *= B; d(q); });
	CALL { d(algebra::transpose(A)); d(algebra::hermitian(A)); M u = A; algebra::make_transposed(u); d(u); u.transpose(); d(u); algebra::make_hermitian(u); d(u); algebra::transpose(u, B); d(u); d(algebra::trace(A)); d(algebra::diagonal_product(A)); });
	CALL { d(algebra::inverse(A)); M u = A; algebra::invert(u); d(u); M w = B; w.invert(); d(w); algebra::inverse(u, B); d(u); d(algebra::det(A)); });
	CALL { M L = A, U = A; algebra::decompose_lu(A, L, U); d(L); d(U); d(algebra::solve_lu(L, U, v)); M w = A; algebra::decompose_lu_inplace(w); d(w); V u = v; algebra::solve_lu_inplace(w, u); d(u); d(algebra::solve_lu(A, v)); d(algebra::solve(A, v)); });
	CALL { M u = A; algebra::mat_shift_diagonal(u, 2.5); d(u); algebra::make_identity(u); d(u); d(algebra::rayleigh_quotient(A, v)); });
}
OP(square_dynamic) { unsigned n = c.sz(2, 5, 12); mat_square(c, c.dm(n, n, 6), c.dm(n, n, 6), c.dv(n)); }
OP(square_fixed2) { mat_square(c, c.fm<2, 2>(6), c.fm<2, 2>(6), c.fv<2>()); }
OP(square_fixed4) { mat_square(c, c.fm<4, 4>(8), c.fm<4, 4>(8), c.fv<4>()); }
OP(singular) { unsigned n = c.n(2, 4); mat<real> A = c.dm(n, n); for(unsigned j = 0; j < n; ++j) A(1, j) = A(0, j); vec<real> v = c.dv(n); c.in(A, v); CALL { d(algebra::det(A)); d(algebra::inverse(A)); }); CALL { d(algebra::solve(A, v)); }); }
template<typename M, typename V> static void mat_spd(Ctx& c, M& A, const V& b) {
	c.spd(A); c.in(A, b);
	CALL { M L = algebra::decompose_cholesky(A); d(L); d(algebra::solve_cholesky(L, b)); d(algebra::solve_triangular_lower(L, b)); d(algebra::solve_triangular(L, b)); M U = algebra::transpose(L); d(algebra::solve_triangular_upper(U, b)); d(algebra::solve_triangular(U, b)); M w = A; algebra::decompose_cholesky_inplace(w); d(w); });
}
OP(cholesky_dynamic) { unsigned n = c.sz(1, 5, 12); mat<real> A(n, n); vec<real> b = c.dv(n); mat_spd(c, A, b); }
OP(cholesky_fixed) { mat<real, 3, 3> A; vec<real, 3> b = c.fv<3>(); mat_spd(c, A, b); }
template<typename M, typename V> static void mat_eigen(Ctx& c, M& A, const V& x) {
	c.spd(A); double l = c.r(3, 9); unsigned it = c.n(5, 60); c.in(A, x);
	CALL { d(algebra::eigenvalue_power(A, x, 1e-6, it)); V v = x; d(algebra::eigenpair_power(A, x, v, 1e-6, it)); d(v); });
	CALL { d(algebra::eigenvalue_inverse(A, x, 1e-6, it)); V v = x; d(algebra::eigenpair_inverse(A, x, v, 1e-6, it)); d(v); d(algebra::eigenvector_inverse(A, l, x, 1e-6, it)); });
	CALL { d(algebra::eigenvalue_rayleigh(A, l, x, 1e-6, it)); V v = x; d(algebra::eigenpair_rayleigh(A, l, x, v, 1e-6, it)); d(v); });
}
OP(eigen_dynamic) { unsigned n = c.n(2, 4); mat<real> A(n, n); vec<real> x = c.dv(n, 0.1, 2); mat_eigen(c, A, x); }
OP(eigen_fixed) { mat<real, 3, 3> A; vec<real, 3> x = c.fv<3>(0.1, 2); mat_eigen(c, A, x); }
OP(mat_mixed) {
	unsigned n = c.sz(2, 4, 18), k = c.sz(2, 4, 18), m = c.sz(2, 4, 18); mat<real> A = c.dm(n, k), B = c.dm(k, m); mat<real, 2, 3> F = c.fm<2, 3>(); mat<real, 3, 4> G = c.fm<3, 4>(); vec<real, 3> f = c.fv<3>(); vec<real> v = c.dv(k), w = c.dv(n); c.in(A, B, F, G, f, v, w);
	CALL { d(A * B); d(A * v); d(w * A); d(F * G); d(F * f); d(F.mul(G)); mat<real> T = algebra::transpose(A); d(T); d(algebra::mat_mul(A, B)); mat<real> z; z.resize(n, m); d(z.rows()); d(z.cols()); });
	CALL { mat<real> X = { { 1, 2 }, { 3, 4 } }; d(X); mat<real, 2, 2> Y = { { 1, 2 }, { 3, 4 } }; d(Y); mat<real> I(2.0, n, n); d(I); mat<real, 3, 3> J(3.0); d(J); X = A; d(X); });
}
OP(mat_complex) { mat<complex<real>> A(2, 2), B(2, 2); for(int i = 0; i < 2; ++i) for(int j = 0; j < 2; ++j) { A(i, j) = c.z(); B(i, j) = c.z(); } c.in(A, B); CALL { d(A + B); d(A * B); d(algebra::hermitian(A)); d(algebra::transpose(A)); d(algebra::trace(A)); d(A.to_string()); }); }
OP(transforms) {
	double t = c.r(-6, 6), a = c.r(0.2, 2); vec3 v = c.fv<3>(), w = c.fv<3>(), u = c.fv<3>(); unsigned n = c.n(2, 5); vec<real> x = c.dv(n); c.in(v, w, u, x);
	CALL { d(algebra::identity<mat<real, 3, 3>>()); d(algebra::identity<mat<real>>(n, n)); d(algebra::diagonal<mat<real, 3, 3>>(v)); d(algebra::diagonal<mat<real>>(x, n, n)); d(algebra::translation<mat4>(v)); d(algebra::translation<mat<real>>(v, 4, 4)); });
	CALL { d(algebra::rotation_2d<mat2>(t)); d(algebra::rotation_3d<mat3>(t, v)); d(algebra::rotation_3d_xaxis<mat3>(t)); d(algebra::rotation_3d_yaxis<mat3>(t)); d(algebra::rotation_3d_zaxis<mat3>(t)); d(algebra::rotation_3d<mat<real>>(t, v, 3, 3)); });
	CALL { d(algebra::perspective<mat4>(-a, a, -1, 1, 0.5, 9)); d(algebra::perspective_fov<mat4>(a, 1.3, 0.5, 9)); d(algebra::ortho<mat4>(-a, a, -1, 1, 0.5, 9)); d(algebra::look_at<mat4>(v, w, u)); d(algebra::symplectic<mat<real>>(4, 4)); d(algebra::symplectic<mat4>()); d(algebra::hilbert<mat<real>>(n)); d(algebra::hilbert<mat3>()); d(algebra::sphere_inversion(v, w, a)); });
}
