// objects that are changed in place
#include "ctx.h"
#define GROUP "objects"
using namespace theoretica::algebra;
OP(vec_grow) {
	unsigned n = c.sz(0, 6, 200), k = c.sz(0, 12, 300); vec<real> a = c.dv(n), b = c.dv(k); double x = c.x(); std::vector<real> s = c.sv(k); c.in(a, b, s);
	c.change(a, [&](vec<real>& v) { v.resize(k); if(k > n) v[n] = x; for(unsigned i = n; i < k; ++i) v[i] = x; });
	c.change(a, [&](vec<real>& v) { v.push(x); });
	c.change(a, [&](vec<real>& v) { v = b; });
	c.change(vec<real>(), [&](vec<real>& v) { v = b; });
	c.change(a, [&](vec<real>& v) { algebra::vec_copy(v, b); });
	c.change(a, [&](vec<real>& v) { v = s; });
	if(k) { c.change(b, [&](vec<real>& v) { v += b; }); c.change(b, [&](vec<real>& v) { v = v * x; }); c.change(b, [&](vec<real>& v) { algebra::make_normalized(v); }); }
}
OP(vec_grow_nested) {
	unsigned n = c.n(0, 4), k = c.sz(1, 6, 40); vec<vec<real>> a; for(unsigned i = 0; i < n; ++i) a.push(c.dv(c.n(1, 5))); vec<real> b = c.dv(k); vec<polynomial<real>> q; q.push(c.poly(3)); polynomial<real> p = c.poly(c.n(0, 6)); c.in(b, p);
	c.change(a, [&](vec<vec<real>>& v) { v.push(b); });
	c.change(q, [&](vec<polynomial<real>>& v) { v.push(p); });
}
OP(mat_grow) {
	unsigned n = c.sz(1, 5, 20), k = c.sz(1, 5, 20), r = c.sz(1, 6, 24), s = c.sz(1, 6, 24); mat<real> A = c.dm(n, k), B = c.dm(r, s), e, S = c.dm(n, n, 7), T = c.dm(n, n, 7), C = c.dm(k, s); vec<real> v = c.dv(n); double x = c.r(0.5, 2); c.in(A, B, S, T, C, v);
	c.change(e, [&](mat<real>& m) { m.resize(r, s); algebra::mat_zeroes(m); });
	c.change(A, [&](mat<real>& m) { m.resize(n, k + 2); for(unsigned i = 0; i < n; ++i) { m(i, k) = x; m(i, k + 1) = -x; } });
	c.change(A, [&](mat<real>& m) { m.resize(n + 3, k); for(unsigned i = n; i < n + 3; ++i) for(unsigned j = 0; j < k; ++j) m(i, j) = x; });
	c.change(A, [&](mat<real>& m) { m.resize(n, 1); });
	c.change(A, [&](mat<real>& m) { m = B; });
	c.change(e, [&](mat<real>& m) { m = B; });
	c.change(B, [&](mat<real>& m) { algebra::mat_copy(m, A); });
	c.change(e, [&](mat<real>& m) { algebra::mat_copy(m, A); });
	c.change(S, [&](mat<real>& m) { m *= T; });
	c.change(S, [&](mat<real>& m) { m += T; });
	c.change(S, [&](mat<real>& m) { m.transpose(); });
	c.change(A, [&](mat<real>& m) { m = algebra::transpose(m); });
	c.change(S, [&](mat<real>& m) { m.invert(); });
	c.change(B, [&](mat<real>& m) { algebra::inverse(m, S); });
	c.change(B, [&](mat<real>& m) { m.resize(n, s); algebra::mat_mul(m, A, C); });
	c.change(B, [&](mat<real>& m) { m.resize(k, n); algebra::transpose(m, A); });
	c.change(v, [&](vec<real>& u) { algebra::apply_transform(S, u); });
	c.change(v, [&](vec<real>& u) { u = algebra::solve(S, u); });
	c.change(S, [&](mat<real>& m) { algebra::decompose_lu_inplace(m); });
}
OP(mat_destinations) {
	unsigned n = c.sz(1, 5, 12); mat<real> A = c.dm(n, n, 8), e, w = c.dm(2, 3); vec<real> v = c.dv(n); c.in(A, v);
	struct Two { mat<real> L, U; }; Two t; if(c.p(0.5)) { t.L = w; t.U = A; }
	CALL {
		Two o = t;
		try { algebra::decompose_lu(A, o.L, o.U); }
		catch(const std::bad_alloc&) { if(!ctx_memory_back(c)) throw; d(o.L); d(o.U); algebra::decompose_lu(A, o.L, o.U); Two q = t; algebra::decompose_lu(A, q.L, q.U); if(dig(o.L, o.U) != dig(q.L, q.U)) { Unwatched u; VIOL("object-after-failure", "the factors whose computation ran out of memory, computed again, are other ones"); } throw; }
		d(o.L); d(o.U);
	});
}
OP(poly_grow) {
	polynomial<real> a = c.poly(c.sz(0, 6, 60)), b = c.poly(c.sz(0, 9, 60)), z; double k = c.r(0.5, 2); c.in(a, b);
	c.change(a, [&](polynomial<real>& p) { p += b; });
	c.change(a, [&](polynomial<real>& p) { p -= b; });
	c.change(a, [&](polynomial<real>& p) { p *= b; });
	c.change(a, [&](polynomial<real>& p) { p = b; });
	c.change(z, [&](polynomial<real>& p) { p = a; });
	c.change(a, [&](polynomial<real>& p) { p *= k; p /= k; });
	c.change(a, [&](polynomial<real>& p) { p = p + p * b; });
	c.change(a, [&](polynomial<real>& p) { p = deriv(p); });
	c.change(a, [&](polynomial<real>& p) { p = integral(p); });
}
OP(spline_refit) {
	unsigned n = c.sz(3, 8, 40), m = c.sz(3, 8, 40); std::vector<vec2> u(n), v(m); std::vector<real> X(m), Y(m); double x = -4; for(unsigned i = 0; i < n; ++i) { x += c.r(0.1, 2); u[i] = vec2{ x, c.r(-3, 3) }; } x = -4; for(unsigned i = 0; i < m; ++i) { x += c.r(0.1, 2); v[i] = vec2{ x, c.r(-3, 3) }; X[i] = x; Y[i] = v[i][1]; }
	c.in(u, v, X, Y);
	spline s(u);
	c.change(s, [&](spline& q) { q = spline(v); });
	c.change(s, [&](spline& q) { q = spline(X, Y); });
}
