// C21: linear algebra. A session keeps its destination objects from call to
// call, so that each routine meets whatever the previous one (or a call that
// ran out of memory) left in them; a system must be solved, factors must
// multiply back, an inverse must invert and an eigenpair must be one.
#include "ops.h"
#include <complex>
enum { K_SESS, K_CALLS, K_FAULT, K_LU, K_CHOL, K_SOLVE, K_TRI, K_INV, K_DET, K_TRANSF, K_PROD, K_TRANSP, K_COMB, K_NORM, K_EIG, K_EIGFAIL, K_CPLX, K_FIXED, K_STALE };
namespace sim {
const char* PROPERTY = "C21"; const char* VARIANT = "default";
const char* CTR_NAMES[] = { "sessions", "calls", "allocation_failures_injected", "lu_factorisations", "cholesky_factorisations", "systems_solved", "triangular_systems", "inverses", "determinants", "transformations", "products", "transpositions", "combinations", "norms_and_products_of_vectors", "eigenpairs", "eigenpairs_not_found", "complex_sessions", "fixed_size_sessions", "destinations_with_old_contents", nullptr };
}
using namespace sim;
typedef std::complex<long double> CL;
static CL val(real x) { return CL(x, 0); }
static CL val(const complex<real>& z) { return CL(z.a, z.b); }
template<typename E> static E elem(Rng& g, double lo, double hi); 
template<> real elem<real>(Rng& g, double lo, double hi) { return g.real(lo, hi); }
template<> complex<real> elem<complex<real>>(Rng& g, double lo, double hi) { double a = g.real(lo, hi); return complex<real>(a, g.real(lo, hi)); }
struct RM { unsigned r = 0, c = 0; std::vector<CL> v; RM() { } RM(unsigned a, unsigned b) : r(a), c(b), v(a * b) { } CL& at(unsigned i, unsigned j) { return v[i * c + j]; } const CL& at(unsigned i, unsigned j) const { return v[i * c + j]; } };
typedef std::vector<CL> RV;
template<typename M> static RM get(const M& m) { RM r(m.rows(), m.cols()); for(unsigned i = 0; i < r.r; ++i) for(unsigned j = 0; j < r.c; ++j) r.at(i, j) = val(m(i, j)); return r; }
template<typename V> static RV getv(const V& v) { RV r(v.size()); for(unsigned i = 0; i < r.size(); ++i) r[i] = val(v[i]); return r; }
static long double mag(const RM& m) { long double s = 0; for(auto& e : m.v) s = std::max(s, std::abs(e)); return s; }
static long double magv(const RV& m) { long double s = 0; for(auto& e : m) s = std::max(s, std::abs(e)); return s; }
static RM mul(const RM& a, const RM& b) { RM r(a.r, b.c); for(unsigned i = 0; i < a.r; ++i) for(unsigned j = 0; j < b.c; ++j) { CL s = 0; for(unsigned k = 0; k < a.c; ++k) s += a.at(i, k) * b.at(k, j); r.at(i, j) = s; } return r; }
static RV mulv(const RM& a, const RV& b) { RV r(a.r); for(unsigned i = 0; i < a.r; ++i) { CL s = 0; for(unsigned k = 0; k < a.c; ++k) s += a.at(i, k) * b[k]; r[i] = s; } return r; }
static RM tr(const RM& a, bool conj) { RM r(a.c, a.r); for(unsigned i = 0; i < a.r; ++i) for(unsigned j = 0; j < a.c; ++j) r.at(j, i) = conj ? std::conj(a.at(i, j)) : a.at(i, j); return r; }
static bool near(const RM& a, const RM& b, long double tol) { if(a.r != b.r || a.c != b.c) return false; for(size_t i = 0; i < a.v.size(); ++i) if(!(std::abs(a.v[i] - b.v[i]) <= tol)) return false; return true; }
static bool nearv(const RV& a, const RV& b, long double tol) { if(a.size() != b.size()) return false; for(size_t i = 0; i < a.size(); ++i) if(!(std::abs(a[i] - b[i]) <= tol)) return false; return true; }
static bool same(const RM& a, const RM& b) { return a.r == b.r && a.c == b.c && a.v == b.v; }
#define BAD(CLS, ...) VIOL(CLS, __VA_ARGS__)

struct S { OpCall& c; bool hungry; const char* what; };
// false if memory ran out
template<typename F> static bool attempt(S& s, const char* what, F f) {
	bool armed; { Unwatched u; s.what = what; count(K_CALLS); armed = s.hungry && s.c.g.chance(0.25); errno = 0; if(armed) alloc_fault_at(1 + s.c.g.below(4), 1); }
	int got = 0;
	try { f(); } catch(const std::bad_alloc&) { got = 1; } catch(...) { got = 2; }
	Unwatched u; uint64_t fired = armed ? alloc_faults_fired() : 0; if(armed) alloc_fault_at(0, 0);
	if(fired) count(K_FAULT);
	if(got == 2 || (got == 1 && !fired)) BAD("exception", "%s threw an exception", what);
	return !got;
}
template<typename M> static void dims(M& m, unsigned r, unsigned c) { m.resize(r, c); }
enum { GENERAL, SPD, LOWER, UPPER, SYMM };
template<typename E, typename M> static void fill(M& m, Rng& g, int kind) {
	unsigned n = m.rows();
	for(unsigned i = 0; i < n; ++i) for(unsigned j = 0; j < m.cols(); ++j) {
		E x = g.chance(0.15) ? E(0.0) : elem<E>(g, -1, 1);
		if(kind == LOWER && j > i) x = E(0.0);
		if(kind == UPPER && j < i) x = E(0.0);
		m(i, j) = x; if((kind == SPD || kind == SYMM) && j < i) m(i, j) = m(j, i);
	}
	if(kind != SYMM) for(unsigned i = 0; i < n && i < m.cols(); ++i) m(i, i) = E((kind == SPD || g.chance(0.7) ? 1 : -1) * (1.5 * n + g.real(0, 2)));
	double sc = std::ldexp(1.0, g.chance(0.7) ? 0 : (int) g.range(-8, 8)); for(unsigned i = 0; i < n; ++i) for(unsigned j = 0; j < m.cols(); ++j) m(i, j) = m(i, j) * E(sc);
}
template<typename E, typename V> static void fillv(V& v, Rng& g) { for(unsigned i = 0; i < v.size(); ++i) v[i] = elem<E>(g, -4, 4); }
static bool isreal(const real&) { return true; } static bool isreal(const complex<real>&) { return false; }
template<typename M, typename V> static bool cholesky(S&, M&, M&, M&, V&, V&, complex<real>) { return false; }
template<typename M, typename V> static bool cholesky(S& s, M& A, M& L, M& U, V& b, V& x, real) {
	Rng& g = s.c.g; fill<real>(A, g, SPD); fillv<real>(b, g); int f = (int) g.below(3);
	RM* a; RV* rb; { Unwatched u; a = new RM(get(A)); rb = new RV(getv(b)); count(K_CHOL); }
	bool ok = attempt(s, "decompose_cholesky", [&] { if(f == 0) L = algebra::decompose_cholesky(A); else { L = A; algebra::decompose_cholesky_inplace(L); } if(f == 2) x = algebra::solve_cholesky(L, b); });
	Unwatched u; long double sc = mag(*a), n = a->r + 1;
	if(!same(get(A), *a)) BAD("operand-changed", "decompose_cholesky changed its operand");
	if(ok) {
		RM l = get(L); for(unsigned i = 0; i < l.r; ++i) for(unsigned j = i + 1; j < l.c; ++j) if(l.at(i, j) != CL(0)) BAD("factors", "the Cholesky factor of a %u x %u matrix is not lower triangular", a->r, a->c);
		if(!near(mul(l, tr(l, true)), *a, 1e-11L * sc * n)) BAD("factors", "the Cholesky factors of a %u x %u matrix do not multiply back to it", a->r, a->c);
		if(f == 2 && !nearv(mulv(*a, getv(x)), *rb, 1e-10L * n * (magv(*rb) + sc * magv(getv(x))))) BAD("system", "solve_cholesky of a %u x %u system: the residual is not null", a->r, a->c);
	}
	delete a; delete rb; return true;
}
template<typename M, typename V> static bool eigen(S&, M&, V&, V&, complex<real>) { return false; }
template<typename M, typename V> static bool eigen(S& s, M& A, V& b, V& x, real) {
	Rng& g = s.c.g; fill<real>(A, g, SYMM); fillv<real>(b, g); int f = (int) g.below(7); double mu = 0, lam = 0; unsigned n = A.rows(); bool pair = f != 0 && f != 2 && f != 4, vec = f == 6; if(f >= 4) mu = g.real(-2, 2);
	bool shift = f < 4 && g.chance(0.6); if(shift) for(unsigned i = 0; i < n; ++i) A(i, i) = A(i, i) + (i + 1.0) * n;
	unsigned iter = g.chance(0.2) ? (unsigned) g.range(1, 5) : 100;
	RM* a; { Unwatched u; a = new RM(get(A)); for(unsigned i = 0; i < x.size(); ++i) x[i] = 0.25 * i; }
	bool ok = attempt(s, "an eigensolver", [&] { switch(f) {
		case 0: lam = algebra::eigenvalue_power(A, b, 1e-8, iter); break; case 1: lam = algebra::eigenpair_power(A, b, x, 1e-8, iter); break;
		case 2: lam = algebra::eigenvalue_inverse(A, b, 1e-8, iter); break; case 3: lam = algebra::eigenpair_inverse(A, b, x, 1e-8, iter); break;
		case 4: lam = algebra::eigenvalue_rayleigh(A, mu, b, 1e-8, iter); break; case 5: lam = algebra::eigenpair_rayleigh(A, mu, b, x, 1e-8, iter); break;
		default: x = algebra::eigenvector_inverse(A, mu, b, 1e-8, iter); } });
	int e = errno; Unwatched u; errno = 0; if(!same(get(A), *a)) BAD("operand-changed", "an eigensolver changed its operand");
	if(ok) {
		count(K_EIG); RV v = getv(x); bool dead = vec ? v.empty() || v[0] != v[0] : lam != lam; long double sc = mag(*a) * n + std::fabs(mu);
		if(dead) { count(K_EIGFAIL); if(!e) BAD("silent-failure", "an eigensolver (%d) gave up without reporting it", f); }
		else if(pair) {
			RV w = mulv(*a, v); long double nn = 0, r = 0; CL q = 0; for(unsigned i = 0; i < n; ++i) { nn += std::norm(v[i]); q += w[i] * std::conj(v[i]); } CL l = vec ? q / nn : CL(lam);
			for(unsigned i = 0; i < n; ++i) r = std::max(r, std::abs(w[i] - l * v[i]));
			if(!(std::fabs((double) (nn - 1)) < 1e-6)) BAD("eigenpair", "eigensolver %d: the eigenvector has the norm %g", f, (double) std::sqrt(nn));
			if(!(r <= 1e-6L * sc)) BAD("eigenpair", "eigensolver %d: A v differs from %g v by %g in a %u x %u matrix of scale %g", f, (double) l.real(), (double) r, n, n, (double) sc);
		} else {
			// the determinant of A - lambda by elimination with pivoting
			RM m = *a; for(unsigned i = 0; i < n; ++i) m.at(i, i) -= lam; long double least = 1e300L; for(unsigned i = 0; i < n; ++i) { unsigned p = i, pc = i; for(unsigned j = i; j < n; ++j) for(unsigned k = i; k < n; ++k) if(std::abs(m.at(j, k)) > std::abs(m.at(p, pc))) { p = j; pc = k; } for(unsigned k = 0; k < n; ++k) std::swap(m.at(i, k), m.at(p, k)); for(unsigned k = 0; k < n; ++k) std::swap(m.at(k, i), m.at(k, pc)); least = std::min(least, std::abs(m.at(i, i))); if(std::abs(m.at(i, i)) > 0) for(unsigned j = i + 1; j < n; ++j) { CL q = m.at(j, i) / m.at(i, i); for(unsigned k = i; k < n; ++k) m.at(j, k) -= q * m.at(i, k); } }
			if(!(least <= 1e-5L * sc * (1 << std::min(n, 10u)))) BAD("eigenpair", "eigensolver %d: %g is not an eigenvalue of a %u x %u matrix of scale %g (smallest pivot %g)", f, lam, n, n, (double) sc, (double) least);
		}
	}
	delete a; return true;
}
static unsigned sizes(Rng& g) { return g.chance(0.03) ? (unsigned) g.range(8, 33) : (unsigned) g.range(1, 6); }
template<typename E, typename M, typename V, unsigned N> static void session(OpCall& c) {
	M A, B, L, U, R; V b, x, y; S s = { c, false, "" }; Rng& g = c.g; unsigned steps = (unsigned) c.l.num("n", 8);
	{ Unwatched u; count(K_SESS); if(!isreal(E(0.0))) count(K_CPLX); if(N) count(K_FIXED); s.hungry = !N && g.chance(0.4); errno = 0; }
	for(unsigned st = 0; st < steps; ++st) {
		unsigned n = N ? N : sizes(g), k = N ? N : sizes(g); RM *a, *m2; RV *rb, *ry; bool ok; { Unwatched u; errno = 0; if(R.rows() || L.rows()) count(K_STALE); }
		dims(A, n, n); b.resize(n); int op = (int) g.below(13);
		if(op == 1) { x.resize(n); if(cholesky(s, A, L, U, b, x, E(0.0))) continue; op = 0; }
		if(op == 11) { if(!N && n > 8) dims(A, n = 5, 5), b.resize(5); x.resize(n); if(eigen(s, A, b, x, E(0.0))) continue; op = 0; }
		if(g.chance(0.3)) { dims(L, n, n); fill<E>(L, g, GENERAL); } if(g.chance(0.3)) { dims(U, n, n); fill<E>(U, g, GENERAL); } if(g.chance(0.3)) fill<E>(R, g, GENERAL);
		fill<E>(A, g, GENERAL); fillv<E>(b, g); { Unwatched u; a = new RM(get(A)); rb = new RV(getv(b)); m2 = new RM; ry = new RV; }
		long double sc; { Unwatched u; sc = mag(*a); }
		switch(op) {
			case 0: { bool in = g.chance(0.4); ok = attempt(s, "decompose_lu", [&] { if(in) { R = A; algebra::decompose_lu_inplace(R); } else algebra::decompose_lu(A, L, U); }); Unwatched u; count(K_LU); if(!ok) break;
				RM l(n, n), v(n, n); if(in) { RM r = get(R); for(unsigned i = 0; i < n; ++i) for(unsigned j = 0; j < n; ++j) { if(j < i) l.at(i, j) = r.at(i, j); else v.at(i, j) = r.at(i, j); if(i == j) l.at(i, j) = 1; } }
				else { l = get(L); v = get(U); if(l.r != n || l.c != n || v.r != n || v.c != n) BAD("factors", "decompose_lu: factors of the wrong size"); for(unsigned i = 0; i < n; ++i) for(unsigned j = i; j < n; ++j) { if(l.at(i, j) != CL(i == j)) BAD("factors", "decompose_lu: L of a %u x %u matrix has the element (%u, %u) %g", n, n, i, j, (double) l.at(i, j).real()); if(i != j && !(std::abs(v.at(j, i)) <= 1e-12L * sc * n)) BAD("factors", "decompose_lu: U of a %u x %u matrix has the element (%u, %u) %g", n, n, j, i, (double) v.at(j, i).real()); } }
				if(!near(mul(l, v), *a, 1e-11L * sc * n)) BAD("factors", "the LU factors of a %u x %u matrix%s do not multiply back to it", n, n, in ? " (in place)" : ""); break; }
			case 2: case 3: { int f = (int) g.below(4); ok = attempt(s, "solve", [&] { switch(f) { case 0: x = algebra::solve(A, b); break; case 1: x = algebra::solve_lu(A, b); break; case 2: { algebra::decompose_lu(A, L, U); x = algebra::solve_lu(L, U, b); break; } default: { R = A; algebra::decompose_lu_inplace(R); x = b; algebra::solve_lu_inplace(R, x); } } }); Unwatched u; count(K_SOLVE); if(!ok) break;
				RV z = getv(x); if(z.size() != n || !nearv(mulv(*a, z), *rb, 1e-10L * n * (magv(*rb) + sc * magv(z)))) BAD("system", "a %u x %u system (form %d): the residual is not null", n, n, f); break; }
			case 4: { int kind = g.chance(0.5) ? LOWER : UPPER; fill<E>(A, g, kind); { Unwatched u; *a = get(A); sc = mag(*a); } bool any = g.chance(0.4); ok = attempt(s, "solve_triangular", [&] { if(any) x = algebra::solve_triangular(A, b); else if(kind == LOWER) x = algebra::solve_triangular_lower(A, b); else x = algebra::solve_triangular_upper(A, b); }); Unwatched u; count(K_TRI); if(!ok) break;
				RV z = getv(x); if(z.size() != n || !nearv(mulv(*a, z), *rb, 1e-10L * n * (magv(*rb) + sc * magv(z)))) BAD("system", "a triangular %u x %u system: the residual is not null", n, n); break; }
			case 5: { if(g.chance(0.3)) { unsigned p[40]; for(unsigned i = 0; i < n; ++i) p[i] = i; for(unsigned i = n; i > 1; --i) std::swap(p[i - 1], p[g.below(i)]); for(unsigned i = 0; i < n; ++i) for(unsigned j = 0; j < n; ++j) A(i, j) = E(p[i] == j ? 2.0 : 0.0); Unwatched u; *a = get(A); sc = mag(*a); }
				int f = (int) g.below(4); ok = attempt(s, "inverse", [&] { switch(f) { case 0: R = algebra::inverse(A); break; case 1: dims(R, n, n); algebra::inverse(R, A); break; case 2: R = A; algebra::invert(R); break; default: R = A; R.invert(); } }); Unwatched u; count(K_INV); if(!ok) break;
				RM z = get(R), id(n, n); for(unsigned i = 0; i < n; ++i) id.at(i, i) = 1; if(z.r != n || z.c != n || !near(mul(z, *a), id, 1e-9L * n * (1 + mag(z) * sc))) BAD("inverse", "the inverse of a %u x %u matrix (form %d) does not invert it", n, n, f); break; }
			case 6: { E d; ok = attempt(s, "det", [&] { d = algebra::det(A); }); Unwatched u; count(K_DET); if(!ok) break; RM m = *a; CL q = 1; long double bound = 1; for(unsigned i = 0; i < n; ++i) { long double rn = 0; for(unsigned j = 0; j < n; ++j) rn += std::norm(a->at(i, j)); bound *= std::sqrt(rn); q *= m.at(i, i); for(unsigned j = i + 1; j < n; ++j) { CL t = m.at(j, i) / m.at(i, i); for(unsigned l = i; l < n; ++l) m.at(j, l) -= t * m.at(i, l); } }
				if(!(std::abs(val(d) - q) <= 1e-10L * n * bound)) BAD("determinant", "the determinant of a %u x %u matrix is %g instead of %g", n, n, (double) val(d).real(), (double) q.real()); break; }
			case 7: { int f = (int) g.below(4); if(!N) { dims(A, n, k); b.resize(k); } fill<E>(A, g, GENERAL); fillv<E>(b, g); { Unwatched u; *a = get(A); *rb = getv(b); } ok = attempt(s, "a transformation", [&] { switch(f) { case 0: x = A * b; break; case 1: x = algebra::transform(A, b); break; case 2: x.resize(n); algebra::transform(x, A, b); break; default: x = b; algebra::apply_transform(A, x); } }); Unwatched u; count(K_TRANSF); if(!ok) break;
				if(!nearv(getv(x), mulv(*a, *rb), 1e-12L * (n + k) * mag(*a) * magv(*rb))) BAD("product", "a %u x %u matrix times a vector (form %d) is wrong", n, N ? n : k, f); break; }
			case 8: { int f = (int) g.below(6); unsigned q = N ? N : sizes(g); if(!N) { switch(f) { case 3: dims(A, k, n); dims(B, k, q); break; case 4: dims(A, n, k); dims(B, q, k); break; default: dims(A, n, k); dims(B, k, q); } } fill<E>(A, g, GENERAL); fill<E>(B, g, GENERAL); { Unwatched u; *a = get(A); *m2 = get(B); } if(f == 5 && N == 0 && k != q) f = 0;
				ok = attempt(s, "a matrix product", [&] { switch(f) { case 0: R = algebra::mat_mul(A, B); break; case 1: dims(R, n, q); algebra::mat_mul(R, A, B); break; case 2: R = A * B; break; case 3: R = algebra::mat_transpose_mul(A, B); break; case 4: R = algebra::mat_mul_transpose(A, B); break; default: R = A; R *= B; } }); Unwatched u; count(K_PROD); if(!ok) break;
				RM w = f == 3 ? mul(tr(*a, false), *m2) : f == 4 ? mul(*a, tr(*m2, false)) : mul(*a, *m2); if(!near(get(R), w, 1e-12L * (n + k) * mag(*a) * mag(*m2))) BAD("product", "a matrix product (form %d) of %u x %u and %u x %u is wrong", f, a->r, a->c, m2->r, m2->c); break; }
			case 9: { int f = (int) g.below(6); bool sq = f == 2 || f == 5; if(!N && !sq) dims(A, n, k); fill<E>(A, g, GENERAL); { Unwatched u; *a = get(A); } ok = attempt(s, "a transposition", [&] { switch(f) { case 0: R = algebra::transpose(A); break; case 1: dims(R, A.cols(), A.rows()); algebra::transpose(R, A); break; case 2: R = A; algebra::make_transposed(R); break; case 3: R = algebra::hermitian(A); break; case 4: dims(R, A.cols(), A.rows()); algebra::hermitian(R, A); break; default: R = A; algebra::make_hermitian(R); } }); Unwatched u; count(K_TRANSP); if(!ok) break;
				if(!same(get(R), tr(*a, f >= 3))) BAD("transpose", "the %s (form %d) of a %u x %u matrix is wrong", f < 3 ? "transpose" : "hermitian", f, a->r, a->c); break; }
			case 10: { int f = (int) g.below(8), al = g.chance(0.3) ? 1 + (int) g.below(2) : 0; if(!N) { dims(A, n, k); } dims(B, A.rows(), A.cols()); fill<E>(A, g, GENERAL); fill<E>(B, g, GENERAL); double p = g.real(-2, 2), q = g.real(-2, 2); { Unwatched u; *a = get(A); *m2 = get(B); } ok = attempt(s, "a combination", [&] { if(f >= 4 || f == 1 || f == 3) dims(R, A.rows(), A.cols()); switch(f) { case 0: R = A; algebra::mat_sum(R, B); break; case 1: algebra::mat_sum(R, A, B); break; case 2: R = A; algebra::mat_diff(R, B); break; case 3: algebra::mat_diff(R, A, B); break; case 4: R = A; algebra::mat_lincomb(E(p), R, E(q), B); break; case 5: algebra::mat_lincomb(R, E(p), A, E(q), B); break; case 6: algebra::mat_scalmul(R, E(p), A); break; default: R = A; algebra::mat_scalmul(E(p), R); } }); if(ok && al) { R = A;      // the destination is an operand as well
					ok = attempt(s, "a combination", [&] { switch(f) { case 0: case 1: if(al == 1) algebra::mat_sum(R, R, B); else algebra::mat_sum(R, R); break; case 2: case 3: if(al == 1) algebra::mat_diff(R, R, B); else algebra::mat_diff(R, R); break; case 4: case 5: if(al == 1) algebra::mat_lincomb(R, E(p), R, E(q), B); else algebra::mat_lincomb(E(p), R, E(q), R); break; default: algebra::mat_scalmul(R, E(p), R); } }); } Unwatched u; count(K_COMB); if(!ok) break;
				RM w(a->r, a->c); for(size_t i = 0; i < w.v.size(); ++i) { CL xx = a->v[i], yy = al == 2 ? a->v[i] : m2->v[i]; long double P = p, Q = q; w.v[i] = f < 2 ? xx + yy : f < 4 ? xx - yy : f < 6 ? xx * P + yy * Q : xx * P; } if(!near(get(R), w, 1e-13L * (mag(*a) + mag(*m2)))) BAD("combination", "a combination (form %d) of two %u x %u matrices is wrong", f, a->r, a->c); break; }
			default: { y.resize(n); fillv<E>(y, g); { Unwatched u; *ry = getv(y); } E d, d2, nn; bool sum = g.chance(0.5); ok = attempt(s, "a vector operation", [&] { d = algebra::dot(b, y); nn = algebra::sqr_norm(b); d2 = algebra::norm(b); x.resize(n); if(sum) algebra::vec_sum(x, b, y); else algebra::vec_diff(x, b, y); }); Unwatched u; count(K_NORM); if(!ok) break;
				CL q = 0, r = 0; long double sz = 0; for(unsigned i = 0; i < n; ++i) { q += (*rb)[i] * std::conj((*ry)[i]); r += std::norm((*rb)[i]); sz += std::abs((*rb)[i]) * std::abs((*ry)[i]); } if(!(std::abs(val(d) - q) <= 1e-13L * n * (sz + 1)) || !(std::abs(val(nn) - r) <= 1e-13L * n * (std::abs(r) + 1)) || !(std::abs(val(d2) * val(d2) - r) <= 1e-12L * n * (std::abs(r) + 1))) BAD("product", "the scalar product or the norm of vectors of %u elements is wrong", n);
				for(unsigned i = 0; i < n; ++i) (*rb)[i] += sum ? (*ry)[i] : -(*ry)[i]; if(!nearv(getv(x), *rb, 1e-13L * (magv(*rb) + magv(*ry)))) BAD("combination", "the %s of two vectors is wrong", sum ? "sum" : "difference"); if(!nearv(getv(y), *ry, 0)) BAD("operand-changed", "a vector operation changed its operand"); *rb = getv(b); }
		}
		Unwatched u; if(!same(get(A), *a)) BAD("operand-changed", "%s changed its operand", s.what); if(!nearv(getv(b), *rb, 0)) BAD("operand-changed", "%s changed its operand", s.what);
		if(m2->r && !same(get(B), *m2)) BAD("operand-changed", "%s changed its operand", s.what);
		delete a; delete rb; delete m2; delete ry;
	}
	Unwatched u; c.result = dig(steps); errno = 0;
}
static void gen_n(Rng& g, Line& l, bool th) { l.set("n", (int64_t) g.range(2, th ? 40 : 20)); }
typedef complex<real> cpl;
const OpDef OPS[] = { { "real_matrices", session<real, mat<real>, vec<real>, 0>, gen_n, 5 }, { "complex_matrices", session<cpl, mat<cpl>, vec<cpl>, 0>, gen_n, 2 }, { "real_3x3", session<real, mat<real, 3, 3>, vec<real, 3>, 3>, gen_n, 2 }, { "real_4x4", session<real, mat<real, 4, 4>, vec<real, 4>, 4>, gen_n, 1 }, { "complex_2x2", session<cpl, mat<cpl, 2, 2>, vec<cpl, 2>, 2>, gen_n, 1 } };
const unsigned NOPS = sizeof OPS / sizeof OPS[0];
const OpsConfig OPSCFG = { 3, 4, 0.3, 60000000 };
OPS_HARNESS
