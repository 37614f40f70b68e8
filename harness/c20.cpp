// C20: vectors, matrices, polynomials and numbers are independent values. A
// session keeps a few objects of one type, applies a history of operations to
// them (on each other and on themselves, memory failing now and then) and
// compares every object with its own model after every step.
#include "ops.h"
#include <complex>
enum { K_SESS, K_STEPS, K_SELF, K_FAULT, K_COPY, K_MOVE, K_RESIZE, K_EMPTY, K_MISMATCH, K_MIXED, K_NUM, K_EQ, K_ROOTS, K_ROT, K_CONV };
namespace sim {
const char* PROPERTY = "C20"; const char* VARIANT = "default";
const char* CTR_NAMES[] = { "sessions", "operations", "operations_on_the_object_itself", "allocation_failures_injected", "copies", "moves", "changes_of_size", "operations_on_empty_objects", "mismatched_sizes", "mixed_types", "number_operations", "comparisons", "quadratic_equations", "rotations", "conversions", nullptr };
}
using namespace sim;
typedef long double LD;
typedef std::vector<double> MV;
enum { POOL = 4 };

// ---- helpers
static double nice(Rng& g) { double x = (double) g.range(-512, 512) / 8; return g.chance(0.03) ? std::ldexp(x, (int) g.range(-30, 10)) : x; }
static double scal(Rng& g) { static const double s[] = { -2, -1, 0.5, 2, 3, -0.25, 1, 0 }; return s[g.below(8)]; }
static double dvs(Rng& g) { static const double s[] = { 2, -4, 0.5, 1, -1, -0.25 }; return s[g.below(6)]; }
static bool tidy(double x) { return x == x && std::fabs(x) < 1e6 && (x == 0 || std::fabs(x) > 1e-12); }
static bool same(double a, double b) { return a == b || (a != a && b != b); }
static bool close(double a, LD b) { if(a != a || b != b) return a != a && b != b; return std::fabs((double) (a - b)) <= 1e-9 * (1 + std::fabs((double) b)); }
// an operation during which memory may run out; false if it did
struct Session { OpCall& c; const char* what; unsigned n, faults; bool hungry; };
template<typename F> static bool attempt(Session& s, F f) {
	bool armed; { Unwatched u; count(K_STEPS); armed = s.hungry && s.c.g.chance(0.3); if(armed) alloc_fault_at(1 + s.c.g.below(3), 1); }
	int got = 0;
	try { f(); } catch(const std::bad_alloc&) { got = 1; } catch(...) { got = 2; }
	Unwatched u; uint64_t fired = armed ? alloc_faults_fired() : 0; if(armed) alloc_fault_at(0, 0);
	if(fired) count(K_FAULT);
	if(got == 2 || (got == 1 && !fired)) VIOL("exception", "%s: %s threw an exception", get_context(), s.what);
	if(!got && fired) { } // coped
	return !got;
}
#define STEP(W) s.what = W

// ---- vectors
template<typename V> static void vread(const V& v, MV& m) { m.resize(v.size()); for(size_t i = 0; i < v.size(); ++i) m[i] = v[i]; }
template<typename V> static void vcheck(Session& s, const V* o, const MV* m, int loose) {
	Unwatched u;
	for(int k = 0; k < POOL; ++k) {
		if(o[k].size() != m[k].size()) VIOL("wrong-size", "%s: after %s, object %d has %zu elements instead of %zu", get_context(), s.what, k, (size_t) o[k].size(), m[k].size());
		for(size_t i = 0; i < m[k].size(); ++i) if(!(k == loose ? close(o[k][i], m[k][i]) : same(o[k][i], m[k][i]))) VIOL("wrong-element", "%s: after %s, element %zu of object %d is %.17g instead of %.17g", get_context(), s.what, i, k, (double) o[k][i], m[k][i]);
	}
}
static vec<real> vmake(Rng& g, unsigned n) { vec<real> v(n); for(unsigned i = 0; i < n; ++i) v[i] = nice(g); return v; }
static void op_vec(OpCall& c) {
	vec<real> o[POOL]; MV* m; Session s = { c, "", 0, 0, false }; Rng& g = c.g; uint64_t live;
	{ Unwatched u; m = new MV[POOL + 2]; count(K_SESS); s.n = (unsigned) c.l.num("n", 10); s.hungry = g.chance(0.4); errno = 0; live = my_live(); }
	for(unsigned st = 0; st < s.n; ++st) {
		int i = (int) g.below(POOL), j = g.chance(0.25) ? i : (int) g.below(POOL), k = (int) g.below(POOL), loose = -1; double a = scal(g), d = dvs(g), x = nice(g); unsigned n = g.chance(0.02) ? (unsigned) g.range(10, 300) : (unsigned) g.below(7); MV* w = &m[POOL];
		{ Unwatched u; *w = m[i]; if(i == j) count(K_SELF); if(m[i].empty()) count(K_EMPTY); }
		bool ok = true; bool sz = m[i].size() == m[j].size();
		switch(g.below(26)) {
			case 0: STEP("vec(n)"); ok = attempt(s, [&] { o[i] = vec<real>(n); }); { Unwatched u; w->assign(n, 0); } break;
			case 1: STEP("vec(n, x)"); ok = attempt(s, [&] { o[i] = vec<real>(n, x); }); { Unwatched u; w->assign(n, x); } break;
			case 2: STEP("a list"); ok = attempt(s, [&] { o[i] = vec<real>({ x, a, d }); }); { Unwatched u; *w = { x, a, d }; } break;
			case 3: case 4: STEP("copy assignment"); ok = attempt(s, [&] { o[i] = o[j]; }); { Unwatched u; *w = m[j]; count(K_COPY); } break;
			case 5: STEP("copy construction"); ok = attempt(s, [&] { vec<real> t(o[j]); t.push(x); o[i] = t; }); { Unwatched u; *w = m[j]; w->push_back(x); count(K_COPY); } break;
			case 6: STEP("move"); if(i == j) continue; ok = attempt(s, [&] { o[i] = std::move(o[j]); }); if(ok) { { Unwatched u; *w = m[j]; count(K_MOVE); m[j].assign(1, 7); } o[j] = vec<real>(1u, 7.0); } break;
			case 7: STEP("std::swap"); ok = attempt(s, [&] { std::swap(o[i], o[j]); }); { Unwatched u; if(ok) { *w = m[j]; m[j].swap(m[i]); } else { vread(o[i], m[i]); vread(o[j], m[j]); } count(K_MOVE); } break;
			case 8: case 9: STEP("resize"); ok = attempt(s, [&] { o[i].resize(n); }); { Unwatched u; w->resize(n); count(K_RESIZE); } break;
			case 10: STEP("push"); ok = attempt(s, [&] { o[i].push(x); }); { Unwatched u; w->push_back(x); } break;
			case 11: STEP("push of its own element"); if(m[i].empty()) continue; { unsigned q = (unsigned) g.below(m[i].size()); ok = attempt(s, [&] { if(a > 0) o[i].push(o[i][q]); else { const real& e = o[i][q]; o[i].push(e); } }); Unwatched u; double y = (*w)[q]; w->push_back(y); count(K_SELF); } break;
			case 12: { STEP("writing an element"); if(m[i].empty()) continue; unsigned q = (unsigned) g.below(m[i].size()); ok = attempt(s, [&] { if(a > 1) o[i].set(q, x); else if(a > 0) o[i].at(q) = x; else o[i][q] = x; }); Unwatched u; (*w)[q] = x; if(o[i].get(q) != x) VIOL("wrong-element", "get() after a write"); break; }
			case 13: STEP("writing through an iterator"); ok = attempt(s, [&] { for(auto& e : o[i]) e = e + a; }); { Unwatched u; for(auto& e : *w) e += a; } break;
			case 14: STEP("reading through an iterator"); { double sum = 0; ok = attempt(s, [&] { const vec<real>& q = o[i]; for(auto e : q) sum += e; }); Unwatched u; double t = 0; for(double e : m[i]) t += e; if(ok && !same(sum, t)) VIOL("wrong-element", "iteration over a vector of %zu elements gives the sum %.17g instead of %.17g", m[i].size(), sum, t); } break;
			case 15: case 16: STEP("operator+="); ok = attempt(s, [&] { o[i] += o[j]; }); { Unwatched u; if(m[i].empty()) *w = m[j]; else if(sz) for(size_t q = 0; q < w->size(); ++q) (*w)[q] += m[j][q]; else { w->assign(std::max<size_t>(1, m[i].size()), NAN); count(K_MISMATCH); } } break;
			case 17: STEP("operator-="); ok = attempt(s, [&] { o[i] -= o[j]; }); { Unwatched u; if(sz) for(size_t q = 0; q < w->size(); ++q) (*w)[q] -= m[j][q]; else { w->assign(std::max<size_t>(1, m[i].size()), NAN); count(K_MISMATCH); } } break;
			case 18: STEP("operator*="); ok = attempt(s, [&] { if(x > 0) o[i] *= a; else algebra::vec_scalmul(a, o[i]); }); { Unwatched u; for(auto& e : *w) e *= a; } break;
			case 19: STEP("operator/="); ok = attempt(s, [&] { o[i] /= d; }); { Unwatched u; for(auto& e : *w) e /= d; } break;
			case 20: { STEP("a + b, a - b, -a"); if(!sz || m[i].empty()) continue; int f = (int) g.below(5); ok = attempt(s, [&] { switch(f) { case 0: o[i] = o[i] + o[j]; break; case 1: o[i] = o[i] - o[j]; break; case 2: o[i] = -o[i]; break; case 3: o[i] = o[i] * a + o[j] / d; break; default: o[i] = a * o[j]; } }); Unwatched u; for(size_t q = 0; q < w->size(); ++q) { double p = (*w)[q], r = m[j][q]; (*w)[q] = f == 0 ? p + r : f == 1 ? p - r : f == 2 ? -p : f == 3 ? p * a + r / d : a * r; } break; }
			case 21: { STEP("mixed vector types"); std::vector<real> sv(n); for(auto& e : sv) e = nice(g); vec<real, 3> fv({ x, d, a }); int f = (int) g.below(3); ok = attempt(s, [&] { if(f == 0) o[i] = sv; else if(f == 1) o[i] = fv; else { vec<real> t(fv); o[i] = t; } }); Unwatched u; count(K_MIXED); if(f) *w = { x, d, a }; else w->assign(sv.begin(), sv.end()); break; }
			case 22: STEP("vec_copy, vec_sum, vec_diff"); { int f = (int) g.below(3); if(f && (!sz || i == j)) f = 0; ok = attempt(s, [&] { if(f == 0) algebra::vec_copy(o[i], o[j]); else if(f == 1) algebra::vec_sum(o[i], o[j]); else algebra::vec_diff(o[i], o[j]); }); Unwatched u; if(f == 0) *w = m[j]; else for(size_t q = 0; q < w->size(); ++q) (*w)[q] += f == 1 ? m[j][q] : -m[j][q]; } break;
			case 23: { STEP("comparison"); bool e = false, ne = false; ok = attempt(s, [&] { e = o[i] == o[j]; ne = o[i] != o[j]; }); Unwatched u; count(K_EQ); bool want = m[i] == m[j]; if(e != want || ne == want) VIOL("comparison", "two vectors of %zu and %zu elements compare %sequal", m[i].size(), m[j].size(), e ? "" : "un"); break; }
			case 24: { STEP("normalize"); LD q = 0; { Unwatched u; for(double e : m[i]) q += (LD) e * e; } if(q == 0 || q != q || m[i].empty()) continue; ok = attempt(s, [&] { if(a > 0) o[i].normalize(); else o[i] = o[i].normalized(); }); loose = i; Unwatched u; for(auto& e : *w) e = (double) (e / sqrtl(q)); break; }
			default: { STEP("euclidean_base"); if(!n) continue; unsigned q = (unsigned) g.below(n); ok = attempt(s, [&] { o[i] = vec<real>::euclidean_base(q, n); }); Unwatched u; w->assign(n, 0); (*w)[q] = 1; break; }
		}
		{ Unwatched u; if(ok) m[i] = *w; else vread(o[i], m[i]); }
		vcheck(s, o, m, loose);
		bool bad = false; { Unwatched u; for(int q = 0; q < POOL; ++q) { bool b = m[q].size() > 700; for(double e : m[q]) if(!tidy(e)) b = true; if(b) { bad = true; k = q; } } }
		if(bad) { o[k] = vmake(g, (unsigned) g.below(6)); Unwatched u; vread(o[k], m[k]); }
		if(loose >= 0) { Unwatched u; vread(o[loose], m[loose]); }
	}
	for(int q = 0; q < POOL; ++q) o[q] = vec<real>();
	Unwatched u; c.result = dig(s.n); delete[] m; errno = 0; (void) live;
}

// ---- matrices
struct MM { unsigned r = 0, c = 0; MV v; double& at(unsigned i, unsigned j) { return v[i * c + j]; } double at(unsigned i, unsigned j) const { return v[i * c + j]; } void size(unsigned a, unsigned b) { MV w(a * b, 0.0); for(unsigned i = 0; i < std::min(a, r); ++i) for(unsigned j = 0; j < std::min(b, c); ++j) w[i * b + j] = at(i, j); v.swap(w); r = a; c = b; } bool operator==(const MM& o) const { return r == o.r && c == o.c && v == o.v; } };
template<typename M> static void mread(const M& m, MM& w) { w.r = m.rows(); w.c = m.cols(); w.v.resize(w.r * w.c); for(unsigned i = 0; i < w.r; ++i) for(unsigned j = 0; j < w.c; ++j) w.at(i, j) = m(i, j); }
template<typename M> static void mcheck(Session& s, const M* o, const MM* m, int loose) {
	Unwatched u;
	for(int k = 0; k < POOL; ++k) {
		if(o[k].rows() != m[k].r || o[k].cols() != m[k].c) VIOL("wrong-size", "%s: after %s, object %d is %u x %u instead of %u x %u", get_context(), s.what, k, (unsigned) o[k].rows(), (unsigned) o[k].cols(), m[k].r, m[k].c);
		for(unsigned i = 0; i < m[k].r; ++i) for(unsigned j = 0; j < m[k].c; ++j) if(!(k == loose ? close(o[k](i, j), m[k].at(i, j)) : same(o[k](i, j), m[k].at(i, j)))) VIOL("wrong-element", "%s: after %s, element (%u, %u) of object %d is %.17g instead of %.17g", get_context(), s.what, i, j, k, (double) o[k](i, j), m[k].at(i, j));
	}
}
template<typename M> static void mfill(M& m, Rng& g) { for(unsigned i = 0; i < m.rows(); ++i) for(unsigned j = 0; j < m.cols(); ++j) m(i, j) = nice(g) / 8; }
static void mmul(MM& w, const MM& a, const MM& b) { MM r; r.size(a.r, b.c); for(unsigned i = 0; i < a.r; ++i) for(unsigned j = 0; j < b.c; ++j) { LD q = 0; for(unsigned k = 0; k < a.c; ++k) q += (LD) a.at(i, k) * b.at(k, j); r.at(i, j) = (double) q; } w = r; }
static void transp(mat<real, 2, 3>&, int) { }
template<typename M> static void transp(M& a, int f) { if(f) a.transpose(); else a = algebra::transpose(a); }
template<typename M> static M diagonal_of(double x, unsigned r, unsigned k, bool, std::true_type) { return M(x, r, k); }
template<typename M> static M diagonal_of(double x, unsigned r, unsigned k, bool sh, std::false_type) { if(sh) return M(x); return M(x, r, k); }     // of a fixed size: it need not be given
template<typename M, bool DYN> static void mat_session(OpCall& c) {
	M o[POOL]; MM* m; Session s = { c, "", 0, 0, false }; Rng& g = c.g;
	{ Unwatched u; m = new MM[POOL + 2]; count(K_SESS); s.n = (unsigned) c.l.num("n", 10); s.hungry = DYN && g.chance(0.4); errno = 0; }
	for(int k = 0; k < POOL; ++k) { if(DYN) { unsigned r = (unsigned) g.range(1, 4); o[k].resize(r, g.chance(0.5) ? r : (unsigned) g.range(1, 4)); } mfill(o[k], g); Unwatched u; mread(o[k], m[k]); }
	for(unsigned st = 0; st < s.n; ++st) {
		int i = (int) g.below(POOL), j = g.chance(0.25) ? i : (int) g.below(POOL), loose = -1; double a = scal(g), d = dvs(g), x = nice(g); unsigned r = (unsigned) g.range(1, 5), k = g.chance(0.4) ? r : (unsigned) g.range(1, 5); if(DYN && g.chance(0.01)) r = (unsigned) g.range(10, 40); MM* w = &m[POOL];
		{ Unwatched u; *w = m[i]; if(i == j) count(K_SELF); if(m[i].v.empty()) count(K_EMPTY); }
		bool ok = true, sz = m[i].r == m[j].r && m[i].c == m[j].c, sq = m[i].r == m[i].c;
		switch(g.below(22)) {
			case 0: STEP("mat(n, k)"); if(!DYN) { r = m[i].r; k = m[i].c; } ok = attempt(s, [&] { o[i] = M(r, k); }); { Unwatched u; w->r = w->c = 0; w->size(r, k); } break;
			case 1: STEP("a diagonal matrix"); if(!DYN) { r = m[i].r; k = m[i].c; } { bool sh = g.chance(0.5); ok = attempt(s, [&] { o[i] = diagonal_of<M>(x, r, k, sh, std::integral_constant<bool, DYN>()); }); } { Unwatched u; w->r = w->c = 0; w->size(r, k); for(unsigned q = 0; q < std::min(r, k); ++q) w->at(q, q) = x; } break;
			case 2: case 3: STEP("copy assignment"); ok = attempt(s, [&] { o[i] = o[j]; }); { Unwatched u; *w = m[j]; count(K_COPY); } break;
			case 4: STEP("copy construction"); if(!m[j].v.size()) continue; ok = attempt(s, [&] { M t(o[j]); t(0, 0) = x; o[i] = t; }); { Unwatched u; *w = m[j]; w->at(0, 0) = x; count(K_COPY); } break;
			case 5: STEP("std::swap"); ok = attempt(s, [&] { std::swap(o[i], o[j]); }); { Unwatched u; if(ok) { *w = m[j]; std::swap(m[j], m[i]); } else { mread(o[i], m[i]); mread(o[j], m[j]); } count(K_MOVE); } break;
			case 6: case 7: STEP("resize"); if(!DYN) continue; if(g.chance(0.1)) r = k = 0; ok = attempt(s, [&] { o[i].resize(r, k); }); { Unwatched u; w->size(r, k); count(K_RESIZE); } break;
			case 8: { STEP("writing an element"); if(m[i].v.empty()) continue; unsigned p = (unsigned) g.below(m[i].r), q = (unsigned) g.below(m[i].c); ok = attempt(s, [&] { if(a > 0) o[i](p, q) = x; else o[i].at(p, q) = x; }); Unwatched u; w->at(p, q) = x; if(ok && o[i].get(p, q) != x) VIOL("wrong-element", "get() after a write"); break; }
			case 9: { STEP("iteration"); if(m[i].v.empty()) continue; size_t q = 0; bool bad = false; ok = attempt(s, [&] { for(auto& e : o[i]) { Unwatched u; if(q >= m[i].v.size() || !same(e, m[i].v[q])) bad = true; e = e * 2; q++; } }); Unwatched u; if(bad || q != m[i].v.size()) VIOL("wrong-element", "iteration over a matrix of %u x %u elements does not visit each of them once, row by row", m[i].r, m[i].c); for(auto& e : w->v) e *= 2; break; }
			case 10: STEP("operator+="); ok = attempt(s, [&] { o[i] += o[j]; }); { Unwatched u; if(sz) for(size_t q = 0; q < w->v.size(); ++q) w->v[q] += m[j].v[q]; else { count(K_MISMATCH); } } break;
			case 11: STEP("operator-="); ok = attempt(s, [&] { o[i] -= o[j]; }); { Unwatched u; if(sz) for(size_t q = 0; q < w->v.size(); ++q) w->v[q] -= m[j].v[q]; else { count(K_MISMATCH); } } break;
			case 12: STEP("operator*="); sz = true; ok = attempt(s, [&] { if(x > 0) o[i] *= a; else algebra::mat_scalmul(a, o[i]); }); { Unwatched u; for(auto& e : w->v) e *= a; } break;
			case 13: STEP("operator/="); sz = true; ok = attempt(s, [&] { o[i] /= d; }); { Unwatched u; for(auto& e : w->v) e /= d; } break;
			case 14: { STEP("matrix product"); if(m[i].c != m[j].r || m[i].v.empty() || m[j].v.empty() || (!DYN && !sq)) continue; sz = true; int f = (int) g.below(3); ok = attempt(s, [&] { if(f == 0) o[i] *= o[j]; else if(f == 1) o[i] = o[i] * o[j]; else o[i] = algebra::mat_mul(o[i], o[j]); }); loose = i; Unwatched u; mmul(*w, m[i], m[j]); break; }
			case 15: { STEP("transposition"); sz = true; if(m[i].v.empty() || (!DYN && !sq)) continue; int f = (int) g.below(sq ? 2 : 1); ok = attempt(s, [&] { transp(o[i], f); }); Unwatched u; MM t; t.size(m[i].c, m[i].r); for(unsigned p = 0; p < m[i].r; ++p) for(unsigned q = 0; q < m[i].c; ++q) t.at(q, p) = m[i].at(p, q); *w = t; break; }
			case 16: { STEP("exchange of rows"); sz = true; if(m[i].v.empty()) continue; unsigned p = (unsigned) g.below(m[i].r), q = (unsigned) g.below(m[i].r); ok = attempt(s, [&] { algebra::mat_swap_rows(o[i], p, q); }); Unwatched u; for(unsigned t = 0; t < m[i].c; ++t) std::swap(w->at(p, t), w->at(q, t)); break; }
			case 17: { STEP("exchange of columns"); sz = true; if(m[i].v.empty()) continue; unsigned p = (unsigned) g.below(m[i].c), q = (unsigned) g.below(m[i].c); ok = attempt(s, [&] { algebra::mat_swap_cols(o[i], p, q); }); Unwatched u; for(unsigned t = 0; t < m[i].r; ++t) std::swap(w->at(t, p), w->at(t, q)); break; }
			case 18: { STEP("a + b, a - b, a * s"); if(!sz || m[i].v.empty()) continue; int f = (int) g.below(4); ok = attempt(s, [&] { switch(f) { case 0: o[i] = o[i] + o[j]; break; case 1: o[i] = o[i] - o[j]; break; case 2: o[i] = o[j] * a; break; default: o[i] = o[j] / d; } }); Unwatched u; for(size_t q = 0; q < w->v.size(); ++q) { double p = w->v[q], y = m[j].v[q]; w->v[q] = f == 0 ? p + y : f == 1 ? p - y : f == 2 ? y * a : y / d; } break; }
			case 19: { STEP("identity, zeroes, diagonal shift"); sz = true; int f = (int) g.below(3); if(f != 1 && (!sq || m[i].v.empty())) f = 1; ok = attempt(s, [&] { if(f == 0) algebra::make_identity(o[i]); else if(f == 1) o[i].make_zeroes(); else algebra::mat_shift_diagonal(o[i], x); }); Unwatched u; for(unsigned p = 0; p < w->r; ++p) for(unsigned q = 0; q < w->c; ++q) w->at(p, q) = f == 0 ? p == q : f == 1 ? 0 : w->at(p, q) + (p == q ? x : 0); break; }
			case 20: { STEP("comparison"); sz = true; bool e = false, ne = false; ok = attempt(s, [&] { e = o[i] == o[j]; ne = o[i] != o[j]; }); Unwatched u; count(K_EQ); bool want = m[i] == m[j]; if(e != want || ne == want) VIOL("comparison", "two matrices of %u x %u and %u x %u elements compare %sequal", m[i].r, m[i].c, m[j].r, m[j].c, e ? "" : "un"); break; }
			default: { STEP("a list or another matrix type"); sz = true; mat<real, 2, 3> f; mfill(f, g); if(!DYN) continue; int q = (int) g.below(3); ok = attempt(s, [&] { if(q == 0) o[i] = M({ { x, a, 1.0 }, { d, 2.0, 3.0 } }); else if(q == 1) { M t; algebra::mat_copy(t, f); o[i] = t; } else algebra::mat_copy(o[i], f); }); Unwatched u; count(K_MIXED); if(q) mread(f, *w); else { w->r = w->c = 0; w->size(2, 3); w->v = { x, a, 1, d, 2, 3 }; } break; }
		}
		{ Unwatched u; if(ok && (sz || w->v != m[i].v || w->r != m[i].r || w->c != m[i].c || !(s.what[8] == '+' || s.what[8] == '-'))) m[i] = *w; else mread(o[i], m[i]);   // mismatched operands: the error matrix
			if(DYN) for(int q = 0; q < POOL; ++q) if(((const mat<real>*) (const void*) &o[q])->data.size() != (size_t) o[q].rows() * o[q].cols()) VIOL("inconsistent", "%s: after %s, a matrix of %u x %u elements stores %zu", get_context(), s.what, (unsigned) o[q].rows(), (unsigned) o[q].cols(), ((const mat<real>*) (const void*) &o[q])->data.size()); }
		mcheck(s, o, m, loose);
		int redo = loose; { Unwatched u; for(int q = 0; q < POOL; ++q) for(double e : m[q].v) if(!tidy(e)) redo = q; }
		if(redo >= 0) { mfill(o[redo], g); Unwatched u; mread(o[redo], m[redo]); }
	}
	Unwatched u; c.result = dig(s.n); delete[] m; errno = 0;
}

// ---- fixed-size vectors
static void op_fixed(OpCall& c) {
	typedef vec<real, 4> V; V o[POOL]; MV* m; Session s = { c, "", 0, 0, false }; Rng& g = c.g;
	{ Unwatched u; m = new MV[POOL + 2]; count(K_SESS); s.n = (unsigned) c.l.num("n", 10); errno = 0; for(int k = 0; k < POOL; ++k) m[k].assign(4, 0); }
	vcheck(s, o, m, -1);
	for(unsigned st = 0; st < s.n; ++st) {
		int i = (int) g.below(POOL), j = g.chance(0.25) ? i : (int) g.below(POOL); double a = scal(g), d = dvs(g), x = nice(g); unsigned q = (unsigned) g.below(4); MV* w = &m[POOL];
		{ Unwatched u; *w = m[i]; if(i == j) count(K_SELF); }
		switch(g.below(14)) {
			case 0: STEP("vec(x)"); attempt(s, [&] { o[i] = V(x); }); { Unwatched u; w->assign(4, x); } break;
			case 1: STEP("a list"); attempt(s, [&] { o[i] = V({ x, a, d, 1.0 }); }); { Unwatched u; *w = { x, a, d, 1 }; } break;
			case 2: STEP("copy assignment"); attempt(s, [&] { o[i] = o[j]; }); { Unwatched u; *w = m[j]; count(K_COPY); } break;
			case 3: STEP("copy construction"); attempt(s, [&] { V t(o[j]); t[q] = x; o[i] = t; }); { Unwatched u; *w = m[j]; (*w)[q] = x; count(K_COPY); } break;
			case 4: STEP("std::swap"); attempt(s, [&] { std::swap(o[i], o[j]); }); { Unwatched u; *w = m[j]; m[j].swap(m[i]); count(K_MOVE); } break;
			case 5: STEP("writing an element"); attempt(s, [&] { if(a > 1) o[i].set(q, x); else if(a > 0) o[i].at(q) = x; else o[i][q] = x; }); { Unwatched u; (*w)[q] = x; } break;
			case 6: STEP("iterators"); attempt(s, [&] { for(auto& e : o[i]) e = e + a; }); { Unwatched u; for(auto& e : *w) e += a; } break;
			case 7: STEP("operator+="); attempt(s, [&] { o[i] += o[j]; }); { Unwatched u; for(int t = 0; t < 4; ++t) (*w)[t] += m[j][t]; } break;
			case 8: STEP("operator-="); attempt(s, [&] { o[i] -= o[j]; }); { Unwatched u; for(int t = 0; t < 4; ++t) (*w)[t] -= m[j][t]; } break;
			case 9: STEP("operator*="); attempt(s, [&] { o[i] *= a; }); { Unwatched u; for(auto& e : *w) e *= a; } break;
			case 10: STEP("operator/="); attempt(s, [&] { o[i] /= d; }); { Unwatched u; for(auto& e : *w) e /= d; } break;
			case 12: { STEP("comparison with a dynamic vector"); unsigned len = g.chance(0.5) ? 4 : (unsigned) g.below(8); vec<real> dv(len); for(unsigned t = 0; t < len; ++t) dv[t] = t < 4 ? o[i][t] : x; bool diff = g.chance(0.3) && len; if(diff) dv[len - 1] = dv[len - 1] + 1; bool e = false, r = false; attempt(s, [&] { e = o[i] == dv; r = dv == o[i]; }); Unwatched u; count(K_EQ); count(K_MIXED); bool want = len == 4 && !diff; if(e != want || r != want) VIOL("comparison", "a vector of 4 elements compares %sequal (%sequal from the right) with one of %u", e ? "" : "un", r ? "" : "un", len); break; }
			case 11: { STEP("comparison"); bool e = false, ne = false; attempt(s, [&] { e = o[i] == o[j]; ne = o[i] != o[j]; }); Unwatched u; count(K_EQ); bool want = m[i] == m[j]; if(e != want || ne == want) VIOL("comparison", "two vectors of 4 elements compare %sequal", e ? "" : "un"); break; }
			default: { STEP("mixed vector types"); std::vector<real> sv({ x, a, d, 2.0 }); vec<real> dv({ a, x, d, 3.0 }); int f = (int) g.below(3); attempt(s, [&] { if(f == 0) o[i] = sv; else if(f == 1) o[i] = dv; else o[i] = a * o[j] + (-o[i]) / d; }); Unwatched u; count(K_MIXED); if(f == 0) *w = { x, a, d, 2 }; else if(f == 1) *w = { a, x, d, 3 }; else for(int t = 0; t < 4; ++t) (*w)[t] = a * m[j][t] + -m[i][t] / d; break; }
		}
		{ Unwatched u; m[i] = *w; }
		vcheck(s, o, m, -1);
		int redo = -1; { Unwatched u; for(int t = 0; t < POOL; ++t) for(double e : m[t]) if(!tidy(e)) redo = t; }
		if(redo >= 0) { o[redo] = V(x); Unwatched u; m[redo].assign(4, x); }
	}
	Unwatched u; c.result = dig(s.n); delete[] m; errno = 0;
}

// ---- polynomials
static void pmul(MV& w, const MV& a, const MV& b) { if(a.empty() || b.empty()) { w.clear(); return; } MV r(a.size() + b.size() - 1, 0.0); for(size_t i = 0; i < a.size(); ++i) for(size_t j = 0; j < b.size(); ++j) r[i + j] += a[i] * b[j]; w = r; }
static void padd(MV& w, const MV& b, double k) { if(w.size() < b.size()) w.resize(b.size(), 0.0); for(size_t i = 0; i < b.size(); ++i) w[i] += k * b[i]; }
static void pcheck(Session& s, const polynomial<real>* o, const MV* m, int loose) {
	Unwatched u;
	for(int k = 0; k < POOL; ++k) {
		// trailing null coefficients are not part of the value
		size_t n = std::max<size_t>(o[k].size(), m[k].size());
		for(size_t i = 0; i < n; ++i) { double p = i < o[k].size() ? o[k][i] : 0, q = i < m[k].size() ? m[k][i] : 0; if(!(k == loose ? close(p, q) : same(p, q))) VIOL("wrong-element", "%s: after %s, coefficient %zu of object %d is %.17g instead of %.17g", get_context(), s.what, i, k, p, q); }
	}
}
static void op_poly(OpCall& c) {
	typedef polynomial<real> P; P o[POOL]; MV* m; Session s = { c, "", 0, 0, false }; Rng& g = c.g;
	{ Unwatched u; m = new MV[POOL + 2]; count(K_SESS); s.n = (unsigned) c.l.num("n", 10); s.hungry = g.chance(0.4); errno = 0; }
	for(unsigned st = 0; st < s.n; ++st) {
		int i = (int) g.below(POOL), j = g.chance(0.25) ? i : (int) g.below(POOL), loose = -1; double a = scal(g), d = dvs(g), x = nice(g) / 8; MV* w = &m[POOL];
		{ Unwatched u; *w = m[i]; if(i == j) count(K_SELF); if(m[i].empty()) count(K_EMPTY); }
		bool ok = true;
		switch(g.below(23)) {
			case 20: STEP("the derivative of a polynomial"); if(o[j].size() == 0) continue; ok = attempt(s, [&] { o[i] = deriv(o[j]); }); loose = i; { Unwatched u; MV b = m[j]; w->clear(); for(size_t q = 1; q < b.size(); ++q) w->push_back(b[q] * q); } break;
			case 21: STEP("the integral of a polynomial"); if(m[j].size() > 20) continue; ok = attempt(s, [&] { o[i] = integral(o[j]); }); loose = i; { Unwatched u; MV b = m[j]; w->assign(1, 0.0); for(size_t q = 0; q < b.size(); ++q) w->push_back(b[q] / (q + 1)); } break;
			case 22: { STEP("calculus of a polynomial at a point"); double t0 = g.real(-2, 2), t1 = g.real(-2, 2), y = 0, z = 0; ok = attempt(s, [&] { y = deriv(o[i], t0); z = integral(o[i], t0, t1); }); Unwatched u; LD q = 0, v0 = 0, v1 = 0, mg = 1; for(size_t k = m[i].size(); k-- > 0; ) { if(k) q = q * t0 + k * (LD) m[i][k]; v0 = (v0 + (LD) m[i][k] / (k + 1)) * t0; v1 = (v1 + (LD) m[i][k] / (k + 1)) * t1; mg = mg * 2 + (k + 1) * std::fabs(m[i][k]); } if(ok && !(std::fabs((double) (y - q)) <= 1e-12 * (double) mg)) VIOL("wrong-value", "the derivative of a polynomial of %zu coefficients is %.17g instead of %.17g", m[i].size(), y, (double) q); if(ok && !(std::fabs((double) (z - (v1 - v0))) <= 2e-12 * (double) mg)) VIOL("wrong-value", "the integral of a polynomial of %zu coefficients is %.17g instead of %.17g", m[i].size(), z, (double) (v1 - v0)); break; }
			case 17: { STEP("quadratic roots"); vec<complex<>, 2> z; double b1 = nice(g) / 4, b0 = nice(g); P q({ b0, b1, d }); { Unwatched u; errno = 0; } ok = attempt(s, [&] { z = q.quadratic_roots(); }); Unwatched u; count(K_ROOTS); for(int k = 0; ok && k < 2; ++k) { std::complex<double> t(z[k].a, z[k].b); double r = std::abs(b0 + t * (b1 + t * d)), mg = std::fabs(b0) + std::abs(t) * (std::fabs(b1) + std::abs(t) * std::fabs(d)); if(!(r <= 1e-7 * mg + 1e-12)) VIOL("not-a-root", "%g + %g x + %g x^2 is said to have the root %.12g + %.12g i, where it is %g", b0, b1, d, t.real(), t.imag(), r); } if(ok && std::fabs(z[0].a + z[1].a + b1 / d) > 1e-6 * (1 + std::fabs(b1 / d))) VIOL("not-a-root", "the roots %.12g + %.12g i and %.12g + %.12g i of %g + %g x + %g x^2 have the wrong sum", z[0].a, z[0].b, z[1].a, z[1].b, b0, b1, d); ok = true; break; }
			case 18: { STEP("a polynomial from its roots"); std::vector<real> z; { Unwatched u; for(unsigned q = (unsigned) g.below(5); q > 0; --q) z.push_back(dvs(g)); } ok = attempt(s, [&] { o[i] = P::from_roots(z); }); Unwatched u; *w = { 1 }; for(double t : z) { MV f = { -t, 1 }, r; pmul(r, *w, f); *w = r; } break; }
			case 0: STEP("a constant"); ok = attempt(s, [&] { o[i] = P(x); }); { Unwatched u; *w = { x }; } break;
			case 1: STEP("a list"); ok = attempt(s, [&] { o[i] = P({ x, a, d, 1.0 }); }); { Unwatched u; *w = { x, a, d, 1 }; } break;
			case 2: STEP("an empty polynomial"); ok = attempt(s, [&] { o[i] = P(); }); { Unwatched u; w->clear(); } break;
			case 3: STEP("copy assignment"); ok = attempt(s, [&] { o[i] = o[j]; }); { Unwatched u; *w = m[j]; count(K_COPY); } break;
			case 4: { STEP("copy construction"); bool some = o[j].size() > 0; ok = attempt(s, [&] { P t(o[j]); if(some) t[0] = x; o[i] = t; }); Unwatched u; *w = m[j]; if(some) { if(w->empty()) w->push_back(0); (*w)[0] = x; } count(K_COPY); break; }
			case 5: STEP("std::swap"); ok = attempt(s, [&] { std::swap(o[i], o[j]); }); { Unwatched u; if(ok) { *w = m[j]; m[j].swap(m[i]); } else { m[i] = MV(o[i].coeff.begin(), o[i].coeff.end()); m[j] = MV(o[j].coeff.begin(), o[j].coeff.end()); } count(K_MOVE); } break;
			case 6: { STEP("writing a coefficient"); if(o[i].size() == 0) continue; unsigned q = (unsigned) g.below(o[i].size()); ok = attempt(s, [&] { if(a > 0) o[i][q] = x; else o[i].at(q) = x; }); Unwatched u; if(w->size() <= q) w->resize(q + 1, 0.0); (*w)[q] = x; break; }
			case 7: STEP("trim"); ok = attempt(s, [&] { o[i].trim(); }); { Unwatched u; if(o[i].size() && std::fabs(o[i][o[i].size() - 1]) < 1e-15) VIOL("not-trimmed", "a trimmed polynomial has a null leading coefficient"); } break;
			case 8: case 9: STEP("operator+="); ok = attempt(s, [&] { o[i] += o[j]; }); { Unwatched u; MV b = m[j]; padd(*w, b, 1); } break;
			case 10: STEP("operator-="); ok = attempt(s, [&] { o[i] -= o[j]; }); { Unwatched u; MV b = m[j]; padd(*w, b, -1); } break;
			case 11: STEP("polynomial product"); if(m[i].size() + m[j].size() > 40) continue; { bool in = g.chance(0.5); ok = attempt(s, [&] { if(in) o[i] *= o[j]; else o[i] = o[i] * o[j]; }); loose = i; Unwatched u; pmul(*w, m[i], m[j]); } break;
			case 12: STEP("product by a number"); { bool in = g.chance(0.5); ok = attempt(s, [&] { if(in) o[i] *= a; else o[i] = a * o[i]; }); Unwatched u; for(auto& e : *w) e *= a; } break;
			case 13: STEP("quotient by a number"); { bool in = g.chance(0.5); ok = attempt(s, [&] { if(in) o[i] /= d; else o[i] = o[i] / d; }); Unwatched u; for(auto& e : *w) e /= d; } break;
			case 14: { STEP("sum and difference"); bool in = g.chance(0.5); ok = attempt(s, [&] { if(in) o[i] = o[i] + o[j]; else o[i] = o[i] - o[j]; }); Unwatched u; MV b = m[j]; padd(*w, b, in ? 1 : -1); break; }
			case 15: { STEP("comparison"); bool e = false; ok = attempt(s, [&] { e = o[i] == o[j]; }); Unwatched u; count(K_EQ); bool want = true, unsure = false; for(size_t q = 0; q < std::max(m[i].size(), m[j].size()); ++q) { double df = std::fabs((q < m[i].size() ? m[i][q] : 0) - (q < m[j].size() ? m[j][q] : 0)); if(df != 0) want = false; if(df != 0 && df < 1e-9) unsure = true; } if(!unsure && e != want) VIOL("comparison", "two %s polynomials of %zu and %zu coefficients compare %sequal", want ? "equal" : "different", o[i].size(), o[j].size(), e ? "" : "un"); break; }
			case 16: { STEP("evaluation"); double t = g.real(-2, 2), y = 0; ok = attempt(s, [&] { y = g.chance(0.5) ? o[i](t) : o[i].eval(t); }); Unwatched u; LD q = 0, mg = 1; for(size_t k = m[i].size(); k-- > 0; ) { q = q * t + m[i][k]; mg = mg * 2 + std::fabs(m[i][k]); } if(ok && std::fabs((double) (y - q)) > 1e-12 * (double) mg) VIOL("wrong-value", "a polynomial of %zu coefficients evaluates to %.17g instead of %.17g", m[i].size(), y, (double) q); break; }
			default: { STEP("polynomial division"); if(i == j && g.chance(0.5)) continue; MV* b = &m[POOL + 1]; P dv, q; size_t dn; { Unwatched u; *b = { nice(g), dvs(g) }; if(g.chance(0.4)) b->push_back(dvs(g)); if(g.chance(0.1)) b->clear(); dn = b->size(); } dv.coeff.resize(dn); for(size_t t = 0; t < dn; ++t) dv[t] = (*b)[t];
				bool in = g.chance(0.5), dead = dn == 0; { Unwatched u; errno = 0; } ok = attempt(s, [&] { if(in) { q = o[i]; q /= dv; } else q = o[i] / dv; }); int e = errno; Unwatched u; errno = 0; if(!ok) break;
				if(dead) { if(!e) VIOL("division", "a division by the null polynomial reports no error"); break; }
				if(e) break;     // gave up and said so
				// the remainder must be of lower degree than the divisor
				MV p = MV(q.coeff.begin(), q.coeff.end()), z; pmul(z, p, *b); LD mg = 1; for(double t : z) mg = std::max(mg, (LD) std::fabs(t)); for(double t : m[i]) mg = std::max(mg, (LD) std::fabs(t)); for(double t : p) mg = std::max(mg, (LD) std::fabs(t)); MV r = m[i]; padd(r, z, -1); for(size_t t = dn - 1; t < r.size(); ++t) if(!(std::fabs(r[t]) <= 1e-9 * (double) mg)) VIOL("division", "the remainder of a division of %zu by %zu coefficients has the coefficient %.17g of degree %zu", m[i].size(), dn, r[t], t); break; }
		}
		{ Unwatched u; if(ok) m[i] = *w; else m[i] = MV(o[i].coeff.begin(), o[i].coeff.end()); }
		pcheck(s, o, m, loose);
		int redo = -1; { Unwatched u; if(loose >= 0) m[loose] = MV(o[loose].coeff.begin(), o[loose].coeff.end()); for(int q = 0; q < POOL; ++q) { if(m[q].size() > 25) redo = q; for(double e : m[q]) if(!tidy(e)) redo = q; } }
		if(redo >= 0) { o[redo] = P({ x, 1.0, a }); Unwatched u; m[redo] = { x, 1, a }; }
	}
	for(int q = 0; q < POOL; ++q) o[q] = P();
	Unwatched u; c.result = dig(s.n); delete[] m; errno = 0;
}

// ---- numbers: the reference is their algebra in long double
struct Num { LD v[4]; };
struct NComplex { typedef complex<real> T; enum { N = 2 }; static const char* name() { return "complex"; } static T make(const double* x) { return T(x[0], x[1]); } static void get(const T& z, double* x) { x[0] = z.a; x[1] = z.b; }
	static Num mul(Num a, Num b) { return { { a.v[0] * b.v[0] - a.v[1] * b.v[1], a.v[0] * b.v[1] + a.v[1] * b.v[0], 0, 0 } }; } static Num inv(Num a) { LD q = a.v[0] * a.v[0] + a.v[1] * a.v[1]; return { { a.v[0] / q, -a.v[1] / q, 0, 0 } }; } };
struct NQuat { typedef quat<real> T; enum { N = 4 }; static const char* name() { return "quaternion"; } static T make(const double* x) { return T(x[0], x[1], x[2], x[3]); } static void get(const T& z, double* x) { x[0] = z.a; x[1] = z.b; x[2] = z.c; x[3] = z.d; }
	static Num mul(Num p, Num q) { const LD *a = p.v, *b = q.v; return { { a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3], a[0] * b[1] + a[1] * b[0] + a[2] * b[3] - a[3] * b[2], a[0] * b[2] - a[1] * b[3] + a[2] * b[0] + a[3] * b[1], a[0] * b[3] + a[1] * b[2] - a[2] * b[1] + a[3] * b[0] } }; } static Num inv(Num a) { LD q = 0; for(int i = 0; i < 4; ++i) q += a.v[i] * a.v[i]; return { { a.v[0] / q, -a.v[1] / q, -a.v[2] / q, -a.v[3] / q } }; } };
struct NDual { typedef dual T; enum { N = 2 }; static const char* name() { return "dual"; } static T make(const double* x) { return T(x[0], x[1]); } static void get(const T& z, double* x) { x[0] = z.Re(); x[1] = z.Dual(); }
	static Num mul(Num a, Num b) { return { { a.v[0] * b.v[0], a.v[0] * b.v[1] + a.v[1] * b.v[0], 0, 0 } }; } static Num inv(Num a) { return { { 1 / a.v[0], -a.v[1] / (a.v[0] * a.v[0]), 0, 0 } }; } };
struct NDual2 { typedef dual2 T; enum { N = 3 }; static const char* name() { return "dual2"; } static T make(const double* x) { return T(x[0], x[1], x[2]); } static void get(const T& z, double* x) { x[0] = z.Re(); x[1] = z.Dual1(); x[2] = z.Dual2(); }
	static Num mul(Num a, Num b) { return { { a.v[0] * b.v[0], a.v[0] * b.v[1] + a.v[1] * b.v[0], a.v[0] * b.v[2] + 2 * a.v[1] * b.v[1] + a.v[2] * b.v[0], 0 } }; } static Num inv(Num a) { LD x = a.v[0]; return { { 1 / x, -a.v[1] / (x * x), 2 * a.v[1] * a.v[1] / (x * x * x) - a.v[2] / (x * x), 0 } }; } };
struct NMulti { typedef multidual<3> T; enum { N = 4 }; static const char* name() { return "multidual"; } static T make(const double* x) { return T(x[0], vec<real, 3>({ x[1], x[2], x[3] })); } static void get(const T& z, double* x) { x[0] = z.Re(); for(int i = 0; i < 3; ++i) x[i + 1] = z.Dual()[i]; }
	static Num mul(Num a, Num b) { Num r; r.v[0] = a.v[0] * b.v[0]; for(int i = 1; i < 4; ++i) r.v[i] = a.v[0] * b.v[i] + a.v[i] * b.v[0]; return r; } static Num inv(Num a) { Num r; r.v[0] = 1 / a.v[0]; for(int i = 1; i < 4; ++i) r.v[i] = -a.v[i] / (a.v[0] * a.v[0]); return r; } };
struct NMultiDyn { typedef multidual<> T; enum { N = 4 }; static const char* name() { return "multidual (dynamic)"; } static T make(const double* x) { return T(x[0], vec<real>({ x[1], x[2], x[3] })); } static void get(const T& z, double* x) { x[0] = z.Re(); vec<real> v = z.Dual(); for(int i = 0; i < 3; ++i) x[i + 1] = i < (int) v.size() ? v[i] : NAN; } static Num mul(Num a, Num b) { return NMulti::mul(a, b); } static Num inv(Num a) { return NMulti::inv(a); } };
// phasors are compared through the complex number they stand for
struct NPhasor { typedef phasor<real> T; enum { N = 2 }; static const char* name() { return "phasor"; } static T make(const double* x) { return T(std::hypot(x[0], x[1]), std::atan2(x[1], x[0])); } static void get(const T& z, double* x) { x[0] = z.modulus * std::cos(z.phase); x[1] = z.modulus * std::sin(z.phase); } static Num mul(Num a, Num b) { return NComplex::mul(a, b); } static Num inv(Num a) { return NComplex::inv(a); } };
template<typename T> static void by_number(T& z, const T& y, int f, double k) { switch(f) { case 0: z += k; break; case 1: z -= k; break; case 2: z *= k; break; case 3: z /= k; break; case 4: z = y + k; break; case 5: z = y - k; break; case 6: z = y * k; break; default: z = y / k; } }
static void by_number(quat<real>& z, const quat<real>& y, int f, double k) { switch(f) { case 0: z = z + k; break; case 1: z = z - k; break; case 2: z *= k; break; case 3: z /= k; break; case 4: z = y + k; break; case 5: z = y - k; break; case 6: z = y * k; break; default: z = y / k; } }
static void by_number(phasor<real>& z, const phasor<real>& y, int f, double k) { phasor<real> q(std::fabs(k), k < 0 ? PI : 0.0); switch(f) { case 0: z += q; break; case 1: z -= q; break; case 2: z *= q; break; case 3: z /= q; break; case 4: z = y + q; break; case 5: z = y - q; break; case 6: z = y * q; break; default: z = y / q; } }
template<typename T> static void invert(T& z) { z = z.inverse(); } static void invert(complex<real>& z) { z.invert(); } static void invert(quat<real>& z) { z.invert(); } static void invert(phasor<real>& z) { z.invert(); }
template<typename T> static bool minus(T& z, const T& y) { z = -y; return true; } static bool minus(phasor<real>& z, const phasor<real>& y) { z = 0.0 - y; return true; }
template<typename T> static bool equal(T& z, T& y) { return z == y; } static bool equal(quat<real>& z, quat<real>& y) { return z.a == y.a && z.b == y.b && z.c == y.c && z.d == y.d; }
template<typename T> static double slack(const T&) { return 1e-9; } static double slack(const phasor<real>&) { return 1e-5; }     // the arc tangent is only good to 1e-8
template<typename A> static void number_session(OpCall& c) {
	typedef typename A::T T; T o[POOL]; Num m[POOL]; Session s = { c, "", 0, 0, false }; Rng& g = c.g; double x[4];
	{ Unwatched u; count(K_SESS); s.n = (unsigned) c.l.num("n", 10); errno = 0; }
	auto fresh = [&](int k) { for(double& q : x) q = (double) g.range(-512, 512) / 128; if(std::fabs(x[0]) < 0.25) x[0] = 1.5; o[k] = A::make(x); A::get(o[k], x); for(int i = 0; i < 4; ++i) m[k].v[i] = i < A::N ? x[i] : 0; };
	for(int k = 0; k < POOL; ++k) fresh(k);
	for(unsigned st = 0; st < s.n; ++st) {
		int i = (int) g.below(POOL), j = g.chance(0.3) ? i : (int) g.below(POOL), k = (int) g.below(POOL); double a = dvs(g) * 1.5; Num w = m[i]; int f = (int) g.below(14); bool num = false;
		switch(f) {
			case 0: STEP("operator+="); attempt(s, [&] { o[i] += o[j]; }); for(int q = 0; q < 4; ++q) w.v[q] += m[j].v[q]; break;
			case 1: STEP("operator-="); attempt(s, [&] { o[i] -= o[j]; }); for(int q = 0; q < 4; ++q) w.v[q] -= m[j].v[q]; break;
			case 2: STEP("operator*="); attempt(s, [&] { o[i] *= o[j]; }); w = A::mul(m[i], m[j]); break;
			case 3: STEP("operator/="); attempt(s, [&] { o[i] /= o[j]; }); w = A::mul(m[i], A::inv(m[j])); break;
			case 4: STEP("a + b"); attempt(s, [&] { o[i] = o[k] + o[j]; }); for(int q = 0; q < 4; ++q) w.v[q] = m[k].v[q] + m[j].v[q]; break;
			case 5: STEP("a - b"); attempt(s, [&] { o[i] = o[k] - o[j]; }); for(int q = 0; q < 4; ++q) w.v[q] = m[k].v[q] - m[j].v[q]; break;
			case 6: STEP("a * b"); attempt(s, [&] { o[i] = o[k] * o[j]; }); w = A::mul(m[k], m[j]); break;
			case 7: STEP("a / b"); attempt(s, [&] { o[i] = o[k] / o[j]; }); w = A::mul(m[k], A::inv(m[j])); break;
			case 8: { STEP("arithmetic with a number"); num = true; int h = (int) g.below(8); attempt(s, [&] { by_number(o[i], o[j], h, a); }); Num y = h < 4 ? m[i] : m[j]; switch(h & 3) { case 0: y.v[0] += a; break; case 1: y.v[0] -= a; break; case 2: for(LD& q : y.v) q *= a; break; default: for(LD& q : y.v) q /= a; } w = y; break; }
			case 9: { STEP("arithmetic from a number"); int h = (int) g.below(4); attempt(s, [&] { switch(h) { case 0: o[i] = a + o[j]; break; case 1: o[i] = a - o[j]; break; case 2: o[i] = a * o[j]; break; default: o[i] = a / o[j]; } }); Num y = m[j]; switch(h) { case 0: y.v[0] += a; break; case 1: for(LD& q : y.v) q = -q; y.v[0] += a; break; case 2: for(LD& q : y.v) q *= a; break; default: y = A::inv(y); for(LD& q : y.v) q *= a; } w = y; break; }
			case 10: { STEP("inverse"); bool in = g.chance(0.5); if(in) w = A::inv(m[i]); else w = A::inv(m[j]); attempt(s, [&] { if(in) invert(o[i]); else o[i] = o[j].inverse(); }); break; }
			case 11: STEP("opposite"); attempt(s, [&] { minus(o[i], o[j]); }); w = m[j]; for(LD& q : w.v) q = -q; break;
			case 12: { STEP("conjugate"); bool e = false; attempt(s, [&] { o[i] = o[j].conjugate(); e = equal(o[i], o[i]); }); w = m[j]; for(int q = 1; q < 4; ++q) w.v[q] = -w.v[q]; Unwatched u; count(K_EQ); if(!e) VIOL("comparison", "%s: a number is not equal to itself", A::name()); break; }
			default: STEP("copy"); attempt(s, [&] { T t(o[j]); o[i] = t; if(g.chance(0.5)) t += o[k]; }); w = m[j]; break;
		}
		Unwatched u; count(K_NUM); if(i == j) count(K_SELF); (void) num;
		m[i] = w;
		for(int t = 0; t < POOL; ++t) {
			A::get(o[t], x); LD mg = 1e-3L; for(int q = 0; q < A::N; ++q) mg = std::max(mg, (LD) std::fabs((double) m[t].v[q]));
			for(int q = 0; q < A::N; ++q) if(!(std::fabs((double) (x[q] - m[t].v[q])) <= slack(o[t]) * mg)) VIOL("wrong-number", "%s: after %s%s, component %d of object %d is %.17g instead of %.17g", A::name(), s.what, i == j ? " (with itself)" : "", q, t, x[q], (double) m[t].v[q]);
		}
		LD nm = 0; for(int q = 0; q < A::N; ++q) { m[i].v[q] = 0; } A::get(o[i], x); for(int q = 0; q < A::N; ++q) { m[i].v[q] = x[q]; nm = std::max(nm, (LD) std::fabs(x[q])); }
		if(!(nm < 1e4L) || std::fabs(x[0]) < 0.05 * (double) nm || std::fabs(x[0]) < 0.05) fresh(i);
	}
	Unwatched u; c.result = dig(s.n); errno = 0;
}
static void gen_n(Rng& g, Line& l, bool th) { l.set("n", (int64_t) g.range(2, th ? 80 : 40)); }
static void op_mat(OpCall& c) { mat_session<mat<real>, true>(c); } static void op_mat33(OpCall& c) { mat_session<mat<real, 3, 3>, false>(c); } static void op_mat23(OpCall& c) { mat_session<mat<real, 2, 3>, false>(c); }
// a rotation by every route: quaternion, product of quaternions, free form and matrix
template<typename V> static void op_rotations(OpCall& c) {
	Rng& g = c.g; unsigned n = (unsigned) c.l.num("n", 8); { Unwatched u; count(K_SESS); }
	for(unsigned st = 0; st < n; ++st) {
		double a, b, ax[3], w[3]; { Unwatched u; count(K_NUM); count(K_ROT); a = g.real(-6, 6); b = g.real(-6, 6); for(int i = 0; i < 3; ++i) { ax[i] = g.real(-2, 2); w[i] = g.real(-4, 4); } ax[g.below(3)] += 3; }
		V axis, v; axis.resize(3); v.resize(3); for(int i = 0; i < 3; ++i) { axis[i] = ax[i]; v[i] = w[i]; } errno = 0;
		quat<real> q = quat<real>::rotation(a, axis), p = quat<real>::rotation(b, axis), pq = p; pq *= q; V r1 = q.transform(v), r2 = quat<real>::rotate(v, a, axis), r3 = pq.transform(v), r4 = quat<real>::rotate(v, a + b, axis), r5 = (q * 2.5).transform(v); V unit = axis; { real nl = th::sqrt(axis[0] * axis[0] + axis[1] * axis[1] + axis[2] * axis[2]); for(int i = 0; i < 3; ++i) unit[i] = axis[i] / nl; } mat3 M = algebra::rotation_3d<mat3>(a, unit), RX = algebra::rotation_3d_xaxis<mat3>(a), RY = algebra::rotation_3d_yaxis<mat3>(a), RZ = algebra::rotation_3d_zaxis<mat3>(a); mat2 R2 = algebra::rotation_2d<mat2>(a); V r6; r6.resize(3); for(unsigned i = 0; i < 3; ++i) r6[i] = M(i, 0) * v[0] + M(i, 1) * v[1] + M(i, 2) * v[2];
		Unwatched u; long double l = sqrtl((long double) ax[0] * ax[0] + (long double) ax[1] * ax[1] + (long double) ax[2] * ax[2]), k[3], dot = 0; for(int i = 0; i < 3; ++i) { k[i] = ax[i] / l; dot += k[i] * w[i]; }
		for(int s = 0; s < 2; ++s) { long double t = s ? (long double) a + b : a; for(int i = 0; i < 3; ++i) { int i1 = (i + 1) % 3, i2 = (i + 2) % 3; long double want = w[i] * cosl(t) + (k[i1] * w[i2] - k[i2] * w[i1]) * sinl(t) + k[i] * dot * (1 - cosl(t)); for(double got : { s ? (double) r3[i] : (double) r1[i], s ? (double) r4[i] : (double) r2[i], s ? (double) r3[i] : (double) r5[i], s ? (double) r4[i] : (double) r6[i] }) if(!near(got, want, 1e-13L)) VIOL("wrong-value", "a rotation by %g gives %.17g instead of %.17g", (double) t, got, (double) want); } }
		long double co = cosl(a), si = sinl(a); for(unsigned i = 0; i < 3; ++i) for(unsigned j = 0; j < 3; ++j) { auto plane = [&](unsigned p, unsigned q) { return i == p && j == p ? co : i == q && j == q ? co : i == p && j == q ? -si : i == q && j == p ? si : i == j ? 1.0L : 0.0L; }; if(!near(RX(i, j), plane(1, 2), 1e-13L) || !near(RY(i, j), plane(2, 0), 1e-13L) || !near(RZ(i, j), plane(0, 1), 1e-13L)) VIOL("wrong-value", "entry (%u, %u) of the rotation by %g around a coordinate axis is wrong", i, j, a); if(i < 2 && j < 2 && !near(R2(i, j), plane(0, 1), 1e-13L)) VIOL("wrong-value", "entry (%u, %u) of the plane rotation by %g is wrong", i, j, a); }
		for(int i = 0; i < 3; ++i) if(axis[i] != ax[i] || v[i] != w[i]) VIOL("other-object-changed", "a rotation changed its operands"); if(errno) VIOL("spurious-error", "a rotation set errno %d", errno);
	}
	Unwatched u; c.result = dig(n);
}
// conversions between the types, components, constructors and named objects
#define IS(GOT, WANT) do { double g_ = (GOT), w_ = (double) (WANT); if(!same(g_, w_)) VIOL("wrong-component", "%s: component is %.17g instead of %.17g", s.what, g_, w_); } while(0)
#define ABOUT(GOT, WANT) do { double g_ = (GOT), w_ = (double) (WANT); if(!(std::fabs(g_ - w_) <= 1e-6 * (1 + std::fabs(w_)))) VIOL("wrong-component", "%s: value is %.17g instead of %.17g", s.what, g_, w_); } while(0)
#define POLAR(GOT, WANT) do { double g_ = (GOT), w_ = (double) (WANT); if(!(std::fabs(g_ - w_) <= 1e-6 * (1 + 3 * std::hypot(x[0], x[1])))) VIOL("wrong-component", "%s: value is %.17g instead of %.17g", s.what, g_, w_); } while(0)     // the arc tangent is only good to 1e-8
#define REFUSED(X) do { if(!(X)) VIOL("not-refused", "%s: the result is a number", s.what); if(!errno) VIOL("not-refused", "%s: no error", s.what); errno = 0; } while(0)
static mat<real> dynamic_of(const mat<real>& a) { return a; }
template<unsigned A, unsigned B> static mat<real> dynamic_of(const mat<real, A, B>& a) { mat<real> m; m = a; return m; }
template<typename M> static bool all_nan(const M& m) { for(unsigned i = 0; i < m.rows(); ++i) for(unsigned j = 0; j < m.cols(); ++j) if(i == j ? m(i, j) == m(i, j) : !(m(i, j) == 0)) return false; return true; }     // the error matrix
template<typename V> static bool vall_nan(const V& v) { for(unsigned i = 0; i < v.size(); ++i) if(v[i] == v[i]) return false; return true; }
static void op_convert(OpCall& c) {
	Session s = { c, "", 0, 0, false }; Rng& g = c.g;
	{ Unwatched u; count(K_SESS); s.n = (unsigned) c.l.num("n", 10); errno = 0; s.hungry = false; }
	for(unsigned st = 0; st < s.n; ++st) {
		double x[6]; { Unwatched u; count(K_STEPS); count(K_CONV); for(double& q : x) { q = nice(g); if(q == 0) q = 1.25; } } errno = 0;
		int f = (int) g.below(26); bool err = false;
		switch(f) {
			case 0: { STEP("complex: construction"); complex<real> z, y(x[0]), w(x[0], x[1]); IS(z.a, 0); IS(z.b, 0); IS(y.a, x[0]); IS(y.b, 0); z = std::array<real, 2>{ { x[2], x[3] } }; IS(z.a, x[2]); IS(z.b, x[3]); z = x[4]; IS(z.a, x[4]); IS(z.b, 0); z.Re() = x[5]; z.Im() = x[1]; IS(z.a, x[5]); IS(z.b, x[1]); const complex<real> k(w); IS(k.Re(), x[0]); IS(k.Im(), x[1]); IS(Re(k), x[0]); IS(Im(k), x[1]); Re(w) = x[3]; Im(w) = x[2]; IS(w.a, x[3]); IS(w.b, x[2]); IS((+k).a, x[0]); IS((+k).b, x[1]); IS(complex<real>::i().a, 0); IS(complex<real>::i().b, 1); break; }
			case 1: { STEP("complex: norm and argument"); complex<real> z(x[0], x[1]); LD q = (LD) x[0] * x[0] + (LD) x[1] * x[1]; ABOUT(z.sqr_norm(), q); ABOUT(z.norm(), sqrtl(q)); ABOUT(z.arg(), std::atan2(x[1], x[0])); ABOUT(complex<real>(x[0], 0).arg(), x[0] > 0 ? 0 : PI); complex<real> r = complex<real>::rotor(x[2]); ABOUT(r.a, std::cos(x[2])); ABOUT(r.b, std::sin(x[2])); IS((real) complex<real>(x[3], 0), x[3]); complex<real> p(x[0], x[1]), o(x[0], x[2]); bool want = x[1] == x[2]; if((p == o) != want || (p != o) == want) VIOL("comparison", "complex numbers (%g, %g) and (%g, %g)", p.a, p.b, o.a, o.b); break; }
			case 2: { STEP("phasor: construction"); phasor<real> z, w(x[0], x[1]), k(w); IS(z.modulus, 0); IS(z.phase, 0); IS(w.modulus, x[0]); IS(w.phase, x[1]); IS(k.modulus, x[0]); IS(k.phase, x[1]); z = std::array<real, 2>{ { x[2], x[3] } }; IS(z.modulus, x[2]); IS(z.phase, x[3]); phasor<real> r(x[4]); ABOUT(r.Re(), x[4]); ABOUT(r.Im(), 0); const phasor<real> o = phasor<real>::rotor(x[5]), i = phasor<real>::i(); IS(o.modulus, 1); IS(o.phase, x[5]); IS(i.modulus, 1); ABOUT(i.phase, M_PI / 2); ABOUT(w.Re(), x[0] * std::cos(x[1])); ABOUT(w.Im(), x[0] * std::sin(x[1])); ABOUT(Re(w), x[0] * std::cos(x[1])); ABOUT(Im(w), x[0] * std::sin(x[1])); ABOUT(w.sqr_norm(), (LD) x[0] * x[0]); ABOUT(w.norm(), x[0]); ABOUT(w.arg(), x[1]); phasor<real> p(x[0], x[2]); bool want = x[1] == x[2]; if((w == p) != want || (w != p) == want) VIOL("comparison", "phasors (%g, %g) and (%g, %g)", w.modulus, w.phase, p.modulus, p.phase); break; }
			case 3: { STEP("phasor and complex"); complex<real> z(x[0], x[1]); phasor<real> p(z), q(2.5, x[2] / 16); POLAR(p.Re(), x[0]); POLAR(p.Im(), x[1]); complex<real> b = p.to_complex(), d = q; POLAR(b.a, x[0]); POLAR(b.b, x[1]); POLAR(d.a, 2.5 * std::cos(x[2] / 16)); POLAR(d.b, 2.5 * std::sin(x[2] / 16)); std::complex<double> w = std::complex<double>(x[0], x[1]) * std::polar(2.5, x[2] / 16); phasor<real> e = q * z, h = z * q; POLAR(e.Re(), w.real()); POLAR(e.Im(), w.imag()); POLAR(h.Re(), w.real()); POLAR(h.Im(), w.imag()); break; }
			case 4: { STEP("division by zero"); err = true; int h = (int) g.below(10); complex<real> z(x[0], x[1]); phasor<real> p(x[0], x[1]); quat<real> q(x[0], x[1], x[2], x[3]); dual d(x[0], x[1]); dual2 e(x[0], x[1], x[2]); switch(h) { case 0: z /= 0.0; break; case 1: z = z / 0.0; break; case 2: z = complex<real>(0, 0); z.invert(); break; case 3: z = complex<real>().inverse(); break; case 4: p /= phasor<real>(0, x[2]); z = complex<real>(p.modulus, p.phase); break; case 5: p = p / phasor<real>(0, x[2]); z = complex<real>(p.modulus, p.phase); break; case 6: q = quat<real>().inverse(); z = complex<real>(q.a, q.a); break; case 7: q /= 0.0; z = complex<real>(q.a, q.a); break; case 8: d = dual(0, x[1]).inverse(); z = complex<real>(d.Re(), d.Dual()); break; default: e = dual2(0, x[1], x[2]).inverse(); z = complex<real>(e.Re(), e.Dual1()); } REFUSED(z.a != z.a && z.b != z.b); break; }
			case 5: { STEP("quaternion: construction"); quat<real> q, r(x[0]), w(x[0], x[1], x[2], x[3]), k(w); IS(q.a, 0); IS(q.b, 0); IS(q.c, 0); IS(q.d, 0); IS(r.a, x[0]); IS(r.b, 0); IS(r.c, 0); IS(r.d, 0); IS(k.Re(), x[0]); IS(k.Im1(), x[1]); IS(k.Im2(), x[2]); IS(k.Im3(), x[3]); IS(Re(k), x[0]); IS(Im1(k), x[1]); IS(Im2(k), x[2]); IS(Im3(k), x[3]); q = std::array<real, 4>{ { x[2], x[3], x[4], x[5] } }; IS(q.a, x[2]); IS(q.b, x[3]); IS(q.c, x[4]); IS(q.d, x[5]); q = +w; IS(q.d, x[3]); IS(q.a, x[0]); LD n = 0; for(int i = 0; i < 4; ++i) n += (LD) x[i] * x[i]; ABOUT(w.sqr_norm(), n); ABOUT(w.norm(), sqrtl(n)); vec<real> v(2u); v[0] = x[0]; v[1] = x[1]; vec<real> t = w.transform(v); if(!errno) VIOL("not-refused", "a vector of two elements was rotated"); errno = 0; break; }
			case 6: { STEP("dual: conversions"); vec2 v({ x[0], x[1] }); dual d(v), e, h(x[2]); IS(e.Re(), 0); IS(e.Dual(), 0); IS(h.Re(), x[2]); IS(h.Dual(), 0); IS(d.Re(), x[0]); IS(d.Dual(), x[1]); e = v; IS(e.Re(), x[0]); IS(e.Dual(), x[1]); e = x[3]; IS(e.Re(), x[3]); IS(e.Dual(), 0); e = std::array<real, 2>{ { x[4], x[5] } }; IS(e.Re(), x[4]); IS(e.Dual(), x[5]); vec2 t = e.to_vec(); IS(t[0], x[4]); IS(t[1], x[5]); e.from_vec(v); IS(e.Re(), x[0]); IS(e.Dual(), x[1]); mat2 m = e.to_mat(), m2 = h.to_mat() * m; IS(m(0, 0), x[0]); IS(m(0, 1), x[1]); IS(m(1, 0), 0); IS(m(1, 1), x[0]); dual pr = h * e; ABOUT(m2(0, 0), pr.Re()); ABOUT(m2(0, 1), pr.Dual()); e.Re() = x[1]; e.Dual() = x[2]; const dual k = e; IS(k.Re(), x[1]); IS(k.Dual(), x[2]); IS(Re(k), x[1]); bool want = x[1] == x[2] && x[2] == x[3]; if((e == dual(x[2], x[3])) != want || !(e == dual(x[1], x[2])) || (e == dual(x[1], x[2] + 1)) || (e == dual(x[1] + 1, x[2]))) VIOL("comparison", "dual numbers"); break; }
			case 7: { STEP("dual2: conversions"); vec3 v({ x[0], x[1], x[2] }); dual2 d(v), e, h(x[3]), w(x[3], x[4]); IS(e.Re(), 0); IS(e.Dual1(), 0); IS(e.Dual2(), 0); IS(h.Re(), x[3]); IS(h.Dual1(), 0); IS(h.Dual2(), 0); IS(w.Dual1(), x[4]); IS(w.Dual2(), 0); IS(d.Re(), x[0]); IS(d.Dual1(), x[1]); IS(d.Dual2(), x[2]); e = v; IS(e.Re(), x[0]); IS(e.Dual1(), x[1]); IS(e.Dual2(), x[2]); e = x[3]; IS(e.Re(), x[3]); IS(e.Dual1(), 0); IS(e.Dual2(), 0); e = std::array<real, 3>{ { x[3], x[4], x[5] } }; IS(e.Re(), x[3]); IS(e.Dual1(), x[4]); IS(e.Dual2(), x[5]); vec3 t = e.to_vec(); IS(t[0], x[3]); IS(t[1], x[4]); IS(t[2], x[5]); e.from_vec(v); IS(e.Re(), x[0]); IS(e.Dual1(), x[1]); IS(e.Dual2(), x[2]); if(!(e == d) || e == dual2(x[0] + 1, x[1], x[2]) || e == dual2(x[0], x[1] + 1, x[2]) || e == dual2(x[0], x[1], x[2] + 1)) VIOL("comparison", "dual numbers of second order"); break; }
			case 8: case 9: { STEP("multidual: arguments and Jacobian"); bool dyn = f == 9; auto run = [&](auto tag) { constexpr unsigned N = decltype(tag)::value; typedef multidual<N> MD; unsigned n = N ? N : 1 + (unsigned) g.below(4); vec<real, N> v; v.resize(n); for(unsigned i = 0; i < n; ++i) v[i] = x[i]; vec<MD, N> a = MD::make_argument(v); if(a.size() != n) VIOL("wrong-component", "an argument of %u variables has %u", n, (unsigned) a.size()); for(unsigned i = 0; i < n; ++i) { IS(a[i].Re(), x[i]); vec<real, N> dd = a[i].Dual(); for(unsigned j = 0; j < n; ++j) IS(dd[j], i == j); } mat<real, N, N> W; W.resize(n, n); for(unsigned i = 0; i < n; ++i) { vec<real, N> q; q.resize(n); for(unsigned j = 0; j < n; ++j) { W(i, j) = x[(i + 2 * j) % 6] + i; q[j] = W(i, j); } a[i] = MD(x[n - 1 - i], q); } vec<real, N> r = MD::extract_real(a), r2; mat<real, N, N> J = MD::extract_dual(a), J2; r2.resize(n); J2.resize(n, n); MD::extract(a, r2, J2); if(r.size() != n || J.rows() != n || J.cols() != n) VIOL("wrong-component", "extracted sizes"); for(unsigned i = 0; i < n; ++i) { IS(r[i], x[n - 1 - i]); IS(r2[i], x[n - 1 - i]); for(unsigned j = 0; j < n; ++j) { IS(J(i, j), W(i, j)); IS(J2(i, j), W(i, j)); } } MD k(x[0]), z; IS(k.Re(), x[0]); IS(z.Re(), 0); k = a[0]; k = x[1]; IS(k.Re(), x[1]); vec<real, N> kd = k.Dual(); for(unsigned j = 0; j < kd.size(); ++j) IS(kd[j], 0); k.Re() = x[2]; k.Dual() = v; IS(k.Re(), x[2]); kd = k.Dual(); IS(kd[n - 1], x[n - 1]); if(k.size() != n) VIOL("wrong-component", "size of a multidual number"); MD k2 = k; if(!(k == k2)) VIOL("comparison", "a multidual number differs from its copy"); k2.Dual()[n - 1] += 1; if(k == k2) VIOL("comparison", "multidual numbers of different dual part are equal"); }; if(dyn) run(std::integral_constant<unsigned, 0>()); else run(std::integral_constant<unsigned, 3>()); break; }
			case 10: { STEP("vectors: products"); unsigned n = 1 + (unsigned) g.below(6); vec<real> v(n), w(n); LD q = 0, nn = 0; for(unsigned i = 0; i < n; ++i) { v[i] = x[i]; w[i] = x[(i + 3) % 6]; q += (LD) x[i] * x[(i + 3) % 6]; nn += (LD) x[i] * x[i]; } ABOUT(v * w, q); ABOUT(v.dot(w), q); ABOUT(algebra::dot(v, w), q); ABOUT(v.sqr_norm(), nn); ABOUT(v.norm(), sqrtl(nn)); vec<real, 4> a({ x[0], x[1], x[2], x[3] }), b({ x[4], x[5], x[1], x[0] }); LD p = (LD) x[0] * x[4] + (LD) x[1] * x[5] + (LD) x[2] * x[1] + (LD) x[3] * x[0]; ABOUT(a * b, p); ABOUT(a.dot(b), p); ABOUT(a.sqr_norm(), (LD) x[0] * x[0] + (LD) x[1] * x[1] + (LD) x[2] * x[2] + (LD) x[3] * x[3]); ABOUT(a.norm(), sqrtl((LD) x[0] * x[0] + (LD) x[1] * x[1] + (LD) x[2] * x[2] + (LD) x[3] * x[3])); for(unsigned i = 0; i < 4; ++i) { IS((+a)[i], x[i]); IS((-a)[i], -x[i]); IS((a * 2.0)[i], 2 * x[i]); IS((2.0 * a)[i], 2 * x[i]); IS((a / 4.0)[i], x[i] / 4); IS((a + b)[i], a[i] + b[i]); IS((a - b)[i], a[i] - b[i]); } break; }
			case 11: { STEP("cross product"); vec3 a({ x[0], x[1], x[2] }), b({ x[3], x[4], x[5] }); vec<real> p({ x[0], x[1], x[2] }), q({ x[3], x[4], x[5] }); vec3 r = a.cross(b), r3 = a.cross(q); vec<real> r2 = p.cross(q), r4 = p.cross(b); for(int i = 0; i < 3; ++i) { int j = (i + 1) % 3, k = (i + 2) % 3; LD t = (LD) x[j] * x[3 + k] - (LD) x[k] * x[3 + j]; ABOUT(r[i], t); ABOUT(r2[i], t); ABOUT(r3[i], t); ABOUT(r4[i], t); IS(a[i], x[i]); IS(q[i], x[3 + i]); } break; }
			case 12: { STEP("cross product of other sizes"); err = true; vec<real> p(3u), q(2u), r; for(int i = 0; i < 3; ++i) p[i] = x[i]; q[0] = x[0]; q[1] = x[1]; r = g.chance(0.5) ? p.cross(q) : vec<real>(algebra::cross(p, q)); REFUSED(vall_nan(r)); break; }
			case 13: { STEP("base vectors"); unsigned n = 1 + (unsigned) g.below(5), k = (unsigned) g.below(n); vec<real> v = vec<real>::euclidean_base(k, n); if(v.size() != n) VIOL("wrong-component", "base vector of size %u", (unsigned) v.size()); for(unsigned i = 0; i < n; ++i) IS(v[i], i == k); vec<real, 4> w = vec<real, 4>::euclidean_base(k % 4); for(unsigned i = 0; i < 4; ++i) IS(w[i], i == k % 4); vec<real, 3> h(3u, x[0]); for(int i = 0; i < 3; ++i) IS(h[i], x[0]); vec<real, 3> z; for(int i = 0; i < 3; ++i) IS(z[i], 0); vec<real, 3> b(x[1]); for(int i = 0; i < 3; ++i) IS(b[i], x[1]); break; }
			case 14: { STEP("base vectors of wrong index"); err = true; unsigned k = (unsigned) g.below(3); if(g.chance(0.5)) { vec<real> v = vec<real>::euclidean_base(3 + k, 3); REFUSED(vall_nan(v)); } else { vec<real, 3> v = vec<real, 3>::euclidean_base(3 + k); REFUSED(vall_nan(v)); } break; }
			case 15: { STEP("make_vec"); vec<real> v = make_vec<real>(x[0], x[1], x[2], x[3]), w = make_vec<real>(x[4], x[5]); if(v.size() != 4 || w.size() != 2) VIOL("wrong-component", "sizes %u and %u", (unsigned) v.size(), (unsigned) w.size()); for(int i = 0; i < 4; ++i) IS(v[i], x[i]); IS(w[0], x[4]); IS(w[1], x[5]); break; }
			case 16: { STEP("lists of the wrong size"); err = true; int h = (int) g.below(5); switch(h) { case 0: { vec<real, 3> v({ x[0], x[1] }); REFUSED(vall_nan(v)); break; } case 1: { mat<real, 2, 2> m = { { x[0], x[1] }, { x[2], x[3] }, { x[4], x[5] } }; REFUSED(all_nan(m)); break; } case 2: { mat<real, 2, 2> m = { { x[0], x[1] }, { x[2] } }; REFUSED(all_nan(m)); break; } case 3: { mat<real> m = { { x[0], x[1] }, { x[2] } }; REFUSED(all_nan(m)); break; } default: { vec<real, 3> v({ x[0], x[1], x[2] }); v.resize(2); REFUSED(v.size() == 3 && same(v[0], x[0])); } } break; }
			case 17: { STEP("matrices from lists"); mat<real, 2, 3> a = { { x[0], x[1], x[2] }, { x[3], x[4], x[5] } }; mat<real> b = { { x[0], x[1], x[2] }, { x[3], x[4], x[5] } }, d = { { x[0], x[1] }, { x[2], x[3] }, { x[4], x[5] } }; if(b.rows() != 2 || b.cols() != 3 || d.rows() != 3 || d.cols() != 2 || a.size() != 6 || b.size() != 6) VIOL("wrong-component", "sizes of matrices from lists"); const mat<real, 2, 3>& ca = a; const mat<real>& cb = b; for(unsigned i = 0; i < 2; ++i) for(unsigned j = 0; j < 3; ++j) { IS(a(i, j), x[3 * i + j]); IS(b(i, j), x[3 * i + j]); IS(d(j, i), x[2 * j + i]); IS(ca.at(i, j), x[3 * i + j]); IS(ca(i, j), x[3 * i + j]); IS(ca.get(i, j), x[3 * i + j]); IS(cb.at(i, j), x[3 * i + j]); IS(cb(i, j), x[3 * i + j]); IS(cb.get(i, j), x[3 * i + j]); } mat<real> e = dynamic_of(a); mat<real, 2, 3> h(b), z; e(0, 0) += 1; h(1, 2) += 1; if(!(e != a) || !(h != b) || !(h != e)) VIOL("comparison", "matrices that differ by an element are equal"); e(0, 0) = x[0]; if(!(e == a) || !(a == b)) VIOL("comparison", "equal matrices differ"); for(auto q : z) IS(q, 0); double sum = 0, want = 0; for(auto q : ca) sum += q; for(auto q : cb) sum -= q; IS(sum, want); break; }
			case 18: { STEP("matrix by vector"); mat<real, 2, 3> a = { { x[0], x[1], x[2] }, { x[3], x[4], x[5] } }; mat<real> b = dynamic_of(a); vec<real, 3> v({ x[5], x[2], x[0] }); vec<real> w({ x[5], x[2], x[0] }); vec<real, 2> r = a * v, r2 = a.transform(v); vec<real> r3 = b * w, r4 = b.transform(w), r5 = algebra::transform(b, w); for(unsigned i = 0; i < 2; ++i) { LD t = (LD) x[3 * i] * x[5] + (LD) x[3 * i + 1] * x[2] + (LD) x[3 * i + 2] * x[0]; ABOUT(r[i], t); ABOUT(r2[i], t); ABOUT(r3[i], t); ABOUT(r4[i], t); ABOUT(r5[i], t); } mat<real, 2, 2> sq = { { x[0], x[1] }, { x[2], x[3] } }; vec<real> y({ x[4], x[5] }), y2 = sq.transform(y); ABOUT(y2[0], (LD) x[0] * x[4] + (LD) x[1] * x[5]); ABOUT(y2[1], (LD) x[2] * x[4] + (LD) x[3] * x[5]); break; }
			case 19: { STEP("products of other sizes"); err = true; mat<real, 2, 2> a = { { x[0], x[1] }, { x[2], x[3] } }; mat<real> b = dynamic_of(a), k(3, 2); for(auto& e : k) e = x[4]; vec<real> w({ x[0], x[1], x[2] }); int h = (int) g.below(6); switch(h) { case 0: REFUSED(vall_nan(vec<real>(b.transform(w)))); break; case 1: REFUSED(vall_nan(vec<real>(a.transform(w)))); break; case 2: REFUSED(all_nan(b.mul(k))); break; case 3: REFUSED(all_nan(dynamic_of(a.mul(k)))); break; case 4: REFUSED(all_nan(dynamic_of(b * k))); break; default: REFUSED(all_nan(dynamic_of(a * k))); } break; }
			case 20: { STEP("products of matrices"); mat<real, 2, 3> a = { { x[0], x[1], x[2] }, { x[3], x[4], x[5] } }; mat<real, 3, 2> t = { { x[1], x[0] }, { x[3], x[2] }, { x[5], x[4] } }; mat<real> b = dynamic_of(a), d = dynamic_of(t); mat<real, 2, 2> p = a * t, p2 = a.mul(t); mat<real> p3 = b * d, p4 = b.mul(d), p5 = dynamic_of(a * d); mat<real, 2, 2> p6 = algebra::mat_mul<mat<real, 2, 3>, mat<real, 3, 2>, mat<real, 2, 2>>(a, t); for(unsigned i = 0; i < 2; ++i) for(unsigned j = 0; j < 2; ++j) { LD q = 0; for(unsigned k = 0; k < 3; ++k) q += (LD) a(i, k) * t(k, j); ABOUT(p(i, j), q); ABOUT(p2(i, j), q); ABOUT(p3(i, j), q); ABOUT(p4(i, j), q); ABOUT(p5(i, j), q); ABOUT(p6(i, j), q); } mat<real, 2, 3> n = 2.0 * a, o = a / 4.0, q = a + a, r = a - n; mat<real> nb = 2.0 * b, ob = b / 4.0; for(unsigned i = 0; i < 2; ++i) for(unsigned j = 0; j < 3; ++j) { IS(n(i, j), 2 * a(i, j)); IS(nb(i, j), 2 * a(i, j)); IS(o(i, j), a(i, j) / 4); IS(ob(i, j), a(i, j) / 4); IS(q(i, j), 2 * a(i, j)); IS(r(i, j), -a(i, j)); } break; }
			case 21: { STEP("polynomial division"); polynomial<real> d, q; unsigned nd = 1 + (unsigned) g.below(3), nq = 1 + (unsigned) g.below(3); for(unsigned i = 0; i < nd; ++i) d += polynomial<real>::monomial(i + 1 == nd ? dvs(g) : std::ldexp(std::floor(x[i]), -4), i); for(unsigned i = 0; i < nq; ++i) q += polynomial<real>::monomial(i + 1 == nq ? dvs(g) : std::floor(x[i + 3]), i); polynomial<real> p = d * q; for(unsigned i = 0; i + 1 < nd; ++i) p += polynomial<real>::monomial(x[i] / 4, i); polynomial<real> r = p / d, t = p; t /= d; double big = 1; for(unsigned i = 0; i < q.size(); ++i) big = std::max(big, (double) std::fabs(q[i])); for(unsigned i = 0; i < std::max<size_t>(r.size(), nq); ++i) { double want = i < nq ? q[i] : 0, got = i < r.size() ? r[i] : 0, got2 = i < t.size() ? t[i] : 0; if(!(std::fabs(got - want) <= 1e-9 * big) || !(std::fabs(got2 - want) <= 1e-9 * big)) VIOL("wrong-component", "the quotient of polynomials of degree %u and %u has the coefficient %.17g instead of %.17g", (unsigned) p.find_order(), nd - 1, got, want); } if(q.find_order() != nq - 1) VIOL("wrong-component", "a polynomial of degree %u has degree %u", nq - 1, (unsigned) q.find_order()); if(polynomial<real>().find_order() != 0 || polynomial<real>({ 0.0, 0.0 }).find_order() != 0 || polynomial<real>({ x[0], x[1], 0.0 }).find_order() != 1) VIOL("wrong-component", "degree of a polynomial with null coefficients"); break; }
			case 22: { STEP("polynomial division by zero"); err = true; polynomial<real> p({ x[0], x[1], x[2] }), r; if(g.chance(0.3)) r = p / polynomial<real>(); else if(g.chance(0.3)) r = p / polynomial<real>({ 0.0, 0.0 }); else if(g.chance(0.5)) { r = p / 0.0; r = polynomial<real>(nan()); } else { r = p; r /= 0.0; r = polynomial<real>(nan()); } REFUSED(r.size() && r[0] != r[0]); break; }
			case 23: { STEP("numbers and polynomials"); polynomial<real> p({ x[0], x[1], x[2] }), a = x[3] + p, b = x[3] - p, d = x[3] * p, e = p + polynomial<real>(x[3]), h = polynomial<real>::monomial(x[4], 3), k(std::vector<real>{ x[3], x[4] }), m(p); for(int i = 0; i < 3; ++i) { IS(a[i], x[i] + (i ? 0 : x[3])); IS(b[i], (i ? 0 : x[3]) - x[i]); IS(d[i], x[i] * x[3]); IS(e[i], a[i]); IS(h[i], 0); IS(p.get(i), x[i]); } IS(h[3], x[4]); IS(k[0], x[3]); IS(k[1], x[4]); if(k.size() != 2 || h.size() != 4) VIOL("wrong-component", "sizes of polynomials"); m.at(1) = x[5]; IS(m[1], x[5]); IS(p[1], x[1]); double sum = 0; for(auto q : p) sum += q; IS(sum, 0.0 + x[0] + x[1] + x[2]); break; }
			case 24: { STEP("complex elements"); vec<complex<real>> v(3u), w(3u); std::complex<double> q = 0; for(int i = 0; i < 3; ++i) { v[i] = complex<real>(x[i], x[i + 3]); w[i] = complex<real>(x[5 - i], x[2 - i]); } vec<complex<real>> t = v + w, d = v - w, k = v * complex<real>(0, 1); for(int i = 0; i < 3; ++i) { IS(t[i].a, x[i] + x[5 - i]); IS(t[i].b, x[i + 3] + x[2 - i]); IS(d[i].a, x[i] - x[5 - i]); IS(d[i].b, x[i + 3] - x[2 - i]); IS(k[i].a, -x[i + 3]); IS(k[i].b, x[i]); } break; }
			default: { STEP("sign and product of a dual matrix"); mat<real> m(2, 2); m(0, 0) = x[0]; m(0, 1) = x[1]; m(1, 0) = x[2]; m(1, 1) = x[3]; ABOUT(algebra::trace(m), x[0] + x[3]); ABOUT(algebra::diagonal_product(m), (LD) x[0] * x[3]); mat<real, 2, 2> n(m); ABOUT(algebra::trace(n), x[0] + x[3]); ABOUT(algebra::diagonal_product(n), (LD) x[0] * x[3]); n.transpose(); IS(n(0, 1), x[2]); IS(n(1, 0), x[1]); IS(m(0, 1), x[1]); }
		}
		Unwatched u; if(errno && !err) VIOL("spurious-error", "%s set errno %d", s.what, errno); errno = 0;
	}
	Unwatched u; c.result = dig(s.n);
}
const OpDef OPS[] = { { "vectors", op_vec, gen_n, 5 }, { "matrices", op_mat, gen_n, 5 }, { "square_matrices", op_mat33, gen_n, 2 }, { "fixed_matrices", op_mat23, gen_n, 2 }, { "fixed_vectors", op_fixed, gen_n, 2 }, { "polynomials", op_poly, gen_n, 5 },
	{ "complex_numbers", number_session<NComplex>, gen_n, 1 }, { "quaternions", number_session<NQuat>, gen_n, 1 }, { "dual_numbers", number_session<NDual>, gen_n, 1 }, { "second_order_duals", number_session<NDual2>, gen_n, 1 }, { "multiduals", number_session<NMulti>, gen_n, 1 }, { "dynamic_multiduals", number_session<NMultiDyn>, gen_n, 1 }, { "phasors", number_session<NPhasor>, gen_n, 1 }, { "rotations", op_rotations<vec3>, gen_n, 1 }, { "rotations_dynamic", op_rotations<vec<real>>, gen_n, 1 }, { "conversions", op_convert, gen_n, 3 } };
const unsigned NOPS = sizeof OPS / sizeof OPS[0];
const OpsConfig OPSCFG = { 3, 4, 0.3, 40000000 };
OPS_HARNESS
