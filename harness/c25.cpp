// C25: automatic derivatives are those of the program that ran. A user function
// executes a random program of arithmetic and elementary functions on whatever
// number type it is given; the same program is followed in long double with its
// gradient and Hessian. Calls are interrupted, starved of memory and nested.
#include "ops.h"
#include <new>
enum { K_CALLS, K_EVAL, K_OPS, K_THROW, K_FAULT, K_NEST, K_DYN, K_REFUSED, K_FUNCTOR, K_SECOND, K_BRANCH, K_ACC };
namespace sim {
const char* PROPERTY = "C25"; const char* VARIANT = "default";
const char* CTR_NAMES[] = { "derivatives", "evaluations", "program_operations", "exceptions_injected", "allocation_failures_injected", "nested_derivatives", "variable_numbers_of_variables", "refused_calls", "function_objects", "second_derivatives", "operations_chosen_by_the_point", "constants_accumulated", nullptr };
}
using namespace sim;
typedef long double LD;
struct Boom { int tag; };
enum { ADD, SUB, MUL, DIV, IADD, ISUB, IMUL, IDIV, ADDC, SUBC, MULC, DIVC, CADD, CSUB, CMUL, CDIV, IADDC, ISUBC, IMULC, IDIVC, NEG, POS, ACC, INV, SQUARE, CUBE, POW, SQRT, SIN, COS, TAN, COT, EXP, LN, LOG2, LOG10, ABS, ASIN, ACOS, ATAN, LAST2, SINH = LAST2, COSH, TANH, LAST };
enum { REGS = 7, MAXOPS = 14, MAXV = 6 };
struct Op { int k, a, b, d, n; double c; };
// value, gradient and Hessian, with a majorant that bounds the rounding of each
struct Jet { LD v = 0, g[MAXV] = {}, h[MAXV][MAXV] = {}; };
struct Ref { Jet x, m; };
static Jet jmul(const Jet& a, const Jet& b) { Jet r; r.v = a.v * b.v; for(int i = 0; i < MAXV; ++i) { r.g[i] = a.g[i] * b.v + a.v * b.g[i]; for(int j = 0; j < MAXV; ++j) r.h[i][j] = a.h[i][j] * b.v + a.v * b.h[i][j] + a.g[i] * b.g[j] + a.g[j] * b.g[i]; } return r; }
static Jet jadd(const Jet& a, const Jet& b, LD s) { Jet r; r.v = a.v + s * b.v; for(int i = 0; i < MAXV; ++i) { r.g[i] = a.g[i] + s * b.g[i]; for(int j = 0; j < MAXV; ++j) r.h[i][j] = a.h[i][j] + s * b.h[i][j]; } return r; }
static Jet jfun(const Jet& a, LD f, LD f1, LD f2) { Jet r; r.v = f; for(int i = 0; i < MAXV; ++i) { r.g[i] = f1 * a.g[i]; for(int j = 0; j < MAXV; ++j) r.h[i][j] = f1 * a.h[i][j] + f2 * a.g[i] * a.g[j]; } return r; }
static Ref fun(const Ref& a, LD f, LD f1, LD f2, LD f3) { Ref r; LD s = 1 + fabsl(a.m.v); r.x = jfun(a.x, f, f1, f2); r.m = jfun(a.m, fabsl(f) + fabsl(f1) * s, fabsl(f1) + fabsl(f2) * s, fabsl(f2) + fabsl(f3) * s); return r; }
static Ref constant(double c) { Ref r; r.x.v = c; r.m.v = std::fabs(c); return r; }
static Ref add(const Ref& a, const Ref& b, LD s) { Ref r; r.x = jadd(a.x, b.x, s); r.m = jadd(a.m, b.m, 1); return r; }
static Ref mul(const Ref& a, const Ref& b) { Ref r; r.x = jmul(a.x, b.x); r.m = jmul(a.m, b.m); return r; }
static Ref inv(const Ref& a) { LD v = a.x.v; return fun(a, 1 / v, -1 / (v * v), 2 / (v * v * v), 6 / (v * v * v * v)); }
static bool follow(const Op& o, const Ref* r, Ref& w) {
	const Ref &a = r[o.a], &b = r[o.b]; LD v = a.x.v, t; 
	switch(o.k) {
		case ADD: case IADD: w = add(a, b, 1); break; case SUB: case ISUB: w = add(a, b, -1); break; case MUL: case IMUL: w = mul(a, b); break;
		case DIV: case IDIV: if(fabsl(b.x.v) < 1e-3L) return false; w = mul(a, inv(b)); break;
		case ADDC: case CADD: case IADDC: w = add(a, constant(o.c), 1); break; case SUBC: case ISUBC: w = add(a, constant(o.c), -1); break; case CSUB: w = add(constant(o.c), a, -1); break;
		case MULC: case CMUL: case IMULC: w = mul(a, constant(o.c)); break; case DIVC: case IDIVC: w = mul(a, inv(constant(o.c))); break;
		case CDIV: if(fabsl(v) < 1e-3L) return false; w = mul(constant(o.c), inv(a)); break; case INV: if(fabsl(v) < 1e-3L) return false; w = inv(a); break;
		case NEG: w = add(constant(0), a, -1); break; case POS: w = a; break; case ACC: w = add(add(constant(o.c), a, 1), b, 1); break;
		case SQUARE: w = mul(a, a); break; case CUBE: w = mul(a, mul(a, a)); break;
		case POW: { if(fabsl(v) < 1e-3L && o.n < 0) return false; LD n = o.n; auto q = [&](LD c, LD e) -> LD { return c == 0 ? 0 : c * powl(v, e); }; w = fun(a, powl(v, n), q(n, n - 1), q(n * (n - 1), n - 2), q(n * (n - 1) * (n - 2), n - 3)); break; }
		case SQRT: if(v < 1e-3L) return false; t = sqrtl(v); w = fun(a, t, 0.5L / t, -0.25L / (t * v), 0.375L / (t * v * v)); break;
		case SIN: w = fun(a, sinl(v), cosl(v), -sinl(v), -cosl(v)); break; case COS: w = fun(a, cosl(v), -sinl(v), -cosl(v), sinl(v)); break;
		case TAN: if(fabsl(cosl(v)) < 0.3L) return false; t = tanl(v); w = fun(a, t, 1 + t * t, 2 * t * (1 + t * t), (2 + 6 * t * t) * (1 + t * t)); break;
		case COT: if(fabsl(sinl(v)) < 0.3L) return false; t = 1 / tanl(v); w = fun(a, t, -(1 + t * t), 2 * t * (1 + t * t), -(2 + 6 * t * t) * (1 + t * t)); break;
		case EXP: if(fabsl(v) > 20) return false; t = expl(v); w = fun(a, t, t, t, t); break;
		case LN: case LOG2: case LOG10: { if(v < 1e-3L) return false; LD k = o.k == LN ? 1 : o.k == LOG2 ? 1 / logl(2) : 1 / logl(10); w = fun(a, k * logl(v), k / v, -k / (v * v), 2 * k / (v * v * v)); break; }
		case ABS: if(fabsl(v) < 0.01L) return false; w = fun(a, fabsl(v), v > 0 ? 1 : -1, 0, 0); break;
		case ASIN: case ACOS: { if(fabsl(v) > 0.95L || (o.k == ACOS && fabsl(v) < 0.01L)) return false; LD q = 1 - v * v, s = o.k == ASIN ? 1 : -1; w = fun(a, o.k == ASIN ? asinl(v) : acosl(v), s / sqrtl(q), s * v / (q * sqrtl(q)), (1 + 2 * v * v) / (q * q * sqrtl(q))); break; }
		case ATAN: { LD q = 1 + v * v; w = fun(a, atanl(v), 1 / q, -2 * v / (q * q), (6 * v * v - 2) / (q * q * q)); break; }
		case SINH: case COSH: if(fabsl(v) > 9) return false; w = o.k == SINH ? fun(a, sinhl(v), coshl(v), sinhl(v), coshl(v)) : fun(a, coshl(v), sinhl(v), coshl(v), sinhl(v)); break;
		case TANH: if(fabsl(v) > 30) return false; t = tanhl(v); w = fun(a, t, 1 - t * t, -2 * t * (1 - t * t), (6 * t * t - 2) * (1 - t * t)); break;
	}
	if(!(fabsl(w.x.v) < 1e4L) || !(w.m.v < 1e6L)) return false;
	for(int i = 0; i < MAXV; ++i) { if(!(w.m.g[i] < 1e8L)) return false; for(int j = 0; j < MAXV; ++j) if(!(w.m.h[i][j] < 1e10L)) return false; }
	return true;
}
struct Prog { int vars = 0, len = 0, boom = -1, nest = -1, outs = 1; unsigned evals = 0; Op op[MAXOPS]; double x[MAXV]; Ref ref[REGS]; Prog* inner = nullptr; };
static thread_local Prog* P;
static void write(Rng& g, Prog& p, int vars, bool second) {
	p.vars = vars; for(int i = 0; i < vars; ++i) { switch(g.below(6)) { case 0: p.x[i] = (double) g.range(-2, 2); break; case 1: p.x[i] = (double) g.range(-3000, 3000) / 100; break; case 2: p.x[i] = (double) g.range(-300, 300) / 1e5; break; default: p.x[i] = (double) g.range(-300, 300) / 100; } p.ref[i] = constant(p.x[i]); p.ref[i].x.g[i] = p.ref[i].m.g[i] = 1; }
	for(int i = vars; i < REGS; ++i) p.ref[i] = p.ref[i % vars];
	static const double cs[] = { 2, -1.5, 0.5, -0.25, 3, 1 };
	int want = (int) g.range(1, MAXOPS);
	for(int k = 0; k < want; ++k) for(int t = 0; t < 8; ++t) {
		Op o; o.k = (int) g.below(second ? LAST2 : LAST); o.a = (int) g.below(REGS); o.b = (int) g.below(REGS); o.d = (int) g.below(REGS); o.n = (int) g.range(-2, 5); o.c = cs[g.below(6)];
		if((o.k >= IADD && o.k <= IDIV) || (o.k >= IADDC && o.k <= IDIVC)) o.d = o.a;
		Ref w; if(follow(o, p.ref, w)) { p.ref[o.d] = w; p.op[p.len++] = o; count(K_OPS); break; } else count(K_BRANCH);
	}
}
template<typename T> static void exec_op(const Op& o, T* r) {
	switch(o.k) {
		case ADD: r[o.d] = r[o.a] + r[o.b]; break; case SUB: r[o.d] = r[o.a] - r[o.b]; break; case MUL: r[o.d] = r[o.a] * r[o.b]; break; case DIV: r[o.d] = r[o.a] / r[o.b]; break;
		case IADD: r[o.d] += r[o.b]; break; case ISUB: r[o.d] -= r[o.b]; break; case IMUL: r[o.d] *= r[o.b]; break; case IDIV: r[o.d] /= r[o.b]; break;
		case ADDC: r[o.d] = r[o.a] + o.c; break; case SUBC: r[o.d] = r[o.a] - o.c; break; case MULC: r[o.d] = r[o.a] * o.c; break; case DIVC: r[o.d] = r[o.a] / o.c; break;
		case CADD: r[o.d] = o.c + r[o.a]; break; case CSUB: r[o.d] = o.c - r[o.a]; break; case CMUL: r[o.d] = o.c * r[o.a]; break; case CDIV: r[o.d] = o.c / r[o.a]; break;
		case IADDC: r[o.d] += o.c; break; case ISUBC: r[o.d] -= o.c; break; case IMULC: r[o.d] *= o.c; break; case IDIVC: r[o.d] /= o.c; break;
		case NEG: r[o.d] = -r[o.a]; break; case POS: r[o.d] = +r[o.a]; break; case INV: r[o.d] = r[o.a].inverse(); break;
		case ACC: { T s(o.c); s += r[o.a]; s += r[o.b]; r[o.d] = s; { Unwatched u; count(K_ACC); } break; }
		case SQUARE: r[o.d] = th::square(r[o.a]); break; case CUBE: r[o.d] = th::cube(r[o.a]); break; case POW: r[o.d] = th::pow(r[o.a], o.n); break; case SQRT: r[o.d] = th::sqrt(r[o.a]); break;
		case SIN: r[o.d] = th::sin(r[o.a]); break; case COS: r[o.d] = th::cos(r[o.a]); break; case TAN: r[o.d] = th::tan(r[o.a]); break; case COT: r[o.d] = th::cot(r[o.a]); break;
		case EXP: r[o.d] = th::exp(r[o.a]); break; case LN: r[o.d] = th::ln(r[o.a]); break; case LOG2: r[o.d] = th::log2(r[o.a]); break; case LOG10: r[o.d] = th::log10(r[o.a]); break;
		case ABS: r[o.d] = th::abs(r[o.a]); break; case ASIN: r[o.d] = th::asin(r[o.a]); break; case ACOS: r[o.d] = th::acos(r[o.a]); break; case ATAN: r[o.d] = th::atan(r[o.a]); break;
	}
}
template<typename T> static void exec_more(const Op& o, T* r) { switch(o.k) { case SINH: r[o.d] = th::sinh(r[o.a]); break; case COSH: r[o.d] = th::cosh(r[o.a]); break; case TANH: r[o.d] = th::tanh(r[o.a]); break; } }
static void exec_more(const Op&, dual2*) { }
static void inner_call(Prog* in);
static void is(const char* what, double got, LD want, LD m);
template<typename T> static void exec(Prog& p, T* r) {
	p.evals++;
	for(int k = 0; k < p.len; ++k) {
		if(p.boom == k) throw Boom{ k };
		if(p.nest == k && p.inner) { Prog* keep = P; inner_call(p.inner); P = keep; }
		exec_op(p.op[k], r); exec_more(p.op[k], r);
	}
	Unwatched u; count(K_EVAL); for(int i = 0; i < REGS; ++i) is("a value in the function", r[i].Re(), p.ref[i].x.v, p.ref[i].m.v);
}
template<typename T> static T f1(T x) { Prog& p = *P; T r[REGS]; for(int i = 0; i < REGS; ++i) r[i] = x; exec(p, r); return r[0]; }
template<typename T, typename V> static T fn(V v) { Prog& p = *P; T r[REGS]; for(int i = 0; i < REGS; ++i) r[i] = v[i % p.vars]; exec(p, r); return r[0]; }
template<typename T, typename V, typename W> static W fm(V v) { Prog& p = *P; T r[REGS]; for(int i = 0; i < REGS; ++i) r[i] = v[i % p.vars]; exec(p, r); W w; w.resize(p.outs); for(int i = 0; i < p.outs; ++i) w[i] = r[i]; return w; }
template<unsigned N> static multidual<N> field(vec<multidual<N>, N> v) { return fn<multidual<N>>(v); }
template<unsigned N, unsigned M> static vec<multidual<N>, M> fields(vec<multidual<N>, N> v) { return fm<multidual<N>, vec<multidual<N>, N>, vec<multidual<N>, M>>(v); }
template<unsigned N> static dual2 field2(vec<dual2, N> v) { return fn<dual2>(v); }
static void is(const char* what, double got, LD want, LD m) { if(!(std::fabs((double) (got - want)) <= 2e-7 * (double) m + 1e-12)) VIOL("wrong-derivative", "%s: %.15g instead of %.15g (majorant %g)", what, got, (double) want, (double) m); }
static void inner_call(Prog* in) {
	P = in; in->evals = 0; real d = 0; vec<real> gr; vec<real> x(in->vars);
	if(in->vars == 1) d = autodiff::deriv([](dual t) { return f1(t); }, in->x[0]); else { for(int i = 0; i < in->vars; ++i) x[i] = in->x[i]; gr = autodiff::gradient(field<0>, x); }
	Unwatched u; count(K_NEST); if(in->vars == 1) is("a derivative inside a function", d, in->ref[0].x.g[0], in->ref[0].m.g[0]); else for(int i = 0; i < in->vars; ++i) is("a gradient inside a function", i < (int) gr.size() ? (double) gr[i] : NAN, in->ref[0].x.g[i], in->ref[0].m.g[i]);
}
// run a call: interrupted, without memory, then undisturbed
template<typename F> static void runs(OpCall& c, Prog& p, const char* what, unsigned evals, F f) {
	int mode; { Unwatched u; P = &p; count(K_CALLS); errno = 0; mode = (int) c.g.below(4); }
	if(mode == 1 && p.len) {
		bool got = false; { Unwatched u; p.boom = (int) c.g.below(p.len); p.evals = 0; }
		try { f(); } catch(const Boom& b) { got = b.tag == p.boom; }
		Unwatched u; count(K_THROW); if(!got) VIOL("exception-lost", "%s: the exception of the function did not reach the caller", what); if(p.evals != 1) VIOL("evaluated-again", "%s evaluated a function that threw %u times", what, p.evals); p.boom = -1;
	}
	if(mode == 2) {
		{ Unwatched u; alloc_fault_at(1 + c.g.below(10), 1); } bool bad = false;
		try { f(); } catch(const std::bad_alloc&) { bad = true; }
		Unwatched u; uint64_t fired = alloc_faults_fired(); alloc_fault_at(0, 0); if(fired) count(K_FAULT); if(bad && !fired) VIOL("exception", "%s ran out of memory that was there", what);
	}
	{ Unwatched u; P = &p; p.evals = 0; errno = 0; }
	f();
	Unwatched u; if(p.evals != evals) VIOL("evaluations", "%s evaluated the function %u times instead of %u", what, p.evals, evals); if(errno) VIOL("spurious-error", "%s set errno %d", what, errno);
}
static void prepare(OpCall& c, Prog& p, Prog& in, int vars, bool second) { Unwatched u; errno = 0; write(c.g, p, vars, second); if(c.g.chance(0.4) && p.len) { write(c.g, in, 1 + (int) c.g.below(3), false); p.inner = &in; p.nest = (int) c.g.below(p.len); } }
static void op_deriv(OpCall& c) {
	Prog p, in; prepare(c, p, in, 1, false); int form = (int) c.g.below(3); real d = 0, v = 0;
	auto f = [](dual t) { return f1(t); };
	runs(c, p, "deriv", 1, [&] { if(form == 0) d = autodiff::deriv(f, p.x[0]); else if(form == 1) { auto df = autodiff::deriv(f); d = df(p.x[0]); } else { dual r = f(dual(p.x[0], 1)); d = r.Dual(); v = r.Re(); } });
	Unwatched u; if(form == 1) count(K_FUNCTOR); const Ref& r = p.ref[0]; is("deriv", d, r.x.g[0], r.m.g[0]); if(form == 2) is("value on a dual number", v, r.x.v, r.m.v); c.result = dig(p.len);
}
static void op_deriv2(OpCall& c) {
	Prog p, in; prepare(c, p, in, 1, true); int form = (int) c.g.below(3); real d = 0, v = 0, d1 = 0;
	auto f = [](dual2 t) { return f1(t); };
	runs(c, p, "deriv2", 1, [&] { if(form == 0) d = autodiff::deriv2(f, p.x[0]); else if(form == 1) { auto df = autodiff::deriv2(f); d = df(p.x[0]); } else { dual2 r = f(dual2(p.x[0], 1, 0)); d = r.Dual2(); d1 = r.Dual1(); v = r.Re(); } });
	Unwatched u; count(K_SECOND); if(form == 1) count(K_FUNCTOR); const Ref& r = p.ref[0]; is("deriv2", d, r.x.h[0][0], r.m.h[0][0]); if(form == 2) { is("value on a dual number of second order", v, r.x.v, r.m.v); is("first derivative on a dual number of second order", d1, r.x.g[0], r.m.g[0]); } c.result = dig(p.len);
}
template<unsigned N> static void op_gradient(OpCall& c) {
	Prog p, in; int n; { Unwatched u; n = N ? (int) N : 1 + (int) c.g.below(MAXV); } prepare(c, p, in, n, false); int form = (int) c.g.below(5); vec<real, N> x, gr; real div = 0; x.resize(n); for(int i = 0; i < n; ++i) x[i] = p.x[i];
	runs(c, p, form < 3 ? "gradient" : "divergence", 1, [&] { switch(form) { case 0: gr = autodiff::gradient(field<N>, x); break; case 1: { auto gf = autodiff::gradient(field<N>); gr = gf(x); break; } case 2: gr = field<N>(autodiff::make_autodiff_arg<multidual<N>>(x)).Dual(); break; case 3: div = autodiff::divergence(field<N>, x); break; default: { auto gf = autodiff::divergence(field<N>); div = gf(x); } } });
	Unwatched u; if(!N) count(K_DYN); if(form == 1 || form == 4) count(K_FUNCTOR); const Ref& r = p.ref[0]; LD s = 0, m = 0;
	for(int i = 0; i < n; ++i) { if(form < 3) is("gradient", i < (int) gr.size() ? (double) gr[i] : NAN, r.x.g[i], r.m.g[i]); s += r.x.g[i]; m += r.m.g[i]; } if(form >= 3) is("divergence", div, s, m); if(form < 3 && (int) gr.size() != n) VIOL("wrong-size", "the gradient of a function of %d variables has %u elements", n, (unsigned) gr.size()); for(int i = 0; i < n; ++i) if(x[i] != p.x[i]) VIOL("changed-point", "a gradient changed its point"); c.result = dig(p.len);
}
template<unsigned N, unsigned M> static void op_jacobian(OpCall& c) {
	Prog p, in; int n, m; { Unwatched u; n = N ? (int) N : 1 + (int) c.g.below(MAXV); m = M ? (int) M : 1 + (int) c.g.below(MAXV); p.outs = m; } prepare(c, p, in, n, false); int form = (int) c.g.below(2); vec<real, N> x; x.resize(n); for(int i = 0; i < n; ++i) x[i] = p.x[i]; mat<real, M, N> J;
	runs(c, p, "jacobian", 1, [&] { if(form == 0) J = autodiff::jacobian(fields<N, M>, x); else { auto jf = autodiff::jacobian(fields<N, M>); J = jf(x); } });
	Unwatched u; if(!N) count(K_DYN); if(form) count(K_FUNCTOR); if((int) J.rows() != m || (int) J.cols() != n) VIOL("wrong-size", "the Jacobian of %d functions of %d variables is %u x %u", m, n, J.rows(), J.cols()); for(int i = 0; i < m; ++i) for(int j = 0; j < n; ++j) is("jacobian", J(i, j), p.ref[i].x.g[j], p.ref[i].m.g[j]); c.result = dig(p.len);
}
template<unsigned N> static void op_curl(OpCall& c) {
	Prog p, in; { Unwatched u; p.outs = 3; } prepare(c, p, in, 3, false); int form = (int) c.g.below(2); vec<real, N> x, r; x.resize(3); for(int i = 0; i < 3; ++i) x[i] = p.x[i];
	runs(c, p, "curl", 1, [&] { if(form == 0) r = autodiff::curl(fields<N, N>, x); else { auto cf = autodiff::curl(fields<N, N>); r = cf(x); } });
	{ Unwatched u; if(!N) count(K_DYN); if(form) count(K_FUNCTOR); for(int i = 0; i < 3; ++i) { int j = (i + 1) % 3, k = (i + 2) % 3; is("curl", i < (int) r.size() ? (double) r[i] : NAN, p.ref[k].x.g[j] - p.ref[j].x.g[k], p.ref[k].m.g[j] + p.ref[j].m.g[k]); } errno = 0; }
	if(!N && c.g.chance(0.3)) { vec<real, 0> y; y.resize(2); y[0] = x[0]; y[1] = x[1]; vec<real, 0> q = autodiff::curl(fields<0, 0>, y); Unwatched u; count(K_REFUSED); if(!errno) VIOL("not-refused", "the curl at a point of the plane gave no error"); for(unsigned i = 0; i < q.size(); ++i) if(q[i] == q[i]) VIOL("not-refused", "the curl at a point of the plane is a number"); errno = 0; }
	c.result = dig(p.len);
}
template<unsigned N> static void op_laplacian(OpCall& c) {
	Prog p, in; int n; { Unwatched u; n = N ? (int) N : 1 + (int) c.g.below(MAXV); } prepare(c, p, in, n, true); int form = (int) c.g.below(2); vec<real, N> x; x.resize(n); for(int i = 0; i < n; ++i) x[i] = p.x[i]; real l = 0;
	runs(c, p, "laplacian", (unsigned) n, [&] { if(form == 0) l = autodiff::laplacian(field2<N>, x); else { auto lf = autodiff::laplacian(field2<N>); l = lf(x); } });
	Unwatched u; if(!N) count(K_DYN); if(form) count(K_FUNCTOR); count(K_SECOND); LD s = 0, m = 0; for(int i = 0; i < n; ++i) { s += p.ref[0].x.h[i][i]; m += p.ref[0].m.h[i][i]; } is("laplacian", l, s, m); c.result = dig(p.len);
}
// derivatives along a direction and along the flow of a Hamiltonian
template<unsigned N> static multidual<N> hamiltonian(vec<multidual<N>, N> v) { multidual<N> s = v[0] * v[v.size() - 1] * 3.0; for(unsigned i = 0; i < v.size(); ++i) s = s + v[i] * v[i] * (i + 1.0); return s; }
template<unsigned N> static void op_direction(OpCall& c) {
	Prog p, in; int n; { Unwatched u; n = N ? (int) N : 1 + (int) c.g.below(MAXV); } prepare(c, p, in, n, false); int form = (int) c.g.below(n % 2 ? 2 : 3); vec<real, N> x, v, r; x.resize(n); v.resize(n); for(int i = 0; i < n; ++i) { x[i] = p.x[i]; v[i] = (double) c.g.range(-8, 8) / 4; } real b = 0;
	runs(c, p, form < 2 ? "directional_derivative" : "sturm_liouville", 1, [&] { if(form == 0) r = autodiff::directional_derivative(field<N>, x, v); else if(form == 1) { auto df = autodiff::directional_derivative(field<N>, v); r = df(x); } else b = autodiff::sturm_liouville(field<N>, hamiltonian<N>, x); });
	Unwatched u; if(!N) count(K_DYN); if(form == 1) count(K_FUNCTOR); const Ref& f = p.ref[0]; LD s = 0, m = 0;
	if(form == 2) { auto h = [&](int i) { return 2 * (i + 1.0L) * p.x[i] + (i == 0 ? 3 * p.x[n - 1] : 0) + (i == n - 1 ? 3 * p.x[0] : 0); }; for(int i = 0; i < n / 2; ++i) { int j = i + n / 2; s += f.x.g[i] * h(j) - f.x.g[j] * h(i); m += f.m.g[i] * fabsl(h(j)) + f.m.g[j] * fabsl(h(i)); } is("sturm_liouville", b, s, m); }
	else { if((int) r.size() != n) VIOL("wrong-size", "a directional derivative in %d variables has %u elements", n, (unsigned) r.size()); for(int i = 0; i < n; ++i) { s += v[i] * f.x.g[i]; m += fabsl(v[i]) * f.m.g[i]; } for(int i = 0; i < n; ++i) is("directional_derivative", r[i], v[i] * s, fabsl(v[i]) * m); }
	c.result = dig(p.len);
}
const OpDef OPS[] = { { "deriv", op_deriv, nullptr, 3 }, { "deriv2", op_deriv2, nullptr, 3 }, { "gradient", op_gradient<3>, nullptr, 2 }, { "gradient_2", op_gradient<2>, nullptr, 1 }, { "gradient_dynamic", op_gradient<0>, nullptr, 3 }, { "jacobian_2_3", op_jacobian<2, 3>, nullptr, 1 }, { "jacobian_3_3", op_jacobian<3, 3>, nullptr, 1 }, { "jacobian_3_2", op_jacobian<3, 2>, nullptr, 1 }, { "jacobian_dynamic", op_jacobian<0, 0>, nullptr, 2 }, { "curl", op_curl<3>, nullptr, 1 }, { "curl_dynamic", op_curl<0>, nullptr, 2 }, { "direction", op_direction<4>, nullptr, 1 }, { "direction_2", op_direction<2>, nullptr, 1 }, { "direction_dynamic", op_direction<0>, nullptr, 2 }, { "laplacian", op_laplacian<3>, nullptr, 1 }, { "laplacian_2", op_laplacian<2>, nullptr, 1 }, { "laplacian_dynamic", op_laplacian<0>, nullptr, 2 } };
const unsigned NOPS = sizeof OPS / sizeof OPS[0];
const OpsConfig OPSCFG = { 3, 8, 0.3, 40000000 };
OPS_HARNESS
