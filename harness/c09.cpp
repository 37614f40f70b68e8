// C09: printing to a failing sink never corrupts the object or hides the failure.
#include "words.h"
#include "utility.h"
#include <iomanip>
#include <sstream>
namespace sim {
const char* PROPERTY = "C09"; 
#ifdef THEORETICA_THROW_EXCEPTIONS
const char* VARIANT = "exceptions";
#else
const char* VARIANT = "default";
#endif
enum { K_PRINTS, K_FAIL, K_SHORT, K_THROW, K_PREFAILED, K_FMT, K_WIDTH, K_HELPERS, K_STDOUT, K_BYTES, K_HEALTHY };
const char* CTR_NAMES[] = { "prints", "sink_refusals", "short_writes", "sink_exceptions", "prints_to_failed_stream", "unusual_stream_formats", "padded_prints", "print_helper_calls", "prints_to_standard_output", "bytes_accepted", "healthy_prints", nullptr };
}
using namespace sim;

struct SinkError { int k; };
// Accepts `room` bytes (-1: unlimited), then refuses, writes short or throws.
struct Sink : std::streambuf {
	std::string got; long room = -1; int how = 0; size_t block = 0; char buf[16]; bool refused = false;
	void open(long r, int h, size_t b) { got.clear(); room = r; how = h; block = b; refused = false; setp(buf, buf + (b > 16 ? 16 : b)); }
	long take(const char* s, long n) {
		long k = room < 0 || room >= n ? n : room;
		got.append(s, k); count(K_BYTES, k); if(room >= 0) room -= k;
		if(k < n) { refused = true; if(how == 2) { count(K_THROW); throw SinkError{ 1 }; } count(k ? K_SHORT : K_FAIL); }
		return k;
	}
	bool drain() { long n = pptr() - pbase(); if(!n) return true; char tmp[16]; memcpy(tmp, pbase(), n); setp(buf, buf + (block > 16 ? 16 : block)); return take(tmp, n) == n; }
	int_type overflow(int_type c) override { Unwatched u; if(!drain()) return traits_type::eof(); if(traits_type::eq_int_type(c, traits_type::eof())) return 0; char ch = traits_type::to_char_type(c); return take(&ch, 1) == 1 ? c : traits_type::eof(); }
	std::streamsize xsputn(const char* s, std::streamsize n) override {
		Unwatched u;
		if(n <= 0) return 0;
		if(how == 1) { std::streamsize i = 0; for(; i < n; ++i) { if(!drain() || take(s + i, 1) != 1) break; } return i; }
		if(!drain()) return 0;
		return take(s, n);
	}
	int sync() override { Unwatched u; try { return drain() ? 0 : -1; } catch(const SinkError&) { return -1; } }   // called from the sentry's noexcept destructor under unitbuf: must not throw
};
// standard streams: who wrote to them
struct Watch : std::streambuf {
	uint64_t writes[64] = {}; Sink* to = nullptr; int owner = -1;
	int_type overflow(int_type c) override { Unwatched u; int t = self(); if(to && t == owner) return to->sputc(traits_type::to_char_type(c)); writes[t & 63]++; return traits_type::not_eof(c); }
	std::streamsize xsputn(const char* s, std::streamsize n) override { Unwatched u; int t = self(); if(to && t == owner) return to->sputn(s, n); writes[t & 63]++; return n; }
	int sync() override { Unwatched u; return to && self() == owner ? to->pubsync() : 0; }
};
static Watch *w_out, *w_err, *w_log;
static void watch() { if(w_out) return; w_out = new Watch; w_err = new Watch; w_log = new Watch; std::cout.rdbuf(w_out); std::cerr.rdbuf(w_err); std::clog.rdbuf(w_log); std::cout.clear(); }
static uint64_t stray() { int t = self() & 63; return w_out->writes[t] + w_err->writes[t] + w_log->writes[t]; }

struct Fmt { std::ios_base::fmtflags f; std::streamsize prec; char fill; std::streamsize width; };
static Fmt fmt_of(std::ostream& o) { return { o.flags(), o.precision(), o.fill(), o.width() }; }
static void odd_format(std::ostream& o, Rng& g) {
	if(g.chance(0.5)) return;
	count(K_FMT);
	if(g.chance(0.5)) o.precision(g.range(0, 12));
	if(g.chance(0.3)) o.setf(g.chance(0.5) ? std::ios_base::hex : std::ios_base::oct, std::ios_base::basefield);
	if(g.chance(0.3)) o.setf(g.chance(0.5) ? std::ios_base::scientific : std::ios_base::fixed, std::ios_base::floatfield);
	if(g.chance(0.3)) o.setf(std::ios_base::showpos | std::ios_base::boolalpha | std::ios_base::showpoint);
	if(g.chance(0.3)) o.fill('*');
	if(g.chance(0.2)) o.setf(std::ios_base::unitbuf);
	if(g.chance(0.2)) o.setf(std::ios_base::left, std::ios_base::adjustfield);
}
// One print: `put` prints to the stream it is given; `text` is what it should
// write; `object` digests the printed objects; `single`: one object, may be padded
template<typename Put, typename Obj> static void check_print(OpCall& c, const std::string& text, Put put, Obj object, bool single, bool to_stdout) {
	std::ostream* o; Sink* s; std::string want = text; uint64_t before, stray0; Fmt f0; bool pre, exc, must_fail; int e0; std::ios_base::iostate st0;
	{
		Unwatched u; watch(); s = new Sink; o = to_stdout ? &std::cout : new std::ostream(s);
		if(to_stdout) { w_out->to = s; w_out->owner = self(); std::cout.exceptions(std::ios_base::goodbit); std::cout.clear(); std::cout.copyfmt(std::ios(nullptr)); std::cout.clear(); count(K_STDOUT); }
		long room = c.g.chance(0.3) ? -1 : (long) c.g.below(text.size() + 2); if(room > (long) text.size() + 1) room = -1;
		s->open(room, (int) c.g.below(3), c.g.chance(0.3) ? c.g.range(1, 16) : 0);
		odd_format(*o, c.g);
		if(single && c.g.chance(0.15)) { o->width(c.g.range(1, (int64_t) text.size() + 20)); count(K_WIDTH); std::ostringstream ref; ref.copyfmt(*o); ref.width(o->width()); ref << text; want = ref.str(); }
		pre = c.g.chance(0.06); if(pre) { o->setstate(c.g.chance(0.5) ? std::ios_base::failbit : std::ios_base::badbit); count(K_PREFAILED); }
		exc = !pre && c.g.chance(0.15) && !(o->flags() & std::ios_base::unitbuf); if(exc) o->exceptions(std::ios_base::badbit | std::ios_base::failbit);
		f0 = fmt_of(*o); before = object(); stray0 = stray(); count(K_PRINTS); e0 = errno = (int) c.g.below(3); st0 = o->rdstate();
	}
	bool threw = false, foreign = false;
	try { put(*o); } catch(const SinkError&) { threw = true; } catch(const std::ios_base::failure&) { threw = true; } catch(...) { foreign = true; }
	Unwatched u;
	int e1 = errno; bool failed_now = o->fail();
	if(foreign) VIOL("spurious-exception", "printing threw something else than the sink's failure");
	if(threw && !exc) VIOL("spurious-exception", "printing threw though the stream has no exceptions enabled");
	if(!o->fail()) { try { o->flush(); } catch(...) { threw = true; } }
	must_fail = s->refused;
	if(pre) { if(!s->got.empty()) VIOL("wrote-to-failed-stream", "printing to a stream that had failed wrote %zu bytes", s->got.size()); if(!o->fail()) VIOL("failure-cleared", "printing to a stream that had failed cleared its state"); }
	else {
		if(s->got.size() > want.size() || want.compare(0, s->got.size(), s->got) != 0) VIOL("wrong-text", "the sink received \"%.200s\", which is not a prefix of \"%.200s\"", s->got.c_str(), want.c_str());
		if(must_fail) { if(!o->fail()) VIOL("failure-hidden", "the sink failed after %zu of %zu bytes and the stream does not report it", s->got.size(), want.size()); if(exc && !threw) VIOL("failure-hidden", "the sink failed after %zu bytes and no exception arrived", s->got.size()); }
		else {
			if(s->got != want) VIOL("wrong-text", "the sink received \"%.200s\" instead of \"%.200s\"", s->got.c_str(), want.c_str());
			if(o->fail() || threw) VIOL("spurious-failure", "everything was written but the stream reports a failure");
			count(K_HEALTHY);
		}
	}
	if(stray() != stray0) VIOL("other-stream", "printing wrote to another standard stream");
	if(object() != before) VIOL("object-changed", "printing changed the printed object");
	Fmt f1 = fmt_of(*o);
	if(f1.f != f0.f || f1.prec != f0.prec || f1.fill != f0.fill) VIOL("format-changed", "printing changed the formatting settings of the stream");
	if(f1.width != 0 && f1.width != f0.width) VIOL("format-changed", "printing left a field width of %ld", (long) f1.width);
	if(e1 != e0) VIOL("error-indicator", "printing changed errno from %d to %d", e0, e1);
	// again, to a healthy sink
	s->open(-1, 0, 0);
	if(to_stdout) { std::cout.exceptions(std::ios_base::goodbit); std::cout.clear(); } else { o->exceptions(std::ios_base::goodbit); o->clear(); }
	o->width(0);
	{ struct W { W() { } } w; }
	std::string again;
	put(*o); o->flush(); again = s->got;
	if(again != text) VIOL("not-repeatable", "printing again gave \"%.200s\" instead of \"%.200s\"", again.c_str(), text.c_str());
	c.result = dig(text) + dig(want);
	if(to_stdout) { w_out->to = nullptr; w_out->owner = -1; std::cout.clear(); } else delete o;
	delete s;
}

// ---- values
static double val(Rng& g) {
	switch(g.below(12)) {
		case 0: return 0; case 1: return -0.0; case 2: return 1; case 3: return -1; case 4: return NAN; case 5: return g.chance(0.5) ? INFINITY : -INFINITY;
		case 6: return 1e-17; case 7: return g.real(-1e-15, 1e-15); case 8: return g.real(-1e20, 1e20); case 9: return (double) g.range(-9, 9);
		default: return g.real(-100, 100);
	}
}
struct AnyDig {
	template<typename T> static uint64_t of(const T& t) { return dig(t); }
	static uint64_t of(const histogram& h) { Dig d; d(h.bins()); d(h.number()); d(h.mean()); d(h.tss()); d(h.max()); d(h.min()); return d.h; }
#ifdef THEORETICA_THROW_EXCEPTIONS
	static uint64_t of(const math_exception& e) { return dig((int) e.err_code(), e.get_function_name(), e.get_file_name(), e.get_line_number(), e.get_value()); }
#endif
	static uint64_t of(const regression::linear_model& m) { return dig(m.A, m.B, m.sigma_A, m.sigma_B, m.err, m.chi_squared, m.ndf, m.p_value, m.covar_mat); }
	template<typename A, typename B> static uint64_t of(const ratio<A, B>& r) { return dig(r.num, r.den); }
	template<typename V> static uint64_t of(const ode::ode_solution_t<V>& s) { return dig(s.t, s.x); }
};
// print one object in one of the ways the library offers
template<typename T> static void print_obj(OpCall& c, const T& obj) {
	std::string text = obj.to_string(); int way = (int) c.g.below(c.thread == 0 ? 8 : 4);
	{ Unwatched u; T copy = obj; std::string conv = copy; if(conv != text) VIOL("wrong-text", "the conversion to string differs from to_string()"); if(way) count(K_HELPERS); }
	auto dg = [&obj]() { return AnyDig::of(obj); };
	auto run = [&](std::string t, std::function<void(std::ostream&)> put, bool single, bool so) { check_print(c, t, put, dg, single, so); };
	switch(way) {
		case 0: run(text, [&](std::ostream& o) { std::ostream& r = (o << obj); if(&r != &o) VIOL("wrong-stream", "operator<< returned another stream"); }, true, false); break;
		case 1: run(text, [&](std::ostream& o) { fprint(o, obj); }, true, false); break;
		case 2: run(text + "\n", [&](std::ostream& o) { fprintln(o, obj); }, false, false); break;
		case 3: run(text + " b " + text + " end" + "\n", [&](std::ostream& o) { fprintln(o, obj, "b", obj, "end"); }, false, false); break;
		case 4: run(text, [&](std::ostream& o) { print(obj); }, true, true); break;
		case 5: run(text + "\n", [&](std::ostream& o) { println(obj); }, false, true); break;
		case 6: run("a " + text, [&](std::ostream& o) { print("a", obj); }, false, true); break;
		default: run(text + " " + text + "\n", [&](std::ostream& o) { println(obj, obj); }, false, true); break;
	}
}
#define OP_PRINT(NAME, ...) static void NAME(OpCall& c) { Rng& g = c.g; (void) g; __VA_ARGS__ }
template<unsigned N> static vec<real, N> rv(Rng& g, unsigned n) { vec<real, N> v(n, 0.0); for(unsigned i = 0; i < n; ++i) v[i] = val(g); return v; }
OP_PRINT(op_vecd, print_obj(c, rv<0>(g, (unsigned) g.below(g.chance(0.03) ? 200 : 9)));)
OP_PRINT(op_vecs, if(g.chance(0.5)) { vec<real, 3> v; for(int i = 0; i < 3; ++i) v[i] = val(g); print_obj(c, v); } else { vec<real, 1> v; v[0] = val(g); print_obj(c, v); })
OP_PRINT(op_vecc, vec<complex<real>> v((unsigned) g.below(5)); for(size_t i = 0; i < v.size(); ++i) v[i] = complex<real>(val(g), val(g)); print_obj(c, v);)
OP_PRINT(op_matd, unsigned r = 1 + (unsigned) g.below(g.chance(0.03) ? 20 : 4), k = 1 + (unsigned) g.below(g.chance(0.03) ? 20 : 4); mat<real> m(r, k); for(unsigned i = 0; i < r; ++i) for(unsigned j = 0; j < k; ++j) m(i, j) = val(g); print_obj(c, m);)
OP_PRINT(op_mats, mat<real, 2, 3> m; for(unsigned i = 0; i < 2; ++i) for(unsigned j = 0; j < 3; ++j) m(i, j) = val(g); print_obj(c, m);)
OP_PRINT(op_complex, print_obj(c, complex<real>(val(g), val(g)));)
OP_PRINT(op_phasor, print_obj(c, phasor<real>(val(g), val(g)));)
OP_PRINT(op_quat, print_obj(c, quat<real>(val(g), val(g), val(g), val(g)));)
OP_PRINT(op_dual, print_obj(c, dual(val(g), val(g)));)
OP_PRINT(op_dual2, print_obj(c, dual2(val(g), val(g), val(g)));)
OP_PRINT(op_multidual, vec<real, 3> v; for(int i = 0; i < 3; ++i) v[i] = val(g); print_obj(c, multidual<3>(val(g), v));)
OP_PRINT(op_poly, std::vector<real> v; for(uint64_t i = g.below(g.chance(0.05) ? 40 : 6); i; --i) v.push_back(val(g)); print_obj(c, polynomial<real>(v));)
OP_PRINT(op_ratio, print_obj(c, ratio<real>(val(g), val(g)));)
OP_PRINT(op_ratio_poly, std::vector<real> a { val(g), val(g), 1 }, b { val(g), 2 }; print_obj(c, ratio<polynomial<real>>(polynomial<real>(a), polynomial<real>(b)));)
OP_PRINT(op_hist, histogram h((unsigned) g.range(1, g.chance(0.05) ? 80 : 6), -2, 2); for(uint64_t i = g.below(20); i; --i) h.insert(g.real(-3, 3)); print_obj(c, h);)
#ifdef THEORETICA_THROW_EXCEPTIONS
OP_PRINT(op_error, math_exception e((MATH_ERRCODE) g.below(64), g.chance(0.5) ? "f" : "", "file.h", (unsigned) g.below(500), val(g)); print_obj(c, e);)
#define ERR_OP { "math_exception", op_error, nullptr, 6 },
#else
#define ERR_OP
#endif
OP_PRINT(op_model, regression::linear_model m; if(g.chance(0.8)) { vec<real> x(5), y(5); for(int i = 0; i < 5; ++i) { x[i] = i + 0.5; y[i] = val(g); } if(g.chance(0.5)) m = regression::linear_model(x, y); else m = regression::linear_model(x, y, 0.5); } print_obj(c, m);)
OP_PRINT(op_ode, ode::ode_solution_t<vec<real, 2>> s; unsigned n = (unsigned) g.below(5); s.t.resize(n); s.x.resize(n); for(unsigned i = 0; i < n; ++i) { s.t[i] = i * 0.1; s.x[i] = vec<real, 2>({ val(g), val(g) }); } print_obj(c, s);)
const OpDef OPS[] = { { "vec", op_vecd, nullptr, 2 }, { "vec_static", op_vecs, nullptr, 1 }, { "vec_complex", op_vecc, nullptr, 1 }, { "mat", op_matd, nullptr, 2 }, { "mat_static", op_mats, nullptr, 1 }, { "complex", op_complex, nullptr, 1 }, { "phasor", op_phasor, nullptr, 1 }, { "quat", op_quat, nullptr, 1 },
	{ "dual", op_dual, nullptr, 1 }, { "dual2", op_dual2, nullptr, 1 }, { "multidual", op_multidual, nullptr, 1 }, { "polynomial", op_poly, nullptr, 2 }, { "ratio", op_ratio, nullptr, 1 }, { "ratio_poly", op_ratio_poly, nullptr, 1 }, { "histogram", op_hist, nullptr, 2 }, ERR_OP { "linear_model", op_model, nullptr, 2 }, { "ode_solution", op_ode, nullptr, 1 } };
const unsigned NOPS = sizeof OPS / sizeof OPS[0];
const OpsConfig OPSCFG = { 3, 6, 0.3, 20000000 };
OPS_HARNESS
