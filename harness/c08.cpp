// C08: reading data from a stream ends and keeps exactly the valid lines.
#include "words.h"
#include "utility.h"
#include <istream>
#include <streambuf>
namespace sim {
const char* PROPERTY = "C08"; const char* VARIANT = "default";
enum { K_READS, K_LINES, K_BAD, K_CHUNKS, K_EOF, K_THROW, K_TERM, K_PART, K_FAILED, K_RESUME, K_EXC, K_COUT, K_BYTES };
const char* CTR_NAMES[] = { "reads", "values_returned", "unparseable_lines", "chunks_delivered", "ended_by_end_of_input", "read_errors_injected", "ended_by_terminator", "partial_last_lines", "reads_on_failed_stream", "resumed_after_end_of_input", "exceptions_propagated", "standard_output_failures", "bytes_delivered", nullptr };
}
using namespace sim;

// Delivers `text` in chunks; at each position in `stops` reports end of input
// once ('e') or fails by throwing ('t').
struct ReadError { int k; };
struct Chunks : std::streambuf {
	std::string text; size_t pos = 0, delivered = 0; Rng g; int mode; std::vector<std::pair<size_t, char>> stops; size_t nstop = 0; char buf[64];
	uint64_t calls = 0;
	Chunks(const std::string& t, uint64_t seed, int mode) : text(t), g(seed), mode(mode) { setg(buf, buf, buf); }
	int_type underflow() override {
		Unwatched u;
		if(gptr() < egptr()) return traits_type::to_int_type(*gptr());
		if(++calls > 200000) VIOL("endless-reading", "the stream was asked for more input %llu times", (unsigned long long) calls);
		size_t lim = nstop < stops.size() ? stops[nstop].first : text.size();
		if(pos >= lim) {
			if(nstop < stops.size()) { char k = stops[nstop].second; nstop++; if(k == 't') { count(K_THROW); throw ReadError{ (int) nstop }; } }
			return traits_type::eof();
		}
		size_t n = mode == 0 ? 1 : mode == 1 ? (size_t) g.range(1, 3) : mode == 2 ? (size_t) g.range(1, 64) : 64;
		if(n > lim - pos) n = lim - pos;
		memcpy(buf, text.data() + pos, n); pos += n; count(K_CHUNKS); count(K_BYTES, n);
		setg(buf, buf, buf + n);
		return traits_type::to_int_type(*gptr());
	}
	size_t consumed() const { return pos - (egptr() - gptr()); }
};
struct Sink : std::streambuf {
	long room = -1;     // bytes accepted before failing, -1 = unlimited
	int_type overflow(int_type c) override { Unwatched u; if(room == 0) { count(K_COUT); return traits_type::eof(); } if(room > 0) room--; return traits_type::not_eof(c); }
	std::streamsize xsputn(const char*, std::streamsize n) override { Unwatched u; if(room < 0) return n; if(n > room) { n = room; room = 0; count(K_COUT); return n; } room -= n; return n; }
};
static Sink* sink() { static Sink* s = nullptr; if(!s) { s = new Sink; std::cout.rdbuf(s); std::cout.clear(); } return s; }

static std::string gen_text(Rng& g, const std::string& term, bool keys) {
	std::string t; unsigned n = g.chance(0.1) ? 0 : (unsigned) g.range(1, g.chance(0.1) ? 120 : 14);
	if(g.chance(0.002)) n = (unsigned) g.range(500, 4000);
	bool wide = g.chance(0.01);      // lines longer than any buffer somebody may have in mind
	for(unsigned i = 0; i < n; ++i) {
		char b[80];
		switch(g.below(keys ? 22 : 19)) {
			case 0: case 1: case 2: snprintf(b, sizeof b, "%.6g", g.real(-100, 100)); t += b; break;
			case 3: snprintf(b, sizeof b, "%.17g", g.real(-1e-3, 1e-3)); t += b; break;
			case 4: snprintf(b, sizeof b, "%d,%d", (int) g.range(-50, 50), (int) g.below(100)); t += b; break;
			case 5: snprintf(b, sizeof b, "%de%d", (int) g.range(-9, 9), (int) g.range(-20, 20)); t += b; break;
			case 6: snprintf(b, sizeof b, "%s%g%s", g.chance(0.5) ? " " : "\t", g.real(-3, 3), g.chance(0.5) ? "  " : "\r"); t += b; break;
			case 7: snprintf(b, sizeof b, "%g%s", g.real(-3, 3), g.chance(0.5) ? "abc" : " 7"); t += b; break;
			case 8: t += g.chance(0.5) ? "abc" : "x1.5"; break;
			case 9: break;                                   // empty line
			case 10: t += g.chance(0.5) ? " " : "\r"; break;
			case 11: t += g.chance(0.5) ? "1e999" : "1e-320"; break;
			case 12: t += g.chance(0.5) ? "nan" : g.chance(0.5) ? "-inf" : "0x1p3"; break;
			case 13: t += g.chance(0.5) ? "-" : "."; break;
			case 14: t += term; break;
			case 15: t += g.chance(0.5) ? term + " " : term + "1"; break;
			case 16: t += g.chance(0.5) ? " " + term : "1" + term; break;
			case 17: t += std::string(1, '\0') + "4"; break;
			case 18: if(wide) { static const unsigned ls[] = { 127, 255, 511, 1023, 4095, 8191, 16383, 65535, 70000 }; unsigned k = ls[g.below(9)] + (unsigned) g.range(0, 3) - 1; t += g.chance(0.5) ? std::string(k - 4, ' ') + "12.5" : g.chance(0.5) ? "2." + std::string(k - 2, '1') : std::string(k, '0') + "7"; break; }
				t += g.chance(0.3) ? std::string(300 + g.below(700), '7') : std::string(60 + g.below(10), '0') + ".5"; break;
			case 19: t += "key=" + std::to_string(g.range(-9, 99)); break;
			case 20: t += "key="; break;
			default: t += "throw"; break;
		}
		t += '\n';
	}
	if(g.chance(0.4) && !t.empty()) t.pop_back();
	return t;
}

// reference: what one read should do, given the bytes from `at` on
struct Want { std::vector<std::string> lines; size_t end; int how; bool eof = false; };    // how: 0 terminator, 1 end of input, 2 read error
static Want reference(const Chunks& c, size_t at, size_t nstop, const std::string& term) {
	Want w; std::string line; size_t i = at;
	size_t lim = nstop < c.stops.size() ? c.stops[nstop].first : c.text.size(); char k = nstop < c.stops.size() ? c.stops[nstop].second : 'e';
	if(lim > c.text.size()) lim = c.text.size();
	for(;; ++i) {
		if(i >= lim) {
			w.end = lim; w.how = k == 't' ? 2 : 1;
			if(k != 't' && !line.empty()) {
				count(K_PART);
				if(line == term) { w.how = 0; w.eof = true; } else w.lines.push_back(line);
			}
			return w;
		}
		if(c.text[i] == '\n') {
			if(line == term) { w.end = i + 1; w.how = 0; return w; }
			if(!line.empty()) w.lines.push_back(line);
			line.clear();
		} else line += c.text[i];
	}
}
// parsers
static std::vector<std::string>* seen_by(unsigned t) { static std::vector<std::string>* s[8]; if(!s[t]) s[t] = new std::vector<std::string>; return s[t]; }
static bool p_real(const std::string& l, double& v) { int e = errno; std::string s = l; for(char& c : s) if(c == ',') c = '.'; bool ok = true; try { v = std::stod(s); } catch(...) { ok = false; } errno = e; return ok; }
static bool p_int(const std::string& l, long& v) { int e = errno; bool ok = true; try { size_t n; v = std::stol(l, &n); } catch(...) { ok = false; } errno = e; return ok; }

struct Rd {
	OpCall& c; Chunks* sb; std::string term; int kind; bool exc; unsigned reads;
	Rd(OpCall& c) : c(c) {
		Unwatched u;
		static const char* terms[] = { "", "END", ".", "stop", "0", "1.5", " ", "\r", "-------- end of the measurements, nothing below is data --------", "nan" };
		Sink* s = sink(); if(c.thread == 0) { s->room = c.l.num("coutroom", -1); std::cout.clear(); }
		term = terms[c.g.below(10)]; kind = (int) c.l.num("kind"); if(kind == 1) term = "";
		sb = new Chunks(gen_text(c.g, term, kind >= 2), c.g.next(), (int) c.g.below(4));
		size_t n = sb->text.size(); unsigned ns = c.g.chance(0.5) ? 0 : (unsigned) c.g.range(1, 3);
		std::vector<size_t> ps; for(unsigned i = 0; i < ns; ++i) ps.push_back(c.g.below(n + 1));
		std::sort(ps.begin(), ps.end());
		for(size_t p : ps) sb->stops.push_back({ p, c.g.chance(0.5) ? 'e' : 't' });
		exc = c.g.chance(0.12); reads = (unsigned) c.g.range(1, 5);
	}
	~Rd() { Unwatched u; delete sb; }
};
template<typename T, typename Call, typename Same> static void read_all(Rd& r, std::istream& in, Call call, Same value) {
	for(unsigned i = 0; i < r.reads; ++i) {
		bool good; Want w; size_t at; std::vector<std::string>* seen; int how_failed = 0;
		{
			Unwatched u; seen = seen_by(r.c.thread); seen->clear(); at = r.sb->consumed(); good = in.good();
			if(good) w = reference(*r.sb, at, r.sb->nstop, r.term); else { w.how = 1; w.end = at; count(K_FAILED); }
			count(K_READS);
		}
		vec<T> got; bool threw = false; const char* what = "";
		try { got = call(in); } catch(const ReadError&) { threw = true; what = "ReadError"; } catch(const std::ios_base::failure&) { threw = true; what = "failure"; } catch(...) { threw = true; what = "unknown"; }
		Unwatched u;
		if(threw) {
			count(K_EXC);
			if(!r.exc) VIOL("spurious-exception", "reading from a stream without exceptions enabled threw (%s)", what);
			if(w.how == 0 && !w.eof && good) VIOL("spurious-exception", "reading up to the terminator threw (%s)", what);
			in.exceptions(std::ios_base::goodbit); in.clear();   // a partial line may be lost here
			if(r.sb->consumed() < at) VIOL("stream-moved-back", "reading moved the stream back");
			continue;
		}
		// values
		std::vector<T> want; unsigned bad = 0;
		for(auto& l : w.lines) { T v; if(value(l, v)) want.push_back(v); else bad++; }
		count(K_LINES, got.size()); count(K_BAD, bad); if(w.how == 0) count(K_TERM); if(w.how == 1 && good) count(K_EOF);
		if(got.size() != want.size()) VIOL("wrong-count", "read %zu values, the input has %zu (%zu lines, %u unparseable, ended by %d)", got.size(), want.size(), w.lines.size(), bad, w.how);
		for(size_t k = 0; k < want.size(); ++k) if(dig(got[k]) != dig(want[k])) VIOL("wrong-value", "value %zu of %zu differs from the input line", k, want.size());
		if(r.kind >= 2 && good) {
			if(seen->size() != w.lines.size()) VIOL("parse-calls", "the parser was called %zu times for %zu lines", seen->size(), w.lines.size());
			for(size_t k = 0; k < seen->size(); ++k) if((*seen)[k] != w.lines[k]) VIOL("parse-calls", "the parser got another text for line %zu", k);
		}
		// stream
		size_t end = r.sb->consumed();
		if(end != w.end) VIOL("wrong-position", "the stream stands at byte %zu, it should be at %zu", end, w.end);
		if(w.how == 2 && good && !in.bad()) VIOL("hidden-failure", "the stream failed and no longer says so");
		if(w.how == 0 && !in && good) VIOL("spurious-failure", "the stream is in a failed state after the terminator was found");
		r.c.result = fnv(&end, sizeof end, r.c.result + 1) ^ dig(got);
		if(!in.good() && r.c.g.chance(0.6)) { in.clear(); count(K_RESUME); }
	}
}
static void op_real(OpCall& c) {      // the default parser
	Rd r(c); std::istream in(r.sb); std::string term;
	{ Unwatched u; if(r.exc) in.exceptions(c.g.chance(0.5) ? std::ios_base::badbit : std::ios_base::badbit | std::ios_base::eofbit | std::ios_base::failbit); }
	if(r.kind == 1) read_all<real>(r, in, [](std::istream& i) { return readln(i); }, p_real);
	else { std::string t = r.term; read_all<real>(r, in, [&](std::istream& i) { return readln(i, t); }, p_real); }
}
static void op_cin(OpCall& c) {       // standard input: one thread only
	if(c.thread != 0) return;
	Rd r(c); r.exc = false; { Unwatched u; std::cin.rdbuf(r.sb); std::cin.clear(); std::cin.exceptions(std::ios_base::goodbit); }
	if(r.kind == 1) read_all<real>(r, std::cin, [](std::istream&) { return readln(); }, p_real);
	else { std::string t = r.term; read_all<real>(r, std::cin, [&](std::istream&) { return readln(t); }, p_real); }
	Unwatched u; std::cin.rdbuf(nullptr);
}
static void op_custom_int(OpCall& c) {
	Rd r(c); std::istream in(r.sb); std::string t = r.term; unsigned th_ = c.thread;
	std::function<long(std::string)> parse = [th_](std::string l) -> long { Unwatched u; seen_by(th_)->push_back(l); if(l == "throw") throw 42; if(l.compare(0, 4, "key=") == 0) return std::stol(l.substr(4)); long v; if(!p_int(l, v)) throw std::string("bad"); return v; };
	read_all<long>(r, in, [&](std::istream& i) { return readln<long>(i, t, parse); },
		[](const std::string& l, long& v) { if(l == "throw") return false; if(l.compare(0, 4, "key=") == 0) return p_int(l.substr(4), v); return p_int(l, v); });
}
static void op_custom_real(OpCall& c) {   // a parser that keeps some lines only
	Rd r(c); std::istream in(r.sb); std::string t = r.term; unsigned th_ = c.thread;
	std::function<real(std::string)> parse = [th_](std::string l) -> real { Unwatched u; seen_by(th_)->push_back(l); double v; if(l[0] == '-' || !p_real(l, v)) throw std::runtime_error("bad"); return 2 * v; };
	read_all<real>(r, in, [&](std::istream& i) { return readln<real>(i, t, parse); }, [](const std::string& l, double& v) { if(l[0] == '-' || !p_real(l, v)) return false; v *= 2; return true; });
}
static void gen_r(Rng& g, Line& l, bool) { l.set("kind", g.range(0, 1)); if(g.chance(0.2)) l.set("coutroom", g.range(0, 60)); }
static void gen_c(Rng& g, Line& l, bool) { l.set("kind", 2); if(g.chance(0.2)) l.set("coutroom", g.range(0, 60)); }
const OpDef OPS[] = { { "readln", op_real, gen_r, 4 }, { "readln_stdin", op_cin, gen_r, 1 }, { "readln_parse_int", op_custom_int, gen_c, 2 }, { "readln_parse_real", op_custom_real, gen_c, 2 } };
const unsigned NOPS = sizeof OPS / sizeof OPS[0];
const OpsConfig OPSCFG = { 3, 5, 0.3, 3000000 };
OPS_HARNESS
