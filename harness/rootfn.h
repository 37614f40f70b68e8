// A seeded function with faulty regions that records its evaluations, and the support a recorded history gives to a root.
// The including file defines the counters K_EVALS, K_NAN, K_INF, K_EXACT and K_NESTED.
#pragma once
struct KeepErrno { int e = errno; ~KeepErrno() { errno = e; } };
struct Ev { double x, y; };
struct Fn {
	int kind; double c, s, q, m; uint64_t salt; int hostile; double hp; int dh; bool nest;
	std::vector<Ev> f, d, d2;      // the record
	bool saw_nan = false;
	Fn(Rng& g, int max_kind) {
		kind = (int) g.below(max_kind); c = g.real(-2, 2); s = (g.chance(0.5) ? 1 : -1) * (g.chance(0.5) ? 1 : std::pow(10.0, g.real(-6, 6))); q = g.real(0.3, 4); m = g.real(0.2, 2);
		if(g.chance(0.15)) c = (double) g.range(-2, 2);
		salt = g.next(); hostile = g.chance(0.45) ? (int) g.range(1, 6) : 0; static const double hs[] = { 0.5, 0.1, 0.03, 0.005 }; hp = hs[g.below(4)];
		dh = g.chance(0.2) ? (int) g.range(1, 5) : 0; nest = g.chance(0.1);
	}
	// pure part: value and derivatives
	void pure(double x, double& y, double& y1, double& y2) const {
		double t = x - c;
		switch(kind) {
			case 0: y = s * t; y1 = s; y2 = 0; break;
			case 1: y = s * (t * t * t + q * t); y1 = s * (3 * t * t + q); y2 = s * 6 * t; break;
			case 2: y = s * (t * t - m); y1 = s * 2 * t; y2 = s * 2; break;
			case 3: y = s * std::sin(q * t); y1 = s * q * std::cos(q * t); y2 = -s * q * q * std::sin(q * t); break;
			case 4: y = s * (std::exp(std::min(t, 50.0)) - m); y1 = s * std::exp(std::min(t, 50.0)); y2 = y1; break;
			case 5: y = s * (t > 0 ? 1 : -1); y1 = 0; y2 = 0; break;                    // a step
			case 6: y = s / t; y1 = -s / (t * t); y2 = 2 * s / (t * t * t); break;          // a pole
			case 7: y = std::fabs(s) * (t * t + m); y1 = std::fabs(s) * 2 * t; y2 = std::fabs(s) * 2; break;  // no root
			case 8: y = s * m; y1 = 0; y2 = 0; break;                                      // constant
			case 9: y = s * t * t; y1 = s * 2 * t; y2 = s * 2; break;                      // double root
			case 10: y = s * std::atan(q * t); y1 = s * q / (1 + q * q * t * t); y2 = -2 * s * q * q * q * t / ((1 + q * q * t * t) * (1 + q * q * t * t)); break;
			case 11: y = s * t * t * t * t * t; y1 = 5 * s * t * t * t * t; y2 = 20 * s * t * t * t; break;
			default: y = std::fabs(s) * 1e-9 * (t * t + 1); y1 = std::fabs(s) * 2e-9 * t; y2 = std::fabs(s) * 2e-9; break;   // almost zero everywhere
		}
	}
	bool hit(double x, uint64_t w) const { uint64_t b; __builtin_memcpy(&b, &x, 8); Rng r(b ^ salt ^ w); r.next(); return r.chance(hp); }
	double val(double x) const {
		double y, a, b; pure(x, y, a, b);
		switch(hostile) {
			case 1: if(hit(x, 1)) y = NAN; break;
			case 2: if(x > c + 0.1 * m && x < c + m) y = NAN; break;
			case 3: if(hit(x, 1)) y = y > 0 ? INFINITY : -INFINITY; break;
			case 4: if(x < c - m) y = NAN; break;
			case 5: if(std::fabs(x - c) < 0.01 * m) y = NAN; break;      // around the root
			case 6: if(hit(x, 1)) y = -y; break;                         // perturbed
		}
		return y;
	}
	double der(double x, int n) const {
		double y, a, b; pure(x, y, a, b); double v = n == 1 ? a : b;
		switch(dh) { case 1: return 0; case 2: return -v; case 3: return hit(x, 7) ? NAN : v; case 4: return hit(x, 8) ? 0 : v; case 5: return v * 1e-3; }
		return v;
	}
	void rec(double x, double y) { f.push_back({ x, y }); count(K_EVALS); if(y != y) { saw_nan = true; count(K_NAN); } else if(std::isinf(y)) count(K_INF); else if(y == 0) count(K_EXACT); }
	double call(double x) {
		KeepErrno k; Unwatched u; double y = val(x); rec(x, y);
		if(f.size() > 200000) VIOL("unbounded", "%zu evaluations", f.size());
		return y;
	}
	double calld(double x, int n) { KeepErrno k; Unwatched u; double y = der(x, n); (n == 1 ? d : d2).push_back({ x, y }); return y; }
};
static thread_local Fn* CUR;
// a search inside the function: a finder that keeps state between evaluations would be confused
static void nested(Fn* F, double x) {
	if(!F->nest || F->f.size() % 3) return;
	KeepErrno k; double c; { Unwatched u; count(K_NESTED); c = x; }
	double r = root_newton(std::function<real(real)>([c](real t) { return (t - c) * 2.0; }), std::function<real(real)>([](real) { return 2.0; }), c + 1.0, 1e-8, 50);
	double q = root_bisect([c](real t) { return t - c; }, c - 1, c + 2, 1e-6);
	Unwatched u;
	if(std::isfinite(x) && std::fabs(x) < 1e6 && (std::fabs(r - c) > 1e-8 * (1 + std::fabs(c)) || std::fabs(q - c) > 1e-5)) VIOL("nested-search", "a search started inside the function of another found %.17g and %.17g instead of %.17g", r, q, c);
}
static int sg(double x) { return x > 0 ? 1 : x < 0 ? -1 : 0; }
// ---- support of r by the record
static bool point_support(const Fn& F, double r, double tol, double slack) {
	for(auto& e : F.f) if(std::fabs(e.y) <= tol && std::fabs(e.x - r) <= slack) return true;
	return false;
}
static bool bracket_support(const Fn& F, double r, double tol) {
	// nearest evaluations left and right of (or at) r, of opposite sign, no wider apart than 2 tol
	const double w = 2 * tol * (1 + 1e-9);   // the difference of two numbers this close is exact
	for(auto& a : F.f) {
		if(a.y != a.y || a.x > r + 1e-300 + 2e-16 * std::fabs(r) || r - a.x > w) continue;
		for(auto& b : F.f) {
			if(b.y != b.y || b.x < r - 2e-16 * std::fabs(r) || b.x < a.x || b.x - a.x > w) continue;
			if(sg(a.y) * sg(b.y) <= 0 && (a.x < b.x || a.y == 0)) return true;
		}
	}
	return false;
}
enum { NEWTON, HALLEY, STEFFENSEN, CHEBYSHEV, OSTROWSKI, JARRAT };
// is r the step of the method from an evaluation within tolerance?
static bool step_support(const Fn& F, int method, double r, double tol) {
	for(auto& e : F.f) {
		if(!(std::fabs(e.y) <= tol)) continue;
		double x = e.x, a = F.der(x, 1), b = F.der(x, 2); LD f = e.y, df = a, d2 = b, st, mag, cond = 0;
		switch(method) {
			case NEWTON: st = f / df; mag = 0; break;
			case HALLEY: { LD den = 2 * df * df - f * d2; st = 2 * f * df / den; mag = std::fabs((double) (2 * df * df)) + std::fabs((double) (f * d2)); cond = mag / std::fabs((double) den); break; }
			case STEFFENSEN: { double fs = F.val(x + e.y); LD q = (LD) fs / f - 1; st = f / q; cond = (std::fabs((double) (fs / f)) + 1) / std::fabs((double) q) + std::fabs(x) / std::max(std::fabs(e.y), 1e-300) * 1e-3; if(e.y == 0) st = 0; break; }
			case CHEBYSHEV: { LD u = f / df; st = u + u * u * d2 / (2 * df); break; }
			case OSTROWSKI: { LD u = f / df; double ud = e.y / a, fu = F.val(x - ud); LD den = f - 2 * (LD) fu; st = u + (fu / df) * (f / den); cond = (std::fabs((double) f) + 2 * std::fabs(fu)) / std::fabs((double) den); break; }
			default: { LD u = f / df; double ud = e.y / a; LD z = F.der(x - 2.0 * ud / 3.0, 1); LD den = df - 3 * z; st = 0.5L * u - f / den; cond = (std::fabs((double) df) + 3 * std::fabs((double) z)) / std::fabs((double) den); break; }
		}
		LD want = (LD) x - st;
		if(!(cond <= 1e5)) return true;                       // ill-conditioned (or undefined) step: its rounding is not judged
		if((F.hostile || F.dh) && (method == STEFFENSEN || method == OSTROWSKI || method == JARRAT)) { if(std::fabs((double) (r - want)) <= 1e-6 * (std::fabs(x) + std::fabs((double) st) + 1)) return true; double u = std::fabs((double) (f / df)); if(std::fabs(r - x) <= 1e4 * u + 1e-6) return true; continue; }   // the intermediate point may be rounded differently, into or out of a hostile spot
		if(std::fabs((double) (r - want)) <= 1e-9 * (std::fabs(x) + std::fabs((double) st)) * (1 + (double) cond) + 1e-300) return true;
	}
	return false;
}
