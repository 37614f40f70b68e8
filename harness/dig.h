// Bit-level digests of library values. NaNs are one value (their sign and
// payload are not part of any result).
#ifndef DIG_H
#define DIG_H
#include "theoretica.h"
#include <vector>
#include <string>
#include <array>

struct Dig {
	uint64_t h = 0xcbf29ce484222325ull;
	void raw(uint64_t v) { h = (h ^ v) * 0x100000001b3ull; h ^= h >> 29; }
	Dig& operator()(double x) { uint64_t u; __builtin_memcpy(&u, &x, 8); if(x != x) u = 0x7ff8000000000000ull; raw(u); return *this; }
	Dig& operator()(int x) { raw((uint64_t)(int64_t) x); return *this; }
	Dig& operator()(unsigned x) { raw(x); return *this; }
	Dig& operator()(unsigned long x) { raw(x); return *this; }
	Dig& operator()(long x) { raw((uint64_t) x); return *this; }
	Dig& operator()(unsigned long long x) { raw(x); return *this; }
	Dig& operator()(bool b) { raw(b ? 11 : 7); return *this; }
	Dig& operator()(const std::string& s) { raw(s.size()); for(unsigned char c : s) raw(c); return *this; }
	Dig& operator()(const char* s) { return (*this)(std::string(s)); }
	template<typename T> Dig& operator()(const theoretica::complex<T>& z) { (*this)(z.a); return (*this)(z.b); }
	Dig& operator()(const theoretica::dual& z) { (*this)(z.Re()); return (*this)(z.Dual()); }
	Dig& operator()(const theoretica::dual2& z) { (*this)(z.Re()); (*this)(z.Dual1()); return (*this)(z.Dual2()); }
	template<unsigned N> Dig& operator()(const theoretica::multidual<N>& z) { (*this)(z.Re()); return (*this)(z.Dual()); }
	template<typename T> Dig& operator()(const theoretica::quat<T>& q) { (*this)(q.a); (*this)(q.b); (*this)(q.c); return (*this)(q.d); }
	template<typename T> Dig& operator()(const theoretica::phasor<T>& q) { (*this)(q.phase); return (*this)(q.modulus); }
	template<typename T, unsigned N> Dig& operator()(const theoretica::vec<T, N>& v) { raw(v.size()); for(size_t i = 0; i < v.size(); ++i) (*this)(v[i]); return *this; }
	template<typename T> Dig& operator()(const std::vector<T>& v) { raw(v.size()); for(size_t i = 0; i < v.size(); ++i) (*this)(v[i]); return *this; }
	template<typename T, size_t N> Dig& operator()(const std::array<T, N>& v) { raw(N); for(size_t i = 0; i < N; ++i) (*this)(v[i]); return *this; }
	template<typename T, unsigned N, unsigned M> Dig& operator()(const theoretica::mat<T, N, M>& m) {
		raw(m.rows()); raw(m.cols());
		for(unsigned i = 0; i < m.rows(); ++i) for(unsigned j = 0; j < m.cols(); ++j) (*this)(m(i, j));
		return *this;
	}
	template<typename T> Dig& operator()(const theoretica::polynomial<T>& p) { return (*this)(p.coeff); }
	Dig& operator()(const theoretica::spline_node& n) { (*this)(n.x); (*this)(n.a); (*this)(n.b); (*this)(n.c); return (*this)(n.d); }
	Dig& operator()(const theoretica::spline& s) { return (*this)(s.nodes); }
};
template<typename... A> uint64_t dig(const A&... a) { Dig d; int x[] = { (d(a), 0)... }; (void) x; return d.h; }
#endif
