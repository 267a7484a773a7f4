// Float arithmetic (C19), comparison / selection (C20), elementary functions (C21).
// Every public Float operation runs on a bit-sliced backend: 128 operand tuples at a time.
#include "bs.h"
#include <cmath>
#include <functional>
using namespace vf; using emp::Float;

static inline float f_of(uint32_t u) { float f; memcpy(&f, &u, 4); return f; }
static inline uint32_t u_of(float f) { uint32_t u; memcpy(&u, &f, 4); return u; }
static inline bool is_nan(uint32_t u) { return (u & 0x7fffffffu) > 0x7f800000u; }
static inline bool is_inf(uint32_t u) { return (u & 0x7fffffffu) == 0x7f800000u; }
static inline bool is_sub(uint32_t u) { return (u & 0x7f800000u) == 0 && (u & 0x7fffffu); }
static inline uint32_t ftz(uint32_t u) { return is_sub(u) ? u & 0x80000000u : u; }

struct FL { uint32_t v[128]; };
static Float to_float(const FL &x) {
	Float f(0.0f);
	for (int i = 0; i < 32; ++i) { uint64_t l[2] = {0, 0}; for (int k = 0; k < 128; ++k) l[k >> 6] |= (uint64_t)((x.v[k] >> i) & 1) << (k & 63); f.value[i] = Bit(emp::makeBlock(l[1], l[0])); }
	return f;
}
static FL from_float(const Float &f) {
	FL x; memset(&x, 0, sizeof x);
	for (int i = 0; i < 32; ++i) { uint64_t l[2]; memcpy(l, &f.value[i].bit, 16); for (int k = 0; k < 128; ++k) x.v[k] |= (uint32_t)((l[k >> 6] >> (k & 63)) & 1) << i; }
	return x;
}
static uint32_t rand_man(Rng &r) {
	uint32_t x = (uint32_t)r.u64() & 0x7fffff; int k = (int)r.below(24);
	switch (r.below(12)) {
	case 10: return ((1u << k) | (1u << r.below(23))) & 0x7fffff; case 11: return ((1u << k) | (1u << r.below(23)) | (1u << r.below(23))) & 0x7fffff;
	case 0: return 0; case 1: return 0x7fffff; case 2: return (1u << k) & 0x7fffff; case 3: return ((1u << k) - 1) & 0x7fffff; case 4: return (0x7fffffu << k) & 0x7fffff;
	case 5: return x & (uint32_t)r.u64() & (uint32_t)r.u64(); case 6: return (x | (uint32_t)r.u64() | (uint32_t)r.u64()) & 0x7fffff; case 7: return (x << k) & 0x7fffff; default: return x;
	}
}
static uint32_t mk(bool s, int e, uint32_t m) { if (e < 0) e = 0; if (e > 254) e = 254; return (s ? 0x80000000u : 0) | ((uint32_t)e << 23) | (m & 0x7fffff); }
static const uint32_t SPECIAL[] = {0, 0x80000000u, 0x7f800000u, 0xff800000u, 0x3f800000u, 0xbf800000u, 0x00800000u, 0x80800000u, 0x7f7fffffu, 0xff7fffffu, 0x40000000u, 0x3f000000u, 0x00800001u, 0x00ffffffu, 0x3f7fffffu, 0x3f800001u, 0x40400000u, 0x7f000000u, 0x01000000u, 0x4b000000u, 0x4b800000u, 0x34000000u, 0x33800000u, 1u, 0x007fffffu, 0x80000001u, 0x00400000u};
static uint32_t rand_any(Rng &r) { // no NaN
	switch (r.below(12)) { case 0: return SPECIAL[r.below(sizeof SPECIAL / 4)]; case 1: { uint32_t u = (uint32_t)r.u64(); return is_nan(u) ? u & 0xff800000u : u; } case 2: return mk(r.coin(), (int)r.below(4), rand_man(r)); case 3: return mk(r.coin(), 251 + (int)r.below(4), rand_man(r)); default: return mk(r.coin(), r.coin() ? 1 + (int)r.below(254) : 110 + (int)r.below(34), rand_man(r)); }
}
enum { ADD, SUB, MUL, DIV };
static void rand_pair(Rng &r, int op, uint32_t &a, uint32_t &b) {
	a = rand_any(r);
	int ea = (a >> 23) & 255; bool sb = r.coin();
	switch (r.below(op >= MUL ? 18 : 14)) {
	case 13: case 14: case 15: case 16: if (op >= MUL) { // a structured result: a = q*b or q/b, give or take some units in the last place
		static const int edge[] = {1, 2, 253, 254}; for (int t = 0; t < 20; ++t) { int eq = r.coin(3) ? edge[r.below(4)] : 64 + (int)r.below(126); b = mk(sb, 64 + (int)r.below(126), r.coin(3) ? 0x7fffff & (uint32_t)r.range(-16, 16) : rand_man(r)); uint32_t q = mk(r.coin(), eq, r.coin(4) ? 0x7fffff & (uint32_t)r.range(-16, 16) : rand_man(r)); volatile double x = f_of(q), y = f_of(b), z = op == DIV ? x * y : x / y; float f = (float)z; a = u_of(f); if (!is_inf(a) && (a & 0x7f800000u)) break; }
		a += (uint32_t)r.range(-2, 2); if (is_nan(a)) a &= 0xff800000u; break; }
		b = rand_any(r); break;
	case 10: b = a; for (int i = 1 + (int)r.below(3); i; --i) b ^= 1u << r.below(32); break; // a few bits apart
	case 11: { uint32_t m = ((1u << (1 + r.below(6))) - 1) << r.below(29); b = (a & ~m) | ((uint32_t)r.u64() & m); if (r.coin(4)) b ^= 0x80000000u; break; } // one window apart
	case 12: { uint32_t m = (1u << r.below(32)) - 1; b = (a & ~m) | ((uint32_t)r.u64() & m); if (r.coin(4)) b ^= 0x80000000u; break; } // a common prefix
	case 0: b = rand_any(r); break;
	case 1: b = a; break; case 2: b = a ^ 0x80000000u; break;
	case 3: { uint32_t d = r.below(5); b = (a & 0x7fffffffu) + d - 2; b &= 0x7fffffffu; if (is_nan(b)) b = 0x7f800000u; b |= sb ? 0x80000000u : 0; break; }
	case 4: case 5: if (op <= SUB) b = mk(sb, ea + (int)r.range(-27, 27), rand_man(r)); else if (op == MUL) b = mk(sb, (r.coin() ? 127 : 127 + 254) - ea + (int)r.range(-3, 3), rand_man(r)); else b = mk(sb, (r.coin() ? ea + 126 : ea - 128) + (int)r.range(-3, 3), rand_man(r)); break;
	case 6: if (op <= SUB) b = mk(sb, ea + (int)r.range(-2, 2), rand_man(r)); else { // near ties: products of short significands
			int k = 11 + r.below(3); a = mk(r.coin(), 100 + r.below(50), (uint32_t)(r.u64() & 0x7fffff) & ~((1u << (23 - k)) - 1)); b = mk(sb, 100 + r.below(50), (uint32_t)(r.u64() & 0x7fffff) & ~((1u << (k - 2)) - 1)); if (op == DIV) { float q = f_of(a) * f_of(b); a = u_of(q); } } break;
	case 7: b = SPECIAL[r.below(sizeof SPECIAL / 4)]; break;
	default: b = mk(sb, op <= SUB ? ea + (int)r.range(-40, 40) : 1 + (int)r.below(254), rand_man(r));
	}
	if (is_nan(b)) b &= 0xff800000u;
}
// the correctly rounded result; a zero when the result rounded to 24 bits is below the smallest normal number
static uint32_t exact(int op, uint32_t a, uint32_t b) {
	volatile float x = f_of(ftz(a)), y = f_of(ftz(b)); volatile float z = op == ADD ? x + y : op == SUB ? x - y : op == MUL ? x * y : x / y; uint32_t w = u_of(z);
	if (is_nan(w)) return w;
	if (op >= MUL && (w & 0x7fffffffu) == 0x00800000u) { // rounded with unbounded exponent range (operands scaled by 2^64), is it below the smallest normal?
		volatile float p = x, q = y; if (op == MUL && std::fabs(p) > std::fabs(q)) { p = y; q = x; } p = p * 18446744073709551616.0f; volatile float t = op == MUL ? p * q : p / q; if (std::fabs(t) < 2.168404344971009e-19f) return w & 0x80000000u; // 2^-62
	}
	return ftz(w);
}
static bool same(const Float &a, const Float &b) { return !memcmp(a.value.data(), b.value.data(), sizeof(block) * 32); }
static const char *cls(uint32_t u) { return is_nan(u) ? "nan" : is_inf(u) ? "inf" : (u & 0x7fffffff) == 0 ? "zero" : is_sub(u) ? "subnormal" : "normal"; }

static void arith() {
	Rng r = M.rng(1); size_t n = M.n(9000);
	static const char *nm[] = {"+", "-", "*", "/"};
	for (size_t it = 0; it < n; ++it) {
		int op = (int)(it % 4); FL a, b, want; bool ok[128];
		for (int k = 0; k < 128; ++k) {
			rand_pair(r, op, a.v[k], b.v[k]);
			want.v[k] = exact(op, a.v[k], b.v[k]); ok[k] = !is_nan(want.v[k]);
		}
		ctx("Float %s", nm[op]);
		Float A = to_float(a), B = to_float(b), A0 = A, B0 = B; Float R = op == ADD ? A + B : op == SUB ? A - B : op == MUL ? A * B : A / B;
		if (!same(A, A0) || !same(B, B0)) M.fail("float:operand-changed", nm[op]);
		FL g = from_float(R); uint64_t h = 0; size_t nok = 0;
		for (int k = 0; k < 128; ++k) if (ok[k]) { ++nok; h ^= mix64(((uint64_t)a.v[k] << 32) ^ b.v[k] ^ op); if (g.v[k] != want.v[k]) { M.fail(fmt("float:%s", nm[op]), fmt("%08x %s %08x = %08x, expected %08x", a.v[k], nm[op], b.v[k], g.v[k], want.v[k])); break; } }
		M.eval(h, nok); M.count(fmt("batches %s", nm[op]).c_str());
		if (M.want_sample()) M.sample(fmt("%08x %s %08x = %08x (%s)", a.v[5], nm[op], b.v[5], g.v[5], cls(g.v[5])));
		if (it % 50 == 0) { // both operands the same object, and assignment to an operand
			Float S = A; Float T = op == ADD ? S + S : op == SUB ? S - S : op == MUL ? S * S : S / S; S = op == ADD ? S + B : op == SUB ? S - B : op == MUL ? S * B : S / B; FL t = from_float(T);
			if (!same(S, R)) M.fail("float:self-assignment", nm[op]);
			for (int k = 0; k < 128; ++k) { uint32_t w = exact(op, a.v[k], a.v[k]); if (!is_nan(w) && t.v[k] != w) { M.fail("float:same-operand", fmt("%s %08x: %08x, expected %08x", nm[op], a.v[k], t.v[k], w)); break; } }
		}
		// square and square root
		if (it % 2 == 0) {
			bool sq = it % 4 == 0; FL c; for (int k = 0; k < 128; ++k) { c.v[k] = rand_any(r); if (r.coin(8)) { float f = f_of(c.v[k]); f = f * f; uint32_t u = u_of(f) + (uint32_t)r.below(3) - 1; if (!is_nan(u)) c.v[k] = u; } if (r.coin(16)) c.v[k] = (uint32_t)r.below(0x800000); if (r.coin(16)) c.v[k] = mk(r.coin(), 60 + r.below(10), rand_man(r)); if (!sq && r.coin(4)) c.v[k] &= 0x7fffffffu; }
			Float C = to_float(c), C0 = C; ctx("Float %s", sq ? "sqr" : "sqrt"); Float Q = sq ? C.sqr() : C.sqrt(); FL q = from_float(Q); if (!same(C, C0)) M.fail("float:operand-changed", sq ? "sqr" : "sqrt"); uint64_t hh = 0; size_t no = 0;
			for (int k = 0; k < 128; ++k) { volatile float x = f_of(c.v[k]); volatile float z = sq ? x * x : std::sqrt((float)x); uint32_t w = u_of(z); if (is_nan(w)) continue; ++no; hh ^= mix64(c.v[k] ^ 0xabc000000000ULL ^ sq); if (q.v[k] != w) { M.fail(sq ? "float:sqr" : "float:sqrt", fmt("%s(%08x) = %08x, expected %08x", sq ? "sqr" : "sqrt", c.v[k], q.v[k], w)); break; } }
			M.eval(hh, no); M.count(sq ? "batches sqr" : "batches sqrt");
		}
		progress();
	}
}
static void cmp() {
	Rng r = M.rng(2); size_t n = M.n(12000);
	for (size_t it = 0; it < n; ++it) {
		FL a, b; for (int k = 0; k < 128; ++k) { rand_pair(r, ADD, a.v[k], b.v[k]); if (r.coin(12)) { a.v[k] = SPECIAL[r.below(sizeof SPECIAL / 4)]; b.v[k] = SPECIAL[r.below(sizeof SPECIAL / 4)]; } }
		Float A = to_float(a), B = to_float(b), A0 = A, B0 = B; ctx("Float comparisons");
		std::vector<uint8_t> e = unslice(A.equal(B)), le = unslice(A.less_equal(B)), lt = unslice(A.less_than(B)); uint64_t h = 0;
		for (int k = 0; k < 128; ++k) { volatile float x = f_of(ftz(a.v[k])), y = f_of(ftz(b.v[k])); h ^= mix64(((uint64_t)a.v[k] << 32) ^ b.v[k]);
			if (e[k] != (x == y)) { M.fail("float:equal", fmt("%08x %08x: %d", a.v[k], b.v[k], e[k])); break; }
			if (le[k] != (x <= y)) { M.fail("float:less_equal", fmt("%08x %08x: %d", a.v[k], b.v[k], le[k])); break; }
			if (lt[k] != (x < y)) { M.fail("float:less_than", fmt("%08x %08x: %d", a.v[k], b.v[k], lt[k])); break; } }
		M.eval(h, 3 * 128); M.count("comparison_batches");
		if (M.want_sample()) M.sample(fmt("%08x ? %08x: eq %d le %d lt %d", a.v[7], b.v[7], e[7], le[7], lt[7]));
		if (it % 16 == 0) { // the same object on both sides
			std::vector<uint8_t> e2 = unslice(A.equal(A)), le2 = unslice(A.less_equal(A)), lt2 = unslice(A.less_than(A)); for (int k = 0; k < 128; ++k) if (!e2[k] || !le2[k] || lt2[k]) { M.fail("float:self-compare", fmt("%08x", a.v[k])); break; } M.eval(0, 128); }
		if (it % 8 == 0) { // bit-pattern operations, any pattern (NaN too)
			for (int k = 0; k < 128; ++k) { if (r.coin()) a.v[k] = (uint32_t)r.u64(); if (r.coin()) b.v[k] = (uint32_t)r.u64(); }
			A = to_float(a); B = to_float(b); A0 = A; B0 = B; uint64_t sl[2] = {r.u64(), r.u64()}; Bit S(emp::makeBlock(sl[1], sl[0]));
			FL ng = from_float(-A), ab = from_float(A.abs()), xo = from_float(A ^ B), an = from_float(A & B); Float X = A; Float Xr = (X ^= B); FL xa = from_float(X), xr = from_float(Xr); Float A2 = A, B2 = B; FL sel = from_float(A.If(S, B)); emp::swap(S, A2, B2); FL s1 = from_float(A2), s2 = from_float(B2);
			Float Mv = A; Float Mc(std::move(Mv)); Float As(1.5f); As = Mc; As = *&As; FL cp = from_float(As); uint64_t hh = 0;
			for (int k = 0; k < 128; ++k) { bool s = (sl[k >> 6] >> (k & 63)) & 1; uint32_t x = a.v[k], y = b.v[k]; hh ^= mix64(((uint64_t)x << 32) ^ y ^ s);
				const char *w = ng.v[k] != (x ^ 0x80000000u) ? "negate" : ab.v[k] != (x & 0x7fffffffu) ? "abs" : xo.v[k] != (x ^ y) ? "xor" : an.v[k] != (x & y) ? "and" : xa.v[k] != (x ^ y) || xr.v[k] != (x ^ y) ? "xor-assign" : sel.v[k] != (s ? y : x) ? "If" : s1.v[k] != (s ? y : x) || s2.v[k] != (s ? x : y) ? "swap" : cp.v[k] != x ? "copy" : nullptr;
				if (w) { M.fail(fmt("float:%s", w), fmt("%08x %08x select %d", x, y, s)); break; } }
			{ Float Z = A; FL q1 = from_float(Z.If(S, Z)), q2 = from_float(Z ^ Z), q3 = from_float(Z & Z); Float Z2 = Z; Float &Zr = Z2; Z2 ^= Zr; FL q4 = from_float(Z2); Z2 = Z; emp::swap(S, Z2, Z2); FL q5 = from_float(Z2); for (int k = 0; k < 128; ++k) if (q1.v[k] != a.v[k] || q2.v[k] || q3.v[k] != a.v[k] || q4.v[k] || q5.v[k] != a.v[k]) { M.fail("float:same-operand", fmt("%08x: If %08x xor %08x and %08x xor-assign %08x swap %08x", a.v[k], q1.v[k], q2.v[k], q3.v[k], q4.v[k], q5.v[k])); break; } }
			for (int i = 0; i < 32; ++i) if (memcmp(&A[i].bit, &A.value[i].bit, 16)) M.fail("float:index", fmt("bit %d", i));
			if (A.size() != 32) M.fail("float:size", "");
			M.eval(hh, 8 * 128); M.count("pattern_batches");
		}
		if (!same(A, A0) || !same(B, B0)) M.fail("float:operand-changed", "comparison or selection");
		progress();
	}
}
// ---------------------------------------------------------------- elementary functions
#ifndef T_SIN // absolute or relative error allowed; the shipped circuits reach about half of it
#define T_SIN 1e-6
#define T_COS 1e-6
#define T_EXP2 2e-7
#define T_EXP 3e-7
#define T_LN 2.5e-7
#define T_LOG2 2.5e-7
#define EXACT_SLACK 0
#endif
enum { SIN, COS, EXP2, EXP, LN, LOG2, NF }; static const char *fn[] = {"sin", "cos", "exp2", "exp", "ln", "log2"};
static double g_max[NF]; static uint32_t g_at[NF];
static Float call(int f, const Float &x) { switch (f) { case SIN: return x.sin(); case COS: return x.cos(); case EXP2: return x.exp2(); case EXP: return x.exp(); case LN: return x.ln(); default: return x.log2(); } }
static const long double PI_L = 3.141592653589793238462643383279502884L;
static long double truth(int f, float x) {
	switch (f) { case SIN: { long double t = fmodl((long double)x, 2.0L); return sinl(PI_L * t); } case COS: { long double t = fmodl((long double)x, 2.0L); return cosl(PI_L * t); } case EXP2: return exp2l((long double)x); case EXP: return expl((long double)x); case LN: return logl((long double)x); default: return log2l((long double)x); }
}
// tolerances, a few times the approximation error of the shipped circuits
static const double TOL[NF] = {T_SIN, T_COS, T_EXP2, T_EXP, T_LN, T_LOG2};
static bool in_domain(int f, uint32_t u) { if (is_nan(u) || is_sub(u)) return false; if (f <= COS) return !is_inf(u); if (f >= LN) return !(u >> 31) && u != 0; return true; }
static uint32_t rand_arg(Rng &r, int f) {
	for (;;) {
		uint32_t u;
		switch (r.below(10)) {
		case 0: u = SPECIAL[r.below(sizeof SPECIAL / 4)]; break;
		case 1: u = rand_any(r); break;
		case 2: { float g = (float)r.range(-300, 300) / (float)(1 << r.below(9)); u = u_of(g); if (r.coin() && g != 0) u += (uint32_t)r.below(5) - 2; break; }
		case 3: { float g = f <= COS ? (float)r.range(-4000, 4000) * 0.25f : f == EXP2 ? (r.coin() ? 128.f : -126.f) : f == EXP ? (r.coin() ? 88.722839f : -87.336544f) : 1.0f; u = u_of(g) + (uint32_t)(int32_t)r.range(-400, 400); break; }
		case 4: { double g = ((double)(r.u64() >> 11) / 9007199254740992.0); double lo = f <= COS ? -8 : f == EXP2 ? -128 : f == EXP ? -89 : 0, hi = f <= COS ? 8 : f == EXP2 ? 129 : f == EXP ? 90 : 4; u = u_of((float)(lo + g * (hi - lo))); break; }
		case 5: u = mk(r.coin(), 127 + (int)r.range(-30, 2), rand_man(r)); break;
		case 6: u = mk(r.coin(), 127 + (int)r.range(0, 9), rand_man(r)); break;
		case 7: u = mk(r.coin(), 1 + (int)r.below(254), rand_man(r)); break;
		default: u = mk(r.coin(), 120 + (int)r.below(16), (uint32_t)r.u64());
		}
		if (f >= LN) u &= 0x7fffffffu;
		if (in_domain(f, u)) return u;
	}
}
// null when fine
static const char *judge(int f, uint32_t u, uint32_t g, double &err) {
	err = 0; float x = f_of(u); double got = f_of(g);
	if (is_nan(g)) return "not a number";
	if (is_inf(u)) { // limits
		uint32_t w = f == EXP || f == EXP2 ? (u >> 31 ? 0u : 0x7f800000u) : 0x7f800000u; return g == w ? nullptr : "wrong limit at infinity"; }
	long double t = truth(f, x);
	if (f <= COS) { err = fabs((double)((long double)got - t)); return err <= TOL[f] ? nullptr : "absolute error too large"; }
	if (f <= EXP) {
		if (t >= 3.4028235677973366e38L * (1 + 2e-6L)) return is_inf(g) ? nullptr : "no overflow to infinity";
		if (t > 3.4028235677973366e38L * (1 - 2e-6L)) return is_inf(g) || got > 3.4e38 ? nullptr : "bad at overflow";
		if (t < 1.17549435e-38L * (1 - 2e-6L)) return g == 0 ? nullptr : "no underflow to zero";
		if (t < 1.17549435e-38L * (1 + 2e-6L)) return g == 0 || fabs(got) < 1.18e-38 ? nullptr : "bad at underflow";
		err = fabs((double)(((long double)got - t) / t)); return err <= TOL[f] ? nullptr : "relative error too large";
	}
	if (u == 0x3f800000u) return (g & 0x7fffffffu) == 0 ? nullptr : "log of one is not zero";
	if (is_inf(g)) return "infinite";
	double ae = fabs((double)((long double)got - t)); err = std::min(ae, (double)fabsl(((long double)got - t) / t)); if (fabsl(t) > 1) err = fabs((double)(((long double)got - t) / t));
	return err <= TOL[f] ? nullptr : "error too large";
}
// double precision settles all but the borderline cases
static const char *judge_fast(int f, uint32_t u, uint32_t g, double &err) {
	err = 0; double x = f_of(u), got = f_of(g), t;
	if (is_nan(g) || is_inf(g) || is_inf(u) || u == 0x3f800000u) return judge(f, u, g, err);
	switch (f) { case SIN: t = sin(M_PI * (fabs(x) < 2 ? x : fmod(x, 2.0))); break; case COS: t = cos(M_PI * (fabs(x) < 2 ? x : fmod(x, 2.0))); break; case EXP2: t = exp2(x); break; case EXP: t = exp(x); break; case LN: t = log(x); break; default: t = log2(x); }
	if (f == EXP || f == EXP2) { if (!(t > 1.2e-38 && t < 3.4e38)) return judge(f, u, g, err); err = fabs((got - t) / t); }
	else { double ae = fabs(got - t); err = f <= COS ? ae : fabs(t) > 1 ? ae / fabs(t) : std::min(ae, t == 0 ? ae : ae / fabs(t)); }
	return err < 0.99 * TOL[f] ? nullptr : judge(f, u, g, err);
}
static void check_batch(int f, const FL &a, size_t n = 128) {
	Float A = to_float(a), A0 = A; ctx("Float %s", fn[f]); Float R = call(f, A); if (!same(A, A0)) M.fail("float:operand-changed", fn[f]); FL g = from_float(R); uint64_t h = 0;
	for (size_t k = 0; k < n; ++k) { double err; h ^= mix64(a.v[k] ^ ((uint64_t)f << 40)); const char *w = judge_fast(f, a.v[k], g.v[k], err); if (err > g_max[f]) { g_max[f] = err; g_at[f] = a.v[k]; } if (w) { M.fail(fmt("float:%s", fn[f]), fmt("%s(%08x = %.9g) = %08x = %.9g, true value %.12Lg: %s", fn[f], a.v[k], f_of(a.v[k]), g.v[k], f_of(g.v[k]), truth(f, f_of(a.v[k])), w)); break; } }
	M.eval(h, n); M.count(fmt("batches %s", fn[f]).c_str());
	if (M.want_sample()) M.sample(fmt("%s(%.9g) = %.9g", fn[f], f_of(a.v[3]), f_of(g.v[3])));
	progress();
}
static void elem() {
	Rng r = M.rng(3); size_t n = M.n(6000);
	for (int f = 0; f < NF; ++f) { // exact points
		struct P { int f; float x, y; }; static const P pts[] = {{SIN, 0, 0}, {COS, 0, 1}, {COS, 1, -1}, {COS, 2, 1}, {SIN, 0.5f, 1}, {SIN, -0.5f, -1}, {SIN, 1.5f, -1}, {EXP2, 0, 1}, {EXP, 0, 1}, {LN, 1, 0}, {LOG2, 1, 0}, {EXP2, 1, 2}, {EXP2, -1, 0.5f}, {EXP2, 10, 1024}, {EXP2, -126, 1.17549435e-38f}, {LOG2, 2, 1}, {LOG2, 1024, 10}, {LOG2, 0.25f, -2}};
		for (auto &p : pts) if (p.f == f) { FL a; for (auto &v : a.v) v = u_of(p.x); FL g = from_float(call(f, to_float(a))); for (int k = 0; k < 128; ++k) if (f_of(g.v[k]) != p.y && !(fabs(f_of(g.v[k]) - p.y) <= EXACT_SLACK * fabs(p.y))) { M.fail(fmt("float:%s-exact", fn[f]), fmt("%s(%g) = %.9g", fn[f], p.x, f_of(g.v[k]))); break; } M.eval(0, 1); M.count("exact_points"); }
	}
	for (size_t it = 0; it < n; ++it) { int f = (int)(it % NF); FL a; for (int k = 0; k < 128; ++k) a.v[k] = rand_arg(r, f); check_batch(f, a); }
	for (int f = 0; f < NF; ++f) fprintf(stderr, "max error %s: %.3g at %08x (%.9g)\n", fn[f], g_max[f], g_at[f], f_of(g_at[f]));
}
// dense, evenly spaced sweep through all bit patterns of the unary functions (offset by seed and shard)
static void sweep() {
	Rng r = M.rng(4); size_t n = M.n(2000);
	for (int f = 0; f < NF + 2; ++f) {
		uint64_t total = n * 128; uint64_t step = (1ULL << 32) / total; if (!step) step = 1; uint64_t off = r.below(step), x = off;
		while (x < (1ULL << 32)) {
			FL a; int k = 0; while (k < 128 && x < (1ULL << 32)) { uint32_t u = (uint32_t)x; x += step; if (f < NF ? in_domain(f, u) : !is_nan(u)) a.v[k++] = u; }
			if (!k) break; size_t used = k; while (k < 128) a.v[k] = a.v[k - 1], ++k;
			if (f < NF) check_batch(f, a, used);
			else { bool sq = f == NF; FL q = from_float(sq ? to_float(a).sqr() : to_float(a).sqrt()); for (size_t i = 0; i < used; ++i) { volatile float v = f_of(a.v[i]); volatile float z = sq ? v * v : std::sqrt((float)v); uint32_t w = u_of(z); if (!is_nan(w) && q.v[i] != w) { M.fail(sq ? "float:sqr" : "float:sqrt", fmt("%08x -> %08x, expected %08x", a.v[i], q.v[i], w)); break; } } M.eval(mix64(x), used); progress(); }
		}
		M.count("sweeps");
	}
}
static void unary_root(bool sq, const FL &a, size_t used) {
	ctx("Float %s", sq ? "sqr" : "sqrt"); FL q = from_float(sq ? to_float(a).sqr() : to_float(a).sqrt());
	for (size_t i = 0; i < used; ++i) { volatile float v = f_of(a.v[i]); volatile float z = sq ? v * v : std::sqrt((float)v); uint32_t w = u_of(z); if (!is_nan(w) && q.v[i] != w) { M.fail(sq ? "float:sqr" : "float:sqrt", fmt("%08x -> %08x, expected %08x", a.v[i], q.v[i], w)); break; } }
	M.eval(mix64(a.v[0] ^ ((uint64_t)sq << 40)), used); progress();
}
// every significand (or every stride-th, the seed choosing which) of chosen binades, the batches dealt out to the shards; all binades in the thorough tier
static void each_of_binade(uint32_t top, uint32_t stride, const std::function<void(const FL &)> &f) { uint32_t off = stride > 1 ? (uint32_t)(mix64(M.seed ^ top) % stride) : 0; for (uint64_t i = M.shard; i < 65536 / stride; i += M.shards) { FL a; for (uint32_t k = 0; k < 128; ++k) a.v[k] = (top << 23) | ((uint32_t)(i * 128 + k) * stride + off); f(a); } M.count("binades"); }
static void roots() {
	Rng r(mix64(M.seed ^ 0x707)); // the same choice in every shard
	std::vector<uint32_t> sq = {127, 190, 191, 63, 64, 256 + 127}, rt = {127, 128, 1, 254}; sq.push_back((uint32_t)r.below(512) & ~1u); rt.push_back(1 + (uint32_t)r.below(254));
	if (M.thorough) { sq.clear(); rt.clear(); for (uint32_t t = 0; t < 512; ++t) { if ((t & 255) != 255) sq.push_back(t); if (t < 255) rt.push_back(t); } }
	for (uint32_t t : sq) if ((t & 255) != 255) each_of_binade(t, M.thorough ? 2 : 1, [](const FL &a) { unary_root(true, a, 128); });
	for (uint32_t t : rt) each_of_binade(t, M.thorough ? 2 : 1, [](const FL &a) { unary_root(false, a, 128); });
}
static void binades() {
	Rng r(mix64(M.seed ^ 0x708)); const uint32_t N = 256; static const std::vector<uint32_t> pick[NF] = {{125, 126, 127, 128}, {125, 126, 127, 128}, {126, 132, 133, N + 127, N + 133}, {126, 132, 133, N + 127, N + 133}, {126, 127, 128, 254}, {126, 127, 128, 1}};
	for (int f = 0; f < NF; ++f) {
		std::vector<uint32_t> t = pick[f]; if (f <= COS) { t.push_back(100 + (uint32_t)r.below(25)); t.push_back(N + 129 + (uint32_t)r.below(22)); } else if (f <= EXP) t.push_back((r.coin() ? N : 0) + 105 + (uint32_t)r.below(28)); else { t.push_back(1 + (uint32_t)r.below(125)); t.push_back(129 + (uint32_t)r.below(125)); }
		if (M.thorough) { t.clear(); for (uint32_t x = 1; x < 512; ++x) if ((x & 255) && (x & 255) != 255 && (f < LN || x < 255)) t.push_back(x); }
		for (uint32_t x : t) each_of_binade(x, M.thorough ? 8 : 4, [&](const FL &a) { check_batch(f, a); });
	}
}
int main(int argc, char **argv) {
	init(argc, argv); start_watchdog(60); BS bs; emp::CircuitExecution::circ_exec = &bs;
	if (M.part == "arith") arith(); else if (M.part == "cmp") cmp(); else if (M.part == "elem") elem(); else if (M.part == "sweep") sweep(); else if (M.part == "roots") roots(); else if (M.part == "binades") binades(); else { arith(); cmp(); elem(); }
	M.count("gates", bs.gates); emp::CircuitExecution::circ_exec = nullptr;
	return done();
}
