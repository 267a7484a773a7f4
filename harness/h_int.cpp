// C15 arithmetic, C16 comparison/shift/select/count, C17 sorting, C18 feed and reveal.
#include "bs.h"
#include <set>
using namespace vf;
static void use_bs(BS *b) { emp::CircuitExecution::circ_exec = b; emp::ProtocolExecution::prot_exec = nullptr; }
static void plain_begin() { emp::setup_plain_prot(false, ""); }
static void plain_end() { emp::finalize_plain_prot(); emp::CircuitExecution::circ_exec = nullptr; emp::ProtocolExecution::prot_exec = nullptr; }
static bool g_big = false;
template <class F> static void for_operands(Rng &r, bool small_widths, size_t batches, F f) {
	if (small_widths && BV_WORDS <= 33) for (int w = 1; w <= 7; ++w) { // every pair of values
		uint64_t N = 1ULL << (2 * w); for (uint64_t base = 0; base < N; base += 128) { Lanes a(128), b(128); for (int k = 0; k < 128; ++k) { uint64_t x = (base + k) % N; a[k] = BV(w, x & ((1ULL << w) - 1)); b[k] = BV(w, x >> w); } f(a, b); } progress(); M.count("exhaustive_pairs", N); }
	for (size_t it = 0; it < batches; ++it) {
		static const int wide[] = {300, 383, 384, 385, 500, 511, 512, 513, 640, 767, 768, 1000, 1023, 1024, 1025, 1500, 2047, 2048, 2049};
		static const int ws[] = {8, 9, 12, 15, 16, 17, 24, 31, 32, 33, 48, 63, 64, 65, 80, 100, 127, 128, 129, 160, 192, 255, 256, 257};
		int w = r.coin(3) ? 1 + (int)r.below(90) : ws[r.below(g_big ? 24 : 16)]; if (BV_WORDS > 33) w = r.coin(3) ? 258 + (int)r.below(1800) : wide[r.below(19)]; Lanes a(128), b(128);
		for (int k = 0; k < 128; ++k) { a[k] = rand_bv(r, w); b[k] = rand_bv(r, w, &a[k]); } f(a, b); if (it % 8 == 0) progress(); M.count("random_batches");
	}
}
static void cmp_lanes(const char *op, const Lanes &got, const Lanes &want, const Lanes &a, const Lanes &b) {
	for (int k = 0; k < 128; ++k) if (!(got[k] == want[k])) { M.fail(std::string("int:") + op, fmt("%s %s %s = %s, expected %s", a[k].str().c_str(), op, b[k].str().c_str(), got[k].str().c_str(), want[k].str().c_str())); return; }
}
static void cmp_bits(const char *op, const std::vector<uint8_t> &got, const std::vector<uint8_t> &want, const Lanes &a, const Lanes &b) {
	for (int k = 0; k < 128; ++k) if (got[k] != want[k]) { M.fail(std::string("int:") + op, fmt("%s %s %s = %d", a[k].str().c_str(), op, b[k].str().c_str(), got[k])); return; }
}
static uint64_t lanes_hash(const Lanes &a, const Lanes &b, int salt) { uint64_t h = salt; for (int k = 0; k < 128; ++k) h = mix64(h ^ a[k].d[0] ^ mix64(b[k].d[0] + a[k].w)); return h; }
typedef std::function<Integer(const Integer &, const Integer &)> IOp; typedef std::function<BV(const BV &, const BV &)> ROp;
static void run_bin(const char *name, const Lanes &a, const Lanes &b, const Integer &ia, const Integer &ib, const IOp &f, const ROp &g, bool nonzero = false) {
	Lanes bb = b; Integer i1 = ia, i2 = ib; if (nonzero) { for (auto &x : bb) if (x.zero()) x = BV(x.w, 1); i2 = slice(bb); }
	Integer s1 = i1, s2 = i2; ctx("int %s width %d", name, a[0].w); Integer res = f(i1, i2); Lanes want(128); for (int k = 0; k < 128; ++k) want[k] = g(a[k], bb[k]);
	if (!same_bits(s1, i1) || !same_bits(s2, i2)) M.fail(std::string("int:operand-changed:") + name, g_ctx);
	if ((int)res.size() != want[0].w) { M.fail(std::string("int:width:") + name, fmt("result has %zu bits, expected %d", res.size(), want[0].w)); return; }
	cmp_lanes(name, unslice(res), want, a, bb); M.count("sliced_operations", 128);
}
// random programs on the bit-sliced backend and, with mixed ownership, on the plain backend
static void programs(Rng &r, bool arith, size_t nbs, size_t nplain, int max_w) {
	for (size_t it = 0; it < nbs; ++it) {
		Prog p = rand_prog(r, arith, 1 + r.below(max_w), 3 + r.below(25), false); std::string d = p.str(); ctx("program %s", d.c_str());
		std::vector<std::vector<BV>> in(128); std::vector<PVal> vin; for (auto &x : p.in) { Lanes l(128); for (int k = 0; k < 128; ++k) { l[k] = rand_bv(r, x.w); in[k].push_back(l[k]); } PVal v; v.isbit = x.isbit; Integer s = slice(l); if (x.isbit) v.b = s.bits[0]; else v.i = s; vin.push_back(v); }
		bool changed = false; std::vector<PVal> out = run_prog(p, vin, &changed); if (changed) M.fail("int:operand-changed:program", d);
		std::vector<Lanes> got; for (auto &v : out) got.push_back(v.isbit ? unslice(Integer(std::vector<Bit>(1, v.b))) : unslice(v.i));
		for (int k = 0; k < 128; ++k) { std::vector<BV> w = ref_prog(p, in[k]); for (size_t i = 0; i < w.size(); ++i) if (!(got[i][k] == w[i])) { M.fail("int:program", fmt("value %zu = %s, expected %s in lane %d of %s", i, got[i][k].str().c_str(), w[i].str().c_str(), k, d.c_str())); k = 128; break; } }
		M.eval(hash_bytes(d.data(), d.size(), it), 128); M.count("programs_sliced"); if (M.want_sample()) M.sample("program " + d); if (it % 16 == 0) progress();
	}
	for (size_t it = 0; it < nplain; ++it) {
		Prog p = rand_prog(r, arith, 1 + r.below(max_w), 3 + r.below(25), true); std::string d = p.str(); ctx("plain program %s", d.c_str()); plain_begin();
		std::vector<BV> in; std::vector<PVal> vin; for (auto &x : p.in) { BV v = x.party ? rand_bv(r, x.w) : x.cst; in.push_back(v); PVal q; q.isbit = x.isbit; if (x.isbit) q.b = Bit(v.bit(0), x.party); else { std::vector<uint8_t> by((x.w + 7) / 8 + 1, 0); for (int i = 0; i < x.w; ++i) if (v.bit(i)) by[i / 8] |= 1 << (i % 8); q.i = Integer(x.w, by.data(), x.party); } vin.push_back(q); }
		bool changed = false; std::vector<PVal> out = run_prog(p, vin, &changed); if (changed) M.fail("int:operand-changed:program", d); std::vector<BV> want = ref_prog(p, in);
		for (size_t i = 0; i < want.size(); ++i) { BV g(want[i].w); if (out[i].isbit) g.set(0, out[i].b.reveal<bool>(emp::PUBLIC)); else { bool *bb = new bool[g.w]; out[i].i.revealBools(bb, emp::PUBLIC); if ((int)out[i].i.size() != g.w) { M.fail("int:width:program", d); delete[] bb; break; } for (int j = 0; j < g.w; ++j) g.set(j, bb[j]); delete[] bb; } if (!(g == want[i])) { M.fail("int:plain-program", fmt("value %zu = %s, expected %s of %s", i, g.str().c_str(), want[i].str().c_str(), d.c_str())); break; } }
		plain_end(); M.eval(hash_bytes(d.data(), d.size(), it)); M.count("programs_plain"); if (it % 32 == 0) progress();
	}
}
// each operation on all small values with every mixture of owners, on the plain backend
static void plain_mix(Rng &r, bool arith) {
	int parties[] = {emp::PUBLIC, emp::ALICE, emp::BOB};
	for (int w = 1; w <= 3; ++w) for (int pa : parties) for (int pb : parties) {
		plain_begin(); ctx("plain owners %d,%d width %d", pa, pb, w);
		for (int x = 0; x < (1 << w); ++x) for (int y = 0; y < (1 << w); ++y) {
			BV a(w, x), b(w, y); Integer ia(w, (int64_t)x, pa), ib(w, (int64_t)y, pb);
			auto ck = [&](const char *n, const Integer &g, const BV &want) { uint32_t v = g.reveal<uint32_t>(emp::PUBLIC); if (g.size() != (size_t)want.w || v != want.low()) M.fail(std::string("int:plain:") + n, fmt("%s %s %s owners %d,%d = %u, expected %s", a.str().c_str(), n, b.str().c_str(), pa, pb, v, want.str().c_str())); };
			auto cb = [&](const char *n, const Bit &g, bool want) { if (g.reveal<bool>(emp::PUBLIC) != want) M.fail(std::string("int:plain:") + n, fmt("%s %s %s owners %d,%d", a.str().c_str(), n, b.str().c_str(), pa, pb)); };
			if (arith) { ck("+", ia + ib, badd(a, b)); ck("-", ia - ib, bsub(a, b)); ck("*", ia * ib, bmul(a, b)); ck("neg", -ia, bneg(a)); ck("&", ia & ib, band(a, b)); ck("|", ia | ib, bor(a, b)); ck("^", ia ^ ib, bxor(a, b)); if (y) { ck("/", ia / ib, bdiv(a, b)); ck("%", ia % ib, bmod(a, b)); } Integer t = ia; t ^= ib; ck("^=", t, bxor(a, b)); }
			else { cb(">=", ia >= ib, scmp(a, b) >= 0); cb(">", ia > ib, scmp(a, b) > 0); cb("<=", ia <= ib, scmp(a, b) <= 0); cb("<", ia < ib, scmp(a, b) < 0); cb("==", ia == ib, a == b); cb("!=", ia != ib, !(a == b)); ck("abs", ia.abs(), babs(a)); for (int s = 0; s < 2; ++s) for (int ps : parties) { Bit sel(s, ps); ck("select", ia.select(sel, ib), s ? b : a); ck("if", emp::If(sel, ia, ib), s ? a : b); Integer u = ia, v = ib; emp::swap(sel, u, v); ck("swap1", u, s ? b : a); ck("swap2", v, s ? a : b); }
				Integer h = ia.hamming_weight(), l = ia.leading_zeros(); if (h.reveal<uint32_t>() != (uint32_t)bpop(a)) M.fail("int:plain:hamming_weight", a.str()); if (l.reveal<uint32_t>() != (uint32_t)blz(a)) M.fail("int:plain:leading_zeros", a.str());
				for (int s = 0; s < w; ++s) { Integer sh(4, (int64_t)s, pb); ck("<<secret", ia << sh, bshl(a, s)); ck(">>secret", ia >> sh, bshr(a, s)); ck("<<", ia << (size_t)s, bshl(a, s)); ck(">>", ia >> (size_t)s, bshr(a, s)); } }
			M.eval(mix64(w * 100000 + pa * 7919 + pb * 104729 + x * 64 + y) ^ arith);
		}
		plain_end(); M.count("owner_mixtures");
	}
	progress();
}
#ifdef P_INT
typedef std::vector<uint8_t> GB; // bits, least significant first
static GB gbits(Rng &r, size_t w, const GB *near) { GB v(w); int st = (int)r.below(5); if (near && st == 0) { v = *near; for (int k = (int)r.below(3); k > 0; --k) v[r.below(w)] ^= 1; return v; } for (size_t i = 0; i < w; ++i) v[i] = st == 1 ? 1 : st == 2 ? 0 : st == 3 ? (i < w / 2) : r.coin(); if (st == 1 || st == 2) for (int k = (int)r.below(4); k > 0; --k) v[r.below(w)] ^= 1; return v; }
static Integer gint(const GB &v, int party) { std::vector<uint8_t> by((v.size() + 7) / 8, 0); for (size_t i = 0; i < v.size(); ++i) if (v[i]) by[i / 8] |= 1 << (i % 8); return Integer((int)v.size(), by.data(), party); }
static GB gout(const Integer &x) { std::vector<char> b(x.size() + 1, 0); x.revealBools((bool *)b.data(), emp::PUBLIC); return GB(b.begin(), b.begin() + x.size()); }
static void gcmp(const char *op, const GB &got, const GB &want) { if (got != want) { size_t i = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) ++i; M.fail(std::string("int:giant:") + op, fmt("%s: %zu bits, first wrong bit %zu", g_ctx, got.size(), i)); } M.count("giant_operations"); }
// Linear-time operations on integers of tens of thousands of bits.
static void giant(Rng &r, bool arith) {
	static const size_t ws[] = {4096, 8192, 16384, 32767, 32768, 65535, 65536, 65537, 100003}; std::vector<size_t> wd; for (size_t k = 0; k < std::min<size_t>(6, 1 + M.n(1)); ++k) wd.push_back(r.coin() ? ws[r.below(9)] : 2100 + r.below(40000));
	int parties[] = {emp::PUBLIC, emp::ALICE, emp::BOB};
	for (size_t w : wd) {
		plain_begin(); int pa = parties[r.below(3)], pb = parties[r.below(3)]; ctx("width %zu owners %d,%d", w, pa, pb); GB a = gbits(r, w, nullptr), b = gbits(r, w, &a); Integer A = gint(a, pa), B = gint(b, pb);
		auto add = [&](const GB &x, const GB &y, int c) { GB z(w); for (size_t i = 0; i < w; ++i) { int t = x[i] + y[i] + c; z[i] = t & 1; c = t >> 1; } return z; }; auto inv = [&](GB x) { for (auto &t : x) t ^= 1; return x; }; GB zero(w, 0), one = zero; one[0] = 1;
		auto lt = [&](const GB &x, const GB &y) { if (x[w - 1] != y[w - 1]) return x[w - 1] > y[w - 1]; for (size_t i = w; i-- > 0;) if (x[i] != y[i]) return x[i] < y[i]; return false; };
		if (arith) {
			gcmp("+", gout(A + B), add(a, b, 0)); gcmp("-", gout(A - B), add(a, inv(b), 1)); gcmp("neg", gout(-A), add(inv(a), zero, 1)); GB x(w), y(w), z(w); for (size_t i = 0; i < w; ++i) { x[i] = a[i] & b[i]; y[i] = a[i] | b[i]; z[i] = a[i] ^ b[i]; } gcmp("&", gout(A & B), x); gcmp("|", gout(A | B), y); gcmp("^", gout(A ^ B), z); Integer C = A; C ^= B; gcmp("^=", gout(C), z);
		} else {
			auto ck = [&](const char *n, const Bit &g, bool e) { if (g.reveal<bool>() != e) M.fail(std::string("int:giant:") + n, g_ctx); M.count("giant_operations"); }; bool l = lt(a, b), g = lt(b, a); ck("<", A < B, l); ck(">", A > B, g); ck("<=", A <= B, !g); ck(">=", A >= B, !l); ck("==", A == B, !l && !g); ck("!=", A != B, l || g);
			bool s = r.coin(); Bit S(s, parties[r.below(3)]); gcmp("select", gout(A.select(S, B)), s ? b : a); Integer x = A, y = B; emp::swap(S, x, y); gcmp("swap", gout(x), s ? b : a); gcmp("swap", gout(y), s ? a : b);
			size_t sh[] = {0, 1, w - 1, w, w + 1, (size_t)r.below(w), 32768, 65536}; for (size_t n : sh) { GB L(w, 0), R(w, 0); for (size_t i = 0; i < w; ++i) { if (i >= n) L[i] = a[i - n]; if (n < w && i + n < w) R[i] = a[i + n]; } gcmp("<<", gout(A << n), L); gcmp(">>", gout(A >> n), R); }
			{ size_t n = r.below(w); Integer amt(40, (int64_t)n, emp::BOB); GB L(w, 0), R(w, 0); for (size_t i = 0; i < w; ++i) { if (i >= n) L[i] = a[i - n]; if (i + n < w) R[i] = a[i + n]; } gcmp("secret<<", gout(A << amt), L); gcmp("secret>>", gout(A >> amt), R); }
			gcmp("abs", gout(A.abs()), a[w - 1] ? add(inv(a), zero, 1) : a); uint64_t pop = 0, lz = 0; for (auto t : a) pop += t; while (lz < w && !a[w - 1 - lz]) ++lz; if (A.hamming_weight().reveal<uint64_t>() != pop) M.fail("int:giant:hamming_weight", g_ctx); if (A.leading_zeros().reveal<uint64_t>() != lz) M.fail("int:giant:leading_zeros", g_ctx);
			for (int sg = 0; sg < 2; ++sg) { size_t n = r.coin() ? w + r.below(w) : 1 + r.below(w); GB e(n); for (size_t i = 0; i < n; ++i) e[i] = i < w ? a[i] : sg ? a[w - 1] : 0; Integer q = A; q.resize(n, sg); gcmp("resize", gout(q), e); }
		}
		gcmp("operand", gout(A), a); gcmp("operand", gout(B), b); plain_end(); M.eval(mix64(w * 2 + arith) ^ mix64(pa * 4 + pb), 20); progress();
	}
}
static void part_arith() {
	Rng r = M.rng(15); BS bs; use_bs(&bs);
	for_operands(r, M.shard == 0, M.n(70), [&](const Lanes &a, const Lanes &b) {
		Integer ia = slice(a), ib = slice(b);
		run_bin("+", a, b, ia, ib, [](const Integer &x, const Integer &y) { return x + y; }, [](const BV &x, const BV &y) { return badd(x, y); });
		run_bin("-", a, b, ia, ib, [](const Integer &x, const Integer &y) { return x - y; }, bsub);
		run_bin("&", a, b, ia, ib, [](const Integer &x, const Integer &y) { return x & y; }, band); run_bin("|", a, b, ia, ib, [](const Integer &x, const Integer &y) { return x | y; }, bor); run_bin("^", a, b, ia, ib, [](const Integer &x, const Integer &y) { return x ^ y; }, bxor);
		run_bin("*", a, b, ia, ib, [](const Integer &x, const Integer &y) { return x * y; }, bmul);
		run_bin("neg", a, b, ia, ib, [](const Integer &x, const Integer &) { return -x; }, [](const BV &x, const BV &) { return bneg(x); });
		run_bin("/", a, b, ia, ib, [](const Integer &x, const Integer &y) { return x / y; }, bdiv, true); run_bin("%", a, b, ia, ib, [](const Integer &x, const Integer &y) { return x % y; }, bmod, true);
		run_bin("self+", a, b, ia, ib, [](const Integer &x, const Integer &) { Integer t = x; t = t + t; return t; }, [](const BV &x, const BV &) { return badd(x, x); });
		run_bin("self*", a, b, ia, ib, [](const Integer &x, const Integer &) { Integer t = x; t = t * t; return t; }, [](const BV &x, const BV &) { return bmul(x, x); });
		run_bin("self-", a, b, ia, ib, [](const Integer &x, const Integer &) { Integer t = x; t = t - t; return t; }, [](const BV &x, const BV &) { return BV(x.w, 0); });
		run_bin("self^=", a, b, ia, ib, [](const Integer &x, const Integer &) { Integer t = x; Integer &u = t; t ^= u; return t; }, [](const BV &x, const BV &) { return BV(x.w, 0); });
		run_bin("a^=b", a, b, ia, ib, [](const Integer &x, const Integer &y) { Integer t = x; Integer v = (t ^= y); if (!same_bits(t, v)) M.fail("int:xor-assign-value", ""); return t; }, bxor);
		run_bin("self/", a, b, ia, ib, [](const Integer &x, const Integer &y) { Integer t = y; t = t / t; return t; }, [](const BV &x, const BV &y) { return BV(x.w, 1); }, true);
		run_bin("divmod", a, b, ia, ib, [](const Integer &x, const Integer &y) { Integer q = x / y; Integer m = x % y; return q * y + m; }, [](const BV &x, const BV &) { return x; }, true);
		// public constant operand
		run_bin("+const", a, b, ia, ib, [](const Integer &x, const Integer &) { Integer c((int)x.size(), (int64_t)-3, emp::PUBLIC); return x + c; }, [](const BV &x, const BV &) { return bsub(x, BV(x.w, 3)); });
		run_bin("*const", a, b, ia, ib, [](const Integer &x, const Integer &) { Integer c((int)x.size(), (int64_t)5, emp::PUBLIC); return c * x; }, [](const BV &x, const BV &) { return bmul(x, BV(x.w, 5)); });
		M.eval(lanes_hash(a, b, a[0].w), 128);
	});
	if (BV_WORDS > 33) { programs(r, true, M.n(10), M.n(10), 900); return; }
	programs(r, true, M.n(120), 0, 70); plain_mix(r, true); programs(r, true, 0, M.n(600), 40);
	M.sample("all value pairs for widths 1..7; extremes and random values for widths up to 257");
}
static void part_cmp() {
	Rng r = M.rng(16); BS bs; use_bs(&bs);
	for_operands(r, M.shard == 0, M.n(100), [&](const Lanes &a, const Lanes &b) {
		Integer ia = slice(a), ib = slice(b), s1 = ia, s2 = ib; int w = a[0].w; ctx("comparisons width %d", w);
		std::vector<uint8_t> ge(128), gt(128), eq(128), le(128), lt(128), ne(128), sel(128); for (int k = 0; k < 128; ++k) { int c = scmp(a[k], b[k]); ge[k] = c >= 0; gt[k] = c > 0; eq[k] = c == 0; le[k] = c <= 0; lt[k] = c < 0; ne[k] = c != 0; sel[k] = r.coin(); }
		cmp_bits(">=", unslice(ia >= ib), ge, a, b); cmp_bits(">", unslice(ia > ib), gt, a, b); cmp_bits("==", unslice(ia == ib), eq, a, b); cmp_bits("<=", unslice(ia <= ib), le, a, b); cmp_bits("<", unslice(ia < ib), lt, a, b); cmp_bits("!=", unslice(ia != ib), ne, a, b); cmp_bits("geq", unslice(ia.geq(ib)), ge, a, b); cmp_bits("equal", unslice(ia.equal(ib)), eq, a, b);
		cmp_bits("self>=", unslice(ia >= ia), std::vector<uint8_t>(128, 1), a, a); cmp_bits("self==", unslice(ia == ia), std::vector<uint8_t>(128, 1), a, a); cmp_bits("self<", unslice(ia < ia), std::vector<uint8_t>(128, 0), a, a);
		Bit sb = slice_bit(sel); Lanes sA(128), sB(128); for (int k = 0; k < 128; ++k) { sA[k] = sel[k] ? b[k] : a[k]; sB[k] = sel[k] ? a[k] : b[k]; }
		cmp_lanes("select", unslice(ia.select(sb, ib)), sA, a, b); cmp_lanes("If-member", unslice(ia.If(sb, ib)), sA, a, b); cmp_lanes("If", unslice(emp::If(sb, ia, ib)), sB, a, b);
		{ Integer x = ia, y = ib; emp::swap(sb, x, y); cmp_lanes("swap-first", unslice(x), sA, a, b); cmp_lanes("swap-second", unslice(y), sB, a, b); Integer z = ia; emp::swap(sb, z, z); cmp_lanes("swap-self", unslice(z), a, a, b); Integer q = ia; q = q.select(sb, q); cmp_lanes("select-self", unslice(q), a, a, b); }
		{ Lanes ab(128); for (int k = 0; k < 128; ++k) ab[k] = babs(a[k]); cmp_lanes("abs", unslice(ia.abs()), ab, a, b); }
		{ Lanes h = unslice(ia.hamming_weight()), l = unslice(ia.leading_zeros()); for (int k = 0; k < 128; ++k) { if (h[k].low() != (uint64_t)bpop(a[k]) || h[k].neg()) { M.fail("int:hamming_weight", a[k].str() + " -> " + h[k].str()); break; } if (l[k].low() != (uint64_t)blz(a[k]) || l[k].neg()) { M.fail("int:leading_zeros", a[k].str() + " -> " + l[k].str()); break; } } }
		for (int t = 0; t < 3; ++t) { int n = 1 + r.below(w + 40); Lanes e(128), u(128); for (int k = 0; k < 128; ++k) { e[k] = a[k].sext(n); u[k] = a[k].zext(n); } Integer x = ia; Integer &ret = x.resize(n, true); if (&ret != &x) M.fail("int:resize-ref", ""); cmp_lanes("resize-signed", unslice(x), e, a, b); Integer y = ia; y.resize(n, false); cmp_lanes("resize-unsigned", unslice(y), u, a, b); Integer z = ia; z.resize(n); cmp_lanes("resize", unslice(z), e, a, b); }
		std::vector<size_t> sh = {0, 1, (size_t)w - 1, (size_t)w, (size_t)w + 1, (size_t)w + 7, r.below(w + 1), 1000, (size_t)1 << 32}; for (size_t n : sh) { Lanes L(128), R(128); for (int k = 0; k < 128; ++k) { L[k] = bshl(a[k], n); R[k] = bshr(a[k], n); } cmp_lanes(fmt("<<%zu", n).c_str(), unslice(ia << n), L, a, b); cmp_lanes(fmt(">>%zu", n).c_str(), unslice(ia >> n), R, a, b); }
		{ // secret amounts 0..w-1, several representations of the amount
			int need = 1; while ((1 << need) < w) ++need; int sw = r.coin(3) ? w : need + 1 + (int)r.below(4); if (sw < need + 1) sw = need + 1; if (r.coin(4) && w <= 16) sw = need + 1; Lanes am(128), L(128), R(128); for (int k = 0; k < 128; ++k) { uint64_t n = r.coin(5) ? w - 1 : r.below(w); am[k] = BV(sw, n); L[k] = bshl(a[k], n); R[k] = bshr(a[k], n); } Integer is = slice(am), keep = is; cmp_lanes("<<secret", unslice(ia << is), L, a, am); cmp_lanes(">>secret", unslice(ia >> is), R, a, am); if (!same_bits(is, keep)) M.fail("int:operand-changed:shift", ""); }
		if (!same_bits(s1, ia) || !same_bits(s2, ib)) M.fail("int:operand-changed", g_ctx); M.eval(lanes_hash(a, b, 77 + w), 128); M.count("sliced_operations", 128 * 40);
	});
	if (BV_WORDS > 33) { programs(r, false, M.n(10), M.n(10), 900); return; }
	// every public and secret amount for every width up to 40
	if (M.shard == 0) for (int w = 1; w <= 40; ++w) { Lanes a(128); for (int k = 0; k < 128; ++k) a[k] = rand_bv(r, w); Integer ia = slice(a); for (int n = 0; n <= w + 2; ++n) { Lanes L(128), R(128); for (int k = 0; k < 128; ++k) { L[k] = bshl(a[k], n); R[k] = bshr(a[k], n); } ctx("shift width %d by %d", w, n); cmp_lanes("<<c", unslice(ia << (size_t)n), L, a, a); cmp_lanes(">>c", unslice(ia >> (size_t)n), R, a, a); if (n < w) { Integer s(8, (int64_t)n, emp::PUBLIC); cmp_lanes("<<s", unslice(ia << s), L, a, a); cmp_lanes(">>s", unslice(ia >> s), R, a, a); } M.eval(mix64(w * 100 + n) + 3); } }
	// modular exponentiation: q >= 2, squares of residues and of the base below 2^(w-1)
	for (size_t it = 0; it < M.n(6); ++it) { int w = it == 0 ? 4 : 4 + (int)r.below(21), pw = 1 + r.below(8); uint64_t lim = 1; while ((lim + 1) * (lim + 1) < (1ULL << (w - 1))) ++lim; Lanes a(128), p(128), q(128), want(128); for (int k = 0; k < 128; ++k) { uint64_t qq = 2 + r.below(lim), bs_ = r.below(lim + 1), e = r.below(1ULL << pw); if (qq > lim + 1) qq = lim + 1; if (qq < 2) qq = 2; if (r.coin(6)) bs_ = qq - 1; if (r.coin(8)) bs_ = 0; if (bs_ > lim) bs_ = lim; a[k] = BV(w, bs_); p[k] = BV(pw, e); q[k] = BV(w, qq); uint64_t v = 1; for (uint64_t i = 0; i < e; ++i) v = v * bs_ % qq; want[k] = BV(w, v); } Integer ia = slice(a); ctx("modExp width %d exponent %d bits", w, pw); cmp_lanes("modExp", unslice(ia.modExp(slice(p), slice(q))), want, a, q); if (!same_bits(ia, slice(a))) M.fail("int:operand-changed:modExp", ""); M.eval(lanes_hash(a, q, 5), 128); M.count("modexp", 128); progress(); }
	// Bit truth tables: all lanes of (a,b,s), sliced and with every mixture of owners on the plain backend
	{ std::vector<uint8_t> A(128), B(128), S(128), E(128); for (int k = 0; k < 128; ++k) { A[k] = k & 1; B[k] = (k >> 1) & 1; S[k] = (k >> 2) & 1; } Bit a = slice_bit(A), b = slice_bit(B), s = slice_bit(S); auto ck = [&](const char *n, const Bit &g, std::function<int(int, int, int)> f) { std::vector<uint8_t> v = unslice(g); for (int k = 0; k < 128; ++k) if (v[k] != (f(A[k], B[k], S[k]) & 1)) { M.fail(std::string("bit:") + n, fmt("a=%d b=%d s=%d", A[k], B[k], S[k])); break; } };
	  ck("&", a & b, [](int x, int y, int) { return x & y; }); ck("|", a | b, [](int x, int y, int) { return x | y; }); ck("^", a ^ b, [](int x, int y, int) { return x ^ y; }); ck("!", !a, [](int x, int, int) { return !x; }); ck("==", a == b, [](int x, int y, int) { return x == y; }); ck("!=", a != b, [](int x, int y, int) { return x != y; }); ck("select", a.select(s, b), [](int x, int y, int z) { return z ? y : x; }); ck("If", emp::If(s, a, b), [](int x, int y, int z) { return z ? x : y; }); ck("If-member", a.If(s, b), [](int x, int y, int z) { return z ? y : x; }); Bit t = a; Bit u = (t ^= b); ck("^=", t, [](int x, int y, int) { return x ^ y; }); ck("^=value", u, [](int x, int y, int) { return x ^ y; }); Bit x = a, y = b; emp::swap(s, x, y); ck("swap1", x, [](int p, int q, int z) { return z ? q : p; }); ck("swap2", y, [](int p, int q, int z) { return z ? p : q; }); ck("self&", a & a, [](int p, int, int) { return p; }); ck("self^", a ^ a, [](int, int, int) { return 0; }); ck("self|", a | a, [](int p, int, int) { return p; }); t = a; t ^= t; ck("self^=", t, [](int, int, int) { return 0; }); t = a; t = t.select(t, b); ck("select-self", t, [](int p, int q, int) { return p ? q : p; }); }
	{ int parties[] = {emp::PUBLIC, emp::ALICE, emp::BOB}; plain_begin(); for (int pa : parties) for (int pb : parties) for (int ps : parties) for (int v = 0; v < 8; ++v) { bool x = v & 1, y = v & 2, z = v & 4; Bit a(x, pa), b(y, pb), s(z, ps); std::string d = fmt("a=%d@%d b=%d@%d s=%d@%d", x, pa, y, pb, z, ps); ctx("bit %s", d.c_str()); auto ck = [&](const char *n, const Bit &g, bool w) { if (g.reveal<bool>() != w) M.fail(std::string("bit:plain:") + n, d); }; ck("&", a & b, x && y); ck("|", a | b, x || y); ck("^", a ^ b, x != y); ck("!", !a, !x); ck("==", a == b, x == y); ck("!=", a != b, x != y); ck("select", a.select(s, b), z ? y : x); ck("If", emp::If(s, a, b), z ? x : y); Bit t = a, u = b; emp::swap(s, t, u); ck("swap1", t, z ? y : x); ck("swap2", u, z ? x : y); ck("a", a, x); ck("b", b, y); M.eval(mix64(pa * 1000003 + pb * 1009 + ps * 17 + v) ^ 5); M.count("bit_cases"); } plain_end(); }
	use_bs(&bs); programs(r, false, M.n(200), 0, 70); plain_mix(r, false); programs(r, false, 0, M.n(1000), 40);
}
#endif
#ifdef P_SORT
template <class D> struct Payload;
static void sort_case(Rng &r, const std::vector<Lanes> &keys, int payload, int dir /*0 default,1 asc,2 desc,3 secret*/) {
	int n = (int)keys.size(), w = n ? keys[0][0].w : 4; ctx("sort n=%d width=%d payload=%d direction=%d", n, w, payload, dir);
	std::vector<Integer> K; for (auto &k : keys) K.push_back(slice(k)); Lanes gl(128); for (int k = 0; k < 128; ++k) gl[k] = rand_bv(r, w); Integer guard = slice(gl); K.insert(K.begin(), guard); K.push_back(guard);
	std::vector<uint8_t> dirs(128); for (int k = 0; k < 128; ++k) dirs[k] = dir == 3 ? r.coin() : dir != 2; Bit acc = slice_bit(dirs);
	int pw = payload == 2 ? 1 : 17; std::vector<Integer> PI; std::vector<Bit> PB; std::vector<emp::Float> PF; std::vector<Lanes> pay(n, Lanes(128, BV(pw)));
	for (int i = 0; i < n; ++i) for (int k = 0; k < 128; ++k) pay[i][k] = payload == 2 ? BV(1, mix64(keys[i][k].low() * 31 + keys[i][k].w) & 1) : BV(17, i); // Bit payload: a function of the key
	Lanes pg(128); for (int k = 0; k < 128; ++k) pg[k] = rand_bv(r, pw); Integer pguard = slice(pg);
	if (payload == 1) { PI.push_back(pguard); for (int i = 0; i < n; ++i) PI.push_back(slice(pay[i])); PI.push_back(pguard); }
	if (payload == 2) { PB.push_back(pguard[0]); for (int i = 0; i < n; ++i) PB.push_back(slice(pay[i])[0]); PB.push_back(pguard[0]); }
	Integer *kp = &K[1];
	if (payload == 0) { if (dir == 0) emp::sort(kp, n); else emp::sort(kp, n, (Bit *)nullptr, acc); }
	else if (payload == 1) { if (dir == 0) emp::sort(kp, n, &PI[1]); else emp::sort(kp, n, &PI[1], acc); }
	else { if (dir == 0) emp::sort(kp, n, &PB[1]); else emp::sort(kp, n, &PB[1], acc); }
	if (!same_bits(K[0], guard) || !same_bits(K[n + 1], guard)) M.fail("sort:outside-touched", g_ctx);
	if (payload == 1 && (!same_bits(PI[0], pguard) || !same_bits(PI[n + 1], pguard))) M.fail("sort:outside-touched", g_ctx);
	if (payload == 2 && (memcmp(&PB[0], &pguard[0], 16) || memcmp(&PB[n + 1], &pguard[0], 16))) M.fail("sort:outside-touched", g_ctx);
	std::vector<Lanes> out, pout; for (int i = 0; i < n; ++i) { out.push_back(unslice(K[i + 1])); if (payload == 1) pout.push_back(unslice(PI[i + 1])); if (payload == 2) pout.push_back(unslice(Integer(std::vector<Bit>(1, PB[i + 1])))); }
	auto lt = [](const BV &a, const BV &b) { return scmp(a, b) < 0; };
	for (int k = 0; k < 128; ++k) {
		std::vector<BV> in, res; for (int i = 0; i < n; ++i) { in.push_back(keys[i][k]); res.push_back(out[i][k]); }
		std::vector<BV> want = in; std::sort(want.begin(), want.end(), lt); if (!dirs[k]) std::reverse(want.begin(), want.end());
		std::string d = fmt("%s lane %d keys", g_ctx, k); for (int i = 0; i < n && i < 16; ++i) d += " " + in[i].str();
		for (int i = 0; i < n; ++i) if (!(res[i] == want[i])) { std::vector<BV> a = res, b = in; std::sort(a.begin(), a.end(), lt); std::sort(b.begin(), b.end(), lt); bool same = true; for (int j = 0; j < n; ++j) if (!(a[j] == b[j])) same = false; M.fail(same ? "sort:order" : "sort:keys-changed", d); return; }
		if (payload == 1) { std::vector<bool> seen(n, false); for (int i = 0; i < n; ++i) { uint64_t v = pout[i][k].low(); if (v >= (uint64_t)n || seen[v]) { M.fail("sort:payload-not-permuted", d); return; } seen[v] = true; if (!(keys[v][k] == res[i])) { M.fail("sort:payload-detached", d); return; } } }
		if (payload == 2) for (int i = 0; i < n; ++i) if (pout[i][k].low() != (mix64(res[i].low() * 31 + res[i].w) & 1)) { M.fail("sort:payload-detached", d); return; }
		M.eval(n ? hash_bytes(in.data(), 0, mix64(n * 4 + payload + 16 * dir) ^ mix64(k + (in.empty() ? 0 : in[0].low() * 3 + in[n - 1].low()))) : 0);
	}
	M.count("sorted_arrays", 128); M.count(dir == 3 ? "secret_direction" : dir == 2 ? "descending" : "ascending", 128);
}
static void part_sort() {
	Rng r = M.rng(17); BS bs; use_bs(&bs);
	int maxn = M.thorough ? 16 : 12;
	if (M.shard == 0) for (int n = 0; n <= maxn; ++n) for (int dir = 1; dir <= 2; ++dir) { for (uint64_t base = 0; base < (1ULL << n); base += 128) { std::vector<Lanes> keys(n, Lanes(128)); for (int i = 0; i < n; ++i) for (int k = 0; k < 128; ++k) keys[i][k] = BV(2, ((base + k) >> i) & 1); sort_case(r, keys, 1, dir); } progress(); M.count("zero_one_inputs", 1ULL << n); }
	std::vector<int> ns; for (int n = 0; n <= 40; ++n) ns.push_back(n); for (size_t i = 0; i < M.n(12); ++i) ns.push_back(41 + r.below(90)); ns.push_back(64); ns.push_back(65); ns.push_back(127); if (M.scale >= 100) { ns.push_back(200 + (int)r.below(60)); ns.push_back(256); ns.push_back(500 + (int)r.below(30)); ns.push_back(1023 + (int)r.below(4)); ns.push_back(2000 + (int)r.below(100)); } if (M.thorough) { ns.push_back(256); ns.push_back(333); }
	for (int n : ns) for (int payload = 0; payload < 3; ++payload) { int w = 1 + r.below(r.coin() ? 4 : 40); if (n > 190) { if (payload != n % 3) continue; w = 1 + r.below(14); } std::vector<Lanes> keys(n, Lanes(128)); int style = r.below(5); for (int k = 0; k < 128; ++k) { for (int i = 0; i < n; ++i) { BV v = rand_bv(r, w, i ? &keys[i - 1][k] : nullptr); if (style == 1 && i) v = keys[0][k]; if (style == 2) v = BV(w, i); if (style == 3) v = bneg(BV(w, i)); keys[i][k] = v; } } sort_case(r, keys, payload, n <= 8 ? (int)r.below(4) : (int)((n + payload) % 4)); progress(); }
	// Float payload
	{ int n = 13; std::vector<Integer> K; std::vector<emp::Float> F; std::vector<Lanes> keys(n, Lanes(128)), pl(n, Lanes(128)); for (int i = 0; i < n; ++i) { for (int k = 0; k < 128; ++k) { keys[i][k] = rand_bv(r, 9); pl[i][k] = BV(32, mix64(keys[i][k].low()) & 0xffffffff); } K.push_back(slice(keys[i])); emp::Float f(0.0f); Integer x = slice(pl[i]); for (int j = 0; j < 32; ++j) f[j] = x[j]; F.push_back(f); }
	  emp::sort(K.data(), n, F.data()); for (int i = 0; i < n; ++i) { Lanes k1 = unslice(K[i]); std::vector<Bit> fb(F[i].value.begin(), F[i].value.end()); Lanes f1 = unslice(Integer(fb)); for (int k = 0; k < 128; ++k) if (f1[k].low() != (mix64(k1[k].low()) & 0xffffffff)) { M.fail("sort:payload-detached", "Float payload"); i = n; break; } } M.count("float_payload", 128); }
	// plain backend with public keys, private payload and both directions
	for (size_t it = 0; it < M.n(20); ++it) { plain_begin(); int n = r.below(20); std::vector<Integer> K, P; std::vector<int> kv; bool acc = r.coin(); for (int i = 0; i < n; ++i) { int v = (int)r.below(30) - 15; kv.push_back(v); K.push_back(Integer(16, (int64_t)v, r.coin() ? emp::PUBLIC : r.coin() ? emp::ALICE : emp::BOB)); P.push_back(Integer(16, (int64_t)i, r.coin() ? emp::PUBLIC : emp::BOB)); } ctx("plain sort n=%d acc=%d", n, acc); emp::sort(K.data(), n, P.data(), Bit(acc, r.coin() ? emp::PUBLIC : emp::ALICE)); std::vector<int> w = kv; std::sort(w.begin(), w.end()); if (!acc) std::reverse(w.begin(), w.end()); std::set<int> seen; for (int i = 0; i < n; ++i) { int v = (int16_t)K[i].reveal<uint32_t>(), p = P[i].reveal<uint32_t>(); if (v != w[i]) { M.fail("sort:plain-order", g_ctx); break; } if (p < 0 || p >= n || kv[p] != v || !seen.insert(p).second) { M.fail("sort:plain-payload", g_ctx); break; } } plain_end(); M.eval(it + 9000); M.count("plain_sorts"); }
	M.sample("0-1 inputs of every length up to 12, ascending and descending, with index payloads");
}
#endif
#ifdef P_SORT
// Long arrays, on both sides of powers of two.
static void part_big() {
	Rng r = M.rng(18); BS bs; use_bs(&bs); std::vector<int> ns = {4095 + (int)r.below(3), 4098 + (int)r.below(1500), 6000 + (int)r.below(2100), 8193 + (int)r.below(800), 16384 + (int)r.below(600)}; if (M.thorough) { ns.push_back(32768 + (int)r.below(400)); ns.push_back(40000 + (int)r.below(10000)); ns.push_back(65536 + (int)r.below(3)); }
	for (int n : ns) { int w = r.coin() ? 17 : 5 + (int)r.below(12), style = (int)r.below(3); std::vector<Lanes> keys(n, Lanes(128)); for (int k = 0; k < 128; ++k) for (int i = 0; i < n; ++i) keys[i][k] = style == 0 && k < 8 ? (k & 1 ? bneg(BV(w, i)) : BV(w, i)) : style == 1 && k < 32 ? BV(w, (i >= (int)(mix64(k) % n)) ^ (k & 1)) : BV(w, r.u64()); progress(); sort_case(r, keys, n % 3 == 2 ? 1 : n % 3, (int)r.below(4)); progress(); }
}
#endif
#ifdef P_REVEAL
struct RecProt : emp::ProtocolExecution { // records what reaches the protocol
	std::vector<std::pair<int, std::vector<uint8_t>>> feeds, reveals; 
	void feed(block *l, int party, const bool *b, int n) override { std::vector<uint8_t> v; for (int i = 0; i < n; ++i) { v.push_back(b[i]); l[i] = b[i] ? emp::makeBlock(7, 1) : emp::makeBlock(7, 0); } feeds.push_back({party, v}); }
	void reveal(bool *b, int party, const block *l, int n) override { std::vector<uint8_t> v; for (int i = 0; i < n; ++i) { b[i] = emp::getLSB(l[i]); v.push_back(b[i]); } reveals.push_back({party, v}); }
	std::vector<std::pair<int, uint8_t>> flat(bool f) { std::vector<std::pair<int, uint8_t>> r; for (auto &e : f ? feeds : reveals) for (auto b : e.second) r.push_back({e.first, b}); return r; }
};
struct TagCirc : emp::CircuitExecution { block and_gate(const block &a, const block &b) override { return a & b; } block xor_gate(const block &a, const block &b) override { return a ^ b; } block not_gate(const block &a) override { return a ^ emp::makeBlock(0, 1); } block public_label(bool b) override { return emp::makeBlock(9, b); } };
static void check_value(Rng &r, const Integer &x, const BV &v, int rp, RecProt *rec, const char *how) {
	int w = v.w; std::string d = fmt("%s %s", how, v.str().c_str());
	if ((int)x.size() != w) { M.fail("reveal:size", d); return; }
	if (rec) rec->reveals.clear();
	{ std::string s = x.reveal<std::string>(rp); bool ok = (int)s.size() == w; for (int i = 0; ok && i < w; ++i) ok = s[i] == (v.bit(i) ? '1' : '0'); if (!ok) M.fail("reveal:string", d + " got " + s); }
	if (rec) { auto f = rec->flat(false); bool ok = (int)f.size() == w; for (int i = 0; ok && i < w; ++i) ok = f[i].first == rp && f[i].second == v.bit(i); if (!ok) M.fail("reveal:party-or-order", d); }
	{ uint32_t a = x.reveal<uint32_t>(rp); if (a != (uint32_t)v.zext(32).low()) M.fail("reveal:uint32", d); uint64_t b = x.reveal<uint64_t>(rp); if (b != v.zext(64).low()) M.fail("reveal:uint64", d); int32_t c = x.reveal<int32_t>(rp); if ((uint32_t)c != (uint32_t)v.zext(32).low()) M.fail("reveal:int32", d); int64_t e = x.reveal<int64_t>(rp); if ((uint64_t)e != v.zext(64).low()) M.fail("reveal:int64", d); }
	{ Guarded g(w, r.below(8), r.u64()); x.revealBools((bool *)g.p, rp); bool ok = true; for (int i = 0; i < w; ++i) ok &= g.p[i] == v.bit(i); if (!ok) M.fail("reveal:bools", d); if (!g.intact()) M.fail("reveal:stray-write", d); }
	{ size_t nb = (w + 7) / 8; Guarded g(nb, r.below(8), r.u64()); switch (r.below(3)) { case 0: x.reveal<uint8_t>((uint8_t *)g.p, rp); break; case 1: x.reveal<char>((char *)g.p, rp); break; default: x.reveal((unsigned char *)g.p, rp); } bool ok = true; for (int i = 0; i < w; ++i) ok &= ((g.p[i / 8] >> (i % 8)) & 1) == v.bit(i); if (!ok) M.fail("reveal:buffer", d); if (!g.intact()) M.fail("reveal:stray-write", d); }
}
static void part_reveal() {
	Rng r = M.rng(18); int parties[] = {emp::PUBLIC, emp::ALICE, emp::BOB};
	for (int backend = 0; backend < 2; ++backend) {
		RecProt *rec = nullptr; TagCirc tc; if (backend == 0) { rec = new RecProt; emp::ProtocolExecution::prot_exec = rec; emp::CircuitExecution::circ_exec = &tc; } else plain_begin();
		std::vector<int> wd; for (size_t rep = 0; rep < M.n(3); ++rep) { for (int w = 1; w <= 300; ++w) wd.push_back(w); static const int wide[] = {511, 512, 513, 767, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 5000}; wd.push_back(wide[r.below(15)]); wd.push_back(301 + (int)r.below(4800)); }
		for (int w : wd) {
			int party = parties[r.below(3)], rp = parties[r.below(3)]; BV v = rand_bv(r, w); std::vector<uint8_t> by((w + 7) / 8, 0); for (int i = 0; i < w; ++i) if (v.bit(i)) by[i / 8] |= 1 << (i % 8);
			auto fed = [&](const BV &val, const char *how) { if (!rec) return; auto f = rec->flat(true); if (party == emp::PUBLIC) { if (!f.empty()) M.fail("feed:public-value-fed", fmt("%s width %d", how, w)); } else { bool ok = (int)f.size() == val.w; for (int i = 0; ok && i < val.w; ++i) ok = f[i].first == party && f[i].second == val.bit(i); if (!ok) M.fail("feed:bits", fmt("%s party %d %s: %zu bits fed", how, party, val.str().c_str(), f.size())); } rec->feeds.clear(); };
			ctx("feed/reveal width %d party %d reveal %d", w, party, rp); if (rec) rec->feeds.clear();
			{ emp::Bit dflt; if (rec && !rec->feeds.empty()) M.fail("feed:public-value-fed", "default Bit"); if (dflt.reveal<bool>(rp)) M.fail("reveal:default-bit", "a default Bit is not 0"); emp::Bit one(true); if (rec && !rec->feeds.empty()) M.fail("feed:public-value-fed", "Bit with default party"); if (!one.reveal<bool>(rp)) M.fail("reveal:default-bit", "Bit(true)"); }
			{ Guarded g(by.size(), r.below(8), 3); memcpy(g.p, by.data(), by.size()); int k = r.below(3); Integer x = k == 0 ? Integer(w, (uint8_t *)g.p, party) : k == 1 ? Integer(w, (char *)g.p, party) : Integer(w, (const uint8_t *)g.p, party); fed(v, "bytes"); check_value(r, x, v, rp, rec, "bytes"); if (memcmp(g.p, by.data(), by.size())) M.fail("feed:input-modified", ""); }
			{ int64_t s = (int64_t)r.u64(); if (r.coin(4)) s = -(int64_t)r.below(100); if (r.coin(6)) s = INT64_MIN; if (r.coin(8)) s = INT64_MAX; BV e = BV(64, (uint64_t)s).sext(w > 64 ? w : 64).zext(w); Integer x(w, s, party); fed(e, "int64"); check_value(r, x, e, rp, rec, "int64"); if (w >= 64) { BV full = e; if (x.reveal<int64_t>(rp) != s) M.fail("reveal:int64-roundtrip", fmt("width %d value %lld", w, (long long)s)); } if (w >= 32 && s == (int32_t)s && x.reveal<int32_t>(rp) != (int32_t)s) M.fail("reveal:int32-roundtrip", ""); }
			if (rec) { // default arguments mean public
				rec->feeds.clear(); Integer x(w, (int64_t)5); if (!rec->feeds.empty()) M.fail("feed:default-party", "Integer"); rec->reveals.clear(); x.reveal<std::string>(); for (auto &e : rec->reveals) if (e.first != emp::PUBLIC) M.fail("reveal:default-party", "Integer"); }
			M.eval(hash_bytes(by.data(), by.size(), w * 16 + party * 4 + rp), 2); M.count("integers", 2);
		}
		progress();
		{ static const int gw[] = {9999, 16384, 32767, 32768, 65535, 65536, 65537, 131073, 300000, 1000003}; for (int t = 0; t < (M.scale < 20 ? 2 : 5); ++t) { int w = t == 4 ? 9000001 /* more bits than a thread has bytes of stack */ : t ? gw[r.below(M.scale < 20 ? 7 : 10)] : 10000 + (int)r.below(60000), party = parties[r.below(3)], rp = parties[r.below(3)]; ctx("feed/reveal width %d party %d reveal %d", w, party, rp); std::vector<uint8_t> by((w + 7) / 8, 0); r.bytes(by.data(), by.size()); if (w % 8) by.back() &= (1 << (w % 8)) - 1; if (rec) rec->feeds.clear(); Integer x(w, by.data(), party); auto bit = [&](int i) { return (by[i / 8] >> (i % 8)) & 1; };
			if (rec) { auto f = rec->flat(true); bool ok = party == emp::PUBLIC ? f.empty() : (int)f.size() == w; for (size_t i = 0; ok && i < f.size(); ++i) ok = f[i].first == party && f[i].second == bit((int)i); if (!ok) M.fail("feed:giant", g_ctx); rec->feeds.clear(); rec->reveals.clear(); }
			std::string str = x.reveal<std::string>(rp); bool ok = (int)str.size() == w; for (int i = 0; ok && i < w; ++i) ok = str[i] == (bit(i) ? '1' : '0'); if (!ok) M.fail("reveal:giant-string", g_ctx); Guarded g(by.size(), r.below(8), 3); memset(g.p, 0, by.size()); x.reveal(g.p, rp); if (memcmp(g.p, by.data(), by.size())) M.fail("reveal:giant-buffer", g_ctx); std::vector<char> bl(w + 1, 9); x.revealBools((bool *)bl.data(), rp); for (int i = 0; i < w; ++i) if (bl[i] != bit(i)) { M.fail("reveal:giant-bools", g_ctx); break; } if (bl[w] != 9) M.fail("reveal:giant-bools", "wrote past the end"); uint64_t lo; memcpy(&lo, by.data(), 8); if (x.reveal<uint64_t>(rp) != lo || x.reveal<int64_t>(rp) != (int64_t)lo || x.reveal<uint32_t>(rp) != (uint32_t)lo || x.reveal<int32_t>(rp) != (int32_t)lo) M.fail("reveal:giant-word", g_ctx); if (rec) rec->reveals.clear(); M.eval(mix64(w * 9 + party * 3 + rp), 7); M.count("giant_integers"); progress(); } }
		for (size_t it = 0; it < M.n(300); ++it) { // whole objects
			int party = parties[r.below(3)], rp = parties[r.below(3)]; ctx("typed feed party %d", party); if (rec) rec->feeds.clear(); uint64_t u = r.u64(); uint32_t u4 = (uint32_t)r.u64(); uint16_t u2 = (uint16_t)r.u64(); uint8_t u1 = (uint8_t)r.u64(); struct S { uint8_t b[37]; } s; r.bytes(s.b, 37); block blk = emp::makeBlock(r.u64(), r.u64());
			Integer a(&u, party), b(&u4, party), c(&u2, party), e(&u1, party), f(&s, party), g(&blk, party); BV bs_(296), bb(128); for (int i = 0; i < 296; ++i) bs_.set(i, (s.b[i / 8] >> (i % 8)) & 1); memcpy(bb.d.data(), &blk, 16);
			if (rec) { auto fl = rec->flat(true); size_t want = party == emp::PUBLIC ? 0 : 64 + 32 + 16 + 8 + 296 + 128; if (fl.size() != want) M.fail("feed:object-bits", fmt("%zu bits fed, expected %zu", fl.size(), want)); }
			check_value(r, a, BV(64, u), rp, rec, "u64*"); check_value(r, b, BV(32, u4), rp, rec, "u32*"); check_value(r, c, BV(16, u2), rp, rec, "u16*"); check_value(r, e, BV(8, u1), rp, rec, "u8*"); check_value(r, f, bs_, rp, rec, "struct*"); check_value(r, g, bb, rp, rec, "block*");
			{ S t; memset(&t, 0x3c, sizeof t); f.reveal(&t, rp); if (memcmp(&t, &s, 37)) M.fail("reveal:struct", ""); uint64_t u2_ = 0; a.reveal(&u2_, rp); if (u2_ != u) M.fail("reveal:u64-buffer", ""); }
			bool v = r.coin(); if (rec) { rec->feeds.clear(); rec->reveals.clear(); } Bit bit(v, party); if (bit.reveal<bool>(rp) != v) M.fail("reveal:bit", ""); if (rec) { auto fl = rec->flat(true); if (party == emp::PUBLIC ? !fl.empty() : fl.size() != 1 || fl[0].first != party || fl[0].second != v) M.fail("feed:bit", ""); auto rv = rec->flat(false); if (rv.size() != 1 || rv[0].first != rp) M.fail("reveal:bit-party", ""); } if (bit.reveal<std::string>(rp) != (v ? "true" : "false")) M.fail("reveal:bit-string", "");
			uint32_t fb = (uint32_t)r.u64(); if (it < 12) { uint32_t sp[] = {0, 0x80000000u, 0x7f800000u, 0xff800000u, 1, 0x807fffffu, 0x3f800000u, 0x7f7fffffu, 0x00800000u, 0xffffffffu, 0x7fc00000u, 0x40490fdbu}; fb = sp[it]; } float fv; memcpy(&fv, &fb, 4); if (rec) rec->feeds.clear(); emp::Float fl(fv, party); if (rec) { auto q = rec->flat(true); if (party == emp::PUBLIC) { if (!q.empty()) M.fail("feed:float-public", ""); } else { bool ok = q.size() == 32; for (int i = 0; ok && i < 32; ++i) ok = q[i].first == party && q[i].second == ((fb >> i) & 1); if (!ok) M.fail("feed:float", fmt("%08x", fb)); } }
			{ uint32_t back = 0; for (int i = 0; i < 32; ++i) back |= (uint32_t)fl[i].reveal<bool>(rp) << i; if (back != fb) M.fail("reveal:float-bits", fmt("%08x -> %08x", fb, back)); bool nan = ((fb >> 23) & 255) == 255 && (fb & 0x7fffff); if (!nan) { double dd = fl.reveal<double>(rp); if (dd != (double)fv || std::signbit(dd) != std::signbit(fv)) M.fail("reveal:float-double", fmt("%08x -> %g", fb, dd)); if (fl.reveal<std::string>(rp) != std::to_string(fv)) M.fail("reveal:float-string", fl.reveal<std::string>(rp)); } }
			M.eval(mix64(u ^ fb), 8); M.count("objects", 8);
		}
		if (rec) { delete rec; emp::ProtocolExecution::prot_exec = nullptr; emp::CircuitExecution::circ_exec = nullptr; } else plain_end();
		progress();
	}
	M.sample("widths 1..300 x owners x reveal parties through a recording and the plain backend");
}
#endif
int main(int argc, char **argv) {
	init(argc, argv); start_watchdog(120); g_big = M.thorough || M.shard > 0;
#ifdef P_INT
	if (M.part != "cmp") { part_arith(); Rng r = M.rng(31); giant(r, true); } if (M.part != "arith") { part_cmp(); Rng r = M.rng(32); giant(r, false); }
#endif
#ifdef P_SORT
	if (M.part == "big") part_big(); else part_sort();
#endif
#ifdef P_REVEAL
	part_reveal();
#endif
	return done();
}
