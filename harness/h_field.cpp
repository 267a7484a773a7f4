// C12 GF(2^128), C13 transpose / block / bool conversions, C14 curve group and big integers
#include "common.h"
#include "emp-tool/emp-tool.h"
#include <sstream>
#include <set>
#include <sys/random.h>
#include <openssl/rand.h>
using namespace vf;
using emp::block;
using emp::makeBlock;
using emp::operator<<;
typedef std::array<uint64_t, 2> W2;
static W2 w2(const block &b) { W2 w; memcpy(w.data(), &b, 16); return w; }
static block B(const W2 &w) { return makeBlock(w[1], w[0]); }
static std::string hb(const block &b) { return hex(&b, 16); }
static bool eq(const block &a, const block &b) { return !memcmp(&a, &b, 16); }
static block unit(int i) { return i < 64 ? makeBlock(0, 1ULL << i) : makeBlock(1ULL << (i - 64), 0); }
static block rblock(Rng &r) { return makeBlock(r.u64(), r.u64()); }
static block sblock(Rng &r) {
	switch (r.below(10)) {
	case 0: return emp::zero_block; case 1: return emp::all_one_block; case 2: return unit(r.below(128));
	case 3: return makeBlock(0, r.u64()); case 4: return makeBlock(r.u64(), 0);
	case 5: return unit(r.below(128)) ^ unit(r.below(128)); case 6: return makeBlock(0xffffffff00000000ULL >> r.below(64), r.u64() | 1);
	default: return rblock(r);
	}
}
struct Blocks { block *p; Blocks(size_t n) { void *q = 0; if (posix_memalign(&q, 16, n * 16 + (n == 0))) abort(); p = (block *)q; } ~Blocks() { free(p); } Blocks(const Blocks &) = delete; block &operator[](size_t i) { return p[i]; } };

#ifdef P_F2K
// ---------------------------------------------------------------- reference field
typedef std::array<uint64_t, 4> W4;
static W4 ref_mul(W2 a, W2 b) {
	W4 r = {{0, 0, 0, 0}};
	for (int i = 0; i < 128; ++i) if ((b[i >> 6] >> (i & 63)) & 1) { int s = i & 63, w = i >> 6;
		for (int k = 0; k < 2; ++k) { r[w + k] ^= a[k] << s; if (s) r[w + k + 1] ^= a[k] >> (64 - s); } }
	return r;
}
static W2 ref_reduce(W4 v) {
	for (int i = 255; i >= 128; --i) if ((v[i >> 6] >> (i & 63)) & 1) { v[i >> 6] ^= 1ULL << (i & 63); for (int t : {7, 2, 1, 0}) { int j = i - 128 + t; v[j >> 6] ^= 1ULL << (j & 63); } }
	return W2{{v[0], v[1]}};
}
static uint64_t rev64(uint64_t x) { uint64_t r = 0; for (int i = 0; i < 64; ++i) r |= ((x >> i) & 1) << (63 - i); return r; }
static W2 rev(W2 a) { return W2{{rev64(a[1]), rev64(a[0])}}; }
static W2 ref_gf(W2 a, W2 b) { return ref_reduce(ref_mul(a, b)); }
static void gf_pair(const block &a, const block &b) {
	ctx("gf a=%s b=%s", hb(a).c_str(), hb(b).c_str());
	block lo, hi, m, mr; emp::mul128(a, b, &lo, &hi); W4 w = ref_mul(w2(a), w2(b));
	if (w2(lo) != W2{{w[0], w[1]}} || w2(hi) != W2{{w[2], w[3]}}) M.fail("f2k:mul128", fmt("a=%s b=%s", hb(a).c_str(), hb(b).c_str()));
	emp::gfmul(a, b, &m); if (w2(m) != ref_reduce(w)) M.fail("f2k:gfmul", fmt("a=%s b=%s got %s", hb(a).c_str(), hb(b).c_str(), hb(m).c_str()));
	emp::gfmul_reflect(a, b, &mr); if (w2(mr) != rev(ref_gf(rev(w2(a)), rev(w2(b))))) M.fail("f2k:gfmul-reflect", fmt("a=%s b=%s got %s", hb(a).c_str(), hb(b).c_str(), hb(mr).c_str()));
	W2 h[2] = {w2(a), w2(b)}; M.eval(hash_bytes(h, 32));
}
template <int N> static void tmpl(Rng &r) {
	Blocks a(N), b(N), c(N); block r1[2], r2[2], s1, s2, x1, x2; block seed = sblock(r);
	for (int i = 0; i < N; ++i) { a[i] = sblock(r); b[i] = sblock(r); }
	emp::vector_inn_prdt_sum_red<N>(&s1, a.p, b.p); emp::vector_inn_prdt_sum_red(&s2, a.p, b.p, N); if (!eq(s1, s2)) M.fail("f2k:inner-template", fmt("N=%d", N));
	emp::vector_inn_prdt_sum_no_red<N>(r1, a.p, b.p); emp::vector_inn_prdt_sum_no_red(r2, a.p, b.p, N); if (!eq(r1[0], r2[0]) || !eq(r1[1], r2[1])) M.fail("f2k:inner-nored-template", fmt("N=%d", N));
	emp::vector_self_xor<N>(&x1, a.p); emp::vector_self_xor(&x2, a.p, N); if (!eq(x1, x2)) M.fail("f2k:xor-template", fmt("N=%d", N));
	emp::uni_hash_coeff_gen<N>(c.p, seed); W2 p = w2(seed); for (int i = 0; i < N; ++i) { if (w2(c[i]) != p) { M.fail("f2k:coeff-template", fmt("N=%d i=%d", N, i)); break; } p = ref_gf(p, w2(seed)); }
	M.count("template_vectors");
}
static void part_f2k() {
	Rng r = M.rng(12);
	for (int i = 0; i < 128; ++i) { for (int j = 0; j < 128; ++j) gf_pair(unit(i), unit(j)); progress(); }
	for (size_t i = 0; i < M.n(20000); ++i) { gf_pair(sblock(r), sblock(r)); if (i % 1000 == 0) progress(); }
	for (size_t i = 0; i < M.n(20000); ++i) { // reductions on arbitrary 256-bit values
		block lo = sblock(r), hi = sblock(r); if (i < 256) { lo = i < 128 ? unit(i) : emp::zero_block; hi = i < 128 ? emp::zero_block : unit(i - 128); }
		block a = emp::reduce(lo, hi); W4 v = {{w2(lo)[0], w2(lo)[1], w2(hi)[0], w2(hi)[1]}};
		if (w2(a) != ref_reduce(v)) M.fail("f2k:reduce", fmt("lo=%s hi=%s", hb(lo).c_str(), hb(hi).c_str()));
		// The reflected reduction acts on products of reflected operands, i.e. 255-bit values (top bit clear).
		W2 h2 = w2(hi); h2[1] &= ~(1ULL << 63); block hi2 = B(h2);
		block b = emp::reduce_reflect(lo, hi2);
		// reflect: value = bits 0..254 of (lo,hi) read backwards: coefficient of x^(254-i)
		W4 u = {{0, 0, 0, 0}}; W4 src = {{w2(lo)[0], w2(lo)[1], h2[0], h2[1]}}; for (int k = 0; k < 255; ++k) if ((src[k >> 6] >> (k & 63)) & 1) { int t = 254 - k; u[t >> 6] |= 1ULL << (t & 63); }
		if (w2(b) != rev(ref_reduce(u))) M.fail("f2k:reduce-reflect", fmt("lo=%s hi=%s", hb(lo).c_str(), hb(hi2).c_str()));
		M.eval(hash_bytes(&v, 32)); M.count("reductions");
	}
	for (size_t it = 0; it < M.n(3); ++it) {
		for (int n = 0; n <= 140; ++n) {
			ctx("vectors n=%d", n); Blocks a(n), b(n); int sparse = r.below(4); for (int i = 0; i < n; ++i) { a[i] = sparse == 0 && !r.coin(6) ? emp::zero_block : sblock(r); b[i] = sparse == 1 && !r.coin(6) ? emp::zero_block : sparse == 2 ? a[i] : sblock(r); }
			W4 acc = {{0, 0, 0, 0}}; W2 x = {{0, 0}}; for (int i = 0; i < n; ++i) { W4 m = ref_mul(w2(a[i]), w2(b[i])); for (int k = 0; k < 4; ++k) acc[k] ^= m[k]; x[0] ^= w2(a[i])[0]; x[1] ^= w2(a[i])[1]; }
			block s = sblock(r), rr[2] = {sblock(r), sblock(r)}, xx = sblock(r); emp::vector_inn_prdt_sum_red(&s, a.p, b.p, n); if (w2(s) != ref_reduce(acc)) M.fail("f2k:inner-product", fmt("n=%d", n));
			emp::vector_inn_prdt_sum_no_red(rr, a.p, b.p, n); if (w2(rr[0]) != W2{{acc[0], acc[1]}} || w2(rr[1]) != W2{{acc[2], acc[3]}}) M.fail("f2k:inner-product-nored", fmt("n=%d", n));
			emp::vector_self_xor(&xx, a.p, n); if (w2(xx) != x) M.fail("f2k:self-xor", fmt("n=%d", n));
			if (n) { block seed = r.coin(10) ? emp::zero_block : sblock(r); Blocks c(n); emp::uni_hash_coeff_gen(c.p, seed, n); W2 p = w2(seed); for (int i = 0; i < n; ++i) { if (w2(c[i]) != p) { M.fail("f2k:hash-coeff", fmt("n=%d i=%d seed=%s", n, i, hb(seed).c_str())); break; } p = ref_gf(p, w2(seed)); } }
			M.eval(mix64(n + it * 1000)); M.count("vectors");
		}
		emp::GaloisFieldPacking g; for (int i = 0; i < 128; ++i) if (!eq(g.base[i], unit(i))) M.fail("f2k:packing-base", fmt("i=%d", i));
		for (int k = 0; k < 120; ++k) { Blocks d(128), d0(128); W4 acc = {{0, 0, 0, 0}}; int lo = r.below(129), hi = r.below(129); for (int i = 0; i < 128; ++i) { d[i] = d0[i] = k == 0 ? makeBlock(0, i & 1) : k == 1 ? emp::zero_block : k < 40 || (i >= lo && i < hi) ? sblock(r) : k < 80 ? emp::zero_block : r.coin(8) ? sblock(r) : emp::zero_block; W4 m = ref_mul(w2(d[i]), w2(unit(i))); for (int q = 0; q < 4; ++q) acc[q] ^= m[q]; } block res = sblock(r); g.packing(&res, d.p); if (w2(res) != ref_reduce(acc)) M.fail("f2k:packing", fmt("k=%d", k)); if (memcmp(d.p, d0.p, 2048)) M.fail("f2k:packing-modifies", ""); M.count("packings"); }
		tmpl<1>(r); tmpl<2>(r); tmpl<3>(r); tmpl<4>(r); tmpl<5>(r); tmpl<6>(r); tmpl<7>(r); tmpl<8>(r); tmpl<9>(r); tmpl<13>(r); tmpl<31>(r); tmpl<64>(r); tmpl<67>(r); tmpl<128>(r);
		progress();
	}
	{ // long vectors: around powers of two, and random lengths with every remainder
		std::vector<int> ls = {255, 256, 257, 511, 512, 513, 1021, 1022, 1023, 1024, 1025, 1026, 1027, 2049, 4095, 4096, 4097, 5000, 8191, 8193, 16385, 32769, 65535, 65536, 65537}; for (size_t i = 0; i < M.n(12); ++i) ls.push_back(141 + r.below(i % 3 ? 3000 : 70000));
		for (int n : ls) { ctx("long vectors n=%d", n); Blocks a(n), b(n); for (int i = 0; i < n; ++i) { a[i] = rblock(r); b[i] = rblock(r); }
			W4 acc = {{0, 0, 0, 0}}; W2 x = {{0, 0}}; for (int i = 0; i < n; ++i) { W4 m = ref_mul(w2(a[i]), w2(b[i])); for (int k = 0; k < 4; ++k) acc[k] ^= m[k]; x[0] ^= w2(a[i])[0]; x[1] ^= w2(a[i])[1]; }
			block s = sblock(r), rr[2] = {sblock(r), sblock(r)}, xx = sblock(r); emp::vector_inn_prdt_sum_red(&s, a.p, b.p, n); if (w2(s) != ref_reduce(acc)) M.fail("f2k:inner-product", fmt("n=%d", n));
			emp::vector_inn_prdt_sum_no_red(rr, a.p, b.p, n); if (w2(rr[0]) != W2{{acc[0], acc[1]}} || w2(rr[1]) != W2{{acc[2], acc[3]}}) M.fail("f2k:inner-product-nored", fmt("n=%d", n));
			emp::vector_self_xor(&xx, a.p, n); if (w2(xx) != x) M.fail("f2k:self-xor", fmt("n=%d", n));
			block seed = rblock(r); emp::uni_hash_coeff_gen(b.p, seed, n); W2 p = w2(seed); for (int i = 0; i < n; ++i) { if (w2(b[i]) != p) { M.fail("f2k:hash-coeff", fmt("n=%d i=%d seed=%s", n, i, hb(seed).c_str())); break; } p = ref_gf(p, w2(seed)); }
			M.eval(mix64(n)); M.count("long_vectors"); progress(); }
	}
	M.sample("all 128x128 unit-vector products in both representations; random/structured operands; vector lengths 0..140 and long ones to 70000");
}
#endif

#ifdef P_CONV
static bool getb(const uint8_t *p, size_t i) { return (p[i >> 3] >> (i & 7)) & 1; }
static void trans_case(Rng &r, size_t nr, size_t nc, int mode, size_t ai, size_t ao) {
	ctx("sse_trans %zux%zu mode=%d", nr, nc, mode);
	size_t bytes = nr * nc / 8; Guarded in(bytes, ai, r.u64()), out(bytes, ao, r.u64());
	if (mode == 0) r.bytes(in.p, bytes); else if (mode == 1) { memset(in.p, 0, bytes); if (bytes) { size_t b = r.below(bytes * 8); in.p[b / 8] |= 1 << (b % 8); } } else { memset(in.p, 0xff, bytes); if (bytes) { size_t b = r.below(bytes * 8); in.p[b / 8] &= ~(1 << (b % 8)); } }
	std::vector<uint8_t> copy(in.p, in.p + bytes);
	emp::sse_trans(out.p, in.p, nr, nc);
	for (size_t i = 0; i < nr; ++i) for (size_t j = 0; j < nc; ++j) if (getb(in.p, i * nc + j) != getb(out.p, j * nr + i)) { M.fail("trans:value", fmt("%zux%zu at (%zu,%zu)", nr, nc, i, j)); return; }
	if (!out.intact() || !in.intact() || (bytes && memcmp(in.p, copy.data(), bytes))) M.fail("trans:stray-write", fmt("%zux%zu", nr, nc));
	M.eval(bytes ? mix64(nr * 100003 + nc * 7 + mode) : 0); M.count("matrices");
}
template <class T> static void conv_int(Rng &r, const char *name) {
	typedef typename std::make_unsigned<T>::type U; const int W = sizeof(T) * 8;
	for (int k = 0; k < 60; ++k) {
		U v = k == 0 ? 0 : k == 1 ? (U)~(U)0 : k == 2 ? (U)((U)1 << (W - 1)) : k < 3 + W ? (U)((U)1 << (k - 3)) : (U)r.u64(); T t; memcpy(&t, &v, sizeof t);
		ctx("conv %s %llx", name, (unsigned long long)v);
		Guarded g(W, r.below(8), r.u64()); emp::int_to_bool<T>((bool *)g.p, t, W);
		for (int i = 0; i < W; ++i) if (g.p[i] != ((v >> i) & 1)) { M.fail("conv:int_to_bool", fmt("%s %llx bit %d", name, (unsigned long long)v, i)); break; }
		if (!g.intact()) M.fail("conv:stray-write", name);
		U back = (U)emp::bool_to_int<T>((bool *)g.p); if (back != v) M.fail("conv:bool_to_int", fmt("%s %llx", name, (unsigned long long)v));
		int len = r.below(W + 1); Guarded h(len, 0, r.u64()); emp::int_to_bool<T>((bool *)h.p, t, len); for (int i = 0; i < len; ++i) if (h.p[i] != ((v >> i) & 1)) { M.fail("conv:int_to_bool-len", fmt("%s %llx len %d", name, (unsigned long long)v, len)); break; }
		if (!h.intact()) M.fail("conv:stray-write", name);
		int len2 = W + r.below(40); Guarded e(len2, 0, r.u64()); emp::int_to_bool<T>((bool *)e.p, t, len2); bool ext = std::is_signed<T>::value && ((v >> (W - 1)) & 1); for (int i = 0; i < len2; ++i) if (e.p[i] != (i < W ? ((v >> i) & 1) : ext)) { M.fail("conv:int_to_bool-extend", fmt("%s %llx len %d bit %d", name, (unsigned long long)v, len2, i)); break; }
		M.eval(mix64(v ^ W * 31)); M.count("int_conversions");
	}
}
// matrices of more than 2^31 and 2^32 bits: bit offsets do not fit 32 bits
static void part_transbig() {
	Rng r = M.rng(1313);
	struct { size_t a, b; } dims[] = {{128, (1ull << 25) + 8}, {(1ull << 24) + 136, 136}};
	for (auto &dm : dims) {
		size_t nr = dm.a, nc = dm.b, bytes = nr * nc / 8; ctx("sse_trans %zux%zu", nr, nc); progress();
		std::vector<uint8_t> in(bytes), out(bytes); uint64_t x = r.u64() | 1; for (size_t i = 0; i + 8 <= bytes; i += 8) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; memcpy(&in[i], &x, 8); }
		progress(); emp::sse_trans(out.data(), in.data(), nr, nc); progress();
		for (size_t k = 0; k < 3000000; ++k) { size_t i = r.below(nr), j = r.below(nc); if (k < 200000) { if (nr > nc) i = nr - 1 - i % 5000; else j = nc - 1 - j % 5000; } if (getb(in.data(), i * nc + j) != getb(out.data(), j * nr + i)) { M.fail("trans:value-big", fmt("%zux%zu at (%zu,%zu)", nr, nc, i, j)); break; } if (k % 300 == 0) M.eval(mix64(i * 1000003 + j)); }
		M.count("huge_matrices"); progress();
	}
	M.sample("transpose of 128 x 33554440 and 16777352 x 136 bits, 3 million positions each");
}
static void part_conv() {
	Rng r = M.rng(13);
	// all dimensions up to 136, sparse beyond
	for (size_t nr = 0; nr <= 136; nr += 8) { for (size_t nc = 0; nc <= 136; nc += 8) for (int m = 0; m < 3; ++m) trans_case(r, nr, nc, m, r.below(16), r.below(16)); progress(); }
	for (size_t i = 0; i < M.n(400); ++i) { size_t nr = 8 * r.below(80), nc = 8 * r.below(80); if (r.coin(3)) nr = r.pick(std::vector<size_t>{128, 256, 512, 120, 1024}); if (r.coin(3)) nc = r.pick(std::vector<size_t>{128, 256, 512, 136, 2048}); trans_case(r, nr, nc, r.below(3), r.below(16), r.below(16)); if (i % 32 == 0) progress(); }
	// long thin matrices, either way round
	for (size_t i = 0; i < M.n(24); ++i) { size_t sm = i % 3 == 0 ? 128 : i % 3 == 1 ? 8 : 8 * (1 + r.below(20)), lg = i % 4 == 0 ? 65536 + 8 * r.below(9) : 8 * (100 + r.below(9000)); bool fl = r.coin(); trans_case(r, fl ? sm : lg, fl ? lg : sm, r.below(3), r.below(16), r.below(16)); M.count("long_matrices"); progress(); }
	for (size_t it = 0; it < M.n(20); ++it) {
		conv_int<uint8_t>(r, "uint8"); conv_int<uint16_t>(r, "uint16"); conv_int<uint32_t>(r, "uint32"); conv_int<uint64_t>(r, "uint64"); conv_int<int64_t>(r, "int64"); conv_int<int32_t>(r, "int32"); progress();
	}
	for (size_t it = 0; it < M.n(20000); ++it) { // to_bool / from_bool on memory
		int len = it < 300 ? (int)it : it % 2000 == 1999 ? (int)r.below(70000) : it % 50 == 49 ? (int)r.below(5000) : (int)r.below(600); bool rv = r.coin(); size_t nb = (len + 7) / 8, slack = r.below(3);
		Guarded src(nb, r.below(9), r.u64()); r.bytes(src.p, nb); std::vector<uint8_t> c(src.p, src.p + nb);
		Guarded b(len, r.below(9), r.u64()); ctx("to_bool len=%d rev=%d", len, rv);
		switch (r.below(4)) { case 0: emp::to_bool<uint8_t>((bool *)b.p, src.p, len, rv); break; case 1: emp::to_bool<char>((bool *)b.p, (char *)src.p, len, rv); break; case 2: emp::to_bool<uint64_t>((bool *)b.p, (uint64_t *)src.p, len, rv); break; default: if (!rv) emp::to_bool((bool *)b.p, (uint32_t *)src.p, len); else emp::to_bool((bool *)b.p, (uint32_t *)src.p, len, true); }
		for (int i = 0; i < len; ++i) if (b.p[rv ? len - 1 - i : i] != getb(c.data(), i)) { M.fail("conv:to_bool", fmt("len=%d rev=%d bit %d", len, rv, i)); break; }
		if (!b.intact() || !src.intact() || (nb && memcmp(c.data(), src.p, nb))) M.fail("conv:stray-write", fmt("to_bool len=%d rev=%d", len, rv));
		Guarded d(nb + slack, r.below(9), r.u64()); std::vector<uint8_t> d0(d.p, d.p + nb + slack); std::vector<uint8_t> bc(b.p, b.p + len);
		switch (r.below(3)) { case 0: emp::from_bool<uint8_t>((bool *)b.p, d.p, len, rv); break; case 1: emp::from_bool<uint64_t>((bool *)b.p, (uint64_t *)d.p, len, rv); break; default: if (rv) emp::from_bool((bool *)b.p, (char *)d.p, len, true); else emp::from_bool((bool *)b.p, (char *)d.p, len); }
		for (size_t i = 0; i < (nb + slack) * 8; ++i) { bool want = (int)i < len ? getb(c.data(), i) : getb(d0.data(), i); if (getb(d.p, i) != want) { M.fail("conv:from_bool", fmt("len=%d rev=%d bit %zu", len, rv, i)); break; } }
		if (!d.intact() || !b.intact() || (len && memcmp(bc.data(), b.p, len))) M.fail("conv:stray-write", fmt("from_bool len=%d", len));
		M.eval(len ? hash_bytes(c.data(), nb, len * 2 + rv) : 0); M.count("memory_conversions");
	}
	for (size_t it = 0; it < M.n(20000); ++it) { // blocks
		block a = sblock(r); Guarded g(128, r.below(9), r.u64()); emp::block_to_bool((bool *)g.p, a); W2 w = w2(a); ctx("block %s", hb(a).c_str());
		for (int i = 0; i < 128; ++i) if (g.p[i] != ((w[i >> 6] >> (i & 63)) & 1)) { M.fail("conv:block_to_bool", hb(a)); break; }
		if (!g.intact()) M.fail("conv:stray-write", "block_to_bool");
		block b = emp::bool_to_block((bool *)g.p); if (!eq(a, b)) M.fail("conv:bool_to_block", hb(a));
		if (emp::getLSB(a) != (w[0] & 1)) M.fail("block:lsb", hb(a));
		int bit = r.below(128); block s = emp::set_bit(a, bit); W2 e = w; e[bit >> 6] |= 1ULL << (bit & 63); if (w2(s) != e) M.fail("block:set_bit", fmt("%s bit %d", hb(a).c_str(), bit));
		uint64_t hi = r.u64(), lo = r.u64(); if (w2(makeBlock(hi, lo)) != W2{{lo, hi}}) M.fail("block:make", "");
		M.eval(hash_bytes(&a, 16)); M.count("block_conversions");
	}
	for (size_t it = 0; it < M.n(4000); ++it) { // array helpers
		int n = it < 70 ? (int)it : it % 400 == 399 ? (int)r.below(70000) : it % 40 == 39 ? (int)r.below(5000) : (int)r.below(200); Blocks x(n), y(n), z(n), x0(n); for (int i = 0; i < n; ++i) { x0[i] = x[i] = sblock(r); y[i] = sblock(r); }
		ctx("xorBlocks n=%d", n); emp::xorBlocks_arr(z.p, x.p, y.p, n); for (int i = 0; i < n; ++i) { if (!eq(z[i], x[i] ^ y[i])) { M.fail("block:xor-arr", fmt("n=%d", n)); break; } }
		block c = sblock(r); emp::xorBlocks_arr(z.p, x.p, c, n); for (int i = 0; i < n; ++i) if (!eq(z[i], x[i] ^ c)) { M.fail("block:xor-const", fmt("n=%d", n)); break; }
		if (n && memcmp(x.p, x0.p, 16 * n)) M.fail("block:xor-modifies", fmt("n=%d", n));
		emp::xorBlocks_arr(x.p, x.p, y.p, n); for (int i = 0; i < n; ++i) if (!eq(x[i], x0[i] ^ y[i])) { M.fail("block:xor-inplace", fmt("n=%d", n)); break; }
		emp::xorBlocks_arr(x.p, x0.p, x.p, n); for (int i = 0; i < n; ++i) if (!eq(x[i], y[i])) { M.fail("block:xor-inplace2", fmt("n=%d", n)); break; }
		emp::xorBlocks_arr(x.p, x.p, c, n); for (int i = 0; i < n; ++i) if (!eq(x[i], y[i] ^ c)) { M.fail("block:xor-const-inplace", fmt("n=%d", n)); break; }
		Blocks u(n), v(n); if (n) { memcpy(u.p, x0.p, 16 * n); memcpy(v.p, x0.p, 16 * n); } if (!emp::cmpBlock(u.p, v.p, n)) M.fail("block:cmp-equal", fmt("n=%d", n));
		if (n > 1) { Blocks z(n); memcpy(z.p, u.p, 16 * n); int i = r.below(n), j = r.below(n - 1); if (j >= i) ++j; block dl = r.coin() ? z[i] ^ z[j] : r.coin() ? unit(r.below(128)) : sblock(r); if (dl[0] | dl[1]) { z[i] = z[i] ^ dl; z[j] = z[j] ^ dl; // the same difference twice (entries exchanged, an offset added to both)
				if (emp::cmpBlock(u.p, z.p, n)) M.fail("block:cmp-differs-twice", fmt("n=%d at %d and %d", n, i, j)); } }
		if (n) { int i = r.coin(3) ? n - 1 : r.coin(3) ? 0 : r.below(n), b = r.below(128); v[i] = v[i] ^ unit(b); if (emp::cmpBlock(u.p, v.p, n)) M.fail("block:cmp-differs", fmt("n=%d at %d bit %d", n, i, b)); if (i > 0 && !emp::cmpBlock(u.p, v.p, i)) M.fail("block:cmp-prefix", fmt("n=%d", n)); }
		M.eval(n ? mix64(n * 3 + it) : 0); M.count("array_helpers");
	}
	for (int i = 0; i < 200; ++i) { block a = sblock(r); std::ostringstream o; o << a; W2 w = w2(a); if (o.str() != fmt("%016llx %016llx", (unsigned long long)w[1], (unsigned long long)w[0])) M.fail("block:print", o.str()); o << 255; if (o.str().substr(33) != "255") M.fail("block:print-state", o.str()); }
	if (!eq(emp::zero_block, makeBlock(0, 0)) || !eq(emp::all_one_block, makeBlock(~0ULL, ~0ULL)) || !eq(emp::select_mask[0], emp::zero_block) || !eq(emp::select_mask[1], emp::all_one_block)) M.fail("block:constants", "");
	{ const char *av[] = {"x", "2", "12345"}; int p = 0, q = 0; emp::parse_party_and_port(av, &p, &q); if (p != 2 || q != 12345) M.fail("util:parse", ""); }
	{ std::string f = M.tmp + "/exists"; if (emp::file_exists(f)) M.fail("util:file_exists", "absent file"); FILE *h = fopen(f.c_str(), "w"); fclose(h); if (!emp::file_exists(f)) M.fail("util:file_exists", "present file"); unlink(f.c_str()); }
	M.sample("transpose of every (8a x 8b), a,b<=17 with random, single-bit and all-but-one-bit contents");
}
#endif

#ifdef P_GROUP
// ---------------------------------------------------------------- independent references
// big naturals, little-endian 32-bit limbs
typedef std::vector<uint32_t> N;
static void trim(N &a) { while (!a.empty() && !a.back()) a.pop_back(); }
static N from_be(const uint8_t *p, size_t n) { N r((n + 3) / 4, 0); for (size_t i = 0; i < n; ++i) { size_t k = n - 1 - i; r[k / 4] |= (uint32_t)p[i] << (8 * (k % 4)); } trim(r); return r; }
static std::vector<uint8_t> to_be(const N &a) { std::vector<uint8_t> r; for (size_t i = a.size(); i-- > 0;) for (int b = 3; b >= 0; --b) { uint8_t v = a[i] >> (8 * b); if (r.empty() && !v) continue; r.push_back(v); } return r; }
static int ncmp(const N &a, const N &b) { if (a.size() != b.size()) return a.size() < b.size() ? -1 : 1; for (size_t i = a.size(); i-- > 0;) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1; return 0; }
static N nadd(const N &a, const N &b) { N r(std::max(a.size(), b.size()) + 1); uint64_t c = 0; for (size_t i = 0; i < r.size(); ++i) { c += (i < a.size() ? a[i] : 0) + (uint64_t)(i < b.size() ? b[i] : 0); r[i] = c; c >>= 32; } trim(r); return r; }
static N nsub(const N &a, const N &b) { N r(a.size()); int64_t c = 0; for (size_t i = 0; i < a.size(); ++i) { c += (int64_t)a[i] - (i < b.size() ? b[i] : 0); r[i] = (uint32_t)c; c >>= 32; } trim(r); return r; }
static N nmul(const N &a, const N &b) { N r(a.size() + b.size() + 1, 0); for (size_t i = 0; i < a.size(); ++i) { uint64_t c = 0; for (size_t j = 0; j < b.size() || c; ++j) { c += r[i + j] + (uint64_t)a[i] * (j < b.size() ? b[j] : 0); r[i + j] = c; c >>= 32; } } trim(r); return r; }
static N nmod(const N &a, const N &m) { N r; for (size_t i = a.size() * 32; i-- > 0;) { r = nadd(r, r); if ((a[i / 32] >> (i % 32)) & 1) r = nadd(r, N{1}); if (ncmp(r, m) >= 0) r = nsub(r, m); } return r; }
static N hexn(const char *s) { std::vector<uint8_t> v; for (; *s; s += 2) { unsigned x; sscanf(s, "%2x", &x); v.push_back(x); } return from_be(v.data(), v.size()); }
static const N P256 = hexn("ffffffff00000001000000000000000000000000ffffffffffffffffffffffff");
static const N NORD = hexn("ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551");
static const N GX = hexn("6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296");
static const N GY = hexn("4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5");
// field arithmetic with plain BN (not the EC code under the wrappers)
struct F { BN_CTX *c; BIGNUM *p; F() { c = BN_CTX_new(); auto b = to_be(P256); p = BN_bin2bn(b.data(), b.size(), 0); } ~F() { BN_free(p); BN_CTX_free(c); } };
struct Aff { bool inf; N x, y; };
static F *FF;
static BIGNUM *bn(const N &a) { auto v = to_be(a); return BN_bin2bn(v.data(), v.size(), 0); }
static N nb(const BIGNUM *b) { std::vector<uint8_t> v(BN_num_bytes(b) + 1); int n = BN_bn2bin(b, v.data()); return from_be(v.data(), n); }
static Aff aadd(const Aff &a, const Aff &b) {
	if (a.inf) return b; if (b.inf) return a;
	BIGNUM *x1 = bn(a.x), *y1 = bn(a.y), *x2 = bn(b.x), *y2 = bn(b.y), *l = BN_new(), *t = BN_new(), *u = BN_new(); Aff r; r.inf = false;
	if (!BN_cmp(x1, x2)) {
		BN_mod_add(t, y1, y2, FF->p, FF->c);
		if (BN_is_zero(t)) { r.inf = true; goto out; }
		BN_mod_mul(t, x1, x1, FF->p, FF->c); BN_mod_add(u, t, t, FF->p, FF->c); BN_mod_add(t, t, u, FF->p, FF->c); { BIGNUM *three = BN_new(); BN_set_word(three, 3); BN_mod_sub(t, t, three, FF->p, FF->c); BN_free(three); }
		BN_mod_add(u, y1, y1, FF->p, FF->c); BN_mod_inverse(u, u, FF->p, FF->c); BN_mod_mul(l, t, u, FF->p, FF->c);
	} else { BN_mod_sub(t, y2, y1, FF->p, FF->c); BN_mod_sub(u, x2, x1, FF->p, FF->c); BN_mod_inverse(u, u, FF->p, FF->c); BN_mod_mul(l, t, u, FF->p, FF->c); }
	BN_mod_mul(t, l, l, FF->p, FF->c); BN_mod_sub(t, t, x1, FF->p, FF->c); BN_mod_sub(t, t, x2, FF->p, FF->c); r.x = nb(t);
	BN_mod_sub(u, x1, t, FF->p, FF->c); BN_mod_mul(u, l, u, FF->p, FF->c); BN_mod_sub(u, u, y1, FF->p, FF->c); r.y = nb(u);
out:
	BN_free(x1); BN_free(y1); BN_free(x2); BN_free(y2); BN_free(l); BN_free(t); BN_free(u); return r;
}
static Aff amul(const Aff &a, const N &k) { Aff r; r.inf = true; for (size_t i = k.size() * 32; i-- > 0;) { r = aadd(r, r); if ((k[i / 32] >> (i % 32)) & 1) r = aadd(r, a); } return r; }
static Aff aneg(const Aff &a) { Aff r = a; if (!r.inf && !r.y.empty()) r.y = nsub(P256, r.y); return r; }
static std::string enc(const Aff &a) { if (a.inf) return std::string(1, '\0'); std::string s(65, '\0'); s[0] = 4; auto x = to_be(a.x), y = to_be(a.y); memcpy(&s[33 - x.size()], x.data(), x.size()); memcpy(&s[65 - y.size()], y.data(), y.size()); return s; }
static std::string enc(emp::Point &p) { size_t n = p.size(); uint8_t *b = (uint8_t *)malloc(n); p.to_bin(b, n); std::string s((char *)b, n); free(b); return s; }
static emp::BigInt bi(const N &a) { emp::BigInt r; auto v = to_be(a); uint8_t *e = (uint8_t *)malloc(v.size() + 1); if (v.size()) memcpy(e, v.data(), v.size()); r.from_bin(e, v.size()); free(e); return r; }
static N nv(emp::BigInt &b) { int n = b.size(); uint8_t *e = (uint8_t *)malloc(n + (n == 0)); b.to_bin(e); N r = from_be(e, n); free(e); return r; }
static N rn(Rng &r, size_t bytes) { std::vector<uint8_t> v(bytes); r.bytes(v.data(), bytes); if (r.coin(6) && bytes) memset(v.data(), 0xff, bytes); if (r.coin(6) && bytes) memset(v.data() + bytes / 2, 0, bytes - bytes / 2); return from_be(v.data(), bytes); }
static std::string hn(const N &a) { auto v = to_be(a); return v.empty() ? "0" : hex(v.data(), v.size(), 80); }

// scalars of every bit length with structure: powers of two and neighbours, runs, sparse, close to multiples of the order
static N shl(const N &a, size_t k) { N r(k / 32, 0); uint32_t c = 0; for (auto x : a) { r.push_back(k % 32 ? (x << (k % 32)) | c : x); c = k % 32 ? x >> (32 - k % 32) : 0; } if (c) r.push_back(c); while (!r.empty() && !r.back()) r.pop_back(); return r; }
static N sscalar(Rng &r) {
	switch (r.below(7)) {
	case 0: { N x = shl(N{1}, r.below(300)); return r.coin() ? x : r.coin() ? nadd(x, N{1}) : nsub(x, N{1}); }
	case 1: { size_t a = r.below(257), b = r.below(257); N x = shl(N{1}, std::max(a, b)), y = shl(N{1}, std::min(a, b)); return nsub(x, y); }                       // a run of ones
	case 2: { N x; for (int i = 0; i < 3; ++i) x = nadd(x, shl(N{1}, r.below(257))); return x; }
	case 3: { N x = nmul(NORD, N{1 + (uint32_t)r.below(5)}); uint32_t d = 1 + r.below(40); return r.coin() ? nadd(x, N{d}) : r.coin() ? nsub(x, N{d}) : x; }
	case 4: { N h = nmod(nmul(NORD, N{0x80000000u}), shl(N{1}, 288)); return r.coin() ? h : nsub(NORD, shl(N{1}, r.below(250))); }
	case 5: return N{1 + (uint32_t)r.below(70)};
	default: return rn(r, 1 + r.below(40)); }
}
static void part_group() {
	F f; FF = &f; Rng r = M.rng(14); emp::Group G, G2; /* G2: a second object for the same curve */ Aff g; g.inf = false; g.x = GX; g.y = GY;
	{ N o = nv(G.order); if (ncmp(o, NORD)) M.fail("group:order", hn(o)); emp::Point p = G.get_generator(); if (enc(p) != enc(g)) M.fail("group:generator", ""); }
	// big integers
	for (size_t it = 0; it < M.n(2000); ++it) {
		N a = rn(r, r.coin(8) ? 0 : r.below(70)), b = rn(r, r.coin(8) ? 0 : r.below(70)), m = rn(r, 1 + r.below(40)); if (m.empty()) m = N{1 + (uint32_t)r.below(5)};
		if (it % 16 == 3) { a = nmod(a, m); b = nsub(m, a); } else if (it % 16 == 7) a = nmul(m, rn(r, r.below(20))); else if (it % 16 == 9) { a = rn(r, 200 + r.below(500)); b = rn(r, 200 + r.below(500)); if (r.coin()) m = rn(r, 300); if (m.empty()) m = N{3}; } else if (it % 16 == 11) { a = sscalar(r); b = sscalar(r); m = r.coin() ? NORD : nadd(sscalar(r), N{1}); } else if (it % 16 == 13) m = N{1};
		ctx("bigint a=%s b=%s m=%s", hn(a).c_str(), hn(b).c_str(), hn(m).c_str());
		emp::BigInt A = bi(a), Bb = bi(b), Mm = bi(m);
		if (A.size() != (int)to_be(a).size() || ncmp(nv(A), a)) M.fail("bigint:roundtrip", hn(a));
		emp::BigInt s = A.add(Bb), p = A.mul(Bb, G.bn_ctx), q = A.mod(Mm, G.bn_ctx), am = A.add_mod(Bb, Mm, G.bn_ctx), mm = A.mul_mod(Bb, Mm, G.bn_ctx);
		std::string d = fmt("a=%s b=%s m=%s", hn(a).c_str(), hn(b).c_str(), hn(m).c_str());
		if (ncmp(nv(s), nadd(a, b))) M.fail("bigint:add", d); if (ncmp(nv(p), nmul(a, b))) M.fail("bigint:mul", d); if (ncmp(nv(q), nmod(a, m))) M.fail("bigint:mod", d);
		if (ncmp(nv(am), nmod(nadd(a, b), m))) M.fail("bigint:add_mod", d); if (ncmp(nv(mm), nmod(nmul(a, b), m))) M.fail("bigint:mul_mod", d);
		if (ncmp(nv(A), a) || ncmp(nv(Bb), b) || ncmp(nv(Mm), m)) M.fail("bigint:operand-changed", d);
		emp::BigInt c(A), e; e = A; e = e; emp::BigInt &er = e; er = er; c = c.add(Bb); A = Bb; if (ncmp(nv(c), nadd(a, b)) || ncmp(nv(e), a) || ncmp(nv(A), b)) M.fail("bigint:copy", d);
		e.from_bin((const uint8_t *)"\x00\x00\x07", 3); if (ncmp(nv(e), N{7})) M.fail("bigint:from_bin-leading-zero", "");
		emp::BigInt same_ = bi(a); emp::BigInt dbl = same_.add(same_), sq = same_.mul(same_, G.bn_ctx); if (ncmp(nv(dbl), nadd(a, a)) || ncmp(nv(sq), nmul(a, a))) M.fail("bigint:self-operand", d);
		M.eval(hash_bytes(a.data(), a.size() * 4, hash_bytes(b.data(), b.size() * 4))); M.count("bigint_ops", 9); if (it % 64 == 0) progress();
	}
	// points: pool of (library, reference) pairs grown by random operations
	std::vector<emp::Point> L; std::vector<Aff> R; Aff inf; inf.inf = true;
	std::vector<N> edge = {N{}, N{1}, N{2}, N{3}, nsub(NORD, N{1}), NORD, nadd(NORD, N{1}), nsub(NORD, N{2}), nadd(NORD, NORD), rn(r, 40)};
	for (auto &k : edge) { emp::BigInt b = bi(k); emp::Point p = G.mul_gen(b); Aff a = amul(g, nmod(k, NORD)); if (enc(p) != enc(a)) M.fail("group:mul_gen", hn(k)); if (ncmp(nv(b), k)) M.fail("group:scalar-changed", hn(k)); L.push_back(p); R.push_back(a); M.eval(hash_bytes(k.data(), 4 * k.size())); M.count("mul_gen"); }
	for (size_t it = 0; it < M.n(4); ++it) { N k = sscalar(r); ctx("mul_gen by %s", hn(k).c_str()); emp::BigInt b = bi(k); emp::Point p = G.mul_gen(b); Aff a = amul(g, nmod(k, NORD)); if (enc(p) != enc(a)) M.fail("group:mul_gen", hn(k)); if (ncmp(nv(b), k)) M.fail("group:scalar-changed", hn(k)); M.eval(hash_bytes(k.data(), 4 * k.size())); M.count("mul_gen"); progress(); }
	{ emp::Point z(&G); L.push_back(z); R.push_back(inf); }
	for (size_t it = 0; it < M.n(500); ++it) {
		size_t i = r.below(L.size()), j = r.coin(5) ? i : r.below(L.size()); int op = r.below(8); emp::Point res; Aff ref; std::string d = fmt("op=%d i=%zu j=%zu P=%s Q=%s", op, i, j, hex(enc(R[i]).data(), enc(R[i]).size(), 70).c_str(), hex(enc(R[j]).data(), enc(R[j]).size(), 70).c_str());
		ctx("group %s", d.c_str()); std::string ei = enc(R[i]), ej = enc(R[j]);
		if (op <= 2) { emp::Point &q = L[j]; if (op == 2) { emp::Point n = L[i].inv(); res = L[i].add(n); ref = inf; } else { res = L[i].add(q); ref = aadd(R[i], R[j]); } M.count("adds"); }
		else if (op == 3) { res = L[i].inv(); ref = aneg(R[i]); M.count("inversions"); }
		else if (op == 4 && (it % 4 == 0 || M.thorough)) { N k = r.coin(4) ? r.pick(edge) : r.coin() ? sscalar(r) : rn(r, 1 + r.below(33)); emp::BigInt b = bi(k); res = L[i].mul(b); ref = amul(R[i], nmod(k, NORD)); d += " k=" + hn(k); if (ncmp(nv(b), k)) M.fail("group:scalar-changed", d); M.count("muls"); }
		else if (op == 5) { std::string e = ei; if (r.coin()) { emp::Point t; t.from_bin(&G, (const uint8_t *)e.data(), e.size()); res = t; } else { res = L[j]; res.from_bin(r.coin() ? &G : &G2, (const uint8_t *)e.data(), e.size()); } ref = R[i]; M.count("deserialisations"); }
		else if (op == 6) { emp::Point c(L[i]); c = c.add(L[j]); res = c; emp::Point &rr = res; rr = rr; res = res; ref = aadd(R[i], R[j]); M.count("copies"); }
		else { emp::MemIO io(16); io.send_pt(&L[i]); emp::Point arr[2]; io.send_pt(&L[j]); if (r.coin()) { arr[0] = L[r.below(L.size())]; arr[1] = G2.get_generator(); } io.recv_pt(&G, arr, 2); res = arr[0]; ref = R[i]; if (enc(arr[1]) != ej) M.fail("group:transfer", d); M.count("transfers"); }
		if (op != 4 || (it % 4 == 0 || M.thorough)) {
			if (enc(res) != enc(ref)) M.fail("group:result", d);
			size_t k = r.below(L.size()); if ((res == L[k]) != (enc(ref) == enc(R[k]))) M.fail("group:compare", d); emp::Point cp(res); if (!(cp == res) || !(res == res)) M.fail("group:compare-equal", d);
			if (enc(L[i]) != ei || enc(L[j]) != ej) M.fail("group:operand-changed", d);
			if (L.size() < 24) { L.push_back(res); R.push_back(ref); } else { size_t q = 11 + r.below(L.size() - 11); L[q] = res; R[q] = ref; }
			M.eval(hash_bytes(d.data(), d.size())); if (M.want_sample()) M.sample("group " + d);
		}
		if (it % 16 == 0) progress();
	}
	// laws on random scalars
	for (size_t it = 0; it < M.n(60); ++it) {
		emp::BigInt a, b, c; G.get_rand_bn(a); G.get_rand_bn(b); emp::Point A = G.mul_gen(a), Bp = G.mul_gen(b); c = a.add_mod(b, G.order, G.bn_ctx); emp::Point C = G.mul_gen(c), S = A.add(Bp), S2 = Bp.add(A); if (!(C == S) || !(S2 == S)) M.fail("group:homomorphism", "");
		emp::BigInt m = a.mul_mod(b, G.order, G.bn_ctx); emp::Point X = A.mul(b), Y = Bp.mul(a), Z = G.mul_gen(m); if (!(X == Y) || !(Y == Z)) M.fail("group:dh", ""); emp::Point gen = G.get_generator(), W = gen.mul(a); if (!(W == A)) M.fail("group:mul-vs-gen", "");
		if ((A == Bp)) M.fail("group:distinct", ""); M.eval(it + 77777); M.count("law_checks", 5); progress();
	}
	{ std::set<std::string> S; size_t n = M.n(2000), hi = 0; for (size_t i = 0; i < n; ++i) { emp::BigInt a; G.get_rand_bn(a); N v = nv(a); if (ncmp(v, NORD) >= 0) M.fail("group:rand-range", hn(v)); S.insert(hn(v)); if (v.size() == 8 && v[7] >> 31) ++hi; } if (S.size() != n) M.fail("group:rand-repeat", fmt("%zu of %zu distinct", S.size(), n)); if (n >= 500 && (hi < n * 3 / 10 || hi > n * 7 / 10)) M.fail("group:rand-range", fmt("%zu of %zu in the upper half", hi, n)); M.count("random_scalars", n); }
	{ // scalars when the generator of random bytes returns awkward values: the order and its neighbours, all ones, zero
		static std::vector<std::string> script; static size_t at; script.clear(); at = 0;
		struct R { static int bytes(unsigned char *b, int n) { if (at < script.size()) { const std::string &e = script[at++]; for (int i = 0; i < n; ++i) b[i] = n == 32 ? e[i] : e[i % 32]; return 1; } size_t g = 0; while (g < (size_t)n) { ssize_t k = getrandom(b + g, n - g, 0); if (k > 0) g += k; } return 1; } static int status() { return 1; } };
		static RAND_METHOD meth; meth.bytes = R::bytes; meth.pseudorand = R::bytes; meth.status = R::status; RAND_set_rand_method(&meth);
		std::vector<std::string> odd; { auto b = to_be(NORD); std::string o((const char *)b.data(), 32), up = o, dn = o; up[31]++; dn[31]--; odd = {o, up, dn, std::string(32, '\xff'), std::string(32, '\0'), o.substr(0, 12) + std::string(20, '\xff'), std::string(31, '\0') + "\1"}; }
		for (size_t i = 0; i < odd.size() * 8; ++i) { script.clear(); at = 0; size_t n = 1 + i % 4; for (size_t k = 0; k < n; ++k) script.push_back(odd[(i / 4 + k * (i % 3)) % odd.size()]); emp::BigInt a; G.get_rand_bn(a); N v = nv(a); if (BN_is_negative(a.n) || ncmp(v, NORD) >= 0) M.fail("group:rand-range", "with an awkward source: " + hn(v)); M.eval(mix64(i + 424242)); M.count("awkward_scalars"); M.count("awkward_draws", at); }
		script.clear(); RAND_set_rand_method(nullptr);
	}
	{ // scalars of several groups, threads, processes and program runs
		std::vector<std::string> all; std::mutex mu; auto some = [&](int n) { std::vector<std::string> v; emp::Group H; for (int i = 0; i < n; ++i) { emp::BigInt a; H.get_rand_bn(a); auto b = nv(a); v.push_back(hn(b)); } return v; };
		auto take = [&](const std::vector<std::string> &v) { std::lock_guard<std::mutex> l(mu); all.insert(all.end(), v.begin(), v.end()); };
		for (int i = 0; i < 20; ++i) take(some(5)); { std::vector<std::thread> th; for (int t = 0; t < 8; ++t) th.emplace_back([&] { for (int i = 0; i < 10; ++i) take(some(5)); }); for (auto &t : th) t.join(); }
#if !defined(NO_FORK_TESTS)
		char self[4096]; ssize_t sl = readlink("/proc/self/exe", self, sizeof self - 1); self[sl > 0 ? sl : 0] = 0;
		for (int c = 0; c < 12; ++c) { int fd[2]; if (pipe(fd)) _exit(70); fflush(stderr); { emp::BigInt a; G.get_rand_bn(a); auto b = nv(a); all.push_back(hn(b)); }
			pid_t pid = safe_fork(); if (pid == 0) { close(fd[0]); alarm(60); if (c % 3 == 2) { dup2(fd[1], 1); execl(self, self, "--part", "emit", (char *)0); _exit(70); } std::string s; { emp::BigInt a; G.get_rand_bn(a); auto b = nv(a); s += hn(b) + "\n"; } for (auto &x : some(6)) s += x + "\n"; ssize_t k = write(fd[1], s.data(), s.size()); (void)k; _exit(0); }
			close(fd[1]); std::string s; char buf[4096]; ssize_t k; while ((k = read(fd[0], buf, sizeof buf)) > 0) s.append(buf, k); close(fd[0]); int st; waitpid(pid, &st, 0); size_t lines = 0, p0 = 0, p1; while ((p1 = s.find('\n', p0)) != std::string::npos) { all.push_back(s.substr(p0, p1 - p0)); p0 = p1 + 1; ++lines; } if (lines < 6) M.fail("group:rand-child", fmt("a child process gave %zu scalars", lines)); M.count("scalar_processes"); }
#endif
		size_t n = all.size(); std::sort(all.begin(), all.end()); size_t u = std::unique(all.begin(), all.end()) - all.begin(); M.count("random_scalars", n); if (u != n) M.fail("group:rand-repeat", fmt("%zu distinct of %zu scalars drawn by several groups, threads, processes and runs", u, n));
	}
	{ // scratch growth leaves points usable
		emp::Group H; H.resize_scratch(10); H.resize_scratch(1000); memset(H.scratch, 7, 1000); H.resize_scratch(5); memset(H.scratch, 7, 1000); emp::Point p = H.get_generator(); if (enc(p) != enc(g)) M.fail("group:scratch", ""); }
#if !defined(NO_FORK_TESTS)
	// malformed encodings are never accepted
	std::vector<std::pair<std::string, std::string>> bad; std::string ge = enc(g);
	{ std::string e = ge; e[64] ^= 1; bad.push_back({"y-bit", e}); e = ge; e[5] ^= 0x40; bad.push_back({"x-bit", e}); e = ge; e[0] = 5; bad.push_back({"prefix5", e}); e = ge; e[0] = 2; bad.push_back({"prefix2-long", e}); bad.push_back({"short", ge.substr(0, 64)}); bad.push_back({"long", ge + std::string(1, '\0')}); bad.push_back({"zeros65", std::string(65, '\0')}); e = std::string(65, '\xff'); e[0] = 4; bad.push_back({"ff", e}); e = std::string(65, '\0'); e[0] = 4; bad.push_back({"origin", e}); bad.push_back({"identity-long", std::string(2, '\0')}); bad.push_back({"empty", ""}); bad.push_back({"prefix-only", std::string(1, 4)}); 
	  // x + p (non-canonical)
	  auto xx = to_be(P256); e = ge; memcpy(&e[1], xx.data(), 32); bad.push_back({"x=p", e});
	  // hybrid with wrong parity
	  e = ge; e[0] = 6; if (!(GY[0] & 1)) e[0] = 7; bad.push_back({"hybrid-parity", e});
	  for (size_t k = 0; k < M.n(10); ++k) { e = ge; size_t i = 1 + r.below(64); e[i] ^= 1 + r.below(255); bad.push_back({"random", e}); } }
	for (auto &b : bad) {
		for (int how = 0; how < 2; ++how) {
			ctx("malformed %s how=%d", b.first.c_str(), how);
			int st = in_child([&] { alarm(20); emp::Group H; if (how == 0) { emp::Point p; p.from_bin(&H, (const uint8_t *)b.second.data(), b.second.size()); } else { emp::MemIO io; uint32_t len = b.second.size(); io.send_data(&len, 4); if (len) io.send_data(b.second.data(), len); emp::Point p; io.recv_pt(&H, &p); } _exit(0); }, 60);
			if (st == 0) M.fail("group:malformed-accepted", fmt("%s via %s: %s", b.first.c_str(), how ? "recv_pt" : "from_bin", hex(b.second.data(), b.second.size(), 70).c_str()));
			else if (st == -1) M.fail("group:malformed-hang", b.first);
			M.eval(hash_bytes(b.second.data(), b.second.size(), how)); M.count("malformed_rejected"); progress();
		}
	}
	{ int st = in_child([&] { emp::Group H; emp::Point p; p.from_bin(&H, (const uint8_t *)ge.data(), ge.size()); _exit(0); }, 60); if (st != 0) M.fail("group:valid-rejected", ""); }
#endif
}
#endif

int main(int argc, char **argv) {
	init(argc, argv); start_watchdog(100);
#ifdef P_F2K
	part_f2k();
#endif
#ifdef P_CONV
	if (M.part == "big") part_transbig(); else part_conv();
#endif
#ifdef P_GROUP
	if (M.part == "emit") { M.finished = true; emp::Group H; for (int i = 0; i < 8; ++i) { emp::BigInt a; H.get_rand_bn(a); printf("%s\n", hn(nv(a)).c_str()); } fflush(stdout); _exit(0); }
	part_group();
#endif
	return done();
}
