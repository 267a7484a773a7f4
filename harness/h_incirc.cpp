// In-circuit AES-128-CTR and SHA3-256 against OpenSSL (C24).
#include "circ.h"
#include "emp-tool/circuits/aes_128_ctr.h"
#include "emp-tool/circuits/sha3_256.h"
using namespace vf; using namespace emp;
static std::string rbytes(Rng &r, size_t n) { std::string s(n, 0); if (n) r.bytes(&s[0], n); return s; }
static std::string advance(std::string iv, uint64_t n) { // 128-bit big-endian counter
	u128 x = 0; for (int i = 0; i < 16; ++i) x = (x << 8) | (uint8_t)iv[i]; x += n; for (int i = 15; i >= 0; --i) { iv[i] = (char)(uint8_t)x; x >>= 8; } return iv;
}
static std::string ctr_ref(const std::string &key, const std::string &iv, uint64_t start, const std::string &msg) {
	// counter mode built from the block cipher, so that the counter arithmetic is ours
	RefAes a(key.data()); std::string o = msg; for (size_t i = 0; i * 16 < msg.size(); ++i) { std::string c = advance(advance(iv, start), i); uint8_t k[16]; a.enc(k, c.data(), 1); for (size_t j = 0; j < 16 && i * 16 + j < msg.size(); ++j) o[i * 16 + j] ^= k[j]; } return o;
}
static std::string sha3_ref(const std::string &m) { uint8_t o[32]; unsigned l = 0; EVP_Digest(m.data(), m.size(), o, &l, EVP_sha3_256(), 0); return std::string((char *)o, 32); }
// bit i of a byte string: byte i/8, bit i%8
static bool sbit(const std::string &s, size_t i) { return ((uint8_t)s[i / 8] >> (i % 8)) & 1; }
static std::vector<block> wires(const std::vector<std::string> &lanes, size_t nbits) { std::vector<block> w(nbits); for (size_t i = 0; i < nbits; ++i) { u128 x = 0; for (int k = 0; k < 128; ++k) x |= (u128)sbit(lanes[k], i) << k; w[i] = block_of(x); } return w; }
static __m128i m128(const std::string &s) { __m128i x; memcpy(&x, s.data(), 16); return x; }
static std::string special_iv(Rng &r) { std::string s = rbytes(r, 16); switch (r.below(8)) { case 0: s.assign(16, (char)255); break; case 1: s.assign(16, 0); break; case 2: memset(&s[8], 255, 8); break; case 3: memset(&s[8], 255, 7); s[15] = (char)(255 - r.below(4)); break; case 4: memset(&s[0], 255, 15); s[15] = (char)(250 + r.below(6)); break; case 5: memset(&s[12], 255, 4); break; case 6: s[15] = (char)255; break; default:; } return s; }
static uint64_t special_start(Rng &r) { switch (r.below(8)) { case 0: case 1: case 2: return 0; case 3: return 1 + r.below(300); case 4: return 1ULL << r.below(64); case 5: return ~0ULL - 64; case 6: return r.u64() >> 8; default: return r.below(1ULL << 33); } }
static size_t special_len(Rng &r) { static const size_t L[] = {1, 7, 8, 9, 63, 64, 65, 127, 128, 129, 130, 255, 256, 257, 384, 385, 640}; return r.coin() ? L[r.below(sizeof L / sizeof *L)] : 1 + r.below(700); }

static void aes_one(AES_128_CTR_Calculator &C, Rng &r, bool big = false) {
	int form = (int)r.below(3), mode = (int)r.below(4); size_t len = big ? (r.coin() ? 32768 + r.below(400) : 1000 + r.below(20000)) : special_len(r); uint64_t start = special_start(r); if (start > ~0ULL - 600) start -= 600; size_t nb = (len + 7) / 8; if (big) M.count("long_aes");
	std::vector<std::string> K(128), IV(128), P(128); std::string k0 = rbytes(r, 16), iv0 = special_iv(r); for (int k = 0; k < 128; ++k) { K[k] = form == 2 ? k0 : rbytes(r, 16); IV[k] = form ? iv0 : special_iv(r); P[k] = rbytes(r, nb); }
	static const char *fn[] = {"secret key and IV", "secret key, public IV", "public key and IV"}; static const char *mn[] = {"in place", "separate output", "keystream only", "output given equal to input"};
	ctx("AES-CTR %s, %s, %zu bits from chunk %llu", fn[form], mn[mode], len, (unsigned long long)start);
	std::vector<block> kw = wires(K, 128), iw = wires(IV, 128), kw0 = kw, iw0 = iw, pw = wires(P, len); Guarded gi(16 * len, 0, r.u64()), go(16 * len, 0, r.u64()); memcpy(gi.p, pw.data(), 16 * len); block *in = (block *)gi.p, *out = (block *)go.p; block *ip = mode == 2 ? nullptr : in, *op = mode == 0 ? nullptr : mode == 3 ? in : out; block *res = mode == 0 || mode == 3 ? in : out;
	bool split = len > 128 && r.coin(3); int rc = 0;
	auto call = [&](size_t at, size_t n, uint64_t st) { block *i2 = ip ? ip + at : nullptr, *o2 = op ? op + at : nullptr; int x = form == 0 ? C.aes_128_ctr(kw.data(), iw.data(), i2, o2, n, PUBLIC, st) : form == 1 ? C.aes_128_ctr(kw.data(), m128(iv0), i2, o2, n, PUBLIC, st) : C.aes_128_ctr(m128(k0), m128(iv0), i2, o2, n, PUBLIC, st); if (x) rc = x; };
	if (!split) call(0, len, start); else { size_t at = 0; while (at < len) { size_t n = std::min(len - at, 128 * (1 + r.below(3))); call(at, n, start + at / 128); at += n; } M.count("chunked"); }
	if (rc) M.fail("aes-ctr:return-code", fmt("%d", rc));
	for (int k = 0; k < 128; ++k) { std::string w = ctr_ref(K[k], IV[k], start, mode == 2 ? std::string(nb, 0) : P[k]); bool ok = true; for (size_t i = 0; ok && i < len; ++i) ok = (bool)((u_of_block(res[i]) >> k) & 1) == sbit(w, i); if (!ok) { M.fail("aes-ctr:value", fmt("%s, %s, %zu bits, start chunk %llu, iv %s%s", fn[form], mn[mode], len, (unsigned long long)start, hex(IV[k].data(), 16).c_str(), split ? ", in pieces" : "")); break; } }
	if (memcmp(kw.data(), kw0.data(), 2048) || memcmp(iw.data(), iw0.data(), 2048) || (mode == 1 && memcmp(in, pw.data(), 16 * len))) M.fail("aes-ctr:input-changed", mn[mode]);
	if (!gi.intact() || !go.intact()) M.fail("aes-ctr:wrote-outside", mn[mode]);
	M.eval(mix64(len * 64 + form * 8 + mode) ^ mix64(start), 128); M.count(fn[form]); M.count(mn[mode]); if (M.want_sample()) M.sample(g_ctx); progress();
}
template <class T> static void aes_plain_t(Rng &r) {
	size_t n = r.coin(60) ? 5000 + r.below(300000) : 1 + r.below(80), nb = n * sizeof(T); std::string k = rbytes(r, 16), iv = special_iv(r), p = rbytes(r, nb); uint64_t start = special_start(r); int mode = (int)r.below(3); Guarded gi(nb, 16 * 0, r.u64()), go(nb, r.below(9), r.u64()); memcpy(gi.p, p.data(), nb); std::string w; uint8_t *res; int rc; ctx("plain AES-CTR, %zu elements of %zu bytes, mode %d", n, sizeof(T), mode);
	if (mode == 0) { rc = emp::aes_128_ctr(m128(k), m128(iv), (T *)gi.p, (uint8_t *)nullptr, n, start); res = gi.p; w = ctr_ref(k, iv, start, p); } else if (mode == 1) { rc = emp::aes_128_ctr(m128(k), m128(iv), (T *)gi.p, go.p, n, start); res = go.p; w = ctr_ref(k, iv, start, p); if (memcmp(gi.p, p.data(), nb)) M.fail("aes-ctr:input-changed", "plain function"); } else { rc = emp::aes_128_ctr(m128(k), m128(iv), (T *)nullptr, go.p, nb, start); res = go.p; w = ctr_ref(k, iv, start, std::string(nb, 0)); }
	if (rc || memcmp(res, w.data(), nb)) M.fail("aes-ctr:plain-value", fmt("%zu bytes, mode %d, start chunk %llu, iv %s", nb, mode, (unsigned long long)start, hex(iv.data(), 16).c_str())); if (!gi.intact() || !go.intact()) M.fail("aes-ctr:wrote-outside", "plain function"); M.eval(mix64(nb * 4 + mode) ^ start, 1); M.count("plain_function");
}
static void aes() {
	Rng r = M.rng(1); size_t n = M.n(700); std::unique_ptr<AES_128_CTR_Calculator> C(new AES_128_CTR_Calculator()); int uses = 0;
	for (size_t it = 0; it < n; ++it) { aes_one(*C, r, it % 100 == 50); if (++uses > 40 && r.coin(10)) { C.reset(new AES_128_CTR_Calculator()); uses = 0; } aes_plain_t<uint8_t>(r); aes_plain_t<uint32_t>(r); aes_plain_t<uint64_t>(r); }
}
static void sha_one(SHA3_256_Calculator &S, Rng &r, bool big = false) {
	static const size_t L[] = {0, 1, 8, 31, 32, 64, 134, 135, 136, 137, 271, 272, 273, 407, 408, 409, 544}; size_t nb = r.coin() ? L[r.below(sizeof L / sizeof *L)] : r.below(450), bits; if (big) { nb = r.coin() ? 8190 + r.below(6) : 136 * (8 + r.below(50)) + r.below(2); M.count("long_sha3"); } bits = nb * 8; std::vector<std::string> msg(128); for (auto &m : msg) m = rbytes(r, nb);
	std::vector<block> w = wires(msg, bits); int form = (int)r.below(6); ctx("SHA3-256 of %zu bytes, form %d", nb, form);
	std::vector<std::vector<block>> pieces; { size_t at = 0; while (at < bits) { size_t n = r.coin(6) ? 0 : 1 + r.below(r.coin() ? 40 : 1400); n = std::min(n, bits - at); pieces.emplace_back(w.begin() + at, w.begin() + at + n); at += n; } if (pieces.empty() || r.coin(4)) pieces.emplace_back(); }
	std::vector<const block *> pp; std::vector<size_t> ps; std::vector<Integer> pi; for (auto &p : pieces) { pp.push_back(p.data()); ps.push_back(p.size()); std::vector<Bit> b; for (auto &x : p) b.push_back(Bit(x)); pi.push_back(Integer(b)); }
	Guarded go(16 * 256, 0, r.u64()); block *o = (block *)go.p; Integer oi; if (r.coin()) oi.bits.resize(r.below(300)); const block *flat = w.data(); block dummy[1]; if (!bits) flat = dummy;
	switch (form) { case 0: S.sha3_256(o, pp.data(), ps.data(), pp.size()); break; case 1: S.sha3_256(o, (const Integer *)pi.data(), pi.size()); break; case 2: S.sha3_256(o, flat, bits); break; case 3: S.sha3_256(&oi, pp.data(), ps.data(), pp.size()); break; case 4: S.sha3_256(&oi, (const Integer *)pi.data(), pi.size()); break; default: S.sha3_256(&oi, flat, bits); }
	if (form >= 3) { if (oi.size() != 256) { M.fail("sha3:length", fmt("%zu bits", oi.size())); return; } for (int i = 0; i < 256; ++i) o[i] = oi[i].bit; }
	for (int k = 0; k < 128; ++k) { std::string h = sha3_ref(msg[k]); bool ok = true; for (int i = 0; ok && i < 256; ++i) ok = (bool)((u_of_block(o[i]) >> k) & 1) == sbit(h, i); if (!ok) { M.fail("sha3:value", fmt("%zu bytes in %zu pieces, form %d", nb, pieces.size(), form)); break; } }
	if (!go.intact()) M.fail("sha3:wrote-outside", ""); size_t at = 0; for (size_t i = 0; i < pieces.size(); ++i) { if (pieces[i].size() && memcmp(pieces[i].data(), w.data() + at, 16 * pieces[i].size())) M.fail("sha3:input-changed", ""); if (pi[i].size() != pieces[i].size()) M.fail("sha3:input-changed", "Integer"); at += pieces[i].size(); }
	M.eval(mix64(nb * 8 + form) ^ pieces.size(), 128); M.count("sha3"); if (M.want_sample()) M.sample(g_ctx);
	// the out-of-circuit function
	std::string m = rbytes(r, 8 * r.below(r.coin(20) ? 30000 : 60)); uint8_t d[32]; int rc = r.coin() ? emp::sha3_256(d, (const uint8_t *)m.data(), m.size()) : emp::sha3_256(d, (const uint64_t *)m.data(), m.size() / 8); if (rc || memcmp(d, sha3_ref(m).data(), 32)) M.fail("sha3:plain-value", fmt("%zu bytes", m.size())); M.count("sha3_plain"); progress();
}
static void sha() { Rng r = M.rng(2); size_t n = M.n(250); std::unique_ptr<SHA3_256_Calculator> S(new SHA3_256_Calculator()); int uses = 0; for (size_t it = 0; it < n; ++it) { sha_one(*S, r, it % 60 == 30); if (++uses > 40 && r.coin(20)) { S.reset(new SHA3_256_Calculator()); uses = 0; } } }
// the same through the plain protocol backend, with inputs and constants from either party
static void plain() {
	Rng r = M.rng(3); size_t n = M.n(30);
	for (size_t it = 0; it < n; ++it) {
		setup_plain_prot(false, ""); { AES_128_CTR_Calculator C; SHA3_256_Calculator S;
		int party = r.coin() ? ALICE : BOB; size_t len = special_len(r); std::string k = rbytes(r, 16), iv = special_iv(r), p = rbytes(r, (len + 7) / 8); uint64_t start = special_start(r); if (start > ~0ULL - 64) start -= 64; int form = (int)r.below(3); ctx("plain backend, form %d, %zu bits", form, len);
		Integer K(128, k.data(), r.coin() ? ALICE : BOB), I(128, iv.data(), r.coin() ? ALICE : BOB), P((int)len, p.data(), party); block *in = &P[0].bit;
		if (form == 0) C.aes_128_ctr(&K[0].bit, &I[0].bit, in, nullptr, len, party, start); else if (form == 1) C.aes_128_ctr(&K[0].bit, m128(iv), in, nullptr, len, party, start); else C.aes_128_ctr(m128(k), m128(iv), in, nullptr, len, party, start);
		std::string w = ctr_ref(k, iv, start, p), g = P.reveal<std::string>(PUBLIC); for (size_t i = 0; i < len; ++i) if ((g[i] == '1') != sbit(w, i)) { M.fail("aes-ctr:plain-backend", fmt("form %d, %zu bits", form, len)); break; }
		std::string m = rbytes(r, r.below(300)); Integer X((int)m.size() * 8, m.data(), party), H; S.sha3_256(&H, &X, 1); std::string h = sha3_ref(m), hg = H.reveal<std::string>(PUBLIC); for (int i = 0; i < 256; ++i) if ((hg[i] == '1') != sbit(h, i)) { M.fail("sha3:plain-backend", fmt("%zu bytes", m.size())); break; }
		M.eval(mix64(len * 4 + form + (start << 20)), 2); M.count("plain_backend"); progress(); }
		finalize_plain_prot(); CircuitExecution::circ_exec = nullptr; ProtocolExecution::prot_exec = nullptr;
	}
}
// messages longer than OpenSSL's int lengths (and 32 bits) can count
static void huge() {
	Rng r = M.rng(7); for (size_t n : {((size_t)1 << 32) + 100, ((size_t)1 << 31) + 5}) {
		if (n < (1ull << 32) && !M.thorough) break; BigBuf b(n + 64); if (!b.ok) return; std::string k = rbytes(r, 16), iv = special_iv(r); uint64_t start = special_start(r); ctx("plain AES-CTR of %zu bytes in one call", n); uint8_t mark[16]; r.bytes(mark, 16); memcpy(b.p + n - 16, mark, 16); memcpy(b.p + n, mark, 16);
		int rc = emp::aes_128_ctr(m128(k), m128(iv), b.p, (uint8_t *)nullptr, n, start); progress(); if (rc) { M.fail("aes-ctr:huge", fmt("%s: returned %d", g_ctx, rc)); continue; } if (memcmp(b.p + n, mark, 16)) M.fail("aes-ctr:wrote-outside", g_ctx);
		EVP_CIPHER_CTX *c = EVP_CIPHER_CTX_new(); EVP_EncryptInit_ex(c, EVP_aes_128_ctr(), 0, (const uint8_t *)k.data(), (const uint8_t *)advance(iv, start).data()); std::vector<uint8_t> z(1 << 20, 0), o(1 << 20);
		for (size_t at = 0; at < n; at += z.size()) { size_t m = std::min(z.size(), n - at); int l = 0; std::vector<uint8_t> *in = &z, last; if (at + m == n) { last.assign(m, 0); memcpy(&last[m - 16], mark, 16); in = &last; } EVP_EncryptUpdate(c, o.data(), &l, in->data(), (int)m); if (memcmp(o.data(), b.p + at, m)) { M.fail("aes-ctr:huge", fmt("%s: wrong from about byte %zu", g_ctx, at)); break; } }
		EVP_CIPHER_CTX_free(c); M.eval(mix64(n)); M.count("huge_calls"); progress(); }
}
// more bits than a thread has bytes of stack, with a public key and IV
static void huge_bits() {
	Rng r = M.rng(8); BS bs; CircuitExecution::circ_exec = &bs; std::unique_ptr<AES_128_CTR_Calculator> C(new AES_128_CTR_Calculator());
	size_t n = 70000003 + r.below(100); { BigBuf probe(4 * 16 * n); if (!probe.ok) { CircuitExecution::circ_exec = nullptr; return; } }
	std::string k = rbytes(r, 16), iv = special_iv(r); uint64_t start = r.below(1000); ctx("AES-CTR keystream of %zu bits, public key and IV", n); std::vector<block> out(n + 1, zero_block); block mark = emp::makeBlock(r.u64(), r.u64()); out[n] = mark;
	int rc = C->aes_128_ctr(m128(k), m128(iv), (block *)nullptr, out.data(), n, PUBLIC, start); if (rc) M.fail("aes-ctr:return-code", fmt("%s: %d", g_ctx, rc)); std::string w = ctr_ref(k, iv, start, std::string((n + 7) / 8, 0)); progress();
	for (size_t i = 0; i < n; ++i) if (u_of_block(out[i]) != (sbit(w, i) ? ~(u128)0 : 0)) { M.fail("aes-ctr:huge-bits", fmt("%s: bit %zu", g_ctx, i)); break; } if (u_of_block(out[n]) != u_of_block(mark)) M.fail("aes-ctr:wrote-outside", g_ctx);
	M.eval(mix64(n)); M.count("huge_calls"); CircuitExecution::circ_exec = nullptr; progress();
}
int main(int argc, char **argv) {
	init(argc, argv); start_watchdog(60); if (M.part == "huge") { huge_bits(); huge(); return done(); } plain(); BS bs; CircuitExecution::circ_exec = &bs; aes(); sha(); M.count("gates", bs.gates); CircuitExecution::circ_exec = nullptr; return done();
}
