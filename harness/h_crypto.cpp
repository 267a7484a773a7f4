// C06 AES, C07 PRG, C08 fresh seeds, C09 Hash, C10 PRP/CRH family, C11 MITCCRH
#include "common.h"
#include "emp-tool/emp-tool.h"
#include <set>
#include <type_traits>
#include <sys/syscall.h>
#include <sys/sysmacros.h>
#include <memory>
#include <dlfcn.h>
#include <climits>
using namespace vf;
using emp::block;
using emp::makeBlock;

static block rblock(Rng &r) { return makeBlock(r.u64(), r.u64()); }
// random, sparse, dense and structured blocks
static block sblock(Rng &r) {
	switch (r.below(8)) {
	case 0: return emp::zero_block;
	case 1: return emp::all_one_block;
	case 2: { int i = r.below(128); return i < 64 ? makeBlock(0, 1ULL << i) : makeBlock(1ULL << (i - 64), 0); }
	case 3: { uint64_t b = r.below(256) * 0x0101010101010101ULL; return makeBlock(b, b); }
	default: return rblock(r);
	}
}
static std::string hb(const block &b) { return hex(&b, 16); }
static bool same(const block *a, const block *b, size_t n) { return memcmp(a, b, 16 * n) == 0; }

typedef std::array<uint64_t, 2> W2;
static W2 w2(const block &b) { W2 w; memcpy(w.data(), &b, 16); return w; }
static block ref_sigma(block a) { uint64_t w[2]; memcpy(w, &a, 16); return makeBlock(w[0] ^ w[1], w[1]); }

// aligned heap array of blocks, exactly sized
struct Blocks {
	block *p; size_t n;
	explicit Blocks(size_t n_) : n(n_) { void *q = 0; if (posix_memalign(&q, 16, n * 16 + (n == 0))) abort(); p = (block *)q; }
	~Blocks() { free(p); }
	Blocks(const Blocks &) = delete;
	block &operator[](size_t i) { return p[i]; }
};

// ---------------------------------------------------------------- C06
#ifdef P_AES
template <int K, int H> static void aes_shape(Rng &r) {
	ctx("aes shape K=%d H=%d", K, H);
	block uk[K]; for (int i = 0; i < K; ++i) uk[i] = sblock(r);
	block uk0[K]; memcpy(uk0, uk, sizeof uk);
	std::vector<emp::AES_KEY> ks(K);
	Blocks in(K * H), x(K * H);
	for (int i = 0; i < K * H; ++i) x[i] = in[i] = sblock(r);
	emp::AES_opt_key_schedule<K>(uk, ks.data());
	if (!same(uk, uk0, K)) M.fail("aes:opt-schedule-modifies-keys", fmt("K=%d", K));
	for (int i = 0; i < K; ++i) {
		emp::AES_KEY one; emp::AES_set_encrypt_key(uk[i], &one);
		for (int q = 0; q < 11; ++q)
			if (!same(&one.rd_key[q], &ks[i].rd_key[q], 1)) { M.fail("aes:opt-schedule", fmt("K=%d key %d=%s round %d", K, i, hb(uk[i]).c_str(), q)); break; }
		// the batched schedule must be usable with the single-key functions too
		Blocks y(H); RefAes ref(&uk[i]); Blocks e(H);
		for (int j = 0; j < H; ++j) y[j] = in[i * H + j];
		emp::AES_ecb_encrypt_blks(y.p, H, &ks[i]); ref.enc(e.p, &in[i * H], H);
		if (!same(y.p, e.p, H)) M.fail("aes:opt-schedule-use", fmt("K=%d key %s", K, hb(uk[i]).c_str()));
	}
	emp::ParaEnc<K, H>(x.p, ks.data());
	for (int i = 0; i < K; ++i) {
		RefAes ref(&uk[i]); Blocks e(H); ref.enc(e.p, &in[i * H], H);
		if (!same(e.p, &x[i * H], H)) M.fail("aes:para-enc", fmt("K=%d H=%d group %d key=%s in=%s got=%s want=%s", K, H, i, hb(uk[i]).c_str(), hb(in[i * H]).c_str(), hb(x[i * H]).c_str(), hb(e[0]).c_str()));
	}
	M.eval(hash_bytes(uk, sizeof uk, K * 100 + H)); M.count("para_enc_groups", K);
}
template <int K> static void aes_k(Rng &r) {
	aes_shape<K, 1>(r); aes_shape<K, 2>(r); aes_shape<K, 3>(r); aes_shape<K, 4>(r); aes_shape<K, 8>(r);
}
template <int N> static void aes_fixed(Rng &r) {
	ctx("aes fixed N=%d", N);
	block k = sblock(r); emp::AES_KEY key; emp::AES_set_encrypt_key(k, &key);
	Blocks x(N), in(N), e(N); for (int i = 0; i < N; ++i) x[i] = in[i] = sblock(r);
	emp::AES_ecb_encrypt_blks<N>(x.p, &key); RefAes ref(&k); ref.enc(e.p, in.p, N);
	if (!same(x.p, e.p, N)) M.fail("aes:encrypt-fixed", fmt("N=%d key=%s", N, hb(k).c_str()));
	M.eval(hash_bytes(&k, 16, N));
}
static void part_aes() {
	Rng r = M.rng(6);
	size_t rounds = M.n(60);
	for (size_t it = 0; it < rounds; ++it) {
		for (int n = 0; n <= 40; ++n) {
			block k = sblock(r); ctx("aes n=%d key=%s", n, hb(k).c_str());
			emp::AES_KEY ek, dk, dk2; emp::AES_set_encrypt_key(k, &ek);
			Blocks in(n), x(n), e(n); for (int i = 0; i < n; ++i) x[i] = in[i] = sblock(r);
			RefAes ref(&k); ref.enc(e.p, in.p, n);
			emp::AES_ecb_encrypt_blks(x.p, n, &ek);
			if (!same(x.p, e.p, n)) M.fail("aes:encrypt", fmt("n=%d key=%s in0=%s", n, hb(k).c_str(), n ? hb(in[0]).c_str() : ""));
			emp::AES_set_decrypt_key(k, &dk); emp::AES_set_decrypt_key_fast(&dk2, &ek);
			// decryption of arbitrary blocks
			Blocks y(n), z(n), w(n); for (int i = 0; i < n; ++i) y[i] = z[i] = in[i];
			ref.dec(w.p, in.p, n);
			emp::AES_ecb_decrypt_blks(y.p, n, &dk); emp::AES_ecb_decrypt_blks(z.p, n, &dk2);
			if (!same(y.p, w.p, n)) M.fail("aes:decrypt", fmt("n=%d key=%s", n, hb(k).c_str()));
			if (!same(z.p, w.p, n)) M.fail("aes:decrypt-fast", fmt("n=%d key=%s", n, hb(k).c_str()));
			emp::AES_ecb_decrypt_blks(x.p, n, &dk);
			if (!same(x.p, in.p, n)) M.fail("aes:roundtrip", fmt("n=%d key=%s", n, hb(k).c_str()));
			M.eval(n ? hash_bytes(&k, 16, n) : 0); M.count("blocks_encrypted", n);
			if (it == 0 && n == 7) M.sample(fmt("AES n=%d key=%s in0=%s -> %s", n, hb(k).c_str(), hb(in[0]).c_str(), hb(e[0]).c_str()));
		}
		aes_k<1>(r); aes_k<2>(r); aes_k<3>(r); aes_k<4>(r); aes_k<5>(r); aes_k<6>(r); aes_k<7>(r); aes_k<8>(r);
		if (it % 4 == 0) { aes_k<9>(r); aes_k<12>(r); aes_k<16>(r); }
		aes_fixed<1>(r); aes_fixed<2>(r); aes_fixed<3>(r); aes_fixed<7>(r); aes_fixed<8>(r); aes_fixed<9>(r); aes_fixed<16>(r); aes_fixed<33>(r);
		progress();
	}
	{ // large counts
		std::vector<size_t> ns = {1000, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537, 300000}; for (size_t i = 0; i < M.n(40); ++i) ns.push_back(41 + r.below(r.coin() ? 300 : 9000));
		for (size_t n : ns) {
			block k = rblock(r); emp::AES_KEY ek; emp::AES_set_encrypt_key(k, &ek); Blocks x(n), e(n), in(n); ctx("aes n=%zu", n);
			r.bytes(in.p, 16 * n); memcpy(x.p, in.p, 16 * n); RefAes ref(&k); ref.enc(e.p, in.p, n);
			emp::AES_ecb_encrypt_blks(x.p, n, &ek); if (!same(x.p, e.p, n)) M.fail("aes:encrypt-large", fmt("n=%zu", n));
			emp::AES_KEY dk; emp::AES_set_decrypt_key(k, &dk); memcpy(x.p, e.p, 16 * n); emp::AES_ecb_decrypt_blks(x.p, (unsigned)n, &dk); if (!same(x.p, in.p, n)) M.fail("aes:decrypt-large", fmt("n=%zu", n)); progress();
			M.eval(hash_bytes(&k, 16));
		}
	}
}

#endif
// ---------------------------------------------------------------- C07
#ifdef P_PRG
// optional white-box positioning: only when the public counter exists
template <class T> static auto set_pos(T &p, uint64_t c, int) -> decltype(p.counter = c, true) { p.counter = c; return true; }
template <class T> static bool set_pos(T &, uint64_t, long) { return false; }

struct RefPrg { // keystream of (seed,id): block i = AES_{seed xor id}(i)
	RefAes *a = nullptr; uint64_t c = 0;
	uint64_t buf[32]; int ptr = 32;
	~RefPrg() { delete a; }
	void seed(const block &s, uint64_t id) { delete a; block k = s ^ makeBlock(0, id); a = new RefAes(&k); c = 0; ptr = 32; }
	void blocks(void *out, size_t n) {
		std::vector<uint64_t> in(2 * n); for (size_t i = 0; i < n; ++i) { in[2 * i] = c++; in[2 * i + 1] = 0; }
		a->enc(out, in.data(), n);
	}
	std::vector<uint8_t> bytes(size_t n) { std::vector<uint8_t> b((n + 15) / 16 * 16 + 1); blocks(b.data(), (n + 15) / 16); b.resize(n); return b; }
	uint64_t next() { if (ptr == 32) { blocks(buf, 16); ptr = 0; } return buf[ptr++]; }
};
static const std::vector<size_t> &prg_sizes() {
	static std::vector<size_t> v = {0, 1, 2, 7, 8, 15, 16, 17, 23, 24, 30, 31, 32, 33, 47, 48, 49, 63, 64, 65, 79, 80, 95, 96, 111, 112, 113, 127, 128, 129, 143, 144, 145, 159, 160, 161, 191, 192, 255, 256, 257, 271, 272, 383, 384, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097};
	return v;
}
static void prg_case(Rng &r, int steps) {
	block seed = sblock(r);
	uint64_t id = r.coin() ? 0 : r.coin() ? r.below(1000) : r.u64() & 0x7fffffff;
	emp::PRG p = r.coin(3) ? emp::PRG(&seed, (int)id) : emp::PRG(&seed);
	RefPrg q; 
	// constructor with (seed,id) and reseed must agree
	int how = r.below(3); alignas(16) uint8_t sb[32]; uint8_t *sp = sb + 1; memcpy(sp, &seed, 16);
	std::string hist = fmt("seed=%s id=%llu how=%d:", hb(seed).c_str(), (unsigned long long)id, how);
	if (how == 0) { p.~PRG(); new (&p) emp::PRG(&seed, (int)id); }
	else if (how == 1) { p.reseed(&seed, id); }
	else { p.~PRG(); new (&p) emp::PRG(sp, (int)id); } // unaligned seed
	q.seed(seed, id);
	uint64_t h = hash_bytes(&seed, 16, id);
	if (r.coin(6)) {
		uint64_t pos = r.pick(std::vector<uint64_t>{(1ULL << 32) - 5, (1ULL << 31) - 3, (1ULL << 16) - 2, (1ULL << 33) + 1, (1ULL << 40), ~0ULL - 40, 255, 250});
		pos += r.below(4);
		if (set_pos(p, pos, 0)) { q.c = pos; hist += fmt(" @%llx", (unsigned long long)pos); M.count("prg_positioned"); }
	}
	for (int s = 0; s < steps; ++s) {
		int op = r.below(7); size_t n = r.coin(8) ? r.below(6000) : r.pick(prg_sizes());
		h = mix64(h ^ (op * 10007 + n));
		hist += fmt(" %d/%zu", op, n); if (hist.size() > 700) hist = hist.substr(0, 60) + ".." + hist.substr(hist.size() - 600);
		ctx("prg %s", hist.c_str());
		if (op == 0) { // blocks
			size_t nb = n / 16 + r.below(3); Guarded g(nb * 16, 0, r.u64()); p.random_block((block *)g.p, (int)nb);
			std::vector<uint8_t> e(nb * 16 + 1); q.blocks(e.data(), nb);
			if (nb && memcmp(g.p, e.data(), nb * 16)) { M.fail("prg:blocks", hist); return; }
			if (!g.intact()) { M.fail("prg:oob-write", hist); return; }
			M.count("prg_block_requests");
		} else if (op == 1) { // random_data needs a block-aligned destination
			Guarded g(n, 0, r.u64()); p.random_data(g.p, (int)n); auto e = q.bytes(n);
			if (n && memcmp(g.p, e.data(), n)) { M.fail("prg:data", hist); return; }
			if (!g.intact()) { M.fail("prg:oob-write", hist); return; }
			M.count("prg_data_requests");
		} else if (op == 2 || op == 3) {
			size_t al = r.below(17); Guarded g(n, al, r.u64()); p.random_data_unaligned(g.p, (int)n); auto e = q.bytes(n);
			hist += fmt("a%zu", al);
			if (n && memcmp(g.p, e.data(), n)) { M.fail("prg:data-unaligned", hist); return; }
			if (!g.intact()) { M.fail("prg:oob-write", hist); return; }
			M.count("prg_unaligned_requests");
		} else if (op == 4) {
			size_t al = r.below(17); Guarded g(n, al, r.u64()); p.random_bool((bool *)g.p, (int)n); auto e = q.bytes(n);
			hist += fmt("a%zu", al);
			for (size_t i = 0; i < n; ++i) if (g.p[i] != (e[i] & 1)) { M.fail("prg:bool", hist); return; }
			if (!g.intact()) { M.fail("prg:oob-write", hist); return; }
			M.count("prg_bool_requests");
		} else if (op == 5) {
			int k = 1 + r.below(70); for (int i = 0; i < k; ++i) { uint64_t a = p(), b = q.next(); if (a != b) { M.fail("prg:generator", hist + fmt(" k=%d", i)); return; } }
			M.count("prg_words", k);
		} else if (r.coin(3)) {
			block s2 = sblock(r); uint64_t id2 = r.coin() ? 0 : r.u64(); 
			if (r.coin(2)) { p.reseed(&s2, id2); q.seed(s2, id2); } else { p.reseed(&s2); q.seed(s2, 0); }
			hist += "reseed"; M.count("prg_reseeds");
		}
	}
	M.eval(h); if (M.want_sample()) M.sample("PRG " + hist);
}
static void part_prg() {
	Rng r = M.rng(7);
	// every size at every alignment, then check the stream position with one more block
	for (size_t al = 0; al < 16; ++al)
		for (size_t n : prg_sizes()) {
			ctx("prg size=%zu align=%zu", n, al);
			block seed = rblock(r); emp::PRG p(&seed, 3); RefPrg q; q.seed(seed, 3);
			Guarded g(n, al, r.u64()); 
			bool b = r.coin(3);
			if (b) p.random_bool((bool *)g.p, (int)n); else p.random_data_unaligned(g.p, (int)n);
			auto e = q.bytes(n); if (b) for (auto &x : e) x &= 1;
			if (n && memcmp(g.p, e.data(), n)) M.fail("prg:data-unaligned", fmt("n=%zu align=%zu bool=%d", n, al, b));
			if (!g.intact()) M.fail("prg:oob-write", fmt("n=%zu align=%zu", n, al));
			block xs[3], &x = xs[0], y; xs[1] = xs[2] = makeBlock(7, 9); if (n & 1) p.random_block(xs); else p.random_block(xs, 1); q.blocks(&y, 1);
			{ block s2 = makeBlock(7, 9); if (!same(&xs[1], &s2, 1) || !same(&xs[2], &s2, 1)) M.fail("prg:oob-write", fmt("one block, n=%zu", n)); }
			if (!same(&x, &y, 1)) M.fail("prg:position", fmt("n=%zu align=%zu: next block differs", n, al));
			M.eval(n ? mix64(n * 64 + al) : 0);
		}
	size_t cases = M.n(2500);
	for (size_t i = 0; i < cases; ++i) { prg_case(r, 4 + r.below(14)); if (i % 64 == 0) progress(); }
	{ // long stream in one go and block by block: no block repeats, both equal
		block seed = rblock(r); emp::PRG p(&seed), p2(&seed); size_t n = 1 << 16; Blocks a(n), b(n);
		p.random_block(a.p, n); for (size_t i = 0; i < n;) { size_t k = std::min(n - i, (size_t)r.below(40)); p2.random_block(b.p + i, k); i += k; }
		if (!same(a.p, b.p, n)) M.fail("prg:split", "long stream");
		std::set<std::pair<uint64_t, uint64_t>> S; for (size_t i = 0; i < n; ++i) { uint64_t w[2]; memcpy(w, &a[i], 16); S.insert({w[0], w[1]}); }
		if (S.size() != n) M.fail("prg:block-repeats", fmt("%zu distinct of %zu", S.size(), n));
		M.count("prg_blocks_distinct", n);
	}
	{ // large requests of every kind, one after another on one stream
		std::vector<size_t> ns = {65535, 65536, 65537, 100003, 131072, 262144 + 5, (1 << 20) - 1, 1 << 20, (1 << 20) + 17, 3000001}; block seed = rblock(r); emp::PRG p(&seed, 9); RefPrg q; q.seed(seed, 9);
		for (size_t i = 0; i < ns.size() + M.n(10); ++i) { size_t n = i < ns.size() ? ns[i] : 6000 + r.below(400000), al = r.below(16); int kind = (int)r.below(4); if (kind < 2) al = 0; if (kind == 0) n = n / 16 * 16; Guarded g(n, al, r.u64(), false); ctx("prg large request kind %d n=%zu align %zu", kind, n, al); if (kind == 0) p.random_block((block *)g.p, (int)(n / 16)); else if (kind == 1) p.random_data(g.p, (int)n); else if (kind == 2) p.random_data_unaligned(g.p, (int)n); else p.random_bool((bool *)g.p, (int)n); auto e = q.bytes(n); if (kind == 3) for (auto &x : e) x &= 1; if (memcmp(g.p, e.data(), n) || !g.intact()) { M.fail("prg:large", g_ctx); break; } M.eval(mix64(n * 8 + kind)); M.count("prg_large_requests"); progress(); }
	}
	{ // ids and seeds separate streams
		std::set<std::pair<uint64_t, uint64_t>> S; size_t n = 0; block s = rblock(r);
		for (int id = 0; id < 3000; ++id) { emp::PRG p(&s, id); block x[4]; p.random_block(x, 4); for (auto &b : x) { uint64_t w[2]; memcpy(w, &b, 16); S.insert({w[0], w[1]}); ++n; } }
		for (int i = 0; i < 128; ++i) { block t = s ^ (i < 64 ? makeBlock(0, 1ULL << i) : makeBlock(1ULL << (i - 64), 0)); bool low = i < 12; if (low) continue; emp::PRG p(&t, 0); block x[4]; p.random_block(x, 4); for (auto &b : x) { uint64_t w[2]; memcpy(w, &b, 16); S.insert({w[0], w[1]}); ++n; } }
		if (S.size() != n) M.fail("prg:seed-id-separation", fmt("%zu distinct of %zu blocks", S.size(), n));
	}
	{ // generator interface constants and use with std algorithms
		if (emp::PRG::min() != 0 || emp::PRG::max() != ~0ULL) M.fail("prg:range", "min/max");
	}
}

#endif
// ---------------------------------------------------------------- C08
#ifdef P_FRESH
template <class T> static auto seed_of(T &p, block &o, int) -> decltype((void)(block(p.key)), true) { o = p.key; return true; }
template <class T> static bool seed_of(T &, block &, long) { return false; }
// entropy drawn from the operating system by this thread (the calls are interposed)
static __thread uint64_t ent_bytes, ent_calls; static __thread bool ent_on;
static bool is_random_fd(int fd) { struct stat st; return !fstat(fd, &st) && S_ISCHR(st.st_mode) && major(st.st_rdev) == 1 && (minor(st.st_rdev) == 8 || minor(st.st_rdev) == 9); }
#if !defined(__SANITIZE_THREAD__) && !defined(__SANITIZE_ADDRESS__) && !defined(ENABLE_RDSEED)
#define VF_ENT 1
extern "C" ssize_t read(int fd, void *b, size_t n) { ssize_t k = syscall(SYS_read, fd, b, n); if (ent_on && k > 0 && is_random_fd(fd)) ent_bytes += k, ++ent_calls; return k; }
extern "C" ssize_t __read_chk(int fd, void *b, size_t n, size_t) { return read(fd, b, n); }
extern "C" size_t fread(void *b, size_t z, size_t n, FILE *f) { typedef size_t (*F)(void *, size_t, size_t, FILE *); static F real = (F)dlsym(RTLD_NEXT, "fread"); size_t k = real(b, z, n, f); if (ent_on && is_random_fd(fileno(f))) ent_bytes += k * z, ++ent_calls; return k; }
extern "C" int RAND_bytes(unsigned char *b, int n) { typedef int (*F)(unsigned char *, int); static F real = (F)dlsym(RTLD_NEXT, "RAND_bytes"); bool o = ent_on; ent_on = false; int k = real(b, n); ent_on = o; if (o && k > 0) ent_bytes += n, ++ent_calls; return k; }
extern "C" ssize_t getrandom(void *b, size_t n, unsigned f) { ssize_t k = syscall(SYS_getrandom, b, n, f); if (ent_on && k > 0) ent_bytes += k, ++ent_calls; return k; }
extern "C" int getentropy(void *b, size_t n) { size_t g = 0; while (g < n) { ssize_t k = getrandom((char *)b + g, n - g, 0); if (k < 0) return -1; g += k; } return 0; }
#endif
static emp::PRG before_main; static emp::PRG before_main_arr[3];
static W2 first_of(emp::PRG &p) { block b; p.random_block(&b, 1); return w2(b); }
static void kid_body(std::vector<W2> &v, size_t n, int depth, int fd) { // instances of all ways of making one; then, sometimes, a grandchild doing the same
	for (size_t i = 0; i < n; ++i) {
		if (i % 4 == 0) { emp::PRG p(nullptr, (int)(i * 2654435761u)); v.push_back(first_of(p)); }
		else if (i % 4 == 1) { std::unique_ptr<emp::PRG[]> a(new emp::PRG[2]); v.push_back(first_of(a[0])); v.push_back(first_of(a[1])); }
		else if (i % 4 == 2) { W2 w; std::thread t([&] { emp::PRG p; w = first_of(p); }); t.join(); v.push_back(w); }
		else { emp::PRG p; v.push_back(first_of(p)); }
	}
	ssize_t k = write(fd, v.data(), v.size() * 16); (void)k;
	if (depth) { pid_t pid = fork(); if (pid == 0) { v.clear(); kid_body(v, n, depth - 1, fd); _exit(0); } std::vector<W2> u; for (int i = 0; i < 3; ++i) { emp::PRG p; u.push_back(first_of(p)); } k = write(fd, u.data(), u.size() * 16); int st; if (pid > 0) waitpid(pid, &st, 0); }
}
static void part_fresh() {
	size_t per = M.n(250000); const int T = 8;
	std::vector<std::vector<W2>> first(T), keys(T);
	{
		std::vector<std::thread> th; std::atomic<int> go(0);
		for (int t = 0; t < T; ++t) th.emplace_back([&, t] {
			go++; while (go < T) ; // start together
			for (size_t i = 0; i < per; ++i) {
				emp::PRG p; block b, k; p.random_block(&b, 1); first[t].push_back(w2(b));
				if (seed_of(p, k, 0)) keys[t].push_back(w2(k));
				if (i % 1024 == 0) progress();
			}
		});
		for (auto &x : th) x.join();
	}
	std::vector<W2> all, K; for (auto &v : first) all.insert(all.end(), v.begin(), v.end());
	for (auto &v : keys) K.insert(K.end(), v.begin(), v.end());
#if !defined(__SANITIZE_THREAD__)
	// forked children: each constructs PRGs after the fork and reports over a pipe; also garblers' own PRGs with ids
	int kids = 16; size_t each = 64;
	for (int c = 0; c < kids; ++c) {
		// instances made in this very thread just before the fork (so that anything kept back from one construction to the next exists when the child is made)
		for (int i = 0; i < c; ++i) { emp::PRG p; all.push_back(first_of(p)); }
		int fd[2]; if (pipe(fd)) _exit(70); fflush(stderr);
		pid_t pid = safe_fork();
		if (pid == 0) { close(fd[0]); std::vector<W2> v; alarm(60); kid_body(v, each, c % 3, fd[1]); _exit(0); }
		for (int i = 0; i < 5; ++i) { emp::PRG p; all.push_back(first_of(p)); }
		close(fd[1]); std::vector<W2> v(8 * each); size_t got = 0; ssize_t k; while (got < v.size() * 16 && (k = read(fd[0], (char *)v.data() + got, v.size() * 16 - got)) > 0) got += k; close(fd[0]);
		int st; waitpid(pid, &st, 0);
		if (got % 16 == 0 && got / 16 >= (c % 3 + 1) * (each + each / 4)) { v.resize(got / 16); all.insert(all.end(), v.begin(), v.end()); M.count("forked_instances", v.size()); }
		else M.fail("fresh:child", "forked child did not produce its instances");
	}
#endif
	all.push_back(first_of(before_main)); for (auto &p : before_main_arr) all.push_back(first_of(p));
	{ std::vector<W2> idk; for (int i = 0; i < 3000; ++i) { emp::PRG p(nullptr, i % 3 ? i - 1500 : (i % 2 ? INT_MAX : INT_MIN)); block k; all.push_back(first_of(p)); if (seed_of(p, k, 0)) K.push_back(w2(k)); } M.count("instances_with_id", 3000); }
#ifdef VF_ENT
	{ // every instance that draws its own entropy draws at least 16 bytes of it
		uint64_t calls = 0, bytes = 0; size_t n = 2000, own = 0, low = 0; uint64_t least = ~0ull;
		for (size_t i = 0; i < n; ++i) { ent_bytes = ent_calls = 0; ent_on = true; { emp::PRG p(nullptr, i % 5); ent_on = false; all.push_back(first_of(p)); } calls += ent_calls; bytes += ent_bytes; if (ent_calls) { ++own; least = std::min(least, ent_bytes); low += ent_bytes < 16; } }
		M.count("entropy_calls", calls); M.count("entropy_bytes", bytes);
		if (own == n && low) M.fail("fresh:little-entropy", fmt("%zu of %zu instances drew fewer than 16 bytes of entropy (as few as %llu)", low, n, (unsigned long long)least));
	}
#endif
	// two instances with different ids but (impossibly) the same seed would have keys differing in low bits only: covered by key monitor
	std::sort(all.begin(), all.end());
	size_t dup = 0; for (size_t i = 1; i < all.size(); ++i) if (all[i] == all[i - 1]) ++dup;
	M.count("instances", all.size()); for (auto &w : all) M.eval(w[0]);
	if (dup) M.fail("fresh:shared-stream", fmt("%zu of %zu unseeded instances share a stream", dup, all.size()));
	M.sample(fmt("first block of one instance %016llx%016llx", (unsigned long long)all[0][1], (unsigned long long)all[0][0]));
	if (!K.empty()) {
		M.count("seeds_inspected", K.size());
		// per-bit balance: 6.5 sigma around one half
		size_t n = K.size(); double sd = 0.5 * sqrt((double)n);
		for (int b = 0; b < 128; ++b) { size_t c = 0; for (auto &k : K) c += (k[b >> 6] >> (b & 63)) & 1; if (std::abs((double)c - n / 2.0) > 7.5 * sd) M.fail("fresh:seed-bit-bias", fmt("seed bit %d set in %zu of %zu", b, c, n)); }
		// each 32-bit word on its own, and each pair of words: nearly all distinct / independent
		for (int w = 0; w < 4; ++w) {
			std::vector<uint32_t> v; for (auto &k : K) v.push_back((uint32_t)(k[w / 2] >> (32 * (w & 1)))); std::sort(v.begin(), v.end());
			size_t d = 0; for (size_t i = 1; i < v.size(); ++i) d += v[i] == v[i - 1];
			double ex = (double)n * n / 2 / 4294967296.0; if (d > ex + 12 * sqrt(ex) + 12) M.fail("fresh:seed-word-entropy", fmt("word %d: %zu repeats, expected %.1f", w, d, ex));
			for (int u = w + 1; u < 4; ++u) { size_t eq = 0, eqn = 0; for (auto &k : K) { uint32_t x = (uint32_t)(k[w / 2] >> (32 * (w & 1))), y = (uint32_t)(k[u / 2] >> (32 * (u & 1))); eq += x == y; eqn += x == ~y; } if (eq > 6 || eqn > 6) M.fail("fresh:seed-words-related", fmt("words %d,%d equal in %zu of %zu", w, u, eq, n)); }
			// pairwise bit correlation between words (same bit index)
		}
		for (int b = 0; b < 128; ++b) for (int c = b + 1; c < 128; c += 1) { if (((b * 131 + c) % 7) && !M.thorough && (c - b) % 32) continue; size_t eq = 0; size_t lim = std::min<size_t>(n, 20000); for (size_t i = 0; i < lim; ++i) eq += (((K[i][b >> 6] >> (b & 63)) ^ (K[i][c >> 6] >> (c & 63))) & 1) == 0; double s2 = 0.5 * sqrt((double)lim); if (std::abs((double)eq - lim / 2.0) > 9 * s2) { M.fail("fresh:seed-bits-correlated", fmt("bits %d and %d agree in %zu of %zu", b, c, eq, lim)); break; } }
	}
}
// prints the first blocks of some unseeded instances; run twice as a fresh program and compared by part "runs"
static void part_runs(const char *self) {
	std::set<std::string> seen; size_t n = 0;
	for (int run = 0; run < (int)M.n(10); ++run) {
		int fd[2]; if (pipe(fd)) _exit(70);
		pid_t pid = safe_fork();
		if (pid == 0) { dup2(fd[1], 1); close(fd[0]); close(fd[1]); execl(self, self, "--part", "emit", (char *)0); _exit(70); }
		close(fd[1]); std::string s; char b[4096]; ssize_t k; while ((k = read(fd[0], b, sizeof b)) > 0) s.append(b, k); close(fd[0]);
		int st; waitpid(pid, &st, 0);
		#ifdef ENABLE_RDSEED
		if (WIFEXITED(st) && WEXITSTATUS(st) == 1) { M.count("entropy_source_gave_up"); continue; }
#endif
		if (s.size() != 16 * 200) { M.fail("fresh:run", fmt("program run produced %zu bytes", s.size())); continue; }
		for (int i = 0; i < 200; ++i) { if (!seen.insert(s.substr(16 * i, 16)).second) M.fail("fresh:shared-across-runs", hex(s.data() + 16 * i, 16)); ++n; M.eval(hash_bytes(s.data() + 16 * i, 16)); }
		M.count("program_runs"); progress();
	}
}

#endif
// ---------------------------------------------------------------- C09
#ifdef P_HASH
static void part_hash() {
	Rng r = M.rng(9);
	const int B = emp::HASH_BUFFER_SIZE;
	std::vector<size_t> sz = {0, 1, 2, 15, 16, 17, 31, 32, 55, 56, 63, 64, 65, 100, 1000, 4096, (size_t)B - 17, (size_t)B - 16, (size_t)B - 2, (size_t)B - 1, (size_t)B, (size_t)B + 1, (size_t)B + 16, 2 * (size_t)B - 1, 2 * (size_t)B, 2 * (size_t)B + 1, 3 * (size_t)B + 5, 50000};
	size_t cases = M.n(3000);
	std::vector<uint8_t> pool(200000); r.bytes(pool.data(), pool.size());
	emp::Hash H; // reused across cases: must behave as new after digest/reset
	for (size_t c = 0; c < cases; ++c) {
		std::string msg, hist; int pieces = r.below(12); uint64_t h = 1;
		emp::Hash fresh; emp::Hash &hh = r.coin() ? fresh : H;
		if (r.coin(5)) { hh.put(pool.data(), 1 + r.below(9000)); hh.reset(); hist += "reset "; M.count("hash_resets"); }
		for (int i = 0; i < pieces; ++i) {
			size_t n = r.coin(3) ? r.pick(sz) : r.coin(3) ? r.below(20000) : r.below(3000);
			if (r.coin(4)) { // complete a buffer exactly / just before / just after
				size_t f = msg.size() % B; long d = (long)(B - f) + r.range(-1, 1); if (d > 0) n = d;
			}
			size_t o = r.below(pool.size() - n - 64);
			if (r.coin(4)) { size_t nb = std::min<size_t>(n / 16, 3000); o = (o + 15) / 16 * 16; Blocks b(nb); memcpy(b.p, pool.data() + o, nb * 16); if (nb == 1 && r.coin()) hh.put_block(b.p); else hh.put_block(b.p, (int)nb); n = nb * 16; hist += "b"; M.count("hash_block_puts"); }
			else { uint8_t *exact = (uint8_t *)malloc(n + (n == 0)); memcpy(exact, pool.data() + o, n); hh.put(exact, (int)n); memset(exact, 0xEE, n); free(exact); M.count("hash_puts"); }
			msg.append((char *)pool.data() + o, n); hist += fmt("%zu ", n); h = mix64(h ^ n);
			ctx("hash %s", hist.c_str());
		}
		uint8_t *dg = (uint8_t *)malloc(32); hh.digest(dg);
		std::string want = sha256(msg.data(), msg.size());
		if (memcmp(dg, want.data(), 32)) M.fail("hash:chunked", "pieces " + hist);
		M.eval(pieces ? mix64(h) : 0); if (M.want_sample() && pieces > 2) M.sample("Hash pieces: " + hist + "-> " + hex(dg, 32));
		if (r.coin(3)) { // again, on the same object
			size_t n = r.pick(sz); hh.put(pool.data(), (int)n); hh.digest(dg); std::string w = sha256(pool.data(), n); if (memcmp(dg, w.data(), 32)) M.fail("hash:reuse", "pieces " + hist + fmt("then %zu", n)); M.count("hash_reuses");
		}
		if (r.coin(2)) {
			size_t n = r.coin() ? r.pick(sz) : r.below(20000); uint8_t *in = (uint8_t *)malloc(n + (n == 0)); memcpy(in, pool.data() + 5, n);
			emp::Hash::hash_once(dg, in, (int)n); std::string w = sha256(in, n); if (memcmp(dg, w.data(), 32)) M.fail("hash:once", fmt("n=%zu", n));
			block b = emp::Hash::hash_for_block(in, (int)n); if (memcmp(&b, w.data(), 16)) M.fail("hash:for-block", fmt("n=%zu", n));
			free(in); M.count("hash_once");
		}
		free(dg);
		if (c % 128 == 0) progress();
	}
	for (size_t n : {(size_t)65535, (size_t)65536, (size_t)70001, (size_t)1 << 20, ((size_t)1 << 20) + 3, (size_t)5000011}) { // long pieces between short ones
		std::vector<uint8_t> big(n); r.bytes(big.data(), n); emp::Hash h; std::string msg; ctx("hash long piece %zu", n); for (int i = 0; i < 3; ++i) { size_t a = r.below(2 * B); h.put(pool.data(), (int)a); msg.append((char *)pool.data(), a); if (i != 1 || r.coin()) { if (r.coin()) h.put(big.data(), (int)n), msg.append((char *)big.data(), n); else { size_t nb = n / 16; Blocks b(nb); memcpy(b.p, big.data(), nb * 16); h.put_block(b.p, (int)nb); msg.append((char *)big.data(), nb * 16); } } } char d[32]; h.digest(d); std::string w = sha256(msg.data(), msg.size()); if (memcmp(d, w.data(), 32)) M.fail("hash:chunked", fmt("long pieces of %zu", n)); M.eval(mix64(n)); M.count("hash_long"); progress(); }
	if ((int)emp::Hash::DIGEST_SIZE != 32) M.fail("hash:digest-size", "DIGEST_SIZE is not the length of the digest");
	// KDF = first block of SHA-256(uncompressed point || 8-byte little-endian id)
	emp::Group G; std::set<std::string> seen; size_t kd = M.n(60);
	for (size_t i = 0; i < kd; ++i) {
		emp::BigInt m; uint8_t sb[32]; r.bytes(sb, 32); int ml = i < 3 ? 1 : 1 + r.below(31); if (i < 3) sb[0] = i; m.from_bin(sb, ml);
		emp::Point p = G.mul_gen(m); std::vector<uint8_t> enc(p.size()); p.to_bin(enc.data(), enc.size());
		for (uint64_t id : {(uint64_t)1, (uint64_t)0, (uint64_t)2, r.u64(), (uint64_t)1 << 32, (uint64_t)1 << 63}) {
			block k = id == 1 && r.coin() ? emp::Hash::KDF(p) : emp::Hash::KDF(p, id);
			std::vector<uint8_t> t = enc; t.resize(enc.size() + 8); memcpy(&t[enc.size()], &id, 8);
			std::string w = sha256(t.data(), t.size()); if (memcmp(&k, w.data(), 16)) M.fail("hash:kdf", fmt("point %s id=%llu", hex(enc.data(), enc.size()).c_str(), (unsigned long long)id));
			M.eval(hash_bytes(t.data(), t.size())); M.count("kdf");
		}
		std::vector<uint8_t> enc2(p.size()); p.to_bin(enc2.data(), enc2.size()); if (enc2 != enc) M.fail("hash:kdf-modifies-point", "");
	}
}

#endif
// ---------------------------------------------------------------- C10
#ifdef P_PRP
struct RefH {
	RefAes a; explicit RefH(const block &k) : a(&k) {}
	block pi(block x) { block y; a.enc(&y, &x, 1); return y; }
	block crh(block x) { return pi(x) ^ x; }
	block ccrh(block x) { block s = ref_sigma(x); return pi(s) ^ s; }
	block tccrh(block x, uint64_t i) { block y = pi(x); return pi(y ^ makeBlock(0, i)) ^ y; }
};
static void cmp(const char *key, const block *got, const std::vector<W2> &want, int n, const std::string &d) {
	for (int i = 0; i < n; ++i) if (w2(got[i]) != want[i]) { M.fail(key, d + fmt(" n=%d position %d", n, i)); return; }
}
template <int N> static void crh_n(Rng &r) {
	block k = sblock(r); bool def = r.coin(3); if (def) k = emp::zero_block;
	emp::CRH c = def ? emp::CRH() : emp::CRH(k); emp::CCRH cc = def ? emp::CCRH() : emp::CCRH(k); emp::TCCRH tc = def ? emp::TCCRH() : emp::TCCRH(k);
	RefH ref(k); uint64_t id = r.coin(3) ? r.below(10) : r.coin() ? ~0ULL - r.below(N + 2) : r.coin() ? (1ULL << 32) - r.below(N + 2) : r.u64();
	Blocks in(N), in0(N), out(N); std::vector<W2> w1(N), w2_(N), w3(N);
	for (int i = 0; i < N; ++i) { in[i] = in0[i] = sblock(r); w1[i] = w2(ref.crh(in[i])); w2_[i] = w2(ref.ccrh(in[i])); w3[i] = w2(ref.tccrh(in[i], id + i)); }
	std::string d = fmt("key=%s id=%llx", hb(k).c_str(), (unsigned long long)id); ctx("crh N=%d %s", N, d.c_str());
	for (int i = 0; i < N; ++i) {
		if (w2(c.H(in[i])) != w1[i]) M.fail("crh:single", d);
		if (w2(cc.H(in[i])) != w2_[i]) M.fail("ccrh:single", d);
		if (w2(tc.H(in[i], id + i)) != w3[i]) M.fail("tccrh:single", d);
	}
	c.H<N>(out.p, in.p); cmp("crh:fixed", out.p, w1, N, d); if (!same(in.p, in0.p, N)) M.fail("crh:input-changed", d);
	cc.H<N>(out.p, in.p); cmp("ccrh:fixed", out.p, w2_, N, d); if (!same(in.p, in0.p, N)) M.fail("ccrh:input-changed", d);
	tc.H<N>(out.p, in.p, id); cmp("tccrh:fixed", out.p, w3, N, d); if (!same(in.p, in0.p, N)) M.fail("tccrh:input-changed", d);
	// in place
	memcpy(out.p, in0.p, 16 * N); c.H<N>(out.p, out.p); cmp("crh:fixed-inplace", out.p, w1, N, d);
	memcpy(out.p, in0.p, 16 * N); cc.H<N>(out.p, out.p); cmp("ccrh:fixed-inplace", out.p, w2_, N, d);
	memcpy(out.p, in0.p, 16 * N); tc.H<N>(out.p, out.p, id); cmp("tccrh:fixed-inplace", out.p, w3, N, d);
	M.eval(hash_bytes(&k, 16, N ^ id)); M.count("hash_batches", 3 * 7);
}
static void crh_var(Rng &r, int N) { // variable size, with/without scratch, in place or not
	block k = sblock(r); emp::CRH c(k); emp::CCRH cc(k); emp::TCCRH tc(k); RefH ref(k);
	uint64_t id = r.coin(3) ? r.below(10) : r.coin() ? ~0ULL - r.below(N + 2) : r.coin() ? (1ULL << 32) - r.below(N + 2) : r.u64();
	Blocks in(N), in0(N), out(N); std::vector<W2> w1(N), w2_(N), w3(N);
	for (int i = 0; i < N; ++i) { in[i] = in0[i] = sblock(r); w1[i] = w2(ref.crh(in[i])); w2_[i] = w2(ref.ccrh(in[i])); w3[i] = w2(ref.tccrh(in[i], id + i)); }
	std::string d = fmt("key=%s id=%llx", hb(k).c_str(), (unsigned long long)id); ctx("crh var N=%d %s", N, d.c_str());
	for (int mode = 0; mode < 4; ++mode) { // variable size, with/without scratch, in place or not
		bool scratch = mode & 1, inpl = mode & 2; Blocks s(N);
		block *o = out.p, *x = in.p; memcpy(in.p, in0.p, 16 * N); if (inpl) { memcpy(out.p, in0.p, 16 * N); x = out.p; }
		std::string dd = d + fmt(" scratch=%d inplace=%d", scratch, inpl);
		if (scratch) c.Hn(o, x, N, s.p); else c.Hn(o, x, N); cmp("crh:Hn", o, w1, N, dd); if (!inpl && !same(in.p, in0.p, N)) M.fail("crh:input-changed", dd);
		memcpy(in.p, in0.p, 16 * N); if (inpl) memcpy(out.p, in0.p, 16 * N);
		if (scratch) cc.Hn(o, x, N, s.p); else cc.Hn(o, x, N); cmp("ccrh:Hn", o, w2_, N, dd); if (!inpl && !same(in.p, in0.p, N)) M.fail("ccrh:input-changed", dd);
		memcpy(in.p, in0.p, 16 * N); if (inpl) memcpy(out.p, in0.p, 16 * N);
		if (scratch) tc.Hn(o, x, id, N, s.p); else tc.Hn(o, x, id, N); cmp("tccrh:Hn", o, w3, N, dd); if (!inpl && !same(in.p, in0.p, N)) M.fail("tccrh:input-changed", dd);
	}
	M.eval(N ? hash_bytes(&k, 16, N ^ id) : 0); M.count("variable_batches", 12);
}
template <int... N> static void crh_all(Rng &r) { int d[] = {(crh_n<N>(r), 0)...}; (void)d; }
static void part_prp() {
	Rng r = M.rng(10);
	size_t it = M.n(40);
	for (size_t i = 0; i < it; ++i) {
		crh_all<1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 24, 31, 33, 65>(r);
		for (int n = 0; n <= 100; n += 1 + (n > 40) * 7) crh_var(r, n);
		crh_var(r, 101 + r.below(400)); if (i % 4 == 0) crh_var(r, i % 8 ? 1024 : 1000 + r.below(5000));
		progress();
		for (int n : [&] { std::vector<int> v; for (int j = 0; j <= 40; ++j) v.push_back(j); v.push_back(41 + (int)r.below(1200)); return v; }()) { // PRP in every construction
			block k = sblock(r); int how = r.below(4); if (how == 0) k = emp::zero_block;
			char kb[17]; memcpy(kb + 1, &k, 16); ctx("prp n=%d how=%d", n, how);
			emp::PRP p = how == 0 ? emp::PRP() : how == 1 ? emp::PRP((const char *)kb + 1) : how == 2 ? emp::PRP(k) : emp::PRP();
			if (how == 3) p.aes_set_key(k);
			Blocks x(n), in(n), e(n); for (int j = 0; j < n; ++j) x[j] = in[j] = sblock(r);
			p.permute_block(x.p, n); RefAes ref(&k); ref.enc(e.p, in.p, n);
			if (!same(x.p, e.p, n)) M.fail("prp:permute", fmt("n=%d how=%d key=%s", n, how, hb(k).c_str()));
			M.eval(n ? hash_bytes(&k, 16, n) : 0); M.count("prp_blocks", n);
		}
		// sigma: linear, and both sigma and sigma^id are permutations (checked through linearity + rank over the unit vectors)
		for (int j = 0; j < 50; ++j) { block a = sblock(r), b = sblock(r); block l = emp::sigma(a ^ b), m = emp::sigma(a) ^ emp::sigma(b); if (!same(&l, &m, 1)) M.fail("sigma:linear", hb(a)); block t = ref_sigma(a), u = emp::sigma(a); if (!same(&t, &u, 1)) M.fail("sigma:value", hb(a)); }
		if (i == 0) {
			for (int add = 0; add < 2; ++add) {
				std::vector<W2> rows; for (int b = 0; b < 128; ++b) { block u = b < 64 ? makeBlock(0, 1ULL << b) : makeBlock(1ULL << (b - 64), 0); block s = emp::sigma(u); if (add) s = s ^ u; rows.push_back(w2(s)); }
				int rank = 0; for (int b = 0; b < 128; ++b) { int pv = -1; for (size_t q = rank; q < rows.size(); ++q) if ((rows[q][b >> 6] >> (b & 63)) & 1) { pv = q; break; } if (pv < 0) continue; std::swap(rows[rank], rows[pv]); for (size_t q = 0; q < rows.size(); ++q) if ((int)q != rank && ((rows[q][b >> 6] >> (b & 63)) & 1)) { rows[q][0] ^= rows[rank][0]; rows[q][1] ^= rows[rank][1]; } ++rank; }
				if (rank != 128) M.fail("sigma:orthomorphism", fmt("rank %d (add=%d)", rank, add));
			}
			M.sample("CRH/CCRH/TCCRH single, fixed, variable (scratch x in-place) for batch sizes 0..100 against OpenSSL AES");
		}
	}
}

#endif
// ---------------------------------------------------------------- C11
#ifdef P_MIT
// Model: keys are numbered; call number c with K keys uses K consecutive key numbers, none used before
// (after an explicit repositioning the numbering restarts there).
template <int BS> struct Mit {
	emp::MITCCRH<BS> h; block S; uint64_t next; // next: smallest key number not used yet
	std::set<uint64_t> used;
};
static block key_block(const block &S, uint64_t g) { return S ^ makeBlock(g, 0); }
static bool ref_mit(const block &S, uint64_t g, int K, int H, const block *in, const block *got, bool cir) {
	for (int i = 0; i < K; ++i) {
		block k = key_block(S, g + i); RefAes a(&k);
		for (int j = 0; j < H; ++j) { block x = in[i * H + j]; if (cir) x = ref_sigma(x); block y; a.enc(&y, &x, 1); y = y ^ x; if (!same(&y, &got[i * H + j], 1)) return false; }
	}
	return true;
}
template <int BS, int K, int H> static bool mit_call(Rng &r, emp::MITCCRH<BS> &h, const block &S, uint64_t &next, int &left, std::string &hist) {
	Blocks x(K * H), in(K * H); for (int i = 0; i < K * H; ++i) x[i] = in[i] = sblock(r);
	bool cir = r.coin(); hist += fmt(" %s<%d,%d>", cir ? "c" : "h", K, H); if (hist.size() > 800) hist = hist.substr(0, 100) + ".." + hist.substr(hist.size() - 600);
	ctx("mitccrh %s", hist.c_str());
	if (cir) h.template hash_cir<K, H>(x.p); else h.template hash<K, H>(x.p);
	// keys come consecutively; when the current batch cannot serve K more, the rest may be skipped
	bool ok = ref_mit(S, next, K, H, in.p, x.p, cir);
	if (ok) { next += K; left -= K; if (left < 0) left += BS; }
	else if (left < K && left > 0 && ref_mit(S, next + left, K, H, in.p, x.p, cir)) { next += left + K; left = BS - K; ok = true; M.count("mit_skipped_batches"); }
	if (!ok) M.fail("mitccrh:output", fmt("BS=%d S=%s next=%llx", BS, hb(S).c_str(), (unsigned long long)next) + hist);
	if (left == 0) left = BS;
	M.count("mit_calls"); M.eval(hash_bytes(in.p, 16 * K * H, next));
	return ok;
}
template <int BS> static bool mit_any(Rng &r, emp::MITCCRH<BS> &h, const block &S, uint64_t &next, int &left, std::string &hist, int k, int hh);
#define HC(K) switch (hh) { case 1: return mit_call<BS_, K, 1>(r, h, S, next, left, hist); case 2: return mit_call<BS_, K, 2>(r, h, S, next, left, hist); case 3: return mit_call<BS_, K, 3>(r, h, S, next, left, hist); default: return mit_call<BS_, K, 4>(r, h, S, next, left, hist); }
template <> bool mit_any<8>(Rng &r, emp::MITCCRH<8> &h, const block &S, uint64_t &next, int &left, std::string &hist, int k, int hh) {
	const int BS_ = 8; switch (k) { case 1: HC(1) case 2: HC(2) case 4: HC(4) default: HC(8) } }
template <> bool mit_any<4>(Rng &r, emp::MITCCRH<4> &h, const block &S, uint64_t &next, int &left, std::string &hist, int k, int hh) {
	const int BS_ = 4; switch (k) { case 1: HC(1) case 2: HC(2) default: HC(4) } }
template <> bool mit_any<2>(Rng &r, emp::MITCCRH<2> &h, const block &S, uint64_t &next, int &left, std::string &hist, int k, int hh) {
	const int BS_ = 2; switch (k) { case 1: HC(1) default: HC(2) } }
template <> bool mit_any<16>(Rng &r, emp::MITCCRH<16> &h, const block &S, uint64_t &next, int &left, std::string &hist, int k, int hh) {
	const int BS_ = 16; switch (k) { case 1: HC(1) case 2: HC(2) case 4: HC(4) case 8: HC(8) default: HC(16) } }
template <int BS> static void mit_case(Rng &r) {
	std::string hist = fmt(" BS=%d", BS); block S = sblock(r);
	std::unique_ptr<emp::MITCCRH<BS>> hp(new emp::MITCCRH<BS>); auto &h = *hp; h.setS(S);
	uint64_t next = 0; int left = BS; bool mixed = r.coin(); std::vector<int> ks = BS == 16 ? std::vector<int>{1, 2, 4, 8, 16} : BS == 8 ? std::vector<int>{1, 2, 4, 8} : BS == 4 ? std::vector<int>{1, 2, 4} : std::vector<int>{1, 2};
	int k = r.pick(ks);
	int steps = 3 + r.below(30);
	for (int s = 0; s < steps; ++s) {
		if (r.coin(12)) { uint64_t g = r.pick(std::vector<uint64_t>{0, 1, 8, (1ULL << 32) - 4, (1ULL << 31) - 3, (1ULL << 32) + 7, 1ULL << 40, ~0ULL - 20, r.u64()}); h.renew_ks(g); next = g; left = BS; hist += fmt(" @%llx", (unsigned long long)g); M.count("mit_repositions"); }
		else if (r.coin(40)) { h.renew_ks(); next += (left == BS && hist.size() ? 0 : 0), next = next; /* explicit renewal: handled below */
			// an explicit renewal drops the unused part of the batch; where it continues depends on whether a batch was open
			// so probe: the next call must match one of the two admissible positions
			block x = sblock(r), in = x; h.template hash<1, 1>(&x); bool ok = false; uint64_t cand[3] = {next, next + (left == BS ? 0 : (uint64_t)left), next + BS};
			for (uint64_t g : cand) if (ref_mit(S, g, 1, 1, &in, &x, false)) { next = g + 1; left = BS - 1; if (!left) left = BS; ok = true; break; }
			hist += " renew"; if (!ok) { M.fail("mitccrh:renew", hist); return; } M.count("mit_renewals"); mixed = true; continue; }
		if (mixed) k = r.pick(ks);
		if (!mit_any<BS>(r, h, S, next, left, hist, k, 1 + r.below(4))) return;
	}
	if (M.want_sample()) M.sample("MITCCRH" + hist);
}
static void part_mit() {
	Rng r = M.rng(11);
	size_t cases = M.n(600);
	for (size_t i = 0; i < cases; ++i) { mit_case<8>(r); mit_case<8>(r); mit_case<4>(r); mit_case<2>(r); mit_case<16>(r); progress(); }
	// two instances in step: different H, same K
	for (size_t i = 0; i < M.n(200); ++i) {
		block S = rblock(r); emp::MITCCRH<8> a, b; a.setS(S); b.setS(S);
		for (int s = 0; s < 40; ++s) {
			block x[4], y[2]; x[0] = rblock(r); x[1] = rblock(r); x[2] = rblock(r); x[3] = rblock(r); int w = r.below(2), v = r.below(2); y[0] = x[w]; y[1] = x[2 + v];
			bool c = r.coin(); if (c) { a.hash_cir<2, 2>(x); b.hash_cir<2, 1>(y); } else { a.hash<2, 2>(x); b.hash<2, 1>(y); }
			if (!same(&x[w], &y[0], 1) || !same(&x[2 + v], &y[1], 1)) { M.fail("mitccrh:lockstep", fmt("step %d", s)); break; }
			M.count("mit_lockstep_pairs");
		}
		M.eval(hash_bytes(&S, 16));
	}
}

#endif
// ---------------------------------------------------------------- lengths beyond 2^31 bytes
static void part_huge() {
	const size_t nb = ((size_t)1 << 27) + 5, bytes = nb * 16; Rng r = M.rng(77); ctx("%zu blocks in one call", nb); (void)bytes;
#ifdef P_HASH
	{ BigBuf b(bytes + 64); if (b.ok) { // untouched pages read as zeros; a few marks make positions matter
		for (size_t at : {(size_t)0, (size_t)1 << 30, ((size_t)1 << 31) - 9, ((size_t)1 << 31) + 3, bytes - 20}) r.bytes(b.p + at, 16);
		emp::Hash h; uint8_t pre[100], post[50], d[32]; r.bytes(pre, 100); r.bytes(post, 50); h.put(pre, 100); h.put_block((const block *)b.p, (int)nb); progress(); h.put(post, 50); h.digest(d);
		EVP_MD_CTX *c = EVP_MD_CTX_new(); EVP_DigestInit_ex(c, EVP_sha256(), 0); EVP_DigestUpdate(c, pre, 100); EVP_DigestUpdate(c, b.p, bytes); EVP_DigestUpdate(c, post, 50); uint8_t w[32]; unsigned l = 0; EVP_DigestFinal_ex(c, w, &l); EVP_MD_CTX_free(c);
		if (memcmp(d, w, 32)) M.fail("hash:huge", g_ctx); M.eval(mix64(nb)); M.count("huge_calls"); progress(); } }
#endif
#ifdef P_PRP
	{ BigBuf b(bytes + 64); if (b.ok) { block k = rblock(r); emp::PRP p(k); RefAes ref(&k); for (size_t i = 0; i < nb; ++i) { uint64_t v[2] = {i, ~i}; memcpy(b.p + 16 * i, v, 16); } progress(); p.permute_block((block *)b.p, (int)nb); progress();
		std::vector<uint64_t> in(2 * 65536), out(2 * 65536); for (size_t at = 0; at < nb; at += 65536) { size_t m = std::min<size_t>(65536, nb - at); for (size_t i = 0; i < m; ++i) { in[2 * i] = at + i; in[2 * i + 1] = ~(at + i); } ref.enc(out.data(), in.data(), m); if (memcmp(out.data(), b.p + 16 * at, 16 * m)) { M.fail("prp:huge", fmt("%s: near block %zu", g_ctx, at)); break; } }
		M.eval(mix64(nb)); M.count("huge_calls"); progress(); } }
#endif
#ifdef P_PRG
	{ BigBuf b(bytes + 64); if (b.ok) { block k = rblock(r); emp::PRG p(&k); RefAes ref(&k); std::vector<uint64_t> in(2 * 65536, 0), out(2 * 65536); size_t base = 0;
		auto cmp = [&](const uint8_t *q, size_t n, const char *what) { // the request consumed keystream blocks base, base+1, ...
			for (size_t at = 0; at * 16 < n; at += 65536) { size_t m = std::min<size_t>(65536, (n + 15) / 16 - at); for (size_t i = 0; i < m; ++i) { in[2 * i] = base + at + i; in[2 * i + 1] = 0; } ref.enc(out.data(), in.data(), m); if (memcmp(out.data(), q + 16 * at, std::min(16 * m, n - 16 * at))) { M.fail("prg:huge", fmt("%s: near block %zu", what, at)); break; } }
			base += (n + 15) / 16; M.eval(mix64(n)); M.count("huge_calls"); progress(); };
		p.random_block((block *)b.p, (int)nb); cmp(b.p, bytes, "random_block of 2^27+5"); p.random_data(b.p, 0x7fffffff); cmp(b.p, 0x7fffffff, "random_data of 2^31-1"); p.random_data_unaligned(b.p + 5, 0x7fffffff); cmp(b.p + 5, 0x7fffffff, "random_data_unaligned of 2^31-1");
		block t; p.random_block(&t, 1); uint64_t c[2] = {base, 0}; block w; ref.enc(&w, c, 1); if (!same(&t, &w, 1)) M.fail("prg:huge", "position after long requests"); } }
#endif
}
int main(int argc, char **argv) {
	init(argc, argv);
#ifdef P_FRESH
	if (M.part == "emit") { M.finished = true; for (int i = 0; i < 200; ++i) { emp::PRG p; block b; (i == 0 ? before_main : i < 4 ? before_main_arr[i - 1] : p).random_block(&b, 1); fwrite(&b, 16, 1, stdout); } fflush(stdout); return 0; }
#endif
	start_watchdog(100);
	char self[4096]; ssize_t k = readlink("/proc/self/exe", self, sizeof self - 1); self[k > 0 ? k : 0] = 0;
	bool all = M.part == "all"; if (M.part == "huge") { part_huge(); return done(); }
#ifdef P_AES
	if (all || M.part == "aes") part_aes();
#endif
#ifdef P_PRG
	if (all || M.part == "prg") part_prg();
#endif
#ifdef P_FRESH
	if (all || M.part == "fresh") part_fresh();
#endif
#ifdef P_FRESH
	if (M.part == "runs") part_runs(self);
#endif
#ifdef P_HASH
	if (all || M.part == "hash") part_hash();
#endif
#ifdef P_PRP
	if (all || M.part == "prp") part_prp();
#endif
#ifdef P_MIT
	if (all || M.part == "mit") part_mit();
#endif
	return done();
}
