// Shared by all harnesses: seeded randomness, event counting, violation records.
#ifndef VF_COMMON_H
#define VF_COMMON_H
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cstring>
#include <cstdarg>
#include <string>
#include <vector>
#include <map>
#include <mutex>
#include <atomic>
#include <thread>
#include <chrono>
#include <functional>
#include <algorithm>
#include <csignal>
#include <unistd.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/mman.h>
#include <fcntl.h>
#include <openssl/evp.h>

namespace vf {

static inline uint64_t mix64(uint64_t x) {
	x += 0x9E3779B97F4A7C15ULL; x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ULL;
	x = (x ^ (x >> 27)) * 0x94D049BB133111EBULL; return x ^ (x >> 31);
}
struct Rng { // splitmix based, independent of the code under test
	uint64_t s;
	explicit Rng(uint64_t seed = 1) : s(mix64(seed)) {}
	uint64_t u64() { s += 0x9E3779B97F4A7C15ULL; return mix64(s); }
	uint64_t operator()() { return u64(); }
	uint64_t below(uint64_t n) { return n ? u64() % n : 0; }
	int64_t range(int64_t a, int64_t b) { return a + (int64_t)below((uint64_t)(b - a + 1)); }
	bool coin(unsigned one_in = 2) { return below(one_in) == 0; }
	void bytes(void *p, size_t n) {
		uint8_t *q = (uint8_t *)p;
		while (n >= 8) { uint64_t v = u64(); memcpy(q, &v, 8); q += 8; n -= 8; }
		if (n) { uint64_t v = u64(); memcpy(q, &v, n); }
	}
	template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
};
static inline uint64_t hash_bytes(const void *p, size_t n, uint64_t h = 0x1234567) {
	const uint8_t *q = (const uint8_t *)p;
	while (n >= 8) { uint64_t v; memcpy(&v, q, 8); h = mix64(h ^ v); q += 8; n -= 8; }
	uint64_t v = n; if (n) memcpy(&v, q, n);
	return mix64(h ^ v ^ ((uint64_t)n << 56));
}
static inline std::string hex(const void *p, size_t n, size_t max = 48) {
	static const char *d = "0123456789abcdef"; std::string r;
	const uint8_t *q = (const uint8_t *)p;
	for (size_t i = 0; i < n && i < max; ++i) { r += d[q[i] >> 4]; r += d[q[i] & 15]; }
	if (n > max) r += "..";
	return r;
}
static inline std::string fmt(const char *f, ...) {
	char b[2048]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b;
}
static inline std::string jesc(const std::string &s) {
	std::string r;
	for (char c : s) {
		if (c == '"' || c == '\\') { r += '\\'; r += c; }
		else if (c == '\n') r += "\\n";
		else if ((unsigned char)c < 32 || (unsigned char)c > 126) r += fmt("\\u%04x", (unsigned char)c);
		else r += c;
	}
	return r;
}

static char g_ctx[1024] = "start";
static inline void ctx(const char *f, ...) {
	va_list a; va_start(a, f); vsnprintf(g_ctx, sizeof g_ctx, f, a); va_end(a);
}

struct Mon {
	uint64_t seed = 1, shard = 0, shards = 1;
	int scale = 100;          // percent of the case counts
	bool thorough = false;
	std::string part = "all", out, tmp = ".";
	std::mutex m;
	uint64_t evaluations = 0;
	std::vector<uint64_t> table; size_t used = 0; // distinct-case set (open addressing)
	std::map<std::string, uint64_t> events;
	std::vector<std::string> samples;
	std::vector<std::pair<std::string, std::string>> fails;
	std::atomic<int> nfails{0};
	bool finished = false; pid_t pid = 0;
	Mon() : table(1 << 12, 0) {}
	size_t n(size_t quick) const { // scaled case count
		size_t r = (size_t)((double)quick * scale / 100.0); return r ? r : 1;
	}
	Rng rng(uint64_t salt) const { return Rng(mix64(seed * 1000003 + shard * 7919) ^ mix64(salt)); }
	void add(uint64_t h) {
		if (used > (4u << 20)) return;
		if (used * 2 > table.size()) {
			std::vector<uint64_t> t(table.size() * 2, 0); t.swap(table); used = 0;
			for (uint64_t v : t) if (v) ins(v);
		}
		ins(h ? h : 1);
	}
	void ins(uint64_t h) {
		size_t i = mix64(h) & (table.size() - 1);
		while (table[i]) { if (table[i] == h) return; i = (i + 1) & (table.size() - 1); }
		table[i] = h; ++used;
	}
	// one observed case; h identifies it (0: trivial, not counted as distinct)
	void eval(uint64_t h, uint64_t n = 1) {
		std::lock_guard<std::mutex> g(m);
		evaluations += n; if (h) add(h);
	}
	void count(const char *k, uint64_t n = 1) { std::lock_guard<std::mutex> g(m); events[k] += n; }
	void sample(const std::string &s) { std::lock_guard<std::mutex> g(m); if (samples.size() < 6) samples.push_back(s.substr(0, 400)); }
	bool want_sample() { return samples.size() < 6; }
	void fail(const std::string &key, const std::string &detail) {
		bool stop;
		{
			std::lock_guard<std::mutex> g(m);
			fprintf(stderr, "FAIL %s: %s\n", key.c_str(), detail.c_str());
			fails.emplace_back(key, detail);
			nfails = (int)fails.size(); stop = fails.size() >= 5;
		}
		if (stop) finish();
	}
	void write() {
		if (out.empty()) return;
		std::string t = out + ".tmp"; FILE *f = fopen(t.c_str(), "w"); if (!f) _exit(70);
		fprintf(f, "{\"evaluations\":%llu,\"distinct\":%llu,\"events\":{", (unsigned long long)evaluations, (unsigned long long)used);
		bool first = true;
		for (auto &e : events) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", jesc(e.first).c_str(), (unsigned long long)e.second); first = false; }
		fprintf(f, "},\"samples\":["); first = true;
		for (auto &s : samples) { fprintf(f, "%s\"%s\"", first ? "" : ",", jesc(s).c_str()); first = false; }
		fprintf(f, "],\"fails\":["); first = true;
		for (auto &s : fails) { fprintf(f, "%s{\"key\":\"%s\",\"detail\":\"%s\"}", first ? "" : ",", jesc(s.first).c_str(), jesc(s.second).c_str()); first = false; }
		fprintf(f, "]}\n"); fclose(f); rename(t.c_str(), out.c_str());
	}
	void finish() { // writes the result and leaves
		{ std::lock_guard<std::mutex> g(m); if (!finished) { finished = true; write(); } }
		fflush(stdout); fflush(stderr);
		if (fails.empty()) return;
		_exit(1);
	}
};
static Mon M;

static void on_exit_note() {
	if (!M.finished && getpid() == M.pid) fprintf(stderr, "\nUNEXPECTED-EXIT in case: %s\n", g_ctx);
}
static void on_signal(int s) {
	char b[1200]; int n = snprintf(b, sizeof b, "\nSIGNAL %d in case: %s\n", s, g_ctx);
	ssize_t r = write(2, b, n); (void)r;
	signal(s, SIG_DFL); raise(s);
}
static inline void init(int argc, char **argv) {
	for (int i = 1; i < argc; ++i) {
		std::string a = argv[i]; const char *v = i + 1 < argc ? argv[i + 1] : "";
		if (a == "--seed") M.seed = strtoull(v, 0, 10), ++i;
		else if (a == "--shards") M.shards = strtoull(v, 0, 10), ++i;
		else if (a == "--shard") M.shard = strtoull(v, 0, 10), ++i;
		else if (a == "--scale") M.scale = atoi(v), ++i;
		else if (a == "--part") M.part = v, ++i;
		else if (a == "--out") M.out = v, ++i;
		else if (a == "--tmp") M.tmp = v, ++i;
		else if (a == "--tier") M.thorough = !strcmp(v, "thorough"), ++i;
		else { fprintf(stderr, "bad argument %s\n", argv[i]); _exit(70); }
	}
	M.pid = getpid();
	atexit(on_exit_note);
#if !defined(__SANITIZE_ADDRESS__) && !defined(__SANITIZE_THREAD__)
	for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGILL, SIGBUS}) signal(s, on_signal);
#else
	signal(SIGABRT, on_signal);
#endif
}
static inline int done() { M.finish(); return 0; }

// Watchdog: the process ends with status 42 when progress() is not called for `sec` seconds.
static std::atomic<uint64_t> g_progress(0);
static inline void progress() { g_progress.fetch_add(1, std::memory_order_relaxed); }
static inline void start_watchdog(int sec) {
	static std::atomic<int> up{0};
	std::thread([sec] {
		up = 1; // from here on this thread holds no allocator lock that a fork could copy
		uint64_t last = g_progress.load(std::memory_order_relaxed); int idle = 0, failing = 0;
		for (;;) {
			usleep(500000);
			if (M.nfails && ++failing > 16) M.finish(); // enough time to find more failures
			uint64_t now = g_progress.load(std::memory_order_relaxed);
			if (now != last) { last = now; idle = 0; } else idle++;
			if (idle > sec * 2) {
				fprintf(stderr, "\nWATCHDOG: no progress for %d s in case: %s\n", sec, g_ctx);
				fflush(stderr); _exit(42);
			}
		}
	}).detach();
	while (!up) usleep(200);
}

// Exactly sized heap buffer at a chosen misalignment, with guard bytes around it
// (in sanitizer builds the end coincides with the end of the allocation).
struct Guarded {
	std::vector<uint8_t> dummy; uint8_t *base; uint8_t *p; size_t n, off, tail;
	uint64_t pat;
	Guarded(size_t n_, size_t misalign, uint64_t pattern, bool fill = true) : n(n_), pat(pattern) {
#if defined(__SANITIZE_ADDRESS__)
		tail = 0;
#else
		tail = 64;
#endif
		off = 64 + misalign;
		void *q = nullptr; if (posix_memalign(&q, 64, off + n + tail + (off + n + tail == 0))) abort();
		base = (uint8_t *)q; p = base + off;
		if (fill) { for (size_t i = 0; i < n; ++i) p[i] = g(i + 1000); }
		for (size_t i = 0; i < off; ++i) base[i] = g(i);
		for (size_t i = 0; i < tail; ++i) p[n + i] = g(i + 77);
	}
	uint8_t g(size_t i) const { return (uint8_t)(mix64(pat + i) >> 13); }
	bool intact() const {
		for (size_t i = 0; i < off; ++i) if (base[i] != g(i)) return false;
		for (size_t i = 0; i < tail; ++i) if (p[n + i] != g(i + 77)) return false;
		return true;
	}
	bool untouched(size_t i) const { return p[i] == g(i + 1000); }
	~Guarded() { free(base); }
	Guarded(const Guarded &) = delete;
};

// Reference AES-128 (OpenSSL), key schedule cached.
// Several gigabytes of real memory, if the machine has them to spare.
struct BigBuf {
	uint8_t *p; size_t n; bool ok;
	explicit BigBuf(size_t n_) : p(0), n(n_), ok(false) {
		uint64_t avail = 0; if (FILE *f = fopen("/proc/meminfo", "r")) { char l[200]; unsigned long long k; while (fgets(l, sizeof l, f)) if (sscanf(l, "MemAvailable: %llu kB", &k) == 1) avail = k * 1024; fclose(f); }
		if (avail < n * 3 / 2 + (2ull << 30)) { M.count("huge_unavailable"); return; }
		void *a = mmap(0, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (a == MAP_FAILED) { M.count("huge_unavailable"); return; } p = (uint8_t *)a; ok = true;
	}
	~BigBuf() { if (p) munmap(p, n); }
	BigBuf(const BigBuf &) = delete;
};
struct RefAes {
	EVP_CIPHER_CTX *e, *d;
	explicit RefAes(const void *key) : e(EVP_CIPHER_CTX_new()), d(EVP_CIPHER_CTX_new()) {
		EVP_EncryptInit_ex(e, EVP_aes_128_ecb(), 0, (const uint8_t *)key, 0); EVP_CIPHER_CTX_set_padding(e, 0);
		EVP_DecryptInit_ex(d, EVP_aes_128_ecb(), 0, (const uint8_t *)key, 0); EVP_CIPHER_CTX_set_padding(d, 0);
	}
	~RefAes() { EVP_CIPHER_CTX_free(e); EVP_CIPHER_CTX_free(d); }
	RefAes(const RefAes &) = delete;
	void enc(void *out, const void *in, size_t blocks) { int l = 0; if (blocks) EVP_EncryptUpdate(e, (uint8_t *)out, &l, (const uint8_t *)in, (int)blocks * 16); }
	void dec(void *out, const void *in, size_t blocks) { int l = 0; if (blocks) EVP_DecryptUpdate(d, (uint8_t *)out, &l, (const uint8_t *)in, (int)blocks * 16); }
};
static inline std::string sha256(const void *p, size_t n) {
	uint8_t o[32]; unsigned l = 0; EVP_Digest(p, n, o, &l, EVP_sha256(), 0); return std::string((char *)o, 32);
}

// A fork can hang in the sanitizer's own allocator before the child runs anything: such a child is replaced.
static inline pid_t safe_fork() {
	static volatile int *entered = (volatile int *)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	for (int attempt = 0;; ++attempt) {
		*entered = 0; pid_t p = fork(); if (p == 0) { *entered = 1; return 0; }
		if (p < 0) return p;
		for (int i = 0; i < 2000 && !*entered; ++i) usleep(i < 400 ? 100 : 10000);
		if (*entered || attempt == 5) return p;
		int st; kill(p, SIGKILL); waitpid(p, &st, 0);
	}
}
// Runs f in a child with a time limit. Returns the wait status, or -1 when the limit was hit.
static inline int in_child(const std::function<void()> &f, int limit_s, bool quiet = true) {
	fflush(stdout); fflush(stderr);
	pid_t p = safe_fork();
	if (p == 0) {
		for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGILL, SIGBUS}) signal(s, SIG_DFL);
		if (quiet) { int n = open("/dev/null", O_WRONLY); dup2(n, 1); dup2(n, 2); }
		f(); _exit(0);
	}
	int st = 0;
	for (int i = 0; i < limit_s * 200; ++i) {
		pid_t r = waitpid(p, &st, WNOHANG);
		if (r == p) return st;
		usleep(i < 400 ? 500 : 5000);
	}
	kill(p, SIGKILL); waitpid(p, &st, 0); return -1;
}
} // namespace vf
#endif
