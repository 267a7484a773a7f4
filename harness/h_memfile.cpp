// C03 MemIO/FileIO histories against a queue model; C04 typed transfers against a reference encoder.
#include "netutil.h"
#include "emp-tool/emp-tool.h"
#include <deque>
using namespace vf;
using emp::block;

#ifdef P_MEM
static size_t sz(Rng &r, size_t cap) {
	switch (r.below(8)) { case 0: return 0; case 1: return 1; case 2: return 1 + r.below(16); case 3: return cap ? cap - (cap > 1 ? r.below(2) : 0) : 1; case 4: return cap + r.below(3); case 5: return 16384 - 2 + r.below(5); case 6: return 1 + r.below(300); default: return 1 + r.below(40000); }
}
static void mem_history(Rng &r, size_t it) {
	std::vector<int64_t> caps = {0, 1, 2, 7, 16, 64, 1000, 4096, 1 << 20}; int64_t cap = r.pick(caps); bool dflt = r.coin(6);
	emp::MemIO *io = dflt ? new emp::MemIO() : new emp::MemIO(cap); Stream s(r.u64()); uint64_t w = 0, rd = 0, sent = 0; size_t ops = 5 + r.below(60); std::string d; uint64_t h = mix64(cap + it * 77); std::string file = M.tmp + "/m.bin";
	for (size_t i = 0; i < ops; ++i) {
		int k = r.below(20); uint64_t avail = w - rd; ctx("MemIO cap=%lld op %zu of history: %s", (long long)cap, i, d.size() > 600 ? d.substr(d.size() - 600).c_str() : d.c_str());
		if (k < 9) { size_t n = sz(r, cap); if (r.coin(3)) n = 1 + r.below(100); Guarded g(n, r.below(16), 5); s.fill(g.p, w, n); std::vector<uint8_t> c(g.p, g.p + n); io->send_data(g.p, n); if (n && memcmp(c.data(), g.p, n)) M.fail("memio:send-modifies", d); w += n; sent += n; d += fmt("s%zu ", n); h = mix64(h ^ n); M.count("sends"); }
		else if (k < 16) { if (!avail) continue; size_t n = r.coin(4) ? avail : 1 + r.below(avail); Guarded g(n, r.below(16), 6); io->recv_data(g.p, n); int64_t x = s.check(g.p, rd, n); if (x >= 0) M.fail("memio:stream", fmt("cap=%lld wrong byte at offset %llu after %s", (long long)cap, (unsigned long long)(rd + x), d.c_str())); if (!g.intact()) M.fail("memio:stray-write", d); rd += n; d += fmt("r%zu ", n); h = mix64(h ^ n ^ 1); M.count("receives"); }
		else if (k == 16) { // over-read: nothing delivered, nothing lost
			size_t n = avail + 1 + r.below(50); Guarded g(n, 0, r.u64()); fflush(stderr); int keep = dup(2), nul = open("/dev/null", O_WRONLY); dup2(nul, 2); close(nul); io->recv_data(g.p, n); fflush(stderr); dup2(keep, 2); close(keep);
			for (size_t j = 0; j < n; ++j) if (!g.untouched(j)) { M.fail("memio:over-read-delivers", d + fmt("avail=%llu asked=%zu", (unsigned long long)avail, n)); break; } d += fmt("over%zu ", n); M.count("over_reads"); }
		else if (k == 17) { io->clear(); s = Stream(r.u64()); w = rd = 0; d += "clear "; M.count("clears"); }
		else if (k == 18) { size_t n = sz(r, 64); Stream s2(r.u64()); { FILE *f = fopen(file.c_str(), "wb"); std::vector<uint8_t> b(n + 3); s2.fill(b.data(), 0, n + 3); fwrite(b.data(), 1, n + 3, f); fclose(f); }
			{ emp::FileIO fio(file.c_str(), true); size_t skip = r.below(3); std::vector<uint8_t> t(3); if (skip) fio.recv_data(t.data(), skip); io->load_from_file(&fio, n); s = s2; rd = skip; w = skip + n; // replayed bytes are those after the skipped ones
			  if (r.coin()) { std::vector<uint8_t> z(3 - skip + 1); fio.recv_data(z.data(), 3 - skip); if (s2.check(z.data(), skip + n, 3 - skip) >= 0) M.fail("memio:load-consumes-wrong", fmt("n=%zu", n)); } }
			unlink(file.c_str()); d += fmt("load%zu ", n); M.count("loads"); }
		else { uint8_t c = 7; io->recv_data(&c, 0); io->send_data(&c, 0); if (c != 7) M.fail("memio:stray-write", "zero length"); d += "z "; }
		if (io->counter != sent) M.fail("memio:counter", d);
	}
	// what is left is still there
	{ uint64_t n = w - rd; if (n) { std::vector<uint8_t> b(n); io->recv_data(b.data(), n); int64_t x = s.check(b.data(), rd, n); if (x >= 0) M.fail("memio:stream", fmt("cap=%lld final drain, wrong byte at %llu: %s", (long long)cap, (unsigned long long)(rd + x), d.c_str())); } }
	delete io; M.eval(h, ops); M.count("histories"); if (M.want_sample()) M.sample("MemIO " + d.substr(0, 300));
}
template <class F> static auto own_counter(F *f, uint64_t w, int) -> decltype((void)f->bytes_sent, true) { return (uint64_t)f->bytes_sent == w; } // where the channel keeps one
template <class F> static bool own_counter(F *, uint64_t, long) { return true; }
static void file_history(Rng &r, size_t it) {
	std::string f = M.tmp + fmt("/f%zu.bin", it); Stream s(r.u64()); size_t w = 0; std::string d; size_t ops = 1 + r.below(25); uint64_t h = it * 31 + 5;
	emp::FileIO *io = new emp::FileIO(f.c_str(), false);
	for (size_t i = 0; i < ops; ++i) { size_t n = sz(r, 16384); std::vector<uint8_t> b(n + 1); s.fill(b.data(), w, n); ctx("FileIO write history %s", d.c_str()); io->send_data(b.data(), n); w += n; d += fmt("s%zu ", n); h = mix64(h ^ n); if (r.coin(5)) { io->flush(); d += "fl "; std::vector<uint8_t> z(w + 1); FILE *o = fopen(f.c_str(), "rb"); size_t k = o ? fread(z.data(), 1, w + 1, o) : 0; if (o) fclose(o); if (k != w || (w && s.check(z.data(), 0, w) >= 0)) M.fail("fileio:flush", fmt("after a flush the file shows %zu of %zu bytes: %s", k, w, d.c_str())); M.count("flushes"); } if (io->counter != w || !own_counter(io, w, 0)) M.fail("fileio:counter", d); M.count("sends"); }
	auto readback = [&](emp::FileIO *x, const char *how) { size_t pos = 0; while (pos < w) { size_t n = r.coin(4) ? w - pos : sz(r, 16384); if (!n) n = 1; if (n > w - pos) n = w - pos; Guarded g(n, r.below(16), 4); ctx("FileIO read %s pos=%zu n=%zu %s", how, pos, n, d.c_str()); x->recv_data(g.p, n); int64_t e = s.check(g.p, pos, n); if (e >= 0) { M.fail("fileio:stream", fmt("%s wrong byte at %zu: %s", how, pos + (size_t)e, d.c_str())); return; } if (!g.intact()) M.fail("fileio:stray-write", d); pos += n; M.count("receives"); if (r.coin(30) && pos < w) { x->reset(); pos = 0; } } };
	if (r.coin()) { io->reset(); readback(io, "after reset"); if (r.coin()) { io->reset(); readback(io, "second reset"); } if (r.coin() && w) { // overwrite from the start after a reset
			io->reset(); Stream s2(r.u64()); size_t n = 1 + r.below(w); std::vector<uint8_t> b(w); s2.fill(b.data(), 0, n); io->send_data(b.data(), n); io->reset(); Guarded g(w, 0, 3); io->recv_data(g.p, w); if (s2.check(g.p, 0, n) >= 0 || s.check(g.p + n, n, w - n) >= 0) M.fail("fileio:rewrite", fmt("rewrote %zu of %zu: %s", n, w, d.c_str())); io->reset(); s.fill(b.data(), 0, n); io->send_data(b.data(), n); M.count("rewrites"); } }
	delete io;
	{ struct stat st; if (stat(f.c_str(), &st) || (size_t)st.st_size != w) M.fail("fileio:size", fmt("file has %lld bytes, %zu written", (long long)st.st_size, w)); }
	{ emp::FileIO x(f.c_str(), true); readback(&x, "other FileIO"); x.reset(); if (w) readback(&x, "other FileIO after reset"); }
	{ emp::FileIO x(f.c_str(), true); emp::MemIO m(r.below(50)); std::vector<uint8_t> junk(40, 1); m.send_data(junk.data(), r.below(40)); m.load_from_file(&x, w); size_t pos = 0; while (pos < w) { size_t n = 1 + r.below(w - pos); Guarded g(n, 0, 3); m.recv_data(g.p, n); if (s.check(g.p, pos, n) >= 0) { M.fail("memio:load", d); break; } pos += n; } // and the loaded channel can be written to again
	  uint8_t extra[33]; s.fill(extra, w, 33); m.send_data(extra, 33); uint8_t got[33]; m.recv_data(got, 33); if (memcmp(extra, got, 33)) M.fail("memio:append-after-load", d); }
	{ emp::FileIO x(f.c_str(), false); } { struct stat st; stat(f.c_str(), &st); if (st.st_size != 0) M.fail("fileio:truncate", "opening for writing keeps old content"); }
	unlink(f.c_str()); M.eval(h, ops); M.count("file_histories"); if (it < 2) M.sample("FileIO " + d.substr(0, 300));
}
static void part_mem() { Rng r = M.rng(3); for (size_t i = 0; i < M.n(2500); ++i) { mem_history(r, i); if (i % 50 == 0) progress(); } for (size_t i = 0; i < M.n(300); ++i) { file_history(r, i); progress(); }
	{ // growth far beyond the capacity in one write and in many
		for (int k = 0; k < 3; ++k) { emp::MemIO io(k == 0 ? 0 : 10); Stream s(k); size_t total = 20u << 20, pos = 0; std::vector<uint8_t> b(total); s.fill(b.data(), 0, total); while (pos < total) { size_t n = k == 1 ? 1 + r.below(300000) : total - pos; if (n > total - pos) n = total - pos; io.send_data(b.data() + pos, n); pos += n; } std::vector<uint8_t> g(total); io.recv_data(g.data(), total); if (g != b) M.fail("memio:growth", fmt("%d", k)); M.eval(500 + k); progress(); } } }
static void part_huge() { // one message of more bytes than an int can count
	size_t n = (1ull << 31) + 54321; Window src(n, M.seed, true), dst(n, 0, false); if (!src.ok || !dst.ok) { M.count("huge_unavailable"); return; } uint8_t a[1000], b[1000], x[1000], y[1000]; Rng(M.seed + 1).bytes(a, 1000); Rng(M.seed + 2).bytes(b, 1000);
	std::atomic<bool> over(false); std::thread tick([&] { for (int i = 0; !over && i < 600; ++i) { usleep(200000); progress(); } });
	auto verdict = [&](const char *name, uint64_t counted) {
		if (counted != n + 2000) M.fail("huge:counter", fmt("%s: %llu counted for %zu", name, (unsigned long long)counted, n + 2000)); if (memcmp(a, x, 1000) || memcmp(b, y, 1000)) M.fail("huge:neighbour", fmt("%s: the message before or after one of %zu bytes comes back changed", name, n));
		int64_t d = dst.differs(src); if (d >= 0) M.fail("huge:message", fmt("%s: content of a message of %zu bytes (offset %lld modulo 2^20)", name, n, (long long)d)); memset(dst.p, 0, Window::W); memset(x, 0, 1000); memset(y, 0, 1000); M.eval(hash_bytes(name, strlen(name))); M.count("huge_messages"); };
	int fd = memfd_create("vf-file", 0); std::string path = fmt("/proc/self/fd/%d", fd); struct stat st;
	if (fd >= 0 && !stat(path.c_str(), &st)) {
		ctx("FileIO: one message of %zu bytes between two of 1000", n);
		{ emp::FileIO io(path.c_str(), false); io.send_data(a, 1000); io.send_data(src.p, n); io.send_data(b, 1000); io.flush(); fstat(fd, &st); if ((uint64_t)st.st_size != n + 2000) M.fail("huge:file-size", fmt("%lld bytes on file for %zu", (long long)st.st_size, n + 2000)); io.reset(); io.recv_data(x, 1000); io.recv_data(dst.p, n); io.recv_data(y, 1000); verdict("FileIO", io.counter); }
		ctx("MemIO loaded from a file with %zu bytes", n + 2000);
		{ emp::FileIO io(path.c_str(), true); emp::MemIO m(0); m.load_from_file(&io, n + 2000); close(fd); m.recv_data(x, 1000); m.recv_data(dst.p, n); m.recv_data(y, 1000); verdict("MemIO loaded from file", n + 2000); }
	} else M.count("huge_unavailable");
	ctx("MemIO: one message of %zu bytes between two of 1000", n);
	{ emp::MemIO m(100); m.send_data(a, 1000); m.send_data(src.p, n); m.send_data(b, 1000); m.recv_data(x, 1000); m.recv_data(dst.p, n); m.recv_data(y, 1000); verdict("MemIO", m.counter); m.clear(); m.send_data(a, 1000); m.send_data(src.p, n); m.send_data(b, 1000); m.recv_data(x, 1000); m.recv_data(dst.p, n); m.recv_data(y, 1000); verdict("MemIO, second time", m.counter - n - 2000); }
	over = true; tick.join();
}
#endif

#ifdef P_TYPED
struct Rec : public emp::IOChannel<Rec> { // recording channel: every byte on the wire is visible
	std::vector<uint8_t> wire; size_t rp = 0; bool under = false;
	void send_data_internal(const void *d, size_t n) { const uint8_t *p = (const uint8_t *)d; wire.insert(wire.end(), p, p + n); }
	void recv_data_internal(void *d, size_t n) { if (rp + n > wire.size()) { under = true; memset(d, 0, n); rp = wire.size(); return; } if (n) memcpy(d, wire.data() + rp, n); rp += n; }
	void flush() {}
};
static std::vector<uint8_t> ref_bits(const uint8_t *b, size_t n) { std::vector<uint8_t> o; size_t i = 0; for (; i + 8 <= n; i += 8) { uint8_t v = 0; for (int j = 0; j < 8; ++j) v |= b[i + j] << j; o.push_back(v); } for (; i < n; ++i) o.push_back(b[i]); return o; }
static void bool_case(Rng &r, size_t n, size_t as, size_t ad, int mode, bool ea, bool da) {
	ctx("bool array n=%zu sender align %zu receiver align %zu mode %d", n, as, ad, mode);
	Guarded src(n, as, r.u64()); for (size_t i = 0; i < n; ++i) src.p[i] = mode == 0 ? r.coin() : mode == 1 ? 1 : mode == 2 ? 0 : (i == (size_t)(mode - 3) % (n ? n : 1)); std::vector<uint8_t> c(src.p, src.p + n);
	Rec ch; uint64_t c0 = ch.counter; if (ea) ch.send_bool_aligned((const bool *)src.p, n); else ch.send_bool((bool *)src.p, n);
	std::vector<uint8_t> want = ref_bits(c.data(), n);
	if (ch.wire != want) M.fail("typed:bool-encoding", fmt("%s n=%zu align=%zu: %zu bytes, expected %zu; %s vs %s", ea ? "aligned" : "general", n, as, ch.wire.size(), want.size(), hex(ch.wire.data(), ch.wire.size()).c_str(), hex(want.data(), want.size()).c_str()));
	if (ch.counter - c0 != ch.wire.size()) M.fail("typed:counter", fmt("n=%zu counter %llu wire %zu", n, (unsigned long long)(ch.counter - c0), ch.wire.size()));
	if (n && memcmp(c.data(), src.p, n)) M.fail("typed:sender-modified", fmt("n=%zu", n));
	size_t before = ch.wire.size(); Guarded dst(n, ad, r.u64()); if (da) ch.recv_bool_aligned((bool *)dst.p, n); else ch.recv_bool((bool *)dst.p, n);
	if (ch.under || ch.rp != before) M.fail("typed:bool-consumption", fmt("n=%zu receiver took %zu of %zu bytes", n, ch.rp, before));
	if (n && memcmp(dst.p, c.data(), n)) M.fail("typed:bool-value", fmt("n=%zu sender align %zu receiver align %zu", n, as, ad));
	if (!dst.intact() || !src.intact()) M.fail("typed:stray-write", fmt("bool n=%zu align %zu", n, ad));
	if (ch.counter - c0 != before) M.fail("typed:counter", "receive advanced the counter");
	M.eval(n ? mix64(n * 64 + as * 8 + ad + (uint64_t)mode * 100000 + ea * 7000000 + da * 9000000) : 0); M.count("bool_arrays");
}
template <class IO> static void mixed(Rng &r, IO *a, IO *b, emp::Group *G, const char *name, size_t ops, bool turn, std::function<void()> reset) {
	struct Item { int k; std::vector<uint8_t> v; size_t n; }; std::vector<Item> items; std::vector<emp::Point> pts; uint64_t c0 = a->counter, bytes = 0;
	for (size_t i = 0; i < ops; ++i) { Item t; t.k = r.below(4); t.n = r.below(t.k == 2 ? 3 : 70); if (t.k == 0) { t.v.resize(t.n * 16); r.bytes(t.v.data(), t.v.size()); block *p = (block *)aligned_alloc(16, t.n * 16 + 16); if (t.n) memcpy(p, t.v.data(), t.n * 16); a->send_block(p, t.n); free(p); bytes += 16 * t.n; }
		else if (t.k == 1) { t.v.resize(t.n); Guarded g(t.n, r.below(16), 1); for (size_t j = 0; j < t.n; ++j) t.v[j] = g.p[j] = r.coin(); if (r.coin()) a->send_bool((bool *)g.p, t.n); else a->send_bool_aligned((bool *)g.p, t.n); bytes += t.n / 8 + t.n % 8; }
		else if (t.k == 2) { std::vector<emp::Point> p; for (size_t j = 0; j < t.n; ++j) { emp::BigInt e; uint8_t z[2] = {(uint8_t)r.below(3), (uint8_t)r.u64()}; e.from_bin(z, 2); emp::Point q = r.coin(8) ? emp::Point(G) : G->mul_gen(e); std::string s(q.size(), 0); q.to_bin((unsigned char *)&s[0], s.size()); bytes += 4 + s.size(); t.v.push_back(s.size()); t.v.insert(t.v.end(), s.begin(), s.end()); p.push_back(q); } if (p.size() == 1 && r.coin()) a->send_pt(p.data()); else a->send_pt(p.data(), p.size()); }
		else { t.v.reserve(1); t.v.resize(t.n); r.bytes(t.v.data(), t.n); a->send_data(t.v.data(), t.n); bytes += t.n; } items.push_back(t); }
	if (a->counter - c0 != bytes) M.fail("typed:counter", fmt("%s: %llu counted, %llu expected", name, (unsigned long long)(a->counter - c0), (unsigned long long)bytes));
	reset();
	for (auto &t : items) { ctx("%s typed item kind %d n=%zu", name, t.k, t.n);
		if (t.k == 0) { block *p = (block *)aligned_alloc(16, t.n * 16 + 16); memset(p, 0x5a, t.n * 16 + 16); b->recv_block(p, t.n); if (t.n && memcmp(p, t.v.data(), t.n * 16)) M.fail("typed:blocks", fmt("%s n=%zu", name, t.n)); for (int j = 0; j < 16; ++j) if (((uint8_t *)(p + t.n))[j] != 0x5a) { M.fail("typed:stray-write", "blocks"); break; } free(p); }
		else if (t.k == 1) { Guarded g(t.n, r.below(16), 2); if (r.coin()) b->recv_bool((bool *)g.p, t.n); else b->recv_bool_aligned((bool *)g.p, t.n); if (t.n && memcmp(g.p, t.v.data(), t.n)) M.fail("typed:bool-value", fmt("%s n=%zu", name, t.n)); if (!g.intact()) M.fail("typed:stray-write", "bools"); }
		else if (t.k == 2) { std::vector<emp::Point> p(t.n); if (t.n == 1 && t.v[0] & 1) b->recv_pt(G, p.data()); else b->recv_pt(G, p.data(), t.n); size_t o = 0; for (size_t j = 0; j < t.n; ++j) { std::string s(p[j].size(), 0); p[j].to_bin((unsigned char *)&s[0], s.size()); if (s.size() != t.v[o] || memcmp(s.data(), &t.v[o + 1], s.size())) M.fail("typed:points", fmt("%s point %zu of %zu", name, j, t.n)); o += 1 + t.v[o]; } M.count("points", t.n); }
		else { std::vector<uint8_t> g(t.n + 1, 9); b->recv_data(g.data(), t.n); if ((t.n && memcmp(g.data(), t.v.data(), t.n)) || g[t.n] != 9) M.fail("typed:raw", name); } M.count("mixed_items"); }
	M.eval(hash_bytes(name, strlen(name), r.u64()), ops); progress();
}
struct Sink : public emp::IOChannel<Sink> { // checks a periodic wire as it passes, or supplies one
	const uint8_t *per; size_t period; uint64_t wpos, rpos; uint64_t bad;
	Sink(const uint8_t *p, size_t n) : per(p), period(n), wpos(0), rpos(0), bad(~0ull) {}
	void send_data_internal(const void *d, size_t n) { const uint8_t *q = (const uint8_t *)d; while (n) { size_t o = wpos % period, c = std::min(n, period - o); if (c == 1 ? *q != per[o] : memcmp(q, per + o, c) != 0) if (bad == ~0ull) bad = wpos; q += c; wpos += c; n -= c; } if (!(wpos & 0xffffff)) progress(); }
	void recv_data_internal(void *d, size_t n) { uint8_t *q = (uint8_t *)d; while (n) { size_t o = rpos % period, c = std::min(n, period - o); if (c == 1) *q = per[o]; else memcpy(q, per + o, c); q += c; rpos += c; n -= c; } if (!(rpos & 0xffffff)) progress(); }
	void flush() {}
};
static void part_huge() { // arrays whose length does not fit 31 bits
	Rng r = M.rng(77); { size_t n = (1ull << 27) + 5; Window src(n * 16, M.seed, true), dst(n * 16, 0, false); if (src.ok && dst.ok) { ctx("%zu blocks", n); Sink c(src.p, Window::W); c.send_block((const block *)src.p, n); if (c.wpos != n * 16 || c.bad != ~0ull || c.counter != n * 16) M.fail("typed:huge-blocks", fmt("%zu blocks: %llu bytes on the wire, %llu counted, first wrong byte at %lld", n, (unsigned long long)c.wpos, (unsigned long long)c.counter, (long long)c.bad)); progress(); c.recv_block((block *)dst.p, n); if (c.rpos != n * 16 || dst.differs(src) >= 0) M.fail("typed:huge-blocks", fmt("receive of %zu blocks", n)); M.eval(n); M.count("huge_arrays"); } else M.count("huge_unavailable"); }
	{ size_t n = (1ull << 31) + 8 * 1001; Window src(n, M.seed, false), dst(n, 0, false); if (src.ok && dst.ok) { for (size_t i = 0; i < Window::W; ++i) src.p[i] = r.coin(); std::vector<uint8_t> per = ref_bits(src.p, Window::W); ctx("%zu bools", n); Sink c(per.data(), per.size()); if (M.seed & 1) c.send_bool((bool *)src.p, n); else c.send_bool_aligned((const bool *)src.p, n); if (c.wpos != n / 8 || c.bad != ~0ull || c.counter != n / 8) M.fail("typed:huge-bools", fmt("%zu bools: %llu bytes on the wire, %llu counted, first wrong byte at %lld", n, (unsigned long long)c.wpos, (unsigned long long)c.counter, (long long)c.bad)); if (M.seed & 2) c.recv_bool((bool *)dst.p, n); else c.recv_bool_aligned((bool *)dst.p, n); if (c.rpos != n / 8 || dst.differs(src) >= 0) M.fail("typed:huge-bools", fmt("receive of %zu bools", n)); M.eval(n); M.count("huge_arrays"); } else M.count("huge_unavailable"); }
}
static void part_typed() {
	Rng r = M.rng(4);
	for (size_t n = 0; n <= 130; ++n) { for (size_t as = 0; as < 8; ++as) for (size_t ad = 0; ad < 8; ++ad) { bool_case(r, n, as, ad, 0, (n + as) & 1, (n + ad + as) & 2); } bool_case(r, n, r.below(8), r.below(8), 1, 0, 0); bool_case(r, n, r.below(8), r.below(8), 2, 1, 0); for (size_t j = 0; j < n && j < 16; ++j) bool_case(r, n, r.below(8), r.below(8), 3 + (int)r.below(n), r.coin(), r.coin()); progress(); }
	for (size_t i = 0; i < M.n(300); ++i) { bool_case(r, r.below(r.coin(4) ? 40000 : 1000), r.below(16), r.below(16), 0, r.coin(), r.coin()); if (i % 16 == 0) progress(); }
	emp::Group G;
	for (size_t i = 0; i < M.n(40); ++i) { Rec ch; mixed(r, &ch, &ch, &G, "recording", 12, false, [] {}); emp::MemIO m(r.below(100)); mixed(r, &m, &m, &G, "MemIO", 12, false, [] {}); std::string f = M.tmp + "/t.bin"; { emp::FileIO x(f.c_str(), false); mixed(r, &x, &x, &G, "FileIO", 12, false, [&] { x.reset(); }); } unlink(f.c_str()); }
	// over sockets (all items are sent, then received: well below the socket buffers)
	for (size_t i = 0; i < M.n(4); ++i) { int port = pick_port(); emp::NetIO *a = 0, *b = 0; std::thread t([&] { a = new emp::NetIO(nullptr, port, true); }); b = new emp::NetIO("127.0.0.1", port, true); t.join(); mixed(r, a, b, &G, "NetIO", 10, false, [&] { a->flush(); }); mixed(r, b, a, &G, "NetIO", 10, false, [&] { b->flush(); }); delete a; delete b;
		int p1 = pick_port(), p2; do p2 = pick_port(); while (p1 == p2); emp::HighSpeedNetIO *x = 0, *y = 0; std::thread u([&] { x = new emp::HighSpeedNetIO(nullptr, p1, p2); }); y = new emp::HighSpeedNetIO("127.0.0.1", p1, p2); u.join(); mixed(r, x, y, &G, "HighSpeedNetIO", 10, false, [&] { x->flush(); }); x->flush(); y->flush(); mixed(r, y, x, &G, "HighSpeedNetIO", 10, false, [&] { y->flush(); }); delete x; delete y; }
	// encodings that are no points
	emp::Point gen = G.get_generator(); std::string ge(gen.size(), 0); gen.to_bin((unsigned char *)&ge[0], ge.size());
	std::vector<std::string> bad; { std::string e = ge; e[40] ^= 1; bad.push_back(e); bad.push_back(ge.substr(0, 64)); bad.push_back(ge + "x"); bad.push_back(""); e = ge; e[0] = 9; bad.push_back(e); bad.push_back(std::string(2048, 4)); bad.push_back(std::string(5000, 1)); }
	for (size_t i = 0; i < M.n(6); ++i) { std::string e = ge; e[1 + r.below(64)] ^= 1 << r.below(8); bad.push_back(e); }
	for (auto &e : bad) { ctx("malformed point of %zu bytes", e.size()); int st = in_child([&] { alarm(30); emp::Group H; Rec ch; uint32_t len = e.size(); ch.send_data(&len, 4); ch.send_data(e.data(), len); emp::Point p[2]; ch.recv_pt(&H, p, 1); _exit(0); }, 60); if (st == 0) M.fail("typed:bad-point-accepted", hex(e.data(), e.size(), 70)); if (st == -1) M.fail("typed:bad-point-hang", ""); M.eval(hash_bytes(e.data(), e.size())); M.count("bad_points"); progress(); }
	M.sample("bool arrays: every length 0..130 x 8 sender x 8 receiver alignments, aligned/general calls crossed");
}
#endif
int main(int argc, char **argv) {
	init(argc, argv); start_watchdog(60);
#ifdef P_MEM
	if (M.part == "huge") { part_huge(); return done(); }
	part_mem();
#endif
#ifdef P_TYPED
	if (M.part == "huge") { part_huge(); return done(); }
	part_typed();
#endif
	return done();
}
