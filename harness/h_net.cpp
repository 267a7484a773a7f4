// C01 NetIO, C02 HighSpeedNetIO: scripts executed by both ends, FIFO/exactly-once monitors.
#include "netutil.h"
#include "emp-tool/emp-tool.h"
using namespace vf;

static size_t odd_size(Rng &r, int cls) {
	switch (cls) {
	case 0: return 1 + r.below(16);
	case 1: return 1 + r.below(300);
	case 2: return 1 + r.below(70000);
	case 3: { size_t b[] = {16384, 32768, 65536, 1048576}; return b[r.below(4)] - 2 + r.below(5); }
	default: return 1 + r.below(3500000);
	}
}
struct Gate { // out-of-band rendezvous of the two parties
	std::mutex m; std::condition_variable c; int n = 0; uint64_t gen = 0;
	void wait() { std::unique_lock<std::mutex> l(m); uint64_t g = gen; if (++n == 2) { n = 0; ++gen; c.notify_all(); } else c.wait(l, [&] { return gen != g; }); }
};
struct Flag { std::mutex m; std::condition_variable c; bool f = false; void set() { std::lock_guard<std::mutex> l(m); f = true; c.notify_all(); } void wait() { std::unique_lock<std::mutex> l(m); c.wait(l, [&] { return f; }); } bool get() { std::lock_guard<std::mutex> l(m); return f; } };

enum Kind { SEND, RECV, FLUSH, SYNC, GATE, NODELAY, WAITFOR, SIGNAL, ZSEND, ZRECV, LULL };
struct Op { Kind k; size_t n; int flag; };
static std::string show(const std::vector<Op> &v) { std::string s; static const char *nm[] = {"send", "recv", "flush", "sync", "gate", "nodelay", "wait", "signal", "send0", "recv0", "pause"}; for (size_t i = 0; i < v.size() && i < 24; ++i) s += fmt("%s%s%zu ", nm[v[i].k], v[i].k <= RECV ? " " : "#", v[i].n); return s; }

#ifdef P_NETIO
struct Session { std::vector<Op> ops[2]; uint64_t key; int nflags = 0; };
// Projections of one global order: a receive only asks for bytes sent earlier in that order, so no
// correct channel can block for ever; at most one direction holds a large backlog at a time.
static Session make_session(Rng &r, bool big) {
	Session s; s.key = r.u64(); uint64_t fl[2] = {0, 0}; // in flight from party p
	size_t steps = 10 + r.below(big ? 40 : 120); uint64_t total = 0, cap = big ? 24u << 20 : 1u << 20; const uint64_t small = 60000;
	auto drain = [&](int q, bool all) { // party q receives
		uint64_t avail = fl[1 - q];
		while (avail) { size_t n = r.coin(3) ? avail : odd_size(r, r.below(big ? 5 : 3)); if (n > avail) n = avail; s.ops[q].push_back({RECV, n, 0}); avail -= n; fl[1 - q] -= n; if (!all && r.coin()) break; }
	};
	for (size_t i = 0; i < steps; ++i) {
		int p = r.below(2); int w = r.below(21);
		if (w < 8) {
			size_t n = odd_size(r, r.below(big ? 5 : 3)); if (total > cap) n = 1 + r.below(100);
			if (fl[p] + n > small && fl[1 - p] > small) drain(p, true);
			if (fl[p] + n > small && fl[1 - p] > small) continue;
			s.ops[p].push_back({SEND, n, 0}); fl[p] += n; total += n;
		} else if (w < 15) drain(p, r.coin(3));
		else if (w == 15) s.ops[p].push_back({FLUSH, 0, 0});
		else if (w == 16) { drain(0, true); drain(1, true); s.nflags += s.nflags & 1; s.ops[0].push_back({SYNC, i, s.nflags}); s.ops[1].push_back({SYNC, i, s.nflags + 1}); s.nflags += 2; if (r.coin()) { s.ops[0].push_back({GATE, 0, 0}); s.ops[1].push_back({GATE, 0, 0}); } }
		else if (w == 17) { // flush alone must deliver: the sender then waits out of band until the peer has everything
			if (fl[p] == 0) { size_t n = 1 + r.below(5000); s.ops[p].push_back({SEND, n, 0}); fl[p] += n; }
			s.ops[p].push_back({FLUSH, 0, 0}); drain(1 - p, true); s.ops[1 - p].push_back({SIGNAL, 0, s.nflags}); s.ops[p].push_back({WAITFOR, 0, s.nflags}); s.nflags++;
		} else if (w == 20) { // what was sent before a receive must be delivered by that receive, also when it is served from data read ahead (or asks for nothing)
			drain(p, true); int q = 1 - p; size_t a = 2 + r.below(3000), b = r.coin(4) ? a : 1 + r.below(a - 1), m = 1 + r.below(4000); s.ops[q].push_back({SEND, a, 0}); s.ops[q].push_back({FLUSH, 0, 0});
			if (r.coin()) s.ops[p].push_back({LULL, r.below(2000), 0}); s.ops[p].push_back({RECV, b, 0}); s.ops[p].push_back({SEND, m, 0}); if (b < a) s.ops[p].push_back({RECV, a - b, 0}); else s.ops[p].push_back({ZRECV, 0, 0});
			fl[p] += m; total += a + m; drain(q, true); s.ops[q].push_back({SIGNAL, 0, s.nflags}); s.ops[p].push_back({WAITFOR, 0, s.nflags}); s.nflags++;
		} else if (w == 18) s.ops[p].push_back({r.coin() ? ZSEND : ZRECV, 0, 0});
		else if (r.coin()) s.ops[p].push_back({NODELAY, r.below(2), 0}); else s.ops[p].push_back({LULL, r.below(3000), 0});
	}
	// ending: drain all but possibly one direction, whose receiver reads after the sender has closed
	int last = r.below(2); drain(last, true);
	if (r.coin(3)) { size_t n = odd_size(r, r.below(big ? 5 : 3)); if (fl[last] + n < (fl[last] > small ? fl[last] + 1 : 4000000)) { s.ops[last].push_back({SEND, n, 0}); fl[last] += n; } }
	if (fl[last] && fl[last] < small) { s.ops[last].push_back({SIGNAL, 1, s.nflags}); s.ops[1 - last].push_back({FLUSH, 0, 0}); s.ops[1 - last].push_back({WAITFOR, 1, s.nflags}); s.nflags++; } // n==1: fired after destruction
	drain(1 - last, true);
	return s;
}
static void play(emp::NetIO *io, int p, Session &s, std::vector<Flag> &flags, Gate &gate, Rng r, std::vector<int> &after) {
	uint64_t spos = 0, rpos = 0; Stream out(s.key + p), in(s.key + 1 - p); std::vector<uint8_t> buf;
	for (size_t i = 0; i < s.ops[p].size(); ++i) {
		Op &o = s.ops[p][i];
		switch (o.k) {
		case SEND: buf.resize(o.n); out.fill(buf.data(), spos, o.n); if (o.n % 16 == 0 && r.coin()) { emp::block *b = (emp::block *)aligned_alloc(16, o.n); memcpy(b, buf.data(), o.n); io->send_block(b, o.n / 16); free(b); } else io->send_data(buf.data(), o.n); spos += o.n; memset(buf.data(), 0x55, o.n);
			if (io->counter != spos) M.fail("netio:counter", fmt("party %d after %llu bytes: %llu", p, (unsigned long long)spos, (unsigned long long)io->counter)); M.count("sends"); break;
		case RECV: { Guarded g(o.n, r.below(16), s.key + i); if (o.n % 16 == 0 && r.coin()) { emp::block *b = (emp::block *)aligned_alloc(16, o.n); io->recv_block(b, o.n / 16); memcpy(g.p, b, o.n); free(b); } else io->recv_data(g.p, o.n); int64_t d = in.check(g.p, rpos, o.n);
			if (d >= 0) M.fail("netio:stream", fmt("party %d (%s) received a wrong byte at stream offset %llu (call %zu of %zu bytes)", p, p ? "client" : "server", (unsigned long long)(rpos + d), i, o.n));
			if (!g.intact()) M.fail("netio:stray-write", fmt("recv of %zu bytes", o.n)); rpos += o.n; M.count("receives"); M.count("bytes_checked", o.n); break; }
		case FLUSH: io->flush(); M.count("flushes"); break;
		case SYNC: flags[o.flag].set(); io->sync(); if (!flags[o.flag ^ 1].get()) M.fail("netio:sync-not-mutual", fmt("party %d returned from sync before the other entered it", p)); M.count("syncs"); break;
		case GATE: gate.wait(); break;
		case NODELAY: if (o.n) io->set_nodelay(); else io->set_delay(); break;
		case SIGNAL: if (o.n) after.push_back(o.flag); else flags[o.flag].set(); break;
		case WAITFOR: flags[o.flag].wait(); break;
		case ZSEND: { uint8_t c; io->send_data(&c, 0); break; }
		case ZRECV: { uint8_t c = 9; io->recv_data(&c, 0); if (c != 9) M.fail("netio:stray-write", "zero-length receive"); break; }
		case LULL: usleep(o.n); break;
		}
		progress();
	}
}
static void part_netio() {
	Rng r = M.rng(1); ProxyStats st;
	for (size_t it = 0; it < M.n(40); ++it) {
		bool big = r.coin(4); Session s = make_session(r, big); int mode = (int)r.below(5) - 1; if (big && mode == 1) mode = 3;
		ctx("netio session %zu proxy=%d server: %s | client: %s", it, mode, show(s.ops[0]).c_str(), show(s.ops[1]).c_str());
		int port = pick_port(), cport = port; std::unique_ptr<Proxy> px; if (mode >= 0) { cport = pick_port(); px.reset(new Proxy(cport, port, r.u64(), mode, &st)); }
		std::vector<Flag> flags(s.nflags + 1); Gate gate; uint64_t k[2] = {r.u64(), r.u64()}; bool late = r.coin();
		std::thread t[2];
		for (int p = 0; p < 2; ++p) t[p] = std::thread([&, p] {
			if (p == 0 && late) usleep(3000); std::vector<int> after;
			{ emp::NetIO io(p == 0 ? nullptr : "127.0.0.1", p == 0 ? port : cport, true); play(&io, p, s, flags, gate, Rng(k[p]), after); }
			for (int f : after) { flags[f].set(); M.count("read_after_peer_closed"); }
			progress();
		});
		t[0].join(); t[1].join(); px.reset();
		M.eval(hash_bytes(&s.key, 8), s.ops[0].size() + s.ops[1].size()); M.count("sessions"); if (it < 2) M.sample(g_ctx);
	}
	M.count("proxy_segments", st.segments); M.count("proxy_delays", st.delays);
}
#endif

// one message of more bytes than an int (or, thorough, 32 bits) can count, between two small ones
template <class A, class B> static void huge_message(A *snd, B *rcv, const char *name, size_t n, uint64_t key, const std::function<void()> &turn) {
	Window src(n, key, true), dst(n, key, false); if (!src.ok || !dst.ok) { M.count("huge_unavailable"); return; }
	ctx("%s: one message of %zu bytes between small ones, twice", name, n); uint8_t a[1000], b[1000], x[1000], y[1000]; Rng(key + 1).bytes(a, 1000); Rng(key + 2).bytes(b, 1000); uint64_t c0 = snd->counter; std::atomic<bool> over(false);
	std::thread tick([&] { uint64_t last = 0; while (!over) { usleep(200000); uint64_t h = hash_bytes(dst.p, Window::W); if (h != last || over) progress(); last = h; } });
	std::thread t([&] { snd->send_data(a, 1000); snd->send_data(src.p, n); snd->send_data(b, 1000); snd->send_data(src.p, n); snd->send_data(a, 1000); snd->flush(); });
	rcv->recv_data(x, 1000); rcv->recv_data(dst.p, n); rcv->recv_data(y, 1000); bool same = !memcmp(a, x, 1000) && !memcmp(b, y, 1000) && dst.differs(src) < 0; memset(dst.p, 0, Window::W); rcv->recv_data(dst.p, n); rcv->recv_data(x, 1000); turn(); t.join(); over = true; tick.join(); progress();
	if (snd->counter - c0 != 2 * n + 3000) M.fail("net:huge-counter", fmt("%s: %llu counted for %zu", name, (unsigned long long)(snd->counter - c0), 2 * n + 3000));
	if (!same || memcmp(a, x, 1000) || memcmp(b, y, 1000)) M.fail("net:huge-neighbour", fmt("%s: the message before or after one of %zu bytes arrives changed", name, n));
	int64_t d = dst.differs(src); if (d >= 0) M.fail("net:huge-message", fmt("%s: content of a message of %zu bytes (offset %lld modulo 2^20)", name, n, (long long)d));
	M.eval(hash_bytes(name, strlen(name), n)); M.count("huge_messages", 2); M.count("huge_bytes", 2 * n);
}
#ifdef P_NETIO
static void part_huge() {
	std::vector<size_t> v = {(1ull << 31) + 77777}; if (M.thorough) v.push_back((1ull << 32) + 99991);
	for (size_t n : v) for (int dir = 0; dir < (M.thorough ? 2 : 1); ++dir) { int port = pick_port(); emp::NetIO *a = 0, *b = 0; std::thread t([&] { a = new emp::NetIO(nullptr, port, true); }); b = new emp::NetIO("127.0.0.1", port, true); t.join(); huge_message(dir ? b : a, dir ? a : b, "NetIO", n, M.seed * 31 + dir, [] {}); delete a; delete b; }
}
#endif
#ifdef P_HSIO
static void part_huge() {
	std::vector<size_t> v = {(1ull << 31) + 77777}; if (M.thorough) v.push_back((1ull << 32) + 99991);
	for (size_t n : v) for (int dir = 0; dir < (M.thorough ? 2 : 1); ++dir) { int p1 = pick_port(), p2; do p2 = pick_port(); while (p1 == p2); emp::HighSpeedNetIO *a = 0, *b = 0; std::thread t([&] { a = new emp::HighSpeedNetIO(nullptr, p1, p2); }); b = new emp::HighSpeedNetIO("127.0.0.1", p1, p2); t.join(); huge_message(dir ? b : a, dir ? a : b, "HighSpeedNetIO", n, M.seed * 37 + dir, [&] { (dir ? a : b)->flush(); }); delete a; delete b; }
}
struct Turn { int p; std::vector<size_t> snd, rcv; int flushes; };
static void part_hsio() {
	Rng r = M.rng(2); ProxyStats st;
	for (size_t it = 0; it < M.n(30); ++it) {
		std::vector<Turn> turns; int p = r.below(2); bool big = r.coin(3); size_t nt = 1 + r.below(25); std::string d; uint64_t total = 0;
		for (size_t i = 0; i < nt; ++i) {
			Turn t; t.p = p; uint64_t bytes = 0; size_t calls = 1 + r.below(12); int style = r.below(4);
			for (size_t c = 0; c < calls; ++c) {
				size_t n = style == 3 ? 32768 - 3 + r.below(7) : odd_size(r, r.below(big && total < (10u << 20) ? 5 : 3));
				if (style == 1) { size_t room = 32768 - bytes % 32768; n = r.coin() ? room : room > 1 && r.coin() ? room - 1 : room + 1; } // meet frame boundaries
				if (r.coin(8)) t.snd.push_back(0); // empty messages are messages too
				t.snd.push_back(n); bytes += n;
			}
			if (r.coin(12)) { t.snd.assign(1 + r.below(2), 0); bytes = 0; t.rcv.push_back(0); } // a turn without bytes still turns the channel
			if (r.coin(8)) t.rcv.push_back(0);
			total += bytes; uint64_t left = bytes; bool same = r.coin(3); size_t k = 0;
			while (left) { size_t n = same && k < t.snd.size() ? t.snd[k++] : r.coin(4) ? left : odd_size(r, r.below(big ? 5 : 3)); if (r.coin(6)) n = 32768 - 1 + r.below(3); if (n > left) n = left; if (r.coin(10)) t.rcv.push_back(0); t.rcv.push_back(n); left -= n; }
			t.flushes = r.coin(3) ? 1 + r.below(2) : 0;
			turns.push_back(t); if (i < 8) d += fmt("%s%zu calls %llu bytes%s; ", p ? "C>S " : "S>C ", calls, (unsigned long long)bytes, t.flushes ? " flush" : "");
			if (t.flushes && r.coin(3)) {} else p = 1 - p; // a matched flush may also separate two turns of one party
		}
		int mode = (int)r.below(5) - 1; if (mode == 1) mode = 2; uint64_t key = r.u64();
		ctx("hsio session %zu proxy=%d %s", it, mode, d.c_str());
		int p1 = pick_port(), p2 = pick_port(); while (p2 == p1) p2 = pick_port(); int c1 = p1, c2 = p2; std::unique_ptr<Proxy> x1, x2;
		if (mode >= 0) { do c1 = pick_port(); while (c1 == p1 || c1 == p2); do c2 = pick_port(); while (c2 == p1 || c2 == p2 || c2 == c1); x1.reset(new Proxy(c1, p1, r.u64(), mode, &st)); x2.reset(new Proxy(c2, p2, r.u64(), mode, &st)); }
		std::thread th[2]; bool initflush = r.coin(5);
		for (int me = 0; me < 2; ++me) th[me] = std::thread([&, me] {
			uint64_t spos = 0, rpos = 0; Stream out(key + me), in(key + 1 - me); std::vector<uint8_t> buf; Rng q(key + 5 + me);
			emp::HighSpeedNetIO io(me == 0 ? nullptr : "127.0.0.1", me == 0 ? p1 : c1, me == 0 ? p2 : c2);
			if (initflush) io.flush();
			for (auto &t : turns) {
				if (t.p == me) for (size_t n : t.snd) { buf.resize(n + 1); out.fill(buf.data(), spos, n); io.send_data(buf.data(), n); memset(buf.data(), 0x77, n); if (!n) M.count("empty_messages"); spos += n; if (io.counter != spos) M.fail("hsio:counter", fmt("%llu for %llu", (unsigned long long)io.counter, (unsigned long long)spos)); M.count("sends"); progress(); }
				else for (size_t n : t.rcv) { Guarded g(n, q.below(16), key); io.recv_data(g.p, n); int64_t df = in.check(g.p, rpos, n); if (df >= 0) M.fail("hsio:stream", fmt("%s received a wrong byte at stream offset %llu in a call of %zu bytes: %s", me ? "client" : "server", (unsigned long long)(rpos + df), n, g_ctx)); if (!g.intact()) M.fail("hsio:stray-write", fmt("%zu", n)); rpos += n; M.count("receives"); M.count("bytes_checked", n); progress(); }
				for (int f = 0; f < t.flushes; ++f) { io.flush(); M.count("flushes"); }
				if (q.coin(20)) usleep(q.below(2000));
				if (q.coin(9)) io.sync();
			}
		});
		th[0].join(); th[1].join(); x1.reset(); x2.reset();
		M.eval(hash_bytes(&key, 8), turns.size()); M.count("sessions"); M.count("turns", turns.size()); if (it < 2) M.sample(g_ctx);
	}
	M.count("proxy_segments", st.segments); M.count("proxy_delays", st.delays);
}
#endif

int main(int argc, char **argv) {
	init(argc, argv); signal(SIGPIPE, SIG_IGN); start_watchdog(40);
	if (M.part == "huge") { part_huge(); return done(); }
#ifdef P_NETIO
	part_netio();
#endif
#ifdef P_HSIO
	part_hsio();
#endif
	return done();
}
