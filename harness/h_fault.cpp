// C05: peers that vanish, files that end, descriptors, ports.
#include "netutil.h"
#include <dlfcn.h>
// interposed before the library is included: a close of a descriptor that is not open is recorded
static std::atomic<int> g_ebadf(0);
static std::atomic<uint64_t> g_closes(0);
extern "C" int close(int fd) {
	typedef int (*F)(int); static F real = (F)dlsym(RTLD_NEXT, "close");
	g_closes++; int r = real(fd); if (r < 0 && errno == EBADF) g_ebadf++; return r;
}
extern "C" int fclose(FILE *f) {
	typedef int (*F)(FILE *); static F real = (F)dlsym(RTLD_NEXT, "fclose");
	g_closes++; errno = 0; int r = real(f); if (r != 0 && errno == EBADF) g_ebadf++; return r;
}
#include "emp-tool/emp-tool.h"
using namespace vf;
typedef std::vector<uint8_t> Bytes;
static Bytes stream_bytes(uint64_t key, size_t n) { Bytes b(n); Stream(key).fill(b.data(), 0, n); return b; }
static void write_all(int fd, const uint8_t *p, size_t n) { while (n) { ssize_t w = ::send(fd, p, n, MSG_NOSIGNAL); if (w <= 0) return; p += w; n -= w; } }

struct Outcome { int st; std::string log; };
// The survivor runs in a child; what it observed comes back over a pipe.
static Outcome survivor(const std::function<void(int)> &f, int limit = 60) {
	int pfd[2]; if (pipe(pfd)) _exit(70);
	Outcome o; fflush(stdout); fflush(stderr);
	o.st = in_child([&] { close(pfd[0]); f(pfd[1]); char c = 'R'; ssize_t w = write(pfd[1], &c, 1); (void)w; _exit(0); }, limit);
	close(pfd[1]); char b[64]; ssize_t n; while ((n = read(pfd[0], b, 64)) > 0) o.log.append(b, n); close(pfd[0]); return o;
}
static bool failed_visibly(int st) {
	if (st != -1 && WIFEXITED(st) && WEXITSTATUS(st) == 99) { M.fail("sanitizer-report-in-child", g_ctx); return true; }
	 return st != -1 && (WIFSIGNALED(st) ? (WTERMSIG(st) != SIGALRM) : WEXITSTATUS(st) != 0); }
enum Death { FIN, RST, KILL };
static const char *dname[] = {"close", "reset", "kill"};
// peer process: accepts (or connects) raw, sends k bytes, dies
static pid_t raw_peer(const std::vector<int> &ports, bool peer_listens, int data_idx, const Bytes &data, size_t k, Death how, int read_first) {
	std::vector<int> ls; if (peer_listens) for (int p : ports) ls.push_back(listen_on(p));
	fflush(stdout); fflush(stderr);
	pid_t pid = safe_fork();
	if (pid == 0) {
		signal(SIGPIPE, SIG_IGN); alarm(100); std::vector<int> s;
		for (size_t i = 0; i < ports.size(); ++i) { int c = peer_listens ? accept(ls[i], 0, 0) : connect_to(ports[i]); s.push_back(c); }
		if (read_first) { char b[4096]; int got = 0; while (got < read_first) { ssize_t n = recv(s[ports.size() - 1 - data_idx], b, sizeof b, 0); if (n <= 0) break; got += n; } }
		write_all(s[data_idx], data.data(), k);
		usleep(2000);
		if (how == RST) for (int c : s) { struct linger l; l.l_onoff = 1; l.l_linger = 0; setsockopt(c, SOL_SOCKET, SO_LINGER, &l, sizeof l); }
		if (how == KILL) kill(getpid(), SIGKILL);
		for (int c : s) close(c);
		_exit(0);
	}
	for (int l : ls) close(l);
	return pid;
}
static void reap(pid_t p) { kill(p, SIGKILL); int st; waitpid(p, &st, 0); }

static void netio_case(Rng &r, bool server, size_t k, size_t n, Death how, const std::vector<size_t> &calls) {
	int port = pick_port(); Bytes data = stream_bytes(7, n + 1); uint64_t desc = mix64(k * 131 + n * 7 + how * 3 + server);
	ctx("NetIO %s survivor, peer sends %zu of %zu bytes then %s", server ? "server" : "client", k, n, dname[how]);
	pid_t peer = raw_peer({port}, !server, 0, data, k, how, 0);
	Outcome o = survivor([&](int w) {
		alarm(45); emp::NetIO io(server ? nullptr : "127.0.0.1", port, true); size_t pos = 0;
		for (size_t c : calls) { Bytes b(c); io.recv_data(b.data(), c); bool ok = pos + c <= k && Stream(7).check(b.data(), pos, c) < 0; char m = ok ? 'g' : 'B'; ssize_t q = write(w, &m, 1); (void)q; pos += c; }
	});
	reap(peer); std::string d = g_ctx;
	if (o.st == -1 || (WIFSIGNALED(o.st) && WTERMSIG(o.st) == SIGALRM)) M.fail("netio:recv-waits-forever", d);
	else if (o.log.find('B') != std::string::npos || o.log.find('R') != std::string::npos) M.fail("netio:recv-invents-bytes", d + " log=" + o.log);
	else if (!failed_visibly(o.st)) M.fail("netio:lost-peer-exit-status", d + fmt(" status=%d", o.st));
	// everything that arrived before the failure and was asked for must have been delivered (a reset may discard it)
	if (how == FIN) { size_t pos = 0, good = 0; for (size_t c : calls) { pos += c; if (pos <= k) ++good; } size_t got = std::count(o.log.begin(), o.log.end(), 'g'); if (got != good) M.fail("netio:arrived-data-not-delivered", d + fmt(" %zu of %zu calls", got, good)); }
	M.eval(desc); M.count("lost_peer_receives"); progress();
}
static void hsio_case(Rng &r, bool server, size_t k, size_t n, Death how) {
	int p1 = pick_port(), p2; do p2 = pick_port(); while (p2 == p1); Bytes data = stream_bytes(9, k);
	ctx("HighSpeedNetIO %s survivor, peer sends %zu bytes, %zu asked, then %s", server ? "server" : "client", k, n, dname[how]);
	// server: recv on the first port; client: recv on the second
	pid_t peer = raw_peer({p1, p2}, !server, server ? 0 : 1, data, k, how, 0);
	Outcome o = survivor([&](int w) { alarm(45); emp::HighSpeedNetIO io(server ? nullptr : "127.0.0.1", p1, p2); Bytes b(n); io.recv_data(b.data(), n); });
	reap(peer); std::string d = g_ctx;
	if (o.st == -1 || (WIFSIGNALED(o.st) && WTERMSIG(o.st) == SIGALRM)) M.fail("hsio:recv-waits-forever", d);
	else if (o.log.find('R') != std::string::npos) M.fail("hsio:recv-invents-bytes", d);
	else if (!failed_visibly(o.st)) M.fail("hsio:lost-peer-exit-status", d + fmt(" status=%d", o.st));
	M.eval(mix64(k * 31 + n + how * 5 + server)); M.count("lost_peer_receives"); progress();
}
template <class MK> static void send_case(const char *name, MK mk, const std::vector<int> &ports, bool server, Death how, bool ign, int read_first, size_t chunk, bool flushes) {
	ctx("%s %s sends to a vanished peer (%s) chunk=%zu sigpipe %s flush=%d", name, server ? "server" : "client", dname[how], chunk, ign ? "ignored" : "default", flushes);
	pid_t peer = raw_peer(ports, !server, 0, Bytes(), 0, how, 0);
	Outcome o = survivor([&](int w) { alarm(45); signal(SIGPIPE, ign ? SIG_IGN : SIG_DFL); mk(chunk, flushes); });
	reap(peer); std::string d = g_ctx;
	if (o.st == -1 || (WIFSIGNALED(o.st) && WTERMSIG(o.st) == SIGALRM)) M.fail(std::string(name) + ":send-waits-forever", d);
	else if (!failed_visibly(o.st)) M.fail(std::string(name) + ":send-to-vanished-peer-succeeds", d + fmt(" status=%d", o.st));
	M.eval(hash_bytes(d.data(), d.size())); M.count("lost_peer_sends"); progress();
}
static void part_peers() {
	Rng r = M.rng(51); std::vector<size_t> ks = {0, 1, 15, 16, 4095, 4096, 70000};
	std::vector<std::pair<size_t, size_t>> kn; for (size_t k : ks) { kn.push_back({k, k + 1}); kn.push_back({k, k + 16}); } kn.push_back({1048576, 1048577}); kn.push_back({1048575, 2000000}); kn.push_back({5, 3000000});
	size_t extra = M.n(10); for (size_t i = 0; i < extra; ++i) { size_t k = r.below(200000); kn.push_back({k, k + 1 + r.below(5000)}); }
	for (size_t i = 0; i < kn.size(); ++i) {
		bool sv = (i + M.shard) & 1; Death how = (Death)(M.thorough ? r.below(3) : (i / 2 + M.shard) % 3); size_t k = kn[i].first, n = kn[i].second; std::vector<size_t> calls; size_t pos = 0;
		if (r.coin() && k) { size_t c = 1 + r.below(k); calls.push_back(c); pos = c; if (r.coin() && pos < k) { c = 1 + r.below(k - pos); calls.push_back(c); pos += c; } if (r.coin() && pos < k) { calls.push_back(k - pos); pos = k; } }
		calls.push_back(n - pos); netio_case(r, sv, k, n, how, calls);
	}
	std::vector<std::pair<size_t, size_t>> hk = {{0, 1}, {1, 1}, {32767, 10}, {32768, 32769}, {40000, 32769}, {65535, 65536}, {65536, 65537}, {100, 3000000}, {1048576, 1048577}}; for (size_t i = 0; i < extra / 3; ++i) { size_t k = r.below(200000); hk.push_back({k, k / 32768 * 32768 + 1 + r.below(90000)}); }
	for (size_t i = 0; i < hk.size(); ++i) hsio_case(r, (i + M.shard) & 1, hk[i].first, hk[i].second, (Death)((i + M.shard) % 3));
	for (int i = 0; i < 12; ++i) {
		bool sv = i & 1; Death how = (Death)(i % 3); bool ign = false; bool fl = (i / 2) & 1; size_t chunk = i % 4 == 0 ? 100 : i % 4 == 1 ? 40000 : 1500000;
		int p = pick_port();
		send_case("netio", [&](size_t c, bool fl2) { emp::NetIO io(sv ? nullptr : "127.0.0.1", p, true); Bytes b(c, 3); for (size_t t = 0; t < (96u << 20); t += c) { io.send_data(b.data(), c); if (fl2 && (c > 1000 || t % 10000 == 0)) { io.flush(); } } }, {p}, sv, how, ign, 0, chunk, fl);
		int a = pick_port(), b; do b = pick_port(); while (a == b);
		send_case("hsio", [&](size_t c, bool fl2) { emp::HighSpeedNetIO io(sv ? nullptr : "127.0.0.1", a, b); Bytes d(c, 3); for (size_t t = 0; t < (96u << 20); t += c) { io.send_data(d.data(), c); if (fl2 && c > 1000) io.flush(); } }, {a, b}, sv, how, ign, 0, chunk, fl);
	}
	M.sample("peer dies after k of n bytes (k around message, frame and buffer boundaries) by close, reset and SIGKILL, both ends");
}
static void part_files() {
	Rng r = M.rng(52); std::string f = M.tmp + "/trunc.bin";
	std::vector<size_t> sizes = {0, 1, 2, 15, 16, 17, 4096, 16383, 16384, 16385, 32768, 40000, 100000}; for (size_t i = 0; i < M.n(15); ++i) sizes.push_back(r.below(70000));
	for (size_t n : sizes) for (size_t over : {(size_t)1, (size_t)1 + r.below(20000)}) {
		Bytes data = stream_bytes(11, n); { FILE *h = ::fopen(f.c_str(), "wb"); if (n) fwrite(data.data(), 1, n, h); ::fclose(h); }
		size_t first = n ? r.below(n + 1) : 0; ctx("FileIO of %zu bytes: recv %zu then %zu", n, first, n - first + over); int how = r.below(3);
		Outcome o = survivor([&](int w) { alarm(40); emp::FileIO io(f.c_str(), true); Bytes b(n + over); if (first) { io.recv_data(b.data(), first); char m = Stream(11).check(b.data(), 0, first) < 0 ? 'g' : 'B'; ssize_t q = write(w, &m, 1); (void)q; }
			if (how == 0) { emp::MemIO m; m.load_from_file(&io, n - first + over); } else io.recv_data(b.data(), n - first + over); }, 60);
		std::string d = g_ctx; unlink(f.c_str());
		if (o.st == -1 || (WIFSIGNALED(o.st) && WTERMSIG(o.st) == SIGALRM)) M.fail("fileio:eof-waits-forever", d);
		else if (o.log.find('R') != std::string::npos || o.log.find('B') != std::string::npos) M.fail("fileio:eof-invents-bytes", d);
		else if (!failed_visibly(o.st)) M.fail("fileio:eof-exit-status", d);
		else if (first && o.log != "g") M.fail("fileio:available-bytes-not-delivered", d);
		M.eval(mix64(n * 77 + over)); M.count("truncated_files"); progress();
	}
	{ // a full device ends visibly
		ctx("FileIO writing to a full device"); Outcome o = survivor([&](int w) { alarm(40); emp::FileIO io("/dev/full", false); Bytes b(100000, 1); for (int i = 0; i < 100; ++i) io.send_data(b.data(), b.size()); }, 60);
		if (access("/dev/full", W_OK) == 0) { if (o.st == -1 || (WIFSIGNALED(o.st) && WTERMSIG(o.st) == SIGALRM)) M.fail("fileio:write-error-waits-forever", ""); else if (!failed_visibly(o.st)) M.fail("fileio:write-error-ignored", fmt("status %d", o.st)); M.eval(4711); }
	}
	M.sample("FileIO over files of 0..100000 bytes, asked for 1..20000 bytes beyond the end");
}
// In a child with no other threads: cycles of channels, table of descriptors compared.
static void table_audit(const char *name, const std::function<void(int)> &cycle, int cycles) {
	ctx("descriptor audit %s", name); int pfd[2]; if (pipe(pfd)) _exit(70);
	int st = in_child([&] {
		::close(pfd[0]); alarm(100); signal(SIGPIPE, SIG_IGN); std::vector<int> sentinels; for (int i = 0; i < 3; ++i) { int s[2]; if (pipe(s)) _exit(70); sentinels.push_back(s[0]); sentinels.push_back(s[1]); }
		cycle(0); // anything opened once for good (e.g. by stdio or the resolver) is not a leak
		auto a = fd_table(); int bad0 = g_ebadf; for (int i = 1; i <= cycles; ++i) cycle(i);
		auto b = fd_table(); std::string m;
		for (auto &e : a) { auto it = b.find(e.first); if (it == b.end() || it->second != e.second) m += fmt("closed-foreign fd %d (%s);", e.first, e.second.c_str()); }
		if (b.size() > a.size()) m += fmt("leaked %zu descriptors in %d cycles;", b.size() - a.size(), cycles);
		if (g_ebadf > bad0) m += fmt("closed %d descriptors twice;", (int)g_ebadf - bad0);
		if (m.size()) { ssize_t w = write(pfd[1], m.data(), m.size()); (void)w; _exit(3); } _exit(0);
	}, 200);
	::close(pfd[1]); std::string log; char b[256]; ssize_t n; while ((n = read(pfd[0], b, 256)) > 0) log.append(b, n); ::close(pfd[0]);
	if (log.size()) M.fail(std::string("fd-audit:") + name, log); else if (st != 0) M.fail(std::string("fd-audit-run:") + name, fmt("status %d", st));
	M.eval(hash_bytes(name, strlen(name))); M.count("fd_audit_cycles", cycles); progress();
}
static pid_t spawn(const std::function<void()> &f) { fflush(stdout); fflush(stderr); pid_t p = safe_fork(); if (p == 0) { alarm(80); f(); _exit(0); } return p; }
static void part_fds() {
	Rng r = M.rng(53); int cyc = (int)M.n(12); if (cyc < 3) cyc = 3;
	for (int sv = 0; sv < 2; ++sv) {
		table_audit(sv ? "netio-server" : "netio-client", [&](int i) {
			int port = pick_port(); pid_t q = spawn([&] { if (!sv && i % 2) usleep(15000); /* the client has to retry */ emp::NetIO io(sv ? "127.0.0.1" : nullptr, port, true); char c[100]; io.recv_data(c, 100); io.send_data(c, 50); });
			{ emp::NetIO io(sv ? nullptr : "127.0.0.1", port, true); char c[100] = {1}; io.send_data(c, 100); io.recv_data(c, 50); } int st; waitpid(q, &st, 0);
		}, cyc);
		table_audit(sv ? "hsio-server" : "hsio-client", [&](int i) {
			int a = pick_port(), b; do b = pick_port(); while (a == b);
			pid_t q = spawn([&] { if (!sv && i % 2) usleep(15000); emp::HighSpeedNetIO io(sv ? "127.0.0.1" : nullptr, a, b); char c[100]; io.recv_data(c, 100); io.send_data(c, 50); });
			{ emp::HighSpeedNetIO io(sv ? nullptr : "127.0.0.1", a, b, true); char c[100] = {1}; io.send_data(c, 100); io.recv_data(c, 50); } int st; waitpid(q, &st, 0);
		}, cyc);
	}
	std::string f = M.tmp + "/fd.bin";
	table_audit("fileio", [&](int i) { { emp::FileIO io(f.c_str(), false); char c[100] = {1}; io.send_data(c, 100); io.reset(); io.recv_data(c, 100); } { emp::FileIO io(f.c_str(), true); char c[100]; io.recv_data(c, 100); } unlink(f.c_str()); }, 30);
	table_audit("memio", [&](int i) { emp::MemIO io; char c[100] = {1}; io.send_data(c, 100); io.recv_data(c, 100); }, 5);
	table_audit("invalid-port", [&](int i) { for (int p : {-1, 65536}) { try { emp::NetIO io(nullptr, p, true); } catch (...) {} try { emp::HighSpeedNetIO io(nullptr, p, p); } catch (...) {} } }, 5);
	table_audit("prg-group", [&](int i) { emp::PRG g; emp::block b; g.random_block(&b); emp::Group G; emp::BigInt x; G.get_rand_bn(x); }, 5);
	// destruction delivers what was sent; the raw peer reads to the end of the stream
	std::vector<size_t> ns = {1, 7, 100, 4096, 65536, 1048575, 1048576, 1048577, 2500000}; for (size_t i = 0; i < M.n(4); ++i) ns.push_back(1 + r.below(300000));
	for (size_t i = 0; i < ns.size(); ++i) {
		size_t n = ns[i]; bool sv = (i + M.shard) & 1; int port = pick_port(); ctx("NetIO destroyed right after sending %zu bytes (%s)", n, sv ? "server" : "client"); int ls = sv ? -1 : listen_on(port);
		pid_t q = spawn([&] { Bytes b = stream_bytes(13, n); emp::NetIO *io = new emp::NetIO(sv ? nullptr : "127.0.0.1", port, true); size_t h = n / 3; if (h) io->send_data(b.data(), h); io->send_data(b.data() + h, n - h); delete io; });
		int s = sv ? connect_to(port) : accept(ls, 0, 0); if (ls >= 0) close(ls); Bytes got; char buf[65536]; ssize_t k; while ((k = recv(s, buf, sizeof buf, 0)) > 0) got.insert(got.end(), buf, buf + k); close(s); int st; waitpid(q, &st, 0);
		if (st != 0) M.fail("netio:close-status", g_ctx); else if (got.size() != n || Stream(13).check(got.data(), 0, n) >= 0) M.fail("netio:close-loses-data", fmt("%s: %zu bytes arrived", g_ctx, got.size())); M.eval(mix64(n + 1000 * sv)); M.count("close_flush_checks"); progress();
		int a = pick_port(), b2; do b2 = pick_port(); while (a == b2); ctx("HighSpeedNetIO destroyed right after sending %zu bytes (%s)", n, sv ? "server" : "client"); int l1 = sv ? -1 : listen_on(a), l2 = sv ? -1 : listen_on(b2);
		q = spawn([&] { Bytes b = stream_bytes(13, n); emp::HighSpeedNetIO *io = new emp::HighSpeedNetIO(sv ? nullptr : "127.0.0.1", a, b2); size_t h = n / 3; if (h) io->send_data(b.data(), h); io->send_data(b.data() + h, n - h); delete io; });
		int s1 = sv ? connect_to(a) : accept(l1, 0, 0), s2 = sv ? connect_to(b2) : accept(l2, 0, 0); if (!sv) { close(l1); close(l2); } got.clear(); int rs = sv ? s2 : s1; while ((k = recv(rs, buf, sizeof buf, 0)) > 0) got.insert(got.end(), buf, buf + k); close(s1); close(s2); waitpid(q, &st, 0);
		if (st != 0) M.fail("hsio:close-status", g_ctx); else if (got.size() < n || Stream(13).check(got.data(), 0, n) >= 0) M.fail("hsio:close-loses-data", fmt("%s: %zu bytes arrived", g_ctx, got.size())); M.eval(mix64(n + 3000 * sv)); M.count("close_flush_checks"); progress();
		{ emp::FileIO *io = new emp::FileIO(f.c_str(), false); Bytes b = stream_bytes(13, n); io->send_data(b.data(), n); delete io; FILE *h = fopen(f.c_str(), "rb"); Bytes g(n + 10); size_t m = fread(g.data(), 1, n + 10, h); ::fclose(h); if (m != n || Stream(13).check(g.data(), 0, n) >= 0) M.fail("fileio:close-loses-data", fmt("%zu of %zu", m, n)); unlink(f.c_str()); M.count("close_flush_checks"); }
	}
	// the port is free again at once, whoever closed first (the server closing first leaves TIME_WAIT behind)
	for (int kind = 0; kind < 2; ++kind) for (int who = 0; who < 2; ++who) {
		bool ok = false; int rounds = (int)M.n(8);
		for (int attempt = 0; attempt < 3 && !ok; ++attempt) {
			int a = pick_port(), b; do b = pick_port(); while (a == b); ctx("%s re-created %d times on one port, %s closes first", kind ? "HighSpeedNetIO" : "NetIO", rounds, who ? "client" : "server"); int last = 0;
			int st = in_child([&] { alarm(60); for (int i = 0; i < rounds; ++i) {
				pid_t q = spawn([&] { if (kind == 0) { emp::NetIO io("127.0.0.1", a, true); char c = 1; io.send_data(&c, 1); io.recv_data(&c, 1); if (!who) usleep(20000); } else { emp::HighSpeedNetIO io("127.0.0.1", a, b); char c = 1; io.send_data(&c, 1); io.recv_data(&c, 1); if (!who) usleep(20000); } });
				if (kind == 0) { emp::NetIO io(nullptr, a, true); char c; io.recv_data(&c, 1); io.send_data(&c, 1); io.flush(); if (who) usleep(20000); } else { emp::HighSpeedNetIO io(nullptr, a, b); char c; io.recv_data(&c, 1); io.send_data(&c, 1); io.flush(); if (who) usleep(20000); }
				int s; waitpid(q, &s, 0); } _exit(0); }, 120);
			ok = st == 0;
		}
		if (!ok) M.fail(kind ? "hsio:port-not-released" : "netio:port-not-released", g_ctx); M.eval(900 + kind * 2 + who); M.count("rebinds", rounds); progress();
	}
	for (int p : {-1, -2, -100, 65536, 65537, 70000, 131071, 1 << 20, INT32_MAX, INT32_MIN}) for (int s = 0; s < 2; ++s) {
		ctx("invalid port %d", p); const char *ad = s ? nullptr : "127.0.0.1";
		for (int kind = 0; kind < 3; ++kind) { int st = in_child([&] { alarm(20); int thrown = 0; try { if (kind == 0) emp::NetIO io(ad, p, true); else if (kind == 1) emp::HighSpeedNetIO io(ad, p, 23456); else emp::HighSpeedNetIO io(ad, 23456, p); } catch (const std::exception &) { thrown = 1; } _exit(thrown ? 0 : 5); }, 40); if (st != 0) M.fail("port:invalid-accepted", fmt("port %d kind %d", p, kind)); M.eval(mix64((uint64_t)(uint32_t)p * 6 + s * 3 + kind)); M.count("invalid_ports"); }
		progress();
	}
	for (int p : {65535, 65534, 60000, 1024}) { // valid extremes are not rejected
		bool thrown = false; for (int kind = 0; kind < 2; ++kind) { int st = in_child([&] { alarm(1); try { if (kind == 0) emp::NetIO io(nullptr, p, true); else emp::HighSpeedNetIO io(nullptr, p, p - 1); } catch (const std::exception &) { _exit(5); } _exit(0); }, 40); if (WIFEXITED(st) && WEXITSTATUS(st) == 5) thrown = true; } if (thrown) M.fail("port:valid-rejected", fmt("port %d", p)); M.count("valid_ports"); progress();
	}
}
int main(int argc, char **argv) {
	init(argc, argv); signal(SIGPIPE, SIG_IGN); start_watchdog(300);
	if (M.part == "peers" || M.part == "all") part_peers();
	if (M.part == "files" || M.part == "all") part_files();
	if (M.part == "fds" || M.part == "all") part_fds();
	return done();
}
