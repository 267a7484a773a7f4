// Loopback sockets, port choice and the hostile proxy used by the network harnesses.
#ifndef VF_NETUTIL_H
#define VF_NETUTIL_H
#include "common.h"
#include <sys/socket.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <arpa/inet.h>
#include <poll.h>
#include <dirent.h>
#include <sys/mman.h>
#include <sys/un.h>
#include <memory>
#include <condition_variable>
namespace vf {
// Ports below the ephemeral range. A process reserves slices of the range by binding a name in the
// abstract unix namespace, so that harnesses running side by side never hand out the same port.
static std::vector<int> &port_fds() { static std::vector<int> v; return v; }
static inline int pick_port() {
	static std::mutex m; std::lock_guard<std::mutex> g(m); const int LO = 20000, SLICE = 100, N = 120;
	static Rng r(mix64((uint64_t)getpid() << 20 ^ (uint64_t)std::chrono::steady_clock::now().time_since_epoch().count()));
	static std::vector<int> mine; static size_t next = 0; // ports of this process, handed out in turn
	auto usable = [](int port, bool lax) { int s = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0), one = 1; if (lax) setsockopt(s, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one); sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_ANY); a.sin_port = htons(port); bool ok = bind(s, (sockaddr *)&a, sizeof a) == 0; close(s); return ok; };
	auto reserve = [&]() {
		for (int k = 0, at = (int)r.below(N); k < N; ++k, at = (at + 1) % N) {
			int s = socket(AF_UNIX, SOCK_DGRAM | SOCK_CLOEXEC, 0); sockaddr_un u; memset(&u, 0, sizeof u); u.sun_family = AF_UNIX; int l = snprintf(u.sun_path + 1, 60, "emp-vf-ports-%d", at);
			if (bind(s, (sockaddr *)&u, sizeof(sa_family_t) + 1 + l) == 0) { // keep s out of the way of descriptor audits
				int hi = fcntl(s, F_DUPFD_CLOEXEC, 700 + at); if (hi >= 0) close(s); port_fds().push_back(hi >= 0 ? hi : s);
				for (int i = 0; i < SLICE; ++i) mine.push_back(LO + at * SLICE + i); return true; }
			close(s);
		}
		return false;
	};
	for (int round = 0; round < 4; ++round) {
		for (size_t i = 0; i < mine.size(); ++i) { int p = mine[next++ % mine.size()]; if (usable(p, round > 1)) return p; }
		if (mine.size() < 400) reserve();
	}
	for (int i = 0; i < 4000; ++i) { int p = LO + (int)r.below(N * SLICE); if (usable(p, i > 2000)) return p; }
	fprintf(stderr, "no free port\n"); _exit(70);
}
static inline int listen_on(int port) {
	int s = socket(AF_INET, SOCK_STREAM, 0), one = 1; setsockopt(s, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
	sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); a.sin_port = htons(port);
	if (bind(s, (sockaddr *)&a, sizeof a) || listen(s, 4)) { perror("error: bind"); _exit(1); }
	return s;
}
static inline int connect_to(int port, int tries = 20000) {
	for (int i = 0; i < tries; ++i) {
		int s = socket(AF_INET, SOCK_STREAM, 0); sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); a.sin_port = htons(port);
		if (connect(s, (sockaddr *)&a, sizeof a) == 0) { int one = 1; setsockopt(s, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one); return s; }
		close(s); usleep(1000);
	}
	return -1;
}
struct ProxyStats { std::atomic<uint64_t> segments, bytes, delays; ProxyStats() : segments(0), bytes(0), delays(0) {} };
// One TCP hop: accepts once on lport, connects to dport, re-chunks and delays both directions.
struct Proxy {
	int ls; std::thread t; ProxyStats *st;
	static void pump(int a, int b, uint64_t seed, int mode, ProxyStats *st) {
		Rng r(seed); std::vector<char> buf(1 << 18);
		for (;;) {
			size_t want = mode == 0 ? buf.size() : mode == 1 ? 1 + r.below(7) : mode == 2 ? 1 + r.below(5000) : (r.coin(4) ? 1 + r.below(3) : 1 + r.below(buf.size()));
			ssize_t n = recv(a, buf.data(), want, 0);
			if (n <= 0) { shutdown(b, SHUT_WR); return; }
			size_t off = 0;
			while (off < (size_t)n) {
				size_t c = n - off; if (mode >= 2 && c > 1 && r.coin(3)) c = 1 + r.below(c);
				ssize_t w = ::send(b, buf.data() + off, c, MSG_NOSIGNAL);
				if (w <= 0) { shutdown(a, SHUT_RD); return; }
				off += w; st->segments++; st->bytes += w;
				if (mode >= 1 && r.coin(mode == 1 ? 40 : 8)) { usleep(r.below(1500)); st->delays++; }
			}
		}
	}
	Proxy(int lport, int dport, uint64_t seed, int mode, ProxyStats *st_) : ls(listen_on(lport)), st(st_) {
		int l = ls; ProxyStats *s2 = st_;
		t = std::thread([l, dport, seed, mode, s2] {
			int a = accept(l, 0, 0); close(l); int one = 1; setsockopt(a, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
			int b = connect_to(dport);
			std::thread u([=] { pump(a, b, mix64(seed), mode, s2); });
			pump(b, a, mix64(seed + 1), mode, s2); u.join(); close(a); close(b);
		});
	}
	~Proxy() { t.join(); }
};
// position-coded stream: byte i of direction d in session s
struct Stream {
	uint64_t key; explicit Stream(uint64_t k = 0) : key(mix64(k)) {}
	void fill(uint8_t *p, uint64_t pos, size_t n) const {
		while (n && (pos & 7)) { *p++ = byte(pos++); --n; }
		while (n >= 8) { uint64_t v = mix64(key ^ (pos >> 3)); memcpy(p, &v, 8); p += 8; pos += 8; n -= 8; }
		while (n) { *p++ = byte(pos++); --n; }
	}
	uint8_t byte(uint64_t pos) const { return (uint8_t)(mix64(key ^ (pos >> 3)) >> (8 * (pos & 7))); }
	// first differing index or -1
	int64_t check(const uint8_t *p, uint64_t pos, size_t n) const {
		std::vector<uint8_t> e(n); fill(e.data(), pos, n);
		if (n == 0 || !memcmp(p, e.data(), n)) return -1;
		for (size_t i = 0; i < n; ++i) if (p[i] != e[i]) return (int64_t)i;
		return -1;
	}
};
static inline std::map<int, std::string> fd_table() {
	std::map<int, std::string> r; DIR *d = opendir("/proc/self/fd"); if (!d) return r; int me = dirfd(d);
	while (dirent *e = readdir(d)) { if (e->d_name[0] == '.') continue; int fd = atoi(e->d_name); if (fd == me || std::count(port_fds().begin(), port_fds().end(), fd)) continue; char b[256]; std::string p = "/proc/self/fd/" + std::string(e->d_name); ssize_t n = readlink(p.c_str(), b, 255); r[fd] = n > 0 ? std::string(b, n) : "?"; }
	closedir(d); return r;
}
// Gigabytes of address space over one megabyte of memory, for messages longer than 31 bits can count.
// The content has the period of the window, so a receiver's window must end up equal to the sender's.
struct Window {
	static const size_t W = 1 << 20; uint8_t *p; size_t len; bool ok;
	explicit Window(size_t n, uint64_t key, bool fill) : p(0), len((n + W - 1) / W * W), ok(false) {
		int fd = memfd_create("vf-window", 0); if (fd < 0 || ftruncate(fd, W)) { if (fd >= 0) close(fd); return; }
		void *a = mmap(0, len, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (a == MAP_FAILED) { close(fd); return; } p = (uint8_t *)a; ok = true;
		for (size_t o = 0; o < len && ok; o += W) if (mmap(p + o, W, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) ok = false;
		close(fd); if (ok && fill) Rng(key).bytes(p, W);
	}
	~Window() { if (p) munmap(p, len); }
	int64_t differs(const Window &o) const { for (size_t i = 0; i < W; ++i) if (p[i] != o.p[i]) return (int64_t)i; return -1; }
};
} // namespace vf
#endif
