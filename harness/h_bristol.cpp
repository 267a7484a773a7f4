// Loading and executing Bristol circuits (P_BRISTOL, C22); compiling programs to circuit files (P_GEN, C23).
#include "circ.h"
#define OPENSSL_SUPPRESS_DEPRECATED
#include <openssl/sha.h>
using namespace vf; using namespace emp;
static u128 r128(Rng &r) { return ((u128)r.u64() << 64) | r.u64(); }

#ifdef P_BRISTOL
static Circ rand_circ(Rng &r, bool fashion, int big = 0) { // big: 1 many gates, 2 wide inputs and outputs too
	Circ c; int parts = fashion ? 1 + (int)r.below(4) : 2;
	for (int i = 0; i < parts; ++i) c.ins.push_back(r.coin(6) && i ? 0 : 1 + (int)r.below(big == 2 ? 60000 : r.coin(4) ? 200 : 12));
	int ni = c.ni(), ng = big ? 70000 + (int)r.below(200000) : r.coin(12) ? 0 : (int)r.below(r.coin(5) ? 3000 : 60), no; parts = fashion ? 1 + (int)r.below(3) : 1; std::vector<int> os;
	int left = ng ? ng : ni; for (int i = 0; i < parts; ++i) { int o = i == parts - 1 ? 1 + (int)r.below(std::max(1, std::min(left, big == 2 ? 70000 : 80))) : (int)r.below(std::min(left, big == 2 ? 40000 : 20) + 1); if (o > left) o = left; left -= o; os.push_back(o); } no = 0; for (int o : os) no += o; if (!no) os[0] = no = 1; c.outs = os;
	if (ng && r.coin(8)) { int extra = (int)r.below(ni + 1); if (no + extra <= ng + ni && no == ng) { c.outs[0] += extra; no += extra; } } // outputs reaching into the inputs
	c.nw = ni + ng;
	// internal wires get arbitrary numbers, the outputs are the last wires
	std::vector<int> id(ng); for (int i = 0; i < ng; ++i) id[i] = ni + i; bool shuffle = r.coin(); int fixed = std::max(0, ng - no);
	if (shuffle) { for (int i = fixed - 1; i > 0; --i) std::swap(id[i], id[r.below(i + 1)]); for (int i = ng - 1; i > fixed; --i) std::swap(id[i], id[fixed + r.below(i - fixed + 1)]); }
	std::vector<int> avail; for (int i = 0; i < ni; ++i) avail.push_back(i); int bias = (int)r.below(4);
	for (int i = 0; i < ng; ++i) { Gate g; g.op = bias == 0 ? (int)r.below(3) : bias == 1 ? (int)r.below(2) : r.coin(4) ? 2 : (int)r.below(2); auto pick = [&]() { return r.coin(3) && avail.size() > 8 ? avail[avail.size() - 1 - r.below(8)] : avail[r.below(avail.size())]; }; g.a = pick(); g.b = g.op == 2 ? 0 : r.coin(10) ? g.a : pick(); g.z = id[i]; c.g.push_back(g); avail.push_back(g.z); }
	return c;
}
static std::string text_of(const Circ &c, bool fashion, Rng &r) {
	std::string s = fmt("%d %d\n", (int)c.g.size(), c.nw); bool blank = r.coin(4), trail = r.coin();
	if (fashion) { s += fmt("%d", (int)c.ins.size()); for (int x : c.ins) s += fmt(" %d", x); s += trail ? " \n" : "\n"; s += fmt("%d", (int)c.outs.size()); for (int x : c.outs) s += fmt(" %d", x); s += trail ? " \n" : "\n"; }
	else s += fmt("%d %d%s%d\n", c.ins[0], c.ins[1], trail ? "   " : " ", c.outs[0]);
	if (!blank) s += "\n"; static const char *nm[] = {"AND", "XOR", "INV"};
	for (auto &g : c.g) s += g.op == 2 ? fmt("1 1 %d %d INV\n", g.a, g.z) : fmt("2 1 %d %d %d %s\n", g.a, g.b, g.z, nm[g.op]);
	if (r.coin(12)) { std::string t; for (char ch : s) { if (ch == '\n') t += '\r'; t += ch; } s = t; }   // line ends of another system
	else if (r.coin(12)) { for (auto &ch : s) if (ch == ' ' && r.coin(3)) ch = '\t'; }
	return s;
}
static uint64_t hc(const Circ &c) { return hash_bytes(c.g.data(), c.g.size() * sizeof(Gate), mix64(c.nw * 131 + c.ni() * 7 + c.no())); }
static std::vector<block> rand_in(Rng &r, int n) { std::vector<block> v(n); for (auto &b : v) b = block_of(r128(r)); return v; }
static bool eq(const block *a, const std::vector<u128> &w) { for (size_t i = 0; i < w.size(); ++i) if (u_of_block(a[i]) != w[i]) return false; return true; }
static std::vector<u128> vec(const std::vector<block> &a) { std::vector<u128> v; for (auto &b : a) v.push_back(u_of_block(b)); return v; }

static void run_format(BristolFormat &f, const Circ &c, Rng &r, const char *how, int times) {
	int n1 = c.ins[0], n2 = c.ins[1], no = c.no();
	if (f.n1 != n1 || f.n2 != n2 || f.n3 != no || f.num_gate != (int)c.g.size() || f.num_wire != c.nw) { M.fail("bristol:header", fmt("%s: %d %d %d", how, f.n1, f.n2, f.n3)); return; }
	for (int t = 0; t < times; ++t) {
		auto in = rand_in(r, n1 + n2); auto want = eval(c, vec(in)); int mode = (int)r.below(4);
		if (mode == 1 && n1 != n2) mode = 0;
		if (mode == 1) { for (int i = 0; i < n2; ++i) in[n1 + i] = in[i]; want = eval(c, vec(in)); } // the same array for both inputs
		ctx("BristolFormat %s mode %d gates %d", how, mode, f.num_gate);
		// exactly sized heap buffers: overruns are visible to the sanitizer and to the guard blocks
		Guarded gi(16 * n1, 0, r.u64()), gj(16 * n2, 0, r.u64()), go(16 * std::max(no, mode == 2 ? n1 : mode == 3 ? n2 : no), 0, r.u64()); memcpy(gi.p, in.data(), 16 * n1); memcpy(gj.p, in.data() + n1, 16 * n2);
		block *o = (block *)go.p, *a = (block *)gi.p, *b = (block *)gj.p; size_t olen = 16 * no;
		if (mode == 1) b = a; else if (mode == 2) { memcpy(go.p, in.data(), 16 * n1); a = o; } else if (mode == 3) { memcpy(go.p, in.data() + n1, 16 * n2); b = o; }
		if (r.coin()) f.compute(o, a, b); else f.compute((Bit *)o, (const Bit *)a, (const Bit *)b);
		if (!eq(o, want)) M.fail("bristol:result", fmt("BristolFormat %s: wrong output, %d gates, inputs %d+%d, outputs %d, run %d, buffer mode %d", how, f.num_gate, n1, n2, no, t, mode));
		if (memcmp(gi.p, in.data(), 16 * n1) || (mode != 1 && memcmp(gj.p, in.data() + n1, 16 * n2))) M.fail("bristol:input-changed", how);
		for (size_t i = olen; i < go.n; ++i) if (mode == 2 ? go.p[i] != ((uint8_t *)in.data())[i] : mode == 3 ? go.p[i] != ((uint8_t *)(in.data() + n1))[i] : false) { M.fail("bristol:wrote-beyond-output", how); break; }
		if (!gi.intact() || !gj.intact() || !go.intact()) M.fail("bristol:wrote-outside", how);
		M.eval(hc(c) ^ mode, 128); M.count("format_computations"); progress();
	}
}
static void run_fashion(BristolFashion &f, const Circ &c, Rng &r, const char *how, int times) {
	int ni = c.ni(), no = c.no();
	if (f.num_input != ni || f.num_output != no || f.num_gate != (int)c.g.size() || f.num_wire != c.nw) { M.fail("bristol:header", fmt("fashion %s: inputs %d/%d outputs %d/%d", how, f.num_input, ni, f.num_output, no)); return; }
	for (int t = 0; t < times; ++t) {
		auto in = rand_in(r, ni); auto want = eval(c, vec(in)); bool over = r.coin(3); ctx("BristolFashion %s overlap %d gates %d", how, over, f.num_gate);
		Guarded gi(16 * ni, 0, r.u64()), go(16 * (over ? std::max(ni, no) : no), 0, r.u64()); memcpy(gi.p, in.data(), 16 * ni); if (over) memcpy(go.p, in.data(), 16 * ni); block *o = (block *)go.p, *a = over ? o : (block *)gi.p;
		if (r.coin()) f.compute(o, a); else f.compute((Bit *)o, (const Bit *)a);
		if (!eq(o, want)) M.fail("bristol:result", fmt("BristolFashion %s: wrong output, %d gates, inputs %d outputs %d, run %d, overlap %d", how, f.num_gate, ni, no, t, over));
		if (memcmp(gi.p, in.data(), 16 * ni)) M.fail("bristol:input-changed", how);
		if (over) for (size_t i = 16 * no; i < go.n; ++i) if (go.p[i] != ((uint8_t *)in.data())[i]) { M.fail("bristol:wrote-beyond-output", how); break; }
		if (!gi.intact() || !go.intact()) M.fail("bristol:wrote-outside", how);
		M.eval(hc(c) ^ (over ? 77 : 0), 128); M.count("fashion_computations"); progress();
	}
}
// reads the C source written by to_file
static bool from_c(const std::string &s, const std::string &prefix, int v[5], std::vector<int> &arr) {
	const char *nm[] = {"_num_gate", "_num_wire", "_n1", "_n2", "_n3"};
	auto find = [&](const std::string &n) -> size_t { size_t p = 0; for (;;) { p = s.find(n, p); if (p == std::string::npos) return p; char a = p ? s[p - 1] : ' ', b = p + n.size() < s.size() ? s[p + n.size()] : ' '; if (!isalnum((unsigned char)a) && a != '_' && !isalnum((unsigned char)b) && b != '_') return p + n.size(); ++p; } };
	for (int i = 0; i < 5; ++i) { size_t p = find(prefix + nm[i]); if (p == std::string::npos) return false; p = s.find('=', p); if (p == std::string::npos) return false; v[i] = atoi(s.c_str() + p + 1); }
	size_t p = find(prefix + "_gate_arr"); if (p == std::string::npos) return false; p = s.find('{', p); size_t e = s.find('}', p); if (p == std::string::npos || e == std::string::npos) return false;
	const char *q = s.c_str() + p + 1, *z = s.c_str() + e; while (q < z) { char *n; long x = strtol(q, &n, 0); if (n == q) { ++q; continue; } arr.push_back((int)x); q = n; }
	return (long)arr.size() == 4L * v[0];
}
// the executor of plain gate arrays: AND, XOR, NOT and OR gates over the caller's wires
template <class T> static void gate_array(const Circ &c, Rng &r) {
	std::vector<T> arr; std::vector<u128> w(c.nw); for (auto &x : w) x = r128(r); Guarded g(16 * c.nw, 0, r.u64()); memcpy(g.p, w.data(), 16 * c.nw); bool ors = r.coin();
	for (auto &q : c.g) { int op = ors && q.op != 2 && r.coin(3) ? 3 : q.op; arr.push_back((T)q.a); arr.push_back((T)q.b); arr.push_back((T)q.z); arr.push_back((T)op); u128 a = w[q.a], b = w[q.b]; w[q.z] = op == 0 ? (a & b) : op == 1 ? (a ^ b) : op == 2 ? ~a : (a | b); }
	std::vector<T> cp = arr; arr.push_back(0); ctx("execute_circuit: %zu gates, %d wires, index of %zu bytes", c.g.size(), c.nw, sizeof(T)); emp::execute_circuit<T>((block *)g.p, arr.data(), c.g.size()); arr.pop_back();
	if (cp != arr) M.fail("bristol:input-changed", "gate array of execute_circuit"); if (!g.intact()) M.fail("bristol:wrote-outside", "execute_circuit");
	for (int i = 0; i < c.nw; ++i) if (u_of_block(((block *)g.p)[i]) != w[i]) { M.fail("bristol:gate-array", fmt("execute_circuit: wire %d of %d is wrong, %zu gates", i, c.nw, c.g.size())); break; }
	M.eval(hc(c) ^ 99, 128); M.count("gate_arrays");
}
static void randoms() {
	Rng r = M.rng(1); size_t n = M.n(400); std::string f1 = M.tmp + "/c1.txt", f2 = M.tmp + "/c2.txt", f3 = M.tmp + "/c3.h";
	BristolFormat *lf = nullptr; BristolFashion *lh = nullptr; Circ cf, ch;
	for (size_t it = 0; it < n; ++it) {
		bool fashion = it & 1; int big = it % 200 == 10 || it % 200 == 11 ? 1 : it % 200 == 20 || it % 200 == 21 ? 2 : 0; Circ c = rand_circ(r, fashion, big); if (big) M.count("big_circuits"); std::string s = text_of(c, fashion, r); Circ back; std::string e = parse(s, fashion, back); if (!e.empty()) { fprintf(stderr, "harness circuit malformed: %s\n", e.c_str()); _exit(70); }
		if (it % 3 == 0) { if (c.nw < 30000 && r.coin(3)) gate_array<uint16_t>(c, r); else if (r.coin(3)) gate_array<int>(c, r); else if (r.coin()) gate_array<uint64_t>(c, r); else gate_array<uint32_t>(c, r); }
		if (r.coin(6)) while (!s.empty() && isspace((unsigned char)s.back())) s.pop_back(); // no final newline
		spill(f1, s); int times = 1 + (int)r.below(4); const char *how[] = {"path", "stream", "memory stream", "reload", "reload stream"}; int w = (int)r.below(5);
		if (M.want_sample()) M.sample(fmt("%s circuit: %d gates %d wires %d inputs %d outputs via %s", fashion ? "fashion" : "format", (int)c.g.size(), c.nw, c.ni(), c.no(), how[w]));
		M.count(how[w]);
		if (fashion) {
			if (w >= 3 && lh) { if (w == 3) lh->from_file(f1.c_str()); else { FILE *h = fopen(f1.c_str(), "r"); lh->from_file(h); fclose(h); } run_fashion(*lh, c, r, how[w], times); ch = c; continue; }
			if (lh) { run_fashion(*lh, ch, r, "older object", 1); delete lh; lh = nullptr; }
			if (w == 1) { FILE *h = fopen(f1.c_str(), "r"); lh = new BristolFashion(h); fclose(h); } else if (w == 2) { FILE *h = fmemopen((void *)s.data(), s.size(), "r"); lh = new BristolFashion(h); fclose(h); } else lh = new BristolFashion(f1.c_str());
			ch = c; run_fashion(*lh, c, r, how[w], times);
		} else {
			if (w >= 3 && lf) { if (w == 3) lf->from_file(f1.c_str()); else { FILE *h = fopen(f1.c_str(), "r"); lf->from_file(h); fclose(h); } }
			else { if (lf) { run_format(*lf, cf, r, "older object", 1); delete lf; lf = nullptr; }
				if (w == 1) { FILE *h = fopen(f1.c_str(), "r"); lf = new BristolFormat(h); fclose(h); } else if (w == 2) { FILE *h = fmemopen((void *)s.data(), s.size(), "r"); lf = new BristolFormat(h); fclose(h); } else lf = new BristolFormat(f1.c_str()); }
			cf = c; run_format(*lf, c, r, how[w], times);
			if (!c.g.empty() && r.coin(3)) { // export as C arrays, rebuild
				std::string pre = r.coin() ? "mycirc" : "n1_x"; lf->to_file(f3.c_str(), pre.c_str()); if (r.coin(3)) lf->to_file(f3.c_str(), pre.c_str()); int v[5]; std::vector<int> arr; if (!from_c(slurp(f3), pre, v, arr)) { M.fail("bristol:export", "the exported C arrays are incomplete"); continue; }
				BristolFormat *g = new BristolFormat(v[0], v[1], v[2], v[3], v[4], arr.data()); std::fill(arr.begin(), arr.end(), -1); arr.clear(); arr.shrink_to_fit(); run_format(*g, c, r, "gate array", times); delete g; M.count("exports");
				run_format(*lf, c, r, "after export", 1);
			} else if (!c.g.empty() && r.coin(3)) { std::vector<int> arr; for (auto &g : c.g) { arr.push_back(g.a); arr.push_back(g.b); arr.push_back(g.z); arr.push_back(g.op); } arr.push_back(0); BristolFormat *g = new BristolFormat((int)c.g.size(), c.nw, c.ins[0], c.ins[1], c.no(), arr.data()); std::vector<int> cp = arr; run_format(*g, c, r, "gate array", times); if (cp != arr) M.fail("bristol:input-changed", "gate array"); delete g; }
		}
	}
	delete lf; delete lh;
	for (size_t it = 0; it < M.n(40); ++it) { // a stream is read from where it stands
		bool fashion = it & 1; Circ a = rand_circ(r, fashion), b = rand_circ(r, fashion); std::string pre = r.coin() ? "7 7 garbage to skip\n" : "", s = pre + text_of(a, fashion, r) + "\n" + text_of(b, fashion, r); spill(f1, s); FILE *h = r.coin() ? fopen(f1.c_str(), "r") : fmemopen((void *)s.data(), s.size(), "r"); fseek(h, (long)pre.size(), SEEK_SET); ctx("two circuits after each other on one stream");
		if (fashion) { BristolFashion x(h); run_fashion(x, a, r, "first on a stream", 1); if (r.coin()) { x.from_file(h); run_fashion(x, b, r, "second on a stream", 1); } else { BristolFashion y(h); run_fashion(y, b, r, "second on a stream", 1); run_fashion(x, a, r, "first on a stream", 1); } }
		else { BristolFormat x(h); run_format(x, a, r, "first on a stream", 1); if (r.coin()) { x.from_file(h); run_format(x, b, r, "second on a stream", 1); } else { BristolFormat y(h); run_format(y, b, r, "second on a stream", 1); run_format(x, a, r, "first on a stream", 1); } }
		fclose(h); M.count("stream_positions");
	}
	unlink(f1.c_str()); unlink(f3.c_str());
}
// lanes of byte strings <-> wires; ord: 0 most significant bit of the first byte first, 1 the whole string reversed
static void put(std::vector<u128> &w, size_t at, const std::vector<std::string> &lanes, int ord) { size_t n = lanes[0].size() * 8; for (size_t i = 0; i < n; ++i) { size_t j = ord ? n - 1 - i : i; u128 x = 0; for (int k = 0; k < 128; ++k) x |= (u128)(((uint8_t)lanes[k][j / 8] >> (7 - j % 8)) & 1) << k; w[at + i] = x; } }
static std::string get(const std::vector<block> &w, int lane, size_t nbytes, int ord) { std::string s(nbytes, 0); size_t n = nbytes * 8; for (size_t i = 0; i < n; ++i) { size_t j = ord ? n - 1 - i : i; if ((u_of_block(w[i]) >> lane) & 1) s[j / 8] |= 1 << (7 - j % 8); } return s; }
static std::string aes_ref(const std::string &k, const std::string &p) { EVP_CIPHER_CTX *c = EVP_CIPHER_CTX_new(); uint8_t o[32]; int l; EVP_EncryptInit_ex(c, k.size() == 16 ? EVP_aes_128_ecb() : k.size() == 24 ? EVP_aes_192_ecb() : EVP_aes_256_ecb(), 0, (uint8_t *)k.data(), 0); EVP_CIPHER_CTX_set_padding(c, 0); EVP_EncryptUpdate(c, o, &l, (uint8_t *)p.data(), 16); EVP_CIPHER_CTX_free(c); return std::string((char *)o, 16); }
static std::string be(const uint32_t *h, int n) { std::string s; for (int i = 0; i < n; ++i) for (int j = 3; j >= 0; --j) s += (char)(h[i] >> (8 * j)); return s; }
static std::string rbytes(Rng &r, size_t n) { std::string s(n, 0); r.bytes(&s[0], n); if (r.coin(10)) s.assign(n, 0); else if (r.coin(10)) s.assign(n, (char)255); return s; }
static void shipped() {
	Rng r = M.rng(2); std::string D = std::string(getenv("VERIF_REPO_DIR") ? getenv("VERIF_REPO_DIR") : "/repo") + "/emp-tool/circuits/files/"; size_t rounds = M.n(3);
	BristolFormat aes((D + "bristol_format/AES-non-expanded.txt").c_str()), add((D + "bristol_format/adder_32bit.txt").c_str()), s1((D + "bristol_format/sha-1.txt").c_str()), s2((D + "bristol_format/sha-256.txt").c_str());
	BristolFashion *fa[3]; const char *fn[] = {"aes_128", "aes_192", "aes_256"}; for (int i = 0; i < 3; ++i) fa[i] = new BristolFashion((D + "bristol_fashion/" + fn[i] + ".txt").c_str()); BristolFashion sh((D + "bristol_fashion/sha256.txt").c_str());
	auto toblocks = [](const std::vector<u128> &w) { std::vector<block> b; for (auto x : w) b.push_back(block_of(x)); return b; };
	auto bad = [](const char *n, int k) { M.fail(fmt("bristol:shipped-%s", n), fmt("the shipped circuit %s computes a wrong value (lane %d)", n, k)); };
	for (size_t it = 0; it < rounds; ++it) {
		std::vector<std::string> K(128), P(128), H(128), Bk(128);
		for (int k = 0; k < 128; ++k) { P[k] = rbytes(r, 16); K[k] = rbytes(r, 16); H[k] = rbytes(r, 32); Bk[k] = rbytes(r, 64); }
		{ std::vector<u128> w(256); put(w, 0, P, 0); put(w, 128, K, 0); auto b = toblocks(w); std::vector<block> o(128); aes.compute(o.data(), b.data(), b.data() + 128); for (int k = 0; k < 128; ++k) if (get(o, k, 16, 0) != aes_ref(K[k], P[k])) { bad("AES-non-expanded", k); break; } }
		{ std::vector<u128> w(64, 0); uint32_t x[128], y[128]; for (int k = 0; k < 128; ++k) { x[k] = (uint32_t)r.u64(); y[k] = r.coin(4) ? ~x[k] + (uint32_t)r.below(3) : (uint32_t)r.u64(); for (int i = 0; i < 32; ++i) { w[i] |= (u128)((x[k] >> i) & 1) << k; w[32 + i] |= (u128)((y[k] >> i) & 1) << k; } } auto b = toblocks(w); std::vector<block> o(33); add.compute(o.data(), b.data(), b.data() + 32); for (int k = 0; k < 128; ++k) { uint64_t s = 0; for (int i = 0; i < 33; ++i) s |= (uint64_t)((u_of_block(o[i]) >> k) & 1) << i; if (s != (uint64_t)x[k] + y[k]) { bad("adder_32bit", k); break; } } }
		{ std::vector<u128> w(512); put(w, 0, Bk, 0); auto b = toblocks(w); std::vector<block> o(160), o2(256); s1.compute(o.data(), b.data(), b.data()); s2.compute(o2.data(), b.data(), b.data()); for (int k = 0; k < 128; ++k) { SHA_CTX c; SHA1_Init(&c); SHA1_Transform(&c, (uint8_t *)Bk[k].data()); uint32_t h[5] = {(uint32_t)c.h0, (uint32_t)c.h1, (uint32_t)c.h2, (uint32_t)c.h3, (uint32_t)c.h4}; if (get(o, k, 20, 0) != be(h, 5)) { bad("sha-1", k); break; } SHA256_CTX d; SHA256_Init(&d); SHA256_Transform(&d, (uint8_t *)Bk[k].data()); if (get(o2, k, 32, 0) != be((uint32_t *)d.h, 8)) { bad("sha-256", k); break; } } }
		for (int f = 0; f < 3; ++f) { size_t kl = 16 + 8 * f; for (int k = 0; k < 128; ++k) K[k] = rbytes(r, kl); std::vector<u128> w(kl * 8 + 128); put(w, 0, K, 1); put(w, kl * 8, P, 1); auto b = toblocks(w); std::vector<block> o(128); fa[f]->compute(o.data(), b.data()); for (int k = 0; k < 128; ++k) if (get(o, k, 16, 1) != aes_ref(K[k], P[k])) { bad(fn[f], k); break; } }
		{ std::vector<u128> w(768); put(w, 0, Bk, 1); put(w, 512, H, 1); auto b = toblocks(w); std::vector<block> o(256); sh.compute(o.data(), b.data()); for (int k = 0; k < 128; ++k) { SHA256_CTX d; SHA256_Init(&d); for (int i = 0; i < 8; ++i) { d.h[i] = 0; for (int j = 0; j < 4; ++j) d.h[i] = (d.h[i] << 8) | (uint8_t)H[k][4 * i + j]; } SHA256_Transform(&d, (uint8_t *)Bk[k].data()); if (get(o, k, 32, 1) != be((uint32_t *)d.h, 8)) { bad("sha256", k); break; } } }
		M.eval(mix64(it + 1000), 8 * 128); M.count("shipped_rounds"); progress();
	}
	for (int i = 0; i < 3; ++i) delete fa[i];
}
int main(int argc, char **argv) {
	init(argc, argv); start_watchdog(60); BS bs; CircuitExecution::circ_exec = &bs;
	if (M.part != "shipped") randoms(); if (M.part != "random") shipped();
	M.count("gates_executed", bs.gates); CircuitExecution::circ_exec = nullptr; return done();
}
#endif

#ifdef P_GEN
struct Session { std::vector<std::vector<bool>> revealed; uint64_t ands; };
// Runs p on the plain backend with the given inputs; outputs revealed in order, in varying forms.
static Session run_plain(const Prog &p, const std::vector<BV> &inputs, bool print, const std::string &file, Rng r) {
	Session s; setup_plain_prot(print, file); std::vector<PVal> v;
	for (size_t i = 0; i < p.in.size(); ++i) { const PIn &x = p.in[i]; int party = x.party == 0 ? PUBLIC : x.party == 1 ? ALICE : BOB; PVal o; o.isbit = x.isbit; if (x.isbit) o.b = Bit(inputs[i].bit(0), party); else { uint8_t by[8 * BV::WORDS]; memcpy(by, inputs[i].d.data(), sizeof by); o.i = x.w <= 64 && r.coin() ? Integer(x.w, (int64_t)(inputs[i].neg() && x.w < 64 ? inputs[i].low() | (~0ULL << x.w) : inputs[i].low()), party) : Integer(x.w, by, party); } v.push_back(o); }
	// values may be revealed in the middle of the computation, which then goes on
	size_t half = p.ins.size() ? r.below(p.ins.size() + 1) : 0; { Prog q = p; q.ins.resize(half); v = run_prog(q, v); }
	bool done = false; auto rest = [&] { Prog q = p; done = true; q.ins.erase(q.ins.begin(), q.ins.begin() + half); v = run_prog(q, v); };
	for (int id : p.out) {
		if (!done && (size_t)id >= v.size()) rest();
		std::vector<bool> b; int party = (int)r.below(3) == 0 ? PUBLIC : r.coin() ? ALICE : BOB;
		if (v[id].isbit) b.push_back(r.coin() ? v[id].b.reveal<bool>(party) : v[id].b.reveal<std::string>(party) == "true");
		else { int w = (int)v[id].i.size(); int form = (int)r.below(3); if (form == 0) { std::string t = v[id].i.reveal<std::string>(party); for (char c : t) b.push_back(c == '1'); } else if (form == 1 && w <= 64) { uint64_t x = v[id].i.reveal<uint64_t>(party); for (int i = 0; i < w; ++i) b.push_back((x >> i) & 1); } else { std::vector<uint8_t> by((w + 7) / 8 + 1, 0); v[id].i.reveal(by.data(), party); for (int i = 0; i < w; ++i) b.push_back((by[i / 8] >> (i % 8)) & 1); } }
		s.revealed.push_back(b);
	}
	if (!done) rest();
	s.ands = CircuitExecution::circ_exec->num_and(); finalize_plain_prot(); CircuitExecution::circ_exec = nullptr; ProtocolExecution::prot_exec = nullptr; return s;
}
int main(int argc, char **argv) {
	init(argc, argv); start_watchdog(60); Rng r = M.rng(5); size_t n = M.n(300); std::string f = M.tmp + "/prog.txt"; BS bs;
	for (size_t it = 0; it < n; ++it) {
		bool wide = it % 60 == 30; Prog p = rand_prog(r, r.coin(4), wide ? 250 : r.coin(5) ? 90 : 20, wide ? 12 : 1 + (int)r.below(r.coin(5) ? 60 : 12), true, wide ? 250 : 20, it % 3 != 1); if (it == 31) { p = Prog(); PIn x; x.isbit = false; x.cst = BV(); x.w = 230; x.party = 1; p.in.push_back(x); x.party = 2; p.in.push_back(x); for (int i = 0; i < 3; ++i) { PIns q; q.op = P_MUL; q.a = i ? 1 + i : 0; q.b = i & 1; q.c = -1; q.imm = 0; p.ins.push_back(q); } p.out = {4, 2}; }
		bool any = false; for (auto &x : p.in) any |= x.party != 0; if (!any) { p.in[0].party = 1; }
		if (r.coin(3)) p.out.push_back(p.out[r.below(p.out.size())]);       // a value revealed twice
		if (r.coin(3)) p.out.push_back((int)r.below(p.in.size()));           // an input or a constant revealed
		if (r.coin()) std::sort(p.out.begin(), p.out.end()); // so that some values are revealed before others are computed
		std::vector<BV> in; for (auto &x : p.in) in.push_back(x.party ? rand_bv(r, x.w) : x.cst); ctx("program %zu: %s", it, p.str().c_str());
		auto ref = ref_prog(p, in); uint64_t h = hash_bytes(p.ins.data(), p.ins.size() * sizeof(PIns), p.in.size()); bool print = !r.coin(6);
		if (!print) unlink(f.c_str());
		Session s = run_plain(p, in, print, f, Rng(r.u64()));
		size_t nbits = 0;
		for (size_t o = 0; o < p.out.size(); ++o) { const BV &w = ref[p.out[o]]; nbits += s.revealed[o].size(); bool ok = (int)s.revealed[o].size() == w.w; for (int i = 0; ok && i < w.w; ++i) ok = s.revealed[o][i] == w.bit(i); if (!ok) { M.fail("plain:value", fmt("output %zu of the plain run is wrong: %s", o, p.str().c_str())); break; } }
		M.eval(h, p.out.size()); M.count("plain_runs"); progress();
		if (!print) { struct stat st; if (!stat(f.c_str(), &st)) M.fail("plain:wrote-file", "a run without circuit output wrote a file"); Session s2 = run_plain(p, in, true, f, Rng(r.u64())); if (s2.ands != s.ands) M.fail("plain:and-count", fmt("%llu ANDs without circuit output, %llu with it: ", (unsigned long long)s.ands, (unsigned long long)s2.ands) + p.str()); continue; }
		std::string text = slurp(f); Circ c; std::string e = parse(text, false, c); if (!e.empty()) { M.fail("gen:malformed", e + "; " + p.str()); continue; }
		int na = 0, nb = 0; for (auto &x : p.in) { if (x.party == 1) na += x.w; if (x.party == 2) nb += x.w; }
		if (c.ins[0] != na || c.ins[1] != nb || c.no() != (int)nbits) { M.fail("gen:header", fmt("header %d %d %d, the program has %d %d %d", c.ins[0], c.ins[1], c.no(), na, nb, (int)nbits)); continue; }
		size_t ands = 0; for (auto &g : c.g) ands += g.op == 0; if (ands != s.ands) { M.fail("gen:and-count", fmt("num_and() %llu, AND gates written %zu", (unsigned long long)s.ands, ands)); continue; }
		M.count("gates_written", c.g.size()); if (M.want_sample()) M.sample(fmt("%d gates, inputs %d+%d, outputs %d: %s", (int)c.g.size(), na, nb, c.no(), p.str().substr(0, 200).c_str()));
		// evaluate the file on 128 fresh inputs, by an independent evaluator and by the library's loader
		std::vector<std::vector<BV>> lane(128, in); std::vector<u128> w(na + nb, 0); int at = 0;
		for (size_t i = 0; i < p.in.size(); ++i) if (p.in[i].party) { for (int k = 0; k < 128; ++k) { if (k) lane[k][i] = rand_bv(r, p.in[i].w); for (int j = 0; j < p.in[i].w; ++j) w[at + j] |= (u128)lane[k][i].bit(j) << k; } at += p.in[i].w; }
		auto o = eval(c, w); std::vector<block> ib, ob(c.no()); for (auto x : w) ib.push_back(block_of(x));
		CircuitExecution::circ_exec = &bs; { BristolFormat bf(f.c_str()); bf.compute(ob.data(), ib.data(), ib.data() + na); } CircuitExecution::circ_exec = nullptr;
		for (size_t i = 0; i < o.size(); ++i) if (u_of_block(ob[i]) != o[i]) { M.fail("gen:loader-disagrees", p.str()); break; }
		for (int k = 0; k < 128; ++k) { auto rf = ref_prog(p, lane[k]); size_t q = 0; bool ok = true; for (int id : p.out) for (int j = 0; j < rf[id].w; ++j, ++q) ok &= (bool)((o[q] >> k) & 1) == rf[id].bit(j); if (!ok) { M.fail("gen:function", "the written circuit computes another function: " + p.str()); break; } }
		M.eval(mix64(h), 128); M.count("files_evaluated"); progress();
	}
	unlink(f.c_str()); return done();
}
#endif
