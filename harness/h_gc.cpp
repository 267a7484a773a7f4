// Garbling: label invariant on every wire (C25 half gates, C26 privacy free) and transcript properties (C27).
#include "circ.h"
#include "netutil.h"
#include <unordered_set>
using namespace vf; using namespace emp;
static u128 r128(Rng &r) { return ((u128)r.u64() << 64) | r.u64(); }
struct H128 { size_t operator()(u128 x) const { return (size_t)mix64((uint64_t)x ^ mix64((uint64_t)(x >> 64))); } };
typedef std::unordered_set<u128, H128> Set;

// Records everything sent; the evaluator reads the recording.
struct RecIO : IOChannel<RecIO> {
	std::vector<uint8_t> data; size_t pos = 0; bool short_read = false;
	void send_data_internal(const void *p, int64_t n) { data.insert(data.end(), (const uint8_t *)p, (const uint8_t *)p + n); }
	void recv_data_internal(void *p, int64_t n) { if (pos + n > data.size()) { short_read = true; memset(p, 0, n); return; } memcpy(p, data.data() + pos, n); pos += n; }
	void flush() {}
};
template <class T> struct HG { typedef HalfGateGen<T> Gen; typedef HalfGateEva<T> Eva; static const bool pf = false; static const int per_and = 2; static const char *name() { return "half gates"; } };
template <class T> struct PF { typedef PrivacyFreeGen<T> Gen; typedef PrivacyFreeEva<T> Eva; static const bool pf = true; static const int per_and = 1; static const char *name() { return "privacy free"; } };

// Passes every gate on and keeps the label it produced.
struct Watch : CircuitExecution {
	CircuitExecution *in; std::vector<block> log; uint64_t ands = 0, consts = 0;
	explicit Watch(CircuitExecution *i) : in(i) {}
	block keep(block b) { log.push_back(b); return b; }
	block and_gate(const block &a, const block &b) override { ++ands; return keep(in->and_gate(a, b)); }
	block xor_gate(const block &a, const block &b) override { return keep(in->xor_gate(a, b)); }
	block not_gate(const block &a) override { return keep(in->not_gate(a)); }
	block public_label(bool b) override { ++consts; return keep(in->public_label(b)); }
	uint64_t num_and() override { return in->num_and(); }
};
// zero-labels: random, and hostile ones (zero, equal, differing by the offset, equal to a constant's label)
static std::vector<block> zero_labels(Rng &r, size_t n, block delta, block c0, block c1, bool pf, bool hostile) {
	std::vector<block> v; for (size_t i = 0; i < n; ++i) { u128 x = r128(r); if (hostile) switch (r.below(10)) { case 0: x = 0; break; case 1: x = ~(u128)0; break; case 2: if (i) x = u_of_block(v[r.below(i)]); break; case 3: if (i) x = u_of_block(v[r.below(i)]) ^ u_of_block(delta); break; case 4: x = u_of_block(delta); break; case 5: x = u_of_block(c0); break; case 6: x = u_of_block(c1); break; default:; } if (pf) x &= ~(u128)1; v.push_back(block_of(x)); }
	return v;
}
static block add(block l, bool v, block delta) { return v ? block_of(u_of_block(l) ^ u_of_block(delta)) : l; }
static bool lsb(block b) { return u_of_block(b) & 1; }
static bool same(block a, block b) { return u_of_block(a) == u_of_block(b); }

template <class S, class G, class E> static bool check_wires(const char *how, const std::vector<block> &g, const std::vector<block> &e, const std::vector<uint8_t> &v, block delta, const std::string &what) {
	if (g.size() != e.size() || g.size() != v.size()) { M.fail("gc:lockstep", fmt("%s %s: generator %zu gates, evaluator %zu", S::name(), how, g.size(), e.size())); return false; }
	for (size_t i = 0; i < g.size(); ++i) {
		if (!same(e[i], add(g[i], v[i], delta))) { M.fail("gc:label", fmt("%s over %s: gate %zu of %zu with value %d: evaluator's label does not encode it; %s", S::name(), how, i, g.size(), v[i], what.c_str())); return false; }
		if (S::pf && lsb(e[i]) != (bool)v[i]) { M.fail("gc:low-bit", fmt("%s over %s: gate %zu value %d: low bit %d; %s", S::name(), how, i, v[i], lsb(e[i]), what.c_str())); return false; }
	}
	return true;
}
// ---------------------------------------------------------------- programs over a recording channel
template <template <class> class SS> static void programs() {
	typedef SS<RecIO> S; typedef typename S::Gen Gen; typedef typename S::Eva Eva; Rng r = M.rng(S::pf ? 2 : 1); size_t n = M.n(250);
	for (size_t it = 0; it < n; ++it) {
		Prog p = rand_prog(r, false, r.coin(4) ? 70 : 20, 1 + (int)r.below(r.coin(4) ? 60 : 14), true, 18); std::vector<BV> in; size_t nb = 0; for (auto &x : p.in) { in.push_back(x.party ? rand_bv(r, x.w) : x.cst); nb += x.w; } ctx("%s program %zu: %s", S::name(), it, p.str().c_str());
		RecIO io; Gen gen(&io); std::unique_ptr<Gen> second; block ud = block_of(r128(r)); bool redelta = r.coin(3); if (redelta) gen.set_delta(ud);
		if (!lsb(gen.delta)) M.fail("gc:offset-low-bit", S::name()); if (redelta && (u_of_block(gen.delta) | 1) != (u_of_block(ud) | 1)) M.fail("gc:offset-not-used", S::name());
		size_t setup = io.data.size(); std::vector<block> z = zero_labels(r, nb, gen.delta, gen.public_label(false), gen.public_label(true), S::pf, r.coin());
		auto feed = [&](int mode, CircuitExecution *c) { // 0 zero labels, 1 active labels, 2 values
			CircuitExecution::circ_exec = c; std::vector<PVal> v; size_t at = 0; for (size_t i = 0; i < p.in.size(); ++i) { PVal o; o.isbit = p.in[i].isbit; std::vector<Bit> b; for (int j = 0; j < p.in[i].w; ++j, ++at) { bool x = in[i].bit(j); b.push_back(!p.in[i].party ? Bit(x, PUBLIC) : Bit(mode == 0 ? z[at] : mode == 1 ? add(z[at], x, gen.delta) : x ? all_one_block : zero_block)); } if (o.isbit) o.b = b[0]; else o.i = Integer(b); v.push_back(o); } v = run_prog(p, v); CircuitExecution::circ_exec = nullptr; };
		Watch wg(&gen); feed(0, &wg); uint64_t ga = gen.num_and(); size_t sent = io.data.size() - setup;
		Eva eva(&io); if (redelta) eva.set_delta(); if (io.pos != setup) M.fail("gc:setup-length", fmt("%s: generator sent %zu bytes, evaluator took %zu", S::name(), setup, io.pos)); Watch we(&eva); feed(1, &we);
		BS bs; Watch wv(&bs); feed(2, &wv); std::vector<uint8_t> v; for (auto &b : wv.log) v.push_back(u_of_block(b) & 1);
		if (io.short_read || io.pos != io.data.size()) M.fail("gc:lockstep", fmt("%s: evaluator consumed %zu of %zu bytes", S::name(), io.pos, io.data.size()));
		check_wires<S, Gen, Eva>("memory", wg.log, we.log, v, gen.delta, p.str());
		if (ga != wg.ands || eva.num_and() != we.ands) M.fail("gc:and-count", fmt("%s: executed %llu, generator says %llu, evaluator says %llu", S::name(), (unsigned long long)wg.ands, (unsigned long long)ga, (unsigned long long)eva.num_and()));
		if (sent != 16 * S::per_and * wg.ands) M.fail("gc:bytes-per-gate", fmt("%s: %zu bytes for %llu AND gates", S::name(), sent, (unsigned long long)wg.ands));
		M.eval(hash_bytes(p.ins.data(), p.ins.size() * sizeof(PIns), nb), wg.log.size()); M.count("wires_checked", wg.log.size()); M.count("and_gates", wg.ands); M.count("constants", wg.consts); M.count("programs"); if (M.want_sample()) M.sample(fmt("%s: %zu wires, %llu ANDs: %s", S::name(), wg.log.size(), (unsigned long long)wg.ands, p.str().substr(0, 200).c_str())); progress();
	}
}
// ---------------------------------------------------------------- raw gate sequences over every transport
struct RawOp { int op; uint32_t a, b; };
static std::vector<RawOp> rand_raw(Rng &r, size_t ni, size_t ng) { std::vector<RawOp> v; int bias = (int)r.below(4); for (size_t i = 0; i < ng; ++i) { RawOp o; size_t av = ni + i; o.op = bias == 0 ? 0 : bias == 1 ? (int)r.below(2) : (int)r.below(5); o.a = (uint32_t)(r.coin(3) && av > 10 ? av - 1 - r.below(10) : r.below(av)); o.b = (uint32_t)(r.coin(6) ? o.a : r.below(av)); v.push_back(o); } return v; } // op 3,4: constants
static std::vector<block> run_raw(CircuitExecution *c, const std::vector<block> &in, const std::vector<RawOp> &ops) { std::vector<block> w = in; for (auto &o : ops) { block z; switch (o.op) { case 0: z = c->and_gate(w[o.a], w[o.b]); break; case 1: z = c->xor_gate(w[o.a], w[o.b]); break; case 2: z = c->not_gate(w[o.a]); break; case 3: z = c->public_label(false); break; default: z = c->public_label(true); } w.push_back(z); } return w; }
struct Raw { std::vector<bool> val; std::vector<RawOp> ops; uint64_t seed; bool redelta; };
struct Side { std::vector<block> w; block delta; uint64_t ands; };
template <class S> static Side gen_side(typename S::Gen &gen, const Raw &q) { Rng r(q.seed); Side s; if (q.redelta) gen.set_delta(block_of(r128(r))); std::vector<block> z = zero_labels(r, q.val.size(), gen.delta, gen.public_label(false), gen.public_label(true), S::pf, r.coin()); s.w = run_raw(&gen, z, q.ops); s.delta = gen.delta; s.ands = gen.num_and(); return s; }
template <class S> static Side eva_side(typename S::Eva &eva, const Raw &q, const std::vector<block> &active) { Side s; s.w = run_raw(&eva, active, q.ops); s.ands = eva.num_and(); return s; }
template <class S> static void judge(const char *how, const Raw &q, const Side &g, const Side &e) {
	std::vector<uint8_t> v; for (bool b : q.val) v.push_back(b); uint64_t ands = 0; for (auto &o : q.ops) { ands += o.op == 0; v.push_back(o.op == 0 ? v[o.a] & v[o.b] : o.op == 1 ? v[o.a] ^ v[o.b] : o.op == 2 ? !v[o.a] : o.op == 4); }
	check_wires<S, typename S::Gen, typename S::Eva>(how, g.w, e.w, v, g.delta, fmt("%zu inputs %zu gates", q.val.size(), q.ops.size())); if (g.ands != ands || e.ands != ands) M.fail("gc:and-count", fmt("%s over %s: executed %llu, generator %llu, evaluator %llu", S::name(), how, (unsigned long long)ands, (unsigned long long)g.ands, (unsigned long long)e.ands));
	M.eval(hash_bytes(q.ops.data(), q.ops.size() * sizeof(RawOp), q.val.size()), v.size()); M.count("wires_checked", v.size()); M.count("and_gates", ands); M.count(how); progress();
}
static std::vector<block> activate(const Raw &q, const Side &g) { std::vector<block> a; for (size_t i = 0; i < q.val.size(); ++i) a.push_back(add(g.w[i], q.val[i], g.delta)); return a; }
template <template <class> class SS> static void transports() {
	Rng r = M.rng(SS<MemIO>::pf ? 4 : 3); size_t n = M.n(160); std::string file = M.tmp + "/gc.bin";
	for (size_t it = 0; it < n; ++it) {
		Raw q; size_t ni = 1 + r.below(12); for (size_t i = 0; i < ni; ++i) q.val.push_back(r.coin()); q.ops = rand_raw(r, ni, r.coin(8) ? 20000 + r.below(30000) : r.coin() ? r.below(40) : r.below(1500)); q.seed = r.u64(); q.redelta = r.coin(3); int kind = (int)(it % 6); ctx("%s raw circuit %zu, transport %d, %zu gates", SS<MemIO>::name(), it, kind, q.ops.size());
		if (kind <= 1) { typedef SS<MemIO> S; MemIO io(1 + r.below(100)); typename S::Gen gen(&io); Side g = gen_side<S>(gen, q); typename S::Eva eva(&io); if (q.redelta) eva.set_delta(); Side e = eva_side<S>(eva, q, activate(q, g)); if (io.read_pos != io.size) M.fail("gc:lockstep", "bytes left unread"); judge<S>("MemIO", q, g, e); }
		else if (kind == 2) { // gate by gate, both sides interleaved
			typedef SS<MemIO> S; MemIO io; typename S::Gen gen(&io); typename S::Eva eva(&io); Raw q0 = q; q0.ops.clear(); Side g = gen_side<S>(gen, q0); if (q.redelta) eva.set_delta(); Side e; e.w = activate(q, g); for (auto &o : q.ops) { auto one = [&](CircuitExecution *c, std::vector<block> &w) { switch (o.op) { case 0: w.push_back(c->and_gate(block(w[o.a]), block(w[o.b]))); break; case 1: w.push_back(c->xor_gate(block(w[o.a]), block(w[o.b]))); break; case 2: w.push_back(c->not_gate(block(w[o.a]))); break; default: w.push_back(c->public_label(o.op == 4)); } }; one(&gen, g.w); one(&eva, e.w); if (io.size > (1 << 20) && io.read_pos == io.size) io.clear(); } g.ands = gen.num_and(); e.ands = eva.num_and(); judge<S>("MemIO, interleaved", q, g, e); }
		else if (kind == 3) { typedef SS<FileIO> S; Side g, e; { FileIO io(file.c_str(), false); typename S::Gen gen(&io); g = gen_side<S>(gen, q); io.flush(); } { FileIO io(file.c_str(), true); typename S::Eva eva(&io); if (q.redelta) eva.set_delta(); e = eva_side<S>(eva, q, activate(q, g)); } unlink(file.c_str()); judge<S>("FileIO", q, g, e); }
		else { // sockets: the active input labels are handed over in memory (in place of oblivious transfer)
			Side g, e; std::mutex m; std::condition_variable cv; bool ready = false; std::vector<block> act; int p1 = pick_port(), p2 = pick_port(); while (p2 == p1) p2 = pick_port();
			auto gsend = [&](const Side &s) { std::lock_guard<std::mutex> l(m); act = activate(q, s); ready = true; cv.notify_all(); }; auto ewait = [&] { std::unique_lock<std::mutex> l(m); cv.wait(l, [&] { return ready; }); };
			if (kind == 4) { typedef SS<NetIO> S; std::thread t([&] { NetIO io("127.0.0.1", p1, true); typename S::Eva eva(&io); if (q.redelta) eva.set_delta(); ewait(); e = eva_side<S>(eva, q, act); }); { NetIO io(nullptr, p1, true); typename S::Gen gen(&io); Raw q0 = q; q0.ops.clear(); Side s0 = gen_side<S>(gen, q0); gsend(s0); g.w = run_raw(&gen, s0.w, q.ops); g.delta = gen.delta; g.ands = gen.num_and(); io.flush(); t.join(); } judge<S>("NetIO", q, g, e); }
			else { typedef SS<HighSpeedNetIO> S; std::thread t([&] { HighSpeedNetIO io("127.0.0.1", p1, p2); typename S::Eva eva(&io); if (q.redelta) eva.set_delta(); ewait(); e = eva_side<S>(eva, q, act); }); { HighSpeedNetIO io(nullptr, p1, p2); typename S::Gen gen(&io); Raw q0 = q; q0.ops.clear(); Side s0 = gen_side<S>(gen, q0); gsend(s0); g.w = run_raw(&gen, s0.w, q.ops); g.delta = gen.delta; g.ands = gen.num_and(); io.flush(); t.join(); } judge<S>("HighSpeedNetIO", q, g, e); }
		}
	}
}
// the shipped AES circuit, many times in one session
template <template <class> class SS> static void long_session() {
	typedef SS<MemIO> S; Rng r = M.rng(S::pf ? 6 : 5); std::string D = std::string(getenv("VERIF_REPO_DIR") ? getenv("VERIF_REPO_DIR") : "/repo") + "/emp-tool/circuits/files/bristol_format/AES-non-expanded.txt"; BristolFormat cf(D.c_str()); size_t n = M.n(6); MemIO io; typename S::Gen gen(&io); typename S::Eva eva(&io); uint64_t ands = 0;
	for (size_t it = 0; it < n; ++it) { std::vector<block> z = zero_labels(r, 256, gen.delta, gen.public_label(false), gen.public_label(true), S::pf, false), a(256), zo(128), ao(128); uint8_t key[16], pt[16], ct[16]; r.bytes(key, 16); r.bytes(pt, 16); for (int i = 0; i < 256; ++i) { const uint8_t *s = i < 128 ? pt : key; int j = i % 128; a[i] = add(z[i], (s[j / 8] >> (7 - j % 8)) & 1, gen.delta); }
		io.clear(); CircuitExecution::circ_exec = &gen; cf.compute(zo.data(), z.data(), z.data() + 128); CircuitExecution::circ_exec = &eva; cf.compute(ao.data(), a.data(), a.data() + 128); CircuitExecution::circ_exec = nullptr; RefAes ra(key); ra.enc(ct, pt, 1); for (int i = 0; i < 128; ++i) if (!same(ao[i], add(zo[i], (ct[i / 8] >> (7 - i % 8)) & 1, gen.delta))) { M.fail("gc:aes", fmt("%s: garbled AES run %zu, output bit %d", S::name(), it, i)); break; } ands = gen.num_and(); if (ands != eva.num_and()) M.fail("gc:and-count", "AES session"); M.eval(mix64(it + 5), 128); M.count("garbled_aes"); progress(); }
	M.count("and_gates", ands);
}
// ---------------------------------------------------------------- transcripts
static std::vector<u128> blocks_of(const std::vector<uint8_t> &d, size_t from = 0) { std::vector<u128> v; for (size_t i = from; i + 16 <= d.size(); i += 16) { u128 x; memcpy(&x, d.data() + i, 16); v.push_back(x); } return v; }
// ---------------------------------------------------------------- late gates
// Moves a session to a late gate number, where the class still offers a way to; otherwise the part is skipped.
template <class G> static auto jump(G &g, uint64_t n, int) -> decltype((void)(g.gid = n), true) { g.gid = n; return true; }
template <class G> static auto jump(G &g, uint64_t n, int) -> decltype((void)g.mitccrh.renew_ks((uint64_t)8), true) { g.mitccrh.renew_ks(2 * n); return true; }
template <class G> static bool jump(G &, uint64_t, long) { return false; }
template <template <class> class SS> static void late_gates() {
	typedef SS<RecIO> S; Rng r = M.rng(S::pf ? 12 : 11); size_t n = M.n(40);
	for (size_t it = 0; it < n; ++it) {
		int k = 8 + (int)r.below(53); uint64_t at = r.coin(4) ? r.u64() >> (3 + r.below(50)) : ((uint64_t)1 << k) - r.below(40); if (it < 6) at = (((uint64_t)1 << (it < 2 ? 30 : it < 4 ? 31 : 32)) - (it & 1 ? 3 : 20)); at &= ~(uint64_t)3; ctx("%s at gate %llu", S::name(), (unsigned long long)at);
		RecIO io; typename S::Gen gen(&io); typename S::Eva eva(&io); if (!jump(gen, at, 0) || !jump(eva, at, 0)) { M.count("late_skipped"); return; }
		Raw q; size_t ni = 2 + r.below(4); for (size_t i = 0; i < ni; ++i) q.val.push_back(r.coin()); q.ops = rand_raw(r, ni, 20 + r.below(100)); q.seed = r.u64(); q.redelta = false; std::vector<block> z = zero_labels(r, ni, gen.delta, zero_block, zero_block, S::pf, false); Side g, e; g.w = run_raw(&gen, z, q.ops); g.delta = gen.delta; e = eva_side<S>(eva, q, activate(q, g));
		uint64_t ands = 0; for (auto &o : q.ops) ands += o.op == 0; if (gen.num_and() != at + ands || e.ands != at + ands) M.fail("gc:and-count", fmt("%s: %llu gates from gate %llu, generator %llu, evaluator %llu", S::name(), (unsigned long long)ands, (unsigned long long)at, (unsigned long long)gen.num_and(), (unsigned long long)e.ands)); g.ands = e.ands = ands;
		if (io.short_read || io.pos != io.data.size()) M.fail("gc:lockstep", fmt("%s: evaluator consumed %zu of %zu bytes", S::name(), io.pos, io.data.size())); judge<S>("late gates", q, g, e);
	}
}
// the same operands at gate numbers that agree in all but one bit give different tables
template <template <class> class SS> static void late_tables() {
	typedef SS<RecIO> S; Rng r = M.rng(S::pf ? 14 : 13);
	for (size_t it = 0, n = M.n(20); it < n; ++it) { RecIO io; typename S::Gen gen(&io); if (!jump(gen, 0, 0)) return; block a = zero_labels(r, 1, gen.delta, zero_block, zero_block, S::pf, false)[0], b = zero_labels(r, 1, gen.delta, zero_block, zero_block, S::pf, false)[0]; uint64_t base = (r.u64() >> (2 + r.below(60))) & ~(uint64_t)3; Set s; io.data.clear(); ctx("%s same operands around gate %llu", S::name(), (unsigned long long)base); bool ok = true; for (int k = 1; k < 62; ++k) { jump(gen, k == 1 ? base : base ^ ((uint64_t)1 << k), 0); for (int j = 0; j < 2; ++j) ok &= s.insert(u_of_block(gen.and_gate(a, b))).second; } for (u128 x : blocks_of(io.data)) ok &= s.insert(x).second; if (!ok) M.fail("gc:table-repeat", fmt("%s: gates numbered %llu and a power of two away produced the same table or label on the same operands", S::name(), (unsigned long long)base)); M.eval(mix64(base), 61); M.count("late_tables", 61); progress(); }
}
// sessions with an offset the caller chose (and chose again): everything else is still fresh
template <template <class> class SS> static void given_offset() {
	typedef SS<RecIO> S; Rng r = M.rng(S::pf ? 16 : 15);
	for (size_t it = 0, n = M.n(40); it < n; ++it) { block d = block_of(it % 5 == 0 ? 0 : r128(r)); Set s; bool ok = true; size_t k = 0; ctx("%s given offset %zu", S::name(), it); for (int sess = 0; sess < 4; ++sess) { RecIO io; typename S::Gen gen(&io); for (int t = 0; t < 3; ++t) gen.set_delta(d); if ((u_of_block(gen.delta) | 1) != (u_of_block(d) | 1)) M.fail("gc:offset-not-used", S::name()); if (!lsb(gen.delta)) M.fail("gc:offset-low-bit", S::name()); block a = block_of((u128)0), b = block_of((u128)2); if (!S::pf) for (int i = 0; i < 6; ++i) gen.and_gate(a, b); for (u128 x : blocks_of(io.data)) { ok &= s.insert(x).second; ++k; } if (same(gen.public_label(false), gen.public_label(true))) M.fail("gc:constants-equal", S::name()); }
		// (privacy-free tables depend on labels, offset and gate number alone, all chosen by the caller here: only the set-up is judged)
		if (!ok) M.fail("gc:repeat", fmt("%s: sessions with the same offset repeat a set-up block, seed or table", S::name())); M.eval(mix64(it * 2 + S::pf + 77), k); M.count("given_offset_blocks", k); progress(); }
}
static Set g_seen; // blocks of all sessions so far
template <template <class> class SS> static void transcripts() {
	typedef SS<RecIO> S; Rng r = M.rng(S::pf ? 8 : 7); size_t n = M.n(400); u128 or_d = 0, and_d = ~(u128)0; std::vector<u128> orS, andS;
	for (size_t it = 0; it < n; ++it) {
		Raw q; size_t ni = 1 + r.below(6); for (size_t i = 0; i < ni; ++i) q.val.push_back(r.coin()); bool small = it % 2; q.ops = rand_raw(r, ni, small ? 3 + r.below(10) : 10 + r.below(400)); q.seed = r.u64(); q.redelta = false; ctx("%s transcript %zu", S::name(), it);
		RecIO io; typename S::Gen gen(&io); size_t setup = io.data.size(); if (setup % 16) { M.fail("gc:setup-length", "not whole blocks"); continue; } std::vector<block> z = zero_labels(r, ni, gen.delta, zero_block, zero_block, S::pf, false); std::vector<block> w = z; size_t sent = io.data.size();
		for (auto &o : q.ops) { block x; switch (o.op) { case 0: x = gen.and_gate(w[o.a], w[o.b]); break; case 1: x = gen.xor_gate(w[o.a], w[o.b]); break; case 2: x = gen.not_gate(w[o.a]); break; default: x = gen.public_label(o.op == 4); } w.push_back(x); size_t d = io.data.size() - sent, want = o.op == 0 ? 16 * S::per_and : 0; sent = io.data.size(); if (d != want) { M.fail("gc:bytes-per-gate", fmt("%s: a gate of kind %d sent %zu bytes", S::name(), o.op, d)); break; } }
		typename S::Eva eva(&io); Side e = eva_side<S>(eva, q, activate(q, Side{w, gen.delta, 0}));
		u128 delta = u_of_block(gen.delta); std::vector<u128> T = blocks_of(io.data), K; for (auto &b : e.w) K.push_back(u_of_block(b)); for (auto &b : {eva.public_label(false), eva.public_label(true)}) K.push_back(u_of_block(b));
		if (!(delta & 1)) M.fail("gc:offset-low-bit", S::name());
		std::vector<u128> all; all.push_back(0); all.insert(all.end(), T.begin(), T.end()); all.insert(all.end(), K.begin(), K.end()); Set s(all.begin(), all.end());
		for (u128 x : s) if (s.count(x ^ delta)) { M.fail("gc:leak", fmt("%s: two blocks the evaluator sees (or one alone) differ by the offset; %zu gates", S::name(), q.ops.size())); break; }
		if (small) { std::vector<u128> u(s.begin(), s.end()); bool bad = false; for (size_t i = 0; i < u.size() && !bad; ++i) for (size_t j = i + 1; j < u.size() && !bad; ++j) if (u[i] && u[j] && s.count(u[i] ^ u[j] ^ delta)) bad = true; if (bad) M.fail("gc:leak", fmt("%s: three blocks the evaluator sees combine to the offset or an inactive label", S::name())); M.count("triples", u.size() * u.size() * u.size() / 6); }
		// nothing sent in this or any other session repeats
		for (u128 x : T) if (!g_seen.insert(x).second) { M.fail("gc:repeat", fmt("%s: a transmitted block was sent before", S::name())); break; } if (!g_seen.insert(delta).second) M.fail("gc:repeat", fmt("%s: offset used before", S::name()));
		or_d |= delta; and_d &= delta; orS.resize(setup / 16, 0); andS.resize(setup / 16, ~(u128)0); for (size_t i = 0; i < setup / 16; ++i) { orS[i] |= T[i]; andS[i] &= T[i]; }
		M.eval((uint64_t)delta, T.size()); M.count("blocks_recorded", T.size()); M.count("sessions"); if (M.want_sample()) M.sample(fmt("%s: set-up %zu bytes, %zu blocks in all, %zu labels known", S::name(), setup, T.size(), K.size())); progress();
	}
	// over many sessions every bit that is meant to be random has taken both values
	if (n >= 100) { if ((or_d & ~and_d) != ~(u128)1) M.fail("gc:offset-not-random", fmt("%s: some bits of the offset never vary over %zu sessions", S::name(), n)); for (size_t i = 0; i < orS.size(); ++i) { u128 var = orS[i] & ~andS[i]; if (S::pf) var |= 1; if (var != ~(u128)0) M.fail("gc:setup-not-random", fmt("%s: some bits of set-up block %zu never vary", S::name(), i)); } }
}
// many gates on the same two labels: all tables and outputs differ
template <template <class> class SS> static void same_operands() {
	typedef SS<RecIO> S; Rng r = M.rng(S::pf ? 10 : 9);
	for (int eq = 0; eq < 2; ++eq) { RecIO io; typename S::Gen gen(&io); io.data.clear(); block a = zero_labels(r, 1, gen.delta, zero_block, zero_block, S::pf, false)[0], b = eq ? a : zero_labels(r, 1, gen.delta, zero_block, zero_block, S::pf, false)[0]; size_t n = M.n(150000); Set s; s.reserve(4 * n); std::vector<u128> outs; for (size_t i = 0; i < n; ++i) outs.push_back(u_of_block(gen.and_gate(a, b))); progress(); bool ok = true; for (u128 x : blocks_of(io.data)) ok &= s.insert(x).second; for (u128 x : outs) ok &= s.insert(x).second && !s.count(x ^ u_of_block(gen.delta)); if (!ok) M.fail("gc:table-repeat", fmt("%s: two gates on the same operands produced the same table or label", S::name())); if (gen.num_and() != n) M.fail("gc:and-count", fmt("%zu gates, counted %llu", n, (unsigned long long)gen.num_and())); M.eval(mix64(n + eq), n); M.count("same_operand_gates", n); progress(); }
}
// sessions set up in child processes and threads right after each other
template <template <class> class SS> static void fresh_sessions() {
	typedef SS<RecIO> S; std::vector<std::vector<u128>> all; std::mutex m; size_t n = M.n(24);
	for (size_t i = 0; i < n; ++i) { int p[2]; if (pipe(p)) _exit(70); pid_t c = safe_fork(); if (c == 0) { close(p[0]); RecIO io; typename S::Gen gen(&io); std::vector<u128> v = blocks_of(io.data); v.push_back(u_of_block(gen.delta)); if (::write(p[1], v.data(), v.size() * 16) < 0) _exit(1); _exit(0); } close(p[1]); std::vector<uint8_t> d(4096); size_t got = 0; ssize_t k; while ((k = read(p[0], d.data() + got, d.size() - got)) > 0) got += k; close(p[0]); int st; waitpid(c, &st, 0); d.resize(got); all.push_back(blocks_of(d)); progress(); }
	for (size_t i = 0; i < n; ++i) { std::vector<std::thread> t; for (int k = 0; k < 4; ++k) t.emplace_back([&] { RecIO io; typename S::Gen gen(&io); std::vector<u128> v = blocks_of(io.data); v.push_back(u_of_block(gen.delta)); std::lock_guard<std::mutex> g(m); all.push_back(v); }); for (auto &x : t) x.join(); progress(); }
	for (auto &v : all) { if (v.empty()) { M.fail("gc:no-setup", S::name()); break; } bool ok = true; for (u128 x : v) ok &= g_seen.insert(x).second; if (!ok) { M.fail("gc:repeat", fmt("%s: a set-up block or offset repeats across processes or threads", S::name())); break; } M.eval((uint64_t)v[0], 1); M.count("fresh_setups"); }
}
int main(int argc, char **argv) {
	init(argc, argv); start_watchdog(60); signal(SIGPIPE, SIG_IGN);
	if (M.part == "halfgates") { programs<HG>(); transports<HG>(); late_gates<HG>(); long_session<HG>(); }
	else if (M.part == "privfree") { programs<PF>(); transports<PF>(); late_gates<PF>(); long_session<PF>(); }
	else if (M.part == "transcript") { transcripts<HG>(); transcripts<PF>(); same_operands<HG>(); same_operands<PF>(); fresh_sessions<HG>(); fresh_sessions<PF>(); given_offset<HG>(); given_offset<PF>(); late_tables<HG>(); late_tables<PF>(); programs<HG>(); programs<PF>(); }
	else { programs<HG>(); transports<HG>(); programs<PF>(); transports<PF>(); transcripts<HG>(); transcripts<PF>(); long_session<HG>(); long_session<PF>(); same_operands<HG>(); same_operands<PF>(); late_gates<HG>(); late_gates<PF>(); given_offset<HG>(); given_offset<PF>(); late_tables<HG>(); late_tables<PF>(); }
	return done();
}
