// Independence of sessions and objects on different threads (C29): every thread must obtain what it obtains alone.
#include "circ.h"
#include "netutil.h"
#ifdef THREADING
#include "emp-tool/circuits/aes_128_ctr.h"
#include "emp-tool/circuits/sha3_256.h"
#endif
using namespace vf; using namespace emp;
struct Dig { uint64_t h; explicit Dig(uint64_t s) : h(mix64(s)) {} void add(const void *p, size_t n) { h = hash_bytes(p, n, h); } void num(uint64_t x) { h = mix64(h ^ x); } void blk(const block &b) { add(&b, 16); } void blks(const std::vector<block> &v) { add(v.data(), 16 * v.size()); } };
static block rb(Rng &r) { block b; r.bytes(&b, 16); return b; }
static std::vector<block> rbs(Rng &r, size_t n) { std::vector<block> v(n); r.bytes(v.data(), 16 * n); return v; }
static void pause_a_bit(Rng &r) { if (r.coin(6)) { if (r.coin()) sched_yield(); else usleep(r.below(120)); } }
typedef std::function<uint64_t(uint64_t seed, const std::string &dir)> Session;
struct Kind { const char *name; Session run; };

// ---------------------------------------------------------------- objects, any build
static void use_prg(PRG &p, Rng &r, Dig &d) { for (int i = 0; i < 12; ++i) { size_t n = r.below(300); switch (r.below(7)) { case 0: { std::vector<block> v(n + 1); v[n] = zero_block; p.random_block(v.data(), (int)n); d.blks(v); break; } case 1: { std::vector<uint8_t> v(n + 1); p.random_data(v.data(), (int)n); d.add(v.data(), n); break; } case 2: { std::unique_ptr<bool[]> b(new bool[n + 1]); p.random_bool(b.get(), (int)n); d.add(b.get(), n); break; } case 3: { std::vector<uint8_t> v(n + 8); p.random_data_unaligned(v.data() + 3, (int)n); d.add(v.data() + 3, n); break; } case 4: d.num(p()); break; case 5: { block s = rb(r); p.reseed(&s, r.below(9)); break; } default: { std::uniform_int_distribution<uint64_t> u(0, 1 + n); d.num(u(p)); } } pause_a_bit(r); } }
static uint64_t s_prg(uint64_t seed, const std::string &) { Rng r(seed); Dig d(seed); block s = rb(r); PRG p(&s, 5); use_prg(p, r, d); return d.h; }
static void use_hash(Hash &h, Rng &r, Dig &d) { for (int k = 0; k < 3; ++k) { int np = 1 + (int)r.below(6); for (int i = 0; i < np; ++i) { std::vector<uint8_t> v(1 + r.below(r.coin(4) ? 20000 : 300)); r.bytes(v.data(), v.size()); h.put(v.data(), v.size()); pause_a_bit(r); } char o[32]; h.digest(o); d.add(o, 32); h.reset(); } }
static uint64_t s_hash(uint64_t seed, const std::string &) { Rng r(seed); Dig d(seed); Hash h; use_hash(h, r, d); std::vector<uint8_t> v(1 + r.below(3000)); r.bytes(v.data(), v.size()); char o[32]; Hash::hash_once(o, v.data(), (int)v.size()); d.add(o, 32); d.blk(Hash::hash_for_block(v.data(), (int)v.size())); return d.h; }
template <class H> static void use_mit(H &h, Rng &r, Dig &d) { for (int i = 0; i < 10; ++i) { std::vector<block> v = rbs(r, 16); h.template hash<4, 2>(v.data()); d.add(v.data(), 128); pause_a_bit(r); } }
static uint64_t s_crh(uint64_t seed, const std::string &) {
	Rng r(seed); Dig d(seed); for (int i = 0; i < 4; ++i) { block k = rb(r); PRP p(k); CRH c(k); CCRH cc(k); TCCRH tc(k); std::vector<block> v = rbs(r, 40); p.permute_block(v.data(), 40); d.blks(v); d.blk(c.H(v[0])); d.blk(cc.H(v[1])); d.blk(tc.H(v[2], 77)); std::vector<block> o(40); c.Hn(o.data(), v.data(), 40); d.blks(o); cc.Hn(o.data(), v.data(), 40); d.blks(o); pause_a_bit(r); }
	{ block k = rb(r); CRH c(k); CCRH cc(k); TCCRH tc(k); std::vector<block> v = rbs(r, 40), o(40); c.H<5>(o.data(), v.data()); d.add(o.data(), 80); cc.H<8>(o.data(), v.data()); d.add(o.data(), 128); pause_a_bit(r); tc.H<3>(o.data(), v.data(), 9); d.add(o.data(), 48); tc.Hn(o.data(), v.data(), 1000, 40); d.blks(o); std::vector<block> sc(80); c.Hn(o.data(), v.data(), 33, sc.data()); d.add(o.data(), 33 * 16); tc.Hn(o.data(), v.data(), 5, 17, sc.data()); d.add(o.data(), 17 * 16); AES_KEY ks[4]; AES_opt_key_schedule<4>(v.data(), ks); pause_a_bit(r); ParaEnc<4, 3>(o.data(), ks); d.add(o.data(), 12 * 16); }
	{ MITCCRH<4> m; m.setS(rb(r)); for (int i = 0; i < 6; ++i) { std::vector<block> v = rbs(r, 4); m.hash_cir<2, 2>(v.data()); d.blks(v); m.hash<1, 4>(v.data()); d.blks(v); pause_a_bit(r); } }
	MITCCRH<8> m; m.setS(rb(r)); use_mit(m, r, d); AES_KEY ek, dk; block k = rb(r); AES_set_encrypt_key(k, &ek); AES_set_decrypt_key(k, &dk); std::vector<block> v = rbs(r, 33); AES_ecb_encrypt_blks(v.data(), 33, &ek); d.blks(v); AES_ecb_decrypt_blks(v.data(), 33, &dk); d.blks(v); return d.h;
}
static uint64_t s_f2k(uint64_t seed, const std::string &) {
	Rng r(seed); Dig d(seed); for (int i = 0; i < 5; ++i) { std::vector<block> a = rbs(r, 128), b = rbs(r, 128), c(128); block x, lo, hi; mul128(a[0], b[0], &lo, &hi); d.blk(lo); d.blk(hi); gfmul(a[1], b[1], &x); d.blk(x); vector_inn_prdt_sum_red(&x, a.data(), b.data(), 100); d.blk(x); uni_hash_coeff_gen(c.data(), a[3], 100); d.add(c.data(), 1600); block y[2]; vector_inn_prdt_sum_no_red(y, a.data(), b.data(), 90); d.add(y, 32); vector_inn_prdt_sum_red<20>(&x, a.data(), b.data()); d.blk(x); vector_self_xor(&x, a.data(), 77); d.blk(x); gfmul_reflect(a[5], b[5], &x); d.blk(x); { bool bb[128]; block_to_bool(bb, a[7]); d.add(bb, 128); d.blk(bool_to_block(bb)); uint8_t raw[9] = {0}; bool t8[70]; to_bool(t8, (const uint8_t *)&a[8], 70); d.add(t8, 70); from_bool(t8, raw, 70, true); d.add(raw, 9); int_to_bool<uint64_t>(t8, r.u64(), 64); d.num(bool_to_int<uint32_t>(t8 + 3)); } GaloisFieldPacking g; g.packing(&x, a.data()); d.blk(x); std::vector<block> t(128); sse_trans((uint8_t *)t.data(), (const uint8_t *)a.data(), 128, 128); d.blks(t); pause_a_bit(r); }
	return d.h;
}
static void use_group(Group &G, Rng &r, Dig &d) { for (int i = 0; i < 4; ++i) { uint8_t s[32]; r.bytes(s, 32); BigInt a, b; a.from_bin(s, 31); b.from_bin(s + 8, 20); Point p = G.mul_gen(a), q = p.mul(b), t = p.add(q), u = t.inv(); std::vector<uint8_t> e(t.size()); t.to_bin(e.data(), e.size()); d.add(e.data(), e.size()); Point w; w.from_bin(&G, e.data(), e.size()); d.num(w == t); d.num(w == u); BigInt m = a.mul_mod(b, G.order, G.bn_ctx); std::vector<uint8_t> mb(m.size()); m.to_bin(mb.data()); d.add(mb.data(), mb.size()); d.blk(Hash::KDF(q, i)); pause_a_bit(r); } }
static uint64_t s_group(uint64_t seed, const std::string &) { Rng r(seed); Dig d(seed); Group G; use_group(G, r, d); BigInt x; G.get_rand_bn(x); Point p = G.mul_gen(x), q = G.get_generator().mul(x); d.num(p == q); return d.h; }
template <class IO> static void do_flush(IO &io) { io.flush(); }
static void do_flush(MemIO &) {}
static void do_flush(HighSpeedNetIO &) {} // a flush within a turn would have to be matched by the receiver
// typed traffic over a channel: sender and receiver sides of the same script
template <class IO> static void io_send(IO &io, Group &G, Rng r) { for (int i = 0; i < 8; ++i) { size_t n = r.below(r.coin(4) ? 60000 : 400); switch (r.below(5)) { case 0: { std::vector<uint8_t> v(n + 1); r.bytes(v.data(), n); io.send_data(v.data(), n); break; } case 1: { std::vector<block> v = rbs(r, n + 1); io.send_block(v.data(), n + 1); break; } case 2: { std::unique_ptr<bool[]> b(new bool[n + 1]); for (size_t k = 0; k < n; ++k) b[k] = r.coin(); io.send_bool(b.get(), n); break; } case 3: { BigInt a; uint8_t s[16]; r.bytes(s, 16); a.from_bin(s, 16); Point p = G.mul_gen(a); io.send_pt(&p); break; } default: { std::vector<uint8_t> v(n + 1); r.bytes(v.data(), n); io.send_data(v.data(), n); do_flush(io); } } } do_flush(io); }
template <class IO> static void io_recv(IO &io, Group &G, Rng r, Dig &d, bool *ok) { for (int i = 0; i < 8; ++i) { size_t n = r.below(r.coin(4) ? 60000 : 400); switch (r.below(5)) { case 1: { std::vector<block> w = rbs(r, n + 1), v(n + 1); io.recv_block(v.data(), n + 1); *ok &= !memcmp(v.data(), w.data(), 16 * v.size()); d.blks(v); break; } case 2: { std::unique_ptr<bool[]> b(new bool[n + 1]); memset(b.get(), 0, n + 1); io.recv_bool(b.get(), n); for (size_t k = 0; k < n; ++k) *ok &= b[k] == r.coin(); d.add(b.get(), n); break; } case 3: { Point p(&G); io.recv_pt(&G, &p); BigInt a; uint8_t s[16]; r.bytes(s, 16); a.from_bin(s, 16); Point q = G.mul_gen(a); *ok &= p == q; d.num(*ok); break; } default: { std::vector<uint8_t> w(n + 1), v(n + 1); r.bytes(w.data(), n); io.recv_data(v.data(), n); *ok &= !memcmp(v.data(), w.data(), n); d.add(v.data(), n); } } } }
static uint64_t s_mem(uint64_t seed, const std::string &) { Rng r(seed); Dig d(seed); Group G; bool ok = true; MemIO io(1 + r.below(50)); for (int k = 0; k < 3; ++k) { Rng q(r.u64()); io_send(io, G, q); io_recv(io, G, q, d, &ok); if (r.coin()) io.clear(); } d.num(ok); return d.h; }
static uint64_t s_file(uint64_t seed, const std::string &dir) { Rng r(seed); Dig d(seed); Group G; bool ok = true; std::string f = dir + "/f.bin"; Rng q(r.u64()); { FileIO w(f.c_str(), false); io_send(w, G, q); } { FileIO w(f.c_str(), true); io_recv(w, G, q, d, &ok); } unlink(f.c_str()); d.num(ok); return d.h; }
static uint64_t s_net(uint64_t seed, const std::string &) { Rng r(seed); Dig d(seed); bool ok = true, ok2 = true; Rng q(r.u64()), q2(r.u64()); int port = pick_port(); std::thread t([&] { Group H; Dig e(1); NetIO c("127.0.0.1", port, true); io_recv(c, H, q, e, &ok2); io_send(c, H, q2); }); { Group G; NetIO s(nullptr, port, true); io_send(s, G, q); io_recv(s, G, q2, d, &ok); t.join(); } d.num(ok && ok2); return d.h; }
static uint64_t s_hsnet(uint64_t seed, const std::string &) { Rng r(seed); Dig d(seed); bool ok = true, ok2 = true; Rng q(r.u64()), q2(r.u64()); int p1 = pick_port(), p2 = pick_port(); while (p2 == p1) p2 = pick_port(); std::thread t([&] { Group H; Dig e(1); HighSpeedNetIO c("127.0.0.1", p1, p2, true); io_recv(c, H, q, e, &ok2); io_send(c, H, q2); }); { Group G; HighSpeedNetIO s(nullptr, p1, p2, true); io_send(s, G, q); io_recv(s, G, q2, d, &ok); t.join(); } d.num(ok && ok2); return d.h; }
// gate-level use of backend objects
static uint64_t s_gates(uint64_t seed, const std::string &) {
	Rng r(seed); Dig d(seed); bool pf = r.coin(); MemIO io; std::unique_ptr<CircuitExecution> g, e; block delta; if (pf) { auto *x = new PrivacyFreeGen<MemIO>(&io); delta = x->delta; g.reset(x); e.reset(new PrivacyFreeEva<MemIO>(&io)); } else { auto *x = new HalfGateGen<MemIO>(&io); delta = x->delta; g.reset(x); e.reset(new HalfGateEva<MemIO>(&io)); }
	PlainCircExec pl(false, ""); std::vector<block> G, E, P; for (int i = 0; i < 6; ++i) { block z = rb(r); if (pf) { u128 u = u_of_block(z); z = block_of(u & ~(u128)1); } bool v = r.coin(); G.push_back(z); E.push_back(v ? block_of(u_of_block(z) ^ u_of_block(delta)) : z); P.push_back(pl.private_label(v)); }
	for (int i = 0; i < 300; ++i) { size_t a = r.below(G.size()), b = r.below(G.size()); int op = (int)r.below(3); auto one = [&](CircuitExecution *c, std::vector<block> &w) { block x = op == 0 ? c->and_gate(block(w[a]), block(w[b])) : op == 1 ? c->xor_gate(block(w[a]), block(w[b])) : c->not_gate(block(w[a])); w.push_back(x); }; one(g.get(), G); one(e.get(), E); one(&pl, P); u128 x = u_of_block(G.back()) ^ u_of_block(E.back()); d.num(x == 0 ? 0 : x == u_of_block(delta) ? 1 : 2); d.num(pl.get_value(P.back())); if (i % 20 == 0) pause_a_bit(r); }
	d.num(g->num_and()); d.num(e->num_and()); d.num(pl.num_and()); return d.h;
}
#ifdef THREADING
// ---------------------------------------------------------------- sessions with a per-thread backend
static std::string g_dir_circ; static bool want_null(Dig &d) { bool ok = CircuitExecution::circ_exec == nullptr && ProtocolExecution::prot_exec == nullptr; if (!ok) M.fail("threads:foreign-backend", "a backend nobody installed on this thread is visible on it"); d.num(ok); return ok; }
static void drop() { CircuitExecution::circ_exec = nullptr; ProtocolExecution::prot_exec = nullptr; }
static void still(Dig &d, CircuitExecution *c, ProtocolExecution *p) { if (CircuitExecution::circ_exec != c || ProtocolExecution::prot_exec != p) { M.fail("threads:backend-replaced", "the backend installed on this thread was replaced by another thread"); M.finish(); } d.num(7); }
static std::vector<BV> bvs(Rng &r, const Prog &p) { std::vector<BV> in; for (auto &x : p.in) in.push_back(x.party ? rand_bv(r, x.w) : x.cst); return in; }
static std::string bits_of(const BV &v) { std::string s(v.w, '0'); for (int i = 0; i < v.w; ++i) if (v.bit(i)) s[i] = '1'; return s; }
static uint64_t plain_prog(uint64_t seed, const std::string &dir, bool print) {
	Rng r(seed); Dig d(seed); if (!want_null(d)) return 0; std::string f = dir + "/c.txt"; for (int k = 0; k < 3; ++k) {
		Prog p = rand_prog(r, false, 24, 10, true, 12, true); std::vector<BV> in = bvs(r, p), ref = ref_prog(p, in); setup_plain_prot(print, f); CircuitExecution *c = CircuitExecution::circ_exec; ProtocolExecution *pr = ProtocolExecution::prot_exec; pause_a_bit(r);
		std::vector<PVal> v; for (size_t i = 0; i < p.in.size(); ++i) { PVal o; o.isbit = p.in[i].isbit; if (o.isbit) o.b = Bit(in[i].bit(0), p.in[i].party); else { std::vector<Bit> b; for (int j = 0; j < in[i].w; ++j) b.push_back(Bit(in[i].bit(j), p.in[i].party)); o.i = Integer(b); } v.push_back(o); still(d, c, pr); }
		pause_a_bit(r); v = run_prog(p, v); still(d, c, pr); bool ok = true;
		for (int o : p.out) { std::string got; if (v[o].isbit) got = v[o].b.reveal<bool>() ? "1" : "0"; else for (size_t j = 0; j < v[o].i.size(); ++j) got += v[o].i[j].reveal<bool>() ? '1' : '0'; ok &= got == bits_of(ref[o]); d.add(got.data(), got.size()); }
		if (!ok) M.fail("threads:wrong-value", fmt("plain session: %s", p.str().c_str()));
		{ size_t w = 1 + r.below(100); std::vector<uint8_t> raw(w / 8 + 9), back(w / 8 + 9); r.bytes(raw.data(), raw.size()); Integer a((int)w, raw.data(), r.coin() ? ALICE : BOB); std::string s; for (size_t j = 0; j < w; ++j) s += raw[j / 8] >> (j % 8) & 1 ? '1' : '0'; pause_a_bit(r); std::string got = a.reveal<std::string>(); a.reveal(back.data()); bool same = got == s; for (size_t j = 0; j < w; ++j) same &= (back[j / 8] >> (j % 8) & 1) == (s[j] == '1'); std::unique_ptr<bool[]> bb(new bool[w]); a.revealBools(bb.get(), PUBLIC); for (size_t j = 0; j < w; ++j) same &= bb[j] == (s[j] == '1'); uint64_t lo = 0; for (size_t j = 0; j < w && j < 64; ++j) lo |= (uint64_t)(s[j] == '1') << j; same &= a.reveal<uint64_t>() == lo && a.reveal<uint32_t>() == (uint32_t)lo; if (!same) M.fail("threads:wrong-value", fmt("reveal of %zu bits in a plain session", w)); d.add(got.data(), got.size()); d.num((a * a + a).reveal<uint64_t>()); }
		d.num(c->num_and()); still(d, c, pr); pause_a_bit(r); finalize_plain_prot(); drop(); if (print) { std::string t = slurp(f); d.add(t.data(), t.size()); unlink(f.c_str()); } }
	return d.h;
}
static uint64_t s_plain(uint64_t seed, const std::string &dir) { return plain_prog(seed, dir, false); }
static uint64_t s_circgen(uint64_t seed, const std::string &dir) { return plain_prog(seed, dir, true); }
static uint64_t s_float(uint64_t seed, const std::string &) {
	Rng r(seed); Dig d(seed); if (!want_null(d)) return 0; setup_plain_prot(false, ""); CircuitExecution *c = CircuitExecution::circ_exec; ProtocolExecution *pr = ProtocolExecution::prot_exec;
	float x = (float)(r.below(20000)) / 64 - 100, y = (float)(r.below(20000)) / 128 + 1; { Float a(x, ALICE), b(y, BOB); Float s = a + b; pause_a_bit(r); Float m = a * b, q = a / b; still(d, c, pr); bool ok = s.reveal<double>() == (double)(x + y) && m.reveal<double>() == (double)(x * y) && q.reveal<double>() == (double)(x / y) && a.less_than(b).reveal<bool>() == (x < y); if (!ok) M.fail("threads:wrong-value", fmt("float session %a %a", x, y)); d.num(ok); auto put = [&](const Float &f) { float v = (float)f.reveal<double>(); uint32_t u; memcpy(&u, &v, 4); d.num(u); }; put(a - b); put(a.If(Bit(true, ALICE), b)); d.num(a.equal(b).reveal<bool>()); d.num(a.less_equal(b).reveal<bool>()); switch (r.below(9)) { case 0: put(b.sqrt()); break; case 1: put(a.sqr()); break; case 2: put(a.sin()); break; case 3: put(a.cos()); break; case 4: put(b.ln()); break; case 5: put(b.log2()); break; case 6: put(Float(x / 8, BOB).exp()); break; case 7: put(Float(x / 8, BOB).exp2()); break; default: d.num(std::hash<std::string>()(a.reveal<std::string>())); } still(d, c, pr); } finalize_plain_prot(); drop(); return d.h;
}
static uint64_t s_sliced(uint64_t seed, const std::string &) {
	Rng r(seed); Dig d(seed); if (!want_null(d)) return 0; BS bs; CircuitExecution::circ_exec = &bs; for (int k = 0; k < 3; ++k) { Prog p = rand_prog(r, false, 30, 14, true, 14); std::vector<PVal> v; for (auto &x : p.in) { PVal o; o.isbit = x.isbit; std::vector<Bit> b; for (int j = 0; j < x.w; ++j) b.push_back(x.party ? Bit(rb(r)) : Bit(x.cst.bit(j), PUBLIC)); if (o.isbit) o.b = b[0]; else o.i = Integer(b); v.push_back(o); } v = run_prog(p, v); still(d, &bs, nullptr); for (auto &x : v) { if (x.isbit) d.blk(x.b.bit); else for (size_t j = 0; j < x.i.size(); ++j) d.blk(x.i[j].bit); } pause_a_bit(r); }
	{ size_t n = 2 + r.below(12); std::vector<Integer> a; for (size_t i = 0; i < n; ++i) { Integer x; for (int j = 0; j < 8; ++j) x.bits.push_back(Bit(rb(r))); a.push_back(x); } sort(a.data(), (int)n); for (auto &x : a) for (auto &b : x.bits) d.blk(b.bit); }
	d.num(bs.ands); d.num(bs.gates); CircuitExecution::circ_exec = nullptr; return d.h;
}
// gate and constant labels of a garbled program, decoded with the offset
static std::vector<block> prog_labels(const Prog &p, const std::vector<BV> &in, const std::vector<block> &z, const block *delta, CircuitExecution *c) {
	std::vector<PVal> v; size_t at = 0; for (size_t i = 0; i < p.in.size(); ++i) { PVal o; o.isbit = p.in[i].isbit; std::vector<Bit> b; for (int j = 0; j < p.in[i].w; ++j, ++at) { bool x = in[i].bit(j); b.push_back(!p.in[i].party ? Bit(x, PUBLIC) : Bit(delta && x ? block_of(u_of_block(z[at]) ^ u_of_block(*delta)) : z[at])); } if (o.isbit) o.b = b[0]; else o.i = Integer(b); v.push_back(o); }
	v = run_prog(p, v); std::vector<block> out; for (int o : p.out) { if (v[o].isbit) out.push_back(v[o].b.bit); else for (size_t j = 0; j < v[o].i.size(); ++j) out.push_back(v[o].i[j].bit); } if (CircuitExecution::circ_exec != c) { M.fail("threads:backend-replaced", "garbling session"); M.finish(); } return out;
}
static void decode(const Prog &p, const std::vector<BV> &in, const std::vector<block> &g, const std::vector<block> &e, block delta, Dig &d) { std::vector<BV> ref = ref_prog(p, in); std::string want; for (int o : p.out) want += bits_of(ref[o]); std::string got; for (size_t i = 0; i < g.size(); ++i) { u128 x = u_of_block(g[i]) ^ u_of_block(e[i]); got += x == 0 ? '0' : x == u_of_block(delta) ? '1' : '?'; } if (got != want) M.fail("threads:wrong-value", fmt("garbled session: %s", p.str().c_str())); d.add(got.data(), got.size()); }
static uint64_t s_garble(uint64_t seed, const std::string &) {
	Rng r(seed); Dig d(seed); if (!want_null(d)) return 0; for (int k = 0; k < 2; ++k) { Prog p = rand_prog(r, false, 24, 12, true, 12); std::vector<BV> in = bvs(r, p); size_t nb = 0; for (auto &x : p.in) nb += x.w; std::vector<block> z = rbs(r, nb); MemIO io; HalfGateGen<MemIO> gen(&io); CircuitExecution::circ_exec = &gen; std::vector<block> g = prog_labels(p, in, z, nullptr, &gen); pause_a_bit(r); HalfGateEva<MemIO> eva(&io); CircuitExecution::circ_exec = &eva; std::vector<block> e = prog_labels(p, in, z, &gen.delta, &eva); CircuitExecution::circ_exec = nullptr; decode(p, in, g, e, gen.delta, d); d.num(gen.num_and()); d.num(eva.num_and()); }
	return d.h;
}
static uint64_t s_garble_net(uint64_t seed, const std::string &) { // generator on this thread, evaluator on another, as in a protocol run within one process
	Rng r(seed); Dig d(seed); if (!want_null(d)) return 0; Prog p = rand_prog(r, false, 24, 14, true, 12); std::vector<BV> in = bvs(r, p); size_t nb = 0; for (auto &x : p.in) nb += x.w; std::vector<block> z = rbs(r, nb), g, e; block delta; int port = pick_port(); std::atomic<bool> foreign(false);
	std::thread t([&] { if (CircuitExecution::circ_exec || ProtocolExecution::prot_exec) foreign = true; NetIO io("127.0.0.1", port, true); HalfGateEva<NetIO> eva(&io); block dl; io.recv_block(&dl, 1); CircuitExecution::circ_exec = &eva; e = prog_labels(p, in, z, &dl, &eva); CircuitExecution::circ_exec = nullptr; });
	{ NetIO io(nullptr, port, true); HalfGateGen<NetIO> gen(&io); delta = gen.delta; io.send_block(&delta, 1); CircuitExecution::circ_exec = &gen; g = prog_labels(p, in, z, nullptr, &gen); io.flush(); CircuitExecution::circ_exec = nullptr; t.join(); } if (foreign) M.fail("threads:foreign-backend", "a new thread sees the generator's backend"); decode(p, in, g, e, delta, d); return d.h;
}
static uint64_t s_bristol(uint64_t seed, const std::string &) {
	Rng r(seed); Dig d(seed); if (!want_null(d)) return 0; BS bs; CircuitExecution::circ_exec = &bs; bool fashion = r.coin(); std::vector<block> a = rbs(r, 64), b = rbs(r, 64), o(64); if (!fashion) { BristolFormat f((g_dir_circ + "bristol_format/adder_32bit.txt").c_str()); o.resize(f.n3); f.compute(o.data(), a.data(), b.data()); pause_a_bit(r); BristolFormat g(f.num_gate, f.num_wire, f.n1, f.n2, f.n3, f.gates.data()); std::vector<block> o2(f.n3); g.compute(o2.data(), a.data(), b.data()); d.blks(o2); std::vector<block> w(f.num_wire, zero_block); memcpy(w.data(), a.data(), 16 * f.n1); memcpy(w.data() + f.n1, b.data(), 16 * f.n2); execute_circuit(w.data(), f.gates.data(), f.num_gate); d.add(w.data() + w.size() - f.n3, 16 * f.n3); } else { BristolFashion f((g_dir_circ + "bristol_fashion/aes_128.txt").c_str()); std::vector<block> in = rbs(r, 256); o.resize(128); f.compute(o.data(), in.data()); } still(d, &bs, nullptr); d.blks(o); CircuitExecution::circ_exec = nullptr; return d.h;
}
static uint64_t s_incirc(uint64_t seed, const std::string &) {
	Rng r(seed); Dig d(seed); if (!want_null(d)) return 0; { std::vector<uint8_t> v(1 + r.below(3000)), o(v.size()); r.bytes(v.data(), v.size()); emp::aes_128_ctr(rb(r), rb(r), v.data(), o.data(), v.size(), r.below(1000)); d.add(o.data(), o.size()); uint8_t h[32]; emp::sha3_256(h, v.data(), v.size()); d.add(h, 32); pause_a_bit(r); }
	BS bs; CircuitExecution::circ_exec = &bs; if (r.coin()) { AES_128_CTR_Calculator c; std::vector<block> k = rbs(r, 128), iv = rbs(r, 128), in = rbs(r, 200), o(200); c.aes_128_ctr(k.data(), iv.data(), in.data(), o.data(), 200, PUBLIC, 3); d.blks(o); c.aes_128_ctr(k.data(), rb(r), in.data(), o.data(), 130, PUBLIC, 9); d.blks(o); } else { SHA3_256_Calculator s; std::vector<block> in = rbs(r, 8 * (1 + r.below(40))), o(256); s.sha3_256(o.data(), in.data(), in.size()); d.blks(o); } still(d, &bs, nullptr); CircuitExecution::circ_exec = nullptr; return d.h;
}
#endif
static std::vector<Kind> kinds() {
	std::vector<Kind> k = {{"prg", s_prg}, {"hash", s_hash}, {"ciphers", s_crh}, {"field", s_f2k}, {"group", s_group}, {"MemIO", s_mem}, {"FileIO", s_file}, {"NetIO", s_net}, {"HighSpeedNetIO", s_hsnet}, {"backend objects", s_gates}};
#ifdef THREADING
	std::vector<Kind> t = {{"plain session", s_plain}, {"plain session", s_plain}, {"circuit generation", s_circgen}, {"float session", s_float}, {"bit-sliced session", s_sliced}, {"garbling session", s_garble}, {"garbling session", s_garble}, {"garbling over NetIO", s_garble_net}, {"circuit file", s_bristol}, {"in-circuit crypto", s_incirc}}; k.insert(k.end(), t.begin(), t.end()); k.insert(k.end(), t.begin(), t.end());
#endif
	return k;
}
struct Gate1 { std::atomic<int> n; int total; explicit Gate1(int t) : n(0), total(t) {} void wait() { n.fetch_add(1); while (n.load() < total) sched_yield(); } };
static void rounds() {
	Rng r = M.rng(1); std::vector<Kind> K = kinds(); size_t n = M.n(60);
	for (size_t it = 0; it < n; ++it) {
		int T = 2 + (int)r.below(7), per = 1 + (int)r.below(3); struct Item { const Kind *k; uint64_t seed; std::string dir; uint64_t solo, together; }; std::vector<std::vector<Item>> items(T); bool same_kind = r.coin(3), same_seed = r.coin(6); const Kind *one = &K[r.below(K.size())]; uint64_t s0 = r.u64(); std::string desc;
		for (int t = 0; t < T; ++t) for (int j = 0; j < per; ++j) { Item x; x.k = same_kind ? one : &K[r.below(K.size())]; x.seed = same_seed ? s0 : r.u64(); x.dir = M.tmp + fmt("/t%d", t); mkdir(x.dir.c_str(), 0700); x.solo = x.together = 0; desc += std::string(x.k->name) + (j + 1 == per ? " | " : ", "); items[t].push_back(x); }
		ctx("round %zu: %s", it, desc.c_str());
		auto solo = [&] { for (auto &v : items) { std::thread t([&] { for (auto &x : v) { x.solo = x.k->run(x.seed, x.dir); progress(); } }); t.join(); } };
		auto together = [&] { Gate1 g(T); std::vector<std::thread> th; for (int t = 0; t < T; ++t) th.emplace_back([&, t] { g.wait(); for (auto &x : items[t]) { x.together = x.k->run(x.seed, x.dir); progress(); } }); for (auto &x : th) x.join(); };
		if (it % 2 == 0) { together(); solo(); } else { solo(); together(); } // lazily initialised state is met concurrently first
		for (auto &v : items) for (auto &x : v) { if (x.solo != x.together) M.fail("threads:interference", fmt("%s differs when run beside others: %s", x.k->name, desc.c_str())); M.count(x.k->name); M.eval(mix64(x.seed ^ hash_bytes(x.k->name, strlen(x.k->name))), 1); } M.count("rounds"); M.count(fmt("rounds_of_%d_threads", T).c_str()); if (M.want_sample()) M.sample(desc);
	}
}
// Objects made on one thread and used on another, one per thread, all at once.
static void handoff() {
	Rng r = M.rng(2); size_t n = M.n(25);
	for (size_t it = 0; it < n; ++it) {
		int T = 2 + (int)r.below(6); uint64_t base = r.u64(); ctx("hand-over round %zu, %d threads", it, T); std::vector<uint64_t> solo(T), tog(T);
		auto run = [&](int t, PRG &p, Hash &h, MITCCRH<8> &m, Group &G, MemIO &io) { Rng q(mix64(base + t)); Dig d(t); use_prg(p, q, d); use_hash(h, q, d); use_mit(m, q, d); use_group(G, q, d); bool ok = true; Rng s(q.u64()); io_send(io, G, s); io_recv(io, G, s, d, &ok); d.num(ok); progress(); return d.h; };
		auto make = [&](int t, std::function<void(PRG &, Hash &, MITCCRH<8> &, Group &, MemIO &)> f) { Rng q(mix64(base ^ (t + 1))); block s = rb(q); PRG p(&s); block x; p.random_block(&x, 1); Hash h; h.put(&x, 5); MITCCRH<8> m; m.setS(x); Group G; MemIO io(10); f(p, h, m, G, io); };
		for (int t = 0; t < T; ++t) make(t, [&](PRG &p, Hash &h, MITCCRH<8> &m, Group &G, MemIO &io) { solo[t] = run(t, p, h, m, G, io); });
		std::vector<std::thread> th; Gate1 go(T); std::function<void(int)> rec = [&](int t) { if (t == T) { for (auto &x : th) x.join(); return; } make(t, [&](PRG &p, Hash &h, MITCCRH<8> &m, Group &G, MemIO &io) { th.emplace_back([&, t] { go.wait(); tog[t] = run(t, p, h, m, G, io); }); rec(t + 1); }); }; rec(0);
		for (int t = 0; t < T; ++t) if (solo[t] != tog[t]) M.fail("threads:interference", fmt("objects handed to thread %d of %d behave differently", t, T)); M.eval(mix64(base), T); M.count("handover_rounds"); progress();
	}
}
#ifdef THREADING
// Installing, replacing and dropping a backend on one thread never shows on another.
static void visibility() {
	Rng r = M.rng(3); size_t n = M.n(40);
	for (size_t it = 0; it < n; ++it) {
		int T = 2 + (int)r.below(6), steps = 30; ctx("visibility round %zu, %d threads", it, T); uint64_t base = r.u64(); std::vector<std::thread> th; Gate1 g(T);
		for (int t = 0; t < T; ++t) th.emplace_back([&, t] { Rng q(mix64(base + t)); g.wait(); std::vector<std::unique_ptr<BS>> own; CircuitExecution *c = nullptr; ProtocolExecution *p = nullptr; bool plain = false; for (int i = 0; i < steps; ++i) { if (CircuitExecution::circ_exec != c || ProtocolExecution::prot_exec != p) { M.fail("threads:backend-replaced", fmt("thread %d, step %d", t, i)); M.finish(); } switch (q.below(3)) { case 0: if (plain) { finalize_plain_prot(); plain = false; p = nullptr; ProtocolExecution::prot_exec = nullptr; } own.emplace_back(new BS); CircuitExecution::circ_exec = c = own.back().get(); break; case 1: if (plain) finalize_plain_prot(); setup_plain_prot(false, ""); plain = true; c = CircuitExecution::circ_exec; p = ProtocolExecution::prot_exec; if (!c || !p) { M.fail("threads:not-installed", ""); M.finish(); } { Integer a(16, (int)q.below(30000), ALICE), b(16, 77, PUBLIC); if ((a + b - a).reveal<int>() != 77) M.fail("threads:wrong-value", "visibility session"); } break; default: if (plain) finalize_plain_prot(); plain = false; CircuitExecution::circ_exec = c = nullptr; ProtocolExecution::prot_exec = p = nullptr; } pause_a_bit(q); progress(); } if (plain) finalize_plain_prot(); });
		for (auto &x : th) x.join(); if (CircuitExecution::circ_exec || ProtocolExecution::prot_exec) M.fail("threads:foreign-backend", "the main thread sees a backend it did not install"); M.eval(mix64(base), T * steps); M.count("visibility_steps", T * steps);
	}
}
#endif
int main(int argc, char **argv) {
	init(argc, argv); start_watchdog(120);
#ifdef THREADING
	g_dir_circ = std::string(getenv("VERIF_REPO_DIR") ? getenv("VERIF_REPO_DIR") : "/repo") + "/emp-tool/circuits/files/";
#endif
	rounds(); handoff();
#ifdef THREADING
	visibility();
#endif
	return done();
}
