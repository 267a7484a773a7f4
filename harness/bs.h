// Bit-sliced execution backend (128 evaluations at once), reference bit vectors, random programs.
#ifndef VF_BS_H
#define VF_BS_H
#include "common.h"
#include "emp-tool/emp-tool.h"
#include <array>
namespace vf {
using emp::block; using emp::Bit; using emp::Integer;
struct BS : emp::CircuitExecution {
	uint64_t ands = 0, gates = 0;
	block and_gate(const block &a, const block &b) override { ++ands; ++gates; return a & b; }
	block xor_gate(const block &a, const block &b) override { ++gates; return a ^ b; }
	block not_gate(const block &a) override { ++gates; return a ^ emp::all_one_block; }
	block public_label(bool b) override { return b ? emp::all_one_block : emp::zero_block; }
};
// reference bit vector, two's complement modulo 2^w
#ifndef BV_WORDS
#define BV_WORDS 12
#endif
struct BV {
	static const int WORDS = BV_WORDS; int w; std::array<uint64_t, WORDS> d;
	explicit BV(int w_ = 0, uint64_t v = 0) : w(w_) { d.fill(0); d[0] = v; trim(); }
	void trim() { for (int i = 0; i < WORDS; ++i) { if (i * 64 >= w) d[i] = 0; else if (i * 64 + 64 > w) d[i] &= (~0ULL) >> (64 - (w - i * 64)); } }
	bool bit(int i) const { return i < w && ((d[i >> 6] >> (i & 63)) & 1); }
	void set(int i, bool v) { if (v) d[i >> 6] |= 1ULL << (i & 63); else d[i >> 6] &= ~(1ULL << (i & 63)); }
	bool neg() const { return w && bit(w - 1); }
	bool zero() const { for (auto x : d) if (x) return false; return true; }
	bool operator==(const BV &o) const { return w == o.w && d == o.d; }
	std::string str() const { std::string s; for (int i = (w + 63) / 64 - 1; i >= 0; --i) s += fmt("%016llx", (unsigned long long)d[i]); return fmt("%d'", w) + s; }
	uint64_t low() const { return d[0]; }
	BV sext(int n) const { BV r = *this; r.w = n; if (neg()) for (int i = w; i < n; ++i) r.set(i, true); r.trim(); return r; }
	BV zext(int n) const { BV r = *this; r.w = n; r.trim(); return r; }
};
static inline BV bnot(const BV &a) { BV r = a; for (auto &x : r.d) x = ~x; r.trim(); return r; }
static inline BV badd(const BV &a, const BV &b, bool cin = false) { BV r(a.w); unsigned __int128 c = cin; int n = (a.w + 63) / 64; for (int i = 0; i < n; ++i) { c += (unsigned __int128)a.d[i] + b.d[i]; r.d[i] = (uint64_t)c; c >>= 64; } r.trim(); return r; }
static inline BV bneg(const BV &a) { return badd(bnot(a), BV(a.w, 0), true); }
static inline BV bsub(const BV &a, const BV &b) { return badd(a, bnot(b), true); }
static inline BV bmul(const BV &a, const BV &b) { BV r(a.w); int n = (a.w + 63) / 64; for (int i = 0; i < n; ++i) { unsigned __int128 c = 0; for (int j = 0; i + j < n; ++j) { c += (unsigned __int128)a.d[i] * b.d[j] + r.d[i + j]; r.d[i + j] = (uint64_t)c; c >>= 64; } } r.trim(); return r; }
static inline BV bxor(const BV &a, const BV &b) { BV r = a; for (int i = 0; i < BV::WORDS; ++i) r.d[i] ^= b.d[i]; return r; }
static inline BV band(const BV &a, const BV &b) { BV r = a; for (int i = 0; i < BV::WORDS; ++i) r.d[i] &= b.d[i]; return r; }
static inline BV bor(const BV &a, const BV &b) { BV r = a; for (int i = 0; i < BV::WORDS; ++i) r.d[i] |= b.d[i]; return r; }
static inline int ucmp(const BV &a, const BV &b) { for (int i = BV::WORDS - 1; i >= 0; --i) if (a.d[i] != b.d[i]) return a.d[i] < b.d[i] ? -1 : 1; return 0; }
static inline int scmp(const BV &a, const BV &b) { if (a.neg() != b.neg()) return a.neg() ? -1 : 1; return ucmp(a, b); }
static inline BV bshl(const BV &a, size_t n) { BV r(a.w); for (int i = 0; i < a.w; ++i) if ((size_t)i >= n && a.bit(i - (int)n)) r.set(i, true); return r; }
static inline BV bshr(const BV &a, size_t n) { BV r(a.w); if (n < (size_t)a.w) for (int i = 0; i + (int)n < a.w; ++i) if (a.bit(i + (int)n)) r.set(i, true); return r; }
static inline void udiv(const BV &a, const BV &b, BV &q, BV &m) {
	q = BV(a.w); m = BV(a.w);
	if (a.w <= 64) { q.d[0] = a.d[0] / b.d[0]; m.d[0] = a.d[0] % b.d[0]; return; }
	BV rem(a.w + 1), bb = b.zext(a.w + 1);
	for (int i = a.w - 1; i >= 0; --i) { rem = badd(rem, rem); if (a.bit(i)) rem.set(0, true); if (ucmp(rem, bb) >= 0) { rem = bsub(rem, bb); q.set(i, true); } }
	m = rem.zext(a.w);
}
static inline BV babs(const BV &a) { return a.neg() ? bneg(a) : a; }
static inline BV bdiv(const BV &a, const BV &b) { BV q, m; udiv(babs(a), babs(b), q, m); return a.neg() != b.neg() ? bneg(q) : q; }
static inline BV bmod(const BV &a, const BV &b) { BV q, m; udiv(babs(a), babs(b), q, m); return a.neg() ? bneg(m) : m; }
static inline int bpop(const BV &a) { int n = 0; for (int i = 0; i < a.w; ++i) n += a.bit(i); return n; }
static inline int blz(const BV &a) { int n = 0; for (int i = a.w - 1; i >= 0 && !a.bit(i); --i) ++n; return n; }

typedef std::vector<BV> Lanes; // 128 lanes
static inline Integer slice(const Lanes &v) { std::vector<Bit> bits; int w = v[0].w; bits.reserve(w); for (int i = 0; i < w; ++i) { uint64_t l[2] = {0, 0}; for (int k = 0; k < 128; ++k) l[k >> 6] |= (uint64_t)v[k].bit(i) << (k & 63); bits.push_back(Bit(emp::makeBlock(l[1], l[0]))); } return Integer(bits); }
static inline Bit slice_bit(const std::vector<uint8_t> &v) { uint64_t l[2] = {0, 0}; for (int k = 0; k < 128; ++k) l[k >> 6] |= (uint64_t)(v[k] & 1) << (k & 63); return Bit(emp::makeBlock(l[1], l[0])); }
static inline Lanes unslice(const Integer &x) { int w = (int)x.size(); Lanes v(128, BV(w)); for (int i = 0; i < w; ++i) { uint64_t l[2]; memcpy(l, &x.bits[i].bit, 16); for (int k = 0; k < 128; ++k) if ((l[k >> 6] >> (k & 63)) & 1) v[k].set(i, true); } return v; }
static inline std::vector<uint8_t> unslice(const Bit &x) { uint64_t l[2]; memcpy(l, &x.bit, 16); std::vector<uint8_t> v(128); for (int k = 0; k < 128; ++k) v[k] = (l[k >> 6] >> (k & 63)) & 1; return v; }
static inline bool same_bits(const Integer &a, const Integer &b) { return a.size() == b.size() && (a.size() == 0 || !memcmp(a.bits.data(), b.bits.data(), a.size() * sizeof(Bit))); }
static inline BV rand_bv(Rng &r, int w, const BV *rel = nullptr) {
	BV v(w); for (int i = 0; i * 64 < w; ++i) v.d[i] = r.u64(); v.trim();
	switch (r.below(rel ? 16 : 11)) {
	case 0: return BV(w, 0); case 1: return BV(w, 1); case 2: return bnot(BV(w, 0)); case 3: { BV m(w); m.set(w - 1, true); return m; } case 4: { BV m(w); m.set(w - 1, true); return bnot(m); }
	case 5: { BV m(w); m.set(r.below(w), true); return m; } case 6: { BV m(w); m.set(r.below(w), true); return bsub(m, BV(w, 1)); } case 7: return BV(w, r.below(20)); case 8: return bneg(BV(w, r.below(20))); case 9: { BV m = v; for (int i = w / 2; i < w; ++i) m.set(i, false); return m; } case 10: return v;
	case 11: return *rel; case 12: return bneg(*rel); case 13: return badd(*rel, BV(w, 1)); case 14: return bsub(*rel, BV(w, 1)); default: { BV m = *rel; int b = r.below(w); m.set(b, !m.bit(b)); return m; }
	}
}

// ---------------------------------------------------------------- random programs
enum POp { P_ADD, P_SUB, P_MUL, P_DIV, P_MOD, P_AND, P_OR, P_XOR, P_NEG, P_XORA, P_SELF, P_NARITH, // arithmetic and logic
           P_SHL, P_SHR, P_SHLS, P_SHRS, P_SEL, P_GE, P_LT, P_LE, P_GT, P_EQ, P_NE, P_ABS, P_RSS, P_RSU, P_LZ, P_POP, P_BAND, P_BOR, P_BXOR, P_BNOT, P_BEQ, P_BNE, P_BSEL, P_GETBIT, P_SETBIT, P_SWAP, P_COUNT };
static const char *pname[] = {"+", "-", "*", "/", "%", "&", "|", "^", "neg", "^=", "self", "", "<<c", ">>c", "<<s", ">>s", "sel", ">=", "<", "<=", ">", "==", "!=", "abs", "resize", "uresize", "lz", "pop", "band", "bor", "bxor", "bnot", "beq", "bne", "bsel", "getbit", "setbit", "swap"};
struct PIn { int w; int party; BV cst; bool isbit; };           // party 0: public constant
struct PIns { POp op; int a, b, c; uint64_t imm; };
struct Prog { std::vector<PIn> in; std::vector<PIns> ins; std::vector<int> out; // values: inputs, then results
	std::string str() const { std::string s; for (auto &i : in) s += fmt("%s%d@%d ", i.isbit ? "b" : "i", i.w, i.party); s += "; "; for (auto &i : ins) s += fmt("%s(%d,%d,%d,%llu) ", pname[i.op], i.a, i.b, i.c, (unsigned long long)i.imm); return s.substr(0, 900); } };
// widths: 0 stands for a Bit
static inline Prog rand_prog(Rng &r, bool arith_only, int max_w, int n_ins, bool with_public, int heavy_w = 24, bool order_parties = false) {
	Prog p; std::vector<int> W; int nin = 2 + r.below(5);
	for (int i = 0; i < nin; ++i) { PIn x; x.isbit = !arith_only && r.coin(5); x.w = x.isbit ? 1 : 1 + (int)r.below(max_w); if (i && !x.isbit && W.size() && r.coin()) { int v = W[r.below(W.size())]; if (v) x.w = v; } x.party = with_public && i && r.coin(3) ? 0 : 1 + (int)r.below(2); x.cst = rand_bv(r, x.w); p.in.push_back(x); W.push_back(x.isbit ? 0 : x.w); }
	if (order_parties) { std::stable_sort(p.in.begin(), p.in.end(), [](const PIn &a, const PIn &b) { return (a.party ? a.party : 3) < (b.party ? b.party : 3); }); W.clear(); for (auto &x : p.in) W.push_back(x.isbit ? 0 : x.w); }
	auto pick_int = [&](int w) { std::vector<int> c; for (size_t i = 0; i < W.size(); ++i) if (w > 0 ? W[i] == w : W[i] > 0) c.push_back(i); return c.empty() ? -1 : c[c.size() > 3 && r.coin() ? c.size() - 1 - r.below(3) : r.below(c.size())]; };
	auto pick_bit = [&]() { std::vector<int> c; for (size_t i = 0; i < W.size(); ++i) if (W[i] == 0) c.push_back(i); return c.empty() ? -1 : c[r.below(c.size())]; };
	for (int k = 0; k < n_ins; ++k) {
		PIns x; x.op = (POp)r.below(arith_only ? P_NARITH : P_COUNT); if (x.op == P_NARITH) continue; x.a = pick_int(0); x.b = x.c = -1; x.imm = 0; if (x.a < 0 && (x.op < P_BAND || x.op == P_SWAP || x.op == P_GETBIT || x.op == P_SETBIT)) continue; int w = x.a >= 0 ? W[x.a] : 0, res = w;
		switch (x.op) {
		case P_MUL: case P_DIV: case P_MOD: if (w > heavy_w) continue; x.b = pick_int(w); break;
		case P_ADD: case P_SUB: case P_AND: case P_OR: case P_XOR: case P_XORA: x.b = pick_int(w); break;
		case P_SELF: x.imm = r.below(7); if (x.imm == 2 && w > heavy_w) continue; break;
		case P_NEG: case P_ABS: break;
		case P_SHL: case P_SHR: x.imm = r.coin(8) ? w + r.below(5) : r.below(w + 1); break;
		case P_SHLS: case P_SHRS: x.b = pick_int(0); break;
		case P_SEL: case P_SWAP: x.b = pick_int(w); x.c = pick_bit(); if (x.c < 0) continue; break;
		case P_GE: case P_LT: case P_LE: case P_GT: case P_EQ: case P_NE: x.b = pick_int(w); res = 0; break;
		case P_RSS: case P_RSU: x.imm = res = 1 + r.below(max_w); break;
		case P_LZ: case P_POP: res = 12; break;
		case P_BAND: case P_BOR: case P_BXOR: case P_BEQ: case P_BNE: x.a = pick_bit(); x.b = pick_bit(); if (x.a < 0) continue; res = 0; break;
		case P_BNOT: x.a = pick_bit(); if (x.a < 0) continue; res = 0; break;
		case P_BSEL: x.a = pick_bit(); x.b = pick_bit(); x.c = pick_bit(); if (x.a < 0) continue; res = 0; break;
		case P_GETBIT: x.imm = r.below(w); res = 0; break;
		case P_SETBIT: x.b = pick_bit(); x.imm = r.below(w); if (x.b < 0) continue; break;
		default: continue;
		}
		p.ins.push_back(x); W.push_back(res);
		if (x.op == P_SWAP) W.push_back(res); // two results
	}
	int nv = (int)W.size(); int no = 1 + r.below(4); for (int i = 0; i < no; ++i) p.out.push_back(r.coin() ? nv - 1 - (int)r.below(std::min(nv, 4)) : (int)r.below(nv));
	return p;
}
struct PVal { bool isbit; Integer i; Bit b; };
static inline int shift_bits(int w) { int k = 0; while ((2 << k) <= w) ++k; return k; } // 2^k <= w
static inline std::vector<PVal> run_prog(const Prog &p, const std::vector<PVal> &inputs, bool *operands_changed = nullptr) {
	std::vector<PVal> v = inputs;
	for (auto &x : p.ins) {
		PVal o; o.isbit = false; PVal second; bool two = false;
		std::vector<PVal> before; if (operands_changed) { if (x.a >= 0) before.push_back(v[x.a]); if (x.b >= 0) before.push_back(v[x.b]); }
#define A (v[x.a].i)
#define B_ (v[x.b].i)
		switch (x.op) {
		case P_ADD: o.i = A + B_; break; case P_SUB: o.i = A - B_; break; case P_MUL: o.i = A * B_; break;
		case P_DIV: case P_MOD: { Integer d = B_; d[0] = Bit(true); o.i = x.op == P_DIV ? A / d : A % d; break; }
		case P_AND: o.i = A & B_; break; case P_OR: o.i = A | B_; break; case P_XOR: o.i = A ^ B_; break; case P_NEG: o.i = -A; break;
		case P_XORA: o.i = A; o.i ^= B_; break;
		case P_SELF: { Integer t = A; switch (x.imm) { case 0: t = t + t; break; case 1: t = t - t; break; case 2: t = t * t; break; case 3: t = t ^ t; break; case 4: t = t & t; break; case 5: t = -t; break; default: { Integer &u = t; t = u; t ^= u; } } o.i = t; break; }
		case P_SHL: o.i = A << (size_t)x.imm; break; case P_SHR: o.i = A >> (size_t)x.imm; break;
		case P_SHLS: case P_SHRS: { int k = shift_bits((int)A.size()); Integer s = B_; s.resize(k, false); s.resize(k + 1, false); o.i = x.op == P_SHLS ? A << s : A >> s; break; }
		case P_SEL: o.i = A.select(v[x.c].b, B_); break;
		case P_SWAP: { two = true; o.i = A; second.isbit = false; second.i = B_; emp::swap(v[x.c].b, o.i, second.i); break; }
		case P_GE: o.isbit = true; o.b = A >= B_; break; case P_LT: o.isbit = true; o.b = A < B_; break; case P_LE: o.isbit = true; o.b = A <= B_; break; case P_GT: o.isbit = true; o.b = A > B_; break; case P_EQ: o.isbit = true; o.b = A == B_; break; case P_NE: o.isbit = true; o.b = A != B_; break;
		case P_ABS: o.i = A.abs(); break;
		case P_RSS: o.i = A; o.i.resize(x.imm, true); break; case P_RSU: o.i = A; o.i.resize(x.imm, false); break;
		case P_LZ: o.i = A.leading_zeros(); o.i.resize(12, false); break; case P_POP: o.i = A.hamming_weight(); o.i.resize(12, false); break;
		case P_BAND: o.isbit = true; o.b = v[x.a].b & v[x.b].b; break; case P_BOR: o.isbit = true; o.b = v[x.a].b | v[x.b].b; break; case P_BXOR: o.isbit = true; o.b = v[x.a].b ^ v[x.b].b; break; case P_BNOT: o.isbit = true; o.b = !v[x.a].b; break;
		case P_BEQ: o.isbit = true; o.b = v[x.a].b == v[x.b].b; break; case P_BNE: o.isbit = true; o.b = v[x.a].b != v[x.b].b; break;
		case P_BSEL: o.isbit = true; o.b = v[x.a].b.select(v[x.c].b, v[x.b].b); break;
		case P_GETBIT: o.isbit = true; o.b = A[x.imm]; break;
		case P_SETBIT: o.i = A; o.i[x.imm] = v[x.b].b; break;
		default: break;
		}
#undef A
#undef B_
		if (operands_changed) { size_t q = 0; for (int id : {x.a, x.b}) if (id >= 0) { const PVal &n = v[id], &b = before[q++]; if (n.isbit ? memcmp(&n.b.bit, &b.b.bit, 16) != 0 : !same_bits(n.i, b.i)) *operands_changed = true; } }
		v.push_back(o); if (two) v.push_back(second);
	}
	return v;
}
static inline std::vector<BV> ref_prog(const Prog &p, const std::vector<BV> &inputs) { // bits are 1-bit vectors
	std::vector<BV> v = inputs; auto bb = [](bool b) { return BV(1, b); };
	for (auto &x : p.ins) {
		BV o; BV second; bool two = false; const BV a = x.a >= 0 ? v[x.a] : BV(), b = x.b >= 0 ? v[x.b] : BV();
		switch (x.op) {
		case P_ADD: o = badd(a, b); break; case P_SUB: o = bsub(a, b); break; case P_MUL: o = bmul(a, b); break;
		case P_DIV: { BV d = b; d.set(0, true); o = bdiv(a, d); break; } case P_MOD: { BV d = b; d.set(0, true); o = bmod(a, d); break; }
		case P_AND: case P_BAND: o = band(a, b); break; case P_OR: case P_BOR: o = bor(a, b); break; case P_XOR: case P_XORA: case P_BXOR: case P_BNE: o = bxor(a, b); break; case P_BEQ: o = bnot(bxor(a, b)); break; case P_NEG: o = bneg(a); break;
		case P_SELF: switch (x.imm) { case 0: o = badd(a, a); break; case 1: case 3: o = BV(a.w, 0); break; case 2: o = bmul(a, a); break; case 4: o = a; break; case 5: o = bneg(a); break; default: o = BV(a.w, 0); } break;
		case P_SHL: o = bshl(a, x.imm); break; case P_SHR: o = bshr(a, x.imm); break;
		case P_SHLS: o = bshl(a, b.zext(shift_bits(a.w)).low()); break; case P_SHRS: o = bshr(a, b.zext(shift_bits(a.w)).low()); break;
		case P_SEL: o = v[x.c].low() & 1 ? b : a; break; case P_BSEL: o = v[x.c].low() & 1 ? b : a; break;
		case P_SWAP: two = true; if (v[x.c].low() & 1) { o = b; second = a; } else { o = a; second = b; } break;
		case P_GE: o = bb(scmp(a, b) >= 0); break; case P_LT: o = bb(scmp(a, b) < 0); break; case P_LE: o = bb(scmp(a, b) <= 0); break; case P_GT: o = bb(scmp(a, b) > 0); break; case P_EQ: o = bb(a == b); break; case P_NE: o = bb(!(a == b)); break;
		case P_ABS: o = babs(a); break; case P_RSS: o = a.sext(x.imm); break; case P_RSU: o = a.zext(x.imm); break;
		case P_LZ: o = BV(12, blz(a)); break; case P_POP: o = BV(12, bpop(a)); break; case P_BNOT: o = bnot(a); break;
		case P_GETBIT: o = bb(a.bit(x.imm)); break; case P_SETBIT: o = a; o.set(x.imm, b.low() & 1); break;
		default: break;
		}
		v.push_back(o); if (two) v.push_back(second);
	}
	return v;
}
} // namespace vf
#endif
