// Independent description, writer, parser and bit-sliced evaluator of gate lists.
#ifndef VF_CIRC_H
#define VF_CIRC_H
#include "bs.h"
namespace vf {
struct Gate { int op, a, b, z; }; // 0 AND, 1 XOR, 2 INV
struct Circ { int nw = 0; std::vector<int> ins, outs; std::vector<Gate> g;
	int ni() const { int n = 0; for (int x : ins) n += x; return n; }
	int no() const { int n = 0; for (int x : outs) n += x; return n; } };
typedef unsigned __int128 u128;
static inline u128 u_of_block(const block &b) { u128 x; memcpy(&x, &b, 16); return x; }
static inline block block_of(u128 x) { block b; memcpy(&b, &x, 16); return b; }
static inline std::vector<u128> eval(const Circ &c, const std::vector<u128> &in) {
	std::vector<u128> w(c.nw, 0); std::copy(in.begin(), in.end(), w.begin());
	for (auto &g : c.g) w[g.z] = g.op == 0 ? w[g.a] & w[g.b] : g.op == 1 ? w[g.a] ^ w[g.b] : ~w[g.a];
	return std::vector<u128>(w.end() - c.no(), w.end());
}
// Reads a gate list, checking that it is well formed: every wire written once, before it is read, none out of range.
static inline std::string parse(const std::string &text, bool fashion, Circ &c) {
	std::vector<std::string> t; { size_t i = 0, n = text.size(); while (i < n) { while (i < n && isspace((unsigned char)text[i])) ++i; size_t j = i; while (j < n && !isspace((unsigned char)text[j])) ++j; if (j > i) t.push_back(text.substr(i, j - i)); i = j; } }
	size_t p = 0; auto num = [&]() -> long { if (p >= t.size()) return -1; char *e; long v = strtol(t[p].c_str(), &e, 10); if (*e) return -1; ++p; return v; };
	long ng = num(), nw = num(); if (ng < 0 || nw < 0) return "bad header"; c = Circ(); c.nw = (int)nw;
	if (fashion) { long k = num(); if (k < 0) return "bad header"; while (k--) c.ins.push_back((int)num()); k = num(); if (k < 0) return "bad header"; while (k--) c.outs.push_back((int)num()); }
	else { c.ins.push_back((int)num()); c.ins.push_back((int)num()); c.outs.push_back((int)num()); }
	for (int x : c.ins) if (x < 0) return "bad header"; for (int x : c.outs) if (x < 0) return "bad header";
	if (c.ni() > nw || c.no() > nw) return "header counts exceed the wires";
	std::vector<uint8_t> def(nw, 0); for (int i = 0; i < c.ni(); ++i) def[i] = 1;
	for (long i = 0; i < ng; ++i) {
		long k = num(), one = num(); if ((k != 1 && k != 2) || one != 1) return fmt("gate %ld: bad arity", i); Gate g; g.b = 0; g.a = (int)num(); if (k == 2) g.b = (int)num(); g.z = (int)num(); if (p >= t.size()) return "truncated"; std::string o = t[p++];
		g.op = o == "AND" ? 0 : o == "XOR" ? 1 : o == "INV" ? 2 : 9; if (g.op == 9 || (g.op == 2) != (k == 1)) return fmt("gate %ld: bad operation", i);
		if (g.a < 0 || g.a >= nw || g.b < 0 || g.b >= nw || g.z < 0 || g.z >= nw) return fmt("gate %ld: wire out of range", i);
		if (!def[g.a] || (k == 2 && !def[g.b])) return fmt("gate %ld reads an undefined wire", i); if (def[g.z]) return fmt("gate %ld redefines wire %d", i, g.z); def[g.z] = 1; c.g.push_back(g);
	}
	if (p != t.size()) return "more gates than the header says"; for (long i = 0; i < nw; ++i) if (!def[i]) return fmt("wire %ld is never defined", i);
	return "";
}
static inline std::string slurp(const std::string &f) { std::string s; FILE *h = fopen(f.c_str(), "rb"); if (!h) return s; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, h)) > 0) s.append(b, n); fclose(h); return s; }
static inline void spill(const std::string &f, const std::string &s) { FILE *h = fopen(f.c_str(), "wb"); if (!h || fwrite(s.data(), 1, s.size(), h) != s.size()) _exit(70); fclose(h); }
}
#endif
