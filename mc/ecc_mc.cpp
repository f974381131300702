// Exhaustive enumeration of chunks, lengths and error patterns on the real ECC routines (both builds of the field).
#include "par.hpp"
#include <algorithm>
#include <memory>
#define memcpy(d, s, n) ((n) ? (memcpy)(d, s, n) : (void *)(d))
#define memcmp(a, b, n) ((n) ? (memcmp)(a, b, n) : 0)
typedef uint8_t u8; typedef uint32_t u32; typedef uint64_t u64;
#define API(P) unsigned P##mul(unsigned, unsigned); unsigned P##div(unsigned, unsigned); unsigned P##mulx(unsigned); unsigned P##divx(unsigned); \
	int P##deg(int); int P##eccb(int); unsigned long long P##gen(int); int P##maxchunk(); int P##maxecc(); void P##bgen(int, const u8 *, size_t, u8 *); int P##bver(int, const u8 *, size_t, const u8 *); void P##brep(int, u8 *, size_t, u8 *); \
	int P##hmax(); int P##hecc(); void P##hgen(const u8 *, size_t, u8 *); unsigned P##hsyn(const u8 *, size_t, const u8 *); int P##hrep(u8 *, size_t, unsigned); unsigned P##crc(const u8 *, size_t, unsigned); unsigned P##crcinit();
extern "C" { API(t_xe_) API(n_xe_) }
static int c_states, c_exec, c_cases;
struct Item { char kind; int k; long len; int pat; int x; };
static std::vector<Item> items; static long cur_item = -1; static std::string doing = "start";
static void tick(u64 n = 1) { par::cnt[c_exec] += n; par::cnt[c_states] += n; par::progress++; }
static u8 pat(int p, long i) { switch (p) { case 0: return 0xff; case 1: return 0; case 2: { u32 z = (u32)i * 2654435761u + 12345; z ^= z >> 15; z *= 0x85ebca6bu; return z >> 13; } case 3: return i * 37 + 11; default: return i & 1 ? 0xaa : 0x55; } }
static void flip(u8 *d, u8 *e, long dl, long b) { if (b < dl * 8) d[b >> 3] ^= 1 << (b & 7); else { b -= dl * 8; e[b >> 3] ^= 1 << (b & 7); } }
static const int DIRTY = 4096;
static void __attribute__((noinline)) paint(int v) { volatile u8 b[DIRTY]; for (int i = 0; i < DIRTY; i++) b[i] = v; }

// ---------------------------------------------------------------- Hamming
struct HB { std::vector<u8> d, o; u8 e[8], eo[8]; long n; };
static bool hload(HB &h, long n, const std::vector<u8> &d) {
	h.n = n; h.o = d; h.d = d; h.d.push_back(0xC3); memset(h.e, 0x99, 8); t_xe_hgen(h.d.data(), n, h.e); memcpy(h.eo, h.e, 8); tick();
	if (memcmp(h.d.data(), h.o.data(), n) || h.d[n] != 0xC3 || h.e[3] != 0x99) return par::fail("hamming_generate changed something other than the ECC bytes (length %ld)", n);
	if (t_xe_hsyn(h.d.data(), n, h.e)) return par::fail("an unmodified chunk of %ld bytes has a non-zero Hamming syndrome", n);
	if (t_xe_hrep(h.d.data(), n, 0) || memcmp(h.d.data(), h.o.data(), n)) return par::fail("repair of an error-free chunk of %ld bytes does something", n);
	return true; }
static bool h1(HB &h, long b) {
	flip(h.d.data(), h.e, h.n, b); tick(); unsigned s = t_xe_hsyn(h.d.data(), h.n, h.e); int r = s ? t_xe_hrep(h.d.data(), h.n, s) : 1;
	bool ok = s && r == 0 && !memcmp(h.d.data(), h.o.data(), h.n) && h.d[h.n] == 0xC3;
	memcpy(h.d.data(), h.o.data(), h.n); memcpy(h.e, h.eo, 8); h.d[h.n] = 0xC3;
	return ok || par::fail("Hamming: one flipped bit (bit %ld of %s, chunk of %ld bytes) is not corrected: syndrome %06x, repair %d", b < 8 * h.n ? b : b - 8 * h.n, b < 8 * h.n ? "data" : "ECC", h.n, s, r); }
static bool h2(HB &h, long a, long b) {
	u8 *d = h.d.data(); flip(d, h.e, h.n, a); flip(d, h.e, h.n, b); tick(); unsigned s = t_xe_hsyn(d, h.n, h.e); int r = s ? t_xe_hrep(d, h.n, s) : 1;
	bool ok = s && r == -1; flip(d, h.e, h.n, a); flip(d, h.e, h.n, b);
	if (ok && (a < 8 * h.n || b < 8 * h.n)) { for (long q : {a, b}) if (q < 8 * h.n && d[q >> 3] != h.o[q >> 3]) ok = false; }
	if (!ok || (par::cnt[c_exec] & 1023) == 0) if (memcmp(d, h.o.data(), h.n) || d[h.n] != 0xC3) { ok = false; memcpy(d, h.o.data(), h.n); d[h.n] = 0xC3; memcpy(h.e, h.eo, 8); }
	return ok || par::fail("Hamming: two flipped bits (%ld and %ld, chunk of %ld bytes, ECC from bit %ld) not reported: syndrome %06x, repair %d", a, b, h.n, 8 * h.n, s, r); }
static std::vector<u8> mk(long n, int p) { std::vector<u8> d(n); for (long i = 0; i < n; i++) d[i] = pat(p, i); return d; }
static bool ham_item(const Item &it) {
	HB h; long n = it.len, bits = 8 * n + 24;
	switch (it.kind) {
	case 's': if (!hload(h, n, mk(n, it.pat))) return false; for (long b = 0; b < bits; b++) if (!h1(h, b)) return false; return true;
	case 'd': if (!hload(h, n, mk(n, it.pat))) return false; for (long a = it.x; a < bits; a += 8) for (long b = a + 1; b < bits; b++) if (!h2(h, a, b)) return false;
		if (memcmp(h.d.data(), h.o.data(), n)) return par::fail("Hamming repair changes a chunk with two errors"); return true;
	case 'x': { // every value of the whole chunk, all single and double errors
		u64 tot = 1ull << (8 * n); for (u64 v = it.x; v < tot; v += 16) { std::vector<u8> d(n); for (long i = 0; i < n; i++) d[i] = v >> (8 * i); if (!hload(h, n, d)) return false; for (long a = 0; a < bits; a++) { if (!h1(h, a)) return false; for (long b = a + 1; b < bits; b++) if (!h2(h, a, b)) return false; } } return true; }
	case 'b': { // every byte value at every position x, errors in that byte and in the ECC
		auto d = mk(n, it.pat); for (int v = 0; v < 256; v++) { d[it.x] = v; if (!hload(h, n, d)) return false; std::vector<long> q; for (int j = 0; j < 8; j++) q.push_back(8l * it.x + j); for (int j = 0; j < 24; j++) q.push_back(8 * n + j); for (size_t a = 0; a < q.size(); a++) { if (!h1(h, q[a])) return false; if (it.pat == 1 && (v & 15) == 0) for (size_t b = a + 1; b < q.size(); b++) if (!h2(h, q[a], q[b])) return false; } } return true; } }
	return true; }
static void ham_items() {
	long M = t_xe_hmax();
	for (long n = 0; n <= M; n++) for (int p = 0; p < 5; p++) items.push_back({'s', 0, n, p, 0});
	for (long n : {0, 1, 2}) for (int x = 0; x < (n ? 16 : 1); x++) items.push_back({'x', 0, n, 0, x});
	for (long n : {M, M / 2 + 1, 33l}) for (int x = 0; x < n; x++) items.push_back({'b', 0, n, n == M ? 1 : 2, x});
	for (long n = 0; n <= M; n++) { bool q = n <= 96 || n == M || n == M - 1 || n == M / 2 || n == M / 2 - 1 || n == M / 2 + 1 || n == 128 || n == 129 || n == 200 || n == 300 || n == 400; if (q || par::thorough) for (int p : n == M ? std::vector<int>{0, 2} : std::vector<int>{2}) for (int x = 0; x < 8; x++) items.push_back({'d', 0, n, p, x}); } }

// ---------------------------------------------------------------- BCH
struct BB { int k, deg, eb; std::vector<u8> d, o; u8 e[16], eo[16]; long n; };
static bool bload(BB &b, int k, long n, const std::vector<u8> &d) {
	b.k = k; b.n = n; b.deg = t_xe_deg(k); b.eb = t_xe_eccb(k); b.o = d; b.d = d; b.d.push_back(0xC3); memset(b.e, 0x99, 16); t_xe_bgen(k, b.d.data(), n, b.e); memcpy(b.eo, b.e, 16); tick();
	if (memcmp(b.d.data(), d.data(), n) || b.d[n] != 0xC3 || b.e[b.eb] != 0x99) return par::fail("bch_generate changed something other than the ECC bytes (%d-bit code, length %ld)", k, n);
	if (b.deg > 8 * b.eb || b.eb > t_xe_maxecc()) return par::fail("%d-bit code: %d check bits do not fit %d bytes", k, b.deg, b.eb);
	if (t_xe_bver(k, b.d.data(), n, b.e)) return par::fail("an unmodified chunk of %ld bytes does not verify (%d-bit code)", n, k);
	return true; }
static std::string plist(const long *f, int n) { std::string s; for (int i = 0; i < n; i++) s += (i ? "," : "") + std::to_string(f[i]); return s; }
static bool brep(BB &b, const long *f, int nf) {
	u8 *d = b.d.data(); for (int i = 0; i < nf; i++) flip(d, b.e, b.n, f[i]);
	tick(); t_xe_brep(b.k, d, b.n, b.e);
	bool ok = !memcmp(d, b.o.data(), b.n) && !memcmp(b.e, b.eo, 16) && d[b.n] == 0xC3;
	if (ok && !t_xe_bver(b.k, d, b.n, b.e)) return true;
	bool v = t_xe_bver(b.k, d, b.n, b.e) == 0; memcpy(d, b.o.data(), b.n); memcpy(b.e, b.eo, 16); d[b.n] = 0xC3;
	return par::fail("%d-bit BCH, chunk of %ld bytes: %d flipped bits (%s) are not repaired%s", b.k, b.n, nf, plist(f, nf).c_str(), v ? " although verification passes afterwards" : ""); }
static bool bver(BB &b, const long *f, int nf) {
	u8 *d = b.d.data(); for (int i = 0; i < nf; i++) flip(d, b.e, b.n, f[i]);
	tick(); int r = t_xe_bver(b.k, d, b.n, b.e); for (int i = 0; i < nf; i++) flip(d, b.e, b.n, f[i]);
	return r || par::fail("%d-bit BCH, chunk of %ld bytes: verification accepts %d flipped bits (%s)", b.k, b.n, nf, plist(f, nf).c_str()); }
static bool comb(BB &b, long *f, int have, int want, long from, long bits, bool (*fn)(BB &, const long *, int), int first_mod, int nmod) {
	if (have == want) return fn(b, f, want);
	for (long q = from; q < bits; q++) { if (have == 0 && q % nmod != first_mod) continue; f[have] = q; if (!comb(b, f, have + 1, want, q + 1, bits, fn, first_mod, nmod)) return false; if ((par::cnt[c_exec] & 255) == 0 && (par::sh && par::sh->viol)) return true; if (have == 0 && par::out_of_time()) return true; }
	return true; }
static std::vector<long> edges(const BB &b) { std::vector<long> q; long m = 8 * b.n, t = m + b.deg; for (long i = 0; i < 4; i++) { q.push_back(i); q.push_back(m - 1 - i); q.push_back(m + i); q.push_back(t - 1 - i); } for (long i : {m / 2, m / 3, m / 7, 2048l, 4096l, 255l * 8, 256l * 8, 511l * 8 + 7}) q.push_back(i); std::sort(q.begin(), q.end()); q.erase(std::unique(q.begin(), q.end()), q.end()); std::vector<long> r; for (long i : q) if (i >= 0 && i < t) r.push_back(i); return r; }
static bool bch_item(const Item &it) {
	BB b; if (it.kind != 'x' && it.kind != 'c' && !bload(b, it.k, it.len, mk(it.len, it.pat))) return false; long bits = 8 * b.n + b.deg, f[16];
	switch (it.kind) {
	case 'R': return comb(b, f, 0, it.x & 15, 0, bits, brep, (it.x >> 4) & 15, 16);        // all patterns of exactly x flips
	case 'V': return comb(b, f, 0, it.x & 15, 0, bits, bver, (it.x >> 4) & 15, 16);
	case 'e': { auto q = edges(b); f[0] = 0; if (!brep(b, f, 0)) return false; for (long i : q) { f[0] = i; if (!brep(b, f, 1) || !bver(b, f, 1)) return false; } // edge positions at every length
		for (int t = 2; t <= it.k; t++) for (size_t s = 0; s < q.size(); s += 3) { std::vector<long> g; for (int j = 0; j < t; j++) g.push_back(q[(s + j * 5) % q.size()]); std::sort(g.begin(), g.end()); g.erase(std::unique(g.begin(), g.end()), g.end()); for (size_t j = 0; j < g.size(); j++) f[j] = g[j]; if (!brep(b, f, g.size()) || !bver(b, f, g.size())) return false; } return true; }
	case 'n': { for (long a = it.x; a < bits; a += 16) for (int j = 1; j < it.k; j++) { f[0] = a; int c = 1; for (int z = 1; z <= j; z++) if (a + z < bits) f[c++] = a + z; if (!brep(b, f, c)) return false; } return true; } // bursts
	case 'm': { auto q = edges(b); for (long a = it.x; a < bits; a += 16) for (size_t s = 0; s < q.size(); s += 4) { int c = 0; f[c++] = a; for (int z = 1; z < it.k; z++) { long y = q[(s + 3 * z) % q.size()]; bool dup = false; for (int w = 0; w < c; w++) dup |= f[w] == y; if (!dup) f[c++] = y; } if (!brep(b, f, c) || !bver(b, f, c)) return false; if (par::out_of_time()) return true; } return true; } // every bit with edge bits
	case 'p': { // unused bits of the last ECC byte do not matter
		for (int m = 0; m < (1 << (8 * b.eb - b.deg)); m++) { BB c = b; for (int i = 0; i < 8 * b.eb - b.deg; i++) if (m >> i & 1) c.e[(b.deg + i) >> 3] ^= 1 << ((b.deg + i) & 7); memcpy(c.eo, c.e, 16); f[0] = 0; if (!brep(c, f, 0)) return false; if (!comb(c, f, 0, 1, 0, bits, brep, 0, 1)) return false; if (it.k >= 2 && !comb(c, f, 0, 2, 0, bits, brep, 0, 1)) return false; } return true; }
	case 'x': { long n = it.len; u64 tot = 1ull << (8 * n); for (u64 v = it.x; v < tot; v += 16) { std::vector<u8> d(n); for (long i = 0; i < n; i++) d[i] = v >> (8 * i); if (!bload(b, it.k, n, d)) return false; long bb = 8 * n + b.deg; for (int w = 0; w <= std::min(it.k, 2); w++) if (!comb(b, f, 0, w, 0, bb, brep, 0, 1)) return false; for (int w = 1; w <= 2; w++) if (!comb(b, f, 0, w, 0, bb, bver, 0, 1)) return false; } return true; }
	case 'b': { auto d = mk(it.len, it.pat); for (int v = 0; v < 256; v++) { d[it.x] = v; if (!bload(b, it.k, it.len, d)) return false; f[0] = 8l * it.x + (v & 7); if (!brep(b, f, 1) || !bver(b, f, 1)) return false; } return true; }
	case 'E': { // every ECC value for a chunk: exactly one is accepted
		u64 tot = 1ull << b.deg, acc = 0; for (u64 v = it.x; v < tot; v += 16) { u8 e[16]; memcpy(e, b.eo, 16); for (int i = 0; i < b.deg; i++) if ((v >> i & 1) != ((b.eo[i >> 3] >> (i & 7)) & 1)) e[i >> 3] ^= 1 << (i & 7); tick(); bool same = !memcmp(e, b.eo, b.eb), ok = !t_xe_bver(it.k, b.d.data(), b.n, e); acc += ok; if (ok != same) return par::fail("%d-bit BCH, chunk of %ld bytes: verification %s the ECC value %llx", it.k, it.len, ok ? "accepts" : "rejects", (unsigned long long)v); } return true; }
	case 'c': { // minimum distance over the columns of the parity check, taken from the real code and bound to it by superposition
		int k = it.k, deg = t_xe_deg(k), eb = t_xe_eccb(k); long n = it.len; auto rem = [&](const std::vector<u8> &d) { u8 e[16] = {0}; tick(); t_xe_bgen(k, d.data(), n, e); u64 r = 0; for (int i = 0; i < eb; i++) r |= (u64)e[i] << (8 * i); return r & ((1ull << deg) - 1); };
		auto z = mk(n, it.pat); u64 r0 = rem(z); std::vector<u64> col; for (long b2 = 0; b2 < 8 * n; b2++) { z[b2 >> 3] ^= 1 << (b2 & 7); col.push_back(rem(z) ^ r0); z[b2 >> 3] ^= 1 << (b2 & 7); }
		for (int p = 0; p < 5; p++) { auto y = mk(n, p); u64 s = rem(y), w = r0; for (long b2 = 0; b2 < 8 * n; b2++) if (((y[b2 >> 3] ^ z[b2 >> 3]) >> (b2 & 7)) & 1) w ^= col[b2]; if (s != w) return par::fail("%d-bit BCH: check bits of different chunks do not superpose (length %ld)", k, n); }
		for (int i = 0; i < deg; i++) col.push_back(1ull << i);
		int half = it.x; std::vector<u64> sums; size_t N = col.size(); // all sums of exactly `half` columns and fewer must be distinct: no 2*half columns cancel
		sums.push_back(0); for (size_t a = 0; a < N; a++) { sums.push_back(col[a]); if (half >= 2) for (size_t b2 = a + 1; b2 < N; b2++) { u64 s = col[a] ^ col[b2]; sums.push_back(s); if (half >= 3) for (size_t c = b2 + 1; c < N; c++) { sums.push_back(s ^ col[c]); if (half >= 4) for (size_t d = c + 1; d < N; d++) sums.push_back(s ^ col[c] ^ col[d]); } } par::progress++; }
		par::cnt[c_states] += sums.size(); for (int s = 0; s < 4; s++) {} std::sort(sums.begin(), sums.end()); par::progress++;
		for (size_t i = 1; i < sums.size(); i++) if (sums[i] == sums[i - 1]) return par::fail("%d-bit BCH, chunk of %ld bytes: some error pattern of at most %d bits is a codeword", k, n, 2 * half);
		return true; } }
	return true; }
static bool lens_full(long n, long M) { static const long s[] = {63, 64, 65, 127, 128, 255, 256, 257, 511, 512, 513, 767}; if (n <= 32 || n == M || n == M - 1) return true; for (long x : s) if (x == n) return true; return false; }
static void bch_items(const std::string &prop) {
	long M = t_xe_maxchunk(); bool T = par::thorough; auto add = [&](char kind, int k, long n, int p, int x) { items.push_back({kind, k, n, p, x}); }; auto all16 = [&](char kind, int k, long n, int p, int w) { for (int i = 0; i < 16; i++) add(kind, k, n, p, w | i << 4); };
	if (prop == "C31") {
		
		for (int k = 4; k >= 1; k--) {
			if (k == 4) for (long n : T ? std::vector<long>{0, 1, 2, 3, 4, 5, 6, 8, 12, 16, 20} : std::vector<long>{0, 1, 2, 4, 6}) for (int w = 3; w <= 4; w++) all16('R', k, n, n & 1 ? 2 : 3, w);
			if (k == 3) for (long n : T ? std::vector<long>{0, 1, 2, 3, 4, 8, 16, 24, 32, 48, 64} : std::vector<long>{0, 1, 2, 4, 8, 16, 20}) all16('R', k, n, n & 1 ? 2 : 3, 3);
			if (k >= 2) for (long n : T ? std::vector<long>{0, 1, 2, 3, 8, 16, 32, 64, 128, 256} : std::vector<long>{0, 1, 2, 3, 8, 16, 32, 64}) all16('R', k, n, n & 1 ? 2 : 3, 2);
			if (T && k == 2) all16('R', k, 512, 2, 2);
			for (long n = 0; n <= M; n++) { if (n < 3 || lens_full(n, M) || (T && n % 8 == 0)) for (int p : {2}) all16('R', k, n, p, 1); add('e', k, n, n % 3 == 0 ? 0 : n % 3 == 1 ? 2 : 1, 0); }
			for (long n : T ? std::vector<long>{64, 512, 700, M} : std::vector<long>{512, M}) for (int i = 0; i < 16; i++) { if (k > 1) add('n', k, n, 2, i); if (k > 1 && (T || (n == M && i % 2 == 0))) add('m', k, n, 3, i); }
			for (long n : {0, 1, 3}) add('p', k, n, 2, 0);
			for (long n : {0, 1, 2}) for (int x = 0; x < (n ? 16 : 1); x++) if (n < 2 || k <= (T ? 4 : 1)) add('x', k, n, 0, x);
			for (long n : {M, 24l}) for (long x = 0; x < n; x += (n == M && !T ? 31 : 1)) add('b', k, n, n == M ? 2 : 1, x); }
	} else {
		for (int k = 4; k >= 1; k--) {
			for (long n = 0; n <= M; n++) { add('e', k, n, n % 3 == 0 ? 2 : n % 3 == 1 ? 1 : 3, 0); if (lens_full(n, M) || T) all16('V', k, n, 2, 1); }
			for (long n : {0, 1, 2, 3, 5, 8, 16, 32, 64}) for (int w = 2; w <= 2 * k; w++) { double c = 1; long b = 8 * n + t_xe_deg(k); for (int i = 0; i < w; i++) c = c * (b - i) / (i + 1); if (c * (n + 1) < (T ? 2e11 : 1.2e9)) all16('V', k, n, n & 1 ? 3 : 2, w); }
			if (T) all16('V', k, 512, 2, 2);
			for (int x = 0; x < 16; x++) { if (k <= 2) add('E', k, k == 1 ? 512 : 1, 2, x); if (k == 1) for (long n : {0, 1, 2, 3, 17}) add('E', k, n, 3, x); }
			for (int p = 1; p < 4; p++) add('c', k, M, p, 1); add('c', k, k == 1 ? M : k == 2 ? M : 200, 2, k == 1 ? 1 : 2); if (k == 2) add('c', k, 512, 3, 2); if (k >= 3) { add('c', k, 1000, 2, 2); add('c', k, T ? 70 : 40, 2, 3); } if (k == 4) add('c', k, T ? 22 : 13, 2, 4);
			for (long x = 0; x < M; x += (T ? 1 : 13)) add('b', k, M, 2, x);
			for (long n : {0, 1, 2}) for (int x = 0; x < (n ? 16 : 1); x++) if (n < 2 || k <= (T ? 4 : 1)) add('x', k, n, 0, x); } } }

// ---------------------------------------------------------------- CRC
static u32 ref_crc(const u8 *d, size_t n, u32 c) { for (size_t i = 0; i < n; i++) for (int b = 0; b < 8; b++) { u32 bit = ((d[i] >> b) ^ c) & 1; c >>= 1; if (bit) c ^= 0xedb88320u; if (b == 7) {} } return c; }
// inverted coefficients: every register and message bit stands for its complement
static u32 ref_nand(const u8 *d, size_t n, u32 c) { u32 r = ~c; for (size_t i = 0; i < n; i++) { u8 x = ~d[i]; r = ref_crc(&x, 1, r); } return ~r; }
static bool crc_item(const Item &it) {
	long n = it.len; auto d = mk(n, it.pat); u32 init = t_xe_crcinit();
	switch (it.kind) {
	case 'r': { for (u32 c : {init, 0u, 0x12345678u, 0x80000001u}) { tick(); u32 a = t_xe_crc(d.data(), n, c), b = ref_nand(d.data(), n, c); if (a != b) return par::fail("CRC of %ld bytes (carry %08x) is %08x, polynomial definition gives %08x", n, c, a, b); } if (memcmp(d.data(), mk(n, it.pat).data(), n)) return par::fail("CRC changed the data"); return true; }
	case 'w': { u32 whole = t_xe_crc(d.data(), n, init); for (long a = 0; a <= n; a++) { tick(); u32 c = t_xe_crc(d.data() + a, n - a, t_xe_crc(d.data(), a, init)); if (c != whole) return par::fail("CRC of %ld bytes cut at %ld differs", n, a); if (n <= 40) for (long b = a; b <= n; b++) { tick(); u32 c3 = t_xe_crc(d.data() + b, n - b, t_xe_crc(d.data() + a, b - a, t_xe_crc(d.data(), a, init))); if (c3 != whole) return par::fail("CRC of %ld bytes cut at %ld and %ld differs", n, a, b); } } return true; }
	case 'k': { u8 b = it.pat; for (u64 c = (u64)it.x << 24; c < ((u64)(it.x + 1) << 24); c++) { u32 a = t_xe_crc(&b, 1, c); u32 r = ~(u32)c ^ (u8)~b; for (int q = 0; q < 8; q++) r = (r >> 1) ^ (0xedb88320u & -(r & 1)); if (a != ~r) return par::fail("one CRC step from %08x with byte %02x gives %08x instead of %08x", (u32)c, b, a, ~r); } tick(1 << 24); return true; }
	case 'y': { for (int b = 0; b < 256; b++) for (u32 c = 0; c < 65536; c++) for (int s = 0; s < 2; s++) { u32 cc = s ? c << 16 | (c ^ 0x5a5a) : c * 0x10001u; u8 x = b; u32 a = t_xe_crc(&x, 1, cc), r = ref_nand(&x, 1, cc); if (a != r) return par::fail("one CRC step from %08x with byte %02x gives %08x instead of %08x", cc, b, a, r); } tick(256 * 65536 * 2); return true; }
	case 'c': { // all changes of one to three bits in message plus checksum, over columns from the real code
		u32 r0 = t_xe_crc(d.data(), n, init); std::vector<u32> col; for (long b = 0; b < 8 * n; b++) { d[b >> 3] ^= 1 << (b & 7); tick(); col.push_back(t_xe_crc(d.data(), n, init) ^ r0); d[b >> 3] ^= 1 << (b & 7); }
		for (int p = 0; p < 5; p++) { auto y = mk(n, p); tick(); u32 s = t_xe_crc(y.data(), n, init), w = r0; for (long b = 0; b < 8 * n; b++) if (((y[b >> 3] ^ d[b >> 3]) >> (b & 7)) & 1) w ^= col[b]; if (s != w) return par::fail("CRC of different messages does not superpose (length %ld)", n); }
		for (int i = 0; i < 32; i++) col.push_back(1u << i); size_t N = col.size();
		static std::vector<u8> bm; bm.assign(1u << 29, 0); for (u32 c : col) { if (!c) return par::fail("a one-bit change of a %ld-byte message keeps the CRC", n); if (bm[c >> 3] >> (c & 7) & 1) return par::fail("a two-bit change of a %ld-byte message keeps the CRC", n); bm[c >> 3] |= 1 << (c & 7); }
		for (size_t a = 0; a < N; a++) for (size_t b = a + 1; b < N; b++) { u32 s = col[a] ^ col[b]; if (bm[s >> 3] >> (s & 7) & 1) return par::fail("a three-bit change of a %ld-byte message keeps the CRC (bits %zu, %zu and one more)", n, a, b); } par::cnt[c_states] += N * N / 2; bm.clear(); bm.shrink_to_fit();
		for (size_t a = 0; a + 32 <= N; a++) { std::vector<u32> bas; for (int i = 0; i < 32; i++) { u32 v = col[a + i]; for (u32 x : bas) v = std::min(v, v ^ x); if (!v) return par::fail("a burst of at most 32 bits from bit %zu of a %ld-byte message keeps the CRC", a, n); bas.push_back(v); std::sort(bas.rbegin(), bas.rend()); } }
		par::cnt[c_states] += N - 31; return true; }
	case 'b': { u32 r0 = t_xe_crc(d.data(), n, init); long bits = 8 * n; for (long a = it.x; a < bits; a += 8) for (u32 m = 1; m < 65536; m += 2) { auto y = d; u32 chk = r0; bool out = false; for (int i = 0; i < 16; i++) if (m >> i & 1) { if (a + i < bits) y[(a + i) >> 3] ^= 1 << ((a + i) & 7); else if (a + i < bits + 32) chk ^= 1u << (a + i - bits); else out = true; } if (out) continue; tick(); if (t_xe_crc(y.data(), n, init) == chk) return par::fail("burst %x at bit %ld of a %ld-byte message keeps the CRC", m, a, n); } return true; }
	case 't': { u32 r0 = t_xe_crc(d.data(), n, init); long bits = 8 * n + 32; for (long a = 0; a < bits; a++) for (long b = a; b < bits; b++) for (long c = b; c < bits; c++) { long f[3] = {a, b, c}; auto y = d; u32 chk = r0; for (int i = 0; i < 3; i++) { if (i && f[i] == f[i - 1]) continue; if (f[i] < 8 * n) y[f[i] >> 3] ^= 1 << (f[i] & 7); else chk ^= 1u << (f[i] - 8 * n); } if (a == b && b < c) {} tick(); if (t_xe_crc(y.data(), n, init) == chk) return par::fail("changing bits %ld,%ld,%ld of a %ld-byte message keeps the CRC", a, b, c, n); } return true; } }
	return true; }
static void crc_items() {
	bool T = par::thorough; for (int x = 0; x < 256; x++) items.push_back({'k', 0, 1, 0, x}); if (T) for (int p = 1; p < 32; p++) for (int x = 0; x < 256; x++) items.push_back({'k', 0, 1, p * 8 - 1, x});
	items.push_back({'y', 0, 1, 0, 0}); for (long n = 0; n <= 640; n++) for (int p = 0; p < 5; p++) { items.push_back({'r', 0, n, p, 0}); if (p == 2) items.push_back({'w', 0, n, p, 0}); }
	for (long n : {512l, 256l, 1l, 4l}) for (int p : {1, 2}) items.push_back({'c', 0, n, p, 0}); for (int x = 0; x < 8; x++) items.push_back({'b', 0, 16, 2, x}); for (long n : {0, 1, 2, 4, 8}) items.push_back({'t', 0, n, 2, 0}); if (T) { for (long n = 0; n <= 512; n++) items.push_back({'c', 0, n, 2, 0}); items.push_back({'t', 0, 24, 2, 0}); } }

// ---------------------------------------------------------------- erased flash
static bool erased_item(const Item &it) {
	long n = it.len; auto d = mk(n, 0); auto clean = [&](const std::vector<u8> &v) { for (u8 c : v) if (c != 0xff) return false; return true; };
	if (it.k == 0) { u8 e[3] = {0, 0, 0}; t_xe_hgen(d.data(), n, e); tick(); if (e[0] != 0xff || e[1] != 0xff || e[2] != 0xff) return par::fail("Hamming ECC of %ld erased bytes is %02x %02x %02x", n, e[0], e[1], e[2]); unsigned s = t_xe_hsyn(d.data(), n, e); if (s) return par::fail("%ld erased bytes have Hamming syndrome %x", n, s); if (t_xe_hrep(d.data(), n, 0) || !clean(d)) return par::fail("Hamming repair changes an erased chunk of %ld bytes", n); return true; }
	if (it.k == 5) { tick(); u32 c = t_xe_crc(d.data(), n, t_xe_crcinit()); if (c != 0xffffffffu) return par::fail("CRC of %ld erased bytes is %08x", n, c); return true; }
	int eb = t_xe_eccb(it.k); for (int v = 0; v < 2; v++) { std::vector<u8> e(eb, 0); (v ? n_xe_bgen : t_xe_bgen)(it.k, d.data(), n, e.data()); tick(); if (!clean(e)) return par::fail("%d-bit BCH ECC of %ld erased bytes is not all ones", it.k, n); if ((v ? n_xe_bver : t_xe_bver)(it.k, d.data(), n, e.data())) return par::fail("%ld erased bytes do not verify under the %d-bit BCH code", n, it.k); if (v && n % 64 > 1 && !par::thorough) continue; (v ? n_xe_brep : t_xe_brep)(it.k, d.data(), n, e.data()); if (!clean(d) || !clean(e)) return par::fail("%d-bit BCH repair changes an erased chunk of %ld bytes", it.k, n); }
	return true; }
static void erased_items() { for (long n = 0; n <= t_xe_hmax(); n++) items.push_back({'z', 0, n, 0, 0}); for (int k = 1; k <= 4; k++) for (long n = 0; n <= t_xe_maxchunk(); n++) items.push_back({'z', k, n, 0, 0}); for (long n = 0; n <= 4096; n++) items.push_back({'z', 5, n, 0, 0}); }

// ---------------------------------------------------------------- field arithmetic
static u32 ref_mul(u32 a, u32 b) { u32 r = 0; for (int i = 0; i < 13; i++) if (b >> i & 1) r ^= a << i; for (int i = 25; i >= 13; i--) if (r >> i & 1) r ^= 0x201bu << (i - 13); return r; }
static std::vector<unsigned short> inv; static void mkinv() { if (!inv.empty()) return; inv.assign(8192, 0); for (u32 a = 1; a < 8192; a++) if (!inv[a]) { u32 p = a, q = 1; for (int i = 0; i < 12; i++) { q = ref_mul(ref_mul(q, q), p); } q = ref_mul(q, q); inv[a] = q; } }
static bool gf_item(const Item &it) {
	mkinv(); u32 a = it.x;
	if (it.kind == 'm') { for (; a < (u32)it.x + 16 && a < 8192; a++) { if (!a) continue; par::progress++; if (ref_mul(a, inv[a]) != 1) return par::fail("reference inverse wrong");
		unsigned d1 = t_xe_mulx(a), d2 = n_xe_mulx(a), e1 = t_xe_divx(a), e2 = n_xe_divx(a), rx = ref_mul(a, 2), rd = ref_mul(a, inv[2]);
		if (d1 != rx || d2 != rx) return par::fail("%04x times x: tables give %04x, table-free %04x, polynomial arithmetic %04x", a, d1, d2, rx);
		if (e1 != rd || e2 != rd) return par::fail("%04x divided by x: tables give %04x, table-free %04x, polynomial arithmetic %04x", a, e1, e2, rd);
		for (u32 b = 1; b < 8192; b++) { u32 r = ref_mul(a, b); unsigned m1 = t_xe_mul(a, b), m2 = n_xe_mul(a, b); if (m1 != r || m2 != r) return par::fail("%04x times %04x: tables give %04x, table-free %04x, polynomial arithmetic %04x", a, b, m1, m2, r);
			unsigned q1 = t_xe_div(r, b); if (q1 != a) return par::fail("%04x divided by %04x: tables give %04x, polynomial arithmetic %04x", r, b, q1, a); 
			if (par::thorough || (a & 15) == (b & 15)) { unsigned q2 = n_xe_div(r, b); par::cnt[c_exec]++; if (q2 != a) return par::fail("%04x divided by %04x: table-free code gives %04x, polynomial arithmetic %04x", r, b, q2, a); } }
		par::cnt[c_exec] += 8191 * 3; par::cnt[c_states] += 8191; } return true; }
	// both builds behave alike on complete chunks, also beyond the correction strength
	BB b; int k = it.k; if (!bload(b, k, it.len, mk(it.len, it.pat))) return false; u8 e2[16]; memset(e2, 0x99, 16); n_xe_bgen(k, b.d.data(), b.n, e2); if (memcmp(e2, b.e, 16)) return par::fail("the two builds generate different ECC (%d-bit code, length %ld)", k, it.len);
	long bits = 8 * b.n + b.deg, f[8]; auto both = [&](int w) { u8 *d = b.d.data(); for (int i = 0; i < w; i++) flip(d, b.e, b.n, f[i]); auto d2 = b.d; u8 x2[16]; memcpy(x2, b.e, 16); bool v1 = t_xe_bver(k, d, b.n, b.e), v2 = n_xe_bver(k, d2.data(), b.n, x2); tick(2); t_xe_brep(k, d, b.n, b.e); n_xe_brep(k, d2.data(), b.n, x2); bool ok = v1 == v2 && d2 == b.d && !memcmp(x2, b.e, 16); memcpy(d, b.o.data(), b.n); memcpy(b.e, b.eo, 16); return ok || par::fail("the two builds behave differently (%d-bit code, length %ld, %d flipped bits)", k, it.len, w); };
	if (it.kind == '1') { for (f[0] = it.x; f[0] < bits; f[0] += 16 * (it.len > 64 ? 5 : 1)) if (!both(1)) return false; return true; }
	if (it.kind == '2') { for (f[0] = it.x; f[0] < bits; f[0] += 16) for (f[1] = f[0] + 1; f[1] < bits; f[1]++) { if (!both(2)) return false; for (f[2] = f[1] + 1; f[2] < bits && f[2] < f[1] + 6; f[2]++) { if (!both(3)) return false; f[3] = bits - 1 - f[0] / 2; if (f[3] > f[2] && !both(4)) return false; f[4] = f[2] + 1; if (f[3] > f[4] && f[4] < bits && !both(5)) return false; } } return true; }
	return true; }
static void gf_items() { for (int a = 0; a < 8192; a += 16) items.push_back({'m', 0, 0, 0, a}); long M = t_xe_maxchunk(); for (int k = 1; k <= 4; k++) for (long n : {0l, 1l, 2l, 7l, 64l, 512l, M}) for (int x = 0; x < 16; x++) { items.push_back({'1', k, n, 2, x}); if (n <= 7) items.push_back({'2', k, n, 3, x}); } }

// ---------------------------------------------------------------- bounds and garbage (also under the sanitizers)
static bool garb_item(const Item &it) {
	long n = it.len; int k = it.k;
	auto run = [&](const std::vector<u8> &d0, const std::vector<u8> &e0, bool paintit) { // exact-size heap blocks, two runs over differently painted stack
		std::vector<u8> r1, r2; for (int rnd = 0; rnd < (paintit ? 2 : 1); rnd++) { size_t el = e0.size(); u8 *d = (u8 *)malloc(n ? n : 1), *e = (u8 *)malloc(el); u8 *dd = n ? d : d + 1; memcpy(dd, d0.data(), n); memcpy(e, e0.data(), el); std::vector<u8> &r = rnd ? r2 : r1; bool ok = true; std::string why;
			if (paintit) paint(rnd ? 0xA5 : 0x00);
			if (k == 0) { unsigned s = t_xe_hsyn(dd, n, e); if (memcmp(dd, d0.data(), n) || memcmp(e, e0.data(), el)) ok = false, why = "computing a syndrome changes the chunk"; int q = t_xe_hrep(dd, n, s); int diff = 0; for (long i = 0; i < n; i++) diff += __builtin_popcount(dd[i] ^ d0[i]); if (diff > 1 || (q && diff)) ok = false, why = "Hamming repair flips more than one bit, or flips one and reports failure"; if (q != 0 && q != -1) ok = false, why = "Hamming repair returns an undocumented value"; r.assign(dd, dd + n); r.push_back(q); u8 g[3]; t_xe_hgen(dd, n, g); r.insert(r.end(), g, g + 3); }
			else { int v = t_xe_bver(k, dd, n, e); if (memcmp(dd, d0.data(), n) || memcmp(e, e0.data(), el)) ok = false, why = "verification changes the chunk"; if (v != 0 && v != -1) ok = false, why = "verification returns an undocumented value"; t_xe_brep(k, dd, n, e); int w = t_xe_bver(k, dd, n, e); u8 g[16]; memset(g, 0, 16); t_xe_bgen(k, dd, n, g); int deg = t_xe_deg(k); bool same = true; for (int i = 0; i < deg; i++) same &= !((g[i >> 3] ^ e[i >> 3]) >> (i & 7) & 1); if ((w == 0) != same) ok = false, why = "verification after a repair does not tell whether the chunk is a codeword"; r.assign(dd, dd + n); r.insert(r.end(), e, e + el); r.push_back(w); }
			tick(); free(d); free(e); if (!ok) return par::fail("%s (%s, length %ld)", why.c_str(), k ? "BCH" : "Hamming", n); }
		if (paintit && r1 != r2) return par::fail("the result depends on uninitialised memory (%s, length %ld)", k ? "BCH" : "Hamming", n); return true; };
	size_t el = k ? t_xe_eccb(k) : 3;
	if (it.kind == 'g') { for (int p = 0; p < 5; p++) for (int q = 0; q < 12; q++) { std::vector<u8> e(el); for (size_t i = 0; i < el; i++) e[i] = q < 5 ? pat(q, i + 3) : pat(2, i * 7 + q * 1000 + n); if (!run(mk(n, p), e, true)) return false; } return true; }
	if (it.kind == 'e') { u64 tot = 1ull << (8 * std::min(el, (size_t)2)); for (u64 v = it.x; v < tot; v += 16) { std::vector<u8> e(el, 0x3c); e[0] = v; e[1] = v >> 8; if (!run(mk(n, it.pat), e, false)) return false; } return true; }
	if (it.kind == 'f') { // all patterns of up to x flips, far beyond the strength
		std::vector<u8> d = mk(n, it.pat), e(16, 0); if (k) t_xe_bgen(k, d.data(), n, e.data()); else t_xe_hgen(d.data(), n, e.data()); e.resize(el); long bits = 8 * n + 8 * el; std::function<bool(long, int)> rec = [&](long from, int left) { if (!run(d, e, false)) return false; if (!left) return true; for (long b = from; b < bits; b++) { if (left == it.x && b % 8 != it.pat) {} flip(d.data(), e.data(), n, b); bool o = rec(b + 1, left - 1); flip(d.data(), e.data(), n, b); if (!o) return false; } return true; }; return rec(0, it.x); }
	if (it.kind == 'h') { auto d0 = mk(n, 2); size_t al = n ? n : 1; u8 *d = (u8 *)malloc(al), *dd = n ? d : d + 1; memcpy(dd, d0.data(), n); bool ok = true; for (u32 s = it.x; s < 1u << 24 && ok; s += 64) { int q = t_xe_hrep(dd, n, s); if ((s & 0xffff) == (u32)it.x) par::progress++; int diff = 0; if (memcmp(dd, d0.data(), n)) { for (long i = 0; i < n; i++) diff += __builtin_popcount(dd[i] ^ d0[i]); memcpy(dd, d0.data(), n); } par::cnt[c_exec]++; par::cnt[c_states]++; if (diff > 1 || (q && diff) || (q != 0 && q != -1)) ok = par::fail("Hamming repair of %ld bytes with syndrome %06x returns %d and flips %d bits", n, s, q, diff); } free(d); return ok; }
	if (it.kind == 'c') { auto d0 = mk(n, it.pat); u8 *d = (u8 *)malloc(n ? n : 1), *dd = n ? d : d + 1; memcpy(dd, d0.data(), n); paint(1); u32 a = t_xe_crc(dd, n, it.x * 0x01010101u); paint(0xfe); u32 b = t_xe_crc(dd, n, it.x * 0x01010101u); tick(); bool ok = !memcmp(dd, d0.data(), n) && a == b; free(d); return ok || par::fail("CRC of %ld bytes changes data or depends on uninitialised memory", n); }
	return true; }
static void garb_items() {
	bool T = par::thorough; for (int k = 0; k <= 4; k++) { long M = k ? t_xe_maxchunk() : t_xe_hmax(); for (long n = 0; n <= M; n++) if (T || k == 0 || n <= 40 || n >= M - 3 || n % 41 == 0 || n == 255 || n == 256 || n == 511 || n == 512) items.push_back({'g', k, n, 0, 0});
		for (long n : {0l, 1l, 2l, 3l}) for (int x = 0; x < 16; x++) items.push_back({'e', k, n, n & 1 ? 2 : 0, x}); for (long n : {0l, 1l}) items.push_back({'f', k, n, 2, T ? 4 : 3}); items.push_back({'f', k, 4, 2, T ? 3 : 2}); }
	for (long n : {0l, 1l, 7l, (long)t_xe_hmax() / 2 + 3, (long)t_xe_hmax()}) for (int x = 0; x < 64; x++) items.push_back({'h', 0, n, 2, x});
	for (long n = 0; n <= 600; n++) for (int x : {0, 255}) items.push_back({'c', 0, n, 2, x}); }

static bool exec_item(const Item &it) {
	par::cnt[c_cases]++; char b[160]; snprintf(b, sizeof b, "item %c code %d length %ld pattern %d/%d", it.kind, it.k, it.len, it.pat, it.x); doing = b; bool ok;
	const std::string &p = par::prop; if (p == "C30") ok = ham_item(it); else if (p == "C31" || p == "C32") ok = bch_item(it); else if (p == "C33") ok = crc_item(it); else if (p == "C34") ok = erased_item(it); else if (p == "C35") ok = gf_item(it); else ok = garb_item(it);
	if (ok && (par::cnt[c_cases] & 63) == 1) par::sample(doing); return ok; }
int main(int argc, char **argv) {
	par::args(argc, argv); c_states = par::counter("states"); c_exec = par::counter("executions"); c_cases = par::counter("cases");
	const std::string &p = par::prop; if (p == "C30") ham_items(); else if (p == "C31" || p == "C32") bch_items(p); else if (p == "C33") crc_items(); else if (p == "C34") erased_items(); else if (p == "C35") gf_items(); else garb_items();
	par::write_body = [](FILE *f) { fprintf(f, "engine ecc\nitem %ld\n", cur_item); }; par::running = [] { return doing; };
	if (!par::replay.empty()) { FILE *f = fopen(par::replay.c_str(), "r"); if (!f) return 2; char l[1024]; long i = -1; while (fgets(l, sizeof l, f)) sscanf(l, "item %ld", &i); fclose(f); par::replaying = true; par::t0 = par::now(); par::install(); if (i >= 0 && i < (long)items.size()) exec_item(items[i]); return par::replay_result(); }
	return par::run("ecc", [] { for (long k; !par::stopping() && (k = par::take()) < (long)items.size();) { cur_item = k; double t = par::now(); exec_item(items[k]); if (getenv("MC_SHOW") && par::now() - t > 3) fprintf(stderr, "%s: %.1f\n", doing.c_str(), par::now() - t); par::out_of_time(); } });
}
