// The map on a flash driver built from the supplied ECC and CRC code: every bit (and pairs, for stronger codes) of a stored image flipped.
#include <cstdint>
#include <string>
#include <vector>
#include <algorithm>
#include <csetjmp>
#include "shim.h"
#include "par.hpp"
typedef uint8_t u8; typedef uint32_t u32; typedef uint64_t u64;
extern "C" {
	int t_xe_eccb(int); int t_xe_deg(int); void t_xe_bgen(int, const u8 *, size_t, u8 *); int t_xe_bver(int, const u8 *, size_t, const u8 *); void t_xe_brep(int, u8 *, size_t, u8 *);
	void t_xe_hgen(const u8 *, size_t, u8 *); unsigned t_xe_hsyn(const u8 *, size_t, const u8 *); int t_xe_hrep(u8 *, size_t, unsigned); unsigned t_xe_crc(const u8 *, size_t, unsigned); unsigned t_xe_crcinit();
	extern u8 __start_dh_data[] __attribute__((weak)); extern u8 __stop_dh_data[] __attribute__((weak)); }
static int c_states, c_exec, c_trans, c_cases, c_corr; static std::string desc;
static u64 mix(u64 a, u64 b) { __uint128_t r = (__uint128_t)(a ^ 0x9E3779B97F4A7C15ull) * (b ^ 0xD1B54A32D192ED03ull); return (u64)r ^ (u64)(r >> 64); }
static u64 hs(const u8 *p, size_t n) { u64 h = n; for (size_t i = 0; i < n; i++) h = mix(h ^ p[i], 0x8EBC6AF09C88C6E3ull + i); return h; }
struct Geo { int lp, lb, nb, gc, code, chunk; }; // code 0: Hamming, 1..4: BCH
static const Geo geos[] = {{8, 1, 30, 4, 0, 256}, {9, 2, 30, 1, 0, 256}, {9, 2, 20, 4, 0, 508}, {8, 1, 36, 2, 1, 256}, {9, 2, 20, 4, 2, 512}, {8, 1, 30, 4, 3, 128}, {9, 3, 24, 4, 4, 512}, {10, 2, 18, 4, 0, 256}, {11, 3, 16, 4, 4, 1010}};
static Geo G; static int psz, np, ppb, nch, csz, eccb, raw; static std::vector<u8> img; static std::vector<u8> bad; static std::vector<u64> log_; static bool logging; static u64 corrected; static int calls; static sigjmp_buf hang;
// page: nch chunks; chunk: csz data bytes + 4 CRC bytes, then eccb ECC bytes over all of them
static int clen(int c) { return std::min(csz, psz - c * csz); }
static int coff(int c) { return c * (csz + 4 + eccb); }
static void tickc() { if (++calls > 400000) siglongjmp(hang, 1); }
static u8 *chunkp(u32 p, int c) { return &img[(size_t)p * raw + coff(c)]; }
static void enc(u8 *o, const u8 *d, int n) { memcpy(o, d, n); u32 k = t_xe_crc(d, n, t_xe_crcinit()); for (int i = 0; i < 4; i++) o[n + i] = k >> (8 * i); u8 *e = o + n + 4; if (G.code) t_xe_bgen(G.code, o, n + 4, e); else t_xe_hgen(o, n + 4, e); }
struct Memo { std::vector<u8> in, out; int r = 0; bool fixed = false; }; static std::vector<Memo> memo; // decoding is a pure function of the stored bytes (C37)
static int dec1(u8 *b, int n, u8 *out);
static int dec(u32 p, int c, u8 *out) {
	int n = clen(c), l = n + 4 + eccb; const u8 *src = chunkp(p, c); for (int w = 0; w < 2; w++) { Memo &m = memo[(p * nch + c) * 2 + w]; if ((int)m.in.size() == l && !memcmp(m.in.data(), src, l)) { if (!m.r) memcpy(out, m.out.data(), n); corrected += m.fixed; return m.r; } }
	Memo &m = memo[(p * nch + c) * 2], &m2 = memo[(p * nch + c) * 2 + 1]; std::swap(m, m2); m.in.assign(src, src + l); m.out.resize(n); u8 b[1100]; memcpy(b, src, l); u64 k = corrected; m.r = dec1(b, n, m.out.data()); m.fixed = corrected > k; if (!m.r) memcpy(out, m.out.data(), n); return m.r; }
static int dec1(u8 *b, int n, u8 *out) {
	if (G.code) { if (t_xe_bver(G.code, b, n + 4, b + n + 4)) { corrected++; t_xe_brep(G.code, b, n + 4, b + n + 4); if (t_xe_bver(G.code, b, n + 4, b + n + 4)) return -1; } }
	else { unsigned s = t_xe_hsyn(b, n + 4, b + n + 4); if (s) { corrected++; if (t_xe_hrep(b, n + 4, s)) return -1; } }
	u32 k = t_xe_crc(b, n, t_xe_crcinit()), q = 0; for (int i = 0; i < 4; i++) q |= (u32)b[n + i] << (8 * i); if (k != q) return -1;
	memcpy(out, b, n); return 0; }
static int rd(u32 p, size_t off, size_t len, u8 *d) { u8 t[1100]; for (int c = 0; c < nch; c++) { size_t a = (size_t)c * csz, e = a + clen(c); if (off >= e || off + len <= a) continue; if (dec(p, c, t)) return E_ECC; size_t lo = std::max(a, off), hi = std::min(e, off + len); memcpy(d + lo - off, t + lo - a, hi - lo); } return 0; }
static void note(u64 x) { if (logging) log_.push_back(x); }
static void put(u32 p, const u8 *d) { bool ff = true; for (int i = 0; i < psz && ff; i++) ff = d[i] == 0xff; for (int c = 0; c < nch; c++) enc(chunkp(p, c), d + c * csz, clen(c)); (void)ff; }
extern "C" {
int h_is_bad(const void *, u32 b) { tickc(); return bad[b]; }
void h_mark_bad(const void *, u32 b) { tickc(); note(mix(1, b)); bad[b] = 1; }
int h_erase(const void *, u32 b) { tickc(); note(mix(2, b)); memset(&img[(size_t)b * ppb * raw], 0xff, (size_t)ppb * raw); return 0; }
int h_prog(const void *, u32 p, const u8 *d) { tickc(); note(mix(mix(3, p), hs(d, psz))); put(p, d); return 0; }
int h_is_free(const void *, u32 p) { tickc(); std::vector<u8> t(psz); if (rd(p, 0, psz, t.data())) return 0; for (u8 c : t) if (c != 0xff) return 0; return 1; }
int h_read(const void *, u32 p, size_t o, size_t l, u8 *d) { tickc(); return rd(p, o, l, d); }
int h_copy(const void *, u32 s, u32 d) { tickc(); std::vector<u8> t(psz); int r = rd(s, 0, psz, t.data()); note(mix(mix(4, s), d + ((u64)r << 40))); if (r) return r; put(d, t.data()); return 0; }
}
static std::vector<u8> map_, nand_, buf_, dat; static std::vector<u8> stat0; static u8 *sp; static size_t ss;
static void fill(u32 v) { for (int q = 0; q < psz; q++) dat[q] = (v * 2654435761u + q * 97) >> 9; }
static void boot() { if (ss) memcpy(sp, stat0.data(), ss); std::fill(map_.begin(), map_.end(), 0xa5); sh_nand_set(nand_.data(), G.lp, G.lb, G.nb); sh_map_init(map_.data(), nand_.data(), buf_.data(), G.gc); }
static void setup(const Geo &g) { G = g; psz = 1 << g.lp; ppb = 1 << g.lb; np = g.nb << g.lb; csz = g.chunk; nch = (psz + csz - 1) / csz; eccb = g.code ? t_xe_eccb(g.code) : 3; raw = psz + nch * (4 + eccb); img.assign((size_t)np * raw, 0xff); bad.assign(g.nb, 0); map_.assign(sh_map_sizeof(), 0); nand_.assign(sh_nand_size(), 0); buf_.assign(psz, 0); memo.clear(); memo.resize((size_t)np * nch * 2); dat.assign(psz, 0); }
static u32 secs[] = {0, 1, 5, 4, 9, 0x80000001u};
static void readall(void *m) { int err; for (u32 s : secs) { u32 loc = 0xffffffff; int e1 = 0, e2 = 0; memset(dat.data(), 0x5a, psz); int r1 = sh_map_find(m, s, &loc, &e1), r2 = sh_map_read(m, s, dat.data(), &e2); note(mix(mix(r1, e1 * (r1 < 0)), mix(loc * (r1 == 0), mix(r2, e2 * (r2 < 0))))); note(hs(dat.data(), psz)); } (void)err; note(mix(sh_map_size(m), sh_map_capacity(m))); }
static bool scenario(int sc) { // everything that happens is logged
	log_.clear(); logging = true; calls = 0; corrected = 0; void *m = map_.data(); int err = 0; if (sigsetjmp(hang, 0)) { logging = false; return false; }
	boot(); int r = sh_map_resume(m, &err); note(mix(r, err * (r < 0))); readall(m);
	static const char *prog[] = {"", "wSgtSrM", "gggggSMw", "tywSM", "cwSM"};
	for (const char *p = prog[sc]; *p; p++) { err = 0; r = 0; switch (*p) {
		case 'w': for (u32 v = 0; v < 4; v++) { fill(900 + v); r |= sh_map_write(m, secs[v * 2 % 5], dat.data(), &err); } break;
		case 't': r = sh_map_trim(m, secs[1], &err); break; case 'y': r = sh_map_copy_sector(m, secs[2], secs[4], &err); break;
		case 'g': r = sh_map_gc(m, &err); break; case 'S': r = sh_map_sync(m, &err); break; case 'c': sh_map_clear(m); break; case 'r': readall(m); break;
		case 'M': boot(); r = sh_map_resume(m, &err); readall(m); break; }
		note(mix(r, err * (r < 0))); }
	logging = false; return true; }
static bool start(int n) { // deterministic prefix, then a sync
	logging = false; calls = 0; if (sigsetjmp(hang, 0)) return false; boot(); int err; sh_map_resume(map_.data(), &err); for (int q = 0; q < n; q++) { fill(q + 1); int r = q % 7 == 6 ? sh_map_trim(map_.data(), secs[q % 5], &err) : sh_map_write(map_.data(), secs[(q * 5) % 6], dat.data(), &err); if (r < 0) return false; if (q % 11 == 10) sh_map_sync(map_.data(), &err); } return n == 0 || n % 3 == 1 || sh_map_sync(map_.data(), &err) == 0; }
static void flipb(u32 p, int c, long b) { chunkp(p, c)[b >> 3] ^= 1 << (b & 7); }
static int it_g, it_n, it_sc, it_pg; static std::vector<u8> base; 
static long cbits(int c) { return 8l * (clen(c) + 4) + (G.code ? t_xe_deg(G.code) : 24); }
static bool cmp(const std::vector<u64> &want, const char *what) {
	par::cnt[c_exec]++; par::cnt[c_states]++; par::cnt[c_trans] += log_.size(); par::cnt[c_corr] += corrected; par::progress++;
	if (log_ == want) return true; size_t i = 0; while (i < log_.size() && i < want.size() && log_[i] == want[i]) i++;
	return par::fail("behaviour changes at observation %zu when %s [%s]", i, what, desc.c_str()); }
static bool item(int g, int n, int sc, int pg, bool &exists) {
	it_g = g; it_n = n; it_sc = sc; it_pg = pg; setup(geos[g]); par::progress++; exists = pg < np; if (!exists) return true;
	char b[200]; snprintf(b, sizeof b, "geometry %d (page %d, %s, chunk %d), %d operations before, scenario %d, page %d", g, psz, G.code ? "BCH" : "Hamming", G.chunk, n, sc, pg); desc = b;
	if (!start(n)) return par::fail("the prefix does not run: capacity %u, size %u [%s]", sh_map_capacity(map_.data()), sh_map_size(map_.data()), b); base = img; auto bad0 = bad;
	if (!scenario(sc)) return par::fail("a call does not terminate [%s]", b); auto want = log_; par::cnt[c_cases]++;
	auto go = [&](const std::vector<long> &f, bool everywhere) { img = base; bad = bad0; for (u32 p = everywhere ? 0 : pg; p < (everywhere ? (u32)np : pg + 1u); p++) for (int c = 0; c < nch; c++) { if (!everywhere && c != f[0]) continue; for (size_t i = 1; i < f.size(); i++) if (f[i] < cbits(c)) flipb(p, c, f[i]); }
		char w[120]; snprintf(w, sizeof w, "bit %ld%s of chunk %ld %s flipped", f[1], f.size() > 2 ? (" and " + std::to_string(f[2])).c_str() : "", f[0], everywhere ? "of every page is" : "is"); if (!scenario(sc)) return par::fail("a call does not terminate when %s [%s]", w, desc.c_str()); return cmp(want, w); };
	for (int c = 0; c < nch; c++) { long m = cbits(c); 
		for (long a = 0; a < m; a++) { if (!go({c, a}, false)) return false; if (c == 0 && a % np == pg && !go({c, a}, true)) return false; // one bit of this chunk; the same bit of every chunk
			if (G.code >= 2) for (long z : {a + 1, a + 9, m - 1, 8l * clen(c) - 1}) if (z > a && z < m && (par::thorough || (a + z) % 8 == 0)) if (!go({c, a, z}, false)) return false;
			if (par::out_of_time() || (par::sh && par::sh->viol)) return true; } }
	par::sample(desc + ": every single bit flipped"); return true; }
int main(int argc, char **argv) {
	par::args(argc, argv); c_states = par::counter("states"); c_trans = par::counter("transitions"); c_exec = par::counter("executions"); c_cases = par::counter("cases"); c_corr = par::counter("corrections");
	sp = __start_dh_data; ss = sp ? __stop_dh_data - sp : 0; stat0.assign(sp, sp + ss);
	par::write_body = [](FILE *f) { fprintf(f, "engine e2e\nitem %d %d %d %d\n", it_g, it_n, it_sc, it_pg); }; par::running = [] { return desc; };
	if (!par::replay.empty()) { FILE *f = fopen(par::replay.c_str(), "r"); if (!f) return 2; char l[1024]; int g = -1, n = 0, s = 0, p = 0; while (fgets(l, sizeof l, f)) sscanf(l, "item %d %d %d %d", &g, &n, &s, &p); fclose(f); par::replaying = true; par::t0 = par::now(); par::install(); bool e; if (g >= 0) item(g, n, s, p, e); return par::replay_result(); }
	return par::run("e2e", [] {
		std::vector<std::vector<int>> its; std::vector<int> ns = par::thorough ? std::vector<int>{0, 3, 7, 15, 22, 33, 46, 58, 71, 90} : std::vector<int>{0, 15, 46};
		for (int g = 0; g < (par::thorough ? 9 : 7); g++) for (int n : ns) for (int sc = 0; sc < 5; sc++) for (int p = 0; p < geos[g].nb << geos[g].lb; p++) if (par::thorough || (sc + p + n) % 11 == 0) its.push_back({g, n, sc, p});
		for (long k; !par::stopping() && (k = par::take()) < (long)its.size();) { auto &i = its[k]; bool e; double t = par::now(); item(i[0], i[1], i[2], i[3], e); if (getenv("MC_SHOW") && par::now() - t > 1) fprintf(stderr, "%s: %.2f\n", desc.c_str(), par::now() - t); } });
}
