// Mounting: (A) every step of linear histories on every small geometry and bad-block placement, with power loss at
// every flash operation; (B) every head position of chips written by an independent encoder of the documented
// layout, up to chips far too large to fill; (M) map images built by that encoder; (F) blank and foreign chips.
#include "emu.hpp"
#include "par.hpp"
#include <unordered_map>
#include <unordered_set>
#include <map>
#include <set>
#include <memory>
extern "C" { extern u8 __start_dh_data[] __attribute__((weak)); extern u8 __stop_dh_data[] __attribute__((weak)); }
static Emu E; static u32 NONE; static int MSZ, CSZ;
static int c_cases, c_trans, c_exec, c_crash, c_mount, c_states, c_mm;
static std::string itemdesc; static u32 item_id[8]; static char part = 'A';
static const char *doing = "?";
struct JM { u32 dummy; };

// ------------------------------------------------------------ chip written by an independent encoder
struct V {
	bool on = false; int lp, lb, ppc, upg; u32 nb, np, psz, ppb;      // upg: user pages per group
	u32 h, g, u; u8 epoch; bool firstlap, erased_next, torn_ck; std::set<u32> bad; u32 tail;
	bool mapimg = false; std::map<u32, std::vector<u8>> img;           // map images are stored explicitly
	std::map<u32, std::vector<u8>> over; std::map<u32, u32> erased;    // block -> pages programmed since
	u32 calls, muts, reads; std::vector<u32> progs; std::string viol; u32 live_lo, live_hi;
	static void w32(u8 *p, u32 v) { p[0] = v; p[1] = v >> 8; p[2] = v >> 16; p[3] = v >> 24; }
	static u32 mixh(u32 a, u32 b) { u64 x = ((u64)a << 32 | b) * 0x9E3779B97F4A7C15ull; x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ull; return x >> 32; }
	u8 blkepoch(u32 b) const { return b <= h ? epoch : epoch - 1; }
	bool programmed(u32 p) const {                                     // user and checkpoint pages alike
		u32 b = p >> lb, i = p & (ppb - 1); if (bad.count(b)) return true;
		if (b == h) { u32 gi = i / ppc; return gi < g || (gi == g) || (gi == g + 1 && i % ppc < u); }
		u32 nx = nextgood(h); if (g + 1 == (u32)(ppb / ppc) && b == nx && (erased_next || u)) return i < u && i < (u32)ppc;
		if (b < h) return true;
		return !firstlap; }
	u32 nextgood(u32 b) const { do b = (b + 1) % nb; while (bad.count(b)); return b; }
	u32 cookie_of(u32 p) const { return mixh(p, 0xC00C1E); }
	u32 newest_ck() const { return (h << lb) + (g + 1) * ppc - 1; }    // last programmed checkpoint page
	u32 prev_ck(u32 p) const { u32 i = p & (ppb - 1); if (i >= (u32)ppc) return p - ppc; u32 b = p >> lb; do { if (!b) return NONE; b--; } while (bad.count(b)); return (b << lb) + ppb - 1; }
	int read(u32 p, size_t off, size_t len, u8 *d) {
		calls++; reads++;
		if (p >= np) { viol = "read of non-existent page " + std::to_string(p); memset(d, 0xff, len); return E_ECC; }
		if (off + len > psz || off > psz) { viol = "read range exceeds the page"; return E_ECC; }
		auto o = over.find(p); if (o != over.end()) { memcpy(d, o->second.data() + off, len); return 0; }
		if (erased.count(p >> lb)) { memset(d, 0xff, len); return 0; }
		if (mapimg) { auto m = img.find(p); if (m == img.end()) memset(d, 0xff, len); else memcpy(d, m->second.data() + off, len); return 0; }
		if (bad.count(p >> lb)) { memset(d, 0x13, len); return E_ECC; }
		if (!programmed(p)) { memset(d, 0xff, len); return 0; }
		if (torn_ck && p == newest_ck()) { memset(d, 0x77, len); return E_ECC; }
		static std::vector<u8> b; b.assign(psz, 0xff);
		if (p % ppc == (u32)ppc - 1) { b[0] = 'D'; b[1] = 'h'; b[2] = 'a'; b[3] = blkepoch(p >> lb);
			w32(&b[4], tail_of(p)); u32 cur = 0; for (u32 x : bad) cur += x < (p >> lb); w32(&b[8], cur); w32(&b[12], firstlap ? nb >> 6 : bad.size()); w32(&b[16], cookie_of(p));
			for (int k = 0; k < upg; k++) for (int q = 0; q < 132 && 20 + 132 * k + q < (int)psz; q++) b[20 + 132 * k + q] = mixh(p - ppc + 1 + k, q) >> 3; }
		else for (u32 q = 0; q < psz; q++) b[q] = q < 3 ? 'u' : mixh(p, q >> 2) >> (8 * (q & 3));
		memcpy(d, b.data() + off, len); return 0; }
	u32 tail_of(u32 p) const { return p == newest_ck() || (torn_ck && p == prev_ck(newest_ck())) ? tail : (p & ~(ppb - 1)); }
	int is_free(u32 p) { calls++; if (p >= np) { viol = "is_free on non-existent page"; return 0; }
		if (over.count(p)) return 0;
		if (erased.count(p >> lb)) return 1;
		if (mapimg) return !img.count(p);
		return !programmed(p); }
	int is_bad(u32 b) { calls++; if (b >= nb) { viol = "is_bad on non-existent block"; return 1; } return bad.count(b); }
	int erase(u32 b) { calls++; muts++; if (b >= nb || bad.count(b)) { viol = "erase of block " + std::to_string(b) + ", which is bad or does not exist"; return E_BAD_BLOCK; }
		// a block between the tail and the newest page holds live pages
		u32 lo = live_lo >> lb, hi = live_hi >> lb; bool live = lo <= hi ? b >= lo && b <= hi : b >= lo || b <= hi;
		if (live_hi != NONE && live) viol = "block " + std::to_string(b) + " is erased although it holds live pages";
		erased[b] = 0; for (auto i = over.begin(); i != over.end();) if (i->first >> lb == b) i = over.erase(i); else ++i;
		return 0; }
	int prog(u32 p, const u8 *d) { calls++; muts++; if (p >= np || bad.count(p >> lb)) { viol = "program of page " + std::to_string(p) + " outside the chip or in a bad block"; return E_BAD_BLOCK; }
		bool used = over.count(p) || (!erased.count(p >> lb) && (mapimg ? img.count(p) : programmed(p)));
		if (used) viol = "page " + std::to_string(p) + " programmed without an erase";
		for (u32 q = p + 1; q < ((p >> lb) + 1) << lb; q++) if (over.count(q) || (!erased.count(p >> lb) && (mapimg ? img.count(q) : programmed(q)))) { viol = "page " + std::to_string(p) + " programmed out of order"; break; }
		progs.push_back(p); over[p].assign(d, d + psz); return 0; }
};
static V v;
extern "C" {
int h_is_bad(const void *n, u32 b) { if (v.on) return v.is_bad(b); E.tick(n); return E.is_bad(b); }
void h_mark_bad(const void *n, u32 b) { if (v.on) { v.muts++; v.viol = "mark_bad although nothing failed"; return; } E.tick(n); E.mark_bad(b); }
int h_erase(const void *n, u32 b) { if (v.on) return v.erase(b); E.tick(n); return E.erase(b); }
int h_prog(const void *n, u32 p, const u8 *d) { if (v.on) return v.prog(p, d); E.tick(n); return E.prog(p, d); }
int h_is_free(const void *n, u32 p) { if (v.on) return v.is_free(p); E.tick(n); return E.is_free(p); }
int h_read(const void *n, u32 p, size_t o, size_t l, u8 *d) { if (v.on) return v.read(p, o, l, d); E.tick(n); return E.read(p, o, l, d); }
int h_copy(const void *n, u32 s, u32 d) { if (v.on) { static std::vector<u8> b; b.resize(v.psz); if (v.read(s, 0, v.psz, b.data())) return E_ECC; return v.prog(d, b.data()); } E.tick(n); return E.copy(s, d); }
}
static int wantp; static bool want(std::initializer_list<int> l) { for (int x : l) if (x == wantp) return true; return false; }
static bool fail(std::initializer_list<int> tags, const char *fmt, ...) {
	char b[400]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
	if (!want(tags)) { if (getenv("MC_PRUNE")) printf("PRUNE %s (%s)\n", b, itemdesc.c_str()); return false; }
	return par::fail("%s  [%s]", b, itemdesc.c_str()); }
static u32 log2c(u32 x) { u32 k = 0; while ((1u << k) < x) k++; return k; }
// statement of "logarithmic in the number of blocks": probes of at most 8 neighbours per step of a binary search
static u32 mount_bound(u32 nb, int lb, int ppc) { return 16 + 32 * (log2c(nb) + 2) + 8 * ppc * (lb + 1) + 4 * (1u << lb); }

// ------------------------------------------------------------ A: linear histories
static std::vector<u8> ubuf, umeta; static int ffpages = 0; // 1: user pages all 0xff and a driver that recognises free pages by content; 2: every other one
static void setup(int lp, int lb, u32 nb, const std::vector<unsigned> &bad, size_t objsz) {
	u8 *sp = __start_dh_data; size_t ss = sp ? (size_t)(__stop_dh_data - sp) : 0; static std::vector<u8> stat0; static bool have = false;
	if (!have) { stat0.assign(sp, sp + ss); have = true; }
	if (ss) memcpy(sp, stat0.data(), ss);
	Config c; c.lp = lp; c.lb = lb; c.nb = nb; c.bad = bad; c.name = "x"; c.imprecise = ffpages; E.setup(c, sizeof(JM), objsz, sp, ss);
	MSZ = sh_meta_size(); CSZ = std::min(4, sh_cookie_size()); NONE = sh_page_none(); }
static bool guarded(const Plan &p, const std::function<void()> &f) { par::progress++; par::cnt[c_exec]++; E.begin(p); bool ok = true; if (!sigsetjmp(E.jb, 0)) f(); else ok = false; E.end(); return ok; }
struct Hist { u32 n = 0, held = 0; u32 root, ckroot; u32 cookie = 0, ckcookie = 0; bool any = false; };
static bool contract() { if (E.viol & ~V_MARKGOOD) return fail({10, 21, 25}, "flash contract: %s", E.violmsg.c_str()); return true; }
static bool check_mount(const Hist &h, const char *when) {
	par::cnt[c_mount]++; int rc = 0, err = 0; E.power_off(0x5A); E.mounting = true;
	bool ok = guarded(Plan(), [&] { sh_j_init(E.map(), E.nand(), E.buf()); rc = sh_j_resume(E.map(), &err); }); E.mounting = false;
	par::cnt[c_mm] = std::max<u64>(par::cnt[c_mm], E.calls);
	if (!ok) return fail({16, 21}, "%s: resume does not terminate", when);
	if (E.mount_muts) return fail({21, 6, 24}, "%s: resume writes to flash", when);
	if (!contract()) return false;
	if (E.calls > mount_bound(E.c.nb, E.c.lb, E.ppc)) return fail({16}, "%s: resume takes %u flash calls, bound %u", when, E.calls, mount_bound(E.c.nb, E.c.lb, E.ppc));
	if (!h.any) { if (rc == 0) return fail({21, 24}, "%s: resume claims success on a chip without a checkpoint", when); return true; }
	if (rc < 0) return fail({21}, "%s: resume fails (error %d) although a checkpoint was committed", when, err);
	u32 r = sh_j_root(E.map()); if (r != h.ckroot) return fail({21}, "%s: resume selects page %d as the newest, committed was %u", when, (int)r, h.ckroot);
	if (memcmp(sh_j_cookie(E.map()), &h.ckcookie, CSZ)) return fail({21}, "%s: the cookie is not that of the newest checkpoint", when);
	return true; }
static int enq(Hist &h, const Plan &p, bool *crashed, std::vector<u8> *muts = nullptr) {
	par::cnt[c_trans]++; int rc = 0, err = 0; u32 id = h.n + 1; memset(ubuf.data(), 0, E.psz); memcpy(ubuf.data() + 1, &id, 4); ubuf[0] = 'u'; if (ffpages == 1 || (ffpages == 2 && id & 1)) memset(ubuf.data(), 0xff, E.psz); memset(umeta.data(), 0, MSZ); memcpy(umeta.data(), &id, 4);
	h.cookie = id * 2654435761u; memcpy(sh_j_cookie(E.map()), &h.cookie, CSZ);
	bool ok = guarded(p, [&] { rc = sh_j_enqueue(E.map(), ubuf.data(), umeta.data(), &err); }); if (muts) *muts = E.muts;
	*crashed = !ok; if (!ok) { if (E.hang) fail({16, 21}, "enqueue does not terminate"); return 0; }
	if (rc < 0) return err ? err : -1;
	h.n++; h.held++; h.root = sh_j_root(E.map()); if (sh_j_is_clean(E.map())) { h.any = true; h.ckroot = h.root; h.ckcookie = h.cookie; }
	return 0; }
static void drop(Hist &h, u32 keep) { while (h.held > keep) { sh_j_peek(E.map()); sh_j_dequeue(E.map()); h.held--; } }
static bool linear(int lp, int lb, u32 nb, const std::vector<unsigned> &bad, u32 laps, u32 plainlaps, bool crash) {
	setup(lp, lb, nb, bad, sh_journal_sizeof()); ubuf.assign(E.psz, 0); umeta.assign(MSZ, 0);
	u32 good = nb - bad.size(); u32 upb = (E.ppb / E.ppc) * (E.ppc - 1); u32 keep = std::max<u32>(1, upb * (good - 2) / 2);
	Hist h; h.root = h.ckroot = NONE; if (!check_mount(h, "blank chip")) return false;
	u32 total = laps * good * upb, plain = plainlaps * good * upb; std::vector<u8> s0, s1; u32 mark = E.pool.n;
	for (u32 i = 0; i < plain + total; i++) {
		par::cnt[c_states]++; drop(h, keep - 1); std::vector<u8> ty; bool cr; 
		if (i < plain) { int r = enq(h, Plan(), &cr); if (r || par::stop_all) return fail({21, 12, 20}, "enqueue %u fails with error %d", i, r); if (!contract()) return false; continue; }
		E.save(s0); Hist h0 = h; int r = enq(h, Plan(), &cr, &ty); if (par::stop_all) return false;
		if (r) return fail({21, 20}, "enqueue %u fails with error %d", i, r);
		if (!contract()) return false;
		E.save(s1); if (!check_mount(h, "after enqueue")) return false;
		if (crash) for (u32 q = 0; q < ty.size(); q++) for (int a = CRASH_BEFORE; a <= CRASH_HALF; a++) {
			if (a == CRASH_HALF && ty[q] != PT_ERASE) continue;
			E.load(s0); Hist hc = h0; Plan p = {{q, (u8)a, 0}}; enq(hc, p, &cr); if (par::stop_all) return false; if (!cr) continue;
			par::cnt[c_crash]++; if (!check_mount(hc, "after a power loss")) return false;
			if (hc.any) {                            // go on, and mount again
				hc.held = 0; bool okc = true;
				for (int k = 0; k < E.ppc + 1 && okc; k++) { bool c2; int rr = enq(hc, Plan(), &c2); if (par::stop_all) return false; if (rr) okc = false; if (!contract()) return false; }
				if (okc && !check_mount(hc, "after a power loss and going on")) return false; } }
		E.load(s1); if (E.pool.n > mark + 4000000 / E.psz && i % 16 == 0) { } }
	par::cnt[c_cases]++; return true; }
static std::vector<std::vector<unsigned>> badsets(u32 nb, bool full) {
	std::vector<std::vector<unsigned>> r; r.push_back({});
	for (unsigned a = 0; a < nb; a++) r.push_back({a});
	if (full) for (unsigned a = 0; a < nb; a++) for (unsigned b = a + 1; b < nb; b++) r.push_back({a, b});
	for (unsigned len = full ? 3 : 2; len <= 6; len++) for (unsigned s = 0; s + len <= nb; s++) { std::vector<unsigned> x; for (unsigned k = 0; k < len; k++) x.push_back(s + k); r.push_back(x); }
	for (unsigned len = 2; len <= 3; len++) { std::vector<unsigned> x; for (unsigned b = 1; b < nb; b += len) x.push_back(b); r.push_back(x); }     // every 2nd / 3rd block
	{ std::vector<unsigned> x; for (unsigned b = 0; b < nb; b++) if (b % 7 != 6) x.push_back(b); r.push_back(x); }                                 // 6 bad, 1 good, ...
	return r; }
struct GeoA { int lp, lb; };
static const GeoA geoA[] = {{8, 1}, {8, 2}, {9, 2}, {9, 3}, {10, 3}, {8, 3}};
static bool item_A(u32 g, u32 nb) {
	part = 'A'; item_id[0] = g; item_id[1] = nb; const GeoA &x = geoA[g];
	auto bs = badsets(nb, nb <= (par::thorough ? 20u : 10u)); u32 k = 0;
	for (auto &bad : bs) {
		if (nb < bad.size() + 4) continue;
		std::string d = "page 2^" + std::to_string(x.lp) + " bytes, 2^" + std::to_string(x.lb) + " pages per block, " + std::to_string(nb) + " blocks, bad:"; for (auto b : bad) d += " " + std::to_string(b);
		itemdesc = d; doing = "linear history";
		if (!linear(x.lp, x.lb, nb, bad, 2, 0, true)) { if (par::stop_all) return false; }
		if (k < 4 && nb <= (par::thorough ? 20u : 9u)) for (ffpages = 1; ffpages <= 2; ffpages++) { itemdesc = d + ", user pages 0xff"; bool o = linear(x.lp, x.lb, nb, bad, 2, 0, true); itemdesc = d; if (!o && par::stop_all) return false; }
		ffpages = 0;
		// epoch overflow: 254 plain laps first, on the small chips
		if ((k == 0 || k == 2) && nb <= (par::thorough ? 12u : 7u)) if (!linear(x.lp, x.lb, nb, bad, 3, 254, true)) { if (par::stop_all) return false; }
		k++; if (par::out_of_time()) return true; }
	par::sample("linear histories: " + itemdesc); return true; }

// ------------------------------------------------------------ B: encoded chips
static std::vector<u8> vram, vbuf, vnand;
static void vsetup(int lp, int lb, u32 nb, size_t objsz) {
	MSZ = sh_meta_size(); CSZ = std::min(4, sh_cookie_size()); NONE = sh_page_none();
	v = V(); v.on = true; v.lp = lp; v.lb = lb; v.nb = nb; v.psz = 1u << lp; v.ppb = 1u << lb; v.np = nb << lb;
	Config c; c.lp = lp; c.lb = lb; v.ppc = 1 << c.log2_ppc(); v.upg = v.ppc - 1;
	vram.assign(objsz, 0xA5); vbuf.assign(v.psz, 0x5A); vnand.assign(sh_nand_size(), 0); sh_nand_set(vnand.data(), lp, lb, nb); ubuf.assign(v.psz, 0); umeta.assign(MSZ, 0); }
static u32 user_before(u32 ck) { return ck - 1; }
static bool encoded_one() {
	par::cnt[c_cases]++; par::progress++; v.over.clear(); v.erased.clear(); v.viol.clear(); v.calls = v.muts = v.reads = 0; v.progs.clear();
	u32 ck = v.newest_ck(); if (v.torn_ck) ck = v.prev_ck(ck);
	char d[300]; snprintf(d, sizeof d, "encoded chip: page 2^%d, 2^%d pages per block, %u blocks (%zu bad), epoch %u%s, head in block %u group %u +%u pages%s%s", v.lp, v.lb, v.nb, v.bad.size(), v.epoch, v.firstlap ? " (first lap)" : "", v.h, v.g, v.u, v.erased_next ? ", next block erased" : "", v.torn_ck ? ", newest checkpoint torn" : "");
	itemdesc = d; doing = "resume of an encoded chip";
	// tail: half a chip behind the head, at a block start
	v.live_lo = v.tail; v.live_hi = ck == NONE ? NONE : user_before(ck);
	std::fill(vram.begin(), vram.end(), 0xA5); std::fill(vbuf.begin(), vbuf.end(), 0x5A);
	par::cnt[c_mount]++; par::cnt[c_exec]++; int err = 0; sh_j_init(vram.data(), vnand.data(), vbuf.data()); int rc = sh_j_resume(vram.data(), &err);
	par::cnt[c_mm] = std::max<u64>(par::cnt[c_mm], v.calls);
	if (v.muts) return fail({21, 22, 6}, "resume writes to flash");
	if (!v.viol.empty()) return fail({10, 21, 22}, "%s", v.viol.c_str());
	if (v.calls > mount_bound(v.nb, v.lb, v.ppc)) return fail({16}, "resume takes %u flash calls, bound %u", v.calls, mount_bound(v.nb, v.lb, v.ppc));
	if (ck == NONE) return true;
	if (rc < 0) return fail({21, 22}, "resume fails with error %d", err);
	u32 root = sh_j_root(vram.data()), cookie = v.cookie_of(ck);
	if (root != user_before(ck)) return fail({21, 22}, "resume selects page %d as the newest, the newest committed page is %u", (int)root, user_before(ck));
	if (memcmp(sh_j_cookie(vram.data()), &cookie, CSZ)) return fail({21, 22}, "resume delivers a cookie that is not that of the newest checkpoint");
	u32 p = sh_j_peek(vram.data()); if (p != v.tail) return fail({22, 21}, "the oldest page is %d, the checkpoint says %u", (int)p, v.tail);
	for (int k = 0; k < v.upg; k++) { u32 pg = ck - v.ppc + 1 + k; if (sh_j_read_meta(vram.data(), pg, umeta.data(), &err) < 0) return fail({22, 21}, "metadata of page %u is unreadable", pg); for (int q = 0; q < MSZ; q++) if (umeta[q] != (u8)(V::mixh(pg, q) >> 3)) return fail({22, 21}, "metadata byte %d of page %u differs from what was encoded", q, pg); }
	// go on until the next checkpoint, mount again
	u32 lastroot = root; cookie = 0xBEEF0000u + v.h;
	for (int k = 0, clean = 0; k < 2 * v.ppc + 1 && !clean; k++) {
		memset(ubuf.data(), k + 1, v.psz); memset(umeta.data(), k + 1, MSZ); par::cnt[c_trans]++; memcpy(sh_j_cookie(vram.data()), &cookie, CSZ);
		rc = sh_j_enqueue(vram.data(), ubuf.data(), umeta.data(), &err);
		if (!v.viol.empty()) return fail({10, 21, 3, 20}, "%s", v.viol.c_str());
		if (rc < 0) return fail({21, 5}, "enqueue after resume fails with error %d", err);
		lastroot = sh_j_root(vram.data()); clean = sh_j_is_clean(vram.data()); }
	if (!sh_j_is_clean(vram.data())) return fail({21}, "no checkpoint after a full group of pages");
	std::fill(vram.begin(), vram.end(), 0x3C); std::fill(vbuf.begin(), vbuf.end(), 0xC3); par::cnt[c_mount]++;
	sh_j_init(vram.data(), vnand.data(), vbuf.data()); rc = sh_j_resume(vram.data(), &err);
	if (rc < 0) return fail({21}, "second resume fails with error %d", err);
	if (sh_j_root(vram.data()) != lastroot || memcmp(sh_j_cookie(vram.data()), &cookie, CSZ)) return fail({21}, "second resume selects page %d, the newest committed page is %u", (int)sh_j_root(vram.data()), lastroot);
	return true; }
struct GeoB { int lp, lb; u32 nb; int mode; };           // mode 0: every head; 1: selected heads
static std::vector<GeoB> geoB() {
	std::vector<GeoB> r; for (u32 nb : {4u, 5u, 7u, 8u, 9u, 15u, 16u, 17u, 31u, 33u, 64u, 100u}) { r.push_back({9, 2, nb, 0}); r.push_back({8, 1, nb, 0}); r.push_back({9, 4, nb, 0}); r.push_back({11, 6, nb, 0}); r.push_back({10, 3, nb, 0}); }
	r.push_back({9, 2, 256, 0}); r.push_back({9, 2, 1023, 0}); r.push_back({11, 6, 1024, 0}); r.push_back({8, 3, 4095, 0}); r.push_back({11, 6, 4096, 1}); r.push_back({12, 7, 65536, 1}); r.push_back({11, 6, 1u << 22, 1}); r.push_back({9, 5, (1u << 20) + 3, 1}); r.push_back({13, 8, 1u << 23, 1}); r.push_back({12, 6, (1u << 26) - 1, 1});
	if (par::thorough) for (u32 nb = 4; nb <= 130; nb++) { r.push_back({9, 2, nb, 0}); r.push_back({8, 1, nb, 0}); r.push_back({9, 3, nb, 0}); r.push_back({10, 4, nb, 0}); r.push_back({12, 5, nb, 0}); }
	if (par::thorough) { r.push_back({8, 1, 4096, 0}); r.push_back({9, 2, 4096, 0}); r.push_back({9, 2, 16384, 0}); r.push_back({11, 6, 4096, 0}); }
	return r; }
static bool item_B(u32 gi, int only) {
	part = 'B'; item_id[0] = gi; item_id[1] = only; GeoB g = geoB()[gi]; vsetup(g.lp, g.lb, g.nb, sh_journal_sizeof());
	std::vector<std::set<u32>> bads; bads.push_back({});
	{ std::set<u32> s; u32 k = std::min<u32>(7, g.nb > 5 ? g.nb - 4 : 0); for (u32 i = 0; i < k; i++) s.insert(i); if (k) bads.push_back(s); }                    // a run at the start
	{ std::set<u32> s; u32 k = std::min<u32>(7, g.nb > 5 ? g.nb - 4 : 0); for (u32 i = 0; i < k; i++) s.insert(g.nb / 2 + i - k / 2); if (k) bads.push_back(s); }    // in the middle
	{ std::set<u32> s; u32 k = std::min<u32>(3, g.nb > 7 ? 3 : 0); for (u32 i = 0; i < k; i++) s.insert(g.nb - 1 - i); if (k) bads.push_back(s); }               // at the end
	if (g.nb > 7 && g.mode == 0) { std::set<u32> s; for (u32 i = 1; i < g.nb; i += 3) s.insert(i); bads.push_back(s); std::set<u32> t; for (u32 i = 0; i < g.nb; i++) if (i % 8 != 5 && i + 1 < g.nb) t.insert(i); if (g.nb > 40) bads.push_back(t); }
	std::vector<u32> heads; if (g.mode == 0) for (u32 h = 0; h < g.nb; h++) heads.push_back(h);
	else { std::set<u32> s; for (u32 k = 0; k < 20; k++) { s.insert(k); s.insert(g.nb - 1 - k); } for (u32 b = 0; b < 32; b++) for (int d = -9; d <= 9; d++) { if (!par::thorough && g.lp > 11 && d != -8 && d != -1 && d && d != 1 && d != 7) continue; for (u32 m : {1u, 3u, 5u}) { u64 x = ((u64)m << b) + d; if (x < g.nb) s.insert(x); } u64 y = (u64)g.nb / 2 + d; s.insert(y); } heads.assign(s.begin(), s.end()); }
	u32 ng = v.ppb / v.ppc;
	if (only >= (int)bads.size()) return true;
	for (auto &bad : bads) { if (g.nb < bad.size() + 4) continue; if (only >= 0 && &bad != &bads[only]) continue; v.bad = bad; for (u32 h : heads) { if (bad.count(h)) continue;
		par::cnt[c_states]++; std::vector<u32> gs; if (g.nb <= 40 || par::thorough) for (u32 k = 0; k < ng; k++) gs.push_back(k); else { std::set<u32> s = {0, 1, ng / 2, ng - 1, ng > 1 ? ng - 2 : 0}; for (u32 k : s) if (k < ng) gs.push_back(k); }
		for (u32 gg : gs) { std::set<u32> us = {0, 1, (u32)v.upg / 2, (u32)v.upg};
			for (u32 u : us) for (int en = 0; en < (gg + 1 == ng && !u ? 2 : 1); en++) for (int fl = 0; fl < 2; fl++) for (int torn = 0; torn < (gg > 0 && !u ? 2 : 1); torn++) {
				v.h = h; v.g = gg; v.u = u; v.erased_next = en; v.firstlap = fl; v.torn_ck = torn;
				if (gg + 1 == ng && (u || en) && v.nextgood(h) == h) continue;
				if (gg + 1 == ng && (u || en)) {           // the block being rewritten counts as one more unusable block: fewer than eight in a row
					u32 nx = v.nextgood(h), lo = nx, hi = nx; while (lo && bad.count(lo - 1)) lo--; while (hi + 1 < g.nb && bad.count(hi + 1)) hi++; if (hi - lo + 1 >= 8) continue; }
				// the next block has been erased already: it must not be where the tail is, and after a wrap it belongs to the new epoch
				u32 t = h; u32 steps = 0, want_ = ((u32)(g.nb - bad.size()) - 3) / 2; u32 lim = std::min<u32>(want_, 40);
				while (steps < lim && (t > 0 || !fl)) { u32 q = t; do { q = q ? q - 1 : g.nb - 1; } while (bad.count(q)); if (fl && q > h) break; t = q; steps++; }
				v.tail = t << g.lb;
				for (int ep : {0, 1, 255, 77}) { if (fl && ep != 0) continue; if (g.nb > 2000 && ep == 1) continue; v.epoch = ep; if (!encoded_one() && par::stop_all) return false; } } } 
		if (par::out_of_time()) return true; } }
	par::sample(itemdesc); return true; }

// ------------------------------------------------------------ M: map images by the independent encoder
// Tree rule of the format: the metadata of a page for sector s holds, for every bit position d (most significant
// first), the newest page of a sector that agrees with s in all earlier bits and differs in bit d.
struct Wr { u32 sec; u32 page; };
static void build_image(const std::vector<u32> &seq, u32 startblk, u8 epoch, u32 *count) {
	v.mapimg = true; v.img.clear(); std::map<u32, u32> cur; std::vector<Wr> order; u32 p = startblk << v.lb; u32 tail = p; std::set<u32> live;
	std::vector<std::vector<u8>> metas; size_t i = 0; bool started = false;
	while (i < seq.size() || (started && (p % v.ppc) != 0)) {
		started = true;
		if (p % v.ppc == (u32)v.ppc - 1) {
			std::vector<u8> b(v.psz, 0xff); b[0] = 'D'; b[1] = 'h'; b[2] = 'a'; b[3] = epoch; V::w32(&b[4], tail); V::w32(&b[8], 0); V::w32(&b[12], 0); V::w32(&b[16], live.size());
			for (size_t k = 0; k < metas.size(); k++) memcpy(&b[20 + 132 * k], metas[k].data(), 132);
			v.img[p] = b; metas.clear(); p++; if (p >= v.np) { p = 0; epoch++; } continue; }
		u32 s; bool fill = i >= seq.size(); if (fill) s = order.back().sec; else s = seq[i++];      // a group is filled up by rewriting the last sector
		std::vector<u8> b(v.psz), m(132, 0xff); for (u32 q = 0; q < v.psz; q++) b[q] = V::mixh(s + (u32)order.size() * 0 , q + (fill ? 0 : 0)) >> 5; 
		// content: sector number and a version
		V::w32(&b[0], s); V::w32(&b[4], fill ? 0xfffffffe : (u32)i);
		if (fill) { V::w32(&b[4], cur[s]); }
		cur[s] = fill ? cur[s] : (u32)i; V::w32(&b[4], cur[s]);
		v.img[p] = b; V::w32(&m[0], s);
		for (int d = 0; d < 32; d++) { u32 alt = 0xffffffff; for (int k = (int)order.size() - 1; k >= 0; k--) { u32 x = order[k].sec ^ s; if (x && __builtin_clz(x) == d) { alt = order[k].page; break; } } V::w32(&m[4 + 4 * d], alt); }
		metas.push_back(m); for (size_t k = 0; k < order.size(); k++) if (order[k].sec == s) { order.erase(order.begin() + k); break; }
		order.push_back({s, p}); live.insert(s); p++; }
	*count = live.size();
	v.tail = tail; v.live_lo = tail; v.live_hi = p ? p - 2 : v.np - 2; }
static std::map<u32, u32> last_versions(const std::vector<u32> &seq) { std::map<u32, u32> m; for (size_t i = 0; i < seq.size(); i++) m[seq[i]] = i + 1; return m; }
static u32 sect(int i) { static const u32 t[] = {0, 1, 0x80000000u, 0xfffffffeu, 5, 0x7fffffff, 0x00010000u, 0xfffffffcu}; return t[i & 7]; }
static bool map_image(const std::vector<int> &idx, u32 startblk, u8 epoch) {
	par::cnt[c_cases]++; par::progress++; par::cnt[c_states]++; std::vector<u32> seq; for (int i : idx) seq.push_back(sect(i));
	v.over.clear(); v.erased.clear(); v.viol.clear(); v.calls = v.muts = 0; u32 count; build_image(seq, startblk, epoch, &count);
	std::string d = "encoded map: page 2^" + std::to_string(v.lp) + ", 2^" + std::to_string(v.lb) + " pages per block, start block " + std::to_string(startblk) + ", epoch " + std::to_string(epoch) + ", writes:"; for (u32 s : seq) { char b[16]; snprintf(b, sizeof b, " %x", s); d += b; } itemdesc = d; doing = "mount of an encoded map";
	std::fill(vram.begin(), vram.end(), 0xA5); std::fill(vbuf.begin(), vbuf.end(), 0x5A); int err = 0;
	par::cnt[c_mount]++; par::cnt[c_exec]++; sh_map_init(vram.data(), vnand.data(), vbuf.data(), 4); int rc = sh_map_resume(vram.data(), &err);
	if (v.muts) return fail({22, 6}, "mounting writes to flash");
	if (rc < 0) return fail({22}, "mount of an encoded image fails with error %d", err);
	if (sh_map_size(vram.data()) != count) return fail({22}, "mounted size is %u, %u sectors were encoded", sh_map_size(vram.data()), count);
	auto ver = last_versions(seq); auto look = [&](const char *when) {
		for (int i = 0; i < 8; i++) for (u32 dlt : {0u, 2u}) { u32 s = sect(i) + dlt; if (s == NONE || (dlt && s == 0)) continue; auto it = ver.find(s); memset(ubuf.data(), 0x11, v.psz);
			rc = sh_map_read(vram.data(), s, ubuf.data(), &err); if (rc < 0) return fail({22}, "%s: reading sector %x fails with error %d", when, s, err);
			u32 a = ubuf[0] | ubuf[1] << 8 | ubuf[2] << 16 | (u32)ubuf[3] << 24, b = ubuf[4] | ubuf[5] << 8 | ubuf[6] << 16 | (u32)ubuf[7] << 24;
			if (it == ver.end() ? (a != 0xffffffff || b != 0xffffffff) : (a != s || b != it->second)) return fail({22}, "%s: sector %x reads as sector %x version %u, encoded was %s %u", when, s, a, b, it == ver.end() ? "nothing" : "version", it == ver.end() ? 0 : it->second); }
		return true; };
	if (!look("after mount")) return false;
	if (!v.viol.empty()) return fail({22, 10}, "%s", v.viol.c_str());
	// go on: overwrite one, delete one, sync, mount again
	u32 s0 = seq[0], s1 = seq.back(); memset(ubuf.data(), 0x66, v.psz); V::w32(&ubuf[0], s0); V::w32(&ubuf[4], 777); par::cnt[c_trans] += 3;
	if (sh_map_write(vram.data(), s0, ubuf.data(), &err) < 0) return fail({22}, "writing after mounting an encoded image fails with error %d", err);
	ver[s0] = 777; if (s1 != s0) { if (sh_map_trim(vram.data(), s1, &err) < 0) return fail({22}, "trim after mounting an encoded image fails with error %d", err); ver.erase(s1); }
	if (sh_map_sync(vram.data(), &err) < 0) return fail({22}, "sync after mounting an encoded image fails with error %d", err);
	if (!v.viol.empty()) return fail({22, 10}, "%s", v.viol.c_str());
	std::fill(vram.begin(), vram.end(), 0x3C); std::fill(vbuf.begin(), vbuf.end(), 0xC3); sh_map_init(vram.data(), vnand.data(), vbuf.data(), 4); par::cnt[c_mount]++;
	if (sh_map_resume(vram.data(), &err) < 0) return fail({22}, "second mount fails with error %d", err);
	if (sh_map_size(vram.data()) != ver.size()) return fail({22}, "size after the second mount is %u, expected %zu", sh_map_size(vram.data()), ver.size());
	return look("after the second mount"); }
struct GeoM { int lp, lb; u32 nb; };
static const GeoM geoM[] = {{9, 2, 20}, {8, 1, 40}, {9, 3, 16}, {11, 4, 14}, {10, 3, 14}};
static bool rec_M(std::vector<int> &idx, int maxlen, u32 sb, u8 ep) {
	if (!idx.empty() && !map_image(idx, sb, ep) && par::stop_all) return false;
	if ((int)idx.size() >= maxlen) return true;
	int fresh = 0; for (int x : idx) fresh = std::max(fresh, x + 1); (void)fresh;
	for (int s = 0; s < (idx.size() < 3 ? 8 : 6); s++) { idx.push_back(s); bool ok = rec_M(idx, maxlen, sb, ep); idx.pop_back(); if (!ok) return false; }
	return !par::out_of_time(); }
static bool item_M(u32 g, u32 first) {
	part = 'M'; item_id[0] = g; item_id[1] = first; vsetup(geoM[g].lp, geoM[g].lb, geoM[g].nb, sh_map_sizeof());
	std::vector<int> idx = {(int)first};
	struct { u32 sb; u8 ep; } st[] = {{0, 0}, {3, 255}, {1, 9}};
	int len = wantp == 25 ? 4 : par::thorough ? 7 : 6;
	for (auto &s : st) { idx = {(int)first}; if (!rec_M(idx, s.sb ? len - 1 : len, s.sb, s.ep) && par::stop_all) return false; }
	par::sample(itemdesc); return true; }

// ------------------------------------------------------------ F: blank and foreign chips
static const int NK = 7;
static const char *kind_name[] = {"blank", "garbage", "unreadable", "zero", "near-magic", "bad", "magic-elsewhere"};
static void fill_block(u32 b, int kind) {
	std::vector<u8> g(E.psz);
	for (u32 k = 0; k < E.ppb; k++) {
		u32 p = (b << E.c.lb) + k; u32 id = ID_BLANK;
		switch (kind) {
		case 1: for (u32 q = 0; q < E.psz; q++) g[q] = p * 131 + q * 7 + (q >> 3); if (g[0] == 'D') g[0] = 'E'; id = E.pool.intern(g.data()); break;
		case 2: id = ID_BLANK | TORN; break;
		case 3: memset(g.data(), 0, E.psz); id = E.pool.intern(g.data()); break;
		case 4: memset(g.data(), 0, E.psz); memcpy(g.data(), b & 1 ? "Dhb" : "dha", 3); id = E.pool.intern(g.data()); break;
		case 6: memset(g.data(), 0, E.psz); if (k % E.ppc != (u32)E.ppc - 1) { memcpy(g.data(), "Dha", 3); g[3] = 0; } id = E.pool.intern(g.data()); break;
		case 5: id = ID_BLANK | TORN; break; }
		E.chip()[p] = id; }
	E.next()[b] = kind == 0 ? 0 : E.ppb; if (kind == 5) E.flags()[b] |= BF_MARKED | BF_FAILED | BF_FACTORY; }
static bool foreign(int lp, int lb, u32 nb, int gc, const std::vector<int> &kinds) {
	par::cnt[c_cases]++; par::cnt[c_states]++; setup(lp, lb, nb, {}, sh_map_sizeof()); ubuf.assign(E.psz, 0); std::string d = "page 2^" + std::to_string(lp) + ", 2^" + std::to_string(lb) + " pages per block, blocks:";
	u32 badn = 0; for (u32 b = 0; b < nb; b++) { fill_block(b, kinds[b % kinds.size()]); d += std::string(" ") + kind_name[kinds[b % kinds.size()]]; badn += kinds[b % kinds.size()] == 5; } itemdesc = d.substr(0, 300); doing = "mount of a foreign chip";
	int rc = 0, err = ERR_UNSET; E.power_off(0x5A); E.mounting = true; par::cnt[c_mount]++;
	bool ok = guarded(Plan(), [&] { sh_map_init(E.map(), E.nand(), E.buf(), gc); err = ERR_UNSET; rc = sh_map_resume(E.map(), &err); }); E.mounting = false;
	if (!ok) return fail({24, 16}, "mounting does not terminate");
	if (E.mount_muts) return fail({24, 6}, "mounting writes to flash");
	if (!contract()) return false;
	if (rc == 0) return fail({24}, "mounting claims success");
	if (err < 1 || err > 8) return fail({24, 27}, "mounting fails without a documented error code (%d)", err);
	if (sh_map_size(E.map())) return fail({24}, "the map is not empty after a failed mount (%u)", sh_map_size(E.map()));
	u32 secs[] = {0, 1, 0x80000000u, 0xfffffffeu, 77}; std::map<u32, u8> m;
	auto look = [&](const char *when) { bool good = true; guarded(Plan(), [&] { for (u32 s : secs) { memset(ubuf.data(), 0x21, E.psz); int e2 = 0; u32 loc; int r = sh_map_read(E.map(), s, ubuf.data(), &e2); u8 want_ = m.count(s) ? m[s] : 0xff; bool eq = !r; for (u32 q = 0; q < E.psz && eq; q++) eq = ubuf[q] == want_;
			int fr = sh_map_find(E.map(), s, &loc, &e2); if (!eq || (fr == 0) != (m.count(s) > 0)) { good = false; fail({24}, "%s: sector %x does not read back as %s", when, s, m.count(s) ? "written" : "blank"); break; } } });
		if (good && sh_map_size(E.map()) != m.size()) return fail({24}, "%s: size %u, expected %zu", when, sh_map_size(E.map()), m.size());
		return good && contract(); };
	if (!look("after the failed mount")) return false;
	u32 cap = sh_map_capacity(E.map()); int opn = 0; bool full = false;
	// the map refuses a chip too small or too bad for any sector; nothing more to see then
	auto op = [&](int what, u32 s, u8 val) { int r = 0; err = 0; opn++; par::cnt[c_trans]++; memset(ubuf.data(), val, E.psz);
		bool o = guarded(Plan(), [&] { r = what == 0 ? sh_map_write(E.map(), s, ubuf.data(), &err) : what == 1 ? sh_map_trim(E.map(), s, &err) : what == 2 ? sh_map_sync(E.map(), &err) : sh_map_gc(E.map(), &err); });
		if (!o) return fail({24, 16}, "operation %d does not terminate", opn);
		if (r < 0 && err == 7 && sh_map_capacity(E.map()) <= sh_map_size(E.map())) { full = true; return false; }      // bad blocks left too little room
		if (r < 0) return fail({24}, "operation %d on the fresh map fails with error %d", opn, err);
		return contract(); };
	auto remount = [&](const char *when) { E.power_off(0x77); E.mounting = true; par::cnt[c_mount]++; int r = 0; bool o = guarded(Plan(), [&] { sh_map_init(E.map(), E.nand(), E.buf(), gc); r = sh_map_resume(E.map(), &err); }); E.mounting = false;
		if (!o || r < 0) return fail({24, 21}, "%s: remount fails (error %d)", when, err);
		return contract() && look(when); };
	if (cap < 4) return true;
	if (!op(3, 0, 0) || !op(0, 0, 0x11)) return false;
	m[0] = 0x11; if (!look("after a write")) return false;
	if (!op(0, 0x80000000u, 0x22)) return false;
	m[0x80000000u] = 0x22; if (!op(2, 0, 0)) return false;
	if (!remount("after the first sync")) return false;
	if (!op(1, 0, 0)) return false;
	m.erase(0); if (!op(0, 1, 0x33)) return false;
	m[1] = 0x33;
	for (u32 i = 0; i < E.np / 2; i++) { if (!op(0, 1, 0x40 + i % 64)) return false; m[1] = 0x40 + i % 64; if (i % 5 == 4) { if (!op(2, 0, 0)) return false; if (i % 10 == 9 && !remount("later")) return false; } }
	if (!op(2, 0, 0)) return false;
	if (!remount("at the end")) return false;
	// the chip is replaced by the foreign one again, and mounted with the structure as it is
	if (!op(0, 5, 0x35)) return false;
	m.clear(); for (u32 b = 0; b < nb; b++) { E.flags()[b] = 0; fill_block(b, kinds[b % kinds.size()]); }
	E.mounting = true; err = ERR_UNSET; par::cnt[c_mount]++;
	ok = guarded(Plan(), [&] { rc = sh_map_resume(E.map(), &err); }); E.mounting = false;
	if (!ok) return fail({24, 16}, "mounting with a used structure does not terminate");
	if (E.mount_muts) return fail({24, 6}, "mounting with a used structure writes to flash");
	if (rc == 0 || err < 1 || err > 8) return fail({24, 27}, "mounting a foreign chip with a used structure returns %d, error %d", rc, err);
	if (sh_map_capacity(E.map()) != cap) return fail({24}, "after a failed mount with a used structure the capacity is %u instead of %u", sh_map_capacity(E.map()), cap);
	if (!look("after a failed mount with a used structure")) return false;
	if (!op(3, 0, 0) || !op(0, 77, 0x11)) return false;
	m[77] = 0x11; if (!op(2, 0, 0)) return false;
	return remount("used structure, after a sync"); }
struct GeoF { int lp, lb; u32 nb; int gc, blocks; };
static const GeoF geoF[] = {{9, 2, 24, 4, 0}, {8, 1, 40, 4, 0}, {9, 3, 20, 4, 0}, {11, 4, 16, 4, 0}, {8, 2, 32, 1, 0}};
static bool item_F(u32 g, u32 a) {
	part = 'F'; item_id[0] = g; item_id[1] = a; const GeoF &x = geoF[g]; std::vector<int> k;
	// all assignments of kinds to the first blocks, repeated over the chip with a period, limiting bad blocks
	int per = par::thorough ? 5 : wantp == 25 ? 2 : 4; long n = 1; for (int i = 1; i < per; i++) n *= NK;
	for (long c = 0; c < n; c++) { k.assign(per, 0); k[0] = a; long t = c; for (int i = 1; i < per; i++) { k[i] = t % NK; t /= NK; }
		int bads = 0; for (int i : k) bads += i == 5; 
		if (bads * 4 > per) { // too many bad blocks when repeated: use the pattern once, the rest blank or garbage
			std::vector<int> w(x.nb, c & 1); for (int i = 0; i < per; i++) w[i] = k[i]; if (!foreign(x.lp, x.lb, x.nb, x.gc, w) && par::stop_all) return false; }
		else { std::vector<int> w(x.nb); int b = 0; for (u32 i = 0; i < x.nb; i++) { w[i] = k[i % per]; if (w[i] == 5 && ++b > 3) w[i] = 2; } if (!foreign(x.lp, x.lb, x.nb, x.gc, w) && par::stop_all) return false; }
		if (par::out_of_time()) return true; }
	par::sample("foreign chip: " + itemdesc); return true; }

struct Item { char part; u32 a, b; };
static std::vector<Item> items() {
	std::vector<Item> r; int p = wantp;
	if (p == 21 || p == 16) { for (u32 nb = par::thorough ? 40 : p == 16 ? 12 : 20; nb >= 4; nb--) for (u32 g = 0; g < 6; g++) if (p == 21 || nb % 4 == 0) r.push_back({'A', g, nb}); }
	if (p == 21 || p == 22 || p == 16) { u32 n = geoB().size(); for (u32 i = n; i-- > 0;) for (u32 k = 0; k < 6; k++) if ((k < 4 || geoB()[i].mode == 0) && (p == 21 || par::thorough || (k < 3 && geoB()[i].nb != 1023) || p == 16)) r.push_back({'B', i, k}); }
	if (p == 22) for (u32 g = 0; g < 5; g++) for (u32 a = 0; a < 8; a++) r.push_back({'M', g, a});
	if (p == 25) { for (u32 nb = par::thorough ? 12 : 8; nb >= 4; nb--) for (u32 g = 0; g < 6; g++) r.push_back({'A', g, nb}); for (u32 g = 0; g < 5; g++) r.push_back({'M', g, 0}); }
	if (p == 24 || p == 25) for (u32 g = 0; g < 5; g++) for (u32 a = 0; a < (u32)NK; a++) r.push_back({'F', g, a});
	return r; }
static bool run_item(const Item &i) { v.on = false; return i.part == 'A' ? item_A(i.a, i.b) : i.part == 'B' ? item_B(i.a, i.b) : i.part == 'M' ? item_M(i.a, i.b) : item_F(i.a, i.b); }
int main(int argc, char **argv) {
	par::args(argc, argv); wantp = atoi(par::prop.c_str() + 1);
	c_cases = par::counter("cases"); c_trans = par::counter("transitions"); c_exec = par::counter("executions"); c_crash = par::counter("crash_points"); c_mount = par::counter("mounts"); c_states = par::counter("states"); c_mm = par::counter("max_nand_calls_in_one_mount");
	par::write_body = [](FILE *f) { fprintf(f, "engine resume\nitem %c %u %u\n# %s\n", part, item_id[0], item_id[1], itemdesc.c_str()); };
	par::running = [] { return std::string(doing) + " " + itemdesc; };
	if (!par::replay.empty()) { FILE *f = fopen(par::replay.c_str(), "r"); if (!f) return 2; char l[1024]; Item i = {'A', 0, 0}; bool have = false; while (fgets(l, sizeof l, f)) have |= sscanf(l, "item %c %u %u", &i.part, &i.a, &i.b) == 3; fclose(f); par::replaying = true; par::t0 = par::now(); par::install(); if (have) run_item(i); return par::replay_result(); }
	return par::run("resume", [] { auto it = items(); for (long k; !par::stopping() && (k = par::take()) < (long)it.size();) { double t = par::now(); run_item(it[k]); if (getenv("MC_SHOW")) fprintf(stderr, "%c %u %u: %.2f s\n", it[k].part, it[k].a, it[k].b, par::now() - t); if (par::out_of_time()) break; } });
}
