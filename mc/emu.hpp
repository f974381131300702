// NAND emulator, snapshot arena, page pool and deviation control shared by all
// explorers. The whole concrete state (library structures, page buffer, module
// statics, chip, reference model) lives in one arena that is saved, restored
// and hashed as bytes; page contents are interned so a page is a 32-bit id.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <cstdarg>
#include <string>
#include <vector>
#include <algorithm>
#include <csetjmp>
#include "shim.h"

typedef uint32_t u32; typedef uint64_t u64; typedef uint8_t u8; typedef uint16_t u16;

struct Config {
	std::string name;
	int lp = 9, lb = 2; unsigned nb = 17; int gc = 4;
	bool imprecise = false;            // is_free() cannot tell programmed-0xff from erased
	bool big = false;                  // only used by the bounded-work check
	bool dirty = false;                // factory chip is not erased (foreign contents)
	std::vector<unsigned> bad;         // factory bad blocks
	int log2_ppc() const {             // independent statement of the checkpoint period
		int k = 1; while (k < lb && 16 + 4 + 132 * ((1 << (k + 1)) - 1) <= (1 << lp)) k++;
		return k; }
};

// ---------------------------------------------------------------- page pool
static const u32 TORN = 0x80000000u;       // page reads as uncorrectable
static const u32 ID_BLANK = 0, ID_PROGFF = 1;
struct Pool {
	size_t psz = 0; std::vector<u8> data; std::vector<u64> hs; u32 n = 0;
	std::vector<u32> tab; u32 mask = 0;
	static u64 mix(u64 a, u64 b) { __uint128_t r = (__uint128_t)a * b; return (u64)r ^ (u64)(r >> 64); }
	static u64 hash(const u8 *p, size_t len) {
		u64 h = 0x9E3779B97F4A7C15ull ^ len, g = 0xD1B54A32D192ED03ull; size_t i = 0;
		for (; i + 16 <= len; i += 16) { u64 a, b; memcpy(&a, p + i, 8); memcpy(&b, p + i + 8, 8);
			h = mix(a ^ h, b ^ 0xA0761D6478BD642Full) + g; g = g * 0xE7037ED1A0B428DBull + (a ^ (b << 1)); }
		for (; i < len; i++) h = mix(h ^ p[i], 0x8EBC6AF09C88C6E3ull);
		return mix(h ^ 0x589965CC75374CC3ull, g | 1); }
	void init(size_t page) { psz = page; data.clear(); hs.clear(); n = 0; tab.assign(1 << 12, 0); mask = (1 << 12) - 1;
		std::vector<u8> ff(page, 0xff); add(ff.data(), 1); add(ff.data(), 2); insert(0); }
	u32 add(const u8 *d, u64 h) { data.insert(data.end(), d, d + psz); hs.push_back(h); return n++; }
	void insert(u32 id) { u64 h = hash(&data[(size_t)id * psz], psz); hs[id] = h; place(id, h); }
	void place(u32 id, u64 h) { u32 i = h & mask; while (tab[i]) i = (i + 1) & mask; tab[i] = id + 1; }
	void rebuild(u32 size) { tab.assign(size, 0); mask = size - 1; place(0, hs[0]); for (u32 i = 2; i < n; i++) place(i, hs[i]); }
	u32 intern(const u8 *d) {
		u64 h = hash(d, psz); u32 i = h & mask;
		while (tab[i]) { u32 id = tab[i] - 1; if (hs[id] == h && !memcmp(&data[(size_t)id * psz], d, psz)) return id; i = (i + 1) & mask; }
		u32 id = add(d, h); tab[i] = id + 1; if (n * 2 > mask) rebuild((mask + 1) * 2); return id; }
	void release(u32 mark) { if (n == mark) return; n = mark; data.resize((size_t)n * psz); hs.resize(n);
		u32 sz = 1 << 12; while (sz < n * 4) sz *= 2; rebuild(sz); }
	const u8 *at(u32 id) { return &data[(size_t)(id & ~TORN) * psz]; }
};

// ---------------------------------------------------------------- deviations
enum { PT_PROG = 'P', PT_COPY = 'C', PT_ERASE = 'E', PT_MARK = 'M', PT_READ = 'R' };
enum Alt { A_NONE, FAIL_ECC, FAIL_FF, FAIL_GOOD, FAIL_OLD, CRASH_BEFORE, CRASH_TORN, CRASH_HALF, RD_ONCE, RD_PERSIST };
static const char *alt_name[] = { "-", "fail-ecc", "fail-blank", "fail-good", "fail-old", "crash-before", "crash-torn", "crash-half", "read-once", "read-persist" };
struct Dev { u32 idx; u8 alt; u8 rd; };          // rd: index counts reads, else mutations
typedef std::vector<Dev> Plan;

enum { BF_MARKED = 1, BF_FAILED = 2, BF_FACTORY = 4, BF_REPORTED = 8 };

// contract breaches (C10) and other flash-level observations
enum { V_RANGE = 1, V_ORDER = 2, V_UNERASED = 4, V_MARKED = 8, V_READRANGE = 16, V_BUFFER = 32, V_MARKGOOD = 64, V_FACTORY = 128, V_GUARD = 256 };

struct Emu {
	Config c; unsigned np = 0, ppb = 0, psz = 0; int ppc = 0;
	Pool pool;
	// arena
	std::vector<u8> arena; size_t o_map, o_buf, o_stat, o_nand, o_chip, o_next, o_flags, o_wear, o_taint, o_model, asz;
	static const int CAN = 64; size_t o_can[2];          // guard bytes behind the structure and the page buffer
	size_t mapsz, statsz; u8 *statp = nullptr;
	u8 *ext_buf = nullptr;                   // page buffer outside the arena (guarded), copied in/out
	// run-time
	Plan plan; u32 mut = 0, rdn = 0, calls = 0, horizon = 0, devs_hit = 0; bool counting = false;
	std::vector<u8> muts; std::vector<u32> mutpage, mutseq, rdseq; u32 nreads = 0, seq = 0, devseq = 0;   // seq: order of all choice points
	u32 n_prog = 0, n_erase = 0, n_mark = 0, n_readbytes = 0, n_isbad = 0, n_isfree = 0;
	u32 viol = 0; std::string violmsg;
	bool crashed = false, hang = false, failhit = false, readhit = false; sigjmp_buf jb;
	u32 touched = 0;                         // taint kinds read since last reset
	u32 last_ecc_page = 0xffffffff; bool ecc_seen = false;
	bool lenient = false;                    // a second program of a page takes the new data (erase counting only)
	bool verbose = false; bool mounting = false; u32 mount_muts = 0;
	// window of a relocation in progress (for classifying known findings)
	const void *nandp = nullptr;

	u8 *A() { return arena.data(); }
	u8 *map() { return A() + o_map; }
	u8 *buf() { return ext_buf ? ext_buf : A() + o_buf; }
	void *nand() { return A() + o_nand; }
	u32 *chip() { return (u32 *)(A() + o_chip); }
	u8 *next() { return A() + o_next; }
	u8 *flags() { return A() + o_flags; }
	u16 *wear() { return (u16 *)(A() + o_wear); }
	u8 *taint() { return A() + o_taint; }
	u8 *model() { return A() + o_model; }

	static size_t up(size_t x) { return (x + 15) & ~(size_t)15; }
	void setup(const Config &cfg, size_t modelsz, size_t objsz, u8 *sp, size_t ssz) {
		c = cfg; psz = 1u << c.lp; ppb = 1u << c.lb; np = c.nb << c.lb; ppc = 1 << c.log2_ppc();
		pool.init(psz); mapsz = objsz; statp = sp; statsz = ssz;
		size_t o = 0;
		o_nand = o; o = up(o + sh_nand_size());
		o_map = o; o += mapsz; o_can[0] = o; o = up(o + CAN);
		o_buf = o; o += psz; o_can[1] = o; o = up(o + CAN);
		o_stat = o; o = up(o + statsz);
		o_chip = o; o = up(o + 4 * np);
		o_next = o; o = up(o + c.nb);
		o_flags = o; o = up(o + c.nb);
		o_wear = o; o = up(o + 2 * c.nb);
		o_taint = o; o = up(o + np);
		o_model = o; o = up(o + modelsz);
		asz = o; arena.assign(asz, 0);
		for (size_t k : o_can) memset(A() + k, 0xC5, CAN);
		sh_nand_set(nand(), c.lp, c.lb, c.nb); nandp = nand();
#ifdef __SANITIZE_ADDRESS__
		free(ext_buf); ext_buf = (u8 *)malloc(psz);          // an exact-size page buffer: any access beyond it is trapped
#endif
		for (unsigned b : c.bad) { flags()[b] = BF_MARKED | BF_FAILED | BF_FACTORY; next()[b] = ppb; }
		if (c.dirty) {
			std::vector<u8> g(psz);
			for (unsigned i = 0; i < np; i++) {
				for (unsigned k = 0; k < psz; k++) g[k] = (u8)(i * 131 + k * 7 + (k >> 3));
				chip()[i] = pool.intern(g.data()); }
			for (unsigned b = 0; b < c.nb; b++) next()[b] = ppb; }
		for (unsigned b : c.bad) for (unsigned k = 0; k < ppb; k++) chip()[(b << c.lb) + k] = ID_BLANK | TORN;
		stat_initial.assign(sp, sp + ssz); memcpy(A() + o_stat, sp, ssz);
		horizon = 400 * np + 40000; }
	std::vector<u8> stat_initial;
	void save(std::vector<u8> &s) { if (statsz) memcpy(A() + o_stat, statp, statsz); if (ext_buf) memcpy(A() + o_buf, ext_buf, psz);
		s.resize(asz); memcpy(s.data(), A(), asz); }
	void load(const std::vector<u8> &s) { memcpy(A(), s.data(), asz); if (statsz) memcpy(statp, A() + o_stat, statsz); if (ext_buf) memcpy(ext_buf, A() + o_buf, psz); }
	u64 hash() { if (statsz) memcpy(A() + o_stat, statp, statsz); if (ext_buf) memcpy(A() + o_buf, ext_buf, psz); return Pool::hash(A(), asz); }
	u64 chip_hash() { return Pool::hash(A() + o_chip, o_taint - o_chip); }
	// everything held in RAM is lost: garbage in structure and buffer, statics as at program start
	void power_off(u8 junk) { memset(map(), junk, mapsz); memset(buf(), junk, psz); if (statsz) memcpy(statp, stat_initial.data(), statsz);
		for (unsigned b = 0; b < c.nb; b++) flags()[b] &= ~BF_REPORTED; }

	void begin(const Plan &p) { plan = p; mut = rdn = calls = 0; devs_hit = 0; muts.clear(); mutpage.clear(); mutseq.clear(); rdseq.clear(); seq = devseq = nreads = 0; viol = 0; violmsg.clear();
		n_prog = n_erase = n_mark = n_readbytes = n_isbad = n_isfree = 0; crashed = hang = failhit = readhit = false; ecc_seen = false; last_ecc_page = 0xffffffff;
		mount_muts = 0; counting = true; }
	void end() { counting = false; if (!canary_ok()) { breach(V_GUARD, "bytes behind the %s were overwritten", A()[o_can[0]] != 0xC5 ? "structure" : "page buffer"); } }
	void breach(u32 v, const char *fmt, ...) { viol |= v; if (violmsg.empty()) { char b[256]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); violmsg = b; } }
	void log(const char *fmt, ...) { if (!verbose) return; va_list ap; va_start(ap, fmt); vprintf(fmt, ap); va_end(ap); }
	void tick(const void *n) { if (n != nandp) breach(V_RANGE, "call for a foreign flash device"); if (counting && ++calls > horizon) { hang = true; siglongjmp(jb, 1); } }
	u8 alt_mut(u8 type, u32 pg) {
		if (mounting) mount_muts++;
		if (!counting) return A_NONE;
		u32 i = mut++; muts.push_back(type); mutpage.push_back(pg); mutseq.push_back(++seq);
		for (auto &d : plan) if (!d.rd && d.idx == i) { devs_hit++; devseq = seq; log("      !! %s\n", alt_name[d.alt]); return d.alt; }
		return A_NONE; }
	u8 alt_read() { if (!counting) return A_NONE; u32 i = rdn++; rdseq.push_back(++seq); for (auto &d : plan) if (d.rd && d.idx == i) { devs_hit++; devseq = seq; readhit = true; log("      !! %s\n", alt_name[d.alt]); return d.alt; } return A_NONE; }
	[[noreturn]] void crash() { crashed = true; siglongjmp(jb, 1); }

	bool canary_ok() { for (size_t k : o_can) for (int i = 0; i < CAN; i++) if (A()[k + i] != 0xC5) return false; return true; }
	int is_bad(u32 b) { n_isbad++; if (b >= c.nb) { breach(V_RANGE, "is_bad on non-existent block %u", b); return 1; } return flags()[b] & BF_MARKED; }
	void mark_bad(u32 b) {
		if (b >= c.nb) { breach(V_RANGE, "mark_bad on non-existent block %u", b); return; }
		u8 a = alt_mut(PT_MARK, b << c.lb); log("      mark_bad %u\n", b);
		if (a == CRASH_BEFORE || a == CRASH_TORN) crash();
		n_mark++;
		for (unsigned i = 0; i < ppb; i++) taint()[(b << c.lb) + i] &= ~2;
		if (!(flags()[b] & BF_FAILED)) breach(V_MARKGOOD, "block %u marked bad although no operation on it failed", b);
		flags()[b] |= BF_MARKED; }
	int erase(u32 b) {
		if (b >= c.nb) { breach(V_RANGE, "erase of non-existent block %u", b); return E_BAD_BLOCK; }
		if (flags()[b] & BF_FACTORY) breach(V_FACTORY | V_MARKED, "erase of factory-bad block %u", b);
		else if (flags()[b] & BF_MARKED) breach(V_MARKED, "erase of block %u which is marked bad", b);
		u8 a = alt_mut(PT_ERASE, b << c.lb); log("      erase %u\n", b);
		u32 *pg = chip() + (b << c.lb); u8 *tn = taint() + (b << c.lb);
		if (a == CRASH_BEFORE) crash();
		if (wear()[b] < 0xffff) wear()[b]++;
		n_erase++;
		if (a == CRASH_TORN) { for (unsigned i = 0; i < ppb; i++) { pg[i] |= TORN; tn[i] = 0; } next()[b] = ppb; crash(); }
		if (a == CRASH_HALF) { for (unsigned i = 0; i < ppb / 2; i++) { pg[i] = ID_BLANK; tn[i] = 0; } next()[b] = ppb; crash(); }
		if (a == FAIL_ECC || a == FAIL_OLD) flags()[b] |= BF_FAILED;
		if (flags()[b] & BF_FAILED) { failhit = true; flags()[b] |= BF_REPORTED; next()[b] = ppb; if (a != FAIL_OLD) for (unsigned i = 0; i < ppb; i++) { pg[i] |= TORN; tn[i] = 0; } return E_BAD_BLOCK; }
		for (unsigned i = 0; i < ppb; i++) { pg[i] = ID_BLANK; tn[i] = 0; }
		next()[b] = 0; return 0; }
	int program(u32 p, u32 id, u8 type) {
		const u32 b = p >> c.lb, k = p & (ppb - 1); u32 *pg = chip() + p; bool over = false;
		if (flags()[b] & BF_FACTORY) breach(V_FACTORY | V_MARKED, "program of factory-bad block %u", b);
		else if (flags()[b] & BF_MARKED) breach(V_MARKED, "program in block %u which is marked bad", b);
		u8 a = alt_mut(type, p);
		if (k < next()[b] || *pg != ID_BLANK) { over = true; breach(V_ORDER, "page %u programmed twice or out of order since the last erase", p); }
		if (a == CRASH_BEFORE) crash();
		bool soft = c.imprecise && id == ID_BLANK;
		if (!c.imprecise && id == ID_BLANK) id = ID_PROGFF;
		// a failed program that left the page blank did not use the page up
		if (!soft && a != FAIL_FF) next()[b] = std::max<unsigned>(next()[b], k + 1);
		n_prog++;
		if (a == CRASH_TORN) { *pg = id | TORN; taint()[p] |= 1; crash(); }
		if (a == FAIL_ECC || a == FAIL_FF || a == FAIL_GOOD) flags()[b] |= BF_FAILED;
		if (flags()[b] & BF_FAILED) { failhit = true; flags()[b] |= BF_REPORTED; taint()[p | (ppc - 1)] |= 2;
			if (a == FAIL_FF) { } else if (a == FAIL_GOOD && !over) *pg = id; else *pg = id | TORN;
			return E_BAD_BLOCK; }
		*pg = over && !lenient ? (id | TORN) : id; return 0; }
	int prog(u32 p, const u8 *d) {
		if (p >= np) { breach(V_RANGE, "program of non-existent page %u", p); return E_BAD_BLOCK; }
		u32 id = pool.intern(d); log("      prog %u (blk %u +%u) id=%u %s\n", p, p >> c.lb, p & (ppb - 1), id, d[0] == 'D' && d[1] == 'h' ? "[D]" : "");
		return program(p, id, PT_PROG); }
	int is_free(u32 p) { n_isfree++; if (p >= np) { breach(V_RANGE, "is_free on non-existent page %u", p); return 0; } return chip()[p] == ID_BLANK; }
	int do_read(u32 p, size_t off, size_t len, u8 *d) {
		u8 a = alt_read(); nreads++; n_readbytes += len;
		if (taint()[p]) touched |= taint()[p];
		if (a == RD_PERSIST) { chip()[p] |= TORN; taint()[p] |= 4; }
		if ((chip()[p] & TORN) || a == RD_ONCE) {
			// what an uncorrectable page delivers: the start of the real data, then junk
			const u8 *src = pool.at(chip()[p]);
			for (size_t i = 0; i < len; i++) if (d) d[i] = off + i < psz / 2 ? src[off + i] : 0xff;
			ecc_seen = true; last_ecc_page = p; return E_ECC; }
		if (d) memcpy(d, pool.at(chip()[p]) + off, len);
		return 0; }
	void heal() { for (unsigned i = 0; i < np; i++) if (taint()[i] & 4) { taint()[i] &= ~4; chip()[i] &= ~TORN; } }
	int read(u32 p, size_t off, size_t len, u8 *d) {
		if (p >= np) { breach(V_RANGE | V_READRANGE, "read of non-existent page %u", p); memset(d, 0xff, len); return E_ECC; }
		if (off > psz || len > psz || off + len > psz) { breach(V_READRANGE, "read range %zu+%zu exceeds the page", off, len); return E_ECC; }
		log("      read %u (blk %u +%u) off=%zu len=%zu%s\n", p, p >> c.lb, p & (ppb - 1), off, len, chip()[p] & TORN ? " UNCORRECTABLE" : "");
		return do_read(p, off, len, d); }
	int copy(u32 s, u32 p) {
		if (s >= np || p >= np) { breach(V_RANGE, "copy %u -> %u outside the chip", s, p); return s >= np ? E_ECC : E_BAD_BLOCK; }
		log("      copy %u -> %u (blk %u +%u)\n", s, p, p >> c.lb, p & (ppb - 1));
		if (do_read(s, 0, psz, nullptr)) return E_ECC;
		u32 id = chip()[s]; if (id == ID_PROGFF) id = ID_BLANK;
		return program(p, id, PT_COPY); }
};
