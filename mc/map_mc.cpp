// Exhaustive bounded exploration of the real map + journal code.
#include "emu.hpp"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <unistd.h>
#include <signal.h>
#include <map>
#include <set>
#include <unordered_map>
#include <atomic>
#include <functional>

extern "C" { extern u8 __start_dh_data[] __attribute__((weak)); extern u8 __stop_dh_data[] __attribute__((weak)); }

#ifndef MSECT
#define MSECT 72
#endif
static const int MS = MSECT, MD = 250;                     // MSECT: sectors tracked by the reference model
struct Model {
	u16 cur[MS], base[MS]; u8 last[MS];
	u8 ds[MD]; u16 dv[MD];
	u8 nd, ever, F, X, E, stale; u16 pad;
};
static const u8 D_CLEAR = 255;
enum { V_NONE_ = 0, V_FFDATA = 1, V_MIMIC = 2, V_UNKNOWN = 0xffff, V_ERR = 0xfffe };

struct Op { char k; u8 a, b; };
typedef std::vector<Op> Ops;

// ---------------------------------------------------------------- tags
static u64 T(int n) { return 1ull << n; }
static u64 wanted = 0; static std::string prop;

static Emu E;
static std::vector<u32> secs; static int NS, NA; static std::vector<u32> ghosts;
static std::vector<u8> dbuf, rbuf;
static u8 *user_data = nullptr;       // exact-size caller buffer (guarded in sanitizer builds)
static Model *M() { return (Model *)E.model(); }

// dispatch of the flash callbacks
extern "C" {
int h_is_bad(const void *n, u32 b) { E.tick(n); return E.is_bad(b); }
void h_mark_bad(const void *n, u32 b) { E.tick(n); E.mark_bad(b); }
int h_erase(const void *n, u32 b) { E.tick(n); return E.erase(b); }
int h_prog(const void *n, u32 p, const u8 *d) { E.tick(n); if (!d) { E.breach(V_BUFFER, "program with a null buffer"); return E_BAD_BLOCK; } return E.prog(p, d); }
int h_is_free(const void *n, u32 p) { E.tick(n); return E.is_free(p); }
int h_read(const void *n, u32 p, size_t o, size_t l, u8 *d) { E.tick(n); return E.read(p, o, l, d); }
int h_copy(const void *n, u32 s, u32 d) { E.tick(n); return E.copy(s, d); }
}

// ---------------------------------------------------------------- data
static void make_data(u16 id, u8 *d) {
	const size_t n = E.psz;
	if (id == V_FFDATA || id == V_NONE_) { memset(d, 0xff, n); return; }
	if (id == V_MIMIC) {          // looks like a checkpoint of a far newer epoch
		memset(d, 0xff, n); memcpy(d, "Dha", 3); d[3] = 0x7f; for (int i = 4; i < 16; i++) d[i] = 0; d[16] = 200; d[17] = d[18] = d[19] = 0; return; }
	u32 x = id * 2654435761u + 12345; d[0] = 0xC0; d[1] = id; d[2] = id >> 8; d[3] = ~id;
	for (size_t i = 4; i < n; i++) { x ^= x << 13; x ^= x >> 17; x ^= x << 5; d[i] = x; } }
static std::unordered_map<u32, std::vector<u8>> data_cache;
static const u8 *data_of(u16 id) { auto &v = data_cache[id]; if (v.size() != E.psz) { v.resize(E.psz); make_data(id, v.data()); } return v.data(); }
static u16 decode(const u8 *d) {
	if (d[0] == 0xff) { for (size_t i = 0; i < E.psz; i++) if (d[i] != 0xff) return V_UNKNOWN; return V_FFDATA; }
	u16 id = d[0] == 'D' ? (u16)V_MIMIC : (u16)(d[1] | d[2] << 8);
	if (id != V_MIMIC && (d[0] != 0xC0 || id < 0x100)) return V_UNKNOWN;
	return memcmp(d, data_of(id), E.psz) ? (u16)V_UNKNOWN : id; }
static std::string cname(u16 v) { char b[64]; if (!v) return "unmapped"; if (v == 1) return "ff-data"; if (v == 2) return "mimic"; if (v == V_UNKNOWN) return "GARBAGE"; if (v == V_ERR) return "ERROR"; snprintf(b, sizeof b, "s%u.v%u", (unsigned)secs[(v >> 8) - 1], v & 255); return b; }

// ---------------------------------------------------------------- statistics / reporting
struct Stats { u64 states, trans, execs, crashes, mounts, faults, rdfaults, starts, pruned, kf, kfb, mfull, maxcalls, maxmount, leaves, distinct; };
static Stats st;
struct Step { Op op; Plan plan; };
static std::vector<Step> path;           // steps since the start state
static int cur_cfg = 0, cur_wl = 0; static long cur_start = 0;
static bool stop_all = false, pruned = false, replaying = false; static std::string vmsg; static u64 vtags;
static std::string cfgkey;
static std::vector<std::string> kfl;     // known-finding hits (signatures)
static std::set<std::string> kfset;

static std::string opstr(const Op &o) { char b[64];
	switch (o.k) {
	case 'W': snprintf(b, sizeof b, "write s%u", secs[o.a]); break; case 'F': snprintf(b, sizeof b, "write-ff s%u", secs[o.a]); break;
	case 'M': snprintf(b, sizeof b, "write-mimic s%u", secs[o.a]); break; case 'T': snprintf(b, sizeof b, "trim s%u", secs[o.a]); break;
	case 'Y': snprintf(b, sizeof b, "copy_sector s%u->s%u", secs[o.a], secs[o.b]); break; case 'P': snprintf(b, sizeof b, "copy_page find(s%u)->s%u", secs[o.a], secs[o.b]); break;
	case 'V': snprintf(b, sizeof b, "read s%u", secs[o.a]); break; case 'N': snprintf(b, sizeof b, "find s%u%s", secs[o.a], o.b ? " (no location wanted)" : ""); break;
	case 'S': return "sync"; case 'G': return "gc"; case 'C': return "clear"; case 'R': return "power-off+mount"; case 'Q': return "sync+remount";
	default: snprintf(b, sizeof b, "%c", o.k); }
	return b; }
static bool fail(u64 tags, const char *fmt, ...) {
	char b[600]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
	pruned = true; 
	if (!(tags & wanted)) { st.pruned++; if (getenv("MC_PRUNE")) fprintf(stderr, "PRUNE %s\n", b); E.log("   (outside this property: %s)\n", b); return false; }
	if (!stop_all) { vmsg = b; vtags = tags; stop_all = true; }
	return false; }

// ---------------------------------------------------------------- contexts
static u64 ctx_tags(u64 plain) {         // which property an unexpected outcome belongs to
	Model *m = M();
	if (m->F && m->X) return T(9);
	if (m->X) return T(5);
	if (m->F) return T(7);
	return plain; }
static int count_of(const u16 *v) { int n = 0; for (int i = 0; i < NS; i++) n += v[i] != 0; return n; }

static bool want_stack = false, want_null = false, want_c11 = false, want_c16 = false, want_c6 = false;
static bool kf_enabled = true; static int profile = 0; static bool wide_alphabet = false;
static bool kf_hit(const char *sig) { st.kf++; if (wanted & (sig[0] == 'u' ? T(5) | T(9) : T(9))) kfset.insert(sig); pruned = true; return true; }
// KF-A: a checkpoint page left unreadable by a power loss (torn program, or failed program whose
// block was not yet relocated) makes gc of its group fail with E_ECC for ever.
static bool known_op(int err) {
	if (!kf_enabled || !M()->X || err != E_ECC || E.last_ecc_page >= E.np || !(E.taint()[E.last_ecc_page] & 3)) return false;
	return kf_hit("unreadable-checkpoint-wedges-gc"); }
// KF-B: power loss while a failed block is being relocated: the metadata dump of its incomplete
// group is known only in RAM, so a lookup that needs that group goes wrong after the mount.
static bool known_lookup() {
	if (!kf_enabled || !M()->X || !M()->F || !(E.touched & 2)) return false;
	return kf_hit("power-loss-during-relocation-loses-dumped-metadata"); }

// ---------------------------------------------------------------- observation
static u16 obs[MS]; static u32 obs_touch[MS]; static bool obs_err; static int obs_errcode; static u32 obs_errsec;
static bool in_api(std::function<void()> f) {      // queries: no deviations, horizon guarded
	E.begin(Plan()); bool ok = true;
	if (!sigsetjmp(E.jb, 0)) f(); else ok = false;
	E.end(); return ok; }

// returns false on failure (already reported)
static bool contract_ok() {
	if (!E.viol) return true;
	u64 t = 0;
	if (E.viol & V_MARKGOOD) t |= T(8);
	if (E.viol & (V_MARKED | V_FACTORY)) t |= T(8) | T(10);
	if (E.viol & (V_RANGE | V_ORDER | V_UNERASED | V_READRANGE | V_BUFFER)) t |= T(10);
	if (E.viol & (V_READRANGE | V_RANGE | V_GUARD)) t |= T(25);
	if (E.viol & V_GUARD) t |= T(10);
	if (t & wanted) return fail(t, "flash contract: %s", E.violmsg.c_str());
	return true; }

struct ObsOpt { bool read = true, ghosts = true; };
// looks up every sector; obs[] gets content ids
static bool observe_raw(u64 tags_find, u64 tags_read, const u16 *expect) {
	Model *m = M(); (void)m; obs_err = false; u64 T2 = tags_find;
	volatile bool bad = false;
	bool ok = in_api([&] {
		for (int i = 0; i < NS && !bad; i++) {
			const u32 touched0 = E.touched; E.touched = 0;
			u32 loc = 0; int err = 0; int rc = sh_map_find(E.map(), secs[i], &loc, &err);
			u16 f;
			if (rc == 0) {
				if (loc >= E.np) { fail(T2 | T(2), "find(s%u) returned page %u outside the chip", secs[i], loc); bad = true; return; }
				f = (E.chip()[loc] & TORN) ? (u16)V_ERR : decode(E.pool.at(E.chip()[loc]));
			} else if (err == E_NOT_FOUND) f = 0;
			else { f = V_ERR; obs_err = true; obs_errcode = err; obs_errsec = secs[i]; }
			if (rc < 0 && (err < 1 || err > 8)) { fail(T(27), "find(s%u) failed without a documented error code (%d)", secs[i], err); bad = true; return; }
			memset(user_data, 0x5a, E.psz);
			int rc2 = sh_map_read(E.map(), secs[i], user_data, &err);
			u16 r;
			if (rc2 == 0) { r = decode(user_data); if (r == V_FFDATA && f == 0) r = 0; }
			else { r = V_ERR; obs_err = true; obs_errcode = err; obs_errsec = secs[i]; }
			if (rc2 < 0 && (err < 1 || err > 8)) { fail(T(27), "read(s%u) failed without a documented error code (%d)", secs[i], err); bad = true; return; }
			if (want_null) {
				int e2; u32 l2 = 0; sh_null_err = 1; int a = sh_map_find(E.map(), secs[i], nullptr, &e2), a2 = sh_map_find(E.map(), secs[i], &l2, &e2); memset(user_data, 0x5a, E.psz); int b = sh_map_read(E.map(), secs[i], user_data, &e2); sh_null_err = 0;
				if (a != rc || a2 != rc || b != rc2 || (rc == 0 && l2 != loc) || (rc2 == 0 && decode(user_data) != r && !(decode(user_data) == V_FFDATA && !r))) { fail(T(27), "find or read of s%u behaves differently with a null pointer (%d, %d, %d instead of %d, %d)", secs[i], a, a2, b, rc, rc2); bad = true; return; } }
			obs[i] = r; obs_touch[i] = E.touched; E.touched |= touched0;
			if (expect) {
				if (r != expect[i]) {
					if (known_lookup()) { bad = true; return; }
					fail(tags_read | (f != expect[i] ? T2 : 0), "sector %u reads %s, expected %s%s", secs[i], cname(r).c_str(), cname(expect[i]).c_str(), r == V_ERR ? (std::string(" (error ") + std::to_string(obs_errcode) + ")").c_str() : ""); bad = true; return; }
				if (f != r) { fail(T2 | tags_read, "find(s%u) gives %s but read gives %s", secs[i], cname(f).c_str(), cname(r).c_str()); bad = true; return; }
			} else if (f != r) { fail(T2 | tags_read, "find(s%u) gives %s but read gives %s", secs[i], cname(f).c_str(), cname(r).c_str()); bad = true; return; }
		}
		for (size_t g = 0; g < ghosts.size() && !bad; g++) {
			u32 loc; int err = 0; int rc = sh_map_find(E.map(), ghosts[g], &loc, &err);
			if (rc == 0 || (err != E_NOT_FOUND)) {
				if (rc && obs_err) continue;
				if (known_lookup()) { bad = true; return; }
				fail(T2, "sector %u was never written but find gives %s", ghosts[g], rc == 0 ? "a page" : "an error"); bad = true; return; }
			memset(user_data, 0x5a, E.psz);
			if (sh_map_read(E.map(), ghosts[g], user_data, &err) || decode(user_data) != V_FFDATA) { fail(tags_read, "sector %u was never written but does not read blank", ghosts[g]); bad = true; return; }
		}
	});
	if (!ok) return fail(tags_find | tags_read | T(16), "query does not terminate");
	if (bad) return false;
	return contract_ok(); }

static bool observe(u64 plain) {
	Model *m = M(); u64 t = ctx_tags(plain);
	E.touched = 0;
	if (!observe_raw(t | (m->F || m->X ? 0 : T(2)), t, m->cur)) return false;
	if (want_c16 && !m->F && !m->X && E.calls > (u32)(NS + ghosts.size()) * 2 * 2 * 34) return fail(T(16), "reading and finding %d sectors took %u flash calls", NS + (int)ghosts.size(), E.calls);
	u32 sz = sh_map_size(E.map());
	if (sz != (u32)count_of(m->cur) && known_lookup()) return false;
	if (sz != (u32)count_of(m->cur)) return fail(t | T(2), "map size is %u, %d sectors are mapped", sz, count_of(m->cur));
	return true; }

// ---------------------------------------------------------------- durability bookkeeping
static void set_floor() { Model *m = M(); memcpy(m->base, m->cur, sizeof m->cur); m->nd = 0; }
static bool push_diff(u8 s, u16 v) { Model *m = M();
	if (s == D_CLEAR) memset(m->cur, 0, sizeof m->cur); else m->cur[s] = v;
	if (m->nd >= MD) return false;
	m->ds[m->nd] = s; m->dv[m->nd] = v; m->nd++; return true; }
static void apply(u16 *v, u8 s, u16 x) { if (s == D_CLEAR) memset(v, 0, 2 * MS); else v[s] = x; }

static bool same(const u16 *a, const u16 *b) { return !memcmp(a, b, 2 * NS); }

static std::vector<u8> fresh;            // scratch
static u32 mount_bound();
static std::vector<u8> st_pre, st_post, st_now;
static void __attribute__((noinline)) paint(int v) { volatile u8 b[24576]; memset((void *)b, v, sizeof b); asm volatile("" :: "r"(b) : "memory"); }
static bool mount_once(int *rc, int *err) {
	bool ok = true, null_differs = false;
	for (int k = 0; k < (want_stack || want_null ? 2 : 1); k++) {        // the outcome must not depend on what happens to be on the stack, nor on the error pointer
		if (want_stack || want_null) { if (k) { E.save(st_post); E.load(st_pre); } else E.save(st_pre); }
		E.mounting = true;
		ok = in_api([&] {
			if (want_stack) paint(k ? 0xff : 0x00);
			sh_map_init(E.map(), E.nand(), E.buf(), E.c.gc);
			sh_null_err = want_null && !k; const int r = sh_map_resume(E.map(), err); sh_null_err = 0;
			if (want_null && k && r != *rc) null_differs = true; *rc = r;
		});
		sh_null_err = 0;
		if (k && want_null) { E.save(st_now); if (null_differs || memcmp(st_now.data() + E.o_map, st_post.data() + E.o_map, E.o_model - E.o_map)) return fail(T(27), "mounting behaves differently with a null error pointer"); }
		else if (k) { E.save(st_now); if (memcmp(st_now.data() + E.o_map, st_post.data() + E.o_map, E.o_model - E.o_map)) return fail(T(25), "mounting depends on uninitialised memory"); } }
	if (want_c16) E.log("     mount: %u flash calls\n", E.calls);
	E.mounting = false; st.maxmount = std::max<u64>(st.maxmount, E.calls); u32 ncalls = E.calls; u32 mm = E.mount_muts; st.mounts++;
	if (!ok) return fail(ctx_tags(T(6)) | T(5) | T(6) | T(3) | T(21) | T(24), "mount does not terminate");
	if (want_c16 && ncalls > mount_bound()) return fail(T(16), "mounting took %u flash calls (bound %u, %u blocks)", ncalls, mount_bound(), E.c.nb);
	if (mm) return fail(T(6), "mounting issued %u program/erase/mark-bad operations", mm);
	if (!contract_ok()) return false;
	if (*rc < 0 && (*err < 1 || *err > 8)) return fail(T(27), "mount failed without a documented error code");
	return true; }

// the same image mounted again, by a fresh and by a reused structure, gives the same map
static std::vector<u8> ram_before;        // structure, buffer and statics as they were when power was lost
static void keep_ram() { ram_before.assign(E.A() + E.o_map, E.A() + E.o_chip); ram_before.insert(ram_before.end(), E.statp, E.statp + E.statsz); }
static void back_ram() { memcpy(E.A() + E.o_map, ram_before.data(), E.o_chip - E.o_map); if (E.statsz) memcpy(E.statp, ram_before.data() + (E.o_chip - E.o_map), E.statsz); }
static bool remount_same(int rc0) {
	const u32 cap = sh_map_capacity(E.map()), sz = sh_map_size(E.map()); u16 o0[MS]; memcpy(o0, obs, sizeof o0);
	std::vector<u8> keep; E.save(keep);
	for (int k = 0; k < 4; k++) {
		if (k == 0) E.power_off(0x00);
		if (k == 3) back_ram();                 // the structure in use until now is mounted again as it is
		int rc = 0, err = 0;
		if (k < 2) { if (!mount_once(&rc, &err)) return false; }
		else { E.mounting = true; bool ok = in_api([&] { rc = sh_map_resume(E.map(), &err); }); E.mounting = false;
			if (!ok) return fail(T(6), "mounting again does not terminate");
			if (E.mount_muts) return fail(T(6), "mounting again writes to flash"); }
		if (rc != rc0) return fail(T(6), "mounting the same image again returns %d instead of %d", rc, rc0);
		if (!observe_raw(T(6), T(6), nullptr)) return false;
		if (!same(obs, o0)) return fail(T(6), "mounting the same image again shows different sectors");
		if (sh_map_size(E.map()) != sz || sh_map_capacity(E.map()) != cap) return fail(T(6), "mounting the same image again gives size %u capacity %u instead of %u, %u", sh_map_size(E.map()), sh_map_capacity(E.map()), sz, cap);
		if (memcmp(E.A() + E.o_chip, keep.data() + E.o_chip, E.o_model - E.o_chip)) return fail(T(6), "mounting changed the flash"); }
	E.load(keep); return true; }

// a page that cannot be read for once, at every read of a mount: the mount ends, writes nothing, reports
// properly and leaves an empty map if it fails; the same structure mounts normally afterwards
static bool want_rdmount = false;
static bool mount_read_faults(int rc0) {
	const u32 cap = sh_map_capacity(E.map()), sz = sh_map_size(E.map()); u16 o0[MS]; memcpy(o0, obs, sizeof o0);
	std::vector<u8> keep; E.save(keep); u32 n = 1;
	for (u32 r = 0; r < 2 * n; r++) {
		const bool reuse = r >= n;              // a fresh structure, then the one in use until now
		E.load(keep); if (!reuse) E.power_off(r & 1 ? 0xff : 0x00); int rc = 0, err = ERR_UNSET; bool ok = true;
		E.begin(r % n ? Plan{Dev{r % n - 1, RD_ONCE, 1}} : Plan()); E.mounting = true;
		if (!sigsetjmp(E.jb, 0)) { if (!reuse) sh_map_init(E.map(), E.nand(), E.buf(), E.c.gc); rc = sh_map_resume(E.map(), &err); } else ok = false;
		E.mounting = false; E.end(); st.mounts++; if (!r) { n = E.rdn + 1; continue; } st.rdfaults++;
		if (!ok) return fail(T(6) | T(24) | T(16), "mounting with one unreadable page does not terminate");
		if (E.mount_muts) return fail(T(6) | T(24), "mounting with one unreadable page writes to flash");
		if (!contract_ok()) return false;
		if (rc < 0 && (err < 1 || err > 8)) return fail(T(27), "a mount failed on an unreadable page without a documented error code (%d)", err);
		if (rc < 0) {
			if (sh_map_size(E.map())) return fail(T(24), "a failed mount leaves a map of size %u", sh_map_size(E.map()));
			if (!observe_raw(T(24), T(24), nullptr)) return false;
			for (int i = 0; i < NS; i++) if (obs[i]) return fail(T(24), "after a failed mount sector %u reads %s", secs[i], cname(obs[i]).c_str()); }
		E.mounting = true; ok = in_api([&] { rc = sh_map_resume(E.map(), &err); }); E.mounting = false;
		if (!ok || rc != rc0 || E.mount_muts) return fail(T(6) | T(24), "mounting again after a mount with an unreadable page gives %d instead of %d", rc, rc0);
		if (!observe_raw(T(6) | T(24), T(6) | T(24), nullptr)) return false;
		if (!same(obs, o0) || sh_map_size(E.map()) != sz || sh_map_capacity(E.map()) != cap) return fail(T(6) | T(24), "mounting again after a mount with an unreadable page shows a different map"); }
	memcpy(obs, o0, sizeof o0); E.load(keep); return true; }

// power is lost now (RAM gone); in-flight diff (s,v) may have taken effect
static bool reboot(bool has_inflight, u8 fs, u16 fv, bool mid_op, bool clean = false) {
	Model *m = M(); int rc = 0, err = 0; E.touched = 0; const u64 t6 = clean ? T(6) : 0;
	if (want_c6) keep_ram();
	E.power_off(0xA5);
	if (mid_op) m->X = 1;
	if (!mount_once(&rc, &err)) return false;
	bool crashed = mid_op || m->X; (void)crashed;
	u64 t = m->F ? T(9) : 0;
	u64 t3 = t | (m->F ? 0 : T(3)), t4 = t | (m->F ? 0 : T(4)), t5 = t | (m->F ? 0 : T(5));
	if (rc < 0 && m->ever) {
		if (known_lookup()) return false;
		bool nonempty = count_of(m->base) > 0;
		return fail(t5 | T(6) | (nonempty ? t3 | t4 : 0), "mount of a previously synced map failed (error %d)", err); }
	u32 touched_mount = E.touched;
	if (!observe_raw(T(2) | t4 | t6, t4 | t6, nullptr)) return false;
	E.touched |= touched_mount;
	if (obs_err) {
		if (known_lookup()) return false;
		return fail(t3 | t4 | t5 | t6, "after power loss and mount, sector %u cannot be read (error %d)", obs_errsec, obs_errcode); }
	// legal states: every prefix since the floor, plus the interrupted operation
	u16 v[MS]; memcpy(v, m->base, sizeof v); bool okst = same(v, obs);
	for (int i = 0; i < m->nd && !okst; i++) { apply(v, m->ds[i], m->dv[i]); okst = same(v, obs); }
	if (!okst) { memcpy(v, m->cur, sizeof v); if (has_inflight) { apply(v, fs, fv); okst = same(v, obs); } }
	if (!okst) {
		if (known_lookup()) return false;
		// does any single sector hold something outside its own legal values? then synced data was lost or altered
		for (int s = 0; s < NS; s++) {
			bool ok1 = obs[s] == m->base[s];
			for (int i = 0; i < m->nd && !ok1; i++) ok1 = m->ds[i] == D_CLEAR ? obs[s] == 0 : (m->ds[i] == s && m->dv[i] == obs[s]);
			if (!ok1 && has_inflight) ok1 = fs == D_CLEAR ? obs[s] == 0 : (fs == s && fv == obs[s]);
			if (!ok1) return fail(t3 | t4 | t6, "after power loss sector %u reads %s; last synced was %s and no later operation gives that", secs[s], cname(obs[s]).c_str(), cname(m->base[s]).c_str()); }
		return fail(t4 | t6, "after power loss the sectors show a mixture of different points in history"); }
	memcpy(m->cur, obs, sizeof(u16) * NS); set_floor();
	u32 sz = sh_map_size(E.map());
	if (sz != (u32)count_of(obs) && known_lookup()) return false;
	if (sz != (u32)count_of(obs)) return fail(T(2) | t4 | t6, "after mount map size is %u, %d sectors are mapped", sz, count_of(obs));
	if (rc == 0) m->ever = 1;
	if (want_c6 && !remount_same(rc)) return false;
	if (want_rdmount && !mid_op && m->ever && !mount_read_faults(rc)) return false;
	return true; }

// ---------------------------------------------------------------- one operation
struct Outcome { bool ok, crashed; std::vector<u8> muts; std::vector<u32> mutseq, rdseq; u32 nreads, calls, devseq; };
static u16 next_ver(int i) { Model *m = M(); u8 v = m->last[i] + 1; if (v >= 250) v = 1; m->last[i] = v; return (u16)((i + 1) << 8 | v); }

static bool c11_check() {
	Model *m = M(); if (!want_c11 || m->X) return true;
	int lo = 1 << 30, hi = 0;
	for (unsigned b = 0; b < E.c.nb; b++) if (!(E.flags()[b] & (BF_MARKED | BF_FAILED))) { lo = std::min<int>(lo, E.wear()[b]); hi = std::max<int>(hi, E.wear()[b]); }
	if (hi > lo + 1) return fail(T(11), "erase counts of good blocks range from %d to %d", lo, hi);
	return true; }
// independent reader of the documented on-flash layout
static bool want_c22 = false;
static u32 rd32(const u8 *p) { return p[0] | p[1] << 8 | p[2] << 16 | (u32)p[3] << 24; }
static const u8 *ck_at(u32 page) { u32 id = E.chip()[page]; if (id & TORN) return nullptr; const u8 *d = E.pool.at(id); return d[0] == 'D' && d[1] == 'h' && d[2] == 'a' ? d : nullptr; }
static bool decode_tree(u32 page, int depth, u32 prefix, u32 tail, u32 root, std::map<u32, u32> &out) {
	if (page >= E.np || E.flags()[page >> E.c.lb] & BF_FACTORY || (page & (E.ppc - 1)) == (u32)E.ppc - 1) return fail(T(22), "decoder: pointer to page %u, which is no user page", page);
	bool inside = tail <= root ? page >= tail && page <= root : page >= tail || page <= root;
	if (!inside) return fail(T(22), "decoder: page %u is in use but lies outside tail %u .. root %u", page, tail, root);
	const u8 *c = ck_at(page | (E.ppc - 1)); if (!c) return fail(T(22), "decoder: no checkpoint for page %u", page);
	const u8 *m = c + 20 + 132 * (page & (E.ppc - 1)); u32 id = rd32(m);
	if (depth && (id ^ prefix) >> (32 - depth)) return fail(T(22), "decoder: page %u holds sector %x, which does not belong below its pointer", page, id);
	if (out.count(id)) return fail(T(22), "decoder: sector %x is found twice", id);
	out[id] = page;
	for (int d = depth; d < 32; d++) { u32 a = rd32(m + 4 + 4 * d); if (a != 0xffffffff && !decode_tree(a, d + 1, id ^ (0x80000000u >> d), tail, root, out)) return false; }
	return true; }
static bool decode_chip() {
	Model *m = M(); u32 newest = 0xffffffff; int ep = -1;
	for (u32 b = 0; b < E.c.nb; b++) { if (E.flags()[b] & BF_MARKED) continue;
		for (u32 k = E.ppc - 1; k < E.ppb; k += E.ppc) { const u8 *d = ck_at((b << E.c.lb) + k); if (!d) continue; if (ep < 0) ep = d[3]; if (d[3] == ep) newest = (b << E.c.lb) + k; } }
	if (ep < 0) return fail(T(22), "decoder: no checkpoint on the chip although the journal is clean");
	const u8 *c = ck_at(newest); u32 tail = rd32(c + 4), bbc = rd32(c + 8), bbl = rd32(c + 12), count = rd32(c + 16), root = newest - 1;
	std::map<u32, u32> t; const u8 *rm = c + 20 + 132 * (E.ppc - 2);
	if (sh_j_root(sh_map_journal(E.map())) != root) return fail(T(22), "decoder: the newest committed page is %u, the library has %u", root, sh_j_root(sh_map_journal(E.map())));
	if (count != (u32)count_of(m->cur)) return fail(T(22), "decoder: the cookie counts %u sectors, %d are mapped", count, count_of(m->cur));
	if (tail >= E.np) return fail(T(22), "decoder: tail %u is not on the chip", tail);
	if (!m->X && !m->F) { u32 cur = 0, all = 0; for (u32 b = 0; b < E.c.nb; b++) if (E.flags()[b] & BF_MARKED) { all++; cur += b < (newest >> E.c.lb); }
		if (bbc != cur) return fail(T(22), "decoder: the checkpoint in block %u counts %u bad blocks so far, there are %u", newest >> E.c.lb, bbc, cur);
		if (bbl != (ep ? all : E.c.nb >> 6)) return fail(T(22), "decoder: the checkpoint of epoch %d counts %u bad blocks in the previous lap", ep, bbl); }
	if (rd32(rm) != 0xffffffff && !decode_tree(root, 0, 0, tail, root, t)) return false;
	for (int i = 0; i < NS; i++) { auto f = t.find(secs[i]); u16 v = 0; if (f != t.end()) { u32 id = E.chip()[f->second]; v = id & TORN ? (u16)V_ERR : decode(E.pool.at(id)); }
		if (v != m->cur[i]) return fail(T(22), "decoder: sector %x holds %s on flash, expected %s", secs[i], cname(v).c_str(), cname(m->cur[i]).c_str()); }
	if (t.size() != (size_t)count_of(m->cur)) return fail(T(22), "decoder: %zu sectors on flash, %d expected", t.size(), count_of(m->cur));
	return true; }
static bool c8_check_sync() {
	for (unsigned b = 0; b < E.c.nb; b++) if ((E.flags()[b] & BF_REPORTED) && !(E.flags()[b] & BF_MARKED))
		return fail(T(8), "block %u reported a failure but is not marked bad after a successful sync", b);
	return true; }

static int clog2(u32 x) { int k = 0; while ((1u << k) < x) k++; return k; }
// documented bounds on flash work, with a factor of two in hand
static u32 work_bound(char k, u32 jsize) {
	const u32 look = 33, app = 12, gc1 = 8 + 1 + look + app, g = std::max(1, E.c.gc) + 1;
	switch (k) {
	case 'W': case 'F': case 'M': return 2 * (g * gc1 + look + app);
	case 'P': return 2 * (g * gc1 + 2 * look + app);
	case 'Y': return 2 * (g * gc1 + 3 * look + app);
	case 'T': return 2 * (g * gc1 + look + 1 + app);
	case 'G': return 2 * gc1;
	case 'S': return 2 * gc1 * (jsize + 2 * E.ppc + 2);
	default: return 0; } }
static u32 mount_bound() {
	const u32 steps = clog2(E.c.nb) + 2, groups = E.ppb / E.ppc;
	return 2 * (32 * steps + 16 + 2 * E.ppc * (clog2(groups) + 1) + groups + E.ppb + 8); }
static u32 found_loc;
static int exec_api(const Op &op, u16 val, int *err) {
	switch (op.k) {
	case 'W': case 'F': case 'M': memcpy(user_data, data_of(val), E.psz); return sh_map_write(E.map(), secs[op.a], user_data, err);
	case 'T': return sh_map_trim(E.map(), secs[op.a], err);
	case 'Y': return sh_map_copy_sector(E.map(), secs[op.a], secs[op.b], err);
	case 'P': { u32 loc; int e2; if (sh_map_find(E.map(), secs[op.a], &loc, &e2) < 0) { *err = e2; return -1; } return sh_map_copy_page(E.map(), loc, secs[op.b], err); }
	case 'V': memset(user_data, 0x5a, E.psz); return sh_map_read(E.map(), secs[op.a], user_data, err);
	case 'N': return sh_map_find(E.map(), secs[op.a], op.b ? nullptr : &found_loc, err);
	case 'S': return sh_map_sync(E.map(), err);
	case 'G': return sh_map_gc(E.map(), err);
	case 'C': sh_map_clear(E.map()); *err = 0; return 0; }
	abort(); }

static volatile u64 op_counter = 0;
static Op running_op;
static std::vector<u8> null_snap;

// runs op with plan on the live state and checks everything that can be checked right away
static Outcome run_op(const Op &op, const Plan &plan) {
	Outcome o; o.ok = false; o.crashed = false; pruned = false; o.nreads = o.calls = o.devseq = 0;
	Model *m = M(); op_counter++; running_op = op;
	path.push_back({op, plan});
	st.execs++;
	E.log("  %s%s\n", opstr(op).c_str(), plan.empty() ? "" : " (with deviations)");
	if (op.k == 'R' || op.k == 'Q') {
		if (op.k == 'Q') { path.pop_back(); Outcome q = run_op(Op{'S', 0, 0}, plan); path.push_back({op, plan}); if (!q.ok || q.crashed) { q.ok = q.ok && !q.crashed; return q; } }
		u32 cap = sh_map_capacity(E.map()); bool clean = op.k == 'Q'; u16 before[MS]; memcpy(before, m->cur, sizeof before); bool ever = m->ever;
		if (!reboot(false, 0, 0, op.k == 'R', clean)) return o;
		if (clean) { u64 t = ctx_tags(T(6)) | T(6);
			if (!same(before, m->cur)) { fail(t | T(3), "remount after sync changed the contents"); return o; }
			if (ever && sh_map_capacity(E.map()) != cap) { fail(T(6), "remount after sync changed the capacity from %u to %u", cap, sh_map_capacity(E.map())); return o; } }
		o.ok = true; return o; }

	if (op.k == 'P' && !m->cur[op.a]) { o.ok = true; return o; }
	int dst = -1; u16 val = 0; bool has = false; u8 fs = 0; u16 fv = 0;
	switch (op.k) {
	case 'W': val = next_ver(op.a); dst = op.a; break; case 'F': val = V_FFDATA; dst = op.a; break; case 'M': val = V_MIMIC; dst = op.a; break;
	case 'T': dst = op.a; val = 0; break; case 'Y': case 'P': dst = op.b; val = m->cur[op.a]; break; }
	if (dst >= 0) { has = true; fs = dst; fv = val; }
	if (op.k == 'C') { has = true; fs = D_CLEAR; fv = 0; }
	const bool adds = dst >= 0 && val && !m->cur[dst];
	const u32 cap0 = sh_map_capacity(E.map()), jsize0 = sh_j_size(sh_map_journal(E.map())), size0 = sh_map_size(E.map());
	int err = ERR_UNSET, rc = 0;
	u64 ectx = 0; for (auto &d : plan) { if (d.alt == RD_ONCE || d.alt == RD_PERSIST) ectx = 1; }
	if (want_null || want_stack) { E.save(null_snap); }
	int rc0 = 0; bool null_crash = false;
	if (want_null) {
		sh_null_err = 1; E.begin(plan); volatile int r0 = 99; if (!sigsetjmp(E.jb, 0)) { int e0; r0 = exec_api(op, val, &e0); } E.end(); sh_null_err = 0;
		rc0 = r0; null_crash = E.crashed || E.hang; E.save(st_post); E.load(null_snap); }
	if (want_stack) {
		E.begin(plan); int e1 = 0, r1 = 0; if (!sigsetjmp(E.jb, 0)) { paint(0x00); r1 = exec_api(op, val, &e1); } E.end();
		E.save(st_post); E.load(null_snap); rc = r1; err = e1; }
	E.touched = 0;
	const int rc1 = rc, err1 = err; rc = 0; err = ERR_UNSET;
	E.begin(plan);
	if (!sigsetjmp(E.jb, 0)) { if (want_stack) paint(0xff); rc = exec_api(op, val, &err); }
	E.end();
	if (want_stack) { E.save(st_now); if (memcmp(st_now.data() + E.o_map, st_post.data() + E.o_map, E.o_model - E.o_map) || (!E.crashed && !E.hang && (rc1 != rc || (rc < 0 && err1 != err)))) { fail(T(25), "%s depends on uninitialised memory", opstr(op).c_str()); return o; } }
	if (want_null && op.k != 'C') { E.save(st_now); const bool cr = E.crashed || E.hang;
		if (cr != null_crash || (!cr && rc != rc0) || memcmp(st_now.data() + E.o_map, st_post.data() + E.o_map, E.o_model - E.o_map)) { fail(T(27), "%s behaves differently with a null error pointer", opstr(op).c_str()); return o; } }
	o.muts = E.muts; o.mutseq = E.mutseq; o.rdseq = E.rdseq; o.devseq = E.devseq; o.nreads = E.rdn; o.calls = E.calls; st.maxcalls = std::max<u64>(st.maxcalls, E.calls);
	if (E.devs_hit < plan.size()) { pruned = true; fail(T(25), "execution is not deterministic (a recorded choice point did not recur)"); return o; }
	bool failhit = E.failhit; if (failhit) { m->F = 1; st.faults++; }
	if (E.hang) { fail(ctx_tags(T(1) | T(12)) | T(16), "%s does not terminate", opstr(op).c_str()); return o; }
	if (!contract_ok()) return o;
	if (E.crashed) { st.crashes++; o.crashed = true;
		if (!reboot(has, fs, fv, true)) return o;
		o.ok = true; return o; }
	if (want_c16 && plan.empty() && !m->F && !m->X && E.calls > work_bound(op.k, jsize0)) { fail(T(16), "%s took %u flash calls (bound %u)", opstr(op).c_str(), E.calls, work_bound(op.k, jsize0)); return o; }
	E.log("     -> rc=%d err=%d size=%u clean=%d\n", rc, err, sh_map_size(E.map()), sh_j_is_clean(sh_map_journal(E.map())));
	u64 plain = T(1) | (op.k == 'G' ? T(13) : 0);
	const u32 cap1 = sh_map_capacity(E.map());
	if (rc < 0 && (err < 1 || err > 8)) { fail(T(27) | (ectx ? T(15) : 0), "%s failed without a documented error code (%d)", opstr(op).c_str(), err); return o; }
	if (ectx) { m->E = 1; st.rdfaults++; }
	struct Heal { ~Heal() { E.heal(); } } heal;
	if (rc < 0) {
		if (ectx && E.readhit) {
			if (err != E_ECC) { fail(T(15), "%s met an uncorrectable read but reports error %d", opstr(op).c_str(), err); return o; }
			// the target may have been done or not; nothing else may change
			u16 alt[MS]; memcpy(alt, m->cur, sizeof alt); if (has) apply(alt, fs, fv);
			bool isnew = false; const u32 szo = count_of(m->cur), szn = count_of(alt);
			for (int again = 0; again < 2; again++) {       // while the error persists, and after it has gone
				E.touched = 0; if (!observe_raw(T(14) | T(15), T(14) | T(15), nullptr)) return o;
				bool old1 = true, new1 = true;
				for (int i = 0; i < NS; i++) {
					if (obs[i] == V_ERR) { if (again || !(obs_touch[i] & 4)) { fail(T(14) | T(15), "after a failed %s sector %u cannot be read", opstr(op).c_str(), secs[i]); return o; } continue; }
					if (obs[i] != m->cur[i] && obs[i] != alt[i]) { fail(T(14) | T(15), "after a failed %s sector %u reads %s instead of %s", opstr(op).c_str(), secs[i], cname(obs[i]).c_str(), cname(m->cur[i]).c_str()); return o; }
					old1 &= obs[i] == m->cur[i]; new1 &= obs[i] == alt[i]; }
				const u32 sz = sh_map_size(E.map());
				if (!((old1 && sz == szo) || (new1 && sz == szn))) { fail(T(14) | T(2), "after a failed %s the map size is %u, %d sectors are mapped", opstr(op).c_str(), sz, old1 ? szo : szn); return o; }
				isnew = !old1 || (new1 && sz == szn && szn != szo); E.heal(); }
			if (isnew) push_diff(fs, fv);
			o.ok = true; return o; }
		if (err == E_MAP_FULL && adds) {
			st.mfull++;
			if (size0 < cap0 && size0 < cap1) { fail(T(12) | ctx_tags(T(12)), "%s refused with map-full at size %u, capacity %u", opstr(op).c_str(), size0, std::min(cap0, cap1)); return o; }
			E.heal();
			if (!observe(T(14) | T(1))) return o;
			if (sh_j_is_clean(sh_map_journal(E.map())) && !sh_j_in_recovery(sh_map_journal(E.map()))) set_floor();
			o.ok = true; return o; }
		if (op.k == 'N' && err == E_NOT_FOUND && !m->cur[op.a]) { if (!contract_ok()) return o; o.ok = true; return o; }
		if (known_op(err) || known_lookup()) return o;
		u64 t = ctx_tags(plain | ((err == E_JOURNAL_FULL || err == E_MAP_FULL || err == E_TOO_BAD) ? T(12) : T(2)));
		if (err == E_JOURNAL_FULL || err == E_MAP_FULL) t |= m->F || m->X ? 0 : T(12);
		fail(t, "%s failed with error %d (size %u, capacity %u)", opstr(op).c_str(), err, size0, cap0); return o; }
	if (rc != 0) { fail(T(27), "%s returned %d", opstr(op).c_str(), rc); return o; }
	if (adds && size0 >= cap0 && size0 >= cap1 && !ectx) { fail(T(12), "%s accepted at size %u although the capacity is %u", opstr(op).c_str(), size0, cap0); return o; }
	// success: update the model
	if (has) {
		bool noop = op.k == 'C' ? count_of(m->cur) == 0 : (op.k == 'T' || (op.k == 'Y' && !val)) && !m->cur[fs];
		if (!noop && !push_diff(fs, fv)) { if (getenv("MC_PRUNE")) fprintf(stderr, "PRUNE too many unsynced changes: %s %d\n", E.c.name.c_str(), cur_wl); pruned = true; st.pruned++; return o; } }
	if (op.k == 'V' || op.k == 'N') {
		u16 v = op.k == 'V' ? decode(user_data) : m->cur[op.a];
		if (op.k == 'V' && v == V_FFDATA && !m->cur[op.a]) v = 0;
		if (op.k == 'N' && !op.b) v = found_loc >= E.np ? (u16)V_UNKNOWN : decode(E.pool.at(E.chip()[found_loc]));
		if (v != m->cur[op.a] || (op.k == 'N' && !v)) { fail(plain | (ectx ? T(15) : 0) | T(2), "%s gives %s, the sector holds %s", opstr(op).c_str(), cname(v).c_str(), cname(m->cur[op.a]).c_str()); return o; } }
	if ((op.k == 'V' || op.k == 'N') && !o.muts.empty()) { fail(plain | (ectx ? T(15) : 0), "%s writes to flash", opstr(op).c_str()); return o; }
	void *j = sh_map_journal(E.map());
	if (op.k == 'S') {
		set_floor(); if (!c8_check_sync()) return o;
		if (!sh_j_is_clean(j)) { fail(T(3) | ctx_tags(T(3)), "sync succeeded but the journal is not clean"); return o; } }
	else if (sh_j_is_clean(j)) set_floor();
	if (sh_j_is_clean(j) && E.n_prog) m->ever = 1;
	if (m->nd == 0 && (op.k == 'S') && E.n_prog) m->ever = 1;
	if (!c11_check()) return o;
	if (want_c22 && sh_j_is_clean(j) && m->ever && !decode_chip()) return o;
	if (ectx) {
		E.touched = 0;
		if (!observe_raw(T(15), T(15), nullptr)) return o;
		for (int i = 0; i < NS; i++) if (obs[i] != m->cur[i] && !(obs[i] == V_ERR && (obs_touch[i] & 4))) { fail(T(15), "%s succeeded across an uncorrectable read, but sector %u reads %s instead of %s", opstr(op).c_str(), secs[i], cname(obs[i]).c_str(), cname(m->cur[i]).c_str()); return o; }
		u32 sz = sh_map_size(E.map()); if (sz != (u32)count_of(m->cur)) { fail(T(15) | T(2), "size is %u, %d sectors are mapped", sz, count_of(m->cur)); return o; }
		o.ok = true; return o; }
	if (!want_c11 && !observe(plain)) return o;
	o.ok = true;
	return o; }

// ---------------------------------------------------------------- modes
struct Mode {
	std::vector<int> cfgs; int depth = 3; int alts = 0;   // bit per Alt
	int ndev = 0;            // max deviations along a path
	int nested = 1;          // max deviations inside one operation
	int post_depth = 0;      // further operations explored after a crash
	std::string epi;         // epilogue kinds: s=sync+check, m=mount, l=lap of writes, g=gc runs
	int stride = 1;          // start states taken
	std::string ops;         // operation kinds in the alphabet
	std::vector<int> wls;
	int maxmut = 1 << 30;
};
static Mode mode;

struct Visited { std::vector<u64> t; u64 mask; size_t n; Visited() { clear(); }
	void clear() { t.assign(1 << 12, 0); mask = (1 << 12) - 1; n = 0; }
	bool insert(u64 h) { if (!h) h = 1; if (n * 2 > mask) { std::vector<u64> o; o.swap(t); t.assign((mask + 1) * 2, 0); mask = mask * 2 + 1; for (u64 x : o) if (x) { u64 i = x & mask; while (t[i]) i = (i + 1) & mask; t[i] = x; } }
		u64 i = h & mask; while (t[i]) { if (t[i] == h) return false; i = (i + 1) & mask; } t[i] = h; n++; return true; } };
static Visited vis;
static bool fresh_state(u64 salt) { u64 h = Pool::mix(E.hash() ^ salt * 0x9E3779B97F4A7C15ull, 0xD6E8FEB86659FD93ull); bool f = vis.insert(h); if (f) st.states++; return f; }

static Ops alphabet;
static void build_alphabet() {
	alphabet.clear();
	if (wide_alphabet) NA = std::min(8, NS);
	for (char k : mode.ops) switch (k) {
		case 'W': for (int i = 0; i < NA; i++) alphabet.push_back({'W', (u8)i, 0}); break;
		case 'w': alphabet.push_back({'W', 0, 0}); alphabet.push_back({'W', (u8)(NA - 1), 0}); break;
		case 'T': for (int i = 0; i < NA; i++) alphabet.push_back({'T', (u8)i, 0}); break;
		case 't': alphabet.push_back({'T', 0, 0}); break;
		case 'Y': if (wide_alphabet) { for (int i = 0; i < NA; i++) alphabet.push_back({'Y', (u8)i, (u8)((i + 1) % NA)}); break; } alphabet.push_back({'Y', 0, 1}); alphabet.push_back({'Y', (u8)(NA - 1), 0}); break;
		case 'y': alphabet.push_back({'Y', 0, 1}); break;
		case 'P': if (E.c.gc < 64) alphabet.push_back({'P', 1, 0}); break;
		case 'V': alphabet.push_back({'V', 0, 0}); alphabet.push_back({'V', (u8)(NA - 1), 0}); alphabet.push_back({'V', (u8)(NS - 1), 0}); break;
		case 'N': for (int q = 0; q < 2; q++) { alphabet.push_back({'N', 0, (u8)q}); alphabet.push_back({'N', (u8)(NS - 1), (u8)q}); } break;
		case 'F': alphabet.push_back({'F', 1, 0}); break;
		case 'M': alphabet.push_back({'M', 1, 0}); break;
		default: alphabet.push_back({k, 0, 0}); } }

static double deadline = 1e18; static bool out_of_time = false;
static double now();
static bool late() { static unsigned k; if (!out_of_time && !(++k & 63) && now() > deadline) out_of_time = true; return out_of_time; }
static void path_trunc(size_t n) { path.resize(n); }

static bool epi_run(const Op &op) { Outcome o = run_op(op, Plan()); return o.ok && !stop_all; }

static void note_sample();
// deterministic continuation from a leaf / post-crash state
static void epilogue() {
	st.leaves++; note_sample();
	size_t n0 = path.size(); std::vector<u8> s; bool saved = false;
	for (char k : mode.epi) {
		if (stop_all) return;
		if (!saved) { E.save(s); saved = true; } else E.load(s);
		path_trunc(n0);
		switch (k) {
		case 's': if (!epi_run({'S', 0, 0})) break; epi_run({'Q', 0, 0}); break;
		case 'w': if (!epi_run({'W', 1, 0})) break; if (!epi_run({'S', 0, 0})) break; epi_run({'Q', 0, 0}); break;
		case 'c': if (!epi_run({'W', 1, 0})) break; if (!epi_run({'W', 0, 0})) break; if (!epi_run({'S', 0, 0})) break; if (!epi_run({'R', 0, 0})) break; if (!epi_run({'W', 1, 0})) break; epi_run({'S', 0, 0}); break;
		case 'r': epi_run({'R', 0, 0}); break;
		case 'x': { // repeat the last operation (after a failure whose cause has gone), sync, remount
			if (!n0) break; Op last = path.back().op; if (last.k == 'R' || last.k == 'Q') break;
			if (!epi_run(last)) break; if (!epi_run({'S', 0, 0})) break; epi_run({'Q', 0, 0}); break; }
		case 'l': { // more than one lap of writes, then sync and remount
			Model *m = M(); bool ok = true; int mapped = count_of(m->cur); (void)mapped;
			for (unsigned i = 0; i < E.np + E.np / 4 && ok; i++) {
				int a = i % NA; if (!M()->cur[a] && sh_map_size(E.map()) >= sh_map_capacity(E.map())) { int q = -1; for (int z = 0; z < NS; z++) if (M()->cur[z]) q = z; if (q < 0) break; a = q; }
				ok = epi_run({'W', (u8)a, 0}); if (ok && i % 40 == 39) ok = epi_run({'S', 0, 0}); path_trunc(n0); path.push_back({{'L', 0, 0}, Plan()}); }
			if (ok) { ok = epi_run({'S', 0, 0}); } if (ok) epi_run({'Q', 0, 0});
			break; }
		case 'g': { // garbage collection until a full cycle, usage must fall
			bool ok = true; if (!M()->X && !M()->F && !count_of(M()->cur)) break;
			unsigned rounds = E.np + 4;
			for (unsigned i = 0; i < rounds && ok; i++) { ok = epi_run({'G', 0, 0}); path_trunc(n0); path.push_back({{'g', 0, 0}, Plan()}); }
			if (ok) ok = epi_run({'S', 0, 0});
			if (ok && count_of(M()->cur)) {
				u32 js = sh_j_size(sh_map_journal(E.map())); int live = count_of(M()->cur); int nbad = 0; for (unsigned b = 0; b < E.c.nb; b++) nbad += !!(E.flags()[b] & BF_MARKED);
				u32 bound = live + 2 * E.ppc + nbad * E.ppb;
				if (js > bound) fail(T(13), "after %u gc calls and a sync the journal still uses %u pages for %d live sectors", rounds, js, live); }
			break; }
		}
		if (stop_all) return; }
	if (saved) E.load(s); path_trunc(n0); }

static void dfs(int depth, int dev, int post);
static void after(int depth, int dev, int post, bool crashed) {
	int nd = crashed ? mode.post_depth : depth - 1; int npost = crashed ? 1 : post;
	if (!fresh_state((u64)nd * 64 + dev * 2 + npost)) return;
	if (nd <= 0 || crashed) { std::vector<u8> s; E.save(s); epilogue(); if (stop_all) return; E.load(s); }
	if (nd > 0) dfs(nd, dev, npost); }

static void step_dev(const std::vector<u8> &s, const Op &op, const Plan &plan, int depth, int dev, int post) {
	if (stop_all || late()) return;
	size_t n0 = path.size();
	Outcome o = run_op(op, plan); st.trans++;
	if (stop_all) return;
	if (o.ok) after(depth, dev, post, o.crashed);
	if (stop_all) return;
	path_trunc(n0);
	if (dev <= 0 || (int)plan.size() >= mode.nested) return;
	bool hascrash = false; for (auto &d : plan) if (d.alt >= CRASH_BEFORE && d.alt <= CRASH_HALF) hascrash = true;
	if (hascrash) return;
	for (u32 i = 0; i < o.muts.size() && (int)i < mode.maxmut; i++) {
		if (o.mutseq[i] <= o.devseq) continue;         // deviations are placed in the order in which they strike
		int a[8], na = 0; u8 t = o.muts[i];
		if (t == PT_PROG || t == PT_COPY) { a[na++] = CRASH_BEFORE; a[na++] = CRASH_TORN; a[na++] = FAIL_ECC; a[na++] = FAIL_FF; a[na++] = FAIL_GOOD; }
		else if (t == PT_ERASE) { a[na++] = CRASH_BEFORE; a[na++] = CRASH_TORN; a[na++] = CRASH_HALF; a[na++] = FAIL_ECC; a[na++] = FAIL_OLD; }
		else a[na++] = CRASH_BEFORE;
		for (int k = 0; k < na; k++) if (mode.alts >> a[k] & 1) {
			E.load(s); Plan p = plan; p.push_back({i, (u8)a[k], 0});
			step_dev(s, op, p, depth, dev - 1, post); if (stop_all) return; path_trunc(n0); } }
	for (u32 i = 0; i < o.nreads; i++) if (o.rdseq[i] > o.devseq) for (int alt : {RD_ONCE, RD_PERSIST}) if (mode.alts >> alt & 1) {
		E.load(s); Plan p = plan; p.push_back({i, (u8)alt, 1});
		step_dev(s, op, p, alt == RD_PERSIST ? 1 : depth, dev - 1, post); if (stop_all) return; path_trunc(n0); } }

static void dfs(int depth, int dev, int post) {
	std::vector<u8> s; E.save(s);
	for (auto &op : alphabet) {
		E.load(s);
		step_dev(s, op, Plan(), depth, dev, post);
		if (stop_all) return; } }

// ---------------------------------------------------------------- workloads
static Ops workload(int wl) {
	Ops o; unsigned per_lap = E.np; int cap = 0; cap = (int)sh_map_capacity(E.map());
	int n = std::min(NS, std::max(1, cap)); unsigned x = 12345; auto rnd = [&](unsigned k) { x = x * 1103515245u + 12345u; return (x >> 16) % k; };
	switch (wl) {
	case 0: // mixed churn below capacity
		for (unsigned i = 0; i < 2 * per_lap; i++) { int s = rnd(std::max(2, n - 1)); unsigned r = rnd(12);
			if (r < 8) o.push_back({'W', (u8)s, 0}); else if (r < 10) o.push_back({'T', (u8)s, 0}); else if (r < 11) o.push_back({'S', 0, 0}); else o.push_back({'G', 0, 0}); }
		break;
	case 1: // fill to capacity, then overwrite in order
		for (int i = 0; i < n; i++) o.push_back({'W', (u8)i, 0});
		for (unsigned i = 0; i < 2 * per_lap; i++) { o.push_back({'W', (u8)(i % n), 0}); if (i % 7 == 6) o.push_back({'S', 0, 0}); }
		break;
	case 2: // one sector, sync after every write
		for (unsigned i = 0; i < per_lap; i++) { o.push_back({'W', (u8)(i % 3), 0}); o.push_back({'S', 0, 0}); }
		break;
	case 3: // at capacity, long unsynced stretches, trims
		for (int i = 0; i < n; i++) o.push_back({'W', (u8)i, 0});
		for (unsigned i = 0; i < per_lap; i++) { o.push_back({'W', (u8)rnd(n), 0}); if (i % 5 == 4) { int s = rnd(n); o.push_back({'T', (u8)s, 0}); o.push_back({'W', (u8)s, 0}); } }
		break;
	case 4: // everything deleted / cleared now and then
		for (unsigned i = 0; i < per_lap; i++) { o.push_back({'W', (u8)(i % 3), 0}); if (i % 9 == 5) o.push_back({'C', 0, 0}); if (i % 9 == 8) { for (int k = 0; k < 3; k++) o.push_back({'T', (u8)k, 0}); } if (i % 5 == 3) o.push_back({'S', 0, 0}); }
		break;
	case 5: // explicit gc between writes, half full
		for (unsigned i = 0; i < per_lap; i++) { o.push_back({'W', (u8)rnd(std::max(2, n / 2)), 0}); for (unsigned k = rnd(3); k; k--) o.push_back({'G', 0, 0}); if (i % 6 == 5) o.push_back({'S', 0, 0}); }
		break;
	case 6: // one hot sector at capacity
		for (int i = 0; i < n; i++) o.push_back({'W', (u8)i, 0});
		for (unsigned i = 0; i < per_lap * 2; i++) { o.push_back({'W', 0, 0}); if (i % 120 == 119) o.push_back({'S', 0, 0}); }
		break;
	case 7: // pages full of 0xff, alone and mixed with others
		for (unsigned i = 0; i < per_lap; i++) { unsigned ph = i / (2 * E.ppb) % 3; char k = ph == 0 || (ph == 1 && i % 2) ? 'F' : 'W'; if (n > 3 && i % 11 == 10) k = 'M'; o.push_back({k, (u8)(ph == 0 ? 1 : rnd(std::min(n, 3))), 0}); if (i % 6 == 5) o.push_back({'S', 0, 0}); if (i % 13 == 12) o.push_back({'G', 0, 0}); }
		break;
	case 8: // at capacity and just about to collect, then everything trimmed without a sync; again
		for (int r = 0; r < 3; r++) {
			for (int i = 0; i < n; i++) o.push_back({'W', (u8)i, 0});
			for (unsigned i = 0; i < per_lap / 3; i++) o.push_back({'W', (u8)rnd(n), 0});
			for (int i = 0; i < n; i++) o.push_back({'T', (u8)(r == 1 ? n - 1 - i : i), 0});
			if (r == 1) o.push_back({'S', 0, 0}); }
		break; }
	return o; }

// ---------------------------------------------------------------- configurations
static std::vector<Config> cfgs;
static void add_cfg(const char *n, int lp, int lb, unsigned nb, int gc, bool imp = false, std::vector<unsigned> bad = {}, bool dirty = false) {
	Config c; c.name = n; c.lp = lp; c.lb = lb; c.nb = nb; c.gc = gc; c.imprecise = imp; c.bad = bad; c.dirty = dirty; cfgs.push_back(c); }
static int cfg(const char *n) { for (size_t i = 0; i < cfgs.size(); i++) if (cfgs[i].name == n) return i; fprintf(stderr, "no config %s\n", n); exit(2); }
static void make_cfgs() {
	add_cfg("p512b4", 9, 2, 17, 4);
	add_cfg("p512b8", 9, 3, 16, 4);
	add_cfg("p512b8x3", 9, 3, 19, 4, false, {0, 5, 18}, true);
	add_cfg("p256b4", 8, 2, 24, 4);
	add_cfg("p256b2", 8, 1, 26, 4);
	add_cfg("p256b2gc255", 8, 1, 21, 255);
	add_cfg("p512b4gc1", 9, 2, 26, 1);
	add_cfg("p512b4imp", 9, 2, 17, 4, true);
	add_cfg("p512b4bad", 9, 2, 21, 4, false, {0, 1, 9, 20}, true);
	add_cfg("p1kb8", 10, 3, 13, 4);
	add_cfg("p2kb16", 11, 4, 12, 4);
	add_cfg("p512b4dirty", 9, 2, 18, 3, false, {}, true);
	add_cfg("p512b16", 9, 4, 15, 4);
	add_cfg("p512b4gc0", 9, 2, 26, 0);
	add_cfg("p512b4roomy", 9, 2, 40, 4);
	add_cfg("p4kb32", 12, 5, 14, 4);
	add_cfg("p8kb64", 13, 6, 14, 4); cfgs.back().big = true;
	add_cfg("p16kb8", 14, 3, 14, 4); cfgs.back().big = true;
	add_cfg("p512b4gc1x60", 9, 2, 60, 1); cfgs.back().big = true;
	add_cfg("p256b2gc2x150", 8, 1, 150, 2); cfgs.back().big = true;
	add_cfg("p512b4gc1x100", 9, 2, 100, 1); cfgs.back().big = true;
	add_cfg("p256b2gc3x260", 8, 1, 260, 3); cfgs.back().big = true;
	add_cfg("p512b4badx48", 9, 2, 48, 4, false, {0, 4, 8, 12, 13, 20, 21, 22, 28, 33, 40, 41, 45, 47}); cfgs.back().big = true;
	add_cfg("p256b2badx70", 8, 1, 70, 3, false, {1, 2, 3, 4, 15, 16, 20, 22, 24, 26, 28, 30, 40, 45, 50, 51, 52, 60, 66, 69}); cfgs.back().big = true;
	add_cfg("p512b4badfront", 9, 2, 60, 4, false, {0, 1, 2, 3, 4, 5, 6, 8, 9, 10, 11, 12, 13, 14, 16, 17, 18, 19, 20, 21}); cfgs.back().big = true;
	add_cfg("p512b16big", 9, 4, 256, 1); cfgs.back().big = true;
	add_cfg("p256b2big", 8, 1, 1024, 2); cfgs.back().big = true;
}

static void set_sectors(int profile) {
	secs.clear(); ghosts.clear();
	static const u32 p0[] = { 0, 1, 5, 4, 2, 7, 3, 6 };
	static const u32 p1[] = { 0, 0xfffffffe, 0x80000000u, 0x7fffffff, 0x40000000u, 1, 0x00010000u, 0x0000ffffu };
	for (int i = 0; i < 8; i++) secs.push_back(profile == 1 ? p1[i] : p0[i]);
	for (u32 i = 0; secs.size() < MS - 8; i++) secs.push_back(profile == 1 ? 0x12340000u + i * 0x01010101u : 8 + i);
	ghosts = profile == 1 ? std::vector<u32>{2, 0xfffffffdu, 0x80000001u} : std::vector<u32>{1000, 0x80000000u, 0xfffffffeu};
	NA = 3; }

// every error code has its own description, every other integer the generic one
static bool strerror_ok() {
	const char *gen = sh_strerror(0x7fffffff); if (!gen || !*gen) return fail(T(27), "no generic error text");
	std::vector<std::string> own;
	for (int c = 0; c <= 8; c++) { const char *t = sh_strerror(sh_code(c)); if (!t || !*t) return fail(T(27), "error code %d has no description", c);
		for (auto &o : own) if (o == t) return fail(T(27), "two error codes share the description '%s'", t);
		if (!strcmp(t, gen)) return fail(T(27), "error code %d has only the generic description", c);
		own.push_back(t); }
	auto other = [&](int v) { for (int c = 0; c <= 8; c++) if (sh_code(c) == v) return true; const char *t = sh_strerror(v); return (t && !strcmp(t, gen)) || fail(T(27), "value %d, which is no error code, is described as '%s'", v, t ? t : "(null)"); };
	for (int v = -65536; v <= 65536; v++) if (!other(v)) return false;
	for (int k = 0; k < 32; k++) for (int d = -16; d <= 16; d++) if (!other((int)((1u << k) + (u32)d)) || !other((int)(0u - (1u << k) + (u32)d))) return false;
	return true; }

// the capacity never shrinks as the collection ratio grows, and grows where there is room; ratio zero is usable
static bool capacity_ok(u8 *sp, size_t ss) {
	static const unsigned G[][3] = {{9, 2, 26}, {9, 2, 200}, {9, 3, 64}, {10, 2, 100}, {8, 1, 120}, {9, 4, 48}};
	for (auto &g : G) for (int bad = 0; bad < 2; bad++) { Config c = cfgs[0]; c.lp = g[0]; c.lb = g[1]; c.nb = g[2]; c.bad = bad ? std::vector<unsigned>{0, 3, 4} : std::vector<unsigned>{}; c.dirty = c.imprecise = false;
		u32 cap[256];
		for (int r = 0; r < 256; r++) { c.gc = r; int err; E.setup(c, sizeof(Model), sh_map_sizeof(), sp, ss); E.power_off(0xA5);
			sh_map_init(E.map(), E.nand(), E.buf(), r); sh_map_resume(E.map(), &err); cap[r] = sh_map_capacity(E.map());
			if (cap[r] > E.np) return fail(T(12), "capacity %u of a chip of %u pages", cap[r], E.np);
			if (r > 1 && cap[r] < cap[r - 1]) return fail(T(12), "%u pages, ratio %d: capacity %u, but %u at ratio %d", E.np, r, cap[r], cap[r - 1], r - 1); }
		if (!cap[0] != !cap[1]) return fail(T(12), "%u pages: capacity %u at ratio 0, %u at ratio 1", E.np, cap[0], cap[1]);
		if (E.np > 200 && !(cap[1] < cap[4] && cap[4] < cap[16])) return fail(T(12), "%u pages: capacities %u, %u, %u at ratios 1, 4, 16", E.np, cap[1], cap[4], cap[16]); }
	return true; }

// ---------------------------------------------------------------- start states
static std::vector<std::vector<u8>> starts; static long nstarts, keep_start = -1; static Ops wl_ops; static u32 pool_mark;
static bool reach_starts(int ci, int wl) {     // runs the workload, keeps each step as a start state
	set_sectors(profile); NS = MS - 8; cur_cfg = ci; cur_wl = wl; cur_start = -1; path.clear();
	u8 *sp = __start_dh_data; size_t ss = sp ? (size_t)(__stop_dh_data - sp) : 0;
	static std::vector<u8> stat0; static bool have = false;
	if (!have) { stat0.assign(sp, sp + ss); have = true; }
	if (ss) memcpy(sp, stat0.data(), ss);
	static bool caps = false; if (!caps && (wanted & T(12))) { caps = true; if (!capacity_ok(sp, ss)) return false; if (ss) memcpy(sp, stat0.data(), ss); }
	E.setup(cfgs[ci], sizeof(Model), sh_map_sizeof(), sp, ss);
	free(user_data); user_data = (u8 *)malloc(E.psz); data_cache.clear();
	E.power_off(0xA5);
	static bool swept = false; if (want_null && !swept) { swept = true; if (!strerror_ok()) return false; }
	int rc, err; starts.clear(); nstarts = 0;
	if (!mount_once(&rc, &err)) return false;
	if (rc == 0) return fail(T(24) | T(6), "mount of a blank chip claims success");
	int cap = sh_map_capacity(E.map()); NS = std::min(MS - 8, std::max(NA + 1, cap + 2));
	if (cap <= 0) return fail(T(12) | T(24), "configuration %s has no capacity", cfgs[ci].name.c_str());
	wl_ops = workload(wl);
	starts.clear(); starts.resize(wl_ops.size() + 1); E.save(starts[0]); nstarts = 1;
	for (size_t i = 0; i < wl_ops.size(); i++) {
		path.clear(); Outcome o = run_op(wl_ops[i], Plan()); cur_start = -(long)i - 2;
		if (!o.ok) return false;
		nstarts = i + 2; if ((i + 1) % mode.stride == 0 || (long)(i + 1) == keep_start) E.save(starts[i + 1]); }
	path.clear(); pool_mark = E.pool.n; return true; }

// ---------------------------------------------------------------- property -> exploration
#include "map_modes.hpp"

// ---------------------------------------------------------------- driver
static std::string outdir = ".";
static void write_replay(const char *file) {
	FILE *f = fopen(file, "w"); if (!f) return;
	fprintf(f, "engine map\nprop %s\nconfig %s\nworkload %d\nstart %ld\n", prop.c_str(), cfgs[cur_cfg].name.c_str(), cur_wl, cur_start);
	fprintf(f, "# %s\n", vmsg.c_str());
	for (auto &s : path) { fprintf(f, "op %c %u %u", s.op.k, s.op.a, s.op.b); for (auto &d : s.plan) fprintf(f, " %u:%u:%u", d.idx, d.alt, d.rd); fprintf(f, "   # %s\n", opstr(s.op).c_str()); }
	fclose(f); }

struct Shared { std::atomic<long> next; std::atomic<int> viol; Stats st[64]; long vitem[64]; char vmsg[64][700]; int kfn[64]; char kf[64][64][96]; volatile u64 progress[64]; char sample[64][600]; };
static Shared *sh; static int wid;
static char sigfile[512];
static void on_crash(int sig) {
	if (!stop_all) { char b[300]; snprintf(b, sizeof b, "the library crashed with signal %d during %s", sig, opstr(running_op).c_str()); vmsg = b; stop_all = true; }
	if (replaying) { printf("REPRODUCED %s\n", vmsg.c_str()); fflush(stdout); _exit(1); }
	write_replay(sigfile); snprintf(sh->vmsg[wid], 700, "%s", vmsg.c_str()); sh->viol = 1; _exit(3); }
static void note_sample() {
	if (!sh || (st.leaves & (st.leaves - 1)) || (st.leaves > 64 && path.empty())) return;       // leaves 1, 2, 4, ...: the latest one is kept
	std::string t = cfgs[cur_cfg].name + " workload " + std::to_string(cur_wl) + " step " + std::to_string(cur_start) + ":";
	for (auto &s : path) { t += " [" + opstr(s.op); for (auto &d : s.plan) t += std::string(d.rd ? " read#" : " flash-op#") + std::to_string(d.idx) + "=" + alt_name[d.alt]; t += "]"; }
	snprintf(sh->sample[wid], 600, "%s", t.c_str()); }
static u64 last_seen = ~0ull; static int ticks = 0;
static void on_tick(int) { if (op_counter == last_seen) { if (++ticks >= 4) { vmsg = "operation does not terminate"; stop_all = true; on_crash(SIGVTALRM); } } else { last_seen = op_counter; ticks = 0; } }

static void install() {
	static char stk[1 << 16]; stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = stk; ss.ss_size = sizeof stk; sigaltstack(&ss, nullptr);
	struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_crash; sa.sa_flags = SA_ONSTACK;
	for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) sigaction(s, &sa, nullptr);
	sa.sa_handler = on_tick; sigaction(SIGVTALRM, &sa, nullptr);
	struct itimerval it = {{2, 0}, {2, 0}}; setitimer(ITIMER_VIRTUAL, &it, nullptr); }

struct Item { int ci, wl; long lo, hi; };

static double now() { struct timeval tv; gettimeofday(&tv, nullptr); return tv.tv_sec + tv.tv_usec * 1e-6; }

static int do_replay(const char *file) {
	FILE *f = fopen(file, "r"); if (!f) { perror(file); return 2; }
	char line[4096]; std::string cn; int wl = 0; long start = 0; std::vector<Step> steps;
	while (fgets(line, sizeof line, f)) {
		char a[64]; if (sscanf(line, "config %63s", a) == 1) cn = a;
		sscanf(line, "workload %d", &wl); sscanf(line, "start %ld", &start);
		char k; unsigned x, y; int off = 0;
		if (sscanf(line, "op %c %u %u%n", &k, &x, &y, &off) == 3) { Step s; s.op = {k, (u8)x, (u8)y}; char *p = line + off; unsigned i, al, rd; int n;
			while (sscanf(p, " %u:%u:%u%n", &i, &al, &rd, &n) == 3) { s.plan.push_back({i, (u8)al, (u8)rd}); p += n; } steps.push_back(s); } }
	fclose(f); replaying = true; install();
	keep_start = start; bool ok = reach_starts(cfg(cn.c_str()), wl);
	if (!ok) { if (stop_all) printf("REPRODUCED %s (in workload, step %ld)\n", vmsg.c_str(), -cur_start - 2); return stop_all ? 1 : 0; }
	if (start < 0) { printf("NOT REPRODUCED\n"); return 0; }
	E.load(starts[start]); path.clear(); E.verbose = true; Op last = {'S', 0, 0};
	for (auto &s : steps) {
		if (s.op.k == 'L' || s.op.k == 'g') { std::string e = mode.epi; mode.epi = s.op.k == 'L' ? "l" : "g"; E.verbose = false; epilogue(); mode.epi = e; }
		else { Outcome o = run_op(s.op, s.plan); if (!stop_all && !o.ok) { printf("   path pruned here\n"); break; } last = s.op; }
		if (stop_all) { printf("REPRODUCED %s\n", vmsg.c_str()); return 1; } }
	printf("NOT REPRODUCED\n"); return 0; }

int main(int argc, char **argv) {
	std::vector<std::string> ov; int workers = 8; bool thorough = false; std::string replay; double limit = 780; int oneshot_cfg = -1, oneshot_wl = -1;
	for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&] { return std::string(argv[++i]); };
		if (a == "--prop") prop = nx(); else if (a == "--thorough") thorough = true; else if (a == "--workers") workers = atoi(nx().c_str());
		else if (a == "--out") outdir = nx(); else if (a == "--replay") replay = nx(); else if (a == "--limit") limit = atof(nx().c_str());
		else if (a == "--cfg") oneshot_cfg = atoi(nx().c_str()); else if (a == "--wl") oneshot_wl = atoi(nx().c_str()); else if (a == "--nokf") kf_enabled = false;
		else if (a == "--big") big = true;
		else if (a == "--set") ov.push_back(nx()); }
	make_cfgs(); set_mode(prop, thorough);
	for (auto &o : ov) { char k[32]; int v; if (sscanf(o.c_str(), "%31[a-z_]=%d", k, &v) == 2) { std::string K = k; if (K == "depth") mode.depth = v; else if (K == "stride") mode.stride = v; else if (K == "ndev") mode.ndev = v; else if (K == "nested") mode.nested = v; else if (K == "post") mode.post_depth = v; else if (K == "alts") mode.alts = v; } }
	setvbuf(stdout, nullptr, _IOLBF, 0);
	if (!replay.empty()) return do_replay(replay.c_str());
	std::vector<std::pair<int,int>> cw; for (int c : mode.cfgs) for (int w : mode.wls) if ((oneshot_cfg < 0 || c == oneshot_cfg) && (oneshot_wl < 0 || w == oneshot_wl)) cw.push_back({c, w});
	sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	double t0 = now(); deadline = t0 + limit;
	for (int w = 0; w < workers; w++) if (!fork()) {
		wid = w; snprintf(sigfile, sizeof sigfile, "%s/%s.w%d.replay", outdir.c_str(), prop.c_str(), w); install(); unlink(sigfile);
		long base = 0; long mine = sh->next++; bool capped = false;
		for (auto &c : cw) {
			if (sh->viol) break;
			if (now() - t0 > limit) { capped = true; break; }
			// cheap skip: number of start states is deterministic, computed by running the workload
			bool okw = reach_starts(c.first, c.second);
			long n = (nstarts + mode.stride - 1) / mode.stride;
			if (w == 0) st.starts += okw ? n : 0;
			if (!okw) { if (stop_all) break; n = std::max<long>(0, n - 1); }
			build_alphabet();
			while (mine < base + n) {
				long idx = (mine - base) * mode.stride; E.pool.release(pool_mark); vis.clear();
				cur_start = idx; path.clear(); E.load(starts[idx]); M()->E = 0; E.save(starts[idx]);
				fresh_state(0);
				if (mode.depth > 0) dfs(mode.depth, mode.ndev, 0); else epilogue();
				if (stop_all || sh->viol) break;
				if (now() - t0 > limit || out_of_time) { capped = true; break; }
				mine = sh->next++; }
			if (stop_all || sh->viol || capped) break;
			base += n; }
		st.distinct = capped;
		sh->st[w] = st; sh->vitem[w] = cur_start;
		int k = 0; for (auto &s : kfset) if (k < 64) snprintf(sh->kf[w][k++], 96, "%s", s.c_str()); sh->kfn[w] = k;
		if (stop_all) { write_replay(sigfile); snprintf(sh->vmsg[w], 700, "%s", vmsg.c_str()); sh->viol = 1; _exit(3); }
		_exit(0); }
	int stw; while (wait(&stw) > 0) {}
	Stats t; memset(&t, 0, sizeof t); std::set<std::string> kfs; bool capped = false; std::string v; int vw = -1;
	for (int w = 0; w < workers; w++) { Stats &s = sh->st[w]; t.states += s.states; t.trans += s.trans; t.execs += s.execs; t.crashes += s.crashes; t.mounts += s.mounts; t.faults += s.faults; t.rdfaults += s.rdfaults; t.starts += s.starts; t.pruned += s.pruned; t.kf += s.kf; t.mfull += s.mfull; t.leaves += s.leaves; t.maxcalls = std::max(t.maxcalls, s.maxcalls); t.maxmount = std::max(t.maxmount, s.maxmount); capped |= !!s.distinct;
		for (int k = 0; k < sh->kfn[w]; k++) kfs.insert(sh->kf[w][k]);
		if (sh->vmsg[w][0] && vw < 0) { vw = w; v = sh->vmsg[w]; } }
	printf("RESULT {\"engine\":\"map\",\"states\":%lu,\"transitions\":%lu,\"executions\":%lu,\"crash_points\":%lu,\"mounts\":%lu,\"fault_runs\":%lu,\"read_fault_runs\":%lu,\"start_states\":%lu,\"pruned_other_property\":%lu,\"known_finding_hits\":%lu,\"map_full_refusals\":%lu,\"leaves\":%lu,\"max_nand_calls_in_one_op\":%lu,\"max_nand_calls_in_one_mount\":%lu,\"capped\":%s,\"wall\":%.1f}\n",
		t.states, t.trans, t.execs, t.crashes, t.mounts, t.faults, t.rdfaults, t.starts, t.pruned, t.kf, t.mfull, t.leaves, t.maxcalls, t.maxmount, capped ? "true" : "false", now() - t0);
	for (int w = 0; w < workers && w < 4; w++) if (sh->sample[w][0]) printf("SAMPLE %s\n", sh->sample[w]);
	for (auto &k : kfs) printf("KNOWN %s\n", k.c_str());
	if (vw >= 0) { printf("FOUND %s/%s.w%d.replay %s\n", outdir.c_str(), prop.c_str(), vw, v.c_str()); return 1; }
	return 0; }
