// Breadth-first closure of the real journal code on tiny chips. From every reachable state: all short
// operation sequences, power loss at every flash operation, and block failures at every flash operation.
#include "emu.hpp"
#include "par.hpp"
#include <unordered_map>
#include <unordered_set>
#include <deque>
#include <memory>
extern "C" { extern u8 __start_dh_data[] __attribute__((weak)); extern u8 __stop_dh_data[] __attribute__((weak)); }

static const int ME = 100;
// data and metadata identity of an entry; m == 0: padding (blank metadata), JUNK: left over from an interrupted group
struct Ent { u16 d, m; };
static const u16 JUNK = 0xfffd, ANYDATA = 0xfffe;
struct JM { u16 n, cn, deq, deqc, junk, lap, clap, prev; u8 since, gen, nx; u32 cookie, ccookie; Ent e[ME], c[ME]; };
static Emu E; static JM *M() { return (JM *)E.model(); }
static u64 T(int n) { return 1ull << n; }
static u64 wanted = 0; static bool pruned = false;
static int MSZ, CSZ; static u32 NONE;
static u32 lastfail; static bool was_full; static std::vector<u8> op_muts; static u32 op_hits;
extern "C" {
int h_is_bad(const void *n, u32 b) { E.tick(n); return E.is_bad(b); }
void h_mark_bad(const void *n, u32 b) { E.tick(n); E.mark_bad(b); }
static std::vector<u8> prot; static std::string prot_msg;    // blocks that must not be erased during the current call
int h_erase(const void *n, u32 b) { E.tick(n); if (b < prot.size() && prot[b] && prot_msg.empty()) prot_msg = "block " + std::to_string(b) + (prot[b] & 1 ? " is erased although it holds pages not dequeued yet" : " is erased although a resume from the last checkpoint still needs it"); int r = E.erase(b); if (r && lastfail == ~0u) lastfail = b << E.c.lb; return r; }
int h_prog(const void *n, u32 p, const u8 *d) { E.tick(n); if (!d) { E.breach(V_BUFFER, "program with a null buffer"); return E_BAD_BLOCK; } int r = E.prog(p, d); if (!r && p % E.ppc == (u32)E.ppc - 1) for (auto &x : prot) x &= ~2; if (r && lastfail == ~0u) lastfail = p; return r; }
int h_is_free(const void *n, u32 p) { E.tick(n); return E.is_free(p); }
int h_read(const void *n, u32 p, size_t o, size_t l, u8 *d) { E.tick(n); return E.read(p, o, l, d); }
int h_copy(const void *n, u32 s, u32 d) { E.tick(n); int r = E.copy(s, d); if (r == E_BAD_BLOCK && lastfail == ~0u) lastfail = d; return r; }
}
static int c_states, c_trans, c_exec, c_crash, c_mount, c_fault, c_rec, c_full, c_seq, c_pruned, c_maxq, c_kf, c_trunc, c_closed;
static bool fail(u64 tags, const char *fmt, ...) {
	char b[500]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); pruned = true;
	if (!(tags & wanted)) { E.log("   (outside this property: %s)\n", b); par::cnt[c_pruned]++; if (getenv("MC_PRUNE")) printf("PRUNE %s\n", b); return false; }
	return par::fail("%s", b); }

// ------------------------------------------------------------ contents
static const u16 FFDATA = 0x7001;                        // a page of all-ff data
static std::unordered_map<u32, std::vector<u8>> dcache, mcache;
static void fill(u8 *d, size_t n, u32 id) { u32 x = id * 2654435761u + 99; for (size_t i = 0; i < n; i++) { x ^= x << 13; x ^= x >> 17; x ^= x << 5; d[i] = x >> 3; } d[0] = 0xC0 | (id & 0xf); d[1] = id; d[2] = id >> 8; }
static const u8 *dataof(u16 id) { auto &v = dcache[id]; if (v.size() != E.psz) { v.resize(E.psz); if (id == FFDATA) memset(v.data(), 0xff, E.psz); else fill(v.data(), E.psz, id); } return v.data(); }
static const u8 *metaof(u16 id) { auto &v = mcache[id]; if ((int)v.size() != MSZ) { v.resize(MSZ); if (!id) memset(v.data(), 0xff, MSZ); else { fill(v.data(), MSZ, id * 7 + 1); v[1] = id; v[2] = id >> 8; } } return v.data(); }
static u16 meta_id(const u8 *mb) { bool ff = true; for (int i = 0; i < MSZ; i++) ff &= mb[i] == 0xff; u16 id = ff ? 0 : (u16)(mb[1] | mb[2] << 8); return id < 0x7000 && !memcmp(mb, metaof(id), MSZ) ? id : 0xffff; }
static bool data_is(u32 page, u16 d) { if (d == ANYDATA) return true; u32 c = E.chip()[page]; if (c & TORN) return false; return !memcmp(E.pool.at(c), dataof(d), E.psz); }

struct Got { u32 page; u16 m; bool merr; };
static std::vector<Got> got; static u32 got_root; static int drain_bad;
static const u64 ALL = T(16) | T(17) | T(18) | T(19) | T(20);
static bool contract(u64 where) {
	if (!E.viol) return true; u64 t = where;
	if (E.viol & V_MARKGOOD) t |= T(8) | T(18);
	if (E.viol & (V_MARKED | V_FACTORY)) t |= T(8) | T(10) | T(18) | T(20);
	if (E.viol & (V_RANGE | V_ORDER | V_UNERASED | V_READRANGE | V_BUFFER)) t |= T(10);
	if (E.viol & V_ORDER) t |= T(20) | T(17);
	if (E.viol & V_GUARD) t |= T(10) | T(25);
	if (t & wanted) return fail(t, "flash contract: %s", E.violmsg.c_str());
	return true; }
static bool guarded(const Plan &p, const std::function<void()> &f) { par::progress++; E.begin(p); bool ok = true; if (!sigsetjmp(E.jb, 0)) f(); else ok = false; E.end(); return ok; }

// dequeue everything on a copy of the RAM state; may be used inside guarded()
static void raw_drain() {
	static std::vector<u8> keep, stk; keep.assign(E.A() + E.o_map, E.A() + E.o_stat); stk.assign(E.statp, E.statp + E.statsz);
	got.clear(); drain_bad = 0; u32 m0 = E.mut; got_root = sh_j_root(E.map()); static u8 mb[4096];
	for (;;) {
		u32 p = sh_j_peek(E.map()); if (p == NONE) break;
		if (p >= E.np) { drain_bad = 1; break; }
		if (got.size() > 2 * E.np) { drain_bad = 2; break; }
		Got g; g.page = p; int err = 0; memset(mb, 0x33, MSZ);
		g.merr = sh_j_read_meta(E.map(), p, mb, &err) < 0; g.m = g.merr ? JUNK : meta_id(mb);
		got.push_back(g); sh_j_dequeue(E.map()); }
	if (E.mut != m0) drain_bad = 3;
	memcpy(E.A() + E.o_map, keep.data(), keep.size()); if (E.statsz) memcpy(E.statp, stk.data(), E.statsz); }
static bool drain(u64 tags) {
	bool ok = guarded(Plan(), [] { raw_drain(); });
	if (!ok) return fail(ALL, "draining the queue does not terminate");
	if (drain_bad) return fail(tags, drain_bad == 1 ? "peek returns a page outside the chip" : drain_bad == 2 ? "dequeuing never empties the queue" : "dequeuing wrote to flash");
	return contract(tags); }

// exact agreement with the list model
static bool check_exact(u64 tags) {
	JM *m = M(); if (!drain(tags)) return false;
	if (got.size() != m->n) return fail(tags, "the queue holds %zu pages, %u expected", got.size(), m->n);
	for (int i = 0; i < m->n; i++) {
		if (m->e[i].m == JUNK) { if (got[i].m && !got[i].merr) return fail(tags, "a page left over from an interrupted group carries metadata %x", got[i].m); continue; }
		if (got[i].merr || got[i].m != m->e[i].m) return fail(tags, "entry %d: metadata is %s%x, expected %x", i, got[i].merr ? "unreadable " : "", got[i].m, m->e[i].m);
		if (m->e[i].m && !data_is(got[i].page, m->e[i].d)) return fail(tags, "entry %d: data of page %u differs", i, got[i].page); }
	if (m->n > m->junk) { u32 w = got[m->n - m->junk - 1].page; if (got_root != w) return fail(tags, "the root is page %d, the newest page is %u", (int)got_root, w); }
	else if (got_root != NONE) return fail(tags, "the root is page %u although no page is held", got_root);
	u32 js = sh_j_size(E.map()); if (js < m->n) return fail(T(20) | T(13), "journal size %u is less than the %u pages held", js, m->n);
	if (memcmp(sh_j_cookie(E.map()), &m->cookie, CSZ)) return fail(tags, "the cookie changed by itself");
	return true; }

// after recovery: the last copies of all pages held are there, in order; adopts what is observed as the new model
static bool adopt_reloc(u64 tags) {
	JM *m = M(); if (drain_bad) return fail(tags, "after recovery the queue cannot be read out");
	std::vector<Got> r; std::vector<Ent> now;
	for (auto &g : got) {
		if (g.merr) return fail(tags, "after recovery the metadata of page %u is unreadable", g.page);
		if (g.m == 0xffff) return fail(tags, "after recovery page %u carries damaged metadata", g.page);
		if (!g.m) continue;
		for (size_t k = 0; k < r.size(); k++) if (r[k].m == g.m) { r.erase(r.begin() + k); break; }
		r.push_back(g); }
	std::vector<Ent> w; for (int i = 0; i < m->n; i++) if (m->e[i].m && m->e[i].m != JUNK) w.push_back(m->e[i]);
	if (r.size() < w.size()) return fail(tags, "after recovery the queue yields %zu of %zu pages", r.size(), w.size());
	size_t o = r.size() - w.size();                      // pages dequeued before may reappear, ahead of the others
	for (size_t i = 0; i < w.size(); i++) {
		if (r[o + i].m != w[i].m) return fail(tags, "after recovery entry %zu is %x, expected %x", i, r[o + i].m, w[i].m);
		if (!data_is(r[o + i].page, w[i].d)) return fail(tags, "after recovery the data of entry %zu differs", i); }
	if (got.size() > ME) { pruned = true; return false; }
	if (!got.empty() && got_root != got.back().page) return fail(tags, "after recovery the root is page %d, the newest page is %u", (int)got_root, got.back().page);
	u32 js = sh_j_size(E.map()); if (js < got.size()) return fail(T(20), "journal size %u is less than the %zu pages held", js, got.size());
	std::unordered_map<u16, u16> d; for (auto &x : w) d[x.m] = x.d;
	m->n = 0; m->junk = 0; memset(m->e, 0, sizeof m->e);
	for (auto &g : got) { Ent x; x.m = g.m; auto it = d.find(g.m); x.d = !g.m ? 0 : it == d.end() || !data_is(g.page, it->second) ? ANYDATA : it->second; m->e[m->n++] = x; }
	for (unsigned b = 0; b < E.c.nb; b++) if ((E.flags()[b] & (BF_FAILED | BF_REPORTED)) == (BF_FAILED | BF_REPORTED) && !(E.flags()[b] & BF_MARKED)) return fail(T(8) | T(18), "block %u failed but is not marked bad once recovery is complete", b);
	return true; }

// ------------------------------------------------------------ operations
struct Step { char k; Plan p; };
static std::vector<Step> path; static char cur_k = '?';
static void checkpointed() { JM *m = M(); m->cn = m->n; memcpy(m->c, m->e, sizeof m->c); m->deq = m->deqc = 0; m->ccookie = m->cookie; m->clap = m->lap; m->since = 0; }
static u16 newid() { JM *m = M(); return 1 + ((m->prev + 1) & 0x3ff) + ((m->lap & 3) << 10); }
static void rootmoved() { JM *m = M(); u32 r = sh_j_root(E.map()); if (r == NONE) return; if (r <= m->prev) m->lap++; m->prev = r; }
static u32 upb() { return (E.ppb / E.ppc) * (E.ppc - 1); }

enum Res { J_OK, J_FULL, J_TOOBAD, J_ERR, J_ABORT };
static int recov_rounds; static std::string rec_msg;
// assisted recovery exactly as documented in journal.h; runs inside guarded(); got holds the queue before the failure
static Res recover() {
	JM *m = M(); std::vector<Got> before = got; u32 fblk = lastfail >> E.c.lb; std::vector<u32> seen; static u8 mb[4096]; const u32 root0 = got_root; bool fresh = true;
	while (sh_j_in_recovery(E.map())) {
		if (fresh) { fresh = false; u32 r = sh_j_root(E.map()); char b[120];   // whenever recovery starts or restarts, the root is the newest page accepted before the failure
			if (r != root0) { snprintf(b, sizeof b, "the root is page %d when recovery starts, page %d before the failure", (int)r, (int)root0); rec_msg = b; return J_ABORT; } }
		if (++recov_rounds > 300) { rec_msg = "recovery does not complete"; return J_ABORT; }
		u32 p = sh_j_next_recoverable(E.map()); int rc, err = 0; char b[160];
		if (p == NONE) {
			size_t k = 0;                         // every page of the failed block that is held must have been offered, in order
			for (size_t i = 0; i < before.size() && i < m->n; i++) {
				if (!m->e[i].m || m->e[i].m == JUNK || (before[i].page >> E.c.lb) != fblk) continue;
				while (k < seen.size() && seen[k] != before[i].page) k++;
				if (k >= seen.size()) { snprintf(b, sizeof b, "the recovery enumeration left out page %u (entry %zu)", before[i].page, i); rec_msg = b; return J_ABORT; }
				k++; }
			rc = sh_j_enqueue(E.map(), nullptr, nullptr, &err); }
		else {
			if (p >= E.np || (p >> E.c.lb) != fblk) { snprintf(b, sizeof b, "the recovery enumeration yields page %u, not in the failed block %u", p, fblk); rec_msg = b; return J_ABORT; }
			memset(mb, 0x33, MSZ);
			if (sh_j_read_meta(E.map(), p, mb, &err) < 0) {
				bool junk = true; for (size_t i = 0; i < before.size() && i < m->n; i++) if (before[i].page == p && m->e[i].m != JUNK) junk = false;
				if (junk) { seen.push_back(p); continue; }
				snprintf(b, sizeof b, "metadata of recoverable page %u is unreadable", p); rec_msg = b; return J_ABORT; }
			u16 id = meta_id(mb); seen.push_back(p);
			for (size_t i = 0; i < before.size() && i < m->n; i++) if (before[i].page == p && m->e[i].m != JUNK) {
				if (id != m->e[i].m) { snprintf(b, sizeof b, "metadata of recoverable page %u is %x, expected %x", p, id, m->e[i].m); rec_msg = b; return J_ABORT; }
				if (id && !data_is(p, m->e[i].d)) { snprintf(b, sizeof b, "data of recoverable page %u is lost", p); rec_msg = b; return J_ABORT; } }
			if (!id || id == 0xffff) continue;    // padding need not be kept
			rc = sh_j_copy(E.map(), p, mb, &err); }
		par::cnt[c_rec]++;
		if (rc < 0) {
			if (err == E_RECOVER) { seen.clear(); fresh = true; continue; }
			if (err == E_JOURNAL_FULL) return J_FULL;
			if (err == E_TOO_BAD) return J_TOOBAD;
			snprintf(b, sizeof b, "recovery fails with error %d", err); rec_msg = b; return J_ABORT; } }
	return J_OK; }

static std::vector<u8> nl_pre, nl_post, nl_now;                // C27: the same call with a null error pointer
static bool nl_equal(const std::vector<u8> &a, const std::vector<u8> &b) { return !memcmp(a.data() + E.o_map, b.data() + E.o_map, E.o_model - E.o_map); }
static bool do_resume(u64 tags) {
	par::cnt[c_mount]++; E.power_off(0x5A); int rc = 0, err = 0, rc0 = 0; E.mounting = true; const bool nl = wanted & T(27);
	if (nl) { E.save(nl_pre); guarded(Plan(), [&] { sh_j_init(E.map(), E.nand(), E.buf()); sh_null_err = 1; rc0 = sh_j_resume(E.map(), nullptr); }); sh_null_err = 0; E.save(nl_post); E.load(nl_pre); }
	bool ok = guarded(Plan(), [&] { sh_j_init(E.map(), E.nand(), E.buf()); rc = sh_j_resume(E.map(), &err); });
	E.mounting = false;
	if (!ok) return fail(ALL | T(21), "resume does not terminate");
	if (nl) { E.save(nl_now); if (rc != rc0 || !nl_equal(nl_now, nl_post)) return fail(T(27), "resume behaves differently with a null error pointer"); if (rc < 0 && (err < 1 || err > 8)) return fail(T(27), "resume fails without a documented error code (%d)", err); }
	if (E.mount_muts) return fail(tags | T(6), "resume wrote to flash");
	if (rc < 0) {
		if (M()->cn) return fail(tags, "resume fails with error %d although a checkpoint exists", err);
		if (!contract(tags)) return false;
		JM *m = M(); m->n = m->junk = 0; m->deq = m->deqc = 0; memset(m->e, 0, sizeof m->e); m->cookie = 0xffffffff;
		// the uncommitted contents are gone, the head is back at the start
		memset(&m->cookie, 0xff, 4); m->lap = m->clap; m->prev = 0x3ff; m->since = 0; return true; }
	return contract(tags); }
// match what resume delivered with the last checkpoint (or the one completed by the interrupted call) and adopt it
static bool adopt_resume(u64 tags, const Ent *inflight, u32 incookie) {
	JM *m = M(); if (!drain(tags)) return false;
	std::string why; bool okay = false;
	for (int alt = 0; alt < (inflight ? 2 : 1) && !okay; alt++) {
		std::vector<Ent> base; u32 ck; int deq;
		if (!alt) { base.assign(m->c, m->c + m->cn); ck = m->ccookie; deq = m->deq; } else { base.assign(m->e, m->e + m->n); base.push_back(*inflight); ck = incookie; deq = 0; }
		if (base.empty()) { if (got.empty() && got_root == NONE) { okay = true; if (!alt) break; } continue; }
		for (int k = 0; k <= deq && k <= (int)base.size() && !okay; k++) {
			size_t len = base.size() - k; if (got.size() < len) { why = "pages are missing"; continue; }
			bool same = true; for (size_t i = 0; i < len && same; i++) { const Ent &x = base[k + i];
				if (x.m == JUNK) same = got[i].merr || !got[i].m;
				else { same = !got[i].merr && got[i].m == x.m; if (!same) { if (!k) why = "entry " + std::to_string(i) + " has other metadata"; } else if (x.m && !data_is(got[i].page, x.d)) { same = false; why = "entry " + std::to_string(i) + " has other data"; } } }
			if (!same) continue;
			size_t junk = got.size() - len; if (junk > upb() + 1) { why = std::to_string(junk) + " extra pages follow"; continue; }
			for (size_t i = len; i < got.size() && same; i++) if (got[i].m && !got[i].merr) { same = false; why = "an extra page with metadata follows"; }
			if (!same) continue;
			if (len && got_root != got[len - 1].page) { why = "the root is not the newest page of the checkpoint"; continue; }
			if (memcmp(sh_j_cookie(E.map()), &ck, CSZ)) { why = "the cookie is not the one of the checkpoint"; continue; }
			okay = true; m->cookie = ck; m->junk = junk; m->n = 0; memset(m->e, 0, sizeof m->e);
			for (size_t i = 0; i < len; i++) m->e[m->n++] = base[k + i];
			m->cn = m->n; memset(m->c, 0, sizeof m->c); memcpy(m->c, m->e, sizeof(Ent) * m->n); m->ccookie = ck; m->deq = m->deqc = 0;
			for (size_t i = 0; i < junk; i++) m->e[m->n++] = Ent{0, JUNK};
			m->lap = m->clap; if (alt) { m->lap += got_root <= m->prev; } m->clap = m->lap; if (got_root != NONE) m->prev = got_root; m->since = 0; } }
	if (!okay) {      // known: pages dequeued and erased since reappear without contents when a bad block hides the tail's block from resume
		u32 b = m->cn && got_root != NONE ? got_root >> E.c.lb : 0; bool badnext = m->cn && got_root != NONE && (E.flags()[(b + 1) % E.c.nb] & BF_MARKED);
		for (int k = 1; badnext && k <= m->deq && k <= m->cn; k++) for (int j = 1; j <= k; j++) {
			bool same = (int)got.size() >= j + m->cn - k;
			for (int i = 0; same && i < j; i++) same = got[i].merr || !got[i].m || got[i].m == m->c[k - j + i].m;
			for (int i = 0; same && i < m->cn - k; i++) same = m->c[k + i].m == JUNK || (!got[j + i].merr && got[j + i].m == m->c[k + i].m);
			if (same) { if (wanted & T(19)) par::known("dequeued-pages-reappear-blank-behind-bad-block"); par::cnt[c_kf]++; pruned = true; return false; } } }
	if (!okay && E.verbose) { for (auto &g : got) printf("   got page %u meta %x%s\n", g.page, g.m, g.merr ? " unreadable" : ""); for (int i = 0; i < m->cn; i++) printf("   checkpoint %x (data %x)\n", m->c[i].m, m->c[i].d); printf("   root %d, %u dequeued since\n", (int)got_root, m->deq); }
	if (!okay) return fail(tags, "resume does not restore the last checkpoint: %s (%zu pages, %u in the checkpoint)", why.c_str(), got.size(), m->cn);
	return check_exact(tags); }

// blocks with pages that are held, or that a resume from the last checkpoint delivers and that were not dequeued while clean
static void protect() {
	JM *m = M(); prot.assign(E.c.nb, 0); if (!guarded(Plan(), [] { raw_drain(); }) || drain_bad) return;
	for (auto &g : got) if (g.page < E.np) prot[g.page >> E.c.lb] |= 1;
	static std::vector<u8> k; E.save(k); E.power_off(0x5A); int rc = -1, err = 0;
	bool ok = guarded(Plan(), [&] { sh_j_init(E.map(), E.nand(), E.buf()); rc = sh_j_resume(E.map(), &err); if (!rc) raw_drain(); });
	if (ok && !rc && !drain_bad) { int end = -1; for (size_t i = 0; i < got.size(); i++) if (got[i].page == got_root) end = i;
		for (int i = std::max(0, end + 1 - (m->cn - m->deqc)); i <= end; i++) if (got[i].page < E.np) prot[got[i].page >> E.c.lb] |= 2; }
	E.load(k); }
static void put_cookie(u32 v) { M()->cookie = v; memcpy(sh_j_cookie(E.map()), &v, CSZ); }
// one step; afterwards stop_all (violation), pruned (not continued) or a checked state
static bool run_step(const Step &s, bool check = true) {
	JM *m = M(); pruned = false; was_full = false; op_muts.clear(); op_hits = 0; cur_k = s.k; par::cnt[c_trans]++; par::cnt[c_exec]++; E.log("-- %c\n", s.k);
	const u64 seqt = T(17) | T(20) | (m->gen ? T(19) : 0);
	switch (s.k) {
	case 'D': {
		u32 p = 0; bool ok = guarded(Plan(), [&] { p = sh_j_peek(E.map()); sh_j_dequeue(E.map()); });
		if (!ok) return fail(ALL, "dequeue does not terminate");
		if (E.mut) return fail(T(17) | T(20), "dequeue wrote to flash");
		if ((p == NONE) != (m->n == 0)) return fail(seqt, "peek says %s, the queue holds %u", p == NONE ? "none" : "a page", m->n);
		if (m->n) { if (m->e[0].m && m->e[0].m != JUNK && !data_is(p, m->e[0].d)) return fail(seqt, "peek returns page %u, which does not hold the oldest data", p);
			memmove(m->e, m->e + 1, sizeof(Ent) * (m->n - 1)); m->n--; memset(&m->e[m->n], 0, sizeof(Ent)); if (m->junk > m->n) m->junk = m->n;
			if (m->deq < m->cn) { m->deq++; if (sh_j_is_clean(E.map())) m->deqc = m->deq; } }
		return !check || check_exact(seqt); }
	case 'X':
		if (!guarded(Plan(), [&] { sh_j_clear(E.map()); })) return fail(ALL, "clear does not terminate");
		if (E.mut) return fail(T(17) | T(20), "clear wrote to flash");
		m->n = m->junk = 0; memset(m->e, 0, sizeof m->e); m->deq = m->cn; m->since = 0; m->nx++;
		return !check || check_exact(seqt);
	case 'R':
		if (!sh_j_is_clean(E.map())) m->nx++;
		if (!do_resume(T(19) | T(20))) return false;
		return adopt_resume(T(19) | T(20), nullptr, 0); }
	// enqueue-like
	Ent x = {0, 0}; u32 src = NONE; x.m = newid();
	if (x.m >= 0x7000) return false;
	u32 ck = 0x51000000u + x.m;
	if (s.k == 'K' || s.k == 'k') {
		if (!m->n || (s.k == 'k' && m->junk == m->n)) { pruned = true; return false; }
		int i = s.k == 'K' ? 0 : m->n - m->junk - 1; if (!m->e[i].m || m->e[i].m == JUNK) { pruned = true; return false; }
		if (!guarded(Plan(), [] { raw_drain(); }) || (int)got.size() <= i) return fail(seqt, "the queue lost pages");
		src = s.k == 'k' ? sh_j_root(E.map()) : got[0].page; x.d = m->e[i].d; }
	else if (s.k == 'E' || s.k == 'Z') x.d = x.m; else if (s.k == 'F') x.d = FFDATA; else x.m = 0;
	u32 oldcookie = m->cookie; Res res = J_ERR; int err = 0; recov_rounds = 0; rec_msg.clear(); bool had_rec = false; lastfail = ~0u;
	put_cookie(ck); const bool faulty = !s.p.empty(); static u32 tries; tries = 0;
	if (faulty && (wanted & T(20))) protect(); else prot.clear();
	prot_msg.clear();
	const bool nl = wanted & T(27); volatile int rc0 = 0; volatile bool null_done = false; bool null_bad = false, nocode = false;
	auto call = [&](int *e) { return s.k == 'K' || s.k == 'k' ? sh_j_copy(E.map(), src, metaof(x.m), e) : s.k == 'N' ? sh_j_enqueue(E.map(), nullptr, nullptr, e) : sh_j_enqueue(E.map(), dataof(x.d), metaof(x.m), e); };
	if (nl) { E.save(nl_pre); null_done = guarded(s.p, [&] { sh_null_err = 1; rc0 = call(nullptr); }); sh_null_err = 0; E.save(nl_post); E.load(nl_pre); lastfail = ~0u; }
	bool ok = guarded(s.p, [&] {
		for (;; tries++) {
			if (tries > 40) { rec_msg = "the operation never succeeds"; res = J_ABORT; break; }
			if (faulty) { raw_drain(); if (had_rec) { if (!adopt_reloc(T(18) | T(8))) { res = J_ABORT; rec_msg = "recovery lost something"; break; } if (sh_j_is_clean(E.map())) checkpointed(); } }
			lastfail = ~0u;
			int rc = call(&err);
			if (nl && !tries) { E.save(nl_now); null_bad = !null_done || rc != rc0 || !nl_equal(nl_now, nl_post); }
			if (rc < 0 && (err < 1 || err > 8)) nocode = true;
			if (!rc) { res = J_OK; break; }
			if (err != E_RECOVER) { res = err == E_JOURNAL_FULL ? J_FULL : err == E_TOO_BAD ? J_TOOBAD : J_ERR; break; }
			had_rec = true;
			if (sh_j_in_recovery(E.map())) { res = recover(); if (res != J_OK) break; }
			if (had_rec && s.k == 'k') src = sh_j_root(E.map());    // the page that was to be copied has moved
			if (had_rec && s.k == 'K') { res = J_TOOBAD; break; } } });
	prot.clear(); op_muts = E.muts; op_hits = E.devs_hit;
	if (null_bad) return fail(T(27), "enqueue or copy behaves differently with a null error pointer");
	if (nocode) return fail(T(27), "enqueue or copy fails without a documented error code (%d)", err);
	if (!prot_msg.empty()) return fail(T(20), "%s", prot_msg.c_str());
	if (!ok && E.hang) return fail(ALL, "enqueue does not terminate");
	if (!ok) {                                       // power loss inside the call
		par::cnt[c_crash]++;
		const u64 t = T(19) | T(20);
		if (!contract(t)) return false;
		if (faulty && E.failhit) { pruned = true; return false; }
		m->gen++; JM old = *m; (void)old;
		if (!do_resume(t)) return false;
		return adopt_resume(t, &x, ck); }
	if (faulty && E.devs_hit < s.p.size()) { pruned = true; put_cookie(oldcookie); return false; }     // the deviations did not all apply
	const u64 t = E.failhit ? T(18) | T(8) : seqt;
	if (E.failhit) par::cnt[c_fault]++;
	if (!contract(t)) return false;
	if (res == J_ABORT) return fail(T(18), "%s", rec_msg.c_str());
	if (res == J_TOOBAD) { if (faulty) { pruned = true; return false; } return fail(t, "enqueue fails with too-many-bad-blocks"); }
	if (res == J_FULL) {
		par::cnt[c_full]++; u32 js = sh_j_size(E.map()); u32 full = (E.c.nb - 2) * upb();
		if (js < full) return fail(T(20) | T(18), "journal full although it only spans %u pages of %u", js, E.c.nb * upb());
		if (s.k == 'Z') return fail(T(20), "the journal is still full although enough pages were dequeued");
		if (faulty) { pruned = true; return false; }
		put_cookie(oldcookie); if (E.mut) return fail(T(20), "a refused enqueue changed the flash");
		if (!check_exact(T(20))) return false;
		was_full = true; pruned = true; return false; }
	if (res != J_OK) return fail(t, "enqueue fails with error %d", err);
	if (m->n >= ME) { pruned = true; return false; }
	m->e[m->n++] = x; m->junk = 0; rootmoved(); par::cnt[c_maxq] = std::max<u64>(par::cnt[c_maxq], m->n);
	bool clean = sh_j_is_clean(E.map());
	if (E.failhit) for (unsigned b = 0; b < E.c.nb; b++) if (!(E.flags()[b] & BF_MARKED) && (E.flags()[b] & BF_REPORTED)) return fail(T(8) | T(18), "block %u failed but is not marked bad once recovery is complete", b);
	if (clean) checkpointed(); else if (++m->since >= E.ppc) return fail(T(19), "no checkpoint after %u pages", m->since);
	return !check || check_exact(E.failhit ? t : seqt); }

// ------------------------------------------------------------ closure
static std::vector<Config> cfgs; static int cur_cfg = 0, cur_root = 0; static int max_laps = 3, max_gen = 1, max_dist = 1;
static void add(const char *n, int lp, int lb, unsigned nb, std::vector<unsigned> bad = {}, bool imp = false) { Config c; c.name = n; c.lp = lp; c.lb = lb; c.nb = nb; c.bad = bad; c.imprecise = imp; cfgs.push_back(c); }
static void make() {
	add("j512b4n4", 9, 2, 4); add("j512b4n5bad2", 9, 2, 5, {2}); add("j512b8n3", 9, 3, 3); add("j256b2n6", 8, 1, 6); add("j256b4n4", 8, 2, 4);
	add("j1kb8n3", 10, 3, 3); add("j512b4n6bad03", 9, 2, 6, {0, 3}); add("j2kb16n3", 11, 4, 3); add("j512b4n4imp", 9, 2, 4, {}, true); add("j256b2n5bad4", 8, 1, 5, {4});
	add("j512b4n7", 9, 2, 7); add("j256b2n9", 8, 1, 9); add("j512b8n6", 9, 3, 6); }
static const int RECOV_FIRST = 10;                       // configurations with room for relocation
static std::vector<u8> stat0; static u32 pool_mark;
static bool root_state(int ci, int kind) {
	cur_cfg = ci; cur_root = kind; path.clear(); u8 *sp = __start_dh_data; size_t ss = sp ? (size_t)(__stop_dh_data - sp) : 0;
	if (stat0.empty() && ss) stat0.assign(sp, sp + ss);
	if (ss) memcpy(sp, stat0.data(), ss);
	dcache.clear(); mcache.clear(); MSZ = sh_meta_size(); CSZ = std::min(4, sh_cookie_size()); NONE = sh_page_none();
	E.setup(cfgs[ci], sizeof(JM), sh_journal_sizeof(), sp, ss);
	JM *m = M(); memset(m, 0, sizeof *m); m->prev = 0x3ff;
	if (!do_resume(T(21) | T(19))) return false;
	m->prev = 0x3ff; put_cookie(0xffffffff);
	// E_... nothing committed yet: the first page goes to lap 0
	m->lap = m->clap = 0xffff;
	if (kind) {                                       // go round the chip until the 8-bit epoch is about to overflow
		u32 laps = 0; u32 last = 0xffffffff;
		for (int i = 0; laps < 254 && i < 254 * 80 * 20; i++) {
			if (!run_step({'E', {}}, false)) return false;
			while (M()->n > 2) if (!run_step({'D', {}}, false)) return false;
			u32 r = sh_j_root(E.map()); if (last != 0xffffffff && r < last) laps++; last = r; E.pool.release(E.pool.n > 60000 ? E.pool.n : E.pool.n); }
		M()->lap = M()->clap = 0; 
	}
	path.clear(); return !par::stop_all; }

// State merging: complete state, except that of checkpoints older than the newest only position, epoch and
// readability count (their tail, counters and metadata are superseded), and erase counts are left out.
static u64 state_hash() {
	static std::vector<u8> t; E.save(t); memset(t.data() + E.o_wear, 0, E.o_taint - E.o_wear);
	u32 *ch = (u32 *)(t.data() + E.o_chip); JM *m = M(); u32 g0 = m->prev | (E.ppc - 1);
	for (u32 p = E.ppc - 1; p < E.np; p += E.ppc) { if (p == g0) continue; const u8 *d = E.pool.at(ch[p]); if (d[0] == 'D' && d[1] == 'h' && d[2] == 'a') ch[p] = (ch[p] & TORN) | 0x40000000u | d[3]; }
	return Pool::hash(t.data(), t.size()); }
struct Node { long parent; Step s; std::vector<u8> snap; };
static std::deque<Node> nodes; static std::unordered_set<u64> seen;
static std::vector<Step> prefix; 
static void path_of(long i) { prefix.clear(); for (; i > 0; i = nodes[i].parent) prefix.push_back(nodes[i].s); std::reverse(prefix.begin(), prefix.end()); }
static void add_node(long parent, const Step &s) { if (!seen.insert(state_hash()).second) return; Node n; n.parent = parent; n.s = s; E.save(n.snap); nodes.push_back(std::move(n)); }
static int alts_of(u8 type, bool crash, u8 *a) { int k = 0;
	if (crash) { a[k++] = CRASH_BEFORE; if (type == PT_PROG || type == PT_COPY) a[k++] = CRASH_TORN; if (type == PT_ERASE) { a[k++] = CRASH_TORN; a[k++] = CRASH_HALF; } }
	else { if (type == PT_PROG || type == PT_COPY) { a[k++] = FAIL_ECC; a[k++] = FAIL_FF; a[k++] = FAIL_GOOD; } if (type == PT_ERASE) { a[k++] = FAIL_ECC; a[k++] = FAIL_OLD; } }
	return k; }
static bool go(const Step &s) { path.push_back(s); bool r = run_step(s); return r; }
static std::vector<u8> base; static long base_i;
static void rewind_to_base() { E.load(base); path = prefix; }

static bool node_capped = false;
static bool explore(bool want_cr, long maxnodes) {
	nodes.clear(); seen.clear(); prefix.clear(); path.clear();
	{ Node n; n.parent = -1; n.s = {'?', {}}; E.save(n.snap); nodes.push_back(n); seen.insert(state_hash()); }
	for (size_t i = 0; i < nodes.size(); i++) {
		if ((long)nodes.size() > maxnodes || par::out_of_time()) { node_capped = true; break; }
		base = nodes[i].snap; path_of(i); E.load(base); JM *m = M(); u16 lap0 = m->lap;
		if (lap0 != 0xffff && lap0 >= max_laps) continue;
		for (char k : {'E', 'D', 'R', 'X'}) {
			rewind_to_base();
			if ((k == 'D' && !M()->n) || ((k == 'X' || (k == 'R' && !sh_j_is_clean(E.map()))) && M()->nx + M()->gen >= max_dist)) continue;
			if (go({k, {}})) add_node(i, path.back());
			if (par::stop_all) return false;
			if (k == 'E' && want_cr && ((JM *)(base.data() + E.o_model))->gen < max_gen && ((JM *)(base.data() + E.o_model))->gen + ((JM *)(base.data() + E.o_model))->nx < max_dist) {
				std::vector<u8> ty = op_muts;
				for (u32 q = 0; q < ty.size(); q++) { u8 a[4]; int na = alts_of(ty[q], true, a);
					for (int z = 0; z < na; z++) { rewind_to_base(); if (go({'E', {{q, a[z], 0}}})) add_node(i, path.back()); if (par::stop_all) return false; } } } } }
	return true; }

// a refused enqueue works again once a block's worth of pages has been dequeued from a clean journal
static bool after_full(bool clean) {
	if (!clean) { if (!go({'R', {}})) return false; }
	for (u32 i = 0; i < 2 * upb() + 1 && M()->n; i++) if (!go({'D', {}})) return false;
	return go({'Z', {}}); }
static bool seqs(int depth) {
	std::vector<u8> here; E.save(here); auto p0 = path;
	for (char k : {'E', 'N', 'F', 'K', 'k', 'D', 'X', 'R'}) {
		E.load(here); path = p0; if (k == 'D' && !M()->n) continue;
		bool wc = sh_j_is_clean(E.map());
		bool ok = go({k, {}}); if (par::stop_all) return false; if (was_full && k == 'E') { after_full(wc); if (par::stop_all) return false; }
		if (!ok) continue; par::cnt[c_seq]++;
		if (depth > 1 && !seqs(depth - 1)) return false; }
	return true; }
// after a power loss: fill until clean again, resume, go on
static bool after_crash() {
	for (int i = 0; i < 2 * E.ppc + 2; i++) {
		while (M()->n > upb() * (E.c.nb - E.c.bad.size() - 1) / 2) if (!go({'D', {}})) return false;
		if (!go({'E', {}})) { if (par::stop_all) return false; 
			if (was_full && M()->n) { while (M()->n) if (!go({'D', {}})) return false; if (!go({'R', {}})) return false; continue; }
			return false; }
		if (sh_j_is_clean(E.map()) && !go({'R', {}})) return false; }
	return true; }
static std::unordered_set<u64> crash_seen;
static bool crashes(int depth, const char *ops) {
	std::vector<u8> here; E.save(here); auto p0 = path;
	for (const char *k = ops; *k; k++) {
		E.load(here); path = p0; go({*k, {}}); if (par::stop_all) return false;
		std::vector<u8> ty = op_muts;
		for (u32 q = 0; q < ty.size(); q++) { u8 a[4]; int na = alts_of(ty[q], true, a);
			for (int z = 0; z < na; z++) {
				E.load(here); path = p0; bool o = go({*k, {{q, a[z], 0}}}); if (par::stop_all) return false; if (!o) continue;
				if (!crash_seen.insert(state_hash()).second) continue;
				if (depth > 1) { if (!crashes(depth - 1, ops)) return false; }
				else { after_crash(); if (par::stop_all) return false; } } } }
	return true; }
static bool churn(int steps) { u32 cap = upb() * (E.c.nb - E.c.bad.size() > 3 ? E.c.nb - E.c.bad.size() - 3 : 1);
	for (int i = 0; i < steps; i++) {
		while (M()->n > cap / 2) if (!go({'D', {}})) return false;
		if (!go({'E', {}})) return false;
		if (i % 7 == 3 && sh_j_is_clean(E.map()) && !go({'R', {}})) return false; }
	return true; }
static bool faults(int depth, Plan p, u32 from) {
	std::vector<u8> here = base; (void)from;
	rewind_to_base(); bool ok = go({'E', p}); if (par::stop_all) return false;
	std::vector<u8> ty = op_muts;
	if (!p.empty() && ok) {
		if (crash_seen.insert(state_hash()).second) {
			Step last = path.back(); (void)last;
			if (sh_j_is_clean(E.map())) { std::vector<u8> h; E.save(h); auto pp = path; if (!go({'R', {}}) && par::stop_all) return false; E.load(h); path = pp; }
			if (!churn(depth ? E.np : 2 * E.ppc) && par::stop_all) return false; } }
	else if (!p.empty() && op_hits < p.size()) return true;
	if (!depth) return true;
	u32 lo = p.empty() ? 0 : p.back().idx + 1;
	for (u32 q = lo; q < ty.size(); q++) { u8 a[4]; int na = alts_of(ty[q], false, a);
		for (int z = 0; z < na; z++) { Plan n = p; n.push_back({q, a[z], 0}); if (!faults(depth - 1, n, q)) return false; } }
	return true; }

static void body() {
	long mine = par::take(), basec = 0; const int pr = atoi(par::prop.c_str() + 1);
	for (int ci = 0; ci < (int)cfgs.size(); ci++) for (int root = 0; root < 2; root++) {
		if (par::stopping()) return;
		const bool fl = pr == 18 || pr == 8;
		if (fl ? ci < RECOV_FIRST : ci >= RECOV_FIRST && !par::thorough) continue;
		if (root && (E.c.lp > 0) && cfgs[ci].lp > 9 && !par::thorough) continue;
		if (!root_state(ci, root)) { if (par::stop_all) return; continue; }
		max_laps = (par::thorough ? 3 : 2); max_dist = par::thorough ? 2 : 1; max_gen = fl || pr == 17 || pr == 20 ? (par::thorough ? 1 : 0) : 1;
		long cap = par::thorough ? 150000 : fl ? 9000 : 25000; if (pr == 25 || pr == 27) cap = par::thorough ? 20000 : 1000;
		node_capped = false; u64 keepcnt[par::NC]; memcpy(keepcnt, par::cnt, sizeof keepcnt);
		bool exok = explore(max_gen > 0, cap); if (par::wid) memcpy(par::cnt, keepcnt, sizeof keepcnt);
		if (!exok) { if (par::stop_all) return; }
		if (par::wid == 0) { par::cnt[c_states] += nodes.size(); par::cnt[c_trunc] += node_capped; par::cnt[c_closed] += !node_capped; }
		if (getenv("MC_SHOW") && par::wid == 0) fprintf(stderr, "%s root %d: %zu states\n", cfgs[ci].name.c_str(), root, nodes.size());
		pool_mark = E.pool.n; crash_seen.clear(); long n = nodes.size();
		const long chunk = 8; long items = (n + chunk - 1) / chunk;
		while (mine < basec + items) {
			for (long i = (mine - basec) * chunk; i < std::min(n, (mine - basec + 1) * chunk); i++) {
				base = nodes[i].snap; base_i = i; path_of(i); rewind_to_base(); E.pool.release(pool_mark);
				if (pr == 17 || pr == 20 || pr == 10) seqs(par::thorough ? 3 : 2); if (pr == 25 || pr == 27) seqs(1);
				if (par::stop_all) return;
				rewind_to_base();
				if (!par::stop_all && (pr == 19 || pr == 20 || pr == 10 || pr == 25 || pr == 27)) crashes(par::thorough ? 2 : 1, par::thorough ? "ENKF" : "ENK");
				if (!par::stop_all && (fl || pr == 20 || pr == 25 || pr == 27)) faults(par::thorough ? (fl ? 3 : 2) : fl ? 2 : 1, Plan(), 0);
				if (par::stop_all) return;
				if (par::out_of_time() || par::stopping()) return; }
			std::string t = cfgs[ci].name + ":"; for (auto &s : path) { t += " "; t += s.k; for (auto &d : s.p) t += "(flash-op " + std::to_string(d.idx) + " " + alt_name[d.alt] + ")"; }
			par::sample(t); mine = par::take(); }
		basec += items; } }

static int do_replay() {
	FILE *f = fopen(par::replay.c_str(), "r"); if (!f) return 2;
	char line[2048]; int ci = 0, root = 0; std::vector<Step> st; char a[64];
	while (fgets(line, sizeof line, f)) {
		if (sscanf(line, "config %63s", a) == 1) for (size_t i = 0; i < cfgs.size(); i++) if (cfgs[i].name == a) ci = i;
		sscanf(line, "root %d", &root); char k; int off = 0;
		if (sscanf(line, "step %c%n", &k, &off) == 1) { Step s; s.k = k; char *p = line + off; unsigned i, al, rd; int n; while (sscanf(p, " %u:%u:%u%n", &i, &al, &rd, &n) == 3) { s.p.push_back({i, (u8)al, (u8)rd}); p += n; } st.push_back(s); } }
	fclose(f); par::replaying = true; par::install();
	if (!root_state(ci, root)) return par::replay_result();
	E.verbose = true;
	for (auto &s : st) { if (!run_step(s) && par::stop_all) break; }
	return par::replay_result(); }

int main(int argc, char **argv) {
	par::args(argc, argv); make();
	c_states = par::counter("states"); c_trans = par::counter("transitions"); c_exec = par::counter("executions"); c_crash = par::counter("crash_points"); c_mount = par::counter("mounts");
	c_fault = par::counter("fault_runs"); c_rec = par::counter("recovery_steps"); c_full = par::counter("journal_full_refusals"); c_seq = par::counter("leaves"); c_pruned = par::counter("pruned_other_property"); c_maxq = par::counter("max_queue_length"); c_kf = par::counter("known_finding_hits"); c_trunc = par::counter("closures_cut_at_the_state_limit"); c_closed = par::counter("closures_complete_within_lap_limit");
	int n = atoi(par::prop.c_str() + 1); wanted = T(n);
	par::write_body = [](FILE *f) { fprintf(f, "engine journal\nconfig %s\nroot %d\n", cfgs[cur_cfg].name.c_str(), cur_root); for (auto &s : path) { fprintf(f, "step %c", s.k); for (auto &d : s.p) fprintf(f, " %u:%u:%u", d.idx, d.alt, d.rd); fprintf(f, "\n"); } };
	par::running = [] { return std::string("journal operation ") + cur_k; };
	if (!par::replay.empty()) return do_replay();
	return par::run("journal", body); }
