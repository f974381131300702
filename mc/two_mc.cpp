// Two independent maps: every pair of operations, every interleaving with up to 2 (thorough: 3) context switches at
// the entry and the exit of every flash-driver call and between operations, compared call by call with solo runs.
#include "emu.hpp"
#include "par.hpp"
#include <ucontext.h>
extern "C" { extern u8 __start_dh_data[] __attribute__((weak)); extern u8 __stop_dh_data[] __attribute__((weak)); }
static int c_exec, c_states, c_trans, c_cases, c_starts;
static std::string itemdesc; static const char *doing = "?"; static u32 it_g, it_s, it_a; static int it_f;

struct TOp { char k; int a; };
struct Inst {
	Emu E; std::vector<u8> start, dat; std::vector<TOp> ops; int gc, failmut; u32 salt;
	std::vector<u64> solo; u64 solohash = 0; size_t at = 0; bool rec = false, done = false, bad = false; u32 points = 0, solopoints = 0; u64 digest = 0; u32 secs[6];
};
static Inst I[2]; static int cur = -1; static ucontext_t mainc, co[2]; static char *stk[2]; static const size_t STK = 512 << 10;
static long budget = 0; static std::string diff;
static void point() { if (cur < 0) return; I[cur].points++; if (I[cur].bad || --budget == 0) { int me = cur; swapcontext(&co[me], &mainc); } }
static void note(u64 x) {
	Inst &i = I[cur]; if (i.rec) { i.solo.push_back(x); return; }
	if (i.at >= i.solo.size() || i.solo[i.at] != x) { if (!i.bad) { char b[160]; snprintf(b, sizeof b, "map %c behaves differently from its first different flash call or result (number %zu) on when it is interleaved with the other one", 'A' + cur, i.at); if (diff.empty()) diff = b; } i.bad = true; }
	i.at++; }
static Inst *of(const void *n) { for (int k = 0; k < 2; k++) if (n == I[k].E.nand()) return &I[k]; return nullptr; }
static u64 H(u64 a, u64 b) { return Pool::mix(a ^ 0x9E3779B97F4A7C15ull, b + 0xD1B54A32D192ED03ull); }
struct Call { Inst *i; Call(const void *n, int t, u64 a, u64 b) { i = of(n); if (cur >= 0) { if (i != &I[cur] && diff.empty()) { diff = "a call for the other map's flash"; I[cur].bad = true; } note(H(H(t, a), b)); } point(); if (!i) i = &I[0]; i->E.tick(i->E.nand()); } ~Call() { point(); } };
extern "C" {
int h_is_bad(const void *n, u32 b) { Call c(n, 1, b, 0); return c.i->E.is_bad(b); }
void h_mark_bad(const void *n, u32 b) { Call c(n, 2, b, 0); c.i->E.mark_bad(b); }
int h_erase(const void *n, u32 b) { Call c(n, 3, b, 0); return c.i->E.erase(b); }
int h_prog(const void *n, u32 p, const u8 *d) { Inst *i = of(n); Call c(n, 4, p, i ? Pool::hash(d, i->E.psz) : 0); return c.i->E.prog(p, d); }
int h_is_free(const void *n, u32 p) { Call c(n, 5, p, 0); return c.i->E.is_free(p); }
int h_read(const void *n, u32 p, size_t o, size_t l, u8 *d) { Call c(n, 6, p, o << 32 | l); return c.i->E.read(p, o, l, d); }
int h_copy(const void *n, u32 s, u32 d) { Call c(n, 7, s, d); return c.i->E.copy(s, d); }
}
static void fill(Inst &i, u32 v) { for (u32 q = 0; q < i.E.psz; q++) i.dat[q] = (v * 2654435761u + q * 97 + i.salt) >> 7; }
static int api(Inst &i, const TOp &o, int *err) {
	void *m = i.E.map(); u32 s = i.secs[o.a % 6], loc = 0; int r = 0; *err = 0;
	switch (o.k) {
	case 'W': fill(i, 5000 + o.a); r = sh_map_write(m, s, i.dat.data(), err); break;
	case 'T': r = sh_map_trim(m, s, err); break;
	case 'R': memset(i.dat.data(), 0x5a, i.E.psz); r = sh_map_read(m, s, i.dat.data(), err); i.digest = H(i.digest, Pool::hash(i.dat.data(), i.E.psz)); break;
	case 'F': r = sh_map_find(m, s, &loc, err); i.digest = H(i.digest, loc); break;
	case 'Y': r = sh_map_copy_sector(m, s, i.secs[(o.a + 4) % 6], err); break;
	case 'G': r = sh_map_gc(m, err); break;
	case 'S': r = sh_map_sync(m, err); break;
	case 'C': sh_map_clear(m); break;
	case 'M': sh_map_init(m, i.E.nand(), i.E.buf(), i.gc); r = sh_map_resume(m, err); break; }
	i.digest = H(i.digest, H(sh_map_size(m), sh_map_capacity(m))); return r; }
static void body(int k) {
	Inst &i = I[k];
	for (size_t n = 0; n < i.ops.size() && !i.bad; n++) {
		int err = 0, r = 0; Plan p; if (i.failmut >= 0 && n == 0) p.push_back({(u32)i.failmut, FAIL_ECC, 0});
		point(); i.E.begin(p);
		if (!sigsetjmp(i.E.jb, 0)) r = api(i, i.ops[n], &err); else { i.bad = true; if (diff.empty()) diff = "an operation does not terminate when interleaved with the other map"; }
		i.E.counting = false; note(H(H(r, err), i.digest)); if (i.bad) break; }
	i.done = true; for (;;) swapcontext(&co[k], &mainc); }
static u8 *sp; static size_t ss; static std::vector<u8> stat0;
static void prep(int k) { Inst &i = I[k]; i.E.load(i.start); i.at = 0; i.done = i.bad = false; i.points = 0; i.digest = 0;
	getcontext(&co[k]); co[k].uc_stack.ss_sp = stk[k]; co[k].uc_stack.ss_size = STK; co[k].uc_link = nullptr; makecontext(&co[k], (void (*)())body, 1, k); }
static void resume(int k, long n) { cur = k; budget = n; swapcontext(&mainc, &co[k]); cur = -1; }
static u64 state(int k) { Inst &i = I[k]; return Pool::hash(i.E.A() + i.E.o_map, i.E.o_model - i.E.o_map); }
static bool solo(int k) {
	Inst &i = I[k]; if (ss) memcpy(sp, stat0.data(), ss); i.solo.clear(); i.rec = true; prep(k); resume(k, 1 << 30); i.rec = false;
	if (!i.done || i.bad) return false;
	i.solopoints = i.points; i.solohash = state(k); return true; }
struct Seg { int k; long n; };
static bool run(const std::vector<Seg> &s) {
	par::cnt[c_exec]++; par::progress++; diff.clear(); if (ss) memcpy(sp, stat0.data(), ss); prep(0); prep(1);
	for (auto &x : s) { if (I[x.k].done) continue; resume(x.k, x.n); if (!diff.empty()) break; }
	if (diff.empty()) for (int k = 0; k < 2; k++) { if (!I[k].done) diff = "a task did not finish"; else if (state(k) != I[k].solohash) diff = std::string("map ") + (char)('A' + k) + " ends in a different state than alone"; else if (I[k].at != I[k].solo.size()) diff = "a map issued fewer flash calls than alone"; }
	if (!diff.empty()) { std::string t; for (auto &x : s) t += std::string(1, 'A' + x.k) + (x.n >= 1 << 30 ? "*" : std::to_string(x.n)) + " "; return par::fail("%s [%s; schedule %s]", diff.c_str(), itemdesc.c_str(), t.c_str()); }
	return true; }

struct Geo { int lp, lb; u32 nb; int gc; };
static const Geo geos[][2] = {{{9, 2, 24, 4}, {9, 2, 24, 4}}, {{9, 2, 26, 1}, {11, 4, 14, 4}}, {{8, 1, 50, 4}, {9, 3, 20, 4}}};
static const char *names = "WTRFYGSCM";
static bool make_start(int k, const Geo &g, u32 n, u32 salt) {
	Inst &i = I[k]; Config c; c.lp = g.lp; c.lb = g.lb; c.nb = g.nb; c.gc = g.gc; c.name = "t"; if (k && g.nb > 15) c.bad = {3};
	i.E.setup(c, 16, sh_map_sizeof(), sp, 0); i.gc = g.gc; i.salt = salt; i.dat.assign(i.E.psz, 0); i.failmut = -1;
	static const u32 sa[] = {0, 1, 5, 4, 2, 9}, sb[] = {0x80000000u, 7, 1, 0xfffffffeu, 0x4000, 6}; memcpy(i.secs, k ? sb : sa, sizeof i.secs);
	i.E.power_off(0xA5); i.E.begin(Plan()); int err; sh_map_init(i.E.map(), i.E.nand(), i.E.buf(), i.gc); sh_map_resume(i.E.map(), &err);
	for (u32 q = 0; q < n; q++) { fill(i, q + 1); int r = q % 9 == 8 ? sh_map_trim(i.E.map(), i.secs[q % 4], &err) : sh_map_write(i.E.map(), i.secs[(q * 3) % 4], i.dat.data(), &err); if (r < 0) return false; }
	i.E.counting = false; i.E.save(i.start); par::cnt[c_starts]++; return true; }
static int nfail() { return 3; }
static bool item(u32 g, u32 s, u32 a, int f) {
	it_g = g; it_s = s; it_a = a; it_f = f; doing = "interleaving"; par::progress++;
	u32 lap = geos[g][0].nb << geos[g][0].lb; if (!make_start(0, geos[g][0], 7 + s * 5 + s * lap / 7, 11) || !make_start(1, geos[g][1], 9 + s * 3 + s * s * 7, 900)) return true;
	int no = strlen(names);
	for (int b = 0; b < no; b++) for (int alen = 1; alen <= (par::thorough ? 2 : 1); alen++) {
		I[0].ops = {{names[a], 1}}; if (alen == 2) I[0].ops.push_back({'R', 0}); I[1].ops = {{names[b], 2}}; I[0].failmut = f - 1; I[1].failmut = -1;
		itemdesc = std::string("A: ") + names[a] + (alen == 2 ? " then R" : "") + (f ? " with a failing flash operation" : "") + ", B: " + names[b] + ", geometry pair " + std::to_string(g) + ", start " + std::to_string(s);
		if (!solo(0) || !solo(1)) { if (f) continue; return par::fail("an operation fails to finish alone [%s]", itemdesc.c_str()); }
		if (f && I[0].E.devs_hit == 0) continue;
		par::cnt[c_cases]++; const long INF = 1 << 30;
		for (int first = 0; first < 2; first++) { int sec = 1 - first; long nf = I[first].solopoints, ns = I[sec].solopoints;
			for (long i = 1; i <= nf; i++) for (long j = 1; j <= ns; j++) {
				par::cnt[c_states]++; par::cnt[c_trans] += 3;
				if (!run({{first, i}, {sec, j}, {first, INF}, {sec, INF}})) return false;
				if (par::thorough && nf * ns <= 4000 && alen == 1) for (long k = 1; k <= nf - i; k++) { par::cnt[c_states]++; par::cnt[c_trans] += 4; if (!run({{first, i}, {sec, j}, {first, k}, {sec, INF}, {first, INF}})) return false; }
				if (par::sh && par::sh->viol) return false; }
			if (par::out_of_time()) return true; } }
	par::sample(itemdesc + ": all schedules with two switches"); return true; }
int main(int argc, char **argv) {
	par::args(argc, argv);
	c_cases = par::counter("cases"); c_trans = par::counter("transitions"); c_exec = par::counter("executions"); c_states = par::counter("states"); c_starts = par::counter("start_states");
	sp = __start_dh_data; ss = sp ? (size_t)(__stop_dh_data - sp) : 0; stat0.assign(sp, sp + ss); for (int k = 0; k < 2; k++) stk[k] = (char *)malloc(STK);
	par::write_body = [](FILE *f) { fprintf(f, "engine two\nitem %u %u %u %d\n", it_g, it_s, it_a, it_f); };
	par::running = [] { return itemdesc; };
	if (!par::replay.empty()) { FILE *f = fopen(par::replay.c_str(), "r"); if (!f) return 2; char l[1024]; u32 g = 0, s = 0, a = 0; int fl = 0; bool have = false; while (fgets(l, sizeof l, f)) have |= sscanf(l, "item %u %u %u %d", &g, &s, &a, &fl) == 4; fclose(f); par::replaying = true; par::t0 = par::now(); par::install(); if (have) item(g, s, a, fl); return par::replay_result(); }
	return par::run("two", [] { u32 ns = par::thorough ? 12 : 5, no = strlen(names), tot = 3 * ns * no * (1 + nfail());
		for (long k; !par::stopping() && (k = par::take()) < (long)tot;) { u32 x = k; u32 f = x % (1 + nfail()); x /= 1 + nfail(); u32 a = x % no; x /= no; u32 s = x % ns; x /= ns; double t = par::now(); item(x, s, a, f); if (getenv("MC_SHOW")) fprintf(stderr, "%u %u %u %u: %.2f\n", x, s, a, f, par::now() - t); } });
}
