// Worker processes, crash trapping, counters, replay files: common to the explorers.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <cstdarg>
#include <string>
#include <vector>
#include <functional>
#include <atomic>
#include <csignal>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <unistd.h>
namespace par {
static const int NC = 24;
static const char *cname[NC]; static int ncnt = 0;                 // counter names, registered before forking
static uint64_t cnt[NC];
struct Sh { std::atomic<long> next; std::atomic<int> viol; uint64_t cnt[64][NC]; char msg[64][700]; char sample[64][600]; int capped[64]; char kf[64][8][96]; };
static Sh *sh; static int wid = 0;
static std::string vmsg, outdir = ".", prop, replay; static bool stop_all = false, replaying = false, thorough = false, capped = false;
static double limit = 780, t0; static int workers = 8; static uint64_t progress = 0; static char sigfile[600];
static std::function<void(FILE *)> write_body; static std::function<std::string()> running;
static std::vector<std::string> extra;
static int counter(const char *n) { cname[ncnt] = n; return ncnt++; }
static double now() { struct timeval tv; gettimeofday(&tv, nullptr); return tv.tv_sec + tv.tv_usec * 1e-6; }
static bool fail(const char *fmt, ...) { char b[600]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); if (!stop_all) { vmsg = b; stop_all = true; } return false; }
static void save_replay() { FILE *f = fopen(sigfile, "w"); if (!f) return; fprintf(f, "prop %s\n# %s\n", prop.c_str(), vmsg.c_str()); if (write_body) write_body(f); fclose(f); }
static void on_crash(int sig) {
	if (!stop_all) { char b[300]; snprintf(b, sizeof b, "the code crashed with signal %d during %s", sig, running ? running().c_str() : "?"); vmsg = b; stop_all = true; }
	if (replaying) { printf("REPRODUCED %s\n", vmsg.c_str()); fflush(stdout); _exit(1); }
	save_replay(); snprintf(sh->msg[wid], 700, "%s", vmsg.c_str()); sh->viol = 1; _exit(3); }
static void on_tick(int) { static uint64_t last = ~0ull; static int ticks = 0;
	if (progress == last) { if (++ticks >= 5) { if (!stop_all) { vmsg = "a call does not terminate: " + (running ? running() : std::string()); stop_all = true; } on_crash(SIGVTALRM); } } else { last = progress; ticks = 0; } }
static void install() {
	static char stk[1 << 16]; stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = stk; ss.ss_size = sizeof stk; sigaltstack(&ss, nullptr);
	struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_crash; sa.sa_flags = SA_ONSTACK;
	for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) sigaction(s, &sa, nullptr);
	sa.sa_handler = on_tick; sigaction(SIGVTALRM, &sa, nullptr);
	struct itimerval it = {{2, 0}, {2, 0}}; setitimer(ITIMER_VIRTUAL, &it, nullptr); }
static void args(int argc, char **argv) {
	setvbuf(stdout, nullptr, _IOLBF, 0);
	for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
		if (a == "--prop") prop = nx(); else if (a == "--thorough") thorough = true; else if (a == "--workers") workers = atoi(nx().c_str());
		else if (a == "--out") outdir = nx(); else if (a == "--replay") replay = nx(); else if (a == "--limit") limit = atof(nx().c_str()); else extra.push_back(a); } }
static void known(const char *sig) { if (!sh) return; for (int i = 0; i < 8; i++) { if (!sh->kf[wid][i][0]) { snprintf(sh->kf[wid][i], 96, "%s", sig); return; } if (!strcmp(sh->kf[wid][i], sig)) return; } }
static bool out_of_time() { if (now() - t0 > limit) capped = true; return capped; }
static bool stopping() { return stop_all || sh->viol || capped; }
static long take() { return sh->next++; }
static void sample(const std::string &s) { if (sh) snprintf(sh->sample[wid], 600, "%s", s.c_str()); }
// body() runs in every worker; work is shared out with take()
static int run(const char *engine, std::function<void()> body, const std::string &json = "") {
	sh = (Sh *)mmap(nullptr, sizeof(Sh), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); t0 = now(); fflush(stdout);
	for (int w = 0; w < workers; w++) if (!fork()) {
		wid = w; snprintf(sigfile, sizeof sigfile, "%s/%s-%s.w%d.replay", outdir.c_str(), prop.c_str(), engine, w); unlink(sigfile); install();
		body(); memcpy(sh->cnt[w], cnt, sizeof cnt); sh->capped[w] = capped;
		if (stop_all) { save_replay(); snprintf(sh->msg[w], 700, "%s", vmsg.c_str()); sh->viol = 1; fflush(stdout); _exit(3); }
		fflush(stdout); _exit(0); }
	int stw, bad = 0; while (wait(&stw) > 0) { if (WIFSIGNALED(stw)) bad = WTERMSIG(stw); }
	bool cp = false; int vw = -1; for (int w = 0; w < workers; w++) { cp |= !!sh->capped[w]; if (sh->msg[w][0] && vw < 0) vw = w; }
	printf("RESULT {\"engine\":\"%s\"", engine);
	for (int i = 0; i < ncnt; i++) { uint64_t s = 0; bool mx = !strncmp(cname[i], "max_", 4); for (int w = 0; w < workers; w++) s = mx ? std::max(s, sh->cnt[w][i]) : s + sh->cnt[w][i]; printf(",\"%s\":%lu", cname[i], s); }
	printf("%s,\"capped\":%s,\"wall\":%.1f}\n", json.c_str(), cp ? "true" : "false", now() - t0);
	for (int w = 0; w < workers && w < 3; w++) if (sh->sample[w][0]) printf("SAMPLE %s\n", sh->sample[w]);
	for (int w = 0; w < workers; w++) for (int i = 0; i < 8; i++) if (sh->kf[w][i][0]) printf("KNOWN %s\n", sh->kf[w][i]);
	if (vw >= 0) { printf("FOUND %s/%s-%s.w%d.replay %s\n", outdir.c_str(), prop.c_str(), engine, vw, sh->msg[vw]); return 1; }
	if (bad) { printf("worker killed by signal %d\n", bad); return 2; }
	return 0; }
static int replay_result() { if (stop_all) { printf("REPRODUCED %s\n", vmsg.c_str()); return 1; } printf("NOT REPRODUCED\n"); return 0; }
}
