#include "sx.h"
#include <atomic>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
extern "C" { FILE* __real_fopen(const char*, const char*); int __real_fileno(FILE*); }   // the engine itself is outside the modelled environment
#define fopen __real_fopen
#undef fileno
#define fileno __real_fileno

void sx_env_init();
extern "C" size_t __sanitizer_get_current_allocated_bytes() __attribute__((weak));
extern "C" void __asan_set_error_report_callback(void (*)(const char*)) __attribute__((weak));
static const int MAXW = 64, MAXV = 4000, IPRE = 250, QN = 4096;
struct Item { uint32_t len, lo, hi; uint16_t pre[IPRE]; };
struct Slot { std::atomic<double> start; std::atomic<uint32_t> n; uint16_t v[MAXV]; char msg[4000]; std::atomic<long> execs, ops; std::atomic<uint32_t> maxlen; };
struct Known { char id[64]; char msg[1500]; long count; };
struct Shared {
    pthread_mutex_t mu; int qh, qn, idle, nw; std::atomic<int> stop; Item q[QN];
    std::atomic<int> hungry;
    Slot slot[MAXW]; Known known[32]; int nknown;
    std::atomic<long> states; std::atomic<long> tabfull; char sample[12][600]; std::atomic<int> nsample;
};
static Shared* S; static const size_t TB = 1u << 23; static std::atomic<uint64_t>* T;
static std::vector<SxSuite>& suites() { static std::vector<SxSuite> v; return v; }
SxReg::SxReg(const char* n, void (*f)(), double q, double t, unsigned fl) { suites().push_back(SxSuite{n, f, q, t, fl}); }
static bool g_thorough, g_trace, g_confirm, g_verbose; static FILE* g_tf; static int g_w; static const SxSuite* g_suite;
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double)t.tv_sec + t.tv_nsec * 1e-9; }
bool sx_thorough() { return g_thorough; } bool sx_tracing() { return g_trace; }
std::string sx_fmt(const char* f, ...) { va_list ap; va_start(ap, f); char* p = nullptr; if (vasprintf(&p, f, ap) < 0) p = nullptr; va_end(ap); std::string s = p ? p : ""; free(p); return s; }
std::string sx_esc(const std::string& s, size_t max) {
    std::string r; for (size_t i = 0; i < s.size() && r.size() < max; i++) { unsigned char c = (unsigned char)s[i]; if (c == '\n') r += "\\n"; else if (c == '\\') r += "\\\\"; else if (c >= 32 && c < 127) r += (char)c; else r += sx_fmt("\\x%02x", c); }
    if (r.size() >= max) r += sx_fmt("...(%zu bytes)", s.size()); return r;
}
uint64_t sx_hash(const void* p, size_t n, uint64_t h) { const unsigned char* b = (const unsigned char*)p; for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 1099511628211ULL; } h ^= h >> 29; return h; }

struct Ch { uint16_t c; uint32_t n, lim; };
static std::vector<Ch> g_st; static size_t g_pos; static std::vector<uint16_t> g_fixed; static bool g_usefixed; static uint32_t g_firstlim; static size_t g_base;
int sx_choose(int n) {
    if (n <= 0) { fprintf(stderr, "sx_choose(%d)\n", n); _exit(99); }
    if (n > 65535) { fprintf(stderr, "sx_choose(%d) too many\n", n); _exit(99); }
    Slot& s = S->slot[g_w];
    if (g_usefixed) { int c = g_pos < g_fixed.size() ? g_fixed[g_pos] : 0; g_pos++; if (c >= n) { fprintf(stderr, "replay does not fit\n"); _exit(98); } return c; }
    if (g_pos == g_st.size()) { g_st.push_back(Ch{0, (uint32_t)n, (uint32_t)n}); }
    Ch& c = g_st[g_pos];
    if (c.n == 0) { c.n = (uint32_t)n; c.lim = c.lim ? std::min(c.lim, (uint32_t)n) : (uint32_t)n; }
    else if (c.n != (uint32_t)n) { fprintf(stderr, "not deterministic: choice %zu has %d alternatives, had %u\n", g_pos, n, c.n); _exit(97); }
    if (g_pos < MAXV) { s.v[g_pos] = c.c; s.n.store((uint32_t)g_pos + 1, std::memory_order_relaxed); }
    g_pos++; return c.c;
}
void sx_op(long n) { S->slot[g_w].ops.fetch_add(n, std::memory_order_relaxed); }
void sx_note(const char* f, ...) { if (!g_trace) return; va_list ap; va_start(ap, f); vfprintf(g_tf, f, ap); va_end(ap); fputc('\n', g_tf); fflush(g_tf); }
void sx_fail(const char* f, ...) {
    Slot& s = S->slot[g_w]; va_list ap; va_start(ap, f); vsnprintf(s.msg, sizeof s.msg, f, ap); va_end(ap);
    for (char* p = s.msg; *p; p++) if (*p == '\n') *p = ' ';
    if (g_trace) { fprintf(g_tf, "FAILED: %s\n", s.msg); fflush(g_tf); }
    _exit(77);
}
void sx_known(const char* id, const char* f, ...) {
    char b[1500]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); for (char* p = b; *p; p++) if (*p == '\n') *p = ' ';
    pthread_mutex_lock(&S->mu);
    int i = 0; while (i < S->nknown && strcmp(S->known[i].id, id)) i++;
    if (i == S->nknown && i < 32) { snprintf(S->known[i].id, 64, "%s", id); snprintf(S->known[i].msg, 1500, "%s", b); S->nknown++; }
    if (i < 32) S->known[i].count++;
    pthread_mutex_unlock(&S->mu);
}
bool sx_seen(uint64_t h, int rem) {
    if (g_usefixed || g_pos < g_st.size()) return false;      // states on the way to the new part were entered by an earlier execution
    if (rem > 255) rem = 255; if (rem < 0) rem = 0;
    uint64_t key = (h & ~0xffULL) | 0x100; size_t i = (size_t)((h * 0x9E3779B97F4A7C15ULL) >> 41) & (TB - 1);
    for (int k = 0; k < 64; k++, i = (i + 1) & (TB - 1)) {
        uint64_t v = T[i].load(std::memory_order_relaxed);
        if (v == 0) { if (T[i].compare_exchange_strong(v, key | (uint64_t)rem)) { S->states++; return false; } }
        if ((v & ~0xffULL) == key) { for (;;) { if ((int)(v & 0xff) >= rem) return true; if (T[i].compare_exchange_strong(v, key | (uint64_t)rem)) return false; } }
    }
    S->tabfull++; return false;
}
void sx_state(uint64_t h) { sx_seen(h, 0); }

static void* thr_main(void* a) { ((void (*)())a)(); return nullptr; }
static void exec_once() {
    env().reset(); g_pos = 0;
    if (g_suite->flags & SX_THREAD) { pthread_t t; if (pthread_create(&t, nullptr, thr_main, (void*)g_suite->fn)) { fprintf(stderr, "no thread\n"); _exit(96); } pthread_join(t, nullptr); }
    else g_suite->fn();
}
static void exec_body() {
    exec_once();
    if ((g_suite->flags & SX_LEAK) && __sanitizer_get_current_allocated_bytes) {
        static int warm = 0;    // the same execution again must not make the heap grow, once lazily built state is there
        long grow = 0; int n = warm < 3 ? 5 : 2; warm++; (void)n; size_t prev = 0; int bad = 0;
        for (int i = 0; i < 4; i++) {
            if (i && !bad && i >= 2) break;
            env().reset(); size_t a = __sanitizer_get_current_allocated_bytes(); exec_once(); env().reset(); size_t b = __sanitizer_get_current_allocated_bytes();
            (void)prev; if (b > a) { bad++; grow = (long)(b - a); } else { bad = 0; if (i) break; break; }
        }
        if (bad >= 4) sx_fail("every repetition of this history leaves %ld more bytes allocated", grow);
    }
}
static void donate() {
    // hand the untried alternatives of the shallowest open choice to an idle worker
    if (S->hungry.load(std::memory_order_relaxed) <= 0) return;
    for (size_t d = g_base; d < g_st.size() && d < (size_t)IPRE; d++) {
        Ch& c = g_st[d]; if (c.c + 1u >= c.lim) continue;
        pthread_mutex_lock(&S->mu);
        if (S->qn < S->idle && S->qn < QN) {
            uint32_t lo = c.c + 1, mid = lo + (c.lim - lo) / 2; if (mid >= c.lim) mid = lo; // keep the first part
            if (c.lim - lo >= 1) {
                Item& it = S->q[(S->qh + S->qn) % QN]; it.len = (uint32_t)d; for (size_t k = 0; k < d; k++) it.pre[k] = g_st[k].c; it.lo = mid; it.hi = c.lim; c.lim = mid; S->qn++;
            }
        }
        pthread_mutex_unlock(&S->mu); return;
    }
}
static bool pop(Item& it) {
    pthread_mutex_lock(&S->mu); S->idle++; S->hungry++;
    for (;;) {
        if (S->stop) break;
        if (S->qn) { it = S->q[S->qh]; S->qh = (S->qh + 1) % QN; S->qn--; S->idle--; S->hungry--; pthread_mutex_unlock(&S->mu); return true; }
        if (S->idle == S->nw) break;
        pthread_mutex_unlock(&S->mu); usleep(300); pthread_mutex_lock(&S->mu);
    }
    pthread_mutex_unlock(&S->mu); return false;
}
static void worker() {
    Slot& s = S->slot[g_w]; Item it;
    while (pop(it)) {
        g_st.clear(); g_base = it.len;
        for (uint32_t k = 0; k < it.len; k++) g_st.push_back(Ch{it.pre[k], 0, it.pre[k] + 1u});
        g_st.push_back(Ch{(uint16_t)it.lo, 0, it.hi}); bool rooted = it.hi != 0;
        if (!rooted) g_st.pop_back();
        for (;;) {
            s.n = 0; s.start = now(); exec_body(); s.start = 0; s.execs++;
            if (g_pos > s.maxlen) s.maxlen = (uint32_t)g_pos;
            if (g_pos < g_st.size()) { fprintf(stderr, "not deterministic: %zu choices made, %zu expected\n", g_pos, g_st.size()); _exit(97); }
            if (s.execs <= 1 && S->nsample < 12) { int i = S->nsample++; if (i < 12) { std::string v = std::string(g_suite->name) + ":"; for (size_t k = 0; k < g_st.size() && k < 60; k++) v += sx_fmt("%s%u", k ? "," : "", g_st[k].c); snprintf(S->sample[i], 600, "%s", v.c_str()); } }
            if (S->stop) return;
            donate();
            while (g_st.size() > g_base && g_st.back().c + 1u >= g_st.back().lim) g_st.pop_back();
            if (g_st.size() <= g_base) break;
            g_st.back().c++;
        }
    }
}
static std::string vec_str(const std::vector<uint16_t>& v) { std::string s; for (size_t i = 0; i < v.size(); i++) s += sx_fmt("%s%u", i ? "," : "", v[i]); return s; }
// run one vector in a fresh process. returns 0 fine, 1 failed, 2 died, 3 hung
static int run_vector(const std::vector<uint16_t>& v, const std::string& tracefile, std::string& msg, double limit) {
    g_w = MAXW - 1; S->slot[g_w].msg[0] = 0; fflush(stderr);
    pid_t p = fork();
    if (p == 0) {
        setpgid(0, 0); g_trace = true; g_tf = fopen(tracefile.c_str(), "a"); int fd = fileno(g_tf); dup2(fd, 2); dup2(fd, 1);
        g_fixed = v; g_usefixed = true; sx_env_init(); exec_body(); fflush(stderr); _exit(0);
    }
    double t0 = now(); int st = 0;
    while (waitpid(p, &st, WNOHANG) == 0) { if (now() - t0 > limit) { kill(p, SIGKILL); waitpid(p, &st, 0); msg = sx_fmt("does not end (stopped after %.0f s)", limit); return 3; } usleep(2000); }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return 0;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 77) { msg = S->slot[g_w].msg; return 1; }
    if (WIFEXITED(st) && WEXITSTATUS(st) >= 96 && WEXITSTATUS(st) <= 99) { msg = sx_fmt("engine status %d", WEXITSTATUS(st)); return 9; }
    msg = WIFSIGNALED(st) ? sx_fmt("crashed: signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st))) : sx_fmt("crashed: exit status %d", WEXITSTATUS(st));
    FILE* f = fopen(tracefile.c_str(), "r"); char b[600]; if (f) { while (fgets(b, sizeof b, f)) { char* q; if ((q = strstr(b, "ERROR: AddressSanitizer")) || (q = strstr(b, "runtime error:")) || (q = strstr(b, "terminate called")) || (q = strstr(b, "what():"))) { b[strcspn(b, "\n")] = 0; msg += std::string(" - ") + q; break; } } fclose(f); }
    return 2;
}
int main(int argc, char** argv) {
    std::string out, rdir = ".", only, replay; const char* tier = getenv("VERIF_TIER"); g_thorough = tier && !strcmp(tier, "thorough"); int nw = (int)sysconf(_SC_NPROCESSORS_ONLN); if (nw > 8) nw = 8; if (nw < 2) nw = 2;
    double scale = 1;
    for (int i = 1; i < argc; i++) { std::string a = argv[i];
        if (a == "--out" && i + 1 < argc) out = argv[++i]; else if (a == "--rdir" && i + 1 < argc) rdir = argv[++i]; else if (a == "--only" && i + 1 < argc) only = argv[++i];
        else if (a == "--replay" && i + 1 < argc) replay = argv[++i]; else if (a == "--thorough") g_thorough = true; else if (a == "-v") g_verbose = true; else if (a == "-j" && i + 1 < argc) nw = atoi(argv[++i]); else if (a == "--scale" && i + 1 < argc) scale = atof(argv[++i]);
        else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 2; } }
    setenv("TZ", "UTC0", 1); tzset();
    std::string prog = argv[0]; prog = prog.substr(prog.rfind('/') + 1);
    T = (std::atomic<uint64_t>*)mmap(nullptr, TB * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    S = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if ((void*)T == MAP_FAILED || (void*)S == MAP_FAILED) return 2;
    pthread_mutexattr_t at; pthread_mutexattr_init(&at); pthread_mutexattr_setpshared(&at, PTHREAD_PROCESS_SHARED); pthread_mutex_init(&S->mu, &at);
    if (!replay.empty()) {          // --replay <file written by a violation>
        FILE* f = fopen(replay.c_str(), "r"); if (!f) return 2; char b[70000]; std::vector<uint16_t> v; std::string sn;
        while (fgets(b, sizeof b, f)) { if (!strncmp(b, "suite: ", 7)) { b[strcspn(b, "\n")] = 0; sn = b + 7; } if (!strncmp(b, "choices: ", 9)) for (char* p = strtok(b + 9, ",\n "); p; p = strtok(nullptr, ",\n ")) v.push_back((uint16_t)atoi(p)); }
        fclose(f); for (auto& s : suites()) if (sn == s.name) g_suite = &s; if (!g_suite) return 2;
        std::string m; std::string tf = "/dev/stderr"; int r = run_vector(v, tf, m, 30); fprintf(stderr, "replay: %s\n", r ? m.c_str() : "no failure"); return r ? 1 : 0;
    }
    long t_ex = 0, t_op = 0; int rc = 0; std::string js, samples; bool allc = true; double tall = now();
    for (auto& su : suites()) {
        if (!only.empty() && only != su.name) continue;
        if ((su.flags & SX_THOROUGH) && !g_thorough) continue;
        for (int attempt = 0;; attempt++) {
        g_suite = &su; double cap = (g_thorough ? su.thorough_s : su.quick_s) * scale, t0 = now();
        memset((void*)S->slot, 0, sizeof S->slot); S->qh = 0; S->qn = 1; S->idle = 0; S->hungry = 0; S->nw = nw; S->stop = 0; S->q[0].len = 0; S->q[0].lo = 0; S->q[0].hi = 0;
        pthread_mutex_init(&S->mu, &at); long st0 = S->states; pid_t pid[MAXW]; fflush(stdout); fflush(stderr);
        if (st0 || attempt) { for (size_t i = 0; i < 1; i++) { madvise((void*)T, TB * 8, MADV_REMOVE); memset((void*)T, 0, TB * 8); } }
        for (int w = 0; w < nw; w++) { pid[w] = fork(); if (pid[w] == 0) { g_w = w; int nul = open("/dev/null", O_WRONLY); dup2(nul, 1); if (!g_verbose) { std::string ef = sx_fmt("seqx-stderr-%d.txt", w); int e = open(ef.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); if (e >= 0) dup2(e, 2); } sx_env_init(); worker(); _exit(0); } }
        int live = nw, badw = -1, bads = 0; bool hang = false, capped = false;
        while (live > 0) {
            int st; pid_t p = waitpid(-1, &st, WNOHANG);
            if (p > 0) { for (int w = 0; w < nw; w++) if (pid[w] == p) { pid[w] = 0; live--; if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { badw = w; bads = st; } } if (badw >= 0) break; continue; }
            double n = now(); for (int w = 0; w < nw; w++) { double s = S->slot[w].start; if (pid[w] && s > 0 && n - s > 20) { badw = w; hang = true; } } if (badw >= 0) break;
            if (!capped && n - t0 > cap) { S->stop = 1; capped = true; }
            usleep(3000);
        }
        if (badw >= 0) S->stop = 1;
        for (int w = 0; w < nw; w++) if (pid[w]) { kill(pid[w], SIGKILL); waitpid(pid[w], nullptr, 0); }
        long ex = 0, op = 0; unsigned ml = 0; for (int w = 0; w < nw; w++) { ex += S->slot[w].execs; op += S->slot[w].ops; ml = std::max(ml, (unsigned)S->slot[w].maxlen); }
        if (badw >= 0) {
            Slot& s = S->slot[badw]; std::vector<uint16_t> v(s.v, s.v + std::min<uint32_t>(s.n, MAXV)); std::string first = s.msg, msg;
            int code = WIFEXITED(bads) ? WEXITSTATUS(bads) : -1;
            if (!hang && code >= 96 && code <= 99) { printf("ERROR %s: engine status %d\n", su.name, code); std::string ef = sx_fmt("cat seqx-stderr-%d.txt", badw); (void)!system(ef.c_str()); return 2; }
            if (!hang && WIFSIGNALED(bads) && WTERMSIG(bads) == SIGKILL) { printf("ERROR %s: a worker was killed\n", su.name); return 2; }
            std::string f = rdir + "/" + prog + "-" + su.name + ".txt"; int r = 0;
            for (int k = 0; k < (hang ? 1 : 4) && r == 0; k++) {
                FILE* h = fopen(f.c_str(), "w"); if (h) { fprintf(h, "program: %s\nsuite: %s\nchoices: %s\n(rerun: %s --replay <this file>)\n\n", prog.c_str(), su.name, vec_str(v).c_str(), prog.c_str()); fclose(h); }
                r = run_vector(v, f, msg, 40);
            }
            if (r == 9) { printf("ERROR %s: %s\n", su.name, msg.c_str()); return 2; }
            // nothing is left to chance but the threads of the code under test and the machine's load: a failure that its own history does not show again counts if the suite shows one three times
            if (r == 0 && attempt < 2) { printf("NOTE %s: %s (not seen again when the same history was run alone: the suite is repeated)\n", su.name, hang ? "an execution took over 20 s" : first.empty() ? "crashed" : first.c_str()); fflush(stdout); continue; }
            if (r == 0 && hang) { printf("ERROR %s: an execution took over 20 s and did not when run again\n", su.name); return 2; }
            if (r == 0) { msg = (first.empty() ? "crashed" : first) + " (not seen again when the same history was run alone)"; FILE* h = fopen(f.c_str(), "a"); if (h) { fprintf(h, "%s\n", msg.c_str()); fclose(h); } }
            printf("%s: %s\n", su.name, msg.c_str()); printf("VIOLATION property=%s replay=%s\n", [&] { size_t k = rdir.rfind('/'); return rdir.substr(k == std::string::npos ? 0 : k + 1); }().c_str(), f.c_str());
            rc = 1; t_ex += ex; t_op += op; break;
        }
        bool complete = !capped; if (capped) { complete = true; /* may have finished just then */ if (S->qn) complete = false; else for (int w = 0; w < nw; w++) if (1) { complete = false; } }
        allc = allc && complete; t_ex += ex; t_op += op;
        printf("%-28s executions=%ld operations=%ld states=%ld longest=%u %s %.1fs\n", su.name, ex, op, S->states - st0, ml, complete ? "complete" : "TIME CAP", now() - t0); fflush(stdout);
        js += sx_fmt("%s{\"suite\":\"%s\",\"executions\":%ld,\"operations\":%ld,\"distinct_states\":%ld,\"longest_choice_vector\":%u,\"complete\":%s,\"seconds\":%.1f}", js.empty() ? "" : ",", su.name, ex, op, (long)(S->states - st0), ml, complete ? "true" : "false", now() - t0);
        break; }
        if (rc) break;
    }
    for (int i = 0; i < S->nknown; i++) printf("KNOWN %s %s (%ld times)\n", S->known[i].id, S->known[i].msg, S->known[i].count);
    int ns = std::min<int>(S->nsample, 12); for (int i = 0; i < ns; i++) samples += sx_fmt("%s\"%s\"", i ? "," : "", S->sample[i]);
    if (!out.empty()) { FILE* f = fopen(out.c_str(), "w"); if (f) { fprintf(f, "{\"states\":%ld,\"transitions\":%ld,\"executions\":%ld,\"complete_executions\":%ld,\"complete\":%s,\"seconds\":%.1f,\"table_full\":%ld,\"suites\":[%s],\"samples\":[%s]}\n", std::max<long>(S->states, 0) + (S->states ? 0 : t_ex), t_op, t_ex, t_ex, allc ? "true" : "false", now() - tall, (long)S->tabfull, js.c_str(), samples.c_str()); fclose(f); } }
    return rc;
}
