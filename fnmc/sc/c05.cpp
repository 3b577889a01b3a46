#include "common.h"
static int g_ok, g_bad;
MC_NI static void count(int r, int bad_code) { if (r == 0) g_ok++; else if (r == bad_code) g_bad++; else mc_fail("code", "a racing start or stop returned %d instead of 0 or %d", r, bad_code); mc_outcome((unsigned)r); }
MC_NI static void need(int ok, int bad, const char* what) { if (g_ok != ok || g_bad != bad) mc_fail("winner", "%s: %d calls succeeded and %d were refused, expected %d and %d", what, g_ok, g_bad, ok, bad); g_ok = g_bad = 0; }
static void starter(void*) { int r = ParseAndStartLogger(*L, CFG_UDP1); count(r, E_LOGGER_IN_USE); }
static void starter2(void*) { int r = StartLogger(*L); count(r, E_LOGGER_IN_USE); }
static void stopper(void*) { int r = StopLogger(*L); count(r, E_LOGGER_NOT_RUNNING); }
static void works(const char* phase, int r) {   // a running logger logs
    unsigned long long before = 0; Sink s; sink_of(9001, &s); for (int i = 0; i < s.n; i++) { int q = rec_id(s.p[i], s.len[i]); if (q >= 0) before |= 1ull << q; }
    log_rec(r); mc_quiesce(); check_sink(phase, 9001, before | 1ull << r, 0);
}
MC_NI static void no_leak(const char* when) { if (mc_open_handles()) mc_fail("leak", "%s: %d files or sockets are still open", when, mc_open_handles()); if (mc_threads_alive() != 1) mc_fail("leak", "%s: %d threads are still running", when, mc_threads_alive() - 1); }
static void end() { mc_atomic_begin(); StopLogger(*L); delete L; no_leak("after the logger's destruction"); mc_atomic_end(); }

static void s_start2() {
    mc_atomic_begin(); L = new_logger(); mc_atomic_end();
    int a = mc_spawn(starter, 0), b = mc_spawn(starter, 0); mc_join(a); mc_join(b); need(1, 1, "two racing starts"); works("after two racing starts", 0); end();
}
static void s_start2b() {
    mc_atomic_begin(); L = new_logger(); if (InitFromYMAL(*L, CFG_UDP1, "")) mc_fail("start", "init fails"); mc_atomic_end();
    int a = mc_spawn(starter2, 0), b = mc_spawn(starter, 0); mc_join(a); mc_join(b); need(1, 1, "two racing starts"); works("after two racing starts", 0); end();
}
static void s_stop2() {
    mc_atomic_begin(); L = new_logger(); start_with(CFG_UDP1); ignore_stats(); log_n(0, 2); mc_atomic_end();
    int a = mc_spawn(stopper, 0), b = mc_spawn(stopper, 0); mc_join(a); mc_join(b); need(1, 1, "two racing stops");
    check_sink("after two racing stops", 9001, mask(0, 2), CHK_ORDER); log_rec(2); check_sink("logging after stop", 9001, mask(0, 2), 0);
    mc_atomic_begin(); start_with(CFG_UDP1); mc_atomic_end(); works("after restart", 3); end();
}
static void s_startstop() {
    mc_atomic_begin(); L = new_logger(); start_with(CFG_UDP1); ignore_stats(); mc_atomic_end();
    g_ok = g_bad = 0; int a = mc_spawn(stopper, 0), b = mc_spawn(starter, 0); mc_join(a); mc_join(b);
    if (g_ok < 1) mc_fail("winner", "the only stop of a running logger was refused");
    if (g_ok == 2) { works("stop, then start", 0); }
    else { log_rec(0); mc_quiesce(); check_sink("stopped", 9001, 0, 0); mc_atomic_begin(); start_with(CFG_UDP1); mc_atomic_end(); works("restart", 1); }
    end();
}
// ---- stop while others log. must: records whose call had returned when the stop began
static unsigned long long g_must; static unsigned g_order = CHK_ORDER;   // threads of a synchronous channel output each other's records: no order among them

MC_NI static void stop_begins() { g_must = H.done; }
MC_NI static void after_stop(const char* ph, int n) { check_sink(ph, 9001, g_must, g_order, H.begun & mask(0, n)); }
static void stop_check(int n) {
    mc_point(); stop_begins(); int r = StopLogger(*L); if (r) mc_fail("code", "stop of a running logger returned %d", r);
    after_stop("after stop", n); Sink s; sink_of(9001, &s); int before = s.n; unsigned long long w = 0; for (int i = 0; i < s.n; i++) w |= 1ull << rec_id(s.p[i], s.len[i]);
    if (mc_open_handles()) mc_fail("leak", "after stop: %d files or sockets are still open", mc_open_handles());
    mc_quiesce(); sink_of(9001, &s); if (s.n != before) mc_fail("late", "something is output after the stop has returned"); (void)w;
}
template<int P, int N, int PRE> static void s_log() {
    mc_atomic_begin(); L = new_logger(); start_with(CFG_UDP1); ignore_stats(); log_n(0, PRE); mc_atomic_end();
    int t[P]; for (int i = 0; i < P; i++) t[i] = PROD(PRE + i * N, N);
    stop_check(PRE + P * N);
    for (int i = 0; i < P; i++) mc_join(t[i]);
    mc_quiesce(); int n = mc_sink_count(); log_rec(30); mc_quiesce(); if (mc_sink_count() != n) mc_fail("late", "something is output after the stop has returned");
    mc_atomic_begin(); start_with(CFG_UDP1); mc_atomic_end();
    works("log after restart (no log call spanned stop and start)", 31); end();
}
// a synchronous channel: the logging threads output themselves
static const char* const CFG_SUDP = " - channel: 0\n    sync: sync\n    -device: 0\n        disable: false\n        out_type: udp\n        udp_addr: 127.0.0.1:9001\n";
template<int P, int N, int PRE> static void s_slog() {
    g_order = 0; mc_atomic_begin(); L = new_logger(); start_with(CFG_SUDP); ignore_stats(); log_n(0, PRE); mc_atomic_end();
    int t[P]; for (int i = 0; i < P; i++) t[i] = PROD(PRE + i * N, N);
    stop_check(PRE + P * N);
    for (int i = 0; i < P; i++) mc_join(t[i]);
    mc_quiesce(); if (mc_open_handles()) mc_fail("leak", "after stop: %d files or sockets are still open", mc_open_handles());
    int n = mc_sink_count(); log_rec(30); mc_quiesce(); if (mc_sink_count() != n) mc_fail("late", "something is output after the stop has returned");
    mc_atomic_begin(); start_with(CFG_SUDP); mc_atomic_end();
    works("log after restart (no log call spanned stop and start)", 31); end();
}
// a synchronous channel whose output blocks: one caller is in the output, others wait for it or leave their record to it
template<int P> static void s_sfull() {
    g_order = 0; mc_atomic_begin(); L = new_logger(); start_with(CFG_SUDP); ignore_stats(); mc_block_port(9001, 1); mc_atomic_end();
    int t[P]; for (int i = 0; i < P; i++) t[i] = PROD(i, 1);
    int u = mc_spawn(unblocker, (void*)9001L);
    stop_check(P);
    mc_join(u); for (int i = 0; i < P; i++) mc_join(t[i]);
    mc_atomic_begin(); start_with(CFG_SUDP); mc_atomic_end(); works("log after restart", 31); end();
}
static const char* const CFG_SFILE = " - channel: 0\n    sync: sync\n    -device: 0\n        disable: false\n        out_type: file\n        path: d/\n        file: f\n";
MC_NI static size_t file_recs(const char* when, unsigned long long must, unsigned long long may) {
    size_t n = 0; const char* p = mc_file_get("d/f.log", &n); unsigned long long seen = 0;
    for (size_t at = 0; p && at < n;) { const char* e = (const char*)memchr(p + at, '\n', n - at); size_t l = e ? (size_t)(e - (p + at)) + 1 : n - at; int r = rec_id(p + at, l);
        if (r < 0) mc_fail("torn", "%s: the file has a line that no log call wrote", when); if (seen >> r & 1) mc_fail("duplicate", "%s: record R%02d is in the file twice", when, r); if (!((must | may) >> r & 1)) mc_fail("invented", "%s: record R%02d is in the file", when, r); seen |= 1ull << r; at += l; }
    for (int r = 0; r < HMAX; r++) if ((must & ~seen) >> r & 1) mc_fail("lost", "%s: record R%02d is not in the file", when, r);
    mc_outcome(seen); return n;
}
static void s_sfile() {
    mc_atomic_begin(); L = new_logger(); start_with(CFG_SFILE); ignore_stats(); log_rec(0); mc_atomic_end();
    int a = PROD(1, 1), b = PROD(2, 1); mc_point(); stop_begins(); int r = StopLogger(*L); if (r) mc_fail("code", "stop of a running logger returned %d", r);
    size_t n = file_recs("after stop", g_must, mask(0, 3)); if (mc_open_handles()) mc_fail("leak", "after stop: %d files are still open", mc_open_handles());
    mc_join(a); mc_join(b); mc_quiesce(); log_rec(4); if (mc_open_handles()) mc_fail("leak", "some time after the stop: %d files are open", mc_open_handles()); if (file_recs("some time after stop", g_must, mask(0, 3)) != n) mc_fail("late", "something is output after the stop has returned");
    end();
}
static void s_sstop2() {
    mc_atomic_begin(); L = new_logger(); start_with(CFG_SUDP); ignore_stats(); log_rec(0); mc_atomic_end();
    int p = PROD(1, 1), a = mc_spawn(stopper, 0), b = mc_spawn(stopper, 0); mc_join(a); mc_join(b); need(1, 1, "two racing stops"); int n = mc_sink_count(); mc_join(p); mc_quiesce(); if (mc_sink_count() != n) mc_fail("late", "something is output after the stop has returned");
    check_sink("after two racing stops", 9001, mask(0, 1), 0, mask(0, 2)); if (mc_open_handles()) mc_fail("leak", "after stop: %d sockets are open", mc_open_handles());
    mc_atomic_begin(); start_with(CFG_SUDP); mc_atomic_end(); works("after restart", 3); end();
}
// the queue is full, its output blocked, callers wait; the output resumes some time after the stop was called
template<int P> static void s_full() {
    mc_atomic_begin(); L = new_logger(); start_with(CFG_UDP1); ignore_stats(); mc_block_port(9001, 1); log_n(0, 10); mc_quiesce(); mc_atomic_end();
    int t[P]; for (int i = 0; i < P; i++) t[i] = PROD(10 + i, 1);
    int u = mc_spawn(unblocker, (void*)9001L);
    stop_check(10 + P);
    mc_join(u); for (int i = 0; i < P; i++) mc_join(t[i]);
    mc_atomic_begin(); start_with(CFG_UDP1); mc_atomic_end(); works("log after restart", 31); end();
}
// logging during start: only the outcome of each call is free, everything returns and works afterwards
static void s_start_log() {
    mc_atomic_begin(); L = new_logger(); if (InitFromYMAL(*L, CFG_UDP1, "")) mc_fail("start", "init fails"); mc_atomic_end();
    int a = PROD(0, 2); int r = StartLogger(*L); if (r) mc_fail("code", "start returned %d", r);
    log_rec(5); mc_join(a); mc_quiesce(); check_sink("logging during start", 9001, 1ull << 5, 0, mask(0, 2)); end();
}
// a configuration hot update is due while the logger is stopped
static const char* const HOT1 = " hot_update: true\n - channel: 0\n    sync: null\n    -device: 0\n        disable: false\n        out_type: udp\n        udp_addr: 127.0.0.1:9001\n";
static void s_hot() {
    mc_atomic_begin(); mc_file_put("m.yaml", HOT1, strlen(HOT1), 1); L = new_logger(); int r = LoadAndStartLogger(*L, "m.yaml"); if (r) mc_fail("start", "a valid configuration file does not start: %d", r);
    ignore_stats(); mc_quiesce(); mc_file_put("m.yaml", HOT1, strlen(HOT1), 2); mc_atomic_end();
    log_rec(0); mc_clock_advance(10); mc_point();
    stop_check(1); end();
}
// the same on a synchronous channel: a log call looks at the file while the stop waits for it
static const char* const HOTS = " hot_update: true\n - channel: 0\n    sync: sync\n    -device: 0\n        disable: false\n        out_type: udp\n        udp_addr: 127.0.0.1:9001\n";
static void s_shot() {
    g_order = 0; mc_atomic_begin(); mc_file_put("m.yaml", HOTS, strlen(HOTS), 1); L = new_logger(); int r = LoadAndStartLogger(*L, "m.yaml"); if (r) mc_fail("start", "a valid configuration file does not start: %d", r);
    ignore_stats(); log_rec(0); mc_file_put("m.yaml", HOTS, strlen(HOTS), 2); mc_clock_advance(10); mc_atomic_end();
    int a = PROD(1, 1), b = PROD(2, 1); stop_check(3); mc_join(a); mc_join(b);
    mc_quiesce(); int n = mc_sink_count(); log_rec(30); mc_quiesce(); if (mc_sink_count() != n) mc_fail("late", "something is output after the stop has returned");
    mc_atomic_begin(); r = LoadAndStartLogger(*L, "m.yaml"); if (r) mc_fail("start", "restart returned %d", r); mc_atomic_end(); works("after restart", 31); end();
}
// a device that takes datagrams in: its socket is open while the channel runs, and only then; datagrams at any time are harmless
#define IN_CFG(sync) " - channel: 0\n    sync: " sync "\n    -device: 0\n        disable: false\n        in_type: udp\n        out_type: udp\n        udp_addr: 0.0.0.0:9500\n    -device: 1\n        disable: false\n        out_type: udp\n        udp_addr: 127.0.0.1:9001\n"
template<int SYNC> static void s_in() {
    g_order = SYNC ? 0 : CHK_ORDER; const char* cfg = SYNC ? IN_CFG("sync") : IN_CFG("null");
    mc_atomic_begin(); L = new_logger(); start_with(cfg); ignore_stats(); log_rec(0); mc_atomic_end();
    int a = PROD(1, 1), b = PROD(2, 1); stop_check(3); mc_join(a); mc_join(b); log_rec(30); mc_quiesce();
    if (mc_open_handles()) mc_fail("leak", "some time after the stop: %d sockets are open", mc_open_handles());
    mc_atomic_begin(); start_with(cfg); mc_atomic_end(); works("after restart", 31); end();
}
static void s_hot2() {   // two starts and a stop around a due hot update
    mc_atomic_begin(); mc_file_put("m.yaml", HOT1, strlen(HOT1), 1); L = new_logger(); int r = LoadAndStartLogger(*L, "m.yaml"); if (r) mc_fail("start", "a valid configuration file does not start: %d", r);
    ignore_stats(); mc_quiesce(); mc_file_put("m.yaml", HOT1, strlen(HOT1), 2); mc_clock_advance(10); mc_atomic_end();
    int a = mc_spawn(stopper, 0); mc_spawn(stopper, 0); mc_point(); mc_join(a); mc_quiesce(); need(1, 1, "two racing stops, hot update due");
    mc_atomic_begin(); r = LoadAndStartLogger(*L, "m.yaml"); if (r) mc_fail("start", "restart returned %d", r); mc_atomic_end(); works("after restart", 3); end();
}
// a log call that spans a stop and the following start
static int g_span;
static void s_span() {
    mc_atomic_begin(); L = new_logger(); start_with(CFG_UDP1); ignore_stats(); log_rec(0); mc_atomic_end();
    int a = PROD(1, 1), b = PROD(2, 1);
    mc_point(); stop_begins(); int r = StopLogger(*L); if (r) mc_fail("code", "stop of a running logger returned %d", r); after_stop("after stop", 3);
    g_span = __builtin_popcountll(H.begun & ~H.done);
    r = StartLogger(*L); if (r) mc_fail("code", "restart returned %d", r);
    mc_join(a); mc_join(b); mc_quiesce(); check_sink("after restart", 9001, g_must, 0, mask(0, 3));
    Sink s; sink_of(9001, &s); unsigned long long w = 0; for (int i = 0; i < s.n; i++) w |= 1ull << rec_id(s.p[i], s.len[i]);
    log_rec(3); log_rec(4); mc_quiesce(); check_sink("two records after restart", 9001, w | 1ull << 3 | 1ull << 4, CHK_ORDER); end();
}
static const char* span_known(const char* cls) { return g_span ? "log-call-spans-restart" : 0; }
static const McScenario SCN[] = {
    {"start2", s_start2, 0, 4, 1, 0, 0, 0, 60, "two racing ParseAndStart calls"},
    {"start2b", s_start2b, 0, 4, 1, 0, 0, 0, 60, "StartLogger races ParseAndStart"},
    {"stop2", s_stop2, 0, 4, 1, 0, 0, 0, 60, "two racing stops, then restart"},
    {"startstop", s_startstop, 0, 4, 1, 0, 0, 0, 60, "a stop races a start"},
    {"start_log", s_start_log, 0, 3, 1, 0, 0, 0, 60, "logging during start"},
    {"log1", s_log<1, 2, 1>, 0, 4, 1, 0, 0, 0, 60, "stop while one thread logs"},
    {"log2", s_log<2, 1, 1>, 0, 4, 1, 0, 0, 0, 60, "stop while two threads log"},
    {"slog1", s_slog<1, 2, 1>, 0, 4, 1, 0, 0, 0, 60, "stop while one thread logs to a synchronous channel"},
    {"slog2", s_slog<2, 1, 1>, 0, 4, 1, 0, 0, 0, 60, "stop while two threads log to a synchronous channel"},
    {"sfull", s_sfull<2>, 0, 4, 1, 0, 0, 0, 60, "stop while the output of a synchronous channel blocks"},
    {"sfile", s_sfile, 0, 4, 1, 0, 0, 0, 60, "stop while two threads log to a file synchronously"},
    {"sstop2", s_sstop2, 0, 4, 1, 0, 0, 0, 60, "two racing stops while a thread logs synchronously"},
    {"full1", s_full<1>, 0, 4, 1, 0, 0, 0, 60, "stop with a full queue, blocked output and a waiting caller"},
    {"full2", s_full<2>, 0, 3, 0, 0, 0, 0, 60, "stop with a full queue and two waiting callers"},
    {"hot", s_hot, 0, 5, 1, 0, 0, 0, 60, "stop while a hot update is due"},
    {"hot2", s_hot2, 0, 3, 1, 0, 0, 0, 60, "racing stops while a hot update is due"},
    {"shot", s_shot, 0, 3, 0, 0, 0, 0, 60, "stop while two log calls of a synchronous channel look at a changed file"},
    {"shot_deep", s_shot, 0, 5, 1, 0, 0, 1, 600, "stop while two log calls of a synchronous channel look at a changed file"},
    {"in", s_in<0>, 0, 2, 0, 0, 0, 0, 60, "stop with a device that takes datagrams in"},
    {"in_sync", s_in<1>, 0, 3, 0, 0, 0, 0, 60, "stop with a device that takes datagrams in, synchronous channel"},
    {"in_deep", s_in<0>, 0, 4, 1, 0, 0, 1, 600, "stop with a device that takes datagrams in"},
    {"in_sync_deep", s_in<1>, 0, 5, 1, 0, 0, 1, 600, "stop with a device that takes datagrams in, synchronous channel"},
    {"span", s_span, 0, 2, 0, 0, 0, 0, 60, "log calls in progress across stop and restart", span_known},
    {"start2_deep", s_start2, 0, 8, 1, 0, 0, 1, 300, "two racing ParseAndStart calls"},
    {"log2_deep", s_log<2, 1, 1>, 0, 6, 2, 0, 0, 1, 600, "stop while two threads log"},
    {"log1_deep", s_log<1, 2, 1>, 0, 7, 2, 0, 0, 1, 600, "stop while one thread logs"},
    {"slog2_deep", s_slog<2, 1, 1>, 0, 7, 2, 0, 0, 1, 600, "stop while two threads log to a synchronous channel"},
    {"slog3_deep", s_slog<3, 1, 0>, 0, 4, 1, 0, 0, 1, 600, "stop while three threads log to a synchronous channel"},
    {"sfile_deep", s_sfile, 0, 6, 2, 0, 0, 1, 600, "stop while two threads log to a file synchronously"},
    {"full2_deep", s_full<2>, 0, 4, 1, 0, 0, 1, 600, "stop with a full queue and two waiting callers"},
    {"hot2_deep", s_hot2, 0, 5, 1, 0, 0, 1, 600, "racing stops while a hot update is due"},
};
#ifndef TWO_CHANNELS
int main(int c, char** v) { return mc_run(c, v, "C05", SCN, sizeof SCN / sizeof *SCN); }
#endif
