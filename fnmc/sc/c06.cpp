// DEFS: -DFN_LOG_MAX_CHANNEL_SIZE=2
#include "common.h"
#define DEV(ch, sync, port) " - channel: " #ch "\n    sync: " sync "\n    -device: 0\n        disable: false\n        out_type: udp\n        udp_addr: 127.0.0.1:" #port "\n"
static const char* const AA = DEV(0, "null", 9001) DEV(1, "null", 9002);
static const char* const SA = DEV(0, "sync", 9001) DEV(1, "null", 9002);
static const char* const ONE = DEV(0, "null", 9001);
static const char* const OTHER = DEV(0, "sync", 9001) "    -device: 1\n        disable: false\n        out_type: empty\n";
static const char* const FILES = " - channel: 0\n    sync: null\n    -device: 0\n        disable: false\n        out_type: file\n        file: f\n        path: d\n    -device: 1\n        disable: false\n        out_type: udp\n        udp_addr: 127.0.0.1:9001\n" DEV(1, "null", 9002);
static void works(const char* phase, int r) { unsigned long long before = 0; Sink s; sink_of(9001, &s); for (int i = 0; i < s.n; i++) { int q = rec_id(s.p[i], s.len[i]); if (q >= 0) before |= 1ull << q; } log_rec(r); mc_quiesce(); check_sink(phase, 9001, before | 1ull << r, 0); }
MC_NI static void no_leak(const char* when, bool handles = true) { if (handles && mc_open_handles()) mc_fail("leak", "%s: %d files or sockets are still open", when, mc_open_handles()); if (mc_threads_alive() != 1) mc_fail("leak", "%s: %d threads are still running", when, mc_threads_alive() - 1); }
static void end() { StopLogger(*L); no_leak("after the last stop"); delete L; no_leak("after the logger's destruction"); }
// the creation of the first or second of the logger's threads fails
static void thread_fail(const char* cfg, int budget, int restart) {
    mc_atomic_begin(); L = new_logger(); mc_atomic_end(); mc_faults(MC_F_THREAD, budget); int r = 0, n = 0;
    while (true) {
        int had = mc_fault_count(); r = n ? StartLogger(*L) : ParseAndStartLogger(*L, cfg); int hit = mc_fault_count() - had; mc_outcome((unsigned)r * 4 + (unsigned)hit);
        if (hit && r != E_CHANNEL_THREAD_FAILED) mc_fail("code", "a start whose thread cannot be created returned %d", r); if (!hit && r) mc_fail("code", "start returned %d", r); if (!r) break;
        no_leak("after a start that failed"); log_rec(20 + n); mc_quiesce(); if (mc_sink_count()) mc_fail("late", "something is output by a logger that is not running"); int q = StopLogger(*L); if (q != E_LOGGER_NOT_RUNNING) mc_fail("code", "stop of a logger that did not start returned %d", q); n++;
        if (n == restart) { mc_faults(0, 0); }
    }
    mc_faults(0, 0); ignore_stats(); works("log after start", 0); mc_atomic_begin(); int q = StopLogger(*L); if (q) mc_fail("code", "stop returned %d", q); no_leak("after stop"); start_with(OTHER); works("after a restart with another configuration", 1); end(); mc_atomic_end();
}
static void s_fail_aa() { thread_fail(AA, 1, 9); }
static void s_fail_aa2() { thread_fail(AA, 2, 9); }
static void s_fail_sa() { thread_fail(SA, 2, 9); }
static void s_fail_file() { thread_fail(FILES, 2, 1); }
// another thread uses the logger all the time
static void control(void* p) {
    long k = (long)p; Logger& l = *L;
    switch (k) {
    case 0: log_rec(30, 0); log_rec(31, 1); break;
    case 1: (void)GetChannelLog(l, 0, CHANNEL_LOG_PROCESSED); (void)GetDeviceLog(l, 1, 0, DEVICE_LOG_TOTAL_WRITE_LINE); (void)GetDeviceConfig(l, 1, 0, DEVICE_CFG_ABLE); (void)GetDeviceLog(l, 0, 1, DEVICE_LOG_TOTAL_WRITE_LINE); break;
    case 2: SetChannelConfig(l, 1, CHANNEL_CFG_PRIORITY, 0); SetDeviceConfig(l, 1, 0, DEVICE_CFG_ABLE, 1); SetDeviceConfig(l, 0, 1, DEVICE_CFG_ABLE, 1); BatchSetChannelConfig(l, CHANNEL_CFG_CATEGORY_MASK, 0); BatchSetDeviceConfig(l, DEVICE_OUT_NULL, DEVICE_CFG_PRIORITY, 0); break;
    case 3: { int r = StopLogger(l); if (r != 0 && r != E_LOGGER_NOT_RUNNING && r != E_LOGGER_NOT_INIT) mc_fail("code", "stop returned %d", r); } break;
    case 4: { int r = InitFromYMAL(l, ONE, ""); if (r != E_LOGGER_IN_USE && r != 0) mc_fail("code", "init of a logger returned %d", r); } break;
    }
}
// while it is started, stopped and started with another configuration
template<int K> static void s_control() {
    mc_atomic_begin(); L = new_logger(); start_with(AA); ignore_stats(); mc_atomic_end(); int a = mc_spawn(control, (void*)(long)K);
    int r = StopLogger(*L); if (r && !(K == 3 && r == E_LOGGER_NOT_RUNNING)) mc_fail("code", "stop returned %d", r);
    if (K == 0) mc_join(a); // a log call in progress across stop and start: known finding of C05
    r = ParseAndStartLogger(*L, K == 2 ? OTHER : SA); if (r && !(r == E_LOGGER_IN_USE)) mc_fail("code", "start returned %d", r); if (K) mc_join(a);
    mc_atomic_begin(); StopLogger(*L); no_leak("after stop"); start_with(SA); works("a valid configuration afterwards", 0); end(); mc_atomic_end();
}
// a logger that was never configured, or could not be
template<int K> static void s_fresh() {
    mc_atomic_begin(); L = new_logger(); mc_atomic_end(); int a = mc_spawn(control, (void*)(long)K); int r = ParseAndStartLogger(*L, " - channel: 7\n"); if (r == 0) mc_fail("code", "a configuration with an error starts"); r = ParseAndStartLogger(*L, AA); if (r) mc_fail("code", "start returned %d", r); mc_join(a);
    mc_atomic_begin(); StopLogger(*L); start_with(SA); works("a valid configuration afterwards", 0); end(); mc_atomic_end();
}
static const McScenario SCN[] = {
    {"fail_aa", s_fail_aa, 0, 5, 1, 0, 0, 0, 60, "one of two threads cannot be created; start again"},
    {"fail_aa2", s_fail_aa2, 0, 4, 0, 0, 0, 0, 60, "thread creation fails twice, anywhere"},
    {"fail_sa", s_fail_sa, 0, 20, 0, 0, 0, 0, 60, "the same, synchronous and asynchronous channel"},
    {"fail_file", s_fail_file, 0, 4, 0, 0, 0, 0, 60, "the same with file devices"},
    {"log", s_control<0>, 0, 4, 0, 0, 0, 0, 60, "log calls to both channels while the logger is stopped; then started anew"},
    {"query", s_control<1>, 0, 4, 0, 0, 0, 0, 60, "queries meanwhile"},
    {"configure", s_control<2>, 0, 4, 0, 0, 0, 0, 60, "configuration calls meanwhile"},
    {"stops", s_control<3>, 0, 5, 0, 0, 0, 0, 60, "another stop meanwhile"},
    {"init", s_control<4>, 0, 5, 0, 0, 0, 0, 60, "another init meanwhile"},
    {"fresh_log", s_fresh<0>, 0, 3, 0, 0, 0, 0, 60, "log calls while the logger is configured"},
    {"fresh_query", s_fresh<1>, 0, 4, 0, 0, 0, 0, 60, "queries while the logger is configured"},
    {"fresh_configure", s_fresh<2>, 0, 4, 0, 0, 0, 0, 60, "configuration calls while the logger is configured"},
    {"fail_aa_deep", s_fail_aa, 0, 7, 1, 0, 0, 1, 300, "one of two threads cannot be created; start again"},
    {"fail_file_deep", s_fail_file, 0, 6, 0, 0, 0, 1, 300, "the same with file devices"},
    {"log_deep", s_control<0>, 0, 6, 1, 0, 0, 1, 600, "log calls to both channels while the logger is stopped; then started anew"},
    {"stops_deep", s_control<3>, 0, 8, 1, 0, 0, 1, 600, "another stop meanwhile"},
    {"init_deep", s_control<4>, 0, 8, 1, 0, 0, 1, 600, "another init meanwhile"},
    {"fresh_log_deep", s_fresh<0>, 0, 4, 1, 0, 0, 1, 600, "log calls while the logger is configured"},
    {"configure_deep", s_control<2>, 0, 6, 1, 0, 0, 1, 600, "configuration calls meanwhile"},
};
int main(int c, char** v) { return mc_run(c, v, "C06", SCN, sizeof SCN / sizeof *SCN); }
