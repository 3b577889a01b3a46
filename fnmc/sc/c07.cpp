// DEFS: -DFN_LOG_FORCE_FLUSH_QUE=1
#include "common.h"
static const char* const CFG_SYNC_UDP = " - channel: 0\n    sync: sync\n    -device: 0\n        disable: false\n        out_type: udp\n        udp_addr: 127.0.0.1:9001\n";
static const char* const CFG_SYNC_2 = " - channel: 0\n    sync: sync\n    -device: 0\n        disable: false\n        out_type: udp\n        udp_addr: 127.0.0.1:9001\n    -device: 1\n        disable: false\n        out_type: file\n        file: f\n        path: d\n        rollback: 4\n";
static const char* const CFG_SYNC_SCR = " - channel: 0\n    sync: sync\n    -device: 0\n        disable: false\n        out_type: udp\n        udp_addr: 127.0.0.1:9001\n    -device: 1\n        disable: false\n        out_type: screen\n        priority: info\n";
// every line of the given text is one record of want exactly once; strip: colour codes around each
MC_NI static void check_text(const char* ph, const char* p, size_t n, unsigned long long want, bool order, bool colour) {
    unsigned long long seen = 0; int prev[HMAX], k = 0; size_t i = 0; char b[400];
    while (i < n) {
        if (colour) { const char* pre = "\x1b["; if (n - i > 2 && !memcmp(p + i, pre, 2)) { while (i < n && p[i] != 'm') i++; i++; continue; } }
        size_t e = i; while (e < n && p[e] != '\n') e++; if (e < n) e++;
        int r = rec_id(p + i, e - i); if (r < 0) { show(b, sizeof b, p + i, e - i); mc_fail("torn", "%s: the output has a line that is not exactly one record: \"%s\"", ph, b); }
        if (seen >> r & 1) mc_fail("duplicate", "%s: record R%02d is output twice", ph, r);
        if (!(want >> r & 1)) mc_fail("invented", "%s: record R%02d was not to be output", ph, r);
        if (order) for (int j = 0; j < k; j++) if (H.before[prev[j]] >> r & 1) mc_fail("order", "%s: R%02d comes out before R%02d", ph, prev[j], r);
        seen |= 1ull << r; prev[k++] = r; i = e;
    }
    for (int r = 0; r < HMAX; r++) if ((want & ~seen) >> r & 1) mc_fail("lost", "%s: record R%02d is missing", ph, r);
}
static char g_cat[8192];
MC_NI static size_t cat_files() { size_t k = 0; for (int i = 9; i >= 0; i--) { char nm[40]; if (i) snprintf(nm, 40, "d/f.log.%d", i); else snprintf(nm, 40, "d/f.log"); size_t n; const char* p = mc_file_get(nm, &n); if (p && k + n < sizeof g_cat) { memcpy(g_cat + k, p, n); k += n; } } return k; }
static void end(bool file, unsigned long long want) {
    mc_atomic_begin(); if (file) SetDeviceConfig(*L, 0, 1, DEVICE_CFG_FILE_LIMIT_SIZE, 100000000); want |= whole_queue(30); check_sink("all places of the queue at once", 9001, want, 0); int r = StopLogger(*L); if (r) mc_fail("code", "stop returned %d", r);
    check_sink("after stop", 9001, want, 0);
    if (file) { size_t n = cat_files(); check_text("files after stop", g_cat, n, want, false, false); }
    delete L; if (mc_open_handles()) mc_fail("leak", "%d files or sockets still open", mc_open_handles()); mc_atomic_end();
}
// one thread: output is there when the call returns
static void s_one() {
    mc_atomic_begin(); L = new_logger(); start_with(CFG_SYNC_2); ignore_stats(); SetDeviceConfig(*L, 0, 1, DEVICE_CFG_FILE_LIMIT_SIZE, 20); mc_atomic_end();
    for (int i = 0; i < 14; i++) { log_rec(i); check_sink("when the call returned", 9001, mask(0, i + 1), CHK_ORDER); if (i < 6) { size_t n = cat_files(); check_text("file when the call returned", g_cat, n, mask(0, i + 1), true, false); } }
    mc_atomic_begin(); StopLogger(*L); delete L; mc_atomic_end();
}
static void run(int np, int each, bool file) {
    int t[3]; for (int i = 0; i < np; i++) t[i] = PROD(i * each, each);
    for (int i = 0; i < np; i++) mc_join(t[i]);
    int n = np * each; mc_quiesce(); check_sink("all calls have returned", 9001, mask(0, n), 0);
    if (file) { size_t k = cat_files(); check_text("files, all calls have returned", g_cat, k, mask(0, n), false, false); }
    log_rec(n); check_sink("one more record", 9001, mask(0, n + 1), 0);
    if (file) { size_t k = cat_files(); check_text("files, one more record", g_cat, k, mask(0, n + 1), false, false); }
    end(file, mask(0, n + 1));
}
static void guard() { guard_records(); }
static void s_2x1() { mc_atomic_begin(); L = new_logger(); start_with(CFG_SYNC_UDP); ignore_stats(); guard(); mc_atomic_end(); run(2, 1, false); }
static void s_2x2() { mc_atomic_begin(); L = new_logger(); start_with(CFG_SYNC_UDP); ignore_stats(); guard(); mc_atomic_end(); run(2, 2, false); }
static void s_3x1() { mc_atomic_begin(); L = new_logger(); start_with(CFG_SYNC_UDP); ignore_stats(); guard(); mc_atomic_end(); run(3, 1, false); }
static void s_file() { mc_atomic_begin(); L = new_logger(); start_with(CFG_SYNC_2); ignore_stats(); mc_atomic_end(); run(2, 1, true); }
static void s_file22() { mc_atomic_begin(); L = new_logger(); start_with(CFG_SYNC_2); ignore_stats(); mc_atomic_end(); run(2, 2, true); }
static void s_file31() { mc_atomic_begin(); L = new_logger(); start_with(CFG_SYNC_2); ignore_stats(); SetDeviceConfig(*L, 0, 1, DEVICE_CFG_FILE_LIMIT_SIZE, 30); mc_atomic_end(); run(3, 1, true); }
static void s_rot() { mc_atomic_begin(); L = new_logger(); start_with(CFG_SYNC_2); ignore_stats(); SetDeviceConfig(*L, 0, 1, DEVICE_CFG_FILE_LIMIT_SIZE, 9); mc_atomic_end(); run(2, 1, true); }
static void s_rot2() { mc_atomic_begin(); L = new_logger(); start_with(CFG_SYNC_2); ignore_stats(); SetDeviceConfig(*L, 0, 1, DEVICE_CFG_FILE_LIMIT_SIZE, 9); log_rec(20); mc_sink_count(); mc_atomic_end();
    int a = PROD(0, 1), b = PROD(1, 1); mc_join(a); mc_join(b); unsigned long long w = mask(0, 2) | 1ull << 20; check_sink("all calls have returned", 9001, w, 0); size_t k = cat_files(); check_text("files, all calls have returned", g_cat, k, w, false, false); end(true, w); }
static void s_screen() {
    mc_atomic_begin(); L = new_logger(); start_with(CFG_SYNC_SCR); ignore_stats(); size_t s0; mc_screen(&s0); mc_atomic_end();
    int a = PROD(0, 1), b = PROD(1, 1); mc_join(a); mc_join(b); size_t s1; const char* p = mc_screen(&s1); check_text("screen", p + s0, s1 - s0, mask(0, 2), false, true); end(false, mask(0, 2));
}
// the queue of a synchronous channel wraps around while two threads log
static void s_wrap() { mc_atomic_begin(); L = new_logger(); start_with(CFG_SYNC_UDP); ignore_stats(); guard(); log_n(20, 9); mc_atomic_end(); int a = PROD(0, 2), b = PROD(2, 1); mc_join(a); mc_join(b); check_sink("wrapped queue", 9001, mask(0, 3) | mask(20, 29), 0); end(false, mask(0, 3) | mask(20, 29)); }
// the thread that processes is stuck in the output: others log, fill the queue and wait
static void s_block() {
    mc_atomic_begin(); L = new_logger(); start_with(CFG_SYNC_UDP); ignore_stats(); guard(); log_n(20, 8); mc_block_port(9001, 1); mc_atomic_end();
    int a = PROD(0, 2), b = mc_spawn(producer, (void*)(long)((2 << 3) | 7)), c = PROD(9, 3); mc_quiesce(); mc_block_port(9001, 0); mc_join(a); mc_join(b); mc_join(c);
    unsigned long long w = mask(0, 12) | mask(20, 28); check_sink("after blocked output", 9001, w, 0); log_rec(12); check_sink("one more", 9001, w | 1ull << 12, 0); end(false, w | 1ull << 12);
}
static const McScenario SCN[] = {
    {"one", s_one, 0, 1, 0, 0, 0, 0, 30, "one thread: the record is output when its call returns, file rotating"},
    {"2x1", s_2x1, 0, 255, 2, 0, 0, 0, 60, "two threads on a synchronous channel"},
    {"2x2", s_2x2, 0, 5, 1, 0, 0, 0, 60, "two threads, two records each"},
    {"3x1", s_3x1, 0, 3, 1, 0, 0, 0, 60, "three threads"},
    {"wrap", s_wrap, 0, 4, 1, 0, 0, 0, 60, "the queue wraps"},
    {"block", s_block, 0, 2, 1, 0, 0, 0, 60, "output blocks, the queue fills up"},
    {"file", s_file, 0, 6, 2, 0, 0, 0, 60, "file device"},
    {"file22", s_file22, 0, 4, 1, 0, 0, 0, 60, "file device, two threads, two records each"},
    {"file31", s_file31, 0, 3, 1, 0, 0, 0, 60, "file device that rotates, three threads"},
    {"rot", s_rot, 0, 6, 2, 0, 0, 0, 60, "file device that rotates at every record"},
    {"rot2", s_rot2, 0, 6, 2, 0, 0, 0, 60, "same, file already in use"},
    {"screen", s_screen, 0, 6, 1, 0, 0, 0, 60, "screen device"},
    {"2x2_deep", s_2x2, 0, 6, 2, 0, 0, 1, 300, "two threads, two records each"},
    {"3x1_deep", s_3x1, 0, 5, 2, 0, 0, 1, 300, "three threads"},
    {"rot2_deep", s_rot2, 0, 255, 2, 0, 0, 1, 300, "rotation, unbounded"},
};
int main(int c, char** v) { return mc_run(c, v, "C07", SCN, sizeof SCN / sizeof *SCN); }
