#include "common.h"
// Calls to the operating system fail at any time while threads log: every log call returns, the other device gets every record,
// what is written is whole, once and (asynchronous channel) in order, the counters report it, and the device comes back.
static char g_cfg[900]; static bool g_async;
MC_NI static const char* cfg(const char* sync, int limit, int k) { g_async = sync[0] == 'a'; sprintf(g_cfg, " - channel: 0\n    sync: %s\n    -device: 0\n        disable: false\n        out_type: udp\n        udp_addr: 127.0.0.1:9001\n    -device: 1\n        disable: false\n        out_type: file\n        path: d/e\n        file: f\n        rollback: %d\n", sync, k); (void)limit; return g_cfg; }
static void start(const char* sync, int limit, int k) { L = new_logger(); start_with(cfg(sync, limit, k)); ignore_stats(); if (limit) SetDeviceConfig(*L, 0, 1, DEVICE_CFG_FILE_LIMIT_SIZE, limit); }
MC_NI static unsigned long long on_disk(const char* ph, int k) {
    unsigned long long seen = 0; int prev[64], n = 0; char b[300];
    for (int i = k + 1; i >= 0; i--) { char nm[40]; if (i) sprintf(nm, "d/e/f.log.%d", i); else sprintf(nm, "d/e/f.log"); size_t len; const char* p = mc_file_get(nm, &len); if (!p) continue; if (i > k) mc_fail("backup", "%s: %s exists, %d backups are kept", ph, nm, k);
        for (size_t a = 0; a < len;) { size_t e = a; while (e < len && p[e] != '\n') e++; if (e < len) e++; int r = rec_id(p + a, e - a); if (r < 0) { show(b, sizeof b, p + a, e - a); mc_fail("torn", "%s: %s has a line that is not exactly one record: \"%s\"", ph, nm, b); }
            if (seen >> r & 1) mc_fail("duplicate", "%s: record R%02d is in the files twice", ph, r); if (g_async) for (int j = 0; j < n; j++) if (H.before[prev[j]] >> r & 1) mc_fail("order", "%s: R%02d is in the files before R%02d", ph, prev[j], r);
            seen |= 1ull << r; prev[n++] = r; a = e; } }
    return seen;
}
static void end(unsigned long long all, int k, bool rotates) {
    mc_faults(0, 0); mc_quiesce(); mc_clock_advance(10); log_rec(30); mc_quiesce();
    mc_atomic_begin(); if (!(on_disk("the calls work again", k) >> 30 & 1) && !g_async) mc_fail("recovery", "10 seconds after the calls work again R30 is not in the file"); int r = StopLogger(*L); if (r) mc_fail("code", "stop returned %d", r);
    unsigned long long d = on_disk("after stop", k); if (!(d >> 30 & 1)) mc_fail("recovery", "10 seconds after the calls work again R30 is not in the file");
    check_sink("the other device", 9001, all | 1ull << 30, g_async ? CHK_ORDER : 0);
    if (!rotates) { long long w = GetDeviceLog(*L, 0, 1, DEVICE_LOG_TOTAL_WRITE_LINE); if (w != __builtin_popcountll(d)) mc_fail("counter", "%lld written records are counted, the files hold %d", w, __builtin_popcountll(d)); }
    if (!mc_fault_count() && !rotates && d != (all | 1ull << 30)) mc_fail("lost", "no call failed, but a record is missing");
    delete L; if (mc_open_handles()) mc_fail("leak", "%d files or sockets still open", mc_open_handles()); mc_atomic_end();
}
static void run(const char* sync, int limit, int k, int ops, int budget, int each) {
    mc_atomic_begin(); start(sync, limit, k); mc_faults(ops, budget); mc_atomic_end(); int a = PROD(0, each), b = PROD(each, each); mc_join(a); mc_join(b); end(mask(0, 2 * each), k, limit != 0);
}
static const int FILE_OPS = MC_F_FOPEN | MC_F_RENAME | MC_F_MKDIR;
static void s_sync() { run("sync", 0, 0, FILE_OPS, 2, 1); }
static void s_rot() { run("sync", 9, 3, FILE_OPS, 2, 1); }
static void s_async() { run("async", 0, 0, FILE_OPS, 2, 1); }
static void s_async_rot() { run("async", 9, 3, FILE_OPS, 2, 1); }
// the datagrams of one device fail, the file gets every record
static void udp(const char* sync, int ops) {
    mc_atomic_begin(); start(sync, 0, 0); mc_faults(ops, 2); mc_atomic_end(); int a = PROD(0, 1), b = PROD(1, 1); mc_join(a); mc_join(b); mc_quiesce(); mc_faults(0, 0); mc_clock_advance(10); log_rec(30); mc_quiesce();
    mc_atomic_begin(); int r = StopLogger(*L); if (r) mc_fail("code", "stop returned %d", r); unsigned long long d = on_disk("after stop", 0); if (d != (3ull | 1ull << 30)) mc_fail("lost", "the other device misses a record"); check_sink("after stop", 9001, 1ull << 30, g_async ? CHK_ORDER : 0, 3);
    Sink s; sink_of(9001, &s); long long w = GetDeviceLog(*L, 0, 0, DEVICE_LOG_TOTAL_WRITE_LINE), l = GetDeviceLog(*L, 0, 0, DEVICE_LOG_TOTAL_LOSE_LINE); if (w != s.n || w + l != 3) mc_fail("counter", "%lld sent and %lld lost records are counted, %d were sent of 3", w, l, s.n); if (!(ops & MC_F_SOCKET) && 3 - s.n != mc_fault_count()) mc_fail("lost", "%d calls failed, %d records are lost", mc_fault_count(), 3 - s.n);
    delete L; if (mc_open_handles()) mc_fail("leak", "%d files or sockets still open", mc_open_handles()); mc_atomic_end();
}
static void s_udp() { udp("sync", MC_F_SENDTO); } static void s_udp_async() { udp("async", MC_F_SENDTO); } static void s_sock() { udp("sync", MC_F_SOCKET | MC_F_SENDTO); } static void s_sock_async() { udp("async", MC_F_SOCKET | MC_F_SENDTO); }   // a socket that cannot be made is tried again 2 s later
static const McScenario SCN[] = {
    {"sync", s_sync, 0, 4, 1, 0, 0, 0, 60, "opening, renaming or making a directory fails, synchronous channel"},
    {"rot", s_rot, 0, 4, 1, 0, 0, 0, 60, "same with a file that rotates"},
    {"async", s_async, 0, 3, 1, 0, 0, 0, 60, "asynchronous channel"},
    {"async_rot", s_async_rot, 0, 3, 1, 0, 0, 0, 60, "asynchronous channel with a file that rotates"},
    {"udp", s_udp, 0, 4, 1, 0, 0, 0, 60, "sending fails, synchronous channel"},
    {"udp_async", s_udp_async, 0, 3, 1, 0, 0, 0, 60, "sending fails, asynchronous channel"},
    {"sock", s_sock, 0, 4, 1, 0, 0, 0, 60, "making the socket or sending fails, synchronous channel"},
    {"sock_async", s_sock_async, 0, 3, 1, 0, 0, 0, 60, "making the socket or sending fails, asynchronous channel"},
    {"rot_deep", s_rot, 0, 255, 1, 0, 0, 1, 300, "a file that rotates, unbounded"},
    {"udp_deep", s_udp, 0, 255, 1, 0, 0, 1, 300, "datagrams, unbounded"},
};
int main(int c, char** v) { return mc_run(c, v, "C13", SCN, sizeof SCN / sizeof *SCN); }
