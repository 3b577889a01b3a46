#include "common.h"
// device 0 receives datagrams and writes a file, device 1 sends the channel's own records
#define IN_CFG(sync) " - channel: 0\n    sync: " sync "\n    -device: 0\n        disable: false\n        in_type: udp\n        out_type: file\n        udp_addr: 0.0.0.0:9500\n        file: in\n    -device: 1\n        disable: false\n        out_type: udp\n        udp_addr: 127.0.0.1:9001\n"
static char g_want[4096]; static size_t g_wn;
MC_NI static void inject(int r) { char b[48]; rec_text(r, b); size_t n = strlen(b); b[n++] = '\n'; mc_udp_inject(b, n); memcpy(g_want + g_wn, b, n); g_wn += n; }
static void begin(const char* cfg) { mc_atomic_begin(); g_wn = 0; L = new_logger(); start_with(cfg); ignore_stats(); for (int c = 0; c < 1; c++) { LogData& d = L->shm_->ring_buffers_[c].udp_buffer_; mc_guard_range(&d.channel_id_, sizeof(LogData) - offsetof(LogData, channel_id_)); } }
static void end(unsigned long long own) {
    mc_atomic_begin(); int r = StopLogger(*L); if (r) mc_fail("code", "stop returned %d", r);
    check_sink("after stop", 9001, own, 0); size_t n = 0; const char* p = mc_file_get("in.log", &n); char a[200], b[200];
    if (n != g_wn || memcmp(p, g_want, n)) { show(a, sizeof a, p ? p : "", n); show(b, sizeof b, g_want, g_wn); mc_fail("datagram", "received \"%s\" (%d bytes), the receiving device put out \"%s\" (%d bytes)", b, (int)g_wn, a, (int)n); }
    delete L; if (mc_open_handles()) mc_fail("leak", "%d files or sockets still open", mc_open_handles()); mc_atomic_end();
}
static void sync_run(int np, int nd) { begin(IN_CFG("sync")); log_rec(20); for (int i = 0; i < nd; i++) inject(10 + i); mc_atomic_end(); int t[3]; for (int i = 0; i < np; i++) t[i] = PROD(i, 1); for (int i = 0; i < np; i++) mc_join(t[i]); mc_atomic_begin(); log_rec(21); mc_atomic_end(); end(mask(0, np) | mask(20, 22)); }
static void s_2x1() { sync_run(2, 1); }
static void s_2x2() { sync_run(2, 2); }
static void s_3x2() { sync_run(3, 2); }
static void s_open() { begin(IN_CFG("sync")); mc_atomic_end(); int a = PROD(0, 1), b = PROD(1, 1); mc_join(a); mc_join(b); mc_atomic_begin(); inject(10); log_rec(21); mc_atomic_end(); end(mask(0, 2) | mask(21, 22)); }
static void sender(void* a) { for (long i = 0; i < (long)a; i++) { mc_point(); inject(10 + (int)i); } }
static void s_async() { begin(IN_CFG("null")); mc_atomic_end(); int s = mc_spawn(sender, (void*)2L), a = PROD(0, 2); mc_join(s); mc_join(a); mc_quiesce(); end(mask(0, 2)); }
static void s_async1() { begin(IN_CFG("null")); inject(12); log_rec(20); mc_atomic_end(); int s = mc_spawn(sender, (void*)1L), a = PROD(0, 1); mc_join(s); mc_join(a); mc_quiesce(); end(mask(0, 1) | mask(20, 21)); }
static void s_sync_feed() { begin(IN_CFG("sync")); log_rec(20); mc_atomic_end(); int s = mc_spawn(sender, (void*)2L), a = PROD(0, 1), b = PROD(1, 1); mc_join(s); mc_join(a); mc_join(b); mc_atomic_begin(); log_rec(21); mc_atomic_end(); end(mask(0, 2) | mask(20, 22)); }
static const McScenario SCN[] = {
    {"sync_2x1", s_2x1, 0, 255, 2, 0, 0, 0, 60, "two threads log on a synchronous channel that has one datagram waiting"},
    {"sync_2x2", s_2x2, 0, 5, 2, 0, 0, 0, 60, "same, two datagrams"},
    {"sync_open", s_open, 0, 8, 2, 0, 0, 0, 60, "two threads, the receiving socket is not open yet"},
    {"sync_feed", s_sync_feed, 0, 4, 1, 0, 0, 0, 60, "datagrams arrive while two threads log"},
    {"async_1", s_async1, 0, 255, 1, 0, 0, 0, 60, "asynchronous channel, a datagram arrives at any moment"},
    {"async_2", s_async, 0, 8, 1, 0, 0, 0, 60, "asynchronous channel, two datagrams arrive at any moment"},
    {"sync_3x2", s_3x2, 0, 4, 1, 0, 0, 1, 300, "three threads, two datagrams"},
    {"sync_2x2_deep", s_2x2, 0, 10, 2, 0, 0, 1, 300, "two threads, two datagrams"},
    {"async_2_deep", s_async, 0, 255, 1, 0, 0, 1, 300, "two datagrams at any moment"},
};
int main(int c, char** v) { return mc_run(c, v, "C21", SCN, sizeof SCN / sizeof *SCN); }
