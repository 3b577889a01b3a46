// DEFS: -DFN_LOG_MAX_CHANNEL_SIZE=2
#include "common.h"
#define DEV(ch, sync, port, extra) " - channel: " #ch "\n    sync: " sync "\n" extra "    -device: 0\n        disable: false\n        out_type: udp\n        udp_addr: 127.0.0.1:" #port "\n"
#define VDEV "    -device: 1\n        disable: false\n        out_type: virtual\n"
static const char* const AA = DEV(0, "null", 9001, "") VDEV DEV(1, "null", 9002, "");
static const char* const AS = DEV(0, "null", 9001, "") VDEV DEV(1, "sync", 9002, "");
static const char* const SA = DEV(0, "sync", 9001, "") VDEV DEV(1, "null", 9002, "");
static const char* const SS = DEV(0, "sync", 9001, "") VDEV DEV(1, "sync", 9002, "");
static const char* const AAV = DEV(0, "null", 9001, "") VDEV DEV(1, "null", 9002, "") VDEV;   // the target has a virtual device, too
static int g_calls[HMAX], g_thr[HMAX], g_bad;
MC_NI static int hooked(const LogData& d) {
    char c[700]; size_t n = strnlen(d.content_, LogData::LOG_SIZE); if ((int)n != d.content_len_) mc_fail("hook", "the hook sees %zu bytes of text terminated by NUL, content_len_ is %d", n, d.content_len_);
    memcpy(c, d.content_, n); c[n] = '\n'; int r = rec_id(c, n + 1); if (r < 0) { char b[300]; show(b, 300, c, n); mc_fail("hook", "the hook sees \"%s\", which nobody logged", b); }
    if (d.channel_id_ != 0 && d.channel_id_ != 1) mc_fail("hook", "the hook sees channel %d", d.channel_id_);
    if (++g_calls[r] > 1) mc_fail("hook", "the hook is called twice for R%02d", r); g_thr[r] = mc_self();
    Sink s; sink_of(9001, &s); for (int i = 0; i < s.n; i++) if (rec_id(s.p[i], s.len[i]) == r) mc_fail("hook", "R%02d is output before the hook is called", r);
    return r;
}
static void hook_fwd(const LogData& d) { hooked(d); TransmitChannel(*L, 1, d.category_, d.identify_, d); }
static void hook_only(const LogData& d) { hooked(d); }
static int g_by[HMAX];
static void prod(void* a) { long v = (long)a; int r0 = (int)(v >> 3), n = (int)(v & 7); for (int k = 0; k < n; k++) { g_by[r0 + k] = mc_self(); log_rec(r0 + k, 0); if (g_calls[r0 + k] != 1) mc_fail("hook", "the hook was not called when the call for R%02d returned", r0 + k); if (g_thr[r0 + k] != mc_self()) mc_fail("hook", "the hook ran on another thread"); mc_point(); } }
#define HP(first, count) mc_spawn(prod, (void*)(long)(((first) << 3) | (count)))
static void setup(const char* cfg, void (*h)(const LogData&)) { SetVirtualDevice(h); L = new_logger(); start_with(cfg); ignore_stats(); }
static void end() { mc_atomic_begin(); StopLogger(*L); delete L; SetVirtualDevice(0); mc_atomic_end(); }
static void fwd(const char* cfg, int n) {
    mc_atomic_begin(); setup(cfg, hook_fwd); mc_atomic_end(); int a = HP(0, n), b = HP(n, n); mc_join(a); mc_join(b); mc_quiesce();
    check_sink("channel 0", 9001, mask(0, 2 * n), 0); check_sink("forwarded to channel 1", 9002, mask(0, 2 * n), 0); end();
}
static void s_aa() { fwd(AA, 1); } static void s_as() { fwd(AS, 1); } static void s_sa() { fwd(SA, 1); } static void s_ss() { fwd(SS, 1); } static void s_aav() { fwd(AAV, 1); }
static void s_one() { mc_atomic_begin(); setup(AA, hook_fwd); mc_atomic_end(); int a = HP(0, 2); mc_join(a); mc_quiesce(); check_sink("channel 0", 9001, mask(0, 2), CHK_ORDER); check_sink("forwarded to channel 1", 9002, mask(0, 2), CHK_ORDER); end(); }
static void s_hook() { mc_atomic_begin(); setup(AA, hook_only); mc_atomic_end(); int a = HP(0, 1), b = HP(1, 1); mc_join(a); mc_join(b); mc_quiesce(); check_sink("channel 0", 9001, mask(0, 2), 0); check_sink("channel 1", 9002, 0, 0); end(); }
// channel 1 also has its own logging thread, and its output is slow
static void p1(void*) { log_rec(30, 1); }
static void s_mix() { mc_atomic_begin(); setup(AA, hook_fwd); mc_atomic_end(); int a = HP(0, 1), b = mc_spawn(p1, 0); mc_join(a); mc_join(b); mc_quiesce(); check_sink("channel 0", 9001, mask(0, 1), 0); check_sink("channel 1", 9002, mask(0, 1) | 1ull << 30, 0); end(); }
// the target channel is full: the forwarding call waits and nothing is lost
static void s_full() {
    mc_atomic_begin(); setup(AA, 0); mc_block_port(9002, 1); log_n(20, 10, 1); mc_quiesce(); SetVirtualDevice(hook_fwd); mc_atomic_end();
    int a = HP(0, 1), b = HP(1, 1); mc_quiesce(); mc_block_port(9002, 0); mc_join(a); mc_join(b); mc_quiesce();
    check_sink("channel 0", 9001, mask(0, 2), 0); check_sink("forwarded to a full channel", 9002, mask(0, 2) | mask(20, 30), 0); end();
}
static const McScenario SCN[] = {
    {"hook", s_hook, 0, 3, 1, 0, 0, 0, 60, "hook called once per record, on the logging thread"},
    {"one", s_one, 0, 3, 1, 0, 0, 0, 60, "one thread, forwarded between asynchronous channels"},
    {"aa", s_aa, 0, 2, 1, 0, 0, 0, 60, "two threads, asynchronous to asynchronous"},
    {"aav", s_aav, 0, 2, 0, 0, 0, 0, 60, "the target channel has a virtual device, too"},
    {"as", s_as, 0, 3, 1, 0, 0, 0, 60, "asynchronous to synchronous"},
    {"sa", s_sa, 0, 3, 1, 0, 0, 0, 60, "synchronous to asynchronous"},
    {"ss", s_ss, 0, 5, 1, 0, 0, 0, 60, "synchronous to synchronous"},
    {"mix", s_mix, 0, 2, 0, 0, 0, 0, 60, "the target channel has its own logging thread"},
    {"full", s_full, 0, 2, 0, 0, 0, 0, 60, "the target channel is full"},
    {"aa_deep", s_aa, 0, 3, 1, 0, 0, 1, 300, "two threads"},
    {"mix_deep", s_mix, 0, 4, 1, 0, 0, 1, 300, "the target channel has its own logging thread"},
};
int main(int c, char** v) { return mc_run(c, v, "C20", SCN, sizeof SCN / sizeof *SCN); }
