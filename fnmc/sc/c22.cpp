// DEFS: -DFN_LOG_MAX_CHANNEL_SIZE=2
#include "common.h"
#define DEV(ch, sync, port) " - channel: " #ch "\n    sync: " sync "\n    -device: 0\n        disable: false\n        out_type: udp\n        udp_addr: 127.0.0.1:" #port "\n"
static const char* const AA = DEV(0, "null", 9001) DEV(1, "null", 9002);
static const char* const SA = DEV(0, "sync", 9001) DEV(1, "null", 9002);
static const char* const AS = DEV(0, "null", 9001) DEV(1, "sync", 9002);
static const char* const SS = DEV(0, "sync", 9001) DEV(1, "sync", 9002);
static const char* const FA = " - channel: 0\n    sync: null\n    -device: 0\n        disable: false\n        out_type: file\n        file: f\n        path: d\n" DEV(1, "null", 9002);
static void p0(void* a) { long v = (long)a; int r0 = (int)(v >> 3), n = (int)(v & 7); for (int k = 0; k < n; k++) { log_rec(r0 + k, 0); mc_point(); } }
static void p1(void* a) { long v = (long)a; int r0 = (int)(v >> 3), n = (int)(v & 7); for (int k = 0; k < n; k++) { log_rec(r0 + k, 1); mc_point(); } }
#define P0(first, count) mc_spawn(p0, (void*)(long)(((first) << 3) | (count)))
#define P1(first, count) mc_spawn(p1, (void*)(long)(((first) << 3) | (count)))
static void setup(const char* cfg) { L = new_logger(); start_with(cfg); ignore_stats(); }
static void stop() { mc_atomic_begin(); int r = StopLogger(*L); if (r) mc_fail("code", "stop returned %d", r); mc_atomic_end(); }
static void del() { mc_atomic_begin(); delete L; mc_atomic_end(); }
// both channels work at the same time
static void both(const char* cfg, int n) {
    mc_atomic_begin(); setup(cfg); mc_atomic_end(); int a = P0(0, n), b = P1(20, n); mc_join(a); mc_join(b); mc_quiesce();
    check_sink("channel 0", 9001, mask(0, n), CHK_ORDER); check_sink("channel 1", 9002, mask(20, 20 + n), CHK_ORDER); stop();
    check_sink("channel 0", 9001, mask(0, n), CHK_ORDER); check_sink("channel 1", 9002, mask(20, 20 + n), CHK_ORDER); del();
}
static void s_aa() { both(AA, 1); }
static void s_sa() { both(SA, 2); }
static void s_ss() { both(SS, 2); }
// channel 0's output stays blocked until the very end: channel 1 must deliver everything meanwhile
static void blocked(const char* cfg, int pre, int n0, int n1) {
    mc_atomic_begin(); setup(cfg); mc_block_port(9001, 1); if (pre) { log_n(0, pre, 0); mc_quiesce(); } mc_atomic_end();
    int a = P0(pre, n0), b = P1(20, n1); mc_join(b); mc_quiesce();
    check_sink("channel 1 while channel 0 is blocked", 9002, mask(20, 20 + n1), CHK_ORDER); check_sink("channel 0 while it is blocked", 9001, 0, 0);
    mc_block_port(9001, 0); mc_join(a); mc_quiesce(); check_sink("channel 0 after blocking", 9001, mask(0, pre + n0), CHK_ORDER); check_sink("channel 1", 9002, mask(20, 20 + n1), CHK_ORDER);
    stop(); del();
}
static void s_blk() { blocked(AA, 0, 2, 2); }
static void s_full() { blocked(AA, 10, 2, 2); }
static void s_blks() { blocked(SA, 0, 2, 2); }
static void s_blkss() { blocked(SS, 0, 1, 2); }
static void s_blkas() { blocked(AS, 9, 2, 2); }
static void s_file() {
    mc_atomic_begin(); setup(FA); log_rec(0, 0); mc_quiesce(); mc_block_path("d/f.log", 1); mc_atomic_end();
    int a = P0(1, 2), b = P1(20, 2); mc_join(b); mc_quiesce(); check_sink("channel 1 while channel 0's file is blocked", 9002, mask(20, 22), CHK_ORDER);
    mc_block_path("d/f.log", 0); mc_join(a); mc_quiesce(); size_t n; mc_file_get("d/f.log", &n); char b3[3][48]; size_t w = 0; for (int i = 0; i < 3; i++) { rec_text(i, b3[i]); w += strlen(b3[i]) + 1; } if (n != w) mc_fail("lost", "file of channel 0 has %zu of %zu bytes", n, w);
    stop(); del();
}
// channel 0 is hot-updated (device disabled, priorities raised), channel 1's part of the file is unchanged; or the other way round
static const char* const HOT_A = " hot_update: true\n" DEV(0, "null", 9001) DEV(1, "null", 9002);
static const char* const HOT_B = " hot_update: true\n - channel: 0\n    sync: null\n    priority: fatal\n    -device: 0\n        disable: true\n        out_type: udp\n        udp_addr: 127.0.0.1:9003\n" DEV(1, "null", 9002);
static void s_hot() {
    mc_atomic_begin(); mc_file_put("m.yaml", HOT_A, strlen(HOT_A), 1); L = new_logger(); int r = LoadAndStartLogger(*L, "m.yaml"); if (r) mc_fail("start", "start: %d", r); ignore_stats(); mc_quiesce(); mc_file_put("m.yaml", HOT_B, strlen(HOT_B), 2); mc_atomic_end();
    int b = P1(20, 2); mc_clock_advance(10); mc_join(b); mc_quiesce(); check_sink("channel 1 while channel 0 is hot-updated", 9002, mask(20, 22), CHK_ORDER);
    log_rec(1, 0); log_rec(30, 1); mc_quiesce(); check_sink("channel 0 disabled", 9001, 0, 0); check_sink("channel 0 disabled", 9003, 0, 0); check_sink("channel 1", 9002, mask(20, 22) | 1ull << 30, CHK_ORDER); stop(); del();
}
static const McScenario SCN[] = {
    {"aa", s_aa, 0, 2, 1, 0, 0, 0, 60, "two asynchronous channels at the same time"},
    {"sa", s_sa, 0, 3, 1, 0, 0, 0, 60, "synchronous and asynchronous channel"},
    {"ss", s_ss, 0, 255, 2, 0, 0, 0, 60, "two synchronous channels"},
    {"blk", s_blk, 0, 2, 0, 0, 0, 0, 60, "channel 0's output blocked for ever"},
    {"full", s_full, 0, 2, 0, 0, 0, 0, 60, "channel 0 full with a waiting caller"},
    {"blk_sync", s_blks, 0, 3, 1, 0, 0, 0, 60, "synchronous channel 0 blocked in its output"},
    {"blk_ss", s_blkss, 0, 6, 1, 0, 0, 0, 60, "two synchronous channels, one blocked in its output"},
    {"blk_as", s_blkas, 0, 2, 0, 0, 0, 0, 60, "asynchronous channel blocked and full, synchronous one works"},
    {"file", s_file, 0, 2, 0, 0, 0, 0, 60, "channel 0's file blocks"},
    {"hot", s_hot, 0, 2, 0, 0, 0, 0, 60, "channel 0 is hot-updated while channel 1 logs"},
    {"aa_deep", s_aa, 0, 4, 1, 0, 0, 1, 300, "two asynchronous channels"},
    {"full_deep", s_full, 0, 3, 1, 0, 0, 1, 300, "channel 0 full with a waiting caller"},
    {"hot_deep", s_hot, 0, 3, 1, 0, 0, 1, 300, "hot update of channel 0"},
};
int main(int c, char** v) { return mc_run(c, v, "C22", SCN, sizeof SCN / sizeof *SCN); }
