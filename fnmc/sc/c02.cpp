#include "common.h"
static void run(int prefill, int np, int per) {
    mc_atomic_begin();
    L = new_logger(); start_with(CFG_UDP1); ignore_stats();
    int r = 0; for (; r < prefill; r++) { log_rec(r); mc_quiesce(); }
    mc_atomic_end();
    int t[4]; for (int i = 0; i < np; i++) { t[i] = PROD(r, per); r += per; }
    for (int i = 0; i < np; i++) mc_join(t[i]);
    mc_quiesce();
    check_sink("after all calls returned", 9001, mask(0, r), CHK_ORDER);
    mc_atomic_begin(); StopLogger(*L); check_sink("after stop", 9001, mask(0, r), CHK_ORDER); delete L; mc_atomic_end();
}
// two devices on one channel: the order holds on each
static void s_2dev() {
    mc_atomic_begin();
    L = new_logger(); start_with(" - channel: 0\n    sync: null\n    -device: 0\n        disable: false\n        out_type: udp\n        udp_addr: 127.0.0.1:9001\n    -device: 1\n        disable: false\n        out_type: udp\n        udp_addr: 127.0.0.1:9002\n"); ignore_stats();
    mc_atomic_end();
    int a = PROD(0, 1), b = PROD(1, 1); mc_join(a); log_rec(2); mc_join(b);
    mc_quiesce();
    check_sink("device 0", 9001, mask(0, 3), CHK_ORDER); check_sink("device 1", 9002, mask(0, 3), CHK_ORDER);
    mc_atomic_begin(); StopLogger(*L); delete L; mc_atomic_end();
}
// a full queue: the consumer drains while a thread that had to wait logs on
static void s_full() {
    mc_atomic_begin();
    L = new_logger(); start_with(CFG_UDP1); ignore_stats();
    mc_block_port(9001, 1); log_n(0, 9); mc_quiesce();
    mc_atomic_end();
    int a = PROD(9, 2), b = PROD(11, 1);
    mc_block_port(9001, 0);
    mc_join(a); mc_join(b); mc_quiesce();
    check_sink("after a full queue drained", 9001, mask(0, 12), CHK_ORDER);
    mc_atomic_begin(); StopLogger(*L); delete L; mc_atomic_end();
}
static void s_1x3() { run(9, 1, 3); }
static void s_2x1() { run(10, 2, 1); }
static void s_2x2() { run(9, 2, 2); }
static void s_2x2_mid() { run(3, 2, 2); }
static void s_3x1() { run(9, 3, 1); }
static void s_2x3() { run(8, 2, 3); }
static const McScenario SCN[] = {
    {"1x3", s_1x3, 0, 255, 2, 0, 0, 0, 60, "one thread, three records across the wrap-around"},
    {"2x1", s_2x1, 0, 255, 2, 0, 0, 0, 60, "two threads x 1 record across the wrap-around"},
    {"2x2", s_2x2, 0, 3, 1, 0, 0, 2, 60, "two threads x 2 records across the wrap-around"},
    {"2x2_deep", s_2x2, 0, 6, 2, 0, 0, 1, 200, "two threads x 2 records across the wrap-around"},
    {"2x2_mid", s_2x2_mid, 0, 4, 1, 0, 0, 1, 120, "two threads x 2 records inside the queue"},
    {"2dev", s_2dev, 0, 2, 1, 0, 0, 0, 60, "two devices, three threads, one after another's return"},
    {"full", s_full, 0, 2, 1, 0, 0, 0, 60, "two threads against a full queue that drains"},
    {"3x1", s_3x1, 0, 3, 1, 0, 0, 1, 200, "three threads x 1 record"},
    {"2x3", s_2x3, 0, 3, 1, 0, 0, 1, 200, "two threads x 3 records"},
};
int main(int c, char** v) { return mc_run(c, v, "C02", SCN, sizeof SCN / sizeof *SCN); }
