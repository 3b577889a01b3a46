#include "common.h"
static void run(int prefill, int np, int per, int sync_guard) {
    mc_atomic_begin();
    L = new_logger(); start_with(CFG_UDP1); ignore_stats(); if (sync_guard) guard_records();
    int r = 0; for (; r < prefill; r++) { log_rec(r); mc_quiesce(); }
    mc_atomic_end();
    int t[4]; for (int i = 0; i < np; i++) { t[i] = PROD(r, per); r += per; }
    for (int i = 0; i < np; i++) mc_join(t[i]);
    unsigned long long all = (1ull << r) - 1;
    mc_quiesce();
    check_sink("after all calls returned, without further log calls", 9001, all, 0);
    mc_atomic_begin();
    StopLogger(*L);
    check_sink("after stop", 9001, all, 0);
    delete L;
    mc_atomic_end();
}
static void s_2x1() { run(0, 2, 1, 0); }
static void s_2x1_wrap() { run(10, 2, 1, 0); }
static void s_1x2() { run(9, 1, 2, 0); }
static void s_2x2() { run(9, 2, 2, 0); }
static void s_3x1() { run(9, 3, 1, 0); }
static const McScenario SCN[] = {
    {"1x2", s_1x2, 0, 255, 2, 0, 0, 0, 100, "one producer, 2 records, consumer"},
    {"2x1", s_2x1, 0, 255, 2, 0, 0, 0, 100, "two producers x 1 record, consumer"},
    {"2x1_wrap", s_2x1_wrap, 0, 255, 2, 0, 0, 0, 100, "same across the queue wrap-around"},
    {"2x2", s_2x2, 0, 4, 1, 0, 0, 2, 60, "two producers x 2 records across the wrap-around"},
    {"2x2_all", s_2x2, 0, 255, 2, 0, 0, 1, 300, "two producers x 2 records across the wrap-around"},
    {"3x1", s_3x1, 0, 4, 1, 0, 0, 1, 300, "three producers"},
    {"2x1_tso", s_2x1, 0, 5, 0, 1, 0, 0, 100, "two producers, stores delayed in store buffers"},
};
int main(int c, char** v) { return mc_run(c, v, "C01", SCN, sizeof SCN / sizeof *SCN); }
