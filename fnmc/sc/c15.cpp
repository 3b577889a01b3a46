// DEFS: -DFN_LOG_MAX_CHANNEL_SIZE=2
#include "common.h"
#define CH(id, sync, extra) " - channel: " #id "\n    sync: " sync "\n" extra
#define DEV(id, port, extra) "    -device: " #id "\n        disable: false\n        out_type: udp\n        udp_addr: 127.0.0.1:" #port "\n" extra
#define HOT " hot_update: true\n"
static const char* const A1 = HOT CH(0, "null", "") DEV(0, 9001, "");
static const char* const A1_ADD = HOT CH(0, "null", "") DEV(0, 9001, "") DEV(1, 9002, "");
static const char* const A1_PORT = HOT CH(0, "null", "") DEV(0, 9003, "        priority: error\n");
static const char* const A1_OFF = HOT CH(0, "null", "    priority: fatal\n") DEV(0, 9001, "");
static const char* const A1_NOHOT = CH(0, "null", "") DEV(0, 9003, "");
static const char* const S1 = HOT CH(0, "sync", "") DEV(0, 9001, "");
static const char* const S1_ADD = HOT CH(0, "sync", "") DEV(0, 9001, "") DEV(1, 9002, "");
static const char* const S1_PORT = HOT CH(0, "sync", "") DEV(0, 9003, "");
static const char* const S1_PP = HOT CH(0, "sync", "") DEV(0, 9003, "        priority: error\n");
// invalid in different ways, after settings that would change something
static const char* const BAD[] = {
    HOT CH(0, "null", "    priority: fatal\n") DEV(0, 9003, "        bogus: 1\n"),
    HOT CH(0, "null", "    priority: fatal\n") DEV(0, 9003, "") "    -device: 2\n        disable: false\n        out_type: udp\n",
    HOT CH(0, "null", "    priority: fatal\n") DEV(0, 9003, "") CH(3, "null", ""),
    HOT CH(0, "null", "    priority: fatal\n") DEV(0, 9003, "") DEV(0, 9003, ""),
    "", "-", HOT " - chan",
};
static long long g_mtime;
static void put(const char* text) { mc_file_put("m.yaml", text, strlen(text), ++g_mtime); }
static void start(const char* text) { g_mtime = 0; put(text); L = new_logger(); int r = LoadAndStartLogger(*L, "m.yaml"); if (r) mc_fail("start", "start: %d", r); ignore_stats(); }
static void stop() { mc_atomic_begin(); int r = StopLogger(*L); if (r) mc_fail("code", "stop returned %d", r); mc_atomic_end(); }
static void del() { mc_atomic_begin(); delete L; mc_atomic_end(); }
struct PA { int r0, n, prio, cat; };
static PA g_pa[4];
static void prod(void* a) { PA* p = (PA*)a; for (int k = 0; k < p->n; k++) { char b[48]; int r = p->r0 + k; rec_text(r, b); h_begin(r); PUT(*L, 0, p->prio, p->cat, 0, b); h_end(r); mc_point(); } }
static int spawn(int slot, int r0, int n, int prio = PRIORITY_INFO, int cat = 0) { g_pa[slot].r0 = r0; g_pa[slot].n = n; g_pa[slot].prio = prio; g_pa[slot].cat = cat; return mc_spawn(prod, &g_pa[slot]); }
static unsigned long long seen_on(int port) { Sink s; sink_of(port, &s); unsigned long long m = 0; for (int i = 0; i < s.n; i++) { int r = rec_id(s.p[i], s.len[i]); if (r >= 0) m |= 1ull << r; } return m; }
// a device is added while threads log
static void add(const char* a, const char* b, int np, int n) {
    mc_atomic_begin(); start(a); mc_quiesce(); put(b); mc_atomic_end();
    int t[2]; for (int i = 0; i < np; i++) t[i] = spawn(i, i * n, n); mc_clock_advance(10); for (int i = 0; i < np; i++) mc_join(t[i]); mc_quiesce();
    check_sink("first device during the update", 9001, mask(0, np * n), CHK_ORDER); check_sink("added device during the update", 9002, 0, CHK_ORDER, mask(0, np * n));
    unsigned long long m = seen_on(9002); for (int r = 0; r < np * n; r++) if (m >> r & 1) for (int q = 0; q < np * n; q++) if ((H.before[q] >> r & 1) && !(m >> q & 1)) mc_fail("lost", "added device: R%02d is output, but R%02d, logged later, is not", r, q);
    // an interval later every record gets to both
    mc_clock_advance(10); mc_quiesce(); log_rec(30); mc_quiesce(); log_rec(31); mc_quiesce();
    unsigned long long w = mask(0, np * n) | 3ull << 30; check_sink("first device", 9001, w, CHK_ORDER); check_sink("added device after the update", 9002, (3ull << 30) & ~(np == 0 ? 0 : 0), CHK_ORDER, w);
    stop(); check_sink("first device after stop", 9001, w, CHK_ORDER); del();
}
static void s_add() { add(A1, A1_ADD, 1, 2); }
static void s_add2() { add(A1, A1_ADD, 2, 1); }
// the port changes: every record goes to exactly one of the two
static void port(const char* a, const char* b, int np, int n, bool strict) {
    mc_atomic_begin(); start(a); mc_quiesce(); put(b); mc_atomic_end();
    int t[2]; for (int i = 0; i < np; i++) t[i] = spawn(i, i * n, n, PRIORITY_ERROR); int t2 = strict ? spawn(2, 20, 1, PRIORITY_INFO) : -1;
    mc_clock_advance(10); for (int i = 0; i < np; i++) mc_join(t[i]); if (strict) mc_join(t2); mc_quiesce();
    unsigned long long o = seen_on(9001), w = seen_on(9003), all = mask(0, np * n);
    check_sink("old port", 9001, 0, CHK_ORDER, all | (strict ? 1ull << 20 : 0)); check_sink("new port (old and new setting mixed)", 9003, 0, CHK_ORDER, all);
    for (int r = 0; r < np * n; r++) { int c = (int)(o >> r & 1) + (int)(w >> r & 1); if (c != 1) mc_fail(c ? "duplicate" : "lost", "R%02d is output %d times while the port is updated", r, c); }
    for (int r = 0; r < np * n; r++) for (int q = 0; q < np * n; q++) if ((H.before[q] >> r & 1) && (w >> r & 1) && (o >> q & 1)) mc_fail("order", "R%02d goes to the new port, R%02d, logged later, to the old one", r, q);
    mc_clock_advance(10); mc_quiesce(); log_rec(30, 0, PRIORITY_ERROR); mc_quiesce(); log_rec(31, 0, PRIORITY_ERROR); mc_quiesce(); check_sink("new port after the update", 9003, w | 3ull << 30, CHK_ORDER); check_sink("old port after the update", 9001, o, CHK_ORDER);
    stop(); del();
}
static void s_port() { port(A1, A1_PORT, 1, 2, true); }
static void s_port2() { port(A1, A1_PORT, 2, 1, true); }
static void s_nohot() { port(A1, A1_NOHOT, 1, 2, false); }
// the channel threshold is raised
static void s_off() {
    mc_atomic_begin(); start(A1); mc_quiesce(); put(A1_OFF); mc_atomic_end();
    int a = spawn(0, 0, 2, PRIORITY_FATAL), b = spawn(1, 10, 2, PRIORITY_INFO); mc_clock_advance(10); mc_join(a); mc_join(b); mc_quiesce();
    check_sink("threshold raised", 9001, mask(0, 2), CHK_ORDER, mask(10, 12)); unsigned long long m = seen_on(9001); if ((m >> 11 & 1) && !(m >> 10 & 1)) mc_fail("lost", "R11 is output, R10, logged earlier, is not");
    log_rec(30); log_rec(31, 0, PRIORITY_FATAL); mc_quiesce(); check_sink("after the update", 9001, m | 1ull << 31, CHK_ORDER); stop(); del();
}
// invalid, missing and unchanged files change nothing; the next valid one is applied
static void s_bad() {
    int k = mc_choose((int)(sizeof BAD / sizeof *BAD) + 2, "kind of bad file");
    mc_atomic_begin(); start(A1); mc_quiesce();
    if (k < (int)(sizeof BAD / sizeof *BAD)) put(BAD[k]); else if (k == (int)(sizeof BAD / sizeof *BAD)) mc_file_del("m.yaml"); else mc_file_put("m.yaml", A1_PORT, strlen(A1_PORT), g_mtime);   // unchanged time stamp
    mc_atomic_end();
    int a = spawn(0, 0, 2); mc_clock_advance(10); mc_join(a); mc_quiesce(); log_rec(2); mc_quiesce(); check_sink("bad file", 9001, mask(0, 3), CHK_ORDER); check_sink("bad file", 9003, 0, 0);
    mc_atomic_begin(); put(A1_ADD); mc_atomic_end(); int b = spawn(0, 3, 1); mc_clock_advance(10); mc_join(b); mc_quiesce(); log_rec(4); mc_quiesce();
    check_sink("good file", 9001, mask(0, 5), CHK_ORDER); check_sink("good file, added device", 9002, 1ull << 4, CHK_ORDER, 1ull << 3); stop(); del();
}
// update and stop at the same time
static void s_stop() {
    mc_atomic_begin(); start(A1); mc_quiesce(); put(A1_ADD); mc_atomic_end();
    int a = spawn(0, 0, 2); mc_clock_advance(10); mc_point(); unsigned long long d = H.done; int r = StopLogger(*L); if (r) mc_fail("code", "stop returned %d", r);
    check_sink("update during stop", 9001, d, CHK_ORDER, mask(0, 2)); mc_join(a); mc_quiesce(); check_sink("update during stop", 9001, d, CHK_ORDER, mask(0, 2)); check_sink("update during stop, added device", 9002, 0, CHK_ORDER, mask(0, 2)); del();
}
// control calls during the update
static void ctl(void*) { SetDeviceConfig(*L, 0, 0, DEVICE_CFG_PRIORITY, PRIORITY_TRACE); mc_point(); if (GetDeviceConfig(*L, 0, 0, DEVICE_CFG_ABLE) != 1) mc_fail("query", "device 0 is reported disabled during an update"); (void)GetChannelLog(*L, 0, CHANNEL_LOG_HOTUPDATE_CHANGE); int r = ParseAndStartLogger(*L, A1); if (r != E_LOGGER_IN_USE) mc_fail("code", "start of a running logger returned %d", r); }
static void s_ctl() {
    mc_atomic_begin(); start(A1); mc_quiesce(); put(A1_ADD); mc_atomic_end();
    int c = mc_spawn(ctl, 0), a = spawn(0, 0, 1); mc_clock_advance(10); mc_join(a); mc_join(c); mc_quiesce(); mc_clock_advance(10); mc_quiesce(); log_rec(1); mc_quiesce();
    check_sink("control calls during the update", 9001, mask(0, 2), CHK_ORDER); check_sink("control calls, added device", 9002, 2, CHK_ORDER, 1); stop(); del();
}
// a synchronous channel updates itself in the logging threads
static void s_sadd() { add(S1, S1_ADD, 2, 1); }
static void s_sport() { port(S1, S1_PORT, 2, 1, false); }
// several settings that belong together
static const char* const R_A = HOT CH(0, "null", "    category: 10\n    category_extend: 5\n") DEV(0, 9001, "");
static const char* const R_B = HOT CH(0, "null", "    category: 0\n    category_extend: 20\n") DEV(0, 9001, "");
static void s_mix() {
    mc_atomic_begin(); start(R_A); mc_quiesce(); put(R_B); mc_atomic_end();
    int a = spawn(0, 0, 1, PRIORITY_INFO, 12); mc_clock_advance(10); mc_join(a); mc_quiesce(); check_sink("category 12, admitted by the old and by the new file", 9001, 1, CHK_ORDER); stop(); del();
}
static void s_smix() { port(S1, S1_PP, 1, 1, true); }
// two channels: the file is applied to both
static const char* const T_A = HOT CH(0, "null", "") DEV(0, 9001, "") CH(1, "null", "") DEV(0, 9002, "");
static const char* const T_B = HOT CH(0, "null", "") DEV(0, 9003, "") CH(1, "null", "") DEV(0, 9004, "");
static const char* const T_OFF = CH(0, "null", "") DEV(0, 9003, "") CH(1, "null", "") DEV(0, 9004, "");
static void two(const char* b, bool log) {
    mc_atomic_begin(); start(T_A); mc_quiesce(); put(b); mc_atomic_end();
    int a = log ? spawn(0, 0, 1) : -1; mc_clock_advance(10); if (log) mc_join(a); mc_quiesce();
    log_rec(2); log_rec(3, 1); mc_quiesce();
    check_sink("channel 0 updated", 9003, 4, CHK_ORDER, 1); check_sink("channel 1 updated", 9004, 8, CHK_ORDER); check_sink("channel 1 updated", 9002, 0, CHK_ORDER); check_sink("channel 0 updated", 9001, 0, CHK_ORDER, 1);
    if (log) { unsigned long long o = seen_on(9001), w = seen_on(9003); if ((o & 1) + (w & 1) != 1) mc_fail("lost", "R00 is output %d times", (int)((o & 1) + (w & 1))); }
    stop(); del();
}
static void s_two() { two(T_B, true); }
static void s_twooff() { two(T_OFF, false); }
MC_NI static const char* k_off(const char* cls) { return !strcmp(cls, "lost") ? "hot-update-off-one-channel" : nullptr; }
MC_NI static const char* k_mix(const char* cls) { return !strcmp(cls, "lost") ? "hot-update-field-mix" : nullptr; }
MC_NI static const char* k_smix(const char* cls) { return !strcmp(cls, "invented") ? "hot-update-field-mix" : nullptr; }
static const McScenario SCN[] = {
    {"add", s_add, 0, 5, 1, 0, 0, 0, 60, "a device is added while a thread logs"},
    {"add2", s_add2, 0, 3, 1, 0, 0, 0, 60, "a device is added while two threads log"},
    {"port", s_port, 0, 2, 1, 0, 0, 0, 60, "port and threshold of a device change while two threads log"},
    {"port2", s_port2, 0, 2, 0, 0, 0, 1, 200, "same with three threads"},
    {"nohot", s_nohot, 0, 5, 1, 0, 0, 0, 60, "the new file also switches hot update off"},
    {"off", s_off, 0, 2, 1, 0, 0, 0, 60, "the channel's threshold is raised"},
    {"bad", s_bad, 0, 3, 0, 0, 0, 0, 60, "invalid, missing and unchanged files, then a valid one"},
    {"stop", s_stop, 0, 5, 1, 0, 0, 0, 60, "a stop at the same time"},
    {"ctl", s_ctl, 0, 3, 1, 0, 0, 0, 60, "control calls at the same time"},
    {"sync_add", s_sadd, 0, 4, 1, 0, 0, 0, 60, "synchronous channel: a device is added"},
    {"sync_port", s_sport, 0, 4, 1, 0, 0, 0, 60, "synchronous channel: the port changes"},
    {"mix", s_mix, 0, 3, 1, 0, 0, 0, 60, "both ends of a range change", k_mix},
    {"sync_mix", s_smix, 0, 3, 1, 0, 0, 0, 60, "synchronous channel: port and threshold change", k_smix},
    {"two", s_two, 0, 2, 0, 0, 0, 0, 60, "two channels, the file changes both"},
    {"two_off", s_twooff, 0, 2, 0, 0, 0, 0, 60, "two channels, the file changes both and switches hot update off", k_off},
    {"add_deep", s_add, 0, 255, 1, 0, 0, 1, 300, "a device is added"},
    {"stop_deep", s_stop, 0, 255, 1, 0, 0, 1, 300, "a stop at the same time"},
};
int main(int c, char** v) { return mc_run(c, v, "C15", SCN, sizeof SCN / sizeof *SCN); }
