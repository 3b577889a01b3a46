// DEFS: -DFN_LOG_MAX_CHANNEL_SIZE=2 -DFN_LOG_FORCE_FLUSH_QUE=1
#include "common.h"
// Threads log to a size-limited file while it rotates. The files are exactly what rotating gives for one order of the
// records; of an asynchronous channel, one that agrees with the real-time order of the calls (several threads that log to a
// synchronous channel output their records concurrently).
static char g_cfg[900]; static int g_k, g_limit; static bool g_stuff, g_async;
MC_NI static const char* cfg(const char* sync, int channels, int k, bool stuff) {
    int n = 0; for (int c = 0; c < channels; c++) n += sprintf(g_cfg + n, " - channel: %d\n    sync: %s\n    -device: 0\n        disable: false\n        out_type: udp\n        udp_addr: 127.0.0.1:900%d\n    -device: 1\n        disable: false\n        out_type: file\n        path: d\n        file: f%d\n        rollback: %d\n        stuff_up: %s\n", c, sync, c + 1, c, k, stuff ? "true" : "false"); g_k = k; g_stuff = stuff; g_async = sync[0] == 'a'; return g_cfg;
}
static void start(const char* sync, int channels, int limit, int k, bool stuff = false) { L = new_logger(); start_with(cfg(sync, channels, k, stuff)); ignore_stats(); g_limit = limit; for (int c = 0; c < channels; c++) SetDeviceConfig(*L, c, 1, DEVICE_CFG_FILE_LIMIT_SIZE, limit); }
static char gen[24][512]; static size_t len[24]; static int ng;
// what rotating in the given order of records gives; older: contents of the current file before the run
MC_NI static void simulate(const int* ord, int n, const char* older) {
    ng = 0; bool open = false; if (older) { strcpy(gen[0], older); len[0] = strlen(older); ng = 1; }
    for (int i = 0; i < n; i++) {
        char b[48]; rec_text(ord[i], b); strcat(b, "\n"); size_t l = strlen(b); bool rot = false, full = ng && len[ng - 1] + l > (size_t)g_limit; if (!open) { rot = ng && (!g_stuff || full); open = true; } else rot = full; if (!ng || rot) len[ng++] = 0;
        memcpy(gen[ng - 1] + len[ng - 1], b, l); len[ng - 1] += l; }
}
MC_NI static bool same(int ch) {
    for (int i = 0; i < g_k + 3; i++) { char nm[40]; if (i) sprintf(nm, "d/f%d.log.%d", ch, i); else sprintf(nm, "d/f%d.log", ch); size_t n; const char* p = mc_file_get(nm, &n); bool want = i < ng && i <= g_k; if (!want) { if (p) return false; continue; } int g = ng - 1 - i; if (!p || n != len[g] || memcmp(p, gen[g], n)) return false; }
    return true;
}
MC_NI static bool try_orders(int ch, int* ord, int n, unsigned long long left, const char* older) {
    if (!left) { simulate(ord, n, older); return same(ch); }
    for (int r = 0; r < HMAX; r++) if (left >> r & 1) { bool ok = true; if (g_async) for (int q = 0; q < HMAX && ok; q++) if ((left >> q & 1) && (H.before[r] >> q & 1)) ok = false; if (!ok) continue; ord[n] = r; if (try_orders(ch, ord, n + 1, left & ~(1ull << r), older)) return true; }
    return false;
}
MC_NI static void check(const char* ph, int ch, unsigned long long want, const char* older) {
    int ord[16]; if (try_orders(ch, ord, 0, want, older)) { unsigned long long oc = 0; for (int i = 0; i < __builtin_popcountll(want); i++) oc = oc * 41 + (unsigned)ord[i]; mc_outcome(oc); return; }
    char all[600]; int k = 0; for (int i = 0; i < g_k + 3; i++) { char nm[40], b[300]; if (i) sprintf(nm, "d/f%d.log.%d", ch, i); else sprintf(nm, "d/f%d.log", ch); size_t n; const char* p = mc_file_get(nm, &n); if (!p) continue; show(b, 60, p, n); k += sprintf(all + k, " %s: \"%s\"", nm, b); }
    mc_fail("content", "%s: no possible order of the records gives these files (limit %d, %d backups):%s", ph, g_limit, g_k, all);
}
struct PA { int r0, n, ch; }; static PA g_pa[4];
static void prod(void* a) { PA* p = (PA*)a; for (int k = 0; k < p->n; k++) { log_rec(p->r0 + k, p->ch); mc_point(); } }
static int spawn(int slot, int r0, int n, int ch = 0) { g_pa[slot].r0 = r0; g_pa[slot].n = n; g_pa[slot].ch = ch; return mc_spawn(prod, &g_pa[slot]); }
static void fin(int channels, unsigned long long w0, unsigned long long w1, const char* older) {
    mc_quiesce(); mc_atomic_begin(); int r = StopLogger(*L); if (r) mc_fail("code", "stop returned %d", r); check_sink("after stop", 9001, w0, 0); check("after stop", 0, w0, older); if (channels > 1) { check_sink("after stop", 9002, w1, 0); check("after stop", 1, w1, 0); }
    delete L; if (mc_open_handles()) mc_fail("leak", "%d files or sockets still open", mc_open_handles()); mc_atomic_end();
}
static void two(const char* sync, int limit, int k, bool stuff, int each, const char* older) {
    mc_atomic_begin(); if (older) mc_file_put("d/f0.log", older, strlen(older), 5); start(sync, 1, limit, k, stuff); mc_atomic_end();
    int a = spawn(0, 0, each), b = spawn(1, each, each); mc_join(a); mc_join(b); fin(1, mask(0, 2 * each), 0, older);
}
static void s_sync() { two("sync", 16, 2, false, 2, 0); }
static void s_old() { two("sync", 20, 3, false, 1, "older content\n"); }
static void s_stuff() { two("sync", 20, 3, true, 1, "older\n"); }
static void s_async() { two("async", 9, 2, false, 1, 0); }
static void s_tiny() { two("sync", 1, 1, false, 2, 0); }
static void s_chan() { mc_atomic_begin(); start("sync", 2, 9, 2); log_rec(20); log_rec(21, 1); mc_atomic_end(); int a = spawn(0, 0, 1, 0), b = spawn(1, 5, 1, 1); mc_join(a); mc_join(b); fin(2, 1ull | 1ull << 20, 1ull << 5 | 1ull << 21, 0); }
static void s_chan_async() { mc_atomic_begin(); start("async", 2, 9, 2); mc_atomic_end(); int a = spawn(0, 0, 1, 0), b = spawn(1, 5, 1, 1); mc_join(a); mc_join(b); fin(2, 1ull, 1ull << 5, 0); }
static void s_three() { mc_atomic_begin(); start("sync", 1, 12, 1); mc_atomic_end(); int a = spawn(0, 0, 1), b = spawn(1, 1, 1), c = spawn(2, 2, 1); mc_join(a); mc_join(b); mc_join(c); fin(1, mask(0, 3), 0, 0); }
static const McScenario SCN[] = {
    {"sync", s_sync, 0, 4, 1, 0, 0, 0, 60, "two threads, two records each, synchronous channel"},
    {"old", s_old, 0, 5, 1, 0, 0, 0, 60, "a file of an earlier run exists"},
    {"stuff_up", s_stuff, 0, 5, 1, 0, 0, 0, 60, "the earlier file is filled up"},
    {"tiny", s_tiny, 0, 4, 1, 0, 0, 0, 60, "limit of one byte, one backup"},
    {"async", s_async, 0, 4, 1, 0, 0, 0, 60, "asynchronous channel, every record rotates"},
    {"three", s_three, 0, 3, 1, 0, 0, 0, 60, "three threads"},
    {"channels", s_chan, 0, 5, 1, 0, 0, 0, 60, "two channels with a file each"},
    {"channels_async", s_chan_async, 0, 3, 0, 0, 0, 0, 60, "two asynchronous channels with a file each"},
    {"sync_deep", s_sync, 0, 6, 1, 0, 0, 1, 300, "two threads, two records each"},
    {"three_deep", s_three, 0, 5, 1, 0, 0, 1, 300, "three threads"},
};
int main(int c, char** v) { return mc_run(c, v, "C11", SCN, sizeof SCN / sizeof *SCN); }
