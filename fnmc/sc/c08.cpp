#include "common.h"
// Threads log records of different priority, category and identify at the same time to two devices with different filters, while
// another thread changes settings of one of them: each device has exactly the records it admits.
static char g_cfg[1200];
MC_NI static const char* cfg(const char* sync, const char* chl, const char* d0, const char* d1) { sprintf(g_cfg, " - channel: 0\n    sync: %s\n%s    -device: 0\n        disable: false\n        out_type: udp\n        udp_addr: 127.0.0.1:9001\n%s    -device: 1\n        disable: false\n        out_type: udp\n        udp_addr: 127.0.0.1:9002\n%s", sync, chl, d0, d1); return g_cfg; }
struct Filt { int prio; long long cat, cext; unsigned long long cmask; long long id, iext; unsigned long long imask; };
struct Att { int prio, cat; long long id; };
MC_NI static bool admits(const Filt& f, const Att& a) { if (a.prio < f.prio) return false; if (f.cext > 0 && (a.cat < f.cat || a.cat >= f.cat + f.cext)) return false; if (f.iext > 0 && (a.id < f.id || a.id >= f.id + f.iext)) return false; if (f.cmask && !(f.cmask >> a.cat & 1)) return false; if (f.imask && !(f.imask >> a.id & 1)) return false; return true; }
static const Att AT[] = {{PRIORITY_TRACE, 1, 1}, {PRIORITY_WARN, 1, 5}, {PRIORITY_WARN, 6, 1}, {PRIORITY_FATAL, 3, 3}, {PRIORITY_INFO, 5, 6}, {PRIORITY_ERROR, 6, 6}};
static const int NA = sizeof AT / sizeof *AT;
static void put(int r, const Att& a) { char b[48]; rec_text(r, b); h_begin(r); { LogStream s(*L, 0, a.prio, a.cat, a.id, "", 0, 0, "", 0, LOG_PREFIX_NULL); s << (const char*)b; } h_end(r); }
struct PA { int first, n; }; static PA g_pa[2];
static void prod(void* p) { PA* a = (PA*)p; for (int i = 0; i < a->n; i++) { put(a->first + i, AT[(a->first + i) % NA]); mc_point(); } }
struct Conf { const char* chl, *d0, *d1; Filt c, f0, f1; };
static const Conf CF[] = {
    {"", "        priority: warn\n", "        category: 5\n        category_extend: 2\n", {0, 0, 0, 0, 0, 0, 0}, {PRIORITY_WARN, 0, 0, 0, 0, 0, 0}, {0, 5, 2, 0, 0, 0, 0}},
    {"    category_wlist: 1,3,6\n", "        identify: 5\n        identify_extend: 2\n", "        priority: error\n        identify_wlist: 3\n", {0, 0, 0, 1u << 1 | 1u << 3 | 1u << 6, 0, 0, 0}, {0, 0, 0, 0, 5, 2, 0}, {PRIORITY_ERROR, 0, 0, 0, 0, 0, 1u << 3}},
    {"    priority: info\n    identify: 1\n    identify_extend: 5\n", "", "        category_wlist: 6\n", {PRIORITY_INFO, 0, 0, 0, 1, 5, 0}, {0, 0, 0, 0, 0, 0, 0}, {0, 0, 0, 1u << 6, 0, 0, 0}},
};
static const int NC = sizeof CF / sizeof *CF;
MC_NI static unsigned long long want(const Conf& c, const Filt& f, int n) { unsigned long long m = 0; for (int i = 0; i < n; i++) if (admits(c.c, AT[i % NA]) && admits(f, AT[i % NA])) m |= 1ull << i; return m; }
static void changer(void*) { for (int i = 0; i < 2; i++) { SetDeviceConfig(*L, 0, 1, DEVICE_CFG_PRIORITY, i ? PRIORITY_TRACE : PRIORITY_FATAL); mc_point(); } }
static void run(const char* sync, bool change) {
    int k = mc_choose(NC, "configuration"); const Conf& c = CF[k]; mc_atomic_begin(); L = new_logger(); start_with(cfg(sync, c.chl, c.d0, c.d1)); ignore_stats(); mc_atomic_end(); int n = change ? 2 : 3; unsigned f = sync[0] == 'a' ? CHK_ORDER : 0;
    for (int i = 0; i < 2; i++) { g_pa[i].first = i * n; g_pa[i].n = n; } int a = mc_spawn(prod, &g_pa[0]), b = mc_spawn(prod, &g_pa[1]), x = change ? mc_spawn(changer, 0) : -1; mc_join(a); mc_join(b); if (change) mc_join(x); mc_quiesce();
    check_sink("device 0", 9001, want(c, c.f0, 2 * n), f); Filt lo = c.f1; lo.prio = 0; if (!change) check_sink("device 1", 9002, want(c, c.f1, 2 * n), f); else check_sink("device 1, its priority changes", 9002, 0, f, want(c, lo, 2 * n));
    if (change) { mc_atomic_begin(); put(20, AT[3]); put(21, AT[2]); mc_quiesce(); unsigned long long w = 0; for (int i = 0; i < 2; i++) if (admits(c.c, AT[3 - i]) && admits(lo, AT[3 - i])) w |= 1ull << (20 + i); check_sink("device 1 after the change", 9002, w, 0, want(c, lo, 2 * n)); mc_atomic_end(); }
    mc_atomic_begin(); int r = StopLogger(*L); if (r) mc_fail("code", "stop returned %d", r); delete L; mc_atomic_end();
}
static void s_sync() { run("sync", false); } static void s_async() { run("async", false); } static void s_change() { run("sync", true); } static void s_achange() { run("async", true); }
static const McScenario SCN[] = {
    {"sync", s_sync, 0, 3, 1, 0, 0, 0, 60, "two threads, three records each, synchronous channel, three configurations"},
    {"async", s_async, 0, 2, 0, 0, 0, 0, 60, "asynchronous channel"},
    {"change", s_change, 0, 2, 0, 0, 0, 0, 60, "another device's threshold changes meanwhile, synchronous channel"},
    {"change_async", s_achange, 0, 1, 0, 0, 0, 0, 60, "same, asynchronous channel"},
    {"sync_deep", s_sync, 0, 5, 1, 0, 0, 1, 300, "two threads, three records each"},
    {"change_deep", s_change, 0, 3, 1, 0, 0, 1, 300, "another device's threshold changes meanwhile"},
};
int main(int c, char** v) { return mc_run(c, v, "C08", SCN, sizeof SCN / sizeof *SCN); }
