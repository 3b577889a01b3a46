#include "common.h"
#include <vector>
#include <list>
#include <map>
#include <set>
#include <string>
// Threads fill their records beyond the maximum at the same time: each is cut as it is when it is alone, and stays one line.
static const char* cfg(bool async) { return async ? " - channel: 0\n    sync: async\n    -device: 0\n        disable: false\n        out_type: udp\n        udp_addr: 127.0.0.1:9001\n" : " - channel: 0\n    sync: sync\n    -device: 0\n        disable: false\n        out_type: udp\n        udp_addr: 127.0.0.1:9001\n"; }
static const int NK = 8;
static int g_kind;
static void render(LogStream& s, int k, int w) {   // w: which of the three threads
    static char big[3][1500]; char* t = big[w]; if (!t[0]) { for (int i = 0; i < 1490; i++) t[i] = (char)((w == 0 ? 'a' : w == 1 ? 'A' : '0') + i % (w == 2 ? 10 : 26)); }
    switch (k) {
    case 0: s.write_buffer(t, 600 + w * 45); s << -1234567ll * (w + 1); break;
    case 1: s.write_buffer(t, 630); for (int i = 0; i < 12; i++) s << (unsigned)(w * 1000 + i); break;
    case 2: s.write_buffer(t, 610 + w); s << -98765.4321 * (w + 1) << (const void*)(0xabc0ull + w); break;
    case 3: s << (const char*)t; break;
    case 4: s << std::string(t, 1490 - w); s << w; break;
    case 5: s.write_binary(t, 200 - w); break;
    case 6: s.write_buffer(t, 625); { std::map<int, std::string> m; m[w] = "value"; m[w + 9] = "other"; s << m; } break;
    case 7: s.write_buffer(t, 638 + w); s << 'x' << true << "yz"; break;
    }
}
static char g_want[3][1400]; static size_t g_len[3];
static void one(int w, int tag) { LogStream s(*L, 0, PRIORITY_INFO, 0, 0, "", 0, 0, "", 0, LOG_PREFIX_NULL); render(s, g_kind, w); s << (tag ? "#" : "") ; }
static void thr(void* a) { one((int)(long)a, 0); }
MC_NI static void keep(int w) { int port; size_t l; const char* p = mc_sink_get(mc_sink_count() - 1, &port, &l); if (l > sizeof g_want[0]) mc_fail("form", "a text of %d bytes", (int)l); if (l > 640 || p[l - 1] != '\n') mc_fail("form", "an output of %d bytes", (int)l); memcpy(g_want[w], p, l); g_len[w] = l; }
MC_NI static void check(int base, int n) {
    unsigned seen = 0; char a[300], b[300]; if (mc_sink_count() != base + n) mc_fail("lost", "%d records are output instead of %d", mc_sink_count() - base, n); unsigned long long oc = 0;
    for (int i = 0; i < n; i++) { int port; size_t l; const char* p = mc_sink_get(base + i, &port, &l); int hit = -1; for (int w = 0; w < n; w++) if (!(seen >> w & 1) && l == g_len[w] && !memcmp(p, g_want[w], l)) { hit = w; break; }
        if (hit < 0) { show(a, sizeof a, p, l); show(b, sizeof b, g_want[0], g_len[0]); mc_fail("text", "oversized records of kind %d by %d threads at once: \"%s\" is none of the records (the first alone is \"%s\")", g_kind, n, a, b); } seen |= 1u << hit; oc = oc * 5 + (unsigned)hit; }
    mc_outcome(oc);
}
static void run(bool async, int n) {
    g_kind = mc_choose(NK, "kind of value"); mc_atomic_begin(); L = new_logger(); start_with(cfg(async)); ignore_stats(); guard_records();
    for (int w = 0; w < n; w++) { one(w, 0); mc_quiesce(); keep(w); } int base = mc_sink_count(); mc_atomic_end();
    int t[3]; for (int w = 0; w < n; w++) t[w] = mc_spawn(thr, (void*)(long)w); for (int w = 0; w < n; w++) mc_join(t[w]); mc_quiesce(); check(base, n);
    mc_atomic_begin(); int r = StopLogger(*L); if (r) mc_fail("code", "stop returned %d", r); delete L; mc_atomic_end();
}
static void s_two() { run(false, 2); }
static void s_async() { run(true, 2); }
static void s_three() { run(false, 3); }
static const McScenario SCN[] = {
    {"two", s_two, 0, 4, 1, 0, 0, 0, 60, "two threads fill records beyond the maximum in one of 8 ways, synchronous channel"},
    {"async", s_async, 0, 2, 1, 0, 0, 0, 60, "same, asynchronous channel"},
    {"three", s_three, 0, 2, 1, 0, 0, 0, 60, "three threads"},
    {"two_deep", s_two, 0, 255, 2, 0, 0, 1, 300, "two threads, unbounded"},
};
int main(int c, char** v) { return mc_run(c, v, "C17", SCN, sizeof SCN / sizeof *SCN); }
