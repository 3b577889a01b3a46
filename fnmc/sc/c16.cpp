// DEFS: -DFN_LOG_MAX_LOG_SIZE=1300
#include "common.h"
#include <vector>
#include <list>
#include <map>
#include <set>
#include <string>
// Threads render different values of one kind at the same time: each text is that of its own value.
static const char* cfg(bool async) { return async ? " - channel: 0\n    sync: async\n    -device: 0\n        disable: false\n        out_type: udp\n        udp_addr: 127.0.0.1:9001\n" : " - channel: 0\n    sync: sync\n    -device: 0\n        disable: false\n        out_type: udp\n        udp_addr: 127.0.0.1:9001\n"; }
static const int NK = 16;
static int g_kind;
static void render(LogStream& s, int k, int w) {   // w: which of the three threads
    static const double D[] = {-1234.5678, 0.0625, 98765.4321}; static const char* const STR[] = {"alpha", "a longer text of the second thread", ""}; static const unsigned char BIN[3][20] = {{1, 2, 3}, "0123456789abcdef\x7f", {0xff}}; static const int BN[] = {3, 17, 1};
    switch (k) {
    case 0: s << (w == 0 ? (signed char)-1 : w == 1 ? (signed char)65 : (signed char)127) << (w == 0 ? 'x' : w == 1 ? 'y' : 'z'); break;
    case 1: s << (short)(w == 0 ? -32768 : w == 1 ? 12 : 999) << (unsigned short)(w * 777); break;
    case 2: s << (w == 0 ? -2147483647 - 1 : w == 1 ? 5 : 123456); break;
    case 3: s << (w == 0 ? 4294967295u : w == 1 ? 0u : 77u); break;
    case 4: s << (w == 0 ? -9223372036854775807ll - 1 : w == 1 ? 1234567890123ll : 8ll); break;
    case 5: s << (w == 0 ? 18446744073709551615ull : w == 1 ? 90ull : 31415926535ull); break;
    case 6: s << D[w]; break;
    case 7: s << (float)D[w]; break;
    case 8: s << (w != 1); break;
    case 9: s << (const void*)(w == 0 ? 0x7fffdeadbeefull : w == 1 ? 0x10ull : 0xabcdefull); break;
    case 10: s << STR[w] << std::string(STR[(w + 1) % 3]); break;
    case 11: s.write_binary((const char*)BIN[w], BN[w]); break;
    case 12: { std::vector<int> v; for (int i = 0; i < 3 + w; i++) v.push_back(i * 10 + w); s << v; break; }
    case 13: { std::map<int, std::string> m; m[w] = STR[w]; m[w + 5] = "q"; s << m; break; }
    case 14: { std::pair<int, double> p(w * 3, D[w]); s << p; std::set<long long> t; t.insert(w); t.insert(-w); s << t; break; }
    case 15: s << D[w] << "/" << w << "/" << (const void*)(0x1000ull + w) << "/" << (w == 1) << "/" << -77ll * w; break;
    }
}
static char g_want[3][1400]; static size_t g_len[3];
static void one(int w, int tag) { LogStream s(*L, 0, PRIORITY_INFO, 0, 0, "", 0, 0, "", 0, LOG_PREFIX_NULL); render(s, g_kind, w); s << (tag ? "#" : "") ; }
static void thr(void* a) { one((int)(long)a, 0); }
MC_NI static void keep(int w) { int port; size_t l; const char* p = mc_sink_get(mc_sink_count() - 1, &port, &l); if (l > sizeof g_want[0]) mc_fail("form", "a text of %d bytes", (int)l); memcpy(g_want[w], p, l); g_len[w] = l; }
MC_NI static void check(int base, int n) {
    unsigned seen = 0; char a[300], b[300]; if (mc_sink_count() != base + n) mc_fail("lost", "%d records are output instead of %d", mc_sink_count() - base, n); unsigned long long oc = 0;
    for (int i = 0; i < n; i++) { int port; size_t l; const char* p = mc_sink_get(base + i, &port, &l); int hit = -1; for (int w = 0; w < n; w++) if (!(seen >> w & 1) && l == g_len[w] && !memcmp(p, g_want[w], l)) { hit = w; break; }
        if (hit < 0) { show(a, sizeof a, p, l); show(b, sizeof b, g_want[0], g_len[0]); mc_fail("text", "values of kind %d rendered by %d threads at once: \"%s\" is the text of none of the values (the first alone is \"%s\")", g_kind, n, a, b); } seen |= 1u << hit; oc = oc * 5 + (unsigned)hit; }
    mc_outcome(oc);
}
static void run(bool async, int n) {
    g_kind = mc_choose(NK, "kind of value"); mc_atomic_begin(); L = new_logger(); start_with(cfg(async)); ignore_stats();
    for (int w = 0; w < n; w++) { one(w, 0); mc_quiesce(); keep(w); } int base = mc_sink_count(); mc_atomic_end();
    int t[3]; for (int w = 0; w < n; w++) t[w] = mc_spawn(thr, (void*)(long)w); for (int w = 0; w < n; w++) mc_join(t[w]); mc_quiesce(); check(base, n);
    mc_atomic_begin(); int r = StopLogger(*L); if (r) mc_fail("code", "stop returned %d", r); delete L; mc_atomic_end();
}
static void s_two() { run(false, 2); }
static void s_async() { run(true, 2); }
static void s_three() { run(false, 3); }
static const McScenario SCN[] = {
    {"two", s_two, 0, 4, 1, 0, 0, 0, 60, "two threads render values of one of 16 kinds, synchronous channel"},
    {"async", s_async, 0, 2, 1, 0, 0, 0, 60, "same, asynchronous channel"},
    {"three", s_three, 0, 2, 1, 0, 0, 0, 60, "three threads"},
    {"two_deep", s_two, 0, 255, 2, 0, 0, 1, 300, "two threads, unbounded"},
};
int main(int c, char** v) { return mc_run(c, v, "C16", SCN, sizeof SCN / sizeof *SCN); }
