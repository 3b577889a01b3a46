// DEFS: -DFN_LOG_MAX_CHANNEL_SIZE=2
#include "common.h"
#include <time.h>
// Threads log while the local day (hour) changes: whatever the order, every record is in the file named for the day (hour) of its own stamp.
static const long long T0 = 1767225599;    // the last second of a year
#define DEVF(name, roll) "    -device: 0\n        disable: false\n        out_type: file\n        path: d\n        file: " name "\n" roll
static const char* const DAILY = "        rolldaily: true\n", * const HOURLY = "        rollhourly: true\n";
static char g_cfg[900];
MC_NI static const char* cfg(const char* sync, bool daily, int channels) {
    int n = 0; for (int c = 0; c < channels; c++) n += sprintf(g_cfg + n, " - channel: %d\n    sync: %s\n    -device: 0\n        disable: false\n        out_type: file\n        path: d\n        file: %c_%s\n%s", c, sync, 'a' + c, daily ? "$YEAR$MON$DAY" : "$YEAR$MON$DAY$HOUR", daily ? DAILY : HOURLY); return g_cfg;
}
struct Rec { long long from, to; int ch, seen; };
static Rec g_r[16]; static int g_n; static bool g_daily;
MC_NI static int begin(int ch) { int i = g_n++; g_r[i] = Rec{(long long)time(0), -1, ch, 0}; return i; }
MC_NI static void end(int i) { g_r[i].to = (long long)time(0); }
static void put(int ch) { int i = begin(ch); { LogStream s(*L, ch, PRIORITY_INFO, 0, 0, "", 0, 0, "", 0, LOG_PREFIX_TIMESTAMP); s << "t" << i; } end(i); }
MC_NI static void name_of(char* b, int ch, long long t) { time_t x = (time_t)t; struct tm d; localtime_r(&x, &d); int n = sprintf(b, "d/%c_%04d%02d%02d", 'a' + ch, d.tm_year + 1900, d.tm_mon + 1, d.tm_mday); if (!g_daily) n += sprintf(b + n, "%02d", d.tm_hour); sprintf(b + n, ".log"); }
MC_NI static void check(const char* ph, const long long* ts, int nts) {
    char nm[64], done[16][64]; int nd = 0; unsigned long long oc = 0;
    for (int i = 0; i < g_n; i++) g_r[i].seen = 0;
    for (int ch = 0; ch < 2; ch++) for (int q = 0; q < nts; q++) {
        name_of(nm, ch, ts[q]); bool had = false; for (int k = 0; k < nd; k++) had |= !strcmp(done[k], nm); if (had) continue; strcpy(done[nd++], nm);
        size_t n; const char* p = mc_file_get(nm, &n); if (!p) continue; size_t i = 0;
        while (i < n) { size_t e = i; while (e < n && p[e] != '\n') e++; char b[200]; show(b, sizeof b, p + i, e - i); int y, mo, d, h, mi, s, ms, id; size_t w = 0; if (e < n) w = e - i;
            if (w < 26 || w > 40 || sscanf(std::string(p + i, w).c_str(), "[%4d%2d%2d %2d:%2d:%2d.%3d] t%d", &y, &mo, &d, &h, &mi, &s, &ms, &id) != 8 || id < 0 || id >= g_n || g_r[id].ch != ch) { mc_fail("form", "%s: %s holds \"%s\", which is not a record", ph, nm, b); return; }
            char own[64]; int k = sprintf(own, "d/%c_%04d%02d%02d", 'a' + ch, y, mo, d); if (!g_daily) k += sprintf(own + k, "%02d", h); sprintf(own + k, ".log");
            if (strcmp(own, nm)) mc_fail("file", "%s: the record \"%s\" is in %s", ph, b, nm); if (g_r[id].seen++) mc_fail("duplicate", "%s: record %d is output twice", ph, id); oc = oc * 37 + (unsigned)(id * 5 + q); i = e + 1; } }
    for (int i = 0; i < g_n; i++) if (!g_r[i].seen) mc_fail("lost", "%s: record %d (created between %lld and %lld) is in no file of its day or hour", ph, i, g_r[i].from, g_r[i].to);
    mc_outcome(oc);
}
static void p0(void*) { put(0); } static void p1(void*) { put(1); } static void p00(void*) { put(0); put(0); }
static void run(const char* sync, bool daily, int channels, void (*x)(void*), void (*y)(void*), void (*z)(void*), bool first, bool twice) {
    mc_atomic_begin(); g_daily = daily; mc_clock_set(T0, 0); L = new_logger(); start_with(cfg(sync, daily, channels)); ignore_stats(); if (first) for (int c = 0; c < channels; c++) put(c); mc_quiesce(); mc_atomic_end();
    int t[3], n = 0; t[n++] = mc_spawn(x, 0); t[n++] = mc_spawn(y, 0); if (z) t[n++] = mc_spawn(z, 0); mc_point(); mc_clock_advance(daily ? 1 : 1); mc_point(); if (twice) { mc_clock_advance(daily ? 86400 : 3600); mc_point(); }
    for (int i = 0; i < n; i++) mc_join(t[i]); mc_quiesce(); long long ts[3] = {T0, T0 + 1, T0 + 1 + (daily ? 86400 : 3600)}; mc_atomic_begin(); int r = StopLogger(*L); if (r) mc_fail("code", "stop returned %d", r); check("after stop", ts, 3); delete L; if (mc_open_handles()) mc_fail("leak", "%d files still open", mc_open_handles()); mc_atomic_end();
}
static void s_daily() { run("sync", true, 1, p0, p0, 0, true, false); }
static void s_hourly() { run("sync", false, 1, p0, p0, 0, true, true); }
static void s_async() { run("async", true, 1, p0, p0, 0, false, false); }
static void s_async3() { run("async", false, 1, p0, p0, p0, false, false); }
static void s_back() { run("sync", true, 1, p00, p0, 0, false, true); }
static void s_chan() { run("sync", true, 2, p0, p1, 0, true, false); }
static const McScenario SCN[] = {
    {"daily", s_daily, 0, 5, 1, 0, 0, 0, 60, "two threads, a year ends"},
    {"hourly", s_hourly, 0, 4, 1, 0, 0, 0, 60, "two threads, two hours end"},
    {"async", s_async, 0, 3, 1, 0, 0, 0, 60, "asynchronous channel"},
    {"async3", s_async3, 0, 2, 1, 0, 0, 0, 60, "asynchronous channel, three threads"},
    {"back", s_back, 0, 4, 1, 0, 0, 0, 60, "records of three days in any order"},
    {"channels", s_chan, 0, 5, 1, 0, 0, 0, 60, "two channels"},
    {"daily_deep", s_daily, 0, 255, 2, 0, 0, 1, 300, "two threads, a year ends, unbounded"},
    {"back_deep", s_back, 0, 6, 1, 0, 0, 1, 300, "records of three days in any order"},
};
int main(int c, char** v) { return mc_run(c, v, "C12", SCN, sizeof SCN / sizeof *SCN); }
