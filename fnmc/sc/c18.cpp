// DEFS: -DFN_LOG_MAX_CHANNEL_SIZE=2
#include "common.h"
#include <time.h>
// Threads stamp records while the clock moves: every record carries the local time at which its own call created it, the id of
// its own thread, and its own selection of parts; what the other threads stamp meanwhile does not show.
static const long long T0 = 1767225599;    // the last second of a year
static const char* const CFG_A = " - logger_name: nm\n - logger_desc: ds\n - channel: 0\n    sync: async\n    -device: 0\n        disable: false\n        out_type: udp\n        udp_addr: 127.0.0.1:9001\n";
static const char* const CFG_S = " - logger_name: nm\n - logger_desc: ds\n - channel: 0\n    sync: sync\n    -device: 0\n        disable: false\n        out_type: udp\n        udp_addr: 127.0.0.1:9001\n";
static const char* const CFG_2 = " - logger_name: nm\n - logger_desc: ds\n - channel: 0\n    sync: sync\n    -device: 0\n        disable: false\n        out_type: udp\n        udp_addr: 127.0.0.1:9001\n - channel: 1\n    sync: sync\n    -device: 0\n        disable: false\n        out_type: udp\n        udp_addr: 127.0.0.1:9002\n";
struct Rec { int tid, prio, line, port; unsigned sel; const char* fn; const char* file; long long from, to; int seen; bool val; long long v; };
static Rec g_r[16]; static int g_n;
static const char* const PN[] = {"[TRACE]", "[DEBUG]", "[INFO ]", "[WARN ]", "[ERROR]", "[ALARM]", "[FATAL]"};
static const char* const FL[] = {"/one.cpp", "/x/second_file.cpp", "/t/third.cpp", "/q.cpp"};
static const char* const FN[] = {"fa", "function_b", "fc3", "f4"};
MC_NI static long long now() { return (long long)time(0); }
MC_NI static int begin(int ch, int prio, unsigned sel) { int i = g_n++; Rec& r = g_r[i]; memset(&r, 0, sizeof r); r.tid = 1000 + mc_self(); r.prio = prio; r.sel = sel; r.line = 100 + i * 7; r.file = FL[i % 4]; r.fn = FN[i % 4]; r.port = 9001 + ch; r.from = now(); r.to = -1; return i; }
MC_NI static void end(int i) { g_r[i].to = now(); }
static void put(int ch, int prio, unsigned sel) {
    int i = begin(ch, prio, sel); Rec& r = g_r[i]; { LogStream s(*L, ch, prio, 0, 0, r.file, (int)strlen(r.file), r.line, r.fn, (int)strlen(r.fn), sel); s << "t" << i; } end(i);
}
// a time stamp as a value
static void put_value(int ch, long long v, int ms) { int i = begin(ch, PRIORITY_INFO, 0); g_r[i].val = true; g_r[i].v = v; { LogStream s(*L, ch, PRIORITY_INFO, 0, 0, "", 0, 0, "", 0, LOG_PREFIX_NULL); s << LogTimestamp(v, ms) << "t" << i; } end(i); }
MC_NI static int stamp(char* b, long long t, int ms) { time_t x = (time_t)t; struct tm d; localtime_r(&x, &d); return sprintf(b, "[%04d%02d%02d %02d:%02d:%02d.%03d]", d.tm_year + 1900, d.tm_mon + 1, d.tm_mday, d.tm_hour, d.tm_min, d.tm_sec, ms); }
MC_NI static void check(const char* ph, int ms) {
    char b[400], o[400];
    for (int port = 9001; port <= 9002; port++) {
        Sink s; sink_of(port, &s); unsigned long long oc = 0;
        for (int k = 0; k < s.n; k++) {
            const char* p = s.p[k]; size_t l = s.len[k]; size_t q = l; while (q > 0 && p[q - 1] != 't') q--; int i = 0; for (size_t j = q; j < l && p[j] >= '0' && p[j] <= '9'; j++) i = i * 10 + p[j] - '0';
            if (!q || i >= g_n || g_r[i].port != port) { show(o, sizeof o, p, l); mc_fail("form", "%s: output \"%s\" is not a record", ph, o); }
            Rec& r = g_r[i]; if (r.seen++) mc_fail("duplicate", "%s: record %d is output twice", ph, i); bool ok = false; char first[400] = "";
            for (long long t = r.from; t <= (r.to < 0 ? r.from + 400000 : r.to) && !ok; t++) {
                int n = 0; unsigned x = r.sel; if (r.val) n += stamp(b + n, r.v, ms); if (x & LOG_PREFIX_TIMESTAMP) n += stamp(b + n, t, 0); if (x & LOG_PREFIX_PRIORITY) n += sprintf(b + n, "%s", PN[r.prio]); if (x & LOG_PREFIX_THREAD) n += sprintf(b + n, "[%d]", r.tid);
                if (x & LOG_PREFIX_NAME) n += sprintf(b + n, "[nm]"); if (x & LOG_PREFIX_DESC) n += sprintf(b + n, "[ds]"); if (x & LOG_PREFIX_FILE) n += sprintf(b + n, "[%s:%d]", r.file, r.line); if (x & LOG_PREFIX_FUNCTION) n += sprintf(b + n, "(%s)", r.fn);
                if (x) n += sprintf(b + n, " "); n += sprintf(b + n, "t%d\n", i); ok = (size_t)n == l && !memcmp(b, p, l); if (!*first) strcpy(first, b); if (r.to < 0) break; }
            if (!ok) { show(o, sizeof o, p, l); char w[400]; show(w, sizeof w, first, strlen(first)); mc_fail("prefix", "%s: record %d of thread %d, created between %lld and %lld, is \"%s\", expected \"%s\" (or a later second of that interval)", ph, i, r.tid, r.from, r.to, o, w); }
            oc = oc * 31 + (unsigned)i;
        }
        mc_outcome(oc);
    }
    for (int i = 0; i < g_n; i++) if (!g_r[i].seen) mc_fail("lost", "%s: record %d is not output", ph, i);
}
static void start(const char* cfg) { mc_clock_set(T0, 0); L = new_logger(); start_with(cfg); ignore_stats(); put(0, 2, LOG_PREFIX_TIMESTAMP); mc_quiesce(); }
static void fin(int ms = 0) { mc_atomic_begin(); mc_quiesce(); int r = StopLogger(*L); if (r) mc_fail("code", "stop returned %d", r); check("after stop", ms); delete L; mc_atomic_end(); }
static const unsigned ALL = LOG_PREFIX_ALL;
static void pa(void*) { put(0, 3, ALL); } static void pb(void*) { put(0, 5, LOG_PREFIX_TIMESTAMP | LOG_PREFIX_THREAD | LOG_PREFIX_FUNCTION); }
static void pc(void*) { put(0, 1, LOG_PREFIX_TIMESTAMP | LOG_PREFIX_FILE); }
static void pb1(void*) { put(1, 5, LOG_PREFIX_TIMESTAMP | LOG_PREFIX_THREAD | LOG_PREFIX_FUNCTION); }
static void pv(void*) { put_value(0, T0 - 86400 * 40, 123); } static void pw(void*) { put_value(0, T0 + 3601, 123); }
static void pp(void*) { put(0, 3, ALL); put(0, 4, LOG_PREFIX_TIMESTAMP); }
static void run(const char* cfg, void (*x)(void*), void (*y)(void*), void (*z)(void*), long long adv, int ms = 0) {
    mc_atomic_begin(); start(cfg); mc_atomic_end(); int t[3], n = 0; t[n++] = mc_spawn(x, 0); t[n++] = mc_spawn(y, 0); if (z) t[n++] = mc_spawn(z, 0);
    if (adv) { mc_point(); mc_clock_advance(adv); mc_point(); } for (int i = 0; i < n; i++) mc_join(t[i]); fin(ms);
}
static void s_two() { run(CFG_A, pa, pb, 0, 1); }
static void s_two_sync() { run(CFG_S, pa, pb, 0, 1); }
static void s_same() { run(CFG_S, pa, pb, 0, 0); }
static void s_chan() { run(CFG_2, pa, pb1, 0, 1); }
static void s_vals() { run(CFG_S, pv, pw, 0, 0, 123); }
static void s_val_stamp() { run(CFG_S, pv, pa, 0, 1, 123); }
static void s_three() { run(CFG_A, pa, pb, pc, 1); }
static void s_turns() { run(CFG_S, pp, pb, 0, 1); }
static const McScenario SCN[] = {
    {"two", s_two, 0, 3, 1, 0, 0, 0, 60, "two threads, the year changes meanwhile"},
    {"two_sync", s_two_sync, 0, 5, 2, 0, 0, 0, 60, "same, synchronous channel"},
    {"same", s_same, 0, 255, 2, 0, 0, 0, 60, "two threads within one second, different parts selected"},
    {"channels", s_chan, 0, 5, 2, 0, 0, 0, 60, "two threads on two channels"},
    {"values", s_vals, 0, 255, 2, 0, 0, 0, 60, "two threads output different time stamps as values"},
    {"value_stamp", s_val_stamp, 0, 5, 2, 0, 0, 0, 60, "one thread outputs a time stamp as a value, one is stamped"},
    {"turns", s_turns, 0, 4, 1, 0, 0, 0, 60, "one thread twice, one once"},
    {"three", s_three, 0, 2, 1, 0, 0, 0, 60, "three threads"},
    {"two_deep", s_two, 0, 255, 2, 0, 0, 1, 300, "two threads, unbounded"},
    {"three_deep", s_three, 0, 4, 1, 0, 0, 1, 300, "three threads"},
};
int main(int c, char** v) { return mc_run(c, v, "C18", SCN, sizeof SCN / sizeof *SCN); }
