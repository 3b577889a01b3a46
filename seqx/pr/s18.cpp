// C18: record prefixes are correct for every history, thread and time zone
#include "fx.h"
#include <time.h>
#include <stdlib.h>
#include <thread>
#include <algorithm>
#include <sys/syscall.h>
#include "tz.h"
static void open(Fx& f) { f.start(one_file()); f.log(0, 2, 0, 0, "open"); }
static std::string one(Fx& f, long long t, int ms, bool as_value) {
    std::string before = f.file("a.log");
    if (as_value) { LogStream s(*f.lg, 0, 2, 0, 0, "", 0, 0, "", 0, LOG_PREFIX_NULL); s << LogTimestamp(t, ms); }
    else { env().now_us = t * 1000000LL + ms * 1000 + 999; LogStream s(*f.lg, 0, 2, 0, 0, "", 0, 0, "", 0, LOG_PREFIX_TIMESTAMP); s << "x"; }
    sx_op(); std::string a = f.file("a.log"); if (a.size() <= before.size()) { sx_fail("no output for a record at %lld", t); } std::string l = a.substr(before.size()); l.pop_back();
    if (!as_value) { if (l.size() < 2 || l.compare(l.size() - 2, 2, " x")) sx_fail("form: %s", sx_esc(l).c_str()); l.resize(l.size() - 2); } return l;
}
static void expect(const char* z, long long t, int ms, const std::string& got, const std::string& hist) { std::string w = stamp(t, ms); if (got != w) sx_fail("time zone %s: %lld.%03d is stamped %s, the local time is %s (formatted before: %s)", z, t, ms, sx_esc(got).c_str(), w.c_str(), hist.c_str()); }
static void seq(int n, bool any_zone) {
    size_t z = (size_t)sx_choose((int)g_tz.size()); const auto& v = instants(z); static const int MS[] = {0, 7, 999}; set_tz(g_tz[z]);
    static std::map<std::thread::id, int> dummy; env().reset(); Fx f; open(f);
    std::string h; for (int i = 0; i < n; i++) { long long t = v[(size_t)sx_choose((int)v.size())]; bool val = sx_choose(2); int ms = MS[(i + (int)val) % 3]; expect(g_tz[z], t, ms, one(f, t, ms, val), h); h += std::to_string(t) + " "; }
    (void)any_zone; f.stop();
}
SX_SUITE(pairs, 100, 300, SX_THREAD) { seq(2, false); }
SX_SUITE(triples, 300, 1200, SX_THREAD | SX_THOROUGH) { seq(3, false); }
// three instants near one another and near a boundary of the calendar (all orders)
SX_SUITE(near_triples, 200, 900, SX_THREAD) {
    size_t z = (size_t)sx_choose((int)g_tz.size()); const auto& v = instants(z); set_tz(g_tz[z]); size_t b = (size_t)sx_choose((int)v.size() - 3); env().reset(); Fx f; open(f); std::string h;
    for (int i = 0; i < 3; i++) { long long t = v[b + (size_t)sx_choose(4)]; expect(g_tz[z], t, 5, one(f, t, 5, false), h); h += std::to_string(t) + " "; } f.stop();
}
// every hour and quarter of a whole year, in order and interleaved with a second instant
SX_SUITE(year, 100, 300, SX_THREAD) {
    size_t z = (size_t)sx_choose((int)g_tz.size()); int day = sx_choose(366), other = sx_choose(3); set_tz(g_tz[z]); env().reset(); Fx f; open(f);
    long long d = 1767225600LL + day * 86400LL; static const long long O[] = {0, 86400 * 30, -86400 * 90 + 12345}; std::string h;
    for (int q = 0; q < 96; q++) { long long t = d + q * 900LL; expect(g_tz[z], t, 0, one(f, t, 0, false), sx_fmt("%lld", t - 900)); if (other) expect(g_tz[z], t + O[other], 1, one(f, t + O[other], 1, false), sx_fmt("%lld", t)); } f.stop();
}
// every millisecond
SX_SUITE(milliseconds, 30, 60, 0) { int ms = sx_choose(1000); bool val = sx_choose(2); set_tz("UTC0"); env().reset(); Fx f; open(f); expect("UTC0", 1767225600, ms, one(f, 1767225600, ms, val), ""); f.stop(); }
// two threads take turns: neither's history shows in the other's stamps
SX_SUITE(two_threads, 100, 300, 0) {
    size_t z = (size_t)sx_choose((int)g_tz.size()); const auto& v = instants(z); set_tz(g_tz[z]); env().reset(); Fx f; open(f); std::string h;
    size_t pick[3]; for (size_t i = 0; i < 3; i++) { size_t st = sx_thorough() ? 1 : i == 1 ? 2 : 4; pick[i] = st * (size_t)sx_choose((int)((v.size() + st - 1) / st)); }
    std::thread* t1 = nullptr; std::mutex m; int turn = 0; (void)t1; volatile bool done = false; std::string r[3]; 
    // thread A formats 0 and 2, thread B formats 1 in between
    std::thread a([&] { r[0] = one(f, v[pick[0]], 1, false); std::thread b([&] { r[1] = one(f, v[pick[1]], 2, false); }); b.join(); r[2] = one(f, v[pick[2]], 3, false); }); a.join(); (void)turn; (void)done;
    for (int i = 0; i < 3; i++) expect(g_tz[z], v[pick[i]], i + 1, r[i], "another thread between"); f.stop();
}
// parts: every selection x priority x name/description x path shape
static std::string short3(const std::string& p) { int c = 0; for (size_t i = p.size(); i-- > 0;) if (p[i] == '/' || p[i] == '\\') { if (++c == 3) return p.substr(i + 1); } return p; }
static const std::vector<std::string> g_paths = {"", "a.cpp", "/a.cpp", "d/a.cpp", "/d/a.cpp", "e/d/a.cpp", "/e/d/a.cpp", "/f/e/d/a.cpp", "/g/f/e/d/a.cpp", "C:\\x\\y\\z\\a.cpp", "m\\n/o\\a.cpp", "///a.cpp", "d/", "/", "//", "///", "////", "/e/d/"};
static const std::vector<const char*> g_fn = {"", "f", "operator()", "a_long_function_name_with_no_end_in_sight_0123456789"};
SX_SUITE(parts, 100, 400, 0) {
    unsigned pre = (unsigned)sx_choose(128); int prio = sx_choose(PRIORITY_MAX); int nd = sx_choose(4); const std::string& p = sx_pick(g_paths); const char* fn = sx_pick(g_fn); int line = std::vector<int>{0, 1, 2147483647}[(size_t)sx_choose(3)]; bool hi = sx_choose(2); set_tz("CST-8");
    env().reset(); env().now_us = 1767225600123456LL; Fx f; std::string cfg; if (nd & 1) cfg += " - logger_name: nick\n"; if (nd & 2) cfg += " - logger_desc: words-of-desc\n"; f.start(cfg + one_file());
    std::string name = nd & 1 ? "nick" : FileHandler::process_name(), desc = nd & 2 ? "words-of-desc" : "";
    unsigned sel = pre | (hi && pre == 127 ? 0x80u : 0u);
    { LogStream s(*f.lg, 0, prio, 0, 0, p.c_str(), (int)p.size(), line, fn, (int)strlen(fn), sel); s << "text"; }
    sx_op(); std::string w;
    if (pre & LOG_PREFIX_TIMESTAMP) w += "[20260101 08:00:00.123]";
    static const char* PN[] = {"[TRACE]", "[DEBUG]", "[INFO ]", "[WARN ]", "[ERROR]", "[ALARM]", "[FATAL]"}; if (pre & LOG_PREFIX_PRIORITY) w += PN[prio];
    if (pre & LOG_PREFIX_THREAD) w += "[" + std::to_string((unsigned)syscall(SYS_gettid)) + "]";
    if (pre & LOG_PREFIX_NAME) w += "[" + name + "]"; if (pre & LOG_PREFIX_DESC) w += "[" + desc + "]";
    if (pre & LOG_PREFIX_FILE) w += "[" + (p.empty() ? std::string("nofile") : short3(p)) + ":" + std::to_string(line) + "]";
    if (pre & LOG_PREFIX_FUNCTION) w += "(" + std::string(*fn ? fn : "null") + ")";
    if (pre) w += " "; w += "text\n"; std::string g = f.file("a.log");
    if (g != w) sx_fail("prefix selection 0x%x priority %d path \"%s\" function \"%s\": \"%s\" expected \"%s\"", sel, prio, p.c_str(), fn, sx_esc(g).c_str(), sx_esc(w).c_str()); f.stop();
}
// name and description of every length the configuration accepts, and a record right behind them
SX_SUITE(lengths, 60, 200, 0) {
    int n = 1 + sx_choose(248), d = 1 + sx_choose(48); if (!sx_thorough() && d != 1 && d != 48 && n != 1 && n != 248) return; set_tz("UTC0"); env().reset(); Fx f; std::string N((size_t)n, 'n'), D((size_t)d, 'd');
    f.start(" - logger_name: " + N + "\n - logger_desc: " + D + "\n" + one_file()); { LogStream s(*f.lg, 0, 2, 0, 0, "/x/y.cpp", 8, 9, "fun", 3, LOG_PREFIX_NAME | LOG_PREFIX_DESC | LOG_PREFIX_FILE | LOG_PREFIX_FUNCTION); s << "t"; } sx_op();
    std::string w = "[" + N + "][" + D + "][/x/y.cpp:9](fun) t\n", g = f.file("a.log"); if (g != w) sx_fail("name of %d, description of %d bytes: \"%s\"", n, d, sx_esc(g, 900).c_str()); f.stop();
}
// what the macros select
SX_SUITE(macros, 20, 20, 0) {
    int k = sx_choose(7); bool fmt = sx_choose(2); set_tz("UTC0"); env().reset(); env().now_us = 1767225600007000LL; Logger& lg = GetDefaultLogger(); if (ParseAndStartLogger(lg, one_file())) sx_fail("start"); int line = 0;
    switch (k + 7 * fmt) { case 0: LOGT("t"); line = __LINE__; break; case 1: LOGD("t"); line = __LINE__; break; case 2: LOGI("t"); line = __LINE__; break; case 3: LOGW("t"); line = __LINE__; break; case 4: LOGE("t"); line = __LINE__; break; case 5: LOGA("t"); line = __LINE__; break; case 6: LOGF("t"); line = __LINE__; break;
    case 7: LOGFMTT("%c", 't'); line = __LINE__; break; case 8: LOGFMTD("%c", 't'); line = __LINE__; break; case 9: LOGFMTI("%c", 't'); line = __LINE__; break; case 10: LOGFMTW("%c", 't'); line = __LINE__; break; case 11: LOGFMTE("%c", 't'); line = __LINE__; break; case 12: LOGFMTA("%c", 't'); line = __LINE__; break; case 13: LOGFMTF("%c", 't'); line = __LINE__; break; }
    static const char* PN[] = {"[TRACE]", "[DEBUG]", "[INFO ]", "[WARN ]", "[ERROR]", "[ALARM]", "[FATAL]"}; std::string file = __FILE__; sx_op();
    std::string w = sx_fmt("[20260101 00:00:00.007]%s[%s:%d](macros) t\n", PN[k], short3(file).c_str(), line), g; env().get("a.log", g); if (g != w) sx_fail("%s expected %s", sx_esc(g).c_str(), sx_esc(w).c_str()); StopLogger(lg);
}
