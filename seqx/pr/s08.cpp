// C08: filtering is exact
#include "fx.h"
#include <limits.h>
#include <algorithm>
struct Range { long long b, n; };
struct Set { int prio = 0; Range c{0, 0}, i{0, 0}; unsigned long long cm = 0, im = 0; bool able = true; };
struct Rec { int prio, cat; long long id; };
static bool in_mask(unsigned long long m, long long v) { return !m || (v >= 0 && v < 64 && (m >> v & 1)); }
static bool admit(const Set& s, const Rec& r) { return r.prio >= s.prio && (s.c.n <= 0 || (r.cat >= s.c.b && (__int128)r.cat - s.c.b < s.c.n)) && (s.i.n <= 0 || (r.id >= s.i.b && (__int128)r.id - s.i.b < s.i.n)) && in_mask(s.cm, r.cat) && in_mask(s.im, r.id); }
static const std::vector<int> P = {0, 3, 6};
static const std::vector<Range> CR = {{5, 0}, {0, 1}, {3, 4}, {63, 1}, {1, 63}}, IR = {{5, 0}, {0, 1}, {3, 4}, {63, 1}};
static const std::vector<unsigned long long> M = {0, 1, 1ULL << 63 | 8, ~(1ULL << 6)};
static const std::vector<long long> V = {0, 3, 6, 7, 62, 63};
static const char* OT[] = {"", "screen", "file", "udp", "virtual", "empty"};
static std::string dev(int d, int kind, int ch) { std::string s = sx_fmt("    -device: %d\n        disable: false\n        out_type: %s\n", d, OT[kind]); if (kind == DEVICE_OUT_FILE) s += sx_fmt("        file: f%d%d\n", ch, d); if (kind == DEVICE_OUT_UDP) s += sx_fmt("        udp_addr: 127.0.0.1:%d\n", 9000 + ch * 10 + d); return s; }
static void set_channel(Logger& l, int ch, const Set& s) { SetChannelConfig(l, ch, CHANNEL_CFG_PRIORITY, s.prio); SetChannelConfig(l, ch, CHANNEL_CFG_CATEGORY, s.c.b); SetChannelConfig(l, ch, CHANNEL_CFG_CATEGORY_EXTEND, s.c.n); SetChannelConfig(l, ch, CHANNEL_CFG_CATEGORY_MASK, (long long)s.cm); SetChannelConfig(l, ch, CHANNEL_CFG_IDENTIFY, s.i.b); SetChannelConfig(l, ch, CHANNEL_CFG_IDENTIFY_EXTEND, s.i.n); SetChannelConfig(l, ch, CHANNEL_CFG_IDENTIFY_MASK, (long long)s.im); }
static void set_device(Logger& l, int ch, int d, const Set& s) { SetDeviceConfig(l, ch, d, DEVICE_CFG_ABLE, s.able); SetDeviceConfig(l, ch, d, DEVICE_CFG_PRIORITY, s.prio); SetDeviceConfig(l, ch, d, DEVICE_CFG_CATEGORY, s.c.b); SetDeviceConfig(l, ch, d, DEVICE_CFG_CATEGORY_EXTEND, s.c.n); SetDeviceConfig(l, ch, d, DEVICE_CFG_CATEGORY_MASK, (long long)s.cm); SetDeviceConfig(l, ch, d, DEVICE_CFG_IDENTIFY, s.i.b); SetDeviceConfig(l, ch, d, DEVICE_CFG_IDENTIFY_EXTEND, s.i.n); SetDeviceConfig(l, ch, d, DEVICE_CFG_IDENTIFY_MASK, (long long)s.im); }
static std::string show(const Set& s) { return sx_fmt("{%s priority>=%d category %lld+%lld mask %llx identify %lld+%lld mask %llx}", s.able ? "on" : "off", s.prio, s.c.b, s.c.n, s.cm, s.i.b, s.i.n, s.im); }
static Set pick_set(int what) { Set s; if (what & 1) s.prio = sx_pick(P); if (what & 2) { s.c = sx_pick(CR); s.cm = sx_pick(M); } if (what & 4) { s.i = sx_pick(IR); s.im = sx_pick(M); } return s; }
// one logger per worker process, reconfigured through the API for each execution
static std::vector<std::string>* g_hook; static void hook(const LogData& d) { if (g_hook) g_hook->push_back(std::string(d.content_, (size_t)d.content_len_)); }
struct World {
    Fx f; std::vector<std::vector<int>> kinds; std::map<std::string, size_t> pos; std::vector<std::string> hooked; std::map<std::pair<int, int>, long long> empties; size_t sent0 = 0;
    World(const std::vector<std::vector<int>>& k, bool async = false) : kinds(k) { env().reset(); std::string c; for (size_t ch = 0; ch < k.size(); ch++) { c += sx_fmt(" - channel: %zu\n    sync: %s\n", ch, async ? "null" : "sync"); for (size_t d = 0; d < k[ch].size(); d++) c += dev((int)d, k[ch][d], (int)ch); } f.start(c); g_hook = &hooked; SetVirtualDevice(hook); }
    ~World() { f.stop(); g_hook = nullptr; SetVirtualDevice(nullptr); }
    // what each device put out since the last call
    std::vector<std::string> got(int ch, int d) {
        std::vector<std::string> r; int k = kinds[(size_t)ch][(size_t)d];
        if (k == DEVICE_OUT_FILE) { std::string n = sx_fmt("f%d%d.log", ch, d), s = f.file(n); size_t& p = pos[n]; r = lines(s.substr(p)); p = s.size(); }
        else if (k == DEVICE_OUT_UDP) { for (auto& m : env().sent) if (ntohs_(m.port) == 9000 + ch * 10 + d) r.push_back(m.data.substr(0, m.data.size() - 1)); }
        else if (k == DEVICE_OUT_VIRTUAL) { r = hooked; }
        else if (k == DEVICE_OUT_SCREEN) { std::string s = env().take_screen(), o; for (size_t i = 0; i < s.size(); i++) { if (s[i] == '\x1b') { while (i < s.size() && s[i] != 'm') i++; } else o += s[i]; } r = lines(o); }
        else { long long n = f.dlog(ch, d, DEVICE_LOG_TOTAL_WRITE_LINE); long long& o = empties[{ch, d}]; for (; o < n; o++) r.push_back("#"); }
        return r;
    }
    static unsigned short ntohs_(unsigned short p) { return (unsigned short)(p >> 8 | p << 8); }
    void clear() { env().sent.clear(); hooked.clear(); }
};
static void compare(World& w, int ch, int d, const std::vector<std::string>& want, const std::string& what) {
    std::vector<std::string> g = w.got(ch, d); int k = w.kinds[(size_t)ch][(size_t)d];
    if (k == DEVICE_OUT_EMPTY) { if (g.size() != want.size()) sx_fail("%s: device %d (empty) took %zu records, %zu are admitted", what.c_str(), d, g.size(), want.size()); return; }
    for (size_t i = 0; i < g.size() || i < want.size(); i++) if (i >= g.size() || i >= want.size() || g[i] != want[i]) sx_fail("%s: channel %d device %d (%s): record %zu is %s, expected %s", what.c_str(), ch, d, OT[k], i, i < g.size() ? g[i].c_str() : "missing", i < want.size() ? want[i].c_str() : "nothing");
}
static void log_all(World& w, const Set& cs, const std::vector<Set>& ds, const std::vector<int>& ps, const std::vector<long long>& cv, const std::vector<long long>& iv, const std::string& what, int ch = 0) {
    std::vector<std::vector<std::string>> want(ds.size()); w.clear(); int n = 0;
    for (int p : ps) for (long long c : cv) for (long long i : iv) {
        Rec r{p, (int)c, i}; std::string t = sx_fmt("p%d c%lld i%lld", p, c, i); w.f.log(ch, p, (int)c, i, t); n++;
        for (size_t d = 0; d < ds.size(); d++) if (ds[d].able && admit(cs, r) && admit(ds[d], r)) want[d].push_back(t);
    }
    sx_op(n); for (size_t d = 0; d < ds.size(); d++) compare(w, ch, (int)d, want[d], what);
}
static std::unique_ptr<World> shared() { return std::unique_ptr<World>(new World({{DEVICE_OUT_FILE, DEVICE_OUT_EMPTY, DEVICE_OUT_VIRTUAL}})); }
// all pairs of a channel setting and a device setting
static void grid(int cw, int dw, const std::vector<int>& ps, const std::vector<long long>& cv, const std::vector<long long>& iv) {
    Set c = pick_set(cw), a = pick_set(dw), b = a, v; b.able = sx_choose(2); b.prio = 6 - a.prio; v.cm = M[2]; auto w = shared();
    set_channel(*w->f.lg, 0, c); set_device(*w->f.lg, 0, 0, a); set_device(*w->f.lg, 0, 1, b); set_device(*w->f.lg, 0, 2, v); 
    log_all(*w, c, {a, b, v}, ps, cv, iv, show(c) + " / " + show(a) + show(b) + show(v));
}
SX_SUITE(category_settings, 100, 200, 0) { grid(3, 3, {0, 2, 3, 5, 6}, V, {0}); }
SX_SUITE(identify_settings, 100, 200, 0) { grid(5, 5, {0, 2, 3, 5, 6}, {0}, V); }
SX_SUITE(category_and_identify, 100, 400, 0) { if (sx_choose(2)) grid(6, 2, {3}, V, V); else grid(2, 6, {3}, V, V); }
SX_SUITE(channel_category_device_identify, 100, 400, 0) { if (sx_choose(2)) grid(3, 5, {2, 3}, V, V); else grid(5, 3, {2, 3}, V, V); }
SX_SUITE(everything, 100, 1200, SX_THOROUGH) { grid(7, 7, {2, 3, 6}, {0, 3, 6, 63}, {0, 3, 6, 63}); }
// ranges without masks: negative values and the ends of the types
SX_SUITE(extremes, 60, 100, 0) {
    static const std::vector<Range> C = {{-5, 10}, {INT_MIN, 1}, {INT_MIN, 1LL << 32}, {INT_MAX, 1}, {-1, 1}, {0, INT_MAX}, {1, LLONG_MAX}, {INT_MIN, LLONG_MAX}, {7, -1}}, I = {{-5, 10}, {-(1LL << 62), 1}, {-(1LL << 62), 1LL << 62}, {(1LL << 62), (1LL << 61)}, {0, 1LL << 62}, {-1, 1}, {INT_MAX, 2}, {1, LLONG_MAX}, {LLONG_MAX - 1, 2}, {LLONG_MAX, 1}, {LLONG_MAX, LLONG_MAX}, {LLONG_MIN, LLONG_MAX}, {7, -1}};
    static const std::vector<long long> CV = {INT_MIN, INT_MIN + 1, -6, -5, -1, 0, 4, 5, INT_MAX - 1, INT_MAX}, IV = {LLONG_MIN, -(1LL << 62), -(1LL << 62) + 1, -6, -5, -1, 0, 4, 5, INT_MAX, INT_MAX + 1LL, INT_MAX + 2LL, LLONG_MAX - 1, (1LL << 62) - 1, 1LL << 62, LLONG_MAX};
    Set c, d; int w = sx_choose(4); (w & 1 ? c : d).c = sx_pick(C); (w & 2 ? c : d).i = sx_pick(I); auto x = shared(); set_channel(*x->f.lg, 0, c); Set off; off.able = false; for (int k = 0; k < 3; k++) set_device(*x->f.lg, 0, k, k ? off : d);
    log_all(*x, c, {d, off, off}, {2}, CV, IV, show(c) + " / " + show(d));
}
// every priority and threshold
SX_SUITE(priorities, 30, 30, 0) { Set c, a, b; c.prio = sx_choose(8); a.prio = sx_choose(8); b.prio = sx_choose(8); a.able = sx_choose(2); auto x = shared(); set_channel(*x->f.lg, 0, c); set_device(*x->f.lg, 0, 0, a); set_device(*x->f.lg, 0, 1, b); set_device(*x->f.lg, 0, 2, a); log_all(*x, c, {a, b, a}, {0, 1, 2, 3, 4, 5, 6}, {0}, {0}, show(c) + " / " + show(a) + show(b)); }
// every bit of a mask
SX_SUITE(mask_bits, 60, 60, 0) { int bit = sx_choose(64), where = sx_choose(4); bool black = sx_choose(2); Set c, a; unsigned long long m = 1ULL << bit; if (black) m = ~m; (where & 1 ? c : a).*(where & 2 ? &Set::cm : &Set::im) = m; std::vector<long long> all; for (int i = 0; i < 64; i++) all.push_back(i); auto x = shared(); Set off; off.able = false; set_channel(*x->f.lg, 0, c); set_device(*x->f.lg, 0, 0, a); set_device(*x->f.lg, 0, 1, off); set_device(*x->f.lg, 0, 2, a); log_all(*x, c, {a, off, a}, {2}, where & 2 ? all : std::vector<long long>{0}, where & 2 ? std::vector<long long>{0} : all, show(c) + " / " + show(a)); }
// all kinds of devices at all places, each on or off, with settings of their own
static void kinds(bool async) {
    static const std::vector<int> K = {DEVICE_OUT_FILE, DEVICE_OUT_SCREEN, DEVICE_OUT_UDP, DEVICE_OUT_VIRTUAL, DEVICE_OUT_EMPTY}; std::vector<int> k; int n = 1 + sx_choose(3), virt = 0, scr = 0; for (int i = 0; i < n; i++) { k.push_back(sx_pick(K)); virt += k.back() == DEVICE_OUT_VIRTUAL; scr += k.back() == DEVICE_OUT_SCREEN; } if (virt > 1 || scr > 1) return;
    std::vector<Set> s((size_t)n); for (int i = 0; i < n; i++) { int q = sx_choose(async ? 3 : 6); if (q == 0) s[i].able = false; if (q == 2) s[i].prio = 3; if (q == 3) s[i].c = {2, 2}; if (q == 4) s[i].im = 4; if (q == 5) { s[i].i = {0, 2}; s[i].cm = ~4ULL; } }
    Set c; if (sx_choose(2)) c.c = {1, 4}; World w({k}, async); set_channel(*w.f.lg, 0, c); for (int i = 0; i < n; i++) set_device(*w.f.lg, 0, i, s[i]); std::string what; for (int i = 0; i < n; i++) what += std::string(OT[k[i]]) + show(s[i]);
    if (!async) { log_all(w, c, s, {2, 3}, {0, 1, 2, 3, 4}, {0, 1, 2}, what); return; }
    std::vector<std::vector<std::string>> want((size_t)n); for (int p : {2, 3}) for (int cat : {0, 2}) { Rec r{p, cat, 1}; std::string t = sx_fmt("p%d c%d", p, cat); w.f.log(0, p, cat, 1, t); for (int d = 0; d < n; d++) if (s[d].able && admit(c, r) && admit(s[d], r)) want[d].push_back(t); }
    std::vector<std::string> before = {}; w.f.stop(); sx_op(4); std::string scrn; for (int d = 0; d < n; d++) if (k[d] != DEVICE_OUT_SCREEN) compare(w, 0, d, want[d], what);
}
SX_SUITE(device_kinds, 60, 60, 0) { kinds(false); }
SX_SUITE(device_kinds_async, 100, 300, SX_THOROUGH) { kinds(true); }
// sequences of changes through the API and of records, two channels, against a model of the settings
struct Model { Set c[2], d[2][2]; };
SX_SUITE(sequences, 120, 900, 0) {
    int depth = sx_thorough() ? 5 : 4; std::vector<std::vector<int>> K = {{DEVICE_OUT_FILE, DEVICE_OUT_EMPTY}, {DEVICE_OUT_FILE, DEVICE_OUT_UDP}}; World w(K); Model m; Logger& l = *w.f.lg; std::string h;
    for (int k = 0; k < depth; k++) {
        int o = sx_choose(26); auto each = [&](int kind, std::function<void(Set&)> fn) { for (int c = 0; c < 2; c++) for (int d = 0; d < 2; d++) if (!kind || K[c][d] == kind) fn(m.d[c][d]); }; h += sx_fmt("%d ", o);
        switch (o) {
        case 0: SetChannelConfig(l, 0, CHANNEL_CFG_PRIORITY, 3); m.c[0].prio = 3; break;
        case 1: SetChannelConfig(l, 1, CHANNEL_CFG_CATEGORY_EXTEND, 2); m.c[1].c.n = 2; break;
        case 2: SetChannelConfig(l, 1, CHANNEL_CFG_CATEGORY, 1); m.c[1].c.b = 1; break;
        case 3: SetDeviceConfig(l, 0, 0, DEVICE_CFG_ABLE, 0); m.d[0][0].able = false; break;
        case 4: SetDeviceConfig(l, 0, 0, DEVICE_CFG_ABLE, 1); m.d[0][0].able = true; break;
        case 5: SetDeviceConfig(l, 1, 1, DEVICE_CFG_PRIORITY, 4); m.d[1][1].prio = 4; break;
        case 6: SetDeviceConfig(l, 0, 1, DEVICE_CFG_CATEGORY_MASK, 5); m.d[0][1].cm = 5; break;
        case 7: SetDeviceConfig(l, 1, 0, DEVICE_CFG_IDENTIFY, 1); m.d[1][0].i.b = 1; break;
        case 8: SetDeviceConfig(l, 1, 0, DEVICE_CFG_IDENTIFY_EXTEND, 2); m.d[1][0].i.n = 2; break;
        case 9: EnableAllFileDevice(l, false); each(DEVICE_OUT_FILE, [](Set& s) { s.able = false; }); break;
        case 10: EnableAllFileDevice(l, true); each(DEVICE_OUT_FILE, [](Set& s) { s.able = true; }); break;
        case 11: EnableAllUDPDevice(l, false); each(DEVICE_OUT_UDP, [](Set& s) { s.able = false; }); break;
        case 12: EnableAllScreenDevice(l, false); break;
        case 13: SetAllChannelPriority(l, PRIORITY_WARN); m.c[0].prio = m.c[1].prio = 3; break;
        case 14: SetAllFilePriority(l, PRIORITY_ERROR); each(DEVICE_OUT_FILE, [](Set& s) { s.prio = 4; }); break;
        case 15: SetAllUDPPriority(l, PRIORITY_TRACE); each(DEVICE_OUT_UDP, [](Set& s) { s.prio = 0; }); break;
        case 16: SetAllChannelCategory(l, 1, 2); for (auto& c : m.c) c.c = {1, 2}; break;
        case 17: SetAllFilePriority(l, 2, 1); each(DEVICE_OUT_FILE, [](Set& s) { s.c = {2, 1}; }); break;
        case 18: SetAllUDPCategory(l, 0, 1); each(DEVICE_OUT_UDP, [](Set& s) { s.c = {0, 1}; }); break;
        case 19: BatchSetDeviceConfig(l, DEVICE_OUT_NULL, DEVICE_CFG_IDENTIFY_MASK, 6); each(0, [](Set& s) { s.im = 6; }); break;
        case 20: BatchSetChannelConfig(l, CHANNEL_CFG_IDENTIFY_MASK, 3); for (auto& c : m.c) c.im = 3; break;
        case 21: SetChannelConfig(l, -1, CHANNEL_CFG_PRIORITY, 6); SetChannelConfig(l, 2, CHANNEL_CFG_PRIORITY, 6); SetChannelConfig(l, 0, CHANNEL_CFG_MAX_ID, 6); break;
        case 22: SetDeviceConfig(l, 0, 2, DEVICE_CFG_ABLE, 0); SetDeviceConfig(l, 0, -1, DEVICE_CFG_ABLE, 0); SetDeviceConfig(l, 2, 0, DEVICE_CFG_ABLE, 0); SetDeviceConfig(l, -1, 0, DEVICE_CFG_ABLE, 0); SetDeviceConfig(l, 0, 0, DEVICE_CFG_MAX_ID, 0); break;
        case 23: SetAllFileLimitSize(l, 0); SetAllScreenPriority(l, PRIORITY_FATAL); SetAllScreenCategory(l, 9, 1); break;
        case 24: SetChannelConfig(l, 0, CHANNEL_CFG_PRIORITY, 0); m.c[0].prio = 0; break;
        case 25: SetChannelConfig(l, 1, CHANNEL_CFG_CATEGORY_EXTEND, 0); m.c[1].c.n = 0; break;
        }
        sx_op(); for (int c = 0; c < 2; c++) { if (GetDeviceConfig(l, c, 0, DEVICE_CFG_ABLE) != m.d[c][0].able || GetDeviceConfig(l, c, 1, DEVICE_CFG_PRIORITY) != m.d[c][1].prio) sx_fail("after operations %s: a setting reads back wrong", h.c_str()); }
        if (k + 1 < depth && !sx_thorough() && k != 0) continue;
        for (int c = 0; c < 2; c++) log_all(w, m.c[c], {m.d[c][0], m.d[c][1]}, {0, 3, 4}, {0, 1, 2}, {0, 1, 2}, "after operations " + h, c);
    }
}
// the functions that set many devices at once: every field of every device of every channel, read back and judged by the records
SX_SUITE(wrappers, 60, 200, 0) {
    std::vector<std::vector<int>> K = {{DEVICE_OUT_FILE, DEVICE_OUT_SCREEN, DEVICE_OUT_UDP}, {DEVICE_OUT_EMPTY, DEVICE_OUT_FILE}}; World w(K); Logger& l = *w.f.lg; std::map<std::vector<int>, long long> m; std::string h;
    for (int c = 0; c < 2; c++) for (int d = 0; d < (int)K[(size_t)c].size(); d++) for (int e = 0; e < DEVICE_CFG_MAX_ID; e++) m[{c, d, e}] = GetDeviceConfig(l, c, d, (DeviceConfigEnum)e);
    auto set = [&](int kind, int field, long long v) { for (auto& x : m) if (x.first[2] == field && K[(size_t)x.first[0]][(size_t)x.first[1]] == kind) x.second = v; };
    for (int k = 0; k < (sx_thorough() ? 4 : 3); k++) {
        int o = sx_choose(13); h += sx_fmt("%d ", o);
        switch (o) {
        case 0: EnableAllFileDevice(l, false); set(DEVICE_OUT_FILE, DEVICE_CFG_ABLE, 0); break;
        case 1: EnableAllScreenDevice(l, false); set(DEVICE_OUT_SCREEN, DEVICE_CFG_ABLE, 0); break;
        case 2: EnableAllUDPDevice(l, false); set(DEVICE_OUT_UDP, DEVICE_CFG_ABLE, 0); break;
        case 3: EnableAllScreenDevice(l, true); set(DEVICE_OUT_SCREEN, DEVICE_CFG_ABLE, 1); break;
        case 4: SetAllFilePriority(l, PRIORITY_WARN); set(DEVICE_OUT_FILE, DEVICE_CFG_PRIORITY, PRIORITY_WARN); break;
        case 5: SetAllScreenPriority(l, PRIORITY_ERROR); set(DEVICE_OUT_SCREEN, DEVICE_CFG_PRIORITY, PRIORITY_ERROR); break;
        case 6: SetAllUDPPriority(l, PRIORITY_INFO); set(DEVICE_OUT_UDP, DEVICE_CFG_PRIORITY, PRIORITY_INFO); break;
        case 7: SetAllFilePriority(l, 2, 1); set(DEVICE_OUT_FILE, DEVICE_CFG_CATEGORY, 2); set(DEVICE_OUT_FILE, DEVICE_CFG_CATEGORY_EXTEND, 1); break;
        case 8: SetAllScreenCategory(l, 1, 2); set(DEVICE_OUT_SCREEN, DEVICE_CFG_CATEGORY, 1); set(DEVICE_OUT_SCREEN, DEVICE_CFG_CATEGORY_EXTEND, 2); break;
        case 9: SetAllUDPCategory(l, 0, 2); set(DEVICE_OUT_UDP, DEVICE_CFG_CATEGORY, 0); set(DEVICE_OUT_UDP, DEVICE_CFG_CATEGORY_EXTEND, 2); break;
        case 10: SetAllFileLimitSize(l, 7000000); set(DEVICE_OUT_FILE, DEVICE_CFG_FILE_LIMIT_SIZE, 7000000); break;
        case 11: SetAllFileRollbackCount(l, 2); set(DEVICE_OUT_FILE, DEVICE_CFG_FILE_ROLLBACK, 2); break;
        case 12: BatchSetDeviceConfig(l, DEVICE_OUT_EMPTY, DEVICE_CFG_CATEGORY_MASK, 5); set(DEVICE_OUT_EMPTY, DEVICE_CFG_CATEGORY_MASK, 5); break;
        }
        sx_op(); for (auto& x : m) { long long v = GetDeviceConfig(l, x.first[0], x.first[1], (DeviceConfigEnum)x.first[2]); if (v != x.second) sx_fail("after calls %s: channel %d device %d setting %d is %lld, expected %lld", h.c_str(), x.first[0], x.first[1], x.first[2], v, x.second); }
    }
    for (int c = 0; c < 2; c++) { std::vector<Set> s; for (int d = 0; d < (int)K[(size_t)c].size(); d++) { Set q; q.able = m[{c, d, DEVICE_CFG_ABLE}]; q.prio = (int)m[{c, d, DEVICE_CFG_PRIORITY}]; q.c = {m[{c, d, DEVICE_CFG_CATEGORY}], m[{c, d, DEVICE_CFG_CATEGORY_EXTEND}]}; q.cm = (unsigned long long)m[{c, d, DEVICE_CFG_CATEGORY_MASK}]; s.push_back(q); } log_all(w, Set(), s, {0, 2, 3, 4}, {0, 1, 2}, {0}, "after calls " + h, c); }
}
// every way to write a log call hands over the channel, priority, category and identify it was given
static std::vector<std::vector<long long>>* g_rec; static void rec_hook(const LogData& d) { if (g_rec) g_rec->push_back({d.channel_id_, d.priority_, d.category_, d.identify_}); }
SX_SUITE(call_styles, 30, 30, 0) {
    int ch = sx_choose(2), cat = sx_pick(std::vector<int>{0, 3, -7, INT_MAX}); long long id = sx_pick(std::vector<long long>{0, 5, -9, LLONG_MAX, 1LL << 33});
    env().reset(); std::string c; for (int i = 0; i < 2; i++) c += sx_fmt(" - channel: %d\n    sync: sync\n", i) + dev(0, DEVICE_OUT_VIRTUAL, i); std::vector<std::vector<long long>> g, want; g_rec = &g; SetVirtualDevice(rec_hook); Logger& l = GetDefaultLogger(); int r = ParseAndStartLogger(l, c); if (r) sx_fail("start %d", r);
#define ONE(S, P, M, F, E) do { LogStreamOf(S)(ch, cat, id) << "v"; PackOf(S)(ch, cat, id, "v", 1); M(ch, cat, id, "v" << 1); F(ch, cat, id, "%s", "v"); for (int q = 0; q < 4; q++) want.push_back({ch, P, cat, id}); } while (0)
#define LogStreamOf(S) Log##S##Stream
#define PackOf(S) Log##S##Pack
    ONE(Trace, PRIORITY_TRACE, LOG_TRACE, LOGFMT_TRACE, 0); ONE(Debug, PRIORITY_DEBUG, LOG_DEBUG, LOGFMT_DEBUG, 0); ONE(Info, PRIORITY_INFO, LOG_INFO, LOGFMT_INFO, 0); ONE(Warn, PRIORITY_WARN, LOG_WARN, LOGFMT_WARN, 0); ONE(Error, PRIORITY_ERROR, LOG_ERROR, LOGFMT_ERROR, 0); ONE(Alarm, PRIORITY_ALARM, LOG_ALARM, LOGFMT_ALARM, 0); ONE(Fatal, PRIORITY_FATAL, LOG_FATAL, LOGFMT_FATAL, 0);
    size_t at = want.size(); LogTrace() << 1; LogDebug() << 1; LogInfo() << 1; LogWarn() << 1; LogError() << 1; LogAlarm() << 1; LogFatal() << 1; PackTrace(1); PackDebug(1); PackInfo(1); PackWarn(1); PackError(1); PackAlarm(1); PackFatal(1); LOGT(1); LOGD(1); LOGI(1); LOGW(1); LOGE(1); LOGA(1); LOGF(1); LOGFMTT("1"); LOGFMTD("1"); LOGFMTI("1"); LOGFMTW("1"); LOGFMTE("1"); LOGFMTA("1"); LOGFMTF("1");
    for (int i = 0; i < 28; i++) want.push_back({0, i % 7, 0, 0}); LOG_STREAM_ORIGIN(l, ch, PRIORITY_WARN, cat, id, LOG_PREFIX_NULL) << "x"; want.push_back({ch, PRIORITY_WARN, cat, id});
    r = StopLogger(l); if (r) sx_fail("stop %d", r); g_rec = nullptr; SetVirtualDevice(nullptr); sx_op((long)want.size());
    for (size_t i = 0; i < want.size() || i < g.size(); i++) if (i >= g.size() || i >= want.size() || g[i] != want[i]) sx_fail("log call %zu%s: the record has channel/priority/category/identify %s, given were %s", i, i < at ? "" : " (short form)", i < g.size() ? sx_fmt("%lld/%lld/%lld/%lld", g[i][0], g[i][1], g[i][2], g[i][3]).c_str() : "(none)", i < want.size() ? sx_fmt("%lld/%lld/%lld/%lld", want[i][0], want[i][1], want[i][2], want[i][3]).c_str() : "(none)");
}
