// C10: a configuration text means what the documentation says
#include "cfgs.h"
#include <algorithm>
extern "C" const char* __asan_default_options() { return "max_malloc_fill_size=1073741824:malloc_fill_byte=90:detect_leaks=0"; }
// ---- what the code made of it
static Logger* g_lg;
static void differ(const std::string& t, const char* what, const std::string& got, const std::string& want) { sx_fail("%s is %s, not %s, in\n%s", what, sx_esc(got).c_str(), sx_esc(want).c_str(), sx_esc(t, 900).c_str()); }
#define SAMEN(what, got, want) do { long long g_ = (long long)(got), w_ = (long long)(want); if (g_ != w_) differ(t, std::string(what).c_str(), sx_fmt("%lld", g_), sx_fmt("%lld", w_)); } while (0)
#define SAMES(what, got, len, want) do { if (want.compare(0, std::string::npos, got, len)) differ(t, std::string(what).c_str(), std::string(got, len), want); } while (0)
static int load(const std::string& t) { if (!g_lg) { g_lg = new Logger(); if (InitFromYMAL(*g_lg, " - channel: 0\n", "")) sx_fail("the least configuration is rejected"); env().take_screen(); } Logger& l = *g_lg; l.hot_update_ = false; l.name_len_ = l.desc_len_ = 0; l.name_[0] = l.desc_[0] = 0; sx_op(); if (sx_tracing()) sx_note("%s", sx_esc(t, 4000).c_str()); int r = InitFromYMAL(l, t, ""); if (r || sx_tracing()) env().take_screen(); return r; }
static void means(const std::string& t, const Cf& w) {
    int r = load(t); if (r) sx_fail("a valid configuration is rejected with %d:\n%s", r, sx_esc(t, 900).c_str()); Logger& l = *g_lg;
    { static LexState* ls = new LexState; std::string x = t; ParseLogger(*ls, x); SAMEN("shm_key", ls->shm_key_, w.key); }
    SAMEN("hot_update", l.hot_update_, w.hot); SAMES("logger_name", l.name_, (size_t)l.name_len_, w.name); SAMES("logger_desc", l.desc_, (size_t)l.desc_len_, w.desc); SAMEN("number of channels", l.shm_->channel_size_, w.ch.size());
    for (size_t c = 0; c < w.ch.size(); c++) { const Cn& x = w.ch[c]; Channel& g = l.shm_->channels_[c];
#define N_(s) sx_fmt("channel %zu " s, c)
        SAMEN(N_("number"), g.channel_id_, c); SAMEN(N_("sync"), g.channel_type_, x.type); for (int f = 0; f < CHANNEL_CFG_MAX_ID; f++) SAMEN(N_("setting ") + std::to_string(f), g.config_fields_[f], x.f[f]); SAMEN(N_("number of devices"), g.device_size_, x.dev.size());
        for (size_t d = 0; d < x.dev.size(); d++) { const Dv& y = x.dev[d]; Device& v = g.devices_[d];
#define M_(s) sx_fmt("channel %zu device %zu " s, c, d)
            SAMEN(M_("number"), v.device_id_, d); SAMEN(M_("in_type"), v.in_type_, y.in); SAMEN(M_("out_type"), v.out_type_, y.out); SAMES(M_("file"), v.out_file_, strlen(v.out_file_), y.file); SAMES(M_("path"), v.out_path_, strlen(v.out_path_), y.path); for (int f = 0; f < DEVICE_CFG_MAX_ID; f++) SAMEN(M_("setting ") + std::to_string(f), GetDeviceConfig(l, (int)c, (int)d, (DeviceConfigEnum)f), y.f[f]); } }
}
static void refused(const std::string& t, const char* why) { int r = load(t); if (!r) sx_fail("accepted although %s:\n%s", why, sx_esc(t, 900).c_str()); }
static Wr style() {
    Wr w; static const std::vector<std::string> E = {"\n", "\r\n", "\r"}, D = {"- ", "-", "", "-  "}, C = {": ", ":", " : ", ":\t  ", "  :"}, T = {"", "  ", "   # why: \"x\" {y", "#", "\t"}; static const std::vector<std::vector<std::string>> I = {{" ", "    ", "        "}, {"", " ", "  "}, {"", "\t", "\t\t"}, {"  ", "      ", "       "}, {" ", "     ", "        \t"}};
    w.eol = sx_pick(E); auto& i = sx_pick(I); for (int k = 0; k < 3; k++) w.ind[k] = i[(size_t)k]; w.dash = sx_pick(D); w.col = sx_pick(C); w.tail = sx_pick(T); int g = sx_choose(4); w.gap = g == 0 ? "" : g == 1 ? w.eol : g == 2 ? "# - channel: 5" + w.eol : "          " + w.eol + w.eol; int q = sx_choose(4); if (q == 1) w.l = w.r = "\""; if (q == 2) w.l = "{", w.r = "}"; if (q == 3) w.l = "[ ", w.r = " ]"; w.bom = sx_choose(2); w.last = sx_choose(2); return w;
}
static Wr few_styles() { Wr w; switch (sx_choose(6)) { case 0: break; case 1: w.eol = "\r\n"; w.dash = "-"; w.col = ":"; break; case 2: w.l = w.r = "\""; w.tail = " # c"; w.gap = "\n"; break; case 3: w.ind[0] = ""; w.ind[1] = "\t"; w.ind[2] = "\t\t"; w.last = false; break; case 4: w.bom = true; w.gap = "#x\n"; w.dash = ""; w.col = " :"; break; case 5: w.eol = "\r"; w.ind[0] = "  "; w.ind[1] = "   "; w.ind[2] = "      "; w.l = "{"; w.r = "}"; break; } return w; }
// one or more settings of one level, in a configuration whose other sections hold marks of their own
static void settings(const Wr& w, int lvl, const std::vector<int>& s, bool others) {
    Cf c; Tx t(w); auto put = [&](int k, Cn* n, Dv* d) { t.line(g_sets[(size_t)k].lvl, g_sets[(size_t)k].key, g_sets[(size_t)k].val); g_sets[(size_t)k].ap(c, n, d); };
    if (lvl == GLOB) for (int k : s) put(k, nullptr, nullptr);
    for (int i = 0; i < (others ? 2 : 1); i++) { bool it = i == 0; c.ch.emplace_back(); Cn& n = c.ch.back(); t.line(GLOB, "channel", sx_fmt("%d", i), true); if (lvl == CHAN && it) for (int k : s) put(k, &n, nullptr);
        for (int j = 0; j < (others ? 2 : lvl == DEV ? 1 : 0); j++) { n.dev.emplace_back(); t.line(CHAN, "device", sx_fmt("%d", j), true); if (lvl == DEV && it && j == 0) for (int k : s) put(k, &n, &n.dev.back()); } }
    means(t.text(), c);
}
SX_SUITE(one_setting, 100, 200, 0) { init(); int lvl = sx_choose(3); auto& v = sx_thorough() ? g_lvl[lvl] : g_few[lvl]; int k = sx_pick(v); settings(style(), lvl, {k}, true); }
SX_SUITE(two_settings, 100, 200, 0) { init(); int lvl = sx_choose(3); auto& v = g_lvl[lvl]; int a = sx_pick(v), b = sx_pick(v); settings(few_styles(), lvl, {a, b}, true); }
SX_SUITE(three_settings, 100, 300, 0) { init(); int lvl = sx_choose(3); auto& v = sx_thorough() ? g_lvl[lvl] : g_few[lvl]; int a = sx_pick(v), b = sx_pick(v), c = sx_pick(v); settings(sx_thorough() ? Wr() : few_styles(), lvl, {a, b, c}, false); }
SX_SUITE(all_settings, 20, 60, 0) { init(); int lvl = sx_choose(3); std::vector<int> v = g_lvl[lvl]; int rot = sx_choose((int)v.size()); std::rotate(v.begin(), v.begin() + rot, v.end()); if (sx_choose(2)) std::reverse(v.begin(), v.end()); settings(few_styles(), lvl, v, true); }
// ---- sections: any sequence of sections and settings
SX_SUITE(sections, 100, 300, 0) {
    init(); Wr w = few_styles(); Cf c; Tx t(w); int n = sx_thorough() ? 8 : 7; int cur = GLOB; bool bad = false; const char* why = "";
    struct It { int lvl; int k; }; static std::vector<It> items; if (items.empty()) { auto find = [](int lvl, const char* key, const char* val) { for (size_t i = 0; i < g_sets.size(); i++) if (g_sets[i].lvl == lvl && !strcmp(g_sets[i].key, key) && g_sets[i].val == val) return (int)i; abort(); }; items = {{GLOB, find(GLOB, "logger_name", "main")}, {CHAN, find(CHAN, "priority", "error")}, {CHAN, find(CHAN, "category", "7")}, {DEV, find(DEV, "priority", "warn")}, {DEV, find(DEV, "disable", "false")}, {DEV, find(DEV, "out_type", "screen")}}; }
    for (int i = 0; i < n && !bad; i++) {
        int o = sx_choose((int)items.size() + 4);
        if (o == 0) break;
        if (o <= 2) { int num = (int)c.ch.size() + (o == 2 ? (c.ch.empty() ? 1 : -1) : 0); t.line(GLOB, "channel", sx_fmt("%d", num), true); if (o == 2) { bad = true; why = "a channel number is repeated or left out"; } else if (c.ch.size() >= (size_t)Logger::MAX_CHANNEL_SIZE) { bad = true; why = "there are too many channels"; } else { c.ch.emplace_back(); cur = CHAN; } continue; }
        if (o == 3) { if (cur == GLOB) { t.line(CHAN, "device", "0", true); bad = true; why = "a device is in no channel"; continue; } auto& v = c.ch.back().dev; t.line(CHAN, "device", sx_fmt("%zu", v.size()), true); if (v.size() >= (size_t)Channel::MAX_DEVICE_SIZE) { bad = true; why = "there are too many devices"; } else { v.emplace_back(); cur = DEV; } continue; }
        const It& it = items[(size_t)o - 4]; const St& s = g_sets[(size_t)it.k]; if (it.lvl == DEV && cur != DEV) return; if (it.lvl == CHAN && cur == GLOB) { t.line(CHAN, s.key, s.val); bad = true; why = "a setting of a channel is in none"; continue; }
        t.line(it.lvl, s.key, s.val); s.ap(c, c.ch.empty() ? nullptr : &c.ch.back(), it.lvl == DEV ? &c.ch.back().dev.back() : nullptr); cur = it.lvl;
    }
    if (bad) { refused(t.t, why); return; } if (c.ch.empty()) { if (!t.t.empty()) refused(t.t, "there is no channel"); return; } means(t.text(), c);
}
// ---- numbers of channels and devices
SX_SUITE(numbers, 30, 60, 0) {
    int nc = 1 + sx_choose(4); std::string t; bool ok = true; Cf c; static const std::vector<const char*> N = {"0", "1", "2", "3", "-1", "17", "65536", "4294967297"}; for (int i = 0; i < nc; i++) { const char* n = sx_pick(N); t += sx_fmt(" - channel: %s\n", n); if (atoll(n) != i || i >= Logger::MAX_CHANNEL_SIZE) ok = false; c.ch.emplace_back(); }
    if (!ok) refused(t, "its channels are not numbered from 0"); else means(t, c);
}
SX_SUITE(device_numbers, 30, 60, 0) {
    int nd = 1 + sx_choose(4); std::string t = " - channel: 0\n"; bool ok = true; Cf c; c.ch.emplace_back(); static const std::vector<const char*> N = {"0", "1", "2", "3", "-1", "17", "65536", "4294967297"}; for (int i = 0; i < nd; i++) { const char* n = sx_pick(N); t += sx_fmt("    -device: %s\n", n); if (atoll(n) != i || i >= Channel::MAX_DEVICE_SIZE) ok = false; c.ch[0].dev.emplace_back(); }
    if (!ok) refused(t, "its devices are not numbered from 0"); else means(t, c);
}
// ---- keys that are none, or belong elsewhere
SX_SUITE(keys, 30, 60, 0) {
    static const std::vector<const char*> UNK = {"bogus", "name", "type", "level", "queue", "x", "zz", "Channel", "1a", "_a", "cxx", "lxx", "pxx", "rxx", "a", "rollxxxx", "category_xlist", "identify_zmask", "PRIORITY", "key", "enable", "max", "c", "d", "r"};
    static const std::vector<const char*> G = {"hot_update", "shm_key", "logger_name", "logger_desc"}, C = {"sync", "device"}, B = {"priority", "category", "category_extend", "category_wlist", "category_blist", "category_wmask", "category_bmask", "identify", "identify_extend", "identify_wlist", "identify_blist", "identify_wmask", "identify_bmask"}, D = {"disable", "in_type", "out_type", "file", "path", "rollback", "rolldaily", "rollhourly", "limit_size", "stuff_up", "udp_addr"};
    int lvl = sx_choose(3); std::vector<const char*> bad = UNK; auto app = [&](const std::vector<const char*>& v) { bad.insert(bad.end(), v.begin(), v.end()); }; if (lvl == GLOB) { app(C); app(B); app(D); } if (lvl == CHAN) { app(G); app(D); bad.push_back("channel"); } if (lvl == DEV) { app(G); app(C); bad.push_back("channel"); } const char* k = sx_pick(bad);
    static const std::vector<const char*> V = {"1", "true", "\"a\"", ""}; const char* v = sx_pick(V); int pos = sx_choose(3); Wr w; Tx t(w); auto it = [&](int l, int p) { if (l == lvl && p == pos) t.line(l, k, v); };
    it(GLOB, 0); t.line(GLOB, "logger_name", "a"); it(GLOB, 1); t.line(GLOB, "channel", "0", true); it(CHAN, 0); t.line(CHAN, "priority", "info"); it(CHAN, 1); t.line(CHAN, "device", "0", true); it(DEV, 0); t.line(DEV, "out_type", "screen"); it(DEV, 1); t.line(DEV, "disable", "false"); it(DEV, 2); it(CHAN, 2); it(GLOB, 2); refused(t.t, sx_fmt("'%s' is not a key here", k).c_str());
}
SX_SUITE(syntax, 30, 60, 0) { static const std::vector<const char*> L = {"priority", "priority info", "priority = info", "priority; info", "file: \"a", "file: \"a#b\"", "file: {a", "file: [a", "file: [a}", "file: \"a}", "= 1", ": 1", "\"file\": a", "file\": a"}; int lvl = 1 + sx_choose(2); std::string x = sx_pick(L); if (lvl == CHAN && x.find("file") == 0) x.replace(0, 4, "sync"); Tx t{few_styles()}; t.line(GLOB, "channel", "0", true); if (lvl == DEV) t.line(CHAN, "device", "0", true); t.t += t.w.ind[lvl] + x + t.w.eol; if (sx_choose(2)) t.line(lvl, "priority", "info"); refused(t.t, "a line is not 'key: value'"); }
// ---- lists of bits
SX_SUITE(bit_lists, 60, 200, 0) {
    static const std::vector<int> N = {0, 1, 2, 9, 10, 31, 32, 33, 62, 63}; int n = sx_choose(sx_thorough() ? 4 : 3); if (n == 0) n = 1; unsigned long long m = 0; std::string v; static const std::vector<const char*> SEP = {",", ", ", " , "}; const char* sep = sx_pick(SEP); static const std::vector<const char*> RG = {"-", " - "}; const char* rg = sx_pick(RG);
    for (int i = 0; i < n; i++) { if (i) v += sep; int a = sx_pick(N); v += sx_fmt("%d", a); if (sx_choose(2)) { int b = sx_pick(N); v += rg + sx_fmt("%d", b); for (int k = std::min(a, b); k <= std::max(a, b); k++) m |= 1ULL << k; } else m |= 1ULL << a; }
    int q = sx_choose(3); if (q == 1) v = "{" + v + "}"; if (q == 2) v = "\"" + v + "\""; int which = sx_choose(8); bool black = which & 1, id = which & 2, dev = which & 4; const char* key = id ? black ? "identify_blist" : "identify_wlist" : black ? "category_blist" : "category_wlist"; if (black) m = ~m;
    Cf c; c.ch.emplace_back(); Wr w; Tx t(w); t.line(GLOB, "channel", "0", true); if (dev) { c.ch[0].dev.emplace_back(); t.line(CHAN, "device", "0", true); c.ch[0].dev[0].f[id ? DEVICE_CFG_IDENTIFY_MASK : DEVICE_CFG_CATEGORY_MASK] = (long long)m; } else c.ch[0].f[id ? CHANNEL_CFG_IDENTIFY_MASK : CHANNEL_CFG_CATEGORY_MASK] = (long long)m; t.line(dev ? DEV : CHAN, key, v); means(t.t, c);
}
// ---- definitions: what follows is replaced, what stands before is not, names end where a name ends
SX_SUITE(defined, 60, 200, 0) {
    static const std::vector<const char*> NM = {"ID", "ID0", "LIST_OF_ALL", "aa"}; static const std::vector<std::string> VL = {"1", "23", "7", "4,5", "8-9", "123456789"};
    bool var = sx_choose(2); std::string name = sx_pick(NM), val = sx_pick(VL), n2 = sx_pick(NM), v2 = sx_pick(VL); if (n2 == name) return; bool two = sx_choose(2); bool after = sx_choose(2); int q = sx_choose(3); if (var && (val.find(',') != std::string::npos || v2.find(',') != std::string::npos)) return;
    std::string d; auto fits = [&](const std::string& n, const std::string& v) { return v.size() <= n.size() + (var ? 1 : 0); }; bool ok = fits(name, val) && (!two || fits(n2, v2));
    std::string blank = sx_choose(2) ? " " : ""; if (var) { d = name + blank + "=" + blank + val + blank; if (two) d += "," + blank + n2 + blank + "=" + v2; if (q == 1) d = "{" + d + "}"; if (q == 2) d = "\"" + d + "\""; d = " - var: " + d + "\n"; } else { d = q == 1 ? "\"" + name + " " + val + "\"" : name + (blank.empty() ? " " : "   ") + val; d = " - define: " + d + "\n"; if (two) d += " - define: " + n2 + " " + v2 + "   # c\n"; }
    std::string use = var ? sx_choose(2) ? "${" + name + "}" : "$" + name : name, use2 = var ? "$" + n2 : n2; auto bits = [](const std::string& v) { unsigned long long m = 0; if (v == "4,5") return 0x30ULL; if (v == "8-9") return 0x300ULL; m = atoll(v.c_str()) < 64 ? 1ULL << atoll(v.c_str()) : 0; return m; };
    Cf c; c.ch.emplace_back(); c.ch.emplace_back(); std::string t; std::string before = " - logger_desc: x " + use + " y\n"; c.desc = "x " + use + " y"; if (!after) t += before; t += d; if (after) { t = d; c.desc = ""; }
    t += " - channel: 0\n    category: " + use + "\n    category_wlist: " + use + "," + (two ? use2 : "0") + "\n    identify_extend: \"" + use + "\"\n - channel: 1\n    identify: " + use + "\n    -device: 0\n        identify_blist: {60, " + use + ",61}\n        file: x_" + name + "0 \n        path: /" + name + "z\n";
    if (!ok) { refused(t, "a value is longer than the name it stands for"); return; } Cn& n = c.ch[0]; n.f[CHANNEL_CFG_CATEGORY] = atoll(val.c_str()); n.f[CHANNEL_CFG_CATEGORY_MASK] = (long long)(bits(val) | (two ? bits(v2) : 1ULL)); n.f[CHANNEL_CFG_IDENTIFY_EXTEND] = atoll(val.c_str()); Cn& m = c.ch[1]; m.f[CHANNEL_CFG_IDENTIFY] = atoll(val.c_str()); m.dev.emplace_back(); m.dev[0].f[DEVICE_CFG_IDENTIFY_MASK] = (long long)~(bits(val) | 3ULL << 60); m.dev[0].file = "x_" + name + "0"; m.dev[0].path = "/" + name + "z";
    if (!var && two && m.dev[0].file == "x_" + n2) {} // the longer name is bounded by '_'
    means(t, c);
}
// ---- addresses: a name is looked up, whatever the order of the lines
SX_SUITE(addresses, 30, 60, 0) {
    static const std::vector<const char*> IP = {"0.0.0.0", "127.0.0.1", "1.2.3.4", "255.0.0.1", "192.168.100.200", "localhost"}; static const std::vector<int> P = {1, 80, 8080, 16666, 32768, 65535}; const char* ip = sx_pick(IP); int port = sx_pick(P); bool en = sx_choose(2), in = sx_choose(2); if (!en && !strcmp(ip, "localhost")) return; /* looked up only for a device that is on */ std::vector<int> ord = {0, 1, 2, 3}; for (int k = sx_choose(24); k > 0; k--) std::next_permutation(ord.begin(), ord.end()); Wr w = few_styles(); Tx t(w); t.line(GLOB, "channel", "0", true); t.line(CHAN, "device", "0", true); Cf c; c.ch.emplace_back(); c.ch[0].dev.emplace_back(); Dv& d = c.ch[0].dev[0];
    bool more = sx_choose(2); for (int o : ord) { if (o == 0) t.line(DEV, "disable", en ? "false" : "true"); if (o == 1 && in) t.line(DEV, "in_type", "udp"); if (o == 2) t.line(DEV, "udp_addr", sx_fmt("%s:%d", ip, port)); if (o == 3) t.line(DEV, "out_type", "udp"); } d.f[DEVICE_CFG_ABLE] = en; d.in = in ? DEVICE_IN_UDP : DEVICE_IN_NULL; d.out = DEVICE_OUT_UDP; d.f[DEVICE_CFG_UDP_IP] = inet_addr(strcmp(ip, "localhost") ? ip : "127.0.0.1"); d.f[DEVICE_CFG_UDP_PORT] = htons((unsigned short)port); if (more) { c.ch[0].dev.emplace_back(); t.line(CHAN, "device", "1", true); c.ch.emplace_back(); t.line(GLOB, "channel", "1", true); }
    if (en && !in && !strcmp(ip, "0.0.0.0")) refused(t.text(), "there is no address to send to"); else means(t.text(), c);
}
// ---- long names and paths
SX_SUITE(texts, 30, 60, 0) {
    int what = sx_choose(4); int max = what == 0 ? 48 : what == 1 ? 198 : what == 2 ? Logger::MAX_LOGGER_NAME_LEN - 1 : Logger::MAX_LOGGER_DESC_LEN - 1; int n = 1 + sx_choose(max); std::string x; for (int i = 0; i < n; i++) x += "abcXYZ019_-./$~%"[(size_t)(i * 7 % 16)]; Wr w = few_styles(); Tx t(w); Cf c; if (what == 2) { c.name = x; t.line(GLOB, "logger_name", x); } if (what == 3) { c.desc = x; t.line(GLOB, "logger_desc", x); } c.ch.emplace_back(); t.line(GLOB, "channel", "0", true); c.ch[0].dev.emplace_back(); t.line(CHAN, "device", "0", true); if (what == 0) { c.ch[0].dev[0].file = x; t.line(DEV, "file", x); } if (what == 1) { c.ch[0].dev[0].path = x; t.line(DEV, "path", x); } means(t.text(), c);
}
// ---- the loggers that come with a configuration of their own: what its comments and names say
SX_SUITE(default_logger, 20, 20, 0) {
    env().cmdline = "prog"; bool debug = sx_choose(2), again = sx_choose(2); int ch = sx_choose(2), p = sx_choose(PRIORITY_MAX); Logger& l = GetDefaultLogger(); for (int i = 0; i <= (int)again; i++) { int r = debug ? FastStartDebugLogger() : FastStartDefaultLogger(); if (r) sx_fail("start %d", r); if (i < (int)again) StopLogger(l); } env().take_screen();
    { LogStream s(l, ch, p, 0, 0, "", 0, 0, "", 0, LOG_PREFIX_NULL); s << "text"; } StopLogger(l); std::string sc = env().take_screen(); sx_op();
    auto has = [&](const char* f) { std::string d; env().get(f, d); return d == "text\n"; }; struct { const char* f; bool want; } E[] = {{"prog.log", ch == 0}, {"prog_error.log", ch == 0 && p >= PRIORITY_ERROR}, {"prog_sync.log", ch == 1}, {"prog_sync_info.log", ch == 1 && (p >= PRIORITY_INFO || debug)}};
    for (auto& e : E) if (has(e.f) != e.want) sx_fail("%s logger: a record of priority %d on channel %d is %sin %s", debug ? "debug" : "default", p, ch, e.want ? "not " : "", e.f); if ((sc.find("text") != std::string::npos) != (p >= (debug ? PRIORITY_DEBUG : PRIORITY_INFO))) sx_fail("%s logger, channel %d, priority %d: screen %s", debug ? "debug" : "default", ch, p, sx_esc(sc).c_str());
    if (GetDeviceConfig(l, 0, 0, DEVICE_CFG_FILE_LIMIT_SIZE) != 100 * 1000 * 1000 && GetDeviceConfig(l, 0, 0, DEVICE_CFG_FILE_LIMIT_SIZE) != 100 * 1024 * 1024) sx_fail("limit %lld", GetDeviceConfig(l, 0, 0, DEVICE_CFG_FILE_LIMIT_SIZE)); if (GetDeviceConfig(l, 0, 0, DEVICE_CFG_FILE_ROLLBACK) != 4) sx_fail("rollback");
}
