// the settings a configuration can hold, and what each means
#pragma once
#include "fx.h"
// ---- what a configuration is meant to be: built together with the text, never from it
struct Dv { int in = DEVICE_IN_NULL, out = DEVICE_OUT_NULL; std::string file, path; long long f[DEVICE_CFG_MAX_ID] = {0}; };
struct Cn { int type = CHANNEL_ASYNC; long long f[CHANNEL_CFG_MAX_ID] = {0}; std::vector<Dv> dev; };
struct Cf { bool hot = false; long long key = 0; std::string name, desc; std::vector<Cn> ch; };
enum { GLOB, CHAN, DEV };
struct St { int lvl; const char* key; std::string val; std::function<void(Cf&, Cn*, Dv*)> ap; };
static const std::vector<const char*> PRIO = {"trace", "debug", "info", "warn", "error", "alarm", "fatal"};
static std::vector<St> g_sets; static std::vector<int> g_lvl[3], g_few[3];
static void add(int lvl, const char* k, const std::string& v, std::function<void(Cf&, Cn*, Dv*)> ap, bool few = false) { if (few) g_few[lvl].push_back((int)g_sets.size()); g_lvl[lvl].push_back((int)g_sets.size()); g_sets.push_back(St{lvl, k, v, ap}); }
static void addc(const char* k, int field, const std::string& v, long long e, bool few = false) { add(CHAN, k, v, [=](Cf&, Cn* c, Dv*) { c->f[field] = e; }, few); }
static void addd(const char* k, int field, const std::string& v, long long e, bool few = false) { add(DEV, k, v, [=](Cf&, Cn*, Dv* d) { d->f[field] = e; }, few); }
static void init() {
    if (!g_sets.empty()) return;
    for (auto v : {"true", "false", "TRUE", "FALSE"}) { bool b = v[0] == 't' || v[0] == 'T'; add(GLOB, "hot_update", v, [=](Cf& c, Cn*, Dv*) { c.hot = b; }, v[0] == 't'); }
    add(GLOB, "shm_key", "0", [](Cf& c, Cn*, Dv*) { c.key = 0; }); add(GLOB, "shm_key", "0x1f0A", [](Cf& c, Cn*, Dv*) { c.key = 0x1f0a; }, true); add(GLOB, "shm_key", "33321231", [](Cf& c, Cn*, Dv*) { c.key = 33321231; });
    add(GLOB, "logger_name", "main", [](Cf& c, Cn*, Dv*) { c.name = "main"; }, true); add(GLOB, "logger_desc", "what it is: a-b_c", [](Cf& c, Cn*, Dv*) { c.desc = "what it is: a-b_c"; }, true);
    add(GLOB, "logger_name", std::string(49, 'n'), [](Cf& c, Cn*, Dv*) { c.name = std::string(49, 'n'); }); add(GLOB, "logger_desc", "d", [](Cf& c, Cn*, Dv*) { c.desc = "d"; });
    for (auto v : {"async", "sync", "ASYNC", "SYNC"}) { int t = v[0] == 's' || v[0] == 'S' ? CHANNEL_SYNC : CHANNEL_ASYNC; add(CHAN, "sync", v, [=](Cf&, Cn* c, Dv*) { c->type = t; }, v[0] == 's'); }
    for (int i = 0; i < 7; i++) { addc("priority", CHANNEL_CFG_PRIORITY, PRIO[(size_t)i], i, i == 4); addd("priority", DEVICE_CFG_PRIORITY, PRIO[(size_t)i], i, i == 3); }
    for (int i = 0; i < 7; i++) { std::string u = PRIO[(size_t)i]; for (auto& x : u) x = (char)toupper(x); addc("priority", CHANNEL_CFG_PRIORITY, u, i); addd("priority", DEVICE_CFG_PRIORITY, u, i); }
    for (long long v : {0LL, 1LL, 7LL, 63LL, 65536LL, 2147483647LL, 2147483648LL, 5000000000LL, 9223372036854775807LL}) { std::string s = sx_fmt("%lld", v);
        addc("category", CHANNEL_CFG_CATEGORY, s, v, v == 7); addc("category_extend", CHANNEL_CFG_CATEGORY_EXTEND, s, v, v == 1); addc("identify", CHANNEL_CFG_IDENTIFY, s, v, v == 63); addc("identify_extend", CHANNEL_CFG_IDENTIFY_EXTEND, s, v, v == 5000000000LL);
        addd("category", DEVICE_CFG_CATEGORY, s, v, v == 63); addd("category_extend", DEVICE_CFG_CATEGORY_EXTEND, s, v, v == 7); addd("identify", DEVICE_CFG_IDENTIFY, s, v, v == 1); addd("identify_extend", DEVICE_CFG_IDENTIFY_EXTEND, s, v, v == 2147483648LL); }
    for (unsigned long long v : {0ULL, 1ULL, 255ULL, 1ULL << 62, 9223372036854775807ULL, 9223372036854775808ULL, 18446744073709551615ULL, 12297829382473034410ULL}) { std::string s = sx_fmt("%llu", v); long long w = (long long)v, b = (long long)~v;
        addc("category_wmask", CHANNEL_CFG_CATEGORY_MASK, s, w, v == 255); addc("category_bmask", CHANNEL_CFG_CATEGORY_MASK, s, b, v == 255); addc("identify_wmask", CHANNEL_CFG_IDENTIFY_MASK, s, w); addc("identify_bmask", CHANNEL_CFG_IDENTIFY_MASK, s, b, v == 1);
        addd("category_wmask", DEVICE_CFG_CATEGORY_MASK, s, w); addd("category_bmask", DEVICE_CFG_CATEGORY_MASK, s, b, v == 255); addd("identify_wmask", DEVICE_CFG_IDENTIFY_MASK, s, w, v == 255); addd("identify_bmask", DEVICE_CFG_IDENTIFY_MASK, s, b); }
    addc("category_wlist", CHANNEL_CFG_CATEGORY_MASK, "2,3,43", (1LL << 2) | (1LL << 3) | (1LL << 43), true); addc("category_blist", CHANNEL_CFG_CATEGORY_MASK, "2-4", ~0x1cLL, true); addc("identify_wlist", CHANNEL_CFG_IDENTIFY_MASK, "0-62", 0x7fffffffffffffffLL, true); addc("identify_blist", CHANNEL_CFG_IDENTIFY_MASK, "63", 0x7fffffffffffffffLL, true);
    addd("category_wlist", DEVICE_CFG_CATEGORY_MASK, "1", 2, true); addd("category_blist", DEVICE_CFG_CATEGORY_MASK, "1,3", ~0xaLL, true); addd("identify_wlist", DEVICE_CFG_IDENTIFY_MASK, "4-5", 0x30, true); addd("identify_blist", DEVICE_CFG_IDENTIFY_MASK, "0", ~1LL, true);
    for (auto v : {"true", "false", "TRUE", "FALSE", "1", "0"}) { bool b = v[0] == 't' || v[0] == 'T' || v[0] == '1'; addd("disable", DEVICE_CFG_ABLE, v, !b, true); addd("stuff_up", DEVICE_CFG_FILE_STUFF_UP, v, b, v[0] == 't'); addd("rolldaily", DEVICE_CFG_FILE_ROLLDAILY, v, b, v[0] == 't'); addd("rollhourly", DEVICE_CFG_FILE_ROLLHOURLY, v, b, v[0] == 't'); }
    add(DEV, "in_type", "udp", [](Cf&, Cn*, Dv* d) { d->in = DEVICE_IN_UDP; }, true); add(DEV, "in_type", "UDP", [](Cf&, Cn*, Dv* d) { d->in = DEVICE_IN_UDP; });
    struct { const char* n; int t; } outs[] = {{"file", DEVICE_OUT_FILE}, {"udp", DEVICE_OUT_UDP}, {"screen", DEVICE_OUT_SCREEN}, {"virtual", DEVICE_OUT_VIRTUAL}, {"empty", DEVICE_OUT_EMPTY}}; for (auto& o : outs) { int t = o.t; add(DEV, "out_type", o.n, [=](Cf&, Cn*, Dv* d) { d->out = t; }, o.t != DEVICE_OUT_EMPTY); std::string u = o.n; for (auto& x : u) x = (char)toupper(x); add(DEV, "out_type", u, [=](Cf&, Cn*, Dv* d) { d->out = t; }); }
    for (auto v : {"$PNAME_$YEAR$MON$DAY", "a", "a.b-c_d 1", "123456789012345678901234567890123456789012345678"}) { std::string s = v; add(DEV, "file", s, [=](Cf&, Cn*, Dv* d) { d->file = s; }, v[0] == '$'); }
    for (auto v : {"./log/", "/var/log/x", "./", "a"}) { std::string s = v; add(DEV, "path", s, [=](Cf&, Cn*, Dv* d) { d->path = s; }, v[0] == '/'); }
    for (int n : {0, 1, 4, 100}) addd("rollback", DEVICE_CFG_FILE_ROLLBACK, sx_fmt("%d", n), n, n == 4);
    for (long long n : {0LL, 1LL, 100LL, 1000LL, 5000000LL}) for (auto u : {"", " m", "m"}) addd("limit_size", DEVICE_CFG_FILE_LIMIT_SIZE, sx_fmt("%lld%s", n, u), n * 1000000, n == 100 && u[0] == ' ');
    struct { const char* a; const char* ip; int port; } ad[] = {{"127.0.0.1:16666", "127.0.0.1", 16666}, {"10.20.30.40:1", "10.20.30.40", 1}, {"239.255.255.250:65535", "239.255.255.250", 65535}}; for (auto& x : ad) { unsigned ip = inet_addr(x.ip); int p = htons((unsigned short)x.port); add(DEV, "udp_addr", x.a, [=](Cf&, Cn*, Dv* d) { d->f[DEVICE_CFG_UDP_IP] = ip; d->f[DEVICE_CFG_UDP_PORT] = p; }, x.port == 16666); }
}
// ---- how it is written
struct Wr { std::string eol = "\n"; std::string ind[3] = {" ", "    ", "        "}; std::string dash = "- ", col = ": ", tail, gap, l, r; bool bom = false, last = true; };
struct Tx { Wr w; std::string t; Tx(const Wr& x) : w(x) { if (w.bom) t = "\xef\xbb\xbf"; } void line(int lvl, const std::string& k, const std::string& v, bool sect = false) { t += w.gap; t += w.ind[lvl] + (sect ? w.dash : lvl == GLOB ? "- " : "") + k + w.col + w.l + v + w.r + w.tail + w.eol; }
    std::string text() { std::string s = t; if (!w.last) s.resize(s.size() - w.eol.size()); return s; } };
