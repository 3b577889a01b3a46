// C20: the virtual device's hook: which records, what it sees, forwarding
// DEFS: -DFN_LOG_MAX_CHANNEL_SIZE=3
#include "fx.h"
#include "tz.h"
struct Set { int prio = 0; long long cb = 0, cn = 0, ib = 0, in = 0; unsigned long long cm = 0, im = 0; bool able = true; };
static bool in_mask(unsigned long long m, long long v) { return !m || (v >= 0 && v < 64 && (m >> v & 1)); }
static bool admit(const Set& s, int p, long long c, long long i) { return p >= s.prio && (s.cn <= 0 || (c >= s.cb && c < s.cb + s.cn)) && (s.in <= 0 || (i >= s.ib && i < s.ib + s.in)) && in_mask(s.cm, c) && in_mask(s.im, i); }
static Set mk(int p, long long cb, long long cn, unsigned long long cm, long long ib, long long in, unsigned long long im, bool able = true) { Set s; s.prio = p; s.cb = cb; s.cn = cn; s.cm = cm; s.ib = ib; s.in = in; s.im = im; s.able = able; return s; }
static const std::vector<Set> S = {Set(), mk(3, 0, 0, 0, 0, 0, 0), mk(0, 2, 3, 0, 0, 0, 0), mk(0, 0, 0, 1ULL << 4 | 1ULL << 63, 0, 0, 0), mk(0, 0, 0, 0, 2, 3, 0), mk(0, 0, 0, 0, 0, 0, 1ULL << 4 | 1ULL << 63), mk(2, 2, 62, ~4ULL, 0, 4, 10), mk(0, 0, 0, 0, 0, 0, 0, false)};
static std::string show(const Set& s) { return sx_fmt("{%s p%d c%lld+%lld/%llx i%lld+%lld/%llx}", s.able ? "on" : "off", s.prio, s.cb, s.cn, s.cm, s.ib, s.in, s.im); }
static void chan(Logger& l, int ch, const Set& s) { long long v[] = {s.prio, s.cb, s.cn, (long long)s.cm, s.ib, s.in, (long long)s.im}; ChannelConfigEnum e[] = {CHANNEL_CFG_PRIORITY, CHANNEL_CFG_CATEGORY, CHANNEL_CFG_CATEGORY_EXTEND, CHANNEL_CFG_CATEGORY_MASK, CHANNEL_CFG_IDENTIFY, CHANNEL_CFG_IDENTIFY_EXTEND, CHANNEL_CFG_IDENTIFY_MASK}; for (int i = 0; i < 7; i++) SetChannelConfig(l, ch, e[i], v[i]); }
static void devi(Logger& l, int ch, int d, const Set& s) { long long v[] = {s.able, s.prio, s.cb, s.cn, (long long)s.cm, s.ib, s.in, (long long)s.im}; DeviceConfigEnum e[] = {DEVICE_CFG_ABLE, DEVICE_CFG_PRIORITY, DEVICE_CFG_CATEGORY, DEVICE_CFG_CATEGORY_EXTEND, DEVICE_CFG_CATEGORY_MASK, DEVICE_CFG_IDENTIFY, DEVICE_CFG_IDENTIFY_EXTEND, DEVICE_CFG_IDENTIFY_MASK}; for (int i = 0; i < 8; i++) SetDeviceConfig(l, ch, d, e[i], v[i]); }
struct Seen { int ch, prio, cat, line, prec, len, prefix; long long id, ts; std::string text, func, file; unsigned thread; size_t nul; std::vector<std::string> files; };
struct Fwd { int ch; int cat_mode; int id_mode; };       // modes: 0 same, otherwise the value - 1
static struct { Logger* l; std::vector<Seen> seen; std::vector<Fwd> fwd; std::vector<int> ret; } G;
static std::string fdata(const char* n) { std::string d; env().get(n, d); return d; }
static void hook(const LogData& d) {
    Seen s{d.channel_id_, d.priority_, d.category_, d.code_line_, d.precise_, d.content_len_, d.prefix_len_, d.identify_, d.timestamp_, std::string(d.content_, (size_t)d.content_len_), d.code_func_ ? std::string(d.code_func_, (size_t)d.code_func_len_) : "", d.code_file_ ? std::string(d.code_file_, (size_t)d.code_file_len_) : "", d.thread_, d.content_len_ < LogData::LOG_SIZE && d.content_[d.content_len_] == 0 ? 1u : 0u, {fdata("f0.log"), fdata("f1.log"), fdata("f2.log")}};
    G.seen.push_back(s);
    for (auto& f : G.fwd) G.ret.push_back(TransmitChannel(*G.l, f.ch, f.cat_mode ? f.cat_mode - 1 : d.category_, f.id_mode ? f.id_mode - 1 : d.identify_, d));
}
static std::string conf(int vpos, const char* sync0 = "sync", const char* sync1 = "sync", int nch = 2) {
    std::string c; for (int ch = 0; ch < nch; ch++) { c += sx_fmt(" - channel: %d\n    sync: %s\n", ch, ch == 0 ? sync0 : sync1); int nd = ch == 0 || vpos > 9 ? 2 : 1; int vp = ch == 0 ? vpos % 10 : 1; for (int d = 0; d < nd; d++) c += d == vp ? sx_fmt("    -device: %d\n        disable: false\n        out_type: virtual\n", d) : sx_fmt("    -device: %d\n        disable: false\n        out_type: file\n        file: f%d\n", d, ch); }
    return c;
}
struct World { Fx f; World(const std::string& c) { G.seen.clear(); G.fwd.clear(); G.ret.clear(); G.l = f.lg; f.start(c); SetVirtualDevice(hook); } ~World() { SetVirtualDevice(nullptr); } };
// which records reach the hook, the devices beside it and the target of a forward
SX_SUITE(admitted, 100, 300, 0) {
    int vpos = sx_choose(2); Set c = sx_pick(S), v = sx_pick(S), d = S[std::vector<int>{0, 2, 7}[(size_t)sx_choose(3)]]; if (!c.able) return; World w(conf(vpos)); chan(*w.f.lg, 0, c); devi(*w.f.lg, 0, vpos, v); devi(*w.f.lg, 0, 1 - vpos, d);
    int n = 0; for (int p : {0, 2, 3, 6}) for (int cat : {0, 2, 4, 5, 63}) for (long long id : {0LL, 1LL, 2LL, 3LL, 4LL, 63LL}) {
        std::string t = sx_fmt("r%d", n++), before = fdata("f0.log"); size_t k = G.seen.size(); bool chok = admit(c, p, cat, id), dv = v.able && admit(v, p, cat, id), dd = d.able && admit(d, p, cat, id); w.f.log(0, p, cat, id, t); sx_op();
        std::string what = sx_fmt("channel %s virtual device %s other device %s: record of priority %d category %d identify %lld", show(c).c_str(), show(v).c_str(), show(d).c_str(), p, cat, id);
        size_t want = chok && dv; if (G.seen.size() - k != want) sx_fail("%s: the hook is called %zu times, expected %zu", what.c_str(), G.seen.size() - k, want);
        if (want) { Seen& s = G.seen.back(); if (s.text != t || s.prio != p || s.cat != cat || s.id != id || s.ch != 0 || !s.nul) sx_fail("%s: the hook sees text %s priority %d category %d identify %lld channel %d%s", what.c_str(), sx_esc(s.text).c_str(), s.prio, s.cat, s.id, s.ch, s.nul ? "" : ", not terminated"); if (s.files[0] != before) sx_fail("%s: output before the hook was called", what.c_str()); }
        if (fdata("f0.log") != before + (chok && dd ? t + "\n" : "")) sx_fail("%s: the file beside holds %s", what.c_str(), sx_esc(fdata("f0.log")).c_str());
    }
    if (w.f.dlog(0, vpos, DEVICE_LOG_TOTAL_WRITE_LINE) != (long long)G.seen.size()) sx_fail("the virtual device counts %lld records, the hook saw %zu", w.f.dlog(0, vpos, DEVICE_LOG_TOTAL_WRITE_LINE), G.seen.size()); w.f.stop();
}
// forwarding: filters of the target, attributes passed to it
static void forward(const char* s0, const char* s1, bool async) {
    Set c1 = sx_pick(S), d1 = sx_pick(S); if (!c1.able) return; Fwd fw{1, sx_pick(std::vector<int>{0, 1, 5, 64}), sx_pick(std::vector<int>{0, 1, 5, 64})}; bool again = sx_choose(2); World w(conf(1, s0, s1)); chan(*w.f.lg, 1, c1); devi(*w.f.lg, 1, 0, d1); G.fwd.push_back(fw); if (again) G.fwd.push_back({1, 0, 0});
    std::string want0, want1; int n = 0; for (int p : {0, 3}) for (int cat : {0, 2, 4, 63}) for (long long id : {0LL, 3LL, 63LL}) {
        std::string t = sx_fmt("record %d", n++); size_t k = G.seen.size(); w.f.log(0, p, cat, id, t); sx_op(); want0 += t + "\n"; if (G.seen.size() != k + 1) sx_fail("the hook is called %zu times", G.seen.size() - k);
        for (auto& f : G.fwd) { long long c2 = f.cat_mode ? f.cat_mode - 1 : cat, i2 = f.id_mode ? f.id_mode - 1 : id; if (admit(c1, p, c2, i2) && d1.able && admit(d1, p, c2, i2)) want1 += t + "\n"; }
        if (!async && (fdata("f0.log") != want0 || fdata("f1.log") != want1)) sx_fail("target channel %s device %s, forwarded with category %s%d identify %s%d%s: after %s (p%d c%d i%lld) the files hold %s and %s", show(c1).c_str(), show(d1).c_str(), fw.cat_mode ? "" : "same/", fw.cat_mode - 1, fw.id_mode ? "" : "same/", fw.id_mode - 1, again ? " and once more unchanged" : "", t.c_str(), p, cat, id, sx_esc(fdata("f0.log")).c_str(), sx_esc(fdata("f1.log")).c_str());
    }
    w.f.stop(); if (fdata("f0.log") != want0 || fdata("f1.log") != want1) sx_fail("target channel %s device %s: the files hold %s and %s expected %s", show(c1).c_str(), show(d1).c_str(), sx_esc(fdata("f0.log")).c_str(), sx_esc(fdata("f1.log"), 900).c_str(), sx_esc(want1, 900).c_str());
}
SX_SUITE(forward_sync, 60, 60, 0) { forward("sync", "sync", false); }
SX_SUITE(forward_async, 60, 200, 0) { int k = sx_choose(2); if (k) forward("null", "sync", true); else forward("sync", "null", true); }
// what the hook sees, for every length and all attributes
SX_SUITE(attributes, 60, 60, 0) {
    int n = sx_choose(LogData::LOG_SIZE + 5), pf = sx_choose(4), shape = sx_choose(3); unsigned prefix = pf == 0 ? LOG_PREFIX_NULL : pf == 1 ? LOG_PREFIX_ALL : pf == 2 ? LOG_PREFIX_DEFAULT : (LOG_PREFIX_FILE | LOG_PREFIX_PRIORITY); if (pf && n % 9 && n < LogData::LOG_SIZE - 130) return; set_tz("UTC0");
    static const char file[] = "dir/some_file.cpp"; static const char func[] = "function_name"; World w(conf(1)); G.fwd.push_back({1, 0, 0}); std::string t; for (int i = 0; i < n; i++) t += (char)('a' + i * 7 % 26); if (n > 2 && shape == 1) { t[0] = '\0'; t[1] = '\n'; t[2] = '\xfe'; }
    for (int k = 0; k < 2; k++) {
        size_t q = G.seen.size(); std::string b0 = fdata("f0.log"), b1 = fdata("f1.log"); { LogStream s(*w.f.lg, 0, 3, 7, 1LL << 40, shape == 2 ? nullptr : file, shape == 2 ? 0 : (int)strlen(file), 4711 + k, shape == 2 ? nullptr : func, shape == 2 ? 0 : (int)strlen(func), prefix); if (n % 2) s.write_buffer(t.data(), (int)t.size()); else { s.write_buffer(t.data(), (int)t.size() / 2); s.write_buffer(t.data() + t.size() / 2, (int)(t.size() - t.size() / 2)); } } sx_op();
        std::string o0 = fdata("f0.log").substr(b0.size()), o1 = fdata("f1.log").substr(b1.size()); if (G.seen.size() != q + 1) sx_fail("the hook is called %zu times", G.seen.size() - q); Seen& s = G.seen.back();
        if (o0 != s.text + "\n") sx_fail("%d bytes: the hook sees %zu bytes %s, the file gets %s", n, s.text.size(), sx_esc(s.text, 900).c_str(), sx_esc(o0, 900).c_str()); if (o1 != o0) sx_fail("%d bytes: forwarded as %s, the record is %s", n, sx_esc(o1, 900).c_str(), sx_esc(o0, 900).c_str());
        if (!s.nul || s.ch || s.prio != 3 || s.cat != 7 || s.id != 1LL << 40 || s.line != 4711 + k || (shape != 2 && (s.file != file || s.func != func)) || (shape == 2 && (s.file.size() || s.func.size()))) sx_fail("attributes seen by the hook: nul %zu channel %d priority %d category %d identify %lld line %d file %s func %s", s.nul, s.ch, s.prio, s.cat, s.id, s.line, s.file.c_str(), s.func.c_str());
        if (s.ts != env().now_us / 1000000 || s.prec != env().now_us / 1000 % 1000) sx_fail("the hook sees the time %lld.%03d", s.ts, s.prec); size_t body = s.text.size() - (size_t)s.prefix; if (s.prefix < 0 || (size_t)s.prefix > s.text.size() || s.text.compare((size_t)s.prefix, body, t, 0, body)) sx_fail("%d bytes: prefix length %d in %s", n, s.prefix, sx_esc(s.text, 900).c_str()); if (n < 400 && body != t.size()) sx_fail("%d bytes appended, %zu seen", n, body);
        env().advance_ms(77777);
    }
    w.f.stop();
}
// chains, own channel, channels that do not exist, hook set and removed
SX_SUITE(targets, 60, 120, 0) {
    int kind = sx_choose(2); const char* sy = kind ? "sync" : "null"; std::vector<Fwd> fw; int nf = sx_choose(4); static const std::vector<int> T = {0, 1, 2, 3, -1, 7, 1000000}; for (int i = 0; i < nf; i++) fw.push_back({sx_pick(T), 0, 0}); World w(conf(11, "sync", sy, 3)); G.fwd = fw; int from = sx_choose(2); const char* name[] = {"f0.log", "f1.log", "f2.log"}; std::string want[3]; int calls = 0;
    for (int k = 0; k < 4; k++) { if (k == 2) SetVirtualDevice(nullptr); if (k == 3) SetVirtualDevice(hook); std::string t = sx_fmt("r%d", k); w.f.log(from, 2, 0, 0, t); sx_op(); want[from] += t + "\n"; if (k != 2) { calls++; for (auto& f : fw) if (f.ch >= 0 && f.ch < 3 && f.ch != from) want[f.ch] += t + "\n"; } }
    w.f.stop(); if ((int)G.seen.size() != calls) sx_fail("the hook is called %zu times, %d expected", G.seen.size(), calls); for (auto& s : G.seen) if (s.ch != from) sx_fail("the hook sees channel %d", s.ch); std::string l; for (auto& f : fw) l += sx_fmt(" %d", f.ch); for (int i = 0; i < 3; i++) if (fdata(name[i]) != want[i]) sx_fail("logged on %d, forwarded to%s: channel %d holds %s expected %s", from, l.c_str(), i, sx_esc(fdata(name[i])).c_str(), sx_esc(want[i]).c_str());
}
// histories: settings of the virtual device, the hook and records in any order, over restarts
SX_SUITE(histories, 60, 400, 0) {
    int depth = sx_thorough() ? 7 : 6; World w(conf(1)); Logger& l = *w.f.lg; bool hooked = true, able = true, run = true; int prio = 0; size_t calls = 0; std::string want, h; int n = 0; G.fwd.push_back({1, 0, 0}); std::string want1;
    for (int k = 0; k < depth; k++) { int o = sx_choose(9); h += sx_fmt("%d ", o); switch (o) { case 0: SetVirtualDevice(nullptr); hooked = false; break; case 1: SetVirtualDevice(hook); hooked = true; break; case 2: SetDeviceConfig(l, 0, 1, DEVICE_CFG_ABLE, 0); able = false; break; case 3: SetDeviceConfig(l, 0, 1, DEVICE_CFG_ABLE, 1); able = true; break; case 4: SetDeviceConfig(l, 0, 1, DEVICE_CFG_PRIORITY, 4); prio = 4; break; case 5: SetDeviceConfig(l, 0, 1, DEVICE_CFG_PRIORITY, 0); prio = 0; break; case 6: if (run) w.f.stop(); else if (StartLogger(l)) sx_fail("restart fails"); run = !run; break; default: { std::string t = sx_fmt("r%d", n++); int p = o == 7 ? 2 : 5; w.f.log(0, p, 0, 0, t); if (run) { want += t + "\n"; if (hooked && able && p >= prio) { calls++; want1 += t + "\n"; } } } } sx_op(); if (G.seen.size() != calls) sx_fail("history %s: the hook was called %zu times, %zu expected", h.c_str(), G.seen.size(), calls); }
    if (run) w.f.stop(); if (fdata("f0.log") != want || fdata("f1.log") != want1) sx_fail("history %s: files hold %s and %s, expected %s and %s", h.c_str(), sx_esc(fdata("f0.log")).c_str(), sx_esc(fdata("f1.log")).c_str(), sx_esc(want).c_str(), sx_esc(want1).c_str());
}
