// C22: channels are isolated from each other: every subset of settings, devices and faults of one channel against the other
// DEFS: -DFN_LOG_MAX_CHANNEL_SIZE=3 -DFN_LOG_MAX_DEVICE_SIZE=4
#include "fx.h"
#include <arpa/inet.h>
#include <limits.h>
static std::string name(int c, int d) { return sx_fmt("f%d%d", c, d); }
static std::string conf(const std::vector<int>& nd, const std::vector<const char*>& sy, const std::string& kinds, const char* extra = "") {
    std::string s; size_t k = 0; for (size_t c = 0; c < nd.size(); c++) { s += sx_fmt(" - channel: %zu\n    sync: %s\n", c, sy[c]); for (int d = 0; d < nd[c]; d++, k++) { char q = kinds[k % kinds.size()]; if (q == 'f') s += sx_fmt("    -device: %d\n        disable: false\n        out_type: file\n        file: %s\n%s", d, name((int)c, d).c_str(), extra); else s += sx_fmt("    -device: %d\n        disable: false\n        out_type: udp\n        udp_addr: 127.0.0.1:%zu\n", d, 9000 + c * 10 + (size_t)d); } }
    return s;
}
static std::string out(int c, int d, bool udp) { std::string s; if (!udp) { env().get(name(c, d) + ".log", s); return s; } for (auto& m : env().sent) if (ntohs(m.port) == 9000 + c * 10 + d) s += m.data; return s; }
static long long chan_cfg(Logger& l, int c, ChannelConfigEnum e) { return l.shm_->channels_[c].config_fields_[e]; }
static std::vector<long long> state_of(Logger& l, int c, int nd, bool logs) {
    std::vector<long long> v; for (int i = 0; i < CHANNEL_CFG_MAX_ID; i++) v.push_back(chan_cfg(l, c, (ChannelConfigEnum)i)); for (int d = 0; d < nd; d++) for (int i = 0; i < DEVICE_CFG_MAX_ID; i++) v.push_back(GetDeviceConfig(l, c, d, (DeviceConfigEnum)i));
    if (logs) { for (int i = 0; i < CHANNEL_LOG_MAX_ID; i++) v.push_back(GetChannelLog(l, c, (ChannelLogEnum)i)); for (int d = 0; d < nd; d++) for (int i = 0; i < DEVICE_LOG_MAX_ID; i++) v.push_back(GetDeviceLog(l, c, d, (DeviceLogEnum)i)); }
    return v;
}
// every shape: each channel's devices get exactly that channel's records
static const std::vector<const char*> SY = {"sync", "null", "async"};
SX_SUITE(shapes, 60, 200, 0) {
    int nc = 2 + sx_choose(2); std::vector<int> nd; std::vector<const char*> sy; for (int c = 0; c < nc; c++) { nd.push_back(1 + sx_choose(4)); sy.push_back(sx_thorough() || c == 0 ? sx_pick(SY) : SY[0]); } std::string kinds = std::vector<std::string>{"f", "u", "fu", "uff"}[(size_t)sx_choose(4)]; int order = sx_choose(3); bool limit = sx_choose(2);
    Fx f; f.start(conf(nd, sy, kinds, limit ? "        rollback: 2\n        limit_size: 1 m\n" : "")); if (limit) for (int c = 0; c < nc; c++) for (int d = 0; d < nd[c]; d++) SetDeviceConfig(*f.lg, c, d, DEVICE_CFG_FILE_LIMIT_SIZE, c == 0 ? 8 : 1000);
    std::vector<std::string> want((size_t)nc); std::vector<std::vector<std::string>> recs((size_t)nc); for (int r = 0; r < 3; r++) for (int q = 0; q < nc; q++) { int c = order == 0 ? q : order == 1 ? nc - 1 - q : (q + r) % nc; std::string t = sx_fmt("c%dr%d", c, r); f.log(c, 2, 0, 0, t); want[c] += t + "\n"; recs[c].push_back(t + "\n"); sx_op(); }
    f.stop(); size_t k = 0, nfiles = 0; for (int c = 0; c < nc; c++) for (int d = 0; d < nd[c]; d++, k++) { bool udp = kinds[k % kinds.size()] == 'u'; std::string o = out(c, d, udp), w = want[c]; if (!udp && limit && c == 0) { std::string b2, b1; env().get(name(c, d) + ".log.2", b2); env().get(name(c, d) + ".log.1", b1); o = b2 + b1 + o; nfiles += 2; } if (!udp) nfiles++; if (o != w) sx_fail("%d channels, channel %d of %d devices, device %d: holds %s expected %s", nc, c, nd[c], d, sx_esc(o).c_str(), sx_esc(w).c_str()); }
    size_t real = 0; for (auto& p : env().files()) real += p.find("proc") == std::string::npos; if (real != nfiles) sx_fail("%zu files, %zu expected", real, nfiles); if (env().open_files || env().socks.size()) sx_fail("left open: %d files %zu sockets", env().open_files, env().socks.size());
}
// a setting of one channel or of one of its devices changes nothing of the others
SX_SUITE(settings, 60, 200, 0) {
    static const std::vector<long long> V = {0, 1, 3, 6, 1000, -1, 1LL << 40}; std::vector<int> nd = {1 + sx_choose(3), 1 + sx_choose(3), 2}; int c = sx_choose(3), d = sx_choose(5) - 1, e = sx_choose(d < 0 ? (int)CHANNEL_CFG_MAX_ID : (int)DEVICE_CFG_MAX_ID); long long v = sx_pick(V); if (d >= nd[(size_t)c] + 1) return;
    Fx f; f.start(conf(nd, {"sync", "sync", "sync"}, "f")); std::vector<std::vector<long long>> b; for (int k = 0; k < 3; k++) b.push_back(state_of(*f.lg, k, nd[k], true)); if (d < 0) SetChannelConfig(*f.lg, c, (ChannelConfigEnum)e, v); else SetDeviceConfig(*f.lg, c, d, (DeviceConfigEnum)e, v);
    for (int k = 0; k < 3; k++) { auto a = state_of(*f.lg, k, nd[k], true); size_t diff = 0, at = 0; for (size_t i = 0; i < a.size(); i++) if (a[i] != b[k][i]) { diff++; at = i; } size_t own = d < 0 ? (size_t)e : (size_t)CHANNEL_CFG_MAX_ID + (size_t)d * DEVICE_CFG_MAX_ID + (size_t)e; if (k != c && diff) sx_fail("setting %d of channel %d device %d to %lld changed channel %d", e, c, d, v, k); if (k == c && diff && (diff > 1 || at != own)) sx_fail("setting %d of channel %d device %d to %lld changed setting number %zu", e, c, d, v, at); if (k == c && d < nd[c] && a[own] != v) sx_fail("setting %d of channel %d device %d to %lld reads %lld", e, c, d, v, a[own]); }
    std::string w[3]; for (int r = 0; r < 2; r++) for (int k = 0; k < 3; k++) { if (k == c) { if (e != DEVICE_CFG_FILE_ROLLBACK || d < 0) f.log(k, 2, 1, 1, "x"); continue; } std::string t = sx_fmt("c%dr%d", k, r); f.log(k, 2, 1, 1, t); w[k] += t + "\n"; } sx_op(6); f.stop(); for (int k = 0; k < 3; k++) if (k != c) for (int q = 0; q < nd[k]; q++) if (out(k, q, false) != w[k]) sx_fail("setting %d of channel %d device %d to %lld: channel %d device %d holds %s", e, c, d, v, k, q, sx_esc(out(k, q, false)).c_str());
}
// whatever fails on one channel, the others do not notice; their counters and settings are those of a run without the failing channel's trouble
SX_SUITE(faults, 60, 300, 0) {
    static const char* OP[] = {"fopen", "fstat", "write", "mkdir", "opendir", "access", "rename", "socket", "fcntl", "sendto"}; int from = sx_choose(4), len = 1 + sx_choose(4), op = sx_choose(10), c = sx_choose(2), udp = sx_choose(2); std::string cf = conf({2, 2}, {"sync", "sync"}, udp ? "u" : "f", "        path: dir\n        rollback: 1\n");
    for (int k = 0, p = 0; k < 2; k++) { p = (int)cf.find("dir\n", (size_t)p); if (p < 0) break; }
    Fx f; f.start(cf); for (int k = 0; k < 2; k++) for (int d = 0; d < 2; d++) SetDeviceConfig(*f.lg, k, d, DEVICE_CFG_FILE_LIMIT_SIZE, 9); int now = 0; bool in = false; env().fault = [&](const char* o, const std::string& p) { (void)p; return in && now >= from && now < from + len && !strcmp(o, OP[op]) ? 5 : 0; };
    std::vector<std::string> recs; int other = 1 - c; for (now = 0; now < 8; now++) { in = true; f.log(c, 2, 0, 0, sx_fmt("bad%d", now)); in = false; std::string t = sx_fmt("good%d", now); f.log(other, 2, 0, 0, t); recs.push_back(t + "\n"); env().advance_ms(1000); sx_op(2); }
    auto st = state_of(*f.lg, other, 2, true); f.stop();
    for (int d = 0; d < 2; d++) { std::string o, w; if (udp) { o = out(other, d, true); for (auto& r : recs) w += r; } else { std::string b; env().get("dir/" + name(other, d) + ".log.1", b); env().get("dir/" + name(other, d) + ".log", o); o = b + o; w = recs[6] + recs[7]; } if (o != w) sx_fail("%s fails on channel %d from record %d for %d: channel %d device %d holds %s expected %s", OP[op], c, from, len, other, d, sx_esc(o).c_str(), sx_esc(w).c_str()); if (f.dlog(other, d, DEVICE_LOG_TOTAL_LOSE_LINE)) sx_fail("the working channel counts lost records"); }
    // the same history without failures: the same counters
    env().fault = nullptr; env().reset(); Fx g; g.start(cf); for (int k = 0; k < 2; k++) for (int d = 0; d < 2; d++) SetDeviceConfig(*g.lg, k, d, DEVICE_CFG_FILE_LIMIT_SIZE, 9); for (now = 0; now < 8; now++) { g.log(c, 2, 0, 0, sx_fmt("bad%d", now)); g.log(other, 2, 0, 0, sx_fmt("good%d", now)); env().advance_ms(1000); } auto st2 = state_of(*g.lg, other, 2, true); for (size_t i = 0; i < st.size(); i++) if (st[i] != st2[i]) sx_fail("%s fails on channel %d: field %zu of channel %d is %lld instead of %lld", OP[op], c, i, other, st[i], st2[i]); g.stop();
}
// one channel has no devices, is disabled, or has only broken settings
SX_SUITE(useless_neighbour, 30, 60, 0) {
    int how = sx_choose(8), pos = sx_choose(2), sy = sx_choose(2); std::string bad = sx_fmt(" - channel: %d\n    sync: %s\n", pos, sy ? "sync" : "null"); switch (how) { case 0: break; case 1: bad += "    priority: fatal\n    -device: 0\n        disable: true\n        out_type: file\n        file: bad\n"; break; case 2: bad += "    -device: 0\n        disable: false\n        out_type: file\n        file: /proc/x/y/bad\n"; break; case 3: bad += "    -device: 0\n        disable: true\n        out_type: udp\n        udp_addr: 1.2.3.4:5\n"; break; case 4: bad += "    -device: 0\n        disable: false\n        out_type: udp\n        udp_addr: 255.255.255.255:1\n"; break; case 5: bad += "    -device: 0\n        disable: false\n        in_type: udp\n        out_type: empty\n        udp_addr: 0.0.0.0:9500\n"; break; case 6: bad += "    category: 5\n    category_extend: 2\n    -device: 0\n        out_type: file\n"; break; case 7: bad += "    -device: 0\n        disable: false\n        out_type: file\n        file: same\n"; break; }
    std::string good = sx_fmt(" - channel: %d\n    sync: sync\n    -device: 0\n        disable: false\n        out_type: file\n        file: good\n", 1 - pos); Fx f; f.start(pos ? good + bad : bad + good); std::string w; for (int r = 0; r < 4; r++) { f.log(pos, r, 0, 0, "zzz"); std::string t = sx_fmt("g%d", r); f.log(1 - pos, r, 0, 0, t); w += t + "\n"; sx_op(2); } f.stop(); if (f.file("good.log") != w) sx_fail("neighbour %d: %s", how, sx_esc(f.file("good.log")).c_str());
}
// histories of records and control calls on one channel; the other channel's output must be what it is without them
SX_SUITE(histories, 60, 400, 0) {
    int depth = sx_thorough() ? 6 : 5; Fx f; f.start(conf({2, 1}, {"sync", "sync"}, "f")); Logger& l = *f.lg; std::string w0, w1, h; int n = 0; bool able[2] = {true, true}; int prio = 0;
    for (int k = 0; k < depth; k++) { int o = sx_choose(8); h += sx_fmt("%d ", o); switch (o) { case 0: f.log(0, 2, 0, 0, sx_fmt("a%d", n)); n++; break; case 1: { std::string t = sx_fmt("b%d", n++); f.log(1, 2, 0, 0, t); if (able[0] && prio <= 2) w1 += t + "\n"; break; } case 2: SetDeviceConfig(l, 0, 0, DEVICE_CFG_ABLE, 0); break; case 3: SetChannelConfig(l, 0, CHANNEL_CFG_PRIORITY, 6); break; case 4: SetDeviceConfig(l, 1, 0, DEVICE_CFG_ABLE, able[0] = !able[0]); break; case 5: SetDeviceConfig(l, 0, 1, DEVICE_CFG_FILE_LIMIT_SIZE, 3); SetDeviceConfig(l, 0, 1, DEVICE_CFG_FILE_ROLLBACK, 1); break; case 6: SetChannelConfig(l, 1, CHANNEL_CFG_PRIORITY, prio = 4 - prio); break; case 7: env().advance_ms(86400000); break; } sx_op(); if (f.file("f10.log") != w1) sx_fail("history %s: channel 1 holds %s expected %s", h.c_str(), sx_esc(f.file("f10.log")).c_str(), sx_esc(w1).c_str()); if (chan_cfg(l, 1, CHANNEL_CFG_PRIORITY) != prio) sx_fail("history %s: priority of channel 1 changed", h.c_str()); }
    f.stop();
}
