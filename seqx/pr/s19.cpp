// C19: counters agree with what was logged and written: every kind of device, histories of records, failures, settings, restarts
// DEFS: -DFN_LOG_MAX_CHANNEL_SIZE=2 -DFN_LOG_MAX_DEVICE_SIZE=7
#include "fx.h"
enum { F = 0, S = 1, U = 2, V = 3, E = 4, R = 5, ND = 6 };   // file, screen, udp, virtual, empty, receiving
static std::string conf(const char* sync) {
    std::string t; for (int c = 0; c < 2; c++) { t += sx_fmt(" - channel: %d\n    sync: %s\n", c, sync); const char* o[] = {"file", "screen", "udp", "virtual", "empty", "file"};
        for (int d = 0; d < ND; d++) t += sx_fmt("    -device: %d\n        disable: false\n        out_type: %s\n        file: f%d%d\n        udp_addr: %s:%d\n%s", d, o[d], c, d, d == R ? "0.0.0.0" : "127.0.0.1", 9000 + c * 10 + d, d == R ? "        in_type: udp\n" : ""); }
    return t;
}
struct Cnt { long long n = 0, bytes = 0, lost = 0, prio[PRIORITY_MAX] = {}; void add(int p, long long b) { n++; bytes += b; prio[p] += b; } };
static Cnt g_hook[2]; static long long g_calls;
static void hook(const LogData& l) { g_hook[l.channel_id_].add(l.priority_, l.content_len_); g_calls++; if ((int)strlen(l.content_) != l.content_len_) sx_fail("the hook's text is not terminated where it ends"); }
struct W {
    Fx f; std::string hist; Cnt chan[2], dev[2][ND]; long long thr[2][ND] = {}; bool able[2][ND]; std::string pend[2]; int npend[2] = {0, 0}; int seq = 0; size_t scr = 0; bool async; std::string screen_text;
    W(const char* sync) : async(strcmp(sync, "sync") != 0) { SetVirtualDevice(hook); g_hook[0] = g_hook[1] = Cnt(); g_calls = 0; for (auto& x : able) for (auto& y : x) y = true; f.start(conf(sync)); if (!async) { /* the sockets of the receivers are opened by the first record */ } }
    ~W() { SetVirtualDevice(NULL); }
    void settle() { for (int k = 0; k < 20000; k++) { bool ok = true; for (int c = 0; c < 2; c++) if (f.clog(c, CHANNEL_LOG_PROCESSED) < chan[c].n || f.clog(c, CHANNEL_LOG_PROCESSED_BYTES) < chan[c].bytes) ok = false; if (ok && async) for (int c = 0; c < 2; c++) if ((long long)f.file(sx_fmt("f%d%d.log", c, F)).size() < dev[c][F].bytes) ok = false; /* the file is flushed when the thread is idle */ if (ok) break; usleep(100); } }
    void eq(const char* what, int c, int d, long long got, long long want) { if (got != want) sx_fail("%s of %s%d/%d is %lld, the truth is %lld: %s", what, d < 0 ? "channel " : "device ", c, d, got, want, hist.c_str()); }
    void check() {
        env().m.lock(); std::string st = env().take_screen(); env().m.unlock(); screen_text += st;
        for (int c = 0; c < 2; c++) {
            eq("CHANNEL_LOG_HOLD", c, -1, f.clog(c, CHANNEL_LOG_HOLD), chan[c].n); eq("CHANNEL_LOG_PUSH", c, -1, f.clog(c, CHANNEL_LOG_PUSH), chan[c].n); eq("CHANNEL_LOG_PROCESSED", c, -1, f.clog(c, CHANNEL_LOG_PROCESSED), chan[c].n); eq("CHANNEL_LOG_PROCESSED_BYTES", c, -1, f.clog(c, CHANNEL_LOG_PROCESSED_BYTES), chan[c].bytes);
            for (int p = 0; p < PRIORITY_MAX; p++) eq(sx_fmt("CHANNEL_LOG_PRIORITY+%d", p).c_str(), c, -1, f.clog(c, CHANNEL_LOG_PRIORITY + p), chan[c].prio[p]);
            for (int p = CHANNEL_LOG_PRIORITY_MAX; p < CHANNEL_LOG_BOUND; p++) eq("a field between the counters", c, -1, f.clog(c, p), 0);
            for (int d = 0; d < ND; d++) { Cnt& t = dev[c][d]; eq("DEVICE_LOG_TOTAL_WRITE_LINE", c, d, f.dlog(c, d, DEVICE_LOG_TOTAL_WRITE_LINE), t.n); eq("DEVICE_LOG_TOTAL_WRITE_BYTE", c, d, f.dlog(c, d, DEVICE_LOG_TOTAL_WRITE_BYTE), t.bytes); eq("DEVICE_LOG_TOTAL_LOSE_LINE", c, d, f.dlog(c, d, DEVICE_LOG_TOTAL_LOSE_LINE), t.lost); for (int p = 0; p < PRIORITY_MAX; p++) eq(sx_fmt("DEVICE_LOG_PRIORITY+%d", p).c_str(), c, d, f.dlog(c, d, DEVICE_LOG_PRIORITY + p), t.prio[p]); }
            // and the truth is the truth
            long long by = 0, k = 0; for (auto& g : env().sent) if (g.port == htons((unsigned short)(9000 + c * 10 + U))) { by += (long long)g.data.size(); k++; } eq("datagrams", c, U, k, dev[c][U].n); eq("datagram bytes", c, U, by, dev[c][U].bytes); eq("file bytes", c, F, (long long)f.file(sx_fmt("f%d%d.log", c, F)).size(), dev[c][F].bytes); eq("hook calls", c, V, g_hook[c].n, dev[c][V].n); eq("hook bytes", c, V, g_hook[c].bytes, dev[c][V].bytes);
        }
    }
    // lost: device whose output fails for this record
    void log(int c, int p, int len, int lost = -1) {
        std::string t((size_t)len, (char)('a' + seq++ % 26)); hist += sx_fmt("; %d bytes of priority %d on %d", len, p, c); bool ok = f.log(c, p, 0, 0, t); sx_op(); bool adm = false; for (int d = 0; d < ND; d++) if (d != R && able[c][d] && p >= thr[c][d]) adm = true; if (ok != adm) sx_fail("record %s: %s", ok ? "taken" : "refused", hist.c_str()); if (!ok) return;
        int n = std::min(len, LogData::LOG_SIZE - 2) + 1; chan[c].add(p, n); for (int d = 0; d < ND; d++) if (d != R && able[c][d] && p >= thr[c][d]) { if (d == lost) dev[c][d].lost++; else dev[c][d].add(p, d == V ? n - 1 : n); }
        if (!async) take(c);
    }
    void take(int c) { if (npend[c]) { for (int i = 0; i < npend[c]; i++) dev[c][R].add(PRIORITY_INFO, (long long)pend[c].size() / npend[c]); npend[c] = 0; pend[c].clear(); } }
    void feed(int c) { env().feed(htons((unsigned short)(9000 + c * 10 + R)), "datagram!\n"); bool open = false; for (auto& s : env().socks) open |= s.second.bound && s.second.port == htons((unsigned short)(9000 + c * 10 + R)); if (open) { pend[c] += "datagram!\n"; npend[c]++; } hist += sx_fmt("; a datagram for %d", c); }
    void restart() { f.stop(); npend[0] = npend[1] = 0; for (int c = 0; c < 2; c++) pend[c].clear(); hist += "; stop"; check(); if (StartLogger(*f.lg)) sx_fail("does not start again"); hist += "; start"; check(); }
};
static void op(W& w, bool few) {
    int o = sx_choose(few ? 4 : 6); switch (o) {
    case 0: case 1: { int p = sx_pick(few ? std::vector<int>{1, 4, 6} : std::vector<int>{0, 1, 2, 3, 4, 5, 6}), len = sx_pick(few ? std::vector<int>{1, 300} : std::vector<int>{0, 1, 300, 700}); w.log(o, p, len); } break;
    case 2: w.restart(); break;
    case 3: { int d = sx_choose(ND); if (d == R) { if (w.async) return; w.feed(0); break; } w.able[0][d] = !w.able[0][d]; SetDeviceConfig(*w.f.lg, 0, d, DEVICE_CFG_ABLE, w.able[0][d]); w.hist += sx_fmt("; device %d %s", d, w.able[0][d] ? "on" : "off"); } break;
    case 4: { int d = sx_choose(ND - 1), p = sx_choose(3) * 3; w.thr[1][d] = p; SetDeviceConfig(*w.f.lg, 1, d, DEVICE_CFG_PRIORITY, p); w.hist += sx_fmt("; threshold of 1/%d %d", d, p); } break;
    case 5: if (w.async) return; w.feed(sx_choose(2)); break;
    }
    w.settle(); w.check();
}
SX_SUITE(two_steps, 60, 100, 0) { W w("sync"); if (sx_choose(2)) { w.log(0, 2, 3); w.log(1, 2, 3); } for (int i = 0; i < 2; i++) op(w, false); w.log(0, 5, 9); w.log(1, 6, 8); w.check(); w.restart(); w.f.stop(); w.check(); }
SX_SUITE(histories, 100, 600, 0) { W w("sync"); int n = sx_thorough() ? 5 : 4; if (sx_choose(2)) { w.log(0, 2, 3); w.log(1, 2, 3); } for (int i = 0; i < n; i++) op(w, true); w.f.stop(); w.check(); }
SX_SUITE(async_histories, 60, 300, 0) { W w("null"); int n = sx_thorough() ? 4 : 3; for (int i = 0; i < n; i++) op(w, true); w.f.stop(); w.check(); }
// datagrams that cannot be sent, a socket that cannot be had: lost is what was not written, and written is not lost
SX_SUITE(udp_failures, 60, 200, 0) {
    W w("sync"); int n = sx_thorough() ? 5 : 4; bool up = false, tried = false; const char* which = nullptr; int hits = 0; env().fault = [&](const char* o, const std::string&) { if (which && !strcmp(o, which)) { hits++; return 11; } return 0; };
    SetDeviceConfig(*w.f.lg, 0, R, DEVICE_CFG_ABLE, 0); long long last = 0;
    for (int i = 0; i < n; i++) { int k = sx_choose(4); which = k == 1 ? "sendto" : k == 2 ? "socket" : k == 3 ? "fcntl" : nullptr; hits = 0; bool later = sx_choose(2); if (later) env().advance_ms(5000); long long now = env().now_us / 1000000; bool able_try = !tried || now > last + 2; bool lost; if (up) lost = k == 1; else if (!able_try) lost = true; else { tried = true; last = now; up = k == 0 || k == 1; lost = k != 0; } w.hist += sx_fmt("; %s fails", which ? which : "nothing"); w.log(0, sx_choose(2) ? 2 : 5, 4 + i, lost ? (int)U : -1); w.check(); }
    which = nullptr; w.f.stop(); w.check();
}
// the current file's size and the counters through limits, rolling, restarts and files that were there before
SX_SUITE(file_sizes, 60, 300, 0) {
    int rb = sx_choose(3), stuff = sx_choose(2), was = sx_choose(3); long long lim = sx_pick(std::vector<int>{0, 30, 100}); Fx f; if (was) env().put("a.log", std::string((size_t)was * 20, 'o') + "\n");
    f.start(one_file(sx_fmt("        rollback: %d\n        stuff_up: %s\n", rb, stuff ? "true" : "false").c_str())); SetDeviceConfig(*f.lg, 0, 0, DEVICE_CFG_FILE_LIMIT_SIZE, lim); Cnt t; int n = sx_thorough() ? 8 : 6; long long written = 0;
    for (int i = 0; i < n; i++) { int o = sx_choose(4); if (o == 3) { f.stop(); if (StartLogger(*f.lg)) sx_fail("does not start"); continue; } int len = o == 0 ? 1 : o == 1 ? 14 : 29; f.log(0, o, 0, 0, std::string((size_t)len, 'x')); t.add(o, len + 1); written += len + 1; sx_op(); long long sz = (long long)f.file("a.log").size(); if (f.dlog(0, 0, DEVICE_LOG_CUR_FILE_SIZE) != sz) sx_fail("DEVICE_LOG_CUR_FILE_SIZE %lld, the file has %lld bytes (limit %lld, rollback %d)", f.dlog(0, 0, DEVICE_LOG_CUR_FILE_SIZE), sz, lim, rb);
        for (int p = 0; p < 3; p++) if (f.dlog(0, 0, DEVICE_LOG_PRIORITY + p) != t.prio[p]) sx_fail("bytes of priority %d: %lld, written %lld", p, f.dlog(0, 0, DEVICE_LOG_PRIORITY + p), t.prio[p]); if (f.dlog(0, 0, DEVICE_LOG_TOTAL_WRITE_BYTE) != t.bytes || f.dlog(0, 0, DEVICE_LOG_TOTAL_WRITE_LINE) != t.n || f.dlog(0, 0, DEVICE_LOG_TOTAL_LOSE_LINE)) sx_fail("%lld bytes, %lld lines, %lld lost; written were %lld, %lld", f.dlog(0, 0, DEVICE_LOG_TOTAL_WRITE_BYTE), f.dlog(0, 0, DEVICE_LOG_TOTAL_WRITE_LINE), f.dlog(0, 0, DEVICE_LOG_TOTAL_LOSE_LINE), t.bytes, t.n); }
    f.stop();
}
