// C22: many channels with many devices each
// DEFS: -DFN_LOG_MAX_CHANNEL_SIZE=16 -DFN_LOG_MAX_DEVICE_SIZE=20 -DFN_LOG_MAX_LOG_QUEUE_SIZE=20
#include "fx.h"
enum { NC = 16, NDV = 20 };
static bool is_udp(int c, int d, int mix) { return mix == 1 ? (c + d) % 2 : mix == 2 ? d >= 10 : mix == 3 ? c >= 8 : false; }
static std::string conf(int mix, const char* sync) { std::string t; for (int c = 0; c < NC; c++) { t += sx_fmt(" - channel: %d\n    sync: %s\n", c, sync); for (int d = 0; d < NDV; d++) t += sx_fmt("    -device: %d\n        disable: false\n        out_type: %s\n        file: f%d_%d\n        udp_addr: 127.0.0.1:%d\n", d, is_udp(c, d, mix) ? "udp" : "file", c, d, 9000 + c * 100 + d); } return t; }
static void look(Fx& f, int mix, const std::vector<std::vector<std::string>>& want, const std::string& what) {
    std::map<int, std::string> u; for (auto& g : env().sent) u[(g.port >> 8 | (g.port & 255) << 8) - 9000] += g.data; for (int c = 0; c < NC; c++) for (int d = 0; d < NDV; d++) { std::string o = is_udp(c, d, mix) ? u[c * 100 + d] : f.file(sx_fmt("f%d_%d.log", c, d)); if (o != want[(size_t)c][(size_t)d]) sx_fail("%s: channel %d device %d (%s) holds %s, not %s", what.c_str(), c, d, is_udp(c, d, mix) ? "udp" : "file", sx_esc(o).c_str(), sx_esc(want[(size_t)c][(size_t)d]).c_str()); }
}
// one device of one channel is switched off, or raised, or told to write elsewhere; every device gets exactly what is meant for it
SX_SUITE(every_device, 100, 300, 0) {
    int c = sx_choose(NC), d = sx_choose(NDV), mix = sx_choose(4), how = sx_choose(3); if (!sx_thorough() && mix != (c + d) % 4 && d != 19 && c != 15) return; Fx f; f.start(conf(mix, "sync")); std::vector<std::vector<std::string>> want(NC, std::vector<std::string>(NDV)); std::string what = sx_fmt("channel %d device %d %s", c, d, how == 0 ? "off" : how == 1 ? "raised" : "restricted"); if (how == 0) SetDeviceConfig(*f.lg, c, d, DEVICE_CFG_ABLE, 0); if (how == 1) SetDeviceConfig(*f.lg, c, d, DEVICE_CFG_PRIORITY, PRIORITY_FATAL); if (how == 2) SetDeviceConfig(*f.lg, c, d, DEVICE_CFG_CATEGORY_MASK, 4);
    for (int r = 0; r < 2; r++) for (int k = 0; k < NC; k++) { int ch = r ? NC - 1 - k : k, p = r ? PRIORITY_FATAL : PRIORITY_INFO; std::string t = sx_fmt("c%dr%d", ch, r); f.log(ch, p, 1, 0, t); sx_op(); for (int v = 0; v < NDV; v++) if (ch != c || v != d || (how == 1 && p == PRIORITY_FATAL)) want[(size_t)ch][(size_t)v] += t + "\n"; }
    long long lines_of = 0; for (int ch = 0; ch < NC; ch++) { lines_of = 2; if (f.clog(ch, CHANNEL_LOG_PROCESSED) != lines_of) sx_fail("%s: channel %d counts %lld records", what.c_str(), ch, f.clog(ch, CHANNEL_LOG_PROCESSED)); for (int v = 0; v < NDV; v++) { long long w = ch == c && v == d ? how == 1 ? 1 : 0 : 2; if (f.dlog(ch, v, DEVICE_LOG_TOTAL_WRITE_LINE) != w) sx_fail("%s: channel %d device %d counts %lld records, not %lld", what.c_str(), ch, v, f.dlog(ch, v, DEVICE_LOG_TOTAL_WRITE_LINE), w); } }
    if (f.stop()) sx_fail("does not stop"); look(f, mix, want, what);
}
// all channels with threads of their own, records in turn, restarts between
SX_SUITE(all_async, 60, 200, 0) { int mix = sx_choose(4), n = 1 + sx_choose(3) * 15, stride = 1 + 2 * sx_choose(3), re = sx_choose(2); Fx f; f.start(conf(mix, "null")); std::vector<std::vector<std::string>> want(NC, std::vector<std::string>(NDV)); for (int pass = 0; pass <= re; pass++) { for (int i = 0; i < n * NC; i++) { int c = i * stride % NC; std::string t = sx_fmt("p%dc%di%d", pass, c, i); if (!f.log(c, 2, 0, 0, t)) sx_fail("refused"); sx_op(); for (auto& w : want[(size_t)c]) w += t + "\n"; } if (f.stop()) sx_fail("does not stop"); if (pass < re && StartLogger(*f.lg)) sx_fail("does not start again"); } look(f, mix, want, sx_fmt("%d records for each of 16 channels", n)); }
