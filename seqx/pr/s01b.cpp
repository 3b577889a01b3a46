// C01, C02: the sizes the library has by default: bursts around the length of the queue
// DEFS: -DFN_LOG_MAX_LOG_QUEUE_SIZE=1000 -DFN_LOG_MAX_LOG_SIZE=10000 -DFN_LOG_MAX_DEVICE_SIZE=20
#include "fx.h"
SX_SUITE(default_sizes, 60, 300, 0) {
    static const std::vector<int> BU = {1, 998, 999, 1000, 1001, 1998, 2500}, LEN = {0, 90, 9997, 9998, 12000}; int a = sx_pick(BU), b = sx_pick(BU), len = sx_pick(LEN), nd = sx_choose(2) ? 20 : 1; if (len > 9000 && nd == 20 && a + b > 1100) return; std::string c = " - channel: 0\n"; for (int d = 0; d < nd; d++) c += sx_fmt("    -device: %d\n        disable: false\n        out_type: file\n        file: f%d\n", d, d);
    Fx f; f.start(c); std::vector<std::string> want; int k = 0; auto burst = [&](int n) { for (int i = 0; i < n; i++) { std::string t = sx_fmt("%d:", k) + std::string((size_t)(k % 7 == 0 ? len : k % 50), (char)('a' + k % 26)); k++; if (!f.log(0, 2, 0, 0, t)) sx_fail("record %d is refused", k - 1); want.push_back(t.substr(0, (size_t)LogData::LOG_SIZE - 2)); } sx_op(n); };
    burst(a); if (sx_choose(2)) { for (int q = 0; q < 20000 && f.clog(0, CHANNEL_LOG_PROCESSED) < a; q++) usleep(100); } burst(b); if (f.stop()) sx_fail("does not stop"); if (f.clog(0, CHANNEL_LOG_PROCESSED) != a + b || f.clog(0, CHANNEL_LOG_HOLD) != a + b) sx_fail("%d records logged, %lld held, %lld processed", a + b, f.clog(0, CHANNEL_LOG_HOLD), f.clog(0, CHANNEL_LOG_PROCESSED));
    for (int d = 0; d < nd; d++) { auto l = lines(f.file(sx_fmt("f%d.log", d))); for (size_t i = 0; i < l.size() || i < want.size(); i++) if (i >= l.size() || i >= want.size() || l[i] != want[i]) sx_fail("%d, then %d records: line %zu of device %d is %s, not %s", a, b, i, d, i < l.size() ? sx_esc(l[i], 60).c_str() : "missing", i < want.size() ? sx_esc(want[i], 60).c_str() : "nothing"); }
}
