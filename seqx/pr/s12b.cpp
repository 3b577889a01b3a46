// C12: distinct devices never share a default file name
// DEFS: -DFN_LOG_MAX_CHANNEL_SIZE=12 -DFN_LOG_MAX_DEVICE_SIZE=24
#include "fx.h"
SX_SUITE(default_names, 60, 60, 0) {
    int nc = sx_thorough() ? 12 : 12, nd = 1 + sx_choose(24); bool with_date = sx_choose(2); env().cmdline = "/bin/prog"; if (with_date) env().now_us += 86400LL * 1000000 * 40; std::string c; for (int i = 0; i < nc; i++) { c += sx_fmt(" - channel: %d\n    sync: sync\n", i); for (int d = 0; d < nd; d++) c += sx_fmt("    -device: %d\n        disable: false\n        out_type: file\n", d); }
    Fx f; f.start(c); std::string all; for (int i = 0; i < nc; i++) { f.log(i, 2, 0, 0, sx_fmt("channel %d", i)); sx_op(); } f.stop(); std::map<std::string, int> n; size_t files = 0;
    for (auto& p : env().files()) { if (p.find("proc/") != std::string::npos) continue; files++; std::string d; env().get(p, d); auto l = lines(d); if (l.size() != 1) sx_fail("%d devices on each of %d channels: %s is shared, it holds %s", nd, nc, p.c_str(), sx_esc(d).c_str()); n[l[0]]++; time_t t = (time_t)(env().now_us / 1000000); struct tm m; localtime_r(&t, &m); std::string pre = sx_fmt("prog_%04d%02d%02d_%06d.", m.tm_year + 1900, m.tm_mon + 1, m.tm_mday, getpid()); if (p.find(pre) == std::string::npos || p.compare(p.size() - 4, 4, ".log")) sx_fail("default file name %s", p.c_str()); }
    if (files != (size_t)(nc * nd)) sx_fail("%d devices, %zu files", nc * nd, files); for (int i = 0; i < nc; i++) if (n[sx_fmt("channel %d", i)] != nd) sx_fail("channel %d: %d files of %d", i, n[sx_fmt("channel %d", i)], nd);
}
