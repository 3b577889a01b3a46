// C02: order of the output while several records are being composed at the same time
// DEFS: -DFN_LOG_MAX_LOG_QUEUE_SIZE=13 -DFN_LOG_MAX_DEVICE_SIZE=5
#include "oc.h"
SX_SUITE(open_records, 100, 600, 0) { static const std::vector<int> PRE = {0, 5, 10, 12}; OC w("null", sx_pick(PRE)); oc_all(w, sx_thorough() ? 7 : 5, [] {}); w.f.stop(); w.order(); }
// bursts of records of all lengths, alone or after a pause
SX_SUITE(lengths, 60, 300, 0) {
    static const std::vector<int> LEN = {0, 1, 100, 300, 500, LogData::LOG_SIZE - 3, LogData::LOG_SIZE + 5}; int n = sx_thorough() ? 5 : 4; Fx f; f.start(OC::conf("null")); std::vector<std::string> want, err; int k = 0;
    for (int i = 0; i < n; i++) { int len = sx_pick(LEN), p = i % 2 ? PRIORITY_FATAL : PRIORITY_INFO; if (i == 2 && sx_choose(2)) { for (int q = 0; q < 20000 && f.clog(0, CHANNEL_LOG_PROCESSED) < i; q++) usleep(100); } std::string t = sx_fmt("%d:", k++) + std::string((size_t)len, 'x'); f.log(0, p, 1, 0, t); t = t.substr(0, (size_t)LogData::LOG_SIZE - 2); want.push_back(t); if (p == PRIORITY_FATAL) err.push_back(t); sx_op(); }
    f.stop(); if (lines(f.file("a.log")) != want) sx_fail("the records of one thread come out as %s", sx_esc(f.file("a.log")).c_str()); if (lines(f.file("b.log")) != want) sx_fail("second file: the records of one thread come out as %s", sx_esc(f.file("b.log")).c_str()); std::vector<std::string> u; for (auto& g : env().sent) u.push_back(g.data.substr(0, g.data.size() - 1)); if (u != err) sx_fail("the datagrams of one thread are not in order");
}
