// C07: a synchronous channel, several records being composed at the same time
// DEFS: -DFN_LOG_MAX_LOG_QUEUE_SIZE=13 -DFN_LOG_MAX_DEVICE_SIZE=5
#include "oc.h"
SX_SUITE(open_records, 100, 600, 0) { static const std::vector<int> PRE = {0, 5, 10, 12}; OC w("sync", sx_pick(PRE)); oc_all(w, sx_thorough() ? 7 : 5, [&] { w.once(false); }); w.once(false); w.order(); if (w.f.stop()) sx_fail("does not stop:%s", w.hist.c_str()); w.once(true); w.order(); }
SX_SUITE(full_queue, 60, 300, 0) { int pre = sx_choose(13); OC w("sync", pre); int n = RingBuffer::BUFFER_LEN - 1; for (int i = 0; i < n; i++) w.begin(PRIORITY_ERROR, 1); int k = sx_thorough() ? 3 : 2; for (int i = 0; i < k; i++) w.end(sx_choose((int)w.open.size())); bool back = sx_choose(2); while (!w.open.empty()) { w.end(back ? (int)w.open.size() - 1 : 0); w.once(false); } for (int i = 0; i < 3; i++) { w.begin(PRIORITY_ERROR, 1); w.end(0); w.once(false); } if (w.f.stop()) sx_fail("does not stop"); w.once(true); }
