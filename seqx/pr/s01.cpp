// C01: asynchronous delivery while several records are being composed at the same time, from every place of the queue
// DEFS: -DFN_LOG_MAX_LOG_QUEUE_SIZE=13 -DFN_LOG_MAX_DEVICE_SIZE=5
#include "oc.h"
SX_SUITE(open_records, 100, 600, 0) { static const std::vector<int> PRE = {0, 5, 10, 12}; OC w("null", sx_pick(PRE)); oc_all(w, sx_thorough() ? 7 : 5, [] {}); w.drain(); w.once(false); if (w.f.stop()) sx_fail("does not stop:%s", w.hist.c_str()); w.once(true); }
SX_SUITE(each_step, 60, 300, 0) { OC w("null", sx_choose(2) * 11); oc_all(w, sx_thorough() ? 6 : 4, [&] { w.drain(); w.once(false); }); if (w.f.stop()) sx_fail("does not stop:%s", w.hist.c_str()); w.once(true); }
// as many open records as the queue has places, ended in every order of first ones, then the rest
SX_SUITE(full_queue, 60, 300, 0) { int pre = sx_choose(13); OC w("null", pre); int n = RingBuffer::BUFFER_LEN - 1; w.drain(); for (int i = 0; i < n; i++) w.begin(PRIORITY_ERROR, 1); int k = sx_thorough() ? 3 : 2; for (int i = 0; i < k; i++) w.end(sx_choose((int)w.open.size())); bool back = sx_choose(2); while (!w.open.empty()) w.end(back ? (int)w.open.size() - 1 : 0); w.drain(); w.once(false); for (int i = 0; i < 3; i++) { w.begin(PRIORITY_ERROR, 1); w.end(0); } w.drain(); w.once(false); if (w.f.stop()) sx_fail("does not stop"); w.once(true); }
