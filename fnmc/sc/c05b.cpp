// DEFS: -DFN_LOG_MAX_CHANNEL_SIZE=2
// two channels of either type, one thread logs to each, stop and restart
#define TWO_CHANNELS
#include "c05.cpp"
#define CH(n, sync) " - channel: " #n "\n    sync: " sync "\n    -device: 0\n        disable: false\n        out_type: udp\n        udp_addr: 127.0.0.1:9001\n"
static const char* const TWO[4] = { CH(0, "null") CH(1, "null"), CH(0, "null") CH(1, "sync"), CH(0, "sync") CH(1, "null"), CH(0, "sync") CH(1, "sync") };
static void prod_ch(void* a) { long v = (long)a; log_rec((int)(v >> 1), (int)(v & 1)); }
template<int K> static void s_two() {
    mc_atomic_begin(); L = new_logger(); start_with(TWO[K]); ignore_stats(); log_rec(0, 0); log_rec(1, 1); mc_atomic_end();
    int a = mc_spawn(prod_ch, (void*)(long)(2 * 2)), b = mc_spawn(prod_ch, (void*)(long)(3 * 2 + 1));
    mc_point(); stop_begins(); int r = StopLogger(*L); if (r) mc_fail("code", "stop of a running logger returned %d", r);
    check_sink("after stop", 9001, g_must, 0, mask(0, 4)); if (mc_open_handles()) mc_fail("leak", "after stop: %d sockets are still open", mc_open_handles());
    int n = mc_sink_count(); mc_join(a); mc_join(b); log_rec(30, 0); log_rec(31, 1); mc_quiesce();
    if (mc_sink_count() != n) mc_fail("late", "something is output after the stop has returned"); if (mc_open_handles()) mc_fail("leak", "some time after the stop: %d sockets are open", mc_open_handles());
    Sink s; sink_of(9001, &s); unsigned long long w = 0; for (int i = 0; i < s.n; i++) w |= 1ull << rec_id(s.p[i], s.len[i]);
    mc_atomic_begin(); start_with(TWO[K]); unsigned long long q = whole_queue(4, 0) | whole_queue(16, 1); mc_atomic_end(); mc_quiesce();
    check_sink("a whole queue of each channel after restart", 9001, w | q, 0, mask(0, 4) & H.begun);   // a call that met the stop may leave its record to the next start end();
}
static const McScenario SCN2[] = {
    {"two_aa", s_two<0>, 0, 2, 0, 0, 0, 0, 60, "stop of two asynchronous channels while threads log"},
    {"two_as", s_two<1>, 0, 4, 1, 0, 0, 0, 60, "stop of an asynchronous and a synchronous channel while threads log"},
    {"two_sa", s_two<2>, 0, 4, 1, 0, 0, 0, 60, "stop of a synchronous and an asynchronous channel while threads log"},
    {"two_ss", s_two<3>, 0, 5, 1, 0, 0, 0, 60, "stop of two synchronous channels while threads log"},
    {"two_aa_deep", s_two<0>, 0, 3, 1, 0, 0, 1, 600, "stop of two asynchronous channels while threads log"},
    {"two_sa_deep", s_two<2>, 0, 5, 1, 0, 0, 1, 600, "stop of a synchronous and an asynchronous channel while threads log"},
    {"two_ss_deep", s_two<3>, 0, 5, 1, 0, 0, 1, 600, "stop of two synchronous channels while threads log"},
};
int main(int c, char** v) { return mc_run(c, v, "C05", SCN2, sizeof SCN2 / sizeof *SCN2); }
