#include "common.h"
static void fill(int n) { mc_atomic_begin(); L = new_logger(); start_with(CFG_UDP1); ignore_stats(); mc_block_port(9001, 1); log_n(0, n); mc_quiesce(); mc_atomic_end(); }
static void finish(int n, unsigned long long before_mask) {
    (void)before_mask; mc_quiesce(); check_sink("after the queue had been full", 9001, mask(0, n), CHK_ORDER);
    log_rec(n); mc_quiesce(); check_sink("one more record after the full queue drained", 9001, mask(0, n + 1), CHK_ORDER);
    mc_atomic_begin(); whole_queue(30); mc_quiesce(); check_sink("all places of the queue at once", 9001, mask(0, n + 1) | mask(30, 40), CHK_ORDER); StopLogger(*L); check_sink("after stop", 9001, mask(0, n + 1) | mask(30, 40), CHK_ORDER); delete L; mc_atomic_end();
}
// the output is blocked for as long as possible: everything beyond the queue's room has to wait, nothing may be lost
static void s_wait() { fill(10); int a = PROD(10, 6); mc_quiesce(); mc_block_port(9001, 0); mc_join(a); finish(16, 0); }
static void s_1x2() { fill(10); int a = PROD(10, 2); mc_block_port(9001, 0); mc_join(a); finish(12, 0); }
static void s_2x1() { fill(10); int a = PROD(10, 1), b = PROD(11, 1); mc_block_port(9001, 0); mc_join(a); mc_join(b); finish(12, 0); }
static void s_nearly() { fill(8); int a = PROD(8, 2), b = PROD(10, 2); mc_block_port(9001, 0); mc_join(a); mc_join(b); finish(12, 0); }
// output stalls again and again: released by a third thread, one record at a time
static void s_stall() {
    fill(9); int a = PROD(9, 2);
    mc_block_port(9001, 0); mc_point(); mc_block_port(9001, 1); mc_quiesce(); mc_block_port(9001, 0);
    mc_join(a); finish(11, 0);
}
// patience: a waiting caller looks again 1500 times in vain and still keeps its record
static void s_patience() { fill(10); int a = PROD(10, 2); mc_idle(1500); mc_quiesce(); mc_idle(0); mc_block_port(9001, 0); mc_join(a); finish(12, 0); }
// exactly one full turn of the queue while a thread is suspended in the middle of its call
static void many(void* a) { long n = (long)a; for (int k = 0; k < n; k++) log_rec(1 + k); }
// signature of the recorded finding: a log call was in progress while the queue made a full turn
// (BUFFER_LEN records, its own included)
MC_NI static const char* turn_known(const char*) {
    int during = 0; for (int i = 1; i < HMAX; i++) if ((H.begun >> i & 1) && !(H.before[i] & 1)) during++;
    return during >= RingBuffer::BUFFER_LEN - 1 ? "queue-turn-aba" : 0;
}
static void s_turn() {
    mc_atomic_begin(); L = new_logger(); start_with(CFG_UDP1); ignore_stats(); mc_atomic_end();
    int a = PROD(0, 1), b = mc_spawn(many, (void*)12L); mc_join(a); mc_join(b); mc_quiesce(); check_sink("after a full turn of the queue", 9001, mask(0, 13), 0);
    mc_atomic_begin(); StopLogger(*L); delete L; mc_atomic_end();
}
// a synchronous channel: records are finished out of order, again and again; afterwards the whole queue must be usable
static void s_sync() {
    mc_atomic_begin(); L = new_logger(); start_with(" - channel: 0\n    sync: sync\n    -device: 0\n        disable: false\n        out_type: udp\n        udp_addr: 127.0.0.1:9001\n"); ignore_stats(); mc_atomic_end();
    int a = PROD(0, 2), b = PROD(2, 2); mc_join(a); mc_join(b); mc_atomic_begin(); whole_queue(20); check_sink("all places of the queue at once", 9001, mask(0, 4) | mask(20, 30), 0);
    mc_atomic_end(); int c = PROD(4, 1), d = PROD(5, 1); mc_join(c); mc_join(d); mc_atomic_begin(); whole_queue(30); check_sink("and once more", 9001, mask(0, 6) | mask(20, 40), 0); StopLogger(*L); delete L; mc_atomic_end();
}
static const McScenario SCN[] = {
    {"wait", s_wait, 0, 3, 1, 0, 0, 0, 60, "a full queue with blocked output makes the caller wait"},
    {"1x2", s_1x2, 0, 4, 2, 0, 0, 0, 60, "full queue, one thread logs twice while it drains"},
    {"2x1", s_2x1, 0, 2, 1, 0, 0, 0, 60, "full queue, two threads"},
    {"nearly", s_nearly, 0, 2, 1, 0, 0, 0, 60, "two threads fill the last two places and wait"},
    {"stall", s_stall, 0, 3, 1, 0, 0, 0, 60, "the output stalls again in the middle"},
    {"turn", s_turn, 0, 2, 0, 0, 0, 0, 90, "more than one full turn of the queue during one log call", turn_known},
    {"patience", s_patience, 0, 0, 0, 0, 0, 0, 60, "the queue stays full while a caller looks 1500 times"},
    {"sync", s_sync, 0, 5, 1, 0, 0, 0, 60, "synchronous channel: the whole queue is usable after records were finished out of order"},
    {"2x1_deep", s_2x1, 0, 4, 2, 0, 0, 1, 300, "full queue, two threads"},
    {"nearly_deep", s_nearly, 0, 3, 2, 0, 0, 1, 300, "two threads fill the last two places and wait"},
};
int main(int c, char** v) { return mc_run(c, v, "C04", SCN, sizeof SCN / sizeof *SCN); }
