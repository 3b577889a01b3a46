#include "common.h"
static void setup() { L = new_logger(); start_with(CFG_UDP1); ignore_stats(); guard_records(); }
static void finish(const char* ph, int n) {
    mc_quiesce(); check_sink(ph, 9001, mask(0, n), 0);
    mc_atomic_begin(); StopLogger(*L); check_sink("after stop", 9001, mask(0, n), 0); delete L; mc_atomic_end();
}
static void s_2x1() { mc_atomic_begin(); setup(); mc_atomic_end(); int a = PROD(0, 1), b = PROD(1, 1); mc_join(a); mc_join(b); finish("2x1", 2); }
static void s_3x1() { mc_atomic_begin(); setup(); mc_atomic_end(); int a = PROD(0, 1), b = PROD(1, 1), c = PROD(2, 1); mc_join(a); mc_join(b); mc_join(c); finish("3x1", 3); }
// records of very different length in a recycled slot: queue full, slots are reused while the consumer empties them
static void recycle(int np) {
    mc_atomic_begin(); setup(); mc_block_port(9001, 1); log_n(0, 9); mc_quiesce(); mc_atomic_end();
    int a = PROD(9, 2), b = np > 1 ? PROD(11, 1) : 0;
    mc_block_port(9001, 0);
    mc_join(a); if (np > 1) mc_join(b);
    finish("recycled slots", np > 1 ? 12 : 11);
}
static void s_recycle1() { recycle(1); }
static void s_recycle2() { recycle(2); }
// a record built in several appends, with prefix, while others come and go
static void piece_prod(void*) { h_begin(1); { LogStream s(*L, 0, PRIORITY_INFO, 0, 0, "f.cpp", 5, 7, "fn", 2, LOG_PREFIX_NULL); s << "R01"; mc_point(); s << 'b' << "bb"; s << "bb"; } h_end(1); }
static void s_pieces() {
    mc_atomic_begin(); setup(); mc_atomic_end();
    int a = mc_spawn(piece_prod, 0), b = PROD(2, 2); log_rec(0); mc_join(a); mc_join(b); 
    mc_quiesce(); check_sink("pieces", 9001, mask(0, 4), 0);
    mc_atomic_begin(); StopLogger(*L); delete L; mc_atomic_end();
}
// a synchronous channel: one thread is between two devices while another logs more than a full turn of the queue
static void many(void*) { for (int k = 0; k < 12; k++) log_rec(1 + k); }
static void s_sync_turn() {
    mc_atomic_begin(); L = new_logger(); start_with(" - channel: 0\n    sync: sync\n    -device: 0\n        disable: false\n        out_type: udp\n        udp_addr: 127.0.0.1:9001\n    -device: 1\n        disable: false\n        out_type: udp\n        udp_addr: 127.0.0.1:9002\n"); ignore_stats(); guard_records(); mc_atomic_end();
    int a = PROD(0, 1), b = mc_spawn(many, 0); mc_join(a); mc_join(b); mc_quiesce(); check_sink("after a full turn of the queue", 9001, mask(0, 13), 0); check_sink("second device, after a full turn of the queue", 9002, mask(0, 13), 0);
    mc_atomic_begin(); StopLogger(*L); delete L; mc_atomic_end();
}
// the same on an asynchronous channel. What a full turn does to the delivery of records is C04's finding (queue-turn-aba);
// here: nobody touches a record that is not his
MC_NI static const char* not_mine(const char* cls) { return strcmp(cls, "data-race") ? "" : 0; }
static void s_async_turn() { mc_atomic_begin(); setup(); mc_atomic_end(); int a = PROD(0, 1), b = mc_spawn(many, 0); mc_join(a); mc_join(b); mc_quiesce(); mc_atomic_begin(); StopLogger(*L); delete L; mc_atomic_end(); }
// the same with a file and a screen device
static void s_file() {
    mc_atomic_begin();
    L = new_logger(); start_with(" - channel: 0\n    sync: null\n    -device: 0\n        disable: false\n        out_type: file\n        file: f\n        path: d\n    -device: 1\n        disable: false\n        out_type: screen\n"); ignore_stats(); guard_records();
    mc_atomic_end();
    int a = PROD(0, 1), b = PROD(1, 1); mc_join(a); mc_join(b); mc_quiesce();
    size_t n; const char* p = mc_file_get("d/f.log", &n); char t0[48], t1[48], x[110], y[110]; rec_text(0, t0); rec_text(1, t1); snprintf(x, 110, "%s\n%s\n", t0, t1); snprintf(y, 110, "%s\n%s\n", t1, t0);
    if (!p || !((n == strlen(x) && !memcmp(p, x, n)) || (n == strlen(y) && !memcmp(p, y, n)))) { char b[300]; show(b, 300, p ? p : "", n); mc_fail("torn", "file holds \"%s\"", b); }
    mc_atomic_begin(); StopLogger(*L); delete L; mc_atomic_end();
}
static const McScenario SCN[] = {
    {"2x1", s_2x1, 0, 255, 2, 0, 0, 0, 60, "two threads, record memory watched for data races"},
    {"recycle1", s_recycle1, 0, 4, 2, 0, 0, 0, 60, "slots recycled by a waiting thread while the consumer empties a full queue"},
    {"recycle2", s_recycle2, 0, 2, 1, 0, 0, 0, 90, "same with two waiting threads"},
    {"pieces", s_pieces, 0, 2, 1, 0, 0, 0, 60, "a record built in several appends while two threads log"},
    {"file", s_file, 0, 3, 2, 0, 0, 0, 60, "file and screen devices"},
    {"sync_turn", s_sync_turn, 0, 1, 0, 0, 0, 0, 60, "synchronous channel, a full turn of the queue while one thread is between two devices"},
    {"async_turn", s_async_turn, 0, 1, 1, 0, 0, 0, 60, "asynchronous channel, a full turn of the queue during one call", not_mine},
    {"2x1_tso", s_2x1, 0, 4, 0, 1, 0, 1, 120, "with store buffers"},
    {"recycle2_deep", s_recycle2, 0, 3, 2, 0, 0, 1, 300, "deeper"},
    {"2x1_race3", s_2x1, 0, 2, 3, 0, 0, 1, 200, "two threads, deeper race detection"},
    {"3x1", s_3x1, 0, 3, 1, 0, 0, 1, 200, "three threads"},
};
int main(int c, char** v) { return mc_run(c, v, "C03", SCN, sizeof SCN / sizeof *SCN); }
