#include "common.h"
static const char* const CFG_SHM = " shm_key: 0x4d43\n - channel: 0\n    sync: null\n    -device: 0\n        disable: false\n        out_type: udp\n        udp_addr: 127.0.0.1:9001\n";
static const char* const CFG_SHM_SYNC = " shm_key: 0x4d43\n - channel: 0\n    sync: sync\n    -device: 0\n        disable: false\n        out_type: udp\n        udp_addr: 127.0.0.1:9001\n";
MC_NI static void long_text(int r, char* b);
struct Persist { Hist h; int sent_at[4]; unsigned long long done_at[4], begun_at[4]; };
static Persist* P;
MC_NI static void save() { P->h = H; }
MC_NI static void long_text(int r, char* b) { rec_text(r, b); if (r == 22 || r == 23) { size_t n = strlen(b); for (; n < (size_t)LogData::LOG_SIZE - 2; n++) b[n] = (char)('a' + (n * 7 + (size_t)r) % 26); b[n] = 0; } }
static void plog(int r) { char b[48]; rec_text(r, b); h_begin(r); save(); PUT(*L, 0, PRIORITY_INFO, 0, 0, b); h_end(r); save(); }
static void pprod(void* a) { long v = (long)a; int r0 = (int)(v >> 3), n = (int)(v & 7); for (int k = 0; k < n; k++) plog(r0 + k); }
#define PPROD(first, count) mc_spawn(pprod, (void*)(long)(((first) << 3) | (count)))
static void setup(const char* cfg) { P = (Persist*)mc_persist(); L = new_logger(); start_with(cfg); ignore_stats(); }
// before the crash: an undisturbed execution delivers as usual
static void finish(int n) { mc_quiesce(); check_sink("no crash", 9001, mask(0, n), CHK_ORDER); mc_crash_enable(0); mc_atomic_begin(); StopLogger(*L); delete L; if (mc_shm_segments()) mc_fail("leak", "the shared memory segment is still there after a normal end"); mc_atomic_end(); }
static const char MARKTXT[] = "!!!core recover!!!\n";
MC_NI static int classify_rec(const char* p, size_t l) {   // >=0 record, -2 recovered fragment, -1 anything else
    int r = rec_id(p, l); if (r >= 0) return r;
    for (int q = 22; q < 24; q++) { char b[1200]; long_text(q, b); size_t n = strlen(b); if (l == n + 1 && !memcmp(b, p, n) && p[n] == '\n') return q; }
    size_t m = sizeof MARKTXT - 1; if (l < m || memcmp(p + l - m, MARKTXT, m)) return -1;
    // what is marked as recovered is the begin of a record whose call was in progress at a crash
    for (int c = 1; c < mc_crashes() && l >= 2 * m && !memcmp(p + l - 2 * m, MARKTXT, m); c++) l -= m;   // marked again by a second recovery
    if (l == m) return -2;
    for (int c = 1; c <= mc_crashes(); c++) for (int q = 0; q < HMAX; q++) if ((P->begun_at[c] & ~P->done_at[c]) >> q & 1) { char b[1200]; long_text(q, b); size_t n = strlen(b); b[n++] = '\n'; if (l - m <= n && !memcmp(b, p, l - m)) return -2; }
    return -1;
}
MC_NI static void note_crash() { P = (Persist*)mc_persist(); int c = mc_crashes(); P->sent_at[c] = mc_sink_count(); P->done_at[c] = P->h.done; P->begun_at[c] = P->h.begun; H = P->h; }
// everything output so far, over all processes. extra: records logged by the recovery process
MC_NI static void check_all(const char* ph, unsigned long long extra) {
    int c = mc_crashes(); unsigned long long done = P->done_at[c], begun = P->begun_at[c]; char b[400]; int first[HMAX], cnt[HMAX]; memset(cnt, 0, sizeof cnt); int frag = 0, dup = 0;
    Sink s; sink_of(9001, &s);
    for (int i = 0; i < s.n; i++) {
        int r = classify_rec(s.p[i], s.len[i]);
        if (r == -1) { show(b, sizeof b, s.p[i], s.len[i]); mc_fail("torn", "%s: output #%d is neither a record nor marked as recovered: \"%s\"", ph, i, b); }
        if (r == -2) { frag++; if (!mc_crashes() || i < P->sent_at[1]) mc_fail("invented", "%s: a recovery mark is output without a crash", ph); continue; }
        if (!((begun | extra) >> r & 1)) mc_fail("invented", "%s: record R%02d was never logged", ph, r);
        if (!cnt[r]) first[r] = i; cnt[r]++;
        if (cnt[r] > 1) {   // delivered again: only the record being handed over at a crash
            if (!(done >> r & 1) && cnt[r] > 1 + c) mc_fail("duplicate", "%s: record R%02d, in progress at the crash, is output %d times", ph, r, cnt[r]);
            bool last = false; for (int k = 1; k <= c; k++) if (P->sent_at[k] > 0) { const char* p = s.p[P->sent_at[k] - 1]; if (rec_id(p, s.len[P->sent_at[k] - 1]) == r) last = true; }
            if (!last) mc_fail("duplicate", "%s: record R%02d is output again although it was not the one being handed over at the crash", ph, r);
            dup++;
        }
    }
    int inprog = __builtin_popcountll(begun & ~done); if (frag > inprog) { dup += frag - inprog; frag = inprog; }
    if (dup > c) mc_fail("duplicate", "%s: %d records are output again after %d crash(es)", ph, dup, c);

    for (int r = 0; r < HMAX; r++) if (((done | extra) >> r & 1) && !cnt[r]) mc_fail("lost", "%s: record R%02d (its call had returned) is never output", ph, r);
    for (int r = 0; r < HMAX; r++) for (int q = 0; q < HMAX; q++) if (cnt[r] && cnt[q] && (H.before[r] >> q & 1) && first[r] < first[q]) mc_fail("order", "%s: R%02d is output before R%02d", ph, r, q);
    unsigned long long oc = (unsigned)(dup * 100 + frag); mc_outcome(oc);
}
static const char* g_cfg = CFG_SHM;
static void recover_with(const char* cfg) {
    mc_atomic_begin(); note_crash(); L = new_logger(); start_with(cfg); ignore_stats(); mc_atomic_end();
    mc_quiesce(); check_all("after recovery", 0);
    log_rec(30); log_rec(31); mc_quiesce(); check_all("logging after recovery", 3ull << 30);
    mc_atomic_begin(); for (int i = 0; i < 12; i++) { P->h = H; log_rec(i < 8 ? 32 + i : 16 + i); } mc_quiesce(); 
    StopLogger(*L); check_all("after stop", 3ull << 30 | mask(32, 40) | mask(24, 28)); delete L; if (mc_shm_segments()) mc_fail("leak", "the shared memory segment is still there after a normal end"); if (mc_open_handles()) mc_fail("leak", "handles open"); mc_atomic_end();
}
static void recover_long() { mc_block_port(9001, 0); mc_atomic_begin(); note_crash(); L = new_logger(); start_with(CFG_SHM); ignore_stats(); mc_quiesce(); check_all("after recovery", 0); StopLogger(*L); check_all("after stop", 0); delete L; mc_atomic_end(); }
static void recover() { recover_with(CFG_SHM); }
static void recover_sync() { recover_with(CFG_SHM_SYNC); }
static void s_1x2() { mc_atomic_begin(); setup(CFG_SHM); mc_atomic_end(); mc_crash_enable(1); int a = PPROD(0, 2); mc_join(a); finish(2); }
static void s_1x3() { mc_atomic_begin(); setup(CFG_SHM); mc_atomic_end(); mc_crash_enable(1); int a = PPROD(0, 3); mc_join(a); finish(3); }
static void s_2x1() { mc_atomic_begin(); setup(CFG_SHM); mc_atomic_end(); mc_crash_enable(1); int a = PPROD(0, 1), b = PPROD(1, 1); mc_join(a); mc_join(b); finish(2); }
// the consumer is stuck in its output: several undelivered records, one in progress
static void s_blocked() { mc_atomic_begin(); setup(CFG_SHM); mc_block_port(9001, 1); for (int i = 0; i < 4; i++) plog(i); mc_quiesce(); mc_atomic_end(); mc_crash_enable(1); int a = PPROD(4, 1), b = PPROD(5, 1); mc_join(a); mc_join(b); mc_block_port(9001, 0); finish(6); }
// full queue that has wrapped around
static void s_wrap() { mc_atomic_begin(); setup(CFG_SHM); for (int i = 0; i < 7; i++) plog(i); mc_quiesce(); mc_block_port(9001, 1); for (int i = 7; i < 16; i++) plog(i); mc_quiesce(); mc_atomic_end(); mc_crash_enable(1); int a = PPROD(16, 2); mc_point(); mc_block_port(9001, 0); mc_join(a); finish(18); }
static void recover_unblock() { mc_block_port(9001, 0); recover_with(CFG_SHM); }
// synchronous channel
static void s_sync() { mc_atomic_begin(); setup(CFG_SHM_SYNC); mc_atomic_end(); mc_crash_enable(1); int a = PPROD(0, 3); mc_join(a); finish(3); }
// crash, then another crash while or after recovering
static void recover_twice() {
    mc_block_port(9001, 0);
    if (mc_crashes() > 1) { recover_with(CFG_SHM); return; }
    note_crash(); mc_crash_enable(2);
    mc_atomic_begin(); L = new_logger(); start_with(CFG_SHM); ignore_stats(); mc_atomic_end();
    mc_quiesce(); check_all("after recovery", 0); P->h = H; plog(20); mc_quiesce(); mc_crash_enable(0);
    mc_atomic_begin(); StopLogger(*L); check_all("after stop", 1ull << 20); delete L; mc_atomic_end();
}
static void s_twice() { mc_atomic_begin(); setup(CFG_SHM); mc_block_port(9001, 1); for (int i = 0; i < 2; i++) plog(i); mc_quiesce(); mc_atomic_end(); mc_crash_enable(1); int a = PPROD(2, 1); mc_join(a); mc_block_port(9001, 0); finish(3); }
// the recovered records take longer to output than a start is willing to wait
static void ticker(void*) { for (int i = 0; i < 130; i++) { mc_clock_advance(0); mc_quiesce(); } mc_block_port(9001, 0); }
static void recover_slow() {
    mc_block_port(9001, 1); note_crash(); mc_atomic_begin(); L = new_logger(); int t = mc_spawn(ticker, 0);
    int r = ParseAndStartLogger(*L, CFG_SHM); if (r && r != E_CHANNEL_THREAD_FAILED) mc_fail("code", "start returned %d", r);
    mc_join(t); if (r) start_with(CFG_SHM);
    mc_quiesce(); check_all("after a slow recovery", 0); log_rec(30); mc_quiesce(); check_all("after a slow recovery", 1ull << 30);
    StopLogger(*L); check_all("after stop", 1ull << 30); delete L; mc_atomic_end();
}
// the process dies while StopLogger outputs what is queued
static void s_stop() { mc_atomic_begin(); setup(CFG_SHM); mc_block_port(9001, 1); for (int i = 0; i < 3; i++) plog(i); mc_quiesce(); mc_atomic_end(); mc_crash_enable(1); int a = PPROD(3, 1); mc_block_port(9001, 0); mc_join(a); StopLogger(*L); check_sink("after stop", 9001, mask(0, 4), CHK_ORDER); mc_crash_enable(0); mc_atomic_begin(); delete L; mc_atomic_end(); }
// records up to the last byte of their place, appended in pieces
static void put_long(int r) {
    char b[1200]; long_text(r, b); h_begin(r); save();
    { LogStream s(*L, 0, PRIORITY_INFO, 0, 0, "", 0, 0, "", 0, LOG_PREFIX_NULL); size_t n = strlen(b), h = n - 20; s.write_buffer(b, (int)h); s.write_buffer(b + h, 10); s.write_buffer(b + h + 10, (int)(n - h - 10)); }
    h_end(r); save();
}
static void long_thread(void* a) { put_long((int)(long)a); }
static void s_long() { mc_atomic_begin(); setup(CFG_SHM); mc_block_port(9001, 1); plog(0); mc_quiesce(); mc_atomic_end(); mc_crash_enable(1); int a = mc_spawn(long_thread, (void*)22L); int b = mc_spawn(long_thread, (void*)23L); mc_join(a); mc_join(b); mc_crash_enable(0); mc_block_port(9001, 0); mc_atomic_begin(); mc_quiesce(); StopLogger(*L); delete L; mc_atomic_end(); }
// places used before by longer records
static void s_turned() { mc_atomic_begin(); setup(CFG_SHM); for (int i = 0; i < 12; i++) plog(i); mc_quiesce(); mc_atomic_end(); mc_crash_enable(1); int a = PPROD(12, 1), b = PPROD(13, 1); mc_join(a); mc_join(b); finish(14); }
static const McScenario SCN[] = {
    {"1x2", s_1x2, recover, 4, 1, 0, 0, 0, 60, "one thread logs twice, crash at every step"},
    {"2x1", s_2x1, recover, 3, 1, 0, 0, 0, 60, "two threads, crash at every step"},
    {"blocked", s_blocked, recover_unblock, 3, 1, 0, 0, 0, 60, "undelivered records and calls in progress at the crash"},
    {"wrap", s_wrap, recover_unblock, 3, 1, 0, 0, 0, 60, "full, wrapped queue with a waiting caller"},
    {"sync", s_sync, recover_sync, 3, 1, 0, 0, 0, 60, "synchronous channel, one thread"},
    {"twice", s_twice, recover_twice, 2, 0, 0, 0, 0, 60, "a second crash at any step of the recovery"},
    {"stop", s_stop, recover_unblock, 3, 1, 0, 0, 0, 60, "crash while a stop drains the queue"},
    {"long", s_long, recover_long, 2, 1, 0, 0, 0, 60, "records that fill their place, in pieces"},
    {"turned", s_turned, recover_unblock, 2, 0, 0, 0, 0, 60, "places used before by longer records"},
    {"slow", s_blocked, recover_slow, 1, 0, 0, 0, 0, 60, "recovered records take longer to output than the start waits"},
    {"1x3_deep", s_1x3, recover, 255, 1, 0, 0, 1, 200, "one thread, unbounded"},
    {"2x1_deep", s_2x1, recover, 5, 1, 0, 0, 1, 200, "two threads"},
    {"wrap_deep", s_wrap, recover_unblock, 5, 1, 0, 0, 1, 200, "full, wrapped queue"},
    {"twice_deep", s_twice, recover_twice, 4, 0, 0, 0, 1, 200, "second crash"},
};
int main(int c, char** v) { return mc_run(c, v, "C14", SCN, sizeof SCN / sizeof *SCN); }
