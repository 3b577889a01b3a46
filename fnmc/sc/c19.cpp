#include "common.h"
#define DEV(id, port, extra) "    -device: " #id "\n        disable: false\n        out_type: udp\n        udp_addr: 127.0.0.1:" #port "\n" extra
static const char* const AS1 = " - channel: 0\n    sync: null\n" DEV(0, 9001, "");
static const char* const AS2 = " - channel: 0\n    sync: null\n" DEV(0, 9001, "") DEV(1, 9002, "        priority: error\n");
static const char* const SY1 = " - channel: 0\n    sync: sync\n" DEV(0, 9001, "");
static const char* const SY2 = " - channel: 0\n    sync: sync\n" DEV(0, 9001, "") DEV(1, 9002, "        priority: error\n");
static const char* const SF1 = " - channel: 0\n    sync: sync\n    -device: 0\n        disable: false\n        out_type: file\n        file: f\n        path: d\n        limit_size: 1 m\n        rollback: 2\n";
// what was logged: the truth the counters are compared with
struct Truth { long long rec[PRIORITY_MAX], bytes[PRIORITY_MAX]; };
MC_NI static int prio_of(int r) { return r % 2 ? PRIORITY_ERROR : PRIORITY_INFO; }
MC_NI static Truth truth(unsigned long long m) {
    Truth t; memset(&t, 0, sizeof t); char b[48];
    for (int r = 0; r < HMAX; r++) if (m >> r & 1) { rec_text(r, b); t.rec[prio_of(r)]++; t.bytes[prio_of(r)] += (long long)strlen(b) + 1; }
    return t;
}
MC_NI static void cmp(const char* ph, const char* what, long long got, long long want) { if (got != want) mc_fail("counter", "%s: %s is %lld, the truth is %lld", ph, what, got, want); }
static void check_counters(const char* ph, unsigned long long all, int ndev, int filedev) {
    mc_atomic_begin();
    Truth t = truth(all); long long n = 0, by = 0; char w[64];
    for (int p = 0; p < PRIORITY_MAX; p++) { n += t.rec[p]; by += t.bytes[p]; }
    cmp(ph, "reserved records", GetChannelLog(*L, 0, CHANNEL_LOG_HOLD), n);
    cmp(ph, "pushed records", GetChannelLog(*L, 0, CHANNEL_LOG_PUSH), n);
    cmp(ph, "processed records", GetChannelLog(*L, 0, CHANNEL_LOG_PROCESSED), n);
    cmp(ph, "processed bytes", GetChannelLog(*L, 0, CHANNEL_LOG_PROCESSED_BYTES), by);
    for (int p = 0; p < PRIORITY_MAX; p++) { snprintf(w, sizeof w, "bytes of priority %d", p); cmp(ph, w, GetChannelLog(*L, 0, (ChannelLogEnum)(CHANNEL_LOG_PRIORITY + p)), t.bytes[p]); }
    for (int d = 0; d < ndev; d++) {
        long long dn = 0, db = 0;
        for (int p = 0; p < PRIORITY_MAX; p++) {
            long long e = d == 1 && p < PRIORITY_ERROR ? 0 : t.bytes[p]; if (e) dn += t.rec[p]; db += e;
            snprintf(w, sizeof w, "device %d bytes of priority %d", d, p); cmp(ph, w, GetDeviceLog(*L, 0, d, (DeviceLogEnum)(DEVICE_LOG_PRIORITY + p)), e);
        }
        snprintf(w, sizeof w, "device %d lines", d); cmp(ph, w, GetDeviceLog(*L, 0, d, DEVICE_LOG_TOTAL_WRITE_LINE), dn);
        snprintf(w, sizeof w, "device %d bytes", d); cmp(ph, w, GetDeviceLog(*L, 0, d, DEVICE_LOG_TOTAL_WRITE_BYTE), db);
        snprintf(w, sizeof w, "device %d lost lines", d); cmp(ph, w, GetDeviceLog(*L, 0, d, DEVICE_LOG_TOTAL_LOSE_LINE), 0);
        if (filedev) cmp(ph, "size of the current file", GetDeviceLog(*L, 0, d, DEVICE_LOG_CUR_FILE_SIZE), db);
    }
    mc_outcome((uint64_t)n);
    mc_atomic_end();
}
static void prod(void* a) { long v = (long)a; int r0 = (int)(v >> 5), n = (int)(v & 31); for (int k = 0; k < n; k++) { log_rec(r0 + k, 0, prio_of(r0 + k)); mc_point(); } }
#define PR(first, count) mc_spawn(prod, (void*)(long)(((first) << 5) | (count)))
static void run(const char* cfg, int ndev, int na, int nb, int restart, int filedev = 0) {
    mc_atomic_begin(); L = new_logger(); start_with(cfg); ignore_stats(); mc_atomic_end();
    int a = PR(0, na), b = nb ? PR(na, nb) : -1; mc_join(a); if (nb) mc_join(b); mc_quiesce();
    check_counters("after all calls returned", mask(0, na + nb), ndev, filedev);
    mc_atomic_begin(); int r = StopLogger(*L); if (r) mc_fail("code", "stop returned %d", r); check_counters("after stop", mask(0, na + nb), ndev, filedev);
    if (restart) { start_with(cfg); log_rec(na + nb, 0, prio_of(na + nb)); mc_quiesce(); check_counters("after restart and one more record", mask(0, na + nb + 1), ndev, filedev); StopLogger(*L); check_counters("after the second stop", mask(0, na + nb + 1), ndev, filedev); }
    delete L; mc_atomic_end();
}
static void s_as() { run(AS1, 1, 1, 1, 1); }
static void s_as2() { run(AS2, 2, 2, 1, 0); }
static void s_sy() { run(SY1, 1, 1, 1, 1); }
static void s_sy2() { run(SY2, 2, 2, 2, 0); }
static void s_file() { run(SF1, 1, 2, 1, 0, 1); }
static void s_turn() { run(SY1, 1, 2, 12, 0); }
// a full turn of the queue during one call: what becomes of the records is C04's finding (queue-turn-aba); if they are all
// output properly, the counters have to be right
MC_NI static const char* not_mine(const char* cls) { return strcmp(cls, "counter") ? "" : 0; }
static void s_aturn() {
    mc_atomic_begin(); L = new_logger(); start_with(AS1); ignore_stats(); mc_atomic_end();
    int a = PR(0, 1), b = PR(1, 12); mc_join(a); mc_join(b); mc_quiesce(); check_sink("after a full turn", 9001, mask(0, 13), 0); check_counters("after a full turn", mask(0, 13), 1, 0);
    mc_atomic_begin(); StopLogger(*L); delete L; mc_atomic_end();
}
// statistics fields of the configuration calls do not matter, but a stop may meet the calls: what was output is what was counted
static void s_stop() {
    mc_atomic_begin(); L = new_logger(); start_with(AS1); ignore_stats(); mc_atomic_end();
    int a = PR(0, 2); StopLogger(*L); mc_join(a);
    mc_atomic_begin(); Sink s; sink_of(9001, &s); long long by = 0; for (int i = 0; i < s.n; i++) by += (long long)s.len[i];
    cmp("stop during logging", "processed records", GetChannelLog(*L, 0, CHANNEL_LOG_PROCESSED), s.n); cmp("stop during logging", "processed bytes", GetChannelLog(*L, 0, CHANNEL_LOG_PROCESSED_BYTES), by);
    cmp("stop during logging", "device lines", GetDeviceLog(*L, 0, 0, DEVICE_LOG_TOTAL_WRITE_LINE), s.n); cmp("stop during logging", "device bytes", GetDeviceLog(*L, 0, 0, DEVICE_LOG_TOTAL_WRITE_BYTE), by);
    mc_outcome((uint64_t)s.n); delete L; mc_atomic_end();
}
// a virtual device is counted on the logging threads themselves, at the same time
struct Seen { long long n, by, p[PRIORITY_MAX]; };
static Seen g_seen;
MC_NI static void hook(const LogData& d) { g_seen.n++; g_seen.by += d.content_len_; g_seen.p[d.priority_] += d.content_len_; }
static void virt(const char* cfg, int na, int nb) {
    mc_atomic_begin(); memset(&g_seen, 0, sizeof g_seen); L = new_logger(); SetVirtualDevice(hook); start_with(cfg); ignore_stats(); mc_atomic_end();
    int a = PR(0, na), b = PR(na, nb); mc_join(a); mc_join(b); mc_quiesce(); mc_atomic_begin(); char w[64]; const char* ph = "virtual device, all calls returned"; Truth t = truth(mask(0, na + nb)); long long by = 0;
    for (int p = 0; p < PRIORITY_MAX; p++) { by += t.bytes[p]; snprintf(w, sizeof w, "virtual device bytes of priority %d", p); cmp(ph, w, GetDeviceLog(*L, 0, 1, (DeviceLogEnum)(DEVICE_LOG_PRIORITY + p)), g_seen.p[p]); snprintf(w, sizeof w, "device 0 bytes of priority %d", p); cmp(ph, w, GetDeviceLog(*L, 0, 0, (DeviceLogEnum)(DEVICE_LOG_PRIORITY + p)), t.bytes[p]); }
    cmp(ph, "calls of the hook", g_seen.n, na + nb); cmp(ph, "virtual device lines", GetDeviceLog(*L, 0, 1, DEVICE_LOG_TOTAL_WRITE_LINE), na + nb); cmp(ph, "virtual device bytes", GetDeviceLog(*L, 0, 1, DEVICE_LOG_TOTAL_WRITE_BYTE), g_seen.by);
    cmp(ph, "device 0 lines", GetDeviceLog(*L, 0, 0, DEVICE_LOG_TOTAL_WRITE_LINE), na + nb); cmp(ph, "device 0 bytes", GetDeviceLog(*L, 0, 0, DEVICE_LOG_TOTAL_WRITE_BYTE), by);
    StopLogger(*L); delete L; SetVirtualDevice(nullptr); mc_outcome((uint64_t)g_seen.n); mc_atomic_end();
}
#define VIRT "    -device: 1\n        disable: false\n        out_type: virtual\n"
static void s_vs() { virt(" - channel: 0\n    sync: sync\n" DEV(0, 9001, "") VIRT, 2, 2); }
static void s_va() { virt(" - channel: 0\n    sync: null\n" DEV(0, 9001, "") VIRT, 1, 2); }
static const McScenario SCN[] = {
    {"async", s_as, 0, 5, 1, 0, 1, 0, 60, "two producers, asynchronous channel, restart"},
    {"async2", s_as2, 0, 3, 1, 0, 1, 0, 60, "two producers, two devices with different thresholds"},
    {"sync", s_sy, 0, 255, 1, 0, 1, 0, 60, "two threads on a synchronous channel, restart"},
    {"sync2", s_sy2, 0, 4, 1, 0, 1, 0, 60, "two threads x 2 records, two devices"},
    {"file", s_file, 0, 5, 1, 0, 1, 0, 60, "file device, current file size"},
    {"turn", s_turn, 0, 1, 0, 0, 1, 0, 60, "synchronous channel, the queue turns while one thread is suspended"},
    {"aturn", s_aturn, 0, 1, 1, 0, 0, 0, 60, "asynchronous channel, the queue turns while one thread is suspended", not_mine},
    {"stop", s_stop, 0, 5, 1, 0, 1, 0, 60, "a stop meets logging"},
    {"virtual_sync", s_vs, 0, 3, 1, 0, 1, 0, 60, "a virtual device, two threads, synchronous channel"},
    {"virtual_async", s_va, 0, 3, 1, 0, 1, 0, 60, "a virtual device, two threads, asynchronous channel"},
    {"async_deep", s_as, 0, 255, 1, 0, 1, 1, 300, "two producers, asynchronous channel, restart"},
    {"async2_deep", s_as2, 0, 4, 1, 0, 1, 1, 300, "two producers, two devices"},
    {"sync2_deep", s_sy2, 0, 5, 1, 0, 1, 1, 300, "two threads x 2 records, two devices"},
};
int main(int c, char** v) { return mc_run(c, v, "C19", SCN, sizeof SCN / sizeof *SCN); }
