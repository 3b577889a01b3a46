// Shared parts of the fnmc scenarios. Everything marked MC_NI is oracle code (not instrumented).
#pragma once
#include "../mc.h"
#include "fn_log.h"
#include <string.h>
#include <stdio.h>
using namespace FNLog;
static Logger* L;
// the C library's shared broken-down time: one static buffer for all threads, as in libc, but visible to the race detection
extern "C" struct tm* localtime(const time_t* t) noexcept { static struct tm shared_tm; struct tm x; localtime_r(t, &x); shared_tm.tm_mday = x.tm_mday; shared_tm = x; return &shared_tm; }
extern "C" struct tm* gmtime(const time_t* t) noexcept { static struct tm shared_tm; struct tm x; gmtime_r(t, &x); shared_tm.tm_mday = x.tm_mday; shared_tm = x; return &shared_tm; }

#define PUT(lg, ch, prio, cat, id, text) do { LOG_STREAM_ORIGIN(lg, ch, prio, cat, id, LOG_PREFIX_NULL) << (const char*)(text); } while (0)

static const char* const CFG_UDP1 =
    " - channel: 0\n    sync: null\n    -device: 0\n        disable: false\n        out_type: udp\n        udp_addr: 127.0.0.1:9001\n";

MC_NI static void ignore_stats() {
    for (int c = 0; c < Logger::MAX_CHANNEL_SIZE; c++) {
        mc_ignore_range(&L->shm_->channels_[c].channel_log_fields_[CHANNEL_LOG_WAIT_COUNT], sizeof(long long));
        mc_ignore_range(&L->shm_->channels_[c].channel_log_fields_[CHANNEL_LOG_MAX_PROC_QUE_SIZE], sizeof(long long));
    }
}
// every byte of a record that the queue hands from one thread to another
MC_NI static void guard_records() {
    for (int c = 0; c < Logger::MAX_CHANNEL_SIZE; c++)
        for (int i = 0; i < RingBuffer::BUFFER_LEN; i++) {
            LogData& d = L->shm_->ring_buffers_[c].buffer_[i];
            mc_guard_range(&d.channel_id_, sizeof(LogData) - offsetof(LogData, channel_id_));
        }
}
static Logger* new_logger() { return new Logger(); }
static void start_with(const char* cfg) {
    int r = ParseAndStartLogger(*L, cfg);
    if (r != 0) mc_fail("start", "a valid configuration does not start: error %d", r);
}
// ---- what was sent to a port
struct Sink { int n; const char* p[64]; size_t len[64]; };
MC_NI static void sink_of(int port, Sink* s) {
    s->n = 0; for (int i = 0; i < mc_sink_count(); i++) { int pt; size_t l; const char* d = mc_sink_get(i, &pt, &l); if (pt == port && s->n < 64) { s->p[s->n] = d; s->len[s->n++] = l; } }
}
MC_NI static void show(char* b, size_t n, const char* p, size_t l) { size_t k = 0; for (size_t i = 0; i < l && k + 5 < n && i < 60; i++) { if ((unsigned char)p[i] < 32 || (unsigned char)p[i] > 126) k += snprintf(b + k, n - k, "\\x%02x", (unsigned char)p[i]); else b[k++] = p[i]; } b[k] = 0; }
// ---- history of one scenario: records are identified by a number, their text is text_of(number)
static const int HMAX = 40;
struct Hist { unsigned long long begun, done, before[HMAX]; int must[HMAX]; int n; };
static Hist H;
MC_NI static void rec_text(int r, char* b) {   // distinct lengths, so that mixed or stale tails are visible
    int n = snprintf(b, 40, "R%02d", r); int extra = (r * 5) % 7; for (int i = 0; i < extra; i++) b[n++] = (char)('a' + r % 26); b[n] = 0;
}
MC_NI static int rec_id(const char* p, size_t l) {   // -1 if it is not exactly one record
    if (l < 4 || p[0] != 'R') return -1; int r = (p[1] - '0') * 10 + (p[2] - '0'); if (r < 0 || r >= HMAX) return -1;
    char b[48]; rec_text(r, b); size_t n = strlen(b); if (l != n + 1 || memcmp(b, p, n) || p[n] != '\n') return -1; return r;
}
MC_NI static void h_begin(int r) { H.before[r] = H.done; H.begun |= 1ull << r; }
MC_NI static void h_end(int r) { H.done |= 1ull << r; }
static void log_rec(int r, int ch = 0, int prio = PRIORITY_INFO) {
    char b[48]; rec_text(r, b); h_begin(r); PUT(*L, ch, prio, 0, 0, b); h_end(r);
}
static const unsigned CHK_ORDER = 1, CHK_SUBSET = 2;
// each record of `want` (bit mask) exactly once, nothing else. CHK_ORDER: real-time order of calls
MC_NI static void check_sink(const char* phase, int port, unsigned long long want, unsigned flags, unsigned long long may = 0) {
    Sink s; sink_of(port, &s); unsigned long long seen = 0; char b[400]; unsigned long long oc = 0;
    for (int i = 0; i < s.n; i++) {
        int r = rec_id(s.p[i], s.len[i]); oc = oc * 41 + (unsigned)(r + 1);
        if (r < 0) { show(b, sizeof b, s.p[i], s.len[i]); mc_fail("torn", "%s: output #%d is not exactly what one log call appended: \"%s\"", phase, i, b); }
        if (seen >> r & 1) mc_fail("duplicate", "%s: record R%02d is output twice", phase, r);
        if (!((want | may) >> r & 1)) mc_fail("invented", "%s: record R%02d is output although no such record was to be output", phase, r);
        if (flags & CHK_ORDER) for (int j = 0; j < i; j++) { int q = rec_id(s.p[j], s.len[j]); if (q >= 0 && (H.before[q] >> r & 1)) mc_fail("order", "%s: the call for R%02d had returned before the call for R%02d began, but R%02d is output first", phase, r, q, q); }
        seen |= 1ull << r;
    }
    for (int r = 0; r < HMAX; r++) if ((want & ~seen) >> r & 1) mc_fail("lost", "%s: record R%02d was accepted but never output (%d of %d records output)", phase, r, s.n, __builtin_popcountll(want));
    mc_outcome(oc);
}
// plain producer: arg = first record number * 8 + count
static void producer(void* a) { long v = (long)a; int r0 = (int)(v >> 3), n = (int)(v & 7); for (int k = 0; k < n; k++) { log_rec(r0 + k); mc_point(); } }
#define PROD(first, count) mc_spawn(producer, (void*)(long)(((first) << 3) | (count)))

static unsigned long long mask(int a, int b) { return ((1ull << b) - 1) & ~((1ull << a) - 1); }   // [a, b)
static void log_n(int from, int n, int ch = 0) { for (int i = 0; i < n; i++) log_rec(from + i, ch); }
static void unblocker(void* a) { mc_point(); mc_block_port((int)(long)a, 0); mc_point(); }
// the whole queue is usable: BUFFER_LEN - 1 open streams of one thread fit at the same time
static unsigned long long whole_queue(int first, int ch = 0) { std::vector<LogStream> v; v.reserve(RingBuffer::BUFFER_LEN); for (int i = 0; i < RingBuffer::BUFFER_LEN - 1; i++) { char b[48]; rec_text(first + i, b); h_begin(first + i); v.emplace_back(LOG_STREAM_ORIGIN(*L, ch, PRIORITY_INFO, 0, 0, LOG_PREFIX_NULL)); v.back() << (const char*)b; } v.clear(); for (int i = 0; i < RingBuffer::BUFFER_LEN - 1; i++) h_end(first + i); return mask(first, first + RingBuffer::BUFFER_LEN - 1); }
