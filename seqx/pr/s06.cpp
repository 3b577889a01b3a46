// C06: any sequence of lifecycle and control calls
#include "fx.h"
#include <dirent.h>
#include <pthread.h>
extern "C" const char* __asan_default_options() { return "max_malloc_fill_size=1073741824:malloc_fill_byte=90:detect_leaks=0"; }
extern "C" { DIR* __real_opendir(const char*); int __real_closedir(DIR*); }
static int threads() { int n = 0; DIR* d = __real_opendir("/proc/self/task"); while (dirent* e = readdir(d)) if (e->d_name[0] != '.') n++; __real_closedir(d); return n; }
// a thread that was joined stays listed for a moment
static int more_threads(int base) { int n = 0; for (int i = 0; i < 3000 && (n = threads() - base); i++) usleep(1000); return n; }
static const char* const A = " - channel: 0\n    sync: sync\n    -device: 0\n        disable: false\n        out_type: file\n        file: a\n    -device: 1\n        disable: false\n        out_type: screen\n    -device: 2\n        disable: false\n        out_type: empty\n";
static const char* const B = " - logger_name: bee\n - channel: 0\n    sync: async\n    -device: 0\n        disable: false\n        out_type: file\n        file: b\n        path: ./sub/\n - channel: 1\n    sync: sync\n    -device: 0\n        disable: false\n        out_type: udp\n        udp_addr: 1.2.3.4:5\n    -device: 1\n        disable: false\n        out_type: file\n        file: b1\n";
static const char* const C = " - shm_key: 0x77\n - channel: 0\n    sync: sync\n    -device: 0\n        disable: false\n        out_type: file\n        file: c\n";
static const char* const C2 = " - shm_key: 0x78\n - channel: 0\n    sync: sync\n    -device: 0\n        disable: false\n        out_type: file\n        file: c\n - channel: 1\n    sync: sync\n";
static const char* const D = " - channel: 0\n    sync: async\n    -device: 0\n        disable: false\n        in_type: udp\n        out_type: screen\n        udp_addr: 0.0.0.0:900\n    -device: 1\n        disable: false\n        out_type: file\n        file: d\n";
static const char* const BAD = " - channel: 0\n    sync: sync\n    bogus: 1\n";
static const char* const FILES[] = {"a.log", "sub/b.log", "b1.log", "c.log", "d.log"};
struct Cfg { const char* t; std::vector<const char*> file; };   // file of each channel, or none
static const std::vector<Cfg> CFG = {{A, {"a.log"}}, {B, {"sub/b.log", "b1.log"}}, {C, {"c.log"}}, {C2, {"c.log", nullptr}}, {D, {"d.log"}}};
struct H {
    Fx f; bool running = false; int cfg = -1; int seq = 0; std::vector<std::pair<const char*, std::string>> due, lost; std::string hist; int base; size_t socks0 = 0;
    H() { base = threads(); }
    void did(const std::string& s) { hist += (hist.empty() ? "" : "; ") + s; if (sx_tracing()) sx_note("%s", s.c_str()); }
    void res(const char* what, int r, bool ok) { did(sx_fmt("%s: %d", what, r)); sx_op(); env().take_screen(); if ((r == 0) != ok) sx_fail("%s returns %d: %s", what, r, hist.c_str()); }
    void check() { for (auto& d : due) { std::string t; for (auto x : {"", ".1", ".2", ".3"}) t += f.file(std::string(d.first) + x); if (t.find(d.second + "\n") == std::string::npos) sx_fail("%s, logged while the logger was running, is not in %s (%s): %s", d.second.c_str(), d.first, sx_esc(t).c_str(), hist.c_str()); } due.clear();
        for (auto x : FILES) { std::string t = f.file(x); for (auto& l : lost) if (t.find(l.second + "\n") != std::string::npos) sx_fail("%s, logged while it could not be, is in %s: %s", l.second.c_str(), x, hist.c_str()); } }
    void stop() { int r = StopLogger(*f.lg); res("stop", r, running); running = false; check(); idle(); }
    void idle() { if (int n = more_threads(base)) sx_fail("%d threads are left after a stop: %s", n, hist.c_str()); if (env().open_files || env().open_dirs || !env().socks.empty()) sx_fail("%d files, %d directories and %zu sockets are left open after a stop: %s", env().open_files, env().open_dirs, env().socks.size(), hist.c_str()); }
    void start() { int r = StartLogger(*f.lg); res("start", r, !running && cfg >= 0); if (r == 0) running = true; }
    void both(int c, bool file) { int r; if (file) { env().put("c.yaml", CFG[(size_t)c].t); r = LoadAndStartLogger(*f.lg, "c.yaml"); } else r = ParseAndStartLogger(*f.lg, CFG[(size_t)c].t); bool ok = !running; res(sx_fmt("%s and start %c", file ? "load" : "parse", "ABCSD"[c]).c_str(), r, ok); if (ok) running = true, cfg = c; }
    void init(int c) { int r = InitFromYMAL(*f.lg, CFG[(size_t)c].t, ""); bool ok = !running; res(sx_fmt("init %c", "ABCSD"[c]).c_str(), r, ok); if (ok) cfg = c; }
    void bad(int k) { int r = 0; if (k == 0) r = ParseAndStartLogger(*f.lg, BAD); if (k == 1) r = ParseAndStartLogger(*f.lg, ""); if (k == 2) r = LoadAndStartLogger(*f.lg, "none.yaml"); if (k == 3) r = InitFromYMALFile(*f.lg, "none.yaml"); res("a bad configuration", r, false); }
    void log(int ch, int prio) { std::string t = sx_fmt("m%d", seq++); did(sx_fmt("log %s on %d with %d", t.c_str(), ch, prio)); f.log(ch, prio, 0, 0, t); sx_op(); env().take_screen(); bool in = running && ch >= 0 && (size_t)ch < CFG[(size_t)cfg].file.size() && prio >= 0; const char* fl = in ? CFG[(size_t)cfg].file[(size_t)ch] : nullptr; if (fl) due.push_back({fl, t}); else lost.push_back({nullptr, t}); }
    void ask() { did("all queries"); Logger& l = *f.lg; long long s = 0; for (int c : {-1, 0, 1, 2, 99}) { for (int k = 0; k < CHANNEL_LOG_MAX_ID + 2; k++) { long long v = GetChannelLog(l, c, (ChannelLogEnum)k); if (v && (cfg < 0 || c < 0 || c > 1 || k >= CHANNEL_LOG_MAX_ID)) sx_fail("a query of channel %d, %d returns %lld: %s", c, k, v, hist.c_str()); } for (int d : {-1, 0, 1, 2, 3, 99}) { for (int k = 0; k < DEVICE_LOG_MAX_ID + 2; k++) { long long v = GetDeviceLog(l, c, d, (DeviceLogEnum)k); if (v && (cfg < 0 || c < 0 || c > 1 || d < 0 || d > 2)) sx_fail("a query of device %d/%d, %d returns %lld: %s", c, d, k, v, hist.c_str()); } for (int k = 0; k < DEVICE_CFG_MAX_ID + 2; k++) { long long v = GetDeviceConfig(l, c, d, (DeviceConfigEnum)k); if (v && (cfg < 0 || c < 0 || c > 1 || d < 0 || d > 2)) sx_fail("a query of the setting %d of device %d/%d returns %lld: %s", k, c, d, v, hist.c_str()); s += v; bool none = cfg < 0 || c < 0 || c > 1 || d < 0 || d > 2 || k >= DEVICE_CFG_MAX_ID; SetDeviceConfig(l, c, d, (DeviceConfigEnum)k, none ? 77 : v); if (GetDeviceConfig(l, c, d, (DeviceConfigEnum)k) != v) sx_fail("a setting does not keep its value: %s", hist.c_str()); } } SetChannelConfig(l, c, CHANNEL_CFG_MAX_ID, 1); SetChannelConfig(l, c, CHANNEL_CFG_PRIORITY, 0); } BatchSetChannelConfig(l, CHANNEL_CFG_PRIORITY, 0); BatchSetChannelConfig(l, CHANNEL_CFG_MAX_ID, 1000000000); BatchSetDeviceConfig(l, DEVICE_OUT_FILE, DEVICE_CFG_MAX_ID, 1000000000); BatchSetDeviceConfig(l, DEVICE_OUT_FILE, DEVICE_CFG_PRIORITY, 0); BatchSetDeviceConfig(l, DEVICE_OUT_NULL, DEVICE_CFG_CATEGORY, 0); sx_op(); }
    void fini() { if (running) stop(); both(0, false); log(0, PRIORITY_FATAL); stop(); did("destroy"); end(); }
    void end() { bool shm = false; for (auto& s : env().shm) if (s.first != 0 && !s.second.removed) shm = true; (void)shm; delete f.lg; f.lg = nullptr; env().take_screen(); if (int n = more_threads(base)) sx_fail("%d threads are left after the destruction: %s", n, hist.c_str()); if (env().open_files || env().open_dirs || !env().socks.empty()) sx_fail("%d files, %d directories and %zu sockets are left open after the destruction: %s", env().open_files, env().open_dirs, env().socks.size(), hist.c_str()); for (auto& s : env().shm) { if (s.first == 0) { if (s.second.removed || s.second.attached != 1) sx_fail("a shared memory segment of somebody else was touched: %s", hist.c_str()); } else if (!s.second.removed || s.second.attached) sx_fail("a shared memory segment is left (attached %d, removed %d): %s", s.second.attached, (int)s.second.removed, hist.c_str()); } }
};
static void foreign() { env().shm[0] = Env::Seg{0x99, 64, (char*)calloc(1, 64), 1, false}; }
static void op(H& h, int o) {
    switch (o) { case 0: h.start(); break; case 1: h.stop(); break; case 2: h.both(0, false); break; case 3: h.both(1, true); break; case 4: h.both(2, false); break; case 5: h.both(4, false); break; case 6: h.bad(0); break; case 7: h.bad(1); break; case 8: h.bad(2); break; case 9: h.log(0, PRIORITY_INFO); break; case 10: h.log(1, PRIORITY_FATAL); break; case 11: h.ask(); break; case 12: h.init(3); break; case 13: h.init(1); break; case 14: h.bad(3); break; case 15: h.log(-1, 2); h.log(2, 2); h.log(1000000, 2); break; case 16: h.log(0, 7); h.log(0, 100); break; case 17: h.log(0, -1); break; case 18: h.both(3, true); break; }
}
SX_SUITE(sequences, 150, 400, 0) { foreign(); H h; int n = sx_thorough() ? 5 : 4; for (int i = 0; i < n; i++) { int o = sx_choose(20); if (o == 19) break; op(h, o); } if (sx_choose(2)) h.fini(); else { if (!h.running) h.check(); h.end(); } }
// the calls that matter most, deeper
SX_SUITE(restarts, 100, 400, 0) { foreign(); H h; int n = sx_thorough() ? 8 : 6; static const std::vector<int> O = {0, 1, 2, 3, 4, 9}; for (int i = 0; i < n; i++) op(h, sx_pick(O)); if (sx_choose(2)) h.fini(); else { if (!h.running) h.check(); h.end(); } }
// priorities outside the scale: nothing but the record of this call changes
SX_SUITE(priorities, 20, 60, 0) {
    foreign(); H h; h.both(sx_choose(2), false); static const std::vector<int> P = {-2147483647 - 1, -1000, -2, -1, 0, 6, 7, 8, 9, 15, 16, 21, 22, 30, 100, 1000, 100000, 2147483647}; int p = sx_pick(P), cp = sx_choose(3); if (cp) BatchSetChannelConfig(*h.f.lg, CHANNEL_CFG_PRIORITY, cp == 1 ? -5 : 6); BatchSetDeviceConfig(*h.f.lg, DEVICE_OUT_NULL, DEVICE_CFG_PRIORITY, cp == 1 ? -2147483648LL : 0); unsigned pre = (unsigned)sx_pick(std::vector<int>{0, LOG_PREFIX_PRIORITY, LOG_PREFIX_ALL});
    auto snap = [&] { std::vector<long long> v; for (int k = 0; k < CHANNEL_LOG_MAX_ID; k++) v.push_back(GetChannelLog(*h.f.lg, 0, (ChannelLogEnum)k)); return v; }; auto a = snap(); bool ok = h.f.log(0, p, 0, 0, "text", pre); h.f.stop(); auto b = snap(); env().take_screen(); sx_op(); long long sum = 0; int where = -1; for (int k = CHANNEL_LOG_PRIORITY; k < CHANNEL_LOG_PRIORITY_MAX; k++) { if (b[(size_t)k] != a[(size_t)k]) where = k - CHANNEL_LOG_PRIORITY; sum += b[(size_t)k] - a[(size_t)k]; }
    if (ok && (where != (p < 0 ? 0 : p > PRIORITY_FATAL ? PRIORITY_FATAL : p) || sum < 5)) sx_fail("a record of priority %d is counted as %d (%lld bytes)", p, where, sum); if (!ok && where >= 0) sx_fail("a refused record is counted"); for (int k = CHANNEL_LOG_PRIORITY_MAX; k < CHANNEL_LOG_MAX_ID; k++) if (k != CHANNEL_LOG_PROCESSED && k != CHANNEL_LOG_PROCESSED_BYTES && k != CHANNEL_LOG_MAX_PROC_QUE_SIZE && k != CHANNEL_LOG_HOTUPDATE_CHECK && b[(size_t)k] != a[(size_t)k]) sx_fail("a record of priority %d changes the counter %d by %lld", p, k, b[(size_t)k] - a[(size_t)k]);
    if (ok) { int c = h.cfg; std::string t = h.f.file(CFG[(size_t)c].file[0]); if (t.size() < 5 || t.substr(t.size() - 5) != "text\n") sx_fail("a record of priority %d is not output", p); } h.running = false; h.end();
}
// ---- what can fail while memory, threads and files are acquired
SX_SUITE(shm_faults, 60, 200, 0) {
    foreign(); H h; int c = sx_choose(2) ? 3 : 2; static const char* OP[] = {"shmget", "shmat"}; int op = sx_choose(2), nth = sx_choose(3), err = sx_pick(std::vector<int>{ENOMEM, EACCES, EINVAL, ENOSPC}), cnt = 0, pre = sx_choose(10); bool hit = false, on = true;
    // what is there under that key: nothing, a segment of another size, of another version, with indexes that cannot be
    long long key = c == 3 ? 0x78 : 0x77; if (pre) { size_t n = pre == 1 ? 100 : sizeof(SHMLogger); char* m = (char*)calloc(1, sizeof(SHMLogger)); env().shm[50] = Env::Seg{key, n, m, 0, false}; SHMLogger* s = (SHMLogger*)m; if (pre >= 3) { s->shm_id_ = 50; s->shm_size_ = sizeof(SHMLogger); s->channel_size_ = 1; } if (pre == 3) s->ring_buffers_[0].write_idx_ = 1 << 20; if (pre == 4) s->channel_size_ = 1000; if (pre == 5) s->shm_size_ -= 8; if (pre == 6) s->shm_id_ = 49; if (pre == 7) s->ring_buffers_[0].read_idx_ = 1 << 20; if (pre == 8) s->ring_buffers_[0].read_idx_ = -1; if (pre == 9) s->ring_buffers_[0].write_idx_ = -1; }
    env().fault = [&](const char* o, const std::string&) { if (on && !strcmp(o, OP[op]) && cnt++ == nth) { hit = true; return err; } return 0; }; int r = ParseAndStartLogger(*h.f.lg, CFG[(size_t)c].t); on = false; h.did(sx_fmt("start with %s failing: %d", OP[op], r)); env().take_screen(); sx_op(); if ((hit || pre) && r == 0) sx_fail("started: %s", h.hist.c_str()); if (!hit && !pre && r) sx_fail("does not start: %d", r);
    if (env().attached() != 1 + (r == 0)) sx_fail("%d segments are attached after a start that returned %d", env().attached() - 1, r); if (r) { for (auto& s : env().shm) if (s.first != 0 && s.first != 50 && !s.second.removed) sx_fail("a segment is left behind by a start that failed (%d)", r); } if (r == 0) { h.running = true; h.cfg = c; h.log(0, 2); }
    if (pre) { int n = sx_choose(2); if (n) { if (ParseAndStartLogger(*h.f.lg, CFG[(size_t)c].t) == 0) sx_fail("started on a segment of another version"); env().take_screen(); } env().shm.erase(50); if (sx_choose(2)) h.both(c, false); } else if (sx_choose(2) && r) h.both(c, true);
    if (h.running) { h.log(0, 3); h.stop(); } h.both(sx_choose(2), false); h.log(0, 2); h.stop(); h.did("destroy"); h.end();
}
static bool no_thread() { pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a, (size_t)1 << 46); int r = pthread_setattr_default_np(&a); pthread_attr_destroy(&a); return r == 0; }
static void threads_again() { pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a, (size_t)8 << 20); pthread_setattr_default_np(&a); pthread_attr_destroy(&a); }
SX_SUITE(thread_faults, 60, 200, 0) {
    foreign(); H h; int c = sx_choose(2) ? 1 : 4; bool before = sx_choose(2), file = sx_choose(2); if (before) { h.both(0, false); h.log(0, 2); h.stop(); } threads_again(); if (!no_thread()) sx_fail("harness: no way to make a thread fail"); int r = -99; env().put("c.yaml", CFG[(size_t)c].t);
    try { r = file ? LoadAndStartLogger(*h.f.lg, "c.yaml") : ParseAndStartLogger(*h.f.lg, CFG[(size_t)c].t); } catch (...) { threads_again(); sx_fail("a start whose thread cannot be created throws"); } threads_again(); env().take_screen(); h.did(sx_fmt("start without a thread: %d", r)); sx_op(); if (r == 0) sx_fail("started without a thread"); h.idle(); h.cfg = c; /* the new configuration stays loaded */
    int next = sx_choose(4); if (next == 0) h.start(); if (next == 1) h.both(1, true); if (next == 2) h.both(0, false); if (h.running) { h.log(0, 2); if (sx_choose(2)) h.stop(); } h.fini();
}
// ---- the heap
SX_SUITE(heap, 60, 200, SX_LEAK) { H h; int n = sx_thorough() ? 4 : 3; static const std::vector<int> O = {0, 1, 2, 3, 4, 5, 6, 8, 9, 10, 12}; for (int i = 0; i < n; i++) op(h, sx_pick(O)); delete h.f.lg; h.f.lg = nullptr; env().take_screen(); h.check(); }
