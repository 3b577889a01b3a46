// DEFS: -DFN_LOG_MAX_CHANNEL_SIZE=3
#include "common.h"
// Two threads load configuration texts at the same time, each for its own logger: each text means what it means alone.
static const char* const TX[] = {
    " - hot_update: true\n - logger_name: first\n - logger_desc: d1\n - channel: 0\n    sync: sync\n    priority: warn\n    category: 3\n    category_extend: 4\n    -device: 0\n        disable: false\n        out_type: udp\n        udp_addr: 127.0.0.1:9001\n        category_wlist: 1,2,5\n",
    " - define: P error\n - define: N name_x\n - channel: 0\n    sync: null\n    priority: $P\n    -device: 0\n        disable: false\n        out_type: file\n        file: $N\n        path: ./p\n        rollback: 3\n        limit_size: 7 m\n        rolldaily: true\n - channel: 1\n    sync: sync\n    identify_mask: 12\n    -device: 0\n        disable: false\n        out_type: screen\n",
    "# comment\n - var: A=1,B=22\n - channel: 0\n    -device: 0\n        disable: false\n        out_type: udp\n        udp_addr: 10.0.0.2:65535\n    -device: 1\n        disable: true\n        in_type: udp\n        udp_addr: 127.0.0.1:77\n        out_type: empty\n - channel: 1\n    category_blist: 7\n - channel: 2\n    identify: 1000\n    identify_extend: 9\n    -device: 0\n        disable: false\n        out_type: screen\n        stuff_up: true\n",
    " - channel: 0\n    priority: fatal\n    -device: 0\n        bad key\n",
    " - channel: 5\n", "",
};
static const int NT = sizeof TX / sizeof *TX;
struct Res { int ret; unsigned long long d; };
static Res g_want[NT], g_got[2]; static int g_t[2];
MC_NI static unsigned long long dig(const void* p, size_t n, unsigned long long h) { const unsigned char* b = (const unsigned char*)p; for (size_t i = 0; i < n; i++) h = (h ^ b[i]) * 1099511628211ull; return h; }
MC_NI static unsigned long long digest(SHMLogger& l, Logger& g) {
    unsigned long long h = 14695981039346656037ull; h = dig(&l.channel_size_, sizeof l.channel_size_, h); h = dig(&g.hot_update_, sizeof g.hot_update_, h); h = dig(g.name_, strlen(g.name_), h); h = dig(g.desc_, strlen(g.desc_), h);
    for (int c = 0; c < l.channel_size_ && c < Logger::MAX_CHANNEL_SIZE; c++) { Channel& x = l.channels_[c]; h = dig(&x.channel_type_, sizeof x.channel_type_, h); h = dig(&x.channel_id_, sizeof x.channel_id_, h); h = dig(&x.config_fields_, sizeof x.config_fields_, h); h = dig(&x.device_size_, sizeof x.device_size_, h);
        for (int d = 0; d < x.device_size_; d++) { Device& y = x.devices_[d]; h = dig(&y.device_id_, sizeof y.device_id_, h); h = dig(&y.in_type_, sizeof y.in_type_, h); h = dig(&y.out_type_, sizeof y.out_type_, h); h = dig(y.out_file_, strlen(y.out_file_), h); h = dig(y.out_path_, strlen(y.out_path_), h); h = dig(&y.config_fields_, sizeof y.config_fields_, h); } }
    return h;
}
static Res load(Logger& l, int t) { Res r; r.ret = InitFromYMAL(l, TX[t], ""); r.d = r.ret == 0 ? digest(*l.shm_, l) : 0; return r; }
static Logger* g_l[2];
static void thr(void* a) { int i = (int)(long)a; g_got[i] = load(*g_l[i], g_t[i]); mc_point(); }
static void s_two() {
    g_t[0] = mc_choose(NT, "text of thread 1"); g_t[1] = mc_choose(NT, "text of thread 2"); mc_atomic_begin(); for (int i = 0; i < 2; i++) { Logger* x = new_logger(); g_want[g_t[i]] = load(*x, g_t[i]); delete x; g_l[i] = new_logger(); } mc_atomic_end();
    int a = mc_spawn(thr, (void*)0), b = mc_spawn(thr, (void*)1); mc_join(a); mc_join(b);
    for (int i = 0; i < 2; i++) { if (g_got[i].ret != g_want[g_t[i]].ret) mc_fail("code", "text %d loaded while text %d is loaded gives %d, alone %d", g_t[i], g_t[1 - i], g_got[i].ret, g_want[g_t[i]].ret); if (g_got[i].d != g_want[g_t[i]].d) mc_fail("meaning", "text %d means something else while text %d is loaded", g_t[i], g_t[1 - i]); }
    mc_atomic_begin(); delete g_l[0]; delete g_l[1]; mc_atomic_end(); mc_outcome((unsigned)(g_t[0] * 8 + g_t[1]));
}
// whole loggers: start, log, stop, each in its own thread
struct Own { Logger* l; const char* cfg; int port, rec; }; static Own g_own[2];
static const char* const OWN[] = {" - channel: 0\n    sync: sync\n    -device: 0\n        disable: false\n        out_type: udp\n        udp_addr: 127.0.0.1:9001\n", " - channel: 0\n    sync: null\n    priority: info\n    -device: 0\n        disable: false\n        out_type: udp\n        udp_addr: 127.0.0.1:9002\n"};
static void own(void* a) {
    Own* o = (Own*)a; int r = ParseAndStartLogger(*o->l, o->cfg); if (r) mc_fail("code", "start returned %d", r); char b[48]; rec_text(o->rec, b); h_begin(o->rec); PUT(*o->l, 0, PRIORITY_INFO, 0, 0, b); h_end(o->rec); r = StopLogger(*o->l); if (r) mc_fail("code", "stop returned %d", r);
}
static void s_own() {
    mc_atomic_begin(); for (int i = 0; i < 2; i++) { g_own[i].l = new_logger(); g_own[i].cfg = OWN[i]; g_own[i].port = 9001 + i; g_own[i].rec = i; } mc_atomic_end(); L = g_own[0].l;
    int a = mc_spawn(own, &g_own[0]), b = mc_spawn(own, &g_own[1]); mc_join(a); mc_join(b); check_sink("first logger", 9001, 1, CHK_ORDER); check_sink("second logger", 9002, 2, CHK_ORDER);
    mc_atomic_begin(); for (int i = 0; i < 2; i++) delete g_own[i].l; if (mc_open_handles()) mc_fail("leak", "%d files or sockets still open", mc_open_handles()); mc_atomic_end();
}
static const McScenario SCN[] = {
    {"two", s_two, 0, 255, 2, 0, 0, 0, 60, "two texts of six loaded at the same time"},
    {"loggers", s_own, 0, 3, 1, 0, 0, 0, 60, "two threads start, use and stop a logger each"},
    {"loggers_deep", s_own, 0, 8, 2, 0, 0, 1, 300, "two threads start, use and stop a logger each"},
};
int main(int c, char** v) { return mc_run(c, v, "C10", SCN, sizeof SCN / sizeof *SCN); }
