// C03: every record comes out as exactly what was appended: whatever its place in the queue held before, and however its
// composition is interleaved with that of others
// DEFS: -DFN_LOG_MAX_LOG_QUEUE_SIZE=11 -DFN_LOG_MAX_DEVICE_SIZE=5
#include "fx.h"
static std::string plain(const std::string& s) { std::string o; for (size_t i = 0; i < s.size(); i++) { if (s[i] == '\x1b') { while (i < s.size() && s[i] != 'm') i++; } else o += s[i]; } return o; }
static std::string conf(const char* sync) { return std::string(" - channel: 0\n    sync: ") + sync + "\n    -device: 0\n        disable: false\n        out_type: file\n        file: a\n    -device: 1\n        disable: false\n        out_type: screen\n    -device: 2\n        disable: false\n        out_type: udp\n        udp_addr: 127.0.0.1:9001\n    -device: 3\n        disable: false\n        out_type: virtual\n"; }
static std::vector<std::string> g_hook; static bool g_term;
static void hook(const LogData& l) { g_hook.push_back(std::string(l.content_, (size_t)l.content_len_)); if (l.content_[l.content_len_]) g_term = false; }
struct W {
    Fx f; std::vector<std::string> want, hooked; bool async;
    W(const char* sync) : async(strcmp(sync, "sync") != 0) { g_hook.clear(); g_term = true; SetVirtualDevice(hook); f.start(conf(sync)); }
    ~W() { SetVirtualDevice(NULL); }
    void done() {
        f.stop(); std::string all; for (auto& w : want) all += w + "\n"; std::string got = f.file("a.log"), sc = plain(env().take_screen());
        if (got != all) sx_fail("file: %s expected %s", sx_esc(got, 1500).c_str(), sx_esc(all, 1500).c_str()); if (sc != all) sx_fail("screen: %s expected %s", sx_esc(sc, 1500).c_str(), sx_esc(all, 1500).c_str());
        if (env().sent.size() != want.size()) sx_fail("%zu datagrams for %zu records", env().sent.size(), want.size()); for (size_t i = 0; i < want.size(); i++) if (env().sent[i].data != want[i] + "\n") sx_fail("datagram %zu: %s expected %s", i, sx_esc(env().sent[i].data).c_str(), sx_esc(want[i]).c_str());
        if (!g_term || g_hook != hooked) sx_fail("the hook saw something else");
    }
};
static std::string text(int n, int k) { std::string s((size_t)n, (char)('a' + k % 26)); if (n > 3) { std::string h = std::to_string(k) + ":"; s.replace(0, std::min(h.size(), (size_t)n), h.substr(0, (size_t)n)); } return s; }
static std::string cut(const std::string& s) { return s.substr(0, (size_t)std::min((int)s.size(), LogData::LOG_SIZE - 2)); }
static const std::vector<int> LEN = {0, 1, 2, 9, 100, 590, LogData::LOG_SIZE - 42, LogData::LOG_SIZE - 41, LogData::LOG_SIZE - 3, LogData::LOG_SIZE - 2, LogData::LOG_SIZE - 1, LogData::LOG_SIZE, 900};
// whole rounds of the queue: length after length in every place
SX_SUITE(slot_reuse, 60, 200, 0) {
    int a = sx_pick(LEN), b = sx_pick(LEN), c = sx_pick(LEN), turn = sx_choose(12), prio = sx_choose(2) ? 0 : 2; W w(sx_choose(2) ? "sync" : "null"); int k = 0;
    auto go = [&](int n, int times) { for (int i = 0; i < times; i++) { std::string t = text(n, k++); w.f.log(0, prio, 0, 0, t); w.want.push_back(cut(t)); w.hooked.push_back(cut(t)); sx_op(); } }; go(a, turn); go(b, 11); go(c, 3); go(a, 1); go(b, 10); w.done();
}
// every order in which the compositions of three records can overlap
SX_SUITE(overlapping, 60, 300, 0) {
    W w(sx_choose(2) ? "sync" : "null"); int pre = sx_choose(3) * 5; for (int i = 0; i < pre; i++) { std::string t = text(300, i); w.f.log(0, 2, 0, 0, t); w.want.push_back(t); w.hooked.push_back(t); }
    const int N = sx_thorough() ? 4 : 3; std::unique_ptr<LogStream> s[4]; int step[4] = {}; std::string t[4]; int place[4]; int begun = 0, left = N * 4; size_t base = w.want.size();
    while (left) { int live[4], nl = 0; bool fresh = false; for (int i = 0; i < N; i++) { if (step[i] == 4) continue; if (step[i] == 0) { if (fresh) continue; fresh = true; } live[nl++] = i; }   // records that have not begun are alike
        int r = live[sx_choose(nl)]; left--; sx_op();
        switch (step[r]++) { case 0: s[r].reset(new LogStream(*w.f.lg, 0, 2, 0, 0, "", 0, 0, "", 0, LOG_PREFIX_NULL)); if (!s[r]->log_data_) sx_fail("refused"); place[r] = begun++; w.want.push_back(""); break;
        case 1: *s[r] << "r" << r; t[r] += "r" + std::to_string(r); break; case 2: { std::string x((size_t)(1 + r * 150), (char)('A' + r)); *s[r] << x << -r * 1000; t[r] += x + std::to_string(-r * 1000); } break;
        case 3: s[r].reset(); w.want[base + (size_t)place[r]] = t[r]; w.hooked.push_back(t[r]); break; } }
    w.done();
}
// all values of a byte, each alone and in the middle (the screen is a C string: not 0, not escape)
SX_SUITE(bytes, 20, 20, 0) { int b = sx_choose(256), shape = sx_choose(4); if (b == 0 || b == 27) return; W w(sx_choose(2) ? "sync" : "null"); std::string t; if (shape & 1) t += "ab"; t += (char)b; if (shape & 2) t += "cd"; w.f.log(0, 2, 0, 0, "before"); w.f.log(0, 2, 0, 0, t); w.f.log(0, 2, 0, 0, "after"); w.want = w.hooked = {"before", t, "after"}; sx_op(3); w.done(); }
