// C21: UDP devices send and receive records unchanged
#include "fx.h"
#include <arpa/inet.h>
#include <algorithm>
static const int L = LogData::LOG_SIZE;
static std::string text(int n, int seed) { std::string s; for (int i = 0; i < n; i++) s += (char)('a' + (i * 7 + seed * 3) % 26); return s; }
static std::string plain(const std::string& s) { std::string o; for (size_t i = 0; i < s.size(); i++) { if (s[i] == '\x1b') { while (i < s.size() && s[i] != 'm') i++; } else o += s[i]; } return o; }
struct Addr { const char* conf; unsigned ip; unsigned short port; };
// ---- sending: every length, several addresses
SX_SUITE(send_lengths, 30, 60, 0) {
    static const std::vector<Addr> A = {{"127.0.0.1:9001", 0x7f000001, 9001}, {"10.200.3.255:1", 0x0ac803ff, 1}, {"255.255.255.255:65535", 0xffffffffu, 65535}, {"192.168.0.1:32768", 0xc0a80001, 32768}, {"1.2.3.4:256", 0x01020304, 256}};
    int n = sx_choose(L - 1), second = sx_choose(3); const Addr& a = A[(size_t)sx_choose((int)A.size())]; if (a.port != 9001 && n % 16) return;
    Fx f; f.start(std::string(" - channel: 0\n    sync: sync\n    -device: 0\n        disable: false\n        out_type: udp\n        udp_addr: ") + a.conf + "\n    -device: 1\n        disable: false\n        out_type: file\n        file: a\n");
    std::string t1 = text(n, 1), t2 = text(second == 0 ? 0 : second == 1 ? 1 : L - 2, 2); if (n > 3) { t1[1] = '\0'; t1[2] = '\xff'; t1[3] = '\n'; } f.log(0, 2, 0, 0, t1); f.log(0, 2, 0, 0, t2); sx_op(2);
    auto& s = env().sent; std::string w[2] = {t1 + "\n", t2 + "\n"}; if (s.size() != 2) sx_fail("two records, %zu datagrams", s.size());
    for (int i = 0; i < 2; i++) { if (s[i].data != w[i]) sx_fail("record of %zu bytes: datagram %s expected %s", w[i].size(), sx_esc(s[i].data, 700).c_str(), sx_esc(w[i], 700).c_str()); if (ntohl(s[i].ip) != a.ip || ntohs(s[i].port) != a.port) sx_fail("udp_addr %s: sent to %08x:%u", a.conf, ntohl(s[i].ip), ntohs(s[i].port)); }
    if (f.file("a.log") != w[0] + w[1]) sx_fail("the file device beside it has another text"); f.stop(); if (env().socks.size()) sx_fail("socket still open after stop");
}
// ---- sending: failures of socket/fcntl/sendto at every place of a short history, with time going by
SX_SUITE(send_failures, 60, 200, 0) {
    int n = sx_thorough() ? 6 : 5; Fx f; f.start(" - channel: 0\n    sync: sync\n    -device: 0\n        disable: false\n        out_type: udp\n        udp_addr: 127.0.0.1:9001\n    -device: 1\n        disable: false\n        out_type: file\n        file: a\n");
    int failed = 0; const char* which = nullptr; env().fault = [&](const char* op, const std::string&) { if (which && !strcmp(op, which)) { failed++; return 5; } return 0; };
    std::string all; std::vector<std::string> want; bool open = false; long long last_try = -100, t0 = env().now_us / 1000000;
    for (int i = 0; i < n; i++) {
        int fl = sx_choose(3), adv = sx_choose(3); static const int AD[] = {0, 2000, 3000}; env().advance_ms(AD[adv]); long long now = env().now_us / 1000000 - t0;
        which = fl == 0 ? nullptr : fl == 1 ? "sendto" : "socket"; std::string t = sx_fmt("r%d", i); f.log(0, 2, 0, 0, t); sx_op(); all += t + "\n";
        if (!open && now > last_try + 2) { last_try = now; if (fl != 2) open = true; }
        if (open && fl != 1) want.push_back(t + "\n");
        which = nullptr;
    }
    auto& s = env().sent; for (size_t i = 0; i < s.size() || i < want.size(); i++) if (i >= s.size() || i >= want.size() || s[i].data != want[i]) sx_fail("datagram %zu is %s expected %s", i, i < s.size() ? sx_esc(s[i].data).c_str() : "missing", i < want.size() ? sx_esc(want[i]).c_str() : "none");
    if (f.file("a.log") != all) sx_fail("the file device beside it lost something"); f.stop(); if (env().socks.size()) sx_fail("socket still open after stop");
}
// ---- receiving
static std::string in_cfg(const char* out, bool rec_dev) { return std::string(" - channel: 0\n    sync: sync\n    -device: 0\n        disable: false\n        in_type: udp\n        out_type: ") + out + "\n        udp_addr: 0.0.0.0:9500\n        file: in\n" + (rec_dev ? "    -device: 1\n        disable: false\n        out_type: file\n        file: b\n    -device: 2\n        disable: false\n        out_type: udp\n        udp_addr: 127.0.0.1:9001\n" : ""); }
static std::string clip(const std::string& d) { if ((int)d.size() < L) return d; std::string s = d.substr(0, (size_t)L - 1); s[(size_t)L - 2] = '\n'; return s; }
static void receive(const std::vector<std::vector<std::string>>& steps, const char* out) {
    Fx f; f.start(in_cfg(out, true)); f.log(0, 2, 0, 0, "open"); std::string in, own = "open\n"; long nrec = 0; long long bytes = 0; env().take_screen(); int k = 0;
    for (auto& st : steps) { for (auto& d : st) { env().feed(htons(9500), d); std::string c = clip(d); in += c; nrec++; bytes += (long long)c.size(); } std::string t = sx_fmt("own%d", k++); f.log(0, 2, 0, 0, t); own += t + "\n"; sx_op(1 + (long)st.size());
        if (!strcmp(out, "screen")) { std::string s = plain(env().take_screen()), w; for (auto& d : st) w += clip(d); if (s != w) sx_fail("received %s, the screen shows %s", sx_esc(w, 800).c_str(), sx_esc(s, 800).c_str()); } }
    if (f.file("b.log") != own || env().sent.size() != steps.size() + 1) sx_fail("the other devices are affected: %s", sx_esc(f.file("b.log")).c_str());
    if (f.dlog(0, 0, DEVICE_LOG_TOTAL_WRITE_LINE) != nrec || f.dlog(0, 0, DEVICE_LOG_TOTAL_WRITE_BYTE) != bytes) sx_fail("counters of the receiving device: %lld records %lld bytes, received %ld and %lld", f.dlog(0, 0, DEVICE_LOG_TOTAL_WRITE_LINE), f.dlog(0, 0, DEVICE_LOG_TOTAL_WRITE_BYTE), nrec, bytes);
    f.stop(); if (env().socks.size()) sx_fail("socket still open after stop"); if (!strcmp(out, "file") && f.file("in.log") != in) sx_fail("received %s, the file has %s", sx_esc(in, 900).c_str(), sx_esc(f.file("in.log"), 900).c_str());
}
static const std::vector<const char*> OUT = {"file", "screen", "empty"};
SX_SUITE(one_datagram, 30, 60, 0) { int n = 1 + sx_choose(L + 10); bool nl = sx_choose(2); const char* o = sx_pick(OUT); std::string d = text(n, 3); if (nl) d.back() = '\n'; receive({{d}}, o); }
SX_SUITE(two_datagrams, 30, 60, 0) { int a = 1 + sx_choose(L + 2), b = sx_pick(std::vector<int>{1, 2, 7, 100, L - 2, L - 1, L, L + 1}); bool together = sx_choose(2), sw = sx_choose(2); const char* o = sx_pick(OUT); if (!sx_thorough() && a % 7 && a < L - 20 && a > 20) return; std::string x = text(a, 1), y = text(b, 2); if (sw) std::swap(x, y); if (together) receive({{x, y}}, o); else receive({{x}, {y}}, o); }
SX_SUITE(three_datagrams, 60, 200, 0) { static const std::vector<int> N = {1, 2, 9, 50, L - 3, L - 2, L - 1, L, L + 1, 3000}; std::vector<std::vector<std::string>> st(1); for (int i = 0; i < (sx_thorough() ? 4 : 3); i++) { int n = sx_pick(N); std::string d = text(n, i); if (i && sx_choose(2)) st.emplace_back(); st.back().push_back(d); } receive(st, sx_pick(OUT)); }
SX_SUITE(bytes, 20, 20, 0) { int b = sx_choose(256); std::string d = "ab"; d[1] = (char)b; d += "cd\n"; receive({{d}, {"x"}}, sx_choose(2) ? "file" : "empty"); if (b && b != '\x1b') { env().reset(); receive({{d}, {"x"}}, "screen"); } }
SX_SUITE(backlog, 30, 60, 0) { int n = std::vector<int>{10, 999, 1000, 1001, 2500}[(size_t)sx_choose(5)]; std::vector<std::vector<std::string>> st(1); for (int i = 0; i < n; i++) st[0].push_back(sx_fmt("d%d\n", i));
    Fx f; f.start(in_cfg("file", true)); f.log(0, 2, 0, 0, "open"); std::string want; for (auto& d : st[0]) { env().feed(htons(9500), d); want += d; } for (int i = 0; i < 4; i++) f.log(0, 2, 0, 0, "tick"); sx_op(n); f.stop(); if (f.file("in.log") != want) sx_fail("%d datagrams waiting: %zu bytes of %zu are output", n, f.file("in.log").size(), want.size()); }
// ---- receiving: failures of socket, fcntl, bind, recvfrom, switching the device off and on, time going by
SX_SUITE(receive_failures, 60, 300, 0) {
    int n = sx_thorough() ? 6 : 5; Fx f; f.start(in_cfg("file", true).insert(0, "")); const char* which = nullptr; env().fault = [&](const char* op, const std::string&) { return which && !strcmp(op, which) ? 11 : 0; };
    std::string want, own; std::vector<std::string> queue; bool open = false, able = true; long long last_try = -100, t0 = env().now_us / 1000000; bool started = false;
    for (int i = 0; i < n; i++) {
        int what = sx_choose(7); which = nullptr; if (i && sx_choose(2)) env().advance_ms(3000); long long now = env().now_us / 1000000 - t0; std::string d = sx_fmt("d%d\n", i); bool fed = false;
        if (what == 1) which = "socket"; if (what == 2) which = "bind"; if (what == 3) which = "recvfrom"; if (what == 4) { able = !able; SetDeviceConfig(*f.lg, 0, 0, DEVICE_CFG_ABLE, able); } if (what == 6) which = "fcntl";
        if (what != 5) { for (auto& s : env().socks) fed |= s.second.bound; env().feed(htons(9500), d); } if (fed) queue.push_back(d);
        std::string t = sx_fmt("own%d", i); f.log(0, 2, 0, 0, t); own += t + "\n"; sx_op();
        if (!able) { open = false; queue.clear(); } else { if (!open && now > last_try + 2) { last_try = now; open = what != 1 && what != 2 && what != 6; } if (open && what != 3) { for (auto& q : queue) want += q; queue.clear(); } }
        size_t bound = 0, in = 0; for (auto& s : env().socks) { in++; bound += s.second.bound; } (void)started;
        if ((bound != 0) != open) sx_fail("step %d: the receiving socket is %s", i, open ? "not bound" : "bound"); if (in > 1 + (size_t)open) sx_fail("step %d: %zu sockets are open", i, in);
    }
    which = nullptr; if (f.file("b.log") != own) sx_fail("the file device beside it lost something: %s expected %s", sx_esc(f.file("b.log")).c_str(), sx_esc(own).c_str()); f.stop(); if (f.file("in.log") != want) sx_fail("received %s, the file has %s", sx_esc(want).c_str(), sx_esc(f.file("in.log")).c_str()); if (env().socks.size()) sx_fail("socket still open after stop");
}

// ---- several input devices, each on its own address and port: every datagram goes to the devices that listen on what it was sent to
SX_SUITE(addresses, 60, 120, 0) {
    static const std::vector<const char*> IP = {"127.0.0.1", "127.0.0.2", "0.0.0.0"}; static const int PORT[] = {9500, 9501, 37000}; int n = 2 + sx_choose(2), nch = n > 2 ? 2 : 1 + sx_choose(2); std::vector<std::pair<int, int>> a; std::string c;
    for (int i = 0; i < n; i++) a.emplace_back(sx_choose(3), sx_choose(3)); for (int i = 0; i < n; i++) for (int k = 0; k < i; k++) if (a[(size_t)i].second == a[(size_t)k].second && (a[(size_t)i].first == a[(size_t)k].first || a[(size_t)i].first == 2 || a[(size_t)k].first == 2)) return; // cannot both be bound
    for (int ch = 0; ch < nch; ch++) { c += sx_fmt(" - channel: %d\n    sync: sync\n", ch); int d = 0; for (int i = 0; i < n; i++) if (i % nch == ch) c += sx_fmt("    -device: %d\n        disable: false\n        in_type: udp\n        out_type: file\n        file: in%d\n        udp_addr: %s:%d\n", d++, i, IP[(size_t)a[(size_t)i].first], PORT[a[(size_t)i].second]); c += sx_fmt("    -device: %d\n        disable: false\n        out_type: empty\n", d); }
    Fx f; f.start(c); auto tick = [&]() { for (int ch = 0; ch < nch; ch++) f.log(ch, 2, 0, 0, "t"); }; tick(); std::vector<std::string> want((size_t)n); int k = 0;
    for (int r = 0; r < 2; r++) { for (int ip = 0; ip < 2; ip++) for (int p = 0; p < 3; p++) { std::string d = sx_fmt("d%d\n", k++); env().feed(htons((unsigned short)PORT[p]), d, inet_addr(IP[(size_t)ip])); for (int i = 0; i < n; i++) if (a[(size_t)i].second == p && (a[(size_t)i].first == ip || a[(size_t)i].first == 2)) want[(size_t)i] += d; } tick(); sx_op(6); }
    f.stop(); for (int i = 0; i < n; i++) { std::string g = f.file(sx_fmt("in%d.log", i)); if (g != want[(size_t)i]) sx_fail("device %d listens on %s:%d and outputs %s, it was sent %s", i, IP[(size_t)a[(size_t)i].first], PORT[a[(size_t)i].second], sx_esc(g).c_str(), sx_esc(want[(size_t)i]).c_str()); }
}
