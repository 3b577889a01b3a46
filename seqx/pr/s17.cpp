// C17: oversized records are truncated safely and stay one line
#include "fx.h"
static const int L = LogData::LOG_SIZE;      // 640
// the same values appended to a record with plenty of room give the reference text
struct App { const char* name; void (*fn)(LogStream&); const char* lit; };
static std::string g_long(2000, 'L'), g_600(600, 'S'); static std::vector<int> g_vec{1, -20, 300, -4000, 50000, 6}; static std::map<int, std::string> g_map{{1, "one"}, {2, "two"}};
static char g_bin[100];
static const std::vector<App>& apps() {
    static std::vector<App> v = {
        {"char", [](LogStream& s) { s << 'c'; }}, {"bool", [](LogStream& s) { s << false; }}, {"int", [](LogStream& s) { s << -1234567; }}, {"llmin", [](LogStream& s) { s << (long long)(-9223372036854775807LL - 1); }},
        {"ullmax", [](LogStream& s) { s << 18446744073709551615ULL; }}, {"uchar", [](LogStream& s) { s << (unsigned char)255; }}, {"short", [](LogStream& s) { s << (short)-32768; }},
        {"double", [](LogStream& s) { s << -1152921504606846975.9999; }}, {"tiny", [](LogStream& s) { s << -1.2345678901234567e-300; }}, {"huge", [](LogStream& s) { s << -1.7976931348623157e+308; }}, {"small", [](LogStream& s) { s << -0.00001234; }}, {"float", [](LogStream& s) { s << 3.25f; }}, {"nan", [](LogStream& s) { s << __builtin_nan(""); }}, {"inf", [](LogStream& s) { s << -__builtin_inf(); }},
        {"pointer", [](LogStream& s) { s << (void*)0xFFFFFFFFFFFFFFFFULL; }}, {"null pointer", [](LogStream& s) { s << nullptr; }}, {"null string", [](LogStream& s) { s << (const char*)nullptr; }}, {"empty string", [](LogStream& s) { s << ""; }},
        {"str5", [](LogStream& s) { s << "abcde"; }}, {"str37", [](LogStream& s) { s << "0123456789abcdefghijABCDEFGHIJ!@#$%^&"; }}, {"str600", [](LogStream& s) { s << g_600; }}, {"str2000", [](LogStream& s) { s << g_long; }}, {"cstr2000", [](LogStream& s) { s << g_long.c_str(); }},
        {"vector", [](LogStream& s) { s << g_vec; }}, {"map", [](LogStream& s) { s << g_map; }}, {"pair", [](LogStream& s) { s << std::make_pair(std::string("p"), 77); }},
        {"bin0", [](LogStream& s) { s.write_binary(g_bin, 0); }}, {"bin33", [](LogStream& s) { s.write_binary(g_bin, 33); }}, {"bin100", [](LogStream& s) { s.write_binary(g_bin, 100); }},
        {"timestamp", [](LogStream& s) { s << LogTimestamp(1560000000LL, 5); }}, {"percent", [](LogStream& s) { s << LogPercent{0.123456}; }}, {"align", [](LogStream& s) { s << LogBlankAlign<300>(); }}, {"align639", [](LogStream& s) { s << LogBlankAlign<639>(); }},
        {"wide", [](LogStream& s) { s.write_number<20>(-5); }}, {"write_buffer 0", [](LogStream& s) { s.write_buffer("zz", 0); }}, {"write_buffer -1", [](LogStream& s) { s.write_buffer("zz", -1); }}, {"write_buffer null", [](LogStream& s) { s.write_buffer(nullptr, 5); }},
    };
    return v;
}
static std::string g_ref_text(size_t a) {       // what the value looks like where there is room for it (after an 'x', so that alignment pads)
    static std::vector<std::string> c(100); static bool have[100];
    if (!have[a]) {
        static LogData* big = nullptr; (void)big;
        Fx f; f.start(one_file()); { LogStream s(*f.lg, 0, 2, 0, 0, "", 0, 0, "", 0, 0); apps()[a].fn(s); c[a] = std::string(s.log_data_->content_, (size_t)s.log_data_->content_len_); }
        have[a] = true;
    }
    return c[a];
}
struct Snap {      // every byte of the queue outside the record in use, and of its neighbours on both sides
    std::string ring; Logger* lg; int slot;
    Snap(Logger* l) : lg(l), slot(-1) { RingBuffer& r = l->shm_->ring_buffers_[0]; for (int i = 0; i < RingBuffer::BUFFER_LEN; i++) { memset(r.buffer_[i].content_, 0xA5, L); } memset(r.udp_buffer_.content_, 0xA5, L); memset(r.chunk_6_, 0xA5, sizeof r.chunk_6_); }
    void take(const LogData* ld) { RingBuffer& r = lg->shm_->ring_buffers_[0]; slot = (int)(ld - r.buffer_); ring = image(); }
    std::string image() {
        RingBuffer& r = lg->shm_->ring_buffers_[0]; std::string o;
        for (int i = 0; i < RingBuffer::BUFFER_LEN; i++) if (i != slot) { const LogData& d = r.buffer_[i]; o.append((const char*)&d, sizeof d); }
        o.append(r.chunk_6_, sizeof r.chunk_6_); o.append((const char*)&r.udp_buffer_, sizeof r.udp_buffer_); o.append((const char*)lg->shm_->channels_.data() + 0, 8); return o;
    }
    void check(const char* when) { if (image() != ring) sx_fail("memory outside the record changed (%s)", when); }
};
static void judge(Fx& f, const std::string& want, bool room, const std::string& what) {
    std::string got = f.file("a.log");
    std::vector<std::string> g = lines(got);
    if (got.size() < 4 || got.compare(0, 4, "pre\n") || got.compare(got.size() - 5, 5, "post\n")) sx_fail("%s: the records around it are changed: %s", what.c_str(), sx_esc(got, 900).c_str());
    std::string r = got.substr(4, got.size() - 9);
    if ((int)r.size() > L) sx_fail("%s: output of %zu bytes, the maximum record size is %d", what.c_str(), r.size(), L);
    if (r.empty() || r.back() != '\n') sx_fail("%s: the output does not end with a newline: %s", what.c_str(), sx_esc(r, 900).c_str());
    std::string body = r.substr(0, r.size() - 1); if (body.find('\n') != std::string::npos && want.find('\n') == std::string::npos) sx_fail("%s: more than one line: %s", what.c_str(), sx_esc(r, 900).c_str());
    if (body.find('\0') != std::string::npos) sx_fail("%s: a NUL byte in the output", what.c_str());
    // what fits is kept, in order: all of it where there is room, otherwise all but the end, lost within the last 40 bytes
    if (room) { if (body != want) sx_fail("%s: \"%s\" expected \"%s\"", what.c_str(), sx_esc(body, 900).c_str(), sx_esc(want, 900).c_str()); return; }
    size_t k = 0; while (k < body.size() && k < want.size() && body[k] == want[k]) k++;
    if (k < (size_t)L - 42 && !(k == want.size() && k == body.size())) sx_fail("%s: kept only %zu bytes of \"%s\": \"%s\"", what.c_str(), k, sx_esc(want, 700).c_str(), sx_esc(body, 900).c_str());
}
static void run(int fill, int pieces, const std::vector<size_t>& as) {
    std::string want, what = sx_fmt("%d bytes", fill); bool dyn = false; for (size_t a : as) { what += std::string(" + ") + apps()[a].name; }
    std::vector<std::string> refs; for (size_t a : as) refs.push_back(g_ref_text(a));
    env().reset(); Fx f; f.start(one_file()); f.log(0, 2, 0, 0, "pre"); Snap sn(f.lg);
    std::string fs; for (int i = 0; i < fill; i++) fs += (char)('a' + i % 26);
    bool room = true; want = fs;
    {
        LogStream s(*f.lg, 0, 2, 0, 0, "", 0, 0, "", 0, 0); if (!s.log_data_) sx_fail("no record"); sn.take(s.log_data_);
        for (int p = 0; p < pieces; p++) { int b = fill * p / pieces, e = fill * (p + 1) / pieces; s.write_buffer(fs.data() + b, e - b); }
        for (size_t i = 0; i < as.size(); i++) {
            std::string t = refs[i];
            if (!strncmp(apps()[as[i]].name, "align", 5)) { int col = atoi(apps()[as[i]].name + 5); if (!col) col = 300; t.clear(); if ((int)want.size() + col < L) t.assign((int)want.size() < col ? (size_t)col - want.size() : 0, ' '); }
            apps()[as[i]].fn(s); want += t; dyn = true;
            if ((int)s.log_data_->content_len_ > L) sx_fail("%s: the record is %d bytes long, its place %d", what.c_str(), s.log_data_->content_len_, L);
        }
        room = (int)want.size() <= L - 42;
        sn.check(what.c_str());
    }
    (void)dyn; sn.slot = sn.slot; { std::string im = sn.image(); (void)im; }
    f.log(0, 2, 0, 0, "post"); judge(f, want, room, what); f.stop(); sx_op((long)as.size() + 2);
}
SX_SUITE(fill_then_value, 120, 600, 0) { int fill = sx_choose(701); int pc = sx_choose(3); size_t a = (size_t)sx_choose((int)apps().size()); run(fill, pc == 0 ? 1 : pc == 1 ? 2 : 7, {a}); }
SX_SUITE(fill_then_two_values, 200, 900, 0) {
    int fill = sx_thorough() ? sx_choose(660) : 540 + sx_choose(110); size_t a = (size_t)sx_choose((int)apps().size()), b = (size_t)sx_choose((int)apps().size()); run(fill, 1, {a, b}); }
SX_SUITE(three_values, 200, 2400, SX_THOROUGH) {
    int fill = 560 + sx_choose(85); size_t a = (size_t)sx_choose((int)apps().size()), b = (size_t)sx_choose((int)apps().size()), c = (size_t)sx_choose((int)apps().size()); run(fill, 1, {a, b, c}); }
SX_SUITE(values_only, 100, 900, 0) {         // sequences of values from an empty record, no filler
    int n = 1 + sx_choose(3); std::vector<size_t> v; for (int i = 0; i < n; i++) v.push_back((size_t)sx_choose((int)apps().size())); run(0, 1, v); }
// every slot of the queue, the last one borders on other memory
SX_SUITE(every_slot, 60, 300, 0) {
    int slot = sx_choose(RingBuffer::BUFFER_LEN), fill = 595 + sx_choose(60); size_t a = (size_t)sx_choose((int)apps().size()); std::string ref = g_ref_text(a);
    env().reset(); Fx f; f.start(one_file()); for (int i = 0; i < slot; i++) f.log(0, 2, 0, 0, "x");
    Snap sn(f.lg); { LogStream s(*f.lg, 0, 2, 0, 0, "", 0, 0, "", 0, 0); sn.take(s.log_data_); if (sn.slot != slot) sx_fail("slot %d expected %d", sn.slot, slot); std::string fs((size_t)fill, 'f'); s << fs; apps()[a].fn(s); apps()[a].fn(s); sn.check("every slot"); }
    f.log(0, 2, 0, 0, "y"); sx_op(slot + 4); std::string got = f.file("a.log"); if (got.compare(got.size() - 3, 3, "\ny\n")) sx_fail("the record after is changed: %s", sx_esc(got.substr(got.size() - 20)).c_str());
}
// printf style and prefixes: all argument lengths around the record size
static std::string g_fn;
SX_SUITE(printf_style, 100, 600, 0) {
    int len = sx_choose(760), two = sx_choose(3); int r = ParseAndStartLogger(GetDefaultLogger(), one_file()); if (r) sx_fail("start %d", r);
    std::string a; for (int i = 0; i < len; i++) a += (char)('a' + i % 26);
    LOGFMTI("%s", "pre"); Snap sn(&GetDefaultLogger());
    if (two == 0) LOGFMTI("%s", a.c_str()); else if (two == 1) LOGFMTI("%s%d", a.c_str(), 12345); else LOG_FORMAT(0, PRIORITY_INFO, 0, 0, LOG_PREFIX_NULL, "%s", a.c_str());
    LOGFMTI("%s", "post"); std::string got; env().get("a.log", got); std::vector<std::string> g = lines(got); sx_op(3);
    if (g.size() != 3) sx_fail("%zu lines for three records", g.size());
    std::string w = a + (two == 1 ? "12345" : ""), l = g[1]; if (two != 2) { size_t p = l.find(") "); if (p == std::string::npos) sx_fail("no prefix: %s", sx_esc(l).c_str()); l = l.substr(p + 2); }
    if ((int)g[1].size() + 1 > L) sx_fail("output of %zu bytes", g[1].size() + 1);
    int pre = (int)(g[1].size() - l.size());
    if (l != w.substr(0, l.size())) sx_fail("not the text: %s", sx_esc(l, 900).c_str());
    if (l.size() < w.size() && pre + (int)l.size() < L - 42) sx_fail("cut at %d", pre + (int)l.size());
    if (g[2].compare(g[2].size() - 4, 4, "post") || g[0].compare(g[0].size() - 3, 3, "pre")) sx_fail("neighbour changed");
    RingBuffer& rb = GetDefaultLogger().shm_->ring_buffers_[0]; for (int i = 3; i < RingBuffer::BUFFER_LEN; i++) for (int k = 0; k < L; k++) if ((unsigned char)rb.buffer_[(i + (rb.hold_idx_ - 3) + 64) % 16].content_[k] != 0xA5) { sx_fail("memory of another record written"); }
    StopLogger(GetDefaultLogger());
}
// records that come back from a hook or were cut by shared memory recovery keep the same limits: transmitted records
static Logger* g_lg; static void hook(const LogData& l) { TransmitChannel(*g_lg, 1, 0, 0, l); }
SX_SUITE(transmitted, 60, 300, 0) {
    int fill = 560 + sx_choose(140); size_t a = (size_t)sx_choose((int)apps().size()); std::string cfg = one_file("    -device: 1\n        out_type: virtual\n - channel: 1\n    sync: sync\n    -device: 0\n        out_type: file\n        file: b\n");
    Fx f; f.start(cfg + ""); SetDeviceConfig(*f.lg, 0, 0, DEVICE_CFG_ABLE, 1); SetDeviceConfig(*f.lg, 0, 1, DEVICE_CFG_ABLE, 1); SetDeviceConfig(*f.lg, 1, 0, DEVICE_CFG_ABLE, 1); g_lg = f.lg; SetVirtualDevice(hook);
    { LogStream s(*f.lg, 0, 2, 0, 0, "", 0, 0, "", 0, 0); std::string fs((size_t)fill, 'f'); s << fs; apps()[a].fn(s); }
    SetVirtualDevice(nullptr); std::string x = f.file("a.log"), y = f.file("b.log"); sx_op(2);
    if (x != y) sx_fail("forwarded text differs: %zu bytes, %zu bytes: %s / %s", x.size(), y.size(), sx_esc(x, 900).c_str(), sx_esc(y, 900).c_str());
    if ((int)y.size() > L || y.empty() || y.back() != '\n') sx_fail("forwarded record of %zu bytes", y.size());
}
// everything can be appended to a record that was refused, and to one that was moved
SX_SUITE(refused, 40, 200, 0) {
    int how = sx_choose(7); size_t a = (size_t)sx_choose((int)apps().size()), b = (size_t)sx_choose((int)apps().size()); Fx f; int ch = 0, prio = PRIORITY_INFO;
    if (how != 0) f.start(one_file("        priority: debug\n")); if (how == 1) prio = PRIORITY_TRACE; if (how == 2) f.stop(); if (how == 3) SetDeviceConfig(*f.lg, 0, 0, DEVICE_CFG_ABLE, 0); if (how == 4) ch = -1; if (how == 5) ch = 1; if (how == 6) SetChannelConfig(*f.lg, 0, CHANNEL_CFG_PRIORITY, PRIORITY_FATAL);
    for (unsigned prefix : {0u, (unsigned)LOG_PREFIX_DEFAULT}) { LogStream s(*f.lg, ch, prio, 0, 0, "file", 4, 1, "func", 4, prefix); if (s.log_data_) sx_fail("record is not refused (%d)", how); apps()[a].fn(s); LogStream t(std::move(s)); apps()[b].fn(t); apps()[a].fn(s); t.self().set_category(3); }
    if (how && how != 2) f.stop(); if (f.file("a.log").size()) sx_fail("refused record is output: %s", sx_esc(f.file("a.log")).c_str()); sx_op(2);
}
SX_SUITE(moved, 40, 200, 0) {
    size_t a = (size_t)sx_choose((int)apps().size()), b = (size_t)sx_choose((int)apps().size()); std::string ra = g_ref_text(a), rb = g_ref_text(b); if (!strncmp(apps()[b].name, "align", 5)) return; env().reset(); Fx f; f.start(one_file()); f.log(0, 2, 0, 0, "pre");
    { LogStream s(*f.lg, 0, 2, 0, 0, "", 0, 0, "", 0, 0); apps()[a].fn(s); LogStream t(std::move(s)); apps()[b].fn(s); LogStream u(std::move(t)); apps()[b].fn(u); }
    f.log(0, 2, 0, 0, "post"); judge(f, ra + rb, (int)(ra.size() + rb.size()) <= L - 42, std::string("moved ") + apps()[a].name + " + " + apps()[b].name); f.stop(); sx_op(4);
}
