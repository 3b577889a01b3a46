// C16: every loggable value is rendered as its standard text
// DEFS: -DFN_LOG_MAX_LOG_SIZE=2000
#include "fx.h"
#include <math.h>
#include <float.h>
#include <limits.h>
struct Out {        // one record per value, read back from the file device
    Fx f; std::vector<std::string> want; size_t n = 0;
    Out() { f.start(one_file()); }
    template<class T> void val(const T& v, const std::string& w) {
        { LogStream s(*f.lg, 0, PRIORITY_INFO, 0, 0, "", 0, 0, "", 0, LOG_PREFIX_NULL); s << v; }
        want.push_back(w); n++; if (want.size() >= 300) check();
    }
    void check() {
        std::string got = f.file("a.log"), exp; for (auto& w : want) { exp += w; exp += '\n'; }
        if (got != exp) {
            std::vector<std::string> g = lines(got); if (g.size() == want.size()) for (size_t i = 0; i < g.size(); i++) if (g[i] != want[i]) sx_fail("value rendered as \"%s\", its text is \"%s\"", sx_esc(g[i]).c_str(), sx_esc(want[i]).c_str());
            sx_fail("output \"%s\" expected \"%s\"", sx_esc(got, 1200).c_str(), sx_esc(exp, 1200).c_str());
        }
        sx_op((long)want.size()); want.clear(); { std::lock_guard<std::recursive_mutex> g(env().m); env().fs["a.log"]->data.clear(); }
    }
    ~Out() { check(); }
};
template<class T> static std::string dec(T v) { return std::to_string(v); }
static const std::vector<unsigned long long>& mags() {
    static std::vector<unsigned long long> v;
    if (v.empty()) {
        for (int b = 0; b < 64; b++) for (int d = -4; d <= 4; d++) v.push_back((1ULL << b) + (unsigned long long)(long long)d);
        unsigned long long p = 1; for (int k = 0; k < 20; k++) { for (int d = -4; d <= 4; d++) v.push_back(p + (unsigned long long)(long long)d); for (unsigned long long m = 1; m <= 1000; m++) if (p <= ULLONG_MAX / m) { v.push_back(p * m); v.push_back(p * m - 1); } if (k < 19) p *= 10; }
        for (int len = 1; len <= 19; len++) for (int d = 1; d <= 9; d++) { unsigned long long x = 0; for (int i = 0; i < len; i++) x = x * 10 + (unsigned)d; v.push_back(x); }
        // every pair of digits at every position, among zeros and among nines
        p = 1; for (int pos = 0; pos < 18; pos++) { for (unsigned a = 0; a < 100; a++) { v.push_back(1000000000000000000ULL + a * p); unsigned long long n9 = 9999999999999999999ULL - (99 - a) * p; v.push_back(n9); } p *= 10; }
        for (int b = 0; b < 64; b++) for (int c = 0; c < b; c++) { v.push_back((1ULL << b) | (1ULL << c)); v.push_back((1ULL << b) - (1ULL << c)); }
        v.push_back(0); v.push_back(ULLONG_MAX); v.push_back(LLONG_MAX); v.push_back((unsigned long long)LLONG_MIN); v.push_back((unsigned long long)LLONG_MIN + 1);
        v.push_back(INT_MAX); v.push_back(UINT_MAX);
    }
    return v;
}
SX_SUITE(small_integers, 60, 600, 0) {
    int what = sx_choose(4), hi = sx_choose(64); Out o;
    for (int lo = 0; lo < 1024; lo++) { int v = hi * 1024 + lo;
        switch (what) {
        case 0: o.val((short)(v - 32768), dec(v - 32768)); break;
        case 1: o.val((unsigned short)v, dec(v)); break;
        case 2: if (v < 256) { o.val((unsigned char)v, dec(v)); if (v != '\n') { o.val((char)v, std::string(1, (char)v)); } } else o.val(v - 40000, dec(v - 40000)); break;
        case 3: if (v < 2) o.val((bool)v, v ? "true" : "false"); else o.val((long long)v - 30000, dec((long long)v - 30000)); break;
        } }
}
SX_SUITE(wide_integers, 60, 600, 0) {
    auto& m = mags(); int what = sx_choose(6); size_t parts = 16, part = (size_t)sx_choose(16); Out o;
    for (size_t i = part; i < m.size(); i += parts) for (int neg = 0; neg < 2; neg++) { unsigned long long u = neg ? 0 - m[i] : m[i];
        switch (what) {
        case 0: o.val((int)(unsigned)u, dec((int)(unsigned)u)); break;
        case 1: o.val((unsigned)u, dec((unsigned)u)); break;
        case 2: o.val((long)u, dec((long)u)); break;
        case 3: o.val((unsigned long)u, dec((unsigned long)u)); break;
        case 4: o.val((long long)u, dec((long long)u)); break;
        case 5: o.val((unsigned long long)u, dec(u)); break;
        } }
}
SX_SUITE(padded_integers, 60, 600, 0) {        // write_number<Wide>, write_longlong<Wide>
    auto& m = mags(); size_t part = (size_t)sx_choose(16); Fx f; f.start(one_file());
    LogStream s(*f.lg, 0, PRIORITY_INFO, 0, 0, "", 0, 0, "", 0, LOG_PREFIX_NULL);
    auto pad = [](std::string t, size_t w) { bool neg = t[0] == '-'; std::string d = neg ? t.substr(1) : t; size_t need = neg ? w - 1 : w; while (d.size() < need && w) d = "0" + d; return (neg ? "-" : "") + d; };
    auto chk = [&](const std::string& w) { std::string g(s.log_data_->content_, (size_t)s.log_data_->content_len_); if (g != w) sx_fail("padded number rendered as \"%s\", its text is \"%s\"", g.c_str(), w.c_str()); s.log_data_->content_len_ = 0; sx_op(); };
    for (size_t i = part; i < m.size(); i += 16) { unsigned long long u = m[i]; long long l = (long long)u;
        s.write_number<2>(u); chk(pad(dec(u), 2)); s.write_number<4>(l); chk(pad(dec(l), 4)); s.write_number<7>((int)u); chk(pad(dec((int)u), 7)); s.write_number<3>((unsigned short)u); chk(pad(dec((unsigned short)u), 3));
        s.write_ulonglong<20>(u); chk(pad(dec(u), 20)); s.write_longlong<9>(-(l >> 1)); chk(pad(dec(-(l >> 1)), 9));
    }
}
SX_SUITE(pointers, 60, 600, 0) {
    auto& m = mags(); size_t part = (size_t)sx_choose(16); Out o;
    for (size_t i = part; i < m.size(); i += 16) { void* p = (void*)m[i]; std::string w = m[i] ? sx_fmt("0x%llX", m[i]) : "null"; o.val(p, w); o.val((const void*)p, w); o.val((int*)p, w); }
    for (unsigned long long k = 1; k < (1ULL << 60); k *= 3) o.val((void*)(k + part), sx_fmt("0x%llX", k + part));
    o.val(nullptr, "null"); o.val((const char*)nullptr, "null"); o.val((void*)nullptr, "null");
}
SX_SUITE(strings, 60, 600, 0) {
    int len = sx_choose(70); int kind = sx_choose(3); Out o;
    for (int c = 1; c < 256; c++) { if (c == '\n') continue; std::string t((size_t)len, (char)c); if (len > 2) t[(size_t)len / 2] = 'x';
        if (kind == 0) o.val(t, t); else if (kind == 1) o.val(t.c_str(), t); else { char b[100]; strcpy(b, t.c_str()); o.val((char*)b, t); } }
    if (kind == 0 && len > 3) { std::string t((size_t)len, 'q'); t[1] = 0; o.val(t, t); }
}
SX_SUITE(binary_dumps, 60, 600, 0) {
    int len = sx_choose(100), pat = sx_choose(7); static char buf[128]; static const int muls[] = {1, 37, 0, 255, 16, 5, 128};
    for (int i = 0; i < 128; i++) buf[i] = (char)(i * muls[pat] + pat * 31 + len);
    Fx f; f.start(one_file()); { LogStream s(*f.lg, 0, PRIORITY_INFO, 0, 0, "", 0, 0, "", 0, LOG_PREFIX_NULL); s.write_binary(buf, len); }
    std::string got = f.file("a.log"), w = "\r\n\t[";
    for (int i = 0; i < len / 32 + 1; i++) {
        std::string p = sx_fmt("0x%llX", (unsigned long long)(buf + i * 32)); w += "\r\n\t[" + p + ": ";
        for (int j = i * 32; j < i * 32 + 32 && j < len; j++) w += isprint((unsigned char)buf[j]) ? std::string(" ") + buf[j] + " " : " . ";
        w += "\r\n\t[" + p + ": "; for (int j = i * 32; j < i * 32 + 32 && j < len; j++) w += sx_fmt("%02X ", (unsigned char)buf[j]);
    }
    w += "\r\n\t]\r\n\t\n"; if (got != w) sx_fail("dump of %d bytes: \"%s\" expected \"%s\"", len, sx_esc(got, 1500).c_str(), sx_esc(w, 1500).c_str()); sx_op();
}
static void fcheck(double v, const char* t) {
    if (isnan(v)) { if (!strstr(t, "nan")) sx_fail("nan rendered as \"%s\"", t); return; }
    if (isinf(v)) { if (strcmp(t, v < 0 ? "-inf" : "inf")) sx_fail("%s rendered as \"%s\"", v < 0 ? "-inf" : "inf", t); return; }
    char* e; long double r = strtold(t, &e); double a = fabs(v); long double d = fabsl(r - v);
    bool ok = *e == 0 && *t != 0 && !strchr(t, 'n') && !strchr(t, 'x');
    if (ok) { if (a >= 0.0001 && a <= 1152921504606846975.0) ok = d <= 0.0001 + a * 1e-15; else if (a > 1) ok = d <= a * 1e-14; else if (a > 0.0000001) ok = d <= 6e-9; else ok = a < DBL_MIN ? d <= 0.0000001 : d <= a * 1e-14; }
    if (ok && r != 0 && (r < 0) != (v < 0)) ok = false;
    if (!ok) sx_fail("%.17g rendered as \"%s\"", v, t);
}
static void render_doubles(const std::vector<double>& v, bool as_float) {
    Fx f; f.start(one_file());
    for (size_t b = 0; b < v.size(); b += 300) {
        size_t e = std::min(v.size(), b + 300);
        for (size_t i = b; i < e; i++) { LogStream s(*f.lg, 0, PRIORITY_INFO, 0, 0, "", 0, 0, "", 0, LOG_PREFIX_NULL); if (as_float) s << (float)v[i]; else s << v[i]; }
        std::vector<std::string> g = lines(f.file("a.log")); if (g.size() != e - b) sx_fail("%zu lines for %zu numbers", g.size(), e - b);
        for (size_t i = b; i < e; i++) fcheck(v[i], g[i - b].c_str());
        sx_op((long)(e - b)); { std::lock_guard<std::recursive_mutex> q(env().m); env().fs["a.log"]->data.clear(); }
    }
}
SX_SUITE(doubles_by_exponent, 120, 1200, 0) {
    int ex = sx_choose(2048); std::vector<double> v; std::vector<uint64_t> ms;
    ms.push_back(0); ms.push_back((1ULL << 52) - 1);
    for (int b = 0; b < 52; b++) { ms.push_back(1ULL << b); ms.push_back(((1ULL << 52) - 1) ^ (1ULL << b)); ms.push_back((1ULL << b) - 1); }
    int top = sx_thorough() ? 12 : 8; for (uint64_t t = 0; t < (1ULL << top); t++) ms.push_back((t << (52 - top)) | 0x123456789ULL);
    for (uint64_t m : ms) for (int sg = 0; sg < 2; sg++) { uint64_t u = ((uint64_t)sg << 63) | ((uint64_t)ex << 52) | m; double d; memcpy(&d, &u, 8); v.push_back(d); }
    render_doubles(v, false);
}
SX_SUITE(doubles_decimal, 120, 900, 0) {       // round decimal numbers and their neighbours: every k/10^j
    int j = sx_choose(9), part = sx_choose(20); std::vector<double> v; double p = pow(10, j);
    for (long k = part * 1000; k < (part + 1) * 1000; k++) for (int sg = -1; sg <= 1; sg += 2) { double d = sg * (double)k / p; v.push_back(d); v.push_back(nextafter(d, 1e300)); v.push_back(nextafter(d, -1e300)); if (j < 4) v.push_back(sg * (double)k * p * 1e6); }
    render_doubles(v, false);
}
SX_SUITE(floats_by_exponent, 120, 1200, 0) {
    int ex = sx_choose(512); std::vector<double> v; int top = sx_thorough() ? 16 : 12;
    for (uint32_t t = 0; t < (1u << top); t++) for (uint32_t lo : {0u, 1u, (1u << (23 - top)) - 1}) { uint32_t u = ((uint32_t)ex << 23) | (t << (23 - top)) | lo; float fl; memcpy(&fl, &u, 4); v.push_back(fl); }
    render_doubles(v, true);
}
SX_SUITE(all_floats, 10, 3000, SX_THOROUGH) {   // every 32-bit float, through the stream operator
    uint32_t hi = (uint32_t)sx_choose(4096); Fx f; f.start(one_file());
    LogStream s(*f.lg, 0, PRIORITY_INFO, 0, 0, "", 0, 0, "", 0, LOG_PREFIX_NULL); if (!s.log_data_) sx_fail("no record");
    for (uint32_t lo = 0; lo < (1u << 20); lo++) { uint32_t u = (hi << 20) | lo; float v; memcpy(&v, &u, 4); s.log_data_->content_len_ = 0; s << v; s.log_data_->content_[s.log_data_->content_len_] = 0; fcheck(v, s.log_data_->content_); }
    sx_op(1 << 20); s.log_data_->content_len_ = 0;
}
template<class C, class F> static void cont(Out& o, const C& c, const char* name, F elem) {
    std::string w = sx_fmt("%s(%zu)[", name, (size_t)c.size()); int n = 0;
    for (auto& e : c) { if (n == 5) { w += "..., "; break; } if (n) w += ", "; w += elem(e); n++; }
    o.val(c, w + "]");
}
SX_SUITE(containers, 60, 600, 0) {
    int n = sx_choose(9), base = sx_pick<int>({0, -3, 1000000000}); Out o;
    std::vector<int> v; std::list<long long> l; std::deque<unsigned> d; std::map<int, std::string> m; std::set<short> st; std::unordered_map<int, int> um; std::unordered_set<std::string> us; std::vector<double> vd; std::vector<std::vector<int>> vv; std::vector<bool> vb; std::vector<char> vc; std::list<const char*> lc;
    for (int i = 0; i < n; i++) { v.push_back(base + i); l.push_back(base * 7LL - i); d.push_back((unsigned)(base + i)); m[base - i] = "s" + dec(i); st.insert((short)(base + i)); um[base + i] = i; us.insert("k" + dec(i)); vd.push_back(i + 0.5); vv.push_back(v); vc.push_back((char)('a' + i)); lc.push_back(i % 2 ? "lit" : nullptr); }
    auto num = [](long long x) { return dec(x); };
    cont(o, v, "vector:", num); cont(o, l, "list:", num); cont(o, d, "deque:", num); cont(o, st, "set:", num);
    cont(o, m, "map:", [](const std::pair<const int, std::string>& p) { return "<" + dec(p.first) + ":" + p.second + ">"; });
    cont(o, um, "unordered_map:", [](const std::pair<const int, int>& p) { return "<" + dec(p.first) + ":" + dec(p.second) + ">"; });
    cont(o, us, "unordered_set:", [](const std::string& s) { return s; });
    cont(o, vd, "vector:", [](double x) { return dec((int)x) + ".50"; }); cont(o, vc, "vector:", [](char c) { return std::string(1, c); }); cont(o, lc, "list:", [](const char* s) { return std::string(s ? s : "null"); });
    cont(o, vv, "vector:", [](const std::vector<int>& x) { std::string w = sx_fmt("vector:(%zu)[", x.size()); for (size_t i = 0; i < x.size(); i++) { if (i == 5) { w += "..., "; break; } if (i) w += ", "; w += dec(x[i]); } return w + "]"; });
    o.val(std::make_pair(base, std::string("z")), "<" + dec(base) + ":z>"); o.val(std::make_pair(true, 'c'), "<true:c>");
}
// percentages of non-negative shares, alignment to a column, time stamps as values
SX_SUITE(percent, 30, 100, 0) {
    int k = sx_choose(24); std::vector<double> v; if (k < 20) for (int i = 0; i < 500; i++) v.push_back((k * 500 + i) / 10000.0); else for (int i = 0; i < 500; i++) v.push_back(k == 20 ? i / 10.0 : k == 21 ? i * 1e-9 : k == 22 ? i * 977.0 : i * 1e12);
    Fx f; f.start(one_file()); for (size_t i = 0; i < v.size(); i++) { LogStream s(*f.lg, 0, PRIORITY_INFO, 0, 0, "", 0, 0, "", 0, LOG_PREFIX_NULL); if (i & 1) s << LogPercent(v[i]); else s << LogPercent((float)v[i]); }
    std::vector<std::string> g = lines(f.file("a.log")); if (g.size() != v.size()) sx_fail("%zu lines for %zu percentages", g.size(), v.size());
    for (size_t i = 0; i < v.size(); i++) { double w = (float)v[i] * 100.0; char* e; double r = strtod(g[i].c_str(), &e); if (e == g[i].c_str() || strcmp(e, "%") || fabs(r - w) > 0.00011 + w * 1e-14) sx_fail("the percentage of %.9g is \"%s\"", v[i], sx_esc(g[i]).c_str()); } sx_op((long)v.size());
}
template<int N> static void align(Out& o, int pre) {
    { LogStream s(*o.f.lg, 0, PRIORITY_INFO, 0, 0, "", 0, 0, "", 0, LOG_PREFIX_NULL); std::string p((size_t)pre, 'x'); s << p << LogBlankAlign<N>() << "|" << LogBlankAlign<N>() << "."; }
    std::string w((size_t)pre, 'x'); w.resize((size_t)std::max(pre, N), ' '); w += '|'; if ((int)w.size() < N) w.resize(N, ' '); o.want.push_back(w + "."); o.n++;
}
SX_SUITE(aligned, 30, 60, 0) { int pre = sx_choose(300); Out o; align<0>(o, pre); align<1>(o, pre); align<2>(o, pre); align<10>(o, pre); align<64>(o, pre); align<100>(o, pre); align<299>(o, pre); align<300>(o, pre); align<1000>(o, pre); o.check(); }
SX_SUITE(stamps, 30, 60, 0) {
    int ms = sx_choose(1000); long long t = 86400LL * sx_pick(std::vector<int>{1, 365, 10957, 20500}) + sx_pick(std::vector<int>{0, 3661, 86399}); setenv("TZ", "UTC0", 1); tzset(); env().now_us = t * 1000000 + ms * 1000 + 999; Out o; time_t tt = (time_t)t; tm q; gmtime_r(&tt, &q); char b[64]; strftime(b, 64, "%Y%m%d %H:%M:%S", &q); std::string w = sx_fmt("[%s.%03d]", b, ms);
    o.val(LogTimestamp(t, ms), w); o.val(LogTimestamp(t * 1000 + ms), w); o.val(LogTimestamp(), w); o.check();
}
// ---- all styles: stream, template, macro, printf ----
static std::string tail(const std::string& l) { size_t p = l.find(") "); return p == std::string::npos ? "?" + l : l.substr(p + 2); }
#define STYLES(v, fmt, pv) do { LogInfo() << v; PackInfo(v); LOGI(v); LOGFMTI(fmt, pv); LogInfoStream(0, 0, 0) << v; LogInfoPack(0, 0, 0, v); LOG_INFO(0, 0, 0, v); LOGFMT_INFO(0, 0, 0, fmt, pv); n += 8; } while (0)
static void same(const char* what, int n, const std::string& w) {
    std::string got; env().get("a.log", got); std::vector<std::string> g = lines(got); if ((int)g.size() != n) sx_fail("%s: %zu lines for %d log calls", what, g.size(), n);
    for (int i = 0; i < n; i++) if (tail(g[(size_t)i]) != w) sx_fail("%s: style %d printed \"%s\", the value's text is \"%s\"", what, i, sx_esc(g[(size_t)i]).c_str(), sx_esc(w).c_str());
    sx_op(n); { std::lock_guard<std::recursive_mutex> q(env().m); env().fs["a.log"]->data.clear(); }
}
SX_SUITE(styles, 60, 600, 0) {
    auto& m = mags(); size_t part = (size_t)sx_choose(40); int r = ParseAndStartLogger(GetDefaultLogger(), one_file()); if (r) sx_fail("start %d", r);
    for (size_t i = part; i < m.size(); i += 40) { int n;
        n = 0; { int v = (int)m[i]; STYLES(v, "%d", v); same("int", n, dec(v)); }
        n = 0; { unsigned v = (unsigned)m[i]; STYLES(v, "%u", v); same("unsigned", n, dec(v)); }
        n = 0; { long long v = (long long)m[i]; STYLES(v, "%lld", v); same("long long", n, dec(v)); }
        n = 0; { unsigned long long v = m[i]; STYLES(v, "%llu", v); same("unsigned long long", n, dec(v)); }
        n = 0; { std::string v = "<" + dec(m[i]) + ">"; const char* c = v.c_str(); STYLES(c, "%s", c); same("string", n, v); }
        n = 0; { char v = (char)(' ' + m[i] % 90); STYLES(v, "%c", v); same("char", n, std::string(1, v)); }
    }
    { int n = 0; (void)n; PackInfo(1, 'x', "y", std::string("z"), 2LL, true); LogInfo() << 1 << 'x' << "y" << std::string("z") << 2LL << true; LOGI(1 << 'x' << "y" << std::string("z") << 2LL << true); LOGFMTI("%d%c%s%s%lld%s", 1, 'x', "y", "z", 2LL, "true"); same("several values", 4, "1xyz2true"); }
    // every level macro carries its priority
    LogTrace() << "v"; LogDebug() << "v"; LogInfo() << "v"; LogWarn() << "v"; LogError() << "v"; LogAlarm() << "v"; LogFatal() << "v"; PackTrace("v"); PackDebug("v"); PackInfo("v"); PackWarn("v"); PackError("v"); PackAlarm("v"); PackFatal("v");
    LOGT("v"); LOGD("v"); LOGI("v"); LOGW("v"); LOGE("v"); LOGA("v"); LOGF("v"); LOGFMTT("%s", "v"); LOGFMTD("%s", "v"); LOGFMTI("%s", "v"); LOGFMTW("%s", "v"); LOGFMTE("%s", "v"); LOGFMTA("%s", "v"); LOGFMTF("%s", "v");
    { std::string got; env().get("a.log", got); std::vector<std::string> g = lines(got); const char* nm[] = {"[TRACE]", "[DEBUG]", "[INFO ]", "[WARN ]", "[ERROR]", "[ALARM]", "[FATAL]"}; if (g.size() != 28) sx_fail("%zu lines for 28 log calls", g.size());
      for (size_t i = 0; i < 28; i++) if (g[i].find(nm[i % 7]) == std::string::npos || tail(g[i]) != "v") sx_fail("level macro %zu printed \"%s\"", i, sx_esc(g[i]).c_str()); }
    r = StopLogger(GetDefaultLogger()); if (r) sx_fail("stop %d", r);
}
