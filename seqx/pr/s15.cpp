// C15: what a hot update applies, one thread: every setting, every torn version of a file, histories of edits, faults
#include "cfgs.h"
static const char* const YM = "hot.yaml";
static long g_mt, g_edits;
// every edit has another time stamp, now newer, now older than the one before (a backup that is put back keeps its time)
static void edit(const std::string& t) { g_edits++; g_mt = 100000 + (g_edits & 1 ? g_edits : -g_edits); env().put(YM, t, g_mt); }
static void begin(Fx& f, const std::string& t) { g_edits = 0; edit(t); int r = LoadAndStartLogger(*f.lg, YM); if (r) sx_fail("a valid file does not start: %d %s\n%s", r, sx_esc(env().take_screen()).c_str(), sx_esc(t, 900).c_str()); env().take_screen(); }
// everything of a channel a configuration decides
struct Snap { long long c[CHANNEL_CFG_MAX_ID]; std::vector<std::vector<long long>> d; std::vector<std::string> what; bool operator==(const Snap& o) const { return !memcmp(c, o.c, sizeof c) && d == o.d && what == o.what; } };
static Snap snap(Logger& l, int ch) { Channel& c = l.shm_->channels_[ch]; Snap s; for (int f = 0; f < CHANNEL_CFG_MAX_ID; f++) s.c[f] = c.config_fields_[f]; for (int d = 0; d < c.device_size_; d++) { Device& v = c.devices_[d]; std::vector<long long> x; for (int f = 0; f < DEVICE_CFG_MAX_ID; f++) x.push_back(v.config_fields_[f]); s.d.push_back(x); s.what.push_back(sx_fmt("%d %d %d %s %s", v.device_id_, (int)v.in_type_, (int)v.out_type_, v.out_file_, v.out_path_)); } return s; }
static std::string show(const Snap& s) { std::string t = "channel"; for (auto x : s.c) t += sx_fmt(" %lld", x); for (size_t i = 0; i < s.d.size(); i++) { t += "; device " + s.what[i] + ":"; for (auto x : s.d[i]) t += sx_fmt(" %lld", x); } return t; }
// the channel after an update: settings of the file, devices it already had keep what they are
static Snap merged(const Snap& old, const Snap& file) { Snap s = file; for (size_t i = 0; i < old.d.size(); i++) { if (i >= s.d.size()) { s.d.push_back(old.d[i]); s.what.push_back(old.what[i]); } else s.what[i] = old.what[i]; } return s; }
static void same(const char* when, const Snap& got, const Snap& want, const std::string& t) { if (!(got == want)) sx_fail("%s: the settings are\n%s\nnot\n%s\nof\n%s", when, show(got).c_str(), show(want).c_str(), sx_esc(t, 1200).c_str()); }
static Snap want_of(const Cf& c, int ch) { Snap s; const Cn& n = c.ch[(size_t)ch]; for (int f = 0; f < CHANNEL_CFG_MAX_ID; f++) s.c[f] = n.f[f]; for (size_t d = 0; d < n.dev.size(); d++) { const Dv& v = n.dev[d]; s.d.emplace_back(v.f, v.f + DEVICE_CFG_MAX_ID); s.what.push_back(sx_fmt("%zu %d %d %s %s", d, v.in, v.out, v.file.c_str(), v.path.c_str())); } return s; }
static bool Out(long long b, long long n, unsigned long long m, long long v) { return (n > 0 && (v < b || v - b >= n)) || (m && (v < 0 || v > 63 || !(m >> v & 1))); }
template<class G> static bool CheckFilter(G& g, long long c, long long i) { return Out(g[CHANNEL_CFG_CATEGORY], g[CHANNEL_CFG_CATEGORY_EXTEND], (unsigned long long)g[CHANNEL_CFG_CATEGORY_MASK], c) || Out(g[CHANNEL_CFG_IDENTIFY], g[CHANNEL_CFG_IDENTIFY_EXTEND], (unsigned long long)g[CHANNEL_CFG_IDENTIFY_MASK], i); }
// a record each channel takes, whatever its filters are: a synchronous channel looks at the file when it has processed a record
static bool refused(Fx& f, int ch, const Snap& before, const std::string& t) { (void)t; if (!(snap(*f.lg, ch) == before)) return false; sx_known("hot-update-sync-refused", "channel %d takes no record with the settings %s: a new file is not looked at", ch, show(before).c_str()); return true; }
static bool tick(Fx& f, int nch, int* which = nullptr) {
    env().advance_ms(6000); bool all = true;
    for (int c = 0; c < nch; c++) { auto& g = f.lg->shm_->channels_[c].config_fields_; std::vector<long long> cs = {g[CHANNEL_CFG_CATEGORY], 0}, is = {g[CHANNEL_CFG_IDENTIFY], 0}; for (int i = 1; i < 64; i++) { cs.push_back(i); is.push_back(i); } bool ok = false; for (auto x : cs) { if (x != (int)x) continue; for (auto y : is) if (!ok && !CheckFilter(g, x, y)) ok = f.log(c, PRIORITY_FATAL, (int)x, y, "tick"); } sx_op(); if (!ok) { all = false; if (which) *which = c; } }
    return all;
}
// ---- every setting, alone and with another, of the channel, of a device it has, of a device that is added
static void changed(int nset) {
    init(); int lvl = 1 + sx_choose(2); std::vector<int> ks; for (int i = 0; i < nset; i++) ks.push_back(sx_pick(g_lvl[lvl])); int ch = sx_choose(2); bool added = lvl == DEV && sx_choose(2); bool first = sx_choose(2); std::string old, t; Cf c; Wr w;
    for (int pass = 0; pass < 2; pass++) { Tx x(w); c = Cf(); x.line(GLOB, "hot_update", "true"); for (int i = 0; i < 2; i++) { c.ch.emplace_back(); Cn& n = c.ch.back(); x.line(GLOB, "channel", sx_fmt("%d", i), true); x.line(CHAN, "sync", "sync");
            auto put = [&](int k, Dv* d) { const St& s = g_sets[(size_t)k]; if (!strcmp(s.key, "sync") || !strcmp(s.key, "device")) return; x.line(s.lvl, s.key, s.val); s.ap(c, &n, d); };
            if (lvl == CHAN && i == ch && pass == (first ? 0 : 1)) for (int k : ks) put(k, nullptr);
            if (lvl == CHAN && i == ch && pass == (first ? 1 : 0)) { x.line(CHAN, "category_extend", "3"); n.f[CHANNEL_CFG_CATEGORY_EXTEND] = 3; }
            n.dev.emplace_back(); x.line(CHAN, "device", "0", true); x.line(DEV, "disable", "false"); x.line(DEV, "out_type", "screen"); n.dev[0].f[DEVICE_CFG_ABLE] = 1; n.dev[0].out = DEVICE_OUT_SCREEN;
            for (int d = 1; d < 3; d++) { if (d == 2 && pass == 0 && added && i == ch) break; n.dev.emplace_back(); x.line(CHAN, "device", sx_fmt("%d", d), true); if (lvl == DEV && i == ch && d == 2 && pass == (first && !added ? 0 : 1)) for (int k : ks) put(k, &n.dev.back()); } }
        if (pass == 0) old = x.text(); else t = x.text(); }
    Fx f; if (ParseAndStartLogger(*f.lg, t)) { env().take_screen(); return; } f.stop(); env().take_screen(); // some pairs are refused: C10
    Fx g; begin(g, old); Snap o[2]; for (int i = 0; i < 2; i++) o[i] = snap(*g.lg, i); edit(t); int no = -1; if (!tick(g, 2, &no) && refused(g, no, o[no], t)) { g.stop(); return; } for (int i = 0; i < 2; i++) same("after the update", snap(*g.lg, i), merged(o[i], want_of(c, i)), t); tick(g, 2); for (int i = 0; i < 2; i++) same("an interval after the update", snap(*g.lg, i), merged(o[i], want_of(c, i)), t); if (g.stop()) sx_fail("does not stop after an update");
}
SX_SUITE(one_setting, 60, 120, 0) { changed(1); }
SX_SUITE(two_settings, 100, 600, 0) { changed(2); }
// ---- a file that is being written, or cannot be read, or is damaged: all of it, or nothing
static std::string base(bool hot = true) { return std::string(hot ? " - hot_update: true\n" : "") + " - channel: 0\n    sync: sync\n    -device: 0\n        disable: false\n        out_type: file\n        file: a\n - channel: 1\n    sync: sync\n    -device: 0\n        disable: false\n        out_type: file\n        file: b\n"; }
static std::string next() { return " - hot_update: true\n - channel: 0\n    priority: info\n    category_wlist: 0-9\n    -device: 0\n        disable: false\n        out_type: file\n        file: a\n        limit_size: 100 m\n        priority: debug\n    -device: 1\n        disable: false\n        out_type: udp\n        udp_addr: 127.0.0.1:9001\n - channel: 1\n    identify_extend: 12\n    -device: 0\n        disable: false\n        out_type: file\n        file: b\n        rollback: 3\n"; }
static void all_there(Fx& f, const char* name, int n) { auto l = lines(f.file(name)); if ((int)l.size() != n) sx_fail("%s holds %zu of %d records", name, l.size(), n); for (int i = 0; i < n; i++) if (l[(size_t)i] != "tick") sx_fail("%s line %d: %s", name, i, sx_esc(l[(size_t)i]).c_str()); }
static void maybe_applied(const std::string& t, const std::string& why) {
    bool ok = true, hot = true; Snap want[2]; int nch = 0; { Fx p; int r = InitFromYMAL(*p.lg, t, ""); ok = r == 0; if (ok) { hot = p.lg->hot_update_; nch = p.lg->shm_->channel_size_; for (int i = 0; i < nch; i++) want[i] = snap(*p.lg, i); } env().take_screen(); }
    Fx f; begin(f, base()); Snap o[2], n[2]; for (int i = 0; i < 2; i++) o[i] = snap(*f.lg, i); edit(t); tick(f, 2);
    for (int i = 0; i < 2; i++) { bool ap = ok && i < nch && (i == 0 || hot); n[i] = ap ? merged(o[i], want[i]) : o[i]; Snap g = snap(*f.lg, i); if (i == 1 && !hot && ok && i < nch && g == merged(o[i], want[i])) n[i] = g; same(ok ? why.c_str() : "a file that is not valid", g, n[i], t); }
    if (ok && !hot) { f.stop(); return; } // hot update is switched off
    std::string full = next(); Snap fw[2]; { Fx p; InitFromYMAL(*p.lg, full, ""); for (int i = 0; i < 2; i++) fw[i] = snap(*p.lg, i); env().take_screen(); } edit(full); int no = -1; if (!tick(f, 2, &no) && refused(f, no, n[no], full)) { f.stop(); return; } for (int i = 0; i < 2; i++) same("the whole file, an interval later", snap(*f.lg, i), merged(n[i], fw[i]), full); if (f.stop()) sx_fail("does not stop after an update");
}
SX_SUITE(torn_files, 60, 60, 0) { std::string t = next(); int n = sx_choose((int)t.size() + 1); maybe_applied(t.substr(0, (size_t)n), sx_fmt("the first %d bytes of a file", n)); }
SX_SUITE(damaged_files, 100, 300, 0) { std::string t = next(); int n = sx_choose((int)t.size()); static const char X[] = {'\0', '\n', ' ', 'x', '9', ':', '"', '#', '\xff', '-'}; char x = X[sx_choose((int)sizeof X)]; int how = sx_choose(3); if (how == 0) t[(size_t)n] = x; else if (how == 1) t.insert((size_t)n, 1, x); else { if (x) return; t.erase((size_t)n, 1); } maybe_applied(t, sx_fmt("byte %d %s", n, how == 0 ? "damaged" : how == 1 ? "inserted" : "lost")); }
SX_SUITE(unreadable, 30, 60, 0) {
    std::string pad; int big = sx_choose(4); for (int i = 0; i < big * 100; i++) pad += "# --------------------- a comment -------------\n"; std::string t = next(); t.insert(t.find("    -device: 1"), pad); static const std::vector<const char*> OPS = {"fopen", "fstat", "read"}; const char* op = sx_pick(OPS); int which = sx_choose(4), k = 0; bool before = sx_choose(2);
    Fx f; begin(f, base()); Snap o[2]; for (int i = 0; i < 2; i++) o[i] = snap(*f.lg, i); Snap fw[2]; { Fx p; InitFromYMAL(*p.lg, t, ""); for (int i = 0; i < 2; i++) fw[i] = snap(*p.lg, i); env().take_screen(); } if (before) tick(f, 2); edit(t); bool hit = false; env().fault = [&](const char* q, const std::string& path) { if (!strcmp(q, op) && path.find(YM) != std::string::npos && k++ == which) { hit = true; return 5; } return 0; };
    tick(f, 2); for (int i = 0; i < 2; i++) { Snap g = snap(*f.lg, i); if (!(g == o[i]) && !(g == merged(o[i], fw[i]))) sx_fail("%s number %d of the file fails: part of it is applied\n%s", op, which, show(g).c_str()); } env().fault = nullptr; tick(f, 2); for (int i = 0; i < 2; i++) same("once the file can be read", snap(*f.lg, i), merged(o[i], fw[i]), t); int n = before ? 3 : 2; all_there(f, "a.log", n); all_there(f, "b.log", n); if (f.stop()) sx_fail("does not stop"); if (env().open_files) sx_fail("%d files stay open", env().open_files);
    sx_state(sx_hash(op, strlen(op), (uint64_t)(which * 2 + hit)));
}
// ---- added devices work, whatever they are, and get each record once
static long long g_calls; static void hook(const LogData&) { g_calls++; }
SX_SUITE(added_devices, 60, 120, 0) {
    static const char* O[] = {"file", "screen", "udp", "virtual", "empty"}; static const char* SY[] = {"sync", "null"}; const char* sy = SY[sx_choose(2)]; int n0 = sx_choose(3), n = 1 + sx_choose(3); if (n0 + n > Channel::MAX_DEVICE_SIZE) return; std::vector<int> kind; bool virt = false; std::string old = sx_fmt(" - hot_update: true\n - channel: 0\n    sync: %s\n", sy), t = old;
    for (int i = 0; i < n0 + n; i++) { int k = i < n0 ? 0 : sx_choose(5); if (k == 3) { if (virt) return; virt = true; } kind.push_back(k); std::string d = sx_fmt("    -device: %d\n        disable: false\n        out_type: %s\n        file: f%d\n        udp_addr: 127.0.0.1:%d\n", i, O[k], i, 9000 + i); if (i < n0) old += d; t += d; }
    SetVirtualDevice(hook); g_calls = 0; Fx f; begin(f, old); auto wait = [&](int64_t) { for (int k = 0; k < 20000 && !(f.clog(0, CHANNEL_LOG_PROCESSED) == f.clog(0, CHANNEL_LOG_PUSH) && f.lg->shm_->ring_buffers_[0].hold_idx_ == f.lg->shm_->ring_buffers_[0].read_idx_); k++) usleep(100); }; int logged = 0; auto log = [&]() { if (f.log(0, 2, 0, 0, sx_fmt("R%d", logged))) logged++; wait(0); sx_op(); };
    log(); edit(t); env().advance_ms(6000); if (!strcmp(sy, "sync")) { log(); } else for (int k = 0; k < 20000 && f.clog(0, CHANNEL_LOG_HOTUPDATE_CHANGE) == 0; k++) usleep(100); if (f.clog(0, CHANNEL_LOG_HOTUPDATE_CHANGE) == 0) { if (n0 == 0 && !strcmp(sy, "sync")) { sx_known("hot-update-sync-refused", "a channel without a device"); f.stop(); SetVirtualDevice(NULL); return; } sx_fail("the changed file is not applied after 6 s"); }
    env().m.lock(); env().take_screen(); env().m.unlock(); int first = logged; g_calls = 0; for (int i = 0; i < 3; i++) { env().advance_ms(6000); log(); } if (logged != first + 3) sx_fail("%d of 3 records are taken after the update", logged - first); f.stop();
    std::string scr = env().take_screen(); for (int i = 0; i < n0 + n; i++) { int from = i < n0 ? 0 : first; long long got = 0; int want = logged - from; bool dup = false; auto cnt = [&](const std::string& s) { for (int r = from; r < logged; r++) { std::string m = sx_fmt("R%d\n", r); size_t p = s.find(m); if (p != std::string::npos) { got++; if (s.find(m, p + 1) != std::string::npos) dup = true; } } };
        if (kind[(size_t)i] == 0) cnt(f.file(sx_fmt("f%d.log", i))); if (kind[(size_t)i] == 1) { int sc = 0; for (int x : kind) sc += x == 1; size_t p = 0; long long c = 0; while ((p = scr.find("\nR", p)) != std::string::npos) { c++; p++; } if (scr.compare(0, 1, "R") == 0) c++; (void)sc; got = 0; cnt(scr); dup = false; } if (kind[(size_t)i] == 2) { std::string s; for (auto& g : env().sent) if (g.port == htons((unsigned short)(9000 + i))) s += g.data; cnt(s); } if (kind[(size_t)i] == 3) got = g_calls; if (kind[(size_t)i] == 4) got = f.dlog(0, i, DEVICE_LOG_TOTAL_WRITE_LINE);
        if (got != want || dup) sx_fail("%s channel: device %d (%s), %s, gets %lld of %d records%s", sy, i, O[kind[(size_t)i]], i < n0 ? "there from the start" : "added by the update", got, want, dup ? ", one twice" : ""); }
    SetVirtualDevice(NULL);
}
// ---- histories of edits, touches, deletions, time and records
static const char* const VER[] = { "", "    priority: info\n", "    category_extend: 5\n    category: 0\n", "    identify_bmask: 2\n" };
static const char* const DVER[] = { "", "        priority: debug\n", "        limit_size: 3\n", "    -device: 1\n        disable: false\n        out_type: file\n        file: c\n" };
static std::string ver(int k) { std::string t = " - hot_update: true\n"; for (int c = 0; c < 2; c++) t += sx_fmt(" - channel: %d\n    sync: sync\n%s    -device: 0\n        disable: false\n        out_type: file\n        file: %c\n%s", c, VER[k], 'a' + c, k == 3 && c == 1 ? "" : DVER[k]); return t; }
// files that switch hot updates on and off: what is switched off stays off until the file is loaded again
SX_SUITE(switched_off, 60, 300, 0) {
    auto one = [](int k, bool hot) { std::string t = ver(k); t = t.substr(0, t.find(" - channel: 1")); return hot ? t : (k & 1) ? t.substr(t.find('\n') + 1) : " - hot_update: false" + t.substr(t.find('\n')); };
    static Snap want[4]; static bool have; if (!have) { for (int k = 0; k < 4; k++) { Fx p; if (InitFromYMAL(*p.lg, one(k, true), "")) sx_fail("version %d is refused", k); want[k] = snap(*p.lg, 0); } env().take_screen(); have = true; }
    Fx f; bool on = sx_choose(2); std::string h = on ? "started with hot updates" : "started without"; begin(f, one(0, on)); Snap cur = snap(*f.lg, 0); int n = sx_thorough() ? 5 : 4, logged = 0;
    for (int s = 0; s < n; s++) {
        int k = 1 + sx_choose(3); bool hot = sx_choose(2); edit(one(k, hot)); h += sx_fmt("; version %d with hot_update %s", k, hot ? "on" : "off"); bool again = sx_choose(2); sx_op();
        if (again) { if (f.stop()) sx_fail("does not stop"); int r = LoadAndStartLogger(*f.lg, YM); if (r) sx_fail("restart %d after %s", r, h.c_str()); env().take_screen(); h += ", restarted"; cur = want[k]; on = hot; logged = -1000; }
        else { env().advance_ms(6000); if (!f.log(0, PRIORITY_FATAL, 0, 0, "tick")) sx_fail("a record is refused"); logged++; if (on) { cur = merged(cur, want[k]); on = hot; } }
        Snap g = snap(*f.lg, 0); if (!(g == cur)) sx_fail("after %s: the settings are\n%s\nnot\n%s", h.c_str(), show(g).c_str(), show(cur).c_str()); }
    if (logged >= 0) all_there(f, "a.log", logged); if (f.stop()) sx_fail("does not stop");
}
SX_SUITE(histories, 100, 900, 0) {
    static Snap want[4][2]; static bool have; if (!have) { for (int k = 0; k < 4; k++) { Fx p; if (InitFromYMAL(*p.lg, ver(k), "")) sx_fail("version %d is refused", k); for (int i = 0; i < 2; i++) want[k][i] = snap(*p.lg, i); } env().take_screen(); have = true; }
    int n = sx_thorough() ? 8 : 6; Fx f; begin(f, ver(0)); std::string hist; Snap cur[2]; long seen[2]; long long since = env().now_us; int file = 0; long fm = g_mt; bool bad = false; int logged[2] = {0, 0}; for (int i = 0; i < 2; i++) { cur[i] = snap(*f.lg, i); seen[i] = g_mt; }
    for (int s = 0; s < n; s++) {
        int o = sx_choose(9); sx_op();
        if (o < 3) { int k = o + 1; edit(ver(k)); file = k; bad = false; fm = g_mt; since = env().now_us; hist += sx_fmt("; version %d is written", k); continue; }
        if (o == 3) { if (file < 0) return; edit(bad ? "x" : ver(file)); fm = g_mt; since = env().now_us; hist += "; the file is touched"; continue; }
        if (o == 4) { env().fs.erase(Env::norm(YM)); file = -1; since = env().now_us; hist += "; the file is removed"; continue; }
        if (o == 5) { env().advance_ms(1000); hist += "; 1 s passes"; continue; }
        if (o == 6) { env().advance_ms(5000); hist += "; 5 s pass"; continue; }
        int c = o - 7; hist += sx_fmt("; a record on %d", c); if (!f.log(c, PRIORITY_FATAL, 0, 0, "tick")) sx_fail("a record is refused%s", hist.c_str()); logged[c]++;
        Snap g = snap(*f.lg, c); bool due = env().now_us - since >= 5000000; bool diff = file >= 0 && fm != seen[c]; Snap nw = diff ? merged(cur[c], want[file][c]) : cur[c];
        if (g == nw && diff && (due || !(nw == cur[c]))) { cur[c] = nw; seen[c] = fm; } else if (g == cur[c] && !due) {} else if (!diff && g == cur[c]) {} else sx_fail("channel %d has\n%s\nnot\n%s\n%s", c, show(g).c_str(), show(nw).c_str(), hist.c_str() + 2);
        for (int i = 0; i < 2; i++) if (i != c) same("the other channel", snap(*f.lg, i), cur[i], hist);
        Snap p = snap(*f.lg, c); sx_state(sx_hash(show(p) + sx_fmt("|%d %lld", file, (long long)(env().now_us - since) / 1000000)));
    }
    all_there(f, "a.log", logged[0]); all_there(f, "b.log", logged[1]); if (f.stop()) sx_fail("does not stop");
}
