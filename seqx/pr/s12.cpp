// C12: calendar rolling and file naming follow the record's local time
#include "fx.h"
#include "tz.h"
struct Local { long long y; int mo, d, h, mi, s; };
static Local local(long long t) { std::string s = stamp(t, 0); Local l; sscanf(s.c_str(), "[%4lld%2d%2d %d:%d:%d", &l.y, &l.mo, &l.d, &l.h, &l.mi, &l.s); return l; }
static std::string day_of(long long t) { Local l = local(t); return sx_fmt("%04lld%02d%02d", l.y, l.mo, l.d); }
static std::string hour_of(long long t) { Local l = local(t); return day_of(t) + sx_fmt("%02d", l.h); }
static std::string subst(std::string n, long long t) {
    Local l = local(t); std::pair<const char*, std::string> v[] = {{"$PNAME", FileHandler::process_name()}, {"$PID", FileHandler::process_id()}, {"$YEAR", sx_fmt("%04lld", l.y)}, {"$MON", sx_fmt("%02d", l.mo)}, {"$DAY", sx_fmt("%02d", l.d)}, {"$HOUR", sx_fmt("%02d", l.h)}, {"$MIN", sx_fmt("%02d", l.mi)}, {"$SEC", sx_fmt("%02d", l.s)}, {"%F", sx_fmt("%04lld-%02d-%02d", l.y, l.mo, l.d)}};
    std::string o; for (size_t i = 0; i < n.size();) { bool hit = false; for (auto& p : v) if (!n.compare(i, strlen(p.first), p.first)) { o += p.second; i += strlen(p.first); hit = true; break; } if (!hit) o += n[i++]; } return o;
}
enum { NONE, DAILY, HOURLY };
static const char* MODE[] = {"", "        rolldaily: true\n", "        rollhourly: true\n"};
static std::string key(int mode, long long t) { return mode == DAILY ? day_of(t) : mode == HOURLY ? hour_of(t) : ""; }
static void put(Fx& f, long long t, const std::string& s) { env().now_us = t * 1000000LL; f.log(0, 2, 0, 0, s); sx_op(); }
static std::string conf(const char* name, const char* path, int mode, int back = 0) { return sx_fmt(" - channel: 0\n    sync: sync\n    -device: 0\n        disable: false\n        out_type: file\n        file: %s\n%s%s%s", name, path ? sx_fmt("        path: %s\n", path).c_str() : "", MODE[mode], back ? sx_fmt("        rollback: %d\n", back).c_str() : ""); }
// files named by date (and hour): every record is in the file of its own day (hour), in order
static void named(size_t z, int mode, const char* name, const char* path, const std::vector<long long>& ts) {
    Fx f; f.start(conf(name, path, mode)); std::map<std::string, std::string> want; std::string cur, k; bool open = false; std::string h; int i = 0;
    for (long long t : ts) {
        std::string r = sx_fmt("r%d", i++); put(f, t, r); h += sx_fmt(" %s", stamp(t, 0).c_str()); std::string nk = key(mode, t);
        if (!open || nk != k) { cur = (path ? std::string(path) + "/" : std::string()) + name + ".log"; cur = subst(cur, t); k = nk; open = true; }
        want[Env::norm(cur)] += r + "\n";
    }
    f.stop(); for (auto& p : env().files()) { if (p.find("proc") != std::string::npos) continue; std::string d; env().get(p, d); if (!want.count(Env::norm(p))) sx_fail("time zone %s%s%s: a file %s", g_tz[z], mode ? MODE[mode] : "", h.c_str(), p.c_str()); if (d != want[Env::norm(p)]) sx_fail("time zone %s, records of%s: %s holds %s expected %s", g_tz[z], h.c_str(), p.c_str(), sx_esc(d).c_str(), sx_esc(want[Env::norm(p)]).c_str()); want.erase(Env::norm(p)); }
    if (!want.empty()) sx_fail("time zone %s, records of%s: no file %s", g_tz[z], h.c_str(), want.begin()->first.c_str());
}
static std::vector<long long> usable(size_t z) { std::vector<long long> v; for (long long t : instants(z)) if (t >= 100) v.push_back(t); return v; }
SX_SUITE(pairs, 100, 300, 0) { size_t z = (size_t)sx_choose((int)g_tz.size()); auto v = usable(z); set_tz(g_tz[z]); int mode = 1 + sx_choose(2); long long a = v[(size_t)sx_choose((int)v.size())], b = v[(size_t)sx_choose((int)v.size())]; named(z, mode, mode == DAILY ? "a_$YEAR$MON$DAY" : "a_$YEAR$MON$DAY$HOUR", nullptr, {a, b, a}); }
SX_SUITE(near, 150, 600, 0) { size_t z = (size_t)sx_choose((int)g_tz.size()); auto v = usable(z); set_tz(g_tz[z]); int mode = 1 + sx_choose(2); int W = 5; size_t b = (size_t)sx_choose((int)v.size() - W + 1); std::vector<long long> t; int n = sx_thorough() ? 4 : 3; for (int i = 0; i < n; i++) t.push_back(v[b + (size_t)sx_choose(W)]); named(z, mode, mode == DAILY ? "$YEAR-$MON-$DAY-x" : "$HOUR_$YEAR$MON$DAY", sx_choose(2) ? "logs" : nullptr, t); }
// the whole year in steps, forwards: every day (hour) has its own file
SX_SUITE(year, 100, 300, 0) { size_t z = (size_t)sx_choose((int)g_tz.size()); int mode = 1 + sx_choose(2), st = sx_choose(3); set_tz(g_tz[z]); int chunk = sx_choose(61); std::vector<long long> t; static const int ST[] = {900, 1799, 3600}; for (long long x = 1767225600LL + chunk * 6 * 86400LL; x < 1767225600LL + (chunk + 1) * 6 * 86400LL + 7200; x += ST[st]) t.push_back(x); named(z, mode, mode == DAILY ? "a_$YEAR$MON$DAY" : "a_$YEAR$MON$DAY$HOUR", nullptr, t); }
// a fixed name with backups: a new file is begun exactly when the day (hour) changes
SX_SUITE(begun, 150, 600, 0) {
    size_t z = (size_t)sx_choose((int)g_tz.size()); auto v = usable(z); set_tz(g_tz[z]); int mode = 1 + sx_choose(2); int W = 6; size_t b = (size_t)sx_choose((int)v.size() - W + 1); int n = 3; Fx f; f.start(conf("a", nullptr, mode, 5)); std::vector<std::string> g; std::string k, h; long long last = 0; bool fuzzy = false;
    for (int i = 0; i < n; i++) { long long t = v[b + (size_t)sx_choose(W)]; if (i && mode == HOURLY && hour_of(t) == k && (off_of(t) != off_of(last))) fuzzy = true; std::string r = sx_fmt("r%d", i); put(f, t, r); h += " " + stamp(t, 0); std::string nk = key(mode, t); if (g.empty() || nk != k) g.insert(g.begin(), ""); k = nk; g[0] += r + "\n"; last = t; }
    f.stop(); if (fuzzy) return;     // the same local hour twice in one night: whether that is a change of hour is left open
    for (size_t i = 0; i < 6; i++) { std::string p = "a.log", d; if (i) p += "." + std::to_string(i); bool e = env().get(p, d); if (e != (i < g.size()) || (e && d != g[i])) sx_fail("time zone %s, %s rolling, records of%s: %s %s %s", g_tz[z], mode == DAILY ? "daily" : "hourly", h.c_str(), p.c_str(), e ? "holds" : "is missing", sx_esc(d).c_str()); }
}
// without rolling nothing is begun
SX_SUITE(no_rolling, 20, 60, 0) { size_t z = (size_t)sx_choose((int)g_tz.size()); auto v = usable(z); set_tz(g_tz[z]); long long a = v[(size_t)sx_choose((int)v.size())], b = v[(size_t)sx_choose((int)v.size())]; named(z, NONE, "a_$YEAR$MON$DAY$HOUR$MIN$SEC", nullptr, {a, b}); }
// names: sequences of variables and literal pieces, in the file name and in the directory
SX_SUITE(names, 60, 300, 0) {
    static const std::vector<const char*> P = {"$YEAR", "$MON", "$DAY", "$HOUR", "$MIN", "$SEC", "$PNAME", "$PID", "x", "_", "$", "$Y", "$M", "$MO", "$P", "$DA", "$HOU", "$SE", "$Q", "YEAR", "1", "%F", "%", "%Y"};
    static const std::vector<long long> T = {1767225599, 951782400, 1772582399, 100, 4102444799LL}; int where = sx_choose(2); std::string n; int k = 1 + sx_choose(sx_thorough() ? 4 : 3); for (int i = 0; i < k; i++) n += sx_pick(P); if (n.size() > 40) return; long long t = T[(size_t)sx_choose((int)T.size())]; size_t z = (size_t)sx_choose(2); set_tz(g_tz[z]); env().cmdline = "/usr/bin/prog-name";
    std::string expect = subst(where ? n + "/a.log" : n + ".log", t);
    // a piece and the next can make up a variable together: the reference expands left to right over the whole name
    Fx f; f.start(conf(where ? "a" : n.c_str(), where ? n.c_str() : nullptr, NONE)); put(f, t, "r"); f.stop(); std::string d; if (!env().get(expect, d) || d != "r\n") { std::string fs; for (auto& p : env().files()) fs += p + " "; sx_fail("name %s at %s: expected %s, files: %s", n.c_str(), stamp(t, 0).c_str(), expect.c_str(), fs.c_str()); }
}
// long names: everything that fits is written where it should be; what is too long costs only this device's records
SX_SUITE(long_names, 20, 60, 0) {
    static const std::vector<int> L = {1, 40, 46, 48}, Q = {0, 1, 100, 195, 198}, N = {1, 48, 49, 50, 51, 60, 200, 240, 255}; int l = sx_pick(L), q = sx_pick(Q), pn = sx_pick(N), w = sx_choose(3); set_tz("UTC0"); std::string prog((size_t)pn, 'p'); env().cmdline = "/bin/" + prog;
    std::string file((size_t)l, 'f'), path((size_t)q, 'd'); if (w == 1) { if (l < 6) return; file = file.substr(6) + "$PNAME"; } if (w == 2) { if (q < 6) return; path = "$PNAME" + path.substr(6); } std::string p = q ? path + "/" + file : file; p = subst(p, 1767225600) + ".log";
    Fx f; f.start(conf(file.c_str(), q ? path.c_str() : nullptr, DAILY, sx_choose(2)) + "    -device: 1\n        disable: false\n        out_type: file\n        file: o\n"); put(f, 1767225600, "r0"); put(f, 1767225600 + 86400, "r1"); put(f, 1767225600 + 86410, "r2"); f.stop(); std::string g, b; if (!env().get("o.log", g) || g != "r0\nr1\nr2\n") sx_fail("the other device holds %s", sx_esc(g).c_str());
    bool have = env().get(p, g), back = env().get(p + ".1", b); if (p.size() < 200 && !have) sx_fail("there is no file %s", p.c_str()); if (have && (back ? b + g : g) != "r0\nr1\nr2\n") sx_fail("%s holds %s", p.c_str(), sx_esc(b + g).c_str()); if (!have) for (auto& x : env().files()) if (x.find("proc") == std::string::npos && x.find("o.log") == std::string::npos) sx_fail("records of %s are in %s", p.c_str(), x.c_str());
}
// directories: shapes, depth, which of them exist already
SX_SUITE(directories, 20, 60, 0) {
    static const std::vector<const char*> D = {"a", "a/", "./a", "./a/b", "a/b/c/d", "/abs/x", "/abs/x/y/", "a//b", "a\\b", "a/$YEAR/$MON", "./", ".", "$PNAME", "a/../b", "/"}; const char* d = sx_pick(D); int have = sx_choose(4); set_tz("UTC0"); env().cmdline = "prog"; std::string p = subst(d, 1767225600); for (auto& c : p) if (c == '\\') c = '/';
    if (have) { std::string sub; int n = 0; for (size_t i = 0; i <= p.size(); i++) if (i == p.size() || p[i] == '/') { std::string q = p.substr(0, i); if (!q.empty() && n < have) { auto x = std::make_shared<Inode>(); x->dir = true; std::string k = Env::norm(q); if (!env().fs.count(k)) env().fs[k] = x; n++; } } }
    Fx f; f.start(conf("f", d, DAILY)); put(f, 1767225600, "r0"); put(f, 1767225600 + 86400, "r1"); f.stop(); std::string g; if (p.back() != '/') p += "/"; std::string w = p + "f.log"; std::string p2 = subst(d, 1767225600 + 86400); (void)p2;
    if (!env().get(w, g) || g != "r0\nr1\n") { std::string fs; for (auto& q : env().files()) fs += q + " "; sx_fail("directory %s: %s holds %s; files: %s", d, w.c_str(), sx_esc(g).c_str(), fs.c_str()); }
}
// somebody else (a device of another channel, another process) creates the directories at the same moment
SX_SUITE(directories_shared, 20, 60, 0) {
    static const std::vector<const char*> D = {"a", "a/b", "a/b/c", "a/b/c/d/", "/abs/x/y", "./q/$YEAR"}; const char* d = sx_pick(D); int which = sx_choose(16); set_tz("UTC0"); env().cmdline = "prog"; int k = 0; env().fault = [&](const char* o, const std::string& p) { if (!strcmp(o, "mkdir") && (which >> k++ & 1)) { auto x = std::make_shared<Inode>(); x->dir = true; env().fs[Env::norm(p)] = x; return EEXIST; } return 0; };
    Fx f; f.start(conf("f", d, DAILY)); put(f, 1767225600, "r0"); put(f, 1767225600 + 86400, "r1"); f.stop(); std::string g, w = subst(d, 1767225600); if (w.back() != '/') w += "/"; w += "f.log";
    if (!env().get(w, g) || g != "r0\nr1\n") sx_fail("directory %s, created by somebody else at the same moment (%d): %s holds %s", d, which, w.c_str(), sx_esc(g).c_str());
}
// directory and name both follow the date, the directory changes over midnight
SX_SUITE(dated_directories, 30, 60, 0) { size_t z = (size_t)sx_choose((int)g_tz.size()); auto v = usable(z); set_tz(g_tz[z]); int mode = 1 + sx_choose(2); long long a = v[(size_t)sx_choose((int)v.size())], b = v[(size_t)sx_choose((int)v.size())]; if (!sx_thorough() && (a + b) % 3) return; named(z, mode, "$HOUR", "logs/$YEAR/$MON/$DAY", {a, b, b, a}); }
// rolling together with a size limit: nothing is lost and every record is in a file of its day
SX_SUITE(with_limit, 60, 200, 0) {
    size_t z = (size_t)sx_choose((int)g_tz.size()); auto v = usable(z); set_tz(g_tz[z]); int W = 4; size_t b = (size_t)sx_choose((int)v.size() - W + 1); Fx f; f.start(conf("a_$YEAR$MON$DAY", nullptr, DAILY, 4)); SetDeviceConfig(*f.lg, 0, 0, DEVICE_CFG_FILE_LIMIT_SIZE, 10); std::map<std::string, std::string> want; std::string h;
    std::string lastday; long long prev = 0; for (int i = 0; i < 4; i++) { long long t = v[b + (size_t)sx_choose(W)]; if (t < prev) t = prev; prev = t; std::string r = sx_fmt("rec%d", i); put(f, t, r); h += " " + stamp(t, 0); want["a_" + day_of(t) + ".log"] += r + "\n"; }
    f.stop(); for (auto& w : want) { std::string all; for (int k = 5; k >= 0; k--) { std::string d; env().get(k ? w.first + "." + std::to_string(k) : w.first, d); if (d.size() > 10) sx_fail("a file over the limit"); all += d; } if (all != w.second) sx_fail("time zone %s, records of%s: the files of %s hold %s expected %s", g_tz[z], h.c_str(), w.first.c_str(), sx_esc(all).c_str(), sx_esc(w.second).c_str()); }
}
// a record that is composed while the clock moves on (and one that waits in the queue of an asynchronous channel) still belongs to the time it was created at
SX_SUITE(held, 60, 120, 0) {
    size_t z = (size_t)sx_choose((int)g_tz.size()); auto v = usable(z); set_tz(g_tz[z]); int mode = 1 + sx_choose(2); size_t i = (size_t)sx_choose((int)v.size() - 4); int w = 1 + sx_choose(4); long long a = v[i], b = v[std::min(i + (size_t)w, v.size() - 1)]; const char* name = mode == DAILY ? "a_$YEAR$MON$DAY" : "a_$YEAR$MON$DAY$HOUR";
    Fx f; f.start(conf(name, nullptr, mode)); env().now_us = a * 1000000LL; if (sx_choose(2)) f.log(0, 2, 0, 0, "first");
    bool first = env().files_opened > 0; { LogStream s(*f.lg, 0, 2, 0, 0, "", 0, 0, "", 0, LOG_PREFIX_NULL); s << "held"; env().now_us = b * 1000000LL; } f.log(0, 2, 0, 0, "next"); sx_op(3); f.stop();
    std::map<std::string, std::string> want; want[subst(std::string(name) + ".log", a)] += std::string(first ? "first\n" : "") + "held\n"; want[subst(std::string(name) + ".log", b)] += "next\n"; for (auto& p : want) { std::string d; env().get(p.first, d); if (d != p.second) sx_fail("time zone %s, records of %s, %s: %s holds %s expected %s", g_tz[z], stamp(a, 0).c_str(), stamp(b, 0).c_str(), p.first.c_str(), sx_esc(d).c_str(), sx_esc(p.second).c_str()); }
}
