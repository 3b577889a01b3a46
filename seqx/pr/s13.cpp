// C13: a failing environment call costs only the affected records, and the device comes back by itself
#include "fx.h"
#include <errno.h>
#include <set>
#ifndef UNIT
#define UNIT 1
#endif
struct Dev { std::string base; int limit, k; bool stuff; };
struct Plan {           // which calls may fail, how many of them
    int budget = 0; std::function<bool(const char*, const std::string&)> mine; int fired = 0; std::string persist; bool active = false; std::string log; std::set<std::string> ops;
    void install() { env().fault = [this](const char* op, const std::string& p) -> int {
        if (!active || !mine(op, p)) return 0;
        if (persist == op) { fired++; ops.insert(op); return ENOSPC; }
        if (budget <= 0) return 0;
        bool w = !strcmp(op, "write"); int c = sx_choose(w ? 4 : 3); if (!c) return 0;
        budget--; fired++; ops.insert(op); log += sx_fmt(" %s(%s)%s", op, p.c_str(), c == 1 ? " fails" : c == 2 ? " fails until the next record" : " writes 3 bytes and fails"); sx_note("fault %s %s %d", op, p.c_str(), c);
        if (c == 2) persist = op; return c == 3 ? -3 : ENOSPC; }; }
};
static std::string rec(int n, int seq) { std::string s; for (int i = 0; i < n - 1; i++) s += (char)(i == 0 ? 'A' + seq : 'a' + (seq * 5 + i) % 26); return s + "\n"; }
// records of one device on disk, oldest first: (sequence, whole)
struct Disk { std::vector<std::pair<int, bool>> all; std::map<int, int> where; };
static Disk disk(const std::string& base, const std::vector<std::string>& recs, const std::set<int>& hurt, const std::string& h) {
    Disk d; for (int i = 12; i >= 0; i--) {
        std::string n = base, c; if (i) n += "." + std::to_string(i); if (!env().get(n, c)) continue;
        for (size_t p = 0; p < c.size();) { int s = c[p] - 'A'; if (s < 0 || s >= (int)recs.size()) sx_fail("after%s: %s holds bytes of no record: %s", h.c_str(), n.c_str(), sx_esc(c).c_str()); const std::string& r = recs[(size_t)s];
            if (c.compare(p, r.size(), r) == 0) { d.all.push_back({s, true}); d.where[s] = i; p += r.size(); continue; }
            size_t l = 0; while (l < r.size() && p + l < c.size() && c[p + l] == r[l]) l++;
            if (!hurt.count(s)) sx_fail("after%s: %s holds a torn record %d that no failure touched: %s", h.c_str(), n.c_str(), s, sx_esc(c).c_str()); p += l; d.all.push_back({s, false}); } }
    for (size_t i = 1; i < d.all.size(); i++) if (d.all[i].first <= d.all[i - 1].first) sx_fail("after%s: record %d of %s is out of order or twice", h.c_str(), d.all[i].first, base.c_str());
    return d;
}
static std::string dev_cfg(const Dev& d, int n, const std::string& path, const char* extra = "") { return sx_fmt("    -device: %d\n        disable: false\n        out_type: file\n        file: %s\n%s        rollback: %d\n        stuff_up: %s\n%s", n, d.base.c_str(), path.empty() ? "" : ("        path: " + path + "\n").c_str(), d.k, d.stuff ? "true" : "false", extra); }
static void file_history(int steps, int budget, bool daily, bool small, int chain = 0) {   // chain: so many backups from before
    static const std::vector<Dev> D = {{"v", 0, 0, false}, {"v", 20 * UNIT, 1, false}, {"v", 20 * UNIT, 2, true}, {"v", 20 * UNIT, 2, false}};
    Dev v = chain ? Dev{"v", 20 * UNIT, chain, sx_choose(2) == 1} : sx_pick(D); bool path = !small && sx_choose(2); std::string base = path ? "./p/q/v.log" : "v.log"; Plan pl; pl.budget = budget;
    bool pre = chain || sx_choose(2);
    { Fx f; std::vector<std::string> vr; std::set<int> hurt; std::map<int, bool> must; long long hold = -1; Dev o1{"o", 0, 0, false}, o2{"w", 20 * UNIT, 1, false};
        for (int q = 0; q < chain; q++) { std::string r = rec(12 * UNIT, q); vr.push_back(r); env().put(base + "." + std::to_string(chain - q), r, 1); }
        if (pre) { std::string r = rec(12 * UNIT, chain); vr.push_back(r); env().put(base, r, 1); } else vr.push_back(rec(12 * UNIT, 0));
        f.start(" - channel: 0\n    sync: sync\n" + dev_cfg(v, 0, path ? "./p/q" : "", daily ? "        rolldaily: true\n" : "") + dev_cfg(o1, 1, "") + " - channel: 1\n    sync: sync\n" + dev_cfg(o2, 0, ""));
        SetDeviceConfig(*f.lg, 0, 0, DEVICE_CFG_FILE_LIMIT_SIZE, v.limit); SetDeviceConfig(*f.lg, 1, 0, DEVICE_CFG_FILE_LIMIT_SIZE, 20 * UNIT);
        pl.mine = [&](const char* op, const std::string& p) { if (!strcmp(op, "access")) return false; return p.find("v.log") != std::string::npos || p == "p" || p == "p/q" || (path && (p == "p/q/")); }; pl.install();
        std::string h = sx_fmt(" [limit %d rollback %d%s%s%s]", v.limit, v.k, v.stuff ? " stuff_up" : "", daily ? " daily" : "", pre ? " file from before" : ""), other; std::vector<std::string> wr; if (pre) must[0] = true; steps += chain;
        for (int i = 1 + chain; i <= steps; i++) {
            static const int GAP[] = {0, 4, 5, 86400}; int g = i == 1 + chain ? 0 : sx_choose(daily ? 4 : 3); int ch = 0; env().advance_ms(GAP[g] * 1000LL); long long t = env().now_us / 1000000;
            int sz = small ? 11 * UNIT : sx_choose(2) ? 9 * UNIT : 20 * UNIT; std::string r = rec(sz, i); vr.push_back(r); h += sx_fmt(" +%ds,%d", GAP[g], sz);
            Disk before = disk(base, vr, hurt, h); long long wl = f.dlog(0, 0, DEVICE_LOG_TOTAL_WRITE_LINE), wb = f.dlog(0, 0, DEVICE_LOG_TOTAL_WRITE_BYTE);
            pl.fired = 0; pl.ops.clear(); pl.persist.clear(); pl.log.clear(); pl.active = true; bool throttled = t < hold;
            if (!f.log(0, 2, 0, 0, r.substr(0, r.size() - 1))) sx_fail("after%s: a record is refused", h.c_str()); pl.active = false; pl.persist.clear(); h += pl.log; sx_op();
            other += r; wr.push_back(r); if (!f.log(1, 2, 0, 0, r.substr(0, r.size() - 1))) sx_fail("after%s: a record of the other channel is refused", h.c_str()); sx_op();
            if (pl.fired) hurt.insert(i);
            Disk d = disk(base, vr, hurt, h); bool there = d.where.count(i);
            if (!pl.fired && !throttled && !there) sx_fail("after%s: no call failed, the retry delay is over, but record %d is not in the file", h.c_str(), i);
            if (pl.ops.count("fopen") || pl.ops.count("fstat")) hold = t + 5; else if (!throttled) hold = -1;    // an open that failed is tried again 5 s later
            if (pl.fired && !pl.ops.count("fopen") && !pl.ops.count("fstat") && !pl.ops.count("write") && !throttled && !there && !(path && (pl.ops.count("mkdir") || pl.ops.count("opendir")))) sx_fail("after%s: the record is lost although the file could be opened and written", h.c_str());
            if (!there && path && (pl.ops.count("mkdir") || pl.ops.count("opendir"))) hold = t + 5;
            // what was on the disk stays there unless it was in the oldest backup and a rotation took place
            for (auto& x : before.where) if (!d.where.count(x.first)) { if (v.k == 0 && v.limit == 0) sx_fail("after%s: record %d vanished", h.c_str(), x.first); if (x.second != v.k) sx_fail("after%s: record %d vanished; it was in backup %d of %d", h.c_str(), x.first, x.second, v.k); }
            for (auto& x : d.where) if (before.where.count(x.first) && (x.second < before.where[x.first] || x.second > before.where[x.first] + 1)) sx_fail("after%s: record %d moved from backup %d to %d", h.c_str(), x.first, before.where[x.first], x.second);
            if (!pl.fired) { long long dl = f.dlog(0, 0, DEVICE_LOG_TOTAL_WRITE_LINE) - wl, db = f.dlog(0, 0, DEVICE_LOG_TOTAL_WRITE_BYTE) - wb; if (dl != (there ? 1 : 0) || db != (there ? (long long)r.size() : 0)) sx_fail("after%s: the write counters grew by %lld lines, %lld bytes for a record that was %swritten", h.c_str(), dl, db, there ? "" : "not "); }
            if (!pl.fired && there && !hurt.count(i - 1) && v.limit && i > 1) { std::string c; env().get(base, c); if ((int)c.size() > v.limit && (int)c.size() > sz) { bool clean = true; for (int q = 0; q <= i; q++) if (hurt.count(q)) clean = false; if (clean) sx_fail("after%s: the file is over its limit", h.c_str()); } }
            std::string oc; env().get("o.log", oc); if (oc != other) sx_fail("after%s: the other device of the channel holds %s expected %s", h.c_str(), sx_esc(oc).c_str(), sx_esc(other).c_str());
            std::string w0, w1; env().get("w.log", w0); env().get("w.log.1", w1); std::string tail; { std::vector<std::vector<std::string>> fl(1); size_t n = 0; for (auto& q : wr) { if (n && n + q.size() > 20 * UNIT) { fl.emplace_back(); n = 0; } fl.back().push_back(q); n += q.size(); } std::string c0, c1; for (auto& q : fl.back()) c0 += q; if (fl.size() > 1) for (auto& q : fl[fl.size() - 2]) c1 += q; if (w0 != c0 || w1 != c1) sx_fail("after%s: the other channel holds %s and %s", h.c_str(), sx_esc(w1).c_str(), sx_esc(w0).c_str()); }
            if (env().open_files > 3 || env().open_dirs) sx_fail("after%s: %d files and %d directories are open", h.c_str(), env().open_files, env().open_dirs);
        }
        pl.active = true; pl.fired = 0; f.stop(); pl.active = false; if (env().open_files || env().open_dirs) sx_fail("after%s stop: %d files open", h.c_str(), env().open_files); int r = StartLogger(*f.lg); if (r) sx_fail("after%s: start %d", h.c_str(), r);
        env().advance_ms(6000); std::string rr = rec(9 * UNIT, steps + 1); vr.push_back(rr); f.log(0, 2, 0, 0, rr.substr(0, rr.size() - 1)); if (!disk(base, vr, hurt, h).where.count(steps + 1)) sx_fail("after%s: a restarted logger does not write", h.c_str()); f.stop();
    }
    if (env().open_files || env().open_dirs) sx_fail("files are left open");
}
SX_SUITE(file_one_fault, 60, 200, 0) { file_history(sx_thorough() ? 6 - (UNIT > 1) : 4 - (UNIT > 1), 1, false, false); }
SX_SUITE(file_two_faults, 100, 600, 0) { file_history(sx_thorough() ? 5 : 3, sx_thorough() ? 3 : 2, false, true); }
SX_SUITE(backup_faults, 60, 300, 0) { file_history(sx_thorough() ? 4 : 3, sx_thorough() ? 3 : 2, false, true, 3 + sx_choose(2)); }
SX_SUITE(daily_faults, 60, 300, 0) { file_history(sx_thorough() ? 4 : 3, sx_thorough() ? 2 : 1, true, true); }
#if UNIT == 1
// a UDP device among others
static void udp_history(int steps, int budget) {
    Plan pl; pl.budget = budget; pl.mine = [](const char* op, const std::string&) { return !strcmp(op, "socket") || !strcmp(op, "fcntl") || !strcmp(op, "sendto"); };
    { Fx f; f.start(" - channel: 0\n    sync: sync\n    -device: 0\n        disable: false\n        out_type: udp\n        udp_addr: 127.0.0.1:9000\n    -device: 1\n        disable: false\n        out_type: file\n        file: o\n - channel: 1\n    sync: sync\n    -device: 0\n        disable: false\n        out_type: udp\n        udp_addr: 127.0.0.1:9001\n");
        pl.install(); std::string h, other; std::vector<std::string> got, got1; long long try_at = -100; bool open = false; size_t seen = 0; int osock = -1; long long lost = 0, wl = 0, wb = 0;
        for (int i = 0; i < steps; i++) {
            static const int GAP[] = {0, 1, 3}; int g = i ? sx_choose(3) : 0; env().advance_ms(GAP[g] * 1000LL); long long t = env().now_us / 1000000; std::string r = rec(9, i); h += sx_fmt(" +%d", GAP[g]); pl.fired = 0; pl.ops.clear(); pl.log.clear(); pl.active = true; pl.persist.clear(); if (!f.log(0, 2, 0, 0, r.substr(0, 8))) sx_fail("refused"); pl.active = false; h += pl.log; other += r; sx_op(2); f.log(1, 2, 0, 0, r.substr(0, 8));
            for (auto& d : env().sent) if (ntohs(d.port) == 9001) osock = d.sock;
            bool can = open || t > try_at + 2; if (!open && can) { try_at = t; open = !pl.ops.count("socket"); if (pl.ops.count("fcntl")) { open = false; for (auto& k : env().socks) if (k.first != osock) { open = true; if (!k.second.nonblock) sx_fail("after%s: a socket in blocking mode is used", h.c_str()); } } }   // reading the old flags may fail without harm

            bool sent = false, sent1 = false; for (; seen < env().sent.size(); seen++) { auto& d = env().sent[seen]; if (d.data != r) sx_fail("after%s: a datagram holds %s", h.c_str(), sx_esc(d.data).c_str()); (ntohs(d.port) == 9000 ? sent : sent1) = true; }
            if (!sent1) sx_fail("after%s: the other channel lost a record", h.c_str());
            if (sent != (open && !pl.ops.count("sendto"))) sx_fail("after%s: the datagram is %s", h.c_str(), sent ? "sent although the socket failed" : "not sent although nothing fails and the retry delay is over");
            if (sent) { wl++; wb += 9; } else lost++;
            if (f.dlog(0, 0, DEVICE_LOG_TOTAL_WRITE_LINE) != wl || f.dlog(0, 0, DEVICE_LOG_TOTAL_WRITE_BYTE) != wb || f.dlog(0, 0, DEVICE_LOG_TOTAL_LOSE_LINE) != lost) sx_fail("after%s: counters: %lld lines %lld bytes written, %lld lost; actually %lld, %lld, %lld", h.c_str(), f.dlog(0, 0, DEVICE_LOG_TOTAL_WRITE_LINE), f.dlog(0, 0, DEVICE_LOG_TOTAL_WRITE_BYTE), f.dlog(0, 0, DEVICE_LOG_TOTAL_LOSE_LINE), wl, wb, lost);
            std::string oc; env().get("o.log", oc); if (oc != other) sx_fail("after%s: the file device holds %s", h.c_str(), sx_esc(oc).c_str()); if (env().socks.size() > 2) sx_fail("after%s: %zu sockets are open", h.c_str(), env().socks.size());
        }
        f.stop(); }
    if (!env().socks.empty() || env().open_files) sx_fail("sockets are left open");
}
SX_SUITE(udp_faults, 60, 300, 0) { udp_history(sx_thorough() ? 7 : 5, sx_thorough() ? 3 : 2); }
// a UDP input whose socket cannot be opened, bound or read: records still flow, and the input comes back
SX_SUITE(udp_input_faults, 60, 300, 0) {
    Plan pl; pl.budget = sx_thorough() ? 3 : 2; pl.mine = [](const char* op, const std::string&) { return !strcmp(op, "socket") || !strcmp(op, "fcntl") || !strcmp(op, "bind") || !strcmp(op, "recvfrom"); };
    { Fx f; f.start(" - channel: 0\n    sync: sync\n    -device: 0\n        disable: false\n        in_type: udp\n        udp_addr: 127.0.0.1:9000\n        out_type: file\n        file: in\n    -device: 1\n        disable: false\n        out_type: file\n        file: o\n"); pl.install(); std::string h; int n = 5, fed = 0; std::string want;
        for (int i = 0; i < n; i++) { static const int GAP[] = {0, 3}; if (i) { int g = sx_choose(2); env().advance_ms(GAP[g] * 1000LL); h += sx_fmt(" +%d", GAP[g]); } pl.active = true; pl.persist.clear(); pl.log.clear(); std::string r = rec(9, i); if (!f.log(0, 2, 0, 0, r.substr(0, 8))) sx_fail("refused"); want += r; sx_op(); pl.active = false; h += pl.log; std::string c; env().get("o.log", c); if (c != want) sx_fail("after%s: file %s", h.c_str(), sx_esc(c).c_str()); if (env().socks.size() > 1) sx_fail("after%s: %zu sockets", h.c_str(), env().socks.size()); }
        env().advance_ms(3000); f.log(0, 2, 0, 0, "x"); want += "x\n"; bool b = false; for (auto& s : env().socks) if (s.second.bound) b = true; if (!b) sx_fail("after%s: the input is not listening again", h.c_str()); env().feed(htons(9000), "fed\n"); f.log(0, 2, 0, 0, "y"); f.log(0, 2, 0, 0, "z"); std::string c; f.stop(); env().get("in.log", c); if (c.find("fed\n") == std::string::npos) sx_fail("after%s: a datagram is not received: %s", h.c_str(), sx_esc(c).c_str()); (void)fed; }
    if (!env().socks.empty() || env().open_files) sx_fail("sockets are left open");
}
#endif
#if UNIT > 1
// a handle that fails for ever (the volume was taken away and put back): a newly opened file can be written
SX_SUITE(stale_handle, 20, 60, 0) {
    static const std::vector<Dev> D = {{"v", 0, 0, false}, {"v", 0, 2, true}, {"v", 100 * UNIT, 2, false}}; Dev v = sx_pick(D); bool stale = false; std::string h; int n = sx_thorough() ? 7 : 5, at = sx_choose(n), kind = sx_choose(2); std::vector<std::string> vr; std::set<int> hurt;
    { Fx f; f.start(" - channel: 0\n    sync: sync\n" + dev_cfg(v, 0, "")); SetDeviceConfig(*f.lg, 0, 0, DEVICE_CFG_FILE_LIMIT_SIZE, v.limit); long long since = -1;
        env().fault = [&](const char* op, const std::string& p) -> int { if (p.find("v.log") == std::string::npos) return 0; if (!strcmp(op, "fopen")) stale = false; if (!strcmp(op, "write") && stale) { h += " write fails"; return kind ? -3 : EIO; } return 0; };
        for (int i = 0; i < n; i++) { static const int GAP[] = {0, 4, 6}; int g = i ? sx_choose(3) : 0; env().advance_ms(GAP[g] * 1000LL); long long t = env().now_us / 1000000; if (i == at) stale = true, hurt.insert(i), since = t; if (i == at && i == 0) { stale = false; } h += sx_fmt(" +%ds%s", GAP[g], i == at ? " the handle goes bad" : "");
            std::string r = rec(20 * UNIT, i); vr.push_back(r); if (!f.log(0, 2, 0, 0, r.substr(0, r.size() - 1))) sx_fail("after%s: refused", h.c_str()); if (i == at && i == 0) stale = true; if (since >= 0 && i != at && t <= since + 6 && hurt.size() < 2 && (int)i == at + 1 && at == 0) { hurt.insert(i); since = t; } sx_op();
            if (since < 0 || t > since + 5) { if (!disk("v.log", vr, hurt, h).where.count(i)) sx_fail("after%s: record %d is not in the file although it can be opened and written", h.c_str(), i); } else hurt.insert(i); }
        env().advance_ms(6000); std::string r = rec(20 * UNIT, n); vr.push_back(r); f.log(0, 2, 0, 0, r.substr(0, r.size() - 1)); if (at < n - 1 || at > 0) if (!disk("v.log", vr, hurt, h).where.count(n)) sx_fail("after%s: 6 seconds later the file is not written", h.c_str()); f.stop(); }
    if (env().open_files) sx_fail("files are left open");
}
#endif
// an asynchronous channel: a batch with a failing call at every position; what was flushed before or written after is whole
SX_SUITE(async_faults, 60, 300, 0) {
    int at = sx_choose(24), kind = sx_choose(3), n = 4; std::string h = sx_fmt(" [call %d fails, kind %d]", at, kind); int cnt = 0; bool on = false; std::set<int> hurt; std::vector<std::string> vr, orr;
    { Fx f; f.start(" - channel: 0\n    -device: 0\n        disable: false\n        out_type: file\n        file: v\n        rollback: 1\n    -device: 1\n        disable: false\n        out_type: file\n        file: o\n"); SetDeviceConfig(*f.lg, 0, 0, DEVICE_CFG_FILE_LIMIT_SIZE, 100 * UNIT);
        env().fault = [&](const char* op, const std::string& p) -> int { if (p.find("v.log") == std::string::npos) return 0; int c = cnt++; return c == at || (kind == 1 && c > at && c < at + 3) ? (kind == 2 && !strcmp(op, "write") ? -3 : ENOSPC) : 0; };
        std::string all; for (int i = 0; i < n; i++) { std::string r = rec(20 * UNIT, i); vr.push_back(r); hurt.insert(i); all += r; if (!f.log(0, 2, 0, 0, r.substr(0, r.size() - 1))) sx_fail("refused"); sx_op(); while (f.clog(0, CHANNEL_LOG_PROCESSED) != i + 1) usleep(50); }
        if (f.stop()) sx_fail("%s stop fails", h.c_str()); std::string o; env().get("o.log", o); if (o != all) sx_fail("%s: the other device holds %s", h.c_str(), sx_esc(o).c_str()); disk("v.log", vr, hurt, h); env().fault = nullptr; env().advance_ms(6000);
        if (StartLogger(*f.lg)) sx_fail("start"); std::string r = rec(20 * UNIT, n); vr.push_back(r); f.log(0, 2, 0, 0, r.substr(0, r.size() - 1)); while (f.clog(0, CHANNEL_LOG_PROCESSED) != n + 1) usleep(50); f.stop(); if (!disk("v.log", vr, hurt, h).where.count(n)) sx_fail("%s: not written after the failure is gone", h.c_str()); }
    if (env().open_files) sx_fail("files are left open");
}
