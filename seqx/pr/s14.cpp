// C14: histories of logging, open records, stuck output, crashes, recoveries and restarts on a queue in shared memory
// DEFS: -DFN_LOG_MAX_LOG_QUEUE_SIZE=13 -DFN_LOG_MAX_CHANNEL_SIZE=3 -DFN_LOG_MAX_DEVICE_SIZE=3
#include "fx.h"
#include <set>
static const char MARK[] = "!!!core recover!!!";
static const int KEY = 0x77;
// what a crash leaves: the segment, the files and what was sent. The process itself is ended in a world that is thrown away.
struct Crash {
    std::map<int, Env::Seg> seg; std::map<std::string, std::shared_ptr<Inode>> fs; std::vector<Dgram> sent; std::string screen;
    void take() { std::lock_guard<std::recursive_mutex> g(env().m); for (auto& s : env().shm) { if (s.second.removed) continue; Env::Seg c = s.second; c.mem = (char*)malloc(c.size); memcpy(c.mem, s.second.mem, c.size); c.attached = 0; seg[s.first] = c; } for (auto& f : env().fs) fs[f.first] = std::make_shared<Inode>(*f.second); sent = env().sent; }
    void give() { std::lock_guard<std::recursive_mutex> g(env().m); if (!env().shm.empty()) sx_fail("a normal end leaves the shared memory segment behind"); env().shm = seg; env().fs = fs; env().sent = sent; seg.clear(); }
    ~Crash() { for (auto& s : seg) free(s.second.mem); }
};
struct Rec { std::string text; int ch, prio, cat; long long b, e; bool cut; };
struct W {
    Logger* lg = nullptr; std::vector<Rec> r; std::vector<std::pair<int, std::unique_ptr<LogStream>>> open; long long now = 0; int crashes = 0; std::string hist; size_t sent_at = 0; std::vector<size_t> hand;
    std::function<std::string(int)> text = [](int i) { return sx_fmt("R%03d", i) + std::string((size_t)((i * 151 + 97) % 400), (char)('a' + i % 26)) + "."; };
    void up(const std::string& cfg) { lg = new Logger(); int k = ParseAndStartLogger(*lg, cfg); if (k) sx_fail("does not start (%d) after%s", k, hist.c_str()); env().take_screen(); }
    int begin(int ch, int prio, int cat) { int i = (int)r.size(); hist += sx_fmt(" b%d", i); r.push_back(Rec{text(i), ch, prio, cat, ++now, 0, false}); std::unique_ptr<LogStream> s(new LogStream(*lg, ch, prio, cat, 0, "", 0, 0, "", 0, LOG_PREFIX_NULL)); if (!s->log_data_) sx_fail("record %d is refused:%s", i, hist.c_str()); size_t h = r[(size_t)i].text.size() / 2; s->write_buffer(r[(size_t)i].text.data(), (int)h); s->write_buffer(r[(size_t)i].text.data() + h, (int)(r[(size_t)i].text.size() - h)); open.emplace_back(i, std::move(s)); sx_op(); return i; }
    void end(int k) { int i = open[(size_t)k].first; hist += sx_fmt(" e%d", i); auto s = std::move(open[(size_t)k].second); open.erase(open.begin() + k); s.reset(); r[(size_t)i].e = ++now; sx_op(); }
    bool idle() { for (int c = 0; c < lg->shm_->channel_size_; c++) { RingBuffer& q = lg->shm_->ring_buffers_[c]; if (q.read_idx_ != q.write_idx_) return false; } return true; }
    void settle() { for (int k = 0; k < 60000; k++) { if (env().held > 0) return; if (idle()) return; usleep(50); } sx_fail("the queue is not drained after%s", hist.c_str()); }
    void kill() { settle(); hist += " CRASH"; crashes++; Crash c; c.take(); for (auto& o : open) r[(size_t)o.first].cut = true; sent_at = c.sent.size(); if (sent_at && env().held > 0) hand.push_back(sent_at - 1);
        env().hold_port = 0; open.clear(); StopLogger(*lg); delete lg; lg = nullptr; c.give(); sx_op(); }
    // what one device has put out, against the records it takes
    void check(const std::string& dev, const std::vector<std::string>& o, std::function<bool(const Rec&)> takes, int first, bool all) {
        std::vector<int> n(r.size(), 0), at(r.size(), -1); int oldest = (int)r.size(); for (auto& x : open) oldest = std::min(oldest, x.first); int again = 0;
        for (size_t k = 0; k < o.size(); k++) { std::string x = o[k]; bool known = false; if ((int)x.size() > LogData::LOG_SIZE - 1) sx_fail("%s: a record of %zu bytes:%s", dev.c_str(), x.size(), hist.c_str());
            for (int i = 0; i < (int)r.size() && !known; i++) if (x == r[(size_t)i].text) { known = true; n[(size_t)i]++; if (at[(size_t)i] < 0) at[(size_t)i] = (int)k; if (!takes(r[(size_t)i]) && i >= first) sx_fail("%s does not take record %d but outputs it:%s", dev.c_str(), i, hist.c_str()); if (!r[(size_t)i].e && !r[(size_t)i].cut) sx_fail("%s outputs record %d before it is complete:%s", dev.c_str(), i, hist.c_str()); }
            size_t m = sizeof MARK - 1; if (!known && crashes && x.size() >= m && x.substr(x.size() - m) == MARK) { std::string t = x.substr(0, x.size() - m); for (int i = 0; i < (int)r.size() && !known; i++) if (r[(size_t)i].cut && !n[(size_t)i] && r[(size_t)i].text.compare(0, t.size(), t) == 0) { known = true; n[(size_t)i]++; } }
            if (!known) sx_fail("%s outputs %s after%s", dev.c_str(), sx_esc(x).c_str(), hist.c_str()); }
        for (int i = 0; i < (int)r.size(); i++) { const Rec& q = r[(size_t)i]; if (n[(size_t)i] > 1) again += n[(size_t)i] - 1; if (q.cut && n[(size_t)i] > 1) sx_fail("%s outputs record %d, in progress at the crash, %d times:%s", dev.c_str(), i, n[(size_t)i], hist.c_str());
            if (q.e && !q.cut && i >= first && takes(q) && (all || i < oldest) && !n[(size_t)i]) sx_fail("%s: record %d, whose log call had returned, is never output:%s", dev.c_str(), i, hist.c_str());
            for (int j = 0; j < (int)r.size(); j++) if (r[(size_t)j].ch == q.ch && at[(size_t)i] >= 0 && at[(size_t)j] >= 0 && r[(size_t)j].e && r[(size_t)j].e < q.b && at[(size_t)i] < at[(size_t)j]) sx_fail("%s outputs record %d before record %d:%s", dev.c_str(), i, j, hist.c_str()); }
        if (again > (int)hand.size()) sx_fail("%s outputs %d records again, %zu were being handed over at a crash:%s", dev.c_str(), again, hand.size(), hist.c_str());
    }
    std::vector<std::string> udp(int port) { std::vector<std::string> v; std::lock_guard<std::recursive_mutex> g(env().m); for (auto& d : env().sent) if (ntohs(d.port) == port) v.push_back(d.data.size() && d.data.back() == '\n' ? d.data.substr(0, d.data.size() - 1) : d.data + "<no newline>"); return v; }
    ~W() { env().hold_port = 0; open.clear(); if (lg) { StopLogger(*lg); delete lg; } }
};
static std::string two_udp(const char* sync, const char* more = "") { return sx_fmt("shm_key: %d\n - channel: 0\n    sync: %s\n    -device: 0\n        disable: false\n        out_type: udp\n        udp_addr: 127.0.0.1:9001\n    -device: 1\n        disable: false\n        out_type: udp\n        udp_addr: 127.0.0.1:9002\n        priority: error\n%s", KEY, sync, more); }
static bool any(const Rec&) { return true; }
static bool err(const Rec& q) { return q.prio >= PRIORITY_ERROR; }
static void history(int depth) {
    static const std::vector<int> PRE = {0, 9, 12}; int sync = sx_choose(2), pre = sx_pick(PRE), port = sync ? 0 : 9001 + sx_choose(2), stuck = 0; std::string cfg = two_udp(sync ? "sync" : "null"); W w; w.up(cfg);
    auto log = [&] { int i = (int)w.r.size(); w.begin(0, i % 2 ? PRIORITY_INFO : PRIORITY_ERROR, 0); w.end((int)w.open.size() - 1); };
    auto check = [&](bool all) { w.settle(); if (env().held > 0) return; w.check("device 0", w.udp(9001), any, 0, all); w.check("device 1", w.udp(9002), err, 0, all); };
    for (int i = 0; i < pre; i++) { log(); w.settle(); } w.hist = sx_fmt(" (%s queue at %d)", sync ? "synchronous" : "asynchronous", pre);
    for (int d = 0; d < depth; d++) {
        int o = sx_choose(6); int n = (int)w.open.size();
        if (o == 0) log(); else if (o == 1 && n < 3) w.begin(0, (int)w.r.size() % 2 ? PRIORITY_INFO : PRIORITY_ERROR, 0); else if (o == 2 && n) w.end(0); else if (o == 3 && n > 1) w.end(n - 1);
        else if (o == 4 && !sync) { w.settle(); stuck = !stuck; env().hold_port = stuck ? port : 0; w.hist += stuck ? " stuck" : " free"; if (!stuck) for (int k = 0; k < 20000 && env().held > 0; k++) usleep(50); } else if (o == 5 && d + 1 < depth) { w.kill(); stuck = 0; w.up(cfg); } else return;
        check(false);
    }
    w.kill(); w.up(cfg); check(true); for (int i = 0; i < 14; i++) { log(); check(true); } StopLogger(*w.lg); check(true); delete w.lg; w.lg = nullptr; if (!env().shm.empty()) sx_fail("a normal end leaves the shared memory segment behind:%s", w.hist.c_str());
}
SX_SUITE(histories, 90, 900, 0) { history(sx_thorough() ? 7 : 5); }
// a record in progress of every length next to complete ones, in places that longer records have used before
SX_SUITE(lengths, 40, 300, 0) {
    static std::vector<int> LEN; if (LEN.empty()) { for (int i = 0; i < 24; i++) LEN.push_back(i); for (int i = 300; i < 304; i++) LEN.push_back(i); for (int i = LogData::LOG_SIZE - 48; i < LogData::LOG_SIZE + 4; i++) LEN.push_back(i); }
    static const std::vector<int> O = {0, 30, LogData::LOG_SIZE - 2}; int l = sx_pick(LEN), before = sx_pick(O), after = sx_pick(O), pre = sx_choose(2) * 13, again = sx_choose(2); W w; std::string cfg = two_udp("null"); w.up(cfg);
    auto put = [&](int len) { w.text = [=](int i) { std::string s = sx_fmt("%02d", i); while ((int)s.size() < len) s += (char)('a' + (s.size() * 7 + (size_t)i) % 26); return s.substr(0, (size_t)std::min(len, LogData::LOG_SIZE - 2)); }; };
    for (int i = 0; i < pre; i++) { put(LogData::LOG_SIZE - 2); w.begin(0, PRIORITY_ERROR, 0); w.end(0); w.settle(); } w.hist = sx_fmt(" (length %d between %d and %d, %d before)", l, before, after, pre);
    if (before) { put(before); w.begin(0, PRIORITY_ERROR, 0); w.end(0); } put(l); w.begin(0, PRIORITY_ERROR, 0); if (after) { put(after); w.begin(0, PRIORITY_INFO, 0); w.end(1); } if (l == 0 && !before && !after) { w.end(0); return; }
    w.kill(); w.up(cfg); w.settle(); if (again) { w.kill(); w.up(cfg); w.settle(); }
    w.check("device 0", w.udp(9001), any, 0, true); put(40); w.begin(0, PRIORITY_ERROR, 0); w.end(0); w.settle(); w.check("device 0", w.udp(9001), any, 0, true); w.check("device 1", w.udp(9002), err, 0, true);
}
// the next start may have another configuration: its devices get what the crash left undelivered
struct Next { const char* what; std::string cfg; int n; int ch[4]; int port[4]; std::function<bool(const Rec&)> takes[4]; };
static std::string dev(int d, int port, const char* more = "") { return sx_fmt("    -device: %d\n        disable: false\n        out_type: udp\n        udp_addr: 127.0.0.1:%d\n%s", d, port, more); }
static std::string chan(int c, const char* more = "") { return sx_fmt(" - channel: %d\n%s", c, more); }
SX_SUITE(other_configuration, 60, 300, 0) {
    std::string K = sx_fmt("shm_key: %d\n", KEY); auto cat1 = [](const Rec& q) { return q.cat == 1; };
    std::vector<Next> N = {
        {"same", K + chan(0) + dev(0, 9001) + chan(1) + dev(0, 9011), 2, {0, 1}, {9001, 9011}, {any, any}},
        {"synchronous", K + chan(0, "    sync: sync\n") + dev(0, 9001) + chan(1, "    sync: sync\n") + dev(0, 9011), 2, {0, 1}, {9001, 9011}, {any, any}},
        {"other devices", K + chan(0) + dev(0, 9021) + dev(1, 9022, "        priority: error\n") + chan(1) + dev(0, 9011, "        category_wlist: 1\n"), 3, {0, 0, 1}, {9021, 9022, 9011}, {any, err, cat1}},
        {"third channel", K + chan(0) + dev(0, 9001) + chan(1) + dev(0, 9011) + chan(2) + dev(0, 9031), 3, {0, 1, 2}, {9001, 9011, 9031}, {any, any, any}},
        {"mixed, channel filters", K + chan(0, "    sync: sync\n    priority: fatal\n") + dev(0, 9001) + chan(1, "    category_wlist: 5\n") + dev(0, 9011), 2, {0, 1}, {9001, 9011}, {any, any}},
        {"one channel", K + chan(0) + dev(0, 9001), 1, {0}, {9001}, {any}} };
    static const std::vector<int> FIRST = {0, 1, 3}; const Next &A = N[(size_t)sx_pick(FIRST)], &B = sx_pick(N), &C = sx_pick(N); bool stuck = sx_choose(2) != 0, open0 = sx_choose(2) != 0, open1 = sx_choose(2) != 0; if (A.cfg.find("sync: sync") != std::string::npos) stuck = false;
    W w; w.hist = sx_fmt(" (%s, then %s, then %s)", A.what, B.what, C.what); w.up(A.cfg); if (stuck) env().hold_port = 9001;
    auto one = [&](int ch, bool leave) { int i = (int)w.r.size(); w.begin(ch, i % 3 ? PRIORITY_INFO : PRIORITY_ERROR, i % 2); if (!leave) w.end((int)w.open.size() - 1); };
    one(0, false); if (open0) one(0, true); one(0, false); one(0, false); if (open1) one(1, true); one(1, false); one(1, false); if (A.n > 2 && A.ch[2] == 2) one(2, false); w.settle(); for (int k = 0; k < 20000 && stuck && (env().held == 0 || [&]() { for (int c = 1; c < A.n; c++) { RingBuffer& q = w.lg->shm_->ring_buffers_[c]; if (q.read_idx_ != q.write_idx_) return true; } return false; }()); k++) usleep(50);
    // delivered before: what the first configuration's devices have
    std::set<std::string> had[3]; for (int d = 0; d < A.n; d++) for (auto& x : w.udp(A.port[d])) had[A.ch[d]].insert(x);
    for (int round = 0; round < 2; round++) { const Next& X = round ? C : B; w.kill(); size_t from = env().sent.size(); std::set<std::string> got[3]; w.up(X.cfg); w.settle();
        for (int d = 0; d < X.n; d++) { int c = X.ch[d]; std::map<std::string, int> n; { std::lock_guard<std::recursive_mutex> g(env().m); for (size_t k = from; k < env().sent.size(); k++) if (ntohs(env().sent[k].port) == X.port[d]) { n[env().sent[k].data.substr(0, env().sent[k].data.size() - 1)]++; } }
            for (auto& x : n) if (x.second > 1) sx_fail("%s: recovered record %s is output %d times:%s", X.what, sx_esc(x.first).c_str(), x.second, w.hist.c_str());
            int again = 0; for (auto& q : w.r) { bool here = n.count(q.text) != 0; if (here && (q.ch != c || q.cut)) sx_fail("%s: port %d outputs %s of channel %d:%s", X.what, X.port[d], sx_esc(q.text).c_str(), q.ch, w.hist.c_str()); if (q.ch != c || q.cut || !q.e) continue; bool old = had[c].count(q.text) != 0; if (here && !X.takes[d](q)) sx_fail("%s: port %d outputs %s, which it does not take:%s", X.what, X.port[d], sx_esc(q.text).c_str(), w.hist.c_str()); if (here && old) again++; if (!here && !old && X.takes[d](q)) sx_fail("%s: port %d does not output %s, undelivered at the crash:%s", X.what, X.port[d], sx_esc(q.text).c_str(), w.hist.c_str()); }
            if (again > (round == 0 && stuck ? 1 : 0)) sx_fail("%s: port %d outputs %d records again:%s", X.what, X.port[d], again, w.hist.c_str()); }
        for (int c = 0; c < 3; c++) { bool has = false; for (int d = 0; d < X.n; d++) has |= X.ch[d] == c; if (has) for (auto& q : w.r) if (q.ch == c) had[c].insert(q.text); }
    }
    for (int d = 0; d < C.n; d++) { size_t b = w.udp(C.port[d]).size(); LogStream(*w.lg, C.ch[d], PRIORITY_FATAL, C.ch[d] == 1 && &C == &N[4] ? 5 : 1, 0, "", 0, 0, "", 0, LOG_PREFIX_NULL) << "more"; w.settle(); auto o = w.udp(C.port[d]); if (o.size() != b + 1 || o.back() != "more") sx_fail("%s: channel %d does not work after the recovery:%s", C.what, C.ch[d], w.hist.c_str()); }
}
