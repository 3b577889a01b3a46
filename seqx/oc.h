// records whose composition is open at the same time: every sequence of begin and end steps of up to N records of one thread
#pragma once
#include "fx.h"
struct OC {
    enum { ND = 4 }; Fx f; bool async; std::vector<std::unique_ptr<LogStream>> s; std::vector<int> open; std::vector<long long> b, e; std::vector<int> prio, cat; long long now = 0; std::string hist; int base = 0;
    static std::string conf(const char* sync) { return std::string(" - channel: 0\n    sync: ") + sync + "\n    -device: 0\n        disable: false\n        out_type: file\n        file: a\n    -device: 1\n        disable: false\n        out_type: udp\n        udp_addr: 127.0.0.1:9001\n        priority: error\n    -device: 2\n        disable: false\n        out_type: file\n        file: b\n        category_wlist: 1\n    -device: 3\n        disable: false\n        out_type: file\n        file: c\n        rollback: 30\n        limit_size: 1\n - channel: 1\n    -device: 0\n        disable: false\n        out_type: file\n        file: z\n"; }
    OC(const char* sync, int pre) : async(strcmp(sync, "sync") != 0) { f.start(conf(sync)); for (int i = 0; i < pre; i++) { begin(i % 2 ? 2 : 4, i % 3 ? 1 : 0); end(0); if (async && i % 8 == 7) drain(); } base = pre; }
    static std::string text(int r) { return sx_fmt("R%03d", r) + std::string((size_t)(r * 37 % 200), (char)('a' + r % 26)) + "."; }
    bool takes(int d, int r) const { return d == 0 || d == 3 || (d == 1 && prio[(size_t)r] >= PRIORITY_ERROR) || (d == 2 && cat[(size_t)r] == 1); }
    void begin(int p, int c) { int r = (int)s.size(); hist += sx_fmt(" b%d", r); b.push_back(++now); prio.push_back(p); cat.push_back(c); { LogStream first(*f.lg, 0, p, c, 0, "", 0, 0, "", 0, LOG_PREFIX_NULL); s.emplace_back(new LogStream(std::move(first))); /* a record that is moved stays one record */ } if (!s.back()->log_data_) sx_fail("record %d is refused:%s", r, hist.c_str()); std::string t = text(r); s.back()->write_buffer(t.data(), (int)t.size()); e.push_back(0); open.push_back(r); sx_op(); }
    void end(int k) { int r = open[(size_t)k]; open.erase(open.begin() + k); hist += sx_fmt(" e%d", r); s[(size_t)r].reset(); e[(size_t)r] = ++now; sx_op(); }
    std::vector<std::string> out(int d) { std::vector<std::string> v; std::lock_guard<std::recursive_mutex> g(env().m); if (d == 1) { for (auto& x : env().sent) v.push_back(x.data.empty() || x.data.back() != '\n' ? x.data + "<no newline>" : x.data.substr(0, x.data.size() - 1)); return v; } if (d == 3) { for (int k = 60; k >= 0; k--) { std::string n = k ? sx_fmt("c.log.%d", k) : "c.log", x; if (env().get(n, x)) for (auto& l : lines(x)) v.push_back(l); } return v; } std::string x; env().get(d == 0 ? "a.log" : "b.log", x); return lines(x); }
    // until everything pushed is processed; records behind an open one wait for it
    void drain() { RingBuffer& r = f.lg->shm_->ring_buffers_[0]; for (int k = 0; k < 30000 && (r.read_idx_ != r.write_idx_ || f.clog(0, CHANNEL_LOG_PROCESSED) != f.clog(0, CHANNEL_LOG_PUSH)); k++) usleep(100); }
    // a queue's thread flushes its files when it has nothing else to do: what is missing may come
    void once(bool all) { for (int k = 0; async && !all && k < 20000 && missing(); k++) usleep(100); check(all); }
    bool missing() { int oldest = open.empty() ? (int)s.size() : open[0]; for (int d = 0; d < ND; d++) { size_t n = 0; for (int r = 0; r < oldest; r++) n += takes(d, r); if (out(d).size() < n) return true; } return false; }
    void check(bool all) { // every ended record that no open one precedes is output exactly once (after a stop: every one)
        for (int d = 0; d < ND; d++) { auto o = out(d); std::map<std::string, int> n; for (auto& x : o) n[x]++; int oldest = open.empty() ? (int)s.size() : open[0]; size_t known = 0;
            for (int r = 0; r < (int)s.size(); r++) { int c = n.count(text(r)) ? n[text(r)] : 0; known += c > 0; bool ended = e[(size_t)r] != 0, must = takes(d, r) && ended && (all || !async ? r < oldest || all : r < oldest); if (c > 1) sx_fail("device %d: record %d is output %d times:%s", d, r, c, hist.c_str()); if (c && !takes(d, r)) sx_fail("device %d does not take record %d, but outputs it:%s", d, r, hist.c_str()); if (c && !ended) sx_fail("device %d outputs record %d before it is complete:%s", d, r, hist.c_str()); if (must && !c) sx_fail("device %d: record %d, whose log call has returned, is not output:%s", d, r, hist.c_str()); }
            if (known != n.size()) for (auto& x : n) { bool is = false; for (int r = 0; r < (int)s.size(); r++) is |= x.first == text(r); if (!is) sx_fail("device %d outputs %s, which nobody logged:%s", d, sx_esc(x.first).c_str(), hist.c_str()); } }
    }
    void order() { for (int d = 0; d < ND; d++) { auto o = out(d); std::vector<int> id; for (auto& x : o) if (x.size() > 4 && x[0] == 'R') id.push_back(atoi(x.c_str() + 1)); for (size_t i = 0; i < id.size(); i++) for (size_t j = i + 1; j < id.size(); j++) if (e[(size_t)id[j]] && e[(size_t)id[j]] < b[(size_t)id[i]]) sx_fail("device %d outputs record %d before record %d, whose log call returned before the other's began:%s", d, id[i], id[j], hist.c_str()); } }
};
// all sequences of n begins and n ends
template<class F> static void oc_all(OC& w, int n, F each) { int begun = 0; while (begun < n || !w.open.empty()) { int o = sx_choose((int)w.open.size() + (begun < n ? 1 : 0)); if (o == (int)w.open.size()) { begun++; w.begin(begun % 2 ? PRIORITY_INFO : PRIORITY_ERROR, begun % 3 ? 1 : 0); } else w.end(o); each(); } }
