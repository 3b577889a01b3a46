// C11: size-limited files rotate without losing, repeating or reordering a record
#include "fx.h"
struct Conf { int limit, k; bool stuff; int path; };
static std::string cfg_of(const Conf& c) { return one_file(sx_fmt("        rollback: %d\n        stuff_up: %s\n%s", c.k, c.stuff ? "true" : "false", c.path ? "        path: ./d/e\n" : "").c_str()); }
struct Ref { std::vector<std::vector<std::string>> gen; bool open = false; };      // gen[0] is the current file, gen[i] the i-th backup
static size_t size_of(const std::vector<std::string>& f) { size_t n = 0; for (auto& r : f) n += r.size(); return n; }
static std::string join(const std::vector<std::string>& f) { std::string s; for (auto& r : f) s += r; return s; }
static const char* base(const Conf& c) { return c.path ? "./d/e/a.log" : "a.log"; }
static void check(const Conf& c, const Ref& m, const std::string& h, std::vector<std::string>& all) {
    std::string got_all, want_all;
    for (size_t i = m.gen.size() > 0 ? 12 : 12; i-- > 0;) { std::string n = base(c); if (i) n += "." + std::to_string(i); std::string g; bool e = env().get(n, g); bool we = i < m.gen.size(); got_all += g;
        if (e != we) sx_fail("after %s: %s %s", h.c_str(), n.c_str(), e ? "exists" : "is missing"); if (we && g != join(m.gen[i])) sx_fail("after %s: %s holds %s expected %s", h.c_str(), n.c_str(), sx_esc(g).c_str(), sx_esc(join(m.gen[i])).c_str()); }
    // the property itself, independent of the model of the rotation: whole newest records, contiguous and in order
    std::string tail; for (auto& r : all) tail += r; if (got_all.size() > tail.size() || tail.compare(tail.size() - got_all.size(), std::string::npos, got_all)) sx_fail("after %s: backups and file together are not the newest records: %s", h.c_str(), sx_esc(got_all).c_str());
    if ((int)m.gen.size() > c.k + 1) sx_fail("more than %d backups", c.k);
    for (auto& f : m.gen) if (f.size() > 1 && (int)size_of(f) > c.limit) sx_fail("model: file over the limit");
    for (auto& p : env().files()) if (p.find("a.log") == std::string::npos && p.find("cmdline") == std::string::npos && p.find("proc") == std::string::npos) sx_fail("stray file %s", p.c_str());
}
static void rotate(Ref& m, int k) { if (m.gen.empty()) return; m.gen.insert(m.gen.begin(), std::vector<std::string>()); if ((int)m.gen.size() > k + 1) m.gen.resize((size_t)k + 1); }
static std::string rec(int n, int seq) { std::string s; for (int i = 0; i < n - 1; i++) s += (char)(i == 0 ? 'A' + seq % 26 : 'a' + (seq * 5 + i) % 26); return s + "\n"; }
static void history(int depth, const std::vector<Conf>& confs, const std::vector<int>& sizes, bool restarts) {
    Conf c = sx_pick(confs); int start_with = sx_choose(2); Ref m; std::vector<std::string> all; std::string h = sx_fmt("[limit %d rollback %d%s]", c.limit, c.k, c.stuff ? " stuff_up" : ""); int seq = 0;
    auto fx = std::unique_ptr<Fx>(new Fx()); auto begin = [&] { fx->start(cfg_of(c)); SetDeviceConfig(*fx->lg, 0, 0, DEVICE_CFG_FILE_LIMIT_SIZE, c.limit); m.open = false; };
    if (start_with) { int n = c.limit > 4 ? c.limit * 3 / 5 : 2; std::string r = rec(n, 25); env().put(base(c), r, 1); if (c.path) { } m.gen.push_back({r}); all.push_back(r); }
    begin();
    for (int i = 0; i < depth; i++) {
        uint64_t st = sx_hash(&c, sizeof c.limit + sizeof c.k); st = sx_hash(&m.open, 1, st) * 31 + (c.stuff ? 7 : 0) + (c.path ? 13 : 0); for (auto& f : m.gen) { for (auto& r : f) st = st * 1000003 + r.size(); st = st * 31 + 17; } if (sx_seen(st, depth - i)) return;
        int o = sx_choose((int)sizes.size() + (restarts ? 3 : 0));
        if (o < (int)sizes.size()) {
            int n = sizes[(size_t)o]; std::string r = rec(n, seq++); h += sx_fmt(" %d", n); fx->log(0, 2, 0, 0, r.substr(0, r.size() - 1)); sx_op(); all.push_back(r);
            bool full = !m.gen.empty() && (int)size_of(m.gen[0]) + n > c.limit;
            if (!m.open) { if (!c.stuff || full) rotate(m, c.k); m.open = true; } else if (full) rotate(m, c.k);
            if (m.gen.empty()) m.gen.emplace_back(); m.gen[0].push_back(r);
        } else if (o == (int)sizes.size()) { h += " stop+start"; if (fx->stop()) sx_fail("stop"); int r = StartLogger(*fx->lg); if (r) sx_fail("start %d", r); m.open = false; sx_op(2); }
        else if (o == (int)sizes.size() + 1) { h += " new-process"; fx->stop(); fx.reset(new Fx()); begin(); sx_op(2); }
        else { h += " reconfigured"; fx->stop(); c.stuff = !c.stuff; begin(); sx_op(2); }
        check(c, m, h, all);
    }
    fx->stop(); check(c, m, h, all); if (env().open_files) sx_fail("after %s: a file is still open", h.c_str());
}
static std::vector<Conf> confs(std::vector<int> limits, std::vector<int> ks) { std::vector<Conf> v; for (int l : limits) for (int k : ks) for (int s = 0; s < 2; s++) v.push_back({l, k, (bool)s, (l + k) % 2}); return v; }
SX_SUITE(sizes, 100, 900, 0) { history(sx_thorough() ? 9 : 6, confs({20}, {1, 2, 3}), {2, 9, 10, 11, 20, 21, 40}, true); }
SX_SUITE(small_limits, 60, 300, 0) { history(sx_thorough() ? 8 : 6, confs({1, 2, 3, 4}, {1, 2, 5}), {1, 2, 3, 5}, true); }
SX_SUITE(many_backups, 60, 300, 0) { history(sx_thorough() ? 30 : 16, confs({10}, {4, 5, 9, 10, 11}), {10}, true); }
SX_SUITE(every_size, 60, 300, 0) { std::vector<int> s; for (int i = 1; i <= 31; i++) s.push_back(i); history(sx_thorough() ? 4 : 3, confs({15}, {2}), s, true); }
SX_SUITE(large_records, 60, 300, 0) { history(sx_thorough() ? 7 : 5, confs({639, 1000, 640}, {1, 2}), {1, 320, 361, 638, 639}, true); }
// no limit, or no backups: nothing is lost within a run; a run keeps one earlier file
SX_SUITE(no_limit, 60, 100, 0) {
    int k = sx_choose(3), limit = sx_choose(2) * 10; bool stuff = sx_choose(2); if (k && limit) return; Conf c{limit, k, stuff, 0}; std::string cur; std::vector<std::string> gens; bool ex = false; auto fx = std::unique_ptr<Fx>(new Fx()); bool open = false; auto begin = [&] { fx->start(cfg_of(c)); SetDeviceConfig(*fx->lg, 0, 0, DEVICE_CFG_FILE_LIMIT_SIZE, limit); open = false; }; begin(); std::string h; int seq = 0;
    for (int i = 0; i < 8; i++) { if (sx_choose(3)) { std::string r = rec(6, seq++); fx->log(0, 2, 0, 0, r.substr(0, 5)); if (!open && ex && (k || limit) && !stuff) { gens.insert(gens.begin(), cur); cur = ""; if ((int)gens.size() > std::max(k, 1)) gens.pop_back(); } open = ex = true; cur += r; h += " log"; } else { fx->stop(); fx.reset(new Fx()); begin(); h += " restart"; }
        sx_op(); for (int g = 0; g < 5; g++) { std::string n = g ? sx_fmt("a.log.%d", g) : "a.log", d; bool e = env().get(n, d); bool w = g ? g <= (int)gens.size() : ex; if (e != w || (w && d != (g ? gens[(size_t)g - 1] : cur))) sx_fail("rollback %d limit %d%s, after%s: %s %s %s", k, limit, stuff ? " stuff_up" : "", h.c_str(), n.c_str(), e ? "holds" : "is missing", sx_esc(d).c_str()); } }
    fx->stop();
}
// two devices, one on each channel and one with the other's name as a prefix: their files do not mix
SX_SUITE(two_devices, 60, 200, 0) {
    Fx f; f.start(" - channel: 0\n    sync: sync\n    -device: 0\n        disable: false\n        out_type: file\n        file: a\n        rollback: 2\n    -device: 1\n        disable: false\n        out_type: file\n        file: a.log\n        rollback: 1\n        priority: warn\n - channel: 1\n    sync: sync\n    -device: 0\n        disable: false\n        out_type: file\n        file: aa\n        rollback: 1\n");
    for (int c = 0; c < 2; c++) for (int d = 0; d < 2 - c; d++) SetDeviceConfig(*f.lg, c, d, DEVICE_CFG_FILE_LIMIT_SIZE, 12); std::vector<std::vector<std::string>> g[3]; int K[3] = {2, 1, 1}; const char* nm[3] = {"a.log", "a.log.log", "aa.log"}; int n = sx_thorough() ? 9 : 8;
    for (int i = 0; i < n; i++) { int o = sx_choose(4), ch = o == 3; std::string r = rec(o == 1 ? 8 : 5, i); f.log(ch, o == 2 ? 4 : 2, 0, 0, r.substr(0, r.size() - 1)); sx_op(); auto put = [&](int x) { auto& v = g[x]; if (!v.empty() && size_of(v[0]) + r.size() > 12) { v.insert(v.begin(), std::vector<std::string>()); if ((int)v.size() > K[x] + 1) v.resize((size_t)K[x] + 1); } if (v.empty()) v.emplace_back(); v[0].push_back(r); }; if (ch) put(2); else { put(0); if (o == 2) put(1); }
        for (int x = 0; x < 3; x++) for (size_t k = 0; k < 4; k++) { std::string p = nm[x]; if (k) p += "." + std::to_string(k); std::string d; bool e = env().get(p, d); if (e != (k < g[x].size()) || (e && d != join(g[x][k]))) sx_fail("%s %s %s", p.c_str(), e ? "holds" : "is missing", sx_esc(d).c_str()); } }
    f.stop();
}
// the limit changed while running: obeyed from the next record on
SX_SUITE(limit_changes, 60, 200, 0) {
    Fx f; f.start(one_file("        rollback: 2\n")); int limit = 20; SetDeviceConfig(*f.lg, 0, 0, DEVICE_CFG_FILE_LIMIT_SIZE, limit); std::vector<std::vector<std::string>> v; std::string h; int n = sx_thorough() ? 8 : 7;
    for (int i = 0; i < n; i++) { int o = sx_choose(6); if (o >= 3) { static const int NL[] = {20, 11, 0}; limit = NL[o - 3]; SetDeviceConfig(*f.lg, 0, 0, DEVICE_CFG_FILE_LIMIT_SIZE, limit); h += sx_fmt(" limit=%d", limit); continue; } static const int N[] = {4, 10, 25}; std::string r = rec(N[o], i); f.log(0, 2, 0, 0, r.substr(0, r.size() - 1)); sx_op(); h += sx_fmt(" %d", N[o]);
        if (limit && !v.empty() && (int)(size_of(v[0]) + r.size()) > limit) { v.insert(v.begin(), std::vector<std::string>()); if (v.size() > 3) v.resize(3); } if (v.empty()) v.emplace_back(); v[0].push_back(r);
        for (size_t k = 0; k < 5; k++) { std::string p = "a.log"; if (k) p += "." + std::to_string(k); std::string d; bool e = env().get(p, d); if (e != (k < v.size()) || (e && d != join(v[k]))) sx_fail("after%s: %s %s %s", h.c_str(), p.c_str(), e ? "holds" : "is missing", sx_esc(d).c_str()); } }
    f.stop();
}
