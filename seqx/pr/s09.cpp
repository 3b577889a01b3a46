// C09: loading any configuration text terminates safely
#include "fx.h"
#include <algorithm>
// every allocation is filled with a pattern: a setting that is never written shows up
extern "C" const char* __asan_default_options() { return "max_malloc_fill_size=1073741824:malloc_fill_byte=90:detect_leaks=0"; }
static const char* const GOOD = " - channel: 0\n    sync: sync\n    -device: 0\n        disable: false\n        out_type: file\n        file: good\n";
static std::string head(const std::string& t) { return sx_esc(t, 700); }
// the parser by itself: returns, keeps inside the text, and what it accepts is well formed
static int parse(const std::string& t0, bool quiet = false) {
    std::string text(t0.data(), t0.size()); std::unique_ptr<LexState> ls(new LexState); sx_op(); if (sx_tracing()) sx_note("parse %s", sx_esc(t0, 3000).c_str());
    int r = ParseLogger(*ls, text); (void)quiet;
    if (text.size() != t0.size()) sx_fail("the text changes its size: %s", head(t0).c_str());
    if (ls->current_ < text.data() || ls->current_ > text.data() + text.size()) sx_fail("the parser stops outside the text: %s", head(t0).c_str());
    if (r) { int lim = 0; while (ls->current_ + lim < ls->end_ && ls->current_[lim]) lim++; if (ls->line_no_ < 0) sx_fail("line %d is reported", ls->line_no_); return r; }
    if (ls->channel_size_ < 0 || ls->channel_size_ > Logger::MAX_CHANNEL_SIZE) sx_fail("success with %d channels: %s", ls->channel_size_, head(t0).c_str());
    if (ls->shm_key_ == 0x5a5a5a5a5a5a5a5aLL || (t0.find("s") == std::string::npos && ls->shm_key_)) sx_fail("the shared memory key is %lld although none is set: %s", ls->shm_key_, head(t0).c_str());
    for (int c = 0; c < ls->channel_size_; c++) { Channel& ch = ls->channels_[c]; if (ch.channel_id_ != c || ch.device_size_ < 0 || ch.device_size_ > Channel::MAX_DEVICE_SIZE || (ch.channel_type_ != CHANNEL_SYNC && ch.channel_type_ != CHANNEL_ASYNC) || ch.virtual_device_id_ < 0 || ch.virtual_device_id_ >= Channel::MAX_DEVICE_SIZE) sx_fail("success with channel %d: id %d, %d devices, type %d: %s", c, ch.channel_id_, ch.device_size_, ch.channel_type_, head(t0).c_str());
        for (int d = 0; d < ch.device_size_; d++) { Device& dv = ch.devices_[d]; if (dv.device_id_ != d || strnlen(dv.out_file_, sizeof dv.out_file_) == sizeof dv.out_file_ || strnlen(dv.out_path_, sizeof dv.out_path_) == sizeof dv.out_path_) sx_fail("success with a device %d that is not well formed: %s", d, head(t0).c_str()); } }
    return 0;
}
// the whole way: a failure keeps the configuration that was there; afterwards a valid one starts and logs
static void whole(const std::string& t, bool file) {
    Fx f; f.start(std::string(GOOD)); f.log(0, 2, 0, 0, "a"); f.stop(); std::string before((char*)&f.lg->shm_->channels_, sizeof f.lg->shm_->channels_); int nch = f.lg->shm_->channel_size_; std::string nm(f.lg->name_, (size_t)f.lg->name_len_); bool hot = f.lg->hot_update_; long long key = f.lg->shm_key_; size_t segs = env().shm.size();
    if (sx_tracing()) sx_note("load %s", sx_esc(t, 3000).c_str());
    int r; if (file) { env().put("c.yaml", t); r = LoadAndStartLogger(*f.lg, "c.yaml"); } else r = ParseAndStartLogger(*f.lg, t); sx_op(); env().take_screen();
    if (r) {
        if (before != std::string((char*)&f.lg->shm_->channels_, before.size()) || f.lg->shm_->channel_size_ != nch || nm != std::string(f.lg->name_, (size_t)f.lg->name_len_) || hot != f.lg->hot_update_ || key != f.lg->shm_key_) sx_fail("error %d, but the previous configuration has changed: %s", r, head(t).c_str());
        if ((r = StartLogger(*f.lg))) sx_fail("the previous configuration does not start again (%d) after %s", r, head(t).c_str()); f.log(0, 2, 0, 0, "b"); f.stop(); if (f.file("good.log") + f.file("good.log.1") != "a\nb\n") sx_fail("after the error the logger wrote %s: %s", sx_esc(f.file("good.log")).c_str(), head(t).c_str());
    } else { int n = f.lg->shm_->channel_size_; for (int c = 0; c < n; c++) f.log(c, 2, 0, 0, "x"); f.stop(); }
    if (env().shm.size() != segs && t.find("shm") == std::string::npos) sx_fail("a shared memory segment was created: %s", head(t).c_str()); env().take_screen();
    if ((r = ParseAndStartLogger(*f.lg, GOOD))) sx_fail("a valid configuration does not start (%d) after %s", r, head(t).c_str()); f.log(0, 2, 0, 0, "c"); f.stop(); std::string g = f.file("good.log"); if (g.size() < 2 || g.substr(g.size() - 2) != "c\n") sx_fail("after a valid configuration the logger wrote %s: %s", sx_esc(g).c_str(), head(t).c_str()); env().take_screen();
}
// ---- bytes in every place of a text
static const std::vector<std::string> PRE = {"", "\xef\xbb\xbf", " - channel: 0\n", " - channel: 0\n    ", " - channel: 0\n    -device: 0\n        ", " - channel: ", " - channel: 0\n    -device: 0\n        file: ", " - channel: 0\n    category_wlist: ", " - channel: 0\n    -device: 0\n        disable: false\n        udp_addr: ", " - define: ", " - var: ", " - define: A", " - logger_name: \"", " - channel: 0\n    -device: 0\n        limit_size: ", "# ", " - channel: 0\n    cat"};
static const std::vector<std::string> SUF = {"", "\n - channel: 0\n", "\n        priority: info\n - channel: 1\n    sync: sync\n"};
static const std::string ALPHA = std::string(" \n\r\0-:#\"{}c1,=A$", 16);
SX_SUITE(bytes, 100, 600, 0) { const std::string& p = sx_pick(PRE); int n = sx_choose(sx_thorough() ? 7 : 6); std::string m; for (int i = 0; i < n; i++) m += ALPHA[(size_t)sx_choose((int)ALPHA.size())]; std::string t = p + m; if (t.size() < 16) t = std::string(16, '\n') + t; /* long enough for an allocation of its own, so that a read behind it is seen */ parse(t); if (n <= 4) for (auto& s : SUF) parse(p + m + s); }
SX_SUITE(all_bytes, 30, 60, 0) { const std::string& p = sx_pick(PRE); std::string m; m += (char)sx_choose(256); int k = sx_choose(4); if (k == 1) m += (char)sx_choose(256); if (k == 2) m = m + m + m; if (k == 3) m = "x" + m; parse(p + m + sx_pick(SUF)); }
// ---- sequences of lines
static const std::vector<std::string> LINES = {"", "   ", "# c", " - channel: 0", " - channel: 1", " - channel: 2", " - channel: -1", "channel: 0", "    sync: sync", "    sync", "    priority: fatal", "    -device: 0", "    -device: 1", "   - device: 3", "  -device: 9", "        disable: false", "        out_type: file", "        out_type: udp", "        out_type: null", "        udp_addr: 127.0.0.1:1", "        udp_addr: x", "        in_type: udp", "        file: \"q", "        path: a/b", "        bogus: 1", "zz", " - shm_key: 0", " - hot_update: true", " - var: A=1", " - define: X 1", "\xef\xbb\xbf", "    category_blist: 0-63", std::string("a\0b", 3), "\r", "        virtual: 1", "        out_type: virtual"};
static std::string lineseq(int depth) { std::string t; for (int i = 0; i < depth; i++) { if (i) t += '\n'; t += sx_pick(LINES); } return t; }
SX_SUITE(lines_parsed, 100, 600, 0) { parse(lineseq(sx_thorough() ? 5 : 4)); }
SX_SUITE(lines_started, 100, 600, 0) { int n = sx_thorough() ? 3 : 2; std::string t; switch (sx_choose(3)) { case 0: break; case 1: t = " - channel: 0\n    -device: 0\n"; break; case 2: t = " - channel: 0\n    sync: sync\n    -device: 0\n        disable: false\n"; break; } bool file = sx_choose(2); whole(t + lineseq(n), file); }
// ---- documents: truncated, every byte replaced, lines removed, doubled, exchanged
static const std::vector<std::string>& docs() {
    static std::vector<std::string> d; if (!d.empty()) return d;
    d.push_back("# comment \"x\" \n- define: LIST______ 0,1,2,3   # used\n- def: EMPTY______    \n\n- var: id = 234\n- var: id0 = 0, id1 =1    # var $id0\n- var: {key=\"sss\", val=999}\n - shm_key: 0x10\n - hot_update: true\n - logger_name: name\n - logger_desc: \"a desc\"\n - channel: 0\n    sync: async\n    priority: info\n    category: 2\n    category_extend: 10\n    category_wlist: {2,3,43}\n    identify_blist: 1-4,23\n    - device: 0\n        disable: false\n        out_type: file\n        file: \"$PNAME_$YEAR\"  #name\n        path: ./log/a\n        rollback: 4\n        limit_size: 100 m #M\n        stuff_up: true\n        rolldaily: true\n    - device: 1\n        disable: FALSE\n        in_type: udp\n        out_type: screen\n        udp_addr: 0.0.0.0:9000\n - channel: 1\n    sync: sync\n    - device: 0\n        disable: true\n        out_type: virtual\n        category: $id0\n        identify_wmask: ${id1}\n");
    d.push_back(" - channel: 0\r\n    sync: sync\r\n    -device:0\r\n        disable:false\r\n        out_type:udp\r\n        udp_addr:\"127.0.0.1:16666\"\r\n    -device: 1\r\n\tdisable: true\r\n");
    d.push_back("\xef\xbb\xbf - channel: 0\n    -device: 0\n        disable: false\n        out_type: empty");
    d.push_back(" - define: define1 $ai\n - define: define____________ define1, $ai_trace\n - channel: 0\n    -device: 0\n        category: 1\n - var: {ai=3, ai_trace=4}\n - channel: 1\n    -device: 0\n        category_wlist: define____________   # list\n");
    return d;
}
SX_SUITE(truncated, 30, 60, 0) { const std::string& d = sx_pick(docs()); std::string t = d.substr(0, (size_t)sx_choose((int)d.size() + 1)); parse(t); if (sx_choose(2)) whole(t, false); }
SX_SUITE(replaced, 60, 300, 0) { const std::string& d = sx_pick(docs()); size_t p = (size_t)sx_choose((int)d.size()); static const std::string B("\0\n\r\t #\"'{}[]:-,=$aZz09_\\\x7f\x80\xff", 27); std::string t = d; int b = sx_choose(sx_thorough() ? 256 : (int)B.size()); t[p] = sx_thorough() ? (char)b : B[(size_t)b]; parse(t); }
SX_SUITE(inserted, 60, 300, 0) { const std::string& d = sx_pick(docs()); size_t p = (size_t)sx_choose((int)d.size() + 1); static const std::vector<std::string> I = {std::string(1, '\0'), "\n", "\r", " ", "#", "\"", "-", ":", "\xef\xbb\xbf", "99999999999999999999", "- define: a a\n", "${id0}", "\n - channel: 0\n", "\n - channel: 1\n"}; std::string t = d; t.insert(p, sx_pick(I)); parse(t); }
SX_SUITE(removed, 30, 100, 0) { const std::string& d = sx_pick(docs()); size_t p = (size_t)sx_choose((int)d.size()), n = (size_t)(1 + sx_choose(sx_thorough() ? 40 : 8)); std::string t = d; t.erase(p, n); parse(t); }
SX_SUITE(line_edits, 60, 200, 0) { const std::string& d = sx_pick(docs()); std::vector<std::string> l = lines(d); size_t i = (size_t)sx_choose((int)l.size()), j = (size_t)sx_choose((int)l.size()); int how = sx_choose(4); if (how == 0) std::swap(l[i], l[j]); else if (how == 1) l.insert(l.begin() + (long)j, l[i]); else if (how == 2) { std::string x = l[i]; l.erase(l.begin() + (long)i); l.insert(l.begin() + (long)std::min(j, l.size()), x); } else { l[i] = std::string(j, ' ') + l[i].substr(std::min(l[i].size(), l[i].find_first_not_of(" "))); } std::string t; for (auto& x : l) t += x + "\n"; parse(t); }
// ---- values at and beyond every limit
static const std::vector<std::string> VAL = {"", "0", "-1", "63", "64", "65", "127", "255", "256", "1000", "65535", "65536", "2147483647", "2147483648", "-2147483648", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "18446744073709551615", "99999999999999999999999999", "9223372036854", "9223372036855", "0x7fffffffffffffff", "1e9", "0-63", "63-0", "0-64", "60-70", "0-2147483647", "2147483647-2147483647", "0-4294967295", "-5-3", "1-", "-", "--", "1--3", ",", ",,", "1,,2", "1,64,2", "{1", "1}", "[1]", "\"1\"", "a", "true", "1.2.3.4:5", "1.2.3.4", "1.2.3.4:", ":5", "1.2.3.4:99999", "1.2.3.4:123456789012345678901234567890123456789012345", "999.999.999.999:1", "localhost:1", "x:y", "1.2.3.4:0", "256.1.1.1:1", "::", "::1", " "};
static const std::vector<const char*> KEY = {"priority", "category", "category_extend", "category_wlist", "category_blist", "category_wmask", "category_bmask", "identify", "identify_extend", "identify_wlist", "identify_blist", "identify_wmask", "identify_bmask", "sync", "disable", "in_type", "out_type", "file", "path", "rollback", "limit_size", "stuff_up", "rolldaily", "rollhourly", "udp_addr", "device", "channel", "shm_key", "hot_update", "logger_name", "logger_desc", "define", "var"};
SX_SUITE(values, 60, 100, 0) { int lvl = sx_choose(3); const char* k = sx_pick(KEY); const std::string& v = sx_pick(VAL); std::string t = lvl == 0 ? sx_fmt(" - %s: %s\n - channel: 0\n", k, v.c_str()) : lvl == 1 ? sx_fmt(" - channel: 0\n    sync: sync\n    %s: %s\n    -device: 0\n        disable: false\n        out_type: file\n", k, v.c_str()) : sx_fmt(" - channel: 0\n    sync: sync\n    -device: 0\n        disable: false\n        out_type: file\n        %s: %s\n", k, v.c_str()); parse(t); if (strcmp(k, "shm_key")) whole(t, false); }
SX_SUITE(value_pairs, 60, 200, 0) { static const std::vector<const char*> K = {"category_wlist", "udp_addr", "identify_blist"}; const char* k = sx_pick(K); std::string a = sx_pick(VAL), b = sx_pick(VAL); static const std::vector<const char*> S = {",", "-", " ", " - ", ":", "", "."}; parse(sx_fmt(" - channel: 0\n    -device: 0\n        disable: false\n        %s: %s%s%s\n", k, a.c_str(), sx_pick(S), b.c_str())); }
// ---- lengths
SX_SUITE(lengths, 60, 200, 0) {
    static const std::vector<int> N = {0, 1, 39, 40, 41, 46, 47, 48, 49, 50, 51, 52, 98, 99, 100, 101, 102, 196, 197, 198, 199, 200, 201, 202, 255, 256, 1000, 8191, 8192, 8193, 70000}; static const std::vector<const char*> K = {"file", "path", "udp_addr", "priority", "category_wlist", "category", "limit_size", "disable", "out_type"}; int n = sx_pick(N), w = sx_choose(5), fill = sx_choose(4); std::string x((size_t)n, "a1 ."[fill]), t; bool q = sx_choose(2); std::string qs = q ? "\"" : "";
    if (w == 0) { t = sx_fmt(" - channel: 0\n    sync: sync\n    -device: 0\n        out_type: file\n        disable: false\n        %s: ", sx_pick(K)) + qs + x + qs + "\n"; } else if (w == 1) t = std::string(sx_choose(2) ? " - logger_name: " : " - logger_desc: ") + qs + x + qs + "\n - channel: 0\n    sync: sync\n"; else if (w == 2) t = std::string(" - channel: 0\n    sync: sync\n") + x + "priority: info\n"; else t = " - channel: 0\n    sync: sync #" + x + "\n" + x + "\n";
    if (w == 4) { t = " - shm_key: " + qs + x + qs + "\n - channel: 0\n"; parse(t); return; }
    parse(t); whole(t, sx_choose(2));
}
SX_SUITE(counts, 30, 60, 0) { int nc = sx_choose(6), nd = sx_choose(8), start = sx_choose(3), step = sx_choose(3); std::string t; for (int c = 0; c < nc; c++) { t += sx_fmt(" - channel: %d\n    sync: sync\n", c); for (int d = 0; d < nd; d++) t += sx_fmt("    -device: %d\n        disable: false\n        out_type: empty\n", start + d * step); } int r = parse(t); bool ok = nc >= 1 && nc <= Logger::MAX_CHANNEL_SIZE && (nd == 0 || (nd <= Channel::MAX_DEVICE_SIZE && start == 0 && (step == 1 || nd == 1))); if (nc && (r == 0) != ok) sx_fail("%d channels with %d devices numbered from %d by %d: %d", nc, nd, start, step, r); whole(t, false); }
// ---- definitions and variables
SX_SUITE(definitions, 60, 300, 0) {
    static const std::string A = "AB$_ ={,1"; int kind = sx_choose(2), n = sx_choose(sx_thorough() ? 7 : 6); std::string d; for (int i = 0; i < n; i++) d += A[(size_t)sx_choose((int)A.size())];
    parse(std::string(kind ? " - var: " : " - define: ") + d + "\n - channel: 0\n    category: A\n    identify: $A ${A} AA $AA _A A_ B $B ${B}\n");
}
SX_SUITE(definition_pairs, 60, 200, 0) { static const std::vector<std::string> D = {" - define: A A", " - define: AA A", " - define: A B", " - define: B A", " - define: AA 11", " - define: AB", " - define: :  :", " - define: channel channel", " - define: channel  chx", " - define: \n 0", " - var: A=$A", " - var: A=1", " - var: A=${A", " - var: AB=$A", " - var: A=$B", " - var: B=$A", " - var: A=", " - var: A= 1 , B = 2", " - var: A=1,A=2", " - var: {A=1", " - var: A=1}", " - var: A"}; std::string t; for (int i = 0; i < 3; i++) t += sx_pick(D) + "\n"; t += " - channel: 0\n    category: $A ${A} A AA AB B $B ${B} $AB ${AB}\n - channel: 1\n    sync: A\n"; parse(t); }
// ---- files: missing, empty, a directory, failing
SX_SUITE(files, 30, 60, 0) {
    int how = sx_choose(7); static const char* OP[] = {"fopen", "fstat", "read"}; Fx f; int r; bool before = sx_choose(2); if (before) { f.start(GOOD); f.log(0, 2, 0, 0, "a"); f.stop(); } if (how == 0) env().put("c.yaml", ""); if (how == 1) env().fs["c.yaml"] = std::make_shared<Inode>(), env().fs["c.yaml"]->dir = true; std::string big; if (how == 3) { env().put("c.yaml", GOOD); } int op = sx_choose(3); bool on = how == 3; if (how == 4) { for (int i = 0; i < 3000; i++) big += "# comment line number\n"; env().put("c.yaml", big + GOOD); } if (how == 5) env().put("c.yaml", big + std::string(8192 - strlen(GOOD), '#') + "\n" + GOOD); if (how == 6) env().put("c.yaml", std::string(8192 - strlen(GOOD) - 1, '#') + "\n" + GOOD);
    env().fault = [&](const char* o, const std::string& p) { return on && p.find("c.yaml") != std::string::npos && !strcmp(o, OP[op]) ? 5 : 0; }; r = LoadAndStartLogger(*f.lg, how == 2 ? "none.yaml" : "c.yaml"); on = false; env().take_screen(); sx_op(); if ((r == 0) != (how >= 4)) sx_fail("loading (%d): %d", how, r); if (r == 0) { f.log(0, 2, 0, 0, "b"); f.stop(); }
    if (env().open_files) sx_fail("a file is left open"); if (before && r) { if (StartLogger(*f.lg)) sx_fail("the previous configuration does not start"); f.stop(); } if (ParseAndStartLogger(*f.lg, GOOD)) sx_fail("a valid configuration does not start"); f.log(0, 2, 0, 0, "z"); f.stop(); std::string g = f.file("good.log"); if (g.size() < 2 || g.substr(g.size() - 2) != "z\n") sx_fail("the logger wrote %s", sx_esc(g).c_str());
}
