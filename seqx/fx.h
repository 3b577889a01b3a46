// helpers around the code under test
#pragma once
#include "sx.h"
#include "fn_log.h"
#include <unistd.h>
#include <string.h>
#include <arpa/inet.h>
using namespace FNLog;
inline std::string one_file(const char* extra = "") {
    return std::string(" - channel: 0\n    sync: sync\n    -device: 0\n        disable: false\n        out_type: file\n        file: a\n") + extra;
}
struct Fx {
    Logger* lg;
    Fx() { lg = new Logger(); }
    ~Fx() { delete lg; }
    Fx(const Fx&) = delete;
    void start(const std::string& cfg) { int r = ParseAndStartLogger(*lg, cfg); if (r) sx_fail("a valid configuration does not start: %d (%s) screen: %s", r, sx_esc(cfg).c_str(), sx_esc(env().take_screen()).c_str()); env().take_screen(); }
    int stop() { int r = StopLogger(*lg); return r; }
    std::string file(const std::string& n) { std::string d; env().get(n, d); return d; }
    bool log(int ch, int prio, int cat, long long id, const std::string& text, unsigned prefix = LOG_PREFIX_NULL) {
        LogStream s(*lg, ch, prio, cat, id, "", 0, 0, "", 0, prefix); bool ok = s.log_data_ != nullptr; s.write_buffer(text.data(), (int)text.size()); return ok;
    }
    long long clog(int ch, int f) { return GetChannelLog(*lg, ch, (ChannelLogEnum)f); }
    long long dlog(int ch, int d, int f) { return GetDeviceLog(*lg, ch, d, (DeviceLogEnum)f); }
};
inline std::vector<std::string> lines(const std::string& s) { std::vector<std::string> v; size_t b = 0; while (b < s.size()) { size_t e = s.find('\n', b); if (e == std::string::npos) { v.push_back(s.substr(b)); break; } v.push_back(s.substr(b, e - b)); b = e + 1; } return v; }
