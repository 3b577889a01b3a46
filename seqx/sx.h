// seqx: exhaustive enumeration of choice vectors over the real code in an in-memory environment.
#pragma once
#include <stdint.h>
#include <stdarg.h>
#include <sys/stat.h>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <string>
#include <atomic>
#include <vector>
#include <deque>

// ---- exploration ----
int  sx_choose(int n);                        // every value 0..n-1 is explored
void sx_op(long n = 1);                       // one operation of the system under test was performed (counted)
void sx_note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));   // kept in the replay file only
[[noreturn]] void sx_fail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void sx_known(const char* id, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
bool sx_seen(uint64_t hash, int remaining);   // state already explored with at least that many operations to go
void sx_state(uint64_t hash);                 // count distinct states only
bool sx_thorough();
bool sx_tracing();
uint64_t sx_hash(const void* p, size_t n, uint64_t h = 1469598103934665603ULL);
inline uint64_t sx_hash(const std::string& s, uint64_t h = 1469598103934665603ULL) { return sx_hash(s.data(), s.size(), h); }
std::string sx_esc(const std::string& s, size_t max = 400);
std::string sx_fmt(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
template<class T> const T& sx_pick(const std::vector<T>& v) { return v[(size_t)sx_choose((int)v.size())]; }

enum { SX_THREAD = 1 /* every execution in a fresh thread */, SX_THOROUGH = 2 /* thorough tier only */, SX_LEAK = 4 /* heap must not grow */ };
struct SxSuite { const char* name; void (*fn)(); double quick_s, thorough_s; unsigned flags; };
struct SxReg { SxReg(const char* n, void (*f)(), double q, double t, unsigned fl); };
#define SX_SUITE(name, q, t, fl) static void name(); static SxReg name##_reg(#name, name, q, t, fl); static void name()

// ---- environment ----
struct Inode { bool dir = false; std::string data; long mtime = 0; };
struct Dgram { unsigned ip; unsigned short port; std::string data; int sock; };
struct Env {
    std::recursive_mutex m;
    long long now_us;
    std::map<std::string, std::shared_ptr<Inode>> fs;
    int open_files, open_dirs, files_opened;
    struct Sock { bool bound = false; unsigned ip = 0; unsigned short port = 0; bool nonblock = false; std::deque<std::string> rx; };
    std::map<int, Sock> socks; int socks_opened;
    std::vector<Dgram> sent;
    struct Seg { long long key; size_t size; char* mem; int attached; bool removed; };
    std::map<int, Seg> shm; int next_shm;
    std::string screen;                       // bytes the code under test printed
    std::string cmdline;
    // fault(op, path): 0 = proceed, otherwise the call fails with that errno. ops: fopen fstat write close mkdir opendir access
    // rename remove socket fcntl bind sendto recvfrom shmget shmat read
    // (write: a negative value puts that many bytes and then fails)
    std::function<int(const char*, const std::string&)> fault;
    std::atomic<int> hold_port{0}, held{0};   // sends to this port (host order) wait; somebody is waiting
    void reset();
    static std::string norm(const std::string& p);
    void put(const std::string& path, const std::string& data, long mtime = -1);
    bool get(const std::string& path, std::string& data);
    bool exists(const std::string& path);
    std::vector<std::string> files();
    int attached();
    void feed(unsigned short net_port, const std::string& d, unsigned net_ip = 0);   // to this address (0: any)
    std::string take_screen();
    void advance_ms(long long ms) { std::lock_guard<std::recursive_mutex> g(m); now_us += ms * 1000; }
};
Env& env();
