// fnmc: explicit-state model checker for the real multi-threaded code. Harness-side API.
#pragma once
#include <stddef.h>
#include <stdint.h>
#define MC_NI __attribute__((no_sanitize("thread"), noinline))
extern "C" {
// ---- scenario control (called from scenario code running inside the explored program)
int  mc_spawn(void (*fn)(void*), void* arg);      // start a controlled thread
void mc_join(int tid);
void mc_atomic_begin();                            // deterministic, non-branching scheduling (setup / teardown)
void mc_atomic_end();
void mc_point();                                   // explicit scheduling point (harness shared state)
void mc_quiesce();                                 // wait until no other thread can make progress
void mc_idle(int n);                                 // sleeping threads wake up n more times although nothing has changed
int  mc_choose(int n, const char* what);           // environment choice, all values explored
void mc_fail(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));   // property violated
void mc_known(const char* kf, const char* fmt, ...) __attribute__((format(printf, 2, 3)));   // violation with the signature of a listed finding
void mc_outcome(uint64_t v);                       // what this execution observed (counted as distinct outcomes)
int  mc_self();
void mc_note(const char* s);                       // annotate the trace
// ---- environment model
void mc_clock_set(long long sec, long usec);
void mc_clock_advance(long long sec);
void mc_file_put(const char* path, const char* data, size_t len, long long mtime);
void mc_file_del(const char* path);
const char* mc_file_get(const char* path, size_t* len);   // flushed ("on disk") contents; NULL if absent
int  mc_open_handles();                            // FILE handles + sockets currently open
int  mc_sink_count();                              // datagrams sent
const char* mc_sink_get(int i, int* port, size_t* len);
const char* mc_screen(size_t* len);                // bytes printed
void mc_udp_inject(const char* data, size_t len);
void mc_block_port(int port, int blocked);         // sendto(port) blocks while set
void mc_block_path(const char* path, int blocked); // fwrite to this file blocks while set
enum { MC_F_FOPEN = 1, MC_F_RENAME = 2, MC_F_MKDIR = 4, MC_F_SOCKET = 8, MC_F_SENDTO = 16, MC_F_THREAD = 32 };
void mc_faults(int ops, int budget);                // from now on each of these calls may fail, at most budget of them (all choices explored)
int  mc_fault_count();
int  mc_io_waiting();                              // a thread is stuck in blocked output
int  mc_shm_segments();                            // live shared memory segments
void* mc_persist();                                // 8 KB surviving a crash
void mc_crash_enable(int max);                    // from now on a crash may happen at every step while fewer than max have happened
int  mc_crashes();                                 // crashes so far
int  mc_threads_alive();
// ---- analysis configuration
void mc_guard_range(const void* p, size_t n);      // plain data races here violate the property
void mc_ignore_range(const void* p, size_t n);     // excluded from state identity (monotone statistics)
}
struct McScenario {
    const char* name;
    void (*main_fn)();
    void (*recover_fn)();     // after a crash
    int bound;                // preemption/deviation bound for the exhaustive pass (255 = unbounded)
    int race_bound;           // deviation bound of the stateless race/learning pass (-1 = none)
    int tso;                  // explore store buffering
    int relaxed_points;       // relaxed atomics are scheduling points too
    int thorough;             // 0: both tiers, 1: thorough tier only, 2: quick tier only
    int time_cap_s;           // cap per pass (reported when hit)
    const char* what;         // one line for the evidence
    const char* (*classify)(const char* cls);   // signature of a recorded finding: id when the failing history matches it
};
extern "C" int mc_run(int argc, char** argv, const char* property, const McScenario* sc, int n);
