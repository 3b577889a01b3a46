// fnmc runtime: controlled scheduler, instrumentation callbacks, environment model, explorer.
// Built as a shared library WITHOUT instrumentation; the scenario binary is built WITH
// clang's -fsanitize=thread instrumentation (compile only) and linked against this library.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "mc.h"
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <link.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ipc.h>
#include <sys/mman.h>
#include <sys/shm.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <dirent.h>
#include <atomic>
#include <map>
#include <new>
#include <set>
#include <string>
#include <vector>
#include <algorithm>

typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64; typedef int64_t i64;

// ------------------------------------------------------------------ layout
static const int MAXT = 8;
static const uintptr_t RB = 0x100000000000ull;
static const size_t ARENA_SZ = 1u << 20, SHM_SZ = 1u << 20, STK_SZ = 256u << 10;
static const size_t OFF_SHM = MAXT * ARENA_SZ, OFF_STK = OFF_SHM + SHM_SZ, REGION = OFF_STK + MAXT * STK_SZ;
static u8* const R = (u8*)RB;
static u8* amap;                       // 1 byte per 8 arena bytes: 1 allocated, 2 freed
static u8* exe_lo, *exe_hi;            // writable data of the scenario binary
static std::vector<u8> exe_init;
static u8* tls_ptr; static size_t tls_len; static std::vector<u8> tls_init;
static const int TLSMAX = 1024;

enum { S_UNUSED, S_READY, S_SLEEP, S_MUTEX, S_JOIN, S_QUIESCE, S_IO, S_DONE, S_GUARD, S_COND };
enum { K_START, K_LOAD, K_STORE, K_RMW, K_PLAIN_R, K_PLAIN_W, K_LOCK, K_SLEEP, K_JOIN, K_CREATE, K_IO, K_USER, K_QUIESCE, K_FENCE, K_GUARD, K_SHMW, K_COND };
static const char* KN[] = {"start","load","store","rmw","read","write","lock","sleep","join","create","io","point","quiesce","fence","guard","shm-write","cond"};

struct SBEnt { void* addr; u64 val; u32 size; u32 mo; };
struct Fiber {
    void* sp; void* waitobj; void* (*fn)(void*); void* arg;
    u32 arena_hw; int join_target;
    u8 st, dirty, nsb, cond_sig;
    SBEnt sb[4];
    u8 tls[TLSMAX];
};
static const int NINO = 24, INOCAP = 16384, NFH = 32, FHBUF = 4096;
struct Inode { char name[104]; u8 used, isdir, blocked, linked; u32 size; i64 mtime; };
struct FH { u8 used, mode; short ino; u32 pos, nbuf; };
static const int SINKCAP = 24576, MAXPKT = 96, SCRCAP = 16384;
struct Pkt { u32 off; u16 len; u16 port; };
struct RTs {                            // everything here is part of the explored state
    Fiber f[MAXT]; int nf; int cur; int setup; int crash_on; int crashed; int idle_left;
    i64 sec; i64 usec;
    Inode ino[NINO]; FH fh[NFH]; u32 fh_next;
    struct { u8 used; u16 port; } sock[16]; u32 sock_next;
    u16 blocked_ports[4];
    int npkt; u32 sink_used; Pkt pkt[MAXPKT];
    u32 scr_used;
    int nudp; u32 udp_off[16], udp_len[16]; u32 udp_used; int udp_rd;
    int shm_exists, shm_removed, shm_att; u32 shm_size; int shm_key;
    u32 crash_forbidden; int fault_ops, fault_left, fault_cnt;
    u8 persist[8192];
};
static RTs* T;                           // state
static u8* ino_data;  // NINO*INOCAP
static u8* fh_data;   // NFH*FHBUF
static char* sink_data; static char* scr_data; static char* udp_data;
#define IDATA(i) (ino_data + (size_t)(i) * INOCAP)
#define FDATA(i) (fh_data + (size_t)(i) * FHBUF)

// ------------------------------------------------------------------ shared between workers
static const int MAXD = 6000, QN = 512, MAXKF = 16;
struct Item { u16 len; u8 c[MAXD]; };
struct Rec { int set; char cls[40]; char msg[700]; int len; u8 c[MAXD]; };
struct Shared {
    std::atomic<int> lock; int qn; Item q[QN];
    std::atomic<int> idle; std::atomic<int> stop; std::atomic<int> relearn; std::atomic<int> capped; std::atomic<int> internal_err;
    std::atomic<u64> states, transitions, execs, ends, pruned, steps, budget_cut, crashes;
    std::atomic<int> maxdepth;
    Rec viol; Rec known[MAXKF]; std::atomic<int> nknown; std::atomic<u64> known_hits;
    std::atomic<u64> outcomes[4096]; std::atomic<int> noutcomes;
    char err[400];
    char sample[3][1500]; std::atomic<int> nsample;
    double t_end;
};
static Shared* SH;
static u16* lmap; static u16* emap;      // learning, shared (region / exe), per 8B granule
static u8* amapR; static u8* amapE;      // active sched maps (frozen per pass, private)
enum { L_WRITTEN = 0x100, L_NONRELAX = 0x200, L_RACY = 0x400, L_ATOMIC = 0x800 };
static std::atomic<u64>* vtab; static std::atomic<u8>* vbud; static u64 vmask; static const int VBITS_Q = 26;
static u64 vsalt;

// ------------------------------------------------------------------ per-worker
static bool in_fiber; static void* sched_sp; static bool race_on; static bool caching; static bool tso_on; static bool relaxed_pts;
static const McScenario* SC;
static std::vector<std::pair<u8*, u8*>> guard_rng, ignore_rng;   // registered by the scenario (idempotent)
static bool tracing; struct TrEv { int tid, kind; void* addr; void* pc; int sz; std::string note; };
static std::vector<TrEv> trace;
static int fail_kind; static char fail_cls[40], fail_msg[700];   // 0 none 1 violation 2 known 3 ignored
static u64 run_steps; static u64 outcome_acc; static bool outcome_set;
static const u64 STEP_LIMIT = 60000; static u64 solo_steps;
static int g_kind; static void* g_addr, *g_pc; static int g_choose_n; static bool g_crash_only;

#define REAL(name) ((decltype(&name))dlsym(RTLD_NEXT, #name))
static double now_s() { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec * 1e-9; }

[[noreturn]] static void die(const char* fmt, ...) {
    char b[400]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    in_fiber = false;
    if (SH) { snprintf(SH->err, sizeof SH->err, "%s", b); SH->internal_err = 1; SH->stop = 1; }
    dprintf(2, "fnmc internal: %s\n", b);
    _exit(70);
}

// ------------------------------------------------------------------ context switch
extern "C" void mc_switch(void** save, void* to);
asm(".text\n.globl mc_switch\n.hidden mc_switch\n.type mc_switch,@function\nmc_switch:\n"
    "push %rbp\npush %rbx\npush %r12\npush %r13\npush %r14\npush %r15\n"
    "mov %rsp,(%rdi)\nmov %rsi,%rsp\n"
    "pop %r15\npop %r14\npop %r13\npop %r12\npop %rbx\npop %rbp\nret\n");
static u8* stk_top(int i) { return R + OFF_STK + (size_t)(i + 1) * STK_SZ; }
static void fiber_entry();
extern "C" void mc_tramp();
asm(".text\n.hidden mc_tramp\n.globl mc_tramp\nmc_tramp:\nxor %ebp,%ebp\nand $-16,%rsp\ncall mc_fiber_entry_c\nud2\n");
extern "C" __attribute__((visibility("hidden"), used)) void mc_fiber_entry_c() { fiber_entry(); }
static void vc_new_thread(int parent, int child); static void vc_exit(int t);
static void to_sched() {
    Fiber& f = T->f[T->cur];
    if (tls_len) memcpy(f.tls, tls_ptr, tls_len);
    in_fiber = false;
    mc_switch(&f.sp, sched_sp);
    in_fiber = true;
}
static void mark_dirty() { int c = T->cur; for (int i = 0; i < T->nf; i++) if (i != c) T->f[i].dirty = 1; }
static void sb_flush(int t);
static void fiber_entry() {
    in_fiber = true;
    Fiber& f = T->f[T->cur];
    f.fn(f.arg);
    sb_flush(T->cur);
    Fiber& g = T->f[T->cur];
    g.st = S_DONE; mark_dirty(); vc_exit(T->cur);
    to_sched();
    die("finished fiber resumed");
}
static int new_fiber(void* (*fn)(void*), void* arg) {
    if (T->nf >= MAXT) die("too many threads");
    int i = T->nf++; Fiber& f = T->f[i];
    memset(&f, 0, sizeof f);
    f.fn = fn; f.arg = arg; f.st = S_READY; f.dirty = 1;
    if (tls_len) memcpy(f.tls, tls_init.data(), tls_len);
    u64* sp = (u64*)(stk_top(i) - 64);
    *--sp = 0; *--sp = (u64)&mc_tramp;
    for (int k = 0; k < 6; k++) *--sp = 0;
    f.sp = sp;
    return i;
}

// ------------------------------------------------------------------ vector clocks / race detection (learning pass only)
struct Sh { u32 gen; u16 wclk; u8 wtid; u8 pad; u16 rclk[MAXT]; };
static Sh* shR; static Sh* shE; static u32 vgen = 1;
static u16 VC[MAXT][MAXT];
struct SyncEnt { u32 gen; void* addr; u16 vc[MAXT]; };
static const int NSYNC = 1 << 14; static SyncEnt* syncs;
static SyncEnt* sync_get(void* a, bool create) {
    u32 h = (u32)(((u64)a >> 2) * 0x9E3779B1u) & (NSYNC - 1);
    for (;;) {
        SyncEnt& e = syncs[h];
        if (e.gen != vgen) { if (!create) return nullptr; e.gen = vgen; e.addr = a; memset(e.vc, 0, sizeof e.vc); return &e; }
        if (e.addr == a) return &e;
        h = (h + 1) & (NSYNC - 1);
    }
}
static void vc_join(u16* d, const u16* s) { for (int i = 0; i < MAXT; i++) if (s[i] > d[i]) d[i] = s[i]; }
static void vc_reset() { vgen++; memset(VC, 0, sizeof VC); for (int i = 0; i < MAXT; i++) VC[i][i] = 1; }
static void vc_new_thread(int p, int c) { if (!race_on) return; memset(VC[c], 0, sizeof VC[c]); vc_join(VC[c], VC[p]); VC[c][c] = 1; VC[p][p]++; }
static void vc_exit(int t) { (void)t; }
static void vc_acquire(void* a) { if (!race_on) return; if (SyncEnt* e = sync_get(a, false)) vc_join(VC[T->cur], e->vc); }
static void vc_release(void* a, bool rmw, int t) { if (!race_on) return; SyncEnt* e = sync_get(a, true); if (rmw) vc_join(e->vc, VC[t]); else memcpy(e->vc, VC[t], sizeof e->vc); VC[t][t]++; }
static void vc_relaxed_store(void* a) { if (!race_on) return; if (SyncEnt* e = sync_get(a, false)) memset(e->vc, 0, sizeof e->vc); }
static bool acq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
static bool rel(int mo) { return mo == 3 || mo == 4 || mo == 5; }

// ------------------------------------------------------------------ helpers
static bool inR(const void* p) { return (uintptr_t)p - RB < REGION; }
static bool inExe(const void* p) { return (u8*)p >= exe_lo && (u8*)p < exe_hi; }
static u16* lcell(const void* p) { if (inR(p)) return lmap + (((uintptr_t)p - RB) >> 3); if (inExe(p)) return emap + (((u8*)p - exe_lo) >> 3); return nullptr; }
static bool is_sched(const void* p) { if (inR(p)) return amapR[((uintptr_t)p - RB) >> 3]; if (inExe(p)) return amapE[((u8*)p - exe_lo) >> 3]; return false; }
static int live_threads() { int n = 0; for (int i = 0; i < T->nf; i++) n += T->f[i].st != S_DONE && T->f[i].st != S_UNUSED; return n; }
static bool conc() { return !T->setup && T->nf > 1; }
static bool in_rng(const std::vector<std::pair<u8*, u8*>>& v, const void* p) { for (auto& r : v) if ((u8*)p >= r.first && (u8*)p < r.second) return true; return false; }
static bool cell_sched(u16 v) {
    if (v & L_RACY) return true;
    if (!(v & L_ATOMIC)) return false;
    return __builtin_popcount(v & 0xff) >= 2 && (v & L_WRITTEN) && ((v & L_NONRELAX) || relaxed_pts);
}
static void learn(const void* p, u16 bits) {
    u16* c = lcell(p); if (!c) return;
    u16 o = *c; if ((o & bits) == bits) return;
    u16 n = __atomic_or_fetch(c, bits, __ATOMIC_RELAXED);
    if (cell_sched(n) && !is_sched(p)) SH->relearn = 1;
}
static void do_fail(int kind, const char* cls, const char* msg) {
    if (!fail_kind && kind == 1 && SC->classify) { bool k = in_fiber; in_fiber = false; if (const char* kf = SC->classify(cls)) { kind = *kf ? 2 : 3 /* another property's finding: the execution ends here */; static char m2[700]; snprintf(m2, sizeof m2, "[%s] %s", cls, msg); msg = m2; cls = kf; } in_fiber = k; }
    if (!fail_kind) { fail_kind = kind; snprintf(fail_cls, sizeof fail_cls, "%s", cls); snprintf(fail_msg, sizeof fail_msg, "%s", msg); }
    if (in_fiber) { to_sched(); die("resumed after failure"); }
}
static std::string where(const void* p) {
    char b[64];
    if (inR(p)) { size_t o = (uintptr_t)p - RB; if (o < OFF_SHM) snprintf(b, sizeof b, "heap[T%d]+0x%zx", (int)(o / ARENA_SZ), o % ARENA_SZ); else if (o < OFF_STK) snprintf(b, sizeof b, "shm+0x%zx", o - OFF_SHM); else snprintf(b, sizeof b, "stack[T%d]", (int)((o - OFF_STK) / STK_SZ)); }
    else snprintf(b, sizeof b, "global 0x%zx", (size_t)p);
    return b;
}
// scheduling point: hand control to the scheduler, which decides who runs next
static void point(int kind, void* addr, void* pc, int sz) {
    g_kind = kind; g_addr = addr; g_pc = pc;
    to_sched();
    if (tracing) trace.push_back({T->cur, kind, addr, pc, sz, ""});
}
static void race_report(const void* p, bool w, int other, bool ow, void* pc) {
    char m[300];
    if (in_rng(guard_rng, p)) {
        snprintf(m, sizeof m, "data race: T%d %s record memory at %s without synchronisation after T%d %s it [pc %p]", T->cur, w ? "writes" : "reads", where(p).c_str(), other, ow ? "wrote" : "read", pc);
        do_fail(1, "data-race", m);
    }
    learn(p, L_RACY);
}
static void race_access(u8* p, size_t n, bool w, void* pc) {
    int t = T->cur;
    for (size_t i = 0; i < n; i++, p++) {
        Sh* s = inR(p) ? &shR[(uintptr_t)p - RB] : inExe(p) ? &shE[p - exe_lo] : nullptr;
        if (!s) return;
        if (s->gen != vgen) { memset(s, 0, sizeof *s); s->gen = vgen; s->wtid = 0xff; }
        if (s->wtid != 0xff && s->wtid != t && s->wclk > VC[t][s->wtid]) race_report(p, w, s->wtid, true, pc);
        if (w) {
            for (int k = 0; k < T->nf; k++) if (k != t && s->rclk[k] > VC[t][k]) race_report(p, w, k, false, pc);
            s->wtid = t; s->wclk = VC[t][t];
            memset(s->rclk, 0, sizeof s->rclk);
        } else s->rclk[t] = VC[t][t];
    }
}
static void race_clear(u8* p, size_t n) { if (!race_on) return; for (size_t i = 0; i < n; i++) { Sh* s = &shR[(uintptr_t)(p + i) - RB]; s->gen = 0; } }
static void crash_point(void* addr, void* pc, int sz) { g_crash_only = true; point(K_SHMW, addr, pc, sz); }

static inline void plain(void* a, size_t n, bool w, void* pc) {
    if (!in_fiber) return;
    u8* p = (u8*)a;
    if (inR(p)) {
        size_t o = (uintptr_t)p - RB;
        if (o >= OFF_STK) { if ((int)((o - OFF_STK) / STK_SZ) == T->cur) return; }
        else if (o < OFF_SHM) {
            u8 m1 = amap[o >> 3], m2 = n ? amap[(o + n - 1) >> 3] : 1;
            if (m1 != 1 || m2 != 1) {
                char m[200]; snprintf(m, sizeof m, "%s of %zu bytes of %s memory at %s [pc %p]", w ? "write" : "read", n, (m1 == 2 || m2 == 2) ? "freed" : "unallocated", where(p).c_str(), pc);
                do_fail(1, "memory", m);
            }
        }
    } else if (!inExe(p)) {
        if ((uintptr_t)p < 65536) { char m[100]; snprintf(m, sizeof m, "null pointer %s [pc %p]", w ? "write" : "read", pc); do_fail(1, "memory", m); }
        return;
    }
    if (T->nf > 1) {
        if (race_on) race_access(p, n, w, pc);
        for (u8* q = (u8*)((uintptr_t)p & ~7ull); q < p + n; q += 8)
            if (is_sched(q)) { if (!T->setup) point(w ? K_PLAIN_W : K_PLAIN_R, a, pc, (int)n); if (w) { sb_flush(T->cur); mark_dirty(); } if (!T->setup) return; break; }
    }
    if (w && T->crash_on && inR(p)) { size_t o = (uintptr_t)p - RB; if (o >= OFF_SHM && o < OFF_STK) crash_point(a, pc, (int)n); }
}
// ------------------------------------------------------------------ atomics
static u64 ld(void* a, int sz) { switch (sz) { case 1: return *(volatile u8*)a; case 2: return *(volatile u16*)a; case 4: return *(volatile u32*)a; default: return *(volatile u64*)a; } }
static void st(void* a, int sz, u64 v) { switch (sz) { case 1: *(volatile u8*)a = (u8)v; break; case 2: *(volatile u16*)a = (u16)v; break; case 4: *(volatile u32*)a = (u32)v; break; default: *(volatile u64*)a = v; } }
static void sb_drain_one(int t) {
    Fiber& f = T->f[t]; SBEnt e = f.sb[0];
    for (int i = 1; i < f.nsb; i++) f.sb[i - 1] = f.sb[i];
    f.nsb--; memset(&f.sb[f.nsb], 0, sizeof(SBEnt));
    st(e.addr, e.size, e.val);
    for (int i = 0; i < T->nf; i++) if (i != t) T->f[i].dirty = 1;
}
static void sb_flush(int t) { while (T->f[t].nsb) sb_drain_one(t); }
static void amem_check(void* a, int sz, void* pc, bool w) {
    u8* p = (u8*)a;
    if ((uintptr_t)p < 65536) { char m[100]; snprintf(m, sizeof m, "null pointer atomic access [pc %p]", pc); do_fail(1, "memory", m); }
    if (inR(p)) { size_t o = (uintptr_t)p - RB; if (o < OFF_SHM && amap[o >> 3] != 1) { char m[160]; snprintf(m, sizeof m, "atomic %s of %s memory at %s [pc %p]", w ? "write" : "read", amap[o >> 3] == 2 ? "freed" : "unallocated", where(p).c_str(), pc); do_fail(1, "memory", m); } }
    (void)sz;
}
static bool at_begin(void* a, int sz, int kind, int mo, void* pc) {   // returns "is a scheduling location"
    amem_check(a, sz, pc, kind != K_LOAD);
    if (!conc()) {
        if (T->nf > 1) learn(a, (u16)(L_ATOMIC | (1u << T->cur) | (kind != K_LOAD ? L_WRITTEN : 0) | (mo != 0 ? L_NONRELAX : 0)));
        if (T->crash_on && kind != K_LOAD && inR(a)) { size_t o = (uintptr_t)a - RB; if (o >= OFF_SHM && o < OFF_STK) crash_point(a, pc, sz); }
        return T->nf > 1 && is_sched(a);
    }
    learn(a, (u16)(L_ATOMIC | (1u << T->cur) | (kind != K_LOAD ? L_WRITTEN : 0) | (mo != 0 ? L_NONRELAX : 0)));
    if (is_sched(a)) { point(kind, a, pc, sz); return true; }
    if (T->crash_on && kind != K_LOAD && inR(a)) { size_t o = (uintptr_t)a - RB; if (o >= OFF_SHM && o < OFF_STK) crash_point(a, pc, sz); }
    return false;
}
static u64 at_load(void* a, int sz, int mo, void* pc) {
    if (!in_fiber) return ld(a, sz);
    at_begin(a, sz, K_LOAD, mo, pc);
    Fiber& f = T->f[T->cur];
    for (int i = f.nsb - 1; i >= 0; i--) if (f.sb[i].addr == a) return f.sb[i].val;
    if (acq(mo)) vc_acquire(a);
    return ld(a, sz);
}
static void at_store(void* a, int sz, u64 v, int mo, void* pc) {
    if (!in_fiber) { st(a, sz, v); return; }
    if (tso_on && mo != 5 && conc()) {
        amem_check(a, sz, pc, true);
        learn(a, (u16)(L_ATOMIC | (1u << T->cur) | L_WRITTEN | (mo != 0 ? L_NONRELAX : 0)));
        if (is_sched(a)) {
            Fiber& f = T->f[T->cur];
            if (f.nsb == 4) sb_drain_one(T->cur);
            f.sb[f.nsb++] = {a, v, (u32)sz, (u32)mo};
            if (tracing) trace.push_back({T->cur, K_STORE, a, pc, sz, "(buffered)"});
            return;
        }
        sb_flush(T->cur);
    }
    bool s = at_begin(a, sz, K_STORE, mo, pc);
    sb_flush(T->cur);
    st(a, sz, v);
    if (rel(mo)) vc_release(a, false, T->cur); else vc_relaxed_store(a);
    if (s) mark_dirty();
}
template <class F> static u64 at_rmw(void* a, int sz, int mo, void* pc, F fn) {
    if (!in_fiber) { u64 o = ld(a, sz); st(a, sz, fn(o)); return o; }
    bool s = at_begin(a, sz, K_RMW, mo, pc);
    sb_flush(T->cur);
    u64 o = ld(a, sz); st(a, sz, fn(o));
    if (acq(mo)) vc_acquire(a);
    if (rel(mo)) vc_release(a, true, T->cur);
    if (s) mark_dirty();
    return o;
}
static bool at_cas(void* a, int sz, u64* exp, u64 des, int mo, int fmo, void* pc) {
    if (!in_fiber) { u64 o = ld(a, sz); if (o == *exp) { st(a, sz, des); return true; } *exp = o; return false; }
    bool s = at_begin(a, sz, K_RMW, mo, pc);
    sb_flush(T->cur);
    u64 o = ld(a, sz);
    if (o != *exp) { if (acq(fmo)) vc_acquire(a); *exp = o; return false; }
    st(a, sz, des);
    if (acq(mo)) vc_acquire(a);
    if (rel(mo)) vc_release(a, true, T->cur);
    if (s) mark_dirty();
    return true;
}
#define PC __builtin_return_address(0)
#define ATOMICS(B, TY) \
extern "C" TY __tsan_atomic##B##_load(const volatile TY* a, int mo) { return (TY)at_load((void*)a, B / 8, mo, PC); } \
extern "C" void __tsan_atomic##B##_store(volatile TY* a, TY v, int mo) { at_store((void*)a, B / 8, v, mo, PC); } \
extern "C" TY __tsan_atomic##B##_exchange(volatile TY* a, TY v, int mo) { return (TY)at_rmw((void*)a, B / 8, mo, PC, [=](u64) { return (u64)v; }); } \
extern "C" TY __tsan_atomic##B##_fetch_add(volatile TY* a, TY v, int mo) { return (TY)at_rmw((void*)a, B / 8, mo, PC, [=](u64 o) { return (u64)(TY)(o + v); }); } \
extern "C" TY __tsan_atomic##B##_fetch_sub(volatile TY* a, TY v, int mo) { return (TY)at_rmw((void*)a, B / 8, mo, PC, [=](u64 o) { return (u64)(TY)(o - v); }); } \
extern "C" TY __tsan_atomic##B##_fetch_and(volatile TY* a, TY v, int mo) { return (TY)at_rmw((void*)a, B / 8, mo, PC, [=](u64 o) { return (u64)(TY)(o & v); }); } \
extern "C" TY __tsan_atomic##B##_fetch_or(volatile TY* a, TY v, int mo) { return (TY)at_rmw((void*)a, B / 8, mo, PC, [=](u64 o) { return (u64)(TY)(o | v); }); } \
extern "C" TY __tsan_atomic##B##_fetch_xor(volatile TY* a, TY v, int mo) { return (TY)at_rmw((void*)a, B / 8, mo, PC, [=](u64 o) { return (u64)(TY)(o ^ v); }); } \
extern "C" TY __tsan_atomic##B##_fetch_nand(volatile TY* a, TY v, int mo) { return (TY)at_rmw((void*)a, B / 8, mo, PC, [=](u64 o) { return (u64)(TY)~(o & v); }); } \
extern "C" int __tsan_atomic##B##_compare_exchange_strong(volatile TY* a, TY* e, TY d, int mo, int fmo) { u64 x = *e; bool r = at_cas((void*)a, B / 8, &x, d, mo, fmo, PC); *e = (TY)x; return r; } \
extern "C" int __tsan_atomic##B##_compare_exchange_weak(volatile TY* a, TY* e, TY d, int mo, int fmo) { u64 x = *e; bool r = at_cas((void*)a, B / 8, &x, d, mo, fmo, PC); *e = (TY)x; return r; } \
extern "C" TY __tsan_atomic##B##_compare_exchange_val(volatile TY* a, TY e, TY d, int mo, int fmo) { u64 x = e; at_cas((void*)a, B / 8, &x, d, mo, fmo, PC); return (TY)x; }
ATOMICS(8, u8) ATOMICS(16, u16) ATOMICS(32, u32) ATOMICS(64, u64)
extern "C" void __tsan_atomic_thread_fence(int mo) { if (in_fiber && mo == 5) sb_flush(T->cur); if (in_fiber && race_on) { static char fence_obj[8]; if (acq(mo)) vc_acquire(fence_obj); if (rel(mo)) vc_release(fence_obj, true, T->cur); } }
extern "C" void __tsan_atomic_signal_fence(int) {}
#define RW(N) extern "C" void __tsan_read##N(void* a) { plain(a, N, false, PC); } extern "C" void __tsan_write##N(void* a) { plain(a, N, true, PC); } \
 extern "C" void __tsan_unaligned_read##N(void* a) { plain(a, N, false, PC); } extern "C" void __tsan_unaligned_write##N(void* a) { plain(a, N, true, PC); } \
 extern "C" void __tsan_read_write##N(void* a) { plain(a, N, true, PC); } extern "C" void __tsan_unaligned_read_write##N(void* a) { plain(a, N, true, PC); } \
 extern "C" void __tsan_volatile_read##N(void* a) { plain(a, N, false, PC); } extern "C" void __tsan_volatile_write##N(void* a) { plain(a, N, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
extern "C" void __tsan_read_range(void* a, unsigned long n) { plain(a, n, false, PC); }
extern "C" void __tsan_write_range(void* a, unsigned long n) { plain(a, n, true, PC); }
extern "C" void __tsan_init() {}
extern "C" void __tsan_func_entry(void*) {}
extern "C" void __tsan_func_exit() {}
extern "C" void __tsan_vptr_update(void** a, void*) { plain(a, 8, true, PC); }
extern "C" void __tsan_vptr_read(void** a) { plain(a, 8, false, PC); }
extern "C" void* __tsan_memcpy(void* d, const void* s, size_t n) { if (n) { plain((void*)s, n, false, PC); plain(d, n, true, PC); } return memmove(d, s, n); }
extern "C" void* __tsan_memmove(void* d, const void* s, size_t n) { if (n) { plain((void*)s, n, false, PC); plain(d, n, true, PC); } return memmove(d, s, n); }
extern "C" void* __tsan_memset(void* d, int c, size_t n) { if (n) plain(d, n, true, PC); return memset(d, c, n); }

// ------------------------------------------------------------------ heap
static void* arena_alloc(size_t n) {
    Fiber& f = T->f[T->cur];
    size_t need = ((n + 15) & ~(size_t)15) + 32;
    if (f.arena_hw + need > ARENA_SZ) {
        char m[120]; snprintf(m, sizeof m, "thread T%d allocates without bound (%u bytes so far, %zu more)", T->cur, f.arena_hw, n); do_fail(1, "memory", m);
    }
    u8* b = R + (size_t)T->cur * ARENA_SZ + f.arena_hw;
    f.arena_hw += need;
    u64* h = (u64*)b; h[0] = n; h[1] = 0xA110CA7EDull;
    memset(b + 16, 0xCD, need - 16);
    size_t o = (size_t)(b - R);
    memset(amap + (o >> 3), 0, need >> 3);
    memset(amap + ((o + 16) >> 3), 1, (n + 7) >> 3);
    race_clear(b, need);
    return b + 16;
}
static bool is_arena(void* p) { return inR(p) && (uintptr_t)p - RB < OFF_SHM; }
static void arena_free(void* p) {
    if (!in_fiber) return;
    u64* h = (u64*)((u8*)p - 16); size_t o = (uintptr_t)p - RB;
    if (h[1] != 0xA110CA7EDull || amap[o >> 3] == 2) do_fail(1, "memory", h[1] == 0xDEADull ? "double free" : "free of a pointer that was never allocated");
    memset(p, 0xDD, h[0]); memset(amap + (o >> 3), 2, (h[0] + 7) >> 3); h[1] = 0xDEADull;
}
void* operator new(size_t n) { if (in_fiber) return arena_alloc(n); void* p = malloc(n ? n : 1); if (!p) abort(); return p; }
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return operator new(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return operator new(n); }
static void del(void* p) {
    if (!p) return;
    if (is_arena(p)) { arena_free(p); return; }
    if (inR(p)) { do_fail(1, "memory", "delete of memory that does not come from new (shared memory segment)"); return; }
    free(p);
}
void operator delete(void* p) noexcept { del(p); }
void operator delete[](void* p) noexcept { del(p); }
void operator delete(void* p, size_t) noexcept { del(p); }
void operator delete[](void* p, size_t) noexcept { del(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { del(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { del(p); }

// ------------------------------------------------------------------ threads, mutexes
static void step_env(int kind, void* a, void* pc) { if (in_fiber && conc()) point(kind, a, pc, 0); }
static bool fault(int op, const char* what);
extern "C" int pthread_create(pthread_t* th, const pthread_attr_t* at, void* (*fn)(void*), void* arg) {
    if (!in_fiber) return REAL(pthread_create)(th, at, fn, arg);
    step_env(K_CREATE, nullptr, PC);
    if (fault(MC_F_THREAD, "thread creation fails")) return EAGAIN;
    sb_flush(T->cur);
    int i = new_fiber(fn, arg); *th = (pthread_t)(i + 1);
    vc_new_thread(T->cur, i); mark_dirty();
    return 0;
}
static void join_fiber(int t, void* pc) {
    step_env(K_JOIN, nullptr, pc);
    sb_flush(T->cur);
    while (T->f[t].st != S_DONE) { Fiber& f = T->f[T->cur]; f.st = S_JOIN; f.join_target = t; to_sched(); }
    if (race_on) vc_join(VC[T->cur], VC[t]);
}
extern "C" int pthread_join(pthread_t th, void** ret) { if (!in_fiber) return REAL(pthread_join)(th, ret); join_fiber((int)th - 1, PC); if (ret) *ret = nullptr; return 0; }
extern "C" int pthread_detach(pthread_t th) { if (!in_fiber) return REAL(pthread_detach)(th); return 0; }
extern "C" pthread_t pthread_self() noexcept { if (!in_fiber) { static auto r = REAL(pthread_self); return r(); } return (pthread_t)(T->cur + 1); }
static int mtx_lock(pthread_mutex_t* m, bool tr, void* pc) {
    auto& d = m->__data; int me = T->cur + 1;
    if (T->nf > 1) learn(m, (u16)(L_ATOMIC | L_WRITTEN | L_NONRELAX | (1u << T->cur)));
    if (conc() && is_sched(m)) point(K_LOCK, m, pc, 0);
    sb_flush(T->cur);
    if (d.__owner == me) {
        if ((d.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP) { d.__count++; return 0; }
        if (tr) return EBUSY;
        do_fail(1, "deadlock", "a thread locks a non-recursive mutex it already holds");
    }
    while (d.__owner) {
        if (tr) return EBUSY;
        Fiber& f = T->f[T->cur]; f.st = S_MUTEX; f.waitobj = m; to_sched();
    }
    d.__owner = me; d.__count = 1; d.__lock = 1;
    vc_acquire(m);
    return 0;
}
static int mtx_unlock(pthread_mutex_t* m) {
    auto& d = m->__data;
    if (d.__owner != T->cur + 1) { do_fail(1, "deadlock", "unlock of a mutex not held by this thread"); }
    sb_flush(T->cur);
    if (--d.__count == 0) { vc_release(m, true, T->cur); d.__owner = 0; d.__lock = 0; if (T->nf > 1 && is_sched(m)) mark_dirty(); }
    return 0;
}
extern "C" int pthread_mutex_lock(pthread_mutex_t* m) noexcept { if (!in_fiber) { static auto r = REAL(pthread_mutex_lock); return r(m); } return mtx_lock(m, false, PC); }
extern "C" int pthread_mutex_trylock(pthread_mutex_t* m) noexcept { if (!in_fiber) { static auto r = REAL(pthread_mutex_trylock); return r(m); } return mtx_lock(m, true, PC); }
extern "C" int pthread_mutex_unlock(pthread_mutex_t* m) noexcept { if (!in_fiber) { static auto r = REAL(pthread_mutex_unlock); return r(m); } return mtx_unlock(m); }
// condition variables (not used by fn-log today; a refactoring may)
extern "C" int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    if (!in_fiber) return REAL(pthread_cond_wait)(c, m);
    mtx_unlock(m); Fiber& f = T->f[T->cur]; f.st = S_COND; f.waitobj = c; f.cond_sig = 0; to_sched(); mtx_lock(m, false, PC); return 0;
}
static int cond_timed(pthread_cond_t* c, pthread_mutex_t* m) { (void)c; mtx_unlock(m); mark_dirty(); Fiber& f = T->f[T->cur]; f.st = S_SLEEP; to_sched(); T->f[T->cur].dirty = 0; mtx_lock(m, false, PC); return ETIMEDOUT; }
extern "C" int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) { if (!in_fiber) return REAL(pthread_cond_timedwait)(c, m, ts); return cond_timed(c, m); }
extern "C" int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* ts) { if (!in_fiber) return REAL(pthread_cond_clockwait)(c, m, k, ts); return cond_timed(c, m); }
extern "C" int pthread_cond_broadcast(pthread_cond_t* c) noexcept { if (!in_fiber) { static auto r = REAL(pthread_cond_broadcast); return r(c); } for (int i = 0; i < T->nf; i++) if (T->f[i].st == S_COND && T->f[i].waitobj == c) T->f[i].cond_sig = 1; mark_dirty(); return 0; }
extern "C" int pthread_cond_signal(pthread_cond_t* c) noexcept { if (!in_fiber) { static auto r = REAL(pthread_cond_signal); return r(c); } for (int i = 0; i < T->nf; i++) if (T->f[i].st == S_COND && T->f[i].waitobj == c) { T->f[i].cond_sig = 1; break; } mark_dirty(); return 0; }
extern "C" int pthread_cond_destroy(pthread_cond_t* c) noexcept { if (!in_fiber) { static auto r = REAL(pthread_cond_destroy); return r(c); } return 0; }

extern "C" int __cxa_guard_acquire(u64* g) {
    u8* b = (u8*)g;
    if (!in_fiber) { if (b[0]) return 0; return 1; }
    for (;;) {
        if (b[0]) { vc_acquire(g); return 0; }
        if (!b[1]) { b[1] = 1; return 1; }
        Fiber& f = T->f[T->cur]; f.st = S_GUARD; f.waitobj = g; to_sched();
    }
}
extern "C" void __cxa_guard_release(u64* g) { u8* b = (u8*)g; if (in_fiber) vc_release(g, true, T->cur); b[0] = 1; b[1] = 0; }
extern "C" void __cxa_guard_abort(u64* g) { ((u8*)g)[1] = 0; }

// ------------------------------------------------------------------ time
static void do_sleep(void* pc) {
    (void)pc;
    sb_flush(T->cur);
    Fiber& f = T->f[T->cur]; f.st = S_SLEEP; g_kind = K_SLEEP; g_pc = pc; g_addr = nullptr;
    to_sched();
    T->f[T->cur].dirty = 0;
    if (tracing) trace.push_back({T->cur, K_SLEEP, nullptr, pc, 0, "(woke)"});
}
extern "C" int nanosleep(const struct timespec* a, struct timespec* b) { if (!in_fiber) return REAL(nanosleep)(a, b); do_sleep(PC); return 0; }
extern "C" int clock_nanosleep(clockid_t c, int fl, const struct timespec* a, struct timespec* b) { if (!in_fiber) return REAL(clock_nanosleep)(c, fl, a, b); do_sleep(PC); return 0; }
extern "C" int usleep(useconds_t u) { if (!in_fiber) return REAL(usleep)(u); do_sleep(PC); return 0; }
extern "C" int sched_yield() noexcept { if (!in_fiber) { static auto r = REAL(sched_yield); return r(); } do_sleep(PC); return 0; }
extern "C" time_t time(time_t* t) noexcept { if (!in_fiber) { struct timeval tv; syscall(SYS_gettimeofday, &tv, 0); if (t) *t = tv.tv_sec; return tv.tv_sec; } if (t) *t = T->sec; return T->sec; }
extern "C" int gettimeofday(struct timeval* tv, void* z) noexcept { if (!in_fiber) return (int)syscall(SYS_gettimeofday, tv, z); tv->tv_sec = T->sec; tv->tv_usec = T->usec; return 0; }
extern "C" int clock_gettime(clockid_t c, struct timespec* ts) noexcept { if (!in_fiber) return (int)syscall(SYS_clock_gettime, c, ts); ts->tv_sec = T->sec; ts->tv_nsec = T->usec * 1000; return 0; }
extern "C" long syscall(long n, ...) noexcept {
    va_list ap; va_start(ap, n); long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long); va_end(ap);
    if (in_fiber && n == SYS_gettid) return 1000 + T->cur;
    static auto r = (long (*)(long, ...))dlsym(RTLD_NEXT, "syscall");
    return r(n, a, b, c, d, e, f);
}
extern "C" pid_t getpid() noexcept { if (in_fiber) return 4242; static auto r = REAL(getpid); return r(); }

// ------------------------------------------------------------------ file model
static void io_check_memory(const void* p, size_t n, void* pc) { if (n) plain((void*)p, n, false, pc); }
static std::string norm(const char* p) { std::string s(p); while (s.size() > 1 && s.back() == '/') s.pop_back(); if (s.compare(0, 2, "./") == 0) s = s.substr(2); return s; }
static int ino_find(const std::string& n) { for (int i = 0; i < NINO; i++) if (T->ino[i].used && T->ino[i].linked && n == T->ino[i].name) return i; return -1; }
static int ino_new(const std::string& n, bool dir) {
    for (int i = 0; i < NINO; i++) if (!T->ino[i].used) { Inode& d = T->ino[i]; memset(&d, 0, sizeof d); d.used = d.linked = 1; d.isdir = dir; d.mtime = T->sec; if (n.size() >= sizeof d.name) die("name too long"); memcpy(d.name, n.c_str(), n.size()); return i; }
    die("inode table full");
}
static bool fault(int op, const char* what) { if (!(T->fault_ops & op) || T->fault_left <= 0 || T->setup) return false; if (!mc_choose(2, what)) return false; T->fault_left--; T->fault_cnt++; return true; }
extern "C" void mc_faults(int ops, int budget) { T->fault_ops = ops; T->fault_left = budget; }
extern "C" int mc_fault_count() { return T->fault_cnt; }
static bool is_fh(FILE* f) { return (u8*)f >= (u8*)T->fh && (u8*)f < (u8*)(T->fh + NFH); }
static FH* fh_chk(FILE* f, const char* op, void* pc) {
    FH* h = (FH*)f;
    if (!h->used) { char m[160]; snprintf(m, sizeof m, "%s on a FILE that another thread has closed [pc %p]", op, pc); do_fail(1, "closed-file", m); }
    return h;
}
static void fh_flush(FH* h) {
    if (!h->nbuf) return; int k = (int)(h - T->fh); Inode& d = T->ino[h->ino];
    if (d.size + h->nbuf > (u32)INOCAP) die("file model capacity");
    memcpy(IDATA(h->ino) + d.size, FDATA(k), h->nbuf); d.size += h->nbuf; d.mtime = T->sec; h->nbuf = 0;
}
extern "C" FILE* fopen(const char* path, const char* mode) {
    if (!in_fiber) return REAL(fopen)(path, mode);
    if (mode[0] != 'r' && fault(MC_F_FOPEN, "fopen fails")) { errno = EMFILE; return nullptr; }
    std::string n = norm(path); bool wr = mode[0] != 'r';
    int i;
    { bool keep = in_fiber; in_fiber = false; i = ino_find(n); if (i < 0 && n.compare(0, 6, "/proc/") == 0) { i = ino_new(n, false); memcpy(IDATA(i), "mcproc", 6); T->ino[i].size = 6; } in_fiber = keep; }
    if (i < 0 && !wr) { errno = ENOENT; n.~basic_string(); new (&n) std::string; return nullptr; }
    if (i >= 0 && T->ino[i].isdir) { errno = EISDIR; return nullptr; }
    if (i < 0) { in_fiber = false; i = ino_new(n, false); in_fiber = true; }
    if (mode[0] == 'w') T->ino[i].size = 0;
    for (int k = 0; k < NFH; k++) {
        u32 j = (T->fh_next + k) % NFH;
        if (!T->fh[j].used) { T->fh_next = (j + 1) % NFH; FH& h = T->fh[j]; h.used = 1; h.mode = wr; h.ino = (short)i; h.pos = 0; h.nbuf = 0; return (FILE*)&h; }
    }
    do_fail(1, "leak", "more than 32 files open at once"); return nullptr;
}
extern "C" FILE* fopen64(const char* path, const char* mode) { if (in_fiber) return fopen(path, mode); return REAL(fopen64)(path, mode); }
static void ino_gc(int i) { if (T->ino[i].linked) return; for (int k = 0; k < NFH; k++) if (T->fh[k].used && T->fh[k].ino == i) return; memset(&T->ino[i], 0, sizeof(Inode)); }
extern "C" int fclose(FILE* f) { if (!in_fiber || !is_fh(f)) return REAL(fclose)(f); FH* h = fh_chk(f, "fclose", PC); fh_flush(h); h->used = 0; ino_gc(h->ino); return 0; }
extern "C" int fflush(FILE* f) { if (!in_fiber) return REAL(fflush)(f); if (!f || !is_fh(f)) return 0; fh_flush(fh_chk(f, "fflush", PC)); return 0; }
static void io_wait_ino(int i, void* pc) { while (T->ino[i].blocked) { Fiber& c = T->f[T->cur]; c.st = S_IO; c.waitobj = &T->ino[i].blocked; g_kind = K_IO; g_pc = pc; g_addr = nullptr; to_sched(); } }
static void scr_put(const char* p, size_t n);
extern "C" size_t fwrite(const void* p, size_t a, size_t b, FILE* f) {
    if (!in_fiber) return REAL(fwrite)(p, a, b, f);
    if (!is_fh(f)) { scr_put((const char*)p, a * b); return b; }
    FH* h = fh_chk(f, "fwrite", PC); size_t n = a * b; io_check_memory(p, n, PC);
    io_wait_ino(h->ino, PC);
    h = fh_chk(f, "fwrite", PC);
    if (h->nbuf + n > (size_t)FHBUF) fh_flush(h);
    if (n > (size_t)FHBUF) die("write too large for the model");
    memcpy(FDATA(h - T->fh) + h->nbuf, p, n); h->nbuf += (u32)n;
    return b;
}
extern "C" size_t fread(void* p, size_t a, size_t b, FILE* f) {
    if (!in_fiber || !is_fh(f)) return REAL(fread)(p, a, b, f);
    FH* h = fh_chk(f, "fread", PC); Inode& d = T->ino[h->ino]; size_t n = std::min(a * b, (size_t)(d.size - h->pos)); memcpy(p, IDATA(h->ino) + h->pos, n); h->pos += (u32)n; return a ? n / a : 0;
}
extern "C" char* fgets(char* s, int n, FILE* f) {
    if (!in_fiber || !is_fh(f)) return REAL(fgets)(s, n, f);
    FH* h = fh_chk(f, "fgets", PC); Inode& d = T->ino[h->ino]; int k = 0; while (k < n - 1 && h->pos < d.size) { char c = (char)IDATA(h->ino)[h->pos++]; s[k++] = c; if (c == '\n') break; } s[k] = 0; return k ? s : nullptr;
}
extern "C" int fileno(FILE* f) noexcept { if (!in_fiber || !is_fh(f)) { static auto r = REAL(fileno); return r(f); } fh_chk(f, "fileno", nullptr); return 200 + (int)((FH*)f - T->fh); }
extern "C" int fstat(int fd, struct stat* s) noexcept {
    if (!in_fiber || fd < 200 || fd >= 200 + NFH) { static auto r = (int (*)(int, struct stat*))dlsym(RTLD_NEXT, "fstat"); return r(fd, s); }
    FH& h = T->fh[fd - 200]; memset(s, 0, sizeof *s); s->st_size = T->ino[h.ino].size; s->st_mtime = T->ino[h.ino].mtime; s->st_mode = S_IFREG | 0644; return 0;
}
extern "C" int fsync(int fd) { if (!in_fiber) return REAL(fsync)(fd); return 0; }
extern "C" int posix_fadvise(int, off_t, off_t, int) noexcept { return 0; }
extern "C" int access(const char* p, int m) noexcept { if (!in_fiber) { static auto r = REAL(access); return r(p, m); } in_fiber = false; int i = ino_find(norm(p)); in_fiber = true; if (i < 0) { errno = ENOENT; return -1; } return 0; }
extern "C" int rename(const char* a, const char* b) noexcept {
    if (!in_fiber) { static auto r = REAL(rename); return r(a, b); }
    if (fault(MC_F_RENAME, "rename fails")) { errno = EACCES; return -1; }
    in_fiber = false; std::string na = norm(a), nb = norm(b); int i = ino_find(na), j = ino_find(nb); in_fiber = true;
    int rc = 0;
    if (i < 0) { errno = ENOENT; rc = -1; } else { if (j >= 0 && j != i) { T->ino[j].linked = 0; ino_gc(j); } memset(T->ino[i].name, 0, sizeof T->ino[i].name); memcpy(T->ino[i].name, nb.c_str(), nb.size()); }
    in_fiber = false; na = std::string(); nb = std::string(); na.shrink_to_fit(); in_fiber = true;
    return rc;
}
extern "C" int remove(const char* a) noexcept { if (!in_fiber) { static auto r = REAL(remove); return r(a); } in_fiber = false; int i = ino_find(norm(a)); in_fiber = true; if (i < 0) { errno = ENOENT; return -1; } T->ino[i].linked = 0; ino_gc(i); return 0; }
extern "C" int mkdir(const char* a, mode_t m) noexcept { if (!in_fiber) { static auto r = REAL(mkdir); return r(a, m); } if (fault(MC_F_MKDIR, "mkdir fails")) { errno = ENOSPC; return -1; } in_fiber = false; int rc = 0; if (ino_find(norm(a)) >= 0) { errno = EEXIST; rc = -1; } else ino_new(norm(a), true); in_fiber = true; return rc; }
static char fake_dir[8];
extern "C" DIR* opendir(const char* a) { if (!in_fiber) return REAL(opendir)(a); in_fiber = false; int i = ino_find(norm(a)); in_fiber = true; if (i >= 0 && T->ino[i].isdir) return (DIR*)fake_dir; errno = ENOENT; return nullptr; }
extern "C" int closedir(DIR* d) { if ((char*)d == fake_dir) return 0; return REAL(closedir)(d); }
// screen
static void scr_put(const char* p, size_t n) { if (T->scr_used + n > (size_t)SCRCAP) return; memcpy(scr_data + T->scr_used, p, n); T->scr_used += (u32)n; }
extern "C" int vprintf(const char* f, va_list ap) { if (!in_fiber) return REAL(vprintf)(f, ap); char b[4096]; int n = vsnprintf(b, sizeof b, f, ap); if (n > (int)sizeof b - 1) n = sizeof b - 1; scr_put(b, n); return n; }
extern "C" int printf(const char* f, ...) { va_list ap; va_start(ap, f); int n; if (in_fiber) { char b[4096]; n = vsnprintf(b, sizeof b, f, ap); if (n > (int)sizeof b - 1) n = sizeof b - 1; scr_put(b, n); } else n = REAL(vprintf)(f, ap); va_end(ap); return n; }
extern "C" int puts(const char* s) { if (!in_fiber) return REAL(puts)(s); scr_put(s, strlen(s)); scr_put("\n", 1); return 1; }
extern "C" int putchar(int c) { if (!in_fiber) return REAL(putchar)(c); char ch = (char)c; scr_put(&ch, 1); return c; }
// sockets
static const int SFD = 300;
extern "C" int socket(int a, int b, int c) noexcept { if (!in_fiber) { static auto r = REAL(socket); return r(a, b, c); } if (fault(MC_F_SOCKET, "socket fails")) { errno = EMFILE; return -1; } for (int i = 0; i < 16; i++) if (!T->sock[i].used) { T->sock[i].used = 1; return SFD + i; } do_fail(1, "leak", "more than 16 sockets open at once"); return -1; }
extern "C" int bind(int fd, const struct sockaddr* a, socklen_t l) noexcept { if (!in_fiber) { static auto r = REAL(bind); return r(fd, a, l); } T->sock[fd - SFD].port = ((const sockaddr_in*)a)->sin_port; return 0; }
extern "C" int fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); void* x = va_arg(ap, void*); va_end(ap); if (!in_fiber) return REAL(fcntl)(fd, cmd, x); return 0; }
extern "C" int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); void* x = va_arg(ap, void*); va_end(ap); if (!in_fiber) return REAL(fcntl)(fd, cmd, x); return 0; }
extern "C" int close(int fd) { if (!in_fiber) return (int)syscall(SYS_close, fd); if (fd >= SFD && fd < SFD + 16) { if (!T->sock[fd - SFD].used) do_fail(1, "closed-file", "close of a socket that is not open"); T->sock[fd - SFD].used = 0; T->sock[fd - SFD].port = 0; } return 0; }
static int blocked_port(int p) { for (int i = 0; i < 4; i++) if (T->blocked_ports[i] == p) return i; return -1; }
extern "C" ssize_t sendto(int fd, const void* b, size_t n, int fl, const struct sockaddr* a, socklen_t l) {
    if (!in_fiber) return REAL(sendto)(fd, b, n, fl, a, l);
    if (fd < SFD || fd >= SFD + 16 || !T->sock[fd - SFD].used) do_fail(1, "closed-file", "send on a socket that is not open");
    int port = ntohs(((const sockaddr_in*)a)->sin_port);
    io_check_memory(b, n, PC);
    if (fault(MC_F_SENDTO, "sendto fails")) { errno = ENOBUFS; return -1; }
    for (int i; (i = blocked_port(port)) >= 0;) { Fiber& c = T->f[T->cur]; c.st = S_IO; c.waitobj = &T->blocked_ports[i]; g_kind = K_IO; g_pc = PC; g_addr = nullptr; to_sched(); }
    if (T->npkt >= MAXPKT || T->sink_used + n > (size_t)SINKCAP) do_fail(1, "duplicate", "output grows without bound");
    T->pkt[T->npkt++] = {T->sink_used, (u16)n, (u16)port}; memcpy(sink_data + T->sink_used, b, n); T->sink_used += (u32)n;
    return (ssize_t)n;
}
extern "C" ssize_t recvfrom(int fd, void* b, size_t n, int fl, struct sockaddr* a, socklen_t* l) {
    if (!in_fiber) return REAL(recvfrom)(fd, b, n, fl, a, l);
    if (T->udp_rd >= T->nudp) { errno = EAGAIN; return -1; }
    int i = T->udp_rd++; size_t k = std::min(n, (size_t)T->udp_len[i]); plain(b, k, true, PC); memcpy(b, udp_data + T->udp_off[i], k); return (ssize_t)k;
}
// shared memory: one segment
extern "C" int shmget(key_t k, size_t n, int fl) noexcept {
    if (!in_fiber) { static auto r = REAL(shmget); return r(k, n, fl); }
    if (T->shm_exists && T->shm_key == k) { if ((fl & IPC_CREAT) && (fl & IPC_EXCL)) { errno = EEXIST; return -1; } return 7; }
    if (!(fl & IPC_CREAT)) { errno = ENOENT; return -1; }
    if (T->shm_exists) die("one shm segment only");
    if (n > SHM_SZ) die("shm segment too large");
    T->shm_exists = 1; T->shm_key = k; T->shm_size = (u32)((n + 4095) & ~4095ull); memset(R + OFF_SHM, 0, T->shm_size); T->shm_att = 0; return 7;
}
extern "C" void* shmat(int id, const void*, int) noexcept { if (!in_fiber) abort(); if (id != 7 || !T->shm_exists) { errno = EINVAL; return (void*)-1; } T->shm_att++; return R + OFF_SHM; }
extern "C" int shmdt(const void* p) noexcept { if (!in_fiber) abort(); if (p != R + OFF_SHM || !T->shm_att) { do_fail(1, "memory", "shmdt of memory that is not an attached segment"); } T->shm_att--; return 0; }
extern "C" int shmctl(int id, int cmd, struct shmid_ds*) noexcept { if (!in_fiber) abort(); if (cmd == IPC_RMID) { if (id != 7) do_fail(1, "memory", "removal of a foreign shared memory segment"); T->shm_exists = 0; T->shm_size = 0; } return 0; }

// ------------------------------------------------------------------ harness API
static void* spawn_tramp(void* p) { void** a = (void**)p; ((void (*)(void*))a[0])(a[1]); return nullptr; }
extern "C" int mc_spawn(void (*fn)(void*), void* arg) { step_env(K_CREATE, nullptr, PC); sb_flush(T->cur); void** a = (void**)arena_alloc(16); a[0] = (void*)fn; a[1] = arg; int i = new_fiber(spawn_tramp, a); vc_new_thread(T->cur, i); mark_dirty(); return i; }
extern "C" void mc_join(int t) { join_fiber(t, PC); }
extern "C" void mc_atomic_begin() { T->setup++; }
extern "C" void mc_atomic_end() { T->setup--; }
extern "C" void mc_point() { step_env(K_USER, nullptr, PC); }
extern "C" void mc_quiesce() { sb_flush(T->cur); Fiber& f = T->f[T->cur]; f.st = S_QUIESCE; g_kind = K_QUIESCE; g_addr = nullptr; g_pc = PC; to_sched(); if (race_on) for (int i = 0; i < T->nf; i++) vc_join(VC[T->cur], VC[i]); }
extern "C" int mc_choose(int n, const char* what) { (void)what; g_choose_n = n; int v; { g_kind = K_USER; g_addr = nullptr; g_pc = PC; to_sched(); v = g_choose_n; g_choose_n = 0; } if (tracing) { void* pc = PC; in_fiber = false; char b[80]; snprintf(b, sizeof b, "choose %s = %d", what, v); trace.push_back({T->cur, K_USER, nullptr, pc, 0, b}); in_fiber = true; } return v; }
extern "C" void mc_fail(const char* cls, const char* fmt, ...) { char m[600]; va_list ap; va_start(ap, fmt); vsnprintf(m, sizeof m, fmt, ap); va_end(ap); do_fail(1, cls, m); }
extern "C" void mc_known(const char* kf, const char* fmt, ...) { char m[600]; va_list ap; va_start(ap, fmt); vsnprintf(m, sizeof m, fmt, ap); va_end(ap); do_fail(2, kf, m); }
extern "C" void mc_outcome(u64 v) { outcome_acc = outcome_acc * 0x9E3779B97F4A7C15ull + v + 1; outcome_set = true; }
extern "C" int mc_self() { return T->cur; }
extern "C" void mc_note(const char* s) { if (tracing) { in_fiber = false; trace.push_back({T->cur, K_USER, nullptr, nullptr, 0, s}); in_fiber = true; } }
extern "C" void mc_clock_set(long long s, long us) { T->sec = s; T->usec = us; mark_dirty(); }
extern "C" void mc_clock_advance(long long s) { T->sec += s; mark_dirty(); }
extern "C" void mc_file_put(const char* p, const char* d, size_t n, long long mt) { in_fiber = false; std::string k = norm(p); int i = ino_find(k); if (i < 0) i = ino_new(k, false); if (n > (size_t)INOCAP) die("file too large"); memcpy(IDATA(i), d, n); T->ino[i].size = (u32)n; T->ino[i].mtime = mt; k = std::string(); in_fiber = true; }
extern "C" void mc_file_del(const char* p) { in_fiber = false; int i = ino_find(norm(p)); in_fiber = true; if (i >= 0) { T->ino[i].linked = 0; ino_gc(i); } }
extern "C" const char* mc_file_get(const char* p, size_t* n) { in_fiber = false; int i = ino_find(norm(p)); in_fiber = true; if (i < 0) { if (n) *n = 0; return nullptr; } if (n) *n = T->ino[i].size; return (const char*)IDATA(i); }
extern "C" int mc_open_handles() { int n = 0; for (int i = 0; i < NFH; i++) n += T->fh[i].used; for (int i = 0; i < 16; i++) n += T->sock[i].used; return n; }
extern "C" int mc_sink_count() { return T->npkt; }
extern "C" const char* mc_sink_get(int i, int* port, size_t* n) { if (port) *port = T->pkt[i].port; if (n) *n = T->pkt[i].len; return sink_data + T->pkt[i].off; }
extern "C" const char* mc_screen(size_t* n) { *n = T->scr_used; return scr_data; }
extern "C" void mc_udp_inject(const char* d, size_t n) { if (T->nudp >= 16) die("udp queue"); T->udp_off[T->nudp] = T->udp_used; T->udp_len[T->nudp] = (u32)n; memcpy(udp_data + T->udp_used, d, n); T->udp_used += (u32)n; T->nudp++; mark_dirty(); }
extern "C" void mc_block_port(int p, int b) { int i = blocked_port(p); if (b && i < 0) { for (i = 0; i < 4; i++) if (!T->blocked_ports[i]) { T->blocked_ports[i] = (u16)p; return; } } else if (!b && i >= 0) T->blocked_ports[i] = 0; }
extern "C" void mc_block_path(const char* p, int b) { in_fiber = false; int i = ino_find(norm(p)); if (i < 0) i = ino_new(norm(p), false); in_fiber = true; T->ino[i].blocked = (u8)b; }
extern "C" int mc_io_waiting() { for (int i = 0; i < T->nf; i++) if (T->f[i].st == S_IO) return 1; return 0; }
extern "C" int mc_shm_segments() { return T->shm_exists; }
extern "C" void* mc_persist() { return T->persist; }
extern "C" void mc_idle(int n) { T->idle_left = n; }
extern "C" void mc_crash_enable(int on) { T->crash_on = on; }
extern "C" int mc_crashes() { return T->crashed; }
extern "C" int mc_threads_alive() { return live_threads(); }
static void add_rng(std::vector<std::pair<u8*, u8*>>& v, const void* p, size_t n) { bool k = in_fiber; in_fiber = false; std::pair<u8*, u8*> r((u8*)p, (u8*)p + n); if (std::find(v.begin(), v.end(), r) == v.end()) { v.push_back(r); std::sort(v.begin(), v.end()); } in_fiber = k; }
extern "C" void mc_guard_range(const void* p, size_t n) { add_rng(guard_rng, p, n); }
extern "C" void mc_ignore_range(const void* p, size_t n) { add_rng(ignore_rng, p, n); }

// ------------------------------------------------------------------ state: segments, hash, snapshot
struct Seg { u8* p; size_t n; };
static int segs(Seg* s, bool forhash) {
    int k = 0;
    for (int i = 0; i < T->nf; i++) {
        if (T->f[i].arena_hw) { s[k++] = {R + (size_t)i * ARENA_SZ, T->f[i].arena_hw}; if (!forhash) s[k++] = {amap + (((size_t)i * ARENA_SZ) >> 3), T->f[i].arena_hw >> 3}; }
        if (T->f[i].st != S_DONE) s[k++] = {(u8*)T->f[i].sp, (size_t)(stk_top(i) - (u8*)T->f[i].sp)};
    }
    if (T->shm_size) s[k++] = {R + OFF_SHM, T->shm_size};
    s[k++] = {exe_lo, (size_t)(exe_hi - exe_lo)};
    for (int i = 0; i < NINO; i++) if (T->ino[i].used && T->ino[i].size) s[k++] = {IDATA(i), T->ino[i].size};
    for (int i = 0; i < NFH; i++) if (T->fh[i].used && T->fh[i].nbuf) s[k++] = {FDATA(i), T->fh[i].nbuf};
    if (T->sink_used) s[k++] = {(u8*)sink_data, T->sink_used};
    if (T->scr_used) s[k++] = {(u8*)scr_data, T->scr_used};
    if (T->udp_used) s[k++] = {(u8*)udp_data, T->udp_used};
    return k;
}
static inline u64 mum(u64 a, u64 b) { __uint128_t r = (__uint128_t)a * b; return (u64)r ^ (u64)(r >> 64); }
static u64 hbytes(const u8* p, size_t n, u64 h) {
    const u64 k0 = 0xa0761d6478bd642full, k1 = 0xe7037ed1a0b428dbull, k2 = 0x8ebc6af09c88c6e3ull, k3 = 0x589965cc75374cc3ull;
    u64 a = h ^ k0, b = h ^ k1, c = h ^ k2, d = h ^ k3; h ^= n * k2;
    while (n >= 64) {
        u64 w[8]; memcpy(w, p, 64);
        a = mum(w[0] ^ k0, w[1] ^ a); b = mum(w[2] ^ k1, w[3] ^ b); c = mum(w[4] ^ k2, w[5] ^ c); d = mum(w[6] ^ k3, w[7] ^ d);
        p += 64; n -= 64;
    }
    while (n >= 8) { u64 w; memcpy(&w, p, 8); a = mum(w ^ k1, a ^ k3); p += 8; n -= 8; }
    if (n) { u64 w = 0; memcpy(&w, p, n); b = mum(w ^ k2, b ^ k0); }
    return mum(mum(a ^ h, b ^ k1) ^ c, d ^ k0) ^ a;
}
static u64 hash_rt(u64 h) {
    h = hbytes((u8*)&T->nf, offsetof(RTs, pkt) - offsetof(RTs, nf), h);
    if (T->npkt) h = hbytes((u8*)T->pkt, sizeof(Pkt) * T->npkt, h);
    h = hbytes((u8*)&T->scr_used, sizeof(RTs) - offsetof(RTs, scr_used), h);
    for (int i = 0; i < T->nf; i++) { Fiber& f = T->f[i]; h = hbytes((u8*)&f, offsetof(Fiber, tls) + tls_len, h); }
    return h;
}
static u64 state_hash() {
    int cur = T->cur; if (SC->bound == 255 && !T->setup && !g_choose_n && !g_crash_only) T->cur = 0;   // who ran last does not matter
    u64 h = hash_rt(vsalt + (u64)g_choose_n * 77); T->cur = cur;
    Seg s[160]; int k = segs(s, true);
    for (int i = 0; i < k; i++) {
        u8* p = s[i].p, *e = p + s[i].n;
        for (auto& r : ignore_rng) { if (r.second <= p || r.first >= e) continue; if (r.first > p) h = hbytes(p, r.first - p, h); p = r.second; }
        if (p < e) h = hbytes(p, e - p, h);
    }
    if (g_crash_only) h ^= 0x1234567ull * (u64)(uintptr_t)g_pc;
    return h ? h : 1;
}
struct Snap { std::vector<u8> b; u64 out_acc; bool out_set; int choose_n; bool crash_only; void* pc; };
static void snap_save(Snap& s) {
    Seg g[160]; int k = segs(g, false); size_t n = sizeof(RTs); for (int i = 0; i < k; i++) n += g[i].n;
    s.b.resize(n); u8* p = s.b.data(); memcpy(p, T, sizeof(RTs)); p += sizeof(RTs);
    for (int i = 0; i < k; i++) { memcpy(p, g[i].p, g[i].n); p += g[i].n; }
    s.out_acc = outcome_acc; s.out_set = outcome_set; s.choose_n = g_choose_n; s.crash_only = g_crash_only; s.pc = g_pc;
}
static void snap_restore(const Snap& s) {
    const u8* p = s.b.data(); memcpy(T, p, sizeof(RTs)); p += sizeof(RTs);
    Seg g[160]; int k = segs(g, false);
    for (int i = 0; i < k; i++) { memcpy(g[i].p, p, g[i].n); p += g[i].n; }
    outcome_acc = s.out_acc; outcome_set = s.out_set; fail_kind = 0; g_choose_n = s.choose_n; g_crash_only = s.crash_only; g_pc = s.pc;
}
static void* main_tramp(void* f) { ((void (*)())f)(); return nullptr; }
static void reset_process(void (*fn)()) {   // fresh process image; persistent: files, sinks, shm, persist, clock
    memcpy(exe_lo, exe_init.data(), exe_init.size());
    T->nf = 0; T->cur = 0; T->setup = 0; T->crash_on = 0;
    for (int i = 0; i < MAXT; i++) T->f[i].arena_hw = 0, T->f[i].st = S_UNUSED;
    memset(T->fh, 0, sizeof T->fh); memset(T->sock, 0, sizeof T->sock); T->fh_next = 0; T->shm_att = 0;
    new_fiber(main_tramp, (void*)fn);
    vc_reset();
}
static void reset_all() {
    memset(T, 0, sizeof *T); T->sec = 1700000000; T->usec = 123000; fail_kind = 0; g_choose_n = 0; g_crash_only = false; outcome_acc = 0; outcome_set = false;
    reset_process(SC->main_fn);
}

// ------------------------------------------------------------------ scheduler / explorer
enum { A_DRAIN = 16, A_CRASH = 32, A_VAL = 64 };
static bool enabled(int i) {
    Fiber& f = T->f[i];
    switch (f.st) {
    case S_READY: return true;
    case S_SLEEP: return f.dirty;
    case S_MUTEX: return ((pthread_mutex_t*)f.waitobj)->__data.__owner == 0;
    case S_JOIN: return T->f[f.join_target].st == S_DONE;
    case S_IO: return *(u8*)f.waitobj == 0 && (((u8*)f.waitobj >= (u8*)T->blocked_ports && (u8*)f.waitobj < (u8*)T->blocked_ports + 8) ? *(u16*)f.waitobj == 0 : true);
    case S_GUARD: return ((u8*)f.waitobj)[1] == 0;
    case S_COND: return f.cond_sig;
    default: return false;
    }
}
static void run_fiber(int i) {
    Fiber& f = T->f[i]; T->cur = i; f.st = S_READY;
    if (tls_len) memcpy(tls_ptr, f.tls, tls_len);
    memset((u8*)f.sp - 1536, 0, 1536);
    run_steps++; solo_steps++;
    mc_switch(&sched_sp, f.sp);
}
struct Opt { u8 a; u8 cost; };
enum { R_END, R_CHOICE };
// compute the options at the current point
static int options(Opt* o, bool* stuck) {
    int n = 0; *stuck = false;
    if (g_choose_n) { for (int v = 0; v < g_choose_n; v++) o[n++] = {(u8)(A_VAL + v), 0}; return n; }
    int cur = T->cur; bool cur_en = cur < T->nf && enabled(cur);
    if (g_crash_only) { o[n++] = {(u8)cur, 0}; if (T->crash_on && T->crashed < T->crash_on) o[n++] = {A_CRASH, 0}; return n; }
    bool ready_cur = cur_en && T->f[cur].st != S_SLEEP;
    bool det = T->setup > 0;
    if (ready_cur && T->f[cur].nsb && !det) o[n++] = {(u8)(A_DRAIN + cur), 0};
    if (ready_cur) { o[n] = {(u8)cur, (u8)(n ? 1 : 0)}; n++; }
    if (!(det && n)) {
        for (int i = 0; i < T->nf; i++) {
            if (ready_cur && i == cur) continue;
            if (enabled(i)) { o[n++] = {(u8)i, (u8)(ready_cur ? 1 : 0)}; if (det) break; }
            if (T->f[i].nsb) o[n++] = {(u8)(A_DRAIN + i), 0};
        }
    }
    if (!n && T->idle_left > 0) {   // time passes although nothing has changed: the sleepers wake up in turn and look again
        int k = 0, w[MAXT]; for (int i = 0; i < T->nf; i++) if (T->f[i].st == S_SLEEP) w[k++] = i;
        if (k) { T->f[w[T->idle_left-- % k]].dirty = 1; solo_steps = 0; T->usec += 10000; if (T->usec >= 1000000) { T->usec -= 1000000; T->sec++; } return options(o, stuck); }
    }
    if (!n) for (int i = 0; i < T->nf; i++) if (T->f[i].st == S_QUIESCE) { o[n++] = {(u8)i, 0}; break; }
    if (!n) { *stuck = true; return 0; }
    if (T->crash_on && T->crashed < T->crash_on && !det) o[n++] = {A_CRASH, 0};
    return n;
}
static void apply(int a) {
    bool co = g_crash_only; g_crash_only = false; (void)co;
    if (a >= A_VAL) { g_choose_n = a - A_VAL; run_fiber(T->cur); return; }
    if (a == A_CRASH) { T->crashed++; SH->crashes++; if (tracing) trace.push_back({T->cur, K_USER, nullptr, nullptr, 0, "*** CRASH: process dies here; recovery process starts"}); reset_process(SC->recover_fn); return; }
    if (a >= A_DRAIN) { int t = a - A_DRAIN; if (tracing) trace.push_back({t, K_STORE, T->f[t].sb[0].addr, nullptr, 0, "(store becomes visible)"}); sb_drain_one(t); return; }
    run_fiber(a);
}
static bool finished() { return fail_kind || T->f[0].st == S_DONE; }
// run until the next real choice (>= 2 options) or the end
static int advance(Opt* o, int* n) {
    for (;;) {
        if (finished()) return R_END;
        if (solo_steps > STEP_LIMIT) { do_fail(1, "livelock", "no progress: threads run forever without completing (60000 steps)"); return R_END; }
        bool stuck; *n = options(o, &stuck);
        if (stuck) {
            std::string s = "no thread can ever run again:";
            for (int i = 0; i < T->nf; i++) if (T->f[i].st != S_DONE) { const char* w[] = {"?", "ready", "asleep waiting for a change", "waiting for a mutex", "joining", "quiescing", "blocked in output", "done", "init", "cond"}; s += " T" + std::to_string(i) + " " + w[T->f[i].st]; if (T->f[i].st == S_JOIN) s += " T" + std::to_string(T->f[i].join_target); if (T->f[i].st == S_MUTEX) s += " held by T" + std::to_string(((pthread_mutex_t*)T->f[i].waitobj)->__data.__owner - 1); s += ";"; }
            do_fail(1, "deadlock", s.c_str()); return R_END;
        }
        if (*n == 1) { apply(o[0].a); continue; }
        return R_CHOICE;
    }
}
static bool visit(u64 h, u8 bud) {   // true = already explored with at least this budget
    u64 i = (h * 0x9E3779B97F4A7C15ull) >> 20;
    for (int probes = 0; probes < 2000; probes++, i++) {
        u64 k = i & vmask; u64 v = vtab[k].load(std::memory_order_relaxed);
        if (!v) { u64 z = 0; if (vtab[k].compare_exchange_strong(z, h)) { vbud[k] = bud; SH->states.fetch_add(1, std::memory_order_relaxed); return false; } v = z; }
        if (v == h) { u8 b = vbud[k]; for (;;) { if (b >= bud) return true; if (vbud[k].compare_exchange_weak(b, bud)) return false; } }
    }
    SH->capped = 1; SH->stop = 1; return true;   // table full: reported as a cap
}
struct Node { u8 chosen; u8 nalt, ialt; u8 bud; int snap; Opt alts[16]; };
static std::vector<Node> path; static std::vector<Snap*> snaps, freesnaps;
static void record(Rec& r) { r.len = (int)std::min(path.size(), (size_t)MAXD); for (int i = 0; i < r.len; i++) r.c[i] = path[i].chosen; snprintf(r.cls, sizeof r.cls, "%s", fail_cls); snprintf(r.msg, sizeof r.msg, "%s", fail_msg); r.set = 1; }
static void lock() { int z = 0; while (!SH->lock.compare_exchange_weak(z, 1)) { z = 0; __builtin_ia32_pause(); } }
static void unlock() { SH->lock = 0; }
static void on_end() {
    SH->ends.fetch_add(1, std::memory_order_relaxed);
    if (fail_kind == 1) { lock(); if (!SH->viol.set || (int)path.size() < SH->viol.len) record(SH->viol); unlock(); SH->stop = 1; }
    else if (fail_kind == 2) {
        SH->known_hits++;
        lock(); int n = SH->nknown, i; for (i = 0; i < n; i++) if (!strcmp(SH->known[i].cls, fail_cls)) break;
        if (i == n && n < MAXKF) { record(SH->known[n]); SH->nknown = n + 1; } else if (i < n && (int)path.size() < SH->known[i].len) record(SH->known[i]);
        unlock();
    } else if (outcome_set) {
        u64 h = outcome_acc ? outcome_acc : 1; int i = (int)((h * 0x9E3779B97F4A7C15ull) >> 52);
        for (int k = 0; k < 64; k++, i = (i + 1) & 4095) { u64 z = 0; if (SH->outcomes[i].compare_exchange_strong(z, h)) { SH->noutcomes++; break; } if (z == h) break; }
        int s = SH->nsample.load();
        if (s < 3 && SH->nsample.compare_exchange_strong(s, s + 1)) { std::string t; for (auto& n : path) { if (t.size() > 1300) { t += "..."; break; } t += n.chosen >= A_VAL ? "v" + std::to_string(n.chosen - A_VAL) : n.chosen == A_CRASH ? "X" : n.chosen >= A_DRAIN ? "d" + std::to_string(n.chosen - A_DRAIN) : std::to_string(n.chosen); t += " "; } snprintf(SH->sample[s], sizeof SH->sample[s], "%s", t.c_str()); }
    }
}
static void truncate_path(size_t n) { while (path.size() > n) { if (path.back().snap >= 0) { freesnaps.push_back(snaps.back()); snaps.pop_back(); } path.pop_back(); } }
static Snap* root_snap;
static void explore_item(const u8* pre, int prelen) {
    Opt o[48]; int n; size_t base = 0;
    truncate_path(0);
    snap_restore(*root_snap); if (race_on) { reset_all(); } solo_steps = 0;
    SH->execs.fetch_add(1, std::memory_order_relaxed);
    u8 bud = (u8)(caching ? SC->bound : SC->race_bound);
    // replay the prefix
    bool fresh = true;
    for (int d = 0; d < prelen; d++) {
        if (advance(o, &n) != R_CHOICE) die("divergence: prefix ends early at %d of %d (%s)", d, prelen, fail_msg);
        int k; for (k = 0; k < n; k++) if (o[k].a == pre[d]) break;
        if (k == n) die("divergence: option %d not available at depth %d", pre[d], d);
        if (bud != 255) { if (o[k].cost > bud) die("divergence: budget"); bud -= o[k].cost; }
        Node nd; nd.chosen = pre[d]; nd.nalt = nd.ialt = 0; nd.bud = bud; nd.snap = -1; path.push_back(nd);
        apply(pre[d]);
    }
    base = path.size();
    u64 ltr = 0;
    for (;;) {
        // extend
        bool cut = false;
        for (;;) {
            int r = advance(o, &n);
            if (r == R_END) { on_end(); break; }
            if ((int)path.size() >= MAXD - 1) { do_fail(1, "livelock", "no progress: an execution goes on without end"); on_end(); break; }
            ltr++;
            if (caching && !fresh) { /* fallthrough: every reached choice point is looked up */ }
            if (caching) { u64 h = state_hash(); if (visit(h, bud)) { cut = true; break; } }
            fresh = false;
            Node nd; nd.nalt = nd.ialt = 0; nd.snap = -1; nd.bud = bud; nd.chosen = o[0].a;
            for (int k = 1; k < n; k++) { if (bud != 255 && o[k].cost > bud) { SH->budget_cut.fetch_add(1, std::memory_order_relaxed); continue; } if (nd.nalt < 16) nd.alts[nd.nalt++] = o[k]; else die("too many options"); }
            if (o[0].cost) die("default option has a cost");
            if (caching && nd.nalt) {
                int last = -1; for (int k = (int)path.size() - 1; k >= 0; k--) if (path[k].snap >= 0) { last = k; break; }
                if (last < 0 || (int)path.size() - last >= 6) { Snap* s; if (freesnaps.size()) { s = freesnaps.back(); freesnaps.pop_back(); } else s = new Snap; snap_save(*s); nd.snap = (int)snaps.size(); snaps.push_back(s); }
            }
            path.push_back(nd);
            apply(nd.chosen);
        }
        if (cut) SH->pruned.fetch_add(1, std::memory_order_relaxed);
        if ((int)path.size() > SH->maxdepth) SH->maxdepth = (int)path.size();
        SH->transitions.fetch_add(ltr, std::memory_order_relaxed); ltr = 0;
        SH->steps.fetch_add(run_steps, std::memory_order_relaxed); run_steps = 0;
        if (SH->stop || SH->relearn) return;
        if (now_s() > SH->t_end) { SH->capped = 1; SH->stop = 1; return; }
        // donate work
        if (SH->idle > 0 && SH->qn < 4) {
            for (size_t k = base; k < path.size(); k++) if (path[k].ialt < path[k].nalt) {
                lock();
                if (SH->qn < QN) { Item& it = SH->q[SH->qn++]; it.len = (u16)(k + 1); for (size_t j = 0; j < k; j++) it.c[j] = path[j].chosen; it.c[k] = path[k].alts[--path[k].nalt].a; }
                unlock(); break;
            }
        }
        // backtrack
        while (path.size() > base && path.back().ialt >= path.back().nalt) truncate_path(path.size() - 1);
        if (path.size() <= base) { return; }
        size_t i = path.size() - 1; Node cur = path[i];
        size_t j = i; int sn = -1;
        if (caching) for (size_t k = i + 1; k-- > 0;) if (path[k].snap >= 0) { sn = path[k].snap; j = k; break; }
        if (sn >= 0) snap_restore(*snaps[sn]);
        else { snap_restore(*root_snap); if (race_on) reset_all(); j = 0; advance(o, &n); }
        SH->execs.fetch_add(1, std::memory_order_relaxed);
        solo_steps = 0;
        for (size_t k = j; k < i; k++) {
            apply(path[k].chosen);
            if (advance(o, &n) != R_CHOICE) die("divergence in replay at %zu/%zu: %s", k, i, fail_msg);
        }
        Opt alt = path[i].alts[path[i].ialt++];
        // verify availability (determinism check)
        bool stuck; n = options(o, &stuck); bool ok = false; for (int k = 0; k < n; k++) ok |= o[k].a == alt.a;
        if (!ok) die("divergence: alternative %d vanished", alt.a);
        path[i].chosen = alt.a; u8 before = i ? 0 : 0; (void)before; (void)cur;
        bud = path[i].bud; if (bud != 255) bud -= alt.cost;
        // children of this node must start from the reduced budget: remember it in the next node via bud
        solo_steps = 0;
        apply(alt.a);
    }
}
// prefix replay of budgets: Node.bud is the budget *before* its choice for explored nodes
static void worker() {
    Item* it = (Item*)malloc(sizeof(Item));
    bool idle = false;
    for (;;) {
        if (SH->stop || SH->relearn) break;
        lock(); bool got = false; if (SH->qn > 0) { *it = SH->q[--SH->qn]; got = true; if (idle) { SH->idle--; idle = false; } } unlock();
        if (!got) { if (!idle) { SH->idle++; idle = true; } extern int g_nworkers; if (SH->idle >= g_nworkers && SH->qn == 0) break; struct timespec ts = {0, 50000}; syscall(SYS_nanosleep, &ts, 0); continue; }
        explore_item(it->c, it->len);
    }
    _exit(0);
}
int g_nworkers = 8;
static void build_root() { reset_all(); if (!root_snap) root_snap = new Snap; snap_save(*root_snap); }
static void freeze_maps() {
    for (size_t i = 0; i < REGION / 8; i++) amapR[i] = cell_sched(lmap[i]);
    for (size_t i = 0; i < (size_t)(exe_hi - exe_lo) / 8 + 1; i++) amapE[i] = cell_sched(emap[i]);
}
static int count_sched() { int n = 0; for (size_t i = 0; i < REGION / 8; i++) n += amapR[i]; for (size_t i = 0; i < (size_t)(exe_hi - exe_lo) / 8 + 1; i++) n += amapE[i]; return n; }
static void* shmap(size_t n) { void* p = mmap(0, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) die("mmap"); return p; }
static u64 pass_no;
static bool run_pass(bool cache, double cap) {   // returns false when a relearn is needed
    caching = cache; race_on = !cache;
    freeze_maps();
    SH->lock = 0; SH->qn = 1; SH->q[0].len = 0; SH->idle = 0; SH->stop = 0; SH->relearn = 0; SH->t_end = now_s() + cap;
    vsalt = 0x51ED270B * ++pass_no; 
    if (cache) { SH->states = 0; memset((void*)SH->outcomes, 0, sizeof SH->outcomes); SH->noutcomes = 0; SH->nsample = 0; }
    SH->transitions = 0; SH->execs = 0; SH->ends = 0; SH->pruned = 0; SH->budget_cut = 0; SH->maxdepth = 0; SH->capped = 0;
    build_root();
    std::vector<pid_t> ps; fflush(stdout); fflush(stderr);
    for (int i = 0; i < g_nworkers; i++) { pid_t p = fork(); if (!p) worker(); ps.push_back(p); }
    for (size_t i = 0; i < ps.size(); i++) {
        int st; pid_t p = waitpid(-1, &st, 0); (void)p;
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { if (!SH->internal_err) { snprintf(SH->err, sizeof SH->err, "worker died: status 0x%x", st); SH->internal_err = 2; } SH->stop = 1; }
    }
    return !SH->relearn;
}
// crash of a worker: the code under test took a signal. Record the path so that it can be reported.
static void sig_handler(int s, siginfo_t* si, void* uc) {
    (void)uc;
    if (in_fiber && SH) {
        in_fiber = false; char m[160]; snprintf(m, sizeof m, "the program crashes: signal %d (%s) at address %p in T%d", s, strsignal(s), si->si_addr, T->cur);
        if (!fail_kind) { fail_kind = 1; snprintf(fail_cls, sizeof fail_cls, "crash"); snprintf(fail_msg, sizeof fail_msg, "%s", m); }
        lock(); if (!SH->viol.set || (int)path.size() < SH->viol.len) record(SH->viol); unlock(); SH->stop = 1; _exit(0);
    }
    signal(s, SIG_DFL); raise(s);
}
static void symbolize(std::string& out) {
    // addr2line on all pcs at once
    std::map<void*, std::string> m; for (auto& e : trace) if (e.pc) m[e.pc];
    char exe[400]; ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1); if (n > 0) { exe[n] = 0;
        std::string cmd = std::string("addr2line -e ") + exe; std::vector<void*> v; for (auto& k : m) { char b[40]; snprintf(b, sizeof b, " 0x%zx", (size_t)k.first - 1); cmd += b; v.push_back(k.first); }
        if (v.size() && v.size() < 3000) if (FILE* p = popen((cmd + " 2>/dev/null").c_str(), "r")) { char b[600]; size_t i = 0; while (fgets(b, sizeof b, p) && i < v.size()) { b[strcspn(b, "\n")] = 0; const char* s = strrchr(b, '/'); m[v[i++]] = s ? s + 1 : b; } pclose(p); } }
    int last = -1;
    for (auto& e : trace) {
        char b[400]; snprintf(b, sizeof b, "%s  T%d %-9s %-22s %s %s\n", e.tid != last ? "--" : "  ", e.tid, KN[e.kind], e.addr ? where(e.addr).c_str() : "", e.pc ? m[e.pc].c_str() : "", e.note.c_str()); last = e.tid; out += b;
    }
}
// replay a recorded schedule in a child; returns message
static bool replay(const Rec& r, bool cache_mode, std::string& msg, std::string* tr, char* cls) {
    char* buf = (char*)shmap(4 << 20); char* b2 = (char*)shmap(4096); fflush(stdout);
    pid_t p = fork();
    if (!p) {
        caching = cache_mode; race_on = !cache_mode; tracing = true;
        build_root(); snap_restore(*root_snap); if (race_on) reset_all();
        Opt o[48]; int n; int d = 0; solo_steps = 0;
        path.clear();
        // crash handler writes into SH->viol; use the shared buffer instead
        for (;;) {
            if (advance(o, &n) == R_END) break;
            int a = d < r.len ? r.c[d] : o[0].a; d++;
            int k; for (k = 0; k < n; k++) if (o[k].a == a) break; if (k == n) { snprintf(b2, 4096, "DIVERGED at %d", d); _exit(0); }
            Node nd; nd.chosen = (u8)a; nd.nalt = nd.ialt = 0; nd.snap = -1; nd.bud = 0; path.push_back(nd);
            solo_steps = 0; if (d > r.len + 50000) break;
            apply(a);
        }
        snprintf(b2, 4096, "%d|%s|%s", fail_kind, fail_cls, fail_msg);
        in_fiber = false; std::string s; symbolize(s); snprintf(buf, 4 << 20, "%s", s.c_str());
        _exit(0);
    }
    int st; waitpid(p, &st, 0);
    std::string x = b2; size_t q = x.find('|'), q2 = q == std::string::npos ? q : x.find('|', q + 1);
    if (q2 == std::string::npos) { msg = x; if (!strcmp(r.cls, "crash") && SH->viol.set) { msg = SH->viol.msg; if (cls) snprintf(cls, 40, "crash"); munmap(buf, 4 << 20); munmap(b2, 4096); return msg == r.msg; } munmap(buf, 4 << 20); munmap(b2, 4096); return false; }
    msg = x.substr(q2 + 1); if (cls && x[0] == '1') snprintf(cls, 40, "%s", x.substr(q + 1, q2 - q - 1).c_str());
    if (tr) *tr = buf;
    auto endless = [](const std::string& c) { return c == "deadlock" || c == "livelock"; };
    bool same = msg == r.msg || (x[0] == '1' && endless(r.cls) && endless(x.substr(q + 1, q2 - q - 1)));
    munmap(buf, 4 << 20); munmap(b2, 4096);
    return same;
}
static int find_exe(struct dl_phdr_info* i, size_t, void*) {
    for (int k = 0; k < i->dlpi_phnum; k++) {
        auto& p = i->dlpi_phdr[k];
        if (p.p_type == PT_LOAD && (p.p_flags & PF_W)) { exe_lo = (u8*)(i->dlpi_addr + p.p_vaddr); exe_hi = exe_lo + p.p_memsz; }
        if (p.p_type == PT_TLS) { tls_ptr = (u8*)i->dlpi_tls_data; tls_len = p.p_memsz; }
    }
    for (int k = 0; k < i->dlpi_phnum; k++) { auto& p = i->dlpi_phdr[k]; if (p.p_type == PT_GNU_RELRO) { u8* e = (u8*)(i->dlpi_addr + p.p_vaddr + p.p_memsz); e = (u8*)(((uintptr_t)e + 4095) & ~4095ull); if (e > exe_lo && e <= exe_hi) exe_lo = e; else if (e > exe_hi) exe_lo = exe_hi; } }
    exe_lo = (u8*)((uintptr_t)exe_lo & ~7ull);
    return 1;
}
static std::string jesc(const std::string& s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((u8)c < 32 || (u8)c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", (u8)c); r += b; } else r += c; } return r; }

extern "C" int mc_run(int argc, char** argv, const char* prop, const McScenario* scs, int ns) {
    const char* tier = getenv("VERIF_TIER"); bool thorough = tier && !strcmp(tier, "thorough");
    const char* out = nullptr, *only = nullptr, *rdir = "/tmp"; double capscale = 1; bool quiet = false; int verbose = 0; int force_bound = -2;
    for (int i = 1; i < argc; i++) { std::string a = argv[i]; if (a == "--out") out = argv[++i]; else if (a == "--only") only = argv[++i]; else if (a == "--rdir") rdir = argv[++i]; else if (a == "--workers") g_nworkers = atoi(argv[++i]); else if (a == "--thorough") thorough = true; else if (a == "--capscale") capscale = atof(argv[++i]); else if (a == "-v") verbose++; else if (a == "--bound") force_bound = atoi(argv[++i]); }
    (void)quiet; setvbuf(stdout, nullptr, _IOLBF, 0);
    setenv("TZ", "UTC", 1); tzset();
    if (mmap(R, REGION, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0) != R) die("cannot map the region");
    auto priv = [](size_t n) { void* p = mmap(0, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) die("mmap"); return (u8*)p; };
    amap = priv(REGION / 8); T = (RTs*)priv(sizeof(RTs)); ino_data = priv(NINO * INOCAP); fh_data = priv(NFH * FHBUF); sink_data = (char*)priv(SINKCAP); scr_data = (char*)priv(SCRCAP); udp_data = (char*)priv(65536 * 4);
    dl_iterate_phdr(find_exe, nullptr);
    if (tls_len > (size_t)TLSMAX) die("TLS too large: %zu", tls_len);
    if (tls_len) tls_init.assign(tls_ptr, tls_ptr + tls_len);
    exe_init.assign(exe_lo, exe_hi);
    SH = (Shared*)shmap(sizeof(Shared)); 
    amapR = priv(REGION / 8); amapE = priv((exe_hi - exe_lo) / 8 + 16);
    shR = (Sh*)priv(REGION * sizeof(Sh)); shE = (Sh*)priv((exe_hi - exe_lo + 16) * sizeof(Sh)); syncs = (SyncEnt*)priv(NSYNC * sizeof(SyncEnt));
    lmap = (u16*)shmap(REGION / 4); emap = (u16*)shmap((exe_hi - exe_lo) / 4 + 32);
    stack_t ss; ss.ss_sp = priv(65536); ss.ss_size = 65536; ss.ss_flags = 0; sigaltstack(&ss, nullptr);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = sig_handler; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER; for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) sigaction(s, &sa, nullptr);
    std::string js; u64 tot_states = 0, tot_tr = 0, tot_ex = 0, tot_ends = 0, tot_race = 0, tot_steps = 0, tot_crash = 0; bool all_exh = true; int rc = 0; std::string samples; u64 nval = 0;
    double t0 = now_s();
    for (int si = 0; si < ns && rc == 0; si++) {
        McScenario sc = scs[si]; if (force_bound != -2) sc.bound = force_bound < 0 ? 255 : force_bound;
        SC = &sc; if (only && !strstr(sc.name, only)) continue;
        if ((sc.thorough == 1 && !thorough) || (sc.thorough == 2 && thorough)) { if (!only) continue; }
        tso_on = sc.tso; relaxed_pts = sc.relaxed_points; double ts = now_s();
        memset(lmap, 0, REGION / 4); memset(emap, 0, (exe_hi - exe_lo) / 4 + 32); guard_rng.clear(); ignore_rng.clear();
        memset((void*)&SH->viol, 0, sizeof SH->viol); SH->nknown = 0; SH->known_hits = 0; SH->internal_err = 0; SH->steps = 0; SH->crashes = 0;
        int vb = thorough ? 28 : VBITS_Q; vmask = (1ull << vb) - 1; vtab = (std::atomic<u64>*)shmap((vmask + 1) * 8); vbud = (std::atomic<u8>*)shmap(vmask + 1);
        u64 race_execs = 0; int iters = 0; double cap = sc.time_cap_s * capscale * (thorough ? 6 : 1); bool capped = false; bool race_capped = false;
        bool race_mode_viol = false;
        for (;;) {
            iters++;
            // a dry run in-process registers guard/ignore ranges deterministically (default schedule)
            { caching = true; race_on = false; freeze_maps(); build_root(); Opt o[48]; int n; snap_restore(*root_snap); solo_steps = 0; int d = 0; while (advance(o, &n) == R_CHOICE && d++ < 20000) { solo_steps = 0; apply(o[0].a); } if (verbose) printf("  [%s] dry run: depth %d, fail=%d %s\n", sc.name, d, fail_kind, fail_kind ? fail_msg : ""); }
            if (sc.race_bound >= 0) {
                bool ok = run_pass(false, cap); race_execs += SH->execs; race_capped = SH->capped;
                if (!ok && SH->viol.set) { memset((void*)&SH->viol, 0, sizeof SH->viol); if (SH->internal_err == 0) SH->stop = 0; }   // judged again with the finer granularity
                if (SH->internal_err || SH->viol.set) { race_mode_viol = true; break; }
                if (verbose) printf("  [%s] race pass %d: execs=%lu ends=%lu sched-locs=%d %s %.1fs\n", sc.name, iters, (unsigned long)SH->execs, (unsigned long)SH->ends, count_sched(), ok ? "" : "relearn", now_s() - ts);
                if (!ok) { if (iters > 60) die("learning does not converge"); continue; }
            }
            bool ok = run_pass(true, cap); capped = SH->capped;
            if (verbose) printf("  [%s] pass %d: states=%lu trans=%lu execs=%lu ends=%lu pruned=%lu depth=%d outcomes=%d sched-locs=%d %s%s %.1fs\n", sc.name, iters, (unsigned long)SH->states, (unsigned long)SH->transitions, (unsigned long)SH->execs, (unsigned long)SH->ends, (unsigned long)SH->pruned, (int)SH->maxdepth, (int)SH->noutcomes, count_sched(), ok ? "" : "relearn", capped ? " CAPPED" : "", now_s() - ts);
            if (!ok) memset((void*)&SH->viol, 0, sizeof SH->viol);
            if (SH->internal_err || SH->viol.set) break;
            if (ok) break;
            if (iters > 60) die("learning does not converge");
        }
        if (SH->internal_err && !SH->viol.set) { printf("ERROR fnmc: scenario %s: %s\n", sc.name, SH->err); return 2; }
        char path1[600];
        auto emit = [&](const Rec& r, bool cm, const char* tag, std::string& tr) { snprintf(path1, sizeof path1, "%s/%s-%s-%s.txt", rdir, prop, sc.name, tag); if (FILE* f = fopen(path1, "w")) { fprintf(f, "property %s\nscenario %s (%s)\nclass %s\n%s\nmode %s\nchoices", prop, sc.name, sc.what, r.cls, r.msg, cm ? "stateful" : "race-detecting"); for (int i = 0; i < r.len; i++) fprintf(f, " %d", r.c[i]); fprintf(f, "\n(choice: thread id; 16+t store of t becomes visible; 32 crash; 64+v environment value v)\n\nschedule (T0 is the scenario's main thread):\n%s", tr.c_str()); fclose(f); } };
        if (SH->viol.set) {
            Rec r = SH->viol; std::string m1, m2, tr; bool cm = !race_mode_viol;
            SH->stop = 0; char c1[40] = "", c2[40] = ""; bool a = replay(r, cm, m1, &tr, c1), b = replay(r, cm, m2, nullptr, c2);
            if ((!a || !b) && *c1 && !strcmp(c1, c2) && m1 == m2) { snprintf(r.cls, sizeof r.cls, "%s", c1); snprintf(r.msg, sizeof r.msg, "%s", m1.c_str()); a = b = true; }   // the same choices, run from the start twice, violate the property in another way
            if (!a || !b) { emit(r, cm, "noreplay", tr); printf("ERROR fnmc: scenario %s: violation did not replay: first:<%s> replays:<%s> <%s>\n", sc.name, r.msg, m1.c_str(), m2.c_str()); return 2; }
            emit(r, cm, "violation", tr);
            printf("scenario %s: [%s] %s\n", sc.name, r.cls, r.msg);
            printf("VIOLATION property=%s replay=%s\n", prop, path1); rc = 1;
        }
        for (int i = 0; i < SH->nknown; i++) {
            Rec& r = SH->known[i]; std::string m, tr; bool a = replay(r, true, m, &tr, nullptr); nval += a; char tag[64]; snprintf(tag, sizeof tag, "known-%s", r.cls); emit(r, true, tag, tr);
            printf("KNOWN %s %s | %s\n", r.cls, sc.name, r.msg);
        }
        // replay one passing execution for determinism evidence
        bool exh = !capped && SH->budget_cut == 0 && sc.bound == 255; all_exh &= !capped;
        tot_states += SH->states; tot_tr += SH->transitions; tot_ex += SH->execs; tot_ends += SH->ends; tot_race += race_execs; tot_steps += SH->steps; tot_crash += SH->crashes;
        char b[2600]; snprintf(b, sizeof b, "%s{\"scenario\":\"%s\",\"what\":\"%s\",\"deviation_bound\":%s,\"states\":%lu,\"transitions\":%lu,\"executions\":%lu,\"complete_executions\":%lu,\"pruned_revisits\":%lu,\"max_depth\":%d,\"distinct_outcomes\":%d,\"race_pass_executions\":%lu,\"race_bound\":%d,\"tso\":%d,\"crash_points_taken\":%lu,\"all_interleavings\":%s,\"time_cap_hit\":%s,\"wall_s\":%.1f}",
            js.empty() ? "" : ",", sc.name, jesc(sc.what).c_str(), sc.bound == 255 ? "\"none\"" : std::to_string(sc.bound).c_str(), (unsigned long)SH->states, (unsigned long)SH->transitions, (unsigned long)SH->execs, (unsigned long)SH->ends, (unsigned long)SH->pruned, (int)SH->maxdepth, (int)SH->noutcomes, (unsigned long)race_execs, sc.race_bound, sc.tso, (unsigned long)SH->crashes, exh ? "true" : "false", (capped || race_capped) ? "true" : "false", now_s() - ts);
        js += b;
        if (SH->nsample > 0) { if (!samples.empty()) samples += ","; samples += std::string("\"") + sc.name + ": " + jesc(SH->sample[0]) + "\""; }
        printf("fnmc %s/%s: states=%lu transitions=%lu executions=%lu race-executions=%lu outcomes=%d bound=%s%s (%.1fs)\n", prop, sc.name, (unsigned long)SH->states, (unsigned long)SH->transitions, (unsigned long)SH->execs, (unsigned long)race_execs, (int)SH->noutcomes, sc.bound == 255 ? "none" : std::to_string(sc.bound).c_str(), capped ? " TIME CAP HIT" : "", now_s() - ts);
        munmap((void*)vtab, (vmask + 1) * 8); munmap((void*)vbud, vmask + 1);
    }
    if (out) if (FILE* f = fopen(out, "w")) {
        fprintf(f, "{\"states\":%lu,\"transitions\":%lu,\"executions\":%lu,\"complete_executions\":%lu,\"race_pass_executions\":%lu,\"crash_points\":%lu,\"instruction_steps\":%lu,\"known_replayed\":%lu,\"no_cap_hit\":%s,\"rc\":%d,\"wall_s\":%.1f,\"scenarios\":[%s],\"samples\":[%s]}\n", (unsigned long)tot_states, (unsigned long)tot_tr, (unsigned long)tot_ex, (unsigned long)tot_ends, (unsigned long)tot_race, (unsigned long)tot_crash, (unsigned long)tot_steps, (unsigned long)nval, all_exh ? "true" : "false", rc, now_s() - t0, js.c_str(), samples.c_str()); fclose(f);
    }
    return rc;
}
