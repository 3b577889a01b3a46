#include "sx.h"
#include <atomic>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <netdb.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/shm.h>
#include <sys/socket.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

static Env* g_env;
Env& env() { return *g_env; }
typedef std::lock_guard<std::recursive_mutex> G;
static const int FD0 = 1 << 20, SK0 = 1 << 21;
struct Ck { std::shared_ptr<Inode> ino; std::string path; size_t pos; FILE* f; int fd; };
static std::map<FILE*, Ck*> g_ck; static std::map<int, Ck*> g_fd; static int g_nfd, g_nsk;
static bool g_ready; static std::atomic<int> g_gen;

std::string Env::norm(const std::string& p) {
    std::vector<std::string> c; std::string cur; bool abs = !p.empty() && p[0] == '/';
    for (size_t i = 0; i <= p.size(); i++) {
        if (i == p.size() || p[i] == '/') {
            if (cur == "..") { if (!c.empty()) c.pop_back(); }
            else if (!cur.empty() && cur != ".") c.push_back(cur);
            cur.clear();
        } else cur += p[i];
    }
    std::string r = abs ? "/" : "";
    for (size_t i = 0; i < c.size(); i++) { if (i) r += "/"; r += c[i]; }
    return r;
}
static int flt(const char* op, const std::string& p) { if (!env().fault) return 0; int e = env().fault(op, p); if (e) errno = e > 0 ? e : ENOSPC; return e; }
static bool dir_ok(const std::string& n) {     // parent directory of n exists
    size_t s = n.rfind('/'); if (s == std::string::npos || s == 0) return true;
    auto it = env().fs.find(n.substr(0, s)); return it != env().fs.end() && it->second->dir;
}
void Env::reset() {
    G g(m);
    if (this != g_env) { g_env = this; }
    fflush(stdout);
    std::vector<FILE*> left; for (auto& k : g_ck) left.push_back(k.first);
    fault = nullptr; hold_port = 0;
    for (FILE* f : left) fclose(f);
    fs.clear(); socks.clear(); sent.clear(); screen.clear(); sent.shrink_to_fit();
    for (auto& s : shm) free(s.second.mem);
    shm.clear(); next_shm = 1;
    open_files = open_dirs = files_opened = socks_opened = 0; g_nfd = g_nsk = 0; g_gen++;
    now_us = 1560000000LL * 1000000 + 417000;  cmdline = "/usr/bin/prog";
}
void Env::put(const std::string& path, const std::string& data, long mtime) {
    G g(m); std::string n = norm(path);
    for (size_t s = n.find('/', 1); s != std::string::npos; s = n.find('/', s + 1)) { auto& d = fs[n.substr(0, s)]; if (!d) { d = std::make_shared<Inode>(); d->dir = true; } }
    auto i = std::make_shared<Inode>(); i->data = data; i->mtime = mtime < 0 ? (long)(now_us / 1000000) : mtime; fs[n] = i;
}
bool Env::get(const std::string& path, std::string& d) { G g(m); auto it = fs.find(norm(path)); if (it == fs.end() || it->second->dir) return false; d = it->second->data; return true; }
bool Env::exists(const std::string& path) { G g(m); return fs.count(norm(path)) != 0; }
std::vector<std::string> Env::files() { G g(m); std::vector<std::string> v; for (auto& f : fs) if (!f.second->dir) v.push_back(f.first); return v; }
int Env::attached() { G g(m); int n = 0; for (auto& s : shm) n += s.second.attached; return n; }
void Env::feed(unsigned short p, const std::string& d, unsigned ip) { G g(m); for (auto& s : socks) if (s.second.bound && s.second.port == p && (!ip || !s.second.ip || s.second.ip == ip)) s.second.rx.push_back(d); }
std::string Env::take_screen() { fflush(stdout); G g(m); std::string s; s.swap(screen); return s; }

static ssize_t scr_write(void*, const char* b, size_t n) { G g(env().m); env().screen.append(b, n); return (ssize_t)n; }
void sx_env_init() {
    static Env e; g_env = &e;
    cookie_io_functions_t io; memset(&io, 0, sizeof io); io.write = scr_write;
    FILE* f = fopencookie(nullptr, "w", io); setvbuf(f, nullptr, _IOFBF, 1 << 16); stdout = f;
    g_ready = true; e.reset();
}

static ssize_t ck_read(void* c, char* b, size_t n) {
    G g(env().m); Ck* k = (Ck*)c; if (flt("read", k->path)) return -1;
    size_t l = k->pos < k->ino->data.size() ? k->ino->data.size() - k->pos : 0; if (l > n) l = n;
    memcpy(b, k->ino->data.data() + k->pos, l); k->pos += l; return (ssize_t)l;
}
static ssize_t ck_write(void* c, const char* b, size_t n) {
    G g(env().m); Ck* k = (Ck*)c; int e = flt("write", k->path);
    if (e) { if (e < 0) { size_t l = (size_t)-e < n ? (size_t)-e : n; k->ino->data.append(b, l); errno = ENOSPC; } return 0; }
    k->ino->data.append(b, n); k->ino->mtime = (long)(env().now_us / 1000000); return (ssize_t)n;
}
static int ck_close(void* c) {
    G g(env().m); Ck* k = (Ck*)c; int e = flt("close", k->path);
    g_ck.erase(k->f); g_fd.erase(k->fd); env().open_files--; delete k; return e ? -1 : 0;
}
extern "C" {
#define R(n) __real_##n
#define W(n) __wrap_##n
FILE* R(fopen)(const char*, const char*); int R(fileno)(FILE*); int R(fstat)(int, struct stat*); int R(fsync)(int); int R(posix_fadvise)(int, off_t, off_t, int);
int R(fcntl)(int, int, ...); int R(close)(int); int R(nanosleep)(const struct timespec*, struct timespec*);
FILE* W(fopen)(const char* p, const char* mode) {
    G g(env().m); std::string n = Env::norm(p);
    if (n.compare(0, 6, "/proc/") == 0) {
        if (flt("fopen", n)) return nullptr;
        static std::shared_ptr<Inode> pi = std::make_shared<Inode>(); pi->data = env().cmdline + '\0' + "arg" + '\0';
        Ck* k = new Ck{pi, n, 0, nullptr, FD0 + g_nfd++}; cookie_io_functions_t io = {ck_read, nullptr, nullptr, ck_close};
        k->f = fopencookie(k, "r", io); g_ck[k->f] = k; g_fd[k->fd] = k; env().open_files++; return k->f;
    }
    if (flt("fopen", n)) return nullptr;
    auto it = env().fs.find(n); bool wr = mode[0] != 'r';
    if (it != env().fs.end() && it->second->dir) { errno = EISDIR; if (wr) return nullptr; return nullptr; }
    if (it == env().fs.end()) {
        if (!wr || n.empty() || p[strlen(p) - 1] == '/' || !dir_ok(n)) { errno = ENOENT; return nullptr; }
        size_t s = n.rfind('/'); if (n.size() - (s == std::string::npos ? 0 : s + 1) > 255) { errno = ENAMETOOLONG; return nullptr; }
        auto i = std::make_shared<Inode>(); i->mtime = (long)(env().now_us / 1000000); it = env().fs.emplace(n, i).first;
    } else if (mode[0] == 'w') it->second->data.clear();
    Ck* k = new Ck{it->second, n, 0, nullptr, FD0 + g_nfd++};
    cookie_io_functions_t io = {ck_read, ck_write, nullptr, ck_close};
    k->f = fopencookie(k, wr ? "a" : "r", io); g_ck[k->f] = k; g_fd[k->fd] = k; env().open_files++; env().files_opened++;
    return k->f;
}
int W(fileno)(FILE* f) { G g(env().m); auto it = g_ck.find(f); return it == g_ck.end() ? R(fileno)(f) : it->second->fd; }
static void st_of(const std::shared_ptr<Inode>& i, struct stat* st) {
    memset(st, 0, sizeof *st); st->st_mode = i->dir ? S_IFDIR | 0755 : S_IFREG | 0644; st->st_size = (off_t)i->data.size(); st->st_mtime = i->mtime; st->st_nlink = 1;
}
int W(fstat)(int fd, struct stat* st) {
    if (fd < FD0) return R(fstat)(fd, st);
    G g(env().m); auto it = g_fd.find(fd); if (it == g_fd.end()) { errno = EBADF; return -1; }
    if (flt("fstat", it->second->path)) return -1;
    st_of(it->second->ino, st); return 0;
}
int W(stat)(const char* p, struct stat* st) {
    G g(env().m); std::string n = Env::norm(p); if (flt("access", n)) return -1;
    if (n.empty() || n == "/") { auto i = std::make_shared<Inode>(); i->dir = true; st_of(i, st); return 0; }
    auto it = env().fs.find(n); if (it == env().fs.end()) { errno = ENOENT; return -1; } st_of(it->second, st); return 0;
}
int W(lstat)(const char* p, struct stat* st) { return W(stat)(p, st); }
int W(fsync)(int fd) { return fd < FD0 ? R(fsync)(fd) : 0; }
int W(fdatasync)(int fd) { return fd < FD0 ? R(fsync)(fd) : 0; }
int W(posix_fadvise)(int fd, off_t a, off_t b, int c) { return fd < FD0 ? R(posix_fadvise)(fd, a, b, c) : 0; }
static bool is_dir(const std::string& n) { if (n.empty() || n == "/") return true; auto it = env().fs.find(n); return it != env().fs.end() && it->second->dir; }
DIR* W(opendir)(const char* p) {
    G g(env().m); std::string n = Env::norm(p); if (!*p) { errno = ENOENT; return nullptr; }
    if (flt("opendir", n)) return nullptr;
    if (!is_dir(n)) { errno = env().fs.count(n) ? ENOTDIR : ENOENT; return nullptr; }
    env().open_dirs++; return (DIR*)malloc(8);
}
int W(closedir)(DIR* d) { G g(env().m); env().open_dirs--; free(d); return 0; }
int W(mkdir)(const char* p, mode_t) {
    G g(env().m); std::string n = Env::norm(p); if (flt("mkdir", n)) return -1;
    if (is_dir(n) || env().fs.count(n)) { errno = EEXIST; return -1; }
    if (!dir_ok(n)) { errno = ENOENT; return -1; }
    auto i = std::make_shared<Inode>(); i->dir = true; env().fs[n] = i; return 0;
}
int W(access)(const char* p, int) {
    G g(env().m); std::string n = Env::norm(p); if (flt("access", n)) return -1;
    if (is_dir(n) || env().fs.count(n)) return 0; errno = ENOENT; return -1;
}
int W(rename)(const char* a, const char* b) {
    G g(env().m); std::string x = Env::norm(a), y = Env::norm(b); if (flt("rename", x)) return -1;
    auto it = env().fs.find(x); if (it == env().fs.end() || !dir_ok(y)) { errno = ENOENT; return -1; }
    if (x == y) return 0;
    auto jt = env().fs.find(y); if (jt != env().fs.end() && jt->second->dir != it->second->dir) { errno = EISDIR; return -1; }
    auto i = it->second; env().fs.erase(it); env().fs[y] = i; return 0;
}
int W(remove)(const char* a) {
    G g(env().m); std::string x = Env::norm(a); if (flt("remove", x)) return -1;
    auto it = env().fs.find(x); if (it == env().fs.end()) { errno = ENOENT; return -1; }
    env().fs.erase(it); return 0;
}
int W(unlink)(const char* a) { return W(remove)(a); }
time_t W(time)(time_t* t) { G g(env().m); time_t r = (time_t)(env().now_us >= 0 ? env().now_us / 1000000 : -((-env().now_us + 999999) / 1000000)); if (t) *t = r; return r; }
int W(gettimeofday)(struct timeval* tv, void*) { G g(env().m); time_t s = W(time)(nullptr); tv->tv_sec = s; tv->tv_usec = (long)(env().now_us - (long long)s * 1000000); return 0; }
// sleeps of the code under test are short, but one that goes on waiting gives the others more and more time
static void nap() { static thread_local int gen, n; if (gen != g_gen) { gen = g_gen; n = 0; } long us = 20L << (n / 7 > 14 ? 14 : n / 7); n++; struct timespec t = {0, us * 1000}; R(nanosleep)(&t, nullptr); }
int W(nanosleep)(const struct timespec*, struct timespec*) { nap(); return 0; }
int W(clock_nanosleep)(clockid_t, int, const struct timespec*, struct timespec*) { nap(); return 0; }
int W(socket)(int, int, int) { G g(env().m); if (flt("socket", "")) return -1; int s = SK0 + g_nsk++; env().socks[s]; env().socks_opened++; return s; }
int W(fcntl)(int fd, int cmd, ...) {
    va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap);
    if (fd < FD0) return R(fcntl)(fd, cmd, a);
    G g(env().m); auto it = env().socks.find(fd); if (it == env().socks.end()) { errno = EBADF; return -1; }
    if (flt("fcntl", "")) return -1;
    if (cmd == F_GETFL) return O_RDWR | (it->second.nonblock ? O_NONBLOCK : 0);
    if (cmd == F_SETFL) { it->second.nonblock = (a & O_NONBLOCK) != 0; return 0; }
    return 0;
}
int W(bind)(int fd, const struct sockaddr* sa, socklen_t) {
    G g(env().m); auto it = env().socks.find(fd); if (it == env().socks.end()) { errno = EBADF; return -1; }
    if (flt("bind", "")) return -1;
    const struct sockaddr_in* s = (const struct sockaddr_in*)sa;
    for (auto& o : env().socks) if (o.second.bound && o.second.port == s->sin_port && (!o.second.ip || !s->sin_addr.s_addr || o.second.ip == s->sin_addr.s_addr)) { errno = EADDRINUSE; return -1; }
    it->second.bound = true; it->second.ip = s->sin_addr.s_addr; it->second.port = s->sin_port; return 0;
}
ssize_t W(sendto)(int fd, const void* b, size_t n, int, const struct sockaddr* sa, socklen_t) {
    if (sa && env().hold_port) { int p = (int)ntohs(((const struct sockaddr_in*)sa)->sin_port); if (env().hold_port == p) { env().held++; while (env().hold_port == p) { struct timespec t = {0, 50000}; R(nanosleep)(&t, nullptr); } env().held--; } }
    G g(env().m); if (!env().socks.count(fd)) { errno = EBADF; return -1; }
    if (flt("sendto", "")) return -1;
    const struct sockaddr_in* s = (const struct sockaddr_in*)sa;
    env().sent.push_back(Dgram{s->sin_addr.s_addr, s->sin_port, std::string((const char*)b, n), fd}); return (ssize_t)n;
}
ssize_t W(recvfrom)(int fd, void* b, size_t n, int, struct sockaddr*, socklen_t*) {
    G g(env().m); auto it = env().socks.find(fd); if (it == env().socks.end()) { errno = EBADF; return -1; }
    if (flt("recvfrom", "")) return -1;
    if (it->second.rx.empty()) {
        if (!it->second.nonblock) sx_fail("a receive on a socket in blocking mode with nothing to receive: the channel would hang in it");
        errno = EAGAIN; return -1; }
    std::string d = it->second.rx.front(); it->second.rx.pop_front(); size_t l = d.size() < n ? d.size() : n; memcpy(b, d.data(), l); return (ssize_t)l;
}
ssize_t W(recv)(int fd, void* b, size_t n, int f) { return W(recvfrom)(fd, b, n, f, nullptr, nullptr); }
int W(close)(int fd) {
    if (fd < FD0) return R(close)(fd);
    G g(env().m); if (!env().socks.erase(fd)) { errno = EBADF; return -1; } return 0;
}
int W(shmget)(key_t key, size_t size, int flg) {
    G g(env().m); if (flt("shmget", "")) return -1;
    for (auto& s : env().shm) if (!s.second.removed && s.second.key == key) {
        if (flg & IPC_EXCL) { errno = EEXIST; return -1; }
        if (size > s.second.size) { errno = EINVAL; return -1; }
        return s.first; }
    if (!(flg & IPC_CREAT)) { errno = ENOENT; return -1; }
    int id = env().next_shm++; env().shm[id] = Env::Seg{key, size, (char*)calloc(1, size), 0, false}; return id;
}
void* W(shmat)(int id, const void*, int) {
    G g(env().m); if (flt("shmat", "")) return (void*)-1;
    auto it = env().shm.find(id); if (it == env().shm.end()) { errno = EINVAL; return (void*)-1; }
    it->second.attached++; return it->second.mem;
}
static void shm_gc() { for (auto it = env().shm.begin(); it != env().shm.end();) if (it->second.removed && !it->second.attached) { free(it->second.mem); it = env().shm.erase(it); } else ++it; }
int W(shmdt)(const void* p) { G g(env().m); for (auto& s : env().shm) if (s.second.mem == p && s.second.attached > 0) { s.second.attached--; shm_gc(); return 0; } errno = EINVAL; return -1; }
int W(shmctl)(int id, int cmd, struct shmid_ds*) {
    G g(env().m); auto it = env().shm.find(id); if (it == env().shm.end()) { errno = EINVAL; return -1; }
    if (cmd == IPC_RMID) { it->second.removed = true; shm_gc(); } return 0;
}
static struct hostent g_he; static struct in_addr g_ha; static char* g_hl[2];
struct hostent* W(gethostbyname)(const char* n) {
    G g(env().m); if (strcmp(n, "localhost")) return nullptr;
    g_ha.s_addr = inet_addr("127.0.0.1"); g_hl[0] = (char*)&g_ha; g_hl[1] = nullptr; g_he.h_addrtype = AF_INET; g_he.h_length = 4; g_he.h_addr_list = g_hl; return &g_he;
}
}
