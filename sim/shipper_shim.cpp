// Seam under the log shipper: every system call, HTTP request, database step and
// clock reading of its objects goes through here (linked with --wrap), so that the
// simulator decides when it happens and whether it fails. The file system underneath
// is a real scratch directory.
#include <curl/curl.h>
#include <dirent.h>
#include <fcntl.h>
#include <poll.h>
#include <sqlite3.h>
#include <sys/epoll.h>
#include <sys/inotify.h>
#include <sys/select.h>
#include <sys/stat.h>
#include <time.h>
#include <unistd.h>

#include <cerrno>
#include <chrono>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <map>
#include <string>
#include <thread>
#include <vector>

int shipper_main(int argc, char** argv);

enum { K_OPEN = 1, K_READ, K_STAT, K_FSTAT, K_LSEEK, K_CLOSE, K_OPENDIR, K_READDIR, K_INOTIFY, K_WAIT, K_POST, K_SQL, K_END, K_SLEEP, K_NOW };

typedef long (*hook_t)(int kind, const char* text, long a, long b);
static hook_t hook;
static std::string last_error;

extern "C" {

// 0: go on, >0: fail with this errno
#define GATE(kind, text, a, b, fail) do { long e_ = hook(kind, text, a, b); if (e_ > 0) { errno = static_cast<int>(e_); return fail; } } while (0)

int __real_open(const char*, int, ...);
int __wrap_open(const char* p, int f, ...) {
    va_list ap; va_start(ap, f); int mode = va_arg(ap, int); va_end(ap);
    GATE(K_OPEN, p, f, 0, -1);
    return __real_open(p, f, mode);
}
int __wrap_open64(const char* p, int f, ...) {
    va_list ap; va_start(ap, f); int mode = va_arg(ap, int); va_end(ap);
    return __wrap_open(p, f, mode);
}
ssize_t __real_read(int, void*, size_t);
ssize_t __wrap_read(int fd, void* b, size_t n) {
    long e = hook(K_READ, nullptr, fd, static_cast<long>(n));
    if (e > 0) { errno = static_cast<int>(e); return -1; }
    if (e < 0 && static_cast<size_t>(-e) < n) n = static_cast<size_t>(-e);   // a short read
    return __real_read(fd, b, n);
}
ssize_t __real_pread(int, void*, size_t, off_t);
ssize_t __wrap_pread(int fd, void* b, size_t n, off_t o) {
    long e = hook(K_READ, nullptr, fd, static_cast<long>(n));
    if (e > 0) { errno = static_cast<int>(e); return -1; }
    if (e < 0 && static_cast<size_t>(-e) < n) n = static_cast<size_t>(-e);
    return __real_pread(fd, b, n, o);
}
int __real_stat(const char*, struct stat*);
int __wrap_stat(const char* p, struct stat* s) { GATE(K_STAT, p, 0, 0, -1); return __real_stat(p, s); }
int __real_lstat(const char*, struct stat*);
int __wrap_lstat(const char* p, struct stat* s) { GATE(K_STAT, p, 0, 0, -1); return __real_lstat(p, s); }
int __real_fstat(int, struct stat*);
int __wrap_fstat(int fd, struct stat* s) { GATE(K_FSTAT, nullptr, fd, 0, -1); return __real_fstat(fd, s); }
off_t __real_lseek(int, off_t, int);
off_t __wrap_lseek(int fd, off_t o, int w) { GATE(K_LSEEK, nullptr, fd, o, -1); return __real_lseek(fd, o, w); }
int __real_close(int);
int __wrap_close(int fd) { hook(K_CLOSE, nullptr, fd, 0); return __real_close(fd); }
DIR* __real_opendir(const char*);
DIR* __wrap_opendir(const char* p) { GATE(K_OPENDIR, p, 0, 0, nullptr); return __real_opendir(p); }
struct dirent* __real_readdir(DIR*);
struct dirent* __wrap_readdir(DIR* d) { hook(K_READDIR, nullptr, 0, 0); return __real_readdir(d); }
int __real_inotify_init1(int);
int __wrap_inotify_init1(int f) { hook(K_INOTIFY, nullptr, 0, 0); return __real_inotify_init1(f); }
int __real_inotify_add_watch(int, const char*, uint32_t);
int __wrap_inotify_add_watch(int fd, const char* p, uint32_t m) { GATE(K_INOTIFY, p, fd, m, -1); return __real_inotify_add_watch(fd, p, m); }

// Waiting: the simulator says when to look again; >0 look again, 0 time is up, <0 interrupted
int __real_select(int, fd_set*, fd_set*, fd_set*, struct timeval*);
int __wrap_select(int n, fd_set* r, fd_set* w, fd_set* x, struct timeval* tv) {
    long us = tv ? tv->tv_sec * 1000000L + tv->tv_usec : -1;
    bool first = true;
    while (true) {
        fd_set r2, w2, x2;
        if (r) r2 = *r; if (w) w2 = *w; if (x) x2 = *x;
        struct timeval zero{0, 0};
        int k = __real_select(n, r ? &r2 : nullptr, w ? &w2 : nullptr, x ? &x2 : nullptr, &zero);
        long e = 0;
        if (k == 0 || first) e = hook(K_WAIT, nullptr, k ? 0 : us, first);
        first = false;
        if (e < 0) { errno = EINTR; return -1; }
        if (k != 0 || e == 0) {
            if (k == 0) {
                k = __real_select(n, (r2 = r ? *r : r2, r ? &r2 : nullptr), (w2 = w ? *w : w2, w ? &w2 : nullptr), (x2 = x ? *x : x2, x ? &x2 : nullptr), &zero);
            }
            if (r) *r = r2; if (w) *w = w2; if (x) *x = x2;
            return k;
        }
        us = -2;        // the simulator keeps the deadline of this wait
    }
}
int __real_poll(struct pollfd*, nfds_t, int);
int __wrap_poll(struct pollfd* f, nfds_t n, int ms) {
    long us = ms < 0 ? -1 : ms * 1000L;
    bool first = true;
    while (true) {
        int k = __real_poll(f, n, 0);
        long e = 0;
        if (k == 0 || first) e = hook(K_WAIT, nullptr, k ? 0 : us, first);
        first = false;
        if (e < 0) { errno = EINTR; return -1; }
        if (k != 0) return k;
        if (e == 0) return __real_poll(f, n, 0);
        us = -2;
    }
}
int __real_epoll_wait(int, struct epoll_event*, int, int);
int __wrap_epoll_wait(int ep, struct epoll_event* ev, int n, int ms) {
    long us = ms < 0 ? -1 : ms * 1000L;
    bool first = true;
    while (true) {
        int k = __real_epoll_wait(ep, ev, n, 0);
        long e = 0;
        if (k == 0 || first) e = hook(K_WAIT, nullptr, k ? 0 : us, first);
        first = false;
        if (e < 0) { errno = EINTR; return -1; }
        if (k != 0) return k;
        if (e == 0) return __real_epoll_wait(ep, ev, n, 0);
        us = -2;
    }
}
int __wrap_nanosleep(const struct timespec* t, struct timespec*) { hook(K_SLEEP, nullptr, t->tv_sec * 1000000L + t->tv_nsec / 1000, 0); return 0; }
int __wrap_clock_nanosleep(clockid_t, int, const struct timespec* t, struct timespec*) { hook(K_SLEEP, nullptr, t->tv_sec * 1000000L + t->tv_nsec / 1000, 0); return 0; }
int __wrap_usleep(useconds_t us) { hook(K_SLEEP, nullptr, us, 0); return 0; }
unsigned __wrap_sleep(unsigned s) { hook(K_SLEEP, nullptr, s * 1000000L, 0); return 0; }
time_t __wrap_time(time_t* t) { time_t v = hook(K_NOW, nullptr, 1, 0) / 1000000; if (t) *t = v; return v; }
long __wrap__ZNSt6chrono3_V212steady_clock3nowEv() { return hook(K_NOW, nullptr, 0, 0) * 1000; }
long __wrap__ZNSt6chrono3_V212system_clock3nowEv() { return hook(K_NOW, nullptr, 1, 0) * 1000; }

// HTTP: options are recorded, the exchange itself is the simulator's
struct Easy { std::string url, body; const char* fields = nullptr; long size = -1; long timeout_ms = 0; long code = 0;
              size_t (*wf)(char*, size_t, size_t, void*) = nullptr; void* wd = nullptr; bool fail = false; };
static std::map<CURL*, Easy> handles;
CURL* __real_curl_easy_init(void);
CURL* __wrap_curl_easy_init(void) { CURL* c = __real_curl_easy_init(); handles[c] = Easy(); return c; }
#undef curl_easy_setopt
#undef curl_easy_getinfo
CURLcode __real_curl_easy_setopt(CURL*, CURLoption, ...);
CURLcode __wrap_curl_easy_setopt(CURL* c, CURLoption o, ...) {
    va_list ap; va_start(ap, o); void* v = va_arg(ap, void*); va_end(ap);
    Easy& h = handles[c];
    switch (o) {
        case CURLOPT_URL: h.url = static_cast<const char*>(v); break;
        case CURLOPT_POSTFIELDS: h.fields = static_cast<const char*>(v); h.body.clear(); return CURLE_OK;
        case CURLOPT_COPYPOSTFIELDS: h.fields = nullptr; h.body.assign(static_cast<const char*>(v), h.size >= 0 ? h.size : strlen(static_cast<const char*>(v))); return CURLE_OK;
        case CURLOPT_POSTFIELDSIZE: case CURLOPT_POSTFIELDSIZE_LARGE: h.size = reinterpret_cast<long>(v); return CURLE_OK;
        case CURLOPT_WRITEFUNCTION: h.wf = reinterpret_cast<size_t (*)(char*, size_t, size_t, void*)>(v); return CURLE_OK;
        case CURLOPT_WRITEDATA: h.wd = v; return CURLE_OK;
        case CURLOPT_FAILONERROR: h.fail = reinterpret_cast<long>(v) != 0; break;
        case CURLOPT_TIMEOUT: h.timeout_ms = reinterpret_cast<long>(v) * 1000; break;
        case CURLOPT_TIMEOUT_MS: h.timeout_ms = reinterpret_cast<long>(v); break;
        default: break;
    }
    return __real_curl_easy_setopt(c, o, v);
}
CURLcode __wrap_curl_easy_perform(CURL* c) {
    Easy& h = handles[c];
    std::string body = h.fields ? std::string(h.fields, h.size >= 0 ? h.size : strlen(h.fields)) : h.body;
    std::string text = h.url + "\n" + body;
    long r = hook(K_POST, text.c_str(), static_cast<long>(text.size()), h.timeout_ms);
    h.code = r >> 8;
    int rc = static_cast<int>(r & 255);
    if (rc == 0 && h.fail && h.code >= 400) rc = CURLE_HTTP_RETURNED_ERROR;
    if (rc == 0 && h.wf) { char t[] = "answer"; h.wf(t, 1, 6, h.wd); }
    return static_cast<CURLcode>(rc);
}
CURLcode __real_curl_easy_getinfo(CURL*, CURLINFO, ...);
CURLcode __wrap_curl_easy_getinfo(CURL* c, CURLINFO i, ...) {
    va_list ap; va_start(ap, i); void* v = va_arg(ap, void*); va_end(ap);
    if (i == CURLINFO_RESPONSE_CODE) { *static_cast<long*>(v) = handles[c].code; return CURLE_OK; }
    return __real_curl_easy_getinfo(c, i, v);
}
void __real_curl_easy_cleanup(CURL*);
void __wrap_curl_easy_cleanup(CURL* c) { handles.erase(c); __real_curl_easy_cleanup(c); }

int __real_sqlite3_step(sqlite3_stmt*);
int __wrap_sqlite3_step(sqlite3_stmt* s) { hook(K_SQL, sqlite3_sql(s), 0, 0); return __real_sqlite3_step(s); }
int __real_sqlite3_exec(sqlite3*, const char*, int (*)(void*, int, char**, char**), void*, char**);
int __wrap_sqlite3_exec(sqlite3* d, const char* q, int (*cb)(void*, int, char**, char**), void* a, char** e) { hook(K_SQL, q, 0, 0); return __real_sqlite3_exec(d, q, cb, a, e); }

// The process ends
void __wrap_exit(int c) { hook(K_END, "exit", c, 0); for (;;) ::pause(); }
void __wrap__exit(int c) { hook(K_END, "exit", c, 0); for (;;) ::pause(); }
void __wrap_abort(void) { hook(K_END, "abort", 134, 0); for (;;) ::pause(); }

static void on_terminate() {
    std::string what = "terminate";
    if (auto e = std::current_exception()) {
        try { std::rethrow_exception(e); } catch (const std::exception& x) { what = std::string("uncaught exception: ") + x.what(); } catch (...) { what = "uncaught exception"; }
    }
    hook(K_END, what.c_str(), 134, 0);
    for (;;) ::pause();
}

const char* shipper_error() { return last_error.c_str(); }

int shipper_run(hook_t h, int argc, char** argv) {
    hook = h;
    std::set_terminate(on_terminate);
    try {
        int rc = shipper_main(argc, argv);
        last_error = "returned from main";
        return rc;
    } catch (const std::exception& x) {
        last_error = std::string("uncaught exception: ") + x.what();
    } catch (...) {
        last_error = "uncaught exception";
    }
    return 134;
}
}
