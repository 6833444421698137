#include "memrt.h"
#include <alloca.h>
#include <errno.h>
#include <malloc.h>
#include <stdlib.h>
#include <string.h>
#include <sys/time.h>
#include <time.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
extern "C" {
void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t); void* __libc_memalign(size_t, size_t);
}
namespace memrt {
long liveBlocks, liveBytes;
static int color = -1;
static const size_t FILL = 1 << 20;
static __attribute__((noinline)) void below() { volatile unsigned char b[1536]; memset((void*)b, color, sizeof b); __asm__ volatile("" : : "r"(b) : "memory"); }
static __attribute__((noinline)) void deep() { volatile unsigned char b[65536]; memset((void*)b, color, sizeof b); __asm__ volatile("" : : "r"(b) : "memory"); }
static inline void* took(void* p, bool fill) {
    if (!p) return p;
    size_t n = malloc_usable_size(p); liveBlocks++; liveBytes += n;
    if (color >= 0) { if (fill) memset(p, color, n < FILL ? n : FILL); below(); }
    return p;
}
static inline void gave(void* p) { size_t n = malloc_usable_size(p); liveBlocks--; liveBytes -= n; if (color >= 0) memset(p, color, n < FILL ? n : FILL); }
// different runs also see different addresses
static bool paused; static long failAt = -1, seen; Pause::Pause() { was = paused; paused = true; } Pause::~Pause() { paused = was; } static bool failFrom; static long refusedN;
void starve(long at, bool from) { seen = refusedN = 0; failFrom = from; failAt = at; }
Starved feed() { failAt = -1; return lastStarved(); }
Starved lastStarved() { Starved s; s.asked = seen; s.refused = refusedN; return s; }
static inline bool refuse() { if (failAt < 0 || paused) return false; long k = seen++; if (k == failAt || (failFrom && k > failAt)) { refusedN++; errno = ENOMEM; return true; } return false; }
static inline size_t pad(size_t n) { return color > 0 && n < 4096 ? n + 48 : n; }
void paint(int c) { color = c; if (c >= 0) deep(); }
void* keep; void leaveBlock() { keep = malloc(40); }
}
using namespace memrt;
extern "C" {
void* malloc(size_t n) { if (refuse()) return nullptr; return took(__libc_malloc(pad(n)), true); }
void free(void* p) { if (!p) return; gave(p); __libc_free(p); }
void* calloc(size_t a, size_t b) { if (refuse()) return nullptr; return took(__libc_calloc(a, b), false); }
void* realloc(void* p, size_t n) {
    if (!p) return malloc(n);
    if (!n) { free(p); return nullptr; }
    if (refuse()) return nullptr;
    size_t o = malloc_usable_size(p); void* q = __libc_realloc(p, pad(n)); if (!q) return q;
    size_t u = malloc_usable_size(q); liveBytes += (long)u - (long)o;
    if (color >= 0 && u > o) memset((char*)q + o, color, u - o < FILL ? u - o : FILL);
    return q;
}
void* memalign(size_t a, size_t n) { return took(__libc_memalign(a, n), true); }
void* aligned_alloc(size_t a, size_t n) { return took(__libc_memalign(a, n), true); }
int posix_memalign(void** r, size_t a, size_t n) { void* p = took(__libc_memalign(a, n), true); if (!p) return ENOMEM; *r = p; return 0; }
void* valloc(size_t n) { return took(__libc_memalign(4096, n), true); }
// what differs from run to run outside memory
time_t time(time_t* t) { time_t v; if (color < 0) { timespec s; clock_gettime(CLOCK_REALTIME, &s); v = s.tv_sec; } else v = 1000000000 + color * 86413; if (t) *t = v; return v; }
int rand() { static unsigned s = 1; s = s * 1103515245u + 12345u + (color < 0 ? 0 : color); return (int)(s >> 1); }
long random() { return rand(); }
double drand48() { return rand() / 2147483648.0; }
}

namespace memrt {
static bool armed, onReads; static Fault fault; static long faultAt; static Io io;
void arm(bool reads, Fault f, long at) { io = Io(); onReads = reads; fault = f; faultAt = at; armed = true; }
Io disarm() { armed = false; return io; }
// -1: error returned; otherwise the number of bytes that may pass
static long verdict(bool reading, size_t n) {
    long k = reading ? io.reads++ : io.writes++;
    if (reading != onReads) return n;
    switch (fault) {
        case FAIL_FROM: if (k >= faultAt) { io.failed++; errno = reading ? EIO : ENOSPC; return -1; } break;
        case FAIL_ONCE: if (k == faultAt) { io.failed++; errno = EIO; return -1; } break;
        case INTR_ONCE: if (k == faultAt) { errno = EINTR; return -1; } break;
        case SHORT_ONCE: if (k == faultAt && n > 1) return n / 2; break;
        case SHORT_ALL: return n > 7 ? 7 : n;
        case ROOM: { long left = faultAt - io.bytes; if (n && left <= 0) { io.failed++; errno = ENOSPC; return -1; } return (long)n < left ? (long)n : left; }
        default: break;
    }
    return n;
}
}
extern "C" {
ssize_t read(int fd, void* b, size_t n) { if (armed && fd > 2) { long m = verdict(true, n); if (m < 0) return -1; n = m; } return syscall(SYS_read, fd, b, n); }
ssize_t write(int fd, const void* b, size_t n) { bool a = armed && fd > 2; if (a) { long m = verdict(false, n); if (m < 0) return -1; n = m; } ssize_t r = syscall(SYS_write, fd, b, n); if (a && r > 0) io.bytes += r; return r; }
ssize_t writev(int fd, const struct iovec* v, int c) {
    if (!(armed && fd > 2)) return syscall(SYS_writev, fd, v, c);
    size_t n = 0; for (int i = 0; i < c; i++) n += v[i].iov_len;
    long m = verdict(false, n); if (m < 0) return -1;
    struct iovec w[8]; int k = 0; size_t left = m; for (int i = 0; i < c && k < 8 && left; i++) { w[k] = v[i]; if (w[k].iov_len > left) w[k].iov_len = left; left -= w[k].iov_len; k++; }
    ssize_t r = k ? syscall(SYS_writev, fd, w, k) : 0; if (r > 0) io.bytes += r; return r;
}
}
