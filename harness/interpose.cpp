#ifndef _GNU_SOURCE
#define _GNU_SOURCE 1
#endif
#undef _FORTIFY_SOURCE
#include "interpose.hpp"
#include <sys/syscall.h>
#include <unistd.h>
#include <cerrno>
#include <cstdarg>
#include <cstring>
#include <cstdlib>
#include <dlfcn.h>
__thread ReadPlan RP;

// Deliberately without the system headers' prototypes for the functions replaced here.
struct pollfd; struct timeval_; 
extern "C" {
__attribute__((visibility("default"), used)) ssize_t read(int fd, void *buf, size_t n) {
    if (RP.active) {
        int k = RP.calls++;
        if (k == RP.fail_at) { RP.failed++; errno = RP.fail_errno; return -1; }
        if (RP.max_chunk && n > RP.max_chunk) n = RP.max_chunk;
        if (RP.chunk_seed && n > 1) {
            RP.chunk_seed = RP.chunk_seed * 6364136223846793005ULL + 1442695040888963407ULL;
            n = 1 + (RP.chunk_seed >> 33) % n;
        }
        ssize_t r = syscall(SYS_read, fd, buf, n);
        if (r > 0) RP.bytes += r;
        return r;
    }
    return syscall(SYS_read, fd, buf, n);
}
static bool sysfail(int e) {
    if (!RP.active) return false;
    if (RP.syscalls++ == RP.fail_syscall) { RP.sys_failed++; errno = e; return true; }
    return false;
}
#ifdef VERIF_SYSCALLS
#define REAL(name) static decltype(&name) real = (decltype(&name)) dlsym(RTLD_NEXT, #name)
int open(const char *p, int flags, ...) {
    if (sysfail(EMFILE)) return -1;
    va_list ap; va_start(ap, flags); int mode = va_arg(ap, int); va_end(ap);
    return syscall(SYS_openat, -100, p, flags, mode);
}
int open64(const char *p, int flags, ...) {
    if (sysfail(EMFILE)) return -1;
    va_list ap; va_start(ap, flags); int mode = va_arg(ap, int); va_end(ap);
    return syscall(SYS_openat, -100, p, flags, mode);
}
int poll(struct pollfd *f, unsigned long n, int t) {
    if (sysfail(ENOMEM)) return RP.poll_times_out ? 0 : -1;
    return syscall(SYS_poll, f, n, t);
}
#endif
}

#if defined(VERIF_NEW)
// AddressSanitizer and valgrind end the process when operator new cannot get memory; the real one throws.
#include <new>
#include <cstdlib>
__thread AllocPlan AP;
static void *anew(size_t n) {
    if (AP.active) { long k = AP.calls++; if (AP.fail_at >= 0 && (k == AP.fail_at || (AP.sticky && k > AP.fail_at))) { AP.failed++; throw std::bad_alloc(); } }
    void *p = n > (1ULL << 36) ? nullptr : malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p;
}
void *operator new(size_t n) { return anew(n); }
void *operator new[](size_t n) { return anew(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { try { return anew(n); } catch (...) { return nullptr; } }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { try { return anew(n); } catch (...) { return nullptr; } }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
#endif
#ifdef VERIF_MALLOC
#include <malloc.h>
#include <atomic>
#include <new>
__thread AllocPlan AP;
static std::atomic<long> lbytes{0}, lblocks{0};
extern "C" {
long live_bytes() { return lbytes.load(); }
long live_blocks() { return lblocks.load(); }
void *__libc_malloc(size_t); void __libc_free(void *); void *__libc_calloc(size_t, size_t);
void *__libc_realloc(void *, size_t); void *__libc_memalign(size_t, size_t);
static bool afail() {
    if (!AP.active) return false;
    long k = AP.calls++;
    if (AP.fail_at >= 0 && (k == AP.fail_at || (AP.sticky && k > AP.fail_at))) { AP.failed++; return true; }
    return false;
}
static void *in(void *p) { if (p) { lbytes += malloc_usable_size(p); lblocks++; } return p; }
void *malloc(size_t n) { if (afail()) { errno = ENOMEM; return nullptr; } return in(__libc_malloc(n)); }
void *calloc(size_t a, size_t b) { if (afail()) { errno = ENOMEM; return nullptr; } return in(__libc_calloc(a, b)); }
void free(void *p) { if (p) { lbytes -= malloc_usable_size(p); lblocks--; } __libc_free(p); }
void *realloc(void *p, size_t n) {
    if (afail()) { errno = ENOMEM; return nullptr; }
    long old = p ? malloc_usable_size(p) : 0;
    void *q = __libc_realloc(p, n);
    if (q || n == 0) { if (p) { lbytes -= old; lblocks--; } in(q); }
    return q;
}
void *memalign(size_t a, size_t n) { if (afail()) { errno = ENOMEM; return nullptr; } return in(__libc_memalign(a, n)); }
void *aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void **o, size_t a, size_t n) { void *p = memalign(a, n); if (!p) return ENOMEM; *o = p; return 0; }
}
#endif
