#include "io.hpp"
#include <cstdarg>
#include <cerrno>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/statfs.h>
#include <sys/uio.h>
#include <unistd.h>
namespace io {
const char *const name[NOPS] = {"pwrite", "pwritev", "write", "writev", "fdatasync", "fsync", "msync", "ftruncate", "fallocate", "mmap", "mremap", "munmap", "madvise",
                                "open", "close", "unlink", "pread", "fcntl", "malloc", "calloc", "realloc", "aligned_alloc", "copy_file_range", "sendfile", "read",
                                "fstat", "mkdir", "mutex"};
Hook *hook;
thread_local int quiet;
bool disguise_tmpfs = true;
} // namespace io
using namespace io;
template <class F> static inline int64_t run(Call k, F f, int64_t bad = -1) {
  if (!hook || quiet) return f(k);
  ++quiet;
  int e = hook->before(k);
  --quiet;
  if (e) {
    k.result = bad;
    ++quiet;
    hook->after(k);
    --quiet;
    errno = e;
    return bad;
  }
  int64_t r = f(k);
  int keep = errno;
  k.result = r;
  ++quiet;
  hook->after(k);
  --quiet;
  errno = keep;
  return r;
}
#define K(OP, ...) Call { OP, __VA_ARGS__ }
extern "C" {
#define REAL(ret, fn, ...) ret __real_##fn(__VA_ARGS__)
#define WEAK __attribute__((weak))
WEAK REAL(ssize_t, pwrite64, int, const void *, size_t, off64_t);
ssize_t __wrap_pwrite64(int fd, const void *p, size_t n, off64_t o) {
  Call k{PWRITE, fd, (void *)p, (uint64_t)o, n};
  return run(k, [&](Call &x) { return (int64_t)__real_pwrite64(fd, p, x.len, o); });
}
WEAK REAL(ssize_t, pwritev64, int, const struct iovec *, int, off64_t);
ssize_t __wrap_pwritev64(int fd, const struct iovec *v, int n, off64_t o) {
  size_t len = 0;
  for (int i = 0; i < n; ++i) len += v[i].iov_len;
  Call k{PWRITEV, fd, nullptr, (uint64_t)o, len};
  return run(k, [&](Call &x) {
    if (x.len < len) return (int64_t)__real_pwrite64(fd, v[0].iov_base, x.len < v[0].iov_len ? x.len : v[0].iov_len, o);
    return (int64_t)__real_pwritev64(fd, v, n, o);
  });
}
WEAK REAL(ssize_t, write, int, const void *, size_t);
ssize_t __wrap_write(int fd, const void *p, size_t n) {
  Call k{WRITE, fd, (void *)p, 0, n};
  return run(k, [&](Call &x) { return (int64_t)__real_write(fd, p, x.len); });
}
WEAK REAL(ssize_t, writev, int, const struct iovec *, int);
ssize_t __wrap_writev(int fd, const struct iovec *v, int n) {
  Call k{WRITEV, fd};
  return run(k, [&](Call &) { return (int64_t)__real_writev(fd, v, n); });
}
WEAK REAL(ssize_t, pread64, int, void *, size_t, off64_t);
ssize_t __wrap_pread64(int fd, void *p, size_t n, off64_t o) {
  Call k{PREAD, fd, p, (uint64_t)o, n};
  return run(k, [&](Call &) { return (int64_t)__real_pread64(fd, p, n, o); });
}
WEAK REAL(int, fdatasync, int);
int __wrap_fdatasync(int fd) {
  Call k{FDATASYNC, fd};
  return run(k, [&](Call &) { return __real_fdatasync(fd); });
}
WEAK REAL(int, fsync, int);
int __wrap_fsync(int fd) {
  Call k{FSYNC, fd};
  return run(k, [&](Call &) { return __real_fsync(fd); });
}
WEAK REAL(int, msync, void *, size_t, int);
int __wrap_msync(void *a, size_t n, int fl) {
  Call k{MSYNC, -1, a, 0, n, fl};
  return run(k, [&](Call &) { return __real_msync(a, n, fl); });
}
WEAK REAL(int, ftruncate64, int, off64_t);
int __wrap_ftruncate64(int fd, off64_t n) {
  Call k{FTRUNCATE, fd, nullptr, (uint64_t)n};
  return run(k, [&](Call &) { return __real_ftruncate64(fd, n); });
}
WEAK REAL(int, posix_fallocate64, int, off64_t, off64_t);
int __wrap_posix_fallocate64(int fd, off64_t o, off64_t n) {
  Call k{FALLOCATE, fd, nullptr, (uint64_t)o, (size_t)n};
  int64_t r = run(k, [&](Call &) { return __real_posix_fallocate64(fd, o, n); });
  return r < 0 ? errno : r;
}
WEAK REAL(void *, mmap64, void *, size_t, int, int, int, off64_t);
void *__wrap_mmap64(void *a, size_t n, int prot, int fl, int fd, off64_t o) {
  Call k{MMAP, fd, a, (uint64_t)o, n, fl};
  return (void *)run(k, [&](Call &) { return (int64_t)__real_mmap64(a, n, prot, fl, fd, o); });
}
WEAK REAL(void *, mremap, void *, size_t, size_t, int, ...);
void *__wrap_mremap(void *a, size_t o, size_t n, int fl, ...) {
  Call k{MREMAP, -1, a, 0, n, fl};
  return (void *)run(k, [&](Call &) { return (int64_t)__real_mremap(a, o, n, fl); });
}
WEAK REAL(int, munmap, void *, size_t);
int __wrap_munmap(void *a, size_t n) {
  Call k{MUNMAP, -1, a, 0, n};
  return run(k, [&](Call &) { return __real_munmap(a, n); });
}
WEAK REAL(int, madvise, void *, size_t, int);
int __wrap_madvise(void *a, size_t n, int adv) {
  Call k{MADVISE, -1, a, 0, n, adv};
  return run(k, [&](Call &) { return __real_madvise(a, n, adv); });
}
WEAK REAL(int, open64, const char *, int, ...);
int __wrap_open64(const char *p, int fl, ...) {
  va_list ap;
  va_start(ap, fl);
  int mode = va_arg(ap, int);
  va_end(ap);
  Call k{OPEN, -1, nullptr, 0, 0, fl, p};
  return run(k, [&](Call &) { return __real_open64(p, fl, mode); });
}
WEAK REAL(int, close, int);
int __wrap_close(int fd) {
  Call k{CLOSE, fd};
  return run(k, [&](Call &) { return __real_close(fd); });
}
WEAK REAL(int, unlink, const char *);
int __wrap_unlink(const char *p) {
  Call k{UNLINK, -1, nullptr, 0, 0, 0, p};
  return run(k, [&](Call &) { return __real_unlink(p); });
}
WEAK REAL(int, fcntl64, int, int, ...);
int __wrap_fcntl64(int fd, int cmd, ...) {
  va_list ap;
  va_start(ap, cmd);
  void *arg = va_arg(ap, void *);
  va_end(ap);
  Call k{FCNTL, fd, arg, 0, 0, cmd};
  return run(k, [&](Call &) { return __real_fcntl64(fd, cmd, arg); });
}
WEAK REAL(void *, malloc, size_t);
void *__wrap_malloc(size_t n) {
  Call k{MALLOC, -1, nullptr, 0, n};
  return (void *)run(k, [&](Call &) { return (int64_t)__real_malloc(n); }, 0);
}
WEAK REAL(void *, calloc, size_t, size_t);
void *__wrap_calloc(size_t a, size_t b) {
  Call k{CALLOC, -1, nullptr, 0, a * b};
  return (void *)run(k, [&](Call &) { return (int64_t)__real_calloc(a, b); }, 0);
}
WEAK REAL(void *, realloc, void *, size_t);
void *__wrap_realloc(void *p, size_t n) {
  Call k{REALLOC, -1, p, 0, n};
  return (void *)run(k, [&](Call &) { return (int64_t)__real_realloc(p, n); }, 0);
}
WEAK REAL(void *, aligned_alloc, size_t, size_t);
void *__wrap_aligned_alloc(size_t a, size_t n) {
  Call k{ALIGNED, -1, nullptr, a, n};
  return (void *)run(k, [&](Call &) { return (int64_t)__real_aligned_alloc(a, n); }, 0);
}
WEAK REAL(ssize_t, copy_file_range, int, off64_t *, int, off64_t *, size_t, unsigned);
ssize_t __wrap_copy_file_range(int i, off64_t *io_, int o, off64_t *oo, size_t n, unsigned fl) {
  Call k{COPYRANGE, o, nullptr, 0, n};
  return run(k, [&](Call &x) { return (int64_t)__real_copy_file_range(i, io_, o, oo, x.len, fl); });
}
WEAK REAL(ssize_t, sendfile64, int, int, off64_t *, size_t);
ssize_t __wrap_sendfile64(int o, int i, off64_t *off, size_t n) {
  Call k{SENDFILE, o, nullptr, 0, n};
  return run(k, [&](Call &x) { return (int64_t)__real_sendfile64(o, i, off, x.len); });
}
WEAK REAL(int, fstatfs64, int, struct statfs64 *);
int __wrap_fstatfs64(int fd, struct statfs64 *s) {
  int r = __real_fstatfs64(fd, s);
  if (!r && disguise_tmpfs && (s->f_type == 0x01021994 || s->f_type == (decltype(s->f_type))0x858458f6)) s->f_type = 0xEF53;
  return r;
}
}
