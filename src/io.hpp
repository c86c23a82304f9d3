// Interposed system calls of the library (linked with --wrap).
#pragma once
#include <cstddef>
#include <cstdint>
#include <sys/types.h>
namespace io {
enum Op { PWRITE, PWRITEV, WRITE, WRITEV, FDATASYNC, FSYNC, MSYNC, FTRUNCATE, FALLOCATE, MMAP, MREMAP, MUNMAP, MADVISE, OPEN, CLOSE, UNLINK,
          PREAD, FCNTL, MALLOC, CALLOC, REALLOC, ALIGNED, COPYRANGE, SENDFILE, READ, FSTAT, MKDIR, MUTEX, NOPS };
extern const char *const name[NOPS];
struct Call {
  Op op;
  int fd = -1;
  void *addr = nullptr;
  uint64_t off = 0;
  size_t len = 0;
  int flags = 0;
  const char *path = nullptr;
  int64_t result = 0;
};
struct Hook {
  // nonzero: the call is not made and fails with that error number; a short write is requested by setting k.len
  virtual int before(Call &) { return 0; }
  virtual void after(Call &) {}
};
extern Hook *hook;             // none: calls pass through
extern thread_local int quiet; // >0: calls of this thread pass through
extern bool disguise_tmpfs;    // fstatfs() never reports an in-memory file system
struct Quiet {
  Quiet() { ++quiet; }
  ~Quiet() { --quiet; }
};
} // namespace io
