// Simulated disk: everything below /sim/ lives in the shared memory of the run, so that it survives
// the death of a simulated process. Other paths go to the real system untouched.
#include "rt_int.h"
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

#define FD_BASE 5000
#define NFD 256

static struct SFd { int used, file, flags, wrote; u64 pos; FILE* fp; } fds[NFD];
static u64 disk_written;

static void io_point(int kind) { mp_point(); sync_point(kind); }
static bool is_sim(const char* p) { return p && shm && !strncmp(p, "/sim", 4) && (p[4] == '/' || !p[4]); }

static void norm(const char* in, char* out, size_t n) {
  size_t k = 0;
  for (const char* p = in; *p && k + 1 < n;) {
    if (*p == '/') {
      while (*p == '/') ++p;
      if (p[0] == '.' && (p[1] == '/' || !p[1])) { ++p; continue; }
      if (!*p) break;
      out[k++] = '/';
      continue;
    }
    out[k++] = *p++;
  }
  out[k] = 0;
}

static u64 data_alloc(u64 n) {
  Disk& d = shm0->disk;
  u64 off = d.data_used;
  if (off + n > DISK_DATA) rt_die(OUT_INTERNAL, 0, "simulated disk arena exhausted");
  d.data_used += (n + 15) & ~15ull;
  return off;
}

static int find_raw(const char* path) {
  char b[232];
  norm(path, b, sizeof b);
  Disk& d = shm0->disk;
  for (u32 i = 0; i < d.nfiles; ++i)
    if (!strcmp(d.f[i].path, b)) return (int)i;
  return -1;
}
static int entry(const char* path) {       // existing or new slot
  int i = find_raw(path);
  if (i >= 0) return i;
  Disk& d = shm0->disk;
  if (d.nfiles >= MAXFILES) rt_die(OUT_INTERNAL, 0, "too many simulated files");
  SFile& f = d.f[d.nfiles];
  memset(&f, 0, sizeof f);
  norm(path, f.path, sizeof f.path);
  return (int)d.nfiles++;
}
static int lookup(const char* path) {
  int i = find_raw(path);
  return i >= 0 && shm0->disk.f[i].used ? i : -1;
}
static bool parent_ok(const char* path) {
  char b[232];
  norm(path, b, sizeof b);
  char* s = strrchr(b, '/');
  if (!s || s == b) return true;
  *s = 0;
  if (!strcmp(b, "/sim")) return true;
  int i = lookup(b);
  return i >= 0 && shm0->disk.f[i].is_dir;
}

static void make_room(SFile& f, u64 size) {
  bool shared = f.dur_used && f.dur_off == f.off;
  if (size <= f.cap && !shared) return;
  u64 cap = size < 4096 ? 4096 : size * 2;
  u64 off = data_alloc(cap);
  memcpy(shm0->data + off, shm0->data + f.off, f.size);
  f.off = off;
  f.cap = cap;
}

extern "C" {
void disk_reset() { shm0->disk.nfiles = 0; shm0->disk.data_used = 16; disk_mkdir("/sim"); }
void disk_put(const char* path, const char* data, u64 len) {
  SFile& f = shm0->disk.f[entry(path)];
  f.used = 1;
  f.is_dir = 0;
  f.cap = len;
  f.off = data_alloc(len + 1);
  f.size = len;
  memcpy(shm0->data + f.off, data, len);
  f.dirty = 0;
  f.dur_used = 1;
  f.dur_off = f.off;
  f.dur_size = len;
}
void disk_mkdir(const char* path) {
  SFile& f = shm0->disk.f[entry(path)];
  f.used = f.dur_used = f.is_dir = 1;
  f.dirty = 0;
}
SFile* disk_find(const char* path) {
  int i = lookup(path);
  return i < 0 ? 0 : &shm0->disk.f[i];
}
int disk_exists(const char* path) { return lookup(path) >= 0; }
const char* disk_data(SFile* f) { return shm0->data + f->off; }
void disk_remove(const char* path) {
  SFile* f = disk_find(path);
  if (f) { f->used = 0; f->dur_used = 0; f->dirty = 0; f->size = 0; }
}
void disk_sync_all() {
  for (u32 i = 0; i < shm0->disk.nfiles; ++i) {
    SFile& f = shm0->disk.f[i];
    f.dirty = 0;
    f.dur_used = f.used;
    f.dur_off = f.off;
    f.dur_size = f.size;
  }
}
// What a dirty file looks like after power loss. how: 0 old durable state, 1 empty, 2 prefix,
// 3 prefix then zeros, 4 everything, 5 everything but a page, which reads as zeros.
void disk_power_loss(SFile* f, int how, u64 arg) {
  if (!f->dirty) return;
  if (f->dirty == 2 && how != 0) how = 4;
  u64 cut = f->size ? arg % (f->size + 1) : 0;
  if (how == 0 || !f->used) {
    if (!f->used && how != 0) { f->size = 0; }
    else { f->used = f->dur_used; f->off = f->dur_off; f->size = f->dur_size; f->cap = f->size; }
  } else if (how == 1) {
    f->size = 0;
  } else if (how == 2) {
    f->size = cut;
  } else if (how == 3) {
    make_room(*f, f->size);
    memset(shm0->data + f->off + cut, 0, f->size - cut);
  } else if (how == 5) {
    u64 page = 64ull << (arg >> 60 & 7), at = arg % 3 == 0 ? 0 : cut / page * page;
    make_room(*f, f->size);
    memset(shm0->data + f->off + at, 0, page < f->size - at ? page : f->size - at);
  }
  f->dirty = 0;
  f->dur_used = f->used;
  f->dur_off = f->off;
  f->dur_size = f->size;
}
}

// ---------------------------------------------------------------------------------------------

#define REAL(name, ...) \
  using T_##name = __VA_ARGS__; \
  static T_##name real_##name; \
  if (!real_##name) real_##name = (T_##name)dlsym(RTLD_NEXT, #name)

static int fd_new(int file, int flags) {
  for (int i = 0; i < NFD; ++i)
    if (!fds[i].used) {
      memset(&fds[i], 0, sizeof fds[i]);
      fds[i].used = 1;
      fds[i].file = file;
      fds[i].flags = flags;
      return FD_BASE + i;
    }
  errno = EMFILE;
  return -1;
}
extern "C" int rt_open_files() {
  int n = 0;
  for (int i = 0; i < NFD; ++i) n += fds[i].used != 0;
  return n;
}
static SFd* get_fd(int fd) {
  if (fd < FD_BASE || fd >= FD_BASE + NFD || !fds[fd - FD_BASE].used) return 0;
  return &fds[fd - FD_BASE];
}

static int sim_open(const char* path, int flags) {
  io_point(40);
  if (g_sim) slow_io();
  if (g_sim) {
    u32 a = fault(F_OPEN);
    if (a) { ++S.io_open_fail; errno = (int)a; return -1; }
  }
  int i = lookup(path);
  if (i < 0) {
    if (!(flags & O_CREAT)) { errno = ENOENT; return -1; }
    if (!parent_ok(path)) { errno = ENOENT; return -1; }
    i = entry(path);
    SFile& f = shm0->disk.f[i];
    f.used = 1;
    f.is_dir = 0;
    f.size = 0;
    f.cap = 0;
    f.off = 0;
    f.dirty = 1;
    hash_ev(0x0c0 + (u64)i);
  } else {
    SFile& f = shm0->disk.f[i];
    if ((flags & (O_CREAT | O_EXCL)) == (O_CREAT | O_EXCL)) { errno = EEXIST; return -1; }
    if (f.is_dir && (flags & O_ACCMODE) != O_RDONLY) { errno = EISDIR; return -1; }
    if ((flags & O_DIRECTORY) && !f.is_dir) { errno = ENOTDIR; return -1; }
    if ((flags & O_TRUNC) && (flags & O_ACCMODE) != O_RDONLY && f.size) {
      f.size = 0;
      f.cap = 0;
      f.off = 0;
      f.dirty = 1;
    }
  }
  int fd = fd_new(i, flags);
  return fd;
}

static ssize_t sim_read(SFd* d, void* buf, size_t n) {
  io_point(41);
  if (g_sim) slow_io();
  SFile& f = shm0->disk.f[d->file];
  if ((d->flags & O_ACCMODE) == O_WRONLY) { errno = EBADF; return -1; }
  if (f.is_dir) { errno = EISDIR; return -1; }
  u64 left = d->pos < f.size ? f.size - d->pos : 0;
  u64 k = n < left ? n : left;
  if (g_sim) {
    u32 a = fault(F_READ);
    switch (a & 0xff) {
      case IOA_EIO: ++S.io_eio; errno = EIO; return -1;
      case IOA_EINTR: ++S.io_eintr; errno = EINTR; return -1;
      case IOA_SHORT:
        if (k > 1) { k = 1 + (a >> 8) % (k - 1); ++S.io_short; }
        break;
    }
  }
  memcpy(buf, shm0->data + f.off + d->pos, k);
  d->pos += k;
  hash_ev(0x41ull << 32 ^ k);
  return (ssize_t)k;
}

static void put_bytes(SFd* d, const char* buf, u64 n) {
  SFile& f = shm0->disk.f[d->file];
  if (d->flags & O_APPEND) d->pos = f.size;
  u64 end = d->pos + n;
  make_room(f, end > f.size ? end : f.size);
  if (d->pos > f.size) memset(shm0->data + f.off + f.size, 0, d->pos - f.size);
  memcpy(shm0->data + f.off + d->pos, buf, n);
  if (end > f.size) f.size = end;
  d->pos = end;
  f.dirty = 1;
  ++f.writes;
  d->wrote = 1;
  disk_written += n;
}

static ssize_t sim_write(SFd* d, const char* buf, size_t n) {
  io_point(42);
  if (g_sim) slow_io();
  if ((d->flags & O_ACCMODE) == O_RDONLY) { errno = EBADF; return -1; }
  u64 k = n;
  if (g_sim) {
    u32 a = fault(F_WRITE);
    switch (a & 0xff) {
      case IOA_EIO: ++S.io_eio; errno = EIO; return -1;
      case IOA_EINTR: ++S.io_eintr; errno = EINTR; return -1;
      case IOA_ENOSPC: ++S.io_enospc; errno = ENOSPC; return -1;
      case IOA_SHORT:
        if (k > 1) { k = 1 + (a >> 8) % (k - 1); ++S.io_short; }
        break;
      case IOA_CRASH: {
        u64 part = n * (u64)((a >> 8) % 1001) / 1000;
        if (part) put_bytes(d, buf, part);
        S.fired[F_CRASH]++;
        rt_finish(OUT_CRASH, 0, "killed while writing");
      }
    }
    if (faults_armed() && shm->cfg.disk_cap != ~0ull) {
      u64 room = disk_written < shm->cfg.disk_cap ? shm->cfg.disk_cap - disk_written : 0;
      if (k && !room) { ++S.io_enospc; ++S.fired[F_WRITE]; errno = ENOSPC; return -1; }
      if (k > room) { k = room; ++S.io_short; }
    }
  }
  put_bytes(d, buf, k);
  hash_ev(0x42ull << 32 ^ k);
  return (ssize_t)k;
}

static off_t sim_seek(SFd* d, off_t o, int wh) {
  io_point(43);
  if (g_sim) fault(F_SEEK);
  SFile& f = shm0->disk.f[d->file];
  i64 p = wh == SEEK_SET ? o : wh == SEEK_CUR ? (i64)d->pos + o : (i64)f.size + o;
  if (p < 0) { errno = EINVAL; return -1; }
  d->pos = (u64)p;
  return p;
}

static int sim_close(SFd* d) {
  io_point(44);
  if (g_sim) slow_io();
  d->used = 0;
  if (d->wrote && g_sim) {
    u32 a = fault(F_CLOSE);
    if (a) { ++S.io_close_fail; errno = EIO; return -1; }
  }
  return 0;
}

static int sim_fsync(SFd* d) {
  io_point(45);
  if (g_sim) slow_io();
  if (g_sim) { u32 a = fault(F_META); if (a) { errno = EIO; return -1; } }
  SFile& f = shm0->disk.f[d->file];
  f.dirty = 0;
  f.dur_used = f.used;
  f.dur_off = f.off;
  f.dur_size = f.size;
  return 0;
}

static void sim_stat(int i, struct stat* st) {
  memset(st, 0, sizeof *st);
  SFile& f = shm0->disk.f[i];
  st->st_mode = f.is_dir ? S_IFDIR | 0755 : S_IFREG | 0644;
  st->st_size = (off_t)f.size;
  st->st_ino = (ino_t)(i + 1);
  st->st_nlink = 1;
  st->st_blksize = 4096;
}

// stdio streams over the simulated disk. The lock of the FILE is held inside the callbacks, so they
// must not be preempted.
struct NoPreempt {
  int save;
  NoPreempt() : save(g_on) { if (save) io_point(46); g_on = 0; }
  ~NoPreempt() { g_on = save; }
};
static SFd* cookie_fd(void* c) { return &fds[(u64)c - 1]; }
static ssize_t ck_read(void* c, char* b, size_t n) { int s = g_on; g_on = 0; ssize_t r = sim_read(cookie_fd(c), b, n); g_on = s; return r; }
static ssize_t ck_write(void* c, const char* b, size_t n) {
  int s = g_on;
  g_on = 0;
  size_t done = 0;
  while (done < n) {
    ssize_t r = sim_write(cookie_fd(c), b + done, n - done);
    if (r < 0 && errno == EINTR) continue;
    if (r <= 0) break;
    done += (size_t)r;
  }
  g_on = s;
  return (ssize_t)done;
}
static int ck_seek(void* c, off64_t* o, int wh) {
  int s = g_on;
  g_on = 0;
  off_t r = sim_seek(cookie_fd(c), *o, wh);
  g_on = s;
  if (r < 0) return -1;
  *o = r;
  return 0;
}
static int ck_close(void* c) { int s = g_on; g_on = 0; int r = sim_close(cookie_fd(c)); g_on = s; return r; }

static int mode_flags(const char* m) {
  bool plus = strchr(m, '+') != 0;
  int acc = plus ? O_RDWR : m[0] == 'r' ? O_RDONLY : O_WRONLY;
  if (m[0] == 'w') acc |= O_CREAT | O_TRUNC;
  if (m[0] == 'a') acc |= O_CREAT | O_APPEND;
  if (strchr(m, 'x')) acc |= O_EXCL;
  return acc;
}
static FILE* sim_stream(int fd, const char* mode) {
  cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
  int save = g_on;
  g_on = 0;
  FILE* fp = fopencookie((void*)(u64)(fd - FD_BASE + 1), mode, io);
  g_on = save;
  if (!fp) { fds[fd - FD_BASE].used = 0; return 0; }
  fds[fd - FD_BASE].fp = fp;
  return fp;
}
static FILE* sim_fopen(const char* path, const char* mode) {
  int fd = sim_open(path, mode_flags(mode));
  if (fd < 0) return 0;
  return sim_stream(fd, mode);
}

extern "C" {
FILE* fopen(const char* p, const char* m) {
  if (is_sim(p)) return sim_fopen(p, m);
  REAL(fopen, FILE * (*)(const char*, const char*));
  return real_fopen(p, m);
}
FILE* fopen64(const char* p, const char* m) { return fopen(p, m); }
FILE* fdopen(int fd, const char* m) {
  if (get_fd(fd)) return sim_stream(fd, m);
  REAL(fdopen, FILE * (*)(int, const char*));
  return real_fdopen(fd, m);
}
int fileno(FILE* fp) {
  for (int i = 0; i < NFD; ++i) if (fds[i].used && fds[i].fp == fp) return FD_BASE + i;
  REAL(fileno, int (*)(FILE*));
  return real_fileno(fp);
}
int fclose(FILE* fp) {
  REAL(fclose, int (*)(FILE*));
  bool sim = false;
  for (int i = 0; i < NFD; ++i) if (fds[i].used && fds[i].fp == fp) sim = true;
  if (!sim) return real_fclose(fp);
  NoPreempt np;
  return real_fclose(fp);
}
#define DEF_OPEN(name) \
  int name(const char* p, int flags, ...) { \
    va_list ap; va_start(ap, flags); int mode = va_arg(ap, int); va_end(ap); \
    if (is_sim(p)) return sim_open(p, flags); \
    long r = raw_syscall(SYS_openat, AT_FDCWD, (long)p, flags, mode); \
    if (r < 0) { errno = (int)-r; return -1; } \
    return (int)r; }
DEF_OPEN(open) DEF_OPEN(open64)
// Path of a name below a simulated directory descriptor, or the path itself.
static const char* at_path(int dir, const char* p, char* buf, size_t n) {
  if (!p || *p == '/') return p;
  SFd* d = get_fd(dir);
  if (!d) return p;
  snprintf(buf, n, "%s/%s", shm0->disk.f[d->file].path, p);
  return buf;
}
#define DEF_OPENAT(name) \
  int name(int dir, const char* p, int flags, ...) { \
    char pb[400]; p = at_path(dir, p, pb, sizeof pb); \
    va_list ap; va_start(ap, flags); int mode = va_arg(ap, int); va_end(ap); \
    if (is_sim(p)) return sim_open(p, flags); \
    long r = raw_syscall(SYS_openat, dir, (long)p, flags, mode); \
    if (r < 0) { errno = (int)-r; return -1; } \
    return (int)r; }
DEF_OPENAT(openat) DEF_OPENAT(openat64)
int creat(const char* p, mode_t m) { return open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }

static long sysret(long r) {
  if (r < 0) { errno = (int)-r; return -1; }
  return r;
}
ssize_t read(int fd, void* b, size_t n) {
  SFd* d = get_fd(fd);
  if (d) return sim_read(d, b, n);
  return sysret(raw_syscall(SYS_read, fd, (long)b, (long)n));
}
ssize_t write(int fd, const void* b, size_t n) {
  SFd* d = get_fd(fd);
  if (d) return sim_write(d, (const char*)b, n);
  return sysret(raw_syscall(SYS_write, fd, (long)b, (long)n));
}
ssize_t pread(int fd, void* b, size_t n, off_t o) {
  SFd* d = get_fd(fd);
  if (d) { u64 s = d->pos; d->pos = (u64)o; ssize_t r = sim_read(d, b, n); d->pos = s; return r; }
  return sysret(raw_syscall(SYS_pread64, fd, (long)b, (long)n, o));
}
ssize_t pwrite(int fd, const void* b, size_t n, off_t o) {
  SFd* d = get_fd(fd);
  if (d) { u64 s = d->pos; d->pos = (u64)o; ssize_t r = sim_write(d, (const char*)b, n); d->pos = s; return r; }
  return sysret(raw_syscall(SYS_pwrite64, fd, (long)b, (long)n, o));
}
ssize_t readv(int fd, const struct iovec* v, int n) {
  SFd* d = get_fd(fd);
  if (!d) return sysret(raw_syscall(SYS_readv, fd, (long)v, n));
  for (int i = 0; i < n; ++i) if (v[i].iov_len) return sim_read(d, v[i].iov_base, v[i].iov_len);
  return 0;
}
ssize_t writev(int fd, const struct iovec* v, int n) {
  SFd* d = get_fd(fd);
  if (!d) return sysret(raw_syscall(SYS_writev, fd, (long)v, n));
  u64 total = 0;
  for (int i = 0; i < n; ++i) total += v[i].iov_len;
  char* tmp = (char*)malloc(total + 1);
  u64 k = 0;
  for (int i = 0; i < n; ++i) { memcpy(tmp + k, v[i].iov_base, v[i].iov_len); k += v[i].iov_len; }
  ssize_t r = sim_write(d, tmp, total);
  int e = errno;
  free(tmp);
  errno = e;
  return r;
}
off_t lseek(int fd, off_t o, int wh) {
  SFd* d = get_fd(fd);
  if (d) return sim_seek(d, o, wh);
  return sysret(raw_syscall(SYS_lseek, fd, o, wh));
}
off64_t lseek64(int fd, off64_t o, int wh) { return lseek(fd, o, wh); }
int close(int fd) {
  SFd* d = get_fd(fd);
  if (d) return sim_close(d);
  return (int)sysret(raw_syscall(SYS_close, fd));
}
int fsync(int fd) {
  SFd* d = get_fd(fd);
  if (d) return sim_fsync(d);
  return (int)sysret(raw_syscall(SYS_fsync, fd));
}
int fdatasync(int fd) { return fsync(fd); }
int ftruncate(int fd, off_t n) {
  SFd* d = get_fd(fd);
  if (!d) return (int)sysret(raw_syscall(SYS_ftruncate, fd, n));
  SFile& f = shm0->disk.f[d->file];
  make_room(f, (u64)n);
  if ((u64)n > f.size) memset(shm0->data + f.off + f.size, 0, (u64)n - f.size);
  f.size = (u64)n;
  f.dirty = 1;
  return 0;
}
int ftruncate64(int fd, off_t n) { return ftruncate(fd, n); }
int truncate(const char* p, off_t n) {
  if (!is_sim(p)) return (int)sysret(raw_syscall(SYS_truncate, (long)p, n));
  int fd = sim_open(p, O_WRONLY);
  if (fd < 0) return -1;
  int r = ftruncate(fd, n);
  close(fd);
  return r;
}
int stat(const char* p, struct stat* st) {
  if (is_sim(p)) {
    io_point(47);
    int i = lookup(p);
    if (i < 0) { errno = ENOENT; return -1; }
    sim_stat(i, st);
    return 0;
  }
  return (int)sysret(raw_syscall(SYS_stat, (long)p, (long)st));
}
int lstat(const char* p, struct stat* st) {
  if (is_sim(p)) return stat(p, st);
  return (int)sysret(raw_syscall(SYS_lstat, (long)p, (long)st));
}
int fstat(int fd, struct stat* st) {
  SFd* d = get_fd(fd);
  if (d) { sim_stat(d->file, st); return 0; }
  return (int)sysret(raw_syscall(SYS_fstat, fd, (long)st));
}
int stat64(const char* p, struct stat64* st) { return stat(p, (struct stat*)st); }
int lstat64(const char* p, struct stat64* st) { return lstat(p, (struct stat*)st); }
int fstat64(int fd, struct stat64* st) { return fstat(fd, (struct stat*)st); }
int access(const char* p, int m) {
  if (is_sim(p)) { io_point(47); if (lookup(p) >= 0) return 0; errno = ENOENT; return -1; }
  return (int)sysret(raw_syscall(SYS_access, (long)p, m));
}
int mkdir(const char* p, mode_t m) {
  if (!is_sim(p)) return (int)sysret(raw_syscall(SYS_mkdir, (long)p, m));
  io_point(48);
  if (lookup(p) >= 0) { errno = EEXIST; return -1; }
  if (g_sim) { u32 a = fault(F_META); if (a) { errno = (int)a; return -1; } }
  if (!parent_ok(p)) { errno = ENOENT; return -1; }
  SFile& f = shm0->disk.f[entry(p)];
  f.used = f.is_dir = 1;
  f.dur_used = 1;
  f.dirty = 0;
  f.size = 0;
  return 0;
}
static bool inside(const char* dir, const char* p) {
  size_t n = strlen(dir);
  return !strncmp(p, dir, n) && p[n] == '/';
}
static int sim_unlink(const char* p, int dir) {
  io_point(49);
  int i = lookup(p);
  if (i < 0) { errno = ENOENT; return -1; }
  SFile& f = shm0->disk.f[i];
  if (dir == 0 && f.is_dir) { errno = EISDIR; return -1; }
  if (dir == 1 && !f.is_dir) { errno = ENOTDIR; return -1; }
  if (f.is_dir)
    for (u32 j = 0; j < shm0->disk.nfiles; ++j)
      if (shm0->disk.f[j].used && inside(f.path, shm0->disk.f[j].path)) { errno = ENOTEMPTY; return -1; }
  if (g_sim) { u32 a = fault(F_META); if (a) { errno = (int)a; return -1; } }
  f.used = 0;
  f.size = 0;
  f.cap = 0;
  f.off = 0;
  f.dirty = 1;
  return 0;
}
int unlink(const char* p) {
  if (is_sim(p)) return sim_unlink(p, 0);
  return (int)sysret(raw_syscall(SYS_unlink, (long)p));
}
int rmdir(const char* p) {
  if (is_sim(p)) return sim_unlink(p, 1);
  return (int)sysret(raw_syscall(SYS_rmdir, (long)p));
}
int unlinkat(int dir, const char* p, int flags) {
  char pb[400]; p = at_path(dir, p, pb, sizeof pb);
  if (is_sim(p)) return sim_unlink(p, flags & AT_REMOVEDIR ? 1 : 0);
  return (int)sysret(raw_syscall(SYS_unlinkat, dir, (long)p, flags));
}
int remove(const char* p) {
  if (is_sim(p)) return sim_unlink(p, 2);
  REAL(remove, int (*)(const char*));
  return real_remove(p);
}
int mkdirat(int dir, const char* p, mode_t m) {
  char pb[400]; p = at_path(dir, p, pb, sizeof pb);
  if (is_sim(p)) return mkdir(p, m);
  return (int)sysret(raw_syscall(SYS_mkdirat, dir, (long)p, m));
}
int fstatat(int dir, const char* p, struct stat* st, int flags) {
  char pb[400];
  if (p && !*p && get_fd(dir)) return fstat(dir, st);
  p = at_path(dir, p, pb, sizeof pb);
  if (is_sim(p)) return stat(p, st);
  return (int)sysret(raw_syscall(SYS_newfstatat, dir, (long)p, (long)st, flags));
}
int fstatat64(int dir, const char* p, struct stat64* st, int flags) { return fstatat(dir, p, (struct stat*)st, flags); }
int faccessat(int dir, const char* p, int m, int flags) {
  char pb[400]; p = at_path(dir, p, pb, sizeof pb);
  if (is_sim(p)) return access(p, m);
  return (int)sysret(raw_syscall(SYS_faccessat, dir, (long)p, m));
}
int chmod(const char* p, mode_t m) {
  if (is_sim(p)) { io_point(47); if (lookup(p) >= 0) return 0; errno = ENOENT; return -1; }
  return (int)sysret(raw_syscall(SYS_chmod, (long)p, m));
}
int fchmod(int fd, mode_t m) {
  if (get_fd(fd)) return 0;
  return (int)sysret(raw_syscall(SYS_fchmod, fd, m));
}
ssize_t readlink(const char* p, char* b, size_t n) {
  if (is_sim(p)) { errno = lookup(p) >= 0 ? EINVAL : ENOENT; return -1; }
  return sysret(raw_syscall(SYS_readlink, (long)p, (long)b, (long)n));
}
char* getcwd(char* b, size_t n) {
  if (g_sim && cur) {
    if (!b) b = (char*)malloc(n ? n : 16);
    strcpy(b, "/sim");
    return b;
  }
  long r = raw_syscall(SYS_getcwd, (long)b, (long)n);
  if (r < 0) { errno = (int)-r; return 0; }
  return b;
}

// Directory listings of the simulated disk, in the order of its table.
struct SimDir { u64 magic; int fd; u32 next; struct dirent64 e; };
static const u64 kDirMagic = 0x51d1251d1251d125ull;
static SimDir* as_simdir(DIR* d) { return d && ((u64)d & 7) == 0 && ((SimDir*)d)->magic == kDirMagic ? (SimDir*)d : 0; }
static DIR* sim_opendir(int fd) {
  SFd* d = get_fd(fd);
  if (!shm0->disk.f[d->file].is_dir) { errno = ENOTDIR; return 0; }
  SimDir* s = (SimDir*)calloc(1, sizeof(SimDir));
  s->magic = kDirMagic;
  s->fd = fd;
  return (DIR*)s;
}
DIR* fdopendir(int fd) {
  if (get_fd(fd)) return sim_opendir(fd);
  REAL(fdopendir, DIR* (*)(int));
  return real_fdopendir(fd);
}
DIR* opendir(const char* p) {
  if (!is_sim(p)) { REAL(opendir, DIR* (*)(const char*)); return real_opendir(p); }
  int fd = sim_open(p, O_RDONLY | O_DIRECTORY);
  if (fd < 0) return 0;
  return sim_opendir(fd);
}
struct dirent64* readdir64(DIR* dp) {
  SimDir* s = as_simdir(dp);
  if (!s) { REAL(readdir64, struct dirent64* (*)(DIR*)); return real_readdir64(dp); }
  SFd* d = get_fd(s->fd);
  const char* base = shm0->disk.f[d->file].path;
  size_t n = strlen(base);
  while (s->next < shm0->disk.nfiles) {
    SFile& f = shm0->disk.f[s->next++];
    if (!f.used || !inside(base, f.path) || strchr(f.path + n + 1, '/')) continue;
    snprintf(s->e.d_name, sizeof s->e.d_name, "%s", f.path + n + 1);
    s->e.d_type = f.is_dir ? DT_DIR : DT_REG;
    s->e.d_ino = s->next;
    return &s->e;
  }
  return 0;
}
struct dirent* readdir(DIR* dp) { return (struct dirent*)readdir64(dp); }
void rewinddir(DIR* dp) {
  SimDir* s = as_simdir(dp);
  if (s) { s->next = 0; return; }
  REAL(rewinddir, void (*)(DIR*));
  real_rewinddir(dp);
}
int dirfd(DIR* dp) {
  SimDir* s = as_simdir(dp);
  if (s) return s->fd;
  REAL(dirfd, int (*)(DIR*));
  return real_dirfd(dp);
}
int closedir(DIR* dp) {
  SimDir* s = as_simdir(dp);
  if (!s) { REAL(closedir, int (*)(DIR*)); return real_closedir(dp); }
  int fd = s->fd;
  s->magic = 0;
  free(s);
  return close(fd);
}
static int sim_dup(int fd) {
  SFd* d = get_fd(fd);
  int n = fd_new(d->file, d->flags);
  if (n < 0) return -1;
  SFd* e = get_fd(n);
  e->pos = d->pos;
  return n;
}
int dup(int fd) { return get_fd(fd) ? sim_dup(fd) : (int)sysret(raw_syscall(SYS_dup, fd)); }
#define DEF_FCNTL(name) \
  int name(int fd, int cmd, ...) { \
    va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); \
    if (!get_fd(fd)) return (int)sysret(raw_syscall(SYS_fcntl, fd, cmd, a)); \
    switch (cmd) { \
      case F_DUPFD: case F_DUPFD_CLOEXEC: return sim_dup(fd); \
      case F_GETFD: case F_SETFD: case F_SETFL: return 0; \
      case F_GETFL: return get_fd(fd)->flags; \
    } \
    errno = EINVAL; return -1; }
DEF_FCNTL(fcntl) DEF_FCNTL(fcntl64)
int rename(const char* a, const char* b) {
  if (!is_sim(a) || !is_sim(b)) return (int)sysret(raw_syscall(SYS_rename, (long)a, (long)b));
  io_point(50);
  int i = lookup(a);
  if (i < 0) { errno = ENOENT; return -1; }
  if (!parent_ok(b)) { errno = ENOENT; return -1; }
  if (g_sim) { u32 x = fault(F_META); if (x) { errno = (int)x; return -1; } }
  int j = entry(b);
  SFile& f = shm0->disk.f[i];
  SFile& g = shm0->disk.f[j];
  if (i == j) return 0;
  bool atomic = !f.dirty;            // content already durable: old or new, nothing between
  g.used = 1;
  g.is_dir = f.is_dir;
  g.off = f.off;
  g.size = f.size;
  g.cap = 0;
  g.dirty = atomic ? 2 : 1;
  if (f.is_dir)
    for (u32 k = 0; k < shm0->disk.nfiles; ++k) {
      SFile& h = shm0->disk.f[k];
      if (!inside(f.path, h.path)) continue;
      char t[400];
      snprintf(t, sizeof t, "%s%s", g.path, h.path + strlen(f.path));
      snprintf(h.path, sizeof h.path, "%s", t);
    }
  f.used = 0;
  f.off = 0;
  f.size = f.cap = 0;
  f.dirty = 1;
  return 0;
}
int ioctl(int fd, unsigned long req, ...) {
  va_list ap;
  va_start(ap, req);
  long a = va_arg(ap, long);
  va_end(ap);
  if (get_fd(fd)) { errno = ENOTTY; return -1; }
  return (int)sysret(raw_syscall(SYS_ioctl, fd, (long)req, a));
}
int isatty(int fd) { if (get_fd(fd)) return 0; char t[128]; return raw_syscall(SYS_ioctl, fd, 0x5401, (long)t) == 0; }
int poll(struct pollfd* p, nfds_t n, int to) {
  for (nfds_t i = 0; i < n; ++i) if (get_fd(p[i].fd)) { errno = EINVAL; return -1; }
  return (int)sysret(raw_syscall(SYS_poll, (long)p, (long)n, to));
}
}
