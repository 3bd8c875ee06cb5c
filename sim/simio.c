// Storage simulator: an LD_PRELOAD layer under libstdc++, HDF5, netCDF and
// CPython.  Every file operation on a path below SIMIO_ROOT is counted, logged
// and, if the armed plan says so, faulted: error codes, short transfers, torn
// writes, process death before/in/after an operation, a signal at an
// operation.  Randomness (getrandom) and the process id come from the plan, so
// that one plan is one exactly repeatable execution.  Files outside the root
// are passed through untouched and unseen.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

enum Type { T_OPEN, T_READ, T_WRITE, T_CLOSE, T_SYNC, T_RENAME, T_UNLINK, T_TRUNC, T_MKDIR, T_SEEK, T_N };
static const char* kName[T_N] = {"open", "read", "write", "close", "sync", "rename", "unlink", "trunc", "mkdir", "seek"};

// actions
enum Action { A_NONE, A_ERR, A_SHORT, A_TORN, A_CRASH_BEFORE, A_CRASH_AFTER, A_SIGNAL };

struct Rule {
  int type;      // T_* or -1 for any
  long k;        // 0-based index among operations of that type
  int persist;   // fault every operation from k on
  int action;
  int err;       // errno, or signal number, or bytes kept (per mille) for torn
};

#define MAXRULES 16
#define MAXFD 4096
#define LOGMAX (1 << 20)
static struct Rule rules[MAXRULES];
static int nrules, armed;
static long count[T_N], total, injected[T_N], n_injected;
static char root[PATH_MAX];
static size_t rootlen;
static char fdpath[MAXFD][160];
static unsigned char fdtracked[MAXFD];
static int fake_pid;
static uint64_t rnd;
static int have_rnd;
static char logbuf[LOGMAX];
static size_t loglen;
static uint64_t loghash = 1469598103934665603ull;
static char crashlog[PATH_MAX];
static int gate_r = -1, gate_w = -1;  // scheduler of concurrent processes
static long max_ops = 200000;         // progress bound, in operations
static uint64_t sim_ns;               // simulated wall clock
static long clock_jump_at = -1, clock_jump_s;
static long clock_reads;

#define REAL(ret, name, args) \
  static ret(*real_##name) args; \
  if (!real_##name) real_##name = (ret(*) args)dlsym(RTLD_NEXT, #name)

__attribute__((constructor)) static void init(void) {
  const char* r = getenv("SIMIO_ROOT");
  if (r) {
    snprintf(root, sizeof root, "%s", r);
    rootlen = strlen(root);
  }
}

static void put(const char* s, size_t n) {
  for (size_t i = 0; i < n; i++) loghash = (loghash ^ (unsigned char)s[i]) * 1099511628211ull;
  if (loglen + n < LOGMAX) {
    memcpy(logbuf + loglen, s, n);
    loglen += n;
  }
}

// random temporary names are part of the plan, but keep logs readable
static void note(int type, const char* path, long size, const char* what) {
  char b[400];
  int n = snprintf(b, sizeof b, "%s %s %ld %s\n", kName[type], path ? path : "?", size, what);
  put(b, n < (int)sizeof b ? n : (int)sizeof b - 1);
}

static int tracked_path(const char* p, char* out) {
  if (!rootlen || !p) return 0;
  char abs[PATH_MAX];
  if (p[0] != '/') {
    if (!getcwd(abs, sizeof abs)) return 0;
    size_t l = strlen(abs);
    snprintf(abs + l, sizeof abs - l, "/%s", p);
    p = abs;
  }
  if (strncmp(p, root, rootlen) || (p[rootlen] != '/' && p[rootlen])) return 0;
  snprintf(out, 160, "%s", p + rootlen + (p[rootlen] ? 1 : 0));
  return 1;
}

static int tracked_fd(int fd) { return fd >= 0 && fd < MAXFD && fdtracked[fd]; }

static void track(int fd, const char* rel) {
  if (fd >= 0 && fd < MAXFD) {
    fdtracked[fd] = 1;
    snprintf(fdpath[fd], sizeof fdpath[fd], "%s", rel);
  }
}

static void die_code(int code);
static void die(const char* how) {
  (void)how;
  die_code(77);
}
static void die_code(int code) {
  if (crashlog[0]) {
    int fd = syscall(SYS_openat, AT_FDCWD, crashlog, O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (fd >= 0) {
      syscall(SYS_write, fd, logbuf, loglen);
      syscall(SYS_close, fd);
    }
  }
  syscall(SYS_exit_group, code);
}

static const struct Rule* decide(int type) {
  if (!armed) return 0;
  if (gate_w >= 0) {
    char c = 'x';
    if (syscall(SYS_write, gate_w, &c, 1) != 1 || syscall(SYS_read, gate_r, &c, 1) != 1) syscall(SYS_exit_group, 79);
  }
  long i = count[type]++;
  long a = total++;
  sim_ns += 1000000;
  if (total > max_ops) {
    put("!no-progress\n", 13);
    die_code(78);
  }
  for (int j = 0; j < nrules; j++) {
    const struct Rule* r = &rules[j];
    long x = r->type < 0 ? a : i;
    if (r->type >= 0 && r->type != type) continue;
    if (x == r->k || (r->persist && x > r->k)) {
      if (r->action == A_SHORT && type != T_READ && type != T_WRITE) continue;
      if (r->action == A_TORN && type != T_WRITE) continue;
      n_injected++;
      injected[type]++;
      return r;
    }
  }
  return 0;
}

// Returns 1 if the operation must fail with errno set.
static int pre(const struct Rule* r, int type, const char* path, long size) {
  if (!armed) return 0;
  if (!r) {
    note(type, path, size, "-");
    return 0;
  }
  switch (r->action) {
    case A_ERR: {
      char b[32];
      snprintf(b, sizeof b, "!err%d", r->err);
      note(type, path, size, b);
      errno = r->err;
      return 1;
    }
    case A_CRASH_BEFORE:
      note(type, path, size, "!crash-before");
      die("before");
    case A_CRASH_AFTER:
      note(type, path, size, "!crash-after");
      return 0;
    case A_SIGNAL:
      note(type, path, size, "!signal");
      raise(r->err);
      return 0;
    case A_SHORT:
      note(type, path, size, "!short");
      return 0;
    case A_TORN:
      note(type, path, size, "!torn");
      return 0;
  }
  return 0;
}

static void post(const struct Rule* r) {
  if (r && r->action == A_CRASH_AFTER) die("after");
}

// ---- control interface -----------------------------------------------------
// plan: "type,k,persist,action,err;..."   (type -1 = any)
int simio_arm(const char* plan, uint64_t seed, const char* crash_log) {
  nrules = 0;
  memset(count, 0, sizeof count);
  memset(injected, 0, sizeof injected);
  total = n_injected = 0;
  loglen = 0;
  loghash = 1469598103934665603ull;
  rnd = seed * 2 + 1;
  if (!sim_ns) sim_ns = 1700000000ull * 1000000000ull;
  have_rnd = 1;
  snprintf(crashlog, sizeof crashlog, "%s", crash_log ? crash_log : "");
  const char* p = plan;
  while (p && *p && nrules < MAXRULES) {
    struct Rule r;
    if (sscanf(p, "%d,%ld,%d,%d,%d", &r.type, &r.k, &r.persist, &r.action, &r.err) == 5) rules[nrules++] = r;
    p = strchr(p, ';');
    if (p) p++;
  }
  armed = 1;
  return nrules;
}

void simio_gate(int r, int w) {
  gate_r = r;
  gate_w = w;
}
// the simulated clock starts at base_s and jumps by jump_s at its k-th reading
void simio_clock(uint64_t base_s, long k, long jump_s) {
  sim_ns = base_s * 1000000000ull;
  clock_jump_at = k;
  clock_jump_s = jump_s;
  clock_reads = 0;
}
void simio_set_pid(int pid) { fake_pid = pid; }
void simio_set_root(const char* r) {
  snprintf(root, sizeof root, "%s", r);
  rootlen = strlen(root);
  memset(fdtracked, 0, sizeof fdtracked);
}

// counts per type, then total, injected, log hash (as text)
void simio_disarm(char* out, int n) {
  armed = 0;
  int l = 0;
  for (int i = 0; i < T_N; i++) l += snprintf(out + l, n - l, "%ld ", count[i]);
  snprintf(out + l, n - l, "%ld %ld %llu", total, n_injected, (unsigned long long)loghash);
}

// faults injected since simio_arm
long simio_injected(void) { return n_injected; }

long simio_log(char* out, long n) {
  long m = (long)loglen < n ? (long)loglen : n;
  memcpy(out, logbuf, m);
  return m;
}

// ---- interposed calls --------------------------------------------------------
static int do_open(int dirfd, const char* path, int flags, mode_t mode) {
  char rel[160];
  int t = tracked_path(path, rel) && (path[0] == '/' || dirfd == AT_FDCWD);
  const struct Rule* r = t ? decide(T_OPEN) : 0;
  if (t && pre(r, T_OPEN, rel, flags & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC))) return -1;
  int fd = syscall(SYS_openat, dirfd, path, flags, mode);
  if (fd >= 0 && fd < MAXFD) fdtracked[fd] = 0;
  if (t && fd >= 0) track(fd, rel);
  post(r);
  return fd;
}
#define MODE                                    \
  mode_t mode = 0;                              \
  if ((flags & O_CREAT) || (flags & O_TMPFILE) == O_TMPFILE) { \
    va_list ap;                                 \
    va_start(ap, flags);                        \
    mode = va_arg(ap, mode_t);                  \
    va_end(ap);                                 \
  }
int open(const char* p, int flags, ...) { MODE return do_open(AT_FDCWD, p, flags, mode); }
int open64(const char* p, int flags, ...) { MODE return do_open(AT_FDCWD, p, flags | O_LARGEFILE, mode); }
int openat(int d, const char* p, int flags, ...) { MODE return do_open(d, p, flags, mode); }
int openat64(int d, const char* p, int flags, ...) { MODE return do_open(d, p, flags | O_LARGEFILE, mode); }
int creat(const char* p, mode_t mode) { return do_open(AT_FDCWD, p, O_WRONLY | O_CREAT | O_TRUNC, mode); }

static FILE* do_fopen(const char* p, const char* m, FILE* (*real)(const char*, const char*)) {
  char rel[160];
  int t = tracked_path(p, rel);
  const struct Rule* r = t ? decide(T_OPEN) : 0;
  if (t && pre(r, T_OPEN, rel, m[0])) return 0;
  FILE* f = real(p, m);
  if (f && t) track(fileno(f), rel);
  post(r);
  return f;
}
FILE* fopen(const char* p, const char* m) {
  REAL(FILE*, fopen, (const char*, const char*));
  return do_fopen(p, m, real_fopen);
}
FILE* fopen64(const char* p, const char* m) {
  REAL(FILE*, fopen64, (const char*, const char*));
  return do_fopen(p, m, real_fopen64);
}
int fclose(FILE* f) {
  REAL(int, fclose, (FILE*));
  int fd = f ? fileno(f) : -1;
  if (!tracked_fd(fd)) return real_fclose(f);
  const struct Rule* r = decide(T_CLOSE);
  int bad = pre(r, T_CLOSE, fdpath[fd], 0), e = errno;
  fdtracked[fd] = 0;
  int rc = real_fclose(f);
  post(r);
  if (bad) {
    errno = e;
    return EOF;
  }
  return rc;
}

static size_t part(const struct Rule* r, size_t n) {
  if (!r || n < 2) return n;
  if (r->action == A_SHORT || r->action == A_TORN) {
    size_t m = n * (r->err > 0 && r->err < 1000 ? r->err : 500) / 1000;
    return m ? m : (r->action == A_TORN ? 0 : 1);
  }
  return n;
}

ssize_t read(int fd, void* b, size_t n) {
  if (!tracked_fd(fd)) return syscall(SYS_read, fd, b, n);
  const struct Rule* r = decide(T_READ);
  if (pre(r, T_READ, fdpath[fd], n)) return -1;
  ssize_t k = syscall(SYS_read, fd, b, part(r, n));
  post(r);
  return k;
}
static ssize_t do_pread(int fd, void* b, size_t n, off_t o) {
  if (!tracked_fd(fd)) return syscall(SYS_pread64, fd, b, n, o);
  const struct Rule* r = decide(T_READ);
  if (pre(r, T_READ, fdpath[fd], n)) return -1;
  ssize_t k = syscall(SYS_pread64, fd, b, part(r, n), o);
  post(r);
  return k;
}
ssize_t pread(int fd, void* b, size_t n, off_t o) { return do_pread(fd, b, n, o); }
ssize_t pread64(int fd, void* b, size_t n, off_t o) { return do_pread(fd, b, n, o); }
ssize_t readv(int fd, const struct iovec* v, int c) {
  if (!tracked_fd(fd)) return syscall(SYS_readv, fd, v, c);
  const struct Rule* r = decide(T_READ);
  if (pre(r, T_READ, fdpath[fd], c)) return -1;
  ssize_t k = syscall(SYS_readv, fd, v, c);
  post(r);
  return k;
}
ssize_t write(int fd, const void* b, size_t n) {
  if (!tracked_fd(fd)) return syscall(SYS_write, fd, b, n);
  const struct Rule* r = decide(T_WRITE);
  if (pre(r, T_WRITE, fdpath[fd], n)) return -1;
  ssize_t k = syscall(SYS_write, fd, b, part(r, n));
  if (r && r->action == A_TORN) die("torn");
  post(r);
  return k;
}
static ssize_t do_pwrite(int fd, const void* b, size_t n, off_t o) {
  if (!tracked_fd(fd)) return syscall(SYS_pwrite64, fd, b, n, o);
  const struct Rule* r = decide(T_WRITE);
  if (pre(r, T_WRITE, fdpath[fd], n)) return -1;
  ssize_t k = syscall(SYS_pwrite64, fd, b, part(r, n), o);
  if (r && r->action == A_TORN) die("torn");
  post(r);
  return k;
}
ssize_t pwrite(int fd, const void* b, size_t n, off_t o) { return do_pwrite(fd, b, n, o); }
ssize_t pwrite64(int fd, const void* b, size_t n, off_t o) { return do_pwrite(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec* v, int c) {
  if (!tracked_fd(fd)) return syscall(SYS_writev, fd, v, c);
  const struct Rule* r = decide(T_WRITE);
  size_t n = 0;
  for (int i = 0; i < c; i++) n += v[i].iov_len;
  if (pre(r, T_WRITE, fdpath[fd], n)) return -1;
  ssize_t k;
  if (r && (r->action == A_SHORT || r->action == A_TORN)) {
    size_t want = part(r, n), done = 0;
    for (int i = 0; i < c && done < want; i++) {
      size_t m = v[i].iov_len < want - done ? v[i].iov_len : want - done;
      ssize_t w = syscall(SYS_write, fd, v[i].iov_base, m);
      if (w < 0) return w;
      done += w;
    }
    k = done;
  } else {
    k = syscall(SYS_writev, fd, v, c);
  }
  if (r && r->action == A_TORN) die("torn");
  post(r);
  return k;
}
int close(int fd) {
  if (!tracked_fd(fd)) return syscall(SYS_close, fd);
  const struct Rule* r = decide(T_CLOSE);
  int bad = pre(r, T_CLOSE, fdpath[fd], 0), e = errno;
  fdtracked[fd] = 0;
  int rc = syscall(SYS_close, fd);
  post(r);
  if (bad) {
    errno = e;
    return -1;
  }
  return rc;
}
static int sync_call(int fd, long nr) {
  if (!tracked_fd(fd)) return syscall(nr, fd);
  const struct Rule* r = decide(T_SYNC);
  if (pre(r, T_SYNC, fdpath[fd], 0)) return -1;
  int rc = syscall(nr, fd);
  post(r);
  return rc;
}
int fsync(int fd) { return sync_call(fd, SYS_fsync); }
int fdatasync(int fd) { return sync_call(fd, SYS_fdatasync); }
static int trunc_call(int fd, off_t n) {
  if (!tracked_fd(fd)) return syscall(SYS_ftruncate, fd, n);
  const struct Rule* r = decide(T_TRUNC);
  if (pre(r, T_TRUNC, fdpath[fd], n)) return -1;
  int rc = syscall(SYS_ftruncate, fd, n);
  post(r);
  return rc;
}
int ftruncate(int fd, off_t n) { return trunc_call(fd, n); }
int ftruncate64(int fd, off64_t n) { return trunc_call(fd, n); }
int truncate(const char* p, off_t n) {
  char rel[160];
  int t = tracked_path(p, rel);
  const struct Rule* r = t ? decide(T_TRUNC) : 0;
  if (t && pre(r, T_TRUNC, rel, n)) return -1;
  int rc = syscall(SYS_truncate, p, n);
  post(r);
  return rc;
}
static int rename_call(int od, const char* o, int nd, const char* n, unsigned f) {
  char rel[160], rel2[160];
  int t = tracked_path(n, rel) | tracked_path(o, rel2);
  const struct Rule* r = t ? decide(T_RENAME) : 0;
  if (t && pre(r, T_RENAME, rel, 0)) return -1;
  int rc = syscall(SYS_renameat2, od, o, nd, n, f);
  post(r);
  return rc;
}
int rename(const char* o, const char* n) { return rename_call(AT_FDCWD, o, AT_FDCWD, n, 0); }
int renameat(int a, const char* o, int b, const char* n) { return rename_call(a, o, b, n, 0); }
int renameat2(int a, const char* o, int b, const char* n, unsigned f) { return rename_call(a, o, b, n, f); }
static int unlink_call(int d, const char* p, int flags) {
  char rel[160];
  int t = tracked_path(p, rel) && (p[0] == '/' || d == AT_FDCWD);
  const struct Rule* r = t ? decide(T_UNLINK) : 0;
  if (t && pre(r, T_UNLINK, rel, flags)) return -1;
  int rc = syscall(SYS_unlinkat, d, p, flags);
  post(r);
  return rc;
}
int unlink(const char* p) { return unlink_call(AT_FDCWD, p, 0); }
int unlinkat(int d, const char* p, int f) { return unlink_call(d, p, f); }
int remove(const char* p) {
  struct stat st;
  if (lstat(p, &st) == 0 && S_ISDIR(st.st_mode)) return unlink_call(AT_FDCWD, p, AT_REMOVEDIR);
  return unlink_call(AT_FDCWD, p, 0);
}
int rmdir(const char* p) { return unlink_call(AT_FDCWD, p, AT_REMOVEDIR); }
int mkdir(const char* p, mode_t m) {
  char rel[160];
  int t = tracked_path(p, rel);
  const struct Rule* r = t ? decide(T_MKDIR) : 0;
  if (t && pre(r, T_MKDIR, rel, m)) return -1;
  int rc = syscall(SYS_mkdir, p, m);
  post(r);
  return rc;
}
static ssize_t do_sendfile(int out, int in, off_t* o, size_t n) {
  if (!tracked_fd(out) && !tracked_fd(in)) return syscall(SYS_sendfile, out, in, o, n);
  int fd = tracked_fd(out) ? out : in;
  const struct Rule* r = decide(T_WRITE);
  if (pre(r, T_WRITE, fdpath[fd], 0)) return -1;
  struct stat st;
  size_t m = n;
  if (r && (r->action == A_SHORT || r->action == A_TORN) && fstat(in, &st) == 0) m = part(r, st.st_size);
  ssize_t k = syscall(SYS_sendfile, out, in, o, m);
  if (r && r->action == A_TORN) die("torn");
  post(r);
  return k;
}
ssize_t sendfile(int out, int in, off_t* o, size_t n) { return do_sendfile(out, in, o, n); }
ssize_t sendfile64(int out, int in, off64_t* o, size_t n) { return do_sendfile(out, in, o, n); }
ssize_t copy_file_range(int in, off64_t* io, int out, off64_t* oo, size_t n, unsigned f) {
  if (!tracked_fd(out)) return syscall(SYS_copy_file_range, in, io, out, oo, n, f);
  const struct Rule* r = decide(T_WRITE);
  if (pre(r, T_WRITE, fdpath[out], n)) return -1;
  ssize_t k = syscall(SYS_copy_file_range, in, io, out, oo, part(r, n), f);
  if (r && r->action == A_TORN) die("torn");
  post(r);
  return k;
}

// ---- clock ---------------------------------------------------------------------
static uint64_t now_ns(void) {
  if (clock_reads++ == clock_jump_at) sim_ns += (int64_t)clock_jump_s * 1000000000ll;
  sim_ns += 1000000;
  return sim_ns;
}
int clock_gettime(clockid_t c, struct timespec* t) {
  if (!armed || !sim_ns || (c != CLOCK_REALTIME && c != CLOCK_REALTIME_COARSE)) return syscall(SYS_clock_gettime, c, t);
  uint64_t n = now_ns();
  t->tv_sec = n / 1000000000ull;
  t->tv_nsec = n % 1000000000ull;
  return 0;
}
int gettimeofday(struct timeval* t, void* z) {
  if (!armed || !sim_ns) return syscall(SYS_gettimeofday, t, z);
  uint64_t n = now_ns();
  t->tv_sec = n / 1000000000ull;
  t->tv_usec = n % 1000000000ull / 1000;
  return 0;
}
time_t time(time_t* o) {
  time_t v;
  if (!armed || !sim_ns) {
    struct timespec t;
    syscall(SYS_clock_gettime, CLOCK_REALTIME, &t);
    v = t.tv_sec;
  } else {
    v = now_ns() / 1000000000ull;
  }
  if (o) *o = v;
  return v;
}

// ---- randomness, process id ---------------------------------------------------
static uint64_t next(void) {
  rnd += 0x9e3779b97f4a7c15ull;
  uint64_t z = rnd;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
ssize_t getrandom(void* b, size_t n, unsigned f) {
  if (!have_rnd) return syscall(SYS_getrandom, b, n, f);
  for (size_t i = 0; i < n; i++) ((unsigned char*)b)[i] = (unsigned char)(next() >> 24);
  return n;
}
int getentropy(void* b, size_t n) { return getrandom(b, n, 0) == (ssize_t)n ? 0 : -1; }
pid_t getpid(void) { return fake_pid ? fake_pid : (pid_t)syscall(SYS_getpid); }

// ---- signals at points inside the solver --------------------------------------
// With one solver thread the barriers it passes are a clock of its progress;
// signals are raised at planned values of that clock.
static long omp_count, omp_at[8];
static int omp_sig[8], omp_n, omp_raised, omp_paused;
static void omp_tick(void) {
  if (!omp_n || omp_paused || syscall(SYS_gettid) != syscall(SYS_getpid)) return;
  long k = omp_count++;
  for (int i = 0; i < omp_n; i++) {
    if (omp_at[i] == k) {
      omp_raised++;
      raise(omp_sig[i]);
    }
  }
}
void GOMP_barrier(void) {
  static void (*real)(void);
  if (!real) {
    void* h = dlopen("libgomp.so.1", RTLD_NOLOAD | RTLD_LAZY);
    if (h) real = (void (*)(void))dlsym(h, "GOMP_barrier");
  }
  omp_tick();
  if (real) real();
}
void simio_omp(const long* at, const int* sig, int n) {
  omp_count = 0;
  omp_raised = 0;
  for (int i = 0; i < n && i < 8; i++) {
    omp_at[i] = at[i];
    omp_sig[i] = sig[i];
  }
  omp_n = n < 8 ? n : 8;
}
long simio_omp_count(void) { return omp_count; }
int simio_omp_raised(void) { return omp_raised; }
void simio_omp_pause(int p) { omp_paused = p; }
