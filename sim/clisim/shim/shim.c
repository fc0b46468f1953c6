/* The simulated operating system of one command: reads, writes, memory,
 * random bytes, clocks and environment as the plan in CHOMPSIM says.
 * Everything is recorded in the shared page at descriptor log=. */
#define _GNU_SOURCE
#include <errno.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

extern void *__libc_malloc(size_t);
extern void *__libc_calloc(size_t, size_t);
extern void *__libc_realloc(void *, size_t);
extern void *__libc_memalign(size_t, size_t);
extern void __libc_free(void *);

enum { TEXT = 0, MALLOCS, MALLOC_FAILS, RANDOMS, CLOCKS, READS, READ_SOFT, READ_HARD, READ_BYTES, READ_EOF, DELAYS,
       WRITES, WRITE_SOFT, WRITE_HARD, ERR_SOFT, ERR_HARD, TICKS, HEADER };
#define LOGSIZE 65536
static uint64_t nowhere[LOGSIZE / 8];
static uint64_t *head = nowhere;

static int on;
static long fail_at = -1, sticky;
static uint64_t pad_seed, rnd_seed, clk_base = 1600000000ull;
static long pad_max, fill = -1, pid_sim = 4242;
static long cap = -1, cap_errno = ENOSPC, rcap = -1, rcap_errno = EIO;

struct list { int n, p; long v[4096]; };  /* n>=0: at most n bytes; <0: -errno; >=1<<40: delay */
static struct list in_l, out_l, err_l;
static long in_max = -1, out_max = -1;
static struct stat st0, st1, st2;
static int have0, have1, have2;
static uint64_t out_total;

static uint64_t mix(uint64_t *x) {
    uint64_t z = (*x += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}

static void note(const char *s, size_t n) {
    char *t = (char *)(head + HEADER);
    size_t room = LOGSIZE - HEADER * 8 - 1;
    if (head[TEXT] + n + 1 > room) return;
    memcpy(t + head[TEXT], s, n);
    t[head[TEXT] + n] = '\n';
    head[TEXT] += n + 1;
}

static const char *list(struct list *l, const char *s) {
    while (*s && *s != ';') {
        char *e;
        if (*s == 'e') {
            l->v[l->n++] = -strtol(s + 1, &e, 10);
        } else if (*s == 'd') {
            l->v[l->n++] = (1l << 40) + strtol(s + 1, &e, 10);
        } else {
            l->v[l->n++] = strtol(s, &e, 10);
        }
        s = e;
        if (*s == ',') s++;
        if (l->n >= 4096) break;
    }
    return s;
}

__attribute__((constructor)) static void start(void) {
    const char *s = NULL;
    extern char **environ;
    for (char **e = environ; e && *e; e++)
        if (!strncmp(*e, "CHOMPSIM=", 9)) s = *e + 9;
    if (!s) return;
    have0 = !fstat(0, &st0);
    have1 = !fstat(1, &st1);
    have2 = !fstat(2, &st2);
    while (*s) {
        const char *v = strchr(s, '=') + 1;
        char *e = (char *)v;
        size_t k = v - s - 1;
#define KEY(name) (k == sizeof name - 1 && !memcmp(s, name, k))
        if (KEY("in")) e = (char *)list(&in_l, v);
        else if (KEY("out")) e = (char *)list(&out_l, v);
        else if (KEY("err")) e = (char *)list(&err_l, v);
        else if (KEY("inmax")) in_max = strtol(v, &e, 10);
        else if (KEY("outmax")) out_max = strtol(v, &e, 10);
        else if (KEY("cap")) cap = strtol(v, &e, 10);
        else if (KEY("caperr")) cap_errno = strtol(v, &e, 10);
        else if (KEY("rcap")) rcap = strtol(v, &e, 10);
        else if (KEY("rcaperr")) rcap_errno = strtol(v, &e, 10);
        else if (KEY("rnd")) rnd_seed = strtoul(v, &e, 10);
        else if (KEY("fail")) fail_at = strtol(v, &e, 10);
        else if (KEY("sticky")) sticky = strtol(v, &e, 10);
        else if (KEY("pad")) pad_max = strtol(v, &e, 10);
        else if (KEY("padseed")) pad_seed = strtoul(v, &e, 10);
        else if (KEY("fill")) fill = strtol(v, &e, 10);
        else if (KEY("clk")) clk_base = strtoul(v, &e, 10);
        else if (KEY("pid")) pid_sim = strtol(v, &e, 10);
        else if (KEY("log")) {
            int fd = strtol(v, &e, 10);
            void *m = mmap(NULL, LOGSIZE, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
            if (m != MAP_FAILED) head = m;
            close(fd);
        } else e = (char *)v + strcspn(v, ";");
        s = e;
        if (*s == ';') s++;
    }
    head[0] = 0;
    on = 1;
}

/* ---- streams ---- */

static int same(int fd, int have, struct stat *st) {
    struct stat s;
    return have && !syscall(SYS_fstat, fd, &s) && s.st_dev == st->st_dev && s.st_ino == st->st_ino;
}
static int is_in(int fd) { return fd == 0 || (fd > 2 && same(fd, have0, &st0)); }
static int is_out(int fd) { return fd == 1 || (fd > 2 && same(fd, have1, &st1)); }
static int is_err(int fd) { return fd == 2 || (fd > 2 && same(fd, have2, &st2)); }

/* Decide a read of n bytes: >=0 bytes allowed, or -errno. */
static long plan_in(size_t n) {
    head[READS]++;
    if (rcap >= 0 && n > 0) {
        if (head[READ_BYTES] >= (uint64_t)rcap) { head[READ_HARD]++; return -rcap_errno; }
        if (head[READ_BYTES] + n > (uint64_t)rcap) n = rcap - head[READ_BYTES];
    }
    for (;;) {
        if (in_l.p >= in_l.n) return in_max > 0 && (size_t)in_max < n ? in_max : (long)n;
        long a = in_l.v[in_l.p++];
        if (a >= 1l << 40) {
            head[DELAYS]++;
            head[TICKS] += a - (1l << 40);
            continue;
        }
        if (a < 0) {
            if (a == -EINTR) head[READ_SOFT]++; else head[READ_HARD]++;
            return a;
        }
        if (n == 0) return 0;
        if (a == 0) a = 1;
        if ((size_t)a < n) return a;
        return n;
    }
}

static ssize_t do_read(int fd, void *buf, size_t n) {
    if (!on || !is_in(fd)) return syscall(SYS_read, fd, buf, n);
    long a = plan_in(n);
    if (a < 0) { errno = -a; return -1; }
    ssize_t r = syscall(SYS_read, fd, buf, (size_t)a);
    if (r == 0 && a > 0) head[READ_EOF]++;
    if (r > 0) {
        head[READ_BYTES] += r;
        if ((size_t)r < n) head[READ_SOFT]++;
    }
    return r;
}
ssize_t read(int fd, void *buf, size_t n) { return do_read(fd, buf, n); }
ssize_t __read_chk(int fd, void *buf, size_t n, size_t m) { (void)m; return do_read(fd, buf, n); }
ssize_t readv(int fd, const struct iovec *v, int c) {
    if (!on || !is_in(fd)) return syscall(SYS_readv, fd, v, c);
    for (int i = 0; i < c; i++)
        if (v[i].iov_len) return do_read(fd, v[i].iov_base, v[i].iov_len);
    return 0;
}
ssize_t pread64(int fd, void *buf, size_t n, off_t o) {
    if (!on || !is_in(fd)) return syscall(SYS_pread64, fd, buf, n, o);
    long a = plan_in(n);
    if (a < 0) { errno = -a; return -1; }
    return syscall(SYS_pread64, fd, buf, (size_t)a, o);
}

static long plan_out(size_t n, int err) {
    struct list *l = err ? &err_l : &out_l;
    head[err ? 0 : WRITES] += err ? 0 : 1;
    int soft = err ? ERR_SOFT : WRITE_SOFT, hard = err ? ERR_HARD : WRITE_HARD;
    if (!err && cap >= 0 && n > 0) {
        if (out_total >= (uint64_t)cap) { head[hard]++; return -cap_errno; }
        if (out_total + n > (uint64_t)cap) { head[soft]++; return cap - out_total; }
    }
    if (l->p < l->n) {
        long a = l->v[l->p++];
        if (a < 0) {
            if (a == -EINTR) head[soft]++; else head[hard]++;
            return a;
        }
        if (a == 0 && n > 0) { head[hard]++; return 0; }
        if ((size_t)a < n) { head[soft]++; return a; }
        return n;
    }
    if (!err && out_max > 0 && (size_t)out_max < n) { head[soft]++; return out_max; }
    return n;
}
static ssize_t do_write(int fd, const void *buf, size_t n) {
    int err = is_err(fd);
    if (!on || (!err && !is_out(fd))) return syscall(SYS_write, fd, buf, n);
    long a = plan_out(n, err);
    if (a < 0) { errno = -a; return -1; }
    if (a == 0) return 0;
    ssize_t r = syscall(SYS_write, fd, buf, (size_t)a);
    if (r > 0 && !err) out_total += r;
    return r;
}
ssize_t write(int fd, const void *buf, size_t n) { return do_write(fd, buf, n); }
ssize_t writev(int fd, const struct iovec *v, int c) {
    if (!on || !(is_out(fd) || is_err(fd))) return syscall(SYS_writev, fd, v, c);
    size_t total = 0;
    for (int i = 0; i < c; i++) total += v[i].iov_len;
    int err = is_err(fd);
    long a = plan_out(total, err);
    if (a < 0) { errno = -a; return -1; }
    ssize_t done = 0;
    for (int i = 0; i < c && done < a; i++) {
        size_t k = v[i].iov_len;
        if (k > (size_t)(a - done)) k = a - done;
        if (!k) continue;
        ssize_t r = syscall(SYS_write, fd, v[i].iov_base, k);
        if (r < 0) return done ? done : r;
        done += r;
        if (!err) out_total += r;
        if ((size_t)r < k) break;
    }
    return done;
}
ssize_t pwrite64(int fd, const void *buf, size_t n, off_t o) {
    if (!on || !is_out(fd)) return syscall(SYS_pwrite64, fd, buf, n, o);
    return do_write(fd, buf, n);
}

/* ---- randomness, clocks, environment ---- */

ssize_t getrandom(void *buf, size_t n, unsigned flags) {
    if (!on) return syscall(SYS_getrandom, buf, n, flags);
    head[RANDOMS]++;
    unsigned char *b = buf;
    for (size_t i = 0; i < n; i++) b[i] = mix(&rnd_seed) >> 13;
    return n;
}
int getentropy(void *buf, size_t n) { return getrandom(buf, n, 0) < 0 ? -1 : 0; }

static uint64_t tick_clock(void) {
    head[CLOCKS]++;
    return clk_base * 1000000000ull + (head[TICKS] += 1000);
}
int clock_gettime(clockid_t c, struct timespec *t) {
    if (!on) return syscall(SYS_clock_gettime, c, t);
    uint64_t x = tick_clock();
    t->tv_sec = x / 1000000000ull;
    t->tv_nsec = x % 1000000000ull;
    return 0;
}
int gettimeofday(struct timeval *t, void *z) {
    (void)z;
    uint64_t x = tick_clock();
    t->tv_sec = x / 1000000000ull;
    t->tv_usec = x % 1000000000ull / 1000;
    return 0;
}
time_t time(time_t *t) {
    time_t x = tick_clock() / 1000000000ull;
    if (t) *t = x;
    return x;
}
int nanosleep(const struct timespec *a, struct timespec *b) {
    (void)b;
    head[TICKS] += a->tv_sec * 1000000000ull + a->tv_nsec;
    return 0;
}
int clock_nanosleep(clockid_t c, int f, const struct timespec *a, struct timespec *b) {
    (void)c; (void)f;
    return nanosleep(a, b);
}
pid_t getpid(void) { return on ? pid_sim : syscall(SYS_getpid); }

char *getenv(const char *k) {
    extern char **environ;
    size_t n = strlen(k);
    if (on && strncmp(k, "LD_", 3) && strncmp(k, "CHOMPSIM", 8)) {
        char b[128];
        if (n < 120) {
            memcpy(b, "env ", 4);
            memcpy(b + 4, k, n);
            note(b, n + 4);
        }
    }
    for (char **e = environ; e && *e; e++)
        if (!strncmp(*e, k, n) && (*e)[n] == '=') return *e + n + 1;
    return NULL;
}

/* ---- memory ---- */

static int refuse(void) {
    long k = head[MALLOCS]++;
    if (fail_at >= 0 && (k == fail_at || (sticky && k > fail_at))) {
        head[MALLOC_FAILS]++;
        errno = ENOMEM;
        return 1;
    }
    return 0;
}
static size_t more(size_t n) {
    if (pad_max <= 0 || n > 1ul << 40) return n;
    return n + mix(&pad_seed) % pad_max;
}
void *malloc(size_t n) {
    if (!on) return __libc_malloc(n);
    if (refuse()) return NULL;
    size_t m = more(n);
    void *p = __libc_malloc(m);
    if (p && fill >= 0) memset(p, (int)fill, m);
    return p;
}
void *calloc(size_t a, size_t b) {
    if (!on) return __libc_calloc(a, b);
    if (refuse()) return NULL;
    size_t n;
    if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return NULL; }
    return __libc_calloc(more(n), 1);
}
void *realloc(void *p, size_t n) {
    if (!on) return __libc_realloc(p, n);
    if (refuse()) return NULL;
    return __libc_realloc(p, more(n));
}
int posix_memalign(void **r, size_t a, size_t n) {
    if (on && refuse()) return ENOMEM;
    *r = __libc_memalign(a, on ? more(n) : n);
    return *r ? 0 : ENOMEM;
}
void *aligned_alloc(size_t a, size_t n) {
    if (on && refuse()) return NULL;
    return __libc_memalign(a, on ? more(n) : n);
}
void *memalign(size_t a, size_t n) { return aligned_alloc(a, n); }
void free(void *p) { __libc_free(p); }
