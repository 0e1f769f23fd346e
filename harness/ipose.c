#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <dirent.h>
#include <stdarg.h>
#include <pthread.h>
#include <sched.h>
#include <time.h>
#include <sys/uio.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include "ipose.h"

// real functions
int     __real_open(const char*, int, ...);
int     __real_open64(const char*, int, ...);
int     __real_openat(int, const char*, int, ...);
int     __real_creat(const char*, mode_t);
int     __real_close(int);
ssize_t __real_read(int, void*, size_t);
ssize_t __real_pread(int, void*, size_t, off_t);
ssize_t __real_pread64(int, void*, size_t, off_t);
ssize_t __real_write(int, const void*, size_t);
ssize_t __real_pwrite(int, const void*, size_t, off_t);
ssize_t __real_pwrite64(int, const void*, size_t, off_t);
ssize_t __real_writev(int, const struct iovec*, int);
ssize_t __real_pwritev(int, const struct iovec*, int, off_t);
int     __real_fsync(int);
int     __real_fdatasync(int);
int     __real_sync_file_range(int, off_t, off_t, unsigned);
int     __real_ftruncate(int, off_t);
int     __real_ftruncate64(int, off_t);
int     __real_truncate(const char*, off_t);
int     __real_rename(const char*, const char*);
int     __real_unlink(const char*);
int     __real_remove(const char*);
int     __real_mkdir(const char*, mode_t);
int     __real_rmdir(const char*);
DIR*    __real_opendir(const char*);
void*   __real_mmap(void*, size_t, int, int, int, off_t);
int     __real_pthread_mutex_lock(pthread_mutex_t*);
int     __real_pthread_mutex_unlock(pthread_mutex_t*);
int     __real_pthread_cond_wait(pthread_cond_t*, pthread_mutex_t*);
int     __real_pthread_cond_broadcast(pthread_cond_t*);
int     __real_pthread_cond_signal(pthread_cond_t*);
int     __real_pthread_rwlock_rdlock(pthread_rwlock_t*);
int     __real_pthread_rwlock_wrlock(pthread_rwlock_t*);
int     __real_pthread_rwlock_unlock(pthread_rwlock_t*);
int     __real_pthread_spin_lock(pthread_spinlock_t*);
int     __real_pthread_spin_unlock(pthread_spinlock_t*);

#define FDMAX 4096
static char* ip_path[FDMAX];     // fd -> tracked path
static char  ip_rootdir[4096];
static int   ip_rootlen;
static char  ip_shadowdir[4096];
static long  ip_counts[16];
static long  ip_total;

static struct { long nth, seen; int variant, mask; char sub[256]; bool on; } crash_;
static struct { long nth, seen, fired; int err, mask; bool sticky, shortw, on, hit; int short_fd; char sub[256]; } fail_;
static struct { int mask, ms; char sub[256]; bool on; } stall_;
// one call which does not return until it is released
static struct { int mask; long nth, seen; char sub[256]; bool on; volatile int state; int kind; char path[4096]; } hold_;   // state: 0 none, 1 held, 2 released
static int   trace_on;
static __thread long long at_off = -1;      // position of the read or write under way
static char* trace_buf; static size_t trace_len, trace_cap;
static volatile int ip_lk;
// the race detector cannot see this lock, so library calls made under it are not to be reported
void AnnotateIgnoreReadsBegin(const char*, int) __attribute__((weak));
void AnnotateIgnoreReadsEnd(const char*, int) __attribute__((weak));
void AnnotateIgnoreWritesBegin(const char*, int) __attribute__((weak));
void AnnotateIgnoreWritesEnd(const char*, int) __attribute__((weak));
static void lk(void)
{
	while (__atomic_exchange_n(&ip_lk, 1, __ATOMIC_ACQUIRE)) sched_yield();
	if (AnnotateIgnoreReadsBegin) { AnnotateIgnoreReadsBegin(__FILE__, 1); AnnotateIgnoreWritesBegin(__FILE__, 1); }
}
static void unlk(void)
{
	if (AnnotateIgnoreReadsBegin) { AnnotateIgnoreWritesEnd(__FILE__, 1); AnnotateIgnoreReadsEnd(__FILE__, 1); }
	__atomic_store_n(&ip_lk, 0, __ATOMIC_RELEASE);
}
// paths are kept forever: a path read from the table never goes away under its reader
struct interned { struct interned* next; char s[]; };
static struct interned* interned_[1024];
static char* intern(const char* s)   // under lk(), of memory which is not the heap's (it is measured)
{
	unsigned h = 5381; size_t n = 0; for (; s[n]; n++) h = h * 33 + (unsigned char)s[n];
	struct interned** b = &interned_[h % 1024];
	for (struct interned* i = *b; i; i = i->next) if (!strcmp(i->s, s)) return i->s;
	static char* mem; static size_t left; size_t need = (sizeof(struct interned) + n + 16) & ~(size_t)15;
	if (left < need) { left = 1 << 20; mem = (char*)syscall(SYS_mmap, NULL, left, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); }
	struct interned* i = (struct interned*)mem; mem += need; left -= need; memcpy(i->s, s, n + 1); i->next = *b; *b = i;
	return i->s;
}
static bool ip_active;   // any file feature enabled

static int delay_pm, delay_us; static uint64_t delay_seed; static long delay_n, sched_n;
static __thread uint64_t delay_rng; static int delay_tid;

static inline void sched_point(void)
{
	if (!delay_pm) return;
	if (!delay_rng)
		delay_rng = delay_seed * 0x9E3779B97F4A7C15ull +
			(uint64_t)__atomic_add_fetch(&delay_tid, 1, __ATOMIC_RELAXED) * 0xD1B54A32D192ED03ull + 1;
	uint64_t x = delay_rng; x ^= x << 13; x ^= x >> 7; x ^= x << 17; delay_rng = x;
	if ((int)(x % 1000) >= delay_pm) return;
	__atomic_add_fetch(&delay_n, 1, __ATOMIC_RELAXED);
	int us = (x >> 20) % (delay_us + 1);
	if (us < 3) { sched_yield(); return; }
	struct timespec ts = { us / 1000000, (us % 1000000) * 1000L };
	nanosleep(&ts, NULL);
}

void ip_delay(int pm, int us, uint64_t seed) { delay_seed = seed | 1; delay_us = us; delay_pm = pm; }
long ip_delays(void) { return delay_n; }
long ip_sched_points(void) { return sched_n; }

void ip_root(const char* d)
{
	lk();
	snprintf(ip_rootdir, sizeof ip_rootdir, "%s", d); ip_rootlen = strlen(ip_rootdir); ip_active = true;
	unlk();
}
void ip_off(void) { lk(); crash_.on = fail_.on = stall_.on = false; fail_.short_fd = -1; unlk(); }
void ip_count_reset(void) { lk(); memset(ip_counts, 0, sizeof ip_counts); ip_total = 0; unlk(); }
long ip_count(int mask)
{ long n = 0; lk(); for (int i = 0; i < 16; i++) if (mask & (1 << i)) n += ip_counts[i]; unlk(); return n; }
long ip_calls(void) { return ip_total; }
void ip_crash(long nth, int variant, int mask, const char* sub)
{ lk(); crash_.nth = nth; crash_.seen = 0; crash_.variant = variant; crash_.mask = mask;
  snprintf(crash_.sub, sizeof crash_.sub, "%s", sub ? sub : ""); crash_.on = true; unlk(); }
void ip_fail(long nth, int err, int mask, bool sticky, bool shortw, const char* sub)
{ lk(); fail_.nth = nth; fail_.seen = 0; fail_.fired = 0; fail_.err = err; fail_.mask = mask; fail_.sticky = sticky;
  fail_.shortw = shortw; fail_.short_fd = -1; fail_.hit = false;
  snprintf(fail_.sub, sizeof fail_.sub, "%s", sub ? sub : ""); fail_.on = true; unlk(); }
long ip_fail_fired(void) { return fail_.fired; }
void ip_shadow(const char* d) { lk(); snprintf(ip_shadowdir, sizeof ip_shadowdir, "%s", d); unlk(); }
void ip_trace(int on) { lk(); trace_on = on; trace_len = 0; unlk(); }
// every call with its time, appended to a file
static int tracefd = -1;
void ip_tracefile(const char* p) { tracefd = __real_open(p, O_CREAT|O_WRONLY|O_APPEND|O_CLOEXEC, 0600); }
char* ip_trace_dump(void)
{ lk(); char* r = malloc(trace_len + 1); memcpy(r, trace_buf ? trace_buf : "", trace_len); r[trace_len] = 0; unlk(); return r; }
void ip_hold(const char* sub, int mask, long nth)
{ lk(); snprintf(hold_.sub, sizeof hold_.sub, "%s", sub); hold_.mask = mask; hold_.nth = nth; hold_.seen = 0; hold_.state = 0; hold_.on = nth > 0; unlk(); }
bool ip_held(int* kind, const char** path)
{ if (__atomic_load_n(&hold_.state, __ATOMIC_ACQUIRE) == 0) return false; *kind = hold_.kind; *path = hold_.path; return true; }
void ip_disarm(void) { lk(); hold_.on = false; unlk(); }
void ip_release(void) { lk(); hold_.on = false; if (hold_.state == 1) __atomic_store_n(&hold_.state, 2, __ATOMIC_RELEASE); unlk(); }
void ip_stall(const char* sub, int mask, int ms)
{ lk(); snprintf(stall_.sub, sizeof stall_.sub, "%s", sub); stall_.mask = mask; stall_.ms = ms; stall_.on = ms > 0; unlk(); }

static bool tracked(const char* p)
{
	if (!ip_active || !p || strncmp(p, ip_rootdir, ip_rootlen)) return false;
	size_t n = strlen(p);
	if (n > 4 && !strcmp(p + n - 4, "/log")) return false;
	return true;
}
static const char* fdp(int fd) { return fd >= 0 && fd < FDMAX ? ip_path[fd] : NULL; }

static void die(void) { fflush(stdout); syscall(SYS_exit_group, 77); }

enum { ACT_GO, ACT_DIE, ACT_PART, ACT_FAIL, ACT_SHORT };

static int decide(int kind, const char* path, size_t size, int fd)
{
	int act = ACT_GO; int stall = 0; bool hold = false;
	lk();
	ip_counts[__builtin_ctz(kind)]++; ip_total++;
	if (trace_on) {
		if (trace_len + 4600 > trace_cap) { trace_cap = trace_cap * 2 + 65536; trace_buf = realloc(trace_buf, trace_cap); }
		if (trace_on == 2) trace_len += sprintf(trace_buf + trace_len, "%d %zu %lld %s\n", __builtin_ctz(kind), size, at_off, path);
		else trace_len += sprintf(trace_buf + trace_len, "%d %zu %s\n", __builtin_ctz(kind), size, path);
	}
	if (crash_.on && (kind & crash_.mask) && (!crash_.sub[0] || strstr(path, crash_.sub))) {
		if (++crash_.seen == crash_.nth) {
			crash_.on = false;
			act = crash_.variant && kind == IP_WRITE && size > 1 ? ACT_PART : ACT_DIE;
		}
	}
	if (act == ACT_GO && fail_.on && fail_.shortw && fail_.hit && kind == IP_WRITE && fd == fail_.short_fd) {
		fail_.fired++; fail_.short_fd = -1; if (!fail_.sticky) fail_.on = false; act = ACT_FAIL;
	} else
	if (act == ACT_GO && fail_.on && (kind & fail_.mask) && (!fail_.sub[0] || strstr(path, fail_.sub))) {
		++fail_.seen;
		if (fail_.seen == fail_.nth || (fail_.sticky && fail_.hit)) {
			bool first = !fail_.hit;
			fail_.hit = true; fail_.fired++;
			if (fail_.shortw && first && kind == IP_WRITE && size > 1) { act = ACT_SHORT; fail_.short_fd = fd; }
			else { act = ACT_FAIL; if (!fail_.sticky) fail_.on = false; }
		}
	}
	if (stall_.on && (kind & stall_.mask) && (!stall_.sub[0] || strstr(path, stall_.sub))) stall = stall_.ms;
	if (hold_.on && (kind & hold_.mask) && strstr(path, hold_.sub) && ++hold_.seen == hold_.nth) {
		hold = true; hold_.on = false; hold_.kind = __builtin_ctz(kind); snprintf(hold_.path, sizeof hold_.path, "%s", path);
		__atomic_store_n(&hold_.state, 1, __ATOMIC_RELEASE);
	}
	unlk();
	while (hold && __atomic_load_n(&hold_.state, __ATOMIC_ACQUIRE) == 1) { struct timespec ts = { 0, 200000 }; nanosleep(&ts, NULL); }
	if (stall) { struct timespec ts = { stall / 1000, (stall % 1000) * 1000000L }; nanosleep(&ts, NULL); }
	if (tracefd >= 0) {
		struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); char b[4700];
		int n = snprintf(b, sizeof b, "%lld %d %s\n", (long long)t.tv_sec * 1000000000ll + t.tv_nsec, __builtin_ctz(kind), path);
		if (__real_write(tracefd, b, n)) {}
	}
	if (act == ACT_DIE) die();
	return act;
}

// transfers which stop early or are interrupted: 0 the whole, 1..n-1 a part, n+1 EINTR
static int part_pm; static uint64_t part_rng; static long part_n;
void ip_partial(int pm, uint64_t seed) { part_pm = pm; part_rng = seed * 0x9E3779B97F4A7C15ull + 1; }
long ip_partials(void) { return part_n; }
static size_t partial(const char* path, size_t size)
{
	if (!part_pm || !path || size < 1) return 0;
	lk();
	uint64_t x = part_rng; x ^= x << 13; x ^= x >> 7; x ^= x << 17; part_rng = x;
	size_t r = 0;
	if ((int)(x % 1000) < part_pm) {
		part_n++;
		x >>= 20;
		switch (x % 5) {
		case 0: r = size + 1; break;
		case 1: r = 1; break;
		case 2: r = size - 1; break;
		case 3: r = size < 64 ? size / 2 : 1 + (x >> 8) % 64; break;
		default: r = (x >> 8) % size; break;
		}
		if (r == size) r = 0;
	}
	unlk();
	return r;
}
#define PARTIAL(n) if (act_ == ACT_GO) { size_t q_ = partial(path_, n); if (q_ > n) { errno = EINTR; return -1; } if (q_) n = q_; }

static size_t part_of(size_t size)
{
	size_t n;
	switch (crash_.variant) {
	case 1: n = size / 2; break;
	case 2: n = size - 1; break;
	case 3: n = 1; break;
	default: n = size < 20 ? size / 2 : 20; break;
	}
	return n;
}

static void track(int fd, const char* path)
{
	if (fd < 0 || fd >= FDMAX) return;
	lk();
	ip_path[fd] = path && tracked(path) ? intern(path) : NULL;
	unlk();
}

static int do_open(const char* path, int flags, int mode)
{
	sched_point();
	if (tracked(path)) {
		struct stat st;
		int kind = IP_OPENR;
		if ((flags & O_TRUNC) || ((flags & O_CREAT) && stat(path, &st) == -1)) kind = IP_OPENW;
		if (decide(kind, path, 0, -1) == ACT_FAIL) { errno = fail_.err; return -1; }
	}
	int fd = __real_open(path, flags, mode);
	if (fd >= 0) track(fd, path);
	return fd;
}
int __wrap_open(const char* path, int flags, ...)
{ va_list a; va_start(a, flags); int mode = va_arg(a, int); va_end(a); return do_open(path, flags, mode); }
int __wrap_open64(const char* path, int flags, ...)
{ va_list a; va_start(a, flags); int mode = va_arg(a, int); va_end(a); return do_open(path, flags, mode); }
int __wrap_openat(int dfd, const char* path, int flags, ...)
{ va_list a; va_start(a, flags); int mode = va_arg(a, int); va_end(a);
  if (dfd == AT_FDCWD || path[0] == '/') return do_open(path, flags, mode);
  return __real_openat(dfd, path, flags, mode); }
int __wrap_creat(const char* path, mode_t mode) { return do_open(path, O_CREAT|O_WRONLY|O_TRUNC, mode); }
int __wrap_close(int fd)
{
	if (fdp(fd)) decide(IP_CLOSE, fdp(fd), 0, fd);
	track(fd, NULL);
	return __real_close(fd);
}
#define CHECK_FD(kind, size) \
	const char* path_ = fdp(fd); int act_ = ACT_GO; \
	if (path_) act_ = decide(kind, path_, size, fd); \
	at_off = -1; \
	if (act_ == ACT_FAIL) { errno = fail_.err; return -1; }

ssize_t __wrap_read(int fd, void* b, size_t n) { if (trace_on == 2 && fdp(fd)) at_off = lseek(fd, 0, SEEK_CUR); CHECK_FD(IP_READ, n) PARTIAL(n) return __real_read(fd, b, n); }
static ssize_t do_pread(int fd, void* b, size_t n, off_t o) { sched_point(); at_off = o; CHECK_FD(IP_READ, n) PARTIAL(n) return __real_pread(fd, b, n, o); }
ssize_t __wrap_pread(int fd, void* b, size_t n, off_t o) { return do_pread(fd, b, n, o); }
ssize_t __wrap_pread64(int fd, void* b, size_t n, off_t o) { return do_pread(fd, b, n, o); }
ssize_t __wrap_write(int fd, const void* b, size_t n)
{
	sched_point();
	CHECK_FD(IP_WRITE, n)
	if (act_ == ACT_PART) { __real_write(fd, b, part_of(n)); die(); }
	if (act_ == ACT_SHORT) return __real_write(fd, b, n / 2);
	PARTIAL(n)
	return __real_write(fd, b, n);
}
static ssize_t do_pwrite(int fd, const void* b, size_t n, off_t o)
{
	sched_point();
	CHECK_FD(IP_WRITE, n)
	if (act_ == ACT_PART) { __real_pwrite(fd, b, part_of(n), o); die(); }
	if (act_ == ACT_SHORT) return __real_pwrite(fd, b, n / 2, o);
	PARTIAL(n)
	return __real_pwrite(fd, b, n, o);
}
ssize_t __wrap_pwrite(int fd, const void* b, size_t n, off_t o) { return do_pwrite(fd, b, n, o); }
ssize_t __wrap_pwrite64(int fd, const void* b, size_t n, off_t o) { return do_pwrite(fd, b, n, o); }
static size_t iov_total(const struct iovec* v, int n) { size_t s = 0; for (int i = 0; i < n; i++) s += v[i].iov_len; return s; }
static char* iov_flat(const struct iovec* v, int n)
{ char* p = malloc(iov_total(v, n) + 1), *q = p; for (int i = 0; i < n; i++) { memcpy(q, v[i].iov_base, v[i].iov_len); q += v[i].iov_len; } return p; }
ssize_t __wrap_writev(int fd, const struct iovec* v, int n)
{
	sched_point();
	size_t s = iov_total(v, n);
	CHECK_FD(IP_WRITE, s)
	if (act_ == ACT_PART) { char* p = iov_flat(v, n); __real_write(fd, p, part_of(s)); die(); }
	if (act_ == ACT_SHORT) { char* p = iov_flat(v, n); ssize_t r = __real_write(fd, p, s / 2); free(p); return r; }
	size_t w = s; PARTIAL(w)
	if (w != s) { char* p = iov_flat(v, n); ssize_t r = __real_write(fd, p, w); free(p); return r; }
	return __real_writev(fd, v, n);
}
ssize_t __wrap_pwritev(int fd, const struct iovec* v, int n, off_t o)
{
	sched_point();
	size_t s = iov_total(v, n);
	CHECK_FD(IP_WRITE, s)
	if (act_ == ACT_PART) { char* p = iov_flat(v, n); __real_pwrite(fd, p, part_of(s), o); die(); }
	if (act_ == ACT_SHORT) { char* p = iov_flat(v, n); ssize_t r = __real_pwrite(fd, p, s / 2, o); free(p); return r; }
	size_t w = s; PARTIAL(w)
	if (w != s) { char* p = iov_flat(v, n); ssize_t r = __real_pwrite(fd, p, w, o); free(p); return r; }
	return __real_pwritev(fd, v, n, o);
}

// after a successful sync keep the synced image of the file
static void shadow(int fd)
{
	if (!ip_shadowdir[0]) return;
	struct stat st;
	if (fstat(fd, &st) == -1) return;
	char p[4200], t[4300];
	snprintf(p, sizeof p, "%s/%lu", ip_shadowdir, (unsigned long)st.st_ino);
	snprintf(t, sizeof t, "%s.tmp", p);
	lk();
	int out = __real_open(t, O_CREAT|O_TRUNC|O_WRONLY, 0600);
	char buf[65536]; off_t off = 0; ssize_t r;
	while (out >= 0 && (r = __real_pread(fd, buf, sizeof buf, off)) > 0) { if (__real_write(out, buf, r) != r) break; off += r; }
	if (out >= 0) __real_close(out);
	__real_rename(t, p);
	unlk();
}
int __wrap_fsync(int fd) { sched_point(); CHECK_FD(IP_SYNC, 0) int r = __real_fsync(fd); if (r == 0 && path_) shadow(fd); return r; }
// a real fdatasync is not needed to decide anything and is slow: it is skipped
int __wrap_fdatasync(int fd) { sched_point(); CHECK_FD(IP_SYNC, 0) if (path_) { shadow(fd); return 0; } return __real_fdatasync(fd); }
int __wrap_sync_file_range(int fd, off_t a, off_t b, unsigned f)
{ CHECK_FD(IP_SYNC, 0) if (path_) return 0; return __real_sync_file_range(fd, a, b, f); }
int __wrap_ftruncate(int fd, off_t n) { sched_point(); CHECK_FD(IP_TRUNC, n) return __real_ftruncate(fd, n); }
int __wrap_ftruncate64(int fd, off_t n) { sched_point(); CHECK_FD(IP_TRUNC, n) return __real_ftruncate(fd, n); }
#define CHECK_PATH(kind, p) \
	sched_point(); \
	if (tracked(p) && decide(kind, p, 0, -1) == ACT_FAIL) { errno = fail_.err; return -1; }
int __wrap_truncate(const char* p, off_t n) { CHECK_PATH(IP_TRUNC, p) return __real_truncate(p, n); }
static unsigned long ino_of(const char* p)
{ struct stat st; return lstat(p, &st) == 0 && S_ISREG(st.st_mode) ? (unsigned long)st.st_ino : 0; }
static void shadow_gone(unsigned long ino)
{ if (!ip_shadowdir[0] || !ino) return; char p[4200]; snprintf(p, sizeof p, "%s/%lu", ip_shadowdir, ino); __real_unlink(p); }
int __wrap_rename(const char* a, const char* b)
{
	CHECK_PATH(IP_RENAME, a)
	unsigned long ino = ip_shadowdir[0] ? ino_of(b) : 0;
	int r = __real_rename(a, b);
	if (r == 0) { // keep fd->path in step
		lk();
		for (int i = 0; i < FDMAX; i++)
			if (ip_path[i] && !strcmp(ip_path[i], a)) ip_path[i] = intern(b);
		unlk();
		shadow_gone(ino);
	}
	return r;
}
int __wrap_unlink(const char* p)
{
	CHECK_PATH(IP_UNLINK, p)
	unsigned long ino = ip_shadowdir[0] ? ino_of(p) : 0;
	int r = __real_unlink(p);
	if (r == 0) shadow_gone(ino);
	return r;
}
int __wrap_remove(const char* p) { CHECK_PATH(IP_UNLINK, p) return __real_remove(p); }
int __wrap_mkdir(const char* p, mode_t m) { CHECK_PATH(IP_MKDIR, p) return __real_mkdir(p, m); }
int __wrap_rmdir(const char* p) { CHECK_PATH(IP_RMDIR, p) return __real_rmdir(p); }
DIR* __wrap_opendir(const char* p)
{
	if (tracked(p) && decide(IP_OPENDIR, p, 0, -1) == ACT_FAIL) { errno = fail_.err; return NULL; }
	return __real_opendir(p);
}
void* __wrap_mmap(void* a, size_t n, int pr, int fl, int fd, off_t o)
{
	if (ip_active && decide(IP_MMAP, "mmap", n, -1) == ACT_FAIL) { errno = fail_.err; return MAP_FAILED; }
	return __real_mmap(a, n, pr, fl, fd, o);
}

// scheduling points
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { sched_point(); return __real_pthread_mutex_lock(m); }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { int r = __real_pthread_mutex_unlock(m); sched_point(); return r; }
int __wrap_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return __real_pthread_cond_wait(c, m); }
int __wrap_pthread_cond_broadcast(pthread_cond_t* c) { return __real_pthread_cond_broadcast(c); }
int __wrap_pthread_cond_signal(pthread_cond_t* c) { return __real_pthread_cond_signal(c); }
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* m) { sched_point(); return __real_pthread_rwlock_rdlock(m); }
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* m) { sched_point(); return __real_pthread_rwlock_wrlock(m); }
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* m) { int r = __real_pthread_rwlock_unlock(m); sched_point(); return r; }
int __wrap_pthread_spin_lock(pthread_spinlock_t* m) { return __real_pthread_spin_lock(m); }
int __wrap_pthread_spin_unlock(pthread_spinlock_t* m) { int r = __real_pthread_spin_unlock(m); sched_point(); return r; }

// wall clock under the control of the driver, every reading is one microsecond later
#include <time.h>
#include <stdatomic.h>
int __real_clock_gettime(clockid_t, struct timespec*);
static _Atomic long long fake_clock = -1;
void ip_clock(long long us) { fake_clock = us; }
int __wrap_clock_gettime(clockid_t id, struct timespec* t)
{
	if (id != CLOCK_REALTIME || fake_clock < 0) return __real_clock_gettime(id, t);
	long long n = atomic_fetch_add(&fake_clock, 1);
	t->tv_sec = n / 1000000; t->tv_nsec = n % 1000000 * 1000;
	return 0;
}
