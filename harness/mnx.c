// mnx: executes database operations read from stdin against the real library and reports results.
// Every reply is "ok|err <len>\n<len bytes>\n".
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <pthread.h>
#include <signal.h>
#include <time.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <malloc.h>
#include "monotone.h"
#include "ipose.h"

#define NENV 8
#define NCUR 64
static monotone_t* envs[NENV];
static __thread int cur_env; static int par_env;
static monotone_cursor_t* cursors[NCUR];
#define env envs[cur_env]

// ---- output buffer
typedef struct { char* p; size_t n, cap; } Out;
static void out_add(Out* o, const void* d, size_t n)
{ if (o->n + n + 1 > o->cap) { o->cap = (o->cap + n) * 2 + 256; o->p = realloc(o->p, o->cap); } memcpy(o->p + o->n, d, n); o->n += n; o->p[o->n] = 0; }
static void outf(Out* o, const char* f, ...)
{ char b[2048]; va_list a; va_start(a, f); int n = vsnprintf(b, sizeof b, f, a); va_end(a); if (n >= (int)sizeof b) n = sizeof b - 1; out_add(o, b, n); }
static void out_hex(Out* o, const uint8_t* d, size_t n)
{ static const char h[] = "0123456789abcdef"; for (size_t i = 0; i < n; i++) { char c[2] = { h[d[i] >> 4], h[d[i] & 15] }; out_add(o, c, 2); } }
static FILE* rep; // replies; standard output is left to the library's log
static void reply(bool ok, const char* d, size_t n)
{ fprintf(rep, "%s %zu\n", ok ? "ok" : "err", n); fwrite(d, 1, n, rep); fputc('\n', rep); fflush(rep); }
static const char* errtext(void) { const char* e = monotone_error(env); return e && *e ? e : "(no error text)"; }

// ---- values: "-" empty, "h<hex>", "g<seed>:<len>:<kind>" (len > 64)
static int hexv(int c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
static uint8_t* parse_hex(const char* s, size_t* n)
{ size_t l = strlen(s) / 2; uint8_t* d = malloc(l + 1); for (size_t i = 0; i < l; i++) d[i] = hexv(s[2*i]) << 4 | hexv(s[2*i+1]); *n = l; return d; }
static void gen(uint8_t* d, size_t n, uint32_t seed, int kind)
{
	uint64_t x = seed * 0x9E3779B97F4A7C15ull + 0x1234567; uint32_t l = n;
	for (size_t i = 0; i < n; i += 8) {
		x ^= x << 13; x ^= x >> 7; x ^= x << 17;
		uint64_t v = x;
		if (kind == 1) v = (i / 64) & 1 ? 0x6161616161616161ull + (seed & 15) : 0;
		if (kind == 2) v = x & 0x0303030303030303ull;
		size_t m = n - i < 8 ? n - i : 8; memcpy(d + i, &v, m);
	}
	uint8_t h[16] = { 'G','n','V', (uint8_t)kind }; memcpy(h + 4, &seed, 4); memcpy(h + 8, &l, 4);
	memset(h + 12, 0, 4); memcpy(d, h, 16);
}
static uint8_t* parse_value(const char* s, size_t* n)
{
	if (*s == '-') { *n = 0; return NULL; }
	if (*s == 'h') return parse_hex(s + 1, n);
	unsigned seed, len; int kind = 0;
	if (sscanf(s, "g%u:%u:%d", &seed, &len, &kind) != 3 || len < 17) { fprintf(stderr, "bad value %s\n", s); exit(3); }
	uint8_t* d = malloc(len); gen(d, len, seed, kind); *n = len; return d;
}
static void out_value(Out* o, const uint8_t* d, size_t n)
{
	if (n == 0) { outf(o, "-"); return; }
	if (n <= 64) { outf(o, "h"); out_hex(o, d, n); return; }
	uint32_t seed, l; memcpy(&seed, d + 4, 4); memcpy(&l, d + 8, 4);
	if (!memcmp(d, "GnV", 3) && l == n && d[3] < 3) {
		uint8_t* e = malloc(n); gen(e, n, seed, d[3]);
		bool same = !memcmp(e, d, n); free(e);
		if (same) { outf(o, "g%u:%zu:%d", seed, n, d[3]); return; }
	}
	outf(o, "BAD:%zu:", n); out_hex(o, d, 40);
}

static char* next_tok(char** s) { char* t; while ((t = strsep(s, " ")) && !*t); return t; }

static int parse_events(char** rest, monotone_event_t** evp)
{
	int n = atoi(next_tok(rest));
	monotone_event_t* ev = calloc(n + 1, sizeof *ev);
	for (int i = 0; i < n; i++) {
		char* fl = next_tok(rest); char* id = next_tok(rest); char* k = next_tok(rest); char* v = next_tok(rest);
		if (!v) { fprintf(stderr, "bad write\n"); exit(3); }
		ev[i].flags = atoi(fl); ev[i].id = strtoull(id, NULL, 10);
		if (*k != '-') ev[i].key = parse_hex(k, &ev[i].key_size);
		ev[i].value = parse_value(v, &ev[i].value_size);
	}
	*evp = ev; return n;
}
static void free_events(monotone_event_t* ev, int n)
{ for (int i = 0; i < n; i++) { free(ev[i].key); free(ev[i].value); } free(ev); }
static void out_event(Out* o, monotone_event_t* e)
{
	outf(o, "%llu ", (unsigned long long)e->id);
	if (e->key_size) out_hex(o, e->key, e->key_size); else outf(o, "-");
	outf(o, " "); out_value(o, e->value, e->value_size);
	if (e->flags) outf(o, " F%d", e->flags);
	outf(o, "\n");
}
// returns 1 at end, -1 on error, 0 when limit reached
static int walk(monotone_cursor_t* c, long limit, Out* o, bool first)
{
	monotone_event_t e; (void)first;
	for (long i = 0; limit < 0 || i < limit; i++) {
		int rc = monotone_read(c, &e);
		if (rc == -1) return -1;
		if (rc == 0) return 1;
		out_event(o, &e);
		rc = monotone_next(c);
		if (rc == -1) return -1;
		if (rc == 0) return 1;
	}
	return 0;
}
static monotone_cursor_t* open_cursor(char** rest)
{
	char* id = next_tok(rest); char* k = next_tok(rest);
	if (!id || *id == '*') return monotone_cursor(env, NULL, NULL);
	monotone_event_t e; memset(&e, 0, sizeof e);
	e.id = strtoull(id, NULL, 10);
	if (k && *k != '-') e.key = parse_hex(k, &e.key_size);
	monotone_cursor_t* c = monotone_cursor(env, NULL, &e);
	free(e.key);
	return c;
}

static int hold_over;
// one database command; used by the main loop and by threads
static bool run_cmd(char* cmd, char* rest, Out* o, monotone_cursor_t** cs)
{
	if (!strcmp(cmd, "w")) {
		monotone_event_t* ev; int n = parse_events(&rest, &ev);
		int rc = monotone_write(env, ev, n);
		if (rc == 0) for (int i = 0; i < n; i++) outf(o, "%llu ", (unsigned long long)ev[i].id);
		else outf(o, "%s", errtext());
		free_events(ev, n);
		return rc == 0;
	}
	if (!strcmp(cmd, "scan")) { // scan <limit> [id key]
		char* l = next_tok(&rest); long limit = l ? atol(l) : -1;
		monotone_cursor_t* c = open_cursor(&rest);
		if (!c) { outf(o, "%s", errtext()); return false; }
		int rc = walk(c, limit, o, true);
		if (rc == -1) { o->n = 0; outf(o, "%s", errtext()); }
		monotone_free(c);
		return rc != -1;
	}
	if (!strcmp(cmd, "co")) { // co <slot> [id key]
		int s = atoi(next_tok(&rest));
		if (cs[s]) monotone_free(cs[s]);
		cs[s] = open_cursor(&rest);
		if (!cs[s]) outf(o, "%s", errtext());
		return cs[s] != NULL;
	}
	if (!strcmp(cmd, "cr")) { // cr <slot>: read
		int s = atoi(next_tok(&rest)); monotone_event_t e;
		if (!cs[s]) { outf(o, "closed"); return false; }
		int rc = monotone_read(cs[s], &e);
		if (rc == 1) out_event(o, &e); else if (rc == 0) outf(o, "end"); else outf(o, "%s", errtext());
		return rc >= 0;
	}
	if (!strcmp(cmd, "cn")) { // cn <slot>: next
		int s = atoi(next_tok(&rest));
		if (!cs[s]) { outf(o, "closed"); return false; }
		int rc = monotone_next(cs[s]);
		if (rc == -1) outf(o, "%s", errtext()); else outf(o, "%d", rc);
		return rc >= 0;
	}
	if (!strcmp(cmd, "cw")) { // cw <slot> <n>: read+next n times
		int s = atoi(next_tok(&rest)); long n = atol(next_tok(&rest));
		if (!cs[s]) { outf(o, "closed"); return false; }
		int rc = walk(cs[s], n, o, false);
		if (rc == 1) outf(o, "end\n");
		if (rc == -1) { outf(o, "error %s", errtext()); return false; }
		return true;
	}
	if (!strcmp(cmd, "cc")) { int s = atoi(next_tok(&rest)); if (cs[s]) monotone_free(cs[s]); cs[s] = NULL; return true; }
	if (!strcmp(cmd, "sql") || !strcmp(cmd, "sqlx")) {
		char* res = NULL; char* text = rest ? rest : ""; size_t n; uint8_t* h = NULL;
		if (cmd[3]) { h = parse_hex(text, &n); h[n] = 0; text = (char*)h; }
		// exact-size copy so that a sanitizer sees over-reads of the command text
		char* copy = strdup(text);
		int rc = monotone_execute(env, copy, &res);
		free(copy); free(h);
		if (rc == 0) { if (res) out_add(o, res, strlen(res)); } else outf(o, "%s", errtext());
		free(res);
		return rc == 0;
	}
	if (!strcmp(cmd, "init")) { env = monotone_init(); return env != NULL; }
	if (!strcmp(cmd, "open")) { bool ok = monotone_open(env, rest) == 0; if (!ok) outf(o, "%s", errtext()); return ok; }
	if (!strcmp(cmd, "free")) { if (env) monotone_free(env); env = NULL; return true; }
	if (!strcmp(cmd, "env")) { cur_env = atoi(next_tok(&rest)); return true; }
	if (!strcmp(cmd, "holdwait")) { // holdwait <ms>: until a file call is held, or the thread which is to make it is over
		long ms = atol(next_tok(&rest)); int k; const char* p;
		for (long i = 0; i < ms * 4 && !ip_held(&k, &p) && !__atomic_load_n(&hold_over, __ATOMIC_RELAXED); i++) usleep(250);
		ip_disarm();
		if (ip_held(&k, &p)) outf(o, "%d %s", k, p);
		return true;
	}
	if (!strcmp(cmd, "holdover")) { __atomic_store_n(&hold_over, 1, __ATOMIC_RELAXED); return true; }
	if (!strcmp(cmd, "release")) { ip_release(); return true; }
	if (!strcmp(cmd, "sleep")) { usleep(atoi(next_tok(&rest))); return true; }
	outf(o, "unknown command %s", cmd);
	return false;
}

// ---- threads: file with lines "<thread> <cmd...>"; "<thread>" is a small integer.
// output file: "<thread> <index> <t0> <t1> <ok> <hex of reply>"
typedef struct { char** cmds; int n, cap, id; Out log; volatile long done; pthread_t th; volatile bool fin, loop; } Th;
static Th* par_th; static int par_n;
static pthread_barrier_t bar;
static int par_fd; static bool par_live;
static uint64_t now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000000000ull + t.tv_nsec; }
// loop <us> <cmd>: repeats the command until every thread without a loop is finished; replies are separated by 0x1e
static bool run_loop(Th* t, char* rest, Out* o, monotone_cursor_t** cs)
{
	int us = atoi(next_tok(&rest)); bool ok = true; __atomic_store_n(&t->loop, true, __ATOMIC_SEQ_CST);
	for (bool go = true; go; ) {
		go = false;
		for (int i = 0; i < par_n; i++) go |= !__atomic_load_n(&par_th[i].loop, __ATOMIC_SEQ_CST) && !__atomic_load_n(&par_th[i].fin, __ATOMIC_RELAXED);
		char* copy = strdup(rest); char* p = copy; Out r = { 0 };
		char* cmd = next_tok(&p);
		ok &= run_cmd(cmd, p, &r, cs);
		if (o->n < (4 << 20)) { out_add(o, r.p ? r.p : "", r.n); out_add(o, "\x1e", 1); }
		free(copy); free(r.p);
		if (us) usleep(us);
	}
	return ok;
}
static void* th_main(void* a)
{
	Th* t = a; monotone_cursor_t* cs[NCUR] = { 0 }; cur_env = par_env;
	pthread_barrier_wait(&bar);
	for (int i = 0; i < t->n; i++) {
		char* rest = t->cmds[i]; Out o = { 0 };
		char* copy = par_live ? strdup(rest) : NULL;
		if (par_live) { Out l = { 0 }; outf(&l, "%d %d start\n", t->id, i); if (write(par_fd, l.p, l.n) < 0) abort(); free(l.p); }
		char* cmd = next_tok(&rest);
		uint64_t t0 = now();
		bool ok = !strcmp(cmd, "loop") ? run_loop(t, rest, &o, cs) : run_cmd(cmd, rest, &o, cs);
		uint64_t t1 = now();
		Out* log = &t->log; Out l = { 0 };
		if (par_live) log = &l;
		outf(log, "%d %d %llu %llu %d ", t->id, i, (unsigned long long)t0, (unsigned long long)t1, ok);
		if (o.n) out_hex(log, (uint8_t*)o.p, o.n); else outf(log, "-");
		outf(log, "\n");
		if (par_live) { if (write(par_fd, l.p, l.n) < 0) abort(); free(l.p); }
		free(copy); free(o.p);
		__atomic_store_n(&t->done, i + 1, __ATOMIC_RELAXED);
	}
	for (int i = 0; i < NCUR; i++) if (cs[i]) monotone_free(cs[i]);
	__atomic_store_n(&t->fin, true, __ATOMIC_RELAXED);
	return NULL;
}
static double cpu(void) { struct rusage r; getrusage(RUSAGE_SELF, &r);
	return r.ru_utime.tv_sec + r.ru_stime.tv_sec + (r.ru_utime.tv_usec + r.ru_stime.tv_usec) / 1e6; }
static bool par(char* rest, Out* o)
{
	char* in = next_tok(&rest); char* outp = next_tok(&rest); int stall = atoi(next_tok(&rest)); char* lv = next_tok(&rest);
	par_env = cur_env;
	par_live = lv && !strcmp(lv, "live");
	par_fd = open(outp, O_CREAT|O_TRUNC|O_WRONLY|O_APPEND, 0600);
	Th th[32]; memset(th, 0, sizeof th); int nth = 0;
	FILE* f = fopen(in, "r"); char* line = NULL; size_t cap = 0; ssize_t n;
	if (!f) { outf(o, "no %s", in); return false; }
	while ((n = getline(&line, &cap, f)) > 0) {
		if (line[n-1] == '\n') line[n-1] = 0;
		char* p = line; int t = strtol(p, &p, 10); while (*p == ' ') p++;
		if (t + 1 > nth) nth = t + 1;
		Th* x = &th[t];
		if (x->n == x->cap) { x->cap = x->cap * 2 + 64; x->cmds = realloc(x->cmds, x->cap * sizeof(char*)); }
		x->cmds[x->n++] = strdup(p);
	}
	free(line); fclose(f);
	par_th = th; par_n = nth;
	pthread_barrier_init(&bar, NULL, nth + 1);
	for (int i = 0; i < nth; i++) { th[i].id = i; pthread_create(&th[i].th, NULL, th_main, &th[i]); }
	pthread_barrier_wait(&bar);
	// watch for progress: no command completed for <stall> seconds and (nearly) no cpu used = stuck
	long last = -1; uint64_t since = now(); double c0 = cpu();
	for (;;) {
		long sum = 0; bool fin = true;
		for (int i = 0; i < nth; i++) { sum += __atomic_load_n(&th[i].done, __ATOMIC_RELAXED); fin &= __atomic_load_n(&th[i].fin, __ATOMIC_RELAXED); }
		if (fin) break;
		if (sum != last) { last = sum; since = now(); c0 = cpu(); }
		double idle = (now() - since) / 1e9;
		if (idle > stall && ((cpu() - c0) < idle * 0.5 || idle > stall * 4)) {
			outf(o, "STUCK after %.0f s cpu %.2f:", idle, cpu() - c0);
			for (int i = 0; i < nth; i++)
				if (!__atomic_load_n(&th[i].fin, __ATOMIC_RELAXED)) outf(o, " [thread %d at op %ld]", i, __atomic_load_n(&th[i].done, __ATOMIC_RELAXED));
			if (getenv("MNX_GDB")) { char b[256]; snprintf(b, sizeof b, "gdb -p %d -batch -ex 'thread apply all bt 30' > %s 2>/dev/null", getpid(), getenv("MNX_GDB")); if (system(b)) {} }
			reply(false, o->p, o->n); fflush(rep); _exit(78);
		}
		usleep(2000);
	}
	long total = 0;
	for (int i = 0; i < nth; i++) {
		pthread_join(th[i].th, NULL);
		if (th[i].log.n && write(par_fd, th[i].log.p, th[i].log.n) != (ssize_t)th[i].log.n) abort();
		total += th[i].n; free(th[i].log.p);
		for (int j = 0; j < th[i].n; j++) free(th[i].cmds[j]);
		free(th[i].cmds);
	}
	close(par_fd); pthread_barrier_destroy(&bar);
	outf(o, "%d threads %ld ops %ld delays", nth, total, ip_delays());
	return true;
}

static bool ip_cmd(char* rest, Out* o)
{
	char* c = next_tok(&rest);
	if (!strcmp(c, "root")) { ip_root(next_tok(&rest)); return true; }
	if (!strcmp(c, "off")) { ip_off(); return true; }
	if (!strcmp(c, "reset")) { ip_count_reset(); return true; }
	if (!strcmp(c, "count")) { char* m = next_tok(&rest); outf(o, "%ld", m ? ip_count(atoi(m)) : ip_calls()); return true; }
	if (!strcmp(c, "crash")) { // crash <nth> <variant> <mask> [substr]
		long n = atol(next_tok(&rest)); int v = atoi(next_tok(&rest)); int m = atoi(next_tok(&rest));
		ip_crash(n, v, m, next_tok(&rest)); return true; }
	if (!strcmp(c, "fail")) { // fail <nth> <errno> <mask> <sticky> <short> [substr]
		long n = atol(next_tok(&rest)); int e = atoi(next_tok(&rest)); int m = atoi(next_tok(&rest));
		int st = atoi(next_tok(&rest)); int sh = atoi(next_tok(&rest));
		ip_fail(n, e, m, st, sh, next_tok(&rest)); return true; }
	if (!strcmp(c, "fired")) { outf(o, "%ld", ip_fail_fired()); return true; }
	if (!strcmp(c, "partial")) { int p = atoi(next_tok(&rest)); ip_partial(p, strtoull(next_tok(&rest), NULL, 10)); return true; }
	if (!strcmp(c, "partials")) { outf(o, "%ld", ip_partials()); return true; }
	if (!strcmp(c, "shadow")) { ip_shadow(next_tok(&rest)); return true; }
	if (!strcmp(c, "trace")) { ip_trace(atoi(next_tok(&rest))); return true; }
	if (!strcmp(c, "tracefile")) { ip_tracefile(next_tok(&rest)); return true; }
	if (!strcmp(c, "dump")) { char* d = ip_trace_dump(); out_add(o, d, strlen(d)); free(d); return true; }
	if (!strcmp(c, "delay")) { int p = atoi(next_tok(&rest)), u = atoi(next_tok(&rest)); ip_delay(p, u, strtoull(next_tok(&rest), NULL, 10)); return true; }
	if (!strcmp(c, "clock")) { ip_clock(strtoll(next_tok(&rest), NULL, 10)); return true; }
	if (!strcmp(c, "hold")) { char* s = next_tok(&rest); int m = atoi(next_tok(&rest)); hold_over = 0; ip_hold(s, m, atol(next_tok(&rest))); return true; }
	if (!strcmp(c, "stall")) { char* s = next_tok(&rest); int m = atoi(next_tok(&rest)); ip_stall(s, m, atoi(next_tok(&rest))); return true; }
	outf(o, "unknown ip %s", c); return false;
}

int main(void)
{
	signal(SIGPIPE, SIG_IGN);
	rep = fdopen(dup(1), "w"); dup2(2, 1);
	setvbuf(rep, NULL, _IOFBF, 1 << 20);
	char* line = NULL; size_t cap = 0; ssize_t n;
	while ((n = getline(&line, &cap, stdin)) > 0) {
		if (line[n-1] == '\n') line[n-1] = 0;
		if (!line[0] || line[0] == '#') continue;
		char* rest = line; char* cmd = next_tok(&rest); Out o = { 0 }; bool ok = true;
		if (!strcmp(cmd, "quit")) { reply(true, "", 0); break; }
		else if (!strcmp(cmd, "env")) cur_env = atoi(next_tok(&rest));
		else if (!strcmp(cmd, "die")) { fflush(rep); _exit(77); }
		else if (!strcmp(cmd, "par")) ok = par(rest, &o);
		else if (!strcmp(cmd, "ip")) ok = ip_cmd(rest, &o);
		else if (!strcmp(cmd, "spawn")) {   // a program started by the application, it outlives this process
			char* sec = next_tok(&rest); pid_t c = fork();
			if (!c) { int n = open("/dev/null", O_RDWR); dup2(n, 0); dup2(n, 1); dup2(n, 2); execl("/bin/sleep", "sleep", sec, NULL); _exit(127); }
			outf(&o, "%d", c); }
		else if (!strcmp(cmd, "fds")) { int n = 0; for (int i = 0; i < 4096; i++) n += fcntl(i, F_GETFD) != -1; outf(&o, "%d", n); }
		else if (!strcmp(cmd, "heap")) { struct mallinfo2 i = mallinfo2(); outf(&o, "%zu", i.uordblks + i.hblkhd); }
		else if (!strcmp(cmd, "pid")) outf(&o, "%d", getpid());
		else if (!strcmp(cmd, "cpu")) outf(&o, "%.3f", cpu());
		else ok = run_cmd(cmd, rest, &o, cursors);
		reply(ok, o.p ? o.p : "", o.n);
		free(o.p);
	}
	free(line);
	return 0;
}
