#pragma once
// Link-time interposition of the library's system calls (see ipose.c).
#include <stdint.h>
#include <stdbool.h>
enum {
	IP_OPENW  = 1 << 0,  // open that may create/truncate
	IP_OPENR  = 1 << 1,
	IP_READ   = 1 << 2,
	IP_WRITE  = 1 << 3,
	IP_SYNC   = 1 << 4,
	IP_TRUNC  = 1 << 5,
	IP_RENAME = 1 << 6,
	IP_UNLINK = 1 << 7,
	IP_MKDIR  = 1 << 8,
	IP_RMDIR  = 1 << 9,
	IP_OPENDIR= 1 << 10,
	IP_MMAP   = 1 << 11,
	IP_CLOSE  = 1 << 12
};
#define IP_MUTATE (IP_OPENW|IP_WRITE|IP_TRUNC|IP_RENAME|IP_UNLINK|IP_MKDIR|IP_RMDIR)
void ip_root(const char* dir);
void ip_off(void);
void ip_count_reset(void);
long ip_count(int mask);
void ip_crash(long nth, int variant, int mask, const char* substr);
void ip_fail(long nth, int err, int mask, bool sticky, bool shortw, const char* substr);
long ip_fail_fired(void);
long ip_calls(void);
void ip_partial(int pm, uint64_t seed);
long ip_partials(void);
void ip_shadow(const char* dir);
void ip_trace(int on);
char* ip_trace_dump(void);
void ip_tracefile(const char*);
void ip_delay(int per_mille, int max_us, uint64_t seed);
long ip_delays(void);
long ip_sched_points(void);
void ip_hold(const char* substr, int mask, long nth);
bool ip_held(int* kind, const char** path);
void ip_release(void);
void ip_disarm(void);
void ip_stall(const char* substr, int mask, int ms);
void ip_clock(long long us);
