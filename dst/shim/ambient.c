/* Clock and entropy seam: loaded with LD_PRELOAD into the simulated process.
   Passes everything through until told otherwise (by DST_CLOCK / DST_ENTROPY in the
   environment when the process starts, or by dst_clock / dst_entropy). */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <pthread.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/time.h>
#include <sys/types.h>
#include <time.h>

#define MAXJ 32
static int on_clock, on_entropy, on_mono;
static long long base_ns, step_ns, reads, mono_reads, mono_base, mono_step;
static int njump;
static long long jump_at[MAXJ], jump_by[MAXJ];
static uint64_t ent;
static long long ent_reads;
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static int (*real_gettime)(clockid_t, struct timespec *);
static ssize_t (*real_getrandom)(void *, size_t, unsigned);
static int (*real_getentropy)(void *, size_t);

void dst_clock(int on, long long base, long long step) {
    on_clock = on; base_ns = base; step_ns = step; reads = 0; njump = 0;
}
void dst_jump(long long at, long long by) {
    if (njump < MAXJ) { jump_at[njump] = at; jump_by[njump] = by; njump++; }
}
void dst_mono(int on, long long base, long long step) { on_mono = on; mono_base = base; mono_step = step; mono_reads = 0; }
void dst_entropy(int on, unsigned long long seed) { on_entropy = on; ent = seed * 2862933555777941757ULL + 3037000493ULL; ent_reads = 0; }
long long dst_reads(void) { return reads; }
long long dst_ent_reads(void) { return ent_reads; }

static long long now_ns(void) {
    long long t;
    pthread_mutex_lock(&mu);
    t = base_ns + reads * step_ns;
    for (int i = 0; i < njump; i++) if (reads >= jump_at[i]) t += jump_by[i];
    reads++;
    pthread_mutex_unlock(&mu);
    return t;
}

__attribute__((constructor)) static void init(void) {
    real_gettime = dlsym(RTLD_NEXT, "clock_gettime");
    real_getrandom = dlsym(RTLD_NEXT, "getrandom");
    real_getentropy = dlsym(RTLD_NEXT, "getentropy");
    const char *c = getenv("DST_CLOCK");
    if (c && *c) {
        char *e;
        long long b = strtoll(c, &e, 10), s = 0;
        if (*e == ',') s = strtoll(e + 1, &e, 10);
        dst_clock(1, b, s);
        while (*e == ',') {
            long long at = strtoll(e + 1, &e, 10), by = 0;
            if (*e == ':') by = strtoll(e + 1, &e, 10);
            dst_jump(at, by);
        }
    }
    c = getenv("DST_ENTROPY");
    if (c && *c) dst_entropy(1, strtoull(c, 0, 10));
}

static void split(long long t, struct timespec *ts) {
    long long s = t / 1000000000LL, n = t % 1000000000LL;
    if (n < 0) { n += 1000000000LL; s--; }
    ts->tv_sec = s; ts->tv_nsec = n;
}

int clock_gettime(clockid_t id, struct timespec *ts) {
    if (on_clock && ts && (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE || id == CLOCK_TAI)) {
        split(now_ns(), ts);
        return 0;
    }
    if (on_mono && ts && (id == CLOCK_MONOTONIC || id == CLOCK_MONOTONIC_RAW || id == CLOCK_BOOTTIME ||
                          id == CLOCK_MONOTONIC_COARSE || id == CLOCK_PROCESS_CPUTIME_ID || id == CLOCK_THREAD_CPUTIME_ID)) {
        split(mono_base + mono_step * __sync_fetch_and_add(&mono_reads, 1), ts);
        return 0;
    }
    if (!real_gettime) real_gettime = dlsym(RTLD_NEXT, "clock_gettime");
    return real_gettime(id, ts);
}

time_t time(time_t *out) {
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (out) *out = ts.tv_sec;
    return ts.tv_sec;
}

int gettimeofday(struct timeval *tv, void *tz) {
    struct timespec ts;
    (void)tz;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (tv) { tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; }
    return 0;
}

static void fill(void *buf, size_t n) {
    unsigned char *p = buf;
    pthread_mutex_lock(&mu);
    ent_reads++;
    for (size_t i = 0; i < n; i++) {
        ent = ent * 6364136223846793005ULL + 1442695040888963407ULL;
        p[i] = (unsigned char)(ent >> 33);
    }
    pthread_mutex_unlock(&mu);
}

ssize_t getrandom(void *buf, size_t n, unsigned flags) {
    if (on_entropy) { fill(buf, n); return (ssize_t)n; }
    if (!real_getrandom) real_getrandom = dlsym(RTLD_NEXT, "getrandom");
    return real_getrandom(buf, n, flags);
}

int getentropy(void *buf, size_t n) {
    if (on_entropy) { fill(buf, n); return 0; }
    if (!real_getentropy) real_getentropy = dlsym(RTLD_NEXT, "getentropy");
    return real_getentropy(buf, n);
}
