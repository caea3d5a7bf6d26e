// Native driver: replays a recorded input sequence, or searches with a biased generator.
#include <setjmp.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>

void harness(void);
void vf_native_setup(void);
void vf_native_teardown(void);

static sigjmp_buf env;
static int mode_replay, expect_no_exit;
static long *replay; static int replay_n, pos;
static long rec[65536]; static int rec_n;
static unsigned long rng = 88172645463325252UL;
static long runs, skipped, passed;

static unsigned long rnd(void) { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; }

static void record(long v) { if (rec_n < 65536) rec[rec_n++] = v; }

static long gen_long(void) {
    static long special[] = {0, 1, 2, 3, 4, 5, 7, 8, 10, 15, 16, 31, 32, 33, 63, 64, 127, 128, 255, 256, 32767, 32768, 65535, 65536,
        2147483647L, 2147483648L, 4294967295L, 4294967296L, 9223372036854775807L, 4607182418800017408L /* 1.0 */, 4609434218613702656L /* 1.5 */,
        4602678819172646912L /* 0.5 */, 4611686018427387904L /* 2.0 */};
    int n = sizeof(special) / sizeof(*special);
    long v;
    switch (rnd() % 8) {
        case 0: case 1: return special[rnd() % n];
        case 2: return -special[rnd() % n] - (long) (rnd() & 1);
        case 3: return (long) (rnd() % 20) - 10;
        case 4: v = 1UL << (rnd() & 63); return v - (long) (rnd() % 3) + 1;
        case 5: return (int) rnd();
        case 6: { union { double d; long l; } u; u.d = ((double) (long) (rnd() % 2000000) - 1000000) / (1 << (rnd() % 12)); return u.l; }
        default: return rnd();
    }
}

long vf_long(void) {
    long v = mode_replay ? (pos < replay_n ? replay[pos] : 0) : gen_long();
    pos++; record(v); return v;
}

long vf_range(long lo, long hi) {
    long v;
    if (mode_replay) {
        v = pos < replay_n ? replay[pos] : lo;
        pos++;
        record(v);
        if (v < lo || v > hi) siglongjmp(env, 1);
        return v;
    }
    unsigned long span = (unsigned long) hi - (unsigned long) lo + 1;
    if (span == 0) v = gen_long();
    else if (span > 4096 && (rnd() & 3)) { int tries = 0; do v = gen_long(); while ((v < lo || v > hi) && ++tries < 30); if (v < lo || v > hi) v = lo + (long) (rnd() % span); }
    else v = lo + (long) (rnd() % span);
    pos++; record(v); return v;
}

static void dump(const char *what) {
    printf("VF_FAIL %s\nVF_INPUTS", what);
    for (int i = 0; i < rec_n; i++) printf(" %ld", rec[i]);
    printf("\n");
    fflush(stdout);
}

void vf_assume(int c) { if (!c) siglongjmp(env, 1); }
void vf_check(const char *name, int c) { if (!c) { dump(name); _Exit(1); } }
void vf_expect_no_exit(int on) { expect_no_exit = on; }
void vf_exit(int code) { if (expect_no_exit) { dump("the compiler gave up (error exit) on an input it must accept"); _Exit(1); } siglongjmp(env, 1); }
static void on_signal(int sig) { char b[64]; sprintf(b, "the compiler crashed with signal %d", sig); dump(b); _Exit(1); }
static void on_death(void) { dump("memory error (address sanitizer)"); }
static void on_alarm(int sig) { dump("the compiler does not terminate (10 s)"); _Exit(1); }
void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));

int main(int argc, char **argv) {
    if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(on_death);
    signal(SIGSEGV, on_signal); signal(SIGFPE, on_signal); signal(SIGABRT, on_signal); signal(SIGBUS, on_signal); signal(SIGALRM, on_alarm);
    freopen("/dev/null", "w", stderr);
    if (argc > 2 && !strcmp(argv[1], "replay")) {
        mode_replay = 1;
        replay = malloc(sizeof(long) * (argc));
        for (int i = 2; i < argc; i++) replay[replay_n++] = strtol(argv[i], 0, 10);
        alarm(10);
        vf_native_setup();
        if (sigsetjmp(env, 1)) { printf("VF_SKIPPED\n"); return 0; }
        harness();
        printf("VF_OK\n");
        return 0;
    }
    double secs = argc > 2 ? atof(argv[2]) : 5;
    long seed = argc > 3 ? atol(argv[3]) : 1;
    long maxruns = argc > 4 ? atol(argv[4]) : 1000000000L;
    rng ^= (unsigned long) seed * 0x9E3779B97F4A7C15UL; if (!rng) rng = 1;
    for (int i = 0; i < 20; i++) rnd();
    struct timespec t0, t; clock_gettime(CLOCK_MONOTONIC, &t0);
    while (runs < maxruns) {
        if ((runs & 15) == 0) {
            clock_gettime(CLOCK_MONOTONIC, &t);
            if (t.tv_sec - t0.tv_sec + (t.tv_nsec - t0.tv_nsec) / 1e9 > secs) break;
            alarm(10);
        }
        runs++;
        rec_n = pos = 0; expect_no_exit = 0;
        vf_native_setup();
        if (sigsetjmp(env, 1)) { skipped++; vf_native_teardown(); continue; }
        harness();
        passed++;
        vf_native_teardown();
    }
    printf("VF_SEARCHED runs=%ld checked=%ld skipped=%ld\n", runs, passed, skipped);
    return 0;
}
