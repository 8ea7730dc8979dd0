/* Native driver of a unit: replays a counterexample, or searches at random. */
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <signal.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <string.h>
#include <unistd.h>
#include <time.h>
int vh_random;
static FILE *in;
static uint64_t seed;
static char logbuf[1 << 16];
static size_t logn;
void vh_main(void);
static uint64_t rnd(void) { seed ^= seed << 13; seed ^= seed >> 7; seed ^= seed << 17; return seed; }
uint64_t vh_nd(unsigned bits)
{
    uint64_t v = 0;
    if (!vh_random) {
        if (!in || fscanf(in, "%lu", &v) != 1) v = 0;
    } else {
        switch (rnd() % 8) {
        case 0: v = 0; break;
        case 1: v = 1; break;
        case 2: v = rnd() % 4; break;
        case 3: v = rnd() % 8; break;
        case 4: v = (rnd() & 1) ? 0xffffffffffffffffull - rnd() % 3 : 1ull << (rnd() % bits); break;
        case 5: v = 32 + rnd() % 96; break;
        case 6: v = (1ull << (bits - 1)) - 2 + rnd() % 5; break;
        default: v = rnd();
        }
    }
    if (bits < 64) v &= (1ull << bits) - 1;
    if (logn + 32 < sizeof logbuf) logn += sprintf(logbuf + logn, "%lu\n", v);
    return v;
}
static void dump(void)
{
    const char *o = getenv("VH_OUT");
    if (!vh_random || !o) return;
    FILE *f = fopen(o, "w");
    if (f) { fwrite(logbuf, 1, logn, f); fclose(f); }
}
void vh_assume_fail(void)
{
    if (vh_random) _exit(77);
    printf("ASSUME-FAILED: the input does not satisfy the precondition\n");
    fflush(stdout);
    _exit(77);
}
void vh_check_fail(const char *what, const char *file, int line)
{
    printf("CHECK-FAILED: %s (%s:%d)\n", what, file, line);
    fflush(stdout);
    dump();
    _exit(42);
}
void vh_reach(const char *what) { (void)what; }
void __sanitizer_set_death_callback(void (*)(void));
const char *__ubsan_default_options(void) { return "halt_on_error=1:print_stacktrace=1"; }
int main(int argc, char **argv)
{
    if (argc > 3 && !strcmp(argv[1], "--random")) {
        __sanitizer_set_death_callback(dump);
        vh_random = 1;
        volatile long secs = atol(argv[3]);
        seed = strtoull(argv[2], NULL, 10) * 0x9E3779B97F4A7C15ull + 88172645463325252ull;
        volatile time_t end = time(NULL) + secs;
        volatile long n = 0, ok = 0;
        while (time(NULL) < end) {
            n++;
            /* each attempt in a process of its own: no state is left over */
            int st = 0;
            pid_t pid;
            seed += 0x9E3779B97F4A7C15ull;
            fflush(stdout);
            pid = fork();
            if (pid < 0) break;
            if (pid == 0) { alarm(20); vh_main(); _exit(0); }
            waitpid(pid, &st, 0);
            if (WIFEXITED(st) && WEXITSTATUS(st) == 0) ok++;
            else if (WIFEXITED(st) && WEXITSTATUS(st) == 77) ;
            else if (WIFEXITED(st)) _exit(WEXITSTATUS(st));
            else if (WTERMSIG(st) != SIGALRM && WTERMSIG(st) != SIGKILL) _exit(128 + WTERMSIG(st));
        }
        printf("RANDOM runs=%ld satisfying-precondition=%ld\n", n, ok);
        fflush(stdout);
        _exit(0);
    }
    if (argc > 1) in = fopen(argv[1], "r");
    vh_main();
    printf("PASSED\n");
    fflush(stdout);
    _exit(0);
}

/* stands for every function of the project that the unit cannot reach */
void vh_unmodelled(void) { fprintf(stderr, "function outside the unit called\n"); abort(); }
